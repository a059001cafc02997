"""P09: memory safety, undefined behaviour, leaks of the simulation API."""
import ctypes, os, subprocess
import numpy as np
from vlib import simo, build
from vlib.simo import Vario, default_pad

RULE = ("Random histories of all simulation entry points with small and degenerate grids (one cell, zero padding, sub-cell ranges): (a) C++ API under ASan, UBSan incl. "
        "float-cast-overflow, LSan and libstdc++ assertions; (b) the same histories under two heap fill patterns, results compared, so that uninitialised memory shows; "
        "(c) under valgrind memcheck; (d) the Python package built with ASan+UBSan; (e) heap bytes in use before and after thousands of equal calls of the release package. "
        "Distinct by (call, sizes, paddings).")


NOTC = {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}  # blocks in glibc's per-thread cache count as in use


def lib(n):
    return subprocess.run(["gcc", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()


def gen(rng, tiny):
    for _ in range(5000):
        t = simo.TYPES[int(rng.integers(0, 8))]
        nd = int(rng.integers(1, 4))
        n = [int(rng.integers(1 if k == 0 else 2, {1: 60, 2: 14, 3: 8}[nd])) for k in range(nd)]
        d = [float(np.exp(rng.uniform(-1, 1.5))) for _ in range(nd)]
        r = np.exp(rng.uniform(-1 if rng.random() < .9 else -15, 2.0, 3))
        v = Vario(t, *[float(x) for x in r], float(rng.choice([0, 30, 90, 180, 360, -20])), float(rng.choice([0, 0, 20, 90])), float(rng.choice([1.5, 1.0, 2.0])))
        if np.prod([a + b for a, b in zip(n, default_pad(v, n, d))]) < tiny:
            return v, n, d
    raise RuntimeError


def kwargs(rng, nd):
    kw = {}
    for k in range(3):
        if rng.random() < .4:
            kw[("padx", "pady", "padz")[k]] = int(rng.choice([-1, 0, 0, 1, 2, 7]))
        if rng.random() < .3:
            kw[("sx", "sy", "sz")[k]] = float(rng.choice([1.0, 0.5, 0.01, 2.0]))
    return kw


def ext_init(w):
    import gaussianfft
    w.g = gaussianfft
    w.keep = []


def ext(w, c, rng):
    """the package under ASan/UBSan"""
    g = w.g
    for _ in range(6):
        v, n, d = gen(rng, 20000)
        a = []
        for x, y in zip(n, d):
            a += [x, y]
        vv = v.ext(g)
        k = int(rng.integers(0, 6))
        if k == 0:
            g.seed(int(rng.integers(0, 2 ** 32)))
        elif k == 1:
            f = g.advanced.simulate(vv, *a, **kwargs(rng, len(n)))
            w.check(np.isfinite(f).all(), "not-finite", lambda: "%s %s %s" % (v, n, d))
            w.keep.append(f)
        elif k == 2:
            f = g.simulate(vv, *a)
            w.check(np.isfinite(f).all(), "not-finite", lambda: "%s %s %s" % (v, n, d))
            w.keep.append((f, vv))
        elif k == 3:
            g.simulation_size(vv, *a)
            vv.corr(1.0), vv.corr(1.0, 2.0), vv.corr(1.0, 2.0, 3.0)
        elif k == 4:
            w.keep = w.keep[-3:]
        else:
            for bad in (lambda: g.simulate(vv, -1, 1.0), lambda: g.simulate(vv, "a", 1.0), lambda: g.variogram(3), lambda: g.simulate(vv)):
                try:
                    bad()
                except (TypeError, ValueError):
                    pass
            g.simulate(vv, 0, 1.0)
        w.check(True, "alive", "")
        w.stat("sanitized_package_calls")
        w.sig("ext", k, tuple(n), v.t)


class MI(ctypes.Structure):
    _fields_ = [(x, ctypes.c_size_t) for x in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


def bytes_in_use(libc):
    import gc
    gc.collect()
    m = libc.mallinfo2()
    return m.uordblks + m.hblkhd


def heap_init(w):
    import gaussianfft
    w.g = gaussianfft
    w.libc = ctypes.CDLL("libc.so.6")
    w.libc.mallinfo2.restype = MI


def heap(w, c, rng):
    g = w.g
    v, n, d = gen(rng, 1500)
    a = []
    for x, y in zip(n, d):
        a += [x, y]
    kw = kwargs(rng, len(n))

    def call():
        vv = v.ext(g)
        g.simulate(vv, *a)
        g.advanced.simulate(vv, *a, **kw)
        g.simulation_size(vv, *a)
        g.variogram(v.t.upper(), 3.0).corr(1.0)
        g.seed(5)
        g.seed()
    for _ in range(60):
        call()
    use = [bytes_in_use(w.libc)]
    R = 150
    for _ in range(3):
        for _ in range(R):
            call()
        use.append(bytes_in_use(w.libc))
    growth = min(use[k + 1] - use[k] for k in range(3))
    w.check(growth < R * 8, "heap-grows", lambda: "%s n=%s d=%s %s: heap in use %s after blocks of %d equal rounds" % (v, n, d, kw, use, R))
    w.stat("equal_rounds", 3 * R + 60)
    w.stat("blocks_without_growth", int(growth <= 0))
    w.sig("heap", v.t, tuple(n))
    w.sample("%s n=%s: bytes in use %s" % (v, n, use))


def digests(ctx, b, n, opt):
    e = dict(ctx._env(None))
    e["ASAN_OPTIONS"] += ":" + opt
    wd = os.path.join(ctx.work, "dig")
    os.makedirs(wd, exist_ok=True)
    ps = [subprocess.Popen([b, "--seed", str(ctx.seed), "--first", str(s), "--end", str(n), "--step", "4", "--mode", "digest"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, cwd=wd)
          for s in range(4)]
    out = {}
    for p in ps:
        o, _ = p.communicate()
        for l in o.splitlines():
            if l.startswith("X\tdigest"):
                _, k, h = l.split("\t")[1].split()
                out[int(k)] = h
    return out


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["valid arguments: positive steps and ranges, sizes and paddings that fit in memory", "MKL and FFTW themselves are not instrumented"]
    asan, plain, rel, ea = build.parallel(lambda: build.build_cpp("p09", "p09_mem.cpp", simo.SIMDIRS, "asanf"), lambda: build.build_cpp("p09", "p09_mem.cpp", simo.SIMDIRS, "plain"),
                                          lambda: build.build_ext("release"), lambda: build.build_ext("asan"))
    ctx.log("built")
    ctx.run_cpp(asan, ctx.n(4000, 60000), ["--mode", "hist"])
    ctx.log("histories done")
    n = ctx.n(1200, 10000)
    d1, d2 = digests(ctx, asan, n, "max_malloc_fill_size=1000000000:malloc_fill_byte=0"), digests(ctx, asan, n, "max_malloc_fill_size=1000000000:malloc_fill_byte=191")
    for k in sorted(set(d1) | set(d2)):
        ctx.note("fill%d" % (k % 50))
        if d1.get(k) != d2.get(k):
            ctx.violation("depends-on-uninitialised-memory", "history %d gives different results under two heap fill patterns" % k,
                          {"cmd": [asan, "--seed", str(ctx.seed), "--first", str(k), "--end", str(k + 1), "--step", "1", "--mode", "digest"], "note": "compare ASAN_OPTIONS malloc_fill_byte=0 and 191"})
    ctx.stat("histories_compared_under_two_fill_patterns", len(set(d1) & set(d2)))
    ctx.run_cpp(plain, ctx.n(200, 2000), ["--mode", "bytes"], flavour_env=NOTC)
    ctx.run_cpp("valgrind", ctx.n(24, 400), prefix=["-q", "--error-exitcode=78", "--exit-on-first-error=yes", "--leak-check=full", "--errors-for-leak-kinds=definite", plain], args=["--mode", "vg"])
    ctx.log("valgrind done")
    pre = lib("libasan.so") + " " + lib("libubsan.so")
    env = {"LD_PRELOAD": pre, "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_odr_violation=0", "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77:halt_on_error=1",
           "PYTHONMALLOC": "malloc"}
    ctx.run_py("ext", ctx.n(400, 6000), ea, env=env, label="asan package")
    ctx.log("package under ASan done")
    ctx.run_py("heap", ctx.n(48, 600), rel, env=NOTC)
