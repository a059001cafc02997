"""P10: concurrent threads."""
import os, sys, threading
import numpy as np
from vlib import build, simo
from vlib.zyg import Zygote
from props.p02 import gen_noise_op, do_noise_op

RULE = ("Random programs of 2 to 6 threads (1D and 2D simulation with own generators, sharing a constant variogram or not; one thread on the shared stream; variogram evaluation, copies and changes; transforms; "
        "distributions) run under ThreadSanitizer with random delays, and every result is compared with the same operation run alone, before or after. The Python package is called from 2 to 8 threads with a tiny switch interval, next to threads making "
        "other calls; the multiset of fields must be that of a serial run. Distinct by the sequence of operation kinds and the number of overlaps observed.")
DIRS = ["nrlib/variogram", "nrlib/fft", "nrlib/random", "nrlib/exception", "nrlib/grid", "nrlib/math", "nrlib/iotools"]
SUPP = "race:^fftw\nrace:mkl_\nrace:Dfti\n"


def py_init(w):
    import gaussianfft
    w.g = gaussianfft
    w.z = Zygote(lambda req: child(w.g, req))


def child(g, req):
    seed, nt, per, spec, noise, sw = req
    from vlib.simo import Vario
    t, r, az, dip, pw, args = spec
    v = Vario(t, *r, az, dip, pw).ext(g)
    g.seed(seed)
    serial = [np.array(g.simulate(v, *args)) for _ in range(nt * per)]
    g.seed(seed)
    sys.setswitchinterval(sw)
    out, errs, stop = [[] for _ in range(nt)], [], threading.Event()
    bar = threading.Barrier(nt + len(noise))
    size = list(g.simulation_size(v, *args))

    def sim(k):
        try:
            bar.wait()
            for _ in range(per):
                out[k].append(g.simulate(v, *args))
        except Exception as e:
            errs.append(repr(e))

    def other(ops):
        keep = []
        try:
            bar.wait()
            while not stop.is_set():
                for o in ops:
                    try:
                        do_noise_op(g, o, keep)
                    except (TypeError, ValueError, RuntimeError):
                        pass
                if list(g.simulation_size(v, *args)) != size:
                    errs.append("simulation_size changed")
                keep.clear()
        except Exception as e:
            errs.append(repr(e))
    ths = [threading.Thread(target=sim, args=(k,)) for k in range(nt)]
    oth = [threading.Thread(target=other, args=(o,)) for o in noise]
    for x in ths + oth:
        x.start()
    for x in ths:
        x.join()
    stop.set()
    for x in oth:
        x.join()
    sys.setswitchinterval(0.005)
    return serial, out, errs, g.seed()


def py(w, c, rng):
    nd = int(rng.integers(1, 4))
    t = simo.TYPES[int(rng.integers(0, 7))]
    n = [int(rng.integers(2, {1: 400, 2: 40, 3: 12}[nd])) for _ in range(nd)]
    args = []
    for x in n:
        args += [x, float(rng.uniform(.8, 2))]
    r = [float(rng.uniform(1, 5)) for _ in range(3)]
    spec = (t, r, float(rng.choice([0, 30, 90])), float(rng.choice([0, 20])), 1.5, args)
    nt, per = int(rng.integers(2, 9)), int(rng.integers(3, 12))
    noise = [[gen_noise_op(rng) for _ in range(3)] for _ in range(int(rng.integers(0, 3)))]
    seed = int(rng.integers(0, 2 ** 32))
    st, res = w.z((seed, nt, per, spec, noise, float(10.0 ** rng.uniform(-6, -3))))
    if not w.check(st == "ok", "thread-crash", "%s %s with %d threads, %s" % (st, res if st == "exc" else "", nt, spec)):
        return
    serial, out, errs, s = res
    w.check(not errs, "thread-exception", "%s with %d threads" % (errs[:3], nt))
    w.check(s == seed, "thread-seed", "seed %s reported, %s set" % (s, seed))
    ncell = int(np.prod(n))
    key = lambda f: np.round(np.asarray(f, float) / 1e-7).astype(np.int64)[:8]
    left = [f for f in serial]
    bad = 0
    for fs in out:
        pos = -1
        for f in fs:
            f = np.asarray(f)
            if not w.check(f.dtype == np.float64 and f.shape == (ncell,) and np.isfinite(f).all(), "thread-field", "shape %s expected %d cells" % (f.shape, ncell)):
                continue
            hit = [i for i, q in enumerate(serial) if np.abs(q - f).max() <= 1e-8]
            w.check(len(hit) == 1, "thread-multiset", lambda: "a field of a thread is none of the %d serial fields under seed %d (%s)" % (len(serial), seed, spec))
            if len(hit) == 1:
                # a thread sees the stream in order, and no field is given twice
                w.check(hit[0] > pos, "thread-order", "a thread got field %d after field %d" % (hit[0], pos))
                pos = hit[0]
                left[hit[0]] = None
    miss = sum(x is not None for x in left)
    w.check(miss == 0 or errs, "thread-multiset", "%d of %d serial fields were not produced by the threads" % (miss, len(serial)))
    order = []
    for k, fs in enumerate(out):
        for f in fs:
            h = [i for i, q in enumerate(serial) if q.shape == np.shape(f) and np.abs(q - f).max() <= 1e-8]
            if h:
                order.append((h[0], k))
    order = [k for _, k in sorted(order)]
    w.stat("thread switches between fields", sum(a != b for a, b in zip(order, order[1:])))
    w.stat("fields by threads", len(order))
    w.sig(tuple(order), nd, t)
    w.sample("%d threads, %d fields, order of threads %s" % (nt, len(serial), order[:24]))


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["the transform library of the package (MKL) is thread safe by its documentation and is not instrumented", "the shared stream is used by one thread at a time in C++; in Python by any number",
                       "results of transforms may differ by rounding with the alignment of their buffers"]
    b, pkg = build.parallel(lambda: build.build_cpp("p10", "p10_thr.cpp", DIRS, "tsan", "-isystem %s/include/fftw" % build.VENV, build.MKL), lambda: build.build_ext("release"))
    ctx.log("built")
    sf = os.path.join(ctx.work, "tsan.supp")
    with open(sf, "w") as f:
        f.write(SUPP)
    ctx.run_cpp(b, ctx.n(1600, 30000), [], shards=4, flavour_env={"TSAN_OPTIONS": "exitcode=66:halt_on_error=1:second_deadlock_stack=1:history_size=4:suppressions=" + sf}, label="tsan")
    ctx.log("tsan done")
    ctx.run_py("py", ctx.n(160, 3000), pkg, shards=4)
