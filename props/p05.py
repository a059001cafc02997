"""P05: layout, dimension collapse and argument binding of the Python API."""
import subprocess
import numpy as np
from vlib import simo, build
from vlib.simo import Vario, SimTool, default_pad

RULE = ("Random (variogram, grid, argument style) calls. Monitors: shape/dtype/finite/fresh memory; cell-by-cell equality with the C++ grid(i,j,k) of the same "
        "seed; measured correlation along each axis of a field that is constant along one axis only; equality of every spelling of the same call "
        "(positional, keyword, enum, letter case, numpy scalars, neutral advanced settings) and of every collapsed form with the lower-dimensional call. "
        "Non-trivial: every case; distinct by (type, dims, sizes, spelling).")


def close(a, b, tol=1e-8):
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


def gen(rng, nd=None):
    while True:
        t = simo.TYPES[int(rng.integers(0, 8))]
        r = np.exp(rng.uniform(0, 2.0, 3))
        v = Vario(t, float(r[0]), float(r[1]), float(r[2]), float(rng.choice([0, 30, 90, 123.4, -20, 400])), float(rng.choice([0, 0, 10, 45, 90])),
                  float(rng.choice([1.5, 1.2, 1.9])))
        nd_ = nd or int(rng.integers(1, 4))
        n = [int(rng.integers(2, {1: 80, 2: 24, 3: 10}[nd_])) for _ in range(nd_)]
        if rng.random() < .2:
            n[0] = 1
        d = [float(np.exp(rng.uniform(-0.3, 1.0))) for _ in range(nd_)]
        if simo.ratio(v.t, v.power) > 0 and np.prod([a + b for a, b in zip(n, default_pad(v, n, d))]) < 12000:
            return v, n, d


def inter(n, d):
    a = []
    for x, y in zip(n, d):
        a += [x, y]
    return a


NAMES = ("nx", "dx", "ny", "dy", "nz", "dz")


def api_init(w):
    import gaussianfft
    w.g = gaussianfft
    w.tool = SimTool(w, w.opt["--simtool"])


def api_end(w):
    w.tool.close()


def api(w, c, rng):
    g = w.g
    v, n, d = gen(rng)
    nd = len(n)
    s = int(rng.integers(0, 2 ** 32))
    vv = v.ext(g)
    probe = [tuple(float(x) for x in rng.uniform(-3, 3, k)) for k in (1, 2, 3)]
    before = [vv.corr(*p) for p in probe]

    def sim(f, *a, **k):
        g.seed(s)
        return f(*a, **k)
    ref = sim(g.simulate, vv, *inter(n, d))
    w.check(isinstance(ref, np.ndarray) and ref.ndim == 1 and ref.dtype == np.float64 and ref.size == int(np.prod(n)), "result-shape",
            lambda: "%s n=%s: %s %s" % (v, n, ref.dtype, ref.shape))
    w.check(np.isfinite(ref).all(), "not-finite", lambda: "%s n=%s d=%s seed %d" % (v, n, d, s))
    keep = ref.copy()
    # layout: cell by cell against the C++ accessors
    w.tool(v.cmd())
    fl = " ".join("%d %r" % (a, b) for a, b in zip(n, d))
    cpp = w.tool({1: "ens1 1 %d 1 %s -1 1.0", 2: "ens2 1 %d 1 %s -1 -1 1.0 1.0 1", 3: "ens3 %d 1 %s -1 -1 -1 1.0 1.0 1.0 1"}[nd] % (s, fl))
    w.check(close(ref, cpp, 1e-6), "layout-differs-from-grid", lambda: "%s n=%s d=%s seed %d: max difference %.3g" % (v, n, d, s, np.abs(ref - cpp).max() if ref.shape == cpp.shape else -1))
    # collapse
    alt = []
    if nd == 1:
        e, z = int(rng.integers(2, 9)), int(rng.integers(2, 9))
        alt = [("ny=1", [1]), ("ny=0", [0]), ("ny=1,dy=2", [1, 2.0]), ("ny=%d,dy<0" % e, [e, -1.0]), ("ny=%d only" % e, [e]), ("ny=1,nz=%d" % z, [1, 1.5, z, 2.0]),
               ("ny=%d,dy<0,nz=%d" % (e, z), [e, -0.5, z, 2.0]), ("ny=0,nz=%d" % z, [0, 1.0, z, 1.0]), ("ny=1,nz=1", [1, 1.0, 1, 1.0])]
    elif nd == 2:
        z = int(rng.integers(2, 9))
        alt = [("nz=1", [1]), ("nz=0", [0]), ("nz=1,dz=3", [1, 3.0]), ("nz=%d,dz<0" % z, [z, -2.0]), ("nz=%d only" % z, [z])]
    for name, extra in alt:
        f = sim(g.simulate, vv, *inter(n, d), *extra)
        w.check(close(f, ref), "collapse:" + str(nd), lambda: "%s n=%s d=%s with %s: %s values, max difference %s" % (
            v, n, d, name, f.size, np.abs(f - ref).max() if f.shape == ref.shape else "-"))
        f = sim(g.advanced.simulate, vv, *inter(n, d), *extra)
        w.check(close(f, ref), "collapse-advanced:" + str(nd), lambda: "%s n=%s d=%s with %s" % (v, n, d, name))
        a, b = list(g.simulation_size(vv, *inter(n, d))), list(g.simulation_size(vv, *inter(n, d), *extra))
        w.check(a == b, "collapse-size:" + str(nd), lambda: "%s n=%s d=%s with %s: %s, not %s" % (v, n, d, name, b, a))
        w.stat("collapsed_calls_compared")
    # spellings
    kw = dict(zip(NAMES, inter(n, d)))
    items = list(kw.items())
    perm = [items[i] for i in rng.permutation(len(items))]
    npk = {k: (np.int64(x) if isinstance(x, int) else np.float64(x)) for k, x in perm}
    cut = int(rng.integers(0, len(items) + 1))
    sp = [("keywords", lambda: g.simulate(vv, **dict(perm))), ("keyword variogram", lambda: g.simulate(variogram=vv, **dict(perm))),
          ("numpy scalars", lambda: g.simulate(vv, **npk)), ("mixed", lambda: g.simulate(vv, *[x for _, x in items[:cut]], **dict(items[cut:]))),
          ("advanced", lambda: g.advanced.simulate(vv, *inter(n, d))), ("advanced keywords", lambda: g.advanced.simulate(variogram=vv, **dict(perm))),
          ("advanced neutral", lambda: g.advanced.simulate(vv, **dict(perm), padx=-1, pady=-1, padz=-1, sx=1.0, sy=1.0, sz=1.0)),
          ("advanced neutral positional", lambda: g.advanced.simulate(vv, *(inter(n, d) + [1, -1.0, 1, -1.0])[:6], -1, -1, -1, 1.0, 1.0, 1.0)),
          ("advanced neutral 2", lambda: g.advanced.simulate(vv, *inter(n, d), padx=-7, pady=-3, padz=-2, sx=1.5, sy=2.0, sz=1.0))]
    pads = [x - y for x, y in zip(g.simulation_size(vv, *inter(n, d)), n)]
    pk = dict(zip(("padx", "pady", "padz"), pads))
    # the other axes' settings must not matter below their dimension
    other = {k: int(rng.integers(0, 9)) for k in ("padx", "pady", "padz")[nd:]}
    other.update({k: float(rng.uniform(.01, .9)) for k in ("sx", "sy", "sz")[nd:]})
    sp += [("explicit default padding", lambda: g.advanced.simulate(vv, *inter(n, d), **pk)), ("settings of unused axes", lambda: g.advanced.simulate(vv, *inter(n, d), **other))]
    if all(x == int(x) for x in d):
        pass
    for name, f in sp:
        x = sim(f)
        w.check(close(x, ref), "spelling:" + name.replace(" ", "-"), lambda: "%s n=%s d=%s pads=%s other=%s: %d values, max difference %s" % (
            v, n, d, pads, other, x.size, np.abs(x - ref).max() if x.shape == ref.shape else "-"))
        w.stat("call_spellings_compared")
    # integer steps bind as floats
    di = [max(1, int(round(x))) for x in d]
    w.check(close(sim(g.simulate, vv, *inter(n, di)), sim(g.simulate, vv, *inter(n, [float(x) for x in di]))), "spelling:int-steps", lambda: "%s n=%s d=%s" % (v, n, di))
    # variogram spellings
    en = {"gaussian": "GAUSSIAN", "exponential": "EXPONENTIAL", "general_exponential": "GENERAL_EXPONENTIAL", "spherical": "SPHERICAL", "matern32": "MATERN_32",
          "matern52": "MATERN_52", "matern72": "MATERN_72", "constant": "CONSTANT"}[v.t]
    case = "".join(ch.upper() if rng.random() < .5 else ch for ch in v.t)
    full = dict(main_range=v.rx, perp_range=v.ry, depth_range=v.rz, azimuth=v.az, dip=v.dip, power=v.power)
    kp = list(full.items())
    kp = [kp[i] for i in rng.permutation(6)]
    for name, u in [("enum", lambda: g.variogram(getattr(g.VariogramType, en), *full.values())), ("case", lambda: g.variogram(case, *full.values())),
                    ("keywords", lambda: g.variogram(type=v.t, **dict(kp))), ("upper", lambda: g.variogram(v.t.upper(), **dict(kp))),
                    ("enum value", lambda: g.variogram(g.VariogramType(v.t), **dict(kp)))]:
        u = u()
        w.check(isinstance(u, g.Variogram), "variogram-type", name)
        w.check(close(sim(g.simulate, u, *inter(n, d)), ref) and all(abs(u.corr(*p) - b) < 1e-12 for p, b in zip(probe, before)), "variogram-spelling:" + name.replace(" ", "-"),
                lambda: "%s (%s)" % (v, case))
        w.stat("variogram_spellings_compared")
    # defaults
    if rng.random() < .5:
        u1, u2 = g.variogram(v.t, v.rx), g.variogram(v.t, v.rx, v.rx, v.rx, 0.0, 0.0, 1.5)
        u3 = g.variogram(v.t, v.rx, perp_range=-1.0, depth_range=-3.0)
        w.check(all(abs(a.corr(*p) - u2.corr(*p)) < 1e-12 for a in (u1, u3) for p in probe), "variogram-defaults", lambda: "%s range %g" % (v.t, v.rx))
        u4, u5 = g.variogram(v.t, v.rx, v.ry), g.variogram(v.t, v.rx, v.ry, v.rx, 0.0, 0.0, 1.5)
        w.check(all(abs(u4.corr(*p) - u5.corr(*p)) < 1e-12 for p in probe), "variogram-defaults", lambda: "%s range %g,%g" % (v.t, v.rx, v.ry))
    w.check([vv.corr(*p) for p in probe] == before, "variogram-modified", lambda: "%s after simulate" % v)
    w.check((ref == keep).all(), "result-overwritten", lambda: "%s n=%s: an earlier result changed" % (v, n))
    ref[:] = 7.0
    w.check(close(sim(g.simulate, vv, *inter(n, d)), keep), "result-not-fresh", lambda: "%s n=%s: writing to a result changed a later one" % (v, n))
    w.sig(v.t, tuple(n), nd, alt and alt[0][0])
    w.sample("%s n=%s d=%s seed=%d: %d collapsed forms, %d spellings, first value %.6g" % (v, n, d, s, len(alt), len(sp), keep[0]))


def layout_init(w):
    import gaussianfft
    w.g = gaussianfft


def layout(w, c, rng):
    """A field almost constant along one chosen axis and nearly white along the others:
    the measured variation must follow that axis, in the documented order."""
    g = w.g
    nd = int(rng.integers(2, 4))
    ax = int(rng.integers(0, nd))
    n = [int(x) for x in rng.choice([7, 8, 9, 11, 12, 13], nd, replace=False)]
    r = [0.05] * 3
    r[ax] = 4.0
    v = Vario("exponential", *r)
    d = [1.0] * nd
    d[ax] = 0.02
    g.seed(int(rng.integers(0, 2 ** 32)))
    fs = [g.simulate(v.ext(g), *inter(n, d)).reshape(n, order="F") for _ in range(30)]
    for k in range(nd):
        m = np.mean([np.mean(np.diff(f, axis=k) ** 2) / 2 for f in fs])
        w.check((m < 0.05) if k == ax else (m > 0.3), "axis-order", lambda: "n=%s: half mean square difference along axis %d is %.3g; the correlated axis is %d" % (n, k, m, ax))
    w.sig("layout", tuple(n), ax)
    w.stat("axis_layouts_measured")


def mod(w, c, rng):
    """Module surface, in a fresh interpreter."""
    import os, sys
    progs = ["from gaussianfft import *\nv = variogram('gaussian', 10.0)\nseed(3)\nassert simulate(v, 5, 1.0).shape == (5,)\nassert seed() == 3\nassert list(simulation_size(v, 5, 1.0))\nassert isinstance(v, Variogram)\nassert VariogramType.GAUSSIAN.value == 'gaussian'\nassert isinstance(quote(), str)\nassert advanced.simulate(v, 5, 1.0).size == 5\nassert util.EmpiricalVariogram",
             "import gaussianfft as g\nmissing=[n for n in g.__all__ if n != 'util' and not hasattr(g, n)]\nassert not missing, missing",
             "import gaussianfft.advanced as a, gaussianfft as g\nv=g.variogram('spherical', 5.0)\ng.seed(1)\nx=a.simulate(v, 6, 1.0)\ng.seed(1)\ny=g.simulate(v, 6, 1.0)\nassert (x==y).all()",
             "import gaussianfft as g\nassert {t.value for t in g.VariogramType} == {'gaussian','exponential','general_exponential','spherical','matern32','matern52','matern72','constant'}"]
    p = progs[c % len(progs)]
    r = subprocess.run([sys.executable, "-c", p], capture_output=True, text=True, env=dict(os.environ))
    w.check(r.returncode == 0, "module-surface", lambda: "%s | %s" % (p.replace("\n", "; ")[:300], r.stderr[-400:]))
    w.sig("mod", c)


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["the C++ grids' own accessors define the cell a value belongs to"]
    pkg, tool = simo.build_all(ctx)
    ctx.log("built")
    ctx.run_py("mod", 4, pkg)
    ctx.run_py("api", ctx.n(700, 8000), pkg, ["--simtool", tool])
    ctx.run_py("layout", ctx.n(200, 4000), pkg)
