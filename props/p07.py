"""P07: correlation functions."""
import numpy as np
from vlib import simo, build
from vlib.simo import Vario

RULE = ("Random variograms (all types, ranges over 10 orders of magnitude, special and random angles) evaluated at lags along principal directions, axes and at random, "
        "in 1D/2D/3D, against a long double oracle that rotates and scales the lag; monotonicity along rays, symmetry, value at one range, covariance and variogram "
        "values, point versions; eigenvalues of correlation matrices; random setter histories (with invalid values and copies) against newly constructed objects; "
        "the same through the Python package with degrees. Under ASan/UBSan. Distinct by variogram and history.")
DIRS = ["nrlib/variogram", "nrlib/fft", "nrlib/random/dSFMT.cpp", "nrlib/random/random.cpp", "nrlib/random/randomgenerator.cpp"]


def py_init(w):
    import gaussianfft
    w.g = gaussianfft


def py(w, c, rng):
    g = w.g
    for _ in range(10):
        t = simo.TYPES[int(rng.integers(0, 8))]
        r = np.exp(rng.uniform(np.log(1e-3), np.log(1e5))) * np.exp(rng.uniform(-2, 2, 3))
        r = [float(r[0]), float(r[1]) if rng.random() < .75 else -float(rng.uniform(0.1, 5)), float(r[2]) if rng.random() < .75 else -1.0]
        az = float(rng.choice([0, 90, 180, 270, 360, -45, 450, float(rng.uniform(-720, 720))]))
        dip = float(rng.choice([0, 0, 90, -90, 30, float(rng.uniform(-180, 180))]))
        p = float(rng.choice([1.5, 1.0, 2.0, float(rng.uniform(0.3, 2.0))]))
        v = Vario(t, r[0], r[1], r[2], az, dip, p)
        x = g.variogram(t, r[0], r[1], r[2], az, dip, p)
        rr = np.array([v.rx, v.ry, v.rz])
        for _ in range(12):
            h = rng.normal(size=3) * rr * np.exp(rng.uniform(-3, 2))
            if rng.random() < .3:
                h = v.axes()[int(rng.integers(0, 3))] * float(rng.uniform(-3, 3)) * rr[int(rng.integers(0, 3))]
            for nd in (1, 2, 3):
                a = [float(q) for q in h[:nd]]
                e, got = float(v.corr(*a)), x.corr(*a)
                w.check(abs(e - got) < 1e-6 and abs(got - x.corr(*[-q for q in a])) < 1e-12 and 0 <= got <= 1 + 1e-12, "package-correlation",
                        lambda: "%s given ranges %s: corr(%s) = %.9g, expected %.9g" % (v, r, a, got, e))
                w.stat("package_correlations")
        w.check(x.corr(0.0) == 1 and x.corr(0.0, 0.0) == 1 and x.corr(0.0, 0.0, 0.0) == 1, "package-zero-lag", lambda: "%s" % v)
        w.sig(t, r[1] < 0, r[2] < 0, az, dip)
    # ints bind, wrong arity is refused
    w.check(x.corr(1) == x.corr(1.0), "package-int", lambda: "%s" % v)


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["tolerance 1e-12 plus rounding of the squared distance (1e-13 relative to |lag|^2/min range^2)", "general exponential powers in (0,2]"]
    b, pkg = build.parallel(lambda: build.build_cpp("p07", "p07_vario.cpp", DIRS, "asan"), lambda: build.build_ext("release"))
    ctx.log("built")
    ctx.run_cpp(b, ctx.n(12000, 60000), ["--mode", "corr"])
    ctx.run_cpp(b, ctx.n(1200, 20000), ["--mode", "psd"])
    ctx.run_cpp(b, ctx.n(24000, 100000), ["--mode", "hist"])
    ctx.run_py("py", ctx.n(400, 6000), pkg)
