"""P08: explicit padding and smoothing."""
import numpy as np
from vlib import simo
from vlib.simo import Vario, SimTool, default_pad, circulant, cov_matrix

RULE = ("Random (variogram, grid, explicit or default padding per axis, smoothing value per axis) in 1D/2D/3D through the Python advanced entry point and the "
        "C++ functions. The linear map from the recorded driving normals to the recorded fields is recovered and its covariance compared entry by entry with the "
        "oracle: periodic variogram correlation on the extended grid times the product of the per-axis Gaussian kernels. Non-trivial: at least one explicit padding "
        "or smoothing value below one; distinct by (entry, type, padding kinds, smoothing kinds, sizes).")


def gen(rng, maxn):
    for _ in range(5000):
        nd = int(rng.choice([1, 2, 2, 3]))
        t = simo.TYPES[int(rng.integers(0, 8))]
        n = [int(rng.integers(1, {1: 40, 2: 9, 3: 5}[nd] + 1)) for _ in range(nd)]
        d = [float(np.exp(rng.uniform(-2.5, 4.0))) for _ in range(nd)]
        rc = [float(np.exp(rng.uniform(np.log(0.3), np.log({1: 30., 2: 9., 3: 4.}[nd])))) for _ in range(3)]
        dd = d + [d[0]] * (3 - nd)
        r = [rc[i] * dd[i] for i in range(3)]
        v = Vario(t, r[0], r[1], r[2], float(rng.choice([0, 0, 90, 45, 30, 180, float(rng.uniform(-400, 400))])),
                  float(rng.choice([0, 0, 0, 45, 90, float(rng.uniform(-90, 90))])), float(rng.choice([1.5, 1.0, 2.0, 1.2])))
        if simo.ratio(t, v.power) <= 0:
            continue
        dp = default_pad(v, n, d)
        pa = [int(rng.choice([-1, -1, -5, 0, 0, 1, 2, int(rng.integers(0, 30)), max(0, int(dp[k]))])) for k in range(nd)]
        pad = [dp[k] if pa[k] < 0 else pa[k] for k in range(nd)]
        s = [float(rng.choice([1.0, 1.0, 1.0, 0.999995, 1.7, 0.5, 0.05, 0.01, 0.9, 0.999, float(rng.uniform(0.001, 1.0))])) for _ in range(nd)]
        if np.prod(simo.total_size(n, pad)) <= maxn and np.prod(n) <= 400:
            return nd, v, n, d, pa, pad, s
    raise RuntimeError("generator exhausted")


def exact_init(w):
    import gaussianfft
    w.g = gaussianfft
    w.tool = SimTool(w, w.opt["--simtool"])


def exact_end(w):
    w.tool.close()


def exact(w, c, rng):
    nd, v, n, d, pa, pad, s = gen(rng, 420 if w.quick else 900)
    entry = ["py", "py", "cpp-own", "cpp-shared"][c % 4]
    if entry == "py" and min(n[1:] + [2]) < 2:
        entry = "cpp-own"      # the package reduces the dimension there
    if nd == 3 and entry == "cpp-own":
        entry = "cpp-shared"
    desc = "%s n=%s d=%s padding=%s smoothing=%s via %s" % (v, n, d, pa, s, entry)
    C, res, tot = simo.recover_cov(w, v, n, d, pa, pad, s, entry, rng)
    if not w.check(np.isfinite(C).all() and res < 1e-7, "not-linear-in-noise-of-extended-grid", "%s: extended grid %s, held-out residual %.3g" % (desc, tot, res)):
        return
    best = None
    # the code's axis ranges use 3.14/2 for a right angle; the exact right angle is accepted too
    for hp in (3.14 / 2, np.pi / 2):
        O = cov_matrix(circulant(v, tot, d, s, hp), n)
        e = np.abs(C - O).max()
        if best is None or e < best[0]:
            best = (e, O, np.unravel_index(np.abs(C - O).argmax(), C.shape))
    e, O, k = best
    w.check(e < 1e-6, "covariance-mismatch", lambda: "%s: cov(cell %d, cell %d) = %.9g, expected %.9g" % (desc, k[0], k[1], C[k], O[k]))
    w.stat("covariance_entries_compared", C.size)
    w.stat("configs_%dd" % nd)
    sm = [x < 0.99999 for x in s]
    if any(sm) or any(x >= 0 for x in pa):
        w.sig(entry, v.t, tuple(n), tuple(x >= 0 for x in pa), tuple(sm), v.az == 0, v.dip == 0)
        w.stat("configs_with_smoothing", int(any(sm)))
        w.stat("configs_with_explicit_padding", int(any(x >= 0 for x in pa)))
    w.sample("%s extended=%s max|cov-oracle|=%.2g" % (desc, tot, e))


def large_init(w):
    exact_init(w)


def large_end(w):
    exact_end(w)


def large(w, c, rng):
    """Larger grids: for a fixed seed the field with explicit settings is the exact
    field H*noise: computed with numpy from the recorded noise is not possible without
    knowing the order of the noise, so neutral and equivalent settings are compared."""
    g = w.g
    nd = 1 + c % 3
    n = [int(rng.integers(20, {1: 3000, 2: 90, 3: 22}[nd])) for _ in range(nd)]
    d = [float(np.exp(rng.uniform(-2, 3))) for _ in range(nd)]
    dd = d + [d[0]] * 2
    v = Vario(simo.TYPES[int(rng.integers(0, 7))], *[float(rng.uniform(1.5, 5)) * dd[i] for i in range(3)], float(rng.choice([0, 20, 70])), float(rng.choice([0, 0, 15])), 1.5)
    dp = default_pad(v, n, d)
    a = []
    for k in range(nd):
        a += [n[k], d[k]]
    tot = simo.total_size(n, dp)
    s = int(rng.integers(0, 2 ** 32))

    def sim(**kw):
        g.seed(s)
        return np.array(g.advanced.simulate(v.ext(g), *a, **kw))
    ref = sim()
    P, S = ("padx", "pady", "padz")[:nd], ("sx", "sy", "sz")[:nd]
    alts = [("default padding given explicitly", {P[k]: dp[k] for k in range(nd)}), ("rounded padding given explicitly", {P[k]: tot[k] - n[k] for k in range(nd)}),
            ("negative paddings", {P[k]: -int(rng.integers(1, 99)) for k in range(nd)}), ("smoothing one or above", {S[k]: float(rng.uniform(1.0, 9.0)) for k in range(nd)}),
            ("smoothing almost one", {S[k]: 0.9999999 for k in range(nd)})]
    for name, kw in alts:
        f = sim(**kw)
        w.check(f.shape == ref.shape and np.allclose(f, ref, rtol=1e-6, atol=1e-6), "neutral-setting-changes-field", lambda: "%s n=%s d=%s seed %d: %s %s: max difference %.3g" % (
            v, n, d, s, name, kw, np.abs(f - ref).max()))
        w.stat("neutral_settings_compared")
    k = int(rng.integers(0, nd))
    f = sim(**{S[k]: 0.2})
    lag = [0.0] * 3
    lag[k] = d[k]
    w.check(v.corr(*lag) < 0.01 or not np.allclose(f, ref, atol=1e-6), "smoothing-ignored", lambda: "%s n=%s: %s=0.2 changes nothing" % (v, n, S[k]))
    w.sig("large", v.t, tuple(n))


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["as P01: the driving normals are re-drawn in a second process", "axis ranges computed with 3.14/2 or pi/2 for the right angle are both accepted"]
    pkg, tool = simo.build_all(ctx)
    ctx.log("built")
    o = ["--simtool", tool]
    ctx.run_py("exact", ctx.n(900, 12000), pkg, o)
    ctx.log("exact done")
    ctx.run_py("large", ctx.n(120, 1200), pkg, o)
