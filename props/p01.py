"""P01: the simulated field has the requested covariance structure."""
import numpy as np
from vlib import simo
from vlib.simo import Vario, SimTool, default_pad, circulant, cov_matrix, ideal_matrix

RULE = ("Random (variogram type, ranges in cells, azimuth, dip, power, grid size, step) configurations in 1D/2D/3D; for each, the field is "
        "simulated through the Python package (or the C++ API) under N+K seeds, the linear map H from the N driving normals to the field is "
        "recovered from the recorded noise, its linearity is confirmed on held-out seeds, and H*H^T is compared entry by entry with the circulant "
        "oracle. Large grids: lag covariances averaged over the grid, tested across realizations. A case is non-trivial if the oracle covariance "
        "has off-diagonal entries above 0.01; distinct by (entry point, type, dim, sizes, anisotropy class, angle class).")


TOL_IDEAL = 0.06   # calibrated: largest deviation seen over 8000 default configurations is 0.035


def gen(rng, maxn):
    for _ in range(2000):
        nd = int(rng.choice([1, 1, 2, 2, 2, 3, 3]))
        t = simo.TYPES[int(rng.integers(0, 8))]
        n = [int(rng.integers(1 if nd == 1 else 2, {1: 40, 2: 10, 3: 5}[nd] + 1)) for _ in range(nd)]
        d = [float(np.exp(rng.uniform(-2.5, 4.0))) for _ in range(nd)]
        if rng.random() < 0.3:
            d = [d[0]] * nd
        rc = [float(np.exp(rng.uniform(np.log(0.3), np.log({1: 30., 2: 8., 3: 3.}[nd])))) for _ in range(3)]
        dd = d + [d[0]] * (3 - nd)
        r = [rc[i] * dd[i] for i in range(3)]
        if rng.random() < 0.25:
            r[1] = -1.0
        if rng.random() < 0.25:
            r[2] = -1.0
        az = float(rng.choice([0.0, 0.0, 90.0, 180.0, -90.0, 45.0, 30.0, 360.0, float(rng.uniform(-400, 400)), float(rng.uniform(0, 180)), float(rng.uniform(0, 90))]))
        dip = float(rng.choice([0.0, 0.0, 0.0, 90.0, -30.0, 45.0, float(rng.uniform(-90, 90)), float(rng.uniform(0, 45))]))
        power = float(rng.choice([1.5, 1.0, 2.0, 1.9, float(rng.uniform(0.75, 2.0))]))
        v = Vario(t, r[0], r[1], r[2], az, dip, power)
        if t == "general_exponential" and simo.ratio(t, power) <= 0:
            continue
        if t == "constant" and max(n) > 25:
            continue
        pad = default_pad(v, n, d)
        N = np.prod([a + b for a, b in zip(n, pad)])
        if N <= maxn and np.prod(n) <= 400:
            return nd, v, n, d, pad
    raise RuntimeError("generator exhausted")


def ensemble_ext(g, v, n, d, s0, m):
    vv = v.ext(g)
    a = []
    for k in range(len(n)):
        a += [n[k], d[k]]
    F = np.empty((m, int(np.prod(n))))
    for q in range(m):
        g.seed(s0 + q)
        F[q] = g.simulate(vv, *a)
    return F


def exact_init(w):
    import gaussianfft
    w.g = gaussianfft
    w.tool = SimTool(w, w.opt["--simtool"])


def exact_end(w):
    rc, err = w.tool.close()
    if rc != 0 and "LeakSanitizer" not in err:
        w.viol("simtool-exit", err[-800:])


def exact(w, c, rng):
    maxn = 420 if w.quick else 900
    nd, v, n, d, pad = gen(rng, maxn)
    T = w.tool
    T(v.cmd())
    entry = ["py", "py", "py", "cpp-own-generator", "cpp-shared"][c % 5]
    if nd == 3 and entry != "py":
        entry = "cpp-shared"
    flat = " ".join("%d %r" % (a, b) for a, b in zip(n, d))
    neg = " ".join(["-1"] * nd)
    one = " ".join(["1.0"] * nd)
    used = {1: lambda: T("used1 7 %d %r -1" % (n[0], d[0])),
            2: lambda: T("used2 7 %d %r -1 %d %r -1 1" % (n[0], d[0], n[1], d[1])),
            3: lambda: T("used3 7 %d %r -1 %d %r -1 1 %d %r -1" % (n[0], d[0], n[1], d[1], n[2], d[2]))}[nd]()
    N = int(used[0])
    tot = [int(x) for x in T("tot %d %s %s" % (nd, " ".join(map(str, n)), " ".join(map(str, pad))))]
    desc = "%s n=%s d=%s via %s" % (v, n, d, entry)
    # the extended grid must be at least the default padded size, and all of it driven by noise
    if not w.check(all(tot[k] >= n[k] + pad[k] for k in range(nd)) and N == int(np.prod(tot)), "extended-grid",
                   "%s: %d normals consumed, extended grid %s, default padding %s" % (desc, N, tot, pad)):
        return
    nn = int(np.prod(n))
    m_fit, m_out = int(1.35 * N) + 10, 6
    M = m_fit + m_out
    s0 = int(rng.integers(0, 2 ** 31))
    if entry == "py":
        F = ensemble_ext(w.g, v, n, d, s0, M)
        mode = 3 if nd == 3 else 1
    else:
        mode = 3 if nd == 3 else (0 if entry == "cpp-own-generator" else 1)
        cm = {1: "ens1 %d %d %d %s -1 1.0" % (mode, s0, M, flat),
              2: "ens2 %d %d %d %s -1 -1 1.0 1.0 1" % (mode, s0, M, flat),
              3: "ens3 %d %d %s -1 -1 -1 1.0 1.0 1.0 1" % (s0, M, flat)}[nd]
        F = T(cm).reshape(M, nn)
    Wn = T("noise %d %d %d %d" % (mode, s0, M, N)).reshape(M, N)
    w.stat("realizations_recorded", M)
    if not w.check(np.all(np.isfinite(F)), "non-finite", desc):
        return
    A, B = Wn[:m_fit], F[:m_fit]
    H = np.linalg.solve(A.T @ A, A.T @ B)           # N x nn
    res = np.abs(Wn[m_fit:] @ H - F[m_fit:]).max()
    if not w.check(res < 1e-7, "not-linear-in-noise", "%s: held-out residual %.3g" % (desc, res)):
        return
    C = H.T @ H
    O = cov_matrix(circulant(v, tot, d), n)
    e = np.abs(C - O).max()
    k = np.unravel_index(np.abs(C - O).argmax(), C.shape)
    w.check(e < 1e-7, "covariance-mismatch", lambda: "%s: cov(cell %d, cell %d) = %.9g, expected %.9g" % (desc, k[0], k[1], C[k], O[k]))
    I = ideal_matrix(v, n, d)
    dev = np.abs(C - I).max()
    if np.all(simo.extent(v, nd) <= np.array(simo.pad_ranges(v, nd)) * 1.001):
        w.check(dev < TOL_IDEAL, "covariance-far-from-variogram",
                lambda: "%s: max deviation %.4g from the variogram correlation" % (desc, dev))
        w.stat("configs_compared_with_ideal_variogram")
    else:
        w.stat("configs_with_rotated_range_longer_than_padding")
    w.stat("covariance_entries_compared", C.size)
    w.stat("configs_%dd" % nd)
    off = np.abs(O - np.diag(np.diag(O))).max() if nn > 1 else 0
    if off > 0.01:
        w.sig(entry, v.t, nd, tuple(n), v.ry == v.rx, v.rz == v.rx, v.az == 0, v.dip == 0)
    w.sample("%s extended=%s N=%d fit residual=%.2g max|cov-oracle|=%.2g max|cov-variogram|=%.3g" % (desc, tot, N, res, e, np.abs(C - I).max()))


def rotated_init(w):
    exact_init(w)


def rotated_end(w):
    exact_end(w)


def rotated(w, c, rng):
    """Deterministic probes of the default padding under rotation: the padding has
    to follow the direction in which the correlation extends along each axis."""
    name, v, n, d = [
        ("1d-azimuth90", Vario("exponential", 2.0, 12.0, 2.0, 90.0, 0.0), [30], [1.0]),
        ("3d-dip90", Vario("exponential", 9.0, 1.0, 1.0, 0.0, 90.0), [2, 2, 8], [1.0, 1.0, 1.0]),
        ("2d-dip90-depth-range", Vario("exponential", 1.0, 1.0, 9.0, 0.0, 90.0), [12, 2], [1.0, 1.0]),
        ("2d-azimuth45", Vario("exponential", 4.0, 1.0, 1.0, 45.0, 0.0), [6, 6], [1.0, 1.0]),
        ("2d-azimuth90", Vario("exponential", 1.0, 4.0, 1.0, 90.0, 0.0), [6, 6], [1.0, 1.0]),
        ("3d-azimuth30", Vario("exponential", 2.0, 1.0, 1.0, 30.0, 0.0), [3, 3, 2], [1.0, 1.0, 1.0])][c]
    nd = len(n)
    tot = [x for x in w.g.simulation_size(v.ext(w.g), *sum(([a, b] for a, b in zip(n, d)), []))]
    tot = [int(x) for x in w.tool("tot %d %s %s" % (nd, " ".join(map(str, n)), " ".join(str(tot[k] - n[k]) for k in range(nd))))]
    C, I = cov_matrix(circulant(v, tot, d), n), ideal_matrix(v, n, d)
    dev = np.abs(C - I).max()
    w.check(dev < TOL_IDEAL, "default-padding-too-short:" + name, "%s n=%s: the periodic extension %s makes the covariance deviate by %.3f" % (v, n, tot, dev))
    w.sig("rotated", name)


def large_init(w):
    exact_init(w)


def large_end(w):
    exact_end(w)


def large(w, c, rng):
    """Grids too large for the exact method: lag covariances, averaged over the
    grid, across independent realizations; |t| < 9."""
    nd = [2, 1, 3, 2][c % 4]
    t = simo.TYPES[c % 7]
    for _ in range(2000):
        if nd == 1:
            n, rc = [int(rng.integers(800, 3000))], float(rng.uniform(3, 12))
        elif nd == 2:
            n, rc = [int(rng.integers(40, 150)), int(rng.integers(40, 150))], float(rng.uniform(2, 8))
        else:
            n, rc = [int(rng.integers(10, 30)) for _ in range(3)], float(rng.uniform(1.5, 4))
        d = [float(np.exp(rng.uniform(-2, 4))) for _ in range(nd)]
        dd = d + [d[0]] * (3 - nd)
        v = Vario(t, rc * dd[0], rc * dd[1] * float(rng.uniform(0.4, 1.6)), rc * dd[2] * float(rng.uniform(0.4, 1.2)),
                  float(rng.choice([0.0, 25.0, 70.0, 135.0])), float(rng.choice([0.0, 0.0, 20.0, -35.0])), float(rng.choice([1.5, 1.2, 1.9])))
        pad = default_pad(v, n, d)
        if np.prod([a + b for a, b in zip(n, pad)]) < 60000:
            break
    tot = [int(x) for x in w.tool("tot %d %s %s" % (nd, " ".join(map(str, n)), " ".join(map(str, pad))))]
    R = 40
    O = circulant(v, tot, d)
    F = ensemble_ext(w.g, v, n, d, int(rng.integers(0, 2 ** 31)), R).reshape([R] + n[::-1]).transpose([0] + list(range(nd, 0, -1)))
    L = []
    for _ in range(14):
        L.append(tuple(int(rng.integers(-min(8, n[k] - 1), min(8, n[k] - 1) + 1)) for k in range(nd)))
    L += [(0,) * nd] + [tuple(1 if k == j else 0 for k in range(nd)) for j in range(nd)]
    for l in set(L):
        a = tuple(slice(max(0, -x), n[k] - max(0, x)) for k, x in enumerate(l))
        b = tuple(slice(max(0, x), n[k] - max(0, -x)) for k, x in enumerate(l))
        m = (F[(slice(None),) + a] * F[(slice(None),) + b]).reshape(R, -1).mean(1)
        exp = O[tuple(x % tot[k] for k, x in enumerate(l))]
        se = m.std(ddof=1) / np.sqrt(R)
        tt = (m.mean() - exp) / (se + 1e-12)
        w.check(abs(tt) < 9, "lag-covariance", "%s n=%s d=%s lag=%s: %.5f, expected %.5f (t=%.1f, %d realizations)" % (v, n, d, l, m.mean(), exp, tt, R))
        w.stat("lag_covariances_tested")
    w.stat("realizations_recorded", R)
    w.sig("large", v.t, nd, tuple(n))


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["the driving normals are re-drawn from the same generator in a second process (checked by P02/P04)",
                       "the fields are Gaussian because they are linear in the normals (linearity is checked on held-out seeds)"]
    pkg, tool = simo.build_all(ctx)
    ctx.log("built")
    o = ["--simtool", tool]
    ctx.run_py("exact", ctx.n(1200, 12000), pkg, o)
    ctx.log("exact done")
    ctx.run_py("rotated", 6, pkg, o)
    ctx.run_py("large", ctx.n(64, 600), pkg, o)
