"""P21: the empirical variogram utilities, checked black-box by replaying the seed."""
import contextlib, io, warnings
import numpy as np
from vlib import simo
from vlib.simo import Vario

RULE = ("Random (variogram, 1D/2D/3D grid, padding, resolution, reference points, number of fields). The estimator runs after a seed is set; the fields it consumed are "
        "replayed through gaussianfft.advanced.simulate under the same seed and the estimate is recomputed cell pair by cell pair from the definition. The alignment of "
        "the replayed stream (the estimator draws auxiliary fields first) is searched over a few offsets. Distinct by (estimator, grid, reference strategy, number of bins).")


def setup(rng, nd, maxcells):
    while True:
        n = [int(rng.integers(2, {1: 40, 2: 9, 3: 6}[nd])) for _ in range(nd)]
        if np.prod(n) <= maxcells:
            break
    d = [float(rng.choice([1.0, 1.0, 2.0, 0.5, float(rng.uniform(0.3, 30))])) for _ in range(nd)]
    if rng.random() < .5:
        d = [d[0]] * nd
    v = Vario(simo.TYPES[int(rng.integers(0, 7))], *[float(x) for x in np.exp(rng.uniform(-0.5, 2.5, 3)) * d[0]], float(rng.uniform(0, 180)), float(rng.choice([0, 30])), 1.5)
    pad = [int(rng.integers(0, 12)) for _ in range(3)]
    return v, n + [1] * (3 - nd), d + [0.0] * (3 - nd), pad


def fields(g, v, n, d, pad, seed, m, **kw):
    g.seed(seed)
    return [np.array(g.advanced.simulate(v, n[0], d[0], n[1], d[1], n[2], d[2], padx=pad[0], pady=pad[1], padz=pad[2], **kw)).reshape(n, order="F") for _ in range(m)]


def cells(n):
    return [(i, j, k) for i in range(n[0]) for j in range(n[1]) for k in range(n[2])]


def distances(n, d, ref):
    return {c: float(np.sqrt(sum((d[a] * (c[a] - ref[a])) ** 2 for a in range(3)))) for c in cells(n)}


def bins(n, d, ref, res):
    """cell -> bin of the distances from ref; None when a distance is too close to a bin edge to decide"""
    D = distances(n, d, ref)
    mx = max(D.values())
    nb = int(mx / res)
    dyadic = all(x in (0.0, 0.5, 1.0, 2.0, 4.0) for x in list(d) + [res])
    if nb < 1 or abs(mx / res - round(mx / res)) < 1e-9 and not (dyadic and round(mx / res) == mx / res):
        return None
    edges = np.linspace(0.0, mx, nb + 1)
    out = {}
    for c, x in D.items():
        k = int(np.abs(edges - x).argmin())
        if x == edges[k] and (dyadic or k in (0, nb)):
            b = k
        elif abs(x - edges[k]) < 1e-9 * mx:
            b = nb if k == nb else None
        else:
            b = k if x > edges[k] else k - 1
        if b is None:
            return None
        out[c] = min(b, nb - 1)
    return nb, edges, out


def ev_init(w):
    import gaussianfft
    from gaussianfft.util import EmpiricalVariogram
    w.g, w.EV = gaussianfft, EmpiricalVariogram


def ev(w, c, rng):
    g = w.g
    nd = 1 + c % 3
    v, n, d, pad = setup(rng, nd, 120)
    vv = v.ext(g)
    e = w.EV(vv, n[0], d[0], n[1], d[1], n[2], d[2], *pad)
    desc = "%s n=%s d=%s pad=%s" % (v, n, d, pad)
    seed = int(rng.integers(0, 2 ** 32))
    # layout of a simulated field
    g.seed(seed)
    s = e.simulate()
    f = fields(g, vv, n, d, pad, seed, 1)[0]
    w.check(s.shape == tuple(n) and np.abs(s - f).max() < 1e-9, "simulate-layout", lambda: "%s: EmpiricalVariogram.simulate differs from the advanced simulation under the same seed" % desc)
    # reference points
    cl = cells(n)
    strat = ["all", "origo", "center", "random", "regular", "own"][int(rng.integers(0, 6))]
    m = int(rng.integers(1, min(6, len(cl)) + 1))
    if strat == "own":
        refs = [cl[int(i)] for i in rng.integers(0, len(cl), m)]
    else:
        kw = {}
        if strat in ("random", "regular"):
            kw["n"] = m
        if strat == "regular":
            kw["offset"] = int(rng.integers(0, 3)) % len(cl)
        if strat == "random":
            kw["seed"] = int(rng.integers(0, 1000))
        refs = [tuple(int(a) for a in t) for t in e.pick_reference_points(strat, **kw)]
        again = [tuple(int(a) for a in t) for t in e.pick_reference_points(strat, **kw)]
        w.check(refs == again, "reference-points-not-reproducible", lambda: "%s %s %s: %s then %s" % (desc, strat, kw, refs, again))
        w.check(all(t in cl for t in refs), "reference-points-outside-grid", lambda: "%s %s %s: %s" % (desc, strat, kw, refs))
        if strat == "all":
            w.check(sorted(refs) == sorted(cl), "reference-points", lambda: "%s: 'all' gives %s" % (desc, refs))
        elif strat == "origo":
            w.check(refs == [(0, 0, 0)], "reference-points", lambda: "%s: 'origo' gives %s" % (desc, refs))
        elif strat == "center":
            w.check(refs == [(n[0] // 2, n[1] // 2, n[2] // 2)], "reference-points", lambda: "%s: 'center' gives %s" % (desc, refs))
        elif strat == "random":
            w.check(len(refs) == m == len(set(refs)), "reference-points", lambda: "%s: 'random' n=%d gives %s" % (desc, m, refs))
        else:
            st = len(cl) // m
            w.check(refs == cl[kw["offset"]::st] or sorted(refs) == sorted(cl[kw["offset"]::st]), "reference-points", lambda: "%s: 'regular' n=%d offset=%d gives %s" % (desc, m, kw["offset"], refs))
        if len(refs) > 40:
            refs = refs[:: len(refs) // 20]
    try:
        e.pick_reference_points("no such strategy")
        w.check(False, "bad-strategy-accepted", desc)
    except ValueError:
        pass
    # estimate
    mx = max(distances(n, d, (0, 0, 0)).values())
    res = float(rng.choice([d[0], 2 * d[0], mx / rng.uniform(1.2, 9)]))
    # every reference point must reach at least one bin
    B = [bins(n, d, r, res) for r in refs]
    B0 = bins(n, d, (0, 0, 0), res)
    if B0 is None or any(b is None for b in B):
        w.stat("skipped_ambiguous_bin_edges")
        return
    nmax = int(rng.integers(1, 5))
    step = int(rng.integers(0, 3))
    g.seed(seed)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        x, y, cnt, _, ca = e.estimate_variogram(nmax, res, refs, analyze_convergence=step)
        tx, ty = e.true_variogram(res)
    nb, edges, _ = B0
    mid = (edges[:-1] + edges[1:]) / 2
    if not w.check(len(x) == len(y) == len(cnt) == nb == len(tx) == len(ty), "number-of-bins", lambda: "%s resolution %g: %d distances, expected %d" % (desc, res, len(x), nb)):
        return
    w.check(np.abs(x - mid).max() < 1e-9 * mx and np.abs(tx - mid).max() < 1e-9 * mx, "distances", lambda: "%s resolution %g: distances %s, bin midpoints %s" % (desc, res, list(x)[:6], list(mid)[:6]))
    co = np.array([vv.corr(float(q)) for q in mid])
    w.check(np.abs(ty - co).max() < 1e-9, "true-variogram", lambda: "%s: %s expected %s" % (desc, list(ty)[:5], list(co)[:5]))
    reach = np.array([sum(1 for b in B if b[0] > k) for k in range(nb)])
    w.check(np.array_equal(np.asarray(cnt), reach * nmax), "sample-counts", lambda: "%s refs=%s: counts %s, expected %s" % (desc, refs[:4], list(cnt), list(reach * nmax)))
    F = fields(g, vv, n, d, pad, seed, nmax + 4)
    # per field: estimate from the definition
    est = []
    full = np.ones(nb, bool)
    for f in F:
        acc = np.zeros(nb)
        for r, b in zip(refs, B):
            ss, nn = np.zeros(b[0]), np.zeros(b[0])
            for q, k in b[2].items():
                ss[k] += (f[q] - f[r]) ** 2
                nn[k] += 1
            full[: b[0]] &= nn > 0          # empty distance classes are reported as missing
            acc[: b[0]] += 1 - ss / np.where(nn > 0, nn, 1) / 2
        est.append(acc / np.where(reach > 0, reach, 1))
    full &= reach > 0
    w.check(np.isfinite(y[full]).all(), "missing-estimate", lambda: "%s resolution %g refs %s: no estimate in a class with data: %s" % (desc, res, refs[:4], list(y)))
    errs = [np.abs(y[full] - np.mean(est[o:o + nmax], axis=0)[full]).max() if full.any() else 0.0 for o in range(5)]
    w.check(min(errs) < 1e-9, "estimate", lambda: "%s resolution %g refs %s nmax=%d: estimate %s, definition gives %s" % (desc, res, refs[:4], nmax, list(y)[:6], list(np.mean(est[:nmax], axis=0))[:6]))
    if step > 0:
        ks = list(range(0, nmax, step))
        ok = ca.deltas.shape == (len(ks), nb)
        if w.check(ok, "convergence-record", lambda: "%s: deltas of shape %s, expected %s" % (desc, ca.deltas.shape, (len(ks), nb))):
            o = int(np.argmin(errs))
            er = [np.abs(ca.deltas[i][full] - (np.mean(est[o:o + k + 1], axis=0) - co)[full]).max() if full.any() else 0 for i, k in enumerate(ks)]
            w.check(max(er) < 1e-9, "convergence-record", lambda: "%s nmax=%d step=%d: deviations differ by %s" % (desc, nmax, step, er))
    w.stat("cell_pairs", sum(len(b[2]) for b in B) * nmax)
    w.stat("estimates_%dd" % nd)
    w.stat("classes_compared", int(full.sum()))
    w.sig("ev", tuple(n), strat, nb, len(refs))
    w.sample("%s resolution %g, %d reference points (%s), %d fields: max deviation from definition %.2g" % (desc, res, len(refs), strat, nmax, min(errs)))


def ev2_init(w):
    import gaussianfft
    from gaussianfft.util.empirical_variogram2 import EmpiricalVariogram2
    w.g, w.EV = gaussianfft, EmpiricalVariogram2


def ev2(w, c, rng):
    g = w.g
    nd = 1 + c % 3
    v, n, d, pad = setup(rng, nd, 120)
    d = [1.0, 1.0, 1.0]
    vv = v.ext(g)
    close, step = float(rng.uniform(0.5, 6)), int(rng.integers(1, 4))
    desc = "%s n=%s pad=%s close=%g step=%d" % (v, n, pad, close, step)
    e = w.EV(vv, *n, *pad, close, step)
    seed = int(rng.integers(0, 2 ** 32))
    nmax = int(rng.integers(1, 5))
    g.seed(seed)
    short, sample = e.estimate_variogram(nmax)
    sm = w.EV.smoothing
    F = fields(g, vv, n, d, pad, seed, nmax + 2, sx=sm, sy=sm, sz=sm)
    D2 = {q: sum(a * a for a in q) for q in cells(n)}
    for name, got, sel in (("short", short, lambda q: np.sqrt(D2[q]) < close), ("sample", sample, lambda q: all(a % step == 0 for a in q))):
        cl = {}
        for q in D2:
            if sel(q):
                cl.setdefault(D2[q], []).append(q)
        gx = [float(t) for t in got[0]]
        exp = sorted(cl)
        if not w.check(len(gx) == len(exp) == len(got[1]) == len(got[2]) and np.allclose(sorted(gx), np.sqrt(exp), atol=1e-9), "distances2",
                       lambda: "%s %s: distances %s, expected %s" % (desc, name, sorted(gx)[:8], list(np.sqrt(exp))[:8])):
            continue
        vals = np.array([[np.mean([(f[q] - f[0, 0, 0]) ** 2 for q in cl[int(round(t * t))]]) for t in gx] for f in F])
        ok, det = False, ""
        for o in range(3):
            m, s = vals[o:o + nmax].mean(axis=0), vals[o:o + nmax].std(axis=0)
            em, es = np.abs(np.array(got[1]) - m).max(), np.abs(np.array(got[2]) - s).max()
            det = det or "mean off by %.3g, standard deviation by %.3g" % (em, es)
            ok = ok or (em < 1e-8 and es < 1e-8)
        w.check(ok, "estimate2", lambda: "%s %s nmax=%d: %s" % (desc, name, nmax, det))
        w.stat("distance_classes2", len(exp))
    w.sig("ev2", tuple(n), round(close), step)
    w.sample(desc)


def pa_init(w):
    import gaussianfft
    from gaussianfft.util import PaddingAnalyzer
    w.g, w.PA = gaussianfft, PaddingAnalyzer


def pa(w, c, rng):
    """deviations per (padding, range): compared with the periodic covariance, within sampling error"""
    n, nd = (int(rng.integers(8, 14)), 1) if c % 2 else (int(rng.integers(5, 8)), 2)
    L = float(rng.choice([1000.0, 50.0]))
    t = ["gaussian", "exponential", "spherical"][c % 3]
    R = [float(x) for x in rng.permutation([0.1, 0.8, 1.6])[: int(rng.integers(1, 4))]]
    Pf = [float(x) for x in rng.permutation([0.0, 0.25, 2.0, 4.0])[: int(rng.integers(1, 4))]]
    nmax = 801
    desc = "%s n=%d dims=%d L=%g ranges=%s paddings=%s" % (t, n, nd, L, R, Pf)
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        a = w.PA(R, Pf, L=L, n=n, nmax=nmax, vtype=t, ndims=nd, seed=int(rng.integers(1, 10 ** 6)))
    h = L / n
    pads = [int(p * L / h) for p in Pf]
    w.check(a.deltas.shape[:2] == (len(Pf), len(R)), "padding-analysis-shape", lambda: "%s: %s" % (desc, a.deltas.shape))
    w.check(np.allclose(a.padding_f, np.array(pads) / n) and list(a.range) == R, "padding-analysis-axes", lambda: "%s: %s %s" % (desc, a.padding_f, a.range))
    nn, dd = [n] * nd + [1] * (3 - nd), [h] * nd + [0.0] * (3 - nd)
    B = bins(nn, dd, (0, 0, 0), h)
    if B is None or a.deltas.shape != (len(Pf), len(R), B[0]):
        w.stat("skipped_ambiguous_bin_edges")
        return
    nb, edges, bb = B
    mid = (edges[:-1] + edges[1:]) / 2
    for j, p in enumerate(pads):
        for i, r in enumerate(R):
            v = Vario(t, r * L, r * L, r * L)
            tot = simo.total_size([n] * nd, [p] * nd)
            cov = simo.circulant(v, tot, [h] * nd)
            ss, nc = np.zeros(nb), np.zeros(nb)
            v0 = float(cov.flat[0])
            for q, k in bb.items():
                ss[k] += v0 - float(cov[q[:nd]])
                nc[k] += 1
            gam = ss / np.maximum(nc, 1)
            exp = 1 - gam - np.array([v.corr(x) for x in mid])
            tol = 0.02 + 7 * gam * np.sqrt(2.0 / nmax)
            dv = a.deltas[j, i]
            ok = (nc == 0) | (np.abs(dv - exp) < tol)
            w.check(ok.all(), "padding-analysis", lambda: "%s: range %g padding %d cells: deviation %s, expected %s +- %s" % (desc, r, p, list(dv)[:8], list(exp)[:8], list(tol)[:8]))
            w.stat("padding_analyses")
    w.sig("pa", n, nd, t, len(R), len(Pf))


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["distance classes without any pair are reported as missing (NaN) and not compared", "the replayed fields are those of P02; the padding analysis is compared within 7 standard errors"]
    from vlib import build
    rel = build.build_ext("release")
    ctx.log("built")
    ctx.run_py("ev", ctx.n(900, 15000), rel)
    ctx.run_py("ev2", ctx.n(240, 5000), rel)
    ctx.run_py("pa", ctx.n(16, 200), rel)
