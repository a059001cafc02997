"""P06: announced and simulated sizes."""
import numpy as np
from vlib import simo, build
from vlib.simo import Vario, SimTool, default_pad

RULE = ("Announced sizes for random variograms, grids and steps over many orders of magnitude are compared with the padding rule. The size really simulated is observed "
        "as the number of normals a call takes out of its stream: for C++ by comparing stream states, for the package by predicting the next draw after a 3D call. "
        "Size rounding is compared with an independent list of smooth numbers. Non-trivial: every case; distinct by (type, dims, sizes).")


def gen(rng, nd, hi):
    t = simo.TYPES[int(rng.integers(0, 8))]
    r = np.exp(rng.uniform(np.log(0.05), np.log(hi), 3))
    az = float(rng.choice([0, 0, 90, 180, 360, 1e-3, -45, float(rng.uniform(-720, 720))]))
    return Vario(t, float(r[0]), float(r[1]) if rng.random() < .7 else -1, float(r[2]) if rng.random() < .7 else -1, az, float(rng.choice([0, 0, 30, 90])),
                 float(rng.choice([1.5, 1.0, 2.0, float(rng.uniform(0.3, 2.0))])))


def accepted(v, n, d):
    """per axis, the set of admissible sizes (rounding at exact integers is free)"""
    nd = len(n)
    rg = simo.pad_ranges(v, nd)
    q = simo.ratio(v.t, v.power)
    out = []
    for i in range(nd):
        x = max(q * rg[i] / d[i] - n[i], rg[i] / d[i])
        e = 1e-9 + 1e-13 * (abs(q * rg[i] / d[i]) + n[i])
        out.append((n[i] + int(np.floor(max(0.0, x - e))) + 1, n[i] + int(np.floor(x + e)) + 1, rg[i] / d[i]))
    return out


def announced_init(w):
    import gaussianfft
    w.g = gaussianfft


def announced(w, c, rng):
    g = w.g
    nd = 1 + c % 3
    v = gen(rng, nd, 1e5)
    n = [int(np.exp(rng.uniform(0.7, np.log({1: 1e7, 2: 5e4, 3: 3000}[nd])))) for _ in range(nd)]
    if rng.random() < .1:
        n[0] = 1
    d = [float(np.exp(rng.uniform(np.log(1e-4), np.log(1e4)))) for _ in range(nd)]
    if rng.random() < .3:
        d = [float(rng.choice([1.0, 10.0, 25.0, 0.5]))] * nd
        v.rx = float(rng.integers(1, 2000))
    if rng.random() < .05:
        d[0] = v.rx / float(rng.uniform(2 ** 31, 2 ** 36))
    a = []
    for k in range(nd):
        a += [n[k], d[k]]
    s = list(g.simulation_size(v.ext(g), *a))
    acc = accepted(v, n, d)
    desc = "%s n=%s d=%s" % (v, n, d)
    if not w.check(len(s) == nd, "entries", "%s: %s" % (desc, s)):
        return
    for k in range(nd):
        lo, hi, cells = acc[k]
        w.check(lo <= s[k] <= hi, "announced-size", lambda: "%s axis %d: announced %d, expected %s" % (desc, k, s[k], (lo, hi)))
        w.check(s[k] > n[k] and s[k] - n[k] >= cells * (1 - 1e-9) - 1e-6, "less-than-one-range", lambda: "%s axis %d: announced %d" % (desc, k, s[k]))
    kw = dict(zip(("nx", "dx", "ny", "dy", "nz", "dz"), a))
    w.check(list(g.simulation_size(variogram=v.ext(g), **kw)) == s, "keyword-size", desc)
    # the other dimensions' entries do not depend on an extra axis
    w.stat("announced_sizes_checked", nd)
    w.sig(v.t, nd, tuple(int(np.log2(x)) for x in n), tuple(int(np.log2(x)) for x in d))
    w.sample("%s -> %s" % (desc, s))


def used_init(w):
    import gaussianfft
    w.g = gaussianfft
    w.tool = SimTool(w, w.opt["--simtool"])


def used_end(w):
    w.tool.close()


def used(w, c, rng):
    nd = 1 + c % 3
    for _ in range(5000):
        v = gen(rng, nd, {1: 60, 2: 12, 3: 5}[nd])
        n = [int(rng.integers(1, {1: 200, 2: 30, 3: 9}[nd])) for _ in range(nd)]
        d = [float(np.exp(rng.uniform(-1, 1.5))) for _ in range(nd)]
        dp = default_pad(v, n, d)
        pa = [int(rng.choice([-1, -1, -9, 0, 1, int(rng.integers(0, 40))])) for _ in range(nd)]
        pad = [dp[k] if pa[k] < 0 else pa[k] for k in range(nd)]
        tot = simo.total_size(n, pad)
        if np.prod(tot) < (6000 if w.quick else 20000):
            break
    T = w.tool
    T(v.cmd())
    nf = int(rng.integers(1, 4)) if nd > 1 else 1
    s = int(rng.integers(0, 2 ** 32))
    u = int(T({1: lambda: "used1 %d %d %r %d" % (s, n[0], d[0], pa[0]),
               2: lambda: "used2 %d %d %r %d %d %r %d %d" % (s, n[0], d[0], pa[0], n[1], d[1], pa[1], nf),
               3: lambda: "used3 %d %d %r %d %d %r %d %d %d %r %d" % (s, n[0], d[0], pa[0], n[1], d[1], pa[1], nf, n[2], d[2], pa[2])}[nd]())[0])
    desc = "%s n=%s d=%s padding=%s (default %s)" % (v, n, d, pa, dp)
    w.check(u == int(np.prod(tot)) * nf, "simulated-cells", lambda: "%s: %d random cells for %d field(s), expected %s" % (desc, u, nf, tot))
    w.stat("stream_positions_matched", int(u >= 0))
    w.stat("random_cells_counted", max(u, 0))
    if nd == 3 and n[1] > 1 and n[2] > 1:
        # the package: the draw after a 3D call tells how many normals it took
        g = w.g
        kw = dict(zip(("padx", "pady", "padz"), pa))
        g.seed(s)
        g.advanced.simulate(v.ext(g), n[0], d[0], n[1], d[1], n[2], d[2], **kw)
        x = g.simulate(v.ext(g), 7, 1.0)
        z = int(T("skip %d %d" % (s, int(np.prod(tot))))[0])
        f = T("ens1 0 %d 1 7 1.0 -1 1.0" % z)
        w.check(np.allclose(x, f, atol=1e-7), "simulated-cells-package", lambda: "%s: the stream position after the call is not %s cells" % (desc, tot))
        w.stat("package_stream_positions_matched")
    w.sig("used", v.t, tuple(n), tuple(x >= 0 for x in pa), nf)
    w.sample("%s fields=%d -> %d normals, extended grid %s" % (desc, nf, u, tot))


def rounding(w, c, rng):
    """FFT sizes"""
    if c == 0:
        ns = list(range(1, 3000))
    else:
        ns = [int(np.exp(rng.uniform(0, np.log(3e7)))) for _ in range(60)]
        for _ in range(40):
            x = simo.smooth_size(int(np.exp(rng.uniform(0, np.log(2e7)))))
            ns += [x - 1 or 1, x, x + 1]
        k = int(rng.integers(3, 26))
        ns += [2 ** k - 1, 2 ** k, 2 ** k + 1, 2 ** k + 2]
    for e in (0, 1):
        r = w.tool("newsize " + " ".join("%d %d" % (x, e) for x in ns))
        for x, y in zip(ns, r):
            ex = simo.smooth_size(x, bool(e))
            w.check(int(y) == ex, "rounded-size", lambda: "size %d (even=%d) is rounded to %d, expected %d" % (x, e, y, ex))
        w.stat("sizes_rounded", len(ns))
        w.sig("round", c, e)


def rounding_init(w):
    w.tool = SimTool(w, w.opt["--simtool"])


def rounding_end(w):
    w.tool.close()


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["sizes which differ only in how an exact integer quotient is rounded are both accepted"]
    pkg, tool = simo.build_all(ctx)
    ctx.log("built")
    o = ["--simtool", tool]
    ctx.run_py("announced", ctx.n(20000, 400000), pkg, o)
    ctx.run_py("used", ctx.n(900, 9000), pkg, o)
    ctx.run_py("rounding", ctx.n(24, 200), pkg, o)
