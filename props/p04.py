"""P04: random streams and independence of realizations."""
import numpy as np
from vlib import simo, build
from vlib.simo import Vario, SimTool

RULE = ("(a) For random seeds and random mixes of draw kinds, every position of the shared and of own generators is compared with an independently written "
        "dSFMT-19937. (b) Millions of normals per case are binned (400 equiprobable bins, 0.05-wide density bins, tails to 4.5) and tested at 7.5-9 sigma. "
        "(c) Recorded fields of successive calls, of one multi-field call and of neighbouring seeds are cross-correlated at every shift. "
        "Non-trivial: every case; distinct by seed and length.")
DIRS = ["nrlib/random/dSFMT.cpp", "nrlib/random/random.cpp", "nrlib/random/randomgenerator.cpp"]


def indep_init(w):
    import gaussianfft
    w.g = gaussianfft
    w.tool = SimTool(w, w.opt["--simtool"])


def indep_end(w):
    w.tool.close()


def xcorr(a, b):
    """max |cross correlation| over all cyclic shifts of two white-ish fields, in sigmas"""
    n = max(a.size, b.size)
    fa, fb = np.fft.rfft(a - 0, n), np.fft.rfft(b - 0, n)
    c = np.fft.irfft(fa * np.conj(fb), n)
    return np.abs(c).max() / np.sqrt((a ** 2).sum() * (b ** 2).mean())


def indep(w, c, rng):
    g = w.g
    # a variogram with a range far below the cell size: the field is white
    t = simo.TYPES[int(rng.integers(0, 7))]
    v = Vario(t, 0.01)
    vv = v.ext(g)
    shape = [[int(rng.integers(3000, 20000))], [int(rng.integers(40, 140)), int(rng.integers(40, 140))], [int(rng.integers(12, 26)) for _ in range(3)]]
    s = int(rng.integers(0, 2 ** 32 - 50))
    w.tool(v.cmd())
    F, names = [], []

    def add(name, f):
        F.append(np.asarray(f).ravel())
        names.append(name)

    def sim(k):
        a = []
        for x in shape[k]:
            a += [x, 1.0]
        return g.simulate(vv, *a)
    g.seed(s)
    order = [int(x) for x in rng.integers(0, 3, 5)]
    for i, k in enumerate(order):
        add("seed s, call %d (%dD)" % (i, k + 1), sim(k))
    for ds in (1, 2):
        g.seed(s + ds)
        k = order[0]
        add("seed s+%d, call 0 (%dD)" % (ds, k + 1), sim(k))
    s2 = s ^ 0x5A5A5A5A
    nf = 3
    f2 = w.tool("ens2 0 %d 1 %d 1.0 %d 1.0 -1 -1 1.0 1.0 %d" % (s2, shape[1][0], shape[1][1], nf)).reshape(nf, -1)
    f3 = w.tool("ens3 %d 1 %d 1.0 %d 1.0 %d 1.0 -1 -1 -1 1.0 1.0 1.0 %d" % (s2 + 7, shape[2][0], shape[2][1], shape[2][2], nf)).reshape(nf, -1)
    for i in range(nf):
        add("2D multi-field %d" % i, f2[i])
        add("3D multi-field %d" % i, f3[i])
    wb = 0
    for i in range(len(F)):
        x = F[i]
        n = x.size
        w.check(abs(x.mean()) * np.sqrt(n) < 8 and abs((x ** 2).mean() - 1) * np.sqrt(n / 2) < 8, "realization-moments",
                lambda: "%s: mean %.4g var %.4g (n=%d, seed %d)" % (names[i], x.mean(), x.var(), n, s))
        for j in range(i):
            z = xcorr(F[i], F[j])
            wb = max(wb, z)
            w.check(z < 8.5, "realizations-correlated", lambda: "%s and %s: %.1f sigma at some shift (seed %d, %s)" % (names[i], names[j], z, s, t))
            w.stat("field_pairs_correlated_at_all_shifts")
    w.sig(s, tuple(order))
    w.sample("seed %d type %s order %s: largest cross correlation %.2f sigma" % (s, t, order, wb))


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["statistical thresholds of 7.5 to 9 standard deviations: deviations below them are not seen"]
    (pkg, tool), b = build.parallel(lambda: simo.build_all(ctx), lambda: build.build_cpp("p04", "p04_rng.cpp", DIRS, "plain"))
    ctx.log("built")
    ctx.run_cpp(b, ctx.n(4000, 60000), ["--mode", "stream"])
    ctx.run_cpp(b, ctx.n(160, 64), ["--mode", "normal" if ctx.quick else "normalbig"])
    ctx.log("streams done")
    ctx.run_py("indep", ctx.n(64, 600), pkg, ["--simtool", tool])
