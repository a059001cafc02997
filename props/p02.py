"""P02: a seed fixes the sequence of realizations, whatever happened before."""
import gc
import numpy as np
from vlib import simo
from vlib.simo import Vario, default_pad, SimTool
from vlib.zyg import Zygote

RULE = ("Random programs (seed + 1..6 simulate calls of mixed dimension, type, size, advanced settings). Each is executed in a pristine forked "
        "process (reference log) and again inside a long-lived process after a random history (other seeds, simulations, failing calls, object "
        "churn), with non-simulating and failing calls interleaved; the two logs of fields must agree. The C++ API is driven the same way. "
        "Non-trivial: history of at least 3 operations; distinct by (dims, types, history kinds).")


def gen_var(rng):
    t = simo.TYPES[int(rng.integers(0, 8))]
    r = np.exp(rng.uniform(0, 2.2, 3))
    return (t, float(r[0]), float(r[1]) if rng.random() < .7 else -1.0, float(r[2]) if rng.random() < .7 else -1.0,
            float(rng.choice([0, 30, 90, 123.4])), float(rng.choice([0, 0, 10, 45])), float(rng.choice([1.5, 1.2, 1.9])))


def gen_sim(rng, big=False):
    while True:
        v = gen_var(rng)
        nd = int(rng.integers(1, 4))
        n = [int(rng.integers(1, {1: 300 if big else 60, 2: 40 if big else 14, 3: 9}[nd])) for _ in range(nd)]
        d = [float(np.exp(rng.uniform(-0.3, 1.0))) for _ in range(nd)]
        kw = {}
        if rng.random() < 0.4:
            kw = {("padx", "pady", "padz")[k]: int(rng.integers(-1, 7)) for k in range(nd)}
            kw.update({("sx", "sy", "sz")[k]: float(rng.choice([1.0, 0.5, 0.05])) for k in range(nd)})
        vv = Vario(*v)
        if simo.ratio(vv.t, vv.power) > 0 and np.prod([a + b for a, b in zip(n, default_pad(vv, n, d))]) < 60000:
            return ("sim", v, n, d, kw)


def mutate(rng, op):
    """The same call with one aspect changed: what a stale cache would confuse."""
    _, v, n, d, kw = op
    v, n, d, kw = list(v), list(n), list(d), dict(kw)
    k = int(rng.integers(0, 8))
    if k == 0:
        v[0] = simo.TYPES[int(rng.integers(0, 8))]
    elif k == 1:
        v[1] *= 1.3
    elif k == 2:
        v[2] = (v[2] if v[2] > 0 else v[1]) * 0.7
    elif k == 3:
        v[4] += 17.0
    elif k == 4:
        v[6] = 1.7
    elif k == 5:
        d = [x * 1.25 for x in d]
    elif k == 6:
        kw["sx"] = 0.3
    else:
        kw["padx"] = int(rng.integers(0, 5))
    return ("sim", tuple(v), n, d, kw)


def do_sim(g, op):
    _, v, n, d, kw = op
    a = []
    for x, y in zip(n, d):
        a += [x, y]
    vv = g.variogram(*v)
    return np.array(g.advanced.simulate(vv, *a, **kw) if kw else g.simulate(vv, *a))


def gen_noise_op(rng):
    k = int(rng.integers(0, 9))
    return (["corr", "size", "getseed", "var", "badsim", "badvar", "unknown", "gc", "badadv"][k], gen_var(rng), int(rng.integers(1, 50)))


def do_noise_op(g, op, keep):
    k, v, n = op
    if k == "corr":
        x = g.variogram(*v)
        x.corr(1.5), x.corr(1.0, 2.0), x.corr(1.0, 2.0, 3.0)
    elif k == "size":
        g.simulation_size(g.variogram(*v), n, 1.0, n, 2.0)
    elif k == "getseed":
        try:
            g.seed()
        except RuntimeError:
            pass
    elif k == "var":
        keep.append(g.variogram(*v))
        if len(keep) > 20:
            keep.pop(0)
    elif k == "badsim":
        for f in (lambda: g.simulate(g.variogram(*v), -n, 1.0), lambda: g.simulate(g.variogram(*v), "x", 1.0), lambda: g.simulate(None, 3)):
            try:
                f()
            except (TypeError, ValueError):
                pass
    elif k == "badadv":
        try:
            g.advanced.simulate(g.variogram(*v), n, 1.0, nosuch=1)
        except TypeError:
            pass
    elif k == "badvar":
        try:
            g.variogram(12, "a")
        except TypeError:
            pass
    elif k == "unknown":
        g.variogram("no_such_type", 3.0)
    elif k == "gc":
        gc.collect()


def hist_init(w):
    import gaussianfft
    w.g = gaussianfft

    def ref(prog):
        seed, sims = prog
        w.g.seed(seed)
        return [do_sim(w.g, s) for s in sims]
    w.z = Zygote(ref)
    w.keep = []
    w.tool = None


def hist(w, c, rng):
    g = w.g
    big = c % 7 == 0
    seed = int(rng.choice([0, 1, 2 ** 32 - 1, 2 ** 31, int(rng.integers(0, 2 ** 32)), int(rng.integers(0, 10000))]))
    sims = [gen_sim(rng, big) for _ in range(int(rng.integers(1, 5)))]
    for _ in range(int(rng.integers(0, 3))):
        sims.append(mutate(rng, sims[int(rng.integers(0, len(sims)))]))
    sims = [sims[i] for i in rng.permutation(len(sims))]
    st, ref = w.z((seed, sims))
    if not w.check(st == "ok", "reference-run-failed", "%s %s for seed=%d %s" % (st, ref, seed, sims)):
        return
    # history
    kinds = []
    for _ in range(int(rng.integers(0, 12))):
        x = rng.random()
        if x < 0.2:
            g.seed(int(rng.integers(0, 2 ** 32)))
            kinds.append("seed")
        elif x < 0.55:
            if rng.random() < 0.5:
                do_sim(g, mutate(rng, sims[int(rng.integers(0, len(sims)))]))
                kinds.append("similar")
            else:
                do_sim(g, gen_sim(rng))
                kinds.append("sim")
        else:
            op = gen_noise_op(rng)
            do_noise_op(g, op, w.keep)
            kinds.append(op[0])
    g.seed(seed)
    inter = []
    for i, s in enumerate(sims):
        while rng.random() < 0.5:
            op = gen_noise_op(rng)
            do_noise_op(g, op, w.keep)
            inter.append(op[0])
        f = do_sim(g, s)
        same = f.shape == ref[i].shape and np.allclose(f, ref[i], rtol=1e-9, atol=1e-10)
        w.check(same, "history-dependent-field", lambda: "seed=%d call %d of %s differs after history %s, interleaved %s" % (seed, i, sims, kinds, inter))
        w.stat("fields_compared")
        w.stat("fields_bit_identical", int(f.tobytes() == ref[i].tobytes()))
    w.check(g.seed() == seed, "seed-report", "seed() = %s after seed(%d)" % (g.seed(), seed))
    # same seed again: the whole sequence replays
    g.seed(seed)
    f = [do_sim(g, s) for s in sims]
    w.check(all(np.allclose(a, b, rtol=1e-9, atol=1e-10) for a, b in zip(f, ref)), "replay-differs", lambda: "seed=%d %s" % (seed, sims))
    # each call is determined by its position: distinct seeds/positions give distinct fields
    if len(sims) >= 2:
        g.seed(seed)
        a, b = do_sim(g, sims[0]), do_sim(g, sims[0])
        if a.size > 2 and sims[0][1][0] != "constant":
            w.check(not np.allclose(a, b, atol=1e-9), "stuck-stream", lambda: "two successive calls give the same field: seed=%d %s" % (seed, sims[0]))
    w.stat("history_operations", len(kinds) + len(inter))
    if len(kinds) + len(inter) >= 3:
        w.sig(tuple(len(s[2]) for s in sims), tuple(s[1][0] for s in sims), tuple(sorted(set(kinds + inter))))
    w.sample("seed=%d sims=%s history=%s interleaved=%s" % (seed, [(s[1][0], s[2]) for s in sims], kinds, inter))


def cpp_init(w):
    w.tool = SimTool(w, w.opt["--simtool"])
    w.tool2 = SimTool(w, w.opt["--simtool"])


def cpp_end(w):
    for t in (w.tool, w.tool2):
        t.close()


def cpp(w, c, rng):
    """C++ entry points: same seed, same field in a process with history and in one without."""
    _, v, n, d, kw = gen_sim(rng)
    nd = len(n)
    v = Vario(*v)
    s = int(rng.integers(0, 2 ** 32))
    fl = " ".join("%d %r" % (a, b) for a, b in zip(n, d))
    modes = {1: ["ens1 0 %d 1 %s -1 1.0", "ens1 1 %d 1 %s -1 1.0"], 2: ["ens2 0 %d 1 %s -1 -1 1.0 1.0 2", "ens2 1 %d 1 %s -1 -1 1.0 1.0 2", "ens2 2 %d 1 %s -1 -1 1.0 1.0 1"],
             3: ["ens3 %d 1 %s -1 -1 -1 1.0 1.0 1.0 2"]}[nd]
    for m in modes:
        w.tool2.close()
        w.tool2.start()
        w.tool2(v.cmd())
        ref = w.tool2(m % (s, fl))
        w.tool(v.cmd())
        for _ in range(int(rng.integers(0, 3))):
            w.tool("stream %d %d %s" % (rng.integers(0, 2), rng.integers(0, 1000), "uoin" * int(rng.integers(1, 200))))
        f = w.tool(m % (s, fl))
        w.check(f.shape == ref.shape and np.allclose(f, ref, rtol=1e-9, atol=1e-10), "history-dependent-field-cpp", "%s %s n=%s" % (m, v, n))
        w.stat("cpp_fields_compared")
        w.sig("cpp", m, v.t, nd)


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["a forked child that has only imported the module stands for a fresh process"]
    pkg, tool = simo.build_all(ctx)
    ctx.log("built")
    o = ["--simtool", tool]
    ctx.run_py("hist", ctx.n(1200, 12000), pkg, o)
    ctx.run_py("cpp", ctx.n(80, 600), pkg, o)
