"""P03: seed life cycle."""
import numpy as np
from vlib import simo, build
from vlib.zyg import Zygote
from props.p02 import gen_sim, do_sim, gen_noise_op, do_noise_op

RULE = ("Random histories of set/get/simulate/failing/non-simulating calls, each in a pristine forked process so that the unset state is real, "
        "checked step by step against a model (unset, or the value set); automatic seeds are read back and replayed. The C++ seed-file API is driven "
        "through load/save/failing-load/reseed histories in lock step with an independent generator. Non-trivial: every history; distinct by the sequence of operation kinds.")


def hist_init(w):
    import gaussianfft
    w.g = gaussianfft
    w.tool = None

    def child(ops):
        g, log, keep = w.g, [], []
        for op in ops:
            try:
                if op[0] == "get":
                    log.append(("get", g.seed()))
                elif op[0] == "set":
                    log.append(("set", g.seed(op[1])))
                elif op[0] == "badset":
                    log.append(("badset", g.seed(*op[1])))
                elif op[0] == "sim":
                    log.append(("sim", do_sim(g, op)))
                elif op[0] == "replay":      # re-seed with the reported seed and repeat the simulations since
                    s = g.seed()
                    g.seed(s)
                    log.append(("replay", s, [do_sim(g, o) for o in op[1]]))
                else:
                    do_noise_op(g, op, keep)
                    log.append((op[0],))
            except Exception as e:
                log.append(("exc", type(e).__name__, str(e)))
        return log
    w.z = Zygote(child)


def hist(w, c, rng):
    ops = []
    since = []
    known = None          # None = unset
    nset = 0
    for _ in range(int(rng.integers(3, 16))):
        x = rng.random()
        if x < 0.22:
            ops.append(("get",))
        elif x < 0.36 and (nset or rng.random() < 0.5):
            ops.append(("set", int(rng.choice([0, 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 + 7, int(rng.integers(0, 2 ** 32))], p=[.1, .1, .05, .1, .05, .05, .55]) if True else 0)))
            nset += 1
        elif x < 0.42:
            ops.append(("badset", [(-1,), ("a",), (1.5,), (1, 2), (None,)][int(rng.integers(0, 5))]))
        elif x < 0.75:
            ops.append(gen_sim(rng))
        elif x < 0.85:
            ops.append(gen_noise_op(rng))
        else:
            # simulations since the last set / since the start
            last = max([i for i, o in enumerate(ops) if o[0] in ("set", "replay")], default=-1)
            sims = [o for o in ops[last + 1:] if o[0] == "sim"]
            if sims and not (last >= 0 and ops[last][0] == "replay"):
                ops.append(("replay", sims))
    st, log = w.z(ops)
    if not w.check(st == "ok", "history-run-failed", "%s %s in %s" % (st, log, ops)):
        return
    state = None
    auto = False
    fields = []
    for i, (op, ob) in enumerate(zip(ops, log)):
        h = lambda: "step %d of %s" % (i, [(o[0], o[1] if o[0] == "set" else "") for o in ops])
        if op[0] == "get":
            if state is None:
                w.check(ob[0] == "exc" and ob[1] == "RuntimeError", "get-before-set", lambda: "%s -> %s (%s)" % (ob[:2], "expected an error", h()))
            elif state == "auto":
                w.check(ob[0] == "get" and isinstance(ob[1], int) and 0 <= ob[1] < 2 ** 64, "automatic-seed-not-reported", lambda: "%s %s" % (ob, h()))
                if ob[0] == "get":
                    state = ob[1]
            else:
                w.check(ob == ("get", state), "seed-report", lambda: "got %s, expected %s: %s" % (ob, state, h()))
        elif op[0] == "set":
            w.check(ob == ("set", None), "set-failed", lambda: "%s %s" % (ob, h()))
            state = op[1]
            fields = []
        elif op[0] == "badset":
            w.check(ob[0] == "exc" and ob[1] == "TypeError", "bad-seed-accepted", lambda: "seed%s -> %s: %s" % (op[1], ob, h()))
        elif op[0] == "sim":
            if not w.check(ob[0] == "sim", "simulate-failed", lambda: "%s %s" % (ob, h())):
                return
            if state is None:
                state = "auto"
                w.stat("automatic_seeds")
            fields.append(ob[1])
        elif op[0] == "replay":
            if not w.check(ob[0] == "replay", "replay-failed", lambda: "%s %s" % (ob, h())):
                return
            if state == "auto":
                w.check(0 <= ob[1] < 2 ** 64, "automatic-seed-not-reported", h)
                w.stat("automatic_seeds_replayed")
            else:
                w.check(ob[1] == state, "seed-report", lambda: "got %s expected %s: %s" % (ob[1], state, h()))
            state = ob[1]
            w.check(len(ob[2]) == len(fields) and all(np.allclose(a, b, rtol=1e-9, atol=1e-10) for a, b in zip(ob[2], fields)),
                    "reported-seed-does-not-replay", lambda: "seed %s: %s" % (ob[1], h()))
            w.stat("replays_compared")
            fields = []
        else:
            w.check(ob[0] == op[0], "call-failed", lambda: "%s -> %s" % (op, ob))
    w.stat("history_steps", len(ops))
    w.sig(tuple(o[0] for o in ops))
    w.sample([o[0] if o[0] != "set" else o[:2] for o in ops])


def run(ctx):
    ctx.rule = RULE
    pkg, b = build.parallel(lambda: build.build_ext(), lambda: build.build_cpp("p03", "p03_seedfile.cpp",
                            ["nrlib/random/dSFMT.cpp", "nrlib/random/random.cpp", "nrlib/random/randomgenerator.cpp"]))
    ctx.log("built")
    ctx.run_py("hist", ctx.n(2400, 20000), pkg)
    ctx.run_cpp(b, ctx.n(1600, 20000))
