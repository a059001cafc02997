"""Worker side of the Python harnesses; speaks the protocol of vh.hpp."""
import hashlib, os, sys, traceback
import numpy as np


class W:
    def __init__(self, seed, work, tier):
        self.seed, self.work, self.tier = seed, work, tier
        self.stats, self.sigs, self.evals, self.nv, self.ns = {}, set(), 0, 0, 0
        self.env = dict(os.environ)
        self.quick = tier == "quick"

    def _env(self, e):
        return self.env

    def out(self, s):
        sys.__stdout__.write(s + "\n")
        sys.__stdout__.flush()

    def viol(self, key, msg):
        self.nv += 1
        if self.nv < 200:
            self.out("V\t%s\t%s" % (key, str(msg).replace("\n", " ").replace("\t", " ")[:1500]))

    def check(self, cond, key, msg):
        self.evals += 1
        if not cond:
            self.viol(key, msg() if callable(msg) else msg)
        return bool(cond)

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + int(n)

    def sig(self, *a):
        self.sigs.add(hashlib.md5(repr(a).encode()).hexdigest()[:15])

    def sample(self, s):
        self.ns += 1
        if self.ns <= 2:
            self.out("X\t" + str(s).replace("\n", " ")[:600])


def main(argv):
    import importlib
    modname, fn = argv[1], argv[2]
    o = dict(zip(argv[3::2], argv[4::2]))
    seed, first, end, step = int(o["--seed"]), int(o["--first"]), int(o["--end"]), int(o["--step"])
    mode = o.get("--mode", "")
    mod = importlib.import_module(modname)
    w = W(seed, os.getcwd(), o.get("--tier", "quick"))
    w.opt = o
    f = getattr(mod, fn)
    if hasattr(mod, fn + "_init"):
        getattr(mod, fn + "_init")(w)
    from vlib import simo, core
    for c in range(first, end, step):
        w.out("C %d" % c)
        w.case = c
        rng = np.random.default_rng([seed, c, int(hashlib.md5((fn + mode).encode()).hexdigest()[:8], 16)])
        try:
            f(w, c, rng)
        except simo.SimDied as e:
            w.viol(core.death_key(e.rc, e.err), "%s | %s" % (e, e.err[-900:]))
            w.tool.start()
        except MemoryError:
            raise
        except Exception as e:
            tb = traceback.format_exc()
            # an exception raised inside the package under test is an observation, one
            # raised by the harness itself is an error of the harness
            w.viol("unexpected-exception:%s" % type(e).__name__, tb[-1200:])
    if hasattr(mod, fn + "_end"):
        getattr(mod, fn + "_end")(w)
    for k in sorted(w.stats):
        w.out("S\t%s\t%d" % (k, w.stats[k]))
    w.out("E\t%d" % w.evals)
    s = sorted(w.sigs)
    for i in range(0, len(s), 1000):
        w.out("G\t" + " ".join(s[i:i + 1000]))
    w.out("DONE")


if __name__ == "__main__":
    main(sys.argv)
