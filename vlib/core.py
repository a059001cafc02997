"""Driver core: context, harness runner (sharding, crash and hang handling),
known findings, replay files, evidence."""
import concurrent.futures as cf
import json, os, re, select, shutil, signal, subprocess, sys, threading, time
from . import build

VERIF = build.VERIF
WORK = os.path.join(VERIF, ".work")
HANG_S = int(os.environ.get("VERIF_HANG_S", "75"))


def load_known():
    """known-findings.jsonl: {"property","match","what"}; lines starting with
    'fixed:' document repairs and suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                out.append(json.loads(l))
    return out


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.viol = []           # (key, msg, replay dict)
        self.stats = {}
        self.sigs = set()
        self.evals = 0
        self.samples = []
        self.rule = ""
        self.assumptions = []
        self.level = "exploration"
        self.lock = threading.Lock()
        self.work = os.path.join(WORK, "%s-%s-%d" % (pid, tier, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.hung = False
        self.env = dict(os.environ)
        self.env.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                        PYTHONDONTWRITEBYTECODE="1", LC_ALL="C")
        self.env.pop("LD_PRELOAD", None)

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # -- observations -------------------------------------------------------
    def stat(self, name, k=1):
        with self.lock:
            self.stats[name] = self.stats.get(name, 0) + k

    def note(self, sig, sample=None, evals=1):
        with self.lock:
            self.evals += evals
            self.sigs.add(sig)
            if sample is not None and len(self.samples) < 12:
                self.samples.append(sample)

    def violation(self, key, msg, replay=None):
        with self.lock:
            self.viol.append((key, msg, replay or {}))

    def log(self, *a):
        print("[%s %.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # -- C++ harnesses ------------------------------------------------------
    def run_cpp(self, binary, ncases, args=(), shards=None, flavour_env=None, start=0, label="", prefix=(), suffix=()):
        """Run cases start..start+ncases-1 of a harness, sharded.  A dead process
        is a violation of the case it was in (sanitizer report, signal, or
        uncaught failure); the shard then resumes with the next case."""
        if self.stop():
            return
        binary = [binary] + list(prefix)
        args = list(args) + list(suffix)
        shards = shards or build.JOBS
        shards = max(1, min(shards, ncases))
        jobs = []
        with cf.ThreadPoolExecutor(shards) as ex:
            for s in range(shards):
                jobs.append(ex.submit(self._shard, binary, start + s, start + ncases, shards, list(args), flavour_env, label, s))
            for j in jobs:
                j.result()

    def run_py(self, fn, ncases, pkg=None, opts=(), shards=None, env=None, start=0, label=""):
        """Same as run_cpp for a case function fn of the property's module."""
        e = {"PYTHONPATH": os.pathsep.join(([pkg] if pkg else []) + [VERIF])}
        e.update(env or {})
        self.run_cpp(build.PY, ncases, [], shards, e, start, label,
                     prefix=["-m", "vlib.pw", "props." + self.pid.lower(), fn],
                     suffix=["--tier", self.tier] + list(opts))

    def _env(self, flavour_env):
        e = dict(self.env)
        e["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=77:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=4096:print_legend=0"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"
        e["LSAN_OPTIONS"] = "exitcode=77:print_suppressions=0"
        e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:second_deadlock_stack=1"
        e.update(flavour_env or {})
        return e

    def stop(self):
        """after a confirmed hang, or late in a quick run that has found something, the rest is skipped"""
        return self.hung or (self.quick and self.viol and time.time() - self.t0 > 420)

    def _shard(self, binary, first, end, step, args, flavour_env, label, shard):
        cur = first
        deaths = 0
        while cur < end and not self.stop():
            last, done, rc, err, hang = self._once(binary, cur, end, step, args, flavour_env, shard)
            if done and rc == 0:
                return
            if hang:
                # a hang is only believed when the case hangs again, alone
                l2, d2, rc2, err2, hang2 = self._once(binary, last, last + 1, 1, args, flavour_env, shard)
                if hang2:
                    self.hung = True
                    self.violation("hang", "case %s did not finish within %d s (twice)" % (last, HANG_S),
                                   self._replay(binary, last, args, err2, label))
                elif not (d2 and rc2 == 0):
                    self._death(binary, last, args, rc2, err2, label)
            elif last is None:
                raise RuntimeError("harness %s produced nothing (rc=%s)\n%s" % (binary, rc, err[-3000:]))
            else:
                if done and rc == 77 and "LeakSanitizer" in err:
                    self._death(binary, last, args, rc, err, label, whole=(cur, end, step))
                    return
                if MKL_OVERREAD.search(err):
                    # MKL's planner reads a few bytes past one of its own tables; under ASan such a
                    # block can end at an unmapped page.  No memory of the code under test is involved.
                    self.stat("restarts_after_mkl_planner_overread")
                    cur = last + step
                    continue
                self._death(binary, last, args, rc, err, label)
            deaths += 1
            if deaths >= int(os.environ.get("VERIF_MAX_DEATHS", "4")):
                self.stat("shards_cut_short_after_repeated_deaths")
                return
            cur = last + step

    def _death(self, binary, case, args, rc, err, label, whole=None):
        if rc == 99:
            raise RuntimeError("harness error: " + err[-2000:])
        key = death_key(rc, err)
        self.violation(key, "process died in case %s (rc=%s): %s" % (case, rc, key),
                       self._replay(binary, case, args, err, label, whole))

    def _replay(self, binary, case, args, err, label, whole=None):
        a, b, s = whole or (case, case + 1, 1)
        return {"cmd": binary + ["--seed", str(self.seed), "--first", str(a), "--end", str(b),
                        "--step", str(s)] + args, "label": label, "stderr": err[-6000:]}

    def _once(self, binary, first, end, step, args, flavour_env, shard):
        wd = os.path.join(self.work, "s%d" % shard)
        os.makedirs(wd, exist_ok=True)
        cmd = binary + ["--seed", str(self.seed), "--first", str(first), "--end", str(end),
               "--step", str(step)] + args
        errf = os.path.join(wd, "stderr.txt")
        with open(errf, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=ef, env=self._env(flavour_env), cwd=wd,
                                 start_new_session=True)
        last, done, hang = None, False, False
        buf = b""
        fd = p.stdout.fileno()
        while True:
            r, _, _ = select.select([fd], [], [], HANG_S)
            if not r:
                hang = True
                os.killpg(p.pid, signal.SIGKILL)
                break
            b = os.read(fd, 1 << 16)
            if not b:
                break
            buf += b
            *lines, buf = buf.split(b"\n")
            for l in lines:
                l = l.decode("utf8", "replace")
                if l.startswith("C "):
                    last = int(l[2:])
                elif l == "DONE":
                    done = True
                else:
                    self._line(l, binary, last, args)
        p.wait()
        with open(errf, "rb") as f:
            err = f.read()[-60000:].decode("utf8", "replace")
        return last, done, p.returncode, err, hang

    def _line(self, l, binary, last, args):
        t = l.split("\t")
        if t[0] == "V":
            self.violation(t[1], "case %s: %s" % (last, "\t".join(t[2:])), self._replay(binary, last, args, "", ""))
        elif t[0] == "S":
            self.stat(t[1], int(t[2]))
        elif t[0] == "E":
            with self.lock:
                self.evals += int(t[1])
        elif t[0] == "G":
            with self.lock:
                self.sigs.update(t[1].split())
        elif t[0] == "X":
            with self.lock:
                if len(self.samples) < 12:
                    self.samples.append("\t".join(t[1:]))

    # -- the end ------------------------------------------------------------
    def finish(self):
        known = [k for k in load_known() if k["property"] == self.pid]
        real, seen = {}, {}
        for key, msg, rep in self.viol:
            hit = None
            for k in known:
                if re.fullmatch(k["match"], key):
                    hit = k
                    break
            if hit:
                seen.setdefault(hit["what"], 0)
                seen[hit["what"]] += 1
            else:
                real.setdefault(key, []).append((msg, rep))
        for w in seen:
            print("KNOWN-FINDING: property=%s %s (seen %d times)" % (self.pid, w, seen[w]))
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {"evaluations": int(self.evals), "distinct_nontrivial": len(self.sigs),
                         "rule": self.rule, "samples": self.samples[:12],
                         "observed": {k: self.stats[k] for k in sorted(self.stats)}},
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": sum(len(v) for v in real.values()),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        rc = 0
        rd = os.path.join(WORK, "replays")
        for i, (key, lst) in enumerate(real.items()):
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, "%s-%s-%d.json" % (self.pid, re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:60], i))
            with open(p, "w") as f:
                json.dump({"property": self.pid, "key": key, "seed": self.seed, "tier": self.tier,
                           "first": lst[0][0], "count": len(lst), "messages": [m for m, _ in lst[:20]],
                           "replay": lst[0][1]}, f, indent=1, default=str)
            if i < 20:
                print("  %s: %s" % (key, lst[0][0][:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            rc = 1
        if rc == 0 and (self.evals == 0 or not self.sigs):
            print("ERROR: nothing was observed", file=sys.stderr)
            rc = 3
        shutil.rmtree(self.work, ignore_errors=True)
        self.log("evaluations=%d distinct=%d violations=%d" % (self.evals, len(self.sigs), ev["violations"]))
        return rc


MKL_OVERREAD = re.compile(r"AddressSanitizer: SEGV on unknown address[^\n]*\n[\s\S]{0,300}?#0 0x[0-9a-f]+ in mkl_dft_\w*commit")


def death_key(rc, err):
    m = re.search(r"SUMMARY: (\w+Sanitizer): (data race|[\w-]+)(.*)", err)
    fn = ""
    # first frame which lies in the repository
    for fm in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+)", err):
        if "/repo/src" in fm.group(2) or "/src/nrlib" in fm.group(2):
            fn = re.sub(r"\(.*", "", fm.group(1)).strip()
            break
    u = re.search(r"([\w./-]+):\d+:\d+: runtime error: (.*)", err)
    if u:
        return "ubsan:%s:%s:%s" % (os.path.basename(u.group(1)), re.sub(r"[-\d.x]+", "N", u.group(2))[:60], fn)
    if m:
        return "%s:%s:%s" % (m.group(1), m.group(2), fn)
    if "Assertion" in err:
        a = re.search(r"([^\n]*Assertion[^\n]*)", err)
        return "assert:" + re.sub(r"0x[0-9a-f]+|:\d+", "", a.group(1))[-120:]
    w = re.search(r"what\(\):\s*(.*)", err)
    if w:
        return "terminate:" + w.group(1)[:80]
    return "died:rc=%s" % rc


def main(pid, tier):
    import importlib, traceback
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = Ctx(pid, tier, seed)
    try:
        mod = importlib.import_module("props." + pid.lower())
        mod.run(ctx)
        return ctx.finish()
    except build.BuildError as e:
        print("BUILD-ERROR: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 3
