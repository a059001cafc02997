#!/usr/bin/env python3
"""seed.py make SPEC.py...   build seeded/<id>/ from a spec (edits, demo, meta) and confirm it
seed.py check ID... [-- PIDS]   run the property's check against the planted bug
Everything is applied to /repo's working tree and undone again."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)


def clean():
    sh("git -C /repo checkout -- .")


def assert_clean():
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is dirty"


def tests():
    r = sh("bash /opt/vp/test.sh /tmp/seed-o.json")
    o = json.load(open("/tmp/seed-o.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    return sorted(set(b["stable"]) - set(o["passed"]))


def demo(d):
    r = sh(["timeout", "300", "bash", os.path.join(d, "demo.sh")], cwd=REPO)
    return r.returncode, (r.stdout + r.stderr)[-300:]


def make(spec):
    s = runpy.run_path(spec)
    d = os.path.join(V, "seeded", s["id"])
    assert_clean()
    for f, a, b in s["edits"]:
        p = os.path.join(REPO, f)
        t = open(p, encoding="utf8", newline="").read()
        if "\r\n" in t:
            a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
        assert t.count(a) == 1, "%s: %d matches of %r" % (f, t.count(a), a)
        open(p, "w", encoding="utf8", newline="").write(t.replace(a, b))
    os.makedirs(d, exist_ok=True)
    patch = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(patch)
    for n, t in s["files"].items():
        open(os.path.join(d, n), "w").write(t)
    json.dump(s["meta"], open(os.path.join(d, "meta.json"), "w"), indent=1)
    try:
        bad = tests()
        a = demo(d)
    finally:
        clean()
    sh("bash /opt/vp/build.sh")
    b = demo(d)
    ok = not bad and a[0] != 0 and b[0] == 0
    print(s["id"], "OK" if ok else "BAD", "tests:", bad, "demo with:", a, "without:", b)
    if not ok:
        shutil.rmtree(d)
    return ok


def check(i, pids=None):
    assert_clean()
    d = os.path.join(V, "seeded", i)
    m = json.load(open(os.path.join(d, "meta.json")))
    r = sh(["git", "-C", REPO, "apply", os.path.join(d, "patch.diff")])
    if r.returncode:
        print(i, "DOES NOT APPLY", r.stderr)
        return
    try:
        for p in pids or [m["property"]]:
            r = sh([sys.executable, os.path.join(V, "run.py"), p, "quick"])
            v = [l for l in r.stdout.splitlines() if l.startswith("  ")]
            print(i, p, "rc=%d" % r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout else "MISSED", (v or [r.stderr[-200:]])[0][:230], flush=True)
    finally:
        clean()


if sys.argv[1] == "make":
    for s in sys.argv[2:]:
        make(s)
else:
    a = sys.argv[2:]
    p = a[a.index("--") + 1:] if "--" in a else None
    a = a[:a.index("--")] if "--" in a else a
    for i in a or sorted(os.listdir(os.path.join(V, "seeded"))):
        check(i, p)
