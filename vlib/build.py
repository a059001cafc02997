"""Builds everything a check needs from /repo's current working tree.

Objects are addressed by content: the name of an object file is a hash of the
source text, of every header under /repo/src (and of the harness headers), and
of the flags.  So a stale object can never be used, whatever the mtimes say.
"""
import concurrent.futures as cf
import glob, hashlib, os, shutil, subprocess, sys, sysconfig, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, ".build")
HARN = os.path.join(VERIF, "harness")
VENV = "/opt/gfft/venv"
PY = VENV + "/bin/python"
JOBS = max(1, min(8, os.cpu_count() or 1))


class BuildError(Exception):
    pass


SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_EXTERN_TEMPLATE=0"
FLAVOURS = {
    # name: (compiler, compile flags, link flags)
    "asan":  ("g++", "-O1 -g1 " + SAN, "-fsanitize=address,undefined"),
    "asanf": ("g++", "-O1 -g1 -fsanitize=float-cast-overflow " + SAN, "-fsanitize=address,undefined"),
    "asanm": ("g++", "-O1 -g1 -DNDEBUG -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_EXTERN_TEMPLATE=0", "-fsanitize=address"),
    "tsan":  ("g++", "-O1 -g1 -fsanitize=thread", "-fsanitize=thread"),
    "plain": ("g++", "-O2 -g1 -D_GLIBCXX_ASSERTIONS", ""),
}
BASE = ("-std=c++17 -w -pthread -I%s -I%s/nrlib -I/usr/include/x86_64-linux-gnu/openblas-pthread "
        "-DHAS_BOOST_FILESYSTEM -DUSE_BOOST -DFLENS_FIRST_INDEX=0 -I%s" % (SRC, SRC, HARN))
LIBS = "-lboost_filesystem -lfftw3 -lfftw3f -lopenblas -llapacke -lm"
SKIP = ("/unittests/", "/backup/", "/experimentation/", "pchheader.cpp")


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


_hdr = {}


def header_hash():
    if "h" not in _hdr:
        fs = []
        for root, _, files in os.walk(SRC):
            for f in files:
                # some .cpp/.cc files are #included, so anything which is not a plain
                # translation unit of ours counts as a header
                if f.endswith((".hpp", ".h", ".tcc", ".hh", ".inl", ".ipp", ".cci")):
                    fs.append(os.path.join(root, f))
        fs += sorted(glob.glob(HARN + "/*.hpp"))
        _hdr["h"] = _h(*[x for f in sorted(fs) for x in (f, _read(f))])
    return _hdr["h"]


def all_sources():
    r = sorted(glob.glob(SRC + "/nrlib/**/*.cpp", recursive=True)) + sorted(glob.glob(SRC + "/flens/*.cc"))
    return [f for f in r if not any(s in f for s in SKIP)]


def dir_sources(dirs):
    out = []
    for d in dirs:
        p = os.path.join(SRC, d)
        if os.path.isfile(p):
            out.append(p)
        else:
            out += sorted(glob.glob(p + "/*.cpp")) + sorted(glob.glob(p + "/*.cc"))
    return [f for f in dict.fromkeys(out) if not any(s in f for s in SKIP)]


def _compile(src, flavour, extra=""):
    cc, fl, _ = FLAVOURS[flavour]
    flags = "%s %s %s" % (BASE, fl, extra)
    o = os.path.join(BUILD, "obj", _h(src, _read(src), header_hash(), cc, flags) + ".o")
    if os.path.exists(o):
        os.utime(o)
        return o, 0
    os.makedirs(os.path.dirname(o), exist_ok=True)
    tmp = o + ".%d.tmp" % os.getpid()
    r = subprocess.run([cc] + flags.split() + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("compile %s\n%s" % (src, r.stderr[-3000:]))
    os.replace(tmp, o)
    return o, 1


def compile_all(srcs, flavour, extra=""):
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return [o for o, _ in ex.map(lambda s: _compile(s, flavour, extra), srcs)]


MKL = ("-Wl,--start-group {0}/lib/libmkl_intel_ilp64.a {0}/lib/libmkl_sequential.a {0}/lib/libmkl_core.a -Wl,--end-group "
       "-lboost_filesystem -lpthread -lm -ldl").format(VENV)


def _link(objs, out, flavour, libs=LIBS):
    cc, _, lf = FLAVOURS[flavour]
    tmp = out + ".%d.tmp" % os.getpid()
    r = subprocess.run([cc, "-pthread"] + lf.split() + objs + ["-o", tmp] + libs.split(),
                       capture_output=True, text=True)
    if r.returncode != 0:
        return r.stderr
    os.replace(tmp, out)
    return None


def prune(limit=1500 << 20):
    d = os.path.join(BUILD, "obj")
    if not os.path.isdir(d):
        return
    fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=lambda f: os.path.getmtime(f))
    tot = sum(os.path.getsize(f) for f in fs)
    for f in fs:
        if tot < limit:
            break
        tot -= os.path.getsize(f)
        os.remove(f)


def build_cpp(name, harness, dirs, flavour="asan", extra="", libs=LIBS):
    """Link harness/<harness> with the sources under the given src/ dirs.  If the
    link fails (e.g. code moved to another directory), link with the whole library."""
    prune()
    hs = os.path.join(HARN, harness)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    out = os.path.join(BUILD, "bin", "%s-%s" % (name, flavour))
    srcs = dir_sources(dirs)
    objs = compile_all([hs] + srcs, flavour, extra)
    err = _link(objs, out, flavour, libs)
    if err:
        rest = [s for s in all_sources() if s not in srcs]
        objs2 = compile_all(rest, flavour, extra)
        a = out + ".rest.a"
        if os.path.exists(a):
            os.remove(a)
        subprocess.run(["ar", "rcs", a] + objs2, check=True, capture_output=True)
        err = _link(objs + [a], out, flavour, libs)
        if err:
            raise BuildError("link %s\n%s" % (name, err[-3000:]))
    return out


def tree_hash(paths):
    parts = []
    for p in paths:
        p = os.path.join(REPO, p)
        if os.path.isfile(p):
            parts += [p, _read(p)]
        else:
            for root, ds, files in sorted(os.walk(p)):
                ds.sort()
                if "__pycache__" in root:
                    continue
                for f in sorted(files):
                    if f.endswith(".pyc"):
                        continue
                    q = os.path.join(root, f)
                    parts += [q, _read(q)]
    return _h(*parts)


def build_ext(flavour="release"):
    """The Python extension, by the project's own CMakeLists, plus a copy of the
    Python package.  Returns the directory to put on PYTHONPATH."""
    cxxflags = {"release": "", "asan": "-fsanitize=address,undefined -fno-sanitize-recover=undefined -g1 -fno-lto"}[flavour]
    key = _h(tree_hash(["src", "gaussianfft", "CMakeLists.txt", "cmake", "bin", "utils.py"]), flavour)
    d = os.path.join(BUILD, "ext-" + flavour)
    stamp = os.path.join(d, "stamp")
    pkg = os.path.join(d, "pkg")
    if os.path.exists(stamp) and _read(stamp).decode() == key:
        return pkg
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(pkg)
    env = dict(os.environ, CC="gcc", CXX="g++", PYTHONDONTWRITEBYTECODE="1", PIP_NO_INDEX="1", CXXFLAGS=cxxflags)
    env.pop("PYTHONPATH", None)
    soabi = subprocess.run([PY, "-c", "import sysconfig; print(sysconfig.get_config_var('SOABI'))"],
                           capture_output=True, text=True).stdout.strip()
    bd = os.path.join(d, "b")
    cmd = ["cmake", "-S", REPO, "-B", bd, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release", "-DSKBUILD=2",
           "-DSKBUILD_SOABI=" + soabi, "-DSKBUILD_PLATLIB_DIR=" + d + "/site", "-DPython3_EXECUTABLE=" + PY,
           "-DCMAKE_PREFIX_PATH=%s/lib/python3.12/site-packages/pybind11/share/cmake" % VENV]
    if flavour == "asan":
        cmd.append("-DCMAKE_CXX_FLAGS_RELEASE=-O1 -DNDEBUG")
        cmd.append("-DCMAKE_SHARED_LINKER_FLAGS=-fsanitize=address,undefined")
    for c in (cmd, ["ninja", "-C", bd, "-j%d" % JOBS]):
        r = subprocess.run(c, capture_output=True, text=True, env=env, cwd=REPO)
        if r.returncode != 0:
            raise BuildError("%s\n%s\n%s" % (" ".join(c), r.stdout[-3000:], r.stderr[-3000:]))
    so = glob.glob(bd + "/_gaussianfft*.so")
    if not so:
        raise BuildError("no extension produced")
    shutil.copy(so[0], pkg)
    shutil.copytree(os.path.join(REPO, "gaussianfft"), os.path.join(pkg, "gaussianfft"),
                    ignore=shutil.ignore_patterns("__pycache__"))
    with open(os.path.join(pkg, "gaussianfft", "_version.py"), "w") as f:
        f.write("__version__ = version = '0.1.dev0'\n__version_tuple__ = version_tuple = (0, 1, 'dev0')\n")
    with open(stamp, "w") as f:
        f.write(key)
    return pkg


def parallel(*fns):
    with cf.ThreadPoolExecutor(len(fns)) as ex:
        return [f.result() for f in [ex.submit(g) for g in fns]]
