"""Independent oracles for the simulation part, and the client of simtool."""
import os, subprocess
import numpy as np
from . import build

TYPES = ["gaussian", "exponential", "general_exponential", "spherical", "matern32", "matern52", "matern72", "constant"]
RATIO = {"gaussian": 6.67, "exponential": 2.33, "spherical": 1.92, "matern32": 4.0, "matern52": 4.76, "matern72": 5.26, "constant": 1.0}
SIMDIRS = ["nrlib/random/dSFMT.cpp", "nrlib/random/random.cpp", "nrlib/random/randomgenerator.cpp", "nrlib/variogram",
           "nrlib/fft", "nrlib/math/constants.cpp", "nrlib/iotools/stringtools.cpp"]


def ratio(t, power):
    return 4.0 + (power - 1.5) * 5.34 if t == "general_exponential" else RATIO[t]


def corr1(t, d, power=1.5):
    """Isotropic correlation at normalised distance d (1 = the range)."""
    d = np.asarray(d, dtype=float)
    if t == "gaussian":
        return np.exp(-3 * d * d)
    if t == "exponential":
        return np.exp(-3 * d)
    if t == "general_exponential":
        return np.exp(-3 * d ** power)
    if t == "spherical":
        return np.where(d < 1, 1 - 1.5 * d + 0.5 * d ** 3, 0.0)
    if t == "constant":
        return np.ones_like(d)
    s = MAT[t] * d
    if t == "matern32":
        return np.exp(-s) * (1 + s)
    if t == "matern52":
        return np.exp(-s) * (1 + s + s * s / 3)
    if t == "matern72":
        return np.exp(-s) * (1 + s + 0.4 * s * s + s ** 3 / 15)
    raise ValueError(t)


MAT = {"matern32": 4.744, "matern52": 5.918, "matern72": 6.877}


class Vario:
    """The documented meaning of a variogram: rotate the lag into the main /
    perpendicular / depth directions, scale by the ranges, apply the 1D function."""

    def __init__(self, t, rx, ry=None, rz=None, az=0.0, dip=0.0, power=1.5):
        self.t, self.rx = t, rx
        self.ry = rx if ry is None or ry < 0 else ry
        self.rz = rx if rz is None or rz < 0 else rz
        self.az, self.dip, self.power = az, dip, power

    def axes(self):
        a, d = np.deg2rad(self.az), np.deg2rad(self.dip)
        return np.array([[np.cos(a) * np.cos(d), np.sin(a) * np.cos(d), np.sin(d)],
                         [-np.sin(a), np.cos(a), 0.0],
                         [-np.cos(a) * np.sin(d), -np.sin(a) * np.sin(d), np.cos(d)]])

    def dist(self, dx, dy=0.0, dz=0.0):
        R = self.axes()
        h = np.stack(np.broadcast_arrays(np.asarray(dx, float), np.asarray(dy, float), np.asarray(dz, float)))
        q = np.tensordot(R, h, 1)
        return np.sqrt((q[0] / self.rx) ** 2 + (q[1] / self.ry) ** 2 + (q[2] / self.rz) ** 2)

    def corr(self, dx, dy=0.0, dz=0.0):
        return corr1(self.t, self.dist(dx, dy, dz), self.power)

    def axis_ranges(self, halfpi=np.pi / 2):
        a, d = np.deg2rad(self.az), np.deg2rad(self.dip)
        m = np.abs([self.rx * np.cos(d) * np.cos(a), self.rx * np.cos(d) * np.sin(a), self.rx * np.sin(d)])
        p = np.abs([self.ry * np.cos(a + halfpi), self.ry * np.sin(a + halfpi), 0.0])
        q = np.abs([self.rz * np.cos(d + halfpi) * np.cos(a), self.rz * np.cos(d + halfpi) * np.sin(a), self.rz * np.sin(d + halfpi)])
        return np.maximum(np.maximum(m, p), q)

    def ext(self, g, **kw):
        return g.variogram(self.t, self.rx, self.ry, self.rz, self.az, self.dip, self.power)

    def cmd(self, sd=1.0):
        return "var %d %r %r %r %r %r %r %r" % (TYPES.index(self.t), self.power, self.rx, self.ry, self.rz,
                                                float(np.deg2rad(self.az)), float(np.deg2rad(self.dip)), sd)

    def __repr__(self):
        return "%s(r=%.6g,%.6g,%.6g az=%.6g dip=%.6g p=%.6g)" % (self.t, self.rx, self.ry, self.rz, self.az, self.dip, self.power)


def pad_ranges(v, nd):
    if nd == 1:
        return [v.rx]
    m = max(v.rx, v.ry)
    return [m, v.ry if v.az == 0.0 else m] + ([v.rz] if nd == 3 else [])


def extent(v, nd):
    """Half-extent along each grid axis of the set {normalised distance <= 1}."""
    R = v.axes()
    S = R.T @ np.diag([v.rx ** 2, v.ry ** 2, v.rz ** 2]) @ R
    if nd == 3:
        return np.sqrt(np.diag(S))
    P = (R.T @ np.diag([v.rx ** -2, v.ry ** -2, v.rz ** -2]) @ R)[:nd, :nd]
    return np.sqrt(np.diag(np.linalg.inv(P)))


def default_pad(v, n, d):
    """Default number of padding cells per simulated dimension."""
    nd = len(n)
    rg = pad_ranges(v, nd)
    r = ratio(v.t, v.power)
    return [max(int(r * rg[i] / d[i] - n[i]), int(rg[i] / d[i])) + 1 for i in range(nd)]


def lags(n, d):
    i = np.arange(n)
    return np.where(i < (n + 1) // 2, i, i - n) * d


def smooth_kernel(v, tot, d, s, halfpi):
    ar = v.axis_ranges(halfpi)
    k = np.ones(tot)
    for ax in range(len(tot)):
        if s[ax] < 0.99999:
            h = lags(tot[ax], d[ax])
            f = s[ax] ** ((h / ar[ax]) ** 2)
            sh = [1] * len(tot)
            sh[ax] = tot[ax]
            k = k * f.reshape(sh)
    return k


def circulant(v, tot, d, s=None, halfpi=np.pi / 2):
    """Covariance (indexed by lag, periodic on the extended grid `tot`) of the
    exact circulant embedding with negative eigenvalues removed."""
    nd = len(tot)
    H = np.meshgrid(*[lags(tot[i], d[i]) for i in range(nd)], indexing="ij")
    c = v.corr(*H)
    if s is not None:
        c = c * smooth_kernel(v, tot, d, s, halfpi)
    e = np.maximum(np.fft.fftn(c).real, 0.0)
    return np.fft.ifftn(e).real


def cov_matrix(c, n):
    """Covariance matrix of the visible n-cells (x fastest) from periodic lags c."""
    nd = len(n)
    idx = np.indices(n).reshape(nd, -1, order="F")   # x fastest
    dif = [(idx[k][:, None] - idx[k][None, :]) % c.shape[k] for k in range(nd)]
    return c[tuple(dif)]


def ideal_matrix(v, n, d):
    nd = len(n)
    idx = np.indices(n).reshape(nd, -1, order="F")
    dif = [(idx[k][:, None] - idx[k][None, :]) * d[k] for k in range(nd)]
    return v.corr(*dif)


class SimTool:
    def __init__(self, ctx, binary):
        self.ctx = ctx
        self.binary = binary
        self.start()

    def start(self):
        self.errf = os.path.join(self.ctx.work, "simtool-%d-%d.err" % (os.getpid(), id(self)))
        self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=open(self.errf, "wb"), env=self.ctx._env(None))

    def __call__(self, cmd, *a):
        line = cmd + "".join(" " + (repr(float(x)) if isinstance(x, (float, np.floating)) else str(x)) for x in a)
        try:
            self.p.stdin.write((line + "\n").encode())
            self.p.stdin.flush()
            b = self.p.stdout.read(8)
            if len(b) < 8:
                raise BrokenPipeError
            n = int(np.frombuffer(b, "<i8")[0])
            return np.frombuffer(self.p.stdout.read(8 * n), "<f8").copy()
        except BrokenPipeError:
            self.p.wait()
            err = open(self.errf, errors="replace").read()
            raise SimDied(line, self.p.returncode, err)

    def close(self):
        """Ends the server; returns (rc, stderr): leaks show up here."""
        try:
            self.p.stdin.write(b"quit\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        self.p.wait()
        return self.p.returncode, open(self.errf, errors="replace").read()


class SimDied(Exception):
    def __init__(self, cmd, rc, err):
        Exception.__init__(self, "simtool died (rc=%s) in: %s" % (rc, cmd))
        self.cmd, self.rc, self.err = cmd, rc, err


def build_all(ctx, flavour="asan", ext="release"):
    """Builds the extension and simtool; returns (pkgdir, simtool path)."""
    return build.parallel(lambda: build.build_ext(ext),
                          lambda: build.build_cpp("simtool", "simtool.cpp", SIMDIRS, flavour))


_SM = []


def smooth_size(n, even=False):
    """Smallest 2-3-5-7-smooth (even) size not below n."""
    import bisect
    if not _SM:
        L = 1 << 40
        a = 1
        while a < L:
            b = a
            while b < L:
                c = b
                while c < L:
                    d = c
                    while d < L:
                        _SM.append(d)
                        d *= 7
                    c *= 5
                b *= 3
            a *= 2
        _SM.sort()
    i = bisect.bisect_left(_SM, max(n, 2 if even else 1))
    while even and _SM[i] % 2:
        i += 1
    return _SM[i]


def total_size(n, pad):
    return [smooth_size(n[k] + pad[k], even=(k == 0 and len(n) > 1)) for k in range(len(n))]


def recover_cov(w, v, n, d, padarg, pad, s, entry, rng):
    """Runs an ensemble and recovers the linear map from the driving normals to
    the field.  Returns (covariance, residual on held-out seeds, tot)."""
    nd = len(n)
    tot = total_size(n, pad)
    N = int(np.prod(tot))
    nn = int(np.prod(n))
    T = w.tool
    T(v.cmd())
    M = int(1.35 * N) + 16
    s0 = int(rng.integers(0, 2 ** 31))
    fl = " ".join("%d %r" % (a, b) for a, b in zip(n, d))
    ps = " ".join(map(str, padarg))
    ss = " ".join(repr(float(x)) for x in s)
    if entry == "py":
        mode = 3 if nd == 3 else 1
        vv = v.ext(w.g)
        kw = dict(zip(("padx", "pady", "padz"), padarg))
        kw.update(zip(("sx", "sy", "sz"), s))
        a = []
        for k in range(nd):
            a += [n[k], d[k]]
        F = np.empty((M, nn))
        for q in range(M):
            w.g.seed(s0 + q)
            F[q] = w.g.advanced.simulate(vv, *a, **kw)
    else:
        mode = 3 if nd == 3 else (0 if entry == "cpp-own" else 1)
        F = T({1: "ens1 %d %d %d %s %s %s" % (mode, s0, M, fl, ps, ss), 2: "ens2 %d %d %d %s %s %s 1" % (mode, s0, M, fl, ps, ss),
               3: "ens3 %d %d %s %s %s 1" % (s0, M, fl, ps, ss)}[nd]).reshape(M, nn)
    Wn = T("noise %d %d %d %d" % (mode, s0, M, N)).reshape(M, N)
    m = M - 6
    A, B = Wn[:m], F[:m]
    H = np.linalg.solve(A.T @ A, A.T @ B)
    res = np.abs(Wn[m:] @ H - F[m:]).max()
    w.stat("realizations_recorded", M)
    return H.T @ H, res, tot
