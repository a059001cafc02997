"""A zygote: forks one pristine child per request (module imported, never used)."""
import os, pickle, struct, sys


def _send(fd, o):
    b = pickle.dumps(o)
    b = struct.pack("<Q", len(b)) + b
    while b:
        k = os.write(fd, b)
        b = b[k:]


def _recv(fd):
    def rd(n):
        r = b""
        while len(r) < n:
            x = os.read(fd, n - len(r))
            if not x:
                raise EOFError
            r += x
        return r
    return pickle.loads(rd(struct.unpack("<Q", rd(8))[0]))


class Zygote:
    def __init__(self, fn):
        a, b = os.pipe()
        c, d = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(b)
            os.close(c)
            try:
                while True:
                    req = _recv(a)
                    r, w = os.pipe()
                    p = os.fork()
                    if p == 0:
                        try:
                            _send(w, ("ok", fn(req)))
                        except BaseException as e:
                            _send(w, ("exc", repr(e)))
                        os._exit(0)
                    os.close(w)
                    try:
                        res = _recv(r)
                    except EOFError:
                        res = ("died", None)
                    os.close(r)
                    _, st = os.waitpid(p, 0)
                    if res[0] == "died":
                        res = ("died", st)
                    _send(d, res)
            except EOFError:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c

    def __call__(self, req):
        _send(self.w, req)
        return _recv(self.r)
