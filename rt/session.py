"""Random sessions over a pool of objects: the vocabulary of operations, snapshots, and cold execution of one operation
in a process that has never used the package before."""
import contextlib
import io
import os
import pickle
import struct
import socket
import sys
import threading

import numpy as np

from rt import gen
from rt.monitor import Violation, fill, fill_v, read_sc, read_sp, read_tp, read_vc


def snap(sp, x):
    if isinstance(x, sp.ScalarCoefs):
        return ("sc", read_sc(x))
    if isinstance(x, sp.VectorCoefs):
        return ("vc",) + tuple(read_vc(x))
    if isinstance(x, sp.ScalarPatternUniform):
        return ("sp", read_sp(x)[1])
    if isinstance(x, sp.TransversePatternUniform):
        return ("tp",) + tuple(read_tp(x)[2:])
    if isinstance(x, np.ndarray):
        return ("arr", np.array(x))
    if isinstance(x, (list, tuple)):
        return ("seq",) + tuple(snap(sp, y) for y in x)
    if x is None or isinstance(x, (str, bool)):
        return ("val", x)
    return ("num", complex(x))


def build(sp, s):
    if s[0] == "sc":
        return fill(sp, s[1])
    if s[0] == "vc":
        return fill_v(sp, s[1], s[2])
    if s[0] == "sp":
        return sp.ScalarPatternUniform(s[1].copy(), doublesphere=True)
    if s[0] == "tp":
        return sp.TransversePatternUniform(s[1].copy(), s[2].copy(), doublesphere=True)
    raise ValueError(s[0])


def exact(a, b):
    if a[0] != b[0] or len(a) != len(b):
        return False
    for x, y in zip(a[1:], b[1:]):
        if isinstance(x, np.ndarray):
            if not isinstance(y, np.ndarray) or x.shape != y.shape or not np.array_equal(x, y, equal_nan=True):
                return False
        elif isinstance(x, tuple):
            if not exact(x, y):
                return False
        elif x != y and not (x != x and y != y):
            return False
    return True


def close(a, b, tol=1e-13):
    """equality up to rounding, relative to the size of the whole result"""
    if a[0] != b[0] or len(a) != len(b):
        return False
    arrs = [x for x in a[1:] + b[1:] if isinstance(x, (np.ndarray, complex))]
    with np.errstate(all="ignore"):
        big = max([float(np.max(np.abs(x)[np.isfinite(x)], initial=0)) if isinstance(x, np.ndarray)
                   else (abs(x) if np.isfinite(x) else 0) for x in arrs] or [0])
        for x, y in zip(a[1:], b[1:]):
            if isinstance(x, tuple):
                if not close(x, y, tol):
                    return False
            elif isinstance(x, (np.ndarray, complex)):
                x, y = np.asarray(x), np.asarray(y)
                if x.shape != y.shape:
                    return False
                fin = np.isfinite(x)
                if not np.array_equal(fin, np.isfinite(y)) or np.any(np.abs(x[fin] - y[fin]) > tol * big):
                    return False
            elif x != y:
                return False
    return True


def size_of(s):
    if s[0] in ("sc", "vc"):
        return (s[0], s[1].shape[0] - 1, (s[1].shape[1] - 1) // 2)
    if s[0] in ("sp", "tp"):
        return (s[0], s[1].shape[0] // 2 + 1, s[1].shape[1])
    return (s[0],)


def fits(s, r):
    """a grid, sometimes a rejected one, for the coefficients s"""
    _, nmax, mmax = size_of(s)
    if r.randint(8) == 0:
        return nmax + 2, 2 * mmax + 1
    return gen.rand_grid(r, nmax, mmax, 8)


def request(s, r):
    _, nr, nc = size_of(s)
    n = int(r.randint(0, nr - 1))
    m = int(r.randint(0, min(n, nc // 2 - 1) + 1))
    if r.randint(8) == 0:
        return nr, m
    return n, m


def number(r):
    return gen.pick(r, [2, 0.5, complex(r.normal(), r.normal()), -1, 0, float(r.normal())])


class ThreadStdout(object):
    """stands in for sys.stdout where several threads print: each thread can collect what it prints"""

    def __init__(self, real):
        self.real, self.mine = real, threading.local()

    def __getattr__(self, name):
        return getattr(getattr(self.mine, "out", None) or self.real, name)


def captured(f, *a):
    out = io.StringIO()
    if isinstance(sys.stdout, ThreadStdout):
        sys.stdout.mine.out = out
        try:
            f(*a)
        finally:
            sys.stdout.mine.out = None
        return out.getvalue()
    with contextlib.redirect_stdout(out):
        f(*a)
    return out.getvalue()


def through_file(sp, kind, x, path):
    from spherepy import file as fl
    save, load = (fl.save_patt, fl.load_patt) if kind == "sp" else (fl.save_coef, fl.load_coef)
    save(x, path)
    try:
        return load(path)
    finally:
        os.remove(path)


def verify(sp, p, c, path):
    from spherepy import file as fl
    from spherepy import verify as vf
    fl.save_patt(p, path + "p")
    fl.save_coef(c, path + "c")
    try:
        return list(vf.verify_spht(path + "p", path + "c")) + list(vf.verify_ispht(path + "p", path + "c"))
    finally:
        os.remove(path + "p")
        os.remove(path + "c")


def two_files(sp, x, path):
    """a vector object through the text files of its parts"""
    from spherepy import file as fl
    f, g = path + "1", path + "2"
    try:
        if isinstance(x, sp.VectorCoefs):
            with open(f, "w") as fp:
                fp.write("%d,%d,%r\n" % (x.nmax, x.mmax, 1.5))
                for k, c in enumerate((x.scoef1, x.scoef2)):
                    if k:
                        fp.write("break\n")
                    for m in range(0, x.mmax + 1):
                        for s in ((-m, m) if m else (0,)):
                            for z in c[:, s]:
                                fp.write("%r,%r\n" % (float(z.real), float(z.imag)))
            v, d = fl.load_vcoef(f)
            return [v.scoef1, v.scoef2, d]
        fl.save_patt(sp.ScalarPatternUniform(np.array(x.theta)), f)
        fl.save_patt(sp.ScalarPatternUniform(np.array(x.phi)), g)
        p = fl.load_vpatt(f, g)
        return [np.array(p.theta), np.array(p.phi), fl.load_fdata(f)]
    finally:
        for n in (f, g):
            if os.path.exists(n):
                os.remove(n)


def bad_file(sp, text, load, path):
    from spherepy import file as fl
    with open(path, "w") as fp:
        fp.write(text)
    try:
        return getattr(fl, load)(path)[0]
    finally:
        os.remove(path)


def changed(x, f):
    """a copy with something written to it; the copy is what comes back"""
    c = x.copy()
    f(c)
    return c


def put(c, key, val):
    c[key] = val


def low(s, r):
    """n, m that mostly exist, and a kind of access"""
    _, nmax, mmax = size_of(s)
    n = int(r.randint(0, nmax + 1))
    m = int(r.randint(-min(n, mmax), min(n, mmax) + 1))
    t = int(r.randint(9))
    if t == 0:
        n = nmax + 1 + int(r.randint(2))
    elif t == 1:
        m = int(gen.pick(r, [-1, 1])) * (min(n, mmax) + 1)
    elif t == 2:
        n = -1
    return n, m, int(r.randint(2)), float(r.normal())


def vals(s, r, along):
    """a key and values for a whole row or column; sometimes one value too few"""
    n, m, k, _ = low(s, r)
    _, nmax, mmax = size_of(s)
    L = 2 * min(abs(n), mmax) + 1 if along == "row" else nmax - abs(m) + 1
    v = r.normal(size=max(L - (r.randint(6) == 0), 0))
    if s[0] == "vc" and m == 0 and len(v) and along == "col":
        v[0] = 0
    return (n if along == "row" else m), v.tolist()


def opsmod():
    from spherepy import ops
    return ops


def fourier(x):
    return np.fft.fft2(x.doublesphere) / x.doublesphere.size


def sb():
    from spherepy import sbessel
    return sbessel


# name: (kinds of the arguments, parameters(snapshots, random) -> picklable, call(sp, args, params, path))
ANYC, ANYP, ANY = ("sc", "vc"), ("sp", "tp"), ("sc", "vc", "sp", "tp")
OPS = {
    "ispht": (("sc",), lambda s, r: fits(s[0], r), lambda sp, a, q, d: sp.ispht(a[0], *q)),
    "ispht()": (("sc",), lambda s, r: (), lambda sp, a, q, d: sp.ispht(a[0])),
    "ispht_slow": (("sc",), lambda s, r: fits(s[0], r), lambda sp, a, q, d: sp.ispht_slow(a[0], *q)),
    "vispht": (("vc",), lambda s, r: fits(s[0], r), lambda sp, a, q, d: sp.vispht(a[0], *q)),
    "vispht()": (("vc",), lambda s, r: (), lambda sp, a, q, d: sp.vispht(a[0])),
    "spht": (("sp",), lambda s, r: request(s[0], r), lambda sp, a, q, d: sp.spht(a[0], *q)),
    "spht()": (("sp",), lambda s, r: (), lambda sp, a, q, d: sp.spht(a[0])),
    "spht_slow": (("sp",), lambda s, r: request(s[0], r), lambda sp, a, q, d: sp.spht_slow(a[0], *q)),
    "vspht": (("tp",), lambda s, r: request(s[0], r), lambda sp, a, q, d: sp.vspht(a[0], *q)),
    "vspht()": (("tp",), lambda s, r: (), lambda sp, a, q, d: sp.vspht(a[0])),
    "+": ((ANY, "same"), lambda s, r: (), lambda sp, a, q, d: a[0] + a[1]),
    "-": ((ANY, "same"), lambda s, r: (), lambda sp, a, q, d: a[0] - a[1]),
    "*": ((ANY, "same"), lambda s, r: (), lambda sp, a, q, d: a[0] * a[1]),
    "/": ((ANY, "same"), lambda s, r: (), lambda sp, a, q, d: a[0] / a[1]),
    "any+any": ((ANY, ANY), lambda s, r: (), lambda sp, a, q, d: a[0] + a[1]),
    "*z": ((ANY,), lambda s, r: (number(r),), lambda sp, a, q, d: a[0] * q[0]),
    "z*": ((ANY,), lambda s, r: (number(r),), lambda sp, a, q, d: q[0] * a[0]),
    "+z": ((ANY,), lambda s, r: (number(r),), lambda sp, a, q, d: a[0] + q[0]),
    "z-": ((ANY,), lambda s, r: (number(r),), lambda sp, a, q, d: q[0] - a[0]),
    "/z": ((ANY,), lambda s, r: (number(r),), lambda sp, a, q, d: a[0] / q[0]),
    "copy": ((ANYC,), lambda s, r: (), lambda sp, a, q, d: a[0].copy()),
    "truncate": ((ANYC,), lambda s, r: (int(r.randint(0, size_of(s[0])[1] + 1)),),
                 lambda sp, a, q, d: a[0][0:q[0], :]),
    "abs": ((("sc", "sp"),), lambda s, r: (), lambda sp, a, q, d: sp.abs(a[0])),
    "mag": ((ANY,), lambda s, r: (), lambda sp, a, q, d: sp.mag(a[0])),
    "mag2": ((ANY,), lambda s, r: (), lambda sp, a, q, d: sp.mag2(a[0])),
    "L2_coef": ((ANYC,), lambda s, r: (), lambda sp, a, q, d: sp.L2_coef(a[0])),
    "LInf_coef": ((ANYC,), lambda s, r: (), lambda sp, a, q, d: sp.LInf_coef(a[0])),
    "L2_patt": ((ANYP,), lambda s, r: (), lambda sp, a, q, d: sp.L2_patt(a[0])),
    "LInf_patt": ((ANYP,), lambda s, r: (), lambda sp, a, q, d: sp.LInf_patt(a[0])),
    "compare_relative": ((("sc",), "same"), lambda s, r: (), lambda sp, a, q, d: sp.compare_relative(a[0], a[1])),
    "spectrum": ((("sc",),), lambda s, r: (), lambda sp, a, q, d: a[0].angular_power_spectrum()),
    "power": ((("sc",),), lambda s, r: (), lambda sp, a, q, d: a[0].power()),
    "single_val": ((ANYP,), lambda s, r: (), lambda sp, a, q, d: a[0].single_val),
    "is_symmetric": ((ANYP,), lambda s, r: (), lambda sp, a, q, d: bool(a[0].is_symmetric)),
    "str": ((ANY,), lambda s, r: (), lambda sp, a, q, d: str(a[0])),
    "repr": ((ANY,), lambda s, r: (), lambda sp, a, q, d: repr(a[0])),
    "pretty": ((("sc",),), lambda s, r: (), lambda sp, a, q, d: captured(sp.pretty_coefs, a[0])),
    "file": ((("sc", "sp"),), lambda s, r: (s[0][0],), lambda sp, a, q, d: through_file(sp, q[0], a[0], d)),
    "verify": ((("sp",), ("sc",)), lambda s, r: (), lambda sp, a, q, d: verify(sp, a[0], a[1], d)),
    "rebuild": ((("sp",),), lambda s, r: (), lambda sp, a, q, d: sp.ScalarPatternUniform(np.array(a[0].array))),
    "double_sphere": ((("sp",),), lambda s, r: (gen.pick(r, [1, -1]),),
                      lambda sp, a, q, d: sp.double_sphere(a[0].doublesphere, q[0])),
    "continue_sphere": ((("sp",),), lambda s, r: (gen.pick(r, [1, -1]),),
                        lambda sp, a, q, d: sp.continue_sphere(a[0].array, q[0])),
    "sph_harmonic_tp": ((), lambda s, r: (int(r.randint(2, 7)), int(r.randint(1, 7)), int(r.randint(0, 6)),
                                          int(r.randint(-5, 6))), lambda sp, a, q, d: sp.sph_harmonic_tp(*q)),
    "ynunm": ((), lambda s, r: (lambda n: (n, int(r.randint(-n - 1, n + 2)), n + 1 + int(r.randint(3))))(
        int(r.randint(0, 12))), lambda sp, a, q, d: sp.pysphi.ynunm(*q)),
    "sbesselj": ((), lambda s, r: (float(gen.pick(r, [0.5, 2.0, 7.7, 30.0])), int(r.randint(1, 12))),
                 lambda sp, a, q, d: sb().sbesselj(*q)),
    "sbessely": ((), lambda s, r: (float(gen.pick(r, [0.5, 2.0, 7.7, 30.0])), int(r.randint(1, 12))),
                 lambda sp, a, q, d: sb().sbessely(*q)),
    "sbesselh1": ((), lambda s, r: (float(gen.pick(r, [0.5, 2.0, 7.7, 30.0])), int(r.randint(1, 12))),
                  lambda sp, a, q, d: sb().sbesselh1(*q)),
    "window": ((("sc",),), lambda s, r: (r.normal(size=size_of(s[0])[1] + 1 - int(r.randint(5) == 0)).tolist(),),
               lambda sp, a, q, d: changed(a[0], lambda c: c.window(np.array(q[0])))),
    "c[n,m]": ((ANYC,), lambda s, r: low(s[0], r), lambda sp, a, q, d: a[0][q[0], q[1]]),
    "c[n,:]": ((ANYC,), lambda s, r: low(s[0], r), lambda sp, a, q, d: a[0][q[0], :]),
    "c[:,m]": ((ANYC,), lambda s, r: low(s[0], r),
               lambda sp, a, q, d: [np.array(x) for x in np.atleast_2d(a[0][:, q[1]])]),
    "c[n,m]=": ((("sc",),), lambda s, r: low(s[0], r),
                lambda sp, a, q, d: changed(a[0], lambda c: put(c, (q[0], q[1]), q[3]))),
    "c[n,:]=": ((("sc",),), lambda s, r: vals(s[0], r, "row"),
                lambda sp, a, q, d: changed(a[0], lambda c: put(c, (q[0], slice(None)), q[1]))),
    "c[:,m]=": ((("sc",),), lambda s, r: vals(s[0], r, "col"),
                lambda sp, a, q, d: changed(a[0], lambda c: put(c, (slice(None), q[0]), q[1]))),
    "v.scoef": ((("vc",),), lambda s, r: (int(r.randint(2)),) + low(s[0], r),
                lambda sp, a, q, d: changed(a[0], lambda c: put((c.scoef1, c.scoef2)[q[0]], (max(q[1], 1), q[2]), q[4]))),
    "two files": ((("vc", "tp"),), lambda s, r: (), lambda sp, a, q, d: two_files(sp, a[0], d)),
    "bad file": ((), lambda s, r: (gen.pick(r, ["", "3,3\n1,2\n", "1,0\nx,y\n", "a\n", "1,1\n" + 9 * "1,1\n"]),
                                  gen.pick(r, ["load_patt", "load_coef", "load_fdata", "load_vcoef"])),
                 lambda sp, a, q, d: bad_file(sp, q[0], q[1], d)),
    "array": ((ANYP,), lambda s, r: (), lambda sp, a, q, d: np.array(sp.array(a[0]))),
    "sin_fc": ((("sp",),), lambda s, r: (), lambda sp, a, q, d: opsmod().sin_fc(fourier(a[0]))),
    "divsin_fc": ((("sp",),), lambda s, r: (), lambda sp, a, q, d: opsmod().divsin_fc(fourier(a[0]))),
    "dtheta_fc": ((("sp",),), lambda s, r: (), lambda sp, a, q, d: opsmod().dtheta_fc(fourier(a[0]))),
    "dphi_fc": ((("sp",),), lambda s, r: (), lambda sp, a, q, d: opsmod().dphi_fc(fourier(a[0]))),
    "L_fc": ((("sp",),), lambda s, r: (), lambda sp, a, q, d: opsmod().L_fc(fourier(a[0]))),
    "sinLdot_fc": ((("sp",), "same"), lambda s, r: (), lambda sp, a, q, d: opsmod().sinLdot_fc(fourier(a[0]), fourier(a[1]))),
    "zeros": ((), lambda s, r: tuple(int(x) for x in r.randint(0, 7, size=2)),
              lambda sp, a, q, d: [sp.zeros_coefs(*q), sp.ones_coefs(*q), sp.zeros_patt_uniform(q[0] + 2, 2 * q[1] + 2),
                                   sp.ones_patt_uniform(q[0] + 2, 2 * q[1] + 2, sp.vector)]),
    "sbesselh2": ((), lambda s, r: (float(gen.pick(r, [0.5, 2.0, 7.7, 30.0])), int(r.randint(1, 12))),
                  lambda sp, a, q, d: sb().sbesselh2(*q)),
    "sbessely_array": ((), lambda s, r: ([0.5, 2.0, 7.7][:int(r.randint(1, 4))], int(r.randint(1, 8))),
                       lambda sp, a, q, d: sb().sbessely_array(*q)),
    "sbesselj_sum": ((), lambda s, r: (float(r.uniform(0.5, 9)), int(r.randint(5, 30))),
                     lambda sp, a, q, d: sb().sbesselj_sum(*q)),
    "cross product": ((), lambda s, r: (float(r.uniform(2, 9)), int(r.randint(2, 8))),
                      lambda sp, a, q, d: round(float(sb().sbessel_test_cross_product(*q)), 3)),
    "sbesselj_array": ((), lambda s, r: ([0.5, 2.0, 7.7][:int(r.randint(1, 4))], int(r.randint(1, 8))),
                       lambda sp, a, q, d: sb().sbesselj_array(*q)),
}


def execute(sp, name, args, params, path):
    try:
        return True, OPS[name][2](sp, args, params, path)
    except Violation:
        raise
    except Exception as e:
        return False, type(e).__name__


def cold(sp, req):
    name, snaps, params, path, cext = req
    sp.spherepy.use_cext = "True" if cext else False
    ok, res = execute(sp, name, [build(sp, s) for s in snaps], params, path)
    return ok, snap(sp, res) if ok else ("val", res)


# ---- a process that forks off a fresh process per operation -------------------------------------------------------

def _send(s, obj):
    b = pickle.dumps(obj, protocol=4)
    s.sendall(struct.pack("<q", len(b)) + b)


def _recv(s):
    h = b""
    while len(h) < 8:
        c = s.recv(8 - len(h))
        if not c:
            raise EOFError
        h += c
    n = struct.unpack("<q", h)[0]
    out = bytearray()
    while len(out) < n:
        c = s.recv(min(1 << 20, n - len(out)))
        if not c:
            raise EOFError
        out += c
    return pickle.loads(bytes(out))


class Nursery(object):
    """forked before the package is used; every request is executed by a further fork of that state"""

    def __init__(self, sp, serve=cold):
        mine, theirs = socket.socketpair()
        self.sock = mine
        self.pid = os.fork()
        if self.pid == 0:
            mine.close()
            try:
                while True:
                    req = _recv(theirs)
                    pid = os.fork()
                    if pid == 0:
                        try:
                            try:
                                _send(theirs, ("done", serve(sp, req)))
                            except BaseException as e:
                                _send(theirs, ("error", "%s: %s" % (type(e).__name__, e)))
                        finally:
                            os._exit(0)
                    _, status = os.waitpid(pid, 0)
                    if os.WIFSIGNALED(status):
                        _send(theirs, ("error", "signal %d" % os.WTERMSIG(status)))
            except BaseException:
                pass
            os._exit(0)
        theirs.close()

    def ask(self, req):
        _send(self.sock, req)
        return _recv(self.sock)

    def stop(self):
        self.sock.close()
        os.waitpid(self.pid, 0)
