"""Probes on the public API and the monitors' bookkeeping.

A check drives the package through its public functions. `Monitor.probe` replaces public functions by wrappers which
hand every call (also those the package makes itself) to the judges registered for it, with what was known of the
arguments before the call. A judge decides on the event alone: arguments, result or exception, and the tags left by
earlier events.
"""
import collections
import hashlib
import weakref

import numpy as np


class Violation(Exception):
    """The property is broken. `key` names the mechanism (it identifies a known finding), `detail` is for people."""

    def __init__(self, key, detail):
        Exception.__init__(self, "%s: %s" % (key, detail))
        self.key = key
        self.detail = detail


class ApiError(Violation):
    """A call that the property promises to work raised."""


class Monitor(object):
    def __init__(self, sp):
        self.sp = sp
        self.events = collections.Counter()     # API events seen, by name
        self.judged = collections.Counter()     # verdicts taken, by kind
        self.states = set()                     # digests of distinct situations judged
        self.muted = 0
        self.tags = weakref.WeakKeyDictionary()
        self.worst = {}                         # worst observed error / tolerance, by kind
        self.calls = 0
        self.deferred = []

    # ---- verdicts -------------------------------------------------------------------------------------------------
    def ok(self, kind, state=None):
        self.judged[kind] += 1
        if state is not None and len(self.states) < 2000000:
            self.states.add(hashlib.blake2b(repr((kind, state)).encode(), digest_size=8).digest())

    def check(self, cond, key, detail, state=None, kind=None):
        if not cond:
            raise Violation(key, detail() if callable(detail) else detail)
        self.ok(kind or key, state)

    def close(self, got, want, tol, key, what, state=None, kind=None):
        """max |got - want| <= tol, where tol is an absolute number made by the caller. Not-a-numbers fail."""
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            raise Violation(key, "%s: shape %s instead of %s" % (what, got.shape, want.shape))
        if got.size == 0:
            return self.ok(kind or key, state)
        err = np.abs(got - want)
        worst = float(np.max(np.where(np.isnan(err), np.inf, err)))
        k = kind or key
        if tol > 0:
            self.worst[k] = max(self.worst.get(k, 0.0), worst / tol) if np.isfinite(worst) else self.worst.get(k, 0.0)
        if not worst <= tol:
            i = np.unravel_index(int(np.argmax(np.where(np.isnan(err), np.inf, err))), got.shape)
            raise Violation(key, "%s: at %s got %r, expected %r, |difference| %.3g, allowed %.3g"
                            % (what, tuple(int(j) for j in i), complex(got[i]), complex(want[i]), worst, tol))
        self.ok(k, state)

    # ---- calls the property promises to work ----------------------------------------------------------------------
    def call(self, fn, *a, **k):
        self.calls += 1
        try:
            return fn(*a, **k)
        except Violation:
            raise
        except Exception as e:
            raise ApiError("raised:%s:%s" % (getattr(fn, "__name__", "call"), type(e).__name__),
                           "%s raised %s: %s" % (getattr(fn, "__name__", fn), type(e).__name__, e))

    def raises(self, exc, key, fn, *a, **k):
        """The call has to raise `exc` (a class or a tuple of classes)."""
        self.calls += 1
        try:
            r = fn(*a, **k)
        except Violation:
            raise
        except exc:
            self.ok(key)
            return True
        except Exception as e:
            raise Violation(key, "raised %s: %s instead of %s" % (type(e).__name__, e, exc))
        raise Violation(key, "did not raise %s; returned %s" % (exc, type(r).__name__))

    # ---- probes ---------------------------------------------------------------------------------------------------
    def probe(self, name, judge=None, before=None):
        """Wraps the public function `name`: before(args, kwargs) -> pre, judge(args, kwargs, pre, result)."""
        sp = self.sp
        mods = [m for m in (sp, sp.spherepy) if hasattr(m, name)]
        fn = getattr(mods[0], name)
        mon = self

        def wrapper(*a, **k):
            if mon.muted:
                return fn(*a, **k)
            mon.events[name] += 1
            pre = None
            if before is not None:
                mon.muted += 1
                try:
                    pre = before(a, k)
                finally:
                    mon.muted -= 1
            r = fn(*a, **k)
            if judge is not None:
                mon.muted += 1
                try:
                    judge(a, k, pre, r)
                finally:
                    mon.muted -= 1
            return r
        wrapper.__name__ = name
        wrapper.__wrapped__ = fn
        for m in mods:
            if getattr(m, name) is fn:
                setattr(m, name, wrapper)
        return fn


# ---- reading objects through their public interface, with the structure checked -----------------------------------

def tri(nmax, mmax):
    return [(n, m) for n in range(nmax + 1) for m in range(-min(n, mmax), min(n, mmax) + 1)]


def read_sc(c, key="coefs-malformed"):
    """dense array A[n, m + mmax] of a ScalarCoefs"""
    try:
        nmax, mmax = int(c.nmax), int(c.mmax)
        if not 0 <= mmax <= nmax:
            raise ValueError("nmax %r, mmax %r" % (c.nmax, c.mmax))
        cols = [(m, np.array(c[:, m], dtype=np.complex128)) for m in range(-mmax, mmax + 1)]
        if c.size != len(tri(nmax, mmax)):
            raise ValueError("size %r" % (c.size,))
    except Exception as e:
        raise Violation(key, "coefficients cannot be read: %s: %s" % (type(e).__name__, e))
    A = np.zeros((nmax + 1, 2 * mmax + 1), np.complex128)
    for m, col in cols:
        if col.shape != (nmax - abs(m) + 1,):
            raise Violation(key, "order %d has %s entries" % (m, col.shape))
        A[abs(m):, m + mmax] = col
    return A


def read_vc(v, key="vcoefs-malformed"):
    try:
        a, b = v.scoef1, v.scoef2
        nm = (v.nmax, v.mmax)
    except Exception as e:
        raise Violation(key, "vector coefficients cannot be read: %s" % e)
    A, B = read_sc(a, key), read_sc(b, key)
    if A.shape != B.shape or (nm[0] + 1, 2 * nm[1] + 1) != A.shape:
        raise Violation(key, "sizes %s and %s for nmax, mmax = %s" % (A.shape, B.shape, nm))
    return A, B


def fill(sp, A, cls="scalar"):
    """ScalarCoefs holding the dense array A, written through the public interface"""
    nmax, mmax = A.shape[0] - 1, (A.shape[1] - 1) // 2
    c = sp.zeros_coefs(nmax, mmax)
    for m in range(-mmax, mmax + 1):
        c[:, m] = np.array(A[abs(m):, m + mmax])
    return c


def fill_v(sp, A, B):
    nmax, mmax = A.shape[0] - 1, (A.shape[1] - 1) // 2
    v = sp.zeros_coefs(nmax, mmax, coef_type=sp.vector)
    for s, D in ((v.scoef1, A), (v.scoef2, B)):
        for m in range(-mmax, mmax + 1):
            col = np.array(D[abs(m):, m + mmax])
            if m == 0:
                col[0] = 0
            s[:, m] = col
    return v


def dense_mask(nmax, mmax):
    n = np.arange(nmax + 1)[:, None]
    m = np.arange(-mmax, mmax + 1)[None, :]
    return np.abs(m) <= n


def resize(A, nmax, mmax):
    """the dense array cut or zero-padded to another size"""
    N0, M0 = A.shape[0] - 1, (A.shape[1] - 1) // 2
    B = np.zeros((nmax + 1, 2 * mmax + 1), A.dtype)
    n, m = min(N0, nmax), min(M0, mmax)
    B[:n + 1, mmax - m:mmax + m + 1] = A[:n + 1, M0 - m:M0 + m + 1]
    return B * dense_mask(nmax, mmax)


def read_sp(p, key="pattern-malformed"):
    try:
        a = np.array(p.array)
        shape = (int(p.nrows), int(p.ncols))
        d = np.array(p.doublesphere)
    except Exception as e:
        raise Violation(key, "pattern cannot be read: %s: %s" % (type(e).__name__, e))
    if a.shape != shape or tuple(p.shape) != shape or d.shape != (2 * shape[0] - 2, shape[1]):
        raise Violation(key, "array %s, double sphere %s for (nrows, ncols) = %s" % (a.shape, d.shape, shape))
    if np.array(p.cdata).shape != shape or not np.array_equal(p.cdata, a, equal_nan=True):
        raise Violation(key, "cdata differs from array")
    return a, d


def read_tp(p, key="vpattern-malformed"):
    try:
        t, f = [np.array(x) for x in p.array]
        t2, f2 = np.array(p.theta), np.array(p.phi)
        td, fd = [np.array(x) for x in p.doublesphere]
        shape = (int(p.nrows), int(p.ncols))
    except Exception as e:
        raise Violation(key, "vector pattern cannot be read: %s: %s" % (type(e).__name__, e))
    if t.shape != shape or f.shape != shape or tuple(p.shape) != shape:
        raise Violation(key, "components %s and %s for (nrows, ncols) = %s" % (t.shape, f.shape, shape))
    if td.shape != (2 * shape[0] - 2, shape[1]) or fd.shape != td.shape:
        raise Violation(key, "double sphere %s, %s" % (td.shape, fd.shape))
    if not (np.array_equal(t, t2, equal_nan=True) and np.array_equal(f, f2, equal_nan=True)):
        raise Violation(key, "theta/phi differ from array")
    return t, f, td, fd


def double(a, sym):
    """the continuation of the grid data over the poles"""
    nr, nc = a.shape
    lower = sym * np.roll(a, -(nc // 2), axis=1)[::-1]     # row k: theta = pi + k dtheta
    return np.concatenate([a, lower[1:-1]], axis=0)


def asym(d, sym):
    """largest absolute violation of the double sphere symmetry"""
    if d.size == 0:
        return 0.0
    r = sym * np.roll(np.roll(d[::-1], 1, axis=0), -(d.shape[1] // 2), axis=1)
    return float(np.max(np.abs(d - r)))
