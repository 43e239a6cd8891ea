"""Online judges for the transforms. Each decides from one event: what was passed and what came back."""
import numpy as np

from rt import oracle
from rt.monitor import (Violation, asym, double, read_sc, read_sp, read_tp, read_vc, resize)

EPS = 2e-14
COST = 3e7          # bound on the work of a reference value


def norm(*arrays):
    """2-norm without overflow or underflow"""
    m = max([float(np.max(np.abs(a))) if a.size else 0.0 for a in arrays])
    if m == 0 or not np.isfinite(m):
        return m
    return m * float(np.sqrt(sum(np.sum(np.abs(a / m) ** 2) for a in arrays)))


def arg(a, k, pos, name):
    return k[name] if name in k else (a[pos] if len(a) > pos else None)


def synth_tol(A, *more, **k):
    nmax = max(A.shape[0] - 1, k.get("upto", 0))
    return EPS * norm(A, *more) * (nmax + 1) / np.sqrt(4 * np.pi) * (1 + nmax / 100.0 + (nmax / 300.0) ** 2)


def grid_of(nmax, mmax, nrows, ncols):
    return (nmax + 2 if nrows is None else nrows), (2 * mmax + 2 if ncols is None else ncols)


def ok_values(*arrays):
    """finite and far from overflow"""
    return all(np.all(np.isfinite(a)) and (a.size == 0 or np.max(np.abs(a)) < 1e150) for a in arrays)


class Scalar(object):
    """judges ispht and spht"""

    def __init__(self, mon, synth=True, roundtrip=False, analysis=False, names=("ispht", "spht")):
        self.mon = mon
        self.do = (synth, roundtrip, analysis)
        mon.probe(names[0], self.after_ispht, self.before_ispht)
        mon.probe(names[1], self.after_spht, self.before_spht)

    def before_ispht(self, a, k):
        return read_sc(arg(a, k, 0, "scoefs"))

    def after_ispht(self, a, k, A, p):
        mon = self.mon
        nmax, mmax = A.shape[0] - 1, (A.shape[1] - 1) // 2
        nr, nc = grid_of(nmax, mmax, arg(a, k, 1, "nrows"), arg(a, k, 2, "ncols"))
        d = read_sp(p)
        mon.check(d[0].shape == (nr, nc), "synthesis-shape",
                  lambda: "grid %s instead of %s for nmax=%d mmax=%d" % (d[0].shape, (nr, nc), nmax, mmax))
        if not ok_values(A):
            return
        mon.tags[p] = ("scalar", A)
        if not self.do[0] or nr * nmax * (2 * mmax + 1) > COST:
            return
        tol = synth_tol(A)
        kind = "kind" + str(int(np.count_nonzero(A)) % 97)
        mon.close(d[0], oracle.synth_scalar(A, nr, nc), tol, "synthesis",
                  "synthesis nmax=%d mmax=%d on %dx%d" % (nmax, mmax, nr, nc), (nmax, mmax, nr, nc, kind), "synthesis")
        mon.close(d[1], double(d[0], 1), 2 * tol, "synthesis", "continuation of the synthesis", None, "continuation")

    def before_spht(self, a, k):
        p = arg(a, k, 0, "ssphere")
        return read_sp(p)

    def after_spht(self, a, k, pre, c):
        mon = self.mon
        p = arg(a, k, 0, "ssphere")
        arr, d = pre
        nr, nc = arr.shape
        nmax, mmax = arg(a, k, 1, "nmax"), arg(a, k, 2, "mmax")
        if nmax is None:
            nmax = nr - 2
            mmax = nc // 2 - 1 if mmax is None else mmax
        elif mmax is None:
            mmax = nmax
        C = read_sc(c)
        mon.check(C.shape == (nmax + 1, 2 * mmax + 1), "analysis-size",
                  lambda: "coefficients of size %s instead of nmax=%d mmax=%d for a %dx%d pattern, arguments %r %r"
                  % (C.shape, nmax, mmax, nr, nc, arg(a, k, 1, "nmax"), arg(a, k, 2, "mmax")))
        if not ok_values(d):
            return
        if self.do[1] and p in mon.tags and mon.tags[p][0] == "scalar":
            A = mon.tags[p][1]
            n0, m0 = A.shape[0] - 1, (A.shape[1] - 1) // 2
            if nr >= n0 + 2 and nc >= 2 * m0 + 2:
                mon.close(C, resize(A, nmax, mmax), synth_tol(A, upto=nmax), "round-trip",
                          "analysis (nmax=%d mmax=%d) of a %dx%d synthesis of nmax=%d mmax=%d" %
                          (nmax, mmax, nr, nc, n0, m0),
                          (n0, m0, nr, nc, nmax, mmax, int(np.count_nonzero(A)) % 97), "round-trip")
        if self.do[2] and nr * nmax * (2 * mmax + 1) <= COST and d.size:
            big = float(np.max(np.abs(d)))
            if asym(d, 1) > 1e-13 * big:
                return
            mon.close(C, oracle.analyse_scalar(d, nmax, mmax), 4 * EPS * big * (1 + nmax / 100.0),
                      "analysis",
                      "analysis (nmax=%d mmax=%d) of a %dx%d pattern" % (nmax, mmax, nr, nc),
                      (nmax, mmax, nr, nc, int(np.count_nonzero(d)) % 97), "analysis")


class Vector(object):
    """judges vispht and vspht"""

    def __init__(self, mon, synth=True, roundtrip=False, analysis=False):
        self.mon = mon
        self.do = (synth, roundtrip, analysis)
        mon.probe("vispht", self.after_vispht, self.before_vispht)
        mon.probe("vspht", self.after_vspht, self.before_vspht)

    def before_vispht(self, a, k):
        return read_vc(arg(a, k, 0, "vcoefs"))

    def after_vispht(self, a, k, pre, p):
        mon = self.mon
        A, B = pre
        nmax, mmax = A.shape[0] - 1, (A.shape[1] - 1) // 2
        nr, nc = grid_of(nmax, mmax, arg(a, k, 1, "nrows"), arg(a, k, 2, "ncols"))
        t, f, td, fd = read_tp(p)
        mon.check(t.shape == (nr, nc), "vsynthesis-shape",
                  lambda: "grid %s instead of %s for nmax=%d mmax=%d" % (t.shape, (nr, nc), nmax, mmax))
        if not ok_values(A, B):
            return
        mon.tags[p] = ("vector", A, B)
        if not self.do[0] or 2 * nr * nmax * (2 * mmax + 1) > COST:
            return
        qt, qf = oracle.synth_vector(A, B, nr, nc)
        tol = 2 * synth_tol(A, B) * (1 + nmax / 50.0)
        what = "nmax=%d mmax=%d on %dx%d" % (nmax, mmax, nr, nc)
        st = (nmax, mmax, nr, nc, int(np.count_nonzero(A)) % 97, int(np.count_nonzero(B)) % 97)
        mon.close(t, qt, tol, "vsynthesis-theta", "theta component " + what, st)
        mon.close(f, qf, tol, "vsynthesis-phi", "phi component " + what, st)
        mon.close(td, double(t, -1), 2 * tol, "vsynthesis-continuation", "continuation of theta " + what, None)
        mon.close(fd, double(f, -1), 2 * tol, "vsynthesis-continuation", "continuation of phi " + what, None)

    def before_vspht(self, a, k):
        return read_tp(arg(a, k, 0, "vsphere"))

    def after_vspht(self, a, k, pre, c):
        mon = self.mon
        p = arg(a, k, 0, "vsphere")
        t, f, td, fd = pre
        nr, nc = t.shape
        nmax, mmax = arg(a, k, 1, "nmax"), arg(a, k, 2, "mmax")
        if nmax is None:
            nmax = nr - 2
            mmax = nc // 2 - 1 if mmax is None else mmax
        elif mmax is None:
            mmax = nmax
        C = read_vc(c)
        mon.check(C[0].shape == (nmax + 1, 2 * mmax + 1), "vanalysis-size",
                  lambda: "coefficients of size %s instead of nmax=%d mmax=%d for a %dx%d field, arguments %r %r"
                  % (C[0].shape, nmax, mmax, nr, nc, arg(a, k, 1, "nmax"), arg(a, k, 2, "mmax")))
        mon.check(C[0][0].any() + C[1][0].any() == 0, "vanalysis-monopole", lambda: "monopoles %r %r" %
                  (C[0][0], C[1][0]))
        if not ok_values(td, fd):
            return
        if self.do[1] and p in mon.tags and mon.tags[p][0] == "vector":
            A, B = mon.tags[p][1:]
            n0, m0 = A.shape[0] - 1, (A.shape[1] - 1) // 2
            what = "analysis (nmax=%d mmax=%d) of a %dx%d synthesis of nmax=%d mmax=%d" % (nmax, mmax, nr, nc, n0, m0)
            st = (n0, m0, nr, nc, nmax, mmax, int(np.count_nonzero(A)) % 97, int(np.count_nonzero(B)) % 97)
            tol = 2 * synth_tol(A, B, upto=nmax)
            mon.close(C[0], resize(A, nmax, mmax), tol, "vround-trip-1", "first set: " + what, st)
            mon.close(C[1], resize(B, nmax, mmax), tol, "vround-trip-2", "second set: " + what, st)
        if self.do[2] and 2 * nr * nmax * (2 * mmax + 1) <= COST and td.size:
            big = max(float(np.max(np.abs(td))), float(np.max(np.abs(fd))))
            if max(asym(td, -1), asym(fd, -1)) > 1e-13 * big:
                return
            A, B = oracle.analyse_vector(td, fd, nmax, mmax)
            tol = 16 * EPS * big * (1 + nmax / 50.0)
            what = "analysis (nmax=%d mmax=%d) of a %dx%d field" % (nmax, mmax, nr, nc)
            st = (nmax, mmax, nr, nc, int(np.count_nonzero(td)) % 97, int(np.count_nonzero(fd)) % 97)
            mon.close(C[0], A, tol, "vanalysis-1", "first set: " + what, st)
            mon.close(C[1], B, tol, "vanalysis-2", "second set: " + what, st)


def requests(r, nmax, mmax, nrows, ncols):
    """sizes to ask of an analysis: exact, by default, truncated, padded, one order only, least"""
    hi_n, hi_m = nrows - 2, ncols // 2 - 1
    out = [(nmax, mmax)]
    if hi_m <= hi_n:
        out.append((None, None))
    if hi_n <= hi_m:
        out.append((int(r.randint(0, hi_n + 1)), None))
    out.append((None, int(r.randint(0, min(hi_n, hi_m) + 1))))
    for _ in range(2):
        n = int(r.randint(0, hi_n + 1))
        out.append((n, int(r.randint(0, min(n, hi_m) + 1))))
    out.append((hi_n, min(hi_n, hi_m)))
    out.append((0, 0))
    return out
