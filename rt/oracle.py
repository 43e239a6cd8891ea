"""Reference values made independently of the package: sums and integrals in extended precision."""
import collections
import functools

import numpy as np

LD = np.longdouble
PI = LD("3.14159265358979323846264338327950288")


_cache = collections.OrderedDict()
_cache_bytes = [0]
CACHE_LIMIT = 150 << 20


def _cached(key, make):
    if key in _cache:
        _cache.move_to_end(key)
        return _cache[key]
    v = make()
    _cache[key] = v
    _cache_bytes[0] += v.nbytes
    while _cache_bytes[0] > CACHE_LIMIT and len(_cache) > 1:
        _cache_bytes[0] -= _cache.popitem(last=False)[1].nbytes
    return v


def points(kind, npts):
    """cos(theta), sin(theta) of the grid rows or of the Gauss nodes"""
    if kind == "grid":
        th = np.arange(npts).astype(LD) * PI / LD(npts - 1)
        ct, st = np.cos(th), np.sin(th)
        ct[0], st[0], ct[-1], st[-1] = 1, 0, -1, 0
        if npts % 2:
            ct[npts // 2], st[npts // 2] = 0, 1
    else:
        ct, _ = gauss(npts)
        st = np.sqrt((1 - ct) * (1 + ct))
    return ct, st


def P_(nmax, m, kind, npts):
    """P[n, j], n = 0..nmax: orthonormal associated Legendre functions of order m (any sign), Condon-Shortley phase"""
    am = abs(m)
    if am > nmax:
        return np.zeros((nmax + 1, npts), LD)
    P = _cached((nmax, am, kind, npts), lambda: plm(nmax, am, *points(kind, npts)))
    return -P if m < 0 and am % 2 else P


def plm(nmax, m, ct, st):
    P = np.zeros((nmax + 1, len(ct)), LD)
    pmm = np.full(ct.shape, 1 / np.sqrt(4 * PI), LD)
    for k in range(1, m + 1):
        pmm = -pmm * st * np.sqrt(LD(2 * k + 1) / LD(2 * k))
    P[m] = pmm
    if m + 1 <= nmax:
        P[m + 1] = np.sqrt(LD(2 * m + 3)) * ct * pmm
    for n in range(m + 2, nmax + 1):
        a = np.sqrt(LD(4 * n * n - 1) / LD(n * n - m * m))
        b = np.sqrt(LD((n - 1) ** 2 - m * m) / LD(4 * (n - 1) ** 2 - 1))
        P[n] = a * (ct * P[n - 1] - b * P[n - 2])
    return P


@functools.lru_cache(maxsize=64)
def gauss(n):
    """Gauss-Legendre nodes and weights in extended precision"""
    x = np.polynomial.legendre.leggauss(n)[0].astype(LD)
    for _ in range(2):
        p0, p1 = np.ones_like(x), x.copy()
        for k in range(2, n + 1):
            p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / LD(k)
        if n == 1:
            p0, p1 = np.ones_like(x), x
        d = n * (x * p1 - p0) / (x * x - 1)
        x = x - p1 / d
    p0, p1 = np.ones_like(x), x.copy()
    for k in range(2, n + 1):
        p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / LD(k)
    d = n * (x * p1 - p0) / (x * x - 1)
    return x, 2 / ((1 - x * x) * d * d)


def vec_rows(nmax, m, kind, npts):
    """(ns, D, S): for n in ns the rows (d/dtheta P_nm, m P_nm / sin(theta)) / sqrt(n (n + 1)), finite at the poles"""
    P0, Pp, Pm = [P_(nmax, k, kind, npts) for k in (m, m + 1, m - 1)]
    ns = list(range(max(1, abs(m)), nmax + 1))
    D, S = [], []
    for n in ns:
        d = (np.sqrt(LD((n - m) * (n + m + 1))) * Pp[n] - np.sqrt(LD((n + m) * (n - m + 1))) * Pm[n]) / 2
        s = -np.sqrt(LD(2 * n + 1) / LD(2 * n - 1)) / 2 * (
            np.sqrt(LD(max((n - m) * (n - m - 1), 0))) * Pp[n - 1]
            + np.sqrt(LD(max((n + m) * (n + m - 1), 0))) * Pm[n - 1])
        f = 1 / np.sqrt(LD(n * (n + 1)))
        D.append(d * f)
        S.append(s * f)
    return ns, D, S


def phi_factors(mmax, ncols):
    j = np.arange(ncols)
    return {m: np.exp(1j * 2 * np.pi * ((m * j) % ncols) / ncols) for m in range(-mmax, mmax + 1)}


def synth_scalar(A, nr, nc):
    nmax, mmax = A.shape[0] - 1, (A.shape[1] - 1) // 2
    E = phi_factors(mmax, nc)
    out = np.zeros((nr, nc), np.complex128)
    for m in range(-mmax, mmax + 1):
        col = A[:, m + mmax]
        if not col.any():
            continue
        t = P_(nmax, m, "grid", nr)
        re = (t * col.real.astype(LD)[:, None]).sum(axis=0)
        im = (t * col.imag.astype(LD)[:, None]).sum(axis=0)
        out += np.outer(re.astype(float) + 1j * im.astype(float), E[m])
    return out


def _lincomb(col, rows):
    re = sum(LD(c.real) * r for c, r in zip(col, rows))
    im = sum(LD(c.imag) * r for c, r in zip(col, rows))
    return np.asarray(re, float) + 1j * np.asarray(im, float)


def synth_vector(A, B, nr, nc):
    """(f_theta, f_phi) = sum a1 X1 + a2 X2; X1 = (-m P/sin, -i dP) e^{im phi}/norm, X2 = (-i X1_phi, i X1_theta)"""
    nmax, mmax = A.shape[0] - 1, (A.shape[1] - 1) // 2
    E = phi_factors(mmax, nc)
    ft = np.zeros((nr, nc), np.complex128)
    fp = np.zeros((nr, nc), np.complex128)
    for m in range(-mmax, mmax + 1):
        if not (A[1:, m + mmax].any() or B[1:, m + mmax].any()):
            continue
        ns, D, S = vec_rows(nmax, m, "grid", nr)
        a, b = A[ns, m + mmax], B[ns, m + mmax]
        aS, aD, bS, bD = _lincomb(a, S), _lincomb(a, D), _lincomb(b, S), _lincomb(b, D)
        # X1_theta = -S, X1_phi = -i D ; X2_theta = -i X1_phi = -D, X2_phi = i X1_theta = -i S
        ft += np.outer(-aS - bD, E[m])
        fp += np.outer(-1j * aD - 1j * bS, E[m])
    return ft, fp


def _interp(d, sym, m, npts):
    """g_m at the Gauss nodes: order m of the trigonometric interpolant of the double sphere data, without the highest
    theta frequency. Returns (real, imag) in extended precision."""
    dn, nc = d.shape
    nr = dn // 2 + 1
    j = np.arange(nc)
    ph = np.exp(-1j * 2 * np.pi * ((m * j) % nc) / nc) / nc
    g = d @ ph                                  # g_m at theta_j, j = 0 .. 2 nr - 3
    even = ((-1) ** m) * sym > 0                # parity in theta
    X, Y = _cached(("trig", dn, npts, even), lambda: _trig(dn, npts, even))
    return [Y.T @ (X @ part) for part in (g.real.astype(LD), g.imag.astype(LD))]


def _trig(dn, npts, even):
    """the cosines or sines at the dn equidistant angles, weighted for the trigonometric coefficients, and at the Gauss
    nodes, stacked along the first axis"""
    nr = dn // 2 + 1
    k = np.arange(nr - 1)
    f = np.cos if even else np.sin
    X = f(np.arange(dn).astype(LD) * 2 * PI / dn)[np.outer(k, np.arange(dn)) % dn] * (LD(2) / dn)
    X[0] /= 2
    x, _ = gauss(npts)
    Y = f(np.outer(k.astype(LD), np.arccos(x)))
    return Pair((X, Y))


class Pair(tuple):
    nbytes = property(lambda self: sum(a.nbytes for a in self))


def analyse_scalar(d, nmax, mmax, orders=None):
    """dense coefficients of the symmetric double sphere data d (only the given orders)"""
    npts = d.shape[0] // 2 + 2
    _, w = gauss(npts)
    A = np.zeros((nmax + 1, 2 * mmax + 1), np.complex128)
    for m in range(-mmax, mmax + 1) if orders is None else orders:
        re, im = _interp(d, 1, m, npts)
        t = P_(nmax, m, "gauss", npts)[abs(m):]
        A[abs(m):, m + mmax] = (t @ (w * re) * 2 * PI).astype(float) + 1j * (t @ (w * im) * 2 * PI).astype(float)
    return A


def analyse_vector(td, pd, nmax, mmax, orders=None):
    """dense (A1, A2) of the antisymmetric double sphere components (only the given orders)"""
    npts = td.shape[0] // 2 + 2
    _, w = gauss(npts)
    A = np.zeros((nmax + 1, 2 * mmax + 1), np.complex128)
    B = np.zeros((nmax + 1, 2 * mmax + 1), np.complex128)
    for m in range(-mmax, mmax + 1) if orders is None else orders:
        ns, D, S = vec_rows(nmax, m, "gauss", npts)
        if not ns:
            continue
        tr, ti = _interp(td, -1, m, npts)
        pr, pi = _interp(pd, -1, m, npts)
        D, S = np.array(D), np.array(S)

        def quad(rows, g):
            return np.asarray(rows @ (w * g) * 2 * PI, float)
        tS, pS = quad(S, tr) + 1j * quad(S, ti), quad(S, pr) + 1j * quad(S, pi)
        tD, pD = quad(D, tr) + 1j * quad(D, ti), quad(D, pr) + 1j * quad(D, pi)
        # conj(X1) = (-S, +i D), conj(X2) = (-D, +i S)
        A[ns, m + mmax] = -tS + 1j * pD
        B[ns, m + mmax] = -tD + 1j * pS
    return A, B


def log_starts(n):
    """log of y(n|nm) for m = 0..n: the leading Fourier coefficient of P_nm, from its closed form"""
    k = np.arange(1, n + 1).astype(LD)
    base = -np.log(4 * LD(np.pi)) / 2 + np.sum(np.log((2 * k + 1) / (8 * k))) / 2
    j = np.arange(n).astype(LD)
    ups = np.log((n + j + 1) / (n - j)) / 2              # the step from order j + 1 down to order j
    return np.concatenate([base + np.cumsum(ups[::-1])[::-1], [base]]).astype(float)
