"""C25: Fourier domain operators against their effect on functions, evaluated at random points."""
import numpy as np

from rt import gen
from rt.monitor import Violation

RULE = ("random trigonometric polynomials on every even number of rows and columns up to a bound and random larger "
        "ones, with the highest frequencies the operator needs left free, dense, sparse and single modes; the Fourier "
        "data after the operator is summed at random points and compared with the function multiplied, divided or "
        "differentiated there. Distinct by (operator, rows, columns, kind).")
ROUNDS = {"quick": 8}
MIN = {"sin": 200, "divsin": 200, "dtheta": 200, "dphi": 200, "L": 200, "sinLdot": 200, "pad": 200, "nyquist": 200}


def cases(tier, r, variant):
    big = tier == "thorough"
    for rows in range(2, 25 if not big else 61, 2):
        for cols in range(2, 15 if not big else 41, 2):
            yield {"rows": rows, "cols": cols, "seed": gen.seed_of(r), "reps": 2 if not big else 4}
    for rows, cols in [(402, 4), (512, 2), (1040, 6), (4, 258), (8, 402), (130, 132)] + \
            ([(2050, 4), (6, 1026), (300, 300)] if big else []):
        yield {"rows": rows + 2 * int(r.randint(3)), "cols": cols, "seed": gen.seed_of(r), "reps": 2}
    for k in range(14, 530 if not big else 1100, 2):        # every number of rows and of columns
        yield {"rows": k, "cols": 2 * int(r.randint(1, 3)), "seed": gen.seed_of(r), "reps": 1}
        yield {"rows": 2 * int(r.randint(1, 3)), "cols": k, "seed": gen.seed_of(r), "reps": 1}
    for nr, nc in gen.ladder_grids(r, 14, 100, 120):
        yield {"rows": 2 * nr, "cols": nc, "seed": gen.seed_of(r), "reps": 1}
    for _ in range(60 if not big else 800):
        yield {"rows": 2 * int(r.randint(1, 60)), "cols": 2 * int(r.randint(1, 40)), "seed": gen.seed_of(r), "reps": 2}


def freq(n):
    """frequency of each index of an even number of Fourier data, the highest one negative"""
    k = np.arange(n)
    return np.where(k < n // 2, k, k - n)


class Fn(object):
    """sum of F[k, m] exp(i k theta + i m phi)"""

    def __init__(self, F):
        self.F = F
        self.k, self.m = freq(F.shape[0]), freq(F.shape[1])

    def at(self, th, ph, dk=0, dm=0):
        A = np.exp(1j * np.outer(th, self.k)) * (1j * self.k) ** dk
        B = np.exp(1j * np.outer(ph, self.m)) * (1j * self.m) ** dm
        return np.einsum("pk,km,pm->p", A, self.F, B)

    def size(self):
        return float(np.sum(np.abs(self.F))) or 1.0


def band(r, rows, cols, free, kind, odd_sine=False):
    """random data with |k| <= rows/2 - 1 - free and |m| <= cols/2 - 1"""
    F = gen.values(kind, (rows, cols), gen.seed_of(r))
    F[np.abs(freq(rows)) > rows // 2 - 1 - free] = 0
    F[:, cols // 2] = 0
    return F


def times_sin(G):
    """Fourier data of sin(theta) g, for g with room"""
    rows = G.shape[0]
    k = freq(rows)
    H = np.zeros_like(G)
    for i in range(rows):
        if not G[i].any():
            continue
        H[(k[i] + 1) % rows] += G[i] / 2j
        H[(k[i] - 1) % rows] -= G[i] / 2j
    return H


def inplace(mon, op, F, r, what):
    """applies op to a copy, sometimes a view into a larger array"""
    if r.randint(4) == 0:
        big = np.full((F.shape[0] + 3, 2 * F.shape[1] + 1), 9 + 9j)
        view = big[2:-1, :-1:2]
        view[:, :] = F
        mon.call(op, view)
        got = view.copy()
        view[:, :] = 9 + 9j
        if not np.all(big == 9 + 9j):
            raise Violation("stray", "%s changed memory outside its argument" % what)
        return got
    X = F.copy() if r.randint(2) else np.asfortranarray(F)
    mon.call(op, X)
    return X


def given(mon, r, op, *Fs):
    """the result of op on copies in any memory layout (these operators work in their argument)"""
    Xs = []
    for F in Fs:
        t = r.randint(4)
        if t == 0:
            X = np.asfortranarray(F)
        elif t == 1:
            X = np.full((F.shape[0] + 1, 2 * F.shape[1]), 9 + 9j)[1:, ::2]
            X[...] = F
        elif t == 2:
            X = F[::-1].copy()[::-1]
        else:
            X = F.copy()
        if X is F or np.shares_memory(X, F):
            X = F.copy(order="F")
        Xs.append(X)
    out = mon.call(op, *Xs)
    return out


def run(case, mon):
    ops = mon.sp.ops
    r = gen.rs(case["seed"])
    rows, cols = case["rows"], case["cols"]
    M = rows // 2
    for _ in range(case["reps"]):
        kind = gen.pick(r, ["gauss", "real", "imag", "sparse", "ints", "wide", "tiny", "huge"])
        th, ph = r.uniform(0, 2 * np.pi, 12), r.uniform(0, 2 * np.pi, 12)
        th[:2] = 0, np.pi
        s = np.sin(th)
        s[:2] = 0
        what = "%d x %d, %s" % (rows, cols, kind)
        st = (rows, cols, kind)

        def judge(key, got, want, size, more=1):
            mon.close(got, want, 1e-13 * size * (rows + cols) * more, key, "%s on %s" % (key, what), (key,) + st)

        # the highest frequency
        F = gen.values(kind, (rows, cols), gen.seed_of(r))
        X = inplace(mon, ops.fix_even_row_data_fc, F, r, "fix_even_row_data_fc")
        W = F.copy()
        W[M] = 0
        mon.check(np.array_equal(X, W), "nyquist", "fix_even_row_data_fc on " + what, ("n",) + st)
        if rows > 2:
            odd = F[:-1].copy()
            mon.call(ops.fix_even_row_data_fc, odd)
            mon.check(np.array_equal(odd, F[:-1]), "nyquist", "fix_even_row_data_fc with odd rows, " + what)
        # padding
        for more in (0, 2, 4, int(r.randint(0, 9)) * 2):
            E = np.full((rows + more, cols), 3 - 7j)
            keep = F.copy()
            mon.call(ops.pad_rows_fdata, F, E)
            W = np.zeros((rows + more, cols), complex)
            for i, k in enumerate(freq(rows)):
                if k != -M:
                    W[k % (rows + more)] = F[i]
            mon.check(np.array_equal(E, W), "pad", "pad_rows_fdata to %d rows, %s" % (rows + more, what),
                      ("p", more) + st)
            mon.check(np.array_equal(F, keep), "pad-source", "pad_rows_fdata changed its source, " + what)
        if rows > 2:
            mon.raises(Exception, "pad-smaller", ops.pad_rows_fdata, F, np.zeros((rows - 2, cols), complex))
        # derivatives
        F = band(r, rows, cols, 0, kind)
        f = Fn(F)
        X = inplace(mon, ops.dtheta_fc, F, r, "dtheta_fc")
        judge("dtheta", Fn(X).at(th, ph), f.at(th, ph, dk=1), f.size() * M)
        X = inplace(mon, ops.dphi_fc, F, r, "dphi_fc")
        judge("dphi", Fn(X).at(th, ph), f.at(th, ph, dm=1), f.size() * cols)
        if rows < 4:
            continue
        # sine
        F = band(r, rows, cols, 1, kind)
        f = Fn(F)
        X = inplace(mon, ops.sin_fc, F, r, "sin_fc")
        judge("sin", Fn(X).at(th, ph), s * f.at(th, ph), f.size())
        # division by sine
        G = band(r, rows, cols, 1, kind)
        H = times_sin(G)
        X = inplace(mon, ops.divsin_fc, H, r, "divsin_fc")
        judge("divsin", Fn(X).at(th, ph), Fn(G).at(th, ph), Fn(G).size(), rows)
        # sin(theta) L . (t, p) = i (dt/dphi - d(sin p)/dtheta)
        T, P = band(r, rows, cols, 0, kind), band(r, rows, cols, 1, kind)
        t, p = Fn(T), Fn(P)
        got = Fn(given(mon, r, ops.sinLdot_fc, T, P)).at(th, ph)
        want = 1j * (t.at(th, ph, dm=1) - np.cos(th) * p.at(th, ph) - s * p.at(th, ph, dk=1))
        judge("sinLdot", got, want, (t.size() + p.size()) * (M + cols))
        # L f = (i / sin df/dphi, -i df/dtheta), f divisible by sine except for its mean over phi
        G = band(r, rows, cols, 1, kind)
        F = times_sin(G)
        F[:, 0] += band(r, rows, cols, 0, kind)[:, 0]
        f = Fn(F)
        a, b = given(mon, r, ops.L_fc, F)
        G0 = G.copy()
        G0[:, 0] = 0
        judge("L", Fn(np.array(a)).at(th, ph), 1j * Fn(G0).at(th, ph, dm=1), Fn(G).size() * cols, rows)
        judge("L", Fn(np.array(b)).at(th, ph), -1j * f.at(th, ph, dk=1), f.size() * M)
