"""C23: factories. Constant ones are read back entry by entry; random ones are judged over many draws."""
import numpy as np

from rt import gen
from rt.monitor import Violation, asym, dense_mask, read_sc, read_sp, read_tp, read_vc

RULE = ("every factory at every (nmax, mmax) or (nrows, ncols) up to a bound and random larger ones; random factories "
        "over repeated draws with several means and deviations (per entry mean and variance, pooled mean, variance and "
        "fourth moment, correlation between all pairs of entries and between consecutive calls), reseeding, and "
        "novelty of every entry in every call. Distinct by (factory, type, size, mean, deviation).")
MIN = {"constant": 400, "moments": 40, "novel": 40, "reseed": 40}
ASSUMPTIONS = ["the generator is numpy's global one; statistical limits are 7 standard errors and more",
               "the pole rows of a random pattern are the symmetric part of draws, so only its other rows are tested "
               "for the deviation"]


def cases(tier, r, variant):
    big = tier == "thorough"
    hi = 9 if not big else 20
    for nmax in range(hi):
        yield {"what": "const", "nmax": nmax, "seed": gen.seed_of(r)}
    for size in gen.ladder_coefs(r, hi, 100 if not big else 250, 50 if not big else 90):
        yield {"what": "const1", "size": list(size), "seed": gen.seed_of(r)}
        yield {"what": "large", "a": size[0], "b": size[1], "vec": int(r.randint(2)), "kind": "coefs", "seed": gen.seed_of(r)}
    for nr, nc in gen.ladder_grids(r, 7, 80, 120):
        yield {"what": "large", "a": nr, "b": nc, "vec": int(r.randint(2)), "kind": "patt", "seed": gen.seed_of(r)}
    for _ in range(20 if not big else 300):
        yield {"what": "const1", "size": list(gen.rand_size(r, 60)), "seed": gen.seed_of(r)}
    par = [(0.0, 1.0), (3.0, 0.5), (-2.0, 1e-3), (1e6, 1.0), (0.0, 25.0), (-0.25, 0.0)]
    for nmax, mmax in [(0, 0), (1, 0), (1, 1), (2, 1), (3, 3), (5, 2), (7, 0), (6, 6)]:
        for vec in (0, 1):
            for mu, sigma in (par if big else par[:2] + [par[2 + r.randint(4)]]):
                yield {"what": "coefs", "nmax": nmax, "mmax": mmax, "vec": vec, "mu": mu, "sigma": sigma,
                       "draws": 400 if not big else 4000, "seed": gen.seed_of(r)}
    for nmax, mmax in [(20, 20), (40, 3), (70, 70), (130, 20), (300, 0), (1200, 1)]:
        for vec in (0, 1):
            yield {"what": "large", "a": nmax + int(r.randint(2)), "b": mmax, "vec": vec, "kind": "coefs",
                   "seed": gen.seed_of(r)}
    for nr, nc in [(50, 50), (90, 120), (3, 900), (700, 4), (260, 258)]:
        for vec in (0, 1):
            yield {"what": "large", "a": nr + int(r.randint(2)), "b": nc, "vec": vec, "kind": "patt",
                   "seed": gen.seed_of(r)}
    for nr, nc in [(2, 2), (3, 2), (3, 4), (4, 6), (6, 8), (9, 4)]:
        for vec in (0, 1):
            yield {"what": "patt", "nr": nr, "nc": nc, "vec": vec, "draws": 400 if not big else 4000,
                   "seed": gen.seed_of(r)}


def run(case, mon):
    r = gen.rs(case["seed"])
    if case["what"] == "const":
        for mmax in range(case["nmax"] + 1):
            constant(mon, case["nmax"], mmax, r)
    elif case["what"] == "const1":
        constant(mon, case["size"][0], case["size"][1], r)
    elif case["what"] == "coefs":
        random_coefs(case, mon)
    elif case["what"] == "large":
        large(case, mon, r)
    else:
        random_patt(case, mon)


def exactly(mon, got, want, what, state):
    if got.shape != want.shape:
        raise Violation("constant", "%s has shape %s instead of %s" % (what, got.shape, want.shape))
    if not np.array_equal(got, want):
        raise Violation("constant", "%s: %d wrong values, e.g. %r" % (what, int(np.sum(got != want)),
                                                                     got[got != want].ravel()[0]))
    mon.ok("constant", state)


def constant(mon, nmax, mmax, r):
    sp = mon.sp
    for name, val in (("zeros", 0), ("ones", 1)):
        f = getattr(sp, name + "_coefs")
        D = val * dense_mask(nmax, mmax).astype(complex)
        for c in (mon.call(f, nmax, mmax), mon.call(f, nmax, mmax, sp.scalar),
                  mon.call(f, nmax, mmax, coef_type=sp.scalar)):
            if not isinstance(c, sp.ScalarCoefs):
                raise Violation("type", "%s_coefs gives a %s" % (name, type(c).__name__))
            exactly(mon, read_sc(c), D, "%s_coefs(%d, %d)" % (name, nmax, mmax), (name, nmax, mmax))
        E = D.copy()
        E[0] = 0
        v = mon.call(f, nmax, mmax, coef_type=sp.vector)
        if not isinstance(v, sp.VectorCoefs):
            raise Violation("type", "%s_coefs gives a %s" % (name, type(v).__name__))
        for k, A in enumerate(read_vc(v)):
            exactly(mon, A, E, "set %d of %s_coefs(%d, %d, vector)" % (k + 1, name, nmax, mmax),
                    (name, "v", nmax, mmax))
        f = getattr(sp, name + "_patt_uniform")
        nr, nc = nmax + 2, 2 * mmax + 2
        W = np.full((nr, nc), complex(val))
        p = mon.call(f, nr, nc)
        if not isinstance(p, sp.ScalarPatternUniform):
            raise Violation("type", "%s_patt_uniform gives a %s" % (name, type(p).__name__))
        a, d = read_sp(p)
        exactly(mon, a, W, "%s_patt_uniform(%d, %d)" % (name, nr, nc), (name, "p", nr, nc))
        exactly(mon, d, np.full((2 * nr - 2, nc), complex(val)), "double sphere of %s_patt_uniform" % name, None)
        q = mon.call(f, nr, nc, patt_type=sp.vector)
        if not isinstance(q, sp.TransversePatternUniform):
            raise Violation("type", "%s_patt_uniform gives a %s" % (name, type(q).__name__))
        for A in read_tp(q)[:2]:
            exactly(mon, A, W, "%s_patt_uniform(%d, %d, vector)" % (name, nr, nc), (name, "tp", nr, nc))
    # random factories: sizes and types
    c = mon.call(sp.random_coefs, nmax, mmax)
    v = mon.call(sp.random_coefs, nmax, mmax, coef_type=sp.vector)
    if not isinstance(c, sp.ScalarCoefs) or not isinstance(v, sp.VectorCoefs):
        raise Violation("type", "random_coefs gives %s, %s" % (type(c).__name__, type(v).__name__))
    for A, lo in [(read_sc(c), 0)] + [(A, 1) for A in read_vc(v)]:
        mask = dense_mask(nmax, mmax)
        mask[:lo] = False
        if A.shape != mask.shape or np.any((A.real == 0)[mask]) or np.any((A.imag == 0)[mask]) or A[:lo].any():
            raise Violation("random-values", "random_coefs(%d, %d): zeros among the values, or a monopole" %
                            (nmax, mmax))
        x = np.concatenate([A.real[mask], A.imag[mask]])
        if len(set(x)) != len(x):
            raise Violation("random-values", "random_coefs(%d, %d): repeated values" % (nmax, mmax))
    mon.ok("random-values", ("coefs", nmax, mmax))


def judge(mon, X, K, what, state):
    """X[k, j]: K standardised draws of the entries j"""
    N = X.size
    if N == 0:
        return
    if not np.all(np.isfinite(X)):
        raise Violation("moments", "%s: not finite" % what)
    m = np.abs(X.mean(axis=0)).max() * np.sqrt(K)
    v = np.abs((X ** 2).mean(axis=0) - 1).max() / np.sqrt(2.0 / K)
    pm, pv = abs(X.mean()) * np.sqrt(N), abs((X ** 2).mean() - 1) / np.sqrt(2.0 / N)
    p4 = abs((X ** 4).mean() - 3) / np.sqrt(96.0 / N)
    Z = X / np.sqrt((X ** 2).mean(axis=0))
    C = Z.T @ Z / K
    np.fill_diagonal(C, 0)
    cc = np.abs(C).max() * np.sqrt(K)
    L = Z[1:].T @ Z[:-1] / (K - 1)
    lag = np.abs(L).max() * np.sqrt(K)
    for name, x, lim in (("mean of an entry", m, 7), ("variance of an entry", v, 9), ("mean", pm, 7),
                         ("variance", pv, 8), ("fourth moment", p4, 12), ("correlation of two entries", cc, 8),
                         ("correlation of consecutive calls", lag, 8)):
        if not x < lim:
            raise Violation("moments", "%s: the %s is %.1f standard errors off" % (what, name, x))
        mon.worst[name] = max(mon.worst.get(name, 0), float(x / lim))
    mon.ok("moments", state)


def random_coefs(case, mon):
    sp = mon.sp
    nmax, mmax, vec, mu, sigma, K = [case[k] for k in ("nmax", "mmax", "vec", "mu", "sigma", "draws")]
    what = "random_coefs(%d, %d, mu=%g, sigma=%g, %s)" % (nmax, mmax, mu, sigma, "vector" if vec else "scalar")
    state = (nmax, mmax, vec, mu, sigma)
    kw = {"coef_type": sp.vector if vec else sp.scalar}
    mask = dense_mask(nmax, mmax)
    mask[:vec] = False

    def draw(k):
        form = k % 3
        if form == 0 or (mu, sigma) != (0.0, 1.0):
            c = mon.call(sp.random_coefs, nmax, mmax, mu, sigma, **kw) if k % 2 else \
                mon.call(sp.random_coefs, nmax, mmax, mu=mu, sigma=sigma, **kw)
        else:
            c = mon.call(sp.random_coefs, nmax, mmax, **kw)
        out = []
        for A in (read_vc(c) if vec else (read_sc(c),)):
            if A.shape != mask.shape:
                raise Violation("random-values", "%s: size %s" % (what, A.shape))
            if A[:vec].any():
                raise Violation("monopole", "%s: monopole %r" % (what, A[0]))
            out += [A.real[mask], A.imag[mask]]
        return np.concatenate(out)
    draws(mon, draw, K, mu, sigma, what, state, case["seed"])


def draws(mon, draw, K, mu, sigma, what, state, seed, sel=None):
    np.random.seed(seed)
    st = np.random.get_state()
    X = np.array([draw(k) for k in range(K)])
    np.random.set_state(st)
    Y = np.array([draw(k) for k in range(min(K, 5))])
    if not np.array_equal(X[:len(Y)], Y):
        raise Violation("reseed", "%s: the same generator state gave other values" % what)
    mon.ok("reseed", state)
    if sel is not None:
        X = X[:, sel]
    if sigma == 0:
        if not np.all(X == mu):
            raise Violation("moments", "%s: not constant" % what)
        mon.ok("moments", state)
        return
    if X.size:
        if np.any(X[1:] == X[:-1]) and sigma > 1e-9 * abs(mu):
            raise Violation("novel", "%s: an entry repeats in the next call" % what)
    mon.ok("novel", state)
    judge(mon, (X - mu) / sigma, K, what, state)


def large(case, mon, r):
    """few draws of many values: every value new, the components independent, the deviation right over the values"""
    sp = mon.sp
    a, b, vec, kind = case["a"], case["b"], case["vec"], case["kind"]
    mu, sigma = [(0.0, 1.0), (3.0, 0.5), (-2.0, 25.0)][r.randint(3)] if kind == "coefs" else (0.0, 1.0)
    what = "random %s (%d, %d, mu=%g, sigma=%g, %s)" % (kind, a, b, mu, sigma, "vector" if vec else "scalar")
    t = sp.vector if vec else sp.scalar

    def draw():
        if kind == "coefs":
            mask = dense_mask(a, b)
            mask[:vec] = False
            c = mon.call(sp.random_coefs, a, b, mu, sigma, coef_type=t)
            sets = read_vc(c) if vec else (read_sc(c),)
            for A in sets:
                if A.shape != mask.shape or A[:vec].any():
                    raise Violation("random-values", "%s: size %s, or a monopole" % (what, A.shape))
            return [x for A in sets for x in (A.real[mask], A.imag[mask])]
        p = mon.call(sp.random_patt_uniform, a, b, patt_type=t)
        parts = read_tp(p) if vec else read_sp(p)
        n = len(parts) // 2
        for A, d in zip(parts[:n], parts[n:]):
            if A.shape != (a, b):
                raise Violation("random-values", "%s: shape %s" % (what, A.shape))
            if asym(d, -1 if vec else 1) > 1e-13 * np.abs(d).max():
                raise Violation("symmetry", "%s: asymmetry %g" % (what, asym(d, -1 if vec else 1)))
        return [x for A in parts[:n] for x in (A.real[1:-1].ravel(), A.imag[1:-1].ravel())]
    np.random.seed(case["seed"])
    st = np.random.get_state()
    one, two = draw(), draw()
    np.random.set_state(st)
    again = draw()
    if not all(np.array_equal(x, y) for x, y in zip(one, again)):
        raise Violation("reseed", "%s: the same generator state gave other values" % what)
    np.random.seed((case["seed"] + 1) % 2 ** 32)
    other = draw()
    mon.ok("reseed", what)
    every = np.concatenate(one + two + other)
    if len(np.unique(every)) != len(every) or np.any(every == 0):
        raise Violation("novel", "%s: values repeat" % what)
    mon.ok("novel", what)
    z = [(x - mu) / sigma for x in one + two + other]
    N = len(z[0])
    if N < 30:
        return
    for i, x in enumerate(z):
        for name, got, lim in (("mean", abs(x.mean()) * np.sqrt(N), 7), ("variance", abs((x * x).mean() - 1) * np.sqrt(N / 2.0), 8),
                               ("correlation of neighbours", abs((x[1:] * x[:-1]).sum()) / np.sqrt(N - 1.0), 7),
                               ("first against second half", abs(x[:N // 2].mean() - x[-(N // 2):].mean()) * np.sqrt(N / 4.0), 7)):
            if not got < lim:
                raise Violation("moments", "%s: the %s is %.1f standard errors off" % (what, name, got))
        for j in range(i):
            c = abs((x * z[j]).sum()) / np.sqrt(N)
            if not c < 8:
                raise Violation("moments", "%s: draws %d and %d are correlated, %.1f standard errors" % (what, j, i, c))
    mon.ok("moments", what)


def random_patt(case, mon):
    sp = mon.sp
    nr, nc, vec, K = case["nr"], case["nc"], case["vec"], case["draws"]
    what = "random_patt_uniform(%d, %d, %s)" % (nr, nc, "vector" if vec else "scalar")
    inner = np.zeros((nr, nc), bool)
    inner[1:-1] = True

    def draw(k):
        if vec:
            p = mon.call(sp.random_patt_uniform, nr, nc, patt_type=sp.vector)
            t, f, td, fd = read_tp(p)
            parts, ds, sym = (t, f), (td, fd), -1
        else:
            p = mon.call(sp.random_patt_uniform, nr, nc)
            a, d = read_sp(p)
            parts, ds, sym = (a,), (d,), 1
        if parts[0].shape != (nr, nc):
            raise Violation("random-values", "%s: shape %s" % (what, parts[0].shape))
        for d in ds:
            if asym(d, sym) > 1e-13 * np.abs(d).max():
                raise Violation("symmetry", "%s: asymmetry %g" % (what, asym(d, sym)))
        if any(np.any(d.real[1:-1] == 0) or np.any(d.imag[1:-1] == 0) for d in parts):
            raise Violation("random-values", "%s: zeros among the values" % what)
        return np.concatenate([x for d in parts for x in (d.real.ravel(), d.imag.ravel())])
    # the poles: half of the columns are free, the other half follow by symmetry; their deviation is not specified
    pole = np.zeros((nr, nc), bool)
    pole[[0, -1], :nc // 2] = True
    psel = np.concatenate([pole.ravel()] * (4 if vec else 2))
    np.random.seed((case["seed"] + 5) % 2 ** 32)
    P = np.array([draw(k)[psel] for k in range(K)])
    sd = P.std(axis=0)
    if not (np.all(np.isfinite(P)) and np.all(sd > 0.2) and np.all(sd < 2)):
        raise Violation("moments", "%s: the deviation at the poles is %s" % (what, sd))
    P = P / sd
    judge(mon, (P - 0.0), K, what + ", at the poles", (nr, nc, vec, "poles"))
    sel = np.concatenate([inner.ravel()] * (4 if vec else 2))
    draws(mon, draw, K, 0.0, 1.0, what, (nr, nc, vec), case["seed"], sel)
