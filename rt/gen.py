"""Workload generators: everything is made from small JSON cases, and from the case alone."""
import numpy as np

KINDS = ["gauss", "real", "imag", "tiny", "huge", "wide", "sparse", "ints", "decay", "const", "ones", "signs", "odd",
         "conj", "zerosum", "line", "low", "high", "negzero", "nearly", "middle", "outer", "mirror", "rows", "columns",
         "checker", "twoscale", "faint", "vast"]


def rs(seed):
    return np.random.RandomState(int(seed) % (2 ** 32))


def values(kind, shape, seed):
    r = rs(seed)
    shape = (shape,) if np.isscalar(shape) else tuple(shape)
    g = r.normal(size=shape) + 1j * r.normal(size=shape)
    if kind == "real":
        g = g.real + 0j
    elif kind == "imag":
        g = 1j * g.imag
    elif kind == "tiny":
        g = g * 1e-30
    elif kind == "huge":
        g = g * 1e30
    elif kind == "wide":
        g = g * 10.0 ** r.uniform(-8, 8, size=shape)
    elif kind == "sparse":
        g = g * (r.uniform(size=shape) < 0.15)
    elif kind == "ints":
        g = r.randint(-3, 4, size=shape) + 1j * r.randint(-3, 4, size=shape)
    elif kind == "decay":
        g = g / (1.0 + np.arange(int(np.prod(shape))).reshape(shape)) ** 2
    elif kind == "const":
        g = np.ones(shape) * (r.normal() + 1j * r.normal())
    elif kind == "ones":
        g = np.ones(shape)
    elif kind == "signs":               # only 1, -1, 1j, -1j and 0
        g = np.array([0, 1, -1, 1j, -1j])[r.randint(0, 5, size=shape)]
    elif kind == "odd":                 # the mirror image is the negative: every sum over the orders vanishes
        g = np.round(8 * g)
        g = g - g[..., ::-1]
    elif kind == "conj":                # coefficients of a real function
        j = np.arange(g.shape[-1]) - (g.shape[-1] - 1) // 2
        g = g + (-1.0) ** j * np.conj(g[..., ::-1])
    elif kind == "zerosum":             # mean and sum exactly zero
        g = np.round(16 * g)
        g.flat[-1] = 0
        g.flat[-1] = -g.sum()
    elif kind == "line":                # one row or one column
        k = np.zeros(shape)
        if len(shape) == 2 and r.randint(2):
            k[:, r.randint(shape[1])] = 1
        elif len(shape) == 2:
            k[r.randint(shape[0])] = 1
        else:
            k[r.randint(shape[0])] = 1
        g = g * k
    elif kind == "low":                 # content at the beginning only
        g[max(1, shape[0] // 3):] = 0
    elif kind == "high":                # content at the end only
        g[:shape[0] - max(1, shape[0] // 4)] = 0
    elif kind == "negzero":             # zeros of both signs among the values
        g = np.where(r.uniform(size=shape) < 0.4, g, complex(-0.0, -0.0))
    elif kind == "nearly":              # nearly real, nearly imaginary, nearly constant, ...
        w = 10.0 ** -r.uniform(6, 13)
        t = r.randint(5)
        g = (g.real + 1j * w * g.imag if t == 0 else w * g.real + 1j * g.imag if t == 1 else 1 + w * g if t == 2
             else np.round(3 * g) + w * g if t == 3 else g[..., :1] + w * g)
    elif kind == "middle":              # the middle column only (order 0): real, complex or nearly real
        j = (shape[-1] - 1) // 2
        w = pick(r, [0, 1, 10.0 ** -r.uniform(6, 13)])
        g = (g.real + 1j * w * g.imag) * (np.arange(shape[-1]) == j)
    elif kind == "outer":               # the first and the last column only, or only one of them
        k = np.zeros(shape[-1])
        k[pick(r, [[0], [-1], [0, -1]])] = 1
        g = g * k
    elif kind == "mirror":              # equal to the mirror image, nearly so, or but for one value
        g = g + g[..., ::-1]
        if r.randint(2):
            g.flat[r.randint(g.size)] *= pick(r, [2, -1, 1 + 1e-9, 0])
    elif kind == "rows":                # all columns the same, perhaps but for one value
        g = g[..., :1] * np.ones(shape[-1])
        if r.randint(2):
            g.flat[r.randint(g.size)] *= pick(r, [2, -1, 1 + 1e-9, 0])
    elif kind == "columns":             # all rows the same, perhaps but for one value
        g = np.ones((shape[0],) + (1,) * (len(shape) - 1)) * g[:1]
        if r.randint(2):
            g.flat[r.randint(g.size)] *= pick(r, [2, -1, 1 + 1e-9, 0])
    elif kind == "checker":             # the highest frequency in both directions
        g = g[:1, ..., :1] * (-1.0) ** sum(np.indices(shape)) if len(shape) == 2 else g * (-1.0) ** np.arange(shape[0])
    elif kind == "twoscale":            # one value, and all others far below it
        w = 10.0 ** -r.uniform(8, 13)
        i = r.randint(g.size)
        one = g.flat[i]
        g = g * w
        g.flat[i] = one
    elif kind == "faint":               # squares underflow
        g = g * 1e-290
    elif kind == "vast":                # squares overflow or nearly
        g = g * 1e140
    return np.array(g, dtype=np.complex128)


def coefs(case):
    """dense array A[n, m + mmax] for a case with nmax, mmax, kind, seed (and n, m for kind 'single')"""
    from rt.monitor import dense_mask
    nmax, mmax = case["nmax"], case["mmax"]
    shape = (nmax + 1, 2 * mmax + 1)
    if case["kind"] == "single":
        A = np.zeros(shape, np.complex128)
        A[case["n"], case["m"] + mmax] = complex(*case.get("val", [1.0, 0.0]))
        return A
    A = np.where(dense_mask(nmax, mmax), values(case["kind"], shape, case["seed"]), 0)
    if case["kind"] == "zerosum" and nmax:
        A[0] = 0
        A[nmax, mmax] -= A.sum()
    return A


def pick(r, seq):
    return seq[r.randint(len(seq))]


def rescaled(A, r):
    """the values at another size, in part or as a whole, some of them zero"""
    t = r.randint(8)
    if t < 3:
        return A
    if t < 6:
        A = A * pick(r, [1e-12, 1e-9, 1e-6, 1e-4, 1e3, 1e6, 1e9, 1e12])
    elif t == 6:
        A = A * 10.0 ** r.randint(-9, 10, size=A.shape)
    else:                   # zero where, at the same place, the other operand is whatever it is
        A = A * pick(r, [1, 1e-8, 1e8])
    if r.randint(2):
        A = np.where(r.uniform(size=A.shape) < pick(r, [0.1, 0.5, 0.9]), 0, A)
    return A


def rand_size(r, hi):
    nmax = int(r.randint(0, hi + 1))
    t = r.randint(4)
    mmax = nmax if t == 0 else int(r.randint(0, nmax + 1))
    return nmax, mmax


def rand_grid(r, nmax, mmax, extra=12):
    t = r.randint(5)
    nrows = nmax + 2 + (0 if t == 0 else 1 if t == 1 else int(r.randint(0, extra)))
    if t == 4:
        nrows = 2 * nmax + 4
    t = r.randint(4)
    ncols = 2 * mmax + 2 + 2 * (0 if t == 0 else 1 if t == 1 else int(r.randint(0, extra)))
    return int(nrows), int(ncols)


def seed_of(r):
    return int(r.randint(0, 2 ** 31))


def grid_sweep(r, nmax_hi, kinds=("gauss",)):
    """every (nmax, mmax) up to nmax_hi with the least grids, slightly larger ones and random ones"""
    for nmax in range(nmax_hi + 1):
        for mmax in range(nmax + 1):
            grids = {(None, None), (nmax + 2, 2 * mmax + 2), (nmax + 3, 2 * mmax + 4), (2 * nmax + 4, 2 * mmax + 6)}
            grids.add(rand_grid(r, nmax, mmax))
            for (a, b) in sorted(grids, key=lambda g: (g[0] or 0, g[1] or 0)):
                yield {"nmax": nmax, "mmax": mmax, "nrows": a, "ncols": b, "kind": pick(r, kinds),
                       "seed": seed_of(r)}


def random_grids(r, count, hi, kinds=KINDS):
    for _ in range(count):
        nmax, mmax = rand_size(r, hi)
        nrows, ncols = rand_grid(r, nmax, mmax)
        yield {"nmax": nmax, "mmax": mmax, "nrows": nrows, "ncols": ncols, "kind": pick(r, list(kinds)),
               "seed": seed_of(r)}


EDGES = [31, 32, 33, 47, 63, 64, 65, 90, 99, 100, 101, 127, 128, 129, 150, 181, 199, 200, 201, 255, 256, 257, 300]


def large(r, big, vector=False):
    """sizes that small sweeps do not reach: high degrees with few orders, full sets, big grids for few coefficients"""
    for n in EDGES + [1021, 1150] + ([400, 511, 512, 513, 700, 850, 1024, 1100, 1500] if big else []):
        for _ in range(3 if big else 1):
            m = int(r.randint(0, 7 if n < 1000 else 3))
            yield {"nmax": n, "mmax": m, "nrows": n + 2 + int(r.randint(0, 4)), "ncols": 2 * m + 2 + 2 * int(r.randint(0, 3)),
                   "kind": pick(r, KINDS), "seed": seed_of(r)}
    for n in ([48, 65, 80, 101, 128, 130, 150, 160, 185, 190] if big else [48, 65, 101, 185] + ([] if vector else [129])):
        m = n - int(r.randint(0, n // 3)) * int(r.randint(0, 2)) * (n != 185)     # 185: more than 32767 coefficients
        yield {"nmax": n, "mmax": m, "nrows": n + 2 + int(r.randint(0, 3)), "ncols": 2 * m + 2 + 2 * int(r.randint(0, 3)),
               "kind": pick(r, KINDS), "seed": seed_of(r)}
    for n, nr, nc in [(4, 300, 300), (9, 40, 600), (3, 800, 10), (12, 130, 258), (7, 257, 128), (0, 200, 200),
                      (20, 600, 240), (3, 6, 1026), (2, 4, 2100), (3, 1030, 8), (2, 2100, 6)] + ([(3, 5, 8200), (2, 4200, 8), (5, 2000, 30), (5, 30, 4000), (30, 900, 900)] if big else []):
        m = int(r.randint(0, n + 1))
        yield {"nmax": n, "mmax": m, "nrows": nr + int(r.randint(0, 2)), "ncols": nc, "kind": pick(r, KINDS),
               "seed": seed_of(r)}


def singles(r, nmax_hi):
    """every single mode (n, m) up to nmax_hi, in containers of random size"""
    for n in range(nmax_hi + 1):
        for m in range(-n, n + 1):
            nmax = n + int(r.randint(0, 3))
            mmax = int(r.randint(abs(m), nmax + 1))
            nrows, ncols = rand_grid(r, nmax, mmax, 6)
            v = pick(r, [[1.0, 0.0], [0.0, 1.0], [-2.5, 0.75], [1e-20, -1e-20], [3e15, 1e15]])
            yield {"nmax": nmax, "mmax": mmax, "nrows": nrows, "ncols": ncols, "kind": "single", "n": n, "m": m,
                   "val": v, "seed": seed_of(r)}


def vcoefs(case):
    """dense arrays of the two sets: case["which"] says which are there, case["rel"] how the second follows from the
    first (independent, equal, negative, turned, or of another class of values)"""
    A = coefs(case)
    rel = case.get("rel", "own")
    B = {"own": lambda: coefs(dict(case, seed=case["seed"] + 1)), "same": lambda: A.copy(), "neg": lambda: -A,
         "turned": lambda: 1j * A, "conj": lambda: A.conj(),
         "other": lambda: coefs(dict(case, seed=case["seed"] + 1, kind=KINDS[case["seed"] % len(KINDS)]))}[rel]()
    A, B = A * (case["which"] & 1), B * (case["which"] >> 1 & 1)
    A[0] = 0
    B[0] = 0
    return A, B


RELS = ["own", "own", "same", "neg", "turned", "conj", "other", "other"]


def layout(a, seed):
    """the same values in another kind of array: order, strides, type, write protection"""
    k = seed % 9
    a = np.array(a)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        b = np.zeros((2 * a.shape[0], 3 * a.shape[1]), a.dtype)
        b[::2, 1::3] = a
        return b[::2, 1::3]
    if k == 2:
        return a[::-1, ::-1].copy()[::-1, ::-1]
    if k == 3:
        a.flags.writeable = False
        return a
    if k == 4 and not a.imag.any():
        return np.array(a.real)
    if k == 5 and not a.imag.any() and np.array_equal(a.real, np.round(a.real)) and np.all(np.abs(a) < 1e9):
        return a.real.astype(np.int64)
    if k == 6:
        return a.T.copy().T
    return a


def ladder_coefs(r, lo, hi, full=0, few=3):
    """(nmax, mmax): every degree from lo to hi with few orders, and every order from lo to full with about as many
    degrees, so that no single size is left to chance"""
    for n in range(lo, hi + 1):
        yield n, int(r.randint(0, min(n, few) + 1))
    for m in range(lo, full + 1):
        yield m + int(r.randint(0, 3)), m


def ladder_grids(r, lo, rows, cols):
    """(nrows, ncols): every number of rows from lo to rows and every even number of columns from lo to cols, each with
    few of the other"""
    for n in range(lo, rows + 1):
        yield n, 2 * int(r.randint(1, 4))
    for n in range(lo + lo % 2, cols + 1, 2):
        yield int(r.randint(3, 7)), n


def ladder(r, big, scale=1.0):
    """synthesis: every size in turn, at a moderate cost"""
    k = scale * (2.0 if big else 1.0)
    for n, m in ladder_coefs(r, 13, int(140 * k), int(60 * k)):
        yield {"nmax": n, "mmax": m, "nrows": n + 2 + int(r.randint(0, 2)), "ncols": 2 * m + 2 + 2 * int(r.randint(0, 2)),
               "kind": pick(r, KINDS), "seed": seed_of(r)}
    for nr, nc in ladder_grids(r, 26, int(220 * k), int(300 * k)):
        n = int(r.randint(0, min(5, nr - 1)))
        m = int(r.randint(0, min(n, nc // 2 - 1) + 1))
        yield {"nmax": n, "mmax": m, "nrows": nr, "ncols": nc, "kind": pick(r, KINDS), "seed": seed_of(r)}
