"""C03: analysis of arbitrary symmetric patterns against Gauss-Legendre quadrature of the interpolant."""
import numpy as np

from rt import gen, judges, oracle
from rt.monitor import read_sc, resize

RULE = ("every grid up to a bound and random larger ones filled with arbitrary data (random, single points, poles "
        "only, rows, columns, Nyquist patterns, real, tiny, huge, with exact zeros), each analysed with several sizes. "
        "Distinct by (requested size, grid, number of nonzero samples mod 97).")
ROUNDS = {"quick": 4}
MIN = {"spht": 600, "analysis": 600, "linearity": 50}
FORMS = gen.KINDS + ["point", "pole", "row", "column", "nyquist", "columns-alternate", "equator", "below"]


def data(form, nr, nc, seed):
    r = gen.rs(seed)
    a = np.zeros((nr, nc), np.complex128)
    v = complex(r.normal(), r.normal())
    if form == "point":
        a[r.randint(nr), r.randint(nc)] = v
    elif form == "pole":
        a[-1 if r.randint(2) else 0, :] = v
    elif form == "row":
        a[r.randint(nr), :] = gen.values("gauss", nc, seed)
    elif form == "column":
        a[:, r.randint(nc)] = gen.values("gauss", nr, seed)
    elif form == "nyquist":
        a[:, :] = v * ((-1.0) ** np.arange(nr))[:, None]
    elif form == "below":               # a constant and one harmonic far below it
        n = int(r.randint(1, nr - 1)) if nr > 2 else 0
        m = int(r.randint(0, min(n, nc // 2 - 1, 4) + 1))
        y = np.outer(np.asarray(oracle.P_(n, m, "grid", nr)[n], float), np.exp(2j * np.pi * m * np.arange(nc) / nc))
        a[:, :] = v + 10.0 ** -r.uniform(9, 12.5) * y * complex(r.normal(), r.normal())
    elif form == "equator":             # symmetric or antisymmetric about the equator
        a = gen.values("gauss", (nr, nc), seed)
        a = a + (1 if seed % 2 else -1) * a[::-1]
    elif form == "columns-alternate":
        a[:, :] = v * ((-1.0) ** np.arange(nc))[None, :] * gen.values("real", (nr, 1), seed)
    else:
        a = gen.values(form, (nr, nc), seed)
    return a


def cases(tier, r, variant):
    big = tier == "thorough"
    for nr in range(3, 20 if big else 12):
        for nc in range(2, 24 if big else 16, 2):
            for form in (FORMS if big else [gen.pick(r, FORMS), "gauss"]):
                yield {"nrows": nr, "ncols": nc, "form": form, "seed": gen.seed_of(r)}
    for _ in range(6000 if big else 500):
        yield {"nrows": int(r.randint(3, 48 if big else 30)), "ncols": 2 * int(r.randint(1, 24 if big else 16)),
               "form": gen.pick(r, FORMS), "seed": gen.seed_of(r)}
    for nr, nc in ([(150, 8), (257, 6), (400, 4), (90, 90)] if big else [(120, 6)]):
        yield {"nrows": nr, "ncols": nc, "form": "gauss", "seed": gen.seed_of(r)}
    for c in large(r, big):
        yield c
    for nr, nc in gen.ladder_grids(r, 13, 260 if big else 130, 400 if big else 200):
        yield {"nrows": nr, "ncols": nc, "form": gen.pick(r, FORMS), "seed": gen.seed_of(r)}


def large(r, big):
    """grids that the sweep does not reach: long and narrow, wide, square"""
    edges = [31, 33, 39, 48, 57, 64, 65, 66, 90, 101, 128, 129, 130, 200, 256, 257, 301]
    for nr in edges + ([int(r.randint(32, 420)) for _ in range(120)] + [400, 512, 513, 700] if big else
                       [int(r.randint(32, 200)) for _ in range(14)]):
        yield {"nrows": nr, "ncols": 2 * int(r.randint(1, 5)), "form": gen.pick(r, FORMS), "seed": gen.seed_of(r)}
    for nr in [1025, 1103] + ([1300, 1700, 2050] if big else []):
        yield {"nrows": nr, "ncols": 4, "form": gen.pick(r, FORMS), "seed": gen.seed_of(r)}
    for nc in [64, 66, 100, 128, 130, 256, 258, 500, 800, 1030, 2052] + ([1024, 1500, 2048, 3000, 4098, 6000] if big else []):
        yield {"nrows": int(r.randint(4, 12)) if nc < 700 else int(r.randint(4, 6)), "ncols": nc, "form": gen.pick(r, FORMS), "seed": gen.seed_of(r)}
    for n in [40, 66, 101, 187] + ([130, 200, 257] if big else []):
        yield {"nrows": n, "ncols": n + n % 2 if n != 187 else 372, "form": gen.pick(r, FORMS), "seed": gen.seed_of(r)}


def few(reqs, r, hi_n, hi_m):
    """requests for a large grid: some of the general ones, and low ones"""
    out = [q for q in reqs[1:] if r.randint(2)]
    for _ in range(2):
        n = int(r.randint(0, min(hi_n, 12) + 1))
        out.append((n, int(r.randint(0, min(n, hi_m) + 1))))
    return out + [(hi_n, int(r.randint(0, min(hi_n, hi_m, 3) + 1)))]


def setup(mon):
    judges.Scalar(mon, synth=False, analysis=True)


def run(case, mon):
    sp = mon.sp
    nr, nc = case["nrows"], case["ncols"]
    r = gen.rs(case["seed"] + 1)
    a = data(case["form"], nr, nc, case["seed"])
    if case["seed"] % 4:
        p = mon.call(sp.ScalarPatternUniform, gen.layout(a, case["seed"] // 4))
    else:
        d = np.array(sp.ScalarPatternUniform(a).doublesphere)
        p = mon.call(sp.ScalarPatternUniform, gen.layout(d, case["seed"] // 4), doublesphere=True)
    hi_n, hi_m = nr - 2, nc // 2 - 1
    top = (hi_n, min(hi_n, hi_m))
    full = mon.call(sp.spht, p, *top)
    F = read_sc(full)
    big = float(np.max(np.abs(p.doublesphere))) or 1.0
    reqs = judges.requests(r, *(top + (nr, nc)))
    for (n, m) in (reqs[1:] if nr * nc < 1000 else few(reqs, r, hi_n, hi_m)):
        c = read_sc(mon.call(sp.spht, p, n, m))
        n2, m2 = c.shape[0] - 1, (c.shape[1] - 1) // 2
        if n2 <= top[0] and m2 <= top[1]:
            mon.close(c, resize(F, n2, m2), 4 * judges.EPS * big, "depends-on-size",
                      "analysis with other sizes (%d, %d) than %s" % (n2, m2, top), None)
    # linearity
    if nr <= 48:
        b = data("gauss", nr, nc, case["seed"] + 7) * big
        q = sp.ScalarPatternUniform(b)
        z = complex(1.5, -0.5)
        G = read_sc(mon.call(sp.spht, q, *top))
        H = read_sc(mon.call(sp.spht, mon.call(lambda: p * 2.0 + q * z), *top))
        mon.close(H, 2.0 * F + z * G, 60 * judges.EPS * big, "linearity", "analysis of 2 p + z q", None)
