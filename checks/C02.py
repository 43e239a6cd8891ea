"""C02: scalar round trip. Patterns carry a tag with the coefficients they were made from; every analysis of a tagged
pattern is judged against the tag."""
from rt import gen, judges
from rt.monitor import fill, read_sc, read_sp
import numpy as np

RULE = ("every (nmax, mmax) up to a bound on least and larger grids, every single mode up to a bound, random sizes and "
        "value classes, a few large degrees; each synthesised pattern is analysed with exact, default, truncated and "
        "padded sizes and synthesised again. Distinct by (sizes of the coefficients, grid, requested sizes, count of "
        "nonzero coefficients mod 97).")
ROUNDS = {"quick": 2}
MIN = {"spht": 800, "round-trip": 800, "resynthesis": 100}


def cases(tier, r, variant):
    big = tier == "thorough"
    for n, m in [(1060, 0), (1300, 1)] + ([(1023, 2), (1600, 1), (2500, 0)] if big else []):
        yield {"nmax": n, "mmax": m, "nrows": n + 2, "ncols": 2 * m + 2, "kind": "gauss", "seed": n}
    for c in gen.grid_sweep(r, 22 if big else 12, gen.KINDS):
        yield c
    for c in gen.singles(r, 34 if big else 14):
        yield c
    for c in gen.large(r, big):
        yield c
    for c in gen.ladder(r, big):
        yield c
    for c in gen.random_grids(r, 9000 if big else 2000, 44 if big else 28):
        yield c
    for n in ([100, 200, 300, 500, 1000] if big else [100, 300]):
        yield {"nmax": n, "mmax": 2, "nrows": n + 2, "ncols": 6, "kind": "gauss", "seed": gen.seed_of(r)}
        yield {"nmax": n, "mmax": 3, "nrows": n + 5, "ncols": 10, "kind": "decay", "seed": gen.seed_of(r)}
    for n in ([64, 100, 160] if big else [64]):
        yield {"nmax": n, "mmax": n, "nrows": n + 2, "ncols": 2 * n + 2, "kind": "gauss", "seed": gen.seed_of(r)}


def setup(mon):
    judges.Scalar(mon, synth=False, roundtrip=True)


def run(case, mon):
    sp = mon.sp
    r = gen.rs(case["seed"] + 1)
    A = gen.coefs(case)
    c = fill(sp, A)
    nmax, mmax = case["nmax"], case["mmax"]
    nr, nc = judges.grid_of(nmax, mmax, case["nrows"], case["ncols"])
    p = mon.call(sp.ispht, c, nr, nc)
    reqs = judges.requests(r, nmax, mmax, nr, nc)
    if nmax > 60:
        reqs = reqs[:1] + [q for q in reqs[1:] if r.randint(2)] + [(int(r.randint(0, 9)), 0)]
    for (n, m) in reqs:
        if n is None and m is None:
            mon.call(sp.spht, p)
        elif n is None:
            mon.call(sp.spht, p, mmax=m)
        elif m is None:
            mon.call(sp.spht, p, n)
        elif r.randint(2):
            mon.call(sp.spht, p, n, m)
        else:
            mon.call(sp.spht, p, mmax=m, nmax=n)
    if nmax <= 60:
        a, _ = read_sp(p)
        q = mon.call(sp.ispht, mon.call(sp.spht, p, nmax, mmax), nr, nc)
        mon.close(read_sp(q)[0], a, 4 * judges.synth_tol(A), "resynthesis",
                  "analysis and synthesis of a %dx%d synthesis of nmax=%d mmax=%d" % (nr, nc, nmax, mmax), None)
        # a pattern handed over as plain data: same coefficients
        if nr >= 3:
            q = sp.ScalarPatternUniform(np.array(a))
            mon.close(read_sc(mon.call(sp.spht, q, nmax, mmax)), A, judges.synth_tol(A), "round-trip-data",
                      "analysis of the bare data of a %dx%d synthesis of nmax=%d mmax=%d" % (nr, nc, nmax, mmax), None)
