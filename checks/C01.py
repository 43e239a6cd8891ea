"""C01: scalar synthesis against the direct sum in extended precision, at every observed ispht event."""
from rt import gen, judges
from rt.monitor import fill

RULE = ("every (nmax, mmax) up to a bound with the least, slightly larger and random grids; every single mode up to a "
        "bound; random sizes, grids and value classes; a few degrees up to 1600 (3000). An event is one synthesis judged at "
        "every grid point; distinct by (nmax, mmax, nrows, ncols, number of nonzero coefficients mod 97).")
ROUNDS = {"quick": 4}
MIN = {"ispht": 300, "synthesis": 300}


def cases(tier, r, variant):
    big = tier == "thorough"
    for n, m in [(1100, 0), (1250, 1), (1600, 2)] + ([(2300, 0), (3000, -1), (1023, 3), (1024, 0)] if big else []):
        yield {"nmax": n, "mmax": abs(m), "nrows": None, "ncols": None, "kind": "single", "n": n, "m": m, "seed": 0}
    if big:
        yield {"nmax": 1090, "mmax": 1090, "nrows": None, "ncols": None, "kind": "single", "n": 1090, "m": 1085, "seed": 0}
    for c in gen.grid_sweep(r, 22 if big else 12, gen.KINDS):
        yield c
    for c in gen.singles(r, 36 if big else 18):
        yield c
    for c in gen.large(r, big):
        yield c
    for c in gen.ladder(r, big):
        yield c
    for c in gen.random_grids(r, 12000 if big else 3000, 48 if big else 30):
        yield c
    for n in ([120, 200, 333, 512, 750, 1000] if big else [90, 180, 400, 1000]):
        for m in sorted({0, 1, 2, n // 2, n - 1, n}):
            for sgn in (1, -1):
                if m or sgn > 0:
                    mm = m if m < 4 or n <= 400 else None
                    if mm is None:
                        continue
                    yield {"nmax": n, "mmax": mm, "nrows": None, "ncols": None, "kind": "single", "n": n,
                           "m": sgn * m, "seed": 1}
    for n in ([64, 100, 150] if big else [60]):
        yield {"nmax": n, "mmax": n, "nrows": n + 2, "ncols": 2 * n + 4, "kind": "gauss", "seed": gen.seed_of(r)}
        yield {"nmax": n, "mmax": n // 3, "nrows": 2 * n, "ncols": 2 * n, "kind": "gauss", "seed": gen.seed_of(r)}
    # one row less than documented: allowed to raise, but not to be wrong
    for n in range(0, 9 if not big else 20):
        for m in range(n + 1):
            if n:
                yield {"nmax": n, "mmax": m, "nrows": n + 1, "ncols": 2 * m + 2, "kind": "gauss", "tight": True,
                       "seed": gen.seed_of(r)}
    for n, m in gen.ladder_coefs(r, 9, 150 if big else 80, 90 if big else 36):
        yield {"nmax": n, "mmax": m, "nrows": n + 1, "ncols": 2 * m + 2 + 2 * int(r.randint(2)),
               "kind": gen.pick(r, gen.KINDS), "tight": True, "seed": gen.seed_of(r)}
    for n in ([21, 24, 31, 33, 40, 48, 64, 65, 77, 90, 128, 150] if big else [21, 32, 33, 47, 64, 90]):
        for m in sorted({0, 1, n // 2, n - 1, n}):
            yield {"nmax": n, "mmax": m, "nrows": n + 1, "ncols": 2 * m + 2 + 2 * int(r.randint(3)), "kind": "gauss",
                   "tight": True, "seed": gen.seed_of(r)}


def setup(mon):
    judges.Scalar(mon, synth=True)


def run(case, mon):
    sp = mon.sp
    c = fill(sp, gen.coefs(case))
    if case.get("tight"):
        try:
            sp.ispht(c, case["nrows"], case["ncols"])
        except ValueError:
            mon.ok("tight-rejected")
        return
    if case["nrows"] is None and case["ncols"] is None:
        mon.call(sp.ispht, c)
    elif case["seed"] % 3 == 0:
        mon.call(sp.ispht, c, nrows=case["nrows"], ncols=case["ncols"])
    elif case["seed"] % 3 == 1 and case["nrows"] == case["nmax"] + 2:
        mon.call(sp.ispht, c, ncols=case["ncols"])
    elif case["seed"] % 3 == 1 and case["ncols"] == 2 * case["mmax"] + 2:
        mon.call(sp.ispht, c, case["nrows"])
    else:
        mon.call(sp.ispht, c, case["nrows"], case["ncols"])
