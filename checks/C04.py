"""C04: vector synthesis against the direct sum in extended precision, poles included."""
from rt import gen, judges
from rt.monitor import fill_v

RULE = ("every (nmax, mmax) up to a bound with least, larger and random grids; every single mode of either set up to "
        "a bound; random sizes and value classes; a few large degrees. Both components judged at every grid point; "
        "distinct by (nmax, mmax, grid, counts of nonzero coefficients mod 97).")
ROUNDS = {"quick": 2}
MIN = {"vispht": 300, "vsynthesis-theta": 300, "vsynthesis-phi": 300}


def cases(tier, r, variant):
    big = tier == "thorough"
    for c in gen.grid_sweep(r, 20 if big else 11, gen.KINDS):
        yield dict(c, which=gen.pick(r, [1, 2, 3, 3, 3]), rel=gen.pick(r, gen.RELS))
    for c in gen.singles(r, 26 if big else 12):
        if c["n"]:
            yield dict(c, which=1)
            yield dict(c, which=2)
    for c in gen.large(r, big, True):
        yield dict(c, which=gen.pick(r, [1, 2, 3, 3, 3]), rel=gen.pick(r, gen.RELS))
    for c in gen.ladder(r, big, 0.8):
        yield dict(c, which=gen.pick(r, [1, 2, 3, 3, 3]), rel=gen.pick(r, gen.RELS))
    for c in gen.random_grids(r, 8000 if big else 2500, 40 if big else 24):
        yield dict(c, which=gen.pick(r, [1, 2, 3, 3, 3]), rel=gen.pick(r, gen.RELS))
    for n in ([100, 200, 400] if big else [100]):
        for w in (1, 2):
            for m in (0, 1, -1, 2):
                yield {"nmax": n, "mmax": max(abs(m), 1), "nrows": None, "ncols": None, "kind": "single", "n": n,
                       "m": m, "which": w, "seed": 0}
    for n in ([48, 80] if big else [36]):
        yield {"nmax": n, "mmax": n, "nrows": n + 2, "ncols": 2 * n + 2, "kind": "gauss", "which": 3,
               "seed": gen.seed_of(r)}


def setup(mon):
    judges.Vector(mon, synth=True)


def run(case, mon):
    sp = mon.sp
    v = fill_v(sp, *gen.vcoefs(case))
    if case["nrows"] is None and case["ncols"] is None:
        mon.call(sp.vispht, v)
    elif case["seed"] % 4 == 1 and case["nrows"] == case["nmax"] + 2:
        mon.call(sp.vispht, v, ncols=case["ncols"])
    elif case["seed"] % 4 == 1 and case["ncols"] == 2 * case["mmax"] + 2:
        mon.call(sp.vispht, v, case["nrows"])
    elif case["seed"] % 2:
        mon.call(sp.vispht, v, case["nrows"], case["ncols"])
    else:
        mon.call(sp.vispht, v, ncols=case["ncols"], nrows=case["nrows"])
