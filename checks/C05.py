"""C05: vector round trip; every analysis of a field that carries the tag of its synthesis is judged."""
import numpy as np

from rt import gen, judges
from rt.monitor import fill_v, read_tp, read_vc

RULE = ("every (nmax, mmax) up to a bound on least, larger and random grids, single modes of either set, random sizes "
        "and value classes, a few large ones; exact, default, truncated and padded requests. Distinct by (sizes, grid, "
        "requested sizes, counts of nonzero coefficients mod 97).")
MIN = {"vspht": 600, "vround-trip-1": 600, "vround-trip-2": 600, "vresynthesis": 50}


def cases(tier, r, variant):
    big = tier == "thorough"
    for c in gen.grid_sweep(r, 18 if big else 10, gen.KINDS):
        yield dict(c, which=gen.pick(r, [1, 2, 3, 3, 3]), rel=gen.pick(r, gen.RELS))
    for c in gen.singles(r, 24 if big else 10):
        if c["n"]:
            yield dict(c, which=1)
            yield dict(c, which=2)
    for c in gen.large(r, big, True):
        yield dict(c, which=gen.pick(r, [1, 2, 3, 3, 3]), rel=gen.pick(r, gen.RELS))
    for c in gen.ladder(r, big, 0.8):
        yield dict(c, which=gen.pick(r, [1, 2, 3, 3, 3]), rel=gen.pick(r, gen.RELS))
    for c in gen.random_grids(r, 6000 if big else 1500, 40 if big else 24):
        yield dict(c, which=gen.pick(r, [1, 2, 3, 3, 3]), rel=gen.pick(r, gen.RELS))
    for n in ([100, 200, 400] if big else [150]):
        yield {"nmax": n, "mmax": 2, "nrows": n + 2, "ncols": 6, "kind": "gauss", "which": 3, "seed": gen.seed_of(r)}
    for n in ([64, 110] if big else [48]):
        yield {"nmax": n, "mmax": n, "nrows": n + 2, "ncols": 2 * n + 2, "kind": "gauss", "which": 3,
               "seed": gen.seed_of(r)}


def setup(mon):
    judges.Vector(mon, synth=False, roundtrip=True)


def run(case, mon):
    sp = mon.sp
    r = gen.rs(case["seed"] + 1)
    A, B = gen.vcoefs(case)
    nmax, mmax = case["nmax"], case["mmax"]
    nr, nc = judges.grid_of(nmax, mmax, case["nrows"], case["ncols"])
    p = mon.call(sp.vispht, fill_v(sp, A, B), nr, nc)
    reqs = judges.requests(r, nmax, mmax, nr, nc)
    if nmax > 40:
        reqs = reqs[:1] + [q for q in reqs[1:] if r.randint(2)] + [(int(r.randint(0, 9)), 0)]
    for (n, m) in reqs:
        if n is None and m is None:
            mon.call(sp.vspht, p)
        elif n is None:
            mon.call(sp.vspht, p, mmax=m)
        elif m is None:
            mon.call(sp.vspht, p, n)
        elif r.randint(2):
            mon.call(sp.vspht, p, n, m)
        else:
            mon.call(sp.vspht, p, mmax=m, nmax=n)
    if nmax <= 40:
        t, f = read_tp(p)[:2]
        tol = 4 * judges.synth_tol(A, B) * (1 + nmax / 20.0)
        q = read_tp(mon.call(sp.vispht, mon.call(sp.vspht, p, nmax, mmax), nr, nc))
        mon.close(np.array(q[:2]), np.array([t, f]), tol, "vresynthesis",
                  "analysis and synthesis of a %dx%d field of nmax=%d mmax=%d" % (nr, nc, nmax, mmax), None)
        q = sp.TransversePatternUniform(np.array(t), np.array(f))
        C = read_vc(mon.call(sp.vspht, q, nmax, mmax))
        mon.close(np.array(C), np.array([A, B]), tol, "vround-trip-data",
                  "analysis of the bare data of a %dx%d field of nmax=%d mmax=%d" % (nr, nc, nmax, mmax), None)
