"""C06: analysis of arbitrary antisymmetric fields against Gauss-Legendre quadrature of the interpolant."""
import numpy as np

from checks.C03 import FORMS, data, few, large
from rt import gen, judges
from rt.monitor import read_vc, resize

RULE = ("every grid up to a bound and random larger ones with arbitrary data in one or both components (random, single "
        "points, poles, rows, columns, Nyquist patterns, tiny, huge, exact zeros), each analysed with several sizes. "
        "Distinct by (requested size, grid, numbers of nonzero samples mod 97).")
MIN = {"vspht": 500, "vanalysis-1": 500, "vanalysis-2": 500, "linearity": 50}


def cases(tier, r, variant):
    big = tier == "thorough"
    for nr in range(3, 18 if big else 10):
        for nc in range(2, 24 if big else 14, 2):
            for form in (FORMS if big else [gen.pick(r, FORMS), "gauss"]):
                yield {"nrows": nr, "ncols": nc, "form": form, "which": gen.pick(r, [1, 2, 3, 3]),
                       "seed": gen.seed_of(r)}
    for _ in range(4000 if big else 300):
        yield {"nrows": int(r.randint(3, 40 if big else 26)), "ncols": 2 * int(r.randint(1, 20 if big else 14)),
               "form": gen.pick(r, FORMS), "which": gen.pick(r, [1, 2, 3, 3]), "seed": gen.seed_of(r)}
    for nr, nc in ([(150, 8), (257, 6), (70, 70)] if big else [(120, 6)]):
        yield {"nrows": nr, "ncols": nc, "form": "gauss", "which": 3, "seed": gen.seed_of(r)}
    for nr, nc in gen.ladder_grids(r, 11, 200 if big else 100, 300 if big else 150):
        yield {"nrows": nr, "ncols": nc, "form": gen.pick(r, FORMS), "which": gen.pick(r, [1, 2, 3, 3]),
               "seed": gen.seed_of(r)}
    for c in large(r, big):
        yield dict(c, which=gen.pick(r, [1, 2, 3, 3]))


def setup(mon):
    judges.Vector(mon, synth=False, analysis=True)


def run(case, mon):
    sp = mon.sp
    nr, nc = case["nrows"], case["ncols"]
    r = gen.rs(case["seed"] + 1)
    t = data(case["form"], nr, nc, case["seed"]) * (case["which"] & 1)
    f = data(case["form"], nr, nc, case["seed"] + 5) * (case["which"] >> 1)
    s = case["seed"] // 7
    if case["which"] == 3 and s % 5 == 0:       # components that depend on each other
        f = [t, t, -t, 1j * t, t.conj()][s // 5 % 5]
    if s % 3:
        k = s // 3
        t, f = gen.layout(t, k), (gen.layout(f, k // 2) if f is not t else None)
        p = mon.call(sp.TransversePatternUniform, t, t if f is None else f)
    else:
        q = sp.TransversePatternUniform(t, f)
        t2, f2 = [gen.layout(np.array(x), s // 3) for x in q.doublesphere]
        p = mon.call(sp.TransversePatternUniform, t2, t2 if f is t else f2, doublesphere=True)
    hi_n, hi_m = nr - 2, nc // 2 - 1
    top = (hi_n, min(hi_n, hi_m))
    F = np.array(read_vc(mon.call(sp.vspht, p, *top)))
    big = max(float(np.max(np.abs(d))) for d in p.doublesphere) or 1.0
    tol = 8 * judges.EPS * big * (1 + hi_n / 50.0)
    reqs = judges.requests(r, *(top + (nr, nc)))
    for (n, m) in (reqs[1:] if nr * nc < 1000 else few(reqs, r, hi_n, hi_m)):
        c = read_vc(mon.call(sp.vspht, p, n, m))
        n2, m2 = c[0].shape[0] - 1, (c[0].shape[1] - 1) // 2
        if n2 <= top[0] and m2 <= top[1]:
            mon.close(np.array(c), np.array([resize(F[0], n2, m2), resize(F[1], n2, m2)]), tol, "depends-on-size",
                      "analysis with other sizes (%d, %d) than %s" % (n2, m2, top), None)
    if nr <= 40:
        q = sp.TransversePatternUniform(data("gauss", nr, nc, case["seed"] + 7) * big,
                                        data("gauss", nr, nc, case["seed"] + 8) * big)
        z = complex(1.5, -0.5)
        G = np.array(read_vc(mon.call(sp.vspht, q, *top)))
        H = np.array(read_vc(mon.call(sp.vspht, mon.call(lambda: p * 2.0 + q * z), *top)))
        mon.close(H, 2.0 * F + z * G, 8 * tol, "linearity", "analysis of 2 p + z q", None)
