"""C15: norms, magnitudes and spectra against their definitions, and Parseval with an independent quadrature."""
import math

import numpy as np

from rt import gen
from rt.monitor import Violation, dense_mask, fill, fill_v, read_sc, read_sp, read_tp, tri

RULE = ("scalar and vector coefficients of every (nmax, mmax) up to a bound and random larger ones, patterns built from "
        "data, synthesis and arithmetic (also double spheres without symmetry), value classes including a single "
        "nonzero value anywhere; power against Clenshaw-Curtis integration of the synthesis. Distinct by (quantity, "
        "type, size, value class).")
MIN = {"norm": 500, "magnitude": 500, "spectrum": 100, "comparison": 100, "parseval": 100}
KINDS = [k for k in gen.KINDS if k not in ("faint", "vast")] + ["one", "zero"]


def cases(tier, r, variant):
    big = tier == "thorough"
    for rep in range(25 if big else 2):
        for nmax in range(0, 8):
            for mmax in range(0, nmax + 1):
                for vec in (0, 1):
                    yield {"nmax": nmax, "mmax": mmax, "vec": vec, "kind": gen.pick(r, KINDS), "seed": gen.seed_of(r)}
        for _ in range(100):
            nmax, mmax = gen.rand_size(r, 30)
            yield {"nmax": nmax, "mmax": mmax, "vec": int(r.randint(2)), "kind": gen.pick(r, KINDS),
                   "seed": gen.seed_of(r)}
        for nmax, mmax in gen.ladder_coefs(r, 8, 130, 50) if rep % 5 == 0 else ():
            yield {"nmax": nmax, "mmax": mmax, "vec": int(r.randint(2)), "kind": gen.pick(r, KINDS),
                   "seed": gen.seed_of(r)}
        for nmax, mmax in ((40, 40), (64, 33), (110, 3), (128, 2), (257, 1)):
            for vec in (0, 1):
                yield {"nmax": nmax, "mmax": mmax, "vec": vec, "kind": gen.pick(r, KINDS), "seed": gen.seed_of(r)}


def vals(kind, shape, seed):
    if kind == "one":
        r = gen.rs(seed)
        a = np.zeros(shape, np.complex128)
        a.flat[r.randint(a.size)] = complex(r.normal(), r.normal())
        return a
    if kind == "zero":
        return np.zeros(shape, np.complex128)
    return gen.values(kind, shape, seed)


def sumsq(*arrays):
    """sum of squared magnitudes, scaled: (scale, sum / scale^2)"""
    x = np.concatenate([np.abs(a).ravel() for a in arrays])
    s = float(np.max(x)) if x.size else 0.0
    if s == 0:
        return 0.0, 0.0
    return s, math.fsum(float(v) ** 2 for v in x / s)


def l2(*arrays):
    s, q = sumsq(*arrays)
    return s * math.sqrt(q)


def top(a):
    return float(np.max(np.abs(a)))


def rel(mon, got, want, kind, what, st, tol=1e-13):
    try:
        g = float(got)
    except Exception:
        raise Violation(kind, "%s: returned %r" % (what, got))
    if not abs(g - want) <= tol * abs(want):
        raise Violation(kind, "%s: %r, by definition %r" % (what, g, want))
    mon.worst[kind] = max(mon.worst.get(kind, 0), abs(g - want) / (tol * abs(want)) if want else 0)
    mon.ok(kind, (what.split(" of ")[0],) + st)


def pointwise(mon, got, want, what, st, tol=4e-15):
    got = np.asarray(got)
    if got.shape != want.shape:
        raise Violation("magnitude", "%s: shape %s instead of %s" % (what, got.shape, want.shape))
    if np.iscomplexobj(got) and np.any(got.imag != 0):
        raise Violation("magnitude", what + ": not real")
    bad = ~(np.abs(got - want) <= tol * np.abs(want) + 1e-320)
    if bad.any():
        i = tuple(int(j[0]) for j in np.nonzero(bad))
        raise Violation("magnitude", "%s: at %s got %r, expected %r" % (what, i, got[i], want[i]))
    mon.ok("magnitude", (what.split(" of ")[0],) + st)


def cc_weights(N):
    """Clenshaw-Curtis: integrates polynomials in cos(theta) of degree <= N over sin(theta) dtheta, nodes i pi / N"""
    w = np.zeros(N + 1)
    for k in range(N + 1):
        s = 1.0
        for j in range(1, N // 2 + 1):
            b = 1.0 if 2 * j == N else 2.0
            s -= b / (4.0 * j * j - 1) * math.cos(2 * j * k * math.pi / N)
        w[k] = (1.0 if k in (0, N) else 2.0) / N * s
    return w


def run(case, mon):
    sp = mon.sp
    nmax, mmax, vec, seed = case["nmax"], case["mmax"], case["vec"], case["seed"]
    st = (vec, nmax, mmax, case["kind"])
    mask = dense_mask(nmax, mmax)
    shape = mask.shape
    A = np.where(mask, vals(case["kind"], shape, seed), 0)
    B = np.where(mask, vals(case["kind"], shape, seed + 1), 0)
    C = np.where(mask, vals("gauss", shape, seed + 2) * (1 + top(A)), 0)
    tag = "%s nmax=%d mmax=%d (%s)" % ("vector" if vec else "scalar", nmax, mmax, case["kind"])
    lone = (seed >> 3) % 5 if vec else 0       # one of the two sets or components vanishes
    if lone == 1:
        A[:] = 0
    elif lone == 2:
        B[:] = 0
    if vec:
        A[0] = B[0] = 0
        c = fill_v(sp, A, B)
        rel(mon, mon.call(sp.L2_coef, c), l2(A, B), "norm", "L2_coef of " + tag, st)
        rel(mon, mon.call(sp.LInf_coef, c), math.hypot(top(A), top(B)), "norm", "LInf_coef of " + tag, st)
        m2 = np.abs(A) ** 2 + np.abs(B) ** 2
        pointwise(mon, read_sc(mon.call(sp.mag2, c)), m2, "mag2 of " + tag, st)
        pointwise(mon, read_sc(mon.call(sp.mag, c)), np.hypot(np.abs(A), np.abs(B)), "mag of " + tag, st)
        parts = [(c.scoef1, A, "set 1 of " + tag), (c.scoef2, B, "set 2 of " + tag)]
    else:
        c = fill(sp, A)
        parts = [(c, A, tag)]
    for s, D, t in parts:
        rel(mon, mon.call(sp.L2_coef, s), l2(D), "norm", "L2_coef of " + t, st)
        rel(mon, mon.call(sp.LInf_coef, s), top(D), "norm", "LInf_coef of " + t, st)
        for name, want in (("abs", np.abs(D)), ("mag", np.abs(D)), ("mag2", np.abs(D) ** 2)):
            q = mon.call(getattr(sp, name), s)
            if type(q) is not sp.ScalarCoefs or (q.nmax, q.mmax) != (nmax, mmax):
                raise Violation("magnitude", "%s of %s is a %s" % (name, t, type(q).__name__))
            pointwise(mon, read_sc(q), want, name + " of " + t, st)
        spec = np.asarray(mon.call(s.angular_power_spectrum))
        if spec.shape != (nmax + 1,):
            raise Violation("spectrum", "angular_power_spectrum of %s has shape %s" % (t, spec.shape))
        for n in range(nmax + 1):
            sc, q = sumsq(D[n])
            rel(mon, spec[n], q * sc * sc, "spectrum", "angular power spectrum at n = %d of %s" % (n, t), st)
        sc, q = sumsq(D)
        rel(mon, mon.call(s.power), q * sc * sc, "spectrum", "power of " + t, st)
        rel(mon, math.fsum(spec), q * sc * sc, "spectrum", "sum of the spectrum of " + t, st)
        other = fill(sp, C)
        if top(D) > 0:
            want = math.fsum(np.abs(D - C).ravel()) / math.fsum(np.abs(D).ravel())
            rel(mon, mon.call(sp.compare_relative, s, other), want, "comparison", "compare_relative of " + t, st)
            rel(mon, mon.call(sp.compare_relative, s, s), 0.0, "comparison", "compare_relative with itself of " + t,
                st)
        want = math.fsum(np.abs(D - C).ravel()) / math.fsum(np.abs(C).ravel())
        rel(mon, mon.call(sp.compare_relative, other, s), want, "comparison", "compare_relative to " + t, st)
        # one coefficient larger than all others, in every place or in many, and then one smaller
        at = [(n, m) for n in range(nmax + 1) for m in range(-min(n, mmax), min(n, mmax) + 1)]
        ends = [(nmax, 0), (nmax, -mmax), (nmax, mmax), (mmax, mmax), (mmax, -mmax), (0, 0)]
        q = gen.rs(seed + 5)
        if len(at) > 64:
            at = ends + [at[q.randint(len(at))] for _ in range(30)]
        D, s = D.copy(), s.copy()
        for n, m in at:
            old = D[n, m + mmax]
            v = gen.pick(q, [3.0, -1e3, 1e6j]) * (top(D) or 1.0)
            if vec and n == 0 or not np.isfinite(v * v * 4) or abs(v) < 1e-140:
                continue
            s[n, m] = D[n, m + mmax] = v
            rel(mon, mon.call(sp.LInf_coef, s), abs(v), "norm", "LInf_coef with the largest at %s of %s" % ((n, m), t), st)
            rel(mon, mon.call(sp.L2_coef, s), l2(D), "norm", "L2_coef with the largest at %s of %s" % ((n, m), t), st)
            rel(mon, mon.call(s.power), l2(D) ** 2, "spectrum", "power with the largest at %s of %s" % ((n, m), t), st)
            sc, z = sumsq(D[n])
            rel(mon, mon.call(s.angular_power_spectrum)[n], z * sc * sc, "spectrum",
                "spectrum with the largest at %s of %s" % ((n, m), t), st)
            other[n, m] = gen.pick(q, [1, -1, 1j]) * v
            E = C.copy()
            E[n, m + mmax] = other[n, m]
            rel(mon, mon.call(sp.compare_relative, s, other), math.fsum(np.abs(D - E).ravel()) / math.fsum(np.abs(D).ravel()),
                "comparison", "compare_relative with the largest at %s of %s" % ((n, m), t), st)
            other[n, m] = C[n, m + mmax]
            s[n, m] = D[n, m + mmax] = old
    # patterns
    r = gen.rs(seed)
    nr, nc = int(r.randint(2, nmax + 5)), 2 * int(r.randint(1, mmax + 4))
    a, b = vals(case["kind"], (nr, nc), seed + 3), vals(case["kind"], (nr, nc), seed + 4)
    src = int(r.randint(3))
    if src == 2:        # double sphere data as they are
        a, b = vals(case["kind"], (2 * nr - 2, nc), seed + 3), vals(case["kind"], (2 * nr - 2, nc), seed + 4)
    if lone == 1:
        b[:] = 0
    elif lone == 2:
        a[:] = 0
    st = (vec, nr, nc, case["kind"], src, lone)
    t = "%s pattern %dx%d (%s)" % ("vector" if vec else "scalar", nr, nc, case["kind"])
    if vec:
        p = sp.TransversePatternUniform(a, b, doublesphere=(src == 2))
        if src == 1:
            p = p + p * 0.5
        th, ph, td, pd = read_tp(p)
        rel(mon, mon.call(sp.L2_patt, p), l2(td, pd), "norm", "L2_patt of " + t, st)
        rel(mon, mon.call(sp.LInf_patt, p), math.hypot(top(td), top(pd)), "norm", "LInf_patt of " + t, st)
        pointwise(mon, mon.call(sp.mag2, p), np.abs(th) ** 2 + np.abs(ph) ** 2, "mag2 of " + t, st)
        pointwise(mon, mon.call(sp.mag, p), np.hypot(np.abs(th), np.abs(ph)), "mag of " + t, st)
    else:
        p = sp.ScalarPatternUniform(a, doublesphere=(src == 2))
        if src == 1:
            p = p + p * 0.5
        g, d = read_sp(p)
        rel(mon, mon.call(sp.L2_patt, p), l2(d), "norm", "L2_patt of " + t, st)
        rel(mon, mon.call(sp.LInf_patt, p), top(d), "norm", "LInf_patt of " + t, st)
        pointwise(mon, mon.call(sp.mag2, p), np.abs(g) ** 2, "mag2 of " + t, st)
        pointwise(mon, mon.call(sp.mag, p), np.abs(g), "mag of " + t, st)
        pointwise(mon, mon.call(sp.abs, p), np.abs(g), "abs of " + t, st)
    # one value larger than all others
    spots = [(i, j) for i in range(nr) for j in range(nc)]
    if len(spots) > 48:
        spots = [spots[0], spots[-1], spots[nc - 1], spots[-nc]] + [spots[r.randint(len(spots))] for _ in range(14)]
    for i, j in spots:
        e = a[:nr].copy()
        f = b[:nr].copy()
        v = gen.pick(r, [3.0, -1e3, 1e6j]) * (max(top(e), top(f)) or 1.0)
        if not np.isfinite(v * v * 4) or abs(v) < 1e-140:
            continue
        if vec and r.randint(2):
            f[i, j] = v
        else:
            e[i, j] = v
        u = "%s with the largest at %s" % (t, (i, j))
        p = sp.TransversePatternUniform(e, f) if vec else sp.ScalarPatternUniform(e)
        if vec:
            th, ph, td, pd = read_tp(p)
            two, inf, m2 = l2(td, pd), math.hypot(top(td), top(pd)), np.hypot(np.abs(th), np.abs(ph))
        else:
            g, d = read_sp(p)
            two, inf, m2 = l2(d), top(d), np.abs(g)
        rel(mon, mon.call(sp.LInf_patt, p), inf, "norm", "LInf_patt of " + u, st)
        rel(mon, mon.call(sp.L2_patt, p), two, "norm", "L2_patt of " + u, st)
        pointwise(mon, mon.call(sp.mag, p), m2, "mag of " + u, st)
    # Parseval
    if nmax <= 20:
        N = 2 * nmax + 2
        nr, nc = N + 1, 4 * mmax + 4
        w = cc_weights(N) * 2 * math.pi / nc
        if vec:
            q = mon.call(sp.vispht, c, nr, nc)
            scale = max(top(q.theta), top(q.phi)) or 1.0
            got = math.fsum((w[:, None] * (np.abs(q.theta / scale) ** 2 + np.abs(q.phi / scale) ** 2)).ravel())
            want = l2(A, B)
        else:
            q = mon.call(sp.ispht, c, nr, nc)
            scale = top(q.array) or 1.0
            got = math.fsum((w[:, None] * np.abs(q.array / scale) ** 2).ravel())
            want = l2(A)
        rel(mon, scale * math.sqrt(got), want, "parseval", "integral of the synthesis of " + tag, st, 1e-11)
        power = (c.scoef1.power() + c.scoef2.power()) if vec else c.power()
        rel(mon, power, want ** 2, "parseval", "power of " + tag, st, 1e-11)
