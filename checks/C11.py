"""C11: coefficient arithmetic against elementwise arithmetic on the dense arrays."""
import operator

import numpy as np

from rt import gen
from rt.monitor import Violation, dense_mask, fill, fill_v, read_sc, read_vc, tri

RULE = ("pairs of objects of every size up to a bound and random larger ones, value classes, every operator, numbers "
        "of every Python and numpy type on either side, chains of operations, mismatched sizes (including sizes with "
        "the same number of coefficients), other types and zero divisors. Distinct by (operator, operand kinds, size).")
ROUNDS = {"quick": 2}
MIN = {"result": 1500, "operands-unchanged": 1500, "rejected": 400}
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}
INPLACE = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv}


def cases(tier, r, variant):
    big = tier == "thorough"
    for rep in range(30 if big else 2):
        for nmax in range(0, 7):
            for mmax in range(0, nmax + 1):
                for vec in (0, 1):
                    yield {"nmax": nmax, "mmax": mmax, "vec": vec, "kind": gen.pick(r, gen.KINDS),
                           "seed": gen.seed_of(r)}
        for _ in range(80):
            nmax, mmax = gen.rand_size(r, 24)
            yield {"nmax": nmax, "mmax": mmax, "vec": int(r.randint(2)), "kind": gen.pick(r, gen.KINDS),
                   "seed": gen.seed_of(r)}
        for nmax, mmax in gen.ladder_coefs(r, 7, 130, 40, 5) if rep % 5 == 0 else ():
            yield {"nmax": nmax, "mmax": mmax, "vec": int(r.randint(2)), "kind": gen.pick(r, gen.KINDS),
                   "seed": gen.seed_of(r)}
        for nmax, mmax in ((40, 40), (110, 5), (50, 21), (260, 2), (1100, 0), (65, 64)):
            for vec in (0, 1):
                yield {"nmax": nmax, "mmax": mmax, "vec": vec, "kind": gen.pick(r, gen.KINDS), "seed": gen.seed_of(r)}


def number(r):
    z = complex(r.normal(), r.normal())
    return gen.pick(r, [2, -3, True, 0.5, float(z.real), z, 1e-20, 3e10j, np.float64(z.real), np.complex128(z),
                        np.int64(7), np.float32(0.25), 2.0 ** -900, -1e-290, 1e-270j, np.float64(5e-301), 1e200])


def identity(r):
    """numbers for which an operation could be skipped"""
    return gen.pick(r, [0, 1, -1, 0.0, 1.0, -1.0, -0.0, True, False, 0j, 1 + 0j, 1j, np.float64(0), np.float64(1),
                        np.int64(0), np.int64(1), np.complex128(1), np.complex128(0), np.float32(1), np.int64(-1)])


def nearly(r):
    """numbers close to those, or close to a real or an imaginary number, without being one"""
    e = gen.pick(r, [1e-6, -1e-9, 1e-11, -1e-13])
    return gen.pick(r, [1 + e, e - 1, e, 1 + 1j * e, 1j * e - 1, 1j + e, 3.5 + 1j * e, np.complex128(1 + 1j * e), np.float64(1 - e)])


def zero(r):
    return gen.pick(r, [0, 0.0, -0.0, 0j, False, np.float64(0.0), np.complex128(0.0), np.int64(0)])


def twin_sizes(nmax, mmax):
    """another (nmax, mmax) with the same number of coefficients"""
    L = len(tri(nmax, mmax))
    for n in range(0, L):
        for m in range(0, n + 1):
            if (n, m) != (nmax, mmax) and n + 1 + m * (2 * n - m + 1) == L:
                return n, m
    return None


def near(mon, got, want, key, what, state):
    """elementwise agreement, infinities and not-a-numbers where the reference has them"""
    if got.shape != want.shape:
        raise Violation(key, "%s: size %s instead of %s" % (what, got.shape, want.shape))
    fin = np.isfinite(want)
    bad = np.where(fin, ~(np.abs(got - want) <= 4e-15 * np.abs(want) + 1e-310), np.isfinite(got))
    if bad.any():
        i = tuple(int(j[0]) for j in np.nonzero(bad))
        raise Violation(key, "%s: at %s got %r, expected %r" % (what, i, got[i], want[i]))
    mon.ok(key, state)


def run(case, mon):
    sp = mon.sp
    r = gen.rs(case["seed"])
    nmax, mmax, vec = case["nmax"], case["mmax"], case["vec"]
    mask = dense_mask(nmax, mmax)

    def make(seed, kind):
        q = gen.rs(seed + 3)
        A = gen.rescaled(gen.coefs(dict(case, seed=seed, kind=kind)), q)
        if not vec:
            return fill(sp, A), [A]
        B = gen.rescaled(gen.coefs(dict(case, seed=seed + 1, kind=kind)), q)
        A[0], B[0] = 0, 0
        return fill_v(sp, A, B), [A, B]

    def read(x):
        if type(x) is not (sp.VectorCoefs if vec else sp.ScalarCoefs):
            raise Violation("result", "the result is a %s" % type(x).__name__)
        return list(read_vc(x)) if vec else [read_sc(x)]

    def expect(f, xs, ys):
        out = []
        for x, y in zip(xs, ys):
            w = np.where(mask, f(np.where(mask, x, 1), np.where(mask, y, 1)), 0)
            if vec:
                w[0] = 0            # no monopole
            out.append(np.asarray(w, np.complex128))
        return out
    a, A = make(case["seed"], case["kind"])
    b, B = make(case["seed"] + 99, gen.pick(r, gen.KINDS))
    if r.randint(3) == 0:               # operands that nearly cancel, or do so in places
        d = gen.pick(r, [2.0 ** -52, -2.0 ** -51, 3e-16, 1e-13, 1e-9, 0])
        f = [1 + d * r.randint(0, 3, size=x.shape) for x in A]
        B = [gen.pick(r, [1, -1]) * x * y for x, y in zip(A, f)]
        b = fill_v(sp, *B) if vec else fill(sp, *B)
    kept = []
    for name, f, z in [(o, f, k(r)) for o, f in sorted(OPS.items()) for k in (number, identity, nearly)]:
        zs = [np.broadcast_to(z, mask.shape)] * 2
        plain = isinstance(z, (int, float, complex)) and not isinstance(z, np.generic)
        todo = [("obj%sobj" % name, lambda: f(a, b), expect(f, A, B)),
                ("self%sself" % name, lambda: f(a, a), expect(f, A, A)),
                ("augmented%s" % name, lambda: INPLACE[name](a, b), expect(f, A, B))]
        zz = z if plain else complex(z)
        if z != 0 or name != "/":
            todo.append(("obj%snumber" % name, lambda: f(a, z), expect(f, A, zs)))
            todo.append(("augmented%snumber" % name, lambda: INPLACE[name](a, z), expect(f, A, zs)))
        todo.append(("number%sobj" % name, lambda: f(zz, a), expect(f, [np.broadcast_to(zz, mask.shape)] * 2, A)))
        for tag, g, want in todo:
            what = "%s %s nmax=%d mmax=%d, number %r (%s)" % ("vector" if vec else "scalar", tag, nmax, mmax, z,
                                                             type(z).__name__)
            res = mon.call(g)
            got = read(res)
            for i, (x, w) in enumerate(zip(got, want)):
                near(mon, x, w, "result", what + (" set %d" % (i + 1)), (tag, vec, nmax, mmax, type(z).__name__))
            if res is a or res is b:
                raise Violation("result", what + ": returned an operand")
            for o, O in ((a, A), (b, B)):
                if not all(np.array_equal(x, y) for x, y in zip(read(o), O)):
                    raise Violation("operands-unchanged", what + ": changed an operand")
            kept.append((what, g(), want))
            # the result is independent of the operands
            if nmax > 0:
                (res.scoef2 if vec else res)[nmax, 0] = 777.0
                if not all(np.array_equal(x, y) for o, O in ((a, A), (b, B)) for x, y in zip(read(o), O)):
                    raise Violation("operands-unchanged", what + ": the result shares memory with an operand")
            mon.ok("operands-unchanged")
    if nmax > 0:            # nor do earlier results follow later changes of an operand
        u, v = a.copy(), b.copy()
        for o in (a, b):
            for s in ([o.scoef1, o.scoef2] if vec else [o]):
                for n in range(nmax + 1):
                    s[n, 0] = 555.0
                s[nmax, :] = np.full(2 * min(nmax, mmax) + 1, -444.0)
        for what, res, want in kept:
            for x, w in zip(read(res), want):
                near(mon, x, w, "operands-unchanged", what + ", after its operands were changed", None)
        a, b = u, v
    # a chain: ((a + b) * z - a) / w
    z, w = complex(r.normal(), 1.0), 2.0
    got = read(mon.call(lambda: ((a + b) * z - a) / w))
    for x, p, q in zip(got, A, B):
        mon.close(x, (((p + q) * z - p) / w) * mask, 1e-14 * (1 + float(np.max(np.abs(p)) + np.max(np.abs(q))) * 4),
                  "chain", "((a + b) z - a) / w", None)
    # refusals
    others = [make_other(sp, vec, nmax + 1, mmax), make_other(sp, vec, nmax + 1, mmax + 1)]
    if mmax:
        others.append(make_other(sp, vec, nmax, mmax - 1))
    if mmax < nmax:
        others.append(make_other(sp, vec, nmax, mmax + 1))
    t = twin_sizes(nmax, mmax)
    if t:
        others.append(make_other(sp, vec, *t))
    for o in others:
        for name, f in sorted(OPS.items()):
            mon.raises(ValueError, "rejected", f, a, o)
            mon.raises(ValueError, "rejected", f, o, a)
    strangers = [None, "x", [1], {}, object(), sp.zeros_patt_uniform(4, 4), make_other(sp, 1 - vec, nmax, mmax)]
    for o in strangers:
        for name, f in sorted(OPS.items()):
            mon.raises(TypeError, "rejected", f, a, o)
            if not isinstance(o, str):
                mon.raises(TypeError, "rejected", f, o, a)
    mon.raises(ZeroDivisionError, "rejected", operator.truediv, a, zero(r))
    mon.raises(ZeroDivisionError, "rejected", operator.itruediv, a, zero(r))
    mon.call(operator.truediv, a, gen.pick(r, [5e-324, -1e-310, 1e-320j, np.float64(2e-308)]))      # not zero
    if not all(np.array_equal(x, y) for x, y in zip(read(a), A)):
        raise Violation("operands-unchanged", "a refused operation changed its operand")


def make_other(sp, vec, nmax, mmax):
    return sp.ones_coefs(nmax, mmax, coef_type=sp.vector if vec else sp.scalar)
