"""C12: pattern arithmetic against pointwise arithmetic on grid and continuation, and linearity of the transforms."""
import numpy as np

from checks.C11 import INPLACE, OPS, identity, nearly, number, zero
from rt import gen
from rt.monitor import Violation, read_sc, read_sp, read_tp, read_vc

RULE = ("pairs of scalar and of vector patterns of every shape up to a bound and random larger ones, made from grid "
        "data, by factories, by synthesis and by earlier arithmetic; every operator, numbers of every Python and numpy "
        "type on either side, mismatched shapes (including transposed and equal-sized ones), other types and zero "
        "divisors; transforms of sums and multiples. Distinct by (operator, operand kinds, shape).")
ROUNDS = {"quick": 6}
MIN = {"result": 1500, "operands-unchanged": 1500, "rejected": 400, "linearity": 60}
SOURCES = ["array", "factory", "synthesis", "sum"]


def cases(tier, r, variant):
    big = tier == "thorough"
    for rep in range(12 if big else 1):
        for nr in range(3, 9):
            for nc in range(2, 11, 2):
                for vec in (0, 1):
                    yield one(r, nr, nc, vec)
        for _ in range(80):
            yield one(r, int(r.randint(3, 22)), 2 * int(r.randint(1, 16)), int(r.randint(2)))
        for nr, nc in gen.ladder_grids(r, 9, 80, 120):
            yield one(r, nr, nc, int(r.randint(2)))
        for nr, nc in ((60, 70), (35, 130), (130, 34), (9, 520), (260, 10)):
            yield one(r, nr, nc, int(r.randint(2)))


def one(r, nr, nc, vec):
    return {"nr": nr, "nc": nc, "vec": vec, "src": [gen.pick(r, SOURCES), gen.pick(r, SOURCES)],
            "kind": [gen.pick(r, gen.KINDS), gen.pick(r, gen.KINDS)], "seed": gen.seed_of(r)}


def build(sp, vec, src, kind, nr, nc, seed):
    r = gen.rs(seed)
    a, b = gen.rescaled(gen.values(kind, (nr, nc), seed), r), gen.rescaled(gen.values(kind, (nr, nc), seed + 1), r)
    t = sp.vector if vec else sp.scalar
    if src == "array":
        return sp.TransversePatternUniform(a, b) if vec else sp.ScalarPatternUniform(a)
    if src == "factory":
        np.random.seed(seed % (2 ** 32))
        return gen.pick(r, [sp.zeros_patt_uniform, sp.random_patt_uniform] +
                        ([] if vec else [sp.ones_patt_uniform]))(nr, nc, patt_type=t)
    if src == "synthesis":
        np.random.seed(seed % (2 ** 32))
        c = sp.random_coefs(nr - 2, min(nr - 2, nc // 2 - 1), coef_type=t)
        return (sp.vispht if vec else sp.ispht)(c, nr, nc)
    p = build(sp, vec, "array", kind, nr, nc, seed + 5)
    return p + p * 0.5


def near(mon, got, want, key, what, state):
    if got.shape != want.shape:
        raise Violation(key, "%s: shape %s instead of %s" % (what, got.shape, want.shape))
    fin = np.isfinite(want)
    bad = np.where(fin, ~(np.abs(got - want) <= 4e-15 * np.abs(want) + 1e-310), np.isfinite(got))
    if bad.any():
        i = tuple(int(j[0]) for j in np.nonzero(bad))
        raise Violation(key, "%s: at %s got %r, expected %r" % (what, i, got[i], want[i]))
    mon.ok(key, state)


def run(case, mon):
    sp = mon.sp
    r = gen.rs(case["seed"])
    vec, nr, nc = case["vec"], case["nr"], case["nc"]
    cls = sp.TransversePatternUniform if vec else sp.ScalarPatternUniform

    def read(p):
        """[(grid, double sphere)] per component"""
        if type(p) is not cls:
            raise Violation("result", "the result is a %s" % type(p).__name__)
        if vec:
            t, f, td, fd = read_tp(p)
            return [(t, td), (f, fd)]
        return [read_sp(p)]

    a = build(sp, vec, case["src"][0], case["kind"][0], nr, nc, case["seed"])
    b = build(sp, vec, case["src"][1], case["kind"][1], nr, nc, case["seed"] + 77)
    A, B = read(a), read(b)
    A, B = [x[1] for x in A], [x[1] for x in B]
    if r.randint(4) == 0:               # operands that nearly cancel
        b = a * (gen.pick(r, [1, -1]) * (1 + gen.pick(r, [0, 2.0 ** -52, -2.0 ** -51, 1e-13])))
        B = [x[1] for x in read(b)]
    kept = []
    for name, f, z in [(o, f, k(r)) for o, f in sorted(OPS.items()) for k in (number, identity, nearly)]:
        plain = isinstance(z, (int, float, complex)) and not isinstance(z, np.generic)
        zz = z if plain else complex(z)
        todo = [("obj%sobj" % name, lambda: f(a, b), [f(x, y) for x, y in zip(A, B)]),
                ("self%sself" % name, lambda: f(a, a), [f(x, x) for x in A]),
                ("augmented%s" % name, lambda: INPLACE[name](a, b), [f(x, y) for x, y in zip(A, B)]),
                ("number%sobj" % name, lambda: f(zz, a), [f(zz, x) for x in A])]
        if z != 0 or name != "/":
            todo.append(("obj%snumber" % name, lambda: f(a, z), [f(x, z) for x in A]))
            todo.append(("augmented%snumber" % name, lambda: INPLACE[name](a, z), [f(x, z) for x in A]))
        for tag, g, want in todo:
            what = "%s %s on %dx%d (%s), number %r (%s)" % ("vector" if vec else "scalar", tag, nr, nc, case["src"],
                                                           z, type(z).__name__)
            res = mon.call(g)
            for i, ((x, d), w) in enumerate(zip(read(res), want)):
                near(mon, d, w, "result", what + " component %d, double sphere" % i,
                     (tag, vec, nr, nc, type(z).__name__, tuple(case["src"])))
                near(mon, x, w[:nr], "result", what + " component %d" % i, None)
            if res is a or res is b:
                raise Violation("result", what + ": returned an operand")
            for o, O in ((a, A), (b, B)):
                if not all(np.array_equal(x[1], y) for x, y in zip(read(o), O)):
                    raise Violation("operands-unchanged", what + ": changed an operand")
            kept.append((what, g(), want))
            for arr in (res.array if vec else (res.array,)):
                if arr.flags.writeable:
                    arr[0, 0] = 777.0
            for o, O in ((a, A), (b, B)):
                if not all(np.array_equal(x[1], y) for x, y in zip(read(o), O)):
                    raise Violation("operands-unchanged", what + ": the result shares memory with an operand")
            mon.ok("operands-unchanged")
    # earlier results do not follow later changes of an operand
    wr = [arr for o in (a, b) for arr in (o.array if vec else (o.array,)) if arr.flags.writeable]
    old = [arr.copy() for arr in wr]
    for arr in wr:
        arr[:] = 555.0
    for what, res, want in kept:
        for (x, d), w in zip(read(res), want):
            near(mon, d, w, "operands-unchanged", what + ", after its operands were changed", None)
    for arr, o in zip(wr, old):
        arr[:] = o
    # linear combinations commute with the transforms
    if nc // 2 - 1 >= 0 and nr >= 3:
        m = min(nr - 2, nc // 2 - 1)
        T = sp.vspht if vec else sp.spht
        rd = (lambda c: np.array(read_vc(c))) if vec else (lambda c: read_sc(c))
        z, w = complex(r.normal(), r.normal()), float(r.normal())
        ca, cb = rd(mon.call(T, a, nr - 2, m)), rd(mon.call(T, b, nr - 2, m))
        big = max([float(np.max(np.abs(x))) for x in A + B])
        for tag, q, want in (("z a + b w", lambda: z * a + b * w, z * ca + cb * w), ("a - b", lambda: a - b, ca - cb),
                             ("a / z", lambda: a / z, ca / z), ("b - a w", lambda: b - a * w, cb - ca * w)):
            got = rd(mon.call(T, mon.call(q), nr - 2, m))
            scale = big * (1 + abs(z) + abs(w) + 1 / abs(z))
            mon.close(got, want, 1e-12 * scale, "linearity", "transform of %s on %dx%d" % (tag, nr, nc),
                      (tag, vec, nr, nc))
    # refusals
    t = sp.vector if vec else sp.scalar
    shapes = {(nr + 1, nc), (nr, nc + 2), (nr - 1, nc), (nr + 2, nc + 2), (nc // 2 + 1, 2 * nr - 2), (2, nc)}
    if nc > 2:
        shapes.add((nr, nc - 2))
    for s in sorted(shapes - {(nr, nc)}):
        if s[0] < 2:
            continue
        o = sp.zeros_patt_uniform(s[0], s[1], patt_type=t)
        for name, f in sorted(OPS.items()):
            mon.raises(ValueError, "rejected", f, a, o)
            mon.raises(ValueError, "rejected", f, o, a)
    for o in [None, "x", [1], {}, object(), sp.zeros_coefs(2, 2), sp.zeros_coefs(2, 2, coef_type=sp.vector),
              sp.zeros_patt_uniform(nr, nc, patt_type=sp.scalar if vec else sp.vector)]:
        for name, f in sorted(OPS.items()):
            mon.raises(TypeError, "rejected", f, a, o)
            if not isinstance(o, str):
                mon.raises(TypeError, "rejected", f, o, a)
    import operator
    mon.raises(ZeroDivisionError, "rejected", operator.truediv, a, zero(r))
    mon.raises(ZeroDivisionError, "rejected", operator.itruediv, a, zero(r))
    mon.call(operator.truediv, a, gen.pick(r, [5e-324, -1e-310, 1e-320j, np.float64(2e-308)]))      # not zero
    if not all(np.array_equal(x[1], y) for x, y in zip(read(a), A)):
        raise Violation("operands-unchanged", "a refused operation changed its operand")
