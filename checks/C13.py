"""C13: pattern construction and the symmetry predicate against a pointwise model."""
import numpy as np

from rt import gen
from rt.monitor import Violation, read_sp, read_tp

RULE = ("arrays of every shape up to a bound and random larger ones (2 rows and up), complex, real and integer, in C, "
        "Fortran, strided and read-only layout, with zeros at the poles and elsewhere, tiny and huge values; double "
        "spheres with one or several violated points anywhere in either component. Distinct by (class, shape, layout, "
        "value class, what was violated).")
ROUNDS = {"quick": 3}
MIN = {"construction": 500, "predicate-true": 300, "predicate-false": 300, "asymmetry": 500, "double_sphere": 100}
LAYOUTS = ["c", "f", "strided", "readonly", "real", "int", "float32", "reversed", "complex64", "int8", "uint8", "int16",
           "bool"]
KINDS = [k for k in gen.KINDS if k != "faint"]        # quotients of denormal numbers


def cases(tier, r, variant):
    big = tier == "thorough"
    for rep in range(25 if big else 2):
        for nr in range(2, 9):
            for nc in range(2, 11, 2):
                for vec in (0, 1):
                    yield {"nr": nr, "nc": nc, "vec": vec, "kind": gen.pick(r, KINDS), "seed": gen.seed_of(r)}
        for _ in range(100):
            yield {"nr": int(r.randint(2, 24)), "nc": 2 * int(r.randint(1, 18)), "vec": int(r.randint(2)),
                   "kind": gen.pick(r, KINDS), "seed": gen.seed_of(r)}
        for nr, nc in gen.ladder_grids(r, 9, 130, 160) if rep % 5 == 0 else ():
            yield {"nr": nr, "nc": nc, "vec": int(r.randint(2)), "kind": gen.pick(r, KINDS), "seed": gen.seed_of(r)}
        for nr, nc in ((60, 70), (129, 40), (33, 256), (2, 600), (300, 2)):
            yield {"nr": nr, "nc": nc, "vec": int(r.randint(2)), "kind": gen.pick(r, KINDS), "seed": gen.seed_of(r)}


def layout(r, a, how):
    if how == "f":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.zeros((2 * a.shape[0], 3 * a.shape[1]), a.dtype) + 9
        b[::2, ::3] = a
        return b[::2, ::3]
    if how == "readonly":
        a = a.copy()
        a.flags.writeable = False
        return a
    if how == "real":
        return np.array(a.real)
    if how == "int":
        return np.array(np.round(np.clip(a.real, -1e6, 1e6)), dtype=int)
    if how == "float32":
        return np.array(np.clip(a.real, -1e30, 1e30), dtype=np.float32)
    if how == "complex64":
        with np.errstate(all="ignore"):
            return (np.clip(a.real, -1e30, 1e30) + 1j * np.clip(a.imag, -1e30, 1e30)).astype(np.complex64)
    if how in ("int8", "uint8", "int16"):       # images and measurements of few bits, up to the largest value
        i = np.iinfo(how)
        b = r.randint(i.min, i.max + 1, size=a.shape)
        return np.where(a == 0, 0, b).astype(how)
    if how == "bool":
        return a.real > 0
    if how == "reversed":
        return a[::-1].copy()[::-1]
    return a


def merge(s, t):
    """what becomes of two values that should be equal: a zero counts as missing"""
    return np.where((s == 0) | (t == 0), s + t, (s + t) / 2)


def partner(d, sym):
    return sym * np.roll(np.roll(d[::-1], 1, axis=0), -(d.shape[1] // 2), axis=1)


def model(a, sym):
    a = np.asarray(a).astype(np.complex128)
    nr, nc = a.shape
    d = np.concatenate([a, np.zeros((nr - 2, nc), np.complex128)])
    return merge(partner(d, sym), d)


def worst(d, sym):
    s = partner(d, sym)
    with np.errstate(all="ignore"):
        v = np.where(s != 0, np.abs((s - d) / np.where(s != 0, s, 1)), np.where(d != 0, 1.0, 0.0))
    return float(np.max(v)) if v.size else 0.0


def dataset(r, kind, nr, nc):
    a = gen.values(kind, (nr, nc), r.randint(2 ** 31))
    t = r.randint(7)
    if t == 0:
        a[0] = 0
    elif t == 1:
        a[-1] = 0
    elif t == 2:                     # half of the pole values missing
        a[0, nc // 2:] = 0
        a[-1, :nc // 2] = 0
    elif t == 3:
        a[r.uniform(size=a.shape) < 0.4] = 0
    elif t == 4:                     # values of every magnitude side by side, up to the smallest
        a = gen.values("gauss", (nr, nc), r.randint(2 ** 31)) * 10.0 ** -r.uniform(0, 290, size=a.shape)
    elif t == 5:
        a[0] *= 10.0 ** -r.uniform(0, 250, size=nc)
        a[-1] *= 10.0 ** -r.uniform(0, 250, size=nc)
    return a


def same(mon, got, want, key, what, state=None):
    if got.shape != want.shape or got.dtype != np.complex128:
        raise Violation(key, "%s: %s %s instead of %s" % (what, got.dtype, got.shape, want.shape))
    # interior values exactly; the mean at the poles may be rounded in another order
    bad = ~(np.abs(got - want) <= 4e-16 * np.abs(want) + 5e-324)
    if bad.any():
        i = tuple(int(j[0]) for j in np.nonzero(bad))
        raise Violation(key, "%s: at %s got %r, expected %r" % (what, i, got[i], want[i]))
    mon.ok(key, state)


def run(case, mon):
    sp = mon.sp
    r = gen.rs(case["seed"])
    nr, nc, vec = case["nr"], case["nc"], case["vec"]
    how = gen.pick(r, LAYOUTS)
    sym = -1 if vec else 1
    ins = [layout(r, dataset(r, case["kind"], nr, nc), how) for _ in range(2 if vec else 1)]
    keep = [np.array(x) for x in ins]
    what = "%s pattern from a %dx%d array (%s, %s)" % ("vector" if vec else "scalar", nr, nc, how, case["kind"])
    st = (vec, nr, nc, how, case["kind"])
    if vec:
        p = mon.call(sp.TransversePatternUniform, *ins)
        t, f, td, fd = read_tp(p)
        grids, doubles = [t, f], [td, fd]
        pair = mon.call(sp.array, p)
        if not (np.array_equal(pair[0], t) and np.array_equal(pair[1], f)):
            raise Violation("construction", what + ": sp.array differs")
        if not (np.array_equal(p.theta_double, td) and np.array_equal(p.phi_double, fd)):
            raise Violation("construction", what + ": theta_double/phi_double differ from doublesphere")
    else:
        p = mon.call(sp.ScalarPatternUniform, *ins)
        a, d = read_sp(p)
        grids, doubles = [a], [d]
        if not np.array_equal(mon.call(sp.array, p), a):
            raise Violation("construction", what + ": sp.array differs")
    if (p.nrows, p.ncols) != (nr, nc):
        raise Violation("construction", what + ": has %s" % ((p.nrows, p.ncols),))
    for x, k in zip(ins, keep):
        if not np.array_equal(x, k):
            raise Violation("construction", what + ": changed its argument")
    for k, (g, d) in enumerate(zip(grids, doubles)):
        if not np.array_equal(g[1:-1], keep[k][1:-1].astype(np.complex128)):
            raise Violation("construction", what + ": changed values away from the poles")
        same(mon, d, model(keep[k], sym), "construction", what, st)
        for fn, x, w in ((sp.continue_sphere, ins[k], model(keep[k], sym)),):
            same(mon, mon.call(fn, x, sym), w, "construction", "continue_sphere %dx%d" % (nr, nc))
    predicate(mon, p, doubles, sym, vec, what, st)
    # idempotent: the grid of a pattern makes the same pattern
    q = mon.call(sp.TransversePatternUniform, *grids) if vec else mon.call(sp.ScalarPatternUniform, *grids)
    for d, e in zip(doubles, q.doublesphere if vec else [q.doublesphere]):
        same(mon, np.array(e), d, "construction", what + " built again from its own grid")
    # double_sphere on any data
    g = gen.values(case["kind"], (2 * nr - 2, nc), case["seed"] + 3)
    g[r.uniform(size=g.shape) < 0.2] = 0
    same(mon, mon.call(sp.double_sphere, g.copy(), sym), merge(partner(g, sym), g), "double_sphere",
         "double_sphere of a %dx%d array, sym %d" % (2 * nr - 2, nc, sym), (sym, nr, nc))
    # violations of the symmetry
    for trial in range(8):
        es = [d.copy() for d in doubles]
        alike = trial == 3 and vec
        if alike:                       # components that differ at one place only
            es[1] = es[0].copy()
        if trial == 4:                  # next to the smallest numbers
            es = [np.array(model(gen.values("gauss", (nr, nc), case["seed"] + 9 + k), sym)) * gen.pick(r, [1e-303, 1e-300, 1e300])
                  for k in range(len(es))]
        which = int(r.randint(len(es)))
        e = es[which]
        n = int(gen.pick(r, [0, nr - 1, r.randint(2 * nr - 2), r.randint(2 * nr - 2)]))
        m = int(gen.pick(r, [0, nc - 1, r.randint(nc)]))
        mode = gen.pick(r, ["relative", "replace", "zero", "phase", "all"]) if trial < 5 else "spots"
        if mode == "spots":             # several violations of different sizes, values without a partner among them
            top = float(np.max(np.abs(e)) or 1)
            for _ in range(int(r.randint(2, 6))):
                u, v = int(r.randint(2 * nr - 2)), int(r.randint(nc))
                e[u, v] = gen.pick(r, [0, e[u, v] * 10.0 ** r.uniform(-3, 3), top * complex(r.normal(), r.normal())])
        elif mode == "relative":
            e[n, m] *= 1 + 10.0 ** -r.uniform(0, 11)
        elif mode == "replace":
            e[n, m] = complex(r.normal(), r.normal()) * float(np.max(np.abs(e)) or 1)
        elif mode == "zero":
            e[n, m] = 0
        elif mode == "phase":
            e[n, m] *= np.exp(1j * 10.0 ** -r.uniform(0, 11))
        else:
            e += gen.values("gauss", e.shape, case["seed"] + trial) * float(np.max(np.abs(e)) or 1)
        q = (sp.TransversePatternUniform if vec else sp.ScalarPatternUniform)(*es, doublesphere=True)
        predicate(mon, q, es, sym, vec, what + " violated at (%d, %d) of component %d (%s%s)" % (
            n, m, which, mode, ", components alike" if alike else ", extreme" if trial == 4 else ""), st + (mode, which))


def predicate(mon, p, doubles, sym, vec, what, st):
    vals = [worst(d, sym) for d in doubles]
    sv = mon.call(lambda: p.single_val)
    sv = list(sv) if vec else [sv]
    if len(sv) != len(vals):
        raise Violation("asymmetry", "%s: single_val is %r" % (what, sv))
    for g, w in zip(sv, vals):
        if not abs(float(g) - w) <= 1e-9 * w + 1e-15 and not (np.isinf(w) and np.isinf(g)):
            raise Violation("asymmetry", "%s: single_val %r, the largest relative violation is %r" % (what, sv, vals))
    mon.ok("asymmetry", st)
    sy = mon.call(lambda: p.is_symmetric)
    if max(vals) <= 1e-15:
        mon.check(bool(sy) is True, "predicate-true", lambda: "%s: called asymmetric, asymmetry %r" % (what, vals), st)
    elif max(vals) >= 1e-12:
        mon.check(bool(sy) is False, "predicate-false", lambda: "%s: called symmetric, asymmetry %r" % (what, vals),
                  st)
