"""C17: every combination in a box around the size limits, for every transform, constructor and factory."""
import numpy as np

from rt import gen
from rt.monitor import Violation, fill, fill_v, read_sc, read_sp, read_tp, read_vc, tri

RULE = ("exhaustive over a box: patterns of 2..7 rows (thorough 9) by 1..9 columns with requests -none-, 0..beyond the "
        "limits for nmax and mmax; coefficients of every size up to nmax 4 (6) with grids from 1 to beyond the limits "
        "in steps of one; vectors of every length around the right one; every factory; both backends. Distinct by "
        "(function, backend, sizes, outcome).")
ROUNDS = {"quick": 2}
MIN = {"accepted": 1500, "rejected": 3000, "no-effect": 100}
ARGS = "size"


def cases(tier, r, variant):
    big = tier == "thorough"
    for cext in (True, False):
        for nr in range(2, 10 if big else 8):
            for nc in range(1, 13 if big else 10):
                for fn in ("spht", "vspht", "spht_slow"):
                    if fn == "spht_slow" and not cext:
                        continue
                    yield {"op": "analysis", "fn": fn, "nr": nr, "nc": nc, "cext": cext}
        for nmax in range(0, 7 if big else 5):
            for mmax in range(0, nmax + 1):
                for fn in ("ispht", "vispht", "ispht_slow"):
                    if fn == "ispht_slow" and not cext:
                        continue
                    yield {"op": "synthesis", "fn": fn, "nmax": nmax, "mmax": mmax, "cext": cext}
    for nmax in range(0, 6):
        for mmax in range(0, nmax + 3):
            yield {"op": "coefs", "nmax": nmax, "mmax": mmax}
    for nr in range(2, 7):
        for nc in range(1, 8):
            yield {"op": "patterns", "nr": nr, "nc": nc}
    yield {"op": "types"}
    for k in range(3 if big else 1):
        for n in range(6, 61):
            yield {"op": "large", "nmax": n, "seed": gen.seed_of(r)}


def outcome(mon, f, good, size_of, want, name, st, either=False):
    """f() has to work and have the size `want`, or to raise ValueError"""
    mon.calls += 1
    try:
        res = f()
    except Violation:
        raise
    except ValueError as e:
        if good and not either:
            raise Violation("refused", "%s is permitted but raised ValueError: %s" % (name, e))
        mon.ok("rejected", st)
        return None
    except Exception as e:
        raise Violation("wrong-exception", "%s raised %s: %s%s" % (name, type(e).__name__, e,
                                                                  "" if good else " instead of ValueError"))
    if not good and not either:
        raise Violation("accepted", "%s is not permitted but was accepted (size %r)" % (name, size_of(res)))
    got = size_of(res)
    if got != want:
        raise Violation("size", "%s has size %r instead of %r" % (name, got, want))
    mon.ok("accepted", st)
    return res


def sc_size(c):
    A = read_sc(c)
    return (A.shape[0] - 1, (A.shape[1] - 1) // 2)


def vc_size(v):
    A = read_vc(v)[0]
    return (A.shape[0] - 1, (A.shape[1] - 1) // 2)


def run(case, mon):
    mod = mon.sp.spherepy
    old = mod.use_cext
    try:
        if "cext" in case:
            mod.use_cext = "True" if case["cext"] else False
        globals()["op_" + case["op"]](case, mon)
    finally:
        mod.use_cext = old


def op_analysis(case, mon):
    sp = mon.sp
    fn, nr, nc = case["fn"], case["nr"], case["nc"]
    T = getattr(sp, fn)
    r = gen.rs(nr * 100 + nc)
    a = gen.values("gauss", (nr, nc), nr * 100 + nc)
    vec = fn == "vspht"
    p = sp.TransversePatternUniform(a, a) if vec else sp.ScalarPatternUniform(a)
    before = [np.array(x) for x in (p.doublesphere if vec else [p.doublesphere])]
    size = vc_size if vec else sc_size
    for n in [None] + list(range(0, nr + 2)):
        for m in [None] + list(range(0, max(nr, nc // 2) + 3)):
            if fn == "spht_slow" and (n is None or m is None):
                continue
            N = nr - 2 if n is None else n
            either = False
            if m is not None:
                M = m
            elif n is None:
                M = nc // 2 - 1
                if M > N and nc % 2 == 0:
                    either, M = True, N        # the grid has room for more orders than degrees
                if M < 0:
                    continue
            else:
                M = N
            good = nc % 2 == 0 and M <= N and N <= nr - 2 and 2 * M < nc
            name = "%s of a %dx%d pattern with nmax=%r mmax=%r" % (fn, nr, nc, n, m)
            st = (fn, case["cext"], nr, nc, n, m)
            how = (n, m)
            f = lambda: T(p, n, m)
            if n is None and m is None:
                f = lambda: T(p)
            elif r.randint(2):
                f = lambda: T(p, nmax=n, mmax=m)
            outcome(mon, f, good, size, (N, M), name, st, either)
    after = p.doublesphere if vec else [p.doublesphere]
    if not all(np.array_equal(x, y) for x, y in zip(before, after)):
        raise Violation("no-effect", "the pattern was changed by %s" % fn)
    mon.ok("no-effect")


def op_synthesis(case, mon):
    sp = mon.sp
    fn, nmax, mmax = case["fn"], case["nmax"], case["mmax"]
    T = getattr(sp, fn)
    vec = fn == "vispht"
    r = gen.rs(nmax * 100 + mmax)
    A = gen.coefs({"nmax": nmax, "mmax": mmax, "kind": "gauss", "seed": 5})
    c = fill_v(sp, A, A) if vec else fill(sp, A)
    keep = np.array(read_vc(c) if vec else read_sc(c))
    size = (lambda p: read_tp(p)[0].shape) if vec else (lambda p: read_sp(p)[0].shape)
    for nr in [None] + list(range(1, nmax + 5)):
        for nc in [None] + list(range(1, 2 * mmax + 7)):
            if fn == "ispht_slow" and (nr is None or nc is None):
                continue
            R = nmax + 2 if nr is None else nr
            C = 2 * mmax + 2 if nc is None else nc
            good = R >= nmax + 2 and C >= 2 * mmax + 2 and C % 2 == 0
            # scalar synthesis on nmax + 1 rows: the documentation says no, the code can
            either = not vec and R == nmax + 1 and R >= 2 and C >= 2 * mmax + 2 and C % 2 == 0
            name = "%s of nmax=%d mmax=%d on nrows=%r ncols=%r" % (fn, nmax, mmax, nr, nc)
            f = lambda: T(c, nr, nc)
            if nr is None and nc is None:
                f = lambda: T(c)
            elif r.randint(2):
                f = lambda: T(c, nrows=nr, ncols=nc)
            outcome(mon, f, good, size, (R, C), name, (fn, case["cext"], nmax, mmax, nr, nc), either)
    if not np.array_equal(keep, np.array(read_vc(c) if vec else read_sc(c))):
        raise Violation("no-effect", "the coefficients were changed by %s" % fn)
    mon.ok("no-effect")


def op_coefs(case, mon):
    sp = mon.sp
    nmax, mmax = case["nmax"], case["mmax"]
    good = mmax <= nmax
    for name, mk in (("zeros_coefs", sp.zeros_coefs), ("ones_coefs", sp.ones_coefs),
                     ("random_coefs", sp.random_coefs)):
        outcome(mon, lambda: mk(nmax, mmax), good, sc_size, (nmax, mmax), "%s(%d, %d)" % (name, nmax, mmax),
                (name, 0, nmax, mmax))
        outcome(mon, lambda: mk(nmax, mmax, coef_type=sp.vector), good, vc_size, (nmax, mmax),
                "%s(%d, %d, vector)" % (name, nmax, mmax), (name, 1, nmax, mmax))
        for t in (2, -1, "scalar", None, 0.5):
            if good:
                mon.raises(TypeError, "rejected", mk, nmax, mmax, coef_type=t)
    L = len(tri(nmax, mmax)) if good else (nmax + 1) + mmax * (2 * nmax - mmax + 1)
    for k in range(max(L - 3, 1), L + 4):
        v = gen.values("gauss", (k,), k)
        outcome(mon, lambda: sp.ScalarCoefs(v, nmax, mmax), good and k == L, sc_size, (nmax, mmax),
                "ScalarCoefs of %d values, nmax=%d mmax=%d" % (k, nmax, mmax), ("ScalarCoefs", k, nmax, mmax))
        w = v.copy()
        w[0] = 0
        outcome(mon, lambda: sp.VectorCoefs(w.copy(), w.copy(), nmax, mmax), good and k == L, vc_size, (nmax, mmax),
                "VectorCoefs of %d values, nmax=%d mmax=%d" % (k, nmax, mmax), ("VectorCoefs", k, nmax, mmax))
        for d in (-1, 1):
            if k + d >= 1:
                x = np.zeros(k + d, np.complex128)
                outcome(mon, lambda: sp.VectorCoefs(w.copy(), x, nmax, mmax), False, vc_size, None,
                        "VectorCoefs of %d and %d values, nmax=%d mmax=%d" % (k, k + d, nmax, mmax),
                        ("VectorCoefs", k, k + d, nmax, mmax))
                outcome(mon, lambda: sp.VectorCoefs(x, w.copy(), nmax, mmax), False, vc_size, None,
                        "VectorCoefs of %d and %d values, nmax=%d mmax=%d" % (k + d, k, nmax, mmax),
                        ("VectorCoefs", k + d, k, nmax, mmax))


def op_patterns(case, mon):
    sp = mon.sp
    nr, nc = case["nr"], case["nc"]
    for name, mk in (("zeros_patt_uniform", sp.zeros_patt_uniform), ("ones_patt_uniform", sp.ones_patt_uniform),
                     ("random_patt_uniform", sp.random_patt_uniform)):
        for vec in (0, 1):
            size = (lambda p: read_tp(p)[0].shape) if vec else (lambda p: read_sp(p)[0].shape)
            outcome(mon, lambda: mk(nr, nc, patt_type=vec), nc % 2 == 0, size, (nr, nc),
                    "%s(%d, %d, %d)" % (name, nr, nc, vec), (name, vec, nr, nc))
        if nc % 2 == 0:
            for t in (2, -1, "vector", None):
                mon.raises(TypeError, "rejected", mk, nr, nc, patt_type=t)
    a = gen.values("gauss", (nr, nc), 1)
    for s in ((nr + 1, nc), (nr, nc + 2), (nr - 1, nc), (nr, nc + 1), (nc, nr)):
        if s != (nr, nc) and min(s) > 0:
            b = gen.values("gauss", s, 2)
            for x, y in ((a, b), (b, a)):
                for ds in (False, True):
                    outcome(mon, lambda: sp.TransversePatternUniform(x, y, doublesphere=ds), False, lambda p: p.shape,
                            None, "TransversePatternUniform of %s and %s" % (x.shape, y.shape),
                            ("TransversePatternUniform", x.shape, y.shape, ds))


def op_types(case, mon):
    sp = mon.sp
    for bad in (None, 3, 2.5, "x", [1, 2], {}, np.zeros((4, 4))):
        for name in ("abs", "mag", "mag2", "array"):
            mon.raises(TypeError, "rejected", getattr(sp, name), bad)


def op_large(case, mon):
    """limits away from the small sizes"""
    sp = mon.sp
    r = gen.rs(case["seed"])
    nmax = case["nmax"]
    mmax = int(r.randint(0, nmax + 1))
    # sizes may come from a computation with NumPy: same limits, same results
    T = [int, np.int64, np.int32, np.int16, np.uint32, np.int8, np.uint8][r.randint(7)]
    nmax, mmax = T(nmax), T(mmax)
    mod = sp.spherepy
    mod.use_cext = "True" if r.randint(2) else False
    c, v = sp.random_coefs(nmax, mmax), sp.random_coefs(nmax, mmax, coef_type=sp.vector)
    g = lambda p: tuple(p.shape)
    for f, x, nm in ((sp.ispht, c, "ispht"), (sp.vispht, v, "vispht")):
        for dr, dc, good in ((0, 0, True), (0, -2, False), (-2, 0, False), (0, 1, False), (0, -1, False),
                             (5, 4, True), (-2, -2, False)):
            a, b = nmax + 2 + dr, 2 * mmax + 2 + dc
            if b < 1:
                continue
            outcome(mon, lambda: f(x, a, b), good, g, (a, b), "%s of nmax=%d mmax=%d on %dx%d" %
                    (nm, nmax, mmax, a, b), (nm, nmax, mmax, a, b))
    outcome(mon, lambda: sp.vispht(v, nmax + 1, 2 * mmax + 2), False, g, None, "vispht on nmax + 1 rows",
            ("vispht", nmax, mmax, "short"))
    nr, nc = T(nmax + 2), T(min(2 * mmax + 2, 126))
    p, q = sp.zeros_patt_uniform(nr, 2 * mmax + 2), sp.zeros_patt_uniform(nr, 2 * mmax + 2, patt_type=sp.vector)
    for f, x, size, nm in ((sp.spht, p, sc_size, "spht"), (sp.vspht, q, vc_size, "vspht")):
        for n, m, good in ((nmax, mmax, True), (nmax + 1, mmax, False), (nmax, mmax + 1, False),
                           (mmax, mmax, True), (max(mmax - 1, 0), mmax, mmax == 0), (nmax, 0, True)):
            outcome(mon, lambda: f(x, n, m), good, size, (n, m), "%s of %dx%d with nmax=%d mmax=%d (%s)" %
                    (nm, nr, nc, n, m, T.__name__), (nm, nr, nc, n, m))
    # factories and constructors of every parity at these sizes
    for k in (nc, nc + 1, nc + 3, 2 * nr + 1, 2 * nr + 3, 63, 101, 255, 256, 257):
        if T is not int and k > np.iinfo(T).max:
            continue
        k = T(k)
        for mk in (sp.zeros_patt_uniform, sp.ones_patt_uniform, sp.random_patt_uniform):
            for vec in (0, 1):
                outcome(mon, lambda: mk(nr, k, patt_type=vec), int(k) % 2 == 0, g, (int(nr), int(k)),
                        "%s(%d, %d, %d) (%s)" % (mk.__name__, nr, k, vec, T.__name__), (mk.__name__, vec, nr, k))
    L = (int(nmax) + 1) + int(mmax) * (2 * int(nmax) - int(mmax) + 1)
    for k in (L - 1, L, L + 1, L - 2 * nmax, L + 2 * nmax):
        if k >= 1:
            outcome(mon, lambda: sp.ScalarCoefs(np.zeros(k, np.complex128), nmax, mmax), k == L, sc_size, (nmax, mmax),
                    "ScalarCoefs of %d values, nmax=%d mmax=%d" % (k, nmax, mmax), ("ScalarCoefs", k, nmax, mmax))
            outcome(mon, lambda: sp.VectorCoefs(np.zeros(k, np.complex128), np.zeros(k, np.complex128), nmax, mmax),
                    k == L, vc_size, (nmax, mmax),
                    "VectorCoefs of %d values, nmax=%d mmax=%d" % (k, nmax, mmax), ("VectorCoefs", k, nmax, mmax))
    for mk in (sp.zeros_coefs, sp.ones_coefs, sp.random_coefs):
        for vec in (0, 1):
            for m in (mmax, nmax, nmax + 1, nmax + 7):
                outcome(mon, lambda: mk(nmax, m, coef_type=vec), m <= nmax, vc_size if vec else sc_size, (nmax, m),
                        "%s(%d, %d, %d)" % (mk.__name__, nmax, m, vec), (mk.__name__, vec, nmax, m))
