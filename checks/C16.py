"""C16: spherical Bessel and Hankel functions against a multiple precision reference."""
import math
import sys

import numpy as np

from rt import gen
from rt.monitor import Violation

RULE = ("(x, N) pairs: random over the whole range, every small N with arguments around it, arguments at and next to "
        "sqrt(4 n^2 - 1), multiples of pi, zeros of j_1, integers, negative arguments and numpy types; arrays of "
        "arguments; self tests. The reference is computed with mpmath at a precision that covers all cancellation. "
        "Distinct by (function, N, binade of x, sign, kind).")
ROUNDS = {"quick": 4}
MIN = {"sbesselj": 600, "sbessely": 600, "hankel": 300, "array": 60, "self-test": 100}
TOL = 3e-13
CPU_LIMIT = 300


def setup(mon):
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import mpmath
    mon.mp = mpmath


def cases(tier, r, variant):
    big = tier == "thorough"
    out = []
    for N in list(range(1, 21)) + [40, 75, 100, 149, 150]:
        xs = [1e-3, 0.01, 0.5, 1.0, N * 0.9, float(N), N + 0.5, N * 1.1, N * 3.0, math.sqrt(4.0 * N * N - 1),
              float(np.nextafter(math.sqrt(4.0 * N * N - 1), 0)), math.sqrt(4.0 * (N + 1) ** 2 - 1),
              math.pi * int(r.randint(1, 40)), 4.493409457909064, 7.725251836937707]
        for x in xs:
            out.append({"op": "one", "x": x, "N": N, "type": gen.pick(r, ["float", "np"])})
    for _ in range(3000 if big else 500):
        t = r.randint(6)
        if t < 3:
            x = float(10 ** r.uniform(-3, math.log10(2000 if r.randint(4) == 0 else 200)))
        elif t == 3:
            x = math.pi * int(r.randint(1, 120))
        elif t == 4:
            k = int(r.randint(1, 80))
            x = math.sqrt(4.0 * k * k - 1)
            x = gen.pick(r, [x, float(np.nextafter(x, 0)), float(np.nextafter(x, 1e9)), x * (1 + 1e-9)])
        else:
            x = int(r.randint(1, 150))
        N = int(r.randint(1, 151)) if r.randint(2) else int(r.randint(1, 12))
        out.append({"op": "one", "x": x, "N": N, "type": gen.pick(r, ["float", "float", "np", "neg", "narrow"])})
    for _ in range(400 if big else 100):
        k = int(r.randint(1, 8))
        out.append({"op": "array", "xs": [float(10 ** r.uniform(-2, 2)) for _ in range(k)],
                    "N": int(r.randint(1, 60)), "as": gen.pick(r, ["array", "list"])})
    for k in ([51, 64, 70, 101, 129, 200, 260] if big else [51, 70, 130, 260]):
        for how in ("array", "list", "ints", "tuple", "strided"):
            out.append({"op": "array", "xs": [float(10 ** r.uniform(-2, 1.5)) for _ in range(k)], "N": int(r.randint(1, 7)),
                        "as": how})
    for _ in range(200 if big else 60):           # equal and nearly equal arguments, in any order
        x = float(10 ** r.uniform(-1, 2))
        xs = [x * (1 + gen.pick(r, [0, 0, 1e-3, 1e-6, 1e-8, -1e-9, 3e-11, 2.0 ** -52, 1])) for _ in range(int(r.randint(2, 7)))]
        out.append({"op": "array", "xs": xs, "N": int(r.randint(1, 60)), "as": gen.pick(r, ["array", "list", "tuple"])})
    for _ in range(60 if big else 12):            # far out
        out.append({"op": "one", "x": gen.pick(r, [float(10 ** r.uniform(3.3, 5)), int(10 ** r.uniform(3.3, 4.6)),
                                                   math.pi * int(10 ** r.uniform(3, 4.2))]),
                    "N": int(r.randint(1, 12)), "type": gen.pick(r, ["float", "np", "neg"])})
    for _ in range(60 if big else 12):            # many orders, below and above the argument
        N = int(r.randint(150, 700))
        out.append({"op": "one", "x": float(N * gen.pick(r, [0.5, 0.9, 1, 1.1, r.uniform(0.3, 3)])), "N": N,
                    "type": gen.pick(r, ["float", "np", "neg"])})
    for _ in range(400 if big else 100):
        out.append({"op": "self", "x": float(10 ** r.uniform(-1, 2)), "N": int(r.randint(1, 120)), "type": "float"})
    for _ in range(60 if big else 16):
        N = int(r.randint(120, 500))
        out.append({"op": "self", "x": float(N * r.uniform(0.6, 1.6)), "N": N, "type": "float"})
    return out


def reference(mp, x, N):
    """j_0 .. j_(N-1), y_0 .. y_(N-1) for x > 0, as multiple precision numbers"""
    mp.mp.prec = 200 + 8 * N + int(2 * x if x < 300 else 600)
    X = mp.mpf(float(x))
    s, c = mp.sin(X), mp.cos(X)
    y = [-c / X, -c / X ** 2 - s / X]
    for n in range(2, N):
        y.append((2 * n - 1) / X * y[-1] - y[-2])
    if x > 2000 > 4 * N:                     # the recurrence is stable upwards for orders below the argument
        j = [s / X, s / X ** 2 - c / X]
        for n in range(2, N):
            j.append((2 * n - 1) / X * j[-1] - j[-2])
        return j[:N], y[:N]
    M = N + 60 + int(1.3 * x)
    f = [mp.mpf(0)] * (M + 2)
    f[M] = mp.mpf(1)
    for n in range(M, 0, -1):
        f[n - 1] = (2 * n + 1) / X * f[n] - f[n + 1]
    j0, j1 = s / X, s / X ** 2 - c / X
    k = j0 / f[0] if abs(j0) > abs(j1) else j1 / f[1]
    return [k * v for v in f[:N]], y[:N]


def bounds(mp, j, y, x):
    """per order: allowed error of j and of y (None where a value is not representable with room to spare)"""
    tj, ty = [], []
    for n, (a, b) in enumerate(zip(j, y)):
        env = mp.sqrt(a * a + b * b)
        tj.append(None if abs(a) < mp.mpf("1e-290") and n > x else TOL * (abs(a) if n > x else env))
        ty.append(None if abs(b) > mp.mpf("1e300") else TOL * env)
    return tj, ty


def judge(mon, got, want, tol, kind, what, st):
    got = np.asarray(got)
    if got.shape != (len(want),):
        raise Violation(kind, "%s: shape %s instead of %d values" % (what, got.shape, len(want)))
    mp = mon.mp
    for n, (g, w, t) in enumerate(zip(got, want, tol)):
        if t is None:
            if kind == "sbesselj" and not abs(float(g)) <= 1e-280:
                raise Violation(kind, "%s: order %d is %r, exact %s" % (what, n, g, mp.nstr(w, 20)))
            continue
        g = float(g)
        e = abs(mp.mpf(g) - w) if np.isfinite(g) else mp.inf
        if not e <= t:
            raise Violation(kind, "%s: order %d is %r, exact %s" % (what, n, g, mp.nstr(w, 20)))
        if t > 0:
            mon.worst[kind] = max(mon.worst.get(kind, 0.0), float(e / t))
    mon.ok(kind, st)


def run(case, mon):
    from spherepy import sbessel as sb
    mp = mon.mp
    N = case["N"]
    if case["op"] == "array":
        xs = case["xs"]
        if case["as"] == "ints":
            xs = [float(math.ceil(x)) for x in xs]
        arg = {"array": lambda: np.array(xs), "list": lambda: xs, "tuple": lambda: tuple(xs),
               "ints": lambda: np.array(xs).astype(["i1", "i2", "i4", "i8", "u1", "u2", "u8"][N % 7]), "strided": lambda: np.repeat(xs, 3)[1::3]}[case["as"]]()
        if case["as"] == "array" and N % 4 == 0:        # arguments of single precision are exact in double precision
            arg = arg.astype(np.float32)
            xs = [float(x) for x in arg]
        keep = np.array(arg)
        A, B = mon.call(sb.sbesselj_array, arg, N), mon.call(sb.sbessely_array, arg, N)
        for got, k in ((A, 0), (B, 1)):
            if np.asarray(got).shape != (N, len(xs)):
                raise Violation("array", "array of %d arguments, N=%d: shape %s" % (len(xs), N, np.asarray(got).shape))
            for i, x in enumerate(xs):
                j, y = reference(mp, x, N)
                tol = bounds(mp, j, y, x)
                judge(mon, np.asarray(got)[:, i], (j, y)[k], tol[k], "array", "%s_array column %d, x=%r N=%d" %
                      (("sbesselj", "sbessely")[k], i, x, N), (k, N, len(xs)))
        mon.check(np.array_equal(keep, np.array(arg)), "array", "the arguments were changed")
        return
    x = case["x"]
    if case["type"] == "narrow":
        T = ([np.float32, np.longdouble] + [np.float16] * (x < 1000) + [np.int32, np.uint64, np.int16] * (x > 1)
             + [np.int8] * (1 < x < 128) + [np.uint8] * (1 < x < 256))
        T = T[N % len(T)]
        arg = T(x)
        x = float(arg)
    st = (N, int(math.floor(math.log2(x))), case["type"])
    if case["op"] == "self":
        j, y = reference(mp, x, N + 1)
        S = sum((2 * n + 1) * j[n] ** 2 for n in range(N))
        if S > 1e-4:
            want = float(abs((S - 1) / S))
            got = float(mon.call(sb.sbesselj_sum, x, N))
            mon.check(abs(got - want) <= 1e-11 / float(S) * (1 + want), "self-test",
                      lambda: "sbesselj_sum(%r, %d) is %r, the deviation is %r" % (x, N, got, want), st)
        if abs(y[-1]) < mp.mpf("1e290") and abs(j[-1]) > mp.mpf("1e-290"):
            got = float(mon.call(sb.sbessel_test_cross_product, x, N))
            mon.check(0 <= got <= 1e-10, "self-test",
                      lambda: "sbessel_test_cross_product(%r, %d) is %r" % (x, N, got), st)
        return
    if case["type"] != "narrow":
        arg = {"float": lambda: x, "np": lambda: np.float64(x), "neg": lambda: -x}[case["type"]]()
    sign = -1 if case["type"] == "neg" else 1
    j, y = reference(mp, x, N)
    tj, ty = bounds(mp, j, y, x)
    if sign < 0:
        j = [v * (-1) ** n for n, v in enumerate(j)]
        y = [v * (-1) ** (n + 1) for n, v in enumerate(y)]
    what = "(%r, %d)" % (arg, N)
    judge(mon, mon.call(sb.sbesselj, arg, N), j, tj, "sbesselj", "sbesselj" + what, st)
    judge(mon, mon.call(sb.sbessely, arg, N), y, ty, "sbessely", "sbessely" + what, st)
    for name, s in (("sbesselh1", 1), ("sbesselh2", -1)):
        h = np.asarray(mon.call(getattr(sb, name), arg, N))
        judge(mon, h.real, j, [t if ty[n] is not None else mp.inf for n, t in enumerate(tj)], "hankel",
              name + what + " real part", st) if all(t is not None for t in ty) else None
        if all(t is not None for t in ty):
            judge(mon, h.imag, [s * v for v in y], ty, "hankel", name + what + " imaginary part", st)
