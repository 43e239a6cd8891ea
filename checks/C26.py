"""C26: the compiled routines called with every kind of argument, from arrays they can work on to objects they cannot."""
import sys

import numpy as np

from rt import gen
from rt.monitor import Violation

RULE = ("each compiled routine with whole arrays, sections of larger arrays, arrays of other owners and subclasses (result "
        "compared with that on a fresh array, surroundings byte for byte, reference counts); and with one or two arguments "
        "at a time replaced by an array of another type, byte order, number of dimensions or layout, by another object, by a "
        "number that is no C int, or left out or added (must raise, nothing may change, the next call must work), in a plain "
        "and in a sanitizer build. Distinct by (routine, argument, kind, size).")
MIN = {"same": 2500, "refused": 20000, "next-call": 1000, "number": 300}
VARIANTS = [{"name": "plain", "flavour": "plain"}, {"name": "asan", "flavour": "asan"}]
CPU_LIMIT = 40      # an ordinary case takes well under a second; a step count far below zero runs for ever
REFUSALS = (TypeError, ValueError, OverflowError)


def cases(tier, r, variant):
    for k in range((160 if variant == "plain" else 48) * (1 if tier == "quick" else 20)):
        nmax, mmax = gen.rand_size(r, [3, 8, 20, 60][k % 4])
        yield {"nmax": nmax, "mmax": mmax, "rows": 2 * (nmax + 1 + int(r.randint(0, 4))), "cols": 2 * (mmax + 1 + int(r.randint(0, 3))),
               "seed": gen.seed_of(r)}


class Sub(np.ndarray):
    pass


def around(a, r):
    """arrays a compiled routine can work on that hold a's values, each with the memory it lies in"""
    n, kind = a.size, a.dtype
    noise = lambda k: np.frombuffer(r.bytes(8 * k), dtype=np.uint64).copy().view(kind) if kind == np.float64 else \
        np.frombuffer(r.bytes(16 * k), dtype=np.uint64).copy().view(kind)

    def within(head, tail):
        b = noise(head + n + tail)
        v = b[head:head + n].reshape(a.shape)
        v[...] = a
        return v, b
    yield ("whole",) + (lambda v: (v, v))(a.copy())
    yield ("section",) + within(int(r.randint(1, 9)), int(r.randint(1, 9)))
    yield ("start",) + within(0, int(r.randint(1, 40)))
    yield ("end",) + within(int(r.randint(1, 40)), 0)
    b = noise(3 * n).reshape((3,) + a.shape)
    b[1] = a
    yield "layer", b[1], b
    m = bytearray(a.tobytes())
    yield "foreign memory", np.frombuffer(m, dtype=kind).reshape(a.shape), np.frombuffer(m, dtype=np.uint8)
    v = a.copy().view(Sub)
    yield "subclass", v, v
    if a.ndim == 1:
        b = noise(3 * n).reshape(n, 3, order="F")
        b[:, 1] = a
        yield "column of columns", b[:, 1], b.T
        yield "fortran", np.asfortranarray(a.copy()), a
    else:
        b = noise(2 * n).reshape(2 * a.shape[0], a.shape[1])
        b[1:1 + a.shape[0]] = a
        yield "rows", b[1:1 + a.shape[0]], b
        t = np.array(a.T, order="F").T if a.flags.c_contiguous else a.copy()
        if t.flags.c_contiguous:
            yield "turned twice", t, t
    v = a.copy()
    v = np.ma.getdata(np.ma.array(v, copy=False))
    yield "from masked", v, v


def unfit(a, r):
    """what a compiled routine cannot work on, made from a"""
    cplx = a.dtype.kind == "c"
    for t in ["f4", "i8", "i4", "i2", "u1", "?", "O", "f2", "g", "S8", "U4", "M8[s]", "G", "F", "m8[ms]", "u8"] + \
            (["f8"] if cplx else ["c16"]):
        with np.errstate(all="ignore"):
            try:
                yield "type " + t, a.real.astype(t) if t not in ("G", "F", "c16") else a.astype(t)
            except (TypeError, ValueError):
                yield "type " + t, np.zeros(a.shape, t)
    yield "structure", np.zeros(a.shape, [("r", "f8"), ("i", "f8")] if cplx else [("x", "f8")])
    yield "byte order", a.astype(a.dtype.newbyteorder())
    yield "bytes", np.frombuffer(bytearray(a.tobytes()), dtype=np.uint8)
    yield "no dimension", np.array(a.ravel()[0])
    yield "scalar", a.ravel()[0]
    yield "more dimensions", a[None].copy()
    yield "more dimensions at the end", a[..., None].copy()
    if a.ndim == 2:
        yield "flat", a.ravel()
        if min(a.shape) > 1:
            yield "fortran", np.asfortranarray(a)
            yield "turned", np.ascontiguousarray(a.T).T
        if a.shape[1] > 1:
            b = np.repeat(a, 2, axis=1)
            yield "columns", b[:, ::2]
            yield "left half", np.hstack([a, a])[:, :a.shape[1]]
            yield "columns reversed", a[:, ::-1]
        if a.shape[0] > 1:
            yield "every second row", np.repeat(a, 2, axis=0)[::2]
            yield "rows reversed", a[::-1]
            yield "the same row", np.broadcast_to(a[0], a.shape)
    elif a.size > 1:
        yield "every second", np.repeat(a, 2)[::2]
        yield "every third", np.repeat(a, 3)[1::3]
        yield "reversed", a[::-1]
        yield "column", np.stack([a, a], axis=1)[:, 1]
        yield "the same", np.broadcast_to(a[0], a.shape)
    yield "matrix", np.matrix(a) if a.ndim == 1 else a.tolist()
    for what, x in (("list", a.tolist()), ("tuple", tuple(a.tolist())), ("None", None), ("int", 3), ("float", 1.5), ("text", "abc"),
                    ("bytes object", a.tobytes()), ("bytearray", bytearray(a.tobytes())), ("memoryview", memoryview(a)),
                    ("dictionary", {}), ("type", np.ndarray), ("object", object()), ("iterator", iter(a)), ("array type", a.dtype)):
        yield what, x


NUMBERS = [2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 32 + 2, -2 ** 32 + 3, 2 ** 62, 2 ** 63 - 1, -2 ** 63, 2 ** 63, -2 ** 63 - 1, 2 ** 64, 2 ** 64 + 3,
           2 ** 70, -2 ** 100, 2 ** 2000, 3.5, 2.0, float("nan"), float("inf"), 1e30, 2j, "2", b"2", "", None, [2], (2,), {}, np.float64(2),
           np.zeros(2, int), object()]


def routines(case, sp, r):
    c = sp.csphi
    n, m = case["nmax"], case["mmax"]
    N = n + 1
    L = N + m * (2 * N - m - 1)
    cx = lambda *shape: r.normal(size=shape) + 1j * r.normal(size=shape)
    Q = c.FindQ(case["rows"] + n + 1)
    mm = int(r.randint(-m, m + 1))
    return [("ynnm", c.ynnm, [n, mm]), ("ynunm", c.ynunm, [n, mm, r.normal(size=N + int(r.randint(0, 5)))]),
            ("FindQ", c.FindQ, [int(r.randint(1, 5000))]), ("SData", c.SData, [cx(Q), case["rows"], n]),
            ("fc_to_sc", c.fc_to_sc, [cx(case["rows"], case["cols"]), cx(L), n, m]),
            ("sc_to_fc", c.sc_to_fc, [cx(case["rows"], case["cols"]), cx(L), n, m])]


WRITES = {"ynunm": {2}, "SData": {0}, "fc_to_sc": {1}, "sc_to_fc": {0}}


def fresh(args):
    return [x.copy() if isinstance(x, np.ndarray) else x for x in args]


def close(a, b):
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if np.array_equal(a, b, equal_nan=True):
        return True
    big = np.max(np.abs(b), initial=0)
    return bool(np.all(np.abs(a - b) <= 1e-12 * big))


def run(case, mon):
    sp = mon.sp
    r = gen.rs(case["seed"])
    size = (case["nmax"], case["mmax"], case["rows"], case["cols"])
    for name, fn, args in routines(case, sp, r):
        def label(what):
            return "%s at nmax=%d mmax=%d on %dx%d, %s" % ((name,) + size + (what,))
        base = fresh(args)
        ret = mon.call(fn, *base)
        arrays = [i for i, x in enumerate(args) if isinstance(x, np.ndarray)]
        for i in set(arrays) - WRITES.get(name, set()):
            if not np.array_equal(base[i], args[i]):
                raise Violation("input-changed", label("argument %d, which is only read, was changed" % i))
        for i in arrays:
            for how, v, memory in around(args[i], r):
                a = fresh(args)
                a[i] = v
                if not v.flags.c_contiguous or not np.array_equal(v, args[i]):
                    raise AssertionError("harness: " + how)
                inside = np.zeros(memory.shape, bool) if np.shares_memory(v, memory) else None
                out = None
                if inside is not None and memory.dtype == v.dtype and memory is not v:
                    lo = (v.ctypes.data - memory.ctypes.data) // v.itemsize
                    flat = memory.reshape(-1)
                    if np.shares_memory(flat, v):
                        out = (flat[:lo].tobytes(), flat[lo + v.size:].tobytes(), flat, lo)
                n0 = sys.getrefcount(v)
                got = mon.call(fn, *a)
                if sys.getrefcount(v) != n0:
                    raise Violation("reference-count", label("argument %d (%s): %d references before the call, %d after" %
                                                             (i, how, n0, sys.getrefcount(v))))
                if not close(got, ret):
                    raise Violation("same", label("argument %d (%s): returns %r instead of %r" % (i, how, got, ret)))
                for j in arrays:
                    if not close(a[j], base[j]):
                        raise Violation("same", label("argument %d (%s): argument %d differs from that on a fresh array" % (i, how, j)))
                if out is not None and (out[2][:out[3]].tobytes() != out[0] or out[2][out[3] + v.size:].tobytes() != out[1]):
                    raise Violation("outside", label("argument %d (%s): memory outside the array was written" % (i, how)))
                mon.ok("same", (name, i, how, size))
        count = 0

        def refuse(a, what, state):
            held = [x.tobytes() if isinstance(x, np.ndarray) and x.dtype.kind != "O" else None for x in a]
            refs = [sys.getrefcount(a[j]) for j in range(len(a))]
            kind = None
            try:
                mon.calls += 1
                got = fn(*a)
            except REFUSALS:
                pass
            except Exception as e:
                kind = "%s: %s" % (type(e).__name__, e)
            else:
                raise Violation("refused", label("%s is accepted and returns %r" % (what, got)))
            if kind:
                raise Violation("refused", label("%s raises %s" % (what, kind)))
            for j in range(len(a)):
                if held[j] is not None and a[j].tobytes() != held[j]:
                    raise Violation("refused-changes", label("%s is refused but argument %d was changed" % (what, j)))
                if isinstance(a[j], np.ndarray) and sys.getrefcount(a[j]) != refs[j]:
                    raise Violation("reference-count", label("%s: %d references to argument %d before the call, %d after" %
                                                             (what, refs[j], j, sys.getrefcount(a[j]))))
            mon.ok("refused", state)

        for i in arrays:
            for how, x in unfit(args[i], r):
                a = fresh(args)
                a[i] = x
                refuse(a, "argument %d (%s)" % (i, how), (name, i, how, size))
                count += 1
                if count % 7 == 0:
                    follow(mon, fn, args, base, ret, label, arrays)
        for i, x in enumerate(args):
            if not isinstance(x, np.ndarray):
                for v in NUMBERS:
                    a = fresh(args)
                    a[i] = v
                    refuse(a, "argument %d is %s" % (i, repr(v)[:40]), (name, i, repr(v)[:20] if type(v) is not object else "o"))
                    mon.judged["number"] += 1
                    count += 1
                    if count % 7 == 0:
                        follow(mon, fn, args, base, ret, label, arrays)
        for a, what in ((fresh(args)[:-1], "an argument less"), (fresh(args)[1:], "the first one missing"), ([], "no argument"),
                        (fresh(args) + [1], "an argument more"), (fresh(args) + fresh(args), "twice as many arguments")):
            refuse(a, what, (name, what))
        follow(mon, fn, args, base, ret, label, arrays)
    z = sp.csphi.SCOMPLEX()
    x, y = [float(v) for v in gen.pick(r, [r.normal(size=2), r.normal(size=2) * 1e300, [0.0, -1e-300], [float("inf"), 5e-324]])]
    z.r, z.i = x, y
    if (z.r, z.i) != (x, y):
        raise Violation("number", "SCOMPLEX holds %r instead of %r" % ((z.r, z.i), (x, y)))
    mon.judged["number"] += 1


def follow(mon, fn, args, base, ret, label, arrays):
    a = fresh(args)
    got = mon.call(fn, *a)
    if not close(got, ret) or not all(close(a[j], base[j]) for j in arrays):
        raise Violation("next-call", label("after calls that were refused, a permitted one gives another result"))
    mon.ok("next-call")
