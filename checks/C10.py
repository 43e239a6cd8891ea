"""C10: coefficient objects against an executable model (a map from (n, m) to complex), op by op."""
import numpy as np

from rt import gen
from rt.monitor import Violation, tri

RULE = ("operation sequences on every (nmax, mmax) up to a bound and random larger ones: writes and reads of single "
        "entries, orders, degrees, truncations, copies, windows and invalid requests, on scalar and vector objects, "
        "with the whole object compared to the model after each operation. Distinct by (type, nmax, mmax, operation, "
        "target, outcome).")
ROUNDS = {"quick": 2}
MIN = {"op": 2000, "full-compare": 2000, "rejected": 400, "op-window": 50, "op-truncate": 50}


def cases(tier, r, variant):
    big = tier == "thorough"
    for rep in range(20 if big else 1):
        for nmax in range(0, 8):
            for mmax in range(0, nmax + 1):
                for vec in (0, 1):
                    yield {"nmax": nmax, "mmax": mmax, "vec": vec, "ops": 40, "seed": gen.seed_of(r)}
        for _ in range(60):
            nmax, mmax = gen.rand_size(r, 30 if big else 22)
            yield {"nmax": nmax, "mmax": mmax, "vec": int(r.randint(2)), "ops": 25, "seed": gen.seed_of(r)}
        for nmax, mmax in gen.ladder_coefs(r, 8, 130, 56, 5):
            yield {"nmax": nmax, "mmax": mmax, "vec": int(r.randint(2)), "ops": 8, "seed": gen.seed_of(r)}
        for nmax, mmax in ((40, 40), (63, 30), (110, 4), (128, 7), (257, 2), (50, 49), (300, 0), (190, 188), (181, 181)):
            for vec in (0, 1):
                yield {"nmax": nmax, "mmax": mmax, "vec": vec, "ops": 12, "seed": gen.seed_of(r)}
        for nmax, mmax in ((300, 290), (420, 257), (520, 515), (260, 129), (1030, 3)):
            for vec in (0, 1):
                yield {"nmax": nmax, "mmax": mmax, "vec": vec, "ops": 0, "large": 1, "seed": gen.seed_of(r)}
        for _ in range(6):
            nmax = int(r.randint(100, 600))
            yield {"nmax": nmax, "mmax": int(r.randint(64, nmax + 1)) if nmax > 64 else nmax, "vec": int(r.randint(2)),
                   "ops": 0, "large": 1, "seed": gen.seed_of(r)}


class Model(dict):
    def __init__(self, nmax, mmax):
        dict.__init__(self)
        self.nmax, self.mmax = nmax, mmax
        for k in tri(nmax, mmax):
            self[k] = 0j

    def clone(self):
        m = Model(self.nmax, self.mmax)
        m.update(self)
        return m

    def col(self, m):
        return [self[n, m] for n in range(abs(m), self.nmax + 1)]

    def row(self, n):
        w = min(n, self.mmax)
        return [self[n, m] for m in range(-w, w + 1)]


def compare(mon, c, mod, how, what):
    """reads the whole object through one of the access forms"""
    if (c.nmax, c.mmax) != (mod.nmax, mod.mmax) or c.size != len(mod):
        raise Violation("size", "%s: nmax, mmax, size = %r" % (what, (c.nmax, c.mmax, c.size)))
    if how == 0:
        got = {k: c[k[0], k[1]] for k in mod}
        parts = [(k, got[k], mod[k]) for k in mod]
    elif how == 1:
        parts = []
        for m in range(-mod.mmax, mod.mmax + 1):
            col = np.array(c[:, m])
            if col.shape != (mod.nmax - abs(m) + 1,):
                raise Violation("read-order", "%s: c[:, %d] has shape %s" % (what, m, col.shape))
            parts += [((n, m), col[n - abs(m)], mod[n, m]) for n in range(abs(m), mod.nmax + 1)]
    else:
        parts = []
        for n in range(mod.nmax + 1):
            w = min(n, mod.mmax)
            row = np.array(c[n, :])
            if row.shape != (2 * w + 1,):
                raise Violation("read-degree", "%s: c[%d, :] has shape %s" % (what, n, row.shape))
            parts += [((n, m), row[m + w], mod[n, m]) for m in range(-w, w + 1)]
    for k, g, w in parts:
        if not g == w:
            raise Violation("content", "%s: c[%d, %d] reads %r through %s, the model has %r" %
                            (what, k[0], k[1], g, ["single entries", "orders", "degrees"][how], w))
    mon.ok("full-compare")


def bad_requests(r, nmax, mmax):
    """requests outside the map, as (description, function of the object)"""
    S = slice(None)

    def setter(key, val):
        return lambda c: c.__setitem__(key, val)

    def getter(key):
        return lambda c: c[key]
    out = []
    for n, m in [(nmax + 1, 0), (-1, 0), (nmax, nmax + 1), (nmax, -nmax - 1), (nmax, mmax + 1), (nmax, -mmax - 1),
                 (0, 1), (0, -1), (nmax + 5, 2), (-nmax - 1, 0), (max(mmax - 1, 0), max(mmax, 1))]:
        if not (0 <= n <= nmax and abs(m) <= min(n, mmax)):
            out += [("get %r" % ((n, m),), getter((n, m))), ("set %r" % ((n, m),), setter((n, m), 5.0))]
    for m in (mmax + 1, -mmax - 1, mmax + 3):
        out += [("get [:, %d]" % m, getter((S, m))),
                ("set [:, %d]" % m, setter((S, m), np.ones(max(nmax - abs(m) + 1, 0))))]
    for n in (nmax + 1, -1, nmax + 4):
        out += [("get [%d, :]" % n, getter((n, S))),
                ("set [%d, :]" % n, setter((n, S), np.ones(2 * min(max(n, 0), mmax) + 1)))]
    n = int(r.randint(0, nmax + 1))
    w = 2 * min(n, mmax) + 1
    m = int(r.randint(-mmax, mmax + 1))
    h = nmax - abs(m) + 1
    for d in (-1, 1, 2):
        out.append(("set [%d, :] with %d values" % (n, w + d), setter((n, S), np.arange(w + d) + 7.0)))
        out.append(("set [:, %d] with %d values" % (m, h + d), setter((S, m), np.arange(h + d) + 7.0)))
        out.append(("window with %d values" % (nmax + 1 + d), lambda c, d=d: c.window(np.arange(nmax + 1 + d) + 7.0)))
    # parts of an order or of a degree
    for part in (slice(1, None), slice(None, 2), slice(None, None, 2), slice(None, None, -1), slice(0, nmax + 1),
                 slice(None, -1), slice(0, None, None)):
        out += [("get [%r, %d]" % (part, m), getter((part, m))), ("get [%d, %r]" % (n, part), getter((n, part))),
                ("set [%r, %d]" % (part, m), setter((part, m), np.ones(h))),
                ("set [%d, %r]" % (n, part), setter((n, part), np.ones(w))),
                ("get [0:%d, %r]" % (n, part), getter((slice(0, n), part)))]
    out += [("get [1:%d, :]" % nmax, getter((slice(1, nmax), S))), ("get [:%d, :]" % nmax, getter((slice(None, nmax), S))),
            ("get [0:%d:2, :]" % nmax, getter((slice(0, nmax, 2), S))), ("get [0:, :]", getter((slice(0, None), S)))]
    for k in (nmax + 1, -1, -2, nmax + 7):
        out.append(("get [0:%d, :]" % k, getter((slice(0, k), S))))
    # no indices at all
    for k in (1.0, "1", None, 0j, [0], (0,), Ellipsis, np.array([0]), {}):
        pair = gen.pick(r, [(k, 0), (0, k), (k, k), (S, k), (k, S)])
        out += [("get %r" % (pair,), getter(pair)), ("set %r" % (pair,), setter(pair, gen.pick(r, [5.0, (5.0, 6.0), np.ones(1)])))]
    for pair in ((S, S), (slice(0, 1), 0), (0, slice(0, 1))):
        out.append(("set %r" % (pair,), setter(pair, 5.0)))
    out.append(("triple index", getter((0, 0, 0))))
    out.append(("triple index set", setter((0, 0, 0), 1.0)))
    out.append(("[0:%d, :] set" % nmax, setter((slice(0, nmax), S), 1.0)))
    return out


def large(case, mon):
    """an object of many orders, every coefficient of which has a value of its own"""
    sp = mon.sp
    r = gen.rs(case["seed"])
    nmax, mmax, vec = case["nmax"], case["mmax"], case["vec"]
    L = (nmax + 1) + mmax * (2 * nmax - mmax + 1)
    A = np.full((2, nmax + 1, 2 * mmax + 1), np.nan)        # the model: row n, column m + mmax
    n, m = np.meshgrid(np.arange(nmax + 1), np.arange(-mmax, mmax + 1), indexing="ij")
    inside = np.abs(m) <= n
    for k in range(2):
        A[k][inside] = 1.0 + r.permutation(L)
    if vec:
        A[:, 0, mmax] = 0
    c = sp.zeros_coefs(nmax, mmax, coef_type=sp.vector if vec else sp.scalar)
    parts = lambda x: [x.scoef1, x.scoef2] if vec else [x]
    what = "%s nmax=%d mmax=%d" % ("vector" if vec else "scalar", nmax, mmax)

    def read(x, A, w):
        for k, s in enumerate(parts(x)):
            nmax = s.nmax
            mmax = s.mmax
            off = A.shape[2] // 2
            for q in range(-mmax, mmax + 1):
                got = np.array(s[:, q])
                want = A[k, abs(q):nmax + 1, off + q]
                if got.shape != want.shape or not np.array_equal(got, want):
                    raise Violation("content", "%s, %s: order %d reads %s..., the model has %s..." % (what, w, q, got[:3], want[:3]))
            for p in r.randint(0, nmax + 1, size=6):
                h = min(int(p), mmax)
                got = np.array(s[int(p), :])
                want = A[k, p, off - h:off + h + 1]
                if got.shape != want.shape or not np.array_equal(got, want):
                    raise Violation("content", "%s, %s: degree %d reads otherwise than the model" % (what, w, p))
            for q in r.randint(-mmax, mmax + 1, size=30):
                p = int(r.randint(abs(q), nmax + 1))
                if s[p, int(q)] != A[k, p, off + q]:
                    raise Violation("content", "%s, %s: c[%d, %d] reads %r, the model has %r" % (what, w, p, q, s[p, int(q)], A[k, p, off + q]))
        mon.ok("large", (what, w))

    for k, s in enumerate(parts(c)):
        for q in r.permutation(np.arange(-mmax, mmax + 1)):
            mon.call(s.__setitem__, (slice(None), int(q)), A[k, abs(q):, mmax + q])
    read(c, A, "filled by orders")
    for k, s in enumerate(parts(c)):
        for _ in range(40):
            q = int(r.randint(-mmax, mmax + 1))
            p = int(r.randint(max(abs(q), vec), nmax + 1))
            A[k, p, mmax + q] *= -1
            mon.call(s.__setitem__, (p, q), A[k, p, mmax + q])
        for p in r.randint(1, nmax + 1, size=4):
            h = min(int(p), mmax)
            A[k, p] *= 2
            mon.call(s.__setitem__, (int(p), slice(None)), A[k, p, mmax - h:mmax + h + 1])
    read(c, A, "changed")
    k = int(r.randint(1, nmax + 1))
    part = mon.call(c.__getitem__, (slice(0, k), slice(None)))
    read(part, A[:, :k + 1], "cut at %d" % k)
    read(mon.call(part.copy), A[:, :k + 1], "cut and copied")
    if not vec:
        w = r.randint(1, 5, size=nmax + 1).astype(float)
        mon.call(c.window, w)
        A *= w[None, :, None]
        read(c, A, "window")


LAYOUTS = {
    "strided": lambda v: np.repeat(v, 2)[::2], "shifted": lambda v: np.repeat(np.append(0, v), 3)[5::3],
    "reversed": lambda v: v[::-1].copy()[::-1], "column": lambda v: np.stack([v + 1, v, v - 1], axis=1)[:, 1],
    "float": lambda v: v.real.copy(), "int": lambda v: np.round(9 * v.real).astype(int),
    "imag": lambda v: v.real.astype(complex).imag + v.real, "part": lambda v: (1j * v).imag, "bool": lambda v: v.real > 0,
    "complex64": lambda v: v.astype(np.complex64), "float32 strided": lambda v: np.repeat(v.real.astype(np.float32), 4)[::4],
    "int8": lambda v: np.round(9 * v.real).astype(np.int8), "big endian": lambda v: v.astype(">c16"),
    "longdouble": lambda v: v.astype(np.clongdouble)}


def filled(mon, nmax, mmax, vec, r):
    """an object made from values in some kind of sequence, and what it has to hold"""
    sp = mon.sp
    keys = tri(nmax, mmax)
    L = len(keys)
    probe = sp.ScalarCoefs(np.arange(L) + 1.0, nmax, mmax)      # where the constructor puts which value
    at = {k: int(round(complex(probe[k]).real)) - 1 for k in keys}
    if sorted(at.values()) != list(range(L)):
        raise Violation("constructor", "ScalarCoefs of 1 ... %d at nmax=%d mmax=%d holds other values" % (L, nmax, mmax))
    data, mods = [], []
    for _ in range(2 if vec else 1):
        v = np.array(gen.values(gen.pick(r, ["gauss", "gauss", "sparse"]), L, int(r.randint(2 ** 31))))
        if vec:
            v[[at[k] for k in keys if k[0] == 0]] = 0
        how = gen.pick(r, sorted(LAYOUTS))
        v = LAYOUTS[how](v)
        mod = Model(nmax, mmax)
        for k in keys:
            mod[k] = complex(v[at[k]])
        mon.events["made from " + how] += 1
        data.append(v)
        mods.append(mod)
    c = mon.call(sp.VectorCoefs if vec else sp.ScalarCoefs, *(data + [nmax, mmax]))
    return c, mods


def run(case, mon):
    if case.get("large"):
        return large(case, mon)
    sp = mon.sp
    r = gen.rs(case["seed"])
    nmax, mmax, vec = case["nmax"], case["mmax"], case["vec"]
    if vec:
        L = len(tri(nmax, mmax))
        c = gen.pick(r, [lambda: sp.zeros_coefs(nmax, mmax, coef_type=sp.vector),
                         lambda: sp.VectorCoefs(np.zeros(L), np.zeros(L), nmax, mmax)])()
        mods = [Model(nmax, mmax), Model(nmax, mmax)]
    else:
        L = len(tri(nmax, mmax))
        c = gen.pick(r, [lambda: sp.zeros_coefs(nmax, mmax), lambda: sp.abs(sp.zeros_coefs(nmax, mmax)),
                         lambda: sp.ScalarCoefs(np.zeros(L), nmax, mmax),
                         lambda: sp.ScalarCoefs(np.zeros(L, int), nmax, mmax)])()
        mods = [Model(nmax, mmax)]
    if r.randint(3) == 0:
        c, mods = filled(mon, nmax, mmax, vec, r)
    old = None

    def parts(c):
        return [c.scoef1, c.scoef2] if vec else [c]

    def num():
        t = r.randint(11)
        z = complex(r.normal(), r.normal())
        e = 10.0 ** -r.randint(3, 18)
        return [z, float(z.real), int(r.randint(-9, 9)), np.complex128(z), np.float64(z.imag), -z * 1e-200,
                np.int64(r.randint(-9, 9)), np.complex64(z), True, complex(z.real, e * z.imag),
                complex(e * z.real, z.imag)][t]

    def full(what):
        for s, mod in zip(parts(c), mods):
            compare(mon, s, mod, int(r.randint(3)), what)
        if vec:
            if (c.nmax, c.mmax, c.size) != (mods[0].nmax, mods[0].mmax, len(mods[0])):
                raise Violation("size", "%s: vector object says %r" % (what, (c.nmax, c.mmax, c.size)))
            vec_reads(mon, r, c, mods, what)

    full("new object")
    for step in range(case["ops"]):
        nmax, mmax = mods[0].nmax, mods[0].mmax
        keys = list(mods[0])
        n, m = keys[r.randint(len(keys))]
        which = int(r.randint(2)) if vec else 0
        s, mod = parts(c)[which], mods[which]
        op = gen.pick(r, ["set", "set", "setv", "order", "degree", "window", "truncate", "copy", "bad", "bad", "bad"])
        what = "%s op %d (%s) on nmax=%d mmax=%d" % ("vector" if vec else "scalar", step, op, nmax, mmax)
        state = (vec, nmax, mmax, op, n, m)
        if op == "set" or (op == "setv" and not vec):
            if vec and n == 0:
                continue
            v = num()
            mon.call(s.__setitem__, (n, m), v)
            mod[n, m] = complex(v)
        elif op == "setv":
            a, b = num(), num()
            if n == 0:
                mon.raises(Exception, "rejected", c.__setitem__, (n, m), (a, b))
            else:
                mon.call(c.__setitem__, (n, m), (a, b) if r.randint(2) else [a, b])
                mods[0][n, m], mods[1][n, m] = complex(a), complex(b)
        elif op == "order":
            h = nmax - abs(m) + 1
            v = gen.values(gen.pick(r, ["gauss", "real", "ints", "tiny"]), h, int(r.randint(2 ** 31)))
            if vec and m == 0:
                v[0] = 0
            v = gen.pick(r, [lambda: v, lambda: list(v), lambda: tuple(v)])()
            if r.randint(4) == 0 and not vec:       # an order read from the object itself, or its reverse
                v = s[:, -m] if r.randint(2) else s[:, m][::-1]
                keep = np.array(v)
                mon.call(s.__setitem__, (slice(None), m), v)
                v = keep
            else:
                mon.call(s.__setitem__, (slice(None), m), v)
            for k in range(h):
                mod[abs(m) + k, m] = complex(v[k])
        elif op == "degree":
            if vec and n == 0:
                continue
            w = min(n, mmax)
            v = gen.values(gen.pick(r, ["gauss", "real", "ints", "tiny"]), 2 * w + 1, int(r.randint(2 ** 31)))
            v = gen.pick(r, [lambda: v, lambda: list(v)])()
            along = [k for k in (nmax - 2 * w, 2 * w - nmax) if abs(k) <= mmax and nmax - abs(k) + 1 == 2 * w + 1]
            if r.randint(4) == 0 or (along and r.randint(2)):   # values read from the object itself
                v = s[n, :][::-1]
                if along and r.randint(4):          # an order that is as long as the degree
                    v = s[:, int(gen.pick(r, along))][::gen.pick(r, [1, -1])]
                keep = np.array(v)
                mon.call(s.__setitem__, (n, slice(None)), v)
                v = keep
            else:
                mon.call(s.__setitem__, (n, slice(None)), v)
            for k in range(2 * w + 1):
                mod[n, k - w] = complex(v[k])
        elif op == "window":
            v = gen.values("real", nmax + 1, int(r.randint(2 ** 31)))
            t = int(r.randint(12))
            own = t == 0                # values read from the object itself
            v = [lambda: s[:, 0], lambda: v, lambda: v.real, lambda: list(v.real), lambda: tuple(v),
                 lambda: r.randint(-2, 3, size=nmax + 1), lambda: v * 1j - v[::-1],
                 lambda: list(v * 1j + v[::-1]), lambda: tuple(complex(x) for x in v * 1j),
                 lambda: [int(x) for x in r.randint(-2, 3, size=nmax + 1)],
                 lambda: v.real + 1j * v[::-1].real * 10.0 ** -r.randint(3, 18),        # all but real, all but imaginary
                 lambda: v.real * 10.0 ** -r.randint(3, 18) + 1j * v[::-1].real][t]()
            keep = np.array(v)
            mon.call(s.window, v)
            mon.check(own or np.array_equal(keep, v), "window-argument", "window changed its argument")
            v = keep
            for k in mod:
                want = mod[k] * complex(v[k[0]])
                got = s[k]
                if not abs(got - want) <= 1e-14 * abs(want):
                    raise Violation("window", "%s: c[%d, %d] became %r instead of %r" % (what, k[0], k[1], got, want))
                mod[k] = complex(got)
            mon.ok("op-window")
        elif op == "truncate":
            k = int(r.randint(0, nmax + 1))
            t = mon.call(c.__getitem__, (slice(0, k), slice(None)))
            tm = []
            for mo in mods:
                x = Model(k, min(k, mmax))
                for key in x:
                    x[key] = mo[key]
                tm.append(x)
            for q, x in zip([t.scoef1, t.scoef2] if vec else [t], tm):
                compare(mon, q, x, int(r.randint(3)), what + " c[0:%d, :]" % k)
            if (t.nmax, t.mmax) != (k, min(k, mmax)):
                raise Violation("size", "%s: truncation says %r" % (what, (t.nmax, t.mmax)))
            mon.ok("op-truncate")
            if r.randint(4) == 0 and k > 0:       # continue on the truncation; the original must not follow it
                old = (c, [x.clone() for x in mods])
                c, mods = t, tm
            else:                                # writing to the truncation leaves the original alone
                for q in ([t.scoef1, t.scoef2] if vec else [t]):
                    q[k, 0] = 12345.0
        elif op == "copy":
            d = mon.call(c.copy)
            if r.randint(2):
                old = (c, [x.clone() for x in mods])
                c = d
            else:
                for q in ([d.scoef1, d.scoef2] if vec else [d]):
                    q[nmax, 0] = 54321.0
                    q[:, -mmax] = np.full(nmax - mmax + 1, 3.0)
                old = None
        elif op == "bad":
            reqs = bad_requests(r, nmax, mmax)
            target = s
            if vec and r.randint(2):
                S = slice(None)
                target = c
                reqs = [x for x in reqs if x[0].startswith("get") and "window" not in x[0]]
                reqs += [("vector set %r" % (k,), lambda c, k=k: c.__setitem__(k, (1.0, 2.0)))
                         for k in [(nmax + 1, 0), (-1, 0), (nmax, mmax + 1), (nmax, -nmax - 1), (0, 0)]]
                reqs += [("vector set value %r" % (v,), lambda c, v=v: c.__setitem__((nmax, 0), v))
                         for v in (3.0, (1.0,), (1.0, 2.0, 3.0), None)]
                reqs += [("vector triple index set", lambda c: c.__setitem__((nmax, 0, 0), (1.0, 2.0)))]
                reqs += [("vector slice set", lambda c: c.__setitem__((S, 0), (1.0, 2.0))),
                         ("vector slice set", lambda c: c.__setitem__((nmax, S), (1.0, 2.0))),
                         ("get [0, 0]", lambda c: c[0, 0]), ("get [0, :]", lambda c: c[0, S])]
            for what2, f in [reqs[r.randint(len(reqs))] for _ in range(3)]:
                try:
                    got = f(target)
                except Exception:
                    mon.ok("rejected", (vec, target is c, nmax, mmax, what2))
                else:
                    raise Violation("accepted", "%s: %s was accepted (returned %r)" % (what, what2, got))
        mon.ok("op", state)
        full(what)
        if old is not None and step % 5 == 4:
            oc, om = old
            for q, x in zip([oc.scoef1, oc.scoef2] if vec else [oc], om):
                compare(mon, q, x, int(r.randint(3)), what + ": the object it was copied or cut from")


def vec_reads(mon, r, c, mods, what):
    nmax, mmax = mods[0].nmax, mods[0].mmax
    if nmax == 0:
        return
    n = int(r.randint(1, nmax + 1))
    w = min(n, mmax)
    m = int(r.randint(-w, w + 1))
    for got, want, form in ((c[n, m], (mods[0][n, m], mods[1][n, m]), "[n, m]"),
                            (c[:, m], (mods[0].col(m), mods[1].col(m)), "[:, m]"),
                            (c[n, :], (mods[0].row(n), mods[1].row(n)), "[n, :]")):
        if not (isinstance(got, tuple) and len(got) == 2 and np.array_equal(got[0], want[0])
                and np.array_equal(got[1], want[1])):
            raise Violation("vector-read", "%s: %s at n=%d m=%d gives %r, the model has %r" %
                            (what, form, n, m, got, want))
    mon.ok("vector-read")
