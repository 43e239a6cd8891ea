"""C21: the printed forms, parsed back and compared with the object."""
import contextlib
import io
import math
import re

import numpy as np

from rt import gen
from rt.monitor import Violation, dense_mask, fill, fill_v, read_sc, read_sp, read_tp, read_vc

RULE = ("coefficient objects of every (nmax, mmax) up to (7, 7) and random larger ones, with values of every class "
        "(zeros, ones, pure real and imaginary, 1e-300 to 1e300, not-a-number); patterns of random sizes; standard output "
        "of pretty_coefs, str() and repr() are parsed by an own parser. Distinct by (form, size, kind).")
ROUNDS = {"quick": 6}
MIN = {"pretty": 300, "str": 300, "repr": 300, "pattern": 60, "unchanged": 300}
ASSUMPTIONS = ["two significant digits: within half a unit of the second digit of the real and of the imaginary part"]
KINDS = gen.KINDS + ["zero", "extreme", "simple", "nan"]


def cases(tier, r, variant):
    big = tier == "thorough"
    for _ in range(10 if not big else 60):
        for nmax in range(8):
            for mmax in range(nmax + 1):
                yield {"nmax": nmax, "mmax": mmax, "kind": gen.pick(r, KINDS), "seed": gen.seed_of(r)}
    for _ in range(100 if not big else 2000):
        nmax, mmax = gen.rand_size(r, 40)
        yield {"nmax": nmax, "mmax": mmax, "kind": gen.pick(r, KINDS), "seed": gen.seed_of(r)}
    for nmax, mmax in gen.ladder_coefs(r, 8, 120 if not big else 300, 50 if not big else 90):
        yield {"nmax": nmax, "mmax": mmax, "kind": gen.pick(r, KINDS), "seed": gen.seed_of(r)}
    for _ in range(2 if not big else 30):                # many degrees
        for nmax in (128, 150, 199, 256, 300):
            yield {"nmax": nmax + int(r.randint(0, 60)), "mmax": int(r.randint(0, 4)), "kind": gen.pick(r, KINDS),
                   "seed": gen.seed_of(r)}
    for nr, nc in gen.ladder_grids(r, 7, 60, 90):
        yield {"nr": nr, "nc": nc, "kind": gen.pick(r, gen.KINDS), "seed": gen.seed_of(r)}
    for _ in range(100 if not big else 1000):
        yield {"nr": int(r.randint(2, 20)), "nc": 2 * int(r.randint(1, 12)), "kind": gen.pick(r, gen.KINDS),
               "seed": gen.seed_of(r)}


def values(kind, shape, seed):
    r = gen.rs(seed)
    if kind == "zero":
        return np.zeros(shape, complex)
    if kind == "extreme":
        return (r.normal(size=shape) + 1j * r.normal(size=shape)) * 10.0 ** r.randint(-300, 301, size=shape)
    if kind in ("simple", "nan"):
        pool = [0, 1, -1, 1j, -1j, 1 + 1j, 10, 100j, 0.5, 99.6 - 0.0996j, 9.96, 0.0995, 1e5, 12345.678 - 1e-5j]
        z = np.array([pool[k] for k in r.randint(len(pool), size=int(np.prod(shape)))], complex).reshape(shape)
        if kind == "nan":
            z[r.uniform(size=shape) < 0.2] = complex("nan")
        return z
    return gen.values(kind, shape, seed)


def number(s):
    s = s.strip()
    for pre in ("np.complex128", "numpy.complex128"):
        if s.startswith(pre):
            s = s[len(pre):]
    return complex(s.strip("() "))


def same(a, b):
    one = lambda x, y: x == y or (x != x and y != y)                                               # noqa: E731
    return one(a.real, b.real) and one(a.imag, b.imag)


def two_digits(got, want):
    for g, w in ((got.real, want.real), (got.imag, want.imag)):
        if w != w:
            if g == g:
                return False
        elif w == 0:
            if g != 0:
                return False
        elif not abs(g - w) <= 0.0501 * 10.0 ** math.floor(math.log10(abs(w))) + 1e-12 * abs(w):
            return False
    return True


def pretty(mon, text, A, nmax, mmax, what, st):
    lines = text.split("\n")
    dashes = [ln for ln in lines if len(re.findall("-{5,}", ln)) == 5]
    names = [ln for ln in lines if ln.count("m =") == 5]
    if len(dashes) != 1 or len(names) != 1:
        raise Violation("pretty", what + ": the frame is not there:\n" + text)
    cols = [m.span() for m in re.finditer("-{5,}", dashes[0])]
    for k, m in enumerate(re.finditer(r"m = *(-?\d+)", names[0])):
        if int(m.group(1)) != k - 2 or not cols[k][0] <= sum(m.span()) / 2.0 <= cols[k][1]:
            raise Violation("pretty", what + ": the columns are labelled wrongly:\n" + text)
    for n in range(3):
        row = [ln for ln in lines if re.match(r"\s*%d:" % n, ln)]
        if len(row) != 1:
            raise Violation("pretty", what + ": no row for n = %d:\n%s" % (n, text))
        head = row[0].index(":") + 1
        toks = [(t.group(), head + t.start(), head + t.end()) for t in re.finditer(r"\S+", row[0][head:])]
        want = [m for m in range(-n, n + 1) if n <= nmax and abs(m) <= mmax]
        if len(toks) != len(want):
            raise Violation("pretty", "%s: %d values in row n = %d instead of %d:\n%s"
                            % (what, len(toks), n, len(want), text))
        wide = any(len(t[0]) > cols[0][1] - cols[0][0] for t in toks)
        for m, (t, a, b) in zip(want, toks):
            lo, hi = cols[m + 2]
            if not wide and not (lo <= a and b <= hi):
                raise Violation("pretty", "%s: %s is not in the column of m = %d:\n%s" % (what, t, m, text))
            try:
                z = complex(t)
            except ValueError:
                raise Violation("pretty", "%s: %r is no number:\n%s" % (what, t, text))
            if not two_digits(z, complex(A[n, m + mmax])):
                raise Violation("pretty", "%s: (%d, %d) shown as %s is %r:\n%s"
                                % (what, n, m, t, complex(A[n, m + mmax]), text))
    mon.ok("pretty", st)


def entries(text):
    """the numbers of a bracketed list without inner brackets"""
    text = text.strip()
    if not (text.startswith("[") and text.endswith("]")):
        raise ValueError("no list: " + text[:60])
    return [number(x) for x in text[1:-1].split(",")]


def compare(mon, rows, A, nmax, mmax, kind, what, st):
    if len(rows) != nmax + 1:
        raise Violation(kind, "%s: %d degrees instead of %d" % (what, len(rows), nmax + 1))
    for n, row in enumerate(rows):
        k = min(n, mmax)
        want = [complex(A[n, m + mmax]) for m in range(-k, k + 1)]
        if len(row) != len(want) or not all(same(g, w) for g, w in zip(row, want)):
            raise Violation(kind, "%s: degree %d listed as %s, is %s" % (what, n, row, want))
    mon.ok(kind, st)


def run(case, mon):
    sp = mon.sp
    if "nr" in case:
        return pattern(case, mon)
    nmax, mmax, kind = case["nmax"], case["mmax"], case["kind"]
    A = values(kind, (nmax + 1, 2 * mmax + 1), case["seed"])
    A[~dense_mask(nmax, mmax)] = 0
    c = fill(sp, A)
    what = "nmax=%d mmax=%d %s" % (nmax, mmax, kind)
    st = (nmax, mmax, kind)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        mon.call(sp.pretty_coefs, c)
    pretty(mon, out.getvalue(), A, nmax, mmax, what, st)
    head, _, body = mon.call(str, c).partition("\n")
    if [int(x) for x in re.findall(r"-?\d+", head)] != [nmax, mmax] or not head.startswith("ScalarCoefs"):
        raise Violation("str", "%s: headed %r" % (what, head))
    rows = []
    for k, ln in enumerate(body.split("\n")):
        m = re.match(r"\s*n = (\d+)\s*::(.*)$", ln)
        if not m or int(m.group(1)) != k:
            raise Violation("str", "%s: line %d is %r" % (what, k, ln[:80]))
        rows.append(parse(m.group(2), "str", what))
    compare(mon, rows, A, nmax, mmax, "str", what, st)
    m = re.match(r"ScalarCoefs\(\(nmax = (\d+), mmax = (\d+)\)\s*,\s*\[(.*)\]\s*\)$", mon.call(repr, c), re.S)
    if not m or (int(m.group(1)), int(m.group(2))) != (nmax, mmax):
        raise Violation("repr", "%s: %r" % (what, repr(c)[:120]))
    compare(mon, [parse(x, "repr", what) for x in re.findall(r"\[[^\[\]]*\]", m.group(3))], A, nmax, mmax, "repr", what,
            st)
    if not np.array_equal(read_sc(c), A, equal_nan=True):
        raise Violation("unchanged", what + ": printing changed the coefficients")
    A = A.copy()
    A[0] = 0
    B = values(kind, A.shape, case["seed"] + 1)
    B[~dense_mask(nmax, mmax)] = 0
    B[0] = 0
    v = fill_v(sp, A, B)
    for f in (repr, str):
        t = mon.call(f, v)
        if not t.startswith("VectorCoefs") or [int(x) for x in re.findall(r"\d+", t)][:2] != [nmax, mmax]:
            raise Violation("repr", "%s: vector coefficients printed as %r" % (what, t[:120]))
    if not all(np.array_equal(x, y, equal_nan=True) for x, y in zip(read_vc(v), (A, B))):
        raise Violation("unchanged", what + ": printing changed the vector coefficients")
    mon.ok("unchanged", st)


def parse(text, kind, what):
    try:
        return entries(text)
    except ValueError as e:
        raise Violation(kind, "%s: cannot be read back: %s" % (what, e))


def pattern(case, mon):
    """the array is printed in numpy's form (8 digits, long ones abbreviated)"""
    sp = mon.sp
    nr, nc = case["nr"], case["nc"]
    a, b = values(case["kind"], (nr, nc), case["seed"]), values(case["kind"], (nr, nc), case["seed"] + 1)
    p, v = sp.ScalarPatternUniform(a), sp.TransversePatternUniform(a, b)
    keep = read_sp(p)[1], read_tp(v)[2:]
    what = "pattern %dx%d %s" % (nr, nc, case["kind"])
    for name, x, arrs in (("scalar", p, [np.array(p.array)]), ("vector", v, [np.array(v.theta), np.array(v.phi)])):
        for f in (repr, str):
            t = mon.call(f, x)
            if nr * nc <= 1000:
                found = [np.array([number(re.sub(r"\s+", "", y)) for y in z.replace("[", "").replace("]", "").split(",")
                                   if y.strip()]) for z in re.findall(r"array\(\[(.*?)\]\)", t, re.S)]
                for g, w in zip(found, arrs):
                    if g.size != w.size or np.max(np.abs(g - w.ravel())) > 1e-7 * np.max(np.abs(w)):
                        raise Violation("pattern", "%s, %s: printed as %s, is %s" % (what, name, t[:300], w))
                if len(found) != len(arrs):
                    raise Violation("pattern", "%s, %s: %d arrays printed: %s" % (what, name, len(found), t[:200]))
                mon.ok("pattern", (name, nr, nc, case["kind"]))
    if not (np.array_equal(keep[0], read_sp(p)[1]) and all(np.array_equal(x, y) for x, y in
                                                            zip(keep[1], read_tp(v)[2:]))):
        raise Violation("unchanged", what + ": printing changed the pattern")
    mon.ok("unchanged", (nr, nc))
