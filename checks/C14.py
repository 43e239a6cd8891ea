"""C14: files written are parsed independently, loaded back and compared number by number; write faults are injected."""
import os
import pathlib
import resource
import signal

import numpy as np

from rt import gen
from rt.monitor import Violation, fill, read_sc, read_sp, read_tp, read_vc, tri

RULE = ("patterns and coefficients of every size up to a bound, holding random bit patterns of finite doubles, "
        "boundary values and ordinary numbers, saved under different names, over longer and shorter files, loaded back "
        "and re-parsed; files written by the harness in the documented formats; saves that run into a full device, a "
        "file size limit at a random byte, a missing directory. Distinct by (object, size, value class, event).")
ROUNDS = {"quick": 3}
MIN = {"file-content": 150, "load-back": 150, "fault-raises": 60, "fault-boundary": 20, "foreign-file": 60, "loaded-last": 800}
VALUES = ["bits", "edge", "gauss", "ints", "wide", "sparse"]
EDGE = [0.0, -0.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1.1125369292536007e-308, 9.9e306, -9.9e306, 1.0, -1.0,
        0.1, 1 / 3.0, 1e-300, 123456789012345680.0, 9007199254740993.0, 1.0000000000000002, 0.9999999999999999,
        1e22, 1e23, 8.41e21, 2.0 ** -1022 * 1.5, 4.35, 1e16, np.pi]


def setup(mon):
    os.environ["HOME"] = mon.scratch            # the directory worked in


def cases(tier, r, variant):
    big = tier == "thorough"
    for rep in range(12 if big else 2):
        for nr in range(2, 8):
            for nc in range(2, 9, 2):
                yield {"op": "patt", "nr": nr, "nc": nc, "vals": gen.pick(r, VALUES), "seed": gen.seed_of(r)}
                yield {"op": "vpatt", "nr": nr, "nc": nc, "vals": gen.pick(r, VALUES), "seed": gen.seed_of(r)}
        for nmax in range(0, 7):
            for mmax in range(0, nmax + 1):
                yield {"op": "coef", "nmax": nmax, "mmax": mmax, "vals": gen.pick(r, VALUES), "seed": gen.seed_of(r)}
                yield {"op": "vcoef", "nmax": nmax, "mmax": mmax, "vals": gen.pick(r, VALUES),
                       "seed": gen.seed_of(r)}
        for _ in range(40):
            nmax, mmax = gen.rand_size(r, 30)
            yield {"op": gen.pick(r, ["coef", "vcoef"]), "nmax": nmax, "mmax": mmax, "vals": gen.pick(r, VALUES),
                   "seed": gen.seed_of(r)}
            yield {"op": gen.pick(r, ["patt", "vpatt"]), "nr": int(r.randint(2, 40)), "nc": 2 * int(r.randint(1, 30)),
                   "vals": gen.pick(r, VALUES), "seed": gen.seed_of(r)}
        for nmax, mmax in gen.ladder_coefs(r, 7, 110, 32) if rep % 4 == 0 else ():
            yield {"op": gen.pick(r, ["coef", "vcoef"]), "nmax": nmax, "mmax": mmax, "vals": gen.pick(r, VALUES),
                   "seed": gen.seed_of(r)}
        for nr, nc in gen.ladder_grids(r, 8, 110, 130) if rep % 4 == 0 else ():
            yield {"op": gen.pick(r, ["patt", "vpatt"]), "nr": nr, "nc": nc, "vals": gen.pick(r, VALUES),
                   "seed": gen.seed_of(r)}
        for nmax, mmax in ((40, 40), (110, 4), (64, 40), (300, 1)) + ((130, 130), (260, 120)) * (rep % 6 == 0):
            for op in ("coef", "vcoef"):
                yield {"op": op, "nmax": nmax, "mmax": mmax, "vals": gen.pick(r, VALUES), "seed": gen.seed_of(r)}
        for nr, nc in ((64, 66), (130, 20), (12, 300), (1, 4), (3, 2)) + ((190, 180), (300, 34)) * (rep % 6 == 0):
            yield {"op": gen.pick(r, ["patt", "vpatt"]), "nr": max(nr, 2), "nc": nc, "vals": gen.pick(r, VALUES),
                   "seed": gen.seed_of(r)}
        for k in range(100):
            nmax, mmax = gen.rand_size(r, 3 + k % 6)
            yield {"op": "turns", "kind": ["patt", "coef", "vpatt", "vcoef", "fdata"][k % 5], "nmax": nmax, "mmax": mmax,
                   "vals": gen.pick(r, VALUES), "seed": gen.seed_of(r)}
        for _ in range(60):
            nmax, mmax = gen.rand_size(r, 20)
            yield {"op": "fault", "nmax": nmax, "mmax": mmax, "patt": int(r.randint(2)),
                   "how": gen.pick(r, ["limit", "limit", "limit", "full", "nodir", "isdir"]), "seed": gen.seed_of(r)}


def doubles(kind, shape, seed):
    r = gen.rs(seed)
    if kind == "bits":
        x = r.randint(0, 2 ** 63, size=shape, dtype=np.uint64) * 2 + r.randint(0, 2, size=shape).astype(np.uint64)
        x = x.view(np.float64).copy()
        bad = ~np.isfinite(x)
        x[bad] = 1.0
        big = np.abs(x) > 1e307
        x[big] = np.sign(x[big]) * 9e306
        return x
    if kind == "edge":
        return np.array(EDGE)[r.randint(len(EDGE), size=shape)]
    return gen.values(kind, shape, seed).real.copy()


def complexes(kind, shape, seed):
    z = np.zeros(shape, np.complex128)
    z.real = doubles(kind, shape, seed)
    z.imag = doubles(kind, shape, seed + 1)
    return z


def name(mon, r):
    base = gen.pick(r, ["a.txt", "name with spaces.txt", "é-ü.dat", "no_extension", "x,y;z.csv", "deep/er/p.txt",
                        ".hidden", "100%d{0}.txt", " blanks around ", "$HOME.txt", "a*[b]?.txt", "tab\tand\nnewline",
                        "~/t.txt", "~root", "link/../l.txt", "a.gz", "-", "con.bz2", "UPPER.TXT", "upper.txt", "1"])
    k = getattr(mon, "k", 0)
    mon.k = k + 1
    if base[:1] in "~- ":                      # names that mean something else elsewhere
        p = base
        if "/" in p:
            os.makedirs(os.path.dirname(p), exist_ok=True)
        return p
    if base.startswith("link"):                # .. behind a link leads to the parent of what the link points to
        os.makedirs(os.path.join(mon.scratch, "far", "away"), exist_ok=True)
        if not os.path.islink(os.path.join(mon.scratch, "link")):
            os.symlink(os.path.join("far", "away"), os.path.join(mon.scratch, "link"))
        return os.path.join(mon.scratch, "link", "..", "%d-l.txt" % k)
    p = os.path.join(mon.scratch, "%d-%s" % (k, base)) if "/" not in base else os.path.join(mon.scratch, base)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    return os.path.relpath(p) if r.randint(3) == 0 else p


def as_path(r, path):
    """every kind of path that open() takes"""
    return [path, path, pathlib.Path(path), os.fsencode(path)][r.randint(4)]


def prefill(path, r):
    t = r.randint(4)
    if t == 0:
        with open(path, "w") as f:
            f.write("9,9\n" + "1,2,3.0,4.0\n" * 2000)
    elif t == 1:
        open(path, "w").close()
    elif os.path.exists(path):
        os.remove(path)


def fds():
    return len(os.listdir("/proc/self/fd"))


def parse(path):
    """the documented format: a line of two integers, then lines of numbers"""
    try:
        with open(path) as f:
            lines = f.read().split("\n")
        if lines[-1] != "":
            raise ValueError("no newline at the end")
        head = [int(x) for x in lines[0].split(",")]
        rows = [[float(x) for x in l.split(",")] for l in lines[1:-1]]
    except Exception as e:
        raise Violation("file-content", "the file cannot be parsed: %s: %s" % (type(e).__name__, e))
    return head, rows


def eq(got, want, key, what):
    if got.shape != want.shape:
        raise Violation(key, "%s: size %s instead of %s" % (what, got.shape, want.shape))
    bad = ~(got == want)
    if bad.any():
        i = tuple(int(j[0]) for j in np.nonzero(bad))
        raise Violation(key, "%s: at %s reads %r, saved %r" % (what, i, got[i], want[i]))


def packed(nmax, mmax):
    out = [(n, 0) for n in range(nmax + 1)]
    for m in range(1, mmax + 1):
        out += [(n, -m) for n in range(m, nmax + 1)] + [(n, m) for n in range(m, nmax + 1)]
    return out


def content_patt(mon, path, a, what):
    head, rows = parse(path)
    if head != list(a.shape):
        raise Violation("file-content", "%s: first line says %s" % (what, head))
    if len(rows) != a.size:
        raise Violation("file-content", "%s: %d lines for %d values" % (what, len(rows), a.size))
    got = np.full(a.shape, np.nan, np.complex128)
    for x in rows:
        if len(x) != 4 or x[0] != int(x[0]) or x[1] != int(x[1]) or not (0 <= x[0] < a.shape[0]
                                                                        and 0 <= x[1] < a.shape[1]):
            raise Violation("file-content", "%s: line %r" % (what, x))
        got.real[int(x[0]), int(x[1])] = x[2]
        got.imag[int(x[0]), int(x[1])] = x[3]
    eq(got, a, "file-content", what)
    mon.ok("file-content")


def content_coef(mon, path, A, nmax, mmax, what):
    head, rows = parse(path)
    if head != [nmax, mmax]:
        raise Violation("file-content", "%s: first line says %s" % (what, head))
    idx = packed(nmax, mmax)
    if len(rows) != len(idx) or any(len(x) != 2 for x in rows):
        raise Violation("file-content", "%s: %d lines for %d coefficients" % (what, len(rows), len(idx)))
    got = np.zeros_like(A)
    for (n, m), x in zip(idx, rows):
        got[n, m + mmax] = complex(*x)
    eq(got, A, "file-content", what)
    mon.ok("file-content")


def pattern(sp, case, sym=1, extra=0):
    """a pattern whose grid is exactly symmetric"""
    a = complexes(case["vals"], (case["nr"], case["nc"]), case["seed"] + extra)
    h = case["nc"] // 2
    for row in (0, -1):
        a[row, h:] = sym * a[row, :h]
    return a


def coefs(sp, case, extra=0, mono=False):
    nmax, mmax = case["nmax"], case["mmax"]
    A = complexes(case["vals"], (nmax + 1, 2 * mmax + 1), case["seed"] + extra)
    for n in range(nmax + 1):
        for m in range(-mmax, mmax + 1):
            if abs(m) > n or (mono and n == 0):
                A[n, m + mmax] = 0
    return A


def num(r, x):
    f = [lambda x: repr(float(x)), lambda x: "%.17g" % x, lambda x: " %.16e" % x, lambda x: "%+.17e " % x,
         lambda x: "%.20e" % x, lambda x: "%.17E" % x, lambda x: "%d" % x if x == int(x) and abs(x) < 1e9 else repr(float(x))]
    return f[r.randint(len(f))](x)


def foreign(path, lines, r):
    """the lines, with the line ends of one system or another, the last of them perhaps missing"""
    end = gen.pick(r, ["\n", "\n", "\r\n"])
    with open(path, "w", newline="") as f:
        f.write(end.join(lines) + gen.pick(r, [end, end, ""]))


def run(case, mon):
    sp = mon.sp
    import spherepy.file as fl
    r = gen.rs(case["seed"])
    n0 = fds()
    op = case["op"]
    if op == "turns":
        return turns(case, mon, fl, r)
    if op == "fault":
        return fault(case, mon, fl, r)
    path = name(mon, r)
    if op in ("patt", "vpatt"):
        sym = 1 if op == "patt" else -1
        a = pattern(sp, case, sym)
        st = (op, case["nr"], case["nc"], case["vals"])
        what = "%s %dx%d of %s" % (op, case["nr"], case["nc"], case["vals"])
        if op == "patt":
            p = sp.ScalarPatternUniform(a.copy())
            eq(np.array(p.array), a, "construct", what)
            prefill(path, r)
            mon.call(fl.save_patt, p, as_path(r, path))
            content_patt(mon, path, a, what)
            q = mon.call(fl.load_patt, as_path(r, path))
            if type(q) is not sp.ScalarPatternUniform:
                raise Violation("load-back", what + ": loads as %s" % type(q).__name__)
            eq(read_sp(q)[0], a, "load-back", what + " loaded")
            eq(read_sp(q)[1], np.array(p.doublesphere), "load-back", what + " loaded, double sphere")
            mon.ok("load-back", st)
            eq(np.array(p.array), a, "save-argument", what + " after the save")
            fdata = mon.call(fl.load_fdata, as_path(r, path))
            eq(np.array(fdata), a, "load-back", what + " through load_fdata")
            # over the same name at once, often with the same number of bytes
            a2 = a[::-1].copy() if r.randint(2) else -a
            mon.call(fl.save_patt, sp.ScalarPatternUniform(a2.copy()), as_path(r, path))
            content_patt(mon, path, a2, what + " saved over another")
            eq(read_sp(mon.call(fl.load_patt, as_path(r, path)))[0], a2, "load-back", what + " saved over another and loaded")
            eq(np.array(mon.call(fl.load_fdata, as_path(r, path))), a2, "load-back", what + " saved over another, load_fdata")
            # written by somebody else: documented format, any order of the lines
            lines = ["%d,%d,%s,%s" % (i, j, num(r, a[i, j].real), num(r, a[i, j].imag))
                     for i in range(a.shape[0]) for j in range(a.shape[1])]
            r.shuffle(lines)
            foreign(path, ["%d,%d" % a.shape] + lines, r)
            eq(read_sp(mon.call(fl.load_patt, as_path(r, path)))[0], a, "foreign-file", what + " from a foreign file")
            eq(np.array(mon.call(fl.load_fdata, as_path(r, path))), a, "foreign-file", what + " from a foreign file, load_fdata")
            mon.ok("foreign-file", st)
        else:
            b = pattern(sp, case, sym, 7)
            p = sp.TransversePatternUniform(a.copy(), b.copy())
            path2 = name(mon, r) + "2"
            prefill(path, r)
            prefill(path2, r)
            t, f, td, fd = read_tp(p)
            for pa, x, d in ((path, a, td), (path2, b, fd)):
                s = sp.ScalarPatternUniform(d.copy(), doublesphere=True)
                mon.call(fl.save_patt, s, as_path(r, pa))
                content_patt(mon, pa, x, what)
            q = mon.call(fl.load_vpatt, as_path(r, path), as_path(r, path2))
            if type(q) is not sp.TransversePatternUniform:
                raise Violation("load-back", what + ": loads as %s" % type(q).__name__)
            t2, f2, td2, fd2 = read_tp(q)
            for got, want, w in ((t2, a, "theta"), (f2, b, "phi"), (td2, td, "theta double"),
                                 (fd2, fd, "phi double")):
                eq(got, want, "load-back", what + " loaded, " + w)
            mon.ok("load-back", st)
            for pa, x in ((path, a), (path2, b)):
                lines = ["%d,%d,%s,%s" % (i, j, num(r, x[i, j].real), num(r, x[i, j].imag))
                         for i in range(x.shape[0]) for j in range(x.shape[1])]
                if r.randint(2):
                    r.shuffle(lines)
                foreign(pa, ["%d,%d" % x.shape] + lines, r)
            t2, f2, td2, fd2 = read_tp(mon.call(fl.load_vpatt, as_path(r, path), as_path(r, path2)))
            for got, want, w in ((t2, a, "theta"), (f2, b, "phi"), (td2, td, "theta double"), (fd2, fd, "phi double")):
                eq(got, want, "foreign-file", what + " from foreign files, " + w)
            mon.ok("foreign-file", st)
            os.remove(path2)
    else:
        nmax, mmax = case["nmax"], case["mmax"]
        st = (op, nmax, mmax, case["vals"])
        what = "%s nmax=%d mmax=%d of %s" % (op, nmax, mmax, case["vals"])
        if op == "coef":
            A = coefs(sp, case)
            c = fill(sp, A)
            prefill(path, r)
            mon.call(fl.save_coef, c, as_path(r, path))
            content_coef(mon, path, A, nmax, mmax, what)
            d = mon.call(fl.load_coef, as_path(r, path))
            if type(d) is not sp.ScalarCoefs or (d.nmax, d.mmax) != (nmax, mmax):
                raise Violation("load-back", what + ": loads as %s" % type(d).__name__)
            eq(read_sc(d), A, "load-back", what + " loaded")
            mon.ok("load-back", st)
            eq(read_sc(c), A, "save-argument", what + " after the save")
            # over the same name at once, often with the same number of bytes
            A2 = A[:, ::-1] if r.randint(2) else -A
            mon.call(fl.save_coef, fill(sp, A2), as_path(r, path))
            content_coef(mon, path, A2, nmax, mmax, what + " saved over another")
            eq(read_sc(mon.call(fl.load_coef, as_path(r, path))), A2, "load-back", what + " saved over another and loaded")
            foreign(path, ["%d,%d" % (nmax, mmax)] + ["%s,%s" % (num(r, A[n, m + mmax].real), num(r, A[n, m + mmax].imag))
                                                      for n, m in packed(nmax, mmax)], r)
            eq(read_sc(mon.call(fl.load_coef, as_path(r, path))), A, "foreign-file", what + " from a foreign file")
            mon.ok("foreign-file", st)
        else:
            A, B = coefs(sp, case, 0, True), coefs(sp, case, 9, True)
            direct = float(doubles(case["vals"], (1,), case["seed"] + 4)[0])
            body = ["%d,%d,%s" % (nmax, mmax, num(r, direct))]
            for D in (A, B):
                body += ["%s,%s" % (num(r, D[n, m + mmax].real), num(r, D[n, m + mmax].imag))
                         for n, m in packed(nmax, mmax)]
                if D is A:
                    body.append(gen.pick(r, ["break", "break ", " break"]))
            foreign(path, body, r)
            got = mon.call(fl.load_vcoef, as_path(r, path))
            if not (isinstance(got, tuple) and len(got) == 2 and type(got[0]) is sp.VectorCoefs):
                raise Violation("foreign-file", what + ": load_vcoef returned %r" % (got,))
            X, Y = read_vc(got[0])
            eq(X, A, "foreign-file", what + " first set")
            eq(Y, B, "foreign-file", what + " second set")
            if float(got[1]) != direct:
                raise Violation("foreign-file", what + ": directivity %r instead of %r" % (got[1], direct))
            mon.ok("foreign-file", st)
    if os.path.exists(path):
        os.remove(path)
    mon.check(fds() == n0, "file-closed", lambda: "%d descriptors before, %d after" % (n0, fds()))


def turns(case, mon, fl, r):
    """saved and loaded again and again under few names, faster than the clock of the file system, or with its times put
    back: every load is of what was written last"""
    sp = mon.sp
    kind = case["kind"]
    nmax, mmax = case["nmax"], case["mmax"]
    if kind in ("patt", "vpatt", "fdata"):
        d = {"nr": nmax + 2, "nc": 2 * mmax + 2, "vals": case["vals"], "seed": case["seed"]}
        sets = [pattern(sp, d, -1 if kind == "vpatt" else 1, k) for k in range(2)]
        sets = [s if k < 2 else s[::-1].copy() for k in range(4) for s in [sets[k % 2]]]     # some as many bytes long
        objs = [sp.ScalarPatternUniform(s.copy()) if kind != "vpatt" else
                sp.ScalarPatternUniform(np.array(sp.TransversePatternUniform(s.copy(), s.copy()).theta_double), doublesphere=True)
                for s in sets]
    else:
        sets = [coefs(sp, case, k, kind == "vcoef") for k in range(2)]
        sets = [s if k < 2 else s[:, ::-1].copy() for k in range(4) for s in [sets[k % 2]]]
        objs = [fill(sp, s) for s in sets]
        if kind == "vcoef":
            lines = lambda s: ["%.16e,%.16e" % (s[n, m + mmax].real, s[n, m + mmax].imag) for n, m in packed(nmax, mmax)]
            objs = ["\n".join(["%d,%d,%.16e" % (nmax, mmax, 1.5)] + lines(s) + ["break"] + lines(s[:, ::-1])) + "\n" for s in sets]
    paths = [os.path.join(mon.scratch, "turn%d.txt" % k) for k in range(3)]
    back, swap = bool(r.randint(2)), bool(r.randint(2))
    if kind == "vcoef":
        def save(o, path):
            with open(path, "w") as f:
                f.write(o)
        load = fl.load_vcoef
    else:
        save = fl.save_patt if kind in ("patt", "vpatt", "fdata") else fl.save_coef
        load = {"patt": fl.load_patt, "vpatt": lambda p: fl.load_vpatt(p, p), "fdata": fl.load_fdata, "coef": fl.load_coef}[kind]
    held = [None] * 3
    got = []
    for turn in range(12):
        k, which = int(r.randint(3)), int(r.randint(4))
        mon.call(save, objs[which], paths[k])
        held[k] = which
        if back:
            os.utime(paths[k], ns=(10 ** 18, 10 ** 18))
        if swap and held[(k + 1) % 3] is not None and r.randint(2):
            j = (k + 1) % 3
            os.rename(paths[k], paths[k] + "x")
            os.rename(paths[j], paths[k])
            os.rename(paths[k] + "x", paths[j])
            held[k], held[j] = held[j], held[k]
        for k in ([k] if r.randint(2) else [k for k in range(3) if held[k] is not None]):
            got.append((turn, k, held[k], mon.call(load, paths[k])))
    what = "%s nmax=%d mmax=%d of %s" % (kind, nmax, mmax, case["vals"])
    for turn, k, which, x in got:
        w = what + ", turn %d%s" % (turn, " with the time of the file put back" if back else "")
        s = sets[which]
        if kind == "patt":
            pairs = [(read_sp(x)[0], s)]
        elif kind == "vpatt":
            t, f, td, fd = read_tp(x)
            pairs = [(t, s), (f, s)]
        elif kind == "fdata":
            pairs = [(np.array(x), s)]
        elif kind == "coef":
            pairs = [(read_sc(x), s)]
        else:
            pairs = list(zip(read_vc(x[0]), (s, s[:, ::-1])))
        for g, want in pairs:
            eq(g, want, "loaded-last", w)
        mon.ok("loaded-last", (kind, nmax, mmax, turn, back, swap))
    for p in paths:
        if os.path.exists(p):
            os.remove(p)


def fault(case, mon, fl, r):
    sp = mon.sp
    if case["patt"]:
        d = {"nr": case["nmax"] + 2, "nc": 2 * case["mmax"] + 2, "vals": "gauss", "seed": case["seed"]}
        a = pattern(sp, d)
        obj = sp.ScalarPatternUniform(a.copy())
        save, check = fl.save_patt, lambda path: content_patt(mon, path, a, "pattern")
        unchanged = lambda: np.array_equal(np.array(obj.array), a)
    else:
        A = coefs(sp, dict(case, vals="gauss"))
        obj = fill(sp, A)
        save = fl.save_coef
        check = lambda path: content_coef(mon, path, A, case["nmax"], case["mmax"], "coefficients")
        unchanged = lambda: np.array_equal(read_sc(obj), A)
    n0 = fds()
    path = os.path.join(mon.scratch, "fault.txt")
    if os.path.lexists(path):
        os.remove(path)
    how = case["how"]
    st = (how, case["patt"], case["nmax"], case["mmax"])
    mon.call(save, obj, path)
    check(path)
    size = os.path.getsize(path)
    os.remove(path)
    if how == "limit":
        # every save against a limit below its size has to raise; at its size it has to succeed
        for lim in sorted({0, 1, size - 1, size, size // 2, int(r.randint(0, size)), int(r.randint(0, size))}):
            old = resource.getrlimit(resource.RLIMIT_FSIZE)
            sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            err = None
            try:
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, old[1]))
                try:
                    save(obj, path)
                except Exception as e:
                    err = e
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, old)
                signal.signal(signal.SIGXFSZ, sig)
            if lim >= size:
                if err is not None:
                    raise Violation("fault-boundary", "a save of %d bytes with room for %d raised %r" %
                                    (size, lim, err))
                check(path)
                mon.ok("fault-boundary", st)
            elif err is None:
                try:
                    check(path)
                except Violation as v:
                    raise Violation("fault-silent", "a save of %d bytes with room for %d returned normally; %s" %
                                    (size, lim, v.detail))
            else:
                mon.ok("fault-raises", st + (lim * 8 // size,))
            err = None
            if os.path.exists(path):
                os.remove(path)
    else:
        if how == "full":
            os.symlink("/dev/full", path)
        elif how == "nodir":
            path = os.path.join(mon.scratch, "missing", "x.txt")
        else:
            os.makedirs(path)
        try:
            save(obj, path)
        except Exception:
            mon.ok("fault-raises", st)
        else:
            try:
                if how == "full" and os.path.islink(path):
                    raise Violation("fault", "nothing was stored")
                check(path)
            except Violation as v:
                raise Violation("fault-silent", "a save (%s) returned normally; %s" % (how, v.detail))
        if how == "isdir":
            os.rmdir(path)
        elif how == "full":
            os.remove(path)
        path = os.path.join(mon.scratch, "fault.txt")
    if not unchanged():
        raise Violation("save-argument", "a failed save changed its argument")
    # and after the fault everything works again
    mon.call(save, obj, path)
    check(path)
    os.remove(path)
    mon.check(fds() == n0, "file-closed", lambda: "%d descriptors before, %d after" % (n0, fds()))
