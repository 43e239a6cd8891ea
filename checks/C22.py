"""C22: what the verification routines report, against the discrepancy computed from the same files by other means."""
import math
import os

import numpy as np

from checks.C14 import packed
from rt import gen, oracle
from rt.monitor import Violation, dense_mask, double, resize

RULE = ("files written by the harness: consistent pairs (made by the reference sums), the same with one or several "
        "stored values of one file changed by 1e-6 to 1e6 of their size, unrelated pairs, coefficient files smaller "
        "than the grid holds; each routine's four numbers are compared with the norms of the difference obtained from "
        "the reference transforms. Distinct by (routine, sizes, what was changed).")
ROUNDS = {"quick": 3}
MIN = {"report": 800, "consistent": 25}
CPU_LIMIT = 240

MODES = ["consistent", "patt-one", "coef-one", "patt-few", "coef-few", "unrelated", "patt-pole", "smaller"]


def cases(tier, r, variant):
    big = tier == "thorough"
    for rep in range(1 if not big else 6):
        for nmax in range(0, 6):
            for mmax in range(nmax + 1):
                for mode in MODES:
                    yield {"nmax": nmax, "mmax": mmax, "mode": mode, "seed": gen.seed_of(r)}
    for _ in range(160 if not big else 2500):
        nmax, mmax = gen.rand_size(r, 14 if not big else 20)
        yield {"nmax": nmax, "mmax": mmax, "mode": gen.pick(r, MODES), "seed": gen.seed_of(r)}


    for nmax, mmax in gen.ladder_coefs(r, 6, 40 if not big else 90, 20 if not big else 40):
        yield {"nmax": nmax, "mmax": mmax, "mode": gen.pick(r, MODES), "seed": gen.seed_of(r)}
    for nmax, mmax, nr, nc in [(19, 3, 21, 8), (24, 24, 26, 50), (30, 2, 32, 6), (45, 5, 47, 12), (3, 2, 40, 42),
                               (60, 1, 62, 4), (12, 10, 60, 30), (5, 3, 60, 80), (4, 4, 130, 70), (3, 1, 20, 260)]:
        for mode in (MODES if big else [MODES[r.randint(1, 6)], "consistent"]):
            yield {"nmax": nmax, "mmax": mmax, "nr": nr, "nc": nc, "mode": mode, "seed": gen.seed_of(r)}


def write_patt(path, a):
    with open(path, "w") as f:
        f.write("%d,%d\n" % a.shape)
        for i in range(a.shape[0]):
            for j in range(a.shape[1]):
                f.write("%d,%d,%.17e,%.17e\n" % (i, j, a[i, j].real, a[i, j].imag))


def write_coef(path, A):
    nmax, mmax = A.shape[0] - 1, (A.shape[1] - 1) // 2
    with open(path, "w") as f:
        f.write("%d,%d\n" % (nmax, mmax))
        for n, m in packed(nmax, mmax):
            f.write("%.17e,%.17e\n" % (A[n, m + mmax].real, A[n, m + mmax].imag))


def poles(a, sym):
    """the data with each pole row replaced by its symmetric part; an exact zero counts as missing (C13)"""
    b = a.copy()
    for i in (0, -1):
        o = sym * np.roll(a[i], -(a.shape[1] // 2))
        b[i] = np.where(a[i] == 0, o, np.where(o == 0, a[i], (a[i] + o) / 2))
    return b


def change(r, a, count, rows=None, mask=None):
    """`count` entries changed by a known deviation"""
    a = a.copy()
    big = float(np.max(np.abs(a))) or 1.0
    idx = np.argwhere(np.ones(a.shape, bool) if mask is None else mask)
    if rows is not None:
        idx = np.array([i for i in idx if i[0] in rows])
    if not len(idx):
        return a
    for k in r.choice(len(idx), size=min(count, len(idx)), replace=False):
        z = complex(r.normal(), r.normal())
        t = r.randint(4)
        z = z if t == 0 else z.real if t == 1 else 1j * z.imag if t == 2 else -2 * a[tuple(idx[k])] / big
        a[tuple(idx[k])] += z * big * 10.0 ** r.uniform(-6, 6)
    return a


def norms(*arrays):
    """(L2, LInf) of a scalar or of a pair of components: over a pair, the root of the squares of the components' norms"""
    parts = [(math.sqrt(float(np.sum(np.abs(a) ** 2))), float(np.max(np.abs(a)))) for a in arrays]
    return math.hypot(*[p[0] for p in parts]), math.hypot(*[p[1] for p in parts])


def report(mon, got, diff, stored, noise, what, st):
    """diff, stored: arrays; noise: rounding level of the difference per value"""
    try:
        got = [float(x) for x in got]
    except Exception:
        raise Violation("report", "%s: returned %r" % (what, got))
    if len(got) != 4:
        raise Violation("report", "%s: returned %r" % (what, got))
    d2, di = norms(*diff)
    s2, si = norms(*stored)
    n2 = noise * math.sqrt(sum(a.size for a in diff))
    for name, g, w, tol in (("L2", got[0], d2, n2), ("LInf", got[1], di, noise),
                            ("relative L2", got[2], d2 / s2 if s2 else None, n2 / s2 if s2 else None),
                            ("relative LInf", got[3], di / si if si else None, noise / si if si else None)):
        if w is None:
            continue
        if tol:
            key = "%s %s" % (what.split(",")[0], name)
            mon.worst[key] = max(mon.worst.get(key, 0.0), abs(g - w) / (tol + 1e-11 * w))
        if not abs(g - w) <= tol + 1e-11 * w:
            raise Violation("report", "%s: %s reported as %r, is %r (rounding %.2g)" % (what, name, g, w, tol))
        mon.ok("report", (name,) + st)


def run(case, mon):
    sp = mon.sp
    from spherepy import verify as vf
    r = gen.rs(case["seed"])
    nmax, mmax, mode = case["nmax"], case["mmax"], case["mode"]
    nr, nc = (case["nr"], case["nc"]) if "nr" in case else gen.rand_grid(r, nmax, mmax, 5)
    gen_kind = gen.pick(r, ["gauss", "real", "wide", "decay", "tiny", "huge"])
    A = gen.coefs({"nmax": nmax, "mmax": mmax, "kind": gen_kind, "seed": gen.seed_of(r)})
    B = gen.coefs({"nmax": nmax, "mmax": mmax, "kind": gen_kind, "seed": gen.seed_of(r)})
    sp.spherepy.use_cext = "True" if r.randint(4) else False
    path = lambda s: os.path.join(mon.scratch, s)                                                   # noqa: E731
    mask = dense_mask(nmax, mmax)
    st = (nmax, mmax, nr, nc, mode)
    what = "nmax=%d mmax=%d on %dx%d, %s" % (nmax, mmax, nr, nc, mode)

    def vary(arrs, coef, allowed=True):
        """applies the change to one of the arrays"""
        arrs = list(arrs)
        i = int(r.randint(len(arrs)))
        mk = mask.copy() if coef else None
        if coef and len(arrs) == 2:
            mk[0] = False
        if mode == "unrelated" and not coef:
            arrs = [gen.values("gauss", a.shape, gen.seed_of(r)) * (np.max(np.abs(a)) or 1.0) for a in arrs]
        elif mode == ("coef-one" if coef else "patt-one"):
            arrs[i] = change(r, arrs[i], 1, None if coef else range(1, nr - 1), mk)
        elif mode == ("coef-few" if coef else "patt-few"):
            arrs[i] = change(r, arrs[i], int(r.randint(2, 6)), None if coef else range(1, nr - 1), mk)
        elif mode == "patt-pole" and not coef:
            arrs[i] = change(r, arrs[i], 1, (0, nr - 1))
        elif mode == "smaller" and coef:
            k = int(r.randint(0, nmax + 1))
            arrs = [resize(a, k, min(k, mmax, int(r.randint(0, mmax + 1)))) for a in arrs] if len(arrs) == 1 else \
                [resize(a, k, min(k, mmax)) for a in arrs]
        return arrs

    # ---- scalar
    p = oracle.synth_scalar(A, nr, nc)
    (a,) = vary([p], False)
    (C,) = vary([A], True)
    write_patt(path("p"), a)
    write_coef(path("c"), C)
    a = poles(a, 1)
    d = double(a, 1)
    big = float(np.max(np.abs(d))) if d.size else 0.0
    top = float(np.max(np.abs(C)))
    want = oracle.analyse_scalar(d, C.shape[0] - 1, (C.shape[1] - 1) // 2)
    m2 = dense_mask(C.shape[0] - 1, (C.shape[1] - 1) // 2)
    noise = 1e-14 * (big + top) * (1 + nmax)
    report(mon, mon.call(vf.verify_spht, path("p"), path("c")), [(C - want)[m2]], [C[m2]], noise,
           "verify_spht, " + what, ("spht",) + st)
    q = double(oracle.synth_scalar(C, nr, nc), 1)
    noise = 1e-14 * (big + top) * (1 + nmax) ** 2
    report(mon, mon.call(vf.verify_ispht, path("p"), path("c")), [d - q], [d], noise, "verify_ispht, " + what,
           ("ispht",) + st)
    if mode == "consistent":
        mon.ok("consistent", st)
    # ---- Fourier data
    rows = 2 * nr - 2
    F = np.fft.fft2(double(oracle.synth_scalar(C, nr, nc), 1)) / (rows * nc)
    G = F.copy()
    if mode in ("patt-one", "patt-pole", "coef-one"):
        G = change(r, F, 1)
    elif mode in ("patt-few", "coef-few"):
        G = change(r, F, 4)
    elif mode == "unrelated":
        G = gen.values("gauss", F.shape, gen.seed_of(r)) * (np.max(np.abs(F)) or 1.0)
    write_patt(path("f"), G)
    got = float(mon.call(vf.verify_fdata, path("f"), path("c")))
    dev = float(np.max(np.abs(F - G)))
    if not abs(got - dev) <= 1e-14 * top * (1 + nmax) + 1e-11 * dev:
        raise Violation("report", "verify_fdata, %s: reported %r, is %r" % (what, got, dev))
    mon.ok("report", ("fdata",) + st)
    for k in range(6):                  # one deviation, anywhere
        G = change(r, F, 1) if k else F + 0
        if not k:
            G.flat[-1] += big or 1.0
        write_patt(path("f"), G)
        got, dev = float(mon.call(vf.verify_fdata, path("f"), path("c"))), float(np.max(np.abs(F - G)))
        if not abs(got - dev) <= 1e-14 * top * (1 + nmax) + 1e-11 * dev:
            raise Violation("report", "verify_fdata, one deviation, %s: reported %r, is %r" % (what, got, dev))
        mon.ok("report", ("fdata-one",) + st)
    # ---- vector
    A[0] = B[0] = 0
    if r.randint(5) == 0:                     # one set far below the other
        w = 10.0 ** r.uniform(-13, -3)
        A, B = (A * w, B) if r.randint(2) else (A, B * w)
    elif r.randint(3) == 0:                   # sets that depend on each other, or only one
        A, B = [(A, A.copy()), (A, -A), (A, 1j * A), (A, A.conj()), (A, 0 * A), (0 * A, B)][r.randint(6)]
    t, f = oracle.synth_vector(A, B, nr, nc)
    t, f = vary([t, f], False)
    C, D = vary([A, B], True)
    for s, x in (("pt", t), ("pf", f)):
        write_patt(path(s), x)
    for s, x in (("c1", C), ("c2", D)):
        write_coef(path(s), x)
    # load_vpatt reads the components as they are and continues them with the negative sign
    t, f = poles(t, -1), poles(f, -1)
    td, fd = double(t, -1), double(f, -1)
    big = float(max(np.max(np.abs(td)), np.max(np.abs(fd))))
    top = float(max(np.max(np.abs(C)), np.max(np.abs(D))))
    n2, mm = C.shape[0] - 1, (C.shape[1] - 1) // 2
    m2 = dense_mask(n2, mm)
    W1, W2 = oracle.analyse_vector(td, fd, n2, mm)
    noise = 1e-14 * (big + top) * (1 + nmax) ** 2
    args = [path(x) for x in ("pt", "pf", "c1", "c2")]
    report(mon, mon.call(vf.verify_vspht, *args), [(C - W1)[m2], (D - W2)[m2]], [C[m2], D[m2]], noise,
           "verify_vspht, " + what, ("vspht",) + st)
    qt, qf = oracle.synth_vector(C, D, nr, nc)
    report(mon, mon.call(vf.verify_vispht, *args), [td - double(qt, -1), fd - double(qf, -1)], [td, fd],
           1e-14 * (big + top) * (1 + nmax) ** 3, "verify_vispht, " + what, ("vispht",) + st)
