"""C07: the same call under both settings of the backend, and the low level routines of both, side by side."""
import numpy as np

from checks.C03 import FORMS, data
from rt import gen, judges
from rt.monitor import Violation, fill, fill_v, read_sc, read_sp, read_tp, read_vc

RULE = ("transforms of random coefficients and arbitrary patterns on swept and random sizes, each executed with the "
        "compiled and with the Python backend and by the explicitly pure Python functions; low level routines on "
        "arbitrary Fourier data (highest frequency free); invalid argument combinations under both settings. Distinct by (operation, sizes).")
ROUNDS = {"quick": 3}
MIN = {"pair-spht": 100, "pair-ispht": 100, "pair-vspht": 80, "pair-vispht": 80, "pair-low": 100, "pair-length": 90, "pair-reject": 50}


def cases(tier, r, variant):
    big = tier == "thorough"
    for _ in range(10 if big else 1):
        for c in gen.grid_sweep(r, 8 if big else 7, gen.KINDS):
            yield dict(c, op=gen.pick(r, ["coefs", "patt", "vcoefs", "vpatt"]), form=gen.pick(r, FORMS))
        for c in gen.random_grids(r, 700 if big else 300, 24):
            yield dict(c, op=gen.pick(r, ["coefs", "patt", "vcoefs", "vpatt"]), form=gen.pick(r, FORMS))
        for c in gen.random_grids(r, 300 if big else 150, 30, ["gauss", "real", "imag", "wide", "sparse", "tiny"]):
            yield dict(c, op="low", odd=int(r.randint(2)))
        for c in gen.random_grids(r, 200 if big else 100, 8, ["gauss"]):
            yield dict(c, op="reject", dn=[int(x) for x in r.randint(-3, 3, size=4)])
    for c in gen.large(r, False, True):
        if (c["nmax"] + 1) * (c["mmax"] + 1) * c["nrows"] > (3000000 if big else 60000) or c["nrows"] * c["ncols"] > 90000:
            continue                        # the Python backend is too slow for these
        for op in (["coefs", "patt", "vcoefs", "vpatt"] if big else ["coefs", "vcoefs"]):
            yield dict(c, op=op, form=gen.pick(r, FORMS))
    for n, m in gen.ladder_coefs(r, 9, 120 if big else 72, 60 if big else 30, 1):
        yield {"op": gen.pick(r, ["coefs", "patt", "vcoefs", "vpatt"]), "nmax": n, "mmax": m, "nrows": None, "ncols": None,
               "kind": gen.pick(r, gen.KINDS), "form": gen.pick(r, FORMS), "seed": gen.seed_of(r)}
    for _ in range(12 if big else 2):                     # many degrees, few orders
        for lo in (130, 256, 384, 512):
            n = lo + int(r.randint(0, 100))
            yield {"op": gen.pick(r, ["coefs", "vcoefs", "vcoefs", "vpatt"]), "nmax": n, "mmax": int(r.randint(0, 2)),
                   "nrows": None, "ncols": None, "kind": gen.pick(r, gen.KINDS), "form": gen.pick(r, FORMS),
                   "seed": gen.seed_of(r)}
    for Q in smooth(20000 if big else 2600) + [32400, 32768, 36450, 40000, 65536]:      # every length of the FFT
        yield {"op": "length", "Q": Q, "nmax": 2 + Q % 2 - 2 * int(r.randint(2)), "mmax": int(r.randint(0, 3)),
               "nrows": None, "ncols": 6, "kind": gen.pick(r, gen.KINDS), "seed": gen.seed_of(r)}
    yield {"op": "ynunm", "nmax": 80 if big else 40, "mmax": 0, "seed": 0}
    yield {"op": "coefs", "nmax": 90, "mmax": 5, "nrows": 92, "ncols": 12, "kind": "gauss", "seed": 3}
    yield {"op": "vcoefs", "nmax": 60, "mmax": 5, "nrows": 64, "ncols": 12, "kind": "gauss", "seed": 4}


def smooth(hi):
    """numbers from 4 on without prime factors over 5"""
    return sorted(2 ** a * 3 ** b * 5 ** c for a in range(16) for b in range(10) for c in range(7)
                  if 4 <= 2 ** a * 3 ** b * 5 ** c <= hi)


def both(mon, f):
    """f under the compiled and under the Python backend: pairs ('ok', value) or ('raised', type name)"""
    mod = mon.sp.spherepy
    old = mod.use_cext
    out = []
    try:
        for v in ("True", False):
            mod.use_cext = v
            try:
                out.append(("ok", f()))
            except Violation:
                raise
            except Exception as e:
                out.append(("raised", type(e).__name__, str(e)))
    finally:
        mod.use_cext = old
    return out


def setup(mon):
    mon.notes = []
    cs, py = mon.sp.csphi, mon.sp.pysphi
    for m, tag in ((cs, "native"), (py, "python")):
        for name in ("fc_to_sc", "sc_to_fc"):
            f = getattr(m, name, None)
            if f is None:
                continue

            def w(*a, _f=f, _t=tag + "." + name, **k):
                mon.events[_t] += 1
                return _f(*a, **k)
            setattr(m, name, w)


def same(mon, name, f, tol, state, more=(), may_raise=False):
    r = both(mon, f)
    if may_raise and r[0][0] == r[1][0] == "raised":
        return
    vals = [x for x in r] + [("ok", g()) for g in more]
    if any(x[0] != "ok" for x in vals):
        raise Violation("pair-" + name, "one backend raises: %r" % [x[:3] if x[0] != "ok" else "ok" for x in vals])
    for v in vals[1:]:
        mon.close(v[1], vals[0][1], tol, "pair-" + name, "%s %s" % (name, state), (name,) + tuple(state))


def run(case, mon):
    sp = mon.sp
    op = case["op"]
    if op == "ynunm":
        for n in range(case["nmax"] + 1):
            for m in sorted({-n - 1, -n, -n // 2, -1, 0, 1, n // 2, n, n + 2}):
                for L in (n + 1, n + 4):
                    y = np.full(L, np.nan)
                    sp.csphi.ynunm(n, m, y)
                    q = sp.pysphi.ynunm(n, m, L)
                    mon.close(y, q, 1e-13 * float(np.max(np.abs(q)) + 1e-300), "pair-ynunm", "ynunm(%d, %d)" % (n, m),
                              (n, m))
                a, b = sp.csphi.ynnm(n, m), sp.pysphi.ynnm(n, m)
                mon.close(a, b, 1e-13 * abs(b), "pair-ynnm", "ynnm(%d, %d)" % (n, m), None)
        return
    if op == "length":
        nmax, nc = case["nmax"], case["ncols"]
        mmax = min(case["mmax"], nmax)
        rows = case["Q"] - nmax
        f = gen.values(case["kind"], (rows, nc), case["seed"])
        f[rows // 2] = 0
        sc = np.zeros((nmax + 1) + mmax * (2 * nmax - mmax + 1), np.complex128)
        mon.call(sp.csphi.fc_to_sc, f.copy(), sc, nmax, mmax)
        want = mon.call(sp.pysphi.fc_to_sc, f.copy(), nmax, mmax)
        mon.close(sc, want, 1e-13 * judges.norm(f), "pair-length", "fc_to_sc of %d rows, nmax=%d" % (rows, nmax),
                  ("length", case["Q"]))
        return
    nmax, mmax = case["nmax"], case["mmax"]
    nr, nc = judges.grid_of(nmax, mmax, case["nrows"], case["ncols"])
    T = int if op == "low" else [int, np.int64, int, np.int32][case["seed"] % 4]
    nmax, mmax, nr, nc = T(nmax), T(mmax), T(nr), T(nc)         # sizes may be NumPy integers
    st = (nmax, mmax, nr, nc, case.get("kind"))
    if op == "coefs":
        A = gen.coefs(case)
        c = fill(sp, A)
        tol = judges.synth_tol(A)
        same(mon, "ispht", lambda: read_sp(sp.ispht(c, nr, nc))[1], tol, st,
             [lambda: read_sp(sp.ispht_slow(c, nr, nc))[1]] if nr >= nmax + 2 else [])
        if nmax:                            # one row less than needed: still the same sum
            same(mon, "ispht-tight", lambda: read_sp(sp.ispht(c, nmax + 1, nc))[1], tol, (nmax, mmax, nmax + 1, nc),
                 may_raise=True)
        p = mon.call(sp.ispht, c, nr, nc)
        same(mon, "spht", lambda: read_sc(sp.spht(p, nmax, mmax)), tol, st,
             [lambda: read_sc(sp.spht_slow(p, nmax, mmax))])
    elif op == "patt":
        a = data(case["form"], nr, nc, case["seed"])
        p = sp.ScalarPatternUniform(a)
        n, m = nr - 2, min(nr - 2, nc // 2 - 1)
        tol = 8 * judges.EPS * (float(np.max(np.abs(p.doublesphere))) or 1.0)
        for (n, m) in ((n, m), (nmax, min(mmax, nmax))):
            same(mon, "spht", lambda: read_sc(sp.spht(p, n, m)), tol, (n, m, nr, nc),
                 [lambda: read_sc(sp.spht_slow(p, n, m))])
    elif op == "vcoefs":
        A, B = gen.vcoefs(dict(case, which=3, rel=gen.RELS[case["seed"] % 8]))
        v = fill_v(sp, A, B)
        tol = 2 * judges.synth_tol(A, B)
        same(mon, "vispht", lambda: np.array(read_tp(sp.vispht(v, nr, nc))[2:]), tol, st)
        p = mon.call(sp.vispht, v, nr, nc)
        same(mon, "vspht", lambda: np.array(read_vc(sp.vspht(p, nmax, mmax))), tol, st)
    elif op == "vpatt":
        p = sp.TransversePatternUniform(data(case["form"], nr, nc, case["seed"]),
                                        data("gauss", nr, nc, case["seed"] + 1))
        tol = 16 * judges.EPS * (max(float(np.max(np.abs(d))) for d in p.doublesphere) or 1.0)
        n = nr - 2
        m = min(n, nc // 2 - 1)
        same(mon, "vspht", lambda: np.array(read_vc(sp.vspht(p, n, m))), tol, (n, m, nr, nc))
    elif op == "low":
        rows = 2 * nr - 2
        f = gen.values(case["kind"], (rows, nc), case["seed"])
        f[rows // 2] = 0        # the routines are for data without the highest frequency
        L = (nmax + 1) + mmax * (2 * nmax - mmax + 1)
        sc = np.zeros(L, np.complex128)
        mon.call(sp.csphi.fc_to_sc, f.copy(), sc, nmax, mmax)
        want = mon.call(sp.pysphi.fc_to_sc, f.copy(), nmax, mmax)
        mon.close(sc, want, 1e-12 * judges.norm(f) * 10, "pair-low", "fc_to_sc %s" % (st,), ("fc_to_sc",) + st)
        vec = gen.values(case["kind"], L, case["seed"] + 2)
        rows += case["odd"]
        g = np.zeros((rows, nc), np.complex128)
        mon.call(sp.csphi.sc_to_fc, g, vec.copy(), nmax, mmax)
        want = mon.call(sp.pysphi.sc_to_fc, vec.copy(), nmax, mmax, rows, nc)
        mon.close(g, want, 1e-12 * judges.norm(vec) * 10, "pair-low", "sc_to_fc %s" % (st,),
                  ("sc_to_fc", case["odd"]) + st)
        Q = sp.csphi.FindQ(rows - case["odd"] + nmax + 1)
        s = np.full(Q, 7 + 7j)
        mon.call(sp.csphi.SData, s, rows - case["odd"], nmax)
        mon.close(s, mon.call(sp.pysphi.s_data, rows - case["odd"], nmax, Q), 1e-14, "pair-low", "s data", None)
    elif op == "reject":
        dn = case["dn"]
        c = fill(sp, gen.coefs(case))
        v = fill_v(sp, gen.coefs(case), gen.coefs(case))
        a, b = max(nmax + 2 + dn[0], 1), max(2 * mmax + 2 + dn[1], 1)
        p = sp.zeros_patt_uniform(max(nr, 2), nc)
        q = sp.zeros_patt_uniform(max(nr, 2), nc, patt_type=sp.vector)
        n, m = max(nr - 2 + dn[2], 0), max(nc // 2 - 1 + dn[3], 0)
        for name, f, slow in (("ispht", lambda: sp.ispht(c, a, b), lambda: sp.ispht_slow(c, a, b)),
                              ("vispht", lambda: sp.vispht(v, a, b), None),
                              ("spht", lambda: sp.spht(p, n, m), lambda: sp.spht_slow(p, n, m)),
                              ("spht defaults", lambda: sp.spht(p, n), None),
                              ("spht mmax", lambda: sp.spht(p, mmax=m), None),
                              ("vspht", lambda: sp.vspht(q, n, m), None)):
            r = both(mon, f)
            if slow is not None and not (name == "ispht" and a == nmax + 1):
                try:
                    z = ("ok", slow())
                except Exception as e:
                    z = ("raised", type(e).__name__, str(e))
                mon.check(z[0] == r[0][0] and (z[0] == "ok" or z[1] == r[0][1]), "pair-reject",
                          lambda: "%s: compiled %r, explicitly Python %r" % (name, r[0][:3], z[:3]),
                          (name, "slow", a, b, n, m, z[0]))
            mon.check(r[0][0] == r[1][0] and (r[0][0] == "ok" or r[0][1] == r[1][1]), "pair-reject",
                      lambda: "%s: compiled %r, Python %r" % (name, r[0][:3], r[1][:3]),
                      (name, a, b, n, m, r[0][0]))


def finish(mon):
    mon.notes.append("events per backend: " + ", ".join("%s=%d" % i for i in sorted(mon.events.items())))
