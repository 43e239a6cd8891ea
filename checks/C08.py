"""C08: the compiled code under AddressSanitizer and UndefinedBehaviorSanitizer, under valgrind's memcheck, and with two
different contents of fresh heap memory."""
import os
import re

import numpy as np

from rt import gen, session
from rt.monitor import Violation, fill, fill_v

RULE = ("transforms, verification and low level calls at every (nmax, mmax) up to a bound with the least permitted and "
        "slightly larger grids of both parities, random larger sizes, and random sessions of mixed calls (files, "
        "Python fallback, rejected calls included), in an extension built with gcc's address and undefined behaviour "
        "sanitizers, again under valgrind (uninitialised values), and twice with fresh heap memory filled with "
        "different bytes, the results of which are compared. Distinct by (execution environment, call, sizes).")
MIN = {"call": 3000, "heap-compared": 150}
ASSUMPTIONS = ["accesses of NumPy's own code are not instrumented",
               "valgrind reports count when the extension is on the stack"]
CPU_LIMIT = 400

VG = ["valgrind", "-q", "--leak-check=no", "--num-callers=30", "--log-file=memcheck.%p.txt"]
VARIANTS = [
    {"name": "asan", "flavour": "asan"},
    {"name": "heap7f", "flavour": "plain", "env": {"MALLOC_PERTURB_": "128", "PYTHONMALLOC": "malloc"}},
    {"name": "heap00", "flavour": "plain", "env": {"MALLOC_PERTURB_": "255", "PYTHONMALLOC": "malloc"}},
    {"name": "memcheck", "flavour": "plain", "wrap": VG, "env": {"PYTHONMALLOC": "malloc"}},
]


def cases(tier, r, variant):
    big = tier == "thorough"
    if variant == "memcheck":
        for nmax in range(0, 4 if not big else 7):
            yield {"what": "grids", "sizes": [[nmax, m] for m in range(nmax + 1)], "seed": gen.seed_of(r)}
        for _ in range(4 if not big else 24):
            yield {"what": "grids", "sizes": [list(gen.rand_size(r, 9 if not big else 20))], "seed": gen.seed_of(r)}
        for _ in range(8 if not big else 40):
            yield {"what": "session", "steps": 12 if not big else 30, "hi": 3, "seed": gen.seed_of(r)}
        return
    for nmax in range(0, 11 if not big else 26):
        for mmax in range(nmax + 1):
            yield {"what": "grids", "sizes": [[nmax, mmax]], "seed": gen.seed_of(r)}
    for _ in range(80 if not big else 900):
        yield {"what": "grids", "sizes": [list(gen.rand_size(r, 40 if not big else 70))], "seed": gen.seed_of(r)}
    for _ in range(48 if not big else 500):
        yield {"what": "session", "steps": 60, "hi": int(gen.pick(r, [2, 4, 9, 16])), "seed": gen.seed_of(r)}
    for n in (200, 400) if not big else (200, 400, 900, 1100, 2000, 3000):
        yield {"what": "long", "nmax": n, "mmax": int(r.randint(0, 3)), "seed": gen.seed_of(r)}
    for n in (300,) if not big else (200, 300, 400):
        yield {"what": "wide", "nmax": n // 4, "mmax": n // 4, "seed": gen.seed_of(r)}
    yield {"what": "full", "nmax": 185, "mmax": 185, "seed": gen.seed_of(r)}
    for n, nr, nc in [(3, 300, 340), (9, 60, 2200), (2, 1400, 6)] + ([(4, 1200, 30), (40, 900, 900), (2, 30, 5000)] if big else []):
        yield {"what": "biggrid", "nmax": n, "mmax": n, "nrows": nr, "ncols": nc, "seed": gen.seed_of(r)}
    for n, m in gen.ladder_coefs(r, 11, 150 if not big else 330, 64 if not big else 110):
        yield {"what": "ladder", "nmax": n, "mmax": m, "seed": gen.seed_of(r)}
    yield {"what": "orders", "hi": 330 if not big else 800, "seed": gen.seed_of(r)}
    for Q in (486, 512, 729, 972, 1250, 1458, 1944, 2048, 2187) + ((2916, 3125, 4374, 6561, 8192, 13122) if big else ()):
        yield {"what": "length", "Q": Q, "seed": gen.seed_of(r)}      # FFT lengths with many factors
    for k in range(16 if not big else 200):
        yield {"what": "low", "seed": gen.seed_of(r), "hi": 40 if not big else 400}


def setup(mon):
    mon.results = []
    mod = mon.sp.csphi
    for name in ("sc_to_fc", "fc_to_sc", "ynunm", "ynnm", "FindQ", "SData"):     # evidence only
        if hasattr(mod, name):
            def wrap(fn, name=name):
                def f(*a):
                    mon.events["native-" + name] += 1
                    return fn(*a)
                return f
            setattr(mod, name, wrap(getattr(mod, name)))


def record(mon, *snaps):
    if mon.cfg["variant"].startswith("heap"):
        def flat(s):
            for x in s[1:]:
                if isinstance(x, tuple):
                    yield from flat(x)
                elif isinstance(x, (np.ndarray, complex)):
                    yield np.asarray(x, np.complex128).ravel()
        for s in snaps:
            for x in flat(s):
                mon.results.append(x)


def attempt(mon, state, fn, *a):
    """the result, or None if the call was refused (whether it may be is not this property's business)"""
    try:
        x = mon.call(fn, *a)
    except Violation:
        mon.events["refused"] += 1
        return None
    mon.ok("call", (mon.cfg["variant"],) + state)
    record(mon, session.snap(mon.sp, x))
    return x


def grids(mon, r, nmax, mmax):
    sp = mon.sp
    c0 = {"nmax": nmax, "mmax": mmax, "kind": gen.pick(r, ["gauss", "wide", "sparse", "tiny", "huge"])}
    A = gen.coefs(dict(c0, seed=gen.seed_of(r)))
    B = gen.coefs(dict(c0, seed=gen.seed_of(r)))
    c = fill(sp, A)
    v = fill_v(sp, A, B)
    rows = [max(nmax + 1, 2), nmax + 2, nmax + 3, 2 * nmax + 3]
    cols = [2 * mmax + 2, 2 * mmax + 4]
    small = nmax <= 12
    for nr in rows:
        for nc in cols:
            if not small and r.randint(3):
                continue
            tops = [(nr - 2, min(nr - 2, nc // 2 - 1)), (0, 0), (nr - 2, 0), (min(nmax, nr - 2), min(mmax, nr - 2))]
            n = int(r.randint(0, nr - 1))
            tops.append((n, int(r.randint(0, min(n, nc // 2 - 1) + 1))))
            p = attempt(mon, ("ispht", nmax, mmax, nr, nc), sp.ispht, c, nr, nc)
            if p is not None:
                for n, m in sorted(set(tops)):
                    attempt(mon, ("spht", nr, nc, n, m), sp.spht, p, n, m)
            q = attempt(mon, ("vispht", nmax, mmax, nr, nc), sp.vispht, v, nr, nc)
            if q is not None:
                for n, m in sorted(set(tops)):
                    attempt(mon, ("vspht", nr, nc, n, m), sp.vspht, q, n, m)
    verification(mon, r, c, v)


def verification(mon, r, c, v):
    """the verification routines, also for stored Fourier data of other sizes"""
    sp = mon.sp
    from spherepy import file as fl
    from spherepy import verify as vf
    d = mon.scratch
    f = [os.path.join(d, x) for x in ("c.txt", "p.txt", "c1.txt", "c2.txt", "p1.txt", "p2.txt", "f.txt")]
    nmax, mmax = c.nmax, c.mmax
    nr, nc = gen.rand_grid(r, nmax, mmax, 4)
    p, q = sp.ispht(c, nr, nc), sp.vispht(v, nr, nc)
    fl.save_coef(c, f[0])
    fl.save_patt(p, f[1])
    fl.save_coef(v.scoef1, f[2])
    fl.save_coef(v.scoef2, f[3])
    fl.save_patt(sp.ScalarPatternUniform(np.array(q.theta)), f[4])
    fl.save_patt(sp.ScalarPatternUniform(np.array(q.phi)), f[5])
    for fn, a in ((vf.verify_spht, (f[1], f[0])), (vf.verify_ispht, (f[1], f[0])),
                  (vf.verify_vspht, (f[4], f[5], f[2], f[3])), (vf.verify_vispht, (f[4], f[5], f[2], f[3]))):
        try:
            fn(*a)      # results at rounding level are not comparable
        except Exception:
            mon.events["refused"] += 1
        mon.ok("call", (mon.cfg["variant"], fn.__name__, nmax, mmax, nr, nc))
    for rr, cc in ((2 * nr - 2, nc), (2 * nmax, 2 * mmax + 1), (2 * nmax + 1, 2 * mmax + 2), (nmax, 2 * mmax + 2),
                   (2 * nmax + 2, mmax), (1, 1), (max(nmax, 1), max(mmax, 1)), (nmax + 1, mmax + 1),
                   (2 * nmax + 5, 2 * mmax + 7)):
        if rr * cc == 0:
            continue
        with open(f[6], "w") as fp:
            fp.write("%d,%d\n" % (rr, cc))
            for i in range(rr):
                fp.write("%d,%d,%g,%g\n" % (i, i % cc, 0.5, 0.25))
        try:
            x = vf.verify_fdata(f[6], f[0])
        except Exception:       # the file does not fit the coefficients
            x = -1.0
        record(mon, ("num", complex(x)))
        mon.ok("call", (mon.cfg["variant"], "verify_fdata", nmax, mmax, rr, cc))


def run_session(mon, case, r):
    sp = mon.sp
    names = sorted(session.OPS)
    path = os.path.join(mon.scratch, "s.txt")
    from checks.C18 import fresh
    pool = [fresh(sp, r, k, case["hi"]) for k in ("sc", "vc", "sp", "tp", "sc", "sp", "vc")]
    for step in range(case["steps"]):
        sp.spherepy.use_cext = "True" if r.randint(6) else False
        name = names[r.randint(len(names))]
        kinds, par, call = session.OPS[name]
        args, snaps = [], []
        for k in kinds:
            if k == "same":
                x = fresh(sp, r, snaps[0][0], case["hi"], session.size_of(snaps[0])[1:])
            else:
                k = (k,) if isinstance(k, str) else k
                idx = [i for i, o in enumerate(pool) if session.snap(sp, o)[0] in k]
                x = pool[idx[r.randint(len(idx))]] if idx and r.randint(4) else fresh(sp, r, gen.pick(r, list(k)),
                                                                                     case["hi"])
            args.append(x)
            snaps.append(session.snap(sp, x))
        params = par(snaps, r)
        ok, res = session.execute(sp, name, args, params, path)
        mon.ok("call", (mon.cfg["variant"], name, tuple(session.size_of(s) for s in snaps), ok))
        if not ok:
            continue
        out = session.snap(sp, res)
        if name != "verify":
            record(mon, out)
        if out[0] in ("sc", "vc", "sp", "tp") and sum(x.size for x in out[1:]) < 3000:
            k = int(r.randint(len(pool) + 3))
            if k < len(pool):
                pool[k] = res
            else:
                pool.append(res)
    sp.spherepy.use_cext = "True"


def low(mon, r, hi):
    cs = mon.sp.csphi
    for _ in range(60):
        n = int(r.randint(0, hi))
        m = int(r.randint(-n - 2, n + 3))
        y = np.empty(n + 1 + int(r.randint(0, 5)))
        mon.call(cs.ynunm, n, m, y)
        record(mon, ("arr", y.copy()))
        if abs(m) <= n:
            record(mon, ("num", complex(mon.call(cs.ynnm, n, m))))
        record(mon, ("num", complex(mon.call(cs.FindQ, n + 1))))
        mon.ok("call", (mon.cfg["variant"], "ynunm", n, m, len(y)))


def run(case, mon):
    sp = mon.sp
    r = gen.rs(case["seed"])
    sp.spherepy.use_cext = "True"
    mon.results = []
    if case["what"] == "grids":
        for nmax, mmax in case["sizes"]:
            grids(mon, r, nmax, mmax)
    elif case["what"] == "session":
        run_session(mon, case, r)
    elif case["what"] == "low":
        low(mon, r, case["hi"])
    elif case["what"] == "ladder":
        nmax, mmax = case["nmax"], case["mmax"]
        A = gen.coefs({"nmax": nmax, "mmax": mmax, "kind": "gauss", "seed": case["seed"]})
        c = fill(sp, A)
        for nr in (nmax + 1, nmax + 2):
            p = attempt(mon, ("ispht", nmax, mmax, nr), sp.ispht, c, nr)
            if p is not None:
                n = nr - 2 - int(r.randint(2))
                attempt(mon, ("spht", n, mmax, nr), sp.spht, p, n, min(mmax, n))
    elif case["what"] == "orders":
        for n in range(case["hi"]):
            for m in {0, int(r.randint(-n, n + 1)), -n, n}:
                y = np.empty(n + 1)
                mon.call(sp.csphi.ynunm, n, m, y)
                record(mon, ("arr", y.copy()))
                mon.ok("call", (mon.cfg["variant"], "ynunm", n, m, len(y)))
    elif case["what"] == "length":
        n = 2 + case["Q"] % 2
        nr = (case["Q"] - n) // 2
        p = attempt(mon, ("ispht", n, 1, nr, 4), sp.ispht, fill(sp, gen.coefs(dict(case, nmax=n, mmax=1, kind="gauss"))),
                    nr, 4)
        if p is not None:
            attempt(mon, ("spht", nr, 4, n, 1), sp.spht, p, n, 1)
    elif case["what"] == "biggrid":
        n, m, nr, nc = (case[k] for k in ("nmax", "mmax", "nrows", "ncols"))
        A = gen.coefs({"nmax": n, "mmax": m, "kind": "gauss", "seed": case["seed"]})
        p = attempt(mon, ("ispht", n, m, nr, nc), sp.ispht, fill(sp, A), nr, nc)
        if p is not None:
            attempt(mon, ("spht", nr, nc, n, m), sp.spht, p, n, m)
        q = attempt(mon, ("vispht", n, m, nr, nc), sp.vispht, fill_v(sp, A, A * 1j), nr, nc)
        if q is not None:
            attempt(mon, ("vspht", nr, nc, n, m), sp.vspht, q, n, m)
    else:
        nmax, mmax = case["nmax"], case["mmax"]
        A = gen.coefs({"nmax": nmax, "mmax": mmax, "kind": "gauss", "seed": case["seed"]})
        c = fill(sp, A)
        for nr in (nmax + 1, nmax + 2) if case["what"] != "full" else ():
            p = attempt(mon, ("ispht", nmax, mmax, nr), sp.ispht, c, nr)
            if p is not None:
                attempt(mon, ("spht", nmax, mmax, nr), sp.spht, p, nr - 2, min(mmax, nr - 2))
        if case["what"] in ("wide", "full"):
            q = attempt(mon, ("vispht", nmax, mmax), sp.vispht, fill_v(sp, A, A * 1j))
            if q is not None:
                attempt(mon, ("vspht", nmax, mmax), sp.vspht, q)
    if mon.cfg["variant"].startswith("heap") and mon.results:
        import json
        name = gen_name(case)
        np.save(os.path.join(mon.scratch, "r%s.npy" % name), np.concatenate(mon.results))
        with open(os.path.join(mon.scratch, "r%s.json" % name), "w") as f:
            json.dump(case, f)
    mon.results = []


def gen_name(case):
    import hashlib
    return hashlib.sha1(repr(sorted(case.items())).encode()).hexdigest()[:16]


def extra(run):
    import glob
    import json
    if run.violations:
        return
    # valgrind: reports with the extension on the stack
    blocks = logs = 0
    for f in glob.glob(os.path.join(run.work, "memcheck-*.d", "memcheck.*.txt")):
        logs += 1
        cur = []
        for line in open(f, errors="replace").read().splitlines() + ["==1== "]:
            t = re.sub(r"^==\d+== ?", "", line)
            if t.strip():
                cur.append(t)
                continue
            blocks += bool(cur)
            if any("_csphi" in x for x in cur):
                kind = re.sub(r"0x[0-9A-Fa-f]+|\d+", "N", cur[0].strip())[:70]
                run.violate("memcheck:" + kind, "\n".join(cur), {"id": "C08", "tier": run.tier, "seed": run.seed,
                                                                "variant": "extra"})
                break
            cur = []
    if logs == 0:
        run.notes.append("valgrind did not run")
    # contents of the heap
    a = {os.path.basename(f): f for f in glob.glob(os.path.join(run.work, "heap7f-*.d", "r*.npy"))}
    b = {os.path.basename(f): f for f in glob.glob(os.path.join(run.work, "heap00-*.d", "r*.npy"))}
    n = vals = 0
    for k in sorted(set(a) & set(b)):
        x, y = np.load(a[k]), np.load(b[k])
        n += 1
        vals += x.size
        same = x.shape == y.shape
        if same:
            fin = np.isfinite(x)
            big = np.abs(x[fin]).max(initial=0)
            same = np.array_equal(fin, np.isfinite(y)) and bool(np.all(np.abs(x[fin] - y[fin]) <= 1e-12 * big))
        if not same:
            case = json.load(open(a[k].replace(".npy", ".json")))
            run.violate("heap-dependent", "results of case %r differ between two contents of fresh heap memory" % case,
                        {"id": "C08", "tier": run.tier, "seed": run.seed, "variant": "extra", "case": case})
            break
    run.judged["heap-compared"] += n
    run.extra["values_compared_between_heap_fills"] = vals
    run.extra["memcheck_logs"] = logs
    run.extra["memcheck_reports_elsewhere"] = blocks
