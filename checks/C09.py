"""C09: live heap blocks over batches of equal work."""
import ctypes
import gc
import os
import sys

import numpy as np

from rt import gen, session
from rt.monitor import Violation, fill, fill_v

RULE = ("every public operation (both backends), rejected calls and malformed files included, and mixed sessions, "
        "repeated in batches with new values of the same sizes each time; the number of live heap blocks (an "
        "interposed allocator, to which Python's is forwarded) is taken between batches. Distinct by (operation, sizes, backend).")
MIN = {"batch": 1500, "steady": 250}
ASSUMPTIONS = ["a leak of at least one block in every fourth call, or in every call of one of the small sizes, is seen; allocations that serve any number of "
               "repetitions (caches) are not leaks", "plots are closed after each call"]
VARIANTS = [{"name": "malloc", "flavour": "plain", "env": {"PYTHONMALLOC": "malloc"}, "preload": "live"}]
CPU_LIMIT = 300


_libc = ctypes.CDLL(None)


def live():
    """number of live heap blocks, without what the interpreter's caches hold"""
    sys._clear_type_cache()
    gc.collect()
    return _libc.vf_live()


SIZES = [(0, 0), (1, 0), (3, 2), (6, 6), (14, 3)]


def cases(tier, r, variant):
    big = tier == "thorough"
    names = sorted(session.OPS) + sorted(MORE)
    for name in names:
        for k, (nmax, mmax) in enumerate(SIZES + ([(40, 40), (150, 2), (70, 9)] if big else [(40, 12)])):
            for cext in (True, False):
                if not cext and (nmax > 12 or nmax < 3 or "plot" in name or "native" in name):
                    continue
                if not big and k in (1, 4, 5) and not ("sp" in name or "native" in name or "round" in name):
                    continue
                if ("plot" in name or "pcolor" in name) and k not in (0, 2):
                    continue
                yield {"op": name, "nmax": nmax, "mmax": mmax, "cext": cext, "seed": gen.seed_of(r),
                       "reps": 6 if "plot" in name or "pcolor" in name or nmax >= 20 else 16}
    for name in ("round trip", "vector round trip", "ispht nrows=nmax+1", "native ynunm", "verify", "file", "two files"):
        for nmax, mmax in [(105, 3), (210, 1), (520, 0)] + ([(1100, 0), (80, 80), (300, 9)] if big else []):
            if nmax < 300 or "round" in name:
                yield {"op": name, "nmax": nmax, "mmax": mmax, "cext": True, "seed": gen.seed_of(r), "reps": 4}
    for name in EVERY:
        yield {"op": name, "every": True, "nmax": 18 if not big else 40, "mmax": 64 if not big else 128, "cext": True,
               "seed": gen.seed_of(r), "reps": 1}
    for _ in range(24 if not big else 400):
        nmax, mmax = gen.rand_size(r, 9 if not big else 25)
        yield {"op": "mix", "nmax": nmax, "mmax": mmax, "cext": True, "seed": gen.seed_of(r), "reps": 10}


EVERY = ("round trip", "vector round trip", "native ynunm", "ispht odd", "bad ispht", "bad spht")


def plots(name):
    def f(sp, c, v, p, q, d):
        import matplotlib.pyplot as plt
        import contextlib
        import io
        ps = sp.plot_sphere
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                getattr(ps, name)({"plot_sphere_mag": p, "plot_mag_on_sphere": np.abs(p.array), "pcolor_coefs": c,
                                   "plot_coefs": c}[name])
        finally:
            plt.close("all")
    return f


def bad_file(text, load):
    def f(sp, c, v, p, q, d):
        from spherepy import file as fl
        path = os.path.join(d, "bad.txt")
        with open(path, "w") as fp:
            fp.write(text)
        getattr(fl, load)(path)
    return f


MORE = {
    "bad spht": lambda sp, c, v, p, q, d: sp.spht(p, p.nrows, 0),
    "bad vspht": lambda sp, c, v, p, q, d: sp.vspht(q, q.nrows, 0),
    "bad ispht": lambda sp, c, v, p, q, d: sp.ispht(c, c.nmax, 2 * c.mmax + 2),
    "odd ispht": lambda sp, c, v, p, q, d: sp.ispht(c, c.nmax + 2, 2 * c.mmax + 3),
    "bad vispht": lambda sp, c, v, p, q, d: sp.vispht(v, v.nmax, 2 * v.mmax + 2),
    "ispht nrows=nmax+1": lambda sp, c, v, p, q, d: sp.ispht(c, max(c.nmax + 1, 2)),
    "ispht big": lambda sp, c, v, p, q, d: sp.ispht(c, 2 * c.nmax + 9, 2 * c.mmax + 12),
    "bad index": lambda sp, c, v, p, q, d: c[c.nmax + 1, 0],
    "bad set": lambda sp, c, v, p, q, d: c.__setitem__((slice(None), 0), [1.0]),
    "bad sizes": lambda sp, c, v, p, q, d: c + sp.zeros_coefs(c.nmax + 1, c.mmax),
    "bad type": lambda sp, c, v, p, q, d: c + "x",
    "bad patterns": lambda sp, c, v, p, q, d: p + sp.zeros_patt_uniform(p.nrows + 1, p.ncols),
    "by zero": lambda sp, c, v, p, q, d: c / 0,
    "native wrong type": lambda sp, c, v, p, q, d: sp.csphi.ynunm(3, 1, np.zeros(4, int)),
    "native wrong shape": lambda sp, c, v, p, q, d: sp.csphi.fc_to_sc(np.zeros(8, np.complex128), np.zeros(
        4, np.complex128), 1, 1),
    "native wrong count": lambda sp, c, v, p, q, d: sp.csphi.sc_to_fc(np.zeros((4, 4), np.complex128)),
    "native wrong number": lambda sp, c, v, p, q, d: sp.csphi.sc_to_fc(np.zeros((4, 4), np.complex128), np.zeros(
        4, np.complex128), "x", 1),
    "native strided": lambda sp, c, v, p, q, d: sp.csphi.fc_to_sc(np.zeros((16, 8), np.complex128)[::2, ::2], np.zeros(
        4, np.complex128), 1, 1),
    "native ynunm": lambda sp, c, v, p, q, d: sp.csphi.ynunm(c.nmax, c.mmax, np.zeros(c.nmax + 1)),
    "native ynnm": lambda sp, c, v, p, q, d: sp.csphi.ynnm(c.nmax, c.mmax),
    "native FindQ": lambda sp, c, v, p, q, d: sp.csphi.FindQ(c.nmax + 7),
    "factories": lambda sp, c, v, p, q, d: (sp.random_coefs(c.nmax, c.mmax), sp.ones_coefs(c.nmax, c.mmax, sp.vector),
                                            sp.random_patt_uniform(p.nrows, p.ncols, patt_type=sp.vector)),
    "round trip": lambda sp, c, v, p, q, d: sp.spht(sp.ispht(c), c.nmax, c.mmax),
    "ispht odd": lambda sp, c, v, p, q, d: sp.ispht(c, max(c.nmax + 3, 2), 2 * c.mmax + 5),
    "vector round trip": lambda sp, c, v, p, q, d: sp.vspht(sp.vispht(v), v.nmax, v.mmax),
    "missing file": lambda sp, c, v, p, q, d: __import__("spherepy.file").file.load_coef(os.path.join(d, "none")),
    "empty file": bad_file("", "load_coef"),
    "short line": bad_file("3,3\n1,2\n", "load_patt"),
    "not numbers": bad_file("1,0\nx,y\n", "load_coef"),
    "plot_sphere_mag": plots("plot_sphere_mag"),
    "plot_mag_on_sphere": plots("plot_mag_on_sphere"),
    "pcolor_coefs": plots("pcolor_coefs"),
    "plot_coefs": plots("plot_coefs"),
}


def setup(mon):
    mon.notes = []
    gc.collect()
    gc.freeze()
    _libc.vf_live.restype = _libc.vf_total.restype = ctypes.c_long
    if _libc.vf_total() < 1000:
        raise RuntimeError("the interposed allocator is not in use")


def objects(sp, r, nmax, mmax):
    A, B = [gen.coefs({"nmax": nmax, "mmax": mmax, "kind": "gauss", "seed": gen.seed_of(r)}) for _ in (0, 1)]
    a, b = [gen.values("gauss", (nmax + 2, 2 * mmax + 2), gen.seed_of(r)) for _ in (0, 1)]
    return fill(sp, A), fill_v(sp, A, B), sp.ScalarPatternUniform(a), sp.TransversePatternUniform(a, b)


def once(sp, name, nmax, mmax, r, par, path, d):
    c, v, p, q = objects(sp, r, nmax, mmax)
    if name in MORE:
        try:
            MORE[name](sp, c, v, p, q, d)
        except Exception:
            pass
        return
    kinds, mk, call = session.OPS[name]
    args = []
    by = {"sc": c, "vc": v, "sp": p, "tp": q}
    for k in kinds:
        k = par["kind"] if k == "same" or not isinstance(k, str) else k
        if k not in by:
            k = "sc"
        args.append(by[k])
    try:
        call(sp, args, par["params"], path)
    except Exception:
        pass


def variants_of(sp, name, nmax, mmax, r):
    """the argument kinds an operation is tried with, and its parameters"""
    if name in MORE:
        return [{"kind": None, "params": ()}]
    kinds, mk, call = session.OPS[name]
    first = [k for k in kinds if not isinstance(k, str)]
    out = []
    c, v, p, q = objects(sp, r, nmax, mmax)
    by = {"sc": c, "vc": v, "sp": p, "tp": q}
    for k in (first[0] if first else ("sc",)):
        snaps = [session.snap(sp, by[x if isinstance(x, str) and x in by else k]) for x in kinds]
        out.append({"kind": k, "params": mk(snaps, r)})
    return out


def run(case, mon):
    sp = mon.sp
    sp.spherepy.use_cext = "True" if case["cext"] else False
    r = gen.rs(case["seed"])
    nmax, mmax, reps = case["nmax"], case["mmax"], case["reps"]
    path = os.path.join(mon.scratch, "s.txt")
    d = mon.scratch
    if case.get("every"):
        # one call for every size: all of them up to a bound, then every nmax and every mmax with some other one
        sizes = [(n, m) for n in range(nmax + 1) for m in range(n + 1)]
        sizes += [(n, int(r.randint(0, n + 1))) for n in range(nmax + 1, mmax + 1)]
        sizes += [(m + int(r.randint(0, 6)), m) for m in range(nmax + 1, mmax // 2 + 1)]
        par = {"kind": None, "params": ()}
        jobs = [(case["op"] + ", every size", [(case["op"], par, s) for s in sizes])]
    elif case["op"] == "mix":
        names = sorted(session.OPS) + [m for m in sorted(MORE) if "plot" not in m and "pcolor" not in m]
        todo = []
        for _ in range(12):
            n = names[r.randint(len(names))]
            vs = variants_of(sp, n, nmax, mmax, r)
            todo.append((n, vs[r.randint(len(vs))]))
        jobs = [("mix", todo)]
    else:
        jobs = [(case["op"], [(case["op"], v)]) for v in variants_of(sp, case["op"], nmax, mmax, r)]
    for what, todo in jobs:
        for i in range(6 if not case.get("every") else 2):      # caches, free lists, lazy imports
            for name, par, *size in todo:
                once(sp, name, *(size[0] if size else (nmax, mmax)), r, par, path, d)
        growth = []
        last = live()
        for batch in range(20):
            for i in range(reps):
                for name, par, *size in todo:
                    once(sp, name, *(size[0] if size else (nmax, mmax)), r, par, path, d)
            now = live()
            growth.append(now - last)
            last = now
            mon.ok("batch")
            if len(growth) >= 3 and sorted(growth[-3:])[1] <= 0:
                break       # no growth in two of three batches in a row
        if len(growth) == 20 and sorted(growth[-10:])[2] >= max(reps // 4, 1):
            raise Violation("leak", "%s at nmax=%d mmax=%d (%s): the number of live blocks grows by %s in batches of %d repetitions"
                            % (", ".join("%s%r" % (t[0], (t[1]["kind"], t[1]["params"])) for t in todo[:12]), nmax, mmax,
                               "compiled" if case["cext"] else "Python", growth, reps))
        if len(growth) > 12:
            mon.notes.append("%s nmax=%d mmax=%d: %d batches until steady" % (what, nmax, mmax, len(growth)))
        mon.ok("steady", (what, nmax, mmax, case["cext"], todo[0][1]["kind"]))
        mon.events["batches-without-growth"] += sum(g <= 0 for g in growth)
