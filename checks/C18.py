"""C18: sessions over a pool of shared objects. After every operation every object of the pool is compared with what it
has to be; every result is compared with the one of the same operation executed in a process without history."""
import decimal
import gc
import locale
import logging
import os
import random
import signal
import socket
import sys
import tempfile
import threading
import warnings

import numpy as np

from rt import gen, session
from rt.monitor import Violation

RULE = ("random sessions of mixed operations (transforms of both backends, arithmetic, norms, magnitudes, copies, "
        "truncations, printing, files, verification, Bessel functions, rejected calls) over a pool of objects of mixed "
        "sizes, with writes to random objects in between and returned arrays overwritten; each session is replayed in "
        "another order; every operation is repeated on the same objects after they were changed or reordered in place and after "
        "they were replaced. Distinct by (operation, sizes of the arguments, parameters, outcome).")
MIN = {"pool-unchanged": 3000, "cold-equal": 1500, "replay-equal": 1500, "write-isolated": 300, "changed-between": 2000}
ASSUMPTIONS = ["results are compared to rounding (1e-13 of the largest value), not bit for bit",
               "the two documented views (c[:, m] and the array of a pattern) may alias their own object"]


def setup(mon):
    mon.common = process()
    mon.nursery = session.Nursery(mon.sp)


def finish(mon):
    mon.nursery.stop()


def cases(tier, r, variant):
    big = tier == "thorough"
    for k in range(1500 if big else 160):
        if k % (25 if big else 16) == 0:
            yield {"again": int(gen.pick(r, [2, 4, 6, 9])), "seed": gen.seed_of(r), "cext": bool(k % 3)}
        yield {"steps": 70, "seed": gen.seed_of(r), "hi": int(gen.pick(r, [3, 5, 8, 12, 3, 5, 8, 12, 24, 45])), "cext": bool(k % 4)}


def fresh(sp, r, kind, hi, size=None):
    if kind in ("sc", "vc"):
        nmax, mmax = size or gen.rand_size(r, hi)
        c = {"nmax": nmax, "mmax": mmax, "kind": gen.pick(r, ["gauss", "real", "sparse", "ints", "wide"])}
        A = gen.coefs(dict(c, seed=gen.seed_of(r)))
        if kind == "sc":
            return session.build(sp, ("sc", A))
        B = gen.coefs(dict(c, seed=gen.seed_of(r)))
        A[0] = B[0] = 0
        return session.build(sp, ("vc", A, B))
    nr, nc = size or (int(r.randint(2, hi + 3)), 2 * int(r.randint(1, hi + 2)))
    a, b = gen.values("gauss", (nr, nc), gen.seed_of(r)), gen.values("gauss", (nr, nc), gen.seed_of(r))
    return sp.ScalarPatternUniform(a) if kind == "sp" else sp.TransversePatternUniform(a, b)


def settings():
    """what the process has in common with its other users"""
    return {"the floating point error handling": np.geterr(), "the print options": repr(sorted(
        (k, str(v)) for k, v in np.get_printoptions().items())), "the working directory": os.getcwd(),
        "the environment": dict(os.environ), "the recursion limit": sys.getrecursionlimit(),
        "the warning filters": repr(warnings.filters), "the locale": locale.setlocale(locale.LC_ALL),
        "the standard streams": [id(sys.stdout), id(sys.stderr), id(sys.stdin)], "the module path": list(sys.path),
        "the collector": gc.isenabled(), "Python's generator": hash(random.getstate()),
        "the compiled setting": repr(sys.modules["spherepy.spherepy"].use_cext), "umask": umask()}


def process():
    """what nothing in this process but the package under test could change"""
    return {"numpy's buffer size": np.getbufsize(), "numpy's error callback": np.geterrcall(),
            "the thread switch interval": sys.getswitchinterval(), "the collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
            "the default timeout of sockets": socket.getdefaulttimeout(), "the recursion limit": sys.getrecursionlimit(),
            "the signal handlers": [(s, signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE,
                                                                      signal.SIGFPE, signal.SIGCHLD)],
            "the decimal context": repr(decimal.getcontext()), "the logging level": (logging.root.level, list(logging.root.handlers),
                                                                                     logging.root.manager.disable),
            "the hooks": (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook, sys.getprofile()),
            "the directory of temporary files": (tempfile.tempdir, tempfile.template),
            "the longest integers read": sys.get_int_max_str_digits(), "the niceness": os.nice(0),
            "the ufuncs": (np.add, np.multiply, np.abs, np.fft.fft, np.fft.ifft2)}


def umask():
    m = os.umask(0o022)
    os.umask(m)
    return m


class Pool(object):
    def __init__(self, mon, r, hi):
        self.mon, self.sp, self.r, self.hi = mon, mon.sp, r, hi
        self.objs, self.snaps = [], []
        self.mine = []              # arrays of the caller that objects were made from, or that were read from them
        for kind in ("sc", "vc", "sp", "tp", "sc", "sp"):
            self.add(fresh(self.sp, r, kind, hi))

    def add(self, x, s=None):
        if len(self.objs) >= 14:
            k = int(self.r.randint(len(self.objs)))
            self.objs.pop(k)
            self.snaps.pop(k)
        self.objs.append(x)
        self.snaps.append(s if s is not None else session.snap(self.sp, x))
        return len(self.objs) - 1

    def check(self, what, key="pool-unchanged"):
        for x, s in zip(self.objs, self.snaps):
            t = session.snap(self.sp, x)
            if not session.exact(s, t):
                raise Violation(key, "%s changed a %s of size %s" % (what, s[0], session.size_of(s)[1:]))
        for x, y, w in self.mine:
            if not np.array_equal(x, y, equal_nan=True):
                raise Violation(key, "%s changed the array that %s" % (what, w))
        self.mon.ok(key)

    def own(self, x, what):
        self.mine = self.mine[-11:] + [(x, np.array(x), what)]

    def made(self):
        """an object made from arrays of the caller: neither follows the other afterwards"""
        sp, r = self.sp, self.r
        nmax, mmax = gen.rand_size(r, self.hi)
        nr, nc = int(r.randint(2, self.hi + 3)), 2 * int(r.randint(1, self.hi + 2))
        L = nmax + 1 + mmax * (2 * nmax - mmax + 1)
        kind = gen.pick(r, ["VectorCoefs", "VectorCoefs", "ScalarPatternUniform", "TransversePatternUniform",
                            "continue_sphere", "double_sphere"])
        t = gen.pick(r, [np.complex128, np.complex128, np.complex128, np.float64, np.int64])
        shape = (L,) if kind == "VectorCoefs" else (nr, nc)
        arrs = []
        for k in range(2 if kind[0] in "VT" else 1):
            z = gen.values("gauss", shape, gen.seed_of(r)) * 10
            arrs.append(z if t is np.complex128 else z.real.astype(t))
            zero = r.randint(4)         # data for which there may be nothing to correct
            if zero == 0:
                arrs[-1][0] = 0
            elif zero == 1 and len(shape) == 2:
                arrs[-1][[0, -1]] = 0
            elif zero == 2:
                arrs[-1][...] = 0
        for x in arrs:
            self.own(x, "a %s was made from" % kind)
        if kind == "VectorCoefs":
            self.add(sp.VectorCoefs(arrs[0], arrs[1], nmax, mmax))
        elif kind == "ScalarPatternUniform":
            self.add(sp.ScalarPatternUniform(arrs[0]))
        elif kind == "TransversePatternUniform":
            self.add(sp.TransversePatternUniform(*arrs))
        elif kind == "continue_sphere":
            scribble(sp.continue_sphere(arrs[0], gen.pick(r, [1, -1])))
        else:
            x = np.concatenate([arrs[0], arrs[0][:0:-1][:-1]])[:2 * nr - 2]
            self.own(x, "double_sphere was called with")
            scribble(sp.double_sphere(x, gen.pick(r, [1, -1])))
        self.check("making a %s from arrays (%s)" % (kind, t.__name__))
        if r.randint(2):            # the caller goes on using the arrays
            for x in arrs:
                x[...] = 7
            self.mine = [u for u in self.mine if not any(u[0] is x for x in arrs)]
            self.check("writing to the arrays that a %s was made from (%s)" % (kind, t.__name__))

    def choose(self, kinds):
        """index of an object of one of the kinds"""
        idx = [i for i, s in enumerate(self.snaps) if s[0] in kinds]
        if idx and self.r.randint(6):
            return idx[self.r.randint(len(idx))]
        return self.add(fresh(self.sp, self.r, gen.pick(self.r, list(kinds)), self.hi))


def write(pool, mon, what):
    """a write through the public interface; returns the index written to"""
    sp, r = mon.sp, pool.r
    i = int(r.randint(len(pool.objs)))
    if not write_to(r, pool.objs[i], pool.snaps[i]):
        return None
    pool.snaps[i] = session.snap(sp, pool.objs[i])
    return i


def write_to(r, x, s):
    kind, p, q = session.size_of(s)[:3]
    if kind in ("sc", "vc"):
        tgt = x if kind == "sc" else gen.pick(r, [x.scoef1, x.scoef2])
        if p == 0 and kind == "vc":
            return False
        n = int(r.randint(0 if kind == "sc" else 1, p + 1))
        w = min(n, q)
        m = int(r.randint(-w, w + 1))
        t = int(r.randint(4))
        if t == 0:
            tgt[n, m] = complex(r.normal(), r.normal())
        elif t == 1:
            tgt[n, :] = r.normal(size=2 * w + 1)
        elif t == 2:
            v = r.normal(size=p - abs(m) + 1)
            if kind == "vc" and m == 0:
                v[0] = 0
            tgt[:, m] = v
        else:
            tgt.window(r.uniform(0.5, 2, size=p + 1))
    else:
        a = x.array if kind == "sp" else gen.pick(r, [x.theta, x.phi])
        if not a.flags.writeable:
            return False
        a[int(r.randint(p)), int(r.randint(q))] = complex(r.normal(), r.normal())
    return True


def reorder(r, x, s):
    """the same values in other places, or with other signs: sums, norms and sorted lists stay as they are"""
    kind, p, q = session.size_of(s)[:3]
    t = int(r.randint(4))
    if kind in ("sc", "vc"):
        lo = 0 if kind == "sc" else 1
        for tgt in ([x] if kind == "sc" else [[x.scoef1], [x.scoef2], [x.scoef1, x.scoef2]][r.randint(3)]):
            keys = [(n, m) for n in range(lo, p + 1) for m in range(-min(n, q), min(n, q) + 1)]
            if len(keys) < 2:
                return
            a, b = [keys[k] for k in r.choice(len(keys), 2, replace=False)]
            m = int(r.randint(0, q + 1))
            if t == 0:
                tgt[a], tgt[b] = complex(tgt[b]), complex(tgt[a])
            elif t == 1 and m:
                u, v = np.array(tgt[:, m]), np.array(tgt[:, -m])
                tgt[:, m], tgt[:, -m] = v, u
            elif t == 2:
                for k in (a, b):
                    tgt[k] = -complex(tgt[k])
            else:
                v = np.array(tgt[:, m])
                k = 1 if m == 0 and lo else 0
                v[k:] = v[k:][::-1]
                tgt[:, m] = v
        return
    for a in [x.array] if kind == "sp" else [[x.theta], [x.phi], [x.theta, x.phi]][r.randint(3)]:
        if not a.flags.writeable:
            return
        if t == 0:
            i, j, k, n = [int(r.randint(h)) for h in (p, q, p, q)]
            a[i, j], a[k, n] = complex(a[k, n]), complex(a[i, j])
        elif t == 1:
            a[1:-1] = np.array(a[1:-1][::-1])
        elif t == 2:
            a[...] = np.roll(a, 2, axis=1)
        else:
            a[int(r.randint(p))] *= -1


def again(case, mon):
    """every operation on the same objects before and after they are changed, and on others that take their place in
    memory"""
    sp = mon.sp
    r = gen.rs(case["seed"])
    path = os.path.join(mon.scratch, "s.txt")
    for name in sorted(session.OPS):
        kinds, par, call = session.OPS[name]
        if not kinds:
            continue
        for first in [k for k in ("sc", "vc", "sp", "tp") if k == kinds[0] or k in kinds[0]]:
            objs = [fresh(sp, r, first, case["again"])]
            for k in kinds[1:]:
                size = session.size_of(session.snap(sp, objs[0]))
                objs.append(fresh(sp, r, size[0], case["again"], size[1:]) if k == "same" else
                            fresh(sp, r, gen.pick(r, list(k)), case["again"]))
            snaps = [session.snap(sp, x) for x in objs]
            params = par(snaps, r)
            for turn in ("first", "repeated", "changed", "changed", "replaced", "replaced", "reordered", "reordered", "changed",
                         "reordered"):
                what = "%s(%s; %s), %s" % (name, ", ".join(str(session.size_of(s)) for s in snaps), params, turn)
                k = int(r.randint(len(objs)))
                if turn == "changed":
                    write_to(r, objs[k], snaps[k])
                elif turn == "reordered":
                    reorder(r, objs[k], snaps[k])
                elif turn == "replaced":
                    size = session.size_of(snaps[k])
                    objs[k] = None
                    objs[k] = fresh(sp, r, size[0], case["again"], size[1:])
                snaps = [session.snap(sp, x) for x in objs]
                ok, res = session.execute(sp, name, objs, params, path)
                mon.calls += 1
                out = session.snap(sp, res) if ok else ("val", res)
                del res
                if not all(session.exact(s, session.snap(sp, x)) for s, x in zip(snaps, objs)):
                    raise Violation("pool-unchanged", "%s changed its argument" % what)
                tag, ans = mon.nursery.ask((name, snaps, params, path + "c", case["cext"]))
                if tag != "done":
                    raise RuntimeError("cold execution of %s: %s" % (what, ans))
                if ans[0] != ok or not session.close(ans[1], out):
                    raise Violation("cold-equal", "%s gives %s, in a process without history %s" %
                                    (what, brief(out), brief(ans[1])))
                mon.ok("changed-between", (name, first, turn, ok))


def run(case, mon):
    sp = mon.sp
    r = gen.rs(case["seed"])
    sp.spherepy.use_cext = "True" if case["cext"] else False
    if "again" in case:
        return again(case, mon)
    pool = Pool(mon, r, case["hi"])
    names = sorted(session.OPS)
    path = os.path.join(mon.scratch, "s.txt")
    log = []
    state0 = np.random.get_state()
    err, opts = np.geterr(), np.get_printoptions()
    np.seterr(divide="warn", over=gen.pick(r, ["warn", "ignore"]), under="ignore", invalid="warn")
    np.set_printoptions(nanstr="none%d" % r.randint(10))        # an option that no finite value depends on
    warnings.simplefilter("ignore", RuntimeWarning)
    glob0 = settings()
    for step in range(case["steps"]):
        if step % 8 == 1:
            pool.made()
        if step % 4 == 3:
            i = write(pool, mon, "a write")
            if i is not None:
                pool.check("step %d: writing to the %s of size %s" %
                           (step, pool.snaps[i][0], session.size_of(pool.snaps[i])[1:]), "write-isolated")
            continue
        name = names[r.randint(len(names))]
        kinds, par, call = session.OPS[name]
        args, snaps, what = [], [], []
        for k in kinds:
            if k == "same":
                size = session.size_of(snaps[0])
                idx = [i for i, s in enumerate(pool.snaps) if session.size_of(s) == size]
                if r.randint(2) or len(idx) < 2:
                    i = pool.add(fresh(sp, r, size[0], case["hi"], size[1:]))
                else:
                    i = idx[r.randint(len(idx))]
            else:
                i = pool.choose((k,) if isinstance(k, str) else k)
            args.append(pool.objs[i])
            snaps.append(pool.snaps[i])
        params = par(snaps, r)
        what = "step %d: %s(%s; %s)" % (step, name, ", ".join(str(session.size_of(s)) for s in snaps), params)
        ok, res = session.execute(sp, name, args, params, path)
        mon.calls += 1
        if ok and isinstance(res, np.ndarray) and r.randint(2):     # what was read stays as it was, whatever comes
            pool.own(res, "%s returned" % name)
        out = session.snap(sp, res) if ok else ("val", res)
        pool.check(what)
        st = (name, tuple(session.size_of(s) for s in snaps), repr(params), ok)
        tag, ans = mon.nursery.ask((name, snaps, params, path + "c", case["cext"]))
        if tag != "done":
            raise RuntimeError("cold execution of %s: %s" % (what, ans))
        if ans[0] != ok or not session.close(ans[1], out):
            raise Violation("cold-equal", "%s gives %s, in a process without history %s" %
                            (what, brief(out), brief(ans[1])))
        mon.ok("cold-equal", st)
        log.append((name, snaps, params, ok, out))
        if ok:
            if out[0] in ("sc", "vc", "sp", "tp") and sum(x.size for x in out[1:]) < 2000:
                if not any(res is o for o in pool.objs):
                    pool.add(res, out)
                elif name not in ("rebuild",):
                    raise Violation("pool-unchanged", "%s returned an existing object" % what)
            if not any(res is u[0] for u in pool.mine):
                scribble(res)
            pool.check(what + ", and overwriting the returned array,")
    after = np.random.get_state()
    if not all(np.array_equal(a, b) for a, b in zip(state0, after)):
        raise Violation("random-state", "the operations changed the state of numpy's generator")
    common = process()
    for k in common:
        mon.check(mon.common[k] == common[k], "settings", lambda: "the operations changed %s from %s to %s" %
                  (k, str(mon.common[k])[:300], str(common[k])[:300]))
    glob1 = settings()
    for k in glob0:
        mon.check(glob0[k] == glob1[k], "settings", lambda: "the operations changed %s from %s to %s" %
                  (k, str(glob0[k])[:300], str(glob1[k])[:300]))
    np.seterr(**err)
    np.set_printoptions(**opts)
    # the same operations on rebuilt arguments, in another order, in this process
    order = r.permutation(len(log))
    for k in order:
        name, snaps, params, ok, out = log[k]
        objs = [session.build(sp, s) for s in snaps]
        ok2, res = session.execute(sp, name, objs, params, path)
        out2 = session.snap(sp, res) if ok2 else ("val", res)
        if ok2 != ok or not session.close(out, out2):
            raise Violation("replay-equal", "%s(%s; %s) gave %s, later %s" %
                            (name, ", ".join(str(session.size_of(s)) for s in snaps), params, brief(out),
                             brief(out2)))
        mon.ok("replay-equal")


def scribble(x):
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = 1e77
    elif isinstance(x, (list, tuple)):
        for y in x:
            scribble(y)


def brief(s):
    return repr(s)[:300].replace("\n", " ")
