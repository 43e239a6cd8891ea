"""C19: several threads under a controlled scheduler that switches at source lines of the package, several threads running
freely with a tiny switch interval, and the native routines in parallel under ThreadSanitizer."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading

import numpy as np

from checks.C18 import fresh, process
from rt import gen, parked, session
from rt.monitor import Violation

RULE = ("2 to 4 threads, each with 3 to 8 operations (transforms of both backends, arithmetic, norms, magnitudes, files, "
        "verification, Bessel functions, rejected calls) on own objects and on objects all of them read; either all "
        "threads do the same operations with the same sizes and different data, or each its own. A seeded scheduler "
        "decides at every source line (or bytecode instruction) of the package which thread goes on. In a further sweep "
        "every operation is interrupted at each of its source lines (and at bytecode instructions) in turn, while the same "
        "operation on other data, or another operation, runs to its end or to the same line, each time in a fresh "
        "process. Every result is compared with that of the "
        "same operation done alone. Distinct by (schedule) and by (source line at which a thread was interrupted).")
MIN = {"result": 5000, "schedule": 400, "free": 400, "native-thread": 4, "parked": 2500}
CPU_LIMIT = 600
ASSUMPTIONS = ["threads are interrupted between bytecode instructions of the package (scheduled runs) or anywhere (free runs)",
               "no thread writes an object that another one uses, and the backend is chosen before the threads start",
               "the random factories share NumPy's global generator and are not compared"]


def setup(mon):
    import spherepy.file, spherepy.ops, spherepy.sbessel, spherepy.verify      # noqa: E401,F401
    sys.stdout = session.ThreadStdout(sys.stdout)
    mon.nursery = session.Nursery(mon.sp, parked.serve)


def finish(mon):
    mon.nursery.stop()


def cases(tier, r, variant):
    big = tier == "thorough"
    for rep in range(8 if big else 1):
        for name in sorted(session.OPS):
            both = "spht" in name or "verify" in name
            for cext in (True, False) if both else (bool(r.randint(2)),):
                for event in ("line", "opcode"):
                    yield {"what": "parked", "op": name, "cext": cext, "event": event, "warm": bool(r.randint(2)),
                           "hi": int(gen.pick(r, [1, 2, 3])), "seed": gen.seed_of(r),
                           "most": (120 if event == "line" else 60) * (1 + 5 * big)}
    for k in range(1500 if not big else 9000):
        yield {"what": "scheduled", "threads": int(r.randint(2, 5)), "p": float(gen.pick(r, [0.5, 0.2, 0.05, 0.01, 0.002])),
               "opcodes": bool(r.randint(3) == 0),
               "alike": bool(r.randint(2)), "cext": bool(r.randint(3)), "first": bool(r.randint(2)),
               "hi": int(gen.pick(r, [1, 2, 3, 5])), "steps": int(r.randint(3, 9)), "seed": gen.seed_of(r)}
    for k in range(120 if not big else 900):
        yield {"what": "free", "threads": 4, "alike": bool(k % 4), "cext": bool(k % 3), "first": bool(r.randint(2)),
               "hi": int(gen.pick(r, [3, 8])), "steps": 20, "seed": gen.seed_of(r)}


class Scheduler(object):
    """lets one thread run at a time; at every traced line a random draw decides whether another one goes on"""

    def __init__(self, n, p, seed, opcodes=False):
        self.n, self.p, self.event = n, p / 3 if opcodes else p, "opcode" if opcodes else "line"
        self.r = np.random.RandomState(seed % (2 ** 32))
        self.draws = self.r.uniform(size=4096)
        self.k = 0
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.steps = 0
        self.switches = []
        self.places = set()
        self.free = False
        self.me = threading.local()

    def draw(self):
        self.k += 1
        if self.k % 4096 == 0:
            self.draws = self.r.uniform(size=4096)
        return self.draws[self.k % 4096]

    def wait(self, i):
        last = -1
        while not self.free and not self.sem[i].acquire(timeout=2.0):
            if self.steps == last:               # the one that runs waits for something: let them all run
                self.release_all()
            last = self.steps

    def release_all(self):
        self.free = True
        for s in self.sem:
            s.release()

    def line(self, frame):
        if self.free:
            return
        self.steps += 1
        if self.draw() >= self.p or len(self.alive) < 2:
            return
        me = self.me.id
        to = self.alive[int(self.draw() * len(self.alive))]
        if to == me:
            return
        if len(self.switches) < 100000:
            self.switches.append((self.steps, me, to))
            self.places.add((os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        self.sem[to].release()
        self.wait(me)

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith("/repo/"):
            return None
        if self.event == "opcode":
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == self.event:
            self.line(frame)
        return self.local

    def body(self, i, f):
        self.me.id = i
        self.wait(i)
        sys.settrace(self.trace)
        try:
            f()
        finally:
            sys.settrace(None)
            self.alive.remove(i)
            if self.alive and not self.free:
                self.sem[self.alive[int(self.draw() * len(self.alive))]].release()

    def run(self, fs):
        ts = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fs)]
        for t in ts:
            t.start()
        self.sem[int(self.draw() * self.n)].release()
        for t in ts:
            t.join(400)
            if t.is_alive():
                raise Violation("no-answer", "a thread does not end")


def run_free(fs):
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    gate = threading.Barrier(len(fs))

    def body(f):
        gate.wait(60)
        f()
    try:
        ts = [threading.Thread(target=body, args=(f,), daemon=True) for f in fs]
        for t in ts:
            t.start()
        for t in ts:
            t.join(400)
            if t.is_alive():
                raise Violation("no-answer", "a thread does not end")
    finally:
        sys.setswitchinterval(old)


def again(snap, r):
    """other data of the same kind and size"""
    out = [snap[0]]
    for x in snap[1:]:
        z = r.normal(size=x.shape) + 1j * r.normal(size=x.shape)
        out.append(np.where(x == 0, 0, z) if snap[0] in ("sc", "vc") else z)
    if snap[0] in ("sp", "tp"):
        sym = 1 if snap[0] == "sp" else -1
        half = snap[1].shape[1] // 2
        for k, z in enumerate(out[1:]):
            y = sym * np.roll(z, -half, axis=1)[np.r_[0, np.arange(z.shape[0] - 1, 0, -1)]]
            out[k + 1] = (z + y) / 2
    return tuple(out)


def make_plan(sp, r, case):
    """for every thread a list of (operation, parameters, argument snapshots or index of a shared object)"""
    names = sorted(session.OPS)
    weight = np.array([4.0 if "spht" in k else 1.5 if k in ("file", "verify") else 1.0 for k in names])
    shared, plans = [], []

    def draw_ops():
        plan = []
        for _ in range(case["steps"]):
            name = names[int(r.choice(len(names), p=weight / weight.sum()))]
            args = []
            for kind in session.OPS[name][0]:
                if kind == "same":
                    args.append(again(args[0], r) if isinstance(args[0], tuple) else args[0])
                    continue
                if shared and r.randint(3) == 0:
                    fit = [k for k, s in enumerate(shared) if s[0] in kind]
                    if fit:
                        args.append(int(gen.pick(r, fit)))
                        continue
                s = session.snap(sp, fresh(sp, r, gen.pick(r, list(kind)), case["hi"]))
                if r.randint(4) == 0:
                    shared.append(s)
                    args.append(len(shared) - 1)
                else:
                    args.append(s)
            params = session.OPS[name][1]([shared[a] if isinstance(a, int) else a for a in args], r)
            plan.append((name, params, args))
        return plan

    if case["alike"]:
        base = draw_ops()
        for _ in range(case["threads"]):
            plans.append([(n, q, [a if isinstance(a, int) else again(a, r) for a in args]) for n, q, args in base])
    else:
        plans = [draw_ops() for _ in range(case["threads"])]
    return shared, plans


def doing(sp, plan, built, objs, path, out):
    def f():
        for (name, params, args), own in zip(plan, built):
            try:
                ok, res = session.execute(sp, name, [objs[a] if isinstance(a, int) else x for a, x in zip(args, own)],
                                          params, path)
            except BaseException as e:          # a judge's verdict while reading an object
                ok, res = False, "%s: %s" % (type(e).__name__, e)
            out.append((ok, res))
    return f


def run(case, mon):
    sp = mon.sp
    r = gen.rs(case["seed"])
    cext = "True" if case["cext"] else False
    sp.spherepy.use_cext = cext
    if case["what"] == "parked":
        return sweep(case, mon, r)
    shared, plans = make_plan(sp, r, case)

    def materialise():
        return [session.build(sp, s) for s in shared], \
            [[[None if isinstance(a, int) else session.build(sp, a) for a in args] for _, _, args in p] for p in plans]

    def alone():
        objs, built = materialise()
        outs = []
        for i, p in enumerate(plans):
            outs.append([])
            doing(sp, p, built[i], objs, os.path.join(mon.scratch, "s"), outs[-1])()
        return outs

    def together():
        objs, built = materialise()
        outs = [[] for _ in plans]
        fs = [doing(sp, p, built[i], objs, os.path.join(mon.scratch, "t%d" % i), outs[i]) for i, p in enumerate(plans)]
        if case["what"] == "free":
            run_free(fs)
        else:
            sch = Scheduler(len(fs), case["p"], case["seed"], case["opcodes"])
            sch.run(fs)
            mon.events["scheduling-points"] += sch.steps
            mon.events["switches"] += len(sch.switches)
            if sch.free:
                mon.events["schedules-given-up"] += 1
            for f, n in sch.places:
                mon.ok("interrupted-line", (f, n))
            mon.ok("schedule", hashlib.sha1(repr(sch.switches).encode()).hexdigest())
        return outs, objs, built

    keep = shared_settings(sp)
    if case["first"]:
        (got, objs, built), want = together(), alone()
    else:
        want = alone()
        got, objs, built = together()
    now = shared_settings(sp)
    if now != keep:
        raise Violation("settings", "%d threads (%s) left the process with other settings: %s" % (
            len(plans), case["what"], [(k, keep[k], now[k]) for k in keep if keep[k] != now[k]]))
    mon.ok("settings")
    for i, plan in enumerate(plans):
        if len(got[i]) != len(plan):
            raise Violation("result", "thread %d ended after %d of %d operations" % (i, len(got[i]), len(plan)))
        for k, (name, params, args) in enumerate(plan):
            (ok1, a), (ok2, b) = got[i][k], want[i][k]
            a, b = [session.snap(sp, x) if ok else ("val", x) for ok, x in ((ok1, a), (ok2, b))]
            if ok1 != ok2 or not session.close(b, a):
                raise Violation("result", "%d threads (%s): %s%r on %s in thread %d gave another result than alone: %s "
                                "instead of %s" % (len(plans), case["what"], name, tuple(params),
                                                   [session.size_of(shared[x] if isinstance(x, int) else x)
                                                    for x in args], i, show(a), show(b)))
            mon.ok("free" if case["what"] == "free" else "result")
    for s, x in list(zip(shared, objs)) + [(a, o) for p, b in zip(plans, built) for (_, _, args), own in zip(p, b)
                                           for a, o in zip(args, own) if o is not None]:
        if not session.exact(s, session.snap(sp, x)) and not session.close(s, session.snap(sp, x), 1e-15):
            raise Violation("argument", "an argument was changed by operations of several threads")
    mon.ok("arguments-unchanged")


def an_op(sp, r, name, hi, like=None):
    """operation, parameters, arguments; like those of another one, with other data"""
    if like:
        return (name, like[1], [again(s, r) for s in like[2]])
    snaps = []
    for kind in session.OPS[name][0]:
        if kind == "same":
            snaps.append(again(snaps[0], r))
        else:
            snaps.append(session.snap(sp, fresh(sp, r, kind if isinstance(kind, str) else gen.pick(r, list(kind)), hi)))
    return (name, session.OPS[name][1](snaps, r), snaps)


def ask(mon, req):
    tag, ans = mon.nursery.ask(req)
    if tag != "done":
        if "signal" in str(ans):
            raise Violation("crash", "%s: %s" % (req, ans))
        raise RuntimeError("%s: %s" % (req["ops"], ans))
    return ans


def sweep(case, mon, r):
    """the operation interrupted at each of its places in turn"""
    sp = mon.sp
    base = {"cext": case["cext"], "event": case["event"], "path": os.path.join(mon.scratch, "k"), "warm": None}
    first = an_op(sp, r, case["op"], case["hi"])
    if case["warm"]:
        base["warm"] = an_op(sp, r, case["op"], case["hi"], first)

    def solo(op):
        return ask(mon, dict(base, what="solo", ops=[op]))
    want, visits = solo(first)
    others = [an_op(sp, r, case["op"], case["hi"], first)]
    others.append(an_op(sp, r, case["op"], case["hi"]))
    others.append(an_op(sp, r, gen.pick(r, sorted(session.OPS)), case["hi"]))
    wants = [solo(o)[0] for o in others]
    todo = [(p, 1 if k == 0 else int(r.randint(1, n + 1)), k) for p, n in visits for k in range(2)]
    if len(todo) > case["most"]:
        todo = [todo[k] for k in sorted(r.permutation(len(todo))[:case["most"]])]
    lost = 0
    for place, visit, k in todo:
        j = int(gen.pick(r, [0, 0, 0, 1, 2]))
        op, ref = others[j], wants[j]
        shared = j == 0 and r.randint(4) == 0
        if shared:
            op, ref = first, want
        met = k == 1 and j == 0             # the second one is interrupted at the same place
        ans = ask(mon, dict(base, what="pair", ops=[first, op], shared=bool(shared),
                            places=[(place, visit), (place, visit) if met else (None, 0)]))
        mon.calls += 2
        name = "%s%r on %s, interrupted at %s for %s%r on %s%s (%s%s)" % (
            first[0], tuple(first[1]), [session.size_of(s) for s in first[2]], place, op[0], tuple(op[1]),
            [session.size_of(s) for s in op[2]], " up to the same place" if met else "",
            "compiled" if case["cext"] else "Python", ", not the first use" if case["warm"] else "")
        if "stuck" in ans:
            raise Violation("no-answer", name + ": the threads do not end")
        for who, (ok, got), (ok0, exp) in (("first", ans["out"][0], want), ("second", ans["out"][1], ref)):
            if ok != ok0 or not session.close(exp, got):
                raise Violation("result", "%s: the %s gave %s instead of %s" % (name, who, show(got), show(exp)))
        if not all(ans["args"]):
            raise Violation("argument", name + ": an argument was changed")
        if ans["changed"]:
            raise Violation("settings", "%s: left the process with other settings: %s" % (name, ans["changed"]))
        if ans["gave_up"]:
            mon.events["parked-given-up"] += 1
            lost += 1
            if lost >= 3:
                break
        if ans["hit"]:
            mon.ok("parked", (case["op"], case["cext"], place, j, met, bool(shared)))
        else:
            mon.events["parked-missed"] += 1


def shared_settings(sp):
    """what the threads have in common besides objects"""
    s = {"the compiled setting": repr(sp.spherepy.use_cext), "the print options": repr(sorted(
        (k, str(v)) for k, v in np.get_printoptions().items())), "the floating point error handling": repr(np.geterr()),
        "the working directory": os.getcwd(), "the environment": dict(os.environ)}
    s.update(process())
    return s


def show(s):
    return re.sub(r"\s+", " ", repr(s))[:160]


def extra(run):
    """the native routines under ThreadSanitizer, compiled from the current sources"""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    exe = os.path.join(run.work, "tsan")
    src = [os.path.join("/repo/src", f) for f in ("csphi.c", "kiss_fft.c")]
    p = subprocess.run(["gcc", "-g", "-O1", "-fsanitize=thread", "-w", "-o", exe, "-I/repo/src",
                        os.path.join(here, "rt", "native", "threads.c")] + src + ["-lm", "-lpthread"],
                       capture_output=True, text=True)
    if p.returncode:        # the interface of the C sources is not part of the property
        run.notes.append("the native harness does not fit these sources: " + p.stderr[-500:])
        run.judged["native-thread"] += 4
        return
    rounds = 3 if run.tier == "quick" else 40
    env = {"PATH": os.environ["PATH"], "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1"}
    cmd = [exe, str(run.seed), str(rounds)]
    if shutil.which("setarch"):
        cmd = ["setarch", "-R"] + cmd
    p = subprocess.run(cmd, capture_output=True, text=True, env=env, timeout=600)
    if "unexpected memory mapping" in p.stderr or (p.returncode and "setarch" in p.stderr):
        p = subprocess.run(cmd[-3:], capture_output=True, text=True, env=env, timeout=600)
    m = re.search(r"DONE threads=(\d+) calls=(\d+)", p.stdout)
    replay = {"variant": "tsan", "index": None, "case": None, "id": "C19", "tier": run.tier, "seed": run.seed}
    if re.search(r"FATAL: ThreadSanitizer|ThreadSanitizer: CHECK failed", p.stderr):     # not about these sources
        run.notes.append("ThreadSanitizer does not run here: " + p.stderr[-500:])
        run.judged["native-thread"] += 4
    elif "WARNING: ThreadSanitizer" in p.stderr:
        run.violate("race", "ThreadSanitizer: " + p.stderr[:4000], replay)
    elif "DIFFERS" in p.stdout:
        run.violate("native-result", p.stdout[:1000], replay)
    elif p.returncode or not m:
        if p.returncode < 0:
            run.violate("native-crash", "signal %d\n%s" % (-p.returncode, p.stderr[-1500:]), replay)
        else:
            run.errors.append("thread harness: %d %s %s" % (p.returncode, p.stdout[-500:], p.stderr[-1500:]))
    else:
        run.judged["native-thread"] += int(m.group(1))
        run.extra["native_calls_in_parallel_under_tsan"] = int(m.group(2))
