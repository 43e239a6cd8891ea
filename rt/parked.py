"""One operation interrupted at a chosen place while another one runs: executed in a fork of a process that has not used
the package, so that every place is visited from the same state, whatever earlier executions left behind."""
import os
import sys
import threading

from rt import session

STEP_LIMIT = 400000


def watch(root, event, seen):
    """a trace function calling seen(place) at every line (or instruction) of the package"""
    opcodes = event == "opcode"

    def local(frame, ev, arg):
        if ev == event:
            seen((os.path.basename(frame.f_code.co_filename), frame.f_lineno, frame.f_lasti if opcodes else 0))
        return local

    def trace(frame, ev, arg):
        if not frame.f_code.co_filename.startswith(root):
            return None
        if opcodes:
            frame.f_trace_opcodes = True
        return local
    return trace


def attempt(sp, name, objs, params, path):
    try:
        return session.execute(sp, name, objs, params, path)
    except BaseException as e:              # a judge's verdict while reading an object
        return False, "%s: %s" % (type(e).__name__, e)


def answer(sp, out):
    ok, res = out
    return ok, session.snap(sp, res) if ok else ("val", res)


def warm_up(sp, req):
    if req["warm"] is not None:
        name, params, snaps = req["warm"]
        attempt(sp, name, [session.build(sp, s) for s in snaps], params, req["path"] + "w")


def solo(sp, req):
    """runs the operation alone; the places it visits in order of their first visit, with the number of visits"""
    sp.spherepy.use_cext = "True" if req["cext"] else False
    warm_up(sp, req)
    name, params, snaps = req["ops"][0]
    objs = [session.build(sp, s) for s in snaps]
    visits = {}

    def seen(place):
        visits[place] = visits.get(place, 0) + 1
    out = []

    def body():
        sys.settrace(watch("/repo/", req["event"], seen))
        try:
            out.append(attempt(sp, name, objs, params, req["path"] + "a"))
        finally:
            sys.settrace(None)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    return answer(sp, out[0]), list(visits.items())


class Stop(object):
    """lets a thread wait at a place until it is told to go on"""

    def __init__(self, place, visit, event):
        self.place, self.left, self.event = place, visit, event
        self.reached, self.go = threading.Event(), threading.Event()

    def seen(self, place):
        if place == self.place:
            self.left -= 1
            if self.left == 0:
                self.reached.set()
                self.go.wait(60)

    def run(self, f):
        sys.settrace(watch("/repo/", self.event, self.seen))
        try:
            f()
        finally:
            sys.settrace(None)
            self.reached.set()


def pair(sp, req):
    """the first operation waits at its place while the second one runs to its end (or, if it has a place too, until
    there; then the first one ends before the second one)"""
    from checks.C18 import process, settings
    sp.spherepy.use_cext = "True" if req["cext"] else False
    warm_up(sp, req)
    objs = []
    for k, (name, params, snaps) in enumerate(req["ops"]):
        objs.append(objs[0] if k and req["shared"] else [session.build(sp, s) for s in snaps])
    keep = dict(settings(), **process())
    stops = [Stop(tuple(p), v, req["event"]) if p else None for p, v in req["places"]]
    outs = [[], []]

    def body(k):
        name, params, _ = req["ops"][k]

        def f():
            outs[k].append(attempt(sp, name, objs[k], params, req["path"] + "ab"[k]))
        return stops[k].run(f) if stops[k] else f()
    ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(2)]
    gave_up = False
    ts[0].start()
    stops[0].reached.wait(20)
    hit = bool(ts[0].is_alive() and stops[0].left <= 0)
    ts[1].start()
    if stops[1]:
        if not stops[1].reached.wait(0.7):
            gave_up = True                  # the second one waits for something the first one holds
        stops[0].go.set()
        ts[0].join(0.7)
        gave_up = gave_up or ts[0].is_alive()
        stops[1].go.set()
    else:
        ts[1].join(0.7)
        gave_up = ts[1].is_alive()
        stops[0].go.set()
    for t in ts:
        t.join(30)
        if t.is_alive():
            return {"stuck": True}
    now = dict(settings(), **process())
    changed = [(k, str(keep[k])[:200], str(now[k])[:200]) for k in keep if keep[k] != now[k]]
    args = [all(session.close(s, session.snap(sp, x), 1e-15) for s, x in zip(snaps, o))
            for (name, params, snaps), o in zip(req["ops"], objs)]
    return {"out": [answer(sp, o[0]) for o in outs], "hit": hit, "gave_up": gave_up, "changed": changed, "args": args}


def serve(sp, req):
    return (solo if req["what"] == "solo" else pair)(sp, req)
