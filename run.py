"""run.py ID [--thorough] [--replay FILE]: decides one property on /repo's current tree.

Exit 0: held on everything observed. Exit 1: VIOLATION lines. Exit 2: no verdict (build failure, harness error, or
too little observed).
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from rt import build                                                                                # noqa: E402

PY = "/opt/venv/bin/python"
NWORK = 8
LIBASAN = "/usr/lib/gcc/x86_64-linux-gnu/13/libasan.so"


def worker_env(variant):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR")}
    env.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
               PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", MPLCONFIGDIR=os.path.join(HERE, ".build", "mpl"))
    if variant.get("flavour") == "asan":
        env.update(LD_PRELOAD=LIBASAN + ":libstdc++.so.6", PYTHONMALLOC="malloc",
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:halt_on_error=1:allocator_may_return_null=1:"
                                "detect_stack_use_after_return=1:strict_string_checks=1",
                   UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=1")
    if "preload" in variant:
        env["LD_PRELOAD"] = build.shim(variant["preload"])
    env.update(variant.get("env", {}))
    return env


def tree(pid):
    """the process we started and its descendants: {pid: clock ticks used, ended children included}"""
    parent, used = {}, {}
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open("/proc/%s/stat" % p) as f:
                    w = f.read().rsplit(")", 1)[1].split()
            except (OSError, IndexError):
                continue
            parent[int(p)] = int(w[1])
            used[int(p)] = sum(map(int, w[11:15]))
    mine, more = set(), {pid} & set(used)
    while more:
        mine |= more
        more = {p for p, q in parent.items() if q in mine} - mine
    return {p: used[p] for p in mine}


IDLE = 100      # looks, one second apart, during which a worker that waits for itself has used no processor time


def watch(job, journal):
    """ends a worker whose case neither ends nor computes anything: a lock that is never given back, a wait for nothing"""
    p = job["process"]
    ticks = os.sysconf("SC_CLK_TCK")
    last, at, looks = None, 0, 0
    while p.poll() is None:
        time.sleep(1.0)
        try:
            case = os.stat(journal).st_mtime_ns
        except OSError:
            continue                            # no case yet
        now = tree(p.pid)
        total = sum(now.values())
        if case != last or not 0 <= total - at < ticks:
            last, at, looks = case, total, 0
            continue
        looks += 1
        if looks >= IDLE:
            job["idle"] = True
            for q in sorted(now, reverse=True):
                try:
                    os.kill(q, signal.SIGKILL)
                except OSError:
                    pass
            return


def known_findings(pid):
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


class Run(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.mod = importlib.import_module("checks." + pid)
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        self.violations = []
        self.errors = []
        self.events = collections.Counter()
        self.judged = collections.Counter()
        self.worst = {}
        self.states = set()
        self.samples = []
        self.ran = self.planned = self.calls = 0
        self.extra = {}
        self.notes = []

    def violate(self, key, detail, replay):
        self.violations.append({"key": key, "detail": detail, "replay": replay})

    def launch(self, variant, shard, nshards, cases=None, upto=None):
        ext = build.build(variant.get("flavour", "plain"))
        base = os.path.join(self.work, "%s-%d" % (variant["name"], shard))
        os.makedirs(base + ".d", exist_ok=True)
        cfg = {"id": self.pid, "tier": self.tier, "seed": self.seed, "shard": shard, "nshards": nshards, "ext": ext,
               "variant": variant["name"], "journal": base + ".journal", "result": base + ".json",
               "asan": variant.get("flavour") == "asan" or "wrap" in variant, "scratch": base + ".d", "upto": upto,
               "budget": getattr(self.mod, "BUDGET", {}).get(self.tier, 240 if self.tier == "quick" else 3000)}
        if cases is not None:
            cfg["cases"] = cases
        with open(base + ".cfg", "w") as f:
            json.dump(cfg, f)
        err = open(base + ".err", "w")
        p = subprocess.Popen(variant.get("wrap", []) + [PY, os.path.join(HERE, "rt", "worker.py"), base + ".cfg"], cwd=base + ".d",
                             env=worker_env(variant), stdin=subprocess.DEVNULL, stdout=err, stderr=err)
        err.close()
        job = {"process": p, "idle": False}
        threading.Thread(target=watch, args=(job, cfg["journal"]), daemon=True).start()
        return job, cfg, variant, base

    def collect(self, job):
        job, cfg, variant, base = job
        rc = job["process"].wait()
        err = open(base + ".err", errors="replace").read()
        where = {"id": self.pid, "tier": self.tier, "seed": self.seed, "variant": variant["name"],
                 "shard": cfg["shard"], "nshards": cfg["nshards"]}
        if os.path.exists(cfg["result"]):
            r = json.load(open(cfg["result"]))
            self.ran += r["ran"]
            self.planned += r["planned"]
            self.calls += r["calls"]
            self.events.update(r["events"])
            self.judged.update(r["judged"])
            for k, v in r["worst"].items():
                self.worst[k] = max(self.worst.get(k, 0), v)
            self.states.update(variant["name"][:1] + s for s in r["states"])
            self.notes += r["notes"]
            if len(self.samples) < 8:
                self.samples += r["samples"][:2]
            if r["error"]:
                self.errors.append(r["error"])
            for v in r["violations"]:
                self.violate(v["key"], v["detail"], dict(where, index=v["index"], case=v["case"]))
            if rc == 0:
                return
            if r["error"] or r["violations"]:
                return
        j = {"index": None, "case": None}
        try:
            j = json.load(open(cfg["journal"]))
        except Exception:
            pass
        san = re.search(r"(ERROR: \w+Sanitizer: [\w\- ]+|runtime error: [^\n]+)", err)
        if rc < 0 and -rc == signal.SIGPROF:
            self.violate("no-answer", "the case used more than %s s of processor time" %
                         getattr(self.mod, "CPU_LIMIT", 120), dict(where, **j))
        elif job["idle"] and j["case"] is not None:
            self.violate("no-answer", "the case waited for %d s without computing anything\n%s" % (IDLE, err[-1500:]),
                         dict(where, **j))
        elif san and j["case"] is not None:
            self.violate("sanitizer:" + re.sub(r"0x[0-9a-f]+|\d+", "N", san.group(1))[:80], err[-6000:],
                         dict(where, **j))
        elif rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL) \
                and j["case"] is not None:
            self.violate("crash:" + signal.Signals(-rc).name, "the interpreter died\n" + err[-3000:],
                         dict(where, **j))
        else:
            tb = err[:2500] + "\n...\n" + err[-1500:]
            if rc > 0 and j["case"] is None and "/repo/spherepy" in tb and "Traceback" in tb:
                self.violate("import", "the package cannot be imported\n" + tb, dict(where, **j))
            else:
                self.errors.append("worker %s ended with %s\n%s" % (base, rc, tb))

    def main(self):
        variants = getattr(self.mod, "VARIANTS", [{"name": "plain", "flavour": "plain"}])
        for v in variants:
            build.build(v.get("flavour", "plain"))
        for v in variants:
            if self.tier not in v.get("tiers", (self.tier,)):
                continue
            n = v.get("workers", NWORK)
            jobs = [self.launch(v, k, n) for k in range(n)]
            for j in jobs:
                self.collect(j)
            if self.violations and not all(x["key"].startswith("known-") for x in self.violations):
                break
        if hasattr(self.mod, "extra") and not self.errors:
            self.mod.extra(self)

    def replay(self, path):
        r = json.load(open(path))
        self.tier, self.seed = r["tier"], r["seed"]
        variants = {v["name"]: v for v in getattr(self.mod, "VARIANTS", [{"name": "plain", "flavour": "plain"}])}
        if r.get("variant") not in variants:
            self.main()
            return
        v = variants[r["variant"]]
        if r.get("case") is not None:
            self.collect(self.launch(v, 0, 1, cases=[r["case"]]))
        if not self.violations and not self.errors:     # needs the history of its shard
            self.collect(self.launch(v, r["shard"], r["nshards"], upto=r.get("index")))

    def finish(self, evidence=True):
        known = known_findings(self.pid)
        rc = 0
        unknown = []
        printed = set()
        for v in self.violations:
            if v["key"] in known:
                if v["key"] not in printed:
                    printed.add(v["key"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, known[v["key"]]))
            else:
                unknown.append(v)
        if unknown:
            rc = 1
            rdir = os.path.join(HERE, "replays")
            os.makedirs(rdir, exist_ok=True)
            done = set()
            for v in unknown:
                if v["key"] in done or len(done) >= 5:
                    continue
                done.add(v["key"])
                body = json.dumps(dict(v["replay"], key=v["key"], detail=v["detail"]), indent=1)
                path = os.path.join(rdir, "%s-%s.json" % (self.pid, hashlib.sha1(body.encode()).hexdigest()[:10]))
                with open(path, "w") as f:
                    f.write(body)
                print("  %s: %s" % (v["key"], v["detail"][:900]))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
        need = getattr(self.mod, "MIN", {})
        short = ["%s %d < %d" % (k, self.judged.get(k, 0) + self.events.get(k, 0), n) for k, n in need.items()
                 if self.judged.get(k, 0) + self.events.get(k, 0) < n]
        if rc == 0 and evidence and (self.errors or short or not self.states):
            rc = 2
            for e in self.errors[:3]:
                print("ERROR", e[:3000])
            if short:
                print("INCONCLUSIVE: too little observed:", "; ".join(short))
        elif rc == 0 and self.errors:
            rc = 2
            print("ERROR", self.errors[0][:3000])
        wall = time.time() - self.t0
        if evidence:
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration",
                  "coverage": {"evaluations": self.ran + self.extra.get("evaluations", 0),
                               "distinct_nontrivial": len(self.states),
                               "rule": self.mod.RULE,
                               "samples": self.samples[:6] or [{}],
                               "cases_planned": self.planned, "api_calls_by_workload": self.calls,
                               "events_observed": dict(self.events), "verdicts": dict(self.judged),
                               "worst_error_over_tolerance": {k: float("%.3g" % v)
                                                              for k, v in sorted(self.worst.items())}},
                  "assumptions": getattr(self.mod, "ASSUMPTIONS", []),
                  "wall_s": round(wall, 2), "violations": len(unknown)}
            ev["coverage"].update({k: v for k, v in self.extra.items() if k != "evaluations"})
            if self.notes:
                ev["coverage"]["notes"] = sorted(set(self.notes))[:20]
            with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        print("%s %s seed=%d: %d of %d cases, %d verdicts, %d distinct, %.1f s -> %s" %
              (self.pid, self.tier, self.seed, self.ran, self.planned, sum(self.judged.values()), len(self.states),
               wall, {0: "held", 1: "VIOLATED", 2: "no verdict"}[rc]))
        shutil.rmtree(self.work, ignore_errors=True)
        return rc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = "thorough" if a.thorough else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    run = Run(a.id, tier, int(os.environ.get("VERIF_SEED", "1")))
    try:
        if a.replay:
            run.replay(a.replay)
        else:
            run.main()
    except build.BuildError as e:
        run.errors.append(str(e))
    return run.finish(evidence=not a.replay)


if __name__ == "__main__":
    sys.exit(main())
