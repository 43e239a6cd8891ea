"""Runs one shard of a check's cases in a fresh interpreter. argv[1]: JSON configuration."""
import collections
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True


def main():
    with open(sys.argv[1]) as f:
        cfg = json.load(f)
    sys.path[:] = [p for p in sys.path if p not in ("", os.path.dirname(os.path.abspath(__file__)))]
    from rt import boot
    sp = boot.load(cfg["ext"])
    import numpy as np
    from rt.monitor import Monitor, Violation
    mod = importlib.import_module("checks." + cfg["id"])
    if not cfg.get("asan"):
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    mon = Monitor(sp)
    mon.cfg = cfg
    mon.scratch = cfg["scratch"]
    if hasattr(mod, "setup"):
        mod.setup(mon)
    if "cases" in cfg:
        cases = list(enumerate(cfg["cases"]))
    else:
        all_cases = []
        for k in range(getattr(mod, "ROUNDS", {}).get(cfg["tier"], 1)):      # each with draws of its own
            all_cases += mod.cases(cfg["tier"], np.random.RandomState((cfg["seed"] + 7919 * k) % 2 ** 32), cfg["variant"])
        cases = [(i, c) for i, c in enumerate(all_cases) if i % cfg["nshards"] == cfg["shard"]]
        if cfg.get("upto") is not None:
            cases = [(i, c) for i, c in cases if i <= cfg["upto"]]
    out = {"violations": [], "error": None, "ran": 0, "planned": len(cases), "samples": [], "notes": []}
    cpu = getattr(mod, "CPU_LIMIT", 120)
    t0 = time.time()
    journal = open(cfg["journal"], "w")
    seen_keys = collections.Counter()
    for i, case in cases:
        if time.time() - t0 > cfg["budget"]:
            break
        journal.seek(0)
        journal.truncate()
        journal.write(json.dumps({"index": i, "case": case}))
        journal.flush()
        np.random.seed((cfg["seed"] * 1000003 + i) % (2 ** 32))
        signal.setitimer(signal.ITIMER_PROF, cpu)
        try:
            mod.run(case, mon)
        except Violation as v:
            seen_keys[v.key] += 1
            if seen_keys[v.key] <= 2:
                out["violations"].append({"key": v.key, "detail": v.detail[:2000], "index": i, "case": case})
            if not v.key.startswith("known-"):
                if sum(n for k, n in seen_keys.items() if not k.startswith("known-")) >= 3:
                    break
        except Exception:
            tb = traceback.format_exc()
            et, ev, t = sys.exc_info()
            frames = traceback.extract_tb(t)
            if any(f.filename.startswith("/repo/") for f in frames):
                out["violations"].append({"key": "raised:%s" % et.__name__, "detail": tb[-1500:], "index": i,
                                          "case": case})
                break
            out["error"] = "case %s\n%s" % (json.dumps(case), tb)
            break
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        out["ran"] += 1
        if len(out["samples"]) < 3 and (out["ran"] in (1, 7) or out["ran"] == len(cases) // 2):
            out["samples"].append(case)
    if hasattr(mod, "finish") and not out["error"] and not out["violations"]:
        try:
            mod.finish(mon)
        except Violation as v:
            out["violations"].append({"key": v.key, "detail": v.detail[:2000], "index": None, "case": None})
    out["events"] = dict(mon.events)
    out["judged"] = dict(mon.judged)
    out["worst"] = mon.worst
    out["calls"] = mon.calls
    out["states"] = [s.hex() for s in mon.states]
    out["notes"] = getattr(mon, "notes", [])
    with open(cfg["result"] + ".tmp", "w") as f:
        json.dump(out, f)
    os.rename(cfg["result"] + ".tmp", cfg["result"])
    journal.close()


if __name__ == "__main__":
    main()
