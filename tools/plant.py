"""plant.py SPEC [--checks C01,C02|all] [--keep]: development tool, not used by any check.

Applies the edits of a spec (a Python file with PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO) to a scratch copy
of /repo shown at /repo in a mount namespace of its own; builds, runs the stable tests and the demonstration with and
without the change, writes /verif/seeded/<id>/, and runs checks against it."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

args = [a for a in sys.argv[1:] if not a.startswith("--")]
opts = [a for a in sys.argv[1:] if a.startswith("--")]
spec = args[0]
bid = os.path.basename(spec)[:-3]
S = runpy.run_path(spec)
checks = [S["PROP"]]
for o in opts:
    if o.startswith("--checks="):
        checks = o.split("=")[1].split(",")
        if checks == ["all"]:
            checks = ["C%02d" % i for i in range(1, 26)]
        if checks == ["none"]:
            checks = []
top = tempfile.mkdtemp(prefix="plant-")


def sh(cmd, verif=False, timeout=1800):
    pre = "mount --bind %s/repo /repo && " % top + ("mount --bind %s/verif /verif && " % top if verif else "")
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", pre + "cd /repo && " + cmd], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def tests():
    rc, o = sh("bash /opt/vp/test.sh %s/t.json" % top)
    t = json.load(open(top + "/t.json"))
    base = set(json.load(open("/opt/vp/BASELINE.json"))["passing"]) if False else None
    ok = set(x for x in t["passed"])
    return ok, t["failed"], o


try:
    subprocess.check_call(["cp", "-a", "/repo", top + "/repo"])
    d = "/verif/seeded/" + bid
    out = top + "/seed"
    os.makedirs(out)
    open(out + "/demo.py", "w").write(S["DEMO"].lstrip("\n"))
    open(out + "/demo.sh", "w").write("#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n"
                                      "exec timeout 250 /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
    if "DEMO_SH" in S:
        open(out + "/demo.sh", "w").write(S["DEMO_SH"].lstrip("\n"))
    json.dump({"property": S["PROP"], "needs": " ".join(S["NEEDS"].split()),
               "what_it_breaks": " ".join(S["BREAKS"].split())}, open(out + "/meta.json", "w"), indent=1)
    rc, o = sh("bash /opt/vp/build.sh")
    assert rc == 0, o
    rc, o = sh("bash %s/demo.sh" % out)
    if rc != 0:
        print(bid, "DEMO FAILS ON CLEAN TREE", o[-2000:]); sys.exit(1)
    for f, old, new in S["EDITS"]:
        p = top + "/repo/" + f
        b = open(p, newline="").read()
        crlf = "\r\n" in b
        if crlf:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if b.count(old) != 1:
            print(bid, "EDIT MATCHES", b.count(old), "times:", repr(old)); sys.exit(1)
        open(p, "w", newline="").write(b.replace(old, new))
    diff = subprocess.check_output(["git", "-C", top + "/repo", "diff", "--no-color"])
    open(out + "/patch.diff", "wb").write(diff)
    ok, failed, o = tests()
    if failed or len(ok) != 125:
        print(bid, "TESTS FAIL", len(ok), failed, o[-3000:]); sys.exit(1)
    rc, o = sh("bash %s/demo.sh" % out)
    if rc == 0:
        print(bid, "DEMO PASSES WITH THE CHANGE", o[-2000:]); sys.exit(1)
    os.makedirs("/verif/seeded", exist_ok=True)
    if os.path.isdir(d):
        shutil.rmtree(d)
    shutil.copytree(out, d)
    print(bid, "OK for", S["PROP"], "demo rc", rc, o.strip()[-160:])
    subprocess.check_call("mkdir %s/verif && cd /verif && cp -a rt run.py checks MANIFEST.json known-findings.txt %s/verif/ "
                          "&& mkdir -p .build && cp -a .build %s/verif/" % (top, top, top), shell=True)
    res = {}
    for c in checks:
        rc, o = sh("cd /verif && VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python run.py %s" % c, verif=True)
        res[c] = rc
        if rc != 0 or c == S["PROP"]:
            print("   ", c, {0: "quiet", 1: "CAUGHT"}.get(rc, "rc=%s" % rc), "|",
                  o.strip()[:300 if rc == 1 else 1500].replace("\n", " / "))
    sys.stdout.flush()
finally:
    shutil.rmtree(top, ignore_errors=True)
