"""sweep.py [--seeds=1,2] [--jobs=3] [NAMES]: development tool, not used by any check.

Runs the check of its own property against every planted bug, with several values of VERIF_SEED, each in a mount
namespace with a patched scratch copy of /repo, and prints what is caught with which seed."""
import json
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

opt = dict(a[2:].split("=") for a in sys.argv[1:] if a.startswith("--"))
names = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir("/verif/seeded"))
seeds = opt.get("seeds", "1").split(",")


def one(bid):
    d = "/verif/seeded/" + bid
    prop = json.load(open(d + "/meta.json"))["property"]
    top = tempfile.mkdtemp(prefix="sweep-")
    try:
        subprocess.check_call("cp -a /repo {0}/repo && git -C {0}/repo apply {1}/patch.diff && mkdir {0}/verif && cd /verif "
                              "&& cp -a rt run.py checks MANIFEST.json known-findings.txt {0}/verif/ && mkdir -p .build "
                              "&& cp -a .build {0}/verif/".format(top, d), shell=True)
        res = []
        for s in seeds:
            cmd = ("mount --bind {0}/repo /repo && mount --bind {0}/verif /verif && cd /verif && VERIF_SEED={1} "
                   "VERIF_TIER=quick /opt/venv/bin/python run.py {2}".format(top, s, prop))
            p = subprocess.run(["unshare", "-Urm", "bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True)
            ok = p.returncode == 1 and "VIOLATION property=%s " % prop in p.stdout
            res.append("caught" if ok else "rc=%d %s" % (p.returncode, p.stdout[-150:].strip()))
    finally:
        subprocess.call(["rm", "-rf", top])
    print("%-32s %s" % (bid, " | ".join(res)))
    sys.stdout.flush()


with ThreadPoolExecutor(int(opt.get("jobs", "3"))) as ex:
    list(ex.map(one, names))
