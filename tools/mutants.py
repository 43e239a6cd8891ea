"""mutants.py FILE.py [name ...]: development tool, not used by any check. FILE.py has M = [(name, property, [(file, old,
new)...])]; each change is applied to a scratch copy of /repo shown at /repo in a mount namespace of its own; the stable
tests and then the quick check of the property run there. One line per mutant."""
import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

M = runpy.run_path(sys.argv[1])["M"]
names = sys.argv[2:]


def one(m):
    name, prop, edits = m[:3]
    checks = prop.split(",")
    top = tempfile.mkdtemp(prefix="mutant-")

    def sh(cmd, verif=False):
        pre = "mount --bind %s/repo /repo && " % top + ("mount --bind %s/verif /verif && " % top if verif else "")
        p = subprocess.run(["unshare", "-Urm", "bash", "-c", pre + "cd /repo && " + cmd], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=1200)
        return p.returncode, p.stdout
    try:
        subprocess.check_call(["cp", "-a", "/repo", top + "/repo"])
        for f, old, new in edits:
            p = top + "/repo/" + f
            b = open(p, newline="").read()
            if "\r\n" in b:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if b.count(old) != 1:
                return "%-32s EDIT MATCHES %d times: %r" % (name, b.count(old), old)
            open(p, "w", newline="").write(b.replace(old, new))
        rc, o = sh("bash /opt/vp/build.sh")
        if rc:
            return "%-32s BUILD FAILS %s" % (name, o[-400:])
        sh("bash /opt/vp/test.sh %s/t.json" % top)
        t = json.load(open(top + "/t.json"))
        tests = "tests ok" if len(t["passed"]) == 125 else "TESTS %d: %s" % (len(t["passed"]), t["failed"][:2])
        subprocess.check_call("mkdir %s/verif && cd /verif && cp -a rt run.py checks MANIFEST.json known-findings.txt "
                              "%s/verif/ && mkdir -p .build && cp -a .build %s/verif/" % (top, top, top), shell=True)
        out = []
        for c in checks:
            rc, o = sh("cd /verif && VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python run.py %s" % c, verif=True)
            out.append("%s %s | %s" % (c, {0: "QUIET", 1: "caught"}.get(rc, "RC=%s" % rc),
                                       o.strip()[:230 if rc == 1 else 600].replace("\n", " / ")))
        return "%-32s %s | %s" % (name, tests, " || ".join(out))
    finally:
        shutil.rmtree(top, ignore_errors=True)


todo = [m for m in M if not names or m[0] in names]
with concurrent.futures.ThreadPoolExecutor(3) as ex:
    for line in ex.map(one, todo):
        print(line, flush=True)
