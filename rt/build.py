"""Builds the repository's C extension from /repo's current working tree.

Nothing is written into /repo: build_ext gets its own --build-lib and --build-temp under /verif/.build (ignored by
git), keyed by the content of every input of the build, so an edited source is always rebuilt.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = "/repo"
PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(os.path.dirname(HERE), ".build")

FLAVOURS = {
    "plain": {},
    # gcc's sanitizers; every report is fatal. Division by zero in floating point is not among them: its result is
    # defined by IEEE 754, which this code runs on
    "asan": {
        "CC": "gcc",
        "CFLAGS": "-O1 -g -fno-wrapv -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow "
                  "-fno-sanitize-recover=all",
        "LDFLAGS": "-fsanitize=address,undefined",
    },
}


class BuildError(Exception):
    pass


def build_inputs():
    files = [os.path.join(REPO, f) for f in ("setup.py", "setup.cfg", "README.md", "spherepy/pkg_info.json")]
    for root, dirs, names in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        files += [os.path.join(root, n) for n in sorted(names)]
    return [f for f in files if os.path.isfile(f)]


def digest(extra=""):
    h = hashlib.sha256(extra.encode())
    for f in build_inputs():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fp:
            h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()[:20]


def build(flavour="plain"):
    """Returns the directory that holds the freshly built _csphi for the current tree."""
    env_extra = FLAVOURS[flavour]
    key = digest(flavour + repr(sorted(env_extra.items())))
    out = os.path.join(CACHE, "%s-%s" % (flavour, key))
    if glob.glob(os.path.join(out, "_csphi*.so")):
        return out
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="b-", dir=CACHE)
    env = dict(os.environ)
    for k in ("LD_PRELOAD", "PYTHONPATH", "CFLAGS", "LDFLAGS", "CC"):
        env.pop(k, None)
    env.update(env_extra)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    p = subprocess.run([PY, "setup.py", "-q", "build_ext", "--build-lib", os.path.join(tmp, "lib"),
                        "--build-temp", os.path.join(tmp, "tmp"), "--force"],
                       cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    libs = glob.glob(os.path.join(tmp, "lib", "_csphi*.so"))
    if p.returncode != 0 or not libs:
        shutil.rmtree(tmp, ignore_errors=True)
        raise BuildError("the C extension does not build (%s):\n%s" % (flavour, p.stdout[-4000:]))
    stage = os.path.join(tmp, "stage")
    os.makedirs(stage)
    shutil.move(libs[0], stage)
    try:
        os.rename(stage, out)
    except OSError:
        if not glob.glob(os.path.join(out, "_csphi*.so")):   # another run of ours put it there first
            raise
    shutil.rmtree(tmp, ignore_errors=True)
    return out


def shim(name):
    """a preload library of ours, rt/native/<name>.c"""
    src = os.path.join(HERE, "native", name + ".c")
    with open(src, "rb") as f:
        out = os.path.join(CACHE, "%s-%s.so" % (name, hashlib.sha256(f.read()).hexdigest()[:16]))
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        fd, tmp = tempfile.mkstemp(suffix=".so", dir=CACHE)
        os.close(fd)
        p = subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-o", tmp, src], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError(p.stdout)
        os.rename(tmp, out)
    return out


if __name__ == "__main__":
    for f in (sys.argv[1:] or FLAVOURS):
        print(build(f))
