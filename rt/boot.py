"""Imports spherepy from /repo with the extension built by rt.build. Runs inside a worker process only."""
import os
import sys
import warnings

REPO = "/repo"


def load(ext_dir):
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != REPO]
    sys.path.insert(0, REPO)
    sys.path.insert(0, ext_dir)      # before /repo, so that `import _csphi` finds the fresh build
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import spherepy as sp
    import _csphi
    if os.path.dirname(os.path.realpath(_csphi.__file__)) != os.path.realpath(ext_dir):
        raise RuntimeError("wrong extension: " + _csphi.__file__)
    native = sys.modules.get("_csphi")
    if native is not _csphi or not os.path.realpath(sp.__file__).startswith(REPO + "/"):
        raise RuntimeError("wrong package: " + sp.__file__)
    return sp
