"""Prepare the process: environment, seams, and the code under test."""

import os
import sys

REPO = os.environ.get("DST_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"

ENV = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMEXPR_NUM_THREADS": "1",
    "OPENBLAS_CORETYPE": "Haswell",
    "NPY_DISABLE_CPU_FEATURES": "",
    "MPLBACKEND": "agg",
    "MPLCONFIGDIR": "/tmp/dst-mpl",
    "QT_QPA_PLATFORM": "offscreen",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONNOUSERSITE": "1",
    "LC_ALL": "C.UTF-8",
    "TZ": "UTC",
}


def environment(hashseed="0"):
    env = dict(os.environ)
    env.update(ENV)
    env.pop("PYTHONPATH", None)
    env.pop("NPY_DISABLE_CPU_FEATURES", None)
    env["PYTHONHASHSEED"] = str(hashseed)
    return env


def reexec(hashseed="0"):
    """Restart the interpreter in the controlled environment."""
    if os.environ.get("DST_BOOTED") == "1":
        return
    env = environment(os.environ.get("DST_HASHSEED", hashseed))
    env["DST_BOOTED"] = "1"
    os.execve(PYTHON, [PYTHON] + sys.argv, env)


_loaded = None


def load(exclude=()):
    """Import pygsp from REPO behind the seams, and instrument it."""
    global _loaded
    if _loaded is not None:
        return _loaded
    import logging
    import warnings
    warnings.simplefilter("ignore")
    # Libraries first, so that only pygsp sees the simulated primitives.
    import numpy
    import scipy
    import scipy.io
    import scipy.linalg
    import scipy.optimize
    import scipy.sparse
    import scipy.sparse.linalg
    import scipy.sparse.csgraph
    import scipy.spatial
    import scipy.spatial.distance
    import scipy.interpolate
    import scipy.stats
    import networkx
    from . import kernel, seams
    seams.patch_random()
    kernel.patch_locks()
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import pygsp
    if not pygsp.__file__.startswith(REPO + os.sep):
        raise kernel.HarnessError(f"imported {pygsp.__file__}")
    import pkgutil
    import importlib
    for m in pkgutil.walk_packages(pygsp.__path__, "pygsp."):
        if ".tests" not in m.name:
            importlib.import_module(m.name)
    n = kernel.instrument(os.path.join(REPO, "pygsp"),
                          exclude=(os.sep + "tests" + os.sep,))
    if n < 50:
        raise kernel.HarnessError(f"only {n} functions found")
    logging.disable(logging.CRITICAL)
    numpy.seterr(all="ignore")
    # First uses (loggers) happen now, so that no run is special.
    try:
        warm = pygsp.graphs.Graph([[0, 1], [1, 0]])
        pygsp.filters.Filter(warm, [lambda x: x]).filter([1., 2.])
        pygsp.graphs.Community(N=9, Nc=3, seed=1)
        pygsp.graphs.RandomRegular(6, 2, seed=1)
    except Exception:
        pass
    _loaded = pygsp
    return pygsp
