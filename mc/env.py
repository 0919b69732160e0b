"""Execution environment of the code under test.

Everything the checks execute is imported from the working tree of /repo (or
$MC_REPO), never from an installed copy.  Sources of nondeterminism and noise
are pinned here: hash seed, BLAS threads, matplotlib cache, progress bars,
logging, warnings.  This module must be imported before meshiphi.
"""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get("MC_REPO", "/repo")

PIN = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "TQDM_DISABLE": "1",
    "TZ": "UTC",
    "LC_ALL": "C.UTF-8",
}


def reexec_if_needed(argv):
    """Pin the hash seed and thread counts: they only act at interpreter start."""
    if os.environ.get("MC_PINNED") == "1":
        return
    env = dict(os.environ)
    env.update(PIN)
    env["MC_PINNED"] = "1"
    os.execve(sys.executable, [sys.executable, "-B"] + argv, env)


_SCRATCH = None


def scratch():
    """Per-process scratch directory, removed at exit."""
    global _SCRATCH
    if _SCRATCH is None or _SCRATCH[0] != os.getpid():
        base = os.environ.get("MC_SCRATCH_BASE")
        d = tempfile.mkdtemp(prefix="mc_", dir=base)
        _SCRATCH = (os.getpid(), d)
        atexit.register(shutil.rmtree, d, True)
    return _SCRATCH[1]


def setup_paths():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    warnings.filterwarnings("ignore")
    import logging
    logging.disable(logging.CRITICAL)


def quiet_fds():
    """Send this process' stdout and stderr to /dev/null (workers only)."""
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    os.close(devnull)
