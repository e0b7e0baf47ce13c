"""Process environment: one thread, fixed hash seed, curvlinops compiled from /repo.

Nothing here draws randomness or reads a clock.
"""

import os
import sys
import warnings

REPO = os.environ.get("DST_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
FIXED = {
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_CBWR": "COMPATIBLE",
    "CUDA_VISIBLE_DEVICES": "",
    "PYTHONDONTWRITEBYTECODE": "1",
    "TQDM_DISABLE": "",
    "MPLBACKEND": "Agg",
}


def reexec_if_needed(argv):
    """Re-execute with the fixed environment (idempotent)."""
    missing = {k: v for k, v in FIXED.items() if os.environ.get(k) != v}
    hashseed = os.environ.get("DST_HASHSEED", "0")
    if os.environ.get("PYTHONHASHSEED") != hashseed:
        missing["PYTHONHASHSEED"] = hashseed
    if os.environ.get("DST_REEXEC") == "1" or not missing:
        return
    env = dict(os.environ, **missing)
    env["DST_REEXEC"] = "1"
    os.execve(PYTHON, [PYTHON, "-m", "dst"] + argv, env)


_done = False


def setup():
    """Import torch single-threaded and curvlinops from the working tree's sources."""
    global _done
    if _done:
        return
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import torch

    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    torch.use_deterministic_algorithms(True, warn_only=True)
    # dependencies first, with their byte code
    import backpack.hessianfree.ggnvp  # noqa: F401
    import backpack.hessianfree.hvp  # noqa: F401
    import backpack.hessianfree.rop  # noqa: F401
    import backpack.utils.convert_parameters  # noqa: F401
    import einconv  # noqa: F401
    import einops  # noqa: F401
    import matplotlib  # noqa: F401
    import scipy.sparse.linalg  # noqa: F401
    import tqdm  # noqa: F401

    # never trust byte code written for another version of the sources
    prefix = sys.pycache_prefix
    sys.pycache_prefix = "/nonexistent-dst-pycache"
    import curvlinops
    import curvlinops.experimental.activation_hessian  # noqa: F401

    sys.pycache_prefix = prefix

    origin = os.path.dirname(os.path.realpath(curvlinops.__file__))
    expected = os.path.realpath(os.path.join(REPO, "curvlinops"))
    if origin != expected:
        raise SystemExit(f"curvlinops imported from {origin}, expected {expected}")
    _done = True
