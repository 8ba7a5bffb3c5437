"""Binds the harness to the code under /repo/src and fixes all run-time settings.

Import this module before jax. Everything is single threaded per worker and deterministic.
"""
import os
import sys
import warnings

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")

for _k, _v in {
    "JAX_PLATFORMS": "cpu",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "TF_CPP_MIN_LOG_LEVEL": "3",
}.items():
    os.environ.setdefault(_k, _v)

sys.dont_write_bytecode = True
if REPO_SRC not in sys.path:
    sys.path.insert(0, REPO_SRC)
warnings.filterwarnings("ignore")


def load(x64=True):
    """Imports jax and fmmax from the working tree and returns the modules."""
    import jax

    if x64 is not None:
        jax.config.update("jax_enable_x64", bool(x64))
    import fmmax

    path = os.path.realpath(fmmax.__file__)
    want = os.path.realpath(REPO_SRC)
    if not path.startswith(want + os.sep):
        raise RuntimeError(f"fmmax imported from {path}, expected under {want}")
    from fmmax import pml  # noqa: F401  (not imported by the package itself)

    return fmmax
