"""Process set-up of a simulation worker.

Loads the code under test from the working tree ($NTN_REPO, default /repo) as both
``OpenNTN`` and ``sionna.phy.channel.tr38811``, whatever is installed, and pins
every source of nondeterminism outside the simulator's control (thread pools of
TensorFlow, bytecode caches, devices).
"""
import importlib.util
import importlib.abc
import os
import sys

REPO = os.environ.get("NTN_REPO", "/repo")
NTN_DIR = os.path.join(os.path.realpath(REPO), "OpenNTN")

ENV = {
    "CUDA_VISIBLE_DEVICES": "-1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    "TF_ENABLE_ONEDNN_OPTS": "0",
    "TF_NUM_INTRAOP_THREADS": "1",
    "TF_NUM_INTEROP_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "DRJIT_LIBLLVM_PATH": os.environ.get("DRJIT_LIBLLVM_PATH", ""),
}


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name in ("sionna.phy.channel.tr38811", "OpenNTN"):
            return importlib.util.spec_from_file_location(
                name, os.path.join(NTN_DIR, "__init__.py"),
                submodule_search_locations=[NTN_DIR])
        return None


_done = False


def boot():
    """Import TensorFlow, Sionna and the code under test"""
    global _done
    if _done:
        return
    for k, v in ENV.items():
        if v or k not in os.environ:
            os.environ[k] = v
    if not os.environ.get("DRJIT_LIBLLVM_PATH"):
        os.environ.pop("DRJIT_LIBLLVM_PATH", None)
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder())
    import warnings
    warnings.simplefilter("ignore")
    import tensorflow as tf
    try:
        tf.config.threading.set_intra_op_parallelism_threads(1)
        tf.config.threading.set_inter_op_parallelism_threads(1)
        tf.config.set_visible_devices([], "GPU")
    except RuntimeError:
        pass
    import sionna.phy.channel.tr38811 as ntn
    assert os.path.realpath(ntn.__file__).startswith(NTN_DIR), ntn.__file__
    _done = True


def is_ntn_file(filename):
    return filename.startswith(NTN_DIR + os.sep)
