"""Puts the code under test on the path and stands in for what the sandbox lacks."""
import importlib
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")


class HarnessError(Exception):
    pass


def prepare():
    """Import diffmah from /repo; supply the git-ignored generated _version module."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(REPO, "diffmah", "_version.py")):
        m = types.ModuleType("diffmah._version")
        m.__version__ = "0.0.0+verif"
        sys.modules["diffmah._version"] = m
    import diffmah

    fn = os.path.realpath(diffmah.__file__)
    if not fn.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f"diffmah imported from {fn}, not from {REPO}")


def priv(mod, name):
    """A helper that may be renamed by a refactoring: None when it is gone."""
    if isinstance(mod, str):
        try:
            mod = importlib.import_module(mod)
        except ImportError:
            return None
    return getattr(mod, name, None)


def rng_for(mon, *salt):
    import zlib

    import numpy as np

    h = zlib.crc32(repr((mon.prop,) + salt).encode())
    return np.random.default_rng([int(mon.seed), h])


def double():
    """Context in which the library computes in double precision."""
    import jax

    f = getattr(jax, "enable_x64", None)
    if f is None:
        from jax.experimental import enable_x64 as f
    return f(True)
