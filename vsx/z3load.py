"""Make z3 importable from the tool venv without exposing its other packages."""
import importlib
import os
import sys

_SITE = os.environ.get(
    "VSX_Z3_SITE", "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
)


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    try:
        import z3  # already on the path

        return z3
    except ImportError:
        pass
    sys.path.insert(0, _SITE)
    try:
        return importlib.import_module("z3")
    finally:
        sys.path.remove(_SITE)


z3 = load()
