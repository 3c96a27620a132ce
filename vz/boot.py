"""Import the tree under test and the solver bindings."""
import importlib
import os
import sys

REPO = os.environ.get("VZ_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup():
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    if VT not in sys.path:
        sys.path.append(VT)


MODULES = ["boundary", "diff", "field", "fieldtracer", "grid", "poloidal_grid", "progress", "rzline", "smooth",
           "spectralline", "stencil_dagp_fv", "weights", "zoidberg"]


def load():
    setup()
    import zoidberg

    assert os.path.realpath(zoidberg.__file__).startswith(os.path.realpath(REPO) + os.sep), zoidberg.__file__
    mods = {}
    for m in MODULES:
        try:
            mods[m] = importlib.import_module("zoidberg." + m)
        except ModuleNotFoundError:
            pass
    return mods


def prop(pid):
    return importlib.import_module("vz.props." + pid.lower())
