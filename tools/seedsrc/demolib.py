"""Scratch copy of the package in the working directory, with a catalogue."""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import catalog  # noqa: E402

E = catalog.E
DIR = tempfile.mkdtemp(prefix="sofardemo-")
atexit.register(shutil.rmtree, DIR, True)
TMP = os.path.join(DIR, "tmp")
os.mkdir(TMP)
BASE = os.path.join(DIR, "pkg", "sofar", "sofa_conventions")


def load(**kw):
    """Import sofar from the scratch copy; kw: see catalog.write."""
    shutil.copytree(os.path.join(os.getcwd(), "sofar"),
                    os.path.join(DIR, "pkg", "sofar"),
                    ignore=shutil.ignore_patterns("__pycache__",
                                                  "sofa_conventions"))
    catalog.write(BASE, **kw)
    sys.path.insert(0, os.path.join(DIR, "pkg"))
    import sofar
    assert sofar.__file__.startswith(DIR)
    warnings.simplefilter("ignore")
    return sofar


def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return True
    return False
