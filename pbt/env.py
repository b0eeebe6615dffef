"""Process environment shared by every check: where the code under test is, and
how Hypothesis (installed for another interpreter of the same Python version) is
made importable without exposing the rest of that installation."""
import importlib.machinery
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_NAMES = {"hypothesis", "sortedcontainers", "_hypothesis_globals", "_hypothesis_ftz_detector"}


class _VTFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if path is None and name in _NAMES:
            return importlib.machinery.PathFinder.find_spec(name, [VT_SITE])
        return None


def process_env():
    e = dict(os.environ)
    e.update(PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             LANG="C.UTF-8", LC_ALL="C.UTF-8", PYTHONWARNINGS="ignore",
             PYTHONUNBUFFERED="1")
    e.pop("PYTHONPATH", None)
    return e


def setup():
    """Called in worker processes before anything else is imported."""
    import warnings
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(4000)
    sys.meta_path.insert(0, _VTFinder)
    sys.path[:] = [REPO] + [p for p in sys.path if p not in ("", REPO)]
    if os.environ.get("VERIF_COVER"):
        from . import cover
        cover.start(os.environ["VERIF_COVER"], REPO)
    import triples
    where = os.path.realpath(list(triples.__path__)[0])
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("code under test was imported from %s, not from %s" % (where, REPO))
