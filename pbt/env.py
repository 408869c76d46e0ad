"""Process set-up: where the code under test and Hypothesis come from."""
import importlib.machinery
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HYP_SITES = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]
HYP_NAMES = ("hypothesis", "sortedcontainers", "_hypothesis_globals", "_hypothesis_ftz_detector")


class _HypFinder:
    """Finds Hypothesis (only) in the tools environment; numpy and casadi stay those of the build."""

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in HYP_NAMES:
            return importlib.machinery.PathFinder.find_spec(name, path or HYP_SITES)
        return None


def setup():
    if not any(isinstance(f, _HypFinder) for f in sys.meta_path):
        sys.meta_path.append(_HypFinder())
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
