"""Makes the offline Hypothesis install importable next to the project's own
interpreter (/opt/venv), without exposing anything else of that other tree."""
import importlib.machinery
import os
import sys

_SITES = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]
_NAMES = {"hypothesis", "sortedcontainers", "attr", "attrs", "_hypothesis_globals",
          "_hypothesis_ftz_detector", "_hypothesis_pytestplugin"}


class _Finder:
    @staticmethod
    def find_spec(fullname, path=None, target=None):
        if fullname in _NAMES:
            return importlib.machinery.PathFinder.find_spec(fullname, _SITES)
        return None


def install():
    try:
        import hypothesis  # noqa: F401  (already importable)
    except ImportError:
        if not os.path.isdir(_SITES[0]):
            raise
        sys.meta_path.append(_Finder)
        import hypothesis  # noqa: F401


install()
