"""Make hypothesis importable in Aviary's interpreter without exposing the rest of the tooling venv.

Aviary runs in /opt/venv (Python 3.12); hypothesis is installed in /opt/veriftools/pyvenv (the same
Python version).  Putting that whole site-packages on sys.path would change which optional imports
succeed inside the code under test, so only the modules hypothesis itself needs are exposed.
"""

import sys
from importlib.machinery import PathFinder

_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_NAMES = {'hypothesis', 'sortedcontainers', 'attr', 'attrs'}


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        top = name.partition('.')[0]
        if path is None and (top in _NAMES or top.startswith('_hypothesis')):
            return PathFinder.find_spec(name, [_SITE])
        return None


def enable():
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.meta_path.append(_Finder)
        import hypothesis  # noqa: F401
