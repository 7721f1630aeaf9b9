"""
Dispatchers for the parts of importlib that the code under test calls; they
use the symbolic world of the current path when there is one.
"""

import importlib
import importlib.util

from .core import E

_orig_find_spec = importlib.util.find_spec
_orig_import_module = importlib.import_module
_orig_invalidate = importlib.invalidate_caches


def find_spec(name, package=None):
    w = E.locals.get("world") if E.active else None
    if w is not None:
        return w.find_spec(name, package)
    return _orig_find_spec(name, package)


def import_module(name, package=None):
    w = E.locals.get("world") if E.active else None
    if w is not None:
        return w.import_module(name, package)
    return _orig_import_module(name, package)


def invalidate_caches():
    if E.active:
        E.locals["invalidated"] = E.locals.get("invalidated", 0) + 1
        return None
    return _orig_invalidate()


def install():
    importlib.util.find_spec = find_spec
    importlib.import_module = import_module
    importlib.invalidate_caches = invalidate_caches
