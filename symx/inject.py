"""Install the symbolic environment into the loaded rxn_network modules.

Replacement is by object identity over module globals, so it does not depend on how the
code is organised (helpers, aliases and new imports of the same objects are covered)."""
from __future__ import annotations

import builtins
import copy as _copy
import importlib
import json as _json
import logging
import math
import pkgutil
import sys
import types

import numpy as np

from . import npshim
from .core import SymInt, SymReal, has_sym, is_sym
from .fakeray import RAY, Remote

EXTRA = {}  # id(original) -> (original, replacement), added by harness modules


def load_all():
    """Import every rxn_network module from /repo's working tree."""
    import rxn_network

    mods = []
    for m in pkgutil.walk_packages(rxn_network.__path__, "rxn_network."):
        try:
            mods.append(importlib.import_module(m.name))
        except Exception as e:  # optional plotting dependencies etc.
            mods.append(e)
    logging.disable(logging.CRITICAL)
    return mods


def rxn_modules():
    return [m for n, m in list(sys.modules.items()) if n.startswith("rxn_network") and m is not None]


def _replace(table, mods):
    for m in mods:
        d = vars(m)
        for k, v in list(d.items()):
            r = table.get(id(v))
            if r is not None and r[0] is v:
                d[k] = r[1]


def patch_ray():
    import ray

    table = {id(ray): (ray, RAY)}
    for n in ("put", "get", "wait", "remote", "init", "is_initialized", "cluster_resources"):
        o = getattr(ray, n)
        table[id(o)] = (o, getattr(RAY, n))
    _replace(table, rxn_modules())
    for m in rxn_modules():
        d = vars(m)
        for k, v in list(d.items()):
            if type(v).__name__ == "RemoteFunction" and hasattr(v, "_function"):
                d[k] = Remote(v._function, RAY)


class _Doc(str):
    """a JSON document that still holds symbolic values"""


class JsonShim:
    """json with symbolic numbers kept as they are through dumps/loads"""

    def __getattr__(self, n):
        return getattr(_json, n)

    @classmethod
    def _plain(cls, o):
        if is_sym(o):
            return o
        if isinstance(o, dict):
            return {str(k): cls._plain(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [cls._plain(v) for v in o]
        if hasattr(o, "as_dict"):
            return cls._plain(o.as_dict())
        return o

    @staticmethod
    def dumps(obj, *a, **k):
        p = JsonShim._plain(obj)
        if not has_sym(p):
            return _json.dumps(obj, *a, **k)
        d = _Doc("<symbolic json>")
        d.obj = p
        return d

    @staticmethod
    def loads(s, *a, **k):
        return _copy.deepcopy(s.obj) if isinstance(s, _Doc) else _json.loads(s, *a, **k)


def patch_symbolic(extra_modules=()):
    """numpy / math / float / numba in the code under test become symbolic-aware."""
    import numpy.linalg as nla

    S = npshim.SHIM
    table = {
        id(np): (np, S),
        id(math): (math, npshim.MATH),
        id(nla): (nla, S.linalg),
        id(_json): (_json, JsonShim()),
    }
    for n in dir(npshim.NpShim):
        if n.startswith("_") or n in ("linalg", "ndarray", "float64"):
            continue
        o = getattr(np, n, None)
        if o is not None and callable(o):
            table[id(o)] = (o, getattr(S, n))
    for n in ("pinv", "matrix_rank", "norm", "lstsq", "solve", "inv", "det"):
        table[id(getattr(nla, n))] = (getattr(nla, n), getattr(S.linalg, n))
    for n in ("isclose", "fsum", "prod", "fabs", "isnan", "isinf", "isfinite", "exp", "log", "log10", "sqrt"):
        table[id(getattr(math, n))] = (getattr(math, n), getattr(npshim.MATH, n))
    table.update(EXTRA)
    import pymatgen.analysis.phase_diagram as ppd
    import pymatgen.core.composition as pco
    import pymatgen.core.entries as pen

    mods = rxn_modules() + [pen, pco] + list(extra_modules)
    for m in mods:
        d = vars(m)
        for k, v in list(d.items()):
            if hasattr(v, "py_func") and type(v).__module__.startswith("numba"):
                d[k] = v.py_func
        d.setdefault("float", npshim.FloatShim)
    _replace(table, mods)
