"""symx: a small symbolic-execution engine for the real Python code under /repo.

The implementation's own functions run in CPython; inputs are proxy objects holding
z3 terms, every branch on a symbolic condition is decided by the solver (both
feasible sides are explored), and property assertions become solver queries.
"""
import importlib.util
import os
import sys

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _load_z3():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    try:
        import z3  # noqa

        return z3
    except ImportError:
        pass
    p = os.path.join(_VT, "z3")
    spec = importlib.util.spec_from_file_location(
        "z3", os.path.join(p, "__init__.py"), submodule_search_locations=[p]
    )
    m = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = m
    spec.loader.exec_module(m)
    return m


z3 = _load_z3()
