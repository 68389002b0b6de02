"""Shared systems for the pathway properties."""
from symx.core import Sum

from .common import comp, gibbs, parse

# phases and reactions {phase index: coefficient}
SYSTEMS = {
    "CO": (["C", "O2", "CO", "CO2"],
           [{0: -2, 1: -1, 2: 2}, {2: -2, 1: -1, 3: 2}, {0: -1, 1: -1, 3: 1}, {3: -1, 0: -1, 2: 2}, {2: -2, 0: 1, 3: 1}]),
    "YMO": (["YCl3", "Li2CO3", "Mn2O3", "YMnO3", "LiCl", "CO2", "YOCl", "Y2O3", "LiMnO2", "Li2O"],
            [{0: -1, 1: -1, 6: 1, 4: 2, 5: 1}, {6: -2, 1: -1, 7: 1, 4: 2, 5: 1}, {7: -1, 2: -1, 3: 2},
             {1: -1, 2: -1, 8: 2, 5: 1}, {8: -1, 6: -1, 3: 1, 4: 1}, {1: -1, 9: 1, 5: 1}, {0: -1, 9: -1, 6: 1, 4: 2}]),
    "FeO": (["Fe", "O2", "FeO", "Fe2O3", "Fe3O4"],
            [{0: -2, 1: -1, 2: 2}, {2: -4, 1: -1, 3: 2}, {2: -1, 3: -1, 4: 1}, {0: -3, 1: -2, 4: 1}, {4: -4, 1: -1, 3: 6}, {0: -4, 1: -3, 3: 2}]),
    "BTO": (["BaCO3", "TiO2", "BaTiO3", "CO2", "BaO", "Ba2TiO4"],
            [{0: -1, 4: 1, 3: 1}, {4: -1, 1: -1, 2: 1}, {0: -2, 1: -1, 5: 1, 3: 2}, {5: -1, 1: -1, 2: 2}, {0: -1, 5: -1, 3: 1, 2: 1, 4: 2}]),
}
for _f, _r in SYSTEMS.values():
    for _x in _r:
        _a = {}
        for _k, _c in _x.items():
            for _e, _n in parse(_f[_k]).items():
                _a[_e] = _a.get(_e, 0) + _n * _c
        assert all(abs(v) < 1e-9 for v in _a.values()), (_f, _x, _a)


def entry_set(forms):
    """entry set with indices built by the code; returns (set, entries by phase)"""
    from rxn_network.entries.entry_set import GibbsEntrySet

    es = GibbsEntrySet([gibbs(f, -0.3 - 0.07 * i, eid=f"id-{f}") for i, f in enumerate(forms)])
    es.build_indices()
    by = {e.composition.reduced_formula: e for e in es.entries}
    return es, [by[comp(f).reduced_formula] for f in forms]


def make(es, r, cls=None, scale=1):
    from rxn_network.reactions.computed import ComputedReaction

    ks = sorted(r)
    return ComputedReaction([es[k] for k in ks], [r[k] * scale for k in ks])


def executable(rxns, available):
    """an order exists in which each reaction uses only what is available by then"""
    have, todo = set(available), list(rxns)
    while todo:
        ready = [r for r in todo if {k for k, c in r.items() if c < 0} <= have]
        if not ready:
            return False
        for r in ready:
            have |= {k for k, c in r.items() if c > 0}
            todo.remove(r)
    return True
