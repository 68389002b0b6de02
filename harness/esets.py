"""Shared entry sets for the entry-set properties."""
from symx.core import Min

from . import pds
from .common import comp, gibbs, parse

# phases by system: elements first
SYS = {
    "MnO": ["Mn", "O2", "MnO", "Mn2O3", "Mn3O4", "MnO2"],
    "YMO": ["Y", "Mn", "O2", "Y2O3", "Mn2O3", "YMnO3", "YMn2O5", "MnO"],
    "two": ["Li", "O2", "Li2O", "Na", "Cl2", "NaCl", "Li2O2"],
    "BTO": ["Ba", "Ti", "O2", "BaO", "TiO2", "BaTiO3", "Ba2TiO4", "BaTi2O5"],
}
# rough formation energies that keep the oxides near the hull
BASE = {"MnO": -1.9, "Mn2O3": -1.95, "Mn3O4": -1.97, "MnO2": -1.7, "Y2O3": -3.9, "YMnO3": -3.0, "YMn2O5": -2.5, "Li2O": -2.0, "NaCl": -2.1, "Li2O2": -1.6, "BaO": -2.8, "TiO2": -3.2, "BaTiO3": -3.4, "Ba2TiO4": -3.3, "BaTi2O5": -3.4}


def adjusted(form, e, eid, t=300, data=None):
    """a Gibbs entry whose final energy per atom is e (the SISSO part cancelled)"""
    return gibbs(form, e, eid=eid, temperature=t, data=data)


def build(h, sysname, sym, extra=(), lo=-1.0, hi=1.0, kind=None, data=None):
    """entries of the system; those named in sym get a symbolic formation energy around BASE.

    extra: (formula, number) further polymorphs, always symbolic."""
    out = []
    for f in SYS[sysname]:
        e = 0.0 if len(parse(f)) == 1 else BASE[f]
        if f in sym:
            e = h.real(f"e_{f}", e + lo, e + hi)
        out.append(adjusted(f, e, f"{f}-0", data=data))
    for f, n in extra:
        for k in range(1, n + 1):
            e = 0.0 if len(parse(f)) == 1 else BASE[comp(f).reduced_formula]
            out.append(adjusted(f, h.real(f"e_{f}_{k}", e + (0.02 if len(parse(f)) == 1 else lo), e + hi), f"{f}-{k}", data=data))
    return out


def hull_energy(entries, c):
    """lowest energy per atom of any mixture of the entries with composition c"""
    t = pds.fractions(comp(c) if isinstance(c, str) else c)
    phases = [pds.fractions(e.composition) for e in entries]
    return Min([pds.lin(d, [e.energy_per_atom for e in entries]) for d in pds.decompositions(t, phases)])


def above_hull(entries, e):
    return e.energy_per_atom - hull_energy(entries, e.composition)
