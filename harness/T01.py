"""expand_pd: a family of small phase diagrams that gives the same stabilities as the whole."""
from symx.core import Abs, And, Min, Or, Sum
from symx.harness import Harness

from . import esets, pds, sets
from .common import comp, entry, parse


def setup_symbolic():
    pds.setup()
    sets.patch_hash()


ASSUMPTIONS = ["pymatgen's (grand potential) PhaseDiagram is replaced by an exact symbolic one (minimum over all extreme decompositions)",
               "an entry is exactly on the hull or at least 0.5 meV above it; every element has an entry"]

B = {**esets.BASE, "CaO": -3.1, "CaTiO3": -3.3, "K2O": -1.3, "CO2": -1.4, "K2CO3": -2.0, "Y2TiO5": -3.8, "CaMnO3": -2.6, "NaMnO2": -2.1, "Na2O": -1.4, "LiCl": -2.0, "LiMnO2": -2.2}
SYS = {
    "disjoint": ["Li", "O2", "Li2O", "Na", "Cl2", "NaCl"],
    "chain": ["Ca", "Ti", "O2", "K", "C", "CaO", "TiO2", "CaTiO3", "K2O", "CO2", "K2CO3"],
    "star": ["Y", "Mn", "O2", "Ti", "Y2O3", "Mn2O3", "YMnO3", "TiO2", "Y2TiO5"],
    "ten": ["Li", "Na", "K", "Ca", "Ba", "Ti", "Mn", "Y", "C", "O2", "Cl2", "CaMnO3", "NaMnO2", "LiMnO2", "YMnO3", "NaCl", "LiCl", "K2CO3", "BaTiO3", "CaO", "Y2O3"],
    "elements": ["Li", "O2", "Na"],
    "one": ["Y", "Mn", "O2", "Y2O3", "Mn2O3", "YMnO3", "MnO"],
}


def pool(h):
    out = []
    for f in h.cfg.get("order") or SYS[h.cfg["sys"]]:
        n = sum(parse(f).values())
        e = 0.0 if len(parse(f)) == 1 else B[f]
        if f in h.cfg["sym"]:
            e = h.real(f"e_{f}", e - 0.5, e + 0.5)
        out.append(entry(f, e * n, eid=f + "-0"))
    for f in h.cfg.get("extra", []):
        n = sum(parse(f).values())
        e = 0.0 if len(parse(f)) == 1 else B[comp(f).reduced_formula]
        out.append(entry(f, h.real(f"e_{f}_1", e + (0.02 if len(parse(f)) == 1 else -0.5), e + 0.5) * n, eid=f + "-1"))
    return out


def covers(h, d, items, names):
    """the diagrams are maximal chemical systems of the entries, each with all its entries"""
    systems = {frozenset(e.composition.chemical_system.split("-")) for e in items}
    top = {s for s in systems if not any(s < t for t in systems)}
    h.check({frozenset(k.split("-")) for k in d} == top and len(d) == len(top), "one-diagram-for-every-maximal-chemical-system")
    for k, pd in d.items():
        s = set(k.split("-"))
        mine = sorted(names(e) for e in items if {str(x) for x in e.composition.elements} <= s)
        h.check(sorted(names(e) for e in pd.all_entries) == mine, "diagram-holds-every-entry-of-its-system")
        h.check({str(x) for x in pd.elements} == s, "elements-of-the-diagram")
    for e in items:
        s = {str(x) for x in e.composition.elements}
        h.check(any(s <= set(k.split("-")) for k in d), "every-entry-is-in-a-diagram")


def closed(h):
    from rxn_network.thermo.utils import expand_pd

    items = pool(h)
    arg = set(items) if h.cfg.get("set") else items
    d = expand_pd(arg)
    covers(h, d, items, lambda e: e.entry_id)
    h.check(all(type(pd).__name__ == "PhaseDiagram" for pd in d.values()), "ordinary-phase-diagrams")
    conds = []
    for e in items:
        v = esets.above_hull(items, e)
        h.assume(Or(v <= 1e-12, v >= 0.0005))
        s = {str(x) for x in e.composition.elements}
        for k, pd in d.items():
            if s <= set(k.split("-")):
                conds.append(Abs(pd.get_e_above_hull(e) - v) <= 1e-7)
    h.check(And(*conds), "energies-above-hull-of-the-whole-system")


def grand(h):
    """entries of an open system: the chemical potentials are kept"""
    from pymatgen.analysis.phase_diagram import GrandPotPDEntry
    from pymatgen.core.periodic_table import Element

    from rxn_network.thermo.utils import expand_pd

    items = pool(h)
    els = h.cfg["open"]
    mus = {Element(el): h.real(f"mu_{el}", -1.5, 0.0) for el in els}
    keep = [e for e in items if not set(parse(e.composition.reduced_formula)) <= set(els)]
    g = [GrandPotPDEntry(e, mus) for e in keep]
    d = expand_pd(g)
    covers(h, d, g, lambda e: getattr(getattr(e, "original_entry", None), "entry_id", None) or getattr(e.original_entry.original_entry, "entry_id", "?"))
    h.check(all(type(pd).__name__ == "GrandPotentialPhaseDiagram" for pd in d.values()), "grand-potential-diagrams")
    hs = grand_hull(items, keep, els, mus)
    conds = []
    for e, ge in zip(keep, g):
        s = {str(x) for x in ge.composition.elements}
        for k, pd in d.items():
            if s <= set(k.split("-")):
                h.check(set(pd.chempots) == set(mus), "chemical-potentials-kept")
                conds += [pd.chempots[x] == mus[x] for x in mus]
                conds.append(Abs(pd.get_hull_energy_per_atom(ge.composition) - hs[e.entry_id]) <= 1e-7)
    h.check(And(*conds), "grand-potential-hull-of-the-whole-system")


def grand_hull(items, keep, els, mus):
    """lowest grand potential per (remaining) atom of a mixture with the same remaining composition"""
    red = []
    for e in keep:
        amt = e.composition.get_el_amt_dict()
        rest = {k: v for k, v in amt.items() if k not in els}
        n = sum(rest.values())
        phi = (e.energy - Sum([amt.get(str(x), 0) * m for x, m in mus.items()])) / n
        red.append((pds.fractions(comp(rest)), phi))
    out = {}
    for e, (t, _) in zip(keep, red):
        out[e.entry_id] = Min([pds.lin(w, [p for _, p in red]) for w in pds.decompositions(t, [f for f, _ in red])])
    return out


C = [
    {"sys": "disjoint", "sym": ["Li2O", "NaCl"], "extra": ["Li2O"]},
    {"sys": "chain", "sym": ["CaTiO3", "CaO"], "extra": ["K2CO3"]},
    {"sys": "star", "sym": ["YMnO3", "TiO2"], "extra": ["Y2O3"], "set": True},
    {"sys": "ten", "sym": ["CaMnO3", "Y2O3"], "extra": ["YMnO3"]},
    {"sys": "elements", "sym": [], "extra": ["Li"]},
    {"sys": "one", "sym": ["YMnO3", "MnO"], "extra": ["Mn"], "order": ["YMnO3", "Y", "MnO", "Mn", "Y2O3", "O2", "Mn2O3"]},
    {"sys": "chain", "sym": ["CO2", "K2CO3"], "extra": ["O2"], "set": True},
]
G = [
    {"sys": "one", "sym": ["YMnO3"], "extra": ["Mn2O3"], "open": ["O"]},
    {"sys": "chain", "sym": ["CaTiO3"], "extra": ["K2CO3"], "open": ["O"]},
    {"sys": "star", "sym": ["Y2TiO5"], "extra": ["Y2O3"], "open": ["O"]},
    {"sys": "chain", "sym": ["K2CO3"], "extra": [], "open": ["O", "C"]},
]
HARNESSES = [
    Harness("closed", closed, quick=C, bounds="up to 22 entries in 3 to 11 elements, 1 to 9 maximal chemical systems; two or three energies within 0.5 eV/atom symbolic; list or set input, any order listed"),
    Harness("grand", grand, quick=G, bounds="up to 12 entries open to one or two elements; chemical potentials in [-1.5, 0] eV and two energies symbolic"),
]
