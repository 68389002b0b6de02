"""filter_by_stability keeps exactly the entries within the cutoff of the hull."""
from symx.core import Abs, And, Or
from symx.harness import Harness

from . import esets, pds, sets


def setup_symbolic():
    pds.setup()
    sets.patch_hash()


ASSUMPTIONS = ["pymatgen's PhaseDiagram is replaced by an exact symbolic one (minimum over all extreme decompositions)",
               "an entry is at least 0.5 meV above or below the hull of the others, and energies above hull are at least 0.5 meV away from the cutoff (or both zero)"]


def stability(h):
    from rxn_network.entries.entry_set import GibbsEntrySet

    pool = esets.build(h, h.cfg["sys"], h.cfg["sym"], h.cfg["extra"], lo=-0.5, hi=0.5)
    cut = h.cfg["cut"] if "cut" in h.cfg else h.real("cut", 0, 0.6)
    hull = {e.entry_id: esets.above_hull(pool, e) for e in pool}
    for v in hull.values():
        h.assume(Or(v <= 1e-12, v >= 0.0005))
        h.assume(Or(Abs(v - cut) >= 0.0005, And(v <= 1e-12, cut == 0)))
    for i in [f + "-0" for f in h.cfg["sym"]] + [f"{f}-{k}" for f, n in h.cfg["extra"] for k in range(1, n + 1)]:
        e = next(e for e in pool if e.entry_id == i)
        h.assume(Abs(e.energy_per_atom - esets.hull_energy([m for m in pool if m is not e], e.composition)) >= 0.0005)  # no ties
    if h.cfg.get("dup"):
        pool = pool + [pool[-1]]
    s = GibbsEntrySet(pool, calculate_e_above_hulls=h.cfg.get("pre", False))
    poly = h.bool("polymorphs")
    got = s.filter_by_stability(cut, include_polymorphs=poly)
    uniq = list({id(e): e for e in pool}.values())
    inside = [e for e in uniq if bool(hull[e.entry_id] <= cut + 1e-9)]
    h.check(type(got) is GibbsEntrySet and all(any(e is m for m in uniq) for e in got), "result-holds-entries-of-the-set")
    h.check(len(s) == len(uniq), "original-unchanged")
    out = list(got)
    if poly:
        h.check(len(out) == len(inside) and all(any(e is m for m in out) for e in inside), "exactly-the-entries-within-the-cutoff")
    else:
        h.check(all(any(e is m for m in inside) for e in out), "within-the-cutoff")
        forms = sorted(e.composition.reduced_formula for e in out)
        h.check(forms == sorted({e.composition.reduced_formula for e in inside}), "one-entry-for-every-formula-within-the-cutoff")
        h.check(And(*[m.energy_per_atom >= e.energy_per_atom for e in out for m in uniq if m.composition.reduced_formula == e.composition.reduced_formula]), "the-ground-state-is-kept")
    again = got.filter_by_stability(cut, include_polymorphs=poly)
    h.check(len(again) == len(out) and all(any(e is m for m in out) for e in again), "filtering-twice-changes-nothing")


Q = [
    {"sys": "MnO", "sym": ["Mn2O3"], "extra": [["Mn4O6", 1]]},
    {"sys": "MnO", "sym": ["Mn3O4", "MnO"], "extra": [], "cut": 0.0},
    {"sys": "MnO", "sym": ["MnO2"], "extra": [["Mn3O4", 1], ["O2", 1]], "cut": 0.0},
    {"sys": "two", "sym": ["Li2O"], "extra": [["Li4O2", 1], ["NaCl", 1]], "cut": 0.03125},
    {"sys": "YMO", "sym": ["YMnO3"], "extra": [["Mn2O3", 1]], "pre": True},
    {"sys": "BTO", "sym": [], "extra": [["BaTiO3", 1]], "dup": True},
]
HARNESSES = [
    Harness("stability", stability, quick=Q, thorough=Q + [
        {"sys": "MnO", "sym": ["Mn2O3"], "extra": [["Mn2O3", 1], ["Mn6O9", 1]]},
        {"sys": "two", "sym": ["Li2O", "NaCl"], "extra": [["Li2O", 1], ["NaCl", 1]]},
        {"sys": "YMO", "sym": ["YMnO3", "YMn2O5"], "extra": [["YMnO3", 1]]},
        {"sys": "BTO", "sym": ["BaTi2O5", "BaTiO3"], "extra": [["BaTiO3", 1]]},
    ], bounds="six to ten entries in two to four elements, one or two chemical systems; two to three energies within 0.5 eV/atom and the cutoff symbolic; both polymorph options"),
]
