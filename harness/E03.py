"""Stabilized and interpolated entries lie just below the hull, the originals stay as they were."""
from symx.core import Abs, Or, Sum
from symx.harness import Harness

from . import esets, pds, sets
from .common import comp, natoms, parse


def setup_symbolic():
    pds.setup()
    sets.patch_hash()


ASSUMPTIONS = ["pymatgen's PhaseDiagram is replaced by an exact symbolic one (minimum over all extreme decompositions)",
               "an entry is exactly on the hull of the set or at least 0.5 meV above it"]


def _set(h, **kw):
    from rxn_network.entries.entry_set import GibbsEntrySet

    pool = esets.build(h, h.cfg["sys"], h.cfg["sym"], h.cfg["extra"], lo=-0.5, hi=0.5)
    s = GibbsEntrySet(pool, **kw)
    return s, pool


def _kind(h, kind, form, k=1):
    """a further phase of the given kind, not necessarily in the set"""
    from rxn_network.entries.freed import FREEDReferenceEntry
    from rxn_network.entries.interpolated import InterpolatedEntry
    from rxn_network.entries.nist import NISTReferenceEntry

    from pymatgen.entries.computed_entries import ConstantEnergyAdjustment

    shift = [ConstantEnergyAdjustment(h.real("shift", -1, 4), name="shift")]
    if kind == "nist":
        return NISTReferenceEntry(comp(form), 300, energy_adjustments=shift)
    if kind == "freed":
        return FREEDReferenceEntry(comp(form), 300, energy_adjustments=shift)
    return InterpolatedEntry(comp(form), h.real("e_int", -6, -1), energy_adjustments=shift, entry_id="interp")


def stabilize(h):
    """the stabilized entry is tol below the hull; stable entries are returned as they are"""
    s, pool = _set(h)
    kind = h.cfg.get("kind")
    if kind:
        e = _kind(h, kind, h.cfg["target"])
        pool = pool + [e]
        s.add(e)
    else:
        e = next(x for x in pool if x.entry_id == h.cfg["target"])
    n = e.composition.num_atoms
    above = esets.above_hull(pool, e)
    h.assume(Or(above <= 1e-12, above >= 0.0005))
    if h.cfg.get("pre") is not None:  # a stored value has precedence
        e.data["e_above_hull"] = above = h.real("stored", *h.cfg["pre"]) if h.bool("nonzero") else 0.0
    tol = h.real("tol", 0.0005, 0.5)
    force = h.bool("force")
    before = e.energy
    adjs = list(e.energy_adjustments)
    kw = {"force": True} if force else {}
    default = h.bool("default_tol")
    if default:
        tol = 0.001
    else:
        kw["tol"] = tol
    got = s.get_stabilized_entry(e, **kw)
    h.check_eq(e.energy, before, "original-unchanged")
    h.check(len(e.energy_adjustments) == len(adjs), "original-unchanged:adjustments")
    h.check(len(s) == len(pool) and all(x in s for x in pool), "set-unchanged")
    if bool(above <= 1e-12) and not force:
        h.check(got is e, "stable-entries-are-returned-as-they-are")
        return
    h.check_eq(got.energy, before - above * n - tol, "lowered-to-the-hull-and-tol-further")
    h.check(type(got) is type(e) and got.composition == e.composition and got.entry_id == e.entry_id, "identity")
    h.check(got is not e and len(got.energy_adjustments) == len(adjs) + 1, "one-more-adjustment")
    h.observe("above", above)
    if h.cfg.get("pre") is None and h.cfg.get("verify"):
        from rxn_network.entries.entry_set import GibbsEntrySet

        t = GibbsEntrySet([x for x in pool if x is not e] + [got])
        h.check_eq(t.get_e_above_hull(got), 0, "stable-in-the-set-with-it")


def interpolate(h):
    s, pool = _set(h)
    form = h.cfg["form"]
    c = comp(form).reduced_composition
    n = c.num_atoms
    hull = esets.hull_energy(pool, c)
    kw = {}
    tol = 0.001
    if h.bool("own_tol"):
        tol = kw["tol_per_atom"] = h.real("tol", 0, 0.5)
    got = s.get_interpolated_entry(form, **kw)
    h.check(got.composition == c, "one-reduced-formula-unit")
    h.check_eq(got.energy, (hull - tol) * n, "hull-energy-minus-tol-per-atom")
    h.check_eq(got.correction, 0, "no-correction")
    h.check_eq(Sum([a.uncertainty for a in got.energy_adjustments]), 0.05 * n, "uncertainty-of-50-meV-per-atom")
    h.check(len(s) == len(pool) and all(x in s for x in pool), "set-unchanged")
    h.check(got not in s, "not-added")
    h.observe("hull", hull)


def initialize(h):
    """an entry for any formula: ground state, else interpolated; stabilized on request"""
    from rxn_network.entries.interpolated import InterpolatedEntry
    from rxn_network.entries.utils import initialize_entry

    s, pool = _set(h)
    form = h.cfg["form"]
    c = comp(form).reduced_composition
    n = c.num_atoms
    stab = h.bool("stabilize")
    e = initialize_entry(form, s, stab)
    same = [x for x in pool if x.composition.reduced_formula == c.reduced_formula]
    hull = esets.hull_energy(pool, c)
    h.check(e.composition.reduced_formula == c.reduced_formula, "formula")
    h.check(len(s) == len(pool) and all(x in s for x in pool), "set-unchanged")
    if not same:
        h.check(isinstance(e, InterpolatedEntry), "interpolated-when-missing")
        h.check_eq(e.energy_per_atom, hull - 0.001, "interpolated-energy")
        return
    low = same[0]
    for x in same[1:]:
        if bool(x.energy_per_atom < low.energy_per_atom):
            low = x
    above = low.energy_per_atom - hull
    h.assume(Or(above <= 1e-12, above >= 0.0005))
    if stab and bool(above > 1e-12):
        h.check_eq(e.energy, (hull * low.composition.num_atoms) - 0.001, "stabilized-energy")
    else:
        h.check_eq(e.energy_per_atom, low.energy_per_atom, "ground-state-energy")
        h.check(any(e is x for x in same), "ground-state-is-the-member")


Q = [
    Harness("stabilize", stabilize, quick=[
        {"sys": "MnO", "sym": ["Mn2O3", "MnO"], "extra": [], "target": "Mn3O4-0", "verify": 1},
        {"sys": "MnO", "sym": ["Mn2O3"], "extra": [["Mn2O3", 1]], "target": "Mn2O3-1", "verify": 1},
        {"sys": "two", "sym": ["Li2O"], "extra": [["NaCl", 1]], "target": "NaCl-1", "verify": 1},
        {"sys": "two", "sym": ["Li2O"], "extra": [], "target": "Li2O2-0", "verify": 1},
        {"sys": "YMO", "sym": ["YMnO3"], "extra": [], "target": "YMnO3-0"},
        {"sys": "MnO", "sym": ["MnO"], "extra": [], "target": "Mn2O3-0", "pre": [0.001, 1]},
        {"sys": "BTO", "sym": ["TiO2"], "extra": [["BaO", 1]], "target": "BaO", "kind": "freed"},
        {"sys": "BTO", "sym": ["BaO"], "extra": [], "target": "TiO2", "kind": "nist"},
        {"sys": "MnO", "sym": ["MnO"], "extra": [], "target": "Mn2O3", "kind": "interpolated"},
    ], thorough=[
        {"sys": "MnO", "sym": ["Mn2O3", "MnO", "MnO2"], "extra": [], "target": "Mn3O4-0", "verify": 1},
        {"sys": "YMO", "sym": ["YMnO3", "Mn2O3"], "extra": [], "target": "YMn2O5-0", "verify": 1},
        {"sys": "BTO", "sym": ["BaTiO3", "BaTi2O5"], "extra": [["BaTiO3", 1]], "target": "BaTiO3-1", "verify": 1},
        {"sys": "BTO", "sym": ["BaTiO3", "TiO2"], "extra": [["BaO", 1]], "target": "BaO", "kind": "freed"},
        {"sys": "YMO", "sym": ["YMnO3"], "extra": [], "target": "YMnO3-0", "pre": [0.001, 1]},
        {"sys": "two", "sym": ["Li2O", "NaCl"], "extra": [["NaCl", 1]], "target": "NaCl-1", "verify": 1},
    ], bounds="six to nine entries, one to three symbolic energies, symbolic tolerance, force and default on/off; Gibbs, experimental and interpolated entries; stored energy above hull symbolic"),
    Harness("interpolate", interpolate, quick=[
        {"sys": "MnO", "sym": ["Mn2O3", "Mn3O4"], "extra": [], "form": "Mn5O8"},
        {"sys": "MnO", "sym": ["Mn2O3"], "extra": [["Mn2O3", 1]], "form": "Mn4O6"},
        {"sys": "two", "sym": ["Li2O", "NaCl"], "extra": [], "form": "Na3Cl"},
        {"sys": "YMO", "sym": ["YMnO3", "Mn2O3"], "extra": [], "form": "Y2Mn4O9"},
        {"sys": "BTO", "sym": ["BaTi2O5"], "extra": [], "form": "Ba4Ti2O8"},
    ], thorough=[
        {"sys": s, "sym": y, "extra": x, "form": f} for s, y, x, f in (
            ("MnO", ["Mn2O3", "Mn3O4", "MnO"], [], "Mn5O8"), ("MnO", ["Mn2O3", "MnO2"], [["Mn2O3", 1]], "MnO7"),
            ("YMO", ["YMnO3", "Mn2O3"], [], "Y2Mn4O9"), ("YMO", ["YMnO3", "YMn2O5"], [], "Y3Mn"), ("BTO", ["BaTi2O5", "BaTiO3"], [], "Ba6Ti17O40"))],
        bounds="tabulated and missing compositions, several formula units; two to three symbolic energies, symbolic tolerance"),
    Harness("initialize", initialize, quick=[
        {"sys": "MnO", "sym": ["Mn2O3"], "extra": [["Mn2O3", 1]], "form": "Mn2O3"},
        {"sys": "MnO", "sym": ["MnO"], "extra": [], "form": "Mn4O6"},
        {"sys": "MnO", "sym": ["Mn3O4"], "extra": [], "form": "Mn5O8"},
        {"sys": "YMO", "sym": ["Mn2O3"], "extra": [], "form": "YMn2O5"},
        {"sys": "two", "sym": ["NaCl"], "extra": [["NaCl", 1]], "form": "Na2Cl2"},
    ], bounds="ground states among polymorphs, unstable and missing formulas, several formula units"),
]
HARNESSES = Q
