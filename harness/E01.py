"""An entry set answers from its current contents after any history of changes."""
from symx.core import Min
from symx.harness import Harness

from . import esets, pds, sets
from .common import comp, parse


def setup_symbolic():
    pds.setup()
    sets.patch_hash()


ASSUMPTIONS = ["pymatgen's PhaseDiagram is replaced by an exact symbolic one (minimum over all extreme decompositions)"]


def verify(h, s, model, pool, tag, hull):
    h.check(len(s) == len(model) and len(list(s)) == len(model), tag + ":size")
    h.check(all((e in s) == any(e is m for m in model) for e in pool), tag + ":membership")
    el = list(s.entries_list)
    h.check(len(el) == len(model) and all(any(e is m for m in model) for e in el), tag + ":entries-list-is-complete")
    h.check([e.composition for e in el] == sorted(e.composition for e in el), tag + ":entries-list-is-sorted")
    h.check(set(s.chemsys) == {x for m in model for x in parse(m.composition.formula.replace(" ", ""))}, tag + ":chemical-system")
    forms = {m.composition.reduced_formula for m in model}
    mins = s.min_entries_by_formula
    h.check(set(mins) == forms, tag + ":formulas")
    for f in sorted(forms):
        want = Min([m.energy_per_atom for m in model if m.composition.reduced_formula == f])
        h.check(any(mins[f] is m for m in model), tag + ":ground-state-is-a-member")
        h.check(mins[f].composition.reduced_formula == f, tag + ":ground-state-composition")
        h.check_eq(mins[f].energy_per_atom, want, tag + ":ground-state-energy")
    f = sorted(forms)[-1]
    double = "".join(f"{el}{n * 2}" for el, n in parse(f).items())
    h.check(s.get_min_entry_by_formula(double) is mins[f], tag + ":ground-state-of-any-multiple")
    if model:
        h.check_eq(s.temperature, 300, tag + ":temperature")
    for e in hull:
        if any(e is m for m in model):
            h.check_eq(s.get_e_above_hull(e), esets.above_hull(model, e), tag + ":energy-above-hull")


def history(h):
    """symbolic sequence of changes with all queries in between"""
    from rxn_network.entries.entry_set import GibbsEntrySet

    pool = esets.build(h, h.cfg["sys"], h.cfg["sym"], h.cfg["extra"])
    if h.cfg.get("named"):
        for i, e in enumerate(pool):
            e.name = ("phase ", "Mn", "O2 ")[i % 3] + str(i)
    by = {e.entry_id: e for e in pool}
    start = [e for e in pool if e.entry_id not in h.cfg["later"]]
    later = [by[i] for i in h.cfg["later"]]
    s = GibbsEntrySet(start)
    model = list(start)
    hull = [by[i] for i in h.cfg["hull"]]
    verify(h, s, model, pool, "start", hull)
    movable = [by[i] for i in h.cfg["move"]]
    for step in range(h.cfg["steps"]):
        op = h.choice(f"op{step}", [("add", e) for e in movable] + [("discard", e) for e in movable] + [("update", None), ("remove", None)])
        kind, e = op
        if kind == "add":
            s.add(e)
            new = [e]
        elif kind == "update":
            s.update(later)
            new = later
        elif kind == "remove":
            e = next((m for m in movable if any(m is x for x in model)), None)
            if e is not None:
                s.remove(e)
            new = []
            model = [m for m in model if m is not e]
        else:
            s.discard(e)
            new = []
            model = [m for m in model if m is not e]
        for n in new:
            if not any(n is m for m in model):
                model.append(n)
        verify(h, s, model, pool, kind, hull)
    s.build_indices()
    h.check(all(e.data["idx"] == i for i, e in enumerate(s.entries_list)), "indices-follow-the-entries-list")


def subset(h):
    """sub-systems and copies"""
    from rxn_network.entries.entry_set import GibbsEntrySet

    pool = esets.build(h, h.cfg["sys"], h.cfg["sym"], h.cfg["extra"])
    if h.cfg.get("named"):
        for i, e in enumerate(pool):
            e.name = ("phase ", "Mn", "O2 ")[i % 3] + str(i)
    s = GibbsEntrySet(pool)
    els = sorted({x for e in pool for x in parse(e.composition.formula.replace(" ", ""))})
    pick = [x for x in els if h.bool(f"in_{x}")]
    if not pick:
        h.assume(False)
    arg = "-".join(pick) if h.bool("as_string") else pick
    sub = s.get_subset_in_chemsys(arg)
    want = [e for e in pool if set(parse(e.composition.formula.replace(" ", ""))) <= set(pick)]
    h.check(type(sub) is GibbsEntrySet and len(sub) == len(want) and all(e in sub for e in want), "subset-has-exactly-the-entries-within")
    h.check(len(s) == len(pool), "original-unchanged")
    c = s.copy()
    c.discard(pool[-1])
    h.check(pool[-1] in s and len(c) == len(pool) - 1, "copy-is-independent")
    try:
        s.get_subset_in_chemsys([*pick, "Xe"])
        ok = True
    except ValueError:
        ok = False
    h.check(not ok, "foreign-elements-refused")


def options(h):
    """precomputed energies above hull, minimized entries, dictionary round trip"""
    from rxn_network.entries.entry_set import GibbsEntrySet

    pool = esets.build(h, h.cfg["sys"], h.cfg["sym"], h.cfg["extra"], data={"keep": 1})
    s = GibbsEntrySet(pool, calculate_e_above_hulls=h.cfg["hulls"], minimize_obj_size=h.cfg["small"])
    for e in pool:
        h.check(set(e.data) == ({"e_above_hull"} if h.cfg["hulls"] else set()) | (set() if h.cfg["small"] else {"keep"}), "entry-data")
        if h.cfg["hulls"]:
            h.check_eq(e.data["e_above_hull"], esets.above_hull(pool, e), "precomputed-energy-above-hull")
    r = GibbsEntrySet.from_dict(s.as_dict())
    h.check(len(r) == len(s) and r.calculate_e_above_hulls == s.calculate_e_above_hulls, "round-trip:size-and-options")
    for e in pool:
        m = [x for x in r if x.entry_id == e.entry_id]
        h.check(len(m) == 1 and bool(m[0] == e) and set(m[0].data) == set(e.data), "round-trip:entries")
        h.check_eq(m[0].energy, e.energy, "round-trip:energies")


HARNESSES = [
    Harness("history", history, quick=[
        {"sys": "MnO", "sym": ["Mn2O3"], "extra": [["Mn2O3", 1]], "later": ["Mn2O3-1"], "move": ["Mn2O3-0", "Mn2O3-1"], "hull": ["Mn2O3-0"], "steps": 2},
        {"sys": "MnO", "sym": ["Mn3O4"], "extra": [], "later": ["MnO2-0", "Mn3O4-0"], "move": ["Mn3O4-0", "MnO2-0"], "hull": ["Mn2O3-0"], "steps": 2, "named": True},
        {"sys": "two", "sym": ["Li2O"], "extra": [["Li2O", 1], ["NaCl", 1]], "later": ["NaCl-1"], "move": ["Li2O-0", "NaCl-1"], "hull": ["NaCl-0", "Li2O2-0"], "steps": 2},
        {"sys": "YMO", "sym": ["Mn2O3"], "extra": [], "later": ["YMnO3-0"], "move": ["YMnO3-0", "Mn2O3-0"], "hull": ["YMn2O5-0"], "steps": 2},
        ], thorough=[
        {"sys": "MnO", "sym": ["Mn2O3", "Mn3O4"], "extra": [["Mn2O3", 2]], "later": ["Mn2O3-1", "Mn2O3-2"], "move": ["Mn2O3-0", "Mn2O3-1"], "hull": ["Mn2O3-0"], "steps": 3},
        {"sys": "two", "sym": ["Li2O", "NaCl"], "extra": [["Li2O", 1], ["NaCl", 1]], "later": ["NaCl-1"], "move": ["Li2O-0", "NaCl-1", "NaCl-0"], "hull": ["NaCl-0", "Li2O2-0"], "steps": 3},
        {"sys": "YMO", "sym": ["Mn2O3", "YMnO3"], "extra": [["O2", 1]], "later": ["YMnO3-0", "O2-1"], "move": ["YMnO3-0", "Mn2O3-0"], "hull": ["YMn2O5-0"], "steps": 3},
        {"sys": "BTO", "sym": ["BaTiO3", "TiO2"], "extra": [["TiO2", 1]], "later": ["TiO2-1"], "move": ["TiO2-0", "BaTiO3-0"], "hull": ["BaTiO3-0", "BaTi2O5-0"], "steps": 3},
        ], bounds="six to nine entries with polymorphs; every sequence of two (thorough three) add/discard/update/remove operations; one to four energies symbolic"),
    Harness("subset", subset, quick=[{"sys": s, "sym": [], "extra": x} for s, x in (("YMO", [["Mn2O3", 1]]), ("two", []), ("BTO", [["TiO2", 1]]))] + [{"sys": "YMO", "sym": [], "extra": [["O2", 1]], "named": True}], bounds="every subset of the elements"),
    Harness("options", options, quick=[{"sys": "MnO", "sym": ["Mn3O4"], "extra": [["MnO", 1]], "hulls": a, "small": b} for a in (False, True) for b in (False, True)], bounds="all option combinations; energies symbolic"),
]
