"""Entry sets built from computed 0 K energies: every phase once, with the right free energy."""
import json
import math
from pathlib import Path

from symx.core import Abs, And, Min, Or, Sum
from symx.harness import Harness

from . import E05, E06, esets, pds, sets
from .common import comp, parse


def setup_symbolic():
    pds.setup()
    sets.patch_hash()


ASSUMPTIONS = ["pymatgen's PhaseDiagram is replaced by an exact symbolic one (minimum over all extreme decompositions)",
               "energies of polymorphs differ by at least 0.5 meV/atom; an energy above hull is zero or at least 0.5 meV",
               "crystal structures are cubic cells of listed volumes; reference data files are taken as given"]

# (formula of the cell, eV per atom, volume per atom)
SYS = {
    "LiCO": [("Li", -1.9, 20.0), ("C", -9.2, 9.0), ("O2", -4.9, 15.0), ("Li2O", -4.75, 8.5), ("C2O4", -7.6, 14.0), ("Li4C2O6", -6.2, 10.0), ("Li2C2O4", -6.6, 11.0)],
    "YMO": [("Y2", -6.4, 33.0), ("Mn", -9.0, 11.0), ("O2", -4.9, 15.0), ("Y4O6", -9.0, 15.0), ("Mn4O6", -8.0, 11.5), ("YMnO3", -8.6, 12.0), ("MnO", -8.0, 11.0)],
    "BTO": [("Ba", -1.9, 60.0), ("Ti", -7.8, 17.0), ("O2", -4.9, 15.0), ("BaO", -6.0, 21.0), ("TiO2", -8.9, 12.0), ("BaTiO3", -8.0, 13.0)],
    "CaC": [("Ca", -2.0, 40.0), ("C", -9.2, 9.0), ("O2", -4.9, 15.0), ("CaO", -6.4, 14.0), ("CO2", -7.6, 14.0), ("Ca2C2O6", -7.4, 12.5), ("CaC2O5", -7.3, 12.5)],
    "ten": [(f"{m}", -2.0 - 0.25 * i, 20.0) for i, m in enumerate(["Li", "Na", "K", "Mg", "Ca", "Ba", "Y", "Mn", "Ti"])]
    + [("O2", -4.9, 15.0), ("Y2O3", -6.5, 15.0), ("YMnO3", -6.3, 12.0), ("CaMnO3", -6.3, 12.0), ("K2O", -5.0, 18.0)],
}


def ignored():
    import rxn_network.data as d

    return set(json.loads((Path(d.__file__).parent / "nist" / "ignore_solids.json").read_text()))


def cell(form, vol):
    from pymatgen.core.structure import Structure

    sp = [el for el, a in parse(form).items() for _ in range(int(a))]
    a = (vol * len(sp)) ** (1 / 3)
    return Structure([[a, 0, 0], [0, a, 0], [0, 0, a]], sp, [[i / len(sp), 0, 0] for i in range(len(sp))])


def inputs(h):
    """computed entries; energies of those named in sym are symbolic, extra ones are polymorphs"""
    from pymatgen.entries.computed_entries import ComputedStructureEntry

    out = []
    base = {comp(f).reduced_formula: (e, v) for f, e, v in SYS[h.cfg["sys"]]}
    todo = [(f, e, v, f"{f}-0", f in h.cfg["sym"]) for f, e, v in SYS[h.cfg["sys"]]]
    for f in h.cfg.get("extra", []):
        e, v = base[comp(f).reduced_formula]
        todo.append((f, e, v * 1.25, f"{f}-1", True))
    for f, e, v, i, sym in todo:
        n = sum(parse(f).values())
        e = h.real(f"e_{i}", e - 0.5, e + 0.5) if sym else e
        run = h.cfg.get("run", {}).get(f, "GGA")
        st = cell(f, v)
        out.append(ComputedStructureEntry(st, e * n, parameters={"run_type": run} if run else {}, data={"tag": i}, entry_id=i))
    by = {}
    for x in out:
        by.setdefault(x.composition.reduced_formula, []).append(x)
    for g in by.values():
        for i, a in enumerate(g):
            for b in g[i + 1:]:
                h.assume(Abs(a.energy_per_atom - b.energy_per_atom) >= 0.0005)
    return out, by


def volume(x):
    return next(v * (1.25 if x.entry_id.endswith("-1") else 1) for f, _, v in SYS_OF[x.entry_id.rsplit("-", 1)[0]])


SYS_OF = {}
for _s in SYS.values():
    for _f, _e, _v in _s:
        SYS_OF.setdefault(_f, [(_f, _e, _v)])


def flags(h):
    return {k: h.bool(k) if k not in h.cfg.get("fixed", {}) else h.cfg["fixed"][k] for k in
            ("include_nist_data", "include_freed_data", "apply_carbonate_correction", "apply_atmospheric_co2_correction", "ignore_nist_solids")}


def kinds(f, opt, t):
    """experimental references that represent the formula"""
    out = []
    if opt["include_nist_data"] and f in E06.table("nist") and not (opt["ignore_nist_solids"] and f in ignored()):
        out.append("nist")
    if opt["include_freed_data"] and f in E06.table("freed"):
        out.append("freed")
    return [s for s in out if min(E06.table(s)[f]) <= t <= max(E06.table(s)[f])]


def same_volume(x, v):
    return abs(v / x - 1) < 1e-6


def expected(h, x, by, opt, t):
    """Gibbs free energy of the computed entry"""
    f = x.composition.reduced_formula
    amt = x.composition.get_el_amt_dict()
    n = sum(amt.values())
    hf = x.energy - Sum([Min([y.energy_per_atom for y in by[comp(el).reduced_formula]]) * a for el, a in amt.items()])
    form = "".join(f"{k}{int(v)}" for k, v in amt.items())
    g = hf + E05.correction(form, VOL[x.entry_id], t)
    if opt["apply_carbonate_correction"] and amt.get("C") and amt.get("O") == 3 * amt["C"] and x.parameters.get("run_type") in ("GGA", "GGA+U"):
        g = g + 0.83 * amt["C"]
    if opt["apply_atmospheric_co2_correction"] and f == "CO2":
        g = g + 8.617e-5 * math.log(0.0004) * t * n / 3
    return g


VOL = {}
for _s in SYS.values():
    for _f, _e, _v in _s:
        VOL[_f + "-0"] = _v
        VOL[comp(_f).reduced_formula] = _v


def verify(h, got, pool, by, opt, t, label):
    """the set holds exactly the phases of the pool"""
    from rxn_network.entries.gibbs import GibbsComputedEntry

    have = {}
    for e in got:
        have.setdefault(e.composition.reduced_formula, []).append(e)
    h.check(have.keys() == by.keys(), label + ":formulas")
    conds = []
    for f, group in by.items():
        k = kinds(f, opt, t)
        mine = have[f]
        if k:
            names = sorted(type(e).__name__.lower()[: len("nist")] for e in mine)
            h.check(len(mine) == len(k) and names == sorted(s[:4] for s in k), label + ":experimental-references-alone")
            for e in mine:
                src = "nist" if type(e).__name__.lower().startswith("nist") else "freed"
                want = E06.ref(src, f, t)
                if f == "CO2" and opt["apply_atmospheric_co2_correction"]:
                    want = want + 8.617e-5 * math.log(0.0004) * t
                conds.append(And(e.energy - want <= 1e-6, want - e.energy <= 1e-6))
                h.check(e.temperature == t, label + ":temperature")
            continue
        keep = group
        if len(parse(f)) == 1:  # elements: the ground state alone is the reference
            low = group[0]
            for x in group[1:]:
                if bool(x.energy_per_atom < low.energy_per_atom):
                    low = x
            keep = [low]
        h.check(sorted(e.entry_id for e in mine) == sorted(x.entry_id for x in keep), label + ":every-computed-phase-once")
        for e in mine:
            x = next(x for x in keep if x.entry_id == e.entry_id)
            h.check(isinstance(e, GibbsComputedEntry) and e.temperature == t, label + ":gibbs-entry")
            h.check(e.composition == x.composition, label + ":composition")
            want = expected(h, x, by, opt, t)
            conds.append(And(e.energy - want <= 1e-5, want - e.energy <= 1e-5))
            h.check({k: v for k, v in e.data.items() if k != "e_above_hull"} == {"tag": x.entry_id} and e.parameters == x.parameters, label + ":data-and-parameters")
    h.check(And(*conds), label + ":free-energies")


def _vols(pool):
    for x in pool:
        VOL[x.entry_id] = x.structure.volume / x.structure.num_sites


def build(h):
    from rxn_network.entries.entry_set import GibbsEntrySet

    pool, by = inputs(h)
    _vols(pool)
    opt = flags(h)
    t = h.cfg["T"]
    hulls = h.cfg.get("hulls", False)
    before = [dict(x.data) for x in pool]
    got = GibbsEntrySet.from_computed_entries(pool if not h.cfg.get("iter") else iter(pool), t, calculate_e_above_hulls=hulls, **opt)
    h.check(type(got) is GibbsEntrySet and got.calculate_e_above_hulls == hulls, "class-and-options")
    verify(h, got, pool, by, opt, t, "set")
    h.observe("e", Sum([e.energy_per_atom for e in got]))
    if hulls:
        es = list(got)
        vals = [(e, esets.above_hull(es, e)) for e in es]
        for _, v in vals:
            h.assume(Or(v <= 1e-12, v >= 0.0005))
        h.check(all("e_above_hull" in e.data for e in es), "energies-above-hull-stored")
        h.check(And(*[Abs(e.data["e_above_hull"] - v) <= 1e-6 for e, v in vals]), "stored-energies-above-hull")
    h.check([dict(x.data) for x in pool] == before, "computed-entries-unchanged")
    if h.cfg.get("twice"):  # a second set at another temperature leaves the first alone
        old = [(e, e.energy, dict(e.data)) for e in got]
        t2 = h.cfg["twice"]
        other = GibbsEntrySet.from_computed_entries(pool, t2, calculate_e_above_hulls=hulls, **opt)
        verify(h, other, pool, by, opt, t2, "second-set")
        h.check(And(*[And(e.energy == v, *[e.data[k] == d[k] for k in d]) for e, v, d in old]), "first-set-unchanged")


def process(h):
    """process_entries: stable phases at the filter temperature, requested ones always"""
    from rxn_network.entries.utils import process_entries

    select(h, lambda pool, t, cut, **kw: process_entries(pool, t, cut, **kw))


def select(h, do):
    from rxn_network.entries.entry_set import GibbsEntrySet

    pool, by = inputs(h)
    _vols(pool)
    t, tf = h.cfg["T"], h.cfg.get("filter")
    cut = h.real("cut", 0, 0.5)
    poly = h.bool("polymorphs")
    opt = {"include_nist_data": True, "include_freed_data": False, "ignore_nist_solids": True, **h.cfg.get("opt", {})}
    full = dict(opt, apply_carbonate_correction=True, apply_atmospheric_co2_correction=True)
    ref = list(GibbsEntrySet.from_computed_entries(pool, tf or t, **opt))
    hull = [esets.above_hull(ref, e) for e in ref]
    for e, v in zip(ref, hull):
        h.assume(Or(v <= 1e-12, v >= 0.0005))
        h.assume(Abs(v - cut) >= 0.0005)
    want = []
    for e, v in zip(ref, hull):
        f = e.composition.reduced_formula
        if not bool(v <= cut):
            continue
        if not poly and any(bool(m.energy_per_atom < e.energy_per_atom) for m in ref if m is not e and m.composition.reduced_formula == f):
            continue
        want.append(e)
    extra = h.cfg.get("include", [])
    interp = []
    for f in extra:
        c = comp(f).reduced_formula
        same = [e for e in ref if e.composition.reduced_formula == c]
        if same:
            low = same[0]
            for e in same[1:]:
                if bool(e.energy_per_atom < low.energy_per_atom):
                    low = e
            if not any(e is low for e in want):
                want.append(low)
        else:
            interp.append((c, esets.hull_energy(ref, f)))
    got = do(pool, t, cut, filter_at_temperature=tf, include_polymorphs=poly, formulas_to_include=extra or None, calculate_e_above_hulls=h.cfg.get("hulls", False), **opt)
    out = list(got)
    key = lambda e: f"{type(e).__name__} {e.composition.reduced_formula} {getattr(e, 'entry_id', '') if type(e).__name__.startswith('Gibbs') else ''}"
    real = [e for e in out if type(e).__name__ != "InterpolatedEntry"]
    h.check(sorted(map(key, real)) == sorted(map(key, want)), "stable-and-requested-phases-alone")
    at = {key(e): e for e in GibbsEntrySet.from_computed_entries(pool, t, **opt)} if tf else {key(e): e for e in ref}
    h.check(And(*[And(Abs(e.energy - at[key(e)].energy) <= 1e-6, e.temperature == t) for e in real]), "free-energies-at-the-final-temperature")
    rest = [e for e in out if type(e).__name__ == "InterpolatedEntry"]
    h.check(sorted(e.composition.reduced_formula for e in rest) == sorted(c for c, _ in interp), "missing-phases-interpolated")
    for c, v in interp:
        e = next(e for e in rest if e.composition.reduced_formula == c)
        if not tf:
            h.check(Abs(e.energy_per_atom - v + 0.001) <= 1e-6, "interpolated-on-the-hull")
    if h.cfg.get("hulls"):
        vals = [(e, esets.above_hull(out, e)) for e in out]
        for _, v in vals:
            h.assume(Or(v <= 1e-12, v >= 0.0005))
        h.check(all("e_above_hull" in e.data for e in out) and bool(And(*[Abs(e.data["e_above_hull"] - v) <= 1e-6 for e, v in vals])), "stored-energies-above-hull")
    else:
        h.check(all(e.data.get("e_above_hull") is None for e in out), "no-energies-above-hull")


FX = lambda *k: {x: (x[0] == "+") for x in k}
F = lambda nist=True, freed=False, carb=True, co2=True, ign=True: {k: v for k, v in dict(include_nist_data=nist, include_freed_data=freed, apply_carbonate_correction=carb, apply_atmospheric_co2_correction=co2, ignore_nist_solids=ign).items() if v is not None}
B = [
    {"sys": "LiCO", "sym": ["Li4C2O6", "C"], "extra": ["Li2CO3"], "T": 600, "fixed": F(nist=None, carb=None, co2=None)},
    {"sys": "LiCO", "sym": ["C2O4"], "extra": ["CO2", "O2"], "T": 1000, "fixed": F(nist=False, carb=None, co2=None)},
    {"sys": "LiCO", "sym": ["Li2C2O4", "Li4C2O6"], "extra": [], "T": 300, "fixed": F(nist=False), "run": {"Li4C2O6": "R2SCAN", "Li2C2O4": None}},
    {"sys": "LiCO", "sym": ["Li2O"], "extra": ["Li2O"], "T": 900, "fixed": F(nist=None, freed=None, ign=None)},
    {"sys": "CaC", "sym": ["Ca2C2O6"], "extra": ["CaCO3"], "T": 650, "fixed": F(freed=None, carb=None, ign=None), "run": {"Ca2C2O6": "GGA+U"}, "iter": True},
    {"sys": "YMO", "sym": ["YMnO3", "Mn"], "extra": ["Y2Mn2O6", "Mn"], "T": 1150, "fixed": F(freed=None)},
    {"sys": "YMO", "sym": ["YMnO3"], "extra": [], "T": 300, "fixed": F(), "hulls": True, "twice": 1500},
    {"sys": "BTO", "sym": ["BaTiO3"], "extra": ["BaTiO3"], "T": 800, "fixed": F(ign=None), "hulls": True},
    {"sys": "ten", "sym": ["YMnO3"], "extra": ["Y2O3"], "T": 700, "fixed": F(), "hulls": True},
    {"sys": "ten", "sym": ["Mn"], "extra": ["Mn"], "T": 700, "fixed": F(freed=None)},
]
P = [
    {"sys": "YMO", "sym": ["YMnO3"], "extra": [], "T": 1000, "filter": 300},
    {"sys": "YMO", "sym": ["Mn4O6"], "extra": ["Mn2O3"], "T": 900, "include": ["Mn2O3"], "hulls": True},
    {"sys": "BTO", "sym": ["BaTiO3"], "extra": [], "T": 700, "include": ["BaTi2O5", "TiO2"], "opt": {"include_freed_data": False}},
    {"sys": "LiCO", "sym": ["Li2C2O4"], "extra": [], "T": 600, "filter": 300, "include": ["Li2C2O4"], "hulls": True},
]
HARNESSES = [
    Harness("build", build, quick=B, bounds="seven to fourteen phases in three or ten elements with polymorphs and cells of several formula units; one to three 0 K energies within 0.5 eV/atom and the options symbolic"),
    Harness("process", process, quick=P, bounds="seven or eight phases; one or two 0 K energies, the stability cutoff and the polymorph option symbolic"),
]
