"""Calculators: the value of a reaction, stored under the calculator's name in a copy."""
from itertools import combinations, product

from symx.core import Abs, Max, Sum
from symx.harness import Harness

from . import hulls, sets
from .common import comp, entry
from .hulls import build


def setup_symbolic():
    sets.patch_hash()
    hulls.setup()


ASSUMPTIONS = ["pairwise chemical potential distances and offsets are arbitrary non-negative numbers (they are the subject of T02)", "aggregated distances are reported to five decimals"]

RX = [
    (["YCl3", "Mn2O3", "Li2CO3"], ["LiCl", "YMnO3", "CO2"], [-2, -1, -3, 6, 2, 3]),
    (["Fe2O3", "Al"], ["Al2O3", "Fe"], [-1, -2, 1, 2]),
    (["BaO", "TiO2"], ["BaTiO3"], [-1, -1, 1]),
    (["Li", "O2"], ["Li2O"], [-4, -1, 2]),
    (["CaCO3"], ["CaO", "CO2"], [-1, 1, 1]),
    (["FeO", "O2"], ["Fe2O3", "Fe3O4"], [-5, -1, 1, 1]),
]


class Cpd:
    """arbitrary symmetric distances between phases and offsets of phases"""

    def __init__(self, h, entries, forms):
        self.entries = entries
        self.d = {frozenset(p): h.real(f"d_{p[0]}_{p[1]}", 0, 4) for p in combinations(forms, 2)}
        self.o = {f: h.real(f"o_{f}", 0, 2) for f in forms}

    def shortest_domain_distance(self, f1, f2, offset=0.0):
        return (self.d[frozenset((f1, f2))] if f1 != f2 else 0) + offset

    def get_offset(self, e):
        return self.o[e.composition.reduced_formula]


def chempot(h):
    from pymatgen.analysis.phase_diagram import GrandPotPDEntry
    from pymatgen.core.periodic_table import Element

    from rxn_network.costs.calculators import ChempotDistanceCalculator
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction

    rea, pro, cs = RX[h.cfg["rxn"]]
    forms = rea + pro
    es = [entry(f, -1.0 - i, eid=f) for i, f in enumerate(forms)]
    s = h.real("s", 1 / 128, 32)
    cs = [c * s for c in cs]
    el = h.cfg.get("open")
    order = list(range(len(forms)))[:: h.cfg.get("step", 1)]
    args = ([es[i] for i in order], [cs[i] for i in order])
    if el:
        r = OpenComputedReaction(*args, {Element(el): -0.5})
        shown = [f for f in forms if set(comp(f).chemical_system.split("-")) != {el}]
        red = {f: GrandPotPDEntry(entry(f, 0.0), {Element(el): -0.5}).composition.reduced_formula for f in shown}
        ents = [GrandPotPDEntry(e, {Element(el): -0.5}) for e, f in zip(es, forms) if f in shown]
    else:
        r = ComputedReaction(*args)
        shown, ents = forms, es
        red = {f: comp(f).reduced_formula for f in shown}
    cpd = Cpd(h, ents, sorted(set(red.values())))
    pairs = list(product([f for f in shown if f in rea], [f for f in shown if f in pro])) + list(combinations([f for f in shown if f in pro], 2))
    ds = [cpd.shortest_domain_distance(red[a], red[b]) + cpd.o[red[a]] + cpd.o[red[b]] for a, b in pairs]
    fun = h.cfg["fun"]
    want = {"sum": lambda: Sum(ds), "max": lambda: Max(ds), "mean": lambda: Sum(ds) / len(ds), "callable": lambda: 2 * Sum(ds) + len(ds)}[fun]()
    arg = {} if fun == "sum" and not h.cfg.get("name") else {"mu_func": (lambda x: 2 * sum(x) + len(list(x))) if fun == "callable" else fun}
    if h.cfg.get("name"):
        arg["name"] = h.cfg["name"]
    calc = ChempotDistanceCalculator(cpd, **arg)
    v = calc.calculate(r)
    h.check(Abs(v - want) <= 1.1e-5, "aggregate-over-all-interfaces")
    q = calc.decorate(r)
    h.check(list(q.data) == [h.cfg.get("name", "chempot_distance")], "stored-under-the-name")
    h.check(Abs(q.data[h.cfg.get("name", "chempot_distance")] - want) <= 1.1e-5, "stored-value")
    h.check(not r.data, "original-undecorated")


def reject(h):
    from rxn_network.costs.calculators import ChempotDistanceCalculator

    f = h.choice("f", ["sum", "median", "max", "", "mean", "min"])
    try:
        ChempotDistanceCalculator(Cpd(h, [entry("BaO", -1.0)], ["BaO"]), f)
        ok = True
    except ValueError:
        ok = False
    h.check(ok == (f in ("sum", "max", "mean")), "unknown-function-name-refused")


CALC = {
    "PrimaryCompetitionCalculator": ("primary_competition", lambda irh, r: irh.get_primary_competition(r)),
    "SecondaryCompetitionCalculator": ("secondary_competition", lambda irh, r: irh.get_secondary_competition(r)),
    "SecondaryCompetitionWithEhullCalculator": ("secondary_competition_with_ehull", lambda irh, r: irh.get_secondary_competition(r) + irh.get_energy_above_hull(r)),
    "SecondaryCompetitionMaxCalculator": ("secondary_competition_max", lambda irh, r: irh.get_secondary_competition_max_energy(r)),
    "SecondaryCompetitionAreaCalculator": ("secondary_competition_area", lambda irh, r: irh.get_secondary_competition_area(r)),
}


def competition(h):
    from rxn_network.costs import calculators

    names = h.cfg["rxns"]
    irh, rx, en, xs, es = build(h, names, lo=-1, hi=h.cfg.get("hi", 1))
    keep = {}
    for i, k in enumerate(names):
        keep[k] = h.real(f"k{i}", -1, 1)
        rx[k].data = {"old": keep[k]} if i % 2 == 0 else None
    cls = h.cfg["calc"]
    key, fun = CALC[cls]
    custom = h.cfg.get("name")
    calc = getattr(calculators, cls)(irh, custom) if custom else getattr(calculators, cls)(irh)
    key = custom or key
    want = [fun(irh, rx[k]) for k in names]
    out = calc.decorate_many([rx[k] for k in names])
    out += [calc.decorate(rx[k]) for k in names]
    many = calc.calculate_many([rx[k] for k in names])
    h.check(len(out) == 2 * len(names) and len(many) == len(names), "one-result-per-reaction")
    for v, w in zip(many, want):
        h.check_eq(v, w, "calculate-many")
    for i, q in enumerate(out):
        k = names[i % len(names)]
        o = rx[k]
        h.check(q is not o and q == o, "a-copy-of-the-reaction")
        h.check_eq(q.data[key], want[i % len(names)], "value-under-the-name")
        old = (i % len(names)) % 2 == 0
        h.check(set(q.data) == ({key, "old"} if old else {key}), "other-data-kept")
        if old:
            h.check_eq(q.data["old"], keep[k], "other-data-unchanged")
            h.check(list(o.data) == ["old"], "original-data-unchanged")
        else:
            h.check(not o.data, "original-data-unchanged")
        h.check([e.entry_id for e in q.entries] == [e.entry_id for e in o.entries], "same-phases")
        for a, b in zip(q.coefficients, o.coefficients):
            h.check_eq(a, b, "same-coefficients")
    h.observe("v", want)


HARNESSES = [
    Harness("chempot", chempot, quick=[
        {"rxn": 0, "fun": "sum"}, {"rxn": 1, "fun": "max", "step": -1}, {"rxn": 1, "fun": "mean"}, {"rxn": 2, "fun": "max"}, {"rxn": 4, "fun": "mean", "name": "d"},
        {"rxn": 0, "fun": "mean", "open": "O"}, {"rxn": 3, "fun": "sum"}, {"rxn": 5, "fun": "sum", "open": "O"}, {"rxn": 4, "fun": "max", "open": "C"}, {"rxn": 1, "fun": "callable"}, {"rxn": 0, "fun": "callable", "open": "O", "name": "x"},
        {"rxn": 0, "fun": "sum", "open": "Cl", "name": "y"},
        ], bounds="six reactions, closed and open; all pairwise distances in [0,4], offsets in [0,2] and scales in [1/128,32]"),
    Harness("reject", reject, quick=[{}], bounds="six function names"),
    Harness("competition", competition, quick=[dict(calc=c, rxns=r, hi=hi, **({"name": n} if n else {})) for c, r, hi, n in (
        ("PrimaryCompetitionCalculator", ["113", "214"], 1, None), ("PrimaryCompetitionCalculator", ["125", "113"], 1, "c1"),
        ("SecondaryCompetitionCalculator", ["113", "214"], 0, None), ("SecondaryCompetitionWithEhullCalculator", ["113", "125"], 0, None),
        ("SecondaryCompetitionMaxCalculator", ["113", "214"], 0, "c2m"), ("SecondaryCompetitionAreaCalculator", ["113", "125"], 0, None), ("SecondaryCompetitionCalculator", ["113"], 1, "c2"))],
        bounds="two reactions on a hull, all energies; data present or absent"),
]
