"""The competition job: every reaction that makes the target, with its selectivities."""
from itertools import combinations

from symx.core import Abs, And, Max, Min, Or, Sum
from symx.harness import Harness

from . import hulls, sets
from .common import comp, entry, gibbs, parse


def setup_symbolic():
    from symx import inject

    import rxn_network.jobs.core as core

    sets.patch_hash()
    hulls.setup()
    inject.EXTRA[id(core.CompetitionTaskDocument)] = (core.CompetitionTaskDocument, Document)


ASSUMPTIONS = [
    "scipy's ConvexHull replaced by an exact planar hull; reaction energies at least 1e-3 eV/atom away from zero and from each other, no three points of a hull closer than 1e-4 eV/atom to one line",
    "scores are compared to 1e-4 eV/atom (one-precursor scores are stored rounded)",
    "chemical potential distances: the calculator is replaced by a stand-in whose value depends on the reaction and on the entries it is given (C03 and T02 decide the calculator itself)",
]

R = {
    "t1": {"BaO": -1, "TiO2": -1, "BaTiO3": 1},
    "t2": {"BaO": -1, "TiO2": -2, "BaTiO3": 1, "TiO": 1, "O2": 0.5},
    "t3": {"BaCO3": -1, "TiO2": -1, "BaTiO3": 1, "CO2": 1},
    "t4": {"Ba2TiO4": -1, "TiO2": -1, "BaTiO3": 2},
    "t5": {"BaTi2O5": -1, "BaTiO3": 1, "TiO2": 1},
    "t6": {"BaO2": -2, "TiO2": -2, "BaTiO3": 2, "O2": 1},
    "t7": {"BaO": -2, "Ti2O3": -1, "O2": -0.5, "BaTiO3": 2},
    "t8": {"Ba2TiO4": -1, "BaTiO3": 1, "BaO": 1},
    "t9": {"BaO": -1, "BaO2": -1, "Ti2O3": -1, "BaTiO3": 2},
    "c1": {"BaO": -2, "TiO2": -1, "Ba2TiO4": 1},
    "c2": {"BaO": -1, "TiO2": -2, "BaTi2O5": 1},
    "c3": {"BaCO3": -2, "TiO2": -1, "Ba2TiO4": 1, "CO2": 2},
    "c4": {"BaCO3": -1, "BaO": 1, "CO2": 1},
    "c5": {"Ba2TiO4": -1, "BaO": 2, "TiO2": 1},
    "c6": {"BaTi2O5": -1, "BaO": 1, "TiO2": 2},
    "c7": {"BaO2": -2, "TiO2": -1, "Ba2TiO4": 1, "O2": 1},
    "c8": {"BaO": -2, "O2": -1, "BaO2": 2},
    "c9": {"BaO": -2, "TiO2": -1, "O2": -1, "Ba2TiO6": 1},
    "c10": {"Ti2O3": -2, "O2": -1, "TiO2": 4},
    "x1": {"BaTiO3": -1, "BaO": 1, "TiO2": 1},
    "x2": {"BaTiO3": -1, "CO2": -1, "BaCO3": 1, "TiO2": 1},
}
for _k, _r in R.items():
    _a = {}
    for _f, _c in _r.items():
        for _e, _n in parse(_f).items():
            _a[_e] = _a.get(_e, 0) + _n * _c
    assert all(abs(v) < 1e-9 for v in _a.values()), _k
BASE = {"BaO": -2.8, "TiO2": -3.2, "BaTiO3": -3.4, "Ba2TiO4": -3.3, "BaTi2O5": -3.4, "BaCO3": -2.4, "CO2": -1.4, "BaO2": -2.0, "Ti2O3": -3.1, "O2": 0.0, "Ba2TiO6": -2.4, "TiO": -2.6}


class Document:
    """the output record without its type validation"""

    def __init__(self, **data):
        self.__dict__.update(data)


def build(h, gibbs_entries=False):
    """entries, reactions by name, reaction sets"""
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.reaction_set import ReactionSet

    names = [n for g in h.cfg["sets"] for n in g]
    forms = sorted({f for n in names for f in R[n]})
    es = {}
    for f in forms:
        n = sum(parse(f).values())
        e = BASE[f]
        if f in h.cfg["sym"]:
            e = h.real(f"e_{f}", e - 0.25, e + 0.25)
        es[f] = gibbs(f, e, eid=f) if gibbs_entries else entry(f, e * n, eid=f)
    mk = lambda n, i: ComputedReaction([es[f] for f in (list(R[n]) if i % 2 else list(R[n])[::-1])], [R[n][f] for f in (list(R[n]) if i % 2 else list(R[n])[::-1])], data={"tag": n})
    rx = {n: mk(n, i) for i, n in enumerate(dict.fromkeys(names))}
    out = [ReactionSet.from_rxns([rx[n] for n in g], entries=list(es.values())) for g in h.cfg["sets"]]
    return es, rx, out


def opened(h, rx, es):
    """the reactions as the job has to see them"""
    from pymatgen.core.periodic_table import Element

    from rxn_network.reactions.open import OpenComputedReaction

    el = h.cfg.get("open")
    if not el:
        return rx, None, {}
    mu = h.real("mu", -1, 0)
    out = {n: OpenComputedReaction(r.entries, r.coefficients, {Element(el): mu}, data=dict(r.data)) for n, r in rx.items()}
    return out, mu, {"open_elem": el, "chempot": mu}


def reactants(n):
    return {f for f, c in R[n].items() if c < 0}


def scores(h, n, rx, gas):
    """(primary, secondary) from the reactions whose reactants are available"""
    from rxn_network.reactions.hull import InterfaceReactionHull

    pre = sorted(reactants(n))
    have = set(pre) | ({gas} if gas else set())
    comps = [k for k in rx if reactants(k) <= have]
    if len(pre) == 3:
        pre.remove(gas)
    if len(pre) == 1:
        e = {k: rx[k].energy_per_atom for k in comps}
        low = Min([v for k, v in e.items() if k != n] + [0.0])
        diffs = [e[n] - v for k, v in e.items() if k != n] + [e[n]]
        return e[n] - low, Max([0.0] + diffs)
    pts = [(0.0, 0.0), (1.0, 0.0)] + [(_x(rx[k], pre), rx[k].energy_per_atom) for k in comps]
    for a, b, c in combinations(sorted(pts, key=lambda p: p[0]), 3):
        if a[0] < b[0] < c[0]:
            h.assume(Abs(b[1] - a[1] - (c[1] - a[1]) * ((b[0] - a[0]) / (c[0] - a[0]))) >= 1e-4)
    irh = InterfaceReactionHull(comp(pre[0]), comp(pre[1]), [rx[k] for k in comps])
    return irh.get_primary_competition(rx[n]), irh.get_secondary_competition(rx[n])


def _x(r, pre):
    f = {k.reduced_formula: v for k, v in r.reactant_atomic_fractions.items()}
    return f.get(pre[1], 0) / (f.get(pre[0], 0) + f.get(pre[1], 0))


def options(h):
    """ways to run the job that must not matter"""
    from symx.fakeray import RAY

    RAY.cpus, RAY.order, chunk = h.choice("mode", h.cfg.get("modes", [[1, "fifo", 100], [3, "lifo", 2], [2, "fifo", 1]]))
    return {"chunk_size": chunk}


def run(maker, *args):
    f = type(maker).make
    return getattr(f, "original", f)(maker, *args)


def entry_set(h, es):
    from rxn_network.entries.entry_set import GibbsEntrySet

    return GibbsEntrySet(list(es.values()))


def gaps(h, rx):
    e = [r.energy_per_atom for r in rx.values()]
    for i, a in enumerate(e):
        h.assume(Abs(a) >= 0.001)
        for b in e[i + 1:]:
            h.assume(Abs(a - b) >= 0.001)


def finish(h, doc, target, want, rx, es):
    """exactly the reactions making the target, unchanged"""
    got = list(doc.rxns.get_rxns())
    tags = [r.data.get("tag") for r in got]
    h.check(sorted(tags) == sorted(want), "reactions-making-the-target")
    for n in want:
        g = got[tags.index(n)]
        a, b = sets.coeff_map(g), sets.coeff_map(rx[n])
        h.check(a.keys() == b.keys() and type(g).__name__ == type(rx[n]).__name__, "same-reaction:entries")
        h.check(And(*[a[k] == b[k] for k in b], Abs(g.energy_per_atom - rx[n].energy_per_atom) <= 1e-9), "same-reaction:coefficients-and-energy")
    h.check(doc.target_formula == comp(target).reduced_formula, "target")
    h.check({str(x) for x in doc.added_elements} == {e for f in es for e in parse(f)} - set(parse(target)), "added-elements")
    return {n: got[tags.index(n)] for n in want}


def competition(h):
    from rxn_network.jobs.core import CalculateCompetitionMaker

    es, rx, rsets = build(h)
    orx, mu, kw = opened(h, rx, es)
    gaps(h, orx)
    opt = options(h)
    gas = comp(h.cfg["open"]).reduced_formula if h.cfg.get("open") else None
    target = h.cfg.get("target", "BaTiO3")
    want = [n for n in orx if R[n].get(comp(target).reduced_formula, 0) > 0]
    maker = CalculateCompetitionMaker(**kw, **opt)
    try:
        doc = run(maker, rsets, entry_set(h, es), target)
    except ValueError as e:
        h.check(any(len(reactants(n) - {gas}) > 2 for n in want) or not want, "refused-only-with-more-than-two-precursors-or-without-reactions")
        return
    h.check(bool(want) and not any(len(reactants(n) - {gas}) > 2 for n in want), "more-than-two-precursors-refused")
    got = finish(h, doc, target, want, orx, es)
    conds = []
    for n in want:
        p, s = scores(h, n, orx, gas)
        d = got[n].data
        h.check("primary_competition" in d and "secondary_competition" in d, "scores-stored")
        tol = 1.01e-4 if len(reactants(n)) == 1 else 1e-6
        conds += [Abs(d["primary_competition"] - p) <= tol, Abs(d["secondary_competition"] - s) <= tol]
        if not h.cfg.get("open"):
            h.observe(n, p)
    h.check(And(*conds), "scores")


class Calculator:
    """stand-in: a value that depends on the reaction and on all entries"""

    def __init__(self, entries, shift):
        self.entries, self.shift = list(entries), shift

    @classmethod
    def from_entries(cls, entries, **kw):
        return cls(entries, kw["shift"])

    def calculate(self, rxn):
        mine = sorted(self.entries, key=lambda e: getattr(e, "original_entry", e).composition.reduced_formula)
        return Sum([e.energy * (k + 1) for k, e in enumerate(mine)]) + self.shift + len(rxn.entries)

    def decorate(self, rxn):
        from copy import deepcopy

        new = deepcopy(rxn)
        new.data = dict(rxn.data, chempot_distance=self.calculate(rxn))
        return new


def distances(h):
    """chemical potential distances: every reaction judged by the entries of its chemical system"""
    from pymatgen.core.periodic_table import Element

    import rxn_network.jobs.core as core

    es, rx, rsets = build(h, gibbs_entries=True)
    orx, mu, kw = opened(h, rx, es)
    el = h.cfg.get("open")
    opt = options(h)
    target = h.cfg.get("target", "BaTiO3")
    want = [n for n in orx if R[n].get(comp(target).reduced_formula, 0) > 0]
    old, core.ChempotDistanceCalculator = core.ChempotDistanceCalculator, Calculator
    try:
        maker = core.CalculateCompetitionMaker(**kw, **opt, calculate_competition=False, calculate_chempot_distances=True, cpd_kwargs={"shift": 0.5})
        doc = run(maker, rsets, entry_set(h, es), target)
    finally:
        core.ChempotDistanceCalculator = old
    ref = list(es.values())
    if el:
        ref = [e.to_grand_entry({Element(el): mu}) for e in ref if set(parse(e.composition.reduced_formula)) != {el}]
    got = finish(h, doc, target, want, orx, es)

    def distance(rxn):
        els = {str(e) for e in rxn.elements}
        return Calculator([e for e in ref if {str(x) for x in e.composition.elements} <= els], 0.5).calculate(rxn)

    h.check(And(*[Abs(got[n].data["chempot_distance"] - distance(orx[n])) <= 1e-9 for n in want]), "distances-in-the-chemical-system-of-the-reaction")
    h.check(all("primary_competition" not in got[n].data for n in want), "no-scores")


Q = [
    {"sets": [["t1", "c1", "c2", "x1"], ["t2"]], "sym": ["BaTiO3", "Ba2TiO4"]},
    {"sets": [["t3", "c4"], ["t1", "c1", "c3", "x2"]], "sym": ["BaTiO3", "BaCO3"]},
    {"sets": [["t5", "c6", "t8", "c5", "t4"]], "sym": ["BaTi2O5", "Ba2TiO4"]},
    {"sets": [["t1", "c1", "t6"], ["c7", "c2"]], "sym": ["BaTiO3"], "open": "O"},
    {"sets": [["t1", "c1", "c9"]], "sym": ["Ba2TiO6"], "open": "O"},
    {"sets": [["t7", "c8", "c10"], ["t1", "c1"]], "sym": ["Ti2O3"], "open": "O"},
    {"sets": [["t7", "c8"]], "sym": [], "target": "BaTiO3"},
    {"sets": [["t9", "t1", "c1"]], "sym": ["Ti2O3"], "open": "O"},
    {"sets": [["c1", "c2"]], "sym": ["BaTi2O5"], "target": "BaTiO3"},
    {"sets": [["t1", "c1", "c2"]], "sym": ["BaTiO3"], "target": "Ba2Ti2O6"},
]
D = [
    {"sets": [["t1", "t3", "c4", "t4"], ["t5", "t6", "x1"]], "sym": ["BaTiO3", "BaCO3"]},
    {"sets": [["t3", "t6", "t1"]], "sym": ["BaO2", "CO2"], "open": "O"},
    {"sets": [["t3", "t8"], ["t1", "t7"]], "sym": ["Ti2O3"], "open": "O", "modes": [[4, "lifo", 3], [1, "fifo", 1]]},
]
HARNESSES = [
    Harness("competition", competition, quick=Q, bounds="3 to 7 reactions in one or two reaction sets over 4 to 8 phases, closed or open to oxygen; one or two energies within 0.25 eV/atom and the chemical potential symbolic; chunk sizes 1, 2, 100, CPUs 1, 3, completion order"),
    Harness("distances", distances, quick=D, bounds="as above"),
]
