"""run_enumerators: the union of what the enumerators find; conversion and stabilization helpers."""
from symx.core import Abs, And, Min
from symx.harness import Harness

from . import enum, esets, pds, sets
from .common import comp, entry, gibbs, parse
from .N01 import schedule, wanted


def setup_symbolic():
    pds.setup()
    sets.patch_hash()


ASSUMPTIONS = ["ray is replaced by an in-process stand-in: tasks run to completion, results arrive in any order",
               "pymatgen's PhaseDiagram is replaced by an exact symbolic one (stabilize)",
               "polymorphs differ by at least 10 meV/atom"]


def pool(h, name):
    """entry set in which polymorphs have symbolic energies"""
    from rxn_network.entries.entry_set import GibbsEntrySet

    forms = enum.SETS[name]
    es = []
    for i, f in enumerate(forms):
        e = 0.0 if len(parse(f)) == 1 else -0.4 - 0.0625 * i
        if forms.count(f) > 1:
            e = h.real(f"e{i}", -3, 0)
        es.append(gibbs(f, e, eid=f"id{i}"))
    for i, a in enumerate(es):
        for b in es[i + 1:]:
            if a.composition.reduced_formula == b.composition.reduced_formula:
                h.assume(Abs(a.energy_per_atom - b.energy_per_atom) >= 0.01)
    s = GibbsEntrySet(es)
    s.build_indices()
    return s, es


def lowest(es, f):
    same = [e for e in es if e.composition.reduced_formula == comp(f).reduced_formula]
    low = same[0]
    for e in same[1:]:
        if bool(e.energy_per_atom < low.energy_per_atom):
            low = e
    return low.entry_id


def plan(h):
    """entry set, its entries, the enumerators in the order run, what they have to find together, phases to be added"""
    from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator

    schedule(h)
    c = h.cfg
    es, ents = pool(h, c["set"])
    names = {e.entry_id: e.composition.reduced_formula for e in ents}
    kinds = c["kinds"]
    order = h.choice("order", c.get("orders", [list(range(len(kinds)))]))
    ens, want = [], {}
    new = {}
    for k in kinds:
        for f in (k.get("pre") or "").split() + (k.get("tgt") or "").split():
            f = comp(f).reduced_formula
            if f not in names.values() and f not in new:
                new[f] = "new " + f
    for i in order:
        k = kinds[i]
        kw = dict(precursors=k["pre"].split() if k.get("pre") else None, targets=k["tgt"].split() if k.get("tgt") else None,
                  n=k.get("n", 2), chunk_size=h.int(f"chunk{i}", *k.get("chunk", (2500, 2500))), quiet=True)
        ens.append(BasicOpenEnumerator(k["opens"], **kw) if k.get("opens") else BasicEnumerator(**kw))
        mine = {comp(f).reduced_formula for f in (k.get("pre") or "").split() + (k.get("tgt") or "").split()}
        nm = {**names, **{v: f for f, v in new.items() if f in mine}}
        every, _ = enum.reactions(list(nm.items()), k.get("n", 2), k.get("opens"))
        phase = lambda x: new.get(comp(x).reduced_formula) or lowest(ents, x)
        f = dict(expre=True, extgt=False, pre={phase(x) for x in k["pre"].split()} if k.get("pre") else None, tgt={phase(x) for x in k["tgt"].split()} if k.get("tgt") else None)
        want.update(wanted(every, f, nm, k.get("opens"), None))
    return es, ents, names, ens, want, new


def union(h):
    from rxn_network.enumerators.utils import run_enumerators

    es, ents, names, ens, want, new = plan(h)
    got = run_enumerators(iter(ens) if h.cfg.get("iter") else ens, es)
    if not ens:
        h.check(got is None or len(got) == 0, "nothing-to-run")
        return
    judge(h, got, es, names, want, new)


def judge(h, got, es, names, want, new):
    eid = lambda e: new.get(e.composition.reduced_formula) or e.entry_id
    seen = {}
    for r in got.get_rxns():
        key = (frozenset(map(eid, r.reactant_entries)), frozenset(map(eid, r.product_entries)))
        seen[key] = seen.get(key, 0) + 1
        h.check(key in want, "no-other-reaction")
        w = want[key]
        co = {eid(e): x for e, x in zip(r.entries, r.coefficients)}
        i0 = min(w)
        h.check(len(co) == len(w) and all(abs(float(co[i]) / float(co[i0]) - float(w[i] / w[i0])) < 1e-6 for i in w), "coefficients")
    h.check(set(want) == set(seen), "none-missing")
    h.check(all(v == 1 for v in seen.values()), "each-once")
    h.check({e.entry_id for e in es} == set(names) and len(list(es)) == len(names), "given-entries-unchanged")
    h.observe("count", len(got))


def convert(h):
    """a reaction of formulas becomes one of the lowest-energy entries"""
    from pymatgen.core.periodic_table import Element
    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.enumerators.utils import get_computed_rxn
    from rxn_network.reactions.basic import BasicReaction

    rea, pro = h.cfg["rxn"]
    es = []
    for f in sorted(set(rea + pro)):
        for k in range(h.cfg["poly"].get(f, 1)):
            e = h.real(f"e_{f}_{k}", -3, 0)
            es.append(gibbs(f, e, eid=f"{f}-{k}"))
    for i, a in enumerate(es):
        for b in es[i + 1:]:
            if a.composition.reduced_formula == b.composition.reduced_formula:
                h.assume(Abs(a.energy_per_atom - b.energy_per_atom) >= 0.0005)
    if h.cfg.get("rev"):
        es.reverse()
    s = h.real("scale", 1 / 128, 32)
    _, v = enum.balance(rea, pro)
    rxn = BasicReaction([comp(f) for f in rea + pro], [float(x) * s for x in v])
    el = h.cfg.get("open")
    mu = {Element(el): h.real("mu", -2, 0)} if el else None
    S = GibbsEntrySet(es)
    got = get_computed_rxn(rxn, S, mu) if el else get_computed_rxn(rxn, S)
    h.check(type(got).__name__ == ("OpenComputedReaction" if el else "ComputedReaction"), "class")
    if el:
        h.check(list(got.chempots) == list(mu) and bool(got.chempots[Element(el)] == mu[Element(el)]), "chemical-potentials")
    co = {e.entry_id: x for e, x in zip(got.entries, got.coefficients)}
    want = {lowest(es, f): x for f, x in zip(rea + pro, v)}
    h.check(co.keys() == want.keys() and len(got.entries) == len(want), "lowest-energy-entries")
    i0 = min(want)
    h.check(all((co[i] > 0) == (want[i] > 0) and abs(float(co[i]) / float(co[i0]) - float(want[i] / want[i0])) < 1e-6 for i in want), "coefficients")
    by = {e.entry_id: e for e in es}
    h.check(And(*[by[e.entry_id].energy == e.energy for e in got.entries]), "energies")


def stabilize(h):
    import rxn_network.thermo.utils as tu
    from rxn_network.enumerators.utils import stabilize_entries

    es = []
    for f in esets.SYS[h.cfg["sys"]]:
        n = sum(parse(f).values())
        e = 0.0 if len(parse(f)) == 1 else esets.BASE[f]
        if f in h.cfg["sym"]:
            e = h.real(f"e_{f}", e - 0.5, e + 0.5)
        es.append(entry(f, e * n, eid=f, data={"tag": f}))
    PD = tu.PhaseDiagram  # the stand-in in symbolic runs
    pd = PD(es)
    ask = [e for e in es if e.entry_id in h.cfg["sym"]]
    tol = h.real("tol", 1e-6, 0.01)
    before = [e.energy for e in es]
    new = stabilize_entries(pd, (e for e in ask) if h.cfg.get("iter") else ask, tol)
    h.check([e.entry_id for e in new] == [e.entry_id for e in ask], "one-for-every-entry")
    conds = []
    for e, n in zip(ask, new):
        hull = esets.hull_energy(es, e.composition) * e.composition.num_atoms
        conds += [n.energy < hull, n.energy >= hull - tol * e.composition.num_atoms - 1e-7]
        h.check(n.composition == e.composition, "composition")
    conds += [e.energy == b for e, b in zip(es, before)]
    h.check(And(*conds), "just-below-the-hull")


K = dict
U = [
    K(set="MnO4", kinds=[K(n=2, chunk=(1, 30)), K(n=1), K(opens=["O2"], n=1)], orders=[[0, 1, 2], [2, 1, 0], [1, 0, 2]]),
    K(set="poly", kinds=[K(pre="MnO O2"), K(tgt="Mn2O3", n=2), K(n=1)], orders=[[0, 1, 2], [1, 2, 0]]),
    K(set="MnO", kinds=[K(opens=["O2"], n=2, tgt="Mn3O4", chunk=(1, 12)), K(tgt="Mn3O4")], iter=True),
    K(set="MnO", kinds=[K(pre="Mn MnO2"), K(n=2)], orders=[[0, 1], [1, 0]]),
    K(set="ex", kinds=[K(pre="NaCl AgNO3"), K(pre="AgCl NaNO3"), K(tgt="NaNO2")], orders=[[0, 1, 2], [2, 0, 1]]),
    K(set="MnO", kinds=[]),
]
C = [
    {"rxn": (["Mn2O3"], ["MnO", "O2"]), "poly": {"Mn2O3": 2, "MnO": 2}},
    {"rxn": (["Mn", "O2"], ["Mn2O3"]), "poly": {"Mn2O3": 3, "O2": 2}, "open": "O"},
    {"rxn": (["Y2O3", "Mn2O3"], ["YMnO3"]), "poly": {"YMnO3": 3}, "rev": True},
    {"rxn": (["Na2CO3", "CaCl2"], ["CaCO3", "NaCl"]), "poly": {"CaCO3": 2, "NaCl": 2}},
    {"rxn": (["BaCO3", "TiO2"], ["BaTiO3", "CO2"]), "poly": {"TiO2": 3}, "open": "C"},
]
S = [
    {"sys": "MnO", "sym": ["Mn3O4"]},
    {"sys": "YMO", "sym": ["YMnO3"], "iter": True},
    {"sys": "two", "sym": ["Li2O2", "NaCl"]},
]
HARNESSES = [
    Harness("union", union, quick=U, bounds="up to three basic and open enumerators in any listed order over 4-6 phases, with and without precursors and targets (also ones not among the entries); chunk sizes 1-30 and polymorph energies symbolic"),
    Harness("convert", convert, quick=C, bounds="five reactions of up to four phases with up to three polymorphs each; all energies, the scale of the reaction and the chemical potential symbolic"),
    Harness("stabilize", stabilize, quick=S, bounds="five to eight phases, one or two energies and the tolerance symbolic"),
]
