"""Thermodynamic enumeration: the interface analysis of every pair, faithfully converted and filtered."""
from itertools import combinations

from symx import inject
from symx.core import Min
from symx.fakeray import RAY
from symx.harness import Harness

from . import enum, sets
from .common import comp, gibbs, natoms, parse
from .N01 import schedule

setup_symbolic = sets.patch_hash
ASSUMPTIONS = ["pymatgen's phase diagrams and interface analysis are replaced by stand-ins: they record what they are given and predict any subset of listed reactions for a pair",
               "ray is replaced by an in-process stand-in: tasks run to completion, results arrive in any order"]

SETS = {
    "YMO": (["Y2O3", "Mn2O3", "YMnO3", "YMnO3", "Mn3O4", "O2"],
            {("Y2O3", "Mn2O3"): ["Y2O3 + Mn2O3 > YMnO3", "Mn2O3 > Mn3O4 + O2", "Y2O3 > Y2O3"],
             ("Mn3O4", "O2"): ["Mn3O4 + O2 > Mn2O3", "Mn3O4 > Mn3O4"],
             ("Y2O3", "Mn3O4"): ["Y2O3 + Mn3O4 + O2 > YMnO3"],
             ("YMnO3",): ["YMnO3 > Y2O3 + Mn2O3", "YMnO3 > YMnO3"],
             ("YMnO3", "O2"): ["YMnO3 > YMnO3"]}),
    "LTO": (["Li2O", "TiO2", "Li2TiO3", "Li4Ti5O12", "Li2TiO3"],
            {("Li2O", "TiO2"): ["Li2O + TiO2 > Li2TiO3", "Li2O + TiO2 > Li4Ti5O12", "TiO2 > TiO2"],
             ("Li2TiO3", "TiO2"): ["Li2TiO3 + TiO2 > Li4Ti5O12"],
             ("Li4Ti5O12",): ["Li4Ti5O12 > Li2TiO3 + TiO2"],
             ("Li2O", "Li4Ti5O12"): ["Li2O + Li4Ti5O12 > Li2TiO3"]}),
}


class Rxn:
    """the sides of a predicted reaction, as pymatgen reports them"""

    def __init__(self, spec):
        a, b = spec.split(" > ")
        self.reactants = [comp(f) for f in a.split(" + ")]
        self.products = [comp(f) for f in b.split(" + ")]


def key(*cs):
    return tuple(sorted({comp(c).reduced_formula for c in cs}))


def run(h):
    import pymatgen.analysis.interface_reactions as ir
    import pymatgen.analysis.phase_diagram as pmg
    from pymatgen.core.periodic_table import Element
    from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator
    from rxn_network.entries.entry_set import GibbsEntrySet

    schedule(h)
    c = h.cfg
    forms, table = SETS[c["set"]]
    table = {key(*k): v for k, v in table.items()}
    es = []
    for i, f in enumerate(forms):
        e = h.real(f"e{i}", -4, 0) if forms.count(f) > 1 else -1.5 - 0.125 * i
        es.append(gibbs(f, e, eid=f"id{i}"))
    dup = next(f for f in forms if forms.count(f) > 1)
    i, j = [k for k, f in enumerate(forms) if f == dup]
    h.assume(es[i].energy_per_atom + 0.01 <= es[j].energy_per_atom if h.bool("first-lower") else es[j].energy_per_atom + 0.01 <= es[i].energy_per_atom)
    grand = c.get("open")
    predicted, calls, pds = {}, [], []

    class PD(pmg.PhaseDiagram):
        def __init__(self, entries, elements=None, **kw):
            self.entries = list(entries)
            self.chempots = None
            pds.append(self)

        def __deepcopy__(self, memo):
            return self

    class GPD(pmg.GrandPotentialPhaseDiagram, PD):
        def __init__(self, entries, chempots, elements=None, **kw):
            self.entries, self.chempots = list(entries), dict(chempots)
            pds.append(self)

    def predictions(c1, c2):
        k = key(c1, c2)
        if k not in predicted:
            rs = table.get(k, [])
            free = "/".join(k) in c["vary"]
            predicted[k] = [s for s in rs if not free or h.bool(f"predict {s} for {'/'.join(k)}")]
        return predicted[k]

    class IR:
        def __init__(self, c1, c2, pd, norm=True, use_hull_energy=False, **kw):
            if isinstance(pd, pmg.GrandPotentialPhaseDiagram):
                raise TypeError("grand potential phase diagram given")
            self.k = (c1, c2)
            calls.append((key(c1, c2), pd, None))

        def get_kinks(self):
            return [(n, 0.5, -0.1, Rxn(s), -1.0) for n, s in enumerate(predictions(*self.k))]

    class GIR(IR):
        def __init__(self, c1, c2, grand_pd, pd_non_grand, include_no_mixing_energy=False, norm=True, use_hull_energy=True):
            if not isinstance(grand_pd, pmg.GrandPotentialPhaseDiagram) or isinstance(pd_non_grand, pmg.GrandPotentialPhaseDiagram):
                raise TypeError("wrong phase diagram")
            self.k = (c1, c2)
            calls.append((key(c1, c2), grand_pd, pd_non_grand))

    repl = {id(o): (o, n) for o, n in ((pmg.PhaseDiagram, PD), (pmg.GrandPotentialPhaseDiagram, GPD), (ir.InterfacialReactivity, IR), (ir.GrandPotentialInterfacialReactivity, GIR))}
    mods = inject.rxn_modules()
    saved = [(vars(m), k, v) for m in mods for k, v in vars(m).items() if id(v) in repl]
    inject._replace(repl, mods)
    try:
        s = GibbsEntrySet(es)
        s.build_indices()
        pre = h.choice("precursors", c.get("pre", [None]))
        tgt = h.choice("targets", c.get("tgt", [None]))
        expre = h.bool("exclusive_precursors") if pre and c.get("flags") else True
        extgt = h.bool("exclusive_targets") if tgt and c.get("flags") else False
        kw = dict(precursors=pre.split() if pre else None, targets=tgt.split() if tgt else None, exclusive_precursors=expre,
                  exclusive_targets=extgt, chunk_size=h.int("chunk_size", *c.get("chunk", (1000, 1000))), quiet=True)
        mu = None
        if grand:
            mu = h.real("mu", -3, 0)
            en = MinimizeGrandPotentialEnumerator(Element(grand), mu, **kw)
        else:
            en = MinimizeGibbsEnumerator(**kw)
        out = list(en.enumerate(s).get_rxns())
    finally:
        for d, k, v in saved:
            d[k] = v
    # every pair within the filters is analysed, with the diagram of exactly its chemical system
    openf = comp(grand).reduced_formula if grand else None
    names = sorted(set(comp(f).reduced_formula for f in forms))
    oe = set(parse(grand)) if grand else set()
    P = {comp(x).reduced_formula for x in pre.split()} if pre else None
    T = {comp(x).reduced_formula for x in tgt.split()} if tgt else None
    for k, pd, plain in calls:
        els = {e for f in k for e in parse(f)} | oe
        inside = {e.entry_id for e in es if set(parse(forms[int(e.entry_id[2:])])) <= els}
        h.check({e.entry_id for e in pd.entries} == inside and len(pd.entries) == len(inside), "diagram-of-the-chemical-system")
        if grand:
            h.check({e.entry_id for e in plain.entries} == inside, "non-grand-diagram-of-the-chemical-system")
            h.check(list(map(str, pd.chempots)) == [grand], "chempots-of-the-diagram")
            h.check_eq(pd.chempots[Element(grand)], mu, "chempots-of-the-diagram:value")
    done = [k for k, _, _ in calls]
    want = []
    for n in (1, 2):
        for k in combinations(names, n):
            if grand and openf in k:
                continue
            els = {e for f in k for e in parse(f)} | oe
            if len(els) < 2:
                continue
            opn = {openf} if grand else set()
            if P is not None and not (set(k) <= P | opn if expre else set(k) & (P | opn)):
                continue
            if P is not None and not set(k) & P:
                continue
            h.check(key(*k) in done, "every-pair-analysed")
            for sp in predicted.get(key(*k), []):
                a, b = sp.split(" > ")
                a, b = a.split(" + "), b.split(" + ")
                dim, v = enum.balance(a, b)
                if v is None or set(a) == set(b):
                    continue
                ra, rb = set(map(lambda f: comp(f).reduced_formula, a)) - opn, set(map(lambda f: comp(f).reduced_formula, b)) - opn
                if P is not None and not (ra <= P | opn if expre else ra & (P | opn)):
                    continue
                if T is not None and not (rb <= T | opn if extgt else rb & (T | opn)):
                    continue
                want.append((key(*k), sp, dict(zip([comp(f).reduced_formula for f in a + b], v))))
    got = []
    for r in out:
        got.append((tuple(sorted(c.reduced_formula for c in r.reactants)), tuple(sorted(c.reduced_formula for c in r.products))))
    sides = lambda sp: tuple(tuple(sorted(comp(f).reduced_formula for f in x.split(" + "))) for x in sp.split(" > "))
    h.check(set(got) == {sides(sp) for _, sp, _ in want}, "exactly-the-predicted-reactions")
    if P is None:  # a pair is analysed once for every choice of polymorphs
        m = lambda f: sum(comp(x).reduced_formula == f for x in forms)
        mult = lambda k: m(k[0]) * m(k[1]) if len(k) == 2 else m(k[0]) * (m(k[0]) + 1) // 2
        for g in set(got):
            h.check(got.count(g) == sum(mult(k) for k, sp, _ in want if sides(sp) == g), "none-lost-or-repeated")
    low = {}
    for k, e in enumerate(es):
        f = comp(forms[k]).reduced_formula
        low.setdefault(f, []).append(e)
    for r, g in zip(out, got):
        w = next(v for _, sp, v in want if sides(sp) == g)
        h.check(type(r).__name__ == ("OpenComputedReaction" if grand else "ComputedReaction"), "kind-of-reaction")
        tot = 0
        f0 = r.entries[0].composition.reduced_formula
        for e, k in zip(r.entries, r.coefficients):
            f = e.composition.reduced_formula
            h.check_eq(float(k) / float(r.coefficients[0]), float(w[f] / w[f0]), "coefficients")
            m = Min([x.energy_per_atom for x in low[f]])
            h.check_eq(e.energy_per_atom, m, "lowest-energy-entries")
            n = natoms(f)
            tot = tot + m * n * float(k)
        if not grand:
            h.check_eq(r.energy, tot, "energy")
        else:
            h.check(list(map(str, r.chempots)) == [grand], "chempots")
            h.check_eq(r.chempots[Element(grand)], mu, "chempots:value")
    h.observe("n", len(out))


A, B, C = "Mn2O3/Y2O3", "Mn3O4/O2", "Li2O/TiO2"
HARNESSES = [
    Harness("minimize", run,
            [dict(set="YMO", chunk=(1, 4), vary=[A]), dict(set="LTO", vary=[C], flags=True, pre=[None, "Li2O TiO2"], tgt=[None, "Li2TiO3", "Li2TiO3 Li4Ti5O12"]),
             dict(set="YMO", vary=[A], flags=True, pre=["Y2O3 Mn2O3", "YMnO3"], tgt=[None, "YMnO3"]),
             dict(set="YMO", vary=[A], open="O", pre=[None, "Y2O3 Mn2O3"])],
            [dict(set="YMO", chunk=(1, 12), vary=[A, "YMnO3"]), dict(set="YMO", chunk=(1, 3), vary=[B, "Mn3O4/Y2O3"]), dict(set="LTO", vary=[C, "Li4Ti5O12", "Li2TiO3/TiO2"], flags=True, pre=[None, "Li2O TiO2"], tgt=[None, "Li2TiO3", "Li2TiO3 Li4Ti5O12"]),
             dict(set="YMO", vary=[A, "YMnO3"], flags=True, pre=["Y2O3 Mn2O3", "YMnO3"], tgt=[None, "YMnO3"]),
             dict(set="YMO", vary=[A, "YMnO3"], open="O", flags=True, pre=[None, "Y2O3 Mn2O3", "YMnO3"], tgt=[None, "YMnO3"]),
             dict(set="LTO", vary=[C], open="O", chunk=(1, 5)), dict(set="YMO", vary=[], chunk=(4, 7), order="any")],
            bounds="2 phase sets of 5-6 phases with a polymorph of either energy order, subsets of the reactions predicted for a pair, closed or open to oxygen at any chemical potential, precursor and target lists, exclusive or not, chunk sizes 1-12, completion orders"),
]
