"""A reaction that reports itself balanced conserves every element, with the sides asked for."""
from symx.core import Abs, And, Implies, Not, Or, Sum
from symx.harness import Harness

from .common import BALANCED, comp, conservation, entry, parse, within

TOL = 1e-6

# (reactants, products); feasibility with every phase on its side is decided by the solver
SYSTEMS = [(r, p) for r, p, _ in BALANCED] + [
    (["Li"], ["O2"]),
    (["Li", "O2"], ["Na2O"]),
    (["Li2O"], ["Li", "O2", "Na"]),
    (["Y2O3", "Mn2O3"], ["YMn2O5"]),
    (["C", "O2"], ["CO", "CO2"]),
    (["CO2", "Fe"], ["FeO", "Fe2O3", "CO", "C"]),
    (["BaCO3", "TiO2"], ["BaTiO3", "CO2", "Ba2TiO4"]),
    (["Na2CO3", "SiO2", "CaCO3"], ["Na2SiO3", "CaSiO3", "CO2"]),
    (["FeO", "Fe2O3"], ["Fe3O4", "Fe"]),
    (["H2O2"], ["H2O", "O2"]),
    (["KMnO4", "HCl"], ["KCl", "MnCl2", "H2O", "Cl2"]),
    (["Li2O2"], ["Li2O", "O2"]),
    (["Fe", "O2"], ["FeO", "Fe3O4"]),
    (["Fe2O3"], ["Fe2O3"]),
    (["LiCoO2", "Al2O3"], ["LiAlO2", "Co3O4"]),
    (["Mg", "TiCl4"], ["MgCl2", "Ti"]),
    (["Fe2O3", "Al", "NaCl"], ["Al2O3", "Fe"]),
    (["Y2O3", "Mn2O3"], ["YMnO3", "LiCl"]),
    (["Li", "O2", "Na"], ["Li2O"]),
]


def _rank(rows):
    from symx.npshim import _rref, to_frac

    return len(_rref([[to_frac(v) for v in r] for r in rows])[1])


def flag(h):
    """constructor: `balanced` is equivalent to conservation (up to the tolerance)."""
    from rxn_network.reactions.basic import BasicReaction
    from rxn_network.reactions.computed import ComputedReaction

    r, p, _ = BALANCED[h.cfg["sys"]]
    forms = r + p
    amts = [parse(f) for f in forms]
    cs = []
    for i, f in enumerate(forms):
        c = h.real(f"c{i}", -8, 8)
        h.assume(Or(c >= 0.01, c <= -0.01) if h.cfg["signs"] == "any" else (c <= -0.01 if i < len(r) else c >= 0.01))
        cs.append(c)
    if h.cfg["kind"] == "computed":
        rxn = ComputedReaction([entry(f, 0.0) for f in forms], cs)
    else:
        rxn = BasicReaction([comp(f) for f in forms], cs)
    got = bool(rxn.balanced)
    res = conservation(amts, cs)
    if got:
        h.check(And([within(v, 3 * TOL) for v in res.values()]), "balanced-implies-conservation", Or([Abs(v) >= 0.01 for v in res.values()]))
    else:
        h.check(Or([Abs(v) > TOL / 4 for v in res.values()]), "conservation-implies-balanced", And([v == 0 for v in res.values()]))
    neg = {comp(f) for f, c in zip(forms, cs) if c < 0}
    h.check(set(rxn.reactants) == neg, "reactants-are-the-negative-coefficients")
    h.check(set(rxn.products) == {comp(f) for f in forms} - neg, "products-are-the-positive-coefficients")
    h.observe("balanced", got)


def numbers(h):
    """integers, floats, numpy arrays and tuples are all coefficients."""
    import numpy as np

    from rxn_network.reactions.basic import BasicReaction
    from rxn_network.reactions.computed import ComputedReaction

    r, p, base = BALANCED[h.cfg["sys"]]
    forms = r + p
    k = h.int("k", 1, 3)
    off = h.int("off", 0, 1)
    cs = [int(c) * int(k) for c in base]
    cs[-1] += int(off)
    for form in (list, tuple, np.array, lambda c: [float(x) for x in c], lambda c: np.array(c, dtype=float)):
        a = BasicReaction([comp(f) for f in forms], form(cs))
        b = ComputedReaction([entry(f, 0.0) for f in forms], form(cs))
        for x in (a, b):
            h.check(bool(x.balanced) == (off == 0), "numbers:balanced-flag")
            h.check(len(x.reactants) == len(r) and len(x.products) == len(p), "numbers:sides")
            for got, c in zip(x.coefficients, cs):
                h.check_eq(got, c, "numbers:coefficients")
    n = BasicReaction([comp(f) for f in forms], cs).normalize_to(comp(forms[0]), 0.5)
    h.check_eq(n.get_coeff(comp(forms[0])), -0.5, "numbers:normalize")


def _outcome(h, rxn, amts, nr, tag):
    cs = list(rxn.coefficients)
    h.check(len(cs) == len(amts), f"{tag}:one-coefficient-per-phase")
    res = conservation(amts, cs)
    ok = bool(rxn.balanced) and rxn.lowest_num_errors == 0
    if rxn.balanced:
        h.check(And([within(v, 1e-4) for v in res.values()]), f"{tag}:balanced-implies-conservation")
    if ok:
        for i, c in enumerate(cs):
            h.check(c < -1e-7 if i < nr else c > 1e-7, f"{tag}:no-errors-implies-requested-sides")
    return ok, cs


def catalog(h):
    """balance() on concrete phases; the solver decides whether a solution exists."""
    from rxn_network.reactions.basic import BasicReaction
    from rxn_network.reactions.computed import ComputedReaction

    r, p = SYSTEMS[h.cfg["sys"]]
    forms = r + p
    amts = [parse(f) for f in forms]
    # orders of the phases on each side are part of the input
    if h.cfg.get("perm"):
        r, p = r[::-1], p[::-1]
        forms = r + p
        amts = [parse(f) for f in forms]
    if h.cfg["kind"] == "basic":
        rxn = BasicReaction.balance([comp(f) for f in r], [comp(f) for f in p])
    elif h.cfg["kind"] == "formulas":
        rxn = BasicReaction.from_formulas(r, p)
    else:
        mult = 2 if h.cfg["kind"] == "computed2" else 1
        es = [entry({k: v * mult for k, v in parse(f).items()}, 0.0, eid=f) for f in forms]
        rxn = ComputedReaction.balance(es[: len(r)], es[len(r) :])
    ok, cs = _outcome(h, rxn, amts, len(r), "catalog")
    h.observe("ok", ok)
    h.observe("coeffs", [float(c) for c in cs])
    # symbolic solution vector: does any assignment with the requested sides balance it?
    s = [h.real(f"s{i}", 0.01, 100) for i in range(len(forms))]
    els = sorted({e for a in amts for e in a})
    rows = [[a.get(e, 0) * (-1 if i < len(r) else 1) for i, a in enumerate(amts)] for e in els]
    exists = And([within(Sum([k * x for k, x in zip(row, s) if k]), 1e-9) for row in rows])
    nullity = len(forms) - _rank(rows)
    if not ok:
        if nullity == 1:
            h.check(Not(exists), "catalog:unique-solution-is-found")
    elif nullity == 1:
        # proportional to every exact solution
        k = [c if i >= len(r) else -1 * c for i, c in enumerate(cs)]
        for i in range(1, len(forms)):
            h.check(Implies(exists, within(s[i] * k[0] - s[0] * k[i], 1e-3)), "catalog:solution-is-the-unique-one")


TEMPLATES = {
    # symbolic stoichiometry: amounts are variables
    "binary": (["A", "B"], ["A{a}B{b}"]),
    "decomp": (["A{a}B{b}"], ["A", "B"]),
    "ternary": (["A{a}C{b}", "B{c}C{d}"], ["A{e}B{f}C{g}"]),
    "exchange": (["A{a}X{b}", "B"], ["B{c}X{d}", "A"]),
    "redox": (["A{a}B{b}"], ["A{c}B{d}", "B"]),
}
SUB = {"A": "Li", "B": "Mg", "C": "O", "X": "S"}


def symbolic(h):
    """balance() with symbolic element amounts in the phases."""
    from rxn_network.reactions.basic import BasicReaction

    r, p = TEMPLATES[h.cfg["t"]]
    import re

    vals = {}

    def build(t):
        out = {}
        for el, var in re.findall(r"([A-Z])(?:\{(\w)\})?", t):
            if var:
                if var not in vals:
                    vals[var] = h.real(f"n_{var}", 1, 4)
                out[SUB[el]] = vals[var]
            else:
                out[SUB[el]] = 1
        return out

    amts = [build(t) for t in r + p]
    comps = [comp(a) for a in amts]
    rxn = BasicReaction.balance(comps[: len(r)], comps[len(r) :])
    ok, cs = _outcome(h, rxn, amts, len(r), "symbolic")
    h.observe("ok", ok)
    if h.cfg["t"] in ("binary", "decomp"):
        h.check(ok, "symbolic:solution-is-found")


HARNESSES = [
    Harness(
        "flag",
        flag,
        quick=[{"sys": i, "kind": k, "signs": "sided"} for i in range(len(BALANCED)) for k in ("basic", "computed")]
        + [{"sys": i, "kind": "basic", "signs": "any"} for i in (0, 2, 6)],
        bounds="8 phase sets of 3-6 phases over <= 6 elements; coefficients any reals with 0.01 <= |c| <= 8",
    ),
    Harness("numbers", numbers, quick=[{"sys": i} for i in range(len(BALANCED))], bounds="integer multiples 1-3 of the 8 reactions, balanced or off by one"),
    Harness(
        "catalog",
        catalog,
        quick=[{"sys": i, "kind": k, "perm": s} for i in range(len(SYSTEMS)) for k, s in [("basic", 0), ("basic", 1), ("computed", 0), ("computed2", 1), ("formulas", 0)]],
        bounds="27 phase sets (2-6 phases) in two orders and four entry points; existence and uniqueness of a solution decided over all coefficient vectors with entries in [0.01,100]",
    ),
    Harness(
        "symbolic",
        symbolic,
        quick=[{"t": t} for t in ("binary", "decomp", "redox", "exchange")],
        thorough=[{"t": t} for t in TEMPLATES],
        bounds="4 (thorough 5) reaction templates with up to 7 element amounts as reals in [1,4]; pinv replaced by the least-squares contract",
    ),
]
