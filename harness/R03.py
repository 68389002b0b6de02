"""Reversing, copying and rescaling a reaction: same chemistry, stated coefficients."""
from symx.core import And, Implies, Not, Or, Sum
from symx.harness import Harness

from .common import BALANCED, comp, entry, parse, rxn_objects

# two-parameter families: (reactants, products, base vectors)
FAMILIES = [(r, p, [c]) for r, p, c in BALANCED] + [
    (["H2CO3", "CaCO3"], ["H2O", "CaO", "CO2"], [[-1, 0, 1, 0, 1], [0, -1, 0, 1, 1]]),
    (["C", "O2"], ["CO", "CO2"], [[-2, -1, 2, 0], [-1, -1, 0, 1]]),
    (["Fe", "O2"], ["FeO", "Fe2O3"], [[-2, -1, 2, 0], [-4, -3, 0, 2]]),
    (["C", "O2", "CaO"], ["CaCO3"], [[-1, -1, -1, 1]]),
    (["Fe", "O2"], ["FeO", "Fe2O3", "Fe3O4"], [[-3, -2, 0, 0, 1], [-3, -2, 1, 1, 0]]),
]


def make(h):
    r, p, base = FAMILIES[h.cfg["sys"]]
    forms = r + p
    ks = [h.real(f"k{i}", 1 / 512, 16) for i in range(len(base))]
    cs = [Sum([k * b[i] for k, b in zip(ks, base) if b[i]]) for i in range(len(forms))]
    if h.cfg.get("rev"):
        cs = [-1 * c for c in cs]
    rxn, es = rxn_objects(h, h.cfg["kind"], forms, cs)
    return forms, cs, rxn


def same_coeffs(h, rxn, forms, want, label):
    got = list(rxn.coefficients)
    comps = list(rxn.compositions)
    h.check(len(got) == len(forms), label + ":number-of-phases")
    for f, w in zip(forms, want):
        i = [k for k, c in enumerate(comps) if c == comp(f)]
        h.check(len(i) == 1, label + ":phase-kept")
        h.check_eq(got[i[0]], w, label + ":coefficient")
        h.check_eq(rxn.get_coeff(comp(f)), w, label + ":get_coeff")


def sides(h, rxn, forms, cs, label):
    neg = {comp(f) for f, c in zip(forms, cs) if c < 0}
    pos = {comp(f) for f, c in zip(forms, cs) if c > 0}
    h.check(set(rxn.reactants) == neg and len(rxn.reactants) == len(neg), label + ":reactants")
    h.check(set(rxn.products) == pos and len(rxn.products) == len(pos), label + ":products")
    for c, v in rxn.reactant_coeffs.items():
        h.check_eq(v, cs[[comp(f) for f in forms].index(c)], label + ":reactant-coeff")
    for c, v in rxn.product_coeffs.items():
        h.check_eq(v, cs[[comp(f) for f in forms].index(c)], label + ":product-coeff")
    if hasattr(rxn, "reactant_entries"):
        h.check({e.composition.reduced_composition for e in rxn.reactant_entries} == neg, label + ":reactant-entries")
        h.check({e.composition.reduced_composition for e in rxn.product_entries} == pos, label + ":product-entries")


def amounts(forms, cs, el):
    return Sum([c * parse(f)[el] for f, c in zip(forms, cs) if el in parse(f) and c > 0])


def reverse_copy(h):
    forms, cs, rxn = make(h)
    computed = h.cfg["kind"] != "basic"
    e0 = rxn.energy if computed else None
    a0 = rxn.energy_per_atom if computed else None
    rev = rxn.reverse()
    h.check(type(rev) is type(rxn), "reverse:type")
    same_coeffs(h, rev, forms, [-1 * c for c in cs], "reverse")
    sides(h, rev, forms, [-1 * c for c in cs], "reverse")
    h.check(bool(rev.balanced), "reverse:balanced")
    back = rev.reverse()
    same_coeffs(h, back, forms, cs, "reverse-twice")
    h.check(back == rxn, "reverse-twice:equal")
    cp = rxn.copy()
    h.check(type(cp) is type(rxn), "copy:type")
    same_coeffs(h, cp, forms, cs, "copy")
    sides(h, cp, forms, cs, "copy")
    h.check(cp == rxn and rxn == cp, "copy:equal")
    if computed:
        h.check_eq(rev.energy, -1 * e0, "reverse:energy")
        h.check_eq(rev.energy_per_atom, -1 * a0, "reverse:energy-per-atom")
        h.check_eq(cp.energy, e0, "copy:energy")
        h.check_eq(cp.energy_per_atom, a0, "copy:energy-per-atom")
    # the original is not affected, also when a derived object is modified in place
    cp.coefficients[0] = cp.coefficients[0] * 3
    rev.coefficients[0] = rev.coefficients[0] * 3
    same_coeffs(h, rxn, forms, cs, "original-unchanged")
    sides(h, rxn, forms, cs, "original-unchanged")
    h.check(not bool(rxn.is_identity), "not-identity")
    h.observe("coeffs", list(back.coefficients))


def normalize(h):
    forms, cs, rxn = make(h)
    computed = h.cfg["kind"] != "basic"
    f = h.real("factor", 1 / 64, 64)
    i = h.cfg["idx"] % len(forms)
    n = rxn.normalize_to(comp(forms[i]), f)
    sc = f / (cs[i] if cs[i] > 0 else -1 * cs[i])
    same_coeffs(h, n, forms, [c * sc for c in cs], "normalize_to")
    sides(h, n, forms, [c * sc for c in cs], "normalize_to")
    same_coeffs(h, rxn, forms, cs, "normalize_to:original")
    one = rxn.normalize_to(comp(forms[i]))
    h.check_eq(one.get_coeff(comp(forms[i])), 1 if cs[i] > 0 else -1, "normalize_to:default-is-one")
    h.check(bool(n.balanced), "normalize_to:balanced")
    from pymatgen.core.periodic_table import Element

    els = sorted({e for x in forms for e in parse(x)})
    el = els[h.cfg["idx"] % len(els)]
    g = rxn.normalize_to_element(Element(el), f)
    am = amounts(forms, cs, el)
    h.check_eq(rxn.get_el_amount(Element(el)), am, "get_el_amount")
    h.check_eq(g.get_el_amount(Element(el)), f, "normalize_to_element:amount")
    for j in range(len(forms)):
        h.check_eq(g.get_coeff(comp(forms[j])) * am, cs[j] * f, "normalize_to_element:coefficients")
    same_coeffs(h, rxn, forms, cs, "normalize_to_element:original")
    if computed:
        h.check_eq(n.energy * (cs[i] if cs[i] > 0 else -1 * cs[i]), rxn.energy * f, "normalize_to:energy-scales")
        h.check_eq(g.energy * am, rxn.energy * f, "normalize_to_element:energy-scales")
        h.check_eq(n.energy_per_atom, rxn.energy_per_atom, "normalize_to:energy-per-atom-invariant")
        h.check_eq(g.energy_per_atom, rxn.energy_per_atom, "normalize_to_element:energy-per-atom-invariant")
    h.observe("coeffs", list(n.coefficients))


def fractions(h):
    forms, cs, rxn = make(h)
    tot = Sum([c * sum(parse(f).values()) for f, c in zip(forms, cs) if c > 0])
    h.check_eq(rxn.num_atoms, tot, "num-atoms")
    mt = {1: Sum([c for c in cs if c > 0]), -1: Sum([-1 * c for c in cs if c < 0])}
    for sgn, af, mf in (
        (-1, rxn.reactant_atomic_fractions, rxn.reactant_molar_fractions),
        (1, rxn.product_atomic_fractions, rxn.product_molar_fractions),
    ):
        side = [(f, c * sgn) for f, c in zip(forms, cs) if (c < 0 if sgn < 0 else c > 0)]
        h.check(len(af) == len(side) and len(mf) == len(side), "fractions:one-per-phase")
        h.check_eq(Sum(list(af.values())), 1, "atomic-fractions-sum-to-one")
        h.check_eq(Sum(list(mf.values())), 1, "molar-fractions-sum-to-one")
        for f, c in side:
            h.check_eq(af[comp(f)] * tot, c * sum(parse(f).values()), "atomic-fraction")
            h.check_eq(mf[comp(f)] * mt[sgn], c, "molar-fraction")


def _cfgs(kinds, **kw):
    out = [{}]
    for k, vals in {"sys": range(len(FAMILIES)), "kind": kinds, **kw}.items():
        out = [dict(d, **{k: v}) for d in out for v in vals]
    return out


HARNESSES = [
    Harness("reverse_copy", reverse_copy, quick=_cfgs(("basic", "computed", "open"), rev=(0, 1)),
            bounds="13 balanced phase sets (one- and two-parameter families), all positive parameters in [1/512,16], energies in [-300,300], chempots in [-20,20]"),
    Harness("normalize", normalize,
            quick=[c for c in _cfgs(("basic", "computed", "open"), idx=(0, 1, 2), rev=(0,)) if (c["sys"] + c["idx"]) % 2 == 0],
            thorough=_cfgs(("basic", "computed", "open"), idx=(0, 1, 2, 3, 4), rev=(0, 1)),
            bounds="as above with any positive factor in [1/64,64]; normalised to each phase and each element"),
    Harness("fractions", fractions, quick=_cfgs(("basic", "computed"), rev=(0, 1)), bounds="as above"),
]
