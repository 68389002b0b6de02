"""Pathways and pathway sets: aggregate values, equality, and storage as index lists."""
from symx.core import Abs, And, Not, Or, Sum
from symx.harness import Harness

from . import paths as P
from . import sets
from .common import comp, entry

setup_symbolic = sets.patch_hash
ASSUMPTIONS = ["multiplicities and costs either agree or differ by at least 0.01 when pathways are compared"]


def _rxns(h, scale=True):
    from rxn_network.reactions.computed import ComputedReaction

    forms, pool = P.SYSTEMS[h.cfg["sys"]]
    es = [entry(f, h.real(f"e{i}", -300, 300), eid=f"id{i}") for i, f in enumerate(forms)]
    out = []
    for n, i in enumerate(h.cfg["rxns"]):
        s = h.real(f"s{n}", 1 / 128, 32) if scale else 1
        r = pool[i]
        ks = sorted(r) if n % 2 == 0 else sorted(r)[::-1]
        out.append(ComputedReaction([es[k] for k in ks], [r[k] * s for k in ks]))
    return forms, pool, es, out


def _path(h, rxns, p, tag):
    from rxn_network.pathways.balanced import BalancedPathway
    from rxn_network.pathways.basic import BasicPathway

    kind, idx = p
    costs = [h.real(f"{tag}c{i}", 0, 40) for i in range(len(idx))]
    rs = [rxns[i] for i in idx]
    if kind == "basic":
        return BasicPathway(rs, costs), costs, None
    ms = [h.real(f"{tag}m{i}", 1 / 128, 32) for i in range(len(idx))]
    return BalancedPathway(rs, ms, costs, balanced=kind == "balanced"), costs, ms


def _same(h, got, want, costs, ms, label):
    h.check(type(got) is type(want), label + ":kind-of-pathway")
    h.check(len(got.reactions) == len(want.reactions), label + ":number-of-steps")
    for a, b in zip(got.reactions, want.reactions):
        h.check([e.entry_id for e in a.entries] == [e.entry_id for e in b.entries], label + ":phases-of-step")
        for x, y in zip(a.coefficients, b.coefficients):
            h.check_eq(x, y, label + ":step-coefficients")
        h.check_eq(a.energy, b.energy, label + ":step-energy")
    h.check(len(got.costs) == len(costs), label + ":number-of-costs")
    for a, b in zip(got.costs, costs):
        h.check_eq(a, b, label + ":costs")
    if ms is not None:
        for a, b in zip(got.coefficients, ms):
            h.check_eq(a, b, label + ":multiplicities")
        h.check(len(got.coefficients) == len(ms), label + ":number-of-multiplicities")
        h.check(bool(got.balanced) == bool(want.balanced), label + ":balanced-flag")


def roundtrip(h):
    from rxn_network.pathways.pathway_set import PathwaySet

    forms, pool, es, rxns = _rxns(h)
    # different steps of the pool are recognisably different
    made = [_path(h, rxns, p, f"p{i}") for i, p in enumerate(h.cfg["paths"])]
    ps = PathwaySet.from_paths([m[0] for m in made])
    h.check(len(ps) == len(made) and len(list(ps)) == len(made) and len(ps.paths) == len(made), "set:one-pathway-each")
    for got, (p, c, m) in zip(ps, made):
        _same(h, got, p, c, m, "set")
    for got, (p, c, m) in zip(PathwaySet.from_dict(ps.as_dict()).paths, made):
        _same(h, got, p, c, m, "dictionary-round-trip")
    again = PathwaySet.from_paths(ps.paths)
    for got, (p, c, m) in zip(again.paths, made):
        _same(h, got, p, c, m, "set-of-a-set")
    h.observe("n", len(ps))


def values(h):
    forms, pool, es, rxns = _rxns(h, scale=False)
    sc = [h.real(f"k{i}", 0.5, 2) for i in range(len(rxns))]
    p, costs, ms = _path(h, rxns, (h.cfg["kind"], range(len(rxns))), "p")
    rs = [pool[i] for i in h.cfg["rxns"]]
    rea = {k for r in rs for k, c in r.items() if c < 0}
    pro = {k for r in rs for k, c in r.items() if c > 0}
    cs = lambda ks: {comp(forms[k]) for k in ks}
    h.check(set(p.all_reactants) == cs(rea) and set(p.all_products) == cs(pro), "all-reactants-and-products")
    h.check(set(p.reactants) == cs(rea - pro), "net-reactants-are-never-made")
    h.check(set(p.products) == cs(pro - rea), "net-products-are-never-used")
    h.check(set(p.intermediates) == cs(rea & pro), "intermediates-are-made-and-used")
    h.check(set(p.compositions) == cs(rea | pro) and len(p.compositions) == len(rea | pro), "compositions")
    h.check({e.entry_id for e in p.entries} == {f"id{k}" for k in rea | pro}, "entries")
    h.check_eq(p.energy, Sum([r.energy for r in rxns]), "energy-is-the-sum")
    h.check_eq(p.energy_per_atom, Sum([r.energy_per_atom for r in rxns]), "energy-per-atom-is-the-sum")
    h.check_eq(p.total_cost, Sum(costs), "total-cost")
    if ms is not None:
        h.check_eq(p.average_cost * Sum(ms), Sum([m * c for m, c in zip(ms, costs)]), "average-cost-is-weighted-by-multiplicity")
        cm = p.get_comp_matrix()
        order = [forms.index(next(f for f in forms if comp(f) == c)) for c in p.compositions]
        h.check(len(cm) == len(rs), "comp-matrix:rows")
        for row, r, rx in zip(cm, rs, rxns):
            h.check(len(row) == len(order), "comp-matrix:columns")
            for v, w, k in zip(row, p.get_coeff_vector_for_rxn(rx), order):
                h.check_eq(v, r.get(k, 0), "comp-matrix:coefficient")
                h.check_eq(w, r.get(k, 0), "coefficient-vector")
    h.observe("e", p.energy)


def equality(h):
    """equal pathways: same steps, multiplicities and costs (as appropriate); and they hash alike"""
    forms, pool, es, rxns = _rxns(h, scale=False)
    a, ca, ma = _path(h, rxns, h.cfg["a"], "a")
    b, cb, mb = _path(h, rxns, h.cfg["b"], "b")
    steps = list(h.cfg["a"][1]) == list(h.cfg["b"][1])
    vals = [(x, y) for u, v in ((ma, mb), (ca if ma is not None else None, cb if ma is not None else None)) if u and v for x, y in zip(u, v)] if steps else []
    for x, y in vals:
        h.assume(Or(x == y, Abs(x - y) >= 0.01))
    want = steps and h.cfg["a"][0][:2] == h.cfg["b"][0][:2] and bool(And([x == y for x, y in vals] or [True]))
    got = bool(a == b)
    h.check(got == want, "equal-iff-same-steps-multiplicities-and-costs")
    h.check(bool(b == a) == got, "symmetric")
    h.check(bool(a == a), "reflexive")
    h.check(len({a, b}) == (1 if want else 2), "set-keeps-the-different-ones")
    if got:
        h.check(hash(a) == hash(b), "equal-pathways-hash-equal")
    h.observe("eq", got)


HARNESSES = [
    Harness("roundtrip", roundtrip, quick=[
        {"sys": "CO", "rxns": [0, 1, 2], "paths": [("basic", [0, 1]), ("basic", [2]), ("basic", [1, 0])]},
        {"sys": "CO", "rxns": [0, 1, 3], "paths": [("balanced", [0, 1]), ("unbalanced", [2, 0]), ("balanced", [1])]},
        {"sys": "FeO", "rxns": [0, 1, 2, 3], "paths": [("basic", [3]), ("balanced", [0, 1, 2]), ("basic", [1, 2]), ("unbalanced", [3])]},
        {"sys": "BTO", "rxns": [4, 2, 0], "paths": [("balanced", [2, 0, 1]), ("balanced", [1, 2])]},
        {"sys": "YMO", "rxns": [0, 3, 4], "paths": [("balanced", [0, 1, 2]), ("basic", [0, 1, 2]), ("basic", [])]},
    ], thorough=[{"sys": s, "rxns": r, "paths": p} for s in ("CO", "FeO", "BTO", "YMO") for r in ([0, 1, 2], [4, 2, 0], [3, 1, 4])
                 for p in ([("basic", [0, 1]), ("balanced", [2, 0])], [("balanced", [0, 1, 2]), ("unbalanced", [0, 1, 2])], [("unbalanced", [1]), ("basic", [1]), ("balanced", [1])])],
        bounds="sets of 2-4 basic, balanced and unbalanced pathways of 0-3 steps sharing reactions; all reaction scales, entry energies, multiplicities and costs symbolic"),
    Harness("values", values, quick=[{"sys": s, "rxns": r, "kind": k} for s, r, k in (
        ("CO", [0, 1], "balanced"), ("CO", [3, 2, 1], "basic"), ("YMO", [0, 1, 2], "balanced"), ("YMO", [0, 3, 4], "unbalanced"), ("FeO", [0, 1, 2, 4], "balanced"), ("BTO", [0, 4, 3], "basic"), ("BTO", [2], "balanced"))],
        bounds="seven pathways of 1-4 steps; energies, multiplicities and costs symbolic"),
    Harness("equality", equality, quick=[{"sys": "CO", "rxns": [0, 1, 2], "a": a, "b": b} for a, b in (
        (("basic", [0, 1]), ("basic", [0, 1])), (("basic", [0, 1]), ("basic", [0, 1, 2])), (("basic", [0, 1]), ("basic", [0, 2])), (("basic", []), ("basic", [0])),
        (("balanced", [0, 1]), ("balanced", [0, 1])), (("balanced", [0, 1, 2]), ("balanced", [0, 1])), (("balanced", [0]), ("balanced", [1])))],
        bounds="pairs of pathways of 0-3 steps; multiplicities and costs symbolic"),
]
