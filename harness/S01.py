"""A reaction set gives back exactly the reactions it was built from."""
from symx.harness import Harness

from . import sets
from .sets import POOL, coeff_map, match, reaction, same

setup_symbolic = sets.patch_hash
ASSUMPTIONS = ["entries have distinct entry ids"]


def _rxns(h, es, mu=None):
    picks = [h.cfg["first"]] + [h.choice(f"r{i}", range(len(POOL))) for i in range(1, h.cfg["n"])]
    return [reaction(h, es, k, f"t{i}", h.real(f"s{i}", 1 / 128, 32), mu) for i, k in enumerate(picks)]


def build(h):
    from rxn_network.reactions.reaction_set import ReactionSet

    es = sets.entries(h)
    mu = h.real("mu", -20, 5) if h.cfg["open"] else None
    rxns = _rxns(h, es, mu)
    how = h.cfg["how"]
    kw = {}
    if how == "entries":
        kw["entries"] = es
    if how == "explicit" and mu is not None:
        kw.update(open_elem="O", chempot=mu)
    rs = ReactionSet.from_rxns(rxns, **kw)
    match(h, rs, rxns, "from_rxns")
    match(h, rs, rxns, "read-twice", energy=False)
    if how == "dict":
        import json

        back = ReactionSet.from_dict(rs.as_dict())
        match(h, back, rxns, "dictionary-round-trip")
        d = rs.as_dict()
        d["indices"] = {str(k): [list(map(int, r)) for r in v] for k, v in rs.indices.items()}
        d["coeffs"] = {str(k): [list(r) for r in v] for k, v in rs.coeffs.items()}
        d["all_data"] = {str(k): list(v) for k, v in rs.all_data.items()}
        match(h, ReactionSet.from_dict(d), rxns, "dictionary-with-lists-and-string-keys")
    if how == "arrays":
        again = ReactionSet(rs.entries, rs.indices, rs.coeffs, rs.open_elem, rs.chempot, rs.all_data)
        match(h, again, rxns, "constructor")
        nodata = ReactionSet(rs.entries, rs.indices, rs.coeffs, rs.open_elem, rs.chempot)
        got = list(nodata.get_rxns())
        h.check(len(got) == len(rxns) and len(nodata) == len(rxns), "no-data:length")
        for a, b in zip(got, list(rs.get_rxns())):
            for k, v in coeff_map(a).items():
                h.check_eq(v, coeff_map(b)[k], "no-data:coefficients")
            h.check_eq(a.energy, b.energy, "no-data:energy")
    h.observe("e", [r.energy for r in rs])


def vectors(h):
    """coefficients spread over the entry indices."""
    import numpy as np

    es = sets.entries(h, sym=False)
    for i, e in enumerate(es):
        e.data["idx"] = i
    k = h.cfg["first"]
    s = h.real("s", 1 / 128, 32)
    r = reaction(h, es, k, "t", s)
    v = list(r.get_entry_idx_vector(len(es) + 2))
    h.check(len(v) == len(es) + 2, "idx-vector:length")
    want = dict(POOL[k])
    for i, x in enumerate(v):
        h.check_eq(x, want.get(i, 0) * s, "idx-vector:value")


def mixed(h):
    """closed and open sets of nothing, of one reaction, and of reactions sharing no entries."""
    from rxn_network.reactions.reaction_set import ReactionSet

    es = sets.entries(h)
    rs = ReactionSet.from_rxns([], entries=es)
    h.check(len(rs) == 0 and list(rs.get_rxns()) == [], "empty-set")
    for f, w in ((rs.get_rxns_by_product("Mn"), 0), (rs.get_rxns_by_reactants(["Mn"]), 0)):
        h.check(len(list(f)) == w, "empty-set:queries")
    ks = [8, h.choice("k", range(len(POOL)))]
    rxns = [reaction(h, es, k, f"t{i}", h.real(f"s{i}", 1 / 128, 32)) for i, k in enumerate(ks)]
    m = ReactionSet.from_rxns(rxns)
    match(h, m, rxns, "mixed-sizes")
    used = {e.entry_id for r in rxns for e in r.entries}
    h.check({e.entry_id for e in m.entries} == used and len(m.entries) == len(used), "entries-are-the-ones-used")


def mixed_open(h):
    """reactions that do not share one open element at one chemical potential come back closed or as they were"""
    from rxn_network.reactions.reaction_set import ReactionSet

    es = sets.entries(h)
    how = h.cfg["how"]
    mus = [h.real(f"mu{i}", -20, 5) for i in range(2)]
    spec = {"mus": [("O", mus[0]), ("O", mus[1])], "elements": [("O", mus[0]), ("Mn", mus[0])], "closed-too": [("O", mus[0]), None],
            "all": [("O", mus[0]), ("Mn", mus[1])], "three": [("O", mus[0]), ("O", mus[0]), ("O", mus[1])]}[how]
    if how in ("mus", "three"):
        h.assume(mus[0] - mus[1] >= 0.01 if h.bool("first-higher") else mus[1] - mus[0] >= 0.01)
    ks = [h.cfg["first"]] + [h.choice(f"r{i}", (0, 3, 5, 8)) for i in range(1, len(spec))]
    rxns = [reaction(h, es, k, f"t{i}", h.real(f"s{i}", 1 / 128, 32), x[1] if x else None, x[0] if x else "O") for i, (k, x) in enumerate(zip(ks, spec))]
    got = list(ReactionSet.from_rxns(rxns).get_rxns())
    h.check(sorted(g.data["tag"] for g in got) == [f"t{i}" for i in range(len(rxns))], "mixed-open:members")
    for g in got:
        r = rxns[int(g.data["tag"][1:])]
        a, b = coeff_map(g), coeff_map(r)
        h.check(a.keys() == b.keys(), "mixed-open:entries")
        for k in b:
            h.check_eq(a[k], b[k], "mixed-open:coefficient")
        mu = getattr(g, "chempots", None)
        if mu:
            h.check({str(k) for k in mu} == {str(k) for k in getattr(r, "chempots", {})}, "mixed-open:never-another-open-element")
            for k, v in mu.items():
                h.check_eq(v, {str(x): y for x, y in r.chempots.items()}[str(k)], "mixed-open:never-another-chemical-potential")


HARNESSES = [
    Harness("mixed_open", mixed_open, quick=[{"first": f, "how": w} for f, w in ((0, "mus"), (3, "elements"), (5, "closed-too"), (3, "all"), (0, "three"))],
            thorough=[{"first": f, "how": w} for f in (0, 2, 3, 7) for w in ("mus", "elements", "closed-too", "all", "three")],
            bounds="two or three reactions with different open elements or chemical potentials, or closed and open"),
    Harness("build", build,
            quick=[{"first": f, "n": 2, "open": o, "how": w} for f, o, w in (
                (0, 0, "plain"), (8, 0, "plain"), (5, 1, "plain"), (7, 1, "plain"), (2, 0, "dict"), (3, 1, "dict"), (4, 0, "arrays"), (9, 1, "arrays"),
                (6, 0, "entries"), (1, 1, "entries"), (8, 1, "entries"), (0, 1, "explicit"))],
            thorough=[{"first": f, "n": 3, "open": o, "how": w} for f in range(len(POOL)) for o in (0, 1) for w in ("plain", "dict", "arrays", "entries", "explicit")],
            bounds="sequences of 2 (thorough 3) reactions drawn from 10 over 7 entries with a polymorph pair (2-4 phases each), any positive scale in [1/128,32], entry energies in [-300,300], closed or one open element"),
    Harness("vectors", vectors, quick=[{"first": f} for f in range(len(POOL))], bounds="each of the 10 reactions, any scale"),
    Harness("mixed", mixed, quick=[{}], bounds="empty set; two reactions of different size"),
]
