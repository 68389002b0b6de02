"""Queries by product / by reactants return exactly the matching reactions."""
from symx.harness import Harness

from . import sets
from .sets import FORMS, POOL, reaction, same

setup_symbolic = sets.patch_hash


def _set(h, mu=None):
    from rxn_network.reactions.reaction_set import ReactionSet

    es = sets.entries(h, sym=False)
    picks = list(h.cfg["base"]) + [h.choice(f"r{i}", range(len(POOL))) for i in range(h.cfg["n"])]
    rxns = [reaction(h, es, k, f"t{i}", h.real(f"s{i}", 1 / 1024, 16), mu) for i, k in enumerate(picks)]
    return ReactionSet.from_rxns(rxns), rxns, picks


def _check(h, got, want, rxns, label):
    got = list(got)
    names = [r.data["tag"] for r in rxns]
    tags = [g.data["tag"] for g in got]
    h.check(sorted(tags) == sorted(names[i] for i in want), label + ":exactly-the-matching-reactions")
    for t, g in zip(tags, got):
        same(h, g, rxns[names.index(t)], label + ":unchanged")


def _as_set(h, x, label):
    from rxn_network.reactions.reaction_set import ReactionSet

    h.check(isinstance(x, ReactionSet), label + ":is-a-reaction-set")
    return x.get_rxns()


def by_product(h):
    mu = h.real("mu", -20, 5) if h.cfg.get("open") else None
    rs, rxns, picks = _set(h, mu)
    f = h.cfg["formula"]
    want = [i for i, k in enumerate(picks) if any(c > 0 and FORMS[j] == h.cfg.get("reduced", f) for j, c in POOL[k])]
    _check(h, rs.get_rxns_by_product(f), want, rxns, "by-product")
    _check(h, _as_set(h, rs.get_rxns_by_product(f, return_set=True), "by-product"), want, rxns, "by-product-set")
    h.observe("n", len(want))


def by_reactants(h):
    mu = h.real("mu", -20, 5) if h.cfg.get("open") else None
    rs, rxns, picks = _set(h, mu)
    fs = list(h.cfg["formulas"])
    red = set(h.cfg.get("reduced", fs))
    want = [i for i, k in enumerate(picks) if all(FORMS[j] in red for j, c in POOL[k] if c < 0)]
    _check(h, rs.get_rxns_by_reactants(fs), want, rxns, "by-reactants")
    _check(h, _as_set(h, rs.get_rxns_by_reactants(fs, return_set=True), "by-reactants"), want, rxns, "by-reactants-set")
    h.observe("n", len(want))


P = [{"formula": f} for f in ("Mn2O3", "Mn3O4", "Y2O3", "YMnO3", "O2", "Mn", "BaO")] + [{"formula": "Y2Mn2O6", "reduced": "YMnO3"}]
R = [{"formulas": f} for f in (["Y2O3", "Mn2O3"], ["YMnO3"], ["Mn2O3"], ["Mn", "O2"], ["Mn", "O2", "Y2O3"], ["BaO"], ["O2", "Mn2O3", "Mn3O4", "Y2O3", "YMnO3", "Mn"])] + [
    {"formulas": ["Y4O6", "Mn4O6"], "reduced": ["Y2O3", "Mn2O3"]}]
BASES = [[0, 1], [5], [8], [7, 2], []]

HARNESSES = [
    Harness("by_product", by_product, quick=[dict(p, base=BASES[i % 4], n=1, open=i % 2) for i, p in enumerate(P)] + [dict(P[3], base=[], n=2), dict(P[0], base=[3], n=1)],
            thorough=[dict(p, base=b, n=2, open=o) for p in P for b in BASES for o in (0, 1)],
            bounds="sets of 2-3 (thorough 4) reactions from 10 over 7 entries incl. a polymorph pair and the first entry; 8 product formulas; scales in [0.001,16]"),
    Harness("by_reactants", by_reactants, quick=[dict(p, base=BASES[i % 4], n=1, open=i % 2) for i, p in enumerate(R)] + [dict(R[0], base=[], n=2)],
            thorough=[dict(p, base=b, n=2, open=o) for p in R for b in BASES for o in (0, 1)],
            bounds="as above; 8 lists of reactants"),
]
