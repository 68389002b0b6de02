"""Duplicate filtering keeps exactly one of every family of positive multiples."""
import numpy as np

from symx.core import Abs, And, Not, Or, Sum
from symx.fakeray import RAY
from symx.harness import Harness

from . import sets
from .common import comp, entry
from .sets import POOL, coeff_map, reaction, same

setup_symbolic = sets.patch_hash
ASSUMPTIONS = ["no zero coefficients; scales either equal up to a factor exactly or coefficient ratios at least 1% apart (comparison tolerance excluded)"]


def _cross(a, b):
    """a and b (dicts over the same entries) are proportional: exact / clearly not."""
    ks = sorted(a)
    p = ks[0]
    return And([a[k] * b[p] == b[k] * a[p] for k in ks[1:]] or [True])


def _judge(h, rs, out, rxns, prop, ensured, tag):
    """prop[i][j]: bool, reactions i and j are positive multiples."""
    got = list(out.get_rxns())
    tags = [g.data["tag"] for g in got]
    h.check(len(set(tags)) == len(tags) and len(out) == len(got), tag + ":no-member-twice")
    names = [r.data["tag"] for r in rxns]
    h.check(set(tags) <= set(names), tag + ":members-come-from-the-input")
    for t, g in zip(tags, got):
        same(h, g, rxns[names.index(t)], tag + ":member-unchanged", energy=False)
    kept = [names.index(t) for t in tags]

    def ident(i, j):
        """listed identically: the same phases in the same order with the same coefficients"""
        a, b = rxns[i], rxns[j]
        return i == j or ([e.entry_id for e in a.entries] == [e.entry_id for e in b.entries]
                          and bool(And([x == y for x, y in zip(a.coefficients, b.coefficients)])))

    for i in range(len(rxns)):
        h.check(any(prop[i][j] for j in kept), tag + ":every-reaction-has-a-kept-multiple")
        if i in ensured:
            h.check(any(ident(i, j) for j in kept), tag + ":ensured-reaction-kept")
    for x in range(len(kept)):
        for y in range(x):
            i, j = kept[x], kept[y]
            if prop[i][j]:
                h.check(all(any(ident(k, e) for e in ensured) for k in (i, j)), tag + ":no-two-multiples-kept")
    h.check(len(rs) == len(rxns), tag + ":input-set-unchanged")


def _run(h, rxns, prop, ensured):
    from rxn_network.reactions.reaction_set import ReactionSet

    rs = ReactionSet.from_rxns(rxns)
    ens = [r for r in rs.get_rxns() if r.data["tag"] in {rxns[i].data["tag"] for i in ensured}] or None
    par = h.cfg["par"]
    if par:
        RAY.cpus = h.cfg["cpus"]
        RAY.order = h.cfg.get("order", "fifo")
    out = rs.filter_duplicates(ensure_rxns=ens, parallelize=bool(par))
    _judge(h, rs, out, rxns, prop, ensured, "filter")
    if not ens:
        auto = ReactionSet.from_rxns(rxns, filter_duplicates=True)
        _judge(h, rs, auto, rxns, prop, ensured, "from_rxns-filter")
    h.observe("n", len(out))


def pool(h):
    """reactions over several entry sets; scales are symbolic, membership is concrete."""
    es = sets.entries(h, sym=False)
    picks = [h.cfg["first"]] + [h.choice(f"r{i}", h.cfg.get("from", range(len(POOL)))) for i in range(1, h.cfg["n"])]
    rxns = [reaction(h, es, k, f"t{i}", h.real(f"s{i}", 1 / 128, 32)) for i, k in enumerate(picks)]
    key = [frozenset(POOL[k]) for k in picks]
    key = [key[i] for i in range(len(key))]
    prop = [[key[i] == key[j] for j in range(len(picks))] for i in range(len(picks))]
    n = h.cfg["n"]
    ensured = {i for i in range(n) if i in h.cfg.get("ensure", [])}
    _run(h, rxns, prop, ensured)


def family(h):
    """several reactions over the same phases: multiples or not is decided by the solver."""
    from rxn_network.reactions.computed import ComputedReaction

    es = [entry(f, -1.0 * i, eid=f"id{i}") for i, f in enumerate(("C", "O2", "CO", "CO2"))]
    rxns, cms, ab = [], [], []
    for i in range(h.cfg["n"]):
        # 0: fixed; odd: free ratio; even: free scale
        a, b = (1, 1) if i % 2 == 0 else (h.real(f"a{i}", 1 / 128, 32), 2)
        k = h.real(f"k{i}", 1 / 128, 32) if i and i % 2 == 0 else 1
        ab.append((a, b))
        cs = [k * (-2 * a - b), k * (-1 * a - b), k * 2 * a, k * b]
        if i in h.cfg.get("neg", []):
            cs = [-1 * c for c in cs]
        order = [0, 1, 2, 3] if i % 2 == 0 else [3, 2, 1, 0]
        rxns.append(ComputedReaction([es[j] for j in order], [cs[j] for j in order], data={"tag": f"t{i}"}))
        cms.append(cs)
    n = len(rxns)
    prop = [[True] * n for _ in range(n)]
    sgn = [i in h.cfg.get("neg", []) for i in range(n)]
    for i in range(n):
        for j in range(i):
            if sgn[i] != sgn[j]:
                prop[i][j] = prop[j][i] = False
                continue
            d = ab[i][0] * ab[j][1] - ab[j][0] * ab[i][1]
            h.assume(Or(d == 0, Abs(d) >= 0.01))
            prop[i][j] = prop[j][i] = bool(d == 0)  # same ratio a/b
    _run(h, rxns, prop, set(h.cfg.get("ensure", [])))


HARNESSES = [
    Harness("pool", pool,
            quick=[{"first": f, "n": 3, "par": p, "cpus": c, "order": o, "ensure": e, "from": q} for f, p, c, o, e, q in (
                (0, 0, 0, "", [], (0, 2, 6, 3)), (2, 1, 4, "fifo", [], (0, 2, 4, 7)), (8, 1, 2, "lifo", [], (8, 3, 4)), (6, 1, 1, "fifo", [], (0, 6, 1)),
                (0, 0, 0, "", [0], (0, 6, 2)), (6, 1, 3, "fifo", [1], (0, 6, 5)), (3, 0, 0, "", [0, 2], (3, 4)), (7, 1, 3, "lifo", [2], (7, 9)))],
            thorough=[{"first": f, "n": 3, "par": p, "cpus": c, "order": o, "ensure": e} for f in range(len(POOL)) for p, c, o in ((0, 0, ""), (1, 4, "fifo"), (1, 2, "lifo"), (1, 1, "fifo")) for e in ([], [0], [2], [0, 1])],
            bounds="3 reactions drawn from 10 over shared entries, any positive scales in [1/128,32]; serial and parallel with 1-4 cpus, two completion orders; with and without ensured reactions"),
    Harness("family", family,
            quick=[{"n": 3, "neg": g, "par": p, "cpus": c, "ensure": e} for g, p, c, e in (([], 0, 0, []), ([], 1, 2, []), ([1], 0, 0, []), ([], 0, 0, [0]), ([], 1, 4, [2]), ([], 0, 0, [1, 2]), ([0, 2], 1, 3, [1]))],
            thorough=[{"n": n, "neg": g, "par": p, "cpus": c, "ensure": e} for n in (3, 4) for g in ([], [1], [0, 2]) for p, c in ((0, 0), (1, 2), (1, 4)) for e in ([], [0], [1, 2], [0, 1, 2])],
            bounds="3 (thorough 4) reactions over the same four phases with free stoichiometric parameters and scales in [1/128,32], listed in either phase order, forward and reversed"),
]
