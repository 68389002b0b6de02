"""Adding reactions or sets is the multiset union; the operands do not change."""
from symx.harness import Harness

from . import sets
from .sets import POOL, match, reaction

setup_symbolic = sets.patch_hash


def union(h):
    from rxn_network.reactions.reaction_set import ReactionSet

    es = sets.entries(h)
    mu = h.real("mu", -20, 5) if h.cfg["open"] else None
    n1, n2 = h.cfg["n"]
    k1 = [h.choice(f"a{i}", h.cfg["pool"]) for i in range(n1)]
    k2 = [h.choice(f"b{i}", h.cfg["pool"]) for i in range(n2)]
    A = [reaction(h, es, k, f"a{i}", h.real(f"s{i}", 1 / 128, 32), mu) for i, k in enumerate(k1)]
    B = [reaction(h, es, k, f"b{i}", h.real(f"u{i}", 1 / 128, 32), mu) for i, k in enumerate(k2)]
    ra = ReactionSet.from_rxns(A, entries=es, open_elem="O" if mu is not None else None, chempot=mu if mu is not None else 0.0)
    rb = ReactionSet.from_rxns(B, entries=es, open_elem="O" if mu is not None else None, chempot=mu if mu is not None else 0.0)
    out = ra.add_rxns(B) if h.cfg["how"] == "rxns" else ra.add_rxn_set(rb)
    match(h, out, A + B, "union")
    match(h, ra, A, "left-operand-unchanged", energy=False)
    match(h, rb, B, "right-operand-unchanged", energy=False)
    if h.cfg["how"] == "chain":
        C = [reaction(h, es, 9, "c0", h.real("v", 1 / 128, 32), mu)]
        match(h, out.add_rxns(C), A + B + C, "chained-union", energy=False)
        match(h, out, A + B, "union-unchanged", energy=False)
    h.observe("n", len(out))


def mismatch(h):
    """sets over different entries cannot be combined silently."""
    from rxn_network.reactions.reaction_set import ReactionSet

    es = sets.entries(h, sym=False)
    drop = h.choice("drop", range(len(es)))
    s = h.real("s", 1 / 128, 32)
    fit = [k for k in range(len(POOL)) if drop not in [j for j, _ in POOL[k]]]
    k = h.choice("k", fit)
    ra = ReactionSet.from_rxns([reaction(h, es, k, "a", s)], entries=es)
    rb = ReactionSet.from_rxns([reaction(h, es, k, "b", s)], entries=[e for i, e in enumerate(es) if i != drop])
    try:
        ra.add_rxn_set(rb)
        h.check(False, "different-entries-are-rejected")
    except ValueError:
        h.check(True, "different-entries-are-rejected")


def order(h):
    """the same entries listed in another order: still the same entries"""
    from pymatgen.entries.computed_entries import ComputedEntry

    from rxn_network.reactions.reaction_set import ReactionSet

    class Entry(ComputedEntry):
        """entries of one formula collide in hash tables, as any two entries may"""

        def __hash__(self):
            return hash(self.composition.reduced_formula)

    es = [Entry(e.composition, e.energy, entry_id=e.entry_id, data=e.data) for e in sets.entries(h)]
    perm = h.choice("order", h.cfg["orders"])
    ka, kb = h.choice("a", h.cfg["pool"]), h.choice("b", h.cfg["pool"])
    a, b = reaction(h, es, ka, "a", h.real("s", 1 / 128, 32)), reaction(h, es, kb, "b", h.real("u", 0.25, 4))
    ra = ReactionSet.from_rxns([a], entries=es)
    rb = ReactionSet.from_rxns([b], entries=[es[i] for i in perm])
    match(h, ra.add_rxn_set(rb), [a, b], "union", energy=False)
    match(h, rb.add_rxn_set(ra), [a, b], "union-reversed", energy=False)


HARNESSES = [
    Harness("order", order, quick=[{"orders": [[6, 5, 4, 3, 2, 1, 0], [0, 1, 2, 4, 3, 5, 6], [3, 6, 4, 0, 1, 5, 2], [4, 2, 0, 6, 1, 3, 5]], "pool": [0, 1, 5, 7, 8]}],
            bounds="seven entries with polymorphs that collide in hash tables, listed in four orders; every pair of five reactions"),
    Harness("union", union,
            quick=[{"n": n, "open": o, "how": w, "pool": p} for n, o, w, p in (
                ((1, 1), 0, "rxns", list(range(10))), ((1, 1), 1, "set", list(range(10))), ((2, 1), 0, "set", (0, 5, 7)), ((1, 2), 1, "rxns", (1, 3, 8)), ((0, 1), 0, "set", list(range(10))), ((1, 0), 0, "set", list(range(10))), ((1, 1), 0, "chain", (0, 4, 7, 8)))],
            thorough=[{"n": n, "open": o, "how": w, "pool": list(list(range(10))) if sum(n) < 3 else [0, 1, 3, 5, 7, 8]} for n in ((1, 1), (2, 1), (1, 2), (0, 2), (2, 0)) for o in (0, 1) for w in ("rxns", "set", "chain") if not (w == "rxns" and n[1] == 0)],
            bounds="operands of 0-2 reactions drawn from 10 over 7 shared entries, all energies, scales and the chempot symbolic"),
    Harness("mismatch", mismatch, quick=[{}], bounds="every choice of one missing entry and one reaction"),
]
