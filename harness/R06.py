"""Reaction equality, hashing and dictionary round trips."""
import json

from symx.core import Abs, And, Iff, Implies, Not, Or, Sum
from symx.harness import Harness

from .common import comp, entry, parse, rxn_objects
from .R03 import FAMILIES, _cfgs, same_coeffs, sides

TWO = [i for i, f in enumerate(FAMILIES) if len(f[2]) > 1]


def _cs(h, tag, base, n):
    ks = [h.real(f"{tag}{i}", 0.5, 3) for i in range(len(base))]
    return [Sum([k * b[i] for k, b in zip(ks, base) if b[i]]) for i in range(n)]


def equality(h):
    """two reactions over the same phases are equal iff their coefficients are."""
    r, p, base = FAMILIES[h.cfg["sys"]]
    forms = r + p
    n = len(forms)
    c1, c2 = _cs(h, "k", base, n), _cs(h, "j", base, n)
    kind = h.cfg["kind"]
    r1, _ = rxn_objects(h, kind, forms, c1)
    perm = list(range(n))[::-1] if h.cfg.get("perm") else list(range(n))
    r2, _ = _same_energies(h, kind, forms, c2, perm)
    same = And([a == b for a, b in zip(c1, c2)])
    far = Or([Abs(a - b) >= 0.01 for a, b in zip(c1, c2)])
    if not h.cfg.get("band"):
        # outside the comparison tolerance (inside it, see the "band" configurations)
        h.assume(Or(same, far))
    eq = bool(r1 == r2)
    if h.cfg.get("band"):
        if eq:
            h.check(hash(r1) == hash(r2), "equal-reactions-hash-equal")
        return
    if eq:
        h.check(Not(far), "equal-reactions-have-equal-coefficients")
        h.check(hash(r1) == hash(r2), "equal-reactions-hash-equal")
        h.check(len({r1, r2}) == 1, "set-keeps-one-of-two-equal")
    else:
        h.check(Not(same), "same-coefficients-compare-equal")
        h.check(len({r1, r2}) == 2, "set-keeps-both-different")
    h.check(bool(r2 == r1) == eq, "symmetric")
    h.check(bool(r1 != r2) == (not eq), "ne-is-not-eq")
    h.check(bool(r1 == r1), "reflexive")
    h.observe("eq", eq)


def _same_energies(h, kind, forms, cs, perm):
    r, es = rxn_objects(h, kind, forms, cs)
    if perm == list(range(len(forms))):
        return r, es
    from rxn_network.reactions.basic import BasicReaction
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction

    if kind == "basic":
        return BasicReaction([comp(forms[i]) for i in perm], [cs[i] for i in perm]), None
    if kind == "computed":
        return ComputedReaction([es[i] for i in perm], [cs[i] for i in perm]), es
    return OpenComputedReaction([es[i] for i in perm], [cs[i] for i in perm], r.chempots), es


def energies(h):
    """computed reactions with the same coefficients but different energies differ."""
    r, p, base = FAMILIES[h.cfg["sys"]]
    forms = r + p
    cs = _cs(h, "k", base, len(forms))
    r1, _ = rxn_objects(h, h.cfg["kind"], forms, cs)
    r2, _ = rxn_objects(h, h.cfg["kind"], forms, cs, tag="x")
    d = r1.energy_per_atom - r2.energy_per_atom
    if bool(r1 == r2):
        h.check(And(d <= 0.01, d >= -0.01), "equal-reactions-have-equal-energy")
        h.check(hash(r1) == hash(r2), "equal-reactions-hash-equal")
    else:
        h.check(Not(d == 0), "same-energy-compares-equal")
    h.observe("d", d)


def serialize(h):
    r, p, base = FAMILIES[h.cfg["sys"]]
    forms = r + p
    cs = _cs(h, "k", base, len(forms))
    if h.cfg.get("rev"):
        cs = [-1 * c for c in cs]
    rxn, es = rxn_objects(h, h.cfg["kind"], forms, cs)
    rxn.data["tag"] = "kept"
    computed = h.cfg["kind"] != "basic"
    d = rxn.as_dict()
    back = type(rxn).from_dict(d)
    h.check(type(back) is type(rxn), "from_dict:type")
    same_coeffs(h, back, forms, cs, "from_dict")
    sides(h, back, forms, cs, "from_dict")
    h.check(back == rxn and bool(back.balanced) == bool(rxn.balanced), "from_dict:equal")
    h.check(back.data == rxn.data and back.lowest_num_errors == rxn.lowest_num_errors, "from_dict:data")
    if computed:
        h.check_eq(back.energy, rxn.energy, "from_dict:energy")
        h.check([e.entry_id for e in back.entries] == [e.entry_id for e in rxn.entries], "from_dict:entries")
    if h.cfg["kind"] == "open":
        h.check(set(back.chempots) == set(rxn.chempots), "from_dict:open-elements")
        for k, v in rxn.chempots.items():
            h.check_eq(back.chempots[k], v, "from_dict:chempots")
    # reading a dictionary does not consume it
    again = type(rxn).from_dict(d)
    h.check(again == rxn, "from_dict:dictionary-can-be-read-twice")
    h.observe("coeffs", list(back.coefficients))


HARNESSES = [
    Harness("equality", equality, quick=[dict(c, perm=(c["sys"] + (c["kind"] == "open")) % 2) for c in _cfgs(("basic", "computed", "open"))]
            + [{"sys": i, "kind": k, "band": 1} for i in (0, 4, 8, 9) for k in ("basic", "computed")],
            thorough=_cfgs(("basic", "computed", "open"), perm=(0, 1), band=(0, 1)),
            bounds="coefficients equal or at least one 0.01 apart; hash agreement also inside the tolerance; 13 balanced phase sets; two coefficient vectors, any parameters in [0.5,3]; phases listed in the same or reverse order"),
    Harness("energies", energies, quick=[{"sys": i, "kind": k} for i in (0, 2, 4, 8, 10) for k in ("computed", "open")], bounds="two independent energy assignments in [-9,9]"),
    Harness("serialize", serialize, quick=[c for c in _cfgs(("basic", "computed", "open"), rev=(0, 1)) if (c["sys"] + c["rev"]) % 2], thorough=_cfgs(("basic", "computed", "open"), rev=(0, 1)), bounds="all parameters, energies and chempots symbolic"),
]
