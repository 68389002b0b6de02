"""Shared builders for the ReactionSet properties."""
from symx.core import And, Sum

from .common import comp, entry, parse

FORMS = ["Mn2O3", "Mn3O4", "Y2O3", "YMnO3", "YMnO3", "O2", "Mn"]
# entry index -> coefficient, in the listed order of phases
POOL = [
    [(2, -1), (0, -1), (3, 2)],  # 0
    [(2, -1), (0, -1), (4, 2)],  # 1 same with the other polymorph
    [(3, -2), (0, 1), (2, 1)],  # 2 reverse of 0
    [(6, -4), (5, -3), (0, 2)],  # 3
    [(0, -2), (6, 4), (5, 3)],  # 4 reverse of 3
    [(0, -6), (1, 4), (5, 1)],  # 5
    [(0, -1), (2, -1), (3, 2)],  # 6 = 0 listed in another order
    [(2, -2), (6, -4), (5, -3), (4, 4)],  # 7
    [(3, -1), (4, 1)],  # 8 polymorphic transition
    [(6, -3), (5, -2), (1, 1)],  # 9
]


def entries(h, sym=True, cls=None):
    return [
        entry(f, h.real(f"e{i}", -300, 300) if sym else -1.5 * i - 0.25, eid=f"id{i}", data={"n": i})
        for i, f in enumerate(FORMS)
    ]


def reaction(h, es, k, tag, scale=None, mu=None, el="O"):
    from pymatgen.core.periodic_table import Element

    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction

    s = 1 if scale is None else scale
    idx = [i for i, _ in POOL[k]]
    cs = [c * s for _, c in POOL[k]]
    if mu is None:
        return ComputedReaction([es[i] for i in idx], cs, data={"tag": tag})
    return OpenComputedReaction([es[i] for i in idx], cs, {Element(el): mu}, data={"tag": tag})


def coeff_map(rxn):
    return {e.entry_id: c for e, c in zip(rxn.entries, rxn.coefficients)}


def same(h, got, want, label, energy=True):
    """got is the reaction `want`: same entries, coefficients, class, data and energy."""
    a, b = coeff_map(got), coeff_map(want)
    h.check(len(got.entries) == len(want.entries) and a.keys() == b.keys(), label + ":entries")
    h.check(type(got).__name__ == type(want).__name__, label + ":type")
    for k in b:
        h.check_eq(a[k], b[k], label + ":coefficient")
    we = {e.entry_id: e for e in want.entries}
    for e in got.entries:
        h.check_eq(e.energy, we[e.entry_id].energy, label + ":entry-energy")
        h.check(e.composition == we[e.entry_id].composition, label + ":entry-composition")
    h.check(got.data == want.data, label + ":data")
    if energy:
        h.check_eq(got.energy, want.energy, label + ":energy")
        h.check_eq(got.energy_per_atom, want.energy_per_atom, label + ":energy-per-atom")


def match(h, rs, rxns, label, energy=True):
    """the set holds exactly the reactions, matched by their data tag."""
    got = list(rs.get_rxns())
    h.check(len(got) == len(rxns) and len(rs) == len(rxns), label + ":length")
    h.check(len(list(iter(rs))) == len(rxns), label + ":iter-length")
    tags = [g.data.get("tag") for g in got]
    h.check(sorted(tags) == sorted(r.data["tag"] for r in rxns), label + ":members")
    for r in rxns:
        i = tags.index(r.data["tag"])
        same(h, got[i], r, label, energy)


def patch_hash():
    """set order only: entries hash by composition while energies are symbolic."""
    import pymatgen.core.entries as pe

    def __hash__(self):
        return hash(self._composition.reduced_formula)

    for c in vars(pe).values():
        if isinstance(c, type) and "__hash__" in vars(c) and issubclass(c, pe.Entry):
            c.__hash__ = __hash__
