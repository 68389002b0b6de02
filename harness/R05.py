"""Open reactions: energy is the change in grand potential at the given chemical potentials."""
from symx.core import Sum
from symx.harness import Harness

from .common import comp, entry, parse
from .R03 import FAMILIES
from .R04 import _setup

# systems and the open elements tried with them
OPEN = [(0, "O"), (1, "O"), (2, "O"), (3, "O"), (4, "O"), (4, "C"), (4, "Cl"), (4, "CO"), (5, "O"), (5, "H"), (5, "CH"), (6, "N"), (6, "NO"), (8, "O"), (8, "HO"), (9, "O"), (10, "O"), (11, "CO"), (11, "OC"), (11, "C")]


def _els(spec):
    import re

    from pymatgen.core.periodic_table import Element

    return [Element(e) for e in re.findall(r"[A-Z][a-z]?", spec)]


def grand(h):
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction

    forms, cs, es, ef = _setup(h)
    oe = _els(h.cfg["open"])
    mu = {e: h.real(f"mu_{e}", -20, 20) for e in oe}
    sym = {e.symbol for e in oe}
    kind = h.cfg["how"]
    closed = ComputedReaction(es, cs)
    if kind == "direct":
        rxn = OpenComputedReaction(es, cs, dict(mu))
    elif kind == "from_closed":
        rxn = OpenComputedReaction.from_computed_rxn(closed, dict(mu))
    else:
        rxn = OpenComputedReaction(es, [-1 * c for c in cs], dict(mu)).reverse().copy()
    # a phase that is itself the open element exchanges with the reservoir: no mu term
    want = Sum([
        c * (e - (0 if set(parse(f)) <= sym and len(parse(f)) == 1 else Sum([mu[x] * parse(f)[x.symbol] for x in oe if x.symbol in parse(f)])))
        for f, c, e in zip(forms, cs, ef)
    ])
    h.check_eq(rxn.energy, want, "energy-is-the-grand-potential-change")
    solid = lambda f: sum(v for k, v in parse(f).items() if k not in sym)
    atoms = Sum([c * solid(f) for f, c in zip(forms, cs) if c > 0])
    h.check_eq(rxn.num_atoms, atoms, "num-atoms-excludes-open-elements")
    h.check_eq(rxn.energy_per_atom * atoms, want, "energy-per-non-open-atom")
    h.check({e.symbol for e in rxn.elements} == {k for f in forms for k in parse(f)} - sym, "elements-exclude-open")
    tot = {k for f in forms for k in parse(f)} | sym
    h.check(rxn.chemical_system == "-".join(sorted(tot - sym)), "chemical-system-excludes-open")
    h.check(rxn.total_chemical_system == "-".join(sorted(tot)), "total-chemical-system-includes-open")
    for sgn, af in ((-1, rxn.reactant_atomic_fractions), (1, rxn.product_atomic_fractions)):
        side = [(f, c * sgn) for f, c in zip(forms, cs) if (c < 0 if sgn < 0 else c > 0)]
        h.check_eq(Sum(list(af.values())), 1, "atomic-fractions-sum-to-one")
        h.check(len(af) == len(side), "fractions:one-per-phase")
        for f, c in side:
            h.check_eq(af[comp(f)] * atoms, c * solid(f), "atomic-fraction")
    # the closed reaction it came from is unaffected
    h.check_eq(closed.energy, Sum([c * e for c, e in zip(cs, ef)]), "closed-energy-unaffected")
    h.observe("e", [rxn.energy, rxn.energy_per_atom])


def balance(h):
    """balance() with chempots gives the same reaction as closed balancing plus chempots."""
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction

    r, p, base = FAMILIES[h.cfg["sys"]]
    forms, cs, es, ef = _setup(h)
    oe = _els(h.cfg["open"])
    mu = {e: h.real(f"mu_{e}", -20, 20) for e in oe}
    rxn = OpenComputedReaction.balance(es[: len(r)], es[len(r):], dict(mu))
    ref = ComputedReaction.balance(es[: len(r)], es[len(r):])
    h.check(type(rxn).__name__ == "OpenComputedReaction", "balance:type")
    h.check(bool(rxn.balanced) == bool(ref.balanced) and rxn.lowest_num_errors == ref.lowest_num_errors, "balance:same-outcome")
    for a, b in zip(rxn.coefficients, ref.coefficients):
        h.check_eq(a, b, "balance:same-coefficients")
    none = OpenComputedReaction.balance(es[: len(r)], es[len(r):], {})
    h.check(type(none).__name__ == "ComputedReaction", "balance:no-chempots-gives-closed")
    h.check_eq(none.energy, ref.energy, "balance:no-chempots-energy")
    h.observe("c", [float(c) for c in rxn.coefficients])


HARNESSES = [
    Harness("grand", grand,
            quick=[{"sys": s, "open": o, "how": w, "rev": v} for k, (s, o) in enumerate(OPEN) for w, v in (("direct", k % 2), ("from_closed", 1 - k % 2), ("reversed", k % 2))],
            thorough=[{"sys": s, "open": o, "how": w, "rev": v, "m": m} for s, o in OPEN for w in ("direct", "from_closed", "reversed") for v in (0, 1) for m in range(3)],
            bounds="20 (balanced phase set, open elements) pairs, one or two open elements, chempots in [-20,20]; energies, corrections, coefficients as in R04"),
    Harness("balance", balance, quick=[{"sys": s, "open": o} for s, o in OPEN if s < 8], bounds="phase sets with a unique balanced reaction"),
]
