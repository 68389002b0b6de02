"""The energy of a reaction is the stoichiometric sum of its phases' energies."""
from symx.core import And, Sum
from symx.harness import Harness

from .common import comp, parse
from .R03 import FAMILIES, _cfgs

ASSUMPTIONS = ["each phase of a reaction is listed once; entries may be multiples of the formula unit", "uncertainties.ufloat is replaced by its first-order rule for linear combinations; two phases of equal composition are not in one reaction"]


class Uncertain:
    """the part of uncertainties.ufloat that linear combinations need: value and independent deviations"""

    def __init__(self, n, dev=0.0, parts=None):
        self.n, self.parts = n, parts if parts is not None else [dev]

    nominal_value = property(lambda s: s.n)

    @property
    def s(self):
        from symx import npshim

        q = Sum([p * p for p in self.parts])
        return npshim.MATH.sqrt(q) if self.parts else 0.0

    std_dev = s

    def __add__(self, o):
        return Uncertain(self.n + o.n, parts=self.parts + o.parts) if isinstance(o, Uncertain) else Uncertain(self.n + o, parts=self.parts)

    __radd__ = __add__

    def __mul__(self, o):
        return Uncertain(self.n * o, parts=[p * o for p in self.parts])

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + -1 * o

    def __rsub__(self, o):
        return o + -1 * self

    def __truediv__(self, o):
        return self * (1 / o)

    def __lt__(self, o):
        return self.n < (o.n if isinstance(o, Uncertain) else o)

    def __gt__(self, o):
        return self.n > (o.n if isinstance(o, Uncertain) else o)

    __array_ufunc__ = None


def setup_symbolic():
    import uncertainties
    from symx import inject

    inject.EXTRA[id(uncertainties.ufloat)] = (uncertainties.ufloat, lambda n, s=0.0, *a: Uncertain(n, s))


def corrected():
    """an entry whose corrections have a given standard deviation"""
    from pymatgen.entries.computed_entries import ComputedEntry

    class Corrected(ComputedEntry):
        dev = float("nan")
        correction_uncertainty = property(lambda s: s.dev)

    return Corrected


def uncertainty(h):
    """standard deviations of the phases' corrections add up in quadrature"""
    from rxn_network.reactions.computed import ComputedReaction

    Corrected = corrected()
    r, p, base = FAMILIES[h.cfg["sys"]]
    forms, cs = r + p, list(base[0])
    if h.cfg.get("rev"):
        cs = [-1 * c for c in cs]
    k = h.real("k", 1 / 128, 32)
    es, dev = [], []
    for i, f in enumerate(forms):
        m = _mult(h, i)
        e = Corrected(comp({x: v * m for x, v in parse(f).items()}), h.real(f"e{i}", -300, 300), entry_id=f"{f}-{i}")
        if h.choice(f"known{i}", [True, False]) if i < h.cfg.get("unknown", 0) else True:
            u = h.real(f"u{i}", 0, 1)
            e.dev = u
            dev.append(cs[i] * u / m)
        es.append(e)
    want2 = Sum([d * d for d in dev]) if dev else 0.0
    atoms = sum(c * sum(parse(f).values()) for f, c in zip(forms, cs) if c > 0)
    rxn = ComputedReaction(es, [c * k for c in cs])
    s, pa = rxn.energy_uncertainty, rxn.energy_uncertainty_per_atom
    h.check(And(s >= 0, pa >= 0), "uncertainty:not-negative")
    h.check_eq(s * s, want2 * k * k, "uncertainty:quadrature")
    h.check_eq(pa * pa * atoms * atoms, want2, "uncertainty:per-atom")
    rev = rxn.reverse()
    h.check_eq(rev.energy_uncertainty * rev.energy_uncertainty, want2 * k * k, "uncertainty:reverse")
    o = ComputedReaction(es[::-1], [c * k for c in cs[::-1]])
    h.check_eq(o.energy_uncertainty * o.energy_uncertainty, want2 * k * k, "uncertainty:phase-order-irrelevant")
    h.observe("u", [s, pa])


def _mult(h, i):
    return [1, 2, 3, 1, 2, 4][(i + h.cfg.get("m", 0)) % 6]


def _setup(h):
    r, p, base = FAMILIES[h.cfg["sys"]]
    forms = r + p
    ks = [h.real(f"k{i}", 1 / 128, 32) for i in range(len(base))]
    cs = [Sum([k * b[i] for k, b in zip(ks, base) if b[i]]) for i in range(len(forms))]
    if h.cfg.get("rev"):
        cs = [-1 * c for c in cs]
    from pymatgen.core.entries import ConstantEnergyAdjustment
    from pymatgen.entries.computed_entries import ComputedEntry

    es, ef = [], []
    for i, f in enumerate(forms):
        m = _mult(h, i)
        e = h.real(f"e{i}", -300, 300)
        a = h.real(f"a{i}", -2, 2) if i % 2 == h.cfg.get("adj", 0) else None
        ent = ComputedEntry(comp({k: v * m for k, v in parse(f).items()}), e, entry_id=f"{f}-{i}",
                            energy_adjustments=[ConstantEnergyAdjustment(a)] if a is not None else None)
        es.append(ent)
        ef.append((e + a if a is not None else e) / m)  # energy per formula unit
    return forms, cs, es, ef


def closed(h):
    from rxn_network.reactions.computed import ComputedReaction

    forms, cs, es, ef = _setup(h)
    rxn = ComputedReaction(es, cs)
    want = Sum([c * e for c, e in zip(cs, ef)])
    atoms = Sum([c * sum(parse(f).values()) for f, c in zip(forms, cs) if c > 0])
    h.check(bool(rxn.balanced), "balanced")
    h.check_eq(rxn.energy, want, "energy-is-the-stoichiometric-sum")
    h.check_eq(rxn.energy_per_atom * atoms, want, "energy-per-atom")
    # listing the phases in another order changes nothing
    o = ComputedReaction(es[::-1], cs[::-1])
    h.check_eq(o.energy, want, "phase-order-irrelevant:energy")
    h.check_eq(o.energy_per_atom * atoms, want, "phase-order-irrelevant:energy-per-atom")
    # additivity under Hess's law: rxn + s * rxn'  (same phases)
    s = h.real("s", 1 / 128, 32)
    r2 = ComputedReaction(es, [c * s for c in cs])
    h.check_eq(r2.energy, want * s, "scaled-reaction:energy")
    h.check_eq(r2.energy_per_atom * atoms, want, "scaled-reaction:energy-per-atom")
    h.observe("e", [rxn.energy, rxn.energy_per_atom])


def balanced_energy(h):
    """balance() gives the energy of the unique balanced reaction, whatever the coefficients' scale."""
    from rxn_network.reactions.computed import ComputedReaction

    r, p, base = FAMILIES[h.cfg["sys"]]
    forms, cs, es, ef = _setup(h)
    if len(base) > 1:
        return
    rxn = ComputedReaction.balance(es[: len(r)], es[len(r):])
    b = base[0]
    atoms = sum(c * sum(parse(f).values()) for f, c in zip(forms, b) if c > 0)
    h.check(bool(rxn.balanced), "balance:balanced")
    h.check_eq(rxn.energy_per_atom * atoms, Sum([c * e for c, e in zip(b, ef)]), "balance:energy-per-atom", 1e-4)
    h.observe("e", rxn.energy_per_atom)


HARNESSES = [
    Harness("closed", closed, quick=_cfgs(("computed",), rev=(0, 1), m=(0, 1)), thorough=_cfgs(("computed",), rev=(0, 1), m=range(6), adj=(0, 1)),
            bounds="13 balanced phase sets; entries of 1-4 formula units with and without energy adjustments; energies in [-300,300], corrections in [-2,2], coefficients any balanced combination with parameters in [1/128,32], scale in [1/128,32]"),
    Harness("balanced_energy", balanced_energy, quick=[dict(c, sys=i) for i in range(8) for c in ({"m": 0}, {"m": 3})],
            bounds="8 phase sets balanced by the code; energies symbolic"),
    Harness("uncertainty", uncertainty, quick=[dict(sys=i, rev=i % 2, m=i % 3, unknown=u) for i in range(len(FAMILIES)) for u in (0, 2)],
            thorough=[dict(sys=i, rev=r, m=m, unknown=u) for i in range(len(FAMILIES)) for r in (0, 1) for m in (0, 1, 2, 3) for u in (0, 4)],
            bounds="13 balanced phase sets; any standard deviation in [0,1] eV (or unknown) of every phase, scale in [1/128,32], entries of 1-4 formula units"),
]
