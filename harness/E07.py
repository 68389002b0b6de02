"""Entry equality and hashing."""
from symx.core import Abs, And, Or
from symx.harness import Harness

from . import pds, sets
from .common import comp, entry


def setup_symbolic():
    pds.setup()
    sets.patch_hash()


ASSUMPTIONS = ["energies and adjustments of two compared entries are equal or differ by at least 0.01 eV (a relative 1e-5 or more)"]


def _pair(h, n, lo=-4, hi=-1):
    a, b = h.real(n + "a", lo, hi), h.real(n + "b", lo, hi)
    h.assume(Or(a == b, Abs(a - b) >= 0.02))
    return a, b


def _adj(v):
    from pymatgen.entries.computed_entries import ConstantEnergyAdjustment

    return ConstantEnergyAdjustment(v, name="shift")


def make(kind, form, t, e, adj, eid):
    from rxn_network.entries.freed import FREEDReferenceEntry
    from rxn_network.entries.gibbs import GibbsComputedEntry
    from rxn_network.entries.interpolated import InterpolatedEntry
    from rxn_network.entries.nist import NISTReferenceEntry

    if kind == "gibbs":
        return GibbsComputedEntry(comp(form), e, 10.0, t, energy_adjustments=[_adj(adj)], entry_id=eid)
    if kind == "interpolated":
        return InterpolatedEntry(comp(form), e, energy_adjustments=[_adj(adj)], entry_id=eid)
    if kind == "computed":
        return entry(form, e, eid=eid)
    return {"nist": NISTReferenceEntry, "freed": FREEDReferenceEntry}[kind](comp(form), t, energy_adjustments=[_adj(adj)])


def judge(h, a, b, want, label):
    got = bool(a == b)
    h.check(got == want, label)
    h.check(bool(b == a) == got, "symmetric")
    h.check(bool(a != b) == (not got), "inequality-is-the-negation")
    h.check(bool(a == a) and bool(b == b), "reflexive")
    if got:
        h.check(hash(a) == hash(b), "equal-entries-hash-equal")
    from rxn_network.entries.entry_set import GibbsEntrySet

    h.check(len(GibbsEntrySet([a, b])) == (1 if want else 2), "set-keeps-the-different-ones")
    h.check((b in GibbsEntrySet([a])) == want, "membership")


def computed(h):
    """Gibbs and interpolated entries: class, id, temperature and energy"""
    kinds, forms, ts, ids = h.cfg["kinds"], h.cfg["forms"], h.cfg["T"], h.cfg["ids"]
    e = _pair(h, "e")
    d = _pair(h, "d", -1, 1) if h.cfg.get("adj") else (0.25, 0.25)
    a, b = (make(k, f, t, x, y, i) for k, f, t, x, y, i in zip(kinds, forms, ts, e, d, ids))
    ea, eb = a.energy, b.energy
    same_e = bool(Abs(ea - eb) <= 1e-9)
    h.assume(Or(Abs(ea - eb) <= 1e-9, Abs(ea - eb) >= 0.01))
    want = kinds[0] == kinds[1] and same_e and (kinds[0] != "gibbs" or ts[0] == ts[1]) and (a.entry_id == b.entry_id if all(ids) else comp(forms[0]) == comp(forms[1]))
    judge(h, a, b, want, "equal-iff-same-class-id-temperature-energy")


def experimental(h):
    kinds, forms, ts = h.cfg["kinds"], h.cfg["forms"], h.cfg["T"]
    d = _pair(h, "d", -1, 1)
    a, b = (make(k, f, t, None, y, None) for k, f, t, y in zip(kinds, forms, ts, d))
    na, nb = a.composition.num_atoms, b.composition.num_atoms
    h.assume(Or(d[0] * nb == d[1] * na, Abs(d[0] * nb - d[1] * na) >= 0.01))
    want = kinds[0] == kinds[1] and comp(forms[0]).reduced_formula == comp(forms[1]).reduced_formula and ts[0] == ts[1] and bool(d[0] * nb == d[1] * na)
    judge(h, a, b, want, "equal-iff-same-class-formula-temperature-adjustments")


def _c(kinds, forms, T, ids, **kw):
    return dict(kinds=kinds, forms=forms, T=T, ids=ids, **kw)


G, I = "gibbs", "interpolated"
HARNESSES = [
    Harness("computed", computed, quick=[
        _c([G, G], ["Y2O3", "Y2O3"], [300, 300], ["m1", "m1"], adj=True), _c([G, G], ["Y2O3", "Y2O3"], [300, 300], ["m1", "m2"]), _c([G, G], ["Y2O3", "Y2O3"], [300, 400], ["m1", "m1"], adj=True),
        _c([G, G], ["Y2O3", "Y2O3"], [300, 300.0], ["m1", "m1"]), _c([G, G], ["Y2O3", "Y2O3"], [900, 900], [None, None], adj=True), _c([G, G], ["Y2O3", "Mn2O3"], [900, 900], [None, None]),
        _c([G, I], ["Y2O3", "Y2O3"], [300, 300], ["m1", "m1"]), _c([I, I], ["Y2O3", "Y2O3"], [300, 300], ["m1", "m1"], adj=True), _c([I, I], ["Y2O3", "Y2O3"], [300, 300], [None, None]),
        _c([I, I], ["Y2O3", "Mn2O3"], [300, 300], [None, None]), _c([I, I], ["Y2O3", "Y2O3"], [300, 300], ["a", "b"]), _c([G, "computed"], ["Y2O3", "Y2O3"], [300, 300], ["m1", "m1"]),
        _c([G, G], ["O2", "O2"], [300, 1250], ["m1", "m1"]), _c([G, G], ["Li2O", "Li2O"], [450, 450], ["m1", "m1"], adj=True), _c([I, G], ["Li2O", "Li2O"], [450, 450], [None, None]),
        ], bounds="15 pairs of classes, compositions, temperatures and ids; energies and adjustments symbolic"),
    Harness("experimental", experimental, quick=[
        dict(kinds=k, forms=f, T=t) for k, f, t in (
            (["nist", "nist"], ["CO2", "CO2"], [300, 300]), (["nist", "nist"], ["CO2", "C2O4"], [300, 300]), (["nist", "nist"], ["CO2", "CO2"], [300, 400]), (["nist", "freed"], ["CO2", "CO2"], [300, 300]),
            (["freed", "freed"], ["Al2O3", "Al4O6"], [550, 550]), (["nist", "nist"], ["CO2", "CO"], [300, 300]), (["nist", "nist"], ["CO2", "CO2"], [300, 300.0]), (["freed", "freed"], ["BaO", "BaO"], [300.0, 300]))],
        bounds="eight pairs; adjustments symbolic"),
]
