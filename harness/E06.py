"""Experimental reference entries: tabulated energies, interpolated in between."""
import gzip
import json
import math
from pathlib import Path

from symx.core import Sum, is_sym
from symx.harness import Harness

from . import pds
from .common import comp, parse

setup_symbolic = pds.setup
ASSUMPTIONS = ["temperatures strictly between two tabulated ones (from 0.5 K away) are symbolic, tabulated ones are listed", "reference data files are taken as given"]
_TAB = {}


def table(src):
    if src not in _TAB:
        import rxn_network.data as d

        raw = json.load(gzip.open(Path(d.__file__).parent / src / "compounds.json.gz"))
        _TAB[src] = {f: {int(float(t)): g for t, g in v.items()} for f, v in raw.items()}
    return _TAB[src]


def cls(src):
    from rxn_network.entries.freed import FREEDReferenceEntry
    from rxn_network.entries.nist import NISTReferenceEntry

    return {"nist": NISTReferenceEntry, "freed": FREEDReferenceEntry}[src]


def ref(src, form, t):
    tab = table(src)[comp(form).reduced_formula]
    if not is_sym(t) and t in tab:
        return tab[int(t)]
    for a in sorted(tab)[:-1]:
        if bool(t <= a + 100):
            return tab[a] + (t - a) * ((tab[a + 100] - tab[a]) / 100)


def _t(h, spec, name="T"):
    return h.real(name, spec[0] + 0.5, spec[1] - 0.5) if isinstance(spec, list) else spec


def const(h, n):
    from pymatgen.entries.computed_entries import ConstantEnergyAdjustment

    return [ConstantEnergyAdjustment(h.real(f"adj{i}", -1, 1), name=f"shift {i}") for i in range(n)]


def co2(n, t):
    """dmu = kT ln(pCO2) per CO2 molecule"""
    return 8.617e-5 * math.log(0.0004) * n * t


def energy(h):
    src, form = h.cfg["src"], h.cfg["form"]
    k = h.cfg.get("times", 1)
    t = _t(h, h.cfg["T"])
    adj = const(h, h.cfg.get("adj", 0))
    c = comp("".join(f"{el}{a * k}" for el, a in parse(form).items()))
    e = cls(src)(c, t, energy_adjustments=adj or None, data={"a": 1})
    want = ref(src, form, t) * k
    h.check_eq(e.uncorrected_energy, want, "tabulated-energy")
    h.check_eq(e.energy, want + Sum([a.value for a in adj]), "energy-with-adjustments")
    h.check_eq(e.energy_per_atom * (k * sum(parse(form).values())), want + Sum([a.value for a in adj]), "per-atom")
    h.check_eq(e.temperature, t, "temperature")
    h.check(e.composition == c and bool(e.is_experimental) and e.data == {"a": 1}, "identity")
    h.check(bool(e.is_element) == (len(parse(form)) == 1), "is-element")
    h.observe("e", e.energy)


def _same(h, a, b, label):
    h.check(type(a) is type(b), label + ":class")
    for f in ("energy", "correction", "temperature"):
        h.check_eq(getattr(a, f), getattr(b, f), f"{label}:{f}")
    h.check(a.composition == b.composition and a.data == b.data, label + ":identity")
    h.check(len(a.energy_adjustments) == len(b.energy_adjustments), label + ":adjustments")
    h.check(bool(a == b) and bool(b == a), label + ":equal")


def temperature(h):
    from rxn_network.entries.corrections import CarbonDioxideAtmosphericCorrection

    src, form = h.cfg["src"], h.cfg["form"]
    k = h.cfg.get("times", 1)
    n = 3 * k
    t1, t2 = _t(h, h.cfg["T"], "T"), _t(h, h.cfg["T2"], "T2")
    c = comp("".join(f"{el}{a * k}" for el, a in parse(form).items()))
    make = lambda t: cls(src)(c, t, energy_adjustments=const(h, h.cfg.get("adj", 0)) + ([CarbonDioxideAtmosphericCorrection(n, t)] if h.cfg.get("co2") else []), data={"x": 2})
    e, fresh = make(t1), make(t2)
    before = e.energy
    got = e.get_new_temperature(t2)
    _same(h, got, fresh, "new-temperature")
    extra = Sum([a.value for a in const(h, h.cfg.get("adj", 0))]) + (co2(k, t2) if h.cfg.get("co2") else 0)
    h.check_eq(got.energy, ref(src, form, t2) * k + extra, "new-temperature:value")
    h.check_eq(e.energy, before, "original-unchanged")
    _same(h, got.get_new_temperature(t1), e, "there-and-back")
    _same(h, cls(src).from_dict(got.as_dict()), fresh, "dictionary-round-trip")
    if not h.symbolic and not isinstance(h.cfg["T2"], list):
        h.check(got.entry_id == fresh.entry_id and got.unique_id == fresh.unique_id, "identifier")


def grand(h):
    from pymatgen.core.periodic_table import Element

    src, form = h.cfg["src"], h.cfg["form"]
    e = cls(src)(comp(form), _t(h, h.cfg["T"]), energy_adjustments=const(h, 1))
    m = {el: h.real(f"mu{el}", -4, 0) for el in h.cfg["open"]}
    g = e.to_grand_entry({Element(k): v for k, v in m.items()})
    h.check_eq(g.energy, e.energy - Sum([parse(form).get(k, 0) * v for k, v in m.items()]), "grand-potential")


def valid(h):
    src, form = h.cfg["src"], h.cfg["form"]
    tab = table(src).get(form)
    t = h.real("T", *h.cfg["range"])
    h.assume(t % 100 >= 0.5)  # tabulated temperatures themselves are covered by "energy"
    try:
        e = cls(src)(comp(form), t)
        ok = True
    except ValueError:
        ok = False
    dep = form in h.cfg.get("deprecated", [])
    h.check(ok == (dep or (tab is not None and bool((t >= min(tab)) & (t <= max(tab))))), "refused-iff-outside-the-table")
    if ok and dep:
        h.check_eq(e.energy, 0, "deprecated-is-zero")


# (source, formula): full and short temperature ranges
def short(src, lo=2, hi=17, n=3):
    return sorted(f for f, d in table(src).items() if lo <= len(d) <= hi and min(d) >= 300)[:n]


QE = [
    {"src": "nist", "form": "CO2", "T": [300, 400], "adj": 1}, {"src": "nist", "form": "HCl", "T": [1900, 2000]}, {"src": "nist", "form": "Al2O3", "T": 1200.0}, {"src": "nist", "form": "CO2", "T": 300, "times": 2, "adj": 2},
    {"src": "freed", "form": "Al2O3", "T": [900, 1000], "times": 3}, {"src": "freed", "form": "BaO", "T": 700}, {"src": "nist", "form": "CH4", "T": [1000, 1100], "adj": 1}, {"src": "freed", "form": "CaCO3", "T": [400, 500], "adj": 1},
]
HARNESSES = [
    Harness("energy", energy, quick=QE + [{"src": s, "form": f, "T": [a, a + 100], "adj": 1, "times": k} for s, fs in (("nist", ("CO2", "H3N", "CH4", "Al2O3", "NaCl")), ("freed", ("CO2", "H2O", "Al2O3", "BaO"))) for f in fs for a in range(300, 1000, 100) for k in (1, 2)],
            bounds="about 135 combinations of source, compound, formula units and 100 K interval; temperature within the interval and adjustments symbolic"),
    Harness("temperature", temperature, quick=[
        {"src": "nist", "form": "CO2", "T": 300, "T2": [800, 900], "co2": True}, {"src": "nist", "form": "CO2", "T": [500, 600], "T2": 1000.0, "co2": True, "adj": 1, "times": 2},
        {"src": "nist", "form": "H3N", "T": 1500, "T2": 400, "adj": 2}, {"src": "freed", "form": "Al2O3", "T": [300, 400], "T2": [700, 800], "adj": 1}, {"src": "freed", "form": "CO2", "T": 900, "T2": 300, "co2": True},
        ], bounds="pairs of temperatures, with atmospheric and constant adjustments"),
    Harness("grand", grand, quick=[{"src": "nist", "form": "CO2", "T": 300, "open": ["O"]}, {"src": "freed", "form": "CaCO3", "T": [400, 500], "open": ["C", "O"]}], bounds="all chempots"),
    Harness("valid", valid, quick=[{"src": "nist", "form": "CO2", "range": [0, 450]}, {"src": "freed", "form": "BaO", "range": [1950, 3000]}, {"src": "nist", "form": "YMnO3", "range": [300, 400]}, {"src": "nist", "form": "NaCO3", "range": [300, 500], "deprecated": ["NaCO3"]},
                                   {"src": "freed", "form": "Ag2CO3", "range": [300, 3000]}],
            bounds="temperature ranges around the ends of the tables; unknown and deprecated compounds"),
]
