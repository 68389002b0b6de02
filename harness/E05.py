"""Gibbs entries: dGf(T) = dHf + SISSO descriptor - elemental chemical potentials + adjustments."""
import json
import math
from itertools import combinations
from pathlib import Path

from symx.core import Sum, is_sym
from symx.harness import Harness

from . import pds
from .common import comp, parse

setup_symbolic = pds.setup
ASSUMPTIONS = ["log is an uninterpreted function (monotone); either the volume or the temperature is symbolic, never both", "temperatures strictly between two tabulated ones are symbolic, tabulated ones are listed"]
_TAB = {}


def table():
    if not _TAB:
        import rxn_network.data as d

        raw = json.loads((Path(d.__file__).parent / "mu_elements.json").read_text())
        _TAB.update({int(t): v for t, v in raw.items()})
    return _TAB


def log(x):
    return x.log() if is_sym(x) else math.log(x)


def mu(el, t):
    """elemental chemical potential, linear between tabulated temperatures"""
    tab = table()
    if not is_sym(t) and t in tab:
        return tab[int(t)][el]
    for a in range(300, 2000, 100):
        if bool(t <= a + 100):
            return tab[a][el] + (t - a) * ((tab[a + 100][el] - tab[a][el]) / 100)


def reduced_mass(forms):
    from pymatgen.core.periodic_table import Element

    r = parse(comp(forms).reduced_formula)
    m = {e: float(Element(e).atomic_mass) for e in r}
    return sum((r[a] + r[b]) * m[a] * m[b] / (m[a] + m[b]) for a, b in combinations(r, 2)) / ((len(r) - 1) * sum(r.values()))


def correction(form, v, t):
    """dGf(T) - dHf for the formula as written"""
    amt = parse(form)
    if len(amt) == 1:
        return 0
    g = (log(v) * -2.48e-4 - 8.94e-5 * reduced_mass(form) / v) * t + 0.181 * log(t) - 0.882
    return g * sum(amt.values()) - Sum([mu(e, t) * n for e, n in amt.items()])


def _t(h, spec, name="T"):
    """a temperature: a number, or one strictly between two tabulated ones"""
    if isinstance(spec, list):
        return h.real(name, spec[0] + 0.5, spec[1] - 0.5)
    return spec


def make(h, form, t, v=None, adj=()):
    from rxn_network.entries.gibbs import GibbsComputedEntry

    hf = h.real("hf", -4, 1)
    v = v if v is not None else h.cfg.get("vol", 10.0)
    return GibbsComputedEntry(comp(form), hf, v, t, energy_adjustments=list(adj), parameters={"run_type": "GGA"}, data={"d": 3}, entry_id=h.cfg.get("id")), hf


def const(h, n=1):
    from pymatgen.entries.computed_entries import ConstantEnergyAdjustment

    return [ConstantEnergyAdjustment(h.real(f"adj{i}", -1, 1), name=f"shift {i}") for i in range(n)]


def energy(h):
    form = h.cfg["form"]
    t = _t(h, h.cfg["T"])
    v = h.real("V", 4, 40) if h.cfg.get("symV") else h.cfg.get("vol", 10.0)
    n = sum(parse(form).values())
    adj = const(h, h.cfg.get("adj", 0))
    e, hf = make(h, form, t, v, adj)
    g = correction(form, v, t)
    want = hf * n + g + Sum([a.value for a in adj])
    h.check_eq(e.energy, want, "gibbs-energy")
    h.check_eq(e.energy_per_atom * n, want, "per-atom")
    h.check_eq(e.uncorrected_energy, hf * n, "formation-enthalpy")
    h.check_eq(e.correction, want - hf * n, "correction")
    h.check_eq(e.temperature, t, "temperature")
    h.check(len(e.energy_adjustments) == len(adj) + 1, "one-gibbs-adjustment")
    h.observe("e0", hf)
    k = h.cfg.get("times")
    if k:
        big, _ = make(h, "".join(f"{el}{a * k}" for el, a in parse(form).items()), t, v)
        small, _ = make(h, form, t, v)
        h.check_eq(big.energy, small.energy * k, "several-formula-units-scale")
        h.check_eq(big.energy_per_atom, small.energy_per_atom, "per-atom-independent-of-formula-units")


def _same(h, a, b, label):
    h.check(type(a) is type(b), label + ":class")
    for f in ("energy", "correction", "uncorrected_energy", "temperature", "volume_per_atom", "formation_energy_per_atom"):
        h.check_eq(getattr(a, f), getattr(b, f), f"{label}:{f}")
    h.check(a.composition == b.composition and a.entry_id == b.entry_id, label + ":identity")
    h.check(a.data == b.data and a.parameters == b.parameters, label + ":data-and-parameters")
    h.check(len(a.energy_adjustments) == len(b.energy_adjustments), label + ":adjustments")


def temperature(h):
    """changing the temperature gives the entry that would have been made there"""
    from rxn_network.entries.corrections import CarbonateCorrection, CarbonDioxideAtmosphericCorrection

    form = h.cfg["form"]
    n = sum(parse(form).values())
    t1, t2 = _t(h, h.cfg["T"], "T"), _t(h, h.cfg["T2"], "T2")
    adjs = lambda t: (
        const(h, h.cfg.get("adj", 0))
        + ([CarbonDioxideAtmosphericCorrection(n, t)] if h.cfg.get("co2") else [])
        + ([CarbonateCorrection(1)] if h.cfg.get("carb") else [])
    )
    e, _ = make(h, form, t1, adj=adjs(t1))
    fresh, _ = make(h, form, t2, adj=adjs(t2))
    before = e.energy
    got = e.get_new_temperature(t2)
    _same(h, got, fresh, "new-temperature")
    h.check_eq(e.energy, before, "original-unchanged")
    h.check_eq(e.temperature, t1, "original-unchanged:temperature")
    back = got.get_new_temperature(t1)
    _same(h, back, e, "there-and-back")
    again = got.get_new_temperature(t2)
    _same(h, again, got, "same-temperature-again")


def copies(h):
    from pymatgen.core.periodic_table import Element

    from rxn_network.entries.gibbs import GibbsComputedEntry

    form = h.cfg["form"]
    t = _t(h, h.cfg["T"])
    e, hf = make(h, form, t, adj=const(h, 1))
    _same(h, GibbsComputedEntry.from_dict(e.as_dict()), e, "dictionary-round-trip")
    c = e.copy()
    _same(h, c, e, "copy")
    c.data["d"] = 4
    c.energy_adjustments.clear()
    h.check(e.data == {"d": 3} and len(e.energy_adjustments) == 2, "copy-is-independent")
    m = {el: h.real(f"mu{el}", -4, 0) for el in h.cfg["open"]}
    g = e.to_grand_entry({Element(k): v for k, v in m.items()})
    h.check_eq(g.energy, e.energy - Sum([parse(form).get(k, 0) * v for k, v in m.items()]), "grand-potential")


class Struct:
    def __init__(self, form, volume, sites):
        self.composition = comp(form)
        self.volume = volume
        self.num_sites = sites


def structure(h):
    """from a structure: volume per atom"""
    from rxn_network.entries.gibbs import GibbsComputedEntry

    form = h.cfg["form"]
    n = int(sum(parse(form).values()))
    vol = h.real("vol", 4, 40) * n
    hf = h.real("hf", -4, 1)
    e = GibbsComputedEntry.from_structure(Struct(form, vol, n), hf, h.cfg["T"], entry_id="x", data={"a": 1})
    h.check_eq(e.volume_per_atom * n, vol, "volume-per-atom")
    h.check_eq(e.energy, hf * n + correction(form, vol / n, h.cfg["T"]), "gibbs-energy")
    h.check(e.entry_id == "x" and e.data == {"a": 1} and e.composition == comp(form), "identity")


def valid(h):
    """temperatures outside the table are refused"""
    t = h.real("T", *h.cfg["range"])
    try:
        make(h, "Y2O3", t)
        ok = True
    except ValueError:
        ok = False
    h.check(ok == bool((t >= 300) & (t <= 2000)), "refused-iff-outside-300-2000")


F = ["Y2O3", "Li2CO3", "YMn2O5", "O2", "NaAlSi3O8", "CO2"]
HARNESSES = [
    Harness("energy", energy, quick=[  # cheap enough to run everything on every change
        {"form": "Y2O3", "T": 300, "symV": True, "adj": 1}, {"form": "Y4O6", "T": 1000.0, "symV": True}, {"form": "YMn2O5", "T": 1250, "symV": True, "adj": 2},
        {"form": "Li2CO3", "T": [300, 400], "adj": 1}, {"form": "NaAlSi3O8", "T": [1900, 2000], "vol": 7.5}, {"form": "O2", "T": [700, 800], "adj": 1}, {"form": "BaTiO3", "T": [1000, 1100], "times": 2},
        {"form": "MnO", "T": 2000, "symV": True, "times": 3}, {"form": "CO2", "T": 400.0, "adj": 2}, {"form": "Fe3O4", "T": [500, 600], "vol": 12.5, "times": 4},
        ] + [{"form": f, "T": [a, a + 100], "adj": 1, "times": 2} for f in F for a in range(300, 2000, 100)] + [{"form": f, "T": t, "symV": True, "adj": 1, "times": 3} for f in F for t in list(range(300, 2001, 100)) + [900.0, 350, 1999.5]],
        bounds="about 230 compositions and temperatures or 100 K temperature intervals; enthalpies, adjustments, and volume or temperature symbolic"),
    Harness("temperature", temperature, quick=[
        {"form": "Y2O3", "T": 300, "T2": 900, "adj": 1}, {"form": "CO2", "T": 300, "T2": [800, 900], "co2": True, "adj": 1}, {"form": "Li2CO3", "T": [600, 700], "T2": 1500.0, "carb": True},
        {"form": "C2O4", "T": 1200.0, "T2": 300, "co2": True}, {"form": "O2", "T": 400, "T2": [300, 400], "adj": 1},
        ] + [{"form": f, "T": a, "T2": b, "adj": 1, "co2": f == "CO2", "carb": f == "Li2CO3"} for f in F for a in (300, 1100.0, [450, 500]) for b in (500.0, 2000, [1300, 1400])],
        bounds="pairs of temperatures, one of them symbolic; with constant, carbonate and CO2 adjustments"),
    Harness("copies", copies, quick=[{"form": "Y2O3", "T": 300, "open": ["O"], "id": "mp-1"}, {"form": "Li2CO3", "T": [300, 400], "open": ["C", "O"]}, {"form": "O2", "T": 500, "open": ["O"], "id": 7}], bounds="all enthalpies, adjustments, chempots"),
    Harness("structure", structure, quick=[{"form": "Y4O6", "T": 300}, {"form": "Li4C2O6", "T": 1450}], bounds="all volumes"),
    Harness("valid", valid, quick=[{"range": [0, 450]}, {"range": [1950, 3000]}], bounds="temperatures in [0,450] and [1950,3000] K"),
]
