"""Entry sets at a new temperature, adjusted and jittered entries: new objects, right energies, originals untouched."""
import numpy as np

from symx import inject
from symx.core import And, Sum
from symx.harness import Harness

from . import esets, pds, sets
from .common import comp, parse
from .E05 import _t
from .E06 import cls


class _Noise:
    values = None


def _normal(*a, size=None, **kw):
    v = np.empty(size, dtype=object)
    for i in range(size):
        v[i] = _Noise.values[i]
    return v


def setup_symbolic():
    import numpy.random as npr

    pds.setup()
    sets.patch_hash()
    inject.EXTRA[id(npr.normal)] = (npr.normal, _normal)


ASSUMPTIONS = ["pymatgen's PhaseDiagram is replaced by an exact symbolic one (minimum over all extreme decompositions)",
               "Gaussian samples are arbitrary reals"]


def _pool(h, t):
    """Gibbs entries with adjustments and, on request, experimental, CO2 and interpolated ones"""
    from pymatgen.entries.computed_entries import ConstantEnergyAdjustment

    from rxn_network.entries.corrections import CarbonDioxideAtmosphericCorrection
    from rxn_network.entries.gibbs import GibbsComputedEntry

    out = []
    for f in esets.SYS[h.cfg["sys"]]:
        e = 0.0 if len(parse(f)) == 1 else esets.BASE[f]
        if f in h.cfg["sym"]:
            e = h.real(f"e_{f}", e - 0.5, e + 0.5)
        adj = [ConstantEnergyAdjustment(h.real(f"adj_{f}", -1, 1), name="shift")] if f in h.cfg.get("adj", []) else []
        out.append(GibbsComputedEntry(comp(f), e, 10.0, t, energy_adjustments=adj, entry_id=f, data={"keep": f, **({"e_above_hull": 0.0625} if f in h.cfg.get("stale", []) else {})}))
    for src, f in h.cfg.get("exp", []):
        a = [CarbonDioxideAtmosphericCorrection(3, t)] if f == "CO2" else []
        out.append(cls(src)(comp(f), t, energy_adjustments=a, data={"keep": f}))
    return out


def _range(e):
    """temperatures the entry can have"""
    from .E06 import table

    for src in ("nist", "freed"):
        if type(e) is cls(src):
            tab = table(src)[e.composition.reduced_formula]
            return min(tab), max(tab)
    return 300, 2000


def newtemp(h):
    from rxn_network.entries.entry_set import GibbsEntrySet

    t1, t2 = h.cfg["T"], _t(h, h.cfg["T2"], "T2")
    pre = bool(h.cfg.get("hulls"))
    pool = _pool(h, t1)
    fresh = _pool(h, t2) if not h.cfg.get("lost") else None
    s = GibbsEntrySet(pool, calculate_e_above_hulls=pre)
    before = [(e.energy, e.data.get("e_above_hull")) for e in pool]
    got = s.get_entries_with_new_temperature(t2)
    ok = [i for i, e in enumerate(pool) if bool((t2 >= _range(e)[0]) & (t2 <= _range(e)[1]))]
    h.check(type(got) is GibbsEntrySet and len(got) == len(ok), "one-entry-for-each-that-can-have-the-temperature")
    if len(got) != len(ok):
        return
    new = {}
    for i in ok:
        m = [e for e in got if e.data.get("keep") == pool[i].data["keep"] and type(e) is type(pool[i])]
        h.check(len(m) == 1, "same-entries")
        if len(m) != 1:
            return
        new[i] = m[0]
        h.check(m[0] is not pool[i] and m[0].composition == pool[i].composition, "new-objects")
        h.check_eq(m[0].temperature, t2, "new-temperature")
        if fresh:
            h.check_eq(m[0].energy, fresh[i].energy, "energy-of-an-entry-made-there")
    for e, (en, ah) in zip(pool, before):
        h.check_eq(e.energy, en, "originals-unchanged:energy")
        h.check_eq(e.temperature, t1, "originals-unchanged:temperature")
        h.check(e.data.get("keep") is not None and (e.data.get("e_above_hull") is not None) == (pre or e.data["keep"] in h.cfg.get("stale", [])), "originals-unchanged:data")
        if ah is not None:
            h.check_eq(e.data["e_above_hull"], ah, "originals-unchanged:energy-above-hull")
    h.check(len(s) == len(pool), "original-set-unchanged")
    if len(ok):
        h.check_eq(got.temperature, t2, "temperature-of-the-set")
    h.check(bool(got.calculate_e_above_hulls) == pre, "option-kept")
    for i, e in new.items():
        v = e.data.get("e_above_hull")
        if not pre:
            h.check(v is None, "no-stale-energy-above-hull")
        else:
            h.check_eq(v, esets.above_hull(list(new.values()), e), "energy-above-hull-at-the-new-temperature")


def adjusted(h):
    """an adjustment adds its value and leaves the original alone"""
    from pymatgen.core.periodic_table import Element
    from pymatgen.entries.computed_entries import ComputedEntry, ConstantEnergyAdjustment

    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.entries.gibbs import GibbsComputedEntry
    from rxn_network.entries.interpolated import InterpolatedEntry

    kind, form = h.cfg["kind"], h.cfg["form"]
    first = [ConstantEnergyAdjustment(h.real("a0", -1, 1), name="first")] if h.cfg.get("first") else []
    if kind in ("nist", "freed"):
        e = cls(kind)(comp(form), 300, energy_adjustments=first)
    elif kind == "gibbs":
        e = GibbsComputedEntry(comp(form), h.real("hf", -4, 0), 12.0, 300, energy_adjustments=first, entry_id="x", data={"d": 1})
    elif kind == "interpolated":
        e = InterpolatedEntry(comp(form), h.real("e", -9, 0), energy_adjustments=first, entry_id="x", data={"d": 1})
    else:
        e = ComputedEntry(comp(form), h.real("e", -9, 0), energy_adjustments=first, entry_id="x", data={"d": 1})
    mus = {}
    if h.cfg.get("open"):
        mus = {Element(el): h.real(f"mu_{el}", -3, 0) for el in h.cfg["open"]}
        e = e.to_grand_entry(mus)
    before = e.energy
    a, b = h.real("a", -2, 2), h.real("b", -2, 2)
    one = GibbsEntrySet.get_adjusted_entry(e, ConstantEnergyAdjustment(a, name="shift"))
    two = GibbsEntrySet.get_adjusted_entry(one, ConstantEnergyAdjustment(b, uncertainty=0.25, name="shift"))
    h.check_eq(e.energy, before, "original-unchanged")
    h.check_eq(one.energy, before + a, "adds-the-adjustment")
    h.check_eq(two.energy, before + a + b, "adjustments-add-up")
    for x in (one, two):
        h.check(type(x) is type(e) and x.composition == e.composition and getattr(x, "original_entry", x).entry_id == getattr(e, "original_entry", e).entry_id, "identity")
    inner = getattr(two, "original_entry", two)
    h.check(any(x.uncertainty == 0.25 for x in inner.energy_adjustments), "uncertainty-kept")
    if kind in ("gibbs", "nist", "freed") and not mus:
        h.check_eq(two.temperature, 300, "temperature-kept")
        later = two.get_new_temperature(500)
        h.check_eq(later.energy, e.get_new_temperature(500).energy + a + b, "adjustments-survive-a-change-of-temperature")


def jitter(h):
    from pymatgen.entries.computed_entries import ConstantEnergyAdjustment

    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.entries.gibbs import GibbsComputedEntry

    pool = []
    for f in esets.SYS[h.cfg["sys"]]:
        e = 0.0 if len(parse(f)) == 1 else esets.BASE[f]
        if f in h.cfg["sym"]:
            e = h.real(f"e_{f}", e - 0.5, e + 0.5)
        u = h.cfg["unc"].get(f)
        adj = [ConstantEnergyAdjustment(0.25, uncertainty=u, name="shift")] if u is not None else []
        x = GibbsComputedEntry(comp(f), e, 10.0, 300, energy_adjustments=adj, entry_id=f, data={"keep": f})
        if f in h.cfg.get("bare", []):
            x.energy_adjustments.clear()
        pool.append(x)
    s = GibbsEntrySet(pool)
    order = list(s.entries_list)
    z = [h.real(f"z{i}", -3, 3) for i in range(len(order))]
    if h.symbolic:
        _Noise.values = z
        got = s.get_entries_with_jitter()
    else:
        from unittest import mock

        with mock.patch("rxn_network.entries.entry_set.normal", lambda *a, size=None, **kw: np.array(z)):
            got = s.get_entries_with_jitter()
    new = {e.entry_id: e for e in got}
    h.check(len(new) == len(got) and set(new) <= {e.entry_id for e in pool}, "same-entries")
    kept = []
    for i, e in enumerate(order):
        m = new.get(e.entry_id)
        if e.is_element:
            kept.append(m is not None and m.energy == e.energy)
            continue
        h.check(m is not None, "compounds-are-kept")
        if m is None:
            continue
        u = Sum([a.uncertainty**2 for a in e.energy_adjustments if not np.isnan(a.uncertainty)])
        d = m.energy - e.energy
        h.check_eq(d * d, u * z[i] * z[i], "shifted-by-the-uncertainty-times-the-sample", tol=1e-5)
        h.check(bool(m is not e) and m.composition == e.composition and m.data["keep"] == e.data["keep"], "new-objects")
    h.check(len(s) == len(pool) and all(e in s for e in pool), "original-set-unchanged")
    h.check(And(*[k for k in kept]), "elements-keep-their-energy")


HARNESSES = [
    Harness("newtemp", newtemp, quick=[
        {"sys": "MnO", "sym": ["Mn2O3"], "adj": ["Mn2O3"], "T": 300, "T2": [800, 900]},
        {"sys": "MnO", "sym": ["Mn2O3"], "adj": [], "T": 300, "T2": [900, 1000], "stale": ["Mn2O3", "MnO", "Mn"]},
        {"sys": "MnO", "sym": ["Mn2O3"], "adj": ["MnO"], "T": 500, "T2": 1200.0, "hulls": 1},
        {"sys": "MnO", "sym": [], "adj": [], "exp": [["nist", "CO2"], ["freed", "BaO"]], "T": 400, "T2": [1000, 1100]},
        {"sys": "BTO", "sym": ["BaTiO3"], "adj": [], "exp": [["freed", "BaO"]], "T": 300, "T2": 700, "hulls": 1},
        {"sys": "two", "sym": ["Li2O"], "adj": ["NaCl"], "exp": [["nist", "HCl"]], "T": 700, "T2": [300, 400]},
        {"sys": "two", "sym": [], "adj": [], "exp": [["nist", "BBr3"], ["freed", "Ag2O"], ["freed", "BaO"]], "T": 300, "T2": [1900, 2000], "lost": 1},
        {"sys": "MnO", "sym": ["MnO"], "adj": [], "T": 300, "T2": [2000, 2200], "lost": 1},
    ], thorough=[{"sys": y, "sym": [f], "adj": [f], "exp": x, "T": a, "T2": b, "hulls": k} for y, f, x in (("MnO", "Mn2O3", []), ("two", "Li2O", [["nist", "HCl"], ["freed", "CO2"]]), ("BTO", "TiO2", [["freed", "BaO"], ["nist", "CO2"]]), ("YMO", "YMnO3", []))
                 for a in (300, 900.0) for b in ([500, 600], 1000, [1700, 1800], 300) for k in (0, 1) if not (k and (isinstance(b, list) or x))],
        bounds="six to ten Gibbs, NIST and FREED entries; energies, adjustments and the new temperature symbolic; entries without data at the new temperature"),
    Harness("adjusted", adjusted, quick=[{"kind": k, "form": f, "first": b, "open": o} for k, f in (("gibbs", "Mn2O3"), ("gibbs", "Li2O"), ("nist", "CO2"), ("freed", "BaO"), ("interpolated", "MnO3"), ("computed", "Y2O3")) for b in (0, 1) for o in ([], ["O"]) if not (o and k == "computed")],
            bounds="four classes of entry and their grand potential forms; all energies, adjustments and chemical potentials"),
    Harness("jitter", jitter, quick=[
        {"sys": "MnO", "sym": ["Mn2O3"], "unc": {"Mn2O3": 0.25, "MnO": 0.5, "MnO2": 0.0}, "bare": []},
        {"sys": "two", "sym": ["Li2O"], "unc": {"Li2O": 0.125}, "bare": []},
        ], bounds="six to eight entries, arbitrary Gaussian samples"),
]
