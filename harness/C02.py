"""Cost functions: softplus and weighted sum of the named parameters."""
from symx.core import And, Not, Or, Sum
from symx.harness import Harness

from .common import entry

ASSUMPTIONS = ["exp and log are uninterpreted functions with monotonicity, inverse and tangent axioms; arguments within [-8, 8]"]
FORMS = (["BaO", "TiO2"], ["BaTiO3"], [-1, -1, 1])


def rxn(h, tag="", data=None, **fixed):
    from rxn_network.reactions.computed import ComputedReaction

    rea, pro, cs = FORMS
    es = [entry(f, fixed.get("e", {}).get(f, 0.0), eid=f) for f in rea + pro[:-1]]
    es.append(entry(pro[-1], h.real(f"{tag}e", -9, 9), eid=pro[-1]))
    d = {k: h.real(f"{tag}{k}", -4, 4) for k in (data or [])}
    return ComputedReaction(es, list(cs), data=dict(d)), d


def value(r, d, p):
    """data has precedence over the reaction's attributes"""
    return d[p] if p in d else getattr(r, p)


def _inputs(h):
    data = h.cfg["data"]
    r, d = rxn(h, data=data)
    params = h.cfg.get("params")
    ws = [h.real(f"w{i}", -3, 3) for i in range(len(params))] if h.cfg.get("weights") is None and params else h.cfg.get("weights")
    return r, d, params, ws


def weighted(h):
    from rxn_network.costs.functions import WeightedSum

    r, d, params, ws = _inputs(h)
    f = WeightedSum(params, ws) if params else WeightedSum()
    want = Sum([value(r, d, p) * w for p, w in zip(params, ws)]) if params else r.energy_per_atom
    c = f.evaluate(r)
    h.check_eq(c, want, "weighted-sum-of-the-parameters")
    h.check_eq(WeightedSum.from_dict(f.as_dict()).evaluate(r), want, "dictionary-round-trip")
    h.check(set(r.data) == set(d), "reaction-data-keys-unchanged")
    for k in d:
        h.check_eq(r.data[k], d[k], "reaction-data-unchanged")
    h.observe("c", c)


def softplus(h):
    from rxn_network.costs.functions import Softplus

    r, d, params, ws = _inputs(h)
    t = h.cfg["temp"]
    f = Softplus(t, params, ws) if params else Softplus(t)
    x = Sum([value(r, d, p) * w for p, w in zip(params, ws)]) if params else r.energy_per_atom
    c = f.evaluate(r)
    e = x.exp() if h.symbolic else __import__("math").exp(x)
    k = 273 / t
    want = (e * k + 1).log() if h.symbolic else __import__("math").log(1 + k * e)
    h.check_eq(c, want, "softplus-of-the-weighted-sum")
    h.check(c > 0, "cost-is-positive")
    h.check_eq(Softplus.from_dict(f.as_dict()).evaluate(r), want, "dictionary-round-trip")


def monotone(h):
    """a reaction with a larger weighted sum costs more, at higher temperature less"""
    from rxn_network.costs.functions import Softplus

    params, ws = h.cfg["params"], h.cfg["weights"]
    t = h.real("t", 100, 3000)
    a, da = rxn(h, "a", data=h.cfg["data"])
    b, db = rxn(h, "b", data=h.cfg["data"])
    xa = Sum([value(a, da, p) * w for p, w in zip(params, ws)])
    xb = Sum([value(b, db, p) * w for p, w in zip(params, ws)])
    f = Softplus(t, params, ws)
    ca, cb = f.evaluate(a), f.evaluate(b)
    h.check(Or(Not(xa <= xb), ca <= cb + 1e-9), "monotone-in-the-weighted-sum")
    h.check(ca > 0, "cost-is-positive")
    t2 = h.real("t2", 100, 3000)
    h.assume(t2 > t)
    c2 = Softplus(t2, params, ws).evaluate(a)
    h.check(c2 <= ca + 1e-9, "higher-temperature-lower-cost")


def reject(h):
    """non-positive temperatures and unknown parameters are refused"""
    from rxn_network.costs.functions import Softplus, WeightedSum

    t = h.real("t", -500, 500)
    try:
        Softplus(t)
        ok = True
    except ValueError:
        ok = False
    h.check(ok == bool(t > 0), "temperature-must-be-positive")
    r, d = rxn(h, data=h.cfg["data"])
    p = h.choice("p", ["energy_per_atom", "distance", "no_such_thing", "extra"])
    for f in (Softplus(300, [p], [1.0]), WeightedSum(["energy_per_atom", p], [1.0, 0.5])):
        try:
            f.evaluate(r)
            ok = True
        except ValueError:
            ok = False
        h.check(ok == (p == "energy_per_atom" or p in d), "missing-parameter-refused")


HARNESSES = [
    Harness("weighted", weighted, quick=[
        {"data": []}, {"data": ["distance"], "params": ["energy_per_atom", "distance"]}, {"data": ["distance", "energy_per_atom"], "params": ["distance", "energy_per_atom", "energy"]},
        {"data": ["a", "b", "c"], "params": ["c", "a", "b", "a"]}, {"data": ["num_atoms"], "params": ["num_atoms", "energy_per_atom"], "weights": [0.5, -2.0]},
        ], bounds="one to four parameters from the data or the attributes; all values in [-4,4] and weights in [-3,3]"),
    Harness("softplus", softplus, quick=[
        {"data": [], "temp": 300}, {"data": [], "temp": 1200.0}, {"data": ["primary_competition", "secondary_competition"], "params": ["energy_per_atom", "primary_competition", "secondary_competition"], "weights": [0.125, 0.5, 0.25], "temp": 600},
        {"data": ["distance"], "params": ["distance", "energy_per_atom"], "weights": [1.0, 0.0], "temp": 273}, {"data": ["energy_per_atom", "q"], "params": ["q", "energy_per_atom"], "weights": [-1.5, 2], "temp": 50},
        {"data": ["q"], "params": ["q", "energy"], "temp": 900},
        ], bounds="one to three parameters; all values; four temperatures"),
    Harness("monotone", monotone, quick=[{"data": [], "params": ["energy_per_atom"], "weights": [1.0]}, {"data": ["q"], "params": ["energy_per_atom", "q"], "weights": [0.5, 0.5]}],
            bounds="two reactions, two temperatures in [100,3000] K, all symbolic"),
    Harness("reject", reject, quick=[{"data": []}, {"data": ["distance"]}], bounds="temperature in [-500,500]; four parameter names"),
]
