"""The interface reaction hull is the lower convex envelope of the reaction energies."""
from symx.core import Abs, And, Implies, Min, Not, Or, Sum
from symx.harness import Harness

from . import hulls, sets
from .hulls import RXNS, build, envelope


def setup_symbolic():
    sets.patch_hash()
    hulls.setup()


ASSUMPTIONS = [
    "scipy's ConvexHull is replaced by an exact planar hull (strict vertices); collinear and duplicate points are resolved exactly",
    "reaction energies are at least 1e-3 eV/atom away from zero (qhull cannot hull points on one line)",
    "reactions at the same mixing ratio differ by at least 0.01 eV/atom; mixing ratios asked for are a reaction's own or at least 1e-3 from every reaction's",
]


def _points(names, en, xs):
    return [(0.0, 0.0), (1.0, 0.0)] + [(xs[k], en[k]) for k in names]


def hull(h):
    names = h.cfg["rxns"]
    irh, rx, en, xs, es = build(h, names, hi=h.cfg.get("hi", 1), swap=h.cfg.get("swap", False))
    for i, a in enumerate(names):
        for b in names[:i]:
            if abs(xs[a] - xs[b]) < 1e-9:
                h.assume(Abs(en[a] - en[b]) >= 0.01)
    pts = _points(names, en, xs)
    h.check(len(irh.reactions) == len(names) + 2, "two-endpoints-added")
    stable = list(irh.stable_reactions)
    unstable = list(irh.unstable_reactions)
    h.check(len(stable) + len(unstable) == len(names) + 2, "stable-and-unstable-partition")
    for k in names:
        h.check_eq(irh.get_coordinate(rx[k]), xs[k], "mixing-ratio")
        e = irh.get_energy_above_hull(rx[k])
        env = envelope(pts, xs[k])
        h.check_eq(e, en[k] - env, "energy-above-hull")
        h.check_eq(irh.get_hull_energy(xs[k]), env, "hull-energy-at-reaction")
        others = envelope([p for p in _points([n for n in names if n != k], en, xs)], xs[k])
        st = any(r is rx[k] for r in stable)
        if st:
            h.check(en[k] <= env + 1e-6, "stable-reactions-are-on-the-hull")
        else:
            h.check(Not(en[k] < others - 1e-6), "reactions-below-all-mixtures-are-stable")
            h.check(any(r is rx[k] for r in unstable), "not-stable-is-unstable")
    for r, x in ((irh.endpoint_reactions[0], 0), (irh.endpoint_reactions[1], 1)):
        h.check_eq(irh.get_coordinate(r), x, "mixing-ratio-of-reactants")
        h.check(bool(r.is_identity), "endpoints-are-the-reactants")


def anywhere(h):
    """hull energy and reactions at an arbitrary mixing ratio"""
    names = h.cfg["rxns"]
    irh, rx, en, xs, es = build(h, names, hi=h.cfg.get("hi", 1), swap=h.cfg.get("swap", False))
    pts = _points(names, en, xs)
    x = h.real("x", 0, 1)
    for v in {p[0] for p in pts}:
        h.assume(Abs(x - v) >= 1e-3)
    # envelope at x: over all pairs around x
    c = []
    for a, ya in pts:
        for b, yb in pts:
            if a < b and bool(x > a) and bool(x < b):
                c.append((ya * (b - x) + yb * (x - a)) / (b - a))
    h.check_eq(irh.get_hull_energy(x), Min(c), "hull-energy-anywhere")
    d = irh.get_reactions_by_coordinate(x)
    h.check_eq(Sum(list(d.values())), 1, "weights-sum-to-one")
    h.check(And([w >= -1e-9 for w in d.values()]), "weights-are-fractions")
    tot = 0
    for r, w in d.items():
        k = [n for n in names if rx[n] is r]
        xr = xs[k[0]] if k else (0 if r == irh.endpoint_reactions[0] else 1)
        tot = tot + w * xr
    h.check_eq(tot, x, "weights-reproduce-the-mixing-ratio")
    h.observe("n", len(d))


L = [
    {"rxns": ["113", "214", "125"]}, {"rxns": ["125", "113", "113b"], "swap": True}, {"rxns": ["113", "d1"]}, {"rxns": ["214", "113", "d2"]},
    {"rxns": ["d2", "d1", "113"]}, {"rxns": ["1511", "113", "d1", "315"], "hi": -0.25}, {"rxns": ["113"], "swap": True}, {"rxns": ["113b", "125b", "125"]}, {"rxns": ["d2", "d2b", "113"], "swap": True},
]
HARNESSES = [
    Harness("hull", hull, quick=L, thorough=L + [{"rxns": r, "swap": s} for s in (False, True) for r in (["113", "214", "125", "d1", "d2"], ["1511", "113", "113b", "214"], ["1511", "113", "125", "315"], ["315", "d2", "d2b", "125", "113"], ["d1", "d1b", "214", "1511"])],
            bounds="1-4 (thorough 5) reactions of 11 between two phases incl. decomposition of either reactant and reactions at the same ratio; energies symbolic in [-1,1] eV per free product; both orders of the reactants"),
    Harness("anywhere", anywhere, quick=[dict(L[0], hi=0)] + L[1:5], thorough=L, bounds="as above; any mixing ratio in [0,1]"),
]
