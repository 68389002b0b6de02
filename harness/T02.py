"""Chemical potential diagrams: domains, distances between them, offsets of metastable phases."""
from fractions import Fraction
from itertools import combinations

import numpy as np

from symx.core import Abs, And, Max, Min, Or, Sum, has_sym
from symx.harness import Harness

from . import esets, pds, sets
from .common import comp, gibbs, parse
from .pds import _solve


def setup_symbolic():
    import scipy.spatial as ss

    from symx import inject

    pds.setup()
    sets.patch_hash()
    inject.EXTRA[id(ss.HalfspaceIntersection)] = (ss.HalfspaceIntersection, HalfspaceIntersection)
    inject.EXTRA[id(ss.KDTree)] = (ss.KDTree, KDTree)


def EXTRA_MODULES():
    import pymatgen.analysis.chempot_diagram as c

    return [c]


ASSUMPTIONS = [
    "scipy's HalfspaceIntersection and KDTree are replaced by exact symbolic ones (of coinciding planes the first counts)",
    "pymatgen's PhaseDiagram is replaced by an exact symbolic one",
    "phases are at least 0.5 meV/atom away from being exactly on the hull, and no more phases than there are elements share a corner to within 1e-6 eV",
    "distances are distances between the corners of the domains, as documented",
]

FAR = -50.0  # corners beyond belong to the artificial limits


def _fr(x):
    return Fraction(float(x)).limit_denominator(10**6)


class HalfspaceIntersection:
    """corners of {x: A x + b <= 0}; which candidate corner is inside forks"""

    def __init__(self, halfspaces, interior_point, **kw):
        hs = np.asarray(halfspaces)
        d = hs.shape[1] - 1
        rows = []
        for i, r in enumerate(hs):
            a, b = [_fr(v) for v in r[:d]], r[d]
            if any(a == a2 and not has_sym([b, b2]) and b == b2 for _, a2, b2 in rows):
                continue
            rows.append((i, a, b))
        self.halfspaces, pts, self.dual_facets = hs, [], []
        for sub in combinations(rows, d):
            inv = _inverse([a for _, a, _ in sub])
            if inv is None:
                continue
            x = [_dot(w, [b for _, _, b in sub], -1) for w in inv]
            if all(r in sub or bool(_dot(r[1], x) + r[2] <= 0) for r in rows):
                pts.append(x)
                self.dual_facets.append([i for i, _, _ in sub])
        self.intersections = np.empty((len(pts), d), dtype=object)
        for i, p in enumerate(pts):
            self.intersections[i, :] = p
        if not has_sym(pts):
            self.intersections = self.intersections.astype(float)


def _inverse(a):
    n = len(a)
    cols = [_solve([[a[i][j] for i in range(n)] for j in range(n)], [Fraction(int(i == k)) for i in range(n)]) for k in range(n)]
    if any(c is None for c in cols):
        return None
    return [[cols[k][j] for k in range(n)] for j in range(n)]


def _dot(w, v, sign=1):
    tot = 0
    for c, x in zip(w, v):
        if c:
            c = sign * c
            tot = tot + (x * c if has_sym(x) else float(Fraction(float(x)) * c))
    return tot


class KDTree:
    """nearest points by exact comparison of squared distances"""

    def __init__(self, pts, **kw):
        self.pts = np.asarray(pts)

    def query(self, others, **kw):
        from symx.npshim import MATH

        out, ind = [], []
        for p in np.asarray(others):
            sq = [Sum([(a - b) * (a - b) for a, b in zip(p, q)]) for q in self.pts]
            k = 0
            for i in range(1, len(sq)):
                if bool(sq[i] < sq[k]):
                    k = i
            out.append(MATH.sqrt(sq[k]))
            ind.append(k)
        r = np.empty(len(out), dtype=object)
        r[:] = out
        return r, np.array(ind)


B = {**esets.BASE, "LiO2": -1.0, "YMn2O5": -2.6}
SYS = {
    "LiO": ["Li", "O2", "Li2O", "Li2O2"],
    "LiO3": ["Li", "O2", "Li2O", "Li2O2", "LiO2"],
    "MnO": ["Mn", "O2", "MnO", "Mn2O3", "MnO2"],
    "Mn4": ["Mn", "O2", "MnO", "Mn2O3", "Mn3O4", "MnO2"],
    "pair": ["Na", "Cl2", "NaCl"],
    "YMO": ["Y", "Mn", "O2", "Y2O3", "Mn2O3", "YMnO3"],
    "BTO": ["Ba", "Ti", "O2", "BaO", "TiO2", "BaTiO3"],
    "open": ["Ba", "Ti", "O2", "BaO", "TiO2", "BaTiO3", "Ba2TiO4"],
    "open2": ["Y", "Mn", "O2", "Y2O3", "MnO", "Mn2O3", "YMnO3", "YMn2O5"],
    "YMO2": ["Y", "Mn", "O2", "Y2O3", "Mn2O3", "YMnO3", "MnO"],
}


def pool(h):
    out = []
    for f in SYS[h.cfg["sys"]]:
        el = len(parse(f)) == 1
        e = h.cfg.get("ref", {}).get(f, 0.0) if el else B[f]
        if f in h.cfg["sym"]:
            w = h.cfg.get("width", 0.5)
            e = h.real(f"e_{f}", -0.5, -0.001) if el else h.real(f"e_{f}", e - w, e + w)
        out.append(gibbs(f, e, eid=f + "-0"))
    for f in h.cfg.get("extra", []):
        el = len(parse(f)) == 1
        e = 0.0 if el else B[comp(f).reduced_formula]
        out.append(gibbs(f, h.real(f"e_{f}_1", e + 0.02 if el else e - 0.5, e + 0.5), eid=f + "-1"))
    if h.cfg.get("rev"):
        out.reverse()
    if h.cfg.get("open"):
        from pymatgen.core.periodic_table import Element

        mu = {Element(h.cfg["open"]): h.real("mu", -1.5, -0.25) if h.cfg.get("mu") is None else h.cfg["mu"]}
        out = [e.to_grand_entry(mu) for e in out if set(parse(e.composition.reduced_formula)) != {h.cfg["open"]}]
    return out


def lowest(es):
    """ground state of every formula"""
    out = {}
    for e in es:
        f = e.composition.reduced_formula
        if f not in out or bool(e.energy_per_atom < out[f].energy_per_atom):
            out[f] = e
    return out


def corners(h, els, planes):
    """formula -> corners of its domain: the chemical potentials at which as many phases as elements coexist

    planes: {formula: (atomic fractions, energy per atom)}"""
    out = {}
    items = list(planes.items())
    for sub in combinations(items, len(els)):
        inv = _inverse([[x.get(e, Fraction(0)) for e in els] for _, (x, _) in sub])
        if inv is None:
            continue
        mu = [_dot(w, [e for _, (_, e) in sub]) for w in inv]
        ok = True
        for f, (x, e) in items:
            if any(f == g for g, _ in sub):
                continue
            gap = e - _dot([x.get(k, Fraction(0)) for k in els], mu)
            h.assume(Abs(gap) >= 1e-6)
            if not bool(gap > 0):
                ok = False
                break
        if ok and all(bool(m > FAR) for m in mu):
            for f, _ in sub:
                out.setdefault(f, []).append(mu)
    return out


def near(a, b, tol=1e-6):
    return And(*[Abs(x - y) <= tol for x, y in zip(a, b)])


def real_corners(pts):
    return [list(p) for p in pts if all(bool(x > FAR) for x in p)]


def same_points(got, want, tol=1e-6):
    return And(len(got) == len(want), *[Or(*[near(p, q, tol) for p in got]) for q in want], *[Or(*[near(p, q, tol) for q in want]) for p in got])


def sq(a, b):
    return Sum([(x - y) * (x - y) for x, y in zip(a, b)])


def is_min(v, sqs, tol=1e-5):
    """v is the smallest distance"""
    return And(v >= 0, *[v * v <= s + tol for s in sqs], Or(*[v * v >= s - tol for s in sqs]))


def setup(h):
    from rxn_network.thermo.chempot_diagram import ChemicalPotentialDiagram

    es = pool(h)
    for i, a in enumerate(es):
        for b in es[i + 1:]:
            if a.composition.reduced_formula == b.composition.reduced_formula:
                h.assume(Abs(a.energy_per_atom - b.energy_per_atom) >= 0.0005)
    low = lowest(es)
    above = {}
    for e in es:
        above[id(e)] = v = esets.above_hull(es, e)
        h.assume(Or(v <= 1e-12, v >= 0.0005))
    els = sorted({e for f in low for e in parse(f)}, key=lambda s: comp(s).elements[0])
    planes = {f: (pds.fractions(e.composition), e.energy_per_atom) for f, e in low.items()}
    return es, low, above, els, planes, ChemicalPotentialDiagram(es)


def metastable(h, els, planes, f, above):
    """domain of a metastable phase that is lowered until just stable"""
    x, e = planes[f]
    n = comp(f).num_atoms
    return corners(h, els, {**{k: v for k, v in planes.items()}, f: (x, e - above - 1e-5 / n)})[f]


def domains(h):
    es, low, above, els, planes, cpd = setup(h)
    want = corners(h, els, planes)
    stable = {f for f, e in low.items() if bool(above[id(e)] <= 1e-9)}
    h.check(set(cpd.domains) == stable, "every-stable-formula-has-a-domain")
    h.check([str(e) for e in cpd.elements] == els, "axes")
    h.check(And(*[same_points(real_corners(cpd.domains[f]), want.get(f, [])) for f in stable]), "corners-are-the-equilibria-with-the-neighbours")
    conds = []
    for f, pts in cpd.domains.items():
        for p in pts:
            x = planes[f][0]
            conds.append(Abs(_dot([x.get(k, Fraction(0)) for k in els], list(p)) - planes[f][1]) <= 1e-6)
    h.check(And(*conds), "corners-lie-on-the-plane-of-the-phase")
    for f in sorted(stable):
        if want.get(f):
            h.observe(f, want[f][0][0])


def offsets(h):
    es, low, above, els, planes, cpd = setup(h)
    conds = []
    for e in es:
        x = pds.fractions(e.composition)
        n2 = sum(v * v for v in x.values())
        o = cpd.get_offset(e)
        v = above[id(e)]
        conds += [o >= 0, Abs(o * o * n2 - v * v) <= 1e-7]
        if bool(v <= 1e-9):
            conds.append(o <= 1e-8)
    h.check(And(*conds), "distance-of-the-plane-from-the-surface")


def distances(h):
    """distances between any phases, stable or not, in any order of asking"""
    es, low, above, els, planes, cpd = setup(h)
    want = corners(h, els, planes)
    asked = h.cfg["ask"]
    if h.cfg.get("orders"):
        asked = [asked[i] for i in h.choice("order", h.cfg["orders"])]
    need = {f for p in asked for f in p}
    for f in sorted(need):
        if bool(above[id(low[f])] > 1e-9):
            want[f] = metastable(h, els, planes, f, above[id(low[f])])
    off = h.cfg.get("offset", 0.0)
    conds = []
    for f, g in asked:
        names = [h.cfg.get("spelled", {}).get(x, x) for x in (f, g)]
        d = cpd.shortest_domain_distance(*names, off) if off else cpd.shortest_domain_distance(*names)
        conds.append(is_min(d - off, [sq(a, b) for a in want[f] for b in want[g]]))
    h.check(And(*conds), "shortest-distance-between-the-domains")
    if h.cfg.get("meta"):
        unstable = {f for f, e in low.items() if bool(above[id(e)] > 1e-9)}
        m = cpd.metastable_domains
        h.check(set(m) == unstable, "metastable-domains-of-the-other-formulas")
        conds = []
        for f in unstable:
            w = want[f] if f in need else metastable(h, els, planes, f, above[id(low[f])])
            conds.append(same_points(real_corners(m[f]), w))
        h.check(And(*conds), "corners-of-metastable-domains")
        h.check({id(e) for e in cpd.entries} == {id(e) for e in es}, "entries-kept")


Q1 = [
    {"sys": "LiO", "sym": ["Li2O", "Li2O2"]},
    {"sys": "LiO", "sym": ["Li2O", "Li"], "extra": ["Li2O"], "rev": True},
    {"sys": "LiO3", "sym": ["LiO2", "Li2O2"], "ref": {"O2": -0.25}},
    {"sys": "MnO", "sym": ["MnO", "MnO2"], "extra": ["Mn"]},
    {"sys": "Mn4", "sym": ["Mn3O4", "Mn2O3"], "width": 0.25},
    {"sys": "pair", "sym": ["NaCl", "Cl2"]},
    {"sys": "YMO", "sym": ["YMnO3"]},
    {"sys": "BTO", "sym": ["BaTiO3", "TiO2"]},
    {"sys": "YMO2", "sym": ["YMnO3"], "extra": ["Y2Mn2O6"]},
    {"sys": "open", "sym": ["BaTiO3"], "open": "O"},
    {"sys": "open2", "sym": ["YMnO3"], "open": "O", "mu": -0.5},
]
Q2 = [
    {"sys": "LiO", "sym": ["Li2O2"], "ask": [["Li2O", "Li2O2"], ["Li", "O2"], ["Li", "Li2O2"]]},
    {"sys": "LiO3", "sym": ["LiO2"], "ask": [["LiO2", "Li2O"], ["Li2O2", "LiO2"], ["Li", "LiO2"]], "orders": [[0, 1, 2], [2, 0, 0], [1, 2, 0]], "meta": True},
    {"sys": "MnO", "sym": ["MnO"], "ask": [["MnO", "MnO2"], ["MnO", "O2"]], "meta": True, "offset": 0.25},
    {"sys": "Mn4", "sym": ["Mn3O4"], "ask": [["MnO", "Mn2O3"], ["Mn3O4", "MnO2"], ["MnO2", "Mn"]], "meta": True},
    {"sys": "YMO", "sym": ["YMnO3"], "ask": [["YMnO3", "Y2O3"], ["Y", "YMnO3"], ["Y2O3", "Mn2O3"]], "meta": True},
    {"sys": "BTO", "sym": ["BaTiO3"], "ask": [["BaTiO3", "BaO"], ["Ba", "TiO2"]], "offset": 0.5},
    {"sys": "open", "sym": ["BaTiO3"], "open": "O", "mu": -0.75, "ask": [["BaTi", "Ba"], ["Ba2Ti", "BaTi"], ["Ti", "Ba"]], "meta": True},
    {"sys": "LiO", "sym": ["Li2O2"], "ask": [["Li2O", "Li2O2"], ["Li2O2", "Li"]], "spelled": {"Li2O2": "LiO", "Li2O": "OLi2"}},
    {"sys": "open", "sym": [], "open": "O", "ask": [["BaTi", "Ba"], ["Ti", "Ba2Ti"]]},
]
HARNESSES = [
    Harness("domains", domains, quick=Q1, bounds="two or three elements, one to four compounds, polymorphs; up to three energies (compounds and element references) symbolic; closed, or open to oxygen at a symbolic chemical potential"),
    Harness("offsets", offsets, quick=[c for i, c in enumerate(Q1) if i not in (0, 3, 5)], bounds="as above"),
    Harness("distances", distances, quick=Q2, bounds="two or three elements, two to four compounds, one energy within 0.5 eV/atom symbolic; up to three queries in the orders listed"),
]
