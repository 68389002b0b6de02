"""Symbolic 2-D convex hull (stand-in for scipy's) and shared interface-hull inputs."""
import numpy as np

from symx.core import Abs, Min, Sum, is_sym

from .common import comp, entry, parse


class ConvexHull:
    """Exact planar hull: strict vertices in counter-clockwise order; orientation tests fork."""

    def __init__(self, points, incremental=False, qhull_options=None):
        pts = np.asarray(points)
        self.points = pts
        n = len(pts)
        idx = list(range(n))
        # order by x then y (x concrete or symbolic)
        for i in range(1, n):
            j = i
            while j and self._less(pts[idx[j]], pts[idx[j - 1]]):
                idx[j], idx[j - 1] = idx[j - 1], idx[j]
                j -= 1
        lower, upper = self._chain(pts, idx), self._chain(pts, idx[::-1])
        v = lower[:-1] + upper[:-1]
        if len(v) < 3:
            from scipy.spatial import QhullError

            raise QhullError("flat initial simplex")
        self.vertices = np.array(v)
        self.simplices = np.array([[v[i], v[(i + 1) % len(v)]] for i in range(len(v))])
        tot = 0
        for a, b in zip(v, v[1:] + v[:1]):
            tot = tot + (pts[a][0] * pts[b][1] - pts[b][0] * pts[a][1])
        self.volume = tot / 2

    @staticmethod
    def _less(a, b):
        if bool(a[0] < b[0]):
            return True
        if bool(a[0] > b[0]):
            return False
        return bool(a[1] < b[1])

    @staticmethod
    def _chain(pts, idx):
        out = []
        for k in idx:
            p = pts[k]
            if out and bool(p[0] == pts[out[-1]][0]) and bool(p[1] == pts[out[-1]][1]):
                continue
            while len(out) > 1:
                a, b = pts[out[-2]], pts[out[-1]]
                if bool((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]) > 0):
                    break
                out.pop()
            out.append(k)
        return out


def setup():
    import scipy.spatial

    from symx import inject

    inject.EXTRA[id(scipy.spatial.ConvexHull)] = (scipy.spatial.ConvexHull, ConvexHull)


C1, C2 = "BaO", "TiO2"
# name: (coefficients over formulas); the first product's energy makes the reaction energy free
RXNS = {
    "113": {"BaO": -1, "TiO2": -1, "BaTiO3": 1},
    "113b": {"BaO": -1, "TiO2": -1, "BaO2": 1, "TiO": 1},
    "214": {"BaO": -2, "TiO2": -1, "Ba2TiO4": 1},
    "125": {"BaO": -1, "TiO2": -2, "BaTi2O5": 1},
    "125b": {"BaO": -0.5, "TiO2": -1, "Ba2Ti4O9": 0.25, "O2": 0.125},
    "1511": {"BaO": -1, "TiO2": -5, "BaTi5O11": 1},
    "315": {"BaO": -3, "TiO2": -1, "Ba3TiO5": 1},
    "d1": {"BaO": -1, "Ba": 1, "O2": 0.5},
    "d2": {"TiO2": -1, "TiO": 1, "O2": 0.5},
    "d2b": {"TiO2": -2, "Ti2O3": 1, "O2": 0.5},
    "d1b": {"BaO": -2, "BaO2": 1, "Ba": 1},
}
ATOMS = {k: sum(parse(f).__len__() and sum(parse(f).values()) * c for f, c in r.items() if c > 0) for k, r in RXNS.items()}
FREE = {k: next(f for f, c in r.items() if c > 0) for k, r in RXNS.items()}
for _r in RXNS.values():
    _a = {}
    for _f, _c in _r.items():
        for _e, _n in parse(_f).items():
            _a[_e] = _a.get(_e, 0) + _n * _c
    assert all(abs(v) < 1e-9 for v in _a.values()), _r


def xcoord(k):
    """atomic fraction of TiO2 among the reactants"""
    r = RXNS[k]
    a, b = -r.get(C1, 0) * 2, -r.get(C2, 0) * 3
    return b / (a + b)


def build(h, names, lo=-1, hi=1, swap=False, scales=True, gap=0.0):
    """(hull, reactions by name, energies per atom by name, entries)"""
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.hull import InterfaceReactionHull

    forms = sorted({f for k in names for f in RXNS[k]} | {C1, C2})
    free = {}
    for k in names:
        # products shared between reactions keep one energy; each reaction owns its first free product
        f = next(f for f, c in RXNS[k].items() if c > 0 and f not in free and f not in (C1, C2))
        free[f] = h.real(f"e_{k}", lo, hi)
    es = {f: entry(f, free.get(f, 0.0) * 1, eid=f) for f in forms}
    rx, en = {}, {}
    for n, k in enumerate(names):
        r = RXNS[k]
        s = (1, 0.5, 3)[n % 3] if scales else 1
        fs = list(r) if n % 2 == 0 else list(r)[::-1]
        rx[k] = ComputedReaction([es[f] for f in fs], [r[f] * s for f in fs])
        en[k] = Sum([free[f] * c for f, c in r.items() if f in free]) / ATOMS[k]
        h.assume(Abs(en[k]) >= 0.001)
    a, b = (C2, C1) if swap else (C1, C2)
    hull = InterfaceReactionHull(comp(a), comp(b), [rx[k] for k in names])
    xs = {k: round(1 - xcoord(k) if swap else xcoord(k), 12) for k in names}
    return hull, rx, en, xs, es


def envelope(points, x):
    """lower convex envelope of the points at x, by all pairs"""
    c = [y for px, y in points if abs(px - x) < 1e-9]
    for i, (a, ya) in enumerate(points):
        for b, yb in points:
            if a < x - 1e-9 and b > x + 1e-9:
                w = (x - a) / (b - a)
                c.append(ya * (1 - w) + yb * w)
    return Min(c)
