"""Secondary competition: the mean energy over all sequences of pairwise interface reactions."""
from symx.core import Abs, And, Max, Min, Not, Sum
from symx.harness import Harness

from . import hulls, sets
from .hulls import build, envelope


def setup_symbolic():
    sets.patch_hash()
    hulls.setup()


ASSUMPTIONS = [
    "reaction energies at least 1e-3 eV/atom away from zero; scipy's ConvexHull replaced by an exact planar hull",
    "no three hull points closer than 1e-4 eV/atom to one line (whether such a point is a vertex is left open)",
    "when a reactant itself decomposes (a vertex below the reactant at its own mixing ratio) both the reactant and the decomposed state are kept as points, as get_coords_in_range documents",
]


def altitude(a, b, c):
    return b[1] - (a[1] + (b[0] - a[0]) / (c[0] - a[0]) * (c[1] - a[1]))


def sequences(pts):
    """(sum over all reaction sequences of their total energy, number of sequences)"""
    if len(pts) <= 2:
        return 0, 1
    tot, n = 0, 0
    for m in range(1, len(pts) - 1):
        le, ln = sequences(pts[: m + 1])
        re, rn = sequences(pts[m:])
        tot = tot + altitude(pts[0], pts[m], pts[-1]) * (ln * rn) + le * rn + re * ln
        n += ln * rn
    return tot, n


def vertices(h, names, en, xs):
    """hull vertices strictly below mixtures of the others, by mixing ratio (independent of the code)"""
    pts = [(0.0, 0.0), (1.0, 0.0)] + [(xs[k], en[k]) for k in names]
    low = {}
    for x, y in pts:
        x = round(x, 10)
        if x not in low or bool(y < low[x]):
            low[x] = y
    out = []
    for x, y in sorted(low.items()):
        rest = [(a, b) for a, b in low.items() if a != x]
        if any(a < x for a, _ in rest) and any(a > x for a, _ in rest):
            e = envelope(rest, x)
            h.assume(Abs(y - e) >= 1e-4)
            if not bool(y < e):
                continue
        out.append((x, y))
    return out


def region(vs, lo, hi, env):
    """points the code documents for [lo, hi]: hull vertices, ends at the hull, reactants kept"""
    ends = {0.0: 0.0, 1.0: 0.0}
    a, b = envelope(vs, lo), envelope(vs, hi)
    out = [(lo, a)] + [v for v in vs if lo + 1e-9 < v[0] < hi - 1e-9] + ([(hi, b)] if hi > lo + 1e-9 else [])
    if lo == 0.0 and bool(Abs(a) > 1e-7):
        out = [(0.0, 0.0)] + out
    if hi == 1.0 and bool(Abs(b) > 1e-7):
        out = out + [(1.0, 0.0)]
    return out


def secondary(h):
    names = h.cfg["rxns"]
    irh, rx, en, xs, es = build(h, names, lo=-1, hi=h.cfg.get("hi", 1), swap=h.cfg.get("swap", False))
    vs = vertices(h, names, en, xs)
    obs = []
    for k in names:
        x = round(xs[k], 10)
        le, ln = sequences(region(vs, 0.0, x, None))
        re, rn = sequences(region(vs, x, 1.0, None))
        want = -1 * (le / ln + re / rn)
        eh = en[k] - envelope(vs, x)
        h.check_eq(irh.get_secondary_competition(rx[k]), want, "mean-over-all-sequences")
        h.check_eq(irh.get_secondary_competition(rx[k], recursive=True), want, "recursive-gives-the-same")
        h.check_eq(irh.get_secondary_competition(rx[k], normalize=False), -1 * (le * rn + re * ln), "not-normalized")
        h.check_eq(irh.get_secondary_competition(rx[k], include_e_hull=True), want + eh, "including-energy-above-hull")
        obs.append(want)
    h.observe("c2", obs)


def extremes(h):
    """max-energy and area variants"""
    names = h.cfg["rxns"]
    irh, rx, en, xs, es = build(h, names, lo=-1, hi=h.cfg.get("hi", 1), swap=h.cfg.get("swap", False))
    vs = vertices(h, names, en, xs)
    from itertools import combinations

    for k in names:
        x = round(xs[k], 10)
        tot, area = 0, 0
        for lo, hi in ((0.0, x), (x, 1.0)):
            pts = region(vs, lo, hi, None)
            alts = [altitude(a, b, c) for a, b, c in combinations(pts, 3)]
            tot = tot + Min([0] + alts)
            # all points are in convex position: shoelace over the polygon
            area = area + (Sum([pts[i][0] * pts[i - 1][1] - pts[i - 1][0] * pts[i][1] for i in range(len(pts))]) if len(pts) > 2 else 0) / 2
        h.check_eq(irh.get_secondary_competition_max_energy(rx[k]), -1 * tot, "largest-single-step")
        h.check_eq(irh.get_secondary_competition_area(rx[k]), Abs(area), "area")


def counting(h):
    """number of sequences for n intermediate products, and its recursive implementation"""
    irh, rx, en, xs, es = build(h, ["113"], lo=-1, hi=-0.5)
    n = h.choice("n", range(h.cfg["lo"], h.cfg["hi"] + 1))
    c = [1]
    for m in range(n):
        c.append(sum(c[i] * c[m - i] for i in range(m + 1)))
    h.check(int(irh.count(n)) == c[n], "number-of-sequences")
    if n <= 16:
        h.check(int(irh._count_recursive(n)[0]) == c[n] if hasattr(irh, "_count_recursive") else True, "number-of-sequences-recursive")
    h.observe("n", n)


L = [{"rxns": ["113", "214", "125"], "hi": -0.125}, {"rxns": ["113", "d1"]}, {"rxns": ["d2", "214"], "hi": -0.125}, {"rxns": ["d2", "d1", "113"], "hi": -0.125}, {"rxns": ["113", "113b"], "swap": True}, {"rxns": ["d1", "113", "214"], "hi": -0.25, "swap": True}]
HARNESSES = [
    Harness("secondary", secondary, quick=L, thorough=[dict(c, hi=1) for c in L] + [{"rxns": ["1511", "113", "214", "125"], "hi": 0}, {"rxns": ["d1", "d2", "113", "214"], "hi": 0}],
            bounds="1-3 (thorough 4) reactions between two phases incl. decomposing reactants; energies symbolic"),
    Harness("extremes", extremes, quick=[dict(c) for c in L[:4]], thorough=[dict(c, hi=1) for c in L], bounds="as above"),
    Harness("counting", counting, quick=[{"lo": 0, "hi": 12}, {"lo": 13, "hi": 26}], bounds="0-26 intermediate products"),
]
