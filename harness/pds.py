"""Exact symbolic phase diagram (stand-in for pymatgen's) and scipy's interp1d."""
from fractions import Fraction
from itertools import combinations, groupby

import numpy as np

from symx.core import Min, is_sym


def _solve(cols, rhs):
    """unique exact solution of sum w_i cols_i = rhs for independent columns, else None"""
    n, k = len(rhs), len(cols)
    rows = [[c[i] for c in cols] + [rhs[i]] for i in range(n)]
    r = 0
    for c in range(k):
        p = next((i for i in range(r, n) if rows[i][c] != 0), None)
        if p is None:
            return None
        rows[r], rows[p] = rows[p], rows[r]
        f = rows[r][c]
        rows[r] = [x / f for x in rows[r]]
        for i in range(n):
            if i != r and rows[i][c] != 0:
                g = rows[i][c]
                rows[i] = [a - g * b for a, b in zip(rows[i], rows[r])]
        r += 1
    if any(rows[i][k] != 0 for i in range(r, n)):
        return None
    return [rows[i][k] for i in range(k)]


def fractions(comp):
    """element symbol -> exact atomic fraction"""
    d = {str(el): Fraction(float(a)).limit_denominator(10**6) for el, a in comp.items() if a > 1e-9}
    t = sum(d.values())
    return {k: v / t for k, v in d.items()}


def decompositions(target, phases):
    """all extreme decompositions {phase index: atomic weight} of the target fractions into the phases"""
    els = sorted({e for p in phases for e in p} | set(target))
    vec = lambda d: [d.get(e, Fraction(0)) for e in els]
    usable = [i for i, p in enumerate(phases) if set(p) <= set(target)]
    out = []
    for k in range(1, len(target) + 1):
        for sub in combinations(usable, k):
            w = _solve([vec(phases[i]) for i in sub], vec(target))
            if w is not None and all(x > 0 for x in w):
                out.append(dict(zip(sub, w)))
    return out


def num(fr):
    return int(fr) if fr.denominator == 1 else (float(fr) if (fr.denominator & (fr.denominator - 1)) == 0 else fr)


def lin(weights, energies):
    tot = 0
    for i, w in weights.items():
        e = energies[i]
        tot = tot + (e * w if is_sym(e) else float(Fraction(float(e)) * w))
    return tot


class PhaseDiagram:
    """hull energies as the exact minimum over all extreme decompositions"""

    formation_energy_tol = 1e-11

    def __init__(self, entries, elements=None, **kw):
        entries = list(entries)
        self.all_entries = []
        groups = []
        ents = sorted(entries, key=lambda e: e.composition.reduced_composition)
        for c, g in groupby(ents, key=lambda e: e.composition.reduced_composition):
            g = list(g)
            self.all_entries.extend(g)
            groups.append((c, g))
        self.elements = sorted({el for e in entries for el in e.composition.elements})
        self.dim = len(self.elements)
        self.entries = entries
        self._phases = [fractions(c) for c, _ in groups]
        self._groups = [g for _, g in groups]
        self._mins = [Min([e.energy_per_atom for e in g]) for g in self._groups]
        self.el_refs = {}
        for c, g in groups:
            if c.is_element:
                m = g[0]
                for e in g[1:]:
                    if bool(e.energy_per_atom < m.energy_per_atom):
                        m = e
                self.el_refs[c.elements[0]] = m
        missing = set(self.elements) - set(self.el_refs)
        if missing:
            raise ValueError(f"Missing terminal entries for elements {missing}")
        self._memo = {}

    def get_hull_energy_per_atom(self, composition, **kw):
        t = fractions(composition)
        key = tuple(sorted(t.items()))
        if key not in self._memo:
            ds = decompositions(t, self._phases)
            if not ds:
                raise ValueError("composition outside the phase diagram")
            self._memo[key] = Min([lin(d, self._mins) for d in ds])
        return self._memo[key]

    def get_hull_energy(self, composition):
        return self.get_hull_energy_per_atom(composition) * composition.num_atoms

    def get_e_above_hull(self, entry, **kw):
        d = entry.energy_per_atom - self.get_hull_energy_per_atom(entry.composition)
        if bool(d < -1e-8):
            raise ValueError("No valid decomposition found")
        return d if bool(d > 1e-9) else 0.0  # stable entries are exactly on the hull

    def get_form_energy(self, entry):
        c = entry.composition
        return entry.energy - sum(self.el_refs[el].energy_per_atom * c[el] for el in c.elements)

    def get_form_energy_per_atom(self, entry):
        return self.get_form_energy(entry) / entry.composition.num_atoms

    @property
    def stable_entries(self):
        return {e for e in self.all_entries if bool(self.get_e_above_hull(e) <= 1e-9)}

    @property
    def unstable_entries(self):
        return {e for e in self.all_entries if e not in self.stable_entries}


class GrandPotentialPhaseDiagram(PhaseDiagram):
    def __init__(self, entries, chempots, elements=None, **kw):
        from pymatgen.analysis.phase_diagram import GrandPotPDEntry
        from pymatgen.core.periodic_table import Element

        entries = list(entries)
        self.chempots = {Element(str(el)): u for el, u in chempots.items()}
        els = set(elements or {el for e in entries for el in e.composition.elements}) - set(self.chempots)
        super().__init__([GrandPotPDEntry(e, self.chempots) for e in entries if els & set(e.composition.elements)])


class interp1d:
    """piecewise linear interpolation; which segment is meant forks"""

    def __init__(self, x, y, kind="linear", **kw):
        assert kind == "linear"
        pts = sorted(zip(x, y))
        self.x, self.y = [p[0] for p in pts], [p[1] for p in pts]

    def __call__(self, v):
        if not is_sym(v):
            from scipy.interpolate import interp1d as real

            return real(self.x, self.y)(v)
        if bool(v < self.x[0]) or bool(v > self.x[-1]):
            raise ValueError("A value in x_new is outside the interpolation range.")
        for a, b, ya, yb in zip(self.x, self.x[1:], self.y, self.y[1:]):
            if bool(v <= b):
                r = np.empty((), dtype=object)
                r[()] = ya + (v - a) * (Fraction(float(yb)) - Fraction(float(ya))) / (Fraction(float(b)) - Fraction(float(a)))
                return _Sc(r[()])


class _Sc:
    """0-d array-like holding a symbolic value"""

    def __init__(self, v):
        self.v = v

    def __getitem__(self, k):
        return self.v

    def item(self):
        return self.v

    def __float__(self):
        raise TypeError

    def __mul__(self, o):
        return self.v * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self.v + o

    __radd__ = __add__


def setup():
    import pymatgen.analysis.phase_diagram as pmg
    import scipy.interpolate as si

    from symx import inject

    inject.EXTRA[id(pmg.PhaseDiagram)] = (pmg.PhaseDiagram, PhaseDiagram)
    inject.EXTRA[id(pmg.GrandPotentialPhaseDiagram)] = (pmg.GrandPotentialPhaseDiagram, GrandPotentialPhaseDiagram)
    inject.EXTRA[id(si.interp1d)] = (si.interp1d, interp1d)
