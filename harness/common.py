"""Shared input builders and oracles (written independently of the code under test)."""
from __future__ import annotations

import re

from symx.core import Abs, And, Or, Sum, is_sym

SPECIAL = {"O": "O2", "N": "N2", "H": "H2", "F": "F2", "Cl": "Cl2"}


def parse(formula):
    """element -> amount of a flat formula such as YMn2O5 (no parentheses)."""
    out = {}
    for el, n in re.findall(r"([A-Z][a-z]?)([0-9.]*)", formula):
        out[el] = out.get(el, 0) + (float(n) if n else 1.0)
    return {k: int(v) if v == int(v) else v for k, v in out.items()}


def natoms(formula):
    return sum(parse(formula).values())


def conservation(amounts, coeffs):
    """per element: sum_i coeff_i * n_i(el); amounts is a list of {el: amount}."""
    els = sorted({e for a in amounts for e in a})
    return {e: Sum([c * a[e] for a, c in zip(amounts, coeffs) if e in a]) for e in els}


def within(x, tol):
    return And(x <= tol, -1 * x <= tol)


def comp(x):
    from rxn_network.core import Composition

    return Composition(x)


def entry(formula, energy, eid=None, data=None):
    """A plain ComputedEntry (total energy for the formula as written)."""
    from pymatgen.entries.computed_entries import ComputedEntry

    return ComputedEntry(comp(formula), energy, entry_id=eid or formula, data=dict(data or {}))


def gibbs(formula, e_per_atom, eid=None, temperature=300, volume=10.0, data=None, adj=None):
    from rxn_network.entries.gibbs import GibbsComputedEntry

    return GibbsComputedEntry(
        comp(formula), e_per_atom, volume, temperature, entry_id=eid or formula, data=dict(data or {}),
        energy_adjustments=adj,
    )


# balanced reactions: (reactants, products, coefficients) -- checked by the harness itself
BALANCED = [
    (["Li", "O2"], ["Li2O"], [-4, -1, 2]),
    (["Fe2O3", "Al"], ["Al2O3", "Fe"], [-1, -2, 1, 2]),
    (["Y2O3", "Mn2O3"], ["YMnO3"], [-1, -1, 2]),
    (["BaO", "TiO2"], ["BaTiO3"], [-1, -1, 1]),
    (["YCl3", "Mn2O3", "Li2CO3"], ["LiCl", "YMnO3", "CO2"], [-2, -1, -3, 6, 2, 3]),
    (["CH4", "O2"], ["CO2", "H2O"], [-1, -2, 1, 2]),
    (["NaCl", "AgNO3"], ["AgCl", "NaNO3"], [-1, -1, 1, 1]),
    (["Fe3O4"], ["FeO", "Fe2O3"], [-1, 1, 1]),
]


def rxn_objects(h, kind, forms, cs, tag=""):
    """a reaction of the given kind over the phases, with symbolic energies / chempots."""
    from rxn_network.reactions.basic import BasicReaction
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction

    if kind == "basic":
        return BasicReaction([comp(f) for f in forms], cs), None
    es = [entry(f, h.real(f"{tag}e{i}", -300, 300), eid=f"{tag}{f}-{i}") for i, f in enumerate(forms)]
    if kind == "computed":
        return ComputedReaction(es, cs), es
    from pymatgen.core.periodic_table import Element

    el = open_element(forms)
    mu = h.real(f"{tag}mu", -20, 20)
    return OpenComputedReaction(es, cs, {Element(el): mu}), es


def open_element(forms):
    """an element that some compound contains without being the whole of the products"""
    els = sorted({e for f in forms for e in parse(f)})
    return "O" if "O" in els else els[0]
