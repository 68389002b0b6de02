"""Primary competition: energy relative to the most favourable competing reaction."""
from symx.core import Abs, Min, Sum
from symx.harness import Harness

from . import hulls, sets
from .hulls import build


def setup_symbolic():
    sets.patch_hash()
    hulls.setup()


ASSUMPTIONS = ["reaction energies at least 1e-3 eV/atom away from zero; scipy's ConvexHull replaced by an exact planar hull"]


def primary(h):
    names = h.cfg["rxns"]
    irh, rx, en, xs, es = build(h, names, swap=h.cfg.get("swap", False), lo=-1, hi=1)
    vals = []
    for k in names:
        comp = [en[n] for n in names if abs(xs[n] - xs[k]) > 1e-9] + [0]  # the unreacted mixture competes too
        c = irh.get_primary_competition(rx[k])
        h.check_eq(c, en[k] - Min(comp), "primary-competition")
        vals.append(c)
    # asking twice, or for another reaction in between, changes nothing
    for k, c in zip(names, vals):
        h.check_eq(irh.get_primary_competition(rx[k]), c, "primary-competition-repeatable")
    h.observe("c1", vals)


def order(h):
    """independent of the order in which the reactions were given"""
    from rxn_network.reactions.hull import InterfaceReactionHull

    names = h.cfg["rxns"]
    irh, rx, en, xs, es = build(h, names, lo=-1, hi=-0.25)
    other = InterfaceReactionHull(irh.c1, irh.c2, [rx[k] for k in names[::-1]])
    for k in names:
        h.check_eq(irh.get_primary_competition(rx[k]), other.get_primary_competition(rx[k]), "order-of-reactions-irrelevant")
        h.check_eq(irh.get_energy_above_hull(rx[k]), other.get_energy_above_hull(rx[k]), "order-of-reactions-irrelevant:above-hull")


L = [{"rxns": ["113", "214", "125"]}, {"rxns": ["113", "113b", "125"]}, {"rxns": ["113", "113b"], "swap": True}, {"rxns": ["214", "d1"]}, {"rxns": ["d2", "113", "d1"]}, {"rxns": ["125b", "125", "113"], "swap": True}, {"rxns": ["113"]},
     {"rxns": ["d2", "d2b", "214"]}]
HARNESSES = [
    Harness("primary", primary, quick=L, thorough=L + [{"rxns": r} for r in (["1511", "113", "125", "315"], ["113", "113b", "214", "d1"], ["125", "125b", "d2", "d2b"])],
            bounds="1-3 (thorough 4) reactions of 11 between two phases; energies symbolic in [-1,1] eV per product; at the same or different mixing ratios"),
    Harness("order", order, quick=[{"rxns": ["113", "113b", "125"]}, {"rxns": ["214", "113", "d2"]}], bounds="reactions given in reverse order"),
]
