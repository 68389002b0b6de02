"""Interdependence: a pathway is rejected exactly when no order of its steps is possible."""
from symx.core import And
from symx.harness import Harness

from . import paths as P
from .common import comp

ASSUMPTIONS = ["only which phases a step uses and makes matters, so the steps are over six abstract phases (elements stand for them)", "every phase a step needs is a precursor or made by some other step of the pathway (as in any balanced pathway)"]

# abstract phases 0-5 and steps between them
SZ = [1, 2, 3, 4, 5, 6]
STEPS = [
    {0: -2, 1: 1}, {1: -1, 0: -1, 2: 1}, {2: -1, 0: -1, 3: 1}, {3: -1, 1: 2}, {3: -1, 1: -1, 5: 1}, {4: -1, 0: -1, 5: 1},
    {5: -1, 2: 2}, {1: -1, 2: -1, 4: 1}, {4: -1, 1: 1, 2: 1}, {2: -2, 4: 1, 0: 1}, {0: -3, 2: 1}, {3: -1, 0: 1, 2: 1},
]
for _s in STEPS:
    assert sum(SZ[k] * c for k, c in _s.items()) == 0


def interdependence(h):
    """steps and their direction are symbolic: a reaction with a negative scale runs backwards"""
    from rxn_network.pathways.balanced import BalancedPathway
    from rxn_network.reactions.basic import BasicReaction

    from rxn_network.core import Composition

    comps = [Composition({e: n}) for e, n in zip(("C", "Si", "Ge", "Sn", "Pb", "Ti"), SZ)]
    n = h.cfg["n"]
    picks = list(h.cfg["first"]) + [h.choice(f"r{i}", [k for k in h.cfg.get("from", range(len(STEPS))) if k not in h.cfg["first"]]) for i in range(n - len(h.cfg["first"]))]
    if len(set(picks)) < n:
        h.assume(False)
    steps, rxns = [], []
    for i, k in enumerate(picks):
        s = h.real(f"s{i}", -2, 2)
        h.assume(s * s >= 0.01)
        sg = 1 if bool(s > 0) else -1
        steps.append({p: c * sg for p, c in STEPS[k].items()})
        ks = sorted(STEPS[k])
        rxns.append(BasicReaction([comps[p] for p in ks], [STEPS[k][p] * s for p in ks], balanced=True))
    pre = set(h.cfg["pre"])
    made = {p for s in steps for p, c in s.items() if c > 0} | pre
    used = {p for s in steps for p, c in s.items() if c < 0}
    if not used <= made:
        h.assume(False)
    path = BalancedPathway(rxns, [1.0] * n, [0.0] * n, balanced=True)
    got = bool(path.contains_interdependent_rxns([comps[p] for p in pre]))
    h.check(got == (not P.executable(steps, pre)), "flagged-iff-no-order-of-the-steps-works")
    h.check(list(path.reactions) == rxns, "pathway-unchanged")
    h.observe("got", got)


HARNESSES = [
    Harness("interdependence", interdependence,
            quick=[{"n": 2, "first": [f], "pre": p} for f, p in ((0, [0]), (3, [0, 1]), (7, [0]), (11, [0, 2]))]
            + [{"n": 3, "first": f, "pre": p} for f, p in (([0, 7], [0]), ([1, 3], [0]), ([8, 2], [0]), ([10, 9], [0, 1]))]
            + [{"n": 4, "first": [0, 1, 2], "pre": [0]}, {"n": 4, "first": [10, 11, 3], "pre": [0]}, {"n": 4, "first": [0, 8, 7], "pre": [0]}],
            thorough=[{"n": 3, "first": [f], "pre": p} for f in range(len(STEPS)) for p in ([0], [0, 1])] + [{"n": 4, "first": [f, g], "pre": [0]} for f in range(len(STEPS)) for g in range(f)],
            bounds="pathways of 2-4 steps drawn from 12 over 6 phases, each in either direction (sign of its coefficients symbolic), 1-2 precursors"),
]
