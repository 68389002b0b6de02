"""Pareto front = exactly the non-dominated rows."""
import numpy as np

from symx.core import And, Not, Or, is_sym
from symx.harness import Harness

NAMES = ("m0", "m1", "m2")


def _pts(h, n, m):
    return [[h.real(f"p{i}_{j}", -40, 40) for j in range(m)] for i in range(n)]


def _dominated(pts, i):
    """some other row is <= everywhere and < somewhere"""
    return Or(
        [
            And([*(a <= b for a, b in zip(q, pts[i])), Or([a < b for a, b in zip(q, pts[i])])])
            for k, q in enumerate(pts)
            if k != i
        ]
        or [False]
    )


def _equal(p, q):
    return And([a == b for a, b in zip(p, q)])


def _spec(h, pts, member, tag):
    for i, p in enumerate(pts):
        if member[i]:
            h.check(Not(_dominated(pts, i)), f"{tag}:front-member-not-dominated")
        else:
            # removed rows are dominated, or a duplicate of a row that was kept
            dup = Or([_equal(pts[k], p) for k in range(len(pts)) if k != i and member[k]] or [False])
            h.check(Or(_dominated(pts, i), dup), f"{tag}:removed-row-is-dominated")
    h.check(any(member), f"{tag}:front-not-empty")


def pareto_array(h):
    from rxn_network.costs.pareto import is_pareto_efficient

    n, m = h.cfg["n"], h.cfg["m"]
    pts = _pts(h, n, m)
    arr = np.array(pts, dtype=object if h.symbolic else float)
    mask = [bool(b) for b in is_pareto_efficient(arr, return_mask=True)]
    h.check(len(mask) == n, "mask-length")
    idx = sorted(int(i) for i in is_pareto_efficient(arr, return_mask=False))
    h.check(idx == [i for i in range(n) if mask[i]], "mask-and-indices-agree")
    _spec(h, pts, mask, "array")
    h.observe("mask", mask)


def pareto_df(h):
    import pandas as pd

    from rxn_network.costs.pareto import get_pareto_front

    n, m = h.cfg["n"], h.cfg["m"]
    maxi = h.cfg["maximize"]
    pts = _pts(h, n, m)
    data = {"label": [f"r{i}" for i in range(n)]}
    for j in range(m):
        data[NAMES[j]] = [p[j] for p in pts]
    data["unused"] = list(range(n))[::-1]
    df = pd.DataFrame(data, index=[10 * (n - i) for i in range(n)])
    before = [list(r) for r in df.to_numpy()]
    front = get_pareto_front(df, metrics=tuple(NAMES[:m]), maximize=maxi)
    got = list(front["label"])
    h.check(len(set(got)) == len(got) and set(got) <= set(data["label"]), "rows-come-from-input")
    member = [f"r{i}" in got for i in range(n)]
    goal = [[-v for v in p] for p in pts] if maxi else pts
    _spec(h, goal, member, "max" if maxi else "min")
    # returned rows carry their own data; the caller's frame is untouched
    for lab, row in zip(front["label"], front[list(NAMES[:m])].to_numpy()):
        i = int(lab[1:])
        for j in range(m):
            h.check(row[j] == pts[i][j], "row-data-unchanged")
    after = df.to_numpy()
    h.check(And([a == b for r, s in zip(before, after) for a, b in zip(r, s)]), "input-frame-unchanged")
    h.observe("front", got)


HARNESSES = [
    Harness(
        "pareto_array",
        pareto_array,
        quick=[{"n": n, "m": m} for n, m in [(1, 2), (2, 1), (3, 1), (2, 2), (3, 2), (4, 2), (2, 3), (3, 3)]],
        thorough=[{"n": n, "m": m} for n, m in [(1, 2), (2, 1), (4, 1), (5, 1), (2, 2), (3, 2), (4, 2), (5, 2), (2, 3), (3, 3), (4, 3)]],
        bounds="n <= 4 (thorough 5) rows, 1-3 metrics, values any reals in [-40,40]",
    ),
    Harness(
        "pareto_df",
        pareto_df,
        quick=[{"n": n, "m": m, "maximize": x} for n, m in [(2, 2), (3, 2), (2, 3)] for x in (False, True)],
        thorough=[{"n": n, "m": m, "maximize": x} for n, m in [(2, 1), (3, 2), (2, 3), (3, 3)] for x in (False, True)],
        bounds="n <= 3 rows, 2-3 metrics, values any reals in [-40,40], both senses",
    ),
]
