"""Independent oracle of the combinatorial enumeration."""
from fractions import Fraction
from itertools import combinations

from .common import comp, gibbs, parse

SETS = {
    "MnO": ["Mn", "O2", "MnO", "Mn2O3", "Mn3O4"],
    "MnO4": ["O2", "MnO", "Mn2O3", "MnO2"],
    "YMO": ["Y2O3", "Mn2O3", "YMnO3", "O2", "YMn2O5"],
    "ex": ["NaCl", "AgNO3", "AgCl", "NaNO3", "NaNO2", "O2"],
    "carb": ["Li2CO3", "CO2", "Li2O", "MnO2", "LiMnO2", "O2"],
    "poly": ["Mn", "O2", "MnO", "MnO", "Mn2O3"],
    "two": ["Li", "Li2O", "Na", "Na2O", "O2"],
}


def entries(name):
    """(entry set with indices, list of entries); polymorphs get increasing energies"""
    from rxn_network.entries.entry_set import GibbsEntrySet

    es = [gibbs(f, -0.4 - 0.0625 * i if len(parse(f)) > 1 else 0.0, eid=f"id{i}") for i, f in enumerate(SETS[name])]
    s = GibbsEntrySet(es)
    s.build_indices()
    return s, es


def kernel(rows, n):
    """basis of the exact kernel of the rows"""
    rows = [[Fraction(v) for v in r] for r in rows]
    piv, r = [], 0
    for c in range(n):
        p = next((i for i in range(r, len(rows)) if rows[i][c] != 0), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        f = rows[r][c]
        rows[r] = [x / f for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c] != 0:
                g = rows[i][c]
                rows[i] = [a - g * b for a, b in zip(rows[i], rows[r])]
        piv.append(c)
        r += 1
    free = [c for c in range(n) if c not in piv]
    out = []
    for f in free:
        v = [Fraction(0)] * n
        v[f] = Fraction(1)
        for i, c in enumerate(piv):
            v[c] = -rows[i][f]
        out.append(v)
    return out


def fr(formula):
    return {k: Fraction(v).limit_denominator(1000) for k, v in parse(formula).items()}


def balance(r, p):
    """(dimension of the solution space, the coefficients of the unique solution with the sides asked for or None)"""
    amts = [fr(f) for f in r + p]
    els = sorted({e for a in amts for e in a})
    k = kernel([[a.get(e, 0) for a in amts] for e in els], len(amts))
    if len(k) != 1:
        return len(k), None
    v = k[0]
    if v[-1] < 0:
        v = [-x for x in v]
    ok = all(x < 0 for x in v[: len(r)]) and all(x > 0 for x in v[len(r):])
    return 1, v if ok else None


def pairs(items, n, opens=None):
    """all (reactants, products) the enumerator has to consider, as tuples of (id, formula)"""
    plain = [x for x in items if opens is None or x[1] not in opens]
    combos = [c for k in range(1, n + 1) for c in combinations(plain, k)]
    if opens is None:
        for a in combos:
            for b in combos:
                if not set(a) & set(b):
                    yield a, b
        return
    op = [x for x in items if x[1] in opens]
    oc = [c for k in range(1, len(op) + 1) for c in combinations(op, k)]
    for a in combos:
        for b in combos:
            if not set(a) & set(b):
                for o in oc:
                    yield a, b + o
                    yield a + o, b


def reactions(items, n, opens=None):
    """(reactant ids, product ids) -> {id: coefficient} of the uniquely balanced reactions;
    second result: the pairs with more than one independent solution"""
    out, multi = {}, set()
    for a, b in pairs(items, n, opens):
        ea = {e for _, f in a for e in parse(f)}
        eb = {e for _, f in b for e in parse(f)}
        if ea != eb:
            continue
        dim, v = balance([f for _, f in a], [f for _, f in b])
        key = (frozenset(i for i, _ in a), frozenset(i for i, _ in b))
        if dim > 1:
            multi.add(key)
        if v is not None and {f for _, f in a} != {f for _, f in b}:
            out[key] = dict(zip([i for i, _ in a + b], v))
    return out, multi
