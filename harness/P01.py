"""Balanced pathways: exactly the positive combinations of the given steps that sum to the net reaction."""
from itertools import combinations
from fractions import Fraction

from symx.core import Abs, And, Not, Or, Sum
from symx.fakeray import RAY
from symx.harness import Harness

from . import paths as P
from . import sets
from .common import comp

setup_symbolic = sets.patch_hash
ASSUMPTIONS = [
    "a pathway whose steps are linearly dependent may be reported with any positive multiplicities or not at all; completeness is about linearly independent steps",
    "multiplicities between 0 and 1e-5 are neither required nor forbidden (solver tolerance 1e-6)",
]


def solve_combo(rs, n, net):
    """unique multiplicities of linearly independent reactions (exact elimination), or None.
    Returns (multiplicities as linear forms in net, consistency residuals)."""
    k = len(rs)
    rows = [[Fraction(r.get(i, 0)) for r in rs] + [[Fraction(int(i == j)) for j in range(n)]] for i in range(n)]
    used, piv = [], []
    for c in range(k):
        p = next((i for i in range(n) if i not in used and rows[i][c] != 0), None)
        if p is None:
            return None
        used.append(p)
        piv.append(p)
        f = rows[p][c]
        rows[p] = [x / f for x in rows[p][:k]] + [[x / f for x in rows[p][k]]]
        for i in range(n):
            if i != p and rows[i][c] != 0:
                g = rows[i][c]
                rows[i] = [a - g * b for a, b in zip(rows[i][:k], rows[p][:k])] + [[a - g * b for a, b in zip(rows[i][k], rows[p][k])]]
    lin = lambda v: Sum([float(a) if a.denominator != 1 else int(a) for a in []] + [net[j] * a for j, a in enumerate(v) if a != 0])
    return [lin(rows[p][k]) for p in piv], [lin(rows[i][k]) for i in range(n) if i not in used]


def setup(h):
    forms, pool = P.SYSTEMS[h.cfg["sys"]]
    ens, es = P.entry_set(forms)
    rs = [pool[i] for i in h.cfg["rxns"]]
    ts = {i: h.cfg["fix"] if "fix" in h.cfg and i == h.cfg["net"][0] else h.real(f"t{i}", h.cfg.get("lo", -2), 2) for i in h.cfg["net"]}
    net = [Sum([t * pool[i][p] for i, t in ts.items() if p in pool[i]]) for p in range(len(forms))]
    return forms, ens, es, rs, net


def net_reaction(h, es, net):
    from rxn_network.reactions.computed import ComputedReaction

    ps = [p for p in range(len(es)) if not bool(net[p] == 0)]
    h.assume(len(ps) > 1)
    for p in ps:
        h.assume(Abs(net[p]) >= 0.01)
    return ComputedReaction([es[p] for p in ps], [net[p] for p in ps]), ps


def pathways(rxns, costs, split):
    """input pathways: the reactions in groups, some repeated, as the network provides them"""
    from rxn_network.pathways.basic import BasicPathway
    from rxn_network.pathways.pathway_set import PathwaySet

    out, i = [], 0
    for n in split:
        out.append(BasicPathway(rxns[i:i + n], costs[i:i + n]))
        i = max(i + n - 1, 1)  # consecutive pathways share a reaction
    return PathwaySet.from_paths(out)


def match(m, x):
    """factor f with m == f*x, or None (m: coefficients of a returned step)"""
    if m.keys() != x.keys():
        return None
    k = min(x)
    f = m[k] / x[k]
    return f if bool(f > 0) and all(bool(Abs(m[j] - f * x[j]) <= 1e-6) for j in x) else None


def phases(r, forms):
    return {forms.index(next(f for f in forms if comp(f) == c)): v for c, v in zip(r.compositions, r.coefficients)}


def judge(h, out, forms, rs, net, costs, n, direct, tag, filt=None, extra=False):
    """out: returned pathways; direct: indices of rs that are the net reaction itself."""
    got = []
    last = None
    vec = [[r.get(p, 0) for p in range(len(forms))] for r in rs]
    for p in out:
        idx, fac = [], []
        for r in p.reactions:
            m = phases(r, forms)
            hit = [(i, match(m, x)) for i, x in enumerate(rs)]
            hit = [(i, f) for i, f in hit if f is not None]
            if extra and not hit:
                idx.append(None)
                fac.append(1)
                continue
            h.check(len(hit) == 1 and (extra or bool(hit[0][1] == 1)), tag + ":steps-are-given-reactions")
            idx.append(hit[0][0])
            fac.append(hit[0][1])
        ms = list(p.coefficients)
        h.check(len(ms) == len(idx) == len(p.costs) == len(p.reactions), tag + ":one-multiplicity-and-cost-per-step")
        h.check(len(idx) <= n, tag + ":at-most-max-num-combos-steps")
        h.check(bool(p.balanced), tag + ":marked-balanced")
        h.check(And([m > 0 for m in ms]), tag + ":multiplicities-positive")
        for i, m, c in zip(idx, ms, p.costs):
            if i is not None:
                h.check_eq(c, costs[i], tag + ":cost-of-the-step")
        if None not in idx:
            h.check(len(set(idx)) == len(idx), tag + ":steps-distinct")
            ok = []
            for q in range(len(forms)):
                d = Sum([m * f * vec[i][q] for i, m, f in zip(idx, ms, fac)]) - net[q]
                tol = 1e-6 + 1e-4 * Abs(net[q])
                ok += [d <= tol, -1 * d <= tol]
            h.check(And(ok), tag + ":steps-sum-to-the-net-reaction")
            got.append(frozenset(idx))
        avg = p.average_cost
        tot = Sum(ms)
        h.check_eq(avg * tot, Sum([m * c for m, c in zip(ms, p.costs)]), tag + ":average-cost")
        if last is not None:
            h.check(last <= avg + 1e-9, tag + ":sorted-by-average-cost")
        last = avg
    h.check(len(set(got)) == len(got), tag + ":no-pathway-twice")
    pre = {p for p in range(len(forms)) if bool(net[p] < 0)}
    missing = []
    usable = [i for i in range(len(rs)) if i not in direct]
    for k in range(1, n + 1):
        for combo in combinations(usable, k):
            if filt:
                ok = P.executable([rs[i] for i in combo], pre)
                if not ok:
                    h.check(frozenset(combo) not in got, tag + ":interdependent-pathway-filtered")
                    continue
            s = solve_combo([rs[i] for i in combo], len(forms), net)
            if s is None or frozenset(combo) in got:
                continue
            ms, res = s
            missing.append(And([m >= 1e-5 for m in ms] + [x == 0 for x in res]))
    h.check(Not(Or(missing)) if missing else True, tag + ":every-balanced-pathway-found")
    return sorted(tuple(sorted(g)) for g in got if solve_combo([rs[i] for i in g], len(forms), net) is not None)


def solve(h):
    from rxn_network.pathways.solver import PathwaySolver

    forms, ens, es, rs, net = setup(h)
    nr, ps = net_reaction(h, es, net)
    rxns = [P.make(es, r) for r in rs]
    costs = [0.25, 0.5, 0.125, 0.875, 0.375, 0.75, 0.625][: len(rs)]
    RAY.cpus = h.cfg.get("cpus", 4)
    RAY.order = h.cfg.get("order", "fifo")
    pw = pathways(rxns, costs, h.cfg["split"])
    kw = {}
    if "chunk" in h.cfg:
        kw["chunk_size"] = h.cfg["chunk"]
    if "batch" in h.cfg:
        kw["batch_size"] = h.cfg["batch"]
    solver = PathwaySolver(pw, ens, None, **kw)
    h.check(len(solver.reactions) == len(rs), "input-reactions-collected-once")
    n = h.cfg["n"]
    filt = h.cfg.get("filter", False)
    direct = [i for i, r in enumerate(rs) if set(r) == set(ps) and bool(And([net[p] == r[p] for p in ps]))]
    # stay clear of the equality tolerance of "is this reaction the net reaction"
    for i, r in enumerate(rs):
        if i not in direct and set(r) == set(ps):
            h.assume(Or([Abs(net[p] - r[p]) >= 0.01 for p in ps]))
    out = solver.solve(nr, max_num_combos=n, find_intermediate_rxns=False, filter_interdependent=filt)
    got = judge(h, list(out), forms, rs, net, costs, n, direct, "solve", filt)
    h.check(len(out) == len(list(out)), "solve:length")
    h.observe("paths", got)


def order(h):
    """the order of the result for arbitrary step costs"""
    from rxn_network.pathways.solver import PathwaySolver

    forms, pool = P.SYSTEMS[h.cfg["sys"]]
    ens, es = P.entry_set(forms)
    rs = [pool[i] for i in h.cfg["rxns"]]
    ts = dict(zip(h.cfg["net"], h.cfg["t"]))
    net = [sum(t * pool[i].get(p, 0) for i, t in ts.items()) for p in range(len(forms))]
    nr, ps = net_reaction(h, es, net)
    costs = [h.real(f"c{i}", 0.01, 3) for i in range(len(rs))]
    rxns = [P.make(es, r) for r in rs]
    solver = PathwaySolver(pathways(rxns, costs, h.cfg["split"]), ens, None)
    direct = [i for i, r in enumerate(rs) if set(r) == set(ps) and all(net[p] == r[p] for p in ps)]
    out = solver.solve(nr, max_num_combos=h.cfg["n"], find_intermediate_rxns=False, filter_interdependent=False)
    got = judge(h, list(out), forms, rs, net, costs, h.cfg["n"], direct, "order")
    h.check(len(got) > 0, "order:something-found")
    h.observe("paths", got)


class Cost:
    """a cost that depends on the reaction's energy"""

    def evaluate(self, rxn):
        return rxn.energy_per_atom + 2


def intermediates(h):
    """steps between intermediates are enumerated by the solver itself"""
    from rxn_network.pathways.basic import BasicPathway
    from rxn_network.pathways.pathway_set import PathwaySet
    from rxn_network.pathways.solver import PathwaySolver
    from rxn_network.entries.entry_set import GibbsEntrySet

    from .common import gibbs

    forms, pool = P.SYSTEMS[h.cfg["sys"]]
    sym = {p: h.real(f"e{p}", -2, 0) for p in h.cfg["sym"]}
    ens = GibbsEntrySet([gibbs(f, sym.get(i, -0.25 - 0.0625 * i), eid=f"id-{f}") for i, f in enumerate(forms)])
    ens.build_indices()
    by = {e.composition.reduced_formula: e for e in ens.entries}
    es = [by[comp(f).reduced_formula] for f in forms]
    ts = dict(zip(h.cfg["net"], h.cfg["t"]))
    net = [sum(t * pool[i].get(p, 0) for i, t in ts.items()) for p in range(len(forms))]
    nr, ps = net_reaction(h, es, net)
    given = h.cfg["given"]
    given_rxns = [P.make(es, pool[i]) for i in given]
    costs = [Cost().evaluate(r) for r in given_rxns]
    cut = h.cfg["cut"]
    pw = PathwaySet.from_paths([BasicPathway([r], [c]) for r, c in zip(given_rxns, costs)])
    solver = PathwaySolver(pw, ens, Cost())
    out = solver.solve(nr, max_num_combos=h.cfg["n"], find_intermediate_rxns=True, intermediate_rxn_energy_cutoff=cut, filter_interdependent=False)
    targets = {forms[p] for p in ps if net[p] > 0}
    rs, cs = [pool[i] for i in given], list(costs)
    for i in h.cfg["found"]:  # the reactions between intermediates that the solver has to consider
        r = P.make(es, pool[i])
        h.assume(Abs(r.energy_per_atom - cut) >= 1e-5)
        if bool(r.energy_per_atom < cut):
            rs.append(pool[i])
            cs.append(r.energy_per_atom + 2)
    for p in out:
        for r, c in zip(p.reactions, p.costs):
            m = phases(r, forms)
            if all(match(m, x) is None for x in rs):
                h.check(And(bool(r.balanced), r.energy_per_atom < cut + 1e-6), "intermediates:below-the-energy-cutoff")
                h.check(any(m.get(forms.index(t), 0) > 0 for t in targets), "intermediates:make-a-target")
                h.check_eq(c, r.energy_per_atom + 2, "intermediates:cost-of-the-step")
    direct = [i for i, r in enumerate(rs) if set(r) == set(ps) and all(net[p] == r[p] for p in ps)]
    got = judge(h, list(out), forms, rs, net, cs, h.cfg["n"], direct, "intermediates", extra=True)
    h.observe("n", len(got))


Q = [
    {"sys": "CO", "rxns": [0, 1, 2, 3], "net": [0, 1], "fix": 2, "n": 2, "split": [2, 3]},
    {"sys": "CO", "rxns": [0, 1, 2], "net": [0, 1], "fix": 1, "n": 3, "split": [2, 2]},
    {"sys": "CO", "rxns": [0, 1, 2, 4], "net": [1, 0], "fix": 0.5, "n": 2, "split": [4], "cpus": 1},
    {"sys": "CO", "rxns": [1, 3, 0], "net": [2, 3], "fix": 1, "n": 4, "split": [3], "cpus": 2, "chunk": 2},
    {"sys": "CO", "rxns": [0, 1], "net": [0, 1], "n": 4, "split": [2], "filter": True, "lo": 0},
    {"sys": "CO", "rxns": [0, 1, 4, 2], "net": [0, 4], "fix": 2, "n": 3, "split": [4], "filter": True, "order": "lifo"},
    {"sys": "YMO", "rxns": [0, 1, 2, 3, 4], "net": [2, 0], "fix": 1, "n": 4, "split": [3, 3]},
    {"sys": "YMO", "rxns": [0, 3, 4, 1], "net": [0, 3], "fix": 2, "n": 4, "split": [2, 3], "chunk": 1, "batch": 2, "filter": True},
    {"sys": "FeO", "rxns": [0, 1, 3, 4], "net": [0, 1], "fix": 1.5, "n": 4, "split": [4], "chunk": 3, "batch": 1, "order": "lifo", "lo": 0},
    {"sys": "FeO", "rxns": [3, 4, 5], "net": [3, 4], "fix": 2, "n": 3, "split": [3], "filter": True, "cpus": 8},
    {"sys": "BTO", "rxns": [0, 1, 2, 3], "net": [1, 0], "fix": 1, "n": 4, "split": [4], "filter": True},
    {"sys": "BTO", "rxns": [4, 3, 0, 2], "net": [2, 3], "fix": 1, "n": 3, "split": [4], "lo": 0},
]
T = Q + [
    {"sys": "CO", "rxns": [0, 1, 2, 3], "net": [0, 1], "n": 3, "split": [2, 3]},
    {"sys": "CO", "rxns": [0, 1, 2, 4], "net": [0, 1], "n": 2, "split": [4], "cpus": 1},
    {"sys": "YMO", "rxns": [0, 1, 2, 3, 4], "net": [0, 1, 2], "n": 3, "split": [3, 3], "lo": 0, "fix": 2},
    {"sys": "FeO", "rxns": [3, 4, 5, 0], "net": [3, 4], "n": 3, "split": [2, 3], "filter": True, "cpus": 8},
    {"sys": "BTO", "rxns": [4, 3, 0, 2, 1], "net": [2, 3], "n": 3, "split": [3, 3], "lo": 0},
] + [dict(q, chunk=c, cpus=u, order=o, filter=f, lo=-2) for q in Q for c, u, o, f in ((1, 2, "lifo", True), (4, 1, "fifo", False), (7, 3, "lifo", False))] + [
    {"sys": "YMO", "rxns": [0, 1, 2, 3, 4, 5, 6], "net": [0, 1, 2], "n": 3, "split": [4, 4], "lo": 0},
    {"sys": "FeO", "rxns": [0, 1, 2, 3, 4, 5], "net": [0, 1, 2], "n": 4, "split": [6]},
]
O = [
    {"sys": "CO", "rxns": [0, 1, 3], "net": [2], "t": [2], "n": 3, "split": [3]},
    {"sys": "YMO", "rxns": [0, 1, 2, 3, 4], "net": [0, 1, 2], "t": [2, 1, 1], "n": 4, "split": [3, 3]},
    {"sys": "FeO", "rxns": [0, 1, 2, 3, 4], "net": [5], "t": [1], "n": 3, "split": [5]},
    {"sys": "BTO", "rxns": [0, 1, 2, 3], "net": [0, 1], "t": [1, 1], "n": 3, "split": [4]},
]
HARNESSES = [
    Harness("solve", solve, quick=Q, thorough=T,
            bounds="net reaction any combination t_k in [-2,2] (|net coefficient| 0 or >= 0.01) of 2-3 listed steps; 2-5 (thorough 7) steps over 4-10 phases; at most 2-4 steps per pathway; chunk sizes 1,2,3,4,7,1e5, batches 1,2,auto, 1-8 CPUs, two completion orders; interdependence filter on and off"),
    Harness("intermediates", intermediates, quick=[
        {"sys": "BTO", "given": [2, 0], "found": [1, 3], "net": [0, 1], "t": [1, 1], "sym": [2, 4], "n": 2, "cut": 0.0},
        {"sys": "BTO", "given": [2], "found": [3], "net": [2, 3], "t": [0.5, 0.5], "sym": [2], "n": 3, "cut": -0.125},
        {"sys": "YMO", "given": [0, 3], "found": [4], "net": [0, 3, 4], "t": [2, 1, 2], "sym": [3], "n": 3, "cut": 0.0},
        {"sys": "FeO", "given": [0, 1], "found": [2, 4], "net": [5], "t": [1], "sym": [2], "n": 2, "cut": 0.0},
        ], bounds="solver enumerating the reactions between intermediates itself; one or two entry energies symbolic"),
    Harness("order", order, quick=O, bounds="concrete net reactions, step costs symbolic in [0.01,3]"),
]
