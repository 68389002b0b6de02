"""Shared parts of the reaction-network properties: topologies, expected graph, path oracle."""
from symx.core import Min, Sum, is_sym

from .common import comp, gibbs

FORMS = ["Mn", "O2", "MnO", "Mn2O3", "Mn3O4", "MnO2", "Y2O3", "YMnO3"]
L = {c: i for i, c in enumerate("abcdefgh")}


def side(s):
    return [L[c] for c in s]


def entries(h=None, sym=(), extra=0, data=None):
    """one entry per letter, then `extra` further polymorphs of YMnO3"""
    out = []
    for i, f in enumerate(FORMS + ["YMnO3"] * extra):
        e = h.real(f"e{i}", -2, 2) if h is not None and i in sym else -0.5 - 0.125 * i
        out.append(gibbs(f, e, eid=f"n{i}", data=data))
    return out


def reaction(es, spec, tag, scale=1):
    """spec like 'ab>cd' with unit coefficients times scale"""
    from rxn_network.reactions.computed import ComputedReaction

    a, b = spec.split(">")
    ents = [es[i] for i in side(a)] + [es[i] for i in side(b)]
    return ComputedReaction(ents, [-scale] * len(a) + [scale] * len(b), data={"tag": tag})


def cost_function(costs):
    from rxn_network.costs.base import CostFunction

    class Given(CostFunction):
        def evaluate(self, rxn):
            return costs[rxn.data["tag"]]

    return Given()


def expected(specs, pre=None, target=None):
    """nodes and edges of the network: specs are (reactant ids, product ids, tag)"""
    R = {("R", r) for r, _, _ in specs}
    P = {("P", p) for _, p, _ in specs}
    nodes = R | P
    edges = [(("R", r), ("P", p), t) for r, p, t in specs]
    edges += [(a, b, "loopback_edge") for a in P for b in R if a[1] == b[1]]
    if pre is not None:
        s = ("S", frozenset(pre))
        nodes = nodes | {s}
        edges += [(s, b, "precursor_edge") for b in R if b[1] <= pre]
        edges += [(a, b, "loopback_edge") for a in P for b in R
                  if a[1] != b[1] and not b[1] <= pre and b[1] <= pre | a[1]]
    if target is not None:
        t = ("T", frozenset([target]))
        nodes = nodes | {t}
        edges += [(a, t, "target_edge") for a in P if target in a[1]]
    return nodes, edges


KIND = {"Precursors": "S", "Reactants": "R", "Products": "P", "Target": "T"}


def actual(g):
    key = lambda n: (KIND[n.description.name], frozenset(e.entry_id for e in n.entries))
    nodes = [key(g.get_node_data(i)) for i in g.node_indices()]
    edges = []
    for i in g.edge_indices():
        a, b = g.get_edge_endpoints_by_index(i)
        e = g.get_edge_data_by_index(i)
        edges.append((key(g.get_node_data(a)), key(g.get_node_data(b)), e if isinstance(e, str) else e.data["tag"]))
    return nodes, edges


def ids(rxn):
    return frozenset(e.entry_id for e in rxn.reactant_entries), frozenset(e.entry_id for e in rxn.product_entries)


def order(xs):
    return sorted(xs, key=lambda t: repr([(k[0], sorted(k[1])) if isinstance(k, tuple) and len(k) == 2 and not isinstance(k[0], tuple) else k for k in (t if isinstance(t[0], tuple) else [t])]))


def check_graph(h, g, specs, pre, target, tag):
    nodes, edges = actual(g)
    wn, we = expected(specs, pre, target)
    h.check(len(nodes) == len(set(nodes)) and set(nodes) == wn, tag + ":nodes")
    reps = lambda es: sorted((a[0], sorted(a[1]), b[0], sorted(b[1]), t) for a, b, t in es)
    for kind, lab in (("precursor_edge", "precursor-edges"), ("target_edge", "target-edges"), ("loopback_edge", "loopback-edges"), (None, "reaction-edges")):
        f = lambda es: reps([e for e in es if (e[2] == kind if kind else e[2] not in ("precursor_edge", "target_edge", "loopback_edge"))])
        h.check(f(edges) == f(we), tag + ":" + lab)


def simple_paths(specs, pre, target):
    """all loopless node paths from the precursors to the target, as lists of nodes"""
    _, edges = expected(specs, pre, target)
    nxt = {}
    for a, b, _ in edges:
        nxt.setdefault(a, set()).add(b)
    s, t = ("S", frozenset(pre)), ("T", frozenset([target]))
    out = []

    def go(p):
        if p[-1] == t:
            out.append(list(p))
            return
        for b in sorted(nxt.get(p[-1], ()), key=lambda k: (k[0], sorted(k[1]))):
            if b not in p:
                go(p + [b])

    go([s])
    return out


def steps(path):
    """(reactants, products) of the reaction steps of a node path"""
    return tuple((a[1], b[1]) for a, b in zip(path, path[1:]) if a[0] == "R" and b[0] == "P")


# ---- rustworkx shortest paths with symbolic weights ----
class RxShim:
    """rustworkx, with Dijkstra on Python (possibly symbolic) weights; graphs stay rustworkx's own"""

    def __init__(self, rx):
        self._rx = rx

    def __getattr__(self, n):
        return getattr(self._rx, n)

    def dijkstra_shortest_paths(self, g, source, target=None, weight_fn=None, default_weight=1.0, **kw):
        adj = {}
        w = {}
        for i in g.edge_indices():
            a, b = g.get_edge_endpoints_by_index(i)
            c = weight_fn(g.get_edge_data_by_index(i)) if weight_fn else default_weight
            if is_sym(c):
                pass
            elif c < 0:
                raise ValueError("negative weight")
            w.setdefault((a, b), []).append(c)
        w = {k: Min(v) for k, v in w.items()}
        for a, b in w:
            adj.setdefault(a, []).append(b)
        best = {}

        def go(p, cost):
            n = p[-1]
            if n != source:
                if n not in best or bool(cost < best[n][0]):
                    best[n] = (cost, p)
            if n == target:
                return
            for b in adj.get(n, ()):
                if b not in p:
                    c = w[(n, b)]
                    go(p + [b], cost if not is_sym(c) and c == 0 else cost + c)

        if target is None:
            go([source], 0.0)
            return {n: p for n, (c, p) in best.items()}
        # only the paths to the target matter
        full = []

        def walk(p):
            if p[-1] == target:
                full.append(p)
                return
            for b in adj.get(p[-1], ()):
                if b not in p:
                    walk(p + [b])

        walk([source])
        got = None
        for p in full:
            cost = Sum([w[x] for x in zip(p, p[1:])])
            if got is None or bool(cost < got[0]):
                got = (cost, p)
        return {} if got is None else {target: got[1]}

    digraph_dijkstra_shortest_paths = dijkstra_shortest_paths


def setup():
    import sys

    import rustworkx as rx

    from symx import inject

    shim = RxShim(rx)
    inject.EXTRA[id(rx)] = (rx, shim)
    for n in ("dijkstra_shortest_paths", "digraph_dijkstra_shortest_paths"):
        o = getattr(rx, n)
        inject.EXTRA[id(o)] = (o, shim.dijkstra_shortest_paths)
    for m in inject.rxn_modules():
        vars(m)["print"] = lambda *a, **k: None
