"""The network is exactly the graph of its reactions."""
from symx.harness import Harness

from . import nets, sets
from .common import parse

setup_symbolic = sets.patch_hash
ASSUMPTIONS = ["rustworkx' graph container is executed as is"]

POOL = ["ab>c", "cb>d", "d>cb", "c>ab", "ab>cd", "c>d", "ef>h", "ef>i", "ab>c", "cd>ef", "h>i"]
LET = dict(nets.L, i=8)


def specs_of(es, rxns):
    return [(*nets.ids(r), r.data["tag"]) for r in rxns]


def build(h):
    from rxn_network.network.network import ReactionNetwork
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.reaction_set import ReactionSet

    es = nets.entries(h, sym=range(9), extra=1)
    rxns, want = [], []
    for k in range(h.cfg["n"]):
        i = h.cfg["first"] if k == 0 else h.choice(f"r{k}", h.cfg["pool"])
        a, b = POOL[i].split(">")
        a, b = [LET[c] for c in a], [LET[c] for c in b]
        s = h.real(f"s{k}", 1 / 128, 32)
        if h.bool(f"reversed{k}") if k < h.cfg.get("rev", 9) else False:
            a, b = b, a
        rxns.append(ComputedReaction([es[x] for x in a + b], [-s] * len(a) + [s] * len(b), data={"tag": f"t{k}"}))
        want.append((frozenset(f"n{x}" for x in a), frozenset(f"n{x}" for x in b), f"t{k}"))
    net = ReactionNetwork(ReactionSet.from_rxns(rxns), nets.cost_function({}))
    if h.cfg.get("store"):
        net = ReactionNetwork.from_dict(net.as_dict())
        h.check(sorted(e.entry_id for e in net.entries) == sorted({x for a, b, _ in want for x in a | b}), "stored-before-build:entries")
    h.check(net.graph is None and not net.precursors and net.target is None, "nothing-before-build")
    net.build()
    nets.check_graph(h, net.graph, want, None, None, "graph")
    h.check({e.entry_id for e in net.entries} == {x for a, b, _ in want for x in a | b}, "entries")
    g = net.graph
    forms = {e.entry_id: e.composition.reduced_formula for e in es}
    for node in g.nodes():
        els = sorted({x for e in node.entries for x in parse(forms[e.entry_id])})
        h.check(sorted(map(str, node.elements)) == els and sorted(node.chemsys.split("-")) == els and node.dim == len(els), "elements-of-a-node")
    h.check(net.chemsys == "-".join(sorted({x for e in net.entries for x in parse(forms[e.entry_id])})), "chemical-system-of-the-network")
    for i in g.edge_indices():
        e = g.get_edge_data_by_index(i)
        if not isinstance(e, str):
            w = rxns[int(e.data["tag"][1:])]
            sets.same(h, e, w, "edge-reaction")
    if h.cfg.get("again"):
        net.build()
        nets.check_graph(h, net.graph, want, None, None, "rebuilt")
    if h.cfg.get("store"):
        d = net.graph.as_dict()
        new = type(net.graph).from_dict(d)
        nets.check_graph(h, new, want, None, None, "stored-graph")
        for i in new.edge_indices():
            e = new.get_edge_data_by_index(i)
            if not isinstance(e, str):
                sets.same(h, e, rxns[int(e.data["tag"][1:])], "stored-edge-reaction")


HARNESSES = [
    Harness("build", build,
            [dict(n=2, first=f, pool=list(range(11))) for f in (0, 2, 6)] + [dict(n=3, first=4, pool=[0, 2, 5, 9], again=True, rev=2), dict(n=3, first=0, pool=[1, 4, 8], store=True, rev=1)],
            [dict(n=2, first=f, pool=list(range(11)), again=True) for f in range(11)] + [dict(n=3, first=f, pool=[0, 1, 2, 5, 8, 9], again=True) for f in (0, 2, 4, 6)] + [dict(n=4, first=f, pool=[0, 2, 5], rev=2) for f in (1, 4)],
            bounds="2-4 reactions out of 11 (reverses, repeated reactions, polymorphs, shared phase sets), every coefficient scale in 1/4..4, every entry energy, either direction"),
]
