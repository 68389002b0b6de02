"""find_pathways: the k cheapest loopless paths from the precursors to each target."""
import contextlib
import io

from symx.core import And, Min, Or, Sum
from symx.harness import Harness

from . import nets, sets


def setup_symbolic():
    sets.patch_hash()
    nets.setup()


ASSUMPTIONS = ["rustworkx' Dijkstra is replaced by an exact symbolic shortest path on the same rustworkx graph",
               "reaction costs are free values in (0, 8]; a cost function is any function of the reaction"]

# name: (reactions, reactions that may be absent, precursors, target)
NETS = {
    "diamond": ("a>c a>d c>f d>f c>d", "d>c", "a", "f"),
    "ladder": ("a>c a>d c>e d>e c>f e>f", "d>c", "a", "f"),
    "loop": ("a>c c>d d>c d>f c>e", "e>d e>f", "a", "f"),
    "multi": ("ab>c cb>d cb>e eb>d d>f", "e>f cd>f", "ab", "f"),
    "parallel": ("a>c a>c c>f c>d d>f", "a>cd", "a", "f"),
    "sets": ("a>cd cd>f c>f d>e", "e>f a>f", "a", "f"),
    "noway": ("a>c d>f", "c>d c>e", "a", "f"),
}


def find(h):
    from rxn_network.network.network import ReactionNetwork
    from rxn_network.reactions.reaction_set import ReactionSet

    must, may, pre, target = NETS[h.cfg["net"]]
    es = nets.entries()
    specs = must.split()
    for m in may.split():
        if h.bool("has " + m):
            specs.append(m)
    rxns = [nets.reaction(es, s, f"t{k}", 1 + k) for k, s in enumerate(specs)]
    costs = {f"t{k}": h.real(f"c{k}", 0.001, 8) if k in h.cfg.get("sym", range(99)) else h.cfg.get("flat", 1) + k * 0.0625 for k in range(len(specs))}
    net = ReactionNetwork(ReactionSet.from_rxns(rxns), nets.cost_function(costs))
    net.build()
    net.set_precursors([es[i] for i in nets.side(pre)])
    k = h.cfg["k"]
    tid = nets.side(target)[0]
    order = [es[tid]]
    if h.cfg.get("other"):  # a further target before
        order.insert(0, es[nets.side(h.cfg["other"])[0]])
    with contextlib.redirect_stdout(io.StringIO()):
        got = list(net.find_pathways(order, k=k))
    want = []
    sp = [(*nets.ids(r), r.data["tag"]) for r in rxns]
    pid = frozenset(es[i].entry_id for i in nets.side(pre))
    left = got
    for e in order:
        paths = nets.simple_paths(sp, pid, e.entry_id)
        n = min(k, len(paths))
        judge(h, left[:n], paths, sp, costs, n, f"target-{e.entry_id}")
        left = left[n:]
    h.check(not left, "no-further-pathways")
    h.observe("n", len(got))


def judge(h, got, paths, sp, costs, n, tag):
    h.check(len(got) == n, tag + ":k-or-all-of-the-pathways")
    step_cost = lambda s: Min([costs[t] for r, p, t in sp if (r, p) == s])
    total = {nets.steps(p): Sum([step_cost(s) for s in nets.steps(p)]) for p in paths}
    h.check(len(total) == len(paths), tag + ":oracle")
    seen = []
    for p in got:
        s = tuple(nets.ids(r) for r in p.reactions)
        h.check(s in total, tag + ":a-loopless-path-from-precursors-to-target")
        h.check(s not in seen, tag + ":distinct")
        seen.append(s)
        h.check(len(p.costs) == len(p.reactions), tag + ":one-cost-per-step")
        h.check(And([abs_le(c, costs[r.data["tag"]]) for c, r in zip(p.costs, p.reactions)]), tag + ":costs-are-the-reactions'")
        h.check_eq(Sum(list(p.costs)), total[s], tag + ":cheapest-of-parallel-reactions")
        h.check_eq(p.total_cost, total[s], tag + ":total-cost")
    tol = 1e-9
    h.check(And([total[a] <= total[b] + tol for a, b in zip(seen, seen[1:])]), tag + ":cheapest-first")
    if seen:
        h.check(And([total[seen[-1]] <= c + tol for s, c in total.items() if s not in seen]), tag + ":none-cheaper-left-out")


def abs_le(a, b):
    return And(a - b <= 1e-9, b - a <= 1e-9)


HARNESSES = [
    Harness("find", find,
            [dict(net="diamond", k=k) for k in (1, 3)] + [dict(net="loop", k=3), dict(net="multi", k=3), dict(net="parallel", k=3), dict(net="sets", k=3), dict(net="noway", k=2, other="c")]
            + [dict(net="ladder", k=4, sym=[0, 2, 4])],
            [dict(net=n, k=k) for n in NETS for k in (1, 2, 3, 4)] + [dict(net="ladder", k=6, sym=[0, 1, 2, 4]), dict(net="multi", k=6, other="d")],
            bounds="7 network shapes (diamond, ladder, cycles, several precursors, parallel reactions, shared product sets, unreachable target) of 4-8 reactions, optional reactions present or absent, every reaction cost in 0.001..8, k of 1-6"),
]
