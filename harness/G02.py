"""Precursors and target of a network: the graph depends on the last settings alone."""
import contextlib
import io

from symx.harness import Harness

from . import nets, sets


def setup_symbolic():
    sets.patch_hash()
    nets.setup()


ASSUMPTIONS = ["rustworkx' graph container is executed as is"]

NETS = {
    "small": ["ab>c", "cb>d", "cb>e", "eb>d", "d>cb", "c>ab"],
    "mix": ["ab>cd", "c>e", "ce>f", "abd>f", "f>ab", "d>c"],
    "poly": ["ab>c", "cg>h", "cg>i", "h>i", "ih>d"],
}
PRES = {
    "small": ["ab", "a", "c", "cb", "ae"],
    "mix": ["ab", "abc", "d", "ce", "cd"],
    "poly": ["ab", "cg", "abg", "i", "gh"],
}
TARGETS = {"small": "dec", "mix": "fce", "poly": "hid"}
LET = dict(nets.L, i=8)


def history(h):
    from rxn_network.network.network import ReactionNetwork
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.reaction_set import ReactionSet

    name = h.cfg["net"]
    sym = (7, 8) if name == "poly" and not h.cfg.get("reload") else ()
    es = nets.entries(h, sym=sym, extra=1)
    if sym:
        h.assume(es[7].energy_per_atom < es[8].energy_per_atom - 0.001) if h.cfg.get("low") == 7 else h.assume(es[8].energy_per_atom < es[7].energy_per_atom - 0.001)
    rxns, want = [], []
    for k, s in enumerate(NETS[name]):
        a, b = ([LET[c] for c in x] for x in s.split(">"))
        rxns.append(ComputedReaction([es[x] for x in a + b], [-1] * len(a) + [1] * len(b), data={"tag": f"t{k}"}))
        want.append((frozenset(f"n{x}" for x in a), frozenset(f"n{x}" for x in b), f"t{k}"))
    net = ReactionNetwork(ReactionSet.from_rxns(rxns))
    net.build()
    pre = tgt = None
    ops = ["pre", "target"] + h.cfg.get("ops", [])
    for n in range(h.cfg["steps"]):
        op = h.choice(f"op{n}", ops)
        if op == "pre":
            p = h.choice(f"p{n}", PRES[name][: h.cfg.get("pres", 5)])
            net.set_precursors(give(h, n, es, [LET[c] for c in p], sym))
            pre = frozenset(f"n{x}" for x in actual_ids(h, n, [LET[c] for c in p], sym))
        elif op == "target":
            t = LET[h.choice(f"g{n}", TARGETS[name][: h.cfg.get("targets", 3)])]
            net.set_target(give(h, n, es, [t], sym, single=True))
            tgt = f"n{actual_ids(h, n, [t], sym)[0]}"
        elif op == "build":
            net.build()
            pre = tgt = None
        elif op == "reload":
            d = net.as_dict()
            keep = repr(sorted(d))
            net = ReactionNetwork.from_dict(d)
            h.check(repr(sorted(d)) == keep, "loading-leaves-the-document-alone")
        elif op == "find":
            if pre is not None and tgt is not None:
                with contextlib.redirect_stdout(io.StringIO()):
                    net.find_pathways([es[int(tgt[1:])]], k=2)
        tag = f"step{n}"
        nets.check_graph(h, net.graph, want, pre, tgt, tag)
        h.check((frozenset(e.entry_id for e in net.precursors) if net.precursors else None) == pre, tag + ":precursors-attribute")
        h.check((net.target.entry_id if net.target is not None else None) == tgt, tag + ":target-attribute")


_how = {}


def give(h, n, es, idx, sym, single=False):
    """the phases as entries or as formulas"""
    byname = h.bool(f"by-name{n}") if h.cfg.get("names") else False
    _how[n] = byname
    out = [es[i].composition.reduced_formula if byname else es[i] for i in idx]
    return out[0] if single else out


def actual_ids(h, n, idx, sym):
    """a formula means its lowest-energy polymorph"""
    if not _how[n]:
        return idx
    low = h.cfg.get("low", 8)
    return [low if i in (7, 8) else i for i in idx]


HARNESSES = [
    Harness("history", history,
            [dict(net="small", steps=3, pres=4, targets=2), dict(net="mix", steps=3, pres=4, targets=2),
             dict(net="poly", steps=2, names=True, low=7), dict(net="poly", steps=2, names=True, low=8),
             dict(net="mix", steps=3, pres=2, targets=1, ops=["build", "reload", "find"])],
            [dict(net=n, steps=4, pres=4, targets=2) for n in ("small", "mix")] + [dict(net="poly", steps=3, names=True, low=l, pres=4) for l in (7, 8)]
            + [dict(net=n, steps=3, pres=3, targets=2, ops=["build", "reload", "find"]) for n in ("small", "mix")],
            bounds="3 networks of 5-6 reactions, every history of 2-4 set_precursors / set_target (and build, save-load, find_pathways) calls over 4-5 precursor sets and 2-3 targets, given as entries or formulas, every order of the polymorph energies"),
]
