"""Workflow jobs and flows: each job computes what the library computes for the conditions it was given."""
import contextlib
import io
import sys
from types import ModuleType, SimpleNamespace

from symx.core import Abs, And
from symx.harness import Harness

from . import E08, N04, enum, nets, pds, sets
from .G03 import NETS, judge
from .common import comp, gibbs, parse
from .J01 import Document, run


def setup_symbolic():
    from symx import inject

    import rxn_network.jobs.core as core

    pds.setup()
    sets.patch_hash()
    nets.setup()
    for n in ("EntrySetDocument", "EnumeratorTaskDocument", "NetworkTaskDocument", "PathwaySolverTaskDocument"):
        c = getattr(core, n)
        inject.EXTRA[id(c)] = (c, Document)


ASSUMPTIONS = [
    "output records are kept without pydantic's type validation",
    "the Materials Project client and the entry database are stand-ins that hand over the listed entries of the requested chemical system",
    "rustworkx' Dijkstra and pymatgen's PhaseDiagram are replaced by exact symbolic ones, ray by an in-process one (jobs that use them)",
    "the pathway solver (decided by P01-P03) is a stand-in that records what it is given; in the flow all jobs are",
]


def getting(h):
    """entries of the chemical system, with the custom ones, processed as asked"""
    from rxn_network.jobs.core import GetEntrySetMaker

    asked = []
    els = sorted({e for f, _, _ in E08.SYS[h.cfg["sys"]] for e in parse(f)})
    key = h.cfg.get("key")

    def do(pool, t, cut, **kw):
        n = h.cfg["custom"]
        mine, custom = pool[: len(pool) - n], pool[len(pool) - n:]

        class MPRester:
            def __init__(self, **k):
                h.check(k == ({"api_key": key} if key else {}), "key-of-the-user")

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def get_entries_in_chemsys(self, elements, **k):
                asked.append(set(elements.split("-")) if isinstance(elements, str) else set(elements))
                return list(mine)

        fake = ModuleType("mp_api.client")
        fake.MPRester = MPRester
        old = sys.modules.get("mp_api.client")
        sys.modules["mp_api.client"] = fake
        try:
            maker = GetEntrySetMaker(temperature=t, e_above_hull=cut, custom_entries=custom, MP_API_KEY=key, **{k: v if k != "formulas_to_include" else list(v or []) for k, v in kw.items()})
            doc = run(maker, "-".join(els))
            h.check(maker.custom_entries is custom and len(custom) == n, "custom-entries-untouched")
        finally:
            if old is None:
                del sys.modules["mp_api.client"]
            else:
                sys.modules["mp_api.client"] = old
        h.check(asked == [set(els)], "the-chemical-system-asked-for")
        h.check(And(doc.e_above_hull == cut, doc.include_polymorphs == kw["include_polymorphs"]) if not isinstance(kw["include_polymorphs"], bool) else And(doc.e_above_hull == cut), "record:conditions")
        return doc.entries

    E08.select(h, do)


def enumeration(h):
    from rxn_network.jobs.core import ReactionEnumerationMaker

    es, ents, names, ens, want, new = N04.plan(h)
    forms = [f for k in h.cfg["kinds"] for f in (k.get("tgt") or "").split()]
    doc = run(ReactionEnumerationMaker(name="mine"), ens, es)
    N04.judge(h, doc.rxns, es, names, want, new)
    h.check(doc.task_label == "mine", "label")
    have = {e for f in names.values() for e in parse(f)}
    h.check(set(doc.chemsys.split("-")) == have and {str(e) for e in doc.elements} == have, "record:chemical-system")
    h.check(sorted(doc.targets) == sorted({comp(f).reduced_formula for f in forms}), "record:targets")
    added = have - {e for f in forms for e in parse(f)} if forms else None
    h.check((None if doc.added_elements is None else {str(e) for e in doc.added_elements}) == added, "record:added-elements")
    h.check(doc.added_chemsys == (None if added is None else "-".join(sorted(added))), "record:added-system")
    h.check([d["@class"] if isinstance(d, dict) else type(d).__name__ for d in doc.enumerators] == [type(e).__name__ for e in ens], "record:enumerators")


def network(h):
    """one network over all reactions, at the conditions asked for"""
    from pymatgen.core.periodic_table import Element

    from rxn_network.jobs.core import NetworkMaker
    from rxn_network.reactions.open import OpenComputedReaction
    from rxn_network.reactions.reaction_set import ReactionSet

    must, may, pre, target = NETS[h.cfg["net"]]
    es = nets.entries(h, sym=(0,))
    specs = must.split()
    for m in may.split():
        if h.bool("has " + m):
            specs.append(m)
    rxns = [nets.reaction(es, s, f"t{k}", 1 + k) for k, s in enumerate(specs)]
    costs = {f"t{k}": h.real(f"c{k}", 0.001, 8) if k in h.cfg["sym"] else 1 + k * 0.0625 for k in range(len(specs))}
    at = h.choice("split", h.cfg["splits"])
    groups = [[i for i in g if i < len(rxns)] for g in at]
    groups = [g for g in groups if g]
    groups[0] = groups[0] + [i for i in range(len(rxns)) if not any(i in g for g in groups)]
    rsets = [ReactionSet.from_rxns([rxns[i] for i in g], entries=es) for g in groups]
    el = h.cfg.get("open")
    mu = h.real("mu", -2, 0) if el else 0.0
    k = h.cfg["k"]
    order = [nets.FORMS[nets.side(t)[0]] for t in h.cfg.get("targets", target)]
    kw = {"open_elem": Element(el) if h.cfg.get("as_element") else el, "chempot": mu} if el else {}
    maker = NetworkMaker(cost_function=nets.cost_function(costs), precursors=[nets.FORMS[i] for i in nets.side(pre)] if h.cfg.get("pre", True) else None,
                         targets=order or None, calculate_pathways=k, **kw)
    with contextlib.redirect_stdout(io.StringIO()):
        doc = run(maker, iter(rsets) if h.cfg.get("iter") else rsets)
    sp, seen = [], set()
    for r in rxns:
        sp.append((*nets.ids(r), r.data["tag"]))
    pid = frozenset(es[i].entry_id for i in nets.side(pre)) if h.cfg.get("pre", True) else None
    # the target of the network is the one set last
    last = None
    if order:
        last = (order[-1] if k else order[0])
        last = next(e.entry_id for e in es if e.composition.reduced_formula == last)
    nets.check_graph(h, doc.network.graph, sp, pid, last, "network")
    g = doc.network.graph
    found = [e for e in (g.get_edge_data_by_index(i) for i in g.edge_indices()) if not isinstance(e, str)]
    by = {r.data["tag"]: r for r in rxns}
    conds = []
    for e in found:
        r = by[e.data["tag"]]
        same = {x.entry_id if not hasattr(x, "original_entry") else x.original_entry.entry_id for x in e.entries}
        h.check(same == {x.entry_id for x in r.entries}, "phases-of-the-reaction")
        h.check(type(e).__name__ == ("OpenComputedReaction" if el else "ComputedReaction"), "kind-of-reaction")
        ref = OpenComputedReaction(r.entries, r.coefficients, {Element(el): mu}) if el else r
        scale = e.coefficients[0] / next(c for c, x in zip(r.coefficients, r.entries) if x.entry_id == getattr(e.entries[0], "original_entry", e.entries[0]).entry_id)
        conds.append(Abs(e.energy - ref.energy * scale) <= 1e-6)
    h.check(And(*conds), "energies-at-the-conditions")
    h.check(doc.precursors == maker.precursors and doc.targets == maker.targets and doc.k == k, "record")
    if not (order and k):
        h.check(doc.paths is None, "no-pathways-asked-for")
        return
    left = list(doc.paths)
    for f in order:
        t = next(e.entry_id for e in es if e.composition.reduced_formula == f)
        ps = nets.simple_paths(sp, pid, t)
        n = min(k, len(ps))
        judge(h, left[:n], ps, sp, costs, n, f"target-{t}")
        left = left[n:]
    h.check(not left, "no-further-pathways")


def solving(h):
    """the pathway solver gets the net reaction, the entries and the settings of the job"""
    from pymatgen.core.periodic_table import Element

    import rxn_network.jobs.core as core
    from rxn_network.entries.entry_set import GibbsEntrySet

    pre, tgt = h.cfg["pre"], h.cfg["tgt"]
    v = enum.balance(pre, tgt)[1]
    kw = {"precursors": pre, "targets": tgt, "cost_function": object()}
    el = h.cfg.get("open")
    mu = h.real("mu", -2, 0) if el else 0.0
    if el:
        kw.update(open_elem=Element(el) if h.cfg.get("as_element") else el, chempot=mu)
    opt = {"max_num_combos": h.int("combos", 1, 6), "intermediate_rxn_energy_cutoff": h.real("cut", -1, 1)}
    opt.update({k: h.bool(k) for k in ("find_intermediate_rxns", "use_basic_enumerator", "use_minimize_enumerator", "filter_interdependent")})
    try:
        maker = core.PathwaySolverMaker(**kw, **opt)
    except ValueError:
        h.check(v is None, "refused-only-if-no-balanced-net-reaction")
        return
    h.check(v is not None, "refused-if-no-balanced-net-reaction")
    es = [gibbs(f, h.real(f"e_{f}_{k}", -3, 0), eid=f"{f}-{k}") for f in sorted(set(pre + tgt)) for k in range(h.cfg.get("poly", {}).get(f, 1))]
    for i, a in enumerate(es):
        for b in es[i + 1:]:
            if a.composition.reduced_formula == b.composition.reduced_formula:
                h.assume(Abs(a.energy_per_atom - b.energy_per_atom) >= 0.0005)
    S, given = GibbsEntrySet(es), object()
    log = []

    class PathwaySolver:
        def __init__(self, pathways, entries, cost_function, open_elem=None, chempot=0.0, chunk_size=100000, batch_size=None):
            log.append((pathways, entries, cost_function, open_elem, chempot))

        def solve(self, net_rxn, max_num_combos=4, find_intermediate_rxns=True, intermediate_rxn_energy_cutoff=0.0, use_basic_enumerator=True, use_minimize_enumerator=False, filter_interdependent=True):
            self.asked = dict(locals())
            log.append(self)
            return "pathways"

    old = core.PathwaySolver, core.PathwaySolverTaskDocument
    core.PathwaySolver, core.PathwaySolverTaskDocument = PathwaySolver, Document
    try:
        doc = run(maker, given, S)
    finally:
        core.PathwaySolver, core.PathwaySolverTaskDocument = old
    h.check(len(log) == 2, "solved-once")
    h.check(log[0][0] is given and log[0][1] is S and log[0][2] is kw["cost_function"], "pathways-entries-and-cost-function")
    h.check((None if log[0][3] is None else str(log[0][3])) == el, "open-element")
    h.check(And(*([log[0][4] == mu] if el else []), *[log[1].asked[k] == x for k, x in opt.items() if not isinstance(x, bool)]), "conditions")
    h.check(all(bool(log[1].asked[k]) == bool(x) for k, x in opt.items() if k not in ("max_num_combos", "intermediate_rxn_energy_cutoff")), "options")
    net = log[1].asked["net_rxn"]
    h.check(type(net).__name__ == ("OpenComputedReaction" if el else "ComputedReaction"), "net-reaction:kind")
    co = {e.entry_id: x for e, x in zip(net.entries, net.coefficients)}
    want = {N04.lowest(es, f): x for f, x in zip(pre + tgt, v)}
    h.check(co.keys() == want.keys(), "net-reaction:lowest-energy-entries")
    i0 = min(want)
    h.check(all((co[i] > 0) == (want[i] > 0) and abs(float(co[i]) / float(co[i0]) - float(want[i] / want[i0])) < 1e-6 for i in want), "net-reaction:coefficients")
    if el:
        h.check(list(net.chempots) == [Element(el)] and bool(net.chempots[Element(el)] == mu), "net-reaction:conditions")
    h.check(doc.balanced_paths == "pathways" and doc.net_rxn is net and doc.precursors == pre and doc.targets == tgt, "record")


class Job:
    def __init__(self, maker, *args, **kw):
        self.maker, self.args, self.kw = maker, args, kw
        self.output = Ref(self)


class Ref:
    def __init__(self, job, *path):
        self._job, self._path = job, path

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        return Ref(self._job, *self._path, n)

    def __eq__(self, o):
        return isinstance(o, Ref) and o._job is self._job and o._path == self._path

    __hash__ = None


class Maker:
    """stand-in for any job maker: records its settings and what it is asked to make"""

    def __init__(self, kind, **kw):
        self.kind, self.kw = kind, {"name": kind, **kw}

    def __getattr__(self, n):
        if n in self.__dict__.get("kw", ()):
            return self.kw[n]
        raise AttributeError(n)

    def update_kwargs(self, update, name_filter=None, class_filter=None, nested=True):
        return Maker(self.kind, **{**self.kw, **update})

    def make(self, *a, **k):
        return Job(self, *a, **k)


def flow(h):
    """which jobs run on what, at which conditions"""
    import rxn_network.flows.core as fc

    el = h.choice("open", [None, "O"])
    mus = [h.real(f"mu{i}", -3, 0) for i in range(h.choice("chempots", [0, 1, 2]))]
    basic, minim, solve, given = (bool(h.bool(k)) for k in ("basic", "minimize", "solver", "entries"))
    pre, tgt = ["Y2O3", "Mn4O6"], ["YMnO3"]
    real_flow = fc.Flow
    fc.Flow = lambda jobs, name=None, **k: SimpleNamespace(jobs=list(jobs), name=name)
    try:
        maker = fc.NetworkFlowMaker(
            get_entry_set_maker=Maker("get", temperature=900, e_above_hull=0.03, formulas_to_include=["MnO"]), enumeration_maker=Maker("enumerate"),
            network_maker=Maker("network", open_elem=None, chempot=0.0), solver_maker=Maker("solve", open_elem=None, chempot=0.0) if solve else None,
            open_elem=el, chempots=mus or None, use_basic_enumerators=basic, use_minimize_enumerators=minim,
            basic_enumerator_kwargs={"n": 1, "targets": ["YMnO3"]}, minimize_enumerator_kwargs={"targets": ["YMnO3"]})
        ents = object()
        got = maker.make(pre, tgt, **({"entries": ents} if given else {})).jobs
    finally:
        fc.Flow = real_flow
    left = list(got)
    take = lambda kind: left.pop(next(i for i, j in enumerate(left) if j.maker.kind == kind)) if any(j.maker.kind == kind for j in left) else None
    if not given:
        j = take("get")
        h.check(j is not None, "entries-acquired")
        h.check(set("".join(j.args or j.kw.values()).split("-")) == {"Y", "Mn", "O"}, "entries:chemical-system")
        h.check(sorted(j.maker.kw["formulas_to_include"]) == ["Mn2O3", "MnO", "Y2O3", "YMnO3"] and j.maker.kw["temperature"] == 900, "entries:precursors-and-targets-included")
        ents = j.output.entries
    same = lambda x: x is ents or (isinstance(x, Ref) and x == ents)

    def part(what, enums, rsets, mu):
        e = take("enumerate")
        h.check(e is not None, what + ":enumerated")
        arg = bind(e, ["enumerators", "entries"])
        h.check(same(arg["entries"]), what + ":entries")
        h.check(sorted(type(x).__name__ for x in arg["enumerators"]) == sorted(enums), what + ":enumerators")
        for x in arg["enumerators"]:
            h.check(list(x.targets) == ["YMnO3"], what + ":settings-of-the-enumerators")
            if type(x).__name__ == "BasicOpenEnumerator":
                h.check([comp(f).reduced_formula for f in x.open_phases] == [comp(el).reduced_formula], what + ":open-phase")
            if type(x).__name__ == "MinimizeGrandPotentialEnumerator":
                h.check(str(x.open_elem) == el and bool(x.mu == mu), what + ":chemical-potential")
        n = take("network")
        h.check(n is not None, what + ":network")
        arg = bind(n, ["rxn_sets"])
        mine = rsets + [e.output.rxns]
        h.check(len(arg["rxn_sets"]) == len(mine) and all(any(x == y for y in mine) for x in arg["rxn_sets"]), what + ":reactions-of-the-network")
        cond(n, what + ":network", mu)
        if solve:
            s = take("solve")
            h.check(s is not None, what + ":solver")
            arg = bind(s, ["pathways", "entries"])
            h.check(arg["pathways"] == n.output.paths and arg["entries"] == n.output.network.entries, what + ":pathways-to-balance")
            cond(s, what + ":solver", mu)
        return e.output.rxns

    def cond(j, what, mu):
        if mu is None:
            h.check(j.maker.kw["open_elem"] is None, what + ":closed")
        else:
            h.check(str(j.maker.kw["open_elem"]) == el and bool(j.maker.kw["chempot"] == mu), what + ":conditions")

    base = part("base", ["BasicEnumerator"] * basic + ["BasicOpenEnumerator"] * (basic and el is not None) + ["MinimizeGibbsEnumerator"] * minim, [], None)
    if minim and el:
        for i, mu in enumerate(mus):
            part(f"chempot{i}", ["MinimizeGrandPotentialEnumerator"], [base], mu)
    h.check(not left, "no-further-jobs")


def bind(job, names):
    return {**dict(zip(names, job.args)), **job.kw}


K = dict
Q = [
    {"sys": "YMO", "sym": ["YMnO3"], "extra": [], "T": 1000, "filter": 300, "custom": 1},
    {"sys": "YMO", "sym": ["Mn4O6"], "extra": ["Mn2O3"], "T": 900, "include": ["Mn2O3"], "hulls": True, "custom": 1, "key": "secret"},
    {"sys": "BTO", "sym": ["BaTiO3"], "extra": [], "T": 700, "include": ["BaTi2O5", "TiO2"], "custom": 0},
]
U = [
    K(set="MnO4", kinds=[K(n=2, chunk=(1, 30)), K(opens=["O2"], n=1)], orders=[[0, 1], [1, 0]]),
    K(set="poly", kinds=[K(pre="MnO O2"), K(tgt="Mn2O3", n=2)], orders=[[0, 1], [1, 0]]),
    K(set="ex", kinds=[K(tgt="NaNO2 AgCl"), K(tgt="NaNO2")]),
]
W = [
    K(net="diamond", k=3, sym=[0, 2], splits=[[[0, 1, 2, 3, 4]], [[0, 1], [1, 2, 3], [4, 5]]]),
    K(net="multi", k=2, sym=[1, 3], splits=[[[0, 1, 2], [3, 4, 5]], [[5, 4], [3], [2, 1, 0]]], open="O", iter=True),
    K(net="sets", k=3, sym=[0, 3], splits=[[[0, 1, 2, 3], [3, 2]]], open="O", as_element=True, targets="fe"),
    K(net="diamond", k=None, sym=[], splits=[[[0, 1], [2, 3, 4]]]),
    K(net="loop", k=5, sym=[1], splits=[[[0, 1], [2, 3, 4]]], targets=""),
    K(net="loop", k=5, sym=[], splits=[[[0, 1], [2, 3, 4]]], pre=False, targets=""),
]
V = [
    K(pre=["Y2O3", "Mn2O3"], tgt=["YMnO3"], poly={"YMnO3": 2}),
    K(pre=["Y2O3", "MnO"], tgt=["YMnO3"]),
    K(pre=["BaCO3", "TiO2"], tgt=["BaTiO3", "CO2"], open="C", poly={"TiO2": 2}),
    K(pre=["BaO2", "TiO2"], tgt=["BaTiO3", "O2"], open="O", as_element=True),
]
HARNESSES = [
    Harness("getting", getting, quick=Q, bounds="seven or eight computed entries, up to one of them given by the user; one 0 K energy, the stability cutoff and the polymorph option symbolic"),
    Harness("enumeration", enumeration, quick=U, bounds="two enumerators over 4-6 phases, with and without precursors and targets; chunk size and polymorph energies symbolic"),
    Harness("network", network, quick=W, bounds="4 network shapes of 4-7 reactions in one to three overlapping reaction sets, closed or open to oxygen at a symbolic chemical potential; one entry energy and up to two reaction costs symbolic; up to 3 pathways for up to two targets"),
    Harness("solving", solving, quick=V, bounds="four net reactions (one that cannot be balanced) with polymorphs; all energies, the chemical potential, the energy cutoff, the number of combined reactions and four options symbolic"),
    Harness("flow", flow, quick=[{}], bounds="open element or none, up to two chemical potentials (symbolic), with and without each enumerator family, a solver, given entries"),
]
