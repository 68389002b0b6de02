"""Changing chemical potential or temperature recomputes the energies, nothing else."""
from symx.core import Sum
from symx.harness import Harness

from . import sets
from .common import comp, parse
from .sets import FORMS, POOL, coeff_map, match, reaction, same

setup_symbolic = sets.patch_hash
ASSUMPTIONS = ["entry energies at each temperature are free variables supplied by a stand-in entry (the real entries' temperature dependence is E04/E05)"]


def _tentry(h, i, t, energies):
    from pymatgen.entries.computed_entries import ComputedEntry

    class TEntry(ComputedEntry):
        def get_new_temperature(self, new_temperature):
            return make(self.num, new_temperature)

        @property
        def unique_id(self):
            return f"id{self.num}_{self.temperature}"

    def make(n, temp):
        if (n, temp) not in energies:
            energies[(n, temp)] = h.real(f"e{n}_{temp}", -300, 300)
        e = TEntry(comp(FORMS[n]), energies[(n, temp)], entry_id=f"id{n}")
        e.num, e.temperature = n, temp
        return e

    return make(i, t)


def _energy(k, s, energies, t, mu=None):
    """stoichiometric sum at temperature t (lowest polymorph within the reaction), minus mu*N(O)"""
    from symx.core import Min

    tot = []
    idx = [j for j, _ in POOL[k]]
    for j, c in POOL[k]:
        e = Min([energies[(x, t)] for x in idx if FORMS[x] == FORMS[j]])
        if mu is not None and FORMS[j] != "O2":
            e = e - mu * parse(FORMS[j]).get("O", 0)
        tot.append(c * s * e)
    return Sum(tot)


def temperature(h):
    from rxn_network.reactions.reaction_set import ReactionSet

    energies = {}
    t0 = 300
    es = [_tentry(h, i, t0, energies) for i in range(len(FORMS))]
    mu = h.real("mu", -20, 5) if h.cfg["open"] else None
    picks = [h.cfg["first"], h.choice("r1", h.cfg["from"])]
    sc = [h.real(f"s{i}", 1 / 128, 32) for i in range(2)]
    rxns = [reaction(h, es, k, f"t{i}", s, mu) for i, (k, s) in enumerate(zip(picks, sc))]
    rs = ReactionSet.from_rxns(rxns)
    temps = [700, 1200]
    outs = {700: rs.set_new_temperature(700)} if h.cfg["how"] == "one" else rs.compute_at_temperatures(temps)
    h.check(set(outs) == (set(temps) if h.cfg["how"] != "one" else {700}), "temperatures:all-present")
    for t, o in outs.items():
        got = {r.data["tag"]: r for r in o.get_rxns()}
        h.check(len(got) == len(rxns) == len(o), "temperature:same-reactions")
        for i, (k, s) in enumerate(zip(picks, sc)):
            g = got[f"t{i}"]
            cm = coeff_map(g)
            h.check(len(g.entries) == len(POOL[k]) and set(cm) == {f"id{j}" for j, _ in POOL[k]}, "temperature:same-phases")
            for j, c in POOL[k]:
                h.check_eq(cm[f"id{j}"], c * s, "temperature:same-coefficients")
            for e in g.entries:
                h.check(e.temperature == t, "temperature:entries-at-the-new-temperature")
                h.check_eq(e.energy, energies[(e.num, t)], "temperature:entry-energy")
            h.check_eq(g.energy, _energy(k, s, energies, t, mu), "temperature:energy")
            h.check(type(g).__name__ == type(rxns[i]).__name__, "temperature:reaction-type")
    # the original set is unaffected
    for g in rs.get_rxns():
        i = int(g.data["tag"][1:])
        h.check_eq(g.energy, _energy(picks[i], sc[i], energies, t0, mu), "temperature:original-unchanged")
    # a single reaction
    ways = [(), (None,)]
    if len({FORMS[j] for j, _ in POOL[picks[0]]}) == len(POOL[picks[0]]):
        ways.append(({e.composition: _tentry(h, e.num, 700, energies) for e in rxns[0].entries},))
    for way in ways:
        r = rxns[0].get_new_temperature(700, *way)
        h.check_eq(r.energy, _energy(picks[0], sc[0], energies, 700, mu), "reaction-temperature:energy")
        h.check(type(r) is type(rxns[0]) and r.data == rxns[0].data and r.lowest_num_errors == rxns[0].lowest_num_errors, "reaction-temperature:type-and-data")
        a, b = coeff_map(r), coeff_map(rxns[0])
        h.check(a.keys() == b.keys() and all(e.temperature == 700 for e in r.entries), "reaction-temperature:entries")
        for k in b:
            h.check_eq(a[k], b[k], "reaction-temperature:coefficients")
    h.check_eq(rxns[0].energy, _energy(picks[0], sc[0], energies, t0, mu), "reaction-temperature:original-unchanged")
    h.observe("n", len(rs))


def chempot(h):
    from pymatgen.core.periodic_table import Element
    from rxn_network.reactions.reaction_set import ReactionSet

    es = sets.entries(h)
    picks = [h.cfg["first"], h.choice("r1", h.cfg["from"])]
    el = h.cfg["el"]
    start = h.real("mu0", -20, 5) if h.cfg["open"] else None
    sc = [h.real(f"s{i}", 1 / 128, 32) for i in range(2)]
    rxns = [reaction(h, es, k, f"t{i}", s, start, el) for i, (k, s) in enumerate(zip(picks, sc))]
    rs = ReactionSet.from_rxns(rxns)
    mu = h.real("mu", -20, 5)
    new = rs.set_chempot(Element(el) if h.cfg.get("obj") else el, mu)
    match(h, new, [reaction(h, es, k, f"t{i}", s, mu, el) for i, (k, s) in enumerate(zip(picks, sc))], "set_chempot")
    match(h, rs, rxns, "set_chempot:original-unchanged")
    none = rs.set_chempot(el, None)
    match(h, none, [reaction(h, es, k, f"t{i}", s, 0.0, el) for i, (k, s) in enumerate(zip(picks, sc))], "set_chempot:none-is-zero")
    closed = new.set_chempot(None, 0)
    match(h, closed, [reaction(h, es, k, f"t{i}", s) for i, (k, s) in enumerate(zip(picks, sc))], "set_chempot:no-element-is-closed")
    mu2 = h.real("mu2", -20, 5)
    a = new.set_chempot(el, mu2)
    match(h, a, [reaction(h, es, k, f"t{i}", s, mu2, el) for i, (k, s) in enumerate(zip(picks, sc))], "set_chempot:last-call-wins")


HARNESSES = [
    Harness("temperature", temperature,
            quick=[{"first": f, "open": o, "how": w, "from": q} for f, o, w, q in ((0, 0, "one", [1, 3]), (1, 1, "one", [0, 7]), (8, 0, "many", [1, 2]), (5, 1, "many", [3, 9]), (7, 0, "one", [0, 8]))],
            thorough=[{"first": f, "open": o, "how": w, "from": list(range(10))} for f in range(10) for o in (0, 1) for w in ("one", "many")],
            bounds="two reactions of 10 over 7 entries incl. a polymorph pair; entry energies at three temperatures are independent variables in [-300,300]; scales and chempot symbolic"),
    Harness("chempot", chempot,
            quick=[{"first": f, "open": o, "el": e, "obj": b, "from": q} for f, o, e, b, q in ((0, 0, "O", 0, [1, 3]), (3, 1, "O", 1, [5, 7]), (7, 1, "O", 0, [8, 9]), (2, 0, "Mn", 0, [3, 4]))],
            thorough=[{"first": f, "open": o, "el": e, "obj": 0, "from": list(range(10))} for f in range(10) for o in (0, 1) for e in ("O", "Mn", "Y")],
            bounds="two reactions, initial/new/second chempots in [-4,0], open O, Mn or Y"),
]
