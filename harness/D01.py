"""Queries of entry and reaction databases return exactly the matching documents."""
import contextlib
import io
import sys
from types import ModuleType, SimpleNamespace

from symx.core import And, Not, Or, Sum
from symx.harness import Harness

from .common import comp, entry
from .J01 import Document, run

ASSUMPTIONS = [
    "MongoDB and the Materials Project client are stand-ins: documents whose fields are unknowns, queries evaluated with MongoDB's meaning",
    "process_entries (decided by E08) is a stand-in that records what it is given; structures are one fixed crystal",
]


class Els:
    """the elements of a document: one unknown per element of the universe"""

    def __init__(self, h, name, universe, size=None):
        self.bits = {e: h.bool(f"{name}.{e}") for e in universe}
        h.assume(Or(list(self.bits.values())))

    def inside(self, els):
        """no element outside els"""
        els = {str(e) for e in els}
        return And([Not(b) for e, b in self.bits.items() if e not in els])

    def avoids(self, els):
        els = {str(e) for e in els}
        return And([Not(b) for e, b in self.bits.items() if e in els])

    def exactly(self, els):
        els = [str(e) for e in els]
        if len(set(els)) != len(els) or not set(els) <= set(self.bits):
            return False
        return And([b if e in els else Not(b) for e, b in self.bits.items()])

    def chemsys_in(self, strings):
        """whether the (sorted) chemical system is one of the strings: a decision tree with shared branches"""
        order = list(self.bits)
        rows = set()
        for s in strings:
            p = s.split("-")
            if p == sorted(p) and len(set(p)) == len(p) and set(p) <= set(order):
                rows.add(tuple(e in p for e in order))
        memo = {}

        def tree(i, rest):
            if not rest:
                return False
            if i == len(order):
                return True
            if rest not in memo:
                one = tree(i + 1, frozenset(r[1:] for r in rest if r[0]))
                zero = tree(i + 1, frozenset(r[1:] for r in rest if not r[0]))
                b = self.bits[order[i]]
                memo[rest] = one if one is zero else Or([And([b, one]), And([Not(b), zero])])
            return memo[rest]

        return tree(0, frozenset(rows))


def cond(doc, field, c):
    """whether the document's field satisfies a Mongo condition"""
    v = doc
    for k in field.split("."):
        v = v.get(k) if isinstance(v, dict) else getattr(v, k, None)
    if isinstance(v, Els):
        if field == "chemsys":
            if isinstance(c, dict):
                if set(c) != {"$in"}:
                    raise NotImplementedError(c)
                return v.chemsys_in(c["$in"])
            return v.chemsys_in([c])
        for op, a in c.items():
            if op == "$nin":
                return v.avoids(a)
            if op == "$in":
                return Not(v.avoids(a))
            if op == "$not" and set(a) == {"$elemMatch"} and set(a["$elemMatch"]) == {"$nin"}:
                return v.inside(a["$elemMatch"]["$nin"])
            raise NotImplementedError(c)
    if isinstance(c, dict):
        out = []
        for op, a in c.items():
            if op == "$in":
                out.append(Or([v == x for x in a]))
            elif op == "$nin":
                out.append(Not(Or([v == x for x in a])))
            elif op == "$ne":
                out.append(Not(v == a))
            elif op == "$eq":
                out.append(v == a)
            else:
                raise NotImplementedError(c)
        return And(out)
    if v is None or c is None:
        return v is c
    return v == c


def matches(doc, q):
    out = []
    for k, c in q.items():
        if k in ("$or", "$and"):
            out.append((Or if k == "$or" else And)([matches(doc, x) for x in c]))
        else:
            out.append(cond(doc, k, c))
    return And(out) if out else True


class Store:
    def __init__(self, docs, h=None):
        self.docs, self.queries, self.connected = docs, 0, False

    def connect(self, *a, **k):
        self.connected = True

    def query(self, criteria=None, properties=None, **k):
        self.queries += 1
        for d in self.docs:
            if matches(d, criteria or {}):
                yield {x: v for x, v in d.items() if properties is None or x in properties or x == "_id"}

    def query_one(self, criteria=None, properties=None, sort=None, load=None, **k):
        found = [d for d in self.docs if matches(d, criteria or {})]
        for key, sign in reversed(list((sort or {}).items())):
            best = []
            for d in found:  # stable insertion, unknown keys compared by the solver
                n = len(best)
                while n and (best[n - 1][key] > d[key] if sign == 1 else best[n - 1][key] < d[key]):
                    n -= 1
                best.insert(n, d)
            found = best
        return dict(found[0]) if found else None


def structure(el="Cu", a=3.6):
    from pymatgen.core import Lattice, Structure

    return Structure(Lattice([[0, a / 2, a / 2], [a / 2, 0, a / 2], [a / 2, a / 2, 0]]), [el], [[0, 0, 0]])  # fcc, one atom


def raw(eid, energy):
    d = {"@module": "pymatgen.entries.computed_entries", "@class": "ComputedStructureEntry", "energy": energy, "composition": {"Cu": 1.0}, "entry_id": eid,
         "correction": 0.0, "energy_adjustments": [], "parameters": {}, "data": {}, "structure": structure().as_dict()}
    return d


def avail(h, name, kinds):
    """which calculations a document has"""
    k = h.choice(name, kinds)
    out = {}
    if "u" in k:
        out["GGA+U"] = raw(name + ":U", h.real(name + ".eU", -9, 9))
    elif k == "n" or k == "gn":
        out["GGA+U"] = None
    if "g" in k:
        out["GGA"] = raw(name + ":G", h.real(name + ".eG", -9, 9))
    return out, (name + ":U" if "u" in k else name + ":G" if "g" in k else None)


def chemsys(h):
    """the entry of every document within the chemical system, once"""
    from rxn_network.entries.utils import get_all_entries_in_chemsys_from_entry_db

    els, others = h.cfg["els"].split(), h.cfg.get("other", "").split()
    docs, want = [], []
    for i in range(h.cfg.get("docs", 1)):
        e = Els(h, f"d{i}", els + others)
        ents, pick = avail(h, f"d{i}", h.cfg.get("kinds", ["u", "ug", "g", "gn", "n", ""]) if i == 0 else ["ug", ""])
        docs.append({"_id": i, "chemsys": e, "elements": e, "entries": ents})
        want.append((e.inside(els), pick, ents))
    db = Store(docs)
    arg = "-".join(els) if h.cfg.get("str") else list(els)
    got = get_all_entries_in_chemsys_from_entry_db(db, arg)
    h.check(arg == ("-".join(els) if h.cfg.get("str") else els), "elements-untouched")
    ids = [e.entry_id for e in got]
    for i, (inside, pick, ents) in enumerate(want):
        mine = [x for x in ids if x.startswith(f"d{i}:")]
        if pick is None:
            h.check(not mine, "no-entry-without-a-calculation")
            continue
        h.check(len(mine) <= 1, "each-document-once")
        h.check(inside if mine else Not(inside), "exactly-the-documents-of-the-chemical-system")
        if mine:
            h.check(mine == [pick], "calculation-with-U-preferred")
            e = next(x for x in got if x.entry_id == pick)
            h.check_eq(e.energy, next(v for v in ents.values() if v and v["entry_id"] == pick)["energy"], "energy-of-the-document")
            h.check(type(e).__name__ == "ComputedStructureEntry", "structure-kept")
    h.check(len(ids) == sum(x.startswith("d") for x in ids), "nothing-else")
    h.observe("ids", ids)


def criteria(h):
    """identifiers, chemical systems with wildcards, formulas and full queries"""
    from rxn_network.entries.utils import get_entries_from_entry_db

    crit, uni = h.cfg["crit"], h.cfg["uni"].split()
    e = Els(h, "d0", uni)
    forms = h.cfg.get("forms", ["Fe2O3"])
    docs = [{"_id": 0, "chemsys": e, "elements": e, "task_id": h.choice("id", ["mp-1", "mp-12", "mvc-1"]), "pretty_formula": h.choice("formula", forms), "entries": avail(h, "d0", ["ug"])[0]}]
    got = get_entries_from_entry_db(Store(docs), crit)
    d = docs[0]
    toks = [crit] if isinstance(crit, dict) else crit.split()
    want = []
    for t in toks:
        if isinstance(t, dict):
            want.append(matches(d, t))
        elif t[:2] in ("mp", "mv"):
            want.append(d["task_id"] == t)
        elif "-" in t:
            syms = t.split("-")
            fixed = [s for s in syms if s[0] not in "*{"]
            n = len(syms)
            sets_ = []
            from itertools import product

            opts = [[s] if s in fixed else uni if s == "*" else [x.strip() for x in s[1:-1].split(",")] for s in syms]
            for c in product(*opts):
                if len(set(c)) == n:
                    sets_.append(e.exactly(c))
            want.append(Or(sets_))
        else:
            want.append(d["pretty_formula"] in h.cfg["hits"])
    w = Or(want)
    h.check(w if got else Not(w), "exactly-the-documents-asked-for")
    h.check(len(got) <= 1, "once")
    h.observe("n", len(got))


def legacy(h):
    """get_entries / get_all_entries_in_chemsys: deprecated ones left out, energies and structures as asked for"""
    import rxn_network.entries.utils as u

    els = h.cfg["els"].split()
    inc, conv, sort, pre = h.cfg.get("inc"), h.cfg.get("conv", False), h.cfg.get("sort", False), h.cfg.get("pre", False)
    docs = []
    for i in range(h.cfg.get("docs", 2)):
        e = Els(h, f"d{i}", els + h.cfg.get("other", "").split())
        ents, pick = avail(h, f"d{i}", ["ug", "u", ""]) if pre else ({}, None)
        docs.append({"_id": i, "chemsys": e, "elements": e, "entries": ents, "pick": pick, "deprecated": h.bool(f"old{i}"), "final_energy": h.real(f"e{i}", -9, 9), "unit_cell_formula": {"Cu": 1.0}, "task_id": f"d{i}:",
                     "run_type": "GGA", "is_hubbard": False, "pseudo_potential": {"functional": "PBE", "labels": ["Cu_pv"]}, "hubbards": {}, "oxide_type": "None", "e_above_hull": h.real(f"h{i}", 0, 1),
                     "band_gap": h.real(f"g{i}", 0, 5), "initial_structure": structure(a=3.5).as_dict(), "structure": structure(a=3.6).as_dict()})
    for i in range(1, len(docs)):
        h.assume(Or([docs[i]["e_above_hull"] - docs[0]["e_above_hull"] >= 0.001, docs[0]["e_above_hull"] - docs[i]["e_above_hull"] >= 0.001]))
    props = ["band_gap"] if h.cfg.get("props") else None
    db = Store(docs)
    kw = dict(compatible_only=False, inc_structure=inc, property_data=props, use_premade_entries=pre, conventional_unit_cell=conv)
    if sort:
        got = u.get_entries(db, {"elements": {"$in": els}}, sort_by_e_above_hull=True, **kw)
        want = [Not(d["elements"].avoids(els)) for d in docs]
    else:
        got = u.get_all_entries_in_chemsys(db, els if h.cfg.get("list") else "-".join(els), n=h.cfg.get("n", 1000), **kw)
        want = [d["elements"].inside(els) for d in docs]
    for i, d in enumerate(docs):
        mine = [e for e in got if e.entry_id.startswith(f"d{i}:")]
        w = And(want[i], Not(d["deprecated"]))
        if pre and d["pick"] is None:
            w = False
        h.check(w if mine else Not(w), "exactly-the-documents-asked-for")
        h.check(len(mine) <= 1, "each-document-once")
        for e in mine:
            if pre:
                h.check(e.entry_id.split(":")[1] in ("U", "G"), "a-stored-entry")
                continue
            h.check((type(e).__name__ == "ComputedStructureEntry") == bool(inc), "structure-as-asked-for")
            n = 4 if inc and conv else 1
            h.check_eq(e.energy, d["final_energy"] * n, "energy-of-the-cell")
            h.check(e.composition.num_atoms == n, "atoms-of-the-cell")
            if inc:
                h.check(abs(e.structure.volume / len(e.structure) - (3.5 if inc == "initial" else 3.6) ** 3 / 4) < 1e-6, "initial-or-final-structure")
            if props:
                h.check_eq(e.data["band_gap"], d["band_gap"], "requested-data")
            if sort:
                h.check_eq(e.data["e_above_hull"], d["e_above_hull"], "energy-above-hull")
    if sort:
        hs = [e.data["e_above_hull"] for e in got]
        h.check(And([a <= b for a, b in zip(hs, hs[1:])]) if len(hs) > 1 else True, "sorted-by-energy-above-hull")
    h.observe("ids", [e.entry_id for e in got])


MANY = "Ac Ag Al As Au B Ba Be Bi Br C Ca Cd Ce Cl Co Cr Cs Cu Dy Er Eu F Fe Ga Gd Ge H".split()


def maker(h):
    """the entry set job fetches exactly the chemical system's entries, from either source"""
    from unittest.mock import patch

    import rxn_network.jobs.core as core

    n = h.cfg["n"]
    els, other = MANY[:n], [] if n >= len(MANY) else MANY[n:n + 2]
    other = other + ["Zn"]
    docs, built = [], {}
    for i in range(h.cfg.get("docs", 2)):
        e = Els(h, f"d{i}", els + other)
        ents, pick = avail(h, f"d{i}", ["ug", "g", ""] if h.cfg.get("db") else ["g"])
        docs.append({"_id": i, "chemsys": e, "elements": e, "entries": ents, "material_id": f"d{i}", "deprecated": h.bool(f"old{i}") if not h.cfg.get("db") else False})
    custom = [entry("LiF", -3.0, eid="custom")] if h.cfg.get("custom") else []
    seen = {}

    def process(entries, **kw):
        seen["entries"], seen["kw"] = list(entries), kw
        return "processed"

    class MPRester:
        def __init__(self, **k):
            self.summary = SimpleNamespace(search=self.search)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def search(self, exclude_elements=None, elements=None, all_fields=True, deprecated=None, **k):
            q = {}
            if exclude_elements is not None:
                q = {"elements": {"$nin": list(exclude_elements)}}
            if deprecated is not None:
                q["deprecated"] = {"$in": [deprecated]}
            if k or elements is not None:
                raise NotImplementedError(k)
            for d in Store(docs).query(q):
                yield SimpleNamespace(material_id=d["material_id"])

        def get_entries(self, ids, **k):
            return [core_entry(d) for d in docs if d["material_id"] in list(ids)]

        def get_entries_in_chemsys(self, elements, **k):
            els = elements.split("-") if isinstance(elements, str) else elements
            return [core_entry(d) for d in docs if And(d["elements"].inside(els), Not(d["deprecated"]))]

    def core_entry(d):
        from pymatgen.entries.computed_entries import ComputedStructureEntry

        if d["_id"] not in built:
            built[d["_id"]] = ComputedStructureEntry.from_dict(d["entries"]["GGA"])
        return built[d["_id"]]

    fake = ModuleType("mp_api.client")
    fake.MPRester = MPRester
    old = sys.modules.get("mp_api.client")
    sys.modules["mp_api.client"] = fake
    stores = {"mine": Store(docs)} if h.cfg.get("db") else {}
    try:
        with patch.object(core, "process_entries", process), patch.object(core, "EntrySetDocument", Document), patch.object(core, "SETTINGS", SimpleNamespace(JOB_STORE=SimpleNamespace(additional_stores=stores))):
            m = core.GetEntrySetMaker(temperature=h.cfg.get("t", 300), custom_entries=custom, entry_db_name="mine" if h.cfg.get("db") else None)
            doc = run(m, "-".join(els))
    finally:
        sys.modules["mp_api.client"] = old
        if old is None:
            del sys.modules["mp_api.client"]
    ids = [e.entry_id for e in seen["entries"]]
    for i, d in enumerate(docs):
        mine = [x for x in ids if x.startswith(f"d{i}:")]
        w = And(d["elements"].inside(els), Not(d["deprecated"]))
        if not d["entries"]:
            w = False
        h.check(w if mine else Not(w), "exactly-the-entries-of-the-chemical-system")
        h.check(len(mine) <= 1, "each-once")
    h.check(ids.count("custom") == len(custom), "custom-entries-added")
    h.check(doc.entries == "processed" and seen["kw"]["temperature"] == h.cfg.get("t", 300), "processed-entries")
    h.observe("ids", ids)


def rxns_db(h):
    """the newest matching synthesis result, at the conditions asked for"""
    from unittest.mock import patch

    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction
    from rxn_network.reactions.reaction_set import ReactionSet
    import rxn_network.utils.database as db

    forms = ["BaO", "Ti", "O2", "BaTiO3"]
    cs = [-1, -1, -1, 1]
    docs, sets_ = [], []
    for i in range(h.cfg.get("docs", 2)):
        es = [entry(f, h.real(f"e{i}{k}", -9, 9) if k in (0, 3) else -3.0 - k, eid=f"d{i}-{f}") for k, f in enumerate(forms)]
        rs = ReactionSet.from_rxns([ComputedReaction(es, cs, data={"tag": f"d{i}"})])
        sets_.append(es)
        docs.append({"_id": i, "completed_at": h.real(f"at{i}", 0, 8), "metadata": {"fw_id": h.choice(f"fw{i}", [1, 2]) if h.cfg.get("fw") else i},
                     "output": SimpleNamespace(target_formula=h.choice(f"target{i}", ["BaTiO3", "TiO2"]), open_elem=h.choice(f"open{i}", [None, "O"]), chempot=h.real(f"mu{i}", -2, 0), rxns=rs, last_updated="now")})
    for i in range(1, len(docs)):
        for j in range(i):
            h.assume(Or([docs[i]["completed_at"] - docs[j]["completed_at"] >= 0.01, docs[j]["completed_at"] - docs[i]["completed_at"] >= 0.01]))
    el = h.cfg.get("open")
    mu = h.real("mu", -2, 0) if el else 0.0
    kw = {"open_elem": el, "chempot": mu} if el else {}
    if h.cfg.get("fw"):
        kw["fw_id"] = h.cfg["fw"]
    store = Store(docs)
    with patch.object(db, "SETTINGS", SimpleNamespace(JOB_STORE=store)), contextlib.redirect_stdout(io.StringIO()):
        try:
            got = db.get_rxns_from_db(h.cfg["target"], **kw)
        except ValueError:
            got = None
    h.check(store.connected, "connected")
    ok = [And(d["output"].target_formula == comp(h.cfg["target"]).reduced_formula, d["output"].open_elem == el, d["output"].chempot == mu, d["metadata"]["fw_id"] == h.cfg["fw"] if h.cfg.get("fw") else True) for d in docs]
    if got is None:
        h.check(Not(Or(ok)), "error-only-without-a-match")
        return
    r = list(got.get_rxns())
    h.check(len(r) == 1, "one-result")
    k = int(r[0].data["tag"][1:])
    h.check(And([ok[k]] + [Or([Not(o), docs[j]["completed_at"] <= docs[k]["completed_at"]]) for j, o in enumerate(ok) if j != k]), "newest-match")
    h.check(type(r[0]).__name__ == ("OpenComputedReaction" if el else "ComputedReaction"), "kind")
    if el:
        from pymatgen.core.periodic_table import Element

        ref = OpenComputedReaction(sets_[k], cs, {Element(el): mu})
        h.check_eq(r[0].energy_per_atom, ref.energy_per_atom, "energy-at-the-chemical-potential")
    else:
        h.check_eq(r[0].energy, Sum([c * e.energy for c, e in zip(cs, sets_[k])]), "energy")
    h.observe("k", k)


HARNESSES = [
    Harness("chemsys", chemsys,
            [dict(els="Li", other="O Fe"), dict(els="O Li", other="Fe N"), dict(els="Y Mn O", other="C Li", str=True, docs=2), dict(els="O Fe Li C", other="B Na", docs=2, kinds=["ug", ""]), dict(els=" ".join(MANY[:6][::-1]), other="O Zn", kinds=["ug"]),
             dict(els=" ".join(MANY[:10]), other="O Zn", kinds=["ug"]), dict(els=" ".join(MANY[3:14]), other="O Zn", kinds=["ug", ""], str=True), dict(els=" ".join(MANY[:13]), other="O", kinds=["ug"]), dict(els=" ".join(MANY[:14]), other="O Zn", docs=2), dict(els=" ".join(MANY[:20]), other="O Zn Y", docs=2, str=True)],
            [dict(els=" ".join(MANY[:n]), other="O Zn Y", docs=2 if n < 9 else 1, str=s, **({} if n < 9 else {"kinds": ["ug", ""]})) for n in range(1, 21) for s in (True, False)],
            bounds="1-20 elements as string or list in any order, every subset of the elements (and up to three others) for one or two documents, every combination of available calculations, any energies"),
    Harness("criteria", criteria,
            [dict(crit="mp-12", uni="O"), dict(crit="Li-O", uni="Li O Fe"), dict(crit="O-Li-Fe", uni="Li O Fe C"), dict(crit="Li-*-O", uni="Li O Fe C B N"), dict(crit="*-O", uni="Li O Fe C"), dict(crit="mp-1 Fe-O", uni="Fe O Li"), dict(crit="{Li,Na}-O", uni="Li Na O Fe"),
             dict(crit="Fe4O6", uni="Fe O", forms=["Fe2O3", "FeO", "Fe4O6"], hits=["Fe2O3"]), dict(crit="*2O3", uni="Fe O", forms=["Fe2O3", "Al2O3", "FeO"], hits=["Fe2O3", "Al2O3"]), dict(crit="FeO Li-O mvc-1", uni="Fe O Li", forms=["FeO", "Fe2O3"], hits=["FeO"]), dict(crit={"chemsys": "Fe-O", "task_id": {"$in": ["mp-1", "mp-12"]}}, uni="Fe O Li")],
            bounds="11 criteria; every subset of up to six elements, three identifiers and up to three formulas of one document"),
    Harness("legacy", legacy,
            [dict(els="O Li Fe", other="C"), dict(els="O Li", other="C", inc="final", list=True), dict(els="Li Fe O", other="C", inc="initial", props=True, n=2), dict(els="Li O", other="C", inc="final", conv=True), dict(els="Li O", other="C", pre=True), dict(els="Li O", sort=True, other="C"),
             dict(els="Li O", sort=True, other="C", props=True, inc="final"), dict(els=" ".join(MANY[:14]), other="O"), dict(els=" ".join(MANY[:6]), other="O", n=7, docs=1)],
            bounds="2-14 elements, every subset of them and another for one or two documents, deprecated or not, any energies and energies above hull, chunks of 2, 7 or 1000 chemical systems"),
    Harness("maker", maker, [dict(n=3), dict(n=3, db=True, custom=True), dict(n=25, docs=1), dict(n=26), dict(n=26, custom=True, t=900), dict(n=28, docs=1), dict(n=14, db=True)],
            [dict(n=n, docs=2, custom=c) for n in range(1, 29) for c in (False, True)] + [dict(n=n, db=True, docs=2) for n in (1, 2, 5, 8, 13, 14, 20)],
            bounds="chemical systems of 3-28 elements from the Materials Project or an entry database, every subset of the elements and up to three others for one or two documents"),
    Harness("rxns_db", rxns_db, [dict(target="BaTiO3"), dict(target="Ba2Ti2O6", open="O"), dict(target="BaTiO3", open="O", fw=2), dict(target="TiO2", docs=2), dict(target="BaTiO3", docs=3)],
            [dict(target=t, docs=3, **o, **f) for t in ("BaTiO3", "Ba2Ti2O6") for o in ({}, {"open": "O"}) for f in ({}, {"fw": 1})],
            bounds="2-3 stored results with any target, open element, chemical potential, firework and completion time"),
]
