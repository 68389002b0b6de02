"""Combinatorial enumeration: exactly the reactions asked for, whatever the chunks and the schedule."""
from fractions import Fraction

from symx.fakeray import RAY
from symx.harness import Harness

from . import enum, sets
from .common import comp

setup_symbolic = sets.patch_hash
ASSUMPTIONS = ["ray is replaced by an in-process stand-in: tasks run to completion, results arrive in any order",
               "phase sets with more than one independent balanced reaction (max_num_constraints > 1) are checked for validity, not completeness"]


def schedule(h):
    RAY.reset()
    RAY.cpus = h.cfg.get("cpus", 4)
    if h.cfg.get("order") == "any":
        RAY.order = "any"
        n = [0]

        def choose(k):
            n[0] += 1
            return h.int(f"done{n[0]}_of_{k}", 0, k - 1).__index__() if k > 1 else 0

        RAY.chooser = choose
    else:
        RAY.order = h.cfg.get("order", "fifo")


def wanted(all_rxns, cfg, names, opens, chemsys):
    """those that pass the filters; names: id -> formula"""
    pre, tgt = cfg["pre"], cfg["tgt"]
    op = set(opens or ())
    opi = {i for i, x in names.items() if x in op}
    out = {}
    for (r, p), v in all_rxns.items():
        rr, pp = r - opi, p - opi
        els = {e for i in r for e in enum.parse(names[i])}
        if len(els | {e for o in op for e in enum.parse(o)}) < 2:
            continue
        if pre is not None and not (rr <= pre | opi if cfg["expre"] else rr & pre):
            continue
        if tgt is not None and not (pp <= tgt | opi if cfg["extgt"] else pp & tgt):
            continue
        if chemsys and not set(chemsys.split("-")) <= els | {e for o in op for e in enum.parse(o)}:
            continue
        out[(r, p)] = v
    return out


def run(h):
    from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator

    schedule(h)
    c = h.cfg
    es, ents = enum.entries(c["set"])
    opens = c.get("opens")
    n = h.int("n", *c["n"]).__index__()
    chunk = h.int("chunk_size", *c.get("chunk", (2500, 2500)))
    jobs = h.int("max_num_jobs", *c.get("jobs", (5000, 5000)))
    pre = h.choice("precursors", c.get("pre", [None]))
    tgt = h.choice("targets", c.get("tgt", [None]))
    flags = dict(expre=h.bool("exclusive_precursors") if pre and c.get("flags") else True,
                 extgt=h.bool("exclusive_targets") if tgt and c.get("flags") else False)
    dup = h.bool("filter_duplicates") if c.get("dups") else False
    mc = c.get("constraints", 1)
    kw = dict(precursors=pre.split() if pre else None, targets=tgt.split() if tgt else None, n=n,
              exclusive_precursors=flags["expre"], exclusive_targets=flags["extgt"], filter_duplicates=dup,
              filter_by_chemsys=c.get("chemsys"), chunk_size=chunk, max_num_jobs=jobs, max_num_constraints=mc, quiet=True)
    before = [(e.entry_id, e.energy_per_atom) for e in es.entries_list]
    en = BasicOpenEnumerator(opens, **kw) if opens else BasicEnumerator(**kw)
    out = en.enumerate(es)
    h.check([(e.entry_id, e.energy_per_atom) for e in es.entries_list] == before, "given-entries-unchanged")
    names = {e.entry_id: e.composition.reduced_formula for e in ents}
    names.update({e.entry_id: e.composition.reduced_formula for e in out.entries if e.entry_id not in names})
    extra = {}
    for f in (pre or "").split() + (tgt or "").split():
        f = comp(f).reduced_formula
        if f not in {e.composition.reduced_formula for e in ents}:
            got = [i for i, x in names.items() if x == f]
            extra[f] = got[0] if got else f"new {f}"
            names[extra[f]] = f
    items = [(i, f) for i, f in names.items()]
    all_rxns, multi = enum.reactions(items, n, opens)
    # a formula means its lowest-energy polymorph (the last one listed)
    phase = lambda x: [i for i, y in names.items() if y == comp(x).reduced_formula][-1]
    f = dict(flags, pre={phase(x) for x in pre.split()} if pre else None, tgt={phase(x) for x in tgt.split()} if tgt else None)
    want = wanted(all_rxns, f, names, opens, c.get("chemsys"))
    seen = {}
    for r in out.get_rxns():
        key = (frozenset(e.entry_id for e in r.reactant_entries), frozenset(e.entry_id for e in r.product_entries))
        seen[key] = seen.get(key, 0) + 1
        coeffs = {e.entry_id: k for e, k in zip(r.entries, r.coefficients)}
        if key in want:
            w = want[key]
            i0 = min(w)
            h.check(len(coeffs) == len(w), "phases")
            for i in w:
                h.check_eq(float(coeffs[i]) / float(coeffs[i0]), float(w[i] / w[i0]), "coefficients")
        else:
            h.check(key in multi and mc > 1, "no-other-reaction")
            amt = {}
            for i, k in coeffs.items():
                for el, a in enum.parse(names[i]).items():
                    amt[el] = amt.get(el, 0) + a * float(k)
            h.check(all(abs(v) < 1e-5 for v in amt.values()), "valid-reaction")
    h.check(all(v == 1 for k, v in seen.items() if k in want), "each-once")
    h.check(set(want) <= set(seen), "none-missing")
    h.observe("count", len(out))


HARNESSES = [
    Harness("chunks", run,
            [dict(set="MnO", n=(2, 2), chunk=(1, 80)), dict(set="YMO", n=(2, 2), chunk=(1, 60), opens=["O2"]),
             dict(set="ex", n=(2, 2), chunk=(2, 3), jobs=(1, 40)), dict(set="poly", n=(2, 2), chunk=(1, 40), pre=["MnO O2"]),
             dict(set="MnO4", n=(2, 2), chunk=(6, 30), order="any", jobs=(1, 5))],
            bounds="chunk sizes 1-80, job limits 1-40, every order in which up to 5 tasks complete; 4-6 phases, up to 2 phases a side"),
    Harness("filters", run,
            [dict(set="carb", n=(1, 2), flags=True, pre=[None, "Li2CO3 MnO2", "Li2O"], tgt=[None, "LiMnO2", "LiMnO2 CO2"]),
             dict(set="carb", n=(1, 2), flags=True, opens=["O2", "CO2"], pre=[None, "Li2CO3 MnO2"], tgt=[None, "LiMnO2"]),
             dict(set="ex", n=(2, 2), dups=True, chemsys="Na-Ag", pre=[None, "NaCl AgNO3"]),
             dict(set="YMO", n=(2, 3), flags=True, pre=["Y2O3 Mn2O3", "YMnO3 O2"], tgt=[None, "YMn2O5"], dups=True),
             dict(set="MnO", n=(2, 2), pre=["Mn O2", "MnO2 Mn"], tgt=[None, "MnO2"], flags=True),
             dict(set="MnO4", n=(2, 2), constraints=2), dict(set="two", n=(2, 3))],
            bounds="6 phase sets of 4-6 phases, up to 3 phases a side, one or two open phases, precursor and target lists (also of phases not in the set), exclusive or not, chemical-system filter, duplicate filter"),
]
