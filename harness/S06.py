"""The table of a reaction set: one row per reaction, right values, sorted by cost."""
from symx.core import And, Max, Sum
from symx.harness import Harness

from . import R04, sets
from .common import comp, gibbs, parse
from .sets import FORMS, POOL, reaction


def setup_symbolic():
    R04.setup_symbolic()
    sets.patch_hash()



GASES = {"O2", "CO2", "CO", "N2", "H2O", "H2", "NH3", "NO2", "NO", "SO2", "SO3", "HCl", "HF", "HBr", "CH4", "F2", "Cl2"}


class Cost:
    def __init__(self, table):
        self.table = table

    def evaluate(self, rxn):
        return self.table[rxn.data["tag"]]


def table(h):
    from rxn_network.reactions.reaction_set import ReactionSet

    hull = h.cfg.get("hull")
    es = sets.entries(h)
    eh = [h.real(f"h{i}", 0, 2) for i in range(len(es))] if hull else None
    for i, e in enumerate(es):
        if hull:
            e.data["e_above_hull"] = eh[i]
    picks = list(h.cfg["base"])
    mu = h.real("mu", -20, 5) if h.cfg.get("open") else None
    rxns = [reaction(h, es, k, f"t{i}", h.real(f"s{i}", 1 / 128, 32), mu) for i, k in enumerate(picks)]
    for i, r in enumerate(rxns):
        r.data["extra"] = h.real(f"x{i}", -1, 1)
        r.data["num_constraints"] = 1
    costs = {f"t{i}": h.real(f"c{i}", -40, 40) for i in range(len(rxns))}
    rs = ReactionSet.from_rxns(rxns)
    target = h.cfg.get("target")
    kw = {"target": comp(target), "calculate_separable": bool(h.cfg.get("sep"))} if target else {}
    df = rs.to_dataframe(Cost(costs), **kw)
    h.check(len(df) == len(rxns), "table:one-row-per-reaction")
    tags = [r.data["tag"] for r in df["rxn"]]
    h.check(sorted(tags) == sorted(costs), "table:every-reaction-once")
    h.check(list(df.index) == list(range(len(rxns))), "table:index")
    prev = None
    for n, t in enumerate(tags):
        row = df.iloc[n]
        i = int(t[1:])
        k = picks[i]
        h.check_eq(row["cost"], costs[t], "table:cost-of-the-reaction")
        h.check_eq(row["energy"], rxns[i].energy_per_atom, "table:energy-per-atom")
        h.check_eq(row["extra"], rxns[i].data["extra"], "table:extra-data")
        if prev is not None:
            h.check(prev <= row["cost"], "table:sorted-by-cost")
        prev = row["cost"]
        h.check(int(row["max_num_precursor_elems"]) == max(len(parse(FORMS[j])) for j, c in POOL[k] if c < 0), "table:max-num-precursor-elems")
        if target:
            els = {e for j, _ in POOL[k] for e in parse(FORMS[j])}
            h.check(row["added_elems"] == "-".join(sorted(els - set(parse(target)))), "table:added-elements")
            if h.cfg.get("sep"):
                by = [FORMS[j] for j, c in POOL[k] if c > 0 and FORMS[j] != target]
                h.check(bool(row["separable"]) == all(b in GASES or not (set(parse(b)) & set(parse(target))) for b in by), "table:separable")
        if hull:
            for col, sg in (("max_e_hull_reactants", -1), ("max_e_hull_products", 1)):
                h.check_eq(row[col], Max([eh[j] for j, c in POOL[k] if c * sg > 0]), "table:" + col)
    other = {t: -1 * c for t, c in costs.items()}
    df2 = rs.to_dataframe(Cost(other), **kw)
    for n in range(len(df2)):
        h.check_eq(df2.iloc[n]["cost"], other[df2.iloc[n]["rxn"].data["tag"]], "table:another-cost-function")
        if n:
            h.check(df2.iloc[n - 1]["cost"] <= df2.iloc[n]["cost"], "table:another-cost-function-sorted")
    got = rs.calculate_costs(Cost(costs))
    for c, r in zip(got, rs.get_rxns()):
        h.check_eq(c, costs[r.data["tag"]], "calculate-costs-in-iteration-order")
    h.check(len(got) == len(rxns), "calculate-costs:length")
    h.observe("order", tags)


# symbols of the target that contain other symbols
ADDED = [(["CoCl2", "Na2CO3"], ["CoCO3", "NaCl"], [-1, -1, 1, 2]), (["SiS2", "O2"], ["SiO2", "SO2"], [-1, -3, 1, 2]), (["InN", "I2"], ["InI3", "N2"], [-2, -3, 2, 1]), (["NbN", "B", "O2"], ["Nb2O5", "BN"], [-4, -4, -5, 2, 4]),
         (["CaC2", "H2O"], ["CaO", "C2H2"], [-1, -1, 1, 1]), (["SnO2", "CS2"], ["SnS2", "CO2"], [-1, -1, 1, 1])]


def added(h):
    """elements outside the target, by-products that can be separated, experimental phases and uncertainties"""
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction
    from rxn_network.reactions.reaction_set import ReactionSet
    from pymatgen.core.periodic_table import Element

    r, p, cs = ADDED[h.cfg["sys"]]
    forms = r + p
    mode = h.cfg["exp"]
    es, known = [], []
    for i, f in enumerate(forms):
        d, k = {}, None
        if mode == "theoretical":
            k = bool(h.bool(f"theory{i}"))
            d["theoretical"] = k
            if i % 2:
                d["icsd_ids"] = [] if i % 4 == 1 else [7, 8]  # the flag decides
        elif mode == "icsd":
            n = h.choice(f"icsd{i}", [0, i % 2 + 1])
            d["icsd_ids"] = list(range(n))
            k = n == 0
        known.append(k)
        if mode:
            es.append(gibbs(f, h.real(f"e{i}", -3, 0), eid=f"{f}-{i}", data=d))
        else:
            es.append(R04.corrected()(comp(f), h.real(f"e{i}", -9, 0), entry_id=f"{f}-{i}"))
            es[-1].dev = h.real(f"u{i}", 0, 1)
    s = h.real("s", 1 / 128, 32)
    open_el = h.cfg.get("open")
    rxn = OpenComputedReaction(es, [c * s for c in cs], {Element(open_el): h.real("mu", -3, 0)}) if open_el else ComputedReaction(es, [c * s for c in cs])
    rs = ReactionSet.from_rxns([rxn])
    for t in range(len(forms)):
        if h.cfg["targets"] == "products" and t < len(r):
            continue
        target = forms[t]
        kw = {"calculate_separable": True} if t >= len(r) else {}
        if not mode:
            kw["calculate_uncertainties"] = True
        row = rs.to_dataframe(Flat(), target=target if t % 2 else comp(target), **kw).iloc[0]
        out = {e for f in forms for e in parse(f)} - set(parse(target))
        h.check(row["added_elems"] == "-".join(sorted(out)), "table:added-elements")
        if not mode:
            atoms = sum(c * sum(parse(f).values()) for f, c in zip(forms, cs) if c > 0)
            h.check_eq(row["dE"] * row["dE"] * atoms * atoms, Sum([(c * e.dev) * (c * e.dev) for c, e in zip(cs, es)]), "table:uncertainty")
        if "calculate_separable" in kw:
            h.check(bool(row["separable"]) == all(comp(f).reduced_formula in GASES or set(parse(f)) <= out for f in p if f != target), "table:separable")
        if mode:
            h.check(int(row["num_theoretical_reactants"]) == sum(known[: len(r)]) and int(row["num_theoretical_products"]) == sum(known[len(r):]), "table:theoretical-phases")
        else:
            h.check("num_theoretical_reactants" not in row.index, "table:no-theoretical-columns")
    h.observe("e", rxn.energy_per_atom)


class Flat:
    def evaluate(self, rxn):
        return 0.0


def select(h):
    """rows whose precursors are all available"""
    from rxn_network.reactions.plotting import filter_df_by_precursors
    from rxn_network.reactions.reaction_set import ReactionSet

    es = sets.entries(h, sym=False)
    picks = h.cfg["base"]
    rxns = [reaction(h, es, k, f"t{i}", h.real(f"s{i}", 1 / 128, 32), -1.0 if h.cfg.get("open") else None) for i, k in enumerate(picks)]
    costs = {f"t{i}": h.real(f"c{i}", -40, 40) for i in range(len(rxns))}
    df = ReactionSet.from_rxns(rxns).to_dataframe(Cost(costs))
    have = [f for f in sorted({FORMS[j] for k in picks for j, c in POOL[k]}) if bool(h.bool("have " + f))]
    before = list(df.columns), list(df.index)
    got = filter_df_by_precursors(df, have)
    want = [n for n in range(len(df)) if all(comp(FORMS[j]).reduced_formula in have for j, c in POOL[picks[int(df.iloc[n]["rxn"].data["tag"][1:])]] if c < 0)]
    h.check(list(got.index) == want and (list(df.columns), list(df.index)) == before and list(got.columns) == before[0], "select:rows-with-available-precursors")
    h.check(And([got.loc[n]["cost"] == df.loc[n]["cost"] for n in want]), "select:values-kept")


B = [([0, 3, 5], {}), ([1, 2, 7], {"open": 1}), ([0, 1, 7], {"target": "YMnO3", "sep": 1}), ([5, 4], {"target": "O2", "sep": 1}), ([1, 3], {"hull": 1}), ([9, 5, 3], {"target": "Mn3O4"}), ([5, 5], {"target": "Mn3O4", "sep": 1}),
     ([2], {"target": "Y2O3", "sep": 1, "open": 1, "hull": 1})]
HARNESSES = [
    Harness("table", table, quick=[dict(d, base=b) for b, d in B],
            thorough=[dict(d, base=b) for b, d in B] + [dict(base=[a, b, c], hull=1, open=o) for a, b, c, o in ((0, 5, 7, 0), (1, 3, 9, 1), (2, 4, 8, 0), (6, 0, 1, 1))],
            bounds="sets of 1-3 reactions from 10; costs, energies, hull distances, scales and an extra data column symbolic; ties included"),
    Harness("added", added, quick=[dict(sys=i, exp=("", "theoretical", "icsd")[i % 3], targets="all" if i % 2 == 0 else "products", **({"open": o} if o else {})) for i, o in zip(range(6), ("", "O", "I", "", "O", ""))],
            thorough=[dict(sys=i, exp=x, targets="all") for i in range(6) for x in ("", "theoretical", "icsd")],
            bounds="six reactions with element symbols contained in one another, every phase as target, every combination of theoretical and experimental phases, any energies and scale"),
    Harness("select", select, quick=[dict(base=[0, 3]), dict(base=[5, 2]), dict(base=[7, 4], open=True)], thorough=[dict(base=[5, 2, 9]), dict(base=[7, 4, 3], open=True), dict(base=[0, 3])], bounds="two or three reactions, every set of available precursors, any costs"),
]
