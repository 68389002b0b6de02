# executed by gen.py
prop("R01", "A balanced reaction conserves every element on the requested sides",
     "A reaction reports itself balanced exactly when every element is conserved by its coefficients (within the documented tolerance). "
     "Balancing a set of reactant and product phases, by compositions, formulas or entries, finds the solution with every phase on its requested side whenever that solution is unique, and never reports an error-free reaction that violates conservation, loses a phase or moves one to the other side.",
     ["inputs"], "all coefficient vectors (flag), all solution vectors (balancing) and all element amounts (symbolic compositions) of the listed phase sets",
     "Tests balance a dozen fixed reactions and compare printed coefficients; soundness and completeness are statements about all coefficient vectors and stoichiometries.",
     ["reactions/basic.py", "reactions/computed.py", "core.py"],
     [("BasicReaction.balance", "reactions/basic.py"), ("BasicReaction._balance_coeffs", "reactions/basic.py"), ("ComputedReaction.balance", "reactions/computed.py")],
     ["BasicReaction.balanced / coefficients / lowest_num_errors"])
prop("C01", "The Pareto front is exactly the set of non-dominated rows",
     "Minimising or maximising, the reported Pareto front over the chosen metrics contains no row that another row beats (at least as good in every metric, strictly better in one), and every row left out is beaten by another row or has the same metrics as a row that was kept. "
     "The input table is not changed, and mask and index forms of the answer agree.",
     ["inputs"], "all real-valued metric tables up to the stated size, both senses",
     "Tests look at one table from one reaction set; dominance is a relation between all rows.",
     ["costs/pareto.py"], [("get_pareto_front / is_pareto_efficient", "costs/pareto.py")], ["returned DataFrame / mask"])
prop("R03", "Reversing, copying and rescaling a reaction keep its chemistry",
     "reverse() negates every coefficient and the energy and swaps the sides, reversing twice gives back an equal reaction, and copy() gives an equal one; neither affects the original. "
     "normalize_to and normalize_to_element scale every coefficient by one positive factor so that the chosen phase or element has exactly the requested amount: energies scale, energy per atom, chempots and sides do not change. "
     "Atomic and molar fractions of each side sum to one and follow the coefficients.",
     ["inputs"], "all coefficient vectors of 13 balanced phase sets, all energies, chemical potentials and factors",
     "Tests compare printed strings of a few reactions; these are identities over all coefficients.",
     ["reactions/basic.py", "reactions/computed.py", "reactions/open.py"],
     [("BasicReaction.reverse/copy/normalize_to/normalize_to_element", "reactions/basic.py"), ("OpenComputedReaction.reverse/copy", "reactions/open.py")],
     ["coefficients, energy, energy_per_atom, reactant/product views"])
prop("R04", "A reaction's energy is the stoichiometric sum of its entries' energies",
     "For a closed reaction listing each phase once, energy equals the sum of coefficient times the entry's energy (corrections included) per reduced formula, energy_per_atom is that divided by the number of product atoms, and neither depends on the order of phases. "
     "Scaling a reaction scales energy and leaves energy_per_atom. The uncertainty is the root of the sum of squares of coefficient times the entry's uncertainty (unknown ones count as zero), per atom likewise.",
     ["inputs"], "all entry energies, formula-unit multiples and coefficients of 13 balanced phase sets",
     "A sign, normalisation or ordering error shows only for particular multiples and orders.",
     ["reactions/computed.py"], [("ComputedReaction.energy / energy_per_atom", "reactions/computed.py")], ["energy", "energy_per_atom"])
prop("R05", "An open reaction's energy is the change in grand potential",
     "With open elements at given chemical potentials, an open reaction's energy is the closed energy with mu*N subtracted for every phase that is not itself the open element, normalised per non-open atom. "
     "Elements, chemical system, atom counts and atomic fractions exclude the open elements, total_chemical_system includes them. "
     "Built directly, from a closed reaction, by balance() or through reverse/copy, the answer is the same and the closed reaction is unaffected.",
     ["inputs"], "all energies, chemical potentials and coefficients, 20 (phase set, open elements) pairs with one or two open elements",
     "Tests use one or two reactions with oxygen open at one chemical potential.",
     ["reactions/open.py"], [("OpenComputedReaction", "reactions/open.py")], ["energy", "energy_per_atom", "num_atoms", "chemical_system"])
prop("R06", "Reaction equality, hashing and dictionary round trips agree",
     "Two reactions over the same phases are equal exactly when their coefficients agree (within the documented tolerance) irrespective of listing order, and computed ones also need the same energy per atom; equality is reflexive and symmetric, and equal reactions have equal hashes. "
     "as_dict/from_dict gives back an equal reaction of the same class with the same coefficients, sides, data, entries, energy and chemical potentials.",
     ["inputs"], "pairs of arbitrary coefficient vectors and energies over 13 phase sets",
     "Equality bugs need two reactions with specially related coefficients; tests compare a reaction with its copy.",
     ["reactions/basic.py", "reactions/computed.py", "reactions/open.py"],
     [("__eq__ / __hash__ / as_dict / from_dict", "reactions/basic.py"), ("ComputedReaction.__eq__", "reactions/computed.py")], ["==", "hash()", "from_dict(as_dict())"])
prop("S01", "A reaction set gives back exactly the reactions put into it",
     "ReactionSet.from_rxns followed by get_rxns (or iteration) yields the same multiset of reactions: same entries (also among polymorphs), coefficients, data, energies, and open or closed as the set's open element says. "
     "Sets built with or without per-reaction data, and read back from their dictionary form, agree; the entry-index vector of a reaction holds its coefficients at its entries' positions.",
     ["inputs"], "sets of up to three reactions out of ten over seven entries including polymorphs; all scales, energies and chempots",
     "The compressed index/coefficient arrays are grouped by size and data; tests round-trip one enumerated set.",
     ["reactions/reaction_set.py"], [("ReactionSet.from_rxns / _get_rxns_by_indices", "reactions/reaction_set.py")], ["get_rxns()", "len()", "as_dict()"])
prop("S02", "Duplicate filtering keeps one of each family of equivalent reactions",
     "filter_duplicates keeps a subset of the input reactions, unchanged, such that every input reaction is a positive multiple of exactly one kept reaction. "
     "Reactions passed to be ensured are kept, the input set is not modified, and the number of CPUs, chunk size and completion order do not change this.",
     ["inputs", "schedules"], "any scales; sets of up to four reactions out of ten including reordered, reversed and polymorph variants; CPU counts and completion orders symbolic",
     "Parallel chunking makes the outcome depend on the set size and CPU count; tests run one size on one machine.",
     ["reactions/reaction_set.py"], [("ReactionSet.filter_duplicates / _get_idxs_to_keep", "reactions/reaction_set.py")], ["returned ReactionSet"])
prop("S03", "Queries by product and by reactants return exactly the matches",
     "get_rxns_by_product returns exactly the reactions that produce the formula (any polymorph of it), and get_rxns_by_reactants exactly those whose reactants are all among the given formulas; as iterables or as sets, and with the reactions unchanged.",
     ["inputs"], "sets of reactions chosen symbolically from ten; all scales; formulas present, absent, unreduced",
     "A missed index depends on the position of the phase in the entry list.",
     ["reactions/reaction_set.py"], [("get_rxns_by_product / get_rxns_by_reactants", "reactions/reaction_set.py")], ["returned reactions"])
prop("S04", "Adding to a reaction set is multiset union",
     "add_rxns and add_rxn_set return a set holding exactly the reactions of both operands with multiplicity, energies and data unchanged, for sets over the same entries in any listing order (closed, or open at the same chemical potential); neither operand changes. Combining sets over different entries is rejected with ValueError.",
     ["inputs"], "two operands of one or two reactions each chosen from ten; all scales and chempots",
     "Merging concatenates index arrays grouped by reaction size; errors show only for particular combinations of sizes.",
     ["reactions/reaction_set.py"], [("add_rxns / add_rxn_set", "reactions/reaction_set.py")], ["returned ReactionSet"])
prop("S05", "Changing temperature or chempot of a set recomputes energies only",
     "set_new_temperature and compute_at_temperatures give, for each temperature, the same reactions (phases incl. polymorphs, coefficients, data) with every entry and every energy at that temperature; set_chempot gives the same reactions with grand-potential energies at the new chemical potential, the last call winning. "
     "The original set and reactions keep their energies. A single reaction's get_new_temperature works likewise.",
     ["inputs", "histories"], "all entry energies at three temperatures, all chempots, two reactions of ten incl. polymorphs",
     "Each value recomputed or forgotten is a separate energy; tests look at a few numbers.",
     ["reactions/reaction_set.py", "reactions/computed.py", "reactions/open.py"],
     [("ReactionSet.set_new_temperature / set_chempot", "reactions/reaction_set.py"), ("ComputedReaction.get_new_temperature", "reactions/computed.py")], ["get_rxns()"])
prop("S06", "The table of a reaction set has one right row per reaction, by cost",
     "to_dataframe has one row per reaction in order of increasing cost; each row's energy, cost, extra data, hull distances of precursors and products, added elements, precursor size and separability are those of the row's reaction. "
     "Uncertainty, by-product separability and counts of theoretical phases are also those of the row's reaction. filter_df_by_precursors keeps exactly the rows whose reactants are all available. Asking again with another cost function gives that function's costs, and calculate_costs follows iteration order.",
     ["inputs"], "sets of one to three reactions; costs, energies, hull distances and data symbolic, ties included",
     "Columns are computed in separate passes and sorted afterwards; misalignment shows only for some orders of the costs.",
     ["reactions/reaction_set.py"], [("ReactionSet.to_dataframe / calculate_costs", "reactions/reaction_set.py")], ["returned DataFrame"])
prop("P01", "Pathway solving finds exactly the balanced combinations of steps",
     "PathwaySolver.solve returns, sorted by average cost and each once, exactly the sets of at most max_num_combos given reactions that sum to the net reaction with positive multiplicities; it reports those multiplicities and each step's own cost. "
     "With filter_interdependent, sets whose steps cannot be carried out in any order from the net reaction's precursors are left out; with find_intermediate_rxns, reactions between the given intermediates that make a target and lie below the energy cutoff are used as well. "
     "CPU count, chunk and batch sizes, and completion order do not change the answer, and a net reaction that cannot be reached gives an empty set.",
     ["inputs", "schedules"], "net reactions t1*r1+t2*r2(+t3*r3) for all real t of listed steps in four systems; all step costs; entry energies for the enumerated intermediates",
     "Tests solve one net reaction; which combinations balance depends on exact stoichiometry and signs.",
     ["pathways/solver.py", "pathways/pathway_set.py"],
     [("PathwaySolver.solve / _find_intermediate_rxns", "pathways/solver.py"), ("PathwaySolver.solve, balance_path_arrays_cpu_wrapper", "pathways/solver.py")], ["returned PathwaySet"])
prop("P02", "Pathways report their own values and survive storage in a pathway set",
     "A pathway's energy, total and average cost, (net) reactants, products, intermediates, compositions and coefficient matrix are those of its steps. "
     "Two pathways are equal exactly when they are of the same kind with the same steps and, if balanced, the same multiplicities and costs; equal pathways hash alike. "
     "PathwaySet.from_paths followed by iteration, .paths or a dictionary round trip gives back every pathway in order with its kind, steps, multiplicities, costs and balanced flag.",
     ["inputs"], "pathways of up to four steps in four systems; all reaction scales, energies, multiplicities and costs",
     "Tests look at one stored set; the index-based storage shares reactions between pathways.",
     ["pathways/basic.py", "pathways/balanced.py", "pathways/pathway_set.py"],
     [("BasicPathway", "pathways/basic.py"), ("BalancedPathway", "pathways/balanced.py"), ("PathwaySet", "pathways/pathway_set.py")], ["values, ==, hash, paths"])
prop("P03", "A pathway is interdependent exactly when no order of steps works",
     "contains_interdependent_rxns(precursors) is true exactly when the steps cannot be put in an order in which each one uses only the precursors and products of earlier steps, given that every phase used is a precursor or made by some step. The pathway is not changed.",
     ["inputs"], "pathways of two to four steps drawn from 12 steps in either direction",
     "Dependency cycles of three and four steps have many shapes; tests try a few.",
     ["pathways/balanced.py"], [("BalancedPathway.contains_interdependent_rxns", "pathways/balanced.py")], ["returned flag"])
prop("H01", "The interface reaction hull is the lower convex envelope",
     "For the reactions between two phases, the mixing ratio of a reaction is its atomic share of the second phase, get_hull_energy(x) is the lower convex envelope of the reaction energies per atom and the two unreacted phases at any x in [0,1], and get_energy_above_hull is the distance to it. "
     "Stable and unstable reactions partition all reactions: those on the envelope vertices are stable. get_reactions_by_coordinate gives the stable neighbours with fractions that sum to one and reproduce the ratio.",
     ["inputs"], "all energies of up to four (thorough five) reactions of eleven between two phases and every mixing ratio",
     "Which facets of the hull count depends on the signs and order of energies; tests have one hull.",
     ["reactions/hull.py"], [("InterfaceReactionHull", "reactions/hull.py")], ["get_hull_energy", "get_energy_above_hull", "stable_reactions"])
prop("H02", "Primary competition compares with the best competing reaction",
     "get_primary_competition of a reaction is its energy per atom minus the lowest energy among the reactions at other mixing ratios and zero (no reaction); it does not depend on the order in which reactions were given or on earlier queries.",
     ["inputs"], "all energies of up to three (thorough four) reactions between two phases",
     "Positive energies, ties in mixing ratio and end members are rare in samples.",
     ["reactions/hull.py"], [("InterfaceReactionHull.get_primary_competition", "reactions/hull.py")], ["get_primary_competition"])
prop("H03", "Secondary competition averages over all decomposition sequences",
     "get_secondary_competition is minus the sum, over the two sides of the reaction, of the mean total energy of all sequences of pairwise reactions between hull vertices; the recursive and closed-form implementations agree, normalize=False and include_e_hull change it as documented, and the number of sequences is the Catalan number. "
     "The max-energy and area variants give the largest single step and the area between the vertices and their chord.",
     ["inputs"], "all energies of up to three (thorough four) reactions between two phases, including reactants that decompose; 0-26 intermediate products",
     "Tests compare one hull against stored numbers; sequences differ by which vertices exist.",
     ["reactions/hull.py"], [("get_secondary_competition / get_decomposition_energy / count", "reactions/hull.py")], ["get_secondary_competition*"])
prop("C02", "Cost functions combine exactly the named parameters",
     "WeightedSum is the sum of weight times parameter and Softplus is log(1 + (273/T) exp(weighted sum)), with data stored on the reaction taking precedence over its attributes. "
     "The cost rises with every parameter of positive weight, and a missing parameter or a wrong number of weights is refused.",
     ["inputs"], "all parameter values, weights and temperatures in the stated ranges",
     "Tests evaluate one reaction; monotonicity and precedence are statements about all values.",
     ["costs/functions.py"], [("Softplus.evaluate", "costs/functions.py"), ("WeightedSum.evaluate", "costs/functions.py")], ["evaluate()"])
prop("C03", "A calculator stores the value it calculates on a copy of the reaction",
     "decorate() returns an equal reaction carrying the calculated value under the calculator's name, keeps the other data and leaves the original as it was, also for many reactions at once. "
     "The chemical potential distance of a reaction is the chosen aggregate (sum, mean, max, or a function) over all reactant-product (or all) pairs, and competition calculators equal the corresponding hull method.",
     ["inputs"], "all pairwise distances and offsets, all energies of competing reactions",
     "Tests decorate one reaction and compare rounded numbers.",
     ["costs/calculators.py"], [("ChempotDistanceCalculator.calculate", "costs/calculators.py"), ("Calculator.decorate", "costs/base.py")], ["calculate()", "decorate()"])
prop("E01", "An entry set answers from its current contents after any history of changes",
     "After any sequence of add, update, discard and remove, membership, size, the sorted entry list, the chemical system, the ground state of each formula and the energies above hull are those of a set freshly built from the same entries. "
     "Sub-system selection returns exactly the entries within the elements, and dictionary round trips and construction options keep entries and energies.",
     ["inputs", "histories"], "sequences of two (thorough: three) operations with all energies of the moving entries symbolic",
     "Answers are cached; a stale cache shows only after a particular order of queries and changes.",
     ["entries/entry_set.py", "thermo/utils.py"], [("GibbsEntrySet._clear_cache / min_entries_by_formula / get_e_above_hull", "entries/entry_set.py")], ["queries of GibbsEntrySet"])
prop("E02", "Stability filtering keeps exactly the phases within the cutoff",
     "With polymorphs, filter_by_stability returns exactly the entries whose energy above the hull of the whole set is within the cutoff. "
     "Without, it returns exactly one entry for each such formula, the lowest in energy. "
     "The original set and its entries are unchanged and filtering twice changes nothing.",
     ["inputs"], "all energies of one to three phases and all cutoffs in six sets of six to ten entries",
     "The order in which sub-systems and polymorphs are visited decides; tests look at one cutoff of one set.",
     ["entries/entry_set.py", "thermo/utils.py"], [("GibbsEntrySet.filter_by_stability", "entries/entry_set.py")], ["returned GibbsEntrySet"])
prop("E03", "Stabilized and interpolated entries lie just below the hull",
     "A stabilized entry has the energy of the hull at its composition minus the tolerance, whatever its class, and an entry already on the hull is returned unchanged unless forced. "
     "An interpolated entry has the hull energy minus the tolerance per atom for one reduced formula unit, and initialize_entry gives the ground state of a formula or else an interpolated entry. "
     "Set and originals are unchanged.",
     ["inputs"], "all energies, tolerances and stored energies above hull in sets of six to nine entries",
     "Tests stabilize two formulas of one set.",
     ["entries/entry_set.py", "entries/utils.py"], [("get_stabilized_entry / get_interpolated_entry", "entries/entry_set.py"), ("initialize_entry", "entries/utils.py")], ["energy of the returned entry"])
prop("E04", "New temperatures and adjustments give new entries and leave the originals",
     "get_entries_with_new_temperature returns each entry, at the energy it would have if made at that temperature, except those without data there; energies above hull are recomputed if they had been requested and dropped otherwise. "
     "get_adjusted_entry adds exactly the adjustment for every class of entry, and jitter shifts each energy by its uncertainty times the sample. "
     "Originals never change.",
     ["inputs"], "all energies, adjustments, samples and temperatures between tabulated ones",
     "Sharing of data between the old and new set shows only when both are looked at afterwards.",
     ["entries/entry_set.py", "entries/gibbs.py", "entries/experimental.py"], [("get_entries_with_new_temperature / get_adjusted_entry / get_entries_with_jitter", "entries/entry_set.py")], ["energies, temperatures and data of both sets"])
prop("E05", "A Gibbs entry's energy is enthalpy plus descriptor minus elemental potentials",
     "The energy is formation enthalpy plus the SISSO descriptor at the entry's volume, mass and temperature, minus elemental chemical potentials interpolated linearly between tabulated temperatures, plus all adjustments; it scales with formula units. "
     "Changing the temperature gives the entry made there and back again, and temperatures outside 300-2000 K are refused. "
     "Copies, dictionary forms and grand potential forms agree.",
     ["inputs"], "about 230 (composition, temperature or interval) pairs, enthalpies and volume or temperature symbolic",
     "Tests compare a few numbers at 300 and 1000 K.",
     ["entries/gibbs.py", "entries/corrections.py"], [("GibbsComputedEntry.gf_sisso / get_new_temperature", "entries/gibbs.py")], ["energy", "get_new_temperature()"])
prop("E06", "Experimental entries interpolate the reference tables",
     "An experimental entry's energy is the tabulated value, linearly interpolated between temperatures, per formula unit times the number of units, plus its adjustments. "
     "Changing the temperature gives the entry made there, temperatures and formulas outside the table are refused, and dictionary and grand potential forms agree.",
     ["inputs"], "NIST and FREED compounds, all temperatures between tabulated ones, adjustments and chemical potentials",
     "Tests compare a few tabulated numbers.",
     ["entries/experimental.py", "entries/nist.py", "entries/freed.py"], [("ExperimentalReferenceEntry", "entries/experimental.py")], ["energy", "get_new_temperature()"])
prop("E07", "Entry equality is an equivalence that hashing respects",
     "Entries of one class are equal exactly when their identifiers (compositions, if unnamed), temperatures and energies (within the usual tolerance) agree; equality is symmetric and entries of different classes differ. "
     "Equal entries have equal hashes, so sets hold no duplicates.",
     ["inputs"], "pairs of entries of all classes with arbitrary energies and adjustments",
     "A hash that looks at more than equality does duplicates entries only for energies that differ by round-off.",
     ["entries/gibbs.py", "entries/experimental.py", "entries/interpolated.py"], [("__eq__ / __hash__", "entries/gibbs.py")], ["==", "hash()"])
prop("G01", "A reaction network is exactly the graph of its reactions",
     "build() gives one node per distinct set of reactant phases and one per distinct set of product phases, exactly one edge per reaction from its reactants to its products carrying that reaction unchanged, and a zero-cost loopback edge from a product node to a reactant node exactly when they hold the same phases. "
     "The network's entries are the phases of its reactions and each node names its phases' elements; building again, or storing and loading first, gives the same graph.",
     ["inputs"], "every choice and direction of 2-4 reactions of eleven (repeats, reverses, polymorphs), all scales and energies",
     "Nodes are merged by comparing entry sets; errors need particular combinations of shared phases. The repository has one test, that a stored network loads.",
     ["network/network.py", "network/entry.py"],
     [("ReactionNetwork.build, get_rxn_nodes_and_edges, get_loopback_edges", "network/network.py"), ("NetworkEntry.__eq__", "network/entry.py")], ["ReactionNetwork.graph"])
prop("G02", "A network's graph depends on its last precursors and target alone",
     "After any sequence of set_precursors, set_target, build, save/load and find_pathways calls, the graph and attributes are those of a fresh network with the last settings: precursor edges lead exactly to the reactant nodes made of precursors, a product node leads to every reactant node it can serve together with the precursors, target edges come exactly from product nodes holding the target, and nothing of earlier settings remains. "
     "A formula means its lowest-energy phase.",
     ["histories", "inputs"], "every history of up to 4 calls over 3 networks, 4-5 precursor sets and 2-3 targets; every order of polymorph energies",
     "Stale edges appear only after a particular sequence of settings, which no test performs.",
     ["network/network.py", "network/base.py"],
     [("ReactionNetwork.set_precursors / set_target", "network/network.py"), ("Network.as_dict / from_dict, Graph", "network/base.py")], ["ReactionNetwork.graph / precursors / target"])
prop("G03", "find_pathways returns the k cheapest loopless paths",
     "For each target, find_pathways(targets, k) returns the min(k, all) cheapest distinct paths that start from the precursors, never visit a node twice and end in the target, cheapest first; each path's costs are the cost function's values for its reactions and add up to its total cost. "
     "An unreachable target gives no path.",
     ["inputs"], "every vector of reaction costs, every subset of the optional reactions, k up to 6, in seven network shapes",
     "Yen's algorithm goes wrong only for particular cost orders and shared prefixes; no test runs it.",
     ["network/network.py"], [("ReactionNetwork.find_pathways, yens_ksp, get_edge_weight", "network/network.py")], ["returned PathwaySet"])
prop("N01", "Enumeration yields exactly the allowed reactions, however it is split",
     "BasicEnumerator and BasicOpenEnumerator return every reaction between at most n phases a side (plus open phases on one side) that has a unique balanced solution with every phase on its side, in both directions and once each, restricted exactly to the given precursors, targets and chemical system, and no other. "
     "Chunk size, job limit, CPU count and the order in which tasks complete do not matter; the entries handed in are not changed.",
     ["inputs", "schedules"], "all chunk sizes up to 80, job limits up to 40, completion orders of up to 5 tasks; 7 phase sets with all listed option combinations",
     "Tests count reactions for one chunk size on one machine; a reaction lost at a chunk boundary needs a particular size.",
     ["enumerators/basic.py", "enumerators/utils.py"],
     [("BasicEnumerator.enumerate / _react", "enumerators/basic.py"), ("group_by_chemsys", "enumerators/utils.py")], ["returned ReactionSet"])
prop("N03", "Thermodynamic enumeration converts every predicted reaction and no other",
     "MinimizeGibbsEnumerator and MinimizeGrandPotentialEnumerator analyse every pair of phases that the precursor filter allows, with the phase diagram of exactly the pair's chemical system, and return each reaction predicted there that passes the precursor and target filters, as a computed (open) reaction of the lowest-energy entries with balanced coefficients, none lost, repeated or invented. "
     "Chunk size and completion order do not matter.",
     ["inputs", "schedules"], "every subset of the predicted reactions, polymorph order, chemical potential and chunk size in two phase sets",
     "Tests count reactions of one entry set for one chunk size.",
     ["enumerators/minimize.py", "enumerators/utils.py", "enumerators/basic.py"],
     [("MinimizeGibbsEnumerator / MinimizeGrandPotentialEnumerator", "enumerators/minimize.py"), ("react_interface, get_computed_rxn, get_open_computed_rxn", "enumerators/utils.py")], ["returned ReactionSet"])
prop("E08", "Entry sets hold every computed phase once with the right free energy",
     "GibbsEntrySet.from_computed_entries gives each phase exactly once: the experimental references alone where requested and valid at the temperature, otherwise every computed entry of the formula (for elements the ground state) with the free energy of its 0 K formation energy, volume, temperature and the requested carbonate and CO2 corrections, data and parameters kept. "
     "Stored energies above hull are those of the finished set; the input entries and sets built earlier from them are unaffected. "
     "process_entries keeps exactly the phases within the stability cutoff at the filter temperature and the requested formulas, at the final temperature.",
     ["inputs", "histories"], "0 K energies of up to three phases, stability cutoff and all options; up to 14 phases in 3 or 10 elements",
     "Tests build sets from one stored list of entries; which polymorph, reference or correction wins depends on energies and options together.",
     ["entries/entry_set.py", "entries/utils.py", "entries/corrections.py"],
     [("GibbsEntrySet.from_computed_entries / from_pd", "entries/entry_set.py"), ("process_entries", "entries/utils.py")], ["entries and energies of the returned set"])
prop("T01", "Expanded phase diagrams give the stabilities of the whole system",
     "expand_pd returns one phase diagram for every maximal chemical system of its entries, holding every entry of that system and no other, so that each entry is in at least one diagram and has there the energy above hull it has in the full diagram of all entries. "
     "Grand potential entries give grand potential diagrams that keep every chemical potential.",
     ["inputs"], "two or three energies and chemical potentials, up to 22 entries in up to 11 elements, any order of the entries",
     "Tests compare one set of entries with one stored dictionary of systems.",
     ["thermo/utils.py"], [("expand_pd", "thermo/utils.py")], ["returned dictionary of phase diagrams"])
prop("J01", "The competition job scores every reaction making the target and no other",
     "CalculateCompetitionMaker returns exactly the reactions that make the target, unchanged, each with the primary and secondary competition calculated from all reactions whose reactants are among its precursors (and the open phase), or with its chemical potential distance in its own chemical system. "
     "Open conditions turn the reactions into open ones at the given chemical potential. More than two precursors besides the open phase are refused. Chunk size, CPU count and completion order do not matter.",
     ["inputs", "schedules"], "energies of one or two phases and the chemical potential, chunk size, CPUs and completion order; 3 to 7 reactions",
     "The repository tests the job on one network, checking that scores exist.",
     ["jobs/core.py", "jobs/utils.py", "reactions/reaction_set.py"],
     [("CalculateCompetitionMaker.make", "jobs/core.py"), ("_get_competition_decorated_rxns_by_chunk", "jobs/core.py")], ["CompetitionTaskDocument.rxns"])
prop("T02", "Chemical potential diagrams give each phase's domain, offset and distances",
     "ChempotDiagram's domains are the corners of the stability regions: a formula has a domain exactly when its lowest-energy phase is stable, holding exactly the points where as many phases as there are elements coexist, in chemical potentials that every phase allows. "
     "A metastable phase's hyperplane is offset by its energy above hull. The shortest distance between two phases is the smallest between their corners, for stable and metastable phases, symmetric and whatever was queried before. "
     "With open elements the diagram is that of the grand potential system at their chemical potentials.",
     ["inputs", "histories"], "arbitrary energies of two phases and an open chemical potential, in two and three elements; repeated queries in any order",
     "Tests pin a few distances of one stored system; ties of geometry and metastable phases depend on energies.",
     ["thermo/chempot_diagram.py"], [("ChempotDiagram.get_offset / shortest_domain_distance / lims", "thermo/chempot_diagram.py")], ["domains", "get_offset()", "shortest_domain_distance()"])
prop("N04", "Running several enumerators gives the union of their reactions",
     "run_enumerators returns every reaction any of the enumerators finds with the entry set, stabilized phases included, exactly once, and no other. "
     "get_computed_rxn and get_open_computed_rxn give a reaction the lowest-energy entry of each formula and keep its coefficients. "
     "stabilize_entries lowers a phase to just below the hull and changes no other entry nor its input.",
     ["inputs", "schedules"], "energies of polymorphs and of one metastable phase, seven combinations of enumerators, chunk size and completion order",
     "Tests run one pair of enumerators and compare counts.",
     ["enumerators/utils.py", "utils/funcs.py", "enumerators/basic.py", "entries/interpolated.py"],
     [("run_enumerators", "enumerators/utils.py"), ("get_computed_rxn / get_open_computed_rxn", "enumerators/utils.py")], ["returned ReactionSet"])
prop("J02", "Workflow jobs compute what the library computes for their conditions",
     "GetEntrySetMaker returns exactly the processed entries of the requested chemical system with the custom entries; ReactionEnumerationMaker the union of its enumerators' reactions; NetworkMaker the network of these reactions with its precursors and target; PathwaySolverMaker hands the solver exactly the entries, pathways, net reaction, open conditions and limits it was given; each at the given temperature and open chemical potential (zero included). "
     "NetworkFlowMaker connects them in order, each job fed with its predecessor's output.",
     ["inputs"], "energies, temperature and chemical potential, and every combination of the listed options; three to eleven phases",
     "The repository runs each job once with default options.",
     ["jobs/core.py", "jobs/utils.py", "flows/core.py"],
     [("GetEntrySetMaker / ReactionEnumerationMaker / NetworkMaker / PathwaySolverMaker", "jobs/core.py"), ("NetworkFlowMaker", "flows/core.py")], ["job outputs"])
prop("D01", "Database queries return exactly the matching documents",
     "get_all_entries_in_chemsys_from_entry_db (and the older get_all_entries_in_chemsys) returns one entry for every stored document whose elements all lie in the requested chemical system, whatever the number and order of the elements and the query's chunking, and none for any other document; GGA+U calculations are preferred to GGA, documents without calculation give none. "
     "Identifier, formula, chemical-system and wildcard criteria select exactly what they describe. The entry set job takes exactly the system's entries from either source, plus custom ones. get_rxns_from_db returns the newest result for the target, open element, chemical potential and firework, at that chemical potential.",
     ["inputs"], "every element set of one or two documents around chemical systems of 1 to 28 elements; any calculation available, any energy, chemical potential and completion time",
     "No test queries a store; dropping sub-systems at a chunk boundary or a wrong exclusion shows only for particular systems.",
     ["entries/utils.py", "jobs/core.py", "utils/database.py"],
     [("get_all_entries_in_chemsys_from_entry_db / get_entries / parse_criteria", "entries/utils.py"), ("GetEntrySetMaker.make", "jobs/core.py"), ("get_rxns_from_db", "utils/database.py")], ["returned entries and reactions"])
