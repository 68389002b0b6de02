"""per property: how it is decided (oracle) and remarks"""
N = {}
N["R01"] = "Oracle: element totals of both sides recomputed from the formulas (linear forms over the coefficients); existence and uniqueness of a balanced solution is decided by z3 over all coefficient vectors and compared with the code's verdict. In `symbolic` the stoichiometric matrix itself is symbolic and the pseudo-inverse is replaced by its least-squares contract."
N["C01"] = "Oracle: dominance by definition; every boolean of the mask is compared with the quantifier-free definition for all real matrices."
N["R03"] = "Oracle: element totals, side of every phase, and ratio of coefficients, for symbolic coefficient families (every balanced vector is a positive combination of the listed null-space generators)."
N["R04"] = "Oracle: sum of coefficient times energy per formula unit, adjustments included; linear/bilinear identity decided for all energies and coefficients."
N["R05"] = "Oracle: grand-potential sum written from the definition (open elements contribute their chemical potential)."
N["R06"] = "Oracle: equality by definition (same phases, same coefficients within the tolerance); hash agreement is checked on the pairs that compare equal. Round trips through as_dict/from_dict including JSON (values stay symbolic, the structure goes through the real encoder)."
N["S01"] = "Oracle: the list of reactions that was put in, as a multiset (index and coefficient arrays are read back by the real iteration)."
N["S02"] = "Oracle: proportionality classes by cross-multiplication of coefficients; exactly one survivor per class, all ensured ones survive. CPU count and completion order of the parallel version are chosen by the solver."
N["S03"] = "Oracle: filter by definition over the inserted reactions, including coefficients' signs of symbolic scale."
N["S04"] = "Oracle: multiset union; operands compared before and after."
N["S05"] = "Oracle: energies recomputed from free per-temperature entry energies."
N["S06"] = "Oracle: table recomputed row by row; order by symbolic cost decided pairwise (ties in either order)."
N["P01"] = "Oracle: the stoichiometric matrix solved exactly: every subset of reactions up to the allowed size whose positive combination gives the net reaction, multiplicities compared; reactions' coefficients (and therefore the matrix) carry symbolic parameters, so that solvability itself depends on the inputs."
N["P02"] = "Oracle: costs and energies recomputed from reactions and multiplicities."
N["P03"] = "Oracle: an order of steps exists in which each step's reactants are available (all permutations)."
N["H01"] = "Oracle: lower convex envelope by definition (no point below a segment, all between the pure ends), over symbolic energies; scipy's hull replaced in symbolic mode only."
N["H02"] = "Oracle: the definition in the docs: difference to the best competing reaction, or to doing nothing."
N["H03"] = "Oracle: explicit recursion over binary splits for up to six points (independent of the code's Catalan-number shortcut); the three variants have their own oracles."
N["C02"] = "Oracle: softplus / weighted sum with exp/log uninterpreted (same symbols in code and oracle), plus monotonicity and sign facts."
N["C03"] = "Oracle: calculators' values against the hull and chempot oracles; the original reaction compared before and after."
N["E01"] = "Oracle: a fresh entry set holding the same entries; the *history* (which operation on which entry, up to the bound) is a vector of solver-chosen integers."
N["E02"] = "Oracle: energy above hull as a minimum over simplices of the other entries, computed by the harness."
N["E03"] = "Oracle: energy above hull before and after, per entry."
N["E04"] = "Oracle: entries built from scratch at the new temperature; originals compared with a deep snapshot."
N["E05"] = "Oracle: the SISSO formula and the elemental chemical potentials re-implemented from the publication and tables, interpolation linear in between; temperature, volume, enthalpy symbolic."
N["E06"] = "Oracle: linear interpolation in the tables read directly from the data files."
N["E07"] = "Oracle: definition of equality per class; reflexive, symmetric, hash-compatible."
N["G01"] = "Oracle: graph built by the harness from the reactions (nodes as sets of phases)."
N["G02"] = "Oracle: a fresh network with the last settings, built by the harness' own rule; the history is symbolic."
N["G03"] = "Oracle: all simple paths enumerated, symbolic costs compared pairwise; Yen's algorithm runs on a symbolic Dijkstra."
N["N01"] = "Oracle: `harness/enum.py`: null space of every subset of phases by exact rational elimination. Chunk size, job limit, CPUs and order of completion symbolic."
N["N03"] = "Oracle: the interface-reaction analysis (pymatgen) replaced by an arbitrary set of predicted reactions: every subset is explored, the returned set compared with the filtered subset."
N["E08"] = "Oracle: energies recomputed with E05/E06's oracles; which candidate wins decided over symbolic 0 K energies."
N["T01"] = "Oracle: maximal chemical systems by definition; energies above hull in the small and the whole diagram compared for all energies."
N["J01"] = "Oracle: reactions and competitors selected by definition, scores by H02/H03's oracles."
N["T02"] = "Oracle: corners by solving every subset of hyperplanes exactly (rational matrices, symbolic right-hand sides) and testing them against all other phases."
N["N04"] = "Oracle: N01's enumeration oracle for each enumerator, union as sets of formulas and entries."
N["J02"] = "Oracle: the library's own functions called by the harness with the same conditions (they are decided by the other properties); what is decided here is the hand-over of every option and value."
N["D01"] = "Oracle: the documents and raw entries of a small in-memory collection (a stand-in for MongoDB and for the Materials Project client that applies the query operators by definition); which documents qualify and what each becomes is computed by the harness from the documented criteria. All energies, flags and run types are solver variables."
