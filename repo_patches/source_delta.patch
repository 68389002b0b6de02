From dd626de9deedcb898082ef2469b75678d3c34654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:47 +0000
Subject: [PATCH 01/53] fix: get_pareto_front(maximize=True) crashed and never
 negated the first metric

---
 src/rxn_network/costs/pareto.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/costs/pareto.py b/src/rxn_network/costs/pareto.py
index 5dceded..c7987de 100644
--- a/src/rxn_network/costs/pareto.py
+++ b/src/rxn_network/costs/pareto.py
@@ -33,7 +33,7 @@ def get_pareto_front(
     pts = df.to_numpy()
 
     if maximize:
-        pts[:, 1:] = pts[:, 1:] * -1
+        pts = pts * -1
 
     return df_original[is_pareto_efficient(pts, return_mask=True)]
 
-- 
2.43.0


From 09dd1abf64568802ee0fb69ffe32b86916508306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:23 +0000
Subject: [PATCH 02/53] fix: OpenComputedReaction.product_atomic_fractions
 ignored the coefficients

---
 src/rxn_network/reactions/open.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index 70c8e5d..d6855b2 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -197,7 +197,7 @@ class OpenComputedReaction(ComputedReaction):
             raise ValueError("Reaction is not balanced")
 
         return {
-            c.reduced_composition: sum(c[el] for el in self.elements) / self.num_atoms
+            c.reduced_composition: coeff * sum(c[el] for el in self.elements) / self.num_atoms
             for c, coeff in self.product_coeffs.items()
         }
 
-- 
2.43.0


From 58db6081ad55258dc2870c09c9e5ce98e07990ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:23 +0000
Subject: [PATCH 03/53] fix: normalizing an OpenComputedReaction dropped its
 chemical potentials

---
 src/rxn_network/reactions/open.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index d6855b2..e722992 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -179,6 +179,14 @@ class OpenComputedReaction(ComputedReaction):
             self.lowest_num_errors,
         )
 
+    def normalize_to(self, comp: Composition, factor: float = 1) -> OpenComputedReaction:
+        """See ComputedReaction.normalize_to(); the chemical potentials are kept."""
+        return OpenComputedReaction.from_computed_rxn(super().normalize_to(comp, factor), self.chempots)
+
+    def normalize_to_element(self, element: Element, factor: float = 1) -> OpenComputedReaction:
+        """See ComputedReaction.normalize_to_element(); the chemical potentials are kept."""
+        return OpenComputedReaction.from_computed_rxn(super().normalize_to_element(element, factor), self.chempots)
+
     @cached_property
     def reactant_atomic_fractions(self) -> dict:
         """Returns the atomic mixing ratio of reactants in the reaction."""
-- 
2.43.0


From 50be71ef5770d7c76ef51eba20f5d3098bf5e351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:05 +0000
Subject: [PATCH 04/53] fix: reactions whose coefficients are permuted among
 the phases compared equal

---
 src/rxn_network/reactions/basic.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 668b91b..737055f 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -470,13 +470,20 @@ class BasicReaction(Reaction):
         if not len(self.reactants) == len(other.reactants):
             return False
 
-        if not np.allclose(sorted(self.coefficients), sorted(other.coefficients)):
+        if not set(self.reactants) == set(other.reactants):
             return False
 
-        if not set(self.reactants) == set(other.reactants):
+        if not set(self.products) == set(other.products):
             return False
 
-        return set(self.products) == set(other.products)
+        return all(
+            np.isclose(coeff, other_coeffs[comp])
+            for coeffs, other_coeffs in (
+                (self.reactant_coeffs, other.reactant_coeffs),
+                (self.product_coeffs, other.product_coeffs),
+            )
+            for comp, coeff in coeffs.items()
+        )
 
     def __hash__(self):
         return hash(
-- 
2.43.0


From c4a5cabf68bf8d621a3ed3ead603bc68c3a03961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 05/53] fix: equal reactions hashed differently (hash used
 exact coefficients)

---
 src/rxn_network/reactions/basic.py    | 2 +-
 src/rxn_network/reactions/computed.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 737055f..1305b17 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -487,7 +487,7 @@ class BasicReaction(Reaction):
 
     def __hash__(self):
         return hash(
-            (self.chemical_system, tuple(sorted(self.coefficients)))
+            (self.chemical_system, frozenset(self.reactants), frozenset(self.products))
         )  # not checking here for reactions that are multiples (too expensive)
 
     def __str__(self) -> str:
diff --git a/src/rxn_network/reactions/computed.py b/src/rxn_network/reactions/computed.py
index 0b2a2a1..24c0593 100644
--- a/src/rxn_network/reactions/computed.py
+++ b/src/rxn_network/reactions/computed.py
@@ -229,5 +229,5 @@ class ComputedReaction(BasicReaction):
     def __hash__(self):
         """Must be redefined due to overriding __eq__."""
         return hash(
-            (self.chemical_system, tuple(sorted(self.coefficients)))
+            (self.chemical_system, frozenset(self.reactants), frozenset(self.products))
         )  # not checking here for reactions that are multiples (too expensive)
-- 
2.43.0


From 3d2af98518cbd54762bf189913546010d3f6b7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 06/53] fix: a ReactionSet created without all_data yielded no
 reactions

---
 src/rxn_network/reactions/reaction_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index a8ef34e..c76bc43 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -66,7 +66,7 @@ class ReactionSet(MSONable):
         self.open_elem = open_elem
         self.chempot = chempot
         if all_data is None:
-            self.all_data = {int(i): np.array([]) for i in self.indices}
+            self.all_data = {int(size): np.array([{} for _ in arr]) for size, arr in self.indices.items()}
         else:
             self.all_data = all_data
 
-- 
2.43.0


From e88f491ba76099071bfc527a8a35ac4c9e7840fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 07/53] fix: filter_duplicates divided by zero on a machine
 with one CPU

---
 src/rxn_network/reactions/reaction_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index c76bc43..7e13269 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -425,7 +425,7 @@ class ReactionSet(MSONable):
         if parallelize:
             if not ray.is_initialized():
                 initialize_ray()
-            num_cpus = int(ray.cluster_resources()["CPU"]) - 1
+            num_cpus = max(int(ray.cluster_resources()["CPU"]) - 1, 1)
             chunk_refs = []
 
         ensure_idxs = {size: [] for size in self.indices}  # type: ignore
-- 
2.43.0


From 11ba2bc276d39a574cd794b09f9c8decf8e60bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:52 +0000
Subject: [PATCH 08/53] fix: integer reaction coefficients raised TypeError

---
 src/rxn_network/reactions/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 1305b17..b705735 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -56,7 +56,7 @@ class BasicReaction(Reaction):
                 phases may be shuffled or removed entirely).
         """
         self._compositions = [Composition(c) for c in compositions]
-        self._coefficients = np.array(coefficients)
+        self._coefficients = np.array(coefficients, dtype=float)
 
         self.reactant_coeffs = {
             comp: coeff for comp, coeff in zip(self._compositions, self._coefficients, strict=False) if coeff < 0
-- 
2.43.0


From 0524038caabad258bf23aaad7bd3d3abb254895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 09/53] fix: get_rxns_by_product missed the first entry and all
 but one polymorph

---
 src/rxn_network/reactions/reaction_set.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index 7e13269..f0d2c75 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -375,19 +375,12 @@ class ReactionSet(MSONable):
         """
         product = Composition(product).reduced_formula
 
-        product_index = None
-        for idx, e in enumerate(self.entries):
-            if e.composition.reduced_formula == product:
-                product_index = idx
-                break
-
-        if not product_index:
-            return []
+        product_indices = {idx for idx, e in enumerate(self.entries) if e.composition.reduced_formula == product}
 
         idxs = {}  # type: ignore
         for size, indices in self.indices.items():
             idxs[size] = []
-            contains_product = np.isin(indices, product_index).any(axis=1)
+            contains_product = np.isin(indices, list(product_indices)).any(axis=1)
 
             for idx, coeffs, indices in zip(
                 np.argwhere(contains_product).flatten(),
@@ -395,7 +388,7 @@ class ReactionSet(MSONable):
                 self.indices[size][contains_product], strict=False,
             ):
                 p_indices = {i for c, i in zip(coeffs, indices, strict=False) if c > -1e-12}
-                if product_index in p_indices:
+                if not product_indices.isdisjoint(p_indices):
                     idxs[size].append(idx)
 
         if return_set:
-- 
2.43.0


From f553753bdb8bb56d2e7bfa58e25001bc50d1671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 10/53] fix: get_rxns_by_reactants(return_set=True) returned a
 list when nothing matched

---
 src/rxn_network/reactions/reaction_set.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index f0d2c75..535be82 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -343,9 +343,6 @@ class ReactionSet(MSONable):
             {idx for idx, e in enumerate(self.entries) if e.composition.reduced_formula in reactants}
         )
 
-        if not reactant_indices:
-            return []
-
         idxs = {}  # type: ignore
         for size, indices in self.indices.items():
             idxs[size] = []
-- 
2.43.0


From 8b7c6bfd97e0f33fd9e03ac2dbd94ff31fe4da47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:54 +0000
Subject: [PATCH 11/53] fix: changing the temperature of a ReactionSet
 collapsed polymorphs onto one entry

---
 src/rxn_network/reactions/reaction_set.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index 535be82..0bbf14d 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -530,9 +530,9 @@ class ReactionSet(MSONable):
             The new ReactionSet containing the recalculated reactions.
         """
         new_rxns = []
-        entries = {e.composition: e.get_new_temperature(new_temp) for e in self.entries}
+        entries = {id(e): e.get_new_temperature(new_temp) for e in self.entries}
         for rxn in tqdm(list(self.get_rxns())):
-            new_rxns.append(rxn.get_new_temperature(new_temp, entries))
+            new_rxns.append(self._get_rxn_with_entries(rxn, entries))
 
         return ReactionSet.from_rxns(new_rxns, open_elem=self.open_elem, chempot=self.chempot)
 
@@ -552,13 +552,27 @@ class ReactionSet(MSONable):
         result = {}
         for t in tqdm(temp_list, desc="Computing reaction energies..."):
             new_rxns = []
-            entries = {e.composition: e.get_new_temperature(t) for e in self.entries}
+            entries = {id(e): e.get_new_temperature(t) for e in self.entries}
             for rxn in all_rxns:
-                new_rxns.append(rxn.get_new_temperature(t, entries))
+                new_rxns.append(self._get_rxn_with_entries(rxn, entries))
 
             result[t] = ReactionSet.from_rxns(new_rxns, open_elem=self.open_elem, chempot=self.chempot)
         return result
 
+    @staticmethod
+    def _get_rxn_with_entries(rxn, new_entries: dict[int, ComputedEntry]) -> ComputedReaction | OpenComputedReaction:
+        """Return the same reaction with each entry replaced (entries are mapped by id
+        rather than composition, since there may be several polymorphs).
+        """
+        kwargs = {"chempots": rxn.chempots} if isinstance(rxn, OpenComputedReaction) else {}
+        return type(rxn)(
+            entries=[new_entries[id(e)] for e in rxn.entries],
+            coefficients=rxn.coefficients,
+            data=rxn.data,
+            lowest_num_errors=rxn.lowest_num_errors,
+            **kwargs,
+        )
+
     def _get_rxns_by_indices(self, idxs) -> Iterable[ComputedReaction | OpenComputedReaction]:
         """Return a list of reactions with the given indices."""
         for size, idx_arr in idxs.items():
-- 
2.43.0


From 013e7cde05c0f8fe5ca5b0980c80bbfdc969fbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:04 +0000
Subject: [PATCH 12/53] fix: is_separable never recognised common gases as
 separable byproducts

---
 src/rxn_network/reactions/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index b705735..74d7b89 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -216,7 +216,7 @@ class BasicReaction(Reaction):
 
         are_separable = []
         for comp in products:
-            if comp in COMMON_GASES or added_elems.issuperset(comp.elements):
+            if comp.reduced_formula in COMMON_GASES or added_elems.issuperset(comp.elements):
                 are_separable.append(True)
             else:
                 are_separable.append(False)
-- 
2.43.0


From 598ec9772a6f59607bdd16f6cdb462164a755639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:40 +0000
Subject: [PATCH 13/53] fix: PathwaySolver crashed with fewer reactions than
 max_num_combos

---
 src/rxn_network/pathways/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 4fae0d4..05af255 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -232,6 +232,10 @@ class PathwaySolver(Solver):
                     pbar.update(1)
                     comp_matrices[n].append(comp_matrices_ref)
 
+                if not comp_matrices[n]:  # fewer than n reactions available
+                    del comp_matrices[n]
+                    continue
+
                 comp_matrices[n] = np.concatenate(comp_matrices[n])
 
                 if not comp_matrices[n].any():  # type: ignore
-- 
2.43.0


From 90cfe60d9a54649113fb1330ff1b825090875497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:40 +0000
Subject: [PATCH 14/53] fix: PathwaySolver divided by zero on a machine with
 one CPU

---
 src/rxn_network/pathways/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 05af255..1d60f23 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -206,7 +206,7 @@ class PathwaySolver(Solver):
 
         num_rxns = len(cleaned_reactions)
         num_cpus = ray.cluster_resources()["CPU"]
-        batch_size = self.batch_size or num_cpus - 1
+        batch_size = self.batch_size or max(num_cpus - 1, 1)
 
         net_coeff_filter = np.argwhere(net_rxn_vector != 0).flatten()
         net_coeff_filter = ray.put(net_coeff_filter)
-- 
2.43.0


From bec27bb73adc9e154f32e56c2d7a09cb03038e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:40 +0000
Subject: [PATCH 15/53] fix: PathwaySolver crashed instead of returning no
 pathways when none can be balanced

---
 src/rxn_network/pathways/solver.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 1d60f23..95d379f 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -198,9 +198,9 @@ class PathwaySolver(Solver):
                     costs.append(c)
 
         clean_r_set = ReactionSet.from_rxns(reactions, filter_duplicates=True)
-        cleaned_reactions, cleaned_costs = zip(
-            *[(r, c) for r, c in zip(reactions, costs, strict=False) if r in clean_r_set and r != net_rxn], strict=False
-        )
+        cleaned = [(r, c) for r, c in zip(reactions, costs, strict=False) if r in clean_r_set and r != net_rxn]
+        cleaned_reactions = tuple(r for r, _ in cleaned)
+        cleaned_costs = tuple(c for _, c in cleaned)
 
         net_rxn_vector = net_rxn.get_entry_idx_vector(num_entries)
 
@@ -295,9 +295,8 @@ class PathwaySolver(Solver):
         ):
             c_m_mats.append(c_m_mats_ref)  # noqa: PERF402
 
-        c_mats, m_mats = zip(*c_m_mats, strict=False)
-        c_mats = [mat for mats in c_mats for mat in mats if mat is not None]  # type: ignore
-        m_mats = [mat for mats in m_mats for mat in mats if mat is not None]  # type: ignore
+        c_mats = [mat for mats, _ in c_m_mats for mat in mats if mat is not None]
+        m_mats = [mat for _, mats in c_m_mats for mat in mats if mat is not None]
 
         paths = []
         for c_mat, m_mat in zip(c_mats, m_mats, strict=False):
-- 
2.43.0


From ac8e7477db3eb2e6faf428adb48d92157661cd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:40 +0000
Subject: [PATCH 16/53] fix: PathwaySolver discarded the reactions found by the
 grand potential enumerator

---
 src/rxn_network/pathways/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 95d379f..8d2ed29 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -394,7 +394,7 @@ class PathwaySolver(Solver):
                     mu=self.chempot,
                     targets=target_formulas,
                 )
-                rxn_set.add_rxn_set(mgpe.enumerate(intermediates))
+                rxn_set = rxn_set.add_rxn_set(mgpe.enumerate(intermediates))
 
         rxns = list(filter(lambda x: x.energy_per_atom < energy_cutoff, rxn_set))
         rxns = [r for r in rxns if all(e in intermediates for e in r.entries)]
-- 
2.43.0


From a729ef1da3d89a04f4b1212aa0c26217d5415cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:47 +0000
Subject: [PATCH 17/53] fix: BalancedPathway.get_comp_matrix used an attribute
 reactions do not have

---
 src/rxn_network/pathways/balanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/balanced.py b/src/rxn_network/pathways/balanced.py
index bfe64d4..3220128 100644
--- a/src/rxn_network/pathways/balanced.py
+++ b/src/rxn_network/pathways/balanced.py
@@ -49,7 +49,7 @@ class BalancedPathway(BasicPathway):
         """
         return np.array(
             [
-                [rxn.get_coeff(comp) if comp in rxn.all_comp else 0 for comp in self.compositions]
+                [rxn.get_coeff(comp) if comp in rxn.compositions else 0 for comp in self.compositions]
                 for rxn in self.reactions
             ]
         )
-- 
2.43.0


From c90e2d4896c2f05b214f7653929b5e48b30a1ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:47 +0000
Subject: [PATCH 18/53] fix: pathways whose intermediates are available from an
 earlier step were called interdependent

---
 src/rxn_network/pathways/balanced.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/pathways/balanced.py b/src/rxn_network/pathways/balanced.py
index 3220128..0e29b5c 100644
--- a/src/rxn_network/pathways/balanced.py
+++ b/src/rxn_network/pathways/balanced.py
@@ -86,7 +86,7 @@ class BalancedPathway(BasicPathway):
             if any(set(rxn.reactants).issubset(precursors_set) for rxn in combo) or size == 1:
                 continue
 
-            other_comp = {c for rxn in (rxns - set(combo)) for c in rxn.compositions}
+            other_products = {c for rxn in (rxns - set(combo)) for c in rxn.products}
 
             unique_reactants = []
             unique_products = []
@@ -100,7 +100,7 @@ class BalancedPathway(BasicPathway):
                     if i == j:
                         continue
                     overlapping_phases = unique_reactants[i] & unique_products[j]
-                    if overlapping_phases and (overlapping_phases not in other_comp):
+                    if not overlapping_phases.issubset(other_products):
                         overlap[i] = True
 
             if all(overlap):
-- 
2.43.0


From de2025d14c5a2bbdb6d2f938070f4b25ad904365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:47 +0000
Subject: [PATCH 19/53] fix: a pathway compared equal to any longer pathway
 starting with the same reactions

---
 src/rxn_network/pathways/basic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/basic.py b/src/rxn_network/pathways/basic.py
index 42ecf05..2930e8c 100644
--- a/src/rxn_network/pathways/basic.py
+++ b/src/rxn_network/pathways/basic.py
@@ -54,7 +54,9 @@ class BasicPathway(Pathway):
 
     def __eq__(self, other) -> bool:
         if isinstance(other, self.__class__):
-            return all(other_rxn == rxn for other_rxn, rxn in zip(other.reactions, self.reactions, strict=False))
+            return len(other.reactions) == len(self.reactions) and all(
+                other_rxn == rxn for other_rxn, rxn in zip(other.reactions, self.reactions, strict=False)
+            )
 
         return False
 
-- 
2.43.0


From 9eaebeeb442eac95fe96bc51a72971b71dcbc2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:47 +0000
Subject: [PATCH 20/53] fix: balanced pathways with different multiplicities
 compared equal while hashing differently

---
 src/rxn_network/pathways/balanced.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/pathways/balanced.py b/src/rxn_network/pathways/balanced.py
index 0e29b5c..af232b1 100644
--- a/src/rxn_network/pathways/balanced.py
+++ b/src/rxn_network/pathways/balanced.py
@@ -130,12 +130,12 @@ class BalancedPathway(BasicPathway):
 
     def __eq__(self, other) -> bool:
         if super().__eq__(other):
-            return np.allclose(self.costs, other.costs)
+            return np.allclose(self.coefficients, other.coefficients) and np.allclose(self.costs, other.costs)
 
         return False
 
     def __hash__(self):
-        return hash((tuple(self.reactions), tuple(self.coefficients)))
+        return hash(tuple(self.reactions))
 
     def __repr__(self) -> str:
         path_info = ""
-- 
2.43.0


From b2688348c23b3ac2f33f02eeca4f98fe80d9d339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:21 +0000
Subject: [PATCH 21/53] fix: pathways lost their balanced flag in a PathwaySet

---
 src/rxn_network/pathways/pathway_set.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/rxn_network/pathways/pathway_set.py b/src/rxn_network/pathways/pathway_set.py
index d4e87d6..c4c72b6 100644
--- a/src/rxn_network/pathways/pathway_set.py
+++ b/src/rxn_network/pathways/pathway_set.py
@@ -34,6 +34,7 @@ class PathwaySet(MSONable):
         indices: np.ndarray | list[list[int]],
         coefficients: np.ndarray | list[list[float] | None],
         costs: np.ndarray | list[list[float]],
+        balanced: list[bool] | None = None,
     ):
         """
         Args:
@@ -43,11 +44,14 @@ class PathwaySet(MSONable):
             coefficients: An array or list of coefficients representing the
             multiplicities (i.e., how much of) each reaction in the pathway.
             costs: An array or list of costs for each pathway.
+            balanced: Optional list stating whether each pathway is balanced. Defaults
+                to None (not balanced).
         """
         self.reaction_set = reaction_set
         self.indices = indices
         self.coefficients = coefficients
         self.costs = costs
+        self.balanced = balanced
 
     @cached_property
     def paths(self) -> list[Pathway]:
@@ -64,14 +68,20 @@ class PathwaySet(MSONable):
 
         rxns = list(self.reaction_set.get_rxns())
 
-        for indices, coefficients, costs in zip(
+        all_balanced = [False] * len(self.indices) if self.balanced is None else self.balanced
+
+        for indices, coefficients, costs, balanced in zip(
             self.indices,
             self.coefficients,
-            self.costs, strict=False,
+            self.costs,
+            all_balanced,
+            strict=False,
         ):
             reactions = [rxns[i] for i in indices]
             if coefficients is not None:
-                path = BalancedPathway(reactions=reactions, coefficients=coefficients, costs=costs)
+                path = BalancedPathway(
+                    reactions=reactions, coefficients=coefficients, costs=costs, balanced=balanced
+                )
 
             else:
                 path = BasicPathway(reactions=reactions, costs=costs)
@@ -90,7 +100,7 @@ class PathwaySet(MSONable):
         Args:
             paths: List of Pathway objects
         """
-        indices, coefficients, costs = [], [], []
+        indices, coefficients, costs, balanced = [], [], [], []
 
         reaction_set = cls._get_reaction_set(paths)
         rxns = list(reaction_set.get_rxns())
@@ -99,12 +109,14 @@ class PathwaySet(MSONable):
             indices.append([rxns.index(r) for r in path.reactions])
             coefficients.append(getattr(path, "coefficients", None))
             costs.append(path.costs)
+            balanced.append(getattr(path, "balanced", False))
 
         return cls(
             reaction_set=reaction_set,
             indices=indices,
             coefficients=coefficients,
             costs=costs,
+            balanced=balanced,
         )
 
     @staticmethod
-- 
2.43.0


From 44f613bd7c78dfc6e2768f9145fb6b2e956263c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:12 +0000
Subject: [PATCH 22/53] fix: get_secondary_competition_area crashed for a
 reaction of only one reactant

---
 src/rxn_network/reactions/hull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index 3aef106..f841ce3 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -345,7 +345,7 @@ class InterfaceReactionHull(MSONable):
             The area of reaction decomposition between the two points.
         """
         coords = self.get_coords_in_range(x1, x2)
-        if len(coords) == 2:
+        if len(coords) < 3:
             return 0
 
         return ConvexHull(coords, qhull_options="QJ i").volume  # this is how area is defined in scipy
-- 
2.43.0


From ffd985b27d1b8b53bbc0ed7e58658eebab0b535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:12 +0000
Subject: [PATCH 23/53] fix: unnormalized secondary competition of a reaction
 of only one reactant counted count(-1) paths

---
 src/rxn_network/reactions/hull.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index f841ce3..b9b0e93 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -218,9 +218,9 @@ class InterfaceReactionHull(MSONable):
 
         if not recursive:
             left_energy = self.get_decomposition_energy(0, x)
-            left_num_paths = self.count(len(self.get_coords_in_range(0, x)) - 2)
+            left_num_paths = self.count(max(len(self.get_coords_in_range(0, x)) - 2, 0))
             right_energy = self.get_decomposition_energy(x, 1)
-            right_num_paths = self.count(len(self.get_coords_in_range(x, 1)) - 2)
+            right_num_paths = self.count(max(len(self.get_coords_in_range(x, 1)) - 2, 0))
         else:
             (
                 left_energy,
-- 
2.43.0


From 40a8e34580b76ce9dcb7b14a9d227e8ed1274780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:12 +0000
Subject: [PATCH 24/53] fix: recursive decomposition energy dropped reactants
 that decompose from later sequences

---
 src/rxn_network/reactions/hull.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index b9b0e93..dee7e4a 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -474,20 +474,19 @@ class InterfaceReactionHull(MSONable):
         val = 0
         total = 0
         for c in coords:
-            if c[0] == 0.0 and not np.isclose(c[1], 0.0):
-                use_x_min_ref = False
-            elif c[0] == 1.0 and not np.isclose(c[1], 0.0):
-                use_x_max_ref = False
-
             height = self._calculate_altitude([x_min, y_min], c, [x_max, y_max])  # type: ignore
             (
                 left_decomp,
                 left_total,
-            ) = self.get_decomposition_energy_and_num_paths_recursive(x_min, c[0], use_x_min_ref, use_x_max_ref)
+            ) = self.get_decomposition_energy_and_num_paths_recursive(
+                x_min, c[0], use_x_min_ref, use_x_max_ref and c[0] != 1.0
+            )
             (
                 right_decomp,
                 right_total,
-            ) = self.get_decomposition_energy_and_num_paths_recursive(c[0], x_max, use_x_min_ref, use_x_max_ref)
+            ) = self.get_decomposition_energy_and_num_paths_recursive(
+                c[0], x_max, use_x_min_ref and c[0] != 0.0, use_x_max_ref
+            )
 
             val += height * (left_total * right_total) + left_decomp * right_total + right_decomp * left_total
             total += left_total * right_total
-- 
2.43.0


From 87d9d8cc1a063d8cab0bdf73881bab1686184867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:45 +0000
Subject: [PATCH 25/53] fix: ChempotDistanceCalculator ignored a mu_func given
 as a function

---
 src/rxn_network/costs/calculators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/costs/calculators.py b/src/rxn_network/costs/calculators.py
index bfa70ac..44c5bcd 100644
--- a/src/rxn_network/costs/calculators.py
+++ b/src/rxn_network/costs/calculators.py
@@ -59,6 +59,8 @@ class ChempotDistanceCalculator(Calculator):
             self.mu_func = sum  # type: ignore
         elif isinstance(mu_func, str):
             raise ValueError("Provided mu_func name is not a known function; please provide the function directly.")
+        else:
+            self.mu_func = mu_func  # type: ignore
 
         self._open_elems = set()
         if cpd.entries[0].__class__.__name__ == "GrandPotPDEntry":
-- 
2.43.0


From 738deee1dbc5b3e314bf0b3c48e2381019b7a89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:45 +0000
Subject: [PATCH 26/53] fix: changing the temperature of an adjusted
 experimental entry raised TypeError

---
 src/rxn_network/entries/experimental.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/experimental.py b/src/rxn_network/entries/experimental.py
index 919e021..6d3b9d1 100644
--- a/src/rxn_network/entries/experimental.py
+++ b/src/rxn_network/entries/experimental.py
@@ -80,7 +80,8 @@ class ExperimentalReferenceEntry(ComputedEntry):
         """
         new_entry_dict = self.as_dict()
         for adj in new_entry_dict["energy_adjustments"]:
-            adj["temp"] = new_temperature
+            if "temp" in adj:  # only some adjustments depend on temperature
+                adj["temp"] = new_temperature
         new_entry_dict["temperature"] = new_temperature
 
         return self.from_dict(new_entry_dict)
-- 
2.43.0


From b18842d64f12f4231a74dfb54bd788ba9281f23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:45 +0000
Subject: [PATCH 27/53] fix: experimental entries of several formula units had
 the energy of one

---
 src/rxn_network/entries/experimental.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/experimental.py b/src/rxn_network/entries/experimental.py
index 6d3b9d1..61358c8 100644
--- a/src/rxn_network/entries/experimental.py
+++ b/src/rxn_network/entries/experimental.py
@@ -55,7 +55,8 @@ class ExperimentalReferenceEntry(ComputedEntry):
         self._validate_temperature(formula, temperature)
         self._temperature = temperature
 
-        energy = self._get_energy(formula, temperature)
+        factor = composition.get_reduced_formula_and_factor()[1]
+        energy = factor * self._get_energy(formula, temperature)
 
         super().__init__(
             composition,
-- 
2.43.0


From 901da9a96dd3248e7a48e7c95de3fb96e091eeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:45 +0000
Subject: [PATCH 28/53] fix: equal experimental entries hashed differently

---
 src/rxn_network/entries/experimental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/experimental.py b/src/rxn_network/entries/experimental.py
index 61358c8..1118738 100644
--- a/src/rxn_network/entries/experimental.py
+++ b/src/rxn_network/entries/experimental.py
@@ -215,6 +215,6 @@ class ExperimentalReferenceEntry(ComputedEntry):
 
     def __hash__(self) -> int:
         data_md5 = hashlib.md5(  # nosec
-            f"{self.__class__.__name__}{self.composition}_{self.temperature}".encode()
+            f"{self.__class__.__name__}{self.composition.reduced_formula}_{float(self.temperature)}".encode()
         ).hexdigest()
         return int(data_md5, 16)
-- 
2.43.0


From 49d19821537b788dd6685e35e26570c1d7f275c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:45 +0000
Subject: [PATCH 29/53] fix: GibbsComputedEntry raised KeyError for
 temperatures such as 400.0

---
 src/rxn_network/entries/gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/gibbs.py b/src/rxn_network/entries/gibbs.py
index aaecfa8..639a385 100644
--- a/src/rxn_network/entries/gibbs.py
+++ b/src/rxn_network/entries/gibbs.py
@@ -208,7 +208,7 @@ class GibbsComputedEntry(ComputedEntry):
                 )
                 sum_g_i += amt * g_interp(temperature)
         else:
-            sum_g_i = sum(amt * G_ELEMS[str(temperature)][elem] for elem, amt in elems.items())
+            sum_g_i = sum(amt * G_ELEMS[str(int(temperature))][elem] for elem, amt in elems.items())
 
         return sum_g_i
 
-- 
2.43.0


From 7891d9e69cf6cd6b1a43ff423d1d4d9d7d0f2726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:45 +0000
Subject: [PATCH 30/53] fix: atmospheric CO2 correction kept the old
 temperature in GibbsComputedEntry.get_new_temperature

---
 src/rxn_network/entries/gibbs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rxn_network/entries/gibbs.py b/src/rxn_network/entries/gibbs.py
index 639a385..88f48b4 100644
--- a/src/rxn_network/entries/gibbs.py
+++ b/src/rxn_network/entries/gibbs.py
@@ -131,6 +131,9 @@ class GibbsComputedEntry(ComputedEntry):
         """
         new_entry_dict = self.as_dict()
         new_entry_dict["temperature"] = new_temperature
+        for adj in new_entry_dict["energy_adjustments"]:
+            if "temp" in adj:  # e.g., the atmospheric CO2 correction
+                adj["temp"] = new_temperature
 
         return self.from_dict(new_entry_dict)
 
-- 
2.43.0


From b79751980691197e02a2df452c65bcb89ae4111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:45 +0000
Subject: [PATCH 31/53] fix: equal Gibbs entries hashed differently when their
 energies differ by round-off

---
 src/rxn_network/entries/gibbs.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/rxn_network/entries/gibbs.py b/src/rxn_network/entries/gibbs.py
index 88f48b4..2dafb92 100644
--- a/src/rxn_network/entries/gibbs.py
+++ b/src/rxn_network/entries/gibbs.py
@@ -359,11 +359,5 @@ class GibbsComputedEntry(ComputedEntry):
         return not self.composition != other.composition
 
     def __hash__(self):
-        return hash(
-            (
-                self.composition,
-                self.energy,
-                self.entry_id,
-                self.temperature,
-            )
-        )
+        # energies and temperatures are compared with a tolerance, so they can not be hashed
+        return hash((self.__class__.__name__, self.entry_id))
-- 
2.43.0


From f63fadba3fcd22e8a7a04b48dade91a66acd9781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:45 +0000
Subject: [PATCH 32/53] fix: equal interpolated entries hashed differently when
 their energies differ by round-off

---
 src/rxn_network/entries/interpolated.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/rxn_network/entries/interpolated.py b/src/rxn_network/entries/interpolated.py
index c0d8362..97c9ec0 100644
--- a/src/rxn_network/entries/interpolated.py
+++ b/src/rxn_network/entries/interpolated.py
@@ -124,10 +124,5 @@ class InterpolatedEntry(ComputedEntry):
         return not self.composition != other.composition
 
     def __hash__(self):
-        return hash(
-            (
-                self.composition,
-                self.energy,
-                self.entry_id,
-            )
-        )
+        # energies are compared with a tolerance, so they can not be hashed
+        return hash((self.__class__.__name__, self.entry_id))
-- 
2.43.0


From d971b94e72c0d55f17dfcadef441072080f784dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:45 +0000
Subject: [PATCH 33/53] fix: InterpolatedEntry.get_new_temperature returned a
 plain ComputedEntry

---
 src/rxn_network/entries/interpolated.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/interpolated.py b/src/rxn_network/entries/interpolated.py
index 97c9ec0..b3abd68 100644
--- a/src/rxn_network/entries/interpolated.py
+++ b/src/rxn_network/entries/interpolated.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+from copy import deepcopy
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -92,7 +93,7 @@ class InterpolatedEntry(ComputedEntry):
             "It is not possible to get a new temperature for interpolated entries"
             "(one must recalculate from the phase diagram). Instead, this returns a copy of the opriginal entry."
         )
-        return self.copy()
+        return deepcopy(self)
 
     @property
     def unique_id(self) -> str:
-- 
2.43.0


From 561ab21935c19354fea1f9f13f7ba4ea73fb5e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:09 +0000
Subject: [PATCH 34/53] fix: computed entries were added next to NIST entries
 when FREED data was requested as well

---
 src/rxn_network/entries/entry_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index b452819..29c8d6d 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -426,7 +426,7 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
                 if new_entry:
                     new_entries.append(new_entry)
 
-            if new_entry:
+            if new_entries:
                 experimental_formulas.append(formula)
             else:
                 energy_adjustments = []
-- 
2.43.0


From 18ab3b53dc78e7c90a398d732c7fba0215437733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:09 +0000
Subject: [PATCH 35/53] fix: entry sets of more than nine elements forgot that
 energies above hull were requested

---
 src/rxn_network/entries/entry_set.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index 29c8d6d..28c1d04 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -552,7 +552,11 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
             )
             new_entries.update(gibbs_set)
 
-        return cls(list(new_entries))
+        return cls(
+            list(new_entries),
+            calculate_e_above_hulls=calculate_e_above_hulls,
+            minimize_obj_size=minimize_obj_size,
+        )
 
     @cached_property
     def entries_list(self) -> list[ComputedEntry]:
-- 
2.43.0


From b0307d187492957cfef9e9767b4a64afc4601ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:39 +0000
Subject: [PATCH 36/53] fix: initialize_entry failed to stabilize an
 interpolated entry, which is below the hull already

---
 src/rxn_network/entries/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rxn_network/entries/utils.py b/src/rxn_network/entries/utils.py
index aa5f374..2488df2 100644
--- a/src/rxn_network/entries/utils.py
+++ b/src/rxn_network/entries/utils.py
@@ -113,6 +113,7 @@ def initialize_entry(formula: str, entry_set: GibbsEntrySet, stabilize: bool = F
     except KeyError:
         entry = entry_set.get_interpolated_entry(formula)
         warnings.warn(f"Using interpolated entry for {entry.composition.reduced_formula}")
+        return entry  # already lies below the hull of the entry set
 
     if stabilize:
         entry = entry_set.get_stabilized_entry(entry)
-- 
2.43.0


From 9d40af77f20e4a1b40ed35d6c0828982fd0365ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:44 +0000
Subject: [PATCH 37/53] fix: rebuilding a network left it with precursors and a
 target that are not in its graph

---
 src/rxn_network/network/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index a4e7ffa..63a8b37 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -85,6 +85,8 @@ class ReactionNetwork(Network):
         logger.info(f"Built graph with {g.num_nodes()} nodes and {g.num_edges()} edges")
 
         self._g = g  # type: ignore
+        self._precursors = None  # the new graph has no precursors/target nodes
+        self._target = None
 
     def find_pathways(self, targets: list[Entry | str], k: int = 15) -> list[BasicPathway]:
         """Find the k-shortest paths to a provided list of one or more targets.
-- 
2.43.0


From a3555a4c97a1dc33db10ae14ea63b63521d0ef52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:44 +0000
Subject: [PATCH 38/53] fix: ReactionNetwork.set_precursors kept loopback edges
 of the old precursors and duplicated others

---
 src/rxn_network/network/network.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index 63a8b37..013efd0 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -150,6 +150,15 @@ class ReactionNetwork(Network):
             else:
                 raise ValueError("Old precursors node not found in graph!")
 
+            for idx in g.edge_indices():  # remove loopback edges relying on old precursors
+                source, end = g.get_edge_endpoints_by_index(idx)
+                if (
+                    isinstance(g.get_edge_data_by_index(idx), str)
+                    and g.get_edge_data_by_index(idx) == "loopback_edge"
+                    and g.get_node_data(source).entries != g.get_node_data(end).entries
+                ):
+                    g.remove_edge_from_index(idx)
+
         precursors_node = g.add_node(precursors_entry)
 
         edges_to_add = []
@@ -164,7 +173,7 @@ class ReactionNetwork(Network):
                 for node2 in g.node_indices():
                     entry2 = g.get_node_data(node2)
                     if entry2.description.value == NetworkEntryType.Reactants.value:
-                        if precursors.issuperset(entry2.entries):
+                        if precursors.issuperset(entry2.entries) or entry.entries == entry2.entries:
                             continue
                         if precursors.union(entry.entries).issuperset(entry2.entries):
                             edges_to_add.append((node, node2, "loopback_edge"))
-- 
2.43.0


From 9497d67ef531ef8f9a8669b493dda789abce94a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:44 +0000
Subject: [PATCH 39/53] fix: yens_ksp missed paths, returned paths with loops
 and mixed up parallel edges

---
 src/rxn_network/network/network.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index 013efd0..22d7bb8 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -264,7 +264,10 @@ class ReactionNetwork(Network):
 
         for step, node in enumerate(path):
             if g.get_node_data(node).description.value == NetworkEntryType.Products.value:
-                e = g.get_edge_data(path[step - 1], node)
+                e = min(
+                    g.get_all_edge_data(path[step - 1], node),
+                    key=lambda edge: get_edge_weight(edge, cf),
+                )
 
                 rxns.append(e)
                 costs.append(get_edge_weight(e, cf))
@@ -386,7 +389,7 @@ def yens_ksp(
         """Calculates path cost given a list of nodes."""
         cost = 0
         for j in range(len(nodes) - 1):
-            cost += get_edge_weight(g.get_edge_data(nodes[j], nodes[j + 1]), cf)
+            cost += min(get_edge_weight(e, cf) for e in g.get_all_edge_data(nodes[j], nodes[j + 1]))
         return cost
 
     def get_edge_weight_with_cf(edge_obj):
@@ -420,17 +423,13 @@ def yens_ksp(
             spur_node = prev_path[i]
             root_path = prev_path[:i]
 
-            removed_edges = []
+            # spur paths must leave the spur node in a new way and not return to the root path
+            used = {path[i + 1] for path in a if path[: i + 1] == prev_path[: i + 1]}
+            removed_edges = [e for e in g.out_edges(spur_node) if e[1] in used]
+            for node in root_path:
+                removed_edges.extend(g.in_edges(node))
 
-            for path in a:
-                if len(path) - 1 > i and root_path == path[:i]:
-                    try:
-                        e = g.get_edge_data(path[i], path[i + 1])
-                    except rx.NoEdgeBetweenNodes:
-                        continue
-
-                    g.remove_edge(path[i], path[i + 1])
-                    removed_edges.append((path[i], path[i + 1], e))
+            g.remove_edges_from([(e[0], e[1]) for e in removed_edges])
 
             spur_path = rx.dijkstra_shortest_paths(  # type: ignore
                 g, spur_node, target_node, weight_fn=get_edge_weight_with_cf
-- 
2.43.0


From c7bd3337b2328efc168d22aa815f7290b3c7c69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:44 +0000
Subject: [PATCH 40/53] fix: a deserialized network held its precursors and
 target as undecoded dictionaries

---
 src/rxn_network/network/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rxn_network/network/base.py b/src/rxn_network/network/base.py
index 75f8b4d..14709a2 100644
--- a/src/rxn_network/network/base.py
+++ b/src/rxn_network/network/base.py
@@ -75,12 +75,13 @@ class Network(MSONable, metaclass=ABCMeta):
         """Instantiate object from MSONable dict. See monty package for more
         information.
         """
-        precursors = d.pop("precursors", None)
-        target = d.pop("target", None)
+        d = d.copy()
+        precursors = MontyDecoder().process_decoded(d.pop("precursors", None))
+        target = MontyDecoder().process_decoded(d.pop("target", None))
         graph = d.pop("graph", None)
 
         network = super().from_dict(d)
-        network._precursors = precursors  # pylint: disable=protected-access
+        network._precursors = set(precursors) if precursors else None  # pylint: disable=protected-access
         network._target = target  # pylint: disable=protected-access
         network._g = MontyDecoder().process_decoded(  # pylint: disable=protected-access
             graph
-- 
2.43.0


From 6c150a61de008160bdb05e97637c7b48baf69e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:45 +0000
Subject: [PATCH 41/53] fix: GibbsEntrySet.from_pd stored energies above hull
 in the entries of the phase diagram

---
 src/rxn_network/entries/entry_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index 28c1d04..35905eb 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -447,8 +447,8 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
                     formation_energy_per_atom=formation_energy_per_atom,
                     temperature=temperature,
                     energy_adjustments=energy_adjustments,
-                    parameters=entry.parameters,
-                    data=entry.data,
+                    parameters=dict(entry.parameters),
+                    data=dict(entry.data),  # the e_above_hull stored here must not end up in the original entry
                     entry_id=entry.entry_id,
                 )
 
-- 
2.43.0


From 6012d39f3d550e533a5ba144938b3ea7543d036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:45 +0000
Subject: [PATCH 42/53] fix: competing reactions that consume the open element
 were dropped in CalculateCompetitionMaker

---
 src/rxn_network/jobs/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index 093f27a..b716f9e 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -361,6 +361,8 @@ class CalculateCompetitionMaker(Maker):
         logger.info("Removing unnecessary reactions from total reactions to save memory...")
 
         all_target_reactants = {reactant.reduced_formula for r in target_rxns for reactant in r.reactants}
+        if self.open_formula:  # always available for competing reactions
+            all_target_reactants.add(self.open_formula)
         all_rxns = all_rxns.get_rxns_by_reactants(
             all_target_reactants,
             return_set=True,  # type: ignore
-- 
2.43.0


From bc8cab845c6b36801d2e9abd861bef6adc2281b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:45 +0000
Subject: [PATCH 43/53] fix: competition was calculated for two of three
 precursors when the open element was not among them

---
 src/rxn_network/jobs/core.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index b716f9e..b423a39 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -748,9 +748,8 @@ def _get_competition_decorated_rxns_by_chunk(rxn_chunk, all_rxns, open_formula):
         competing_rxns = all_rxns.get_rxns_by_reactants(reactants_with_open)
 
         if len(reactant_formulas) >= 3:
-            if open_formula:
-                reactant_formulas = list(set(reactant_formulas) - {open_formula})
-            else:
+            reactant_formulas = list(set(reactant_formulas) - {open_formula})
+            if len(reactant_formulas) >= 3:
                 raise ValueError("Can only have 2 precursors, excluding open element!")
 
         decorated_rxns.append(_get_competition_decorated_rxn(rxn, competing_rxns, reactant_formulas))
-- 
2.43.0


From f8085fb8114f733d046a53b744d6cc73051ea6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:34 +0000
Subject: [PATCH 44/53] fix: chemical potential diagrams of open systems gave
 metastable phases no offset

---
 src/rxn_network/thermo/chempot_diagram.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/rxn_network/thermo/chempot_diagram.py b/src/rxn_network/thermo/chempot_diagram.py
index 784fae5..a733541 100644
--- a/src/rxn_network/thermo/chempot_diagram.py
+++ b/src/rxn_network/thermo/chempot_diagram.py
@@ -5,6 +5,7 @@ pymatgen.
 from __future__ import annotations
 
 from functools import cached_property
+from itertools import groupby
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -172,6 +173,23 @@ class ChemicalPotentialDiagram(ChempotDiagram):
 
         return {k: np.array(v) for k, v in domains.items() if v}
 
+    @staticmethod
+    def _get_min_entries_and_el_refs(entries: list[PDEntry]) -> tuple[list[PDEntry], dict[Element, PDEntry]]:
+        """Returns the minimum-energy entry of each composition, as well as the elemental
+        references. For grand potential entries, compositions exclude the open elements
+        (i.e., phases differing only in their open elements compete with each other).
+        """
+        min_entries = []
+        el_refs: dict[Element, PDEntry] = {}
+
+        for _, group in groupby(entries, key=lambda e: e.composition.reduced_formula):
+            min_entry = min(group, key=lambda e: e.energy_per_atom)
+            if min_entry.composition.is_element:
+                el_refs[min_entry.composition.elements[0]] = min_entry
+            min_entries.append(min_entry)
+
+        return min_entries, el_refs
+
     def _get_hyperplanes_and_entries(self) -> tuple[np.ndarray, list[PDEntry]]:
         """Returns both the array of hyperplanes, as well as a list of the minimum
         entries.
-- 
2.43.0


From be538527ffa1f872d694d1f516e41da5ea69f54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:32 +0000
Subject: [PATCH 45/53] fix: reaction sets over the same entries could not be
 combined when polymorphs were listed in another order

---
 src/rxn_network/reactions/reaction_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index 0bbf14d..2cac8b0 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -123,7 +123,8 @@ class ReactionSet(MSONable):
         if not entries:
             entries = cls._get_unique_entries(rxns)
 
-        entries = sorted(set(entries), key=lambda r: r.composition)
+        # unique order of entries (including polymorphs), as required for combining reaction sets
+        entries = sorted(set(entries), key=lambda e: (e.composition, str(getattr(e, "unique_id", e.entry_id))))
 
         # need to index by unique ID in case mixing different temperatures
         all_entry_indices = {}
-- 
2.43.0


From 8a07764899663c7e85e13448638baa04764802db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:18 +0000
Subject: [PATCH 46/53] fix: stabilize_entries raised AttributeError and would
 have raised the energies of entries

---
 src/rxn_network/enumerators/utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/rxn_network/enumerators/utils.py b/src/rxn_network/enumerators/utils.py
index d5a8451..ce4b949 100644
--- a/src/rxn_network/enumerators/utils.py
+++ b/src/rxn_network/enumerators/utils.py
@@ -154,13 +154,11 @@ def stabilize_entries(pd: PhaseDiagram, entries_to_adjust: Iterable[Entry], tol:
     Returns:
         A list of new entries with energies adjusted to be on the hull
     """
-    indices = [pd.all_entries.index(entry) for entry in entries_to_adjust]
-
     new_entries = []
-    for _, entry in zip(indices, entries_to_adjust, strict=False):
+    for entry in entries_to_adjust:
         e_above_hull = pd.get_e_above_hull(entry)
-        entry_dict = entry.to_dict()
-        entry_dict["energy"] = entry.uncorrected_energy + (e_above_hull * entry.composition.num_atoms - tol)
+        entry_dict = entry.as_dict()
+        entry_dict["energy"] = entry.uncorrected_energy - (e_above_hull * entry.composition.num_atoms + tol)
         new_entry = ComputedEntry.from_dict(entry_dict)
         new_entries.append(new_entry)
 
-- 
2.43.0


From 60148b0c40d0a623ef617836016a4d89815831ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:47 +0000
Subject: [PATCH 47/53] fix: run_enumerators could not combine reactions of
 interpolated precursors or targets

---
 src/rxn_network/enumerators/utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/enumerators/utils.py b/src/rxn_network/enumerators/utils.py
index ce4b949..61c9430 100644
--- a/src/rxn_network/enumerators/utils.py
+++ b/src/rxn_network/enumerators/utils.py
@@ -179,7 +179,17 @@ def run_enumerators(enumerators: Iterable[Enumerator], entries: GibbsEntrySet):
         rxns = enumerator.enumerate(entries)
 
         logger.info(f"Adding {len(rxns)} reactions to reaction set")
-        rxn_set = rxns if idx == 0 else rxn_set.add_rxn_set(rxns)  # type: ignore
+        if idx == 0:
+            rxn_set = rxns
+        elif rxn_set.entries == rxns.entries:
+            rxn_set = rxn_set.add_rxn_set(rxns)
+        else:  # phases missing from the entries may have been interpolated for some enumerators only
+            rxn_set = rxn_set.from_rxns(
+                [*rxn_set.get_rxns(), *rxns.get_rxns()],
+                entries=[*rxn_set.entries, *rxns.entries],
+                open_elem=rxn_set.open_elem,
+                chempot=rxn_set.chempot,
+            )
 
     logger.info("Completed reaction enumeration. Filtering duplicates...")
     if rxn_set is not None:
-- 
2.43.0


From c0f9ab0d8383b0d02764881dbacddf3dd6d48b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:17 +0000
Subject: [PATCH 48/53] fix: the dimension of a network entry counted the
 characters of its chemical system

---
 src/rxn_network/network/entry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/network/entry.py b/src/rxn_network/network/entry.py
index f42924b..6c26b53 100644
--- a/src/rxn_network/network/entry.py
+++ b/src/rxn_network/network/entry.py
@@ -41,7 +41,7 @@ class NetworkEntry(MSONable):
         self._entries = set(entries)
         self._elements = sorted({elem for entry in entries for elem in entry.composition.elements})
         self._chemsys = "-".join([str(e) for e in self.elements])
-        self._dim = len(self.chemsys)
+        self._dim = len(self.elements)
         self._description = description
 
     @property
-- 
2.43.0


From 45d8b4b07d9e3160d747033b70f2da0faaff1668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:17 +0000
Subject: [PATCH 49/53] fix: a reaction network could not be stored before it
 is built

---
 src/rxn_network/network/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/network/base.py b/src/rxn_network/network/base.py
index 14709a2..9b6d4a8 100644
--- a/src/rxn_network/network/base.py
+++ b/src/rxn_network/network/base.py
@@ -67,7 +67,7 @@ class Network(MSONable, metaclass=ABCMeta):
         d = super().as_dict()
         d["precursors"] = list(self.precursors) if self.precursors else None
         d["target"] = self.target
-        d["graph"] = self.graph.as_dict()
+        d["graph"] = self.graph.as_dict() if self.graph is not None else None
         return d
 
     @classmethod
-- 
2.43.0


From 9b004ffdc0a02eff3c6e8e848aa2c4e8b144528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:20 +0000
Subject: [PATCH 50/53] fix: chemical potential distances depended on the other
 reactions in the same chunk

---
 src/rxn_network/jobs/core.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index b423a39..2befdeb 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -772,11 +772,9 @@ def _get_chempot_decorated_rxns_by_chunk(rxn_chunk, entries, cpd_kwargs, open_el
         chemsys = rxn.chemical_system
         elems = chemsys.split("-")
 
-        for c, cpd_calculator in cpd_calc_dict.items():
-            if set(c.split("-")).issuperset(elems):
-                cpd_calc = cpd_calculator
-                break
-        else:
+        # distances depend on the chemical system, i.e., calculators of larger systems can not be shared
+        cpd_calc = cpd_calc_dict.get(chemsys)
+        if cpd_calc is None:
             if open_elem:
                 filtered_entries = entries.get_subset_in_chemsys([*elems, str(open_elem)])
                 filtered_entries = [
-- 
2.43.0


From 7c5a9e7729f2654652c38181a092c2efeff9a934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:24 +0000
Subject: [PATCH 51/53] fix: get_new_temperature of an open reaction required
 the optional entries

---
 src/rxn_network/reactions/open.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index e722992..205395c 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -104,7 +104,7 @@ class OpenComputedReaction(ComputedReaction):
 
         return ComputedReaction(**kwargs) if not chempots else cls(chempots=chempots, **kwargs)
 
-    def get_new_temperature(self, new_temperature: float, entries_at_temp: dict | None) -> OpenComputedReaction:
+    def get_new_temperature(self, new_temperature: float, entries_at_temp: dict | None = None) -> OpenComputedReaction:
         """Returns a new reaction with the temperature changed.
 
         Args:
-- 
2.43.0


From 066c7aa1eab5dd5e58d7eceb16a8613a090a7d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:48 +0000
Subject: [PATCH 52/53] fix: by-products holding an open element counted as
 inseparable from targets without it

---
 src/rxn_network/reactions/basic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 74d7b89..a98fbed 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -208,7 +208,6 @@ class BasicReaction(Reaction):
         if len(identified_targets) == 0:
             raise ValueError(f"Target composition {target} not in reaction {self}")
 
-        added_elems = set(self.elements) - set(target.elements)
         products = set(deepcopy(self.products))
 
         for t in identified_targets:
@@ -216,7 +215,7 @@ class BasicReaction(Reaction):
 
         are_separable = []
         for comp in products:
-            if comp.reduced_formula in COMMON_GASES or added_elems.issuperset(comp.elements):
+            if comp.reduced_formula in COMMON_GASES or set(comp.elements).isdisjoint(target.elements):
                 are_separable.append(True)
             else:
                 are_separable.append(False)
-- 
2.43.0


From 09310dda4e535dc1e57ba8c2e5834a413a4386d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:18 +0000
Subject: [PATCH 53/53] fix: chemical potential distances for formulas which
 are not written in reduced form

---
 src/rxn_network/thermo/chempot_diagram.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rxn_network/thermo/chempot_diagram.py b/src/rxn_network/thermo/chempot_diagram.py
index a733541..ffb4f38 100644
--- a/src/rxn_network/thermo/chempot_diagram.py
+++ b/src/rxn_network/thermo/chempot_diagram.py
@@ -11,6 +11,7 @@ from typing import TYPE_CHECKING
 import numpy as np
 from pymatgen.analysis.chempot_diagram import ChemicalPotentialDiagram as ChempotDiagram
 from pymatgen.analysis.phase_diagram import PhaseDiagram
+from pymatgen.core.composition import Composition
 from scipy.spatial import HalfspaceIntersection, KDTree
 
 from rxn_network.entries.entry_set import GibbsEntrySet
@@ -101,6 +102,8 @@ class ChemicalPotentialDiagram(ChempotDiagram):
             Shortest distance between domain boundaries in the full (hyper)dimensional
             space, calculated using KDTree.
         """
+        f1, f2 = Composition(f1).reduced_formula, Composition(f2).reduced_formula  # as used for the domains
+
         pts1 = self.domains[f1] if f1 in self.domains else self._get_metastable_domain(f1)
 
         pts2 = self.domains[f2] if f2 in self.domains else self._get_metastable_domain(f2)
-- 
2.43.0

