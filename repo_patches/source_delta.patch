From 453df6341e91cd60763f61b245a7f483eedafbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:23 +0000
Subject: [PATCH 01/14] fix: reject radii outside the table in CubicSplineSet
 instead of reading out of bounds

CubicSpline throws std::invalid_argument for such radii; CubicSplineSet
indexed past its coefficient array.
---
 libsymmetrix/source/cubic_spline_set.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libsymmetrix/source/cubic_spline_set.cpp b/libsymmetrix/source/cubic_spline_set.cpp
index 319d87f..d8fe4b2 100644
--- a/libsymmetrix/source/cubic_spline_set.cpp
+++ b/libsymmetrix/source/cubic_spline_set.cpp
@@ -1,3 +1,4 @@
+#include <stdexcept>
 #include <vector>
 
 #include "cubic_spline_set.hpp"
@@ -28,8 +29,10 @@ void CubicSplineSet::evaluate(
     double r,
     std::span<double> values)
 {
-    // TODO: bounds checking
+    // TODO: something better with this bounds checking
     const int i = static_cast<int>(r / h);
+    if (i<0 or i>=num_nodes-1)
+        throw std::invalid_argument("Out of bounds in CubicSplineSet::evaluate.");
     const double x = r - h*i;
     const double xx = x*x;
     const double xxx = xx*x;
@@ -51,8 +54,10 @@ void CubicSplineSet::evaluate_derivs(double r,
                                      std::span<double> values,
                                      std::span<double> derivs)
 {
-    // TODO: bounds checking
+    // TODO: something better with this bounds checking
     const int i = static_cast<int>(r / h);
+    if (i<0 or i>=num_nodes-1)
+        throw std::invalid_argument("Out of bounds in CubicSplineSet::evaluate_derivs.");
     const double x = r - h*i;
     const double xx = x*x;
     const double xxx = xx*x;
-- 
2.43.0


From 7ea083d2050869ba56b164c8ca6ce2f6624830e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:22 +0000
Subject: [PATCH 02/14] fix: size the polynomial work arrays on every single
 evaluation

evaluate_batch resizes them to batch_size*nodes, so a following evaluate or
evaluate_gradient could write past their end (batch_size 0).
---
 libsymmetrix/source/multivariate_polynomial.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libsymmetrix/source/multivariate_polynomial.cpp b/libsymmetrix/source/multivariate_polynomial.cpp
index 951f320..1468c35 100644
--- a/libsymmetrix/source/multivariate_polynomial.cpp
+++ b/libsymmetrix/source/multivariate_polynomial.cpp
@@ -149,6 +149,7 @@ auto MultivariatePolynomial::evaluate_batch(
 void MultivariatePolynomial::initialize_forward_pass(
     const std::vector<double>& x)
 {
+    node_values.resize(nodes.size());
     for (int i=0; i<num_variables; ++i)
         node_values[i] = x[i];
 }
@@ -163,6 +164,7 @@ void MultivariatePolynomial::forward_pass()
 
 void MultivariatePolynomial::initialize_backward_pass()
 {
+    node_adjoints.resize(nodes.size());
     cblas_dcopy(node_coefficients.size(),
                 node_coefficients.data(), 1,
                 node_adjoints.data(), 1);
-- 
2.43.0


From 03b583044d9a4e5834649469f1834eb4dd6044fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:11 +0000
Subject: [PATCH 03/14] fix: add up the coefficients of a repeated monomial

map::insert kept only the first one, so evaluate disagreed with
evaluate_simple.
---
 libsymmetrix/source/multivariate_polynomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsymmetrix/source/multivariate_polynomial.cpp b/libsymmetrix/source/multivariate_polynomial.cpp
index 1468c35..5095bbd 100644
--- a/libsymmetrix/source/multivariate_polynomial.cpp
+++ b/libsymmetrix/source/multivariate_polynomial.cpp
@@ -35,7 +35,7 @@ MultivariatePolynomial::MultivariatePolynomial(
     // (ordering ensured because the map sorts by key)
     std::map<std::vector<int>,double,decltype(lex_less)> map;
     for (int i=0; i<monomials.size(); ++i)
-        map.insert({monomials[i], coefficients[i]});
+        map[monomials[i]] += coefficients[i];
     coefficients.clear();
     monomials.clear();
     for (auto [m,c] : map) {
-- 
2.43.0


From a91d1aa1c95273bd12df8b56a93e8d2ace313547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:05 +0000
Subject: [PATCH 04/14] fix: include atoms without neighbours in the ASE
 calculator

The node count was taken from the neighbour list, so trailing isolated atoms
were dropped and a system without any neighbours raised.
---
 symmetrix/source/symmetrix/symmetrix_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index 067af9a..a18e80a 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -75,7 +75,7 @@ class Symmetrix(Calculator):
         ase_atomic_numbers = self.atoms.get_atomic_numbers().tolist()
         mace_atomic_numbers = self.evaluator.atomic_numbers
         i_list, j_list, r, xyz = neighbor_list('ijdD', self.atoms, self.cutoff)
-        num_nodes = np.max(i_list) + 1
+        num_nodes = len(self.atoms)
         node_types = [mace_atomic_numbers.index(ase_atomic_numbers[i]) for i in range(num_nodes)]
         num_neigh = np.bincount(j_list, minlength=num_nodes)
         neigh_types = [mace_atomic_numbers.index(ase_atomic_numbers[j]) for j in j_list]
-- 
2.43.0


From d585e4f62904ee55b9ce364867f29371e2f37139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:05 +0000
Subject: [PATCH 05/14] fix: return one energy per atom from the ASE calculator

As with node_forces, the container of the Kokkos evaluator only grows, so after
a larger system 'energies' had more entries than atoms.
---
 symmetrix/source/symmetrix/symmetrix_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index a18e80a..f8e8104 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -83,7 +83,7 @@ class Symmetrix(Calculator):
             num_nodes, node_types, num_neigh, j_list, neigh_types, xyz.flatten(), r)
 
         self.results['energy'] = self.results['free_energy'] = np.sum(self.evaluator.node_energies)
-        self.results['energies'] = np.asarray(self.evaluator.node_energies)
+        self.results['energies'] = np.asarray(self.evaluator.node_energies)[:num_nodes]
 
         pair_forces = np.asarray(self.evaluator.node_forces).reshape((-1, 3))
         pair_forces = pair_forces[:len(i_list), :]  # currently, `evaluator.node_forces` is a container
-- 
2.43.0


From 354c484ef15be05117509c14a1c8f9795c9716c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:05 +0000
Subject: [PATCH 06/14] fix: do not require a cell for energies and forces

Atoms.get_volume() raises unless there are three lattice vectors, so the
calculator failed for molecules and slabs whatever property was asked for.
---
 symmetrix/source/symmetrix/symmetrix_calc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index f8e8104..a878543 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -99,4 +99,5 @@ class Symmetrix(Calculator):
         self.results['forces'] = atom_forces
 
         # stress from pair_forces
-        self.results['stress'] = full_3x3_to_voigt_6_stress((-pair_forces.T @ xyz)  / self.atoms.get_volume())
+        if self.atoms.cell.rank == 3:
+            self.results['stress'] = full_3x3_to_voigt_6_stress((-pair_forces.T @ xyz)  / self.atoms.get_volume())
-- 
2.43.0


From e03169efdba0561b9a8ced57292386cdaef06a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:52 +0000
Subject: [PATCH 07/14] fix: flush the converted model before it is read

The evaluator opens the temporary file by name while the text may still be in
the write buffer.
---
 symmetrix/source/symmetrix/symmetrix_calc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index a878543..14e7522 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -65,6 +65,7 @@ class Symmetrix(Calculator):
             with NamedTemporaryFile("w") as fout:
                 logging.warning(f"Converting via NamedTemporaryFile {fout.name}")
                 fout.write(json.dumps(data))
+                fout.flush()
                 self.evaluator = MACE(fout.name)
 
         self.cutoff = self.evaluator.r_cut
-- 
2.43.0


From 5c465357fb979f9b9ae7a9beb6d19ebf8086c90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:52 +0000
Subject: [PATCH 08/14] fix: let extract_mace_data be called without species

The ASE calculator passes species only if the user gave it, and None is
already treated as 'all species of the model'.
---
 symmetrix/source/symmetrix/extract_mace_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symmetrix/source/symmetrix/extract_mace_data.py b/symmetrix/source/symmetrix/extract_mace_data.py
index 143c878..f7e8c5b 100755
--- a/symmetrix/source/symmetrix/extract_mace_data.py
+++ b/symmetrix/source/symmetrix/extract_mace_data.py
@@ -16,7 +16,7 @@ from mace.tools.scripts_utils import remove_pt_head
 
 from ase.data import chemical_symbols
 
-def extract_mace_data(model, species, head=None, num_spline_points=256):
+def extract_mace_data(model, species=None, head=None, num_spline_points=256):
     """Extract data from pytorch model file into structure that can be
     written as symmetrix JSON data file
 
-- 
2.43.0


From 3c3d75ed6a6b35f05e48483370afb59d7fe794a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:32 +0000
Subject: [PATCH 09/14] fix: per-atom energies belong to the atom of the node,
 whatever the order of the neighbour list

---
 pair_symmetrix/pair_symmetrix_mace.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace.cpp b/pair_symmetrix/pair_symmetrix_mace.cpp
index f16cf66..aef28e4 100644
--- a/pair_symmetrix/pair_symmetrix_mace.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace.cpp
@@ -328,7 +328,7 @@ void PairSymmetrixMACE::compute_no_domain_decomposition(int eflag, int vflag)
 
   if (eflag_atom) {
     for (int ii=0; ii<num_nodes; ++ii)
-      eatom[ii] = mace->node_energies[ii];
+      eatom[node_i[ii]] = mace->node_energies[ii];
   }
 
   ij = 0;
@@ -503,7 +503,7 @@ void PairSymmetrixMACE::compute_mpi_message_passing(int eflag, int vflag)
 
   if (eflag_atom) {
     for (int ii=0; ii<num_nodes; ++ii)
-      eatom[ii] = mace->node_energies[ii];
+      eatom[node_i[ii]] = mace->node_energies[ii];
   }
 
   ij = 0;
@@ -705,7 +705,7 @@ void PairSymmetrixMACE::compute_no_mpi_message_passing(int eflag, int vflag)
 
   if (eflag_atom)
     for (int ii=0; ii<num_local_nodes; ++ii)
-      eatom[ii] = mace->node_energies[ii];
+      eatom[node_i[ii]] = mace->node_energies[ii];
 
   ij = 0;
   for (int ii=0; ii<num_local_nodes+num_ghost_nodes; ++ii) {
-- 
2.43.0


From 894260e464dc93149cdf0c40cbe56e3e7bbd8c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:28 +0000
Subject: [PATCH 10/14] fix: reject a pair_coeff command that leaves atom types
 without an element

---
 pair_symmetrix/pair_symmetrix_mace.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pair_symmetrix/pair_symmetrix_mace.cpp b/pair_symmetrix/pair_symmetrix_mace.cpp
index aef28e4..6f30f77 100644
--- a/pair_symmetrix/pair_symmetrix_mace.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace.cpp
@@ -116,6 +116,9 @@ void PairSymmetrixMACE::coeff(int narg, char **arg)
 {
   if (!allocated) allocate();
 
+  if (narg < 3 + atom->ntypes)
+    error->all(FLERR, "pair_coeff for symmetrix/mace requires a model file and an element for each atom type");
+
   utils::logmesg(lmp, "Loading MACE model from \'{}\' ... ", arg[2]);
   mace = std::make_unique<MACE>(arg[2]);
   utils::logmesg(lmp, "success\n");
-- 
2.43.0


From bf16f3106eae850afc73f5c92d8c1b17807abe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:52 +0000
Subject: [PATCH 11/14] fix: CubicSplineKokkos derivatives reject radii outside
 the table

---
 libsymmetrix/source/cubic_spline_kokkos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsymmetrix/source/cubic_spline_kokkos.cpp b/libsymmetrix/source/cubic_spline_kokkos.cpp
index 882788b..75ce7b9 100644
--- a/libsymmetrix/source/cubic_spline_kokkos.cpp
+++ b/libsymmetrix/source/cubic_spline_kokkos.cpp
@@ -51,7 +51,7 @@ std::tuple<double, double> CubicSplineKokkos::evaluate_deriv(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i < 0 || i > num_coeffs / 4)
+    if (i < 0 || i >= num_coeffs / 4)
         throw std::invalid_argument("Out of bounds in CubicSplineKokkos::evaluate_deriv.");
 
     const double x = r - h * i;
@@ -76,7 +76,7 @@ std::tuple<double,double> CubicSplineKokkos::evaluate_deriv_divided(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i<0 or i> num_coeffs)
+    if (i < 0 || i >= num_coeffs / 4)
         throw std::invalid_argument("Out of bounds in CubicSplineKokkos::evaluate_deriv.");
 
     const double x = r - h*i;
-- 
2.43.0


From 7198f637dbe5c79bcb0a89c221cf6693012c1c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:52 +0000
Subject: [PATCH 12/14] fix: CubicSplineSetKokkos allocates four coefficients
 per interval

---
 libsymmetrix/source/cubic_spline_set_kokkos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsymmetrix/source/cubic_spline_set_kokkos.cpp b/libsymmetrix/source/cubic_spline_set_kokkos.cpp
index 08c7484..79e3f64 100644
--- a/libsymmetrix/source/cubic_spline_set_kokkos.cpp
+++ b/libsymmetrix/source/cubic_spline_set_kokkos.cpp
@@ -60,7 +60,7 @@ CubicSplineSetKokkos::CubicSplineSetKokkos(
     this->h = h;
     num_splines = nodal_values.extent(0);
     num_nodes = nodal_values.extent(1);
-    Kokkos::realloc(c, num_nodes-1, num_splines);
+    Kokkos::realloc(c, num_nodes-1, 4, num_splines);
 
     // Create and use the functor for initialization
     InitializeCoefficientsFunctor functor(h, nodal_values, nodal_derivs, c);
-- 
2.43.0


From 41e3a4e1e621319fb1c1d9174d8c1e32c0dbbc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:52 +0000
Subject: [PATCH 13/14] fix:
 MultivariatePolynomialKokkos::evaluate_gradient_simple sums without a data
 race

---
 libsymmetrix/source/multivariate_polynomial_kokkos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
index f587a28..7973528 100644
--- a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
+++ b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
@@ -121,7 +121,7 @@ double MultivariatePolynomialKokkos::evaluate_gradient_simple(
                     if (j == k) continue;
                     monomial_deriv *= x(monomials(i,k));
                 }
-                g(monomials(i,j)) += coefficients(i) * monomial_deriv;
+                Kokkos::atomic_add(&g(monomials(i,j)), coefficients(i) * monomial_deriv);
             }
         });
     return f;
-- 
2.43.0


From 479dde00669e4b5f32a861e30dac8c0c0eb06674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:29 +0000
Subject: [PATCH 14/14] fix: reject MACE models whose correlation order is not
 3

The second product basis was always extracted with correlation 3, so a model
with another order in its second layer was converted without complaint into
a file that drops or misassigns its contraction weights.
---
 symmetrix/source/symmetrix/extract_mace_data.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/symmetrix/source/symmetrix/extract_mace_data.py b/symmetrix/source/symmetrix/extract_mace_data.py
index f7e8c5b..030d97c 100755
--- a/symmetrix/source/symmetrix/extract_mace_data.py
+++ b/symmetrix/source/symmetrix/extract_mace_data.py
@@ -89,6 +89,11 @@ def extract_mace_data(model, species=None, head=None, num_spline_points=256):
     if (model.spherical_harmonics._lmax != 3):
         raise RuntimeError("Currently, symmetrix only supports MACE models with l_max=3.")
 
+    if any(contraction.correlation != 3
+           for product in model.products
+           for contraction in product.symmetric_contractions.contractions):
+        raise RuntimeError("Currently, symmetrix only supports MACE models with correlation=3.")
+
     ### ----- HELPER FUNCTION -----
 
     def linear_simplify(linear):
-- 
2.43.0

