From 83852b30902bcfd767537cc3423b41b8bec5230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 01/69] fix: keep mesh numbers positive for GR-grids of
 antiparallel standardized bases

With use_grg, a mesh length generated grid matrices such as diag(-4, 4, -3)
when basis vectors of the standardized cell are antiparallel to those of the
input cell. Negative D_diag led to broken grids and out-of-bounds writes.
---
 phono3py/phonon/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phono3py/phonon/grid.py b/phono3py/phonon/grid.py
index 6f44d72..b224d8d 100644
--- a/phono3py/phonon/grid.py
+++ b/phono3py/phonon/grid.py
@@ -791,7 +791,8 @@ class GridMatrix:
         # If grid_matrix is a diagonal matrix, use it as D matrix.
         gm_diag = np.diagonal(_grid_matrix)
         if (np.diag(gm_diag) == _grid_matrix).all() and not force_SNF:
-            self._D_diag = np.array(gm_diag, dtype="int64")
+            # Standardized basis vectors can be antiparallel to those of input.
+            self._D_diag = np.array(np.abs(gm_diag), dtype="int64")
         else:
             import phono3py._recgrid as recgrid
 
-- 
2.43.0


From b45863eeca185b731f205dba934703cac8802ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 02/69] fix: measure BZ-boundary tolerance on the reduced
 microzone lattice

For generalized regular grids, Q can be strongly skewed, which made the
tolerance much larger than the real microzone. Points far from the BZ
boundary were then taken as translationally equivalent ones on it, and
their number could exceed the allocated arrays (out-of-bounds write).
---
 c/recgrid.c | 52 ++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/c/recgrid.c b/c/recgrid.c
index 1fe6f55..40e288c 100644
--- a/c/recgrid.c
+++ b/c/recgrid.c
@@ -45,6 +45,8 @@
 
 #define GRID_TOLERANCE_FACTOR 0.01
 
+static void reduce_basis_pairwise(double basis[3][3]);
+
 void recgrid_get_all_grid_addresses(int64_t (*gr_grid_addresses)[3],
                                     const int64_t D_diag[3]) {
     grg_get_all_grid_addresses(gr_grid_addresses, D_diag);
@@ -193,22 +195,25 @@ double recgrid_get_tolerance_for_BZ_reduction(const RecgridBZGrid *bzgrid) {
     int64_t i, j;
     double tolerance;
     double length[3];
-    double reclatQ[3][3];
+    double microzone[3][3];
 
+    /* Column vectors of reclat.Q.D^-1 are basis vectors of microzone lattice */
     for (i = 0; i < 3; i++) {
         for (j = 0; j < 3; j++) {
-            reclatQ[i][j] = bzgrid->reclat[i][0] * bzgrid->Q[0][j] +
-                            bzgrid->reclat[i][1] * bzgrid->Q[1][j] +
-                            bzgrid->reclat[i][2] * bzgrid->Q[2][j];
+            microzone[i][j] = (bzgrid->reclat[i][0] * bzgrid->Q[0][j] +
+                               bzgrid->reclat[i][1] * bzgrid->Q[1][j] +
+                               bzgrid->reclat[i][2] * bzgrid->Q[2][j]) /
+                              bzgrid->D_diag[j];
         }
     }
+    /* They can be very long for skewed Q of generalized regular grid. */
+    reduce_basis_pairwise(microzone);
 
     for (i = 0; i < 3; i++) {
         length[i] = 0;
         for (j = 0; j < 3; j++) {
-            length[i] += reclatQ[j][i] * reclatQ[j][i];
+            length[i] += microzone[j][i] * microzone[j][i];
         }
-        length[i] /= bzgrid->D_diag[i] * bzgrid->D_diag[i];
     }
     tolerance = length[0];
     for (i = 1; i < 3; i++) {
@@ -221,6 +226,41 @@ double recgrid_get_tolerance_for_BZ_reduction(const RecgridBZGrid *bzgrid) {
     return tolerance;
 }
 
+/* Column vectors are reduced until no pair can be shortened. */
+static void reduce_basis_pairwise(double basis[3][3]) {
+    int64_t i, j, k, loop, is_reduced;
+    double norm, ratio;
+
+    for (loop = 0; loop < 1000; loop++) {
+        is_reduced = 1;
+        for (i = 0; i < 3; i++) {
+            for (j = 0; j < 3; j++) {
+                if (i == j) {
+                    continue;
+                }
+                norm = 0;
+                ratio = 0;
+                for (k = 0; k < 3; k++) {
+                    norm += basis[k][j] * basis[k][j];
+                    ratio += basis[k][i] * basis[k][j];
+                }
+                ratio /= norm;
+                /* Margin avoids endless exchange at ratio of 1/2. */
+                if (ratio > 0.5 + 1e-5 || ratio < -0.5 - 1e-5) {
+                    is_reduced = 0;
+                    ratio = lagmat_Nint(ratio);
+                    for (k = 0; k < 3; k++) {
+                        basis[k][i] -= ratio * basis[k][j];
+                    }
+                }
+            }
+        }
+        if (is_reduced) {
+            break;
+        }
+    }
+}
+
 RecgridMats *recgrid_alloc_RotMats(const int64_t size) {
     RecgridMats *rotmats;
 
-- 
2.43.0


From 161644cbf1cc3722d942801d0fba3bac0d80fd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 03/69] fix: initialize reciprocal lattice used for choosing BZ
 images of triplets

RecgridConstBZGrid was allocated without setting reclat, which is read in
searching triplets on BZ boundary, so the choice of translationally
equivalent triplets depended on memory contents.
---
 c/gridsys.c  | 2 ++
 c/phono3py.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/c/gridsys.c b/c/gridsys.c
index 067ebf6..f96eb1f 100644
--- a/c/gridsys.c
+++ b/c/gridsys.c
@@ -238,6 +238,8 @@ int64_t gridsys_get_bz_triplets_at_q(
         bzgrid->PS[i] = 0;
         for (j = 0; j < 3; j++) {
             bzgrid->Q[i][j] = Q[i][j];
+            /* No metric is given: the first found triplet is chosen. */
+            bzgrid->reclat[i][j] = 0;
         }
     }
     bzgrid->size = num_map_triplets;
diff --git a/c/phono3py.c b/c/phono3py.c
index 25d6e1f..21d8387 100644
--- a/c/phono3py.c
+++ b/c/phono3py.c
@@ -423,6 +423,8 @@ int64_t ph3py_get_BZ_triplets_at_q(
         bzgrid->PS[i] = 0;
         for (j = 0; j < 3; j++) {
             bzgrid->Q[i][j] = Q[i][j];
+            /* No metric is given: the first found triplet is chosen. */
+            bzgrid->reclat[i][j] = 0;
         }
     }
     bzgrid->size = num_map_triplets;
-- 
2.43.0


From 51d4cf9e68b5e2be81afacae382b7dbaf4f5d7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:11 +0000
Subject: [PATCH 04/69] fix: apply the reciprocal-lattice phase of all Umklapp
 triplets in the Python route

---
 phono3py/phonon3/real_to_reciprocal.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/phono3py/phonon3/real_to_reciprocal.py b/phono3py/phonon3/real_to_reciprocal.py
index cafa700..4793bfb 100644
--- a/phono3py/phonon3/real_to_reciprocal.py
+++ b/phono3py/phonon3/real_to_reciprocal.py
@@ -69,10 +69,7 @@ class RealToReciprocal:
 
     def _real_to_reciprocal(self):
         num_patom = len(self._primitive)
-        sum_triplets = np.where(
-            np.all(self._triplet != 0, axis=0), self._triplet.sum(axis=0), 0
-        )
-        sum_q = sum_triplets.astype("double") / self._mesh
+        sum_q = self._triplet.sum(axis=0).astype("double") / self._mesh
         for i in range(num_patom):
             for j in range(num_patom):
                 for k in range(num_patom):
-- 
2.43.0


From e22ad11745b3e5a3c0a88059b357b6a4f1788008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:11 +0000
Subject: [PATCH 05/69] fix: compute all permuted elements when symmetrizing
 fc3 in reciprocal space

---
 c/interaction.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/c/interaction.c b/c/interaction.c
index ca1ea7c..a53882b 100644
--- a/c/interaction.c
+++ b/c/interaction.c
@@ -60,8 +60,7 @@ static void real_to_normal(
     const double cutoff_frequency, const int64_t triplet_index,
     const int64_t num_triplets, const int64_t openmp_per_triplets);
 static void real_to_normal_sym_q(
-    double *fc3_normal_squared, const int64_t (*g_pos)[4],
-    const int64_t num_g_pos, double *const freqs[3],
+    double *fc3_normal_squared, double *const freqs[3],
     lapack_complex_double *const eigvecs[3], const double *fc3,
     const int64_t is_compact_fc3, const double q_vecs[3][3], /* q0, q1, q2 */
     const AtomTriplets *atom_triplets, const double *masses,
@@ -158,8 +157,8 @@ void itr_get_interaction_at_triplet(
             }
         }
         real_to_normal_sym_q(
-            fc3_normal_squared, g_pos, num_g_pos, freqs, eigvecs, fc3,
-            is_compact_fc3, q_vecs, /* q0, q1, q2 */
+            fc3_normal_squared, freqs, eigvecs, fc3, is_compact_fc3,
+            q_vecs, /* q0, q1, q2 */
             atom_triplets, masses, band_indices, num_band0, num_band,
             cutoff_frequency, triplet_index, num_triplets, openmp_per_triplets);
         for (j = 0; j < 3; j++) {
@@ -223,8 +222,7 @@ static void real_to_normal(
 }
 
 static void real_to_normal_sym_q(
-    double *fc3_normal_squared, const int64_t (*g_pos)[4],
-    const int64_t num_g_pos, double *const freqs[3],
+    double *fc3_normal_squared, double *const freqs[3],
     lapack_complex_double *const eigvecs[3], const double *fc3,
     const int64_t is_compact_fc3, const double q_vecs[3][3], /* q0, q1, q2 */
     const AtomTriplets *atom_triplets, const double *masses,
@@ -236,10 +234,26 @@ static void real_to_normal_sym_q(
     int64_t band_ex[3];
     double q_vecs_ex[3][3];
     double *fc3_normal_squared_ex;
+    int64_t *all_band_indices;
+    int64_t(*all_g_pos)[4];
 
     fc3_normal_squared_ex =
         (double *)malloc(sizeof(double) * num_band * num_band * num_band);
 
+    /* Elements of all bands are necessary to permute the bands. */
+    all_band_indices = (int64_t *)malloc(sizeof(int64_t) * num_band);
+    for (i = 0; i < num_band; i++) {
+        all_band_indices[i] = i;
+    }
+    all_g_pos = (int64_t(*)[4])malloc(sizeof(int64_t[4]) * num_band *
+                                      num_band * num_band);
+    for (i = 0; i < num_band * num_band * num_band; i++) {
+        all_g_pos[i][0] = i / (num_band * num_band);
+        all_g_pos[i][1] = (i / num_band) % num_band;
+        all_g_pos[i][2] = i % num_band;
+        all_g_pos[i][3] = i;
+    }
+
     for (i = 0; i < num_band0 * num_band * num_band; i++) {
         fc3_normal_squared[i] = 0;
     }
@@ -251,13 +265,14 @@ static void real_to_normal_sym_q(
             }
         }
         real_to_normal(
-            fc3_normal_squared_ex, g_pos, num_g_pos,
+            fc3_normal_squared_ex, all_g_pos, num_band * num_band * num_band,
             freqs[index_exchange[i][0]], freqs[index_exchange[i][1]],
             freqs[index_exchange[i][2]], eigvecs[index_exchange[i][0]],
             eigvecs[index_exchange[i][1]], eigvecs[index_exchange[i][2]], fc3,
             is_compact_fc3, q_vecs_ex, /* q0, q1, q2 */
-            atom_triplets, masses, band_indices, num_band, cutoff_frequency,
-            triplet_index, num_triplets, openmp_per_triplets);
+            atom_triplets, masses, all_band_indices, num_band,
+            cutoff_frequency, triplet_index, num_triplets,
+            openmp_per_triplets);
         for (j = 0; j < num_band0; j++) {
             for (k = 0; k < num_band; k++) {
                 for (l = 0; l < num_band; l++) {
@@ -278,4 +293,6 @@ static void real_to_normal_sym_q(
     }
 
     free(fc3_normal_squared_ex);
+    free(all_band_indices);
+    free(all_g_pos);
 }
-- 
2.43.0


From d39557d62f3f98e0011f920da40ff6682ac5f4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:51 +0000
Subject: [PATCH 06/69] fix: store detailed imaginary self energies per sigma
 and temperature at bands

---
 phono3py/phonon3/imag_self_energy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phono3py/phonon3/imag_self_energy.py b/phono3py/phonon3/imag_self_energy.py
index 5df9a1c..05c7e56 100644
--- a/phono3py/phonon3/imag_self_energy.py
+++ b/phono3py/phonon3/imag_self_energy.py
@@ -866,8 +866,8 @@ def _get_imag_self_energy_at_gp(
                     'self energy is written in\n"%s".' % full_filename
                 )
 
-        if return_gamma_detail:
-            detailed_gamma.append(detailed_gamma_at_gp)
+    if return_gamma_detail:
+        detailed_gamma.append(detailed_gamma_at_gp)
 
 
 def _get_imag_self_energy_at_sigma(
@@ -897,7 +897,7 @@ def _get_imag_self_energy_at_sigma(
             ise.run()
             gamma[j, k, i] = ise.imag_self_energy
             if write_gamma_detail or return_gamma_detail:
-                detailed_gamma_at_gp[k] = ise.detailed_imag_self_energy
+                detailed_gamma_at_gp_at_j[k] = ise.detailed_imag_self_energy
     else:
         run_ise_at_frequency_points_batch(
             i,
-- 
2.43.0


From b00582434593c15e1b37c8ffa60643f90b5f9727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:52 +0000
Subject: [PATCH 07/69] fix: spectral function runs without output files and
 records all its bands

---
 phono3py/phonon3/spectral_function.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/phono3py/phonon3/spectral_function.py b/phono3py/phonon3/spectral_function.py
index 95f4de3..b646fc4 100644
--- a/phono3py/phonon3/spectral_function.py
+++ b/phono3py/phonon3/spectral_function.py
@@ -131,12 +131,14 @@ def run_spectral_function(
     for i, gp in enumerate(spf):
         frequencies = interaction.get_phonons()[0]
         for sigma_i, sigma in enumerate(spf.sigmas):
-            for t, spf_at_t in zip(temperatures, spf.spectral_functions[sigma_i, :, i]):
-                for j, bi in enumerate(band_indices):
-                    pos = 0
-                    for k in range(j):
-                        pos += len(band_indices[k])
-                    if write_txt:
+            if write_txt:
+                for t, spf_at_t in zip(
+                    temperatures, spf.spectral_functions[sigma_i, :, i]
+                ):
+                    for j, bi in enumerate(band_indices):
+                        pos = 0
+                        for k in range(j):
+                            pos += len(band_indices[k])
                         filename = write_spectral_function_at_grid_point(
                             gp,
                             bi,
@@ -148,13 +150,13 @@ def run_spectral_function(
                             filename=output_filename,
                             is_mesh_symmetry=interaction.is_mesh_symmetry,
                         )
-                    if log_level:
-                        print(f'Spectral functions were written to "{filename}".')
+                        if log_level:
+                            print(f'Spectral functions were written to "{filename}".')
 
             if write_hdf5:
                 filename = write_spectral_function_to_hdf5(
                     gp,
-                    bi,
+                    interaction.band_indices,
                     temperatures,
                     spf.spectral_functions[sigma_i, :, i],
                     spf.shifts[sigma_i, :, i],
@@ -168,9 +170,9 @@ def run_spectral_function(
                     filename=output_filename,
                 )
 
-            if log_level:
-                print(f'Spectral functions were stored in "{filename}".')
-                sys.stdout.flush()
+                if log_level:
+                    print(f'Spectral functions were stored in "{filename}".')
+                    sys.stdout.flush()
 
     return spf
 
-- 
2.43.0


From 6d6e91c08c4a94b5abb28df1a177edd22e0b2451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:16 +0000
Subject: [PATCH 08/69] fix: index isotope integration weights by position in
 band indices in Python route

---
 phono3py/other/isotope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phono3py/other/isotope.py b/phono3py/other/isotope.py
index 5903c8a..ab1fd23 100644
--- a/phono3py/other/isotope.py
+++ b/phono3py/other/isotope.py
@@ -346,7 +346,7 @@ class Isotope:
             self._set_integration_weights(lang="Py")
 
         t_inv = []
-        for bi in self._band_indices:
+        for i, bi in enumerate(self._band_indices):
             vec0 = self._eigenvectors[self._grid_point][:, bi].conj()
             f0 = self._frequencies[self._grid_point][bi]
             ti_sum = 0.0
@@ -361,7 +361,7 @@ class Isotope:
                         * self._mass_variances
                     )
                     if self._sigma is None:
-                        ti_sum += ti_sum_band * self._integration_weights[gp, bi, j]
+                        ti_sum += ti_sum_band * self._integration_weights[gp, i, j]
                     else:
                         ti_sum += ti_sum_band * gaussian(f0 - f, self._sigma)
             t_inv.append(np.pi / 2 / np.prod(self._bz_grid.D_diag) * f0**2 * ti_sum)
-- 
2.43.0


From 10f65508e82ab47db7a732e734906e3de6e9da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:28 +0000
Subject: [PATCH 09/69] fix: use grid-point frequencies of the phonon in
 reducible RTA kappa

_set_kappa_RTA_reducible_colmat loops over GR-grid indices but looked up
BZ-grid frequencies with them.
---
 phono3py/conductivity/direct_solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index 4e689c5..83f480e 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -1027,7 +1027,7 @@ class ConductivityLBTEBase(ConductivityBase):
         )
 
         for gp in range(num_mesh_points):
-            frequencies = self._frequencies[gp]
+            frequencies = self._frequencies[self._pp.bz_grid.grg2bzg[gp]]
             for j, f in enumerate(frequencies):
                 if f > self._pp.cutoff_frequency:
                     i_mode = gp * num_band + j
-- 
2.43.0


From 093c41b3fb7afe4f2e9d63e8b075431b4e0f9001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:22 +0000
Subject: [PATCH 10/69] fix: write band-wise isotope linewidths and averaged
 interactions as scalars

---
 phono3py/file_IO.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 62d43c4..7c35193 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -1009,17 +1009,23 @@ def write_kappa_to_hdf5(
         if gamma is not None:
             w.create_dataset("gamma", data=gamma, compression=compression)
         if gamma_isotope is not None:
-            w.create_dataset(
-                "gamma_isotope", data=gamma_isotope, compression=compression
-            )
+            if np.ndim(gamma_isotope) == 0:
+                w.create_dataset("gamma_isotope", data=gamma_isotope)
+            else:
+                w.create_dataset(
+                    "gamma_isotope", data=gamma_isotope, compression=compression
+                )
         if gamma_N is not None:
             w.create_dataset("gamma_N", data=gamma_N, compression=compression)
         if gamma_U is not None:
             w.create_dataset("gamma_U", data=gamma_U, compression=compression)
         if averaged_pp_interaction is not None:
-            w.create_dataset(
-                "ave_pp", data=averaged_pp_interaction, compression=compression
-            )
+            if np.ndim(averaged_pp_interaction) == 0:
+                w.create_dataset("ave_pp", data=averaged_pp_interaction)
+            else:
+                w.create_dataset(
+                    "ave_pp", data=averaged_pp_interaction, compression=compression
+                )
         if qpoint is not None:
             w.create_dataset("qpoint", data=qpoint, compression=compression)
         if weight is not None:
-- 
2.43.0


From 480bddc98b57d2320c153a6068f8240a5583d9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:22 +0000
Subject: [PATCH 11/69] fix: write linewidths at grid points in Green-Kubo
 formula without mode heat capacities

---
 phono3py/conductivity/utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index f7a66dc..9be1e4a 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -105,6 +105,10 @@ class ConductivityRTAWriter:
             mode_heat_capacities = br.mode_heat_capacities
         else:
             mode_heat_capacities = None
+        if mode_heat_capacities is None:
+            mode_heat_capacities_i = None
+        else:
+            mode_heat_capacities_i = mode_heat_capacities[:, i]
         ave_pp = br.averaged_pp_interaction
         mesh = br.mesh_numbers
         bz_grid = br.bz_grid
@@ -145,7 +149,7 @@ class ConductivityRTAWriter:
                     group_velocity=group_velocities_i,
                     gv_by_gv=gv_by_gv_i,
                     velocity_operator=velocity_operator_i,
-                    heat_capacity=mode_heat_capacities[:, i],
+                    heat_capacity=mode_heat_capacities_i,
                     gamma=gamma[j, :, i],
                     gamma_isotope=gamma_isotope_at_sigma,
                     gamma_N=gamma_N_at_sigma,
@@ -178,6 +182,10 @@ class ConductivityRTAWriter:
                         ave_pp_ik = None
                     else:
                         ave_pp_ik = ave_pp[i, k]
+                    if mode_heat_capacities_i is None:
+                        mode_heat_capacities_ik = None
+                    else:
+                        mode_heat_capacities_ik = mode_heat_capacities_i[:, k]
                     frequencies = interaction.get_phonons()[0][gp, bi]
                     if gamma_isotope is not None:
                         gamma_isotope_at_sigma = gamma_isotope[j, i, k]
@@ -199,7 +207,7 @@ class ConductivityRTAWriter:
                         group_velocity=group_velocities_ik,
                         gv_by_gv=gv_by_gv_ik,
                         velocity_operator=velocity_operator_ik,
-                        heat_capacity=mode_heat_capacities[:, i, k],
+                        heat_capacity=mode_heat_capacities_ik,
                         gamma=gamma[j, :, i, k],
                         gamma_isotope=gamma_isotope_at_sigma,
                         gamma_N=gamma_N_at_sigma,
-- 
2.43.0


From 13016f3a0fece64f6155c4fbef755dd37b8f225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 12/69] fix: read collisions at each temperature and at
 selected temperature indices

---
 phono3py/conductivity/utils.py | 4 ++--
 phono3py/file_IO.py            | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index 9be1e4a..c60232b 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -1054,7 +1054,7 @@ def set_collision_from_file(
                 # The following invokes self._allocate_values()
                 lbte.temperatures = temperatures
             lbte.collision_matrix[i_sigma] = colmat_at_sigma[0]
-            lbte.gamma[i_sigma] = gamma_at_sigma[0]
+            lbte.gamma[i_sigma] = gamma_at_sigma
             read_from = "full_matrix"
         else:
             vals = _allocate_collision(
@@ -1253,7 +1253,7 @@ def _collect_collision_band(
         igp = bzg2grg[gp]
     else:
         igp = i
-    gamma_at_sigma[:, igp, j] = gamma_at_band[0]
+    gamma_at_sigma[:, igp, j] = gamma_at_band
     colmat_at_sigma[:, igp, j] = colmat_at_band[0]
     temperatures[:] = temperatures_at_band
 
diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 7c35193..2c0b190 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -1150,7 +1150,10 @@ def read_collision_from_hdf5(
 
     if only_temperatures:
         with h5py.File(full_filename, "r") as f:
-            temperatures = np.array(f["temperature"][:], dtype="double")
+            if indices is None or indices == "all":
+                temperatures = np.array(f["temperature"][:], dtype="double")
+            else:
+                temperatures = np.array(f["temperature"][indices], dtype="double")
             return None, None, temperatures
 
     with h5py.File(full_filename, "r") as f:
-- 
2.43.0


From 3d476058b9041d8f404fecc3005c952caa46cb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 13/69] fix: refuse linewidths and collisions of different
 temperatures or mesh in files

---
 phono3py/conductivity/utils.py | 38 ++++++++++++++++++++++++++++++----
 phono3py/file_IO.py            |  9 +++++++-
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index c60232b..cd3f3b3 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -769,6 +769,8 @@ def set_gamma_from_file(
         if data:
             if verbose:
                 print("Read data from %s." % full_filename)
+            if not _is_consistent_gamma(data, mesh, temperatures, full_filename):
+                return False
             gamma[j] = data["gamma"]
             if "gamma_isotope" in data:
                 gamma_iso[j] = data["gamma_isotope"]
@@ -795,6 +797,10 @@ def set_gamma_from_file(
                 if data_gp:
                     if verbose:
                         print("Read data from %s." % full_filename)
+                    if not _is_consistent_gamma(
+                        data_gp, mesh, temperatures, full_filename
+                    ):
+                        return False
                     gamma[j, :, i] = data_gp["gamma"]
                     if "gamma_iso" in data_gp:
                         gamma_iso[j, i] = data_gp["gamma_iso"]
@@ -823,6 +829,10 @@ def set_gamma_from_file(
                         if data_band:
                             if verbose:
                                 print("Read data from %s." % full_filename)
+                            if not _is_consistent_gamma(
+                                data_band, mesh, temperatures, full_filename
+                            ):
+                                return False
                             gamma[j, :, i, bi] = data_band["gamma"]
                             if "gamma_iso" in data_band:
                                 gamma_iso[j, i, bi] = data_band["gamma_iso"]
@@ -1053,6 +1063,8 @@ def set_collision_from_file(
                 arrays_allocated = True
                 # The following invokes self._allocate_values()
                 lbte.temperatures = temperatures
+            if not _is_same_array(lbte.temperatures, temperatures):
+                return False
             lbte.collision_matrix[i_sigma] = colmat_at_sigma[0]
             lbte.gamma[i_sigma] = gamma_at_sigma
             read_from = "full_matrix"
@@ -1094,6 +1106,8 @@ def set_collision_from_file(
                 arrays_allocated = True
                 # The following invokes self._allocate_values()
                 lbte.temperatures = temperatures
+            if not _is_same_array(lbte.temperatures, temperatures):
+                return False
 
             for i, gp in enumerate(grid_points):
                 if not _collect_collision_gp(
@@ -1205,14 +1219,15 @@ def _collect_collision_gp(
         return False
 
     (colmat_at_gp, gamma_at_gp, temperatures_at_gp) = collision_gp
+    if not _is_same_array(temperatures, temperatures_at_gp):
+        return False
+
     if is_reducible_collision_matrix:
         igp = bzg2grg[gp]
     else:
         igp = i
     gamma_at_sigma[:, igp] = gamma_at_gp
     colmat_at_sigma[:, igp] = colmat_at_gp[0]
-    temperatures[:] = temperatures_at_gp
-
     return True
 
 
@@ -1245,16 +1260,31 @@ def _collect_collision_band(
     if log_level:
         sys.stdout.flush()
 
-    if collision_band is False:
+    if not collision_band:
         return False
 
     (colmat_at_band, gamma_at_band, temperatures_at_band) = collision_band
+    if not _is_same_array(temperatures, temperatures_at_band):
+        return False
+
     if is_reducible_collision_matrix:
         igp = bzg2grg[gp]
     else:
         igp = i
     gamma_at_sigma[:, igp, j] = gamma_at_band
     colmat_at_sigma[:, igp, j] = colmat_at_band[0]
-    temperatures[:] = temperatures_at_band
+    return True
+
+
+def _is_same_array(a, b):
+    """Return whether shapes and values of two arrays agree."""
+    return np.shape(a) == np.shape(b) and np.allclose(a, b)
+
 
+def _is_consistent_gamma(data, mesh, temperatures, filename):
+    """Check mesh and temperatures of linewidths read from file."""
+    for key, values in (("mesh", mesh), ("temperature", temperatures)):
+        if key in data and not _is_same_array(values, data[key]):
+            print('Different "%s" was found in "%s".' % (key, filename))
+            return False
     return True
diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 2c0b190..113864d 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -1103,7 +1103,14 @@ def read_gamma_from_hdf5(
 
     with h5py.File(full_filename, "r") as f:
         read_data["gamma"] = f["gamma"][:]
-        for key in ("gamma_isotope", "ave_pp", "gamma_N", "gamma_U"):
+        for key in (
+            "mesh",
+            "temperature",
+            "gamma_isotope",
+            "ave_pp",
+            "gamma_N",
+            "gamma_U",
+        ):
             if key in f.keys():
                 if len(f[key].shape) > 0:
                     read_data[key] = f[key][:]
-- 
2.43.0


From 434ecb25b7934473eae2f1b37fbb6c4de4cbc975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 14/69] fix: write detailed linewidths of each sigma in RTA
 calculation

---
 phono3py/conductivity/rta.py   | 15 ++++++++-------
 phono3py/conductivity/utils.py | 10 +++++-----
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index 1771f5e..6e60d00 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -291,12 +291,13 @@ class ConductivityRTABase(ConductivityBase):
             # So this is allocated each time.
             if self._is_gamma_detail:
                 num_temp = len(self._temperatures)
-                self._gamma_detail_at_q = np.empty(
-                    ((num_temp,) + self._pp.get_interaction_strength().shape),
-                    dtype="double",
-                    order="C",
-                )
-                self._gamma_detail_at_q[:] = 0
+                if j == 0:
+                    self._gamma_detail_at_q = np.zeros(
+                        (len(self._sigmas), num_temp)
+                        + self._pp.get_interaction_strength().shape,
+                        dtype="double",
+                        order="C",
+                    )
 
             if self._log_level:
                 print("Calculating collisions at temperatures...")
@@ -309,7 +310,7 @@ class ConductivityRTABase(ConductivityBase):
                     self._gamma_N[j, k, i] = g_N
                     self._gamma_U[j, k, i] = g_U
                 if self._is_gamma_detail:
-                    self._gamma_detail_at_q[k] = (
+                    self._gamma_detail_at_q[j, k] = (
                         self._collision.get_detailed_imag_self_energy()
                     )
 
diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index cd3f3b3..9e57a6c 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -374,12 +374,12 @@ class ConductivityRTAWriter:
         all_triplets = get_all_triplets(gp, interaction.bz_grid)
 
         if all_bands_exist(interaction):
-            for sigma in sigmas:
+            for j, sigma in enumerate(sigmas):
                 write_gamma_detail_to_hdf5(
                     temperatures,
                     mesh,
                     bz_grid=bz_grid,
-                    gamma_detail=gamma_detail,
+                    gamma_detail=gamma_detail[j],
                     grid_point=gp,
                     triplet=triplets,
                     weight=weights,
@@ -391,13 +391,13 @@ class ConductivityRTAWriter:
                     verbose=verbose,
                 )
         else:
-            for sigma in sigmas:
-                for k, bi in enumerate(interaction.get_band_indices()):
+            for j, sigma in enumerate(sigmas):
+                for k, bi in enumerate(interaction.band_indices):
                     write_gamma_detail_to_hdf5(
                         temperatures,
                         mesh,
                         bz_grid=bz_grid,
-                        gamma_detail=gamma_detail[:, :, k, :, :],
+                        gamma_detail=gamma_detail[j, :, :, k, :, :],
                         grid_point=gp,
                         triplet=triplets,
                         weight=weights,
-- 
2.43.0


From d3f80da5810fa00f9dde2cd5d3d1ae704e7ed55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 15/69] fix: use output filename in real self energy hdf5 file

---
 phono3py/file_IO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 113864d..8a84563 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -634,6 +634,8 @@ def write_real_self_energy_to_hdf5(
         full_filename += "-e" + _del_zeros(epsilon)
     else:
         full_filename += "-e%.3e" % epsilon
+    if filename is not None:
+        full_filename += ".%s" % filename
     full_filename += ".hdf5"
 
     with h5py.File(full_filename, "w") as w:
-- 
2.43.0


From 58723b849669c6311fdba31cdf3a3e216d4a43c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 16/69] fix: write joint DOS at all temperatures

---
 phono3py/file_IO.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 8a84563..08bdf72 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -523,17 +523,21 @@ def write_joint_dos(
             is_mesh_symmetry=is_mesh_symmetry,
         )
     else:
+        filenames = []
         for jdos_at_t, t in zip(jdos, temperatures):
-            return _write_joint_dos_at_t(
-                gp,
-                mesh,
-                frequencies,
-                jdos_at_t,
-                sigma=sigma,
-                temperature=t,
-                filename=filename,
-                is_mesh_symmetry=is_mesh_symmetry,
+            filenames.append(
+                _write_joint_dos_at_t(
+                    gp,
+                    mesh,
+                    frequencies,
+                    jdos_at_t,
+                    sigma=sigma,
+                    temperature=t,
+                    filename=filename,
+                    is_mesh_symmetry=is_mesh_symmetry,
+                )
             )
+        return filenames
 
 
 def _write_joint_dos_at_t(
-- 
2.43.0


From e9a961749f718ee68a3929892b40845654a5ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 17/69] fix: refuse phonons given at any different grid address

---
 phono3py/phonon3/interaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 700c4e3..25bfe6e 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -696,7 +696,7 @@ class Interaction:
                 "Input grid address size is inconsistent. Setting phonons failed."
             )
 
-        if (self._bz_grid.addresses - bz_grid_addresses).all():
+        if (self._bz_grid.addresses != bz_grid_addresses).any():
             raise RuntimeError(
                 "Input grid addresses are inconsistent. Setting phonons failed."
             )
-- 
2.43.0


From 8a16da274eb4cffd32e123260dc5b0171fcb18c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 18/69] fix: keep included flags of pair displacements saved
 with forces

---
 phono3py/interface/phono3py_yaml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phono3py/interface/phono3py_yaml.py b/phono3py/interface/phono3py_yaml.py
index 2037985..cb821bc 100644
--- a/phono3py/interface/phono3py_yaml.py
+++ b/phono3py/interface/phono3py_yaml.py
@@ -247,6 +247,8 @@ class Phono3pyYamlLoader(PhonopyYamlLoaderBase):
             second_atom_dict["id"] = d2_id
         if "pair_distance" in d2:
             second_atom_dict["pair_distance"] = d2["pair_distance"]
+        if "included" in d2:
+            second_atom_dict["included"] = d2["included"]
         if "supercell_energy" in d2:
             second_atom_dict["supercell_energy"] = d2["supercell_energy"]
         disp2_id += 1
@@ -557,6 +559,9 @@ def _second_displacements_yaml_lines(dataset2, id_offset, with_forces=False):
                 disp2_id += 1
                 lines.append("  - atom: %4d" % (i + 1))
                 lines.append("    pair_distance: %.8f" % dataset2[j]["pair_distance"])
+                if "included" in dataset2[j]:
+                    included = dataset2[j]["included"]
+                    lines.append("    included: %s" % ("true" if included else "false"))
                 lines.append("    displacement:")
                 lines.append(
                     "      [ %19.16f, %19.16f, %19.16f ]"
-- 
2.43.0


From e69eccc99436d589c7f7a3dd60f88c522f9eb2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 19/69] fix: convert units of pair distances and cutoff
 distance in dataset

---
 phono3py/cui/create_force_constants.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/phono3py/cui/create_force_constants.py b/phono3py/cui/create_force_constants.py
index f6518a5..857c4dc 100644
--- a/phono3py/cui/create_force_constants.py
+++ b/phono3py/cui/create_force_constants.py
@@ -738,6 +738,8 @@ def _convert_unit_in_dataset(
 
     """
     if "first_atoms" in dataset:
+        if distance_to_A is not None and "cutoff_distance" in dataset:
+            dataset["cutoff_distance"] *= distance_to_A
         for d1 in dataset["first_atoms"]:
             if distance_to_A is not None:
                 disp = _to_ndarray(d1["displacement"])
@@ -750,6 +752,8 @@ def _convert_unit_in_dataset(
                     if distance_to_A is not None:
                         disp = _to_ndarray(d2["displacement"])
                         d2["displacement"] = disp * distance_to_A
+                        if "pair_distance" in d2:
+                            d2["pair_distance"] *= distance_to_A
                     if force_to_eVperA is not None and "forces" in d2:
                         forces = _to_ndarray(d2["forces"])
                         d2["forces"] = forces * force_to_eVperA
-- 
2.43.0


From 69504b8fd9dba0e85513a6aab697d2dcda7a3afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 20/69] fix: NAC factor of load for crystal in Angstrom and eV

---
 phono3py/cui/load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phono3py/cui/load.py b/phono3py/cui/load.py
index 3ca030e..3bc331c 100644
--- a/phono3py/cui/load.py
+++ b/phono3py/cui/load.py
@@ -46,7 +46,7 @@ from phonopy.harmonic.force_constants import show_drift_force_constants
 from phonopy.interface.calculator import get_default_physical_units
 from phonopy.structure.atoms import PhonopyAtoms
 from phonopy.structure.cells import determinant
-from phonopy.units import VaspToTHz
+from phonopy.units import Bohr, Hartree, VaspToTHz
 
 from phono3py import Phono3py
 from phono3py.cui.create_force_constants import (
@@ -339,7 +339,7 @@ def load(
             _nac_params,
             born_filename,
             is_nac,
-            physical_units["nac_factor"],
+            Hartree * Bohr,
             log_level=log_level,
         )
 
-- 
2.43.0


From 05d4063a4ab9cffa1a55592f2abe6d96ed4ef92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:35 +0000
Subject: [PATCH 21/69] fix: write type-2 forces to the given filename

---
 phono3py/file_IO.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 08bdf72..980cb1b 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -213,13 +213,13 @@ def write_FORCES_FC2(disp_dataset, forces_fc2=None, fp=None, filename="FORCES_FC
                 w.write("%15.10f %15.10f %15.10f\n" % tuple(forces))
     else:
         if "forces" in disp_dataset:
-            write_FORCE_SETS(disp_dataset, filename="FORCES_FC2")
+            write_FORCE_SETS(disp_dataset, filename=filename)
         else:
             if forces_fc2 is None:
                 raise RuntimeError("No forces are found.")
             dataset = disp_dataset.copy()
             dataset["forces"] = forces_fc2
-            write_FORCE_SETS(dataset, filename="FORCES_FC2")
+            write_FORCE_SETS(dataset, filename=filename)
 
     if fp is None:
         w.close()
@@ -245,13 +245,13 @@ def write_FORCES_FC3(
             _write_FORCES_FC3_typeI(disp_dataset, fp, forces_fc3=forces_fc3)
     else:
         if "forces" in disp_dataset:
-            write_FORCE_SETS(disp_dataset, filename="FORCES_FC3")
+            write_FORCE_SETS(disp_dataset, filename=filename)
         else:
             if forces_fc3 is None:
                 raise RuntimeError("No forces are found.")
             dataset = disp_dataset.copy()
             dataset["forces"] = forces_fc3
-            write_FORCE_SETS(dataset, filename="FORCES_FC3")
+            write_FORCE_SETS(dataset, filename=filename)
 
 
 def _write_FORCES_FC3_typeI(
-- 
2.43.0


From 4250374778a557cca8c4a1b9a6f14e8177759295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 22/69] fix: include the first displacement of pairs in
 Phono3py.displacements of type-1 datasets

---
 phono3py/api_phono3py.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 52eed4f..875a33e 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -869,7 +869,8 @@ class Phono3py:
                 i += 1
             for disp1 in dataset["first_atoms"]:
                 for disp2 in disp1["second_atoms"]:
-                    displacements[i, disp2["number"]] = disp2["displacement"]
+                    displacements[i, disp1["number"]] = disp1["displacement"]
+                    displacements[i, disp2["number"]] += disp2["displacement"]
                     i += 1
         elif "displacements" in dataset:
             displacements = dataset["displacements"]
-- 
2.43.0


From 3b0af0828fae593b59d01074755288736381abb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 23/69] fix: use compact symmetrizers for compact force
 constants in API and fc3 reading

---
 phono3py/api_phono3py.py               | 25 +++++++++++++++++++++----
 phono3py/cui/create_force_constants.py | 10 ++++++++--
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 875a33e..0e5d321 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -48,6 +48,8 @@ from phonopy.harmonic.displacement import (
 )
 from phonopy.harmonic.dynamical_matrix import DynamicalMatrix
 from phonopy.harmonic.force_constants import (
+    compact_fc_to_full_fc,
+    full_fc_to_compact_fc,
     set_permutation_symmetry,
     set_translational_invariance,
     symmetrize_compact_force_constants,
@@ -1613,9 +1615,12 @@ class Phono3py:
     def set_permutation_symmetry(self):
         """Enforce permutation symmetry to fc2 and fc3."""
         if self._fc2 is not None:
-            set_permutation_symmetry(self._fc2)
+            self._symmetrize_fc2(set_permutation_symmetry)
         if self._fc3 is not None:
-            set_permutation_symmetry_fc3(self._fc3)
+            if self._fc3.shape[0] == self._fc3.shape[1]:
+                set_permutation_symmetry_fc3(self._fc3)
+            else:
+                set_permutation_symmetry_compact_fc3(self._fc3, self._primitive)
 
     def set_translational_invariance(self):
         """Enforce translation invariance.
@@ -1625,9 +1630,12 @@ class Phono3py:
 
         """
         if self._fc2 is not None:
-            set_translational_invariance(self._fc2)
+            self._symmetrize_fc2(set_translational_invariance)
         if self._fc3 is not None:
-            set_translational_invariance_fc3(self._fc3)
+            if self._fc3.shape[0] == self._fc3.shape[1]:
+                set_translational_invariance_fc3(self._fc3)
+            else:
+                set_translational_invariance_compact_fc3(self._fc3, self._primitive)
 
     def run_imag_self_energy(
         self,
@@ -2496,6 +2504,15 @@ class Phono3py:
 
         self._supercells_with_displacements = supercells
 
+    def _symmetrize_fc2(self, symmetrizer):
+        """Apply symmetrizer of full fc2 to fc2 in full or compact form."""
+        if self._fc2.shape[0] == self._fc2.shape[1]:
+            symmetrizer(self._fc2)
+        else:
+            fc2 = compact_fc_to_full_fc(self._phonon_primitive, self._fc2)
+            symmetrizer(fc2)
+            self._fc2[:] = full_fc_to_compact_fc(self._phonon_primitive, fc2)
+
     def _get_primitive_cell(self, supercell, supercell_matrix, primitive_matrix):
         inv_supercell_matrix = np.linalg.inv(supercell_matrix)
         if primitive_matrix is None:
diff --git a/phono3py/cui/create_force_constants.py b/phono3py/cui/create_force_constants.py
index 857c4dc..a7f19c9 100644
--- a/phono3py/cui/create_force_constants.py
+++ b/phono3py/cui/create_force_constants.py
@@ -71,7 +71,9 @@ from phono3py.interface.fc_calculator import extract_fc2_fc3_calculators
 from phono3py.interface.phono3py_yaml import Phono3pyYaml
 from phono3py.phonon3.dataset import forces_in_dataset
 from phono3py.phonon3.fc3 import (
+    set_permutation_symmetry_compact_fc3,
     set_permutation_symmetry_fc3,
+    set_translational_invariance_compact_fc3,
     set_translational_invariance_fc3,
     show_drift_fc3,
 )
@@ -392,8 +394,12 @@ def _read_phono3py_fc3(phono3py: Phono3py, symmetrize_fc3r, input_filename, log_
         sys.exit(1)
 
     if symmetrize_fc3r:
-        set_translational_invariance_fc3(fc3)
-        set_permutation_symmetry_fc3(fc3)
+        if fc3.shape[0] == fc3.shape[1]:
+            set_translational_invariance_fc3(fc3)
+            set_permutation_symmetry_fc3(fc3)
+        else:
+            set_translational_invariance_compact_fc3(fc3, phono3py.primitive)
+            set_permutation_symmetry_compact_fc3(fc3, phono3py.primitive)
 
     phono3py.fc3 = fc3
 
-- 
2.43.0


From 20268fb81b20176f5491ccc01798e7b601ae55f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 24/69] fix: estimate number of fc2 snapshots from phonon
 supercell

---
 phono3py/api_phono3py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 0e5d321..2257c5d 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -1430,7 +1430,7 @@ class Phono3py:
 
                 _number_of_snapshots = (
                     SymfcFCSolver(
-                        self._supercell, self._symmetry
+                        self._phonon_supercell, self._phonon_supercell_symmetry
                     ).estimate_numbers_of_supercells(orders=[2])[2]
                     * 2
                 )
-- 
2.43.0


From c60e45b99a9aa687ece0ce068bdf8be56ee83bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 25/69] fix: accept type-1 dataset whose excluded pairs have no
 forces

get_displacements_and_forces_fc3 raised AssertionError for, e.g.,
phono3py_params.yaml made from a dataset with cutoff pair distance, where only
included pairs have forces.
---
 phono3py/phonon3/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phono3py/phonon3/dataset.py b/phono3py/phonon3/dataset.py
index d65aea9..c851c2c 100644
--- a/phono3py/phonon3/dataset.py
+++ b/phono3py/phonon3/dataset.py
@@ -100,7 +100,8 @@ def get_displacements_and_forces_fc3(
             forces = None
         else:
             forces = np.array(forces[indices], dtype="double", order="C")
-            assert forces_count == count
+            # Pairs that are not included may or may not have (dummy) forces.
+            assert forces_count in (count, len(indices))
 
         displacements = np.array(displacements[indices], dtype="double", order="C")
         return displacements, forces
-- 
2.43.0


From e16fb17171cd703a720375390c0c76f3b60b5936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 26/69] fix: get forces and energies from type-1 dataset
 without them

Phono3py.supercell_energies raised KeyError when the type-1 dataset has forces
but no energies, and Phono3py.forces when excluded pairs have no forces.
---
 phono3py/api_phono3py.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 2257c5d..6a8f77f 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2604,13 +2604,17 @@ class Phono3py:
             elif target == "supercell_energies":
                 values = np.zeros(num_scells, dtype="double")
                 type1_target = "supercell_energy"
+            if type1_target not in self._dataset["first_atoms"][0]:
+                return None
             count = 0
             for disp1 in self._dataset["first_atoms"]:
                 values[count] = disp1[type1_target]
                 count += 1
             for disp1 in self._dataset["first_atoms"]:
                 for disp2 in disp1["second_atoms"]:
-                    values[count] = disp2[type1_target]
+                    # Pairs that are not included may have no value.
+                    if type1_target in disp2 or disp2.get("included", True):
+                        values[count] = disp2[type1_target]
                     count += 1
             return values
         return None
-- 
2.43.0


From 9388dd4e0463f080f333530950e0ed61df4cbccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 27/69] fix: use calculator of phono3py_disp.yaml to create
 FORCES_FC2

---
 phono3py/cui/create_force_sets.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/phono3py/cui/create_force_sets.py b/phono3py/cui/create_force_sets.py
index 74d83f0..f44279b 100644
--- a/phono3py/cui/create_force_sets.py
+++ b/phono3py/cui/create_force_sets.py
@@ -267,7 +267,6 @@ def _get_force_sets_fc2(
     interface_mode: Optional[str],
     log_level: int,
 ) -> dict:
-    interface_mode = settings.calculator
     if log_level:
         print(f'FC2 displacement dataset was read from "{disp_filename}".')
 
-- 
2.43.0


From ae55a6eebdd85aa2cd01625fdbb7963ae28ab4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 28/69] fix: collect type-2 force sets from calculator outputs
 without energies

Creating phono3py_params.yaml raised KeyError for calculators other than VASP
and CP2K.
---
 phono3py/cui/create_force_sets.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/phono3py/cui/create_force_sets.py b/phono3py/cui/create_force_sets.py
index f44279b..5a9f073 100644
--- a/phono3py/cui/create_force_sets.py
+++ b/phono3py/cui/create_force_sets.py
@@ -476,9 +476,10 @@ def _set_forces_and_nac_params(
         ph3py_yaml.dataset["forces"] = np.array(
             calc_dataset_fc3["forces"], dtype="double", order="C"
         )
-        ph3py_yaml.dataset["supercell_energies"] = np.array(
-            calc_dataset_fc3["supercell_energies"], dtype="double"
-        )
+        if "supercell_energies" in calc_dataset_fc3:
+            ph3py_yaml.dataset["supercell_energies"] = np.array(
+                calc_dataset_fc3["supercell_energies"], dtype="double"
+            )
         if len(ph3py_yaml.dataset["forces"]) != len(
             ph3py_yaml.dataset["displacements"]
         ):
@@ -498,9 +499,10 @@ def _set_forces_and_nac_params(
             ph3py_yaml.phonon_dataset["forces"] = np.array(
                 calc_dataset_fc2["forces"], dtype="double", order="C"
             )
-            ph3py_yaml.phonon_dataset["supercell_energies"] = np.array(
-                calc_dataset_fc2["supercell_energies"], dtype="double"
-            )
+            if "supercell_energies" in calc_dataset_fc2:
+                ph3py_yaml.phonon_dataset["supercell_energies"] = np.array(
+                    calc_dataset_fc2["supercell_energies"], dtype="double"
+                )
             if len(ph3py_yaml.phonon_dataset["forces"]) != len(
                 ph3py_yaml.phonon_dataset["displacements"]
             ):
-- 
2.43.0


From ef5d1060169ec74acdc63f80e5c9d0e1b1e843d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 29/69] fix: refuse wrong number of supercell files in creating
 force sets

With --cfz, UnboundLocalError was raised for fc3. For fc2, extra files were
silently ignored and missing files ended in IndexError.
---
 phono3py/cui/create_force_sets.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/phono3py/cui/create_force_sets.py b/phono3py/cui/create_force_sets.py
index 5a9f073..6c1b309 100644
--- a/phono3py/cui/create_force_sets.py
+++ b/phono3py/cui/create_force_sets.py
@@ -287,6 +287,11 @@ def _get_force_sets_fc2(
         print(f"  Number of displacements: {num_disps}")
         print(f"  Number of supercell files: {len(force_filenames)}")
 
+    if "first_atoms" in disp_dataset and not check_number_of_force_files(
+        num_disps, force_filenames, disp_filename
+    ):  # type-1
+        return {"forces": []}
+
     calc_dataset = get_calc_dataset(
         interface_mode,
         num_atoms,
@@ -383,7 +388,7 @@ def _get_force_sets_fc3(
     if "first_atoms" in disp_dataset and not check_number_of_force_files(
         num_disps, force_filenames, disp_filename
     ):  # type-1
-        calc_dataset = {"forces": []}
+        return {"forces": []}
     else:  # type-2
         if interface_mode == "wien2k":
             calc_dataset = get_fc3_calc_dataset_wien2k(
-- 
2.43.0


From 7a96316a3abab5fe07a75494ba5364ce05a8abc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 30/69] fix: forget phonons at Gamma of previous dynamical
 matrix

Interaction.init_dynamical_matrix called again (e.g., by setting nac_params)
kept the Gamma phonons of the first dynamical matrix.
---
 phono3py/phonon3/interaction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 25bfe6e..96034e1 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -1041,6 +1041,9 @@ class Interaction:
             (num_grid, num_band, num_band), dtype=complex_dtype, order="C"
         )
         gp_Gamma = self._bz_grid.gp_Gamma
+        # Phonons stored by previous dynamical matrix must not be reused.
+        self._frequencies_at_gamma = None
+        self._eigenvectors_at_gamma = None
         self.run_phonon_solver_at_gamma()
         self._frequencies_at_gamma = self._frequencies[gp_Gamma].copy()
         self._eigenvectors_at_gamma = self._eigenvectors[gp_Gamma].copy()
-- 
2.43.0


From 26d127fee8043e88e1b9d006149d17779daf2bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 31/69] fix: keep phonons set at Gamma when no NAC direction is
 given

Without nac_q_direction there is nothing to recalculate at Gamma, but the
phonons at Gamma set by Interaction.set_phonon_data were overwritten.
---
 phono3py/phonon3/interaction.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 96034e1..79d9585 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -734,10 +734,15 @@ class Interaction:
             otherwise without NAC. Default is False.
 
         """
+        if self._nac_q_direction is None:
+            is_nac = False
+
         if not is_nac and self._frequencies_at_gamma is not None:
             gp_Gamma = self._bz_grid.gp_Gamma
             self._frequencies[gp_Gamma] = self._frequencies_at_gamma
             self._eigenvectors[gp_Gamma] = self._eigenvectors_at_gamma
+            self._phonon_done[gp_Gamma] = 1
+            self._done_nac_at_gamma = False
             return
 
         self._phonon_done[self._bz_grid.gp_Gamma] = 0
-- 
2.43.0


From 1edbe114759804265cd7d0752049af8235647e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 32/69] fix: update phonons at Gamma for NAC direction also
 without mesh symmetry

---
 phono3py/phonon3/interaction.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 79d9585..1a288dd 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -618,21 +618,21 @@ class Interaction:
                     ir_map_at_q,
                 ) = get_triplets_at_q(grid_point, self._bz_grid)
 
-            # Re-calculate phonon at Gamma-point when q-direction is given.
-            if (self._bz_grid.addresses[grid_point] == 0).all():
-                self.run_phonon_solver_at_gamma(is_nac=True)
-            elif self._done_nac_at_gamma:
-                if self._nac_q_direction is None:
-                    self.run_phonon_solver_at_gamma()
-                else:
-                    msg = (
-                        "Phonons at Gamma has been calculated with NAC, "
-                        "but ph-ph interaction is expected to calculate at "
-                        "non-Gamma point. Setting Interaction.nac_q_direction = "
-                        "None, can avoid raising this exception to re-run phonon "
-                        "calculation at Gamma without NAC."
-                    )
-                    raise RuntimeError(msg)
+        # Re-calculate phonon at Gamma-point when q-direction is given.
+        if (self._bz_grid.addresses[grid_point] == 0).all():
+            self.run_phonon_solver_at_gamma(is_nac=True)
+        elif self._done_nac_at_gamma:
+            if self._nac_q_direction is None:
+                self.run_phonon_solver_at_gamma()
+            else:
+                msg = (
+                    "Phonons at Gamma has been calculated with NAC, "
+                    "but ph-ph interaction is expected to calculate at "
+                    "non-Gamma point. Setting Interaction.nac_q_direction = "
+                    "None, can avoid raising this exception to re-run phonon "
+                    "calculation at Gamma without NAC."
+                )
+                raise RuntimeError(msg)
 
         reciprocal_lattice = np.linalg.inv(self._primitive.cell)
         for triplet in triplets_at_q:
-- 
2.43.0


From 6e5f553b77e9d875140b54ac0dd5f11953bfecbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 33/69] fix: do not rescale Interaction.nac_q_direction in
 set_grid_point

---
 phono3py/phonon3/interaction.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 1a288dd..e5f7698 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -593,9 +593,8 @@ class Interaction:
                 self._bz_grid.addresses[grid_point] == 0
             ).all() and self._nac_q_direction is not None:
                 rotations = []
+                dq = self._nac_q_direction / np.linalg.norm(self._nac_q_direction)
                 for i, r in enumerate(self._bz_grid.reciprocal_operations):
-                    dq = self._nac_q_direction
-                    dq /= np.linalg.norm(dq)
                     diff = np.dot(r, dq) - dq
                     if (abs(diff) < 1e-5).all():
                         rotations.append(self._bz_grid.rotations[i])
-- 
2.43.0


From d77443dd49af38126f542f91e34c8c4cf5261bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 34/69] fix: accept None to unset frequency points

---
 phono3py/phonon3/joint_dos.py        | 5 ++++-
 phono3py/phonon3/real_self_energy.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/phono3py/phonon3/joint_dos.py b/phono3py/phonon3/joint_dos.py
index 37c32a2..49ef2ea 100644
--- a/phono3py/phonon3/joint_dos.py
+++ b/phono3py/phonon3/joint_dos.py
@@ -139,7 +139,10 @@ class JointDos:
 
     @frequency_points.setter
     def frequency_points(self, frequency_points):
-        self._frequency_points = np.array(frequency_points, dtype="double")
+        if frequency_points is None:
+            self._frequency_points = None
+        else:
+            self._frequency_points = np.array(frequency_points, dtype="double")
 
     def get_frequency_points(self):
         """Return frequency points."""
diff --git a/phono3py/phonon3/real_self_energy.py b/phono3py/phonon3/real_self_energy.py
index 595c985..3218342 100644
--- a/phono3py/phonon3/real_self_energy.py
+++ b/phono3py/phonon3/real_self_energy.py
@@ -216,7 +216,10 @@ class RealSelfEnergy:
 
     @frequency_points.setter
     def frequency_points(self, frequency_points):
-        self._frequency_points = np.array(frequency_points, dtype="double")
+        if frequency_points is None:
+            self._frequency_points = None
+        else:
+            self._frequency_points = np.array(frequency_points, dtype="double")
 
     def _run_with_band_indices(self):
         if self._lang == "C":
-- 
2.43.0


From a128960464471e6ec6b8bd9112c03a50ec35e976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 35/69] fix: use phonons at Gamma without NAC direction in
 conductivities

Phonons at Gamma calculated with a NAC direction by preceding calculations
entered the conductivity although the direction is not used there.
---
 phono3py/conductivity/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phono3py/conductivity/base.py b/phono3py/conductivity/base.py
index c2b3124..89ff5b0 100644
--- a/phono3py/conductivity/base.py
+++ b/phono3py/conductivity/base.py
@@ -361,6 +361,8 @@ class ConductivityBase(ABC):
         ) = self._pp.get_phonons()
         if (self._phonon_done == 0).any():
             self._pp.run_phonon_solver()
+        # Phonons at Gamma may have been calculated with a NAC direction.
+        self._pp.run_phonon_solver_at_gamma()
 
         self._is_isotope = is_isotope
         if mass_variances is not None:
-- 
2.43.0


From 5bc142c209c1321582c8385cb596aa15e6821cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 36/69] fix: keep NAC direction of init_phph_interaction after
 run_thermal_conductivity

---
 phono3py/api_phono3py.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 6a8f77f..6a72618 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2123,6 +2123,9 @@ class Phono3py:
         else:
             _log_level = log_level
 
+        # NAC direction is not used in conductivities, which unset it.
+        nac_q_direction = self._interaction.nac_q_direction
+
         if is_LBTE:
             if temperatures is None:
                 _temperatures = [
@@ -2191,6 +2194,8 @@ class Phono3py:
                 log_level=_log_level,
             )
 
+        self._interaction.nac_q_direction = nac_q_direction
+
     def save(
         self, filename: str = "phono3py_params.yaml", settings: Optional[dict] = None
     ):
-- 
2.43.0


From 5f7de5ee0310de1d27a0e6eae63470a0e276bf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 37/69] fix: recalculate phonons for isotope scattering with
 new dynamical matrix

---
 phono3py/other/isotope.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phono3py/other/isotope.py b/phono3py/other/isotope.py
index ab1fd23..e4b4838 100644
--- a/phono3py/other/isotope.py
+++ b/phono3py/other/isotope.py
@@ -233,6 +233,7 @@ class Isotope:
             frequency_scale_factor=frequency_scale_factor,
             decimals=decimals,
         )
+        self._phonon_done = None
 
     def set_nac_q_direction(self, nac_q_direction=None):
         """Set q-direction at q->0 used for NAC."""
-- 
2.43.0


From c65583ae41573323a944dea5afadd19097d885d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 38/69] fix: Phono3pyIsotope.set_sigma called nonexistent
 method

---
 phono3py/api_isotope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/api_isotope.py b/phono3py/api_isotope.py
index f5df86a..7703075 100644
--- a/phono3py/api_isotope.py
+++ b/phono3py/api_isotope.py
@@ -161,4 +161,4 @@ class Phono3pyIsotope:
 
     def set_sigma(self, sigma):
         """Set sigma. None means tetrahedron method."""
-        self._iso.set_sigma(sigma)
+        self._sigmas = [sigma]
-- 
2.43.0


From db8b8001fcd735dc7d6efa23e016aff44bac0985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 39/69] fix: JointDos.get_mesh_numbers used nonexistent
 attribute

---
 phono3py/phonon3/joint_dos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/phonon3/joint_dos.py b/phono3py/phonon3/joint_dos.py
index 49ef2ea..0ee477f 100644
--- a/phono3py/phonon3/joint_dos.py
+++ b/phono3py/phonon3/joint_dos.py
@@ -178,7 +178,7 @@ class JointDos:
     def get_mesh_numbers(self):
         """Return mesh numbers by three integer values."""
         warnings.warn("Use attribute, mesh_numbers", DeprecationWarning, stacklevel=2)
-        return self.mesh
+        return self.mesh_numbers
 
     @property
     def nac_q_direction(self):
-- 
2.43.0


From d1fb3eb7ae588824cda24bf47fc7478bbcf3a371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 40/69] fix: forget NAC direction at Gamma in JointDos when it
 is unset

---
 phono3py/phonon3/joint_dos.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phono3py/phonon3/joint_dos.py b/phono3py/phonon3/joint_dos.py
index 0ee477f..951d091 100644
--- a/phono3py/phonon3/joint_dos.py
+++ b/phono3py/phonon3/joint_dos.py
@@ -252,6 +252,9 @@ class JointDos:
             if self._nac_q_direction is not None:
                 self._done_nac_at_gamma = True
                 self._phonon_done[gamma_gp] = 0
+            elif self._done_nac_at_gamma:
+                self._done_nac_at_gamma = False
+                self._phonon_done[gamma_gp] = 0
         elif self._done_nac_at_gamma:
             if self._nac_q_direction is None:
                 self._done_nac_at_gamma = False
-- 
2.43.0


From 55797ab1febda5c98b99f55d30bfb02de7dda7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 41/69] fix: create JointDos on the grid of the given mesh

Phono3pyJointDos.initialize used the previous grid or None.
---
 phono3py/api_jointdos.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/phono3py/api_jointdos.py b/phono3py/api_jointdos.py
index 33b08da..235e679 100644
--- a/phono3py/api_jointdos.py
+++ b/phono3py/api_jointdos.py
@@ -109,7 +109,6 @@ class Phono3pyJointDos:
         )
 
         if mesh is not None:
-            self.mesh_numbers = mesh
             self.initialize(mesh)
 
     @property
@@ -160,20 +159,6 @@ class Phono3pyJointDos:
 
     def initialize(self, mesh_numbers):
         """Initialize JointDos."""
-        self._jdos = JointDos(
-            self._primitive,
-            self._supercell,
-            self._bz_grid,
-            self._fc2,
-            nac_params=self._nac_params,
-            cutoff_frequency=self._cutoff_frequency,
-            frequency_factor_to_THz=self._frequency_factor_to_THz,
-            frequency_scale_factor=self._frequency_scale_factor,
-            is_mesh_symmetry=self._is_mesh_symmetry,
-            symprec=self._symprec,
-            filename=self._filename,
-            log_level=self._log_level,
-        )
         if self._log_level:
             print("Generating grid system ... ", end="", flush=True)
 
@@ -193,6 +178,21 @@ class Phono3pyJointDos:
                 print("  [ %d %d %d ]" % tuple(self._bz_grid.grid_matrix[1]))
                 print("  [ %d %d %d ]" % tuple(self._bz_grid.grid_matrix[2]))
 
+        self._jdos = JointDos(
+            self._primitive,
+            self._supercell,
+            self._bz_grid,
+            self._fc2,
+            nac_params=self._nac_params,
+            cutoff_frequency=self._cutoff_frequency,
+            frequency_factor_to_THz=self._frequency_factor_to_THz,
+            frequency_scale_factor=self._frequency_scale_factor,
+            is_mesh_symmetry=self._is_mesh_symmetry,
+            symprec=self._symprec,
+            filename=self._filename,
+            log_level=self._log_level,
+        )
+
     def run(self, grid_points, write_jdos=False):
         """Calculate joint-density-of-states."""
         if self._log_level:
-- 
2.43.0


From 548ebca9b0272c0a4cdc1ad4cb3e33e603fa930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 42/69] fix: Gruneisen parameters with compact force constants

---
 phono3py/phonon3/gruneisen.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/phono3py/phonon3/gruneisen.py b/phono3py/phonon3/gruneisen.py
index 9f6a7b4..89d0527 100644
--- a/phono3py/phonon3/gruneisen.py
+++ b/phono3py/phonon3/gruneisen.py
@@ -403,7 +403,10 @@ class Gruneisen:
         fc3 = self._fc3
         num_atom_prim = len(self._pcell)
         num_atom_super = len(self._scell)
-        p2s = self._pcell.p2s_map
+        if fc3.shape[0] == fc3.shape[1]:
+            fc3_index = self._pcell.p2s_map
+        else:  # compact fc3
+            fc3_index = np.arange(num_atom_prim)
         dPhidu = np.zeros((num_atom_prim, num_atom_super, 3, 3, 3, 3), dtype=float)
 
         for nu in range(num_atom_prim):
@@ -415,7 +418,7 @@ class Gruneisen:
                             for ll in range(3):
                                 for _ in range(3):
                                     dPhidu[nu, pi, i, j, k, ll] = (
-                                        fc3[p2s[nu], pi, :, i, j, :] * Y[:, :, k, ll]
+                                        fc3[fc3_index[nu], pi, :, i, j, :] * Y[:, :, k, ll]
                                     ).sum()
                                     # Symmetrization?
                                     # (Y[:,:,k,l] + Y[:,:,l,k]) / 2).sum()
@@ -442,11 +445,14 @@ class Gruneisen:
     def _get_X(self):
         num_atom_super = len(self._scell)
         num_atom_prim = len(self._pcell)
-        p2s = self._pcell.p2s_map
         lat = self._pcell.cell
         X = np.zeros((num_atom_prim, 3, 3, 3), dtype=float)
         G = self._get_Gamma()
         P = self._fc2
+        if P.shape[0] == P.shape[1]:
+            fc2_index = self._pcell.p2s_map
+        else:  # compact fc2
+            fc2_index = np.arange(num_atom_prim)
 
         for mu in range(num_atom_prim):
             for nu in range(num_atom_prim):
@@ -456,7 +462,7 @@ class Gruneisen:
                         for k in range(3):
                             for ll in range(3):
                                 X[mu, i, j, k] -= G[mu, nu, i, ll] * np.dot(
-                                    P[p2s[nu], :, ll, j], R[:, k]
+                                    P[fc2_index[nu], :, ll, j], R[:, k]
                                 )
 
         return X
-- 
2.43.0


From be6824e965fb65db26ff09c6edb5670f8e4f2c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 43/69] fix: exclude acoustic modes in Gruneisen with imaginary
 optical modes

---
 phono3py/phonon3/gruneisen.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/phono3py/phonon3/gruneisen.py b/phono3py/phonon3/gruneisen.py
index 89d0527..c815985 100644
--- a/phono3py/phonon3/gruneisen.py
+++ b/phono3py/phonon3/gruneisen.py
@@ -418,7 +418,8 @@ class Gruneisen:
                             for ll in range(3):
                                 for _ in range(3):
                                     dPhidu[nu, pi, i, j, k, ll] = (
-                                        fc3[fc3_index[nu], pi, :, i, j, :] * Y[:, :, k, ll]
+                                        fc3[fc3_index[nu], pi, :, i, j, :]
+                                        * Y[:, :, k, ll]
                                     ).sum()
                                     # Symmetrization?
                                     # (Y[:,:,k,l] + Y[:,:,l,k]) / 2).sum()
@@ -483,18 +484,22 @@ class Gruneisen:
         self._dm.run([0, 0, 0])
         vals, vecs = np.linalg.eigh(self._dm.dynamical_matrix.real)
         G = np.zeros((num_atom_prim, num_atom_prim, 3, 3), dtype=float)
+        # Acoustic modes are not necessarily the lowest three when there are
+        # imaginary optical modes.
+        optical = np.sort(np.argsort(np.abs(vals), kind="stable")[3:])
 
         for pi in range(num_atom_prim):
             for mu in range(num_atom_prim):
                 for k in range(3):
                     for i in range(3):
                         # Eigenvectors are real.
-                        # 3: means optical modes
                         G[pi, mu, k, i] = (
                             1.0
                             / np.sqrt(m[pi] * m[mu])
                             * (
-                                vecs[pi * 3 + k, 3:] * vecs[mu * 3 + i, 3:] / vals[3:]
+                                vecs[pi * 3 + k, optical]
+                                * vecs[mu * 3 + i, optical]
+                                / vals[optical]
                             ).sum()
                         )
         return G
-- 
2.43.0


From 3d74018a96d1810d5b2bd6870fac7e0d901e4c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 44/69] fix: use NAC direction only at Gamma in Wang's method

---
 c/phonon.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/c/phonon.c b/c/phonon.c
index e0f707d..a74eccd 100644
--- a/c/phonon.c
+++ b/c/phonon.c
@@ -97,6 +97,7 @@ static void get_charge_sum(double (*charge_sum)[3][3], const int64_t num_patom,
 static int64_t needs_nac(const double (*born)[3][3],
                          const int64_t (*grid_address)[3], const int64_t gp,
                          const double *q_direction);
+static int64_t is_gamma(const int64_t grid_address[3]);
 
 void phn_get_phonons_at_gridpoints(
     double *frequencies, lapack_complex_double *eigenvectors, char *phonon_done,
@@ -207,10 +208,12 @@ static void get_undone_phonons(
         }
 
         is_nac = needs_nac(born, grid_address, gp, q_direction);
-        get_dynamical_matrix(eigenvectors + num_band * num_band * gp, q, fc2,
-                             masses_fc2, p2s_fc2, s2p_fc2, multi_fc2, num_patom,
-                             num_satom, svecs_fc2, is_nac, born, dielectric,
-                             reciprocal_lattice, q_direction, nac_factor);
+        /* q_direction is used only at Gamma point. */
+        get_dynamical_matrix(
+            eigenvectors + num_band * num_band * gp, q, fc2, masses_fc2,
+            p2s_fc2, s2p_fc2, multi_fc2, num_patom, num_satom, svecs_fc2,
+            is_nac, born, dielectric, reciprocal_lattice,
+            is_gamma(grid_address[gp]) ? q_direction : NULL, nac_factor);
     }
 
 #ifndef NO_INCLUDE_LAPACKE
@@ -448,8 +451,7 @@ static int64_t needs_nac(const double (*born)[3][3],
     int64_t is_nac;
 
     if (born) {
-        if (grid_address[gp][0] == 0 && grid_address[gp][1] == 0 &&
-            grid_address[gp][2] == 0 && q_direction == NULL) {
+        if (is_gamma(grid_address[gp]) && q_direction == NULL) {
             is_nac = 0;
         } else {
             is_nac = 1;
@@ -460,3 +462,7 @@ static int64_t needs_nac(const double (*born)[3][3],
 
     return is_nac;
 }
+
+static int64_t is_gamma(const int64_t grid_address[3]) {
+    return grid_address[0] == 0 && grid_address[1] == 0 && grid_address[2] == 0;
+}
-- 
2.43.0


From cc44b35901421a97d2ad11e8ae87d015c2467d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:32 +0000
Subject: [PATCH 45/69] fix: do not average off-diagonal group velocity matrix
 over site symmetry

---
 phono3py/phonon/group_velocity_matrix.py | 40 +++---------------------
 1 file changed, 5 insertions(+), 35 deletions(-)

diff --git a/phono3py/phonon/group_velocity_matrix.py b/phono3py/phonon/group_velocity_matrix.py
index 1f07a4d..796f75e 100644
--- a/phono3py/phonon/group_velocity_matrix.py
+++ b/phono3py/phonon/group_velocity_matrix.py
@@ -38,7 +38,6 @@ import numpy as np
 from phonopy.phonon.degeneracy import degenerate_sets
 from phonopy.phonon.group_velocity import GroupVelocity
 from phonopy.units import VaspToTHz
-from phonopy.utils import similarity_transformation
 
 
 class GroupVelocityMatrix(GroupVelocity):
@@ -150,40 +149,11 @@ class GroupVelocityMatrix(GroupVelocity):
             ddm = ddm * (self._factor**2)
             gvm[i] = np.dot(rot_eigvecs.T.conj(), np.dot(ddm, rot_eigvecs))
 
-        if self._perturbation is None:
-            if self._symmetry is None:
-                return gvm
-            else:
-                return self._symmetrize_group_velocity_matrix(gvm, q)
-        else:
-            return gvm
-
-    def _symmetrize_group_velocity_matrix(self, gvm, q):
-        """Symmetrize obtained group velocity matrices.
-
-        The following symmetries are applied:
-            1. site symmetries
-            2. band hermicity
-
-        """
-        # site symmetries
-        rotations = []
-        for r in self._symmetry.reciprocal_operations:
-            q_in_BZ = q - np.rint(q)
-            diff = q_in_BZ - np.dot(r, q_in_BZ)
-            if (np.abs(diff) < self._symmetry.tolerance).all():
-                rotations.append(r)
-
-        gvm_sym = np.zeros_like(gvm)
-        for r in rotations:
-            r_cart = similarity_transformation(self._reciprocal_lattice, r)
-            gvm_sym += np.einsum("ij,jkl->ikl", r_cart, gvm)
-        gvm_sym = gvm_sym / len(rotations)
-
-        # band hermicity
-        gvm_sym = (gvm_sym + gvm_sym.transpose(0, 2, 1).conj()) / 2
-
-        return gvm_sym
+        # Matrix elements between different bands acquire phases (or unitary
+        # matrices for degenerate bands) of the eigenvectors by site-symmetry
+        # operations. Therefore they can not be averaged as vectors over the
+        # operations, and only the band hermicity is imposed here.
+        return (gvm + gvm.transpose(0, 2, 1).conj()) / 2
 
     def _rot_eigsets(self, ddms, eigsets):
         """Treat degeneracy.
-- 
2.43.0


From a82a77a8e207f2838e62653db0375e464113668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:11 +0000
Subject: [PATCH 46/69] fix: exclude modes below cutoff in Python isotope
 scattering as in C

---
 phono3py/other/isotope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phono3py/other/isotope.py b/phono3py/other/isotope.py
index e4b4838..81865ba 100644
--- a/phono3py/other/isotope.py
+++ b/phono3py/other/isotope.py
@@ -350,6 +350,9 @@ class Isotope:
         for i, bi in enumerate(self._band_indices):
             vec0 = self._eigenvectors[self._grid_point][:, bi].conj()
             f0 = self._frequencies[self._grid_point][bi]
+            if f0 < self._cutoff_frequency:
+                t_inv.append(0.0)
+                continue
             ti_sum = 0.0
             for gp in self._bz_grid.grg2bzg:
                 for j, (f, vec) in enumerate(
-- 
2.43.0


From 69725b694aa0a661b087f6cb82df039055854047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:16 +0000
Subject: [PATCH 47/69] fix: skip acoustic modes of soft crystals in Gruneisen
 parameters at Gamma

---
 phono3py/phonon3/gruneisen.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/phono3py/phonon3/gruneisen.py b/phono3py/phonon3/gruneisen.py
index c815985..df3912e 100644
--- a/phono3py/phonon3/gruneisen.py
+++ b/phono3py/phonon3/gruneisen.py
@@ -354,8 +354,15 @@ class Gruneisen:
         num_atom_prim = len(self._pcell)
         dDdu = self._get_dDdu(q)
 
+        # Acoustic modes at Gamma, which are not necessarily the lowest three
+        # when there are imaginary optical modes.
+        if (np.abs(q) < 1e-5).all():
+            acoustic = np.argsort(np.abs(omega2), kind="stable")[:3]
+        else:
+            acoustic = []
+
         for s in range(len(omega2)):
-            if (np.abs(q) < 1e-5).all() and s < 3:
+            if s in acoustic:
                 continue
             for i in range(3):
                 for j in range(3):
-- 
2.43.0


From 09bce84c33dc88cda55a9343c363d79f8249d7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:16 +0000
Subject: [PATCH 48/69] fix: detect different supercells of compact force
 constants in Gruneisen run

---
 phono3py/cui/phono3py_script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/cui/phono3py_script.py b/phono3py/cui/phono3py_script.py
index 996374c..b699e1f 100644
--- a/phono3py/cui/phono3py_script.py
+++ b/phono3py/cui/phono3py_script.py
@@ -701,7 +701,7 @@ def run_gruneisen_then_exit(phono3py, settings, output_filename, log_level):
             print_error()
         sys.exit(1)
 
-    if len(phono3py.fc2) != len(phono3py.fc3):
+    if phono3py.fc2.shape[1] != phono3py.fc3.shape[1]:
         print("Supercells used for fc2 and fc3 have to be same.")
         if log_level:
             print_error()
-- 
2.43.0


From 417a2de4ecd3876392e7a3c69da0100d5a112323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 49/69] fix: phono3py-kaccum crash with --pqj, --gv-norm and
 --gruneisen

---
 phono3py/cui/kaccum_script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/cui/kaccum_script.py b/phono3py/cui/kaccum_script.py
index e452ade..f2f4fe6 100644
--- a/phono3py/cui/kaccum_script.py
+++ b/phono3py/cui/kaccum_script.py
@@ -38,7 +38,7 @@ def _show_tensor(kdos, temperatures, sampling_points, args):
 def _show_scalar(gdos, temperatures, sampling_points, args):
     """Show scalar values."""
     if args.pqj or args.gruneisen or args.gv_norm:
-        for f, g in zip(sampling_points, gdos[0]):
+        for f, g in zip(sampling_points[0], gdos[0]):
             print("%f %e %e" % (f, g[0], g[1]))
     else:
         for i, gdos_t in enumerate(gdos):
-- 
2.43.0


From 04c3ca177c9a6ab4dcd440dbfc9175632a14a4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 50/69] fix: phono3py-kaccum --no-gridsym for phonon-xxx.hdf5

---
 phono3py/cui/kaccum_script.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phono3py/cui/kaccum_script.py b/phono3py/cui/kaccum_script.py
index f2f4fe6..3398516 100644
--- a/phono3py/cui/kaccum_script.py
+++ b/phono3py/cui/kaccum_script.py
@@ -293,6 +293,9 @@ def _collect_data(
     else:
         print("# Read frequency.")
         frequencies = f_kappa["frequency"][:]
+        if "ir_grid_weights" in f_kappa:
+            # Frequencies in "phonon-xxx.hdf5" are stored in BZ-grid.
+            frequencies = frequencies[bz_grid.grg2bzg]
         ir_weights = np.ones(len(frequencies), dtype="int64")
 
     # ir_grid_points (GR-grid), ir_grid_map (GR-grid)
-- 
2.43.0


From 38d530a740391385635ee46d6f4c4926ac45759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 51/69] fix: use given sigma in GammaDOSsmearing

---
 phono3py/other/kaccum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/other/kaccum.py b/phono3py/other/kaccum.py
index d3c43a3..390be8a 100644
--- a/phono3py/other/kaccum.py
+++ b/phono3py/other/kaccum.py
@@ -230,7 +230,7 @@ class GammaDOSsmearing:
                 max(self._frequency_points) - min(self._frequency_points)
             ) / 100
         else:
-            self._sigma = 0.1
+            self._sigma = sigma
         self._smearing_function = NormalDistribution(self._sigma)
         self._run_smearing_method()
 
-- 
2.43.0


From 4b8fbe55f5c1151fbc50a906a296be99c7029960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 52/69] fix: phono3py-kaccum --dos --smearing for
 phonon-xxx.hdf5

---
 phono3py/cui/kaccum_script.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/phono3py/cui/kaccum_script.py b/phono3py/cui/kaccum_script.py
index 3398516..74f499e 100644
--- a/phono3py/cui/kaccum_script.py
+++ b/phono3py/cui/kaccum_script.py
@@ -126,7 +126,7 @@ def _assert_grid_in_hdf5(
         np.testing.assert_allclose(diff_q, 0, atol=1e-5)
 
 
-def _get_mode_property(args, f_kappa):
+def _get_mode_property(args, f_kappa, frequencies):
     """Read property data from hdf5 file object."""
     if args.pqj:
         mode_prop = f_kappa["ave_pp"][:].reshape((1,) + f_kappa["ave_pp"].shape)
@@ -145,9 +145,7 @@ def _get_mode_property(args, f_kappa):
         mode_prop = f_kappa["gruneisen"][:].reshape((1,) + f_kappa["gruneisen"].shape)
         mode_prop **= 2
     elif args.dos:
-        mode_prop = np.ones(
-            (1,) + f_kappa["frequency"].shape, dtype="double", order="C"
-        )
+        mode_prop = np.ones((1,) + frequencies.shape, dtype="double", order="C")
     else:
         raise RuntimeError("No property target is specified.")
     return mode_prop
@@ -328,7 +326,7 @@ def _run_scalar(
     ir_grid_points: Optional[np.ndarray],
     bz_grid: BZGrid,
 ):
-    mode_prop = _get_mode_property(args, f_kappa)
+    mode_prop = _get_mode_property(args, f_kappa, frequencies)
 
     if args.temperature is not None and not (
         args.gv_norm or args.pqj or args.gruneisen or args.dos
-- 
2.43.0


From 645c7e5498b792405fb0e32a36401a6051edaac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 53/69] fix: last sampling point of cumulative values for long
 mean free paths

---
 phono3py/other/kaccum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phono3py/other/kaccum.py b/phono3py/other/kaccum.py
index 390be8a..5ae5a8c 100644
--- a/phono3py/other/kaccum.py
+++ b/phono3py/other/kaccum.py
@@ -95,7 +95,9 @@ class KappaDOSTHM:
 
         """
         min_freq = min(frequencies.ravel())
-        max_freq = max(frequencies.ravel()) + epsilon
+        max_freq = max(frequencies.ravel())
+        # Relative part is necessary for large values such as mean free paths.
+        max_freq += max(epsilon, max_freq * 1e-12)
         if frequency_points is None:
             self._frequency_points = np.linspace(
                 min_freq, max_freq, num_sampling_points, dtype="double"
-- 
2.43.0


From 892266b0650a7061f718c202ec1c27453e94ad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 54/69] fix: heat capacity matrix of Green-Kubo at low
 temperatures

---
 phono3py/conductivity/kubo.py           |  8 +++-----
 phono3py/phonon/heat_capacity_matrix.py | 11 ++++++-----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/phono3py/conductivity/kubo.py b/phono3py/conductivity/kubo.py
index 34da628..82f6aef 100644
--- a/phono3py/conductivity/kubo.py
+++ b/phono3py/conductivity/kubo.py
@@ -35,7 +35,7 @@
 # POSSIBILITY OF SUCH DAMAGE.
 
 import numpy as np
-from phonopy.units import Kb, THzToEv
+from phonopy.units import THzToEv
 
 from phono3py.phonon.group_velocity_matrix import GroupVelocityMatrix
 from phono3py.phonon.heat_capacity_matrix import mode_cv_matrix
@@ -65,9 +65,7 @@ class ConductivityKuboMixIn:
     def _set_cv(self, i_gp, i_data):
         """Set heat capacity matrix.
 
-        x=freq/T has to be small enough to avoid overflow of exp(x).
-        x < 100 is the hard-corded criterion.
-        Otherwise just set 0.
+        Elements are zero at 0 K.
 
         """
         irgp = self._grid_points[i_gp]
@@ -75,7 +73,7 @@ class ConductivityKuboMixIn:
         cutoff = self._pp.cutoff_frequency * THzToEv
 
         for i_temp, temp in enumerate(self._temperatures):
-            if (freqs / (temp * Kb) > 100).any():
+            if temp <= 0:
                 continue
             cvm = mode_cv_matrix(temp, freqs, cutoff=cutoff)
             self._cv_mat[i_temp, i_data] = cvm[self._pp.band_indices, :]
diff --git a/phono3py/phonon/heat_capacity_matrix.py b/phono3py/phonon/heat_capacity_matrix.py
index 05056de..762bc5c 100644
--- a/phono3py/phonon/heat_capacity_matrix.py
+++ b/phono3py/phonon/heat_capacity_matrix.py
@@ -70,12 +70,13 @@ def mode_cv_matrix(temp, freqs, cutoff=1e-4):
     x = freqs / Kb / temp
     shape = (len(freqs), len(freqs))
     cvm = np.zeros(shape, dtype="double", order="C")
+    # (e^{x_i - x_j} - 1) n_i (n_j + 1) = n_j - n_i, where n vanishes for large x.
+    with np.errstate(over="ignore", divide="ignore"):
+        n = 1 / np.expm1(x)
     for i, j in np.ndindex(shape):
         if abs(freqs[i] - freqs[j]) < cutoff:
-            cvm[i, j] = mode_cv(temp, freqs[i])
+            # Avoid overflow of exp(x) in mode_cv.
+            cvm[i, j] = mode_cv(temp, freqs[i]) if x[i] < 100 else 0
             continue
-        sub = x[i] - x[j]
-        add = x[i] + x[j]
-        n_inv = np.exp([x[i], x[j], sub]) - 1
-        cvm[i, j] = Kb * n_inv[2] / sub * (add / 2) ** 2 / n_inv[0] * (1 / n_inv[1] + 1)
+        cvm[i, j] = Kb * (n[j] - n[i]) / (x[i] - x[j]) * ((x[i] + x[j]) / 2) ** 2
     return cvm
-- 
2.43.0


From 603fd0e20668b7872abcc748efb7005d47f54643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 55/69] fix: set total conductivities of Wigner direct solution

---
 phono3py/conductivity/direct_solution.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index 83f480e..5c55abb 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -1575,6 +1575,13 @@ class ConductivityWignerLBTE(ConductivityWignerMixIn, ConductivityLBTEBase):
 
                     self._set_kappa(j, k, weights)
 
+                    self._kappa_TOT_RTA[j, k] = (
+                        self._kappa_P_RTA[j, k] + self._kappa_C[j, k]
+                    )
+                    self._kappa_TOT_exact[j, k] = (
+                        self._kappa_P_exact[j, k] + self._kappa_C[j, k]
+                    )
+
                     if self._log_level:
                         print(
                             ("#%6s       " + " %-10s" * 6)
-- 
2.43.0


From ecd93120046e993c3e79358fa4964467ed8d05fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 56/69] fix: NaN of Wigner conductivity when linewidths vanish

---
 phono3py/conductivity/rta.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index 6e60d00..ff53982 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -750,13 +750,17 @@ class ConductivityWignerRTA(ConductivityWignerMixIn, ConductivityRTABase):
                                 hbar_gamma_eV_s1 = 2.0 * g_sum[s1] * THzToEv
                                 hbar_gamma_eV_s2 = 2.0 * g_sum[s2] * THzToEv
                                 #
+                                denominator = (
+                                    hbar_omega_eV_s1 - hbar_omega_eV_s2
+                                ) ** 2 + 0.25 * (
+                                    (hbar_gamma_eV_s1 + hbar_gamma_eV_s2) ** 2
+                                )
+                                if denominator == 0:
+                                    # Lorentzian is undefined without linewidth.
+                                    continue
                                 lorentzian_divided_by_hbar = (
                                     0.5 * (hbar_gamma_eV_s1 + hbar_gamma_eV_s2)
-                                ) / (
-                                    (hbar_omega_eV_s1 - hbar_omega_eV_s2) ** 2
-                                    + 0.25
-                                    * ((hbar_gamma_eV_s1 + hbar_gamma_eV_s2) ** 2)
-                                )
+                                ) / denominator
                                 #
                                 prefactor = (
                                     0.25
-- 
2.43.0


From a83ab05fc8954ac0464ee9674d1351b6e87c2410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 57/69] fix: Green-Kubo conductivity at q-points with modes
 below cutoff

---
 phono3py/conductivity/rta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index ff53982..ba06f73 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -934,7 +934,7 @@ class ConductivityKuboRTA(ConductivityKuboMixIn, ConductivityRTABase):
         cvm = self._cv_mat[k, i_gp]
         for j_band, freq in enumerate(frequencies):
             if freq < self._pp.cutoff_frequency:
-                return
+                continue
 
             g = g_sum[i_band] + g_sum[j_band]
             for i_pair, _ in enumerate(
-- 
2.43.0


From fd9630a5f07e4dc51197595c19ab8378c92097de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 58/69] fix: sigma_squared at low temperatures

---
 phono3py/phonon/func.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/phono3py/phonon/func.py b/phono3py/phonon/func.py
index 434feef..c8cb112 100644
--- a/phono3py/phonon/func.py
+++ b/phono3py/phonon/func.py
@@ -90,16 +90,11 @@ def sigma_squared(x, T):
     Values in [AMU * Angstrom^2]
 
     """
-    #####################################
-    old_settings = np.seterr(all="raise")
-    #####################################
+    factor = Hbar * EV / (2 * np.pi * THz) / AMU / Angstrom**2  # ~1.01075768
+    if T == 0:
+        return 0.5 / x * factor
 
-    n = bose_einstein(x, T)
-    # factor=1.0107576777968994
-    factor = Hbar * EV / (2 * np.pi * THz) / AMU / Angstrom**2
-
-    #########################
-    np.seterr(**old_settings)
-    #########################
+    with np.errstate(all="raise", over="ignore", under="ignore"):
+        n = bose_einstein(x, T)
 
     return (0.5 + n) / x * factor
-- 
2.43.0


From fdfb211158cf6bb55c97f66e4f21660ec6e27138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 59/69] fix: pseudo inverse of rank-deficient displacement
 ensembles in SSCHA

---
 phono3py/sscha/sscha.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phono3py/sscha/sscha.py b/phono3py/sscha/sscha.py
index 37ebe28..331e825 100644
--- a/phono3py/sscha/sscha.py
+++ b/phono3py/sscha/sscha.py
@@ -413,7 +413,7 @@ class SecondOrderFC:
             self._uu.run(T)
             Y = self._uu.upsilon_matrix
         2. From displacements used for the force calculations
-            Y = np.linalg.pinv(np.dot(u.T, u) / u.shape[0])
+            Y = np.linalg.pinv(np.dot(u.T, u) / u.shape[0], rcond=1e-10)
 
         They should give close results, otherwise self-consistency
         is not reached well. The later seems better agreement with
@@ -423,7 +423,7 @@ class SecondOrderFC:
         """
         u = self._displacements
         f = self._forces
-        Y = np.linalg.pinv(np.dot(u.T, u) / u.shape[0])
+        Y = np.linalg.pinv(np.dot(u.T, u) / u.shape[0], rcond=1e-10)
         u_inv = np.dot(u, Y)
 
         if self._log_level:
@@ -548,7 +548,7 @@ class ThirdOrderFC:
         # Y = self._uu.upsilon_matrix
         f = self._fmat
         u = self._displacements
-        Y = np.linalg.pinv(np.dot(u.T, u) / u.shape[0])
+        Y = np.linalg.pinv(np.dot(u.T, u) / u.shape[0], rcond=1e-10)
 
         # This is faster than multiplying Y after ansemble average at least
         # in python implementation.
-- 
2.43.0


From 23b4a86d55e3ceaef7b3a197d920f7f66e33ce53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 60/69] fix: number of grid points asserted in collision matrix
 of debug build

---
 c/_phono3py.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/_phono3py.cpp b/c/_phono3py.cpp
index a5f9735..ec9bc2e 100644
--- a/c/_phono3py.cpp
+++ b/c/_phono3py.cpp
@@ -435,7 +435,7 @@ void py_get_collision_matrix(
     rotations_cartesian = (double *)py_rotations_cartesian.data();
 
     assert(num_rot == py_rotations_cartesian.shape(0));
-    assert(num_gp == py_frequencies.shape(0));
+    assert(num_gp <= (int64_t)py_frequencies.shape(0));
 
     ph3py_get_collision_matrix(collision_matrix, fc3_normal_squared,
                                frequencies, triplets, triplets_map, map_q,
-- 
2.43.0


From ac2376a4a44e08785ccc058f9b6d7929599a669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 61/69] fix: N_U and WRITE_LBTE_SOLUTION tags ignored in
 configuration files

---
 phono3py/cui/settings.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/phono3py/cui/settings.py b/phono3py/cui/settings.py
index a70bc77..cddef52 100644
--- a/phono3py/cui/settings.py
+++ b/phono3py/cui/settings.py
@@ -496,7 +496,7 @@ class Phono3pyConfParser(ConfParser):
 
         if "is_N_U" in self._args:
             if self._args.is_N_U:
-                self._confs["N_U"] = ".true."
+                self._confs["n_u"] = ".true."
 
         if "is_plusminus_displacements_fc2" in self._args:
             if self._args.is_plusminus_displacements_fc2:
@@ -666,7 +666,7 @@ class Phono3pyConfParser(ConfParser):
 
         if "write_LBTE_solution" in self._args:
             if self._args.write_LBTE_solution:
-                self._confs["write_LBTE_solution"] = ".true."
+                self._confs["write_lbte_solution"] = ".true."
 
     def _parse_conf(self):
         ConfParser.parse_conf(self)
@@ -688,7 +688,7 @@ class Phono3pyConfParser(ConfParser):
                 "write_collision",
                 "write_phonon",
                 "write_pp",
-                "write_LBTE_solution",
+                "write_lbte_solution",
                 "full_pp",
                 "ion_clamped",
                 "bterta",
@@ -701,7 +701,7 @@ class Phono3pyConfParser(ConfParser):
                 "isotope",
                 "joint_dos",
                 "lbte",
-                "N_U",
+                "n_u",
                 "spectral_function",
                 "reducible_collision_matrix",
                 "show_symfc_memory_usage",
@@ -950,8 +950,8 @@ class Phono3pyConfParser(ConfParser):
             self._settings.set_num_points_in_batch(params["num_points_in_batch"])
 
         # Calculate Normal and Umklapp processes
-        if "N_U" in params:
-            self._settings.set_is_N_U(params["N_U"])
+        if "n_u" in params:
+            self._settings.set_is_N_U(params["n_u"])
 
         # Plus minus displacement for fc2
         if "pm_fc2" in params:
@@ -1100,5 +1100,5 @@ class Phono3pyConfParser(ConfParser):
             self._settings.set_write_pp(params["write_pp"])
 
         # Write direct solution of LBTE to hdf5 files
-        if "write_LBTE_solution" in params:
-            self._settings.set_write_LBTE_solution(params["write_LBTE_solution"])
+        if "write_lbte_solution" in params:
+            self._settings.set_write_LBTE_solution(params["write_lbte_solution"])
-- 
2.43.0


From afc44f7183a1a1053cde18cc0d045c6773640c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 62/69] fix: p2s_map of fc2.hdf5 for phonon supercell, and fc
 files overwritten after being read, in phono3py-load

---
 phono3py/cui/phono3py_script.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phono3py/cui/phono3py_script.py b/phono3py/cui/phono3py_script.py
index b699e1f..702f55a 100644
--- a/phono3py/cui/phono3py_script.py
+++ b/phono3py/cui/phono3py_script.py
@@ -593,11 +593,11 @@ def _store_force_constants(ph3py: Phono3py, settings: Phono3pySettings, log_leve
     if log_level:
         print("-" * 29 + " Force constants " + "-" * 30)
 
+    load_fc2_and_fc3(ph3py, log_level=log_level)
+
     read_fc3 = ph3py.fc3 is not None
     read_fc2 = ph3py.fc2 is not None
 
-    load_fc2_and_fc3(ph3py, log_level=log_level)
-
     cutoff_pair_distance = get_cutoff_pair_distance(settings)
     (fc_calculator, fc_calculator_options) = get_fc_calculator_params(
         settings, log_level=(not read_fc3) * 1
@@ -668,7 +668,7 @@ def _store_force_constants(ph3py: Phono3py, settings: Phono3pySettings, log_leve
     if not read_fc2:
         write_fc2_to_hdf5(
             ph3py.fc2,
-            p2s_map=ph3py.primitive.p2s_map,
+            p2s_map=ph3py.phonon_primitive.p2s_map,
             physical_unit="eV/angstrom^2",
             compression=settings.hdf5_compression,
         )
-- 
2.43.0


From f2f0efd8f73c9e1a1055e43fd5625006e848699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 63/69] fix: isotope linewidths in collision files written for
 chosen grid points

---
 phono3py/conductivity/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index 9e57a6c..58cd65d 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -434,17 +434,18 @@ class ConductivityLBTEWriter:
 
         if i is not None:
             gp = grid_points[i]
+            if is_reducible_collision_matrix:
+                i_data = interaction.bz_grid.bzg2grg[gp]
+            else:
+                i_data = i
             if is_one_gp_colmat:
                 igp = 0
             else:
-                if is_reducible_collision_matrix:
-                    igp = interaction.bz_grid.bzg2grg[gp]
-                else:
-                    igp = i
+                igp = i_data
             if all_bands_exist(interaction):
                 for j, sigma in enumerate(sigmas):
                     if gamma_isotope is not None:
-                        gamma_isotope_at_sigma = gamma_isotope[j, igp]
+                        gamma_isotope_at_sigma = gamma_isotope[j, i_data]
                     else:
                         gamma_isotope_at_sigma = None
                     write_collision_to_hdf5(
@@ -462,7 +463,7 @@ class ConductivityLBTEWriter:
                 for j, sigma in enumerate(sigmas):
                     for k, bi in enumerate(interaction.band_indices):
                         if gamma_isotope is not None:
-                            gamma_isotope_at_sigma = gamma_isotope[j, igp, k]
+                            gamma_isotope_at_sigma = gamma_isotope[j, i_data, k]
                         else:
                             gamma_isotope_at_sigma = None
                         write_collision_to_hdf5(
-- 
2.43.0


From 08ec5756cfdcfe6c06787629b1d16ff68f106488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 64/69] fix: detailed linewidths with averaged interaction, and
 averages of interaction strengths read from files

---
 phono3py/conductivity/rta.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index ba06f73..c3db235 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -265,6 +265,8 @@ class ConductivityRTABase(ConductivityBase):
                 if _g_zero is not None and (_g_zero != g_zero).any():
                     raise ValueError("Inconsistency found in g_zero.")
                 self._collision.set_interaction_strength(pp)
+                if self._is_full_pp:
+                    self._averaged_pp_interaction[i] = self._pp.averaged_interaction
             elif self._use_ave_pp:
                 self._collision.set_averaged_pp_interaction(
                     self._averaged_pp_interaction[i]
@@ -291,10 +293,17 @@ class ConductivityRTABase(ConductivityBase):
             # So this is allocated each time.
             if self._is_gamma_detail:
                 num_temp = len(self._temperatures)
+                num_band = len(self._pp.primitive) * 3
                 if j == 0:
                     self._gamma_detail_at_q = np.zeros(
-                        (len(self._sigmas), num_temp)
-                        + self._pp.get_interaction_strength().shape,
+                        (
+                            len(self._sigmas),
+                            num_temp,
+                            len(self._pp.get_triplets_at_q()[0]),
+                            len(self._pp.band_indices),
+                            num_band,
+                            num_band,
+                        ),
                         dtype="double",
                         order="C",
                     )
-- 
2.43.0


From 34816de3adefd7da742eecee55feeda7a757d573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 65/69] fix: fc3 missing with --write-phonon and fc calculator
 undefined when only fc2 is needed

---
 phono3py/cui/create_force_constants.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/phono3py/cui/create_force_constants.py b/phono3py/cui/create_force_constants.py
index a7f19c9..66805c6 100644
--- a/phono3py/cui/create_force_constants.py
+++ b/phono3py/cui/create_force_constants.py
@@ -119,6 +119,10 @@ def create_phono3py_force_constants(
     if log_level:
         show_phono3py_force_constants_settings(settings)
 
+    (fc_calculator, fc_calculator_options) = get_fc_calculator_params(
+        settings, log_level=(not settings.read_fc3) * 1
+    )
+
     #######
     # fc3 #
     #######
@@ -127,14 +131,21 @@ def create_phono3py_force_constants(
         or (settings.is_isotope and not (settings.is_bterta or settings.is_lbte))
         or settings.read_gamma
         or settings.read_pp
-        or (not settings.is_bterta and settings.write_phonon)
+        or (
+            settings.write_phonon
+            and not (
+                settings.is_bterta
+                or settings.is_lbte
+                or settings.is_imag_self_energy
+                or settings.is_real_self_energy
+                or settings.is_spectral_function
+                or settings.is_gruneisen
+            )
+        )
         or settings.constant_averaged_pp_interaction is not None
     ):
         pass
     else:
-        (fc_calculator, fc_calculator_options) = get_fc_calculator_params(
-            settings, log_level=(not settings.read_fc3) * 1
-        )
         if settings.read_fc3:
             _read_phono3py_fc3(phono3py, symmetrize_fc3r, input_filename, log_level)
         else:  # fc3 from FORCES_FC3 or ph3py_yaml
-- 
2.43.0


From 4621ba8d6e0f441b002a686d9b9ea593f3210da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:39 +0000
Subject: [PATCH 66/69] fix: crash of --stp with several grid points given by
 --ga, and a single Gamma point taken as none

---
 phono3py/cui/triplets_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/cui/triplets_info.py b/phono3py/cui/triplets_info.py
index 6e27133..18bdde2 100644
--- a/phono3py/cui/triplets_info.py
+++ b/phono3py/cui/triplets_info.py
@@ -121,7 +121,7 @@ def show_num_triplets(
     else:
         num_band0 = len(band_indices)
 
-    if grid_points:
+    if grid_points is not None:
         _grid_points = grid_points
     else:
         _grid_points = tp_nums.ir_grid_points
-- 
2.43.0


From e8428ba0a90db70360284d959c96327ef95853be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:37 +0000
Subject: [PATCH 67/69] fix: save_phonon_mlp refused a developed potential, and
 missing energies of MLP datasets went unnoticed

---
 phono3py/api_phono3py.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 6a72618..92f891c 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2317,7 +2317,7 @@ class Phono3py:
 
     def save_phonon_mlp(self, filename: Optional[str] = None):
         """Save machine learning potential."""
-        if self._mlp is None:
+        if self._phonon_mlp is None:
             raise RuntimeError("MLP is not developed yet.")
 
         self._phonon_mlp.save(filename=filename)
@@ -2735,7 +2735,7 @@ class Phono3py:
             raise RuntimeError("Displacements have to be given.")
         if "forces" not in mlp_dataset:
             raise RuntimeError("Forces have to be given.")
-        if "supercell_energy" in mlp_dataset:
+        if "supercell_energies" not in mlp_dataset:
             raise RuntimeError("Supercell energies have to be given.")
         if len(mlp_dataset["displacements"]) != len(mlp_dataset["forces"]):
             raise RuntimeError("Length of displacements and forces are different.")
-- 
2.43.0


From fc142c482db84fab09862787934d0f6a422b9b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:25 +0000
Subject: [PATCH 68/69] fix: compressed or backup-shadowed polymlp.yaml was not
 loaded

---
 phono3py/cui/create_force_constants.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/phono3py/cui/create_force_constants.py b/phono3py/cui/create_force_constants.py
index 66805c6..8830d60 100644
--- a/phono3py/cui/create_force_constants.py
+++ b/phono3py/cui/create_force_constants.py
@@ -554,22 +554,16 @@ def run_pypolymlp_to_compute_forces(
 
     mlp_loaded = False
     for mlp_filename in ["polymlp.yaml", "phono3py.pmlp"]:
-        _mlp_filename_list = list(pathlib.Path().glob(f"{mlp_filename}*"))
+        _mlp_filename_list = [
+            fname
+            for fname in sorted(pathlib.Path().glob(f"{mlp_filename}*"))
+            if fname.suffix in [".yaml", ".pmlp", ".xz", ".gz", ".bz2", ".lzma"]
+        ]
         if _mlp_filename_list:
             _mlp_filename = _mlp_filename_list[0]
-            print(_mlp_filename)
-            if _mlp_filename.suffix not in [
-                ".yaml",
-                ".pmlp",
-                ".xz",
-                ".gz",
-                ".bz2",
-                "lzma",
-            ]:
-                continue
             if log_level:
-                print(f'Load MLPs from "{mlp_filename}".')
-            ph3py.load_mlp(mlp_filename)
+                print(f'Load MLPs from "{_mlp_filename}".')
+            ph3py.load_mlp(_mlp_filename)
             mlp_loaded = True
             if log_level and mlp_filename == "phono3py.pmlp":
                 print(f'Loading MLPs from "{_mlp_filename}" is obsolete.')
-- 
2.43.0


From 57e14dbbac4bbd97f0b8f441e98df5db53b575cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:25 +0000
Subject: [PATCH 69/69] fix: crash of evaluate_mlp with displacements of cutoff
 pair distance

---
 phono3py/api_phono3py.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 92f891c..8112f1b 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2282,9 +2282,16 @@ class Phono3py:
         if self.supercells_with_displacements is None:
             raise RuntimeError("Displacements are not set. Run generate_displacements.")
 
-        energies, forces, _ = self._mlp.evaluate(self.supercells_with_displacements)
-        self.supercell_energies = energies
-        self.forces = forces
+        # Supercells of pairs beyond cutoff pair distance are None.
+        scells = self.supercells_with_displacements
+        included = [i for i, scell in enumerate(scells) if scell is not None]
+        energies, forces, _ = self._mlp.evaluate([scells[i] for i in included])
+        all_energies = np.zeros(len(scells), dtype="double")
+        all_energies[included] = energies
+        all_forces = np.zeros((len(scells),) + forces.shape[1:], dtype="double")
+        all_forces[included] = forces
+        self.supercell_energies = all_energies
+        self.forces = all_forces
 
     def develop_phonon_mlp(
         self,
-- 
2.43.0

