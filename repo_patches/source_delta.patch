From a562bc9959899d18e05d67257a23ccb7fcc6342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:05 +0000
Subject: [PATCH 01/43] fix: start every projection of the C++ reconstruction
 from an empty waterfall

The recreated waterfall was not cleared between iterations, so the normalised
projection of the previous iterations leaked into the recreated profiles, the
difference waterfall and the discrepancy.
---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 65188f7..cc7ef1f 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -11,6 +11,7 @@
 #include <iostream>
 #include <iomanip>
 #include <stdexcept>
+#include <algorithm>
 #include <cmath>
 #include <functional>
 
@@ -402,6 +403,7 @@ void reconstruct(real_t *weights,             // out
             if (verbose)
                 std::cout << std::setw(3) << iteration + 1 << std::endl;
 
+            std::fill_n(flat_rec, all_bins, 0);
             project(flat_rec, flat_points, weights, npart, nprof);
             normalize(flat_rec, nprof, nbins);
 
@@ -421,6 +423,7 @@ void reconstruct(real_t *weights,             // out
         } //end for
 
         // Calculating final discrepancy
+        std::fill_n(flat_rec, all_bins, 0);
         project(flat_rec, flat_points, weights, npart, nprof);
         normalize(flat_rec, nprof, nbins);
 
-- 
2.43.0


From fb0c747270849381f876f4c006e4ec5019310d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:48 +0000
Subject: [PATCH 02/43] fix: give the scalar phi12 expansion one value per turn
 including the last

kick_and_drift reads phi12[nturns] at the last turn; the expanded array held
only nturns values, so the last kick used memory past its end.
---
 longitudinal_tomography/cpp_routines/libtomo.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/libtomo.cpp b/longitudinal_tomography/cpp_routines/libtomo.cpp
index 84f75d7..ce48915 100644
--- a/longitudinal_tomography/cpp_routines/libtomo.cpp
+++ b/longitudinal_tomography/cpp_routines/libtomo.cpp
@@ -211,11 +211,13 @@ py::tuple wrapper_kick_and_drift_scalar(
         const bool ftn_out,
         const std::optional<const py::object> callback
 ) {
-    real_t *ptr_phi12 = new real_t[nturns];
-    std::fill_n(ptr_phi12, nturns, phi12);
+    // One value per turn, both the first and the last turn included.
+    const int n_phi12 = nturns + 1;
+    real_t *ptr_phi12 = new real_t[n_phi12];
+    std::fill_n(ptr_phi12, n_phi12, phi12);
 
     py::capsule capsule(ptr_phi12, [](void *p) { delete[] reinterpret_cast<real_t *>(p); });
-    real_Tarr arr_phi12({nturns}, ptr_phi12, capsule);
+    real_Tarr arr_phi12({n_phi12}, ptr_phi12, capsule);
 
     wrapper_kick_and_drift_array(input_xp, input_yp, input_denergy, input_dphi, input_rf1v, input_rf2v, input_phi0,
                                  input_deltaE0,
-- 
2.43.0


From b7434654a786406c3fb5f2fea3d8aa14a4fc4ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:30 +0000
Subject: [PATCH 03/43] fix: make the bin index of the reciprocal particle
 counts thread private

idx was shared between the OpenMP threads, so concurrent threads could skip
bins and scale others twice.
---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index cc7ef1f..8209959 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -274,11 +274,10 @@ void reciprocal_particles(real_t *rparts,    // out
             rparts[i] = 1.0;
 
     // Creating reciprocal
-    int idx;
     #pragma omp parallel for
     for (int i = 0; i < nprof; i++)
         for (int j = 0; j < nbins; j++) {
-            idx = i * nbins + j;
+            int idx = i * nbins + j;
             rparts[idx] = (real_t) max_bin_val / rparts[idx];
         }
 }
@@ -305,11 +304,10 @@ void reciprocal_particles_multi(real_t *rparts,   // out
             rparts[i] = 1.0;
 
     // Creating reciprocal
-    int idx;
     #pragma omp parallel for collapse(2)
     for (int i = 0; i < nprof; i++)
         for (int j = 0; j < nbins; j++) {
-            idx = i * nbins + j;
+            int idx = i * nbins + j;
             rparts[idx] = (double) max_bin_val / rparts[idx];
         }
 }
-- 
2.43.0


From 42c272360da3cc4dfb90435692e1f8df3ba99500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:02 +0000
Subject: [PATCH 04/43] fix: remove data races from the multi-bunch
 reconstruction kernels

Bunches accumulated into the same recreated profiles, particle counts, weights
and squared sums from several OpenMP threads without synchronisation, and the
discrepancy of one bunch leaked into the next.
---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 8209959..25d17f3 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -38,7 +38,7 @@ void back_project_multi(real_t *weights,                     // inn/out
                         const int npart,
                         const int nprof,
                         const int ncenter) {     // inn
-    #pragma omp parallel for collapse(3)
+    #pragma omp parallel for collapse(2)
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
@@ -73,7 +73,6 @@ void project_multi(real_t *flat_rec,                     // inn/out
                    const int nprof,
                    const int ncenter) {      // inn
 
-    #pragma omp parallel for
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
@@ -159,10 +158,10 @@ void discrepancy_multi(const real_t *diff_prof,   // inn
                          const int ncenter) {
 
     int all_bins = nprof * nbins;
-    real_t squared_sum = 0;
     #pragma omp parallel for
     for (int c = 0; c < ncenter; c++)
     {
+        real_t squared_sum = 0;
         for (int i = 0; i < all_bins; i++)
         {
             if (i < cutright[c] && i > cutleft[c])
@@ -242,7 +241,6 @@ void count_particles_in_bin_multi(real_t *rparts,
                                   const int ncenters) {
 
     int bin;
-    #pragma omp parallel for
     for (int c = 0; c < ncenters; c++) {
         for (int j = 0; j < npart; j++) {
             for (int i = 0; i < nprof; i++) {
@@ -336,16 +334,14 @@ void create_mask(const int *xpRound0,       //inn
                  const int nprof,
                  const int ncenter) {
 
-    int bin;
-
-    #pragma omp parallel for collapse(3)
+    #pragma omp parallel for collapse(2)
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
         {
             for (int j = 0; j < nprof; j++)
             {
-                bin = xpRound0[i * nprof + j] + centers[c];
+                int bin = xpRound0[i * nprof + j] + centers[c];
                 if ((bin < cutleft[c]) || (bin > cutright[c])) {mask[i + c*npart] = false;}
             }
         }
-- 
2.43.0


From 1a30826667d8a662c3bb58c21aa90c0220830d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:52 +0000
Subject: [PATCH 05/43] fix: multi-bunch reconstruction accounts for every
 bunch and profile

The recreated waterfall was not cleared between iterations, the initial clip
and the zero-weight test looked at the first bunch only, and the per-bunch
discrepancy compared the window with the index in the flattened waterfall, so
only the first profile was seen.
---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 25d17f3..e0c4398 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -164,7 +164,8 @@ void discrepancy_multi(const real_t *diff_prof,   // inn
         real_t squared_sum = 0;
         for (int i = 0; i < all_bins; i++)
         {
-            if (i < cutright[c] && i > cutleft[c])
+            const int bin = i % nbins;
+            if (bin < cutright[c] && bin > cutleft[c])
             {
                 squared_sum += std::pow(diff_prof[i], 2.0);
             }
@@ -483,9 +484,9 @@ void reconstruct_multi(real_t *weights,             // out
         create_flat_points(xpRound0, flat_points, npart, nprof, nbins);
         back_project_multi(weights, flat_points, flat_profiles, mask, centers, npart, nprof, ncenter);
 
-        clip(weights, npart, 0.0);
+        clip(weights, npart*ncenter, 0.0);
 
-        if (sum(weights, npart) <= 0.)
+        if (sum(weights, npart*ncenter) <= 0.)
             throw std::runtime_error("All of phase space got reduced to zeroes");
 
         if (verbose)
@@ -495,6 +496,7 @@ void reconstruct_multi(real_t *weights,             // out
             if (verbose)
                 std::cout << std::setw(3) << iteration + 1 << std::endl;
 
+            std::fill_n(flat_rec, all_bins, 0);
             project_multi(flat_rec, flat_points, weights, centers, npart, nprof, ncenter);
             normalize(flat_rec, nprof, nbins);
             find_difference_profile(diff_prof, flat_rec, flat_profiles, all_bins);
@@ -508,13 +510,14 @@ void reconstruct_multi(real_t *weights,             // out
 
             clip(weights, npart*ncenter, 0.0);
 
-            if (sum(weights, npart) <= 0.)
+            if (sum(weights, npart*ncenter) <= 0.)
                 throw std::runtime_error("All of phase space got reduced to zeroes");
 
             callback(iteration + 1, niter);
         } //end for
 
         // Calculating final discrepancy
+        std::fill_n(flat_rec, all_bins, 0);
         project_multi(flat_rec, flat_points, weights, centers, npart, nprof, ncenter);
         normalize(flat_rec, nprof, nbins);
 
-- 
2.43.0


From 14a45c47e34b12b1c581844301c8841abe79abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:40 +0000
Subject: [PATCH 06/43] fix: keep multi-bunch reconstruction inside the
 waterfall

A particle which the offset of a bunch moves outside of the image width was
still counted and projected, reading and writing outside of its profile and,
for the first and last profile, outside of the arrays.
---
 .../cpp_routines/reconstruct.cpp                   | 14 +++++++++-----
 longitudinal_tomography/cpp_routines/reconstruct.h |  2 ++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index e0c4398..57ca8c3 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -68,6 +68,7 @@ template <typename real_t>
 void project_multi(real_t *flat_rec,                     // inn/out
                    int *flat_points,        // inn
                    const real_t *weights,   // inn
+                   const bool *mask,    //inn
                    const int *centers,  //inn
                    const int npart,
                    const int nprof,
@@ -79,7 +80,7 @@ void project_multi(real_t *flat_rec,                     // inn/out
         {
             for (int j = 0; j < nprof; j++)
             {
-                flat_rec[flat_points[i*nprof + j] + centers[c]] += weights[i + c*npart];
+                if (mask[i + c*npart]) flat_rec[flat_points[i*nprof + j] + centers[c]] += weights[i + c*npart];
             }
         }
     }
@@ -246,6 +247,8 @@ void count_particles_in_bin_multi(real_t *rparts,
         for (int j = 0; j < npart; j++) {
             for (int i = 0; i < nprof; i++) {
                 bin = xpRound0[j * nprof + i] + centers[c];
+                // Outside of the image width for this bunch.
+                if ((bin < 0) || (bin >= nbins)) continue;
                 rparts[bin + i * nbins] += 1;
             }
         }
@@ -333,6 +336,7 @@ void create_mask(const int *xpRound0,       //inn
                  bool *mask,                //out
                  const int npart,
                  const int nprof,
+                 const int nbins,
                  const int ncenter) {
 
     #pragma omp parallel for collapse(2)
@@ -343,7 +347,7 @@ void create_mask(const int *xpRound0,       //inn
             for (int j = 0; j < nprof; j++)
             {
                 int bin = xpRound0[i * nprof + j] + centers[c];
-                if ((bin < cutleft[c]) || (bin > cutright[c])) {mask[i + c*npart] = false;}
+                if ((bin < cutleft[c]) || (bin > cutright[c]) || (bin < 0) || (bin >= nbins)) {mask[i + c*npart] = false;}
             }
         }
     }
@@ -479,7 +483,7 @@ void reconstruct_multi(real_t *weights,             // out
     // Actual functionality
 
     try {
-        create_mask(xpRound0, centers, cutleft, cutright, mask, npart, nprof, ncenter);
+        create_mask(xpRound0, centers, cutleft, cutright, mask, npart, nprof, nbins, ncenter);
         reciprocal_particles_multi(rparts, xpRound0, centers, nbins, nprof, npart, ncenter);
         create_flat_points(xpRound0, flat_points, npart, nprof, nbins);
         back_project_multi(weights, flat_points, flat_profiles, mask, centers, npart, nprof, ncenter);
@@ -497,7 +501,7 @@ void reconstruct_multi(real_t *weights,             // out
                 std::cout << std::setw(3) << iteration + 1 << std::endl;
 
             std::fill_n(flat_rec, all_bins, 0);
-            project_multi(flat_rec, flat_points, weights, centers, npart, nprof, ncenter);
+            project_multi(flat_rec, flat_points, weights, mask, centers, npart, nprof, ncenter);
             normalize(flat_rec, nprof, nbins);
             find_difference_profile(diff_prof, flat_rec, flat_profiles, all_bins);
 
@@ -518,7 +522,7 @@ void reconstruct_multi(real_t *weights,             // out
 
         // Calculating final discrepancy
         std::fill_n(flat_rec, all_bins, 0);
-        project_multi(flat_rec, flat_points, weights, centers, npart, nprof, ncenter);
+        project_multi(flat_rec, flat_points, weights, mask, centers, npart, nprof, ncenter);
         normalize(flat_rec, nprof, nbins);
 
         find_difference_profile(diff_prof, flat_rec, flat_profiles, all_bins);
diff --git a/longitudinal_tomography/cpp_routines/reconstruct.h b/longitudinal_tomography/cpp_routines/reconstruct.h
index cfb7ee9..a810020 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.h
+++ b/longitudinal_tomography/cpp_routines/reconstruct.h
@@ -47,6 +47,7 @@ template <typename real_t>
 void project_multi(real_t *flat_rec,
                               int *flat_points,
                               const real_t *weights,
+                              const bool *mask,
                               const int *centers,
                               const int npart,
                               const int nprof,
@@ -145,6 +146,7 @@ void create_mask(const int *xpRound0,
                  bool *mask,
                  const int npart,
                  const int nprof,
+                 const int nbins,
                  const int ncenter);
 
 template <typename real_t>
-- 
2.43.0


From b68b707d2eed89a6432d5b8ade76a13e4de90d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:30 +0000
Subject: [PATCH 07/43] fix: reject every particle outside of the phase space
 image

Only the flattened index was tested, and only against its upper end: a negative
coordinate wrote before the image, and a coordinate outside one axis was put
in a cell of another column. The image is now also freed on rejection.
---
 longitudinal_tomography/cpp_routines/data_treatment.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/data_treatment.cpp b/longitudinal_tomography/cpp_routines/data_treatment.cpp
index 1e62b60..e9f7366 100644
--- a/longitudinal_tomography/cpp_routines/data_treatment.cpp
+++ b/longitudinal_tomography/cpp_routines/data_treatment.cpp
@@ -22,12 +22,13 @@ template <typename real_t>
 real_t *make_phase_space(const int *const xp, const int *const yp, const real_t *const weight, const int n_particles,
                          const int n_bins) {
     real_t *phase_space = new real_t[n_bins * n_bins]();
-    int n_bins2 = n_bins * n_bins;
 
     for (int i = 0; i < n_particles; i++) {
-        int index = yp[i] + xp[i] * n_bins;
-        if (index >= n_bins2)
+        if (xp[i] < 0 || xp[i] >= n_bins || yp[i] < 0 || yp[i] >= n_bins) {
+            delete[] phase_space;
             throw std::out_of_range("Index out of bounds");
+        }
+        int index = yp[i] + xp[i] * n_bins;
         phase_space[index] += weight[i];
     }
 
-- 
2.43.0


From 75f8bb825d037d36b63ed95b0bb0a2a802aac375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:03 +0000
Subject: [PATCH 08/43] fix: allow tracking to start at the last profile

The last profile was rejected although the profile index is documented to count
from the last time frame when negative, and two of the example input files
reconstruct it.
---
 longitudinal_tomography/tracking/tracking.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index 91dc3f7..635e036 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -146,12 +146,13 @@ class Tracking(ParticleTracker):
                          ValueError, '|deltaturn| must be less than the'
                          + ' number of turns between profiles')
 
-        asrt.assert_less(machine.dturns*recprof + deltaturn,
-                         'reconstruction turn',
-                         machine.dturns*(machine.nprofiles-1), ValueError,
-                         'Reconstruction turn '
-                         + '(machine.dturns*recprof + deltaturn) must be less'
-                         + ' than the total number of measured turns.')
+        asrt.assert_less_or_equal(machine.dturns*recprof + deltaturn,
+                                  'reconstruction turn',
+                                  machine.dturns*(machine.nprofiles-1),
+                                  ValueError, 'Reconstruction turn '
+                                  + '(machine.dturns*recprof + deltaturn) '
+                                  + 'must not be greater than the total '
+                                  + 'number of measured turns.')
 
         asrt.assert_greater_or_equal(machine.dturns*recprof + deltaturn,
                                      'reconstruction turn', 0, ValueError,
-- 
2.43.0


From 0610c2fefa3c25344a71230a1a982ed30e85c2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:02 +0000
Subject: [PATCH 09/43] fix: count multi-bunch particles per profile in the
 hybrid reconstruction

The transposed coordinates were handed to a routine that expects one row per
particle, so particles were counted in the bins of other profiles.
---
 longitudinal_tomography/tomography/__tomography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tomography/__tomography.py b/longitudinal_tomography/tomography/__tomography.py
index 0dc3432..50cc241 100644
--- a/longitudinal_tomography/tomography/__tomography.py
+++ b/longitudinal_tomography/tomography/__tomography.py
@@ -263,7 +263,7 @@ class TomographyABC(ABC):
         # for c in centers:
         #     ppb = self._count_particles_in_bins(
         #         ppb, self.nprofs, self.xp+int(np.floor(c)), self.nparts)
-        ppb = libtomo.count_particles_in_bins_multi(ppb, self.xp.T, centers,
+        ppb = libtomo.count_particles_in_bins_multi(ppb, self.xp, centers,
                                                     self.nprofs, self.nparts,
                                                     self.nbins, len(centers))
 
-- 
2.43.0


From 5ca9e2f91008ead636671086bfac6ee9ccd79943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:46 +0000
Subject: [PATCH 10/43] fix: track with a per-turn RF phase difference in
 single precision

With single precision a per-turn phi12 array kept double precision, so that
the call resolved to the double overload on converted copies of the output
arrays and the returned trajectories were all zero.
---
 longitudinal_tomography/tracking/tracking.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index 635e036..f68100e 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -190,6 +190,11 @@ class Tracking(ParticleTracker):
         deltaE0 = conf.cast(machine.deltaE0)
         drift_coef = conf.cast(machine.drift_coef)
 
+        phi12 = machine.phi12
+        if isinstance(phi12, np.ndarray):
+            # All arrays must be of the same precision.
+            phi12 = conf.cast(phi12)
+
         # Tracking particles
         if self.self_field_flag:
             # Tracking with self-fields
@@ -206,7 +211,7 @@ class Tracking(ParticleTracker):
             yp = conf.cast(conf.zeros((machine.nprofiles, nparts)))
 
             conf.kick_and_drift(xp, yp, denergy, dphi, rfv1, rfv2, phi0,
-                                deltaE0, drift_coef, machine.phi12,
+                                deltaE0, drift_coef, phi12,
                                 machine.h_ratio, machine.dturns, recprof,
                                 deltaturn, nturns, nparts, self.fortran_flag,
                                 callback=callback)
-- 
2.43.0


From e306de2b6f721dbde29e797bd9c4eb867bcd2f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:49 +0000
Subject: [PATCH 11/43] fix: track non-contiguous initial distributions in
 single precision

Strided rows of the given distribution made the call resolve to the double
overload on converted copies of the output arrays, so that the returned
trajectories were all zero.
---
 longitudinal_tomography/tracking/tracking.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index f68100e..c696550 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -178,8 +178,8 @@ class Tracking(ParticleTracker):
             self.particles.coordinates_dphi_denergy = conf.cast(init_distr)
             coords = self.particles.coordinates_dphi_denergy
 
-        dphi = coords[0]
-        denergy = coords[1]
+        dphi = conf.ascontiguousarray(coords[0])
+        denergy = conf.ascontiguousarray(coords[1])
 
         self.init_dphi = dphi.copy()
         self.init_denergy = denergy.copy()
-- 
2.43.0


From f0c8b9961625f1341d2749bc0d37193e1d87bf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:26 +0000
Subject: [PATCH 12/43] fix: refuse particle coordinates that are not a number

NaN compares false with both limits, so such coordinates were accepted, cast
to a large negative bin number and used as index into the profiles.
---
 longitudinal_tomography/tomography/__tomography.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tomography/__tomography.py b/longitudinal_tomography/tomography/__tomography.py
index 50cc241..f32b3f1 100644
--- a/longitudinal_tomography/tomography/__tomography.py
+++ b/longitudinal_tomography/tomography/__tomography.py
@@ -177,7 +177,8 @@ class TomographyABC(ABC):
                       f'{value.shape[1]} profiles.'
                 raise expt.CoordinateImportError(msg)
 
-            if conf.any(value < 0) or conf.any(value >= self.nbins):
+            # Written so that values which are not a number are refused as well
+            if not conf.all((value >= 0) & (value < self.nbins)):
                 msg = 'X coordinate of particles outside of image width'
                 raise expt.XPOutOfImageWidthError(msg)
 
-- 
2.43.0


From 10fdd8c0bb00701fc5fddd4b33df145528779738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:57 +0000
Subject: [PATCH 13/43] fix: refuse phase space arrays of different lengths

make_phase_space took the particle count from xp alone and read past the end
of a shorter yp or weight array.
---
 longitudinal_tomography/cpp_routines/libtomo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/longitudinal_tomography/cpp_routines/libtomo.cpp b/longitudinal_tomography/cpp_routines/libtomo.cpp
index ce48915..98f7601 100644
--- a/longitudinal_tomography/cpp_routines/libtomo.cpp
+++ b/longitudinal_tomography/cpp_routines/libtomo.cpp
@@ -524,6 +524,9 @@ py::array_t<real_t> wrapper_make_phase_space(
 
     const int n_particles = buffer_xp.shape[0];
 
+    if (buffer_yp.size != buffer_xp.size || buffer_weight.size != buffer_xp.size)
+        throw std::invalid_argument("xp, yp and weights must have the same length");
+
     const auto *xp = static_cast<int *>(buffer_xp.ptr);
     const auto *yp = static_cast<int *>(buffer_yp.ptr);
     const auto *weights = static_cast<real_t *>(buffer_weight.ptr);
-- 
2.43.0


From a5107603dc7d33f3be76745aed3090a37d09e23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:01 +0000
Subject: [PATCH 14/43] fix: keep reconstruction limits in the bin they were
 given for

A limit of a whole number of bins divided by the bin width may come out
slightly above or below that number; the area then grew by one bin, or the
full-image option failed with an IndexError for the default limits
(for example 58 bins of 5 ns).
---
 longitudinal_tomography/tracking/phase_space_info.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tracking/phase_space_info.py b/longitudinal_tomography/tracking/phase_space_info.py
index 58f5093..a2cb5cc 100644
--- a/longitudinal_tomography/tracking/phase_space_info.py
+++ b/longitudinal_tomography/tracking/phase_space_info.py
@@ -283,8 +283,12 @@ class PhaseSpaceInfo:
             -> Tuple[np.ndarray, np.ndarray, int, int]:
 
         # Maximum and minimum bin, as specified by user.
-        max_dtbin = int(np.ceil(self.machine.max_dt / self.machine.dtbin))
-        min_dtbin = int(self.machine.min_dt / self.machine.dtbin)
+        # Limits given as a whole number of bins must not be moved to the
+        # neighbouring bin by the rounding error of the division.
+        max_dtbin = int(np.ceil(np.round(
+            self.machine.max_dt / self.machine.dtbin, 6)))
+        min_dtbin = int(np.round(
+            self.machine.min_dt / self.machine.dtbin, 6))
 
         if min_dtbin > imin or self.machine.full_pp_flag:
             imin = min_dtbin
-- 
2.43.0


From aa87a86f4c58307ef5c62b70f320d2fb3b8a6607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:16 +0000
Subject: [PATCH 15/43] fix: reconstruction area must end at the maximum time
 limit

When the upper limit coincided with the last phase bin of the trajectory area
that bin, which lies completely above the limit, was kept.
---
 longitudinal_tomography/tracking/phase_space_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tracking/phase_space_info.py b/longitudinal_tomography/tracking/phase_space_info.py
index a2cb5cc..1103575 100644
--- a/longitudinal_tomography/tracking/phase_space_info.py
+++ b/longitudinal_tomography/tracking/phase_space_info.py
@@ -295,7 +295,7 @@ class PhaseSpaceInfo:
             jmax[:min_dtbin] = np.floor(self.machine.synch_part_y)
             jmin = np.ceil(2.0 * self.machine.synch_part_y - jmax + 0.5)
 
-        if max_dtbin < imax or self.machine.full_pp_flag:
+        if max_dtbin <= imax or self.machine.full_pp_flag:
             imax = max_dtbin - 1  # -1 in order to count from idx 0
             jmax[max_dtbin:
                  self.machine.nbins] = np.floor(self.machine.synch_part_y)
-- 
2.43.0


From c2043cfad9455c46f378af4ae598bbd50bebadf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:26 +0000
Subject: [PATCH 16/43] fix: rebin integer data and data shorter than the rebin
 factor

The incomplete last bin could not be scaled for integer data, and was scaled
with a wrong number of bins when the profile is shorter than one new bin.
---
 longitudinal_tomography/data/pre_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/data/pre_process.py b/longitudinal_tomography/data/pre_process.py
index 1450080..5e666e6 100644
--- a/longitudinal_tomography/data/pre_process.py
+++ b/longitudinal_tomography/data/pre_process.py
@@ -411,9 +411,9 @@ def _rebin_last(data: np.ndarray, rbn: int) -> np.ndarray:
     nprofs = data.shape[0]
     nbins = data.shape[1]
 
-    i0 = (int(nbins / rbn) - 1) * rbn
+    i0 = max(int(nbins / rbn) - 1, 0) * rbn
     ans = np.copy(data[:, i0:])
     ans = np.sum(ans, axis=1)
-    ans[:] *= rbn / (nbins - i0)
+    ans = ans * (rbn / (nbins - i0))
     ans = ans.reshape((nprofs, 1))
     return ans
-- 
2.43.0


From ffe05a897470ff64504f5355b9e304262dc4d313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:05 +0000
Subject: [PATCH 17/43] fix: refuse a baseline taken from no bins

With fewer than 20 bins per frame (or percent=0) the baseline was 0/0 and the
whole waterfall silently became NaN.
---
 longitudinal_tomography/compat/fortran.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/longitudinal_tomography/compat/fortran.py b/longitudinal_tomography/compat/fortran.py
index 780d9fa..730c732 100644
--- a/longitudinal_tomography/compat/fortran.py
+++ b/longitudinal_tomography/compat/fortran.py
@@ -260,7 +260,8 @@ def calc_baseline(waterfall: np.ndarray, ref_prof: int,
     Raises
     ------
     InputError: Exception
-        Raised if percentage is not given as a float between 0 and 1.
+        Raised if percentage is not given as a float between 0 and 1,
+        or if it covers less than one bin of the reference profile.
 
     """
     asrt.assert_inrange(percent, 'percent', 0.0, 1.0, expt.InputError,
@@ -270,4 +271,8 @@ def calc_baseline(waterfall: np.ndarray, ref_prof: int,
     nbins = len(waterfall[ref_prof])
     iend = int(percent * nbins)
 
+    if iend < 1:
+        raise expt.InputError('The chosen percentage of the reference '
+                              'profile does not contain a single bin')
+
     return np.sum(waterfall[ref_prof, :iend]) / np.floor(percent * nbins)
-- 
2.43.0


From 2a6830605c93977a1a7b4c43a43f433f568936d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:05 +0000
Subject: [PATCH 18/43] fix: let shortcuts.track use its default reconstruction
 index

The documented default of None was passed on to the tracking, which cannot
handle it; use the first film profile as tomo_run.run does.
---
 longitudinal_tomography/shortcuts.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/longitudinal_tomography/shortcuts.py b/longitudinal_tomography/shortcuts.py
index 39a4c4b..5893d16 100644
--- a/longitudinal_tomography/shortcuts.py
+++ b/longitudinal_tomography/shortcuts.py
@@ -46,6 +46,9 @@ def track(machine: MachineABC, reconstruction_idx: int = None,
           callback: t.Callable = None) \
         -> t.Tuple[np.ndarray, np.ndarray]:
 
+    if reconstruction_idx is None:
+        reconstruction_idx = machine.filmstart
+
     tracker = Tracking(machine)
     dphi, denergy = tracker.track(reconstruction_idx, callback=callback)
     xp, yp = particles.physical_to_coords(dphi, denergy, machine,
-- 
2.43.0


From a6a3ffc7b4f6f7d6157ece590f7003e0005f1ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:49 +0000
Subject: [PATCH 19/43] fix: include the first bin of a window in its
 multi-bunch discrepancy

The sum of squares skipped the leftmost bin although it is counted in the
divisor and the hybrid reconstruction includes it.
---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 57ca8c3..4002a46 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -166,7 +166,7 @@ void discrepancy_multi(const real_t *diff_prof,   // inn
         for (int i = 0; i < all_bins; i++)
         {
             const int bin = i % nbins;
-            if (bin < cutright[c] && bin > cutleft[c])
+            if (bin < cutright[c] && bin >= cutleft[c])
             {
                 squared_sum += std::pow(diff_prof[i], 2.0);
             }
-- 
2.43.0


From 31c0af05a064a2b2bb5a8263e3207da7c3a8917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:34 +0000
Subject: [PATCH 20/43] fix: 100 % emittance must not depend on the rounding of
 the total

The cumulative sum could end below the separately computed total, in which
case no cell satisfied the condition and the emittance came out as zero.
---
 longitudinal_tomography/data/post_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/data/post_process.py b/longitudinal_tomography/data/post_process.py
index 1b23c44..aa6d365 100644
--- a/longitudinal_tomography/data/post_process.py
+++ b/longitudinal_tomography/data/post_process.py
@@ -184,7 +184,7 @@ def emittance_fractional(histogram: np.ndarray,
     histogram = histogram.ravel()
     histogram[::-1].sort()
     cumsum = histogram.cumsum()
-    n_bins = np.argmax(cumsum >= fraction * histogram.sum())
+    n_bins = np.argmax(cumsum >= fraction * cumsum[-1])
 
     t_bin_width = t_bins[1] - t_bins[0]
     e_bin_width = e_bins[1] - e_bins[0]
-- 
2.43.0


From 2978b263bff173aa4fb4e651cb724c0ea72b054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:34 +0000
Subject: [PATCH 21/43] fix: do not modify the caller's density in
 density_to_macro

---
 longitudinal_tomography/data/data_treatment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/data/data_treatment.py b/longitudinal_tomography/data/data_treatment.py
index 9b90104..22b2edf 100644
--- a/longitudinal_tomography/data/data_treatment.py
+++ b/longitudinal_tomography/data/data_treatment.py
@@ -261,7 +261,7 @@ def density_to_macro(tRange: Iterable[float], ERange: Iterable[float],
     dEbin = ERange[1] - ERange[0]
 
     sumDens = np.sum(density)
-    density[density / sumDens < threshold] = 0
+    density = np.where(density / sumDens < threshold, 0, density)
 
     prob = density.flatten()
     prob = prob / np.sum(prob)
-- 
2.43.0


From 0db0ad4cb68bc7301370afe30772134e88e5f156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:30 +0000
Subject: [PATCH 22/43] fix: keep the measurement when a waterfall without
 signal is refused

The setter stored the all-zero waterfall before raising, leaving the object
with data that do not belong to the machine's bin count.
---
 longitudinal_tomography/data/profiles.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/data/profiles.py b/longitudinal_tomography/data/profiles.py
index 9035603..b3320e2 100644
--- a/longitudinal_tomography/data/profiles.py
+++ b/longitudinal_tomography/data/profiles.py
@@ -134,11 +134,11 @@ class Profiles:
                       f'nr of profiles in waterfall: {new_waterfall.shape[0]}'
             raise expt.WaterfallError(err_msg)
 
-        new_waterfall = np.array(new_waterfall)
-        self._waterfall = new_waterfall.clip(0.0)
-        if np.sum(np.abs(self.waterfall)) == 0.0:
+        new_waterfall = np.array(new_waterfall).clip(0.0)
+        if np.sum(np.abs(new_waterfall)) == 0.0:
             raise expt.WaterfallReducedToZero()
 
+        self._waterfall = new_waterfall
         self.machine.nbins = self._waterfall.shape[1]
         log.info(f'Waterfall loaded with shape: {self.waterfall.shape})')
 
-- 
2.43.0


From 40c62cd76449e15f0dd422a1c7ab6bc9096478b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 23/43] fix: refuse tracking when the machine lacks values for
 some tracked turns

---
 longitudinal_tomography/tracking/tracking.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index c696550..db04167 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -10,6 +10,7 @@ import logging
 import warnings
 
 from .. import assertions as asrt
+from .. import exceptions as expt
 from .__tracking import ParticleTracker
 from ..cpp_routines import libtomo
 from ..compat import fortran
@@ -160,6 +161,18 @@ class Tracking(ParticleTracker):
                                      + '(machine.dturn*recprof + deltaturn) '
                                      + 'must be greater than 0.')
 
+        # The compiled routines read one value per tracked turn.
+        per_turn = ['vrf1_at_turn', 'vrf2_at_turn', 'phi0', 'deltaE0',
+                    'drift_coef']
+        if isinstance(machine.phi12, np.ndarray):
+            per_turn.append('phi12')
+        for field in per_turn:
+            asrt.assert_greater(len(getattr(machine, field)),
+                                f'length of {field}',
+                                machine.dturns*(machine.nprofiles-1),
+                                expt.MachineParameterError,
+                                'There must be a value for every turn.')
+
         if init_distr is None:
             # Homogeneous distribution is created based on the
             # original Fortran algorithm.
-- 
2.43.0


From ca13716ca51a65f386f2fb735e3499c2032221fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:24 +0000
Subject: [PATCH 24/43] fix: let programs machines use a given phi12

---
 .../tracking/programs_machine.py              | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/longitudinal_tomography/tracking/programs_machine.py b/longitudinal_tomography/tracking/programs_machine.py
index a1075ed..a39d621 100644
--- a/longitudinal_tomography/tracking/programs_machine.py
+++ b/longitudinal_tomography/tracking/programs_machine.py
@@ -87,6 +87,7 @@ class ProgramsMachine(MachineABC):
                 raise ValueError('You can only pass either phi12 or '
                                  'phase_function, not both.')
             self.phase_raw = None
+            self.phi12_raw = self.phi12
             self.process_phase = 0
         elif phase_function is not None:
             self.phase_raw = phase_function
@@ -132,19 +133,20 @@ class ProgramsMachine(MachineABC):
                 self.phase_raw[1, :]
             )
         elif self.process_phase == 0:
-            if isinstance(self.phi12, np.ndarray):
-                if self.phi12.size() == 1:
-                    pass
-                elif len(self.phi12.shape) == 2 and self.phi12.shape[1] == 2:
-                    self.phi12 = np.interp(momentum_time, *self.phi12)
-                elif len(self.phi12) == len(self.voltage_raw):
-                    self.phi12 = np.interp(momentum_time, self.voltage_raw[0],
-                                           self.phi12)
-                else:
-                    raise ValueError(f'Do not know how to interpolate phi12 '
-                                     f'array of shape {self.phi12.shape}. '
-                                     f'It should either match voltage '
-                                     f'function or provide its own time axis.')
+            phi12 = np.asarray(self.phi12_raw)
+            if phi12.size == 1:
+                self.phi12 = np.full(len(momentum_time),
+                                     float(phi12.item()))
+            elif phi12.ndim == 2 and phi12.shape[0] == 2:
+                self.phi12 = np.interp(momentum_time, *phi12)
+            elif phi12.shape == self.voltage_raw[0].shape:
+                self.phi12 = np.interp(momentum_time, self.voltage_raw[0],
+                                       phi12)
+            else:
+                raise ValueError(f'Do not know how to interpolate phi12 '
+                                 f'array of shape {phi12.shape}. '
+                                 f'It should either match voltage '
+                                 f'function or provide its own time axis.')
 
         # interpolate second harmonic voltage & phase if applicable
         if len(self.harmonics) == 2:
-- 
2.43.0


From 0cf233efe6c5df329c48c32eb7861a0c3649e413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:28 +0000
Subject: [PATCH 25/43] fix: interpolate programs for every requested turn

---
 longitudinal_tomography/tracking/programs_machine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tracking/programs_machine.py b/longitudinal_tomography/tracking/programs_machine.py
index a39d621..3e74dba 100644
--- a/longitudinal_tomography/tracking/programs_machine.py
+++ b/longitudinal_tomography/tracking/programs_machine.py
@@ -315,7 +315,8 @@ class ProgramsMachine(MachineABC):
         turn = self.i0
 
         k = 0
-        while turn < nturns:
+        # The last time found is dropped below, one more turn is needed.
+        while turn <= nturns:
 
             while time_interp[i + 1] <= time[k]:
                 momentum_interp.append(
@@ -351,7 +352,7 @@ class ProgramsMachine(MachineABC):
             initial_index = 0
 
         final_index = initial_index + nturns
-        if final_index > len(time_interp) + 1:
+        if final_index > len(time_interp):
             raise ValueError('Not enough data in momentum program to '
                              f'interpolate {nturns} turns.')
 
-- 
2.43.0


From 18d128a66b9df904898971f4c32f18bf18200a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:48 +0000
Subject: [PATCH 26/43] fix: make phase spaces from scalar coordinates without
 reading past their shape

---
 longitudinal_tomography/cpp_routines/libtomo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/cpp_routines/libtomo.cpp b/longitudinal_tomography/cpp_routines/libtomo.cpp
index 98f7601..984514c 100644
--- a/longitudinal_tomography/cpp_routines/libtomo.cpp
+++ b/longitudinal_tomography/cpp_routines/libtomo.cpp
@@ -522,7 +522,7 @@ py::array_t<real_t> wrapper_make_phase_space(
     py::buffer_info buffer_yp = input_yp.request();
     py::buffer_info buffer_weight = input_weight.request();
 
-    const int n_particles = buffer_xp.shape[0];
+    const int n_particles = buffer_xp.size;
 
     if (buffer_yp.size != buffer_xp.size || buffer_weight.size != buffer_xp.size)
         throw std::invalid_argument("xp, yp and weights must have the same length");
-- 
2.43.0


From 315b617a613392cbccdde42c2054e65299cfd3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:48 +0000
Subject: [PATCH 27/43] fix: refuse a multi-bunch reconstruction with windows
 missing for some bunches

---
 longitudinal_tomography/cpp_routines/libtomo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/longitudinal_tomography/cpp_routines/libtomo.cpp b/longitudinal_tomography/cpp_routines/libtomo.cpp
index 984514c..337ed08 100644
--- a/longitudinal_tomography/cpp_routines/libtomo.cpp
+++ b/longitudinal_tomography/cpp_routines/libtomo.cpp
@@ -466,6 +466,9 @@ py::tuple wrapper_reconstruct_multi(
     py::buffer_info buffer_cutright = inp_cutright.request();
     py::buffer_info buffer_centers = inp_centers.request();
 
+    if (buffer_centers.size < n_centers || buffer_cutleft.size < n_centers || buffer_cutright.size < n_centers)
+        throw std::invalid_argument("There must be a center and a window for every bunch");
+
     auto *weights = new real_t[n_particles * n_centers]();
     auto *discr = new real_t[n_iter + 1]();
     auto *discr_split = new real_t[n_centers * (n_iter + 1)];
-- 
2.43.0


From 84237fd0baa8bce9191765c16d8ea4555ed18c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:48 +0000
Subject: [PATCH 28/43] fix: refuse a negative number of iterations

---
 longitudinal_tomography/cpp_routines/libtomo.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/longitudinal_tomography/cpp_routines/libtomo.cpp b/longitudinal_tomography/cpp_routines/libtomo.cpp
index 337ed08..481bb66 100644
--- a/longitudinal_tomography/cpp_routines/libtomo.cpp
+++ b/longitudinal_tomography/cpp_routines/libtomo.cpp
@@ -408,6 +408,9 @@ py::tuple wrapper_reconstruct(
     py::buffer_info buffer_xp = input_xp.request();
     py::buffer_info buffer_waterfall = waterfall.request();
 
+    if (n_iter < 0)
+        throw std::invalid_argument("The number of iterations must not be negative");
+
     auto *weights = new real_t[n_particles]();
     auto *discr = new real_t[n_iter + 1]();
     auto *flat_profs = static_cast<real_t *>(buffer_waterfall.ptr);
@@ -469,6 +472,9 @@ py::tuple wrapper_reconstruct_multi(
     if (buffer_centers.size < n_centers || buffer_cutleft.size < n_centers || buffer_cutright.size < n_centers)
         throw std::invalid_argument("There must be a center and a window for every bunch");
 
+    if (n_iter < 0)
+        throw std::invalid_argument("The number of iterations must not be negative");
+
     auto *weights = new real_t[n_particles * n_centers]();
     auto *discr = new real_t[n_iter + 1]();
     auto *discr_split = new real_t[n_centers * (n_iter + 1)];
-- 
2.43.0


From e952d3d7d94c0350f1ccb2318cfe1b020e363ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:35 +0000
Subject: [PATCH 29/43] fix: refuse a too short list of RF phase differences
 like a too short array

---
 longitudinal_tomography/tracking/tracking.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index db04167..874c6ed 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -164,7 +164,7 @@ class Tracking(ParticleTracker):
         # The compiled routines read one value per tracked turn.
         per_turn = ['vrf1_at_turn', 'vrf2_at_turn', 'phi0', 'deltaE0',
                     'drift_coef']
-        if isinstance(machine.phi12, np.ndarray):
+        if np.ndim(machine.phi12) > 0:
             per_turn.append('phi12')
         for field in per_turn:
             asrt.assert_greater(len(getattr(machine, field)),
@@ -204,7 +204,7 @@ class Tracking(ParticleTracker):
         drift_coef = conf.cast(machine.drift_coef)
 
         phi12 = machine.phi12
-        if isinstance(phi12, np.ndarray):
+        if np.ndim(phi12) > 0:
             # All arrays must be of the same precision.
             phi12 = conf.cast(phi12)
 
-- 
2.43.0


From 16e556f9d81460c7bed762cb47e2559c7613ca6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:21 +0000
Subject: [PATCH 30/43] fix: evaluate the bunch-end potential at the reference
 turn

phase_low_mch passed the number of the machine reference profile where
phase_low expects the turn whose voltages are to be used, so that with
voltages changing in time the synchronous position was fitted with the
voltages of another turn than the one of the profile.
---
 longitudinal_tomography/utils/physics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/utils/physics.py b/longitudinal_tomography/utils/physics.py
index b8a6a89..f9f3736 100644
--- a/longitudinal_tomography/utils/physics.py
+++ b/longitudinal_tomography/utils/physics.py
@@ -526,7 +526,7 @@ def phase_low_mch(phase: float, machine: 'MachineABC',
 
     return phase_low(phase, bunch_phaselength, machine.vrf1_at_turn,
                      machine.vrf2_at_turn, machine.phi0, machine.h_ratio,
-                     machine.phi12, rf_turn, machine.machine_ref_frame)
+                     machine.phi12, rf_turn, rf_turn)
 
 
 def dphase_low_mch(phase: float, machine: 'MachineABC',
-- 
2.43.0


From 0424cf16a0930430c2dec97f7852893644bd34a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:14 +0000
Subject: [PATCH 31/43] fix: track back to the first profile when starting
 between two profiles

With a positive deltaturn the coordinates at the turn after the start
profile were stored as those of the start profile, and tracking backwards
started from them deltaturn turns too early (compiled routine) or stored
every profile one row too low (Python routine). The number of callbacks
now equals the announced total for negative values as well.
---
 .../cpp_routines/kick_and_drift.cpp                | 14 +++++++++-----
 longitudinal_tomography/tracking/tracking.py       |  3 +++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/kick_and_drift.cpp b/longitudinal_tomography/cpp_routines/kick_and_drift.cpp
index b3ff134..9e3b247 100644
--- a/longitudinal_tomography/cpp_routines/kick_and_drift.cpp
+++ b/longitudinal_tomography/cpp_routines/kick_and_drift.cpp
@@ -136,6 +136,9 @@ void kick_and_drift(real_t **xp,             // inn/out
 
     if (deltaturn < 0) profile--;
 
+    // Row holding the initial coordinates while tracking upwards
+    const int start = profile;
+
 #pragma omp parallel for
     for (int i = 0; i < nparts; i++) {
         xp[profile][i] = dphi[i];
@@ -170,16 +173,17 @@ void kick_and_drift(real_t **xp,             // inn/out
         callback(++progress, total);
     } //while
 
-    profile = rec_prof;
-    turn = rec_prof * dturns;
+    // A start between two profiles lies after the profile of its row
+    profile = (deltaturn == 0) ? start : start + 1;
+    turn = rec_prof * dturns + deltaturn;
 
-    if (profile > 0) {
+    if (turn > 0) {
 
         // Going back to initial coordinates
 #pragma omp parallel for
         for (int i = 0; i < nparts; i++) {
-            dphi[i] = xp[rec_prof][i];
-            denergy[i] = yp[rec_prof][i];
+            dphi[i] = xp[start][i];
+            denergy[i] = yp[start][i];
         }
 
         // Downwards
diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index 874c6ed..db532af 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -313,6 +313,9 @@ class Tracking(ParticleTracker):
         turn = rec_turn
         profile = rec_prof
 
+        if deltaturn > 0:
+            profile += 1
+
         # Tracking 'downwards'
         while turn > 0:
             # Calculating change in energy for each particle at a turn
-- 
2.43.0


From 372097db42c8332f339528254350efe3500ef558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:17 +0000
Subject: [PATCH 32/43] fix: self-field tracking honours a start between two
 profiles (deltaturn)

---
 longitudinal_tomography/tracking/tracking.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index db532af..b7f5c44 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -215,7 +215,7 @@ class Tracking(ParticleTracker):
             denergy = np.ascontiguousarray(denergy)
             dphi = np.ascontiguousarray(dphi)
             xp, yp = self.kick_and_drift_self(
-                denergy, dphi, rfv1, rfv2, recprof)
+                denergy, dphi, rfv1, rfv2, recprof, deltaturn)
         else:
             # Tracking without self-fields
             nparts = len(dphi)
@@ -401,14 +401,16 @@ class Tracking(ParticleTracker):
         dphi0 = np.copy(dphi)
         denergy0 = np.copy(denergy)
 
-        xp[rec_prof] = self._calc_xp_sf(
+        init_xp = self._calc_xp_sf(
             dphi, self.machine.phi0[rec_turn],
             self.particles.xorigin, self.machine.h_num,
             self.machine.omega_rev0[rec_turn],
             self.machine.dtbin, self._phiwrap)
 
-        yp[rec_prof] = (denergy / self.particles.dEbin
-                        + self.machine.synch_part_y)
+        if deltaturn == 0:
+            xp[rec_prof] = init_xp
+            yp[rec_prof] = (denergy / self.particles.dEbin
+                            + self.machine.synch_part_y)
 
         if self.fortran_flag:
             fortran.print_tracking_status(rec_prof, profile)
@@ -441,9 +443,9 @@ class Tracking(ParticleTracker):
         dphi = dphi0
         denergy = denergy0
         turn = rec_turn
-        profile = rec_prof - 1
+        profile = rec_prof if deltaturn > 0 else rec_prof - 1
 
-        temp_xp = xp[rec_prof]
+        temp_xp = init_xp
 
         while turn > 0:
             selfvolt = self._vself[profile, temp_xp.astype(int)]
-- 
2.43.0


From 54d5b43fa16a3e9ddb951167d08547a0f77c04d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:18 +0000
Subject: [PATCH 33/43] fix: tangent foot on the right mirrors the one on the
 left

The parabola root used a factor 6 where the left side and the derivation
have 5, so a mirrored profile had another bunch length.
---
 longitudinal_tomography/utils/tomographics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/utils/tomographics.py b/longitudinal_tomography/utils/tomographics.py
index 828a7f5..26d0170 100644
--- a/longitudinal_tomography/utils/tomographics.py
+++ b/longitudinal_tomography/utils/tomographics.py
@@ -124,7 +124,7 @@ def foot_tangent_fit(y: Iterable[float], dx: float = 1) -> Tuple[float, float]:
 
     foot_left = left_index - 5*np.sum(y_left)/(-6*y_left[0] - 2*y_left[1]
                                                +2*y_left[2] + 6*y_left[3])
-    foot_right = right_index - 6*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
+    foot_right = right_index - 5*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
                                                   +2*y_right[2] + 6*y_right[3])
 
     return foot_left * dx, foot_right * dx
@@ -147,7 +147,7 @@ def foot_tangent_fit_density(y: Iterable[float], x: Iterable[float],
 
     y_right = y_zero[right_index - 2:right_index + 2]
 
-    foot_right = right_index - 6*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
+    foot_right = right_index - 5*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
                                                   +2*y_right[2] + 6*y_right[3])
 
     foot_density = np.interp(foot_right, np.arange(len(x)), x)
-- 
2.43.0


From a2adedb5896b2ecbb71e4b09253ce52b43b61bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:18 +0000
Subject: [PATCH 34/43] fix: clip weights when a single particle lies inside
 the contour

idx_minmax is an array: append() raised AttributeError.
---
 longitudinal_tomography/utils/tomographics.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/longitudinal_tomography/utils/tomographics.py b/longitudinal_tomography/utils/tomographics.py
index 26d0170..d17d0c9 100644
--- a/longitudinal_tomography/utils/tomographics.py
+++ b/longitudinal_tomography/utils/tomographics.py
@@ -613,9 +613,7 @@ def tomo_weight_clipping(tomomachine: MachineABC, time_array: Iterable[float],
             idx_minmax = np.append(idx_minmax, idx_max)
 
         elif len(idx_in) == 1:
-            idx_minmax.append(np.where(map_tomo_y
-                                       == np.max(map_tomo_y[idx_in,
-                                                            idx_frame]))[0][0])
+            idx_minmax = np.append(idx_minmax, idx_in[0])
 
     new_weight_tomo = (new_weight_tomo
                        / np.sum(new_weight_tomo)
-- 
2.43.0


From 494a8bfc6b761848d16f19283f5cb840603dce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:18 +0000
Subject: [PATCH 35/43] fix: matched area of short and long bunches

The level of the potential is found within its range (an unbounded search
left it for short and long bunches), and the left side is sorted before
interpolation as the right side is.
---
 longitudinal_tomography/utils/tomographics.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/longitudinal_tomography/utils/tomographics.py b/longitudinal_tomography/utils/tomographics.py
index d17d0c9..3b077a8 100644
--- a/longitudinal_tomography/utils/tomographics.py
+++ b/longitudinal_tomography/utils/tomographics.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 import scipy.signal
 import numpy as np
 import matplotlib.pyplot as plt
-from scipy.optimize import minimize
+from scipy.optimize import minimize_scalar
 from typing import TYPE_CHECKING
 
 # Local imports
@@ -162,7 +162,8 @@ def _urf_length_at_level(phi_array: Iterable[float], urf: Iterable[float],
     urf_left = urf[phi_array < phi_0] - urf_level
     urf_right = urf[phi_array > phi_0] - urf_level
 
-    phi_left = np.interp(0, urf_left, phi_array[phi_array < phi_0])
+    phi_left = np.interp(0, urf_left[np.argsort(urf_left)],
+                         phi_array[phi_array < phi_0][np.argsort(urf_left)])
     phi_right = np.interp(0, urf_right[np.argsort(urf_right)],
                           phi_array[phi_array > phi_0][np.argsort(urf_right)])
     phi_tot = phi_right - phi_left
@@ -221,10 +222,11 @@ def matched_area_calc(tomomachine: MachineABC, bunch_length: float,
     urf = (tomomachine.vrf1 * (np.cos(phi_0) - np.cos(phi_array))
            + (phi_0 - phi_array) * tomomachine.vrf1 * np.sin(phi_0))
 
-    urf_level_opti = minimize(_residue_urf_length,
-                              (np.max(urf) - np.min(urf))/2 + np.min(urf),
-                              args=(bunch_length_phase, phi_array, urf, phi_0),
-                              method='Powell')['x']
+    urf_level_opti = minimize_scalar(_residue_urf_length,
+                                     bounds=(np.min(urf), np.max(urf)),
+                                     args=(bunch_length_phase, phi_array, urf,
+                                           phi_0),
+                                     method='bounded').x
 
     phi_tot, phi_right, phi_left = _urf_length_at_level(phi_array, urf, phi_0,
                                                         urf_level_opti)
-- 
2.43.0


From 3de1e9b4bc4534151b8d9acba5c1732382f71adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:18 +0000
Subject: [PATCH 36/43] fix: density along a trajectory that passes between two
 energy bins

With no bin inside, the interpolated density is used instead of raising
IndexError.
---
 longitudinal_tomography/utils/tomographics.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/longitudinal_tomography/utils/tomographics.py b/longitudinal_tomography/utils/tomographics.py
index 3b077a8..9a40f75 100644
--- a/longitudinal_tomography/utils/tomographics.py
+++ b/longitudinal_tomography/utils/tomographics.py
@@ -434,6 +434,20 @@ def density_vs_emittance(tomomachine: MachineABC, tomo_image: Iterable[float],
             good_idx = np.where((dE_array > -dE_height_array[idx_time])
                                 *(dE_array < dE_height_array[idx_time]))[0]
 
+            if len(good_idx) == 0:
+                # The trajectory passes between two energy bins
+                crossings = np.interp([-dE_height_array[idx_time],
+                                       dE_height_array[idx_time]],
+                                      dE_array, tomo_image[idx_time])
+                summed_density += np.trapz(crossings,
+                                           dx=(2*dE_height_array[idx_time]
+                                               / dE_resolution))
+                local_density += np.mean(crossings)
+                local_density_min = np.min([local_density_min, *crossings])
+                local_density_max = np.max([local_density_max, *crossings])
+                n_points_local += 1
+                continue
+
             summed_density += np.trapz(tomo_image[idx_time, good_idx])
 
             cross_dE_top = np.interp(dE_height_array[idx_time],
-- 
2.43.0


From ab6f6f986f3fc38d080b14272cf154806e471a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 37/43] fix: track in single precision whatever type of number
 h_ratio and phi12 are

---
 longitudinal_tomography/tracking/tracking.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index b7f5c44..35593f6 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -207,6 +207,11 @@ class Tracking(ParticleTracker):
         if np.ndim(phi12) > 0:
             # All arrays must be of the same precision.
             phi12 = conf.cast(phi12)
+        else:
+            # Another type of number would select the routine working on
+            # copies of the arrays in double precision.
+            phi12 = float(phi12)
+        h_ratio = float(machine.h_ratio)
 
         # Tracking particles
         if self.self_field_flag:
@@ -225,7 +230,7 @@ class Tracking(ParticleTracker):
 
             conf.kick_and_drift(xp, yp, denergy, dphi, rfv1, rfv2, phi0,
                                 deltaE0, drift_coef, phi12,
-                                machine.h_ratio, machine.dturns, recprof,
+                                h_ratio, machine.dturns, recprof,
                                 deltaturn, nturns, nparts, self.fortran_flag,
                                 callback=callback)
 
-- 
2.43.0


From 685fff066a5a84d54caf324bafa98e6b3eb3866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 38/43] fix: load the kernels of the selected precision when
 the GPU is selected again

---
 longitudinal_tomography/utils/tomo_config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/longitudinal_tomography/utils/tomo_config.py b/longitudinal_tomography/utils/tomo_config.py
index edfd5cb..d0d7669 100644
--- a/longitudinal_tomography/utils/tomo_config.py
+++ b/longitudinal_tomography/utils/tomo_config.py
@@ -90,6 +90,9 @@ class AppConfig:
 
         from longitudinal_tomography.python_routines import kick_and_drift_cuda, reconstruct_cuda, data_treatment
 
+        # The device may have been set up with another precision
+        cls.load_modules_and_refresh_kernels(single_prec)
+
         gpu_func_dict = {
             'kick_and_drift': kick_and_drift_cuda.kick_and_drift_cuda,
             'reconstruct': reconstruct_cuda.reconstruct_cuda,
-- 
2.43.0


From f183fe6cae51ce5a566cf0d503d59335737d7e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 39/43] fix: hand phi12 and h_ratio to the tracking kernels in
 the selected precision

---
 .../python_routines/kick_and_drift_cuda.py                   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/longitudinal_tomography/python_routines/kick_and_drift_cuda.py b/longitudinal_tomography/python_routines/kick_and_drift_cuda.py
index 373ef24..d2db12f 100644
--- a/longitudinal_tomography/python_routines/kick_and_drift_cuda.py
+++ b/longitudinal_tomography/python_routines/kick_and_drift_cuda.py
@@ -8,6 +8,7 @@ import cupy as cp
 import logging
 from typing import Tuple
 from ..utils.tomo_config import GPUDev
+from ..utils.tomo_config import AppConfig as conf
 
 log = logging.getLogger(__name__)
 
@@ -52,7 +53,9 @@ def kick_and_drift_cuda(xp: cp.ndarray, yp: cp.ndarray,
                    ftn_out: bool,
                    callback
                    ) -> Tuple[cp.ndarray, cp.ndarray]:
-    phi12_arr = cp.full(nturns+1, phi12)
+    # The kernels take all values in the selected precision
+    phi12_arr = cp.full(nturns+1, phi12, dtype=conf.get_precision())
+    h_ratio = conf.get_precision()(h_ratio)
     # Preparation end
 
     profile = rec_prof
-- 
2.43.0


From fdb801c41163bea2e9953cfdb3570f79618a10b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 40/43] fix: track from between two profiles on the GPU as on
 the CPU

---
 .../python_routines/kick_and_drift_cuda.py        | 15 +++++++++------
 .../python_routines/kick_and_drift_cupy.py        | 14 +++++++++-----
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/longitudinal_tomography/python_routines/kick_and_drift_cuda.py b/longitudinal_tomography/python_routines/kick_and_drift_cuda.py
index d2db12f..de7f380 100644
--- a/longitudinal_tomography/python_routines/kick_and_drift_cuda.py
+++ b/longitudinal_tomography/python_routines/kick_and_drift_cuda.py
@@ -64,6 +64,9 @@ def kick_and_drift_cuda(xp: cp.ndarray, yp: cp.ndarray,
     if deltaturn < 0:
         profile -= 1
 
+    # Row holding the initial coordinates while tracking upwards
+    start = profile
+
     # Value-based copy to avoid side-effects
     xp[profile] = cp.copy(dphi)
     yp[profile] = cp.copy(denergy)
@@ -72,14 +75,14 @@ def kick_and_drift_cuda(xp: cp.ndarray, yp: cp.ndarray,
                         phi0, phi12_arr, h_ratio, nparts, deltaE0,
                         turn, nturns, dturns, profile)
 
-    profile = rec_prof
-    turn = rec_prof * dturns
-
+    # A start between two profiles lies after the profile of its row
+    profile = start if deltaturn == 0 else start + 1
+    turn = rec_prof * dturns + deltaturn
 
-    if profile > 0:
+    if turn > 0:
         # going back to initial coordinates
-        dphi = cp.copy(xp[rec_prof])
-        denergy = cp.copy(yp[rec_prof])
+        dphi = cp.copy(xp[start])
+        denergy = cp.copy(yp[start])
 
         kick_drift_down_whole(dphi, denergy, xp, yp, drift_coef, rfv1, rfv2,
                         phi0, phi12_arr, h_ratio, nparts, deltaE0,
diff --git a/longitudinal_tomography/python_routines/kick_and_drift_cupy.py b/longitudinal_tomography/python_routines/kick_and_drift_cupy.py
index 650c307..d211525 100644
--- a/longitudinal_tomography/python_routines/kick_and_drift_cupy.py
+++ b/longitudinal_tomography/python_routines/kick_and_drift_cupy.py
@@ -83,6 +83,9 @@ def kick_and_drift_cupy(xp: cp.ndarray, yp: cp.ndarray,
     if deltaturn < 0:
         profile -= 1
 
+    # Row holding the initial coordinates while tracking upwards
+    start = profile
+
     # Value-based copy to avoid side-effects
     xp[profile] = cp.copy(dphi)
     yp[profile] = cp.copy(denergy)
@@ -98,13 +101,14 @@ def kick_and_drift_cupy(xp: cp.ndarray, yp: cp.ndarray,
             xp[profile] = cp.copy(dphi)
             yp[profile] = cp.copy(denergy)
 
-    profile = rec_prof
-    turn = rec_prof * dturns
+    # A start between two profiles lies after the profile of its row
+    profile = start if deltaturn == 0 else start + 1
+    turn = rec_prof * dturns + deltaturn
 
-    if profile > 0:
+    if turn > 0:
         # going back to initial coordinates
-        dphi = cp.copy(xp[rec_prof])
-        denergy = cp.copy(yp[rec_prof])
+        dphi = cp.copy(xp[start])
+        denergy = cp.copy(yp[start])
 
         # Downwards
         while turn > 0:
-- 
2.43.0


From c82a52478f73bc1495f59b9b3e7288aaeed6ea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 41/43] fix: do not add the previous projection to the next one
 on the GPU

---
 longitudinal_tomography/python_routines/reconstruct_cuda.py | 2 ++
 longitudinal_tomography/python_routines/reconstruct_cupy.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/longitudinal_tomography/python_routines/reconstruct_cuda.py b/longitudinal_tomography/python_routines/reconstruct_cuda.py
index a1f38a3..b5516e7 100644
--- a/longitudinal_tomography/python_routines/reconstruct_cuda.py
+++ b/longitudinal_tomography/python_routines/reconstruct_cuda.py
@@ -150,6 +150,7 @@ def reconstruct_cuda(xp: cp.ndarray,
         if verbose:
             print(f"{iteration+1:3}")
 
+        flat_rec.fill(0)
         flat_rec = project(flat_rec, flat_points, weights, n_particles, n_profiles, n_bins)
         flat_rec = normalize(flat_rec, n_profiles, n_bins)
         diff_prof = find_difference_profile(flat_rec, flat_profiles)
@@ -162,6 +163,7 @@ def reconstruct_cuda(xp: cp.ndarray,
             raise RuntimeError("All of phase space got reduced to zeros")
 
     # Calculating final discrepancy
+    flat_rec.fill(0)
     flat_rec = project(flat_rec, flat_points, weights, n_particles, n_profiles, n_bins)
     flat_rec = normalize(flat_rec, n_profiles, n_bins)
     diff_prof = find_difference_profile(flat_rec, flat_profiles)
diff --git a/longitudinal_tomography/python_routines/reconstruct_cupy.py b/longitudinal_tomography/python_routines/reconstruct_cupy.py
index cbcd957..b736195 100644
--- a/longitudinal_tomography/python_routines/reconstruct_cupy.py
+++ b/longitudinal_tomography/python_routines/reconstruct_cupy.py
@@ -20,7 +20,7 @@ def project(flat_rec: cp.ndarray,
             flat_points: cp.ndarray,
             weights: cp.ndarray, n_particles: int,
             n_profiles: int, n_bins: int) -> cp.ndarray:
-    return cp.bincount(flat_points.reshape(-1), weights.repeat(n_profiles), minlength=n_profiles * n_bins) + flat_rec
+    return cp.bincount(flat_points.reshape(-1), weights.repeat(n_profiles), minlength=n_profiles * n_bins)
 
 def normalize(flat_rec: cp.ndarray,
               n_profiles: int, n_bins: int) -> cp.ndarray:
-- 
2.43.0


From 2b40fa8588c1c613225f77b6ece3027f404bf2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 42/43] fix: find the fullest bin among all bins in the CuPy
 reconstruction

---
 longitudinal_tomography/python_routines/reconstruct_cupy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/python_routines/reconstruct_cupy.py b/longitudinal_tomography/python_routines/reconstruct_cupy.py
index b736195..60adc01 100644
--- a/longitudinal_tomography/python_routines/reconstruct_cupy.py
+++ b/longitudinal_tomography/python_routines/reconstruct_cupy.py
@@ -75,7 +75,7 @@ def reciprocal_particles(xp: cp.ndarray,
                          n_particles: int) -> cp.ndarray:
 
     rparts = count_particles_in_bin(xp, n_profiles, n_particles, n_bins)
-    max_bin_val = max_2d(rparts, n_particles, n_profiles)
+    max_bin_val = max_2d(rparts, n_bins, n_profiles)
 
     # Setting 0's to 1's to avoid zero division
     rparts = cp.where(rparts == 0, 1, rparts)
-- 
2.43.0


From c1a2d0839f4dc7bd08549f3d069fd1ce60353df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 43/43] fix: refuse particles outside of the phase space image
 on the GPU

---
 longitudinal_tomography/python_routines/data_treatment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/longitudinal_tomography/python_routines/data_treatment.py b/longitudinal_tomography/python_routines/data_treatment.py
index 2468bc7..602b672 100644
--- a/longitudinal_tomography/python_routines/data_treatment.py
+++ b/longitudinal_tomography/python_routines/data_treatment.py
@@ -9,6 +9,9 @@ def make_phase_space(xp: conf.ndarray[conf.int32],
                      yp: conf.ndarray[conf.int32],
                      weights: conf.ndarray,
                      n_bins: int, result_cpu: bool = True) -> conf.ndarray:
+    if conf.any((xp < 0) | (xp >= n_bins) | (yp < 0) | (yp >= n_bins)):
+        raise IndexError('Index out of bounds')
+
     index = yp + xp * n_bins
 
     phase_space = conf.zeros(n_bins**2)
-- 
2.43.0

