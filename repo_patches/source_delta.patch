From 7cd18dfa3e0a0184aaf1ea002869757a8bf54b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:44 +0000
Subject: [PATCH 01/44] fix: allocate phi12 for every turn that tracking reads

kick_and_drift with a scalar phi12 reads the array at turns 0..nturns, but
only nturns values were allocated: heap read past the end.
---
 longitudinal_tomography/cpp_routines/libtomo.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/libtomo.cpp b/longitudinal_tomography/cpp_routines/libtomo.cpp
index 84f75d7..e3fe585 100644
--- a/longitudinal_tomography/cpp_routines/libtomo.cpp
+++ b/longitudinal_tomography/cpp_routines/libtomo.cpp
@@ -211,11 +211,12 @@ py::tuple wrapper_kick_and_drift_scalar(
         const bool ftn_out,
         const std::optional<const py::object> callback
 ) {
-    real_t *ptr_phi12 = new real_t[nturns];
-    std::fill_n(ptr_phi12, nturns, phi12);
+    // phi12 is read at turns 0..nturns (inclusive), like the other turn-by-turn arrays
+    real_t *ptr_phi12 = new real_t[nturns + 1];
+    std::fill_n(ptr_phi12, nturns + 1, phi12);
 
     py::capsule capsule(ptr_phi12, [](void *p) { delete[] reinterpret_cast<real_t *>(p); });
-    real_Tarr arr_phi12({nturns}, ptr_phi12, capsule);
+    real_Tarr arr_phi12({nturns + 1}, ptr_phi12, capsule);
 
     wrapper_kick_and_drift_array(input_xp, input_yp, input_denergy, input_dphi, input_rf1v, input_rf2v, input_phi0,
                                  input_deltaE0,
-- 
2.43.0


From 2ca319f347707d39426316a05547f7e8f1142987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:03 +0000
Subject: [PATCH 02/44] fix: project every iteration onto an empty waterfall

The recreated profiles of the previous iteration were left in place and added
to the next projection, so neither the recreated waterfall nor the difference
it drives was the projection of the current weights (run_hybrid already starts
from zeros).
---
 longitudinal_tomography/cpp_routines/reconstruct.cpp        | 5 +++++
 longitudinal_tomography/python_routines/reconstruct_cuda.py | 4 ++--
 longitudinal_tomography/python_routines/reconstruct_cupy.py | 4 ++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 65188f7..78cf4af 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -10,6 +10,7 @@
 
 #include <iostream>
 #include <iomanip>
+#include <algorithm>
 #include <stdexcept>
 #include <cmath>
 #include <functional>
@@ -402,6 +403,7 @@ void reconstruct(real_t *weights,             // out
             if (verbose)
                 std::cout << std::setw(3) << iteration + 1 << std::endl;
 
+            std::fill_n(flat_rec, all_bins, 0);
             project(flat_rec, flat_points, weights, npart, nprof);
             normalize(flat_rec, nprof, nbins);
 
@@ -421,6 +423,7 @@ void reconstruct(real_t *weights,             // out
         } //end for
 
         // Calculating final discrepancy
+        std::fill_n(flat_rec, all_bins, 0);
         project(flat_rec, flat_points, weights, npart, nprof);
         normalize(flat_rec, nprof, nbins);
 
@@ -498,6 +501,7 @@ void reconstruct_multi(real_t *weights,             // out
             if (verbose)
                 std::cout << std::setw(3) << iteration + 1 << std::endl;
 
+            std::fill_n(flat_rec, all_bins, 0);
             project_multi(flat_rec, flat_points, weights, centers, npart, nprof, ncenter);
             normalize(flat_rec, nprof, nbins);
             find_difference_profile(diff_prof, flat_rec, flat_profiles, all_bins);
@@ -518,6 +522,7 @@ void reconstruct_multi(real_t *weights,             // out
         } //end for
 
         // Calculating final discrepancy
+        std::fill_n(flat_rec, all_bins, 0);
         project_multi(flat_rec, flat_points, weights, centers, npart, nprof, ncenter);
         normalize(flat_rec, nprof, nbins);
 
diff --git a/longitudinal_tomography/python_routines/reconstruct_cuda.py b/longitudinal_tomography/python_routines/reconstruct_cuda.py
index a1f38a3..336f7e8 100644
--- a/longitudinal_tomography/python_routines/reconstruct_cuda.py
+++ b/longitudinal_tomography/python_routines/reconstruct_cuda.py
@@ -150,7 +150,7 @@ def reconstruct_cuda(xp: cp.ndarray,
         if verbose:
             print(f"{iteration+1:3}")
 
-        flat_rec = project(flat_rec, flat_points, weights, n_particles, n_profiles, n_bins)
+        flat_rec = project(cp.zeros_like(flat_rec), flat_points, weights, n_particles, n_profiles, n_bins)
         flat_rec = normalize(flat_rec, n_profiles, n_bins)
         diff_prof = find_difference_profile(flat_rec, flat_profiles)
         discr[iteration] = discrepancy(diff_prof, n_profiles, n_bins)
@@ -162,7 +162,7 @@ def reconstruct_cuda(xp: cp.ndarray,
             raise RuntimeError("All of phase space got reduced to zeros")
 
     # Calculating final discrepancy
-    flat_rec = project(flat_rec, flat_points, weights, n_particles, n_profiles, n_bins)
+    flat_rec = project(cp.zeros_like(flat_rec), flat_points, weights, n_particles, n_profiles, n_bins)
     flat_rec = normalize(flat_rec, n_profiles, n_bins)
     diff_prof = find_difference_profile(flat_rec, flat_profiles)
     discr[n_iter] = discrepancy(diff_prof, n_profiles, n_bins)
diff --git a/longitudinal_tomography/python_routines/reconstruct_cupy.py b/longitudinal_tomography/python_routines/reconstruct_cupy.py
index cbcd957..9aa31ff 100644
--- a/longitudinal_tomography/python_routines/reconstruct_cupy.py
+++ b/longitudinal_tomography/python_routines/reconstruct_cupy.py
@@ -121,7 +121,7 @@ def reconstruct_cupy(xp: cp.ndarray,
         if verbose:
             print(f"{iteration+1:3}")
 
-        flat_rec = project(flat_rec, flat_points, weights, n_particles, n_profiles, n_bins)
+        flat_rec = project(cp.zeros_like(flat_rec), flat_points, weights, n_particles, n_profiles, n_bins)
         flat_rec = normalize(flat_rec, n_profiles, n_bins)
         diff_prof = find_difference_profile(flat_rec, flat_profiles)
         discr[iteration] = discrepancy(diff_prof, n_profiles, n_bins)
@@ -134,7 +134,7 @@ def reconstruct_cupy(xp: cp.ndarray,
             raise RuntimeError("All of phase space got reduced to zeros")
 
     # Calculating final discrepancy
-    flat_rec = project(flat_rec, flat_points, weights, n_particles, n_profiles, n_bins)
+    flat_rec = project(cp.zeros_like(flat_rec), flat_points, weights, n_particles, n_profiles, n_bins)
     flat_rec = normalize(flat_rec, n_profiles, n_bins)
     diff_prof = find_difference_profile(flat_rec, flat_profiles)
     discr[n_iter] = discrepancy(diff_prof, n_profiles, n_bins)
-- 
2.43.0


From 42cc0156158ee924699f0f416cd316b0f5dae3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:35 +0000
Subject: [PATCH 03/44] fix: remove data races from the parallel reconstruction
 loops

Index temporaries and accumulators were shared between OpenMP threads, and the
multi-bunch loops let several threads update the same weight, bin or mask
element.
---
 .../cpp_routines/reconstruct.cpp              | 21 +++++++------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 78cf4af..e50985a 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -38,7 +38,7 @@ void back_project_multi(real_t *weights,                     // inn/out
                         const int npart,
                         const int nprof,
                         const int ncenter) {     // inn
-    #pragma omp parallel for collapse(3)
+    #pragma omp parallel for collapse(2)
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
@@ -73,7 +73,6 @@ void project_multi(real_t *flat_rec,                     // inn/out
                    const int nprof,
                    const int ncenter) {      // inn
 
-    #pragma omp parallel for
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
@@ -159,10 +158,10 @@ void discrepancy_multi(const real_t *diff_prof,   // inn
                          const int ncenter) {
 
     int all_bins = nprof * nbins;
-    real_t squared_sum = 0;
     #pragma omp parallel for
     for (int c = 0; c < ncenter; c++)
     {
+        real_t squared_sum = 0;
         for (int i = 0; i < all_bins; i++)
         {
             if (i < cutright[c] && i > cutleft[c])
@@ -241,12 +240,10 @@ void count_particles_in_bin_multi(real_t *rparts,
                                   const int nbins,
                                   const int ncenters) {
 
-    int bin;
-    #pragma omp parallel for
     for (int c = 0; c < ncenters; c++) {
         for (int j = 0; j < npart; j++) {
             for (int i = 0; i < nprof; i++) {
-                bin = xpRound0[j * nprof + i] + centers[c];
+                const int bin = xpRound0[j * nprof + i] + centers[c];
                 rparts[bin + i * nbins] += 1;
             }
         }
@@ -274,11 +271,10 @@ void reciprocal_particles(real_t *rparts,    // out
             rparts[i] = 1.0;
 
     // Creating reciprocal
-    int idx;
     #pragma omp parallel for
     for (int i = 0; i < nprof; i++)
         for (int j = 0; j < nbins; j++) {
-            idx = i * nbins + j;
+            const int idx = i * nbins + j;
             rparts[idx] = (real_t) max_bin_val / rparts[idx];
         }
 }
@@ -305,11 +301,10 @@ void reciprocal_particles_multi(real_t *rparts,   // out
             rparts[i] = 1.0;
 
     // Creating reciprocal
-    int idx;
     #pragma omp parallel for collapse(2)
     for (int i = 0; i < nprof; i++)
         for (int j = 0; j < nbins; j++) {
-            idx = i * nbins + j;
+            const int idx = i * nbins + j;
             rparts[idx] = (double) max_bin_val / rparts[idx];
         }
 }
@@ -338,16 +333,14 @@ void create_mask(const int *xpRound0,       //inn
                  const int nprof,
                  const int ncenter) {
 
-    int bin;
-
-    #pragma omp parallel for collapse(3)
+    #pragma omp parallel for collapse(2)
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
         {
             for (int j = 0; j < nprof; j++)
             {
-                bin = xpRound0[i * nprof + j] + centers[c];
+                const int bin = xpRound0[i * nprof + j] + centers[c];
                 if ((bin < cutleft[c]) || (bin > cutright[c])) {mask[i + c*npart] = false;}
             }
         }
-- 
2.43.0


From 9f6d1bff0ffe66ec9a83429389325f6962f7b597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:35 +0000
Subject: [PATCH 04/44] fix: treat every bunch alike in the multi-bunch
 reconstruction

The per-bunch discrepancy compared its cuts with a position in the flattened
waterfall (so only the first profile could count), and clipping and the test
for an empty phase space only looked at the first bunch.
---
 .../cpp_routines/reconstruct.cpp                    | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index e50985a..f2c1376 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -157,16 +157,15 @@ void discrepancy_multi(const real_t *diff_prof,   // inn
                          const int nbins,
                          const int ncenter) {
 
-    int all_bins = nprof * nbins;
     #pragma omp parallel for
     for (int c = 0; c < ncenter; c++)
     {
         real_t squared_sum = 0;
-        for (int i = 0; i < all_bins; i++)
+        for (int i = 0; i < nprof; i++)
         {
-            if (i < cutright[c] && i > cutleft[c])
+            for (int j = std::max(cutleft[c], 0); j < std::min(cutright[c], nbins); j++)
             {
-                squared_sum += std::pow(diff_prof[i], 2.0);
+                squared_sum += std::pow(diff_prof[i * nbins + j], 2.0);
             }
         }
         disc[iteration * ncenter + c] = std::sqrt(squared_sum / (nprof * (cutright[c] - cutleft[c])));
@@ -482,9 +481,9 @@ void reconstruct_multi(real_t *weights,             // out
         create_flat_points(xpRound0, flat_points, npart, nprof, nbins);
         back_project_multi(weights, flat_points, flat_profiles, mask, centers, npart, nprof, ncenter);
 
-        clip(weights, npart, 0.0);
+        clip(weights, npart*ncenter, 0.0);
 
-        if (sum(weights, npart) <= 0.)
+        if (sum(weights, npart*ncenter) <= 0.)
             throw std::runtime_error("All of phase space got reduced to zeroes");
 
         if (verbose)
@@ -508,7 +507,7 @@ void reconstruct_multi(real_t *weights,             // out
 
             clip(weights, npart*ncenter, 0.0);
 
-            if (sum(weights, npart) <= 0.)
+            if (sum(weights, npart*ncenter) <= 0.)
                 throw std::runtime_error("All of phase space got reduced to zeroes");
 
             callback(iteration + 1, niter);
-- 
2.43.0


From 3d4a5f76b49e894e01306c013a0fee3ad13d2e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:04 +0000
Subject: [PATCH 05/44] fix: keep shifted particles inside the waterfall in
 multi-bunch mode

A particle shifted to a bunch centre can land outside of the profile. It was
still counted and projected, reading and writing outside of the buffers (or in
the neighbouring profile).
---
 .../cpp_routines/reconstruct.cpp                  | 15 +++++++++------
 .../cpp_routines/reconstruct.h                    |  2 ++
 .../tomography/tomography_multibunch.py           | 13 ++++++++-----
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index f2c1376..781f659 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -68,6 +68,7 @@ template <typename real_t>
 void project_multi(real_t *flat_rec,                     // inn/out
                    int *flat_points,        // inn
                    const real_t *weights,   // inn
+                   const bool *mask,        // inn
                    const int *centers,  //inn
                    const int npart,
                    const int nprof,
@@ -79,7 +80,7 @@ void project_multi(real_t *flat_rec,                     // inn/out
         {
             for (int j = 0; j < nprof; j++)
             {
-                flat_rec[flat_points[i*nprof + j] + centers[c]] += weights[i + c*npart];
+                if (mask[i + c*npart]) flat_rec[flat_points[i*nprof + j] + centers[c]] += weights[i + c*npart];
             }
         }
     }
@@ -243,7 +244,8 @@ void count_particles_in_bin_multi(real_t *rparts,
         for (int j = 0; j < npart; j++) {
             for (int i = 0; i < nprof; i++) {
                 const int bin = xpRound0[j * nprof + i] + centers[c];
-                rparts[bin + i * nbins] += 1;
+                if (bin >= 0 && bin < nbins)
+                    rparts[bin + i * nbins] += 1;
             }
         }
 
@@ -330,6 +332,7 @@ void create_mask(const int *xpRound0,       //inn
                  bool *mask,                //out
                  const int npart,
                  const int nprof,
+                 const int nbins,
                  const int ncenter) {
 
     #pragma omp parallel for collapse(2)
@@ -340,7 +343,7 @@ void create_mask(const int *xpRound0,       //inn
             for (int j = 0; j < nprof; j++)
             {
                 const int bin = xpRound0[i * nprof + j] + centers[c];
-                if ((bin < cutleft[c]) || (bin > cutright[c])) {mask[i + c*npart] = false;}
+                if ((bin < cutleft[c]) || (bin > cutright[c]) || (bin < 0) || (bin >= nbins)) {mask[i + c*npart] = false;}
             }
         }
     }
@@ -476,7 +479,7 @@ void reconstruct_multi(real_t *weights,             // out
     // Actual functionality
 
     try {
-        create_mask(xpRound0, centers, cutleft, cutright, mask, npart, nprof, ncenter);
+        create_mask(xpRound0, centers, cutleft, cutright, mask, npart, nprof, nbins, ncenter);
         reciprocal_particles_multi(rparts, xpRound0, centers, nbins, nprof, npart, ncenter);
         create_flat_points(xpRound0, flat_points, npart, nprof, nbins);
         back_project_multi(weights, flat_points, flat_profiles, mask, centers, npart, nprof, ncenter);
@@ -494,7 +497,7 @@ void reconstruct_multi(real_t *weights,             // out
                 std::cout << std::setw(3) << iteration + 1 << std::endl;
 
             std::fill_n(flat_rec, all_bins, 0);
-            project_multi(flat_rec, flat_points, weights, centers, npart, nprof, ncenter);
+            project_multi(flat_rec, flat_points, weights, mask, centers, npart, nprof, ncenter);
             normalize(flat_rec, nprof, nbins);
             find_difference_profile(diff_prof, flat_rec, flat_profiles, all_bins);
 
@@ -515,7 +518,7 @@ void reconstruct_multi(real_t *weights,             // out
 
         // Calculating final discrepancy
         std::fill_n(flat_rec, all_bins, 0);
-        project_multi(flat_rec, flat_points, weights, centers, npart, nprof, ncenter);
+        project_multi(flat_rec, flat_points, weights, mask, centers, npart, nprof, ncenter);
         normalize(flat_rec, nprof, nbins);
 
         find_difference_profile(diff_prof, flat_rec, flat_profiles, all_bins);
diff --git a/longitudinal_tomography/cpp_routines/reconstruct.h b/longitudinal_tomography/cpp_routines/reconstruct.h
index cfb7ee9..a810020 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.h
+++ b/longitudinal_tomography/cpp_routines/reconstruct.h
@@ -47,6 +47,7 @@ template <typename real_t>
 void project_multi(real_t *flat_rec,
                               int *flat_points,
                               const real_t *weights,
+                              const bool *mask,
                               const int *centers,
                               const int npart,
                               const int nprof,
@@ -145,6 +146,7 @@ void create_mask(const int *xpRound0,
                  bool *mask,
                  const int npart,
                  const int nprof,
+                 const int nbins,
                  const int ncenter);
 
 template <typename real_t>
diff --git a/longitudinal_tomography/tomography/tomography_multibunch.py b/longitudinal_tomography/tomography/tomography_multibunch.py
index bc53fd3..40ee6dc 100644
--- a/longitudinal_tomography/tomography/tomography_multibunch.py
+++ b/longitudinal_tomography/tomography/tomography_multibunch.py
@@ -151,9 +151,10 @@ class Tomography(TomographyABC):
             for j in range(nBunches):
                 start = j*self.nparts
                 stop = (j+1)*self.nparts
-                self.recreated = self._project(flat_points + centers[j],
-                                               weight[start:stop],
-                                               self.nparts)
+                self.recreated = self._project(
+                    flat_points[masks[start:stop]] + centers[j],
+                    weight[start:stop][masks[start:stop]],
+                    np.sum(masks[start:stop]))
 
                 self.full_recreated += self.recreated
 
@@ -183,8 +184,10 @@ class Tomography(TomographyABC):
         for j in range(nBunches):
             start = j*self.nparts
             stop = (j+1)*self.nparts
-            self.recreated = self._project(flat_points + centers[j],
-                                           weight[start:stop], self.nparts)
+            self.recreated = self._project(
+                flat_points[masks[start:stop]] + centers[j],
+                weight[start:stop][masks[start:stop]],
+                np.sum(masks[start:stop]))
 
             self.full_recreated += self.recreated
         self.recreated = self._normalize_profiles(self.full_recreated)
-- 
2.43.0


From 32fcab0476a986f10e6be2d5773d6dd832fcc103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:13 +0000
Subject: [PATCH 06/44] fix: count multi-bunch particles in the right profile

count_particles_in_bins_multi expects (nparts, nprofs); the transposed array
mixed up particles and profiles.
---
 longitudinal_tomography/tomography/__tomography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tomography/__tomography.py b/longitudinal_tomography/tomography/__tomography.py
index 0dc3432..50cc241 100644
--- a/longitudinal_tomography/tomography/__tomography.py
+++ b/longitudinal_tomography/tomography/__tomography.py
@@ -263,7 +263,7 @@ class TomographyABC(ABC):
         # for c in centers:
         #     ppb = self._count_particles_in_bins(
         #         ppb, self.nprofs, self.xp+int(np.floor(c)), self.nparts)
-        ppb = libtomo.count_particles_in_bins_multi(ppb, self.xp.T, centers,
+        ppb = libtomo.count_particles_in_bins_multi(ppb, self.xp, centers,
                                                     self.nprofs, self.nparts,
                                                     self.nbins, len(centers))
 
-- 
2.43.0


From 17fd9246890453e6756aa34d4b1e12798080c7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:55 +0000
Subject: [PATCH 07/44] fix: name the particle counting arguments after what
 they are

n_particles and n_profiles were swapped in the keyword names, so calling with
keywords read and wrote outside of the arrays.
---
 longitudinal_tomography/cpp_routines/libtomo.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/libtomo.cpp b/longitudinal_tomography/cpp_routines/libtomo.cpp
index e3fe585..8d9bb54 100644
--- a/longitudinal_tomography/cpp_routines/libtomo.cpp
+++ b/longitudinal_tomography/cpp_routines/libtomo.cpp
@@ -602,16 +602,16 @@ m.def("back_project", &wrapper_back_project, back_project_docs,
 "n_particles"_a, "n_profiles"_a);
 
 m.def("count_particles_in_bins", &wrapper_count_particles_in_bin<d_array, double>, count_particles_in_bin_docs,
-    "input_parts"_a, "input_xp"_a, "n_particles"_a, "n_profiles"_a, "n_bins"_a);
+    "input_parts"_a, "input_xp"_a, "n_profiles"_a, "n_particles"_a, "n_bins"_a);
 
 m.def("count_particles_in_bins", &wrapper_count_particles_in_bin<f_array, float>, count_particles_in_bin_docs,
-    "input_parts"_a, "input_xp"_a, "n_particles"_a, "n_profiles"_a, "n_bins"_a);
+    "input_parts"_a, "input_xp"_a, "n_profiles"_a, "n_particles"_a, "n_bins"_a);
 
 m.def("count_particles_in_bins_multi", &wrapper_count_particles_in_bin_multi<d_array, double>, count_particles_in_bin_docs,
-    "input_parts"_a, "input_xp"_a, "input_centers"_a, "n_particles"_a, "n_profiles"_a, "n_bins"_a, "n_centers"_a);
+    "input_parts"_a, "input_xp"_a, "input_centers"_a, "n_profiles"_a, "n_particles"_a, "n_bins"_a, "n_centers"_a);
 
 m.def("count_particles_in_bins_multi", &wrapper_count_particles_in_bin_multi<f_array, float>, count_particles_in_bin_docs,
-    "input_parts"_a, "input_xp"_a, "input_centers"_a, "n_particles"_a, "n_profiles"_a, "n_bins"_a, "n_centers"_a);
+    "input_parts"_a, "input_xp"_a, "input_centers"_a, "n_profiles"_a, "n_particles"_a, "n_bins"_a, "n_centers"_a);
 
 m.def("reconstruct", &wrapper_reconstruct<d_array, double>, reconstruct_docs,
 "xp"_a, "waterfall"_a, "n_iter"_a, "n_bins"_a, "n_particles"_a,
-- 
2.43.0


From f912662e2b7a9b7c0d35d7e927d1b2717af38a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:23 +0000
Subject: [PATCH 08/44] fix: reject particles outside of the phase space image

Negative coordinates wrote before the image, and a y coordinate beyond the
image was counted in the next column. The image leaked on rejection.
---
 longitudinal_tomography/cpp_routines/data_treatment.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/data_treatment.cpp b/longitudinal_tomography/cpp_routines/data_treatment.cpp
index 1e62b60..a50c015 100644
--- a/longitudinal_tomography/cpp_routines/data_treatment.cpp
+++ b/longitudinal_tomography/cpp_routines/data_treatment.cpp
@@ -22,13 +22,13 @@ template <typename real_t>
 real_t *make_phase_space(const int *const xp, const int *const yp, const real_t *const weight, const int n_particles,
                          const int n_bins) {
     real_t *phase_space = new real_t[n_bins * n_bins]();
-    int n_bins2 = n_bins * n_bins;
 
     for (int i = 0; i < n_particles; i++) {
-        int index = yp[i] + xp[i] * n_bins;
-        if (index >= n_bins2)
+        if (xp[i] < 0 || xp[i] >= n_bins || yp[i] < 0 || yp[i] >= n_bins) {
+            delete[] phase_space;
             throw std::out_of_range("Index out of bounds");
-        phase_space[index] += weight[i];
+        }
+        phase_space[yp[i] + xp[i] * n_bins] += weight[i];
     }
 
     return phase_space;
-- 
2.43.0


From ee70332a0c75db1fc8ad1e79a88d39976aeba630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:54 +0000
Subject: [PATCH 09/44] fix: keep the initial distribution unchanged by
 tracking

track() advanced the coordinates stored in tracking.particles in place, so the
particles object no longer held the initial particle distribution.
---
 longitudinal_tomography/tracking/tracking.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index 91dc3f7..3193c71 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -177,8 +177,9 @@ class Tracking(ParticleTracker):
             self.particles.coordinates_dphi_denergy = conf.cast(init_distr)
             coords = self.particles.coordinates_dphi_denergy
 
-        dphi = coords[0]
-        denergy = coords[1]
+        # The tracking works in place: keep the stored distribution unchanged.
+        dphi = coords[0].copy()
+        denergy = coords[1].copy()
 
         self.init_dphi = dphi.copy()
         self.init_denergy = denergy.copy()
-- 
2.43.0


From 5da188f63c2660c983cfbbf94d85f336b9ef3afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:22 +0000
Subject: [PATCH 10/44] fix: track with a phi12 function in single precision

An uncast phi12 array matched no single precision overload, so the arguments
were converted to temporary copies and the tracked coordinates were lost.
---
 longitudinal_tomography/tracking/tracking.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index 3193c71..adc221d 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -189,6 +189,9 @@ class Tracking(ParticleTracker):
         phi0 = conf.cast(machine.phi0)
         deltaE0 = conf.cast(machine.deltaE0)
         drift_coef = conf.cast(machine.drift_coef)
+        phi12 = machine.phi12
+        if np.ndim(phi12) > 0:
+            phi12 = conf.cast(phi12)
 
         # Tracking particles
         if self.self_field_flag:
@@ -206,7 +209,7 @@ class Tracking(ParticleTracker):
             yp = conf.cast(conf.zeros((machine.nprofiles, nparts)))
 
             conf.kick_and_drift(xp, yp, denergy, dphi, rfv1, rfv2, phi0,
-                                deltaE0, drift_coef, machine.phi12,
+                                deltaE0, drift_coef, phi12,
                                 machine.h_ratio, machine.dturns, recprof,
                                 deltaturn, nturns, nparts, self.fortran_flag,
                                 callback=callback)
-- 
2.43.0


From f772511b7abe05c547e817f09a2b0e1dd4a0231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:26 +0000
Subject: [PATCH 11/44] fix: pass a turn offset in the kick_and_drift
 compatibility wrapper

Without it every later argument was taken for the previous one, or no overload
matched.
---
 longitudinal_tomography/cpp_routines/tomolib_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/tomolib_wrappers.py b/longitudinal_tomography/cpp_routines/tomolib_wrappers.py
index 879083a..1529ea7 100644
--- a/longitudinal_tomography/cpp_routines/tomolib_wrappers.py
+++ b/longitudinal_tomography/cpp_routines/tomolib_wrappers.py
@@ -203,12 +203,12 @@ ftn_out: boolean, optional, default=False
 
     if machine is not None:
         return libtomo.kick_and_drift(xp, yp, denergy, dphi, rfv1, rfv2,
-                                      machine, rec_prof, nturns, nparts,
+                                      machine, rec_prof, 0, nturns, nparts,
                                       ftn_out)
     elif all([x is not None for x in machine_args]):
         return libtomo.kick_and_drift(xp, yp, denergy, dphi, rfv1, rfv2,
                                       phi0, deltaE0, drift_coef, phi12,
-                                      h_ratio, dturns, rec_prof, nturns,
+                                      h_ratio, dturns, rec_prof, 0, nturns,
                                       nparts, ftn_out)
     else:
         raise expt.InputError(
-- 
2.43.0


From 05d71acd7f81aed1c750a0ece4f379183bb8cd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:54 +0000
Subject: [PATCH 12/44] fix: treat x coordinates that are not a number as
 outside of the image

NaN passed both range tests and became an arbitrary integer, used as an index
in C++.
---
 longitudinal_tomography/tomography/__tomography.py | 2 +-
 longitudinal_tomography/tracking/particles.py      | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tomography/__tomography.py b/longitudinal_tomography/tomography/__tomography.py
index 50cc241..b06c7f9 100644
--- a/longitudinal_tomography/tomography/__tomography.py
+++ b/longitudinal_tomography/tomography/__tomography.py
@@ -177,7 +177,7 @@ class TomographyABC(ABC):
                       f'{value.shape[1]} profiles.'
                 raise expt.CoordinateImportError(msg)
 
-            if conf.any(value < 0) or conf.any(value >= self.nbins):
+            if not conf.all((value >= 0) & (value < self.nbins)):
                 msg = 'X coordinate of particles outside of image width'
                 raise expt.XPOutOfImageWidthError(msg)
 
diff --git a/longitudinal_tomography/tracking/particles.py b/longitudinal_tomography/tracking/particles.py
index c0233e6..eb96dac 100644
--- a/longitudinal_tomography/tracking/particles.py
+++ b/longitudinal_tomography/tracking/particles.py
@@ -264,7 +264,8 @@ def filter_lost(xp: np.ndarray, yp: np.ndarray, img_width: int) \
     nr_lost_pts = 0
     
     # Find all particles outside of image width
-    invalid_pts = conf.argwhere(conf.logical_or(xp >= img_width, xp < 0))
+    # (written to be true also for coordinates that are not numbers)
+    invalid_pts = conf.argwhere(~conf.logical_and(xp >= 0, xp < img_width))
 
     if conf.size(invalid_pts) > 0:
         # Mark particle as invalid only once
-- 
2.43.0


From e2af02021eb21cfbcdec31df26b5b7d382c79b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:08 +0000
Subject: [PATCH 13/44] fix: leave the caller's density and profile unchanged

density_to_macro thresholded the given density and show normalised the given
profile in place.
---
 longitudinal_tomography/data/data_treatment.py | 5 ++---
 longitudinal_tomography/utils/tomo_output.py   | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/data/data_treatment.py b/longitudinal_tomography/data/data_treatment.py
index 9b90104..95844af 100644
--- a/longitudinal_tomography/data/data_treatment.py
+++ b/longitudinal_tomography/data/data_treatment.py
@@ -261,9 +261,8 @@ def density_to_macro(tRange: Iterable[float], ERange: Iterable[float],
     dEbin = ERange[1] - ERange[0]
 
     sumDens = np.sum(density)
-    density[density / sumDens < threshold] = 0
-
-    prob = density.flatten()
+    prob = np.array(density).flatten()
+    prob[prob / sumDens < threshold] = 0
     prob = prob / np.sum(prob)
     coords = np.array(list(itl.product(tRange, ERange)))
     n_macro = int(n_macro)
diff --git a/longitudinal_tomography/utils/tomo_output.py b/longitudinal_tomography/utils/tomo_output.py
index 9f0bdc0..7213209 100644
--- a/longitudinal_tomography/utils/tomo_output.py
+++ b/longitudinal_tomography/utils/tomo_output.py
@@ -131,7 +131,7 @@ def show(image: np.ndarray, diff: np.ndarray, rec_prof: np.ndarray,
     """
 
     # Normalizing recprof:
-    rec_prof[:] /= np.sum(rec_prof)
+    rec_prof = rec_prof / np.sum(rec_prof)
 
     # Creating plot
     gs = gridspec.GridSpec(4, 4)
-- 
2.43.0


From 94de0a7d269df9e6ee190b096a4d4eaccff85ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:52 +0000
Subject: [PATCH 14/44] fix: do not lose or gain a bin to rounding in the phase
 limits

A max_dt of exactly nbins * dtbin could give nbins + 1 bins and an IndexError
in the particle generation; min_dt could be a bin low.
---
 longitudinal_tomography/tracking/phase_space_info.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tracking/phase_space_info.py b/longitudinal_tomography/tracking/phase_space_info.py
index 58f5093..3eb69bc 100644
--- a/longitudinal_tomography/tracking/phase_space_info.py
+++ b/longitudinal_tomography/tracking/phase_space_info.py
@@ -283,8 +283,10 @@ class PhaseSpaceInfo:
             -> Tuple[np.ndarray, np.ndarray, int, int]:
 
         # Maximum and minimum bin, as specified by user.
-        max_dtbin = int(np.ceil(self.machine.max_dt / self.machine.dtbin))
-        min_dtbin = int(self.machine.min_dt / self.machine.dtbin)
+        # Rounding errors of the division must not move a limit by a bin.
+        max_dtbin = int(np.ceil(np.round(
+            self.machine.max_dt / self.machine.dtbin, 9)))
+        min_dtbin = int(np.round(self.machine.min_dt / self.machine.dtbin, 9))
 
         if min_dtbin > imin or self.machine.full_pp_flag:
             imin = min_dtbin
-- 
2.43.0


From fe19b2ac38df37000acd7c4bf29716c539871fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:16 +0000
Subject: [PATCH 15/44] fix: accept phi12 as a constant or an array in
 ProgramsMachine

A scalar phi12 was subscripted, the size of an array was called, and the two
array layouts were compared with the wrong axis.
---
 longitudinal_tomography/tracking/programs_machine.py | 8 ++++----
 longitudinal_tomography/utils/physics.py             | 6 ++++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/longitudinal_tomography/tracking/programs_machine.py b/longitudinal_tomography/tracking/programs_machine.py
index a1075ed..2cb5729 100644
--- a/longitudinal_tomography/tracking/programs_machine.py
+++ b/longitudinal_tomography/tracking/programs_machine.py
@@ -133,11 +133,11 @@ class ProgramsMachine(MachineABC):
             )
         elif self.process_phase == 0:
             if isinstance(self.phi12, np.ndarray):
-                if self.phi12.size() == 1:
-                    pass
-                elif len(self.phi12.shape) == 2 and self.phi12.shape[1] == 2:
+                if self.phi12.size == 1:
+                    self.phi12 = float(self.phi12.item())
+                elif len(self.phi12.shape) == 2 and self.phi12.shape[0] == 2:
                     self.phi12 = np.interp(momentum_time, *self.phi12)
-                elif len(self.phi12) == len(self.voltage_raw):
+                elif len(self.phi12) == self.voltage_raw.shape[1]:
                     self.phi12 = np.interp(momentum_time, self.voltage_raw[0],
                                            self.phi12)
                 else:
diff --git a/longitudinal_tomography/utils/physics.py b/longitudinal_tomography/utils/physics.py
index b8a6a89..9897778 100644
--- a/longitudinal_tomography/utils/physics.py
+++ b/longitudinal_tomography/utils/physics.py
@@ -206,7 +206,8 @@ def rf_voltage_pmch(phi: float, machine: 'ProgramsMachine', rf_turn: int) \
     v1 = machine.vrf1_at_turn[rf_turn]
     v2 = machine.vrf2_at_turn[rf_turn]
     bdot = machine.bdot[rf_turn]
-    phi12 = machine.phi12[rf_turn]
+    phi12 = machine.phi12[rf_turn] if np.ndim(machine.phi12) > 0 \
+        else machine.phi12
 
     return rf_voltage(phi, v1, v2, bdot, machine.h_ratio,
                       phi12, machine.mean_orbit_rad,
@@ -260,7 +261,8 @@ def drf_voltage_pmch(phi: float, machine: 'ProgramsMachine', rf_turn: int) \
     """Objective function used in phi0 Newton optimization"""
     v1 = machine.vrf1_at_turn[rf_turn]
     v2 = machine.vrf2_at_turn[rf_turn]
-    phi12 = machine.phi12[rf_turn]
+    phi12 = machine.phi12[rf_turn] if np.ndim(machine.phi12) > 0 \
+        else machine.phi12
     return (v1 * np.cos(phi) + machine.h_ratio * v2 * np.cos(machine.h_ratio
             * (phi - phi12)))
 
-- 
2.43.0


From 0e117aee52f4f43037fd8b383d2e33dd22b92c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:44 +0000
Subject: [PATCH 16/44] fix: reject a waterfall with an empty profile

Normalizing a profile that is zero (or was clipped to zero) divided by zero
and silently turned the whole reconstruction into NaN; only a waterfall with
all profiles empty was rejected.
---
 longitudinal_tomography/tomography/__tomography.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tomography/__tomography.py b/longitudinal_tomography/tomography/__tomography.py
index b06c7f9..d018f48 100644
--- a/longitudinal_tomography/tomography/__tomography.py
+++ b/longitudinal_tomography/tomography/__tomography.py
@@ -226,7 +226,8 @@ class TomographyABC(ABC):
         return self._nprofs
 
     def _normalize_profiles(self, waterfall: np.ndarray) -> np.ndarray:
-        if not waterfall.any():
+        # A profile without any signal can not be normalized
+        if not waterfall.any(axis=1).all():
             raise expt.WaterfallReducedToZero()
         waterfall /= conf.sum(waterfall, axis=1)[:, None]
         return waterfall
-- 
2.43.0


From 10d7d808ec552344dcd1676367e6949b410ebb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:11 +0000
Subject: [PATCH 17/44] fix: report a momentum program that is too short

The interpolation ran past the end of the program (IndexError) before the
documented check for missing data was reached.
---
 longitudinal_tomography/tracking/programs_machine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/longitudinal_tomography/tracking/programs_machine.py b/longitudinal_tomography/tracking/programs_machine.py
index 2cb5729..e007413 100644
--- a/longitudinal_tomography/tracking/programs_machine.py
+++ b/longitudinal_tomography/tracking/programs_machine.py
@@ -315,6 +315,10 @@ class ProgramsMachine(MachineABC):
         k = 0
         while turn < nturns:
 
+            if k >= len(time):
+                raise ValueError('Not enough data in momentum program to '
+                                 f'interpolate {nturns} turns.')
+
             while time_interp[i + 1] <= time[k]:
                 momentum_interp.append(
                     momentum[k - 1] + (momentum[k] - momentum[k - 1]) *
-- 
2.43.0


From 71682c71d651537dd14ff7ad0faa80cb72c9b7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:07 +0000
Subject: [PATCH 18/44] fix: interpolate the momentum program for every turn of
 the record

The loop stopped one turn before the end of the record, so with a momentum
program sampled finer than a revolution all tables were one turn short.
---
 longitudinal_tomography/tracking/programs_machine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tracking/programs_machine.py b/longitudinal_tomography/tracking/programs_machine.py
index e007413..6e67471 100644
--- a/longitudinal_tomography/tracking/programs_machine.py
+++ b/longitudinal_tomography/tracking/programs_machine.py
@@ -313,7 +313,7 @@ class ProgramsMachine(MachineABC):
         turn = self.i0
 
         k = 0
-        while turn < nturns:
+        while turn <= nturns:
 
             if k >= len(time):
                 raise ValueError('Not enough data in momentum program to '
@@ -353,7 +353,7 @@ class ProgramsMachine(MachineABC):
             initial_index = 0
 
         final_index = initial_index + nturns
-        if final_index > len(time_interp) + 1:
+        if final_index > len(time_interp):
             raise ValueError('Not enough data in momentum program to '
                              f'interpolate {nturns} turns.')
 
-- 
2.43.0


From 92b639aff2fd8975c899feeea2091ec8ecf7d0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:34 +0000
Subject: [PATCH 19/44] fix: sign of bdot for negative charges in
 ProgramsMachine

The sign of the charge is applied again where bdot is used, so the
synchronous phase of an accelerated negative beam was that of a
decelerated one.
---
 longitudinal_tomography/tracking/programs_machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tracking/programs_machine.py b/longitudinal_tomography/tracking/programs_machine.py
index 6e67471..6aeee59 100644
--- a/longitudinal_tomography/tracking/programs_machine.py
+++ b/longitudinal_tomography/tracking/programs_machine.py
@@ -187,7 +187,7 @@ class ProgramsMachine(MachineABC):
         drift_coef = (2 * np.pi * self.h_num * eta0
                       / (energy * beta0 ** 2))
 
-        bfield = momentum / (self.bending_rad * self.q) / cont.c
+        bfield = momentum / (self.bending_rad * abs(self.q)) / cont.c
         bdot = np.gradient(bfield, time_at_turn)
 
         self.momentum_function = momentum_function
-- 
2.43.0


From 03d29d4be12fe54204c0d4807fbb2c1a72e23d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:23 +0000
Subject: [PATCH 20/44] fix: refuse a momentum program that starts after the
 record

The turns before the machine reference frame were taken from the end of the
program (or not at all) when the program starts too late.
---
 longitudinal_tomography/tracking/programs_machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tracking/programs_machine.py b/longitudinal_tomography/tracking/programs_machine.py
index 6aeee59..b2b658a 100644
--- a/longitudinal_tomography/tracking/programs_machine.py
+++ b/longitudinal_tomography/tracking/programs_machine.py
@@ -353,7 +353,7 @@ class ProgramsMachine(MachineABC):
             initial_index = 0
 
         final_index = initial_index + nturns
-        if final_index > len(time_interp):
+        if initial_index < 0 or final_index > len(time_interp):
             raise ValueError('Not enough data in momentum program to '
                              f'interpolate {nturns} turns.')
 
-- 
2.43.0


From 827091fe3ce5a454971993f711597fcd277da7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:07 +0000
Subject: [PATCH 21/44] fix: report malformed input as InputError

int() and np.array(dtype=float) raise ValueError and a short input raises
IndexError, so the messages written for malformed input were never given.
---
 longitudinal_tomography/utils/tomo_input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/utils/tomo_input.py b/longitudinal_tomography/utils/tomo_input.py
index 1e723bb..5bb6de9 100644
--- a/longitudinal_tomography/utils/tomo_input.py
+++ b/longitudinal_tomography/utils/tomo_input.py
@@ -288,14 +288,14 @@ def _split_input(read_input: t.Sequence) -> t.Tuple[t.List, np.ndarray]:
                  * int(read_parameters[nframes_idx]))
         for i in range(PARAMETER_LENGTH):
             read_parameters[i] = read_parameters[i].strip('\r\n')
-    except TypeError:
+    except (TypeError, ValueError, IndexError):
         err_msg = 'Something went wrong while accessing machine parameters.'
         raise expt.InputError(err_msg)
 
     if read_parameters[RAW_DATA_FILE_IDX] == 'pipe':
         try:
             read_data = np.array(read_input[PARAMETER_LENGTH:], dtype=float)
-        except TypeError:
+        except (TypeError, ValueError):
             err_msg = 'Pipelined raw-data could not be casted to float.'
             raise expt.InputError(err_msg)
     else:
-- 
2.43.0


From fb94b7499854b1efbdae8ff757d1a51ec7ddba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:28 +0000
Subject: [PATCH 22/44] fix: a data file with 'pipe' in its path is not piped
 data

Reading from stdin waited for raw data that never comes.
---
 longitudinal_tomography/utils/tomo_input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/utils/tomo_input.py b/longitudinal_tomography/utils/tomo_input.py
index 5bb6de9..b4d139a 100644
--- a/longitudinal_tomography/utils/tomo_input.py
+++ b/longitudinal_tomography/utils/tomo_input.py
@@ -257,7 +257,7 @@ def _get_input_stdin() -> np.ndarray:
     while line_num < ndata_points:
         read.append(sys.stdin.readline())
         if line_num == RAW_DATA_FILE_IDX:
-            if 'pipe' in read[-1]:
+            if read[-1].strip('\r\n') == 'pipe':
                 piped_raw_data = True
         if piped_raw_data:
             if line_num == 16:
-- 
2.43.0


From f8658bd237079242906354b6a410d08d3d84dec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:27 +0000
Subject: [PATCH 23/44] fix: shortcuts.track works without a profile index

---
 longitudinal_tomography/shortcuts.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/longitudinal_tomography/shortcuts.py b/longitudinal_tomography/shortcuts.py
index 39a4c4b..5893d16 100644
--- a/longitudinal_tomography/shortcuts.py
+++ b/longitudinal_tomography/shortcuts.py
@@ -46,6 +46,9 @@ def track(machine: MachineABC, reconstruction_idx: int = None,
           callback: t.Callable = None) \
         -> t.Tuple[np.ndarray, np.ndarray]:
 
+    if reconstruction_idx is None:
+        reconstruction_idx = machine.filmstart
+
     tracker = Tracking(machine)
     dphi, denergy = tracker.track(reconstruction_idx, callback=callback)
     xp, yp = particles.physical_to_coords(dphi, denergy, machine,
-- 
2.43.0


From 5347d77082dd9719cc043fc843052a95d26d1bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:50 +0000
Subject: [PATCH 24/44] fix: fractional emittance of (nearly) all of the beam
 could come out as zero

---
 longitudinal_tomography/data/post_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/data/post_process.py b/longitudinal_tomography/data/post_process.py
index 1b23c44..aa6d365 100644
--- a/longitudinal_tomography/data/post_process.py
+++ b/longitudinal_tomography/data/post_process.py
@@ -184,7 +184,7 @@ def emittance_fractional(histogram: np.ndarray,
     histogram = histogram.ravel()
     histogram[::-1].sort()
     cumsum = histogram.cumsum()
-    n_bins = np.argmax(cumsum >= fraction * histogram.sum())
+    n_bins = np.argmax(cumsum >= fraction * cumsum[-1])
 
     t_bin_width = t_bins[1] - t_bins[0]
     e_bin_width = e_bins[1] - e_bins[0]
-- 
2.43.0


From 30bbb9a7e921634e6ef03314a0c43e87b90b91be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:04 +0000
Subject: [PATCH 25/44] fix: tomo_weight_clipping with a single particle in a
 time slice

---
 longitudinal_tomography/utils/tomographics.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/longitudinal_tomography/utils/tomographics.py b/longitudinal_tomography/utils/tomographics.py
index 828a7f5..08cb2df 100644
--- a/longitudinal_tomography/utils/tomographics.py
+++ b/longitudinal_tomography/utils/tomographics.py
@@ -613,9 +613,7 @@ def tomo_weight_clipping(tomomachine: MachineABC, time_array: Iterable[float],
             idx_minmax = np.append(idx_minmax, idx_max)
 
         elif len(idx_in) == 1:
-            idx_minmax.append(np.where(map_tomo_y
-                                       == np.max(map_tomo_y[idx_in,
-                                                            idx_frame]))[0][0])
+            idx_minmax = np.append(idx_minmax, idx_in[0])
 
     new_weight_tomo = (new_weight_tomo
                        / np.sum(new_weight_tomo)
-- 
2.43.0


From 8c2c115a4af118c3f52dd14897f38033b6770edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:26 +0000
Subject: [PATCH 26/44] fix: foot tangent fits were not the zero crossing of
 the fitted line

---
 longitudinal_tomography/utils/tomographics.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/longitudinal_tomography/utils/tomographics.py b/longitudinal_tomography/utils/tomographics.py
index 08cb2df..7a84bf6 100644
--- a/longitudinal_tomography/utils/tomographics.py
+++ b/longitudinal_tomography/utils/tomographics.py
@@ -122,10 +122,13 @@ def foot_tangent_fit(y: Iterable[float], dx: float = 1) -> Tuple[float, float]:
     y_left = y[left_index - 1:left_index + 3]
     y_right = y[right_index - 2:right_index + 2]
 
-    foot_left = left_index - 5*np.sum(y_left)/(-6*y_left[0] - 2*y_left[1]
-                                               +2*y_left[2] + 6*y_left[3])
-    foot_right = right_index - 6*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
-                                                  +2*y_right[2] + 6*y_right[3])
+    # Zero crossings of the straight lines fitted through the four points
+    foot_left = (left_index + 0.5
+                 - 5*np.sum(y_left)/(-6*y_left[0] - 2*y_left[1]
+                                     +2*y_left[2] + 6*y_left[3]))
+    foot_right = (right_index - 0.5
+                  - 5*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
+                                       +2*y_right[2] + 6*y_right[3]))
 
     return foot_left * dx, foot_right * dx
 
@@ -147,8 +150,9 @@ def foot_tangent_fit_density(y: Iterable[float], x: Iterable[float],
 
     y_right = y_zero[right_index - 2:right_index + 2]
 
-    foot_right = right_index - 6*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
-                                                  +2*y_right[2] + 6*y_right[3])
+    foot_right = (right_index - 0.5
+                  - 5*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
+                                       +2*y_right[2] + 6*y_right[3]))
 
     foot_density = np.interp(foot_right, np.arange(len(x)), x)
 
-- 
2.43.0


From 238d30f45198bf45c8838567c2920086075b9dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:50 +0000
Subject: [PATCH 27/44] fix: emittance_density_calc was one cell too small

---
 longitudinal_tomography/utils/tomographics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/longitudinal_tomography/utils/tomographics.py b/longitudinal_tomography/utils/tomographics.py
index 7a84bf6..465cfd1 100644
--- a/longitudinal_tomography/utils/tomographics.py
+++ b/longitudinal_tomography/utils/tomographics.py
@@ -258,7 +258,9 @@ def matched_area_calc(tomomachine: MachineABC, bunch_length: float,
 def _cumulative_density_calc(tomo_image: Iterable[float], dt: float,
                              dE: float) -> Tuple[np.ndarray]:
 
-    cumulative_density = np.cumsum(-np.sort(-tomo_image.flatten()))
+    # The first point is the empty area, point i holds the i densest cells
+    cumulative_density = np.append(
+                                0, np.cumsum(-np.sort(-tomo_image.flatten())))
     cumulative_density_x_array = np.arange(len(cumulative_density)) * dt * dE
 
     return cumulative_density, cumulative_density_x_array
-- 
2.43.0


From 602c66c3dc1404346906d8eba62062eb25a619b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:12 +0000
Subject: [PATCH 28/44] fix: matched area of short and of long bunches
 (optimiser left the bucket)

---
 longitudinal_tomography/utils/tomographics.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/longitudinal_tomography/utils/tomographics.py b/longitudinal_tomography/utils/tomographics.py
index 465cfd1..778bb9f 100644
--- a/longitudinal_tomography/utils/tomographics.py
+++ b/longitudinal_tomography/utils/tomographics.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 import scipy.signal
 import numpy as np
 import matplotlib.pyplot as plt
-from scipy.optimize import minimize
+from scipy.optimize import minimize_scalar
 from typing import TYPE_CHECKING
 
 # Local imports
@@ -225,10 +225,13 @@ def matched_area_calc(tomomachine: MachineABC, bunch_length: float,
     urf = (tomomachine.vrf1 * (np.cos(phi_0) - np.cos(phi_array))
            + (phi_0 - phi_array) * tomomachine.vrf1 * np.sin(phi_0))
 
-    urf_level_opti = minimize(_residue_urf_length,
-                              (np.max(urf) - np.min(urf))/2 + np.min(urf),
-                              args=(bunch_length_phase, phi_array, urf, phi_0),
-                              method='Powell')['x']
+    # The length shrinks monotonically from the lowest to the highest level
+    urf_level_opti = minimize_scalar(
+                        _residue_urf_length,
+                        bounds=(np.min(urf), np.max(urf)),
+                        args=(bunch_length_phase, phi_array, urf, phi_0),
+                        method='bounded',
+                        options={'xatol': 1e-9*(np.max(urf)-np.min(urf))})['x']
 
     phi_tot, phi_right, phi_left = _urf_length_at_level(phi_array, urf, phi_0,
                                                         urf_level_opti)
-- 
2.43.0


From a7b0c248ecb16674d33ebc3e5cb99c8724402866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:16 +0000
Subject: [PATCH 29/44] fix: run() ignored the self-field flag of its input

---
 longitudinal_tomography/utils/tomo_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/utils/tomo_run.py b/longitudinal_tomography/utils/tomo_run.py
index db2dfce..484edcd 100644
--- a/longitudinal_tomography/utils/tomo_run.py
+++ b/longitudinal_tomography/utils/tomo_run.py
@@ -106,7 +106,7 @@ def run(input: str, reconstruct_profile: bool = None,
     if tomoscope:
         tracker.enable_fortran_output(profiles.profile_charge)
 
-    if tracker.self_field_flag:
+    if machine.self_field_flag:
         profiles.calc_self_fields()
         tracker.enable_self_fields(profiles)
 
-- 
2.43.0


From 9d443290fb7e8141fb0b3a28e2f22a447b677be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:28 +0000
Subject: [PATCH 30/44] fix: self-field tracking failed for particles beyond
 the wrapped range

---
 longitudinal_tomography/tracking/tracking.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index adc221d..4fa5339 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -383,6 +383,10 @@ class Tracking(ParticleTracker):
         dphi0 = np.copy(dphi)
         denergy0 = np.copy(denergy)
 
+        # The wrapped length grows by some bins when the revolution frequency
+        # decreases. The last bin is outside of the profile: no self-field.
+        last_bin = self._vself.shape[1] - 1
+
         xp[rec_prof] = self._calc_xp_sf(
             dphi, self.machine.phi0[rec_turn],
             self.particles.xorigin, self.machine.h_num,
@@ -406,7 +410,8 @@ class Tracking(ParticleTracker):
                                        self.machine.omega_rev0[turn],
                                        self.machine.dtbin,
                                        self._phiwrap)
-            selfvolt = self._vself[profile, temp_xp.astype(int) - 1]
+            selfvolt = self._vself[profile, np.minimum(temp_xp.astype(int) - 1,
+                                                       last_bin)]
 
             denergy = libtomo.kick(self.machine, denergy, dphi, rf1v, rf2v,
                                    nparts, turn)
@@ -428,7 +433,8 @@ class Tracking(ParticleTracker):
         temp_xp = xp[rec_prof]
 
         while turn > 0:
-            selfvolt = self._vself[profile, temp_xp.astype(int)]
+            selfvolt = self._vself[profile, np.minimum(temp_xp.astype(int),
+                                                       last_bin)]
 
             denergy = libtomo.kick(self.machine, denergy, dphi, rf1v, rf2v,
                                    nparts, turn, up=False)
-- 
2.43.0


From 85b66d4748dccb8b3cb4484c126ec81d06ed068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:47 +0000
Subject: [PATCH 31/44] fix: images of profiles where particles are beyond the
 image in energy

---
 longitudinal_tomography/utils/tomo_output.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/utils/tomo_output.py b/longitudinal_tomography/utils/tomo_output.py
index 7213209..d6bb2fb 100644
--- a/longitudinal_tomography/utils/tomo_output.py
+++ b/longitudinal_tomography/utils/tomo_output.py
@@ -100,9 +100,11 @@ def create_phase_space_image(
         phase space image has the same format as from the original program.
     """
 
-    phase_space = conf.make_phase_space(xp[:, recprof].astype(np.int32),
-                          yp[:, recprof].astype(np.int32),
-                          weight, n_bins)
+    # Tracked particles can leave the image in energy.
+    inside = (yp[:, recprof] >= 0) & (yp[:, recprof] < n_bins)
+    phase_space = conf.make_phase_space(xp[inside, recprof].astype(np.int32),
+                          yp[inside, recprof].astype(np.int32),
+                          weight[inside], n_bins)
 
     # Removing (if any) negative areas.
     phase_space = phase_space.clip(0.0)
-- 
2.43.0


From 40942a173fb91ffcb049b9a005209fe4532a9d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:30 +0000
Subject: [PATCH 32/44] fix: fit of the synchronous position used the voltages
 of another turn

---
 longitudinal_tomography/utils/physics.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/utils/physics.py b/longitudinal_tomography/utils/physics.py
index 9897778..1d96db8 100644
--- a/longitudinal_tomography/utils/physics.py
+++ b/longitudinal_tomography/utils/physics.py
@@ -488,15 +488,16 @@ def phase_low(phase: float, bunch_phaselength: float, vrf1: np.ndarray,
     rf_turn: int
         Which turn to do the calculation at.
     ref_frame: int
-        Frame to which machine parameters are referenced.
+        Frame to which machine parameters are referenced. Not used, all
+        values are those of rf_turn.
     """
 
-    phi12 = phi12[ref_frame] if isinstance(phi12, np.ndarray) \
+    phi12 = phi12[rf_turn] if isinstance(phi12, np.ndarray) \
         or isinstance(phi12, Sequence) else phi12
 
-    v1 = vrf1[ref_frame] * (np.cos(phase + bunch_phaselength) - np.cos(phase))
+    v1 = vrf1[rf_turn] * (np.cos(phase + bunch_phaselength) - np.cos(phase))
 
-    v2 = (vrf2[ref_frame]
+    v2 = (vrf2[rf_turn]
           * (np.cos(h_ratio
                     * (phase + bunch_phaselength - phi12))
              - np.cos(h_ratio * (phase - phi12)))
-- 
2.43.0


From b8c6dff49f89604d32a8d3e1a10cf0eb8bfa1649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:21 +0000
Subject: [PATCH 33/44] fix: GPU tracking in single precision read phase
 offsets and harmonic ratio as doubles

---
 .../python_routines/kick_and_drift_cuda.py                    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/longitudinal_tomography/python_routines/kick_and_drift_cuda.py b/longitudinal_tomography/python_routines/kick_and_drift_cuda.py
index 373ef24..1afbc06 100644
--- a/longitudinal_tomography/python_routines/kick_and_drift_cuda.py
+++ b/longitudinal_tomography/python_routines/kick_and_drift_cuda.py
@@ -52,7 +52,9 @@ def kick_and_drift_cuda(xp: cp.ndarray, yp: cp.ndarray,
                    ftn_out: bool,
                    callback
                    ) -> Tuple[cp.ndarray, cp.ndarray]:
-    phi12_arr = cp.full(nturns+1, phi12)
+    # The kernels read these with the type of the coordinates
+    phi12_arr = cp.full(nturns+1, phi12, dtype=dphi.dtype)
+    h_ratio = dphi.dtype.type(h_ratio)
     # Preparation end
 
     profile = rec_prof
-- 
2.43.0


From 06c3f4b7e800b920b553d90561debe58c0a9b69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:59 +0000
Subject: [PATCH 34/44] fix: GPU kernels of the former precision were kept when
 it changed while on the CPU

---
 longitudinal_tomography/utils/tomo_config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/longitudinal_tomography/utils/tomo_config.py b/longitudinal_tomography/utils/tomo_config.py
index edfd5cb..1012a3a 100644
--- a/longitudinal_tomography/utils/tomo_config.py
+++ b/longitudinal_tomography/utils/tomo_config.py
@@ -87,6 +87,8 @@ class AppConfig:
 
         single_prec = True if cls._precision == np.float32 else False
         GPUDev(single_prec, gpu_id)
+        # The device may hold kernels of the precision it was last used with
+        cls.load_modules_and_refresh_kernels(single_prec)
 
         from longitudinal_tomography.python_routines import kick_and_drift_cuda, reconstruct_cuda, data_treatment
 
-- 
2.43.0


From 6ba15153e90c3c11765f4198a46faac6fb5d1b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:34 +0000
Subject: [PATCH 35/44] fix: array-operation reconstruction on the GPU used the
 number of particles for the number of bins

---
 longitudinal_tomography/python_routines/reconstruct_cupy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/python_routines/reconstruct_cupy.py b/longitudinal_tomography/python_routines/reconstruct_cupy.py
index 9aa31ff..819e0ab 100644
--- a/longitudinal_tomography/python_routines/reconstruct_cupy.py
+++ b/longitudinal_tomography/python_routines/reconstruct_cupy.py
@@ -75,7 +75,7 @@ def reciprocal_particles(xp: cp.ndarray,
                          n_particles: int) -> cp.ndarray:
 
     rparts = count_particles_in_bin(xp, n_profiles, n_particles, n_bins)
-    max_bin_val = max_2d(rparts, n_particles, n_profiles)
+    max_bin_val = max_2d(rparts, n_bins, n_profiles)
 
     # Setting 0's to 1's to avoid zero division
     rparts = cp.where(rparts == 0, 1, rparts)
-- 
2.43.0


From fe7940165deae4c5d979039fd4de6a2817f3681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:41 +0000
Subject: [PATCH 36/44] fix: refuse raw data files with text among the values

---
 longitudinal_tomography/utils/tomo_input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/utils/tomo_input.py b/longitudinal_tomography/utils/tomo_input.py
index b4d139a..5bdc89b 100644
--- a/longitudinal_tomography/utils/tomo_input.py
+++ b/longitudinal_tomography/utils/tomo_input.py
@@ -300,8 +300,8 @@ def _split_input(read_input: t.Sequence) -> t.Tuple[t.List, np.ndarray]:
             raise expt.InputError(err_msg)
     else:
         try:
-            read_data = np.genfromtxt(read_parameters[RAW_DATA_FILE_IDX],
-                                      dtype=float)
+            read_data = np.loadtxt(read_parameters[RAW_DATA_FILE_IDX],
+                                   dtype=float)
         except FileNotFoundError:
             err_msg = f'The given file path for the raw-data:\n' \
                       f'{read_parameters[RAW_DATA_FILE_IDX]}\n' \
-- 
2.43.0


From 77e3744a05a88a9b6eb37be3bc54957d41fe2468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:18 +0000
Subject: [PATCH 37/44] fix: rebin integer profiles by factors that do not
 divide their length

---
 longitudinal_tomography/data/pre_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/data/pre_process.py b/longitudinal_tomography/data/pre_process.py
index 1450080..3bbf62d 100644
--- a/longitudinal_tomography/data/pre_process.py
+++ b/longitudinal_tomography/data/pre_process.py
@@ -414,6 +414,6 @@ def _rebin_last(data: np.ndarray, rbn: int) -> np.ndarray:
     i0 = (int(nbins / rbn) - 1) * rbn
     ans = np.copy(data[:, i0:])
     ans = np.sum(ans, axis=1)
-    ans[:] *= rbn / (nbins - i0)
+    ans = ans * (rbn / (nbins - i0))
     ans = ans.reshape((nprofs, 1))
     return ans
-- 
2.43.0


From 5896307f5343be4820b7a831156e6c0821c4302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:32 +0000
Subject: [PATCH 38/44] fix: turn integer raw data into profiles

---
 longitudinal_tomography/utils/tomo_input.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/longitudinal_tomography/utils/tomo_input.py b/longitudinal_tomography/utils/tomo_input.py
index 5bdc89b..08ea3d4 100644
--- a/longitudinal_tomography/utils/tomo_input.py
+++ b/longitudinal_tomography/utils/tomo_input.py
@@ -484,7 +484,8 @@ def raw_data_to_profiles(waterfall: np.ndarray, machine: MachineABC, rbn: int,
 
     waterfall = np.array(waterfall)
     # Subtracting baseline
-    waterfall[:] -= fortran.calc_baseline(waterfall, machine.beam_ref_frame)
+    waterfall = waterfall - fortran.calc_baseline(waterfall,
+                                                  machine.beam_ref_frame)
     # Rebinning
     (waterfall,
      machine.dtbin,
-- 
2.43.0


From 6743bc788fb4f2747a62c0056f1f9f9d39602661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:33 +0000
Subject: [PATCH 39/44] fix: find the cuts of integer profiles

---
 longitudinal_tomography/data/pre_process.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/longitudinal_tomography/data/pre_process.py b/longitudinal_tomography/data/pre_process.py
index 3bbf62d..09c1bec 100644
--- a/longitudinal_tomography/data/pre_process.py
+++ b/longitudinal_tomography/data/pre_process.py
@@ -193,6 +193,9 @@ def get_cuts(waterfall: Iterable[float], threshold: int = None,
 
     if isinstance(waterfall, tuple) or isinstance(waterfall, list):
         waterfall = np.array(waterfall).real
+    if np.issubdtype(waterfall.dtype, np.integer):
+        # Differences of integers can leave the range of their type.
+        waterfall = waterfall.astype(float)
 
     n_bins = len(waterfall[0])
     diff = np.sum(np.abs(waterfall[:, 1:] - waterfall[:, :-1]), axis=0)
-- 
2.43.0


From 1c0cf6ca2b7aab0f9b6ca4040794093417353dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:29 +0000
Subject: [PATCH 40/44] fix: name the faulty elements in the messages of array
 checks

---
 longitudinal_tomography/assertions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/assertions.py b/longitudinal_tomography/assertions.py
index adae17c..1920e28 100644
--- a/longitudinal_tomography/assertions.py
+++ b/longitudinal_tomography/assertions.py
@@ -434,7 +434,7 @@ def _assert_log_arr(log_array_ok: np.ndarray, error_class: Type[Exception],
     if not log_array_ok.all():
         error_msg = '\nError found at index: ' \
                     '{}\n'.format(
-                        np.argwhere(log_array_ok is False).flatten()
+                        np.argwhere(~log_array_ok).flatten()
                         + index_offset
                     )
         raise error_class(error_msg + msg)
-- 
2.43.0


From 25553319014454da7ac6f8556b4887199b660634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:08 +0000
Subject: [PATCH 41/44] fix: a refused waterfall does not replace the former
 one

---
 longitudinal_tomography/data/profiles.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/data/profiles.py b/longitudinal_tomography/data/profiles.py
index 9035603..b3320e2 100644
--- a/longitudinal_tomography/data/profiles.py
+++ b/longitudinal_tomography/data/profiles.py
@@ -134,11 +134,11 @@ class Profiles:
                       f'nr of profiles in waterfall: {new_waterfall.shape[0]}'
             raise expt.WaterfallError(err_msg)
 
-        new_waterfall = np.array(new_waterfall)
-        self._waterfall = new_waterfall.clip(0.0)
-        if np.sum(np.abs(self.waterfall)) == 0.0:
+        new_waterfall = np.array(new_waterfall).clip(0.0)
+        if np.sum(np.abs(new_waterfall)) == 0.0:
             raise expt.WaterfallReducedToZero()
 
+        self._waterfall = new_waterfall
         self.machine.nbins = self._waterfall.shape[1]
         log.info(f'Waterfall loaded with shape: {self.waterfall.shape})')
 
-- 
2.43.0


From 648153d024deee7bca6f03f71cfb631cbe92bbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:44 +0000
Subject: [PATCH 42/44] fix: refused filtered profiles do not replace the
 former ones

---
 longitudinal_tomography/data/profiles.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/longitudinal_tomography/data/profiles.py b/longitudinal_tomography/data/profiles.py
index b3320e2..26e286b 100644
--- a/longitudinal_tomography/data/profiles.py
+++ b/longitudinal_tomography/data/profiles.py
@@ -200,10 +200,8 @@ class Profiles:
             self.dsprofiles = self._check_manual_filtered_profs(
                 filtered_profiles)
         elif in_filter is not None:
-            self.dsprofiles = np.copy(self.waterfall)
-            self.dsprofiles = in_filter(self.dsprofiles)
             self.dsprofiles = self._check_manual_filtered_profs(
-                self.dsprofiles)
+                in_filter(np.copy(self.waterfall)))
         else:
             self.dsprofiles = np.copy(self.waterfall)
             # Makes normalized version of waterfall
-- 
2.43.0


From b7db96ccf8d2d9e164e009ac5ecf777dc701d9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:21 +0000
Subject: [PATCH 43/44] fix: refused raw data leaves the machine unchanged

---
 longitudinal_tomography/utils/tomo_input.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/utils/tomo_input.py b/longitudinal_tomography/utils/tomo_input.py
index 08ea3d4..e254721 100644
--- a/longitudinal_tomography/utils/tomo_input.py
+++ b/longitudinal_tomography/utils/tomo_input.py
@@ -487,9 +487,10 @@ def raw_data_to_profiles(waterfall: np.ndarray, machine: MachineABC, rbn: int,
     waterfall = waterfall - fortran.calc_baseline(waterfall,
                                                   machine.beam_ref_frame)
     # Rebinning
-    (waterfall,
-     machine.dtbin,
-     machine.synch_part_x) = pre_process.rebin(
+    waterfall, dtbin, synch_part_x = pre_process.rebin(
         waterfall, rbn, sampling_time, synch_part_x)
     # Returning Profiles object.
-    return Profiles(machine, sampling_time, waterfall)
+    profiles = Profiles(machine, sampling_time, waterfall)
+    machine.dtbin = dtbin
+    machine.synch_part_x = synch_part_x
+    return profiles
-- 
2.43.0


From f152e95e5e4ef51742d4b95bab9fa25c2eff5ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:20 +0000
Subject: [PATCH 44/44] fix: txt_input_to_machine leaves the list it is given
 unchanged

---
 longitudinal_tomography/utils/tomo_input.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/longitudinal_tomography/utils/tomo_input.py b/longitudinal_tomography/utils/tomo_input.py
index e254721..ea3d0a5 100644
--- a/longitudinal_tomography/utils/tomo_input.py
+++ b/longitudinal_tomography/utils/tomo_input.py
@@ -355,8 +355,7 @@ def txt_input_to_machine(input_array: t.List) -> t.Tuple[Machine, Frames]:
                               f'(not including raw-data).')
 
     # String formatting
-    for i in range(len(input_array)):
-        input_array[i] = input_array[i].strip('\r\n')
+    input_array = [line.strip('\r\n') for line in input_array]
 
     # Arguments for shaping waterfall from raw data
     fargs = {
-- 
2.43.0

