From bd6655d1fd4a91ac07a08ecabc01dc1ecd6a0e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:41 +0000
Subject: [PATCH 01/41] fix: data race on the bin index when inverting the
 particle counts

The index was shared by all threads of the parallel loop.
---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 65188f7..61be013 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -273,11 +273,10 @@ void reciprocal_particles(real_t *rparts,    // out
             rparts[i] = 1.0;
 
     // Creating reciprocal
-    int idx;
     #pragma omp parallel for
     for (int i = 0; i < nprof; i++)
         for (int j = 0; j < nbins; j++) {
-            idx = i * nbins + j;
+            const int idx = i * nbins + j;
             rparts[idx] = (real_t) max_bin_val / rparts[idx];
         }
 }
-- 
2.43.0


From 5b1a7ffd207aeb590e2f2ec37252540ac03bb5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:41 +0000
Subject: [PATCH 02/41] fix: data races between the bunches of a multi-bunch
 reconstruction

Weights, recreated profiles and particle counts were updated by several
threads at once, and index temporaries were shared between threads, so
contributions got lost depending on the schedule.
---
 .../cpp_routines/reconstruct.cpp                 | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 61be013..57ab057 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -37,7 +37,7 @@ void back_project_multi(real_t *weights,                     // inn/out
                         const int npart,
                         const int nprof,
                         const int ncenter) {     // inn
-    #pragma omp parallel for collapse(3)
+    #pragma omp parallel for collapse(2)
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
@@ -72,7 +72,6 @@ void project_multi(real_t *flat_rec,                     // inn/out
                    const int nprof,
                    const int ncenter) {      // inn
 
-    #pragma omp parallel for
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
@@ -240,12 +239,10 @@ void count_particles_in_bin_multi(real_t *rparts,
                                   const int nbins,
                                   const int ncenters) {
 
-    int bin;
-    #pragma omp parallel for
     for (int c = 0; c < ncenters; c++) {
         for (int j = 0; j < npart; j++) {
             for (int i = 0; i < nprof; i++) {
-                bin = xpRound0[j * nprof + i] + centers[c];
+                const int bin = xpRound0[j * nprof + i] + centers[c];
                 rparts[bin + i * nbins] += 1;
             }
         }
@@ -303,11 +300,10 @@ void reciprocal_particles_multi(real_t *rparts,   // out
             rparts[i] = 1.0;
 
     // Creating reciprocal
-    int idx;
     #pragma omp parallel for collapse(2)
     for (int i = 0; i < nprof; i++)
         for (int j = 0; j < nbins; j++) {
-            idx = i * nbins + j;
+            const int idx = i * nbins + j;
             rparts[idx] = (double) max_bin_val / rparts[idx];
         }
 }
@@ -336,16 +332,14 @@ void create_mask(const int *xpRound0,       //inn
                  const int nprof,
                  const int ncenter) {
 
-    int bin;
-
-    #pragma omp parallel for collapse(3)
+    #pragma omp parallel for collapse(2)
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
         {
             for (int j = 0; j < nprof; j++)
             {
-                bin = xpRound0[i * nprof + j] + centers[c];
+                const int bin = xpRound0[i * nprof + j] + centers[c];
                 if ((bin < cutleft[c]) || (bin > cutright[c])) {mask[i + c*npart] = false;}
             }
         }
-- 
2.43.0


From c6c21deb7da654c7cd059f5fe2c2e46597c97cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:41 +0000
Subject: [PATCH 03/41] fix: per-bunch discrepancy of the multi-bunch
 reconstruction

The sum was shared by all bunches (and threads), was never reset, and only
covered the first profile. Sum the window of each bunch over all profiles,
as the hybrid implementation does.
---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 57ab057..9366b7d 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -8,6 +8,7 @@
  * Meant to be called by a Python/C++ wrapper.
  */
 
+#include <algorithm>
 #include <iostream>
 #include <iomanip>
 #include <stdexcept>
@@ -156,16 +157,15 @@ void discrepancy_multi(const real_t *diff_prof,   // inn
                          const int nbins,
                          const int ncenter) {
 
-    int all_bins = nprof * nbins;
-    real_t squared_sum = 0;
     #pragma omp parallel for
     for (int c = 0; c < ncenter; c++)
     {
-        for (int i = 0; i < all_bins; i++)
+        real_t squared_sum = 0;
+        for (int i = 0; i < nprof; i++)
         {
-            if (i < cutright[c] && i > cutleft[c])
+            for (int j = std::max(cutleft[c], 0); j < std::min(cutright[c], nbins); j++)
             {
-                squared_sum += std::pow(diff_prof[i], 2.0);
+                squared_sum += std::pow(diff_prof[i * nbins + j], 2.0);
             }
         }
         disc[iteration * ncenter + c] = std::sqrt(squared_sum / (nprof * (cutright[c] - cutleft[c])));
-- 
2.43.0


From 11783210be549bfd09578b5198811cbfadfc05c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:15 +0000
Subject: [PATCH 04/41] fix: multi-bunch reconstruction judged by its first
 bunch only

Clip and test the weights of all bunches: an empty first bunch made the
reconstruction fail although the other bunches had content.
---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 9366b7d..3e468f2 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -479,9 +479,9 @@ void reconstruct_multi(real_t *weights,             // out
         create_flat_points(xpRound0, flat_points, npart, nprof, nbins);
         back_project_multi(weights, flat_points, flat_profiles, mask, centers, npart, nprof, ncenter);
 
-        clip(weights, npart, 0.0);
+        clip(weights, npart*ncenter, 0.0);
 
-        if (sum(weights, npart) <= 0.)
+        if (sum(weights, npart*ncenter) <= 0.)
             throw std::runtime_error("All of phase space got reduced to zeroes");
 
         if (verbose)
@@ -504,7 +504,7 @@ void reconstruct_multi(real_t *weights,             // out
 
             clip(weights, npart*ncenter, 0.0);
 
-            if (sum(weights, npart) <= 0.)
+            if (sum(weights, npart*ncenter) <= 0.)
                 throw std::runtime_error("All of phase space got reduced to zeroes");
 
             callback(iteration + 1, niter);
-- 
2.43.0


From 628cf4c167ee9115156a9cc046b2b994a893735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:26 +0000
Subject: [PATCH 05/41] fix: phase space image written out of bounds for
 negative coordinates

Reject them like coordinates beyond the upper end, and free the image
when rejecting.
---
 longitudinal_tomography/cpp_routines/data_treatment.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/longitudinal_tomography/cpp_routines/data_treatment.cpp b/longitudinal_tomography/cpp_routines/data_treatment.cpp
index 1e62b60..70bbff2 100644
--- a/longitudinal_tomography/cpp_routines/data_treatment.cpp
+++ b/longitudinal_tomography/cpp_routines/data_treatment.cpp
@@ -26,8 +26,10 @@ real_t *make_phase_space(const int *const xp, const int *const yp, const real_t
 
     for (int i = 0; i < n_particles; i++) {
         int index = yp[i] + xp[i] * n_bins;
-        if (index >= n_bins2)
+        if (index < 0 || index >= n_bins2) {
+            delete[] phase_space;
             throw std::out_of_range("Index out of bounds");
+        }
         phase_space[index] += weight[i];
     }
 
-- 
2.43.0


From 125ea6f1b2a267f22b8909091c37fd119606cb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:26 +0000
Subject: [PATCH 06/41] fix: relative RF phase of the last turn read beyond its
 array

The turn index runs up to and including nturns.
---
 longitudinal_tomography/cpp_routines/libtomo.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/libtomo.cpp b/longitudinal_tomography/cpp_routines/libtomo.cpp
index 84f75d7..d52fe2f 100644
--- a/longitudinal_tomography/cpp_routines/libtomo.cpp
+++ b/longitudinal_tomography/cpp_routines/libtomo.cpp
@@ -211,11 +211,12 @@ py::tuple wrapper_kick_and_drift_scalar(
         const bool ftn_out,
         const std::optional<const py::object> callback
 ) {
-    real_t *ptr_phi12 = new real_t[nturns];
-    std::fill_n(ptr_phi12, nturns, phi12);
+    // one value for each turn, from turn 0 up to and including turn nturns
+    real_t *ptr_phi12 = new real_t[nturns + 1];
+    std::fill_n(ptr_phi12, nturns + 1, phi12);
 
     py::capsule capsule(ptr_phi12, [](void *p) { delete[] reinterpret_cast<real_t *>(p); });
-    real_Tarr arr_phi12({nturns}, ptr_phi12, capsule);
+    real_Tarr arr_phi12({nturns + 1}, ptr_phi12, capsule);
 
     wrapper_kick_and_drift_array(input_xp, input_yp, input_denergy, input_dphi, input_rf1v, input_rf2v, input_phi0,
                                  input_deltaE0,
-- 
2.43.0


From 3dda4417eae18c1fd4c34a30a515c1ce3c8221ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:43 +0000
Subject: [PATCH 07/41] fix: native buffers leaked when an allocation or a
 callback fails

---
 .../cpp_routines/libtomo.cpp                  | 105 +++++++-----------
 .../cpp_routines/reconstruct.cpp              |  51 +++------
 2 files changed, 55 insertions(+), 101 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/libtomo.cpp b/longitudinal_tomography/cpp_routines/libtomo.cpp
index d52fe2f..1d73a04 100644
--- a/longitudinal_tomography/cpp_routines/libtomo.cpp
+++ b/longitudinal_tomography/cpp_routines/libtomo.cpp
@@ -10,6 +10,8 @@
 #include <pybind11/numpy.h>
 #include <iostream>
 #include <algorithm>
+#include <memory>
+#include <vector>
 #include <omp.h>
 
 #include "docs.h"
@@ -29,6 +31,14 @@ typedef py::array_t<double, py::array::c_style | py::array::forcecast> d_array;
 typedef py::array_t<float, py::array::c_style | py::array::forcecast> f_array;
 typedef py::array_t<int, py::array::c_style | py::array::forcecast> i_array;
 
+// NumPy array taking over a buffer
+template <typename real_t>
+static py::array_t<real_t> owned_array(std::vector<py::ssize_t> shape, std::unique_ptr<real_t[]> &buffer) {
+    py::capsule capsule(buffer.get(), [](void *p) { delete[] reinterpret_cast<real_t *>(p); });
+    real_t *const data = buffer.release();
+    return py::array_t<real_t>(std::move(shape), data, capsule);
+}
+
 
 void wrapper_set_num_threads(const int num_threads) {
     try {
@@ -212,11 +222,10 @@ py::tuple wrapper_kick_and_drift_scalar(
         const std::optional<const py::object> callback
 ) {
     // one value for each turn, from turn 0 up to and including turn nturns
-    real_t *ptr_phi12 = new real_t[nturns + 1];
-    std::fill_n(ptr_phi12, nturns + 1, phi12);
+    std::unique_ptr<real_t[]> ptr_phi12(new real_t[nturns + 1]);
+    std::fill_n(ptr_phi12.get(), nturns + 1, phi12);
 
-    py::capsule capsule(ptr_phi12, [](void *p) { delete[] reinterpret_cast<real_t *>(p); });
-    real_Tarr arr_phi12({nturns + 1}, ptr_phi12, capsule);
+    real_Tarr arr_phi12 = owned_array<real_t>({nturns + 1}, ptr_phi12);
 
     wrapper_kick_and_drift_array(input_xp, input_yp, input_denergy, input_dphi, input_rf1v, input_rf2v, input_phi0,
                                  input_deltaE0,
@@ -263,19 +272,14 @@ py::tuple wrapper_kick_and_drift_array(
     auto *yp = static_cast<real_t *>(yp_buffer.ptr);
 
     const int n_profiles = xp_buffer.shape[0];
-    auto **const xp_d = new real_t *[n_profiles];
+    std::unique_ptr<real_t *[]> xp_d(new real_t *[n_profiles]);
     for (int i = 0; i < n_profiles; i++)
         xp_d[i] = &xp[i * nparts];
 
-    auto **const yp_d = new real_t *[n_profiles];
+    std::unique_ptr<real_t *[]> yp_d(new real_t *[n_profiles]);
     for (int i = 0; i < n_profiles; i++)
         yp_d[i] = &yp[i * nparts];
 
-    auto cleanup = [xp_d, yp_d]() {
-        delete[] xp_d;
-        delete[] yp_d;
-    };
-
     real_t *const denergy = static_cast<real_t *>(denergy_buffer.ptr);
     real_t *const dphi = static_cast<real_t *>(dphi_buffer.ptr);
     const real_t *const rf1v = static_cast<real_t *>(rf1v_buffer.ptr);
@@ -293,15 +297,8 @@ py::tuple wrapper_kick_and_drift_array(
     } else
         cb = [](const int progress, const int total) { (void) progress, (void) total; };
 
-    try {
-        kick_and_drift<real_t>(xp_d, yp_d, denergy, dphi, rf1v, rf2v, phi0, deltaE0, drift_coef,
-                       phi12, hratio, dturns, rec_prof, deltaturn, nturns, nparts, ftn_out, cb);
-    } catch (const std::exception &e) {
-        cleanup();
-        throw;
-    }
-
-    cleanup();
+    kick_and_drift<real_t>(xp_d.get(), yp_d.get(), denergy, dphi, rf1v, rf2v, phi0, deltaE0, drift_coef,
+                   phi12, hratio, dturns, rec_prof, deltaturn, nturns, nparts, ftn_out, cb);
 
     return py::make_tuple(input_xp, input_yp);
 }
@@ -407,10 +404,10 @@ py::tuple wrapper_reconstruct(
     py::buffer_info buffer_xp = input_xp.request();
     py::buffer_info buffer_waterfall = waterfall.request();
 
-    auto *weights = new real_t[n_particles]();
-    auto *discr = new real_t[n_iter + 1]();
+    std::unique_ptr<real_t[]> weights(new real_t[n_particles]());
+    std::unique_ptr<real_t[]> discr(new real_t[n_iter + 1]());
     auto *flat_profs = static_cast<real_t *>(buffer_waterfall.ptr);
-    auto *recreated = new real_t[n_profiles * n_bins]();
+    std::unique_ptr<real_t[]> recreated(new real_t[n_profiles * n_bins]());
 
     const int *const xp = static_cast<int *>(buffer_xp.ptr);
 
@@ -422,23 +419,12 @@ py::tuple wrapper_reconstruct(
     } else
         cb = [](const int progress, const int total) { (void) progress, (void) total; };
 
-    try {
-        reconstruct<real_t>(weights, xp, flat_profs, recreated, discr, n_iter, n_bins, n_particles, n_profiles, verbose, cb);
-    } catch (const std::exception &e) {
-        delete[] weights;
-        delete[] discr;
-        delete[] recreated;
+    reconstruct<real_t>(weights.get(), xp, flat_profs, recreated.get(), discr.get(), n_iter, n_bins, n_particles,
+                        n_profiles, verbose, cb);
 
-        throw;
-    }
-
-    py::capsule capsule_weights(weights, [](void *p) { delete[] reinterpret_cast<real_t *>(p); });
-    py::capsule capsule_discr(discr, [](void *p) { delete[] reinterpret_cast<real_t *>(p); });
-    py::capsule capsule_recreated(recreated, [](void *p) { delete[] reinterpret_cast<real_t *>(p); });
-
-    py::array_t<real_t> arr_weights = py::array_t<real_t>({n_particles}, weights, capsule_weights);
-    py::array_t<real_t> arr_discr = py::array_t<real_t>({n_iter + 1}, discr, capsule_discr);
-    py::array_t<real_t> arr_recreated = py::array_t<real_t>({n_profiles, n_bins}, recreated, capsule_recreated);
+    py::array_t<real_t> arr_weights = owned_array<real_t>({n_particles}, weights);
+    py::array_t<real_t> arr_discr = owned_array<real_t>({n_iter + 1}, discr);
+    py::array_t<real_t> arr_recreated = owned_array<real_t>({n_profiles, n_bins}, recreated);
 
     return py::make_tuple(arr_weights, arr_discr, arr_recreated);
 }
@@ -465,10 +451,10 @@ py::tuple wrapper_reconstruct_multi(
     py::buffer_info buffer_cutright = inp_cutright.request();
     py::buffer_info buffer_centers = inp_centers.request();
 
-    auto *weights = new real_t[n_particles * n_centers]();
-    auto *discr = new real_t[n_iter + 1]();
-    auto *discr_split = new real_t[n_centers * (n_iter + 1)];
-    auto *recreated = new real_t[n_profiles * n_bins]();
+    std::unique_ptr<real_t[]> weights(new real_t[n_particles * n_centers]());
+    std::unique_ptr<real_t[]> discr(new real_t[n_iter + 1]());
+    std::unique_ptr<real_t[]> discr_split(new real_t[n_centers * (n_iter + 1)]);
+    std::unique_ptr<real_t[]> recreated(new real_t[n_profiles * n_bins]());
     auto *flat_profs = static_cast<real_t *>(buffer_waterfall.ptr);
 
     const int *const xp = static_cast<int *>(buffer_xp.ptr);
@@ -484,28 +470,14 @@ py::tuple wrapper_reconstruct_multi(
     } else
         cb = [](const int progress, const int total) { (void) progress, (void) total; };
 
-    try {
-        reconstruct_multi(weights, xp, centers, cutleft, cutright, flat_profs,
-                          recreated, discr, discr_split, n_iter, n_bins, n_particles,
-                           n_profiles, n_centers, verbose, cb);
-    } catch (const std::exception &e) {
-        delete[] weights;
-        delete[] discr;
-        delete[] discr_split;
-        delete[] recreated;
-
-        throw;
-    }
-
-    py::capsule capsule_weights(weights, [](void *p) { delete[] reinterpret_cast<real_t *>(p); });
-    py::capsule capsule_discr(discr, [](void *p) { delete[] reinterpret_cast<real_t *>(p); });
-    py::capsule capsule_discr_split(discr_split, [](void *p) { delete[] reinterpret_cast<real_t *>(p); });
-    py::capsule capsule_recreated(recreated, [](void *p) { delete[] reinterpret_cast<real_t *>(p); });
+    reconstruct_multi(weights.get(), xp, centers, cutleft, cutright, flat_profs,
+                      recreated.get(), discr.get(), discr_split.get(), n_iter, n_bins, n_particles,
+                      n_profiles, n_centers, verbose, cb);
 
-    py::array_t<real_t> arr_weights = py::array_t<real_t>({n_particles*n_centers}, weights, capsule_weights);
-    py::array_t<real_t> arr_discr = py::array_t<real_t>({n_iter + 1}, discr, capsule_discr);
-    py::array_t<real_t> arr_discr_split = py::array_t<real_t>({n_centers * (n_iter + 1)}, discr_split, capsule_discr_split);
-    py::array_t<real_t> arr_recreated = py::array_t<real_t>({n_profiles, n_bins}, recreated, capsule_recreated);
+    py::array_t<real_t> arr_weights = owned_array<real_t>({n_particles*n_centers}, weights);
+    py::array_t<real_t> arr_discr = owned_array<real_t>({n_iter + 1}, discr);
+    py::array_t<real_t> arr_discr_split = owned_array<real_t>({n_centers * (n_iter + 1)}, discr_split);
+    py::array_t<real_t> arr_recreated = owned_array<real_t>({n_profiles, n_bins}, recreated);
 
     return py::make_tuple(arr_weights, arr_discr, arr_discr_split, arr_recreated);
 }
@@ -527,10 +499,9 @@ py::array_t<real_t> wrapper_make_phase_space(
     const auto *yp = static_cast<int *>(buffer_yp.ptr);
     const auto *weights = static_cast<real_t *>(buffer_weight.ptr);
 
-    real_t *phase_space = make_phase_space(xp, yp, weights, n_particles, n_bins);
-    py::capsule capsule(phase_space, [](void *p) { delete[] reinterpret_cast<real_t *>(p); });
+    std::unique_ptr<real_t[]> phase_space(make_phase_space(xp, yp, weights, n_particles, n_bins));
 
-    return py::array_t<real_t>({n_bins, n_bins}, phase_space, capsule);
+    return owned_array<real_t>({n_bins, n_bins}, phase_space);
 }
 
 
diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 3e468f2..04cab3b 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -14,6 +14,7 @@
 #include <stdexcept>
 #include <cmath>
 #include <functional>
+#include <memory>
 
 #include "reconstruct.h"
 
@@ -363,21 +364,18 @@ void reconstruct(real_t *weights,             // out
 
     // Creating arrays...
     int all_bins = nprof * nbins;
-    real_t *diff_prof = new real_t[all_bins]();
+    std::unique_ptr<real_t[]> diff_prof_owner(new real_t[all_bins]());
+    real_t *const diff_prof = diff_prof_owner.get();
 
-    real_t *rparts = new real_t[all_bins]();
+    std::unique_ptr<real_t[]> rparts_owner(new real_t[all_bins]());
+    real_t *const rparts = rparts_owner.get();
 
-    int *flat_points = new int[npart * nprof]();
-
-    auto cleanup = [diff_prof, flat_points, rparts]() {
-        delete[] diff_prof;
-        delete[] rparts;
-        delete[] flat_points;
-    };
+    std::unique_ptr<int[]> flat_points_owner(new int[npart * nprof]());
+    int *const flat_points = flat_points_owner.get();
 
     // Actual functionality
 
-    try {
+    {
         reciprocal_particles(rparts, xp, nbins, nprof, npart);
 
         create_flat_points(xp, flat_points, npart, nprof, nbins);
@@ -421,14 +419,8 @@ void reconstruct(real_t *weights,             // out
         discr[niter] = discrepancy(diff_prof, nprof, nbins);
 
         callback(niter, niter);
-    } catch (const std::exception &e) {
-        cleanup();
-
-        throw;
     }
 
-    cleanup();
-
     if (verbose)
         std::cout << " Done!" << std::endl;
 }
@@ -455,25 +447,22 @@ void reconstruct_multi(real_t *weights,             // out
 ) {
     // Creating arrays...
     int all_bins = nprof * nbins;
-    real_t *diff_prof = new real_t[all_bins]();
+    std::unique_ptr<real_t[]> diff_prof_owner(new real_t[all_bins]());
+    real_t *const diff_prof = diff_prof_owner.get();
 
-    real_t *rparts = new real_t[all_bins]();
+    std::unique_ptr<real_t[]> rparts_owner(new real_t[all_bins]());
+    real_t *const rparts = rparts_owner.get();
 
-    int *flat_points = new int[npart * nprof]();
+    std::unique_ptr<int[]> flat_points_owner(new int[npart * nprof]());
+    int *const flat_points = flat_points_owner.get();
 
-    bool *mask = new bool[npart*ncenter];
+    std::unique_ptr<bool[]> mask_owner(new bool[npart*ncenter]);
+    bool *const mask = mask_owner.get();
     for (int i = 0; i < npart*ncenter; i++) {mask[i] = true;}
 
-    auto cleanup = [diff_prof, flat_points, rparts, mask]() {
-        delete[] diff_prof;
-        delete[] rparts;
-        delete[] flat_points;
-        delete[] mask;
-    };
-
     // Actual functionality
 
-    try {
+    {
         create_mask(xpRound0, centers, cutleft, cutright, mask, npart, nprof, ncenter);
         reciprocal_particles_multi(rparts, xpRound0, centers, nbins, nprof, npart, ncenter);
         create_flat_points(xpRound0, flat_points, npart, nprof, nbins);
@@ -519,14 +508,8 @@ void reconstruct_multi(real_t *weights,             // out
         discrepancy_multi(diff_prof, discr_split, cutleft, cutright, niter, nprof, nbins, ncenter);
 
         callback(niter, niter);
-    } catch (const std::exception &e) {
-        cleanup();
-
-        throw;
     }
 
-    cleanup();
-
     if (verbose)
         std::cout << " Done!" << std::endl;
 }
-- 
2.43.0


From a192cbc872eaa99dac4aae0479473a6aab0ca75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:38 +0000
Subject: [PATCH 08/41] fix: functions of the active device missing while a
 device is selected

Selecting the CPU removed every function from the configuration module before
adding the new ones, so that computations of other threads failed with
AttributeError in between.
---
 longitudinal_tomography/utils/tomo_config.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/utils/tomo_config.py b/longitudinal_tomography/utils/tomo_config.py
index edfd5cb..56adfa9 100644
--- a/longitudinal_tomography/utils/tomo_config.py
+++ b/longitudinal_tomography/utils/tomo_config.py
@@ -9,11 +9,14 @@ class AppConfig:
 
     @classmethod
     def __update_active_dict(cls, new_dict):
-        for key in cls._active_dict.keys():
-            if key in globals():
-                del globals()[key]
+        # Functions available on both devices are replaced, never missing:
+        # other threads may be using them.
+        old_dict = cls._active_dict
         globals().update(new_dict)
         cls._active_dict = new_dict
+        for key in old_dict.keys():
+            if key not in new_dict:
+                globals().pop(key, None)
 
 
     @classmethod
-- 
2.43.0


From 03091a10fd818598be70a370b1eeae7bc26077d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:38 +0000
Subject: [PATCH 09/41] fix: tracking returned zeroes if the precision changed
 meanwhile

Arrays of different precision are converted by the native code, which then
fills and returns the converted arrays and not the ones passed in.
---
 longitudinal_tomography/tracking/tracking.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index 91dc3f7..6579b86 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -204,11 +204,15 @@ class Tracking(ParticleTracker):
             xp = conf.cast(conf.zeros((machine.nprofiles, nparts)))
             yp = conf.cast(conf.zeros((machine.nprofiles, nparts)))
 
-            conf.kick_and_drift(xp, yp, denergy, dphi, rfv1, rfv2, phi0,
-                                deltaE0, drift_coef, machine.phi12,
-                                machine.h_ratio, machine.dturns, recprof,
-                                deltaturn, nturns, nparts, self.fortran_flag,
-                                callback=callback)
+            # The routine fills the arrays given to it, unless they have to be
+            # converted because the precision was changed in the meantime.
+            tracked = conf.kick_and_drift(
+                xp, yp, denergy, dphi, rfv1, rfv2, phi0, deltaE0, drift_coef,
+                machine.phi12, machine.h_ratio, machine.dturns, recprof,
+                deltaturn, nturns, nparts, self.fortran_flag,
+                callback=callback)
+            if tracked is not None:
+                xp, yp = tracked
 
         log.info('Tracking completed!')
         return xp, yp
-- 
2.43.0


From ff368b928372791e001baa479557e754342b9072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:38 +0000
Subject: [PATCH 10/41] fix: tracking overwrote the initial distribution it was
 given

---
 longitudinal_tomography/tracking/tracking.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index 6579b86..e6e33de 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -177,8 +177,9 @@ class Tracking(ParticleTracker):
             self.particles.coordinates_dphi_denergy = conf.cast(init_distr)
             coords = self.particles.coordinates_dphi_denergy
 
-        dphi = coords[0]
-        denergy = coords[1]
+        # The tracking works on copies: the initial distribution is kept
+        dphi = coords[0].copy()
+        denergy = coords[1].copy()
 
         self.init_dphi = dphi.copy()
         self.init_denergy = denergy.copy()
@@ -259,6 +260,10 @@ class Tracking(ParticleTracker):
         out_dphi = np.zeros((self.machine.nprofiles, nparts))
         out_denergy = np.copy(out_dphi)
 
+        # The given distribution is left untouched
+        dphi = np.copy(dphi)
+        denergy = np.copy(denergy)
+
         # Setting homogeneous coordinates to profile to be reconstructed.
         init_dphi = np.copy(dphi)
         init_denergy = np.copy(denergy)
@@ -379,6 +384,10 @@ class Tracking(ParticleTracker):
         if deltaturn < 0:
             profile -= 1
 
+        # The given distribution is left untouched
+        dphi = np.copy(dphi)
+        denergy = np.copy(denergy)
+
         # To be saved for downwards tracking
         dphi0 = np.copy(dphi)
         denergy0 = np.copy(denergy)
-- 
2.43.0


From 97dca0b9899229936df1769bf8692b9a98970eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:38 +0000
Subject: [PATCH 11/41] fix: rejected waterfall replaced the previous one

---
 longitudinal_tomography/data/profiles.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/data/profiles.py b/longitudinal_tomography/data/profiles.py
index 9035603..b3320e2 100644
--- a/longitudinal_tomography/data/profiles.py
+++ b/longitudinal_tomography/data/profiles.py
@@ -134,11 +134,11 @@ class Profiles:
                       f'nr of profiles in waterfall: {new_waterfall.shape[0]}'
             raise expt.WaterfallError(err_msg)
 
-        new_waterfall = np.array(new_waterfall)
-        self._waterfall = new_waterfall.clip(0.0)
-        if np.sum(np.abs(self.waterfall)) == 0.0:
+        new_waterfall = np.array(new_waterfall).clip(0.0)
+        if np.sum(np.abs(new_waterfall)) == 0.0:
             raise expt.WaterfallReducedToZero()
 
+        self._waterfall = new_waterfall
         self.machine.nbins = self._waterfall.shape[1]
         log.info(f'Waterfall loaded with shape: {self.waterfall.shape})')
 
-- 
2.43.0


From a05758319b7b708746ca603383ccb818d1b6a10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:38 +0000
Subject: [PATCH 12/41] fix: density_to_macro modified the density passed in

---
 longitudinal_tomography/data/data_treatment.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/longitudinal_tomography/data/data_treatment.py b/longitudinal_tomography/data/data_treatment.py
index 9b90104..3a97a47 100644
--- a/longitudinal_tomography/data/data_treatment.py
+++ b/longitudinal_tomography/data/data_treatment.py
@@ -261,9 +261,7 @@ def density_to_macro(tRange: Iterable[float], ERange: Iterable[float],
     dEbin = ERange[1] - ERange[0]
 
     sumDens = np.sum(density)
-    density[density / sumDens < threshold] = 0
-
-    prob = density.flatten()
+    prob = np.where(density / sumDens < threshold, 0, density).flatten()
     prob = prob / np.sum(prob)
     coords = np.array(list(itl.product(tRange, ERange)))
     n_macro = int(n_macro)
-- 
2.43.0


From 2d1a3aa7760a062020d2fc24364da3eb3349b032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:38 +0000
Subject: [PATCH 13/41] fix: unreadable raw data values accepted as nan

---
 longitudinal_tomography/utils/tomo_input.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/longitudinal_tomography/utils/tomo_input.py b/longitudinal_tomography/utils/tomo_input.py
index 1e723bb..2415eeb 100644
--- a/longitudinal_tomography/utils/tomo_input.py
+++ b/longitudinal_tomography/utils/tomo_input.py
@@ -316,6 +316,10 @@ def _split_input(read_input: t.Sequence) -> t.Tuple[t.List, np.ndarray]:
                               f'Expected: {ndata}\n'
                               f'Loaded:   {len(read_data)}')
 
+    # Values which cannot be read as a number are loaded as nan
+    if not np.all(np.isfinite(read_data)):
+        raise expt.InputError('The raw-data contains invalid values.')
+
     return read_parameters, read_data
 
 
-- 
2.43.0


From 7db5ea92316f7e67d0db7cec7496319c9b4a89d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:38 +0000
Subject: [PATCH 14/41] fix: waiting for raw data on stdin that comes from a
 file

A raw data file with 'pipe' in its path made the reader expect the raw data on
stdin, which blocks as long as the sender keeps the stream open.
---
 longitudinal_tomography/utils/tomo_input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/utils/tomo_input.py b/longitudinal_tomography/utils/tomo_input.py
index 2415eeb..0208691 100644
--- a/longitudinal_tomography/utils/tomo_input.py
+++ b/longitudinal_tomography/utils/tomo_input.py
@@ -257,7 +257,7 @@ def _get_input_stdin() -> np.ndarray:
     while line_num < ndata_points:
         read.append(sys.stdin.readline())
         if line_num == RAW_DATA_FILE_IDX:
-            if 'pipe' in read[-1]:
+            if read[-1].strip('\r\n') == 'pipe':
                 piped_raw_data = True
         if piped_raw_data:
             if line_num == 16:
-- 
2.43.0


From 65370bd1891b87a53ff2d76992f6d5fbedc521eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:38 +0000
Subject: [PATCH 15/41] fix: tomoscope output out of order on pipes

The lines printed by Python stayed in its buffer while the lines of the native
code, which are flushed at once, overtook them.
---
 longitudinal_tomography/compat/fortran.py    | 3 ++-
 longitudinal_tomography/tracking/tracking.py | 3 ++-
 longitudinal_tomography/utils/tomo_run.py    | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/compat/fortran.py b/longitudinal_tomography/compat/fortran.py
index 780d9fa..358a48f 100644
--- a/longitudinal_tomography/compat/fortran.py
+++ b/longitudinal_tomography/compat/fortran.py
@@ -229,7 +229,8 @@ def print_tracking_status(ref_prof: int, to_profile: int):
         Profile to which the algorithm is currently tracking towards.
     """
     print(f' Tracking from time slice  {ref_prof + 1} to  '
-          f'{to_profile + 1},   0.000% went outside the image width.')
+          f'{to_profile + 1},   0.000% went outside the image width.',
+          flush=True)
 
 
 # Data treatment
diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index e6e33de..35fb48d 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -170,7 +170,8 @@ class Tracking(ParticleTracker):
             # Print fortran style plot info. Needed for tomograph.
             if self.fortran_flag:
                 print(fortran.write_plotinfo(
-                    machine, self.particles, self._profile_charge))
+                    machine, self.particles, self._profile_charge),
+                    flush=True)
 
         else:
             log.info('Using initial particle coordinates set by user.')
diff --git a/longitudinal_tomography/utils/tomo_run.py b/longitudinal_tomography/utils/tomo_run.py
index db2dfce..25a316b 100644
--- a/longitudinal_tomography/utils/tomo_run.py
+++ b/longitudinal_tomography/utils/tomo_run.py
@@ -74,7 +74,7 @@ def run(input: str, reconstruct_profile: bool = None,
     raw_params, raw_data = tomoin.get_user_input(input)
 
     if tomoscope:
-        print(' Start')
+        print(' Start', flush=True)
 
     machine, frames = tomoin.txt_input_to_machine(raw_params)
     machine.values_at_turns()
-- 
2.43.0


From 0c8f2502fdb4cd355d80be4aed336a72910561ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:38 +0000
Subject: [PATCH 16/41] fix: showing a reconstruction normalised the caller's
 profile

---
 longitudinal_tomography/utils/tomo_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/utils/tomo_output.py b/longitudinal_tomography/utils/tomo_output.py
index 9f0bdc0..7213209 100644
--- a/longitudinal_tomography/utils/tomo_output.py
+++ b/longitudinal_tomography/utils/tomo_output.py
@@ -131,7 +131,7 @@ def show(image: np.ndarray, diff: np.ndarray, rec_prof: np.ndarray,
     """
 
     # Normalizing recprof:
-    rec_prof[:] /= np.sum(rec_prof)
+    rec_prof = rec_prof / np.sum(rec_prof)
 
     # Creating plot
     gs = gridspec.GridSpec(4, 4)
-- 
2.43.0


From c0bcfb9c7694f43921c884b4adda5a76e1cb8a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:25 +0000
Subject: [PATCH 17/41] fix: GPU device kept although its set-up failed

A second attempt then used the half-initialised device, also after the cause
of the failure was removed.
---
 longitudinal_tomography/utils/tomo_config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/utils/tomo_config.py b/longitudinal_tomography/utils/tomo_config.py
index 56adfa9..fe3cebb 100644
--- a/longitudinal_tomography/utils/tomo_config.py
+++ b/longitudinal_tomography/utils/tomo_config.py
@@ -134,8 +134,6 @@ class GPUDev:
     def __init__(self, single_prec = False, _gpu_id=0):
         if GPUDev.__instance is not None:
             return
-        else:
-            GPUDev.__instance = self
 
         import cupy as cp
         self.id = _gpu_id
@@ -166,6 +164,9 @@ class GPUDev:
         else:
             self.load_double_precision_modules()
 
+        # Only a device which is completely set up is kept
+        GPUDev.__instance = self
+
     def load_double_precision_modules(self):
         import cupy as cp
         self.kd_mod = cp.RawModule(path=os.path.join(
-- 
2.43.0


From 2a4a70ada5003132cfd349b25d97b3bb05873c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:25 +0000
Subject: [PATCH 18/41] fix: GPU used kernels of the precision selected before
 the last switch

Changing the precision while on the CPU did not reach the kernels loaded by an
earlier use of the GPU.
---
 longitudinal_tomography/utils/tomo_config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/longitudinal_tomography/utils/tomo_config.py b/longitudinal_tomography/utils/tomo_config.py
index fe3cebb..7da82ef 100644
--- a/longitudinal_tomography/utils/tomo_config.py
+++ b/longitudinal_tomography/utils/tomo_config.py
@@ -90,6 +90,8 @@ class AppConfig:
 
         single_prec = True if cls._precision == np.float32 else False
         GPUDev(single_prec, gpu_id)
+        # The precision may have been changed since the device was set up
+        cls.load_modules_and_refresh_kernels(single_prec)
 
         from longitudinal_tomography.python_routines import kick_and_drift_cuda, reconstruct_cuda, data_treatment
 
-- 
2.43.0


From 76f3d5f1b744c146b885cddf96937569d4fe082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:53 +0000
Subject: [PATCH 19/41] fix: failed change of precision on the GPU left mixed
 kernels

The precision was changed before the kernels were loaded, and a failure in
between left kernels and arrays of different precision in use.
---
 longitudinal_tomography/utils/tomo_config.py | 28 +++++++++++++-------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/longitudinal_tomography/utils/tomo_config.py b/longitudinal_tomography/utils/tomo_config.py
index 7da82ef..8e01e1f 100644
--- a/longitudinal_tomography/utils/tomo_config.py
+++ b/longitudinal_tomography/utils/tomo_config.py
@@ -25,27 +25,37 @@ class AppConfig:
 
     @classmethod
     def set_single_precision(cls):
-        cls._precision = np.float32
         if cls._gpu_enabled:
             cls.load_modules_and_refresh_kernels(True)
+        cls._precision = np.float32
 
     @classmethod
     def set_double_precision(cls):
-        cls._precision = np.float64
         if cls._gpu_enabled:
             cls.load_modules_and_refresh_kernels(False)
+        cls._precision = np.float64
 
     @classmethod
     def load_modules_and_refresh_kernels(cls, single_prec_flag=False):
         cls.compile_kernels() # Check if compilation needed
         gpu_dev = GPUDev.get_gpu_dev()
-        if single_prec_flag:
-            gpu_dev.load_single_precision_modules()
-        else:
-            gpu_dev.load_double_precision_modules()
-        from longitudinal_tomography.python_routines import kick_and_drift_cuda, reconstruct_cuda
-        kick_and_drift_cuda.refresh_kernels()
-        reconstruct_cuda.refresh_kernels()
+        previous = gpu_dev.kd_mod, gpu_dev.rec_mod
+        try:
+            if single_prec_flag:
+                gpu_dev.load_single_precision_modules()
+            else:
+                gpu_dev.load_double_precision_modules()
+            from longitudinal_tomography.python_routines import kick_and_drift_cuda, reconstruct_cuda
+            kick_and_drift_cuda.refresh_kernels()
+            reconstruct_cuda.refresh_kernels()
+        except Exception:
+            # Keep the kernels of the precision in use
+            gpu_dev.kd_mod, gpu_dev.rec_mod = previous
+            if cls._gpu_enabled:
+                from longitudinal_tomography.python_routines import kick_and_drift_cuda, reconstruct_cuda
+                kick_and_drift_cuda.refresh_kernels()
+                reconstruct_cuda.refresh_kernels()
+            raise
 
     @classmethod
     def is_gpu_enabled(cls):
-- 
2.43.0


From fc955b02d9def1978e6a5cd5df6df1d96ba747ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:53 +0000
Subject: [PATCH 20/41] fix: incomplete CUDA kernels taken for compiled ones

If the compiler failed after it created its output file, the file was taken
for a compiled kernel, and the sources were never compiled again.
---
 longitudinal_tomography/cuda_kernels/__init__.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/cuda_kernels/__init__.py b/longitudinal_tomography/cuda_kernels/__init__.py
index fdb9ab6..80b8129 100644
--- a/longitudinal_tomography/cuda_kernels/__init__.py
+++ b/longitudinal_tomography/cuda_kernels/__init__.py
@@ -51,19 +51,27 @@ def compile_kernels():
             for source in cuda_sources:
                 command = nvccflags + [
                     "-o",
-                    source + "_double.cubin",
+                    source + "_double.cubin.tmp",
                     source + ".cu",
                     f"-DBLOCK_SIZE={REDUCTION_BLOCK_SIZE}"
                 ]
-                subprocess.run(command)
+                subprocess.run(command, check=True)
+                os.replace(source + "_double.cubin.tmp",
+                           source + "_double.cubin")
                 command = nvccflags + [
                     "-o",
-                    source + "_single.cubin",
+                    source + "_single.cubin.tmp",
                     source + ".cu",
                     "-DUSEFLOAT",
                     f"-DBLOCK_SIZE={REDUCTION_BLOCK_SIZE}"
                 ]
-                subprocess.run(command)
+                subprocess.run(command, check=True)
+                os.replace(source + "_single.cubin.tmp",
+                           source + "_single.cubin")
+        except subprocess.CalledProcessError as e:
+            raise expt.CudaCompilationException(
+                "The CUDA source compilation failed."
+            ) from e
         except FileNotFoundError as e:
             raise expt.CudaCompilationException(
                 "The NVCC compiler could not be found. "\
-- 
2.43.0


From 3f43ee8caf28618013c7c6f236605d4f52f05c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:09 +0000
Subject: [PATCH 21/41] fix: tracking read beyond turn tables that are too
 short

The energy gains of a ProgramsMachine with one turn between the profiles end
one turn early; the native code read the last one from unrelated memory.
---
 .../cpp_routines/libtomo.cpp                  | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/libtomo.cpp b/longitudinal_tomography/cpp_routines/libtomo.cpp
index 1d73a04..ad8df69 100644
--- a/longitudinal_tomography/cpp_routines/libtomo.cpp
+++ b/longitudinal_tomography/cpp_routines/libtomo.cpp
@@ -102,19 +102,14 @@ d_array wrapper_kick(const py::object &machine,
     const double h_ratio = py::float_(machine.attr("h_ratio"));
     d_array arr_deltaE0 = d_array(machine.attr("deltaE0"));
 
-    auto phi0 = arr_phi0.mutable_unchecked<1>();
-    auto deltaE0 = arr_deltaE0.mutable_unchecked<1>();
-    auto rfv1 = arr_rfv1.unchecked<1>();
-    auto rfv2 = arr_rfv2.unchecked<1>();
-
     if (up)
-        wrapper_kick_up(dphi, denergy, rfv1(turn), rfv2(turn),
-                        phi0(turn), phi12, h_ratio, n_particles,
-                        deltaE0(turn));
+        wrapper_kick_up(dphi, denergy, arr_rfv1.at(turn), arr_rfv2.at(turn),
+                        arr_phi0.at(turn), phi12, h_ratio, n_particles,
+                        arr_deltaE0.at(turn));
     else
-        wrapper_kick_down(dphi, denergy, rfv1(turn), rfv2(turn),
-                          phi0(turn), phi12, h_ratio, n_particles,
-                          deltaE0(turn));
+        wrapper_kick_down(dphi, denergy, arr_rfv1.at(turn), arr_rfv2.at(turn),
+                          arr_phi0.at(turn), phi12, h_ratio, n_particles,
+                          arr_deltaE0.at(turn));
 
     return denergy;
 }
@@ -157,13 +152,11 @@ d_array wrapper_drift(
         const int n_particles,
         const int turn,
         bool up) {
-    auto drift_coef = input_drift_coef.unchecked<1>();
-
     if (up)
-        wrapper_drift_up(dphi, denergy, drift_coef(turn),
+        wrapper_drift_up(dphi, denergy, input_drift_coef.at(turn),
                          n_particles);
     else
-        wrapper_drift_down(dphi, denergy, drift_coef(turn),
+        wrapper_drift_down(dphi, denergy, input_drift_coef.at(turn),
                            n_particles);
 
     return dphi;
@@ -268,6 +261,13 @@ py::tuple wrapper_kick_and_drift_array(
     py::buffer_info phi12_buffer = input_phi12.request();
     py::buffer_info drift_coef_buffer = input_drift_coef.request();
 
+    // one value is needed for each turn, from turn 0 up to and including turn nturns
+    for (const auto *table : {&rf1v_buffer, &rf2v_buffer, &phi0_buffer, &deltaE0_buffer, &phi12_buffer})
+        if (table->size < nturns + 1)
+            throw std::invalid_argument("Voltages, phases and energy gains must be given for every turn.");
+    if (drift_coef_buffer.size < nturns)
+        throw std::invalid_argument("Drift coefficients must be given for every turn.");
+
     auto *xp = static_cast<real_t *>(xp_buffer.ptr);
     auto *yp = static_cast<real_t *>(yp_buffer.ptr);
 
-- 
2.43.0


From 668b1b82fa4870821003034bedf12fc226ee54d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:46 +0000
Subject: [PATCH 22/41] fix: hybrid multi-bunch reconstruction counted
 particles in wrong profiles

The native counting expects the coordinates as (nparts, nprofiles).
---
 longitudinal_tomography/tomography/__tomography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tomography/__tomography.py b/longitudinal_tomography/tomography/__tomography.py
index 0dc3432..50cc241 100644
--- a/longitudinal_tomography/tomography/__tomography.py
+++ b/longitudinal_tomography/tomography/__tomography.py
@@ -263,7 +263,7 @@ class TomographyABC(ABC):
         # for c in centers:
         #     ppb = self._count_particles_in_bins(
         #         ppb, self.nprofs, self.xp+int(np.floor(c)), self.nparts)
-        ppb = libtomo.count_particles_in_bins_multi(ppb, self.xp.T, centers,
+        ppb = libtomo.count_particles_in_bins_multi(ppb, self.xp, centers,
                                                     self.nprofs, self.nparts,
                                                     self.nbins, len(centers))
 
-- 
2.43.0


From ce128e62f9006ba99fc4d0935881b6b221a41183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:40 +0000
Subject: [PATCH 23/41] fix: progress total of tracking with a turn offset

With deltaturn the number of turns tracked differs from nturns, so the last report was (N - d, N) or ran past N.
---
 longitudinal_tomography/cpp_routines/kick_and_drift.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/cpp_routines/kick_and_drift.cpp b/longitudinal_tomography/cpp_routines/kick_and_drift.cpp
index b3ff134..fef337d 100644
--- a/longitudinal_tomography/cpp_routines/kick_and_drift.cpp
+++ b/longitudinal_tomography/cpp_routines/kick_and_drift.cpp
@@ -143,7 +143,7 @@ void kick_and_drift(real_t **xp,             // inn/out
     }
 
     int progress = 0;
-    const int total = nturns;
+    const int total = nturns - turn + rec_prof * dturns;
     // Upwards 
     while (turn < nturns) {
         drift_up<real_t>(dphi, denergy, drift_coef[turn], nparts);
-- 
2.43.0


From 069d9ee858bb2e2dbcfe9bc4a9ed5ec3e763b3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:59 +0000
Subject: [PATCH 24/41] fix: hybrid reconstruction that fails replaced earlier
 results

---
 .../tomography/tomography.py                  | 51 +++++++++++--------
 .../tomography/tomography_multibunch.py       | 42 ++++++++-------
 2 files changed, 52 insertions(+), 41 deletions(-)

diff --git a/longitudinal_tomography/tomography/tomography.py b/longitudinal_tomography/tomography/tomography.py
index 208c5e7..5ee9e89 100644
--- a/longitudinal_tomography/tomography/tomography.py
+++ b/longitudinal_tomography/tomography/tomography.py
@@ -107,7 +107,7 @@ class Tomography(TomographyABC):
             raise expt.CoordinateError(
                 'x-coordinates has value None, and must be provided')
 
-        self.diff = np.zeros(niter + 1)
+        diff = np.zeros(niter + 1)
         reciprocal_pts = self._reciprocal_particles()
         flat_points = self._create_flat_points()
         flat_profs = np.ascontiguousarray(
@@ -125,10 +125,10 @@ class Tomography(TomographyABC):
             if verbose:
                 print(f'{i + 1:3d}')
 
-            self.recreated = self._project(flat_points, weight)
+            recreated = self._project(flat_points, weight)
 
-            diff_waterfall = self.waterfall - self.recreated
-            self.diff[i] = self._discrepancy(diff_waterfall)
+            diff_waterfall = self.waterfall - recreated
+            diff[i] = self._discrepancy(diff_waterfall)
 
             # Weighting difference waterfall relative to number of particles
             diff_waterfall *= reciprocal_pts.T
@@ -138,11 +138,14 @@ class Tomography(TomographyABC):
                 self.nparts, self.nprofs)
             weight = weight.clip(0.0)
 
-        self.recreated = self._project(flat_points, weight)
+        recreated = self._project(flat_points, weight)
 
         # Calculating final discrepancy
-        diff_waterfall = self.waterfall - self.recreated
-        self.diff[-1] = self._discrepancy(diff_waterfall)
+        diff_waterfall = self.waterfall - recreated
+        diff[-1] = self._discrepancy(diff_waterfall)
+
+        self.diff = diff
+        self.recreated = recreated
 
         if verbose:
             print(' Done!')
@@ -201,7 +204,7 @@ class Tomography(TomographyABC):
         print(1)
         t0 = tm.process_time()
 
-        self.diff = np.zeros(niter + 1)
+        diff = np.zeros(niter + 1)
         reciprocal_pts = self._reciprocal_particles_multi(centers)
         print(f"recip: {tm.process_time() - t0}")
         t0 = tm.process_time()
@@ -242,18 +245,18 @@ class Tomography(TomographyABC):
             if verbose:
                 print(f'{i + 1:3d}')
 
-            self.full_recreated = np.zeros_like(self.waterfall)
+            full_recreated = np.zeros_like(self.waterfall)
 
             for j in range(nBunches):
-                self.recreated = self._project_multi(flat_points + centers[j],
-                                                      weight[j], self.nparts)
+                recreated = self._project_multi(flat_points + centers[j],
+                                                weight[j], self.nparts)
 
-                self.full_recreated += self.recreated
+                full_recreated += recreated
 
-            self.recreated = self._normalize_profiles(self.full_recreated)
+            recreated = self._normalize_profiles(full_recreated)
 
-            diff_waterfall = self.waterfall - self.recreated
-            self.diff[i] = self._discrepancy(diff_waterfall)
+            diff_waterfall = self.waterfall - recreated
+            diff[i] = self._discrepancy(diff_waterfall)
 
             # Weighting difference waterfall relative to number of particles
             diff_waterfall *= reciprocal_pts
@@ -268,17 +271,21 @@ class Tomography(TomographyABC):
 
             weight = weight.clip(0.0)
 
-        self.full_recreated = np.zeros_like(self.waterfall)
+        full_recreated = np.zeros_like(self.waterfall)
         
         for j in range(nBunches):
-            self.recreated = self._project_multi(flat_points + centers[j],
-                                                  weight[j], self.nparts)
-            self.full_recreated += self.recreated
-        self.recreated = self._normalize_profiles(self.full_recreated)
+            recreated = self._project_multi(flat_points + centers[j],
+                                            weight[j], self.nparts)
+            full_recreated += recreated
+        recreated = self._normalize_profiles(full_recreated)
 
         # Calculating final discrepancy
-        diff_waterfall = self.waterfall - self.recreated
-        self.diff[-1] = self._discrepancy(diff_waterfall)
+        diff_waterfall = self.waterfall - recreated
+        diff[-1] = self._discrepancy(diff_waterfall)
+
+        self.diff = diff
+        self.recreated = recreated
+        self.full_recreated = full_recreated
 
         if verbose:
             print(' Done!')
diff --git a/longitudinal_tomography/tomography/tomography_multibunch.py b/longitudinal_tomography/tomography/tomography_multibunch.py
index bc53fd3..c9dc355 100644
--- a/longitudinal_tomography/tomography/tomography_multibunch.py
+++ b/longitudinal_tomography/tomography/tomography_multibunch.py
@@ -117,8 +117,8 @@ class Tomography(TomographyABC):
             masks += mask.tolist()
         masks = np.array(masks)
 
-        self.diff = np.zeros(niter + 1)
-        self.diff_split = np.zeros([nBunches, niter + 1])
+        diff = np.zeros(niter + 1)
+        diff_split = np.zeros([nBunches, niter + 1])
 
         reciprocal_pts = self._reciprocal_particles_multi(centers)
         flat_points = self._create_flat_points()
@@ -146,22 +146,22 @@ class Tomography(TomographyABC):
             if verbose:
                 print(f'{i + 1:3d}')
 
-            self.full_recreated = np.zeros_like(self.waterfall)
+            full_recreated = np.zeros_like(self.waterfall)
 
             for j in range(nBunches):
                 start = j*self.nparts
                 stop = (j+1)*self.nparts
-                self.recreated = self._project(flat_points + centers[j],
-                                               weight[start:stop],
-                                               self.nparts)
+                recreated = self._project(flat_points + centers[j],
+                                          weight[start:stop],
+                                          self.nparts)
 
-                self.full_recreated += self.recreated
+                full_recreated += recreated
 
-            self.recreated = self._normalize_profiles(self.full_recreated)
+            recreated = self._normalize_profiles(full_recreated)
 
-            diff_waterfall = self.waterfall - self.recreated
-            self.diff[i] = self._discrepancy(diff_waterfall)
-            self.diff_split[:, i] = self._discrepancy_multi(diff_waterfall, cuts)
+            diff_waterfall = self.waterfall - recreated
+            diff[i] = self._discrepancy(diff_waterfall)
+            diff_split[:, i] = self._discrepancy_multi(diff_waterfall, cuts)
 
             # Weighting difference waterfall relative to number of particles
             diff_waterfall *= reciprocal_pts
@@ -178,26 +178,30 @@ class Tomography(TomographyABC):
 
             weight = weight.clip(0.0)
 
-        self.full_recreated = np.zeros_like(self.waterfall)
+        full_recreated = np.zeros_like(self.waterfall)
         
         for j in range(nBunches):
             start = j*self.nparts
             stop = (j+1)*self.nparts
-            self.recreated = self._project(flat_points + centers[j],
-                                           weight[start:stop], self.nparts)
+            recreated = self._project(flat_points + centers[j],
+                                      weight[start:stop], self.nparts)
 
-            self.full_recreated += self.recreated
-        self.recreated = self._normalize_profiles(self.full_recreated)
+            full_recreated += recreated
+        recreated = self._normalize_profiles(full_recreated)
 
         # Calculating final discrepancy
-        diff_waterfall = self.waterfall - self.recreated
-        self.diff[-1] = self._discrepancy(diff_waterfall)
-        self.diff_split[:, -1] = self._discrepancy_multi(diff_waterfall, cuts)
+        diff_waterfall = self.waterfall - recreated
+        diff[-1] = self._discrepancy(diff_waterfall)
+        diff_split[:, -1] = self._discrepancy_multi(diff_waterfall, cuts)
         
         if verbose:
             print(' Done!')
 
 
+        self.diff = diff
+        self.diff_split = diff_split
+        self.recreated = recreated
+        self.full_recreated = full_recreated
         self.weight_combined = weight
         self.weight_split = []
         for i in range(nBunches):
-- 
2.43.0


From d1fb0533b93902a90b05bf8d328cf9ae4d7afb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:43 +0000
Subject: [PATCH 25/41] fix: failed self-field calculation left mixed fields in
 Profiles

---
 longitudinal_tomography/data/profiles.py | 37 ++++++++++++++----------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/longitudinal_tomography/data/profiles.py b/longitudinal_tomography/data/profiles.py
index b3320e2..bd73740 100644
--- a/longitudinal_tomography/data/profiles.py
+++ b/longitudinal_tomography/data/profiles.py
@@ -197,25 +197,29 @@ class Profiles:
             raise expt.ProfileChargeNotCalculated(err_msg)
 
         if filtered_profiles is not None:
-            self.dsprofiles = self._check_manual_filtered_profs(
+            dsprofiles = self._check_manual_filtered_profs(
                 filtered_profiles)
         elif in_filter is not None:
-            self.dsprofiles = np.copy(self.waterfall)
-            self.dsprofiles = in_filter(self.dsprofiles)
-            self.dsprofiles = self._check_manual_filtered_profs(
-                self.dsprofiles)
+            dsprofiles = np.copy(self.waterfall)
+            dsprofiles = in_filter(dsprofiles)
+            dsprofiles = self._check_manual_filtered_profs(dsprofiles)
         else:
-            self.dsprofiles = np.copy(self.waterfall)
+            dsprofiles = np.copy(self.waterfall)
             # Makes normalized version of waterfall
-            self.dsprofiles /= np.sum(self.dsprofiles, axis=1)[:, None]
-            self.dsprofiles = sig.savgol_filter(
-                x=self.dsprofiles, window_length=7,
+            dsprofiles /= np.sum(dsprofiles, axis=1)[:, None]
+            dsprofiles = sig.savgol_filter(
+                x=dsprofiles, window_length=7,
                 polyorder=4, deriv=1)
 
-        (self.phiwrap,
-         self.wrap_length) = self._find_wrap_length()
+        phiwrap, wrap_length = self._find_wrap_length()
 
-        self.vself = self._calculate_self()
+        vself = self._calculate_self(dsprofiles, wrap_length)
+
+        # The fields belong together, and are kept if something above fails
+        self.dsprofiles = dsprofiles
+        self.phiwrap = phiwrap
+        self.wrap_length = wrap_length
+        self.vself = vself
         log.info('Self fields were calculated.')
 
     # Checks the filtered profiles
@@ -257,17 +261,18 @@ class Profiles:
         return phiwrap, wrap_length
 
     # Calculate self-field voltages
-    def _calculate_self(self) -> np.ndarray:
+    def _calculate_self(self, dsprofiles: np.ndarray, wrap_length: int) \
+            -> np.ndarray:
         sfc = physics.calc_self_field_coeffs(self.machine)
         vself = np.zeros((self.machine.nprofiles - 1,
-                          self.wrap_length + 1),
+                          wrap_length + 1),
                          dtype=float)
         for i in range(self.machine.nprofiles - 1):
             vself[i, :self.machine.nbins] = (0.5 * self.profile_charge
                                              * (sfc[i]
-                                                * self.dsprofiles[
+                                                * dsprofiles[
                                                   i, :self.machine.nbins]
                                                 + sfc[i + 1]
-                                                * self.dsprofiles[
+                                                * dsprofiles[
                                                   i + 1, :self.machine.nbins]))
         return vself
-- 
2.43.0


From ad9e40f92d586a54e00f7e0ba3e9e158ae0ada94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:44 +0000
Subject: [PATCH 26/41] fix: Machine lost its values at turns when a
 recalculation failed

---
 longitudinal_tomography/tracking/machine.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/longitudinal_tomography/tracking/machine.py b/longitudinal_tomography/tracking/machine.py
index efad203..e1011c8 100644
--- a/longitudinal_tomography/tracking/machine.py
+++ b/longitudinal_tomography/tracking/machine.py
@@ -120,6 +120,15 @@ class Machine(MachineABC):
             self.values_at_turns()
 
     def values_at_turns(self):
+        # The values of an earlier call are kept if the calculation fails
+        previous = dict(self.__dict__)
+        try:
+            self._calculate_values_at_turns()
+        except Exception:
+            self.__dict__.update(previous)
+            raise
+
+    def _calculate_values_at_turns(self):
         asrt.assert_machine_input(self)
         all_turns = (self.nprofiles - 1) * self.dturns
 
-- 
2.43.0


From 54b84d992051bc7584a21227b90bd78446042557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:44 +0000
Subject: [PATCH 27/41] fix: ProgramsMachine lost its values at turns when a
 recalculation failed

---
 .../tracking/programs_machine.py              | 39 ++++++++++++-------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/longitudinal_tomography/tracking/programs_machine.py b/longitudinal_tomography/tracking/programs_machine.py
index a1075ed..d4f02bb 100644
--- a/longitudinal_tomography/tracking/programs_machine.py
+++ b/longitudinal_tomography/tracking/programs_machine.py
@@ -113,6 +113,15 @@ class ProgramsMachine(MachineABC):
         Calculated function values at each turn. The discrete momentum, voltage
         and phase programs are interpolated to each turn.
         """
+        # The values of an earlier call are kept if the calculation fails
+        previous = dict(self.__dict__)
+        try:
+            self._calculate_values_at_turns()
+        except Exception:
+            self.__dict__.update(previous)
+            raise
+
+    def _calculate_values_at_turns(self):
         momentum_time, momentum_function = self._interpolate_momentum(
             self.momentum_raw[0, :],
             self.momentum_raw[1, :]
@@ -241,7 +250,7 @@ class ProgramsMachine(MachineABC):
 
         phi_lower, phi_upper = physics.find_phi_lower_upper(self, self.i0)
 
-        self.phi0 = np.zeros_like(self.vrf1_at_turn)
+        phi0 = np.zeros_like(self.vrf1_at_turn)
 
         try:
             phi_start = optimize.newton(func=physics.rfvolt_rf1_pmch,
@@ -256,26 +265,28 @@ class ProgramsMachine(MachineABC):
                                           tol=0.0001,
                                           maxiter=100,
                                           args=(self, self.i0))
-            self.phi0[self.i0] = synch_phase
+            phi0[self.i0] = synch_phase
 
             for i in range(self.i0 + 1, self.n_turns):
-                self.phi0[i] = optimize.newton(func=physics.rf_voltage_pmch,
-                                               x0=self.phi0[i - 1],
-                                               fprime=physics.drf_voltage_pmch,
-                                               tol=0.0001,
-                                               maxiter=100,
-                                               args=(self, i))
+                phi0[i] = optimize.newton(func=physics.rf_voltage_pmch,
+                                          x0=phi0[i - 1],
+                                          fprime=physics.drf_voltage_pmch,
+                                          tol=0.0001,
+                                          maxiter=100,
+                                          args=(self, i))
             for i in range(self.i0 - 1, -1, -1):
-                self.phi0[i] = optimize.newton(func=physics.rf_voltage_pmch,
-                                               x0=self.phi0[i + 1],
-                                               fprime=physics.drf_voltage_pmch,
-                                               tol=0.0001,
-                                               maxiter=100,
-                                               args=(self, i))
+                phi0[i] = optimize.newton(func=physics.rf_voltage_pmch,
+                                          x0=phi0[i + 1],
+                                          fprime=physics.drf_voltage_pmch,
+                                          tol=0.0001,
+                                          maxiter=100,
+                                          args=(self, i))
         except RuntimeError:
             raise ValueError('Could not find synchronous phase for supplied '
                              'parameters.')
 
+        self.phi0 = phi0
+
     def _interpolate_momentum(self, time: np.ndarray, momentum: np.ndarray):
         """
         Interpolates momentum at each turn. The interpolated time array is
-- 
2.43.0


From 69e4538ac3337d752dfeafd1b6e64109648a167a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:44 +0000
Subject: [PATCH 28/41] fix: rejected distribution changed the particles and
 the machine

---
 longitudinal_tomography/tracking/particles.py | 29 ++++++++++++-------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/longitudinal_tomography/tracking/particles.py b/longitudinal_tomography/tracking/particles.py
index c0233e6..989f206 100644
--- a/longitudinal_tomography/tracking/particles.py
+++ b/longitudinal_tomography/tracking/particles.py
@@ -143,10 +143,6 @@ class Particles(object):
         psinfo = psi.PhaseSpaceInfo(machine)
         psinfo.find_binned_phase_energy_limits()
 
-        self.dEbin = psinfo.dEbin
-        machine.dEbin = self.dEbin
-        self.xorigin = psinfo.xorigin
-
         nbins_y = np.sum(psinfo.jmax[psinfo.imin: psinfo.imax + 1]
                          - psinfo.jmin[psinfo.imin: psinfo.imax + 1])
 
@@ -175,21 +171,27 @@ class Particles(object):
         coords = coords[:, coords[1] < psinfo.jmax[coords[0].astype(int)]]
         coords = coords[:, coords[1] > psinfo.jmin[coords[0].astype(int)]]
 
+        # Converting from phase space coordinates to physical units.
+        coords = conf.cast(self._bin_nr_to_physical_coords(
+            coords, machine, psinfo.xorigin, psinfo.dEbin, recprof, deltaturn))
+        self.coordinates_dphi_denergy = coords
+
+        self.dEbin = psinfo.dEbin
+        machine.dEbin = self.dEbin
+        self.xorigin = psinfo.xorigin
+
         self.imin = psinfo.imin
         self.imax = psinfo.imax
         self.jmin = psinfo.jmin
         self.jmax = psinfo.jmax
 
-        # Converting from phase space coordinates to physical units.
-        coords = conf.cast(self._bin_nr_to_physical_coords(coords, machine, recprof, deltaturn))
-        self.coordinates_dphi_denergy = coords
-
     def _bin_nr_to_physical_coords(self,
                                    coordinates: Union[
                                        Sequence[np.ndarray],
                                        np.ndarray
                                    ],
-                                   machine: 'Machine', recprof: int,
+                                   machine: 'Machine', xorigin: float,
+                                   dEbin: float, recprof: int,
                                    deltaturn: int = 0) \
             -> Tuple[np.ndarray, np.ndarray]:
         """Function to convert from reconstructed phase space coordinates
@@ -205,6 +207,11 @@ class Particles(object):
             coordinate system.
         machine: Machine
             Machine object holding machine parameters and settings
+        xorigin: float
+            The absolute difference (in bins) between phase=0 and the origin
+            of the reconstructed phase space coordinate system.
+        dEbin: float
+            Energy size of bins in phase space coordinate system.
         recprof: int
             Profile to reconstruct.
         deltaturn: int
@@ -212,10 +219,10 @@ class Particles(object):
             between two recorded profiles
         """
         turn = recprof * machine.dturns + deltaturn
-        dphi = ((coordinates[0] + self.xorigin)
+        dphi = ((coordinates[0] + xorigin)
                 * machine.h_num * machine.omega_rev0[turn] * machine.dtbin
                 - machine.phi0[turn])
-        denergy = (coordinates[1] - machine.synch_part_y) * self.dEbin
+        denergy = (coordinates[1] - machine.synch_part_y) * dEbin
         return dphi, denergy
 
     # Assertions to assure that all needed fields are provided in the
-- 
2.43.0


From 9b9c28944cee0cfd7a80db5e85016174c53ccc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:44 +0000
Subject: [PATCH 29/41] fix: incomplete fit info was partly loaded into the
 machine

---
 longitudinal_tomography/tracking/machine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/tracking/machine.py b/longitudinal_tomography/tracking/machine.py
index e1011c8..7b67d2a 100644
--- a/longitudinal_tomography/tracking/machine.py
+++ b/longitudinal_tomography/tracking/machine.py
@@ -241,9 +241,10 @@ class Machine(MachineABC):
             output is to be given during the particle tracking.
         """
         log.info('Saving fitted synch_part_x to machine object.')
-        self.fitted_synch_part_x = fit_info[0]
-        self.bunchlimit_low = fit_info[1]
-        self.bunchlimit_up = fit_info[2]
+        fitted, lower, upper = fit_info[0], fit_info[1], fit_info[2]
+        self.fitted_synch_part_x = fitted
+        self.bunchlimit_low = lower
+        self.bunchlimit_up = upper
         self.synch_part_x = self.fitted_synch_part_x
 
     # Initiating arrays in order to store information about parameters
-- 
2.43.0


From bd46827d631a0d552854bb8f159e3d3aea4f8d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:44 +0000
Subject: [PATCH 30/41] fix: rejected number of bins was kept by the machine

---
 longitudinal_tomography/tracking/machine_base.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/longitudinal_tomography/tracking/machine_base.py b/longitudinal_tomography/tracking/machine_base.py
index 10ecb29..43ebc52 100644
--- a/longitudinal_tomography/tracking/machine_base.py
+++ b/longitudinal_tomography/tracking/machine_base.py
@@ -282,8 +282,9 @@ class MachineABC(ABC):
 
     @nbins.setter
     def nbins(self, in_nbins: int):
+        synch_part_y = in_nbins / 2.0
         self._nbins = in_nbins
-        self._find_synch_part_y()
+        self.synch_part_y = synch_part_y
         log.debug(f'synch_part_y was updated when the '
                   f'number of profile bins changed.\nNew values - '
                   f'nbins: {self._nbins}, synch_part_y: {self.synch_part_y}')
@@ -337,8 +338,3 @@ class MachineABC(ABC):
         The values are saved as fields of the Machine object.
         """
         pass
-
-    # Function for finding y coordinate of synchronous particle in the
-    # phase space coordinate system.
-    def _find_synch_part_y(self):
-        self.synch_part_y = self.nbins / 2.0
-- 
2.43.0


From 25504791012257eac1d0ffe06c41e8baa98067f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:41 +0000
Subject: [PATCH 31/41] fix: rejected waterfall changed dtbin and synch_part_x
 of the machine

---
 longitudinal_tomography/utils/tomo_input.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/utils/tomo_input.py b/longitudinal_tomography/utils/tomo_input.py
index 0208691..a34d61b 100644
--- a/longitudinal_tomography/utils/tomo_input.py
+++ b/longitudinal_tomography/utils/tomo_input.py
@@ -490,9 +490,12 @@ def raw_data_to_profiles(waterfall: np.ndarray, machine: MachineABC, rbn: int,
     # Subtracting baseline
     waterfall[:] -= fortran.calc_baseline(waterfall, machine.beam_ref_frame)
     # Rebinning
-    (waterfall,
-     machine.dtbin,
-     machine.synch_part_x) = pre_process.rebin(
+    waterfall, dtbin, synch_part_x = pre_process.rebin(
         waterfall, rbn, sampling_time, synch_part_x)
+    profiles = Profiles(machine, sampling_time, waterfall)
+
+    # The machine is updated only when the waterfall has been accepted
+    machine.dtbin = dtbin
+    machine.synch_part_x = synch_part_x
     # Returning Profiles object.
-    return Profiles(machine, sampling_time, waterfall)
+    return profiles
-- 
2.43.0


From f1462b031d58b98fbf1263c3f7c4b050a22395eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:55 +0000
Subject: [PATCH 32/41] fix: negative number of iterations wrote outside the
 discrepancy array

---
 longitudinal_tomography/cpp_routines/libtomo.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/longitudinal_tomography/cpp_routines/libtomo.cpp b/longitudinal_tomography/cpp_routines/libtomo.cpp
index ad8df69..b16b806 100644
--- a/longitudinal_tomography/cpp_routines/libtomo.cpp
+++ b/longitudinal_tomography/cpp_routines/libtomo.cpp
@@ -404,6 +404,9 @@ py::tuple wrapper_reconstruct(
     py::buffer_info buffer_xp = input_xp.request();
     py::buffer_info buffer_waterfall = waterfall.request();
 
+    if (n_iter < 0)
+        throw std::invalid_argument("The number of iterations must not be negative");
+
     std::unique_ptr<real_t[]> weights(new real_t[n_particles]());
     std::unique_ptr<real_t[]> discr(new real_t[n_iter + 1]());
     auto *flat_profs = static_cast<real_t *>(buffer_waterfall.ptr);
@@ -451,6 +454,9 @@ py::tuple wrapper_reconstruct_multi(
     py::buffer_info buffer_cutright = inp_cutright.request();
     py::buffer_info buffer_centers = inp_centers.request();
 
+    if (n_iter < 0)
+        throw std::invalid_argument("The number of iterations must not be negative");
+
     std::unique_ptr<real_t[]> weights(new real_t[n_particles * n_centers]());
     std::unique_ptr<real_t[]> discr(new real_t[n_iter + 1]());
     std::unique_ptr<real_t[]> discr_split(new real_t[n_centers * (n_iter + 1)]);
-- 
2.43.0


From b32944a82581929bd00c66a62636edb21c66d670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:54 +0000
Subject: [PATCH 33/41] fix: phase space image read past the weights when there
 were too few

---
 longitudinal_tomography/cpp_routines/libtomo.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/longitudinal_tomography/cpp_routines/libtomo.cpp b/longitudinal_tomography/cpp_routines/libtomo.cpp
index b16b806..adb3451 100644
--- a/longitudinal_tomography/cpp_routines/libtomo.cpp
+++ b/longitudinal_tomography/cpp_routines/libtomo.cpp
@@ -499,7 +499,10 @@ py::array_t<real_t> wrapper_make_phase_space(
     py::buffer_info buffer_yp = input_yp.request();
     py::buffer_info buffer_weight = input_weight.request();
 
-    const int n_particles = buffer_xp.shape[0];
+    if (buffer_yp.size != buffer_xp.size || buffer_weight.size != buffer_xp.size)
+        throw std::invalid_argument("The coordinates and weights must have one value per particle");
+
+    const int n_particles = static_cast<int>(buffer_xp.size);
 
     const auto *xp = static_cast<int *>(buffer_xp.ptr);
     const auto *yp = static_cast<int *>(buffer_yp.ptr);
-- 
2.43.0


From 6862e778fa40aed6c327b1740156c5a78c0f47ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:26 +0000
Subject: [PATCH 34/41] fix: a progress line that could not be written was lost
 without an error

---
 .../cpp_routines/kick_and_drift.cpp           |  5 ++--
 .../cpp_routines/progress.h                   | 23 +++++++++++++++++++
 .../cpp_routines/reconstruct.cpp              | 13 ++++++-----
 3 files changed, 33 insertions(+), 8 deletions(-)
 create mode 100644 longitudinal_tomography/cpp_routines/progress.h

diff --git a/longitudinal_tomography/cpp_routines/kick_and_drift.cpp b/longitudinal_tomography/cpp_routines/kick_and_drift.cpp
index fef337d..63f6121 100644
--- a/longitudinal_tomography/cpp_routines/kick_and_drift.cpp
+++ b/longitudinal_tomography/cpp_routines/kick_and_drift.cpp
@@ -13,6 +13,7 @@
 #include "sin.h"
 #include <cmath>
 #include "kick_and_drift.h"
+#include "progress.h"
 
 using namespace std;
 
@@ -165,7 +166,7 @@ void kick_and_drift(real_t **xp,             // inn/out
                 std::cout << " Tracking from time slice  "
                           << rec_prof + 1 << " to  " << profile + 1
                           << ",   0.000% went outside the image width."
-                          << std::endl;
+                          << end_progress;
         } //if
         callback(++progress, total);
     } //while
@@ -203,7 +204,7 @@ void kick_and_drift(real_t **xp,             // inn/out
                     std::cout << " Tracking from time slice  "
                               << rec_prof + 1 << " to  " << profile + 1
                               << ",   0.000% went outside the image width."
-                              << std::endl;
+                              << end_progress;
             }
             callback(++progress, total);
         }//while
diff --git a/longitudinal_tomography/cpp_routines/progress.h b/longitudinal_tomography/cpp_routines/progress.h
new file mode 100644
index 0000000..a47dd4d
--- /dev/null
+++ b/longitudinal_tomography/cpp_routines/progress.h
@@ -0,0 +1,23 @@
+/**
+ * @file progress.h
+ *
+ * Ends a line of the progress report on standard output.
+ */
+
+#ifndef TOMO_PROGRESS_H
+#define TOMO_PROGRESS_H
+
+#include <ostream>
+#include <stdexcept>
+
+// Like std::endl, but a line which could not be written is an error.
+inline std::ostream &end_progress(std::ostream &out) {
+    out << std::endl;
+    if (!out) {
+        out.clear();
+        throw std::runtime_error("The progress could not be written to standard output");
+    }
+    return out;
+}
+
+#endif //TOMO_PROGRESS_H
diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 04cab3b..23cee1f 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -17,6 +17,7 @@
 #include <memory>
 
 #include "reconstruct.h"
+#include "progress.h"
 
 // Back projection using flattened arrays
 template <typename real_t>
@@ -387,11 +388,11 @@ void reconstruct(real_t *weights,             // out
             throw std::runtime_error("All of phase space got reduced to zeroes");
 
         if (verbose)
-            std::cout << " Iterating..." << std::endl;
+            std::cout << " Iterating..." << end_progress;
 
         for (int iteration = 0; iteration < niter; iteration++) {
             if (verbose)
-                std::cout << std::setw(3) << iteration + 1 << std::endl;
+                std::cout << std::setw(3) << iteration + 1 << end_progress;
 
             project(flat_rec, flat_points, weights, npart, nprof);
             normalize(flat_rec, nprof, nbins);
@@ -422,7 +423,7 @@ void reconstruct(real_t *weights,             // out
     }
 
     if (verbose)
-        std::cout << " Done!" << std::endl;
+        std::cout << " Done!" << end_progress;
 }
 
 
@@ -474,11 +475,11 @@ void reconstruct_multi(real_t *weights,             // out
             throw std::runtime_error("All of phase space got reduced to zeroes");
 
         if (verbose)
-            std::cout << " Iterating..." << std::endl;
+            std::cout << " Iterating..." << end_progress;
 
         for (int iteration = 0; iteration < niter; iteration++) {
             if (verbose)
-                std::cout << std::setw(3) << iteration + 1 << std::endl;
+                std::cout << std::setw(3) << iteration + 1 << end_progress;
 
             project_multi(flat_rec, flat_points, weights, centers, npart, nprof, ncenter);
             normalize(flat_rec, nprof, nbins);
@@ -511,7 +512,7 @@ void reconstruct_multi(real_t *weights,             // out
     }
 
     if (verbose)
-        std::cout << " Done!" << std::endl;
+        std::cout << " Done!" << end_progress;
 }
 
 
-- 
2.43.0


From e12e424b18312a926bdefd093a91ae1256fe5869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:03 +0000
Subject: [PATCH 35/41] fix: end of the input on stdin was taken for empty
 parameter lines

---
 longitudinal_tomography/utils/tomo_input.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/longitudinal_tomography/utils/tomo_input.py b/longitudinal_tomography/utils/tomo_input.py
index a34d61b..fa1b266 100644
--- a/longitudinal_tomography/utils/tomo_input.py
+++ b/longitudinal_tomography/utils/tomo_input.py
@@ -256,6 +256,8 @@ def _get_input_stdin() -> np.ndarray:
 
     while line_num < ndata_points:
         read.append(sys.stdin.readline())
+        if not read[-1]:
+            raise expt.InputError(f'The input ended after {line_num} lines.')
         if line_num == RAW_DATA_FILE_IDX:
             if read[-1].strip('\r\n') == 'pipe':
                 piped_raw_data = True
-- 
2.43.0


From 378304e8db5be7c17589d6354a085cf746bf85e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:50 +0000
Subject: [PATCH 36/41] fix: self-field tracking reported the wrong time slice
 on the way down

---
 longitudinal_tomography/tracking/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index 35fb48d..0ba3cdb 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -459,9 +459,9 @@ class Tracking(ParticleTracker):
                 xp[profile] = temp_xp
                 yp[profile] = (denergy / self.particles.dEbin
                                + self.machine.synch_part_y)
-                profile -= 1
                 if self.fortran_flag:
                     fortran.print_tracking_status(rec_prof, profile)
+                profile -= 1
 
         return xp, yp
 
-- 
2.43.0


From 3c203bffef493761d3d8f052bc65014a90fd75b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:48 +0000
Subject: [PATCH 37/41] fix: remains of an interrupted CUDA compilation could
 be taken for kernels

---
 .../cuda_kernels/__init__.py                  | 46 +++++++++++--------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/longitudinal_tomography/cuda_kernels/__init__.py b/longitudinal_tomography/cuda_kernels/__init__.py
index 80b8129..a9ae54f 100644
--- a/longitudinal_tomography/cuda_kernels/__init__.py
+++ b/longitudinal_tomography/cuda_kernels/__init__.py
@@ -1,5 +1,6 @@
 import subprocess
 import os
+import tempfile
 from .. import exceptions as expt
 
 REDUCTION_BLOCK_SIZE = 32
@@ -48,26 +49,31 @@ def compile_kernels():
         nvccflags += ["-arch", f"sm_{comp_capability}"]
 
         try:
-            for source in cuda_sources:
-                command = nvccflags + [
-                    "-o",
-                    source + "_double.cubin.tmp",
-                    source + ".cu",
-                    f"-DBLOCK_SIZE={REDUCTION_BLOCK_SIZE}"
-                ]
-                subprocess.run(command, check=True)
-                os.replace(source + "_double.cubin.tmp",
-                           source + "_double.cubin")
-                command = nvccflags + [
-                    "-o",
-                    source + "_single.cubin.tmp",
-                    source + ".cu",
-                    "-DUSEFLOAT",
-                    f"-DBLOCK_SIZE={REDUCTION_BLOCK_SIZE}"
-                ]
-                subprocess.run(command, check=True)
-                os.replace(source + "_single.cubin.tmp",
-                           source + "_single.cubin")
+            # Incomplete kernels, of this or of a concurrent compilation, are
+            # never seen under the final names.
+            with tempfile.TemporaryDirectory(
+                    dir=os.path.dirname(cuda_sources[0])) as tmp:
+                for source in cuda_sources:
+                    output = os.path.join(tmp, os.path.basename(source))
+                    command = nvccflags + [
+                        "-o",
+                        output + "_double.cubin",
+                        source + ".cu",
+                        f"-DBLOCK_SIZE={REDUCTION_BLOCK_SIZE}"
+                    ]
+                    subprocess.run(command, check=True)
+                    os.replace(output + "_double.cubin",
+                               source + "_double.cubin")
+                    command = nvccflags + [
+                        "-o",
+                        output + "_single.cubin",
+                        source + ".cu",
+                        "-DUSEFLOAT",
+                        f"-DBLOCK_SIZE={REDUCTION_BLOCK_SIZE}"
+                    ]
+                    subprocess.run(command, check=True)
+                    os.replace(output + "_single.cubin",
+                               source + "_single.cubin")
         except subprocess.CalledProcessError as e:
             raise expt.CudaCompilationException(
                 "The CUDA source compilation failed."
-- 
2.43.0


From 49068942574606f95375cd99a329ee78b51e3e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:44 +0000
Subject: [PATCH 38/41] fix: report progress when tracking with self-fields

---
 longitudinal_tomography/tracking/tracking.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index 0ba3cdb..617d2f2 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -198,7 +198,7 @@ class Tracking(ParticleTracker):
             denergy = np.ascontiguousarray(denergy)
             dphi = np.ascontiguousarray(dphi)
             xp, yp = self.kick_and_drift_self(
-                denergy, dphi, rfv1, rfv2, recprof)
+                denergy, dphi, rfv1, rfv2, recprof, callback=callback)
         else:
             # Tracking without self-fields
             nparts = len(dphi)
@@ -325,7 +325,8 @@ class Tracking(ParticleTracker):
 
     def kick_and_drift_self(self, denergy: np.ndarray, dphi: np.ndarray,
                             rf1v: np.ndarray, rf2v: np.ndarray,
-                            rec_prof: int, deltaturn: int = 0) \
+                            rec_prof: int, deltaturn: int = 0,
+                            callback: Callable = None) \
             -> Tuple[np.ndarray, np.ndarray]:
         """Routine for tracking a given distribution of particles,\
         including self-fields. Implemented as hybrid between Python and C++.
@@ -360,6 +361,8 @@ class Tracking(ParticleTracker):
         deltaturn: int
             On offset in turn numbers in case the initial distribution is
             between profiles.
+        callback: Callable
+            Function called with (progress, total) at the end of each turn.
 
         Returns
         -------
@@ -402,6 +405,8 @@ class Tracking(ParticleTracker):
         yp[rec_prof] = (denergy / self.particles.dEbin
                         + self.machine.synch_part_y)
 
+        progress = 0
+
         if self.fortran_flag:
             fortran.print_tracking_status(rec_prof, profile)
         while turn < self.nturns:
@@ -430,6 +435,10 @@ class Tracking(ParticleTracker):
                 if self.fortran_flag:
                     fortran.print_tracking_status(rec_prof, profile)
 
+            progress += 1
+            if callback is not None:
+                callback(progress, self.nturns)
+
         dphi = dphi0
         denergy = denergy0
         turn = rec_turn
@@ -463,6 +472,10 @@ class Tracking(ParticleTracker):
                     fortran.print_tracking_status(rec_prof, profile)
                 profile -= 1
 
+            progress += 1
+            if callback is not None:
+                callback(progress, self.nturns)
+
         return xp, yp
 
     # Calculate from physical coordinates to x-coordinates.
-- 
2.43.0


From a390622747eea06756381e212217b62bcc3b172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:27 +0000
Subject: [PATCH 39/41] fix: track the number of turns the machine has now,
 also with self-fields

---
 longitudinal_tomography/tracking/__tracking.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tracking/__tracking.py b/longitudinal_tomography/tracking/__tracking.py
index 49c3e7e..d59f57c 100644
--- a/longitudinal_tomography/tracking/__tracking.py
+++ b/longitudinal_tomography/tracking/__tracking.py
@@ -65,7 +65,6 @@ class ParticleTracker:
         self.machine = machine
         self.particles = pts.Particles()
 
-        self.nturns = machine.dturns * (machine.nprofiles - 1)
         self._self_field_flag = False
         self._ftn_flag = False
 
@@ -73,6 +72,18 @@ class ParticleTracker:
         self._phiwrap = None
         self._vself = None
 
+    @property
+    def nturns(self):
+        """Number of turns between the first and the last profile.
+
+        Returns
+        -------
+        nturns: int
+            Number of machine turns the particles are tracked through,
+            for the present values of the machine.
+        """
+        return self.machine.dturns * (self.machine.nprofiles - 1)
+
     @property
     def self_field_flag(self):
         """self_field_flag defined as @property
-- 
2.43.0


From 077fb261eab436c25443eae6811dca6bc6a42e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:10 +0000
Subject: [PATCH 40/41] fix: leave the tracker unchanged if the values at turns
 are too few

---
 longitudinal_tomography/tracking/tracking.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index 617d2f2..f0a489e 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -159,6 +159,12 @@ class Tracking(ParticleTracker):
                                      + '(machine.dturn*recprof + deltaturn) '
                                      + 'must be greater than 0.')
 
+        # Nothing of the tracker is changed if the tables are too short
+        asrt.assert_greater(len(machine.phi0), 'number of values at turns',
+                            self.nturns, ValueError,
+                            'Use machine.values_at_turns() after changing'
+                            + ' the number of turns.')
+
         if init_distr is None:
             # Homogeneous distribution is created based on the
             # original Fortran algorithm.
-- 
2.43.0


From 1a9254a8443b9a774d871b0a949108aca6ce9c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:56 +0000
Subject: [PATCH 41/41] fix: use the present orbit radius when the programs are
 interpolated

---
 longitudinal_tomography/tracking/programs_machine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/longitudinal_tomography/tracking/programs_machine.py b/longitudinal_tomography/tracking/programs_machine.py
index d4f02bb..a0b76f3 100644
--- a/longitudinal_tomography/tracking/programs_machine.py
+++ b/longitudinal_tomography/tracking/programs_machine.py
@@ -307,6 +307,8 @@ class ProgramsMachine(MachineABC):
             Interpolated time and momentum at each turn.
         """
 
+        self.circumference = 2 * np.pi * self.mean_orbit_rad
+
         beta_0 = np.sqrt(1 / (1 + (self.e_rest / momentum[0]) ** 2))
         T0 = self.circumference / (
                 beta_0 * c.c)  # Initial revolution period [s]
-- 
2.43.0

