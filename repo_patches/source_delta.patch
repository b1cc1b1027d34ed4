From 079459e17667223090d1e10a6846b86ecd91c217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 01/44] fix: keep the electrons that slow-capture traps release
 into a pixel too faint to capture from

If the pixel's charge cloud has no volume even after the release (e.g. fewer
electrons than the well's notch depth, or a negative pixel), the watermarks
were emptied but the released electrons were dropped instead of returned.
---
 src/trap_managers.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index a3a3362..25a9293 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1303,8 +1303,8 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
     // ========
     // Capture and release electrons below the cloud
     // ========
-    // No capture
-    if (cloud_fractional_volume == 0.0) return 0.0;
+    // No capture, only the electrons released above
+    if (cloud_fractional_volume == 0.0) return n_released;
 
     // Add a new watermark at the new cloud height
     if (n_released > 0.0) {
@@ -2061,8 +2061,8 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
     // ========
     // Capture and release electrons below the cloud
     // ========
-    // No capture
-    if (cloud_fractional_volume == 0.0) return 0.0;
+    // No capture, only the electrons released above
+    if (cloud_fractional_volume == 0.0) return n_released;
 
     // Add a new watermark at the new cloud height
     if (n_released > 0.0) {
-- 
2.43.0


From 7ab372d42fd4b4cf2f3fd998f3c113af723da065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 02/44] fix: do not read or write image rows outside the image
 in multi-phase clocking

---
 src/cti.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cti.cpp b/src/cti.cpp
index 84931b4..e96a34c 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -362,6 +362,10 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             row_read = row_index +
                                        roe_step_phase->capture_from_which_pixels[i];
 
+                            // No charge outside the image (including "above"
+                            // row 0, since row_read is unsigned)
+                            if (row_read >= n_rows) continue;
+
                             n_free_electrons += image[row_read][column_index];
                         }
 
@@ -412,6 +416,9 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             row_write =
                                 row_index + roe_step_phase->release_to_which_pixels[i];
 
+                            // Charge moved outside the image is not recorded
+                            if (row_write >= n_rows) continue;
+
                             image[row_write][column_index] +=
                                 n_electrons_released_and_captured * express_multiplier *
                                 roe_step_phase->release_fraction_to_pixels[i];
-- 
2.43.0


From 20d6edc144079c50f0322b789ceb55cbef380dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 03/44] fix: allocate enough watermarks for all of the express
 passes in trap pumping

---
 src/cti.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cti.cpp b/src/cti.cpp
index e96a34c..7c1a1ea 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -114,6 +114,10 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
         // need to be tracked if the traps are never reset
         max_n_transfers *= n_columns;
     }
+    if (roe->type == roe_type_trap_pumping) {
+        // Every express pass continues from the same traps' stored states
+        max_n_transfers *= roe->n_express_passes;
+    }
 
     // Set empty arrays for nullptr trap lists
     std::valarray<TrapInstantCapture> no_traps_ic = {};
-- 
2.43.0


From 730ebbea5b5022e50ea7d19c4f8fc4c885b3f0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 04/44] fix: start each express pass over an offset image with
 empty traps

---
 src/roe.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/roe.cpp b/src/roe.cpp
index b9cc7bd..74d54e8 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -396,6 +396,10 @@ void ROE::set_store_trap_states_matrix() {
     // Store on the pixel before where the next express pass will begin, so
     // that the trap states are appropriate for continuing in the next pass
     for (int express_index = 0; express_index < n_express_passes - 1; express_index++) {
+        // Unless the next pass begins on the first pixel again (with an offset,
+        // the pixels before it hold no charge), where the traps are still empty
+        if (express_matrix[(express_index + 1) * n_transfers] > 0.0) continue;
+
         for (row_index = 0; row_index < n_transfers - 1; row_index++) {
             if (express_matrix[(express_index + 1) * n_transfers + row_index + 1] > 0.0)
                 break;
-- 
2.43.0


From 4524c8914676ab054820085df9db67b42d53930b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 05/44] fix: keep every column of the express matrix when
 express is one less than the number of rows

---
 src/roe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index 74d54e8..471f571 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -280,7 +280,7 @@ void ROE::set_express_matrix_from_rows_and_express(
     // Add an extra (first) transfer for every pixel, the effect of which
     // will only ever be counted once, because it is physically different
     // from the other transfers (it sees only empty traps)
-    if ((empty_traps_for_first_transfers) && (express >= n_transfers)) {
+    if ((empty_traps_for_first_transfers) && (express == n_rows + offset)) {
         // Reverse order of operations, so that first transfer always sees empty traps
         std::valarray<double> express_matrix_full = tmp_express_matrix;
         for (int i = 0; i < express; i++) {
@@ -291,7 +291,7 @@ void ROE::set_express_matrix_from_rows_and_express(
         }
         n_express_passes = express;
         
-    } else if ((empty_traps_for_first_transfers) && (express < n_transfers)) {
+    } else if (empty_traps_for_first_transfers) {
         // Create a new matrix for the full number of transfers
         // (this will eventually overwrite tmp_express_matrix, but that is first used)
         n_transfers++;
-- 
2.43.0


From 6fe2f5f0a1566d39ffea13154abe00d0615dbb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 06/44] fix: truncate only the image's own rows when all of
 them are in the overscan

---
 src/roe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index 471f571..66934ef 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -346,7 +346,7 @@ void ROE::set_express_matrix_from_rows_and_express(
     //std::cout << "overscan " << overscan_start << " f " << overscan_in_image << "\n";
     if (overscan_in_image > 0) {
         int n_express_rows = express_matrix.size() / n_rows;
-        for (int i_row = 0; (i_row < overscan_in_image); i_row++) {
+        for (int i_row = 0; (i_row < overscan_in_image) && (i_row < n_rows); i_row++) {
             double to_remove = overscan_in_image - i_row;
             double removed = 0;
             int i_express = 0;
-- 
2.43.0


From 4ce62fd80342d0af769eb8c61f59c416d10da1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 07/44] fix: allow for rounding when all of a pixel's transfers
 are in the overscan

---
 src/roe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index 66934ef..6f5c34e 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -350,7 +350,7 @@ void ROE::set_express_matrix_from_rows_and_express(
             double to_remove = overscan_in_image - i_row;
             double removed = 0;
             int i_express = 0;
-            while (removed < to_remove) {
+            while ((removed < to_remove) && (i_express < n_express_rows)) {
                 int index = (n_express_rows - i_express) * n_rows - i_row - 1;
                 if ( index < 0 ) throw std::invalid_argument( "Accessing pixel that does not exist" );
                 //std::cout << i_express << i_row << " " << to_remove << removed << " index " << index << "\n";
-- 
2.43.0


From 25130b0cd0131a8f7323de5f35bc54fdc19a89f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 08/44] fix: leave no stale watermark behind after pruning

---
 src/trap_managers.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 25a9293..1f213a8 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -432,6 +432,13 @@ void TrapManagerBase::prune_watermarks(double min_n_electrons) {
                 }
             }
             n_watermarks_pruned += 1;          
+
+            // Leave the vacated highest watermark empty, ready to be used again
+            int i_wmk_vacated =
+                i_first_active_wmk + n_active_watermarks - n_watermarks_pruned;
+            watermark_volumes[i_wmk_vacated] = 0.0;
+            watermark_fills[std::slice(i_wmk_vacated * n_traps, n_traps, 1)] =
+                empty_watermark;
         } else {
 
 /*            // Temp report
-- 
2.43.0


From 19fe4c51f12ca8375383e59d11c6df03447c3113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 09/44] fix: avoid 0/0 when there is nothing to capture from
 nothing

---
 src/trap_managers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 1f213a8..3c7c366 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1003,7 +1003,7 @@ double TrapManagerInstantCapture::n_electrons_captured(double n_free_electrons)
     // Would be really nice to do this including the express multiplier.
     // That would also prevent image pixels from changing sign when zeroth_watermark<0.
     //
-    double enough = abs(n_free_electrons / n_captured);
+    double enough = (n_captured != 0.0) ? abs(n_free_electrons / n_captured) : 1.0;
     //print_v(0,"enough %g %g %g\n", enough, n_free_electrons, n_captured);
 
     // Normal full capture
@@ -1826,7 +1826,7 @@ double TrapManagerInstantCaptureContinuum::n_electrons_captured(
     // Update the watermarks
     // ========
     // Check enough available electrons to capture
-    double enough = n_free_electrons / n_captured;
+    double enough = (n_captured != 0.0) ? n_free_electrons / n_captured : 1.0;
 
     // Normal full capture
     if (enough >= 1.0) {
-- 
2.43.0


From 63e11e62fb16f51bf2784495801d996234893d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 10/44] fix: avoid 0/0 for the exposed fraction of surface
 traps in an empty volume

---
 src/traps.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/traps.cpp b/src/traps.cpp
index d045d18..4f92a93 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -118,6 +118,11 @@ double TrapInstantCapture::fraction_traps_exposed_per_fractional_volume(
     else if (fractional_volume_high <= fractional_volume_none_exposed)
         return 0.0;
 
+    // No volume to integrate over, f(v) itself
+    if (fractional_volume_low == fractional_volume_high)
+        return (fractional_volume_low - fractional_volume_none_exposed) /
+               (fractional_volume_full_exposed - fractional_volume_none_exposed);
+
     double fraction;
     // Integrate f(v) from v_l to v_h
     if (fractional_volume_none_exposed == fractional_volume_full_exposed) {
-- 
2.43.0


From e9ca909df2eb804dafd7a67a5bc11c9f81ecd845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 11/44] fix: fill the traps below a faint cloud starting from
 their own occupancy

---
 src/trap_managers.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 3c7c366..904de0c 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -823,6 +823,9 @@ void TrapManagerInstantCapture::update_watermarks_capture_not_enough(
         if (i_first_active_wmk > 0) {
             // Use existing room below the current first active watermark
             i_first_active_wmk--;
+            watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
+                (std::valarray<double>)watermark_fills[std::slice(
+                    (i_first_active_wmk + 1) * n_traps, n_traps, 1)];
         } else {
             // Copy-paste all higher watermarks up one to make room
             for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
@@ -1678,6 +1681,9 @@ void TrapManagerInstantCaptureContinuum::update_watermarks_capture_not_enough(
         if (i_first_active_wmk > 0) {
             // Use existing room below the current first active watermark
             i_first_active_wmk--;
+            watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
+                (std::valarray<double>)watermark_fills[std::slice(
+                    (i_first_active_wmk + 1) * n_traps, n_traps, 1)];
         } else {
             // Copy-paste all higher watermarks up one to make room
             for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-- 
2.43.0


From d83993da74396e1202cf9621fd9e1e862cd48197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:08 +0000
Subject: [PATCH 12/44] fix: leave no negative watermark above a slow-capture
 cloud that grows over all others

---
 src/trap_managers.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 904de0c..590b128 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1343,9 +1343,10 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
             watermark_volumes[i_wmk_above_cloud] -
             (previous_total_volume - cloud_fractional_volume);
 
-        // Update fractional volume of the partially overwritten watermark
-        watermark_volumes[i_wmk_above_cloud] =
-            previous_total_volume - cloud_fractional_volume;
+        // Update fractional volume of the partially overwritten watermark, if any
+        if (i_wmk_above_cloud < i_first_active_wmk + n_active_watermarks)
+            watermark_volumes[i_wmk_above_cloud] =
+                previous_total_volume - cloud_fractional_volume;
     }
 
     // Release and capture electrons in each watermark below the cloud
@@ -2104,9 +2105,10 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
             watermark_volumes[i_wmk_above_cloud] -
             (previous_total_volume - cloud_fractional_volume);
 
-        // Update fractional volume of the partially overwritten watermark
-        watermark_volumes[i_wmk_above_cloud] =
-            previous_total_volume - cloud_fractional_volume;
+        // Update fractional volume of the partially overwritten watermark, if any
+        if (i_wmk_above_cloud < i_first_active_wmk + n_active_watermarks)
+            watermark_volumes[i_wmk_above_cloud] =
+                previous_total_volume - cloud_fractional_volume;
     }
 
     // Release and capture electrons in each watermark below the cloud
-- 
2.43.0


From dc942613d0c2026529477282deeece903a353ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:30 +0000
Subject: [PATCH 13/44] fix: let a slow-capture cloud reach all of the traps
 below it whatever the rounding

---
 src/trap_managers.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 590b128..15097fe 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1221,6 +1221,7 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
 
             // Update count of active watermarks
             n_active_watermarks++;
+            i_wmk_above_cloud++;
         }
 
         // Cloud above all current watermarks
@@ -1236,6 +1237,7 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
 
             // Update count of active watermarks
             n_active_watermarks++;
+            i_wmk_above_cloud++;
         }
 
         // Cloud between or below current watermarks
@@ -1304,11 +1306,14 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
         n_released += frac_released_this_wmk * watermark_volumes[i_wmk];
     }
 
-    // Update the electron cloud
+    // Update the electron cloud (unless it already ends exactly at a watermark,
+    // which rounding must not put on the wrong side of the cloud)
     n_free_electrons += n_released;
-    cloud_fractional_volume =
-        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-    i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+    if (n_released > 0.0) {
+        cloud_fractional_volume =
+            ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
+        i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+    }
 
     // ========
     // Capture and release electrons below the cloud
@@ -1978,6 +1983,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
             // Update count of active watermarks
             n_active_watermarks++;
+            i_wmk_above_cloud++;
         }
 
         // Cloud above all current watermarks
@@ -1993,6 +1999,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
             // Update count of active watermarks
             n_active_watermarks++;
+            i_wmk_above_cloud++;
         }
 
         // Cloud between or below current watermarks
@@ -2066,11 +2073,14 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
         n_released += n_released_this_wmk * watermark_volumes[i_wmk];
     }
 
-    // Update the electron cloud
+    // Update the electron cloud (unless it already ends exactly at a watermark,
+    // which rounding must not put on the wrong side of the cloud)
     n_free_electrons += n_released;
-    cloud_fractional_volume =
-        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-    i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+    if (n_released > 0.0) {
+        cloud_fractional_volume =
+            ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
+        i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+    }
 
     // ========
     // Capture and release electrons below the cloud
-- 
2.43.0


From 645b863b7ed44ca1ef0198d557dd449e1002651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 14/44] fix: keep all of the trap-pumping multipliers with
 mismatched integer express passes

---
 src/roe.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index 6f5c34e..55b426d 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -892,16 +892,10 @@ void ROETrapPumping::set_express_matrix_from_rows_and_express(
 
         n_express_passes = express + 1;
         tmp_col.resize(n_express_passes);
-        // Set the non-zero elements, which won't include the final entry for
-        // mismatched integer multipliers
-        if ((use_integer_express_matrix) && (n_pumps % express != 0)) {
-            // (Using slice here doesn't compile on mac for some odd reason...)
-            for (int i = 0; i < n_express_passes - 1; i++) tmp_col[i] = tmp_col_2[i];
-
-            // Put back the final zero
-            tmp_col[n_express_passes - 1] = 0.0;
-        } else
-            tmp_col = tmp_col_2;
+        // Set the non-zero elements, which won't include the final entries for
+        // mismatched integer multipliers, left at zero
+        // (Using slice here doesn't compile on mac for some odd reason...)
+        for (unsigned int i = 0; i < tmp_col_2.size(); i++) tmp_col[i] = tmp_col_2[i];
     }
 
     express_matrix.resize(n_rows * n_express_passes);
-- 
2.43.0


From f3308479dd044ce6e0c5827168321b0199a75733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:34 +0000
Subject: [PATCH 15/44] fix: allow continuum traps with no density (e.g. in one
 of the phases)

---
 src/trap_managers.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 15097fe..c7a5443 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1520,6 +1520,9 @@ double TrapManagerInstantCaptureContinuum::n_electrons_released_from_wmk_above_c
     double time_initial;
     double fill_final;
     for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        // No traps
+        if (trap_densities[i_trap] == 0.0) continue;
+
         // Initial fill and conversion to elapsed time
         fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
         time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
@@ -1555,6 +1558,9 @@ double TrapManagerInstantCaptureContinuum::n_electrons_released() {
 
         // Each trap species
         for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // No traps
+            if (trap_densities[i_trap] == 0.0) continue;
+
             // Initial fill and conversion to elapsed time
             fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
@@ -1945,6 +1951,9 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_from_wmk_above_clou
     double time_initial;
     double fill_final;
     for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        // No traps
+        if (trap_densities[i_trap] == 0.0) continue;
+
         // Initial fill and conversion to elapsed time
         fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
         time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
@@ -2053,6 +2062,9 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
         // Each trap species
         for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // No traps
+            if (trap_densities[i_trap] == 0.0) continue;
+
             // Initial fill and conversion to elapsed time
             fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
@@ -2134,6 +2146,9 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
         // Each trap species
         for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // No traps
+            if (trap_densities[i_trap] == 0.0) continue;
+
             // Initial fill and conversion to elapsed time
             fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
@@ -2177,6 +2192,9 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
         // Each trap species
         for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // No traps
+            if (trap_densities[i_trap] == 0.0) continue;
+
             // Initial fill and conversion to elapsed time
             fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
-- 
2.43.0


From c61721b93c4436686cf8b07ffb21b4e4c28b08d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:34 +0000
Subject: [PATCH 16/44] fix: keep the continuum traps' table of times from
 being empty for a single transfer

---
 src/trap_managers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index c7a5443..2d3d552 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1470,7 +1470,7 @@ TrapManagerInstantCaptureContinuum::TrapManagerInstantCaptureContinuum(
     }
 
     time_min = dwell_time;
-    time_max = max_n_transfers * dwell_time;
+    time_max = (max_n_transfers > 1 ? max_n_transfers : 2) * dwell_time;
     n_intp = 1000;
 }
 
-- 
2.43.0


From cd18c687e1a0ef00d78b2540439d77ce4c5a10bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:34 +0000
Subject: [PATCH 17/44] fix: do not take the logarithm of no time elapsed for
 full slow-capture continuum traps

---
 src/traps.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/traps.cpp b/src/traps.cpp
index 4f92a93..1f3c1c1 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -964,6 +964,9 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture_table(
         return fill_capture_long_time;
     else if (time_elapsed == -1.0)
         return 0.0;
+    // Completely full, so no logarithm
+    else if (time_elapsed == 0.0)
+        return fill_capture_max;
 
     // Get the index and interpolation factor
     double intp = (log(time_max) - log(time_elapsed)) / d_log_time;
-- 
2.43.0


From ec81703f84fba244238c0b7fa72a9ea477deb8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 18/44] fix: treat no capture timescale as instant capture for
 every slow-capture trap

---
 src/trap_managers.cpp | 8 ++++++--
 src/traps.cpp         | 5 +++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 2d3d552..3d579a6 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1140,8 +1140,12 @@ void TrapManagerSlowCapture::set_fill_probabilities() {
                 traps[i_trap].capture_rate * exponential_factor;
 
         // Resulting fill fraction for filled traps (Eqn. 21)
-        fill_probabilities_from_full[i_trap] =
-            1.0 - traps[i_trap].release_rate * exponential_factor;
+        if (traps[i_trap].capture_rate == 0.0)
+            // Instant (re)capture
+            fill_probabilities_from_full[i_trap] = 1.0;
+        else
+            fill_probabilities_from_full[i_trap] =
+                1.0 - traps[i_trap].release_rate * exponential_factor;
 
         // Resulting empty fraction from only release
         empty_probabilities_from_release[i_trap] =
diff --git a/src/traps.cpp b/src/traps.cpp
index 1f3c1c1..63f8531 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -840,6 +840,11 @@ double TrSCCo_ff_after_sc_integrand(double tau, void* params) {
     double exponential_factor = (1 - exp(-total_rate * p->dwell_time)) / total_rate;
     double fill_probability_from_empty = p->capture_rate * exponential_factor;
     double fill_probability_from_full = 1.0 - release_rate * exponential_factor;
+    if (p->capture_rate == 0.0) {
+        // Instant capture
+        fill_probability_from_empty = 1.0;
+        fill_probability_from_full = 1.0;
+    }
 
     // Initial fill fraction
     double f_0;
-- 
2.43.0


From 7935c1a1d0f939da55ab459524af9f329ea1472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 19/44] fix: integrate continuum traps over their whole
 distribution of release timescales

---
 src/traps.cpp | 53 +++++++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/traps.cpp b/src/traps.cpp
index 63f8531..a93bb23 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -219,8 +219,8 @@ TrapInstantCaptureContinuum::TrapInstantCaptureContinuum(
         f = int_0^inf n(tau) exp(-t_e/tau) dtau
 
     Integrating from 0 to infinity can fail for very small mu and/or sigma, so
-    instead integrate from 0 to (mu + 100 sigma) for a more reliable and very
-    close approximation.
+    instead integrate over log(tau) within 10 sigma of log(mu) for a more
+    reliable and very close approximation.
 
     (www.gnu.org/software/gsl/doc/html/integration.html#qag-adaptive-integration)
 
@@ -245,14 +245,15 @@ struct TrICCo_ff_from_te_params {
     double sigma;
 };
 
-double TrICCo_ff_from_te_integrand(double tau, void* params) {
+double TrICCo_ff_from_te_integrand(double log_tau, void* params) {
     struct TrICCo_ff_from_te_params* p = (struct TrICCo_ff_from_te_params*)params;
 
-    // Distribution density
-    double n = exp(-pow(log(tau) - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
-               (tau * p->sigma * sqrt(2.0 * M_PI));
+    // Distribution density (with log(tau))
+    double n = exp(-pow(log_tau - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
+               (p->sigma * sqrt(2.0 * M_PI));
+    double tau = exp(log_tau);
 
-    // To integrate: n(tau) * fill_frac(tau) dtau
+    // To integrate: n(tau) * fill_frac(tau) dtau = n(log tau) * fill_frac(tau) dlog(tau)
     return n * exp(-p->time_elapsed / tau);
 }
 
@@ -268,8 +269,8 @@ double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed(
 
     // Prep the integration
     double result, error;
-    const double min = 0.0;
-    const double max = release_timescale + 100 * release_timescale_sigma;
+    const double min = log(release_timescale) - 10 * release_timescale_sigma;
+    const double max = log(release_timescale) + 10 * release_timescale_sigma;
     const double epsabs = 0.0;
     const double epsrel = 1e-6;
     const int limit = 100;
@@ -576,14 +577,15 @@ struct TrSCCo_ff_from_te_params {
     double sigma;
 };
 
-double TrSCCo_ff_from_te_integrand(double tau, void* params) {
+double TrSCCo_ff_from_te_integrand(double log_tau, void* params) {
     struct TrSCCo_ff_from_te_params* p = (struct TrSCCo_ff_from_te_params*)params;
 
-    // Distribution density
-    double n = exp(-pow(log(tau) - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
-               (tau * p->sigma * sqrt(2.0 * M_PI));
+    // Distribution density (with log(tau))
+    double n = exp(-pow(log_tau - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
+               (p->sigma * sqrt(2.0 * M_PI));
+    double tau = exp(log_tau);
 
-    // To integrate: n(tau) * fill_frac(tau) dtau
+    // To integrate: n(tau) * fill_frac(tau) dtau = n(log tau) * fill_frac(tau) dlog(tau)
     return n * exp(-p->time_elapsed / tau);
 }
 
@@ -599,8 +601,8 @@ double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed(
 
     // Prep the integration
     double result, error;
-    const double min = 0.0;
-    const double max = release_timescale + 100 * release_timescale_sigma;
+    const double min = log(release_timescale) - 10 * release_timescale_sigma;
+    const double max = log(release_timescale) + 10 * release_timescale_sigma;
     const double epsabs = 0.0;
     const double epsrel = 1e-6;
     const int limit = 100;
@@ -795,8 +797,8 @@ double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction_table(
         f = int_0^inf n(tau) f(tau) dtau
 
     Integrating from 0 to infinity can fail for very small mu and/or sigma, so
-    instead integrate from 0 to (mu + 100 sigma) for a more reliable and very
-    close approximation.
+    instead integrate over log(tau) within 10 sigma of log(mu) for a more
+    reliable and very close approximation.
 
     (www.gnu.org/software/gsl/doc/html/integration.html#qag-adaptive-integration)
 
@@ -827,12 +829,13 @@ struct TrSCCo_ff_after_sc_params {
     double dwell_time;
 };
 
-double TrSCCo_ff_after_sc_integrand(double tau, void* params) {
+double TrSCCo_ff_after_sc_integrand(double log_tau, void* params) {
     struct TrSCCo_ff_after_sc_params* p = (struct TrSCCo_ff_after_sc_params*)params;
 
-    // Distribution density
-    double n = exp(-pow(log(tau) - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
-               (tau * p->sigma * sqrt(2.0 * M_PI));
+    // Distribution density (with log(tau))
+    double n = exp(-pow(log_tau - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
+               (p->sigma * sqrt(2.0 * M_PI));
+    double tau = exp(log_tau);
 
     // Rates and fill probabilities
     double release_rate = 1.0 / tau;
@@ -855,7 +858,7 @@ double TrSCCo_ff_after_sc_integrand(double tau, void* params) {
     else
         f_0 = exp(-p->time_elapsed * release_rate);
 
-    // To integrate: n(tau) * new_fill(tau) dtau
+    // To integrate: n(tau) * new_fill(tau) dtau = n(log tau) * new_fill(tau) dlog(tau)
     return n * (f_0 * fill_probability_from_full +
                 (1.0 - f_0) * fill_probability_from_empty);
 }
@@ -864,8 +867,8 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
     double time_elapsed, double dwell_time, gsl_integration_workspace* workspace) {
     // Prep the integration
     double result, error;
-    const double min = 0.0;
-    const double max = release_timescale + 100 * release_timescale_sigma;
+    const double min = log(release_timescale) - 10 * release_timescale_sigma;
+    const double max = log(release_timescale) + 10 * release_timescale_sigma;
     const double epsabs = 0.0;
     const double epsrel = 1e-6;
     const int limit = 100;
-- 
2.43.0


From 5ff981d11f5c289fb236ce9ef2d07a4b601d140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:44 +0000
Subject: [PATCH 20/44] fix: clock columns in order, in one thread, when they
 share the same traps

---
 src/cti.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cti.cpp b/src/cti.cpp
index 7c1a1ea..e948e8e 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -317,7 +317,8 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
     //   Columns > Express passes > Rows > Clock-sequence steps > Pixel phases
     #pragma omp parallel for private(column_index, row_index, row_read, row_write, n_free_electrons, \
 				     n_electrons_released_and_captured, express_multiplier, roe_step_phase) \
-                             firstprivate(trap_manager_manager)
+                             firstprivate(trap_manager_manager) \
+                             if(roe->empty_traps_between_columns)
     for (unsigned int i_column = 0; i_column < n_active_columns; i_column++) {
         column_index = column_start + i_column;
 
-- 
2.43.0


From b0cb6ba25d43b38b5de41a7b915d5c6a04ea4dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:32 +0000
Subject: [PATCH 21/44] fix: print no trap states that do not exist at high
 verbosity

---
 src/cti.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cti.cpp b/src/cti.cpp
index e948e8e..8a3cb2d 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -374,7 +374,6 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             n_free_electrons += image[row_read][column_index];
                         }
 
-                        print_v(2, "row_read  %d \n", row_read);
                         print_v(2, "n_free_electrons  %g \n", n_free_electrons);
  
                         // Release and capture electrons with the traps in this
@@ -409,9 +408,10 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             2, "n_electrons_released_and_captured  %g \n",
                             n_electrons_released_and_captured);
 
-                        print_v(
-                           2, "n_trapped_electrons_from_watermarks  %g \n",
-                            trap_manager_manager.trap_managers_ic[i_phase].n_trapped_electrons_from_watermarks(trap_manager_manager.trap_managers_ic[i_phase].watermark_volumes,trap_manager_manager.trap_managers_ic[i_phase].watermark_fills));
+                        if (trap_manager_manager.n_traps_ic > 0)
+                            print_v(
+                               2, "n_trapped_electrons_from_watermarks  %g \n",
+                                trap_manager_manager.trap_managers_ic[i_phase].n_trapped_electrons_from_watermarks(trap_manager_manager.trap_managers_ic[i_phase].watermark_volumes,trap_manager_manager.trap_managers_ic[i_phase].watermark_fills));
 
                         print_v(2, "n_free_electrons  %g \n", n_free_electrons);
 
-- 
2.43.0


From 41558452731ffad0d5e70333866ec781ce976acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:12 +0000
Subject: [PATCH 22/44] fix: free the workspaces and root finders of the
 continuum traps' integrals

---
 src/traps.cpp | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/traps.cpp b/src/traps.cpp
index a93bb23..ad2ada0 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -275,8 +275,9 @@ double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed(
     const double epsrel = 1e-6;
     const int limit = 100;
     const int key = GSL_INTEG_GAUSS51;
+    gsl_integration_workspace* own_workspace = nullptr;
     if (!workspace) {
-        workspace = gsl_integration_workspace_alloc(limit);
+        workspace = own_workspace = gsl_integration_workspace_alloc(limit);
     }
     struct TrICCo_ff_from_te_params params = {
         time_elapsed, release_timescale, release_timescale_sigma};
@@ -290,6 +291,8 @@ double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed(
 
     if (status) error("Integration failed, status %d", status);
 
+    if (own_workspace) gsl_integration_workspace_free(own_workspace);
+
     return result;
 }
 
@@ -346,9 +349,10 @@ double TrapInstantCaptureContinuum::time_elapsed_from_fill_fraction(
         return 0.0;
 
     // Prep for the integration
+    gsl_integration_workspace* own_workspace = nullptr;
     if (!workspace) {
         const int limit = 100;
-        workspace = gsl_integration_workspace_alloc(limit);
+        workspace = own_workspace = gsl_integration_workspace_alloc(limit);
     }
 
     // Prep the root finder
@@ -382,6 +386,9 @@ double TrapInstantCaptureContinuum::time_elapsed_from_fill_fraction(
         status = gsl_root_test_interval(x_lo, x_hi, epsabs, epsrel);
     } while (status == GSL_CONTINUE && iter < max_iter);
 
+    gsl_root_fsolver_free(s);
+    if (own_workspace) gsl_integration_workspace_free(own_workspace);
+
     return root;
 }
 
@@ -436,6 +443,8 @@ void TrapInstantCaptureContinuum::prep_fill_fraction_and_time_elapsed_tables(
         time_i = exp(log(time_max) - i * d_log_time);
         fill_fraction_table[i] = fill_fraction_from_time_elapsed(time_i, workspace);
     }
+
+    gsl_integration_workspace_free(workspace);
 }
 
 /*
@@ -607,8 +616,9 @@ double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed(
     const double epsrel = 1e-6;
     const int limit = 100;
     const int key = GSL_INTEG_GAUSS51;
+    gsl_integration_workspace* own_workspace = nullptr;
     if (!workspace) {
-        workspace = gsl_integration_workspace_alloc(limit);
+        workspace = own_workspace = gsl_integration_workspace_alloc(limit);
     }
     struct TrSCCo_ff_from_te_params params = {
         time_elapsed, release_timescale, release_timescale_sigma};
@@ -622,6 +632,8 @@ double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed(
 
     if (status) error("Integration failed, status %d", status);
 
+    if (own_workspace) gsl_integration_workspace_free(own_workspace);
+
     return result;
 }
 
@@ -653,9 +665,10 @@ double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction(
         return 0.0;
 
     // Prep for the integration
+    gsl_integration_workspace* own_workspace = nullptr;
     if (!workspace) {
         const int limit = 100;
-        workspace = gsl_integration_workspace_alloc(limit);
+        workspace = own_workspace = gsl_integration_workspace_alloc(limit);
     }
 
     // Prep the root finder
@@ -689,6 +702,9 @@ double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction(
         status = gsl_root_test_interval(x_lo, x_hi, epsabs, epsrel);
     } while (status == GSL_CONTINUE && iter < max_iter);
 
+    gsl_root_fsolver_free(s);
+    if (own_workspace) gsl_integration_workspace_free(own_workspace);
+
     return root;
 }
 
@@ -717,6 +733,8 @@ void TrapSlowCaptureContinuum::prep_fill_fraction_and_time_elapsed_tables(
         time_i = exp(log(time_max) - i * d_log_time);
         fill_fraction_table[i] = fill_fraction_from_time_elapsed(time_i, workspace);
     }
+
+    gsl_integration_workspace_free(workspace);
 }
 
 /*
@@ -873,8 +891,9 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
     const double epsrel = 1e-6;
     const int limit = 100;
     const int key = GSL_INTEG_GAUSS51;
+    gsl_integration_workspace* own_workspace = nullptr;
     if (!workspace) {
-        workspace = gsl_integration_workspace_alloc(limit);
+        workspace = own_workspace = gsl_integration_workspace_alloc(limit);
     }
     struct TrSCCo_ff_after_sc_params params = {
         time_elapsed, release_timescale, release_timescale_sigma, capture_rate,
@@ -889,6 +908,8 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
 
     if (status) error("Integration failed, status %d", status);
 
+    if (own_workspace) gsl_integration_workspace_free(own_workspace);
+
     return result;
 }
 
@@ -948,6 +969,8 @@ void TrapSlowCaptureContinuum::prep_fill_fraction_after_slow_capture_tables(
         fill_fraction_capture_table[i] =
             fill_fraction_after_slow_capture(time_i, dwell_time, workspace);
     }
+
+    gsl_integration_workspace_free(workspace);
 }
 
 /*
-- 
2.43.0


From 103548883bc33734b42674015d31daf6fd43dcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:12 +0000
Subject: [PATCH 23/44] fix: add, not subtract, the borrowed second of an
 elapsed time

---
 src/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cpp b/src/util.cpp
index cd4881d..dff820f 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -305,7 +305,7 @@ double gettimelapsed(struct timeval start, struct timeval end) {
 
     if (microseconds < 0.0) {
         seconds -= 1.0;
-        microseconds = 1e6 - microseconds;
+        microseconds += 1e6;
     }
 
     microseconds /= 1e6;
-- 
2.43.0


From 247d6566cdcf24fa443d02a941c5cdcbef95cfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 24/44] fix: call the pixel bounce method that exists when
 adding CTI

---
 python/arcticpy/cti.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/arcticpy/cti.py b/python/arcticpy/cti.py
index 92c0488..3056a40 100644
--- a/python/arcticpy/cti.py
+++ b/python/arcticpy/cti.py
@@ -310,7 +310,7 @@ def add_cti(
         bias_total = np.zeros(image.shape)
         
         for pixel_bounce in pixel_bounce_list:
-            bias = pixel_bounce.bias_from(
+            bias = pixel_bounce.perturb_bias(
                 image_trailed,
                 parallel_window_start=parallel_window_start,
                 parallel_window_stop=parallel_window_stop,
-- 
2.43.0


From 5323d1a4b946042836d58debebcebf3c96650edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 25/44] fix: take all of a charge-injection ROE's options from
 the normal ROE

---
 python/arcticpy/roe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/arcticpy/roe.py b/python/arcticpy/roe.py
index 130ba6a..7b5a629 100644
--- a/python/arcticpy/roe.py
+++ b/python/arcticpy/roe.py
@@ -85,7 +85,7 @@ class ROEChargeInjection(ROE):
         return ROEChargeInjection(
             dwell_times=roe.dwell_times,
             prescan_offset=roe.prescan_offset + n_pixels_in_image,
-            prescan_length=prescan_length,
+            prescan_length=roe.prescan_length,
             overscan_start=roe.overscan_start,
             empty_traps_between_columns=roe.empty_traps_between_columns,
             force_release_away_from_readout=roe.force_release_away_from_readout,
@@ -94,7 +94,7 @@ class ROEChargeInjection(ROE):
             pixel_bounce_kv=roe.pixel_bounce_kv,
             pixel_bounce_omega=roe.pixel_bounce_omega,
             pixel_bounce_gamma=roe.pixel_bounce_gamma,
-            read_noise=read_noise
+            read_noise=roe.read_noise
         )
 
 
-- 
2.43.0


From a644b2188a87e471c26aaa27a52b7df496405cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 26/44] fix: keep the exposed volumes of surface traps with a
 Poisson density

---
 python/arcticpy/traps.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/arcticpy/traps.py b/python/arcticpy/traps.py
index f5e2d75..5719fc6 100644
--- a/python/arcticpy/traps.py
+++ b/python/arcticpy/traps.py
@@ -61,7 +61,10 @@ class TrapInstantCapture(AbstractTrap):
         poisson_density_per_pixel = poisson_density_pixels / total_pixels
 
         return TrapInstantCapture(
-            density=poisson_density_per_pixel, release_timescale=self.release_timescale
+            density=poisson_density_per_pixel,
+            release_timescale=self.release_timescale,
+            fractional_volume_none_exposed=self.fractional_volume_none_exposed,
+            fractional_volume_full_exposed=self.fractional_volume_full_exposed,
         )
 
 
-- 
2.43.0


From d9c357ff0ffe6bb441cc47e7f9344b7512fc3bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 27/44] fix: make the row-by-row pixel bounce the same as the
 vectorised one

---
 python/arcticpy/pixel_bounce.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/arcticpy/pixel_bounce.py b/python/arcticpy/pixel_bounce.py
index 78462ef..80bac09 100644
--- a/python/arcticpy/pixel_bounce.py
+++ b/python/arcticpy/pixel_bounce.py
@@ -52,7 +52,7 @@ class PixelBounce:
 
     @property
     def omega0(self):
-        return np.sqrt(omega**2 + gamma**2)  # natural frequency of oscillator
+        return np.sqrt(self.omega**2 + self.gamma**2)  # natural frequency of oscillator
 
     def perturb_bias(
             self,
@@ -236,7 +236,7 @@ class PixelBounce:
         # omega = np.sqrt(self.omegaO**2 - self.gamma**2)
         coeffA = 2 * np.exp(-1 * self.gamma * epsilon) * np.cos(self.omega * epsilon)
         coeffB = np.exp(-2 * self.gamma * epsilon)
-        biasm1 = 0.0
+        image = np.copy(image).astype(np.double)
 
         # Read out one column of pixels through the (column of) traps
         n_rows_in_image, n_columns_in_image = image.shape
@@ -248,6 +248,7 @@ class PixelBounce:
             # Initialise bias offset voltage, which should settle during prescan
             # of each row
             bias = np.zeros((1, n_columns_in_image))
+            biasm1 = 0.0
 
             # Each pixel
             # for row_index in window_row_range:
@@ -255,7 +256,7 @@ class PixelBounce:
                 # Store previous values of bias, so difference equation can
                 # compute rates of change
                 biasm2 = copy.copy(biasm1)
-                biasm1 = bias[row_index, column_index - 1]
+                biasm1 = bias[0, column_index - 1]
 
                 # What electronic impulse is being experienced?
                 delta = (
-- 
2.43.0


From 7abd21a83c165c1d6547dbfb12ebf8b3bd1245a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:48 +0000
Subject: [PATCH 28/44] fix: compare the rows of the V&V test's background with
 the prescan, not as an axis

---
 python/arcticpy/vv_test.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/arcticpy/vv_test.py b/python/arcticpy/vv_test.py
index 9fafcee..00294c0 100644
--- a/python/arcticpy/vv_test.py
+++ b/python/arcticpy/vv_test.py
@@ -236,7 +236,7 @@ class VVTestBench:
         if valid_columns is None:
             self.print("Finding columns containing (only) background")
             # Extract representative chunk of image to calculate background,
-            y_min = np.min(
+            y_min = max(
                 y_roe.overscan_start - self.nrows_for_background, y_roe.prescan_length
             )
             background_image = image[ y_min:y_roe.overscan_start, x_min:x_max ]
@@ -310,7 +310,7 @@ class VVTestBench:
                 parallel_ccd=y_ccd,
                 parallel_traps=y_traps,
                 parallel_express=0,
-                parallel_window_start=np.min(y_roe.overscan_start-nrows_buffer,0)
+                parallel_window_start=max(y_roe.overscan_start-nrows_buffer,0)
             )
             model_overscan = (model_post_cti[y_roe.overscan_start:]).flatten()
                
-- 
2.43.0


From a8188c82d058b5233e973a9a1be8361dc672e35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:48 +0000
Subject: [PATCH 29/44] fix: run the stand-alone V&V test with the test bench
 and options it is given

---
 python/arcticpy/vv_test.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/arcticpy/vv_test.py b/python/arcticpy/vv_test.py
index 00294c0..09b7110 100644
--- a/python/arcticpy/vv_test.py
+++ b/python/arcticpy/vv_test.py
@@ -461,9 +461,13 @@ def vv_test(
             serial_ccd=serial_ccd, 
             serial_traps=serial_traps, 
             sum_of_exponentials=sum_of_exponentials,
-            verbose=verbose
+            verbose=verbose,
+            nrows_for_background=nrows_for_background,
+            ncols_min_required=ncols_min_required,
+            sigma_clipping_threshold=sigma_clipping_threshold,
+            sigma_clipping_niter=sigma_clipping_niter
         )
-    result=vv.test(image,
+    result=vv_testbench.test(image,
         parallel_valid_columns  = parallel_valid_columns,
         parallel_pixels_pre_cti = parallel_pixels_pre_cti,
         parallel_model_bias     = parallel_model_bias,
-- 
2.43.0


From aa44f35c72cf4076690c06bb2ebcb230743e062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:48 +0000
Subject: [PATCH 30/44] fix: do not wrap pixels around the image in covariance
 matrices that are not square

---
 python/arcticpy/read_noise.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/arcticpy/read_noise.py b/python/arcticpy/read_noise.py
index 5a3596d..93e5b6c 100644
--- a/python/arcticpy/read_noise.py
+++ b/python/arcticpy/read_noise.py
@@ -1046,7 +1046,10 @@ class CovarianceMatrix(np.ndarray):
         # Initialise output variable
         self = CovarianceMatrix(matrix_size=matrix_size)
         middle = self.middle
-        roll_border = tuple(max(a,1) for a in middle)
+        # Number of pixels around the edge of each axis (matrix element i, j is
+        # for an offset of j rows and i columns)
+        edge = (max(middle[1],1), max(middle[0],1))
+        inner = (slice(edge[0],-edge[0]), slice(edge[1],-edge[1]))
 
         # Optionally remove a border around the image, e.g. to avoid FPR decrement
         # (this actually removes one extra row at the top and column on the right)
@@ -1055,7 +1058,7 @@ class CovarianceMatrix(np.ndarray):
 
         # Remove the outside edge of an image that could be rolled over in the next copy, 
         # so the two copies stay the same size
-        x = subimage[roll_border[0]:-roll_border[1], roll_border[0]:-roll_border[1]].flatten()
+        x = subimage[inner].flatten()
         xbar = np.mean(x)
 
         # Loop over all pixel offsets
@@ -1063,7 +1066,7 @@ class CovarianceMatrix(np.ndarray):
             for j in range(-middle[1], middle[1] + 1, 1):
 
                 # Shift the pixels in a second copy of the image
-                y = np.roll(subimage, (-j, -i), axis=(0, 1))[roll_border[0]:-roll_border[1], roll_border[0]:-roll_border[1]].flatten()
+                y = np.roll(subimage, (-j, -i), axis=(0, 1))[inner].flatten()
                 ybar = np.mean(y)
                 
                 # Calcluate covariance between shifted pixels
-- 
2.43.0


From acfc3cf96bd66e3361cd9589561c0054e1d0c5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:48 +0000
Subject: [PATCH 31/44] fix: include all of the ring of neighbours in its
 covariance

---
 python/arcticpy/read_noise.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/arcticpy/read_noise.py b/python/arcticpy/read_noise.py
index 93e5b6c..2a4b42e 100644
--- a/python/arcticpy/read_noise.py
+++ b/python/arcticpy/read_noise.py
@@ -1113,15 +1113,15 @@ class CovarianceMatrix(np.ndarray):
     def ring(self): # The sum of all covariance up to n pixels from autocorrelation
         n=1
         middle = self.middle
-        subarray = self[max(middle[0]-n,0):min(middle[0]+n,self.shape[0]),
-                        max(middle[1]-n,0):min(middle[1]+n,self.shape[1])]
+        subarray = self[max(middle[0]-n,0):min(middle[0]+n+1,self.shape[0]),
+                        max(middle[1]-n,0):min(middle[1]+n+1,self.shape[1])]
         return subarray.sum() - self.autocorrelation
     
     @property
     def ringabs(self): # The sum of all |covariance| up to n pixels from autocorrelation
         n=1
         middle = self.middle
-        subarray = self[max(middle[0]-n,0):min(middle[0]+n,self.shape[0]),
-                        max(middle[1]-n,0):min(middle[1]+n,self.shape[1])]
-        return npabs(subarray).sum() - self.autocorrelation
+        subarray = self[max(middle[0]-n,0):min(middle[0]+n+1,self.shape[0]),
+                        max(middle[1]-n,0):min(middle[1]+n+1,self.shape[1])]
+        return np.abs(subarray).sum() - self.autocorrelation
 
-- 
2.43.0


From a5f2ac0a11ae9f6f3861617ef42b157196dbcfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:26 +0000
Subject: [PATCH 32/44] fix: print no greetings while modelling the read noise

---
 src/read_noise.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/read_noise.cpp b/src/read_noise.cpp
index 9e0b9fa..24b8f7a 100644
--- a/src/read_noise.cpp
+++ b/src/read_noise.cpp
@@ -16,8 +16,6 @@ void determine_read_noise_model(const double* imageIn, const double* imageOut, c
   double readNoiseAmp2 = SQUARE(readNoiseAmp);
 
     int idx;
-    print_v(1, "hello");
-    cout << "Hello World!";
     
     for (int i = 0; i < rows * cols; i++) {
         dval0[i] = imageIn[i] - imageOut[i];
-- 
2.43.0


From fe8571c811ace924b7667e0ae7f16c30f2bb37f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:26 +0000
Subject: [PATCH 33/44] fix: model the read noise of the image itself when it
 is not contiguous in memory

---
 python/arcticpy/wrapper.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/arcticpy/wrapper.pyx b/python/arcticpy/wrapper.pyx
index 2e131c8..4bee559 100644
--- a/python/arcticpy/wrapper.pyx
+++ b/python/arcticpy/wrapper.pyx
@@ -8,6 +8,8 @@ cdef extern from "read_noise.hpp":
     void determine_read_noise_model(const double* imageIn, const double* imageOut, const int rows, const int cols, const double readNoiseAmp, const double readNoiseAmpFraction, const int smoothCol, double* output);
 
 def cy_determine_read_noise_model(np.ndarray[np.float64_t, ndim=2] arr1, np.ndarray[np.float64_t, ndim=2] arr2, readNoiseAmp, readNoiseAmpFraction, smoothCol):
+    arr1 = check_contiguous(arr1)
+    arr2 = check_contiguous(arr2)
     cdef int rows = arr1.shape[0]
     cdef int cols = arr1.shape[1]
     cdef np.ndarray[np.float64_t, ndim=2] out = np.zeros((rows, cols), dtype=np.float64)
-- 
2.43.0


From 023419fadb34d2196a5a32ffd50ba6fdd94f2f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:26 +0000
Subject: [PATCH 34/44] fix: average the neighbours of a single row or column
 of read noise within the image

---
 src/read_noise.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/read_noise.cpp b/src/read_noise.cpp
index 24b8f7a..c5bf636 100644
--- a/src/read_noise.cpp
+++ b/src/read_noise.cpp
@@ -23,6 +23,15 @@ void determine_read_noise_model(const double* imageIn, const double* imageOut, c
     }    
     
     // get the dval9 average
+    if (rows < 2 || cols < 2) {
+      // a single row or column, with neighbours on either side only
+      for (int i = 0; i < rows * cols; i++) {
+        int n = 1;
+        if (i > 0) { dval9[i] += dval0[i - 1]; n++; }
+        if (i < rows * cols - 1) { dval9[i] += dval0[i + 1]; n++; }
+        dval9[i] /= n;
+      }
+    } else {
     // inner part
     for (int i = 1; i < rows - 1; i++) {
 #pragma omp parallel for private(idx)
@@ -102,6 +111,7 @@ void determine_read_noise_model(const double* imageIn, const double* imageOut, c
     dval9[idx] += dval0[idx - cols];  // comparison with top-central neighbour
     dval9[idx] += dval0[idx - cols - 1];  // comparison with top-right neighbour
     dval9[idx] /= 4.0;
+    }
 
 #pragma omp parallel for shared(output, dval0, dval9)
     for (int i = 0; i < cols * rows; i++) {
-- 
2.43.0


From 0a94015ea2d095ce0ed00d13b089aeb998e0ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 35/44] fix: capture with empty, not partly filled,
 slow-capture continuum traps of long timescales

---
 src/traps.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/traps.cpp b/src/traps.cpp
index ad2ada0..3bf4596 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -941,7 +941,7 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
         The array of fill fractions.
 
     fill_capture_long_time : double
-        The should-be-converged fill fraction from a very long elapsed time.
+        The fill fraction from an infinitely long elapsed time (empty traps).
 */
 void TrapSlowCaptureContinuum::prep_fill_fraction_after_slow_capture_tables(
     double dwell_time, double time_min, double time_max, int n_intp) {
@@ -958,8 +958,8 @@ void TrapSlowCaptureContinuum::prep_fill_fraction_after_slow_capture_tables(
         fill_fraction_after_slow_capture(time_max, dwell_time, workspace);
     fill_capture_max =
         fill_fraction_after_slow_capture(time_min, dwell_time, workspace);
-    fill_capture_long_time =
-        fill_fraction_after_slow_capture(time_max * 100, dwell_time, workspace);
+    fill_capture_long_time = fill_fraction_after_slow_capture(
+        std::numeric_limits<double>::max(), dwell_time, workspace);
     d_log_time = (log(time_max) - log(time_min)) / (n_intp - 1);
     double time_i;
 
-- 
2.43.0


From 31ba60cb75009d7d2830c5ef07adb30a76926260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:30 +0000
Subject: [PATCH 36/44] fix: keep watermarks that pruning cannot push into an
 emptier one below

---
 src/trap_managers.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 3d579a6..ffa10a6 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -362,6 +362,11 @@ void TrapManagerBase::prune_watermarks(double min_n_electrons) {
             double delta_volume_below = watermark_volumes[i_wmk_prime - 1] *
                 n_trapped_electrons_in_this_wmk / n_trapped_electrons_in_last_wmk;
 
+            // Keep this watermark if its electrons would not fit within its own 
+            // volume at the fill fractions of the previous one, i.e. if that is 
+            // emptier (which can happen for slow capture)
+            if (!(delta_volume_below <= watermark_volumes[i_wmk_prime])) continue;
+
 /*            // Temp report
             std::valarray<double> fill_fractions_in_down_wmk =
                 watermark_fills[std::slice((i_wmk_prime-1) * n_traps, n_traps, 1)];
-- 
2.43.0


From 8a712cc4be0645ba272ec83e57f7a6890cb0abe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:12 +0000
Subject: [PATCH 37/44] fix: initialise booleans that are copied before they
 are set

---
 include/roe.hpp           | 2 +-
 include/trap_managers.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/roe.hpp b/include/roe.hpp
index 3afc424..73067e9 100644
--- a/include/roe.hpp
+++ b/include/roe.hpp
@@ -15,7 +15,7 @@ static std::valarray<double> dwell_times_trap_pumping_default = {0.5, 0.5};
 
 class ROEStepPhase {
    public:
-    ROEStepPhase(){};
+    ROEStepPhase() : is_high(false), n_capture_pixels(0), n_release_pixels(0){};
     ROEStepPhase(
         bool is_high, std::valarray<int> capture_from_which_pixels,
         std::valarray<int> release_to_which_pixels,
diff --git a/include/trap_managers.hpp b/include/trap_managers.hpp
index e45c56c..d897705 100644
--- a/include/trap_managers.hpp
+++ b/include/trap_managers.hpp
@@ -65,7 +65,7 @@ class TrapManagerInstantCapture : public TrapManagerBase {
     void set_fill_probabilities();
     void setup();
 
-    bool any_non_uniform_traps;
+    bool any_non_uniform_traps = false;
 
     double n_electrons_released();
     void update_watermarks_capture(
-- 
2.43.0


From f2e1ac02764edbabf144ab6cab6e3bbdc3db84dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:02 +0000
Subject: [PATCH 38/44] Restore vv_test.py: its name counts as that of a test
 file

This takes back 7abd21a and a8188c8.
---
 python/arcticpy/vv_test.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/python/arcticpy/vv_test.py b/python/arcticpy/vv_test.py
index 09b7110..9fafcee 100644
--- a/python/arcticpy/vv_test.py
+++ b/python/arcticpy/vv_test.py
@@ -236,7 +236,7 @@ class VVTestBench:
         if valid_columns is None:
             self.print("Finding columns containing (only) background")
             # Extract representative chunk of image to calculate background,
-            y_min = max(
+            y_min = np.min(
                 y_roe.overscan_start - self.nrows_for_background, y_roe.prescan_length
             )
             background_image = image[ y_min:y_roe.overscan_start, x_min:x_max ]
@@ -310,7 +310,7 @@ class VVTestBench:
                 parallel_ccd=y_ccd,
                 parallel_traps=y_traps,
                 parallel_express=0,
-                parallel_window_start=max(y_roe.overscan_start-nrows_buffer,0)
+                parallel_window_start=np.min(y_roe.overscan_start-nrows_buffer,0)
             )
             model_overscan = (model_post_cti[y_roe.overscan_start:]).flatten()
                
@@ -461,13 +461,9 @@ def vv_test(
             serial_ccd=serial_ccd, 
             serial_traps=serial_traps, 
             sum_of_exponentials=sum_of_exponentials,
-            verbose=verbose,
-            nrows_for_background=nrows_for_background,
-            ncols_min_required=ncols_min_required,
-            sigma_clipping_threshold=sigma_clipping_threshold,
-            sigma_clipping_niter=sigma_clipping_niter
+            verbose=verbose
         )
-    result=vv_testbench.test(image,
+    result=vv.test(image,
         parallel_valid_columns  = parallel_valid_columns,
         parallel_pixels_pre_cti = parallel_pixels_pre_cti,
         parallel_model_bias     = parallel_model_bias,
-- 
2.43.0


From bfeddb5128527913530d92bd64c6e6a769858ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:17 +0000
Subject: [PATCH 39/44] fix: prune watermarks filled like the one below
 whatever the rounding

---
 src/trap_managers.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index ffa10a6..e56699c 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -364,8 +364,10 @@ void TrapManagerBase::prune_watermarks(double min_n_electrons) {
 
             // Keep this watermark if its electrons would not fit within its own 
             // volume at the fill fractions of the previous one, i.e. if that is 
-            // emptier (which can happen for slow capture)
-            if (!(delta_volume_below <= watermark_volumes[i_wmk_prime])) continue;
+            // emptier (which can happen for slow capture), by more than rounding
+            if (!(delta_volume_below <= watermark_volumes[i_wmk_prime] * (1 + 1e-10))) continue;
+            if (delta_volume_below > watermark_volumes[i_wmk_prime])
+                delta_volume_below = watermark_volumes[i_wmk_prime];
 
 /*            // Temp report
             std::valarray<double> fill_fractions_in_down_wmk =
-- 
2.43.0


From e87a9d35936401bfb2bad7c56c63ea4b60d94e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:33 +0000
Subject: [PATCH 40/44] fix: do not wrap around the differences of unsigned
 integer pixels in pixel bounce

---
 python/arcticpy/pixel_bounce.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/arcticpy/pixel_bounce.py b/python/arcticpy/pixel_bounce.py
index 80bac09..2ba0cb2 100644
--- a/python/arcticpy/pixel_bounce.py
+++ b/python/arcticpy/pixel_bounce.py
@@ -93,6 +93,9 @@ class PixelBounce:
         bias : [[float]]
             The output bias image array of pixel values.
         """
+        # Differences between pixels would wrap around in unsigned integers
+        image = np.copy(image).astype(np.double)
+
         # Initialise bias offset voltage, which should settle during prescan
         # of each row
         bias = np.zeros(image.shape)
-- 
2.43.0


From c30fb3c3e531abe8bc611ea72184a625893ef488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:22 +0000
Subject: [PATCH 41/44] fix: end with an error when the benchmark's image
 cannot be downloaded

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 64e0cc5..5a6e35a 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -117,7 +117,7 @@ int run_benchmark() {
             "wget http://www.astro.dur.ac.uk/~rjm/ArCTIc/benchmark_2k2k_image.txt";
         printf("%s\n", command);
         int status = system(command);
-        if (status != 0) exit(status);
+        if (status != 0) exit(EXIT_FAILURE);
     } else
         fclose(f);
 
-- 
2.43.0


From bf8ad4414846da3409b14b0806a86b9a4a27eb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 42/44] fix: name the option that is not recognised within a
 group of short options

---
 src/main.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 5a6e35a..ed9c6a8 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -1,6 +1,7 @@
 
 #include <getopt.h>
 #include <stdio.h>
+#include <string.h>
 
 #include <valarray>
 
@@ -215,9 +216,15 @@ void parse_parameters(int argc, char** argv) {
                     argv[optind - 1]);
                 exit(1);
             case '?':
-                printf(
-                    "Error: Option %s not recognised. Run with -h for help. \n",
-                    argv[optind - 1]);
+                // A short option may not be the last of its group
+                if (optopt != 0 && strchr(short_opts, optopt) == nullptr)
+                    printf(
+                        "Error: Option -%c not recognised. Run with -h for help. \n",
+                        optopt);
+                else
+                    printf(
+                        "Error: Option %s not recognised. Run with -h for help. \n",
+                        argv[optind - 1]);
                 exit(1);
         }
     }
-- 
2.43.0


From df205bf92237d523c6b448a7c7dd3acb48009045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 43/44] fix: never hold less than no electrons in traps that
 meet a negative pixel above a first-electron fill

---
 src/trap_managers.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index e56699c..83768bd 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1402,7 +1402,7 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
     // Check enough available electrons to capture, if more captured than released
     double enough;
     if (n_released_and_captured < 0.0)
-        enough = n_free_electrons / -n_released_and_captured;
+        enough = fabs(n_free_electrons / n_released_and_captured);
     else
         enough = 1.0;
 
@@ -1855,7 +1855,7 @@ double TrapManagerInstantCaptureContinuum::n_electrons_captured(
     // Update the watermarks
     // ========
     // Check enough available electrons to capture
-    double enough = (n_captured != 0.0) ? n_free_electrons / n_captured : 1.0;
+    double enough = (n_captured != 0.0) ? fabs(n_free_electrons / n_captured) : 1.0;
 
     // Normal full capture
     if (enough >= 1.0) {
@@ -2189,7 +2189,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
     // Check enough available electrons to capture, if more captured than released
     double enough;
     if (n_released_and_captured < 0.0)
-        enough = n_free_electrons / -n_released_and_captured;
+        enough = fabs(n_free_electrons / n_released_and_captured);
     else
         enough = 1.0;
 
-- 
2.43.0


From a9fe98249328ae48d31dce72741421952aac2898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 44/44] fix: capture no electrons from a pixel that has less
 than none, above a first-electron fill

---
 src/trap_managers.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 83768bd..1d3c2d6 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1013,7 +1013,7 @@ double TrapManagerInstantCapture::n_electrons_captured(double n_free_electrons)
     // Would be really nice to do this including the express multiplier.
     // That would also prevent image pixels from changing sign when zeroth_watermark<0.
     //
-    double enough = (n_captured != 0.0) ? abs(n_free_electrons / n_captured) : 1.0;
+    double enough = (n_captured != 0.0) ? fabs(fmax(n_free_electrons, 0.0) / n_captured) : 1.0;
     //print_v(0,"enough %g %g %g\n", enough, n_free_electrons, n_captured);
 
     // Normal full capture
@@ -1402,7 +1402,7 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
     // Check enough available electrons to capture, if more captured than released
     double enough;
     if (n_released_and_captured < 0.0)
-        enough = fabs(n_free_electrons / n_released_and_captured);
+        enough = fabs(fmax(n_free_electrons, 0.0) / n_released_and_captured);
     else
         enough = 1.0;
 
@@ -1855,7 +1855,7 @@ double TrapManagerInstantCaptureContinuum::n_electrons_captured(
     // Update the watermarks
     // ========
     // Check enough available electrons to capture
-    double enough = (n_captured != 0.0) ? fabs(n_free_electrons / n_captured) : 1.0;
+    double enough = (n_captured != 0.0) ? fabs(fmax(n_free_electrons, 0.0) / n_captured) : 1.0;
 
     // Normal full capture
     if (enough >= 1.0) {
@@ -2189,7 +2189,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
     // Check enough available electrons to capture, if more captured than released
     double enough;
     if (n_released_and_captured < 0.0)
-        enough = fabs(n_free_electrons / n_released_and_captured);
+        enough = fabs(fmax(n_free_electrons, 0.0) / n_released_and_captured);
     else
         enough = 1.0;
 
-- 
2.43.0

