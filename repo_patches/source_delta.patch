From d7019f98d2ed09d006a36d8d29d1ca5de94ab3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 001/100] fix: rebin radar files that give prf instead of
 nyquist_velocity

Radar.rebin_to_grid added a key to the dictionary it was iterating over.
---
 cloudnetpy/categorize/radar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/radar.py b/cloudnetpy/categorize/radar.py
index 3afddb2..dbd1a7e 100644
--- a/cloudnetpy/categorize/radar.py
+++ b/cloudnetpy/categorize/radar.py
@@ -54,7 +54,7 @@ class Radar(DataSource):
 
         """
         bad_time_indices = []
-        for key, array in self.data.items():
+        for key, array in list(self.data.items()):
             match key:
                 case "ldr" | "sldr" | "Z":
                     array.db2lin()
-- 
2.43.0


From 0df2ddd0dea76fe6e3f14840e0e90b7ba3e8e875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 002/100] fix: do not fabricate zeros in bins without data in
 rebin_1d

If all valid values were zero, or if there were none, every bin became a
valid zero, e.g. rainfall rate 0 where nothing was measured.
---
 cloudnetpy/utils.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index c1a5dc6..19e90b0 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -184,16 +184,16 @@ def rebin_1d(
 
     """
     edges = binvec(x_new)
-    result = ma.zeros(len(x_new))
     array_screened = ma.masked_invalid(array, copy=True)  # data may contain nan-values
-    mask = ~array_screened.mask
-    if ma.any(array_screened[mask]):
-        result, _, _ = stats.binned_statistic(
-            x_in[mask],
-            array_screened[mask],
-            statistic=statistic,
-            bins=edges,
-        )
+    mask = ~ma.getmaskarray(array_screened)
+    if not mask.any():
+        return ma.masked_all(len(x_new))
+    result, _, _ = stats.binned_statistic(
+        x_in[mask],
+        array_screened[mask],
+        statistic=statistic,
+        bins=edges,
+    )
     return ma.masked_invalid(result, copy=True)
 
 
-- 
2.43.0


From 9f6608e47e0e1ec46a9cb142102b65657b492a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 003/100] fix: categorize scenes where the whole column is
 warmer than 0 C

find_t0_alt and _find_ind_above_top raised IndexError if no gate of a
profile was below freezing.
---
 cloudnetpy/categorize/droplet.py  | 6 ++++--
 cloudnetpy/categorize/freezing.py | 7 ++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/categorize/droplet.py b/cloudnetpy/categorize/droplet.py
index d310967..30565e0 100644
--- a/cloudnetpy/categorize/droplet.py
+++ b/cloudnetpy/categorize/droplet.py
@@ -45,8 +45,10 @@ def correct_liquid_top(
 
 
 def _find_ind_above_top(is_freezing_from_peak: npt.NDArray, top_above: int) -> int:
-    first_point_below_zero = np.where(is_freezing_from_peak)[0][0]
-    ind = first_point_below_zero + top_above
+    freezing_ind = np.where(is_freezing_from_peak)[0]
+    if len(freezing_ind) == 0:
+        return len(is_freezing_from_peak) - 1
+    ind = freezing_ind[0] + top_above
     return min(len(is_freezing_from_peak) - 1, ind)
 
 
diff --git a/cloudnetpy/categorize/freezing.py b/cloudnetpy/categorize/freezing.py
index ed87d86..05ae492 100644
--- a/cloudnetpy/categorize/freezing.py
+++ b/cloudnetpy/categorize/freezing.py
@@ -94,7 +94,12 @@ def find_t0_alt(temperature: npt.NDArray, height: npt.NDArray) -> npt.NDArray:
     """
     alt: npt.NDArray = np.array([])
     for prof in temperature:
-        ind = np.where(prof < T0)[0][0]
+        freezing_ind = np.where(prof < T0)[0]
+        if len(freezing_ind) == 0:
+            # Freezing level is somewhere above the highest gate
+            alt = np.append(alt, 2 * height[-1] - height[-2])
+            continue
+        ind = freezing_ind[0]
         if ind == 0:
             alt = np.append(alt, height[0])
         else:
-- 
2.43.0


From 2b8210bc6b93673ac2f936f8c7ea0941a5a99fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:46 +0000
Subject: [PATCH 004/100] fix: allow melting layer search to reach the highest
 radar gate

find_melting_layer raised IndexError if the temperature range of the search
included the top gate of the radar.
---
 cloudnetpy/categorize/melting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/melting.py b/cloudnetpy/categorize/melting.py
index 098723d..5e1c2ad 100644
--- a/cloudnetpy/categorize/melting.py
+++ b/cloudnetpy/categorize/melting.py
@@ -58,7 +58,8 @@ def find_melting_layer(obs: ClassData, *, smooth: bool = True) -> npt.NDArray:
     if hasattr(obs, "ldr"):
         # Required for peak detection
         diffu = ma.array(np.diff(obs.ldr, axis=1))
-        ldr_diff = diffu.filled(0)
+        # Keep the number of gates (no gradient above the highest gate)
+        ldr_diff = np.pad(diffu.filled(0), ((0, 0), (0, 1)))
 
     t_range = _find_model_temperature_range(obs.model_type)
 
-- 
2.43.0


From 4e0e6e8c49891289869bac815a14a9999edf5008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 005/100] fix: report no valid timestamps if the lidar has no
 valid profiles

Lidar.interpolate_to_grid raised IndexError for fully masked backscatter.
---
 cloudnetpy/categorize/lidar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudnetpy/categorize/lidar.py b/cloudnetpy/categorize/lidar.py
index 4ad9066..3f575d9 100644
--- a/cloudnetpy/categorize/lidar.py
+++ b/cloudnetpy/categorize/lidar.py
@@ -38,6 +38,10 @@ class Lidar(DataSource):
         # Interpolate beta to new grid but ignore profiles that are completely masked
         beta = self.data["beta"][:]
         indices = [ind for ind, b in enumerate(beta) if ma.all(b) is not ma.masked]
+        if not indices:
+            shape = (len(time_new), len(height_new))
+            self.data["beta"].data = ma.masked_all(shape)
+            return list(range(len(time_new)))
         beta_interp = interpolate_2d_nearest(
             self.time[indices],
             self.height,
-- 
2.43.0


From 5138f626b692bf5ddc1a3d8673d7412112ab4e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:59 +0000
Subject: [PATCH 006/100] fix: flag rain attenuation as uncorrected where
 rainfall rate is missing

Rainy profiles inside a disdrometer gap were flagged as corrected (and given
a reflectivity error) although no correction was applied.
---
 cloudnetpy/categorize/attenuations/rain_attenuation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/attenuations/rain_attenuation.py b/cloudnetpy/categorize/attenuations/rain_attenuation.py
index 9ae6ced..03b9894 100644
--- a/cloudnetpy/categorize/attenuations/rain_attenuation.py
+++ b/cloudnetpy/categorize/attenuations/rain_attenuation.py
@@ -44,11 +44,13 @@ def calc_rain_attenuation(
     two_way_attenuation = ma.array(utils.ffill(two_way_attenuation.data))
     two_way_attenuation[two_way_attenuation == 0] = ma.masked
 
+    no_rainfall_rate = utils.transpose(ma.getmaskarray(rainfall_rate))
+
     return Attenuation(
         amount=two_way_attenuation,
         error=two_way_attenuation * 0.2,
         attenuated=affected_region,
-        uncorrected=np.zeros_like(affected_region, dtype=bool),
+        uncorrected=affected_region & no_rainfall_rate,
     )
 
 
-- 
2.43.0


From b60d8d971f378d143d76a867dbf06f140166805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:21 +0000
Subject: [PATCH 007/100] fix: detect rain also where disdrometer weather code
 is missing

Profiles without a synop_WaWa value got a missing rain_detected value and were
flagged as attenuated by rain and corrected regardless of the radar echo. Use
the temperature criterion for these profiles.
---
 cloudnetpy/categorize/containers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cloudnetpy/categorize/containers.py b/cloudnetpy/categorize/containers.py
index 1631036..c1a131f 100644
--- a/cloudnetpy/categorize/containers.py
+++ b/cloudnetpy/categorize/containers.py
@@ -93,16 +93,16 @@ class ClassData:
         ind = ~rain_from_disdrometer.mask
         is_rain[ind] = rain_from_disdrometer[ind]
         # Filter out snowfall:
+        mask = ma.getmaskarray(self.tw)
+        first_valid_ind = np.nonzero(np.all(~mask, axis=0))[0][0]
+        liquid_rain_only = ma.getdata(self.tw[:, first_valid_ind] > T0 + 5)
         if (
             self.data.disdrometer is not None
             and "synop_WaWa" in self.data.disdrometer.data
         ):
             wawa = self.data.disdrometer.data["synop_WaWa"].data
-            liquid_rain_only = (wawa >= 57) & (wawa <= 68)
-        else:
-            mask = ma.getmaskarray(self.tw)
-            first_valid_ind = np.nonzero(np.all(~mask, axis=0))[0][0]
-            liquid_rain_only = self.tw[:, first_valid_ind] > T0 + 5
+            ind = ~ma.getmaskarray(wawa)
+            liquid_rain_only[ind] = (wawa[ind] >= 57) & (wawa[ind] <= 68)
         return is_rain & liquid_rain_only
 
     def _find_rain_from_radar_echo(self) -> npt.NDArray:
-- 
2.43.0


From 3c5f1ef479491406760ab5d4b8d6a0d1fdefbc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 008/100] fix: do not flag clutter in rainy profiles

The rain flag is an integer array, so its bitwise inversion was always true.
---
 cloudnetpy/categorize/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/containers.py b/cloudnetpy/categorize/containers.py
index c1a131f..f8b737f 100644
--- a/cloudnetpy/categorize/containers.py
+++ b/cloudnetpy/categorize/containers.py
@@ -164,5 +164,5 @@ def _find_clutter(
     is_clutter = np.zeros(v.shape, dtype=bool)
     filled = False
     tiny_velocity = ma.less(ma.abs(v[:, :n_gates]), v_lim).filled(filled)
-    is_clutter[:, :n_gates] = tiny_velocity * utils.transpose(~is_rain)
+    is_clutter[:, :n_gates] = tiny_velocity * utils.transpose(is_rain == 0)
     return is_clutter
-- 
2.43.0


From d3661e4881d69990ddac2cc435f82b563eff2445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 009/100] fix: clear insect and aerosol bits of clutter
 reclassified as falling

Pixels turned from clutter into falling hydrometeors kept their insect and
aerosol bits, although these exclude falling hydrometeors.
---
 cloudnetpy/categorize/classify.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/categorize/classify.py b/cloudnetpy/categorize/classify.py
index eeb39cf..156675a 100644
--- a/cloudnetpy/categorize/classify.py
+++ b/cloudnetpy/categorize/classify.py
@@ -310,6 +310,8 @@ def _remove_clutter_in_liquid(
     false_clutter = is_clutter & near_liquid
     is_clutter[false_clutter] = False
     bits.falling[false_clutter] = True
+    bits.insect[false_clutter] = False
+    bits.aerosol[false_clutter] = False
     return is_clutter
 
 
-- 
2.43.0


From d4fe5d1ccf8b717a70a6259aa7e46178d3946634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 010/100] fix: do not set insect or aerosol bits in liquid
 droplet pixels

Speckle filtering of falling hydrometeors marked droplet pixels as insects and
aerosols.
---
 cloudnetpy/categorize/classify.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cloudnetpy/categorize/classify.py b/cloudnetpy/categorize/classify.py
index 156675a..d834f3d 100644
--- a/cloudnetpy/categorize/classify.py
+++ b/cloudnetpy/categorize/classify.py
@@ -329,6 +329,7 @@ def _filter_falling(bits: CategoryBits, obs: ClassData) -> None:
         dtype=bool,
     )
     is_falling[filtered_out] = False
+    filtered_out &= ~bits.droplet
     # In warm conditions, these are likely insects
     bits.insect[filtered_out & ~is_freezing] = True
     bits.aerosol[filtered_out & ~is_freezing & is_beta] = True
-- 
2.43.0


From f58fb0eb450ce3a9ece2395694774c763d500258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 011/100] fix: keep insect filtering within the neighbourhood
 of the melting layer

Indices below zero wrapped around to the end of the day (or top of the
profile), the end of the day was skipped, and pixels without any signal were
marked as falling hydrometeors.
---
 cloudnetpy/categorize/classify.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/cloudnetpy/categorize/classify.py b/cloudnetpy/categorize/classify.py
index d834f3d..1cc90d1 100644
--- a/cloudnetpy/categorize/classify.py
+++ b/cloudnetpy/categorize/classify.py
@@ -270,24 +270,23 @@ def _filter_insects(bits: CategoryBits) -> None:
     # remove around melting layer:
     original_insects = np.copy(is_insects)
     n_gates = 5
+    n_profiles = is_insects.shape[0]
     for x, y in zip(*np.where(is_melting_layer), strict=True):
-        try:
-            # change insects to drizzle below melting layer pixel
-            ind1 = np.arange(y - n_gates, y)
-            ind11 = np.where(original_insects[x, ind1])[0]
-            n_drizzle = sum(is_falling[x, :y])
-            if n_drizzle > 5:
-                is_falling[x, ind1[ind11]] = True
-                is_insects[x, ind1[ind11]] = False
-            else:
-                continue
-            # change insects on the right and left of melting layer pixel to drizzle
-            ind1 = np.arange(x - n_gates, x + n_gates + 1)
-            ind11 = np.where(original_insects[ind1, y])[0]
-            is_falling[ind1[ind11], y - 1 : y + 2] = True
-            is_insects[ind1[ind11], y - 1 : y + 2] = False
-        except IndexError:
+        # change insects to drizzle below melting layer pixel
+        ind1 = np.arange(max(y - n_gates, 0), y)
+        ind11 = np.where(original_insects[x, ind1])[0]
+        n_drizzle = sum(is_falling[x, :y])
+        if n_drizzle > 5:
+            is_falling[x, ind1[ind11]] = True
+            is_insects[x, ind1[ind11]] = False
+        else:
             continue
+        # change insects on the right and left of melting layer pixel to drizzle
+        ind1 = np.arange(max(x - n_gates, 0), min(x + n_gates + 1, n_profiles))
+        ind11 = np.where(original_insects[ind1, y])[0]
+        gates = slice(max(y - 1, 0), y + 2)
+        is_falling[ind1[ind11], gates] |= is_insects[ind1[ind11], gates]
+        is_insects[ind1[ind11], gates] = False
     bits.falling = is_falling
     bits.insect = is_insects
 
-- 
2.43.0


From e5ab69b1936b136189fd0e180b8888cd4ea5d738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 012/100] fix: find cloud base and top also at height of 0 m

---
 cloudnetpy/categorize/atmos_utils.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cloudnetpy/categorize/atmos_utils.py b/cloudnetpy/categorize/atmos_utils.py
index f8f41a0..ff6a243 100644
--- a/cloudnetpy/categorize/atmos_utils.py
+++ b/cloudnetpy/categorize/atmos_utils.py
@@ -41,8 +41,7 @@ def find_lowest_cloud_bases(
     height: npt.NDArray,
 ) -> ma.MaskedArray:
     """Finds altitudes of cloud bases."""
-    cloud_heights = cloud_mask * height
-    return _find_lowest_heights(cloud_heights)
+    return _find_lowest_heights(cloud_mask, height)
 
 
 def find_highest_cloud_tops(
@@ -50,15 +49,16 @@ def find_highest_cloud_tops(
     height: npt.NDArray,
 ) -> ma.MaskedArray:
     """Finds altitudes of cloud tops."""
-    cloud_heights = cloud_mask * height
-    cloud_heights_flipped = np.fliplr(cloud_heights)
-    return _find_lowest_heights(cloud_heights_flipped)
+    return _find_lowest_heights(np.fliplr(cloud_mask), height[::-1])
 
 
-def _find_lowest_heights(cloud_heights: npt.NDArray) -> ma.MaskedArray:
-    inds = (cloud_heights != 0).argmax(axis=1)
-    heights = np.array([cloud_heights[i, ind] for i, ind in enumerate(inds)])
-    return ma.masked_equal(heights, 0.0)
+def _find_lowest_heights(
+    cloud_mask: npt.NDArray, height: npt.NDArray
+) -> ma.MaskedArray:
+    is_cloud = cloud_mask != 0
+    is_valid = is_cloud.any(axis=1)
+    heights = ma.getdata(height)[is_cloud.argmax(axis=1)]
+    return ma.array(np.where(is_valid, heights, 0), mask=~is_valid)
 
 
 def fill_clouds_with_lwc_dz(
-- 
2.43.0


From e81f2b9f712175f1511abcfb3ce6e873635f14e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 013/100] fix: do not set cloud top height status from garbage
 in profiles without clouds

---
 cloudnetpy/products/classification.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cloudnetpy/products/classification.py b/cloudnetpy/products/classification.py
index 0b31cae..269e528 100644
--- a/cloudnetpy/products/classification.py
+++ b/cloudnetpy/products/classification.py
@@ -155,6 +155,7 @@ def _get_cloud_top_height_status(
     status[att_at_top == AttStatus.SEVERE] = TopStatus.SEVERE_ATT
     status[att_at_top == AttStatus.UNCORRECTED] = TopStatus.UNCORR_ATT
     status[tops >= height[-1]] = TopStatus.ABOVE_RANGE
+    status[ma.getmaskarray(tops)] = TopStatus.RELIABLE
     return status
 
 
-- 
2.43.0


From a97c3479b8d6561e456370d2ae764f2fce9966d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 014/100] fix: classification of categorize files without radar
 attenuation variables

---
 cloudnetpy/products/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/classification.py b/cloudnetpy/products/classification.py
index 269e528..a08c337 100644
--- a/cloudnetpy/products/classification.py
+++ b/cloudnetpy/products/classification.py
@@ -181,7 +181,7 @@ def _get_radar_attenuation_status(
 def _get_attenuation_classes(data_source: DataSource) -> AttenuationClass:
     def _read_atten(key: str) -> npt.NDArray:
         if key not in data_source.dataset.variables:
-            return np.zeros(data_source.time.shape)
+            return np.zeros(data_source.getvar("quality_bits").shape)
         data = data_source.getvar(key)
         if isinstance(data, ma.MaskedArray):
             return data.filled(0)
-- 
2.43.0


From 66b6e14c7ff35c550ab0e892b3cc5da1d8eadd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 015/100] fix: integrate sqrt(Z) over layer thickness in scaled
 droplet effective radius

---
 cloudnetpy/products/der.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/der.py b/cloudnetpy/products/der.py
index 68e479c..527c3eb 100644
--- a/cloudnetpy/products/der.py
+++ b/cloudnetpy/products/der.py
@@ -167,7 +167,7 @@ class DerSource(DataSource):
             if Z[ind_t, idx_layer].mask.all():
                 continue
 
-            integral = ma.sum(ma.sqrt(Z[ind_t, idx_layer])) * path_lengths[idx_layer]
+            integral = ma.sum(ma.sqrt(Z[ind_t, idx_layer]) * path_lengths[idx_layer])
 
             # der formula (5)
             A = (Z[ind_t, idx_layer] / params.N) ** (1 / 6)
-- 
2.43.0


From 341e2601215eff43ade1dffe20c0dcc58c812d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 016/100] fix: adjust lidar-only cloud whose base is at the
 highest gate

---
 cloudnetpy/products/lwc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/products/lwc.py b/cloudnetpy/products/lwc.py
index 80de7fc..543a875 100644
--- a/cloudnetpy/products/lwc.py
+++ b/cloudnetpy/products/lwc.py
@@ -229,13 +229,13 @@ class CloudAdjustor:
     def _adjust_lwc(self, time_ind: int, base_ind: int) -> None:
         lwc_base = self.lwc_adiabatic[time_ind, base_ind]
         distance_from_base = 1
-        while True:
+        while not self._out_of_bound(base_ind + distance_from_base - 1):
             top_ind = base_ind + distance_from_base
             lwc_top = lwc_base * (distance_from_base + 1)
             self.lwc_adiabatic[time_ind, top_ind] = lwc_top
             if not self.status[time_ind, top_ind]:
                 self.status[time_ind, top_ind] = 3
-            if self._has_converged(time_ind) or self._out_of_bound(top_ind):
+            if self._has_converged(time_ind):
                 break
             distance_from_base += 1
 
-- 
2.43.0


From 726753ea734ae459cf0ec523b4e4705b4060a8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:45 +0000
Subject: [PATCH 017/100] fix: do not alter error of drizzle diameter when
 calculating error of fall velocity

---
 cloudnetpy/products/drizzle_error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/drizzle_error.py b/cloudnetpy/products/drizzle_error.py
index e88b118..b0a93cf 100644
--- a/cloudnetpy/products/drizzle_error.py
+++ b/cloudnetpy/products/drizzle_error.py
@@ -112,7 +112,7 @@ def _add_supplementary_errors(
         return _stack_errors(n_error, drizzle_indices)
 
     def _calc_v_error() -> ma.MaskedArray:
-        error = results["Do_error"]
+        error = ma.copy(results["Do_error"])
         error[drizzle_indices["tiny"]] *= error[drizzle_indices["tiny"]]
         return error
 
-- 
2.43.0


From 240fbc1f423688eab8107fd049a802c1153af0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:50 +0000
Subject: [PATCH 018/100] fix: leave scaled droplet effective radius missing
 where liquid water path is zero

---
 cloudnetpy/products/der.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/products/der.py b/cloudnetpy/products/der.py
index 527c3eb..be87ea0 100644
--- a/cloudnetpy/products/der.py
+++ b/cloudnetpy/products/der.py
@@ -208,9 +208,9 @@ class DerSource(DataSource):
         der_scaled_error = (
             ma.masked_less_equal(ma.masked_invalid(der_scaled_error), 0.0) * 1.0e-3
         )
-        if isinstance(lwp, ma.MaskedArray):
-            for var in (der_scaled, der_scaled_error, N_scaled):
-                var[lwp.mask] = ma.masked
+        no_lwp = ~ma.filled(lwp > 0, fill_value=False)
+        for var in (der_scaled, der_scaled_error, N_scaled):
+            var[no_lwp] = ma.masked
 
         self.append_data(N_scaled, "N_scaled")
         self.append_data(der, "der")
-- 
2.43.0


From 84cf0ece26f70359f9b13de1838ab4205b31cd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:50 +0000
Subject: [PATCH 019/100] fix: do not mark pixels without v_sigma as retrieved
 drizzle

---
 cloudnetpy/products/drizzle_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/drizzle_tools.py b/cloudnetpy/products/drizzle_tools.py
index 70ff2e1..3f81580 100644
--- a/cloudnetpy/products/drizzle_tools.py
+++ b/cloudnetpy/products/drizzle_tools.py
@@ -109,7 +109,7 @@ class DrizzleClassification(ProductClassification):
     @staticmethod
     def _find_v_sigma(cat_file: str | PathLike) -> npt.NDArray:
         v_sigma = product_tools.read_nc_field(cat_file, "v_sigma")
-        return np.isfinite(v_sigma)
+        return ma.filled(np.isfinite(v_sigma), fill_value=False)
 
     def _find_warm_liquid(self) -> npt.NDArray:
         return self.category_bits.droplet & ~self.category_bits.freezing
-- 
2.43.0


From 0b5fe1823e9c7c30af1c16563f0e3524c2158212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:58 +0000
Subject: [PATCH 020/100] fix: keep fractions of seconds in
 datetime2decimal_hours

---
 cloudnetpy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index 19e90b0..b301054 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -73,7 +73,8 @@ def datetime2decimal_hours(data: npt.NDArray | list) -> npt.NDArray:
     output = []
     for timestamp in data:
         t = timestamp.time()
-        decimal_hours = t.hour + t.minute / SEC_IN_MINUTE + t.second / SEC_IN_HOUR
+        seconds = t.second + t.microsecond / 1e6
+        decimal_hours = t.hour + t.minute / SEC_IN_MINUTE + seconds / SEC_IN_HOUR
         output.append(decimal_hours)
     return np.array(output)
 
-- 
2.43.0


From af035bcb9e66e6655d348ae15e6764e300af527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 021/100] fix: append records contiguously and in all
 dimensions in update_nc

---
 cloudnetpy/concat_lib.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index a047da6..e2f9818 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -309,20 +309,18 @@ def _update_fields(
     valid_ind: npt.NDArray,
 ) -> None:
     ind0 = len(nc_old.variables["time"])
-    idx = [ind0 + x for x in valid_ind]
+    idx = np.arange(ind0, ind0 + len(valid_ind))
     concat_dimension = nc_old.variables["time"].dimensions[0]
     for field in nc_new.variables:
         if field not in nc_old.variables:
             continue
         dimensions = nc_new.variables[field].dimensions
         if concat_dimension in dimensions:
-            concat_ind = dimensions.index(concat_dimension)
-            if len(dimensions) == 1:
-                nc_old.variables[field][idx] = nc_new.variables[field][valid_ind]
-            elif len(dimensions) == 2 and concat_ind == 0:
-                nc_old.variables[field][idx, :] = nc_new.variables[field][valid_ind, :]
-            elif len(dimensions) == 2 and concat_ind == 1:
-                nc_old.variables[field][:, idx] = nc_new.variables[field][:, valid_ind]
+            axis = dimensions.index(concat_dimension)
+            prefix = (slice(None),) * axis
+            nc_old.variables[field][(*prefix, idx, ...)] = nc_new.variables[field][
+                (*prefix, valid_ind, ...)
+            ]
 
 
 def concatenate_text_files(filenames: list, output_filename: str | PathLike) -> None:
-- 
2.43.0


From bff25ac67d7fc9d1b516450fff329e2ba82e7fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 022/100] fix: truncate all dimensions and keep packed values
 in truncate_netcdf_file

---
 cloudnetpy/concat_lib.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index e2f9818..b3df02d 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -36,6 +36,7 @@ def truncate_netcdf_file(
             value = getattr(nc, attr)
             setattr(nc_new, attr, value)
         for key in nc.variables:
+            nc.variables[key].set_auto_scale(False)
             array = nc.variables[key][:]
             dimensions = nc.variables[key].dimensions
             fill_value = getattr(nc.variables[key], "_FillValue", None)
@@ -46,13 +47,12 @@ def truncate_netcdf_file(
                 zlib=True,
                 fill_value=fill_value,
             )
-            if dimensions and dim_name in dimensions[0]:
-                if array.ndim == 1:
-                    var[:] = array[:n_profiles]
-                if array.ndim == 2:
-                    var[:] = array[:n_profiles, :]
-            else:
-                var[:] = array
+            var.set_auto_scale(False)
+            ind = tuple(
+                slice(n_profiles) if dim == dim_name else slice(None)
+                for dim in dimensions
+            )
+            var[:] = array[ind]
             for attr in nc.variables[key].ncattrs():
                 if attr != "_FillValue":
                     value = getattr(nc.variables[key], attr)
-- 
2.43.0


From 7e20396a7f02384c62b04b3202e643e9caae364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 023/100] fix: leave no partial records of files skipped
 because of HDF error

---
 cloudnetpy/concat_lib.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index b3df02d..1bdcde4 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -234,6 +234,7 @@ class _Concat:
             ind0 = len(self.concatenated_file.variables[self.concat_dimension])
             ind1 = ind0 + len(file.variables[self.concat_dimension])
             n_points = ind1 - ind0
+            arrays = {}
 
             for key in self.concatenated_file.variables:
                 if key not in file.variables or key == self.interp_dim:
@@ -254,6 +255,10 @@ class _Concat:
                     fill_value = self.first_file.variables[key].get_fill_value()
                     array[:, out_of_bounds] = fill_value
 
+                arrays[key] = array
+
+            # Write only after the whole file has been read successfully
+            for key, array in arrays.items():
                 self.concatenated_file.variables[key][ind0:ind1, ...] = array
 
     def _init_output_file(self, output_file: str | PathLike) -> netCDF4.Dataset:
-- 
2.43.0


From 68ebf058590d55d6bf8558ea40cb26b351299403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 024/100] fix: report only files that were really bundled

---
 cloudnetpy/concat_lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index 1bdcde4..688bb70 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -372,7 +372,7 @@ def bundle_netcdf_files(
             if utils.seconds2date(timestamp, epoch).date() == date:
                 valid_files.append(file)
                 break
-    concatenate_files(
+    used_files = concatenate_files(
         valid_files,
         output_file,
         concat_dimension=concat_dimension,
@@ -385,4 +385,4 @@ def bundle_netcdf_files(
             "Max_LWP",
         ],
     )
-    return valid_files
+    return [file for file in valid_files if Path(file) in used_files]
-- 
2.43.0


From d8d32d344111f89bf8b483e75736774985d3b2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:31 +0000
Subject: [PATCH 025/100] fix: unpack packed values when files to be
 concatenated are packed differently

---
 cloudnetpy/concat_lib.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index 688bb70..e922901 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -240,6 +240,13 @@ class _Concat:
                 if key not in file.variables or key == self.interp_dim:
                     continue
 
+                # Packed values can be copied as such only if packed the same way
+                is_repacked = _get_packing(file[key]) != _get_packing(
+                    self.concatenated_file[key]
+                )
+                file[key].set_auto_scale(is_repacked)
+                self.concatenated_file[key].set_auto_scale(is_repacked)
+
                 array, dimensions = self._expand_array(file[key], n_points)
 
                 # Nearest neighbour interpolation in the interp_dim dimension
@@ -252,14 +259,18 @@ class _Concat:
                     idx = np.abs(x[:, None] - x_target[None, :]).argmin(axis=0)
                     array = array[:, idx]
                     out_of_bounds = (x_target < x.min()) | (x_target > x.max())
-                    fill_value = self.first_file.variables[key].get_fill_value()
-                    array[:, out_of_bounds] = fill_value
+                    array = ma.array(array)
+                    array[:, out_of_bounds] = ma.masked
 
                 arrays[key] = array
 
             # Write only after the whole file has been read successfully
             for key, array in arrays.items():
-                self.concatenated_file.variables[key][ind0:ind1, ...] = array
+                var = self.concatenated_file.variables[key]
+                is_raw = ma.isMaskedArray(array) and not var.scale
+                var[ind0:ind1, ...] = (
+                    array.filled(var.get_fill_value()) if is_raw else array
+                )
 
     def _init_output_file(self, output_file: str | PathLike) -> netCDF4.Dataset:
         data_model: Literal["NETCDF4", "NETCDF4_CLASSIC"] = (
@@ -291,6 +302,13 @@ class _Concat:
         self._close()
 
 
+def _get_packing(variable: netCDF4.Variable) -> tuple[float, float]:
+    return (
+        getattr(variable, "scale_factor", 1.0),
+        getattr(variable, "add_offset", 0.0),
+    )
+
+
 def _copy_attributes(
     source: netCDF4.Dataset | netCDF4.Variable,
     target: netCDF4.Dataset | netCDF4.Variable,
-- 
2.43.0


From 3ca4276546b33d834f3fcb124d6560704ae37b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:33 +0000
Subject: [PATCH 026/100] fix: accumulate precipitation over gaps and repeated
 resets of the counter

---
 cloudnetpy/instruments/cloudnet_instrument.py | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/cloudnetpy/instruments/cloudnet_instrument.py b/cloudnetpy/instruments/cloudnet_instrument.py
index 40cabc2..c016272 100644
--- a/cloudnetpy/instruments/cloudnet_instrument.py
+++ b/cloudnetpy/instruments/cloudnet_instrument.py
@@ -116,15 +116,15 @@ class CSVFile(CloudnetInstrument):
     def normalize_cumulative_amount(self, key: str) -> None:
         if key not in self.data:
             return
-        amount = self.data[key][:]
-        offset = 0
-        last_valid = 0
-        for i in range(1, len(amount)):
-            if amount[i] is ma.masked:
-                continue
-            if amount[i] + offset < amount[last_valid]:
-                offset += amount[last_valid]
-            amount[i] += offset
-            last_valid = i
-        amount -= amount[0]
+        amount = ma.array(self.data[key][:], copy=True)
+        valid = np.flatnonzero(~ma.getmaskarray(amount))
+        if len(valid) == 0:
+            return
+        values = amount.data[valid]
+        increments = np.diff(values)
+        # After reset, the counter starts from zero.
+        is_reset = increments < 0
+        increments[is_reset] = values[1:][is_reset]
+        amount[valid[0]] = 0
+        amount[valid[1:]] = np.cumsum(increments)
         self.data[key].data = amount
-- 
2.43.0


From 9edaadd8be6cb7c6019c0120cca982e442b0fbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:33 +0000
Subject: [PATCH 027/100] fix: convert RD-80 data without expected date

---
 cloudnetpy/instruments/disdrometer/rd80.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/disdrometer/rd80.py b/cloudnetpy/instruments/disdrometer/rd80.py
index a5dd5ce..ab84880 100644
--- a/cloudnetpy/instruments/disdrometer/rd80.py
+++ b/cloudnetpy/instruments/disdrometer/rd80.py
@@ -92,7 +92,7 @@ class Rd80(CloudnetInstrument):
 
     def _screen_time(self, expected_date: datetime.date | None = None) -> None:
         if expected_date is None:
-            self.date = self.time[0].date()
+            self.date = self.raw_time[0].date()
         else:
             is_valid = [dt.date() == expected_date for dt in self.raw_time]
             self.raw_time = self.raw_time[is_valid]
-- 
2.43.0


From c9da8c35f4f191b587a0ea0e0f5f0253479c1222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:02 +0000
Subject: [PATCH 028/100] fix: screen also values by expected date in FD12P
 data

---
 cloudnetpy/instruments/fd12p.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/instruments/fd12p.py b/cloudnetpy/instruments/fd12p.py
index bce43f0..6b21481 100644
--- a/cloudnetpy/instruments/fd12p.py
+++ b/cloudnetpy/instruments/fd12p.py
@@ -114,9 +114,15 @@ class FD12P(CSVFile):
             self._data[key] = ma.array(values, mask=mask)
         self._data["snowfall_amount"] = self._data["snowfall_amount"].astype(np.float32)
         if expected_date:
-            self._data["time"] = [
-                d for d in self._data["time"] if d.date() == expected_date
-            ]
+            is_valid = np.array(
+                [d.date() == expected_date for d in self._data["time"]], dtype=bool
+            )
+            for key, values in self._data.items():
+                self._data[key] = (
+                    values[is_valid]
+                    if isinstance(values, np.ndarray)
+                    else [x for x, valid in zip(values, is_valid, strict=True) if valid]
+                )
         if not self._data["time"]:
             raise ValidTimeStampError
 
-- 
2.43.0


From 08ba642d4ff70036f801d7199fff58513346d7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:02 +0000
Subject: [PATCH 029/100] fix: report missing timestamps of expected date in
 RD-80 data

---
 cloudnetpy/instruments/disdrometer/rd80.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/instruments/disdrometer/rd80.py b/cloudnetpy/instruments/disdrometer/rd80.py
index ab84880..5d43e05 100644
--- a/cloudnetpy/instruments/disdrometer/rd80.py
+++ b/cloudnetpy/instruments/disdrometer/rd80.py
@@ -11,6 +11,7 @@ from cloudnetpy import output
 from cloudnetpy.cloudnetarray import CloudnetArray
 from cloudnetpy.constants import MM_TO_M, SEC_IN_HOUR
 from cloudnetpy.disdronator.rd80 import A, Dlow, Dmid, Dspr, Dupp, Vmid, read_rd80
+from cloudnetpy.exceptions import ValidTimeStampError
 from cloudnetpy.instruments import instruments
 from cloudnetpy.instruments.cloudnet_instrument import CloudnetInstrument
 from cloudnetpy.utils import get_uuid
@@ -95,6 +96,8 @@ class Rd80(CloudnetInstrument):
             self.date = self.raw_time[0].date()
         else:
             is_valid = [dt.date() == expected_date for dt in self.raw_time]
+            if not any(is_valid):
+                raise ValidTimeStampError
             self.raw_time = self.raw_time[is_valid]
             for key in self.raw_data:
                 self.raw_data[key] = self.raw_data[key][is_valid]
-- 
2.43.0


From 9833499f49160ee009a43e6fc61fb2e282368736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:17 +0000
Subject: [PATCH 030/100] fix: do not screen range or size class axes when
 their length equals number of timestamps

---
 cloudnetpy/instruments/cloudnet_instrument.py |  4 +--
 cloudnetpy/instruments/vaisala.py             |  5 ++-
 cloudnetpy/utils.py                           | 34 +++++++++++++++----
 3 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/cloudnetpy/instruments/cloudnet_instrument.py b/cloudnetpy/instruments/cloudnet_instrument.py
index c016272..58ad337 100644
--- a/cloudnetpy/instruments/cloudnet_instrument.py
+++ b/cloudnetpy/instruments/cloudnet_instrument.py
@@ -67,9 +67,9 @@ class CloudnetInstrument:
         ):
             msg = "All timestamps screened"
             raise ValidTimeStampError(msg)
-        for cloudnet_array in self.data.values():
+        for key, cloudnet_array in self.data.items():
             array = cloudnet_array.data
-            if not utils.isscalar(array) and array.shape[0] == n_time:
+            if utils.is_time_dependent(key, array, n_time, cloudnet_array.dimensions):
                 match array.ndim:
                     case 1:
                         cloudnet_array.data = array[valid_indices]
diff --git a/cloudnetpy/instruments/vaisala.py b/cloudnetpy/instruments/vaisala.py
index 2c1f4bb..266da01 100644
--- a/cloudnetpy/instruments/vaisala.py
+++ b/cloudnetpy/instruments/vaisala.py
@@ -9,6 +9,7 @@ import numpy as np
 import numpy.typing as npt
 from ceilopyter import read_cl_file, read_cs_file, read_ct_file
 
+from cloudnetpy import utils
 from cloudnetpy.exceptions import ValidTimeStampError
 from cloudnetpy.instruments import instruments
 from cloudnetpy.instruments.ceilometer import Ceilometer, NoiseParam
@@ -73,7 +74,9 @@ class VaisalaCeilo(Ceilometer):
             msg = "All timestamps screened"
             raise ValidTimeStampError(msg)
         for key, array in self.data.items():
-            if hasattr(array, "shape") and array.shape[:1] == (n_time,):
+            if isinstance(array, np.ndarray) and utils.is_time_dependent(
+                key, array, n_time
+            ):
                 self.data[key] = self.data[key][valid_indices]
 
     def convert_to_fraction_hour(self) -> None:
diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index b301054..87a9de1 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -7,7 +7,7 @@ import re
 import textwrap
 import uuid
 import warnings
-from collections.abc import Callable, Iterator
+from collections.abc import Callable, Iterator, Sequence
 from os import PathLike
 from typing import Literal, TypeVar
 
@@ -27,6 +27,7 @@ from scipy.interpolate import (
 from cloudnetpy.cloudnetarray import CloudnetArray
 from cloudnetpy.constants import SEC_IN_DAY, SEC_IN_HOUR, SEC_IN_MINUTE, G
 from cloudnetpy.exceptions import ValidTimeStampError
+from cloudnetpy.metadata import COMMON_ATTRIBUTES
 
 
 def seconds2hours(time_in_seconds: npt.NDArray) -> npt.NDArray:
@@ -946,6 +947,31 @@ def get_epoch(units: str) -> datetime.datetime:
     return fallback
 
 
+def is_time_dependent(
+    name: str,
+    array: npt.NDArray,
+    n_time: int,
+    dimensions: Sequence[str] | None = None,
+) -> bool:
+    """Checks if the first axis of an array is time.
+
+    Args:
+        name: Name of the variable.
+        array: Data of the variable.
+        n_time: Number of timestamps.
+        dimensions: Dimensions of the variable, if known.
+
+    Returns:
+        True if the array has one element for each timestamp.
+    """
+    if isscalar(array) or array.ndim == 0 or array.shape[0] != n_time:
+        return False
+    if not dimensions and name in COMMON_ATTRIBUTES:
+        dimensions = COMMON_ATTRIBUTES[name].dimensions
+    # Number of timestamps may equal to the length of some other dimension.
+    return not dimensions or len(dimensions) != array.ndim or dimensions[0] == "time"
+
+
 def screen_by_time(
     data_in: dict, epoch: datetime.datetime, expected_date: datetime.date
 ) -> dict:
@@ -971,11 +997,7 @@ def screen_by_time(
     for key, array in data.items():
         if isinstance(array, list) and len(array) > 1:
             raise ValueError
-        if (
-            isinstance(array, np.ndarray)
-            and array.ndim > 0
-            and array.shape[0] == n_time
-        ):
+        if isinstance(array, np.ndarray) and is_time_dependent(key, array, n_time):
             if array.ndim == 1:
                 data[key] = data[key][valid_ind]
             if array.ndim == 2:
-- 
2.43.0


From 3e9a4f300000a340ffa7d9bb0681c55a2b8c8879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:31 +0000
Subject: [PATCH 031/100] fix: sort rain gauge data before normalizing
 cumulative amount

---
 cloudnetpy/instruments/rain_e_h3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/instruments/rain_e_h3.py b/cloudnetpy/instruments/rain_e_h3.py
index a2339d4..acdd0e6 100644
--- a/cloudnetpy/instruments/rain_e_h3.py
+++ b/cloudnetpy/instruments/rain_e_h3.py
@@ -43,10 +43,10 @@ def rain_e_h32nc(
     rain.add_data()
     rain.add_date()
     rain.convert_units()
-    rain.normalize_cumulative_amount("rainfall_amount")
-    rain.add_site_geolocation()
     rain.sort_timestamps()
     rain.remove_duplicate_timestamps()
+    rain.normalize_cumulative_amount("rainfall_amount")
+    rain.add_site_geolocation()
     attributes = output.add_time_attribute({}, rain.date)
     output.update_attributes(rain.data, attributes)
     output.save_level1b(rain, output_file, uuid)
-- 
2.43.0


From bd0038aca769400c62894e35c4d073ade231fc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:20 +0000
Subject: [PATCH 032/100] fix: read all given weather station files

---
 cloudnetpy/instruments/weather_station.py | 47 +++++++++++++----------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/cloudnetpy/instruments/weather_station.py b/cloudnetpy/instruments/weather_station.py
index be336d1..46efbda 100644
--- a/cloudnetpy/instruments/weather_station.py
+++ b/cloudnetpy/instruments/weather_station.py
@@ -110,6 +110,18 @@ class WS(CSVFile):
 
     date: datetime.date
 
+    def _read_files(self, filenames: Sequence[str | PathLike]) -> dict:
+        data = [self._read_file(filename) for filename in filenames]
+        return {
+            key: np.concatenate([d[key] for d in data])
+            if key == "time"
+            else ma.concatenate([d[key] for d in data])
+            for key in data[0]
+        }
+
+    def _read_file(self, filename: str | PathLike) -> dict:
+        raise NotImplementedError
+
     def calculate_rainfall_amount(self) -> None:
         if "rainfall_amount" in self.data or "rainfall_rate" not in self.data:
             return
@@ -440,11 +452,10 @@ class HyytialaWS(WS):
 
     def __init__(self, filenames: Sequence[str | PathLike], site_meta: dict) -> None:
         super().__init__(site_meta)
-        self.filename = filenames[0]
-        self._data = self._read_data()
+        self._data = self._read_files(filenames)
 
-    def _read_data(self) -> dict:
-        with open(self.filename, newline="") as f:
+    def _read_file(self, filename: str | PathLike) -> dict:
+        with open(filename, newline="") as f:
             # Skip first two lines
             for _ in range(2):
                 next(f)
@@ -501,11 +512,10 @@ class HyytialaWS(WS):
 class GalatiWS(WS):
     def __init__(self, filenames: Sequence[str | PathLike], site_meta: dict) -> None:
         super().__init__(site_meta)
-        self.filename = filenames[0]
-        self._data = self._read_data()
+        self._data = self._read_files(filenames)
 
-    def _read_data(self) -> dict:
-        with open(self.filename, newline="") as f:
+    def _read_file(self, filename: str | PathLike) -> dict:
+        with open(filename, newline="") as f:
             reader = csv.DictReader(f)
             raw_data: dict = {key: [] for key in reader.fieldnames}  # type: ignore[union-attr]
             for row in reader:
@@ -560,10 +570,9 @@ class GalatiWS(WS):
 class JuelichWS(WS):
     def __init__(self, filenames: Sequence[str | PathLike], site_meta: dict) -> None:
         super().__init__(site_meta)
-        self.filename = filenames[0]
-        self._data = self._read_data()
+        self._data = self._read_files(filenames)
 
-    def _read_data(self) -> dict:
+    def _read_file(self, filename: str | PathLike) -> dict:
         keymap = {
             "TIMESTAMP": "time",
             "AirTC_Avg": "air_temperature",
@@ -579,7 +588,7 @@ class JuelichWS(WS):
             "WS_ms_S_WVT": "meters/Second",
             "WindDir_D1_WVT": "Deg",
         }
-        units, _process, rows = read_toa5(self.filename)
+        units, _process, rows = read_toa5(filename)
         for key in units:
             if key in expected_units and expected_units[key] != units[key]:
                 msg = (
@@ -606,11 +615,10 @@ class LampedusaWS(WS):
 
     def __init__(self, filenames: Sequence[str | PathLike], site_meta: dict) -> None:
         super().__init__(site_meta)
-        self.filename = filenames[0]
-        self._data = self._read_data()
+        self._data = self._read_files(filenames)
 
-    def _read_data(self) -> dict:
-        with open(self.filename, newline="") as f:
+    def _read_file(self, filename: str | PathLike) -> dict:
+        with open(filename, newline="") as f:
             fields = [
                 "time",
                 "str1",
@@ -810,11 +818,10 @@ class LAquilaWS(WS):
 class ClujWS(WS):
     def __init__(self, filenames: Sequence[str | PathLike], site_meta: dict) -> None:
         super().__init__(site_meta)
-        self.filenames = filenames
-        self._data = self._read_data()
+        self._data = self._read_files(filenames)
 
-    def _read_data(self) -> dict:
-        with open(self.filenames[0]) as f:
+    def _read_file(self, filename: str | PathLike) -> dict:
+        with open(filename) as f:
             rows = f.readlines()
             headers = rows[0].strip().split("\t")
             raw_data: dict[str, list[str]] = {header: [] for header in headers}
-- 
2.43.0


From d02c75bf45247def0ada70b98ef07f69607d2b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:37 +0000
Subject: [PATCH 033/100] fix: read non-zero spectra of ASDO files in
 disdronator

---
 cloudnetpy/disdronator/parsivel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/disdronator/parsivel.py b/cloudnetpy/disdronator/parsivel.py
index 3d6b2d2..b757e4d 100644
--- a/cloudnetpy/disdronator/parsivel.py
+++ b/cloudnetpy/disdronator/parsivel.py
@@ -294,7 +294,9 @@ def _read_lines(
 def _expand_spectrum(m: re.Match) -> bytes:
     if m[1] == b"ZERO":
         return b"0;" * 1024
-    return b";".join([x or b"0" for x in m[1].split(b";")])
+    # Each of the values is followed by semicolon.
+    values = m[1].removesuffix(b";").split(b";")
+    return b";".join([x or b"0" for x in values])
 
 
 def _read_typ_op4a(content: bytes) -> dict:
-- 
2.43.0


From e04a8527ef8e938a1f1de85be7d69ff61ef5cb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:07 +0000
Subject: [PATCH 034/100] fix: skip damaged records of Thies LPM data in
 disdronator

---
 cloudnetpy/disdronator/lpm.py | 50 +++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/cloudnetpy/disdronator/lpm.py b/cloudnetpy/disdronator/lpm.py
index e797900..c8d4161 100644
--- a/cloudnetpy/disdronator/lpm.py
+++ b/cloudnetpy/disdronator/lpm.py
@@ -1,6 +1,6 @@
 import datetime
 from os import PathLike
-from typing import TypeAlias
+from typing import Any, TypeAlias
 
 import numpy as np
 import numpy.typing as npt
@@ -53,12 +53,13 @@ Vmid = Vlow + Vspr / 2
 A = (20 / 1000) * (228 / 1000)  # TODO: AU
 
 
-def _read_telegram(telegram: str, data: dict[int, list]) -> None:
+def _read_telegram(telegram: str) -> dict[int, Any]:
     telegram = telegram.strip().rstrip(";")
     values = telegram.split(";")
     if len(values) not in (520, 524):
         msg = "Invalid telegram length"
         raise ValueError(msg)
+    row: dict[int, Any] = {}
     for i, value in enumerate(values[:-1]):
         no = i + 2
         parsed: datetime.date | datetime.time | int | float | str
@@ -72,9 +73,17 @@ def _read_telegram(telegram: str, data: dict[int, list]) -> None:
             parsed = float(value)
         else:
             parsed = value
-        if no not in data:
-            data[no] = []
-        data[no].append(parsed)
+        row[no] = parsed
+    return row
+
+
+def _append_row(row: dict[int, Any], data: dict[int, list]) -> None:
+    for no, value in row.items():
+        data.setdefault(no, []).append(value)
+
+
+def _parse_timestamp(timestamp: str) -> datetime.datetime:
+    return datetime.datetime.strptime(timestamp, "%Y-%m-%d %H:%M:%S")
 
 
 def _read_pyatmoslogger(filename: str | PathLike) -> LpmOutput:
@@ -83,40 +92,47 @@ def _read_pyatmoslogger(filename: str | PathLike) -> LpmOutput:
     with open(filename, errors="ignore") as f:
         f.readline()
         for line in f:
-            timestamp, telegram = line.split(";", maxsplit=1)
             try:
-                _read_telegram(telegram, data)
-                time.append(datetime.datetime.strptime(timestamp, "%Y-%m-%d %H:%M:%S"))
+                timestamp, telegram = line.split(";", maxsplit=1)
+                row_time = _parse_timestamp(timestamp)
+                row = _read_telegram(telegram)
             except ValueError:
-                pass
+                continue
+            time.append(row_time)
+            _append_row(row, data)
     return time, data
 
 
 def _read_lampedusa(filename: str | PathLike) -> LpmOutput:
     time = []
     data: dict = {}
-    with open(filename) as f:
+    with open(filename, errors="ignore") as f:
         _, _, _, _ = f.readline(), f.readline(), f.readline(), f.readline()
         for line in f:
             cols = [col.strip('"') for col in line.strip().split(",")]
+            if len(cols) < 3:
+                continue
             try:
-                _read_telegram(cols[2], data)
-                time.append(datetime.datetime.strptime(cols[0], "%Y-%m-%d %H:%M:%S"))
+                row_time = _parse_timestamp(cols[0])
+                row = _read_telegram(cols[2])
             except ValueError:
-                pass
+                continue
+            time.append(row_time)
+            _append_row(row, data)
     return time, data
 
 
 def _read_raw(filename: str | PathLike) -> LpmOutput:
     time = []
     data: dict = {}
-    with open(filename) as f:
+    with open(filename, errors="ignore") as f:
         for line in f:
             try:
-                _read_telegram(line, data)
-                time.append(datetime.datetime.combine(data[5][-1], data[6][-1]))
+                row = _read_telegram(line)
             except ValueError:
-                pass
+                continue
+            time.append(datetime.datetime.combine(row[5], row[6]))
+            _append_row(row, data)
     return time, data
 
 
-- 
2.43.0


From 1d8199f388e19b0a1054856961b0bedc608dbf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:07 +0000
Subject: [PATCH 035/100] fix: skip damaged records of RD-80 data

---
 cloudnetpy/disdronator/rd80.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/cloudnetpy/disdronator/rd80.py b/cloudnetpy/disdronator/rd80.py
index 26e467f..c61d294 100644
--- a/cloudnetpy/disdronator/rd80.py
+++ b/cloudnetpy/disdronator/rd80.py
@@ -1,5 +1,6 @@
 import datetime
 from os import PathLike
+from typing import Any
 
 import numpy as np
 import numpy.typing as npt
@@ -16,21 +17,25 @@ def read_rd80(filename: str | PathLike) -> tuple[npt.NDArray, dict[str, npt.NDAr
         "RA [mm]": [],
         "RAT [mm]": [],
     }
-    with open(filename) as f:
+    with open(filename, errors="replace") as f:
         keys = f.readline().rstrip("\r\n").split("\t")
         for line in f:
             try:
                 row = dict(zip(keys, line.rstrip("\r\n").split("\t"), strict=True))
+                row_time = datetime.datetime.strptime(
+                    f"{row['YYYY-MM-DD']} {row['hh:mm:ss']}", "%Y-%m-%d %H:%M:%S"
+                )
+                row_data: dict[str, Any] = {
+                    "n": [int(row[f"n{i + 1}"]) for i in range(20)],
+                    "Interval [s]": int(row["Interval [s]"]),
+                }
+                for key in ("RI [mm/h]", "RA [mm]", "RAT [mm]"):
+                    row_data[key] = float(row[key].replace(",", "."))
             except ValueError:
                 continue
-            dt = datetime.datetime.strptime(
-                f"{row['YYYY-MM-DD']} {row['hh:mm:ss']}", "%Y-%m-%d %H:%M:%S"
-            )
-            time.append(dt)
-            data["n"].append([int(row[f"n{i + 1}"]) for i in range(20)])
-            data["Interval [s]"].append(int(row["Interval [s]"]))
-            for key in ("RI [mm/h]", "RA [mm]", "RAT [mm]"):
-                data[key].append(float(row[key].replace(",", ".")))
+            time.append(row_time)
+            for key, value in row_data.items():
+                data[key].append(value)
     return np.array(time), convert_to_numpy(data)
 
 
-- 
2.43.0


From 4f0e3be4f6f01f6d72d07e67a415a41295d1d074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:36 +0000
Subject: [PATCH 036/100] fix: skip damaged records of Parsivel data in
 disdronator

---
 cloudnetpy/disdronator/parsivel.py | 22 +++++++++++++++++-----
 cloudnetpy/disdronator/utils.py    | 10 +++++++++-
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/cloudnetpy/disdronator/parsivel.py b/cloudnetpy/disdronator/parsivel.py
index b757e4d..b480b5e 100644
--- a/cloudnetpy/disdronator/parsivel.py
+++ b/cloudnetpy/disdronator/parsivel.py
@@ -250,7 +250,7 @@ def _read_lines(
                     row_data[t] = float(values[0].replace(decimal_separator, b"."))
                     values = values[1:]
                 elif t in INT_KEYS:
-                    row_data[t] = int(values[0])
+                    row_data[t] = _parse_int(values[0])
                     values = values[1:]
                 elif t in (90, 91):
                     row_data[t] = [float(x) for x in values[:32]]
@@ -291,6 +291,14 @@ def _read_lines(
     return datetimes, data
 
 
+def _parse_int(value: bytes) -> int:
+    parsed = int(value)
+    if abs(parsed) > np.iinfo(np.int32).max:
+        msg = f"Invalid integer: {parsed}"
+        raise ValueError(msg)
+    return parsed
+
+
 def _expand_spectrum(m: re.Match) -> bytes:
     if m[1] == b"ZERO":
         return b"0;" * 1024
@@ -301,7 +309,7 @@ def _expand_spectrum(m: re.Match) -> bytes:
 
 def _read_typ_op4a(content: bytes) -> dict:
     lines = content.splitlines()
-    if lines[0] != b"TYP OP4A":
+    if not lines or lines[0] != b"TYP OP4A":
         msg = "Invalid message"
         raise ValueError(msg)
     data: dict = {}
@@ -309,11 +317,15 @@ def _read_typ_op4a(content: bytes) -> dict:
         key, value = line.split(b":", maxsplit=1)
         num = int(key)
         if num in INT_KEYS:
-            data[num] = int(value)
+            data[num] = _parse_int(value)
         elif num in FLOAT_KEYS:
             data[num] = float(value)
         elif num in (90, 91):
-            data[num] = [float(x) for x in value.rstrip(b";").split(b";")]
+            values = [float(x) for x in value.rstrip(b";").split(b";")]
+            if len(values) != 32:
+                msg = f"Invalid length of field {num}: {len(values)}"
+                raise ValueError(msg)
+            data[num] = values
         elif num == 93:
             spectrum = [int(x) for x in value.rstrip(b";").split(b";")]
             data[num] = np.reshape(spectrum, (32, 32))
@@ -384,7 +396,7 @@ def _read_hyytiala(filename: str | PathLike) -> ParsivelOutput:
     for m in re.finditer(
         rb"\[(?P<year>\d+)-(?P<month>\d+)-(?P<day>\d+) "
         rb"(?P<hour>\d+):(?P<minute>\d+):(?P<second>\d+)\r?\n"
-        rb"(?P<output>[^\]]*)\]",
+        rb"(?P<output>[^\[\]]*)\]",
         content,
     ):
         try:
diff --git a/cloudnetpy/disdronator/utils.py b/cloudnetpy/disdronator/utils.py
index 307dc50..0d31ff9 100644
--- a/cloudnetpy/disdronator/utils.py
+++ b/cloudnetpy/disdronator/utils.py
@@ -12,7 +12,15 @@ def convert_to_numpy(
 ) -> dict:
     output = {}
     for key, value in data.items():
-        arr = np.array(value)
+        is_missing = np.array([x is None for x in value], dtype=bool)
+        if len(value) > 0 and is_missing.all():
+            continue
+        if is_missing.any():
+            fill = np.zeros_like(value[int(np.argmin(is_missing))])
+            arr = ma.array([fill if x is None else x for x in value])
+            arr[is_missing] = ma.masked
+        else:
+            arr = np.array(value)
         if fill_values is not None and key in fill_values:
             arr = ma.masked_where(arr == fill_values[key], arr)
         if int_keys is not None and key in int_keys:
-- 
2.43.0


From effdfb42d5d82d5ccce7e37962362897f168a244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:48 +0000
Subject: [PATCH 037/100] fix: skip damaged records of TOA5 data

---
 cloudnetpy/instruments/toa5.py | 42 ++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/cloudnetpy/instruments/toa5.py b/cloudnetpy/instruments/toa5.py
index b3836ee..5076c98 100644
--- a/cloudnetpy/instruments/toa5.py
+++ b/cloudnetpy/instruments/toa5.py
@@ -13,8 +13,10 @@ def read_toa5(
         CR1000 Measurement and Control System.
         https://s.campbellsci.com/documents/us/manuals/cr1000.pdf
     """
-    with open(filename) as file:
-        reader = csv.reader(file)
+    with open(filename, errors="replace") as file:
+        # Records never span multiple lines, so unbalanced quotes in one line
+        # should not affect the following lines.
+        reader = (next(csv.reader([line]), []) for line in file)
         origin_line = next(reader)
         if len(origin_line) == 0 or origin_line[0] != "TOA5":
             msg = "Invalid TOA5 file"
@@ -26,24 +28,24 @@ def read_toa5(
         units = dict(zip(header_line, units_line, strict=False))
         process = dict(zip(header_line, process_line, strict=False))
 
-        row_template: dict[str, Any] = {}
-        for header in header_line:
-            if "(" in header:
-                row_template[header[: header.index("(")]] = []
-
         for data_line in reader:
-            row = row_template.copy()
-            for key, value in zip(header_line, data_line, strict=False):
-                parsed_value: Any = value
-                if key == "TIMESTAMP":
-                    parsed_value = datetime.datetime.strptime(
-                        parsed_value, "%Y-%m-%d %H:%M:%S"
-                    )
-                elif key == "RECORD":
-                    parsed_value = int(parsed_value)
-                if "(" in key:
-                    row[key[: key.index("(")]].append(parsed_value)
-                else:
-                    row[key] = parsed_value
+            if len(data_line) != len(header_line):
+                continue
+            row: dict[str, Any] = {}
+            try:
+                for key, value in zip(header_line, data_line, strict=True):
+                    parsed_value: Any = value
+                    if key == "TIMESTAMP":
+                        parsed_value = datetime.datetime.strptime(
+                            parsed_value, "%Y-%m-%d %H:%M:%S"
+                        )
+                    elif key == "RECORD":
+                        parsed_value = int(parsed_value)
+                    if "(" in key:
+                        row.setdefault(key[: key.index("(")], []).append(parsed_value)
+                    else:
+                        row[key] = parsed_value
+            except ValueError:
+                continue
             output.append(row)
         return units, process, output
-- 
2.43.0


From 419f7f5c6f275134477f39a8da9f963776a28a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:48 +0000
Subject: [PATCH 038/100] fix: skip damaged records of weather station data

---
 cloudnetpy/instruments/weather_station.py | 300 ++++++++++++----------
 1 file changed, 165 insertions(+), 135 deletions(-)

diff --git a/cloudnetpy/instruments/weather_station.py b/cloudnetpy/instruments/weather_station.py
index 46efbda..7fe9d86 100644
--- a/cloudnetpy/instruments/weather_station.py
+++ b/cloudnetpy/instruments/weather_station.py
@@ -4,7 +4,7 @@ import logging
 import math
 import re
 from collections import defaultdict
-from collections.abc import Iterable, Sequence
+from collections.abc import Iterable, Iterator, Sequence
 from os import PathLike
 from uuid import UUID
 
@@ -103,6 +103,21 @@ def ws2nc(
     return uuid
 
 
+def _parse_float(value: str) -> float:
+    try:
+        parsed = float(value)
+    except ValueError:
+        return math.nan
+    return parsed if math.isfinite(parsed) else math.nan
+
+
+def _read_csv_lines(file: Iterable[str]) -> Iterator[list[str]]:
+    # Records never span multiple lines, so unbalanced quotes in one line should
+    # not affect the following lines.
+    for line in file:
+        yield next(csv.reader([line]), [])
+
+
 class WS(CSVFile):
     def __init__(self, site_meta: dict) -> None:
         super().__init__(site_meta)
@@ -225,10 +240,14 @@ class PalaiseauWS(WS):
                         )
                         logging.warning(msg)
                         continue
-                    timestamp = datetime.datetime.strptime(
-                        columns[0], "%Y-%m-%dT%H:%M:%SZ"
-                    ).replace(tzinfo=datetime.timezone.utc)
-                    values.append([timestamp] + [float(x) for x in columns[1:]])
+                    try:
+                        timestamp = datetime.datetime.strptime(
+                            columns[0], "%Y-%m-%dT%H:%M:%SZ"
+                        ).replace(tzinfo=datetime.timezone.utc)
+                    except ValueError:
+                        logging.warning("Skipping row with invalid timestamp")
+                        continue
+                    values.append([timestamp] + [_parse_float(x) for x in columns[1:]])
                     timestamps.append(timestamp)
                 else:
                     header_row = "".join(columns)
@@ -399,25 +418,26 @@ class KenttarovaWS(WS):
     def _read_data(self) -> dict:
         merged: dict = {}
         for filename in self.filenames:
-            with open(filename, newline="") as f:
-                reader = csv.DictReader(f)
-                raw_data: dict = {key: [] for key in reader.fieldnames}  # type: ignore[union-attr]
-                for row in reader:
+            with open(filename, newline="", errors="replace") as f:
+                reader = _read_csv_lines(f)
+                fieldnames = next(reader)
+                raw_data: dict = {key: [] for key in fieldnames}
+                for columns in reader:
+                    if len(columns) != len(fieldnames):
+                        continue
+                    row = dict(zip(fieldnames, columns, strict=True))
+                    try:
+                        timestamp = datetime.datetime.strptime(
+                            row["Read time (UTC+2)"], "%Y-%m-%d %H:%M:%S"
+                        ) - datetime.timedelta(hours=2)
+                    except ValueError:
+                        continue
                     for key, value in row.items():
-                        parsed_value: float | datetime.datetime
-                        if key == "Read time (UTC+2)":
-                            try:
-                                parsed_value = datetime.datetime.strptime(
-                                    value, "%Y-%m-%d %H:%M:%S"
-                                ) - datetime.timedelta(hours=2)
-                            except ValueError:
-                                break  # Should be first column, so skip whole row.
-                        else:
-                            try:
-                                parsed_value = float(value)
-                            except ValueError:
-                                parsed_value = math.nan
-                        raw_data[key].append(parsed_value)
+                        raw_data[key].append(
+                            timestamp
+                            if key == "Read time (UTC+2)"
+                            else _parse_float(value)
+                        )
             data = {
                 "time": raw_data["Read time (UTC+2)"],
                 "air_temperature": raw_data["Temp 2m (C)"],
@@ -455,42 +475,37 @@ class HyytialaWS(WS):
         self._data = self._read_files(filenames)
 
     def _read_file(self, filename: str | PathLike) -> dict:
-        with open(filename, newline="") as f:
+        with open(filename, newline="", errors="replace") as f:
             # Skip first two lines
             for _ in range(2):
                 next(f)
             # Read header
             header_line = f.readline().strip()
             fields = header_line[1:].strip().split()
-            reader = csv.DictReader(
-                f, delimiter=" ", skipinitialspace=True, fieldnames=fields
-            )
-            if reader.fieldnames is None:
-                raise ValueError
-            raw_data: dict = {key: [] for key in reader.fieldnames}
+            raw_data: dict = {key: [] for key in fields}
             raw_data["time"] = []
             # Read data
-            for row in reader:
+            for line in f:
+                columns = line.split()
+                if len(columns) != len(fields):
+                    continue
+                row = dict(zip(fields, columns, strict=True))
+                try:
+                    current_time = datetime.datetime(
+                        int(row["y"]),
+                        int(row["m"]),
+                        int(row["d"]),
+                        int(row["minute"]) // 60,
+                        int(row["minute"]) % 60,
+                    )
+                except ValueError:
+                    continue
+                raw_data["time"].append(current_time)
                 for key, value in row.items():
-                    if key:
-                        parsed_value: float | datetime.datetime
-                        if key == "y":
-                            current_time = datetime.datetime(
-                                int(value),
-                                int(row["m"]),
-                                int(row["d"]),
-                                int(row["minute"]) // 60,
-                                int(row["minute"]) % 60,
-                            )
-                            raw_data["time"].append(current_time)
-                        else:
-                            try:
-                                parsed_value = float(value)
-                            except (TypeError, ValueError):
-                                parsed_value = math.nan
-                            if parsed_value in (-99.99, -99.9):
-                                parsed_value = math.nan
-                            raw_data[key].append(parsed_value)
+                    parsed_value = _parse_float(value)
+                    if parsed_value in (-99.99, -99.9):
+                        parsed_value = math.nan
+                    raw_data[key].append(parsed_value)
 
         data = {
             "time": raw_data["time"],
@@ -515,22 +530,24 @@ class GalatiWS(WS):
         self._data = self._read_files(filenames)
 
     def _read_file(self, filename: str | PathLike) -> dict:
-        with open(filename, newline="") as f:
-            reader = csv.DictReader(f)
-            raw_data: dict = {key: [] for key in reader.fieldnames}  # type: ignore[union-attr]
-            for row in reader:
+        with open(filename, newline="", errors="replace") as f:
+            reader = _read_csv_lines(f)
+            fieldnames = next(reader)
+            raw_data: dict = {key: [] for key in fieldnames}
+            for columns in reader:
+                if len(columns) != len(fieldnames):
+                    continue
+                row = dict(zip(fieldnames, columns, strict=True))
+                try:
+                    timestamp = datetime.datetime.strptime(
+                        row["TimeStamp"], "%Y-%m-%d %H:%M:%S.%f"
+                    )
+                except ValueError:
+                    continue
                 for key, value in row.items():
-                    parsed_value: float | datetime.datetime
-                    if key == "TimeStamp":
-                        parsed_value = datetime.datetime.strptime(
-                            value, "%Y-%m-%d %H:%M:%S.%f"
-                        )
-                    else:
-                        try:
-                            parsed_value = float(value)
-                        except ValueError:
-                            parsed_value = math.nan
-                    raw_data[key].append(parsed_value)
+                    raw_data[key].append(
+                        timestamp if key == "TimeStamp" else _parse_float(value)
+                    )
 
         def read_value(keys: Iterable[str]) -> list:
             for key in keys:
@@ -559,7 +576,13 @@ class GalatiWS(WS):
         if self.date < datetime.date(2024, 10, 29):
             del self._data["wind_speed"]
             del self._data["wind_direction"]
-        self._data["visibility"] = self._data["visibility"].astype(np.int32)
+        visibility = ma.masked_where(
+            ~(np.abs(self._data["visibility"].data) <= np.iinfo(np.int32).max),
+            self._data["visibility"],
+        )
+        self._data["visibility"] = ma.array(
+            visibility.filled(0).astype(np.int32), mask=ma.getmaskarray(visibility)
+        )
         return super().add_data()
 
     def convert_pressure(self) -> None:
@@ -604,7 +627,10 @@ class JuelichWS(WS):
                     continue
                 parsed = value
                 if keymap[key] != "time":
-                    parsed = float(value)
+                    try:
+                        parsed = float(value)
+                    except ValueError:
+                        parsed = math.nan
                 data[keymap[key]].append(parsed)
 
         return self.format_data(data)
@@ -618,7 +644,7 @@ class LampedusaWS(WS):
         self._data = self._read_files(filenames)
 
     def _read_file(self, filename: str | PathLike) -> dict:
-        with open(filename, newline="") as f:
+        with open(filename, newline="", errors="replace") as f:
             fields = [
                 "time",
                 "str1",
@@ -635,22 +661,21 @@ class LampedusaWS(WS):
                 "rain2h",
                 "empty",
             ]
-            reader = csv.DictReader(f, fieldnames=fields)
             raw_data: dict = {key: [] for key in fields}
-            for row in reader:
+            for columns in _read_csv_lines(f):
+                if len(columns) != len(fields):
+                    continue
+                row = dict(zip(fields, columns, strict=True))
+                try:
+                    timestamp = datetime.datetime.strptime(
+                        row["time"].strip("\0"), "%y%m%d %H%M%S"
+                    )
+                except ValueError:
+                    continue
                 for key, value in row.items():
-                    fixed_value = value.strip("\0")
-                    parsed_value: float | datetime.datetime
-                    if key == "time":
-                        parsed_value = datetime.datetime.strptime(
-                            fixed_value, "%y%m%d %H%M%S"
-                        )
-                    else:
-                        try:
-                            parsed_value = float(fixed_value)
-                        except ValueError:
-                            parsed_value = math.nan
-                    raw_data[key].append(parsed_value)
+                    raw_data[key].append(
+                        timestamp if key == "time" else _parse_float(value.strip("\0"))
+                    )
 
         data = {
             "time": raw_data["time"],
@@ -722,15 +747,18 @@ class LimassolWS(WS):
         )  # mm/(10 min) -> m/s
 
 
+def _decode_line(line: bytes) -> str:
+    try:
+        return line.decode("utf-8")
+    except UnicodeDecodeError:
+        return line.decode("latin-1")
+
+
 def _parse_sirta(filename: str | PathLike) -> dict:
     """Parse SIRTA-style weather station file."""
     with open(filename, "rb") as f:
         raw_content = f.read()
-    try:
-        content = raw_content.decode("utf-8")
-    except UnicodeDecodeError:
-        content = raw_content.decode("latin-1")
-    lines = [line.strip() for line in content.splitlines()]
+    lines = [_decode_line(line).strip() for line in raw_content.splitlines()]
     columns: list[str] = []
     output: dict = {}
     for line in lines:
@@ -748,21 +776,22 @@ def _parse_sirta(filename: str | PathLike) -> dict:
         values = line.split()
         if len(columns) != len(values):
             continue
-        for column, value in zip(columns, values, strict=False):
-            parsed: float | datetime.datetime
-            if column == "Date Time (yyyy-mm-ddThh:mm:ss)":
-                parsed = datetime.datetime.strptime(value, "%Y-%m-%dT%H:%M:%S").replace(
-                    tzinfo=datetime.timezone.utc
-                )
-            elif column == "Date Time (yyyy-mm-ddThh:mm:ssZ)":
-                parsed = datetime.datetime.strptime(
-                    value, "%Y-%m-%dT%H:%M:%SZ"
-                ).replace(tzinfo=datetime.timezone.utc)
-            else:
-                try:
-                    parsed = float(value)
-                except ValueError:
-                    parsed = math.nan
+        row: dict[str, float | datetime.datetime] = {}
+        try:
+            for column, value in zip(columns, values, strict=True):
+                if column == "Date Time (yyyy-mm-ddThh:mm:ss)":
+                    row[column] = datetime.datetime.strptime(
+                        value, "%Y-%m-%dT%H:%M:%S"
+                    ).replace(tzinfo=datetime.timezone.utc)
+                elif column == "Date Time (yyyy-mm-ddThh:mm:ssZ)":
+                    row[column] = datetime.datetime.strptime(
+                        value, "%Y-%m-%dT%H:%M:%SZ"
+                    ).replace(tzinfo=datetime.timezone.utc)
+                else:
+                    row[column] = _parse_float(value)
+        except ValueError:
+            continue
+        for column, parsed in row.items():
             output[column].append(parsed)
     return output
 
@@ -787,33 +816,32 @@ class LAquilaWS(WS):
             ]
         }
         for filename in self.filenames:
-            with open(filename) as f:
+            with open(filename, errors="replace") as f:
                 for row in f:
                     if row.startswith("#"):
                         continue
                     columns = row.split(",")
                     if len(columns) != 7:
                         continue
-                    timestamp = datetime.datetime.strptime(
-                        columns[0], "%Y-%m-%dT%H:%M:%SZ"
-                    ).replace(tzinfo=datetime.timezone.utc)
+                    try:
+                        timestamp = datetime.datetime.strptime(
+                            columns[0], "%Y-%m-%dT%H:%M:%SZ"
+                        ).replace(tzinfo=datetime.timezone.utc)
+                    except ValueError:
+                        continue
                     data["time"].append(timestamp)
-                    data["air_temperature"].append(self._parse_value(columns[1]))
-                    data["air_pressure"].append(self._parse_value(columns[2]))
-                    data["relative_humidity"].append(self._parse_value(columns[3]))
-                    data["rainfall_rate"].append(self._parse_value(columns[4]))
-                    data["wind_speed"].append(self._parse_value(columns[5]))
-                    data["wind_direction"].append(self._parse_value(columns[6]))
+                    data["air_temperature"].append(_parse_float(columns[1]))
+                    data["air_pressure"].append(_parse_float(columns[2]))
+                    data["relative_humidity"].append(_parse_float(columns[3]))
+                    data["rainfall_rate"].append(_parse_float(columns[4]))
+                    data["wind_speed"].append(_parse_float(columns[5]))
+                    data["wind_direction"].append(_parse_float(columns[6]))
         output = self.format_data(data)
         _, time_ind = np.unique(output["time"], return_index=True)
         for key in output:
             output[key] = output[key][time_ind]
         return output
 
-    def _parse_value(self, value: str) -> float:
-        value = value.strip()
-        return float(value) if value else math.nan
-
 
 class ClujWS(WS):
     def __init__(self, filenames: Sequence[str | PathLike], site_meta: dict) -> None:
@@ -821,33 +849,39 @@ class ClujWS(WS):
         self._data = self._read_files(filenames)
 
     def _read_file(self, filename: str | PathLike) -> dict:
-        with open(filename) as f:
+        with open(filename, errors="replace") as f:
             rows = f.readlines()
             headers = rows[0].strip().split("\t")
             raw_data: dict[str, list[str]] = {header: [] for header in headers}
-            for row in rows[1:]:
-                columns = row.strip().split("\t")
-                for key, value in zip(headers, columns, strict=True):
+            timestamps = []
+            for line in rows[1:]:
+                columns = line.rstrip("\r\n").split("\t")
+                if len(columns) == len(headers) + 1 and not columns[-1].strip():
+                    columns.pop()  # Line ends with separator.
+                if len(columns) != len(headers):
+                    continue
+                row = dict(zip(headers, columns, strict=True))
+                try:
+                    timestamps.append(self._parse_datetime(row["DateTime"]))
+                except ValueError:
+                    continue
+                for key, value in row.items():
                     raw_data[key].append(value)
         return self.format_data(
             {
-                "time": [self._parse_datetime(x) for x in raw_data["DateTime"]],
+                "time": timestamps,
                 "air_temperature": [
-                    self._parse_value(x) for x in raw_data["Air_temperature_C"]
-                ],
-                "air_pressure": [
-                    self._parse_value(x) for x in raw_data["air_pressure_hPA"]
+                    _parse_float(x) for x in raw_data["Air_temperature_C"]
                 ],
+                "air_pressure": [_parse_float(x) for x in raw_data["air_pressure_hPA"]],
                 "relative_humidity": [
-                    self._parse_value(x) for x in raw_data["rel_humidity_pct"]
+                    _parse_float(x) for x in raw_data["rel_humidity_pct"]
                 ],
                 "rainfall_rate": [
-                    self._parse_value(x) for x in raw_data["Precipitation_mm"]
-                ],
-                "wind_speed": [self._parse_value(x) for x in raw_data["WS_azimuth_ms"]],
-                "wind_direction": [
-                    self._parse_value(x) for x in raw_data["WD_azimuth_deg"]
+                    _parse_float(x) for x in raw_data["Precipitation_mm"]
                 ],
+                "wind_speed": [_parse_float(x) for x in raw_data["WS_azimuth_ms"]],
+                "wind_direction": [_parse_float(x) for x in raw_data["WD_azimuth_deg"]],
             }
         )
 
@@ -856,10 +890,6 @@ class ClujWS(WS):
             tzinfo=datetime.timezone.utc
         )
 
-    def _parse_value(self, value: str) -> float:
-        value = value.strip()
-        return float(value) if value else math.nan
-
     def convert_rainfall_rate(self) -> None:
         rainfall_rate = self.data["rainfall_rate"][:]
         self.data["rainfall_rate"].data = rainfall_rate / (
-- 
2.43.0


From 936969237dea635d153389725a99f9f2316343e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:48 +0000
Subject: [PATCH 039/100] fix: skip damaged records of Thies LPM data

---
 cloudnetpy/instruments/disdrometer/thies.py | 56 ++++++++++++++-------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/cloudnetpy/instruments/disdrometer/thies.py b/cloudnetpy/instruments/disdrometer/thies.py
index 4d58dd2..2757cea 100644
--- a/cloudnetpy/instruments/disdrometer/thies.py
+++ b/cloudnetpy/instruments/disdrometer/thies.py
@@ -1,4 +1,5 @@
 import datetime
+import logging
 from collections import defaultdict
 from os import PathLike
 from typing import Any
@@ -164,11 +165,14 @@ class Thies(Disdrometer):
             with open(filename, errors="ignore") as file:
                 first_line = file.readline()
                 for line in file:
-                    timestamp, telegram = line.split(";", maxsplit=1)
+                    timestamp, _, telegram = line.partition(";")
                     fixed_telegram = telegram.strip().rstrip(";") + ";"
-                    parsed_timestamp = datetime.datetime.strptime(
-                        timestamp, "%Y-%m-%d %H:%M:%S"
-                    )
+                    try:
+                        parsed_timestamp = datetime.datetime.strptime(
+                            timestamp, "%Y-%m-%d %H:%M:%S"
+                        )
+                    except ValueError:
+                        continue
                     self._read_line(fixed_telegram, parsed_timestamp)
         else:
             with open(filename, errors="ignore") as file:
@@ -216,6 +220,21 @@ class Thies(Disdrometer):
         # Length matches telegram 4 or 5 (has 4 additional columns).
         if len(raw_values) not in (expected_columns, expected_columns + 4):
             return
+        try:
+            row = self._parse_values(raw_values, expected_columns)
+        except (ValueError, OverflowError):
+            logging.info("Skipped invalid row")
+            return
+        if timestamp is None:
+            timestamp = datetime.datetime.combine(row["_date"], row["_time"])
+        for key, value in row.items():
+            self.raw_data[key].append(value)
+        self.raw_data["time"].append(timestamp)
+
+    def _parse_values(
+        self, raw_values: list[str], expected_columns: int
+    ) -> dict[str, Any]:
+        row: dict[str, Any] = {}
         for i, key in TELEGRAM4:
             if i >= expected_columns - 1:
                 break
@@ -239,8 +258,9 @@ class Thies(Disdrometer):
                 "rainfall_rate_1min_total",
             ):
                 value = float(raw_values[i])
+            elif key == "_serial_number":
+                value = _parse_serial_number(raw_values[i])
             elif key in (
-                "_serial_number",
                 "_software_version",
                 "_metar_5min_4678",
                 "_metar_1_min_4678",
@@ -248,21 +268,12 @@ class Thies(Disdrometer):
                 value = raw_values[i]
             else:
                 value = int(raw_values[i])
-            self.raw_data[key].append(value)
+            row[key] = value
         if expected_columns > 79:
-            self.raw_data["spectrum"].append(
-                np.array(list(map(int, raw_values[79:519])), dtype="i2").reshape(
-                    self.n_diameter, self.n_velocity
-                )
-            )
-        if timestamp is not None:
-            self.raw_data["time"].append(timestamp)
-        else:
-            self.raw_data["time"].append(
-                datetime.datetime.combine(
-                    self.raw_data["_date"][-1], self.raw_data["_time"][-1]
-                )
-            )
+            row["spectrum"] = np.array(
+                list(map(int, raw_values[79:519])), dtype="i2"
+            ).reshape(self.n_diameter, self.n_velocity)
+        return row
 
     def _screen_time(self, expected_date: datetime.date | None = None) -> None:
         if expected_date is None:
@@ -293,6 +304,13 @@ class Thies(Disdrometer):
         self.store_vectors(n_values, spreads, "diameter", start=0.125)
 
 
+def _parse_serial_number(serial_number: str) -> str:
+    if not serial_number.strip().isdigit():
+        msg = f"Invalid serial number: {serial_number}"
+        raise ValueError(msg)
+    return serial_number
+
+
 def _parse_date(date: str) -> datetime.date:
     day, month, year = map(int, date.split("."))
     if year < 100:
-- 
2.43.0


From a3b9c141a41a1fe02612986352bc8154f0414040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:48 +0000
Subject: [PATCH 040/100] fix: skip damaged records of Parsivel data

---
 .../instruments/disdrometer/parsivel.py       | 68 +++++++++++++------
 1 file changed, 46 insertions(+), 22 deletions(-)

diff --git a/cloudnetpy/instruments/disdrometer/parsivel.py b/cloudnetpy/instruments/disdrometer/parsivel.py
index 5dcd6a3..f22ca01 100644
--- a/cloudnetpy/instruments/disdrometer/parsivel.py
+++ b/cloudnetpy/instruments/disdrometer/parsivel.py
@@ -382,12 +382,27 @@ def _parse_spectrum(tokens: Iterator[str]) -> npt.NDArray:
     else:
         values = [int(first)]
         values.extend(int(x) for x in islice(tokens, 1023))
+    return _to_spectrum(values)
+
+
+def _to_spectrum(values: list[int]) -> npt.NDArray:
     if len(values) != 1024:
         msg = f"Invalid spectrum length: {len(values)}"
         raise ValueError(msg)
+    if max(values) > np.iinfo("i2").max or min(values) < np.iinfo("i2").min:
+        msg = "Invalid value in spectrum"
+        raise ValueError(msg)
     return np.array(values, dtype="i2").reshape((32, 32))
 
 
+def _parse_sensor_id(tokens: Iterator[str]) -> str:
+    token = next(tokens)
+    if not token.strip().isdigit():
+        msg = f"Invalid sensor id: {token}"
+        raise ValueError(msg)
+    return token
+
+
 ParserType = Callable[[Iterator[str]], Any]
 
 
@@ -400,6 +415,7 @@ PARSERS: dict[str, ParserType] = {
     "V_power_supply": _parse_float,
     "_date": _parse_date,
     "_rain_accum": _parse_float,
+    "_sensor_id": _parse_sensor_id,
     "_rain_amount_absolute": _parse_float,
     "_time": _parse_time,
     "error_code": _parse_int,
@@ -428,6 +444,7 @@ EMPTY_VALUES: dict[ParserType, Any] = {
     _parse_datetime: datetime.datetime(2000, 1, 1),
     _parse_vector: np.zeros(32, dtype=float),
     _parse_spectrum: np.zeros((32, 32), dtype="i2"),
+    _parse_sensor_id: "",
 }
 
 
@@ -480,7 +497,9 @@ def _read_toa5(filename: str | PathLike) -> dict[str, list]:
         https://s.campbellsci.com/documents/us/manuals/cr1000.pdf
     """
     with open(filename, errors="ignore") as file:
-        reader = csv.reader(file)
+        # Records never span multiple lines, so unbalanced quotes in one line
+        # should not affect the following lines.
+        reader = (next(csv.reader([line]), []) for line in file)
         _origin_line = next(reader)
         header_line = next(reader)
         headers = [
@@ -521,17 +540,20 @@ def _read_toa5(filename: str | PathLike) -> dict[str, list]:
                         scalars[header] = int(value)
                     elif PARSERS.get(header) == _parse_float:
                         scalars[header] = float(value)
+                    elif header == "_sensor_id":
+                        scalars[header] = _parse_sensor_id(iter([value]))
                     else:
                         scalars[header] = value
+                spectrum = (
+                    _to_spectrum(arrays["spectrum"]) if "spectrum" in headers else None
+                )
             except ValueError:
                 n_invalid_rows += 1
                 continue
             for header, scalar in scalars.items():
                 data[header].append(scalar)
-            if "spectrum" in headers:
-                data["spectrum"].append(
-                    np.array(arrays["spectrum"], dtype="i2").reshape((32, 32)),
-                )
+            if spectrum is not None:
+                data["spectrum"].append(spectrum)
             if "number_concentration" in headers:
                 data["number_concentration"].append(arrays["number_concentration"])
             if "fall_velocity" in headers:
@@ -598,17 +620,20 @@ def _read_pyatmoslogger_file(filename: str | PathLike) -> dict[str, list]:
                         scalars[header] = int(value)
                     elif PARSERS.get(header) == _parse_float:
                         scalars[header] = float(value)
+                    elif header == "_sensor_id":
+                        scalars[header] = _parse_sensor_id(iter([value]))
                     else:
                         scalars[header] = value
+                spectrum = (
+                    _to_spectrum(arrays["spectrum"]) if "spectrum" in headers else None
+                )
             except ValueError:
                 n_invalid_rows += 1
                 continue
             for header, scalar in scalars.items():
                 data[header].append(scalar)
-            if "spectrum" in headers:
-                data["spectrum"].append(
-                    np.array(arrays["spectrum"], dtype="i2").reshape((32, 32)),
-                )
+            if spectrum is not None:
+                data["spectrum"].append(spectrum)
             if "number_concentration" in headers:
                 data["number_concentration"].append(arrays["number_concentration"])
             if "fall_velocity" in headers:
@@ -656,13 +681,21 @@ def _read_fmi(content: str) -> dict[str, list]:
     output: dict[str, list] = {"_datetime": []}
     for m in re.finditer(
         r"\[(?P<year>\d+)-(?P<month>\d+)-(?P<day>\d+) "
-        r"(?P<hour>\d+):(?P<minute>\d+):(?P<second>\d+)"
-        r"(?P<output>[^\]]*)\]",
+        r"(?P<hour>\d+):(?P<minute>\d+):(?P<second>\d+)\s"
+        r"(?P<output>[^\[\]]*)\]",
         content,
     ):
         try:
             record = _read_typ_op4a(m["output"].splitlines())
-        except ValueError:
+            timestamp = datetime.datetime(
+                int(m["year"]),
+                int(m["month"]),
+                int(m["day"]),
+                int(m["hour"]),
+                int(m["minute"]),
+                int(m["second"]),
+            )
+        except (ValueError, StopIteration):
             continue
 
         for key, value in record.items():
@@ -673,16 +706,7 @@ def _read_fmi(content: str) -> dict[str, list]:
             if key not in record and key != "_datetime":
                 output[key].append(None)
 
-        output["_datetime"].append(
-            datetime.datetime(
-                int(m["year"]),
-                int(m["month"]),
-                int(m["day"]),
-                int(m["hour"]),
-                int(m["minute"]),
-                int(m["second"]),
-            )
-        )
+        output["_datetime"].append(timestamp)
     return output
 
 
-- 
2.43.0


From ff704518c40b41217afe9b966b88bc7ff17feeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:48 +0000
Subject: [PATCH 041/100] fix: skip damaged records of rain gauge data

---
 cloudnetpy/instruments/rain_e_h3.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/cloudnetpy/instruments/rain_e_h3.py b/cloudnetpy/instruments/rain_e_h3.py
index acdd0e6..c293a62 100644
--- a/cloudnetpy/instruments/rain_e_h3.py
+++ b/cloudnetpy/instruments/rain_e_h3.py
@@ -67,7 +67,9 @@ class RainEH3(CSVFile):
         self, filepath: str | PathLike, date: datetime.date | None = None
     ) -> None:
         with open(filepath, encoding="latin1") as f:
-            data = list(csv.reader(f, delimiter=";"))
+            # Records never span multiple lines, so unbalanced quotes in one line
+            # should not affect the following lines.
+            data = [next(csv.reader([line], delimiter=";"), []) for line in f]
         n_values = np.median([len(row) for row in data]).astype(int)
 
         if n_values == 22:
@@ -112,9 +114,14 @@ class RainEH3(CSVFile):
                 continue
             if date and date != dt.date():
                 continue
+            try:
+                rainfall_rate = float(row[2])
+                rainfall_amount = float(row[3])
+            except ValueError:
+                continue
             self._data["time"].append(dt)
-            self._data["rainfall_rate"].append(float(row[2]))
-            self._data["rainfall_amount"].append(float(row[3]))
+            self._data["rainfall_rate"].append(rainfall_rate)
+            self._data["rainfall_amount"].append(rainfall_amount)
         if not self._data["time"]:
             raise ValidTimeStampError
 
@@ -156,9 +163,14 @@ class RainEH3(CSVFile):
                 continue
             if date and date != dt.date():
                 continue
+            try:
+                rainfall_rate = float(row[3])
+                rainfall_amount = float(row[4])
+            except ValueError:
+                continue
             self._data["time"].append(dt)
-            self._data["rainfall_rate"].append(float(row[3]))
-            self._data["rainfall_amount"].append(float(row[4]))
+            self._data["rainfall_rate"].append(rainfall_rate)
+            self._data["rainfall_amount"].append(rainfall_amount)
             self.serial_number = row[18]
         if not self._data["time"]:
             raise ValidTimeStampError
-- 
2.43.0


From 732a69552ada62bfc0f9abf4c4fa65c345977584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:48 +0000
Subject: [PATCH 042/100] fix: skip damaged records of FD12P data

---
 cloudnetpy/instruments/fd12p.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/instruments/fd12p.py b/cloudnetpy/instruments/fd12p.py
index 6b21481..5647c15 100644
--- a/cloudnetpy/instruments/fd12p.py
+++ b/cloudnetpy/instruments/fd12p.py
@@ -80,7 +80,7 @@ class FD12P(CSVFile):
     ) -> None:
         # In Lindenberg, format is date and time followed by Message 2 without
         # non-printable characters.
-        with open(filename) as file:
+        with open(filename, errors="replace") as file:
             invalid_lines = 0
             for line in file:
                 try:
@@ -168,7 +168,11 @@ def _parse_time(time: str) -> datetime.time:
 def _parse_int(value: str) -> float:
     if "/" in value:
         return math.nan
-    return int(value)
+    parsed = int(value)
+    if abs(parsed) > np.iinfo(np.int32).max:
+        msg = f"Invalid value: {value}"
+        raise ValueError(msg)
+    return parsed
 
 
 def _parse_float(value: str) -> float:
-- 
2.43.0


From df8fd05167021fca7740fda5be3cabf2acd02617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:29 +0000
Subject: [PATCH 043/100] fix: require weak reflectivity in Galileo clutter
 mask

---
 cloudnetpy/instruments/galileo.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/instruments/galileo.py b/cloudnetpy/instruments/galileo.py
index a91323b..696f4d3 100644
--- a/cloudnetpy/instruments/galileo.py
+++ b/cloudnetpy/instruments/galileo.py
@@ -7,6 +7,7 @@ from tempfile import NamedTemporaryFile, TemporaryDirectory
 from uuid import UUID
 
 import numpy as np
+from numpy import ma
 
 from cloudnetpy import concat_lib, output, utils
 from cloudnetpy.instruments.instruments import GALILEO
@@ -131,10 +132,10 @@ class Galileo(ChilboltonRadar):
     def mask_clutter(self) -> None:
         # Only strong Z values are valid
         n_low_gates = 15
-        ind = np.where(self.data["Zh"][:, :n_low_gates] < -15) and np.where(
-            self.data["ldr"][:, :n_low_gates] > -5,
+        is_clutter = (self.data["Zh"][:, :n_low_gates] < -15) & (
+            self.data["ldr"][:, :n_low_gates] > -5
         )
-        self.data["v"].mask_indices(ind)
+        self.data["v"].mask_indices(np.where(ma.filled(is_clutter, fill_value=False)))
 
     def screen_negative_altitudes(self) -> None:
         range_var = self.data["range"][:]
-- 
2.43.0


From e77c65aada5d932ac7e20ad0312cfe40099963f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:29 +0000
Subject: [PATCH 044/100] fix: do not screen Galileo time axis when number of
 timestamps equals number of gates

---
 cloudnetpy/instruments/galileo.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cloudnetpy/instruments/galileo.py b/cloudnetpy/instruments/galileo.py
index 696f4d3..cf8f62b 100644
--- a/cloudnetpy/instruments/galileo.py
+++ b/cloudnetpy/instruments/galileo.py
@@ -145,10 +145,8 @@ class Galileo(ChilboltonRadar):
             raise ValueError(msg)
         if valid_idx.size == range_var.shape[0]:
             return
-        for arr in self.data.values():
-            if utils.isscalar(arr.data):
-                continue
-            if arr[:].shape[-1] == range_var.shape[0]:
+        for key, arr in self.data.items():
+            if key == "range" or (not utils.isscalar(arr.data) and arr.data.ndim == 2):
                 arr.data = arr[..., valid_idx]
 
 
-- 
2.43.0


From 7e24ae9c050ac811cf7eeafb11ee59c9e0d87e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:29 +0000
Subject: [PATCH 045/100] fix: do not alter wavelength of other PollyXT files
 when using another channel

---
 cloudnetpy/instruments/pollyxt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/pollyxt.py b/cloudnetpy/instruments/pollyxt.py
index 51247e5..f5b1b38 100644
--- a/cloudnetpy/instruments/pollyxt.py
+++ b/cloudnetpy/instruments/pollyxt.py
@@ -5,6 +5,7 @@ import glob
 import logging
 from collections import Counter
 from collections.abc import Sequence
+from dataclasses import replace
 from fnmatch import fnmatch
 from os import PathLike
 from uuid import UUID
@@ -202,7 +203,9 @@ class PollyXt(Ceilometer):
                             if self.instrument is None:
                                 msg = "No instrument defined"
                                 raise RuntimeError(msg)
-                            self.instrument.wavelength = float(channel)
+                            self.instrument = replace(
+                                self.instrument, wavelength=float(channel)
+                            )
                         return channel
         msg = "No functional pollyXT backscatter channels found"
         raise ValidTimeStampError(msg)
-- 
2.43.0


From ed75a9de966a7b8b1216fb8f02b9a11fe3965721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:53 +0000
Subject: [PATCH 046/100] fix: keep midnight as start of day unless it ends the
 timestamps

---
 cloudnetpy/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index 87a9de1..69f0ff8 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -46,7 +46,10 @@ def seconds2hours(time_in_seconds: npt.NDArray) -> npt.NDArray:
     seconds_since_midnight = np.mod(time_in_seconds, SEC_IN_DAY)
     fraction_hour = seconds_since_midnight / SEC_IN_HOUR
     if fraction_hour[-1] == 0:
-        fraction_hour[-1] = 24
+        # Last timestamp is the end of the day only if it ends the other timestamps.
+        seconds_before_last = time_in_seconds[-1] - np.array(time_in_seconds)
+        if np.all((seconds_before_last >= 0) & (seconds_before_last <= SEC_IN_DAY)):
+            fraction_hour[-1] = 24
     return fraction_hour
 
 
-- 
2.43.0


From f27d83eb7cb68278553b6899b713e740ebd7da79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:24 +0000
Subject: [PATCH 047/100] fix: sort profiles and remove duplicates in BOW-TIE
 radar data

---
 cloudnetpy/instruments/bowtie.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cloudnetpy/instruments/bowtie.py b/cloudnetpy/instruments/bowtie.py
index f975927..40ceafe 100644
--- a/cloudnetpy/instruments/bowtie.py
+++ b/cloudnetpy/instruments/bowtie.py
@@ -70,6 +70,9 @@ def bowtie2nc(
         bowtie.add_height()
         bowtie.convert_units()
         bowtie.fix_chirp_start_indices()
+        bowtie.broadcast_chirp_variables()
+        bowtie.sort_timestamps()
+        bowtie.remove_duplicate_timestamps()
         bowtie.test_if_all_masked()
         bowtie.add_correction_bits()
     attributes = output.add_time_attribute(ATTRIBUTES, bowtie.date)
@@ -84,6 +87,13 @@ class Bowtie(NcRadar):
         self.instrument = FMCW94
         self.date = self.get_date()
 
+    def broadcast_chirp_variables(self) -> None:
+        n_time = len(self.time)
+        for key in ("nyquist_velocity", "chirp_start_indices"):
+            array = self.data[key].data
+            if array.ndim == 1:
+                self.data[key].data = np.tile(array, (n_time, 1))
+
     def convert_units(self) -> None:
         self.data["lwp"].data *= G_TO_KG
         self.data["rainfall_rate"].data *= MM_H_TO_M_S
-- 
2.43.0


From 5b21b0553391f8a631161f8c5f941e21ee8724ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:15 +0000
Subject: [PATCH 048/100] fix: sort profiles and remove duplicates in lidar
 data without expected date

---
 cloudnetpy/instruments/ceilometer.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cloudnetpy/instruments/ceilometer.py b/cloudnetpy/instruments/ceilometer.py
index 60de970..1622f05 100644
--- a/cloudnetpy/instruments/ceilometer.py
+++ b/cloudnetpy/instruments/ceilometer.py
@@ -101,9 +101,20 @@ class Ceilometer:
             raise ValidTimeStampError(msg)
         if self.expected_date is not None:
             self.data = utils.screen_by_time(self.data, epoch, self.expected_date)
+        else:
+            self._sort_and_remove_duplicates()
         self.date = utils.seconds2date(self.data["time"][0], epoch=epoch).date()
         self.data["time"] = utils.seconds2hours(self.data["time"])
 
+    def _sort_and_remove_duplicates(self) -> None:
+        time = self.data["time"]
+        _, ind = np.unique(time, return_index=True)
+        for key, array in self.data.items():
+            if isinstance(array, np.ndarray) and utils.is_time_dependent(
+                key, array, len(time)
+            ):
+                self.data[key] = array[ind]
+
     def data_to_cloudnet_arrays(self, time_dtype: str = "f4") -> None:
         for key, array in self.data.items():
             if key == "time":
-- 
2.43.0


From 535c32e54838cc5d16a171acdeebfa960d5b50fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:42 +0000
Subject: [PATCH 049/100] fix: screen date, angles and duplicates of MRR-PRO
 data correctly

---
 cloudnetpy/instruments/mrr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/mrr.py b/cloudnetpy/instruments/mrr.py
index 6c9894d..527f51e 100644
--- a/cloudnetpy/instruments/mrr.py
+++ b/cloudnetpy/instruments/mrr.py
@@ -100,16 +100,18 @@ def mrr2nc(
         with MrrPro(input_file, site_meta) as mrr:
             mrr.init_data(keymap)
             mrr.fix_units()
+            mrr.add_zenith_angle()
             mrr.date = mrr.init_date()
             if date:
                 mrr.screen_by_date(date)
+                mrr.date = date
             mrr.add_time_and_range()
             mrr.fix_range()
             mrr.add_site_geolocation()
-            mrr.add_zenith_angle()
             mrr.add_radar_specific_variables()
             mrr.add_height()
             mrr.sort_timestamps()
+            mrr.remove_duplicate_timestamps()
         attributes = output.add_time_attribute(ATTRIBUTES, mrr.date)
         output.update_attributes(mrr.data, attributes)
         output.save_level1b(mrr, output_file, uuid)
-- 
2.43.0


From 01b64acc092e1dfa1e1b3669f3c1fd0382584b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:42 +0000
Subject: [PATCH 050/100] fix: report missing timestamps of expected date in
 weather radar data

---
 cloudnetpy/instruments/weather_radar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/instruments/weather_radar.py b/cloudnetpy/instruments/weather_radar.py
index 059f78a..fa68c3e 100644
--- a/cloudnetpy/instruments/weather_radar.py
+++ b/cloudnetpy/instruments/weather_radar.py
@@ -106,6 +106,8 @@ class WeatherRadar(CloudnetInstrument):
             self.date = self.raw_time[0].date()
         else:
             is_valid = [dt.date() == expected_date for dt in self.raw_time]
+            if not any(is_valid):
+                raise ValidTimeStampError
             self.raw_time = self.raw_time[is_valid]
             for key in self.raw_data:
                 self.raw_data[key] = self.raw_data[key][is_valid]
-- 
2.43.0


From fe9b0930f7e0bfa396cdbf57b0194a3462cf9488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:19 +0000
Subject: [PATCH 051/100] fix: do not screen PollyXT range when number of
 timestamps equals number of gates

---
 cloudnetpy/instruments/pollyxt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/pollyxt.py b/cloudnetpy/instruments/pollyxt.py
index f5b1b38..6c2e30b 100644
--- a/cloudnetpy/instruments/pollyxt.py
+++ b/cloudnetpy/instruments/pollyxt.py
@@ -185,7 +185,9 @@ class PollyXt(Ceilometer):
     def screen_completely_masked_profiles(self) -> None:
         valid_ind = ~np.all(np.ma.getmaskarray(self.data["beta_raw"]), axis=1)
         for key, item in self.data.items():
-            if isinstance(item, np.ndarray) and item.shape[0] == len(valid_ind):
+            if isinstance(item, np.ndarray) and utils.is_time_dependent(
+                key, item, len(valid_ind)
+            ):
                 self.data[key] = item[valid_ind]
 
     def _get_valid_beta_channel(self, files: list) -> str:
-- 
2.43.0


From 6390a4e8d3e92eadc745b4f71241dfa30f5abd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 052/100] fix: read RPG cloud radar data with a single chirp
 sequence

---
 cloudnetpy/instruments/rpg.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/rpg.py b/cloudnetpy/instruments/rpg.py
index 44faee6..70e8c2c 100644
--- a/cloudnetpy/instruments/rpg.py
+++ b/cloudnetpy/instruments/rpg.py
@@ -263,6 +263,14 @@ def _pad_chirp_related_fields(objects: list[Fmcw94Bin]) -> list[Fmcw94Bin]:
 
 
 def _expand_time_related_fields(objects: list[Fmcw94Bin]) -> list[Fmcw94Bin]:
+    chirp_keys = (
+        "number_of_spectral_samples",
+        "chirp_start_indices",
+        "number_of_averaged_chirps",
+        "integration_time",
+        "range_resolution",
+        "nyquist_velocity",
+    )
     for obj in objects:
         n_time = obj.data["time"].size
         for key in obj.header:
@@ -272,7 +280,7 @@ def _expand_time_related_fields(objects: list[Fmcw94Bin]) -> list[Fmcw94Bin]:
             # Handle outliers in latitude and longitude (e.g. Galati 2024-02-11):
             if key in ("latitude", "longitude"):
                 arr = ma.median(arr)
-            if utils.isscalar(arr):
+            if key not in chirp_keys and utils.isscalar(arr):
                 obj.header[key] = np.repeat(arr, n_time)
             else:
                 obj.header[key] = np.tile(arr, (n_time, 1))
-- 
2.43.0


From 7b41b312c84122fbcee1b89ddc46a9c5b6d9775c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 053/100] fix: read HATPRO files with a single sample

---
 cloudnetpy/instruments/rpg_reader.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/instruments/rpg_reader.py b/cloudnetpy/instruments/rpg_reader.py
index 6594155..19a73ea 100644
--- a/cloudnetpy/instruments/rpg_reader.py
+++ b/cloudnetpy/instruments/rpg_reader.py
@@ -226,7 +226,7 @@ class HatproBin:
 
     def _add_zenith_angle(self) -> None:
         ele, _azi = _decode_angles(self.data["_instrument_angles"], self.version)
-        self.data = rfn.append_fields(self.data, "zenith_angle", 90 - ele)
+        self.data = _append_field(self.data, "zenith_angle", 90 - ele)
 
 
 class HatproBinLwp(HatproBin):
@@ -319,7 +319,7 @@ class HatproBinCombined:
         elif len(files) == 2:
             f1, f2 = files
             arr = rfn.join_by("time", f1.data, f2.data, "outer")
-            arr = rfn.append_fields(
+            arr = _append_field(
                 arr,
                 "zenith_angle",
                 _combine_values(arr["zenith_angle1"], arr["zenith_angle2"]),
@@ -340,6 +340,20 @@ class HatproBinCombined:
         self.data = {field: arr[field] for field in arr.dtype.fields}
 
 
+def _append_field(
+    arr: ma.MaskedArray, name: str, values: npt.NDArray
+) -> ma.MaskedArray:
+    """Appends field to structured array.
+
+    Unlike rfn.append_fields, works also when the array has only one element.
+    """
+    out = ma.empty(arr.shape, dtype=[*arr.dtype.descr, (name, values.dtype)])
+    for field in arr.dtype.names:
+        out[field] = arr[field]
+    out[name] = values
+    return out
+
+
 def _combine_values(arr1: ma.MaskedArray, arr2: ma.MaskedArray) -> ma.MaskedArray:
     if not ma.allequal(arr1, arr2):
         msg = "Inconsistent values"
-- 
2.43.0


From 668cc2a8887da9684ab50b1254b5aaf899b95b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 054/100] fix: remove duplicate timestamps from radiometrics
 data

---
 cloudnetpy/instruments/radiometrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/radiometrics.py b/cloudnetpy/instruments/radiometrics.py
index ab1156b..0df53f8 100644
--- a/cloudnetpy/instruments/radiometrics.py
+++ b/cloudnetpy/instruments/radiometrics.py
@@ -348,6 +348,8 @@ class RadiometricsCombined:
 
     def screen_time(self, expected_date: datetime.date | None) -> None:
         """Screens timestamps."""
+        if len(self.data["time"]) == 0:
+            raise ValidTimeStampError
         if expected_date is None:
             self.date = self.data["time"][0].astype(object).date()
             return
@@ -361,7 +363,8 @@ class RadiometricsCombined:
             self.data[key] = self.data[key][valid_mask]
 
     def sort_timestamps(self) -> None:
-        ind = np.argsort(self.data["time"])
+        """Sorts timestamps and removes duplicates."""
+        _time, ind = np.unique(self.data["time"], return_index=True)
         for key in self.data:
             if key in ("range", "height"):
                 continue
-- 
2.43.0


From 389eb6cfeeb8190cbfc7b8caa9bd2d2b18dc50fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 055/100] fix: do not write ceilometer file without profiles if
 all are screened as sunbeam

---
 cloudnetpy/instruments/ceilometer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/instruments/ceilometer.py b/cloudnetpy/instruments/ceilometer.py
index 1622f05..f7b57e9 100644
--- a/cloudnetpy/instruments/ceilometer.py
+++ b/cloudnetpy/instruments/ceilometer.py
@@ -162,6 +162,9 @@ class Ceilometer:
         reshaped = is_data[:, : bin_size * n_bins].reshape(n_profiles, n_bins, bin_size)
 
         valid_profiles = np.any(reshaped, axis=2).sum(axis=1) < 15
+        if not np.any(valid_profiles):
+            msg = "All profiles screened as sunbeam"
+            raise ValidTimeStampError(msg)
 
         for key, value in self.data.items():
             if key == "time" or (isinstance(value, np.ndarray) and value.ndim == 2):
-- 
2.43.0


From 02a21464128e25745fd2bd48f86223a9d58815b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 056/100] fix: do not let missing lidar values disturb the
 screening of other pixels

---
 cloudnetpy/instruments/ceilo.py      |  1 +
 cloudnetpy/instruments/ceilometer.py | 13 ++++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/instruments/ceilo.py b/cloudnetpy/instruments/ceilo.py
index b9520f2..2f2aa0a 100644
--- a/cloudnetpy/instruments/ceilo.py
+++ b/cloudnetpy/instruments/ceilo.py
@@ -101,6 +101,7 @@ def ceilo2nc(
     else:
         ceilo_obj.read_ceilometer_file(calibration_factor)
         ceilo_obj.check_beta_raw_shape()
+        ceilo_obj.screen_invalid_values()
         n_negatives = _get_n_negatives(ceilo_obj)
         ceilo_obj.data["beta"] = ceilo_obj.calc_screened_product(
             ceilo_obj.data["beta_raw"],
diff --git a/cloudnetpy/instruments/ceilometer.py b/cloudnetpy/instruments/ceilometer.py
index f7b57e9..2658c4e 100644
--- a/cloudnetpy/instruments/ceilometer.py
+++ b/cloudnetpy/instruments/ceilometer.py
@@ -68,12 +68,17 @@ class Ceilometer:
             range_corrected=range_corrected,
             instrument=self.instrument,
         )
-        beta_raw = ma.copy(self.data["beta_raw"])
-        cloud_ind, cloud_values, cloud_limit = _estimate_clouds_from_beta(beta)
+        # Missing values must not spread to the neighbouring pixels
+        mask = ma.getmaskarray(self.data["beta_raw"])
+        beta_raw = ma.filled(self.data["beta_raw"], 0).copy()
+        cloud_ind, cloud_values, cloud_limit = _estimate_clouds_from_beta(
+            np.where(mask, 0, ma.filled(beta, 0))
+        )
         beta_raw[cloud_ind] = cloud_limit
         sigma = calc_sigma_units(self.data["time"], self.data["range"])
         beta_raw_smooth = gaussian_filter(beta_raw, sigma)
         beta_raw_smooth[cloud_ind] = cloud_values
+        beta_raw_smooth = ma.array(beta_raw_smooth, mask=mask)
         return noisy_data.screen_data(
             beta_raw_smooth,
             is_smoothed=True,
@@ -243,7 +248,9 @@ class NoisyData:
         n_gates: int = 95,
         n_skip_lowest: int = 5,
     ) -> npt.NDArray:
-        negative_data = data[:, n_skip_lowest : n_gates + n_skip_lowest] < 0
+        negative_data = ma.filled(
+            data[:, n_skip_lowest : n_gates + n_skip_lowest] < 0, fill_value=False
+        )
         n_consequent_negatives = utils.cumsumr(negative_data, axis=1)
         time_indices, alt_indices = np.where(n_consequent_negatives > n_negatives)
         alt_indices += n_skip_lowest
-- 
2.43.0


From aa060315d1d63346a6058132151dbe7662c517e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 057/100] fix: screen CL61 depolarisation also when data are
 not range-corrected

---
 cloudnetpy/instruments/ceilo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/instruments/ceilo.py b/cloudnetpy/instruments/ceilo.py
index 2f2aa0a..2353091 100644
--- a/cloudnetpy/instruments/ceilo.py
+++ b/cloudnetpy/instruments/ceilo.py
@@ -128,8 +128,11 @@ def ceilo2nc(
             mask = ceilo_obj.data["beta_smooth"].mask
             ceilo_obj.data["beta"] = ma.masked_where(mask, ceilo_obj.data["beta_raw"])
             ceilo_obj.data["beta"][ceilo_obj.data["beta"] <= 0] = ma.masked
-            if "depolarisation" in ceilo_obj.data:
-                ceilo_obj.data["depolarisation"].mask = ceilo_obj.data["beta"].mask
+        if "depolarisation" in ceilo_obj.data:
+            ceilo_obj.data["depolarisation"] = ma.masked_where(
+                ma.getmaskarray(ceilo_obj.data["beta"]),
+                ceilo_obj.data["depolarisation"],
+            )
     ceilo_obj.screen_depol()
     ceilo_obj.screen_invalid_values()
     ceilo_obj.screen_sunbeam()
-- 
2.43.0


From 5e4abb8d0b36097f531d298f0d22c78aec08ac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 058/100] fix: wrap longitudes of site coordinates to -180..180

---
 cloudnetpy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index 69f0ff8..169fe38 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -1189,7 +1189,7 @@ def add_site_geolocation(
     if "latitude" in tmp_data and "longitude" in tmp_data:
         lat = np.atleast_1d(tmp_data["latitude"])
         lon = np.atleast_1d(tmp_data["longitude"])
-        lon[lon > 180] - 360
+        lon = ma.where(lon > 180, lon - 360, lon)
         if _are_stationary(lat, lon):
             tmp_data["latitude"] = float(ma.mean(lat))
             tmp_data["longitude"] = float(ma.mean(lon))
-- 
2.43.0


From ed28a5576f28698fcf96e09d655f477867ed2d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 059/100] fix: keep sign of coordinates in global attributes

---
 cloudnetpy/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index 169fe38..4a8fec2 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -1213,14 +1213,20 @@ def add_site_geolocation(
 
 
 def _parse_global_attribute_numeral(dataset: netCDF4.Dataset, key: str) -> float | None:
-    new_str = ""
     attr = getattr(dataset, key)
+    if not isinstance(attr, str):
+        return float(attr)
     if attr == "Unknown":
         return None
+    new_str = ""
     for char in attr:
         if char.isdigit() or char == ".":
             new_str += char
-    return float(new_str)
+    value = float(new_str)
+    is_negative = attr.strip().startswith("-") or (
+        key in ("Latitude", "Longitude") and attr.strip().endswith(("S", "W"))
+    )
+    return -value if is_negative else value
 
 
 def _are_stationary(latitude: npt.NDArray, longitude: npt.NDArray) -> bool:
-- 
2.43.0


From 3db8183f5980bc4af9656f1902d30e66c7aab64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 060/100] fix: do not write unknown GPS position as zeros

---
 cloudnetpy/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index 4a8fec2..1965f21 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -1159,6 +1159,9 @@ def add_site_geolocation(
             ):
                 value = ma.masked_where(values == 0, values)
                 source = "GPS"
+            else:
+                # Position is not known: don't leave it as zeros.
+                data.pop(key, None)
         # User-supplied site coordinate.
         if value is None and site_meta is not None and key in site_meta:
             value = np.array(float(site_meta[key]))
-- 
2.43.0


From 77f1a23e84a1264eb3a4d70587e38c8d1a1dd60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:33 +0000
Subject: [PATCH 061/100] fix: use zenith angle given in site metadata of
 PollyXT

---
 cloudnetpy/instruments/pollyxt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/pollyxt.py b/cloudnetpy/instruments/pollyxt.py
index 6c2e30b..d199528 100644
--- a/cloudnetpy/instruments/pollyxt.py
+++ b/cloudnetpy/instruments/pollyxt.py
@@ -104,7 +104,7 @@ class PollyXt(Ceilometer):
 
     def fetch_zenith_angle(self) -> None:
         default = 5
-        self.data["zenith_angle"] = float(self.metadata.get("zenith_angle", default))
+        self.data["zenith_angle"] = float(self.site_meta.get("zenith_angle", default))
 
     def fetch_data(
         self, input_data: str | PathLike | Sequence[str | PathLike]
-- 
2.43.0


From 580d1882da52191af19763a80958ee6aeb74c12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 062/100] fix: wrap longitude also without latitude and do not
 read unknown GPS position from raw data

---
 cloudnetpy/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index 1965f21..18519f9 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -1170,6 +1170,7 @@ def add_site_geolocation(
         # Assume value is manually set, so cannot trust it.
         if (
             value is None
+            and (not gps or key == "altitude")
             and isinstance(dataset, netCDF4.Dataset)
             and key in dataset.variables
             and not np.all(ma.getmaskarray(dataset[key][:]))
@@ -1186,13 +1187,14 @@ def add_site_geolocation(
             value = _parse_global_attribute_numeral(dataset, key.capitalize())
             source = "raw file"
         if value is not None:
+            if key == "longitude":
+                value = ma.where(np.greater(value, 180), value - 360, value)
             tmp_data[key] = value
             tmp_source[key] = source
 
     if "latitude" in tmp_data and "longitude" in tmp_data:
         lat = np.atleast_1d(tmp_data["latitude"])
         lon = np.atleast_1d(tmp_data["longitude"])
-        lon = ma.where(lon > 180, lon - 360, lon)
         if _are_stationary(lat, lon):
             tmp_data["latitude"] = float(ma.mean(lat))
             tmp_data["longitude"] = float(ma.mean(lon))
-- 
2.43.0


From cecf2b2fea8bb35cf23212d254365ae65fbac4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 063/100] fix: calculate lidar epsilon also without missing
 values

---
 cloudnetpy/products/epsilon_lidar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cloudnetpy/products/epsilon_lidar.py b/cloudnetpy/products/epsilon_lidar.py
index b4c28f4..07a9667 100644
--- a/cloudnetpy/products/epsilon_lidar.py
+++ b/cloudnetpy/products/epsilon_lidar.py
@@ -9,6 +9,7 @@ import numpy as np
 import numpy.typing as npt
 import scipy.constants
 from doppy.product.turbulence import HorizontalWind, Options, Turbulence, VerticalWind
+from numpy import ma
 from scipy.interpolate import LinearNDInterpolator, NearestNDInterpolator
 
 import cloudnetpy
@@ -129,8 +130,8 @@ def _horizontal_wind_from_doppler_lidar_file(
         height = np.array(nc["height"][:].data, dtype=np.float64)
         uwind = np.array(nc["uwind"][:].data, dtype=np.float64)
         vwind = np.array(nc["vwind"][:].data, dtype=np.float64)
-        umask = np.array(nc["uwind"][:].mask, dtype=np.bool_)
-        vmask = np.array(nc["vwind"][:].mask, dtype=np.bool_)
+        umask = ma.getmaskarray(nc["uwind"][:])
+        vmask = ma.getmaskarray(nc["vwind"][:])
         V = np.sqrt(uwind**2 + vwind**2)
         mask = umask | vmask
         if np.all(mask):
@@ -191,8 +192,8 @@ def _vertical_wind_from_doppler_lidar_file(
         time = _datetime64_from_nc_var(nc["time"])
         height = np.array(nc["height"][:].data, dtype=np.float64)
         w = np.array(nc["v"][:].data, dtype=np.float64)
-        mask = np.array(nc["v"][:].mask, dtype=np.bool_)
-    if isinstance(mask, np.ndarray) and mask.any():
+        mask = ma.getmaskarray(nc["v"][:])
+    if mask.any():
         w[mask] = np.nan
 
     return VerticalWind(time=time, height=height, w=w, mask=mask)
-- 
2.43.0


From 42801806e61f032b5809d343a191a9f7b5319b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 064/100] fix: interpolate horizontal wind of lidar epsilon
 accurately

---
 cloudnetpy/products/epsilon_lidar.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cloudnetpy/products/epsilon_lidar.py b/cloudnetpy/products/epsilon_lidar.py
index 07a9667..6285199 100644
--- a/cloudnetpy/products/epsilon_lidar.py
+++ b/cloudnetpy/products/epsilon_lidar.py
@@ -136,16 +136,20 @@ def _horizontal_wind_from_doppler_lidar_file(
         mask = umask | vmask
         if np.all(mask):
             raise ValidTimeStampError
-        t = np.broadcast_to(time[:, None], mask.shape)[~mask]
+        # Use relative time and rescaling because interpolation loses precision if
+        # coordinates are very large or their magnitudes are very different.
+        seconds = (time - time[0]) / np.timedelta64(1, "s")
+        t = np.broadcast_to(seconds[:, None], mask.shape)[~mask]
         h = np.broadcast_to(height[None, :], mask.shape)[~mask]
 
         if len(np.unique(t)) < 3 or len(np.unique(h)) < 3:
             msg = "Not enough unique values for interpolation"
             raise ValidTimeStampError(msg)
 
-        interp_linear = LinearNDInterpolator(list(zip(t, h, strict=True)), V[~mask])
-        interp_nearest = NearestNDInterpolator(list(zip(t, h, strict=True)), V[~mask])
-        T, H = np.meshgrid(time, height, indexing="ij")
+        points = list(zip(t, h, strict=True))
+        interp_linear = LinearNDInterpolator(points, V[~mask], rescale=True)
+        interp_nearest = NearestNDInterpolator(points, V[~mask], rescale=True)
+        T, H = np.meshgrid(seconds, height, indexing="ij")
         V_linear = interp_linear(T, H)
         V_nearest = interp_nearest(T, H)
         isnan = np.isnan(V_linear)
-- 
2.43.0


From 57d4c41d91cd861b55b957299216872f1043c3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 065/100] fix: keep order of sources in lidar epsilon file

---
 cloudnetpy/products/epsilon_lidar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/epsilon_lidar.py b/cloudnetpy/products/epsilon_lidar.py
index 6285199..cbc56cd 100644
--- a/cloudnetpy/products/epsilon_lidar.py
+++ b/cloudnetpy/products/epsilon_lidar.py
@@ -100,7 +100,7 @@ def generate_epsilon_from_lidar(
             nc_src_stare, nc_out, ("latitude", "longitude", "altitude", "source")
         )
         nc_out.source_file_uuids = f"{nc_src_stare.file_uuid}, {nc_src_wind.file_uuid}"
-        sources = {nc_src_stare.source, nc_src_wind.source}
+        sources = dict.fromkeys((nc_src_stare.source, nc_src_wind.source))
         nc_out.source = ", ".join(sources)
         history = (
             f"{get_time()} - epsilon-lidar file created using doppy "
-- 
2.43.0


From 20424e3cd7beb6909b20ec22e25663ca8b33fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:46 +0000
Subject: [PATCH 066/100] fix: compare model and observations at same heights
 in L3 products

---
 cloudnetpy/model_evaluation/products/advance_methods.py | 9 ++++++++-
 cloudnetpy/model_evaluation/products/grid_methods.py    | 8 +++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/model_evaluation/products/advance_methods.py b/cloudnetpy/model_evaluation/products/advance_methods.py
index 906a1cc..0a000b2 100644
--- a/cloudnetpy/model_evaluation/products/advance_methods.py
+++ b/cloudnetpy/model_evaluation/products/advance_methods.py
@@ -104,8 +104,15 @@ class AdvanceProductMethods:
         if self._obs_obj.height is None:
             msg = "No height in observation file"
             raise ValueError(msg)
+        # Model heights are above the model's own surface but observation heights
+        # are above mean sea level.
+        h_amsl = h + cl_tools.get_model_surface_altitude(
+            self._model_obj.dataset, self._obs_obj.altitude or 0
+        )
         z_sen = [
-            cl_tools.rebin_1d(self._obs_obj.height, self._obs_obj.z_sensitivity, h[i])
+            cl_tools.rebin_1d(
+                self._obs_obj.height, self._obs_obj.z_sensitivity, h_amsl[i]
+            )
             for i in range(len(h))
         ]
         return np.asarray(z_sen)
diff --git a/cloudnetpy/model_evaluation/products/grid_methods.py b/cloudnetpy/model_evaluation/products/grid_methods.py
index 364209d..71c3122 100644
--- a/cloudnetpy/model_evaluation/products/grid_methods.py
+++ b/cloudnetpy/model_evaluation/products/grid_methods.py
@@ -29,6 +29,12 @@ class ProductGrid:
         self.model_obj = model_obj
         self._model_time = model_obj.time
         self._model_height = model_obj.data[model_obj.keys["height"]][:]
+        # Model heights are above the model's own surface but observation heights
+        # are above mean sea level.
+        surface_altitude = utils.get_model_surface_altitude(
+            model_obj.dataset, obs_obj.altitude or 0
+        )
+        self._model_height_amsl = self._model_height + surface_altitude
         self._time_adv = tl.calculate_advection_time(
             model_obj.resolution_h,
             ma.array(model_obj.wind),
@@ -49,7 +55,7 @@ class ProductGrid:
                 (self._time_steps[i], self._time_steps[i + 1]),
                 self._obs_time,
             )
-            y_steps = tl.rebin_edges(self._model_height[i])
+            y_steps = tl.rebin_edges(self._model_height_amsl[i])
             for j in range(len(y_steps) - 1):
                 x_ind_adv = tl.get_adv_indices(
                     model_t[i],
-- 
2.43.0


From 2c9c339a0b3cebe32590a42d1b10304fb9e2f120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 067/100] fix: mask L3 cloud fraction where there are no
 observations

---
 .../model_evaluation/products/grid_methods.py   | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cloudnetpy/model_evaluation/products/grid_methods.py b/cloudnetpy/model_evaluation/products/grid_methods.py
index 71c3122..be3b8eb 100644
--- a/cloudnetpy/model_evaluation/products/grid_methods.py
+++ b/cloudnetpy/model_evaluation/products/grid_methods.py
@@ -70,16 +70,20 @@ class ProductGrid:
                 ind_avd = np.outer(x_ind_adv, y_ind)
                 if self._obs_obj.product == "cf":
                     data = self._reshape_data_to_window(ind, x_ind, y_ind)
-                    if data is None:
-                        continue
-                    product_dict = self._regrid_cf(product_dict, i, j, data)
+                    # No observations in the window: the value is not known.
+                    if data is not None:
+                        product_dict = self._regrid_cf(product_dict, i, j, data)
+                    else:
+                        self._mask_cell(product_dict, i, j)
                     data_adv = self._reshape_data_to_window(ind_avd, x_ind_adv, y_ind)
                     # No advection window data (e.g. masked model wind collapses
-                    # the window); leave the cell unfilled like the standard grid.
+                    # the window).
                     if data_adv is not None:
                         product_adv_dict = self._regrid_cf(
                             product_adv_dict, i, j, data_adv
                         )
+                    else:
+                        self._mask_cell(product_adv_dict, i, j)
                 else:
                     product_dict = self._regrid_product(product_dict, i, j, ind)
                     product_adv_dict = self._regrid_product(
@@ -125,6 +129,11 @@ class ProductGrid:
             return self._obs_data[ind].reshape(window_size)
         return None
 
+    @staticmethod
+    def _mask_cell(storage: dict, i: int, j: int) -> None:
+        for downsample in storage.values():
+            downsample[i, j] = ma.masked
+
     @staticmethod
     def _regrid_cf(storage: dict, i: int, j: int, data: npt.NDArray) -> dict:
         """Calculates average cloud fraction value to grid point."""
-- 
2.43.0


From 2e8f07eec18a9d8ddc9dc23ed6e6ee573bb451e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 068/100] fix: mask cirrus cloud fraction where its
 distribution is not known

---
 cloudnetpy/model_evaluation/products/advance_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/model_evaluation/products/advance_methods.py b/cloudnetpy/model_evaluation/products/advance_methods.py
index 0a000b2..3498fe4 100644
--- a/cloudnetpy/model_evaluation/products/advance_methods.py
+++ b/cloudnetpy/model_evaluation/products/advance_methods.py
@@ -67,7 +67,7 @@ class AdvanceProductMethods:
 
             p_iwc = self.gamma_distribution(iwc_dist, variance_iwc[i], cloud_iwc[i])
 
-            if np.isinf(p_iwc).any():
+            if not np.isfinite(p_iwc).all():
                 cf_filtered[ind] = ma.masked
                 continue
 
-- 
2.43.0


From 62aa07d01a3641f22dc54ee6ddc8ec500c8f98d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 069/100] fix: calculate vertical wind shear along height in
 cirrus filter

---
 cloudnetpy/model_evaluation/products/advance_methods.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/model_evaluation/products/advance_methods.py b/cloudnetpy/model_evaluation/products/advance_methods.py
index 3498fe4..e35e88d 100644
--- a/cloudnetpy/model_evaluation/products/advance_methods.py
+++ b/cloudnetpy/model_evaluation/products/advance_methods.py
@@ -164,7 +164,10 @@ class AdvanceProductMethods:
         v = self._model_obj.getvar("vwind")
         u = self.remove_extra_levels(u)
         v = self.remove_extra_levels(v)
-        w_shear = self.calculate_wind_shear(self._model_obj.wind, u, v, height)
+        # Model arrays have dimensions (time, level) but shear is vertical.
+        w_shear = self.calculate_wind_shear(
+            self._model_obj.wind.T, u.T, v.T, height.T
+        ).T
         return self.calculate_variance_iwc(w_shear, ice_ind)
 
     def calculate_variance_iwc(
-- 
2.43.0


From 05a2325f4ef77c764c6fcd376cca7438ce511a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:26 +0000
Subject: [PATCH 070/100] fix: include history of the observation file in L3
 files

---
 cloudnetpy/model_evaluation/file_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/model_evaluation/file_handler.py b/cloudnetpy/model_evaluation/file_handler.py
index e4e132a..4704a6e 100644
--- a/cloudnetpy/model_evaluation/file_handler.py
+++ b/cloudnetpy/model_evaluation/file_handler.py
@@ -90,7 +90,9 @@ def save_downsampled_file(
         root_group.location = location
         if not hasattr(model_obj.dataset, "day"):
             root_group.year, root_group.month, root_group.day = model_obj.date
-        output.merge_history(root_group, f"L3 {product_name}", model_obj)
+        output.merge_history(
+            root_group, f"L3 {product_name}", model_obj, extra_sources=(obs_obj,)
+        )
 
 
 def _augment_global_attributes(root_group: netCDF4.Dataset) -> None:
-- 
2.43.0


From a03c39399951188048956669bf46d62850dad28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:42 +0000
Subject: [PATCH 071/100] fix: accept horizontal resolution given for each
 model time step

---
 cloudnetpy/model_evaluation/products/model_products.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/model_evaluation/products/model_products.py b/cloudnetpy/model_evaluation/products/model_products.py
index 2e93476..c2a08d2 100644
--- a/cloudnetpy/model_evaluation/products/model_products.py
+++ b/cloudnetpy/model_evaluation/products/model_products.py
@@ -171,6 +171,8 @@ class ModelManager(DataSource):
             data = ncvar[:]
             if LEVEL_DIMENSION in ncvar.dimensions:
                 data = self.cut_off_extra_levels(data)
+            if var == "horizontal_resolution" and data.ndim > 0:
+                data = ma.array(self._get_horizontal_resolution())
             self.append_data(data, key)
 
         for var in COMMON_VARIABLES:
-- 
2.43.0


From 790333a82f5f29eaae98d0da9c3390c540f5ff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:44 +0000
Subject: [PATCH 072/100] fix: close and remove output file if writing fails

---
 cloudnetpy/output.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/cloudnetpy/output.py b/cloudnetpy/output.py
index 71669d6..4aca9ae 100644
--- a/cloudnetpy/output.py
+++ b/cloudnetpy/output.py
@@ -2,8 +2,11 @@
 
 import datetime
 import logging
+from collections.abc import Iterator
+from contextlib import contextmanager
 from dataclasses import fields
 from os import PathLike
+from pathlib import Path
 from uuid import UUID
 
 import netCDF4
@@ -296,14 +299,17 @@ def add_source_instruments(nc: netCDF4.Dataset, data: Observations) -> None:
         nc.source_instrument_pids = "\n".join(sorted(source_pids))
 
 
+@contextmanager
 def init_file(
     file_name: PathLike | str,
     dimensions: dict,
     cloudnet_arrays: dict,
     uuid: UUID,
-) -> netCDF4.Dataset:
+) -> Iterator[netCDF4.Dataset]:
     """Initializes a Cloudnet file for writing.
 
+    The file is closed on exit, and removed if writing it fails.
+
     Args:
         file_name: File name to be generated.
         dimensions: Dictionary containing dimension for this file.
@@ -311,12 +317,16 @@ def init_file(
         uuid: Set specific UUID for the file.
 
     """
-    nc = netCDF4.Dataset(file_name, "w", format="NETCDF4_CLASSIC")
-    for key, dimension in dimensions.items():
-        nc.createDimension(key, dimension)
-    _write_vars2nc(nc, cloudnet_arrays)
-    add_standard_global_attributes(nc, uuid)
-    return nc
+    with netCDF4.Dataset(file_name, "w", format="NETCDF4_CLASSIC") as nc:
+        try:
+            for key, dimension in dimensions.items():
+                nc.createDimension(key, dimension)
+            _write_vars2nc(nc, cloudnet_arrays)
+            add_standard_global_attributes(nc, uuid)
+            yield nc
+        except BaseException:
+            Path(file_name).unlink(missing_ok=True)
+            raise
 
 
 def copy_variables(
-- 
2.43.0


From 7d2f284e53f328c55cebf51c1d6b2ad4034fc8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 073/100] fix: close input file of failed data sources

---
 cloudnetpy/datasource.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudnetpy/datasource.py b/cloudnetpy/datasource.py
index a8e6176..21045d8 100644
--- a/cloudnetpy/datasource.py
+++ b/cloudnetpy/datasource.py
@@ -133,6 +133,12 @@ class DataSource:
         """Closes the open file."""
         self.dataset.close()
 
+    def __del__(self) -> None:
+        # Failed constructors never get to a context manager
+        dataset = getattr(self, "dataset", None)
+        if dataset is not None and dataset.isopen():
+            dataset.close()
+
     @staticmethod
     def to_m(var: netCDF4.Variable) -> npt.NDArray:
         """Converts km to m."""
-- 
2.43.0


From 830cbb66b88dadc3801bd1e1727da35da46847ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 074/100] fix: remove output file if writing epsilon-lidar
 fails

---
 cloudnetpy/products/epsilon_lidar.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/products/epsilon_lidar.py b/cloudnetpy/products/epsilon_lidar.py
index cbc56cd..70c3eee 100644
--- a/cloudnetpy/products/epsilon_lidar.py
+++ b/cloudnetpy/products/epsilon_lidar.py
@@ -32,6 +32,25 @@ def generate_epsilon_from_lidar(
     hori = _horizontal_wind_from_doppler_lidar_file(doppler_lidar_wind_file)
     turb = Turbulence.from_winds(vert, hori, opts)
 
+    try:
+        _write_file(
+            turb, opts, doppler_lidar_file, doppler_lidar_wind_file, output_file, uuid
+        )
+    except BaseException:
+        if Path(output_file).is_file():
+            Path(output_file).unlink()
+        raise
+    return uuid
+
+
+def _write_file(
+    turb: Turbulence,
+    opts: Options,
+    doppler_lidar_file: str | PathLike,
+    doppler_lidar_wind_file: str | PathLike,
+    output_file: str | PathLike,
+    uuid: UUID,
+) -> None:
     with (
         netCDF4.Dataset(Path(doppler_lidar_file), "r") as nc_src,
         doppy.netcdf.Dataset(Path(output_file), format="NETCDF4_CLASSIC") as nc,
@@ -113,7 +132,6 @@ def generate_epsilon_from_lidar(
         )
         nc_out.history = history
         nc_out.references = "https://doi.org/10.1175/2010JTECHA1455.1"
-    return uuid
 
 
 def copy_attributes_from_src(src: str | PathLike, trg: str | PathLike) -> None:
-- 
2.43.0


From 3831a3026715d8177909aff96cef2118369aaf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:08 +0000
Subject: [PATCH 075/100] fix: compute day statistics without changing their
 input arrays

---
 .../model_evaluation/plotting/plotting.py     |  7 +++-
 .../statistics/statistical_methods.py         | 42 ++++++++++++-------
 2 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/cloudnetpy/model_evaluation/plotting/plotting.py b/cloudnetpy/model_evaluation/plotting/plotting.py
index 936b98b..6c708e6 100644
--- a/cloudnetpy/model_evaluation/plotting/plotting.py
+++ b/cloudnetpy/model_evaluation/plotting/plotting.py
@@ -19,7 +19,10 @@ from numpy import ma
 
 import cloudnetpy.model_evaluation.plotting.plot_tools as p_tools
 from cloudnetpy.model_evaluation.plotting.plot_meta import ATTRIBUTES, PlotMeta
-from cloudnetpy.model_evaluation.statistics.statistical_methods import DayStatistics
+from cloudnetpy.model_evaluation.statistics.statistical_methods import (
+    DayStatistics,
+    mask_missing_data,
+)
 from cloudnetpy.plotting.plotting import (
     Dimensions,
     add_subtitle,
@@ -420,7 +423,7 @@ def plot_data_area(
     *,
     title: bool = True,
 ) -> None:
-    data = p_tools.create_segment_values(model, obs)
+    data = p_tools.create_segment_values(*mask_missing_data(model, obs))
 
     colors = mpl.colormaps["YlGnBu"]
     newcolors = colors(np.linspace(0, 1, 256))
diff --git a/cloudnetpy/model_evaluation/statistics/statistical_methods.py b/cloudnetpy/model_evaluation/statistics/statistical_methods.py
index e29e1e3..d77db39 100644
--- a/cloudnetpy/model_evaluation/statistics/statistical_methods.py
+++ b/cloudnetpy/model_evaluation/statistics/statistical_methods.py
@@ -102,6 +102,9 @@ def combine_masked_indices(
     observation: ma.MaskedArray,
 ) -> tuple[ma.MaskedArray, ma.MaskedArray]:
     """Connects two array masked indices to one and add in two array same mask."""
+    # The same arrays are used for several statistics, so work on copies.
+    model = ma.array(model, copy=True)
+    observation = ma.array(observation, copy=True)
     observation[np.where(np.isnan(observation))] = ma.masked
     model[model < np.min(observation)] = ma.masked
     combine_mask = model.mask + observation.mask
@@ -114,22 +117,29 @@ def calc_common_area_sum(
     model: ma.MaskedArray,
     observation: ma.MaskedArray,
 ) -> tuple[float, str]:
-    def _indices_of_mask_sum() -> float:
-        # Calculate percentage value of common area of indices from two arrays.
-        # Results is total number of common indices with value
-        observation[np.where(np.isnan(observation))] = ma.masked
-        model[np.where(np.isnan(model))] = ma.masked
-        model[model < np.min(observation)] = ma.masked
-        combine_mask = model.mask + observation.mask
-        common_mask = np.bitwise_and(model.mask, observation.mask)
-        valid_area = np.sum(~common_mask)
-        if valid_area == 0:
-            return 0.0
-        the_match = np.sum(~combine_mask) / valid_area * 100
-        return np.round(the_match, 2)
-
-    match = _indices_of_mask_sum()
-    return match, ""
+    # Calculate percentage value of common area of indices from two arrays.
+    # Results is total number of common indices with value
+    model, observation = mask_missing_data(model, observation)
+    combine_mask = model.mask + observation.mask
+    common_mask = np.bitwise_and(model.mask, observation.mask)
+    valid_area = np.sum(~common_mask)
+    if valid_area == 0:
+        return 0.0, ""
+    the_match = np.sum(~combine_mask) / valid_area * 100
+    return np.round(the_match, 2), ""
+
+
+def mask_missing_data(
+    model: ma.MaskedArray,
+    observation: ma.MaskedArray,
+) -> tuple[ma.MaskedArray, ma.MaskedArray]:
+    """Returns copies of the arrays where all missing data are masked."""
+    model = ma.array(model, copy=True)
+    observation = ma.array(observation, copy=True)
+    observation[np.where(np.isnan(observation))] = ma.masked
+    model[np.where(np.isnan(model))] = ma.masked
+    model[model < np.min(observation)] = ma.masked
+    return model, observation
 
 
 def histogram(
-- 
2.43.0


From e7f98d94068d0a73ad12f4f2a472f5dc0e0a9604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:20 +0000
Subject: [PATCH 076/100] fix: keep the data type of big-endian variables

---
 cloudnetpy/cloudnetarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/cloudnetarray.py b/cloudnetpy/cloudnetarray.py
index b45d600..5e914e3 100644
--- a/cloudnetpy/cloudnetarray.py
+++ b/cloudnetpy/cloudnetarray.py
@@ -139,9 +139,9 @@ class CloudnetArray:
         return getattr(self.variable, "units", "")
 
     def _init_data_type(self) -> str:
-        if self.data.dtype in (np.float32, np.float64):
+        if self.data.dtype.newbyteorder("=") in (np.float32, np.float64):
             return "f4"
-        if self.data.dtype == np.int16:
+        if self.data.dtype.newbyteorder("=") == np.int16:
             return "i2"
         return "i4"
 
-- 
2.43.0


From c12919f80ac29956f700a125bacc2b3a0e31a6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 077/100] fix: do not modify footer text of plot options given
 by user

---
 cloudnetpy/plotting/plotting.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cloudnetpy/plotting/plotting.py b/cloudnetpy/plotting/plotting.py
index 32c91e6..6643fe6 100644
--- a/cloudnetpy/plotting/plotting.py
+++ b/cloudnetpy/plotting/plotting.py
@@ -351,18 +351,19 @@ class SubPlot:
     def show_footer(self, fig: Figure, ax: Axes) -> None:
         if isinstance(self.options.footer_text, str):
             n = 50
-            if len(self.options.footer_text) > n:
-                wrapped_text = textwrap.fill(self.options.footer_text, n)
-                self.options.footer_text = "\n".join(wrapped_text.splitlines())
+            footer_text = self.options.footer_text
+            if len(footer_text) > n:
+                wrapped_text = textwrap.fill(footer_text, n)
+                footer_text = "\n".join(wrapped_text.splitlines())
 
-            n_lines = self.options.footer_text.count("\n") + 1
+            n_lines = footer_text.count("\n") + 1
             y0 = ax.get_position().y0
             y1 = ax.get_position().y1
             y = (y1 - y0) * (n_lines * 0.06 + 0.1)
             fig.text(
                 0.06,
                 y0 - y,
-                self.options.footer_text,
+                footer_text,
                 fontsize=11,
                 ha="left",
                 va="bottom",
-- 
2.43.0


From 05be99292e93f3ddf6eec91c580acabc447ac18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 078/100] fix: respect mark_data_gaps option in time series
 plots

---
 cloudnetpy/plotting/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/plotting/plotting.py b/cloudnetpy/plotting/plotting.py
index 6643fe6..b0edaf6 100644
--- a/cloudnetpy/plotting/plotting.py
+++ b/cloudnetpy/plotting/plotting.py
@@ -857,7 +857,8 @@ class Plot1D(Plot):
             self._plot_moving_average(figure_data, hacky_freq_ind)
         if self._plot_meta.zero_line:
             self._ax.axhline(0, color="black", alpha=0.5, label="_nolegend_")
-        self._fill_between_data_gaps(figure_data)
+        if figure_data.options.mark_data_gaps:
+            self._fill_between_data_gaps(figure_data)
         self.sub_plot.set_yax(ylabel=units, y_limits=self._get_y_limits())
         pos = self._ax.get_position()
         self._ax.set_position((pos.x0, pos.y0, pos.width * 0.965, pos.height))
-- 
2.43.0


From a9d05d97f23377c375196f7b0e6f072884b1c7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 079/100] fix: ignore missing wind speed in average wind
 direction

---
 cloudnetpy/plotting/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/plotting/plotting.py b/cloudnetpy/plotting/plotting.py
index b0edaf6..5280f7c 100644
--- a/cloudnetpy/plotting/plotting.py
+++ b/cloudnetpy/plotting/plotting.py
@@ -1025,7 +1025,8 @@ class Plot1D(Plot):
 
         is_wind_direction = self.sub_plot.variable.name == "wind_direction"
         if is_wind_direction:
-            wind_speed = figure_data.file["wind_speed"]
+            wind_speed = figure_data.file["wind_speed"][:]
+            is_invalid |= ma.getmaskarray(wind_speed)
             data = np.stack([wind_speed, data], axis=1)
 
         block_ind = np.where(np.diff(is_invalid))[0] + 1
-- 
2.43.0


From 5295b9385a2d67c29c92423a7629062a82201795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:10 +0000
Subject: [PATCH 080/100] fix: mark cloud top status and rain in the panel of
 their own variable

---
 cloudnetpy/plotting/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/plotting/plotting.py b/cloudnetpy/plotting/plotting.py
index 5280f7c..efda14d 100644
--- a/cloudnetpy/plotting/plotting.py
+++ b/cloudnetpy/plotting/plotting.py
@@ -665,7 +665,7 @@ class Plot2D(Plot):
         if figure_data.is_mwrpy_product():
             self._fill_flagged_data(figure_data)
 
-        if figure_data.variables[0].name == "signal_source_status":
+        if self.sub_plot.variable.name == "signal_source_status":
             self._indicate_rainy_profiles(figure_data)
 
     def _indicate_rainy_profiles(self, figure_data: FigureData) -> None:
@@ -871,7 +871,7 @@ class Plot1D(Plot):
                 self._plot_flag_data(figure_data.time[flags], self._data_orig[flags])
                 self._add_legend()
         if (
-            figure_data.variables[0].name == "cloud_top_height_agl"
+            self.sub_plot.variable.name == "cloud_top_height_agl"
             and "cloud_top_height_status" in figure_data.file.variables
         ):
             legend: tuple = ()
-- 
2.43.0


From da428f6d5a785d2b519e4a9d7f1bc56b3ee0482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:10 +0000
Subject: [PATCH 081/100] fix: use mean altitude in height if altitude varies
 in time

---
 cloudnetpy/instruments/cloudnet_instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/cloudnet_instrument.py b/cloudnetpy/instruments/cloudnet_instrument.py
index 58ad337..37af4f3 100644
--- a/cloudnetpy/instruments/cloudnet_instrument.py
+++ b/cloudnetpy/instruments/cloudnet_instrument.py
@@ -38,7 +38,7 @@ class CloudnetInstrument:
             logging.warning("Assuming 0 deg zenith_angle")
             zenith_angle = 0
         height = utils.range_to_height(self.data["range"].data, zenith_angle)
-        height += self.data["altitude"].data
+        height += np.mean(self.data["altitude"].data)
         self.data["height"] = CloudnetArray(height, "height")
 
     def linear_to_db(self, variables_to_log: tuple) -> None:
-- 
2.43.0


From 0418473c45850357e0e3aa40ca120c07beaf7482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 082/100] fix: derive name of categorize product from file name
 only, not from directories

---
 cloudnetpy/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index db40214..f150435 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -718,7 +718,9 @@ def _plot_l3(
 
 
 def _process_cat_product(product: str, categorize_file: str) -> str:
-    output_file = categorize_file.replace("categorize", product)
+    categorize_path = Path(categorize_file)
+    filename = categorize_path.name.replace("categorize", product)
+    output_file = str(categorize_path.with_name(filename))
     module = importlib.import_module("cloudnetpy.products")
     getattr(module, f"generate_{product}")(categorize_file, output_file)
     logging.info("Processed %s: %s", product, output_file)
-- 
2.43.0


From 8ec94c998c5b2d0a3e7da1b6bdb2f0c2e22573e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 083/100] fix: derive image name from file suffix only, not
 from directories

---
 cloudnetpy/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index f150435..8bdf7ad 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -672,7 +672,7 @@ def _plot(
         res.raise_for_status()
         variables = next(var["variables"] for var in res.json() if var["id"] == product)
         variables = [var["id"].split("-")[-1] for var in variables]
-    image_name = str(filepath).replace(".nc", ".png") if args.plot else None
+    image_name = str(Path(filepath).with_suffix(".png")) if args.plot else None
     options = PlotParameters()
     if args.max_y is not None:
         options.max_y = args.max_y
-- 
2.43.0


From 801241b06ec4538cecb2621405bf3dc151703042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 084/100] fix: give copernicus2nc and galileo2nc a folder
 instead of list of files in CLI

---
 cloudnetpy/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index 8bdf7ad..f7a423b 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -309,8 +309,10 @@ def _process_instrument_product(
             input_files = input_files[0]
         case ("radar", _id) if "copernicus" in _id:
             fun = instruments.copernicus2nc
+            input_files = input_folder
         case ("radar", _id) if "galileo" in _id:
             fun = instruments.galileo2nc
+            input_files = input_folder
         case ("disdrometer", _id) if "parsivel" in _id:
             fun = instruments.parsivel2nc
         case ("disdrometer", _id) if "thies" in _id:
-- 
2.43.0


From 3a8a96024a9614189665cd33efdc51e95a2d1e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 085/100] fix: use MWR file processed in the same run in
 categorize

---
 cloudnetpy/cli.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index f7a423b..90dc51e 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -234,9 +234,10 @@ def _process_categorize(
 
     # MWR runs after other downloads because its fallback chain may
     # try to download the same radar file fetched above.
-    mwr_key, mwr_path = fetch_mwr()
-    if mwr_path:
-        input_files[mwr_key] = mwr_path
+    if "mwr" not in input_files:
+        mwr_key, mwr_path = fetch_mwr()
+        if mwr_path:
+            input_files[mwr_key] = mwr_path
 
     if "model" not in input_files:
         logging.info("No model data available for this date.")
-- 
2.43.0


From cf75ff5f75e3e2c5e81c9419311f3162eb8d24a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 086/100] fix: do not process anything after downloading raw
 data with --dl

---
 cloudnetpy/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index 90dc51e..7cba9fb 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -70,6 +70,9 @@ def run(args: argparse.Namespace, tmpdir: str, client: APIClient) -> None:
             _plot(output_filepath, product, args)
             cat_files[product] = output_filepath
 
+    if args.dl:
+        return
+
     prod_sources = _get_product_sources(args.products, client)
 
     # Categorize based products
-- 
2.43.0


From 96f7168d262b33dc804e3bc97ef43ef47e8bb9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 087/100] fix: allow PIDs and instrument ids in the same
 preference list

---
 cloudnetpy/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index 7cba9fb..2b9f2e0 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -470,7 +470,9 @@ def _get_source_instruments(
         if model is not None:
             models = [model]
         else:
-            models = [p for p in instrument_prefs.get(prod, []) if not _is_pid(p)]
+            models = instrument_prefs.get(prod, [])
+            if any(_is_pid(p) for p in models):
+                models = []
         all_possible = client.product(prod).source_instrument_ids
         if all_possible and (match := [m for m in models if m in all_possible]):
             source_instruments[prod] = match
-- 
2.43.0


From 0889bc0ef2260c284148b433cdeff8490ce997f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 088/100] fix: do not overwrite mwr with mwr-l1c of the same
 instrument

---
 cloudnetpy/cli.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index 2b9f2e0..d58732d 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -282,7 +282,7 @@ def _process_instrument_product(
     args: argparse.Namespace,
     client: APIClient,
 ) -> str | None:
-    output_filepath = _create_instrument_filepath(instrument, args)
+    output_filepath = _create_instrument_filepath(instrument, product, args)
     site_obj = meta[0].site
     site_meta: dict = {
         "name": site_obj.human_readable_name,
@@ -406,12 +406,15 @@ def _get_calibration(
 
 
 def _create_instrument_filepath(
-    instrument: Instrument, args: argparse.Namespace
+    instrument: Instrument, product: str, args: argparse.Namespace
 ) -> str:
     folder = _create_output_folder("instrument", args)
     pid = _shorten_pid(instrument.pid)
+    # The same instrument may provide both mwr and mwr-l1c.
+    suffix = "-l1c" if product == "mwr-l1c" else ""
     filename = (
-        f"{args.date.replace('-', '')}_{args.site}_{instrument.instrument_id}_{pid}.nc"
+        f"{args.date.replace('-', '')}_{args.site}_"
+        f"{instrument.instrument_id}{suffix}_{pid}.nc"
     )
     return str(folder / filename)
 
-- 
2.43.0


From de3bfe06ef1d40c21e813ebe23eda0d00dd315bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 089/100] fix: use categorize, iwc and lwc processed in the
 same run in L3 products

---
 cloudnetpy/cli.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index d58732d..f450bc7 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -81,6 +81,7 @@ def run(args: argparse.Namespace, tmpdir: str, client: APIClient) -> None:
         _plot(cat_filepath, "categorize", args)
     else:
         cat_filepath = None
+    l3_sources = {"categorize": cat_filepath}
     cat_products = [p for p in prod_sources if "categorize" in prod_sources[p]]
     for product in cat_products:
         if cat_filepath is None:
@@ -90,6 +91,7 @@ def run(args: argparse.Namespace, tmpdir: str, client: APIClient) -> None:
             break
         l2_filename = _process_cat_product(product, cat_filepath)
         _plot(l2_filename, product, args)
+        l3_sources[product] = l2_filename
 
     # MWR-L1c based products
     mwrpy_products = [p for p in prod_sources if "mwr-l1c" in prod_sources[p]]
@@ -117,7 +119,10 @@ def run(args: argparse.Namespace, tmpdir: str, client: APIClient) -> None:
             model = args.model or DEFAULT_L3_MODEL
             if args.model is None:
                 logging.info("No model specified, using default '%s'", model)
-            l3_filepath = _process_l3_product(base_product, args, client, model)
+            product_file = l3_sources.get(L3_SOURCE_PRODUCTS[base_product])
+            l3_filepath = _process_l3_product(
+                base_product, args, client, model, product_file
+            )
             _plot_l3(l3_filepath, base_product, args)
 
 
@@ -143,11 +148,16 @@ def _process_epsilon_radar(
 
 
 def _process_l3_product(
-    product: str, args: argparse.Namespace, client: APIClient, model: str
+    product: str,
+    args: argparse.Namespace,
+    client: APIClient,
+    model: str,
+    product_file: str | None = None,
 ) -> str | None:
     obs = product.removeprefix("l3-")
     source_product = L3_SOURCE_PRODUCTS[product]
-    product_file = _fetch_product(args, source_product, client)
+    if product_file is None:
+        product_file = _fetch_product(args, source_product, client)
     if product_file is None:
         logging.info("No %s data available for %s", source_product, product)
         return None
-- 
2.43.0


From 16c96220a565c18cfb59e64eb195df448df540ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 090/100] fix: do not download over radar file processed in the
 same run

---
 cloudnetpy/cli.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index f450bc7..35c121c 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -226,7 +226,7 @@ def _process_categorize(
 
     def fetch_mwr() -> tuple[str, str | None]:
         try:
-            return "mwr", _fetch_mwr(args, client)
+            return "mwr", _fetch_mwr(args, client, processed=input_files.get("radar"))
         except (CloudnetAPIError, KeyError, ValueError):
             logging.info("LWP data not available, continuing without it")
             return "mwr", None
@@ -270,7 +270,9 @@ def _process_categorize(
     return cat_filepath
 
 
-def _fetch_mwr(args: argparse.Namespace, client: APIClient) -> str | None:
+def _fetch_mwr(
+    args: argparse.Namespace, client: APIClient, processed: str | None = None
+) -> str | None:
     mwr_sources = [
         ("mwr-single", None),
         ("mwr", None),
@@ -278,7 +280,7 @@ def _fetch_mwr(args: argparse.Namespace, client: APIClient) -> str | None:
         ("radar", "rpg-fmcw-94"),
     ]
     for product, source in mwr_sources:
-        mwr = _fetch_product(args, product, client, source=source)
+        mwr = _fetch_product(args, product, client, source=source, processed=processed)
         if mwr:
             return mwr
     return None
@@ -598,7 +600,11 @@ def _get_unique_instruments(meta: list[RawMetadata]) -> list[Instrument]:
 
 
 def _fetch_product(
-    args: argparse.Namespace, product: str, client: APIClient, source: str | None = None
+    args: argparse.Namespace,
+    product: str,
+    client: APIClient,
+    source: str | None = None,
+    processed: str | None = None,
 ) -> str | None:
     meta = client.files(product_id=product, date=args.date, site_id=args.site)
     if source:
@@ -616,6 +622,8 @@ def _fetch_product(
         meta = [meta[0]]
     suffix = "geophysical" if "geophysical" in meta[0].product.type else "instrument"
     folder = _create_output_folder(suffix, args)
+    if processed is not None and folder / meta[0].filename == Path(processed):
+        return processed
     return _download_product_file(meta, folder, client, force=args.force_download)
 
 
-- 
2.43.0


From beb921ae11f7171f12956f7e6ada9ef758227662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 091/100] fix: accept lower-case file extensions in hatpro2nc

---
 cloudnetpy/instruments/hatpro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/instruments/hatpro.py b/cloudnetpy/instruments/hatpro.py
index 3bf21c8..5cc2089 100644
--- a/cloudnetpy/instruments/hatpro.py
+++ b/cloudnetpy/instruments/hatpro.py
@@ -203,8 +203,8 @@ def hatpro2nc(
         date = datetime.date.fromisoformat(date)
     uuid = utils.get_uuid(uuid)
     hatpro_objects, valid_files = _get_hatpro_objects(Path(path_to_files), date)
-    is_lwp_files = any(f.suffix == ".LWP" for f in valid_files)
-    is_iwv_files = any(f.suffix == ".IWV" for f in valid_files)
+    is_lwp_files = any(f.suffix.upper() == ".LWP" for f in valid_files)
+    is_iwv_files = any(f.suffix.upper() == ".IWV" for f in valid_files)
     if not is_lwp_files:
         raise ValidTimeStampError
     if is_iwv_files:
-- 
2.43.0


From 1646468658716c8cfb47d5bb053144fc49dc2d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:29 +0000
Subject: [PATCH 092/100] fix: level 3 cells in still air: advection time is
 limited to an hour instead of zero

---
 cloudnetpy/model_evaluation/products/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/model_evaluation/products/tools.py b/cloudnetpy/model_evaluation/products/tools.py
index 2aab2dc..d19eb47 100644
--- a/cloudnetpy/model_evaluation/products/tools.py
+++ b/cloudnetpy/model_evaluation/products/tools.py
@@ -35,7 +35,8 @@ def calculate_advection_time(
 
         sampling = 1 -> hour, sampling 1/6 -> 10min
     """
-    t_adv = resolution * 1000 / wind / 60**2
+    # Avoid division by zero: in still air the time is limited by the sampling.
+    t_adv = resolution * 1000 / ma.maximum(wind, 1e-6) / 60**2
     t_adv[t_adv.mask] = 0
     t_adv[t_adv > 1 / sampling] = 1 / sampling
     return np.asarray([[timedelta(hours=float(t)) for t in time] for time in t_adv])
-- 
2.43.0


From 922fbf0f1a17519984645cf5d3e3de5bd59d014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:10 +0000
Subject: [PATCH 093/100] fix: keep masked values when disdrometer netCDF data
 are converted

---
 cloudnetpy/disdronator/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/disdronator/utils.py b/cloudnetpy/disdronator/utils.py
index 0d31ff9..c6b0f78 100644
--- a/cloudnetpy/disdronator/utils.py
+++ b/cloudnetpy/disdronator/utils.py
@@ -19,13 +19,15 @@ def convert_to_numpy(
             fill = np.zeros_like(value[int(np.argmin(is_missing))])
             arr = ma.array([fill if x is None else x for x in value])
             arr[is_missing] = ma.masked
+        elif isinstance(value, ma.MaskedArray) and ma.is_masked(value):
+            arr = value.copy()
         else:
             arr = np.array(value)
         if fill_values is not None and key in fill_values:
             arr = ma.masked_where(arr == fill_values[key], arr)
         if int_keys is not None and key in int_keys:
             new_arr = arr.astype(np.int32)
-            if not np.all(arr == new_arr):
+            if np.any(arr != new_arr):
                 msg = "Cannot convert non-integer float to integer"
                 raise ValueError(msg)
             arr = new_arr
-- 
2.43.0


From 18f6de40b67978015ae2da8b3ed2ccaebe0f7b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:10 +0000
Subject: [PATCH 094/100] fix: kinetic energy of Parsivel netCDF files is not
 the accumulated rain

---
 cloudnetpy/disdronator/parsivel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/disdronator/parsivel.py b/cloudnetpy/disdronator/parsivel.py
index b480b5e..5d591ce 100644
--- a/cloudnetpy/disdronator/parsivel.py
+++ b/cloudnetpy/disdronator/parsivel.py
@@ -121,7 +121,7 @@ PARSIVEL2NC_KEYS = {
     "n_particles": 11,
     "rainfall_rate": 1,
     "radar_reflectivity": 7,
-    "E_kin": 24,
+    "E_kin": 34,
     "visibility": 8,
     "synop_WaWa": 3,
     "synop_WW": 4,
@@ -203,7 +203,7 @@ LEIPZIG_KEYS = {
     "Sig_Laser": 10,
     "N_Particles": 11,
     "State_Sensor": 18,
-    "E_kin": 24,
+    "E_kin": 34,
     "V_Sensor": 17,
     "I_Heating": 16,
     "Error_Code": 25,
-- 
2.43.0


From 27b48a946c455ca82eac76f04e52be861db1eb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 095/100] fix: failing HATPRO Level 1c conversion leaves no
 output file

---
 cloudnetpy/instruments/hatpro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/instruments/hatpro.py b/cloudnetpy/instruments/hatpro.py
index 5cc2089..1b6520d 100644
--- a/cloudnetpy/instruments/hatpro.py
+++ b/cloudnetpy/instruments/hatpro.py
@@ -65,6 +65,7 @@ def hatpro2l1c(
     uuid = utils.get_uuid(uuid)
 
     coeff_files = site_meta.get("coefficientFiles")
+    coeff_links = site_meta["coefficientLinks"]
     time_offset = site_meta.get("time_offset")
 
     try:
@@ -72,7 +73,6 @@ def hatpro2l1c(
             "1C01",
             str(mwr_dir),
             instrument_type=instrument_type,
-            output_file=str(output_file),
             lidar_path=lidar_file,
             coeff_files=coeff_files,
             instrument_config=site_meta,
@@ -134,7 +134,7 @@ def hatpro2l1c(
         nc.cloudnet_file_type = "mwr-l1c"
         nc.title = nc.title.replace("radiometer", "radiometer Level 1c")
         nc.mwrpy_version = mwrpy_version
-        nc.mwrpy_coefficients = ", ".join(site_meta["coefficientLinks"])
+        nc.mwrpy_coefficients = ", ".join(coeff_links)
         nc.history = nc.history.replace("mwr", "mwr-l1c")
         if lidar_file is not None:
             with netCDF4.Dataset(lidar_file) as lidar_nc:
-- 
2.43.0


From cd0b121eb038fb1804f7d096a6a000fb69f4a1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 096/100] fix: call the MWR retrievals of current mwrpy
 versions

---
 cloudnetpy/products/mwr_tools.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/products/mwr_tools.py b/cloudnetpy/products/mwr_tools.py
index a772160..86f17f1 100644
--- a/cloudnetpy/products/mwr_tools.py
+++ b/cloudnetpy/products/mwr_tools.py
@@ -1,5 +1,7 @@
+import inspect
 import os
 import tempfile
+from collections.abc import Callable
 from os import PathLike
 from typing import Literal
 from uuid import UUID
@@ -95,13 +97,20 @@ def _generate_product(
     uuid = utils.get_uuid(uuid)
     with tempfile.TemporaryDirectory() as temp_dir:
         coeffs = _read_mwrpy_coeffs(mwr_l1c_file, temp_dir)
+        kwargs = {
+            "mwr_l1c_file": mwr_l1c_file,
+            "output_file": output_file,
+            "coeff_files": coeffs,
+        }
+        if product != "multi":
+            kwargs["lwp_offset"] = lwp_offset
         try:
             if product == "multi":
-                gen_multi(None, mwr_l1c_file, output_file, coeffs)
+                _call_mwrpy(gen_multi, kwargs)
             elif product == "single":
-                gen_single(None, mwr_l1c_file, output_file, lwp_offset, coeffs)
+                _call_mwrpy(gen_single, kwargs)
             else:
-                gen_lhumpro(None, mwr_l1c_file, output_file, lwp_offset, coeffs)
+                _call_mwrpy(gen_lhumpro, kwargs)
                 product = "single"
         except MissingInputData as err:
             raise ValidTimeStampError from err
@@ -119,6 +128,13 @@ def _generate_product(
         return mwr.harmonize(product)
 
 
+def _call_mwrpy(function: Callable, kwargs: dict) -> None:
+    # Only older versions of mwrpy have (and require) this argument
+    if "site" in inspect.signature(function).parameters:
+        kwargs = {"site": None, **kwargs}
+    function(**kwargs)
+
+
 class Mwr:
     def __init__(
         self, nc_l1c: netCDF4.Dataset, nc_l2: netCDF4.Dataset, uuid: UUID
-- 
2.43.0


From 04877489af06c92aa4f088a00b22b6d409f28688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 097/100] fix: failing MWR product leaves no output file

---
 cloudnetpy/products/mwr_tools.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/cloudnetpy/products/mwr_tools.py b/cloudnetpy/products/mwr_tools.py
index 86f17f1..71abdf4 100644
--- a/cloudnetpy/products/mwr_tools.py
+++ b/cloudnetpy/products/mwr_tools.py
@@ -1,5 +1,6 @@
 import inspect
 import os
+import shutil
 import tempfile
 from collections.abc import Callable
 from os import PathLike
@@ -97,9 +98,10 @@ def _generate_product(
     uuid = utils.get_uuid(uuid)
     with tempfile.TemporaryDirectory() as temp_dir:
         coeffs = _read_mwrpy_coeffs(mwr_l1c_file, temp_dir)
+        temp_file = os.path.join(temp_dir, "output.nc")
         kwargs = {
             "mwr_l1c_file": mwr_l1c_file,
-            "output_file": output_file,
+            "output_file": temp_file,
             "coeff_files": coeffs,
         }
         if product != "multi":
@@ -114,18 +116,20 @@ def _generate_product(
                 product = "single"
         except MissingInputData as err:
             raise ValidTimeStampError from err
-    with (
-        netCDF4.Dataset(mwr_l1c_file, "r") as nc_input,
-        netCDF4.Dataset(output_file, "r+") as nc_output,
-    ):
-        flag_variable = "lwp" if product == "single" else "temperature"
-        flag_name = f"{flag_variable}_quality_flag"
-        flags = nc_output.variables[flag_name][:]
-        if not np.any(flags == 0):
-            msg = f"All {flag_variable} data are flagged."
-            raise ValidTimeStampError(msg)
-        mwr = Mwr(nc_input, nc_output, uuid)
-        return mwr.harmonize(product)
+        with (
+            netCDF4.Dataset(mwr_l1c_file, "r") as nc_input,
+            netCDF4.Dataset(temp_file, "r+") as nc_output,
+        ):
+            flag_variable = "lwp" if product == "single" else "temperature"
+            flag_name = f"{flag_variable}_quality_flag"
+            flags = nc_output.variables[flag_name][:]
+            if not np.any(flags == 0):
+                msg = f"All {flag_variable} data are flagged."
+                raise ValidTimeStampError(msg)
+            mwr = Mwr(nc_input, nc_output, uuid)
+            mwr.harmonize(product)
+        shutil.copyfile(temp_file, output_file)
+    return uuid
 
 
 def _call_mwrpy(function: Callable, kwargs: dict) -> None:
-- 
2.43.0


From ee41ebdbf2495c48b49b81e5db7ea25aedf42c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 098/100] fix: MWR products from Level 1c files without
 instrument PID

---
 cloudnetpy/products/mwr_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/products/mwr_tools.py b/cloudnetpy/products/mwr_tools.py
index 71abdf4..20ae011 100644
--- a/cloudnetpy/products/mwr_tools.py
+++ b/cloudnetpy/products/mwr_tools.py
@@ -191,7 +191,8 @@ class Mwr:
         )
         self.nc_l2.source_file_uuids = self.nc_l1c.file_uuid
         self.nc_l2.mwrpy_version = mwrpy_version
-        self.nc_l2.instrument_pid = self.nc_l1c.instrument_pid
+        if "instrument_pid" in self.nc_l1c.ncattrs():
+            self.nc_l2.instrument_pid = self.nc_l1c.instrument_pid
 
 
 def _read_mwrpy_coeffs(mwr_l1c_file: str | PathLike, folder: str) -> list[str]:
-- 
2.43.0


From 6aec9f382a7df6008441744a4d6e211ce254eaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:09 +0000
Subject: [PATCH 099/100] fix: missing LDR in rain detection from radar

---
 cloudnetpy/categorize/containers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cloudnetpy/categorize/containers.py b/cloudnetpy/categorize/containers.py
index f8b737f..9d37490 100644
--- a/cloudnetpy/categorize/containers.py
+++ b/cloudnetpy/categorize/containers.py
@@ -118,14 +118,13 @@ class ClassData:
         else:
             ldr = np.full(self.time.shape, threshold["ldr"] - 1)
 
-        return np.where(
+        is_rain = (
             (~ma.getmaskarray(z))
             & (z > threshold["z"])
             & (v < threshold["v"])
-            & (ldr < threshold["ldr"]),
-            1,
-            0,
+            & (ldr < threshold["ldr"])
         )
+        return np.where(ma.filled(is_rain, fill_value=False), 1, 0)
 
     def _find_rain_from_disdrometer(self) -> ma.MaskedArray:
         if self.data.disdrometer is None:
-- 
2.43.0


From bd4659c29be9af3df9efab2f338cde32f9ebb483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:43 +0000
Subject: [PATCH 100/100] fix: missing model wind in advection windows

---
 cloudnetpy/model_evaluation/products/model_products.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/model_evaluation/products/model_products.py b/cloudnetpy/model_evaluation/products/model_products.py
index c2a08d2..9bc0a12 100644
--- a/cloudnetpy/model_evaluation/products/model_products.py
+++ b/cloudnetpy/model_evaluation/products/model_products.py
@@ -194,7 +194,7 @@ class ModelManager(DataSource):
         v = self.getvar("vwind")
         u = self.cut_off_extra_levels(u)
         v = self.cut_off_extra_levels(v)
-        return np.sqrt(ma.power(u.data, 2) + ma.power(v.data, 2))
+        return np.sqrt(ma.power(u, 2) + ma.power(v, 2))
 
     def _get_horizontal_resolution(self) -> float:
         try:
-- 
2.43.0

