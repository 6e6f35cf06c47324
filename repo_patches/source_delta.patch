From 8c801dcef0f48a9e4da0cd2165fcad3f57684866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:35 +0000
Subject: [PATCH 01/53] fix: avoid NaN snow layers when a multilayer snow cover
 becomes vanishingly thin

---
 openamundsen/modules/snow/multilayermodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openamundsen/modules/snow/multilayermodel.py b/openamundsen/modules/snow/multilayermodel.py
index 9d04ccf..f63f73e 100644
--- a/openamundsen/modules/snow/multilayermodel.py
+++ b/openamundsen/modules/snow/multilayermodel.py
@@ -607,6 +607,9 @@ def _update_layers(
                     thickness[k, i, j] = 0.0
 
             ns = (thickness[:, i, j] > 0).sum()  # new number of layers
+            if ns == 0:  # snow cover too thin, nothing to redistribute
+                continue
+
             new_thickness = thickness[0, i, j]
             k_new = 0
 
-- 
2.43.0


From c61c7983502b2e3719642d9771b3e915ac0794a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:27 +0000
Subject: [PATCH 02/53] fix: keep canopy model working across gaps in the
 temperature data

A run starting in a temperature data gap failed with a shape mismatch, and a later gap set the
intercepted load (and thus all further snowfall reaching the ground) to NaN permanently.
---
 openamundsen/modules/canopy/canopy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openamundsen/modules/canopy/canopy.py b/openamundsen/modules/canopy/canopy.py
index 49fd295..d9dbe18 100644
--- a/openamundsen/modules/canopy/canopy.py
+++ b/openamundsen/modules/canopy/canopy.py
@@ -91,7 +91,7 @@ class CanopyModel:
         pos_finite_temp = pos & np.isfinite(mean_24h_temp)
         delta_t = ((mean_24h_temp[pos_finite_temp] - c.T0) / 3).clip(-2, 2)  # eq. (5)
         s.meteo.temp[pos_finite_temp] -= (  # eq. (4)
-            canopy_frac
+            canopy_frac[pos_finite_temp[pos]]
             * (
                 s.meteo.temp[pos_finite_temp]
                 - (
@@ -217,11 +217,11 @@ class CanopyModel:
         # Calculate melt unload using a temperature index method
         # Instead of applying an additional scaling factor to the default degree day factors for
         # snow on the ground as in [1], here a distinct degree day factor for canopy-intercepted
-        # snow is used directly.
+        # snow is used directly (no melt if the temperature is unknown).
         s.snow.canopy_melt[pos] = np.minimum(
             (
                 model.config.canopy.degree_day_factor
-                * (s.meteo.temp[pos] - c.T0).clip(min=0)
+                * np.nan_to_num(s.meteo.temp[pos] - c.T0).clip(min=0)
                 * model.timestep
                 / (c.SECONDS_PER_HOUR * c.HOURS_PER_DAY)
             ),
-- 
2.43.0


From 1dbbab4a4b9251129c5a7bb49dbba91c28fb8a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:38 +0000
Subject: [PATCH 03/53] fix: do not lose intercepted snow when the canopy
 storage capacity declines

When the LAI (and hence the maximum interception storage) dropped below the current load, snowfall
reduced the intercepted load without adding the difference to any of the fluxes.
---
 openamundsen/modules/canopy/canopy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openamundsen/modules/canopy/canopy.py b/openamundsen/modules/canopy/canopy.py
index d9dbe18..0230b2a 100644
--- a/openamundsen/modules/canopy/canopy.py
+++ b/openamundsen/modules/canopy/canopy.py
@@ -190,6 +190,10 @@ class CanopyModel:
         new_canopy_intercepted_load = s.snow.canopy_intercepted_load[pos] + 0.7 * (
             max_interception_storage - s.snow.canopy_intercepted_load[pos]
         ) * (1 - np.exp(-s.meteo.snowfall[pos] / max_interception_storage))
+        # No interception if the storage capacity has dropped below the current load (LAI decline)
+        new_canopy_intercepted_load = np.maximum(
+            new_canopy_intercepted_load, s.snow.canopy_intercepted_load[pos]
+        )
         s.snow.canopy_intercepted_snowfall[pos] = (
             new_canopy_intercepted_load - s.snow.canopy_intercepted_load[pos]
         ).clip(min=0)
-- 
2.43.0


From 8862cf15c5dc7ccdc56bec59b935af8e8520366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:30 +0000
Subject: [PATCH 04/53] fix: rewet the surface soil layer by rain in the
 evapotranspiration model

Following eq. (79) of Allen et al. (1998), only the rain in excess of the depletion of the surface
soil layer percolates; subtracting the previous percolation instead let rain bypass the layer.
---
 openamundsen/modules/evapotranspiration/evapotranspiration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/evapotranspiration/evapotranspiration.py b/openamundsen/modules/evapotranspiration/evapotranspiration.py
index aeb9bc6..18df8ad 100644
--- a/openamundsen/modules/evapotranspiration/evapotranspiration.py
+++ b/openamundsen/modules/evapotranspiration/evapotranspiration.py
@@ -480,7 +480,7 @@ class EvapotranspirationModel:
             precip
             - precip_runoff
             + irrigation / wetted_frac
-            - s_et.deep_percolation_evaporation_layer[pos]
+            - s_et.cum_soil_surface_depletion[pos]
         ).clip(min=0)
         s_et.cum_soil_surface_depletion[pos] = (  # eq. (77)
             s_et.cum_soil_surface_depletion[pos]
-- 
2.43.0


From d92e8d4e635d0b27d2c90b743a1a62f95b537b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:31 +0000
Subject: [PATCH 05/53] fix: calculate air density for sealed surface
 evaporation correctly

The virtual temperature was multiplied instead of being part of the denominator of the ideal gas
law, overestimating air density by a factor of about 1e5.
---
 openamundsen/modules/evapotranspiration/evapotranspiration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/evapotranspiration/evapotranspiration.py b/openamundsen/modules/evapotranspiration/evapotranspiration.py
index 18df8ad..935e70d 100644
--- a/openamundsen/modules/evapotranspiration/evapotranspiration.py
+++ b/openamundsen/modules/evapotranspiration/evapotranspiration.py
@@ -579,7 +579,7 @@ class EvapotranspirationModel:
         ea = s.meteo.vap_press[pos_dry]  # actual vapor pressure (Pa)
 
         Tv = 1.01 * s.meteo.top_canopy_temp[pos_dry]  # virtual temperature (K)
-        rhoa = s.meteo.atmos_press[pos_dry] / c.GAS_CONSTANT_DRY_AIR * Tv  # air density at constant pressure (kg m-3) # fmt: skip # noqa: E501
+        rhoa = s.meteo.atmos_press[pos_dry] / (c.GAS_CONSTANT_DRY_AIR * Tv)  # air density at constant pressure (kg m-3) # fmt: skip # noqa: E501
         cp = (  # specific heat at constant pressure (J kg-1 K-1) (p. 26)
             gamma * 0.622 * c.LATENT_HEAT_OF_VAPORIZATION / s.meteo.atmos_press[pos_dry]
         )
-- 
2.43.0


From 8122a4646b43222f5901703af3f7ea95fa8f0a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:31 +0000
Subject: [PATCH 06/53] fix: support several growing cycles in the LAI
 calculation

For growth stage lengths consisting of several subcycles the stage length lists were concatenated
instead of added, failing with unequal array sizes.
---
 openamundsen/landcover.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openamundsen/landcover.py b/openamundsen/landcover.py
index 98c9676..30ac286 100644
--- a/openamundsen/landcover.py
+++ b/openamundsen/landcover.py
@@ -68,8 +68,8 @@ class LandCover:
 
             lcc_lai = modules.evapotranspiration.crop_coefficient(
                 growing_period_day,
-                0,  # no initial period with constant LAI
-                length_ini + length_dev,
+                np.zeros_like(length_ini),  # no initial period with constant LAI
+                np.add(length_ini, length_dev),
                 length_mid,
                 length_late,
                 min_lai,
-- 
2.43.0


From 0676078950b68e14f20e4c2e097d5e63d9fea153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:06 +0000
Subject: [PATCH 07/53] fix: dry air density must be pressure divided by (gas
 constant * temperature)

---
 openamundsen/meteo/atmosphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/atmosphere.py b/openamundsen/meteo/atmosphere.py
index 2d76a1a..4caa8c5 100644
--- a/openamundsen/meteo/atmosphere.py
+++ b/openamundsen/meteo/atmosphere.py
@@ -71,7 +71,7 @@ def dry_air_density(temp, pressure):
     density : numeric
         Dry air density (kg m-3).
     """
-    return pressure * (c.GAS_CONSTANT_DRY_AIR * temp)
+    return pressure / (c.GAS_CONSTANT_DRY_AIR * temp)
 
 
 def latent_heat_of_vaporization(temp):
-- 
2.43.0


From 6d75daa8de4648a684953ddc2cfc175385555ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:57 +0000
Subject: [PATCH 08/53] fix: WMO precipitation correction raised an error for
 all gauges except Hellmann

---
 openamundsen/meteo/precipcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/precipcorr.py b/openamundsen/meteo/precipcorr.py
index 7a83ff5..1c2a738 100644
--- a/openamundsen/meteo/precipcorr.py
+++ b/openamundsen/meteo/precipcorr.py
@@ -180,7 +180,7 @@ def correct_station_precipitation(model):
             elif gauge == "us_unsh":
                 cr[pos_snow] = np.exp(4.61 - 0.16 * wind_speeds_2m[pos_snow] ** 1.28)
                 cr[pos_mixed] = 100.77 - 8.34 * wind_speeds_2m[pos_mixed]
-            if gauge == "hellmann":
+            elif gauge == "hellmann":
                 cr[pos_snow] = (
                     100 + 1.13 * wind_speeds_2m[pos_snow] ** 2 - 19.45 * wind_speeds_2m[pos_snow]
                 )
-- 
2.43.0


From 727d75e6e7e6dbb12169d6c0f87ea17eb973cc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:15 +0000
Subject: [PATCH 09/53] fix: no elevation gradient can be derived from stations
 at the same elevation

---
 openamundsen/meteo/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index 6cc252e..7ddf26e 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -70,7 +70,7 @@ def _linear_fit(x, y):
     -------
     slope, intercept : float
     """
-    if len(x) < 2:
+    if len(np.unique(x)) < 2:  # the slope is undefined
         slope = 0
         intercept = 0
     else:
-- 
2.43.0


From ef4700306091a29127d2e0991ae8932d1b8ec525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:15 +0000
Subject: [PATCH 10/53] fix: limit interpolated humidity to the range of the
 humidities and not of the dew points

---
 openamundsen/meteo/interpolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index 7ddf26e..fcf9c9a 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -514,6 +514,7 @@ def interpolate_param(
         vapor_press = meteo.saturation_vapor_pressure(target_dew_point_temps, "water")
         sat_vapor_press = meteo.saturation_vapor_pressure(target_temps, "water")
         data_interpol = 100 * vapor_press / sat_vapor_press
+        data = rel_hums
 
     # Restrict interpolated values to the range of the point values if extrapolation is disabled in
     # the parameter config
-- 
2.43.0


From 39ac0956a8cd7bbdacda74d4cfd4da924895dbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:15 +0000
Subject: [PATCH 11/53] fix: allow piecewise regression parameters to be set
 also for other trend methods

---
 openamundsen/meteo/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index fcf9c9a..f208c5b 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -435,7 +435,9 @@ def interpolate_param(
     regression_params = param_config.get("regression_params", {})
     max_segments = regression_params.get("max_segments", 1)
 
-    if trend_method in ("regression", "fixed", "fractional") and max_segments == 1:
+    if trend_method in ("fixed", "fractional") or (
+        trend_method == "regression" and max_segments == 1
+    ):
         # Use simple linear regression
         if trend_method == "regression":
             # When using the regression method, the passed lapse rate is overwritten
-- 
2.43.0


From 364d123fc373ce05b8291c97a6d39d0db63c7a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:15 +0000
Subject: [PATCH 12/53] fix: normalizing constant data must not lead to missing
 values

---
 openamundsen/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openamundsen/util.py b/openamundsen/util.py
index 0a40726..5ac5229 100644
--- a/openamundsen/util.py
+++ b/openamundsen/util.py
@@ -380,5 +380,9 @@ def normalize_array(data, min, max):  # noqa: A002
     data = np.asarray(data)
     data_min = np.nanmin(data)
     data_max = np.nanmax(data)
+
+    if data_min == data_max:  # constant data, i.e. there is nothing to scale
+        return np.where(np.isnan(data), np.nan, (min + max) / 2)
+
     scale_factor = (max - min) / (data_max - data_min)
     return min + scale_factor * (data - data_min)
-- 
2.43.0


From 5d3be015dae097cf4b99b0e1f83080409d4246b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:41 +0000
Subject: [PATCH 13/53] fix: data race when calculating topographic openness
 with several threads

---
 openamundsen/terrain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openamundsen/terrain.py b/openamundsen/terrain.py
index 0a215b1..0d44fb1 100644
--- a/openamundsen/terrain.py
+++ b/openamundsen/terrain.py
@@ -1,7 +1,7 @@
 import logging
 
 import numpy as np
-from numba import njit, prange
+from numba import njit
 
 from openamundsen.modules.radiation import shadows
 
@@ -333,7 +333,7 @@ def openness(dem, res, L, negative=False, mean=True):
     return opn
 
 
-@njit(cache=True, parallel=True)
+@njit(cache=True)
 def _openness_dir(dem, res, L, dir):  # noqa: A002
     """
     Calculate topographic openness for a DEM and a single compass direction.
@@ -360,7 +360,7 @@ def _openness_dir(dem, res, L, dir):  # noqa: A002
     """
     opn_dir = np.full(dem.shape, np.inf)
 
-    for i in prange(int(np.ceil(L / res))):
+    for i in range(int(np.ceil(L / res))):
         dist = res * (i + 1) * [1, np.sqrt(2)][dir % 2]
         Z_shift = _shift_arr_retain(dem, dir, i)
         angle = np.pi / 2 - np.arctan2(Z_shift - dem, dist)
-- 
2.43.0


From b396ae82795afd464851e5e5366da29f5b086a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:08 +0000
Subject: [PATCH 14/53] fix: precipitation correction must not depend on the
 dimension order of the station data

---
 openamundsen/meteo/precipcorr.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openamundsen/meteo/precipcorr.py b/openamundsen/meteo/precipcorr.py
index 1c2a738..e43d584 100644
--- a/openamundsen/meteo/precipcorr.py
+++ b/openamundsen/meteo/precipcorr.py
@@ -64,10 +64,12 @@ def correct_station_precipitation(model):
     xs = m["x"].values
     ys = m["y"].values
     zs = m["alt"].values
-    temps = m["temp"].values.T.copy()
-    rel_hums = m["rel_hum"].values.T.copy()
-    wind_speeds = m["wind_speed"].values.T.copy()
-    precips = m["precip"].values.T  # no copy, because this will be modified in place
+    dims = ("time", "station")
+    temps = m["temp"].transpose(*dims).values.copy()
+    rel_hums = m["rel_hum"].transpose(*dims).values.copy()
+    wind_speeds = m["wind_speed"].transpose(*dims).values.copy()
+    # no copy, because this will be modified in place
+    precips = m["precip"].transpose(*dims).values
 
     # Interpolate missing temperature, humidity and wind speed values for the dates with non-zero
     # precipitation values
-- 
2.43.0


From bfb3fd3e82de0602355ad427b50026ecb031f5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:22 +0000
Subject: [PATCH 15/53] fix: take the radiation parameters from the
 configuration instead of ignoring the settings

---
 openamundsen/modules/radiation/irradiance.py | 5 ++---
 openamundsen/surface.py                      | 3 +--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/openamundsen/modules/radiation/irradiance.py b/openamundsen/modules/radiation/irradiance.py
index edbb57a..782af11 100644
--- a/openamundsen/modules/radiation/irradiance.py
+++ b/openamundsen/modules/radiation/irradiance.py
@@ -289,9 +289,8 @@ def longwave_irradiance(model):
     m = model.state.meteo
     clear_sky_emissivity = meteo.clear_sky_emissivity(m.precipitable_water[roi])
 
-    # TODO these should be parameters
-    cloud_emissivity = 0.976  # emissivity of totally overcast skies (Greuell et al., 1997) # noqa: E501 # fmt: skip
-    rock_emission_factor = 0.01  # (K W-1 m2) temperature of emitting rocks during daytime is assumed to be higher than the air temperature by this factor multiplied by the incoming shortwave radiation (Greuell et al., 1997) # noqa: E501
+    cloud_emissivity = model.config.meteo.radiation.cloud_emissivity
+    rock_emission_factor = model.config.meteo.radiation.rock_emission_factor
 
     # Incoming longwave radiation from the clear sky
     lw_in_clearsky = (
diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 952212e..089a34f 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -509,8 +509,7 @@ def calc_radiation_balance(model, pos):
     """
     s = model.state
 
-    # TODO this should be a parameter
-    snow_emissivity = 0.99
+    snow_emissivity = model.config.meteo.radiation.snow_emissivity
 
     s.meteo.sw_out[pos] = s.surface.albedo[pos] * s.meteo.sw_in[pos]
     s.meteo.lw_out[pos] = snow_emissivity * constants.STEFAN_BOLTZMANN * s.surface.temp[pos] ** 4
-- 
2.43.0


From 59f66a0ba14840ef28af00f5a7367e0806777394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:22 +0000
Subject: [PATCH 16/53] fix: pixels without elevation must not interrupt the
 shadows cast by the terrain

---
 openamundsen/modules/radiation/shadows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/radiation/shadows.py b/openamundsen/modules/radiation/shadows.py
index f7c05fe..947642b 100644
--- a/openamundsen/modules/radiation/shadows.py
+++ b/openamundsen/modules/radiation/shadows.py
@@ -90,7 +90,7 @@ def shadows(dem, res, sun_vec, num_sweeps=1):
 
             if z_proj < max_z_proj:
                 illum[idy, jdx] = 0
-            else:
+            elif z_proj >= max_z_proj:  # (i.e., pixels without elevation are skipped)
                 max_z_proj = z_proj
 
     return illum
-- 
2.43.0


From 3c90a4df241d4543b58c7887b20a2881dd640c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:22 +0000
Subject: [PATCH 17/53] fix: limit the optical air mass and not its reciprocal

---
 openamundsen/modules/radiation/clearsky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openamundsen/modules/radiation/clearsky.py b/openamundsen/modules/radiation/clearsky.py
index a34a852..fb679d5 100644
--- a/openamundsen/modules/radiation/clearsky.py
+++ b/openamundsen/modules/radiation/clearsky.py
@@ -106,8 +106,8 @@ def _clear_sky_shortwave_irradiance(
     aoi = aoi.clip(min=0)  # shadows due to steepness of the slope (sun "behind")
 
     # Relative optical air mass for standard pressure (Iqbal 1983)
-    rel_opt_air_mass = 1.0 / (
-        np.cos(zenith_angle) + 0.15 * (93.885 - np.rad2deg(zenith_angle)) ** (-1.253)
+    rel_opt_air_mass = (
+        1.0 / (np.cos(zenith_angle) + 0.15 * (93.885 - np.rad2deg(zenith_angle)) ** (-1.253))
     ).clip(max=14.1952)  # function is only valid for zenith angles up to 87°
 
     # Relative optical air mass pressure corrected
-- 
2.43.0


From 80888f8ceddf9fddcf29a6511e53553c0683c99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:22 +0000
Subject: [PATCH 18/53] fix: typo in the forward scattering ratio of the
 clear-sky model

---
 openamundsen/modules/radiation/clearsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/radiation/clearsky.py b/openamundsen/modules/radiation/clearsky.py
index fb679d5..4999222 100644
--- a/openamundsen/modules/radiation/clearsky.py
+++ b/openamundsen/modules/radiation/clearsky.py
@@ -153,7 +153,7 @@ def _clear_sky_shortwave_irradiance(
     )
 
     # Aerosol-scattered diffuse irradiance
-    scattering_ratio = -0.2562 * zenith_angle**2 * 0.1409 * zenith_angle + 0.9067
+    scattering_ratio = -0.2562 * zenith_angle**2 + 0.1409 * zenith_angle + 0.9067
     trans_aerosol_ratio = ts["trans_aerosols"] / ts["trans_aerosol_abs"]
     diff_irr_aerosols = (
         0.79
-- 
2.43.0


From da95c3b80a29555e1a902a18f09025eee8253bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:22 +0000
Subject: [PATCH 19/53] fix: reject extended sky view factor files not matching
 the extended DEM

---
 openamundsen/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index 1fe1f64..3f7fe86 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -737,11 +737,10 @@ class OpenAmundsen:
         if extended_svf_file.exists():
             ext_svf = fileio.read_raster_file(
                 extended_svf_file,
+                check_meta=ext_meta,
                 fill_value=np.nan,
                 dtype=float,
             )
-            if ext_svf.shape != ext_dem.shape:
-                raise errors.RasterFileError("Extended DEM and SVF have differing dimensions")
         else:
             logger.info("Calculating extended sky view factor")
             ext_svf = terrain.sky_view_factor(
-- 
2.43.0


From fe0cbe9a0c50aaeed23e2b645dbfdb8bff8daebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:49 +0000
Subject: [PATCH 20/53] fix: do not extend the ROI to pixels without elevation

---
 openamundsen/model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index 3f7fe86..4856655 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -184,6 +184,12 @@ class OpenAmundsen:
         # Extend ROI with the station positions
         if config.extend_roi_with_stations:
             pos_outside_roi_stations = self.meteo.within_grid_extent & ~self.meteo.within_roi
+            for station in self.meteo.station[pos_outside_roi_stations].values:
+                # Stations located at pixels without elevation cannot be added
+                dss = self.meteo.sel(station=station)
+                if np.isnan(self.state.base.dem[int(dss.row), int(dss.col)]):
+                    pos_outside_roi_stations.loc[station] = False
+
             any_outside_roi_stations = np.any(pos_outside_roi_stations)
             if any_outside_roi_stations:
                 self.meteo.within_roi[pos_outside_roi_stations] = True
-- 
2.43.0


From 1cd436b3bd948df0f2c45f6847cad01c5094a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:35 +0000
Subject: [PATCH 21/53] fix: first and subsequent runs of the same
 configuration gave different results (SVF rounding)

---
 openamundsen/model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index 4856655..fbf8905 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -608,9 +608,15 @@ class OpenAmundsen:
                     self.grid.resolution,
                     num_sweeps=self.config.meteo.radiation.num_shadow_sweeps,
                 )
-                self.state.base.svf[:] = svf
                 logger.debug(f"Writing sky view factor file ({svf_file})")
                 fileio.write_raster_file(svf_file, svf, self.grid.transform, decimal_precision=3)
+                # Use the (rounded) values as stored in the file so that subsequent runs for which
+                # they are read from there yield the same results
+                self.state.base.svf[:] = fileio.read_raster_file(
+                    svf_file,
+                    fill_value=np.nan,
+                    dtype=float,
+                )
 
         if roi_file.exists():
             logger.info(f"Reading ROI ({roi_file})")
@@ -756,6 +762,7 @@ class OpenAmundsen:
             )
             logger.debug(f"Writing extended sky view factor file ({extended_svf_file})")
             fileio.write_raster_file(extended_svf_file, ext_svf, ext_transform, decimal_precision=3)
+            ext_svf = fileio.read_raster_file(extended_svf_file, fill_value=np.nan, dtype=float)
 
         row_offset = int(ext_offset_ul[0])
         col_offset = int(ext_offset_ul[1])
-- 
2.43.0


From f99ab57cbc4067d03454c86f3d6fb0ba75e4c17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:22 +0000
Subject: [PATCH 22/53] fix: sky view factor calculation failed if no slope
 could be calculated

---
 openamundsen/terrain.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/openamundsen/terrain.py b/openamundsen/terrain.py
index 0d44fb1..5b24476 100644
--- a/openamundsen/terrain.py
+++ b/openamundsen/terrain.py
@@ -192,10 +192,9 @@ def sky_view_factor(
 
     azim_angles = np.arange(min_azim, max_azim, azim_step)
     min_elev_angle = 1
-    max_elev_angle = max(
-        int(np.ceil(np.nanmax(slope))),
-        min_elev_angle,
-    )
+    max_elev_angle = min_elev_angle
+    if not np.all(np.isnan(slope)):  # (no slopes can be calculated next to missing pixels)
+        max_elev_angle = max(int(np.ceil(np.nanmax(slope))), max_elev_angle)
     elev_angles = np.arange(min_elev_angle, max_elev_angle + 1)[::-1]
 
     for azim_num, azim_angle in enumerate(azim_angles):
-- 
2.43.0


From 7dc4de4ad3b9ff5dbc4bc88176d7024b4ce898a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:01 +0000
Subject: [PATCH 23/53] fix: heat conduction at the base of the snow cover must
 use the soil temperature

---
 openamundsen/modules/snow/multilayermodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openamundsen/modules/snow/multilayermodel.py b/openamundsen/modules/snow/multilayermodel.py
index f63f73e..8cb741a 100644
--- a/openamundsen/modules/snow/multilayermodel.py
+++ b/openamundsen/modules/snow/multilayermodel.py
@@ -84,6 +84,7 @@ class MultilayerSnowModel(SnowModel):
             s.soil.thickness,
             model.timestep,
             s.snow.temp,
+            s.soil.temp,
             s.snow.therm_cond,
             s.soil.therm_cond,
             s.surface.heat_flux,
@@ -447,6 +448,7 @@ def _heat_conduction(
     soil_thickness,
     timestep,
     temp,
+    soil_temp,
     therm_cond_snow,
     therm_cond_soil,
     heat_flux,
@@ -476,6 +478,9 @@ def _heat_conduction(
     temp : ndarray(float, ndim=3)
         Snow temperature (K).
 
+    soil_temp : ndarray(float, ndim=3)
+        Soil temperature (K).
+
     therm_cond_snow : ndarray(float, ndim=3)
         Snow thermal conductivity (W m-1 K-1).
 
@@ -506,7 +511,7 @@ def _heat_conduction(
                 timestep,
                 temp[:ns, i, j],
                 therm_cond_snow[:ns, i, j],
-                temp[-1, i, j],
+                soil_temp[0, i, j],
                 soil_thickness[0, i, j],
                 therm_cond_soil[0, i, j],
                 heat_flux[i, j],
-- 
2.43.0


From d630e159f0166e094aea00a2135ede39f5c2c637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:13 +0000
Subject: [PATCH 24/53] fix: surface fluxes must correspond to the final
 surface temperature

---
 openamundsen/surface.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 089a34f..32061e1 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -199,7 +199,9 @@ def multilayer_energy_balance(model):
     s.surface.sens_heat_flux[roi] += sens_heat_flux_change
     calc_radiation_balance(model, roi)
     calc_latent_heat(model, roi)
+    calc_saturation_specific_humidity(model, roi)
     calc_turbulent_fluxes(model, roi, sensible=False)
+    calc_advective_heat(model, roi)
 
 
 def cryo_layer_energy_balance(model):
@@ -340,6 +342,7 @@ def cryo_layer_energy_balance(model):
     # Iteration for calculating snow surface temperature
     iterate_surface_temperature(model, frosties)
 
+    calc_saturation_specific_humidity(model, roi)
     calc_radiation_balance(model, roi)
     calc_turbulent_fluxes(model, roi)
     calc_advective_heat(model, roi)
@@ -761,7 +764,9 @@ def solve_energy_balance(model, pos):
         )
     )
 
-    surf_moisture_flux_change = (  # eq. (33) (kg m-2 s-1)
+    # (minus signs for moisture and sensible heat flux because here the fluxes are oriented towards
+    # the surface)
+    surf_moisture_flux_change = -(  # eq. (33) (kg m-2 s-1)
         s.surface.moisture_availability[pos] * rhoa_CH_Ua * dQsat_by_dTs * surf_temp_change
     )
 
@@ -769,7 +774,7 @@ def solve_energy_balance(model, pos):
         2 * s.surface.therm_cond[pos] * surf_temp_change / s.surface.thickness[pos]
     )
 
-    sens_heat_flux_change = (  # eq. (35) (W m-2)
+    sens_heat_flux_change = -(  # eq. (35) (W m-2)
         constants.SPEC_HEAT_CAP_DRY_AIR * rhoa_CH_Ua * surf_temp_change
     )
 
-- 
2.43.0


From bb4a80d844d0354ba66393e35447bc6e8d740d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:58 +0000
Subject: [PATCH 25/53] fix: do not resample station data which already have
 the requested time step

The frequencies were compared as strings, so for a time step of "24h" or "1D" the precipitation of
daily records (inferred frequency "D") was shifted by one day.
---
 openamundsen/fileio/meteo.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index e9558ee..9a05d5c 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -320,7 +320,13 @@ def _slice_and_resample_dataset(ds, start_date, end_date, freq, aggregate=False)
         # time series inferred_freq is always None)
         raise errors.MeteoDataError("File contains missing records or non-uniform timesteps")
 
-    if freq_td == td_1d and util.offset_to_timedelta(inferred_freq) < td_1d:
+    # Compare the lengths of the time steps instead of the frequency strings (e.g. "D" and "24h")
+    if inferred_freq is not None:
+        record_td = ds.indexes["time"][1] - ds.indexes["time"][0]
+    else:
+        record_td = freq_td
+
+    if freq_td == td_1d and record_td < td_1d:
         if not aggregate:
             logger.warning(
                 "File contains sub-daily data. Data will be aggregated to daily time steps despite "
@@ -330,7 +336,7 @@ def _slice_and_resample_dataset(ds, start_date, end_date, freq, aggregate=False)
 
         end_date = (end_date + td_1d).normalize()
 
-    if inferred_freq is not None and inferred_freq != freq:
+    if record_td != freq_td:
         # keep data from previous day for aggregation, if present
         ds = ds.sel(time=slice(start_date - td_1d, end_date))
         ds = _resample_dataset(ds, start_date, end_date, freq, aggregate=aggregate)
-- 
2.43.0


From 6c209defd71537715fef124afb9cc9ac559090d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:33 +0000
Subject: [PATCH 26/53] fix: aggregation of station records starting or ending
 at arbitrary times

- Daily aggregates were calculated relative to the first record instead of the start date, so records
  starting e.g. at noon were not assigned to the days of the model run.
- Records ending within an aggregation interval or before the start date raised an error.
- The last daily aggregate was incomplete for model runs not starting at midnight.
---
 openamundsen/fileio/meteo.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index 9a05d5c..c351ad2 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -334,7 +334,7 @@ def _slice_and_resample_dataset(ds, start_date, end_date, freq, aggregate=False)
             )
             aggregate = True
 
-        end_date = (end_date + td_1d).normalize()
+        end_date = end_date + td_1d
 
     if record_td != freq_td:
         # keep data from previous day for aggregation, if present
@@ -387,7 +387,7 @@ def _resample_dataset(ds, start_date, end_date, freq, aggregate=False):
         resample_kwargs = {
             "label": "left",
             "closed": "right",
-            "origin": "start",
+            "origin": pd.Timestamp(start_date),
         }
     else:
         raise errors.MeteoDataError("Resampling to frequencies > 1 day is not supported")
@@ -407,10 +407,8 @@ def _resample_dataset(ds, start_date, end_date, freq, aggregate=False):
         if "wind_dir" in df.columns:
             df_res["wind_dir"] = _aggregate_wind_dir(df, freq, resample_kwargs)
 
-        # We might end up with an extra bin after resampling; remove it here
-        df_res = df_res.loc[start_date:end_date]
-        if df_res.index[0] < df.index[0]:
-            df_res = df_res.iloc[1:]
+        # We might end up with extra bins after resampling; remove them here
+        df_res = df_res.loc[start_date:end_date].loc[df.index[0] : df.index[-1]]
     else:
         # Take the instantaneous values
         df_res = df.reindex(
-- 
2.43.0


From 40ab8e94bf11366f020b4657183a252b2de0bf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:33 +0000
Subject: [PATCH 27/53] fix: support periods within the model run without any
 station records

If the stations cover the beginning and the end of the model run but none of them the period in
between, the model run stopped there with a KeyError.
---
 openamundsen/fileio/meteo.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index c351ad2..f03310a 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -149,17 +149,19 @@ def read_meteo_data(
     ds_combined = forcing.combine_point_datasets(datasets)
     dates_combined = ds_combined.time.to_index()
 
-    if dates_combined[0] > start_date or dates_combined[-1] < end_date:
-        if not raise_on_missing_data:
-            ds_combined = ds_combined.reindex(
-                time=pd.date_range(start=start_date, end=end_date, freq=freq),
-            )
-        else:
-            raise errors.MeteoDataError(
-                "Insufficient meteo data available.\n"
-                + f"Requested period: {start_date}..{end_date}\n"
-                + f"Available period: {dates_combined[0]}..{dates_combined[-1]}"
-            )
+    if raise_on_missing_data and (
+        dates_combined[0] > start_date or dates_combined[-1] < end_date
+    ):
+        raise errors.MeteoDataError(
+            "Insufficient meteo data available.\n"
+            + f"Requested period: {start_date}..{end_date}\n"
+            + f"Available period: {dates_combined[0]}..{dates_combined[-1]}"
+        )
+
+    # There might be periods in between which are not covered by any of the stations
+    dates = pd.date_range(start=start_date, end=end_date, freq=freq)
+    if not dates_combined.equals(dates):
+        ds_combined = ds_combined.reindex(time=dates)
 
     return ds_combined
 
-- 
2.43.0


From ceeba87baaf06b94828efec0ff3b24a85ae95266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:34 +0000
Subject: [PATCH 28/53] fix: detect cloud fractions without units

The number of variables instead of the number of records was checked, so that fractions were taken for
percentages. Also report the actual units in case of wrong units.
---
 openamundsen/forcing.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/openamundsen/forcing.py b/openamundsen/forcing.py
index 9dbb627..a8afa38 100644
--- a/openamundsen/forcing.py
+++ b/openamundsen/forcing.py
@@ -143,15 +143,17 @@ def make_point_dataset(
             # <= 1. (As the cloud_fraction model variable has units "1" but for the forcing data
             # units "%" are expected, this could happen easily.)
             if data["cloud_fraction"].attrs.get("units") == "1" or (
-                len(data) > 10 and data["cloud_fraction"].max() <= 1
+                "units" not in data["cloud_fraction"].attrs
+                and len(dates) > 10
+                and data["cloud_fraction"].max() <= 1
             ):
-                data["cloud_fraction"] *= 100
+                data["cloud_fraction"] = data["cloud_fraction"] * 100
                 data["cloud_fraction"].attrs["units"] = "%"
 
         units = meta["units"]
         if "units" in data[var].attrs and data[var].units != units:
             raise errors.MeteoDataError(
-                f"{var} has wrong units: expected {units}, got {ds[var].units}"
+                f"{var} has wrong units: expected {units}, got {data[var].units}"
             )
 
         ds[var].values[:] = data[var].values
-- 
2.43.0


From 5cab4529f0bc1256487fb541d79fb51f55256473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:27 +0000
Subject: [PATCH 29/53] fix: numeric station IDs in stations.csv

IDs were read as numbers, so that they were never excluded or included, and leading zeros were lost.
---
 openamundsen/fileio/meteo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index f03310a..ada8bf8 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -538,7 +538,8 @@ def _read_meteo_metadata(meteo_format, meteo_data_dir, meteo_crs, grid_crs):
     elif meteo_format == "csv":
         filename = f"{meteo_data_dir}/stations.csv"
         try:
-            meta = pd.read_csv(filename, index_col=0)
+            # IDs are strings, even if they look like numbers
+            meta = pd.read_csv(filename, index_col=0, dtype={0: str})
         except FileNotFoundError as err:
             raise errors.MeteoDataError(f"Missing station metadata file ({filename})") from err
 
-- 
2.43.0


From 480d8f3cb12d0ea04a76390917c64ab776a599f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:58 +0000
Subject: [PATCH 30/53] fix: time step properties for time steps of a month and
 longer

For time steps with the same day of the month (or month) as the previous one, they were not recognized
as first/last time step of the day (or month).
---
 openamundsen/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index fbf8905..54b1de5 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -956,16 +956,16 @@ class OpenAmundsen:
 
         first_of_run = self.date_idx == 0
         strict_first_of_year = pot_prev_date.year != self.date.year
-        strict_first_of_month = pot_prev_date.month != self.date.month
-        strict_first_of_day = pot_prev_date.day != self.date.day
+        strict_first_of_month = strict_first_of_year or pot_prev_date.month != self.date.month
+        strict_first_of_day = pot_prev_date.date() != self.date.date()
         first_of_year = strict_first_of_year or first_of_run
         first_of_month = strict_first_of_month or first_of_run
         first_of_day = strict_first_of_day or first_of_run
 
         last_of_run = self.date_idx == len(self.dates) - 1
         strict_last_of_year = pot_next_date.year != self.date.year
-        strict_last_of_month = pot_next_date.month != self.date.month
-        strict_last_of_day = pot_next_date.day != self.date.day
+        strict_last_of_month = strict_last_of_year or pot_next_date.month != self.date.month
+        strict_last_of_day = pot_next_date.date() != self.date.date()
         last_of_year = strict_last_of_year or last_of_run
         last_of_month = strict_last_of_month or last_of_run
         last_of_day = strict_last_of_day or last_of_run
-- 
2.43.0


From a436d02d6766aea296ff2e66241b76dad82b38ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:00 +0000
Subject: [PATCH 31/53] fix: out-of-bounds access when redistributing the snow
 layers

If the new layers were filled (up to rounding) before all the previous layers were processed, the
remaining ones were written beyond the last layer.
---
 openamundsen/modules/snow/multilayermodel.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/openamundsen/modules/snow/multilayermodel.py b/openamundsen/modules/snow/multilayermodel.py
index 8cb741a..cb0e3a1 100644
--- a/openamundsen/modules/snow/multilayermodel.py
+++ b/openamundsen/modules/snow/multilayermodel.py
@@ -621,7 +621,10 @@ def _update_layers(
             # TODO optimize this loop
             for k_old in range(num_layers_prev[i, j]):
                 while True:  # TODO replace with normal loop
-                    weight = min(new_thickness / thickness_prev[k_old, i, j], 1.0)
+                    if k_new == ns - 1:  # everything that is left goes into the last layer
+                        weight = 1.0
+                    else:
+                        weight = min(new_thickness / thickness_prev[k_old, i, j], 1.0)
 
                     ice_content[k_new, i, j] += weight * ice_content_prev[k_old, i, j]
                     liquid_water_content[k_new, i, j] += (
@@ -639,12 +642,7 @@ def _update_layers(
                     energy_prev[k_old, i, j] *= 1 - weight
 
                     k_new += 1
-
-                    if k_new >= ns:
-                        break
-
-                    if weight < 1:
-                        new_thickness = thickness[k_new, i, j]
+                    new_thickness = thickness[k_new, i, j]
 
             num_layers[i, j] = ns
 
-- 
2.43.0


From 166a0dbeb44a278b208313a6c2931b6c472258a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:45 +0000
Subject: [PATCH 32/53] fix: do not modify the configuration object passed by
 the user

Deprecated keys were replaced within the original object.
---
 openamundsen/conf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openamundsen/conf.py b/openamundsen/conf.py
index 96ed4c6..a219a8a 100644
--- a/openamundsen/conf.py
+++ b/openamundsen/conf.py
@@ -55,6 +55,8 @@ class ConfigurationValidator(cerberus.Validator):
         return model
 
     def _normalize_coerce_meteo_interpolation(self, d: dict[str, Any]) -> dict[str, Any]:
+        d = d.copy()  # do not modify the original configuration
+
         # 'wind_speed' is deprecated -> change to 'wind'
         if "wind_speed" in d:
             d["wind"] = d.pop("wind_speed")
@@ -62,6 +64,8 @@ class ConfigurationValidator(cerberus.Validator):
         return d
 
     def _normalize_coerce_cloudiness(self, d: dict[str, Any]) -> dict[str, Any]:
+        d = d.copy()  # do not modify the original configuration
+
         # 'day_method' is deprecated -> change to 'method'
         if "day_method" in d:
             if "method" not in d:
-- 
2.43.0


From 6bcd4a3532c2ad97be866f42e88a11c2f9299aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:45 +0000
Subject: [PATCH 33/53] fix: merge partially specified leaf area index
 parameters with the defaults

Setting only some of the leaf_area_index parameters for a land cover class discarded the default values
of the others.
---
 openamundsen/conf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openamundsen/conf.py b/openamundsen/conf.py
index a219a8a..19f9783 100644
--- a/openamundsen/conf.py
+++ b/openamundsen/conf.py
@@ -207,7 +207,10 @@ def _merge_land_cover_params(class_params):
     for lcc, lcc_params in class_params.items():
         if lcc in merged_params:
             for k, v in lcc_params.items():
-                merged_params[lcc][k] = v
+                if isinstance(v, dict) and k in merged_params[lcc]:
+                    merged_params[lcc][k].update(v)  # e.g. leaf_area_index
+                else:
+                    merged_params[lcc][k] = v
         else:
             merged_params[lcc] = lcc_params
 
-- 
2.43.0


From 73cc6d43f3471d09c05098ce749f4b6614b57590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:45 +0000
Subject: [PATCH 34/53] fix: report invalid time steps, end dates and
 coordinate systems as configuration errors

---
 openamundsen/conf.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/openamundsen/conf.py b/openamundsen/conf.py
index 19f9783..3175488 100644
--- a/openamundsen/conf.py
+++ b/openamundsen/conf.py
@@ -45,6 +45,10 @@ class ConfigurationValidator(cerberus.Validator):
         # deprecation warnings.
         if timestep.endswith("H"):
             timestep = timestep[:-1] + "h"
+
+        if util.offset_to_timedelta(timestep) <= pd.Timedelta(0):
+            raise ConfigurationError("Time step must be positive")
+
         return timestep
 
     def _normalize_coerce_snowmodel(self, model: str) -> str:
@@ -150,7 +154,11 @@ def parse_config(config):
         raise ConfigurationError("Invalid configuration\n\n" + util.to_yaml(v.errors))
 
     full_config = Configuration.fromDict(v.document)
-    full_config["end_date"] = _parse_end_date(full_config["end_date"], full_config["timestep"])
+
+    try:
+        full_config["end_date"] = _parse_end_date(full_config["end_date"], full_config["timestep"])
+    except ValueError as err:
+        raise ConfigurationError(f"Invalid end date: {full_config['end_date']}") from err
 
     full_config["land_cover"]["classes"] = _merge_land_cover_params(
         full_config["land_cover"]["classes"]
@@ -234,7 +242,12 @@ def validate_config(config):
         raise ConfigurationError("Start/end date is not compatible with timestep")
 
     # Check if a projected CRS is used
-    if pyproj.CRS(config.crs).is_geographic:
+    try:
+        crs = pyproj.CRS(config.crs)
+    except pyproj.exceptions.CRSError as err:
+        raise ConfigurationError(f"Invalid CRS: {config.crs}") from err
+
+    if crs.is_geographic:
         raise ConfigurationError(
             f"{config.crs} is a geographic CRS, please use a projected CRS instead"
         )
-- 
2.43.0


From 26bf1675ca01eaf8d3a3692c79d20f68bf7c75d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:05 +0000
Subject: [PATCH 35/53] =?UTF-8?q?fix:=20truncated=20threshold=20temperatur?=
 =?UTF-8?q?e=20when=20specifying=200=20=C2=B0C=20in=20a=20YAML=20file?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 openamundsen/conf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openamundsen/conf.py b/openamundsen/conf.py
index 3175488..eeb5744 100644
--- a/openamundsen/conf.py
+++ b/openamundsen/conf.py
@@ -308,7 +308,10 @@ def validate_config(config):
             UserWarning,
             stacklevel=2,
         )
-        config.meteo.precipitation_phase.threshold_temp += constants.T0
+        # (do not use an in-place addition, integers read from YAML files would remain integers)
+        config.meteo.precipitation_phase.threshold_temp = (
+            config.meteo.precipitation_phase.threshold_temp + constants.T0
+        )
 
     ac = config.snow.albedo
     if ac.method == "usaco":
-- 
2.43.0


From 308405a8d3db94e04f7cfec8ce22f8ffef2cdcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:21 +0000
Subject: [PATCH 36/53] fix: output dates of monthly and yearly gridded outputs
 for arbitrary start times

---
 openamundsen/fileio/griddedoutput.py | 44 ++++++++++------------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/openamundsen/fileio/griddedoutput.py b/openamundsen/fileio/griddedoutput.py
index 532fe45..b573aaf 100644
--- a/openamundsen/fileio/griddedoutput.py
+++ b/openamundsen/fileio/griddedoutput.py
@@ -713,32 +713,17 @@ def _freq_write_dates(dates, out_freq, agg):
                     "not supported for timesteps > 1d"
                 )
 
-            period_end_dates = (
-                pd.period_range(
-                    start=dates[0],
-                    end=dates[-1],
-                    freq=out_offset,
-                )
-                .asfreq(model_freq, how="end")
-                .to_timestamp()
-            )
-
-            d0 = dates[dates <= period_end_dates[0]][-1]
-            write_dates = period_end_dates + (d0 - period_end_dates[0])
-
-            if period_end_dates[0] - write_dates[0] > pd.Timedelta("24h"):
-                write_dates = write_dates.delete(0)
-
-            # Keep the last output interval only if it is fully covered (e.g., do not write half
-            # months)
-            if len(write_dates) > 0 and write_dates[-1] > dates[-1]:
-                write_dates = write_dates.delete(-1)
+            write_dates = _last_dates_of_periods(dates, out_offset)
         else:
             write_dates = pd.date_range(
                 start=dates[0] + out_freq_td - model_freq_td,
                 end=dates[-1],
                 freq=out_offset,
             )
+    elif isinstance(
+        out_offset, (pd.tseries.offsets.YearEnd, pd.tseries.offsets.MonthEnd)
+    ) and _is_anchored(out_offset):
+        write_dates = _last_dates_of_periods(dates, out_offset)
     else:
         write_dates = pd.date_range(
             start=dates[0],
@@ -746,18 +731,19 @@ def _freq_write_dates(dates, out_freq, agg):
             freq=out_offset,
         )
 
-        if any(
-            isinstance(out_offset, o)
-            for o in (
-                pd.tseries.offsets.YearEnd,
-                pd.tseries.offsets.MonthEnd,
-            )
-        ) and model_freq_td < pd.Timedelta(days=1):
-            write_dates += pd.Timedelta(days=1) - model_freq_td
-
     return write_dates
 
 
+def _last_dates_of_periods(dates: pd.DatetimeIndex, freq: pd.offsets.BaseOffset):
+    """
+    Return the last simulation dates of all periods (e.g. months) which end within the simulation
+    period.
+    """
+    periods = pd.PeriodIndex(dates, freq=freq)
+    next_periods = pd.PeriodIndex(dates + dates.freq, freq=freq)
+    return pd.DatetimeIndex(dates[periods != next_periods], freq=None)
+
+
 def _is_anchored(offset: pd.offsets.BaseOffset) -> bool:
     """
     Replicates the is_anchored() method for an offset object, which is deprecated as of pandas
-- 
2.43.0


From 45c2ac94e7610fdf132aadaae828fda3befd3748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:04 +0000
Subject: [PATCH 37/53] fix: unsorted or duplicate output dates of gridded
 outputs

---
 openamundsen/fileio/griddedoutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/fileio/griddedoutput.py b/openamundsen/fileio/griddedoutput.py
index b573aaf..11bb2ed 100644
--- a/openamundsen/fileio/griddedoutput.py
+++ b/openamundsen/fileio/griddedoutput.py
@@ -102,7 +102,7 @@ class GriddedOutputManager:
                 agg = None
 
             if "dates" in field_cfg:
-                write_dates = pd.to_datetime(field_cfg["dates"])
+                write_dates = pd.to_datetime(field_cfg["dates"]).unique().sort_values()
             else:
                 write_dates = _freq_write_dates(model.dates, freq, agg is not None)
 
-- 
2.43.0


From 527991e0811b6c1026211ecdaa231b9d76db533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:24 +0000
Subject: [PATCH 38/53] fix: missing values of integer variables when
 converting ROI pixel datasets to grids

---
 openamundsen/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openamundsen/util.py b/openamundsen/util.py
index 5ac5229..fc445cc 100644
--- a/openamundsen/util.py
+++ b/openamundsen/util.py
@@ -156,7 +156,11 @@ def convert_roi_pixel_dataset_to_grid(ds: xr.Dataset) -> xr.Dataset:
 
         pixel_axis = da.get_axis_num("pixel")
         values = np.moveaxis(da.values, pixel_axis, -1)
-        fill_value = da.encoding.get("_FillValue", da.attrs.get("_FillValue", np.nan))
+        if np.issubdtype(da.dtype, np.floating):
+            # (the fill value of decoded integer variables has been replaced by NaN)
+            fill_value = np.nan
+        else:
+            fill_value = da.encoding.get("_FillValue", da.attrs.get("_FillValue", np.nan))
         full_values = np.full((*values.shape[:-1], nrows, ncols), fill_value, dtype=da.dtype)
         full_values.reshape(*values.shape[:-1], -1)[..., pixel_idxs] = values
 
-- 
2.43.0


From 2226ccc076437828d4549ee1fe099875a00625fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:48 +0000
Subject: [PATCH 39/53] fix: mark missing values in raster files of aggregated
 integer variables

---
 openamundsen/fileio/griddedoutput.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openamundsen/fileio/griddedoutput.py b/openamundsen/fileio/griddedoutput.py
index 11bb2ed..f21c449 100644
--- a/openamundsen/fileio/griddedoutput.py
+++ b/openamundsen/fileio/griddedoutput.py
@@ -276,6 +276,10 @@ class GriddedOutputManager:
                         if self.model.config.output_data.grids.compress:
                             rio_meta["compress"] = "lzw"
 
+                    if field.agg is not None and np.issubdtype(data.dtype, np.integer):
+                        # Aggregated integer fields contain the fill value outside of the ROI
+                        rio_meta["nodata"] = fill_value
+
                     if field.agg is None:
                         date_str = f"{date:%Y-%m-%dT%H%M}"
                     else:
-- 
2.43.0


From ab7d540de3cceeccd355de1ab2e63b3fb8072c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:58 +0000
Subject: [PATCH 40/53] fix: writing of point outputs if the first write date
 is not a model date

---
 openamundsen/fileio/pointoutput.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openamundsen/fileio/pointoutput.py b/openamundsen/fileio/pointoutput.py
index fcd44ca..fbeca94 100644
--- a/openamundsen/fileio/pointoutput.py
+++ b/openamundsen/fileio/pointoutput.py
@@ -264,6 +264,7 @@ class PointOutputManager:
         self.point_rows = [p.row for p in points]
         self.data = None
         self.format = config.format
+        self.files_created = False
 
     def _create_dataset(self, dates):
         """
@@ -401,15 +402,15 @@ class PointOutputManager:
                 ds_var.values[date_idx, :, :] = var_data[:, self.point_rows, self.point_cols]
 
         # Write data to file
-        # If we are at the first write date, simple write the file (i.e. overwrite possibly
-        # existing files), otherwise merge the already written dataset with the in-memory one.
+        # If nothing has been written yet, simply write the file (i.e. overwrite possibly existing
+        # files), otherwise merge the already written dataset with the in-memory one.
         if self.format != "memory" and date == ds.indexes["time"][-1]:
             logger.debug("Writing point outputs")
 
             if self.format == "netcdf":
                 filename = self.model.config.results_dir / "output_timeseries.nc"
 
-                if date == self.write_dates[0]:
+                if not self.files_created:
                     ds.to_netcdf(filename, engine=constants.NETCDF_ENGINE)
                 else:
                     with xr.open_dataset(filename) as old_ds:
@@ -448,9 +449,10 @@ class PointOutputManager:
 
                     df = ds_out_point.to_dataframe()
 
-                    if date == self.write_dates[0]:
+                    if not self.files_created:
                         df.to_csv(filename)
                     else:
                         df.to_csv(filename, mode="a", header=False)
 
+            self.files_created = True
             self.data = None
-- 
2.43.0


From 02b9ea0790f9a1ac63cfbfc113716ced08dd8ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:03 +0000
Subject: [PATCH 41/53] fix: mixed date formats in CSV point outputs

---
 openamundsen/fileio/pointoutput.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/openamundsen/fileio/pointoutput.py b/openamundsen/fileio/pointoutput.py
index fbeca94..daf277f 100644
--- a/openamundsen/fileio/pointoutput.py
+++ b/openamundsen/fileio/pointoutput.py
@@ -438,6 +438,13 @@ class PointOutputManager:
 
                         ds_out = ds_out.drop_vars(var.output_name)
 
+                # Set the date format explicitly because otherwise it would depend on the dates of the
+                # current chunk (only the date would be written if all times are 00:00)
+                if (self.model.dates == self.model.dates.normalize()).all():
+                    date_format = "%Y-%m-%d"
+                else:
+                    date_format = "%Y-%m-%d %H:%M:%S"
+
                 for point in self.points:
                     filename = self.model.config.results_dir / f"point_{point.name}.csv"
 
@@ -450,9 +457,9 @@ class PointOutputManager:
                     df = ds_out_point.to_dataframe()
 
                     if not self.files_created:
-                        df.to_csv(filename)
+                        df.to_csv(filename, date_format=date_format)
                     else:
-                        df.to_csv(filename, mode="a", header=False)
+                        df.to_csv(filename, mode="a", header=False, date_format=date_format)
 
             self.files_created = True
             self.data = None
-- 
2.43.0


From b7a1c95c8cec507c17fce3b7fa3e15d96f731dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:21 +0000
Subject: [PATCH 42/53] fix: resetting of boolean state variables

---
 openamundsen/statevars.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openamundsen/statevars.py b/openamundsen/statevars.py
index 24132a8..f9bc53d 100644
--- a/openamundsen/statevars.py
+++ b/openamundsen/statevars.py
@@ -12,6 +12,7 @@ _DTYPE_INIT_VALS = {
 }
 _DTYPE_INIT_VALS[np.dtype("float64")] = _DTYPE_INIT_VALS[float]
 _DTYPE_INIT_VALS[np.dtype("int64")] = _DTYPE_INIT_VALS[int]
+_DTYPE_INIT_VALS[np.dtype("bool")] = _DTYPE_INIT_VALS[bool]
 
 
 class StateVariableManager:
-- 
2.43.0


From 54f9b73a1f15fae10404f3d1707347748fdf750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:12 +0000
Subject: [PATCH 43/53] fix: retain glacier IDs when resetting the state
 variables

---
 openamundsen/modules/glacier/glaciermodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index e83ffe5..e274eae 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -28,7 +28,7 @@ class GlacierModel:
         self.model = model
         s = model.state
         sg = s.add_category("glaciers")
-        sg.add_variable("glacier", long_name="Glacier ID", dtype=int)
+        sg.add_variable("glacier", long_name="Glacier ID", dtype=int, retain=True)
         self.mass_balance_start_we = None
 
     def initialize(self):
-- 
2.43.0


From 7ba670a5b06d542a1d43ca33b61284be226ddbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:01 +0000
Subject: [PATCH 44/53] fix: restore the number of numba threads after errors

---
 openamundsen/model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index 54b1de5..13da42c 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -258,6 +258,13 @@ class OpenAmundsen:
             prev_num_threads = numba.get_num_threads()
             numba.set_num_threads(self._numba_threads)
 
+        try:
+            self._process_time_step()
+        finally:
+            if self._numba_threads is not None:
+                numba.set_num_threads(prev_num_threads)
+
+    def _process_time_step(self):
         if self.date_idx is None:
             self.date_idx = 0
         elif self.date_idx == len(self.dates) - 1:
@@ -287,9 +294,6 @@ class OpenAmundsen:
             logger.debug("Updating live view window")
             self.liveview.update(self.date)
 
-        if self._numba_threads is not None:
-            numba.set_num_threads(prev_num_threads)
-
     def global_mask(self, mask, global_mask=None, global_idxs=None):
         if global_idxs is None:
             if global_mask is None:
-- 
2.43.0


From 4851879ad4763ba4a4f552fa6e038847fb62a563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:09 +0000
Subject: [PATCH 45/53] fix: cloudiness from radiation stations outside the
 region of interest

---
 openamundsen/modules/radiation/irradiance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openamundsen/modules/radiation/irradiance.py b/openamundsen/modules/radiation/irradiance.py
index 782af11..d62fa29 100644
--- a/openamundsen/modules/radiation/irradiance.py
+++ b/openamundsen/modules/radiation/irradiance.py
@@ -181,9 +181,9 @@ def shortwave_irradiance(model):
             method = "clear_sky_fraction"
 
     if method == "clear_sky_fraction":
-        # Select stations within the grid extent and with shortwave radiation measurements for the
-        # current time step
-        ds_rad = meteo_ds.sel(station=model.meteo.within_grid_extent).dropna(
+        # Select stations within the ROI (clear-sky radiation is not available elsewhere) and with
+        # shortwave radiation measurements for the current time step
+        ds_rad = meteo_ds.sel(station=model.meteo.within_roi).dropna(
             "station",
             subset=["sw_in"],
         )
-- 
2.43.0


From 5e581b7f15d7dc991d651f0b67c5775e3bb56940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:00 +0000
Subject: [PATCH 46/53] fix: ice mass of pixels which are not part of a glacier
 geometry update

---
 openamundsen/modules/glacier/glaciermodel.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index e274eae..f66e514 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -65,7 +65,7 @@ class GlacierModel:
         firn_mb = mb_layers[CryoLayerID.FIRN, :]
         mb = ice_mb + firn_mb
         old_ice_thickness = self.mass_balance_start_we[CryoLayerID.ICE, :] / c.ICE_DENSITY
-        new_ice_thickness = s.snow.thickness[CryoLayerID.ICE, :].copy()
+        ice_density = model.config.snow.cryolayers.transition.ice
 
         for gid in self.glacier_ids:
             gpos = (s.glaciers.glacier == gid) & (old_ice_thickness > 0.0)
@@ -121,12 +121,16 @@ class GlacierModel:
                 max_allowed_change,
             )
 
-            new_ice_thickness[update_pos] = (
-                old_ice_thickness[update_pos] + (mass_change - firn_mb[update_pos]) / c.ICE_DENSITY
+            # (the ice of all other pixels remains unchanged)
+            new_ice_content = (
+                self.mass_balance_start_we[CryoLayerID.ICE, update_pos]
+                + mass_change
+                - firn_mb[update_pos]
             ).clip(min=0.0)
-
-        s.snow.thickness[CryoLayerID.ICE, :] = new_ice_thickness
-        s.snow.ice_content[CryoLayerID.ICE, :] = new_ice_thickness * c.ICE_DENSITY
+            s.snow.ice_content[CryoLayerID.ICE, update_pos] = new_ice_content
+            s.snow.liquid_water_content[CryoLayerID.ICE, update_pos] = 0.0
+            s.snow.density[CryoLayerID.ICE, update_pos] = ice_density
+            s.snow.thickness[CryoLayerID.ICE, update_pos] = new_ice_content / ice_density
 
         model.snow.update_layers()
 
-- 
2.43.0


From 0a5418059ebe4a8082709fc124dbf4a13e8f5f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:17 +0000
Subject: [PATCH 47/53] fix: glacier geometry update for pixels without
 elevation differences

---
 openamundsen/modules/glacier/glaciermodel.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index f66e514..cd0b1f1 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -170,6 +170,11 @@ def _ice_mass_change(elevs, total_mb, glacier_area, max_allowed_change):
     if total_mb < 0:
         min_elev = elevs.min()
         max_elev = elevs.max()
+
+        if max_elev == min_elev:
+            # Distribute the mass loss equally if there are no elevation differences
+            return np.full(elevs.size, total_mb / elevs.size)
+
         normalized_elevs = (max_elev - elevs) / (max_elev - min_elev)
         delta_h = _delta_h(normalized_elevs, glacier_area)
         fs = total_mb / delta_h.sum()
@@ -209,6 +214,9 @@ def _mass_loss_surplus_distribution(mass_loss, elevs):
     max_elev = elevs.max()
     min_mass = 0.0
 
+    if max_elev == min_elev:
+        return np.full(elevs.size, mass_loss / elevs.size)
+
     x0 = 0.0
     x1 = mass_loss / elevs.size * 1.5
     y0 = np.sum(_scale_mass_loss_surplus(mass_loss, elevs, min_elev, max_elev, min_mass, x0))
-- 
2.43.0


From 688c294d002bb11bf6856733820af5b78ca2418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:17 +0000
Subject: [PATCH 48/53] fix: snow water equivalent after glacier geometry
 updates

---
 openamundsen/modules/glacier/glaciermodel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index cd0b1f1..1578645 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -133,6 +133,7 @@ class GlacierModel:
             s.snow.thickness[CryoLayerID.ICE, update_pos] = new_ice_content / ice_density
 
         model.snow.update_layers()
+        model.snow.update_properties()
 
         # TODO: when glacier advance is enabled, update the previous ice mass distributions here
 
-- 
2.43.0


From 72637065cd4961947280f796dd3c9b82eb3d128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:12 +0000
Subject: [PATCH 49/53] fix: missing values in glacier grids

---
 openamundsen/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index 13da42c..23589b9 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -695,6 +695,8 @@ class OpenAmundsen:
                 self.state.glaciers.glacier[:] = fileio.read_raster_file(
                     glaciers_file,
                     check_meta=self.grid,
+                    fill_value=0,
+                    dtype=int,
                 )
             else:
                 raise FileNotFoundError(f"Glaciers file not found: {glaciers_file}")
-- 
2.43.0


From 7fbb10f901a4f22db10cf0578585a4dcd1b32d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:16 +0000
Subject: [PATCH 50/53] fix: rejection of aligned extended DEMs due to rounding

---
 openamundsen/model.py | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index 23589b9..8285702 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -728,27 +728,16 @@ class OpenAmundsen:
         grid_transform = self.grid.transform
         ext_transform = ext_meta["transform"]
         grid_ul_xy = rasterio.transform.xy(grid_transform, 0, 0, offset="ul")
-        grid_lr_xy = rasterio.transform.xy(
-            grid_transform,
-            self.grid.rows - 1,
-            self.grid.cols - 1,
-            offset="lr",
-        )
-        ext_ul_xy = rasterio.transform.xy(ext_transform, 0, 0, offset="ul")
-        ext_lr_xy = rasterio.transform.xy(
-            ext_transform,
-            ext_meta["rows"] - 1,
-            ext_meta["cols"] - 1,
-            offset="lr",
-        )
         ext_offset_ul = rasterio.transform.rowcol(ext_transform, *grid_ul_xy, op=float)
-        if not (float.is_integer(ext_offset_ul[0]) and float.is_integer(ext_offset_ul[1])):
+        row_offset = int(np.round(ext_offset_ul[0]))
+        col_offset = int(np.round(ext_offset_ul[1]))
+        if not np.allclose(ext_offset_ul, (row_offset, col_offset), rtol=0, atol=1e-6):
             raise errors.RasterFileError("Extended DEM is not aligned correctly")
         if not (
-            grid_ul_xy[0] >= ext_ul_xy[0]
-            and grid_ul_xy[1] <= ext_ul_xy[1]
-            and grid_lr_xy[0] <= ext_lr_xy[0]
-            and grid_lr_xy[1] >= ext_lr_xy[1]
+            row_offset >= 0
+            and col_offset >= 0
+            and row_offset + self.grid.rows <= ext_meta["rows"]
+            and col_offset + self.grid.cols <= ext_meta["cols"]
         ):
             raise errors.RasterFileError("Extended DEM does not fully cover the model grid")
 
@@ -770,8 +759,6 @@ class OpenAmundsen:
             fileio.write_raster_file(extended_svf_file, ext_svf, ext_transform, decimal_precision=3)
             ext_svf = fileio.read_raster_file(extended_svf_file, fill_value=np.nan, dtype=float)
 
-        row_offset = int(ext_offset_ul[0])
-        col_offset = int(ext_offset_ul[1])
         self.grid.extended_grid.available = True
         self.grid.extended_grid.rows = ext_dem.shape[0]
         self.grid.extended_grid.cols = ext_dem.shape[1]
-- 
2.43.0


From f8b589b9b6a9483df36eff1296f8a5200647cbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:49 +0000
Subject: [PATCH 51/53] fix: longwave irradiance after gaps in the temperature
 data

---
 openamundsen/modules/radiation/irradiance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openamundsen/modules/radiation/irradiance.py b/openamundsen/modules/radiation/irradiance.py
index d62fa29..10f4761 100644
--- a/openamundsen/modules/radiation/irradiance.py
+++ b/openamundsen/modules/radiation/irradiance.py
@@ -313,12 +313,16 @@ def longwave_irradiance(model):
     # Incoming longwave radiation from surrounding slopes
     snowfree_count = (model.state.snow.swe[roi] == 0).sum()
     rock_fraction = snowfree_count / model.grid.roi.sum()
+    # The surface temperature of the previous time step might be unknown after gaps in the forcing
+    # data
+    surface_temp = model.state.surface.temp[roi]
+    surface_temp = np.where(np.isnan(surface_temp), m.temp[roi], surface_temp)
     lw_in_slopes = (
         constants.STEFAN_BOLTZMANN
         * (1 - model.state.base.svf[roi])
         * (
             rock_fraction * (m.temp[roi] + rock_emission_factor * m.sw_in[roi]) ** 4
-            + (1 - rock_fraction) * model.state.surface.temp[roi] ** 4
+            + (1 - rock_fraction) * surface_temp**4
         )
     )
 
-- 
2.43.0


From 645d1560d5782d3c7eb41b9d67066c237ecbd9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:41 +0000
Subject: [PATCH 52/53] fix: set the moisture fractions of dry soil layers

The frozen and unfrozen moisture fractions of layers without any moisture
remained undefined, which made the surface conductance and consequently all
surface fluxes undefined, i.e., the surface temperature never changed.
---
 openamundsen/modules/soil/soil.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openamundsen/modules/soil/soil.py b/openamundsen/modules/soil/soil.py
index f45aeef..ce7372c 100644
--- a/openamundsen/modules/soil/soil.py
+++ b/openamundsen/modules/soil/soil.py
@@ -205,6 +205,8 @@ def _soil_properties(
                     i, j
                 ]
             else:  # vol_moisture_content[k, i, j] == 0
+                frac_unfrozen_moisture_content[k, i, j] = 0.0
+                frac_frozen_moisture_content[k, i, j] = 0.0
                 heat_cap[k, i, j] = vol_heat_cap_dry[i, j] * thickness[k, i, j]
                 therm_cond[k, i, j] = therm_cond_dry[i, j]
 
-- 
2.43.0


From 012a3295e552f8dc092b9fe16718f3ee39f4e480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:12 +0000
Subject: [PATCH 53/53] fix: keep the canopy-intercepted load defined if
 precipitation is unknown

---
 openamundsen/modules/canopy/canopy.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/openamundsen/modules/canopy/canopy.py b/openamundsen/modules/canopy/canopy.py
index 0230b2a..d50c732 100644
--- a/openamundsen/modules/canopy/canopy.py
+++ b/openamundsen/modules/canopy/canopy.py
@@ -184,12 +184,13 @@ class CanopyModel:
         sublim_loss_rate_coeff = mass_loss_rate / particle_mass
 
         # Update canopy-intercepted load (kg m-2) (eq. (20))
+        snowfall = np.nan_to_num(s.meteo.snowfall[pos])  # (no interception if unknown)
         max_interception_storage = (
             model.config.canopy.max_interception_storage_coefficient * s.land_cover.lai_eff[pos]
         )
         new_canopy_intercepted_load = s.snow.canopy_intercepted_load[pos] + 0.7 * (
             max_interception_storage - s.snow.canopy_intercepted_load[pos]
-        ) * (1 - np.exp(-s.meteo.snowfall[pos] / max_interception_storage))
+        ) * (1 - np.exp(-snowfall / max_interception_storage))
         # No interception if the storage capacity has dropped below the current load (LAI decline)
         new_canopy_intercepted_load = np.maximum(
             new_canopy_intercepted_load, s.snow.canopy_intercepted_load[pos]
@@ -235,8 +236,9 @@ class CanopyModel:
 
         # Precipitation reaching the ground: reduce snowfall by canopy interception and increase by
         # melt unload
-        s.meteo.snowfall[pos] -= s.snow.canopy_intercepted_snowfall[pos]
-        s.meteo.snowfall[pos] += s.snow.canopy_melt[pos]
+        s.meteo.snowfall[pos] = (
+            snowfall - s.snow.canopy_intercepted_snowfall[pos] + s.snow.canopy_melt[pos]
+        )
         s.meteo.precip[pos] = s.meteo.snowfall[pos] + s.meteo.rainfall[pos]
 
 
-- 
2.43.0

