From 7f7e1c3b006050cb63d877cf23f7a760da10439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 01/20] fix: hle1 reports non-convergence and handles neutral
 stability

The loop counter never reaches ITMAX, so a status of -1 was never returned
and fluxes of an oscillating iteration were used as if converged. In neutral
conditions the counter was not defined at all (UnboundLocalError).
---
 pysnobal/point/libsnobal.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pysnobal/point/libsnobal.py b/pysnobal/point/libsnobal.py
index 0942bd1..5cab549 100644
--- a/pysnobal/point/libsnobal.py
+++ b/pysnobal/point/libsnobal.py
@@ -257,6 +257,8 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
     dens = gas_density(press, MOL_AIR, virtual_temperature(
         math.sqrt(air_temp * surface_temp), math.sqrt(ea * es), press))
 
+    ier = 0
+
     # if neutral stability ignore starting values and calculate
     if air_temp == surface_temp:
 
@@ -311,10 +313,11 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
             # it += 1
             if (np.abs(diff) < THRESH) and (np.abs(diff/lo) < THRESH):
                 break
-            # if it > ITMAX:
-            #     break
-
-    ier = -1 if (it >= ITMAX) else 0
+        else:
+            # ran out of iterations, no convergence unless one of the
+            # criteria is met
+            if (np.abs(diff) > THRESH) and (np.abs(diff/lo) > THRESH):
+                ier = -1
 
     xlh = lh_vap(surface_temp)
     if surface_temp <= FREEZE:
-- 
2.43.0


From f8456c6aecd7e09e2884dccad38028a1c49e3ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 02/20] fix: hle1 with zero wind speed, or started from a calm
 solution

The stability length was 0/0: ZeroDivisionError for floats, NaN and 50 wasted
iterations for numpy scalars.
---
 pysnobal/point/libsnobal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pysnobal/point/libsnobal.py b/pysnobal/point/libsnobal.py
index 5cab549..6390f6c 100644
--- a/pysnobal/point/libsnobal.py
+++ b/pysnobal/point/libsnobal.py
@@ -260,7 +260,8 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
     ier = 0
 
     # if neutral stability ignore starting values and calculate
-    if air_temp == surface_temp:
+    # without wind there is no turbulent exchange
+    if air_temp == surface_temp or wind_speed == 0:
 
         # starting value, assume neutral stability, so psi-functions
         # are all zero
@@ -276,12 +277,12 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
         lo = 1e500
 
         # initialize ustar and factor
-        if init_ustar is None:
+        if not init_ustar:
             ustar = VON_KARMAN * wind_speed / ltsm
         else:
             ustar = init_ustar
 
-        if init_factor is None:
+        if not init_factor:
             factor = VON_KARMAN * ustar * dens
         else:
             factor = init_factor
-- 
2.43.0


From cd7a9f990d991eb592dfdb359ce06dccd27a70d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 03/20] fix: honour the relative_heights setting

The setting was parsed and passed in params but never used.
---
 pysnobal/point/snobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index e0d93a5..38779d2 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -58,7 +58,7 @@ class Snobal(object):
 
         # get measurement-height record
         self.measurement_heights = meas_heights
-        self.relative_hts = False
+        self.relative_hts = params.get('relative_heights', False)
 
         self.time_since_out = 0
 
-- 
2.43.0


From 528dbdcd5b06e7eb8a14e08c12411c3ef1fb9214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 04/20] fix: liquid water counted twice when the snowcover
 disappears

The mass turned into water includes the liquid water already in h2o_total.
---
 pysnobal/point/snobal.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 38779d2..b562b60 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -610,6 +610,11 @@ class Snobal(object):
                 self.adj_snow(
                     self.input1.z_snow, self.input1.m_pp)
 
+                # The snowcover was removed and all of its mass, including
+                # this precipitation, is liquid water now
+                if not self.snowcover:
+                    return
+
                 # Determine the additional liquid water that's in
                 # the snowfall, and then add its mass to liquid
                 # water in the whole snowcover.
@@ -838,9 +843,9 @@ class Snobal(object):
             self.snow_state.rho = 0
 
             # if mass > 0, then it must be velow threshold.
-            # So turn this little bit of mass into water
-            if self.snow_state.m_s > 0:
-                self.snow_state.h2o_total += self.snow_state.m_s
+            # So turn this little bit of mass into water. The mass already
+            # includes the liquid water of the snowcover
+            self.snow_state.h2o_total = max(self.snow_state.m_s, 0)
 
             # set a bunch of values to 0
             index = ['h2o_vol', 'h2o', 'h2o_max', 'h2o_sat',
-- 
2.43.0


From b48125805eabda0b1eb8fbe1736f1608a07e025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 05/20] fix: no negative depth when melt removes more than the
 snowcover's depth

---
 pysnobal/point/snow_state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysnobal/point/snow_state.py b/pysnobal/point/snow_state.py
index 0457169..8a0f86e 100644
--- a/pysnobal/point/snow_state.py
+++ b/pysnobal/point/snow_state.py
@@ -268,8 +268,8 @@ class SnowState():
 
         """
 
-        if self.m_s <= self.small_threshold:
-            # less than minimum layer mass, so treat as no snowcover
+        if self.m_s <= self.small_threshold or self.z_s <= 0:
+            # no depth left or less than minimum layer mass, so treat as no snowcover
             # can change to the set zeros
             z_s_0 = z_s_l = 0
 
-- 
2.43.0


From dafaf7bd04b62b5c1af5d2e3ee78c03b6ecb7310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 06/20] fix: compaction of snowcovers above SWE_MAX ignored the
 time step length

---
 pysnobal/point/snobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index b562b60..1244af9 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -782,7 +782,7 @@ class Snobal(object):
             rate = 1.0
         else:
             rate = R1 * math.cos(np.pi * self.snow_state.m_s / SWE_MAX) + R2
-            rate = rate / (self.time_step / 3600.0)
+        rate = rate / (self.time_step / 3600.0)
 
         # Proportional Destructive Temperature Metamorphism (d_rho_m)
         if self.snow_state.rho < 100:
-- 
2.43.0


From 7c53ba4242c55580c0d19a0bd16ae0b3fdb61804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 07/20] fix: undefined saturation when the snow cannot hold any
 water (max_h2o = 0)

---
 pysnobal/point/snobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 1244af9..40e6470 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -342,7 +342,7 @@ class Snobal(object):
             self.snow_state.swi = 0.0
             self.snow_state.h2o = self.snow_state.h2o_total
             self.snow_state.h2o_sat = self.snow_state.h2o / \
-                self.snow_state.h2o_max
+                self.snow_state.h2o_max if self.snow_state.h2o_max > 0 else 0.0
             self.snow_state.h2o_vol = self.snow_state.h2o_sat * \
                 self.snow_state.max_h2o_vol
 
-- 
2.43.0


From a6e856c02b8d74ddb6b60777973b43c2d7b7be06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 08/20] fix: sort the input data before taking its time delta

---
 pysnobal/pysnobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 0787d2b..46c483a 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -232,8 +232,8 @@ class PySnobal():
             self.config['time']['time_zone'])
 
         # get the time delta of the data
-        tdelta = input_data.index.to_series().diff().dropna().unique()[0]
         input_data.sort_index(inplace=True)
+        tdelta = input_data.index.to_series().diff().dropna().unique()[0]
 
         # clip to the start and end date
         # Add one time step as each Snobal timestep requires two input
-- 
2.43.0


From 1830857c4ab5f5857352dfdc427ff9d7dc534c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 09/20] fix: initial snow temperatures of the config file are
 in Celsius

They were used as Kelvin, and the lower layer temperature was not set, so a
run could not start with snow on the ground.
---
 pysnobal/pysnobal.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 46c483a..318f70b 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -286,10 +286,16 @@ class PySnobal():
         input_data1 = InputData(input_data[self.input_data.index[0]])
         del input_data[self.input_data.index[0]]
 
+        # convert to Kelvin, the lower layer starts at the average temperature
+        initial_conditions = dict(self.config['initial_snow_properties'])
+        initial_conditions['t_s_0'] += FREEZE
+        initial_conditions['t_s'] += FREEZE
+        initial_conditions['t_s_l'] = initial_conditions['t_s']
+
         self.snobal = Snobal(
             self.params,
             self.tstep_info,
-            self.config['initial_snow_properties'],
+            initial_conditions,
             self.measurement_heights,
             self.output_mode
         )
-- 
2.43.0


From 221f0cf84e28c061eaa12a6e2a32fbf5c9214611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 10/20] fix: capping vapor pressure at saturation altered the
 interpolated input

---
 pysnobal/point/snobal.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 40e6470..87eba23 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -1051,14 +1051,16 @@ class Snobal(object):
         2-layer snowcover
         """
 
-        # error check for bad vapor pressures
+        # error check for bad vapor pressures, the input itself is not
+        # changed as it's being interpolated over the data timestep
         sat_vp = self.input1.sat_vp
+        e_a = self.input1.e_a
 
-        if self.input1.e_a > sat_vp:
+        if e_a > sat_vp:
             warnings.warn(
                 """{} h_le: input vapor pressure is greater than """
                 """saturation vapor pressure""".format(self.current_datetime))
-            self.input1.e_a = sat_vp
+            e_a = sat_vp
 
         # determine relative measurement heights
         if self.relative_hts:
@@ -1074,7 +1076,7 @@ class Snobal(object):
             self.input1.t_a,
             self.snow_state.t_s_0,
             rel_z_T,
-            self.input1.e_a,
+            e_a,
             self.snow_state.e_s_0,
             rel_z_T,
             self.input1.u,
@@ -1095,7 +1097,7 @@ class Snobal(object):
                 """relative z_T={}, e_a={}, e_s={}\n"""
                 """u={}, relative z_u={}, z_0={}\n""".format(
                     self.P_a, self.input1.t_a, self.snow_state.t_s_0, rel_z_T,
-                    self.input1.e_a, self.snow_state.e_s_0, self.input1.u,
+                    e_a, self.snow_state.e_s_0, self.input1.u,
                     rel_z_u, self.snow_state.z_0))
 
         self.snow_state.H = H
-- 
2.43.0


From b3f4f3d5252974ee5814c42a2877f572226152ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 11/20] fix: release everything when no ice is left, instead of
 a negative snow mass

---
 pysnobal/point/snobal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 87eba23..fb46e07 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -313,6 +313,12 @@ class Snobal(object):
         Calculates runoff for point energy budget 2-layer snowmelt model
         """
 
+        # If there's no ice left, the whole snowcover is liquid water
+        if self.snowcover and \
+                (self.snow_state.h2o_total >= self.snow_state.m_s):
+            self.snow_state.z_s = 0
+            self.adj_layers()
+
         # If no snow on ground at start of timestep or no layers currently,
         # then all water (e.g., rain) is runoff.
 
-- 
2.43.0


From 7928926c8461f050d57f4bdeab2ce7237d86ac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 12/20] fix: divide data steps longer than the normal time step
 in file runs

---
 pysnobal/pysnobal.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 318f70b..734a4d9 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -235,6 +235,13 @@ class PySnobal():
         input_data.sort_index(inplace=True)
         tdelta = input_data.index.to_series().diff().dropna().unique()[0]
 
+        # the data time step is divided into normal time steps
+        intervals = int(
+            tdelta / self.tstep_info[NORMAL_TSTEP]['time_step_timedelta'])
+        self.tstep_info[NORMAL_TSTEP]['intervals'] = intervals
+        for tstep in self.tstep_info:
+            tstep['intervals_per_timestep'] *= intervals
+
         # clip to the start and end date
         # Add one time step as each Snobal timestep requires two input
         # data classes
-- 
2.43.0


From 6817f618ec59a1e4b717aa37fba672f66a2a39a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 13/20] fix: evaporation reported more than the mass of the
 snowcover (C01)

---
 pysnobal/point/snobal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index fb46e07..b666998 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -486,6 +486,10 @@ class Snobal(object):
 
         self.snow_state.E_s = E_s_0 + E_s_l
 
+        # no more can evaporate than there is
+        if self.snow_state.E_s < -self.snow_state.m_s:
+            self.snow_state.E_s = -self.snow_state.m_s
+
         # adj mass and depth for evap/cond
         if self.snow_state.snowcover:
             delta_z = ((self.snow_state.E_s + prev_h2o_tot -
-- 
2.43.0


From 5a608d72ba860b5d3eec1cdfefa6eb422529583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 14/20] fix: records before the start date decided the interval
 of the data (C18)

---
 pysnobal/pysnobal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 734a4d9..447e79e 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -231,8 +231,10 @@ class PySnobal():
         input_data.index = input_data.index.tz_localize(
             self.config['time']['time_zone'])
 
-        # get the time delta of the data
+        # get the time delta of the data, records before the start date
+        # may be at another interval
         input_data.sort_index(inplace=True)
+        input_data = input_data.loc[self.start_date:, :]
         tdelta = input_data.index.to_series().diff().dropna().unique()[0]
 
         # the data time step is divided into normal time steps
-- 
2.43.0


From cb95042511f611ab49bc9f41e8dc5d40b55833d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:09 +0000
Subject: [PATCH 15/20] fix: totals of a gridded snow state altered the arrays
 of the step (C25)

---
 pysnobal/spatial/snow_state.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysnobal/spatial/snow_state.py b/pysnobal/spatial/snow_state.py
index a4f2cd2..6baee94 100644
--- a/pysnobal/spatial/snow_state.py
+++ b/pysnobal/spatial/snow_state.py
@@ -132,6 +132,6 @@ class SpatialSnowState(SnowState):
                               getattr(self, variable), time_step)
             setattr(self, bar_variable, ta)
 
-        self.E_s_sum += self.E_s
-        self.melt_sum += self.melt
-        self.swi_sum += self.swi
+        self.E_s_sum = self.E_s_sum + self.E_s
+        self.melt_sum = self.melt_sum + self.melt
+        self.swi_sum = self.swi_sum + self.swi
-- 
2.43.0


From 8f01de478b51d77b03a04c1709751633ed6d7300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:48 +0000
Subject: [PATCH 16/20] fix: saturation of an array altered it and refused
 integers (C25)

---
 pysnobal/point/libsnobal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysnobal/point/libsnobal.py b/pysnobal/point/libsnobal.py
index 6390f6c..904e6c5 100644
--- a/pysnobal/point/libsnobal.py
+++ b/pysnobal/point/libsnobal.py
@@ -36,7 +36,8 @@ def satw_np(tk):
         saturated vapor pressure over water
     """
 
-    # remove bad values
+    # remove bad values, not from the values passed in
+    tk = tk * 1.0
     tk[tk < 0] = np.nan
 
     btk = BOIL/tk
@@ -60,7 +61,8 @@ def sati_np(tk):
     20151027 Scott Havens
     """
 
-    # remove bad values
+    # remove bad values, not from the values passed in
+    tk = tk * 1.0
     tk[tk < 0] = np.nan
 
     # preallocate
-- 
2.43.0


From 7851b7a244b4fde16c8bfb527e5074d0f8d71032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:48 +0000
Subject: [PATCH 17/20] fix: records with missing values made the snowcover
 vanish (C24)

---
 pysnobal/pysnobal.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 447e79e..a34bfea 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -248,6 +248,7 @@ class PySnobal():
         # Add one time step as each Snobal timestep requires two input
         # data classes
         input_data = input_data.loc[self.start_date:self.end_date + tdelta, :]
+        self.check_input_data(input_data)
 
         # convert to Kelvin
         input_data.precip_temp += FREEZE
@@ -264,6 +265,35 @@ class PySnobal():
 
         self.map_input_data()
 
+    def check_input_data(self, input_data):
+        """
+        Check that the records of the simulation are complete
+
+        Args:
+            input_data: dataframe of the records from start to end date
+        """
+
+        # what the precipitation is like is needed when there is some
+        precip = input_data.precip_mass > 0
+        snow = precip & (input_data.percent_snow > 0)
+        needed = {
+            'net_solar': True,
+            'incoming_thermal': True,
+            'air_temp': True,
+            'vapor_pressure': True,
+            'wind_speed': True,
+            'soil_temp': True,
+            'precip_mass': True,
+            'percent_snow': precip,
+            'precip_temp': precip,
+            'rho_snow': snow
+        }
+        for column, when in needed.items():
+            missing = ~np.isfinite(input_data[column]) & when
+            if missing.any():
+                raise ValueError('The input data has no {} for {}'.format(
+                    column, missing[missing].index[0]))
+
     def map_input_data(self):
         """
         Maps the input data from a dataframe to that needed by Snobal
-- 
2.43.0


From 4991c536af294ad3c81e0f31d5b28ea1c9aed771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:48 +0000
Subject: [PATCH 18/20] fix: records missing in the window shifted the time of
 the others (C18)

---
 pysnobal/pysnobal.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index a34bfea..ed8650f 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -248,7 +248,7 @@ class PySnobal():
         # Add one time step as each Snobal timestep requires two input
         # data classes
         input_data = input_data.loc[self.start_date:self.end_date + tdelta, :]
-        self.check_input_data(input_data)
+        self.check_input_data(input_data, tdelta)
 
         # convert to Kelvin
         input_data.precip_temp += FREEZE
@@ -265,14 +265,25 @@ class PySnobal():
 
         self.map_input_data()
 
-    def check_input_data(self, input_data):
+    def check_input_data(self, input_data, tdelta):
         """
         Check that the records of the simulation are complete
 
         Args:
             input_data: dataframe of the records from start to end date
+            tdelta: time between two records
         """
 
+        # the model's clock begins at the start date and every record moves
+        # it on by the same time
+        times = input_data.index
+        if times[0] != self.start_date or \
+                times[-1] <= self.end_date - tdelta or \
+                not (times[1:] - times[:-1] == tdelta).all():
+            raise ValueError(
+                'The input data does not have every record from {} to {}'
+                .format(self.start_date, self.end_date))
+
         # what the precipitation is like is needed when there is some
         precip = input_data.precip_mass > 0
         snow = precip & (input_data.percent_snow > 0)
-- 
2.43.0


From 12585749895b0cc117d3d8275950ae0c111e8d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:04 +0000
Subject: [PATCH 19/20] fix: refuse time steps that do not divide evenly, the
 clock went wrong (C10)

---
 pysnobal/pysnobal.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index ed8650f..f40001b 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -124,6 +124,13 @@ class PySnobal():
             self.config['model']['small_time_step'],
         ]
 
+        # each one has to divide the one above it
+        for longer, shorter in zip(time_step, time_step[1:]):
+            if shorter <= 0 or longer < shorter or longer % shorter != 0:
+                raise ValueError(
+                    'A time step of {} min is not divided evenly by {} min'
+                    .format(longer, shorter))
+
         tstep_info = []
         config_names = ['norm', 'medium', 'small']
         for i in range(3):
@@ -238,8 +245,12 @@ class PySnobal():
         tdelta = input_data.index.to_series().diff().dropna().unique()[0]
 
         # the data time step is divided into normal time steps
-        intervals = int(
-            tdelta / self.tstep_info[NORMAL_TSTEP]['time_step_timedelta'])
+        normal = self.tstep_info[NORMAL_TSTEP]['time_step_timedelta']
+        intervals = int(tdelta / normal)
+        if intervals * normal != tdelta:
+            raise ValueError(
+                'Input data every {} is not divided evenly by {}'
+                .format(tdelta, normal))
         self.tstep_info[NORMAL_TSTEP]['intervals'] = intervals
         for tstep in self.tstep_info:
             tstep['intervals_per_timestep'] *= intervals
-- 
2.43.0


From 2219194f1099447f7b5d71ab8999a8bd12af3cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:24 +0000
Subject: [PATCH 20/20] fix: rain without a snow density made the snowcover
 vanish (C24)

---
 pysnobal/pysnobal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index f40001b..357ebb6 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -297,7 +297,6 @@ class PySnobal():
 
         # what the precipitation is like is needed when there is some
         precip = input_data.precip_mass > 0
-        snow = precip & (input_data.percent_snow > 0)
         needed = {
             'net_solar': True,
             'incoming_thermal': True,
@@ -308,7 +307,7 @@ class PySnobal():
             'precip_mass': True,
             'percent_snow': precip,
             'precip_temp': precip,
-            'rho_snow': snow
+            'rho_snow': precip
         }
         for column, when in needed.items():
             missing = ~np.isfinite(input_data[column]) & when
-- 
2.43.0

