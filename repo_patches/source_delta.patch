From d5844cd0ad3803527e3321001a462d00858273c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 01/11] fix: compute the slant range per batch example and
 satellite

---
 OpenNTN/system_level_scenario.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 7f65ec0..334be06 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -807,17 +807,13 @@ class SystemLevelScenario(Object):
         #Radius of the Earth
         R_E = 6371000
  
-        #satellite height 
-        height_val = self._bs_loc[:,:,2][0]
+        #satellite height, [batch size, num bs]
+        height_val = self._bs_loc[:,:,2]
         #Calculating the 3d distance based on 3GPP TR38.811 6.6-3 to consider the Earth's curveture
         distance_3d = (tf.sqrt(R_E**2 * tf.math.sin(elevation_angle)**2 + height_val**2 + 2*height_val*R_E) - R_E*tf.math.sin(elevation_angle))
         #Expanding to correct shape
-        # TODO there is a sometimes occuring bug at this point. The squeeze assumes there to be more than one user, which can run into issues. However,
-        # this bug is not yet fully understood and seems to be limited to eager executions. For the future this needs to be fixed. This bug is also assumed
-        # to cause the infinite GPU memory allocation in eager execution during the use of the LMMSEEqualizer. 
-        # Additionally, tf.squeeze is used here, as distance_3d needs to be a tf.constant, but casting that directly lead to bugs. This workaround works well,
-        # but should be replaced by a more straightforward solution in the future.
-        distance_3d = tf.fill([self.batch_size, self.num_bs, self.num_ut], tf.squeeze(distance_3d))
+        distance_3d = tf.broadcast_to(tf.expand_dims(distance_3d, axis=2),
+                                      [self.batch_size, self.num_bs, self.num_ut])
         self._distance_3d = distance_3d
 
         # LoS AoA, AoD, ZoA, ZoD
-- 
2.43.0


From ff9835799db096fd03c11c7ee6bee2bb05445150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:39 +0000
Subject: [PATCH 02/11] fix: use the tabulated ray offset -1.1481 for the 16th
 ray (TR 38.901 Table 7.5-3)

---
 OpenNTN/rays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/rays.py b/OpenNTN/rays.py
index 507b1ca..aab9000 100644
--- a/OpenNTN/rays.py
+++ b/OpenNTN/rays.py
@@ -107,7 +107,7 @@ class RaysGenerator(Object):
                                          0.5129, -0.5129,
                                          0.6797, -0.6797,
                                          0.8844, -0.8844,
-                                         1.1481, -0.1481,
+                                         1.1481, -1.1481,
                                          1.5195, -1.5195,
                                          2.1551, -2.1551],
                                          self.rdtype)
-- 
2.43.0


From 202e7a3b10cb0e392a004edf5fc77eefb893c21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:39 +0000
Subject: [PATCH 03/11] fix: select the VH slant angle from the polarization
 type

---
 OpenNTN/antenna.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/antenna.py b/OpenNTN/antenna.py
index 39783ab..c505da4 100644
--- a/OpenNTN/antenna.py
+++ b/OpenNTN/antenna.py
@@ -524,7 +524,7 @@ class PanelArray(Object):
         else:
             assert polarization_type in ["VH", "cross"],\
             "For dual polarization, polarization_type must be 'VH' or 'cross'"
-            slant_angle = 0 if polarization == "VH" else -PI/4
+            slant_angle = 0 if polarization_type == "VH" else -PI/4
             self._ant_pol1 = AntennaElement(antenna_pattern, slant_angle,
                 self.precision)
             self._ant_pol2 = AntennaElement(antenna_pattern, slant_angle+PI/2,
-- 
2.43.0


From 2cfb9ef7e8028175e9ffc585615e16f1d1f2dc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:47 +0000
Subject: [PATCH 04/11] fix: leave shadow fading out of the basic path loss
 when it is disabled

---
 OpenNTN/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index eaaf500..0e49360 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1777,8 +1777,11 @@ def compute_pathloss_basic(self):
         SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los)
         SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos)
 
-        pl_los = fspl + SF_los
-        pl_nlos = fspl + SF_nlos + cl
+        pl_los = fspl
+        pl_nlos = fspl + cl
+        if self.shadow_fading_enabled:
+            pl_los = pl_los + SF_los
+            pl_nlos = pl_nlos + SF_nlos
         pl_b = tf.where(self.los, pl_los, pl_nlos)
 
         self._pl_b = pl_b
-- 
2.43.0


From 7691b9719d6e0c9848f9edbbdc633560e8c1445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:45 +0000
Subject: [PATCH 05/11] fix: keep the weather parameters given to an earlier
 set_topology call

---
 OpenNTN/system_level_scenario.py | 42 +++++++++++++++++---------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 334be06..a6d9d12 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -122,6 +122,17 @@ class SystemLevelScenario(Object):
         self._in_state = None
         self._requested_los = None
 
+        # Weather and earth antenna parameters: standard values until specified in `set_topology`
+        self._latitude = 47
+        self._lwc = 0.41
+        self._rain_rate = 40
+        self._atmospheric_pressure = 1020
+        self._temperature = 273
+        self._water_vapor_density = 7.5
+        self._relative_humidity = 50
+        self._diameter_earth_antenna = 3.6
+        self._antenna_efficiency = 0.5
+
         # Load parameters for this scenario
         self._load_params()
 
@@ -566,54 +577,45 @@ class SystemLevelScenario(Object):
         # Boolean used to keep track of whether or not we need to (re-)compute
         # the distances between users, correlation matrices...
         # This is required if the UT locations, BS locations, indoor/outdoor
-        # state of UTs, or LoS/NLoS states of outdoor UTs are updated.
+        # state of UTs, LoS/NLoS states of outdoor UTs or weather parameters
+        # are updated.
         need_for_update = False
 
-        #Setting values to standard values if not further specified
         if latitude is not None:
             self._latitude = latitude
-        else:
-            self._latitude = 47
+            need_for_update = True
 
         if lwc is not None:
             self._lwc = lwc
-        else:
-            self._lwc = 0.41
+            need_for_update = True
 
         if rain_rate is not None:
             self._rain_rate = rain_rate
-        else:
-            self._rain_rate = 40
+            need_for_update = True
 
         if atmospheric_pressure is not None:
             self._atmospheric_pressure = atmospheric_pressure
-        else:
-            self._atmospheric_pressure = 1020
+            need_for_update = True
 
         if temperature is not None:
             self._temperature = temperature
-        else:
-            self._temperature = 273
+            need_for_update = True
 
         if water_vapor_density is not None:
             self._water_vapor_density = water_vapor_density
-        else:
-            self._water_vapor_density = 7.5
+            need_for_update = True
 
         if relative_humidity is not None:
             self._relative_humidity = relative_humidity
-        else:
-            self._relative_humidity = 50
+            need_for_update = True
 
         if diameter_earth_antenna is not None:
             self._diameter_earth_antenna = diameter_earth_antenna
-        else:
-            self._diameter_earth_antenna = 3.6
+            need_for_update = True
 
         if antenna_efficiency is not None:
             self._antenna_efficiency = antenna_efficiency
-        else:
-            self._antenna_efficiency = 0.5
+            need_for_update = True
 
         if ut_loc is not None:
             self._ut_loc = ut_loc
-- 
2.43.0


From 49935b25aacaf113886e8dd90faa891a12561c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:23 +0000
Subject: [PATCH 06/11] fix: zenith angle of arrival of the direct path is 180
 degrees minus that of departure

---
 OpenNTN/system_level_scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index a6d9d12..11f4b6d 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -822,7 +822,7 @@ class SystemLevelScenario(Object):
         los_aod = tf.atan2(delta_loc[:,:,:,1], delta_loc[:,:,:,0])
         los_aoa = los_aod + PI
         los_zod = tf.atan2(distance_2d, delta_loc[:,:,:,2])
-        los_zoa = los_zod - PI
+        los_zoa = PI - los_zod
         # Angles are converted to degrees and wrapped to (0,360)
         self._los_aod = wrap_angle_0_360(rad_2_deg(los_aod))
         self._los_aoa = wrap_angle_0_360(rad_2_deg(los_aoa))
-- 
2.43.0


From 8e5e955ceec38fec7f26dcafb11003c888e1cada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:36 +0000
Subject: [PATCH 07/11] fix: terminals west of the origin point at the
 satellite as well

---
 OpenNTN/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index 0e49360..d342916 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -982,7 +982,7 @@ def generate_uts_topology(  batch_size,
     ut_downtilt = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
     ut_slant = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
     #Always point at the BS, which is at [0,0,bs_height]
-    ut_bearing = tf.math.atan(ut_loc_xy[:,:,1]/ut_loc_xy[:,:,0])
+    ut_bearing = tf.math.atan2(ut_loc_xy[:,:,1], ut_loc_xy[:,:,0])
     ut_orientations = tf.stack([ut_bearing, ut_downtilt, ut_slant], axis=-1)
 
     return ut_loc, ut_orientations, ut_velocities, in_state
-- 
2.43.0


From 89d01200c171fa9e463898e3be3528b5bb90654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:24 +0000
Subject: [PATCH 08/11] fix: compute in the configured precision throughout,
 double precision models failed on mixed types

---
 OpenNTN/antenna.py               |  4 +--
 OpenNTN/channel_coefficients.py  | 11 ++++----
 OpenNTN/dense_urban_scenario.py  |  2 +-
 OpenNTN/sub_urban_scenario.py    |  2 +-
 OpenNTN/system_level_scenario.py |  3 ++-
 OpenNTN/urban_scenario.py        |  2 +-
 OpenNTN/utils.py                 | 43 ++++++++++++++++----------------
 7 files changed, 35 insertions(+), 32 deletions(-)

diff --git a/OpenNTN/antenna.py b/OpenNTN/antenna.py
index c505da4..fedd444 100644
--- a/OpenNTN/antenna.py
+++ b/OpenNTN/antenna.py
@@ -187,8 +187,8 @@ class AntennaElement(Object):
 
         ka = a * 2 * math.pi
         r = tf.acos(tf.sin(theta) * tf.cos(phi))
-        amplitude = tf.where(0.0 == r, tf.cast(1.0, tf.float32), 4 * tf.abs(tf.math.special.bessel_j1(tf.sin(r)*ka) / (ka * tf.sin(r))) ** 2)
-        return tf.where(tf.abs(r) > 0.5*math.pi, tf.cast(0.0, tf.float32), amplitude)
+        amplitude = tf.where(0.0 == r, tf.ones_like(r), 4 * tf.abs(tf.math.special.bessel_j1(tf.sin(r)*ka) / (ka * tf.sin(r))) ** 2)
+        return tf.where(tf.abs(r) > 0.5*math.pi, tf.zeros_like(r), amplitude)
 
     def _radiation_pattern_co_phased_DLp(self, theta, phi):
         """
diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index c7813c2..a2df622 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -97,9 +97,9 @@ class Topology(Object):
         # self.sat_speed = None
         # if tf.reduce_any(tf.greater_equal(bs_height, 600000.0)):
         sat_speed = compute_satellite_speed(bs_height)
-        max_sat_speed_for_elevation_angle = tf.math.cos(elevation_angle * (PI/180.0)) * sat_speed
+        max_sat_speed_for_elevation_angle = tf.math.cos(tf.cast(elevation_angle * (PI/180.0), sat_speed.dtype)) * sat_speed
         batch_size = tf.shape(los_aoa)[0]
-        random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size])
+        random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size], dtype = sat_speed.dtype)
         self.sat_speed = tf.math.cos(random_direction_per_batch) * max_sat_speed_for_elevation_angle
 
 
@@ -1111,9 +1111,10 @@ class ChannelCoefficientsGenerator(Object):
         # TODO there is a bug report here,  appearently passing a Tensor to a NumPy call, which is not supported. Assumably psi in the functions is the issue,
         # but the bug could not yet be replicated. This comment serves as a reminder in case of future resurgence of the issue
         psi_in_rad = psi_in_deg * (PI/180.0)
-        faraday_cos = tf.fill(dims=aod_shape, value=tf.complex(tf.math.cos(psi_in_rad), 0.0))
-        faraday_sin = tf.fill(dims=aod_shape, value=tf.complex(tf.math.sin(psi_in_rad), 0.0))
-        faraday_minus_sin = tf.fill(dims=aod_shape, value=tf.complex(-tf.math.sin(psi_in_rad), 0.0))
+        zero = tf.zeros_like(psi_in_rad)
+        faraday_cos = tf.fill(dims=aod_shape, value=tf.complex(tf.math.cos(psi_in_rad), zero))
+        faraday_sin = tf.fill(dims=aod_shape, value=tf.complex(tf.math.sin(psi_in_rad), zero))
+        faraday_minus_sin = tf.fill(dims=aod_shape, value=tf.complex(-tf.math.sin(psi_in_rad), zero))
         shape = tf.concat([tf.shape(faraday_cos), [2,2]], axis=-1)
         faraday_phase_rot = tf.reshape(tf.stack([faraday_cos, faraday_minus_sin, faraday_sin, faraday_cos], axis=-1), shape)
         return faraday_phase_rot
diff --git a/OpenNTN/dense_urban_scenario.py b/OpenNTN/dense_urban_scenario.py
index acf1214..aaecd07 100644
--- a/OpenNTN/dense_urban_scenario.py
+++ b/OpenNTN/dense_urban_scenario.py
@@ -130,7 +130,7 @@ class DenseUrbanScenario(SystemLevelScenario):
         angle_str = str(round(self._elevation_angle/10.0)*10)
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out), dtype = self.rdtype) + los_p
 
         return los_probability
 
diff --git a/OpenNTN/sub_urban_scenario.py b/OpenNTN/sub_urban_scenario.py
index b476708..1ef1fa0 100644
--- a/OpenNTN/sub_urban_scenario.py
+++ b/OpenNTN/sub_urban_scenario.py
@@ -132,7 +132,7 @@ class SubUrbanScenario(SystemLevelScenario):
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
         #los_probability = tf.zeros(shape=self._distance_2d_out.shape) + los_p
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out), dtype = self.rdtype) + los_p
         return los_probability
 
     @property
diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 11f4b6d..d145549 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -805,7 +805,8 @@ class SystemLevelScenario(Object):
         # The 3D distance needs to take the curvature of Earth into account
         elevation_angle = self._elevation_angle
         #convert to radians for tf.math.sin later
-        elevation_angle = math.radians(elevation_angle)
+        elevation_angle = tf.constant(math.radians(elevation_angle),
+                                      self.rdtype)
         #Radius of the Earth
         R_E = 6371000
  
diff --git a/OpenNTN/urban_scenario.py b/OpenNTN/urban_scenario.py
index c8e9cdc..0435dda 100644
--- a/OpenNTN/urban_scenario.py
+++ b/OpenNTN/urban_scenario.py
@@ -131,7 +131,7 @@ class UrbanScenario(SystemLevelScenario):
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
         #los_probability = tf.zeros(shape=self._distance_2d_out.shape) + los_p
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out), dtype = self.rdtype) + los_p
         
         return los_probability
 
diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index d342916..313077a 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -582,9 +582,10 @@ def drop_uts_in_sector(batch_size, num_ut, bs_height, elevation_angle, isd,
     # the center with some random variation based on the isd
 
     
-    actual_bs_ut_distance = tf.cast(bs_height, rdtype) / tf.cast(tf.math.sin(deg_2_rad(tf.cast(elevation_angle,rdtype))),rdtype)
+    bs_height = tf.cast(bs_height, rdtype)
+    actual_bs_ut_distance = bs_height / tf.cast(tf.math.sin(deg_2_rad(tf.cast(elevation_angle,rdtype))),rdtype)
     distance_center_to_ut = tf.math.sqrt(tf.math.square(actual_bs_ut_distance) - tf.math.square(bs_height))
-    x_base = tf.random.uniform(shape = [1], minval=0,maxval=distance_center_to_ut)
+    x_base = tf.random.uniform(shape = [1], minval=0,maxval=distance_center_to_ut, dtype=rdtype)
     y_base = tf.math.sqrt(tf.math.square(actual_bs_ut_distance) - tf.math.square(bs_height) - tf.math.square(x_base))
 
     # Randomly assign the UTs to one of the two half of the sector
@@ -979,8 +980,8 @@ def generate_uts_topology(  batch_size,
                                 axis=-1)
 
     
-    ut_downtilt = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
-    ut_slant = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
+    ut_downtilt = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
+    ut_slant = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
     #Always point at the BS, which is at [0,0,bs_height]
     ut_bearing = tf.math.atan2(ut_loc_xy[:,:,1], ut_loc_xy[:,:,0])
     ut_orientations = tf.stack([ut_bearing, ut_downtilt, ut_slant], axis=-1)
@@ -1161,7 +1162,7 @@ def gen_single_sector_topology( batch_size,
     # Setting BS to (0,0,bs_height)
     bs_loc = tf.stack([ tf.zeros([batch_size, 1], rdtype),
                         tf.zeros([batch_size, 1], rdtype),
-                        tf.fill( [batch_size, 1], bs_height)], axis=-1)
+                        tf.fill( [batch_size, 1], tf.cast(bs_height, rdtype))], axis=-1)
 
     # BS always faces exactly down in simulations
     bs_yaw = tf.constant(0.0, rdtype)
@@ -1600,11 +1601,11 @@ def compute_pathloss_gas(self):
         """
 
         # Constants set during scenario creation 
-        T=self._temperature
-        p=self._atmospheric_pressure
+        T=tf.cast(self._temperature, self.rdtype)
+        p=tf.cast(self._atmospheric_pressure, self.rdtype)
 
         f = self._carrier_frequency/(10.0**9.0)
-        pw=self._water_vapor_density#water vapor density
+        pw=tf.cast(self._water_vapor_density, self.rdtype)#water vapor density
         
         # Calculate the water vapor specific attenuation(Yw)
         # For more detail see ITU-R P.676-5 (23a)
@@ -1639,11 +1640,11 @@ def compute_pathloss_gas(self):
         ee6=(rp**0.2445)*(rt**(-5.9191))*tf.math.exp((0.0422*(1-rp))+(-8.0719*(1-rt)))
         ee7=(rp**(-0.1833))*(rt**(6.5589))*tf.math.exp((-0.2402*(1-rp))+(6.131*(1-rt)))
 
-        g54 = 2.136 * rp**1.4975 * rt**(-1.5852) * math.exp((-2.5196)*(1-rt))
-        g57 = 9.984 * rp**0.9313 * rt**(2.6732) * math.exp((0.8563)*(1-rt))
-        g60 = 15.42 * rp**0.8595 * rt**(3.6178) * math.exp((1.1521)*(1-rt))
-        g63 = 10.63 * rp**0.9298 * rt**(2.3284) * math.exp((0.6287)*(1-rt))
-        g66 = 1.944 * rp**1.6657 * rt**(-3.3714) * math.exp((-4.1643)*(1-rt))
+        g54 = 2.136 * rp**1.4975 * rt**(-1.5852) * tf.math.exp((-2.5196)*(1-rt))
+        g57 = 9.984 * rp**0.9313 * rt**(2.6732) * tf.math.exp((0.8563)*(1-rt))
+        g60 = 15.42 * rp**0.8595 * rt**(3.6178) * tf.math.exp((1.1521)*(1-rt))
+        g63 = 10.63 * rp**0.9298 * rt**(2.3284) * tf.math.exp((0.6287)*(1-rt))
+        g66 = 1.944 * rp**1.6657 * rt**(-3.3714) * tf.math.exp((-4.1643)*(1-rt))
 
         
         # Calculation of the dry air specific attenuation 
@@ -1684,10 +1685,10 @@ def compute_pathloss_gas(self):
             
         # Calculate the total gases attenuation for the given elevation
         Elev = self._elevation_angle
-        Atotx = (Ao + Aw) / tf.math.sin(math.radians(Elev))
+        Atotx = (Ao + Aw) / math.sin(math.radians(Elev))
         GasAtt = abs(Atotx)
 
-        pl_g = tf.zeros(shape = tf.shape(self.los)) + GasAtt
+        pl_g = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + GasAtt
 
         self._pl_g = pl_g
             
@@ -1717,7 +1718,7 @@ def compute_pathloss_scintilation(self):
             #  Calculate the effective path length
             hL = 1000 # Height of turbulent layer in meters
             Elev = self._elevation_angle
-            L = (2 * hL) / (tf.math.sqrt(tf.math.sin(math.radians(Elev))**2 + 2.35e-4 + tf.math.sin(math.radians(Elev))))
+            L = (2 * hL) / (math.sqrt(math.sin(math.radians(Elev))**2 + 2.35e-4 + math.sin(math.radians(Elev))))
                 
             # Step 5: Calculate the effective antenna diameter
             D = self._diameter_earth_antenna # antenna diameter in meters
@@ -1738,7 +1739,7 @@ def compute_pathloss_scintilation(self):
             TroScin = a_p * g_x
 
             TScin=abs(TroScin)
-            pl_s = tf.zeros(shape = tf.shape(self.los)) + TScin
+            pl_s = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + TScin
             self._pl_s = pl_s
             
         #For carrier frequencies below 6GHz we only consider Ionospheric scintillation    
@@ -1751,14 +1752,14 @@ def compute_pathloss_scintilation(self):
             #Scale scintillation pathloss at 4GHz to used carrier frequency by applying 3GPP TR38.811 6.6-12
             AIs = Pluc_4GHz * (f/4)**(n)
             #Get final loss by dividing by sqrt(2) according to 3GPP TR38.811 6.6-13
-            pl_s = tf.zeros(shape = tf.shape(self.los)) + (AIs/math.sqrt(2.0))
+            pl_s = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + (AIs/math.sqrt(2.0))
             self._pl_s = pl_s
         
 
 
 def compute_pathloss_entry(self):
         #Currently only 0, as no HAPS are considered an thus no building cases
-        pl_e = tf.zeros(shape = tf.shape(self.los))
+        pl_e = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype)
         self._pl_e = pl_e
         #ntnu.compute_pathloss_gas(self)
 
@@ -1774,8 +1775,8 @@ def compute_pathloss_basic(self):
         sigmaSF_los = self._params_los["sigmaSF" + '_' + angle_str]
         sigmaSF_nlos = self._params_nlos["sigmaSF" + '_' + angle_str]
 
-        SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los)
-        SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos)
+        SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los, dtype = self.rdtype)
+        SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos, dtype = self.rdtype)
 
         pl_los = fspl
         pl_nlos = fspl + cl
-- 
2.43.0


From ba7d4c18af3768fba02026dd258243dad1d14eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:19 +0000
Subject: [PATCH 09/11] fix: TDL correlated transmit antennas by the wrong
 factor of tx_corr_mat

---
 OpenNTN/tdl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/OpenNTN/tdl.py b/OpenNTN/tdl.py
index f2e5cc9..94d0025 100644
--- a/OpenNTN/tdl.py
+++ b/OpenNTN/tdl.py
@@ -531,7 +531,8 @@ class TDL(ChannelModel):
                 if self._rx_corr_mat_sqrt is not None:
                     h = tf.matmul(self._rx_corr_mat_sqrt, h)
                 if self._tx_corr_mat_sqrt is not None:
-                    h = tf.matmul(h, self._tx_corr_mat_sqrt)
+                    h = tf.matmul(h, self._tx_corr_mat_sqrt,
+                                  transpose_b=True)
                 h = tf.transpose(h, [0,1,5,2,6,3,4])
 
         # Stop gadients to avoid useless backpropagation
-- 
2.43.0


From 99b0b220fa82afd5aff14a3abdb64633b9c2f29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:19 +0000
Subject: [PATCH 10/11] fix: TDL could not be used in double precision

---
 OpenNTN/tdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/tdl.py b/OpenNTN/tdl.py
index 94d0025..9f3bd70 100644
--- a/OpenNTN/tdl.py
+++ b/OpenNTN/tdl.py
@@ -579,7 +579,7 @@ class TDL(ChannelModel):
         elavation_angle = self.elevation_angle
 
         #Equation (8.41) from Curtis, H. D. (2005). Orbital Mechanics for Engineering Students. Butterworth-Heinemann. ISBN: 0 7506 6169 0.
-        v_sat = tf.math.sqrt((G*M)/((r_earth*1000)+(h_sat*1000)))/1000#speed of the satellite in given Orbit around Earth in km/s
+        v_sat = tf.math.sqrt(tf.cast((G*M)/((r_earth*1000)+(h_sat*1000)), self.rdtype))/1000#speed of the satellite in given Orbit around Earth in km/s
 
         additional_doppler_shift_811 = v_sat/v_light * ((r_earth/(r_earth+h_sat)) * np.cos(np.deg2rad(elavation_angle))) * self._carrier_frequency
         return 2.*PI*speed/SPEED_OF_LIGHT*self._carrier_frequency + additional_doppler_shift_811
-- 
2.43.0


From 7f8b087ebe5b6a707d104c24b1d8e68d3b2d9415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:19 +0000
Subject: [PATCH 11/11] fix: TDL accepted the model E, which does not exist

---
 OpenNTN/tdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/OpenNTN/tdl.py b/OpenNTN/tdl.py
index 9f3bd70..31941d0 100644
--- a/OpenNTN/tdl.py
+++ b/OpenNTN/tdl.py
@@ -153,7 +153,7 @@ class TDL(ChannelModel):
     -----------
 
     model : str
-        TDL model to use. Must be one of "A", "B", "C", "D", "E", "A30", "B100", or "C300".
+        TDL model to use. Must be one of "A", "B", "C", "D", "A30", "B100", or "C300".
 
     delay_spread : float
         RMS delay spread [s].
@@ -259,7 +259,7 @@ class TDL(ChannelModel):
         #self._real_dtype = real_dtype
 
         # Set the file from which to load the model
-        assert model in ('A', 'B', 'C', 'D', 'E', 'A30', 'B100', 'C300'),\
+        assert model in ('A', 'B', 'C', 'D', 'A30', 'B100', 'C300'),\
             "Invalid TDL model"
         if model == 'A':
             parameters_fname = "TDL-A.json"
-- 
2.43.0

