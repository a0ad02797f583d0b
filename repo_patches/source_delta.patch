From df00c22933d16058aa225503e756f54345c82638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:46 +0000
Subject: [PATCH 01/14] fix: replace Sionna's __init__ atomically in the
 post-install scripts

A crash or a full disk while the file was being rewritten left a truncated
sionna/phy/channel/__init__.py behind, i.e., an unusable Sionna installation.
---
 post_install.py        | 24 ++++++++++++++++++++++--
 post_install_legacy.py | 24 ++++++++++++++++++++++--
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/post_install.py b/post_install.py
index a33aa6d..32660bb 100644
--- a/post_install.py
+++ b/post_install.py
@@ -1,10 +1,31 @@
 import os
 import shutil
 import sys
+import tempfile
 from pathlib import Path
 import pkg_resources
 #import sionna
 
+def replace_file(path, lines):
+    """Atomically replace the content of ``path``.
+
+    The new content is written to a temporary file in the same directory, which
+    is then moved over ``path``. If anything goes wrong on the way (crash, full
+    disk, ...), ``path`` still holds its previous, complete content.
+    """
+    path = os.path.realpath(path)
+    fd, tmp_path = tempfile.mkstemp(dir=os.path.dirname(path))
+    try:
+        with open(fd, 'w') as file:
+            file.writelines(lines)
+            file.flush()
+            os.fsync(file.fileno())
+        shutil.copymode(path, tmp_path)
+        os.replace(tmp_path, path)
+    except BaseException:
+        os.unlink(tmp_path)
+        raise
+
 def modify_vanilla_sionna():
     """Modify the installed framework files as needed."""
     try:
@@ -35,8 +56,7 @@ def modify_vanilla_sionna():
 
         if insert_index is not None:
             lines.insert(insert_index, f"{line_to_add}\n")
-            with open(channel_init_file_path, 'w') as file:
-                file.writelines(lines)
+            replace_file(channel_init_file_path, lines)
             print(f"Added import of tr38811 in channel: {line_to_add}")
         elif not line_present:
             print(f"Could not find import of tr38901.")
diff --git a/post_install_legacy.py b/post_install_legacy.py
index 2e80ae7..3f8f310 100644
--- a/post_install_legacy.py
+++ b/post_install_legacy.py
@@ -1,10 +1,31 @@
 import os
 import shutil
 import sys
+import tempfile
 from pathlib import Path
 import pkg_resources
 #import sionna
 
+def replace_file(path, lines):
+    """Atomically replace the content of ``path``.
+
+    The new content is written to a temporary file in the same directory, which
+    is then moved over ``path``. If anything goes wrong on the way (crash, full
+    disk, ...), ``path`` still holds its previous, complete content.
+    """
+    path = os.path.realpath(path)
+    fd, tmp_path = tempfile.mkstemp(dir=os.path.dirname(path))
+    try:
+        with open(fd, 'w') as file:
+            file.writelines(lines)
+            file.flush()
+            os.fsync(file.fileno())
+        shutil.copymode(path, tmp_path)
+        os.replace(tmp_path, path)
+    except BaseException:
+        os.unlink(tmp_path)
+        raise
+
 def modify_vanilla_sionna():
     """Modify the installed framework files as needed."""
     try:
@@ -35,8 +56,7 @@ def modify_vanilla_sionna():
 
         if insert_index is not None:
             lines.insert(insert_index, f"{line_to_add}\n")
-            with open(channel_init_file_path, 'w') as file:
-                file.writelines(lines)
+            replace_file(channel_init_file_path, lines)
             print(f"Added import of tr38811 in channel: {line_to_add}")
         elif not line_present:
             print(f"Could not find import of tr38901.")
-- 
2.43.0


From 42a2c2bf8da2a30a16584a1b3b9c9498ac7dfcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:46 +0000
Subject: [PATCH 02/14] fix: keep the line structure of Sionna's __init__ in
 the post-install scripts

If the import of tr38901 was the last line and not terminated, the new import
was glued to it. Files with CRLF line endings were converted.
---
 post_install.py        | 11 ++++++++---
 post_install_legacy.py | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/post_install.py b/post_install.py
index 32660bb..1e809ee 100644
--- a/post_install.py
+++ b/post_install.py
@@ -16,7 +16,7 @@ def replace_file(path, lines):
     path = os.path.realpath(path)
     fd, tmp_path = tempfile.mkstemp(dir=os.path.dirname(path))
     try:
-        with open(fd, 'w') as file:
+        with open(fd, 'w', newline='') as file:
             file.writelines(lines)
             file.flush()
             os.fsync(file.fileno())
@@ -38,7 +38,7 @@ def modify_vanilla_sionna():
         line_to_add = 'from . import tr38811'
         preceding_line = 'from . import tr38901'
 
-        with open(channel_init_file_path, 'r') as file:
+        with open(channel_init_file_path, 'r', newline='') as file:
             lines = file.readlines()    
 
         line_present = any(line_to_add in line for line in lines)
@@ -55,7 +55,12 @@ def modify_vanilla_sionna():
             print(f"Already importing tr38811 in channel: {line_to_add}")
 
         if insert_index is not None:
-            lines.insert(insert_index, f"{line_to_add}\n")
+            # Keep the line endings of the file, and do not assume that its last
+            # line is terminated
+            line_end = '\r\n' if lines[insert_index - 1].endswith('\r\n') else '\n'
+            if not lines[insert_index - 1].endswith('\n'):
+                lines[insert_index - 1] += line_end
+            lines.insert(insert_index, f"{line_to_add}{line_end}")
             replace_file(channel_init_file_path, lines)
             print(f"Added import of tr38811 in channel: {line_to_add}")
         elif not line_present:
diff --git a/post_install_legacy.py b/post_install_legacy.py
index 3f8f310..4994045 100644
--- a/post_install_legacy.py
+++ b/post_install_legacy.py
@@ -16,7 +16,7 @@ def replace_file(path, lines):
     path = os.path.realpath(path)
     fd, tmp_path = tempfile.mkstemp(dir=os.path.dirname(path))
     try:
-        with open(fd, 'w') as file:
+        with open(fd, 'w', newline='') as file:
             file.writelines(lines)
             file.flush()
             os.fsync(file.fileno())
@@ -38,7 +38,7 @@ def modify_vanilla_sionna():
         line_to_add = 'from . import tr38811'
         preceding_line = 'from . import tr38901'
 
-        with open(channel_init_file_path, 'r') as file:
+        with open(channel_init_file_path, 'r', newline='') as file:
             lines = file.readlines()    
 
         line_present = any(line_to_add in line for line in lines)
@@ -55,7 +55,12 @@ def modify_vanilla_sionna():
             print(f"Already importing tr38811 in channel: {line_to_add}")
 
         if insert_index is not None:
-            lines.insert(insert_index, f"{line_to_add}\n")
+            # Keep the line endings of the file, and do not assume that its last
+            # line is terminated
+            line_end = '\r\n' if lines[insert_index - 1].endswith('\r\n') else '\n'
+            if not lines[insert_index - 1].endswith('\n'):
+                lines[insert_index - 1] += line_end
+            lines.insert(insert_index, f"{line_to_add}{line_end}")
             replace_file(channel_init_file_path, lines)
             print(f"Added import of tr38811 in channel: {line_to_add}")
         elif not line_present:
-- 
2.43.0


From 2ea7937742da22e8e2918c000ea4b71e41cc548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:52 +0000
Subject: [PATCH 03/14] fix: use the satellite height of each batch example

The distances, and with them the path loss, and the Doppler shift of all batch
examples were computed from the satellite height of the first one.
---
 OpenNTN/channel_coefficients.py  |  6 +++---
 OpenNTN/system_level_channel.py  |  2 +-
 OpenNTN/system_level_scenario.py | 13 ++++---------
 3 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index c7813c2..b71708b 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -606,7 +606,7 @@ class ChannelCoefficientsGenerator(Object):
         exponent = 2*PI/lambda_0*tf.reduce_sum(r_hat_ut*v_uts_bar, -2)*t
 
         # Check if a satellite is used (height of satellite is at least 600km). This is done to potentially incorporate HAPS later
-        if tf.logical_and(tf.less_equal(600000.0, topology.bs_height), topology.doppler_enabled):
+        if tf.logical_and(tf.reduce_all(tf.less_equal(600000.0, topology.bs_height)), topology.doppler_enabled):
             # We get the maximum speed of the satellite based on its orbit and the users elevation angle. This value is multiplied with a random constant between [cos(0),cos(2pi))
             # to simulate the random direction of the orbit in relation to the users. 
             max_sat_speed_for_elevation_angle = topology.sat_speed
@@ -872,7 +872,7 @@ class ChannelCoefficientsGenerator(Object):
         h_phase = self._step_11_phase_matrix(phi, rays)
 
         # Add Faraday phase rotation in NTN case
-        if tf.greater_equal(topology.bs_height, 600000.0):            
+        if tf.reduce_all(tf.greater_equal(topology.bs_height, 600000.0)):            
             rays_shape = tf.shape(rays.aoa)
             faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=rays_shape)
             h_phase = tf.matmul(h_phase,faraday_phase_rotation)
@@ -1020,7 +1020,7 @@ class ChannelCoefficientsGenerator(Object):
                                          [1,1,1,1,1,2,2])
         
         # Add Faraday phase rotation in NTN case
-        if tf.greater_equal(topology.bs_height, 600000.0):
+        if tf.reduce_all(tf.greater_equal(topology.bs_height, 600000.0)):
 
             rays_shape = tf.shape(aoa)
             faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=rays_shape)
diff --git a/OpenNTN/system_level_channel.py b/OpenNTN/system_level_channel.py
index 7e0cad6..2a6def2 100644
--- a/OpenNTN/system_level_channel.py
+++ b/OpenNTN/system_level_channel.py
@@ -209,7 +209,7 @@ class SystemLevelChannel(ChannelModel):
                                 distance_3d=self._scenario.distance_3d,
                                 tx_orientations=tx_orientations,
                                 rx_orientations=rx_orientations,
-                                bs_height = self._scenario._bs_loc[:,:,2][0],
+                                bs_height = self._scenario.h_bs[:,0],
                                 elevation_angle = self._scenario.elevation_angle,
                                 doppler_enabled = self._scenario.doppler_enabled
                                 )
diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 7f65ec0..64b3334 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -807,17 +807,12 @@ class SystemLevelScenario(Object):
         #Radius of the Earth
         R_E = 6371000
  
-        #satellite height 
-        height_val = self._bs_loc[:,:,2][0]
+        #satellite height of each batch example [batch size, number of BSs, 1]
+        height_val = tf.expand_dims(self.h_bs, axis=2)
         #Calculating the 3d distance based on 3GPP TR38.811 6.6-3 to consider the Earth's curveture
         distance_3d = (tf.sqrt(R_E**2 * tf.math.sin(elevation_angle)**2 + height_val**2 + 2*height_val*R_E) - R_E*tf.math.sin(elevation_angle))
-        #Expanding to correct shape
-        # TODO there is a sometimes occuring bug at this point. The squeeze assumes there to be more than one user, which can run into issues. However,
-        # this bug is not yet fully understood and seems to be limited to eager executions. For the future this needs to be fixed. This bug is also assumed
-        # to cause the infinite GPU memory allocation in eager execution during the use of the LMMSEEqualizer. 
-        # Additionally, tf.squeeze is used here, as distance_3d needs to be a tf.constant, but casting that directly lead to bugs. This workaround works well,
-        # but should be replaced by a more straightforward solution in the future.
-        distance_3d = tf.fill([self.batch_size, self.num_bs, self.num_ut], tf.squeeze(distance_3d))
+        #The distance is the same for all UTs
+        distance_3d = tf.broadcast_to(distance_3d, [self.batch_size, self.num_bs, self.num_ut])
         self._distance_3d = distance_3d
 
         # LoS AoA, AoD, ZoA, ZoD
-- 
2.43.0


From d1488df6332ab7c3a648d9c3bc73029226c4df2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:52 +0000
Subject: [PATCH 04/14] fix: no NaN channels for co-located UTs

The spatial correlation matrix of UTs which are at the same location (which, in
single precision, includes UTs that are up to some decimetres apart) is singular,
and its Cholesky decomposition was NaN, as were all channels of these UTs.
---
 OpenNTN/lsp.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/OpenNTN/lsp.py b/OpenNTN/lsp.py
index f98f449..1baad5c 100644
--- a/OpenNTN/lsp.py
+++ b/OpenNTN/lsp.py
@@ -395,8 +395,16 @@ class LSPGenerator(Object):
         # Compute and store the square root of the spatial correlation matrix
 
         #If we are in DL, the ASD and ZSD are -inf and there is no correlation   
-        self._spatial_lsp_correlation_matrix_sqrt = tf.linalg.cholesky(
-                spatial_lsp_correlation)
+        matrix_sqrt = tf.linalg.cholesky(spatial_lsp_correlation)
+        # The correlation matrix is singular if UTs are at the same location, up
+        # to the precision of the locations, in which case the decomposition
+        # yields NaN. A small diagonal loading makes it positive definite.
+        loading = 1e-5*tf.eye(self._scenario.num_ut, dtype=self.rdtype)
+        matrix_sqrt_loaded = tf.linalg.cholesky(spatial_lsp_correlation+loading)
+        is_valid = tf.reduce_all(tf.math.is_finite(matrix_sqrt), axis=[-2,-1],
+                                 keepdims=True)
+        self._spatial_lsp_correlation_matrix_sqrt = tf.where(is_valid,
+                matrix_sqrt, matrix_sqrt_loaded)
 
 
     """
-- 
2.43.0


From b5445a2c93fe5d00326b1aaf84fbbe413049f763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:52 +0000
Subject: [PATCH 05/14] fix: ray offset angle of TR 38.901 Table 7.5-3

The offsets come in pairs of opposite sign.
---
 OpenNTN/rays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/rays.py b/OpenNTN/rays.py
index 507b1ca..aab9000 100644
--- a/OpenNTN/rays.py
+++ b/OpenNTN/rays.py
@@ -107,7 +107,7 @@ class RaysGenerator(Object):
                                          0.5129, -0.5129,
                                          0.6797, -0.6797,
                                          0.8844, -0.8844,
-                                         1.1481, -0.1481,
+                                         1.1481, -1.1481,
                                          1.5195, -1.5195,
                                          2.1551, -2.1551],
                                          self.rdtype)
-- 
2.43.0


From 401809033121e3b96527055d594af826fb35c110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:17 +0000
Subject: [PATCH 06/14] fix: keep the environment parameters of former
 set_topology calls

Parameters which are not specified were reset to their default values, instead of
being reused as documented, and an update of only the environment parameters did
not update the path loss.
---
 OpenNTN/system_level_scenario.py | 39 ++++++++++++++++----------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 64b3334..b83d2cc 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -122,6 +122,17 @@ class SystemLevelScenario(Object):
         self._in_state = None
         self._requested_los = None
 
+        # Environment parameters, set to standard values if not further specified
+        self._latitude = 47
+        self._lwc = 0.41
+        self._rain_rate = 40
+        self._atmospheric_pressure = 1020
+        self._temperature = 273
+        self._water_vapor_density = 7.5
+        self._relative_humidity = 50
+        self._diameter_earth_antenna = 3.6
+        self._antenna_efficiency = 0.5
+
         # Load parameters for this scenario
         self._load_params()
 
@@ -569,51 +580,38 @@ class SystemLevelScenario(Object):
         # state of UTs, or LoS/NLoS states of outdoor UTs are updated.
         need_for_update = False
 
-        #Setting values to standard values if not further specified
+        # Boolean used to keep track of whether or not the environment parameters
+        # are updated, on which some of the pathloss components depend
+        environment_updated = any(v is not None for v in (latitude, lwc,
+            rain_rate, atmospheric_pressure, temperature, water_vapor_density,
+            relative_humidity, diameter_earth_antenna, antenna_efficiency))
+
         if latitude is not None:
             self._latitude = latitude
-        else:
-            self._latitude = 47
 
         if lwc is not None:
             self._lwc = lwc
-        else:
-            self._lwc = 0.41
 
         if rain_rate is not None:
             self._rain_rate = rain_rate
-        else:
-            self._rain_rate = 40
 
         if atmospheric_pressure is not None:
             self._atmospheric_pressure = atmospheric_pressure
-        else:
-            self._atmospheric_pressure = 1020
 
         if temperature is not None:
             self._temperature = temperature
-        else:
-            self._temperature = 273
 
         if water_vapor_density is not None:
             self._water_vapor_density = water_vapor_density
-        else:
-            self._water_vapor_density = 7.5
 
         if relative_humidity is not None:
             self._relative_humidity = relative_humidity
-        else:
-            self._relative_humidity = 50
 
         if diameter_earth_antenna is not None:
             self._diameter_earth_antenna = diameter_earth_antenna
-        else:
-            self._diameter_earth_antenna = 3.6
 
         if antenna_efficiency is not None:
             self._antenna_efficiency = antenna_efficiency
-        else:
-            self._antenna_efficiency = 0.5
 
         if ut_loc is not None:
             self._ut_loc = ut_loc
@@ -661,6 +659,9 @@ class SystemLevelScenario(Object):
             #The 3GPP model only considers the losses given above. However, there also are
             #models for additional losses due to clouds and rain, which are considered in this function
             #self._compute_pathloss_additional()
+        elif environment_updated:
+            self._compute_pathloss_gas()
+            self._compute_pathloss_scintillation()
         return need_for_update
 
     def spatial_correlation_matrix(self, correlation_distance):
-- 
2.43.0


From 1bf0c72620dc41bdd1f39f3538b507b741be12ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:40 +0000
Subject: [PATCH 07/14] fix: do not leave a partially updated topology behind
 if set_topology fails

If set_topology raised an exception, e.g., because of inconsistent shapes or an
interrupt, the topology was partially updated, and subsequent calls of the channel
model mixed the old and the new topology.
---
 OpenNTN/system_level_channel.py  |  3 +++
 OpenNTN/system_level_scenario.py | 26 ++++++++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/OpenNTN/system_level_channel.py b/OpenNTN/system_level_channel.py
index 2a6def2..c7fde8f 100644
--- a/OpenNTN/system_level_channel.py
+++ b/OpenNTN/system_level_channel.py
@@ -19,6 +19,7 @@ import matplotlib.pyplot as plt
 from . import LSPGenerator
 from . import RaysGenerator
 from . import Topology, ChannelCoefficientsGenerator
+from .system_level_scenario import restore_on_error
 from sionna.phy.channel import ChannelModel
 from sionna.phy.channel.utils import deg_2_rad
 
@@ -78,6 +79,8 @@ class SystemLevelChannel(ChannelModel):
         # Are new LSPs needed
         self._always_generate_lsp = always_generate_lsp
 
+    @restore_on_error(lambda self: [self, self._scenario, self._lsp_sampler,
+                                    self._ray_sampler])
     def set_topology(self, ut_loc=None, bs_loc=None, ut_orientations=None,
         bs_orientations=None, ut_velocities=None, in_state=None, los=None):
         r"""
diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index b83d2cc..b68e41f 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -8,6 +8,7 @@
 """Class used to define a system level 3GPP channel simulation scenario"""
 
 import json
+import functools
 from importlib_resources import files
 import tensorflow as tf
 from abc import abstractmethod
@@ -22,6 +23,30 @@ import math
 from . import models # pylint: disable=relative-beyond-top-level
 
 
+def restore_on_error(get_objects):
+    r"""
+    Decorator for methods that update the state of several objects. If the method
+    raises an exception, the attributes of these objects are set back to what they
+    were before, such that no partially updated state is left behind.
+
+    Input
+    ------
+    get_objects : callable
+        Maps ``self`` to the list of objects that are updated by the method
+    """
+    def decorator(method):
+        @functools.wraps(method)
+        def wrapper(self, *args, **kwargs):
+            states = [(obj, obj.__dict__.copy()) for obj in get_objects(self)]
+            try:
+                return method(self, *args, **kwargs)
+            except BaseException:
+                for obj, state in states:
+                    obj.__dict__ = state
+                raise
+        return wrapper
+    return decorator
+
 class SystemLevelScenario(Object):
     r"""
     This class is used to set up the scenario for system level 3GPP channel
@@ -509,6 +534,7 @@ class SystemLevelScenario(Object):
 
 
 
+    @restore_on_error(lambda self: [self])
     def set_topology(self, ut_loc=None, bs_loc=None, ut_orientations=None,
         bs_orientations=None, ut_velocities=None, in_state=None, los=None, latitude=None,
         lwc=None, rain_rate=None, atmospheric_pressure=None, temperature=None, 
-- 
2.43.0


From 14d3fe96e8c1a604a2aa50a916385ecdd8545803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 08/14] fix: apply the shadow fading once

The shadow fading was part of the basic path loss, and applied a second time from
the LSPs in step 12, i.e., its variance was doubled. It was also not removed from
the path loss if shadow fading is disabled.
---
 OpenNTN/utils.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index eaaf500..bc5c31a 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1763,7 +1763,8 @@ def compute_pathloss_entry(self):
         #ntnu.compute_pathloss_gas(self)
 
 def compute_pathloss_basic(self):
-        r"""Computes the basic pathloss based on TR38.811 6.6-1 in dB."""
+        r"""Computes the basic pathloss based on TR38.811 6.6-1 in dB, without
+        shadow fading."""
         distance_3d = self._distance_3d
         fc = self._carrier_frequency/(10**9)
         angle_str = str(round(self._elevation_angle/10.0)*10)
@@ -1771,14 +1772,11 @@ def compute_pathloss_basic(self):
         fspl = 32.45 + 20*log10(fc) + 20*log10(distance_3d)
         self._fspl = fspl
         cl = self._params_nlos["CL" + '_' + angle_str]
-        sigmaSF_los = self._params_los["sigmaSF" + '_' + angle_str]
-        sigmaSF_nlos = self._params_nlos["sigmaSF" + '_' + angle_str]
 
-        SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los)
-        SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos)
-
-        pl_los = fspl + SF_los
-        pl_nlos = fspl + SF_nlos + cl
+        # The shadow fading is one of the LSPs, and applied in step 12 if it is
+        # enabled. It must not be part of the pathloss, too
+        pl_los = fspl
+        pl_nlos = fspl + cl
         pl_b = tf.where(self.los, pl_los, pl_nlos)
 
         self._pl_b = pl_b
-- 
2.43.0


From 7ca1423a6e2a4691f42a4e52de4036caa3cf8743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:28 +0000
Subject: [PATCH 09/14] fix: dual-polarized VH panel arrays are not slanted

The slant angle was chosen by comparing the polarization ('single' or
'dual') with 'VH', so that dual-polarized arrays of type 'VH' behaved as
cross-polarized ones.
---
 OpenNTN/antenna.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/antenna.py b/OpenNTN/antenna.py
index 39783ab..c505da4 100644
--- a/OpenNTN/antenna.py
+++ b/OpenNTN/antenna.py
@@ -524,7 +524,7 @@ class PanelArray(Object):
         else:
             assert polarization_type in ["VH", "cross"],\
             "For dual polarization, polarization_type must be 'VH' or 'cross'"
-            slant_angle = 0 if polarization == "VH" else -PI/4
+            slant_angle = 0 if polarization_type == "VH" else -PI/4
             self._ant_pol1 = AntennaElement(antenna_pattern, slant_angle,
                 self.precision)
             self._ant_pol2 = AntennaElement(antenna_pattern, slant_angle+PI/2,
-- 
2.43.0


From 8ca4c495d94f9937660b101b3503e6120a75e53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:16 +0000
Subject: [PATCH 10/14] fix: point dropped users at the satellite in all
 quadrants

The bearing was computed with atan(y/x): users dropped at negative x (close to
the sub-satellite axis) had their antennas turned away from the satellite.
---
 OpenNTN/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index bc5c31a..369a7a8 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -982,7 +982,7 @@ def generate_uts_topology(  batch_size,
     ut_downtilt = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
     ut_slant = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
     #Always point at the BS, which is at [0,0,bs_height]
-    ut_bearing = tf.math.atan(ut_loc_xy[:,:,1]/ut_loc_xy[:,:,0])
+    ut_bearing = tf.math.atan2(ut_loc_xy[:,:,1], ut_loc_xy[:,:,0])
     ut_orientations = tf.stack([ut_bearing, ut_downtilt, ut_slant], axis=-1)
 
     return ut_loc, ut_orientations, ut_velocities, in_state
-- 
2.43.0


From cc09195dd711694d342853563bd0d595e2ab3049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:46 +0000
Subject: [PATCH 11/14] fix: do not leave Sionna unimportable when the
 installation fails half-way

Upstream registered the package with Sionna before linking it, and went on after
failures of pip, curl or ln. A second run created a link inside the package.
---
 install.sh        | 26 ++++++++++++++++----------
 install_legacy.sh | 26 ++++++++++++++++----------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/install.sh b/install.sh
index 4939f30..c4593ce 100644
--- a/install.sh
+++ b/install.sh
@@ -2,21 +2,27 @@
 
 # Script to install the OpenNTN package from GitHub
 
-# Run pip install command
-pip install git+https://github.com/ant-uni-bremen/OpenNTN@main
+# This script is sourced into the user's shell. Every step is only done if the previous
+# ones succeeded, so that Sionna never imports a package that is not there.
 
-# Download python file which integrates OpenNTN into Sionna
 POST_INSTALL_URL="https://raw.githubusercontent.com/ant-uni-bremen/OpenNTN/refs/heads/main/post_install.py"
 POST_INSTALL_NAME=$(basename "$POST_INSTALL_URL")
-curl -L -o "$POST_INSTALL_NAME" "$POST_INSTALL_URL"
 
-# Integrate OpenNTN into Sionna by adapteing init files
-python "$POST_INSTALL_NAME"
+# Run pip install command
+pip install git+https://github.com/ant-uni-bremen/OpenNTN@main &&
+
+# Download python file which integrates OpenNTN into Sionna
+curl -f -L -o "$POST_INSTALL_NAME" "$POST_INSTALL_URL" &&
 
 # Create link to OpenNTN inside Sionna
-OpenNTN_DIR=$(pip show OpenNTN | grep Location | cut -d' ' -f2)/OpenNTN
-SIONNA_DIR=$(pip show sionna | grep Location | cut -d' ' -f2)/sionna
-ln -s $OpenNTN_DIR $SIONNA_DIR/phy/channel/tr38811
+OpenNTN_DIR=$(pip show OpenNTN | sed -n 's/^Location: //p')/OpenNTN &&
+SIONNA_DIR=$(pip show sionna | sed -n 's/^Location: //p')/sionna &&
+[ -d "$OpenNTN_DIR" ] && [ -d "$SIONNA_DIR/phy/channel" ] &&
+ln -sfn "$OpenNTN_DIR" "$SIONNA_DIR/phy/channel/tr38811" &&
+
+# Integrate OpenNTN into Sionna by adapteing init files
+python "$POST_INSTALL_NAME" ||
+echo "OpenNTN was not installed completely, please run the installation again" >&2
 
 # Remove temporary variables after installation
-rm "$POST_INSTALL_NAME"
+rm -f "$POST_INSTALL_NAME"
diff --git a/install_legacy.sh b/install_legacy.sh
index 0d41a5f..a668396 100644
--- a/install_legacy.sh
+++ b/install_legacy.sh
@@ -2,21 +2,27 @@
 
 # Script to install the OpenNTN package from GitHub
 
-# Run pip install command
-pip install git+https://github.com/ant-uni-bremen/OpenNTN@legacy
+# This script is sourced into the user's shell. Every step is only done if the previous
+# ones succeeded, so that Sionna never imports a package that is not there.
 
-# Download python file which integrates OpenNTN into Sionna
 POST_INSTALL_URL="https://raw.githubusercontent.com/ant-uni-bremen/OpenNTN/refs/heads/main/post_install_legacy.py"
 POST_INSTALL_NAME=$(basename "$POST_INSTALL_URL")
-curl -L -o "$POST_INSTALL_NAME" "$POST_INSTALL_URL"
 
-# Integrate OpenNTN into Sionna by adapteing init files
-python "$POST_INSTALL_NAME"
+# Run pip install command
+pip install git+https://github.com/ant-uni-bremen/OpenNTN@legacy &&
+
+# Download python file which integrates OpenNTN into Sionna
+curl -f -L -o "$POST_INSTALL_NAME" "$POST_INSTALL_URL" &&
 
 # Create link to OpenNTN inside Sionna
-OpenNTN_DIR=$(pip show OpenNTN | grep Location | cut -d' ' -f2)/OpenNTN
-SIONNA_DIR=$(pip show sionna | grep Location | cut -d' ' -f2)/sionna
-ln -s $OpenNTN_DIR $SIONNA_DIR/channel/tr38811
+OpenNTN_DIR=$(pip show OpenNTN | sed -n 's/^Location: //p')/OpenNTN &&
+SIONNA_DIR=$(pip show sionna | sed -n 's/^Location: //p')/sionna &&
+[ -d "$OpenNTN_DIR" ] && [ -d "$SIONNA_DIR/channel" ] &&
+ln -sfn "$OpenNTN_DIR" "$SIONNA_DIR/channel/tr38811" &&
+
+# Integrate OpenNTN into Sionna by adapteing init files
+python "$POST_INSTALL_NAME" ||
+echo "OpenNTN was not installed completely, please run the installation again" >&2
 
 # Remove temporary variables after installation
-rm "$POST_INSTALL_NAME"
+rm -f "$POST_INSTALL_NAME"
-- 
2.43.0


From 63aeb91fd168370f5b873d7ba29958b852b5b3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:36 +0000
Subject: [PATCH 12/14] fix: accept any real number as elevation angle

---
 OpenNTN/system_level_scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index b68e41f..103ef08 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -130,7 +130,7 @@ class SystemLevelScenario(Object):
         
 
         assert elevation_angle >= 10.0 and elevation_angle <= 90.0, "elevation angle must be in range [10,90]"
-        self._elevation_angle = elevation_angle
+        self._elevation_angle = float(elevation_angle)
 
         # Pathloss and shadow fading
         self._enable_pathloss = enable_pathloss
-- 
2.43.0


From 6708ac9dc014798a40f4b47e4ea3f45fd2095694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:36 +0000
Subject: [PATCH 13/14] fix: accept any real number as satellite height of a
 drop

---
 OpenNTN/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index 369a7a8..21274b8 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1158,6 +1158,9 @@ def gen_single_sector_topology( batch_size,
     else:
         rdtype = dtypes[precision]["tf"]["rdtype"]
 
+    # The height may be given as any number
+    bs_height = tf.cast(bs_height, rdtype)
+
     # Setting BS to (0,0,bs_height)
     bs_loc = tf.stack([ tf.zeros([batch_size, 1], rdtype),
                         tf.zeros([batch_size, 1], rdtype),
-- 
2.43.0


From f8e92512b92796f3c6c4c232b1d2a1f2f8b96280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:36 +0000
Subject: [PATCH 14/14] fix: make double precision work

---
 OpenNTN/antenna.py               |  6 +++---
 OpenNTN/channel_coefficients.py  | 13 ++++++------
 OpenNTN/dense_urban_scenario.py  |  2 +-
 OpenNTN/sub_urban_scenario.py    |  2 +-
 OpenNTN/system_level_scenario.py |  2 +-
 OpenNTN/urban_scenario.py        |  2 +-
 OpenNTN/utils.py                 | 35 ++++++++++++++++----------------
 7 files changed, 32 insertions(+), 30 deletions(-)

diff --git a/OpenNTN/antenna.py b/OpenNTN/antenna.py
index c505da4..1152d10 100644
--- a/OpenNTN/antenna.py
+++ b/OpenNTN/antenna.py
@@ -109,7 +109,7 @@ class AntennaElement(Object):
         # As the aperture pattern scales differently, the amplitude is transformed into the log domain 
         if self._pattern == "aperture":
             a = 50+tf.math.log(a,10)
-            a = tf.where(a > 0, a, tf.cast(0.0, tf.float32))
+            a = tf.where(a > 0, a, tf.cast(0.0, self.rdtype))
             
         x = a * sin(theta_grid) * cos(phi_grid)
         y = a * sin(theta_grid) * sin(phi_grid)
@@ -187,8 +187,8 @@ class AntennaElement(Object):
 
         ka = a * 2 * math.pi
         r = tf.acos(tf.sin(theta) * tf.cos(phi))
-        amplitude = tf.where(0.0 == r, tf.cast(1.0, tf.float32), 4 * tf.abs(tf.math.special.bessel_j1(tf.sin(r)*ka) / (ka * tf.sin(r))) ** 2)
-        return tf.where(tf.abs(r) > 0.5*math.pi, tf.cast(0.0, tf.float32), amplitude)
+        amplitude = tf.where(0.0 == r, tf.cast(1.0, self.rdtype), 4 * tf.abs(tf.math.special.bessel_j1(tf.sin(r)*ka) / (ka * tf.sin(r))) ** 2)
+        return tf.where(tf.abs(r) > 0.5*math.pi, tf.cast(0.0, self.rdtype), amplitude)
 
     def _radiation_pattern_co_phased_DLp(self, theta, phi):
         """
diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index b71708b..29cc194 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -97,9 +97,10 @@ class Topology(Object):
         # self.sat_speed = None
         # if tf.reduce_any(tf.greater_equal(bs_height, 600000.0)):
         sat_speed = compute_satellite_speed(bs_height)
-        max_sat_speed_for_elevation_angle = tf.math.cos(elevation_angle * (PI/180.0)) * sat_speed
+        max_sat_speed_for_elevation_angle = tf.math.cos(tf.cast(elevation_angle * (PI/180.0), sat_speed.dtype)) * sat_speed
         batch_size = tf.shape(los_aoa)[0]
-        random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size])
+        random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size],
+                                                        dtype=los_aoa.dtype)
         self.sat_speed = tf.math.cos(random_direction_per_batch) * max_sat_speed_for_elevation_angle
 
 
@@ -606,7 +607,7 @@ class ChannelCoefficientsGenerator(Object):
         exponent = 2*PI/lambda_0*tf.reduce_sum(r_hat_ut*v_uts_bar, -2)*t
 
         # Check if a satellite is used (height of satellite is at least 600km). This is done to potentially incorporate HAPS later
-        if tf.logical_and(tf.reduce_all(tf.less_equal(600000.0, topology.bs_height)), topology.doppler_enabled):
+        if tf.logical_and(tf.reduce_all(tf.greater_equal(topology.bs_height, 600000.0)), topology.doppler_enabled):
             # We get the maximum speed of the satellite based on its orbit and the users elevation angle. This value is multiplied with a random constant between [cos(0),cos(2pi))
             # to simulate the random direction of the orbit in relation to the users. 
             max_sat_speed_for_elevation_angle = topology.sat_speed
@@ -1111,9 +1112,9 @@ class ChannelCoefficientsGenerator(Object):
         # TODO there is a bug report here,  appearently passing a Tensor to a NumPy call, which is not supported. Assumably psi in the functions is the issue,
         # but the bug could not yet be replicated. This comment serves as a reminder in case of future resurgence of the issue
         psi_in_rad = psi_in_deg * (PI/180.0)
-        faraday_cos = tf.fill(dims=aod_shape, value=tf.complex(tf.math.cos(psi_in_rad), 0.0))
-        faraday_sin = tf.fill(dims=aod_shape, value=tf.complex(tf.math.sin(psi_in_rad), 0.0))
-        faraday_minus_sin = tf.fill(dims=aod_shape, value=tf.complex(-tf.math.sin(psi_in_rad), 0.0))
+        faraday_cos = tf.fill(dims=aod_shape, value=tf.cast(tf.math.cos(psi_in_rad), self.cdtype))
+        faraday_sin = tf.fill(dims=aod_shape, value=tf.cast(tf.math.sin(psi_in_rad), self.cdtype))
+        faraday_minus_sin = tf.fill(dims=aod_shape, value=tf.cast(-tf.math.sin(psi_in_rad), self.cdtype))
         shape = tf.concat([tf.shape(faraday_cos), [2,2]], axis=-1)
         faraday_phase_rot = tf.reshape(tf.stack([faraday_cos, faraday_minus_sin, faraday_sin, faraday_cos], axis=-1), shape)
         return faraday_phase_rot
diff --git a/OpenNTN/dense_urban_scenario.py b/OpenNTN/dense_urban_scenario.py
index acf1214..45e3314 100644
--- a/OpenNTN/dense_urban_scenario.py
+++ b/OpenNTN/dense_urban_scenario.py
@@ -130,7 +130,7 @@ class DenseUrbanScenario(SystemLevelScenario):
         angle_str = str(round(self._elevation_angle/10.0)*10)
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(tf.shape(self._distance_2d_out), self.rdtype) + los_p
 
         return los_probability
 
diff --git a/OpenNTN/sub_urban_scenario.py b/OpenNTN/sub_urban_scenario.py
index b476708..9c68e80 100644
--- a/OpenNTN/sub_urban_scenario.py
+++ b/OpenNTN/sub_urban_scenario.py
@@ -132,7 +132,7 @@ class SubUrbanScenario(SystemLevelScenario):
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
         #los_probability = tf.zeros(shape=self._distance_2d_out.shape) + los_p
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(tf.shape(self._distance_2d_out), self.rdtype) + los_p
         return los_probability
 
     @property
diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 103ef08..ee51a0f 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -830,7 +830,7 @@ class SystemLevelScenario(Object):
         # The 3D distance needs to take the curvature of Earth into account
         elevation_angle = self._elevation_angle
         #convert to radians for tf.math.sin later
-        elevation_angle = math.radians(elevation_angle)
+        elevation_angle = tf.constant(math.radians(elevation_angle), self.rdtype)
         #Radius of the Earth
         R_E = 6371000
  
diff --git a/OpenNTN/urban_scenario.py b/OpenNTN/urban_scenario.py
index c8e9cdc..b345e6b 100644
--- a/OpenNTN/urban_scenario.py
+++ b/OpenNTN/urban_scenario.py
@@ -131,7 +131,7 @@ class UrbanScenario(SystemLevelScenario):
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
         #los_probability = tf.zeros(shape=self._distance_2d_out.shape) + los_p
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(tf.shape(self._distance_2d_out), self.rdtype) + los_p
         
         return los_probability
 
diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index 21274b8..b1745eb 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -584,7 +584,8 @@ def drop_uts_in_sector(batch_size, num_ut, bs_height, elevation_angle, isd,
     
     actual_bs_ut_distance = tf.cast(bs_height, rdtype) / tf.cast(tf.math.sin(deg_2_rad(tf.cast(elevation_angle,rdtype))),rdtype)
     distance_center_to_ut = tf.math.sqrt(tf.math.square(actual_bs_ut_distance) - tf.math.square(bs_height))
-    x_base = tf.random.uniform(shape = [1], minval=0,maxval=distance_center_to_ut)
+    x_base = tf.random.uniform(shape = [1], minval=0,maxval=distance_center_to_ut,
+                               dtype=rdtype)
     y_base = tf.math.sqrt(tf.math.square(actual_bs_ut_distance) - tf.math.square(bs_height) - tf.math.square(x_base))
 
     # Randomly assign the UTs to one of the two half of the sector
@@ -979,8 +980,8 @@ def generate_uts_topology(  batch_size,
                                 axis=-1)
 
     
-    ut_downtilt = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
-    ut_slant = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
+    ut_downtilt = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
+    ut_slant = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
     #Always point at the BS, which is at [0,0,bs_height]
     ut_bearing = tf.math.atan2(ut_loc_xy[:,:,1], ut_loc_xy[:,:,0])
     ut_orientations = tf.stack([ut_bearing, ut_downtilt, ut_slant], axis=-1)
@@ -1603,11 +1604,11 @@ def compute_pathloss_gas(self):
         """
 
         # Constants set during scenario creation 
-        T=self._temperature
-        p=self._atmospheric_pressure
+        T=tf.cast(self._temperature, self.rdtype)
+        p=tf.cast(self._atmospheric_pressure, self.rdtype)
 
         f = self._carrier_frequency/(10.0**9.0)
-        pw=self._water_vapor_density#water vapor density
+        pw=tf.cast(self._water_vapor_density, self.rdtype)#water vapor density
         
         # Calculate the water vapor specific attenuation(Yw)
         # For more detail see ITU-R P.676-5 (23a)
@@ -1642,11 +1643,11 @@ def compute_pathloss_gas(self):
         ee6=(rp**0.2445)*(rt**(-5.9191))*tf.math.exp((0.0422*(1-rp))+(-8.0719*(1-rt)))
         ee7=(rp**(-0.1833))*(rt**(6.5589))*tf.math.exp((-0.2402*(1-rp))+(6.131*(1-rt)))
 
-        g54 = 2.136 * rp**1.4975 * rt**(-1.5852) * math.exp((-2.5196)*(1-rt))
-        g57 = 9.984 * rp**0.9313 * rt**(2.6732) * math.exp((0.8563)*(1-rt))
-        g60 = 15.42 * rp**0.8595 * rt**(3.6178) * math.exp((1.1521)*(1-rt))
-        g63 = 10.63 * rp**0.9298 * rt**(2.3284) * math.exp((0.6287)*(1-rt))
-        g66 = 1.944 * rp**1.6657 * rt**(-3.3714) * math.exp((-4.1643)*(1-rt))
+        g54 = 2.136 * rp**1.4975 * rt**(-1.5852) * tf.math.exp((-2.5196)*(1-rt))
+        g57 = 9.984 * rp**0.9313 * rt**(2.6732) * tf.math.exp((0.8563)*(1-rt))
+        g60 = 15.42 * rp**0.8595 * rt**(3.6178) * tf.math.exp((1.1521)*(1-rt))
+        g63 = 10.63 * rp**0.9298 * rt**(2.3284) * tf.math.exp((0.6287)*(1-rt))
+        g66 = 1.944 * rp**1.6657 * rt**(-3.3714) * tf.math.exp((-4.1643)*(1-rt))
 
         
         # Calculation of the dry air specific attenuation 
@@ -1687,10 +1688,10 @@ def compute_pathloss_gas(self):
             
         # Calculate the total gases attenuation for the given elevation
         Elev = self._elevation_angle
-        Atotx = (Ao + Aw) / tf.math.sin(math.radians(Elev))
+        Atotx = (Ao + Aw) / math.sin(math.radians(Elev))
         GasAtt = abs(Atotx)
 
-        pl_g = tf.zeros(shape = tf.shape(self.los)) + GasAtt
+        pl_g = tf.zeros(tf.shape(self.los), self.rdtype) + GasAtt
 
         self._pl_g = pl_g
             
@@ -1720,7 +1721,7 @@ def compute_pathloss_scintilation(self):
             #  Calculate the effective path length
             hL = 1000 # Height of turbulent layer in meters
             Elev = self._elevation_angle
-            L = (2 * hL) / (tf.math.sqrt(tf.math.sin(math.radians(Elev))**2 + 2.35e-4 + tf.math.sin(math.radians(Elev))))
+            L = (2 * hL) / (math.sqrt(math.sin(math.radians(Elev))**2 + 2.35e-4 + math.sin(math.radians(Elev))))
                 
             # Step 5: Calculate the effective antenna diameter
             D = self._diameter_earth_antenna # antenna diameter in meters
@@ -1741,7 +1742,7 @@ def compute_pathloss_scintilation(self):
             TroScin = a_p * g_x
 
             TScin=abs(TroScin)
-            pl_s = tf.zeros(shape = tf.shape(self.los)) + TScin
+            pl_s = tf.zeros(tf.shape(self.los), self.rdtype) + TScin
             self._pl_s = pl_s
             
         #For carrier frequencies below 6GHz we only consider Ionospheric scintillation    
@@ -1754,14 +1755,14 @@ def compute_pathloss_scintilation(self):
             #Scale scintillation pathloss at 4GHz to used carrier frequency by applying 3GPP TR38.811 6.6-12
             AIs = Pluc_4GHz * (f/4)**(n)
             #Get final loss by dividing by sqrt(2) according to 3GPP TR38.811 6.6-13
-            pl_s = tf.zeros(shape = tf.shape(self.los)) + (AIs/math.sqrt(2.0))
+            pl_s = tf.zeros(tf.shape(self.los), self.rdtype) + (AIs/math.sqrt(2.0))
             self._pl_s = pl_s
         
 
 
 def compute_pathloss_entry(self):
         #Currently only 0, as no HAPS are considered an thus no building cases
-        pl_e = tf.zeros(shape = tf.shape(self.los))
+        pl_e = tf.zeros(tf.shape(self.los), self.rdtype)
         self._pl_e = pl_e
         #ntnu.compute_pathloss_gas(self)
 
-- 
2.43.0

