From 037fc28f5717e3d2440503798a549059b1531baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:36 +0000
Subject: [PATCH 01/70] fix: contact_surface could not be imported (class named
 in its own annotations)

---
 hyvr/geo/contact_surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/contact_surface.py b/hyvr/geo/contact_surface.py
index 82637c5..2c76f76 100644
--- a/hyvr/geo/contact_surface.py
+++ b/hyvr/geo/contact_surface.py
@@ -37,7 +37,7 @@ class ContactSurface:
 
 
 
-    def use_lower_surface_value(self, other_surface: ContactSurface ):
+    def use_lower_surface_value(self, other_surface: 'ContactSurface'):
         other_surf = other_surface.surface
         for i in range(self.nx):
             for j in range(self.ny):
@@ -48,7 +48,7 @@ class ContactSurface:
 
 
 
-    def use_higher_surface_value(self, other_surface: ContactSurface ):
+    def use_higher_surface_value(self, other_surface: 'ContactSurface'):
         other_surf = other_surface.surface
         for i in range(self.nx):
             for j in range(self.ny):
-- 
2.43.0


From dcb03539cad51028a3d0d82083cefb9c703df1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:36 +0000
Subject: [PATCH 02/70] fix: optimized.py used sin, cos and sqrt without
 importing them

---
 hyvr/optimized.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyvr/optimized.py b/hyvr/optimized.py
index b317e72..0f2de29 100644
--- a/hyvr/optimized.py
+++ b/hyvr/optimized.py
@@ -4,6 +4,8 @@ This module contains optimized versions of routines that were once in sim or uti
 :Author: Samuel Scherrer
 """
 
+from math import cos, sin, sqrt
+
 import numpy as np
 import numpy.typing as npt
 
-- 
2.43.0


From 86d2c6c291e8a59a0402c6494d95f01f50d0c59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:55 +0000
Subject: [PATCH 03/70] fix: np.float no longer exists in numpy, use np.float64

---
 hyvr/assign_points.py      |  6 +++---
 hyvr/geo/ae_realization.py |  4 ++--
 hyvr/geo/channel_ae.pyx    | 28 ++++++++++++++--------------
 hyvr/geo/model.py          |  8 ++++----
 hyvr/geo/sheet_ae.py       | 16 ++++++++--------
 hyvr/geo/trough_ae.pyx     | 34 +++++++++++++++++-----------------
 6 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/hyvr/assign_points.py b/hyvr/assign_points.py
index d4b5669..aefcdf7 100644
--- a/hyvr/assign_points.py
+++ b/hyvr/assign_points.py
@@ -61,13 +61,13 @@ def assign_points(model):
     hat_array = -1*np.ones((nx, ny, nz), dtype=np.int32)
 
     # angles
-    azim_array = np.zeros((nx, ny, nz), dtype=np.float)
-    dip_array = np.zeros((nx, ny, nz), dtype=np.float)
+    azim_array = np.zeros((nx, ny, nz), dtype=np.float64)
+    dip_array = np.zeros((nx, ny, nz), dtype=np.float64)
 
 
     # container for passing facies, ae, ha, and hat, and azimuth and dip
     geo_ids = np.empty(4, dtype=np.int32)
-    angles = np.empty(2, dtype=np.float)
+    angles = np.empty(2, dtype=np.float64)
 
     total_n = nx * ny
 
diff --git a/hyvr/geo/ae_realization.py b/hyvr/geo/ae_realization.py
index 4988634..d7a04e9 100644
--- a/hyvr/geo/ae_realization.py
+++ b/hyvr/geo/ae_realization.py
@@ -117,8 +117,8 @@ class AERealization:
         self.object_zmins = np.array(self.object_zmin_list)
         self.object_zmaxs = np.array(self.object_zmax_list)
         # get the rest from the object list
-        self.object_azim = np.zeros(self.n_objects, dtype=np.float)
-        self.object_dip = np.zeros(self.n_objects, dtype=np.float)
+        self.object_azim = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_dip = np.zeros(self.n_objects, dtype=np.float64)
         self.object_facies = np.zeros(self.n_objects, dtype=np.int32)
         self.object_num_ha = np.zeros(self.n_objects, dtype=np.int32)
         self.object_num_facies = np.zeros(self.n_objects, dtype=np.int32)
diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 43edc15..4a1bad5 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -16,17 +16,17 @@ cdef class ChannelAE(AERealization):
     cpdef create_object_arrays(self):
         # This is super ugly :(
         cdef int i, nx, ny, j, k, max_len_centerline
-        self.object_a = np.zeros(self.n_objects, dtype=np.float)
-        self.object_width = np.zeros(self.n_objects, dtype=np.float)
-        self.object_depth = np.zeros(self.n_objects, dtype=np.float)
-        self.object_min_dx_dy = np.zeros(self.n_objects, dtype=np.float)
+        self.object_a = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_width = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_depth = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_min_dx_dy = np.zeros(self.n_objects, dtype=np.float64)
         self.object_len_centerline = np.zeros(self.n_objects, dtype=np.int32)
-        self.object_ztop = np.zeros(self.n_objects, dtype=np.float)
-        self.object_sin_dip = np.zeros(self.n_objects, dtype=np.float)
-        self.object_cos_dip = np.zeros(self.n_objects, dtype=np.float)
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_lag_height = np.zeros(self.n_objects, dtype=np.float)
+        self.object_ztop = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_sin_dip = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_cos_dip = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_lag_height = np.zeros(self.n_objects, dtype=np.float64)
         self.object_lag_facies = np.zeros(self.n_objects, dtype=np.int32)
         self.object_dipsets = np.zeros(self.n_objects, dtype=np.int32)
 
@@ -59,10 +59,10 @@ cdef class ChannelAE(AERealization):
             max_len_centerline = np.max(self.object_len_centerline)
         else:
             max_len_centerline = 0
-        self.object_x_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
-        self.object_y_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
-        self.object_vx = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
-        self.object_vy = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
+        self.object_x_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
+        self.object_y_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
+        self.object_vx = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
+        self.object_vy = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
 
         for i, obj in enumerate(self.object_list):
             for j in range(self.object_len_centerline[i]):
diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 8ffb396..b6e5503 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -175,13 +175,13 @@ class Model:
         # Initialise storage arrays:
         # hydraulic conductivity
         self.data['k_iso'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=np.float64)
         # porosity
         self.data['poros' ]= np.zeros((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=np.float64)
         # anisotropy ratio
         self.data['anirat' ]= np.ones((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=np.float64)
 
         k_iso = self.data['k_iso']
         poros = self.data['poros']
@@ -289,7 +289,7 @@ class Model:
                 anirat[fac == hyi] = hydraulics['k_ratio'][hy_idx]
 
         # Assignment of anisotropy
-        self.data['ktensors'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz, 3, 3), dtype=np.float)
+        self.data['ktensors'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz, 3, 3), dtype=np.float64)
         ho.set_anisotropic_ktensor(self.data['ktensors'], k_iso, azim*np.pi/180, dip*np.pi/180, anirat)
 
 
diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index 1c15e83..d1ec85c 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -14,20 +14,20 @@ class SheetAE(AERealization):
 
     def create_object_arrays(self):
 
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float)
-        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=np.float)
+        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=np.float64)
         self.object_dipsets = np.zeros(self.n_objects, dtype=np.int32)
 
         if self.n_objects > 0:
             nx, ny = self.object_list[0].bottom_surface.surface.shape
         else:
             nx, ny = 0, 0
-        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
-        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
+        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
+        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
 
         for i, obj in enumerate(self.object_list):
             self.object_shift[i] = obj.shift
diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 5f05c34..54565ab 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -17,23 +17,23 @@ cdef class TroughAE(AERealization):
     cpdef create_object_arrays(self):
         # This is super ugly :(
         cdef int i
-        self.object_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_z = np.zeros(self.n_objects, dtype=np.float)
-        self.object_a = np.zeros(self.n_objects, dtype=np.float)
-        self.object_b = np.zeros(self.n_objects, dtype=np.float)
-        self.object_c = np.zeros(self.n_objects, dtype=np.float)
-        self.object_max_ab = np.zeros(self.n_objects, dtype=np.float)
-        self.object_alpha = np.zeros(self.n_objects, dtype=np.float)
-        self.object_sinalpha = np.zeros(self.n_objects, dtype=np.float)
-        self.object_cosalpha = np.zeros(self.n_objects, dtype=np.float)
-        self.object_lag = np.zeros(self.n_objects, dtype=np.float)
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_cosdip = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float)
+        self.object_x = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_y = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_z = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_a = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_b = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_c = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_max_ab = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_alpha = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_sinalpha = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_cosalpha = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_lag = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_cosdip = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float64)
         self.object_lag_facies = np.zeros(self.n_objects, dtype=np.int32)
         self.object_structure = np.zeros(self.n_objects, dtype=np.int32)
 
-- 
2.43.0


From 5bf6ecb279b99176a8adf589491dde6d82f4f4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:28 +0000
Subject: [PATCH 04/70] fix: trough and channel extension modules did not
 compile against the Python base classes

---
 hyvr/geo/channel.pyx    |  1 -
 hyvr/geo/channel_ae.pxd | 32 --------------------------------
 hyvr/geo/channel_ae.pyx | 10 +++++-----
 hyvr/geo/trough.pyx     |  2 --
 hyvr/geo/trough_ae.pxd  | 29 -----------------------------
 hyvr/geo/trough_ae.pyx  | 12 ++++++------
 6 files changed, 11 insertions(+), 75 deletions(-)
 delete mode 100644 hyvr/geo/channel_ae.pxd
 delete mode 100644 hyvr/geo/trough_ae.pxd

diff --git a/hyvr/geo/channel.pyx b/hyvr/geo/channel.pyx
index aaf2fc2..421575f 100644
--- a/hyvr/geo/channel.pyx
+++ b/hyvr/geo/channel.pyx
@@ -1,7 +1,6 @@
 import numpy as np
 cimport numpy as np
 cimport cython
-from hyvr.geo.grid cimport Grid
 from libc.math cimport sqrt, sin, cos, atan2
 import hyvr.utils as hu
 
diff --git a/hyvr/geo/channel_ae.pxd b/hyvr/geo/channel_ae.pxd
deleted file mode 100644
index 8b74e03..0000000
--- a/hyvr/geo/channel_ae.pxd
+++ /dev/null
@@ -1,32 +0,0 @@
-
-cimport numpy as np
-from hyvr.geo.contact_surface cimport ContactSurface
-from hyvr.geo.grid cimport Grid
-from hyvr.geo.ae_realization cimport AERealization
-
-
-cdef class ChannelAE(AERealization):
-
-    cdef public:
-        # These are arrays of object attributes for better access from cython
-        np.float_t [:,:] object_x_center, object_y_center
-        np.float_t [:,:] object_vx, object_vy
-        np.float_t [:] object_a, object_width, object_depth, object_min_dx_dy
-        np.int32_t [:] object_len_centerline
-        np.float_t [:] object_ztop
-        np.float_t [:] object_sin_dip, object_cos_dip
-        np.float_t [:] object_shift, object_layer_dist
-        np.float_t [:] object_lag_height
-        np.int32_t [:] object_lag_facies
-        np.int32_t [:] object_dipsets
-        np.int32_t [:,:,:] object_dont_check
-
-
-
-    cpdef create_object_arrays(self)
-    cpdef maybe_assign_points_to_object(self, int oi,
-                                        np.int32_t [:] geo_ids,
-                                        np.float_t [:] angles,
-                                        np.float_t x, np.float_t y, np.float_t z,
-                                        int x_idx, int y_idx,
-                                        Grid grid)
\ No newline at end of file
diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 4a1bad5..0f740cf 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -6,14 +6,14 @@ from hyvr.geo.channel import Channel
 cimport cython
 cimport numpy as np
 from libc.math cimport sqrt, atan2
-from hyvr.geo.ae_realization cimport AERealization
+from hyvr.geo.ae_realization import AERealization
 
 
-cdef class ChannelAE(AERealization):
+class ChannelAE(AERealization):
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
-    cpdef create_object_arrays(self):
+    def create_object_arrays(self):
         # This is super ugly :(
         cdef int i, nx, ny, j, k, max_len_centerline
         self.object_a = np.zeros(self.n_objects, dtype=np.float64)
@@ -168,12 +168,12 @@ cdef class ChannelAE(AERealization):
     @cython.wraparound(False)
     @cython.nonecheck(False)
     @cython.cdivision(True)
-    cpdef maybe_assign_points_to_object(self, int oi,
+    def maybe_assign_points_to_object(self, int oi,
                                         np.int32_t [:] geo_ids,
                                         np.float_t [:] angles,
                                         np.float_t x, np.float_t y, np.float_t z,
                                         int x_idx, int y_idx,
-                                        Grid grid):
+                                        grid):
         """
         This function checks whether the current grid cell with given
         coordinates is inside the trough and assigns facies, azimuth and dip by
diff --git a/hyvr/geo/trough.pyx b/hyvr/geo/trough.pyx
index 5cdf582..6b8042c 100644
--- a/hyvr/geo/trough.pyx
+++ b/hyvr/geo/trough.pyx
@@ -1,9 +1,7 @@
 import numpy as np
-cimport hyvr.optimized as ho
 import hyvr.utils as hu
 from libc.math cimport sin, cos, ceil, acos, sqrt
 cimport numpy as np
-from hyvr.geo.grid cimport Grid
 cimport cython
 
 cdef class Trough:
diff --git a/hyvr/geo/trough_ae.pxd b/hyvr/geo/trough_ae.pxd
deleted file mode 100644
index ab3d91d..0000000
--- a/hyvr/geo/trough_ae.pxd
+++ /dev/null
@@ -1,29 +0,0 @@
-
-cimport numpy as np
-from hyvr.geo.contact_surface cimport ContactSurface
-from hyvr.geo.grid cimport Grid
-from hyvr.geo.ae_realization cimport AERealization
-
-cdef class TroughAE(AERealization):
-
-    cdef public:
-        # These are arrays of object attributes for better access from cython
-        np.float_t [:] object_x, object_y, object_z
-        np.float_t [:] object_a, object_b, object_c
-        np.float_t [:] object_max_ab
-        np.float_t [:] object_alpha, object_sinalpha, object_cosalpha
-        np.float_t [:] object_lag, object_shift
-        np.int32_t [:] object_structure
-        np.int32_t [:] object_lag_facies
-        np.float_t [:] object_layer_dist
-        np.float_t [:] object_cosdip
-        np.float_t [:] object_normvec_x, object_normvec_y, object_normvec_z
-
-
-    cpdef create_object_arrays(self)
-    cpdef maybe_assign_points_to_object(self, int oi,
-                                        np.int32_t [:] geo_ids,
-                                        np.float_t [:] angles,
-                                        np.float_t x, np.float_t y, np.float_t z,
-                                        int x_idx, int y_idx,
-                                        Grid grid)
\ No newline at end of file
diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 54565ab..6d73f47 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -6,15 +6,15 @@ from hyvr.geo.trough import Trough
 cimport cython
 cimport numpy as np
 from libc.math cimport sqrt, ceil, acos, pi, fabs, atan
-from hyvr.geo.ae_realization cimport AERealization
-cimport hyvr.optimized as ho
+from hyvr.geo.ae_realization import AERealization
+import hyvr.optimized as ho
 
 
-cdef class TroughAE(AERealization):
+class TroughAE(AERealization):
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
-    cpdef create_object_arrays(self):
+    def create_object_arrays(self):
         # This is super ugly :(
         cdef int i
         self.object_x = np.zeros(self.n_objects, dtype=np.float64)
@@ -88,12 +88,12 @@ cdef class TroughAE(AERealization):
     @cython.wraparound(False)
     @cython.nonecheck(False)
     @cython.cdivision(True)
-    cpdef maybe_assign_points_to_object(self, int oi,
+    def maybe_assign_points_to_object(self, int oi,
                                         np.int32_t [:] geo_ids,
                                         np.float_t [:] angles,
                                         np.float_t x, np.float_t y, np.float_t z,
                                         int x_idx, int y_idx,
-                                        Grid grid):
+                                        grid):
         """
         This function checks whether the current grid cell with given
         coordinates is inside the trough and assigns facies, azimuth and dip by
-- 
2.43.0


From 9ae26d3d567deeffb3e24025f2627af27cdb0fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:33 +0000
Subject: [PATCH 05/70] fix: Sheet attributes not set for its structure had no
 value, so sheets could not be created

---
 hyvr/geo/sheet.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/hyvr/geo/sheet.py b/hyvr/geo/sheet.py
index eeed2e8..96c9568 100644
--- a/hyvr/geo/sheet.py
+++ b/hyvr/geo/sheet.py
@@ -11,18 +11,18 @@ class Sheet:
     This class holds parameters for single sheet objects.
     """
     dipsets: npt.NDArray[np.float64]
-    num_facies: npt.NDArray[np.float64]
+    num_facies: int = 0
     zmin: npt.NDArray[np.float64]
     zmax: npt.NDArray[np.float64]
-    dip: npt.NDArray[np.float64]
-    azim: npt.NDArray[np.float64]
-    shift: npt.NDArray[np.float64]
-    layer_dist: npt.NDArray[np.float64]
-    normvec_x: npt.NDArray[np.float64]
-    normvec_y: npt.NDArray[np.float64]
-    normvec_z: npt.NDArray[np.float64]
-    facies: npt.NDArray[np.int32]
-    num_ha: npt.NDArray[np.int32]
+    dip: float = 0.0
+    azim: float = 0.0
+    shift: float = 0.0
+    layer_dist: float = 0.0
+    normvec_x: float = 0.0
+    normvec_y: float = 0.0
+    normvec_z: float = 0.0
+    facies: int = 0
+    num_ha: int = 0
     facies_array: npt.NDArray[np.int32]
     bottom_surface: ContactSurface
     top_surface: ContactSurface
-- 
2.43.0


From 787c9e4af34fe90fadb88d1dd94a3c09b84e7db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:04 +0000
Subject: [PATCH 06/70] fix: --overwrite / flag_ow was ignored when the run
 directory exists

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 532af78..672375d 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -498,7 +498,7 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
     if overwrite_old_output is None:
         overwrite_old_output = run['overwrite_old_output']
     if run['rundir'].exists():
-        if run['overwrite_old_output'] is True:
+        if overwrite_old_output is True:
             # If it exists, we just delete everything in it
             for f in os.listdir(run['rundir']):
                 path = os.path.join(run['rundir'], f)
-- 
2.43.0


From 3ade04c23612b8363ca80858defb7e7460bbaf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:04 +0000
Subject: [PATCH 07/70] fix: domain top was placed at lz instead of z0 + lz

---
 hyvr/geo/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index b6e5503..f58943c 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -106,7 +106,7 @@ class Model:
             'strata',
         ]
 
-        top_surface = ContactSurface(self.grid, mode='flat', z=self.grid.lz)
+        top_surface = ContactSurface(self.grid, mode='flat', z=self.grid.zmax)
         for si in range(self.n_strata):
             # create top surface
             if si == self.n_strata - 1:
-- 
2.43.0


From 70eb0e968c5e0e83027f3213738ce4541a77983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:04 +0000
Subject: [PATCH 08/70] fix: sheets could extend below the bottom of their
 architectural element

---
 hyvr/geo/sheet_ae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index d1ec85c..8a1b806 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -87,7 +87,7 @@ class SheetAE(AERealization):
                 # close to the bottom it might also be possible that the AE
                 # bottom is higher than the current bottom, so we have to use
                 # the higher value
-                top_surface.use_higher_surface_value(self.bottom_surface)
+                bottom_surface.use_higher_surface_value(self.bottom_surface)
 
             else:
                 last_sheet = True
-- 
2.43.0


From fe2ea63d2f93d518bed74f9f1e96ce25243277dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:04 +0000
Subject: [PATCH 09/70] fix: cells exactly on an element boundary were left
 unassigned

---
 hyvr/assign_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/assign_points.py b/hyvr/assign_points.py
index aefcdf7..e192f3f 100644
--- a/hyvr/assign_points.py
+++ b/hyvr/assign_points.py
@@ -315,7 +315,7 @@ def maybe_assign_points_to_ae(
         return 0
     z_above = top_surface[x_idx, y_idx]
     z_below = bottom_surface[x_idx, y_idx]
-    if z_below < z and z < z_above:
+    if z_below <= z and z <= z_above:
         geo_ids[0] = ae.bg_facies
         angles[0] = ae.bg_azim
         angles[1] = ae.bg_dip
-- 
2.43.0


From f3f5898d7753910ae00849a706437b7867cea0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 10/70] fix: object numbers never reached the cells, every
 geometrical object had ha 0

---
 hyvr/geo/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index f58943c..0b9bb94 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -144,8 +144,9 @@ class Model:
             for ae in stratum.aes:
                 ae.num = num_ae
                 num_ae += 1
-                for obj in ae.object_list:
+                for oi, obj in enumerate(ae.object_list):
                     obj.num_ha = num_ha
+                    ae.object_num_ha[oi] = num_ha
                     num_ha += 1
 
 
-- 
2.43.0


From 699215335d9422499812b8aff6fd6b941132a46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 11/70] fix: hydraulic parameters of objects were overwritten
 with those of the background facies

---
 hyvr/geo/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 0b9bb94..e7f0f4a 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -228,9 +228,9 @@ class Model:
                 # for si, aei in enumerate(ae_lu):
                 for stratum in self.strata:
                     for ae in stratum.aes:
-                        m0 = ha_arr == 0
+                        m0 = ha_arr == -1
                         ms = ae_arr == ae.num
-                        ae_mask = m0 & ms     # Get material that equals zero within in architectural element
+                        ae_mask = m0 & ms     # Get cells within the architectural element that are in no object
                         if np.all(ae_mask == False):
                             continue
 
-- 
2.43.0


From 5be270580d2bd44bae80c7aa40b9feeae774b461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 12/70] fix: homogeneous hydraulics failed for new-format ini
 files (hydro is called hydrofacies)

---
 hyvr/geo/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index e7f0f4a..9cfaa79 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -283,7 +283,7 @@ class Model:
 
         else:
             # Homogeneous case
-            for hy_idx, hyi in enumerate(hydraulics['hydro']):
+            for hy_idx, hyi in enumerate(hydraulics['hydrofacies']):
                 hyi = hy_idx
                 k_iso[fac == hyi] = hydraulics['k_h'][hy_idx]
                 poros[fac == hyi] = hydraulics['n'][hy_idx]
-- 
2.43.0


From e2a830210611db7cdf8f371e733ad6b12aa75c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 13/70] fix: global x-trends did not reach the stored
 conductivity and porosity

---
 hyvr/geo/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 9cfaa79..5dfe9e5 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -272,14 +272,14 @@ class Model:
                     k_iso *= zf_vec
                 if hydraulics['k_xtrend'] is not None:
                     xf_vec = np.linspace(*hydraulics['k_xtrend'], self.grid.nx)
-                    k_iso = np.transpose(k_iso.transpose() * xf_vec)
+                    k_iso *= xf_vec[:, np.newaxis, np.newaxis]
 
                 if hydraulics['n_ztrend'] is not None:
                     zf_vec = np.linspace(*hydraulics['n_ztrend'], self.grid.nz)  # Z factor at each elevation
                     poros *= zf_vec
                 if hydraulics['n_xtrend'] is not None:
                    xf_vec = np.linspace(*hydraulics['n_xtrend'], self.grid.nx)
-                   poros = np.transpose(poros.transpose() * xf_vec)
+                   poros *= xf_vec[:, np.newaxis, np.newaxis]
 
         else:
             # Homogeneous case
-- 
2.43.0


From 16403abfa6a58a4bc3ecbb8d1e73b9f1bdf85fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:11 +0000
Subject: [PATCH 14/70] fix: an element's hydraulic trends were applied to the
 whole domain, once per element unit with background, and not to porosity

---
 hyvr/geo/model.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 5dfe9e5..ff9ccc8 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -257,14 +257,18 @@ class Model:
                         # Assign background anisotropy ratio
                         anirat[ae_mask] = hydraulics['k_ratio'][ae_bg_facies]
 
-                        # Assign architectural element trends
-                        if ae.type_params['k_ztrend'] is not None:
-                            # Vertical trend
-                            zf_vec = np.linspace(*ae.type_params['k_ztrend'], self.grid.nz)  # Z factor at each elevation
-                            k_iso *= zf_vec
-                        if ae.type_params['k_xtrend'] is not None:
-                            xf_vec = np.linspace(*ae.type_params['k_xtrend'], self.grid.nx)
-                            k_iso = np.transpose(k_iso.transpose() * xf_vec)
+                # Assign architectural element trends to the cells of the element
+                for stratum in self.strata:
+                    for ae in stratum.aes:
+                        ms = ae_arr == ae.num
+                        for values, name in ((k_iso, 'k'), (poros, 'n')):
+                            if ae.type_params[name + '_ztrend'] is not None:
+                                # Vertical trend
+                                zf_vec = np.linspace(*ae.type_params[name + '_ztrend'], self.grid.nz)  # Z factor at each elevation
+                                values[ms] *= np.broadcast_to(zf_vec, values.shape)[ms]
+                            if ae.type_params[name + '_xtrend'] is not None:
+                                xf_vec = np.linspace(*ae.type_params[name + '_xtrend'], self.grid.nx)
+                                values[ms] *= np.broadcast_to(xf_vec[:, np.newaxis, np.newaxis], values.shape)[ms]
 
                 """ Assign trends to hydraulic parameters globally """
                 if hydraulics['k_ztrend'] is not None:
-- 
2.43.0


From 119be4147bc07e5ca4164f7041704ee78192eb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:54 +0000
Subject: [PATCH 15/70] fix: empty, deeply nested, multi-line and unbalanced
 lists in ini files were parsed wrongly

---
 hyvr/input/option_parsing.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index b11d1b9..9abefc4 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -466,20 +466,28 @@ def parse_list(string, dtype):
     ``dtype``. Returns a single value if only a single value is given.
     """
     # l =  string.replace('[', '').replace(']', '').replace(' ', '').split(',')
-    s = string.replace(' ', '') # remove all spaces first
-    if s[0] == '[': # it's not only a single item
-        s = s[1:-1] # remove [ and ] from start and end only
-    else: # it's just a single item
+    s = ''.join(string.split()) # remove all whitespace first
+    if not s.startswith('['): # it's just a single item
+        if '[' in s or ']' in s:
+            raise ValueError('Invalid list: ' + string)
         return dtype(s)
-    if s[0] == '[': # it's a list of lists
-        splitted = s.split('],')
-        for i in range(len(splitted)-1):
-            splitted[i] += ']' # splitting removed the closing bracket from all but the last item
-        l = list(map(lambda x: parse_list(x, dtype), splitted))
-    else:
-        splitted = s.split(',')
-        l = list(map(dtype, splitted))
-    return l
+    if not s.endswith(']') or s.count('[') != s.count(']'):
+        raise ValueError('Invalid list: ' + string)
+    s = s[1:-1] # remove [ and ] from start and end only
+    if s == '':
+        return []
+    # split at the commas that are not inside of an inner list
+    splitted = ['']
+    depth = 0
+    for char in s:
+        depth += (char == '[') - (char == ']')
+        if depth < 0:
+            raise ValueError('Invalid list: ' + string)
+        if char == ',' and depth == 0:
+            splitted.append('')
+        else:
+            splitted[-1] += char
+    return [parse_list(item, dtype) for item in splitted]
 
 def parse_bool(section, optionname):
     """
-- 
2.43.0


From 857f7d4c9a27f69368028eec8a9b8e2c348aaa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:06 +0000
Subject: [PATCH 16/70] fix: single values and partial lists were not expanded
 to multi-dimensional shapes, and lists of the wrong depth crashed instead of
 being rejected

---
 hyvr/input/option_parsing.py | 43 +++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index 9abefc4..3ee8874 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -237,6 +237,9 @@ class Option():
 
                 shape = deepcopy(self.shape)
 
+                if shape != -1 and not is_uniform(value):
+                    raise ShapeError(self.name, section.name)
+
                 # now we need to get the correct shape
                 if shape == -1:
                     # we don't care for the shape of this
@@ -265,6 +268,9 @@ class Option():
                 # if it's flat, it might contain dimensions with -1 that cannot be
                 # autoexpanded. We first need to determine the shape of this dimension.
                 if is_flat(shape):
+                    if value == [] and shape[0] in (-1, 0):
+                        # an empty list has no inner lists that could be wrong
+                        return value
                     real_shape = get_shape(value)
                     if isinstance(real_shape, (list, tuple)):
                         # if it's just a single number we can expand it
@@ -283,17 +289,15 @@ class Option():
                         # mind that there might be -1 values left.
                         if flat_shape_value != shape[-len(flat_shape_value):]:
                             raise ShapeError(self.name, section.name)
-                        # If there are -1's left we must ensure that the "depth" of
-                        # the given value, i.e. the number of dimensions, is higher
-                        # than the ``number of dimensions after the value preceding
-                        # the first -1`` + 1 .
-                        if any(map(lambda x: x == -1, shape)):
-                            depth = numdim(value)
-                            mindepth = len(shape) - shape.index(-1) + 1
-                            if depth < mindepth:
-                                raise ValueError('Option ' + self.name + ' in section ' +
-                                                section.name + ' can not be expanded!')
-                        shape = expand_shape(shape)
+                    # The remaining outer dimensions are auto-expanded, which is
+                    # not possible if their length is not known.
+                    missing = shape[:len(shape) - numdim(value)]
+                    if -1 in missing:
+                        raise ValueError('Option ' + self.name + ' in section ' +
+                                        section.name + ' can not be expanded!')
+                    for length in reversed(missing):
+                        value = [deepcopy(value) for _ in range(length)]
+                    return value
 
                 # Now we have an expanded shape, so only two tasks remain:
                 # * auto-expansion
@@ -312,12 +316,21 @@ def numdim(l):
     """
     if not isinstance(l, (list, tuple)):
         return 0
-    if not isinstance(l[-1], (list, tuple)):
+    if len(l) == 0 or not isinstance(l[-1], (list, tuple)):
         return 1
     else:
         return 1 + numdim(l[-1])
 
 
+def is_uniform(l):
+    """
+    Returns whether the list has the same depth everywhere.
+    """
+    if not isinstance(l, (list, tuple)):
+        return True
+    return len(set(map(numdim, l))) <= 1 and all(map(is_uniform, l))
+
+
 def _get_shape(l):
     depth = numdim(l)
     if depth == 0:
@@ -369,7 +382,7 @@ def get_positive_shape(shape_in_option, shape_in_file):
     shape in the option if it's only partially given in the file.
     """
     shape = deepcopy(shape_in_option)
-    for i in range(len(shape_in_file)):
+    for i in range(min(len(shape), len(shape_in_file))):
         if shape[len(shape)-1-i] == -1:
             shape[len(shape)-1-i] = shape_in_file[len(shape_in_file)-1-i]
     return shape
@@ -401,14 +414,14 @@ def expand_shape(shape):
     expanded = [shape[0]]
     for i in range(1, len(shape)):
         next = [shape[i]] * shape[i-1]
-        for j in range(1, i):
+        for j in range(i-2, -1, -1):
             next = [next] * shape[j]
         expanded.append(next)
     return expanded
 
 def expand_to_shape(shape, value):
     depth = numdim(value)
-    if depth != len(shape):
+    if depth < len(shape):
         value = _expand_to_shape(shape[-1-depth], value)
     return value
 
-- 
2.43.0


From 4b8882f8bc4f5eeef0f7c75f317071f9d7caf033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:51 +0000
Subject: [PATCH 17/70] fix: number of layers in dipping sheets was too small
 (or negative), depending on position and size of the domain

---
 hyvr/geo/sheet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/sheet.py b/hyvr/geo/sheet.py
index 96c9568..bdf764f 100644
--- a/hyvr/geo/sheet.py
+++ b/hyvr/geo/sheet.py
@@ -73,9 +73,10 @@ class Sheet:
             self.shift += np.random.rand() * self.layer_dist
 
 
-            # The maximum amount of necessary layers is max(lx, ly, lz)/layer_dist
+            # The distance of a cell to the zero-plane is at most the length of the domain diagonal.
             # 10 is added just to be sure
-            self.num_facies = int(np.ceil((max(grid.ly, grid.ly, grid.lz) + self.shift)/self.layer_dist)) + 10
+            diagonal = np.sqrt(grid.lx**2 + grid.ly**2 + grid.lz**2)
+            self.num_facies = 2*int(np.ceil(diagonal/self.layer_dist)) + 10
             self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
         else:
             # massive internal structure
-- 
2.43.0


From 4598d4ac2ed85f8bef8d714a8e69fa0bd0f0cad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:51 +0000
Subject: [PATCH 18/70] fix: the dipping layer around the zero plane was twice
 as thick as dipset_dist

---
 hyvr/geo/sheet_ae.py   | 2 +-
 hyvr/geo/trough_ae.pyx | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index 8a1b806..a135ff1 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -152,7 +152,7 @@ class SheetAE(AERealization):
         geo_ids[2] = self.object_num_ha[oi]
         if self.object_dipsets[oi]:
             d = self.object_normvec_x[oi]*x + self.object_normvec_y[oi]*y + self.object_normvec_z[oi]*z - self.object_shift[oi]
-            n = int(d/self.object_layer_dist[oi]) + self.object_num_facies[oi]//2
+            n = int(np.floor(d/self.object_layer_dist[oi])) + self.object_num_facies[oi]//2
             geo_ids[0] = self.object_facies_array[oi,n]
             return
         else:
diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 6d73f47..714ef86 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -5,7 +5,7 @@ from hyvr.geo.trough import Trough
 
 cimport cython
 cimport numpy as np
-from libc.math cimport sqrt, ceil, acos, pi, fabs, atan
+from libc.math cimport sqrt, ceil, floor, acos, pi, fabs, atan
 from hyvr.geo.ae_realization import AERealization
 import hyvr.optimized as ho
 
@@ -192,7 +192,7 @@ class TroughAE(AERealization):
                          dy*self.object_normvec_y[oi] +\
                          dz*self.object_normvec_z[oi] + self.object_shift[oi]
             # get index in facies vector, where n = len(facies)//2 at d=0
-            n = int(plane_dist/self.object_layer_dist[oi]) + self.object_num_facies[oi]//2
+            n = int(floor(plane_dist/self.object_layer_dist[oi])) + self.object_num_facies[oi]//2
             geo_ids[0] = self.object_facies_array[oi,n]
             angles[0] = self.object_azim[oi]
             angles[1] = self.object_dip[oi]
-- 
2.43.0


From cccaca3b16c61f9bf1160bbd962eae195cfd8025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:51 +0000
Subject: [PATCH 19/70] fix: cells deep in a dipping channel got the facies of
 a negative layer index

---
 hyvr/geo/channel_ae.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 0f740cf..023f0dc 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -5,7 +5,7 @@ from hyvr.geo.channel import Channel
 
 cimport cython
 cimport numpy as np
-from libc.math cimport sqrt, atan2
+from libc.math cimport sqrt, atan2, ceil, floor
 from hyvr.geo.ae_realization import AERealization
 
 
@@ -300,7 +300,9 @@ class ChannelAE(AERealization):
                 # To correct for the distance in z-direction we subtract |dz| * cos(dip)
                 # note that dz is negative here
                 d = dist_along_curve * self.object_sin_dip[oi] + dz*self.object_cos_dip[oi] + self.object_shift[oi]
-                n = int(d/self.object_layer_dist[oi])
+                # d can be as low as -depth, so we have to shift the index by the number of layers
+                # needed for this
+                n = int(floor(d/self.object_layer_dist[oi])) + int(ceil(self.object_depth[oi]/self.object_layer_dist[oi]))
                 geo_ids[0] = self.object_facies_array[oi,n]
                 return
             else:
-- 
2.43.0


From ff6b0afcdc2daefffc892c010daff2c5ee6edfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:51 +0000
Subject: [PATCH 20/70] fix: channels skipped cells that belong to them if dy
 is larger than 1

---
 hyvr/geo/channel_ae.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 023f0dc..ebdb121 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -268,7 +268,7 @@ class ChannelAE(AERealization):
                     #
                     #     y(x) = sqrt(radius**2 - x**2)
                     #
-                    ny = int(sqrt(radius**2 - (i*grid.dx)**2))
+                    ny = int(sqrt(radius**2 - (i*grid.dx)**2)/grid.dy)
                     for j in range(ny):
                         if y_idx-j >= 0 and y_idx+j < grid.ny:
                             self.object_dont_check[oi,x_idx+i, y_idx+j] = 1
-- 
2.43.0


From b51302e1bc9a52cdadc8a53e7d5d2fbfebb0b46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:51 +0000
Subject: [PATCH 21/70] fix: channels with size_ztrend could not be generated

---
 hyvr/geo/channel_ae.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index ebdb121..3cae3e3 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -112,7 +112,7 @@ class ChannelAE(AERealization):
         dz = self.type_params['agg']
         if self.type_params['size_ztrend'] is not None:
             z = 0.5*(self.top_surface.zmean + self.bottom_surface.zmean)
-            zfactor = np.interp(z, [grid.z0, grid.zmax], *self.type_params['size_ztrend'])
+            zfactor = np.interp(z, [grid.z0, grid.zmax], self.type_params['size_ztrend'])
         else:
             zfactor = 1
         depth = self.type_params['depth'] * zfactor
-- 
2.43.0


From 9a6d0c3f26c45e7bb7267c9d6adf1fcd48284d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:58 +0000
Subject: [PATCH 22/70] fix: a missing ini-file given as a Path raised
 TypeError instead of FileNotFoundError

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 672375d..0d8b02f 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -101,7 +101,7 @@ def parameters(inifile):
         # this is probably caused by a wrong encoding
         p.read(inifile, encoding='utf-8-sig')
     if len(p.sections()) == 0:
-        raise FileNotFoundError("Parameter file {:s} not found!".format(inifile))
+        raise FileNotFoundError("Parameter file {:s} not found!".format(str(inifile)))
 
     old_format = 'dataoutputs' in dict(p['run'])
     if old_format:
-- 
2.43.0


From 3188060f0a3159175a351730c3ebf7b9e1f1f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:58 +0000
Subject: [PATCH 23/70] fix: a missing run section raised KeyError instead of
 MissingSectionError

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 0d8b02f..14ce4ab 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -103,7 +103,7 @@ def parameters(inifile):
     if len(p.sections()) == 0:
         raise FileNotFoundError("Parameter file {:s} not found!".format(str(inifile)))
 
-    old_format = 'dataoutputs' in dict(p['run'])
+    old_format = p.has_section('run') and 'dataoutputs' in dict(p['run'])
     if old_format:
         run, model, strata, hydraulics, flowtrans, elements = get_new_parameters_from_deprecated(*parse_deprecated_inifile(p))
 
-- 
2.43.0


From 194c27f9482789bb130ff0458911ef616cfa2237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:58 +0000
Subject: [PATCH 24/70] fix: the last letter was cut off the runname for
 ini-files that only resemble a backup file

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 14ce4ab..fd5d384 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -124,7 +124,7 @@ def parameters(inifile):
     ini_path = pathlib.Path(inifile).parent.resolve()
     ini_name = pathlib.Path(inifile).name
     if run['runname'] is None:
-        if ini_name.endswith("autogenerated_backup.ini"):
+        if ini_name.endswith("_autogenerated_backup.ini"):
             run['runname'] = ini_name[0:-25]
         else:
             run['runname'] = ".".join(ini_name.split('.')[0:-1])
-- 
2.43.0


From a55f43751dd7ed31c42c558e4e65e7dfafd2631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:58 +0000
Subject: [PATCH 25/70] fix: modeldir could not be used (str has no path
 operations, undefined name for modeldir=select)

---
 hyvr/input/parameters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index fd5d384..7af47d5 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -149,10 +149,11 @@ def parameters(inifile):
             directory = input(
                 'Please input the model directory save path, or press <enter> to'
                 'save in default directory:\n')
-            if len(run['modeldir']) == 0:
-                run['modeldir'] = inipath
+            if len(directory) == 0:
+                run['modeldir'] = ini_path
             else:
-                run['modeldir'] = pathlib.Path(directory).resolve()
+                run['modeldir'] = directory
+        run['modeldir'] = pathlib.Path(run['modeldir']).resolve()
         run['rundir'] = run['modeldir'] / run['runname']
 
     return run, model, strata, hydraulics, flowtrans, elements
-- 
2.43.0


From d6b0347fdeeab1d8390761f49146f1c63fe99bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:58 +0000
Subject: [PATCH 26/70] fix: an invalid background facies raised TypeError
 instead of ValueError

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 7af47d5..bc40322 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -227,7 +227,7 @@ def parse_inifile(p):
     try:
         strata['bg_facies'] = parse_facies(strata['bg_facies'], hydraulics['hydrofacies'])
     except:
-        raise ValueError('Invalid facies string in strata section in option bg_facies: ' + strata['bg_facies'])
+        raise ValueError('Invalid facies string in strata section in option bg_facies: ' + str(strata['bg_facies']))
 
 
     # flowtrans section
-- 
2.43.0


From 75ff99a45a524f3ceb5c43101852da428217065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:58 +0000
Subject: [PATCH 27/70] fix: bulbset_dist was required for structure bulb, but
 not for bulb_sets, which needs it

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index bc40322..41cf0c9 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -281,7 +281,7 @@ def parse_inifile(p):
         if elements[section]['structure'] == 'dip' or elements[section]['structure'] == 'random':
             assert_exists('dipset_dist', dictionary, section)
         # if structure is 'bulb_sets', require 'bulbset_dist'
-        if elements[section]['structure'] == 'bulb' or elements[section]['structure'] == 'random':
+        if elements[section]['structure'] == 'bulb_sets' or elements[section]['structure'] == 'random':
             assert_exists('bulbset_dist', dictionary, section)
 
         # lag surface facies
-- 
2.43.0


From 1abc7f0a49f62326c8e55ffcd74e6a33579f9a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:58 +0000
Subject: [PATCH 28/70] fix: an element without contact_model crashed, it is a
 required option

---
 hyvr/input/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/options.py b/hyvr/input/options.py
index a4edcab..1cfde56 100644
--- a/hyvr/input/options.py
+++ b/hyvr/input/options.py
@@ -78,7 +78,7 @@ options['strata'] = [
 element_options = [
     Option('geometry', str, optional=False,
            validation_func=lambda x: x in ['trough', 'channel', 'sheet']),
-    Option('contact_model', list, optional=True, shape=[-1], datatype=str),
+    Option('contact_model', list, optional=False, shape=[-1], datatype=str),
     Option('facies', list, optional=False, shape=[-1], datatype=str),
     Option('altfacies', list, optional=True, shape=['facies', -1], datatype=str),
     Option('size_ztrend', list, optional=True, shape=2, datatype=float),
-- 
2.43.0


From 04623185948e15f1f6e303c03ef4b90335b06159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:14 +0000
Subject: [PATCH 29/70] fix: contact models in upper case or empty were
 accepted or crashed with an unrelated error

---
 hyvr/geo/contact_surface.py       | 2 +-
 hyvr/geo/contact_surface_utils.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/contact_surface.py b/hyvr/geo/contact_surface.py
index 2c76f76..4879db9 100644
--- a/hyvr/geo/contact_surface.py
+++ b/hyvr/geo/contact_surface.py
@@ -32,7 +32,7 @@ class ContactSurface:
             self.zmin = self.z
             self.zmax = self.z
 
-        elif self.mode == "dem":
+        elif kwargs['mode'] == "dem":
             raise NotImplementedError("This is not implemented yet!")
 
 
diff --git a/hyvr/geo/contact_surface_utils.py b/hyvr/geo/contact_surface_utils.py
index bdf9b30..8c01db4 100644
--- a/hyvr/geo/contact_surface_utils.py
+++ b/hyvr/geo/contact_surface_utils.py
@@ -1,7 +1,9 @@
 import numpy as np
 
 def parse_contact_model(param_list, depth=False):
-    mode = param_list[0].strip("\"'")
+    if len(param_list) == 0:
+        raise ValueError("This is not a valid contact model: " + str(param_list))
+    mode = param_list[0].strip("\"'").lower()
     cm = {'mode': mode}
     param_idx = 1
     if depth:
-- 
2.43.0


From cc3b8951cac76a77b97772eb6ee93ea99a89a46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:14 +0000
Subject: [PATCH 30/70] fix: manually placed troughs were ignored if they were
 not given from top to bottom

---
 hyvr/geo/trough_ae.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 714ef86..98549e4 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -70,7 +70,8 @@ class TroughAE(AERealization):
                 self.bottom_surface, self.top_surface, self.type_params, grid
             )
         else:
-            te_xyz = self.type_params['te_xyz']
+            # objects have to be ordered from top to bottom
+            te_xyz = sorted(self.type_params['te_xyz'], key=lambda xyz: -xyz[2])
 
         # Generate troughs
         for xc, yc, zc in te_xyz:
-- 
2.43.0


From 200083e6ad176481bb86c2e41a7ffe75570f0124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:14 +0000
Subject: [PATCH 31/70] fix: cells of a stratum whose mean thickness is not
 positive were left unassigned

---
 hyvr/geo/stratum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/stratum.py b/hyvr/geo/stratum.py
index 6c35563..1c7d8b5 100644
--- a/hyvr/geo/stratum.py
+++ b/hyvr/geo/stratum.py
@@ -48,7 +48,10 @@ class Stratum:
         # choose type of first AE
         curr_ae_type = prob_choose(self.ae_types, self.params['ae_prob'])
         znow = self.top_surface.zmean
-        while znow > self.bottom_surface.zmean:
+        # a stratum always has at least one AE, unless it's empty
+        while znow > self.bottom_surface.zmean or (
+                len(self.aes) == 0
+                and np.any(self.top_surface.surface > self.bottom_surface.surface)):
 
             num_type = self.ae_type_names.index(curr_ae_type.name)
 
-- 
2.43.0


From 55a363049cfe61cb9f6607c6edadf2d1daa1ffcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:14 +0000
Subject: [PATCH 32/70] fix: a change to the default value of a parsed option
 changed the results of later calls to parse

---
 hyvr/input/option_parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index 3ee8874..eac3980 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -214,7 +214,7 @@ class Option():
         if not self.optional:
             assert_exists(self.name, section.dict, section.name)
         if self.name not in section.dict:
-            return self.default
+            return deepcopy(self.default)
         else:
             if self.dtype != list:
                 if self.dtype == bool:
-- 
2.43.0


From 6b838ba25d632959b81b2516de6b0a63b69e6483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:23 +0000
Subject: [PATCH 33/70] fix: channels with negative dip read facies from
 outside of their facies array

---
 hyvr/geo/channel.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/channel.pyx b/hyvr/geo/channel.pyx
index 421575f..0ab7b4d 100644
--- a/hyvr/geo/channel.pyx
+++ b/hyvr/geo/channel.pyx
@@ -96,10 +96,13 @@ cdef class Channel:
                                             +(self.y_center[i] - self.y_center[i-1])**2
                 )
             self.num_facies = int(
-                np.ceil(dist_along_curve*self.sin_dip/self.layer_dist + self.shift)
+                np.ceil(dist_along_curve*abs(self.sin_dip)/self.layer_dist + self.shift)
                 + np.ceil(self.depth/self.layer_dist)
             )
             self.num_facies += 10  # just to be sure
+            if self.sin_dip < 0:
+                # the distance decreases along the curve, so we have to start at its maximum
+                self.shift -= dist_along_curve*self.sin_dip
             self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
         else:
             # massive internal structure
-- 
2.43.0


From cef43716d15fe65a38adffd45d0b685fda8d63ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:23 +0000
Subject: [PATCH 34/70] fix: old-format elements got the background azimuth as
 background dip and a float as facies

---
 hyvr/input/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 41cf0c9..4388622 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -342,9 +342,9 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         elem = elements[elem_name]
         elem['size_ztrend'] = elem['geo_ztrend']
         if elem['bg'] is not None:
-            elem['bg_facies'] = elem['bg'][0]
+            elem['bg_facies'] = int(elem['bg'][0])
             elem['bg_azim'] = elem['bg'][1]
-            elem['bg_dip'] = elem['bg'][1]
+            elem['bg_dip'] = elem['bg'][2]
         else:
             elem['bg_facies'] = -1
             elem['bg_azim'] = float('NaN')
-- 
2.43.0


From dc9b3a2677ee4ed393e816e176d174fa9eb955e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:23 +0000
Subject: [PATCH 35/70] fix: lag facies of old-format elements was a float

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 4388622..aa0a34e 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -359,7 +359,7 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         if elem['geometry'] in ['trough', 'channel']:
             if elem['lag'] is not None:
                 elem['lag_height'] = elem['lag'][0]
-                elem['lag_facies'] = elem['lag'][1]
+                elem['lag_facies'] = int(elem['lag'][1])
             else:
                 elem['lag_height'] = 0.0
                 elem['lag_facies'] = -1
-- 
2.43.0


From 0e38be6a46cd708bce3ff0256a770131e381efc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:23 +0000
Subject: [PATCH 36/70] fix: old-format channels and bulb_l troughs were not
 converted to the new format

---
 hyvr/input/parameters.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index aa0a34e..1a62c52 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -355,6 +355,13 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         if elem['geometry'] == 'trunc_ellip':
             elem['geometry'] = 'trough'
             elem['trough_density'] = elem['el_z']
+            if elem['structure'] == 'bulb_l':
+                elem['structure'] = 'bulb_sets'
+        elif elem['geometry'] == 'ext_par':
+            elem['geometry'] = 'channel'
+            elem['channel_no'] = int(elem['channel_no'])
+            elem['mig'] = None
+            elem['flow_angle'] = 0.
         elem['contact_model'] = parse_old_elem_contact_model(elem)
         if elem['geometry'] in ['trough', 'channel']:
             if elem['lag'] is not None:
-- 
2.43.0


From dfa31480fd84940b1df2e571de28b3f2fb33af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:23 +0000
Subject: [PATCH 37/70] fix: old-format heterogeneity level ae left all
 hydraulic parameters zero, it is not supported anymore

---
 hyvr/input/parameters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 1a62c52..5c84ca1 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -316,6 +316,8 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
     model['hydraulics'] = hydraulics['gen']
     model['heterogeneity'] = run['het']
     model['heterogeneity_level'] = model['hetlev']
+    if model['hetlev'] == 'ae':
+        raise ValueError('heterogeneity level ae is not supported anymore')
     if model['display']:
         raise ValueError('display option is not supported anymore')
 
-- 
2.43.0


From 4d18c19d83fad66571402e9d60b21a9e2cc26430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:23 +0000
Subject: [PATCH 38/70] fix: old-format ae_table raised NameError instead of
 the message that it is not supported

---
 hyvr/input/parameters.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 5c84ca1..bdd693d 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -452,9 +452,7 @@ def parse_deprecated_inifile(p):
     strata = Section('strata', old_options['strata']).parse(dict(p['strata']))
     del sections[sections.index('strata')]
     if strata['ae_table'] is not None:
-        ae_table = pathlib.Path(inifile).parent / strata['ae_table']
-        if not ae_table.exists():
-            raise FileNotFoundError('ae_table-file {:s} not found!'.format(ae_table))
+        raise ValueError('AE tables are not supported anymore!')
 
     hydraulics = Section('hydraulics', old_options['hydraulics']).parse(dict(p['hydraulics']))
     del sections[sections.index('hydraulics')]
-- 
2.43.0


From 16829fd7145f5965c2f63de981f38043d314e127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:29 +0000
Subject: [PATCH 39/70] fix: old-format ini-files that use the name
 l_dataoutputs were taken for new-format files

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index bdd693d..bb806c0 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -103,7 +103,7 @@ def parameters(inifile):
     if len(p.sections()) == 0:
         raise FileNotFoundError("Parameter file {:s} not found!".format(str(inifile)))
 
-    old_format = p.has_section('run') and 'dataoutputs' in dict(p['run'])
+    old_format = p.has_section('run') and ('dataoutputs' in p['run'] or 'l_dataoutputs' in p['run'])
     if old_format:
         run, model, strata, hydraulics, flowtrans, elements = get_new_parameters_from_deprecated(*parse_deprecated_inifile(p))
 
-- 
2.43.0


From a6b27833fc9138114289d51927b204062e31f361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:22 +0000
Subject: [PATCH 40/70] fix: mf6 output failed (undefined name, solver options
 renamed in flopy)

---
 hyvr/postprocess/output.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 867fc1e..0f79d5b 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -284,11 +284,11 @@ def to_mf6(model, fname):
     ims = flopy.mf6.ModflowIms(sim,
                                print_option='SUMMARY',
                                complexity='COMPLEX',
-                               outer_hclose=1e-3,
+                               outer_dvclose=1e-3,
                                outer_maximum=500,
                                under_relaxation='NONE',
                                inner_maximum=100,
-                               inner_hclose=1e-4,
+                               inner_dvclose=1e-4,
                                rcloserecord=0.001,
                                linear_acceleration='BICGSTAB',
                                scaling_method='NONE',
@@ -329,9 +329,9 @@ def to_mf6(model, fname):
         hin = model.flowtrans['hin'][0]
         hout = model.flowtrans['hout'][0]
 
-    elif flowtrans['gradh'] is not None:
+    elif model.flowtrans['gradh'] is not None:
         hout = 1
-        hin = hout + model.grid.lx * flowtrans['gradh']
+        hin = hout + model.grid.lx * model.flowtrans['gradh']
 
     if np.any([model.flowtrans['hin'] is not None, model.flowtrans['gradh'] is not None]):
         chd_rec = []
-- 
2.43.0


From 58b75276933e0f462884dcd63ecff80c6c93ac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:22 +0000
Subject: [PATCH 41/70] fix: vtr output failed or had a cell too many for some
 combinations of domain size and spacing

---
 hyvr/postprocess/output.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 0f79d5b..07faa08 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -155,9 +155,9 @@ def to_vtr(model, fname):
     try:
         from pyevtk.hl import gridToVTK
         data_dict = {key:model.data[key] for key in model.data if key != "ktensors"}
-        xv = np.arange(model.grid.x0, model.grid.xmax+model.grid.dx, model.grid.dx)
-        yv = np.arange(model.grid.y0, model.grid.ymax+model.grid.dy, model.grid.dy)
-        zv = np.arange(model.grid.z0, model.grid.zmax+model.grid.dz, model.grid.dz)
+        xv = model.grid.x0 + model.grid.dx*np.arange(model.grid.nx + 1)
+        yv = model.grid.y0 + model.grid.dy*np.arange(model.grid.ny + 1)
+        zv = model.grid.z0 + model.grid.dz*np.arange(model.grid.nz + 1)
         gridToVTK(fname, xv, yv, zv, cellData=data_dict)
     except ImportError as e:
         raise type(e)(str(e) + ", vtr output not possible!")
-- 
2.43.0


From ed97085470d21a499ad53251881fb1e8f835c735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:22 +0000
Subject: [PATCH 42/70] fix: mf6 layer bottoms were rounded to 3 decimals and
 one too many for some spacings

---
 hyvr/postprocess/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 07faa08..b0e1664 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -299,7 +299,7 @@ def to_mf6(model, fname):
     """ Create discretization """
     ztop = model.grid.z0 + model.grid.lz
     zbot = model.grid.z0
-    botm = np.around(np.arange(ztop, zbot-model.grid.dz, -model.grid.dz), decimals=3)
+    botm = np.linspace(ztop, zbot, model.grid.nz + 1)
     dis = flopy.mf6.modflow.mfgwfdis.ModflowGwfdis(gwf,
                                                    nlay=model.grid.nz,
                                                    nrow=model.grid.ny,
-- 
2.43.0


From 7c736d41380a08b1c88c06e0574b32dc08a55744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:22 +0000
Subject: [PATCH 43/70] fix: row and column spacing were interchanged in mf and
 mf6 output

---
 hyvr/postprocess/output.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index b0e1664..e97fa1b 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -193,7 +193,7 @@ def to_modflow(model, fname):
     zbot = model.grid.z0
     botm = np.linspace(ztop, zbot, model.grid.nz + 1)
     dis = flopy.modflow.ModflowDis(mf, model.grid.nz, model.grid.nx, model.grid.ny, 
-                                   delr=model.grid.dx, delc=model.grid.dy,
+                                   delr=model.grid.dy, delc=model.grid.dx,
                                    top=ztop, botm=botm[1:])
 
     # Variables for the BAS package
@@ -304,8 +304,8 @@ def to_mf6(model, fname):
                                                    nlay=model.grid.nz,
                                                    nrow=model.grid.ny,
                                                    ncol=model.grid.nx,
-                                                   delr=model.grid.dy,
-                                                   delc=model.grid.dx,
+                                                   delr=model.grid.dx,
+                                                   delc=model.grid.dy,
                                                    top=ztop,
                                                    botm=botm[1:],
                                                    filename='{}.dis'.format(runname))
-- 
2.43.0


From f846584c74f0af6d3adc5e74245c30c5569cbf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:22 +0000
Subject: [PATCH 44/70] fix: mf and mf6 output was upside down

---
 hyvr/postprocess/output.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index e97fa1b..77e9103 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -208,10 +208,11 @@ def to_modflow(model, fname):
     bas = flopy.modflow.ModflowBas(mf, ibound=ibound, strt=strt)
 
     # Assign hydraulic conductivity
-    hyvr_hk = np.transpose(model.data['k_iso'], (2, 0, 1))
+    # (layers are numbered from top to bottom, the z-axis points upwards)
+    hyvr_hk = np.transpose(model.data['k_iso'], (2, 0, 1))[::-1]
     hyvr_layvka = 1                                           # VKA dataset is ratio of horizontal K
     if 'anirat' in model.data.keys():
-        hyvr_vka = np.transpose(model.data['anirat'], (2, 0, 1))
+        hyvr_vka = np.transpose(model.data['anirat'], (2, 0, 1))[::-1]
 
         # Add LPF package to the MODFLOW model
         lpf = flopy.modflow.ModflowLpf(mf,                        # Modflow object
@@ -255,13 +256,13 @@ def to_mf6(model, fname):
     mfdir.mkdir(parents=True, exist_ok=True)
     mfname = str(mfdir / runname)
 
-    # Transpose HyVR arrays for MF6 input
+    # Transpose HyVR arrays for MF6 input (layers are numbered from top to bottom)
     transpose_order = (2, 1, 0)
-    k_iso = np.transpose(model.data['k_iso'], transpose_order)
+    k_iso = np.transpose(model.data['k_iso'], transpose_order)[::-1]
     if set(['anirat', 'dip', 'azim']).issubset(model.data.keys()):
-        anirat = np.transpose(model.data['anirat'], transpose_order)
-        dip = np.transpose(model.data['dip'], transpose_order)
-        azim = np.transpose(model.data['azim'], transpose_order)
+        anirat = np.transpose(model.data['anirat'], transpose_order)[::-1]
+        dip = np.transpose(model.data['dip'], transpose_order)[::-1]
+        azim = np.transpose(model.data['azim'], transpose_order)[::-1]
         xt3d = True
     else:
         xt3d = False
-- 
2.43.0


From ab6256fe7566cec008226f18a815d30044b75b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:13 +0000
Subject: [PATCH 45/70] fix: channel centrelines ended after a fraction of
 their length and did not cross the domain

---
 hyvr/optimized.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyvr/optimized.py b/hyvr/optimized.py
index 0f2de29..d9a1884 100644
--- a/hyvr/optimized.py
+++ b/hyvr/optimized.py
@@ -104,6 +104,7 @@ def curve_interp(xc: npt.NDArray[np.float64], yc: npt.NDArray[np.float64],spacin
     t = np.arange(xc[0], nc, spacing * 0.1)
     xc = np.interp(t, np.arange(nc), xc)
     yc = np.interp(t, np.arange(nc), yc)
+    nc = len(xc)
     tol = spacing
     ic, idx = 0, [0]
     while ic < nc:
-- 
2.43.0


From a0811ba12f35b90c3321dadae9a0a15d9d9ca11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:13 +0000
Subject: [PATCH 46/70] fix: channels missed the domain if the grid origin is
 not at zero

---
 hyvr/geo/channel_ae.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 3cae3e3..89b4a55 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -133,8 +133,8 @@ class ChannelAE(AERealization):
 
             for i in range(n_channels):
                 # get start of channel
-                ystart_grid = (grid.y0 + grid.ly)/2 - (domain_length+width)/2 * np.sin(flow_angle) + ystart[i] * np.cos(flow_angle)
-                xstart_grid = (grid.x0 + grid.lx)/2 - (domain_length+width)/2 * np.cos(flow_angle) - ystart[i] * np.sin(flow_angle)
+                ystart_grid = grid.y0 + grid.ly/2 - (domain_length+width)/2 * np.sin(flow_angle) + ystart[i] * np.cos(flow_angle)
+                xstart_grid = grid.x0 + grid.lx/2 - (domain_length+width)/2 * np.cos(flow_angle) - ystart[i] * np.sin(flow_angle)
                 # generate centerline
                 outputs = ferguson_curve(grid,
                                          self.type_params['h'],
-- 
2.43.0


From 4ad7f09433a7e45d3ceb9488705230dd5f9c91ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:42 +0000
Subject: [PATCH 47/70] fix: the noise of the channel direction had mean 1, so
 channels turned away from the flow direction

---
 hyvr/geo/channel_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/channel_utils.py b/hyvr/geo/channel_utils.py
index 3aaadba..25132ef 100644
--- a/hyvr/geo/channel_utils.py
+++ b/hyvr/geo/channel_utils.py
@@ -130,7 +130,7 @@ def ferguson_theta(s, eps_factor, k, h):
         else:
             t1 = th_store[idex-1]
             t2 = th_store[idex-2]
-            eps = np.random.normal(1)*eps_factor
+            eps = np.random.normal()*eps_factor
 
         th_store[idex] = thetaAR2(t1, t2, k, h, eps)
 
-- 
2.43.0


From 8f127bbdd4685bb90fb5419e4dbf4f0a84235711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:03 +0000
Subject: [PATCH 48/70] fix: random fields had zero mean along every line in
 x-direction, and no variation at all on a single x-layer

---
 hyvr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/utils.py b/hyvr/utils.py
index c192bf7..d093707 100644
--- a/hyvr/utils.py
+++ b/hyvr/utils.py
@@ -512,7 +512,7 @@ def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussia
     # Power spectrum of variable
     syy = np.fft.fftn(np.fft.fftshift(ryy)) / ntot
     syy = np.abs(syy)       # Remove imaginary artifacts
-    syy[0] = 0
+    syy.flat[0] = 0
 
     real = np.random.randn(*syy.shape)
     imag = np.random.randn(*syy.shape)
-- 
2.43.0


From 311918363d75896efede09d81a650d77aa24ed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:51 +0000
Subject: [PATCH 49/70] fix: azimuth and dip of bulb troughs belonged to an
 ellipsoid rotated in the wrong direction

---
 hyvr/geo/trough_ae.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 98549e4..b89219e 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -209,8 +209,8 @@ class TroughAE(AERealization):
             #
             # The gradient is (up to a scalar)
             #
-            #             /  nx*cos/a + ny*sin/b  \
-            # grad f(x) = | -nx*sin/a + ny*cos/b  |
+            #             /  nx*cos/a - ny*sin/b  \
+            # grad f(x) = |  nx*sin/a + ny*cos/b  |
             #             \          nz/c         /
             #
             # where nx, ny, nz are the normalized distances.
@@ -229,8 +229,8 @@ class TroughAE(AERealization):
             len_normvec = sqrt(aaa**2 + bbb**2 + ccc**2)
             if len_normvec != 0:
                 normvec_x = (aaa*self.object_cosalpha[oi]
-                             + bbb*self.object_sinalpha[oi])/len_normvec
-                normvec_y = (-aaa*self.object_sinalpha[oi]
+                             - bbb*self.object_sinalpha[oi])/len_normvec
+                normvec_y = (aaa*self.object_sinalpha[oi]
                              + bbb*self.object_cosalpha[oi])/len_normvec
                 normvec_z = ccc/len_normvec
                 len_normvec_xy = sqrt(normvec_x**2 + normvec_y**2)
-- 
2.43.0


From ceae08f7e7873d4d8f9e1c97f869c5f659bd89c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:33 +0000
Subject: [PATCH 50/70] fix: expanding a value over a free length of an
 irregular shape dropped the value

---
 hyvr/input/option_parsing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index eac3980..97438e3 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -427,6 +427,8 @@ def expand_to_shape(shape, value):
 
 def _expand_to_shape(shape, value):
     if isinstance(shape, int):
+        if shape < 0:
+            raise ValueError('A value can not be expanded to a list of unknown length!')
         value = [value] * shape
         return value
     else:
-- 
2.43.0


From c207f6824bd273940d06ff2966bbb3a9ce266cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:49 +0000
Subject: [PATCH 51/70] fix: a parameter file without extension got an empty
 runname, its own directory was the run directory

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index bb806c0..c778ab3 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -127,7 +127,7 @@ def parameters(inifile):
         if ini_name.endswith("_autogenerated_backup.ini"):
             run['runname'] = ini_name[0:-25]
         else:
-            run['runname'] = ".".join(ini_name.split('.')[0:-1])
+            run['runname'] = pathlib.Path(ini_name).stem
 
 
     # separate task: find modeldir
-- 
2.43.0


From cbc44bf6da466c17e48b37cd28f69a70de382a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:49 +0000
Subject: [PATCH 52/70] fix: overwriting a run directory failed on links to
 directories and left dangling links

---
 hyvr/input/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index c778ab3..ca68496 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -511,10 +511,10 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
             for f in os.listdir(run['rundir']):
                 path = os.path.join(run['rundir'], f)
                 path = run['rundir'] / f
-                if path.is_file():
-                    path.unlink()
-                elif path.is_dir():
+                if path.is_dir() and not path.is_symlink():
                     shutil.rmtree(path)
+                else:
+                    path.unlink()
         else:
             raise FileExistsError(
                 "Run directory already exists and overwrite flag is "
-- 
2.43.0


From 64b8d087084bfca06bc8c5f7a0e5864932d81d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:19 +0000
Subject: [PATCH 53/70] fix: assigning the points of a model again lost channel
 cells above cells that were examined before

---
 hyvr/geo/channel_ae.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 89b4a55..572bc23 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -312,7 +312,9 @@ class ChannelAE(AERealization):
                 return
 
         else:
-            # it's not inside. This means lower points will also not be inside
-            self.object_dont_check[oi,x_idx, y_idx] = 1
+            # it's not inside. If it would not be inside at the channel top
+            # either, no point of this column is inside
+            if self.object_a[oi]*xy_dist**2 > self.object_depth[oi]:
+                self.object_dont_check[oi,x_idx, y_idx] = 1
             geo_ids[0] = -1
             return
\ No newline at end of file
-- 
2.43.0


From f9e1d78e6ba226467b12baaa8c7c742261d601ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:48 +0000
Subject: [PATCH 54/70] fix: mean, minimum and maximum of a contact surface
 were out of date after limiting it to another surface

---
 hyvr/geo/contact_surface.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hyvr/geo/contact_surface.py b/hyvr/geo/contact_surface.py
index 4879db9..0fa71fb 100644
--- a/hyvr/geo/contact_surface.py
+++ b/hyvr/geo/contact_surface.py
@@ -43,8 +43,7 @@ class ContactSurface:
             for j in range(self.ny):
                 if self.surface[i,j] > other_surf[i,j]:
                     self.surface[i,j] = other_surf[i,j]
-        # using the higher of both values might have changed the minimum 
-        self.zmin = np.min(self.surface)
+        self._update_statistics()
 
 
 
@@ -54,5 +53,11 @@ class ContactSurface:
             for j in range(self.ny):
                 if self.surface[i,j] < other_surf[i,j]:
                     self.surface[i,j] = other_surf[i,j]
-        # using the higher of both values might have changed the maximum 
-        self.zmax = np.max(self.surface)
\ No newline at end of file
+        self._update_statistics()
+
+
+    def _update_statistics(self):
+        # using the values of another surface might have changed all of these
+        self.zmean = np.mean(self.surface)
+        self.zmin = np.min(self.surface)
+        self.zmax = np.max(self.surface)
-- 
2.43.0


From c1210ec9269b1803cde140ecacdd857cb5b14427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:25 +0000
Subject: [PATCH 55/70] fix: bulb troughs crashed with a division by zero on
 cells whose normal vector has no x-component

---
 hyvr/geo/trough_ae.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index b89219e..990dd30 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -5,7 +5,7 @@ from hyvr.geo.trough import Trough
 
 cimport cython
 cimport numpy as np
-from libc.math cimport sqrt, ceil, floor, acos, pi, fabs, atan
+from libc.math cimport sqrt, ceil, floor, acos, pi, fabs, atan2
 from hyvr.geo.ae_realization import AERealization
 import hyvr.optimized as ho
 
@@ -261,7 +261,7 @@ class TroughAE(AERealization):
                     # x component is negative. This means the x component is
                     # always positive, and the y component is multiplied by the
                     # sign of the x component
-                    azim = -atan(ho.sign(normvec_x)*normvec_y/fabs(normvec_x))\
+                    azim = -atan2(ho.sign(normvec_x)*normvec_y, fabs(normvec_x))\
                            / pi*180
             else:
                 # the point is exactly at the center of the trough, this means
-- 
2.43.0


From 8d49b0fd5abbb3a0f9cd494fbb820347256f5621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:26 +0000
Subject: [PATCH 56/70] fix: the dip of bulb troughs had the wrong sign below
 the trough's centre, bedding was not tangential to the ellipsoid

---
 hyvr/geo/trough_ae.pyx | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 990dd30..7403a42 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -240,17 +240,12 @@ class TroughAE(AERealization):
                     azim = 0.
                 else:
                     # The dip angle can be found as acos of the normalized
-                    # scalar product of unit z-vector and normal vector
-                    # It should be negative, if the gradient points in positive
-                    # x direction and in positive z direction, or if it points
-                    # in negative x and z direction.
-                    # direction.
-                    if normvec_z == 0:
-                        # in this case only the sign of x is relevant
-                        dip = -acos(fabs(normvec_z))*ho.sign(normvec_x)/pi*180
-                    else:
-                        dip = -acos(fabs(normvec_z))\
-                              * ho.sign(normvec_x*normvec_z)/ pi*180
+                    # scalar product of unit z-vector and normal vector.
+                    # The normal vector never points upwards. The bedding plane
+                    # (see set_anisotropic_ktensor) is normal to it, if the dip
+                    # is negative where the gradient points in positive x
+                    # direction, and positive otherwise.
+                    dip = -acos(fabs(normvec_z))*ho.sign(normvec_x)/pi*180
 
                     # The azimuth angle should also be between -90 and 90. It is
                     # the angle between the projection of the normal vector into
-- 
2.43.0


From 4d1d8f5c4c4752908eb1121af3764f76916dfca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:29 +0000
Subject: [PATCH 57/70] fix: troughs that migrated by more than the domain size
 got lost in periodic domains

---
 hyvr/geo/trough_ae.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 7403a42..acdc301 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -142,13 +142,13 @@ class TroughAE(AERealization):
         dy = y - object_y
         dz = z - object_z
         if grid.periodic:
-            if dx > grid.lx/2:
+            while dx > grid.lx/2:
                 dx -= grid.lx
-            elif dx < -grid.lx/2:
+            while dx < -grid.lx/2:
                 dx += grid.lx
-            if dy > grid.ly/2:
+            while dy > grid.ly/2:
                 dy -= grid.ly
-            elif dy < -grid.ly/2:
+            while dy < -grid.ly/2:
                 dy += grid.ly
         # it seems to me that this is a bit faster than abs, and speed here is critical
         cdef np.float_t max_ab = self.object_max_ab[oi]
-- 
2.43.0


From b1b02c729ef2dcdeb650b48c226ccffe1e55993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:43 +0000
Subject: [PATCH 58/70] fix: random fields lost variance on even numbers of
 cells, the covariance was not sampled at distance zero

---
 hyvr/utils.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/hyvr/utils.py b/hyvr/utils.py
index d093707..36135d7 100644
--- a/hyvr/utils.py
+++ b/hyvr/utils.py
@@ -441,6 +441,10 @@ def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussia
     # THINK: If this is called multiple times in a row with the same parameters (i.e. same var,
     # corl, covmod), then it is not necessary to recalculate syy, and we even get two fields out.
     # Is there a way to use this?
+    def distance_to_middle(coord):
+        # relative to the middle cell, since the covariance has to be sampled at distance zero
+        return coord - coord[tuple(n // 2 for n in coord.shape)]
+
     mask_given = selection_mask is not None
     if mask_given:
         # This method only works for rectangular grids, this means we have to find the smallest
@@ -455,8 +459,8 @@ def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussia
             rectangular_mask[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1] = True
             selected_X = grid.X[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1,0]
             selected_Y = grid.Y[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1,0]
-            selected_X_centered = selected_X - (np.min(selected_X) + np.max(selected_X))/2
-            selected_Y_centered = selected_Y - (np.min(selected_Y) + np.max(selected_Y))/2
+            selected_X_centered = distance_to_middle(selected_X)
+            selected_Y_centered = distance_to_middle(selected_Y)
             selection_mask_small = selection_mask[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1]
 
             h_square = (selected_X_centered/corl[0])**2 \
@@ -478,9 +482,9 @@ def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussia
             selected_X = grid.X[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1,min_z_idx:max_z_idx+1]
             selected_Y = grid.Y[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1,min_z_idx:max_z_idx+1]
             selected_Z = grid.Z[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1,min_z_idx:max_z_idx+1]
-            selected_X_centered = selected_X - (np.min(selected_X) + np.max(selected_X))/2
-            selected_Y_centered = selected_Y - (np.min(selected_Y) + np.max(selected_Y))/2
-            selected_Z_centered = selected_Z - (np.min(selected_Z) + np.max(selected_Z))/2
+            selected_X_centered = distance_to_middle(selected_X)
+            selected_Y_centered = distance_to_middle(selected_Y)
+            selected_Z_centered = distance_to_middle(selected_Z)
             selection_mask_small = selection_mask[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1,min_z_idx:max_z_idx+1]
 
             h_square = (selected_X_centered/corl[0])**2 \
@@ -490,12 +494,12 @@ def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussia
     else:
         # full grid
         if two_dim:
-            h_square = (np.asarray(grid.X_centered[:,:,0])/corl[0])**2 \
-                    + (np.asarray(grid.Y_centered[:,:,0])/corl[1])**2
+            h_square = (distance_to_middle(np.asarray(grid.X[:,:,0]))/corl[0])**2 \
+                    + (distance_to_middle(np.asarray(grid.Y[:,:,0]))/corl[1])**2
         else:
-            h_square = (np.asarray(grid.X_centered)/corl[0])**2 \
-                     + (np.asarray(grid.Y_centered)/corl[1])**2 \
-                     + (np.asarray(grid.Z_centered)/corl[2])**2
+            h_square = (distance_to_middle(np.asarray(grid.X))/corl[0])**2 \
+                     + (distance_to_middle(np.asarray(grid.Y))/corl[1])**2 \
+                     + (distance_to_middle(np.asarray(grid.Z))/corl[2])**2
 
     ntot = h_square.size
 
-- 
2.43.0


From 317991763ef2e0454a09b68d0e4e40a41038d576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:07 +0000
Subject: [PATCH 59/70] fix: old-format channels got no migration setting
 instead of the new format's default

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index ca68496..b23501b 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -362,7 +362,7 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         elif elem['geometry'] == 'ext_par':
             elem['geometry'] = 'channel'
             elem['channel_no'] = int(elem['channel_no'])
-            elem['mig'] = None
+            elem['mig'] = 0.
             elem['flow_angle'] = 0.
         elem['contact_model'] = parse_old_elem_contact_model(elem)
         if elem['geometry'] in ['trough', 'channel']:
-- 
2.43.0


From c1e6809145800b47b5df72915e95df2a4abb7de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:09 +0000
Subject: [PATCH 60/70] fix: an element without section in ae_in_strata was
 only noticed after the old results had been removed

---
 hyvr/input/parameters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index b23501b..feccbab 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -111,6 +111,12 @@ def parameters(inifile):
     else:
         run, model, strata, hydraulics, flowtrans, elements = parse_inifile(p)
 
+    # all architectural elements of the strata must be described in the file
+    for ae_names in strata['ae_in_strata']:
+        for ae_name in ae_names:
+            if ae_name not in elements:
+                raise MissingSectionError(ae_name)
+
     # Runname and Modeldir
     # ====================
     # The following code sets
-- 
2.43.0


From 68f512f191bed908fb4c434ee771d93ccbcfa54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:09 +0000
Subject: [PATCH 61/70] fix: the backup of the parameter file was written in
 the default encoding, but is read as utf-8

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index feccbab..c7d44e7 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -531,5 +531,5 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
         run['rundir'].mkdir(parents=True, exist_ok=True)
 
     backup_file = run['rundir'] / (run['runname'] + '_autogenerated_backup.ini')
-    with open(backup_file, 'w') as f:
+    with open(backup_file, 'w', encoding='utf-8') as f:
         p.write(f)
-- 
2.43.0


From ffff50987b0e72410f08c68ffa2e48edd5bc79b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:09 +0000
Subject: [PATCH 62/70] fix: cross sections show the cell row at the requested
 position

---
 hyvr/postprocess/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/plotting.py b/hyvr/postprocess/plotting.py
index 7e677c2..55e2609 100644
--- a/hyvr/postprocess/plotting.py
+++ b/hyvr/postprocess/plotting.py
@@ -46,7 +46,7 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
 
     for yi in y:
         fig, ax = plt.subplots()
-        y_index = int(np.round((yi-(model.grid.y0+model.grid.dy/2)/model.grid.dy)))
+        y_index = int(np.round((yi-(model.grid.y0+model.grid.dy/2))/model.grid.dy))
         if 0 <= y_index and y_index < model.grid.ny:
             im = ax.pcolor(model.grid.X[:,y_index,:].T, model.grid.Z[:,y_index,:].T,
                     model.data[field][:,y_index,:].T, cmap=cmap)
@@ -63,7 +63,7 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
 
     for xi in x:
         fig, ax = plt.subplots()
-        x_index = int(np.round((xi-(model.grid.x0+model.grid.dx/2)/model.grid.dx)))
+        x_index = int(np.round((xi-(model.grid.x0+model.grid.dx/2))/model.grid.dx))
         if 0 <= x_index and x_index < model.grid.nx:
             im = ax.pcolor(model.grid.Y[x_index,:,:].T, model.grid.Z[x_index,:,:].T,
                     model.data[field][x_index,:,:].T, cmap=cmap)
-- 
2.43.0


From d8183b3292590e96cf38a20dcedad1fc6a411320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:09 +0000
Subject: [PATCH 63/70] fix: show cross sections with current matplotlib

---
 hyvr/postprocess/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/plotting.py b/hyvr/postprocess/plotting.py
index 55e2609..ba1c552 100644
--- a/hyvr/postprocess/plotting.py
+++ b/hyvr/postprocess/plotting.py
@@ -57,7 +57,7 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
             if ylim_y is not None: ax.set_ylim(ylim_y)
             ax.set_aspect('equal')
             fig.colorbar(im, ax=ax)
-            plt.show(fig)
+            plt.show()
         else:
             print("Warning: y = {:.2f} not in model domain".format(yi), file=sys.stderr)
 
@@ -74,7 +74,7 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
             if ylim_x is not None: ax.set_ylim(ylim_x)
             ax.set_aspect('equal')
             fig.colorbar(im, ax=ax)
-            plt.show(fig)
+            plt.show()
         else:
             print("Warning: x = {:.2f} not in model domain".format(xi), file=sys.stderr)
 
-- 
2.43.0


From 3f89ae2922295161cdeebf8f1f991c8d5d2fe699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:09 +0000
Subject: [PATCH 64/70] fix: cross sections show the logarithm of the field if
 asked for

---
 hyvr/postprocess/plotting.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/plotting.py b/hyvr/postprocess/plotting.py
index ba1c552..ade564a 100644
--- a/hyvr/postprocess/plotting.py
+++ b/hyvr/postprocess/plotting.py
@@ -44,12 +44,16 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
     if np.isscalar(x):
         x = [x]
 
+    data = model.data[field]
+    if log:
+        data = np.log10(data)
+
     for yi in y:
         fig, ax = plt.subplots()
         y_index = int(np.round((yi-(model.grid.y0+model.grid.dy/2))/model.grid.dy))
         if 0 <= y_index and y_index < model.grid.ny:
             im = ax.pcolor(model.grid.X[:,y_index,:].T, model.grid.Z[:,y_index,:].T,
-                    model.data[field][:,y_index,:].T, cmap=cmap)
+                    data[:,y_index,:].T, cmap=cmap)
             ax.set_title(field + ', y = {:.2f}'.format(yi))
             ax.set_xlabel('x')
             ax.set_ylabel('z')
@@ -66,7 +70,7 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
         x_index = int(np.round((xi-(model.grid.x0+model.grid.dx/2))/model.grid.dx))
         if 0 <= x_index and x_index < model.grid.nx:
             im = ax.pcolor(model.grid.Y[x_index,:,:].T, model.grid.Z[x_index,:,:].T,
-                    model.data[field][x_index,:,:].T, cmap=cmap)
+                    data[x_index,:,:].T, cmap=cmap)
             ax.set_title(field + ', x = {:.2f}'.format(xi))
             ax.set_xlabel('y')
             ax.set_ylabel('z')
-- 
2.43.0


From 65ef58c56192d3001d7a486291ff2715f637c959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:09 +0000
Subject: [PATCH 65/70] fix: no empty figure for a cross section outside of the
 domain

---
 hyvr/postprocess/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/plotting.py b/hyvr/postprocess/plotting.py
index ade564a..df95df3 100644
--- a/hyvr/postprocess/plotting.py
+++ b/hyvr/postprocess/plotting.py
@@ -49,9 +49,9 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
         data = np.log10(data)
 
     for yi in y:
-        fig, ax = plt.subplots()
         y_index = int(np.round((yi-(model.grid.y0+model.grid.dy/2))/model.grid.dy))
         if 0 <= y_index and y_index < model.grid.ny:
+            fig, ax = plt.subplots()
             im = ax.pcolor(model.grid.X[:,y_index,:].T, model.grid.Z[:,y_index,:].T,
                     data[:,y_index,:].T, cmap=cmap)
             ax.set_title(field + ', y = {:.2f}'.format(yi))
@@ -66,9 +66,9 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
             print("Warning: y = {:.2f} not in model domain".format(yi), file=sys.stderr)
 
     for xi in x:
-        fig, ax = plt.subplots()
         x_index = int(np.round((xi-(model.grid.x0+model.grid.dx/2))/model.grid.dx))
         if 0 <= x_index and x_index < model.grid.nx:
+            fig, ax = plt.subplots()
             im = ax.pcolor(model.grid.Y[x_index,:,:].T, model.grid.Z[x_index,:,:].T,
                     data[x_index,:,:].T, cmap=cmap)
             ax.set_title(field + ', x = {:.2f}'.format(xi))
-- 
2.43.0


From 0af3fe266e5c4e2a4357fcdd6bf5d64ecb1a3b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:01 +0000
Subject: [PATCH 66/70] fix: describe the shape of avul_prob that is read

---
 docs/inout.rst | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/docs/inout.rst b/docs/inout.rst
index da9f9ff..24dcb2a 100644
--- a/docs/inout.rst
+++ b/docs/inout.rst
@@ -183,8 +183,9 @@ top-level object of a HyVR model.
   same shape as ``ae_in_strata``.
 - ``ae_z_mean``: *(required)* Mean thickness of architectural element unit. This
   must be a list of lists of floats with the same shape as ``ssm_ae``.
-- ``avul_prob``: *(required)* Probability of avulsion. List of floats with the
-  same length as ``strata``.
+- ``avul_prob``: *(required)* Probability of avulsion. List of lists of floats.
+  The outer list must have the same length as ``strata``, the inner lists must
+  be of length 1.
 - ``avul``: *(required)* Avulsion depth range. List of lists of floats. The
   outer list must have the same length as ``strata``, the inner lists must be of
   length 2 and are the start and end point of the depth range.
-- 
2.43.0


From 8aaa169301eae25c17a8bc4d8c6732d7ad318af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:36 +0000
Subject: [PATCH 67/70] fix: anisotropy parameters were generated although
 anisotropy is switched off

---
 hyvr/geo/model.py          | 10 +++++-----
 hyvr/postprocess/output.py | 23 +++++++++++++++--------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index ff9ccc8..c8503a7 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -181,12 +181,10 @@ class Model:
         self.data['poros' ]= np.zeros((self.grid.nx, self.grid.ny, self.grid.nz),
                                       dtype=np.float64)
         # anisotropy ratio
-        self.data['anirat' ]= np.ones((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float64)
+        anirat = np.ones((self.grid.nx, self.grid.ny, self.grid.nz), dtype=np.float64)
 
         k_iso = self.data['k_iso']
         poros = self.data['poros']
-        anirat = self.data['anirat']
 
         if het:
             # Heterogeneous case
@@ -294,8 +292,10 @@ class Model:
                 anirat[fac == hyi] = hydraulics['k_ratio'][hy_idx]
 
         # Assignment of anisotropy
-        self.data['ktensors'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz, 3, 3), dtype=np.float64)
-        ho.set_anisotropic_ktensor(self.data['ktensors'], k_iso, azim*np.pi/180, dip*np.pi/180, anirat)
+        if self.generate_anisotropy:
+            self.data['anirat'] = anirat
+            self.data['ktensors'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz, 3, 3), dtype=np.float64)
+            ho.set_anisotropic_ktensor(self.data['ktensors'], k_iso, azim*np.pi/180, dip*np.pi/180, anirat)
 
 
 
diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 77e9103..0e6cc41 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -222,7 +222,8 @@ def to_modflow(model, fname):
     else:
         # Add LPF package to the MODFLOW model
         lpf = flopy.modflow.ModflowLpf(mf,                        # Modflow object
-                                       hk=hyvr_hk)              # Horizontal hydraulic conductivity
+                                       hk=hyvr_hk,              # Horizontal hydraulic conductivity
+                                       layvka=hyvr_layvka)      # (the default anisotropy ratio is 1)
 
     oc = flopy.modflow.ModflowOc(mf)        # Add OC package to the MODFLOW model
     pcg = flopy.modflow.ModflowPcg(mf)      # Add PCG package to the MODFLOW model
@@ -431,14 +432,20 @@ def to_hgs(model, fname):
     hgsdir = realization_dir / 'HGS'
     hgsdir.mkdir(parents=True, exist_ok=True)
 
-    uid = np.arange(1, len(model.data['ktensors'][:, :, :, 1, 2].flatten()) + 1)    # Create list of IDs
+    if 'ktensors' in model.data:
+        ktensors = model.data['ktensors']
+    else:
+        # no anisotropy: the conductivity is the same in all directions
+        ktensors = model.data['k_iso'][:, :, :, np.newaxis, np.newaxis]*np.eye(3)
+
+    uid = np.arange(1, len(ktensors[:, :, :, 1, 2].flatten()) + 1)    # Create list of IDs
     vals_to_write = {'ktensors': np.column_stack((uid,
-                                      model.data['ktensors'][:, :, :, 0, 0].flatten(),            # K_xx
-                                      model.data['ktensors'][:, :, :, 1, 1].flatten(),            # K_yy
-                                      model.data['ktensors'][:, :, :, 2, 2].flatten(),            # K_zz
-                                      model.data['ktensors'][:, :, :, 0, 1].flatten(),            # K_xy
-                                      model.data['ktensors'][:, :, :, 0, 2].flatten(),            # K_xz
-                                      model.data['ktensors'][:, :, :, 1, 2].flatten())),          # K_yz
+                                      ktensors[:, :, :, 0, 0].flatten(),            # K_xx
+                                      ktensors[:, :, :, 1, 1].flatten(),            # K_yy
+                                      ktensors[:, :, :, 2, 2].flatten(),            # K_zz
+                                      ktensors[:, :, :, 0, 1].flatten(),            # K_xy
+                                      ktensors[:, :, :, 0, 2].flatten(),            # K_xz
+                                      ktensors[:, :, :, 1, 2].flatten())),          # K_yz
                      'porosity': np.column_stack((uid,
                                       model.data['poros'].flatten()))}
     val_fmts = {'ktensors': '%u %1.3e %1.3e %1.3e %1.3e %1.3e %1.3e',
-- 
2.43.0


From 1a0cee83466bdbe3cb387e28e2e830dc942358a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:25 +0000
Subject: [PATCH 68/70] fix: the azimuth of massive channels was always 0, the
 option azimuth was ignored

---
 hyvr/geo/channel.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyvr/geo/channel.pyx b/hyvr/geo/channel.pyx
index 0ab7b4d..131ce74 100644
--- a/hyvr/geo/channel.pyx
+++ b/hyvr/geo/channel.pyx
@@ -106,5 +106,6 @@ cdef class Channel:
             self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
         else:
             # massive internal structure
+            self.azim = np.random.uniform(*type_params['azimuth'])
             self.dip = np.random.uniform(*type_params['dip'])
             self.facies = np.random.choice(type_params['facies'])
-- 
2.43.0


From 6a03ffe9b018f967042f6d1f6dd41a45239ec873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:12 +0000
Subject: [PATCH 69/70] fix: channels that do not pass the domain ended the run
 with an OverflowError

---
 hyvr/geo/channel_ae.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 572bc23..53d6071 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -220,6 +220,10 @@ class ChannelAE(AERealization):
             geo_ids[0] = -1
             return
 
+        # a channel that does not pass the domain has no centerline points
+        if self.object_len_centerline[oi] == 0:
+            geo_ids[0] = -1
+            return
 
         # Otherwise, get the distance to the centerline in xy-plane and z-direction
         # If we have dipsets, we will also directly calculate the velocity
-- 
2.43.0


From 7ea32c91f6cadb08c3de30d8d8ea2e146ba081b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:46 +0000
Subject: [PATCH 70/70] fix: old-format channels had no azimuth, which massive
 channels need

---
 hyvr/input/parameters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index c7d44e7..a4b3f0e 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -369,6 +369,7 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
             elem['geometry'] = 'channel'
             elem['channel_no'] = int(elem['channel_no'])
             elem['mig'] = 0.
+            elem['azimuth'] = [0., 0.]
             elem['flow_angle'] = 0.
         elem['contact_model'] = parse_old_elem_contact_model(elem)
         if elem['geometry'] in ['trough', 'channel']:
-- 
2.43.0

