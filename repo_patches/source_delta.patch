From 72e82fcb60378b06de8d55e8ed8b9fce19912612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 01/37] fix: mask copies of the stored data instead of the
 stored data itself

---
 GridProperty.py |  2 ++
 Shallot.py      | 14 ++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/GridProperty.py b/GridProperty.py
index c07972e..cb25c5e 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -163,6 +163,8 @@ class GridProperty:
         data = self.data
 
         if masked and self.mask is not None:
+            # mask a copy, the stored data must keep its values
+            data = np.copy(data)
             data[self.mask] = np.nan
         
         return data
diff --git a/Shallot.py b/Shallot.py
index d1a05a9..320fba8 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1031,6 +1031,8 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         if masked:
             combined_mask = self.get_combined_mask()
+            # mask a copy, the stored data must keep its values
+            disk_radius = np.copy(disk_radius)
             disk_radius[combined_mask] = np.nan
         
         return disk_radius
@@ -1063,6 +1065,8 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         if masked:
             combined_mask = self.get_combined_mask()
+            # mask a copy, the stored data must keep its values
+            inclination = np.copy(inclination)
             inclination[combined_mask] = np.nan
         
         return inclination
@@ -1094,6 +1098,8 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         if masked:
             combined_mask = self.get_combined_mask()
+            # mask a copy, the stored data must keep its values
+            tilt = np.copy(tilt)
             tilt[combined_mask] = np.nan
 
         return tilt
@@ -1126,6 +1132,8 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         if masked:
             combined_mask = self.get_combined_mask()
+            # mask a copy, the stored data must keep its values
+            fx_map = np.copy(fx_map)
             fx_map[combined_mask] = np.nan
 
         return fx_map
@@ -1158,6 +1166,8 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         if masked:
             combined_mask = self.get_combined_mask()
+            # mask a copy, the stored data must keep its values
+            fy_map = np.copy(fy_map)
             fy_map[combined_mask] = np.nan
 
         return fy_map
@@ -1216,6 +1226,8 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         if masked:
             combined_mask = self.get_combined_mask()
+            # mask a copy, the stored data must keep its values
+            diagnostic_map = np.copy(diagnostic_map)
             diagnostic_map[combined_mask] = np.nan
 
         return diagnostic_map
@@ -1796,6 +1808,8 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         if masked:
             combined_mask = self.get_combined_mask()
+            # mask a copy, the stored data must keep its values
+            gradient_fit = np.copy(gradient_fit)
             gradient_fit[combined_mask] = np.nan
 
         return gradient_fit
-- 
2.43.0


From 45ed78cf8a27bceb2a44ad5eb3895bae9b1a517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 02/37] fix: build a grid on a copy of the caller's grid
 parameters

---
 Shallot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Shallot.py b/Shallot.py
index 320fba8..13504a6 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from enum import Enum
 
 # generic modules
+import copy
 import os
 import shutil
 import logging
@@ -96,6 +97,8 @@ class ShallotGrid:
         # set user values
         parameters = validate.class_object(parameters, "parameters", 
             GridParameters, "GridParameters")
+        # extending the grid must not change the parameters of the caller
+        parameters = copy.deepcopy(parameters)
         self.parameters = parameters
         self.num_fxfy = validate.number(num_fxfy, "num_fxfy",
             check_integer=True, lower_bound=1)
-- 
2.43.0


From 9abc7b4fcf59b8d1dd8229277ea0929bfc7d2722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 03/37] fix: refuse NaN in bounded number and array validation

---
 validate.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/validate.py b/validate.py
index 782e3fb..ef7c743 100644
--- a/validate.py
+++ b/validate.py
@@ -170,6 +170,11 @@ def _number_bounds(
         addition = f"less {message_addition} {upper_bound:.4f}"
         message = message + addition
 
+    # NaN compares false with every bound, so it must be refused explicitly
+    if number != number:
+        raise_error = True
+        message = message + "a number and not NaN"
+
     if raise_error:
         raise ValueError(message)
 
@@ -310,6 +315,11 @@ def _array_bounds(
         addition = f"less {message_addition} {upper_bound:.4f} and "
         message = message + addition
 
+    # NaN compares false with every bound, so it must be refused explicitly
+    if np.any(array != array):
+        raise_error = True
+        message = message + "that are numbers and not NaN and "
+
     if raise_error:
         raise ValueError(message[:-5])
     
-- 
2.43.0


From 68e939356ba8f16b78aa26c0dae963e28055ea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 04/37] fix: set contrast parameters only after all of them are
 validated

---
 GridProperty.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index cb25c5e..2b64c4f 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -198,26 +198,32 @@ class GridProperty:
         all_nans = np.sum(np.isnan(self.data)) == np.prod(self.data.shape)
         
         if all_nans:
-            self.vmin = None
-            self.vmax = None
+            vmin = None
+            vmax = None
         else:
             if vmin is None:
                 vmin = np.nanmin(self.data)
-            self.vmin = validate.number(vmin, "vmin")       
+            vmin = validate.number(vmin, "vmin")
         
             if vmax is None:
                 vmax = np.nanmax(self.data)
-            self.vmax = validate.number(vmax, "vmax")
+            vmax = validate.number(vmax, "vmax")
         
         if color_map is None:
             color_map = "viridis"
-        self.color_map = validate.string(color_map, "color_map")
+        color_map = validate.string(color_map, "color_map")
         
         if num_colors is None:
             num_colors = 11
-        self.num_colors = validate.number(num_colors, "num_colors", 
+        num_colors = validate.number(num_colors, "num_colors", 
             check_integer=True, lower_bound=2)
 
+        # everything is valid, so set
+        self.vmin = vmin
+        self.vmax = vmax
+        self.color_map = color_map
+        self.num_colors = num_colors
+
  
     def plot_cube(self, 
             axis: int = 2, 
-- 
2.43.0


From 2b0888fc3ab5c391b3319bee9abf97e2121e7bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 05/37] fix: determine a gradient mask before storing any of
 its parameters

---
 GridProperty.py | 50 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index 2b64c4f..b82d2d1 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -466,10 +466,37 @@ class GridGradient(GridProperty):
         if self.measured_gradient is None:
             return
 
-        transmission_scale = 1 / self.transmission_change
-        total_scale = self.orbital_scale * transmission_scale
+        return self._scale_gradient(self.measured_gradient, 
+            self.orbital_scale, self.transmission_change)
+
+
+    def _scale_gradient(self, 
+            measured_gradient: float, 
+            orbital_scale: float, 
+            transmission_change: float
+        ) -> float:
+        """
+        This method is used to scale a measured gradient without storing it.
+
+        Parameters
+        ----------
+        measured_gradient : float
+            The measured light curve gradient.
+        orbital_scale : float
+            The orbital scale to apply.
+        transmission_change : float
+            The change in transmission to scale by.
+
+        Returns
+        -------
+        scaled_gradient : float
+            The measured gradient scaled by the orbital scale and the
+            transmission scale.
+        """
+        transmission_scale = 1 / transmission_change
+        total_scale = orbital_scale * transmission_scale
         
-        scaled_gradient = self.measured_gradient * total_scale
+        scaled_gradient = measured_gradient * total_scale
 
         if scaled_gradient > 1:
             raise ValueError("scaled gradient is greater than one, check the"
@@ -505,25 +532,32 @@ class GridGradient(GridProperty):
             This is the error on the measurement of the measured gradient 
             [default = None].
         """
-        self.measured_gradient = validate.number(measured_gradient, 
+        measured_gradient = validate.number(measured_gradient, 
             "measured_gradient", lower_bound=0)
         
-        self.orbital_scale = validate.number(orbital_scale, 
+        orbital_scale = validate.number(orbital_scale, 
             "orbital_scale", lower_bound=0)
         
         if transmission_change is None:
             transmission_change = 1
-        self.transmission_change = validate.number(transmission_change, 
+        transmission_change = validate.number(transmission_change, 
             "transmission_change", lower_bound=0, upper_bound=1)
 
         if measured_error is None:
             measured_error = 1
-        self.measured_error = validate.number(measured_error, "measured_error",
+        measured_error = validate.number(measured_error, "measured_error",
             lower_bound=0.)
 
-        scaled_gradient = self.get_scaled_gradient()
+        scaled_gradient = self._scale_gradient(measured_gradient, 
+            orbital_scale, transmission_change)
         mask = (scaled_gradient > self.data).astype(float)
         mask += np.isnan(self.data).astype(float)
+
+        # everything is valid, so set
+        self.measured_gradient = measured_gradient
+        self.orbital_scale = orbital_scale
+        self.transmission_change = transmission_change
+        self.measured_error = measured_error
         self.mask = mask.astype(bool)
 
  
-- 
2.43.0


From b885a05d12855f86ea04d650fb7a33987f781740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 06/37] fix: extend grid parameters only if both directions can
 be extended

---
 GridParameters.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/GridParameters.py b/GridParameters.py
index 19dde72..1138de8 100644
--- a/GridParameters.py
+++ b/GridParameters.py
@@ -226,8 +226,11 @@ class GridParameters:
         max_y = self.dy[-1, 0, 0]
         max_x = self.dx[0, -1, 0]
         
-        self.dx = self._determine_dx(-max_x, max_x, 2 * num_x - 1)
-        self.dy = self._determine_dy(-max_y, max_y, 2 * num_y - 1)
+        # either coordinate can be refused, so set after determining both
+        dx = self._determine_dx(-max_x, max_x, 2 * num_x - 1)
+        dy = self._determine_dy(-max_y, max_y, 2 * num_y - 1)
+        self.dx = dx
+        self.dy = dy
         self._set_grid_and_slice_shape()
         self._set_extendable()
 
-- 
2.43.0


From eb7315247991f8666675417b153a97d21c716e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 07/37] fix: restore the gradients if adding gradients fails

---
 Shallot.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 13504a6..23208ad 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1533,12 +1533,21 @@ class ShallotGrid:
 
         self.logger.info(f"adding {len(times)} gradients")
 
-        # convert gradients
-        positions = -times / self._eclipse_duration
-        self._determine_disk_gradients(positions)
+        # add to a copy of the list, so that it can be restored on failure
+        gradients = self.gradients
+        if gradients is not None:
+            self.gradients = list(gradients)
 
-        self._set_measured_gradients_and_masks(light_curve_gradients, 
-            light_curve_gradient_errors, transmission_changes)
+        try:
+            # convert gradients
+            positions = -times / self._eclipse_duration
+            self._determine_disk_gradients(positions)
+
+            self._set_measured_gradients_and_masks(light_curve_gradients, 
+                light_curve_gradient_errors, transmission_changes)
+        except Exception:
+            self.gradients = gradients
+            raise
         
         self._reset_gradient_fit()
 
-- 
2.43.0


From 3c2fb4c20abcff0ca6e1e8b74f4d8310bf069fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:07 +0000
Subject: [PATCH 08/37] fix: set eclipse parameters only after all of them are
 validated

---
 Shallot.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 23208ad..7043c61 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1596,12 +1596,17 @@ class ShallotGrid:
             This is the parameter that defines the limb darkening according to
             the linear limb darkening law [-].
         """
-        self._eclipse_duration = validate.number(eclipse_duration, 
+        eclipse_duration = validate.number(eclipse_duration, 
             "eclipse_duration", lower_bound=0.)
-        self._transverse_velocity = validate.number(transverse_velocity, 
+        transverse_velocity = validate.number(transverse_velocity, 
             "transverse_velocity", lower_bound=0.)
-        self._limb_darkening = validate.number(limb_darkening, 
+        limb_darkening = validate.number(limb_darkening, 
             "limb_darkening", lower_bound=0., upper_bound=1.)
+
+        # everything is valid, so set
+        self._eclipse_duration = eclipse_duration
+        self._transverse_velocity = transverse_velocity
+        self._limb_darkening = limb_darkening
         
         # gradients and gradient fit reset due to eclipse duration dependency
         if self.gradients is not None:
-- 
2.43.0


From 17dbe2da64034e5dd82d4d21818b262bf617e7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 09/37] fix: validate and apply a gradient scaling update as a
 whole

---
 Shallot.py | 71 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 23 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 7043c61..0364d67 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1655,6 +1655,29 @@ class ShallotGrid:
         The above two points are to prevent over compensation of the gradients
         that will remove potential viable solutions for the light curve fit.
         """
+        if self.gradients is None:
+            self.logger.info("no gradients found")
+            return
+
+        # the current values are restored if the update fails
+        gradients = self.gradients
+        previous_velocity = self._transverse_velocity
+        previous_limb_darkening = self._limb_darkening
+
+        # validate before changing anything
+        if transverse_velocity is not None:
+            transverse_velocity = validate.number(transverse_velocity,
+                "transverse_velocity", lower_bound=0.)
+        if limb_darkening is not None:
+            limb_darkening = validate.number(limb_darkening, 
+                "limb_darkening", lower_bound=0., upper_bound=1.)
+        if transmission_changes is not None:
+            transmission_changes = validate.array(transmission_changes,
+                "transmission_changes", dtype="float64", num_dimensions=1,
+                lower_bound=0., upper_bound=1.)
+            validate.same_shape_arrays([transmission_changes, 
+                np.array(gradients)], ["transmission_changes", "gradients"])
+
         # update orbital scale
         update_orbital_scale = False
         
@@ -1669,36 +1692,38 @@ class ShallotGrid:
         # update transmission change scale
         update_transmission_change = False
         if transmission_changes is not None:
-            transmission_changes = validate.array(transmission_changes, 
-                "transmission_changes", dtype="float64", num_dimensions=1, 
-                lower_bound=-1, upper_bound=1)
-
-            arrays_list = [transmission_changes, np.array(self.gradients)]
-            names_list = ["transmission_changes", "gradients"]
-            validate.same_shape_arrays(arrays_list, names_list)
-            
             update_transmission_change = True
 
         if not update_transmission_change and not update_orbital_scale:
             self.logger.info("no changes passed")
             return
         
-        for k, gradient in enumerate(self.gradients):
-            # select orbital scale
-            if update_orbital_scale:
-                orbital_scale = self._determine_orbital_scale()
-            else:
-                orbital_scale = gradient.orbital_scale
-
-            # select transmission scale
-            if update_transmission_change:
-                transmission_change = transmission_changes[k]
-            else:
-                transmission_change = gradient.transmission_change
+        # update copies of the gradients, as any of the masks can be refused
+        try:
+            self.gradients = [copy.copy(gradient) for gradient in gradients]
 
-            # update mask
-            gradient.determine_mask(gradient.measured_gradient, orbital_scale, 
-                transmission_change, gradient.measured_error)
+            for k, gradient in enumerate(self.gradients):
+                # select orbital scale
+                if update_orbital_scale:
+                    orbital_scale = self._determine_orbital_scale()
+                else:
+                    orbital_scale = gradient.orbital_scale
+
+                # select transmission scale
+                if update_transmission_change:
+                    transmission_change = transmission_changes[k]
+                else:
+                    transmission_change = gradient.transmission_change
+
+                # update mask
+                gradient.determine_mask(gradient.measured_gradient, 
+                    orbital_scale, transmission_change, 
+                    gradient.measured_error)
+        except Exception:
+            self.gradients = gradients
+            self._transverse_velocity = previous_velocity
+            self._limb_darkening = previous_limb_darkening
+            raise
         
         self._reset_gradient_fit()
         
-- 
2.43.0


From 664c2163ce187617a0163f1f405a3bb95e8c5430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 10/37] fix: remove each gradient once when its index is
 repeated

---
 Shallot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Shallot.py b/Shallot.py
index 0364d67..8e76248 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1568,6 +1568,8 @@ class ShallotGrid:
 
         indices = validate.array(indices, "indices", num_dimensions=1, 
             lower_bound=0, upper_bound=len(self.gradients) - 1, dtype="int64")
+        # a repeated index refers to a single gradient
+        indices = np.unique(indices)
         sorted_indices = np.flip(np.sort(indices))
         
         for index in sorted_indices:
-- 
2.43.0


From 5a9e376f22cbc9f4eb98be556174bb2ab5854a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 11/37] fix: keep the checkpoint of an unfinished build until
 that build completes

---
 Shallot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 8e76248..51762d6 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -955,7 +955,8 @@ class ShallotGrid:
         if start_y == 0:
             self._initialise_grid_properties()
 
-        if intermittent_saving:
+        # a resumed build continues in the existing temp folder
+        if intermittent_saving and start_y == 0:
             self._create_temp_save_dir()
 
         # extract parameters
@@ -1004,7 +1005,9 @@ class ShallotGrid:
                 self.save(TEMP_SAVE_DIR, y_value=y)
 
         self._set_grid_property_contrast_parameters()
-        self._delete_temp_save_dir()
+        # other grids leave the checkpoint of an unfinished build alone
+        if intermittent_saving:
+            self._delete_temp_save_dir()
 
  
     def get_disk_radius(self, 
-- 
2.43.0


From 120e6c74b5aa3f5b53045c85c401a32b6e12dbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:05 +0000
Subject: [PATCH 12/37] fix: refuse grid point indices one past the end of each
 axis

---
 Shallot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 51762d6..275457b 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -2142,11 +2142,11 @@ class ShallotGrid:
         # validations
         max_y, max_x, max_rf = self.parameters.grid_shape
         y_index = validate.number(y_index, "y_index", check_integer=True, 
-            lower_bound=0, upper_bound=max_y)
+            lower_bound=0, upper_bound=max_y - 1)
         x_index = validate.number(x_index, "x_index", check_integer=True,
-            lower_bound=0, upper_bound=max_x)
+            lower_bound=0, upper_bound=max_x - 1)
         rf_index = validate.number(rf_index, "rf_index", check_integer=True,
-            lower_bound=0, upper_bound=max_rf)
+            lower_bound=0, upper_bound=max_rf - 1)
 
         # disk information
         disk_radius = self.get_disk_radius(masked)[y_index, x_index, rf_index]
-- 
2.43.0


From dbe47c8e20f0fd08509868d49720b4ec9aa8f986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 13/37] fix: save and load whether grid diagnostics were
 extended

---
 GridDiagnostics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/GridDiagnostics.py b/GridDiagnostics.py
index 5f34617..6825b6e 100644
--- a/GridDiagnostics.py
+++ b/GridDiagnostics.py
@@ -191,6 +191,7 @@ class GridDiagnostics:
         np.save(f"{directory}/disk_radius_dict", self._disk_radius_dict)
 
         np.save(f"{directory}/max_yx", np.array([self._max_y, self._max_x]))
+        np.save(f"{directory}/extended", np.array([self._extended]))
 
 
     @classmethod
@@ -223,6 +224,11 @@ class GridDiagnostics:
             max_y, max_x = np.load(f"{directory}/max_yx.npy")
             grid_diagnostics._max_x = max_x
             grid_diagnostics._max_y = max_y
+
+            # older saves do not contain whether they were extended
+            if os.path.exists(f"{directory}/extended.npy"):
+                extended = np.load(f"{directory}/extended.npy")[0]
+                grid_diagnostics._extended = bool(extended)
         
         except Exception:
             raise LoadError("grid diagnostics", directory) 
-- 
2.43.0


From 4d0f31e7ca7ae446e2ca8e43685c658e8c09596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 14/37] fix: remove the mask files of an earlier save when
 there is no mask

---
 GridProperty.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/GridProperty.py b/GridProperty.py
index b82d2d1..a1690c4 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -312,6 +312,9 @@ class GridProperty:
         if self.mask is not None:
             filename_mask = f"{filename_data}_mask"
             np.save(f"{directory}/{filename_mask}", self.mask)
+        elif os.path.exists(f"{directory}/{filename_data}_mask.npy"):
+            # remove the mask of an earlier save
+            os.remove(f"{directory}/{filename_data}_mask.npy")
 
         self.grid_parameters.save(directory)
 
@@ -586,6 +589,9 @@ class GridGradient(GridProperty):
                 self.orbital_scale, self.transmission_change, 
                 self.measured_error])
             np.save(f"{gradient_directory}/mask_values", mask_values)
+        elif os.path.exists(f"{gradient_directory}/mask_values.npy"):
+            # remove the mask values of an earlier save
+            os.remove(f"{gradient_directory}/mask_values.npy")
         
         self.grid_parameters.save(directory)
 
-- 
2.43.0


From db69518fcfe80b715d26fe06a510a7ac46bfbc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:18 +0000
Subject: [PATCH 15/37] fix: validate the mask of a loaded grid property

---
 GridProperty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GridProperty.py b/GridProperty.py
index a1690c4..5074818 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -355,7 +355,7 @@ class GridProperty:
             filepath_mask = f"{directory}/{name.name}_{unit.name}_mask.npy"
             if os.path.exists(f"{filepath_mask}"):
                 mask = np.load(f"{filepath_mask}")
-                grid_property.mask = mask
+                grid_property.set_mask(mask)
             
             grid_property.set_contrast_parameters()
 
-- 
2.43.0


From 906329d08809024a7042c2fbe00b5ed0178f17c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:23 +0000
Subject: [PATCH 16/37] fix: restore the saved mask when loading a grid
 gradient

---
 GridProperty.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GridProperty.py b/GridProperty.py
index 5074818..8df40b3 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -629,6 +629,11 @@ class GridGradient(GridProperty):
                 mask_values = np.load(filepath_mask_values)
                 grid_gradient.determine_mask(*mask_values)
 
+            # the mask itself may have been set separately
+            filepath_mask = f"{directory}/{name.name}_{unit.name}_mask.npy"
+            if os.path.exists(filepath_mask):
+                grid_gradient.set_mask(np.load(filepath_mask))
+
         except Exception:
             type_string = f"{name.get_name()} [{unit.__str__()}]"
             raise LoadError(type_string, directory)
-- 
2.43.0


From 5165379360039a9dc6b5370ef7fc4f6407257dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 17/37] fix: save and load the diagnostics and gradients of a
 shallot grid

---
 Shallot.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 275457b..e1df5d4 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -208,11 +208,19 @@ class ShallotGrid:
         self.fy_map.save(directory)
 
         if self.gradients is not None:
-            for gradient in self.gradients:
-                gradient.save_gradient(directory)
+            # number the folders, positions can be (almost) the same
+            if not os.path.exists(f"{directory}/gradients"):
+                os.mkdir(f"{directory}/gradients")
+            positions = [gradient.position for gradient in self.gradients]
+            np.save(f"{directory}/gradients/positions", np.array(positions))
+
+            for k, gradient in enumerate(self.gradients):
+                if not os.path.exists(f"{directory}/gradients/{k}"):
+                    os.mkdir(f"{directory}/gradients/{k}")
+                gradient.save_gradient(f"{directory}/gradients/{k}")
 
         if self.diagnostics is not None:
-            self.diagnostics.save()
+            self.diagnostics.save(f"{directory}/diagnostics")
 
  
     def _load_grid_attributes(self, directory: str) -> None:
@@ -240,24 +248,20 @@ class ShallotGrid:
         self.fy_map = GridProperty.load(directory, 
             GridPropertyName.FY_MAP, GridPropertyUnit.NONE)
         
-        try:
-            self.diagnostics = GridDiagnostics.load(directory)
-        except LoadError:
+        if os.path.exists(f"{directory}/diagnostics"):
+            self.diagnostics = GridDiagnostics.load(f"{directory}/diagnostics")
+        else:
             self.logger.debug("no diagnostics found")
         
-        try:
+        if os.path.exists(f"{directory}/gradients"):
             self.gradients = []
-            files = os.listdir(directory)
-            
-            for f in files:
-                if os.path.splitext(f)[1] == "":
-                    gradient = GridGradient.load_gradient(f"{directory}/{f}")
-                    self.gradients.append(gradient)
+            positions = np.load(f"{directory}/gradients/positions.npy")
             
-            if len(self.gradients) == 0:
-                self.gradients = None
-        
-        except LoadError:
+            for k, position in enumerate(positions):
+                gradient = GridGradient.load(f"{directory}/gradients/{k}/"
+                    f"gradient_{position:.4f}")
+                self.gradients.append(gradient)
+        else:
             self.logger.debug("no gradients found")
 
 
-- 
2.43.0


From da924795a17111a57aede3fc925ece4dd1a9937c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:09 +0000
Subject: [PATCH 18/37] fix: save and load the eclipse parameters of a shallot
 grid

---
 Shallot.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Shallot.py b/Shallot.py
index e1df5d4..097d12a 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -200,6 +200,12 @@ class ShallotGrid:
             np.save(f"{directory}/y_value", np.array([y_value]))
 
         np.save(f"{directory}/num_fxfy", np.array([self.num_fxfy]))
+
+        if self._eclipse_duration is not None:
+            np.save(f"{directory}/eclipse_parameters", np.array([
+                self._eclipse_duration, self._transverse_velocity, 
+                self._limb_darkening]))
+
         self.parameters.save(directory)
         self.disk_radius.save(directory)
         self.inclination.save(directory)
@@ -248,6 +254,11 @@ class ShallotGrid:
         self.fy_map = GridProperty.load(directory, 
             GridPropertyName.FY_MAP, GridPropertyUnit.NONE)
         
+        if os.path.exists(f"{directory}/eclipse_parameters.npy"):
+            eclipse_parameters = np.load(
+                f"{directory}/eclipse_parameters.npy")
+            self.set_eclipse_parameters(*eclipse_parameters)
+
         if os.path.exists(f"{directory}/diagnostics"):
             self.diagnostics = GridDiagnostics.load(f"{directory}/diagnostics")
         else:
-- 
2.43.0


From fd9858e7544c0d6ae2fdc3dc5269a41922ebec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:13 +0000
Subject: [PATCH 19/37] fix: report every failure to load a shallot grid as a
 load error

---
 Shallot.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 097d12a..9515ce7 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -239,7 +239,9 @@ class ShallotGrid:
         directory : str
             File path for the saved information.
         """
-        self.num_fxfy = np.load(f"{directory}/num_fxfy.npy")[0]
+        self.num_fxfy = validate.number(
+            np.load(f"{directory}/num_fxfy.npy")[0], "num_fxfy", 
+            check_integer=True, lower_bound=1)
         self.parameters = GridParameters.load(directory)
         
         self.disk_radius = GridProperty.load(directory, 
@@ -298,15 +300,23 @@ class ShallotGrid:
         directory = validate.string(directory, "directory")
         temp_parameters = GridParameters(0, 1, 2, 0, 1, 2, 2, 2)
         grid = cls(temp_parameters, 100, logging_level=logging.CRITICAL)
+        grid._set_logger(logging_level)
+        y_value = None
 
+        try:
+            grid._load_grid_attributes(directory)
+            grid._determine_circular_radius()
+            grid._determine_shear()
+
+            if os.path.exists(f"{directory}/y_value.npy"):
+                y_value = validate.number(
+                    np.load(f"{directory}/y_value.npy")[0], "y_value", 
+                    check_integer=True, lower_bound=0, 
+                    upper_bound=len(grid.parameters.dy))
+        except Exception:
+            raise LoadError("shallot grid", directory)
 
-        grid._load_grid_attributes(directory)
-        grid._determine_circular_radius()
-        grid._determine_shear()
-        grid._set_logger(logging_level)
-        
-        if os.path.exists(f"{directory}/y_value.npy"):
-            y_value = np.load(f"{directory}/y_value.npy")[0]
+        if y_value is not None:
             grid._build_grid(intermittent_saving=True, start_y=y_value)
 
         grid._extend_grid()
-- 
2.43.0


From ed169da4cd570d43b96c5c09adb3494e24dc0b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 20/37] fix: decline to return gradients or solutions when
 there are none

---
 Shallot.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Shallot.py b/Shallot.py
index 9515ce7..7517025 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1790,6 +1790,10 @@ class ShallotGrid:
             Projected gradients of the ellipses investigated at the provided 
             positions (x, 0), where x [t_ecl].
         """
+        if self.gradients is None:
+            self.logger.info("no gradients found")
+            return
+
         num_gradients = len(self.gradients)
         positions = np.zeros(num_gradients)
         scaled_gradients = np.zeros(num_gradients)
@@ -1921,6 +1925,10 @@ class ShallotGrid:
         dy : np.ndarray (float 1-D)
             Dy for the given solution [t_ecl].
         """
+        if self.gradient_fit is None:
+            self.logger.info("no gradient fit found")
+            return
+
         max_solutions = np.sum(~self.get_combined_mask())
         
         if num_solutions is None:
-- 
2.43.0


From 3892e91bbffdbe7db7182c3a32765fe2bdea7c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 21/37] fix: print grid properties without data and gradients
 without measurement

---
 GridProperty.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index 8df40b3..dcea06a 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -108,8 +108,11 @@ class GridProperty:
 
         lines.append(parameter)
         lines.append(28 * "-")
-        min_value_string = f"{self.vmin:.4f}".rjust(13)
-        max_value_string = f"{self.vmax:.4f}".rjust(13)
+        # there are no limits if all the data is NaN
+        vmin = np.nan if self.vmin is None else self.vmin
+        vmax = np.nan if self.vmax is None else self.vmax
+        min_value_string = f"{vmin:.4f}".rjust(13)
+        max_value_string = f"{vmax:.4f}".rjust(13)
         mean_value_string = f"{np.nanmean(self.data):.4f}".rjust(13)
         median_value_string = f"{np.nanmedian(self.data):.4f}".rjust(13)
         lines.append(f"min value:    {min_value_string}")
@@ -428,7 +431,7 @@ class GridGradient(GridProperty):
         
         position = f"{self.position:.4f}".rjust(7)
         lines[1] = lines[1] + f" @ pos = {position}"
-        if self.mask is not None:
+        if self.measured_gradient is not None:
             measured_gradient = f"{self.measured_gradient:.4f}".rjust(6)
             lines.append(f"measured gradient:   {measured_gradient}")
             measured_error = f"{self.measured_error:.4f}".rjust(6)
-- 
2.43.0


From 52169c1216518c837e93394561e222b07dc4b2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:29 +0000
Subject: [PATCH 22/37] fix: name loggers without drawing from the global
 random generator

---
 RingSystem.py | 3 ++-
 Shallot.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/RingSystem.py b/RingSystem.py
index 645cb8c..f332126 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -1,5 +1,6 @@
 # generic modules
 import logging
+import uuid
 import numpy as np
 import matplotlib.pyplot as plt
 from matplotlib.patches import Circle
@@ -166,7 +167,7 @@ class RingSystem:
             check_integer=True, lower_bound=10, upper_bound=50)
 
         # define logger
-        logger = logging.getLogger(str(np.random.normal(0, 1)))
+        logger = logging.getLogger(str(uuid.uuid4()))
         logger.setLevel(logging_level)
 
         # define formatter
diff --git a/Shallot.py b/Shallot.py
index 7517025..9a33cbb 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -7,6 +7,7 @@ import copy
 import os
 import shutil
 import logging
+import uuid
 import numpy as np
 from tqdm import tqdm
 
@@ -359,7 +360,7 @@ class ShallotGrid:
             check_integer=True, lower_bound=10, upper_bound=50)
 
         # define logger
-        logger = logging.getLogger(str(np.random.normal(0, 1)))
+        logger = logging.getLogger(str(uuid.uuid4()))
         logger.setLevel(logging_level)
 
         # define formatter
-- 
2.43.0


From ef03ab3aecd7514586031d0ae241259b9ad2f87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 23/37] fix: scroll without printing

---
 GridProperty.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index dcea06a..ea15120 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -866,9 +866,6 @@ class GridPropertyViewer:
         if self.frozen:
             return
 
-        print(event.button)
-        print(self.index)
-        print(len(self.slice_values) - 1)
         if event.button == "up" and self.index < len(self.slice_values) - 1:
             self.index += 1
         elif event.button != "up" and self.index > 0:
-- 
2.43.0


From 66c6d7cbbb39a494b7a6c41078128db0df062049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 24/37] fix: centre the plot of a ring system on its own y
 shift

---
 RingSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RingSystem.py b/RingSystem.py
index f332126..dd65c51 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -698,7 +698,7 @@ class RingSystem:
         # determine and set limits
         disk_radius = self.get_outer_radii()[-1]
         xlim = (x_shift - disk_radius - 2, x_shift + disk_radius + 2)
-        ylim = (y_shift - disk_radius - 2, x_shift + disk_radius + 2)
+        ylim = (y_shift - disk_radius - 2, y_shift + disk_radius + 2)
         ax.set_xlim(xlim)
         ax.set_ylim(ylim)
         
-- 
2.43.0


From 80aaac9b1f845fd9e1e5494ed27dcaa7e2b3500d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 25/37] fix: show coordinate markers only on the slices they
 belong to

---
 GridProperty.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index ea15120..335fa46 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -703,6 +703,7 @@ class GridPropertyViewer:
                     raise ValueError("all input coordinates must be tuples "
                         "with three values")
         self.coordinates = coordinates
+        self.markers: list = []
         self.tolerance = np.abs(self.slice_values[1] - self.slice_values[0]) / 3
 
         self.slice_name = ["$y$", "$x$", "$R_f$"][axis]
@@ -894,7 +895,10 @@ class GridPropertyViewer:
         if self.coordinates is None:
             return
 
-        plotted = False
+        # remove the markers of the previous slice
+        for marker in self.markers:
+            marker.remove()
+        self.markers = []
 
         for coordinate in self.coordinates:
             distance = np.abs(self.slice_values[self.index] - 
@@ -902,8 +906,4 @@ class GridPropertyViewer:
 
             if self.tolerance > distance:
                 y, x = np.delete(coordinate, self.axis)
-                self.ax.plot(x, y, "ro")
-                plotted = True
-        
-        if not plotted:
-            self.ax.lines = []
\ No newline at end of file
+                self.markers += self.ax.plot(x, y, "ro")
-- 
2.43.0


From 417a6b22ebc7cde6002a707386dfea87f6afe689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 26/37] fix: compare impact parameters with those of the actual
 grid points

---
 Shallot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index 9a33cbb..ddcc1cc 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -2087,7 +2087,8 @@ class ShallotGrid:
         # construct position grid
         yy, xx = np.mgrid[:y_num, :x_num]
         xx = xx / x_num * (x_max - x_min) + x_min
-        yy = yy / y_num * (y_max - y_min) + y_min
+        # use the impact parameters of the grid points themselves
+        yy = dy[yy]
 
         # ensure selecting the right portion of the grid
         if impact_parameter < 0:
-- 
2.43.0


From 1850eb434f2f16907b457115698beab8b80ca089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 27/37] fix: merging rings failed for a zero tolerance and for
 an empty system

---
 RingSystem.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/RingSystem.py b/RingSystem.py
index dd65c51..108e424 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -571,16 +571,21 @@ class RingSystem:
             can vary from the outer radius of previous ring. This value is
             necessary due to e.g. floating point representations.
         """
+        num_rings = self.get_num_rings()
+        if num_rings == 0:
+            self.logger.info("no rings to merge")
+            return
+
         # set up new initial conditions and rings array
         merged_rings = np.array([]).astype(Ring)
 
         inner_radius = self.rings[0].inner_radius
-        outer_radius = self.rings[0].inner_radius
+        outer_radius = self.rings[0].outer_radius
         transmission = self.rings[0].transmission
 
         debug_before = self._print_changes("merge_rings()", before=True)
 
-        for ring_index, ring in enumerate(self.rings):
+        for ring in self.rings[1:]:
             adjacent = np.abs(ring.inner_radius - outer_radius) < tolerance
             
             if adjacent and ring.transmission == transmission:
@@ -606,7 +611,7 @@ class RingSystem:
         
         debug_after = self._print_changes("merge_rings()", before=False)
         self.logger.debug(debug_before + debug_after)
-        self.logger.info(f"merged rings from {ring_index+1} to {len(self.rings)}")
+        self.logger.info(f"merged rings from {num_rings} to {len(self.rings)}")
 
     def _get_patches(self, 
             x_shift: float = 0, 
-- 
2.43.0


From ba7494c27bef7df4cc5ef1bf563cdfe875619c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 28/37] fix: GridParameters.load accepted files that do not
 hold grid vectors

---
 GridParameters.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/GridParameters.py b/GridParameters.py
index 1138de8..682b633 100644
--- a/GridParameters.py
+++ b/GridParameters.py
@@ -272,6 +272,23 @@ class GridParameters:
         np.save(f"{directory}/rf_array", self.rf_array)
 
 
+    def _validate_vectors(self) -> None:
+        """
+        This method raises an error if the (loaded) vectors do not have the
+        form that is set up by the constructor.
+        """
+        validate.array(self.dx, "dx", lower_bound=-np.inf, dtype="float64")
+        validate.array(self.dy, "dy", lower_bound=-np.inf, dtype="float64")
+        validate.array(self.rf, "rf", lower_bound=1, dtype="float64",
+            num_dimensions=1)
+        validate.array(self.rf_array, "rf_array", lower_bound=1, 
+            dtype="float64", num_dimensions=1)
+
+        rf_array = np.concatenate((np.flip(self.rf), self.rf[1:]), 0)
+        if not np.array_equal(self.rf_array, rf_array):
+            raise ValueError("rf_array does not belong to rf")
+
+
     @classmethod
     def load(cls, directory: str) -> GridParameters:
         """
@@ -296,6 +313,7 @@ class GridParameters:
             grid_parameters.dy = np.load(f"{directory}/dy.npy")
             grid_parameters.rf = np.load(f"{directory}/rf.npy")
             grid_parameters.rf_array = np.load(f"{directory}/rf_array.npy")
+            grid_parameters._validate_vectors()
 
             grid_parameters._set_grid_and_slice_shape()
             grid_parameters._set_extendable()
-- 
2.43.0


From 185f727b4517b1f21045b72abe2ea2978e598286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 29/37] fix: GridDiagnostics.load accepted files that do not
 hold diagnostics

---
 GridDiagnostics.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/GridDiagnostics.py b/GridDiagnostics.py
index 6825b6e..805f02d 100644
--- a/GridDiagnostics.py
+++ b/GridDiagnostics.py
@@ -221,9 +221,16 @@ class GridDiagnostics:
             grid_diagnostics._disk_radius_dict = np.load(
                 f"{directory}/disk_radius_dict.npy", allow_pickle=True).item()
             
+            validate.class_object(grid_diagnostics._fy_dict, "fy_dict",
+                dict, "dict")
+            validate.class_object(grid_diagnostics._disk_radius_dict, 
+                "disk_radius_dict", dict, "dict")
+            
             max_y, max_x = np.load(f"{directory}/max_yx.npy")
-            grid_diagnostics._max_x = max_x
-            grid_diagnostics._max_y = max_y
+            grid_diagnostics._max_x = validate.number(max_x, "max_x", 
+                check_integer=True, lower_bound=1)
+            grid_diagnostics._max_y = validate.number(max_y, "max_y", 
+                check_integer=True, lower_bound=1)
 
             # older saves do not contain whether they were extended
             if os.path.exists(f"{directory}/extended.npy"):
-- 
2.43.0


From ad6435a680128ae11b154cf2592c45e14145dbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 30/37] fix: GridGradient.load filled in defaults for truncated
 mask values

---
 GridProperty.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index 335fa46..6420494 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -629,8 +629,10 @@ class GridGradient(GridProperty):
             
             filepath_mask_values = f"{directory}/mask_values.npy"
             if os.path.exists(filepath_mask_values):
-                mask_values = np.load(filepath_mask_values)
-                grid_gradient.determine_mask(*mask_values)
+                (measured_gradient, orbital_scale, transmission_change,
+                    measured_error) = np.load(filepath_mask_values)
+                grid_gradient.determine_mask(measured_gradient, 
+                    orbital_scale, transmission_change, measured_error)
 
             # the mask itself may have been set separately
             filepath_mask = f"{directory}/{name.name}_{unit.name}_mask.npy"
-- 
2.43.0


From 6f2d2aefd4e1441f91683f298b30f905d15a1980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 31/37] fix: ShallotGrid.load accepted gradients without
 eclipse parameters or of another grid

---
 Shallot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Shallot.py b/Shallot.py
index ddcc1cc..6547d1f 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -268,12 +268,16 @@ class ShallotGrid:
             self.logger.debug("no diagnostics found")
         
         if os.path.exists(f"{directory}/gradients"):
+            if self._eclipse_duration is None:
+                raise ValueError("gradients require eclipse parameters")
             self.gradients = []
             positions = np.load(f"{directory}/gradients/positions.npy")
             
             for k, position in enumerate(positions):
                 gradient = GridGradient.load(f"{directory}/gradients/{k}/"
                     f"gradient_{position:.4f}")
+                validate.same_shape_arrays([gradient.data, 
+                    self.disk_radius.data], ["gradient", "disk_radius"])
                 self.gradients.append(gradient)
         else:
             self.logger.debug("no gradients found")
-- 
2.43.0


From c05796d9296d346058eae55ce619f898cd4c4988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:36 +0000
Subject: [PATCH 32/37] fix: ShallotGrid.load accepted gradients without their
 measured gradient

---
 Shallot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Shallot.py b/Shallot.py
index 6547d1f..d0c9666 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -276,6 +276,8 @@ class ShallotGrid:
             for k, position in enumerate(positions):
                 gradient = GridGradient.load(f"{directory}/gradients/{k}/"
                     f"gradient_{position:.4f}")
+                if gradient.measured_gradient is None:
+                    raise ValueError("gradients require measured gradients")
                 validate.same_shape_arrays([gradient.data, 
                     self.disk_radius.data], ["gradient", "disk_radius"])
                 self.gradients.append(gradient)
-- 
2.43.0


From d5c92713a8dc0873269bdcbe4625983965807929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:04 +0000
Subject: [PATCH 33/37] fix: plotting a ring system without rings raised
 IndexError

---
 RingSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RingSystem.py b/RingSystem.py
index 108e424..892f0a2 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -701,7 +701,7 @@ class RingSystem:
         ax.set_ylabel("$y [R_*]$")
 
         # determine and set limits
-        disk_radius = self.get_outer_radii()[-1]
+        disk_radius = max([self.planet_radius, *self.get_outer_radii()])
         xlim = (x_shift - disk_radius - 2, x_shift + disk_radius + 2)
         ylim = (y_shift - disk_radius - 2, y_shift + disk_radius + 2)
         ax.set_xlim(xlim)
-- 
2.43.0


From 393a38432d8b5c42e3664f3b419c0a693727806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:36 +0000
Subject: [PATCH 34/37] fix: grids that extend less than one eclipse duration
 lost the wide ellipses

The scale factors are sampled from 1 up to the extent of the grid, and then
further in steps of that extent. An extent below 1 was therefore sampled
downwards: both sides of every column got the same (high) ellipses or the
wrong minimum radius, and a grid at negative coordinates could not be built.
---
 Shallot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index d0c9666..0d44449 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -778,7 +778,8 @@ class ShallotGrid:
         # extracting parameters
         circular_radius_value = self.circular_radius[y, 0, 0]
         shear_value = self.shear[y, x, 0]
-        max_value = self.parameters.dx.max()
+        # scale factors start at 1, so they have to extend to at least 1
+        max_value = max(1, np.abs(self.parameters.dx).max())
         max_rf = self.parameters.rf[-1]
         
         # loop parameters
@@ -850,7 +851,8 @@ class ShallotGrid:
         # extracting parameters
         circular_radius_value = self.circular_radius[y, 0, 0]
         shear_value = self.shear[y, x, 0]
-        max_value = self.parameters.dy.max()
+        # scale factors start at 1, so they have to extend to at least 1
+        max_value = max(1, np.abs(self.parameters.dy).max())
         max_rf = self.parameters.rf[-1]
         
         # loop parameters
-- 
2.43.0


From 55652398aba3c02d11b24232a20985ca18d9ab3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:44 +0000
Subject: [PATCH 35/37] fix: grid property viewer of a cube with a single slice

The marker tolerance is a third of the spacing between the slices, so that
plotting along an axis with one sample raised an IndexError.
---
 GridProperty.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GridProperty.py b/GridProperty.py
index 6420494..223bf13 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -706,7 +706,11 @@ class GridPropertyViewer:
                         "with three values")
         self.coordinates = coordinates
         self.markers: list = []
-        self.tolerance = np.abs(self.slice_values[1] - self.slice_values[0]) / 3
+        # a single slice has no neighbour that a coordinate could belong to
+        self.tolerance = np.inf
+        if len(self.slice_values) > 1:
+            self.tolerance = np.abs(self.slice_values[1] - 
+                self.slice_values[0]) / 3
 
         self.slice_name = ["$y$", "$x$", "$R_f$"][axis]
         
-- 
2.43.0


From 84dd7533f2083f62e13ac2bfe7e828547afb59cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:22 +0000
Subject: [PATCH 36/37] fix: place coordinate markers on the folded rf axis of
 the viewer

---
 GridProperty.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/GridProperty.py b/GridProperty.py
index 223bf13..ca4db54 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -712,6 +712,10 @@ class GridPropertyViewer:
             self.tolerance = np.abs(self.slice_values[1] - 
                 self.slice_values[0]) / 3
 
+        # needed to place coordinates on the non-linear rf axis
+        rf = grid_property.grid_parameters.rf
+        self.rf_range = rf[-1] - rf[0]
+
         self.slice_name = ["$y$", "$x$", "$R_f$"][axis]
         
         
@@ -912,4 +916,8 @@ class GridPropertyViewer:
 
             if self.tolerance > distance:
                 y, x = np.delete(coordinate, self.axis)
+                if self.axis != 2:
+                    # every rf is found on both sides of rf = 1
+                    x = self.rf_range + np.array([-1, 1]) * (x - 1)
+                    y = np.array([y, y])
                 self.markers += self.ax.plot(x, y, "ro")
-- 
2.43.0


From 30d3a08fee41248c02a406b292cf2c2ca328b628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:19 +0000
Subject: [PATCH 37/37] fix: a loaded grid gets the colour maps of a built grid

---
 Shallot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Shallot.py b/Shallot.py
index 0d44449..9cbb9eb 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -314,6 +314,8 @@ class ShallotGrid:
             grid._load_grid_attributes(directory)
             grid._determine_circular_radius()
             grid._determine_shear()
+            # the contrast is not saved, so use that of a built grid
+            grid._set_grid_property_contrast_parameters()
 
             if os.path.exists(f"{directory}/y_value.npy"):
                 y_value = validate.number(
-- 
2.43.0

