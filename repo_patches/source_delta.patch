From 5284a5d07a5794349be8a6f039e603f81f14b06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 01/65] fix: keep fix_range from altering its input or looping
 forever

Work on a copy that can hold the result (integer arrays raised an error and
float arrays were changed in place), fold values that are many cycles away
in one step, give NaN for infinities, and do not return the maximum when a
tiny negative offset is rounded up to it.
---
 ocbpy/ocb_time.py | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index db915b2..b9f5108 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -417,9 +417,6 @@ def fix_range(values, min_val, max_val, val_range=None):
 
     """
 
-    # Cast output as array-like
-    fixed_vals = np.asarray(values)
-
     # Test input to ensure the maximum is greater than the minimum
     if min_val >= max_val:
         raise ValueError('Minimum is not less than the maximum')
@@ -432,21 +429,41 @@ def fix_range(values, min_val, max_val, val_range=None):
     if val_range <= 0.0:
         raise ValueError('Value range must be greater than zero')
 
+    # Cast output as an array that does not share memory with the input and
+    # can hold the adjusted values
+    fixed_vals = np.array(values)
+    fixed_vals = fixed_vals.astype(np.result_type(fixed_vals, min_val, max_val,
+                                                  val_range))
+
+    # There is no equivalent value in range for infinity
+    if np.any(np.isinf(fixed_vals)):
+        fixed_vals[np.isinf(fixed_vals)] = np.nan
+
+    # Bring values that are many cycles away to within one cycle of the limits
+    ibad = fixed_vals >= max_val + val_range
+    if np.any(ibad):
+        fixed_vals[ibad] = max_val + np.fmod(fixed_vals[ibad] - max_val,
+                                             val_range)
+
+    ibad = fixed_vals < min_val - val_range
+    if np.any(ibad):
+        fixed_vals[ibad] = min_val - np.fmod(min_val - fixed_vals[ibad],
+                                             val_range)
+
     # Fix the values, allowing for deviations that are multiples of the
-    # value range.  Also propagate NaNs
-    ibad = (np.greater_equal(fixed_vals, max_val, where=~np.isnan(fixed_vals))
-            & ~np.isnan(fixed_vals))
+    # value range.  Comparisons with NaN are False, which propagates NaNs
+    ibad = fixed_vals >= max_val
     while np.any(ibad):
         fixed_vals[ibad] -= val_range
-        ibad = (np.greater_equal(fixed_vals, max_val,
-                                 where=~np.isnan(fixed_vals))
-                & ~np.isnan(fixed_vals))
+        ibad = fixed_vals >= max_val
 
-    ibad = (np.less(fixed_vals, min_val, where=~np.isnan(fixed_vals))
-            & ~np.isnan(fixed_vals))
+    ibad = fixed_vals < min_val
     while np.any(ibad):
         fixed_vals[ibad] += val_range
-        ibad = (np.less(fixed_vals, min_val, where=~np.isnan(fixed_vals))
-                & ~np.isnan(fixed_vals))
+        ibad = fixed_vals < min_val
+
+    # Adding the range to a tiny negative offset may round up to the maximum
+    if val_range <= max_val - min_val:
+        fixed_vals[fixed_vals >= max_val] = min_val
 
     return fixed_vals
-- 
2.43.0


From 9cfd81c4d528e39bd4ceb5159eb071c88663fbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 02/65] fix: do not write NaN into the latitudes given to
 normal_coord

Magnetic latitudes of the other hemisphere were replaced with NaN in the
caller's array, and integer or read-only arrays raised an error.
---
 ocbpy/_boundary.py   | 8 ++++++--
 ocbpy/ocb_scaling.py | 4 ++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index c72db3b..4fdad7c 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -600,7 +600,8 @@ class OCBoundary(object):
             aacgm_lat, _, aacgm_mlt = aacgmv2.get_aacgm_coord_arr(
                 lat, lon, height, self.dtime[self.rec_ind], method)
         else:
-            aacgm_lat = lat
+            # Use a copy, as unusable latitudes will be replaced with NaN
+            aacgm_lat = np.array(lat, dtype=float)
             aacgm_mlt = lt
 
         # Ensure the correct hemisphere is loaded for this data
@@ -1419,9 +1420,12 @@ class DualBoundary(object):
             aacgm_lat, _, aacgm_mlt = aacgmv2.get_aacgm_coord_arr(
                 lat, lon, height, self.dtime[self.rec_ind], method)
         else:
-            aacgm_lat = np.array(lat)
+            aacgm_lat = np.array(lat, dtype=float)
             aacgm_mlt = np.array(lt)
 
+        # There are no boundary coordinates in the other hemisphere
+        aacgm_lat[np.sign(aacgm_lat) != self.hemisphere] = np.nan
+
         # Calculate the coordinates relative to the OCB
         ocb_lat, bound_mlt, r_corr = self.ocb.normal_coord(aacgm_lat, aacgm_mlt,
                                                            coords='magnetic',
diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 0378157..03a5ba8 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -703,6 +703,10 @@ class VectorData(object):
         # Get the angle at the data vector appended by the AACGM and OCB poles
         self.calc_vec_pole_angle()
 
+        # The pole angle has no meaning where there is no boundary coordinate
+        self.pole_angle = np.where(np.isnan(self.ocb_lat), np.nan,
+                                   self.pole_angle)
+
         # Set the OCB and Vector quadrants
         if np.any(~np.isnan(self.pole_angle)):
             self.define_quadrants()
-- 
2.43.0


From 9c04e7f5b6eb3d2ba4f9f4f4a73cd2c586e55fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 03/65] fix: keep get_aacgm_boundary_lat from altering its
 input

The requested local times were wrapped in the caller's array, integer and
read-only arrays raised an error, and one array was shared by the stored
local times of all records.  Store a location only once it is complete.
---
 ocbpy/_boundary.py | 80 +++++++++++++++++++++++++++++-----------------
 1 file changed, 51 insertions(+), 29 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 4fdad7c..f4d9afb 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -783,10 +783,10 @@ class OCBoundary(object):
 
         """
 
-        # Ensure the boundary longitudes span from 0-360 degrees
-        aacgm_mlt = np.asarray(aacgm_mlt)
-        aacgm_mlt[aacgm_mlt < 0.0] += 24.0
-        aacgm_mlt[aacgm_mlt >= 24.0] -= 24.0
+        # Ensure the boundary MLTs span from 0-24 hours, without altering the
+        # input
+        aacgm_mlt = ocb_time.fix_range(np.array(aacgm_mlt, dtype=float), 0.0,
+                                       24.0)
 
         if not hasattr(self, 'aacgm_boundary_mlt'):
             self.aacgm_boundary_mlt = [None for i in range(self.records)]
@@ -813,35 +813,19 @@ class OCBoundary(object):
         for i in rinds:
             # If data exists here and the overwrite option is off, skip
             if self.aacgm_boundary_lat[i] is None or overwrite:
-                # Calculate the difference between the output MLT and the
-                # MLT of the centre of the polar cap, which is give in degrees
-                del_mlt = ocb_time.hr2rad(aacgm_mlt
-                                          - ocb_time.deg2hr(self.phi_cent[i]))
-
-                # Calculate the radius of the OCB in degrees
-                r_corr = self.rfunc[i](aacgm_mlt, **self.rfunc_kwargs[i])
-                scale_r = self.r[i] + r_corr
-                rad = self.r_cent[i] * np.cos(del_mlt) \
-                    + np.sqrt(scale_r**2 - (self.r_cent[i]
-                                            * np.sin(del_mlt))**2)
-
-                # If the radius is negative, set to NaN
-                if len(rad.shape) > 0:
-                    rad[rad < 0.0] = np.nan
-                else:
-                    rad = np.nan if rad < 0.0 else float(rad)
+                bound_lat = self._calc_boundary_lat(aacgm_mlt, i)
 
-                # Calculate the latitude of the OCB in AACGM coordinates
-                self.aacgm_boundary_lat[i] = self.hemisphere * (90.0 - rad)
+                # Calculate the longitude at this time
+                if set_lon:
+                    bound_lon = np.asarray(aacgmv2.convert_mlt(
+                        aacgm_mlt, self.dtime[i], m2a=True))
 
-                # Save the MLT at this time
-                self.aacgm_boundary_mlt[i] = aacgm_mlt
+                # Save the boundary location at this time
+                self.aacgm_boundary_lat[i] = bound_lat
+                self.aacgm_boundary_mlt[i] = np.array(aacgm_mlt)
 
-                # Set the longitude at this time
                 if set_lon:
-                    self.aacgm_boundary_lon[i] = np.asarray(
-                        aacgmv2.convert_mlt(aacgm_mlt, self.dtime[i],
-                                            m2a=True))
+                    self.aacgm_boundary_lon[i] = bound_lon
             else:
                 logger.warning("".join(["unable to update AACGM boundary ",
                                         "latitude at {:}".format(self.dtime[i]),
@@ -849,6 +833,44 @@ class OCBoundary(object):
 
         return
 
+    def _calc_boundary_lat(self, aacgm_mlt, ind):
+        """Calculate the boundary latitude for one record, without storing it.
+
+        Parameters
+        ----------
+        aacgm_mlt : np.array
+            AACGM MLT in hours, from 0-24
+        ind : int
+            Record index
+
+        Returns
+        -------
+        bound_lat : float or np.array
+            AACGM latitude of the boundary in degrees, or NaN where there is no
+            boundary
+
+        """
+
+        # Calculate the difference between the output MLT and the MLT of the
+        # centre of the polar cap, which is give in degrees
+        del_mlt = ocb_time.hr2rad(aacgm_mlt
+                                  - ocb_time.deg2hr(self.phi_cent[ind]))
+
+        # Calculate the radius of the OCB in degrees
+        r_corr = self.rfunc[ind](aacgm_mlt, **self.rfunc_kwargs[ind])
+        scale_r = self.r[ind] + r_corr
+        rad = self.r_cent[ind] * np.cos(del_mlt) \
+            + np.sqrt(scale_r**2 - (self.r_cent[ind] * np.sin(del_mlt))**2)
+
+        # If the radius is negative, set to NaN
+        if len(rad.shape) > 0:
+            rad[rad < 0.0] = np.nan
+        else:
+            rad = np.nan if rad < 0.0 else float(rad)
+
+        # Calculate the latitude of the OCB in AACGM coordinates
+        return self.hemisphere * (90.0 - rad)
+
     def _set_default_rfunc(self):
         """Set the default instrument OCB boundary function.
 
-- 
2.43.0


From 4bff35c6d3cab188929ea2351734b29a85282d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 04/65] fix: dual-boundary queries keep stored boundary
 locations on failure

The stored locations were overwritten and put back afterwards, so an error
in between left the caller's locations replaced.
---
 ocbpy/_boundary.py | 109 +++++++++++++++++++--------------------------
 1 file changed, 45 insertions(+), 64 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index f4d9afb..1b16e8a 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1208,6 +1208,44 @@ class DualBoundary(object):
 
         return eab_blat, eab_bmlt, ocb_blat, ocb_bmlt
 
+    def _calc_current_boundaries(self, aacgm_mlt, overwrite=False):
+        """Calculate the boundary latitudes for the current boundary pair.
+
+        Parameters
+        ----------
+        aacgm_mlt : array-like
+            AACGM MLT in hours
+        overwrite : bool
+            Replace stored boundary locations.  If False, the results are only
+            stored in boundary records without a location. (default=False)
+
+        Returns
+        -------
+        eab_blat : array-like
+            EAB boundary latitude in AACGM coordinates at the record index
+        ocb_blat : array-like
+            OCB boundary latitude in AACGM coordinates at the record index
+
+        """
+
+        orig_bound = self._get_current_aacgm_boundary()
+        fix_mlt = ocb_time.fix_range(np.array(aacgm_mlt, dtype=float), 0.0,
+                                     24.0)
+        blats = list()
+
+        # Calculate everything before storing anything, so that an error does
+        # not leave the stored locations half-changed
+        for bound in [self.eab, self.ocb]:
+            blats.append(bound._calc_boundary_lat(fix_mlt, bound.rec_ind))
+
+        for bound, blat in [(self.eab, orig_bound[0]),
+                            (self.ocb, orig_bound[2])]:
+            if overwrite or blat is None:
+                bound.get_aacgm_boundary_lat(fix_mlt, rec_ind=bound.rec_ind,
+                                             overwrite=True, set_lon=False)
+
+        return blats[0], blats[1]
+
     @property
     def rec_ind(self):
         """Record index that identifies the current good EAB/OCB pair."""
@@ -1462,17 +1500,8 @@ class DualBoundary(object):
                 return bound_lat, bound_mlt, ocb_lat, r_corr
 
         # Get the boundary locations in AACGM coordinates
-        if not overwrite:
-            orig_bound = self._get_current_aacgm_boundary()
-            num_none = sum([obound is None for obound in orig_bound])
-
-            if len(orig_bound) == num_none:
-                overwrite = True
-
-        self.get_aacgm_boundary_lats(aacgm_mlt, rec_ind=self.rec_ind,
-                                     overwrite=True, set_lon=False)
-        ocb_aacgm_boundary = self.ocb.aacgm_boundary_lat[self.ocb.rec_ind]
-        eab_aacgm_boundary = self.eab.aacgm_boundary_lat[self.eab.rec_ind]
+        eab_aacgm_boundary, ocb_aacgm_boundary = self._calc_current_boundaries(
+            aacgm_mlt, overwrite)
 
         # Normalize each of the points using the correct scaling factor
         imid = np.where((abs(aacgm_lat) < abs(ocb_aacgm_boundary))
@@ -1503,15 +1532,6 @@ class DualBoundary(object):
                 eab_aacgm_boundary[iout] - aacgm_lat[iout]) * (
                     self.eab.boundary_lat / eab_aacgm_boundary[iout])
 
-        # If desired, replace the boundaries
-        if not overwrite:
-            if orig_bound[2] is not None:
-                self.ocb.aacgm_boundary_lat[self.ocb.rec_ind] = orig_bound[2]
-                self.ocb.aacgm_boundary_mlt[self.ocb.rec_ind] = orig_bound[3]
-            if orig_bound[0] is not None:
-                self.eab.aacgm_boundary_lat[self.eab.rec_ind] = orig_bound[0]
-                self.eab.aacgm_boundary_mlt[self.eab.rec_ind] = orig_bound[1]
-
         if out_shape == ():
             return bound_lat[0], bound_mlt[0], ocb_lat[0], r_corr[0]
         else:
@@ -1638,17 +1658,9 @@ class DualBoundary(object):
                                         fill_value=float(aacgm_mlt))
 
             # Get the boundary locations in AACGM coordinates
-            if not overwrite:
-                orig_bound = self._get_current_aacgm_boundary()
-                num_none = sum([obound is None for obound in orig_bound])
-
-                if len(orig_bound) == num_none:
-                    overwrite = True
-
-            self.get_aacgm_boundary_lats(aacgm_mlt, rec_ind=self.rec_ind,
-                                         overwrite=True, set_lon=False)
-            ocb_aacgm_boundary = self.ocb.aacgm_boundary_lat[self.ocb.rec_ind]
-            eab_aacgm_boundary = self.eab.aacgm_boundary_lat[self.eab.rec_ind]
+            (eab_aacgm_boundary,
+             ocb_aacgm_boundary) = self._calc_current_boundaries(aacgm_mlt,
+                                                                 overwrite)
 
             # Raise warning for poorly defined boundaries, may cause NaN output
             if np.isnan(ocb_aacgm_boundary).any() or np.isnan(
@@ -1675,19 +1687,6 @@ class DualBoundary(object):
                     eab_aacgm_boundary[iout] / self.eab.boundary_lat)
                 lt[iout] = aacgm_mlt[iout]
 
-            # If desired, replace the boundaries
-            if not overwrite:
-                if orig_bound[2] is not None:
-                    self.ocb.aacgm_boundary_lat[
-                        self.ocb.rec_ind] = orig_bound[2]
-                    self.ocb.aacgm_boundary_mlt[
-                        self.ocb.rec_ind] = orig_bound[3]
-                if orig_bound[0] is not None:
-                    self.eab.aacgm_boundary_lat[
-                        self.eab.rec_ind] = orig_bound[0]
-                    self.eab.aacgm_boundary_mlt[
-                        self.eab.rec_ind] = orig_bound[1]
-
             # If needed, convert from magnetic to geographic coordinates
             if coords.lower().find('mag') < 0:
                 imag = list(imid) + list(iout)
@@ -1817,17 +1816,8 @@ class DualBoundary(object):
         iout = np.where(abs(bound_lat) < abs(self.eab.boundary_lat))[0]
 
         # Get the boundary locations in AACGM coordinates
-        if not overwrite:
-            orig_bound = self._get_current_aacgm_boundary()
-            num_none = sum([obound is None for obound in orig_bound])
-
-            if len(orig_bound) == num_none:
-                overwrite = True
-
-        self.get_aacgm_boundary_lats(aacgm_mlt, rec_ind=self.rec_ind,
-                                     overwrite=True, set_lon=False)
-        ocb_aacgm_boundary = self.ocb.aacgm_boundary_lat[self.ocb.rec_ind]
-        eab_aacgm_boundary = self.eab.aacgm_boundary_lat[self.eab.rec_ind]
+        eab_aacgm_boundary, ocb_aacgm_boundary = self._calc_current_boundaries(
+            aacgm_mlt, overwrite)
 
         # Calculate the radii in the auroral region
         if len(imid) > 0:
@@ -1839,15 +1829,6 @@ class DualBoundary(object):
             scaled_r[iout] = abs(self.eab.boundary_lat)
             unscaled_r[iout] = abs(eab_aacgm_boundary[iout])
 
-        # If desired, replace the boundaries
-        if not overwrite:
-            if orig_bound[2] is not None:
-                self.ocb.aacgm_boundary_lat[self.ocb.rec_ind] = orig_bound[2]
-                self.ocb.aacgm_boundary_mlt[self.ocb.rec_ind] = orig_bound[3]
-            if orig_bound[0] is not None:
-                self.eab.aacgm_boundary_lat[self.eab.rec_ind] = orig_bound[0]
-                self.eab.aacgm_boundary_mlt[self.eab.rec_ind] = orig_bound[1]
-
         if isfloat:
             return scaled_r[0], unscaled_r[0]
         else:
-- 
2.43.0


From 9a58b5c2f3b4daa017a88922d893a5633fd39dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 05/65] fix: treat each element alike in dual-boundary
 coordinate queries

Region membership was counted and indexed along the first axis only, which
gave wrong values for multi-dimensional input and hid points outside of any
region; reverting used the wrong hemisphere's points, the heights of other
points, and the last pair when no pair was selected.
---
 ocbpy/_boundary.py | 57 +++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 1b16e8a..e838135 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1504,30 +1504,28 @@ class DualBoundary(object):
             aacgm_mlt, overwrite)
 
         # Normalize each of the points using the correct scaling factor
-        imid = np.where((abs(aacgm_lat) < abs(ocb_aacgm_boundary))
-                        & (abs(aacgm_lat) >= abs(eab_aacgm_boundary)))[0]
-        iout = np.where(abs(aacgm_lat) < abs(eab_aacgm_boundary))[0]
+        imid = ((abs(aacgm_lat) < abs(ocb_aacgm_boundary))
+                & (abs(aacgm_lat) >= abs(eab_aacgm_boundary)))
+        iout = abs(aacgm_lat) < abs(eab_aacgm_boundary)
 
         # Test to ensure that all points fall into a region
-        iocb = np.where(abs(ocb_lat) >= abs(self.ocb.boundary_lat))[0]
-        if len(iocb) + len(imid) + len(iout) < len(aacgm_lat):
+        iocb = abs(ocb_lat) >= abs(self.ocb.boundary_lat)
+        ibad = ~(iocb | imid | iout)
+        if ibad.any():
             msg = "not all points fall into a boundary region"
             if np.isnan(ocb_aacgm_boundary).any() or np.isnan(
                     eab_aacgm_boundary).any():
                 msg += ", boundaries are poorly defined"
             logger.warning(msg)
-
-            ibad = [i for i in range(len(aacgm_lat)) if i not in iocb
-                    and i not in imid and i not in iout]
             bound_lat[ibad] = np.nan
 
-        if len(imid) > 0:
+        if imid.any():
             bound_lat[imid] = self.ocb.boundary_lat - (
                 ocb_aacgm_boundary[imid] - aacgm_lat[imid]) * (
                     self.ocb.boundary_lat - self.eab.boundary_lat) / (
                         ocb_aacgm_boundary[imid] - eab_aacgm_boundary[imid])
 
-        if len(iout) > 0:
+        if iout.any():
             bound_lat[iout] = self.eab.boundary_lat - (
                 eab_aacgm_boundary[iout] - aacgm_lat[iout]) * (
                     self.eab.boundary_lat / eab_aacgm_boundary[iout])
@@ -1633,12 +1631,12 @@ class DualBoundary(object):
                                         coords=coords, height=height,
                                         method=method)
 
-        # If not already flagged, see if all OCB by location
-        if not is_ocb:
-            iocb = np.where(abs(ocb_lat) >= abs(self.ocb.boundary_lat))[0]
-
-            if len(ocb_lat) == len(iocb):
-                is_ocb = True
+        # If not already flagged, see if all OCB by location.  Without a current
+        # boundary pair, there is nothing more to calculate
+        if self.rec_ind < 0 or self.rec_ind >= self.records:
+            is_ocb = True
+        elif not is_ocb:
+            is_ocb = bool(np.all(abs(ocb_lat) >= abs(self.ocb.boundary_lat)))
 
         # Continue calculating the output for the other regions, if needed
         if not is_ocb:
@@ -1670,26 +1668,26 @@ class DualBoundary(object):
                 logger.warning(msg)
 
             # Revert each of the points using the correct scaling factor
-            imid = np.where((abs(ocb_lat) < abs(self.ocb.boundary_lat))
-                            & (abs(ocb_lat) >= abs(self.eab.boundary_lat)))[0]
-            iout = np.where(abs(ocb_lat) < abs(self.eab.boundary_lat))[0]
+            imid = ((abs(ocb_lat) < abs(self.ocb.boundary_lat))
+                    & (abs(ocb_lat) >= abs(self.eab.boundary_lat)))
+            iout = abs(ocb_lat) < abs(self.eab.boundary_lat)
 
-            if len(imid) > 0:
+            if imid.any():
                 lat[imid] = ocb_aacgm_boundary[imid] - (
                     self.ocb.boundary_lat - ocb_lat[imid]) * (
                         ocb_aacgm_boundary[imid] - eab_aacgm_boundary[imid]) / (
                             self.ocb.boundary_lat - self.eab.boundary_lat)
                 lt[imid] = aacgm_mlt[imid]
 
-            if len(iout) > 0:
+            if iout.any():
                 lat[iout] = eab_aacgm_boundary[iout] - (
                     self.eab.boundary_lat - ocb_lat[iout]) * (
                     eab_aacgm_boundary[iout] / self.eab.boundary_lat)
                 lt[iout] = aacgm_mlt[iout]
 
             # If needed, convert from magnetic to geographic coordinates
-            if coords.lower().find('mag') < 0:
-                imag = list(imid) + list(iout)
+            imag = imid | iout
+            if coords.lower().find('mag') < 0 and imag.any():
 
                 # Convert from mlt to longitude
                 lon = aacgmv2.convert_mlt(aacgm_mlt[imag],
@@ -1703,7 +1701,8 @@ class DualBoundary(object):
 
                 # Convert from magnetic coordinates to geo coordinates
                 lat[imag], lon, _ = aacgmv2.convert_latlon_arr(
-                    lat[imag], lon, height, self.dtime[self.rec_ind], method)
+                    lat[imag], lon, height[imag], self.dtime[self.rec_ind],
+                    method)
 
                 # Convert from longitude to solar local time
                 lt[imag] = ocb_time.glon2slt(lon, self.dtime[self.rec_ind])
@@ -1811,21 +1810,21 @@ class DualBoundary(object):
                 self.ocb_ind[self.rec_ind]] + r_corr)
 
         # Identify points in the other regions
-        imid = np.where((abs(bound_lat) < abs(self.ocb.boundary_lat))
-                        & (abs(bound_lat) >= abs(self.eab.boundary_lat)))[0]
-        iout = np.where(abs(bound_lat) < abs(self.eab.boundary_lat))[0]
+        imid = ((abs(bound_lat) < abs(self.ocb.boundary_lat))
+                & (abs(bound_lat) >= abs(self.eab.boundary_lat)))
+        iout = abs(bound_lat) < abs(self.eab.boundary_lat)
 
         # Get the boundary locations in AACGM coordinates
         eab_aacgm_boundary, ocb_aacgm_boundary = self._calc_current_boundaries(
             aacgm_mlt, overwrite)
 
         # Calculate the radii in the auroral region
-        if len(imid) > 0:
+        if imid.any():
             scaled_r[imid] = abs(self.ocb.boundary_lat - self.eab.boundary_lat)
             unscaled_r[imid] = abs(ocb_aacgm_boundary[imid]
                                    - eab_aacgm_boundary[imid])
 
-        if len(iout) > 0:
+        if iout.any():
             scaled_r[iout] = abs(self.eab.boundary_lat)
             unscaled_r[iout] = abs(eab_aacgm_boundary[iout])
 
-- 
2.43.0


From 2dccc4fb430993ed30093518a7ebb9201a3b9a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 06/65] fix: keep the dual-boundary cursor coupled past the
 last pair

Moving the dual cursor beyond the last pair moved the cursors of the two
boundaries back onto records, and an object without data had no cursor.
---
 ocbpy/_boundary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index e838135..6d40353 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1260,7 +1260,7 @@ class DualBoundary(object):
             self.ocb.rec_ind = rec_ind
             self.eab.rec_ind = rec_ind
         elif rec_ind >= self.records:
-            del_ind = self.records - rec_ind
+            del_ind = rec_ind - self.records
             self.ocb.rec_ind = self.ocb.records + del_ind
             self.eab.rec_ind = self.eab.records + del_ind
         else:
@@ -1309,6 +1309,7 @@ class DualBoundary(object):
             self.dtime = None
             self.ocb_ind = None
             self.eab_ind = None
+            self.rec_ind = 0
             return
 
         self.dtime = list()
-- 
2.43.0


From 6efe5075d26528011241b1a78a230a1543346080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 07/65] fix: pair each good OCB with the closest good EAB

The OCB index did not advance while the EAB index did, so with a cadence
finer than max_delta one OCB was paired with several EABs and later OCBs
lagged behind.  The caller's selection dictionaries were also altered, and
the EAB cursor was lost if the selection failed.
---
 ocbpy/_boundary.py | 74 ++++++++++++++++++++++------------------------
 1 file changed, 35 insertions(+), 39 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 6d40353..575b225 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1312,56 +1312,52 @@ class DualBoundary(object):
             self.rec_ind = 0
             return
 
-        self.dtime = list()
-        self.ocb_ind = list()
-        self.eab_ind = list()
-
-        # Save the current EAB record index
-        icurrent = self.eab.rec_ind
-        self.eab.rec_ind = -1
-
         # Get the good OCB indices
-        if ocb_kwargs is None:
-            ocb_kwargs = {}
+        ocb_kwargs = {} if ocb_kwargs is None else dict(ocb_kwargs)
         ocb_kwargs['min_merit'] = ocb_min_merit
         ocb_kwargs['max_merit'] = ocb_max_merit
         good_ocb = cycle_boundary.retrieve_all_good_indices(self.ocb,
                                                             **ocb_kwargs)
 
         # Initialize the EAB good index selection options
-        if eab_kwargs is None:
-            eab_kwargs = {}
+        eab_kwargs = {} if eab_kwargs is None else dict(eab_kwargs)
         eab_kwargs['min_merit'] = eab_min_merit
         eab_kwargs['max_merit'] = eab_max_merit
 
-        # Match the EABs with the good OCB times
-        iocb = 0
-        while self.eab.rec_ind < self.eab.records and iocb is not None:
-            # Cycle the OCB record index to match the next good EAB index
-            iocb = cycle_boundary.match_data_ocb(
-                self.eab, self.ocb.dtime[good_ocb], idat=iocb,
-                max_tol=self.max_delta, **eab_kwargs)
-
-            # Save the paired data
-            if iocb is not None and iocb < len(
-                    good_ocb) and self.eab.rec_ind < self.eab.records:
-                self.dtime.append(self.ocb.dtime[good_ocb[iocb]])
-                self.ocb_ind.append(good_ocb[iocb])
-                self.eab_ind.append(self.eab.rec_ind)
-            else:
-                iocb = None
-
-            # Cycle to the next good EAB index
-            if self.eab.rec_ind < self.eab.records:
-                self.eab.get_next_good_ocb_ind(**eab_kwargs)
-
-        # Re-cast the class attributes as arrays
-        self.dtime = np.asarray(self.dtime)
-        self.ocb_ind = np.asarray(self.ocb_ind)
-        self.eab_ind = np.asarray(self.eab_ind)
+        # Save the current EAB record index
+        icurrent = self.eab.rec_ind
+        self.eab.rec_ind = -1
 
-        # Reset the EAB index
-        self.eab.rec_ind = icurrent
+        # Match each of the good OCB times with the closest good EAB
+        dtime = list()
+        ocb_ind = list()
+        eab_ind = list()
+
+        try:
+            iocb = 0
+            while iocb is not None and iocb < len(good_ocb):
+                # Cycle to the next good OCB time with a good EAB
+                iocb = cycle_boundary.match_data_ocb(
+                    self.eab, self.ocb.dtime[good_ocb], idat=iocb,
+                    max_tol=self.max_delta, **eab_kwargs)
+
+                # Save the paired data
+                if iocb is not None and iocb < len(
+                        good_ocb) and self.eab.rec_ind < self.eab.records:
+                    dtime.append(self.ocb.dtime[good_ocb[iocb]])
+                    ocb_ind.append(good_ocb[iocb])
+                    eab_ind.append(self.eab.rec_ind)
+                    iocb += 1
+                else:
+                    iocb = None
+        finally:
+            # Reset the EAB index
+            self.eab.rec_ind = icurrent
+
+        # Set the class attributes as arrays
+        self.dtime = np.asarray(dtime)
+        self.ocb_ind = np.asarray(ocb_ind)
+        self.eab_ind = np.asarray(eab_ind)
 
         # Set the number of good paired records
         self.records = len(self.dtime)
-- 
2.43.0


From 008810cac0e1bcfbd999c6896fc5466a36e297ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 08/65] fix: accept fractional match tolerances when logging
 skipped data

---
 ocbpy/cycle_boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/cycle_boundary.py b/ocbpy/cycle_boundary.py
index 34eb1df..5a1391a 100644
--- a/ocbpy/cycle_boundary.py
+++ b/ocbpy/cycle_boundary.py
@@ -182,7 +182,7 @@ def match_data_ocb(ocb, dat_dtime, idat=0, max_tol=60, min_merit=None,
         elif sdiff > max_tol:
             # Cycle to the next value if no OCB values were close enough
             logger.info("".join(["no OCB data available within [",
-                                 "{:d} s] of input measurement".format(max_tol),
+                                 "{:} s] of input measurement".format(max_tol),
                                  " at [{:}]".format(dat_dtime[idat])]))
             idat += 1
         else:
@@ -214,7 +214,7 @@ def match_data_ocb(ocb, dat_dtime, idat=0, max_tol=60, min_merit=None,
     # Return from the last loop
     if idat == 0 and abs(sdiff) > max_tol:
         logger.info("".join(["no OCB data available within ",
-                             "[{:d} s] of first measurement ".format(max_tol),
+                             "[{:} s] of first measurement ".format(max_tol),
                              "[{:}]".format(dat_dtime[idat])]))
         idat = None
 
-- 
2.43.0


From 1061264ab338388dcc550af71267bd54da6e92a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 09/65] fix: restore the boundary cursor if listing good
 records fails

---
 ocbpy/cycle_boundary.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/ocbpy/cycle_boundary.py b/ocbpy/cycle_boundary.py
index 5a1391a..3d3d61a 100644
--- a/ocbpy/cycle_boundary.py
+++ b/ocbpy/cycle_boundary.py
@@ -45,21 +45,22 @@ def retrieve_all_good_indices(ocb, min_merit=None, max_merit=None, **kwargs):
     # Save the current record index
     icurrent = ocb.rec_ind
 
-    # Set the record index to allow us to cycle through the entire data set
-    ocb.rec_ind = -1
-
     # Initialize the output data
     good_ind = list()
 
-    # Cycle through all records
-    while ocb.rec_ind < ocb.records:
-        ocb.get_next_good_ocb_ind(min_merit=min_merit, max_merit=max_merit,
-                                  **kwargs)
-        if ocb.rec_ind < ocb.records:
-            good_ind.append(int(ocb.rec_ind))
+    try:
+        # Set the record index to allow us to cycle through the entire data set
+        ocb.rec_ind = -1
 
-    # Reset the record index
-    ocb.rec_ind = icurrent
+        # Cycle through all records
+        while ocb.rec_ind < ocb.records:
+            ocb.get_next_good_ocb_ind(min_merit=min_merit, max_merit=max_merit,
+                                      **kwargs)
+            if ocb.rec_ind < ocb.records:
+                good_ind.append(int(ocb.rec_ind))
+    finally:
+        # Reset the record index
+        ocb.rec_ind = icurrent
 
     # Return the good indices
     return good_ind
-- 
2.43.0


From c6d73b17f28244c2c61b55074c56c7afc71d9b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 10/65] fix: keep the vertical component of purely vertical
 vectors

A vector without horizontal components lost its vertical one when adjusted
to boundary coordinates.
---
 ocbpy/vectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index d176eb7..a7f03a0 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -587,11 +587,11 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
         if len(out_shape) == 0:
             dest_n = 0.0
             dest_e = 0.0
-            dest_z = 0.0
+            dest_z = float(vect_z)
         else:
             dest_n[zero_mask] = 0.0
             dest_e[zero_mask] = 0.0
-            dest_z[zero_mask] = 0.0
+            dest_z[zero_mask] = np.broadcast_to(vect_z, out_shape)[zero_mask]
 
     # The measurement is aligned with the base and destination poles
     if np.any(ns_mask):
-- 
2.43.0


From bc57870107cff280d848cfeff8173f8b8cbf5bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 11/65] fix: scale the rotated components of single vectors

Scaling one vector (rather than an array) used the components in magnetic
coordinates, which undid the rotation into boundary coordinates.
---
 ocbpy/ocb_scaling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 03a5ba8..e72c138 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -804,13 +804,13 @@ class VectorData(object):
             if len(self.ocb_n.shape) == 0:
                 self.ocb_n = np.full(
                     shape=self.ocb_n.shape, fill_value=self.scale_func(
-                        self.vect_n, self.unscaled_r, self.scaled_r))
+                        self.ocb_n, self.unscaled_r, self.scaled_r))
                 self.ocb_e = np.full(
                     shape=self.ocb_e.shape, fill_value=self.scale_func(
-                        self.vect_e, self.unscaled_r, self.scaled_r))
+                        self.ocb_e, self.unscaled_r, self.scaled_r))
                 self.ocb_z = np.full(
                     shape=self.ocb_z.shape, fill_value=self.scale_func(
-                        self.vect_z, self.unscaled_r, self.scaled_r))
+                        self.ocb_z, self.unscaled_r, self.scaled_r))
             else:
                 self.ocb_n = self.scale_func(self.ocb_n, self.unscaled_r,
                                              self.scaled_r)
-- 
2.43.0


From dc01fa72120bda7c1f63520a24a0da71a256dda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 12/65] fix: find pole quadrants for any local time difference

Reducing the difference to one day took a number of steps proportional to it,
never ended for infinite values, and altered its intermediate array in place.
---
 ocbpy/vectors.py | 25 +++----------------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index a7f03a0..1ed6a3b 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -175,28 +175,9 @@ def define_pole_quadrants(data_lt, pole_lt, pole_angle):
     # Initalize the output
     pole_quad = np.zeros(shape=np.asarray(del_lt).shape)
 
-    # Determine which differences need to be
-    neg_mask = np.less(del_lt, 0.0, where=~np.isnan(del_lt)) & ~np.isnan(del_lt)
-    while np.any(neg_mask):
-        if len(del_lt.shape) == 0:
-            del_lt += 24.0
-            neg_mask = np.less(del_lt, 0.0)  # Has one finite value
-        else:
-            del_lt[neg_mask] += 24.0
-            neg_mask = np.less(del_lt, 0.0,
-                               where=~np.isnan(del_lt)) & ~np.isnan(del_lt)
-
-    large_mask = np.greater_equal(abs(del_lt), 24.0,
-                                  where=~np.isnan(del_lt)) & ~np.isnan(del_lt)
-    while np.any(large_mask):
-        if len(del_lt.shape) == 0:
-            del_lt -= 24.0 * np.sign(del_lt)
-            large_mask = np.greater_equal(abs(del_lt), 24.0)  # One finite value
-        else:
-            del_lt[large_mask] -= 24.0 * np.sign(del_lt[large_mask])
-            large_mask = np.greater_equal(abs(del_lt), 24.0,
-                                          where=~np.isnan(del_lt)) & ~np.isnan(
-                                              del_lt)
+    # Restrict the time differences to one day, non-finite values are undefined
+    with np.errstate(invalid='ignore'):
+        del_lt = np.mod(del_lt, 24.0)
 
     # Find the quadrant in which the OCB pole lies
     nan_mask = ~np.isnan(pole_angle) & ~np.isnan(del_lt)
-- 
2.43.0


From 5f41c6a3906cb6fdb822909ac7fc78add1df9afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 13/65] fix: keep the pole angle defined for points in line
 with the poles

Rounding could make the squared half-angle slightly negative or larger than
one, which left the angle undefined and aborted the conversion.
---
 ocbpy/vectors.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index 1ed6a3b..288cadf 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -130,8 +130,12 @@ def calc_vec_pole_angle(data_lt, data_lat, pole_lt, pole_lat):
 
     # Use the half-angle formula to get the pole angle
     sum_sides = 0.5 * (del_vect + del_dest + del_pole)
-    half_angle = np.sqrt(np.sin(sum_sides) * np.sin(sum_sides - del_pole)
-                         / (np.sin(del_vect) * np.sin(del_dest)))
+    half_angle = (np.sin(sum_sides) * np.sin(sum_sides - del_pole)
+                  / (np.sin(del_vect) * np.sin(del_dest)))
+
+    # Rounding may push the values for aligned points just past the limits
+    half_angle = np.sqrt(np.where(np.isfinite(half_angle),
+                                  np.clip(half_angle, 0.0, 1.0), np.nan))
 
     if pole_angle.shape == ():
         pole_angle = np.degrees(2.0 * np.arccos(half_angle))
-- 
2.43.0


From 4d90d29172b1efcfc587ae64f1c12c4a225692c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 14/65] fix: convert vectors at the time of their own boundary
 record

The time of the record under the boundary's cursor was used instead, which
depends on earlier calls and fails once the cursor is past the last record.
---
 ocbpy/ocb_scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index e72c138..24e233f 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -643,7 +643,7 @@ class VectorData(object):
 
         """
         # Update the data values to be in magnetic coordinates
-        dtime = ocb.dtime[ocb.rec_ind] if self.ocb_ind.shape == () else [
+        dtime = ocb.dtime[self.ocb_ind] if self.ocb_ind.shape == () else [
             ocb.dtime[ind] for ind in self.ocb_ind]
         self.update_vect_coords_to_mag(dtime, ocb.hemisphere)
 
-- 
2.43.0


From 9068341cba49b00bfdaed5c97363b41fb535f37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 15/65] fix: do not warn about vector magnitudes at random

The comparison result was left uninitialised where the magnitude is NaN, so
that the warning depended on the previous contents of memory.
---
 ocbpy/ocb_scaling.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 24e233f..2d48d76 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -472,11 +472,12 @@ class VectorData(object):
         if np.all(np.isnan(vect_mag)):
             self._vect_mag = vect_sqrt
         else:
-            if np.any(np.greater(abs(vect_mag - vect_sqrt), 1.0e-3,
-                                 where=~np.isnan(vect_mag))):
+            # Undefined (NaN) differences are not inconsistent
+            mag_diff = abs(vect_mag - vect_sqrt)
+            if np.any(mag_diff > 1.0e-3):
                 ocbpy.logger.warning("".join([
                     "inconsistent vector components with a maximum difference ",
-                    "of {:} > 1.0e-3".format(abs(vect_mag - vect_sqrt).max())]))
+                    "of {:} > 1.0e-3".format(np.nanmax(mag_diff))]))
             self._vect_mag = vect_mag
         return
 
-- 
2.43.0


From 8cdf606e0d42334a0ff366161e05892dc8bbf081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 16/65] fix: recompute boundary locations when vector indices
 change

Locations calculated for one boundary record or set of data were kept and used
with the next one, mixing values of different records.
---
 ocbpy/ocb_scaling.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 2d48d76..fd68de3 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -135,6 +135,7 @@ class VectorData(object):
         self._test_update_vector_shape()
 
         # Assign the OCB vector default values
+        self._calc_coords = False
         self.ocb_lat = ocb_lat
         self.ocb_mlt = ocb_mlt
         self.r_corr = r_corr
@@ -457,6 +458,18 @@ class VectorData(object):
             else:
                 (self.ocb_lat[ind], self.ocb_mlt[ind], _,
                  self.r_corr[ind]) = out_coord
+
+        # Recall that these values belong to the current indices
+        self._calc_coords = True
+        return
+
+    def _clear_calc_coords(self):
+        """Unset OCB coordinates calculated for previous indices."""
+        if self._calc_coords:
+            self.ocb_lat = np.nan
+            self.ocb_mlt = np.nan
+            self.r_corr = np.nan
+            self._calc_coords = False
         return
 
     @property
@@ -497,6 +510,9 @@ class VectorData(object):
             # Test the data and reset if necessary
             self._test_update_vector_shape()
 
+            # Previously calculated boundary coordinates no longer apply
+            self._clear_calc_coords()
+
             # Test the boundary shape
             self._test_update_bound_shape()
 
@@ -520,6 +536,9 @@ class VectorData(object):
         else:
             self._ocb_ind = ocb_ind
 
+            # Previously calculated boundary coordinates no longer apply
+            self._clear_calc_coords()
+
             # Test the boundaries and reset if necessary
             try:
                 self._test_update_bound_shape()
@@ -552,6 +571,7 @@ class VectorData(object):
     @ocb_lat.setter
     def ocb_lat(self, ocb_lat):
         # Set the boundary latitude value and ensure the shape is correct
+        self._calc_coords = False
         self._ocb_attr_setter('_ocb_lat', ocb_lat)
         return
 
-- 
2.43.0


From 91215766e758aa39ac8dfa3988c3f13bbed0449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 17/65] fix: end conversions quietly when no data match the
 boundaries

match_data_ocb returns None if it runs out of data, which was compared to an
integer.
---
 ocbpy/instruments/pysat_instruments.py | 4 ++++
 ocbpy/instruments/supermag.py          | 4 ++++
 ocbpy/instruments/vort.py              | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 1c139f8..ba00e7f 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -438,6 +438,10 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                                     min_merit=min_merit, max_merit=max_merit,
                                     **kwargs)
 
+        # All of the data have been searched
+        if idat is None:
+            break
+
         if idat < ndat and ocb.rec_ind < ocb.records:
             time_ind = np.where(dat_ind[0] == uind[idat])[0]
 
diff --git a/ocbpy/instruments/supermag.py b/ocbpy/instruments/supermag.py
index 19beee6..8014c6a 100644
--- a/ocbpy/instruments/supermag.py
+++ b/ocbpy/instruments/supermag.py
@@ -154,6 +154,10 @@ def supermag2ascii_ocb(smagfile, outfile, hemisphere=0, ocb=None,
                                         max_tol=max_sdiff, min_merit=min_merit,
                                         max_merit=max_merit, **kwargs)
 
+            # All of the data have been searched
+            if imag is None:
+                break
+
             if imag < nmag and ocb.rec_ind < ocb.records:
                 # Get all of the points for this time pairing
                 itime = np.where(mdata['DATETIME'] == mdata['DATETIME'][imag])
diff --git a/ocbpy/instruments/vort.py b/ocbpy/instruments/vort.py
index 3ce7cf7..12b7a53 100644
--- a/ocbpy/instruments/vort.py
+++ b/ocbpy/instruments/vort.py
@@ -178,6 +178,10 @@ def vort2ascii_ocb(vortfile, outfile, hemisphere=0, ocb=None,
                                          max_tol=max_sdiff, min_merit=min_merit,
                                          max_merit=max_merit, **kwargs)
 
+            # All of the data have been searched
+            if ivort is None:
+                break
+
             if ivort < num_vort and ocb.rec_ind < ocb.records:
                 # Use the indexed OCB to convert the AACGM grid coordinate to
                 # one related to the OCB
-- 
2.43.0


From 5008939c668fdbe26272060325d433d23573a3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 18/65] fix: keep vorticity time stamps from losing a second

Hours that are not exact in binary could round to just below a whole second.
---
 ocbpy/instruments/vort.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/instruments/vort.py b/ocbpy/instruments/vort.py
index 12b7a53..aa257df 100644
--- a/ocbpy/instruments/vort.py
+++ b/ocbpy/instruments/vort.py
@@ -297,7 +297,8 @@ def load_vorticity_ascii_data(vortfile, save_all=False):
                 # Calculate and save the datetime
                 stime = " ".join(vsplit)
                 dtime = (dt.datetime.strptime(stime, "%Y %m %d")
-                         + dt.timedelta(seconds=np.floor(hh * 3600.0)))
+                         + dt.timedelta(seconds=np.floor(np.round(
+                             hh * 3600.0, 6))))
                 vinc += 1
 
                 # Move to next line
-- 
2.43.0


From 0d2e2d4fe503906bab66d10fa3c40c0467549f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 19/65] fix: replace the fill value in SuperMAG latitudes

---
 ocbpy/instruments/supermag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/supermag.py b/ocbpy/instruments/supermag.py
index 8014c6a..1666065 100644
--- a/ocbpy/instruments/supermag.py
+++ b/ocbpy/instruments/supermag.py
@@ -306,7 +306,7 @@ def load_supermag_ascii_data(filename):
         else:
             out[k] = np.array(out[k])
 
-            if k in ['BE', 'BN', 'DEC', 'SZA', 'MLT', 'BZ']:
+            if k in ['BE', 'BN', 'DEC', 'SZA', 'MLT', 'MLAT', 'BZ']:
                 out[k][out[k] == fill_val] = np.nan
 
     return header, out
-- 
2.43.0


From 1ac488c4f5a87cfba34a0e337dfee70f7f6951ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 20/65] fix: define the radii of vectors without a boundary
 location

Adding vectors without any valid location to a pysat data set failed.
---
 ocbpy/ocb_scaling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index fd68de3..daa0298 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -645,6 +645,10 @@ class VectorData(object):
         self.ocb_aacgm_lat = np.full(shape=self.vshape, fill_value=np.nan)
         self.ocb_aacgm_mlt = np.full(shape=self.vshape, fill_value=np.nan)
 
+        # Assign the default radii
+        self.unscaled_r = np.full(shape=self.vshape, fill_value=np.nan)
+        self.scaled_r = np.full(shape=self.vshape, fill_value=np.nan)
+
         return
 
     def set_ocb(self, ocb, scale_func=None, trace_method='ALLOWTRACE'):
-- 
2.43.0


From ecc8ca28896c281fe06be75199c6cd6b50547c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 21/65] fix: restore the caller's output streams after a
 download

---
 ocbpy/boundaries/dmsp_ssj_files.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index 1f58bc4..033a40c 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -24,11 +24,11 @@ References
 
 """
 
+from contextlib import redirect_stderr, redirect_stdout
 import datetime as dt
 from io import StringIO
 import numpy as np
 import os
-import sys
 import zipfile
 
 import aacgmv2
@@ -110,15 +110,12 @@ def fetch_ssj_boundary_files(stime=None, etime=None, out_dir=None,
 
     # Download the zenodo archive, capturing the output
     zenodo_io = StringIO()
-    sys.stdout = zenodo_io
-    sys.stderr = zenodo_io
-
     zenodo_checksum = os.path.join(out_dir, 'md5sums.txt')
-    zenodo_get.zenodo_get([doi, '-o', out_dir])
+
+    with redirect_stdout(zenodo_io), redirect_stderr(zenodo_io):
+        zenodo_get.zenodo_get([doi, '-o', out_dir])
 
     # Parse the output and retrieve files from the zip archive
-    sys.stdout = sys.__stdout__
-    sys.stderr = sys.__stderr__
     zen_msg = zenodo_io.getvalue()
     zen_split = zen_msg.split()
 
-- 
2.43.0


From 14d37a54c938057c58cc24fb9c17e5e104a95bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 22/65] fix: report bad downloads as input/output errors

---
 ocbpy/boundaries/dmsp_ssj_files.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index 033a40c..cf226e0 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -113,7 +113,12 @@ def fetch_ssj_boundary_files(stime=None, etime=None, out_dir=None,
     zenodo_checksum = os.path.join(out_dir, 'md5sums.txt')
 
     with redirect_stdout(zenodo_io), redirect_stderr(zenodo_io):
-        zenodo_get.zenodo_get([doi, '-o', out_dir])
+        try:
+            zenodo_get.zenodo_get([doi, '-o', out_dir])
+        except SystemExit:
+            # This is how `zenodo_get` reports a file with a bad checksum
+            raise IOError('Bad checksum, see: {:s}\n{:s}'.format(
+                zenodo_checksum, zenodo_io.getvalue()))
 
     # Parse the output and retrieve files from the zip archive
     zen_msg = zenodo_io.getvalue()
-- 
2.43.0


From 1a0c00b2c25df1e0060e0e93a105f3f2b063cf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 23/65] fix: find the archive among several downloaded files

---
 ocbpy/boundaries/dmsp_ssj_files.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index cf226e0..8cc9d38 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -134,15 +134,15 @@ def fetch_ssj_boundary_files(stime=None, etime=None, out_dir=None,
 
     # Get the archive name from the output
     try:
-        link_ind = zen_split.index('Link:') + 1
-
-        # If the archive is already available, message may differ
-        zip_name = os.path.split(zen_split[link_ind])
-        while zip_name[-1].find(".zip") <= 0:
-            zip_name = os.path.split(zip_name[0])
+        # There may be several files and, if the archive is already available,
+        # the message may differ
+        links = [zen_split[i + 1].split('/') for i, word in enumerate(zen_split)
+                 if word == 'Link:']
+        zip_name = [name for link in links for name in link[::-1]
+                    if name.find(".zip") > 0]
 
         # Set the archive name
-        archive_name = os.path.join(out_dir, zip_name[-1])
+        archive_name = os.path.join(out_dir, zip_name[0])
     except (ValueError, IndexError):
         raise IOError('unable to identify zenodo archive: {:}'.format(zen_msg))
 
-- 
2.43.0


From 5ad112b1955782ad8b6620252fad0ced4fc1785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 24/65] fix: format DMSP files that have a single pass

---
 ocbpy/boundaries/dmsp_ssj_files.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index 8cc9d38..69b222c 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -354,8 +354,8 @@ def format_ssj_boundary_files(csv_files, ref_alt=830.0,
             header_list = head_line.split("\n")[0].split(",")
 
             # Load the file data
-            data = np.loadtxt(infile, skiprows=skiprows, delimiter=',')
-            if len(data.shape) != 2 or data.shape[1] != len(header_list):
+            data = np.loadtxt(infile, skiprows=skiprows, delimiter=',', ndmin=2)
+            if data.size == 0 or data.shape[1] != len(header_list):
                 bad_files.append(infile)
             else:
                 # Establish the desired data indices
-- 
2.43.0


From 39308c77b385ae012096cc18c69575824d3a2345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 25/65] fix: name DMSP boundary files after their directory and
 dates

---
 ocbpy/boundaries/dmsp_ssj_files.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index 69b222c..3b9832f 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -308,13 +308,14 @@ def format_ssj_boundary_files(csv_files, ref_alt=830.0,
     out_head = "#sc date time r x y fom x_1 y_1 x_2 y_2\n"
 
     # Specify the output file information
-    outfile_prefix = os.path.commonprefix(list(csv_files)).split('-f')[0]
-    filename_sec = os.path.split(
-        csv_files[0])[-1].split('dmsp-f')[-1].split('_')
-    sdate = filename_sec[3]
+    outfile_prefix = os.path.join(os.path.dirname(
+        os.path.commonprefix(list(csv_files))), 'dmsp')
     filename_sec = os.path.split(
         csv_files[-1])[-1].split('dmsp-f')[-1].split('_')
-    edate = filename_sec[3]
+    file_dates = [os.path.split(csv_file)[-1].split('dmsp-f')[-1].split('_')[3]
+                  for csv_file in csv_files]
+    sdate = min(file_dates)
+    edate = max(file_dates)
 
     bound_files = {hh: {bb: "".join([outfile_prefix, "-", filename_sec[1], "_",
                                      hemi_suffix[hh], "_", sdate, "_", edate,
-- 
2.43.0


From b361abe28de7a84d78a5d0b586156e755f81dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 26/65] fix: choose default files independently of the
 directory order

---
 ocbpy/boundaries/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/boundaries/files.py b/ocbpy/boundaries/files.py
index cbb3ce6..9b69ec8 100644
--- a/ocbpy/boundaries/files.py
+++ b/ocbpy/boundaries/files.py
@@ -78,7 +78,7 @@ def get_boundary_files(bound='ocb'):
 
     # List all of the files in the OCBpy boundary directory
     boundary_dir = get_boundary_directory()
-    file_list = os.listdir(boundary_dir)
+    file_list = sorted(os.listdir(boundary_dir))
 
     # Add the boundary files to the output dictionary
     boundary_files = dict()
-- 
2.43.0


From 468ea627c8c740c6355a1a193443a8e8f000ad0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 27/65] fix: choose among several files from an unknown
 instrument

---
 ocbpy/boundaries/files.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ocbpy/boundaries/files.py b/ocbpy/boundaries/files.py
index 9b69ec8..1b43b9d 100644
--- a/ocbpy/boundaries/files.py
+++ b/ocbpy/boundaries/files.py
@@ -194,8 +194,11 @@ def get_default_file(stime, etime, hemisphere, instrument='', bound='ocb'):
     else:
         # Rate files by instrument
         default_inst = ['image', 'amp', 'si13', 'si12', 'wic', 'dmsp-ssj']
-        ordered_files = {default_inst.index(boundary_files[bb]['instrument']):
-                         bb for bb in good_files}
+        inst_rank = {bb: len(default_inst) for bb in good_files}
+        inst_rank.update({bb: default_inst.index(
+            boundary_files[bb]['instrument']) for bb in good_files
+            if boundary_files[bb]['instrument'] in default_inst})
+        ordered_files = {inst_rank[bb]: bb for bb in good_files}
         bfile = ordered_files[min(ordered_files.keys())]
         default_file = os.path.join(boundary_dir, bfile)
         if boundary_files[bfile]['instrument'] in short_to_long.keys():
-- 
2.43.0


From 9f65e25b0a129f5421a020118ea476814a296bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 28/65] fix: skip unusable names in the boundary directory

---
 ocbpy/boundaries/files.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ocbpy/boundaries/files.py b/ocbpy/boundaries/files.py
index 1b43b9d..cc68749 100644
--- a/ocbpy/boundaries/files.py
+++ b/ocbpy/boundaries/files.py
@@ -87,6 +87,12 @@ def get_boundary_files(bound='ocb'):
            and bfile.find(".py") < 0 and bfile.find("README") < 0
            and bfile[-3:].lower() == bound.lower()):
             file_info = bfile.lower()[:-4].split("_")
+
+            if len(file_info) < 2 or file_info[1] not in hemi.keys():
+                ocbpy.logger.warning(
+                    'Unknown boundary file present: [{:s}]'.format(bfile))
+                continue
+
             boundary_files[bfile] = {"instrument": file_info[0],
                                      "hemisphere": hemi[file_info[1]]}
 
@@ -99,7 +105,7 @@ def get_boundary_files(bound='ocb'):
                         file_info[2], '%Y%m%d')
                     boundary_files[bfile]["etime"] = dt.datetime.strptime(
                         file_info[3], '%Y%m%d')
-                except ValueError as verr:
+                except (IndexError, ValueError) as verr:
                     err = 'Unknown boundary file present: [{:s}]\n{:}'.format(
                         bfile, verr)
                     ocbpy.logger.warning(err)
@@ -171,7 +177,8 @@ def get_default_file(stime, etime, hemisphere, instrument='', bound='ocb'):
             if bdict['instrument'] in inst:
                 # Select by time
                 if(stime is None or etime is None
-                   or (stime <= bdict['etime'] and etime >= bdict['stime'])):
+                   or ('etime' in bdict.keys() and stime <= bdict['etime']
+                       and etime >= bdict['stime'])):
                     good_files.append(bfile)
 
     # Get the default file and instrument (returning at most one)
-- 
2.43.0


From 61038c064716fcf81b027de3291a305fc38ae4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 29/65] fix: load ASCII files that have at most one row of data

---
 ocbpy/instruments/general.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 5afe141..c9bc6dc 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -193,7 +193,12 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
         idt = len(dt_keys)
 
     # Open the datafile and read the data rows
-    temp = np.genfromtxt(filename, skip_header=hlines, dtype=str, **gft_kwargs)
+    temp = np.atleast_1d(np.genfromtxt(filename, skip_header=hlines, dtype=str,
+                                       **gft_kwargs))
+
+    if len(temp.shape) == 1 and nhead > 1 and len(temp) == nhead:
+        # There is only a single row of data
+        temp = temp.reshape((1, nhead))
 
     if len(temp) > 0:
         # When dtype is specified, output comes as a void np.array
@@ -251,7 +256,7 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     for k in out.keys():
         try:
             out[k] = np.array(out[k], dtype=type(out[k][0]))
-        except TypeError:
+        except (IndexError, TypeError):
             # Leave as a list if array casting doesn't work.  This was an
             # issue before, but may have been an old numpy bug that is fixed.
             pass
-- 
2.43.0


From f65ab7524f4db21730c3637c9b81a15cb2f78c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 30/65] fix: keep load_ascii_data from altering its input

---
 ocbpy/instruments/general.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index c9bc6dc..4fae7c8 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -108,12 +108,16 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
 
     if int_cols is None:
         int_cols = list()
+    else:
+        int_cols = list(int_cols)
 
     if str_cols is None:
         str_cols = list()
 
     if header is None:
         header = list()
+    else:
+        header = list(header)
 
     # Test to ensure the file is small enough to read in.  Python can only
     # allocate 2GB of data.  If you load something larger, python will crash
-- 
2.43.0


From 8427245ef30073e14a3121684af463ffcabe0ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 31/65] fix: load boundary files with a single record

---
 ocbpy/_boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 575b225..c96ac1d 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -369,8 +369,8 @@ class OCBoundary(object):
             return
 
         # Read the OCB data
-        odata = np.rec.array(np.genfromtxt(self.filename, skip_header=hlines,
-                                           dtype=ldtype))
+        odata = np.rec.array(np.atleast_1d(np.genfromtxt(
+            self.filename, skip_header=hlines, dtype=ldtype)))
         oname = list(odata.dtype.names)
 
         # Load the data into the OCBoundary object
-- 
2.43.0


From e5e7932056200f5a3002539e33d3389452683c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 32/65] fix: represent boundary objects without any records

---
 ocbpy/_boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index c96ac1d..2b06663 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -197,8 +197,8 @@ class OCBoundary(object):
         class_name = repr(self.__class__).split("'")[1]
 
         # Get the start and end times
-        stime = None if self.dtime is None else self.dtime[0]
-        etime = None if self.dtime is None else self.dtime[-1]
+        stime = None if self.records == 0 else self.dtime[0]
+        etime = None if self.records == 0 else self.dtime[-1]
 
         # Format the function representations
         if self.rfunc is None:
-- 
2.43.0


From 9467b67f2069238d0bd04a7823adc69d8452399f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 33/65] fix: list the boundary corrections in the same order in
 every session

---
 ocbpy/_boundary.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 2b06663..5d02102 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -272,13 +272,15 @@ class OCBoundary(object):
                 # Determine which scaling functions are used
                 if self.rfunc is not None:
                     out = "{:s}\nUses scaling function(s):\n".format(out)
-                    fnames = list(set([".".join([ff.__module__, ff.__name__])
-                                       for ff in self.rfunc]))
+                    fnames = sorted(set([
+                        ".".join([ff.__module__, ff.__name__])
+                        for ff in self.rfunc]))
 
                     for ff in fnames:
-                        kw = list(set([self.rfunc_kwargs[i].__str__()
-                                       for i, rf in enumerate(self.rfunc)
-                                       if rf.__name__ == ff.split(".")[-1]]))
+                        kw = sorted(set([
+                            self.rfunc_kwargs[i].__str__()
+                            for i, rf in enumerate(self.rfunc)
+                            if rf.__name__ == ff.split(".")[-1]]))
 
                         for kk in kw:
                             out = "{:s}{:s}(**{:s})\n".format(out, ff, kk)
-- 
2.43.0


From 1f160d4dca12d0fbb16b211dcb3ca1ca6c647543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 34/65] fix: accept the default boundary latitude requested
 with None

---
 ocbpy/_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 5d02102..62b3fa3 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -179,7 +179,7 @@ class OCBoundary(object):
         self.boundary_lat = 74.0 if boundary_lat is None else boundary_lat
 
         # Ensure that the boundary is in the correct hemisphere
-        if np.sign(boundary_lat) != np.sign(hemisphere):
+        if np.sign(self.boundary_lat) != np.sign(hemisphere):
             self.boundary_lat *= -1.0
 
         # If possible, load the data.  Any boundary correction is applied here.
-- 
2.43.0


From da0a04c4595fd820cfff6c1657d172c9b9596d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 35/65] fix: convert seconds of year just short of a minute

---
 ocbpy/ocb_time.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index b9f5108..aa7c643 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -66,6 +66,9 @@ def year_soy_to_datetime(yyyy, soy):
 
     """
 
+    # Only whole seconds are used, round here to not end up with 60 seconds
+    soy = np.round(soy)
+
     # Calcuate doy, hour, min, seconds of day
     ss = soy / 86400.0
     ddd = np.floor(ss)
-- 
2.43.0


From 6935790434137c13dceddf1b4870c22e2a356f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 36/65] fix: reject vorticity files that end within a data
 block

---
 ocbpy/instruments/vort.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ocbpy/instruments/vort.py b/ocbpy/instruments/vort.py
index aa257df..92890e2 100644
--- a/ocbpy/instruments/vort.py
+++ b/ocbpy/instruments/vort.py
@@ -357,6 +357,11 @@ def load_vorticity_ascii_data(vortfile, save_all=False):
                 # All entries in block have been processed, reset incriment
                 vinc = 0
 
+        # The file should not end before the end of a data block
+        if vinc == 1 or (vinc == 2 and nentries > 0):
+            raise IOError(
+                "unexpected end of file in a data block [{:s}]".format(vortfile))
+
     # Recast lists as numpy arrays and ensure data is present
     for vkey in vdata.keys():
         if len(vdata[vkey]) > 0:
-- 
2.43.0


From 024605f36027e6b3aa853fcc90102667ba8acb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 37/65] fix: use the same height at every location of time
 series data

---
 ocbpy/instruments/pysat_instruments.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index ba00e7f..e515156 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -392,6 +392,10 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
     else:
         ocb_coords = [pysat_inst.index.name]
 
+        # Provide an altitude for each location
+        if len(height.shape) == 0:
+            height = np.full(shape=lat.shape, fill_value=height)
+
     # See if the data has more dimensions than the OCB coordinates
     if len(dat_coords) > len(ocb_coords):
         combo_shape = list(lat.shape)
-- 
2.43.0


From d460ef756d57a5cdbb0bd2dda23e272b372b8bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 38/65] fix: recognise the default boundary types for pysat
 data

---
 ocbpy/instruments/pysat_instruments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index e515156..1ab2f57 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -195,11 +195,11 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
             if ocbfile.lower() in ['eab', 'ocb', 'dual']:
                 ocbfile = "default"
 
-        if fileroot.find("ocb") > 0 and fileroot.find("eab") < 0:
+        if fileroot.find("ocb") >= 0 and fileroot.find("eab") < 0:
             # Initialize the OCBoundary object
             ocb = ocbpy.OCBoundary(ocbfile, stime=dstart, etime=dend,
                                    instrument=instrument, hemisphere=hemisphere)
-        elif fileroot.find("ocb") < 0 and fileroot.find("eab") > 0:
+        elif fileroot.find("ocb") < 0 and fileroot.find("eab") >= 0:
             # Initialize the EABoundary object
             ocb = ocbpy.EABoundary(ocbfile, stime=dstart, etime=dend,
                                    instrument=instrument, hemisphere=hemisphere)
-- 
2.43.0


From 45d8f87bb7bc9733eabfe2e14f907ac93d16d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 39/65] fix: keep the components of different vectors apart

---
 ocbpy/instruments/pysat_instruments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 1ab2f57..1f0f6f7 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -492,10 +492,10 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                                   "loc_coord": loc_coord,
                                   "vect_coord": vect_coord,
                                   "height": height[iout]}
-                vector_init = dict(vector_default)
                 vshape = list()
 
                 for eattr in vector_names.keys():
+                    vector_init = dict(vector_default)
                     oattr = "{:s}_{:s}".format(eattr, bname)
                     for ikey in vector_names[eattr].keys():
                         # Not all vector names are DataFrame names
-- 
2.43.0


From d1e7a396065a0fa2f6897d2e97cf6dc360027939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 40/65] fix: keep add_ocb_to_data from altering its input

---
 ocbpy/instruments/pysat_instruments.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 1f0f6f7..c49baea 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -138,6 +138,11 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
     if vector_names is None:
         vector_names = {}
 
+    # Use copies, as these are adjusted below
+    evar_names = list(evar_names)
+    curl_evar_names = list(curl_evar_names)
+    vector_names = {eattr: dict(vector_names[eattr]) for eattr in vector_names}
+
     if not isinstance(pysat_inst, pysat.Instrument):
         raise ValueError('unknown class, expected pysat.Instrument')
 
-- 
2.43.0


From 3e1abaabba30e558ecf58ac07542ca81cc7a7b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 41/65] fix: represent boundary objects that have corrections
 but no records

---
 ocbpy/_boundary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 62b3fa3..9aab4d5 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -203,6 +203,9 @@ class OCBoundary(object):
         # Format the function representations
         if self.rfunc is None:
             repr_rfunc = repr(self.rfunc)
+        elif isinstance(self.rfunc, types.FunctionType):
+            # Without any records there is only one function
+            repr_rfunc = ".".join([self.rfunc.__module__, self.rfunc.__name__])
         else:
             rfuncs = [".".join([ff.__module__, ff.__name__])
                       for ff in self.rfunc]
@@ -214,7 +217,7 @@ class OCBoundary(object):
                     ', '.join(rfuncs))
 
         # Format the function kwarg representations
-        if self.rfunc_kwargs is None:
+        if self.rfunc_kwargs is None or isinstance(self.rfunc_kwargs, dict):
             repr_rfunc_kwargs = repr(self.rfunc_kwargs)
         else:
             rfuncs_kwargs = [repr(rkwarg) for rkwarg in self.rfunc_kwargs]
-- 
2.43.0


From be6a199f5a6273fcc0aa50ebece07146368cf879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 42/65] fix: represent the boundary latitude exactly

---
 ocbpy/_boundary.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 9aab4d5..4fae669 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -232,9 +232,10 @@ class OCBoundary(object):
         out = "".join([class_name, "(filename=", repr(self.filename),
                        ", instrument=", repr(self.instrument),
                        ", hemisphere={:d}, ".format(int(self.hemisphere)),
-                       "boundary_lat={:f}, stime=".format(self.boundary_lat),
-                       repr(stime), ", etime=", repr(etime), ", rfunc=",
-                       repr_rfunc, ", rfunc_kwargs=", repr_rfunc_kwargs, ")"])
+                       "boundary_lat=", repr(float(self.boundary_lat)),
+                       ", stime=", repr(stime), ", etime=", repr(etime),
+                       ", rfunc=", repr_rfunc, ", rfunc_kwargs=",
+                       repr_rfunc_kwargs, ")"])
         return out
 
     def __str__(self):
-- 
2.43.0


From b20c6e6458113c201b1d9fb09355eb415e7a2f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 43/65] fix: find the pole of geographic vectors at several
 heights

---
 ocbpy/ocb_scaling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index daa0298..eef6048 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1101,7 +1101,9 @@ class VectorData(object):
                     mag_pole_slt.append(ocb_time.glon2slt(out[1], val))
                     mag_pole_glat.append(out[0])
             else:
-                mag_pole_glat, mag_pole_lon, _ = aacgmv2.convert_latlon(
+                convert = aacgmv2.convert_latlon_arr if np.ndim(
+                    self.height) > 0 else aacgmv2.convert_latlon
+                mag_pole_glat, mag_pole_lon, _ = convert(
                     hemisphere * 90.0, 0.0, self.height, dtime,
                     method_code='|'.join(methods))
                 mag_pole_slt = ocb_time.glon2slt(mag_pole_lon, dtime)
-- 
2.43.0


From cc2a0ffff6908382164af807394434feb4149a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 44/65] fix: keep the shape of a location converted to magnetic
 coordinates

---
 ocbpy/ocb_scaling.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index eef6048..527692c 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1009,6 +1009,13 @@ class VectorData(object):
                     # Convert to SLT
                     new_lt = ocb_time.glon2slt(new_lon, dtime)
 
+            if dtime is not None:
+                # The conversion routines expand a single location
+                shape = np.broadcast_shapes(self.lat.shape, self.lt.shape,
+                                            np.shape(self.height))
+                new_lat = np.reshape(new_lat, shape)
+                new_lt = np.reshape(new_lt, shape)
+
             # Update the location attributes
             self.lat = np.asarray(new_lat)
             self.lt = np.asarray(new_lt)
-- 
2.43.0


From c7c62bb1fff7299db94ceaa9f60e612d97c91af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:13 +0000
Subject: [PATCH 45/65] fix: keep the shape of one vector adjusted for several
 poles

---
 ocbpy/vectors.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index 288cadf..8df0676 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -678,13 +678,11 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
                     vsigns['east'] * vmag * np.sin(dest_naz_angle)))
                 dest_z = np.full(shape=out_shape, fill_value=vz)
             else:
-                nval = vsigns['north'][norm_mask] * vmag * np.cos(
+                dest_n[norm_mask] = vsigns['north'][norm_mask] * vmag * np.cos(
                     dest_naz_angle)[norm_mask]
-                dest_n = np.full(shape=nval.shape, fill_value=nval)
-                dest_e = np.full(shape=nval.shape, fill_value=(
-                    vsigns['east'][norm_mask] * vmag * np.sin(
-                        dest_naz_angle)[norm_mask]))
-                dest_z = np.full(shape=nval.shape, fill_value=vz)
+                dest_e[norm_mask] = vsigns['east'][norm_mask] * vmag * np.sin(
+                    dest_naz_angle)[norm_mask]
+                dest_z[norm_mask] = vz
         else:
             dest_n[norm_mask] = vsigns['north'][norm_mask] * vmag * np.cos(
                 dest_naz_angle)[norm_mask]
-- 
2.43.0


From f83af5b84786dd0c9e3ef11e08127c599dbc8316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 46/65] fix: read the year and second of year from the named
 time columns

---
 ocbpy/instruments/general.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 4fae7c8..ec5c7d5 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -138,11 +138,15 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
         if datetime_fmt.upper().find("YEAR") >= 0:
             ipart = datetime_fmt.upper().find("YEAR")
             case_part = datetime_fmt[ipart:ipart + 4]
-            int_cols.append(dfmt_parts.index(case_part))
+            icol = dfmt_parts.index(case_part)
+            int_cols.append(datetime_cols[icol] if icol < len(datetime_cols)
+                            else icol)
         if datetime_fmt.upper().find("SOY") >= 0:
             ipart = datetime_fmt.upper().find("SOY")
             case_part = datetime_fmt[ipart:ipart + 3]
-            int_cols.append(dfmt_parts.index(case_part))
+            icol = dfmt_parts.index(case_part)
+            int_cols.append(datetime_cols[icol] if icol < len(datetime_cols)
+                            else icol)
 
     # Open the data file and read the header rows
     with open(filename, "r") as fin:
-- 
2.43.0


From 59101637956a9ef4cde41d5efe4f3387045672fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 47/65] fix: refuse column data that do not fit the named
 columns

---
 ocbpy/instruments/general.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index ec5c7d5..0254e28 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -207,6 +207,10 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     if len(temp.shape) == 1 and nhead > 1 and len(temp) == nhead:
         # There is only a single row of data
         temp = temp.reshape((1, nhead))
+    elif len(temp) > 0 and len(temp.shape) == 1 and nhead > 1:
+        # A lone column can't be assigned to several data names
+        raise ValueError("expected {:d} columns in [{:s}]".format(nhead,
+                                                                  filename))
 
     if len(temp) > 0:
         # When dtype is specified, output comes as a void np.array
-- 
2.43.0


From f24df9e3be73b8cdde6700c17a5b66109f9c8508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:36 +0000
Subject: [PATCH 48/65] fix: refuse SuperMAG lines with an unexpected number of
 columns

---
 ocbpy/instruments/supermag.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ocbpy/instruments/supermag.py b/ocbpy/instruments/supermag.py
index 1666065..b4ca3e3 100644
--- a/ocbpy/instruments/supermag.py
+++ b/ocbpy/instruments/supermag.py
@@ -224,6 +224,11 @@ def load_supermag_ascii_data(filename):
         The dict keys are specified by the header data line, the data
         for each key are stored in the numpy array
 
+    Raises
+    ------
+    IOError
+        If an unexpected data format is encountered
+
     """
 
     fill_val = 999999
@@ -254,6 +259,12 @@ def load_supermag_ascii_data(filename):
                     # This is a date line
                     n = 0
                     lsplit = np.array(line.split(), dtype=int)
+
+                    if len(lsplit) != 7:
+                        raise IOError("".join([
+                            "unexpected line encountered when date line ",
+                            "expected [", line, "]"]))
+
                     dtime = dt.datetime(lsplit[0], lsplit[1], lsplit[2],
                                         lsplit[3], lsplit[4], lsplit[5])
                     snum = lsplit[-1]
@@ -263,6 +274,10 @@ def load_supermag_ascii_data(filename):
                     if len(lsplit) == 2:
                         # This is an index line
                         ind[lsplit[0]] = int(lsplit[1])
+                    elif len(lsplit) != 8:
+                        raise IOError("".join([
+                            "unexpected line encountered when station data ",
+                            "line expected [", line, "]"]))
                     else:
                         # This is a station data line
                         out['YEAR'].append(dtime.year)
-- 
2.43.0


From 0bae30ddeefaffe0780a509c785e2c68ff8e10c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:36 +0000
Subject: [PATCH 49/65] fix: round fractions of a second of day to the
 microsecond

---
 ocbpy/ocb_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index aa7c643..a563dcb 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -190,7 +190,7 @@ def convert_time(year=None, soy=None, yyddd=None, sod=None, date=None,
 
                 if microsec > 0.0:
                     # Add the microseconds to dtime
-                    microsec = np.ceil(microsec * 1.0e6)
+                    microsec = np.round(microsec * 1.0e6)
                     dtime += dt.timedelta(microseconds=int(microsec))
 
     except ValueError as verr:
-- 
2.43.0


From 6c72ba102f1af5d4d87922b0ec7e6191ba4950c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:27 +0000
Subject: [PATCH 50/65] fix: keep the matched boundary when converting one
 vector

---
 ocbpy/ocb_scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 527692c..10e0014 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -680,7 +680,7 @@ class VectorData(object):
             # dependent, we can't call this function with multiple OCB/EABs
             if self.ocb_ind.shape == ():
                 # Initialise the boundary index
-                ocb.rec_ind = self.ocb_ind
+                ocb.rec_ind = int(self.ocb_ind)
 
                 # Calculate the coordinates and save the output
                 out_coord = ocb.normal_coord(self.lat, self.lt,
-- 
2.43.0


From 9c9e0f7404d1af3217ed657d72b17bf2eb3b5e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 51/65] fix: leave northern samples out of southern
 multi-dimensional data

The selection mask accepted every sign that is not below the southern one, so
scaled values were given to locations in the other hemisphere.
---
 ocbpy/instruments/pysat_instruments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index c49baea..6d39c9b 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -331,7 +331,7 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
         combo_shape = [pysat_inst.index.shape[0]]
     else:
         nan_inst = pysat_inst.data.where(np.sign(pysat_inst.data[mlat_name])
-                                         >= hemisphere)
+                                         == hemisphere)
         finite_mask = np.isfinite(nan_inst[pysat_names].to_array().max(
             'variable'))
         dat_coords = [coord for coord in pysat_inst[pysat_names].coords.keys()]
-- 
2.43.0


From 3942e17dce71b934ee1e4e89125442148bccbe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 52/65] fix: give each sample of multi-dimensional data its own
 location

Latitudes, local times, heights and data were combined by the shapes and the
order of their dimensions. When several dimensions had the same length, or the
height was a coordinate, samples were given the locations and values of other
samples. Combine them by the names of the dimensions instead.
---
 ocbpy/instruments/pysat_instruments.py | 198 ++++++++++++-------------
 1 file changed, 92 insertions(+), 106 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 6d39c9b..e874ec0 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -21,6 +21,7 @@ import os
 
 try:
     import pysat
+    import xarray as xr
 except ImportError as ierr:
     err = ''.join(['unable to load the pysat modules; pysat is available at:',
                    '\nhttps://github.com/pysat/pysat'])
@@ -303,12 +304,11 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                         vector_attrs[oattr].append(vector_names[eattr][vinit])
                     vdim += 1
 
-    # Determine how many of the pysat names are variables
-    pysat_var_names = len(pysat_names)
-    if not pysat_inst.pandas_format:
-        for pyname in pysat_names:
-            if pyname in pysat_inst.data.coords:
-                pysat_var_names -= 1
+            # Ensure the components of this vector share their dimensions
+            vdims = [set(pysat_inst[vname].dims) for vname in vector_attrs.get(
+                oattr, []) if not pysat_inst.pandas_format]
+            if len(vdims) > 0 and set().union(*vdims) not in vdims:
+                raise ValueError('mismatched dimensions for VectorData input')
 
     # Append the remaining OCB output names
     for eattr in evar_names:
@@ -327,15 +327,11 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
     if pysat_inst.pandas_format:
         finite_mask = ((np.sign(lat) == hemisphere)
                        & np.isfinite(pysat_inst[:, pysat_names].max(axis=1)))
-        dat_coords = [pysat_inst.index.name]
-        combo_shape = [pysat_inst.index.shape[0]]
     else:
         nan_inst = pysat_inst.data.where(np.sign(pysat_inst.data[mlat_name])
                                          == hemisphere)
         finite_mask = np.isfinite(nan_inst[pysat_names].to_array().max(
             'variable'))
-        dat_coords = [coord for coord in pysat_inst[pysat_names].coords.keys()]
-    dat_ind = np.where(finite_mask)
 
     # Test the OCB data
     if ocb.records == 0:
@@ -343,80 +339,53 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
         return
 
     # Ensure the LT, Lat, and Height data are the same shape
-    if lat.shape != lt.shape or lat.shape[0] != pysat_inst.index.shape[
-            0] or (height.shape != lat.shape and len(height.shape) > 0):
-        if pysat_inst.pandas_format:
+    ocb_coords = [pysat_inst.index.name]
+    if pysat_inst.pandas_format:
+        if lat.shape != lt.shape or (height.shape != lat.shape
+                                     and len(height.shape) > 0):
             raise ValueError('unexpected height shape or bad lat/lt data')
-
+    else:
         # Use local time to set the initial coordinates, since it will have
-        # UT dependence and latitude may not
-        ocb_coords = [lt_coord for lt_coord
-                      in pysat_inst[mlt_name].coords.keys()]
-        combo_shape = list(lt.shape)
-
-        # Expand the coordinates if the lat coordinates are not the
-        # same as the LT coordinates or height coordinatess
-        for lat_coord in pysat_inst[mlat_name].coords:
-            if lat_coord not in pysat_inst[mlt_name].coords:
-                combo_shape.append(pysat_inst[lat_coord].shape[0])
-                ocb_coords.append(lat_coord)
-
-        # Reshape the latitude and local time data if necessary
-        if lat.shape != tuple(combo_shape) or lt.shape != tuple(combo_shape):
-            out_lat, out_lt = np.meshgrid(lat, lt)
-            lat = out_lat.reshape(combo_shape)
-            lt = out_lt.reshape(combo_shape)
+        # UT dependence and latitude may not. If the latitude has other
+        # coordinates these come next.
+        for name in [mlt_name, mlat_name]:
+            ocb_coords.extend([dim for dim in pysat_inst[name].dims
+                               if dim not in ocb_coords])
+        loc_shape = [pysat_inst.data.sizes[dim] for dim in ocb_coords]
 
         # Determine if reshaping for altitude is necessary
-        if len(height.shape) == 0:
-            height = np.full(shape=lat.shape, fill_value=height)
-        elif height.shape != lat.shape:
-            if height_name in pysat_inst.variables:
-                new_coords = False
-                for alt_coord in pysat_inst[height_name].coords:
-                    if alt_coord not in ocb_coords:
-                        combo_shape.append(pysat_inst[alt_coord].shape[0])
-                        ocb_coords.append(alt_coord)
-                        new_coords = True
-
-                # Reshape the data
-                if new_coords:
-                    out_lat, out_height = np.meshgrid(lat, height)
-                    out_lt, _ = np.meshgrid(lt, height)
-                    lat = out_lat.reshape(combo_shape)
-                    height = out_height.reshape(combo_shape)
-                    lt = out_lt.reshape(combo_shape)
-                else:
-                    height = height.reshape(combo_shape)
-            elif len(height.shape) == len(lat.shape):
-                # Try and reshape the height
-                height = height.reshape(combo_shape)
-            else:
+        if height_name in pysat_inst.variables:
+            ocb_coords.extend([dim for dim in pysat_inst[height_name].dims
+                               if dim not in ocb_coords])
+            height = pysat_inst[height_name]
+        elif len(height.shape) > 0:
+            if len(height.shape) != len(loc_shape):
                 # Can't reshape the height
                 raise ValueError('unexpected height shape')
-    else:
-        ocb_coords = [pysat_inst.index.name]
-
-        # Provide an altitude for each location
-        if len(height.shape) == 0:
-            height = np.full(shape=lat.shape, fill_value=height)
-
-    # See if the data has more dimensions than the OCB coordinates
-    if len(dat_coords) > len(ocb_coords):
-        combo_shape = list(lat.shape)
-        for dcoord in dat_coords:
-            if dcoord not in ocb_coords:
-                ocb_coords.append(dcoord)
-                combo_shape.append(pysat_inst[dcoord].shape[0])
-
-        # Reverse and transpose the arrays
-        combo_shape.reverse()
-        out_lat = np.full(shape=combo_shape, fill_value=lat.transpose())
-        out_lt = np.full(shape=combo_shape, fill_value=lt.transpose())
-        out_height = np.full(shape=combo_shape, fill_value=height.transpose())
-        lat = out_lat.transpose()
-        lt = out_lt.transpose()
-        height = out_height.transpose()
+
+            # Try and reshape the height
+            height = xr.DataArray(height.reshape(loc_shape), dims=ocb_coords)
+
+        # See if the data has more dimensions than the OCB coordinates
+        ocb_coords.extend([dim for dim in finite_mask.dims
+                           if dim not in ocb_coords])
+        combo_shape = [pysat_inst.data.sizes[dim] for dim in ocb_coords]
+
+        # Provide each sample with its location, using the named dimensions
+        lat = expand_to_coords(pysat_inst[mlat_name], ocb_coords, combo_shape)
+        lt = expand_to_coords(pysat_inst[mlt_name], ocb_coords, combo_shape)
+        finite_mask = xr.DataArray(expand_to_coords(finite_mask, ocb_coords,
+                                                    combo_shape),
+                                   dims=ocb_coords)
+
+        if len(height.shape) > 0:
+            height = expand_to_coords(height, ocb_coords, combo_shape)
+
+    dat_ind = np.where(finite_mask)
+
+    # Provide an altitude for each location
+    if len(height.shape) == 0:
+        height = np.full(shape=lat.shape, fill_value=height)
 
     # Initialise the OCB output
     ocb_output = dict()
@@ -454,18 +423,11 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
         if idat < ndat and ocb.rec_ind < ocb.records:
             time_ind = np.where(dat_ind[0] == uind[idat])[0]
 
-            if len(dat_coords) > 1:
+            if len(ocb_coords) > 1:
                 iout = tuple(dind[time_ind] for dind in dat_ind)
-                if pysat_var_names > 1:
-                    # If there is more than one variable, need to downselect
-                    time_sel = pysat_inst[pysat_names].to_array().max(
-                        'variable')
-                else:
-                    time_sel = pysat_inst[pysat_names]
-
-                time_mask = np.isfinite(time_sel.where(
-                    finite_mask & (pysat_inst[pysat_inst.index.name]
-                                   == pysat_inst.index[uind][idat])))
+                time_mask = finite_mask.copy()
+                time_mask[:uind[idat]] = False
+                time_mask[uind[idat] + 1:] = False
                 vind = iout[0]
             else:
                 iout = dat_ind[0][time_ind]
@@ -598,6 +560,33 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
     return
 
 
+def expand_to_coords(data, coords, shape):
+    """Reshape and pad data to provide a value along all of the coordinates.
+
+    Parameters
+    ----------
+    data : xr.DataArray
+        Data whose dimensions are all among the desired ones
+    coords : list
+        Names of the desired dimensions
+    shape : list
+        Number of values along each of the desired dimensions
+
+    Returns
+    -------
+    array : np.array
+        Array with the desired dimensions, constant along those that the
+        input data does not have
+
+    """
+    data = data.transpose(*[coord for coord in coords if coord in data.dims])
+    ind = tuple(slice(None) if coord in data.dims else np.newaxis
+                for coord in coords)
+    array = np.full(shape=tuple(shape), fill_value=data.values[ind])
+
+    return array
+
+
 def reshape_pad_mask_flatten(data, mask):
     """Reshape, pad, mask, and flatten data.
 
@@ -616,26 +605,23 @@ def reshape_pad_mask_flatten(data, mask):
     """
     if np.all(mask.dims == data.dims):
         if mask.shape == data.shape:
-            flat = data.where(mask, drop=True).values.flatten()
+            flat = data.values[mask.values]
         else:
             raise ValueError('different shapes for the same dimesions')
     else:
-        # Reshape this data variable for existing dims
-        data_dims = [dim for dim in mask.dims if dim in data.dims]
-        flat = data.transpose(*data_dims, ...).values
-
-        # Pad by adding the additional dimensions if needed
-        if len(data_dims) < len(mask.dims):
-            try:
-                flat = np.full(shape=tuple(reversed(list(mask.shape))),
-                               fill_value=flat.transpose()).transpose()
-            except Exception as xerr:
-                # Using Exception instead of AssertionError because the
-                # catch is not consistent
-                raise ValueError(''.join(['vector variables must all have the',
-                                          ' same shape, {:}'.format(xerr)]))
-
-        flat = flat[mask.values].flatten()
+        # Reshape this data variable for the existing dims, adding the others
+        try:
+            if mask.dims[0] not in data.dims:
+                raise ValueError('missing {:}'.format(mask.dims[0]))
+
+            flat = expand_to_coords(data, mask.dims, mask.shape)
+        except Exception as xerr:
+            # Using Exception instead of AssertionError because the
+            # catch is not consistent
+            raise ValueError(''.join(['vector variables must all have the',
+                                      ' same shape, {:}'.format(xerr)]))
+
+        flat = flat[mask.values]
 
     return flat
 
-- 
2.43.0


From ac3ef7d1407c5dfa5acf7808bfd1b91b7140eb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 53/65] fix: leave vectors without defined components undefined

When every vector handed to one conversion had undefined components, such as
the only sample of a time, the conversion raised an error instead of leaving
the converted vector undefined.
---
 ocbpy/vectors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index 8df0676..a103d7d 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -565,7 +565,8 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
     # Determine the special case assignments
     zero_mask = (vect_n == 0.0) & (vect_e == 0.0)
     ns_mask = (pole_angle == 0.0) | (pole_angle == 180.0)
-    norm_mask = ~(zero_mask + ns_mask)
+    nan_mask = np.isnan(vect_n) | np.isnan(vect_e) | np.isnan(pole_angle)
+    norm_mask = ~(zero_mask + ns_mask + nan_mask)
 
     # There's nothing to adjust if there is no magnitude
     if np.any(zero_mask):
-- 
2.43.0


From 20e4f677b646e2f0bcb9f3c4a87d02752d9a6c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:38 +0000
Subject: [PATCH 54/65] fix: accept every documented instrument for default EAB
 files

---
 ocbpy/_boundary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 4fae669..896c9aa 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -988,7 +988,8 @@ class EABoundary(OCBoundary):
 
         """
 
-        if input_instrument in ["", "default", "image", "dmsp-ssj", "ampere"]:
+        if input_instrument in ["", "default", "image", "si12", "si13", "wic",
+                                "dmsp-ssj", "ampere"]:
             self.rfunc = ocbcor.circular
         elif not hasattr(input_instrument, "lower"):
             # Allow an empty class object to be initialised
-- 
2.43.0


From ebb850c75ace4096d925fbb60488ef1e2589c237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 55/65] fix: reduce magnetic local times before converting them
 to longitude

aacgmv2 never returns from convert_mlt for huge local times, such as fill
values, because it brings them into range one day at a time.
---
 ocbpy/_boundary.py   | 8 +++++---
 ocbpy/ocb_scaling.py | 8 ++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 896c9aa..8cf9836 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -824,7 +824,8 @@ class OCBoundary(object):
                 # Calculate the longitude at this time
                 if set_lon:
                     bound_lon = np.asarray(aacgmv2.convert_mlt(
-                        aacgm_mlt, self.dtime[i], m2a=True))
+                        ocb_time.fix_range(aacgm_mlt, 0.0, 24.0),
+                        self.dtime[i], m2a=True))
 
                 # Save the boundary location at this time
                 self.aacgm_boundary_lat[i] = bound_lat
@@ -1694,8 +1695,9 @@ class DualBoundary(object):
             if coords.lower().find('mag') < 0 and imag.any():
 
                 # Convert from mlt to longitude
-                lon = aacgmv2.convert_mlt(aacgm_mlt[imag],
-                                          self.dtime[self.rec_ind], m2a=True)
+                lon = aacgmv2.convert_mlt(
+                    ocb_time.fix_range(aacgm_mlt[imag], 0.0, 24.0),
+                    self.dtime[self.rec_ind], m2a=True)
 
                 # If geocentric coordinates are specified, add this info to the
                 # method flag
diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 10e0014..26a1c09 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -989,7 +989,9 @@ class VectorData(object):
                     method = "|".join(methods)
                     for i, val in enumerate(dtimes):
                         # Get the longitude for this time
-                        lon = aacgmv2.convert_mlt(self.lt[i], val, m2a=True)
+                        lon = aacgmv2.convert_mlt(
+                            ocb_time.fix_range(self.lt[i], 0.0, 24.0), val,
+                            m2a=True)
 
                         # Convert latitude and longitude
                         out = aacgmv2.convert_latlon(
@@ -1000,7 +1002,9 @@ class VectorData(object):
                         new_lat.append(out[0])
                 else:
                     # Get the longitude
-                    lon = aacgmv2.convert_mlt(self.lt, dtime, m2a=True)
+                    lon = aacgmv2.convert_mlt(
+                        ocb_time.fix_range(self.lt, 0.0, 24.0), dtime,
+                        m2a=True)
 
                     # Convert latitude and longitude
                     new_lat, new_lon, _ = aacgmv2.convert_latlon_arr(
-- 
2.43.0


From 0dd25fde19b7b2654c5a7842aa290479f0e0ed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:33 +0000
Subject: [PATCH 56/65] fix: refuse ranges too small to bring values within the
 limits

fix_range never ended when the value range was below the resolution of a
limit, as subtracting it changed nothing.
---
 ocbpy/ocb_time.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index a563dcb..793c51a 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -432,6 +432,11 @@ def fix_range(values, min_val, max_val, val_range=None):
     if val_range <= 0.0:
         raise ValueError('Value range must be greater than zero')
 
+    # Adding a range below the resolution of the limits would change nothing
+    if np.any(val_range <= np.spacing(
+            np.abs([float(min_val), float(max_val)]) + val_range)):
+        raise ValueError('Value range is too small for these limits')
+
     # Cast output as an array that does not share memory with the input and
     # can hold the adjusted values
     fixed_vals = np.array(values)
-- 
2.43.0


From ed0308e4187c3c8fc3d569aa07b085134386ffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 57/65] fix: print the period that holds all records of a
 boundary

The printed form gave the times of the first and last record, which loses
records of unsorted files, and no period at all for a boundary without records
in the requested one, which loads all of the file.
---
 ocbpy/_boundary.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 8cf9836..a87510c 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -171,6 +171,7 @@ class OCBoundary(object):
         self.rfunc_kwargs = rfunc_kwargs
         self.min_fom = -np.inf
         self.max_fom = np.inf
+        self._period = (None, None)
 
         # Get the instrument defaults
         hlines, ocb_cols, datetime_fmt = self.inst_defaults()
@@ -196,9 +197,13 @@ class OCBoundary(object):
         """Provide an evaluatable representation of the OCBoundary object."""
         class_name = repr(self.__class__).split("'")[1]
 
-        # Get the start and end times
-        stime = None if self.records == 0 else self.dtime[0]
-        etime = None if self.records == 0 else self.dtime[-1]
+        # Get the start and end times, which the records may not be sorted by.
+        # Without any records, only the requested period keeps it that way
+        if self.records == 0:
+            stime, etime = self._period
+        else:
+            stime = min(self.dtime)
+            etime = max(self.dtime)
 
         # Format the function representations
         if self.rfunc is None:
@@ -426,6 +431,7 @@ class OCBoundary(object):
         # Load the required information not contained in odata
         self.records = len(dt_list)
         self.dtime = np.array(dt_list)
+        self._period = (stime, etime)
 
         # Set the boundary function
         if self.rfunc is None:
-- 
2.43.0


From 7d6b468cac54297e3e75992bdb86bca807c4a21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 58/65] fix: keep the boundary pairs if selecting others fails

---
 ocbpy/_boundary.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index a87510c..8d8334d 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1368,13 +1368,15 @@ class DualBoundary(object):
             # Reset the EAB index
             self.eab.rec_ind = icurrent
 
-        # Set the class attributes as arrays
-        self.dtime = np.asarray(dtime)
-        self.ocb_ind = np.asarray(ocb_ind)
-        self.eab_ind = np.asarray(eab_ind)
-
-        # Set the number of good paired records
-        self.records = len(self.dtime)
+        # Cast the pairs as arrays
+        dtime = np.asarray(dtime)
+        ocb_ind = np.asarray(ocb_ind)
+        eab_ind = np.asarray(eab_ind)
+
+        # Set the class attributes and number of good paired records, keeping
+        # the previous selection if anything above fails
+        self.dtime, self.ocb_ind, self.eab_ind, self.records = (
+            dtime, ocb_ind, eab_ind, len(dtime))
 
         # Set the data to the first good record
         self.rec_ind = 0
-- 
2.43.0


From 65014a962d8c4c48437187d9c916410b373cd376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:53 +0000
Subject: [PATCH 59/65] fix: load other periods into a boundary that has been
 loaded before

---
 ocbpy/_boundary.py | 105 +++++++++++++++++++++++++++++++--------------
 1 file changed, 73 insertions(+), 32 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 8d8334d..9459541 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -172,6 +172,7 @@ class OCBoundary(object):
         self.min_fom = -np.inf
         self.max_fom = np.inf
         self._period = (None, None)
+        self._corr_input = dict()
 
         # Get the instrument defaults
         hlines, ocb_cols, datetime_fmt = self.inst_defaults()
@@ -384,11 +385,7 @@ class OCBoundary(object):
             self.filename, skip_header=hlines, dtype=ldtype)))
         oname = list(odata.dtype.names)
 
-        # Load the data into the OCBoundary object
-        #
         # Start by getting the time and location in the desired format
-        self.rec_ind = -1
-
         dt_list = list()
         if stime is None and etime is None:
             itime = np.arange(0, odata.shape[0], 1)
@@ -428,37 +425,63 @@ class OCBoundary(object):
             odata.phi_cent[odata.phi_cent < 0.0] += 360.0
             oname.append("phi_cent")
 
-        # Load the required information not contained in odata
-        self.records = len(dt_list)
-        self.dtime = np.array(dt_list)
-        self._period = (stime, etime)
+        # Get the requested boundary corrections, which an earlier load replaced
+        # by one value for each of its records
+        rfunc, rfunc_kwargs = [
+            self._corr_input[key][0] if key in self._corr_input
+            and value is self._corr_input[key][1] else value
+            for key, value in [('rfunc', self.rfunc),
+                               ('rfunc_kwargs', self.rfunc_kwargs)]]
+        corr_input = (rfunc, rfunc_kwargs)
+
+        # Prepare everything that may fail before changing the object
+        records = len(dt_list)
+        dtime = np.array(dt_list)
+        data = {nn: getattr(odata, nn)[itime] for nn in oname}
+
+        # Test the boundary function
+        if rfunc is None:
+            rfunc = self._get_default_rfunc()
 
-        # Set the boundary function
-        if self.rfunc is None:
-            self._set_default_rfunc()
-        elif isinstance(self.rfunc, types.FunctionType):
-            self.rfunc = np.full(shape=self.records, fill_value=self.rfunc)
-        elif hasattr(self.rfunc, "shape"):
-            if self.rfunc.shape != self.dtime.shape:
+        if isinstance(rfunc, types.FunctionType):
+            rfunc = np.full(shape=records, fill_value=rfunc)
+        elif hasattr(rfunc, "shape"):
+            if rfunc.shape != dtime.shape:
                 raise ValueError("Misshaped correction function array")
         else:
             raise ValueError("Unknown input type for correction function")
 
-        # Set the boundary function keyword inputs
-        if self.rfunc_kwargs is None:
-            self.rfunc_kwargs = np.full(shape=self.records, fill_value={})
-        elif isinstance(self.rfunc_kwargs, dict):
-            self.rfunc_kwargs = np.full(shape=self.records,
-                                        fill_value=self.rfunc_kwargs)
-        elif hasattr(self.rfunc_kwargs, "shape"):
-            if self.rfunc_kwargs.shape != self.dtime.shape:
+        # Test the boundary function keyword inputs
+        if rfunc_kwargs is None:
+            rfunc_kwargs = np.full(shape=records, fill_value={})
+        elif isinstance(rfunc_kwargs, dict):
+            rfunc_kwargs = np.full(shape=records, fill_value=rfunc_kwargs)
+        elif hasattr(rfunc_kwargs, "shape"):
+            if rfunc_kwargs.shape != dtime.shape:
                 raise ValueError("Misshaped correction function keyword array")
         else:
             raise ValueError("Unknown input type for correction keywords")
 
+        # Load the required information not contained in odata
+        self.rec_ind = -1
+        self.records = records
+        self.dtime = dtime
+        self._period = (stime, etime)
+
+        # Set the boundary function and its keyword inputs
+        self.rfunc = rfunc
+        self.rfunc_kwargs = rfunc_kwargs
+        self._corr_input = {'rfunc': (corr_input[0], rfunc),
+                            'rfunc_kwargs': (corr_input[1], rfunc_kwargs)}
+
         # Load the attributes saved in odata
         for nn in oname:
-            setattr(self, nn, getattr(odata, nn)[itime])
+            setattr(self, nn, data[nn])
+
+        # Boundary locations of an earlier load belong to other records
+        for nn in ["lat", "mlt", "lon"]:
+            if hasattr(self, "aacgm_boundary_" + nn):
+                delattr(self, "aacgm_boundary_" + nn)
 
         return
 
@@ -884,6 +907,30 @@ class OCBoundary(object):
         # Calculate the latitude of the OCB in AACGM coordinates
         return self.hemisphere * (90.0 - rad)
 
+    def _get_default_rfunc(self):
+        """Get the default instrument OCB boundary function.
+
+        Returns
+        -------
+        rfunc : function
+            Function for the boundary correction of each record
+
+        Raises
+        ------
+        ValueError
+            If there is no default for this instrument
+
+        """
+
+        if self.instrument in ["image", "dmsp-ssj"]:
+            rfunc = ocbcor.circular
+        elif self.instrument == "ampere":
+            rfunc = ocbcor.elliptical
+        else:
+            raise ValueError("unknown instrument: {:}".format(self.instrument))
+
+        return rfunc
+
     def _set_default_rfunc(self):
         """Set the default instrument OCB boundary function.
 
@@ -894,14 +941,8 @@ class OCBoundary(object):
 
         """
 
-        if self.instrument in ["image", "dmsp-ssj"]:
-            self.rfunc = np.full(shape=self.records,
-                                 fill_value=ocbcor.circular)
-        elif self.instrument == "ampere":
-            self.rfunc = np.full(shape=self.records,
-                                 fill_value=ocbcor.elliptical)
-        else:
-            raise ValueError("unknown instrument: {:}".format(self.instrument))
+        self.rfunc = np.full(shape=self.records,
+                             fill_value=self._get_default_rfunc())
 
         return
 
-- 
2.43.0


From 3f868cdcc87a66ef137533b1b6b5353acb397efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:53 +0000
Subject: [PATCH 60/65] fix: forget stored longitudes of other boundary local
 times

---
 ocbpy/_boundary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 9459541..7eaae31 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -862,6 +862,9 @@ class OCBoundary(object):
 
                 if set_lon:
                     self.aacgm_boundary_lon[i] = bound_lon
+                elif hasattr(self, 'aacgm_boundary_lon'):
+                    # Longitudes of an earlier call are at other local times
+                    self.aacgm_boundary_lon[i] = None
             else:
                 logger.warning("".join(["unable to update AACGM boundary ",
                                         "latitude at {:}".format(self.dtime[i]),
-- 
2.43.0


From 754ee25503286eb20862009fa27b38bd17e6f3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:53 +0000
Subject: [PATCH 61/65] fix: locate the geographic pole of a vector without
 tracing

---
 ocbpy/ocb_scaling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 26a1c09..9886c1f 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1094,7 +1094,8 @@ class VectorData(object):
                 dtime = dtimes
 
             # Set the AACGM coordinates of the geographic pole
-            methods = [trace_method]
+            # without tracing, because tracing from the pole never ends
+            methods = list()
             if self.vect_coord == "geocentric":
                 methods.append(self.vect_coord.upper())
             methods.append("A2G")
@@ -1133,6 +1134,8 @@ class VectorData(object):
                                                           pole_angle)
                 vect_quad = vectors.define_vect_quadrants(self.vect_n,
                                                           self.vect_e)
+            else:
+                pole_quad = vect_quad = np.zeros(shape=pole_angle.shape)
 
             # Adjust the geographic vector to AACGM coordinates
             mag_n, mag_e, mag_z = vectors.adjust_vector(
-- 
2.43.0


From 99022ee8da2303326623ff420aa720f0f2129965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:53 +0000
Subject: [PATCH 62/65] fix: trace vector locations as asked and convert those
 of magnetic vectors

---
 ocbpy/ocb_scaling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 9886c1f..83dc7fe 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -670,7 +670,9 @@ class VectorData(object):
         # Update the data values to be in magnetic coordinates
         dtime = ocb.dtime[self.ocb_ind] if self.ocb_ind.shape == () else [
             ocb.dtime[ind] for ind in self.ocb_ind]
-        self.update_vect_coords_to_mag(dtime, ocb.hemisphere)
+        self.update_vect_coords_to_mag(dtime, ocb.hemisphere,
+                                       trace_method=trace_method)
+        self.update_loc_coords(dtime, trace_method=trace_method)
 
         # If the OCB vector coordinates weren't included in the initial info,
         # update them here
-- 
2.43.0


From 3ae69bb03bfc8b1824be2f5440217cb3d5cc501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:42 +0000
Subject: [PATCH 63/65] fix: name the columns and metadata of pysat variables
 called after boundaries

Vectors with '_ocb_' (or, for other boundaries, 'ocb') in their own name
had it removed from the names of their columns, so that the columns of
two vectors could become one, and the metadata of such columns belonged to
another variable.
---
 ocbpy/instruments/pysat_instruments.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index e874ec0..dd17fe3 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -252,6 +252,10 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
     ocb_vect_attrs = ['ocb_n', 'ocb_e', 'ocb_z', 'ocb_mag', 'unscaled_r',
                       'scaled_r']
 
+    # The vector column names end with these, whatever the vector is called
+    vect_suffix = {vattr: '_'.join(['', bname, vattr]).replace('_ocb_', '_')
+                   for vattr in ocb_vect_attrs}
+
     # Get a list of all necessary pysat data names
     pysat_names = [mlat_name, mlt_name]
 
@@ -389,17 +393,18 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
 
     # Initialise the OCB output
     ocb_output = dict()
+    data_names = dict()
     for oattr in ocb_names:
         eattr = oattr[:-1 * len(bname) - 1]
         if eattr in vector_names.keys():
             for vattr in ocb_vect_attrs:
-                ovattr = '_'.join([oattr, vattr])
-                ovattr = ovattr.replace('_ocb_', '_')
-                if bname != "ocb":
-                    ovattr = ovattr.replace("ocb", bname)
+                ovattr = "".join([eattr, vect_suffix[vattr]])
                 ocb_output[ovattr] = np.full(lat.shape, np.nan, dtype=float)
+                data_names[ovattr] = eattr if vect_suffix[vattr].find(
+                    bname) >= 0 else ovattr
         else:
             ocb_output[oattr] = np.full(lat.shape, np.nan, dtype=float)
+            data_names[oattr] = eattr
 
     # Cycle through the data, matching data and OCB records
     idat = 0
@@ -486,8 +491,7 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
 
                     # Assign the vector attributes to the output
                     for vattr in ocb_vect_attrs:
-                        ovattr = '_'.join([oattr, vattr])
-                        ovattr = ovattr.replace('_ocb_', '_')
+                        ovattr = "".join([eattr, vect_suffix[vattr]])
                         ocb_output[ovattr][iout] = getattr(vout, vattr)
 
             if hasattr(ocb, "ocb"):
@@ -527,7 +531,7 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
             pysat_inst.data = pysat_inst.data.assign(set_data)
 
         # Update the pysat Metadata
-        eattr = oattr.split('_{:s}'.format(bname))[0]
+        eattr = data_names[oattr]
         if hasattr(ocb, "instrument"):
             notes = "".join(["Boundary obtained from ", ocb.instrument,
                              " data in file ", ocb.filename,
@@ -656,7 +660,7 @@ def add_ocb_to_metadata(pysat_inst, ocb_name, pysat_name, overwrite=False,
                   "dualb": "Dual Boundary", "": ""}
 
     bname = ""
-    for bkey in ocb_name.split("_"):
+    for bkey in reversed(ocb_name.split("_")):
         if len(bkey) > 0 and bkey in bound_desc.keys():
             bname = bkey
             break
-- 
2.43.0


From 5e7ab219038b1062a4fb190b3cefc75bccad68ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:16 +0000
Subject: [PATCH 64/65] fix: convert vectors again after their location or the
 boundary changed

---
 ocbpy/ocb_scaling.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 83dc7fe..57ffc4f 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -674,6 +674,12 @@ class VectorData(object):
                                        trace_method=trace_method)
         self.update_loc_coords(dtime, trace_method=trace_method)
 
+        # Boundary coordinates calculated by an earlier call may belong to
+        # another location or boundary
+        if self._calc_coords:
+            self._clear_calc_coords()
+            self.clear_data()
+
         # If the OCB vector coordinates weren't included in the initial info,
         # update them here
         if(np.all(np.isnan(self.ocb_lat)) or np.all(np.isnan(self.ocb_mlt))
-- 
2.43.0


From 19ddc1e2e36878b04e841da6be7643aa17189b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:16 +0000
Subject: [PATCH 65/65] fix: rotate vectors with whole-number vertical
 components

---
 ocbpy/vectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index a103d7d..e7f0e7d 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -656,7 +656,7 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
         if len(vect_z.shape) == 0:
             vz = vect_z
         else:
-            vz = vect_z[norm_mask]
+            vz = vect_z[norm_mask].astype(float)
             nan_mask = np.isnan(vmag) | (
                 np.isnan(dest_naz_angle) if len(dest_naz_angle.shape) == 0
                 else np.isnan(dest_naz_angle[norm_mask]))
-- 
2.43.0

