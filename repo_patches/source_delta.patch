From 48f05af1d0479e48f63e50b082984157f6fdb1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 01/76] fix: index normalisation must not change the selected
 elements

Negative integers addressing the last element and integer arrays that are not contiguous and increasing were turned
into slices selecting other elements.
---
 src/ocgis/util/helpers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index d5d76b1..697ce62 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -445,7 +445,8 @@ def get_formatted_slice(slc, n_dims):
             pass
 
         if isinstance(single_slc, int):
-            ret = slice(single_slc, single_slc + 1)
+            # The last element may be addressed with a negative index. A stop of zero selects nothing in this case.
+            ret = slice(single_slc, single_slc + 1 or None)
         elif isinstance(single_slc, slice):
             ret = single_slc
         elif isinstance(single_slc, np.ndarray):
@@ -625,11 +626,13 @@ def get_optimal_slice_from_array(arr, check_diff=True):
     if arr.dtype == bool:
         ret = arr
     else:
-        if check_diff and np.any(np.diff(arr) > 1):
+        # Only contiguous, increasing indices select the same elements as a slice.
+        if check_diff and (np.any(np.diff(arr) != 1) or (arr[0] < 0 and arr[-1] >= 0)):
             ret = arr
         else:
             arr_min, arr_max = arr.min(), arr.max()
-            ret = slice(arr_min, arr_max + 1)
+            # A stop of zero selects nothing if the indices are negative.
+            ret = slice(arr_min, None if arr_max == -1 else arr_max + 1)
     return ret
 
 
-- 
2.43.0


From 6b7b56d75b85f3152b30e83b087302cc24f42904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 02/76] fix: sliced dimensions have the length and source index
 of the selected elements

Open-ended, negative and overlong slices gave wrong lengths or errors, and negative integer indices gave wrong source
positions.
---
 src/ocgis/variable/dimension.py | 51 ++++++---------------------------
 1 file changed, 9 insertions(+), 42 deletions(-)

diff --git a/src/ocgis/variable/dimension.py b/src/ocgis/variable/dimension.py
index 26454c4..83dd901 100644
--- a/src/ocgis/variable/dimension.py
+++ b/src/ocgis/variable/dimension.py
@@ -407,29 +407,8 @@ class Dimension(AbstractNamedObject):
         try:
             length = len(slc)
         except TypeError:
-            # Likely a slice object.
-            try:
-                length = slc.stop - slc.start
-            except TypeError:
-                # Likely a NoneType slice.
-                if slc.start is None:
-                    if slc.stop is not None and slc.stop > 0:
-                        length = length_self
-                    elif slc.stop is None:
-                        length = length_self
-                    else:
-                        length = length_self + slc.stop
-                elif slc.stop is None:
-                    if slc.start > 0:
-                        length = length_self - slc.start
-                    else:
-                        length = abs(slc.start)
-                else:
-                    raise
-            else:
-                # If the slice length is greater than the current length, keep the length the same.
-                if length > length_self:
-                    length = length_self
+            # Likely a slice object. Slices may be open-ended, negative, or extend past the dimension's length.
+            length = len(range(*slc.indices(length_self)))
         else:
             try:
                 # Check for boolean slices.
@@ -439,10 +418,6 @@ class Dimension(AbstractNamedObject):
                 # Likely a list/tuple.
                 pass
 
-        if length < 0:
-            # This is using negative indexing. Subtract from the current length.
-            length += length_self
-
         # Slice the source index. If the source index is None, a value of None will be returned by the slice operation.
         src_idx = slice_source_index(slc, ret._src_idx)
 
@@ -526,22 +501,14 @@ def slice_source_index(slc, src_idx):
                 if isinstance(slc, np.ndarray):
                     if slc.dtype == bool:
                         slc = np.where(slc)[0]
-                    src_idx = slc + offset
+                    # Negative indices count from the end of the source index.
+                    src_idx = np.where(slc < 0, slc + (src_idx[1] - offset), slc) + offset
                 else:
-                    new_si = np.array(src_idx) - offset
-                    start, stop = slc.start, slc.stop
-
-                    if start < 0:
-                        new_si[0] = new_si[1] + start
-                    elif start > new_si[0]:
-                        new_si[0] = start
-
-                    if stop < 0:
-                        new_si[1] = new_si[1] + stop
-                    elif stop < new_si[1]:
-                        new_si[1] = stop
-                    new_si += offset
-                    src_idx = tuple(new_si)
+                    start, stop, step = slc.indices(src_idx[1] - offset)
+                    if step == 1:
+                        src_idx = (offset + start, offset + max(start, stop))
+                    else:
+                        src_idx = np.arange(start, stop, step) + offset
         else:
             src_idx = None
     return src_idx
-- 
2.43.0


From ad6662ba262e470b74b85f19357269c9fed21b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 03/76] fix: iter_spatial_decomposition yields the requested
 chunk

---
 src/ocgis/spatial/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/base.py b/src/ocgis/spatial/base.py
index 2ff36b3..fc0d5e5 100644
--- a/src/ocgis/spatial/base.py
+++ b/src/ocgis/spatial/base.py
@@ -787,7 +787,7 @@ def iter_spatial_decomposition(sobj, splits, **kwargs):
         if yield_idx is not None:
             if ctr < yield_idx:
                 continue
-            else:
+            elif ctr > yield_idx:
                 break
         yield sobj.get_intersects(sp, **kwargs)
     # ------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From ed450eae9d923edbac77dccae70acc6d759a4af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 04/76] fix: touching test of vectorised grids reads the
 column's own flag

---
 src/ocgis/spatial/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index a22add9..ac78d57 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -1246,7 +1246,7 @@ def get_hint_mask_from_geometry_bounds(grid, bbox, invert=True, no_touching=Fals
             for ii in range(grid.shape[0]):
                 ety[ii, :] = ty[ii]
             for jj in range(grid.shape[1]):
-                etx[:, jj] = tx[ii]
+                etx[:, jj] = tx[jj]
             tx = etx
             ty = ety
         if np.any(np.logical_and(tx, ty)):
-- 
2.43.0


From 0df5aa413f7b76c4319be248a31b9c8a47baf426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 05/76] fix: SCRIP destination slices accept the requested
 chunk index

---
 src/ocgis/driver/nc_scrip.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/driver/nc_scrip.py b/src/ocgis/driver/nc_scrip.py
index 8923775..cebef30 100644
--- a/src/ocgis/driver/nc_scrip.py
+++ b/src/ocgis/driver/nc_scrip.py
@@ -96,7 +96,7 @@ class DriverNetcdfSCRIP(AbstractUnstructuredDriver, DriverNetcdf):
         return field
 
     @staticmethod
-    def _gc_iter_dst_grid_slices_(grid_chunker):
+    def _gc_iter_dst_grid_slices_(grid_chunker, yield_idx=None):
         # TODO: This method uses some global gathers which is not ideal.
         # Destination splitting works off center coordinates only.
         pgc = grid_chunker.dst_grid.abstractions_available['point']
@@ -117,8 +117,10 @@ class DriverNetcdfSCRIP(AbstractUnstructuredDriver, DriverNetcdf):
         else:
             ucenter_splits = [None] * grid_chunker.nchunks_dst[0]
 
-        for ucenter_split in ucenter_splits:
+        for ctr, ucenter_split in enumerate(ucenter_splits):
             ucenter_split = vm.bcast(ucenter_split)
+            if yield_idx is not None and yield_idx != ctr:
+                continue
             select = np.zeros_like(center_lat, dtype=bool)
             for v in ucenter_split.flat:
                 select = np.logical_or(select, center_lat == v)
-- 
2.43.0


From 50a2628133d70ef6bf4a90d91dbbaed87cb56b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:57 +0000
Subject: [PATCH 06/76] fix: short dimensions are held by one rank instead of
 none

---
 src/ocgis/vmachine/mpi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/vmachine/mpi.py b/src/ocgis/vmachine/mpi.py
index 2cabba3..030d0ba 100644
--- a/src/ocgis/vmachine/mpi.py
+++ b/src/ocgis/vmachine/mpi.py
@@ -335,7 +335,8 @@ class OcgDist(AbstractOcgisObject):
                 # Use the minimum number of elements per rank to potentially adjust the size.
                 min_size = int(np.floor(len(distributed_dimension) / float(min_elements)))
                 if self.size > 1 and min_size < the_size:
-                    the_size = min_size
+                    # There is always one rank holding the elements of a dimension too short for the minimum.
+                    the_size = max(min_size, 1)
 
                 # Fix the global bounds.
                 distributed_dimension.bounds_global = (0, len(distributed_dimension))
-- 
2.43.0


From a58f3f921f045c3403f6d350973a31a598fe8600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 07/76] fix: grid rows without negative longitudes may be
 reordered

---
 src/ocgis/spatial/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index ac78d57..ecbf34d 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -768,7 +768,8 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
 
         shift_indices = np.zeros(self.shape[0], dtype=int)
         for row_index in range(wrapped.shape[0]):
-            the_split_index = None
+            # Rows without negative coordinates are not shifted.
+            the_split_index = 0
             for ctr, element in enumerate(wrapped[row_index].flat):
                 if element < 0:
                     the_split_index = ctr
-- 
2.43.0


From 8159e42839b76fb08c13cc7027d40a54639d0107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 08/76] fix: reordering a vectorized grid moves bounds and
 other vectors along with the coordinates

---
 src/ocgis/spatial/grid.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index ecbf34d..7f26a63 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -778,13 +778,13 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
 
         if self.is_vectorized:
             shift_indices[:] = shift_indices[0]
-            reorder_array(shift_indices, self.x.get_value().reshape(1, -1), get_dimension_names(self.dimensions),
-                          reorder_dimension, varying_dimension)
 
-        # Reorder all arrays that have the reorder and varying dimension.
+        # Reorder all arrays that have the reorder and varying dimension. The shift does not vary with vectorized
+        # coordinates, hence arrays having only the reorder dimension (like coordinates and their bounds) move too.
         for var in list(self.parent.values()):
             arr_dimension_names = get_dimension_names(var.dimensions)
-            if reorder_dimension in arr_dimension_names and varying_dimension in arr_dimension_names:
+            if reorder_dimension in arr_dimension_names and (
+                    self.is_vectorized or varying_dimension in arr_dimension_names):
                 reorder_array(shift_indices, var.get_value(), arr_dimension_names, reorder_dimension, varying_dimension)
                 if var.has_masked_values:
                     mask = var.get_mask()
@@ -1360,13 +1360,14 @@ def reorder_array(reorder_indices, arr, arr_dimensions, reorder_dimension, varyi
     :param arr_dimensions: Dimension names for ``arr``.
     :type arr_dimensions: sequence of strings
     :param str reorder_dimension: The dimension in ``arr`` to reorder.
-    :param str varying_dimension: The dimension in ``arr`` across which the ``reorder_dimension`` varies.
+    :param str varying_dimension: The dimension in ``arr`` across which the ``reorder_dimension`` varies. If the dimension
+     is not in ``arr``, the first shift index is used.
     :return: An in-place reordered array.
     :rtype: :class:`numpy.core.multiarray.ndarray`
     """
 
     reorder_index = arr_dimensions.index(reorder_dimension)
-    varying_index = arr_dimensions.index(varying_dimension)
+    varying_index = arr_dimensions.index(varying_dimension) if varying_dimension in arr_dimensions else None
 
     itrs = [None] * arr.ndim
     for idx in range(len(arr.shape)):
@@ -1376,7 +1377,7 @@ def reorder_array(reorder_indices, arr, arr_dimensions, reorder_dimension, varyi
             itrs[idx] = list(range(arr.shape[idx]))
 
     for yld in itertools.product(*itrs):
-        curr_varying_index = yld[varying_index]
+        curr_varying_index = 0 if varying_index is None else yld[varying_index]
         the_split_index = reorder_indices[curr_varying_index]
         view_to_reorder = arr.__getitem__(yld)
         original_to_reorder = view_to_reorder.copy()
-- 
2.43.0


From dc24f7caffcddc7c1f9002e47b9ea58dfc719f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 09/76] fix: wrapping points uses the wrap axis of the wrapper

---
 src/ocgis/spatial/wrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/spatial/wrap.py b/src/ocgis/spatial/wrap.py
index cd716ab..118d2b7 100644
--- a/src/ocgis/spatial/wrap.py
+++ b/src/ocgis/spatial/wrap.py
@@ -223,7 +223,7 @@ class GeometryWrapper(AbstractWrapper):
         # Likely a point type object.
         else:
             if isinstance(geom, Point):
-                if geom.x > 180:
+                if geom.x > self.wrap_axis:
                     new_geom = Point(geom.x - 360, geom.y)
                 else:
                     new_geom = geom
@@ -231,7 +231,7 @@ class GeometryWrapper(AbstractWrapper):
             elif isinstance(geom, MultiPoint):
                 points = [None] * len(geom)
                 for ii, point in enumerate(geom):
-                    if point.x > 180:
+                    if point.x > self.wrap_axis:
                         new_point = Point(point.x - 360, point.y)
                     else:
                         new_point = point
-- 
2.43.0


From e72892506c72d1fe3791e062c40d470b77c3b167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 10/76] fix: wrapping and unwrapping polygons keeps their
 interior rings

---
 src/ocgis/spatial/wrap.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/ocgis/spatial/wrap.py b/src/ocgis/spatial/wrap.py
index 118d2b7..e17f7e8 100644
--- a/src/ocgis/spatial/wrap.py
+++ b/src/ocgis/spatial/wrap.py
@@ -3,6 +3,7 @@ from abc import abstractmethod
 
 import numpy as np
 import six
+from shapely.affinity import translate
 from shapely.geometry.linestring import LineString
 from shapely.geometry.multipoint import MultiPoint
 from shapely.geometry.multipolygon import MultiPolygon
@@ -186,19 +187,8 @@ class GeometryWrapper(AbstractWrapper):
         """
 
         def _shift_(geom):
-            try:
-                coords = np.array(geom.exterior.coords)
-                coords[:, 0] = coords[:, 0] - 360
-                ret = Polygon(coords)
-            # Likely a MultiPolygon.
-            except AttributeError:
-                polygons = np.empty(len(geom), dtype=object)
-                for ii, polygon in enumerate(geom):
-                    coords = np.array(polygon.exterior.coords)
-                    coords[:, 0] = coords[:, 0] - 360
-                    polygons[ii] = Polygon(coords)
-                ret = MultiPolygon(list(polygons))
-            return ret
+            # Interior rings move along with the exterior.
+            return translate(geom, xoff=-360)
 
         if isinstance(geom, (Polygon, MultiPolygon)):
             bounds = np.array(geom.bounds)
@@ -283,9 +273,8 @@ class GeometryWrapper(AbstractWrapper):
         :rtype: :class:`shapely.geometry.polygon.Polygon`
         """
 
-        coords = np.array(polygon.exterior.coords)
-        coords[:, 0] = coords[:, 0] + 360
-        return Polygon(coords)
+        # Interior rings move along with the exterior.
+        return translate(polygon, xoff=360)
 
 
 def apply_wrapping_index_map(imap, to_remap):
-- 
2.43.0


From 192e199a73983915a4e170989f39f57ca6bbfbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 11/76] fix: get_between returns the indices of a contiguous
 selection

---
 src/ocgis/variable/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 18c061c..7f087c2 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1218,6 +1218,8 @@ class Variable(AbstractContainer, Attributes):
         if not select.any():
             raise EmptySubsetError(origin=self.name)
 
+        indices = np.arange(select.shape[0])
+
         # Allow single-valued dimensions to be subset.
         if self.ndim == 0:
             if select[0]:
@@ -1231,7 +1233,6 @@ class Variable(AbstractContainer, Attributes):
             ret = self[select]
 
         if return_indices:
-            indices = np.arange(select.shape[0])
             ret = (ret, indices[select])
 
         return ret
-- 
2.43.0


From 37cccaad0fab8054bebf06c0914a2b29958bad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 12/76] fix: cascading a mask does not write to mask arrays
 shared with other variables

---
 src/ocgis/variable/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 7f087c2..ed59476 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -2529,6 +2529,9 @@ def set_mask_by_variable(source_variable, target_variable, slice_map=None, updat
             # If the target mask is none, we will need to generate one.
             if mask_target is None:
                 mask_target = np.zeros(target_variable.shape, dtype=bool)
+            else:
+                # The mask array may be shared with other variables.
+                mask_target = mask_target.copy()
             template = [slice(None)] * target_variable.ndim
             for slc in itertools.product(*[list(range(ii)) for ii in source_variable.shape]):
                 # slc = [slice(s, s + 1) for s in slc]
-- 
2.43.0


From 1cba731fe8212d33aef3a7522a96c1fb76aab9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 13/76] fix: touching test of coordinate selections considers
 every corner of the box

---
 src/ocgis/spatial/geomc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index e2850e0..1a15613 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -825,6 +825,9 @@ def get_xyz_select(x, y, bounds, z=None, z_bounds=None, invert=False, keep_touch
         touches_x, touches_y = 2*[None]
     select_x = arr_intersects_bounds(x, minx, maxx, keep_touches=keep_touches, touches=touches_x)
     select_y = arr_intersects_bounds(y, miny, maxy, keep_touches=keep_touches, touches=touches_y)
+    if no_touching:
+        # Either edge may be touched in each direction.
+        touches_x, touches_y = touches_x.any(axis=0), touches_y.any(axis=0)
     if no_touching and z_bounds is None:
         if np.any(np.logical_and(touches_x, touches_y)):
             vm.abort(exc=NoTouching)
@@ -838,7 +841,7 @@ def get_xyz_select(x, y, bounds, z=None, z_bounds=None, invert=False, keep_touch
         select_z = arr_intersects_bounds(z, minz, maxz, keep_touches=keep_touches, touches=touches_z)
         select = np.logical_and(select, select_z)
         if no_touching:
-            if np.any(np.logical_and(np.logical_and(touches_x, touches_y), touches_z)):
+            if np.any(np.logical_and(np.logical_and(touches_x, touches_y), touches_z.any(axis=0))):
                 vm.abort(exc=NoTouching)
     if invert:
         select = np.invert(select)
-- 
2.43.0


From 6aad5b2ee171b43cd8de5e3beab55967195b0244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 14/76] fix: bounding box subset keeps the cells already masked
 on the grid

---
 src/ocgis/spatial/grid.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 7f26a63..7354313 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -667,7 +667,12 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
         if optimized_bbox_subset:
             if original_mask is not None and original_mask.any():
                 # TODO: OPTIMIZE: Can we avoid the cascade? There is no reason to cascade the mask if it is going to be sliced off anyway.
-                ret.set_mask(original_mask, cascade=True)
+                ret_mask = ret.get_mask()
+                if ret_mask is None:
+                    ret_mask = original_mask
+                else:
+                    ret_mask = np.logical_or(ret_mask, original_mask)
+                ret.set_mask(ret_mask, cascade=True)
             sliced_grid, _, the_slice = get_masking_slice(original_mask, ret, apply_slice=apply_slice)
             sliced_grid_mask = sliced_grid.get_mask()
             if not original_grid_has_mask and sliced_grid_mask is not None and not sliced_grid_mask.any():
-- 
2.43.0


From aadc1e41398c81a891f61e4b2e48678e9fe751d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 15/76] fix: masking slice of vectors with nothing masked

---
 src/ocgis/variable/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index ab6972b..d05326e 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -1248,7 +1248,7 @@ def get_masking_slice(intersects_mask_value, target, apply_slice=True):
             local_slice = None
         elif not intersects_mask_value.any():
             shp = intersects_mask_value.shape
-            local_slice = [(0, shp[0]), (0, shp[1])]
+            local_slice = [(0, s) for s in shp]
         else:
             _, local_slice = get_trimmed_array_by_mask(intersects_mask_value, return_adjustments=True)
             local_slice = [(l.start, l.stop) for l in local_slice]
-- 
2.43.0


From 8427b5adbb4933cc614b3ceecb2b7f40b534b00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 16/76] fix: buffering a geometry variable without a mask
 buffers every geometry

---
 src/ocgis/variable/geom.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index d05326e..a439528 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -665,6 +665,8 @@ class GeometryVariable(AbstractSpatialVariable):
         new_value = np.empty_like(ret.get_value(), dtype=object)
         to_buffer = self.get_value()
         mask = self.get_mask()
+        if mask is None:
+            mask = np.zeros(self.shape, dtype=bool)
         for idx, mask_value in iter_array(mask, return_value=True):
             if not mask_value:
                 new_value[idx] = to_buffer[idx].buffer(*args, **kwargs)
-- 
2.43.0


From 9bf478cfccfaf2062bdb12ca23adaaabbe7c83d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 17/76] fix: index arrays on several dimensions of a variable
 select per dimension

---
 src/ocgis/variable/base.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index ed59476..60625a6 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -324,9 +324,9 @@ class Variable(AbstractContainer, Attributes):
         new_mask = None
 
         if ret._value is not None:
-            new_value = ret.get_value().__getitem__(slc)
+            new_value = get_sliced_array(ret.get_value(), slc)
         if ret._mask is not None:
-            new_mask = ret._mask.__getitem__(slc)
+            new_mask = get_sliced_array(ret._mask, slc)
 
         if new_value is not None:
             ret._value = new_value
@@ -2449,6 +2449,26 @@ def get_shape_from_variable(variable):
     return ret
 
 
+def get_sliced_array(arr, slc):
+    """
+    Slice an array with each element of ``slc`` applied to its own dimension. Index arrays on multiple dimensions would
+    be paired by ``numpy`` otherwise.
+
+    :param arr: The array to slice.
+    :type arr: :class:`numpy.ndarray`
+    :param slc: Formatted slice with one element for each array dimension.
+    :type slc: `sequence` of :class:`slice` | :class:`numpy.ndarray`
+    :rtype: :class:`numpy.ndarray`
+    """
+    slc = tuple(slc)
+    if len([s for s in slc if not isinstance(s, slice)]) > 1:
+        for idx, s in enumerate(slc):
+            arr = arr[(slice(None),) * idx + (s,)]
+    else:
+        arr = arr[slc]
+    return arr
+
+
 def get_slice_sequence_using_local_bounds(variable):
     ndim = variable.ndim
     ret = [None] * ndim
-- 
2.43.0


From b7d302c5e5b106b5ecd52e3a84aa387b220b797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 18/76] fix: setting unmasked values on a masked variable
 unmasks them

---
 src/ocgis/variable/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 60625a6..0c96969 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -356,6 +356,9 @@ class Variable(AbstractContainer, Attributes):
         self.get_value()[slc] = variable.get_value()
 
         variable_mask = variable.get_mask()
+        if variable_mask is None and self.has_allocated_mask:
+            # A none mask is an array of falses.
+            variable_mask = False
         if variable_mask is not None:
             new_mask = self.get_mask(create=True)
             new_mask[slc] = variable_mask
-- 
2.43.0


From d63b760075baaa2f42cc70f14f1c069bf5f2d856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:09 +0000
Subject: [PATCH 19/76] fix: slicing a field leaves the caller's slice
 dictionary alone

---
 src/ocgis/collection/field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ocgis/collection/field.py b/src/ocgis/collection/field.py
index 034d41d..58f3a56 100644
--- a/src/ocgis/collection/field.py
+++ b/src/ocgis/collection/field.py
@@ -576,6 +576,7 @@ class Field(VariableCollection):
             # When strict is False, we don't care about extra dimension names in the slice. This is useful for a general
             # slicing operation such as slicing for time with or without the dimension.
             if not strict:
+                dslice = dslice.copy()
                 to_pop = [dname for dname in list(dslice.keys()) if dname not in self.dimensions]
                 for dname in to_pop:
                     dslice.pop(dname)
-- 
2.43.0


From 9b94ee322af500e78726da0599ea3d349ee6b558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:09 +0000
Subject: [PATCH 20/76] fix: setting unmasked cells on a masked grid unmasks
 them

---
 src/ocgis/spatial/grid.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 7354313..cf2e84b 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -287,6 +287,11 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
             current_mask = self.get_mask(create=True)
             current_mask[slc] = new_mask
             self.set_mask(current_mask)
+        elif self.mask_variable is not None:
+            # The incoming cells are not masked.
+            current_mask = self.get_mask(create=True)
+            current_mask[slc] = False
+            self.set_mask(current_mask)
 
     @property
     def dtype(self):
-- 
2.43.0


From f88db600bb9b97903d66db1186cc11aef74a1d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 21/76] fix: moving window statistics respect the mask

---
 src/ocgis/calc/library/statistics.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/ocgis/calc/library/statistics.py b/src/ocgis/calc/library/statistics.py
index 42629ae..94b8dc8 100644
--- a/src/ocgis/calc/library/statistics.py
+++ b/src/ocgis/calc/library/statistics.py
@@ -43,7 +43,8 @@ class MovingWindow(AbstractUnivariateFunction, AbstractParameterizedFunction):
         assert values.ndim == 5
         assert operation in self._potential_operations
 
-        operation = getattr(np, operation)
+        # Use the masked versions of the operations. The plain median ignores the mask.
+        operation = getattr(np.ma, operation)
 
         fill = values.copy()
 
@@ -52,22 +53,15 @@ class MovingWindow(AbstractUnivariateFunction, AbstractParameterizedFunction):
         itrs = [list(range(values.shape[axis])) for axis in axes]
         for ie, il in itertools.product(*itrs):
             values_slice = values[ie, :, il, :, :]
-            build = True
             for origin, values_kernel in self._iter_kernel_values_(values_slice, k, mode=mode):
-                if build:
-                    # if only the valid region is returned, this index will determine where the start index for the
-                    # field/fill slice is
-                    idx_start = origin
-                    build = False
                 fill[ie, origin, il, :, :] = operation(values_kernel, axis=0)
 
         if mode == 'valid':
-            # slice the field and fill arrays
-            # self.field = self.field[:, idx_start:origin + 1, :, :, :]
-            # Mask the invalid regions.
-            fill.mask[:] = True
-            fill.mask[:, idx_start:origin + 1, :, :, :] = False
-            # self._finalize_slice = [slice(None), slice(idx_start, origin + 1), slice(None), slice(None), slice(None)]
+            # Mask the positions without a full window. The other positions keep the mask of their window's statistic.
+            shift = (k - 1) // 2
+            invalid = np.ones(fill.shape, dtype=bool)
+            invalid[:, shift:fill.shape[1] - shift, :, :, :] = False
+            fill.mask = np.logical_or(np.ma.getmaskarray(fill), invalid)
         elif mode == 'same':
             pass
         else:
-- 
2.43.0


From 1f5e359eefaa4323cac8e5810d010e47e9e7e7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 22/76] fix: valid convolution with a kernel of length one
 masked every value

---
 src/ocgis/calc/library/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/calc/library/math.py b/src/ocgis/calc/library/math.py
index 310954e..214b006 100644
--- a/src/ocgis/calc/library/math.py
+++ b/src/ocgis/calc/library/math.py
@@ -99,7 +99,7 @@ class Convolve1D(base.AbstractUnivariateFunction, base.AbstractParameterizedFunc
             # identify where the two arrays completely overlap and collect the indices to subset the field object
             # attached to the calculation object
             overlap_mask = np.ones(mask.shape, dtype=bool)
-            overlap_mask[:, slice(0, 0 - (v.shape[0] - 1)), :, :, :] = False
+            overlap_mask[:, slice(0, max(values.shape[1] - (v.shape[0] - 1), 0)), :, :, :] = False
             fill.mask[:] = np.logical_or(fill.mask, overlap_mask)
             # self.field = self.field[:, slice(0, 0-(v.shape[0]-1)), :, :, :]
         else:
-- 
2.43.0


From 615b669adb6d348e49bcdda75928f6d894aaba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:30 +0000
Subject: [PATCH 23/76] fix: durations count every run when all runs last one
 step

---
 src/ocgis/calc/library/index/duration.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/ocgis/calc/library/index/duration.py b/src/ocgis/calc/library/index/duration.py
index 0daa662..77e3e9e 100644
--- a/src/ocgis/calc/library/index/duration.py
+++ b/src/ocgis/calc/library/index/duration.py
@@ -70,8 +70,7 @@ class Duration(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFun
         # find longest sequence for each geometry across time dimension
         for rowidx, colidx in iter_array(values[0, :, :], use_mask=False):
             vec = arr[:, rowidx, colidx].reshape(-1)
-            # check first if there is a longer series than 1
-            if np.any(np.diff(ref[vec]) == 1):
+            if np.any(vec):
                 # find locations where the values switch
                 diff_idx = np.diff(vec)
                 if diff_idx.shape != ref.shape:
@@ -79,9 +78,6 @@ class Duration(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFun
                 split_idx = ref[diff_idx] + 1
                 splits = np.array_split(vec, split_idx)
                 fill = [a.sum() for a in splits if np.all(a)]
-            # case of only a singular occurrence
-            elif np.any(vec):
-                fill = [1]
             # case for no occurrence
             else:
                 fill = [0]
-- 
2.43.0


From c503579d8b7a4c657f0d156a4d2d34a2158121d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:30 +0000
Subject: [PATCH 24/76] fix: durations do not depend on the data behind the
 mask

---
 src/ocgis/calc/library/index/duration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ocgis/calc/library/index/duration.py b/src/ocgis/calc/library/index/duration.py
index 77e3e9e..ef8ffa8 100644
--- a/src/ocgis/calc/library/index/duration.py
+++ b/src/ocgis/calc/library/index/duration.py
@@ -66,6 +66,8 @@ class Duration(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFun
             arr = values >= threshold
         elif operation == 'lte':
             arr = values <= threshold
+        # masked values never satisfy the operation. the data behind the mask may hold anything.
+        arr = np.ma.filled(arr, False)
 
         # find longest sequence for each geometry across time dimension
         for rowidx, colidx in iter_array(values[0, :, :], use_mask=False):
-- 
2.43.0


From f0f8e8537752cfe916af927a34c4266ddfdcd2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:30 +0000
Subject: [PATCH 25/76] fix: the standard deviation of a single duration is
 zero

---
 src/ocgis/calc/library/index/duration.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/ocgis/calc/library/index/duration.py b/src/ocgis/calc/library/index/duration.py
index ef8ffa8..5635ed8 100644
--- a/src/ocgis/calc/library/index/duration.py
+++ b/src/ocgis/calc/library/index/duration.py
@@ -35,16 +35,7 @@ class Duration(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFun
 
         # find longest sequence for each geometry across time dimension
         for ii, fill in enumerate(self._iter_consecutive_(values, threshold, operation)):
-            # case of only a singular occurrence
-            if len(fill) > 1:
-                fill = summary_operation(fill)
-            else:
-                try:
-                    fill = fill[0]
-                # value is likely masked
-                except IndexError:
-                    fill = 0
-            store[ii] = fill
+            store[ii] = summary_operation(fill)
 
         store.resize(shp_out)
 
-- 
2.43.0


From f85daa42b0ff099e62afb5d09517dfa376a08aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:30 +0000
Subject: [PATCH 26/76] fix: no freeze-thaw events if the threshold is never
 reached

---
 src/ocgis/calc/library/index/freeze_thaw.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/calc/library/index/freeze_thaw.py b/src/ocgis/calc/library/index/freeze_thaw.py
index 6f6f730..faf7ca9 100644
--- a/src/ocgis/calc/library/index/freeze_thaw.py
+++ b/src/ocgis/calc/library/index/freeze_thaw.py
@@ -106,5 +106,6 @@ def freezethaw1d(x, threshold):
             if s != np.sign(cycles[-1]):
                 cycles.append(s * (w + ci))
 
-    # Return the number of transitions from frozen to thawed or vice-versa
-    return float(len(cycles) - 2)  # There are two "artificial" transitions
+    # Return the number of transitions from frozen to thawed or vice-versa. There are two "artificial" transitions: the
+    # initial value and the first event. The latter is missing if the threshold is never reached.
+    return float(max(len(cycles) - 2, 0))
-- 
2.43.0


From 5b687f47d7142f905c0004673052833825020625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 27/76] fix: the heat index does not mask its source variables

---
 src/ocgis/calc/library/index/heat_index.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/calc/library/index/heat_index.py b/src/ocgis/calc/library/index/heat_index.py
index ea273ca..8313a9b 100644
--- a/src/ocgis/calc/library/index/heat_index.py
+++ b/src/ocgis/calc/library/index/heat_index.py
@@ -23,10 +23,9 @@ class HeatIndex(base.AbstractMultivariateFunction):
         c8 = 8.5282e-4
         c9 = -1.99e-6
 
-        idx = tas < 80
-        tas.mask = np.logical_or(idx, tas.mask)
-        idx = rhs < 40
-        rhs.mask = np.logical_or(idx, rhs.mask)
+        # Use new masks. The masks of the arguments may be shared with the source variables.
+        tas = np.ma.array(tas.data, mask=np.logical_or(tas < 80, tas.mask))
+        rhs = np.ma.array(rhs.data, mask=np.logical_or(rhs < 40, rhs.mask))
 
         tas_sq = np.square(tas)
         rhs_sq = np.square(rhs)
-- 
2.43.0


From fd48a26a4a63ee56267f47caae74e637b904b18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:09 +0000
Subject: [PATCH 28/76] fix: the grid abstraction scope brings an automatic
 abstraction back

---
 src/ocgis/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/base.py b/src/ocgis/base.py
index 98dbaf0..27db07c 100644
--- a/src/ocgis/base.py
+++ b/src/ocgis/base.py
@@ -181,7 +181,8 @@ def get_variables(target, parent):
 
 @contextmanager
 def grid_abstraction_scope(grid, abstraction, strict=False):
-    orig_abstraction = grid.abstraction
+    # The overloaded abstraction may be automatic. The grid's property only returns the resolved abstraction.
+    orig_abstraction = grid.dimension_map.get_grid_abstraction()
     if abstraction in grid.abstractions_available:
         grid.abstraction = abstraction
     else:
@@ -190,7 +191,7 @@ def grid_abstraction_scope(grid, abstraction, strict=False):
     try:
         yield None
     finally:
-        grid.abstraction = orig_abstraction
+        grid.dimension_map.set_grid_abstraction(orig_abstraction)
 
 
 def is_field(target):
-- 
2.43.0


From fa72a0808a65d9e285cc9995889a7ebf9e3b9640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:09 +0000
Subject: [PATCH 29/76] fix: nested orphan scopes keep the dimensions kept by
 the outer scope

---
 src/ocgis/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/base.py b/src/ocgis/base.py
index 27db07c..1c6e36f 100644
--- a/src/ocgis/base.py
+++ b/src/ocgis/base.py
@@ -222,6 +222,7 @@ def iter_variables(target, container):
 @contextmanager
 def orphaned(target, keep_dimensions=False):
     if keep_dimensions:
+        original_dimensions_cache = getattr(target, '_dimensions_cache', constants.UNINITIALIZED)
         target._dimensions_cache = target.dimensions
     has_initialized_parent = target.has_initialized_parent
     if has_initialized_parent:
@@ -233,7 +234,7 @@ def orphaned(target, keep_dimensions=False):
         if has_initialized_parent:
             target.parent = original_parent
         if keep_dimensions:
-            target._dimensions_cache = constants.UNINITIALIZED
+            target._dimensions_cache = original_dimensions_cache
 
 
 def raise_if_empty(target, check_current=False):
-- 
2.43.0


From 74ef6fe9fcd3e75f106dc07d2f8d71fbe6e87749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:09 +0000
Subject: [PATCH 30/76] fix: a variable added while dimensions are renamed does
 not break leaving the scope

---
 src/ocgis/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/base.py b/src/ocgis/base.py
index 1c6e36f..51dbb21 100644
--- a/src/ocgis/base.py
+++ b/src/ocgis/base.py
@@ -311,8 +311,13 @@ def renamed_dimensions_on_variables(vc, name_mapping):
         for k, v in list(original_vc_dimensions.items()):
             v._name = k
         vc._dimensions = original_vc_dimensions
+        to_original = {v: k for k, v in original_names.items()}
         for var in list(vc.values()):
-            var._dimensions = original_variable_dimension_names[var.name]
+            try:
+                var._dimensions = original_variable_dimension_names[var.name]
+            except KeyError:
+                # The variable was added inside the scope.
+                var._dimensions = tuple([to_original.get(d, d) for d in var.dimension_names])
 
 
 def revert_renamed_dimensions_on_variables(mapping_meta, vc):
-- 
2.43.0


From ba7c198c72beb1f2fe3d6a2f50af61bbd8cb34f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:09 +0000
Subject: [PATCH 31/76] fix: creating a subcommunicator with a name in use does
 not leak communicators

---
 src/ocgis/vmachine/core.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ocgis/vmachine/core.py b/src/ocgis/vmachine/core.py
index aab6052..cdb18ad 100644
--- a/src/ocgis/vmachine/core.py
+++ b/src/ocgis/vmachine/core.py
@@ -109,21 +109,20 @@ class OcgVM(AbstractOcgisObject):
         if self._is_dummy:
             self._subcomms[name] = self._comm
         else:
+            if name in self._subcomms and not clobber:
+                raise SubcommAlreadyCreatedError(name)
             if len(ranks) == 0:
-                self._subcomms[name] = COMM_NULL
+                ret = COMM_NULL
             else:
                 the_pool = self.comm.Get_group()
                 sub_group = the_pool.Incl(ranks)
                 try:
                     ret = self.comm.Create(sub_group)
-                    if name in self._subcomms:
-                        if clobber:
-                            vm.free_subcomm(name=name)
-                        else:
-                            raise SubcommAlreadyCreatedError(name)
-                    self._subcomms[name] = ret
                 finally:
                     sub_group.Free()
+            if name in self._subcomms:
+                self.free_subcomm(name=name)
+            self._subcomms[name] = ret
         if is_current:
             self._current_comm_name = name
         return name
-- 
2.43.0


From 1b4ee2f2a740a10a4af6358180b40c6908bbb655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:31 +0000
Subject: [PATCH 32/76] fix: dimension maps with topologies, abstraction or
 properties can be read from a dictionary

---
 src/ocgis/driver/dimension_map.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index f64903a..4320b93 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -72,6 +72,10 @@ class DimensionMap(AbstractOcgisObject):
                 has_groups = True
             elif k == DMK.DRIVER:
                 d.set_driver(v)
+            elif k == DMK.TOPOLOGY:
+                d._storage[DMK.TOPOLOGY] = {t: cls.from_dict(topology_dct) for t, topology_dct in v.items()}
+            elif k in (DMK.GRID_ABSTRACTION, DMK.IS_ISOMORPHIC):
+                d.set_property(k, v)
             else:
                 try:
                     variable = v.pop(DMK.VARIABLE)
@@ -80,8 +84,8 @@ class DimensionMap(AbstractOcgisObject):
                 if k == DMK.CRS:
                     d.set_crs(variable)
                 elif k == DMK.SPATIAL_MASK:
-                    if v != {}:
-                        d.set_spatial_mask(variable)
+                    if variable is not None:
+                        d.set_spatial_mask(variable, default_attrs=v.get(DMK.ATTRS))
                 else:
                     d.set_variable(k, variable, **v)
         if has_groups:
-- 
2.43.0


From e721e02835d393b372182a4787c84489ddbad35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:31 +0000
Subject: [PATCH 33/76] fix: queries and refused edits leave dimension maps
 readable

---
 src/ocgis/driver/dimension_map.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index 4320b93..2162403 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -224,8 +224,6 @@ class DimensionMap(AbstractOcgisObject):
         :param group_key: The group indexing key.
         :rtype: :class:`list` of :class:`str`
         """
-        if DMK.GROUPS not in self._storage:
-            self._storage[DMK.GROUPS] = {}
         try:
             return get_dmap_group(self, group_key)
         except KeyError:
@@ -278,7 +276,8 @@ class DimensionMap(AbstractOcgisObject):
 
         if ret is not None:
             ret = self._storage[DMK.TOPOLOGY].get(topology, default)
-            self._storage[DMK.TOPOLOGY][topology] = ret
+            if create:
+                self._storage[DMK.TOPOLOGY][topology] = ret
 
         # if ret is None:
         #     ret = GridAbstraction.AUTO
@@ -398,10 +397,9 @@ class DimensionMap(AbstractOcgisObject):
         :param bounds: :class:`str` | :class:`~ocgis.Variable`
         """
         name = get_variable_names(bounds)[0]
-        entry = self._get_entry_(entry_key)
-        if entry[DMK.VARIABLE] is None:
+        if self.get_variable(entry_key) is None:
             raise DimensionMapError(entry_key, 'No variable set. Bounds may not be set.')
-        entry[DMK.BOUNDS] = name
+        self._get_entry_(entry_key)[DMK.BOUNDS] = name
 
     def set_crs(self, variable):
         """
@@ -504,10 +502,11 @@ class DimensionMap(AbstractOcgisObject):
         if section is not None and (pos is None and dimension is None):
             raise DimensionMapError(entry_key, "If a section is provided, position or dimension must be defined.")
 
-        entry = self._get_entry_(entry_key)
+        if entry_key not in self._allowed_entry_keys:
+            raise DimensionMapError(entry_key, 'Entry not allowed.')
 
         if variable is None:
-            self._storage.pop(entry_key)
+            self._storage.pop(entry_key, None)
             return
 
         try:
@@ -555,6 +554,7 @@ class DimensionMap(AbstractOcgisObject):
             current_attrs = self._storage.__class__()
         attrs.update(current_attrs)
 
+        entry = self._get_entry_(entry_key)
         entry[DMK.VARIABLE] = value
         entry[DMK.BOUNDS] = bounds
         entry[DMK.DIMENSION] = dimension
@@ -596,6 +596,8 @@ class DimensionMap(AbstractOcgisObject):
         if entry_key == DMK.CRS:
             raise DimensionMapError(entry_key, "Use 'get_crs' to get the CRS variable name.")
         entry = self._get_entry_(entry_key)
+        # An entry created by getting one of its elements has no variable.
+        get_or_create_dict(entry, DMK.VARIABLE, None)
         ret = get_or_create_dict(entry, element_key, default)
         return ret
 
-- 
2.43.0


From b2a565ca679f397fb3e38224b34d127cd319ca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:31 +0000
Subject: [PATCH 34/76] fix: dimension maps leave the attributes of the caller
 alone

---
 src/ocgis/driver/dimension_map.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index 2162403..ad3935b 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -452,7 +452,8 @@ class DimensionMap(AbstractOcgisObject):
         """
 
         if default_attrs is None:
-            default_attrs = deepcopy(DIMENSION_MAP_TEMPLATE[DMK.SPATIAL_MASK][DMK.ATTRS])
+            default_attrs = DIMENSION_MAP_TEMPLATE[DMK.SPATIAL_MASK][DMK.ATTRS]
+        default_attrs = deepcopy(default_attrs)
 
         try:
             vattrs = deepcopy(variable.attrs)
@@ -543,6 +544,9 @@ class DimensionMap(AbstractOcgisObject):
             except KeyError:
                 # Default attributes are empty.
                 attrs = self._storage.__class__()
+        else:
+            # Leave the attributes of the caller alone.
+            attrs = deepcopy(attrs)
 
         # Allow for any variable attributes.
         if hasattr(variable, 'attrs'):
-- 
2.43.0


From 07cbed63bb67c29099f9e24737b668ceeeb079fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:31 +0000
Subject: [PATCH 35/76] fix: updating a dimension map does not share entries or
 drop groups

---
 src/ocgis/driver/dimension_map.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index ad3935b..29248c4 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -573,11 +573,13 @@ class DimensionMap(AbstractOcgisObject):
         :param other:
         :type other: :class:`~ocgis.DimensionMap`
         """
-        for other_k, other_v in other._storage.items():
-            if other_k == DMK.TOPOLOGY:
-                if DMK.TOPOLOGY not in self._storage:
-                    self._storage[DMK.TOPOLOGY] = {}
-                self._storage[DMK.TOPOLOGY].update(other_v)
+        # Entries are changed in-place. Do not share them with the other dimension map.
+        for other_k, other_v in deepcopy(other._storage).items():
+            if other_k in (DMK.TOPOLOGY, DMK.GROUPS):
+                get_or_create_dict(self._storage, other_k, {}).update(other_v)
+            elif isinstance(other_v, dict) and other_v.get(DMK.VARIABLE) is None:
+                # There is no information in an entry without a variable.
+                get_or_create_dict(self._storage, other_k, other_v)
             else:
                 self._storage[other_k] = other_v
 
-- 
2.43.0


From 3233971f5f4bbb21f72fe4e9d738ab98782bbeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:31 +0000
Subject: [PATCH 36/76] fix: nested groups of dimension maps

---
 src/ocgis/driver/dimension_map.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index 29248c4..5e0f052 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -105,15 +105,13 @@ class DimensionMap(AbstractOcgisObject):
         :rtype: :class:`~ocgis.DimensionMap`
         """
         dimension_map = driver.create_dimension_map(group_metadata)
-        if curr is None:
-            curr = dimension_map
-        if group_name is not None:
+        if curr is not None:
             curr.set_group(group_name, dimension_map)
         if DMK.GROUPS in group_metadata:
-            for group_name, sub_group_metadata in group_metadata[DMK.GROUPS].items():
-                cls.from_metadata(driver, sub_group_metadata, curr=curr, group_name=group_name)
+            for sub_group_name, sub_group_metadata in group_metadata[DMK.GROUPS].items():
+                cls.from_metadata(driver, sub_group_metadata, curr=dimension_map, group_name=sub_group_name)
 
-        return curr
+        return dimension_map
 
     @classmethod
     def from_old_style_dimension_map(cls, odmap):
@@ -629,7 +627,7 @@ def get_variable_from_field(name, field, nullable):
 def get_dmap_group(dmap, keyseq, create=False, last=None):
     keyseq = deepcopy(keyseq)
     if last is None:
-        last = {}
+        last = DimensionMap()
 
     if keyseq is None:
         keyseq = [None]
@@ -645,16 +643,13 @@ def get_dmap_group(dmap, keyseq, create=False, last=None):
         if key is None:
             continue
         else:
-            try:
-                curr = curr._storage[DMK.GROUPS][key]
-            except KeyError:
-                if create:
-                    curr_dct = get_or_create_dict(curr._storage, DMK.GROUPS, {})
-                    if ctr == len_keyseq:
-                        default = last
-                    else:
-                        default = {}
-                    curr = get_or_create_dict(curr_dct, key, default)
+            if create:
+                curr_dct = get_or_create_dict(curr._storage, DMK.GROUPS, {})
+                if ctr == len_keyseq:
+                    curr_dct[key] = last
+                    curr = last
                 else:
-                    raise
+                    curr = get_or_create_dict(curr_dct, key, DimensionMap())
+            else:
+                curr = curr._storage[DMK.GROUPS][key]
     return curr
-- 
2.43.0


From 19a3633bc714cd661166341730b31d454d593ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:58 +0000
Subject: [PATCH 37/76] fix: iterating does not change the repeated attributes
 of the caller

---
 src/ocgis/variable/iterator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/variable/iterator.py b/src/ocgis/variable/iterator.py
index 03039b2..7baea7f 100644
--- a/src/ocgis/variable/iterator.py
+++ b/src/ocgis/variable/iterator.py
@@ -25,7 +25,7 @@ class Iterator(AbstractOcgisObject):
             if repeaters is None:
                 repeaters = variable.repeat_record
             else:
-                repeaters += variable.repeat_record
+                repeaters = repeaters + variable.repeat_record
         self.repeaters = repeaters
 
         self._is_lead = True
-- 
2.43.0


From 1d8c74cdcf35514474e630920358c87d826df4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:58 +0000
Subject: [PATCH 38/76] fix: followers of followers iterate along the
 dimensions of the lead variable

---
 src/ocgis/variable/iterator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/iterator.py b/src/ocgis/variable/iterator.py
index 7baea7f..9bb085a 100644
--- a/src/ocgis/variable/iterator.py
+++ b/src/ocgis/variable/iterator.py
@@ -90,7 +90,10 @@ class Iterator(AbstractOcgisObject):
                         if d in set_dimensions:
                             follower_slice_remap.append(dimensions.index(d))
                     iterator.slice_remap = follower_slice_remap
-                    iterator.shape = self.shape
+                else:
+                    # The follower may have been remapped to the dimensions of another lead variable.
+                    iterator.slice_remap = None
+                iterator.shape = self.shape
                 iterator._is_lead = False
                 followers[fidx] = iterator
             self.iterators = [self] + followers
-- 
2.43.0


From 40192cece32c2b4570f6592a3d835527829c7b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:58 +0000
Subject: [PATCH 39/76] fix: melted records do not repeat the attributes of
 other melted variables

---
 src/ocgis/variable/iterator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ocgis/variable/iterator.py b/src/ocgis/variable/iterator.py
index 9bb085a..7a7a86f 100644
--- a/src/ocgis/variable/iterator.py
+++ b/src/ocgis/variable/iterator.py
@@ -121,6 +121,11 @@ class Iterator(AbstractOcgisObject):
         clobber_masked = self.clobber_masked
         melted_repeaters = self.melted_repeaters
 
+        if melted_repeaters is None:
+            melted_repeater_names = None
+        else:
+            melted_repeater_names = [mr[0] for mrs in melted_repeaters.values() for mr in mrs]
+
         if formatter is None:
             has_formatter = False
         else:
@@ -187,6 +192,9 @@ class Iterator(AbstractOcgisObject):
                                 for midx, m in enumerate(melted):
                                     # record = record.copy()
                                     if melted_repeaters is not None:
+                                        # Do not repeat the attributes of the other melted variables.
+                                        for mname in melted_repeater_names:
+                                            record[mname] = None
                                         for mr in melted_repeaters.get(m, []):
                                             record[mr[0]] = mr[1]
                                     record[header_variable] = m
-- 
2.43.0


From db8ac892bf1a26e6e3336f5c109c766be7ca9f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:58 +0000
Subject: [PATCH 40/76] fix: variables with bounds iterate without their bounds

---
 src/ocgis/variable/base.py     | 2 +-
 src/ocgis/variable/temporal.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 0c96969..9fc0e45 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1360,7 +1360,7 @@ class Variable(AbstractContainer, Attributes):
 
         itr = Iterator(self, **kwargs)
 
-        if self.has_bounds:
+        if followers is not None:
             for f in itr.followers:
                 f.formatter = formatter
 
diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 24471f6..6c58bd6 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -275,7 +275,7 @@ class TemporalVariable(SourcedVariable):
         ret = super(TemporalVariable, self).get_iter(**kwargs)
         if driver is not None:
             ret.formatter = driver.iterator_formatter_time_value
-            if self.has_bounds:
+            if ret.followers is not None:
                 for follower in ret.followers:
                     follower.formatter = driver.iterator_formatter_time_bounds
         return ret
-- 
2.43.0


From 1f447303d377fc5f58d888e35e1058e63b823287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:46 +0000
Subject: [PATCH 41/76] fix: iterating element geometries shifts break values
 and the connectivity itself

---
 src/ocgis/spatial/geomc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index 1a15613..ed95059 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -375,8 +375,6 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
             if not is_masked:
                 if cindex is not None:
                     ec_idx = get_element_node_connectivity_by_index(cindex, idx)
-                    if start_index > 0:
-                        ec_idx -= start_index
                 else:
                     ec_idx = idx
 
@@ -387,6 +385,9 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
                     mitr = [ec_idx]
 
                 for comp_coords in mitr:
+                    if cindex is not None and start_index > 0:
+                        # The index may be a view on the connectivity. Break values are not indices into coordinates.
+                        comp_coords = comp_coords - start_index
                     z = None
                     if use_memory_optimizations:
                         x = xvar[comp_coords].get_value()[0]
-- 
2.43.0


From 51c425bee2de710c1dae78bdae3dd5a379e1975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:46 +0000
Subject: [PATCH 42/76] fix: reducing a mesh loses the start index and break
 value of the connectivity

---
 src/ocgis/spatial/geomc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index ed95059..ec68e4a 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -657,7 +657,8 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
         new_cindex, uidx = reduce_reindex_coordinate_index(self.cindex, start_index=self.start_index)
         ocgis_lh(msg='finished reduce_reindex_coordinate_index', logger='geomc', level=logging.DEBUG)
 
-        new_cindex = Variable(name=self.cindex.name, value=new_cindex, dimensions=self.cindex.dimensions)
+        new_cindex = Variable(name=self.cindex.name, value=new_cindex, dimensions=self.cindex.dimensions,
+                              attrs=self.cindex.attrs)
 
         ret = self.copy()
         if self.start_index == 1:
-- 
2.43.0


From 926f1014f06f1204e766f3bafa524d63cf2022c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:46 +0000
Subject: [PATCH 43/76] fix: reducing a mesh treats break values as coordinate
 indices

---
 src/ocgis/spatial/geomc.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index ec68e4a..be7c49c 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -654,7 +654,14 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
             raise ValueError('A coordinate index is required to reduce coordinates.')
 
         ocgis_lh(msg='starting reduce_reindex_coordinate_index', logger='geomc', level=logging.DEBUG)
-        new_cindex, uidx = reduce_reindex_coordinate_index(self.cindex, start_index=self.start_index)
+        if self.has_multi:
+            # Break values separate parts. They are not indices into the coordinates.
+            new_cindex = self.cindex.get_value().copy()
+            is_coordinate = new_cindex != self.multi_break_value
+            reindexed, uidx = reduce_reindex_coordinate_index(new_cindex[is_coordinate], start_index=self.start_index)
+            new_cindex[is_coordinate] = reindexed
+        else:
+            new_cindex, uidx = reduce_reindex_coordinate_index(self.cindex, start_index=self.start_index)
         ocgis_lh(msg='finished reduce_reindex_coordinate_index', logger='geomc', level=logging.DEBUG)
 
         new_cindex = Variable(name=self.cindex.name, value=new_cindex, dimensions=self.cindex.dimensions,
-- 
2.43.0


From e92c3dfe76ba277ea4dc8d0fdabb51f5817cb856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:40 +0000
Subject: [PATCH 44/76] fix: converted times of a time variable are stale after
 its values, mask, units or calendar change

---
 src/ocgis/variable/temporal.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 6c58bd6..71f9cb0 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -58,6 +58,10 @@ class TemporalVariable(SourcedVariable):
         ret._value_numtime = get_none_or_slice(ret._value_numtime, slc)
         ret._value_datetime = get_none_or_slice(ret._value_datetime, slc)
 
+    def __setitem__(self, slc, variable):
+        super(TemporalVariable, self).__setitem__(slc, variable)
+        self._clear_converted_times_()
+
     @property
     def calendar(self):
         """
@@ -72,6 +76,7 @@ class TemporalVariable(SourcedVariable):
         set_attribute_property(self, 'calendar', value)
         if self.has_bounds:
             set_attribute_property(self.bounds, 'calendar', value)
+        self._clear_converted_times_(include_bounds=True)
 
     @property
     def cfunits(self):
@@ -691,6 +696,19 @@ class TemporalVariable(SourcedVariable):
 
         return new_bounds, date_parts, repr_dt, dgroups
 
+    def _clear_converted_times_(self, include_bounds=False):
+        """
+        Remove the converted times. The next access converts the current values.
+
+        :param bool include_bounds: If ``True``, also remove the converted times from the bounds.
+        """
+        self._value_numtime = None
+        self._value_datetime = None
+        self._bounds_numtime = None
+        self._bounds_datetime = None
+        if include_bounds and self.has_bounds and isinstance(self.bounds, TemporalVariable):
+            self.bounds._clear_converted_times_()
+
     def _get_iter_value_(self):
         if self.format_time:
             ret = self.value_datetime
@@ -703,10 +721,7 @@ class TemporalVariable(SourcedVariable):
 
     def _set_to_conform_value_(self, value):
         # Wipe the original values.
-        self._value_numtime = None
-        self._value_datetime = None
-        self._bounds_numtime = None
-        self._bounds_datetime = None
+        self._clear_converted_times_()
         # Set the new value.
         self.set_value(value)
 
@@ -731,6 +746,11 @@ class TemporalVariable(SourcedVariable):
         if 'calendar=' in value:
             value = value.split('calendar=')[0].strip()
         super(TemporalVariable, self)._set_units_(value)
+        self._clear_converted_times_(include_bounds=True)
+
+    def set_mask(self, mask, **kwargs):
+        super(TemporalVariable, self).set_mask(mask, **kwargs)
+        self._clear_converted_times_()
 
     def set_value(self, value, **kwargs):
         # Special handling for template units.
@@ -739,6 +759,7 @@ class TemporalVariable(SourcedVariable):
             # Update the units.
             self.units = constants.DEFAULT_TEMPORAL_UNITS
         super(TemporalVariable, self).set_value(value, **kwargs)
+        self._clear_converted_times_()
 
 
 class TemporalGroupVariable(TemporalVariable):
-- 
2.43.0


From 21f7b47468eb998a291d154314b11d50736c88e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:40 +0000
Subject: [PATCH 45/76] fix: dates from months time units are wrong for gaps,
 decreasing or negative offsets, and bounds

---
 src/ocgis/variable/temporal.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 71f9cb0..8a7f484 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -820,26 +820,14 @@ def get_datetime_from_months_time_units(vec, units, month_centroid=16):
     # only work with integer inputs
     vec = np.array(vec, dtype=int)
 
-    def _get_datetime_(current_year, origin_month, offset_month, current_month_correction, month_centroid):
-        return datetime.datetime(current_year, (origin_month + offset_month) - current_month_correction, month_centroid)
-
     origin = get_origin_datetime_from_months_units(units)
-    origin_month = origin.month
-    current_year = origin.year
-    current_month_correction = 0
-    if vec[0] >= 12:
-        current_year += int(vec[0] / 12)
-        vec = vec - (int(vec[0] / 12) * 12)
-    ret = np.ones(len(vec), dtype=object)
-    for ii, offset_month in enumerate(vec):
-        try:
-            fill = _get_datetime_(current_year, origin_month, offset_month, current_month_correction, month_centroid)
-        except ValueError:
-            current_month_correction += 12
-            current_year += 1
-            fill = _get_datetime_(current_year, origin_month, offset_month, current_month_correction, month_centroid)
-        ret[ii] = fill
-    return ret
+    # Count months from the start of the calendar. The offsets may have any order, gaps and sign.
+    origin_months = origin.year * 12 + origin.month - 1
+    ret = np.ones(vec.size, dtype=object)
+    for ii, offset_month in enumerate(vec.flatten()):
+        months = origin_months + int(offset_month)
+        ret[ii] = datetime.datetime(months // 12, months % 12 + 1, month_centroid)
+    return ret.reshape(vec.shape)
 
 
 def get_datetime_from_template_time_units(vec):
-- 
2.43.0


From 21222e0c36e5af1b8504658712e849f88c297609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 46/76] fix: month offsets cannot be computed for the dates of
 time bounds

---
 src/ocgis/variable/temporal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 8a7f484..2f51bd0 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -956,8 +956,9 @@ def get_num_from_months_time_units(vec, units, dtype=None):
     """
 
     origin = get_origin_datetime_from_months_units(units)
-    ret = [get_difference_in_months(origin, target) for target in vec]
-    return np.array(ret, dtype=dtype)
+    vec = np.array(vec, dtype=object)
+    ret = [get_difference_in_months(origin, target) for target in vec.flatten()]
+    return np.array(ret, dtype=dtype).reshape(vec.shape)
 
 
 def get_origin_datetime_from_months_units(units):
-- 
2.43.0


From 4b01554df3a5685652f94ba9964f1c91e9b2027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 47/76] fix: origins with a day or a clock time in months units
 are not parsed

---
 src/ocgis/variable/temporal.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 2f51bd0..9b9796f 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -974,18 +974,13 @@ def get_origin_datetime_from_months_units(units):
     """
 
     origin = ' '.join(units.split(' ')[2:])
-    to_try = ['%Y-%m', '%Y-%m-%d %H']
-    converted = False
+    to_try = ['%Y-%m', '%Y-%m-%d', '%Y-%m-%d %H', '%Y-%m-%d %H:%M', '%Y-%m-%d %H:%M:%S']
     for tt in to_try:
         try:
-            origin = datetime.datetime.strptime(origin, tt)
-            converted = True
-            break
-        except ValueError as e:
+            return datetime.datetime.strptime(origin, tt)
+        except ValueError:
             continue
-    if not converted:
-        raise e
-    return origin
+    raise ValueError("Origin of months time units not recognized: '{}'".format(units))
 
 
 def get_sorted_seasons(seasons, method='max'):
-- 
2.43.0


From 54728ae00f8cd2d8e1cb112fbbb0bb032da0a89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 48/76] fix: date intervals crossing the year end exclude the
 months of the second year

---
 src/ocgis/util/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index 697ce62..3e1d905 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -515,6 +515,8 @@ def get_is_date_between(lower, upper, month=None, year=None):
         if part_lower > part_upper:
             # in the case of a year overlap, increment the upper into another year by adding 12 months
             part_upper += 12
+            # months before the lower month fall in that other year
+            to_test = np.where(np.less(to_test, part_lower), np.add(to_test, 12), to_test)
         ret = np.logical_and(to_test >= part_lower, to_test < part_upper)
     else:
         ret = np.logical_and(to_test >= part_lower, to_test <= part_upper)
-- 
2.43.0


From fa33aeeedd57b45dda9185cf52eca56b84dce018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 49/76] fix: seasons sharing their first or last month are lost
 when sorting seasons

---
 src/ocgis/variable/temporal.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 9b9796f..9ac5609 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -998,14 +998,8 @@ def get_sorted_seasons(seasons, method='max'):
 
     methods = {'min': min, 'max': max}
 
-    season_map = {}
-    for ii, season in enumerate(seasons):
-        season_map[ii] = season
-    max_map = {}
-    for key, value in season_map.items():
-        max_map[methods[method](value)] = key
-    sorted_maxes = sorted(max_map)
-    ret = [seasons[max_map[s]] for s in sorted_maxes]
+    # The sort is stable. Seasons with the same minimum or maximum month keep their order.
+    ret = sorted(seasons, key=methods[method])
     ret = deepcopy(ret)
     return ret
 
-- 
2.43.0


From e0bc25a1aeb95343f03790c05188d0ce0de4ef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 50/76] fix: the wrong time regions are removed when several
 regions have no data

---
 src/ocgis/variable/temporal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 9ac5609..3e0b2d5 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -1072,7 +1072,8 @@ def get_time_regions(seasons, dates, raise_if_incomplete=True):
                 td.get_time_region(sub_time_region)
         except EmptySubsetError:
             remove.append(idx)
-    for xx in remove:
+    # remove from the back as the positions of the elements following a removed one change
+    for xx in reversed(remove):
         time_regions.pop(xx)
 
     return time_regions
-- 
2.43.0


From 1a7ecb34e942e5a44704fcc665e002c7beac003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 51/76] fix: an interannual season is completed from a later
 year when the following year has no data

---
 src/ocgis/variable/temporal.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 3e0b2d5..b7a4b63 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -1024,7 +1024,7 @@ def get_time_regions(seasons, dates, raise_if_incomplete=True):
         interannual_check = [False]
     if any(interannual_check):
         # loop over years first to ensure each year is accounted for in the time region output
-        for ii_year, year in enumerate(years):
+        for year in years:
             # the interannual flag is used internally for simple optimization
             for ic, cg in zip(interannual_check, seasons):
                 # if no exception is raised for an incomplete season, this flag indicate whether to append to the output
@@ -1042,12 +1042,12 @@ def get_time_regions(seasons, dates, raise_if_incomplete=True):
                     # will hold the sub-element time regions
                     sub_time_region = []
                     for ii_split, s in enumerate(split):
-                        try:
-                            to_append_sub = {'year': [years[ii_year + ii_split]], 'month': s.tolist()}
+                        if year + ii_split in years:
+                            to_append_sub = {'year': [year + ii_split], 'month': s.tolist()}
                             sub_time_region.append(to_append_sub)
-                        # there may not be another year of data for an interannual season. we DO NOT keep incomplete
-                        # seasons.
-                        except IndexError:
+                        # there may not be data in the following year for an interannual season. we DO NOT keep
+                        # incomplete seasons.
+                        else:
                             # don't just blow through an incomplete season unless asked to
                             if raise_if_incomplete:
                                 raise IncompleteSeasonError(None, None, None)
-- 
2.43.0


From d2ed3df49ba922484117fa03ee043fb7cc0b12af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 52/76] fix: an interannual season with missing months is
 spread over more than two years

---
 src/ocgis/variable/temporal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index b7a4b63..252c48a 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -1037,7 +1037,8 @@ def get_time_regions(seasons, dates, raise_if_incomplete=True):
                     # look for the interannual break and split the season into the current year and next year.
                     diff = np.abs(np.diff(_cg))
                     split_base = np.arange(1, len(_cg))
-                    split_indices = split_base[diff > 1]
+                    # the break is the longest run of months not in the season. there may be other months missing.
+                    split_indices = split_base[np.logical_and(diff > 1, split_base == np.argmax(diff) + 1)]
                     split = np.split(_cg, split_indices)
                     # will hold the sub-element time regions
                     sub_time_region = []
-- 
2.43.0


From 86a7cbb59c8717afd1595202f148304b0cf20894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 53/76] fix: seasonal groups without any time step cannot be
 grouped

---
 src/ocgis/variable/temporal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 252c48a..93b2ce2 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -570,8 +570,10 @@ class TemporalVariable(SourcedVariable):
                     else:
                         if parts[idx, 1] in season:
                             subgroup[idx] = True
-                dgroups.append(subgroup)
-                grouping_season.append([season, year])
+                # there may be no data for the season
+                if subgroup.any():
+                    dgroups.append(subgroup)
+                    grouping_season.append([season, year])
             dtype = [('months', object), ('year', int)]
             grouping = grouping_season
 
-- 
2.43.0


From b5eea9398a230ed964ac2db3e9e98f70d5ab1a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:49 +0000
Subject: [PATCH 54/76] fix: spatial average weights are not aligned with the
 dimensions of the variable

---
 src/ocgis/variable/geom.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index a439528..c39a779 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -23,7 +23,7 @@ from ocgis.environment import ogr
 from ocgis.exc import EmptySubsetError, RequestableFeature, NoInteriorsError, SelfIntersectsRemovalError
 from ocgis.spatial.base import AbstractSpatialVariable, create_split_polygons
 from ocgis.util.addict import Dict
-from ocgis.util.helpers import iter_array, get_trimmed_array_by_mask, get_swap_chain, find_index, \
+from ocgis.util.helpers import iter_array, get_trimmed_array_by_mask, find_index, \
     iter_exploded_geometries, get_iter
 from ocgis.util.logging_ocgis import ocgis_lh
 from ocgis.variable.base import get_dimension_lengths, ObjectType
@@ -969,8 +969,10 @@ class GeometryVariable(AbstractSpatialVariable):
                         range_to_itr.append(len(dn))
                         names_to_itr.append(dn.name)
 
-                # Reference the weights on the source geometry variable.
-                weights = self[{nsa: slice(None) for nsa in names_to_slice_all}].weights
+                # Reference the weights on the source geometry variable. Order the weight axes to make sure they align
+                # with the target variable.
+                weights = self.weights
+                weights = weights.transpose([self.dimension_names.index(nsa) for nsa in names_to_slice_all])
 
                 # Path if there are iteration dimensions. Checks for axes ordering in addition.
                 if len(range_to_itr) > 0:
@@ -986,13 +988,6 @@ class GeometryVariable(AbstractSpatialVariable):
                     target.set_dimensions(new_dimensions)
                     target.allocate_value()
 
-                    # Swap weight axes to make sure they align with the target variable.
-                    swap_chain = get_swap_chain(dimension_names, names_to_slice_all)
-                    if len(swap_chain) > 0:
-                        weights = weights.copy()
-                    for sc in swap_chain:
-                        weights = weights.swapaxes(*sc)
-
                     # The main weighting loop. Can get quite intensive with many, large iteration dimensions.
                     len_names_to_itr = len(names_to_itr)
                     slice_none = slice(None)
-- 
2.43.0


From da45ac7488e99e64a707dd3829c025589ab60f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:49 +0000
Subject: [PATCH 55/76] fix: spatial averages of entirely masked data are zero
 instead of masked

---
 src/ocgis/variable/geom.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index c39a779..5e0a440 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -987,6 +987,7 @@ class GeometryVariable(AbstractSpatialVariable):
                     target._value = None
                     target.set_dimensions(new_dimensions)
                     target.allocate_value()
+                    target_mask = np.zeros(target.shape, dtype=bool)
 
                     # The main weighting loop. Can get quite intensive with many, large iteration dimensions.
                     len_names_to_itr = len(names_to_itr)
@@ -1005,6 +1006,10 @@ class GeometryVariable(AbstractSpatialVariable):
                             data_to_weight = np_squeeze(data_to_weight, axis=tuple(squeeze_out))
                         weighted_value = np_atleast_1d(np_ma_average(data_to_weight, weights=weights))
                         target[w_slc].get_value()[:] = weighted_value
+                        # There is no average if all data are masked.
+                        target_mask[nonweighted_indices] = np.ma.getmaskarray(weighted_value)
+                    if target_mask.any():
+                        target.set_mask(target_mask)
                 else:
                     target_to_weight = var_to_weight.get_masked_value()
                     # Sort to minimize floating point sum errors.
-- 
2.43.0


From 4a87e440725123b7669fdff99a0b913f606e8c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:49 +0000
Subject: [PATCH 56/76] fix: rank weights of parallel spatial averages are
 reordered for every average

---
 src/ocgis/variable/geom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 5e0a440..506f811 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -1067,9 +1067,9 @@ class GeometryVariable(AbstractSpatialVariable):
                             collected_to_weight = np.array(collected_to_weight)
                             sindices = np.argsort(collected_to_weight)
                             collected_to_weight = collected_to_weight[sindices]
-                            rank_weights = rank_weights[sindices]
 
-                            weighted = np.atleast_1d(np.ma.average(collected_to_weight, weights=rank_weights))
+                            weighted = np.atleast_1d(np.ma.average(collected_to_weight,
+                                                                   weights=rank_weights[sindices]))
                             var_to_weight[idx_slc].get_value()[:] = weighted
         if vm.rank == root:
             return ret
-- 
2.43.0


From 8da9b6a72406198a995bb0cc158b914785ec021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 57/76] fix: masked averages of a rank count as data in
 parallel spatial averages

---
 src/ocgis/variable/geom.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 506f811..bb60809 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -1050,9 +1050,10 @@ class GeometryVariable(AbstractSpatialVariable):
                     dimensions_to_itr = [dim.name for dim in var_to_weight.dimensions if
                                          dim.name != union_dimension.name]
                     slc = {union_dimension.name: 0}
+                    weighted_mask = np.zeros(var_to_weight.shape, dtype=bool)
                     for idx_slc in var_to_weight.iter_dict_slices(dimensions=dimensions_to_itr):
                         idx_slc.update(slc)
-                        to_weight = var_to_weight[idx_slc].get_value().flatten()[0]
+                        to_weight = var_to_weight[idx_slc].get_masked_value().flatten()[0]
                         if vm.rank == root:
                             collected_to_weight = [to_weight]
                         if not vm.rank == root:
@@ -1064,13 +1065,17 @@ class GeometryVariable(AbstractSpatialVariable):
                                     collected_to_weight.append(recv_to_weight)
 
                             # Sort to minimize floating point sum errors.
-                            collected_to_weight = np.array(collected_to_weight)
+                            collected_to_weight = np.ma.array(collected_to_weight)
                             sindices = np.argsort(collected_to_weight)
                             collected_to_weight = collected_to_weight[sindices]
 
                             weighted = np.atleast_1d(np.ma.average(collected_to_weight,
                                                                    weights=rank_weights[sindices]))
                             var_to_weight[idx_slc].get_value()[:] = weighted
+                            weighted_index = tuple([idx_slc[dn] for dn in var_to_weight.dimension_names])
+                            weighted_mask[weighted_index] = np.ma.getmaskarray(weighted)[0]
+                    if vm.rank == root:
+                        var_to_weight.set_mask(weighted_mask if weighted_mask.any() else None)
         if vm.rank == root:
             return ret
         else:
-- 
2.43.0


From 74336acc57f5009dc8166a49383702c376127902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 58/76] fix: unioning some dimensions of a geometry variable
 fails or unions the wrong geometries

---
 src/ocgis/variable/geom.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index bb60809..605dd7a 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -923,7 +923,9 @@ class GeometryVariable(AbstractSpatialVariable):
             # Select the geometries to union skipping any masked geometries.
             to_union = deque()
             for indices in product(*[list(range(dl)) for dl in dimension_lengths]):
-                dslc = {dimension_names[ii]: indices[ii] for ii in range(len(dimension_names))}
+                # Select one geometry. Dimensions that are not unioned are fixed by the destination.
+                dslc = {dn: idx for dn, idx in dst_slc.items() if dn in self.dimension_names}
+                dslc.update({dimension_names[ii]: indices[ii] for ii in range(len(dimension_names))})
                 sub = self[dslc]
                 sub_mask = sub.get_mask()
                 if sub_mask is None:
@@ -950,7 +952,7 @@ class GeometryVariable(AbstractSpatialVariable):
 
             # Fill the return geometry variable value with the unioned geometry.
             to_fill = ret[dst_slc].get_value()
-            to_fill[0] = unioned
+            to_fill[(0,) * to_fill.ndim] = unioned
 
         # Spatial average shared dimensions.
         if spatial_average is not None:
@@ -963,16 +965,18 @@ class GeometryVariable(AbstractSpatialVariable):
                 # Dimension names that are squeezed. Also the dimensions for the weight matrix.
                 names_to_slice_all = []
                 for dn in var_to_weight.dimensions:
-                    if dn.name in self.dimension_names:
+                    if dn.name in dimension_names:
                         names_to_slice_all.append(dn.name)
                     else:
                         range_to_itr.append(len(dn))
                         names_to_itr.append(dn.name)
 
                 # Reference the weights on the source geometry variable. Order the weight axes to make sure they align
-                # with the target variable.
+                # with the target variable. Dimensions that are not unioned come first.
                 weights = self.weights
-                weights = weights.transpose([self.dimension_names.index(nsa) for nsa in names_to_slice_all])
+                names_to_index = [dn for dn in self.dimension_names if dn not in names_to_slice_all]
+                weights = weights.transpose([self.dimension_names.index(dn)
+                                             for dn in names_to_index + names_to_slice_all])
 
                 # Path if there are iteration dimensions. Checks for axes ordering in addition.
                 if len(range_to_itr) > 0:
@@ -1004,7 +1008,8 @@ class GeometryVariable(AbstractSpatialVariable):
                         data_to_weight = var_to_weight[w_slc].get_masked_value()
                         if should_squeeze:
                             data_to_weight = np_squeeze(data_to_weight, axis=tuple(squeeze_out))
-                        weighted_value = np_atleast_1d(np_ma_average(data_to_weight, weights=weights))
+                        weights_to_use = weights[tuple([w_slc[dn] for dn in names_to_index])]
+                        weighted_value = np_atleast_1d(np_ma_average(data_to_weight, weights=weights_to_use))
                         target[w_slc].get_value()[:] = weighted_value
                         # There is no average if all data are masked.
                         target_mask[nonweighted_indices] = np.ma.getmaskarray(weighted_value)
-- 
2.43.0


From 1b06a9805a4094a9e21b3de652377aac69544b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 59/76] fix: spatial averages of integers are truncated

---
 src/ocgis/variable/geom.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 605dd7a..098e32a 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -988,6 +988,9 @@ class GeometryVariable(AbstractSpatialVariable):
                     # Prepare the spatially averaged variable.
                     target = ret.parent[var_to_weight.name]
                     target.set_mask(None)
+                    # The average of integers is not an integer.
+                    if np.issubdtype(var_to_weight.dtype, np.integer):
+                        target.dtype = 'auto'
                     target._value = None
                     target.set_dimensions(new_dimensions)
                     target.allocate_value()
@@ -1027,6 +1030,9 @@ class GeometryVariable(AbstractSpatialVariable):
                     weighted_value = np.atleast_1d(np.ma.average(target_to_weight, weights=weights))
                     target = ret.parent[var_to_weight.name]
                     target.set_mask(None)
+                    # The average of integers is not an integer.
+                    if np.issubdtype(var_to_weight.dtype, np.integer):
+                        target.dtype = 'auto'
                     target._value = None
                     target.set_dimensions(new_dimensions)
                     target.set_value(weighted_value)
-- 
2.43.0


From 6d3469f7cd24d8aea78ec68d80ca44efeb3a257c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 60/76] fix: intersection without an intersects check cannot
 return the slice

---
 src/ocgis/variable/geom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 098e32a..94c5594 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -751,9 +751,9 @@ class GeometryVariable(AbstractSpatialVariable):
                 obj = ret
         else:
             if return_slice:
-                global_slice = [(slice(d.bounds_global[0], d.bounds_global[1]) for d in self.dimensions)]
-                ret = (ret, global_slice)
+                global_slice = tuple([slice(d.bounds_global[0], d.bounds_global[1]) for d in self.dimensions])
                 obj = ret
+                ret = (ret, global_slice)
             else:
                 obj = ret
 
-- 
2.43.0


From c8d80ab9f7a68d8efcfb35f1ff57727789851862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 61/76] fix: geometry type is stale after intersections and
 unions

---
 src/ocgis/variable/geom.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 94c5594..b8b3ac1 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -763,6 +763,8 @@ class GeometryVariable(AbstractSpatialVariable):
             obj_value = obj.get_masked_value()
             for idx, geom in iter_array(obj_value, return_value=True):
                 obj_value.data[idx] = geom.intersection(subset_geometry)
+            # The operation may change the geometry type.
+            obj._geom_type = 'auto'
         return ret
 
     def get_iter(self, *args, **kwargs):
@@ -913,6 +915,8 @@ class GeometryVariable(AbstractSpatialVariable):
             ret = ret.extract()
         ret.set_mask(None)
         ret._value = None
+        # The operation may change the geometry type.
+        ret._geom_type = 'auto'
         ret.set_dimensions(new_dimensions)
         ret.allocate_value()
 
-- 
2.43.0


From 2f3cd51fff8b40d7fc5fd30c9ac98b8862b943ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 62/76] fix: the hint mask for element geometries is not used
 if the object has no mask

---
 src/ocgis/spatial/geomc.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index be7c49c..cb4797f 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -360,14 +360,12 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
             else:
                 mask_value = np.logical_or(mask_value, hint_mask)
 
-        has_mask = self.has_mask
-        has_masked_values = self.has_masked_values_global
         has_z = self.has_z
         get_shapely_geometry = self.get_shapely_geometry
         get_element_node_connectivity_by_index = self.get_element_node_connectivity_by_index
         start_index = self.start_index
         for idx in range(len(self.element_dim)):
-            if use_mask and has_mask and has_masked_values:
+            if use_mask and mask_value is not None:
                 is_masked = mask_value[idx]
             else:
                 is_masked = False
-- 
2.43.0


From 0e498ea5b36d71eb1c35466d016a3eafc45d5a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 63/76] fix: masks hinting spatial operations on unstructured
 coordinates are overwritten or ignored

---
 src/ocgis/spatial/geomc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index cb4797f..2ea75ec 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -561,8 +561,11 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
                 mask = self.get_mask()
                 if mask is not None:
                     original_mask = np.logical_or(mask, hint_mask)
-        elif not self.__use_bounds_intersects_optimizations__:
+        elif original_mask is None:
             original_mask = np.zeros(self.element_dim.size, dtype=bool)
+        else:
+            # The array is filled by the operation.
+            original_mask = original_mask.copy()
 
         ret = self.copy()
         if original_has_mask:
-- 
2.43.0


From 35d25d71eadc65f75a8de0512e5737757fa9c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 64/76] fix: unsliced subsets of unstructured coordinates do
 not mask unselected elements

---
 src/ocgis/spatial/geomc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index 2ea75ec..14aedb5 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -601,6 +601,8 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
                 sliced_obj = ret.get_distributed_slice(the_slice)
             else:
                 sliced_obj = ret
+                # Elements outside the subset geometry are not removed. They need to be masked.
+                sliced_obj.set_mask(fill_mask)
             sliced_mask_value = sliced_obj.get_mask()
 
             # Only modify the outgoing mask if any values are masked.
-- 
2.43.0


From 82ca84013947e40a0f7c64664f6b6476bea4420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 65/76] fix: spatial operations on unstructured coordinates
 change the collection operated on

---
 src/ocgis/spatial/geomc.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index 14aedb5..519fc6e 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -301,6 +301,16 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
             raise RequestableFeature(target)
         return ret
 
+    def copy(self):
+        """
+        :return: shallow copy of the geometry coordinates
+        :rtype: :class:`~ocgis.spatial.geomc.AbstractGeometryCoordinates`
+        """
+
+        ret = super(AbstractGeometryCoordinates, self).copy()
+        ret.parent = ret.parent.copy()
+        return ret
+
     def get_geometry_iterable(self, use_mask=True, hint_mask=None, use_memory_optimizations=None, with_index=True):
         """
         Yield a tuple composed of the current iterator index and Shapely geometry object. If the geometry is masked,
-- 
2.43.0


From 287aacbc0db0835e3860f803e1ae31bd38d63b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 66/76] fix: bounding boxes crossing the prime meridian are not
 prepared for grid subsets

---
 src/ocgis/spatial/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index cf2e84b..c7f4577 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -592,7 +592,7 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
         raise_if_empty(self)
 
         try:
-            subset_geom.prepare()
+            subset_geom = subset_geom.prepare()
         except AttributeError:
             if not isinstance(subset_geom, BaseGeometry):
                 msg = 'Only Shapely geometries allowed for subsetting. Subset type is "{}".'.format(
-- 
2.43.0


From 6c12f7eafe73e3e96329abe2c8290260718840f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 67/76] fix: masks hinting spatial operations on grids are
 overwritten

---
 src/ocgis/spatial/grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index c7f4577..3753467 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -664,6 +664,9 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
                 mask = self.get_mask()
                 if mask is not None:
                     original_mask = np.logical_or(mask, hint_mask)
+        else:
+            # The array is filled by the operation.
+            original_mask = original_mask.copy()
 
         ret = self.copy()
         if original_grid_has_mask:
-- 
2.43.0


From a166c0c3b69e162a24c2b2dea195f4270440595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:26 +0000
Subject: [PATCH 68/76] fix: grid subsets miss cells much larger than the
 average resolution

---
 src/ocgis/spatial/grid.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 3753467..1dd378d 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -639,7 +639,7 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
 
         if original_mask is None:
             if not optimized_bbox_subset:
-                buffer_value = self.resolution * 1.25
+                buffer_value = get_hint_mask_buffer(self, use_bounds)
 
             if isinstance(subset_geom, BaseMultipartGeometry):
                 geom_itr = subset_geom
@@ -1286,6 +1286,19 @@ def get_hint_mask_from_geometry_bounds(grid, bbox, invert=True, no_touching=Fals
     return select
 
 
+def get_hint_mask_buffer(grid, use_bounds):
+    """
+    Get the distance around a selection geometry containing the representative coordinates of all grid elements possibly
+    intersecting the geometry. The average resolution is not sufficient if cells differ in size.
+    """
+    ret = grid.resolution * 1.25
+    if use_bounds and grid.has_bounds:
+        for var in (grid.x, grid.y):
+            distances = np.abs(var.bounds.get_value() - var.get_value()[..., np.newaxis])
+            ret = max(ret, distances.max() * 1.25)
+    return ret
+
+
 def grid_set_geometry_variable_on_parent(func, grid, name, alloc_only=False):
     dimensions = [d.name for d in grid.dimensions]
     ret = get_geometry_variable(func, grid, name=name, attrs={'axis': 'geom'}, alloc_only=alloc_only,
-- 
2.43.0


From fc4e8ea2f265464da4a6a3747b70281839143d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:26 +0000
Subject: [PATCH 69/76] fix: the root rank is weighted by the area of all ranks
 in parallel spatial averages

---
 src/ocgis/variable/geom.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index b8b3ac1..9a45065 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -920,6 +920,9 @@ class GeometryVariable(AbstractSpatialVariable):
         ret.set_dimensions(new_dimensions)
         ret.allocate_value()
 
+        # Areas of the unioned geometries on the current rank. The root rank is filled with the geometries of all ranks.
+        rank_areas = np.zeros(ret.shape, dtype=env.NP_FLOAT)
+
         # Destination indices in the return variable are filled with non-masked, unioned geometries.
         for dst_indices in product(*[list(range(dl)) for dl in get_dimension_lengths(new_dimensions)]):
             dst_slc = {new_dimensions[ii].name: dst_indices[ii] for ii in range(len(new_dimensions))}
@@ -947,6 +950,7 @@ class GeometryVariable(AbstractSpatialVariable):
                 else:
                     processed_to_union.append(geom)
             unioned = cascaded_union(processed_to_union)
+            rank_areas[dst_indices] = unioned.area
 
             # Pull unioned geometries and union again for the final unioned geometry.
             if vm.size > 1:
@@ -1044,10 +1048,10 @@ class GeometryVariable(AbstractSpatialVariable):
             # Collect areas of live ranks and convert to weights.
             if vm.size > 1:
                 # If there is no area information (points for example, we need to use counts).
-                if ret.area.data[0].max() == 0:
+                if rank_areas[0].max() == 0:
                     weight_or_proxy = float(self.size)
                 else:
-                    weight_or_proxy = ret.area.data[0]
+                    weight_or_proxy = rank_areas[0]
 
                 if vm.rank != root:
                     vm.comm.send(weight_or_proxy, dest=root)
-- 
2.43.0


From d18896994ff016ff004bfe6eedadbbe29f17a8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:15 +0000
Subject: [PATCH 70/76] fix: bounds of a dimension map are lost when dimension
 names are updated from metadata

---
 src/ocgis/driver/dimension_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index 5e0f052..65779c4 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -594,7 +594,7 @@ class DimensionMap(AbstractOcgisObject):
             if variable_name is not None and len(dimension_names) == 0:
                 metadata_dimensions = metadata.get('variables', {}).get(variable_name, {}).get('dimensions', [])
                 if len(metadata_dimensions) > 0:
-                    self.set_variable(k, variable_name, dimension=metadata_dimensions)
+                    self.set_variable(k, variable_name, dimension=metadata_dimensions, bounds=self.get_bounds(k))
 
     def _get_element_(self, entry_key, element_key, default):
         if entry_key == DMK.CRS:
-- 
2.43.0


From 6382e4e6264a816a3318a8c2d53f1b1550840d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:15 +0000
Subject: [PATCH 71/76] fix: setting a variable on a dimension map keeps the
 section of the variable set before

---
 src/ocgis/driver/dimension_map.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index 65779c4..0ef1f19 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -561,6 +561,8 @@ class DimensionMap(AbstractOcgisObject):
         entry[DMK.BOUNDS] = bounds
         entry[DMK.DIMENSION] = dimension
         entry[DMK.ATTRS] = attrs
+        # A section belongs to the variable it was set with.
+        entry.pop(DMK.SECTION, None)
         if section is not None:
             entry[DMK.SECTION] = section
 
@@ -594,7 +596,8 @@ class DimensionMap(AbstractOcgisObject):
             if variable_name is not None and len(dimension_names) == 0:
                 metadata_dimensions = metadata.get('variables', {}).get(variable_name, {}).get('dimensions', [])
                 if len(metadata_dimensions) > 0:
-                    self.set_variable(k, variable_name, dimension=metadata_dimensions, bounds=self.get_bounds(k))
+                    self.set_variable(k, variable_name, dimension=metadata_dimensions, bounds=self.get_bounds(k),
+                                      section=self._get_entry_(k).get(DMK.SECTION))
 
     def _get_element_(self, entry_key, element_key, default):
         if entry_key == DMK.CRS:
-- 
2.43.0


From 1455fdef8e6c7269351a1d08db4e9d5813119652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:15 +0000
Subject: [PATCH 72/76] fix: valid convolutions mask every realization and
 level like the first one

---
 src/ocgis/calc/library/math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/calc/library/math.py b/src/ocgis/calc/library/math.py
index 214b006..647c270 100644
--- a/src/ocgis/calc/library/math.py
+++ b/src/ocgis/calc/library/math.py
@@ -93,7 +93,8 @@ class Convolve1D(base.AbstractUnivariateFunction, base.AbstractParameterizedFunc
         if mode == 'valid':
             # generate the mask for the output data and convert the output to a masked array
             mask = np.empty(fill.shape, dtype=bool)
-            mask[...] = values.mask[0, 0, 0, :, :]
+            # every realization and level has its own mask
+            mask[...] = np.ma.getmaskarray(values)[:, 0:1, :, :, :]
             fill = np.ma.array(fill, mask=mask)
 
             # identify where the two arrays completely overlap and collect the indices to subset the field object
-- 
2.43.0


From c8ef7d6aa03cd1012e0dd6a67924645279662e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:15 +0000
Subject: [PATCH 73/76] fix: expression calculations only recognise names next
 to an operator and names without a function's name in them

---
 src/ocgis/calc/eval_function.py | 37 ++++++++++++---------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/src/ocgis/calc/eval_function.py b/src/ocgis/calc/eval_function.py
index ecc3b7a..433a650 100644
--- a/src/ocgis/calc/eval_function.py
+++ b/src/ocgis/calc/eval_function.py
@@ -120,10 +120,6 @@ class EvalFunction(AbstractUnivariateFunction):
         :raises ValueError:
         """
 
-        # standard arithmetic mathematical operators
-        math_set = '[(\-+*/)]'
-        # regular expressions use to find the variable aliases
-        re_expr_base = ['{1}{0}{1}', '^{0}{1}', '{1}{0}$', '^{0}$', '{1}{0},']
         # attempt to split the expression at the equals sign.
         try:
             out_variable_name, expr = expr.split('=')
@@ -140,26 +136,19 @@ class EvalFunction(AbstractUnivariateFunction):
                 raise ValueError('Unable to parse expression string: "{0}". '
                                  'Ensure the NumPy functions are enabled and appropriate '
                                  'variables have been requested. The problem string value is "{1}".'.format(expr, s))
-        # update the names of the numpy functions to use the module prefix "np"
-        for np_func in constants.ENABLED_NUMPY_UFUNCS:
-            expr = expr.replace(np_func, 'np.' + np_func)
-        # update the variable aliases to match the key-value relationship in "map_vars"
-        max_ctr = len(expr)
-        for k, v in map_vars.items():
-            for r in re_expr_base:
-                re_expr = r.format(k, math_set)
-                ctr = 0
-                while True:
-                    def repl(mo):
-                        return mo.group(0).replace(k, v)
-
-                    expr = re.sub(re_expr, repl, expr)
-                    if re.search(re_expr, expr) is None:
-                        break
-                    ctr += 1
-                    if ctr > max_ctr:
-                        break
-        return expr, out_variable_name
+        # update the variable aliases to match the key-value relationship in "map_vars" and the names of the numpy functions
+        # to use the module prefix "np". names are replaced as a whole.
+        def repl(mo):
+            name = mo.group(0)
+            if name in map_vars:
+                return map_vars[name]
+            elif name in constants.ENABLED_NUMPY_UFUNCS:
+                return 'np.' + name
+            else:
+                return name
+
+        expr = re.sub("[A-Za-z0-9_]+", repl, expr).strip()
+        return expr, out_variable_name.strip()
 
     def _set_derived_variable_alias_(self, *args, **kwargs):
         pass
-- 
2.43.0


From 80c03f4918be3385b9ff455913dd64fabb944df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:15 +0000
Subject: [PATCH 74/76] fix: expression calculations lose the mask of their
 result

---
 src/ocgis/calc/eval_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/calc/eval_function.py b/src/ocgis/calc/eval_function.py
index 433a650..bd93b55 100644
--- a/src/ocgis/calc/eval_function.py
+++ b/src/ocgis/calc/eval_function.py
@@ -74,6 +74,9 @@ class EvalFunction(AbstractUnivariateFunction):
                 carr_fill.data[:] = res.data
                 carr_fill.mask[:] = res.mask
 
+            # Setting the values ensures the mask is updated on the output variables.
+            fill.set_value(arr_fill)
+
         self._add_to_collection_({'fill': fill})
 
     @staticmethod
-- 
2.43.0


From 24d2668baee21238ba140f5de32dc44c0ff82392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:15 +0000
Subject: [PATCH 75/76] fix: a calculation expression following another
 calculation evaluates the first one instead

---
 src/ocgis/calc/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/calc/engine.py b/src/ocgis/calc/engine.py
index 29ee0c7..bd73adb 100644
--- a/src/ocgis/calc/engine.py
+++ b/src/ocgis/calc/engine.py
@@ -104,8 +104,8 @@ class CalculationEngine(object):
                             new_temporal = function.tgd.extract()
                     except KeyError:
                         # Likely an eval function which does not have the name key.
-                        function = EvalFunction(field=field, file_only=file_only, vc=out_vc, expr=self.funcs[0]['func'],
-                                                meta_attrs=self.funcs[0].get('meta_attrs'))
+                        function = EvalFunction(field=field, file_only=file_only, vc=out_vc, expr=f['func'],
+                                                meta_attrs=f.get('meta_attrs'))
 
                     ocgis_lh('calculation initialized', logger='calc.engine', level=logging.DEBUG)
 
-- 
2.43.0


From 46d57a431ce653395c9668254b88e0f1c375332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:15 +0000
Subject: [PATCH 76/76] fix: frequency percentiles use masked values

---
 src/ocgis/calc/library/statistics.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/calc/library/statistics.py b/src/ocgis/calc/library/statistics.py
index 94b8dc8..3d9903e 100644
--- a/src/ocgis/calc/library/statistics.py
+++ b/src/ocgis/calc/library/statistics.py
@@ -1,5 +1,6 @@
 import calendar
 import itertools
+import warnings
 from collections import OrderedDict, defaultdict
 from datetime import datetime
 
@@ -360,8 +361,13 @@ class FrequencyPercentile(base.AbstractUnivariateSetFunction, base.AbstractParam
         :type percentile: float on the interval [0,100]
         """
 
-        ret = np.percentile(values, percentile, axis=0)
-        ret = np.ma.array(ret, mask=values.mask[0, :, :])
+        # NumPy's percentile does not ignore masked values.
+        mask = np.ma.getmaskarray(values)
+        with warnings.catch_warnings():
+            # There are no values to use for a location when everything is masked.
+            warnings.simplefilter('ignore', RuntimeWarning)
+            ret = np.nanpercentile(np.where(mask, np.nan, values.data), percentile, axis=0)
+        ret = np.ma.array(ret, mask=mask.all(axis=0))
         return ret
 
 
-- 
2.43.0

