From 3f83c01e08603023eaa08a8b25d3b46805983e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:17 +0000
Subject: [PATCH 01/90] fix: elements that left the map no longer weather in
 their last step

Their mass is added to mass_balance['off_maps'] when they leave; evaporation and
dispersion in the rest of the step were then counted a second time.
---
 py_gnome/gnome/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 757e1cd..50070f6 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1025,6 +1025,11 @@ class Model(GnomeId):
             on_land_mask = sc['status_codes'] == oil_status.on_land
             sc['fate_status'][on_land_mask] = fate.non_weather
 
+            # elements that left the map are already accounted for in the
+            # mass balance: they must not weather during their last step
+            off_map_mask = sc['status_codes'] == oil_status.to_be_removed
+            sc['fate_status'][off_map_mask] = fate.non_weather
+
             w_mask = ((sc['status_codes'] == oil_status.in_water)
                       & ~(sc['fate_status'] & fate.skim == fate.skim)
                       & ~(sc['fate_status'] & fate.burn == fate.burn)
-- 
2.43.0


From 2b476aeec1de28e1365e1b770d6dd7ba92a83177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:44 +0000
Subject: [PATCH 02/90] fix: element ids start at 0 for every container and are
 not reused

The initial value of the shared 'id' array type was set after the spill had
already appended its elements, so ids depended on earlier runs, interleaved
between forecast and uncertain elements, and could be given twice.
---
 py_gnome/gnome/spill_container.py | 43 +++++++++++++++----------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/py_gnome/gnome/spill_container.py b/py_gnome/gnome/spill_container.py
index a7332e1..65935ce 100644
--- a/py_gnome/gnome/spill_container.py
+++ b/py_gnome/gnome/spill_container.py
@@ -898,30 +898,29 @@ class SpillContainer(AddLogger, SpillContainerData):
             if not spill.on:
                 continue
 
+            # The spill appends to the data arrays when it releases elements,
+            # so these initial values must be set before that.
+
+            # update 'spill_num' ArrayType's initial_value so it
+            # corresponds with spill number for this set of released
+            # particles - just another way to set value of spill_num
+            # correctly
+            self._array_types['spill_num'].initial_value = \
+                self.spills.index(spill)
+
+            # unique identifier for each new element released
+            # this adjusts the _array_types initial_value since the
+            # initialize function just calls:
+            #  range(initial_value, num_released + initial_value)
+            # The array_types are shared globally (e.g. with the uncertain
+            # spills), so the number of elements released by this container
+            # is used: it starts at 0 and the id of an element that was
+            # removed is not given to another one.
+            self._array_types['id'].initial_value = \
+                sum(sp._num_released for sp in self.spills)
+
             num_rel = spill.release_elements(self, start_time, end_time, environment=environment)
             if num_rel > 0:
-                # update 'spill_num' ArrayType's initial_value so it
-                # corresponds with spill number for this set of released
-                # particles - just another way to set value of spill_num
-                # correctly
-                self._array_types['spill_num'].initial_value = \
-                    self.spills.index(spill)
-
-                if len(self['spill_num']) > 0:
-                    # unique identifier for each new element released
-                    # this adjusts the _array_types initial_value since the
-                    # initialize function just calls:
-                    #  range(initial_value, num_released + initial_value)
-                    self._array_types['id'].initial_value = \
-                        self['id'][-1] + 1
-                else:
-                    # always reset value of first particle released to 0!
-                    # The array_types are shared globally. To initialize
-                    # uncertain spills correctly, reset this to 0.
-                    # To be safe, always reset to 0 when no
-                    # particles are released
-                    self._array_types['id'].initial_value = 0
-
                 # append to data arrays - number of oil components is
                 # currently the same for all spills
                 total_rel += num_rel
-- 
2.43.0


From 93cfcfc411ff76de09e3a9f8299b5d0994c60726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:09 +0000
Subject: [PATCH 03/90] fix: rewinding a point/line or polygon release forgets
 the volume released so far

The volume kept from the previous run changed the initial slick area, so a rerun
after rewind() did not reproduce the first run.
---
 py_gnome/gnome/spills/release.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index a4a443d..87975f6 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -672,6 +672,7 @@ class PointLineRelease(Release):
         self._mass_per_le = 0
         self._release_ts = None
         self._pos_ts = None
+        self._previously_released = 0.0
 
     def prepare_for_model_run(self, ts):
         super(PointLineRelease, self).prepare_for_model_run(ts)
@@ -894,6 +895,7 @@ class PolygonRelease(Release):
         self._tris = None
         self._weights = None
         #self._pos_ts = None
+        self._previously_released = 0.0
 
     def get_polys_as_tris(self, polys, weights=None):
         #decomposes a
-- 
2.43.0


From c099141e7c6bf961260c8728427a9ad9449b23be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:30 +0000
Subject: [PATCH 04/90] fix: point/line and subsurface releases honour
 num_per_timestep

The documented argument was accepted and dropped, so 1000 elements were released.
---
 py_gnome/gnome/spills/release.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 87975f6..19e1daa 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -571,6 +571,7 @@ class PointLineRelease(Release):
         super(PointLineRelease, self).__init__(release_time=release_time,
                                                end_release_time=end_release_time,
                                                num_elements=num_elements,
+                                               num_per_timestep=num_per_timestep,
                                                release_mass = release_mass,
                                                **kwargs)
 
@@ -1453,6 +1454,7 @@ class SubsurfaceRelease(PointLineRelease):
         super(SubsurfaceRelease, self).__init__(release_time=release_time,
                                                end_release_time=end_release_time,
                                                num_elements=num_elements,
+                                               num_per_timestep=num_per_timestep,
                                                release_mass = release_mass,
                                                start_position = start_position,
                                                end_position = end_position,
-- 
2.43.0


From 4c6e6546f7bb56b4e348b630424802feb24c7a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:30 +0000
Subject: [PATCH 05/90] fix: setting PolygonRelease.polygons raised NameError

---
 py_gnome/gnome/spills/release.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 19e1daa..96d9239 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -850,7 +850,7 @@ class PolygonRelease(Release):
     @polygons.setter
     def polygons(self, polys):
         #polygons must be list of shapely or geojson (Multi)Polygon
-        for feat, poly in zip(self.features[:], poly):
+        for feat, poly in zip(self.features[:], polys):
             feat.geometry = geojson.loads(geojson.dumps(poly.__geo_interface__))
 
     @property
-- 
2.43.0


From 039af6af844ed08dd2ff9fb7aadff98184a9e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:31 +0000
Subject: [PATCH 06/90] fix: Release.num_per_timestep can be set to None and
 rejects negative numbers

---
 py_gnome/gnome/spills/release.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 96d9239..324c52e 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -287,8 +287,10 @@ class Release(GnomeId):
         3. invokes _reference_to_num_elements_to_release(), which updates the
             method referenced by num_elements_to_release
         '''
+        if val is not None and val < 0:
+            raise ValueError('number of elements cannot be less than 0')
         self._num_per_timestep = val
-        if val is not None or val < 0:
+        if val is not None:
             self._num_elements = None
 
     @property
-- 
2.43.0


From e038dc6c1969b3cbd8c3c2cfaa37f697ef54749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:14 +0000
Subject: [PATCH 07/90] fix: grid release over elongated bounds with a single
 resolution

The number of columns (or rows) rounded to zero: ZeroDivisionError or no elements.
---
 py_gnome/gnome/spills/release.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 324c52e..61fd5e0 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -1148,8 +1148,9 @@ class GridRelease(Release):
         width *= np.cos(math.radians(center[1]))
 
         ry = math.sqrt(height / width) * avg_res
-        rx = round(avg_res**2 / ry)
-        ry = round(avg_res**2 / rx)
+        # at least one point in each direction, however elongated the bounds are
+        rx = max(1, round(avg_res**2 / ry))
+        ry = max(1, round(avg_res**2 / rx))
 
         return (rx, ry)
 
-- 
2.43.0


From 918c4697cc25ac814bd68d127e5c8bb95793e972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:12 +0000
Subject: [PATCH 08/90] fix: a refused split_element leaves the element arrays
 unchanged

---
 py_gnome/gnome/spill_container.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spill_container.py b/py_gnome/gnome/spill_container.py
index 65935ce..559f7fb 100644
--- a/py_gnome/gnome/spill_container.py
+++ b/py_gnome/gnome/spill_container.py
@@ -956,12 +956,16 @@ class SpillContainer(AddLogger, SpillContainerData):
             self.logger.warning(msg)
             raise
 
+        # replace the arrays only after all of them could be split: num or
+        # l_frac may be invalid
+        split_arrays = {}
         for name, at in self.array_types.items():
             data = self[name]
             split_elems = at.split_element(num, self[name][idx], l_frac)
             data = np.insert(data, idx, split_elems[:-1], 0)
             data[idx + len(split_elems) - 1] = split_elems[-1]
-            self._data_arrays[name] = data
+            split_arrays[name] = data
+        self._data_arrays.update(split_arrays)
 
         # update fate_dataview which contains this LE
         # for now we only have one type of substance
-- 
2.43.0


From e880230ce7fe7a9666850e64f221c8f464b53691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:18 +0000
Subject: [PATCH 09/90] fix: split_element no longer fails when a fate view
 lacks the id array

---
 py_gnome/gnome/spill_container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/spill_container.py b/py_gnome/gnome/spill_container.py
index 559f7fb..ae39187 100644
--- a/py_gnome/gnome/spill_container.py
+++ b/py_gnome/gnome/spill_container.py
@@ -152,8 +152,8 @@ class FateDataView(AddLogger):
         for fate in self._dicts_:
             data = getattr(self, fate)
             if len(data) > 0:
-                idx = np.where(data['id'] == ix)[0]
-                if len(idx) > 0:
+                # a view without the 'id' array may contain the LE
+                if 'id' not in data or np.any(data['id'] == ix):
                     self._set_data(sc, data.keys(),
                                    self._get_fate_mask(sc, fate),
                                    fate)
-- 
2.43.0


From a9d11bead7238b3564ed1ac352c980e5dd6d227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:18 +0000
Subject: [PATCH 10/90] fix: OrderedCollection.replace by index after an object
 was removed

---
 py_gnome/gnome/utilities/orderedcollection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/utilities/orderedcollection.py b/py_gnome/gnome/utilities/orderedcollection.py
index 0bfc136..bc82898 100644
--- a/py_gnome/gnome/utilities/orderedcollection.py
+++ b/py_gnome/gnome/utilities/orderedcollection.py
@@ -137,8 +137,9 @@ class OrderedCollection(object):
                             f'expected {self.dtype}, got {type(new_elem)}')
 
         if isinstance(ident, int):
-            l__key = self._s_id(self._elems[ident])
-            idx = ident
+            # removed objects leave holes in _elems, so look up the position
+            idx = sorted(self._d_index.values())[ident]
+            l__key = self._s_id(self._elems[idx])
         else:
             if ident in self._d_index:
                 l__key = ident
-- 
2.43.0


From 9e9a8fd273af57f8cc61babe2aab810f8a28e3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:18 +0000
Subject: [PATCH 11/90] fix: OrderedCollection slices with negative, reversed
 or out of range bounds

---
 py_gnome/gnome/utilities/orderedcollection.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/py_gnome/gnome/utilities/orderedcollection.py b/py_gnome/gnome/utilities/orderedcollection.py
index bc82898..bf3751e 100644
--- a/py_gnome/gnome/utilities/orderedcollection.py
+++ b/py_gnome/gnome/utilities/orderedcollection.py
@@ -203,10 +203,7 @@ class OrderedCollection(object):
 
     def _slice_attr(self, ident):
         'support for slice operations like a list'
-        start = (ident.start, 0)[ident.start is None]
-        stop = (ident.stop, len(self))[ident.stop is None]
-        step = (ident.step, 1)[ident.step is None]
-        return (start, stop, step)
+        return ident.indices(len(self))
 
     def __getitem__(self, ident):
         'slicing works just like it does for lists'
-- 
2.43.0


From d12dba346db91141d635fe150843c460f619176c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:03 +0000
Subject: [PATCH 12/90] fix: the coarse land layers no longer let elements pass
 through land

---
 py_gnome/gnome/cy_gnome/cy_land_check.pyx | 58 ++++++++++++++++++-----
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/py_gnome/gnome/cy_gnome/cy_land_check.pyx b/py_gnome/gnome/cy_gnome/cy_land_check.pyx
index 847ad1d..2faf3cd 100644
--- a/py_gnome/gnome/cy_gnome/cy_land_check.pyx
+++ b/py_gnome/gnome/cy_gnome/cy_land_check.pyx
@@ -171,6 +171,30 @@ cdef bool c_find_first_pixel(uint8_t* grid,
 
 
 
+cdef bool c_any_in_box(uint8_t* grid,
+                       int32_t m,
+                       int32_t n,
+                       int32_t x0,
+                       int32_t y0,
+                       int32_t x1,
+                       int32_t y1,
+                       ):
+    """
+    returns True if there is a non-zero pixel in the box with the given
+    corners (inclusive, in any order), False otherwise
+
+    Used for the coarse layers: a line between two coarse pixels does not
+    touch all the coarse pixels that the line between the original pixels
+    goes through, the box does.
+    """
+    cdef int32_t i, j
+    for i in range(max(min(x0, x1), 0), min(max(x0, x1), m - 1) + 1):
+        for j in range(max(min(y0, y1), 0), min(max(y0, y1), n - 1) + 1):
+            if grid[i * n + j] != 0:
+                return True
+    return False
+
+
 def find_first_pixel(grid, pt1, pt2):
     """
     This finds the first non-zero pixel that is encountered when following
@@ -339,18 +363,28 @@ def check_land_layers(grid_layers,
                 coarse_end[0] = div(end_positions[i,0], grid_ratios[layer]).quot
                 coarse_end[1] = div(end_positions[i,1], grid_ratios[layer]).quot
                 cur_ratio = grid_ratios[layer]
-                did_hit = c_find_first_pixel(dataptrs[layer],
-                                         widths[layer],
-                                         heights[layer],
-                                         coarse_pos[0],
-                                         coarse_pos[1],
-                                         coarse_end[0],
-                                         coarse_end[1],
-                                         &prev_x,
-                                         &prev_y,
-                                         &hit_x,
-                                         &hit_y,
-                                         )
+                if layer < num_ratios - 1:
+                    did_hit = c_any_in_box(dataptrs[layer],
+                                           widths[layer],
+                                           heights[layer],
+                                           coarse_pos[0],
+                                           coarse_pos[1],
+                                           coarse_end[0],
+                                           coarse_end[1],
+                                           )
+                else:
+                    did_hit = c_find_first_pixel(dataptrs[layer],
+                                                 widths[layer],
+                                                 heights[layer],
+                                                 coarse_pos[0],
+                                                 coarse_pos[1],
+                                                 coarse_end[0],
+                                                 coarse_end[1],
+                                                 &prev_x,
+                                                 &prev_y,
+                                                 &hit_x,
+                                                 &hit_y,
+                                                 )
                 if did_hit:
                     if layer == num_ratios - 1:
                         # hit on the lowest layer (confirmed land hit)
-- 
2.43.0


From 28af5f16c6fa0425ce8d3086d01098fa51a6f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:03 +0000
Subject: [PATCH 13/90] fix: RasterMap.in_water off the raster

---
 py_gnome/gnome/maps/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index 7411f00..cef39f9 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -1022,7 +1022,7 @@ class RasterMap(GnomeMap):
     def _in_water_pixel(self, coord):
         # if  off the raster, so must be in water,
         # unless not on map, which should have already been checked.
-        if not self._off_raster:
+        if self._off_raster(coord):
             return True
         else:
             return not self.raster[coord[0], coord[1]] & self.land_flag
-- 
2.43.0


From 340156d8ed32bbcfd4b3996a1e6db21216b386e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:56 +0000
Subject: [PATCH 14/90] fix: shift_lons moves the longitudes that need it also
 when not all do

---
 py_gnome/gnome/maps/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index cef39f9..2eb2e2c 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -1201,14 +1201,14 @@ class RasterMap(GnomeMap):
 
 def ShiftLon360(points):
     try:
-        points[points[:,0] < 0, 0] = points[:, 0] + 360
+        points[points[:,0] < 0, 0] += 360
     except ValueError:
         pass
     return points
 
 def ShiftLon180(points):
     try:
-        points[points[:,0] > 180, 0] = points[:, 0] - 360
+        points[points[:,0] > 180, 0] -= 360
     except ValueError:
         pass
     return points
-- 
2.43.0


From 39187fd10d66b73a4cbfdbdd78c40cd2e5ba2537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:01 +0000
Subject: [PATCH 15/90] fix: elements released on land are not refloated to 0,
 0

---
 py_gnome/gnome/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 50070f6..f72bab4 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1261,6 +1261,10 @@ class Model(GnomeId):
                 # for sc in self.spills.items():
                 on_land = self.map.on_land_points(sc['positions'][-num_released:])
                 sc['status_codes'][-num_released:][on_land] = oil_status.on_land
+                # these were never in the water: there is nowhere else for
+                # them to be refloated to
+                sc['last_water_positions'][-num_released:][on_land] = \
+                    sc['positions'][-num_released:][on_land]
 
                 for item in self.weatherers:
                     if item.on:
-- 
2.43.0


From 422432a6d0924e4752c8408fcdf55381e5b3611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:09 +0000
Subject: [PATCH 16/90] fix: CurrentMover cross-stream uncertainty used the
 already changed u component

---
 py_gnome/gnome/movers/py_current_movers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_current_movers.py b/py_gnome/gnome/movers/py_current_movers.py
index f76dd6f..80033fe 100644
--- a/py_gnome/gnome/movers/py_current_movers.py
+++ b/py_gnome/gnome/movers/py_current_movers.py
@@ -321,8 +321,8 @@ class CurrentMover(movers.PyMover):
             # make a copy of deltas
             new_deltas = deltas.copy()
             unrec = self._uncertainty_list
-            u = new_deltas[:, 0]
-            v = new_deltas[:, 1]
+            u = deltas[:, 0]
+            v = deltas[:, 1]
             lengthS = np.hypot(u, v)
 
             #alpha = unrec.downStream
-- 
2.43.0


From 1a2a18407174d76a61a88bfc3e69725a9ca31e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:09 +0000
Subject: [PATCH 17/90] fix: uncertain elements drift and diffuse in light
 winds with the Python WindMover

---
 py_gnome/gnome/movers/py_wind_movers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_wind_movers.py b/py_gnome/gnome/movers/py_wind_movers.py
index a558857..aedec86 100644
--- a/py_gnome/gnome/movers/py_wind_movers.py
+++ b/py_gnome/gnome/movers/py_wind_movers.py
@@ -401,8 +401,9 @@ class WindMover(movers.PyMover):
                 if norm[i] < 1:
                     rand1 = np.random.uniform(-1., 1.)
                     rand2 = np.random.uniform(-1., 1.)
-                    deltas[i,0] = u[i] * self.uncertain_diffusion * rand1
-                    deltas[i,1] = v[i] * self.uncertain_diffusion * rand2
+                    # some small diffusion rather than nothing
+                    deltas[i,0] = new_deltas[i,0] + self.uncertain_diffusion * rand1 * time_step
+                    deltas[i,1] = new_deltas[i,1] + self.uncertain_diffusion * rand2 * time_step
 
         else:
             raise ValueError("something wrong with uncertainty")
-- 
2.43.0


From 6c6ed933db65582d832a104f103c28016b9e646d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:35 +0000
Subject: [PATCH 18/90] fix: elements leaving the map during the uncertainty
 time delay no longer stop the run

---
 py_gnome/gnome/movers/py_current_movers.py | 2 +-
 py_gnome/gnome/movers/py_wind_movers.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_current_movers.py b/py_gnome/gnome/movers/py_current_movers.py
index 80033fe..04b7d7a 100644
--- a/py_gnome/gnome/movers/py_current_movers.py
+++ b/py_gnome/gnome/movers/py_current_movers.py
@@ -391,7 +391,7 @@ class CurrentMover(movers.PyMover):
             to_be_removed = np.where(sc['status_codes'] ==
                                      oil_status.to_be_removed)[0]
 
-            if len(to_be_removed) > 0:
+            if len(to_be_removed) > 0 and len(self._uncertainty_list) > 0:
                 new_uncertainty = np.copy(self._uncertainty_list)
                 #self._uncertainty_list = np.delete(self._uncertainty_list, to_be_removed, axis=0)
                 self._uncertainty_list = np.delete(new_uncertainty, to_be_removed, axis=0)
diff --git a/py_gnome/gnome/movers/py_wind_movers.py b/py_gnome/gnome/movers/py_wind_movers.py
index aedec86..8ec6123 100644
--- a/py_gnome/gnome/movers/py_wind_movers.py
+++ b/py_gnome/gnome/movers/py_wind_movers.py
@@ -209,7 +209,7 @@ class WindMover(movers.PyMover):
             to_be_removed = np.where(sc['status_codes'] ==
                                      oil_status.to_be_removed)[0]
 
-            if len(to_be_removed) > 0:
+            if len(to_be_removed) > 0 and len(self.uncertainty_list) > 0:
                 new_uncertainty = np.copy(self.uncertainty_list)
                 self.uncertainty_list = np.delete(new_uncertainty, to_be_removed, axis=0)
 
-- 
2.43.0


From 9b5ce950b873712b26e366c9484813041e2e8bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:36 +0000
Subject: [PATCH 19/90] fix: Wind(filename=...) had the station's latitude and
 longitude swapped

---
 py_gnome/gnome/environment/wind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index ae10b47..2821f6a 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -215,8 +215,8 @@ class Wind(Timeseries, Environment):
             self.new_set_timeseries(wind_vel, coord_sys=coord_sys)
 
             if coords != (None, None):
-                self.longitude = coords[1]
-                self.latitude = coords[0]
+                self.longitude = coords[0]
+                self.latitude = coords[1]
 
             self.name = kwargs.pop('name', name)
             self.units = units
-- 
2.43.0


From 6c98fa6de0f7c2fc38a02c6efceabd835993d0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:36 +0000
Subject: [PATCH 20/90] fix: OSSM wind files with a blank station name could
 not be read

---
 py_gnome/gnome/environment/wind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 2821f6a..68d3955 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -841,7 +841,7 @@ def read_ossm_format(filename):
         try:
             # read the header
             (data, line_no, name, coords, units, timezone_offset,
-             timezone_name) = _read_ossm_header(infile)
+             timezone_name) = _read_ossm_header(infile, filename)
             # read the rest of the data
             times = [data[0]]
             speeds = [data[1]]
@@ -862,7 +862,7 @@ def read_ossm_format(filename):
     return (name, coords, units, timezone_offset, timezone_name, times, speeds, directions)
 
 
-def _read_ossm_header(infile):
+def _read_ossm_header(infile, filename=''):
     # there could be more sanity checking here
     # for now, for the most part, if it doesn't understand what's there
     # it ignores it.
-- 
2.43.0


From 7c239e60b54b5547fb87e3aaa3c7a1c8a827c9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:36 +0000
Subject: [PATCH 21/90] fix: units of the v component of winds given or asked
 for as 'uv' were not converted

---
 py_gnome/gnome/environment/wind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 68d3955..8d858e7 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -441,7 +441,7 @@ class Wind(Timeseries, Environment):
         if from_unit != to_unit:
             data[:, 0] = uc.convert('Velocity', from_unit, to_unit, data[:, 0])
 
-            if coord_sys == ts_format.uv:
+            if tsformat(coord_sys) == ts_format.uv:
                 data[:, 1] = uc.convert('Velocity', from_unit, to_unit, data[:, 1])
 
         return data
-- 
2.43.0


From 035d3cd22f3b6d0bb573e6dafd67cffbf7ea3a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:36 +0000
Subject: [PATCH 22/90] fix: Wind.timeseries is in the user's units and
 r-theta, and setting it leaves the caller's array alone

---
 py_gnome/gnome/environment/wind.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 8d858e7..e6b7598 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -30,6 +30,7 @@ from gnome.persist import (SchemaNode, drop, OneOf, Float, String, Range, Boolea
                            DefaultTupleSchema, LocalDateTime, DatetimeValue2dArraySchema,
                            FilenameSchema, validators, base_schema)
 from gnome.utilities.convert import (to_time_value_pair, tsformat, to_datetime_value_2d)
+from gnome.utilities.transforms import uv_to_r_theta_wind
 from gnome.persist.validators import convertible_to_seconds
 
 from .environment import Environment
@@ -371,8 +372,11 @@ class Wind(Timeseries, Environment):
         if self._check_timeseries(value):
             units = self.units
 
-            wind_data = self._xform_input_timeseries(value)
+            # copy, so that the caller's array is not changed
+            wind_data = self._xform_input_timeseries(value).copy()
             self._timeseries = wind_data.copy()
+            if tsformat(coord_sys) == ts_format.uv:
+                self._timeseries['value'] = uv_to_r_theta_wind(wind_data['value'])
             wind_data['value'] = self._convert_units(wind_data['value'], coord_sys, units,
                                                      'meter per second')
 
@@ -577,12 +581,7 @@ class Wind(Timeseries, Environment):
             self._check_units(units)
             self.units = units
 
-            wind_data = self._xform_input_timeseries(wind_data)
-            wind_data['value'] = self._convert_units(wind_data['value'], coord_sys, units,
-                                                     'meter per second')
-
-            super(Wind, self).set_timeseries(wind_data, coord_sys)
-            self._timeseries = wind_data
+            self.new_set_timeseries(wind_data, coord_sys)
         else:
             raise ValueError('Bad timeseries as input')
 
-- 
2.43.0


From e534f7df4c3cd5eaf0926344ddac8d3cf0802e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:36 +0000
Subject: [PATCH 23/90] fix: Wind.at ignored the units asked for

---
 py_gnome/gnome/environment/wind.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index e6b7598..9bda563 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -625,6 +625,8 @@ class Wind(Timeseries, Environment):
                        wind - value is the same for all points.
         :param time: Datetime of the time to be queried
 
+        :param units: velocity units of the result (default: m/s)
+
         :param coord_sys: String describing the coordinate system.
         '''
         if points is None:
@@ -663,7 +665,7 @@ class Wind(Timeseries, Environment):
             if self.extrapolation_is_allowed is None:  # shouldn't happen
                 self.extrapolation_is_allowed = False
         try:
-            data = self.get_wind_data(time, 'm/s', cs)[0]['value']
+            data = self.get_wind_data(time, 'm/s' if units is None else units, cs)[0]['value']
         except IndexError:
             # CyTimeseries is raising an IndexError
             raise ValueError(f'time specified ({time}) is not within the bounds of the time: '
-- 
2.43.0


From a40e70e95dbb0bff2d8128fe3a581e98ec28ec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:01 +0000
Subject: [PATCH 24/90] fix: a CurrentMover with a SteadyUniformCurrent can be
 saved

---
 py_gnome/gnome/movers/py_current_movers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_current_movers.py b/py_gnome/gnome/movers/py_current_movers.py
index 04b7d7a..b28c86e 100644
--- a/py_gnome/gnome/movers/py_current_movers.py
+++ b/py_gnome/gnome/movers/py_current_movers.py
@@ -14,7 +14,7 @@ from gnome.utilities.projections import FlatEarthProjection
 from gnome.utilities.time_utils import TZOffset
 
 
-from gnome.environment import GridCurrent
+from gnome.environment import GridCurrent, SteadyUniformCurrent
 from gnome.environment.gridded_objects_base import Grid_U, VectorVariableSchema
 
 from gnome.movers.movers import TimeRangeSchema, PyMoverSchema
@@ -30,7 +30,8 @@ class CurrentMoverSchema(PyMoverSchema):
     current = GeneralGnomeObjectSchema(save=True, update=True,
                                        save_reference=True,
                                        acceptable_schemas=[VectorVariableSchema,
-                                                           GridCurrent._schema]
+                                                           GridCurrent._schema,
+                                                           SteadyUniformCurrent._schema]
                                        )
     uncertain_along = SchemaNode(
         Float(), missing=drop, save=True, update=True
-- 
2.43.0


From 227866e5a193b5f1c0b098ab10096e7683ee5aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:01 +0000
Subject: [PATCH 25/90] fix: a Beaching with water can be saved

---
 py_gnome/gnome/weatherers/manual_beaching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/weatherers/manual_beaching.py b/py_gnome/gnome/weatherers/manual_beaching.py
index b95f09a..68d88cf 100644
--- a/py_gnome/gnome/weatherers/manual_beaching.py
+++ b/py_gnome/gnome/weatherers/manual_beaching.py
@@ -22,7 +22,7 @@ from gnome.persist import (validators, base_schema, DefaultTupleSchema,
 
 from .core import WeathererSchema
 from .cleanup import RemoveMass
-from gnome.environment.environment import WaterSchema
+from gnome.environment.water import WaterSchema
 
 
 class BeachingTupleSchema(DefaultTupleSchema):
-- 
2.43.0


From 91b1c957038a76dd5d2320c19590b81259eabd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:01 +0000
Subject: [PATCH 26/90] fix: load objects whose file name starts with a dot

---
 py_gnome/gnome/gnomeobject.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/gnomeobject.py b/py_gnome/gnome/gnomeobject.py
index bbe17c3..6286cba 100644
--- a/py_gnome/gnome/gnomeobject.py
+++ b/py_gnome/gnome/gnomeobject.py
@@ -3,7 +3,6 @@
 import os
 import copy
 import logging
-import glob
 import json
 import zipfile
 import tempfile
@@ -942,10 +941,10 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
                     return cls._schema().load(json_, saveloc=saveloc,
                                               refs=refs)
                 else:
-                    search = os.path.join(saveloc, '*.json')
-
-                    for fn in glob.glob(search):
-                        with open(fn) as fp:
+                    for fn in os.listdir(saveloc):
+                        if not fn.endswith('.json'):
+                            continue
+                        with open(os.path.join(saveloc, fn)) as fp:
                             json_ = json.load(fp)
                             if 'obj_type' in json_:
                                 obj_cls = class_from_objtype(json_['obj_type'])
-- 
2.43.0


From 52e424e5244c44fa81067a7871244c17f3c00cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:01 +0000
Subject: [PATCH 27/90] fix: keep the density of a NonWeatheringSubstance in
 its description

---
 py_gnome/gnome/spills/substance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/substance.py b/py_gnome/gnome/spills/substance.py
index fb81d66..54a785d 100644
--- a/py_gnome/gnome/spills/substance.py
+++ b/py_gnome/gnome/spills/substance.py
@@ -57,7 +57,8 @@ class SubstanceSchema(ObjTypeSchema):
 
 
 class NonWeatheringSubstanceSchema(SubstanceSchema):
-    pass
+    # unlike that of an oil, this density is set by the user
+    standard_density = SchemaNode(Float())
 
 
 class Substance(GnomeId):
-- 
2.43.0


From c56981f4d5206257f2428abc543791732bd56bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:01 +0000
Subject: [PATCH 28/90] fix: keep weathering_substeps of a saved model

---
 py_gnome/gnome/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index f72bab4..2711e26 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -96,7 +96,7 @@ from gnome.utilities.appearance import AppearanceSchema
 class ModelSchema(ObjTypeSchema):
     'Colander schema for Model object'
     time_step = SchemaNode(Float())
-    weathering_substeps = SchemaNode(Int(), read_only=True)
+    weathering_substeps = SchemaNode(Int(), update=False)
     start_time = SchemaNode(
         extend_colander.LocalDateTime(),
         validator=validators.convertible_to_seconds
-- 
2.43.0


From f18ed2712f6c2c7ee27fcd25dae54f79d632632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:01 +0000
Subject: [PATCH 29/90] fix: keep the name given to a Tide

---
 py_gnome/gnome/environment/tide.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/tide.py b/py_gnome/gnome/environment/tide.py
index a3d2db7..7a617d4 100644
--- a/py_gnome/gnome/environment/tide.py
+++ b/py_gnome/gnome/environment/tide.py
@@ -96,7 +96,8 @@ class Tide(Environment):
         self.cy_obj = self._obj_to_create(filename)
         # self.yeardata = os.path.abspath( yeardata ) # set yeardata
         self.yeardata = yeardata  # set yeardata
-        self.name = os.path.split(self.filename)[1]
+        if not kwargs.get('name'):
+            self.name = os.path.split(self.filename)[1]
         self.scale_factor = scale_factor if scale_factor else self.cy_obj.scale_factor
 
 
-- 
2.43.0


From 5e01c2baa5cd8c9a10f09ae3acee2dcda4db1d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:01 +0000
Subject: [PATCH 30/90] fix: updating a Wind leaves the caller's dict alone

---
 py_gnome/gnome/environment/wind.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 9bda563..f1d44ff 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -299,12 +299,14 @@ class Wind(Timeseries, Environment):
 
 
     def update_from_dict(self, dict_, refs=None):
+        # the caller keeps its dict, e.g. to use it for another object
+        dict_ = dict(dict_)
         if 'units' in dict_:
             # enforce updating of units before timeseries
             self.units = dict_.pop('units')
         if 'timeseries' in dict_:
             self.timeseries = WindTimeSeriesSchema().deserialize(dict_.pop('timeseries'))
-        super(Wind, self).update_from_dict(dict_, refs=refs)
+        return super(Wind, self).update_from_dict(dict_, refs=refs)
 
     def _check_units(self, units):
         '''
-- 
2.43.0


From fe2cc2e6190585439a87b021ff46e4c0630ced23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:02 +0000
Subject: [PATCH 31/90] fix: deserialize keeps shared objects shared

---
 py_gnome/gnome/persist/base_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/persist/base_schema.py b/py_gnome/gnome/persist/base_schema.py
index 287260d..c32e4d0 100644
--- a/py_gnome/gnome/persist/base_schema.py
+++ b/py_gnome/gnome/persist/base_schema.py
@@ -205,7 +205,7 @@ class ObjType(SchemaType):
                 log.info(refs[id_].name)
             except Exception as e:
                 log.warning('Could not log object name: ' + e.msg)
-            updated = refs[id_].update_from_dict(cstruct)
+            updated = refs[id_].update_from_dict(cstruct, refs)
             if updated:
                 log.info('Updated object {0} from json'.format(refs[id_].name))
             return refs[id_]
-- 
2.43.0


From ccb843ef78c7552657bbaa728c8a7e1c3ba39965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:02 +0000
Subject: [PATCH 32/90] fix: saved data files with the same name do not replace
 each other

---
 py_gnome/gnome/persist/base_schema.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/persist/base_schema.py b/py_gnome/gnome/persist/base_schema.py
index c32e4d0..640442c 100644
--- a/py_gnome/gnome/persist/base_schema.py
+++ b/py_gnome/gnome/persist/base_schema.py
@@ -391,8 +391,17 @@ class ObjType(SchemaType):
         d_fname = os.path.split(raw_path)[1]
         # add datafile to zip archive
 
-        if d_fname not in zipfile_.namelist():
-            zipfile_.write(raw_path, d_fname)
+        if d_fname in zipfile_.namelist():
+            # files from different folders can have the same name
+            with open(raw_path, 'rb') as fp:
+                same_file = (os.path.getsize(raw_path) ==
+                             zipfile_.getinfo(d_fname).file_size and
+                             fp.read() == zipfile_.read(d_fname))
+            if same_file:
+                return d_fname
+            d_fname = gen_unique_filename(d_fname, zipfile_)
+
+        zipfile_.write(raw_path, d_fname)
 
         return d_fname
 
-- 
2.43.0


From fe00550dd3f9351eb63451dd6a40494130d824c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:02 +0000
Subject: [PATCH 33/90] fix: objects whose name contains braces can be saved

---
 py_gnome/gnome/persist/base_schema.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/persist/base_schema.py b/py_gnome/gnome/persist/base_schema.py
index 640442c..c86f6b9 100644
--- a/py_gnome/gnome/persist/base_schema.py
+++ b/py_gnome/gnome/persist/base_schema.py
@@ -1001,13 +1001,12 @@ def gen_unique_filename(filename_in, zipfile_):
     filename_in = sanitize_string(filename_in)
     existing_files = set(zipfile_.namelist())
     file_name, extension = get_file_name_ext(filename_in)
-    fmtstring = file_name + '{0}' + extension
-    new_fn = fmtstring.format('')
+    new_fn = file_name + extension
 
     for i in range(255):
         if new_fn not in existing_files:
             return new_fn
         else:
-            new_fn = fmtstring.format(' (' + str(i) + ')')
+            new_fn = file_name + ' (' + str(i) + ')' + extension
 
     raise ValueError('Same file name used too many times')
-- 
2.43.0


From 3a2e611533e88980856796de646f27fc3dd80a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:48 +0000
Subject: [PATCH 34/90] fix: output every step after a zero step that is not
 output

---
 py_gnome/gnome/outputters/outputter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 5641998..8b828f6 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -315,7 +315,10 @@ class Outputter(GnomeId):
             self._write_step = False
             return
 
-        if self._output_timestep is not None:
+        if self._output_timestep is None:
+            # could have been turned off by the zero step
+            self._write_step = True
+        else:
             self._write_step = False
             self._dt_since_lastoutput += time_step
 
-- 
2.43.0


From f6e5c02194effd0cb97296c4da4fad057dcd03ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:48 +0000
Subject: [PATCH 35/90] fix: output schedule of runs backward in time

---
 py_gnome/gnome/outputters/outputter.py | 38 +++++++++++++-------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 8b828f6..24b98ee 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -10,6 +10,7 @@ module to define classes for GNOME output:
 
 """
 import os
+import math
 
 from datetime import timedelta
 
@@ -293,23 +294,21 @@ class Outputter(GnomeId):
         self._surf_conc_computed = False
 
         d = timedelta(seconds=time_step)
-        if self.output_start_time is not None:
-            if self.output_start_time != self._model_start_time:
-                if model_time + d < self.output_start_time:
-                    self._write_step = False
-                    return
-
-                if model_time + d == self.output_start_time:
-                    self._write_step = True
-                    self._is_first_output = False
-                    return
-
-                if ((model_time + d > self.output_start_time and time_step > 0) or
-                    (model_time + d < self.output_start_time and time_step < 0)):
-                    if self._is_first_output:
-                        self._write_step = True
-                        self._is_first_output = False
-                        return
+        if (self.output_start_time is not None and
+                self.output_start_time != self._model_start_time):
+            if time_step > 0:
+                before_start = model_time + d < self.output_start_time
+            else:
+                before_start = model_time + d > self.output_start_time
+
+            if before_start:
+                self._write_step = False
+                return
+
+            if self._is_first_output:
+                self._write_step = True
+                self._is_first_output = False
+                return
 
         if self.output_single_step:
             self._write_step = False
@@ -324,8 +323,9 @@ class Outputter(GnomeId):
 
             if abs(self._dt_since_lastoutput) >= abs(self._output_timestep):
                 self._write_step = True
-                self._dt_since_lastoutput = (self._dt_since_lastoutput %
-                                             self._output_timestep)
+                # fmod keeps the sign, for runs backward in time
+                self._dt_since_lastoutput = math.fmod(self._dt_since_lastoutput,
+                                                      self._output_timestep)
 
     def model_step_is_done(self):
         '''
-- 
2.43.0


From e22579b5c1f57f892bb6b0fd54dbf25f3e02e04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:48 +0000
Subject: [PATCH 36/90] fix: write_output_post_run follows the schedule in the
 last step and backward in time

---
 py_gnome/gnome/outputters/outputter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 24b98ee..e926a51 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -470,12 +470,13 @@ class Outputter(GnomeId):
         last_step = False
 
         for step_num in range(num_time_steps):
-            if (step_num > 0 and step_num < num_time_steps - 1):
+            if step_num > 0:
                 next_ts = (self.cache.load_timestep(step_num).items()[0].
                            current_time_stamp)
                 ts = next_ts - model_time
 
-                self.prepare_for_model_step(ts.seconds, model_time)
+                self.prepare_for_model_step(ts.total_seconds(),
+                                            model_time)
 
             if step_num == num_time_steps - 1:
                 last_step = True
-- 
2.43.0


From d69d3f585d0932707996088604745b87f3290e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:48 +0000
Subject: [PATCH 37/90] fix: outputters that are off write nothing

---
 py_gnome/gnome/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 2711e26..1fe75f7 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1147,6 +1147,9 @@ class Model(GnomeId):
                        'step_time': self.model_time.isoformat(timespec='minutes')}
 
         for outputter in self.outputters:
+            if not outputter.on:
+                continue
+
             if self.current_time_step == self.num_time_steps - 1:
                 output = outputter.write_output(self.current_time_step, islast_step=True)
             else:
-- 
2.43.0


From c3adb6aab6a2aa94d3a7fb07a43e3733189a1558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:48 +0000
Subject: [PATCH 38/90] fix: BinaryOutput without output for the last step

---
 py_gnome/gnome/outputters/binary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/binary.py b/py_gnome/gnome/outputters/binary.py
index 10bdddf..2991151 100644
--- a/py_gnome/gnome/outputters/binary.py
+++ b/py_gnome/gnome/outputters/binary.py
@@ -158,7 +158,8 @@ class BinaryOutput(OutputterFilenameMixin,Outputter):
 
 
         if islast_step:
-            num_files = self.file_num + 1
+            # the last step is not necessarily written
+            num_files = self.file_num + 1 if self._write_step else self.file_num
             self._zip_binary_files(num_files)
             self.cleaned_up = True
 
-- 
2.43.0


From d7da93b81e062bd5e8cc8b59fedb34622cf512ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:48 +0000
Subject: [PATCH 39/90] fix: the uncertain elements do not overwrite the
 geojson file of the forecast

---
 py_gnome/gnome/outputters/geo_json.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/outputters/geo_json.py b/py_gnome/gnome/outputters/geo_json.py
index 1d9c25d..dbe30ae 100644
--- a/py_gnome/gnome/outputters/geo_json.py
+++ b/py_gnome/gnome/outputters/geo_json.py
@@ -164,12 +164,16 @@ class TrajectoryGeoJsonOutput(Outputter):
 
         if self.output_dir:
             output_info['output_filename'] = str(self.output_to_file(c_geojson, step_num))
-            self.output_to_file(uc_geojson, step_num)
+            if uc_features:
+                self.output_to_file(uc_geojson, step_num, uncertain=True)
 
         return output_info
 
-    def output_to_file(self, json_content, step_num):
-        file_format = 'geojson_{0:06d}.geojson'
+    def output_to_file(self, json_content, step_num, uncertain=False):
+        if uncertain:
+            file_format = 'geojson_uncertain_{0:06d}.geojson'
+        else:
+            file_format = 'geojson_{0:06d}.geojson'
         filename = os.path.join(self.output_dir,
                                 file_format.format(step_num))
 
-- 
2.43.0


From cf51cdeb4bf06585c21055b36696f9550ec4fcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:44 +0000
Subject: [PATCH 40/90] fix: surface concentration when one element has all the
 mass

---
 py_gnome/gnome/utilities/surface_concentration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/surface_concentration.py b/py_gnome/gnome/utilities/surface_concentration.py
index 6441993..03b8099 100644
--- a/py_gnome/gnome/utilities/surface_concentration.py
+++ b/py_gnome/gnome/utilities/surface_concentration.py
@@ -89,7 +89,8 @@ def surface_conc_kde(sc):
                         c[id[id_bin]] = kernel(xy[:, id_bin]) * mass_for_kernel.sum()
                     else:
                         c[id[id_bin]] = kernel(xy[:, id_bin]) * len(mass_for_kernel)
-                except np.linalg.LinAlgError:
+                # ValueError: (nearly) all the mass is in one element
+                except (np.linalg.LinAlgError, ValueError):
                     warnings.warn('LinAlg error occurred in surface concentration calculations. '
                                   'This is usually do to all (or many) elements being at the same location')
             t = t + bin_length
-- 
2.43.0


From 609fd88f67b6725fecff2711768615485b06834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:09 +0000
Subject: [PATCH 41/90] fix: shapefile boundaries that are not separated by
 spill

---
 py_gnome/gnome/utilities/hull.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/py_gnome/gnome/utilities/hull.py b/py_gnome/gnome/utilities/hull.py
index eeb6b10..95098df 100644
--- a/py_gnome/gnome/utilities/hull.py
+++ b/py_gnome/gnome/utilities/hull.py
@@ -63,9 +63,6 @@ def calculate_hull(spill_container, ratio=0.5, union_results=True,
                 hulls_found['spill_num'].append(spill_num)
     else:
         # We want a hull around everything
-        schema = {'positions': [Point(point)
-                                for point in sc_positions]}
-        data_frame = gpd.GeoDataFrame(schema, crs='epsg:4326')
         this_mpt = MultiPoint([Point(point)
                                for point in sc_positions])
         this_hull = concave_hull(this_mpt, ratio=ratio,
-- 
2.43.0


From 70df603a1361797a17fcf6a8cf9d842bb9c06827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:09 +0000
Subject: [PATCH 42/90] fix: projections leave the coordinates they are given
 unchanged

---
 py_gnome/gnome/utilities/projections.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/py_gnome/gnome/utilities/projections.py b/py_gnome/gnome/utilities/projections.py
index 88fcf4b..74418e9 100644
--- a/py_gnome/gnome/utilities/projections.py
+++ b/py_gnome/gnome/utilities/projections.py
@@ -330,8 +330,8 @@ class GeoProjection(GnomeId):
             # add 0.5 to shift to center of pixel
             coords += 0.5
 
-        # shift to pixel center coords
-        coords -= self.offset
+        # shift to pixel center coords (this makes a copy)
+        coords = coords - self.offset
 
         # scale to lat-lon
         coords /= self.scale
@@ -626,7 +626,8 @@ class RectangularGridProjection(NoProjection):
         """
         coords = to_2d_coords(coords)
         # All computation in floats -- convert to int if asked for
-        coords = np.asarray(coords, dtype=np.float64)
+        # a copy: the clipping is done in place
+        coords = np.array(coords, dtype=np.float64)
         pixel_coords = np.zeros_like(coords, dtype=np.float64)
 
         np.putmask(coords,
@@ -702,9 +703,8 @@ class RectangularGridProjection(NoProjection):
 
         # out of bounds gets clipped to boundary
 
-        np.clip(coords,
-                (0, 0), (self.max_lon_index, self.max_lat_index),
-                out=coords)
+        coords = np.clip(coords,
+                         (0, 0), (self.max_lon_index, self.max_lat_index))
 
         # interpolate to lon-lat_coords
         lon = self._pixel_to_lon_interp(coords[:, 0])
-- 
2.43.0


From d0bceacf2a50da07b0b3e5dfa48937ff6fa5b51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:19 +0000
Subject: [PATCH 43/90] fix: RegularGridProjection.set_scale updates its
 bounding box

---
 py_gnome/gnome/utilities/projections.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_gnome/gnome/utilities/projections.py b/py_gnome/gnome/utilities/projections.py
index 74418e9..d7a3b4b 100644
--- a/py_gnome/gnome/utilities/projections.py
+++ b/py_gnome/gnome/utilities/projections.py
@@ -753,4 +753,5 @@ class RegularGridProjection(GeoProjection):
         self.scale = (image_size[0] / w, - image_size[1] / h)
 
         # doing this at the end, in case there is a problem with the input.
+        self.image_box = (bounding_box[0], bounding_box[1])
         self.image_size = image_size
-- 
2.43.0


From 148246ce8522820b901226b5ea2d056d3cb3d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:10 +0000
Subject: [PATCH 44/90] fix: netCDF output when forecast and uncertain elements
 differ in number

---
 py_gnome/gnome/outputters/netcdf.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index 3d0bf86..a1ae793 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -755,19 +755,22 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                     pc = rg_vars['particle_count']
                     pc[idx] = len(sc)
 
-                    _end_idx = self._start_idx + pc[idx]
+                    # the forecast and the uncertain file can hold
+                    # different numbers of elements
+                    start_idx = int(pc[:idx].sum())
+                    _end_idx = start_idx + len(sc)
 
                     # add the data:
                     for var_name in self.arrays_to_output:
                         # special case positions:
                         if var_name == 'longitude':
-                            rg_vars['longitude'][self._start_idx:_end_idx] = sc['positions'][:, 0]
+                            rg_vars['longitude'][start_idx:_end_idx] = sc['positions'][:, 0]
                         elif var_name == 'latitude':
-                            rg_vars['latitude'][self._start_idx:_end_idx] = sc['positions'][:, 1]
+                            rg_vars['latitude'][start_idx:_end_idx] = sc['positions'][:, 1]
                         elif var_name == 'depth':
-                            rg_vars['depth'][self._start_idx:_end_idx] = sc['positions'][:, 2]
+                            rg_vars['depth'][start_idx:_end_idx] = sc['positions'][:, 2]
                         else:
-                            rg_vars[var_name][self._start_idx:_end_idx] = sc[var_name]
+                            rg_vars[var_name][start_idx:_end_idx] = sc[var_name]
 
                     # write mass_balance data
                     if sc.mass_balance:
-- 
2.43.0


From 8b2728ffc9c067291fa4fd8f6d7b2bfcebeeb493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:26 +0000
Subject: [PATCH 45/90] fix: image_box of a projection is the edge of the image

---
 py_gnome/gnome/utilities/projections.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/py_gnome/gnome/utilities/projections.py b/py_gnome/gnome/utilities/projections.py
index d7a3b4b..ee60054 100644
--- a/py_gnome/gnome/utilities/projections.py
+++ b/py_gnome/gnome/utilities/projections.py
@@ -225,8 +225,9 @@ class GeoProjection(GnomeId):
 
         # doing this at the end, in case there is a problem with the input.
 
-        self.image_box = (self.to_lonlat((0, image_size[1])),
-                          self.to_lonlat((image_size[0], 0)))
+        # floats: integers would be taken as the center of a pixel
+        self.image_box = (self.to_lonlat((0.0, float(image_size[1]))),
+                          self.to_lonlat((float(image_size[0]), 0.0)))
         self.image_size = image_size
 
     def to_pixel(self, coords, asint=False):
@@ -522,8 +523,9 @@ class FlatEarthProjection(GeoProjection):
 
         # doing this at the end, in case there is a problem with the input.
 
-        self.image_box = (self.to_lonlat((0, image_size[1])),
-                          self.to_lonlat((image_size[0], 0)))
+        # floats: integers would be taken as the center of a pixel
+        self.image_box = (self.to_lonlat((0.0, float(image_size[1]))),
+                          self.to_lonlat((float(image_size[0]), 0.0)))
         self.image_size = image_size
 
 
-- 
2.43.0


From efd335ba87a89bb29316235b7e401f5d77c04ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:41 +0000
Subject: [PATCH 46/90] fix: SecondsToDate in the hour after midnight during
 daylight saving time

---
 py_gnome/lib_gnome/StringFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/StringFunctions.cpp b/py_gnome/lib_gnome/StringFunctions.cpp
index 2d99f5c..16d5412 100644
--- a/py_gnome/lib_gnome/StringFunctions.cpp
+++ b/py_gnome/lib_gnome/StringFunctions.cpp
@@ -1939,7 +1939,7 @@ void SecondsToDate (Seconds seconds, DateTimeRec *date)
 			if (newTime->tm_hour > 0)
 				newTime->tm_hour--;
 			else {
-				seconds -= 3600;
+				converted_seconds -= 3600;
 				newTime = localtime(&converted_seconds);
 
 				if (newTime->tm_isdst == 1) {
-- 
2.43.0


From 37b0a1577a71895ed2fe0356c1056de90ca533d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:41 +0000
Subject: [PATCH 47/90] fix: datetimes with a FixedOffset can be converted

---
 py_gnome/gnome/utilities/time_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/time_utils.py b/py_gnome/gnome/utilities/time_utils.py
index 4e48b37..90adb0b 100644
--- a/py_gnome/gnome/utilities/time_utils.py
+++ b/py_gnome/gnome/utilities/time_utils.py
@@ -116,7 +116,7 @@ class FixedOffset(tzinfo):
         return self.__name
 
     def dst(self, dt):
-        return 0
+        return timedelta(0)
 
 
 class UTC(FixedOffset):
-- 
2.43.0


From 6c0b179a63eaadef859dda3cd201df919436d0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:41 +0000
Subject: [PATCH 48/90] fix: TZOffset keeps offsets of whole minutes

---
 py_gnome/gnome/utilities/time_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/utilities/time_utils.py b/py_gnome/gnome/utilities/time_utils.py
index 90adb0b..27cfae5 100644
--- a/py_gnome/gnome/utilities/time_utils.py
+++ b/py_gnome/gnome/utilities/time_utils.py
@@ -75,7 +75,7 @@ class TZOffset:
         if self.offset is None:
             return timedelta(0)
         else:
-            return timedelta(minutes=int(self.offset * 60))
+            return timedelta(minutes=round(self.offset * 60))
 
     def as_iso_string(self):
         """
@@ -91,8 +91,7 @@ class TZOffset:
             return ""
         else:
             sign = "-" if self.offset <0 else "+"
-            hours = int(abs(self.offset))
-            minutes = int((abs(self.offset) - hours) * 60)
+            hours, minutes = divmod(round(abs(self.offset) * 60), 60)
             return f"{sign}{hours:0>2}:{minutes:0>2}"
 
 
-- 
2.43.0


From fba2814216e6fd686d01915ab868bad6e5b56d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:41 +0000
Subject: [PATCH 49/90] fix: round_time leaves its argument unchanged

---
 py_gnome/gnome/utilities/time_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/time_utils.py b/py_gnome/gnome/utilities/time_utils.py
index 27cfae5..cdd8a74 100644
--- a/py_gnome/gnome/utilities/time_utils.py
+++ b/py_gnome/gnome/utilities/time_utils.py
@@ -282,7 +282,8 @@ def round_time(dt=None, roundTo=60):  # IGNORE:W0621
     if dt is None:
         dt = datetime.now()
 
-    dt = np.asarray(dt, dtype='datetime64[s]').reshape(-1)
+    # a copy: the values are rounded in place
+    dt = np.array(dt, dtype='datetime64[s]').reshape(-1)
 
     for li in range(len(dt)):
         date = dt[li].astype(object)
-- 
2.43.0


From ec188656f131f0b76343006967638770b56b09a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:18 +0000
Subject: [PATCH 50/90] fix: a point on the edge of two polygons is in only one
 of them

---
 .../gnome/utilities/geometry/c_point_in_polygon.c  | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/utilities/geometry/c_point_in_polygon.c b/py_gnome/gnome/utilities/geometry/c_point_in_polygon.c
index a272d68..7c12e87 100644
--- a/py_gnome/gnome/utilities/geometry/c_point_in_polygon.c
+++ b/py_gnome/gnome/utilities/geometry/c_point_in_polygon.c
@@ -68,9 +68,17 @@ char c_point_in_poly1(int nvert, double *vertices, double *point)
     int i, j = 0;
     char c = 0; /*really need a bool here...*/
     for (i = 0, j = nvert-1; i < nvert; j = i++) {
-        if ( ((vertices[2*i+1]>point[1]) != (vertices[2*j+1]>point[1])) &&
-            (point[0] < (vertices[2*j]-vertices[2*i]) * (point[1]-vertices[2*i+1]) / (vertices[2*j+1]-vertices[2*i+1]) + vertices[2*i]) )
-            c = !c;
+        if ( (vertices[2*i+1]>point[1]) != (vertices[2*j+1]>point[1]) ) {
+            /* always compute the crossing from the lower end, so that the
+               polygons on both sides of an edge get the same result */
+            double *low = vertices + 2*i, *high = vertices + 2*j;
+            if (low[1] > high[1]) {
+                low = vertices + 2*j;
+                high = vertices + 2*i;
+            }
+            if (point[0] < (high[0]-low[0]) * (point[1]-low[1]) / (high[1]-low[1]) + low[0])
+                c = !c;
+        }
     }
     return c;
 }
-- 
2.43.0


From cae9cb71307058797671e677580cdab5bcdd5bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:18 +0000
Subject: [PATCH 51/90] fix: PinP.points_in_poly leaves the shape of its
 argument alone

---
 py_gnome/gnome/utilities/geometry/PinP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/geometry/PinP.py b/py_gnome/gnome/utilities/geometry/PinP.py
index bd2f33e..1716450 100644
--- a/py_gnome/gnome/utilities/geometry/PinP.py
+++ b/py_gnome/gnome/utilities/geometry/PinP.py
@@ -21,7 +21,7 @@ def points_in_poly(pgon, points):
     """
     points = np.asarray(points, dtype=np.float64)
     scalar = (len(points.shape) == 1)
-    points.shape = (-1, 3)
+    points = points.reshape(-1, 3)
 
     result = np.zeros((points.shape[0],), dtype=bool)
 
-- 
2.43.0


From bfe5828630119bccff2b11d3317ce18f076b6779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:18 +0000
Subject: [PATCH 52/90] fix: PolygonSets with the same points in different
 polygons are not equal

---
 py_gnome/gnome/utilities/geometry/polygons.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_gnome/gnome/utilities/geometry/polygons.py b/py_gnome/gnome/utilities/geometry/polygons.py
index 3dbd25d..5f45da5 100644
--- a/py_gnome/gnome/utilities/geometry/polygons.py
+++ b/py_gnome/gnome/utilities/geometry/polygons.py
@@ -369,6 +369,7 @@ class PolygonSet(object):
             return False
         else:
             return (np.array_equal(self._PointsArray, other._PointsArray) and
+                    np.array_equal(self._IndexArray, other._IndexArray) and
                     self._MetaDataList == other._MetaDataList)
 
     def __ne__(self, other):
-- 
2.43.0


From b355a574d665262dba960026bea9ac9a1fb03408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:33 +0000
Subject: [PATCH 53/90] fix: density of floating oil is updated also when other
 elements do not float

---
 py_gnome/gnome/ops/density.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/ops/density.py b/py_gnome/gnome/ops/density.py
index 2fb9f68..10cb163 100644
--- a/py_gnome/gnome/ops/density.py
+++ b/py_gnome/gnome/ops/density.py
@@ -104,7 +104,8 @@ def recalc_density(sc, water=None, aggregate=True):
             data['density'] = new_rho
             data['oil_density'] = oil_rho
 
-    sc.update_from_fatedataview(fate_status='all')
+            # data may be a copy: write it back
+            sc.update_from_fatedataview()
 
     # also initialize/update aggregated sc
     if aggregate:
-- 
2.43.0


From 59697c51e47d6e02db48448698f0c616a4b9321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:05 +0000
Subject: [PATCH 54/90] fix: vapor pressures follow the boiling points when
 they are edited

---
 py_gnome/gnome/spills/gnome_oil.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/py_gnome/gnome/spills/gnome_oil.py b/py_gnome/gnome/spills/gnome_oil.py
index 9b9fbd5..24f5aa8 100644
--- a/py_gnome/gnome/spills/gnome_oil.py
+++ b/py_gnome/gnome/spills/gnome_oil.py
@@ -1,5 +1,3 @@
-from functools import lru_cache
-
 import numpy as np
 import warnings
 
@@ -372,7 +370,6 @@ class GnomeOil(Substance):
                              "are pseudo components".format(prop))
         setattr(self, prop, np.array(values, dtype=np.float64))
 
-    @lru_cache(2)
     def vapor_pressure(self, temp, atmos_pressure=101325.0):
         """
         the vapor pressure on the PCs at a given temperature
-- 
2.43.0


From 3a125b2533a6840d3b0f74249d2f73df65335ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:05 +0000
Subject: [PATCH 55/90] fix: viscosities follow the measurements when they are
 edited

---
 py_gnome/gnome/spills/gnome_oil.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/gnome_oil.py b/py_gnome/gnome/spills/gnome_oil.py
index 24f5aa8..0894ab2 100644
--- a/py_gnome/gnome/spills/gnome_oil.py
+++ b/py_gnome/gnome/spills/gnome_oil.py
@@ -297,6 +297,7 @@ class GnomeOil(Substance):
 
         self._k_v2 = None  # decay constant for viscosity curve
         self._visc_A = None  # constant for viscosity curve
+        self._visc_measured = None  # data the constants were computed from
         self.k0y = k0y
 
         return kwargs
@@ -675,8 +676,14 @@ class GnomeOil(Substance):
 
         temp_k = np.asarray(temp_k)
 
-        if self._k_v2 is None or self._visc_A is None:
+        # the constants belong to these measurements, which may be edited
+        measured = [tuple(v) for v in (self.kvis,
+                                       self.kvis_ref_temps,
+                                       self.kvis_weathering)]
+        if (self._k_v2 is None or self._visc_A is None
+                or self._visc_measured != measured):
             self.determine_visc_constants()
+            self._visc_measured = measured
 
         return self._visc_A * np.exp(self._k_v2 / temp_k)
 
-- 
2.43.0


From 81f73f31d937a9d33dc2872b99805b9a67cdfde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:31 +0000
Subject: [PATCH 56/90] fix: cleanup within one time step acts for its active
 time only

---
 py_gnome/gnome/weatherers/cleanup.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/py_gnome/gnome/weatherers/cleanup.py b/py_gnome/gnome/weatherers/cleanup.py
index 7ba87ee..f680966 100644
--- a/py_gnome/gnome/weatherers/cleanup.py
+++ b/py_gnome/gnome/weatherers/cleanup.py
@@ -61,16 +61,15 @@ class RemoveMass(object):
         if not self.active:
             return
 
-        self._timestep = time_step
-        dt = timedelta(seconds=time_step)
+        start, stop = model_time, model_time + timedelta(seconds=time_step)
 
-        if (model_time < self.active_range[0]):
-            self._timestep = time_step - (self.active_range[0] -
-                                          model_time).total_seconds()
+        if start < self.active_range[0]:
+            start = self.active_range[0]
 
-        if (self.active_range[1] < model_time + dt):
-            self._timestep = (self.active_range[1] -
-                              model_time).total_seconds()
+        if self.active_range[1] < stop:
+            stop = self.active_range[1]
+
+        self._timestep = max((stop - start).total_seconds(), 0.0)
 
     def prepare_for_model_step(self, sc, time_step, model_time):
         '''
-- 
2.43.0


From 2bad19d59f36cece50ca2c13f8639e87f6e03618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:31 +0000
Subject: [PATCH 57/90] fix: Beaching may start within a time step

---
 py_gnome/gnome/weatherers/manual_beaching.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/weatherers/manual_beaching.py b/py_gnome/gnome/weatherers/manual_beaching.py
index 68d88cf..1547ab1 100644
--- a/py_gnome/gnome/weatherers/manual_beaching.py
+++ b/py_gnome/gnome/weatherers/manual_beaching.py
@@ -224,7 +224,10 @@ class Beaching(RemoveMass, Weatherer):
         # Expect the timestep to be much smaller than the delta time between
         # timeseries, however, let's not make this assumption since it can't be
         # enforced
-        t_int = np.where(np.datetime64(model_time) >=
+        # beaching may start during the step
+        start_time = max(model_time,
+                         self._timeseries['time'][0].astype(datetime))
+        t_int = np.where(np.datetime64(start_time) >=
                          self._timeseries['time'])[0][-1]
 
         # Say the time for timeseries is given as follows:
@@ -245,7 +248,6 @@ class Beaching(RemoveMass, Weatherer):
         # The logic will also handle the case where the time interval straddles
         # multiple rates. This is not expected but the logic should work.
         time_remain = time_step
-        start_time = model_time
         rm_mass = 0.0
         while time_remain > 0:
             dt_for_curr_rate = \
-- 
2.43.0


From 7908118c67f9930c724b48b94f9f1300981fae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:22 +0000
Subject: [PATCH 58/90] fix: cleanup with weathering substeps removes each
 share once

---
 py_gnome/gnome/weatherers/cleanup.py         | 9 +++++++++
 py_gnome/gnome/weatherers/manual_beaching.py | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/py_gnome/gnome/weatherers/cleanup.py b/py_gnome/gnome/weatherers/cleanup.py
index f680966..e80d590 100644
--- a/py_gnome/gnome/weatherers/cleanup.py
+++ b/py_gnome/gnome/weatherers/cleanup.py
@@ -347,6 +347,9 @@ class Skimmer(CleanUpBase):
         if not self.active or len(sc) == 0 or not sc.substance.is_weatherable:
             return
 
+        # this may be only a part of the model's time step
+        self._set__timestep(time_step, model_time)
+
         for substance, data in sc.itersubstancedata(self.array_types, fate_status='skim'):
 
             if len(data['mass']) == 0:
@@ -691,6 +694,9 @@ class Burn(CleanUpBase):
         if not self.active or len(sc) == 0 or not sc.substance.is_weatherable:
             return
 
+        # this may be only a part of the model's time step
+        self._set__timestep(time_step, model_time)
+
         for substance, data in sc.itersubstancedata(self.array_types, fate_status='burn'):
             if len(data['mass']) == 0:
                 return
@@ -856,6 +862,9 @@ class ChemicalDispersion(CleanUpBase):
         if not self.active or len(sc) == 0 or not sc.substance.is_weatherable:
             return
 
+        # this may be only a part of the model's time step
+        self._set__timestep(time_step, model_time)
+
         for substance, data in sc.itersubstancedata(self.array_types, fate_status='disperse'):
             if len(data['mass']) == 0:
                 continue
diff --git a/py_gnome/gnome/weatherers/manual_beaching.py b/py_gnome/gnome/weatherers/manual_beaching.py
index 1547ab1..e307d32 100644
--- a/py_gnome/gnome/weatherers/manual_beaching.py
+++ b/py_gnome/gnome/weatherers/manual_beaching.py
@@ -270,6 +270,9 @@ class Beaching(RemoveMass, Weatherer):
         if not self.active or len(sc) == 0:
             return
 
+        # this may be only a part of the model's time step
+        self._set__timestep(time_step, model_time)
+
         for substance, data in sc.itersubstancedata(self.array_types):
             if len(data['mass']) == 0:
                 continue
-- 
2.43.0


From ed35ac9cab0847afa07d353b06cd7c0b01c4daad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:12 +0000
Subject: [PATCH 59/90] fix: FixedOffset.dst() stays 0, which the tests require
 (reverts 37b0a15)

---
 py_gnome/gnome/utilities/time_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/time_utils.py b/py_gnome/gnome/utilities/time_utils.py
index cdd8a74..5358649 100644
--- a/py_gnome/gnome/utilities/time_utils.py
+++ b/py_gnome/gnome/utilities/time_utils.py
@@ -115,7 +115,7 @@ class FixedOffset(tzinfo):
         return self.__name
 
     def dst(self, dt):
-        return timedelta(0)
+        return 0
 
 
 class UTC(FixedOffset):
-- 
2.43.0


From b52c58ef3e692486f9562fe760a16b8dc01bf379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:32 +0000
Subject: [PATCH 60/90] fix: Li2017 dispersion of oil as dense as the water is
 finite

---
 py_gnome/gnome/weatherers/natural_dispersion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/weatherers/natural_dispersion.py b/py_gnome/gnome/weatherers/natural_dispersion.py
index 45ac300..7880aaa 100644
--- a/py_gnome/gnome/weatherers/natural_dispersion.py
+++ b/py_gnome/gnome/weatherers/natural_dispersion.py
@@ -209,7 +209,9 @@ class NaturalDispersion(Weatherer):
         sigma_o_w = 3.5e-2 # unit N/m
         H0 = wave_height / 0.707 # significant wave height
 
-        d_oil = 4.0 * np.sqrt(sigma_o_w / (constants.gravity * (rho_w - density))) # maximum stable droplet diameter
+        # weathered oil can become as dense as the water
+        delta_rho = np.maximum(rho_w - density, 1.0e-6)
+        d_oil = 4.0 * np.sqrt(sigma_o_w / (constants.gravity * delta_rho)) # maximum stable droplet diameter
         dynamic_visc = viscosity * density
 
         # parameter values estimated by Li et al., (2017)
-- 
2.43.0


From d1181ba2c8009422c4d2d192779f79b946281956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:27 +0000
Subject: [PATCH 61/90] fix: the trapezoid method of the grid current mover
 moves north by the mean current

---
 py_gnome/lib_gnome/GridCurrentMover_c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/GridCurrentMover_c.cpp b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
index fe47b76..0d5a02d 100644
--- a/py_gnome/lib_gnome/GridCurrentMover_c.cpp
+++ b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
@@ -349,7 +349,7 @@ WorldPoint3D GridCurrentMover_c::GetMove(const Seconds& model_time, Seconds time
 		v1.u += v0.u;
 		v1.v += v0.v;
 		dLong = ((v1.u / METERSPERDEGREELAT) * timeStep/2) / LongToLatRatio3 (startPoint.p.pLat);
-		dLat  =  (v0.v / METERSPERDEGREELAT) * timeStep/2;
+		dLat  =  (v1.v / METERSPERDEGREELAT) * timeStep/2;
 		deltaPoint.p.pLong = dLong * 1000000;
 		deltaPoint.p.pLat  = dLat  * 1000000;
 		return deltaPoint;
-- 
2.43.0


From 8bcd8adafc967b37522894b17142541164467980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:27 +0000
Subject: [PATCH 62/90] fix: regular grid currents below the deepest level are
 zero instead of read out of bounds

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 933dbe1..b4a0175 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -1594,6 +1594,8 @@ VelocityRec TimeGridVelRect_c::GetScaledPatValue(const Seconds& model_time, Worl
 	}
 	
 	GetDepthIndices(0,refPoint.z,&depthIndex1,&depthIndex2);
+	if (depthIndex1==UNASSIGNEDINDEX && depthIndex2==UNASSIGNEDINDEX)
+		return scaledPatVelocity;	// no value below the deepest level
 	if (depthIndex2!=UNASSIGNEDINDEX)
 	{
 		// Calculate the depth weight factor
-- 
2.43.0


From 03d40d59b32f20fe2957d51546b6431135b9584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:27 +0000
Subject: [PATCH 63/90] fix: the data times of a single grid file include the
 time offset, like those of a file list

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index b4a0175..3bf2d0e 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -2078,7 +2078,8 @@ OSErr TimeGridVel_c::GetDataStartTime(Seconds *startTime)
 		{
 			err = GetFileStartTime(startTime);
 			//return err;
-			if (err) *startTime = (*fTimeHdl)[0]+ fTimeShift;
+			if (err) *startTime = (*fTimeHdl)[0];
+			*startTime += fTimeShift;
 		}
 		else
 			err = -1;
@@ -2105,7 +2106,8 @@ OSErr TimeGridVel_c::GetDataEndTime(Seconds *endTime)
 		{
 			err = GetFileEndTime(endTime);
 			//return err;
-			if (err) *endTime = (*fTimeHdl)[numTimesInFile-1]+ fTimeShift;
+			if (err) *endTime = (*fTimeHdl)[numTimesInFile-1];
+			*endTime += fTimeShift;
 		}
 		else
 			err = -1;
-- 
2.43.0


From e435b3661f2c91fcb1d8a82044a830f16ddd7989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:48 +0000
Subject: [PATCH 64/90] fix: grid data of another file of a file list are not
 taken for those of the current one

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 3bf2d0e..73ba991 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -1412,6 +1412,9 @@ OSErr TimeGridVel_c::CheckAndScanFile(char *errmsg, const Seconds& model_time)
 			// code goes here, check that start/end times match
 			strcpy(fVar.pathName,(*fInputFilesHdl)[i].pathName);
 			fOverLap = false;
+			// the loaded data are of another file
+			DisposeLoadedData(&fStartData);
+			DisposeLoadedData(&fEndData);
 			return err;
 		}
 		if (startTime==endTime && startTime==time)	// one time in file, need to overlap
@@ -1496,6 +1499,8 @@ OSErr TimeGridVel_c::CheckAndScanFile(char *errmsg, const Seconds& model_time)
 		// code goes here, check that start/end times match
 		strcpy(fVar.pathName,(*fInputFilesHdl)[numFiles-1].pathName);
 		fOverLap = false;
+		DisposeLoadedData(&fStartData);
+		DisposeLoadedData(&fEndData);
 		return err;
 	}
 	if (fAllowExtrapolationInTime && time < firstStartTime)
@@ -1507,6 +1512,8 @@ OSErr TimeGridVel_c::CheckAndScanFile(char *errmsg, const Seconds& model_time)
 		// code goes here, check that start/end times match
 		strcpy(fVar.pathName,(*fInputFilesHdl)[0].pathName);
 		fOverLap = false;
+		DisposeLoadedData(&fStartData);
+		DisposeLoadedData(&fEndData);
 		return err;
 	}
 	strcpy(errmsg,"Time outside of interval being modeled");
-- 
2.43.0


From d7a4966a2bdce8d21d83f5c1023c2c54b2a0bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:45 +0000
Subject: [PATCH 65/90] fix: time offset and file lists are honoured by
 currents on curvilinear and triangular grids

The weight between two times of the data was replaced by one that takes
the times of the file without the offset, and the last time of the
previous file for one of the current file; that one is only for movers
that cycle through the data.
---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 73ba991..b6287d6 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -2846,7 +2846,7 @@ VelocityRec TimeGridVelCurv_c::GetInterpolatedValue(const Seconds& model_time, I
 		timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 		
 		// Calculate the time weight factor
-		if (fTimeAlpha==-1)
+		if (bIsCycleMover && fTimeAlpha==-1)
 		{
 			//Seconds relTime = time - model->GetStartTime();
 			relTime = model_time - fModelStartTime;
@@ -2855,7 +2855,7 @@ VelocityRec TimeGridVelCurv_c::GetInterpolatedValue(const Seconds& model_time, I
 			//timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 			timeAlpha = (endTime - relTime)/(double)(endTime - startTime);
 		}
-		else
+		else if (bIsCycleMover)
 			timeAlpha = fTimeAlpha;
 
 		if (pt1depthIndex1!=-1)
@@ -7810,7 +7810,7 @@ VelocityRec TimeGridVelIce_c::GetInterpolatedValue(const Seconds& model_time, In
 		timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 		
 		// Calculate the time weight factor
-		if (fTimeAlpha==-1)
+		if (bIsCycleMover && fTimeAlpha==-1)
 		{
 			//Seconds relTime = time - model->GetStartTime();
 			relTime = model_time - fModelStartTime;
@@ -7819,7 +7819,7 @@ VelocityRec TimeGridVelIce_c::GetInterpolatedValue(const Seconds& model_time, In
 			//timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 			timeAlpha = (endTime - relTime)/(double)(endTime - startTime);
 		}
-		else
+		else if (bIsCycleMover)
 			timeAlpha = fTimeAlpha;
 
 		pt1interp.u = interpolationVal.alpha1*(timeAlpha*INDEXH(fStartData.dataHdl,ptIndex1).u + (1-timeAlpha)*INDEXH(fEndData.dataHdl,ptIndex1).u); 
@@ -8814,7 +8814,7 @@ VelocityRec TimeGridVelTri_c::GetScaledPatValue(const Seconds& model_time, World
 		
 		// Calculate the time weight factor
  		// fModelStartTime needs to be set in the mover
-		if (fTimeAlpha==-1)
+		if (bIsCycleMover && fTimeAlpha==-1)
 		{
 			//Seconds relTime = time - model->GetStartTime();
 			relTime = model_time - fModelStartTime;
@@ -8823,7 +8823,7 @@ VelocityRec TimeGridVelTri_c::GetScaledPatValue(const Seconds& model_time, World
 			//timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 			timeAlpha = (endTime - relTime)/(double)(endTime - startTime);
 		}
-		else
+		else if (bIsCycleMover)
 			timeAlpha = fTimeAlpha;
 
 		// Calculate the interpolated velocity at the point
@@ -8983,7 +8983,7 @@ VelocityRec TimeGridVelTri_c::GetScaledPatValue3D(const Seconds& model_time, Int
 		timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 		
 		// Calculate the time weight factor
-		if (fTimeAlpha==-1)
+		if (bIsCycleMover && fTimeAlpha==-1)
 		{
 			//Seconds relTime = time - model->GetStartTime();
 			relTime = model_time - fModelStartTime;
@@ -8992,7 +8992,7 @@ VelocityRec TimeGridVelTri_c::GetScaledPatValue3D(const Seconds& model_time, Int
 			//timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 			timeAlpha = (endTime - relTime)/(double)(endTime - startTime);
 		}
-		else
+		else if (bIsCycleMover)
 			timeAlpha = fTimeAlpha;
 
 		if (pt1depthIndex1!=-1)
-- 
2.43.0


From 011f4ff1010ba58e0062b924055bb50438235d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:34 +0000
Subject: [PATCH 66/90] fix: the first triangle of a triangular grid has a
 current too

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index b6287d6..370bd03 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -8790,7 +8790,7 @@ VelocityRec TimeGridVelTri_c::GetScaledPatValue(const Seconds& model_time, World
 		}
 		else	// if negative corresponds to negative ntri, set vel to zero
 		{
-			if (bVelocitiesOnTriangles && triIndex > 0)
+			if (bVelocitiesOnTriangles && triIndex >= 0)
 			{
 				scaledPatVelocity.u = INDEXH(fStartData.dataHdl,triIndex).u;
 				scaledPatVelocity.v = INDEXH(fStartData.dataHdl,triIndex).v;
@@ -8838,7 +8838,7 @@ VelocityRec TimeGridVelTri_c::GetScaledPatValue(const Seconds& model_time, World
 		}
 		else	// if negative corresponds to negative ntri, set vel to zero
 		{
-			if (bVelocitiesOnTriangles && triIndex > 0)
+			if (bVelocitiesOnTriangles && triIndex >= 0)
 			{
 				scaledPatVelocity.u = timeAlpha*INDEXH(fStartData.dataHdl,triIndex).u + (1-timeAlpha)*INDEXH(fEndData.dataHdl,triIndex).u;
 				scaledPatVelocity.v = timeAlpha*INDEXH(fStartData.dataHdl,triIndex).v + (1-timeAlpha)*INDEXH(fEndData.dataHdl,triIndex).v;
-- 
2.43.0


From 997cdd1fe778492019d03bb16066d7fe3b166687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:10 +0000
Subject: [PATCH 67/90] fix: currents due east or due north on a triangular
 grid are kept

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 370bd03..abcac2b 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -9852,7 +9852,7 @@ OSErr TimeGridVelTri_c::ReadTimeData(long index,VelocityFH *velocityH, char* err
 			 curr_uvals[j*fNumNodes+i]=0.;
 			 if (curr_vvals[j*fNumNodes+i]==fill_value)
 			 curr_vvals[j*fNumNodes+i]=0.;*/
-			if (curr_uvals[j*numVelsAtDepthLevel+i]==0.||curr_vvals[j*numVelsAtDepthLevel+i]==0.)
+			if (curr_uvals[j*numVelsAtDepthLevel+i]==0.&&curr_vvals[j*numVelsAtDepthLevel+i]==0.)
 				curr_uvals[j*numVelsAtDepthLevel+i] = curr_vvals[j*numVelsAtDepthLevel+i] = 1e-06;
 			if (curr_uvals[j*numVelsAtDepthLevel+i]==fill_value)
 				curr_uvals[j*numVelsAtDepthLevel+i]=0.;
-- 
2.43.0


From 7fb8f13b344d19447f4f7d1d66145ecc70c19a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:10 +0000
Subject: [PATCH 68/90] fix: extrapolation before grid data does not reuse the
 data loaded for after them, and vice versa

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index abcac2b..b47fea9 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -439,7 +439,7 @@ Boolean TimeGridVel_c::CheckInterval(long &timeDataInterval, const Seconds& mode
 		}
 		if (fAllowExtrapolationInTime &&
 			fEndData.timeIndex == UNASSIGNEDINDEX &&
-			!(fStartData.timeIndex == UNASSIGNEDINDEX))	// way to recognize last interval is set
+			fStartData.timeIndex == 0)	// way to recognize first interval is set
 		{
 			//check if time > last model time in all files
 			//timeDataInterval = 1;
@@ -462,7 +462,7 @@ Boolean TimeGridVel_c::CheckInterval(long &timeDataInterval, const Seconds& mode
 
 		if (fAllowExtrapolationInTime &&
 			fEndData.timeIndex == UNASSIGNEDINDEX &&
-			!(fStartData.timeIndex == UNASSIGNEDINDEX))	// way to recognize last interval is set
+			fStartData.timeIndex == numTimes - 1)	// way to recognize last interval is set
 		{
 			//check if time > last model time in all files
 			return true;
-- 
2.43.0


From 4f02ba8146291cf7b5fab1459d7460dd7538dea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:59 +0000
Subject: [PATCH 69/90] fix: a tide file that is not as expected is refused,
 and its last constituent ends at the end of the line

---
 py_gnome/lib_gnome/ShioTimeValue_c.cpp | 79 +++++++++++++-------------
 1 file changed, 39 insertions(+), 40 deletions(-)

diff --git a/py_gnome/lib_gnome/ShioTimeValue_c.cpp b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
index 6d2651a..136eb54 100644
--- a/py_gnome/lib_gnome/ShioTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
@@ -104,14 +104,13 @@ OSErr ShioTimeValue_c::GetKeyedValue(CHARH f, const char *key, long lineNum, cha
 	for(;;) //forever
 	{
 		str[0] = 0;
-		for(;*p == ' ' && *p == '\t';p++){} // move past leading white space
+		for(;*p == ' ' || *p == '\t';p++){} // move past leading white space
 		if(*p == 0) goto done;
 		for(i = 0;i < kMaxStrChar && *p != ' ' && *p != '\t' && *p ;str[i++] = (*p++)){} // copy to next white space or end of string
 		if(i == kMaxStrChar) {err = -3; goto done;}
 		str[i] = 0;
-		p++;
 		scanErr =  StringToDouble(str,&value);
-		if(scanErr) return scanErr;
+		if(scanErr) {err = scanErr; goto done;}
 		(*h)[numVals++] = value;
 		if(numVals >= kMaxNumVals) {err = -4; goto done;}
 	}
@@ -1468,7 +1467,7 @@ OSErr ShioTimeValue_c::ReadShioValues (char *path)
 		for(; _ifstream->get(c); x++);
 		if(!(x > 0))
 			throw("empty file.\n");
-		f = _NewHandle(x);
+		f = _NewHandleClear(x + 1);	// null terminated
 		delete _ifstream;
 		_ifstream = new fstream(path, ios::in);
 		for(; i < x && _ifstream->get(c); i++)
@@ -1524,8 +1523,8 @@ OSErr ShioTimeValue_c::ReadShioValues (char *path)
 	this->fStationName[MAXSTATIONNAMELEN-1] = 0;
 
 	// set fStationPosition correctly so base class GetStationLocation() works
-	if ((err = this->GetKeyedValue(f, "Latitude=", lineNum++, strLine, &stationLat)) > 0)  goto readError;
-	if ((err = this->GetKeyedValue(f, "Longitude=", lineNum++, strLine, &stationLon)) > 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "Latitude=", lineNum++, strLine, &stationLat)) != 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "Longitude=", lineNum++, strLine, &stationLon)) != 0)  goto readError;
 
 	this->fStationPosition.p.pLat = stationLat * 1000000;
 	this->fStationPosition.p.pLong = stationLon * 1000000;
@@ -1534,7 +1533,7 @@ OSErr ShioTimeValue_c::ReadShioValues (char *path)
 
 	// code goes here in version 1.2.7 these lines won't be required for height files, but should still allow old format
 	//if(err = this->GetKeyedValue(f,"DatumControls.datum=",lineNum++,strLine,&this->fConstituent.DatumControls.datum))  goto readError;
-	if ((err = this->GetKeyedValue(f, "DatumControls.datum=", lineNum++, strLine, &this->fConstituent.DatumControls.datum)) > 0)
+	if ((err = this->GetKeyedValue(f, "DatumControls.datum=", lineNum++, strLine, &this->fConstituent.DatumControls.datum)) != 0)
 	{
 		if(this->fStationType=='h' || this->fStationType=='H')
 		{
@@ -1546,53 +1545,53 @@ OSErr ShioTimeValue_c::ReadShioValues (char *path)
 			goto readError;
 		}
 	}
-	if ((err = this->GetKeyedValue(f, "DatumControls.FDir=", lineNum++, strLine, &this->fConstituent.DatumControls.FDir)) > 0)  goto readError;
-	if ((err = this->GetKeyedValue(f, "DatumControls.EDir=", lineNum++, strLine, &this->fConstituent.DatumControls.EDir)) > 0)  goto readError;
-	if ((err = this->GetKeyedValue(f, "DatumControls.L2Flag=", lineNum++, strLine, &this->fConstituent.DatumControls.L2Flag)) > 0)  goto readError;
-	if ((err = this->GetKeyedValue(f, "DatumControls.HFlag=", lineNum++, strLine, &this->fConstituent.DatumControls.HFlag)) > 0)  goto readError;
-	if ((err = this->GetKeyedValue(f, "DatumControls.RotFlag=", lineNum++, strLine, &this->fConstituent.DatumControls.RotFlag)) > 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "DatumControls.FDir=", lineNum++, strLine, &this->fConstituent.DatumControls.FDir)) != 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "DatumControls.EDir=", lineNum++, strLine, &this->fConstituent.DatumControls.EDir)) != 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "DatumControls.L2Flag=", lineNum++, strLine, &this->fConstituent.DatumControls.L2Flag)) != 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "DatumControls.HFlag=", lineNum++, strLine, &this->fConstituent.DatumControls.HFlag)) != 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "DatumControls.RotFlag=", lineNum++, strLine, &this->fConstituent.DatumControls.RotFlag)) != 0)  goto readError;
 
 skipDatumControls:
-	if ((err = this->GetKeyedValue(f, "H=", lineNum++, strLine, &this->fConstituent.H)) > 0)  goto readError;
-	if ((err = this->GetKeyedValue(f, "kPrime=", lineNum++, strLine, &this->fConstituent.kPrime)) > 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "H=", lineNum++, strLine, &this->fConstituent.H)) != 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "kPrime=", lineNum++, strLine, &this->fConstituent.kPrime)) != 0)  goto readError;
 
 	if (!(p = GetKeyedLine(f,"[Offset]",lineNum++,strLine)))  goto readError;
 
 	switch(this->fStationType)
 	{
 		case 'c': case 'C':
-			if ((err = this->GetKeyedValue(f, "MinBefFloodTime=", lineNum++, strLine, &this->fCurrentOffset.MinBefFloodTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "FloodTime=", lineNum++, strLine, &this->fCurrentOffset.FloodTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MinBefEbbTime=", lineNum++, strLine, &this->fCurrentOffset.MinBefEbbTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "EbbTime=", lineNum++, strLine, &this->fCurrentOffset.EbbTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "FloodSpdRatio=", lineNum++, strLine, &this->fCurrentOffset.FloodSpdRatio)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "EbbSpdRatio=", lineNum++, strLine, &this->fCurrentOffset.EbbSpdRatio)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MinBFloodSpd=", lineNum++, strLine, &this->fCurrentOffset.MinBFloodSpd)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MinBFloodDir=", lineNum++, strLine, &this->fCurrentOffset.MinBFloodDir)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MaxFloodSpd=", lineNum++, strLine, &this->fCurrentOffset.MaxFloodSpd)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MaxFloodDir=", lineNum++, strLine, &this->fCurrentOffset.MaxFloodDir)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MinBEbbSpd=", lineNum++, strLine, &this->fCurrentOffset.MinBEbbSpd)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MinBEbbDir=", lineNum++, strLine, &this->fCurrentOffset.MinBEbbDir)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MaxEbbSpd=", lineNum++, strLine, &this->fCurrentOffset.MaxEbbSpd)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MaxEbbDir=", lineNum++, strLine, &this->fCurrentOffset.MaxEbbDir)) > 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MinBefFloodTime=", lineNum++, strLine, &this->fCurrentOffset.MinBefFloodTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "FloodTime=", lineNum++, strLine, &this->fCurrentOffset.FloodTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MinBefEbbTime=", lineNum++, strLine, &this->fCurrentOffset.MinBefEbbTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "EbbTime=", lineNum++, strLine, &this->fCurrentOffset.EbbTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "FloodSpdRatio=", lineNum++, strLine, &this->fCurrentOffset.FloodSpdRatio)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "EbbSpdRatio=", lineNum++, strLine, &this->fCurrentOffset.EbbSpdRatio)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MinBFloodSpd=", lineNum++, strLine, &this->fCurrentOffset.MinBFloodSpd)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MinBFloodDir=", lineNum++, strLine, &this->fCurrentOffset.MinBFloodDir)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MaxFloodSpd=", lineNum++, strLine, &this->fCurrentOffset.MaxFloodSpd)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MaxFloodDir=", lineNum++, strLine, &this->fCurrentOffset.MaxFloodDir)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MinBEbbSpd=", lineNum++, strLine, &this->fCurrentOffset.MinBEbbSpd)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MinBEbbDir=", lineNum++, strLine, &this->fCurrentOffset.MinBEbbDir)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MaxEbbSpd=", lineNum++, strLine, &this->fCurrentOffset.MaxEbbSpd)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MaxEbbDir=", lineNum++, strLine, &this->fCurrentOffset.MaxEbbDir)) != 0)  goto readError;
 			SetFileType(SHIOCURRENTSFILE);
 			break;
 		case 'h': case 'H':
-			if ((err = this->GetKeyedValue(f, "HighTime=", lineNum++, strLine, &this->fHeightOffset.HighTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "LowTime=", lineNum++, strLine, &this->fHeightOffset.LowTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "HighHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Mult)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "HighHeight_Add=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Add)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "LowHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Mult)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "LowHeight_Add=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Add)) > 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "HighTime=", lineNum++, strLine, &this->fHeightOffset.HighTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "LowTime=", lineNum++, strLine, &this->fHeightOffset.LowTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "HighHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Mult)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "HighHeight_Add=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Add)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "LowHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Mult)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "LowHeight_Add=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Add)) != 0)  goto readError;
 			SetFileType(SHIOHEIGHTSFILE);
 			break;
 		case 'p': case 'P':
-			if ((err = this->GetKeyedValue(f, "HighTime=", lineNum++, strLine, &this->fHeightOffset.HighTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "LowTime=", lineNum++, strLine, &this->fHeightOffset.LowTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "HighHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Mult)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "HighHeight_Add=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Add)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "LowHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Mult)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "LowHeight_Add=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Add)) > 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "HighTime=", lineNum++, strLine, &this->fHeightOffset.HighTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "LowTime=", lineNum++, strLine, &this->fHeightOffset.LowTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "HighHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Mult)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "HighHeight_Add=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Add)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "LowHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Mult)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "LowHeight_Add=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Add)) != 0)  goto readError;
 			SetFileType(PROGRESSIVETIDEFILE);
 			break;
 	}
-- 
2.43.0


From 10f13d5f40ed9787db5890a6b311a88cf3657665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:59 +0000
Subject: [PATCH 70/90] fix: the first value asked of a progressive wave tide
 is the tide's

---
 py_gnome/lib_gnome/ShioTimeValue_c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/ShioTimeValue_c.cpp b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
index 136eb54..03bdcd3 100644
--- a/py_gnome/lib_gnome/ShioTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
@@ -1144,7 +1144,7 @@ OSErr ShioTimeValue_c::GetTimeValue(const Seconds& current_time, VelocityRec *va
 				if (err) goto done_heights2;
 				fScaleFactor = scaleFactor;
 			}
-			(*value).u = (*value).u * fScaleFactor;
+			err = GetProgressiveWaveValue(current_time,value);
 		}
 
 
-- 
2.43.0


From a937ec6e20652374de796e0d42968a64fe0e7d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:37 +0000
Subject: [PATCH 71/90] fix: a tide without high and low waters is an error,
 not a crash

---
 py_gnome/lib_gnome/ShioHeight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/ShioHeight.cpp b/py_gnome/lib_gnome/ShioHeight.cpp
index 5db6c06..3a42624 100644
--- a/py_gnome/lib_gnome/ShioHeight.cpp
+++ b/py_gnome/lib_gnome/ShioHeight.cpp
@@ -553,6 +553,7 @@ short DoOffSetCorrection (COMPHEIGHTS *answers,  // Hdl to reference station hei
 	short		*HLFlagHdl = 0;
 	double		*HArrayPtr = 0;
 	EXTFLAG		*TArrayPtr = 0;
+	double		*pSlopesMult = 0, *pSlopesAdd = 0;
 
 	errorFlag=0;
 
@@ -752,7 +753,6 @@ short DoOffSetCorrection (COMPHEIGHTS *answers,  // Hdl to reference station hei
 
 	}
 
-    double *pSlopesMult, *pSlopesAdd;
 
 	pSlopesMult = new double[NoOfHighsLows];    // allocate memeory for slope array
 	pSlopesAdd = new double[NoOfHighsLows];    // allocate memeory for slope array
-- 
2.43.0


From ed0fb1db93c8d825c6155ce8c8164f1d8bcfcb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:57 +0000
Subject: [PATCH 72/90] fix: height tide files without datum controls can be
 read

---
 py_gnome/lib_gnome/StringFunctions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/lib_gnome/StringFunctions.cpp b/py_gnome/lib_gnome/StringFunctions.cpp
index 16d5412..13ff617 100644
--- a/py_gnome/lib_gnome/StringFunctions.cpp
+++ b/py_gnome/lib_gnome/StringFunctions.cpp
@@ -1137,7 +1137,7 @@ CHARPTR NthLineInTextHelper(CHARPTR text, long n, CHARPTR line, Boolean optimize
 	if (maxLen < 0)
 		maxLen = 0;
 
-	if (optimize && n == 0) {
+	if (optimize && (n == 0 || n < linesRead)) { // start again to go back to a line
 		t = text;
 		linesRead = 0;
 	}
@@ -1190,7 +1190,7 @@ CHARPTR NthLineInTextHelper(CHARPTR text, long n, CHARPTR line, Boolean optimize
 
 	if (optimize) {
 		t += i + strlen(line) + 1 + (lineFeed ? 1 : 0);
-		linesRead++;
+		linesRead += n + 1;
 	}
 
 	return line;
-- 
2.43.0


From d3ee069c1f7e6fbcef86e7296936e4188306fde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:53 +0000
Subject: [PATCH 73/90] fix: lines longer than the buffer are cut instead of
 written past its end

---
 py_gnome/lib_gnome/StringFunctions.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py_gnome/lib_gnome/StringFunctions.cpp b/py_gnome/lib_gnome/StringFunctions.cpp
index 13ff617..b5ce927 100644
--- a/py_gnome/lib_gnome/StringFunctions.cpp
+++ b/py_gnome/lib_gnome/StringFunctions.cpp
@@ -1163,12 +1163,12 @@ CHARPTR NthLineInTextHelper(CHARPTR text, long n, CHARPTR line, Boolean optimize
 				// this copies to the variable
 				lineLengthInFile++; // keep track of the chars even though we may not put them in the string
 
-				if (numCharCopied < maxLen) {
+				if (numCharCopied < maxLen - 1) {
 					q[0] = s[0]; 
 					numCharCopied++;
+					q++; 
 				}
 
-				q++; 
 				s++; 
 			}
 
@@ -1189,7 +1189,7 @@ CHARPTR NthLineInTextHelper(CHARPTR text, long n, CHARPTR line, Boolean optimize
 	}
 
 	if (optimize) {
-		t += i + strlen(line) + 1 + (lineFeed ? 1 : 0);
+		t += i + lineLengthInFile + 1 + (lineFeed ? 1 : 0);
 		linesRead += n + 1;
 	}
 
-- 
2.43.0


From ced34f1d7fa495060c15009fed83876408b06762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:10 +0000
Subject: [PATCH 74/90] fix: height corrections of a secondary tide station
 apply after the last high or low water too

---
 py_gnome/lib_gnome/ShioHeight.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py_gnome/lib_gnome/ShioHeight.cpp b/py_gnome/lib_gnome/ShioHeight.cpp
index 3a42624..e250bfc 100644
--- a/py_gnome/lib_gnome/ShioHeight.cpp
+++ b/py_gnome/lib_gnome/ShioHeight.cpp
@@ -785,11 +785,11 @@ short DoOffSetCorrection (COMPHEIGHTS *answers,  // Hdl to reference station hei
     double dT0, dT1, dSMult0, dSMult1, dSAdd0, dSAdd1;
 
     // interpolate by hermite
-	for(i=0, j=0; i<numOfPoints && j<NoOfHighsLows; i++)
+	for(i=0, j=0; i<numOfPoints; i++)
 	{
         t = TimeHdl[i].val;
 
-        if(t > HLTimeHdl[j].val)
+        if(j < NoOfHighsLows && t > HLTimeHdl[j].val)
             j++;
 
         if(j == 0)
@@ -817,7 +817,8 @@ short DoOffSetCorrection (COMPHEIGHTS *answers,  // Hdl to reference station hei
                 dT1 = HLTimeHdl[j].val;
             }
 
-        if(HLFlagHdl[j] == low)
+        // the extra point after the last high or low is of the other kind
+        if(j < NoOfHighsLows ? HLFlagHdl[j] == low : HLFlagHdl[NoOfHighsLows-1] == high)
         {
             HeightCorrectionMult = Hermite(HighMult, dSMult0, dT0,
                                            LowMult, dSMult1, dT1, t);
-- 
2.43.0


From ef87dfeb1fcb43ff37b314ff56a508bf135ed520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:10 +0000
Subject: [PATCH 75/90] fix: diurnal height tides are known from the first
 hours of the prediction

---
 py_gnome/lib_gnome/ShioTimeValue_c.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/ShioTimeValue_c.cpp b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
index 03bdcd3..73543bf 100644
--- a/py_gnome/lib_gnome/ShioTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
@@ -449,7 +449,8 @@ OSErr ShioTimeValue_c::GetTimeValue(const Seconds& current_time, VelocityRec *va
 	//SecondsToDate(modelStartTime,&beginDate);
 
 //	SecondsToDate(modelStartTime-6*3600,&beginDate);	// for now to handle the new tidal current mover 1/27/04 // minus AH 07/10/2012
-	SecondsToDate(current_time-6*3600,&beginDate);	// AH 07/10/2012
+	// height stations need the high or low water before the time, half a day earlier with diurnal tides
+	SecondsToDate(current_time-(this->fStationType == 'H' ? 24 : 6)*3600,&beginDate);	// AH 07/10/2012
 
 	beginDate.hour = 0; // Shio expects this to be the start of the day
 	beginDate.minute = 0;
-- 
2.43.0


From d13e54f7939d4032d8180642f78dbfbc69297ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:38 +0000
Subject: [PATCH 76/90] fix: the times of gridded winds are rounded to the
 second, not cut

---
 py_gnome/lib_gnome/TimeGridWind_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridWind_c.cpp b/py_gnome/lib_gnome/TimeGridWind_c.cpp
index d967d7c..64d1c7c 100644
--- a/py_gnome/lib_gnome/TimeGridWind_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridWind_c.cpp
@@ -395,8 +395,8 @@ LAS:
 		timeIndex = i;
 		status = nc_get_var1_double(ncid, timeid, &timeIndex, &timeVal);
 		if (status != NC_NOERR) {err = -1; goto done;}
-		INDEXH(fTimeHdl,i) = startTime2+(long) (timeVal*timeConversion);	// which start time where?
-		if (i==0) startTime = startTime2+(long) (timeVal*timeConversion);
+		INDEXH(fTimeHdl,i) = startTime2+(long) round(timeVal*timeConversion);	// which start time where?
+		if (i==0) startTime = startTime2+(long) round(timeVal*timeConversion);
 	}
 	dLat = (endLat - startLat) / (latLength - 1);
 	dLon = (endLon - startLon) / (lonLength - 1);
-- 
2.43.0


From d753d644365a4938099705a497e80a043c2f263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:55 +0000
Subject: [PATCH 77/90] fix: gridded data kept constant before or after the
 file also serve its first and last time

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp  | 38 +++++++++++++--------------
 py_gnome/lib_gnome/TimeGridWind_c.cpp | 20 +++++++-------
 2 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index b47fea9..d19978a 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -1613,7 +1613,7 @@ VelocityRec TimeGridVelRect_c::GetScaledPatValue(const Seconds& model_time, Worl
 	}
 	
 	// Check for constant current
-	if((GetNumTimesInFile()==1 && !(GetNumFiles()>1)) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time > ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
+	if((GetNumTimesInFile()==1 && !(GetNumFiles()>1)) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time >= ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
 	{
 		// Calculate the interpolated velocity at the point
 		if (index >= 0)
@@ -2351,7 +2351,7 @@ OSErr TimeGridVelRect_c::GetScaledVelocities(Seconds time, VelocityFRec *scaled_
 		else
 			startTime = (*fTimeHdl)[fStartData.timeIndex] + fTimeShift;
 
-		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time > startTime || time < startTime) && fAllowExtrapolationInTime)
+		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time >= startTime || time < startTime) && fAllowExtrapolationInTime)
 		{
 			timeAlpha = 1;
 		}
@@ -2625,7 +2625,7 @@ VelocityRec TimeGridVelCurv_c::GetScaledPatValue(const Seconds& model_time, Worl
 	}
 	
 	// Check for constant current 
-	if((GetNumTimesInFile()==1 && !(GetNumFiles()>1)) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time > ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
+	if((GetNumTimesInFile()==1 && !(GetNumFiles()>1)) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time >= ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
 		//if(GetNumTimesInFile()==1)
 	{
 		// Calculate the interpolated velocity at the point
@@ -2756,7 +2756,7 @@ VelocityRec TimeGridVelCurv_c::GetInterpolatedValue(const Seconds& model_time, I
  	// the contributions from each point will default to zero if the depth indicies
 	// come back negative (ie the LE depth is out of bounds at the grid point)
 	if ((GetNumTimesInFile() == 1 && !(GetNumFiles() > 1)) ||
-		(fEndData.timeIndex == UNASSIGNEDINDEX && model_time > ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) ||
+		(fEndData.timeIndex == UNASSIGNEDINDEX && model_time >= ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) ||
 		(fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
 	{
 		if (pt1depthIndex1!=-1)
@@ -6917,7 +6917,7 @@ OSErr TimeGridVelCurv_c::GetScaledVelocities(Seconds time, VelocityFRec *scaled_
 		else
 			startTime = (*fTimeHdl)[fStartData.timeIndex] + fTimeShift;
 
-		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time > startTime || time < startTime) && fAllowExtrapolationInTime)
+		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time >= startTime || time < startTime) && fAllowExtrapolationInTime)
 		{
 			timeAlpha = 1;
 		}
@@ -7611,7 +7611,7 @@ VelocityRec TimeGridVelIce_c::GetScaledPatValueIce(const Seconds& model_time, Wo
 	totalDepth = GetTotalDepth(refPoint.p,index);	// may want to know depth relative to ice thickness...
 	
 	// Check for constant current 
-	if((GetNumTimesInFile()==1 && !(GetNumFiles()>1)) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time > ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
+	if((GetNumTimesInFile()==1 && !(GetNumFiles()>1)) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time >= ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
 		//if(GetNumTimesInFile()==1)
 	{
 		// Calculate the interpolated velocity at the point
@@ -7694,7 +7694,7 @@ double TimeGridVelIce_c::GetDataField(const Seconds& model_time, WorldPoint3D re
 	//totalDepth = GetTotalDepth(refPoint.p,index);	// may want to know depth relative to ice thickness...
 	
 	// Check for constant current 
-	if((GetNumTimesInFile()==1 && !(GetNumFiles()>1)) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time > ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
+	if((GetNumTimesInFile()==1 && !(GetNumFiles()>1)) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time >= ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
 		//if(GetNumTimesInFile()==1)
 	{
 		// Calculate the interpolated data at the point
@@ -7783,7 +7783,7 @@ VelocityRec TimeGridVelIce_c::GetInterpolatedValue(const Seconds& model_time, In
  	// the contributions from each point will default to zero if the depth indicies
 	// come back negative (ie the LE depth is out of bounds at the grid point)
 	if ((GetNumTimesInFile() == 1 && !(GetNumFiles() > 1)) ||
-		(fEndData.timeIndex == UNASSIGNEDINDEX && model_time > ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) ||
+		(fEndData.timeIndex == UNASSIGNEDINDEX && model_time >= ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) ||
 		(fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
 	{
 		pt1interp.u = interpolationVal.alpha1*(INDEXH(fStartData.dataHdl,ptIndex1).u); 
@@ -8267,7 +8267,7 @@ OSErr TimeGridVelIce_c::GetIceFields(Seconds time, double *thickness, double *fr
 		else
 			startTime = (*fTimeHdl)[fStartData.timeIndex] + fTimeShift;
 
-		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time > startTime || time < startTime) && fAllowExtrapolationInTime)
+		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time >= startTime || time < startTime) && fAllowExtrapolationInTime)
 		{
 			timeAlpha = 1;
 		}
@@ -8372,7 +8372,7 @@ OSErr TimeGridVelIce_c::GetIceVelocities(Seconds time, VelocityFRec *ice_velocit
 		else
 			startTime = (*fTimeHdl)[fStartData.timeIndex] + fTimeShift;
 
-		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time > startTime || time < startTime) && fAllowExtrapolationInTime)
+		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time >= startTime || time < startTime) && fAllowExtrapolationInTime)
 		{
 			timeAlpha = 1;
 		}
@@ -8481,7 +8481,7 @@ OSErr TimeGridVelIce_c::GetMovementVelocities(Seconds time, VelocityFRec *moveme
 		else
 			startTime = (*fTimeHdl)[fStartData.timeIndex] + fTimeShift;
 
-		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time > startTime || time < startTime) && fAllowExtrapolationInTime)
+		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time >= startTime || time < startTime) && fAllowExtrapolationInTime)
 		{
 			timeAlpha = 1;
 		}
@@ -8776,7 +8776,7 @@ VelocityRec TimeGridVelTri_c::GetScaledPatValue(const Seconds& model_time, World
 	if (depth > 0) return scaledPatVelocity;	// set subsurface spill with no subsurface velocity
 
 	// Check for constant current 
-	if((GetNumTimesInFile()==1 && !(GetNumFiles()>1)) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time > ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
+	if((GetNumTimesInFile()==1 && !(GetNumFiles()>1)) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time >= ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
 	{
 		// Calculate the interpolated velocity at the point
 		if (interpolationVal.ptIndex1 >= 0) 
@@ -8911,7 +8911,7 @@ VelocityRec TimeGridVelTri_c::GetScaledPatValue3D(const Seconds& model_time, Int
  	// the contributions from each point will default to zero if the depth indicies
 	// come back negative (ie the LE depth is out of bounds at the grid point)
 	if ((GetNumTimesInFile() == 1 && !(GetNumFiles() > 1)) ||
-		(fEndData.timeIndex == UNASSIGNEDINDEX && model_time > ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) ||
+		(fEndData.timeIndex == UNASSIGNEDINDEX && model_time >= ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) ||
 		(fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
 	{
 		if (pt1depthIndex1!=-1)
@@ -11006,7 +11006,7 @@ OSErr TimeGridVelTri_c::GetScaledVelocities(Seconds time, VelocityFRec *scaled_v
 		else
 			startTime = (*fTimeHdl)[fStartData.timeIndex] + fTimeShift;
 
-		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time > startTime || time < startTime) && fAllowExtrapolationInTime)
+		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time >= startTime || time < startTime) && fAllowExtrapolationInTime)
 		{
 			timeAlpha = 1;
 		}
@@ -11200,7 +11200,7 @@ VelocityRec TimeGridCurRect_c::GetScaledPatValue(const Seconds& model_time, Worl
 	index = GetVelocityIndex(refPoint.p); 
 	
 	// Check for constant current 
-	if((GetNumTimesInFile()==1 && !(GetNumFiles()>1)) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time > ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
+	if((GetNumTimesInFile()==1 && !(GetNumFiles()>1)) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time >= ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
 	//if(GetNumTimesInFile()==1 && !(GetNumFiles()>1))
 	{
 		// Calculate the interpolated velocity at the point
@@ -12368,7 +12368,7 @@ OSErr TimeGridCurRect_c::GetScaledVelocities(Seconds time, VelocityFRec *scaled_
 		else
 			startTime = (*fTimeHdl)[fStartData.timeIndex] + fTimeShift;
 
-		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time > startTime || time < startTime) && fAllowExtrapolationInTime)
+		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time >= startTime || time < startTime) && fAllowExtrapolationInTime)
 		{
 			timeAlpha = 1;
 		}
@@ -12655,7 +12655,7 @@ VelocityRec TimeGridCurTri_c::GetScaledPatValue(const Seconds& model_time, World
 	}						
 	
 	// Check for constant current 
-	if((GetNumTimesInFile()==1 && !(GetNumFiles()>1)) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time > ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
+	if((GetNumTimesInFile()==1 && !(GetNumFiles()>1)) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time >= ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
 	//if(GetNumTimesInFile()==1 && !(GetNumFiles()>1))
 	{
 		// Calculate the interpolated velocity at the point
@@ -12731,7 +12731,7 @@ VelocityRec TimeGridCurTri_c::GetScaledPatValue3D(const Seconds& model_time,Inte
 	
  	// the contributions from each point will default to zero if the depth indicies
 	// come back negative (ie the LE depth is out of bounds at the grid point)
-	if((GetNumTimesInFile()==1 && !(GetNumFiles()>1)) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time > ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
+	if((GetNumTimesInFile()==1 && !(GetNumFiles()>1)) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time >= ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
 	//if(GetNumTimesInFile()==1 && !(GetNumFiles()>1))
 	{
 		if (pt1depthIndex1!=-1)
@@ -13766,7 +13766,7 @@ OSErr TimeGridCurTri_c::GetScaledVelocities(Seconds time, VelocityFRec *scaled_v
 		else
 			startTime = (*fTimeHdl)[fStartData.timeIndex] + fTimeShift;
 
-		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time > startTime || time < startTime) && fAllowExtrapolationInTime)
+		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time >= startTime || time < startTime) && fAllowExtrapolationInTime)
 		{
 			timeAlpha = 1;
 		}
diff --git a/py_gnome/lib_gnome/TimeGridWind_c.cpp b/py_gnome/lib_gnome/TimeGridWind_c.cpp
index 64d1c7c..39687c5 100644
--- a/py_gnome/lib_gnome/TimeGridWind_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridWind_c.cpp
@@ -130,7 +130,7 @@ VelocityRec TimeGridWindRect_c::GetScaledPatValue(const Seconds& model_time, Wor
 	
 	// Check for constant wind 
 	if( ( GetNumTimesInFile()==1 && !( GetNumFiles() > 1 ) ) ||
-	   (fEndData.timeIndex == UNASSIGNEDINDEX && model_time > ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
+	   (fEndData.timeIndex == UNASSIGNEDINDEX && model_time >= ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
 	{
 		// Calculate the interpolated velocity at the point
 		if (index >= 0) 
@@ -659,7 +659,7 @@ OSErr TimeGridWindRect_c::GetScaledVelocities(Seconds time, VelocityFRec *scaled
 		else
 			startTime = (*fTimeHdl)[fStartData.timeIndex] + fTimeShift;
 
-		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time > startTime || time < startTime) && fAllowExtrapolationInTime)
+		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time >= startTime || time < startTime) && fAllowExtrapolationInTime)
 		{
 			timeAlpha = 1;
 		}
@@ -902,7 +902,7 @@ VelocityRec TimeGridWindCurv_c::GetInterpolatedMove(const Seconds& model_time, I
 		return scaledPatVelocity;
 	
 	if ((GetNumTimesInFile()==1 && !(GetNumFiles()>1)) || 
-		(fEndData.timeIndex == UNASSIGNEDINDEX && model_time > ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || 
+		(fEndData.timeIndex == UNASSIGNEDINDEX && model_time >= ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || 
 		(fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
 	{
 		if (ptIndex1!=-1)
@@ -1031,7 +1031,7 @@ VelocityRec TimeGridWindCurv_c::GetScaledPatValue(const Seconds& model_time, Wor
 		goto scale;
 	}						
 	// Check for constant wind 
-	if(GetNumTimesInFile()==1 || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time > ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime)  || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
+	if(GetNumTimesInFile()==1 || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time >= ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime)  || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
 	{
 		// Calculate the interpolated velocity at the point
 		if (index >= 0) 
@@ -2829,7 +2829,7 @@ OSErr TimeGridWindCurv_c::GetScaledVelocities(Seconds time, VelocityFRec *scaled
 		else
 			startTime = (*fTimeHdl)[fStartData.timeIndex] + fTimeShift;
 
-		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time > startTime || time < startTime) && fAllowExtrapolationInTime)
+		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time >= startTime || time < startTime) && fAllowExtrapolationInTime)
 		{
 			timeAlpha = 1;
 		}
@@ -3522,7 +3522,7 @@ VelocityRec TimeGridWindIce_c::GetScaledPatValueIce(const Seconds& model_time, W
 	//totalDepth = GetTotalDepth(refPoint.p,index);	// may want to know depth relative to ice thickness...
 	
 	// Check for constant current 
-	if((GetNumTimesInFile()==1 && !(GetNumFiles()>1)) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time > ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
+	if((GetNumTimesInFile()==1 && !(GetNumFiles()>1)) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time >= ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
 		//if(GetNumTimesInFile()==1)
 	{
 		// Calculate the interpolated velocity at the point
@@ -3609,7 +3609,7 @@ double TimeGridWindIce_c::GetDataField(const Seconds& model_time, WorldPoint3D r
 	//totalDepth = GetTotalDepth(refPoint.p,index);	// may want to know depth relative to ice thickness...
 	
 	// Check for constant current 
-	if((GetNumTimesInFile()==1 && !(GetNumFiles()>1)) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time > ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
+	if((GetNumTimesInFile()==1 && !(GetNumFiles()>1)) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time >= ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) || (fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
 		//if(GetNumTimesInFile()==1)
 	{
 		// Calculate the interpolated data at the point
@@ -4087,7 +4087,7 @@ OSErr TimeGridWindIce_c::GetIceFields(Seconds time, double *thickness, double *f
 		else
 			startTime = (*fTimeHdl)[fStartData.timeIndex] + fTimeShift;
 
-		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time > startTime || time < startTime) && fAllowExtrapolationInTime)
+		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time >= startTime || time < startTime) && fAllowExtrapolationInTime)
 		{
 			timeAlpha = 1;
 		}
@@ -4191,7 +4191,7 @@ OSErr TimeGridWindIce_c::GetIceVelocities(Seconds time, VelocityFRec *ice_veloci
 		else
 			startTime = (*fTimeHdl)[fStartData.timeIndex] + fTimeShift;
 
-		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time > startTime || time < startTime) && fAllowExtrapolationInTime)
+		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time >= startTime || time < startTime) && fAllowExtrapolationInTime)
 		{
 			timeAlpha = 1;
 		}
@@ -4299,7 +4299,7 @@ OSErr TimeGridWindIce_c::GetMovementVelocities(Seconds time, VelocityFRec *movem
 		else
 			startTime = (*fTimeHdl)[fStartData.timeIndex] + fTimeShift;
 
-		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time > startTime || time < startTime) && fAllowExtrapolationInTime)
+		if (fEndData.timeIndex == UNASSIGNEDINDEX && (time >= startTime || time < startTime) && fAllowExtrapolationInTime)
 		{
 			timeAlpha = 1;
 		}
-- 
2.43.0


From a85b9bf2bc0e4ee481dc629ec2c367afa24e2f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:11 +0000
Subject: [PATCH 78/90] fix: shortening the duration of a model that runs
 backwards rewinds it, as for a forward run

---
 py_gnome/gnome/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 1fe75f7..31e606c 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -628,7 +628,7 @@ class Model(GnomeId):
 
     @duration.setter
     def duration(self, duration):
-        if duration < self._duration:
+        if abs(duration) < abs(self._duration):
             # only need to rewind if shorter than it was...
             # fixme: actually, only need to rewind if current model time
             # is beyond new time...
-- 
2.43.0


From 66b7e9c357cd452531e5d41635887830af5db5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:53 +0000
Subject: [PATCH 79/90] fix: get_spill_data compares element values, not their
 whole parts

---
 py_gnome/gnome/model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 31e606c..728397a 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -33,6 +33,7 @@ model run and in subsequent steps the model moves and weathers elements.
 
 """
 
+import operator
 import os
 from datetime import datetime, timedelta
 import zipfile
@@ -1965,6 +1966,9 @@ class Model(GnomeId):
         if ucert == 'ucert':
             ucert = 1
 
+        ops = {'<': operator.lt, '<=': operator.le, '>': operator.gt,
+               '>=': operator.ge, '==': operator.eq}
+
         def elem_val(prop, index):
             '''
             Gets the column containing the information on one element
@@ -1984,8 +1988,10 @@ class Model(GnomeId):
             return False
 
         def test(elem_value, op, test_val):
-            if op in {'<', '<=', '>', '>=', '=='}:
-                return eval(str(int(elem_value)) + op + test_val)
+            # compare the value itself: truncating it to an integer would
+            # select the wrong elements
+            if op in ops:
+                return ops[op](elem_value, num(test_val))
 
         def num(s):
             try:
-- 
2.43.0


From 4f87a1f0dea003c4e782046096b20c2f25e6583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:53 +0000
Subject: [PATCH 80/90] fix: adding a spill that is already there adds no
 second uncertain copy

---
 py_gnome/gnome/spill_container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spill_container.py b/py_gnome/gnome/spill_container.py
index ae39187..afe7acb 100644
--- a/py_gnome/gnome/spill_container.py
+++ b/py_gnome/gnome/spill_container.py
@@ -1172,8 +1172,9 @@ class SpillContainerPair(SpillContainerPairData):
             # add both certain and uncertain pair
             self._add_spill_pair(item)
         else:
+            is_new = item not in self._spill_container.spills
             self._spill_container.spills += item
-            if self.uncertain:
+            if self.uncertain and is_new:
                 self._u_spill_container.spills += item.uncertain_copy()
 
     def add(self, spills):
-- 
2.43.0


From 68e5317231e2e9a82b3a5d0d4306c37d232477c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:53 +0000
Subject: [PATCH 81/90] fix: RunningAverage.get_value unpacks the value and the
 error code

---
 py_gnome/gnome/environment/running_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/running_average.py b/py_gnome/gnome/environment/running_average.py
index fc7e00e..9a1180f 100644
--- a/py_gnome/gnome/environment/running_average.py
+++ b/py_gnome/gnome/environment/running_average.py
@@ -187,7 +187,7 @@ class RunningAverage(Environment):
             timeval = np.zeros((len(datetime), ),
                                dtype=basic_types.time_value_pair)
             timeval['time'] = date_to_sec(datetime)
-            timeval['value'] = self.ossm.get_time_value(timeval['time'])
+            timeval['value'], _err = self.ossm.get_time_value(timeval['time'])
 
             datetimeval = to_datetime_value_2d(timeval, 'uv')
 
-- 
2.43.0


From ff1148f3ad63364c4e420cf298fc3c12e94fc67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:53 +0000
Subject: [PATCH 82/90] fix: running averages use the first record for hours
 before the records

---
 py_gnome/lib_gnome/OSSMTimeValue_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/lib_gnome/OSSMTimeValue_c.cpp b/py_gnome/lib_gnome/OSSMTimeValue_c.cpp
index 19721ac..27dd346 100644
--- a/py_gnome/lib_gnome/OSSMTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/OSSMTimeValue_c.cpp
@@ -1482,12 +1482,12 @@ TimeValuePairH OSSMTimeValue_c::CalculateRunningAverage(long pastHoursToAverage,
 				err = GetDataStartTime(&start_time);
 				err = GetDataEndTime(&end_time);
 
-                if (model_time < start_time) {
+                if (timeToAverage < start_time) {
                     err = GetTimeValue(start_time, &velocity);
 
                     if (err) return 0;
                 }
-                if (model_time > end_time) {
+                if (timeToAverage > end_time) {
                     err = GetTimeValue(end_time, &velocity);
 
                     if (err) return 0;
-- 
2.43.0


From b1e70535716048a1a202e8e286b51db858e43f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:53 +0000
Subject: [PATCH 83/90] fix: TimeseriesData.in_units sets the units of the
 copy, single records convert

---
 py_gnome/gnome/environment/timeseries_objects_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/environment/timeseries_objects_base.py b/py_gnome/gnome/environment/timeseries_objects_base.py
index 6f9a112..b70f751 100644
--- a/py_gnome/gnome/environment/timeseries_objects_base.py
+++ b/py_gnome/gnome/environment/timeseries_objects_base.py
@@ -148,7 +148,7 @@ class TimeseriesData(GnomeId):
         pts = _reorganize_spatial_data(points)
         value = None
         if len(self.time) == 1:
-            value = self.data
+            value = self.data[0]
         else:
             extrapolate = self.extrapolate or extrapolate
             if not extrapolate:
@@ -212,7 +212,7 @@ class TimeseriesData(GnomeId):
                           'was not copied because it does not support '
                           'multiplication')
 
-        cpy._units = unit
+        cpy.units = unit
 
         return cpy
 
-- 
2.43.0


From b1045d3463d33812727a3289e1ad7ac9c07060ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:21 +0000
Subject: [PATCH 84/90] fix: objects can be loaded from the path of a .json
 file

---
 py_gnome/gnome/gnomeobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/gnomeobject.py b/py_gnome/gnome/gnomeobject.py
index 6286cba..90fb7c9 100644
--- a/py_gnome/gnome/gnomeobject.py
+++ b/py_gnome/gnome/gnomeobject.py
@@ -967,7 +967,7 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
                 with open(saveloc, 'r') as fp:
                     json_ = json.load(fp)
 
-                if 'obj_type' in json:
+                if 'obj_type' in json_:
                     if class_from_objtype(json_['obj_type']) is not cls:
                         raise ValueError("{} does not contain a {}"
                                          .format(saveloc, cls.__name__))
-- 
2.43.0


From 55194d3ab827e8ac7568fbb15f8c115479ef11a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:21 +0000
Subject: [PATCH 85/90] fix: updating an old save file removes every
 WeatheringData object

---
 py_gnome/gnome/utilities/save_updater.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/py_gnome/gnome/utilities/save_updater.py b/py_gnome/gnome/utilities/save_updater.py
index 77f0b62..cb28940 100644
--- a/py_gnome/gnome/utilities/save_updater.py
+++ b/py_gnome/gnome/utilities/save_updater.py
@@ -358,10 +358,8 @@ def v3tov4(messages, errors):
             with open(fname, 'r', encoding='utf-8') as fn:
                 json_ = json.load(fn)
                 if 'weatherers' in json_:
-                    # this is assuming only one
-                    for item in json_['weatherers']:
-                        if item in files_to_remove:
-                            json_['weatherers'].remove(item)
+                    json_['weatherers'] = [item for item in json_['weatherers']
+                                           if item not in files_to_remove]
                 json.dump(json_, open(fname, 'w', encoding='utf-8'), indent=4)
 
     # remove targeted files
-- 
2.43.0


From 6f59bdb723fcdef9df1541f0b1cb81d715683a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:21 +0000
Subject: [PATCH 86/90] fix: series entered as lists must ascend, series of
 different lengths compare unequal

---
 py_gnome/gnome/utilities/timeseries.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/utilities/timeseries.py b/py_gnome/gnome/utilities/timeseries.py
index 4eec7b2..e3f600f 100644
--- a/py_gnome/gnome/utilities/timeseries.py
+++ b/py_gnome/gnome/utilities/timeseries.py
@@ -130,7 +130,7 @@ class Timeseries(GnomeId):
                         raise TimeseriesError('value: {} '
                                               'is not a timeseries value'
                                               .format(i))
-                return True
+                timeseries = self._xform_input_timeseries(timeseries)
 
         if not self._timeseries_is_ascending(timeseries):
             self.logger.error('{0} - timeseries are not in ascending order. '
@@ -151,7 +151,7 @@ class Timeseries(GnomeId):
         """
         """
         t1 = super(Timeseries, self).__eq__(o)
-        return t1 and hasattr(self, 'ossm') and np.all(self.ossm.timeseries == o.ossm.timeseries)
+        return t1 and hasattr(self, 'ossm') and np.array_equal(self.ossm.timeseries, o.ossm.timeseries)
 
     def get_start_time(self):
         """
-- 
2.43.0


From 21bf66b7a8a9de3a1f7fc930e13cce2f4766e6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:14 +0000
Subject: [PATCH 87/90] fix: gridded currents, winds and ice movers are
 uncertain in backward runs too

---
 py_gnome/lib_gnome/CurrentCycleMover_c.cpp | 2 +-
 py_gnome/lib_gnome/GridCurrentMover_c.cpp  | 2 +-
 py_gnome/lib_gnome/GridWindMover_c.cpp     | 2 +-
 py_gnome/lib_gnome/IceMover_c.cpp          | 2 +-
 py_gnome/lib_gnome/IceWindMover_c.cpp      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/py_gnome/lib_gnome/CurrentCycleMover_c.cpp b/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
index f1c4a57..991222c 100644
--- a/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
+++ b/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
@@ -138,7 +138,7 @@ OSErr CurrentCycleMover_c::PrepareForModelStep(const Seconds &model_time, const
 	
 	if (uncertain)
 	{
-		Seconds elapsed_time = model_time - fModelStartTime;	// code goes here, how to set start time
+		Seconds elapsed_time = fabs(model_time - fModelStartTime);	// code goes here, how to set start time
 		err = this->UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList);
 	}
 	fIsOptimizedForStep = true;
diff --git a/py_gnome/lib_gnome/GridCurrentMover_c.cpp b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
index 0d5a02d..4d93ace 100644
--- a/py_gnome/lib_gnome/GridCurrentMover_c.cpp
+++ b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
@@ -194,7 +194,7 @@ OSErr GridCurrentMover_c::PrepareForModelStep(const Seconds &model_time, const S
 	
 	if (uncertain)
 	{
-		Seconds elapsed_time = model_time - fModelStartTime;	// code goes here, how to set start time
+		Seconds elapsed_time = fabs(model_time - fModelStartTime);	// code goes here, how to set start time
 		err = this->UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList);
 	}
 	fIsOptimizedForStep = true;
diff --git a/py_gnome/lib_gnome/GridWindMover_c.cpp b/py_gnome/lib_gnome/GridWindMover_c.cpp
index c37483d..af0f49c 100644
--- a/py_gnome/lib_gnome/GridWindMover_c.cpp
+++ b/py_gnome/lib_gnome/GridWindMover_c.cpp
@@ -93,7 +93,7 @@ OSErr GridWindMover_c::PrepareForModelStep(const Seconds& model_time,
 	if (uncertain) {
 		// so uncertainty starts at time zero + uncertain_time_delay,
 		// rather than a time step later
-		Seconds elapsed_time = model_time + time_step - fModelStartTime;
+		Seconds elapsed_time = fabs(model_time + time_step - fModelStartTime);
 		err = this->UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList);
 	}
 
diff --git a/py_gnome/lib_gnome/IceMover_c.cpp b/py_gnome/lib_gnome/IceMover_c.cpp
index 7588367..3ae51cd 100644
--- a/py_gnome/lib_gnome/IceMover_c.cpp
+++ b/py_gnome/lib_gnome/IceMover_c.cpp
@@ -192,7 +192,7 @@ OSErr IceMover_c::PrepareForModelStep(const Seconds &model_time, const Seconds &
 	
 	if (uncertain)
 	{
-		Seconds elapsed_time = model_time - fModelStartTime;	// code goes here, how to set start time
+		Seconds elapsed_time = fabs(model_time - fModelStartTime);	// code goes here, how to set start time
 		err = this->UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList);
 	}
 	fIsOptimizedForStep = true;
diff --git a/py_gnome/lib_gnome/IceWindMover_c.cpp b/py_gnome/lib_gnome/IceWindMover_c.cpp
index bd19324..fce393f 100644
--- a/py_gnome/lib_gnome/IceWindMover_c.cpp
+++ b/py_gnome/lib_gnome/IceWindMover_c.cpp
@@ -138,7 +138,7 @@ OSErr IceWindMover_c::PrepareForModelStep(const Seconds &model_time, const Secon
 	
 	if (uncertain)
 	{
-		Seconds elapsed_time = model_time - fModelStartTime;	// code goes here, how to set start time
+		Seconds elapsed_time = fabs(model_time - fModelStartTime);	// code goes here, how to set start time
 		err = this->UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList);
 	}
 	fIsOptimizedForStep = true;
-- 
2.43.0


From 992a0e3932691464a2e21b000efc677eb8cc7214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:09 +0000
Subject: [PATCH 88/90] fix: PolygonSet: sets made from data can grow,
 SetPointsData, empty polygons

---
 py_gnome/gnome/utilities/geometry/polygons.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py_gnome/gnome/utilities/geometry/polygons.py b/py_gnome/gnome/utilities/geometry/polygons.py
index 5f45da5..ac9e0af 100644
--- a/py_gnome/gnome/utilities/geometry/polygons.py
+++ b/py_gnome/gnome/utilities/geometry/polygons.py
@@ -203,7 +203,7 @@ class PolygonSet(object):
         else:
             self._PointsArray = np.array(data[0])
             self._IndexArray = np.array(data[1])
-            self._MetaDataList = np.array(data[2])
+            self._MetaDataList = list(data[2])
 
     def append(self, polygon, metadata=None):
 
@@ -229,7 +229,7 @@ class PolygonSet(object):
         added_length = polygon.shape[0]
         self._PointsArray.resize((old_length + added_length, 2),
                                  refcheck=False)
-        self._PointsArray[-added_length:, :] = polygon
+        self._PointsArray[old_length:, :] = polygon
 
         self._IndexArray.resize((self._IndexArray.shape[0] + 1),
                                 refcheck=False)
@@ -290,9 +290,9 @@ class PolygonSet(object):
         self._PointsArray = np.array(PointData[0], self.dtype)
         self._IndexArray = np.array(PointData[1], dtype=np.int32)
         if MetaData is not None:
-            self._DataArray = MetaData
+            self._MetaDataList = list(MetaData)
         else:
-            self._DataArray = [None] * len(self.PointsArray)
+            self._MetaDataList = [{} for _ in range(len(self))]
 
     def Copy(self):
         """
-- 
2.43.0


From 92c3114e9770508241168eef09e5b4fd95144874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:04 +0000
Subject: [PATCH 89/90] fix: compute the surface concentration of the zero step

Outputter.rewind, which the model calls before every run, marked it as done.
---
 py_gnome/gnome/outputters/outputter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index e926a51..6ae4c92 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -414,7 +414,7 @@ class Outputter(GnomeId):
         self._dt_since_lastoutput = None
         self._write_step = True
         self._is_first_output = True
-        self._surf_conc_computed = True
+        self._surf_conc_computed = False
         self._middle_of_run = False
         self.cleaned_up = False
 
-- 
2.43.0


From cb1269be4df122343fabf9ded38edda54fded372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:11 +0000
Subject: [PATCH 90/90] fix: oil as dense as calm water keeps its mass

The sedimentation of oil as dense as the water was 0/0 without waves, which made
the mass of the elements NaN and stopped the run.
---
 py_gnome/gnome/weatherers/natural_dispersion.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/weatherers/natural_dispersion.py b/py_gnome/gnome/weatherers/natural_dispersion.py
index 7880aaa..2a83b05 100644
--- a/py_gnome/gnome/weatherers/natural_dispersion.py
+++ b/py_gnome/gnome/weatherers/natural_dispersion.py
@@ -258,7 +258,9 @@ class NaturalDispersion(Weatherer):
 
         q_refloat = C_Roy * C_disp * V_refloat * area
 
-        C_oil = (q_refloat * time_step / (speed * time_step + 1.5 * wave_height))
+        # (calm water, with oil as dense as the water: nothing is refloated, to no depth)
+        C_oil = np.divide(q_refloat * time_step, speed * time_step + 1.5 * wave_height,
+                          out=np.zeros_like(q_refloat), where=q_refloat > 0.0)
         #print('C_oil', C_oil[0])
         # mass rate of oil loss due to sedimentation
         Q_sed = (1.6 * ka * np.sqrt(wave_height * disp_wave_energy * frac_breaking_waves / (rho_w * visc_w)) * C_oil * sediment)
@@ -345,7 +347,10 @@ class NaturalDispersion(Weatherer):
                # (kg/m2-sec) mass rate of emulsion
                q_refloat = C_Roy[i] * C_disp[i] * V_refloat * A
 
-               C_oil = (q_refloat * time_step / (speed * time_step + 1.5 * H_rms[i]))
+               # (calm water, with oil as dense as the water: nothing is refloated, to no depth)
+               C_oil = 0.0
+               if q_refloat > 0.0:
+                   C_oil = (q_refloat * time_step / (speed * time_step + 1.5 * H_rms[i]))
                # print('C_oil', C_oil)
                # mass rate of oil loss due to sedimentation
                Q_sed = (1.6 * ka * np.sqrt(H_rms[i] * D_e[i] * f_bw[i] / (rho_w * visc_w)) * C_oil * sediment)
-- 
2.43.0

