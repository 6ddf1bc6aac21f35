From aa97301eaac227a9778116e61dc93b6989098ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 01/61] fix: consult every derivative when resolving derived
 data

The not-found error was raised as soon as the first derivative did not
provide the item, and a store without derivatives failed with an
UnboundLocalError instead of reporting the item as missing.
---
 defdap/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 4e4bf6e..5c600f4 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -265,8 +265,8 @@ class Datastore(object):
         for derivative in self._derivatives:
             if key in self.lookup_derivative_keys(derivative):
                 break
-            else:
-                raise KeyError(f'Data with name `{key}` does not exist.')
+        else:
+            raise KeyError(f'Data with name `{key}` does not exist.')
         source = derivative['source']
 
         ## TODO: fix derived metadata
-- 
2.43.0


From 62eebc814e2e04a6cf3c18445fe0abf16350ea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 02/61] fix: restore visited groups after a derivative lookup

A lookup that ended early (source in the group being visited, or an
exception) left the class wide set of visited groups behind, hiding
derived data from every later lookup. Groups visited on one branch also
hid items from the other branches of the same lookup.
---
 defdap/utils.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 5c600f4..7258aa4 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -239,25 +239,23 @@ class Datastore(object):
         return keys
 
     def lookup_derivative_keys(self, derivative):
-        root_call = False
-        if Datastore._been_to is None:
-            root_call = True
-            Datastore._been_to = set()
-        Datastore._been_to.add(self._group_id)
+        # groups on the path to this store, to stop at cyclic references
+        previous = Datastore._been_to
+        Datastore._been_to = {self._group_id}.union(previous or ())
 
-        source = derivative['source']
-        matched_keys = []
-        if source._group_id in Datastore._been_to:
-            return matched_keys
-        for key in source:
-            for meta_key in derivative['in_props']:
-                if source.get_metadata(key, meta_key) != derivative['in_props'][meta_key]:
-                    break
-            else:
-                matched_keys.append(key)
-
-        if root_call:
-            Datastore._been_to = None
+        try:
+            source = derivative['source']
+            matched_keys = []
+            if source._group_id in Datastore._been_to:
+                return matched_keys
+            for key in source:
+                for meta_key in derivative['in_props']:
+                    if source.get_metadata(key, meta_key) != derivative['in_props'][meta_key]:
+                        break
+                else:
+                    matched_keys.append(key)
+        finally:
+            Datastore._been_to = previous
 
         return matched_keys
 
-- 
2.43.0


From 90748ab38499ef685482f16b20ca03f3de1bb7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 03/61] fix: do not share items between datastores after an
 update

With priority 'self' both stores ended up with the same store dict, and
in either case later changes to a merged item showed up in both.
---
 defdap/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 7258aa4..bd78d55 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -414,11 +414,12 @@ class Datastore(object):
             in both. Default is to prioritise `other`.
 
         """
+        items = {key: dict(item) for key, item in other._store.items()}
         if priority == 'self':
-            other._store.update(self._store)
-            self._store = other._store
+            items.update(self._store)
+            self._store = items
         else:
-            self._store.update(other._store)
+            self._store.update(items)
 
     def get_metadata(self, key, attr, value=None):
         """Get metadata value with a default returned if it does not
-- 
2.43.0


From 30cf8b60605709dd80fc3585290af2636f10a30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 04/61] fix: keep the flood fill inside maps one pixel wide or
 high

---
 defdap/_accelerated.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/defdap/_accelerated.py b/defdap/_accelerated.py
index dd90896..b23f739 100644
--- a/defdap/_accelerated.py
+++ b/defdap/_accelerated.py
@@ -56,14 +56,15 @@ def flood_fill(seed, index, points_remaining, grains, boundary_x, boundary_y,
         x, y = edge.pop()
         moves = [(x+1, y), (x-1, y), (x, y+1), (x, y-1)]
         # get rid of any that go out of the map area
+        # (from last to first as a map can be one pixel wide or high)
+        if y <= 0:
+            moves.pop(3)
+        if y > grains.shape[0] - 2:
+            moves.pop(2)
         if x <= 0:
             moves.pop(1)
-        elif x > grains.shape[1] - 2:
+        if x > grains.shape[1] - 2:
             moves.pop(0)
-        if y <= 0:
-            moves.pop(-1)
-        elif y > grains.shape[0] - 2:
-            moves.pop(-2)
 
         for (s, t) in moves:
             if grains[t, s] > 0:
@@ -135,14 +136,15 @@ def flood_fill_dic(seed, index, points_remaining, grains, added_coords):
 
         moves = [(x+1, y), (x-1, y), (x, y+1), (x, y-1)]
         # get rid of any that go out of the map area
+        # (from last to first as a map can be one pixel wide or high)
+        if y <= 0:
+            moves.pop(3)
+        if y >= grains.shape[0] - 1:
+            moves.pop(2)
         if x <= 0:
             moves.pop(1)
-        elif x >= grains.shape[1] - 1:
+        if x >= grains.shape[1] - 1:
             moves.pop(0)
-        if y <= 0:
-            moves.pop(-1)
-        elif y >= grains.shape[0] - 1:
-            moves.pop(-2)
 
         for (s, t) in moves:
             add_point = False
-- 
2.43.0


From 00f4a1b27f499305b1ec8b19472ab5f524c0b138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 05/61] fix: image of a boundary set without points is empty

---
 defdap/ebsd.py  | 3 ++-
 defdap/hrdic.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 56ee7ee..3e6e0f3 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1604,7 +1604,8 @@ class BoundarySet(object):
 
     def _image(self, points):
         image = np.zeros(self.ebsd_map.shape, dtype=bool)
-        image[tuple(zip(*points))[::-1]] = True
+        if points:
+            image[tuple(zip(*points))[::-1]] = True
         return image
 
     @property
diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index edf939c..2df795f 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -897,7 +897,8 @@ class BoundarySet(object):
 
     def _image(self, points):
         image = np.zeros(self.dic_map.shape, dtype=bool)
-        image[tuple(zip(*points))[::-1]] = True
+        if points:
+            image[tuple(zip(*points))[::-1]] = True
         return image
 
     @property
-- 
2.43.0


From 03967aecb0387194dfcc5bd1bd3108735b53e627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 06/61] fix: find grains in maps without any grain

---
 defdap/ebsd.py  | 21 +++++++++++----------
 defdap/hrdic.py | 21 +++++++++++----------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 3e6e0f3..e53d5d9 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -871,8 +871,8 @@ class Map(base.Map):
         # List of points where no grain has be set yet
         points_left = self.data.phase != 0
         total_points = points_left.sum()
-        found_point = 0
         next_point = points_left.tobytes().find(b'\x01')
+        found_point = next_point
 
         # Start counter for grains
         grain_index = 1
@@ -930,15 +930,16 @@ class Map(base.Map):
             grain.phase = self.phases[phase_id]
 
         ## TODO: this will get duplicated if find grains called again
-        self.data.add_derivative(
-            grain_list[0].data, self.grain_data_to_map, pass_ref=True,
-            in_props={
-                'type': 'list'
-            },
-            out_props={
-                'type': 'map'
-            }
-        )
+        if grain_list:
+            self.data.add_derivative(
+                grain_list[0].data, self.grain_data_to_map, pass_ref=True,
+                in_props={
+                    'type': 'list'
+                },
+                out_props={
+                    'type': 'map'
+                }
+            )
 
         self._grains = grain_list
         return grains
diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 2df795f..4a50bba 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -628,8 +628,8 @@ class Map(base.Map):
             points_left = grains == 0
             coords_buffer = np.zeros((points_left.size, 2), dtype=np.intp)
             total_points = points_left.sum()
-            found_point = 0
             next_point = points_left.tobytes().find(b'\x01')
+            found_point = next_point
 
             # Start counter for grains
             grain_index = 1
@@ -689,15 +689,16 @@ class Map(base.Map):
             raise ValueError(f"Unknown grain finding algorithm '{algorithm}'.")
 
         ## TODO: this will get duplicated if find grains called again
-        self.data.add_derivative(
-            grain_list[0].data, self.grain_data_to_map, pass_ref=True,
-            in_props={
-                'type': 'list'
-            },
-            out_props={
-                'type': 'map'
-            }
-        )
+        if grain_list:
+            self.data.add_derivative(
+                grain_list[0].data, self.grain_data_to_map, pass_ref=True,
+                in_props={
+                    'type': 'list'
+                },
+                out_props={
+                    'type': 'map'
+                }
+            )
 
         self._grains = grain_list
         return grains
-- 
2.43.0


From 3a34221931419d4c7815347a4b5064c34fb60f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 07/61] fix: load a map from a python dictionary

---
 defdap/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index f4f2401..f464074 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -83,7 +83,10 @@ class Map(ABC):
         self.grain_plot = None
         self.profile_plot = None
 
-        self.file_name = Path(file_name)
+        # data can also be given directly (EBSD data type `PythonDict`)
+        self.file_name = (
+            file_name if isinstance(file_name, dict) else Path(file_name)
+        )
         self.load_data(self.file_name, data_type=data_type)
 
         self.data.add_generator(
-- 
2.43.0


From eeaf22cc090aa5e0f3a0685bf9fe213df470d7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 08/61] fix: proxigram property of a map

---
 defdap/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index f464074..e2c1fbd 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -392,9 +392,7 @@ class Map(ABC):
             Distance from a grain boundary at each point in map.
 
         """
-        self.calc_proxigram(force_calc=False)
-
-        return self.proxigram_arr
+        return self.data.proxigram
 
     @report_progress("calculating proxigram")
     def calc_proxigram(self, num_trials=500):
-- 
2.43.0


From c52d6f8a74d5abb56deae1ad93ee179bb15b4a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 09/61] fix: grain outline with the default background

---
 defdap/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index e2c1fbd..c6546ed 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -874,7 +874,8 @@ class Grain(ABC):
         x0, y0, xmax, ymax = self.extreme_coords
 
         # initialise array with nans so area not in grain displays white
-        outline = np.full((ymax - y0 + 1, xmax - x0 + 1), bg, dtype=int)
+        outline = np.full((ymax - y0 + 1, xmax - x0 + 1), bg,
+                          dtype=np.result_type(bg, fg))
 
         for coord in self.data.point:
             outline[coord[1] - y0, coord[0] - x0] = fg
-- 
2.43.0


From a235b929bfee103766ab4c04ba664060383eacd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 10/61] fix: grain map of tensor map data

---
 defdap/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index c6546ed..4d850c9 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -949,7 +949,8 @@ class Grain(ABC):
                 raise ValueError("Either 'mapData' or 'grain_data' must "
                                  "be supplied.")
             else:
-                grain_data = self.grain_data(map_data)
+                # points are the last axis of grain data but the first here
+                grain_data = np.moveaxis(self.grain_data(map_data), -1, 0)
         x0, y0, xmax, ymax = self.extreme_coords
 
         # To support 3D array (ie RGB)
-- 
2.43.0


From faba9a48c64488c09e72aeb2af8c72a399fe752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 11/61] fix: grains of a map keep their group when found again

---
 defdap/base.py  | 4 ++++
 defdap/ebsd.py  | 2 +-
 defdap/hrdic.py | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index 4d850c9..8b234d5 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -43,6 +43,9 @@ class Map(ABC):
         The last selected grain
 
     """
+    # shared by all grains of the map, also when they are found again
+    _grain_group_id = None
+
     def __init__(self, file_name, data_type=None, experiment=None,
                  increment=None, frame=None, map_name=None):
         """
@@ -74,6 +77,7 @@ class Map(ABC):
         self.shape = (0, 0)
 
         self._grains = None
+        self._grain_group_id = Datastore.generate_id()
 
         self.sel_grain = None
 
diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index e53d5d9..744c86e 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -876,7 +876,7 @@ class Map(base.Map):
 
         # Start counter for grains
         grain_index = 1
-        group_id = Datastore.generate_id()
+        group_id = self._grain_group_id
 
         # Loop until all points (except boundaries) have been assigned
         # to a grain or ignored
diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 4a50bba..62e08f2 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -584,7 +584,7 @@ class Map(base.Map):
         algorithm = algorithm.lower()
 
         grain_list = []
-        group_id = Datastore.generate_id()
+        group_id = self._grain_group_id
 
         if algorithm == 'warp':
             # Warp EBSD grain map to DIC frame
-- 
2.43.0


From 06acdc98d10a3a55fc25f3427f06d8db16b7719c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 12/61] fix: transform a vector by a southern hemisphere
 quaternion

---
 defdap/quat.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/defdap/quat.py b/defdap/quat.py
index d3a8d00..23a52ca 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -356,8 +356,11 @@ class Quat(object):
             raise TypeError("Vector must be length 3.")
 
         vector_quat = Quat(0, *vector)
+        conjugate = Quat(
+            self[0], -self[1], -self[2], -self[3], allow_southern=True
+        )
         vector_quat_transformed = self.__mul__(
-            vector_quat.__mul__(self.conjugate, allow_southern=True),
+            vector_quat.__mul__(conjugate, allow_southern=True),
             allow_southern=True
         )
         return vector_quat_transformed.quat_coef[1:4]
-- 
2.43.0


From efdb68a01f00363301d65ed76a625141f0e89025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 13/61] fix: rotate the positions of known orientations

---
 defdap/ebsd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 744c86e..6295cf3 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -248,17 +248,19 @@ class Map(base.Map):
 
         """
 
+        # Rotate positions, orientations need to be fetched before the Euler
+        # angles they are generated from are rotated
+        orientation = self.data.orientation[::-1, ::-1]
         self.data.euler_angle = self.data.euler_angle[:, ::-1, ::-1]
         self.data.band_contrast = self.data.band_contrast[::-1, ::-1]
         self.data.band_slope = self.data.band_slope[::-1, ::-1]
         self.data.phase = self.data.phase[::-1, ::-1]
-        self.calc_quat_array()
 
         # Rotation from old coord system to new
         transform_quat = Quat.from_axis_angle(np.array([0, 0, 1]), np.pi).conjugate
 
         # Perform vectorised multiplication
-        quats = Quat.multiply_many_quats(self.data.orientation.flatten(), transform_quat)
+        quats = Quat.multiply_many_quats(orientation.flatten(), transform_quat)
         self.data.orientation = np.array(quats).reshape(self.shape)
 
         yield 1.
-- 
2.43.0


From 9434dc2c79a6e5f3e31a18cc9d12a37ddff0ca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 14/61] fix: average orientations near a half turn

---
 defdap/quat.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/defdap/quat.py b/defdap/quat.py
index 23a52ca..a930eff 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -755,13 +755,15 @@ class Quat(object):
             # calculate misorientation between current average and all
             # symmetrical equivalents. Dot product of each symm quat in
             # quatComps with refOri for point i
-            curr_mis_oris[:] = abs(np.einsum(
+            curr_mis_oris[:] = np.einsum(
                 "ij,j->i", quat_comps[:, :, i], av_ori
-            ))
+            )
 
-            # find min misorientation with current average then add to it
-            max_idx = np.argmax(curr_mis_oris[:])
-            av_ori += quat_comps[max_idx, :, i]
+            # find min misorientation with current average then add to it,
+            # with the sign that points towards the current average
+            max_idx = np.argmax(abs(curr_mis_oris))
+            av_ori += (np.sign(curr_mis_oris[max_idx]) *
+                       quat_comps[max_idx, :, i])
 
         # Convert components back to a quat and normalise
         av_ori = Quat(av_ori)
-- 
2.43.0


From d7e9fe99027d12a1a28e060a0c142d3fd0743728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:28 +0000
Subject: [PATCH 15/61] fix: find fundamental direction of directions on the
 edges of the triangle

---
 defdap/quat.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/defdap/quat.py b/defdap/quat.py
index a930eff..183134d 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -1040,8 +1040,10 @@ class Quat(object):
             'ijk,ijk->jk', direction_crystal, direction_crystal
         ))
 
-        # move all vectors into north hemisphere
-        direction_crystal[:, direction_crystal[2, :, :] < 0] *= -1
+        # move all vectors into north hemisphere, vectors on the equator
+        # must not be swapped due to rounding
+        eps = np.finfo(direction_crystal.dtype).eps
+        direction_crystal[:, direction_crystal[2, :, :] < -16 * eps] *= -1
 
         # convert to spherical coordinates
         alpha, beta = Quat.polar_angles(
@@ -1050,29 +1052,28 @@ class Quat(object):
 
         # find the poles in the fundamental triangle
         if sym_group == "cubic":
-            beta_range = (np.pi / 2, 3/4 * np.pi, 3)
+            beta_range = (np.pi / 2, 3/4 * np.pi)
 
         elif sym_group == "hexagonal":
             if triangle is None:
                 triangle = defaults['ipf_triangle_convention']
 
             if triangle == 'up':
-                beta_range = (np.pi / 2, 2/3 * np.pi, 1)
+                beta_range = (np.pi / 2, 2/3 * np.pi)
             elif triangle == 'down':
-                beta_range = (1/3 * np.pi, np.pi / 2, 1)
+                beta_range = (1/3 * np.pi, np.pi / 2)
             else:
                 ValueError("`triangle` must be 'up' or 'down'")
         else:
             raise ValueError("sym_group must be cubic or hexagonal")
         
-        trial_poles = np.logical_and(beta >= beta_range[0], beta <= beta_range[1])
-        # expand search slightly to catch edge cases if needed
-        if np.any(np.sum(trial_poles, axis=0) < beta_range[2]):
-            delta_beta = 1e-8
-            trial_poles = np.logical_and(
-                beta >= beta_range[0] - delta_beta,
-                beta <= beta_range[1] + delta_beta
-            )
+        # expand search slightly to catch edge cases, directions along z
+        # have an arbitrary azimuth
+        delta = 4 * np.sqrt(eps)
+        trial_poles = np.logical_and(
+            beta >= beta_range[0] - delta, beta <= beta_range[1] + delta
+        )
+        trial_poles |= alpha < delta
 
         if sym_group == "cubic":
             # now of symmetric equivalents left we want the one with
-- 
2.43.0


From 18bfb5e0739ffc1b28c7cb30dafa17c80fb787c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 16/61] fix: {123}<111> slip systems whose direction is not in
 the plane

---
 defdap/slip_systems/cubic_bcc.txt | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/defdap/slip_systems/cubic_bcc.txt b/defdap/slip_systems/cubic_bcc.txt
index a852e6d..c48512d 100644
--- a/defdap/slip_systems/cubic_bcc.txt
+++ b/defdap/slip_systems/cubic_bcc.txt
@@ -26,25 +26,25 @@ green,green,green,green,red,red,red,red,blue,blue,blue,blue
 1	-1	2	-1	1	1
 1	2	3	1	1	-1
 2	1	3	1	1	-1
-3	2	1	1	1	-1
-2	3	1	1	1	-1
+3	-2	1	1	1	-1
+-2	3	1	1	1	-1
 -1	3	2	1	1	-1
 3	-1	2	1	1	-1
 1	3	2	1	-1	1
 2	3	1	1	-1	1
-3	1	2	1	-1	1
-2	1	3	1	-1	1
+3	1	-2	1	-1	1
+-2	1	3	1	-1	1
 -1	2	3	1	-1	1
 3	2	-1	1	-1	1
 3	1	2	-1	1	1
 3	2	1	-1	1	1
-1 	2 	3	-1	1	1
-1	3	2	-1	1	1
+1	-2	3	-1	1	1
+1	3	-2	-1	1	1
 2	-1	3	-1	1	1
 2	3	-1	-1	1	1
-1	2	3	1	1	1
-1	3	2	1	1	1
-3	1	2	1	1	1
-2	1	3	1	1 	1
-2	3	1 	1	1	1
-3	1	2	1	1	1
\ No newline at end of file
+1	2	-3	1	1	1
+1	-3	2	1	1	1
+-3	1	2	1	1	1
+2	1	-3	1	1	1
+2	-3	1	1	1	1
+-3	2	1	1	1	1
\ No newline at end of file
-- 
2.43.0


From f7ccd65511a8d014db119fb63452b7cc1bb42d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 17/61] fix: load a slip system file with a single system

---
 defdap/crystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/crystal.py b/defdap/crystal.py
index b38c418..4e6662a 100755
--- a/defdap/crystal.py
+++ b/defdap/crystal.py
@@ -421,7 +421,7 @@ class SlipSystem(object):
             vect_size = 3
 
         ss_data = np.loadtxt(filepath, delimiter='\t', skiprows=2,
-                            dtype=np.int8)
+                            dtype=np.int8, ndmin=2)
         if ss_data.shape[1] != 2 * vect_size:
             raise IOError("Slip system file not valid")
 
-- 
2.43.0


From 52c64e7c04e79b1c295b601ea61bab9d9257a65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 18/61] fix: equivalent directions of hexagonal crystals from
 Miller indices

---
 defdap/crystal_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/crystal_utils.py b/defdap/crystal_utils.py
index 18018b5..02f5020 100644
--- a/defdap/crystal_utils.py
+++ b/defdap/crystal_utils.py
@@ -238,8 +238,9 @@ def equavlent_indicies(
             if dir_symm[2] < 0:
                 dir_symm *= -1
             if crystal_symm == 'hexagonal':
+                # times 3 as Miller-Bravais indices are in thirds
                 dir_symm = reduce_idc(convert_idc(
-                    'm', dir=safe_int_cast(np.matmul(q_matrix.T, dir_symm))
+                    'm', dir=safe_int_cast(3 * np.matmul(q_matrix.T, dir_symm))
                 ))
             dirs.append(safe_int_cast(dir_symm))
     
-- 
2.43.0


From b3e015bb8a10fd94a9e474c4675a9234da6f1796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 19/61] fix: slip plane inclination and trace angle of planes
 parallel or perpendicular to the surface

---
 defdap/ebsd.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 6295cf3..6f54bfe 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1553,7 +1553,10 @@ class Grain(base.Grain):
             intersection_crystal = np.cross(screen_plane_norm_crystal, slip_plane_norm)
 
             # Calculate angle between slip plane and screen plane
-            inclination = np.arccos(np.dot(screen_plane_norm_crystal, slip_plane_norm))
+            # clip as rounding can take the cosine outside of [-1, 1]
+            inclination = np.arccos(np.clip(
+                np.dot(screen_plane_norm_crystal, slip_plane_norm), -1., 1.
+            ))
             if inclination > np.pi / 2:
                 inclination = np.pi - inclination
             # print("{} inclination: {:.1f}".format(planeLabel, inclination * 180 / np.pi))
@@ -1566,7 +1569,9 @@ class Grain(base.Grain):
             # counter clockwise
             if intersection[0] > 0:
                 intersection *= -1
-            trace_angle = np.arccos(np.dot(intersection, np.array([0, 1.0, 0])))
+            trace_angle = np.arccos(np.clip(
+                np.dot(intersection, np.array([0, 1.0, 0])), -1., 1.
+            ))
 
             # Append to list
             self.slip_trace_angles.append(trace_angle)
-- 
2.43.0


From 1b0545222ef3f892ff851299670063bf1c3e1d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:11 +0000
Subject: [PATCH 20/61] fix: flip OpenPIV data only when y is descending

The comparison was outside np.all, so it was true for any order of y and
files with ascending y were turned upside down.
---
 defdap/file_readers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 74eb1bc..eecee1d 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -789,8 +789,10 @@ class OpenPivTextLoader(DICDataLoader):
         self.checkMetadata()
         
         # if y descending, flip
-        if np.all(np.diff(data[:, col['y']].reshape(shape)[:,0])) > 0:
-            data = data.reshape(shape + (-1,))[::-1].transpose((2, 0, 1))
+        data = data.reshape(shape + (-1,))
+        if np.all(np.diff(data[:, 0, col['y']]) < 0):
+            data = data[::-1]
+        data = data.transpose((2, 0, 1))
 
         self.loaded_data.coordinate = data[[col['x'], col['y']]]
         self.loaded_data.displacement = data[[col['u'], col['v']]]
@@ -823,7 +825,7 @@ class OpenPivBinaryLoader(DICDataLoader):
         self.checkMetadata()
         
         # if y descending, flip
-        if np.all(np.diff(data['y'][:,0])) > 0:
+        if np.all(np.diff(data['y'][:,0]) < 0):
             self.loaded_data.coordinate = np.array([data['x'][::-1], data['y'][::-1]])
             self.loaded_data.displacement = np.array([data['u'][::-1], data['v'][::-1]])
         else:
-- 
2.43.0


From 0a405ca647394b4d8792fd33811d4cb16e3beeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:39 +0000
Subject: [PATCH 21/61] fix: do not link DIC grains to EBSD pixels outside any
 grain

The modal label could be 0 or negative, which indexed the last EBSD grain,
and a grain with no pixel in the EBSD map raised an error.
---
 defdap/hrdic.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 62e08f2..9a5468a 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -678,11 +678,12 @@ class Map(base.Map):
                 # Find grain by masking the native ebsd grain image with
                 # selected grain from the warped dic grain image. The modal
                 # value is the EBSD grain label.
-                mode_id, _ = mode(
-                    self.ebsd_map.data.grains[warped_dic_grains == i+1],
-                    keepdims=False
-                )
-                grain.ebsd_grain = self.ebsd_map[mode_id - 1]
+                # (values <= 0 are not grains)
+                ebsd_labels = self.ebsd_map.data.grains[warped_dic_grains == i+1]
+                ebsd_labels = ebsd_labels[ebsd_labels > 0]
+                if ebsd_labels.size > 0:
+                    mode_id, _ = mode(ebsd_labels, keepdims=False)
+                    grain.ebsd_grain = self.ebsd_map[mode_id - 1]
                 grain.ebsd_map = self.ebsd_map
 
         else:
-- 
2.43.0


From d40faa7df63d631f82ee0c5ea2a8a59ef8c8adcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:39 +0000
Subject: [PATCH 22/61] fix: use the boundaries of the EBSD map linked last

Linking a second EBSD map left the boundaries of the first one in place as
the derivative function was a new lambda each time.
---
 defdap/hrdic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 9a5468a..f8cff8d 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -395,14 +395,15 @@ class Map(base.Map):
         self.experiment.link_frames(self.frame, ebsd_map.frame, kwargs)
         self.data.add_derivative(
             self.ebsd_map.data,
-            lambda boundaries: BoundarySet.from_ebsd_boundaries(
-                self, boundaries
-            ),
+            self._boundaries_from_ebsd,
             in_props={
                 'type': 'boundaries'
             }
         )
 
+    def _boundaries_from_ebsd(self, boundaries):
+        return BoundarySet.from_ebsd_boundaries(self, boundaries)
+
     def check_ebsd_linked(self):
         """Check if an EBSD map has been linked.
 
-- 
2.43.0


From be269b7e67c76eda7f79416f971cdf5417d744da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 23/61] fix: accept the documented transform type
 piecewiseAffine

link_ebsd_map lower cases the name, which was then not found.
---
 defdap/experiment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index 5642aa0..d732616 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -44,6 +44,7 @@ class Experiment(object):
     def get_frame_transform(self, frame_1, frame_2):
         transform_lookup = {
             'piecewise_affine': tf.PiecewiseAffineTransform,
+            'piecewiseaffine': tf.PiecewiseAffineTransform,
             'projective': tf.ProjectiveTransform,
             'polynomial': tf.PolynomialTransform,
             'affine': tf.AffineTransform,
-- 
2.43.0


From f7f69f36511abf03d331b0bb7febac2e722ee0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 24/61] fix: place warped points when the map extends beyond
 the warped image

A DIC map starting to the left of or above the EBSD map gave a negative
crop, so its boundaries were taken from the other end of the image.
---
 defdap/experiment.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index d732616..cb7bf78 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -148,6 +148,11 @@ class Experiment(object):
                 transform.params[0:2, 2] + 0.05*input_shape
             )
             crop = crop.round().astype(int)
+            # the image may start before the border, a negative index would
+            # count from its end
+            pad = np.maximum(-crop, 0)
+            points_img = np.pad(points_img, ((pad[1], 0), (pad[0], 0)))
+            crop = crop + pad
             points_img = points_img[crop[1]:crop[1] + kwargs['output_shape'][0],
                                     crop[0]:crop[0] + kwargs['output_shape'][1]]
 
-- 
2.43.0


From f4857f0a064f1501da870c5e73460b0a4d7e40f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 25/61] fix: ignore unknown keys when picking homologous points

---
 defdap/experiment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index cb7bf78..691b92e 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -265,6 +265,9 @@ class Frame(object):
 
         """
         arrow_keys = ['left', 'right', 'up', 'down']
+        # the key is None if it is not known to matplotlib
+        if event.key is None:
+            return
         keys = event.key.split('+')
         key = keys[-1]
         if key not in arrow_keys:
-- 
2.43.0


From daa4347522f57f73bdd129aeebd60fc0365c57ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 26/61] fix: read the fields after an unknown field in Oxford
 binary files

---
 defdap/file_readers.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index eecee1d..edaff6b 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -492,15 +492,17 @@ class OxfordBinaryLoader(EBSDDataLoader):
             12: ('IB6', 'float32')  # ?
         }
         field_lookup.update(edx_fields)
-        try:
-            for i in range(int(metadata['Fields']['Count'])):
-                field_id = int(metadata['Fields']['Field{:}'.format(i + 1)])
+        for i in range(int(metadata['Fields']['Count'])):
+            field_id = int(metadata['Fields']['Field{:}'.format(i + 1)])
+            try:
                 data_format.append(field_lookup[field_id])
-        except KeyError:
-            print(f'\nUnknown field in file with key {field_id}. '
-                  f'Assuming float32 data.')
-            unknown_field_count += 1
-            data_format.append((f'unknown_{unknown_field_count}', 'float32'))
+            except KeyError:
+                print(f'\nUnknown field in file with key {field_id}. '
+                      f'Assuming float32 data.')
+                unknown_field_count += 1
+                data_format.append(
+                    (f'unknown_{unknown_field_count}', 'float32')
+                )
 
         self.data_format = np.dtype(data_format)
 
-- 
2.43.0


From ee8854d6218eea8d8e3c4103ab01c594c8b4ad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 27/61] fix: load the columns of EDAX files that match the data
 format

---
 defdap/file_readers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index edaff6b..014b941 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -301,7 +301,7 @@ class EdaxAngLoader(EBSDDataLoader):
             # ('SE_signal', 'float32'),
             ('FF', 'float32'),
         ])
-        load_cols = (0, 1, 2, 5, 6, 7, 8, 9)
+        load_cols = (0, 1, 2, 5, 6, 7, 9)
 
         # now read the data from file
         data = np.loadtxt(
-- 
2.43.0


From a082ade75c6472ee5bce4f4612e316b912f6f818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 28/61] fix: write the space group of each phase to Oxford text
 files

---
 defdap/file_writers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/file_writers.py b/defdap/file_writers.py
index d7c85a6..585bd46 100644
--- a/defdap/file_writers.py
+++ b/defdap/file_writers.py
@@ -107,7 +107,8 @@ class OxfordTextWriter(EBSDDataWriter):
                 angles = "{:.3f};{:.3f};{:.3f}".format(*angles)
 
                 ctf_file.write(f"{dims}\t{angles}\t{phase.name}"
-                               f"\t{phase.laue_group}\t0\t\t\t\n")
+                               f"\t{phase.laue_group}"
+                               f"\t{phase.spaceGroup or 0}\t\t\t\n")
 
             ctf_file.write("Phase\tX\tY\tBands\tError\tEuler1\tEuler2"
                            "\tEuler3\tMAD\tBC\tBS\n")
-- 
2.43.0


From e0e268708f966fbd59635e47776bb67d0087fea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 29/61] fix: keep the whole phase name when loading EDAX files

---
 defdap/file_readers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 014b941..a96c6ae 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -351,7 +351,7 @@ class EdaxAngLoader(EBSDDataLoader):
             line = line.split()
 
             if line[0] == 'MaterialName':
-                name = line[1]
+                name = ' '.join(line[1:])
             if line[0] == 'Symmetry':
                 point_group = line[1]
                 if point_group in ('43', 'm3m'):
-- 
2.43.0


From a1e502f8371f956073de677f2d1d4fba3bfac00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 30/61] fix: only read Oxford text header values from their own
 line

---
 defdap/file_readers.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index a96c6ae..e351077 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -132,19 +132,19 @@ class OxfordTextLoader(EBSDDataLoader):
         acq_eulers = [0., 0., 0.]
         with open(str(file_name), 'r') as ctf_file:
             for i, line in enumerate(ctf_file):
-                if 'XCells' in line:
+                if line.startswith('XCells'):
                     x_dim = int(line.split()[-1])
-                elif 'YCells' in line:
+                elif line.startswith('YCells'):
                     y_dim = int(line.split()[-1])
-                elif 'XStep' in line:
+                elif line.startswith('XStep'):
                     self.loaded_metadata['step_size'] = float(line.split()[-1])
-                elif 'AcqE1' in line:
+                elif line.startswith('AcqE1'):
                     acq_eulers[0] = float(line.split()[-1])
-                elif 'AcqE2' in line:
+                elif line.startswith('AcqE2'):
                     acq_eulers[1] = float(line.split()[-1])
-                elif 'AcqE3' in line:
+                elif line.startswith('AcqE3'):
                     acq_eulers[2] = float(line.split()[-1])
-                elif 'Phases' in line:
+                elif line.startswith('Phases'):
                     num_phases = int(line.split()[-1])
                     self.loaded_data['phase', 'plot_params']['vmax'] = num_phases
                     for j in range(num_phases):
-- 
2.43.0


From 63f17278ef8b5962dedf4ab5e483320dc8eeef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 31/61] fix: allow plotting slip bands with known angles, as
 the grain inspector does

---
 defdap/plotting.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index d490bfd..27cd62a 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -865,8 +865,8 @@ class GrainPlot(Plot):
 
         self.add_traces(slip_trace_angles, colours, **kwargs)
 
-    def add_slip_bands(self, grain_map_data, colour=None, thres=None, 
-                       min_dist=None, **kwargs):
+    def add_slip_bands(self, grain_map_data=None, colour=None, thres=None,
+                       min_dist=None, angles=None, **kwargs):
         """Add lines representing slip bands detected by Radon transform
         in :func:`~defdap.hrdic.grain.calc_slip_bands`.
 
@@ -880,18 +880,21 @@ class GrainPlot(Plot):
             Threshold to use in :func:`~defdap.hrdic.Grain.calc_slip_bands`.
         min_dist :
             Minimum angle between bands in :func:`~defdap.hrdic.Grain.calc_slip_bands`.
+        angles : list
+            Angles of known slip bands to plot instead of detecting them.
         kwargs
             Other arguments are passed to :func:`defdap.plotting.GrainPlot.add_traces`.
 
         """
         if colour is None:
             colour = "black"
-        slip_band_angles = self.calling_grain.calc_slip_bands(
-            grain_map_data,
-            thres=thres,
-            min_dist=min_dist
-        )
-        self.add_traces(slip_band_angles, [colour], **kwargs)
+        if angles is None:
+            angles = self.calling_grain.calc_slip_bands(
+                grain_map_data,
+                thres=thres,
+                min_dist=min_dist
+            )
+        self.add_traces(angles, [colour], **kwargs)
 
     @classmethod
     def create(
-- 
2.43.0


From a27eff254194c3c42a537c4b03e10f9e31479236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 32/61] fix: do not average stale line groups in the grain
 inspector

---
 defdap/inspector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 8a77a39..251af4d 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -186,6 +186,10 @@ class GrainInspector:
         if grain.points_list == []:
             grain.groups_list = []
         else:
+            # forget the groups from before as they affect the averages
+            for line in grain.points_list:
+                line[2] = -1
+
             for i, line in enumerate(grain.points_list):
                 angle = line[1]
                 if i == 0:
-- 
2.43.0


From 8032a9c77e5d857fb1938a78ccc73805a072185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 33/61] fix: store plain numbers in the grain inspector so
 saved files can be loaded

---
 defdap/inspector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 251af4d..d9255c9 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -199,7 +199,7 @@ class GrainInspector:
                 else:  # If there is more that one angle
                     if np.any(np.abs(np.array([x[1] for x in grain.groups_list]) - angle) < 10):
                         # If within +- 5 degrees of existing group, set that as the group
-                        group = np.argmin(np.abs(np.array([x[1] for x in grain.groups_list]) - angle))
+                        group = int(np.argmin(np.abs(np.array([x[1] for x in grain.groups_list]) - angle)))
                         grain.points_list[i][2] = group
                         new_average = float('{0:.2f}'.format(
                             np.average([x[1] for x in grain.points_list if x[2] == group])))
@@ -434,7 +434,7 @@ class GrainInspector:
         lin_reg_result = linregress(x=np.array(v_list).flatten(), y=np.array(u_list).flatten())
 
         # Save measured RDR
-        grain.groups_list[group][4] = lin_reg_result.slope
+        grain.groups_list[group][4] = float(lin_reg_result.slope)
 
         if show_plot:
             self.plot_rdr(grain, group, u_list, v_list, x_list, y_list, lin_reg_result)
-- 
2.43.0


From d8f61e1cab86819f60e05a7ae2a7d28a76176b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 34/61] fix: replace the lines of a grain when loading a grain
 inspector file

---
 defdap/inspector.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index d9255c9..539ca1d 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -662,12 +662,14 @@ class GrainInspector:
         for start_index, grain_id, num_lines, num_groups in index_list:
             start_index_lines = start_index + 2
             grain_points = lines[start_index_lines:start_index_lines + num_lines]
-            for point in grain_points:
-                self.selected_dic_map[grain_id].points_list.append(ast.literal_eval(point.split('\\')[0]))
+            self.selected_dic_map[grain_id].points_list = [
+                ast.literal_eval(point.split('\\')[0]) for point in grain_points
+            ]
 
             start_index_groups = start_index + 3 + num_lines
             grain_groups = lines[start_index_groups:start_index_groups + num_groups]
-            for group in grain_groups:
-                self.selected_dic_map[grain_id].groups_list.append(ast.literal_eval(group.split('\\')[0]))
+            self.selected_dic_map[grain_id].groups_list = [
+                ast.literal_eval(group.split('\\')[0]) for group in grain_groups
+            ]
 
         self.redraw()
-- 
2.43.0


From 0f8e36a8c69890b0a9b555c0004b8428d632bd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 35/61] fix: use existing attributes when guessing grains in
 the EBSD linker

---
 defdap/ebsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 6f54bfe..833a13b 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1865,7 +1865,7 @@ class Linker(object):
         if event.inaxes is not plot.ax:
             return
 
-        curr_ebsd_map = plot.callingMap
+        curr_ebsd_map = plot.calling_map
 
         if curr_ebsd_map is self.ebsd_maps[0]:
             # clicked on 'master' map so highlight and guess grain on others
@@ -1887,7 +1887,7 @@ class Linker(object):
                 y = int((event.ydata - y0m) * scaling + y0)
 
                 grain_id = int(ebsd_map.data.grains[y, x]) - 1
-                grain = self[grain_id]
+                grain = ebsd_map[grain_id]
                 ebsd_map.sel_grain = grain
                 print(grain_id)
 
-- 
2.43.0


From a987d9ba3a2681a1866700f7df96d6b25d16e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 36/61] fix: do not guess a grain in the EBSD linker where
 there is none

---
 defdap/ebsd.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 833a13b..8b7cb13 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1886,7 +1886,13 @@ class Linker(object):
                 x = int((event.xdata - x0m) * scaling + x0)
                 y = int((event.ydata - y0m) * scaling + y0)
 
-                grain_id = int(ebsd_map.data.grains[y, x]) - 1
+                grain_id = -1
+                if 0 <= x < ebsd_map.x_dim and 0 <= y < ebsd_map.y_dim:
+                    grain_id = int(ebsd_map.data.grains[y, x]) - 1
+                if grain_id < 0:
+                    # no grain at this position, so nothing to guess
+                    ebsd_map.sel_grain = None
+                    continue
                 grain = ebsd_map[grain_id]
                 ebsd_map.sel_grain = grain
                 print(grain_id)
-- 
2.43.0


From 976e371b5c2a88af7d2f86c143582dad377a1de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 37/61] fix: report the orientation of each grain in the slip
 trace analysis table

---
 defdap/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 539ca1d..c448e43 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -368,7 +368,7 @@ class GrainInspector:
             if grain.points_list != []:
                 for group in grain.groups_list:
                     maxSF = np.max([item for sublist in grain.ebsd_grain.average_schmid_factors for item in sublist])
-                    eulers = self.selected_ebsd_grain.ref_ori.euler_angles() * 180 / np.pi
+                    eulers = grain.ebsd_grain.ref_ori.euler_angles() * 180 / np.pi
                     text = '{0}\t{1:.1f}\t{2:.1f}\t{3:.1f}\t{4:.3f}\t'.format(
                         idx, eulers[0], eulers[1], eulers[2], maxSF)
                     text += '{0}\t{1:.1f}\t{2}\t{3}\t{4:.2f}'.format(
-- 
2.43.0


From b18c026baacbfe27b11dd9bf61c6b7dc63a50564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 38/61] fix: rotate all loaded data of an EBSD map

---
 defdap/ebsd.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 8b7cb13..05a5819 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -251,10 +251,11 @@ class Map(base.Map):
         # Rotate positions, orientations need to be fetched before the Euler
         # angles they are generated from are rotated
         orientation = self.data.orientation[::-1, ::-1]
-        self.data.euler_angle = self.data.euler_angle[:, ::-1, ::-1]
-        self.data.band_contrast = self.data.band_contrast[::-1, ::-1]
-        self.data.band_slope = self.data.band_slope[::-1, ::-1]
-        self.data.phase = self.data.phase[::-1, ::-1]
+        generated = {key for keys in self.data._generators for key in keys}
+        for key in list(self.data._store):
+            if (key not in generated and
+                    self.data.get_metadata(key, 'type') == 'map'):
+                self.data[key] = self.data[key][..., ::-1, ::-1]
 
         # Rotation from old coord system to new
         transform_quat = Quat.from_axis_angle(np.array([0, 0, 1]), np.pi).conjugate
-- 
2.43.0


From 808312e0b3150ba46d6ec0a15ca99abf3c94c7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 39/61] fix: select the pixel under the cursor when clicking on
 maps

---
 defdap/base.py       | 12 ++++++++----
 defdap/ebsd.py       |  7 ++++---
 defdap/experiment.py |  4 +++-
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index 8b234d5..c07e55a 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -203,8 +203,10 @@ class Map(ABC):
         if event.inaxes is not plot.ax:
             return
 
-        # grain id of selected grain
-        grain_id = self.data.grains[int(event.ydata), int(event.xdata)] - 1
+        # grain id of selected grain, pixels are centred on whole numbers
+        x = min(int(event.xdata + 0.5), self.x_dim - 1)
+        y = min(int(event.ydata + 0.5), self.y_dim - 1)
+        grain_id = self.data.grains[y, x] - 1
         if grain_id < 0:
             return
         grain = self[grain_id]
@@ -355,8 +357,10 @@ class Map(ABC):
         if event.inaxes is not plot.ax:
             return
 
-        # grain id of selected grain
-        grain_id = self.data.grains[int(event.ydata), int(event.xdata)] - 1
+        # grain id of selected grain, pixels are centred on whole numbers
+        x = min(int(event.xdata + 0.5), self.x_dim - 1)
+        y = min(int(event.ydata + 0.5), self.y_dim - 1)
+        grain_id = self.data.grains[y, x] - 1
         if grain_id < 0:
             return
         grain = self[grain_id]
diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 05a5819..c3b6dfc 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1832,7 +1832,8 @@ class Linker(object):
         if event.inaxes is not plot.ax:
             return
 
-        origin = (int(event.xdata), int(event.ydata))
+        # pixels are centred on whole numbers
+        origin = (int(event.xdata + 0.5), int(event.ydata + 0.5))
         plot.calling_map.origin = origin
         plot.add_points([origin[0]], [origin[1]], update_layer=0)
         print(f"Origin set to ({origin[0]}, {origin[1]})")
@@ -1884,8 +1885,8 @@ class Linker(object):
                 y0 = ebsd_map.origin[1]
                 scaling = curr_ebsd_map.step_size / ebsd_map.step_size
 
-                x = int((event.xdata - x0m) * scaling + x0)
-                y = int((event.ydata - y0m) * scaling + y0)
+                x = int(np.floor((event.xdata - x0m) * scaling + x0 + 0.5))
+                y = int(np.floor((event.ydata - y0m) * scaling + y0 + 0.5))
 
                 grain_id = -1
                 if 0 <= x < ebsd_map.x_dim and 0 <= y < ebsd_map.y_dim:
diff --git a/defdap/experiment.py b/defdap/experiment.py
index 691b92e..ea58fa6 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -249,7 +249,9 @@ class Frame(object):
         # right mouse click or shift + left mouse click
         # shift click doesn't work in osx backend
         if event.button == 3 or (event.button == 1 and event.key == 'shift'):
-            plot.add_points([int(event.xdata)], [int(event.ydata)], update_layer=1)
+            # pixels are centred on whole numbers
+            plot.add_points([int(event.xdata + 0.5)], [int(event.ydata + 0.5)],
+                            update_layer=1)
 
     @staticmethod
     def homog_key(event, plot):
-- 
2.43.0


From 38b2e229196aad5614f6c4e09d7dea8a5fcfe384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 40/61] fix: never return a misorientation above 1 from
 Quat.mis_ori

---
 defdap/quat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/defdap/quat.py b/defdap/quat.py
index 183134d..9614e34 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -404,6 +404,8 @@ class Quat(object):
                 if current_mis_ori > min_mis_ori:   # keep if misorientation lower
                     min_mis_ori = current_mis_ori
                     min_quat_sym = quat_sym
+            # rounding can take this just above 1, where arccos is undefined
+            min_mis_ori = min(min_mis_ori, 1.)
 
             if return_quat == 1:
                 return min_quat_sym
-- 
2.43.0


From 2f8b34e56079b1a0be1196c6af29130be30d0319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 41/61] fix: reduce indices above 127 without overflow

---
 defdap/crystal_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/crystal_utils.py b/defdap/crystal_utils.py
index 02f5020..671280b 100644
--- a/defdap/crystal_utils.py
+++ b/defdap/crystal_utils.py
@@ -336,7 +336,7 @@ def reduce_idc(vec):
         The reduced indices.
 
     """
-    return tuple((np.array(vec) / np.gcd.reduce(vec)).astype(np.int8))
+    return tuple((np.array(vec) / np.gcd.reduce(vec)).astype(int))
 
 
 def safe_int_cast(vec, tol=1e-3):
-- 
2.43.0


From e12fb58b97d63878c0500efde2d2038cb78907b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 42/61] fix: show the boundaries of EBSD boundary maps

---
 defdap/ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index c3b6dfc..912cf55 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -845,7 +845,7 @@ class Map(base.Map):
         # Set default plot parameters then update with any input
         plot_params = {
             'plot_gbs': True,
-            'boundaryColour': 'black'
+            'boundary_colour': 'black'
         }
         plot_params.update(kwargs)
 
-- 
2.43.0


From 82b792682f6e9a3921f7de40ce0caf09b44329cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 43/61] fix: plot on a given axis without a given figure

---
 defdap/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 27cd62a..db22feb 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -65,6 +65,8 @@ class Plot(object):
                 self.ax = self.fig.add_subplot(111, **ax_params)
             else:
                 self.ax = ax
+                if fig is None:
+                    self.fig = ax.figure
         self.colour_bar = None
         self.arrow = None
 
-- 
2.43.0


From 7e5dc316fec6905bdddcf3e0b7f306b07aff2d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 44/61] fix: highlight grains in the given colours

---
 defdap/plotting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index db22feb..d27303a 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -535,7 +535,7 @@ class MapPlot(Plot):
 
         # Custom colour map where 0 is transparent white for bg and
         # then a patch for each grain colour
-        grain_colours.insert(0, 'white')
+        grain_colours = ['white'] + list(grain_colours)
         highlightsCmap = mpl.colors.ListedColormap(grain_colours)
         highlightsCmap._init()
         alphaMap = np.full(highlightsCmap.N + 3, alpha)
@@ -544,7 +544,8 @@ class MapPlot(Plot):
 
         if self.highlights_layer_id is None or new_layer:
             img = self.ax.imshow(outline, interpolation='none',
-                                 cmap=highlightsCmap)
+                                 cmap=highlightsCmap,
+                                 vmin=0, vmax=len(grain_colours) - 1)
             if self.highlights_layer_id is None:
                 self.highlights_layer_id = len(self.img_layers)
             self.img_layers.append(img)
@@ -552,7 +553,7 @@ class MapPlot(Plot):
             img = self.img_layers[self.highlights_layer_id]
             img.set_data(outline)
             img.set_cmap(highlightsCmap)
-            img.autoscale()
+            img.set_clim(0, len(grain_colours) - 1)
 
         self.draw()
 
-- 
2.43.0


From 401fe936a170b61f5750ca9f06844261bb5a3946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 45/61] fix: keep the background of grain maps of integer data

---
 defdap/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index c07e55a..b4f5fa7 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -967,7 +967,8 @@ class Grain(ABC):
             map_shape = map_shape + grain_data.shape[1:]
         
         # Create output array with appropriate dtype
-        grain_map_data = np.full(map_shape, bg, dtype=grain_data.dtype)
+        grain_map_data = np.full(map_shape, bg,
+                                 dtype=np.result_type(grain_data.dtype, bg))
 
         for coord, data in zip(self.data.point, grain_data):
             grain_map_data[coord[1] - y0, coord[0] - x0] = data
-- 
2.43.0


From 005dc3cc0d9040faaf15d1b7332c1a773463eb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 46/61] fix: keep masked points masked when plotting the norm
 of a map

---
 defdap/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index b4f5fa7..c8ae6df 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -529,7 +529,11 @@ class Map(ABC):
                 else:
                     raise ValueError('Unsupported data for norm.')
 
-                return np.linalg.norm(map_data, axis=axis)
+                norm = np.linalg.norm(map_data, axis=axis)
+                if np.ma.isMaskedArray(map_data):
+                    mask = np.ma.getmaskarray(map_data).any(axis=axis)
+                    norm = np.ma.array(norm, mask=mask)
+                return norm
 
             if comp == 'all_euler':
                 return self.calc_euler_colour(map_data)
-- 
2.43.0


From d02959fb2e352cbc3168d3e9fe373160ddc3e756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:29 +0000
Subject: [PATCH 47/61] fix: cast indices above 127 to integers without
 overflow

---
 defdap/crystal_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/crystal_utils.py b/defdap/crystal_utils.py
index 671280b..f132831 100644
--- a/defdap/crystal_utils.py
+++ b/defdap/crystal_utils.py
@@ -367,7 +367,7 @@ def safe_int_cast(vec, tol=1e-3):
     if np.any(np.abs(vec - vec_rounded) > tol):
         raise ValueError('Rounding too large', np.abs(vec - vec_rounded))
 
-    return tuple(vec_rounded.astype(np.int8))
+    return tuple(vec_rounded.astype(int))
 
 
 def idc_to_string(idc, brackets=None, str_type='unicode'):
-- 
2.43.0


From 4d6eb2cb43e1e2f97e4ef3978b75db87897ea818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 48/61] fix: draw exactly four boundary lines in the given
 colour

---
 defdap/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index d27303a..e510097 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -457,10 +457,11 @@ class MapPlot(Plot):
             boundaries = self.calling_map.data.grain_boundaries
 
         if kind == "line":
-            if isinstance(colour, str):
+            one_colour = isinstance(colour, str)
+            if one_colour:
                 colour = mpl.colors.to_rgba(colour)
 
-            if len(colour) == len(boundaries.lines):
+            if not one_colour and len(colour) == len(boundaries.lines):
                 colour_array = colour
                 colour_lc = None
             elif len(colour) == 4:
-- 
2.43.0


From 5ce385241f80290845b3c48e3c603031daed51d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 49/61] fix: keep the x and y lattice rotation gradients of the
 Nye tensor apart

Both names referred to one array, so the gradient along x was overwritten.
---
 defdap/ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 912cf55..1c4f74a 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -513,7 +513,7 @@ class Map(base.Map):
 
         # calculate relative elastic distortion tensors at each point in the two directions
         betaderx = np.zeros((3, 3) + self.shape)
-        betadery = betaderx
+        betadery = np.zeros((3, 3) + self.shape)
         for i in range(self.x_dim - 1):
             for j in range(self.y_dim - 1):
                 q0x = Quat(quat_comps[0, 0, j, i], quat_comps[0, 1, j, i],
-- 
2.43.0


From 45358bac4c28676222defb736740e90d5e750d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 50/61] fix: filter orientations regardless of quaternion sign
 and map size

Quaternions of opposite sign cancelled in the average (nan at worst) and
maps without inner pixels raised UnboundLocalError.
---
 defdap/ebsd.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 1c4f74a..5ea5feb 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -643,10 +643,10 @@ class Map(base.Map):
                 ]
                 quats = quadrants[min_mis_ori_quadrant[i, j]]
 
-                mis_oris_quad = np.abs(
-                    np.einsum("ijk,i->jk", quats, ref_quat)
-                )
-                quats = quats[:, mis_oris_quad > misori_tol]
+                dots = np.einsum("ijk,i->jk", quats, ref_quat)
+                # q and -q are the same orientation, sum those closest to the ref
+                quats = np.where(dots < 0, -quats, quats)
+                quats = quats[:, np.abs(dots) > misori_tol]
 
                 avOri = np.einsum("ij->i", quats)
                 # avOri /= np.sqrt(np.dot(avOri, avOri))
@@ -662,7 +662,7 @@ class Map(base.Map):
 
         self.data.orientation = quat_array_new
 
-        return quats
+        return quat_array_new
 
     @report_progress("finding grain boundaries")
     def find_boundaries(self, misori_tol=10):
-- 
2.43.0


From 6a6e2066a1f3f51965a5295e7b3792f59aa531b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:39 +0000
Subject: [PATCH 51/61] fix: allow one or two marker colours when plotting
 points on a pole figure

One colour was refused, and two clashed with the default marker of plot_ipf
and used a marker specification matplotlib no longer knows.
---
 defdap/plotting.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index e510097..5b79e1c 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1182,7 +1182,13 @@ class PolePlot(Plot):
         if marker_colour is None:
             points = self.ax.scatter(xp, yp, **kwargs)
             self.img_layers.append(points)
+        elif len(marker_colour) == 1:
+            plot_params = {'s': marker_size}
+            plot_params.update(kwargs)
+            points = self.ax.scatter(xp, yp, c=marker_colour[0], **plot_params)
+            self.img_layers.append(points)
         elif len(marker_colour) == 2:
+            kwargs.pop('marker', None)
             pos = (xp, yp)
             r1 = 0.5
             r2 = r1 + 0.5
@@ -1197,12 +1203,12 @@ class PolePlot(Plot):
             xy2 = list(zip(x, y))
 
             points = self.ax.scatter(
-                pos[0], pos[1], marker=(xy1, 0),
+                pos[0], pos[1], marker=xy1,
                 s=marker_size, c=marker_colour[0], **kwargs
             )
             self.img_layers.append(points)
             points = self.ax.scatter(
-                pos[0], pos[1], marker=(xy2, 0),
+                pos[0], pos[1], marker=xy2,
                 s=marker_size, c=marker_colour[1], **kwargs
             )
             self.img_layers.append(points)
-- 
2.43.0


From 9ad21e5f416f298e506fbdad13e1a56a73a19cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:39 +0000
Subject: [PATCH 52/61] fix: colour bar of an inverse pole figure describes the
 points just plotted

On an existing plot it described the points plotted first.
---
 defdap/quat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/quat.py b/defdap/quat.py
index 9614e34..cb53e6d 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -512,7 +512,7 @@ class Quat(object):
         )
 
         if plot_colour_bar:
-            plot.add_colour_bar(clabel)
+            plot.add_colour_bar(clabel, layer=-1)
 
         return plot
 
-- 
2.43.0


From 5a9a25fbe735caa79e2d1f1021f08fda48b5548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 53/61] fix: keep the previous correlation values when loading
 is refused

---
 defdap/hrdic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index f8cff8d..5079181 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -235,13 +235,13 @@ class Map(base.Map):
         else:
             raise Exception("No loader found for this DIC data.")
             
-        self.corr_val = loaded_data
-        
-        assert self.xdim == self.corr_val.shape[1], \
+        assert self.xdim == loaded_data.shape[1], \
             "Dimensions of imported data and dic data do not match"
-        assert self.ydim == self.corr_val.shape[0], \
+        assert self.ydim == loaded_data.shape[0], \
             "Dimensions of imported data and dic data do not match"
 
+        self.corr_val = loaded_data
+
     def retrieve_name(self):
         """Gets the first name assigned to the a map, as a string
 
-- 
2.43.0


From 0cd5e422d73b3a4e8ed7f78e09413b3f685b8c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 54/61] fix: leave masked points out of the statistics table

---
 defdap/hrdic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 5079181..cf04b84 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -308,7 +308,12 @@ class Map(base.Map):
         for c in components:
             # Iterate over tensor components (i.e. e11, e22, e12)
             for i in np.ndindex(self.data[c].shape[:len(np.shape(self.data[c]))-2]):
-                per = [np.nanpercentile(self.data[c][i], p) for p in percentiles]
+                # masked points do not count
+                values = np.ma.compressed(self.data[c][i])
+                if values.size > 0:
+                    per = [np.nanpercentile(values, p) for p in percentiles]
+                else:
+                    per = [np.nan] * len(percentiles)
                 print(str_format.format(c+''.join([str(t+1) for t in i]), *per))
 
     def set_crop(self, *, left=None, right=None, top=None, bottom=None,
-- 
2.43.0


From 5603f08a190760e78d6a4022d99d82218a4d3a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 55/61] fix: histogram only unmasked data and default to its
 range

---
 defdap/plotting.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 5b79e1c..cf7477b 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1443,6 +1443,14 @@ class HistPlot(Plot):
 
         """
 
+        # Masked and missing points do not count
+        hist_data = np.ma.compressed(hist_data)
+        if np.issubdtype(hist_data.dtype, np.floating):
+            hist_data = hist_data[~np.isnan(hist_data)]
+
+        if range is None:
+            range = (hist_data.min(), hist_data.max())
+
         # Generate the x bins with appropriate spaceing for linear or log
         if self.axes_type == 'logx' or self.axes_type == 'loglog':
             bin_list = np.logspace(np.log10(range[0]), np.log10(range[1]), bins)
@@ -1451,7 +1459,7 @@ class HistPlot(Plot):
 
         if self.plot_type == 'scatter':
             # Generate the histogram data and plot as a scatter plot
-            hist = np.histogram(hist_data.flatten(), bins=bin_list, density=self.density)
+            hist = np.histogram(hist_data, bins=bin_list, density=self.density)
             y_vals = hist[0]
             x_vals = 0.5 * (hist[1][1:] + hist[1][:-1])
 
@@ -1459,7 +1467,7 @@ class HistPlot(Plot):
 
         else:
             # Plot as a matplotlib histogram
-            self.ax.hist(hist_data.flatten(), bins=bin_list, histtype=self.plot_type,
+            self.ax.hist(hist_data, bins=bin_list, histtype=self.plot_type,
                          density=self.density, label=label, **kwargs)
 
     def add_legend(self, **kwargs):
-- 
2.43.0


From fb87a7f88ca38d1286f3250404e69e065a53f2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 56/61] fix: draw every slip trace in the upper half when only
 that is plotted

---
 defdap/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index cf7477b..ef72c68 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -831,7 +831,7 @@ class GrainPlot(Plot):
         if top_only:
             pivot = 'tail'
             for idx, (x, y) in enumerate(zip(traces[0], traces[1])):
-                if x < 0 and y < 0:
+                if y < 0:
                     traces[0][idx] *= -1
                     traces[1][idx] *= -1
             self.ax.set_ylim(pos[1] - 0.001, pos[1] + 0.1)
-- 
2.43.0


From aea4c888bdde75c544ae8593cab140fe78cb425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 57/61] fix: no rotation between identical orientations instead
 of nan

---
 defdap/ebsd.py | 12 ++++++++++--
 defdap/quat.py |  6 ++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 5ea5feb..0c5cafc 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1280,7 +1280,11 @@ class Grain(base.Grain):
             dq[:, dq[0] < 0] = -dq[:, dq[0] < 0]
 
             # numpy broadcasting taking care of different array sizes
-            mis_ori_axis[:, :] = (2 * dq[1:4, :] * np.arccos(dq[0, :])) / np.sqrt(1 - np.power(dq[0, :], 2))
+            cos = np.clip(dq[0, :], 0, 1)
+            sin = np.sqrt(1 - np.power(cos, 2))
+            # no rotation has no axis
+            sin[sin == 0] = 1
+            mis_ori_axis[:, :] = (2 * dq[1:4, :] * np.arccos(cos)) / sin
 
             # hack it back into a list. Need to change self.*List to be arrays, it was a bad decision to
             # make them lists in the beginning
@@ -1310,7 +1314,11 @@ class Grain(base.Grain):
         dq[3] = (ref_ori_inv[3]*quat_comps[0] + ref_ori_inv[0]*quat_comps[3] +
                  ref_ori_inv[2]*quat_comps[1] - ref_ori_inv[1]*quat_comps[2])
         dq[:, dq[0] < 0] *= -1
-        misori_axis = (2 * dq[1:4] * np.arccos(dq[0])) / np.sqrt(1 - dq[0]**2)
+        cos = np.clip(dq[0], 0, 1)
+        sin = np.sqrt(1 - cos**2)
+        # no rotation has no axis
+        sin[sin == 0] = 1
+        misori_axis = (2 * dq[1:4] * np.arccos(cos)) / sin
 
         return misori, misori_axis
     
diff --git a/defdap/quat.py b/defdap/quat.py
index cb53e6d..6841ab5 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -434,8 +434,10 @@ class Quat(object):
         if isinstance(right, type(self)):
             Dq = right * self.conjugate
             Dq = Dq.quat_coef
-            mis_ori_axis = 2 * Dq[1:4] * np.arccos(Dq[0]) / np.sqrt(1 - Dq[0]**2)
-            return mis_ori_axis
+            cos = np.clip(Dq[0], -1, 1)
+            # no rotation has no axis
+            sin = np.sqrt(1 - cos**2) or 1.
+            return 2 * Dq[1:4] * np.arccos(cos) / sin
         raise TypeError("Input must be a quaternion.")
 
     def plot_ipf(
-- 
2.43.0


From b7f52eb8fa14bfc9f5f7ab7c883d1c2f5afd80d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:34 +0000
Subject: [PATCH 58/61] fix: keep masked points masked when plotting the norm
 of a grain

---
 defdap/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index c8ae6df..216eef5 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -1155,7 +1155,11 @@ class Grain(ABC):
                 else:
                     raise ValueError('Unsupported data for norm.')
 
-                return np.linalg.norm(map_data, axis=axis)
+                norm = np.linalg.norm(map_data, axis=axis)
+                if np.ma.isMaskedArray(map_data):
+                    mask = np.ma.getmaskarray(map_data).any(axis=axis)
+                    norm = np.ma.array(norm, mask=mask)
+                return norm
 
             if comp == 'all_euler':
                 return self.calc_euler_colour(map_data)
-- 
2.43.0


From 432668d824ff3293a14d38c61db97473fe5d7c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:35 +0000
Subject: [PATCH 59/61] fix: plot displacement and coordinate by default, as
 their norm

---
 defdap/file_readers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index e351077..7f959ac 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -620,7 +620,7 @@ class DICDataLoader(ABC):
         self.loaded_data = Datastore()
         self.loaded_data.add(
             'coordinate', None, unit='px', type='map', order=1,
-            default_component='magnitude',
+            default_component='norm',
             plot_params={
                 'plot_colour_bar': True,
                 'clabel': 'Coordinate',
@@ -628,7 +628,7 @@ class DICDataLoader(ABC):
         )
         self.loaded_data.add(
             'displacement', None, unit='px', type='map', order=1,
-            default_component='magnitude',
+            default_component='norm',
             plot_params={
                 'plot_colour_bar': True,
                 'clabel': 'Displacement',
-- 
2.43.0


From bff815470c04a4a2ebc58d00dd90b3e4196b9f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:49 +0000
Subject: [PATCH 60/61] fix: measure the displacement ratio at the position of
 the grain given

---
 defdap/inspector.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index c448e43..8b4e559 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -416,11 +416,11 @@ class GrainInspector:
             x, y = skimage_line(int(x0), int(y0), int(x1), int(y1))
 
             # Get x and y coordinates for points to be samples for RDR
-            xmap = np.array(x).T[:, None] + coordinateOffsets[:,0] + self.selected_dic_grain.extreme_coords[0]
-            ymap = np.array(y).T[:, None] + coordinateOffsets[:,1] + self.selected_dic_grain.extreme_coords[1]
+            xmap = np.array(x).T[:, None] + coordinateOffsets[:,0] + grain.extreme_coords[0]
+            ymap = np.array(y).T[:, None] + coordinateOffsets[:,1] + grain.extreme_coords[1]
 
-            x_list.extend(xmap - self.selected_dic_grain.extreme_coords[0])
-            y_list.extend(ymap - self.selected_dic_grain.extreme_coords[1])
+            x_list.extend(xmap - grain.extreme_coords[0])
+            y_list.extend(ymap - grain.extreme_coords[1])
 
             # Get u and v values at each coordinate
             u = self.selected_dic_map.data.displacement[0][ymap, xmap]
@@ -481,8 +481,8 @@ class GrainInspector:
         self.rdr_plot.plot_axis = self.rdr_plot.add_axes((0.05, 0.1, 0.3, 0.35))
 
         # Draw grain plot
-        self.rdr_plot.grainPlot = self.selected_dic_grain.plot_grain_data(
-            grain_data=self.selected_dic_grain.data.max_shear,
+        self.rdr_plot.grainPlot = grain.plot_grain_data(
+            grain_data=grain.data.max_shear,
             fig=self.rdr_plot.fig,
             ax=self.rdr_plot.grain_axis,
             plot_colour_bar=False,
@@ -513,14 +513,15 @@ class GrainInspector:
                                va='bottom', ha='right',
                                transform=self.rdr_plot.plot_axis.transAxes, fontsize=10, fontfamily='monospace');
 
-        self.selected_ebsd_grain.calc_slip_traces()
-        self.selected_ebsd_grain.calc_rdr()
+        ebsd_grain = grain.ebsd_grain
+        ebsd_grain.calc_slip_traces()
+        ebsd_grain.calc_rdr()
 
-        if self.selected_ebsd_grain.average_schmid_factors is None:
+        if ebsd_grain.average_schmid_factors is None:
             raise Exception("Run 'calc_average_grain_schmid_factors' first")
 
         # Write grain info
-        eulers = np.rad2deg(self.selected_ebsd_grain.ref_ori.euler_angles())
+        eulers = np.rad2deg(ebsd_grain.ref_ori.euler_angles())
         text = 'Average angle: {0:.2f}\n'.format(grain.groups_list[group][1])
         text += 'Eulers: {0:.1f}    {1:.1f}    {2:.1f}\n\n'.format(eulers[0], eulers[1], eulers[2])
 
@@ -530,17 +531,17 @@ class GrainInspector:
         offset = 0
 
         # Loop over groups of slip systems with same slip plane
-        for i, slip_system_group in enumerate(self.selected_ebsd_grain.phase.slip_systems):
-            slip_trace_angle = np.rad2deg(self.selected_ebsd_grain.slip_trace_angles[i])
+        for i, slip_system_group in enumerate(ebsd_grain.phase.slip_systems):
+            slip_trace_angle = np.rad2deg(ebsd_grain.slip_trace_angles[i])
             text = "Plane: {0:s}    Angle: {1:.1f}\n".format(slip_system_group[0].slip_plane_label,
                                                              slip_trace_angle)
 
             # Then loop over individual slip systems
             for j, slip_system in enumerate(slip_system_group):
-                schmid_factor = self.selected_ebsd_grain.average_schmid_factors[i][j]
+                schmid_factor = ebsd_grain.average_schmid_factors[i][j]
 
                 text = text + "          {0:s}    SF: {1:.3f}    RDR: {2:.3f}\n".format(
-                    slip_system.slip_dir_label, schmid_factor, self.selected_ebsd_grain.rdr[i][j])
+                    slip_system.slip_dir_label, schmid_factor, ebsd_grain.rdr[i][j])
 
             if i in grain.groups_list[group][2]:
                 self.rdr_plot.add_text(self.rdr_plot.text_axis, 0.15, 0.9 - offset, text, va='top',
@@ -552,7 +553,7 @@ class GrainInspector:
             offset += 0.0275 * text.count('\n')
 
         # Finf all unique rdr values
-        unique_rdrs = set([item for sublist in self.selected_ebsd_grain.rdr for item in sublist])
+        unique_rdrs = set([item for sublist in ebsd_grain.rdr for item in sublist])
 
         # Plot number line
         self.rdr_plot.number_line_axis.axvline(x=0, ymin=-20, ymax=20, c='k')
@@ -578,10 +579,10 @@ class GrainInspector:
 
                 # Go through all planes and directions and add to string if they have the rdr from above loop
                 txt = ''
-                for i, slip_system_group in enumerate(self.selected_ebsd_grain.phase.slip_systems):
+                for i, slip_system_group in enumerate(ebsd_grain.phase.slip_systems):
                     # Then loop over individual slip systems
                     for j, slip_system in enumerate(slip_system_group):
-                        rdr = self.selected_ebsd_grain.rdr[i][j]
+                        rdr = ebsd_grain.rdr[i][j]
                         if rdr == unique_rdr:
                             txt += str('{0} {1}  '.format(slip_system.slip_plane_label, slip_system.slip_dir_label))
 
-- 
2.43.0


From 0fc9c1936c2885c48b6240f8753a9c1c90837fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:20 +0000
Subject: [PATCH 61/61] fix: forget the drawn arrow when a plot is cleared

---
 defdap/plotting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index ef72c68..5fbb97b 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -304,6 +304,7 @@ class Plot(object):
             self.colour_bar.remove()
             self.colour_bar = None
         self.ax.clear()
+        self.arrow = None
         self.set_empty_state()
         self.draw()
 
-- 
2.43.0

