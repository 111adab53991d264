From 7ff711054a726f51953beacc3231ead5a0f88bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 01/49] fix: keep the padded views of Pointclouds in step with
 their lists

Setting normals_list/colors_list/features_list left the old padded view in
place (a misspelt attribute was cleared), and rebuilding the padded points
dropped every attribute that only had a padded representation.
---
 gradslam/structures/pointclouds.py | 47 +++++++++++++-----------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 0dc49cd..9553540 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -847,7 +847,7 @@ class Pointclouds(object):
         """
         self._assert_set_list(value)
         self._normals_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._normals_padded = None
 
     @colors_list.setter
     def colors_list(self, value: List[torch.Tensor]):
@@ -861,7 +861,7 @@ class Pointclouds(object):
         """
         self._assert_set_list(value)
         self._colors_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._colors_padded = None
 
     @features_list.setter
     def features_list(self, value: List[torch.Tensor]):
@@ -875,7 +875,7 @@ class Pointclouds(object):
         """
         self._assert_set_list(value, first_dim_only=True)
         self._features_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._features_padded = None
 
     @points_padded.setter
     def points_padded(self, value: torch.Tensor):
@@ -954,45 +954,38 @@ class Pointclouds(object):
         if not self.has_points:
             return
 
-        if not (refresh or self._points_padded is None):
-            return
-
-        self._points_padded = structutils.list_to_padded(
-            self._points_list,
-            (self._N, 3),
-            pad_value=0.0,
-            equisized=self.equisized,
-        )
-        self._normals_padded = (
-            None
-            if self._normals_list is None
-            else structutils.list_to_padded(
+        # each representation is rebuilt on its own, and only from a list that exists: attributes which only have a
+        # padded representation must keep it
+        if self._points_list is not None and (refresh or self._points_padded is None):
+            self._points_padded = structutils.list_to_padded(
+                self._points_list,
+                (self._N, 3),
+                pad_value=0.0,
+                equisized=self.equisized,
+            )
+        if self._normals_list is not None and (refresh or self._normals_padded is None):
+            self._normals_padded = structutils.list_to_padded(
                 self._normals_list,
                 (self._N, 3),
                 pad_value=0.0,
                 equisized=self.equisized,
             )
-        )
-        self._colors_padded = (
-            None
-            if self._colors_list is None
-            else structutils.list_to_padded(
+        if self._colors_list is not None and (refresh or self._colors_padded is None):
+            self._colors_padded = structutils.list_to_padded(
                 self._colors_list,
                 (self._N, 3),
                 pad_value=0.0,
                 equisized=self.equisized,
             )
-        )
-        self._features_padded = (
-            None
-            if self._features_list is None
-            else structutils.list_to_padded(
+        if self._features_list is not None and (
+            refresh or self._features_padded is None
+        ):
+            self._features_padded = structutils.list_to_padded(
                 self._features_list,
                 (self._N, self.num_features),
                 pad_value=0.0,
                 equisized=self.equisized,
             )
-        )
 
     def clone(self):
         r"""Returns deep copy of Pointclouds object. All internal tensors are cloned individually.
-- 
2.43.0


From 894441145acf0c7907e4e9d28210cd16c712d4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 02/49] fix: cloning a ragged Pointclouds batch keeps its
 padding mask

A batch held only in its padded representation was cloned as if every
pointcloud had the maximum number of points, so nonpad_mask of the clone
marked the padding as points.
---
 gradslam/structures/pointclouds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 9553540..8538684 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1030,6 +1030,8 @@ class Pointclouds(object):
             colors=new_colors,
             features=new_features,
         )
+        # a padded representation alone does not tell how many points each pointcloud has
+        other.equisized = self.equisized
         for k in self._INTERNAL_TENSORS:
             v = getattr(self, k)
             if torch.is_tensor(v):
-- 
2.43.0


From 8f056c176af7f412b9385178b3a39820b659b000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 03/49] fix: has_normals/has_colors/has_features notice
 attributes set later

The answers are cached, so once asked they stayed False after the attribute
had been set, and the attribute was then ignored by indexing and appending.
---
 gradslam/structures/pointclouds.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 8538684..2514d1f 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -848,6 +848,7 @@ class Pointclouds(object):
         self._assert_set_list(value)
         self._normals_list = [v.clone().to(self.device) for v in value]
         self._normals_padded = None
+        self._has_normals = True
 
     @colors_list.setter
     def colors_list(self, value: List[torch.Tensor]):
@@ -862,6 +863,7 @@ class Pointclouds(object):
         self._assert_set_list(value)
         self._colors_list = [v.clone().to(self.device) for v in value]
         self._colors_padded = None
+        self._has_colors = True
 
     @features_list.setter
     def features_list(self, value: List[torch.Tensor]):
@@ -876,6 +878,7 @@ class Pointclouds(object):
         self._assert_set_list(value, first_dim_only=True)
         self._features_list = [v.clone().to(self.device) for v in value]
         self._features_padded = None
+        self._has_features = True
 
     @points_padded.setter
     def points_padded(self, value: torch.Tensor):
@@ -910,6 +913,7 @@ class Pointclouds(object):
         self._assert_set_padded(value)
         self._normals_padded = value.clone().to(self.device)
         self._normals_list = None
+        self._has_normals = True
 
     @colors_padded.setter
     def colors_padded(self, value: torch.Tensor):
@@ -927,6 +931,7 @@ class Pointclouds(object):
         self._assert_set_padded(value)
         self._colors_padded = value.clone().to(self.device)
         self._colors_list = None
+        self._has_colors = True
 
     @features_padded.setter
     def features_padded(self, value: torch.Tensor):
@@ -944,6 +949,7 @@ class Pointclouds(object):
         self._assert_set_padded(value, first_2_dims_only=True)
         self._features_padded = value.clone().to(self.device)
         self._features_list = None
+        self._has_features = True
 
     def _compute_padded(self, refresh: bool = False):
         r"""Computes the padded version of pointclouds.
-- 
2.43.0


From dbb69d825d904b02b4eeaee54a2e21f8efa4e7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 04/49] fix: Pointclouds.detach returns tensors of the copy it
 makes

The padded tensors of the result were views of the original's, so writing to
one changed the other, unlike the tensors of the list representation.
---
 gradslam/structures/pointclouds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 2514d1f..612d909 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1060,7 +1060,7 @@ class Pointclouds(object):
         if other._features_list is not None:
             other._features_list = [f.detach() for f in other._features_list]
         for k in self._INTERNAL_TENSORS:
-            v = getattr(self, k)
+            v = getattr(other, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.detach())
         return other
-- 
2.43.0


From 5d36375642dc9f10df7bdcc3dbf9a76bb6a251a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 05/49] fix: Pointclouds.to recognises its own device given by
 name

to("cpu") on a cpu batch returned neither self, as documented, nor a copy: the
list tensors were cloned and the padded tensors shared.
---
 gradslam/structures/pointclouds.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 612d909..674b57d 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1078,13 +1078,14 @@ class Pointclouds(object):
         Returns:
             gradslam.Pointclouds
         """
+        # hack to know which gpu is used when device("cuda")
+        device = torch.Tensor().to(device).device
         if not copy and self.device == device:
             return self
 
         other = self.clone()
         if self.device != device:
-            # hack to know which gpu is used when device("cuda")
-            other.device = torch.Tensor().to(device).device
+            other.device = device
             if other._points_list is not None:
                 other._points_list = [p.to(device) for p in other._points_list]
             if other._normals_list is not None:
@@ -1094,7 +1095,7 @@ class Pointclouds(object):
             if other._features_list is not None:
                 other._features_list = [f.to(device) for f in other._features_list]
             for k in self._INTERNAL_TENSORS:
-                v = getattr(self, k)
+                v = getattr(other, k)
                 if torch.is_tensor(v):
                     setattr(other, k, v.to(device))
         return other
-- 
2.43.0


From 25147fa175b33f9cdab2a66732b2b79dd5ca6469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 06/49] fix: RGBDImages.depth_image can be set, and refreshes
 valid_depth_mask

The setter compared with a shape that only existed after a layout conversion,
so it raised AttributeError, and it kept the mask of the previous depth.
---
 gradslam/structures/rgbdimages.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 4ab0011..3c4d44f 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -118,7 +118,7 @@ class RGBDImages(object):
             raise ValueError(msg)
 
         self._rgb_image_shape = rgb_image.shape
-        self._depth_shape = tuple(
+        self._depth_image_shape = tuple(
             v if i != self.cdim else 1 for i, v in enumerate(rgb_image.shape)
         )
         self._intrinsics_shape = (rgb_image.shape[0], 1, 4, 4)
@@ -133,9 +133,9 @@ class RGBDImages(object):
         if rgb_image.shape[self.cdim] != 3:
             msg = "Expected rgb_image to have 3 channels on dimension {0}. Got {1} instead"
             raise ValueError(msg.format(self.cdim, rgb_image.shape[self.cdim]))
-        if depth_image.shape != self._depth_shape:
+        if depth_image.shape != self._depth_image_shape:
             msg = "Expected depth_image to have shape {0}. Got {1} instead"
-            raise ValueError(msg.format(self._depth_shape, depth_image.shape))
+            raise ValueError(msg.format(self._depth_image_shape, depth_image.shape))
         if intrinsics.shape != self._intrinsics_shape:
             msg = "Expected intrinsics to have shape {0}. Got {1} instead"
             raise ValueError(msg.format(self._intrinsics_shape, intrinsics.shape))
@@ -423,6 +423,7 @@ class RGBDImages(object):
         if value is not None:
             self._assert_shape(value, self._depth_image_shape)
         self._depth_image = value
+        self._valid_depth_mask = None
         self._vertex_map = None
         self._normal_map = None
         self._global_vertex_map = None
-- 
2.43.0


From d3e13778151d84742db6b94eb7c615e6a62509e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 07/49] fix: layout conversion of RGBDImages converts the
 cached valid_depth_mask

Once read, the mask kept its old layout, and maps computed after the
conversion were masked with the wrong shape.
---
 gradslam/structures/rgbdimages.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 3c4d44f..d077d60 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -585,6 +585,7 @@ class RGBDImages(object):
         permute = RGBDImages._permute_if_not_None
         self._rgb_image = permute(self._rgb_image, ordering)
         self._depth_image = permute(self._depth_image, ordering)
+        self._valid_depth_mask = permute(self._valid_depth_mask, ordering)
         self._vertex_map = permute(self._vertex_map, ordering)
         self._global_vertex_map = permute(self._global_vertex_map, ordering)
         self._normal_map = permute(self._normal_map, ordering)
@@ -607,6 +608,7 @@ class RGBDImages(object):
         permute = RGBDImages._permute_if_not_None
         self._rgb_image = permute(self._rgb_image, ordering)
         self._depth_image = permute(self._depth_image, ordering)
+        self._valid_depth_mask = permute(self._valid_depth_mask, ordering)
         self._vertex_map = permute(self._vertex_map, ordering)
         self._global_vertex_map = permute(self._global_vertex_map, ordering)
         self._normal_map = permute(self._normal_map, ordering)
-- 
2.43.0


From 8b049032cd7bf156bf721e3a201eac2615e47d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 08/49] fix: RGBDImages.detach and to(copy=True) return the
 copy they make

Both cloned every tensor and then replaced the clones by the originals, so
the "copy" shared all its tensors with the object it was made from.
---
 gradslam/structures/rgbdimages.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index d077d60..303445a 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -471,7 +471,7 @@ class RGBDImages(object):
         """
         other = self.clone()
         for k in self._INTERNAL_TENSORS:
-            v = getattr(self, k)
+            v = getattr(other, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.detach())
 
@@ -519,7 +519,7 @@ class RGBDImages(object):
         other.device = device
 
         for k in self._INTERNAL_TENSORS:
-            v = getattr(self, k)
+            v = getattr(other, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.to(device))
 
-- 
2.43.0


From 15826a7f34ff8b6f6efc75119317844a43d6142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 09/49] fix: RGBDImages can be indexed with -1

The last batch item or frame was rejected as out of range, while -2, -3, ...
worked.
---
 gradslam/structures/rgbdimages.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 303445a..24d0fe3 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -194,13 +194,15 @@ class RGBDImages(object):
         if isinstance(index, tuple) or isinstance(index, int):
             _index_slices = ()
             if isinstance(index, int):
-                _index_slices += (slice(index, index + 1),) + (slice(None, None),)
+                _index_slices += (slice(index, index + 1 or None),) + (
+                    slice(None, None),
+                )
             elif len(index) > 2:
                 raise IndexError("Only batch and sequences can be indexed")
             elif isinstance(index, tuple):
                 for x in index:
                     if isinstance(x, int):
-                        _index_slices += (slice(x, x + 1),)
+                        _index_slices += (slice(x, x + 1 or None),)
                     else:
                         _index_slices += (x,)
 
-- 
2.43.0


From f38b6e0a600d01e54ce88b15d0b9534a1e3dd6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 10/49] fix: RGBDImages accepts every kind of index it
 documents

Slices, lists of ints and boolean tensors were rejected unless written as part
of a tuple.
---
 gradslam/structures/rgbdimages.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 24d0fe3..03f3896 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -191,6 +191,8 @@ class RGBDImages(object):
         Returns:
             gradslam.RGBDImages: Selected rgbdimages. The rgbdimages tensors are not cloned.
         """
+        if isinstance(index, (slice, list, torch.Tensor)):
+            index = (index, slice(None, None))
         if isinstance(index, tuple) or isinstance(index, int):
             _index_slices = ()
             if isinstance(index, int):
-- 
2.43.0


From 5f9c31d43ec90b5997ff567a69d5e57d9f260d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 11/49] fix: vertex maps of RGBDImages that are not single
 precision

---
 gradslam/structures/rgbdimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 03f3896..a7db118 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -656,7 +656,7 @@ class RGBDImages(object):
                 create_meshgrid(self.h, self.w, normalized_coords=False)
                 .view(1, 1, self.h, self.w, 2)
                 .repeat(B, L, 1, 1, 1)
-                .to(device)
+                .to(device=device, dtype=self._intrinsics.dtype)
             )
             self._pixel_pos = torch.cat(
                 [
-- 
2.43.0


From 0c6367660af3277520a602e9acb1b3ee520af236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 12/49] fix: map fusion handles frames with channels first

---
 gradslam/slam/fusionutils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index b5d89a2..9b349e3 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -378,6 +378,8 @@ def find_similar_map_points(
             "Pointclouds must have normals for finding similar map points, but did not."
         )
 
+    # images are indexed as (batch, sequence, height, width)
+    rgbdimages = rgbdimages.to_channels_last()
     vertex_maps = rgbdimages.global_vertex_map
     normal_maps = rgbdimages.global_normal_map
 
@@ -492,7 +494,7 @@ def find_best_unique_correspondences(
         pointclouds.features_padded[pc2im_bnhw[:, 0], pc2im_bnhw[:, 1]] + 1e-20
     )  # shape: [P 1]
     # compute ray dist
-    frame_points = rgbdimages.global_vertex_map[
+    frame_points = rgbdimages.to_channels_last().global_vertex_map[
         pc2im_bnhw[:, 0], 0, pc2im_bnhw[:, 2], pc2im_bnhw[:, 3]
     ]
     ray_dists = (
@@ -650,6 +652,9 @@ def fuse_with_map(
                 "Pointclouds must have features (ccounts) for map fusion, but did not."
             )
 
+    # images are indexed as (batch, sequence, height, width)
+    rgbdimages = rgbdimages.to_channels_last()
+
     # Fuse points (from live frame) with corresponding global map points
     vertex_maps = rgbdimages.global_vertex_map
     normal_maps = rgbdimages.global_normal_map
-- 
2.43.0


From 12dfac6d693817fbac00cf9ddcd0fd387b101cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 13/49] fix: correspondence search keeps point indices exact
 beyond 2^24 points

---
 gradslam/slam/fusionutils.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index 9b349e3..2b1fcce 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -4,7 +4,6 @@ from typing import Union
 import torch
 from kornia.geometry.linalg import inverse_transformation
 
-from ..geometry.geometryutils import create_meshgrid
 from ..structures.pointclouds import Pointclouds
 from ..structures.rgbdimages import RGBDImages
 from ..structures.utils import pointclouds_from_rgbdimages
@@ -273,12 +272,15 @@ def find_active_map_points(
         -1,
     )  # height, width
     batch_size, num_points = in_plane_pos.shape[:2]
-    batch_point_idx = (
-        create_meshgrid(batch_size, num_points, normalized_coords=False)
-        .squeeze(0)
-        .to(device)
+    # integer indices: float32 can not represent every index of maps with more than 2^24 points
+    batch_point_idx = torch.stack(
+        [
+            torch.arange(batch_size, device=device).view(-1, 1).repeat(1, num_points),
+            torch.arange(num_points, device=device).view(1, -1).repeat(batch_size, 1),
+        ],
+        -1,
     )
-    idx_and_plane_pos = torch.cat([batch_point_idx.long(), in_plane_pos], -1)
+    idx_and_plane_pos = torch.cat([batch_point_idx, in_plane_pos], -1)
     pc2im_bnhw = idx_and_plane_pos[is_in_frame]  # (?, 4)
 
     if pc2im_bnhw.shape[0] == 0:
@@ -510,11 +512,11 @@ def find_best_unique_correspondences(
     )
     # unique criteria: [B, H, W, 1/ccounts, ray_dists, N]
     unique_criteria_bhwcrn = [
-        pc2im_bnhw[:, 0:1].float(),
-        pc2im_bnhw[:, 2:4].float(),
-        inv_ccounts,
-        ray_dists,
-        pc2im_bnhw[:, 1:2].float(),
+        pc2im_bnhw[:, 0:1].double(),
+        pc2im_bnhw[:, 2:4].double(),
+        inv_ccounts.double(),
+        ray_dists.double(),
+        pc2im_bnhw[:, 1:2].double(),
     ]
     unique_criteria_bhwcrn = torch.cat(unique_criteria_bhwcrn, -1)
 
-- 
2.43.0


From 40ee79beba3537485d792cb94a9c4bf1b6cca2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 14/49] fix: out-of-place map fusion leaves the map passed in
 unchanged

---
 gradslam/slam/fusionutils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index 2b1fcce..dc4d3be 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -654,6 +654,9 @@ def fuse_with_map(
                 "Pointclouds must have features (ccounts) for map fusion, but did not."
             )
 
+    if not inplace:
+        pointclouds = pointclouds.clone()
+
     # images are indexed as (batch, sequence, height, width)
     rgbdimages = rgbdimages.to_channels_last()
 
@@ -722,8 +725,6 @@ def fuse_with_map(
     new_pointclouds = Pointclouds(
         points=new_points, normals=new_normals, colors=new_colors, features=new_features
     )
-    if not inplace:
-        pointclouds = pointclouds.clone()
     pointclouds.append_points(new_pointclouds)
 
     return pointclouds
-- 
2.43.0


From 4f6a0ee2b959baaea290e4d206a154b40144c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 15/49] fix: frame downsampling handles frames with channels
 first

---
 gradslam/odometry/icputils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index b7ecc42..5a312c4 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -650,6 +650,9 @@ def downsample_rgbdimages(rgbdimages: RGBDImages, ds_ratio: int) -> Pointclouds:
 
     B = len(rgbdimages)
 
+    # images are indexed as (batch, sequence, height, width, channel)
+    rgbdimages = rgbdimages.to_channels_last()
+
     # Valid depths mask
     mask = rgbdimages.valid_depth_mask.squeeze(-1)[..., ::ds_ratio, ::ds_ratio]
 
-- 
2.43.0


From b357541690b09201d816e99f9d672f87b9a37e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 16/49] fix: ICP without an initial transform starts at the
 identity

---
 gradslam/odometry/icputils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index 5a312c4..781c4e2 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -295,13 +295,15 @@ def point_to_plane_ICP(
         raise TypeError(
             "Expected numiters to be of type int. Got {0}.".format(type(numiters))
         )
-    if initial_transform.ndim != 2:
+    if initial_transform is not None and initial_transform.ndim != 2:
         raise ValueError(
             "Expected initial_transform.ndim to be 2. Got {0}.".format(
                 initial_transform.ndim
             )
         )
-    if not (initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4):
+    if initial_transform is not None and not (
+        initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4
+    ):
         raise ValueError(
             "Expected initial_transform.shape to be (4, 4). Got {0}.".format(
                 initial_transform.shape
@@ -464,13 +466,15 @@ def point_to_plane_gradICP(
         raise TypeError(
             "Expected nu to be of type float or int; got {0}".format(type(nu))
         )
-    if initial_transform.ndim != 2:
+    if initial_transform is not None and initial_transform.ndim != 2:
         raise ValueError(
             "Expected initial_transform.ndim to be 2. Got {0}.".format(
                 initial_transform.ndim
             )
         )
-    if not (initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4):
+    if initial_transform is not None and not (
+        initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4
+    ):
         raise ValueError(
             "Expected initial_transform.shape to be (4, 4). Got {0}.".format(
                 initial_transform.shape
-- 
2.43.0


From 93072eed3e45152873c5401fdd22b5bcc842b182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 17/49] fix: ICP compares distances, not their squares, with
 dist_thresh

---
 gradslam/odometry/icputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index 781c4e2..c3b568b 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -203,7 +203,7 @@ def gauss_newton_solve(
     dist_filter = (
         torch.ones_like(dist1[0], dtype=torch.bool)
         if dist_thresh is None
-        else dist1[0] < dist_thresh
+        else dist1[0].sqrt() < dist_thresh  # dists are squared
     )
     chamfer_indices = idx1[0][dist_filter].long()
 
-- 
2.43.0


From 6393032f0b0fcec08b1b7a7b992fdfc8b6a210c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 18/49] fix: SLAM runs keep the precision of their input poses

---
 gradslam/slam/icpslam.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gradslam/slam/icpslam.py b/gradslam/slam/icpslam.py
index ea337f7..54456d4 100644
--- a/gradslam/slam/icpslam.py
+++ b/gradslam/slam/icpslam.py
@@ -120,7 +120,9 @@ class ICPSLAM(nn.Module):
             )
         pointclouds = Pointclouds(device=self.device)
         batch_size, seq_len = frames.shape[:2]
-        recovered_poses = torch.empty(batch_size, seq_len, 4, 4).to(self.device)
+        recovered_poses = torch.empty(
+            batch_size, seq_len, 4, 4, dtype=frames.rgb_image.dtype, device=self.device
+        )
         prev_frame = None
         for s in range(seq_len):
             live_frame = frames[:, s].to(self.device)
-- 
2.43.0


From 14f7cb90c2d45c3a61f62694849672a7c78ab85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 19/49] fix: out-of-place SLAM steps leave the live frame's
 poses unchanged

---
 gradslam/slam/icpslam.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/slam/icpslam.py b/gradslam/slam/icpslam.py
index 54456d4..b30a9fc 100644
--- a/gradslam/slam/icpslam.py
+++ b/gradslam/slam/icpslam.py
@@ -175,6 +175,8 @@ class ICPSLAM(nn.Module):
                     type(live_frame)
                 )
             )
+        if not inplace:
+            live_frame = live_frame.clone()
         live_frame.poses = self._localize(pointclouds, live_frame, prev_frame)
         pointclouds = self._map(pointclouds, live_frame, inplace)
         return pointclouds, live_frame.poses
-- 
2.43.0


From bff08405da2ea10501910528fb2334008ae4ef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 20/49] fix: invert and compose batches of 3D transforms

---
 gradslam/geometry/geometryutils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index f594540..55cd02d 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -219,7 +219,7 @@ def inverse_transfom_3d(trans: torch.Tensor):
                 type(trans)
             )
         )
-    if not trans.dim() in (2, 3) and trans.shape[-2, :] == (4, 4):
+    if trans.dim() not in (2, 3) or trans.shape[-2:] != (4, 4):
         raise ValueError(
             "Input size must be N x 4 x 4 or 4 x 4. Got {} instead.".format(trans.shape)
         )
@@ -230,7 +230,7 @@ def inverse_transfom_3d(trans: torch.Tensor):
 
     # Compute the inverse
     rmat_inv: torch.Tensor = torch.transpose(rmat, -1, -2)
-    tvec_inv: torch.Tensor = torch.matmul(-rmat_inv, tvec)
+    tvec_inv: torch.Tensor = torch.matmul(-rmat_inv, tvec.unsqueeze(-1)).squeeze(-1)
 
     # Pack the inverse rotation and translation into tensor
     trans_inv: torch.Tensor = torch.zeros_like(trans)
@@ -260,7 +260,7 @@ def compose_transforms_3d(trans1: torch.Tensor, trans2: torch.Tensor) -> torch.T
                 type(trans1)
             )
         )
-    if not trans1.dim() in (2, 3) and trans1.shape[-2, :] == (4, 4):
+    if trans1.dim() not in (2, 3) or trans1.shape[-2:] != (4, 4):
         raise ValueError(
             "Input size must be N x 4 x 4 or 4 x 4. Got {} instead.".format(
                 trans1.shape
@@ -272,7 +272,7 @@ def compose_transforms_3d(trans1: torch.Tensor, trans2: torch.Tensor) -> torch.T
                 type(trans2)
             )
         )
-    if not trans2.dim() in (2, 3) and trans2.shape[-2, :] == (4, 4):
+    if trans2.dim() not in (2, 3) or trans2.shape[-2:] != (4, 4):
         raise ValueError(
             "Input size must be N x 4 x 4 or 4 x 4. Got {} instead.".format(
                 trans2.shape
@@ -290,7 +290,9 @@ def compose_transforms_3d(trans1: torch.Tensor, trans2: torch.Tensor) -> torch.T
 
     # Compute the composition
     rmat_cat: torch.Tensor = torch.matmul(rmat1, rmat2)
-    tvec_cat: torch.Tensor = torch.matmul(rmat1, tvec2) + tvec1
+    tvec_cat: torch.Tensor = (
+        torch.matmul(rmat1, tvec2.unsqueeze(-1)).squeeze(-1) + tvec1
+    )
 
     # Pack into output tensor
     trans_cat: torch.Tensor = torch.zeros_like(trans1)
-- 
2.43.0


From c3c18a6c309e1947f43ba0e0d6cf1255ebe9a177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 21/49] fix: transform_pts_3d handles the N x 3 points it
 documents

---
 gradslam/geometry/geometryutils.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 55cd02d..5196e19 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -349,12 +349,7 @@ def transform_pts_3d(pts_b: torch.Tensor, t_ab: torch.Tensor) -> torch.Tensor:
 
     # Apply the transformation
 
-    if pts_b.dim() == 4:
-        pts_a_homo = torch.matmul(
-            t_ab.unsqueeze(0).unsqueeze(0), pts_b.unsqueeze(-1)
-        ).squeeze(-1)
-    else:
-        pts_a_homo = torch.matmul(t_ab.unsqueeze(0), pts_b.unsqueeze(-1))
+    pts_a_homo = torch.matmul(t_ab, pts_b.unsqueeze(-1)).squeeze(-1)
     pts_a = unhomogenize_points(pts_a_homo)
 
     return pts_a[..., :3]
-- 
2.43.0


From 6de2b1c379f2d4af4ac55177b7ffb982051f7366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 22/49] fix: quaternion_to_rotation_matrix keeps the leading
 dimensions

---
 gradslam/geometry/geometryutils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 5196e19..c68f3b2 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -195,10 +195,8 @@ def quaternion_to_rotation_matrix(quaternion: torch.Tensor) -> torch.Tensor:
             one - (txx + tyy),
         ],
         dim=-1,
-    ).view(-1, 3, 3)
+    ).view(*quaternion.shape[:-1], 3, 3)
 
-    if len(quaternion.shape) == 1:
-        matrix = torch.squeeze(matrix, dim=0)
     return matrix
 
 
-- 
2.43.0


From f4b788cd323df5744883b5dc8ecbfa404c02e605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 23/49] fix: first-order translation of se3_exp at small
 rotations

---
 gradslam/geometry/se3utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/geometry/se3utils.py b/gradslam/geometry/se3utils.py
index e2fd57e..9794545 100644
--- a/gradslam/geometry/se3utils.py
+++ b/gradslam/geometry/se3utils.py
@@ -88,7 +88,7 @@ def se3_exp(xi: torch.Tensor) -> torch.Tensor:
 
     if omega.norm() < _eps:
         R = torch.eye(3, 3).type(omega.dtype).to(omega.device) + omega_hat
-        V = torch.eye(3, 3).type(omega.dtype).to(omega.device) + omega_hat
+        V = torch.eye(3, 3).type(omega.dtype).to(omega.device) + 0.5 * omega_hat
     else:
         theta = omega.norm()
         s = theta.sin()
-- 
2.43.0


From 97354bf771a3ed0f140f7c3f86f3fa9d2cdc3dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 24/49] fix: cam2pixel and pixel2cam handle images without a
 batch dimension

---
 gradslam/geometry/geometryutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index c68f3b2..d7164c4 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -636,7 +636,6 @@ def cam2pixel(
         and dst_proj_src.shape[0] == 4
     )
 
-    _, h, w, _ = cam_coords_src.shape
     pts: torch.Tensor = transform_pts_3d(cam_coords_src, dst_proj_src)
     x: torch.Tensor = pts[..., 0]
     y: torch.Tensor = pts[..., 1]
@@ -692,6 +691,8 @@ def pixel2cam(
         pixel_coords, intrinsics_inv
     )  # .permute(0, 3, 1, 2)
 
+    if depth.dim() == 2:
+        return cam_coords * depth.unsqueeze(-1)
     return cam_coords * depth.permute(0, 2, 3, 1)
 
 
-- 
2.43.0


From ac409f38243487db8ac8261c917619bcf541a515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 25/49] fix: pointquaternion_to_homogeneous leaves its input
 unchanged

---
 gradslam/datasets/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/datautils.py b/gradslam/datasets/datautils.py
index 5e2f3f2..9e3e348 100644
--- a/gradslam/datasets/datautils.py
+++ b/gradslam/datasets/datautils.py
@@ -177,7 +177,7 @@ def pointquaternion_to_homogeneous(
         )
 
     q_norm = (0.5 * (q ** 2).sum(-1)[..., None]) ** 0.5
-    q /= (
+    q = q / (
         torch.max(q_norm, torch.tensor(eps))
         if torch.is_tensor(q_norm)
         else np.maximum(q_norm, eps)
-- 
2.43.0


From 353cbc3f3d439e20da100cf70e810d57dfc81e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 26/49] fix: create_label_image paints with the colors of the
 palette

---
 gradslam/datasets/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/datautils.py b/gradslam/datasets/datautils.py
index 9e3e348..6caac5c 100644
--- a/gradslam/datasets/datautils.py
+++ b/gradslam/datasets/datautils.py
@@ -258,6 +258,6 @@ def create_label_image(prediction: np.ndarray, color_palette: OrderedDict):
     label_image = np.zeros(
         (prediction.shape[0], prediction.shape[1], 3), dtype=np.uint8
     )
-    for idx, color in enumerate(color_palette):
+    for idx, color in enumerate(color_palette.values()):
         label_image[prediction == idx] = color
     return label_image
-- 
2.43.0


From 487406e5b12c8f2bb7f2f72cbf56e02681409793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 27/49] fix: transform44 of a vanishing quaternion

---
 gradslam/datasets/tumutils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index 156068e..f4d2de8 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -73,9 +73,10 @@ def transform44(l: tuple):
     if nq < _EPS:
         return np.array(
             (
-                (1.0, 0.0, 0.0, t[0])(0.0, 1.0, 0.0, t[1])(0.0, 0.0, 1.0, t[2])(
-                    0.0, 0.0, 0.0, 1.0
-                )
+                (1.0, 0.0, 0.0, t[0]),
+                (0.0, 1.0, 0.0, t[1]),
+                (0.0, 0.0, 1.0, t[2]),
+                (0.0, 0.0, 0.0, 1.0),
             ),
             dtype=np.float64,
         )
-- 
2.43.0


From 6e423437de8b93b171c72a8389765e47c11d42d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 28/49] fix: read_trajectory skips poses with NaNs

---
 gradslam/datasets/tumutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index f4d2de8..d4bc5ab 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -43,10 +43,11 @@ images to depth images.
 This script contains helpers for reading the time stamps from e.g. the "rgb.txt" file and the "depth.txt" file, 
 and joining them by finding the best matches.
 """
+import sys
+import warnings
 from typing import Optional
 
 import numpy as np
-import warnings
 
 __all__ = ["read_trajectory", "read_file_list", "associate"]
 
-- 
2.43.0


From eddf76fb83d750bebd416f77981d0cde44a7a49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 29/49] fix: whitespace around the lines of TUM text files

---
 gradslam/datasets/tumutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index d4bc5ab..7fac595 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -114,6 +114,7 @@ def read_trajectory(filename: str, matrix: bool = True):
     lines = data.replace(",", " ").replace("\t", " ").split("\n")
     list = []
     for line in lines:
+        line = line.strip()
         line_list = []
         if len(line) > 0 and line[0] != "#":
             for n, v in enumerate(line.split(" ")):
@@ -169,7 +170,7 @@ def read_file_list(
     list = [
         [v.strip() for v in line.split(" ") if v.strip() != ""]
         for num, line in enumerate(lines)
-        if len(line) > 0 and line[0] != "#"
+        if len(line.strip()) > 0 and line.strip()[0] != "#"
     ]
     start = start if start is not None else 0
     end = end if end is not None else len(lines)
-- 
2.43.0


From 5c64fdf669e7a768f6e0f81c8cfec05e402f39a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 30/49] fix: associated timestamps are ordered by time

---
 gradslam/datasets/tumutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index 7fac595..5479651 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -215,5 +215,5 @@ def associate(
             second_keys.remove(b)
             matches.append((a, b))
 
-    matches.sort()
+    matches.sort(key=lambda match: [float(stamp) for stamp in match])
     return matches
-- 
2.43.0


From 0f79a85e2ec75abb3c1f13c5cf2f9bb15388bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 31/49] fix: deprecated and renamed keys are recognised
 wherever merges meet them

---
 gradslam/config/cfgnode.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gradslam/config/cfgnode.py b/gradslam/config/cfgnode.py
index 661eda1..6fe9437 100644
--- a/gradslam/config/cfgnode.py
+++ b/gradslam/config/cfgnode.py
@@ -437,6 +437,10 @@ def _merge_a_into_b(a: CfgNode, b: CfgNode, root: CfgNode, key_list: list):
 
     for k, v_ in a.items():
         full_key = ".".join(key_list + [k])
+        if root.key_is_deprecated(full_key):
+            continue
+        if root.key_is_renamed(full_key):
+            root.raise_key_rename_error(full_key)
         v = copy.deepcopy(v_)
         v = b._decode_cfg_value(v)
 
@@ -453,12 +457,7 @@ def _merge_a_into_b(a: CfgNode, b: CfgNode, root: CfgNode, key_list: list):
         elif b.is_new_allowed():
             b[k] = v
         else:
-            if root.key_is_deprecated(full_key):
-                continue
-            elif root.key_is_renamed(full_key):
-                root.raise_key_rename_error(full_key)
-            else:
-                raise KeyError("Non-existent config key: {}".format(full_key))
+            raise KeyError("Non-existent config key: {}".format(full_key))
 
 
 def _check_and_coerce_cfg_value_type(replacement, original, key, full_key):
-- 
2.43.0


From ee4d48da48203efa4ca89a85c7a5e78db998da84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 32/49] fix: text resembling an impossible literal stays text

Merging the text '{{1}}' raised a TypeError out of literal_eval instead of
keeping the string.
---
 gradslam/config/cfgnode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gradslam/config/cfgnode.py b/gradslam/config/cfgnode.py
index 6fe9437..37102e9 100644
--- a/gradslam/config/cfgnode.py
+++ b/gradslam/config/cfgnode.py
@@ -406,8 +406,9 @@ class CfgNode(dict):
         # string and other times a data structure, like a list. In the case that `value` represents a str, what we
         # got back from the yaml parser is `foo` *without quotes* (so, not `"foo"`). `literal_eval` is ok with `"foo"`,
         # but will raise a `ValueError` if given `foo`. In other cases, like paths (`val = 'foo/bar'`) `literal_eval`
-        # will raise a `SyntaxError`.
-        except ValueError:
+        # will raise a `SyntaxError`. Text such as `{{1}}` looks like a literal of an impossible value, and will raise a
+        # `TypeError`.
+        except (ValueError, TypeError):
             pass
         except SyntaxError:
             pass
-- 
2.43.0


From bb5988fda4ef4b3ec59cd51bb13ac2bd3705c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 33/49] fix: merging new keys rejects values of unsupported
 type

Where new keys are allowed, merging text such as 'None' or '{1, 2}' decoded
it and stored a value no configuration can hold, after which the
configuration could not be saved.
---
 gradslam/config/cfgnode.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gradslam/config/cfgnode.py b/gradslam/config/cfgnode.py
index 37102e9..25be9d9 100644
--- a/gradslam/config/cfgnode.py
+++ b/gradslam/config/cfgnode.py
@@ -456,6 +456,12 @@ def _merge_a_into_b(a: CfgNode, b: CfgNode, root: CfgNode, key_list: list):
             else:
                 b[k] = v
         elif b.is_new_allowed():
+            _assert_with_logging(
+                _valid_type(v, allow_cfg_node=True),
+                "Invalid type {} for key {}; valid types = {}".format(
+                    type(v), full_key, _VALID_TYPES
+                ),
+            )
             b[k] = v
         else:
             raise KeyError("Non-existent config key: {}".format(full_key))
-- 
2.43.0


From 2be06426b26acb6642cc445231be7faf5a3c3909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 34/49] fix: ICL poses belong to the frames they are returned
 with

With start > 0 the poses were still read from the beginning of the
trajectory, so each frame came with the pose of an earlier one.
---
 gradslam/datasets/icl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index a1f5e1c..ea2032a 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -320,7 +320,7 @@ class ICL(data.Dataset):
                 with open(posesfile, "r") as f:
                     len_posesfile = sum(1 for line in f)
 
-            for line_num, line in enumerate(lines):
+            for line_num, line in enumerate(lines, start):
                 line = line.strip().split()
                 msg = "incorrect reading from ICL associations"
                 if line[3][:3] != "rgb":
-- 
2.43.0


From 9419513a5ccfb0a057d4c45acda272bf9c36244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 35/49] fix: ICL rejects trajectories with a frame lacking its
 pose

A pose file ending just before a frame's pose was accepted, and the last
sample silently had fewer poses than frames.
---
 gradslam/datasets/icl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index ea2032a..94628ba 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -335,7 +335,7 @@ class ICL(data.Dataset):
                 )
 
                 if self.load_poses:
-                    if line_num * 4 > len_posesfile:
+                    if line_num * 4 + 3 > len_posesfile:
                         msg = '{0}th pose should start from line {1} of file "{2}", but said file has only {3} lines.'
                         raise ValueError(
                             msg.format(
-- 
2.43.0


From b9d1d97b1d2ad611f672f114501179200b943108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 36/49] fix: ICL trajectory number comes from the trajectory
 folder

It was taken from the first "living_room_traj" anywhere in the path, so a
basedir containing that text made the poses file not found.
---
 gradslam/datasets/icl.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index 94628ba..55071f4 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -277,9 +277,7 @@ class ICL(data.Dataset):
                 raise ValueError(msg + dirmsg)
             associationsfiles.append(associationsfile)
             if self.load_poses:
-                trajectory_num = trajectory_path[
-                    trajectory_path.index("living_room_traj") + 16 :
-                ].split("_")[0]
+                trajectory_num = os.path.basename(trajectory_path)[16:].split("_")[0]
                 posesfile = os.path.join(
                     trajectory_path, "livingRoom{0}n.gt.sim".format(trajectory_num)
                 )
-- 
2.43.0


From 570e276a7e54b6dd445124e245580f83bf241362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 37/49] fix: name files of ICL and TUM datasets may end in a
 newline

The empty name after the last newline was looked for in basedir, so a text
file with one name per line was rejected.
---
 gradslam/datasets/icl.py | 2 +-
 gradslam/datasets/tum.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index 55071f4..6bf9ef3 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -211,7 +211,7 @@ class ICL(data.Dataset):
         if isinstance(trajectories, str):
             if os.path.isfile(trajectories):
                 with open(trajectories, "r") as f:
-                    trajectories = tuple(f.read().split("\n"))
+                    trajectories = tuple(f.read().split())
                 valid_trajectory_dirs = list(trajectories)
             else:
                 raise ValueError(
diff --git a/gradslam/datasets/tum.py b/gradslam/datasets/tum.py
index 41e2a70..415edbb 100644
--- a/gradslam/datasets/tum.py
+++ b/gradslam/datasets/tum.py
@@ -196,7 +196,7 @@ class TUM(data.Dataset):
         if isinstance(sequences, str):
             if os.path.isfile(sequences):
                 with open(sequences, "r") as f:
-                    sequences = tuple(f.read().split("\n"))
+                    sequences = tuple(f.read().split())
             else:
                 raise ValueError(
                     "incorrect filename: {} doesn't exist".format(sequences)
-- 
2.43.0


From adc198449984880fe4e0ec0bffecc35329fa9a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 38/49] fix: ScanNet sequences of different lengths

Without an end frame every sample was read with the length of the last
sequence, truncating longer sequences and failing on shorter ones.
---
 gradslam/datasets/scannet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/scannet.py b/gradslam/datasets/scannet.py
index 9871eb6..1b224c0 100644
--- a/gradslam/datasets/scannet.py
+++ b/gradslam/datasets/scannet.py
@@ -228,7 +228,7 @@ class Scannet(data.Dataset):
 
         color_seq, depth_seq, pose_seq, label_seq = [], [], [], []
         poses = []
-        for i in range(self.seqlen):
+        for i in range(len(color_seq_path)):
             color = np.asarray(imageio.imread(color_seq_path[i]), dtype=float)
             color = self._preprocess_color(color)
             color = torch.from_numpy(color)
-- 
2.43.0


From 68251c44fddbe3353b3b7dfb4262bc69fe949aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 39/49] fix: ScanNet rejects frame ranges beyond the end of a
 sequence

Only the number of frames was compared with the sequence, so a range that
starts inside and ends outside it gave a sample that could not be read.
---
 gradslam/datasets/scannet.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gradslam/datasets/scannet.py b/gradslam/datasets/scannet.py
index 1b224c0..8e15dc7 100644
--- a/gradslam/datasets/scannet.py
+++ b/gradslam/datasets/scannet.py
@@ -144,9 +144,12 @@ class Scannet(data.Dataset):
                 if full_sequence:
                     self.end = len(lines)
                     self.seqlen = self.end - self.start
-                if self.seqlen > len(lines):
-                    msg = "sequence length can't be larger than dataset sequence length but it was: %r > %r"
-                    raise ValueError(msg % (self.seqlen, len(lines)))
+                if self.end > len(lines):
+                    msg = "end frame can't be larger than dataset sequence length but it was: %r > %r"
+                    raise ValueError(msg % (self.end, len(lines)))
+                if self.start >= len(lines):
+                    msg = "start frame must be smaller than dataset sequence length but it was: %r >= %r"
+                    raise ValueError(msg % (self.start, len(lines)))
                 lines = lines[self.start : self.end]
 
             for line in lines:
-- 
2.43.0


From e28ca61bd67271c2968a97f30dc9b998bc657a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 40/49] fix: nyu40_to_scannet20 leaves its argument unchanged

---
 gradslam/datasets/scannet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gradslam/datasets/scannet.py b/gradslam/datasets/scannet.py
index 8e15dc7..e8318ba 100644
--- a/gradslam/datasets/scannet.py
+++ b/gradslam/datasets/scannet.py
@@ -525,6 +525,7 @@ def nyu40_to_scannet20(label):
         (36, 19),
         (39, 20),
     ]
+    label = label.clone() if torch.is_tensor(label) else np.copy(label)
     for src, tar in remapping:
         label[np.where(label == src)] = tar
     return label
-- 
2.43.0


From 67e1ec466ad8788e0d482a4dd87383854c7346df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 41/49] fix: empty point clouds with colors can be exported

---
 gradslam/structures/pointclouds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 674b57d..20ddcbf 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1280,7 +1280,7 @@ class Pointclouds(object):
             if subsample:
                 torch_colors = torch_colors[point_inds]
             # if colors > 1, assume 255 range
-            if (torch_colors.max() > 1.1).item():
+            if torch_colors.numel() > 0 and (torch_colors.max() > 1.1).item():
                 torch_colors = torch_colors / 255
             torch_colors = torch.clamp(torch_colors, min=0.0, max=1.0)
             numpy_colors = torch_colors.detach().cpu().numpy()
@@ -1340,7 +1340,7 @@ class Pointclouds(object):
             if subsample:
                 torch_colors = torch_colors[point_inds]
             # if colors > 1, assume 255 range
-            if (torch_colors.max() < 1.1).item():
+            if torch_colors.numel() > 0 and (torch_colors.max() < 1.1).item():
                 torch_colors = torch_colors * 255
             torch_colors = torch.clamp(torch_colors, min=0.0, max=255.0)
             numpy_colors = torch_colors.detach().cpu().numpy().astype("uint8")
-- 
2.43.0


From a5aedf62d0686fbab53f3dd9b44bcf71c29db89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 42/49] fix: color range of an exported cloud does not depend
 on its subsample

---
 gradslam/structures/pointclouds.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 20ddcbf..024e3a1 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1277,11 +1277,11 @@ class Pointclouds(object):
 
         if self.has_colors and include_colors:
             torch_colors = self.colors_list[index]
-            if subsample:
-                torch_colors = torch_colors[point_inds]
             # if colors > 1, assume 255 range
             if torch_colors.numel() > 0 and (torch_colors.max() > 1.1).item():
                 torch_colors = torch_colors / 255
+            if subsample:
+                torch_colors = torch_colors[point_inds]
             torch_colors = torch.clamp(torch_colors, min=0.0, max=1.0)
             numpy_colors = torch_colors.detach().cpu().numpy()
             pcd.colors = o3d.utility.Vector3dVector(numpy_colors)
@@ -1337,11 +1337,11 @@ class Pointclouds(object):
 
         if self.has_colors and include_colors:
             torch_colors = self.colors_list[index]
-            if subsample:
-                torch_colors = torch_colors[point_inds]
             # if colors > 1, assume 255 range
             if torch_colors.numel() > 0 and (torch_colors.max() < 1.1).item():
                 torch_colors = torch_colors * 255
+            if subsample:
+                torch_colors = torch_colors[point_inds]
             torch_colors = torch.clamp(torch_colors, min=0.0, max=255.0)
             numpy_colors = torch_colors.detach().cpu().numpy().astype("uint8")
             marker_dict["color"] = numpy_colors
-- 
2.43.0


From 45d73ff167090ee463cb13219482d902c9a03990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 43/49] fix: RGBDImages.plotly supports channels first images

---
 gradslam/structures/rgbdimages.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index a7db118..e42ac45 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -817,6 +817,8 @@ class RGBDImages(object):
             }
 
         torch_rgb = self.rgb_image[index]
+        if self.channels_first:
+            torch_rgb = torch_rgb.permute(0, 2, 3, 1)
         if (torch_rgb.max() < 1.1).item():
             torch_rgb = torch_rgb * 255
         torch_rgb = torch.clamp(torch_rgb, min=0.0, max=255.0)
@@ -826,7 +828,7 @@ class RGBDImages(object):
         if not include_depth:
             frames = [{"data": [frame], "name": i} for i, frame in enumerate(Image_rgb)]
         else:
-            torch_depth = self.depth_image[index, ..., 0]
+            torch_depth = self.depth_image[index].squeeze(self.cdim - 1)
             scale = 10 ** torch.log10(255.0 / torch_depth.detach().max()).floor().item()
             numpy_depth = (torch_depth * scale).detach().cpu().numpy().astype("uint8")
             Image_depth = [
-- 
2.43.0


From 571622c4e68624fb53562aaa5de3866c10a1aae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 44/49] fix: RGBDImages.plotly supports sequences without valid
 depth

---
 gradslam/structures/rgbdimages.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index e42ac45..2bd4584 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -829,7 +829,10 @@ class RGBDImages(object):
             frames = [{"data": [frame], "name": i} for i, frame in enumerate(Image_rgb)]
         else:
             torch_depth = self.depth_image[index].squeeze(self.cdim - 1)
-            scale = 10 ** torch.log10(255.0 / torch_depth.detach().max()).floor().item()
+            max_depth = torch_depth.detach().max()
+            scale = 1.0
+            if (max_depth > 0).item():
+                scale = 10 ** torch.log10(255.0 / max_depth).floor().item()
             numpy_depth = (torch_depth * scale).detach().cpu().numpy().astype("uint8")
             Image_depth = [
                 numpy_to_plotly_image(d, i, True, scale)
-- 
2.43.0


From d319d80c1801d83cdce5b94d6d652e60494378b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 45/49] fix: list_to_padded supports lists of empty tensors

---
 gradslam/structures/structutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gradslam/structures/structutils.py b/gradslam/structures/structutils.py
index d114a4c..5894c85 100644
--- a/gradslam/structures/structutils.py
+++ b/gradslam/structures/structutils.py
@@ -67,8 +67,10 @@ def list_to_padded(
         return torch.stack(x, 0)
 
     if pad_size is None:
-        pad_dim0 = max(y.shape[0] for y in x if len(y) > 0)
-        pad_dim1 = max(y.shape[1] for y in x if len(y) > 0)
+        # only 2-dimensional items have a second dimension when all of the items are empty
+        sized = [y for y in x if len(y) > 0] or [y for y in x if y.ndim == 2]
+        pad_dim0 = max((y.shape[0] for y in sized), default=0)
+        pad_dim1 = max((y.shape[1] for y in sized), default=0)
     else:
         if len(pad_size) != 2:
             raise ValueError("Pad size must contain target size for 1st and 2nd dim")
-- 
2.43.0


From 10e2f1b6aaad5527db5d9c6fcc2f289980ba6907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 46/49] fix: gradients of unhomogenize_points are finite for
 points at infinity

---
 gradslam/geometry/geometryutils.py | 2 +-
 gradslam/geometry/projutils.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index d7164c4..9c257d6 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -71,7 +71,7 @@ def unhomogenize_points(pts: torch.Tensor, eps: float = 1e-6) -> torch.Tensor:
     # For points at infinity, use a scale factor of 1 (used by OpenCV
     # and by kornia)
     # https://github.com/opencv/opencv/pull/14411/files
-    scale: torch.Tensor = torch.where(torch.abs(w) > eps, 1.0 / w, torch.ones_like(w))
+    scale: torch.Tensor = 1.0 / torch.where(torch.abs(w) > eps, w, torch.ones_like(w))
 
     return scale * pts[..., :-1]
 
diff --git a/gradslam/geometry/projutils.py b/gradslam/geometry/projutils.py
index c02a8d6..a044a9a 100644
--- a/gradslam/geometry/projutils.py
+++ b/gradslam/geometry/projutils.py
@@ -84,7 +84,7 @@ def unhomogenize_points(pts: torch.Tensor, eps: float = 1e-6) -> torch.Tensor:
     # For points at infinity, use a scale factor of 1 (used by OpenCV
     # and by kornia)
     # https://github.com/opencv/opencv/pull/14411/files
-    scale: torch.Tensor = torch.where(torch.abs(w) > eps, 1.0 / w, torch.ones_like(w))
+    scale: torch.Tensor = 1.0 / torch.where(torch.abs(w) > eps, w, torch.ones_like(w))
 
     return scale * pts[..., :-1]
 
-- 
2.43.0


From d4240e976b88ced52014abf5f389a6d119232fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 47/49] fix: gradients of quaternion_to_axisangle are finite
 for identity rotations

---
 gradslam/geometry/geometryutils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 9c257d6..9ab9386 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -104,7 +104,10 @@ def quaternion_to_axisangle(quat: torch.Tensor) -> torch.Tensor:
     qy: torch.Tensor = quat[..., 1]
     qz: torch.Tensor = quat[..., 2]
     sin_sq_theta: torch.Tensor = qx * qx + qy * qy + qz * qz
-    sin_theta: torch.Tensor = torch.sqrt(sin_sq_theta)
+    # the square root has no derivative at 0, where its value is not used
+    sin_theta: torch.Tensor = torch.sqrt(
+        torch.where(sin_sq_theta > 0.0, sin_sq_theta, torch.ones_like(sin_sq_theta))
+    )
     cos_theta: torch.Tensor = quat[..., 3]
     two_theta: torch.Tensor = 2.0 * torch.where(
         cos_theta < 0.0,
@@ -113,7 +116,9 @@ def quaternion_to_axisangle(quat: torch.Tensor) -> torch.Tensor:
     )
 
     k_pos: torch.Tensor = two_theta / sin_theta
-    k_neg: torch.Tensor = 2.0 * torch.ones_like(sin_theta)
+    k_neg: torch.Tensor = torch.where(
+        cos_theta < 0.0, -2.0 * torch.ones_like(sin_theta), 2.0 * torch.ones_like(sin_theta)
+    )
     k: torch.Tensor = torch.where(sin_sq_theta > 0.0, k_pos, k_neg)
 
     axisangle: torch.Tensor = torch.zeros_like(quat)[..., :3]
-- 
2.43.0


From 901b483ae302038270763e47f4b6b1d412f19404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:06 +0000
Subject: [PATCH 48/49] fix: TUM and ICL samples no longer share the dataset's
 own intrinsics

---
 gradslam/datasets/icl.py | 2 +-
 gradslam/datasets/tum.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index 6bf9ef3..7080844 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -444,7 +444,7 @@ class ICL(data.Dataset):
             output.append(depth_seq)
 
         if self.return_intrinsics:
-            intrinsics = self.intrinsics
+            intrinsics = self.intrinsics.clone()
             output.append(intrinsics)
 
         if self.return_pose:
diff --git a/gradslam/datasets/tum.py b/gradslam/datasets/tum.py
index 415edbb..3706f06 100644
--- a/gradslam/datasets/tum.py
+++ b/gradslam/datasets/tum.py
@@ -408,7 +408,7 @@ class TUM(data.Dataset):
             output.append(depth_seq)
 
         if self.return_intrinsics:
-            intrinsics = self.intrinsics
+            intrinsics = self.intrinsics.clone()
             output.append(intrinsics)
 
         if self.return_pose:
-- 
2.43.0


From f461cf81ded458c5a06d04567343b6ecea9a3b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:23 +0000
Subject: [PATCH 49/49] fix: relative_transformation refuses matrices that are
 not 4x4

---
 gradslam/geometry/geometryutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 9ab9386..faf446f 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -453,12 +453,12 @@ def relative_transformation(
         raise TypeError(
             "Input trans_02 type is not a torch.Tensor. Got {}".format(type(trans_02))
         )
-    if not trans_01.dim() in (2, 3) and trans_01.shape[-2:] == (4, 4):
+    if not (trans_01.dim() in (2, 3) and trans_01.shape[-2:] == (4, 4)):
         raise ValueError(
             "Input must be a of the shape Nx4x4 or 4x4."
             " Got {}".format(trans_01.shape)
         )
-    if not trans_02.dim() in (2, 3) and trans_02.shape[-2:] == (4, 4):
+    if not (trans_02.dim() in (2, 3) and trans_02.shape[-2:] == (4, 4)):
         raise ValueError(
             "Input must be a of the shape Nx4x4 or 4x4."
             " Got {}".format(trans_02.shape)
-- 
2.43.0

