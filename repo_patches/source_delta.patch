From d11d7748df7c1e58ed18c084fc8cd4cf259a9bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:56 +0000
Subject: [PATCH 1/5] fix: restore optimizable actuator parameters when a group
 is activated after having no active heliostats

---
 artist/field/heliostat_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artist/field/heliostat_group.py b/artist/field/heliostat_group.py
index fb078ff..d2b7e25 100644
--- a/artist/field/heliostat_group.py
+++ b/artist/field/heliostat_group.py
@@ -303,7 +303,7 @@ class HeliostatGroup:
                 active_heliostats_mask, dim=0
             )
         )
-        if self.kinematics.actuators.active_optimizable_parameters.numel() > 0:
+        if self.kinematics.actuators.optimizable_parameters.numel() > 0:
             self.kinematics.actuators.active_optimizable_parameters = (
                 self.kinematics.actuators.optimizable_parameters.repeat_interleave(
                     active_heliostats_mask, dim=0
-- 
2.43.0


From 2e83bf80b149cdebc785abed9e3293132d695098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:12 +0000
Subject: [PATCH 2/5] fix: measure cylinder hit angles from the target normal
 in the local frame

---
 artist/raytracing/geometry.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/artist/raytracing/geometry.py b/artist/raytracing/geometry.py
index 20c7b5a..4aec864 100644
--- a/artist/raytracing/geometry.py
+++ b/artist/raytracing/geometry.py
@@ -395,14 +395,10 @@ def line_cylinder_intersections(
     # z-values range from negative half cylinder height to positive half the cylinder height, therefore we add half the cylinder height
     # to all z-values.
     z = z + heights.view(-1, 1, 1) / 2
-    # Initially angles are defined 0° towards positive east axis, we want to define 0° as where the normal vector points towards.
-    angles = torch.atan2(y, x) - (
-        torch.atan2(
-            cylinder_normals[:, indices.cylinder_local_y].view(-1, 1, 1),
-            cylinder_normals[:, indices.cylinder_local_x].view(-1, 1, 1),
-        )
-        - (opening_angles.view(-1, 1, 1) / 2)
-    )
+    # In the local frame the normal vector points towards positive y. Angles are measured from the normal vector, increasing
+    # from the normal towards the cross product of axis and normal, and therefore range from negative half the opening angle to
+    # positive half the opening angle on the target, therefore we add half the opening angle to all angles.
+    angles = torch.atan2(-x, y) + opening_angles.view(-1, 1, 1) / 2
 
     intersections_on_target = (
         (z >= 0)
-- 
2.43.0


From 056b9d8bc6e08af2663e3f52e034fcbc1b34a02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:08 +0000
Subject: [PATCH 3/5] fix: do not count target planes behind the ray origin as
 hit

---
 artist/raytracing/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/artist/raytracing/geometry.py b/artist/raytracing/geometry.py
index 4aec864..30c1501 100644
--- a/artist/raytracing/geometry.py
+++ b/artist/raytracing/geometry.py
@@ -174,13 +174,15 @@ def line_plane_intersections(
     )
 
     # Filter out rays that are out of bounds of the target plane dimensions. Previously an infinite plane was considered.
-    # Also filter out rays that hit the backside of the target or rays that are parallel to the target.
+    # Also filter out rays that hit the backside of the target, rays that are parallel to the target or rays that start
+    # behind the target and move away from it.
     valid_mask = (
         (0 <= bitmap_intersections_e)
         & (bitmap_intersections_e <= bitmap_resolution[indices.unbatched_bitmap_e] - 1)
         & (0 <= bitmap_intersections_u)
         & (bitmap_intersections_u <= bitmap_resolution[indices.unbatched_bitmap_u] - 1)
         & front_facing_mask
+        & (intersection_distances >= 0)
     )
 
     bitmap_intersections_e = bitmap_intersections_e * valid_mask
-- 
2.43.0


From 6c68e859e0b75f9af6889f6d29f70ac730934600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:40 +0000
Subject: [PATCH 4/5] fix: assign every sample to a rank when heliostats are
 repeated unevenly

---
 artist/raytracing/sampling.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/artist/raytracing/sampling.py b/artist/raytracing/sampling.py
index c165ef3..548b266 100644
--- a/artist/raytracing/sampling.py
+++ b/artist/raytracing/sampling.py
@@ -130,15 +130,16 @@ class RestrictedDistributedSampler(Sampler):
         self.rank_indices = []
 
         if rank < number_of_active_ranks:
-            number_of_samples_per_heliostat = (
-                number_of_samples // number_of_active_heliostats
-            )
             indices: list[int] = []
 
+            # The samples are split into consecutive blocks without gaps, as the number of samples is not necessarily
+            # a multiple of the number of heliostats (some heliostats can be regarded more often than others).
             for index in range(number_of_active_heliostats):
                 if index % number_of_active_ranks == rank:
-                    start = index * number_of_samples_per_heliostat
-                    end = start + number_of_samples_per_heliostat
+                    start = index * number_of_samples // number_of_active_heliostats
+                    end = (
+                        (index + 1) * number_of_samples // number_of_active_heliostats
+                    )
                     indices.extend(range(start, end))
 
             self.rank_indices = indices
-- 
2.43.0


From 7cb17350c2346cde859dbe7e660a6a8cff1f5504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:49 +0000
Subject: [PATCH 5/5] fix: find knot spans of non-uniform knot vectors for
 every number of facets

---
 artist/nurbs/surfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artist/nurbs/surfaces.py b/artist/nurbs/surfaces.py
index f238c88..c4f0e8b 100644
--- a/artist/nurbs/surfaces.py
+++ b/artist/nurbs/surfaces.py
@@ -233,7 +233,7 @@ class NURBSSurfaces(torch.nn.Module):
             )
             is_last_knot = torch.isclose(
                 evaluation_points,
-                knot_vectors[:, :, number_of_knots],
+                knot_vectors[:, :, number_of_knots].unsqueeze(-1),
                 atol=1e-5,
                 rtol=1e-5,
             )
-- 
2.43.0

