From 32d663c76f945235c6aa8dfbb3217db47e5920d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:24 +0000
Subject: [PATCH 01/35] fix: plotting after removing one of several udls

remove_udls stored a Udl object as the largest magnitude, so drawing the
remaining loads divided by an object and raised TypeError.
---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 5cc610d..ca73c27 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -539,7 +539,7 @@ class Slope:
             self._udl_max = 0
 
         if self._udls:
-            self._udl_max = max(self._udls, key=lambda x: x.magnitude)
+            self._udl_max = max(udl.magnitude for udl in self._udls)
 
         # reset results
         self._reset_results()
-- 
2.43.0


From 5e6d062080876f8e1ff1372d310e05824c7f01c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:24 +0000
Subject: [PATCH 02/35] fix: removing loads skipped every other equal load

The list was modified while being iterated over.
---
 pyslope/pyslope.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index ca73c27..357a355 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -526,13 +526,15 @@ class Slope:
         """
 
         for udl in udls:
-            for check_udl in self._udls:
-                if (
+            self._udls = [
+                check_udl
+                for check_udl in self._udls
+                if not (
                     check_udl.offset == udl.offset
                     and check_udl.magnitude == udl.magnitude
                     and check_udl.length == udl.length
-                ):
-                    self._udls.remove(check_udl)
+                )
+            ]
 
         if remove_all:
             self._udls = []
@@ -615,12 +617,14 @@ class Slope:
 
         # can probably write this as O(n) rather than O(n^2)
         for ll in lls:
-            for check_ll in self._lls:
-                if (
+            self._lls = [
+                check_ll
+                for check_ll in self._lls
+                if not (
                     check_ll.offset == ll.offset
                     and check_ll.magnitude == ll.magnitude
-                ):
-                    self._lls.remove(check_ll)
+                )
+            ]
 
         if remove_all:
             self._lls = []
-- 
2.43.0


From edd797e44b762ad935a748cf48c1638d8a8ee284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:24 +0000
Subject: [PATCH 03/35] fix: zero accepted as a strictly positive number

---
 pyslope/data_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/data_validation.py b/pyslope/data_validation.py
index 742c577..61edad1 100644
--- a/pyslope/data_validation.py
+++ b/pyslope/data_validation.py
@@ -27,7 +27,7 @@ def assert_strictly_positive_number(n, name):
             f"The value for '{name}' should be an int or float, not a "
             f"{type(n).__name__}."
         )
-    if n < 0:
+    if n <= 0:
         raise ValueError(f"The value for '{name}' should be > 0, not {n}")
 
 
-- 
2.43.0


From b1edf9f8614855434ff206ab6f77a838142b2fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 04/35] fix: right hand limits validated the wrong value

set_analysis_limits(right_x_left=...) on its own was always rejected, and a
right_x of the wrong type was not.
---
 pyslope/pyslope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 357a355..51abd81 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -980,14 +980,14 @@ class Slope:
             right_x_left = self._limits[2]
         else:
             data_validation.assert_strictly_positive_number(
-                right_x, "right_x_limit"
+                right_x_left, "right_x left coordinate"
             )
 
         if right_x is None:
             right_x = self._limits[3]
         else:
             data_validation.assert_strictly_positive_number(
-                right_x_left, "right_x left coordinate"
+                right_x, "right_x_limit"
             )
 
         # if only one of the double parameters is defined
-- 
2.43.0


From e07514660686d10b7b07dd9e1c7b0e6f70adc208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 05/35] fix: rejected materials and boundary options left the
 model changed

A duplicate depth was only rejected after the model had been extended (and
its limits and results reset), and a bad MIN_EXT_L after MIN_EXT_H had been
stored. Assigning no materials raised IndexError.
---
 pyslope/pyslope.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 51abd81..0092572 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -679,20 +679,24 @@ class Slope:
 
         # Need to validate material values also
 
+        # nothing to assign
+        if not materials:
+            return
+
         # sort materials to be in order, include existing materials
         materials = list(materials) + self._materials
         materials.sort(key=lambda x: x.depth_to_bottom)
 
         depths = [material.depth_to_bottom for material in materials]
 
-        # if geological unit deeper than model than extend model to fit materials
-        if depths[-1] > self._external_height:
-            self.update_boundary_options(MIN_EXT_H=depths[-1])
-
         # check material depth unique
         if len(depths) > len(set(depths)):
             raise ValueError("The same material depth has been input twice")
 
+        # if geological unit deeper than model than extend model to fit materials
+        if depths[-1] > self._external_height:
+            self.update_boundary_options(MIN_EXT_H=depths[-1])
+
         material_refined = []
         # define RL for each material and color for each material
         for i, material in enumerate(materials):
@@ -910,11 +914,15 @@ class Slope:
             data_validation.assert_strictly_positive_number(
                 MIN_EXT_H, "Minimum external model height (MIN_EXT_H)"
             )
-            self._MIN_EXT_H = MIN_EXT_H
         if MIN_EXT_L:
             data_validation.assert_strictly_positive_number(
                 MIN_EXT_L, "Minimum external model length (MIN_EXT_H)"
             )
+
+        # only update once both values are known to be valid
+        if MIN_EXT_H:
+            self._MIN_EXT_H = MIN_EXT_H
+        if MIN_EXT_L:
             self._MIN_EXT_L = MIN_EXT_L
 
         # if the external boundary has been set this call is after init.
-- 
2.43.0


From f66f0fa34e87f1a6839d24b210e28ad782e01b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:22 +0000
Subject: [PATCH 06/35] fix: material and water levels stale after the boundary
 changes

The levels of materials and water, and the automatic water factor, were only
worked out when set. Any later change of geometry or extents (including the
automatic extension for deep materials) left them at the old position.
---
 pyslope/pyslope.py | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 0092572..95c4315 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -271,6 +271,8 @@ class Slope:
         # initialise empty properties used in other components of class
         self._materials = []
         self._water_RL = None
+        self._water_depth = None
+        self._water_analysis_auto = True
         self._udls = []
         self._lls = []
 
@@ -396,9 +398,10 @@ class Slope:
         self._external_height = tot_h
 
         # udl coordinates can be effected by external boundary modification
-        # need to update coordinates.
-        self._update_udl_coordinates()
-        self._update_ll_coordinates()
+        # need to update coordinates. Same goes for the level of materials
+        # and water which are defined as a depth from the top of the slope.
+        self._update_derived_levels()
+        self._update_water_factor()
 
         # reset limits
         self.remove_analysis_limits()
@@ -406,6 +409,25 @@ class Slope:
         # reset results
         self._reset_results()
 
+    def _update_derived_levels(self):
+        """Update the position of everything that is defined relative to the
+        top of the slope (materials, water and loads)"""
+
+        self._update_udl_coordinates()
+        self._update_ll_coordinates()
+
+        for material in self._materials:
+            material.RL = self._external_height - material.depth_to_bottom
+
+        if self._water_depth is not None:
+            self._water_RL = max(0, self._top_coord[1] - self._water_depth)
+
+    def _update_water_factor(self):
+        """Update water factor if automatically determined from slope"""
+
+        if self._water_analysis_auto:
+            self._water_analysis_H = cos(atan(self._gradient)) ** 2
+
     def set_water_table(self, depth: float):
         """set water table value.
 
@@ -802,8 +824,8 @@ class Slope:
         """
 
         if auto:
-            a = atan(self._gradient)
-            H = cos(a) ** 2
+            self._water_analysis_auto = True
+            self._update_water_factor()
 
         else:
             data_validation.assert_number(H, "H")
@@ -812,7 +834,8 @@ class Slope:
             elif H < 0:
                 H = 0
 
-        self._water_analysis_H = H
+            self._water_analysis_auto = False
+            self._water_analysis_H = H
 
         # reset results
         self._reset_results()
-- 
2.43.0


From 8787c5ac47d546e8d71e092c9781ce0e9e2ace9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:22 +0000
Subject: [PATCH 07/35] fix: slopes sharing material or load objects used each
 others levels

The position of a material or load in the model is stored on the object, so
assigning it to a second slope moved it in the first.
---
 pyslope/pyslope.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 95c4315..6e0ca40 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1268,6 +1268,9 @@ class Slope:
         """Analyse many possible failure planes for a slope OR
         indivually added failure planes if added to slope."""
 
+        # material and load objects may also be in use in another slope
+        self._update_derived_levels()
+
         # if individual failure planes set only analyse them
         if self._individual_planes != []:
             self._search = self._individual_planes
@@ -2163,6 +2166,9 @@ class Slope:
         plotly figure
 
         """
+        # material and load objects may also be in use in another slope
+        self._update_derived_levels()
+
         # draw the external boundary
         x_ = [x for x, y in self._external_boundary]
         y_ = [y for x, y in self._external_boundary]
-- 
2.43.0


From f652f08298d5694f3643d9f45411223e145a175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:49 +0000
Subject: [PATCH 08/35] fix: line load at a slice edge was lost or counted
 twice

The edges of neighbouring slices were worked out separately and differed by
rounding, so a line load there was in neither or both slices.
---
 pyslope/pyslope.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 6e0ca40..a78f847 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1454,8 +1454,9 @@ class Slope:
         )
 
         # --- Add distributed and line loads ---
-        xl = slice_x - half_width
-        xr = slice_x + half_width
+        # neighbouring slices share an edge so nothing lost in between
+        edges = np.linspace(x_left, x_right, num_slices + 1)
+        xl, xr = edges[:-1], edges[1:]
 
         for udl in self._udls:
             overlap = np.minimum(
@@ -1673,8 +1674,11 @@ class Slope:
         )
 
         # --- Add uniformly distributed loads (UDLs) ---
-        x_left = slice_x - half_slice
-        x_right = slice_x + half_slice
+        # neighbouring slices share an edge so nothing lost in between
+        edges = np.linspace(
+            intersections[0][0], intersections[1][0], num_slices + 1
+        )
+        x_left, x_right = edges[:-1], edges[1:]
         for udl in self._udls:
             overlap = np.minimum(
                 x_right,
-- 
2.43.0


From 21d220a626107722318d9e9dc6458143b73ce392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:49 +0000
Subject: [PATCH 09/35] fix: factor of safety was nan for surfaces without any
 resistance

---
 pyslope/pyslope.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index a78f847..a81cb56 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1753,6 +1753,10 @@ class Slope:
             if prev_FS is None:
                 return None
 
+            # no resistance at all
+            if prev_FS == 0:
+                return 0.0
+
             denom = cos_alpha + (sin_alpha * tan_phi / prev_FS)
             if np.any(denom == 0):
                 return None
-- 
2.43.0


From b509d3561f7d4a8bd2e4046e3f3e590e2dfd044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:49 +0000
Subject: [PATCH 10/35] fix: end points of individual planes stale after
 boundary changes

---
 pyslope/pyslope.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index a81cb56..0420b56 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1281,6 +1281,14 @@ class Slope:
 
         # go through each assumed plane and calculate the FOS
         for i, search in enumerate(tqdm(self._search)):
+            # end points of planes added individually change with the boundary
+            if self._individual_planes != []:
+                i_list = self._get_circle_external_intersection(
+                    search["c_x"], search["c_y"], search["radius"]
+                )
+                if len(set(i_list)) >= 2:
+                    search["l_c"], search["r_c"] = i_list[:2]
+
             self._search[i]["FOS"] = self._analyse_circular_failure_bishop(
                 c_x=search["c_x"],
                 c_y=search["c_y"],
-- 
2.43.0


From 2981279f686af48ccbedc89e1030d630530591cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:49 +0000
Subject: [PATCH 11/35] fix: plot_critical failed for surfaces too short to
 contain a circle point

The outline was closed on the first generated point, of which there are none
if the surface spans less than two degrees of the circle.
---
 pyslope/pyslope.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 0420b56..4922ec5 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -2953,12 +2953,12 @@ class Slope:
                 x_.append(x[i])
                 y_.append(y[i])
 
+        x_ = [l_c[0]] + x_ + [r_c[0]]
+        y_ = [l_c[1]] + y_ + [r_c[1]]
+
         if show_center:
-            x_ += [r_c[0], c_x, l_c[0], x_[0]]
-            y_ += [r_c[1], c_y, l_c[1], y_[0]]
-        else:
-            x_ = [l_c[0]] + x_ + [r_c[0]]
-            y_ = [l_c[1]] + y_ + [r_c[1]]
+            x_ += [c_x, l_c[0]]
+            y_ += [c_y, l_c[1]]
 
         # THIS IS TOO SLOW (in experimentation the real
         # problem is with plotly, even with minimal data
-- 
2.43.0


From 063d318fc1414433f0640cded58d00c9c992d4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 12/35] fix: circles after the first did not pass through the
 entry and exit point

Once a circle daylighted on the face, the remaining circles for the same
entry and exit point were generated from that point instead.
---
 pyslope/pyslope.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 4922ec5..a063929 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1188,13 +1188,11 @@ class Slope:
             if len(set(i_list)) < 2:
                 continue
 
-            l_c = i_list[0]
-            r_c = i_list[1]
-
+            # dont overwrite l_c and r_c, still needed for remaining circles
             search += [
                 {
-                    "l_c": l_c,
-                    "r_c": r_c,
+                    "l_c": i_list[0],
+                    "r_c": i_list[1],
                     "c_x": c_x,
                     "c_y": c_y,
                     "radius": radius,
-- 
2.43.0


From 2b5fb6ac545ffe9e457c811c6a8ee2316a1adc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 13/35] fix: surfaces through the crest, toe or model edge lost
 to rounding

An intersection at the very end of a part of the boundary was only found if it
happened to be rounded towards the inside.
---
 pyslope/pyslope.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index a063929..aacbeee 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1914,6 +1914,9 @@ class Slope:
 
         i_list = []
 
+        # allow for rounding of points that are at the ends of the boundary
+        tol = 1e-9
+
         top_intersection = utilities.cirle_line_intersection(
             (0, self._top_coord[1]), self._top_coord, c_x, c_y, radius
         )
@@ -1924,8 +1927,8 @@ class Slope:
             top_intersection.sort()
             top_intersection = top_intersection[0]
             if (
-                top_intersection[0] >= 0
-                and top_intersection[0] <= self._top_coord[0]
+                top_intersection[0] >= -tol
+                and top_intersection[0] <= self._top_coord[0] + tol
             ):
                 i_list.append(top_intersection)
 
@@ -1945,8 +1948,8 @@ class Slope:
             bot_intersection.sort()
             bot_intersection = bot_intersection[-1]
             if (
-                bot_intersection[0] >= self._bot_coord[0]
-                and bot_intersection[0] <= self._external_length
+                bot_intersection[0] >= self._bot_coord[0] - tol
+                and bot_intersection[0] <= self._external_length + tol
             ):
                 i_list.append(bot_intersection)
 
@@ -1955,7 +1958,10 @@ class Slope:
         )
 
         for a in mid_intersection:
-            if a[0] >= self._top_coord[0] and a[0] <= self._bot_coord[0]:
+            if (
+                a[0] >= self._top_coord[0] - tol
+                and a[0] <= self._bot_coord[0] + tol
+            ):
                 i_list.append(a)
 
         # remove any close points
-- 
2.43.0


From 5f695e0371761af6b4fb7c7d04387dddbb523843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 14/35] fix: search without entry points when there are many
 loads

The number of entry points was reduced by the number of loads, until the
search raised ZeroDivisionError or only looked next to the loads.
---
 pyslope/pyslope.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index aacbeee..ba778bf 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1069,7 +1069,10 @@ class Slope:
 
         # remove number of points on top to be spread to allow for specific
         # points next to the edge of loads
-        num_points_top = num_points_top - len(self._lls) - len(self._udls)
+        # (always keep both ends of the search range)
+        num_points_top = max(
+            2, num_points_top - len(self._lls) - len(self._udls)
+        )
 
         # get limits on bounds of slope
         # not some limits might still stretch off slope
-- 
2.43.0


From 7724dbeaf3ba78d9dd9582c20f093d4948f740e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 15/35] fix: search surfaces outside of analysis limits or
 below minimum distance

Only the points a surface was generated from were checked. Surfaces next to
loads, and those that daylight on the face before their exit point, were
reported with end points outside of the limits or closer than the minimum
failure distance.
---
 pyslope/pyslope.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index ba778bf..641851f 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1116,7 +1116,17 @@ class Slope:
                 ):
                     search += self._generate_planes(l_c, r_c, num_circles)
 
-        self._search = search
+        # a plane may have daylighted somewhere other than the generated points,
+        # only keep those that comply with the limits and distance
+        tol = 1e-6
+        self._search = [
+            s
+            for s in search
+            if x1 - tol <= s["l_c"][0] <= x2 + tol
+            and x3 - tol <= s["r_c"][0] <= x4 + tol
+            and utilities.dist_points(s["l_c"], s["r_c"])
+            > self._min_failure_distance
+        ]
 
     def _generate_planes(self, l_c, r_c, num_circles=5):
         """Generate failure plane circle coordinates with entry and exit point.
-- 
2.43.0


From 98ad57d81229adb2512595fde0060f131574f2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 16/35] fix: dynamic analysis of continuous loads, line loads
 and exact targets

The furthest offset failed for a continuous udl, was based on the length of
the slope instead of the crest for line loads and could move a load off the
model. Assigning the loads again could extend the model and reset the limits.
A factor of safety that equals the target at the crest led to a division by
zero.
---
 pyslope/pyslope.py | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 641851f..d0505be 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1810,12 +1810,12 @@ class Slope:
         right = 0.0
 
         # get the length of the top and subtract the largest dynamic load length
-        left = self._length
+        left = self._top_coord[0]
         for udl in self._udls:
             if udl.dynamic_offset:
-                left = max(left, self._top_coord[0] - udl.length)
+                left = min(left, self._top_coord[0] - (udl.length or 0))
 
-        left -= 0.01
+        left = max(left - 0.01, 0.0)
 
         # check for extreme case with loads at crest (right)
         # if slope is safe (FOS high) then return
@@ -1823,7 +1823,7 @@ class Slope:
         self.analyse_slope()
         fos = self.get_min_FOS()
         self._dynamic_results[right] = fos
-        if fos > critical_fos:
+        if fos >= critical_fos:
             return 0
 
         # check for extreme case with loads at end of slope as far
@@ -1887,23 +1887,17 @@ class Slope:
 
     def _set_dynamic_offset(self, offset):
         # remember default values?
-        udls = self._udls
-        lls = self._lls
+        # move loads in place, assigning them again could extend the boundary
+        # and with that reset the analysis limits
+        for load in self._udls + self._lls:
+            if load.dynamic_offset:
+                load.offset = offset
 
-        # remove loads
-        self.remove_udls(remove_all=True)
-        self.remove_lls(remove_all=True)
-
-        # update loads
-        for udl in udls:
-            if udl.dynamic_offset:
-                udl.offset = offset
-            self.set_udls(udl)
+        self._update_udl_coordinates()
+        self._update_ll_coordinates()
 
-        for ll in lls:
-            if ll.dynamic_offset:
-                ll.offset = offset
-            self.set_lls(ll)
+        # reset results
+        self._reset_results()
 
     def _get_circle_external_intersection(
         self, c_x: float, c_y: float, radius: float
-- 
2.43.0


From 8361a2446850c5408248423ab5a5086e8a12b8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:01 +0000
Subject: [PATCH 17/35] fix: colors accepted that can not be plotted

Empty or missing load colors and a few names unknown to plotly were accepted
and made plotting fail, malformed hex colors raised AttributeError.
---
 pyslope/utilities.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyslope/utilities.py b/pyslope/utilities.py
index 94d45fa..335c4f6 100644
--- a/pyslope/utilities.py
+++ b/pyslope/utilities.py
@@ -2,6 +2,9 @@
 from math import cos, sin, sqrt, radians
 from colour import Color
 
+# third party imports
+from plotly import graph_objects as go
+
 MATERIAL_COLORS = [
     "#efa59c",
     "#77e1ca",
@@ -17,10 +20,14 @@ MATERIAL_COLORS = [
 
 
 def is_color(color):
+    """Check that a color is a known color that can also be plotted."""
+    if not isinstance(color, str) or color == "":
+        return False
     try:
-        color = Color(color)
+        Color(color)
+        go.scatter.Line(color=color)
         return True
-    except ValueError:
+    except (ValueError, AttributeError):
         return False
 
 
-- 
2.43.0


From cb089c5b8bb23eb144b5efd8437452d20312a372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:32 +0000
Subject: [PATCH 18/35] fix: dynamic analysis on the web page always fell back
 to a normal one

The critical factor of safety from the form is a Decimal, which the analysis
can not mix with floats. The failure was swallowed after the loads had been
moved already.
---
 slope/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index 1606e98..3a61c03 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -481,7 +481,7 @@ def create_slope(
         # might fail if no dynamic loads set up
         try:
             slope.analyse_dynamic(
-                critical_fos=options_form.cleaned_data["critical_FOS"]
+                critical_fos=float(options_form.cleaned_data["critical_FOS"])
             )
         except Exception:
             slope.analyse_slope(max_fos=5)
-- 
2.43.0


From cc2454f84364277a20cffeec0e3ed3c14d68833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:32 +0000
Subject: [PATCH 19/35] fix: server error for pdf without a session or with a
 bad factor of safety

---
 slope/views.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/slope/views.py b/slope/views.py
index 3a61c03..3c1b423 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -52,13 +52,17 @@ def reset(request):
 
 def pdf(request, max_fos=5):
     # get saved data, still taking forever.
-    if request.session["plot_json"] == [] or request.session["search"] == []:
+    if not request.session.get("plot_json") or not request.session.get("search"):
         return redirect("index")
+
+    try:
+        max_fos = float(max_fos)
+    except ValueError:
+        return redirect("index")
+
     plot = from_json(request.session["plot_json"])
     search = list(eval(str(request.session["search"])))
 
-    max_fos = float(max_fos)
-
     # turn json data back into a plotly chart
     traces = []
 
-- 
2.43.0


From 74559282fe905802cb24261f42149ff73b3798b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:32 +0000
Subject: [PATCH 20/35] fix: server error for models that can not be analysed
 or are very safe

Conflicting limits, repeated material depths and values out of range, which
the forms do not check, and models without any factor of safety below 5 were
answered with an internal server error.
---
 slope/views.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index 3c1b423..a3dd8ae 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -280,7 +280,15 @@ def index(request):
         # if form is valid
         if valid:
 
-            slope = create_slope(*form_list)
+            # values can be valid on their own but not be analysable together
+            try:
+                slope = create_slope(*form_list)
+            except (ValueError, ArithmeticError):
+                return redirect("reset")
+
+            # no failure planes to show
+            if not slope._search:
+                return redirect("reset")
 
             # return color_dictionary
             # add coordinates of failure planes to information that gets passed back.
@@ -480,6 +488,10 @@ def create_slope(
 
     if options_form.cleaned_data["analysis_choice"] == "normal":
         slope.analyse_slope(max_fos=5)
+
+        # all planes are safe, show them instead of nothing
+        if not slope._search:
+            slope.analyse_slope()
     else:
 
         # might fail if no dynamic loads set up
-- 
2.43.0


From 05b4d502f4251fe5b4c2f1ba1a5553d8c0ff4ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 21/35] fix: model not extended for materials when the boundary
 changes after

The model is extended to fit a deep material when it is set, but not when the
boundary becomes smaller later on, leaving materials below the model.
---
 pyslope/pyslope.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index d0505be..529f5a5 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -367,7 +367,10 @@ class Slope:
         MIN_EXT_H = self._MIN_EXT_H
         MIN_EXT_L = self._MIN_EXT_L
 
-        tot_h = max(3 * height, MIN_EXT_H, 5 * length / 2)
+        # model always deep enough to fit all materials
+        depths = [material.depth_to_bottom for material in self._materials]
+
+        tot_h = max(3 * height, MIN_EXT_H, 5 * length / 2, *depths)
         tot_l = max(5 * length, MIN_EXT_L, 4 * height)
 
         # determine coordinates for edges of slope
-- 
2.43.0


From afda478a7a5050af60459162057b8c3554622508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 22/35] fix: TypeError in search if last exit point is rounded
 past the model edge

---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 529f5a5..2d6dbb4 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1093,7 +1093,7 @@ class Slope:
         # can be at bottom or on slope, so y is function of x and
         # needs to be determined for different points
         right_coords_x = [
-            x3 + (n / (num_points_bot)) * (x4 - x3)
+            min(x4, x3 + (n / (num_points_bot)) * (x4 - x3))
             for n in range(1, num_points_bot + 1)
         ]
 
-- 
2.43.0


From 46037880baf20e4e28486e8fb08e821d5af3405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:44 +0000
Subject: [PATCH 23/35] fix: factor of safety reported for circles above the
 ground

A circle that leaves the ground within a centimetre of where it entered, such
as at the edge of a steep face, was analysed up to the next intersection,
although it is above the ground in between.
---
 pyslope/pyslope.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 2d6dbb4..d8a4dc4 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1447,6 +1447,16 @@ class Slope:
             ),
         )
 
+        # Circle passes through the air between its intersections
+        # (those closer than 0.01 are considered to be one)
+        in_air = (
+            (slice_yb > slice_yt)
+            & (slice_x > x_left + 0.01)
+            & (slice_x < x_right - 0.01)
+        )
+        if np.any(in_air):
+            return None
+
         # Ensure top ≥ bottom
         slice_yt = np.maximum(
             slice_yt,
-- 
2.43.0


From 330710d1063ae3a2ccd0b780e7420e647fdb154c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:20 +0000
Subject: [PATCH 24/35] fix: loads partly outside the model when the boundary
 options change after

Adding a load extends the model so that all of it is included, but setting
the minimum length afterwards shrank the model again and cut the load off.
---
 pyslope/pyslope.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index d8a4dc4..a0465c1 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -370,8 +370,13 @@ class Slope:
         # model always deep enough to fit all materials
         depths = [material.depth_to_bottom for material in self._materials]
 
+        # and long enough to include the full length of all loads
+        lengths = [
+            (udl.offset + (udl.length or 3)) * 2.5 for udl in self._udls
+        ] + [ll.offset * 3 for ll in self._lls]
+
         tot_h = max(3 * height, MIN_EXT_H, 5 * length / 2, *depths)
-        tot_l = max(5 * length, MIN_EXT_L, 4 * height)
+        tot_l = max(5 * length, MIN_EXT_L, 4 * height, *lengths)
 
         # determine coordinates for edges of slope
         dx = (tot_l - length) / 2
-- 
2.43.0


From 56c77ebb413a8ad608b2766b670ec36b742500eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:50 +0000
Subject: [PATCH 25/35] fix: water table at toe level drawn only up to the toe

---
 pyslope/pyslope.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index a0465c1..478921c 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -2477,11 +2477,11 @@ class Slope:
         x_line = [0, x]
         y_line = [y, y]
 
-        # if x is less than bot slope then is also same as saying x is less than
-        # the edge of the model.
+        # if water is not below the bot of slope then is also same as saying x is
+        # less than the edge of the model.
         # basically need to make sure the water table continues along the surface
         # as is conservatively considered in the model
-        if x <= self._bot_coord[0]:
+        if y >= self._bot_coord[1]:
             x_line += [self._bot_coord[0], self._external_length]
             y_line += [self._bot_coord[1], self._bot_coord[1]]
 
-- 
2.43.0


From c53eacb4f0f9b0a17ba2d0a4ee1dbaefbd0e4c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:46 +0000
Subject: [PATCH 26/35] fix: zero slices or iterations ignored instead of held
 to the minimum

---
 pyslope/pyslope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 478921c..addc0a4 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -894,10 +894,10 @@ class Slope:
         ...     max_iterations=50,
         ... )
         """
-        if slices:
+        if slices is not None:
             self._slices = max(min(500, slices), 10)
 
-        if iterations:
+        if iterations is not None:
             self._iterations = max(min(iterations, 100000), 500)
 
         if min_failure_dist is not None:
-- 
2.43.0


From b9a4ff18d7be7ba5e72b516c016e0d3e444a2520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:46 +0000
Subject: [PATCH 27/35] fix: material with a depth of zero could not be removed

---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index addc0a4..6723436 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -797,7 +797,7 @@ class Slope:
             depth = material.depth_to_bottom
 
         # if depth specified adopt
-        if depth:
+        if depth is not None:
             for m in self._materials:
                 if m.depth_to_bottom == depth:
                     self._materials.remove(m)
-- 
2.43.0


From 475a8cbf27c3cb420856d4a8a667f3681b2bd7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:46 +0000
Subject: [PATCH 28/35] fix: upper bound of zero on the factor of safety
 ignored

---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 6723436..b95dfc6 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1318,7 +1318,7 @@ class Slope:
         # to be sorted from lowest FOS to highest FOS
         search = list(filter((lambda x: x["FOS"] is not None), self._search))
         search.sort(key=lambda x: x["FOS"])
-        if max_fos:
+        if max_fos is not None:
             search = list(filter(lambda x: (x["FOS"] <= max_fos), search))
 
         self._search = search
-- 
2.43.0


From 13a0dd7b1dd0e489a35cd18fff33be1c0c813197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:46 +0000
Subject: [PATCH 29/35] fix: zero accepted silently as minimum model extent

---
 pyslope/pyslope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index b95dfc6..28bfa40 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -941,11 +941,11 @@ class Slope:
         True
         """
 
-        if MIN_EXT_H:
+        if MIN_EXT_H is not None:
             data_validation.assert_strictly_positive_number(
                 MIN_EXT_H, "Minimum external model height (MIN_EXT_H)"
             )
-        if MIN_EXT_L:
+        if MIN_EXT_L is not None:
             data_validation.assert_strictly_positive_number(
                 MIN_EXT_L, "Minimum external model length (MIN_EXT_H)"
             )
-- 
2.43.0


From 50555c550f681a04a1907c57c54609fe4634b30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:12 +0000
Subject: [PATCH 30/35] fix: renumber rows beyond the tenth when a row is
 deleted

---
 static/slope/add_rows.js | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/static/slope/add_rows.js b/static/slope/add_rows.js
index f967fd1..140d175 100644
--- a/static/slope/add_rows.js
+++ b/static/slope/add_rows.js
@@ -35,7 +35,7 @@ document.addEventListener("DOMContentLoaded", () => {
         const materialEnd = document.querySelector('#end-row-Materials');
 
         materialFormCount++;
-        const materialFormRegex = RegExp(`material-(\\d){1}-`, 'g');
+        const materialFormRegex = RegExp(`material-\\d+-`, 'g');
 
         newMaterialForm.innerHTML = newMaterialForm.innerHTML.replace(materialFormRegex, `material-${materialFormCount}-`)
 
@@ -57,7 +57,7 @@ document.addEventListener("DOMContentLoaded", () => {
         const lineLoadEnd = document.querySelector('#end-row-LineLoads');
 
         lineLoadFormCount++;
-        const lineLoadFormRegex = RegExp(`lineload-(\\d){1}-`, 'g');
+        const lineLoadFormRegex = RegExp(`lineload-\\d+-`, 'g');
 
         newLineLoadForm.innerHTML = newLineLoadForm.innerHTML.replace(lineLoadFormRegex, `lineload-${lineLoadFormCount}-`)
 
@@ -78,7 +78,7 @@ document.addEventListener("DOMContentLoaded", () => {
         const udlEnd = document.querySelector('#end-row-Udls');
 
         udlFormCount++;
-        const udlFormRegex = RegExp(`udl-(\\d){1}-`, 'g');
+        const udlFormRegex = RegExp(`udl-\\d+-`, 'g');
 
         newUdlForm.innerHTML = newUdlForm.innerHTML.replace(udlFormRegex, `udl-${udlFormCount}-`)
 
@@ -92,7 +92,7 @@ document.addEventListener("DOMContentLoaded", () => {
     function updateForms(event) {
         //material
         let count = 0;
-        const materialFormRegex = RegExp(`material-(\\d){1}-`, 'g');
+        const materialFormRegex = RegExp(`material-\\d+-`, 'g');
         for (let form of materialForm) {
             for (let cell of form.children) {
                 for (let input of cell.children){
@@ -105,7 +105,7 @@ document.addEventListener("DOMContentLoaded", () => {
         
         //line loads
         count = 0;
-        const lineLoadFormRegex = RegExp(`lineload-(\\d){1}-`, 'g');
+        const lineLoadFormRegex = RegExp(`lineload-\\d+-`, 'g');
         for (let form of lineLoadForm) {
             for (let cell of form.children) {
                 for (let input of cell.children){
@@ -118,7 +118,7 @@ document.addEventListener("DOMContentLoaded", () => {
 
         // distributed loads
         count = 0;
-        const udlFormRegex = RegExp(`udl-(\\d){1}-`, 'g');
+        const udlFormRegex = RegExp(`udl-\\d+-`, 'g');
         for (let form of udlForm) {
             for (let cell of form.children) {
                 for (let input of cell.children){
-- 
2.43.0


From 95a458aa3dc1eb860ba085a2e38e0fcfadd158b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:12 +0000
Subject: [PATCH 31/35] fix: keep the report withdrawn when the display limit
 is moved after inputs changed

---
 static/slope/update_pdf_link.js | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/static/slope/update_pdf_link.js b/static/slope/update_pdf_link.js
index ff6ab89..c333385 100644
--- a/static/slope/update_pdf_link.js
+++ b/static/slope/update_pdf_link.js
@@ -5,9 +5,7 @@ function update_pdf_link() {
     // if href = '' something has already changed in the inputs
     // the user isnt allowed to request pdf and as such the 
     // href shal remain '' unless form is the same.
-    if (link.href = '') {
-        pass;
-    } else {
+    if (link.getAttribute('href') !== '') {
         link.href = `pdf/${fos}`;
     }
 
-- 
2.43.0


From a99393eb467933c572f0f92130de296a03e303fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:12 +0000
Subject: [PATCH 32/35] fix: enable analysis after changes to dropdowns, added
 rows and row numbers

---
 static/slope/button_control.js | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/static/slope/button_control.js b/static/slope/button_control.js
index aa56da0..8add0ca 100644
--- a/static/slope/button_control.js
+++ b/static/slope/button_control.js
@@ -8,21 +8,30 @@ document.addEventListener("DOMContentLoaded", () => {
 
 
 
-    inputs = document.getElementsByTagName('input');
-    for (var i = 0; i < inputs.length; i++) {
-        if (inputs[i].id != 'id_options-max_display_FOS') {
-            inputs[i].addEventListener('change', () => {
-                document.getElementById('analysis_button').disabled = false
-
-                // for pdf_button it has been changed to a link so need 
-                document.getElementById('pdf_button').classList.add('disabled');
-                document.getElementById('pdf_button').href = '';
-            });
+    // an input was changed, or a row added or removed: what is shown now has to be
+    // analysed first. On the form, so that it includes dropdowns and added rows
+    const form = document.getElementById('mainform');
+    form.addEventListener('change', (event) => {
+        if (event.target.id != 'id_options-max_display_FOS') {
+            inputs_changed();
         }
-
-    }
+    });
+    form.addEventListener('click', (event) => {
+        if (event.target.matches("[id^='add-'], [class*='delete-']")) {
+            inputs_changed();
+        }
+    });
 });
 
+function inputs_changed() {
+    document.getElementById('analysis_button').disabled = false
+
+    // for pdf_button it has been changed to a link so need 
+    document.getElementById('pdf_button').classList.add('disabled');
+    document.getElementById('pdf_button').href = '';
+}
+
+
 function trigger_spinner() {
 
     document.getElementById('loading-spinner').style = "display:inline-block";
-- 
2.43.0


From 948c4fba32ff60eed49e2031124f84f332d84a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:23 +0000
Subject: [PATCH 33/35] fix: draw and redraw the plot on narrow screens

---
 static/slope/charting.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/static/slope/charting.js b/static/slope/charting.js
index ec45b87..76f812c 100644
--- a/static/slope/charting.js
+++ b/static/slope/charting.js
@@ -55,7 +55,7 @@ function createPlot(max_display_fos) {
                 objTo.appendChild(td)
             }
         }
-        Plotly.update('plotly_js', plot.data, plot.layout)
+        Plotly.newPlot('plotly_js', plot.data, plot.layout)
     }
     else {
         //if not a mobile screen hide the extra html elements
-- 
2.43.0


From 9aae43957a98d44105896af50b9a7721c4610ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:23 +0000
Subject: [PATCH 34/35] fix: list the strata as analysed on narrow screens

---
 static/slope/charting.js | 66 ++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 27 deletions(-)

diff --git a/static/slope/charting.js b/static/slope/charting.js
index 76f812c..35e376c 100644
--- a/static/slope/charting.js
+++ b/static/slope/charting.js
@@ -20,6 +20,45 @@ function createPlot(max_display_fos) {
         'pad': 0
     }
 
+    // html tables for mobile displays, made when the page is opened: from then on the
+    // inputs may be changed to something which is not in the plot
+    if (document.getElementById('mobile_soil_table').childElementCount == 0) {
+
+        soils = document.getElementsByClassName('formset-row-Materials')
+        soils_count = soils.length
+
+        // the strata are drawn from the top down, whatever the order of the rows
+        depths = []
+        for (var i = 0; i < soils_count; i += 1) {
+            depths.push(Math.abs(document.getElementById('id_material-' + i + '-depth_to_bottom').value))
+        }
+
+        for (var i = 0; i < soils_count; i += 1) {
+            // creating the table of soil properties
+            weight = document.getElementById('id_material-' + i + '-unit_weight').value
+            friction = document.getElementById('id_material-' + i + '-friction_angle').value
+            cohesion = document.getElementById('id_material-' + i + '-cohesion').value
+            soil_name = document.getElementById('id_material-' + i + '-name').value
+            position = depths.filter((depth) => depth < depths[i]).length
+            colour = plot.data[position + 1].fillcolor
+            var objTo = document.getElementById('mobile_soil_table');
+            var tr = document.createElement("tr");
+            tr.innerHTML = '<td></td><td style="background-color:' + colour + ';"></td><td>' + weight + '</td><td>' + cohesion + '</td><td>' + friction + '</td>';
+            // the name is the user's text, not html
+            tr.firstChild.textContent = soil_name;
+            objTo.appendChild(tr)
+        }
+
+        //creating the html FOS scale
+        var objTo = document.getElementById('FOS_legend');
+        for (fos_colour in COLOUR_FOS_DICT) {
+            var td = document.createElement("td");
+            td.style.backgroundColor = COLOUR_FOS_DICT[fos_colour];
+            td.style.height = '15px';
+            objTo.appendChild(td)
+        }
+    }
+
     // for mobile displays hide the annotations and shapes from the plotly chart and create html info
     if (w < 900) {
 
@@ -28,33 +67,6 @@ function createPlot(max_display_fos) {
         plot.layout.shapes = []
         document.getElementById("mobile_screen_menus").style.display = "block"
 
-        if (document.getElementById('mobile_soil_table').childElementCount == 0) {
-
-            soils = document.getElementsByClassName('formset-row-Materials')
-            soils_count = soils.length
-
-            for (var i = 0; i < soils_count; i += 1) {
-                // creating the table of soil properties
-                weight = document.getElementById('id_material-' + i + '-unit_weight').value
-                friction = document.getElementById('id_material-' + i + '-friction_angle').value
-                cohesion = document.getElementById('id_material-' + i + '-cohesion').value
-                soil_name = document.getElementById('id_material-' + i + '-name').value
-                colour = plot.data[i + 1].fillcolor
-                var objTo = document.getElementById('mobile_soil_table');
-                var tr = document.createElement("tr");
-                tr.innerHTML = '<td>' + soil_name + '</td><td style="background-color:' + colour + ';"></td><td>' + weight + '</td><td>' + cohesion + '</td><td>' + friction + '</td>';
-                objTo.appendChild(tr)
-            }
-
-            //creating the html FOS scale
-            var objTo = document.getElementById('FOS_legend');
-            for (fos_colour in COLOUR_FOS_DICT) {
-                var td = document.createElement("td");
-                td.style.backgroundColor = COLOUR_FOS_DICT[fos_colour];
-                td.style.height = '15px';
-                objTo.appendChild(td)
-            }
-        }
         Plotly.newPlot('plotly_js', plot.data, plot.layout)
     }
     else {
-- 
2.43.0


From 3cd26cb430396a656993da153a3197e3d69b365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:30 +0000
Subject: [PATCH 35/35] fix: automatic strata colours follow the position in
 each slope, not the slope a shared material was last added to

---
 pyslope/pyslope.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 28bfa40..e493c43 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -424,9 +424,15 @@ class Slope:
         self._update_udl_coordinates()
         self._update_ll_coordinates()
 
-        for material in self._materials:
+        for i, material in enumerate(self._materials):
             material.RL = self._external_height - material.depth_to_bottom
 
+            # the automatic color follows from the position in this slope
+            if not material.user_defined_color or not utilities.is_color(
+                material.user_defined_color
+            ):
+                material.color = MATERIAL_COLORS[i % 10]
+
         if self._water_depth is not None:
             self._water_RL = max(0, self._top_coord[1] - self._water_depth)
 
-- 
2.43.0

