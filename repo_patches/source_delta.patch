From 45b275735dbd7470281ee5fa05e395cf963341f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:48 +0000
Subject: [PATCH 01/54] fix: use the z component in the y coordinate of
 transform_to_global_frame

---
 src/hypervehicle/geometry/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index 1f14705..fa9223d 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -205,7 +205,7 @@ class Vector3:
     ):
         """Change the coordinates from the local right-handed (RH) system at point c."""
         new_x = self.x * n.x + self.y * t1.x + self.z * t2.x
-        new_y = self.x * n.y + self.y * t1.y + self.y * t2.y
+        new_y = self.x * n.y + self.y * t1.y + self.z * t2.y
         new_z = self.x * n.z + self.y * t1.z + self.z * t2.z
         if c is not None:
             new_x += c.x
-- 
2.43.0


From d6ad51090b91d7a050c07330b653e6910af7da34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:48 +0000
Subject: [PATCH 02/54] fix: apply transform_to_local_frame in place when an
 origin is given

---
 src/hypervehicle/geometry/vector.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index fa9223d..f68ef1e 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -220,12 +220,11 @@ class Vector3:
         self, n: Vector3, t1: Vector3, t2: Vector3, c: Vector3 = None
     ):
         """Change coordinates into the local right-handed (RH) system at point c."""
-        if c is not None:
-            self -= c
+        rel = self - c if c is not None else self
 
-        x = self.dot(n)
-        y = self.dot(t1)
-        z = self.dot(t2)
+        x = rel.dot(n)
+        y = rel.dot(t1)
+        z = rel.dot(t2)
 
         self._x = x
         self._y = y
-- 
2.43.0


From e0999956aff99645b4b9ea70091e6a493a736464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:48 +0000
Subject: [PATCH 03/54] fix: scale vectors in place by numpy scalars

In-place division by a numpy scalar such as float32 returned the
NotImplementedError class, so normalize() silently did nothing.
---
 src/hypervehicle/geometry/vector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index f68ef1e..b700458 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -125,7 +125,7 @@ class Vector3:
 
     def __imul__(self, other):
         """Returns self *= other number."""
-        if isinstance(other, (float, int)) or isinstance(other, np.ndarray):
+        if isinstance(other, (float, int, np.number, np.ndarray)):
             self._x *= other
             self._y *= other
             self._z *= other
@@ -135,13 +135,13 @@ class Vector3:
 
     def __itruediv__(self, other):
         """Returns self /= other number."""
-        if isinstance(other, (float, int)) or isinstance(other, np.ndarray):
+        if isinstance(other, (float, int, np.number, np.ndarray)):
             self._x /= other
             self._y /= other
             self._z /= other
             return self
         else:
-            return NotImplementedError
+            return NotImplemented
 
     def __abs__(self):
         """Returns magnitude."""
-- 
2.43.0


From 3b8be2c500f6213242b2a6821cb261c7fbab1a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:48 +0000
Subject: [PATCH 04/54] fix: accept numpy integers and arrays as vector
 coordinates

Vectors could not be built from integer arrays, and structured grids,
which evaluate surfaces at arrays of parameter values, always failed.
---
 src/hypervehicle/geometry/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index b700458..c65aeab 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -33,7 +33,7 @@ class Vector3:
             self._x = x.x
             self._y = x.y
             self._z = x.z
-        elif isinstance(x, (float, int, np.floating)):
+        elif isinstance(x, (float, int, np.floating, np.integer, np.ndarray)):
             self._x = x
             self._y = y if y is not None else 0.0
             self._z = z if z is not None else 0.0
-- 
2.43.0


From 5406c8393255b2f7cc3fea0ac514e2be0da0f1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:48 +0000
Subject: [PATCH 05/54] fix: close polylines with a segment from the end back
 to the start

---
 src/hypervehicle/geometry/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/path.py b/src/hypervehicle/geometry/path.py
index e3d6bc0..8f9a6f1 100644
--- a/src/hypervehicle/geometry/path.py
+++ b/src/hypervehicle/geometry/path.py
@@ -96,7 +96,7 @@ class Polyline(Path):
             p0 = self.segments[0](0.0)
             p1 = self.segments[-1](1.0)
             if abs(p1 - p0) > tolerance:
-                self.segments.append(Line(p0, p1))
+                self.segments.append(Line(p1, p0))
         self.reset_breakpoints()
 
     def reset_breakpoints(self):
-- 
2.43.0


From 5889ede5f9198b538e611b99ffb1fe1fa1f8ce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:48 +0000
Subject: [PATCH 06/54] fix: report the length of the covered part of a
 sub-ranged path

---
 src/hypervehicle/geometry/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index 9e0919d..a6241c2 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -33,7 +33,10 @@ class SubRangedPath(Path):
         return self.underlying_path(t_dash)
 
     def length(self):
-        return self.underlying_path.length()
+        if {self.t0, self.t1} == {0, 1}:
+            # The whole path is covered
+            return self.underlying_path.length()
+        return super().length()
 
 
 class ReversedPath(SubRangedPath):
-- 
2.43.0


From 4a011a13585b3d53d744ad16fb1870775f0ae4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:48 +0000
Subject: [PATCH 07/54] fix: cluster in the j direction with the j resolution

---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index ebfa8b0..757d09c 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -74,7 +74,7 @@ def surfce_to_stl(
         r_list = default_vertex_func(lb=0.0, ub=1.0, steps=ni + 1, spacing=si)
 
     if j_clustering_func:
-        s_list = [j_clustering_func(i) for i in np.linspace(0, 1, ni + 1)]
+        s_list = [j_clustering_func(i) for i in np.linspace(0, 1, nj + 1)]
     else:
         s_list = default_vertex_func(lb=0.0, ub=1.0, steps=nj + 1, spacing=sj)
 
-- 
2.43.0


From 53c88b3b7f150472ac71142298d49fb4edbc741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:48 +0000
Subject: [PATCH 08/54] fix: use the s resolution of each patch in the s
 direction

---
 src/hypervehicle/components/component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index b784f60..7fd3573 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -273,7 +273,7 @@ class Component(AbstractComponent):
             ]
         else:
             case_list = [
-                [k, patch, self.patch_res_r[k], self.patch_res_r[k]]
+                [k, patch, self.patch_res_r[k], self.patch_res_s[k]]
                 for k, patch in self.patches.items()
             ]
 
-- 
2.43.0


From 4eb9d6cda77c78cbdc3cf11ce95f6ee6ab9d8e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:28 +0000
Subject: [PATCH 09/54] fix: honour the axis given to reflect over the
 configured one

---
 src/hypervehicle/components/component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 7fd3573..a6ec05a 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -231,7 +231,7 @@ class Component(AbstractComponent):
                 self.patches[key] = OffsetPatchFunction(patch, self._modifier_function)
 
     def reflect(self, axis: str = None):
-        axis = self._reflection_axis if self._reflection_axis is not None else axis
+        axis = axis if axis is not None else self._reflection_axis
         if axis is not None:
             # Create mirrored patches
             mirrored_patches = {}
-- 
2.43.0


From 86f900bda06725561a0092b18fe160312e8dabde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:28 +0000
Subject: [PATCH 10/54] fix: keep existing patches when reflecting a component
 again

A second appended reflection reused the patch names of the first one and
replaced part of the geometry.
---
 src/hypervehicle/components/component.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index a6ec05a..e489363 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -236,7 +236,10 @@ class Component(AbstractComponent):
             # Create mirrored patches
             mirrored_patches = {}
             for key, patch in self.patches.items():
-                mirrored_patches[f"{key}_mirrored"] = MirroredPatch(patch, axis=axis)
+                new_key = f"{key}_mirrored"
+                while new_key in self.patches or new_key in mirrored_patches:
+                    new_key += "_mirrored"
+                mirrored_patches[new_key] = MirroredPatch(patch, axis=axis)
 
             # Now either add the reflected patches to the same component, or
             # replace the patches with their reflected versions
-- 
2.43.0


From cdb1b2b06cf1a423bcde3573c9ad9eeb2c7cb0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:28 +0000
Subject: [PATCH 11/54] fix: give reflected patches the resolution of their
 originals

Meshing a reflected component with per-edge resolutions failed with a
KeyError.
---
 src/hypervehicle/components/component.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index e489363..80cf98d 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -240,6 +240,9 @@ class Component(AbstractComponent):
                 while new_key in self.patches or new_key in mirrored_patches:
                     new_key += "_mirrored"
                 mirrored_patches[new_key] = MirroredPatch(patch, axis=axis)
+                if key in self.patch_res_r:
+                    self.patch_res_r[new_key] = self.patch_res_r[key]
+                    self.patch_res_s[new_key] = self.patch_res_s[key]
 
             # Now either add the reflected patches to the same component, or
             # replace the patches with their reflected versions
-- 
2.43.0


From 5ab83d4d24344b144d541242aaebf345f3c83441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:28 +0000
Subject: [PATCH 12/54] fix: use the given t_B2 value of a wing

---
 src/hypervehicle/components/wing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/wing.py b/src/hypervehicle/components/wing.py
index 498800d..9029269 100644
--- a/src/hypervehicle/components/wing.py
+++ b/src/hypervehicle/components/wing.py
@@ -163,7 +163,7 @@ class Wing(Component):
         if self.params["t_B2"] == None:
             self.t_B2 = 0.5 * (1 + self.t_B1)
         else:
-            self.t_B2 = self.params["t_B1"]
+            self.t_B2 = self.params["t_B2"]
 
         # Save other params
         self.TE_top = None
-- 
2.43.0


From 239ebfbc2629948aac6e792c911830ba55f12ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:23 +0000
Subject: [PATCH 13/54] fix: allow closing wings with a flat leading edge

Closing always added an elliptical patch, which a flat leading edge does
not have, and failed without a leading edge width function.
---
 src/hypervehicle/components/wing.py | 58 +++++++++++++++--------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/src/hypervehicle/components/wing.py b/src/hypervehicle/components/wing.py
index 9029269..dc273f8 100644
--- a/src/hypervehicle/components/wing.py
+++ b/src/hypervehicle/components/wing.py
@@ -529,42 +529,46 @@ class Wing(Component):
             west=mid_vert_bot,
         )
 
-        elipse_top = ElipsePath(
-            centre=TT_mid,
-            thickness=TT_mid.z - TT_top.z,
-            LE_width=self.params["FUNC_LEADING_EDGE_WIDTH"](1),
-            side="top",
-        )
-        elipse_bot = ElipsePath(
-            centre=TT_mid,
-            thickness=TT_mid.z - TT_bot.z,
-            LE_width=self.params["FUNC_LEADING_EDGE_WIDTH"](1),
-            side="bot",
-        )
-        elipse_top = ArcLengthParameterizedPath(underlying_path=elipse_top)
-        elipse_bot = ArcLengthParameterizedPath(underlying_path=elipse_bot)
+        # Only an elliptical leading edge leaves an opening to close
+        flat_LE = self.params["LE_TYPE"] == "FLAT"
+        if not flat_LE:
+            elipse_top = ElipsePath(
+                centre=TT_mid,
+                thickness=TT_mid.z - TT_top.z,
+                LE_width=self.params["FUNC_LEADING_EDGE_WIDTH"](1),
+                side="top",
+            )
+            elipse_bot = ElipsePath(
+                centre=TT_mid,
+                thickness=TT_mid.z - TT_bot.z,
+                LE_width=self.params["FUNC_LEADING_EDGE_WIDTH"](1),
+                side="bot",
+            )
+            elipse_top = ArcLengthParameterizedPath(underlying_path=elipse_top)
+            elipse_bot = ArcLengthParameterizedPath(underlying_path=elipse_bot)
 
-        # Now reverse the paths for correct orientation
-        elipse_bot = SubRangedPath(underlying_path=elipse_bot, t0=1.0, t1=0.0)
+            # Now reverse the paths for correct orientation
+            elipse_bot = SubRangedPath(underlying_path=elipse_bot, t0=1.0, t1=0.0)
 
-        interior_ellip = CoonsPatch(
-            north=elipse_bot,
-            east=elipse_top,
-            south=Line(p0=TT_mid, p1=TT_top),
-            west=Line(p0=TT_mid, p1=TT_bot),
-        )
+            interior_ellip = CoonsPatch(
+                north=elipse_bot,
+                east=elipse_top,
+                south=Line(p0=TT_mid, p1=TT_top),
+                west=Line(p0=TT_mid, p1=TT_bot),
+            )
 
-        # Rotate patch
-        interior_ellip = RotatedPatch(
-            interior_ellip, np.deg2rad(-90), axis="z", point=TT_mid
-        )
+            # Rotate patch
+            interior_ellip = RotatedPatch(
+                interior_ellip, np.deg2rad(-90), axis="z", point=TT_mid
+            )
 
         # Append to patch_dict
         self.patches["wing_close_top_patch0"] = interior_top_patch0
         self.patches["wing_close_top_patch1"] = interior_top_patch1
         self.patches["wing_close_bot_patch0"] = interior_bot_patch0
         self.patches["wing_close_bot_patch1"] = interior_bot_patch1
-        self.patches["interior_ellip"] = interior_ellip
+        if not flat_LE:
+            self.patches["interior_ellip"] = interior_ellip
 
         # Interior TE
         TE_point = Vector3(
-- 
2.43.0


From bcac4c06799105b93157d9f57fd8742dbd0293b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:23 +0000
Subject: [PATCH 14/54] fix: apply the parallel axis theorem to the full
 inertia matrix

---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 757d09c..44807c6 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -218,7 +218,7 @@ def assess_inertial_properties(
     for component in vehicle._named_components:
         m = masses[component]
         r = cgs[component] - composite_cog
-        I_adj = inertias[component] + m * r**2
+        I_adj = inertias[component] + m * (np.dot(r, r) * np.eye(3) - np.outer(r, r))
 
         shifted_inertias[component] = I_adj
         composite_inertia += I_adj
-- 
2.43.0


From 41a10011d68931c4b6b2a8ee9b4603b3a08a651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:23 +0000
Subject: [PATCH 15/54] fix: merge the STL files that were written

Merging looked for files named after the registry names, which are not
written when a prefix is used or a component is unnamed.
---
 src/hypervehicle/vehicle.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index e143201..50df6e7 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -334,6 +334,7 @@ class Vehicle:
                 print(f"{s}.")
 
         types_generated = {}
+        written_files = []
         for component in self.components:
             # Get component count
             no = types_generated.get(component.componenttype, 0)
@@ -355,6 +356,8 @@ class Vehicle:
                 print(f"  Writing: {stl_name}                 ", end="\r")
 
             component.to_stl(stl_name)
+            if not component._ghost:
+                written_files.append(stl_name)
 
             # Update component count
             types_generated[component.componenttype] = no + 1
@@ -410,13 +413,8 @@ class Vehicle:
                 if not prefix:
                     prefix = self.name
 
-                # Get component names (excluding ghost components)
-                filenames = []
-                for name, comp in self._named_components.items():
-                    if not comp._ghost:
-                        # Append
-                        filenames.append(f"{name}.stl")
-                utilities.merge_stls(stl_files=filenames, name=prefix)
+                # Merge written files (excluding ghost components)
+                utilities.merge_stls(stl_files=written_files, name=prefix)
 
         if self.verbosity > 0:
             print("\rAll components written to STL file format.", end="\n")
-- 
2.43.0


From 620e283fc35aa587eeb70900af19e417b9b31afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:23 +0000
Subject: [PATCH 16/54] fix: start from empty patches when generating a
 component again

Reflected patches of an earlier generation were kept and reflected again.
---
 src/hypervehicle/components/polygon.py  | 2 ++
 src/hypervehicle/components/revolved.py | 1 +
 src/hypervehicle/components/swept.py    | 1 +
 src/hypervehicle/components/wing.py     | 2 ++
 4 files changed, 6 insertions(+)

diff --git a/src/hypervehicle/components/polygon.py b/src/hypervehicle/components/polygon.py
index dffb940..baee45d 100644
--- a/src/hypervehicle/components/polygon.py
+++ b/src/hypervehicle/components/polygon.py
@@ -29,6 +29,7 @@ class Cube(Component):
         super().__init__(stl_resolution=stl_resolution, verbosity=verbosity, name=name)
 
     def generate_patches(self):
+        self.patches = {}
         faces = ["east", "west", "south", "north", "bottom", "top"]
         for face in faces:
             self.patches[face] = CubePatch(self.a, self.centre, face)
@@ -59,6 +60,7 @@ class Sphere(Component):
         super().__init__(stl_resolution=stl_resolution, verbosity=verbosity, name=name)
 
     def generate_patches(self):
+        self.patches = {}
         faces = ["east", "west", "south", "north", "bottom", "top"]
 
         for face in faces:
diff --git a/src/hypervehicle/components/revolved.py b/src/hypervehicle/components/revolved.py
index 26b2345..08b9a38 100644
--- a/src/hypervehicle/components/revolved.py
+++ b/src/hypervehicle/components/revolved.py
@@ -25,6 +25,7 @@ class RevolvedComponent(Component):
         super().__init__(stl_resolution=stl_resolution, verbosity=verbosity, name=name)
 
     def generate_patches(self):
+        self.patches = {}
         for i in range(4):
             self.patches[f"revolved_fuse_{i}"] = RevolvedPatch(
                 self.revolve_line, i * np.pi / 2, (i + 1) * np.pi / 2
diff --git a/src/hypervehicle/components/swept.py b/src/hypervehicle/components/swept.py
index 72dcfba..aabbd82 100644
--- a/src/hypervehicle/components/swept.py
+++ b/src/hypervehicle/components/swept.py
@@ -86,6 +86,7 @@ class SweptComponent(Component):
                 raise Exception(f"stl_resolution not compatible for close_end.")
 
     def generate_patches(self):
+        self.patches = {}
         for ne in range(self.n_edges):
             k = f"swept_patch_{ne}"
             edges = []
diff --git a/src/hypervehicle/components/wing.py b/src/hypervehicle/components/wing.py
index dc273f8..070e019 100644
--- a/src/hypervehicle/components/wing.py
+++ b/src/hypervehicle/components/wing.py
@@ -171,6 +171,8 @@ class Wing(Component):
         self.TE_mean_line = None
 
     def generate_patches(self):
+        self.patches = {}
+
         # Create wing planform shape
         self._create_planform_patches()
 
-- 
2.43.0


From 37bd0378642e2869f70d1dba5c51d815fa41b060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:23 +0000
Subject: [PATCH 17/54] fix: discard meshes of superseded patches

Generating again, or moving a component after its mesh was read, left the
old mesh in place, and surfacing at another resolution had no effect on it.
---
 src/hypervehicle/components/component.py | 12 ++++++++++++
 src/hypervehicle/vehicle.py              |  4 +++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 80cf98d..0cf422a 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -173,6 +173,7 @@ class Component(AbstractComponent):
 
     def curve(self):
         if self._curvatures is not None:
+            self._reset_mesh()
             for curvature in self._curvatures:
                 for key, patch in self.patches.items():
                     self.patches[key] = CurvedPatch(
@@ -205,11 +206,18 @@ class Component(AbstractComponent):
     def mesh(self, value):
         self._mesh = value
 
+    def _reset_mesh(self):
+        """Discards any surfaces and mesh made from superseded patches."""
+        self.surfaces = None
+        self._mesh = None
+
     def rotate(self, angle: float = 0, axis: str = "y"):
+        self._reset_mesh()
         for key, patch in self.patches.items():
             self.patches[key] = RotatedPatch(patch, np.deg2rad(angle), axis=axis)
 
     def translate(self, offset: Union[Callable, Vector3]):
+        self._reset_mesh()
         if isinstance(offset, Vector3):
             # Translate vector into lambda function
             offset_function = lambda x, y, z: offset
@@ -227,12 +235,15 @@ class Component(AbstractComponent):
 
     def apply_modifier(self):
         if self._modifier_function:
+            self._reset_mesh()
             for key, patch in self.patches.items():
                 self.patches[key] = OffsetPatchFunction(patch, self._modifier_function)
 
     def reflect(self, axis: str = None):
         axis = axis if axis is not None else self._reflection_axis
         if axis is not None:
+            self._reset_mesh()
+
             # Create mirrored patches
             mirrored_patches = {}
             for key, patch in self.patches.items():
@@ -294,6 +305,7 @@ class Component(AbstractComponent):
             return (key, surface)
 
         self.surfaces = {}
+        self._mesh = None
         if self._multiprocess is True:
             # Initialise surfaces and pool
             pool = Pool()
diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index 50df6e7..d7f31da 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -207,8 +207,10 @@ class Vehicle:
             if self.verbosity > 1:
                 print(f"  Generating patches for {component.componenttype} component.")
 
-            # Generate component patches
+            # Generate component patches, discarding any mesh of previous ones
             component.generate_patches()
+            component.surfaces = None
+            component.mesh = None
 
             # Apply the modifier function
             component.apply_modifier()
-- 
2.43.0


From 2ddee146b9dd65afccad53b749a8e3337cf6395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:23 +0000
Subject: [PATCH 18/54] fix: apply the options of the parts of a composite
 component

Curvature, reflection and transformation options given for a part were
stored but never applied.
---
 src/hypervehicle/components/composite.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hypervehicle/components/composite.py b/src/hypervehicle/components/composite.py
index 1b1b17f..bb1b672 100644
--- a/src/hypervehicle/components/composite.py
+++ b/src/hypervehicle/components/composite.py
@@ -123,6 +123,11 @@ class CompositeComponent(Component):
         for component in self.components:
             component.generate_patches()
 
+            # Apply the options provided with the component
+            component.curve()
+            component.reflect()
+            component.transform()
+
         # Merge patches
         merged = {}
         for ix, component in enumerate(self.components):
-- 
2.43.0


From 56db867110f387b34125478ed842744399f905c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:23 +0000
Subject: [PATCH 19/54] fix: wind all faces of cubes and spheres outwards

Three of the six faces pointed inwards, so the volume of the mesh vanished.
---
 src/hypervehicle/geometry/geometry.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index a6241c2..35494bf 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -809,19 +809,19 @@ class CubePatch(ParametricSurface):
             z = -1.0 + 2.0 * s
         elif self.face == "west":
             x = -1.0
-            y = -1.0 + 2.0 * r
-            z = -1.0 + 2.0 * s
+            y = -1.0 + 2.0 * s
+            z = -1.0 + 2.0 * r
         elif self.face == "south":
             x = -1.0 + 2.0 * r
             y = -1.0
             z = -1.0 + 2.0 * s
         elif self.face == "north":
-            x = -1.0 + 2.0 * r
+            x = -1.0 + 2.0 * s
             y = 1.0
-            z = -1.0 + 2.0 * s
+            z = -1.0 + 2.0 * r
         elif self.face == "bottom":
-            x = -1.0 + 2.0 * r
-            y = -1.0 + 2.0 * s
+            x = -1.0 + 2.0 * s
+            y = -1.0 + 2.0 * r
             z = -1.0
         elif self.face == "top":
             x = -1.0 + 2.0 * r
@@ -869,19 +869,19 @@ class SpherePatch(ParametricSurface):
             z = -1.0 + 2.0 * s
         elif self.face == "west":
             x = -1.0
-            y = -1.0 + 2.0 * r
-            z = -1.0 + 2.0 * s
+            y = -1.0 + 2.0 * s
+            z = -1.0 + 2.0 * r
         elif self.face == "south":
             x = -1.0 + 2.0 * r
             y = -1.0
             z = -1.0 + 2.0 * s
         elif self.face == "north":
-            x = -1.0 + 2.0 * r
+            x = -1.0 + 2.0 * s
             y = 1.0
-            z = -1.0 + 2.0 * s
+            z = -1.0 + 2.0 * r
         elif self.face == "bottom":
-            x = -1.0 + 2.0 * r
-            y = -1.0 + 2.0 * s
+            x = -1.0 + 2.0 * s
+            y = -1.0 + 2.0 * r
             z = -1.0
         elif self.face == "top":
             x = -1.0 + 2.0 * r
-- 
2.43.0


From 959e10f7ac8df1e20c846fa1f55b696ecb36fdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:23 +0000
Subject: [PATCH 20/54] fix: represent cube patches by their half-length

---
 src/hypervehicle/geometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index 35494bf..85fe344 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -799,7 +799,7 @@ class CubePatch(ParametricSurface):
 
     def __repr__(self):
         return "Cube: a = {}, centre = {}".format(
-            self.r, self.centre
+            self.a, self.centre
         ) + "face = {}".format(self.face)
 
     def __call__(self, r, s):
-- 
2.43.0


From d4590a93cbb5c8370e3d2c20838ef4076f0e6ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:23 +0000
Subject: [PATCH 21/54] fix: blend swept patches for any spacing and order of
 sections

Evaluating the end of a sweep could fail by rounding, and sections given in
descending order always failed.
---
 src/hypervehicle/geometry/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index 85fe344..34ee66d 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -632,6 +632,9 @@ class SweptPatch(ParametricSurface):
             The axis to sweep the cross sections along. Note that each cross
             section should vary along this axis. The default is "z".
         """
+        cross_sections = sorted(
+            cross_sections, key=lambda cs: getattr(cs(0, 0), sweep_axis)
+        )
         self.cross_sections = cross_sections
         self.section_origins = [getattr(cs(0, 0), sweep_axis) for cs in cross_sections]
         self._sweep_axis = sweep_axis
@@ -655,7 +658,7 @@ class SweptPatch(ParametricSurface):
 
         # Find index of bounding cross sections
         for i, lv in enumerate(self.section_origins):
-            if dist == self.section_origins[-1]:
+            if i == len(self.section_origins) - 1 or dist == self.section_origins[-1]:
                 i = len(self.section_origins) - 2
                 break
             elif lv <= dist < self.section_origins[i + 1]:
-- 
2.43.0


From dad03f0691115f78b48507c2884cdeb5fad571eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:23 +0000
Subject: [PATCH 22/54] fix: keep one sensitivity row per vertex for every
 parameter

Duplicate vertices were dropped per parameter, so parameters could keep
different rows and the combined table had missing values.
---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 44807c6..05fab82 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -593,7 +593,7 @@ class SensitivityStudy:
         df = df.merge(sensitivities, left_index=True, right_index=True)
 
         # Delete duplicate vertices
-        df = df[~df.duplicated()]
+        df = df[~df.duplicated(subset=["x", "y", "z"])]
 
         return df
 
-- 
2.43.0


From d85dd393ca98c70d24ee42ce72b26f478dbbac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:23 +0000
Subject: [PATCH 23/54] fix: exclude an earlier combined file by name in any
 directory

The list of files passed by the caller was also modified.
---
 src/hypervehicle/utilities.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 05fab82..e36f0d9 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -698,11 +698,9 @@ def append_sensitivities_to_tri(
     points_df = pd.DataFrame(points_data_list, columns=["x", "y", "z"]).dropna()
 
     # Ensure previous components sensitivity file is not included
-    try:
-        del dp_filenames[dp_filenames.index(combined_sens_fn)]
-    except ValueError:
-        # It is not in there
-        pass
+    dp_filenames = [
+        fn for fn in dp_filenames if os.path.basename(fn) != combined_sens_fn
+    ]
 
     # Load and concatenate sensitivity data across components
     dp_df = pd.DataFrame()
-- 
2.43.0


From d86362900753858ffdfbf67400905b061c9e82b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:23 +0000
Subject: [PATCH 24/54] fix: check mesh normals without the matching lines
 check

---
 src/hypervehicle/components/component.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 0cf422a..b23070a 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -419,6 +419,9 @@ class Component(AbstractComponent):
                     ),
                 )
             }
+        else:
+            return pass_flag
+
         undirected_edges = {frozenset((edge[:3], edge[3:])) for edge in directed_edges}
         edge_check = len(directed_edges) == 3 * mesh.data.size
         print(f"        len(directed_edges) == 3 * mesh.data.size")
-- 
2.43.0


From ddbfced16d3d0a0371fbdbced0b2f206ea0fee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:23 +0000
Subject: [PATCH 25/54] fix: place circle patches at the height of their centre

---
 src/hypervehicle/components/common.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/hypervehicle/components/common.py b/src/hypervehicle/components/common.py
index 7ed5bd9..f626071 100644
--- a/src/hypervehicle/components/common.py
+++ b/src/hypervehicle/components/common.py
@@ -29,12 +29,11 @@ def uniform_thickness_function(thickness: float, side: str):
 def circle_patch(centre: Vector3, r: float, plane: str = "xy") -> CoonsPatch:
     """Returns a parametric surface of a circle."""
     # TODO - planes other than xy
-    tr = Vector3(x=centre.x + r * np.cos(np.pi / 4), y=centre.y + r * np.sin(np.pi / 4))
-    tl = Vector3(x=centre.x - r * np.cos(np.pi / 4), y=centre.y + r * np.sin(np.pi / 4))
-    br = Vector3(x=centre.x + r * np.cos(np.pi / 4), y=centre.y - r * np.sin(np.pi / 4))
-    bl = Vector3(
-        x=centre.x - r * np.cos(np.pi / 4), y=centre.y + -r * np.sin(np.pi / 4)
-    )
+    d = r * np.cos(np.pi / 4)
+    tr = Vector3(x=centre.x + d, y=centre.y + d, z=centre.z)
+    tl = Vector3(x=centre.x - d, y=centre.y + d, z=centre.z)
+    br = Vector3(x=centre.x + d, y=centre.y - d, z=centre.z)
+    bl = Vector3(x=centre.x - d, y=centre.y - d, z=centre.z)
 
     n = Arc(a=tl, b=tr, c=centre)
     e = Arc(a=br, b=tr, c=centre)
-- 
2.43.0


From 3d8ceebc57dee420fb4fe8cfc2ae4727513bd614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:23 +0000
Subject: [PATCH 26/54] fix: allow fins with forward swept leading edges

The tip corner was located by its x coordinate, which fails when the
leading edge does not run forward from the tip to the root.
---
 src/hypervehicle/components/fin.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/fin.py b/src/hypervehicle/components/fin.py
index 1a3d573..66d8b73 100644
--- a/src/hypervehicle/components/fin.py
+++ b/src/hypervehicle/components/fin.py
@@ -202,7 +202,11 @@ class Fin(Component):
 
         # Find Locations
         fun_B1 = lambda t: p1p3(t).x - p2.x
-        t_B1 = round(bisect(fun_B1, 0.0, 1.0), 6)
+        if fun_B1(0.0) * fun_B1(1.0) > 0:
+            # Forward swept leading edge, use the joint of the segments
+            t_B1 = round(p1p3.t_values[1], 6)
+        else:
+            t_B1 = round(bisect(fun_B1, 0.0, 1.0), 6)
         t_B2 = 1
 
         LE_top_patch = [np.nan, np.nan, np.nan]
-- 
2.43.0


From 728c053f0252fa88b1b0e7db5bdae3b6d9df06d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:21 +0000
Subject: [PATCH 27/54] fix: sum the facet areas to a scalar

The areas are a column array, whose sum is an array that current NumPy
versions refuse to convert to a float.
---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index e36f0d9..24115c5 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -192,7 +192,7 @@ def assess_inertial_properties(
         )
 
         # Also calculate surface area
-        area = float(sum(component.mesh.areas))
+        area = float(np.sum(component.mesh.areas))
 
         # Save component result
         volumes[name] = volume
-- 
2.43.0


From 6d1fc2170652b5a58f042ae4cd207962ec79acd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:10 +0000
Subject: [PATCH 28/54] fix: keep parameter names containing dxd when appending
 sensitivities

---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 24115c5..0509f10 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -712,7 +712,7 @@ def append_sensitivities_to_tri(
     parameters = []
     param_cols = dp_df.columns[3:]
     for i in range(int(len(param_cols) / 3)):
-        parameters.append(param_cols[int(i * 3)].split("dxd")[-1])
+        parameters.append(param_cols[int(i * 3)][len("dxd") :])
 
     # Match points_df to sensitivity df
     if verbosity > 0:
-- 
2.43.0


From 925e6ef2ddc1ab27197d49e3514b9aa4121faee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:18 +0000
Subject: [PATCH 29/54] fix: round a copy of the matched sensitivities

---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 0509f10..51e19d5 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -732,7 +732,7 @@ def append_sensitivities_to_tri(
         match = match_x & match_y & match_z
         try:
             # TODO - what if there are multiple matches? (due to intersect perturbations)
-            matched_data = dp_df[match].iloc[0][param_cols].values
+            matched_data = dp_df[match].iloc[0][param_cols].to_numpy(copy=True)
 
             # Round off infinitesimally small values
             matched_data[abs(matched_data) < rounding_tolerance] = 0
-- 
2.43.0


From 5e254101cb031fea8486f3ba9c94d5c3b6945dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:28:49 +0000
Subject: [PATCH 30/54] fix: count a polyline point next to a breakpoint only
 once

---
 src/hypervehicle/geometry/path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypervehicle/geometry/path.py b/src/hypervehicle/geometry/path.py
index 8f9a6f1..b421e25 100644
--- a/src/hypervehicle/geometry/path.py
+++ b/src/hypervehicle/geometry/path.py
@@ -127,11 +127,11 @@ class Polyline(Path):
         for i, tl, tu in zip(range(n), self.t_values[:-1], self.t_values[1:]):
             t_local = (t - tl) / (tu - tl)
             if i == 0:
-                isokay = t_local <= 1.0
+                isokay = t <= tu
             elif i == n - 1:
-                isokay = t_local > 0.0
+                isokay = t > tl
             else:
-                isokay = np.logical_and(t_local > 0.0, t_local <= 1.0)
+                isokay = np.logical_and(t > tl, t <= tu)
             f += self.segments[i](t_local) * isokay
         return f
 
-- 
2.43.0


From 0df06b420c9a071488a4ff6366590e2ad900e4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:38:38 +0000
Subject: [PATCH 31/54] fix: recompute the facet normals after repairing a mesh

---
 src/hypervehicle/components/component.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index b23070a..c9b1b64 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -518,3 +518,4 @@ class Component(AbstractComponent):
         mesh.v0 = vectors[0:N_faces, :]
         mesh.v1 = vectors[N_faces : 2 * N_faces, :]
         mesh.v2 = vectors[2 * N_faces : 3 * N_faces, :]
+        mesh.update_normals()
-- 
2.43.0


From 152e9f90f45c26604cb79631b8ce3a135db3146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:12:24 +0000
Subject: [PATCH 32/54] fix: subgrids of a structured grid can be made

subgrid() passed an argument the constructor does not have and always raised.
---
 src/hypervehicle/geometry/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypervehicle/geometry/surface.py b/src/hypervehicle/geometry/surface.py
index 53ef201..ff43561 100644
--- a/src/hypervehicle/geometry/surface.py
+++ b/src/hypervehicle/geometry/surface.py
@@ -1,5 +1,5 @@
 import numpy as np
-from copy import deepcopy
+from copy import copy, deepcopy
 from typing import Optional
 from abc import ABC, abstractmethod
 from hypervehicle.geometry.path import ClusterFunction, LinearFunction, Line, Path
@@ -206,7 +206,7 @@ class StructuredGrid:
         Returns a copy of a subgrid of vertices.
         Start at vertex i0,j0,k0 and extend for niv,njv,nkv vertices.
         """
-        new_grid = StructuredGrid(empty=True)
+        new_grid = copy(self)
         if self.dimensions == 3:
             new_xs = self.vertices.x[i0 : i0 + niv, j0 : j0 + njv, k0 : k0 + nkv].copy()
             new_ys = self.vertices.y[i0 : i0 + niv, j0 : j0 + njv, k0 : k0 + nkv].copy()
-- 
2.43.0


From 44a8e502c2cc1d1f44054b10818645ff283c3399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:56 +0000
Subject: [PATCH 33/54] fix: merging the files of a silent vehicle prints
 nothing

---
 src/hypervehicle/vehicle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index d7f31da..fc37894 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -416,7 +416,9 @@ class Vehicle:
                     prefix = self.name
 
                 # Merge written files (excluding ghost components)
-                utilities.merge_stls(stl_files=written_files, name=prefix)
+                utilities.merge_stls(
+                    stl_files=written_files, name=prefix, verbosity=self.verbosity
+                )
 
         if self.verbosity > 0:
             print("\rAll components written to STL file format.", end="\n")
-- 
2.43.0


From d655120d940f64448f2c66484b8ae105aaf00462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:25:25 +0000
Subject: [PATCH 34/54] fix: show the right corners of a Coons patch

---
 src/hypervehicle/geometry/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/surface.py b/src/hypervehicle/geometry/surface.py
index ff43561..6d1f640 100644
--- a/src/hypervehicle/geometry/surface.py
+++ b/src/hypervehicle/geometry/surface.py
@@ -90,7 +90,7 @@ class CoonsPatch(ParametricSurface):
     def __repr__(self):
         str = "CoonsPatch("
         if self.defined_by_corners:
-            str += f"p00={self.p00}, p10={self.p10}, p11={self.p10}, p01={self.p10}"
+            str += f"p00={self.p00}, p10={self.p10}, p11={self.p11}, p01={self.p01}"
         else:
             str += f"north={self.north}, east={self.east}, south={self.south}, west={self.west}"
         str += f", offset={self.offset})"
-- 
2.43.0


From f416b488602c362e0ee7491da9a4f1b58791b6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:25:25 +0000
Subject: [PATCH 35/54] fix: store the tags of a structured grid as given

---
 src/hypervehicle/geometry/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/surface.py b/src/hypervehicle/geometry/surface.py
index 6d1f640..281286d 100644
--- a/src/hypervehicle/geometry/surface.py
+++ b/src/hypervehicle/geometry/surface.py
@@ -160,7 +160,7 @@ class StructuredGrid:
             for cf in cf_list
         ]
         self.generate(surface, niv, njv, cf_list)
-        self.tags = (tags if tags is not None else ["", "", "", ""],)
+        self.tags = tags if tags is not None else ["", "", "", ""]
         self.label = label
 
     def __repr__(self):
-- 
2.43.0


From 35154ceefe84941c4ee51c5cde3d3269c8bb200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:25:25 +0000
Subject: [PATCH 36/54] fix: print vectors whose coordinates are arrays

---
 src/hypervehicle/geometry/vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index c65aeab..775696f 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -42,7 +42,7 @@ class Vector3:
 
     def __str__(self) -> str:
         round_non_none = [
-            str(round(i, self.PRECISION))
+            str(np.round(i, self.PRECISION))
             for i in [self._x, self._y, self._z]
             if i is not None
         ]
@@ -52,7 +52,7 @@ class Vector3:
 
     def __repr__(self) -> str:
         round_non_none = [
-            str(round(i, self.PRECISION))
+            str(np.round(i, self.PRECISION))
             for i in [self._x, self._y, self._z]
             if i is not None
         ]
-- 
2.43.0


From c7b4ce5f805c5e37e131343ee12045dec85d006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:25:25 +0000
Subject: [PATCH 37/54] fix: name sub-ranged and reversed paths by their own
 class

---
 src/hypervehicle/geometry/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index 34ee66d..4edb181 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -21,12 +21,12 @@ class SubRangedPath(Path):
             raise NotImplementedError("underlying_path should be a type of Path")
 
     def __repr__(self) -> str:
-        return "ArcLengthParameterizedPath(underlying_path={}, t0={}, t1={})".format(
-            self.underlying_path, self.t0, self.t1
+        return "{}(underlying_path={}, t0={}, t1={})".format(
+            type(self).__name__, self.underlying_path, self.t0, self.t1
         )
 
     def __str__(self) -> str:
-        return "ArcLengthParameterizedPath"
+        return type(self).__name__
 
     def __call__(self, t):
         t_dash = self.t0 + t * (self.t1 - self.t0)
-- 
2.43.0


From 332b56ab948108fa0256f0cc6963be1cd61df6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:25:25 +0000
Subject: [PATCH 38/54] fix: scaling a vector leaves arrays it shares with
 others alone

---
 src/hypervehicle/geometry/vector.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index 775696f..ebba8d5 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -126,9 +126,9 @@ class Vector3:
     def __imul__(self, other):
         """Returns self *= other number."""
         if isinstance(other, (float, int, np.number, np.ndarray)):
-            self._x *= other
-            self._y *= other
-            self._z *= other
+            self._x = self._x * other
+            self._y = self._y * other
+            self._z = self._z * other
             return self
         else:
             return NotImplemented
@@ -136,9 +136,9 @@ class Vector3:
     def __itruediv__(self, other):
         """Returns self /= other number."""
         if isinstance(other, (float, int, np.number, np.ndarray)):
-            self._x /= other
-            self._y /= other
-            self._z /= other
+            self._x = self._x / other
+            self._y = self._y / other
+            self._z = self._z / other
             return self
         else:
             return NotImplemented
-- 
2.43.0


From bb427522778c78f4f0d02e1a73d62026a78e173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:42:14 +0000
Subject: [PATCH 39/54] fix: keep the parts of a silent composite component
 silent

---
 src/hypervehicle/components/composite.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hypervehicle/components/composite.py b/src/hypervehicle/components/composite.py
index bb1b672..8f602d6 100644
--- a/src/hypervehicle/components/composite.py
+++ b/src/hypervehicle/components/composite.py
@@ -121,6 +121,10 @@ class CompositeComponent(Component):
     def generate_patches(self):
         # Generate child patches
         for component in self.components:
+            if self.verbosity == 0:
+                # A silent composite has silent parts
+                component.verbosity = 0
+
             component.generate_patches()
 
             # Apply the options provided with the component
-- 
2.43.0


From 82fd765f98cf537ce561901cc2fa4a54121ad232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:42:14 +0000
Subject: [PATCH 40/54] fix: silence components when a vehicle silenced after
 adding them is generated

---
 src/hypervehicle/vehicle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index fc37894..b498afd 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -206,6 +206,9 @@ class Vehicle:
         for component in self.components:
             if self.verbosity > 1:
                 print(f"  Generating patches for {component.componenttype} component.")
+            elif self.verbosity == 0:
+                # A silent vehicle has silent components
+                component.verbosity = 0
 
             # Generate component patches, discarding any mesh of previous ones
             component.generate_patches()
-- 
2.43.0


From 5443636878851ace7774960fb2056aa72a75c6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:44:39 +0000
Subject: [PATCH 41/54] fix: apply clustering options given after a component
 was meshed

---
 src/hypervehicle/components/component.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index c9b1b64..95f9283 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -373,6 +373,10 @@ class Component(AbstractComponent):
         j_clustering_func : Callable, optional
             The clustering function in the j direction. The default is None.
         """
+        if i_clustering_func or j_clustering_func:
+            # Discard any mesh made without these options
+            self._reset_mesh()
+
         if i_clustering_func:
             self._clustering.update({"i_clustering_func": i_clustering_func})
 
-- 
2.43.0


From 271e9739556ef9a96bf3d89c4c0023cc8c40ff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:38:17 +0000
Subject: [PATCH 42/54] fix: keep a translated component in place when the
 vector given is changed

---
 src/hypervehicle/components/component.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 95f9283..4c8cdf6 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -220,7 +220,8 @@ class Component(AbstractComponent):
         self._reset_mesh()
         if isinstance(offset, Vector3):
             # Translate vector into lambda function
-            offset_function = lambda x, y, z: offset
+            fixed_offset = Vector3(offset)
+            offset_function = lambda x, y, z: fixed_offset
         else:
             offset_function = offset
 
-- 
2.43.0


From ad4dae3d36f6e4c02abc3a7a64b5c6bc9e70a602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:38:17 +0000
Subject: [PATCH 43/54] fix: keep a component's options when the lists given
 for them are changed

---
 src/hypervehicle/components/composite.py | 4 ++--
 src/hypervehicle/vehicle.py              | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hypervehicle/components/composite.py b/src/hypervehicle/components/composite.py
index 8f602d6..c4c112f 100644
--- a/src/hypervehicle/components/composite.py
+++ b/src/hypervehicle/components/composite.py
@@ -102,7 +102,7 @@ class CompositeComponent(Component):
 
             # Add component curvature functions
             if curvatures is not None:
-                component._curvatures = curvatures
+                component._curvatures = list(curvatures)
 
             # Add component clustering
             if clustering is not None:
@@ -110,7 +110,7 @@ class CompositeComponent(Component):
 
             # Add transformations
             if transformations is not None:
-                component._transformations = transformations
+                component._transformations = list(transformations)
 
             # Add component
             self.components.append(component)
diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index b498afd..d255638 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -150,7 +150,7 @@ class Vehicle:
 
             # Add component curvature functions
             if curvatures is not None:
-                component._curvatures = curvatures
+                component._curvatures = list(curvatures)
 
             # Add component clustering
             if clustering is not None:
@@ -158,7 +158,7 @@ class Vehicle:
 
             # Add transformations
             if transformations is not None:
-                component._transformations = transformations
+                component._transformations = list(transformations)
 
             # Add modifier function
             if modifier_function is not None:
-- 
2.43.0


From e12865dce28783d63efb12bf5d38de513661508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:38:17 +0000
Subject: [PATCH 44/54] fix: leave the clustering options given for a part of a
 composite unchanged

---
 src/hypervehicle/components/composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/composite.py b/src/hypervehicle/components/composite.py
index c4c112f..a00fa4c 100644
--- a/src/hypervehicle/components/composite.py
+++ b/src/hypervehicle/components/composite.py
@@ -106,7 +106,7 @@ class CompositeComponent(Component):
 
             # Add component clustering
             if clustering is not None:
-                component._clustering = clustering
+                component._clustering = dict(clustering)
 
             # Add transformations
             if transformations is not None:
-- 
2.43.0


From d1b1a0a679be5e9f7b301bfa5eda76966788ca87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:38:17 +0000
Subject: [PATCH 45/54] fix: keep the displacement of a Coons patch when the
 vector given is changed

---
 src/hypervehicle/geometry/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/surface.py b/src/hypervehicle/geometry/surface.py
index 281286d..6e16489 100644
--- a/src/hypervehicle/geometry/surface.py
+++ b/src/hypervehicle/geometry/surface.py
@@ -85,7 +85,7 @@ class CoonsPatch(ParametricSurface):
             raise Exception(
                 "CoonsPatch should be defined by four edge paths or four corners."
             )
-        self.offset = offset
+        self.offset = Vector3(offset)
 
     def __repr__(self):
         str = "CoonsPatch("
-- 
2.43.0


From 7476f8e30ce9caf5293b7f9b2c22465a1b52ae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:38:17 +0000
Subject: [PATCH 46/54] fix: give each grid its own list of tags

---
 src/hypervehicle/geometry/surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/surface.py b/src/hypervehicle/geometry/surface.py
index 6e16489..823ddf3 100644
--- a/src/hypervehicle/geometry/surface.py
+++ b/src/hypervehicle/geometry/surface.py
@@ -160,7 +160,7 @@ class StructuredGrid:
             for cf in cf_list
         ]
         self.generate(surface, niv, njv, cf_list)
-        self.tags = tags if tags is not None else ["", "", "", ""]
+        self.tags = list(tags) if tags is not None else ["", "", "", ""]
         self.label = label
 
     def __repr__(self):
@@ -207,6 +207,7 @@ class StructuredGrid:
         Start at vertex i0,j0,k0 and extend for niv,njv,nkv vertices.
         """
         new_grid = copy(self)
+        new_grid.tags = list(self.tags)
         if self.dimensions == 3:
             new_xs = self.vertices.x[i0 : i0 + niv, j0 : j0 + njv, k0 : k0 + nkv].copy()
             new_ys = self.vertices.y[i0 : i0 + niv, j0 : j0 + njv, k0 : k0 + nkv].copy()
-- 
2.43.0


From f1b0e9a0085ea6336851f1dc518188a6524c0f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:38:17 +0000
Subject: [PATCH 47/54] fix: return a new point when evaluating a one-point
 Bezier curve

---
 src/hypervehicle/geometry/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/path.py b/src/hypervehicle/geometry/path.py
index b421e25..275ef47 100644
--- a/src/hypervehicle/geometry/path.py
+++ b/src/hypervehicle/geometry/path.py
@@ -72,7 +72,7 @@ class Bezier(Path):
 
     def __call__(self, t):
         if len(self.B) == 1:
-            return self.B[0]
+            return Vector3(self.B[0])
         n_order = len(self.B) - 1
         # Apply de Casteljau's algorithm.
         Q = self.B.copy()  # work array will be overwritten
-- 
2.43.0


From 551ff667d35fd094d23437f5b9bf9b33f3385f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:29:35 +0000
Subject: [PATCH 48/54] fix: convert the CSV files of directories with brackets
 in their names

---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 51e19d5..b2cc780 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -838,7 +838,7 @@ def convert_all_csv_to_delaunay(directory: str = ""):
     # TODO - rename
     # TODO - docstrings
     # TODO - specify outdir
-    files = glob.glob(os.path.join(directory, "*.csv"))
+    files = glob.glob(os.path.join(glob.escape(directory), "*.csv"))
 
     if len(files) == 0:
         print(f"No CSV files in directory {directory}.")
-- 
2.43.0


From 0a23483b8e9f36b290bcf3b1934a0db2111bff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:29:35 +0000
Subject: [PATCH 49/54] fix: keep the whole stem of a CSV file when naming its
 converted file

---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index b2cc780..985a0c7 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -813,7 +813,7 @@ def csv_to_delaunay(filepath: str):
     from paraview.simple import CSVReader, TableToPoints, Delaunay3D, SaveData  # type: ignore
 
     root_dir = os.path.dirname(filepath)
-    prefix = filepath.split(os.sep)[-1].split(".csv")[0]
+    prefix = filepath.split(os.sep)[-1].removesuffix(".csv")
     savefilename = os.path.join(root_dir, f"{prefix}.vtu")
 
     # create a new 'CSV Reader'
-- 
2.43.0


From c331af490ef8aeb377568c28f594d8b0dbd36aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:29:35 +0000
Subject: [PATCH 50/54] fix: accept NumPy integers as STL resolution

---
 src/hypervehicle/components/component.py | 2 +-
 src/hypervehicle/components/swept.py     | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 4c8cdf6..f853e5c 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -284,7 +284,7 @@ class Component(AbstractComponent):
             )
 
         # Create case list
-        if isinstance(stl_resolution, int):
+        if isinstance(stl_resolution, (int, np.integer)):
             case_list = [
                 [k, patch, stl_resolution, stl_resolution]
                 for k, patch in self.patches.items()
diff --git a/src/hypervehicle/components/swept.py b/src/hypervehicle/components/swept.py
index aabbd82..8449b5c 100644
--- a/src/hypervehicle/components/swept.py
+++ b/src/hypervehicle/components/swept.py
@@ -1,3 +1,4 @@
+import numpy as np
 from typing import List, Dict, Optional, Union
 from hypervehicle.geometry.surface import CoonsPatch
 from hypervehicle.components.component import Component
@@ -94,7 +95,7 @@ class SweptComponent(Component):
                 edges.append(cs[ne])
             p = SweptPatchfromEdges(edges=edges)
             self.patches[k] = p
-            if isinstance(self.stl_resolution, int):
+            if isinstance(self.stl_resolution, (int, np.integer)):
                 self.patch_res_r[k] = self.stl_resolution
                 self.patch_res_s[k] = self.stl_resolution
             else:
@@ -110,7 +111,7 @@ class SweptComponent(Component):
             self.patches["swept_patch_end_0"] = CoonsPatch(
                 south=south, north=north, west=west, east=east
             )
-            if isinstance(self.stl_resolution, int):
+            if isinstance(self.stl_resolution, (int, np.integer)):
                 self.patch_res_r["swept_patch_end_0"] = self.stl_resolution
                 self.patch_res_s["swept_patch_end_0"] = self.stl_resolution
             else:
@@ -124,7 +125,7 @@ class SweptComponent(Component):
             self.patches["swept_patch_end_1"] = CoonsPatch(
                 south=south, north=north, west=west, east=east
             )
-            if isinstance(self.stl_resolution, int):
+            if isinstance(self.stl_resolution, (int, np.integer)):
                 self.patch_res_r["swept_patch_end_1"] = self.stl_resolution
                 self.patch_res_s["swept_patch_end_1"] = self.stl_resolution
             else:
-- 
2.43.0


From 2dd84693102e9c32e5d5a1ee2f8ad80cd9278660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:40:22 +0000
Subject: [PATCH 51/54] fix: create nested output directories for sensitivity
 files

---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 985a0c7..dea5f51 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -471,7 +471,7 @@ class SensitivityStudy:
 
             if not os.path.exists(outdir):
                 # Make the directory
-                os.mkdir(outdir)
+                os.makedirs(outdir)
 
             # Save sensitivity data for each component
             all_sens_data = pd.DataFrame()
-- 
2.43.0


From 11d70cefc4ca2edd81f4890837626aafc9aaca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:40:22 +0000
Subject: [PATCH 52/54] fix: create nested output directories when appending
 sensitivities

---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index dea5f51..91fb12b 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -680,7 +680,7 @@ def append_sensitivities_to_tri(
         # Desired outdir provided, check it exists
         if not os.path.exists(outdir):
             # Make the directory
-            os.mkdir(outdir)
+            os.makedirs(outdir)
 
     # TODO - rename to 'combine sensitivity' or "combine_comp_sens"
     # Parse .tri file
-- 
2.43.0


From 3153efaf84e6d3cd4ecbcbef565e24d9660797e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:40:22 +0000
Subject: [PATCH 53/54] fix: write property files when the STL prefix contains
 a directory

---
 src/hypervehicle/vehicle.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index d255638..03d723a 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -374,20 +374,21 @@ class Vehicle:
 
             # Make analysis results directory
             properties_dir = f"{prefix}_properties"
+            stem = os.path.basename(prefix)
             if not os.path.exists(properties_dir):
                 os.mkdir(properties_dir)
 
             # Write volume and mass to file
-            self._volmass.to_csv(os.path.join(properties_dir, f"{prefix}_volmass.csv"))
+            self._volmass.to_csv(os.path.join(properties_dir, f"{stem}_volmass.csv"))
 
             # Write c.o.g. to file
             self.analysis_results["cog"].tofile(
-                os.path.join(properties_dir, f"{prefix}_cog.txt"), sep=", "
+                os.path.join(properties_dir, f"{stem}_cog.txt"), sep=", "
             )
 
             # Write M.O.I. to file
             self.analysis_results["moi"].tofile(
-                os.path.join(properties_dir, f"{prefix}_moi.txt"), sep=", "
+                os.path.join(properties_dir, f"{stem}_moi.txt"), sep=", "
             )
 
         # Write user-defined vehicle properties
@@ -397,12 +398,13 @@ class Vehicle:
 
             # Make analysis results directory
             properties_dir = f"{prefix}_properties"
+            stem = os.path.basename(prefix)
             if not os.path.exists(properties_dir):
                 os.mkdir(properties_dir)
 
             # Write properties to file
             pd.Series(self.properties).to_csv(
-                os.path.join(properties_dir, f"{prefix}_properties.csv")
+                os.path.join(properties_dir, f"{stem}_properties.csv")
             )
 
         # Merge STL components
-- 
2.43.0


From 774dc5851e7a4978ef016045f340f302b923b822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:40:22 +0000
Subject: [PATCH 54/54] fix: evaluate polylines with segments of no length

---
 src/hypervehicle/geometry/path.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/path.py b/src/hypervehicle/geometry/path.py
index 275ef47..bff52be 100644
--- a/src/hypervehicle/geometry/path.py
+++ b/src/hypervehicle/geometry/path.py
@@ -125,7 +125,8 @@ class Polyline(Path):
         f *= 0.0
 
         for i, tl, tu in zip(range(n), self.t_values[:-1], self.t_values[1:]):
-            t_local = (t - tl) / (tu - tl)
+            # A segment without length is passed at once
+            t_local = (t - tl) / (tu - tl) if tu > tl else t - tl
             if i == 0:
                 isokay = t <= tu
             elif i == n - 1:
-- 
2.43.0

