From b092bfa243a2923c46c18e120d9ba938a534061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:21 +0000
Subject: [PATCH 01/21] fix: use the z component when mapping y back to the
 global frame

Vector3.transform_to_global_frame multiplied the second tangent's y by the
local y coordinate. Arcs outside the x-y plane were evaluated at the wrong
points.
---
 src/hypervehicle/geometry/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index 1f14705..fa9223d 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -205,7 +205,7 @@ class Vector3:
     ):
         """Change the coordinates from the local right-handed (RH) system at point c."""
         new_x = self.x * n.x + self.y * t1.x + self.z * t2.x
-        new_y = self.x * n.y + self.y * t1.y + self.y * t2.y
+        new_y = self.x * n.y + self.y * t1.y + self.z * t2.y
         new_z = self.x * n.z + self.y * t1.z + self.z * t2.z
         if c is not None:
             new_x += c.x
-- 
2.43.0


From 10512c5b83c60abf2f1bd11cef7136db4056f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:21 +0000
Subject: [PATCH 02/21] fix: close polylines with a segment that returns to the
 start

The closing segment of Polyline(closed=True) ran from the start to the end
of the path, so the path jumped and never came back to its first point.
---
 src/hypervehicle/geometry/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/path.py b/src/hypervehicle/geometry/path.py
index e3d6bc0..8f9a6f1 100644
--- a/src/hypervehicle/geometry/path.py
+++ b/src/hypervehicle/geometry/path.py
@@ -96,7 +96,7 @@ class Polyline(Path):
             p0 = self.segments[0](0.0)
             p1 = self.segments[-1](1.0)
             if abs(p1 - p0) > tolerance:
-                self.segments.append(Line(p0, p1))
+                self.segments.append(Line(p1, p0))
         self.reset_breakpoints()
 
     def reset_breakpoints(self):
-- 
2.43.0


From aba74b1e1c42e380a9f84fff2042be39fe27dde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:21 +0000
Subject: [PATCH 03/21] fix: use the j resolution for clustered vertices in the
 j direction

With different resolutions in each direction the mesh was truncated, or the
conversion failed with an index error.
---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index ebfa8b0..757d09c 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -74,7 +74,7 @@ def surfce_to_stl(
         r_list = default_vertex_func(lb=0.0, ub=1.0, steps=ni + 1, spacing=si)
 
     if j_clustering_func:
-        s_list = [j_clustering_func(i) for i in np.linspace(0, 1, ni + 1)]
+        s_list = [j_clustering_func(i) for i in np.linspace(0, 1, nj + 1)]
     else:
         s_list = default_vertex_func(lb=0.0, ub=1.0, steps=nj + 1, spacing=sj)
 
-- 
2.43.0


From bf34242a1881a93f6ff2da533c3dcbc0a103068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:21 +0000
Subject: [PATCH 04/21] fix: use the s resolution when meshing patches with
 per-edge resolutions

---
 src/hypervehicle/components/component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index b784f60..7fd3573 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -273,7 +273,7 @@ class Component(AbstractComponent):
             ]
         else:
             case_list = [
-                [k, patch, self.patch_res_r[k], self.patch_res_r[k]]
+                [k, patch, self.patch_res_r[k], self.patch_res_s[k]]
                 for k, patch in self.patches.items()
             ]
 
-- 
2.43.0


From bf97797bb4ac090202660c0df43b9fbdba5ea2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:22 +0000
Subject: [PATCH 05/21] fix: register resolutions for mirrored patches

Reflecting a component with per-edge resolutions made meshing fail with a
KeyError, because mirrored patches had no resolution.
---
 src/hypervehicle/components/component.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 7fd3573..b1544d6 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -236,7 +236,13 @@ class Component(AbstractComponent):
             # Create mirrored patches
             mirrored_patches = {}
             for key, patch in self.patches.items():
-                mirrored_patches[f"{key}_mirrored"] = MirroredPatch(patch, axis=axis)
+                mirrored_key = f"{key}_mirrored"
+                mirrored_patches[mirrored_key] = MirroredPatch(patch, axis=axis)
+
+                # Mirrored patches share the resolution of the original patch
+                if key in self.patch_res_r:
+                    self.patch_res_r[mirrored_key] = self.patch_res_r[key]
+                    self.patch_res_s[mirrored_key] = self.patch_res_s[key]
 
             # Now either add the reflected patches to the same component, or
             # replace the patches with their reflected versions
-- 
2.43.0


From 389f04b2291db9cd2a7639e0551b6bd6236a3561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:22 +0000
Subject: [PATCH 06/21] fix: apply child options when generating composite
 components

Curvatures, reflections and transformations passed to
CompositeComponent.add_component were stored but never applied.
---
 src/hypervehicle/components/composite.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hypervehicle/components/composite.py b/src/hypervehicle/components/composite.py
index 1b1b17f..f76a0b0 100644
--- a/src/hypervehicle/components/composite.py
+++ b/src/hypervehicle/components/composite.py
@@ -123,6 +123,11 @@ class CompositeComponent(Component):
         for component in self.components:
             component.generate_patches()
 
+            # Apply the options provided when the component was added
+            component.curve()
+            component.reflect()
+            component.transform()
+
         # Merge patches
         merged = {}
         for ix, component in enumerate(self.components):
-- 
2.43.0


From 1d0529f9d7e1cf1deb697d93439d669e2c9d7c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:22 +0000
Subject: [PATCH 07/21] fix: use the full parallel axis theorem for composite
 inertia

The shift term added m*r**2 to every row of the inertia matrix, which is not
the parallel axis term and left the matrix asymmetric.
---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 757d09c..44807c6 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -218,7 +218,7 @@ def assess_inertial_properties(
     for component in vehicle._named_components:
         m = masses[component]
         r = cgs[component] - composite_cog
-        I_adj = inertias[component] + m * r**2
+        I_adj = inertias[component] + m * (np.dot(r, r) * np.eye(3) - np.outer(r, r))
 
         shifted_inertias[component] = I_adj
         composite_inertia += I_adj
-- 
2.43.0


From a3a6a15d208109f5f11b23d1d386e520817938d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:22 +0000
Subject: [PATCH 08/21] fix: honour the t_B2 argument of Wing

Passing t_B2 set it to the value of t_B1.
---
 src/hypervehicle/components/wing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/wing.py b/src/hypervehicle/components/wing.py
index 498800d..9029269 100644
--- a/src/hypervehicle/components/wing.py
+++ b/src/hypervehicle/components/wing.py
@@ -163,7 +163,7 @@ class Wing(Component):
         if self.params["t_B2"] == None:
             self.t_B2 = 0.5 * (1 + self.t_B1)
         else:
-            self.t_B2 = self.params["t_B1"]
+            self.t_B2 = self.params["t_B2"]
 
         # Save other params
         self.TE_top = None
-- 
2.43.0


From d46a7baa2e35f7a2a6ddd4c8dffc58350032c35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:22 +0000
Subject: [PATCH 09/21] fix: orient all cube and sphere faces outwards

Three of the six faces had inward pointing normals, so the volume of the
closed meshes was wrong (zero for a cube).
---
 src/hypervehicle/geometry/geometry.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index 9e0919d..b14a17d 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -806,19 +806,19 @@ class CubePatch(ParametricSurface):
             z = -1.0 + 2.0 * s
         elif self.face == "west":
             x = -1.0
-            y = -1.0 + 2.0 * r
-            z = -1.0 + 2.0 * s
+            y = -1.0 + 2.0 * s
+            z = -1.0 + 2.0 * r
         elif self.face == "south":
             x = -1.0 + 2.0 * r
             y = -1.0
             z = -1.0 + 2.0 * s
         elif self.face == "north":
-            x = -1.0 + 2.0 * r
+            x = -1.0 + 2.0 * s
             y = 1.0
-            z = -1.0 + 2.0 * s
+            z = -1.0 + 2.0 * r
         elif self.face == "bottom":
-            x = -1.0 + 2.0 * r
-            y = -1.0 + 2.0 * s
+            x = -1.0 + 2.0 * s
+            y = -1.0 + 2.0 * r
             z = -1.0
         elif self.face == "top":
             x = -1.0 + 2.0 * r
@@ -866,19 +866,19 @@ class SpherePatch(ParametricSurface):
             z = -1.0 + 2.0 * s
         elif self.face == "west":
             x = -1.0
-            y = -1.0 + 2.0 * r
-            z = -1.0 + 2.0 * s
+            y = -1.0 + 2.0 * s
+            z = -1.0 + 2.0 * r
         elif self.face == "south":
             x = -1.0 + 2.0 * r
             y = -1.0
             z = -1.0 + 2.0 * s
         elif self.face == "north":
-            x = -1.0 + 2.0 * r
+            x = -1.0 + 2.0 * s
             y = 1.0
-            z = -1.0 + 2.0 * s
+            z = -1.0 + 2.0 * r
         elif self.face == "bottom":
-            x = -1.0 + 2.0 * r
-            y = -1.0 + 2.0 * s
+            x = -1.0 + 2.0 * s
+            y = -1.0 + 2.0 * r
             z = -1.0
         elif self.face == "top":
             x = -1.0 + 2.0 * r
-- 
2.43.0


From fb6c0f650dcedcdd715aa450af80f7ac394e00f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:22 +0000
Subject: [PATCH 10/21] fix: discard old patches when components are
 regenerated

Calling Vehicle.generate a second time reflected and transformed the
mirrored patches left behind by the first call.
---
 src/hypervehicle/components/polygon.py  | 6 ++++++
 src/hypervehicle/components/revolved.py | 3 +++
 src/hypervehicle/components/swept.py    | 3 +++
 src/hypervehicle/components/wing.py     | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/src/hypervehicle/components/polygon.py b/src/hypervehicle/components/polygon.py
index dffb940..5fb185e 100644
--- a/src/hypervehicle/components/polygon.py
+++ b/src/hypervehicle/components/polygon.py
@@ -29,6 +29,9 @@ class Cube(Component):
         super().__init__(stl_resolution=stl_resolution, verbosity=verbosity, name=name)
 
     def generate_patches(self):
+        # Discard patches from any previous generation
+        self.patches = {}
+
         faces = ["east", "west", "south", "north", "bottom", "top"]
         for face in faces:
             self.patches[face] = CubePatch(self.a, self.centre, face)
@@ -59,6 +62,9 @@ class Sphere(Component):
         super().__init__(stl_resolution=stl_resolution, verbosity=verbosity, name=name)
 
     def generate_patches(self):
+        # Discard patches from any previous generation
+        self.patches = {}
+
         faces = ["east", "west", "south", "north", "bottom", "top"]
 
         for face in faces:
diff --git a/src/hypervehicle/components/revolved.py b/src/hypervehicle/components/revolved.py
index 26b2345..a869c2f 100644
--- a/src/hypervehicle/components/revolved.py
+++ b/src/hypervehicle/components/revolved.py
@@ -25,6 +25,9 @@ class RevolvedComponent(Component):
         super().__init__(stl_resolution=stl_resolution, verbosity=verbosity, name=name)
 
     def generate_patches(self):
+        # Discard patches from any previous generation
+        self.patches = {}
+
         for i in range(4):
             self.patches[f"revolved_fuse_{i}"] = RevolvedPatch(
                 self.revolve_line, i * np.pi / 2, (i + 1) * np.pi / 2
diff --git a/src/hypervehicle/components/swept.py b/src/hypervehicle/components/swept.py
index 72dcfba..343c68f 100644
--- a/src/hypervehicle/components/swept.py
+++ b/src/hypervehicle/components/swept.py
@@ -86,6 +86,9 @@ class SweptComponent(Component):
                 raise Exception(f"stl_resolution not compatible for close_end.")
 
     def generate_patches(self):
+        # Discard patches from any previous generation
+        self.patches = {}
+
         for ne in range(self.n_edges):
             k = f"swept_patch_{ne}"
             edges = []
diff --git a/src/hypervehicle/components/wing.py b/src/hypervehicle/components/wing.py
index 9029269..a6e991f 100644
--- a/src/hypervehicle/components/wing.py
+++ b/src/hypervehicle/components/wing.py
@@ -171,6 +171,9 @@ class Wing(Component):
         self.TE_mean_line = None
 
     def generate_patches(self):
+        # Discard patches from any previous generation
+        self.patches = {}
+
         # Create wing planform shape
         self._create_planform_patches()
 
-- 
2.43.0


From 62252656c2d0c8b20e97a279ee5c6cc665c883ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:22 +0000
Subject: [PATCH 11/21] fix: discard cached meshes when the patches of a
 component change

Component.mesh returned the mesh from before the transformation.
---
 src/hypervehicle/components/component.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index b1544d6..82156a5 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -171,8 +171,14 @@ class Component(AbstractComponent):
             setattr(result, k, deepcopy(v, memo))
         return result
 
+    def _reset_mesh(self):
+        """Discards any mesh generated before the patches were modified."""
+        self.surfaces = None
+        self.mesh = None
+
     def curve(self):
         if self._curvatures is not None:
+            self._reset_mesh()
             for curvature in self._curvatures:
                 for key, patch in self.patches.items():
                     self.patches[key] = CurvedPatch(
@@ -206,6 +212,7 @@ class Component(AbstractComponent):
         self._mesh = value
 
     def rotate(self, angle: float = 0, axis: str = "y"):
+        self._reset_mesh()
         for key, patch in self.patches.items():
             self.patches[key] = RotatedPatch(patch, np.deg2rad(angle), axis=axis)
 
@@ -216,6 +223,8 @@ class Component(AbstractComponent):
         else:
             offset_function = offset
 
+        self._reset_mesh()
+
         # Could wrap it in a lambda if provided
         for key, patch in self.patches.items():
             self.patches[key] = OffsetPatchFunction(patch, offset_function)
@@ -227,12 +236,15 @@ class Component(AbstractComponent):
 
     def apply_modifier(self):
         if self._modifier_function:
+            self._reset_mesh()
             for key, patch in self.patches.items():
                 self.patches[key] = OffsetPatchFunction(patch, self._modifier_function)
 
     def reflect(self, axis: str = None):
         axis = self._reflection_axis if self._reflection_axis is not None else axis
         if axis is not None:
+            self._reset_mesh()
+
             # Create mirrored patches
             mirrored_patches = {}
             for key, patch in self.patches.items():
-- 
2.43.0


From 2f6d9ceeef4ba40546a236154faee34333fa3a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:22 +0000
Subject: [PATCH 12/21] fix: merge the STL files that were actually written

Vehicle.to_stl(merge=True) looked for <name>.stl, ignoring the prefix and
the default file names of unnamed components.
---
 src/hypervehicle/vehicle.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index e143201..f8e36e5 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -334,6 +334,7 @@ class Vehicle:
                 print(f"{s}.")
 
         types_generated = {}
+        stl_files = []
         for component in self.components:
             # Get component count
             no = types_generated.get(component.componenttype, 0)
@@ -355,6 +356,8 @@ class Vehicle:
                 print(f"  Writing: {stl_name}                 ", end="\r")
 
             component.to_stl(stl_name)
+            if not component._ghost:
+                stl_files.append(stl_name)
 
             # Update component count
             types_generated[component.componenttype] = no + 1
@@ -410,13 +413,8 @@ class Vehicle:
                 if not prefix:
                     prefix = self.name
 
-                # Get component names (excluding ghost components)
-                filenames = []
-                for name, comp in self._named_components.items():
-                    if not comp._ghost:
-                        # Append
-                        filenames.append(f"{name}.stl")
-                utilities.merge_stls(stl_files=filenames, name=prefix)
+                # Merge the files written above (excludes ghost components)
+                utilities.merge_stls(stl_files=stl_files, name=prefix)
 
         if self.verbosity > 0:
             print("\rAll components written to STL file format.", end="\n")
-- 
2.43.0


From 3026d7fff5e34df26da8394c2b538694ab406695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:22 +0000
Subject: [PATCH 13/21] fix: fall back to division when in-place division is
 not supported

Vector3.__itruediv__ returned the NotImplementedError class, so dividing in
place by e.g. a numpy float32 replaced the vector with that class.
---
 src/hypervehicle/geometry/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index fa9223d..1fbdeb6 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -141,7 +141,7 @@ class Vector3:
             self._z /= other
             return self
         else:
-            return NotImplementedError
+            return NotImplemented
 
     def __abs__(self):
         """Returns magnitude."""
-- 
2.43.0


From 008023a270fb4f2dfc2db5c1bf040bed690d5e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:22 +0000
Subject: [PATCH 14/21] fix: return a copy of the point for single point Bezier
 curves

The control point itself was returned, so changing the result in place
changed the curve.
---
 src/hypervehicle/geometry/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/path.py b/src/hypervehicle/geometry/path.py
index 8f9a6f1..9ad8be5 100644
--- a/src/hypervehicle/geometry/path.py
+++ b/src/hypervehicle/geometry/path.py
@@ -72,7 +72,7 @@ class Bezier(Path):
 
     def __call__(self, t):
         if len(self.B) == 1:
-            return self.B[0]
+            return Vector3(self.B[0])
         n_order = len(self.B) - 1
         # Apply de Casteljau's algorithm.
         Q = self.B.copy()  # work array will be overwritten
-- 
2.43.0


From 07e98e50088415086f7039c7b21b96b6f180c68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:20:11 +0000
Subject: [PATCH 15/21] fix: sum mesh areas without converting a one-element
 array

The area of a component was the Python sum of an (n, 1) array, and recent
numpy versions refuse to convert the resulting array to a float. Analysing a
vehicle failed for every input.
---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 44807c6..dd1c651 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -192,7 +192,7 @@ def assess_inertial_properties(
         )
 
         # Also calculate surface area
-        area = float(sum(component.mesh.areas))
+        area = float(np.sum(component.mesh.areas))
 
         # Save component result
         volumes[name] = volume
-- 
2.43.0


From 0dcc8862d4578c0dc1cdca71df064f7284b056c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:07:55 +0000
Subject: [PATCH 16/21] fix: keep vertices of combined sensitivities aligned
 across parameters

Duplicate vertices were dropped per parameter before the parameters were
joined.  A vertex dropped for one parameter but kept for another ended up
as a row without coordinates.  Drop duplicates after joining instead.
---
 src/hypervehicle/utilities.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index dd1c651..b4104b5 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -366,6 +366,7 @@ class SensitivityStudy:
             print("    Parameters: ", parameter_dict.keys())
 
         sensitivities = {}
+        vertex_sens = {}
         analysis_sens = {}
         component_analysis_sens = {}
         property_sens = {}
@@ -374,6 +375,7 @@ class SensitivityStudy:
                 print(f"    Generating for {parameter}.")
 
             sensitivities[parameter] = {}
+            vertex_sens[parameter] = {}
 
             # Create copy
             adjusted_parameters = parameter_dict.copy()
@@ -427,7 +429,12 @@ class SensitivityStudy:
                     parameter,
                 )
 
-                sensitivities[parameter][component] = sensitivity_df
+                vertex_sens[parameter][component] = sensitivity_df
+
+                # Delete duplicate vertices
+                sensitivities[parameter][component] = sensitivity_df[
+                    ~sensitivity_df.duplicated()
+                ]
 
         if self.verbosity > 0:
             print("    Done.")
@@ -437,7 +444,7 @@ class SensitivityStudy:
         self.scalar_sensitivities = analysis_sens
         self.component_scalar_sensitivities = component_analysis_sens
         self.property_sensitivities = property_sens
-        self.component_sensitivities = self._combine(nominal_instance, sensitivities)
+        self.component_sensitivities = self._combine(nominal_instance, vertex_sens)
         self.nominal_vehicle_instance = nominal_instance
 
         if self.verbosity > 0:
@@ -592,9 +599,6 @@ class SensitivityStudy:
         # Merge dataframes
         df = df.merge(sensitivities, left_index=True, right_index=True)
 
-        # Delete duplicate vertices
-        df = df[~df.duplicated()]
-
         return df
 
     @staticmethod
@@ -612,7 +616,9 @@ class SensitivityStudy:
                 ]
                 df = pd.concat([df, p_s], axis=1)
 
-            allsens[component] = df
+            # Delete duplicate vertices, now that the rows of all parameters
+            # have been matched
+            allsens[component] = df[~df.duplicated()]
 
         return allsens
 
-- 
2.43.0


From 1d15ea5afc1f31d92f28a7294e81a7e8771c0d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:28:34 +0000
Subject: [PATCH 17/21] fix: copy matched sensitivities before rounding them

Appending sensitivities to a triangulation rounds small values of the
matched row in place.  Recent pandas returns a read-only array there, so
every call with a matching point failed.
---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index b4104b5..5189ac5 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -740,7 +740,7 @@ def append_sensitivities_to_tri(
         match = match_x & match_y & match_z
         try:
             # TODO - what if there are multiple matches? (due to intersect perturbations)
-            matched_data = dp_df[match].iloc[0][param_cols].values
+            matched_data = dp_df[match].iloc[0][param_cols].to_numpy(copy=True)
 
             # Round off infinitesimally small values
             matched_data[abs(matched_data) < rounding_tolerance] = 0
-- 
2.43.0


From 543c9bc8317be7cfba76a3f0feda5fcc7b637e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:38:55 +0000
Subject: [PATCH 18/21] fix: keep existing patches when a component is
 reflected again

A second reflection reused the name of the first mirrored patch and replaced it.
---
 src/hypervehicle/components/component.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 82156a5..4953008 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -249,6 +249,8 @@ class Component(AbstractComponent):
             mirrored_patches = {}
             for key, patch in self.patches.items():
                 mirrored_key = f"{key}_mirrored"
+                while mirrored_key in self.patches or mirrored_key in mirrored_patches:
+                    mirrored_key += "_mirrored"
                 mirrored_patches[mirrored_key] = MirroredPatch(patch, axis=axis)
 
                 # Mirrored patches share the resolution of the original patch
-- 
2.43.0


From 25c6cc3fc9d9d0f4bd55498da28ebb80115a0976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:51:17 +0000
Subject: [PATCH 19/21] fix: place circle patches at the height of their centre

The corners were always put at z = 0, so a circle whose centre has another
height was not flat and not of the given radius.
---
 src/hypervehicle/components/common.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/hypervehicle/components/common.py b/src/hypervehicle/components/common.py
index 7ed5bd9..2ef2c16 100644
--- a/src/hypervehicle/components/common.py
+++ b/src/hypervehicle/components/common.py
@@ -29,11 +29,25 @@ def uniform_thickness_function(thickness: float, side: str):
 def circle_patch(centre: Vector3, r: float, plane: str = "xy") -> CoonsPatch:
     """Returns a parametric surface of a circle."""
     # TODO - planes other than xy
-    tr = Vector3(x=centre.x + r * np.cos(np.pi / 4), y=centre.y + r * np.sin(np.pi / 4))
-    tl = Vector3(x=centre.x - r * np.cos(np.pi / 4), y=centre.y + r * np.sin(np.pi / 4))
-    br = Vector3(x=centre.x + r * np.cos(np.pi / 4), y=centre.y - r * np.sin(np.pi / 4))
+    tr = Vector3(
+        x=centre.x + r * np.cos(np.pi / 4),
+        y=centre.y + r * np.sin(np.pi / 4),
+        z=centre.z,
+    )
+    tl = Vector3(
+        x=centre.x - r * np.cos(np.pi / 4),
+        y=centre.y + r * np.sin(np.pi / 4),
+        z=centre.z,
+    )
+    br = Vector3(
+        x=centre.x + r * np.cos(np.pi / 4),
+        y=centre.y - r * np.sin(np.pi / 4),
+        z=centre.z,
+    )
     bl = Vector3(
-        x=centre.x - r * np.cos(np.pi / 4), y=centre.y + -r * np.sin(np.pi / 4)
+        x=centre.x - r * np.cos(np.pi / 4),
+        y=centre.y + -r * np.sin(np.pi / 4),
+        z=centre.z,
     )
 
     n = Arc(a=tl, b=tr, c=centre)
-- 
2.43.0


From 5985c8e73218156ef39d0a1e91879033b273bcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:21:57 +0000
Subject: [PATCH 20/21] fix: remake the mesh after surfaces are generated again

---
 src/hypervehicle/components/component.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 4953008..3cbe78a 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -308,6 +308,7 @@ class Component(AbstractComponent):
             return (key, surface)
 
         self.surfaces = {}
+        self.mesh = None  # any mesh made from previous surfaces is outdated
         if self._multiprocess is True:
             # Initialise surfaces and pool
             pool = Pool()
-- 
2.43.0


From b85af33665e391f1f5b410abb79906daa064e325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:21:57 +0000
Subject: [PATCH 21/21] fix: allow the mesh check without the matching lines
 test

---
 src/hypervehicle/components/component.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 3cbe78a..c743efa 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -404,6 +404,9 @@ class Component(AbstractComponent):
                 print(f"      FAIL")
                 pass_flag = False
 
+        if not matching_lines:
+            return pass_flag
+
         if matching_lines:
             print(f"    Matching Lines Check")
             reversed_triangles = (
-- 
2.43.0

