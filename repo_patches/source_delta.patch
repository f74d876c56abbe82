From 6ffbb67d6a1a28a64ccd4fc43ce0716f46925865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 01/54] fix: surface integrals of yz, xz and xy over a triangle

---
 meshmagick/mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index c410b32..9792da2 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -2087,9 +2087,9 @@ class Mesh(object):
 
         s_int[0:3] = np.einsum('i, ij -> ji', delta, f1) / 6.
 
-        s_int[3] = delta * (6.*point_0.y*point_0.z + 3*(point_1.y*point_1.z + point_2.y*point_2.z) - point_0.y*f1[:, 2] - point_0.z*f1[:, 1]) / 12.
-        s_int[4] = delta * (6.*point_0.x*point_0.z + 3*(point_1.x*point_1.z + point_2.x*point_2.z) - point_0.x*f1[:, 2] - point_0.z*f1[:, 0]) / 12.
-        s_int[5] = delta * (6.*point_0.x*point_0.y + 3*(point_1.x*point_1.y + point_2.x*point_2.y) - point_0.x*f1[:, 1] - point_0.y*f1[:, 0]) / 12.
+        s_int[3] = delta * (f1[:, 1]*f1[:, 2] + point_0.y*point_0.z + point_1.y*point_1.z + point_2.y*point_2.z) / 24.
+        s_int[4] = delta * (f1[:, 0]*f1[:, 2] + point_0.x*point_0.z + point_1.x*point_1.z + point_2.x*point_2.z) / 24.
+        s_int[5] = delta * (f1[:, 0]*f1[:, 1] + point_0.x*point_0.y + point_1.x*point_1.y + point_2.x*point_2.y) / 24.
 
         s_int[6:9] = np.einsum('i, ij -> ji', delta, f2) / 12.
         s_int[9:12] = np.einsum('i, ij -> ji', delta, f3) / 20.
-- 
2.43.0


From b53382aaa7ef18e9430e30a77bf5368014a21b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 02/54] fix: inertia at the centre of gravity subtracts the
 parallel-axis term

---
 meshmagick/inertia.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshmagick/inertia.py b/meshmagick/inertia.py
index e246c16..1cc1832 100644
--- a/meshmagick/inertia.py
+++ b/meshmagick/inertia.py
@@ -99,7 +99,8 @@ class RigidBodyInertia(object):
         ndarray
         """
         inertia = deepcopy(self)
-        inertia.shift_at_cog()
+        inertia._3d_rotational_inertia -= inertia._huygens_transport()
+        inertia._point = inertia._cog
         return inertia
 
     def set_cog(self, cog):
-- 
2.43.0


From d33d31f1aee70e6b341d34cb4bb4cb611b4e8149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 03/54] fix: inertia of the hemisphere and of the total
 cylindrical shell

---
 meshmagick/inertia.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meshmagick/inertia.py b/meshmagick/inertia.py
index 1cc1832..128f6d4 100644
--- a/meshmagick/inertia.py
+++ b/meshmagick/inertia.py
@@ -327,7 +327,8 @@ def hemisphere(radius, density=1.):
     vol = 2 * pi * radius ** 3 / 3.
     mass = density * vol
 
-    Ixx = Iyy = Izz = 0.26 * mass * radius ** 2
+    Ixx = Iyy = 83. * mass * radius ** 2 / 320.
+    Izz = 2 * mass * radius ** 2 / 5.
 
     return RigidBodyInertia(mass, [0, 0, 0], Ixx, Iyy, Izz, 0, 0, 0)
 
@@ -569,7 +570,7 @@ def total_cylindrical_shell(R, H, density=densities.get_density('STEEL'), thickn
     sigma = density * thickness
     mass = sigma * surface
 
-    Ixx = Iyy = mass * (2 * R ** 2 * (R + 2 * H) + H ** 2 * (3 * R + H)) / 12. / (R + H)
+    Ixx = Iyy = mass * (3 * R ** 2 * (R + 2 * H) + H ** 2 * (3 * R + H)) / 12. / (R + H)
     Izz = mass * R ** 2 * ((R + 2 * H) / (R + H)) / 2.
 
     return RigidBodyInertia(mass, [0, 0, 0], Ixx, Iyy, Izz, 0, 0, 0)
-- 
2.43.0


From 679b621af73f72da888b412a216892a6c1d3d669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 04/54] fix: quaternions given as lists or tuples

---
 meshmagick/rotations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/rotations.py b/meshmagick/rotations.py
index a0f503d..66fba21 100644
--- a/meshmagick/rotations.py
+++ b/meshmagick/rotations.py
@@ -49,8 +49,8 @@ def is_unit_vector(vector):
 
 def quat_to_axis_angle(quat):
     assert is_unit_vector(quat)
-    assert quat.size == 4
     quat = np.asarray(quat, dtype=float)
+    assert quat.size == 4
     q0 = quat[0]
     d = 1. - q0*q0
 
@@ -75,8 +75,8 @@ def axis_angle_to_quat(axis, angle):
 
 def quat_to_rotmat(quat):
     assert is_unit_vector(quat)
-    assert quat.size == 4
     quat = np.asarray(quat, dtype=float)
+    assert quat.size == 4
 
     q0q0 = quat[0] * quat[0]
     q1q1 = quat[1] * quat[1]
-- 
2.43.0


From e0cc1a8038aa28cef7d5923ae2724ed178aced81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 05/54] fix: coordinates in the frame of a plane follow its
 normal

---
 meshmagick/mesh.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 9792da2..11c916e 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -189,6 +189,10 @@ class Plane(object):
         value = np.asarray(value, dtype=float)
         self._normal = value / np.linalg.norm(value)
 
+        # updating self._rot
+        theta_x, theta_y = self.get_normal_orientation_wrt_z()
+        self._rot = _get_rotation_matrix(theta_x, theta_y)
+
     @property
     def c(self):
         """Get the plane's scalar parameter"""
@@ -211,10 +215,11 @@ class Plane(object):
             Angle of rotation around Oy (rad)
         """
         rot_matrix = _get_rotation_matrix(theta_x, theta_y)
+        rot = np.dot(rot_matrix, self._rot)
         self.normal = np.dot(rot_matrix, self.normal)
 
         # updating self._rot
-        self._rot = np.dot(rot_matrix, self._rot)
+        self._rot = rot
 
     def set_normal_from_angles(self, theta_x, theta_y):
         """Set the normal orientation given angles theta_x and theta_y.
@@ -325,7 +330,7 @@ class Plane(object):
 
         # TODO: verifier effectivement que si on prend des points se trouvant dans le plan, leurs coordonnees dans le
         #  plan n'ont pas de composante z
-        return -self._scalar * self.normal + np.transpose(np.dot(self._rot, points.T))
+        return np.dot(points, self._rot) - [0., 0., self._scalar]
 
     def get_edge_intersection(self, p0, p1):
         """
-- 
2.43.0


From 4065aad8e83045d7b7ee50d380f91b32607722bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 06/54] fix: projection of points with integer coordinates on a
 plane

---
 meshmagick/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 11c916e..95c6ef8 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -372,7 +372,7 @@ class Plane(object):
             Coordinates of the projection points
         """
         # TODO: passer en vectoriel
-        projected_points = np.zeros_like(points)
+        projected_points = np.zeros_like(points, dtype=float)
         for point, projected_point in zip(points, projected_points):
             projected_point[:] = point - self.get_point_dist_wrt_plane(point) * self.normal
 
-- 
2.43.0


From e209d6e08865c3f8b494a358eda3a52d052cca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:26 +0000
Subject: [PATCH 07/54] fix: a mesh is closed when no edge belongs to a single
 face

---
 meshmagick/mesh.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 95c6ef8..11195dd 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -987,6 +987,9 @@ class Mesh(object):
                 else:
                     raise RuntimeError('Unexpected error while computing mesh connectivities')
 
+        # The mesh is closed when no edge belongs to only one face
+        is_closed = len(boundary_edges) == 0
+
         # Computing boundaries
         boundaries = list()
         # TODO: calculer des boundaries fermees et ouvertes (closed_boundaries et open_boundaries) et mettre dans dict
@@ -1018,7 +1021,8 @@ class Mesh(object):
         connectivity = {'v_v': v_v,
                         'v_f': v_f,
                         'f_f': f_f,
-                        'boundaries': boundaries}
+                        'boundaries': boundaries,
+                        'is_closed': is_closed}
         self.__internals__.update(connectivity)
 
         return
@@ -1032,6 +1036,7 @@ class Mesh(object):
             del self.__internals__['v_f']
             del self.__internals__['f_f']
             del self.__internals__['boundaries']
+            del self.__internals__['is_closed']
         return
 
     @property
@@ -1145,9 +1150,9 @@ class Mesh(object):
         bool
             True if the mesh is closed (i.e. it has no boundaries)
         """
-        if 'boundaries' not in self.__internals__:
+        if 'is_closed' not in self.__internals__:
             self._connectivity()
-        return len(self.__internals__['boundaries']) == 0
+        return self.__internals__['is_closed']
 
     def is_mesh_conformal(self):
         """Returns if the mesh is conformal.
@@ -1575,12 +1580,7 @@ class Mesh(object):
         v_v = self.vv
         v_f = self.vf
         f_f = self.ff
-        boundaries = self.boundaries
-
-        if len(boundaries) > 0:
-            mesh_closed = False
-        else:
-            mesh_closed = True
+        mesh_closed = self.is_mesh_closed()
 
         # Flooding the mesh to find inconsistent normals
         type_cell = np.zeros(nf, dtype=int)
-- 
2.43.0


From b6424644a65db5eaaeb4f1a173e5c16d15cdfaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:54 +0000
Subject: [PATCH 08/54] fix: scaling a mesh invalidates its surface integrals

---
 meshmagick/mesh.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 11195dd..067003e 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1409,6 +1409,9 @@ class Mesh(object):
         if self._has_faces_properties():
             self._remove_faces_properties()
 
+        if self.has_surface_integrals():
+            self._remove_surface_integrals()
+
         return
 
     def scalex(self, alpha):
@@ -1428,6 +1431,9 @@ class Mesh(object):
         if self._has_faces_properties():
             self._remove_faces_properties()
 
+        if self.has_surface_integrals():
+            self._remove_surface_integrals()
+
         return
 
     def scaley(self, alpha):
@@ -1447,6 +1453,9 @@ class Mesh(object):
         if self._has_faces_properties():
             self._remove_faces_properties()
 
+        if self.has_surface_integrals():
+            self._remove_surface_integrals()
+
         return
 
     def scalez(self, alpha):
@@ -1466,6 +1475,9 @@ class Mesh(object):
         if self._has_faces_properties():
             self._remove_faces_properties()
 
+        if self.has_surface_integrals():
+            self._remove_surface_integrals()
+
         return
 
     def flip_normals(self):
-- 
2.43.0


From 01ef7c550ee71e651e924450a13ed10dc67178d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:54 +0000
Subject: [PATCH 09/54] fix: flipping the normals of a mesh invalidates its
 boundaries

---
 meshmagick/mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 067003e..4812a2e 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1492,6 +1492,10 @@ class Mesh(object):
         if self.has_surface_integrals():
             self._remove_surface_integrals()
 
+        # The boundaries follow the orientation of the faces
+        if self._has_connectivity():
+            self._remove_connectivity()
+
         return
 
     def __add__(self, mesh_to_add):
-- 
2.43.0


From 28f203d7539bba3f9d2f9cbf27284ef9ddb9e2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:54 +0000
Subject: [PATCH 10/54] fix: healing normals leaves no outdated connectivity,
 normals or integrals

---
 meshmagick/mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 4812a2e..89c3120 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1664,6 +1664,10 @@ class Mesh(object):
 
         self._faces = faces
 
+        # f_f has been consumed and the orientation of faces may have changed
+        self._remove_connectivity()
+        self._remove_faces_properties()
+
         # Checking if the normals are outward
         if mesh_closed:
             zmax = np.max(self._vertices[:, 2])
-- 
2.43.0


From 31836b7e6fc0a3415ab510c43cdd91778fd99e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:54 +0000
Subject: [PATCH 11/54] fix: healing triangles leaves no outdated list of
 triangles

---
 meshmagick/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 89c3120..e6c1c49 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1743,8 +1743,8 @@ class Mesh(object):
 
         A general face is stored internally as a 4 integer array. It allows to describe indices of a quadrangle's vertices. For triangles, the first index should be equal to the last. This method ensures that this rule is applied everywhere and correct bad triangles description.
         """
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
+        self._remove_connectivity()
 
         faces = self._faces
 
-- 
2.43.0


From 7afbc0795ae1ddc1818f6b123a1efd409a1ed3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:54 +0000
Subject: [PATCH 12/54] fix: removing degenerated faces invalidates the
 connectivity

---
 meshmagick/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index e6c1c49..5899c9a 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1806,6 +1806,9 @@ class Mesh(object):
         if self._has_faces_properties():
             self._remove_faces_properties()
 
+        if self._has_connectivity():
+            self._remove_connectivity()
+
         return
 
     def heal_mesh(self):
-- 
2.43.0


From 54c5be61da8b3ab0f1e7bc18f6706ceaea5155bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:54 +0000
Subject: [PATCH 13/54] fix: merging vertices invalidates every derived
 quantity

---
 meshmagick/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 5899c9a..296db2c 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1575,8 +1575,8 @@ class Mesh(object):
                 print(("\t--> Final number of vertices   : %u" % nv_final))
                 print(("\t--> %u vertices have been merged\n" % delta_n))
 
-        if self._has_connectivity():
-            self._remove_connectivity()
+        # Faces may have become triangles and vertices may have moved
+        self.__internals__.clear()
 
         if return_index:
             return new_id
-- 
2.43.0


From f8b3f5fcedc7c80d291cd2a7285d374233ef6890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 14/54] fix: clipping when no face of the crown is kept

---
 meshmagick/mesh_clipper.py | 2 ++
 meshmagick/tools.py        | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index c4af7dd..51a6630 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -669,6 +669,8 @@ class MeshClipper(object):
         if len(intersections) > 0:
             vertices = np.concatenate((vertices, intersections))
         
+        # No face of the crown may be kept
+        crown_faces = np.array(crown_faces, dtype=int).reshape((-1, 4))
         clipped_crown_mesh = Mesh(vertices, crown_faces)
 
         # TODO: faire un merge uniquement sur la liste instersections et non sur tout le maillage clipped_crown
diff --git a/meshmagick/tools.py b/meshmagick/tools.py
index 4e03568..c9adb0e 100644
--- a/meshmagick/tools.py
+++ b/meshmagick/tools.py
@@ -37,6 +37,10 @@ def merge_duplicate_rows(arr, atol=1e-8, return_index=False):
     
     nv, nbdim = arr.shape
 
+    if nv == 0:
+        # Nothing to merge
+        return (arr, np.arange(0)) if return_index else arr
+
     levels = [0, nv]
     iperm = np.arange(nv)
 
-- 
2.43.0


From 6e34f54943dd6f06d85748edd2dba4063b4494f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 15/54] fix: a vertex at the vicinity tolerance lies on the
 clipping plane

---
 meshmagick/mesh_clipper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index 51a6630..c59d025 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -122,7 +122,7 @@ class MeshClipper(object):
 
         vertices_positions = {'vertices_distances': vertices_distances,
                               'vertices_above_mask': vertices_distances > self._vicinity_tol,
-                              'vertices_on_mask': np.fabs(vertices_distances) < self._vicinity_tol,
+                              'vertices_on_mask': np.fabs(vertices_distances) <= self._vicinity_tol,
                               'vertices_below_mask': vertices_distances < -self._vicinity_tol
                               }
 
-- 
2.43.0


From e8e47e5dcee94568278ec57e061ca410da60dc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 16/54] fix: clipping of quadrangles with three vertices near
 the plane

---
 meshmagick/mesh_clipper.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index c59d025..bb8cfbd 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -607,6 +607,23 @@ class MeshClipper(object):
                 # FIXME: quick fix here : robust ?
                 boundary_edge = None
 
+            elif face_type == '130':
+                #         *
+                #       /   \
+                # ----*---*---*----
+                boundary_edge = None
+
+            elif face_type == '031':
+                # ----*---*---*----
+                #     3\  2  /1
+                #        \ /
+                #         *0
+                face = np.roll(face, -v_below_face[0])
+                direct_boundary_edges[face[3]] = face[2]
+                inv_boundary_edges[face[2]] = face[3]
+                boundary_edge = [face[2], face[1]]
+                crown_faces.append(list(face))
+
             elif face_type == '121':  # Done
                 #       *0
                 #      / \
-- 
2.43.0


From bd1c801f05d3c5548af52cdacce7d28cb4b9911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 17/54] fix: intersection of an edge with a plane independent
 of the sense of the edge

---
 meshmagick/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 296db2c..4863df3 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -352,6 +352,9 @@ class Plane(object):
 
         p0n = np.dot(p0, self.normal)
         p1n = np.dot(p1, self.normal)
+        if p0n > p1n:
+            # The result must not depend on the sense of the edge
+            p0, p1, p0n, p1n = p1, p0, p1n, p0n
         t = (p0n - self._scalar) / (p0n - p1n)
         if t < 0. or t > 1.:
             raise RuntimeError('Intersection is outside the edge')
-- 
2.43.0


From d6ad904f4d74827947bc7619f5b74bf1a2b1a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 18/54] fix: intersection lines through a vertex lying on the
 clipping plane

---
 meshmagick/mesh_clipper.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index bb8cfbd..0724a64 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -356,8 +356,7 @@ class MeshClipper(object):
 
         # Init
         crown_faces = list()
-        direct_boundary_edges = dict()
-        inv_boundary_edges = dict()
+        boundary_edges = list()
         intersections = list()
 
         index = crown_mesh.nb_vertices
@@ -619,8 +618,7 @@ class MeshClipper(object):
                 #        \ /
                 #         *0
                 face = np.roll(face, -v_below_face[0])
-                direct_boundary_edges[face[3]] = face[2]
-                inv_boundary_edges[face[2]] = face[3]
+                boundary_edges.append([face[3], face[2]])
                 boundary_edge = [face[2], face[1]]
                 crown_faces.append(list(face))
 
@@ -680,8 +678,7 @@ class MeshClipper(object):
 
             # Building boundary connectivity
             if boundary_edge is not None:
-                direct_boundary_edges[boundary_edge[0]] = boundary_edge[1]
-                inv_boundary_edges[boundary_edge[1]] = boundary_edge[0]
+                boundary_edges.append(boundary_edge)
 
         if len(intersections) > 0:
             vertices = np.concatenate((vertices, intersections))
@@ -694,10 +691,18 @@ class MeshClipper(object):
         # FIXME: potentiellement, un bug a ete introduit ici !!! --> l'update n'est plus bon sur les dictionnaires...
         new_id = clipped_crown_mesh.merge_duplicates(return_index=True, atol=1e-5)  # Warning: choosing a lower value
 
-        # Updating dictionaries
-        direct_boundary_edges = dict(
-            list(zip(new_id[list(direct_boundary_edges.keys())], new_id[list(direct_boundary_edges.values())])))
-        inv_boundary_edges = dict(list(zip(new_id[list(inv_boundary_edges.keys())], new_id[list(inv_boundary_edges.values())])))
+        # Building dictionaries. Several edges may start or end at a vertex lying on the plane.
+        direct_boundary_edges = dict()
+        inv_boundary_edges = dict()
+        for v0, v1 in new_id[np.array(boundary_edges, dtype=int).reshape((-1, 2))]:
+            direct_boundary_edges.setdefault(v0, list()).append(v1)
+            inv_boundary_edges.setdefault(v1, list()).append(v0)
+
+        def pop_edge(v0):
+            v1 = direct_boundary_edges[v0].pop()
+            if not direct_boundary_edges[v0]:
+                del direct_boundary_edges[v0]
+            return v1
 
         # Ordering boundary edges in continuous lines
         closed_polygons = list()
@@ -705,14 +710,15 @@ class MeshClipper(object):
         while True:
             try:
                 line = list()
-                v0_init, v1 = direct_boundary_edges.popitem()
+                v0_init = list(direct_boundary_edges)[-1]
+                v1 = pop_edge(v0_init)
                 line.append(v0_init)
                 line.append(v1)
                 v0 = v1
 
                 while True:
                     try:
-                        v1 = direct_boundary_edges.pop(v0)
+                        v1 = pop_edge(v0)
                         line.append(v1)
                         v0 = v1
                     except KeyError:
@@ -722,8 +728,10 @@ class MeshClipper(object):
                             v0 = v0_init
                             while True:
                                 try:
-                                    v1 = inv_boundary_edges[v0]
-                                    direct_boundary_edges.pop(v1)
+                                    v1 = [v for v in inv_boundary_edges[v0] if v0 in direct_boundary_edges.get(v, [])][0]
+                                    direct_boundary_edges[v1].remove(v0)
+                                    if not direct_boundary_edges[v1]:
+                                        del direct_boundary_edges[v1]
                                     queue.append(v1)
                                     v0 = v1
                                 except:
-- 
2.43.0


From 6460cfbe94559a5ab5eb6be9a2097ebec52e7b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 19/54] fix: no vertex above the plane in a clipped mesh

---
 meshmagick/mesh_clipper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index 0724a64..ac12964 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -783,6 +783,8 @@ class MeshClipper(object):
         
         self._clip_crown_by_plane()
         clipped_mesh = self.lower_mesh + self.clipped_crown_mesh
+        # Vertices above the plane are not part of the clipped mesh
+        clipped_mesh.remove_unused_vertices()
         clipped_mesh.name = '_'.join((self._source_mesh.name, 'clipped'))
         self.__internals__['clipped_mesh'] = clipped_mesh
         return
-- 
2.43.0


From d866333dc69939150d3cbfb9cf17ed5f665f58b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 20/54] fix: forward perpendicular when quantities are not
 expressed at cog

---
 meshmagick/hydrostatics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index a3417fc..d5e0737 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -180,7 +180,7 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
     hs_data['length_overall_submerged'] = xmax - xmin
     hs_data['breadth_overall_submerged'] = ymax - ymin
     hs_data['draught'] = math.fabs(zmin)
-    hs_data['forward_perpendicular'] = maxx + xb
+    hs_data['forward_perpendicular'] = maxx + xb if at_cog else maxx
     hs_data['breadth'] = maxy - miny
 
     hs_data['trust_lpp'] = True
-- 
2.43.0


From 1e7de21d94d8f238564433cb7814a0a949194a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 21/54] fix: inertia of the immersed hull about the centre of
 gravity

---
 meshmagick/hydrostatics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index d5e0737..1cba1d9 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -193,8 +193,7 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
             hs_data['length_between_perpendiculars'] = hs_data['length_at_waterline']
             hs_data['trust_lpp'] = False
 
-    inertia.set_cog(wcog)
-    inertia.shift_at_cog()
+    inertia.reduction_point = wcog
     hs_data['Ixx'] = inertia.xx
     hs_data['Iyy'] = inertia.yy
     hs_data['Izz'] = inertia.zz
-- 
2.43.0


From 524c9c33a4c6aba8701cc9c667d733ee13d9c85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 22/54] fix: product of inertia of the waterplane

---
 meshmagick/hydrostatics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index 1cba1d9..7050dac 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -83,7 +83,7 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
             sigma0 += dy * px
             sigma1 += dy * (px * px - xi * xii)
             sigma2 += dx * (py * py - yi * yii)
-            sigma3 += dy * (py * px * px + yi * xi * xi + yii * xii * xii)
+            sigma3 += dy * (py * px * px + 2 * yi * xi * xi + 2 * yii * xii * xii)
             sigma4 += dy * (xi * xi + xii * xii) * px
             sigma5 += dx * (yi * yi + yii * yii) * py
 
-- 
2.43.0


From 4311554476215f597b5fc8fd67c6d8378b6f3b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 23/54] fix: displacement that cannot be reached, hull entirely
 under water

The position of the hull given with the exception was read at the wrong place, and warnings was not imported. A hull that is
under water although the displacement can be reached is raised instead of being declared impossible.
---
 meshmagick/hydrostatics.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index 7050dac..7994c2e 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -4,6 +4,7 @@
 
 import numpy as np
 import math
+import warnings
 
 from .mesh_clipper import MeshClipper
 from .rotations import cardan_to_rotmat, rotmat_to_cardan
@@ -233,14 +234,15 @@ def displacement_equilibrium(mesh, disp_tons, rho_water, grav, cog=np.zeros(3),
         try:
             hs_data = compute_hydrostatics(mesh, cog, rho_water, grav, z_corr=z_corr)
         except RuntimeError as err:
-            position = err.args[2]
+            position = err.args[1] if len(err.args) > 1 else None
             if position == 'below':
                 z_corr = -zmax + (zmax - zmin) * 1e-4  # FIXME: is this choice robust ?
                 hs_data = compute_hydrostatics(mesh, cog, rho_water, grav, z_corr=z_corr)
-                warnings.warn(
-                    "Impossible to reach a displacement of %.3f tons because of the mesh extend. Limited to %.3f tons" %
-                    (disp_tons, hs_data['disp_mass'] * 0.001))
-                return z_corr
+                if hs_data['disp_mass'] < disp_kg:
+                    warnings.warn(
+                        "Impossible to reach a displacement of %.3f tons because of the mesh extend. "
+                        "Limited to %.3f tons" % (disp_tons, hs_data['disp_mass'] * 0.001))
+                    return z_corr
             else:
                 raise err
 
-- 
2.43.0


From 4978ec2374638af77c932e05a18c3a7431e2f299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 24/54] fix: number of vertices and faces written for small
 meshes

---
 meshmagick/mmio.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 67679ae..f7895e8 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1500,8 +1500,8 @@ def _build_vtkUnstructuredGrid(vertices, faces):
     
     import vtk
 
-    nv = max(np.shape(vertices))
-    nf = max(np.shape(faces))
+    nv = np.shape(vertices)[0]
+    nf = np.shape(faces)[0]
 
     vtk_mesh = vtk.vtkUnstructuredGrid()
     vtk_mesh.Allocate(nf, nf)
@@ -1584,8 +1584,8 @@ def write_NAT(filename, vertices, faces):
     
     ofile = open(filename, 'w')
 
-    nv = max(np.shape(vertices))
-    nf = max(np.shape(faces))
+    nv = np.shape(vertices)[0]
+    nf = np.shape(faces)[0]
 
     ofile.write('%6u%6u\n' % (0, 0))  # lire les symmetries dans args...
     ofile.write('%6u%6u\n' % (nv, nf))
@@ -1640,7 +1640,7 @@ def write_GDF(filename, vertices, faces):
         numpy array of the faces' nodes connectivities
     """
 
-    nf = max(np.shape(faces))
+    nf = np.shape(faces)[0]
 
     ofile = open(filename, 'w')
 
-- 
2.43.0


From 1a65fbcaa98e6a4d5165894015abb89bb4f3b69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 25/54] fix: merge the duplicate nodes of GDF files, as
 documented

Triangles are recognised by their repeated node.
---
 meshmagick/mmio.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index f7895e8..6009de4 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -758,6 +758,7 @@ def load_GDF(filename):
     ----
     GDF files have a 1-indexing
     """
+    from .tools import merge_duplicate_rows
 
     _check_file(filename)
 
@@ -795,6 +796,10 @@ def load_GDF(filename):
 
     ifile.close()
 
+    # Merging duplicates nodes
+    vertices, new_id = merge_duplicate_rows(vertices, return_index=True)
+    faces = new_id[faces]
+
     return vertices, faces
 
 
-- 
2.43.0


From cf4d07fd7306bbd9763138db3d4a333fe7893b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 26/54] fix: writing a STL file does not modify the faces of
 the mesh

---
 meshmagick/mmio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 6009de4..2f16ff8 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1723,6 +1723,7 @@ def write_STL(filename, vertices, faces):
     t1 = (0, 1, 2)
     t2 = (0, 2, 3)
 
+    faces = faces.copy()  # the array of the caller must not be modified
     quads_ids = np.where(faces[:, 0] != faces[:, -1])[0]
 
     new_faces = faces[quads_ids].copy()
-- 
2.43.0


From b75bea43c25720088d5af41dcefe00109ed78c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 27/54] fix: HAMS triangles repeat their third node, not the
 second

---
 meshmagick/mmio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 2f16ff8..82f2c4b 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1134,7 +1134,7 @@ def load_PNL(filename, name=None):
             if nb_corners == 3:  # Triangle
                 assert len(data) == 3
                 faces[i, 0:3] = data
-                faces[i, 3] = faces[i, 2]  # Convention for triangles in Meshmagick: repeat last vertex
+                faces[i, 3] = faces[i, 0]  # Convention for triangles in Meshmagick: repeat first vertex
             elif int(nb_corners) == 4:  # Quadrangle
                 assert len(data) == 4
                 faces[i, :] = data
@@ -1813,7 +1813,7 @@ def write_PNL(filename, vertices, faces):
         f.write('   #Start Definition of Node Relations   ! panel_number  number_of_vertices   Vertex1_ID   Vertex2_ID   Vertex3_ID   (Vertex4_ID)\n')
         for i, face in enumerate(faces):
             face = face + 1
-            if face[2] == face[3]:  # Triangle
+            if face[0] == face[3]:  # Triangle
                 f.write("{:>5}{:>5}{:>10}{:>10}{:>10}\n".format(i+1, 3, *face[:3]))
             else:
                 f.write("{:>5}{:>5}{:>10}{:>10}{:>10}{:>10}\n".format(i+1, 4, *face))
-- 
2.43.0


From ba028c559d90cf4c4fa6c01b2a8ff2fad8420278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 28/54] fix: several sections and any node numbers in Hydrostar
 files

---
 meshmagick/mmio.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 82f2c4b..774742f 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -142,11 +142,13 @@ def load_HST(filename):
     pattern_node_section = re.compile(node_section, re.MULTILINE)
     pattern_elem_section = re.compile(elem_section, re.MULTILINE)
 
-    vertices_tmp = []
     vertices = []
+    node_ids = {}
     nv = 0
     for node_section in pattern_node_section.findall(data):
+        vertices_tmp = []
         for node in pattern_node_line.findall(node_section):
+            node_ids[int(node.split()[0])] = nv + len(vertices_tmp)
             vertices_tmp.append(list(map(float, node.split()[1:])))
         nv_tmp = len(vertices_tmp)
         vertices_tmp = np.asarray(vertices_tmp, dtype=float)
@@ -157,12 +159,12 @@ def load_HST(filename):
             vertices = np.concatenate((vertices, vertices_tmp))
             nv += nv_tmp
 
-    faces_tmp = []
     faces = []
     nf = 0
     for elem_section in pattern_elem_section.findall(data):
+        faces_tmp = []
         for elem in pattern_elem_line.findall(elem_section):
-            faces_tmp.append(list(map(int, elem.split())))
+            faces_tmp.append([node_ids[int(node)] for node in elem.split()])
         nf_tmp = len(faces_tmp)
         faces_tmp = np.asarray(faces_tmp, dtype=int)
         if nf == 0:
@@ -172,7 +174,7 @@ def load_HST(filename):
             faces = np.concatenate((faces, faces_tmp))
             nf += nf_tmp
 
-    return vertices, faces-1
+    return vertices, faces
 
 
 def load_DAT(filename):
-- 
2.43.0


From 198ebd427d9e0f153d46a1b1c61e13c0a54a9b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 29/54] fix: every section of triangles and quadrangles of
 DIODORE DAT files is read

---
 meshmagick/mmio.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 774742f..748ae96 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -210,8 +210,8 @@ def load_DAT(filename):
     triangle_section_pattern = re.compile(r'ELEMENT\S+T3C000.+\s*((?:(?:\d+\s+){4})+)\*RETURN')
     triangle_sections = triangle_section_pattern.findall(data)
 
-    if len(triangle_sections) != 0:
-        for triangle in triangle_sections[0].splitlines():
+    for triangle_section in triangle_sections:
+        for triangle in triangle_section.splitlines():
             triangle_split = triangle.split()
 
             triangle = [
@@ -227,8 +227,8 @@ def load_DAT(filename):
     quadrangle_section_pattern = re.compile(r'ELEMENT\S+Q4C000.+\s*((?:(?:\d+\s+){5})+)\*RETURN')
     quadrangle_sections = quadrangle_section_pattern.findall(data)
 
-    if len(quadrangle_sections) != 0:
-        for quadrangle in quadrangle_sections[0].splitlines():
+    for quadrangle_section in quadrangle_sections:
+        for quadrangle in quadrangle_section.splitlines():
             quadrangle_split = quadrangle.split()
 
             quadrangle = [
-- 
2.43.0


From ec7854a63cd5ac2a11236634fbb8839c6f31ac3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 30/54] fix: every section and any node numbers in Radioss
 files

---
 meshmagick/mmio.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 748ae96..4260271 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -77,7 +77,7 @@ def load_RAD(filename):
     ifile.close()
 
     # node_line = r'\s*\d+(?:\s*' + real_str + '){3}'
-    node_line = r'\s*\d+\s*(' + real_str + r')\s*(' + real_str + r')\s*(' + real_str + ')'
+    node_line = r'\s*(\d+)\s*(' + real_str + r')\s*(' + real_str + r')\s*(' + real_str + ')'
     node_section = r'((?:' + node_line + ')+)'
 
     elem_line = r'^\s*(?:\d+\s+){6}\d+\s*[\r\n]+'
@@ -90,16 +90,18 @@ def load_RAD(filename):
     pattern_elem_section = re.compile(elem_section, re.MULTILINE)
 
     vertices = []
-    node_section = pattern_node_section.search(data).group(1)
-    for node in pattern_node_line.finditer(node_section):
-        vertices.append(list(map(float, list(node.groups()))))
+    node_ids = {}
+    for node_section in pattern_node_section.finditer(data):
+        for node in pattern_node_line.finditer(node_section.group(1)):
+            node_ids[int(node.group(1))] = len(vertices)
+            vertices.append(list(map(float, list(node.groups()[1:]))))
     vertices = np.asarray(vertices, dtype=float)
 
     faces = []
-    elem_section = pattern_elem_section.search(data).group(1)
-    for elem in pattern_elem_line.findall(elem_section):
-        faces.append(list(map(int, elem.strip().split()[3:])))
-    faces = np.asarray(faces, dtype=int) - 1
+    for elem_section in pattern_elem_section.findall(data):
+        for elem in pattern_elem_line.findall(elem_section):
+            faces.append([node_ids[int(node)] for node in elem.strip().split()[3:]])
+    faces = np.asarray(faces, dtype=int)
 
     return vertices, faces
 
-- 
2.43.0


From c1c25067436144bd5c80edb2b538ca3e125f329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 31/54] fix: faces of gmsh meshes refer to nodes by their tags

---
 meshmagick/mmio.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 4260271..f202e41 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -867,6 +867,7 @@ def load_MSH22(filename):
     nb_nodes, nodes_data = re.search(r'\$Nodes\n(\d+)\n(.+)\$EndNodes', data, re.DOTALL).groups()
     nb_elts, elts_data = re.search(r'\$Elements\n(\d+)\n(.+)\$EndElements', data, re.DOTALL).groups()
 
+    node_ids = {int(tag): i for i, tag in enumerate(nodes_data.split()[::4])}
     vertices = np.asarray(list(map(float, nodes_data.split())), dtype=float).reshape((-1, 4))[:, 1:]
     vertices = np.ascontiguousarray(vertices)
     faces = []
@@ -883,7 +884,7 @@ def load_MSH22(filename):
         quadrangle = quad_elt[-4:]
         faces.append(quadrangle)
 
-    faces = np.asarray(faces, dtype=int) - 1
+    faces = np.asarray([[node_ids[tag] for tag in face] for face in faces], dtype=int)
 
     return vertices, faces
 
@@ -894,13 +895,14 @@ def load_MSH41(filename):
     mesh = gmshparser.parse(filename)
 
     vertices = list()
+    node_ids = dict()
     for entity in mesh.get_node_entities():
         for node in entity.get_nodes():
-            coord = list(node.get_coordinates())
+            coord = list(node.get_coordinates())[:3]  # parametric coordinates may follow
+            node_ids[node.get_tag()] = len(vertices)
             vertices.append(coord)
 
-    # vertices = np.asarray(vertices)
-    # print(vertices)
+    vertices = np.asarray(vertices, dtype=float)
 
     faces = list()
     for entity in mesh.get_element_entities():
@@ -910,12 +912,12 @@ def load_MSH41(filename):
             # Triangle
             for element in entity.get_elements():
                 elid = element.get_tag()
-                face = element.get_connectivity()
+                face = [node_ids[tag] for tag in element.get_connectivity()]
                 if eltype == 2:
                     face.append(face[0])
                 faces.append(face)
 
-    faces = np.asarray(faces) - 1
+    faces = np.asarray(faces, dtype=int)
 
     return vertices, faces
 
-- 
2.43.0


From 76f0cf276cc75fc5edb3cd974f9da98231ee6314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 32/54] fix: node offset of incremented bodies and comments of
 any encoding in DIODORE INP files

---
 meshmagick/mmio.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index f202e41..dcbffb6 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -272,7 +272,8 @@ def load_INP(filename):
     _check_file(filename)
     import re
     
-    with open(filename, 'r') as f:
+    # Comments may be in any encoding
+    with open(filename, 'r', errors='surrogateescape') as f:
         text = f.read()
 
     # Retrieving frames into a dictionary frames
@@ -390,8 +391,8 @@ def load_INP(filename):
                 vertices[idx, :] = nodes.copy()
                 increment = False
             else:
+                nb_nodes = vertices.shape[0]  # Node numbers are incremented by the number of previous nodes
                 vertices = np.concatenate((vertices, nodes))
-                nb_nodes = vertices.shape[0]
                 increment = True
         else:  # this is an ELEMENT section
             elem_section = np.asarray(mesh_files[file]['ELEM_SECTIONS'][mesh_files[file]['nb_elem_sections_used']],
-- 
2.43.0


From 2ce6978b69262319869727e8f422e88a74dfb21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 33/54] fix: --lpp and --orig-at-ap are given to the
 hydrostatic computations

---
 meshmagick/cli.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/meshmagick/cli.py b/meshmagick/cli.py
index 7d53c65..c4b1b92 100755
--- a/meshmagick/cli.py
+++ b/meshmagick/cli.py
@@ -903,6 +903,9 @@ def main():
         z_corr = 0.
         rotmat_corr = np.eye(3, 3)
 
+        # Length between perpendiculars, as far as it is known by the user
+        lpp_options = {'lpp': args.lpp, 'orig_at_ap': args.orig_at_ap}
+
         has_disp = has_cog = has_zcog = False
 
         if args.mass_displacement is not None:
@@ -924,10 +927,10 @@ def main():
             if not has_zcog:
                 raise RuntimeError("zcog should at least be given for correct stiffness values computations")
 
-            hs_data = hs.compute_hydrostatics(mesh, np.zeros(3), water_density, grav, at_cog=False)
+            hs_data = hs.compute_hydrostatics(mesh, np.zeros(3), water_density, grav, at_cog=False, **lpp_options)
             xb, yb, _ = hs_data["buoyancy_center"]
             cog = np.array([xb, yb, zcog])
-            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, at_cog=True)
+            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, at_cog=True, **lpp_options)
 
         elif has_disp and not has_cog:
             print(">>>> Computing equilibrium of the hull for the given displacement of %f tons" % disp)
@@ -935,17 +938,17 @@ def main():
                 raise RuntimeError("zcog should at least be given for correct stiffness values computations")
 
             z_corr = hs.displacement_equilibrium(mesh, disp, water_density, grav, reltol=reltol, verbose=True)
-            hs_data = hs.compute_hydrostatics(mesh, np.zeros(3), water_density, grav, z_corr=z_corr, at_cog=False)
+            hs_data = hs.compute_hydrostatics(mesh, np.zeros(3), water_density, grav, z_corr=z_corr, at_cog=False, **lpp_options)
             xb, yb, _ = hs_data["buoyancy_center"]
             cog = np.array([xb, yb, zcog])
-            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, at_cog=True)
+            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, at_cog=True, **lpp_options)
 
         elif has_disp and has_cog:
             print(">>>> Computing equilibrium in 3DOF for the given displacement and COG")
             if has_zcog:
                 warn("zcog is redundant with cog, taking cog and ignoring zcog")
             z_corr, rotmat_corr = hs.full_equilibrium(mesh, cog, disp, water_density, grav, reltol=reltol, verbose=True)
-            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, rotmat_corr=rotmat_corr, at_cog=True)
+            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, rotmat_corr=rotmat_corr, at_cog=True, **lpp_options)
 
         elif not has_disp and has_cog:
             print(">>>> Computing equilibrium in 3DOF for the given COG, considering the current configuration presents the "
@@ -953,11 +956,11 @@ def main():
             if has_zcog:
                 warn("zcog is redundant with cog, taking cog and ignoring zcog")
 
-            hs_data = hs.compute_hydrostatics(mesh, np.zeros(3), water_density, grav, at_cog=False)
+            hs_data = hs.compute_hydrostatics(mesh, np.zeros(3), water_density, grav, at_cog=False, **lpp_options)
             disp = hs_data['disp_mass'] / 1000
             z_corr, rotmat_corr = hs.full_equilibrium(mesh, cog, disp, water_density, grav, reltol=reltol, verbose=True)
             hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, rotmat_corr=rotmat_corr,
-                                              at_cog=True)
+                                              at_cog=True, **lpp_options)
 
         mesh.rotate_matrix(rotmat_corr)
         mesh.translate_z(z_corr)
-- 
2.43.0


From 3ba0d6c60b6b1f9bee072f5af59c3736b50bff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 34/54] fix: --rho-medium accepts names of medium as documented

---
 meshmagick/cli.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/meshmagick/cli.py b/meshmagick/cli.py
index c4b1b92..ed7a267 100755
--- a/meshmagick/cli.py
+++ b/meshmagick/cli.py
@@ -73,6 +73,19 @@ try:
 except:
     has_argcomplete = False
 
+
+def medium_density(value):
+    """Density given by its value (in kg/m**3) or by the name of a medium"""
+    try:
+        return float(value)
+    except ValueError:
+        pass
+    try:
+        return densities.get_density(value)
+    except KeyError:
+        raise argparse.ArgumentTypeError('%s is neither a density nor the name of a medium' % value)
+
+
 parser = argparse.ArgumentParser(
     description="""  --  MESHMAGICK --
                 A python module and a command line utility to manipulate meshes from
@@ -315,7 +328,7 @@ parser.add_argument('-si', '--shell-inertia', action='store_true',
                     uniformly plain of a medium of density rho_medium in kg/m**3. Default
                     is 1023 kg/m**3.""")
 
-parser.add_argument('--rho-medium', type=float,
+parser.add_argument('--rho-medium', type=medium_density,
                     help="""The density (in kg/m**3) of the medium used for evaluation of
                     inertia parameters of the mesh. For the hypothesis of plain homogeneous
                     mesh, the default is that of salt water (1023 kg/m**3) . For the
-- 
2.43.0


From 6342e303fe88aec14000a450639da3695ad0e1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 35/54] fix: the announced extension .DAT is recognised

---
 meshmagick/mmio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index dcbffb6..6e88ff0 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1840,6 +1840,7 @@ extension_dict = {  # keyword,  reader,   writer
     'diodore-inp': (load_INP, write_INP),
     'inp': (load_INP, write_INP),
     'diodore-dat': (load_DAT, write_DAT),
+    'dat': (load_DAT, write_DAT),
     'hydrostar': (load_HST, write_HST),
     'hst': (load_HST, write_HST),
     'natural': (load_NAT, write_NAT),
-- 
2.43.0


From afeb7696cba697810c85d55d1ccb67cd33cfb26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 36/54] fix: edge lengths of a mesh no longer count the
 repeated node of triangles as an edge

---
 meshmagick/mesh.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 4863df3..5e40f84 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -2064,6 +2064,11 @@ class Mesh(object):
             edge = vertices[:, i, :] - vertices[:, i-1, :]
             edge_length[:, i] = np.sqrt(np.einsum('ij, ij -> i', edge, edge))
 
+        # A triangle repeats its first vertex at the end: its first "edge" has no length and is not an edge
+        is_edge = np.ones((self.nb_faces, 4), dtype=bool)
+        is_edge[self.triangles_ids, 0] = False
+        edge_length = edge_length[is_edge]
+
         return edge_length.min(), edge_length.max(), edge_length.mean()
 
     @property
-- 
2.43.0


From 17d986673010541de44ccc70d9a27c3d9cecd480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 37/54] fix: GDF files declare no symmetry, as the whole mesh
 is written

---
 meshmagick/mmio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 6e88ff0..ab173ae 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1659,7 +1659,7 @@ def write_GDF(filename, vertices, faces):
     ofile.write('GDF file generated by meshmagick on %s\n' % time.strftime('%c'))
 
     ofile.write('%16.6f%16.6f\n' % (100.0, 9.81))
-    ofile.write('%12u%12u\n' % (0, 1))  # TODO : mettre les symetries en argument
+    ofile.write('%12u%12u\n' % (0, 0))  # No symmetry. TODO : mettre les symetries en argument
     ofile.write('%12u\n' % nf)
 
     for cell in faces:
-- 
2.43.0


From f1c05151aaf34e708cac272899d9a9be60ff33ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 38/54] fix: VRML files of several shapes are read whole

---
 meshmagick/mmio.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index ab173ae..8a95e88 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1055,11 +1055,16 @@ def load_WRL(filename):
     importer.SetFileName(filename)
     importer.Update()
 
+    # Each shape of the file has its own actor
     actors = importer.GetRenderer().GetActors()
     actors.InitTraversal()
-    dataset = actors.GetNextActor().GetMapper().GetInput()
+    vertices, faces = np.zeros((0, 3), dtype=float), np.zeros((0, 4), dtype=int)
+    for _ in range(actors.GetNumberOfItems()):
+        shape_vertices, shape_faces = _dump_vtk(actors.GetNextActor().GetMapper().GetInput())
+        faces = np.concatenate((faces, shape_faces + len(vertices)), axis=0)
+        vertices = np.concatenate((vertices, shape_vertices), axis=0)
 
-    return _dump_vtk(dataset)
+    return vertices, faces
 
 
 def load_NEM(filename):
-- 
2.43.0


From 470185b92c45b1c782ab612decd731f88c616396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:57 +0000
Subject: [PATCH 39/54] fix: a GDF file cut short is refused instead of being
 read for ever

---
 meshmagick/mmio.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 8a95e88..c3fd1ca 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -791,7 +791,10 @@ def load_GDF(filename):
         face_coords = np.zeros((12,), dtype=float)
         
         while n_coords < 12:
-            line = np.array(ifile.readline().split())
+            line = ifile.readline()
+            if not line:
+                raise IOError('%s ends before the last of its %u panels' % (filename, nf))
+            line = np.array(line.split())
             face_coords[n_coords:n_coords+len(line)] = line
             n_coords += len(line)
 
-- 
2.43.0


From 37b9dd60ad331f7fd07ccfce3fd27004364e09a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:57 +0000
Subject: [PATCH 40/54] fix: a NAT file cut short is refused

---
 meshmagick/mmio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index c3fd1ca..c2e3f92 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -730,12 +730,12 @@ def load_NAT(filename):
     vertices = []
     for i in range(nv):
         vertices.append(list(map(float, ifile.readline().split())))
-    vertices = np.array(vertices, dtype=float)
+    vertices = np.array(vertices, dtype=float).reshape((nv, 3))
 
     faces = []
     for i in range(nf):
         faces.append(list(map(int, ifile.readline().split())))
-    faces = np.array(faces, dtype=int)
+    faces = np.array(faces, dtype=int).reshape((nf, 4))
 
     ifile.close()
     return vertices, faces-1
-- 
2.43.0


From 9611db76e09fbe9f3905b144624c133a7e3c3c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:57 +0000
Subject: [PATCH 41/54] fix: a NEM file cut short is refused

---
 meshmagick/mmio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index c2e3f92..69f0bbb 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1100,12 +1100,12 @@ def load_NEM(filename):
     vertices = []
     for ivertex in range(nv):
         vertices.append(list(map(float, ifile.readline().split())))
-    vertices = np.asarray(vertices, dtype=float)
+    vertices = np.asarray(vertices, dtype=float).reshape((nv, 3))
     
     faces = []
     for iface in range(nf):
         faces.append(list(map(int, ifile.readline().split())))
-    faces = np.asarray(faces, dtype=int)
+    faces = np.asarray(faces, dtype=int).reshape((nf, 4))
     faces -= 1
     
     return vertices, faces
-- 
2.43.0


From 2920f2f4ea1bf87ca0b52362cb98256237796c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:57 +0000
Subject: [PATCH 42/54] fix: a Diodore DAT file cut inside a section of
 elements is refused

---
 meshmagick/mmio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 69f0bbb..761e135 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -190,6 +190,9 @@ def load_DAT(filename):
     
     import re
     
+    if data.rfind('ELEMENT,') > data.rfind('*RETURN'):
+        raise IOError('%s ends inside a section of elements' % filename)
+    
     # NODE SECTION
     node_section_pattern = re.compile(r'NODE\s*((?:\d+(?:\s+\S+){3}\s+)+)\*RETURN')
     node_sections = node_section_pattern.findall(data)
-- 
2.43.0


From 5c1e052a98bdcb0b33267a2d7ece977bba56892a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:57 +0000
Subject: [PATCH 43/54] fix: a Hydrostar file cut inside a section is refused

---
 meshmagick/mmio.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 761e135..0d19125 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -133,6 +133,12 @@ def load_HST(filename):
 
     import re
 
+    for section in ('COORDINATES', 'PANEL'):
+        # Every section that begins also ends
+        if len(re.findall(r'^\s*%s\b' % section, data, re.MULTILINE)) > \
+                len(re.findall(r'^\s*END%s\b' % section, data, re.MULTILINE)):
+            raise IOError('%s ends inside a section %s' % (filename, section))
+
     node_line = r'\s*\d+(?:\s+' + real_str + '){3}'
     node_section = r'((?:' + node_line + ')+)'
 
-- 
2.43.0


From 3fc45d5f35f5bea37563e16b6b79a63937b12f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:57 +0000
Subject: [PATCH 44/54] fix: a GMSH 4.1 file cut before its elements is refused

---
 meshmagick/mmio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 0d19125..d965f6e 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -964,6 +964,9 @@ def load_MSH(filename):
 
     version = float(re.search(r'\$MeshFormat\n(\d.\d).*\n\$EndMeshFormat', data, re.DOTALL).groups()[0])
 
+    if '$EndNodes' not in data or '$EndElements' not in data:
+        raise IOError('%s ends before its nodes and elements are complete' % filename)
+
     if 2 <= version < 3:
         # version 2.2
         return load_MSH22(filename)
-- 
2.43.0


From 3c9a6a459966f77d433fe35258c9117fda98aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:04 +0000
Subject: [PATCH 45/54] fix: the default clipping plane is not shared between
 clippers

---
 meshmagick/mesh_clipper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index ac12964..06f6a52 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -23,9 +23,10 @@ class MeshClipper(object):
     verbose : bool, optional
         False by default. If True, some messages on operations that are handled are printed.
     """
-    def __init__(self, source_mesh, plane=Plane(), vicinity_tol=1e-3, assert_closed_boundaries=False, verbose=False):
+    def __init__(self, source_mesh, plane=None, vicinity_tol=1e-3, assert_closed_boundaries=False, verbose=False):
         self._source_mesh = source_mesh
-        self._plane = plane
+        # A plane can be modified: the one by default is not to be shared between clippers
+        self._plane = Plane() if plane is None else plane
 
         self._vicinity_tol = vicinity_tol
 
-- 
2.43.0


From 4c147e76784126144016252cb3030926a982d393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:04 +0000
Subject: [PATCH 46/54] fix: hydrostatics results do not share the rotation
 they were given

---
 meshmagick/hydrostatics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index 7994c2e..3e2bc2d 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -161,7 +161,7 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
     hs_data['grav'] = grav
     hs_data['rho_water'] = rho_water
     hs_data["mesh"] = mesh.copy()
-    hs_data["rotmat_eq"] = rotmat_corr
+    hs_data["rotmat_eq"] = np.array(rotmat_corr, dtype=float)
     hs_data["z_eq"] = z_corr
     hs_data["cog"] = cog.copy()
 
-- 
2.43.0


From 74732f8c9bdc049478e72893083a5a5f58450b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:04 +0000
Subject: [PATCH 47/54] fix: inertias keep their own center of gravity and
 reduction point

---
 meshmagick/inertia.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshmagick/inertia.py b/meshmagick/inertia.py
index 128f6d4..f18f5b9 100644
--- a/meshmagick/inertia.py
+++ b/meshmagick/inertia.py
@@ -43,13 +43,13 @@ class RigidBodyInertia(object):
         self._mass = float(mass)
 
         assert len(cog) == 3
-        self._cog = np.asarray(cog, dtype=float)
+        self._cog = np.array(cog, dtype=float)
 
         if point is None:
             self._point = self._cog
         else:
             assert len(point) == 3
-            self._point = np.asarray(point, dtype=float)
+            self._point = np.array(point, dtype=float)
 
         self._3d_rotational_inertia = np.array([[float(xx), -float(xy), -float(xz)],
                                                 [-float(xy), float(yy), -float(yz)],
@@ -85,7 +85,7 @@ class RigidBodyInertia(object):
         """Set the reduction point"""
         mat_at_cog = self.at_cog.inertia_matrix
         assert len(point) == 3
-        self._point = np.asarray(point, dtype=float)
+        self._point = np.array(point, dtype=float)
         self._3d_rotational_inertia = mat_at_cog + self._huygens_transport()
 
     @property
@@ -113,7 +113,7 @@ class RigidBodyInertia(object):
         """
         assert len(cog) == 3
         assert isinstance(cog, (tuple, list, np.ndarray))
-        self._cog = np.asarray(cog, dtype=float)
+        self._cog = np.array(cog, dtype=float)
 
     def shift_at_cog(self):
         """Shift the inertia matrix internally at cog.
-- 
2.43.0


From 26524c47ad0ed5d4bb210daefaf91596fd7600d7 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 04:19:09 +0000
Subject: [PATCH 48/54] fix: the mass given to Hydrostatics is in tons,
 converted once

---
 meshmagick/hydrostatics_old.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics_old.py b/meshmagick/hydrostatics_old.py
index 16c97bf..8b11401 100644
--- a/meshmagick/hydrostatics_old.py
+++ b/meshmagick/hydrostatics_old.py
@@ -166,7 +166,7 @@ class Hydrostatics(object):
         self._update_hydrostatic_properties()
 
         if mass:
-            self.mass = mass * 1000.  # conversion in kg
+            self.mass = mass
         else:
             self._mass = self.hs_data['disp_mass']
 
-- 
2.43.0


From ff42e3985a621e2cddf668b8835b2e2a6efb0e05 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 04:19:09 +0000
Subject: [PATCH 49/54] fix: Hydrostatics keeps its own center of gravity and
 backup

---
 meshmagick/hydrostatics_old.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/hydrostatics_old.py b/meshmagick/hydrostatics_old.py
index 8b11401..6548829 100644
--- a/meshmagick/hydrostatics_old.py
+++ b/meshmagick/hydrostatics_old.py
@@ -260,9 +260,9 @@ class Hydrostatics(object):
     @gravity_center.setter
     def gravity_center(self, value):
         """Set the gravity center position"""
-        value = np.asarray(value, dtype=float)
-        self.backup['gravity_center'] = value
+        value = np.array(value, dtype=float)
         assert value.shape[0] == 3
+        self.backup['gravity_center'] = value.copy()
         self._gravity_center = value
         self._update_hydrostatic_properties()
 
-- 
2.43.0


From b479430fd15ee97b36e148dbede5cbb8ca0a132b Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 04:19:09 +0000
Subject: [PATCH 50/54] fix: a Force keeps its own point and value

---
 meshmagick/hydrostatics_old.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/hydrostatics_old.py b/meshmagick/hydrostatics_old.py
index 6548829..f6ea7be 100644
--- a/meshmagick/hydrostatics_old.py
+++ b/meshmagick/hydrostatics_old.py
@@ -46,8 +46,8 @@ class Force(object):
         assert len(value) == 3
         assert mode in ('relative', 'absolute')
 
-        self.point = np.asarray(point, dtype=float)
-        self.value = np.asarray(value, dtype=float)
+        self.point = np.array(point, dtype=float)
+        self.value = np.array(value, dtype=float)
         self.name = str(name)
         self.mode = mode
 
-- 
2.43.0


From 4087dce9ef8cf7f944b8ae284d360e341f3d44f2 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 04:19:09 +0000
Subject: [PATCH 51/54] fix: hydrostatic inertias are about the center of the
 immersed volume

---
 meshmagick/hydrostatics_old.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics_old.py b/meshmagick/hydrostatics_old.py
index f6ea7be..7252ccb 100644
--- a/meshmagick/hydrostatics_old.py
+++ b/meshmagick/hydrostatics_old.py
@@ -694,7 +694,7 @@ class Hydrostatics(object):
         self.hs_data['breadth'] = maxy - miny
 
         # TODO: we should better store the inertia object !
-        inertia.shift_at_cog()
+        inertia = inertia.at_cog
         self.hs_data['Ixx'] = inertia.xx
         self.hs_data['Iyy'] = inertia.yy
         self.hs_data['Izz'] = inertia.zz
-- 
2.43.0


From d022df38baac439cee275c00c68574aa1c66bcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:21 +0000
Subject: [PATCH 52/54] fix: product of inertia of the waterplane in the
 Hydrostatics class

---
 meshmagick/hydrostatics_old.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics_old.py b/meshmagick/hydrostatics_old.py
index 7252ccb..9edc86b 100644
--- a/meshmagick/hydrostatics_old.py
+++ b/meshmagick/hydrostatics_old.py
@@ -615,7 +615,7 @@ class Hydrostatics(object):
                 sigma1 += dy * (px * px - xi * xii)
                 sigma2 += dx * (py * py - yi * yii)
                 # sigma3 += dy * (py * a + 2 * px * (xi * yi + xii * yii))
-                sigma3 += dy * (py * px * px + yi * xi * xi + yii * xii * xii)
+                sigma3 += dy * (py * px * px + 2 * yi * xi * xi + 2 * yii * xii * xii)
                 sigma4 += dy * (xi * xi + xii * xii) * px
                 sigma5 += dx * (yi * yi + yii * yii) * py
 
-- 
2.43.0


From 0722d31cb88e49d08f8686f977cfe7b774955b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:36 +0000
Subject: [PATCH 53/54] fix: equilibrate judges the stability of the hull
 wherever it lies, with up to date data

---
 meshmagick/hydrostatics_old.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/meshmagick/hydrostatics_old.py b/meshmagick/hydrostatics_old.py
index 9edc86b..736f318 100644
--- a/meshmagick/hydrostatics_old.py
+++ b/meshmagick/hydrostatics_old.py
@@ -1125,6 +1125,14 @@ class Hydrostatics(object):
             for force in self.additional_forces:
                 force.update(dz=dz, rot=rot_matrix)
 
+            # Zeroing xcog and ycog, the stability being evaluated with respect to the axes passing by the origin
+            self.mesh.translate([-self._gravity_center[0], -self._gravity_center[1], 0.])
+
+            for force in self.additional_forces:
+                force.update_xy(-self._gravity_center[0], -self._gravity_center[1])
+
+            self._gravity_center[:2] = 0.
+
             self._reinit_clipper()
             self._update_hydrostatic_properties()
 
@@ -1171,15 +1179,6 @@ class Hydrostatics(object):
 
             iter += 1
 
-        # Zeroing xcog and ycog
-        self.mesh.translate([-self._gravity_center[0], -self._gravity_center[1], 0.])
-        self.hs_data['buoy_center'][:2] -= self._gravity_center[:2]
-
-        for force in self.additional_forces:
-            force.update_xy(-self._gravity_center[0], -self._gravity_center[1])
-
-        self._gravity_center[:2] = 0.
-
         if self.verbose:
             if code == 0:
                 print("\t-> Maximum number of restart reached. Failed to find an equilibrium position.")
-- 
2.43.0


From 862648f0c6e7146d7f5fb0b774dcd125c08e8a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:44 +0000
Subject: [PATCH 54/54] fix: keep the numbers of nodes and faces apart in NAT
 files

---
 meshmagick/mmio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index d965f6e..5bac0f0 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1620,7 +1620,7 @@ def write_NAT(filename, vertices, faces):
     nf = np.shape(faces)[0]
 
     ofile.write('%6u%6u\n' % (0, 0))  # lire les symmetries dans args...
-    ofile.write('%6u%6u\n' % (nv, nf))
+    ofile.write('%6u %6u\n' % (nv, nf))
     for vertex in vertices:
         ofile.write('%15.6E%15.6E%15.6E\n' % (vertex[0], vertex[1], vertex[2]))
     for cell in faces+1:
-- 
2.43.0

