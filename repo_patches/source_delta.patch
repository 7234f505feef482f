From da39f467fe1be596e3ea1fff1fd7ffa0c9e0db60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 01/64] fix: SplineBasis.make_equidistant truncated knots for
 an integer knot_range

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 89a67be..b3e4613 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -37,7 +37,7 @@ class SplineBasis:
         :return: SplineBasis object.
         """
         n = n_intervals + 2 * degree + 1
-        knots = np.array((knot_range[0],) * n)
+        knots = np.full(n, knot_range[0], dtype=float)
         diff = (knot_range[1] - knot_range[0]) / n_intervals
         for i in range(degree + 1, n - degree):
             knots[i] = (i - degree) * diff + knot_range[0]
-- 
2.43.0


From 3b9a058ba0607ce925b513fbe964e2231bf43a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 02/64] fix: Surface.deep_copy lost the rational flag and
 shared knot vectors

---
 src/bgem/bspline/bspline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index b3e4613..fdd7281 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -565,10 +565,10 @@ class Surface:
         return self.eval_local(u, v, iu, iv)
 
     def deep_copy(self):
-        u_basis = copy.copy(self.u_basis)
-        v_basis = copy.copy(self.v_basis)
+        u_basis = copy.deepcopy(self.u_basis)
+        v_basis = copy.deepcopy(self.v_basis)
         poles = copy.copy(self.poles)
-        return Surface( ( u_basis, v_basis), poles)
+        return Surface( ( u_basis, v_basis), poles, self.rational)
 
     def eval_array(self, uv_points):
         """
-- 
2.43.0


From bf59095b6a29bc7ae71c199981980aee007ffdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 03/64] fix: rational Curve and Surface could not be built from
 a list of poles

---
 src/bgem/bspline/bspline.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index fdd7281..4f6b0a1 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -381,8 +381,8 @@ class Curve:
 
         if rational:
             # precomputations
-            self._weights = poles[:, self.dim]
-            self._poles = (poles[:, 0:self.dim].T * self._weights ).T
+            self._weights = self.poles[:, self.dim]
+            self._poles = (self.poles[:, 0:self.dim].T * self._weights ).T
 
         # BIH tree
         self._boxes = None
@@ -513,8 +513,8 @@ class Surface:
         # Rational surface indicator.
         if rational:
             # precomputations
-            self._weights = poles[:, :, self.dim]
-            self._poles = (poles[:, :, 0:self.dim].T * self._weights.T ).T
+            self._weights = self.poles[:, :, self.dim]
+            self._poles = (self.poles[:, :, 0:self.dim].T * self._weights.T ).T
 
     @property
     def u_basis(self):
-- 
2.43.0


From 743c667eec96f1111e7b1ac2703822842f880c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 04/64] fix: bounding box of rational Curve and Surface
 contained the weights

---
 src/bgem/bspline/bspline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 4f6b0a1..09670d8 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -434,7 +434,8 @@ class Curve:
         Return Axes Aligned Bounding Box of the poles, which should be also bounding box of the curve itself.
         :return: ( min_corner, max_corner); Box corners are numpy arryas of dimension D.
         """
-        return np.array( [np.amin(self.poles, axis=0), np.amax(self.poles, axis=0)] )
+        poles = self.poles[:, 0:self.dim]
+        return np.array( [np.amin(poles, axis=0), np.amax(poles, axis=0)] )
 
     def bounding_boxes(self):
         """
@@ -585,7 +586,8 @@ class Surface:
         :return: ( min_corner, max_corner); Box corners are numpy arryas of dimension D.
         TODO: test
         """
-        return np.array( [np.amin(self.poles, axis=(0,1)), np.amax(self.poles, axis=(0,1))] )
+        poles = self.poles[:, :, 0:self.dim]
+        return np.array( [np.amin(poles, axis=(0,1)), np.amax(poles, axis=(0,1))] )
 
 
     def bounding_boxes(self):
-- 
2.43.0


From 77551a59e327077a99ececed86edd50848873493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 05/64] fix: patch bounding boxes assumed degree 2 and
 polynomial poles

---
 src/bgem/bspline/bspline.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 09670d8..5224db1 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -444,7 +444,8 @@ class Curve:
         :return:
         """
         tree = bih.BIH()
-        boxes = [bih.AABB(self.poles[it:it + 3, :].tolist()) for it in range(self.basis.n_intervals)]
+        dt = self.basis.degree + 1
+        boxes = [bih.AABB(self.poles[it:it + dt, 0:self.dim].tolist()) for it in range(self.basis.n_intervals)]
         tree.add_boxes(boxes)
         tree.construct()
 
@@ -599,14 +600,16 @@ class Surface:
         tree = bih.BIH()
         n_patch = self.u_basis.n_intervals * self.v_basis.n_intervals
 
-        patch_poles = np.zeros([9, 3, n_patch])
+        du = self.u_basis.degree + 1
+        dv = self.v_basis.degree + 1
+        patch_poles = np.zeros([du * dv, self.dim, n_patch])
         i_patch = 0
         for iu in range(self.u_basis.n_intervals):
             for iv in range(self.v_basis.n_intervals):
                 n_points = 0
-                for i in range(0, 3):
-                    for j in range(0, 3):
-                        patch_poles[n_points, :, i_patch] = self.poles[iu + i, iv + j, :]
+                for i in range(0, du):
+                    for j in range(0, dv):
+                        patch_poles[n_points, :, i_patch] = self.poles[iu + i, iv + j, 0:self.dim]
                         n_points += 1
                 assert i_patch == self.patch_pos2id(iu, iv)
                 i_patch += 1
-- 
2.43.0


From 3ff13471acd88f569d96f3bf3b8ad5863bf6db80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 06/64] fix: Z_Surface.get_copy used XY mapping of the original
 surface

---
 src/bgem/bspline/bspline.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 5224db1..7aac7a7 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -815,7 +815,11 @@ class Z_Surface:
         bs.Surface for Z coordinates (Z poles).
         :return: A copy of the Z_Surface object.
         """
-        return copy.copy(self)
+        z_surf = copy.copy(self)
+        # bind the mapping methods to the copy
+        z_surf.xy_to_uv = getattr(z_surf, self.xy_to_uv.__name__)
+        z_surf.uv_to_xy = getattr(z_surf, self.uv_to_xy.__name__)
+        return z_surf
 
 
     """
-- 
2.43.0


From 61b360b1b75fd3b9f2cc674f7db0959aa2519741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 07/64] fix: Z_Surface.aabb swapped Z bounds for negative Z
 scale

---
 src/bgem/bspline/bspline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 7aac7a7..dd26e1c 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -935,7 +935,8 @@ class Z_Surface:
         xyz_box = np.empty( (2, 3) )
         xyz_box[0, 0:2] = np.amin(self.quad, axis=0)
         xyz_box[1, 0:2] = np.amax(self.quad, axis=0)
-        xyz_box[:, 2] = self._z_mat[0] * self.z_surface.aabb()[:, 0] + self._z_mat[1]
+        z_range = self._z_mat[0] * self.z_surface.aabb()[:, 0] + self._z_mat[1]
+        xyz_box[:, 2] = np.sort(z_range)
         return xyz_box
 
 
-- 
2.43.0


From 0e02d221412b7b8d6274bee458f11898d95f8b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 08/64] fix: GridSurface.z_eval_array ignored the center of the
 Z scaling

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index dd26e1c..5686956 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -1166,7 +1166,7 @@ class GridSurface:
             u_loc = np.array([1 - uv_loc[0], uv_loc[0]])
             v_loc = np.array([1 - uv_loc[1], uv_loc[1]])
             Z_mat = self.grid_uvz[iu: (iu + 2), iv: (iv + 2), 2]
-            result[i] = self.z_surface.z_mat[0]*(u_loc.dot(Z_mat).dot(v_loc)) + self.z_surface.z_mat[1]
+            result[i] = self.z_surface._z_mat[0]*(u_loc.dot(Z_mat).dot(v_loc)) + self.z_surface._z_mat[1]
         return result
 
 
-- 
2.43.0


From 592a687fdb4435f9b524ed578d78b9574d57c6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:54 +0000
Subject: [PATCH 09/64] fix: SurfacePoint reported wrong patches for other
 degree than 2 or other domain than [0, 1]

---
 src/bgem/bspline/surface_point.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bgem/bspline/surface_point.py b/src/bgem/bspline/surface_point.py
index 27be9b0..8a208f9 100644
--- a/src/bgem/bspline/surface_point.py
+++ b/src/bgem/bspline/surface_point.py
@@ -64,15 +64,16 @@ class SurfacePoint:
         interface_flag as   "-1" corresponds to lower bound of the curve
                             "1" corresponds to upper bound of the curve
                             "0" corresponds to the interior points of the curve
-        boundary_flag as    "1" if parameter corresponds to the surface boundary, i.e, equal to 0 or 1
+        boundary_flag as    "1" if parameter corresponds to the surface boundary, i.e, equal to the domain bounds
                             "0" otherwise
 
         """
 
         ti = np.zeros((2, 2))
 
-        ti[0, 0:2] = self.surf.u_basis.knots[self.iuv[0][0] + 2:self.iuv[0][0] + 4]
-        ti[1, 0:2] = self.surf.v_basis.knots[self.iuv[0][1] + 2:self.iuv[0][1] + 4]
+        ti[0, 0:2] = self.surf.u_basis.knot_interval_bounds(self.iuv[0][0])
+        ti[1, 0:2] = self.surf.v_basis.knot_interval_bounds(self.iuv[0][1])
+        domain = (self.surf.u_basis.domain, self.surf.v_basis.domain)
 
         for i in range(2):
             if abs(ti[i, 0] - self.uv[i]) == 0:
@@ -80,8 +81,7 @@ class SurfacePoint:
             elif abs(ti[i, 1] - self.uv[i]) == 0:
                 self.interface_flag[i] = int(1)
 
-            # max/ min parameter value instead of 0 / 1
-            if np.logical_or(self.uv[i] == 0, self.uv[i] == 1):
+            if np.logical_or(self.uv[i] == domain[i][0], self.uv[i] == domain[i][1]):
                 self.boundary_flag[i] = 1
 
     # def patch_id(self):
-- 
2.43.0


From 5e784fe5384daa74023b2c0d497fa2ddafb5e4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:54 +0000
Subject: [PATCH 10/64] fix: CurvePoint could not be constructed

---
 src/bgem/bspline/curve_point.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bgem/bspline/curve_point.py b/src/bgem/bspline/curve_point.py
index 544f68d..4237fe5 100644
--- a/src/bgem/bspline/curve_point.py
+++ b/src/bgem/bspline/curve_point.py
@@ -20,7 +20,7 @@ class CurvePoint:
 
         self.interface_flag = 0
         self.boundary_flag = 0
-        self._curve_boundary_intersection()
+        self.curve_boundary_intersection()
         self.extend_patches()
 
     def extend_patches(self):
@@ -29,7 +29,7 @@ class CurvePoint:
         :return:
         """
 
-        if np.logical_and(self.curve_boundary_flag == 0, self.interface_flag != 0):
+        if np.logical_and(self.boundary_flag == 0, self.interface_flag != 0):
             it = self.it[0] + self.interface_flag
             self.it.append(it)
 
@@ -43,20 +43,20 @@ class CurvePoint:
         interface_flag as   "-1" corresponds to lower bound of the curve
                             "1" corresponds to upper bound of the curve
                             "0" corresponds to the interior points of the curve
-        boundary_flag as    "1" if parameter corresponds to the surface boundary, i.e, equal to 0 or 1
+        boundary_flag as    "1" if parameter corresponds to the curve end, i.e, equal to the domain bounds
                             "0" otherwise
 
         """
 
-        t0 = self.surf.basis.knots[self.it[0] + 2]
-        t1 = self.surf.basis.knots[self.it[0] + 3]
+        t0, t1 = self.curv.basis.knot_interval_bounds(self.it[0])
+        domain = self.curv.basis.domain
 
         if abs(t0 - self.t) == 0:
             self.interface_flag = -1
         elif abs(t1 - self.t) == 0:
             self.interface_flag = 1
 
-        if np.logical_or(self.t == 0, self.t == 1):
+        if np.logical_or(self.t == domain[0], self.t == domain[1]):
             self.boundary_flag = 1
 
 
-- 
2.43.0


From 4d63d567975be490983dba5e6e9d1680e7f6a6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:54 +0000
Subject: [PATCH 11/64] fix: overhang of integer vertices failed and of
 non-parallelogram patches left the bilinear surface

---
 src/bgem/bspline/bspline_approx.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 4843f28..b840428 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -47,11 +47,14 @@ def bilinear_surface(vtxs, overhang=0.0):
     :return: ( Surface, vtxs_uv )
     """
     assert len(vtxs) == 4, "n vtx: {}".format(len(vtxs))
-    vtxs = np.array(vtxs)
+    vtxs = np.array(vtxs, dtype=float)
     if overhang > 0.0:
         dv = np.roll(vtxs, -1, axis=0) - vtxs
         dv *= overhang
+        # twist of the bilinear map, zero for a parallelogram
+        twist = overhang * overhang * (vtxs[0] - vtxs[1] + vtxs[2] - vtxs[3])
         vtxs +=  np.roll(dv, 1, axis=0) - dv
+        vtxs += np.outer([1, -1, 1, -1], twist)
 
     def mid(*idx):
         return np.mean( vtxs[list(idx)], axis=0)
@@ -78,7 +81,7 @@ def line(vtxs, overhang = 0.0):
     :return: Curve2D
     '''
     assert len(vtxs) == 2
-    vtxs = np.array(vtxs)
+    vtxs = np.array(vtxs, dtype=float)
     if overhang > 0.0:
         dv = overhang*(vtxs[1] - vtxs[0])
         vtxs[0] -= dv
-- 
2.43.0


From 394136910ad62a775ab5489143ef757f9db240d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 12/64] fix: Z_Surface.eval failed to build the point from an
 array valued height

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 5686956..f3b67a7 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -866,7 +866,7 @@ class Z_Surface:
         :param u, v: Evaluation point.
         :return: D-dimensional numpy array. D - is dimension given by dimension of poles.
         """
-        z = self.z_surface.eval(u, v)
+        z = self.z_surface.eval(u, v)[0]
         z = self._z_mat[0] * z + self._z_mat[1]
         uv_points = np.array([[u, v]])
         x, y = self.uv_to_xy( uv_points )[0]
-- 
2.43.0


From c98545902c93bfc457b019fc5331a938e30469e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 13/64] fix: SurfaceApprox failed for points with weights

---
 src/bgem/bspline/bspline_approx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index b840428..7ef2c88 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -434,8 +434,8 @@ class SurfaceApprox:
         g_vec = self._z_quad_points[:]
         if self._weights is not None:
             W = scipy.sparse.diags(self._w_quad_points, 0)
-            wg_vec = np.dot(W, g_vec)
-            wb_mat = np.dot(W, b_mat)
+            wg_vec = W.dot(g_vec)
+            wb_mat = W.dot(b_mat)
         else:
             wg_vec = g_vec
             wb_mat = b_mat
-- 
2.43.0


From 81eb7afc0129c14b520e7f05d80728f3d9f48ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 14/64] fix: SurfaceApprox dropped boundary points due to
 rounding errors

---
 src/bgem/bspline/bspline_approx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 7ef2c88..711e4e0 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -512,8 +512,8 @@ class SurfaceApprox:
         mat_xy_to_uv = la.inv(mat_uv_to_xy)
         points_uv = np.dot((self._xy_points - xy_shift), mat_xy_to_uv.T)
 
-        # remove points far from unit square
-        eps = 1.0e-15
+        # remove points far from unit square, keep boundary points in presence of rounding errors
+        eps = 1.0e-8
         cut_min = np.array( [ -eps, -eps ])
         cut_max = np.array( [ 1+eps, 1+eps ])
         in_idx = np.all(np.logical_and(cut_min < points_uv,  points_uv <= cut_max), axis=1)
-- 
2.43.0


From bb01380c57e8d0448ac745ce65a2eead6eb08d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 15/64] fix: convex_hull_2d lost points of a vertical line

---
 src/bgem/bspline/bspline_approx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 711e4e0..521db6e 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -164,9 +164,9 @@ def convex_hull_2d(sample):
             return base
 
     if len(sample) > 2:
-        axis = sample[:,0]
-        # Get left most and right most points.
-        base = np.take(sample, [np.argmin(axis), np.argmax(axis)], 0)
+        # Get left most and right most points (sorted by X then by Y, to handle points with same X).
+        order = np.lexsort((sample[:, 1], sample[:, 0]))
+        base = np.take(sample, [order[0], order[-1]], 0)
         return link(dome(sample, base), dome(sample, base[::-1]))
     else:
         return sample
-- 
2.43.0


From fa3cff5677da528e074da98a1960a009caa78799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 16/64] fix: SurfaceApprox failed for nuv=(1, 1)

---
 src/bgem/bspline/bspline_approx.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 521db6e..2c8c038 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -446,9 +446,10 @@ class SurfaceApprox:
 
         logging.info('Computing A and B svds approximation ...')
         start_time = time.time()
-        bb_norm = scipy.sparse.linalg.svds(bb_mat, k=1, ncv=10, tol=1e-2, which='LM', v0=None,
+        ncv = min(10, a_mat.shape[0] - 1)
+        bb_norm = scipy.sparse.linalg.svds(bb_mat, k=1, ncv=ncv, tol=1e-2, which='LM', v0=None,
                                            maxiter=300, return_singular_vectors=False)
-        a_norm = scipy.sparse.linalg.eigsh(a_mat, k=1, ncv=10, tol=1e-2, which='LM',
+        a_norm = scipy.sparse.linalg.eigsh(a_mat, k=1, ncv=ncv, tol=1e-2, which='LM',
                                           maxiter=300, return_eigenvectors=False)
         c_mat = bb_mat + self.regularization_weight * (bb_norm[0] / a_norm[0]) * a_mat
         end_time = time.time()
-- 
2.43.0


From 0f77d69942b59fb24828f44821e6fb674896a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 17/64] fix: IsecCurveSurf.get_intersection moved off the
 converged point when the residual equals the tolerance

---
 src/bgem/bspline/isec_curve_surf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/isec_curve_surf.py b/src/bgem/bspline/isec_curve_surf.py
index cb276d7..9360ee5 100644
--- a/src/bgem/bspline/isec_curve_surf.py
+++ b/src/bgem/bspline/isec_curve_surf.py
@@ -80,7 +80,7 @@ class IsecCurveSurf:
             J, xyz1, xyz2 = self._compute_jacobian_and_coordinates(uvt, iuvt)
             delta_xyz = xyz1 - xyz2
             conv = (la.norm(delta_xyz) <= abs_tol)
-            if la.norm(delta_xyz) < abs_tol:
+            if conv:
                 break
 
             delta_xyz = delta_xyz.flatten()
-- 
2.43.0


From 81e80be7601933a518fd8329332463c0ec8c4a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:38 +0000
Subject: [PATCH 18/64] fix: AABB_Lookup.closest_candidates returned empty
 slots when all boxes were removed

---
 src/bgem/polygons/aabb_lookup.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bgem/polygons/aabb_lookup.py b/src/bgem/polygons/aabb_lookup.py
index ea788f6..89d5bee 100644
--- a/src/bgem/polygons/aabb_lookup.py
+++ b/src/bgem/polygons/aabb_lookup.py
@@ -74,7 +74,7 @@ class AABB_Lookup:
         boxes = self.boxes[:self.n_boxes, :]
         if boxes.shape[0] == 0 :
             return []
-        inf_dists = np.max(np.maximum(self.boxes[:, 0:2] - point, point - self.boxes[:, 2:4]), axis=1)
+        inf_dists = np.max(np.maximum(boxes[:, 0:2] - point, point - boxes[:, 2:4]), axis=1)
         if np.amin(inf_dists) > 0.0:
             # closest box not containing the point
             i_closest = np.argmin(inf_dists)
@@ -89,7 +89,8 @@ class AABB_Lookup:
         #except:
         #    pass
         l2_max = np.sqrt(2) * l_inf_max
-        return np.where(inf_dists < l2_max)[0]
+        # skip empty slots
+        return np.where(np.logical_and(inf_dists < l2_max, boxes[:, 0] < self.inf))[0]
 
 
     def intersect_candidates(self, box):
-- 
2.43.0


From 6de94c98733815175e13fa25872857ac55f1b89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:38 +0000
Subject: [PATCH 19/64] fix: AABB_Lookup.closest_candidates missed boxes at the
 limit distance, e.g. a point box equal to the point

---
 src/bgem/polygons/aabb_lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/polygons/aabb_lookup.py b/src/bgem/polygons/aabb_lookup.py
index 89d5bee..0c9c8d4 100644
--- a/src/bgem/polygons/aabb_lookup.py
+++ b/src/bgem/polygons/aabb_lookup.py
@@ -90,7 +90,7 @@ class AABB_Lookup:
         #    pass
         l2_max = np.sqrt(2) * l_inf_max
         # skip empty slots
-        return np.where(np.logical_and(inf_dists < l2_max, boxes[:, 0] < self.inf))[0]
+        return np.where(np.logical_and(inf_dists <= l2_max, boxes[:, 0] < self.inf))[0]
 
 
     def intersect_candidates(self, box):
-- 
2.43.0


From 215c465b1c975f7a201dc288adbd364c45bc3eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:19 +0000
Subject: [PATCH 20/64] fix: undo.Stack.redocount returned the number of undos

---
 src/bgem/undo.py | 650 +++++++++++++++++++++++------------------------
 1 file changed, 325 insertions(+), 325 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index d1ca510..7d2bcae 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -1,325 +1,325 @@
-#!/usr/bin/env python3
-# -*- coding: utf-8 -*-
-#
-# Copyright (c) 2011 David Townshend
-#
-# This program is free software; you can redistribute it and/or modify it
-# under the terms of the GNU General Public License as published by the
-# Free Software Foundation; either version 2 of the License, or (at your
-# option) any later version.
-#
-# This program is distributed in the hope that it will be useful, but
-# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
-# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
-# for more details.
-#
-# You should have received a copy of the GNU General Public License along
-# with this program; if not, write to the Free Software Foundation, Inc.,
-# 675 Mass Ave, Cambridge, MA 02139, USA.
-
-__version__ = '0.5.1'
-__author__ = 'David Townshend'
-
-__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
-
-import contextlib
-
-from collections import deque
-
-class _Action:
-    ''' This represents an action which can be done and undone.
-    
-    It is the result of a call on an undoable function and has
-    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
-    returned by the internal call in ``do()`` is the value which will 
-    subsequently be returned by ``text``.  Any remaining values are 
-    returned by ``do()``.
-    '''
-    def __init__(self, generator, args, kwargs):
-        self._generator = generator
-        self.args = args
-        self.kwargs = kwargs
-        self._text = ''
-
-    def do(self):
-        'Do or redo the action'
-        self._runner = self._generator(*self.args, **self.kwargs)
-        rets = next(self._runner)
-        if isinstance(rets, tuple):
-            self._text = rets[0]
-            return rets[1:]
-        elif rets is None:
-            self._text = ''
-            return None
-        else:
-            self._text = rets
-            return None
-
-    def undo(self):
-        'Undo the action'
-        try:
-            next(self._runner)
-        except StopIteration:
-            pass
-        # Delete it so that its not accidentally called again
-        del self._runner
-
-    def text(self):
-        'Return the descriptive text of the action'
-        return self._text
-
-
-def undoable(generator):
-    ''' Decorator which creates a new undoable action type. 
-    
-    This decorator should be used on a generator of the following format::
-    
-        @undoable
-        def operation(*args):
-            do_operation_code
-            yield 'descriptive text'
-            undo_operator_code
-    '''
-    def inner(*args, **kwargs):
-        action = _Action(generator, args, kwargs)
-        ret = action.do()
-        stack().append(action)
-        if isinstance(ret, tuple):
-            if len(ret) == 1:
-                return ret[0]
-            elif len(ret) == 0:
-                return None
-        return ret
-    return inner
-
-
-class _Group:
-    ''' A undoable group context manager. '''
-
-    def __init__(self, desc):
-        self._desc = desc
-        self._stack = []
-
-    def __enter__(self):
-        stack().setreceiver(self._stack)
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_type is None:
-            stack().resetreceiver()
-            stack().append(self)
-        return False
-
-    def undo(self):
-        for undoable in reversed(self._stack):
-            undoable.undo()
-
-    def do(self):
-        for undoable in self._stack:
-            undoable.do()
-
-    def text(self):
-        return self._desc.format(count=len(self._stack))
-
-
-def group(desc):
-    ''' Return a context manager for grouping undoable actions. 
-    
-    All actions which occur within the group will be undone by a single call
-    of `stack.undo`, e.g.
-    
-    >>> @undoable
-    ... def operation(n):
-    ...     yield
-    ...     print(n)
-    >>> with group('text'):
-    ...     for n in range(3):
-    ...         operation(n)
-    >>> operation(3)
-    >>> stack().undo()
-    3
-    >>> stack().undo()
-    2
-    1
-    0
-    '''
-    return _Group(desc)
-
-
-class Stack:
-    ''' The main undo stack. 
-        
-    The two key features are the :func:`redo` and :func:`undo` methods. If an 
-    exception occurs during doing or undoing a undoable, the undoable
-    aborts and the stack is cleared to avoid any further data corruption. 
-    
-    The stack provides two properties for tracking actions: *docallback* 
-    and *undocallback*. Each of these allow a callback function to be set
-    which is called when an action is done or undone repectively. By default, 
-    they do nothing.
-    
-    >>> def done():
-    ...     print('Can now undo: {}'.format(stack().undotext()))
-    >>> def undone():
-    ...     print('Can now redo: {}'.format(stack().redotext()))
-    >>> stack().docallback = done
-    >>> stack().undocallback = undone
-    >>> @undoable
-    ... def action():
-    ...     yield 'An action'
-    >>> action()
-    Can now undo: Undo An action
-    >>> stack().undo()
-    Can now redo: Redo An action
-    >>> stack().redo()
-    Can now undo: Undo An action
-    
-    Setting them back to ``lambda: None`` will stop any further actions.
-    
-    >>> stack().docallback = stack().undocallback = lambda: None
-    >>> action()
-    >>> stack().undo()
-    
-    It is possible to mark a point in the undo history when the document
-    handled is saved. This allows the undo system to report whether a 
-    document has changed. The point is marked using :func:`savepoint` and
-    :func:`haschanged` returns whether or not the state has changed (either
-    by doing or undoing an action). Only one savepoint can be tracked,
-    marking a new one removes the old one.
-    
-    >>> stack().savepoint()
-    >>> stack().haschanged()
-    False
-    >>> action()
-    >>> stack().haschanged()
-    True
-    '''
-
-    def __init__(self):
-        self._undos = deque()
-        self._redos = deque()
-        self._receiver = self._undos
-        self._savepoint = None
-        self.undocallback = lambda: None
-        self.docallback = lambda: None
-
-    def canundo(self):
-        ''' Return *True* if undos are available '''
-        return len(self._undos) > 0
-
-    def canredo(self):
-        ''' Return *True* if redos are available '''
-        return len(self._redos) > 0
-
-    def redo(self):
-        ''' Redo the last undone action. 
-        
-        This is only possible if no other actions have occurred since the 
-        last undo call.
-        '''
-        if self.canredo():
-            undoable = self._redos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.do()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._undos.append(undoable)
-            self.docallback()
-
-    def undo(self):
-        ''' Undo the last action. '''
-        if self.canundo():
-            undoable = self._undos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.undo()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._redos.append(undoable)
-            self.undocallback()
-
-    def clear(self):
-        ''' Clear the undo list. '''
-        self._undos.clear()
-        self._redos.clear()
-        self._savepoint = None
-        self._receiver = self._undos
-
-    def undocount(self):
-        ''' Return the number of undos available. '''
-        return len(self._undos)
-
-    def redocount(self):
-        ''' Return the number of redos available. '''
-        return len(self._undos)
-
-    def undotext(self):
-        ''' Return a description of the next available undo. '''
-        if self.canundo():
-            return ('Undo ' + self._undos[-1].text()).strip()
-
-    def redotext(self):
-        ''' Return a description of the next available redo. '''
-        if self.canredo():
-            return ('Redo ' + self._redos[-1].text()).strip()
-
-    @contextlib.contextmanager
-    def _pausereceiver(self):
-        ''' Return a contect manager which temporarily pauses the receiver. '''
-        self.setreceiver([])
-        yield
-        self.resetreceiver()
-
-    def setreceiver(self, receiver=None):
-        ''' Set an object to receiver commands pushed onto the stack.
-        
-        By default it is the internal stack, but it can be set (usually
-        internally) to any object with an *append()* method.
-        '''
-        assert hasattr(receiver, 'append')
-        self._receiver = receiver
-
-    def resetreceiver(self):
-        ''' Reset the receiver to the internal stack.'''
-        self._receiver = self._undos
-
-    def append(self, action):
-        ''' Add a undoable to the stack, using ``receiver.append()``. '''
-        if self._receiver is not None:
-            self._receiver.append(action)
-        if self._receiver is self._undos:
-            self._redos.clear()
-            self.docallback()
-
-    def savepoint(self):
-        ''' Set the savepoint. '''
-        self._savepoint = self.undocount()
-
-    def haschanged(self):
-        ''' Return *True* if the state has changed since the savepoint. 
-        
-        This will always return *True* if the savepoint has not been set.
-        '''
-        return self._savepoint is None or self._savepoint != self.undocount()
-
-
-_stack = None
-
-def stack():
-    ''' Return the currently used stack.
-    
-    If no stack has been set, a new one is created and set.
-    '''
-    global _stack
-    if _stack is None:
-        _stack = Stack()
-    return _stack
-
-def setstack(stack):
-    ''' Set the undo stack to a specific `Stack` object.'''
-    global _stack
-    _stack = stack
+#!/usr/bin/env python3
+# -*- coding: utf-8 -*-
+#
+# Copyright (c) 2011 David Townshend
+#
+# This program is free software; you can redistribute it and/or modify it
+# under the terms of the GNU General Public License as published by the
+# Free Software Foundation; either version 2 of the License, or (at your
+# option) any later version.
+#
+# This program is distributed in the hope that it will be useful, but
+# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
+# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
+# for more details.
+#
+# You should have received a copy of the GNU General Public License along
+# with this program; if not, write to the Free Software Foundation, Inc.,
+# 675 Mass Ave, Cambridge, MA 02139, USA.
+
+__version__ = '0.5.1'
+__author__ = 'David Townshend'
+
+__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
+
+import contextlib
+
+from collections import deque
+
+class _Action:
+    ''' This represents an action which can be done and undone.
+    
+    It is the result of a call on an undoable function and has
+    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
+    returned by the internal call in ``do()`` is the value which will 
+    subsequently be returned by ``text``.  Any remaining values are 
+    returned by ``do()``.
+    '''
+    def __init__(self, generator, args, kwargs):
+        self._generator = generator
+        self.args = args
+        self.kwargs = kwargs
+        self._text = ''
+
+    def do(self):
+        'Do or redo the action'
+        self._runner = self._generator(*self.args, **self.kwargs)
+        rets = next(self._runner)
+        if isinstance(rets, tuple):
+            self._text = rets[0]
+            return rets[1:]
+        elif rets is None:
+            self._text = ''
+            return None
+        else:
+            self._text = rets
+            return None
+
+    def undo(self):
+        'Undo the action'
+        try:
+            next(self._runner)
+        except StopIteration:
+            pass
+        # Delete it so that its not accidentally called again
+        del self._runner
+
+    def text(self):
+        'Return the descriptive text of the action'
+        return self._text
+
+
+def undoable(generator):
+    ''' Decorator which creates a new undoable action type. 
+    
+    This decorator should be used on a generator of the following format::
+    
+        @undoable
+        def operation(*args):
+            do_operation_code
+            yield 'descriptive text'
+            undo_operator_code
+    '''
+    def inner(*args, **kwargs):
+        action = _Action(generator, args, kwargs)
+        ret = action.do()
+        stack().append(action)
+        if isinstance(ret, tuple):
+            if len(ret) == 1:
+                return ret[0]
+            elif len(ret) == 0:
+                return None
+        return ret
+    return inner
+
+
+class _Group:
+    ''' A undoable group context manager. '''
+
+    def __init__(self, desc):
+        self._desc = desc
+        self._stack = []
+
+    def __enter__(self):
+        stack().setreceiver(self._stack)
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        if exc_type is None:
+            stack().resetreceiver()
+            stack().append(self)
+        return False
+
+    def undo(self):
+        for undoable in reversed(self._stack):
+            undoable.undo()
+
+    def do(self):
+        for undoable in self._stack:
+            undoable.do()
+
+    def text(self):
+        return self._desc.format(count=len(self._stack))
+
+
+def group(desc):
+    ''' Return a context manager for grouping undoable actions. 
+    
+    All actions which occur within the group will be undone by a single call
+    of `stack.undo`, e.g.
+    
+    >>> @undoable
+    ... def operation(n):
+    ...     yield
+    ...     print(n)
+    >>> with group('text'):
+    ...     for n in range(3):
+    ...         operation(n)
+    >>> operation(3)
+    >>> stack().undo()
+    3
+    >>> stack().undo()
+    2
+    1
+    0
+    '''
+    return _Group(desc)
+
+
+class Stack:
+    ''' The main undo stack. 
+        
+    The two key features are the :func:`redo` and :func:`undo` methods. If an 
+    exception occurs during doing or undoing a undoable, the undoable
+    aborts and the stack is cleared to avoid any further data corruption. 
+    
+    The stack provides two properties for tracking actions: *docallback* 
+    and *undocallback*. Each of these allow a callback function to be set
+    which is called when an action is done or undone repectively. By default, 
+    they do nothing.
+    
+    >>> def done():
+    ...     print('Can now undo: {}'.format(stack().undotext()))
+    >>> def undone():
+    ...     print('Can now redo: {}'.format(stack().redotext()))
+    >>> stack().docallback = done
+    >>> stack().undocallback = undone
+    >>> @undoable
+    ... def action():
+    ...     yield 'An action'
+    >>> action()
+    Can now undo: Undo An action
+    >>> stack().undo()
+    Can now redo: Redo An action
+    >>> stack().redo()
+    Can now undo: Undo An action
+    
+    Setting them back to ``lambda: None`` will stop any further actions.
+    
+    >>> stack().docallback = stack().undocallback = lambda: None
+    >>> action()
+    >>> stack().undo()
+    
+    It is possible to mark a point in the undo history when the document
+    handled is saved. This allows the undo system to report whether a 
+    document has changed. The point is marked using :func:`savepoint` and
+    :func:`haschanged` returns whether or not the state has changed (either
+    by doing or undoing an action). Only one savepoint can be tracked,
+    marking a new one removes the old one.
+    
+    >>> stack().savepoint()
+    >>> stack().haschanged()
+    False
+    >>> action()
+    >>> stack().haschanged()
+    True
+    '''
+
+    def __init__(self):
+        self._undos = deque()
+        self._redos = deque()
+        self._receiver = self._undos
+        self._savepoint = None
+        self.undocallback = lambda: None
+        self.docallback = lambda: None
+
+    def canundo(self):
+        ''' Return *True* if undos are available '''
+        return len(self._undos) > 0
+
+    def canredo(self):
+        ''' Return *True* if redos are available '''
+        return len(self._redos) > 0
+
+    def redo(self):
+        ''' Redo the last undone action. 
+        
+        This is only possible if no other actions have occurred since the 
+        last undo call.
+        '''
+        if self.canredo():
+            undoable = self._redos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.do()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._undos.append(undoable)
+            self.docallback()
+
+    def undo(self):
+        ''' Undo the last action. '''
+        if self.canundo():
+            undoable = self._undos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.undo()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._redos.append(undoable)
+            self.undocallback()
+
+    def clear(self):
+        ''' Clear the undo list. '''
+        self._undos.clear()
+        self._redos.clear()
+        self._savepoint = None
+        self._receiver = self._undos
+
+    def undocount(self):
+        ''' Return the number of undos available. '''
+        return len(self._undos)
+
+    def redocount(self):
+        ''' Return the number of redos available. '''
+        return len(self._redos)
+
+    def undotext(self):
+        ''' Return a description of the next available undo. '''
+        if self.canundo():
+            return ('Undo ' + self._undos[-1].text()).strip()
+
+    def redotext(self):
+        ''' Return a description of the next available redo. '''
+        if self.canredo():
+            return ('Redo ' + self._redos[-1].text()).strip()
+
+    @contextlib.contextmanager
+    def _pausereceiver(self):
+        ''' Return a contect manager which temporarily pauses the receiver. '''
+        self.setreceiver([])
+        yield
+        self.resetreceiver()
+
+    def setreceiver(self, receiver=None):
+        ''' Set an object to receiver commands pushed onto the stack.
+        
+        By default it is the internal stack, but it can be set (usually
+        internally) to any object with an *append()* method.
+        '''
+        assert hasattr(receiver, 'append')
+        self._receiver = receiver
+
+    def resetreceiver(self):
+        ''' Reset the receiver to the internal stack.'''
+        self._receiver = self._undos
+
+    def append(self, action):
+        ''' Add a undoable to the stack, using ``receiver.append()``. '''
+        if self._receiver is not None:
+            self._receiver.append(action)
+        if self._receiver is self._undos:
+            self._redos.clear()
+            self.docallback()
+
+    def savepoint(self):
+        ''' Set the savepoint. '''
+        self._savepoint = self.undocount()
+
+    def haschanged(self):
+        ''' Return *True* if the state has changed since the savepoint. 
+        
+        This will always return *True* if the savepoint has not been set.
+        '''
+        return self._savepoint is None or self._savepoint != self.undocount()
+
+
+_stack = None
+
+def stack():
+    ''' Return the currently used stack.
+    
+    If no stack has been set, a new one is created and set.
+    '''
+    global _stack
+    if _stack is None:
+        _stack = Stack()
+    return _stack
+
+def setstack(stack):
+    ''' Set the undo stack to a specific `Stack` object.'''
+    global _stack
+    _stack = stack
-- 
2.43.0


From 773c3276adb5aaa045f0b0a22561e3d4eaced3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:19 +0000
Subject: [PATCH 21/64] fix: undo groups left or bypassed the receiver when
 nested or left by an exception

---
 src/bgem/undo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index 7d2bcae..2660d16 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -101,12 +101,14 @@ class _Group:
         self._stack = []
 
     def __enter__(self):
+        self._outer_receiver = stack()._receiver
         stack().setreceiver(self._stack)
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_type is None:
-            stack().resetreceiver()
-            stack().append(self)
+        # Return to the receiver active before the group (possibly an outer group).
+        # Actions done before an exception are part of the history as well.
+        stack()._receiver = self._outer_receiver
+        stack().append(self)
         return False
 
     def undo(self):
-- 
2.43.0


From bf3b4618ea37ec94ae2130f75abc61a6649b50f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:19 +0000
Subject: [PATCH 22/64] fix: undo and redo changed the receiver of an open undo
 group

---
 src/bgem/undo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index 2660d16..a91399e 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -272,9 +272,10 @@ class Stack:
     @contextlib.contextmanager
     def _pausereceiver(self):
         ''' Return a contect manager which temporarily pauses the receiver. '''
+        receiver = self._receiver
         self.setreceiver([])
         yield
-        self.resetreceiver()
+        self._receiver = receiver
 
     def setreceiver(self, receiver=None):
         ''' Set an object to receiver commands pushed onto the stack.
-- 
2.43.0


From d33c2de58c4ce31859858adb5b7ea67ae9852358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 23/64] fix: splitting a hole off the outer boundary left wrong
 wire parents

---
 src/bgem/polygons/decomp.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index 4562395..a7fa131 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -518,10 +518,9 @@ class Decomposition:
             for ch in list(a_wire.childs):
                 ch.set_parent(outer_wire)
             # possible wires in the new inner_wire bubble
-            for seg, side in inner_wire.segments():
-                side_wire = seg.wire[1-side]
-                assert side_wire == inner_wire or inner_wire.contains_wire(side_wire)
-                side_wire.set_parent(inner_wire)
+            for wire in list(orig_parent.childs):
+                if wire != outer_wire and inner_wire.contains_wire(wire):
+                    wire.set_parent(inner_wire)
 
             #self._update_wire_parents(orig_parent, outer_wire, inner_wire)
 
-- 
2.43.0


From e3d693ecbf85b98a9cc08e031855875f80fe4e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:41 +0000
Subject: [PATCH 24/64] fix: join_segments broke the wire reference for
 oppositely oriented segments

---
 src/bgem/polygons/decomp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index a7fa131..6a335a2 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -330,7 +330,8 @@ class Decomposition:
         for side in [left_side, right_side]:
             wire = seg1.wire[side]
             if wire.segment == (seg1, side):
-                wire.segment = (seg0, side)
+                # opposite sides match if the segments are oppositely oriented
+                wire.segment = (seg0, side if seg0_in_vtx == seg1_in_vtx else 1 - side)
 
         # fix pt_to_seg
         self.pt_to_seg[seg0.point_ids()] = seg0
-- 
2.43.0


From df89b89978a702996230db26aa93f10741828542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:41 +0000
Subject: [PATCH 25/64] fix: join_segments kept the direction vector of the
 split segment

---
 src/bgem/polygons/decomp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index 6a335a2..e94a751 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -320,6 +320,7 @@ class Decomposition:
         seg0.next[seg_side_next] = (seg0, seg_side_prev)
 
         seg0.vtxs[seg0_in_vtx] = seg1.vtxs[seg1_in_vtx]
+        seg0.update_vector()
         if b_seg1_insert is None:
             assert seg0.is_dendrite()
             seg0.connect_free_vtx(seg0_in_vtx, seg0.wire[out_vtx])
-- 
2.43.0


From ea305cd670355702ce090d23e5dcf23fdaed3da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:13 +0000
Subject: [PATCH 26/64] fix: undo of adding an existing segment deleted it

---
 src/bgem/polygons/polygons.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 79ae31a..148d615 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -635,11 +635,14 @@ class PolygonDecomposition:
     def _add_segment(self, a_pt, b_pt):
         a_pt = self.points[a_pt.id]
         b_pt = self.points[b_pt.id]
+        n_segments = len(self.segments)
         seg = self.decomp.new_segment(a_pt, b_pt)
+        is_new = len(self.segments) > n_segments
         self.segments_lookup.add_object(seg.id, aabb_lookup.make_aabb([a_pt.xy, b_pt.xy], margin=self.tolerance))
         yield "Add segment", seg
 
-        self._rm_segment(seg)
+        if is_new:
+            self._rm_segment(seg)
 
     @undo.undoable
     def _rm_point(self, pt):
-- 
2.43.0


From 2508d087e2620f603b42dd4c5d3eb411b7612976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:13 +0000
Subject: [PATCH 27/64] fix: undo of removals lost attributes of segments,
 points and polygons

---
 src/bgem/polygons/polygons.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 148d615..c6e714e 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -651,16 +651,21 @@ class PolygonDecomposition:
         self.decomp.remove_free_point(pt)
         yield "Remove point"
 
-        self._add_point(pt.xy, pt.poly)
+        new_pt = self._add_point(pt.xy, pt.poly)
+        new_pt.attr = pt.attr
 
     @undo.undoable
     def _rm_segment(self, seg):
         seg = self.segments[seg.id]
         self.segments_lookup.rm_object(seg.id)
         self.decomp.delete_segment(seg)
+        rm_polygon = self.decomp.last_polygon_change[2]
         yield "Remove segment"
 
-        self._add_segment(seg.vtxs[0], seg.vtxs[1])
+        new_seg = self._add_segment(seg.vtxs[0], seg.vtxs[1])
+        new_seg.attr = seg.attr
+        if rm_polygon is not None:
+            self.decomp.last_polygon_change[2].attr = rm_polygon.attr
 
     @undo.undoable
     def _split_segment(self, seg, mid_pt):
@@ -683,7 +688,8 @@ class PolygonDecomposition:
         self.decomp.join_segments(mid_pt, seg0, seg1)
         yield "Join segments", mid_pt
 
-        self._split_segment(seg0, mid_pt)
+        new_seg = self._split_segment(seg0, mid_pt)
+        new_seg.attr = seg1.attr
 
     @undo.undoable
     def set_attr(self, obj, attr):
-- 
2.43.0


From 653cd63226244c2af428143d1d43c09c73be41a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:13 +0000
Subject: [PATCH 28/64] fix: merge_points changed end points of the removed
 segments, breaking undo

---
 src/bgem/polygons/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index c6e714e..7c71572 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -520,7 +520,7 @@ class PolygonDecomposition:
         if b_can_move:
             #a.move(a_diff)
             for seg, b_idx in list(b.segments()):
-                seg_vtxs = seg.vtxs
+                seg_vtxs = list(seg.vtxs)
                 self._rm_segment(seg)
                 seg_vtxs[b_idx] = a
                 self._add_segment(*seg_vtxs)
-- 
2.43.0


From 1fcedc7d5f590db8c39e16a84c6610e5363c3b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 29/64] fix: moved points and joined segments kept their old
 boxes in the lookups

---
 src/bgem/polygons/polygons.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 7c71572..a8eb6dc 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -253,6 +253,20 @@ class PolygonDecomposition:
         """
         for pt in points:
             pt.move(displacement)
+        self._update_lookups(points)
+
+    def _update_lookups(self, points):
+        """
+        Update boxes of given points and of the segments connected to them.
+        """
+        for pt in points:
+            self.points_lookup.add_object(pt.id, aabb_lookup.make_aabb([pt.xy], margin=self.tolerance))
+            for seg, side in pt.segments():
+                self._update_segment_box(seg)
+
+    def _update_segment_box(self, seg):
+        self.segments_lookup.add_object(seg.id,
+                                        aabb_lookup.make_aabb([seg.vtxs[0].xy, seg.vtxs[1].xy], margin=self.tolerance))
 
 
     def get_last_polygon_changes(self):
@@ -672,9 +686,8 @@ class PolygonDecomposition:
         seg = self.segments[seg.id]
         mid_pt = self.points[mid_pt.id]
         new_seg = self.decomp.split_segment(seg, mid_pt)
-        self.segments_lookup.add_object(new_seg.id,
-                                        aabb_lookup.make_aabb([new_seg.vtxs[0].xy, new_seg.vtxs[1].xy],
-                                                              margin=self.tolerance))
+        self._update_segment_box(seg)
+        self._update_segment_box(new_seg)
         yield "Split segment", new_seg
 
         self._join_segments(mid_pt, seg, new_seg)
@@ -686,6 +699,7 @@ class PolygonDecomposition:
         seg1 = self.segments[seg1.id]
         self.segments_lookup.rm_object(seg1.id)
         self.decomp.join_segments(mid_pt, seg0, seg1)
+        self._update_segment_box(seg0)
         yield "Join segments", mid_pt
 
         new_seg = self._split_segment(seg0, mid_pt)
-- 
2.43.0


From c7b9a50a5b69e0752f0e19e582913ef8f0ee4de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 30/64] fix: moving points was missing in the undo history

---
 src/bgem/polygons/polygons.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index a8eb6dc..e9a812f 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -251,9 +251,7 @@ class PolygonDecomposition:
         param: displacement: Numpy array, 2D vector of displacement to add to the points.
         :return: None
         """
-        for pt in points:
-            pt.move(displacement)
-        self._update_lookups(points)
+        self._move_points(list(points), np.array(displacement, dtype=float))
 
     def _update_lookups(self, points):
         """
@@ -681,6 +679,22 @@ class PolygonDecomposition:
         if rm_polygon is not None:
             self.decomp.last_polygon_change[2].attr = rm_polygon.attr
 
+    @undo.undoable
+    def _move_points(self, points, displacement):
+        points = [self.points[pt.id] for pt in points]
+        orig_xy = {pt.id: pt.xy.copy() for pt in points}
+        for pt in points:
+            pt.move(displacement)
+        self._update_lookups(points)
+        yield "Move points"
+
+        moved = [self.points[id] for id in orig_xy]
+        for pt in moved:
+            pt.xy[:] = orig_xy[pt.id]
+            for seg, side in pt.segments():
+                seg.update_vector()
+        self._update_lookups(moved)
+
     @undo.undoable
     def _split_segment(self, seg, mid_pt):
         seg = self.segments[seg.id]
-- 
2.43.0


From b3e581b6ed7eae55b7196ae5b68a497b8a83fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:56 +0000
Subject: [PATCH 31/64] fix: new lines were not snapped to isolated points

---
 src/bgem/polygons/polygons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index e9a812f..fc7d2e1 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -490,8 +490,8 @@ class PolygonDecomposition:
         if a_pt == b_pt:
             return []
         box = aabb_lookup.make_aabb([a_pt.xy, b_pt.xy], margin=self.tolerance)
-        candidates = self.segments_lookup.intersect_candidates(box)
-        candidate_pt = {pt for seg_id in candidates for pt in self.segments[seg_id].vtxs}
+        # including isolated points
+        candidate_pt = {self.points[pt_id] for pt_id in self.points_lookup.intersect_candidates(box)}
         candidate_pt = candidate_pt.difference(omit)
         # new line close to existing vertices, snap to them
         for pt in candidate_pt:
-- 
2.43.0


From f34f5ecc8825a2c46f298eddf1d9d82884dff807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:00 +0000
Subject: [PATCH 32/64] fix: snapping failed for a point between two parallel
 segments

---
 src/bgem/polygons/polygons.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index fc7d2e1..f79eb0b 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -408,6 +408,10 @@ class PolygonDecomposition:
                 db, seg_b, tb = close_segments[1]
                 xa, ua = seg_a.vtxs[out_vtx].xy, seg_a.vector
                 xb, ub = seg_b.vtxs[out_vtx].xy, seg_b.vector
+                xt = seg_a.parametric(ta)
+                if la.norm(xt - seg_b.parametric(self.seg_project_point(ub, xb, xt))) >= self.tolerance:
+                    # closest point is already far enough, e.g. for parallel segments
+                    return (1, seg_a, ta)
                 nb = np.array([ub[1], -ub[0]])
                 nb /= np.linalg.norm(nb)
                 if nb @ (point - xb) < 0:
-- 
2.43.0


From 15bbc56f2886cec8e71a76a44d33954ddfebee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 33/64] fix: overlay mapped wrong parts of segments split by a
 point

---
 src/bgem/polygons/merge.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/bgem/polygons/merge.py b/src/bgem/polygons/merge.py
index 944a682..a95a0e5 100644
--- a/src/bgem/polygons/merge.py
+++ b/src/bgem/polygons/merge.py
@@ -79,14 +79,10 @@ def intersect_single(decomp, other, merge_tol = 1e-10):
     for pt in other.points.values():
         n_points = len(decomp.points)
         new_pt = decomp.add_point(pt.xy)
-        # Hack to identify split segment
-        seg, vtx_side = new_pt.segment
-        if seg is not None and n_points < len(decomp.points):
-            prev_seg, prev_side = seg.next[out_vtx]
-            assert prev_seg.next[in_vtx][0] == seg
-            #assert seg.id not in maps_self[1]
-            maps_self[1][seg.id] = maps_self[1].setdefault(prev_seg.id, prev_seg.id)
-            #maps_other[1].setdefault(seg.id, None)
+        # New point that is not free splits a segment, the new part goes out of the point.
+        if n_points < len(decomp.points) and not new_pt.is_free():
+            (new_seg, _), (old_seg, _) = sorted(new_pt.segments(), key=lambda seg_vtx: seg_vtx[1])
+            maps_self[1][new_seg.id] = maps_self[1].get(old_seg.id, old_seg.id)
         maps_other[0][new_pt.id] = pt.id
         other_point_map[pt.id] = new_pt.id
         #maps_self[0].setdefault(new_pt.id, new_pt.id)
-- 
2.43.0


From 09c139558033192b5a549d21593705256c76d3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 34/64] fix: overlay did not divide added segments by existing
 points

---
 src/bgem/polygons/merge.py | 41 +++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/bgem/polygons/merge.py b/src/bgem/polygons/merge.py
index a95a0e5..e228590 100644
--- a/src/bgem/polygons/merge.py
+++ b/src/bgem/polygons/merge.py
@@ -1,3 +1,4 @@
+from . import aabb_lookup
 from . import polygons
 from .decomp import PolygonChange, in_vtx, out_vtx, right_side, left_side
 
@@ -39,6 +40,24 @@ def deep_copy(self):
     return decomp, id_maps
 
 
+def _line_points(decomp, a_pt, b_pt):
+    """
+    Points of 'decomp' on the line from a_pt to b_pt, including both end points, sorted along the line.
+    """
+    box = aabb_lookup.make_aabb([a_pt.xy, b_pt.xy], margin=decomp.tolerance)
+    vec = b_pt.xy - a_pt.xy
+    on_line = []
+    for pt_id in decomp.points_lookup.intersect_candidates(box):
+        pt = decomp.points[pt_id]
+        if pt == a_pt or pt == b_pt:
+            continue
+        t = decomp.seg_project_point(vec, a_pt.xy, pt.xy)
+        if decomp.pt_dist(pt, a_pt.xy + t * vec) < decomp.tolerance:
+            on_line.append((t, pt))
+    on_line.sort(key=lambda t_pt: t_pt[0])
+    return [a_pt] + [pt for t, pt in on_line] + [b_pt]
+
+
 def intersect_single(decomp, other, merge_tol = 1e-10):
     """
     TODO: move to separate intersection module.
@@ -94,15 +113,19 @@ def intersect_single(decomp, other, merge_tol = 1e-10):
         other_right_poly, other_left_poly = seg.polygons()
         # print(decomp)
         # print('add line {} {}'.format(a, b))
-        line_div = decomp._add_line_seg_intersections(new_a_pt, new_b_pt)
-        # TODO: modify to changes in _add_line_seg_intersections
-        # we have no seg_b, and the new line may be curved by snapping.
-        for t, (mid_pt, seg_a, seg_b) in line_div.items():
-            maps_self[1][seg_b.id] = maps_self[1].get(seg_a.id, seg_a.id)
-            assert seg_a.id not in maps_other[1]
-            #maps_other[1][seg_b.id] = maps_other[1].get(seg_a.id, None)  # Should still be None, unless there is common edge
-
-        for new_seg, change, side in decomp._add_line_new_segments(new_a_pt, new_b_pt, line_div):
+        # New line is divided by points of 'decomp', every part by crossing segments.
+        new_segs = []
+        line_points = _line_points(decomp, new_a_pt, new_b_pt)
+        for part_a_pt, part_b_pt in zip(line_points[:-1], line_points[1:]):
+            line_div = decomp._add_line_seg_intersections(part_a_pt, part_b_pt)
+            for t, (mid_pt, seg_a, seg_b) in line_div.items():
+                if seg_b != seg_a:
+                    maps_self[1][seg_b.id] = maps_self[1].get(seg_a.id, seg_a.id)
+                assert seg_a.id not in maps_other[1]
+                #maps_other[1][seg_b.id] = maps_other[1].get(seg_a.id, None)  # Should still be None, unless there is common edge
+            new_segs.extend(decomp._add_line_new_segments(part_a_pt, part_b_pt, line_div))
+
+        for new_seg, change, side in new_segs:
             maps_other[1][new_seg.id] = seg.id
             #maps_self[1].setdefault(new_seg.id, None)
 
-- 
2.43.0


From f011f7db7ad1cd9337e239dc04d090b3ad097b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 35/64] fix: overlay missed polygons inside holes and failed
 for inputs without segments

---
 src/bgem/polygons/merge.py | 44 +++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/bgem/polygons/merge.py b/src/bgem/polygons/merge.py
index e228590..084953a 100644
--- a/src/bgem/polygons/merge.py
+++ b/src/bgem/polygons/merge.py
@@ -94,6 +94,7 @@ def intersect_single(decomp, other, merge_tol = 1e-10):
     #     maps_self[dim] = {obj.id: obj.id for obj in decomp.decomp.shapes[dim].values()}
     #     maps_other[dim] = {obj.id: None for obj in decomp.decomp.shapes[dim].values()}
 
+    other_sides = {}    # new segment id -> (right, left) polygon of 'other'
     other_point_map = {}
     for pt in other.points.values():
         n_points = len(decomp.points)
@@ -135,30 +136,29 @@ def intersect_single(decomp, other, merge_tol = 1e-10):
             if change_type == PolygonChange.add or change_type == PolygonChange.split:
                 # Fix maps for changed polygons
                 maps_self[2][new_poly.id] = maps_self[2].get(orig_poly.id, orig_poly.id)
-                maps_other[2][new_poly.id] = maps_other[2].get(orig_poly.id, None)
             # Just omit changes: PolygonChange.shape, PolygonChange.none
 
-            # Partial fill of maps_other[2]
-            if side:
-                r, l = right_side, left_side
-            else:
-                l, r = right_side, left_side
-            maps_other[2][new_seg.wire[r].polygon.id] = other_right_poly.id
-            maps_other[2][new_seg.wire[l].polygon.id] = other_left_poly.id
-
-    # Fill remaining maps_other[2] items using DFS
-    for poly_id in decomp.polygons.keys():
-        maps_other[2].setdefault(poly_id, None)
-    for new_poly, other_poly in list(maps_other[2].items()):
-        if other_poly != None:
-            stack = [new_poly]
-            while stack:
-                p_id = stack.pop(-1)
-                maps_other[2][p_id] = other_poly
-                for seg, side in decomp.polygons[p_id].outer_wire.segments():
-                    ngh_poly = seg.wire[1 - side].polygon
-                    if maps_other[2][ngh_poly.id] is None:
-                        stack.append(ngh_poly.id)
+            # Polygons of 'other' on sides of the new segment
+            other_sides[new_seg.id] = (other_right_poly, other_left_poly) if side else (other_left_poly, other_right_poly)
+
+    # Fill maps_other[2], first polygons neighbouring to other's segments, remaining using DFS
+    maps_other[2][decomp.outer_polygon.id] = other.outer_polygon.id
+    for seg_id, other_polys in other_sides.items():
+        for side in [right_side, left_side]:
+            maps_other[2][decomp.segments[seg_id].wire[side].polygon.id] = other_polys[side].id
+    stack = list(maps_other[2].keys())
+    while stack:
+        p_id = stack.pop(-1)
+        outer_wire = decomp.polygons[p_id].outer_wire
+        for wire in [outer_wire, *outer_wire.childs]:
+            if wire.is_root():
+                continue
+            for seg, side in wire.segments():
+                ngh_poly = seg.wire[1 - side].polygon
+                # other's segments do not separate mapped and unmapped polygons
+                if ngh_poly.id not in maps_other[2]:
+                    maps_other[2][ngh_poly.id] = maps_other[2][p_id]
+                    stack.append(ngh_poly.id)
 
     # # Check
     # for p in decomp.polygons.values():
-- 
2.43.0


From 0b26cf648817ca311769a07944b4f309e418f515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 36/64] fix: BREP writer missed objects that were already
 written or printed

---
 src/bgem/bspline/brep_writer.py | 42 ++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 7deb770..2bfdf3d 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -56,6 +56,17 @@ def check_matrix(mat, shape, values, idx=[]):
         raise ParamError(e)
 
 
+def _assign_id(obj, groups, group):
+    '''
+    Append the object to the group and set its ID, once per indexing of a model.
+    IDs of previous indexing (e.g. of other model sharing the object) are overwritten.
+    '''
+    if id(obj) not in groups['visited']:
+        groups['visited'].add(id(obj))
+        groups[group].append(obj)
+        obj.id = len(groups[group])
+
+
 class Location:
     """
     Location defines an affine transformation in 3D space. Corresponds to the <location data 1> in the BREP file.
@@ -84,10 +95,9 @@ class Location:
         :param groups: dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[])
         :return: None
         """
-        if not hasattr(self, 'id'):
-            id=len(groups['locations'])+1
-            self.id = id
-            groups['locations'].append(self)
+        # identity has fixed ID = 0
+        if self.matrix is not None:
+            _assign_id(self, groups, 'locations')
 
     def _brep_output(self, stream, groups):
         stream.write("1\n")
@@ -118,7 +128,7 @@ class ComposedLocation(Location):
 
         for location,power in self.location_powers:
             location._dfs(groups)
-        Location._dfs(self, groups)
+        _assign_id(self, groups, 'locations')
 
     def _brep_output(self, stream, groups):
         stream.write("2 ")
@@ -194,10 +204,7 @@ class Curve3D:
 
 
     def _dfs(self, groups):
-        if not hasattr(self, 'id'):
-            id = len(groups['curves_3d']) + 1
-            self.id = id
-            groups['curves_3d'].append(self)
+        _assign_id(self, groups, 'curves_3d')
 
 
     def _brep_output(self, stream, groups):
@@ -249,10 +256,7 @@ class Curve2D:
 
 
     def _dfs(self, groups):
-        if not hasattr(self, 'id'):
-            id = len(groups['curves_2d']) + 1
-            self.id = id
-            groups['curves_2d'].append(self)
+        _assign_id(self, groups, 'curves_2d')
 
     def _brep_output(self, stream, groups):
         # writes b-spline curve
@@ -331,10 +335,7 @@ class Surface:
 
 
     def _dfs(self, groups):
-        if not hasattr(self, 'id'):
-            id = len(groups['surfaces']) + 1
-            self.id = id
-            groups['surfaces'].append(self)
+        _assign_id(self, groups, 'surfaces')
 
     def _brep_output(self, stream, groups):
         #writes b-spline surface
@@ -601,13 +602,12 @@ class Shape:
         :param groups: dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[])
         :return: None
         """
-        if hasattr(self, 'id'):
+        if id(self) in groups['visited']:
             return
         for sub_ref in self.childs:
             sub_ref.location._dfs(groups)
             sub_ref.shape._dfs(groups)
-        groups['shapes'].append(self)
-        self.id = len(groups['shapes'])
+        _assign_id(self, groups, 'shapes')
 
     def _brep_output(self, stream, groups):
         stream.write("{}\n".format(self.shpname))
@@ -643,7 +643,7 @@ class Shape:
         # print("Index")
         # print(compound.__class__.__name__) #prints class name
 
-        groups = dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[])
+        groups = dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[], visited=set())
         self._dfs(groups)  # pridej jako parametr dictionary listu jednotlivych grup. v listech primo objekty
         location._dfs(groups)
         # print(groups)
-- 
2.43.0


From 99dc4024669addaf7fc0afeff1100a3c91be644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 37/64] fix: identity in a composed BREP location ended the
 list of its factors

---
 src/bgem/bspline/brep_writer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 2bfdf3d..364cc6f 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -133,6 +133,9 @@ class ComposedLocation(Location):
     def _brep_output(self, stream, groups):
         stream.write("2 ")
         for loc, pow in self.location_powers:
+            if loc.id == 0:
+                # identity, zero reference would end the list
+                continue
             stream.write("{} {} ".format(loc.id, pow))
         stream.write("0\n")
 
-- 
2.43.0


From 9b9e5e91aa3ca5cfc1a0bba10dc86546e2811a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 38/64] fix: BREP writer ignored location of the model

---
 src/bgem/bspline/brep_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 364cc6f..55f8728 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -1088,7 +1088,7 @@ def write_model(stream, compound, location):
         #print("# {} id: {} childs: {}\n".format(shape.shpname, shape.id,
         #                                        [ch.id for ch in shape.subshapes()]))
         shape._brep_output(stream, groups)
-    stream.write("\n+1 0")
+    stream.write("\n+1 {}".format(location.id))
     #stream.write("0\n")
 
 
-- 
2.43.0


From cd49a33a5733f257a07fb5a9487318c47ac7826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 39/64] fix: BREP writer missed surfaces of vertex
 representations

---
 src/bgem/bspline/brep_writer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 55f8728..bb27ed1 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -1039,6 +1039,9 @@ class Vertex(Shape):
             elif repr[0]==self.Repr.Curve3d:
                 repr[2]._dfs(groups) #curve
                 repr[3]._dfs(groups) #location
+            elif repr[0]==self.Repr.Surface:
+                repr[3]._dfs(groups) #surface
+                repr[4]._dfs(groups) #location
 
 
     def _subrecordoutput(self, stream): #prints vertex data
-- 
2.43.0


From 48e146b5f1e12d6ad2ece4757a79377c02e7cf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 40/64] fix: Approx.plane appended a point to the list of the
 caller

---
 src/bgem/bspline/brep_writer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index bb27ed1..a0b6226 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -379,7 +379,6 @@ class Approx:
         :return: ( Surface, vtxs_uv )
         """
         assert len(vtxs) == 3, "n vtx: {}".format(len(vtxs))
-        vtxs.append( (0,0,0) )
         vtxs = np.array(vtxs)
         vv = vtxs[1] + vtxs[2] - vtxs[0]
         vtx4 = [ vtxs[0], vtxs[1], vv, vtxs[2]]
-- 
2.43.0


From bf74cbc1d57615ebcdfb6fcfa4aafbe153908d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 41/64] fix: Edge changed orientation of vertex references
 shared with other edges

---
 src/bgem/bspline/brep_writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index a0b6226..ef0c372 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -863,9 +863,9 @@ class Edge(Shape):
         assert(len(vertices) == 2)
 
         super().__init__(vertices)
-        # Overwrite vertex orientation
-        self.childs[0].orientation = Orient.Forward
-        self.childs[1].orientation = Orient.Reversed
+        # Overwrite vertex orientation, references of the caller may be shared by more edges
+        v0, v1 = self.childs
+        self.childs = [ShapeRef(v0.shape, Orient.Forward, v0.location), ShapeRef(v1.shape, Orient.Reversed, v1.location)]
 
     def set_edge_flags(self, same_parameter, same_range, degenerated):
         """
-- 
2.43.0


From 8fec47803067bc9a14195bbc17702baf99289977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 42/64] fix: printing a shape failed after a new child was
 appended

---
 src/bgem/bspline/brep_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index ef0c372..c356d83 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -626,7 +626,7 @@ class Shape:
         stream.write("\n")
 
     def __repr__(self):
-        if not hasattr(self, 'id'):
+        if not all(hasattr(shape, 'id') for shape in [self] + self.subshapes()):
             self.index_all()
         if len(self.childs)==0:
             return ""
-- 
2.43.0


From f05b2d4d442ff53d12bcde5bc1f24f246bcdde14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 43/64] fix: Wire kept its closed flag when an edge was
 appended

---
 src/bgem/bspline/brep_writer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index c356d83..e740baf 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -704,6 +704,12 @@ class Wire(Shape):
         self.set_flags((0, 1, 0, 1, 0, 0, 0))  # modified, orientable
         self._set_closed()
 
+    def append(self, shape_ref):
+        super().append(shape_ref)
+        if hasattr(self, 'flags'):
+            # the wire is already constructed, update its flag
+            self._set_closed()
+
     def _set_closed(self):
         '''
         Return true for the even parity of vertices.
-- 
2.43.0


From 83398529f2607a3a11afe6008430d0083d42a680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 44/64] fix: GmshIO.read dropped physical names with spaces

---
 src/bgem/gmsh/gmsh_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 4b42ed4..897ebd5 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -121,6 +121,8 @@ class GmshIO:
             elif readmode:
                 columns = line.split()
                 if readmode == 5:
+                    # name is the rest of the line, it may contain spaces
+                    columns = line.split(None, 2)
                     if len(columns) == 3:
                         self.physical[str(columns[2])] = (int(columns[1]), int(columns[0]))
 
-- 
2.43.0


From 71170b180f31fbfbe5e262200e3e93591b5b71c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 45/64] fix: GmshIO.read dropped elements with few tags and
 nodes

---
 src/bgem/gmsh/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 897ebd5..66ce0b1 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -149,7 +149,7 @@ class GmshIO:
                     except ValueError as e:
                         print('Node format error: ' + line, e)
                         readmode = 0
-                elif ftype == 0 and (readmode == 2 or readmode == 3) and len(columns) > 5:
+                elif ftype == 0 and (readmode == 2 or readmode == 3) and len(columns) > 2:
                     # Version 1.0 or 2.0 Elements
                     try:
                         columns = [int(col) for col in columns]
-- 
2.43.0


From bb40525fc316c713eb7a67950d364ee5051ded8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 46/64] fix: GmshIO.read stopped at an empty line and failed
 for format 1.0

---
 src/bgem/gmsh/gmsh_io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 66ce0b1..710d8d4 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -97,11 +97,12 @@ class GmshIO:
             mshfile = open(self.filename, 'r')
 
         readmode = 0
+        ftype = 0       # format 1.0 has no $MeshFormat section
         print('Reading %s' % mshfile.name)
-        line = 'a'
-        while line:
-            line = mshfile.readline()
+        for line in iter(mshfile.readline, ''):
             line = line.strip()
+            if not line:
+                continue
 
             if line.startswith('$'):
                 if line == '$NOD' or line == '$Nodes':
-- 
2.43.0


From 42444b5d68024bd6e0ed3f9d2763f11657bcd168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 47/64] fix: GmshIO element data keyed by text ids, quotes of
 field names lost

---
 src/bgem/gmsh/gmsh_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 710d8d4..447d487 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -50,7 +50,9 @@ class GmshIO:
         columns = mshfile.readline().strip().split()
         n_str_tags = int(columns[0])
         assert (n_str_tags == 1)
-        field = mshfile.readline().strip().strip('"')
+        field = mshfile.readline().strip()
+        if len(field) > 1 and field[0] == field[-1] == '"':
+            field = field[1:-1]
 
         columns = mshfile.readline().strip().split()
         n_real_tags = int(columns[0])
@@ -80,7 +82,7 @@ class GmshIO:
             if line.startswith('$'):
                 raise Exception("Insufficient number of entries in the $ElementData block: {} time={}".format(field, time))
             columns = line.split()
-            iel = columns[0]
+            iel = int(columns[0])
             values = [float(v) for v in columns[1:]]
             assert len(values) == n_comp
             elem_data[iel] = values
-- 
2.43.0


From 4c5a7289d20ef8ad25385216c7acd3205649fd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 48/64] fix: GmshIO ignored superfluous entries of an element
 data section

---
 src/bgem/gmsh/gmsh_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 447d487..c6b4f46 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -76,7 +76,6 @@ class GmshIO:
         field_time_dict = self.element_data.setdefault(field, {})
         assert t_idx not in field_time_dict
         elem_data = {}
-        field_time_dict[t_idx] = (time, elem_data)
         for i in range(n_ele):
             line = mshfile.readline()
             if line.startswith('$'):
@@ -86,6 +85,9 @@ class GmshIO:
             values = [float(v) for v in columns[1:]]
             assert len(values) == n_comp
             elem_data[iel] = values
+        if mshfile.readline().strip() != '$EndElementData':
+            raise Exception("Too many entries in the $ElementData block: {} time={}".format(field, time))
+        field_time_dict[t_idx] = (time, elem_data)
 
 
     def read(self, mshfile=None):
-- 
2.43.0


From 4c5c5d26891a24e7f091e67640135492742b92d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 49/64] fix: GmshIO.write_element_data failed for scalar and
 empty fields, wrote wrong counts

---
 src/bgem/gmsh/gmsh_io.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index c6b4f46..1367afe 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -269,9 +269,12 @@ class GmshIO:
 
         TODO: Generalize to time dependent fields.
         """
-        n_els = values.shape[0]
-        n_comp = np.atleast_1d(values[0]).shape[0]
-        np.reshape(values, (n_els, n_comp))
+        if len(values.shape) == 1:
+            values = np.reshape(values, (len(values), 1))
+        assert len(values.shape) == 2
+        n_els, n_comp = values.shape
+        ele_ids = list(ele_ids)
+        assert len(ele_ids) == n_els, "Different number of elements and values."
         header_dict = dict(
             field=str(name),
             time=0,
@@ -291,7 +294,6 @@ class GmshIO:
 
         f.write('$ElementData\n')
         f.write(header)
-        assert len(values.shape) == 2
         for ele_id, value_row in zip(ele_ids, values):
             value_line = " ".join([str(val) for val in value_row])
             f.write("{:d} {}\n".format(int(ele_id), value_line))
-- 
2.43.0


From d772b728ccc3b53e04ddb3f93299c88006a5e2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 50/64] fix: GmshIO.write_fields failed for the default file
 and lost ids given by an iterator

---
 src/bgem/gmsh/gmsh_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 1367afe..4536012 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -308,7 +308,8 @@ class GmshIO:
         :param fields: {'field_name' : values_array, ..}
         """
         if not msh_file:
-            msh_file = open(self.filename, 'w')
+            msh_file = self.filename
+        ele_ids = list(ele_ids)
         with open(msh_file, "w") as fout:
             fout.write('$MeshFormat\n2.2 0 8\n$EndMeshFormat\n')
             for name, values in fields.items():
-- 
2.43.0


From c11f0482c1e2c2af5076ae25aecb2b59eb6bdce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 51/64] fix: field.threshold ignored its upper bound

---
 src/bgem/gmsh/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/field.py b/src/bgem/gmsh/field.py
index 8b17524..dc50e62 100644
--- a/src/bgem/gmsh/field.py
+++ b/src/bgem/gmsh/field.py
@@ -45,7 +45,7 @@ def distance_edges(curves, nodes_per_edge=8, coordinate_fields=None) -> Field:
 def threshold(field, lower_bound, upper_bound=None, sigmoid=False) -> Field:
     """
     field_min, threshold_min = lower_bound
-    field_max, threshold_max = lower_bound
+    field_max, threshold_max = upper_bound
 
     threshold = threshold_min IF field <= field_min
     threshold = threshold_max IF field >= field_max
@@ -61,7 +61,7 @@ def threshold(field, lower_bound, upper_bound=None, sigmoid=False) -> Field:
     gmsh_field.setNumber(id, "DistMin", field_min)
     gmsh_field.setNumber(id, "LcMin", threshold_min)
     if upper_bound:
-        field_max, threshold_max = lower_bound
+        field_max, threshold_max = upper_bound
         gmsh_field.setNumber(id, "DistMax", field_max)
         gmsh_field.setNumber(id, "LcMax", threshold_max)
     else:
-- 
2.43.0


From d9f6a7a97af5104d6528dd42e81349781f20b380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 52/64] fix: field.threshold without upper bound ended at the
 default distance of gmsh

---
 src/bgem/gmsh/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/gmsh/field.py b/src/bgem/gmsh/field.py
index dc50e62..20075ad 100644
--- a/src/bgem/gmsh/field.py
+++ b/src/bgem/gmsh/field.py
@@ -65,6 +65,8 @@ def threshold(field, lower_bound, upper_bound=None, sigmoid=False) -> Field:
         gmsh_field.setNumber(id, "DistMax", field_max)
         gmsh_field.setNumber(id, "LcMax", threshold_max)
     else:
+        # infinite distance, the default of gmsh is 10
+        gmsh_field.setNumber(id, "DistMax", 1e300)
         gmsh_field.setNumber(id, "StopAtDistMax", True)
 
     if sigmoid:
-- 
2.43.0


From aaa8bda8141a613a69d89c9208ca0392983d66bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 53/64] fix: field.restrict had no effect, gmsh ignores the old
 names of the entity lists

---
 src/bgem/gmsh/field.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bgem/gmsh/field.py b/src/bgem/gmsh/field.py
index 20075ad..ca4b3dd 100644
--- a/src/bgem/gmsh/field.py
+++ b/src/bgem/gmsh/field.py
@@ -140,8 +140,11 @@ def restrict(field:Field, *object_sets, add_boundary=False):
     points, edges, faces, volumes = group.split_by_dimension()
     id = gmsh_field.add('Restrict')
     gmsh_field.setNumber(id, "IField", field)
-    gmsh_field.setNumbers(id, "VerticesList", points.tags)
-    gmsh_field.setNumbers(id, "EdgesList", edges.tags)
-    gmsh_field.setNumbers(id, "FacesList", faces.tags)
-    gmsh_field.setNumbers(id, "RegionsList", volumes.tags)
+    gmsh_field.setNumbers(id, "PointsList", points.tags)
+    gmsh_field.setNumbers(id, "CurvesList", edges.tags)
+    gmsh_field.setNumbers(id, "SurfacesList", faces.tags)
+    gmsh_field.setNumbers(id, "VolumesList", volumes.tags)
+    # only the given entities, gmsh includes boundaries and embedded entities by default
+    gmsh_field.setNumber(id, "IncludeBoundary", False)
+    gmsh_field.setNumber(id, "IncludeEmbedded", False)
     return id
\ No newline at end of file
-- 
2.43.0


From 990fb3056e5bed32a6bf11af37fba3c81e1b178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 54/64] fix: GeometryOCC.rectangle changed its arguments,
 failed for the second default rectangle

---
 src/bgem/gmsh/gmsh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index e0df451..80d59cb 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -259,7 +259,7 @@ class GeometryOCC:
         return self.object(dim, res)
 
     def rectangle(self, xy_sides=[1, 1], center=[0, 0, 0]):
-        xy_sides.append(0)
+        xy_sides = [*xy_sides, 0]
         corner = np.array(center) - np.array(xy_sides) / 2
         rec_tag = self.model.addRectangle(*corner.tolist(), *xy_sides[0:2])
         self._need_synchronize = True
-- 
2.43.0


From 19f4d5b0b515e467feeec6c415a0111fabfae462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 55/64] fix: entities of make_polygon were missing in the mesh,
 model not synchronized

---
 src/bgem/gmsh/gmsh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 80d59cb..d56e615 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -296,6 +296,7 @@ class GeometryOCC:
         lines = [self.model.addLine(a, b) for a,b in zip(vertices[0:-1], vertices[1:])]
         loop = self.model.addCurveLoop(lines, tag=-1)
         surface = self.model.addPlaneSurface([loop], tag=-1)
+        self._need_synchronize = True
         return self.object(2, surface)
 
 
-- 
2.43.0


From 49e2e8ee61131458f0992a794a1bc60eebdb720e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 56/64] fix: keep_only had no effect on the mesh, model not
 synchronized

---
 src/bgem/gmsh/gmsh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index d56e615..da37025 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -470,6 +470,7 @@ class GeometryOCC:
             self.model.remove(list(remove_dimtags), recursive=False)
         except ValueError:
             pass
+        self._need_synchronize = True
 
     def all_entities(self):
         self.synchronize()
-- 
2.43.0


From f1a703e33ef8c0a0df386344b23a8f43ae334297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 57/64] fix: entity shared by objects of the same region was
 meshed twice

---
 src/bgem/gmsh/gmsh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index da37025..5b32c24 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -409,6 +409,8 @@ class GeometryOCC:
 
         # set physical groups
         for reg, tags in reg_to_tags.values():
+            # overlapping objects of the same region share entities
+            tags = list(dict.fromkeys(tags))
             reg._gmsh_id = gmsh.model.addPhysicalGroup(reg.dim, tags, tag=-1)
             gmsh.model.setPhysicalName(reg.dim, reg._gmsh_id, reg.name)
 
-- 
2.43.0


From 2b0c4f090c7efcdba3bf22c09c51ec45a557a8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 58/64] fix: unique names of regions collided with names of
 other regions

---
 src/bgem/gmsh/gmsh.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 5b32c24..14b2ec9 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -400,12 +400,14 @@ class GeometryOCC:
             reg_names[reg.name].add(reg.id)
 
         # make used region names unique
-        for id_set in reg_names.values():
+        used_names = set(reg_names)
+        for name, id_set in reg_names.items():
             if len(id_set) > 1:
-                for i, id in enumerate(sorted(id_set)
-
-                                       ):
-                    reg_to_tags[id][0].set_unique_name(i)
+                indices = itertools.count()
+                for id in sorted(id_set):
+                    idx = next(i for i in indices if "{}_{}".format(name, i) not in used_names)
+                    reg_to_tags[id][0].set_unique_name(idx)
+                    used_names.add(reg_to_tags[id][0].name)
 
         # set physical groups
         for reg, tags in reg_to_tags.values():
-- 
2.43.0


From d65e1b6bef5035cf5b229cb5f6c0a1c72c003b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 59/64] fix: HealMesh computed the tolerance of node distances
 from node ids

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 67911e1..5ccfb72 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -229,7 +229,7 @@ class HealMesh:
         self.modified_elements = set()
         aabb_min = np.full(3, +np.inf)
         aabb_max = np.full(3, -np.inf)
-        for n in self.mesh.nodes:
+        for n in self.mesh.nodes.values():
             aabb_max = np.maximum(aabb_max, n)
             aabb_min = np.minimum(aabb_min, n)
         diam = np.max(aabb_max - aabb_min)
-- 
2.43.0


From a2a1679979c5a1d2183150049de0fa32ebfb0a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 60/64] fix: quality of a tetrahedron depended on the order of
 its nodes

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 5ccfb72..217b2a3 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -86,7 +86,7 @@ class Tetrahedron(ShapeBase):
     def smooth_grad_error_indicator(self):
         faces = self.face_areas
         e_lens = self.edge_lens
-        e_faces = [[0, 1], [0, 2], [1, 2], [0, 3], [1, 3], [2, 3]] # faces joining the edge
+        e_faces = [[0, 1], [0, 2], [1, 2], [2, 3], [1, 3], [0, 3]] # faces joining the edge
         sum_pairs = max(1e-300, np.sum([faces[i] * faces[j] * elen ** 2 for (i,j),elen in zip(e_faces, e_lens)]))
         regular = (2.0 * np.sqrt(2.0 / 3.0) / 9.0)
         quality = np.abs(self.measure) * (np.sum(faces) / sum_pairs) ** (3.0/4.0) / regular
-- 
2.43.0


From 80af72dc53edcd4ebe366a60cf46c8a3b37d4bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 61/64] fix: HealMesh dropped elements with repeated nodes as
 duplicates of other elements

---
 src/bgem/gmsh/heal_mesh.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 217b2a3..6a37a58 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -346,7 +346,10 @@ class HealMesh:
 
     def is_duplicate_el(self, ele):
         # check that there isn't the same element already
-        duplicate_els = [eid for eid in self.common_elements(ele.node_ids) if self.mesh.elements[eid][0] == ele.type]
+        # same node ids including repeated ones
+        node_ids = sorted(ele.node_ids)
+        duplicate_els = [eid for eid in self.common_elements(ele.node_ids)
+                         if self.mesh.elements[eid][0] == ele.type and sorted(self.mesh.elements[eid][2]) == node_ids]
         return duplicate_els
 
 
-- 
2.43.0


From 680cf1cb9baaae0ff6d531d02513f1c1eb0708e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 62/64] fix: line endings of undo.py were changed by an earlier
 fix

---
 src/bgem/undo.py | 656 +++++++++++++++++++++++------------------------
 1 file changed, 328 insertions(+), 328 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index a91399e..2b09c4e 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -1,328 +1,328 @@
-#!/usr/bin/env python3
-# -*- coding: utf-8 -*-
-#
-# Copyright (c) 2011 David Townshend
-#
-# This program is free software; you can redistribute it and/or modify it
-# under the terms of the GNU General Public License as published by the
-# Free Software Foundation; either version 2 of the License, or (at your
-# option) any later version.
-#
-# This program is distributed in the hope that it will be useful, but
-# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
-# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
-# for more details.
-#
-# You should have received a copy of the GNU General Public License along
-# with this program; if not, write to the Free Software Foundation, Inc.,
-# 675 Mass Ave, Cambridge, MA 02139, USA.
-
-__version__ = '0.5.1'
-__author__ = 'David Townshend'
-
-__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
-
-import contextlib
-
-from collections import deque
-
-class _Action:
-    ''' This represents an action which can be done and undone.
-    
-    It is the result of a call on an undoable function and has
-    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
-    returned by the internal call in ``do()`` is the value which will 
-    subsequently be returned by ``text``.  Any remaining values are 
-    returned by ``do()``.
-    '''
-    def __init__(self, generator, args, kwargs):
-        self._generator = generator
-        self.args = args
-        self.kwargs = kwargs
-        self._text = ''
-
-    def do(self):
-        'Do or redo the action'
-        self._runner = self._generator(*self.args, **self.kwargs)
-        rets = next(self._runner)
-        if isinstance(rets, tuple):
-            self._text = rets[0]
-            return rets[1:]
-        elif rets is None:
-            self._text = ''
-            return None
-        else:
-            self._text = rets
-            return None
-
-    def undo(self):
-        'Undo the action'
-        try:
-            next(self._runner)
-        except StopIteration:
-            pass
-        # Delete it so that its not accidentally called again
-        del self._runner
-
-    def text(self):
-        'Return the descriptive text of the action'
-        return self._text
-
-
-def undoable(generator):
-    ''' Decorator which creates a new undoable action type. 
-    
-    This decorator should be used on a generator of the following format::
-    
-        @undoable
-        def operation(*args):
-            do_operation_code
-            yield 'descriptive text'
-            undo_operator_code
-    '''
-    def inner(*args, **kwargs):
-        action = _Action(generator, args, kwargs)
-        ret = action.do()
-        stack().append(action)
-        if isinstance(ret, tuple):
-            if len(ret) == 1:
-                return ret[0]
-            elif len(ret) == 0:
-                return None
-        return ret
-    return inner
-
-
-class _Group:
-    ''' A undoable group context manager. '''
-
-    def __init__(self, desc):
-        self._desc = desc
-        self._stack = []
-
-    def __enter__(self):
-        self._outer_receiver = stack()._receiver
-        stack().setreceiver(self._stack)
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        # Return to the receiver active before the group (possibly an outer group).
-        # Actions done before an exception are part of the history as well.
-        stack()._receiver = self._outer_receiver
-        stack().append(self)
-        return False
-
-    def undo(self):
-        for undoable in reversed(self._stack):
-            undoable.undo()
-
-    def do(self):
-        for undoable in self._stack:
-            undoable.do()
-
-    def text(self):
-        return self._desc.format(count=len(self._stack))
-
-
-def group(desc):
-    ''' Return a context manager for grouping undoable actions. 
-    
-    All actions which occur within the group will be undone by a single call
-    of `stack.undo`, e.g.
-    
-    >>> @undoable
-    ... def operation(n):
-    ...     yield
-    ...     print(n)
-    >>> with group('text'):
-    ...     for n in range(3):
-    ...         operation(n)
-    >>> operation(3)
-    >>> stack().undo()
-    3
-    >>> stack().undo()
-    2
-    1
-    0
-    '''
-    return _Group(desc)
-
-
-class Stack:
-    ''' The main undo stack. 
-        
-    The two key features are the :func:`redo` and :func:`undo` methods. If an 
-    exception occurs during doing or undoing a undoable, the undoable
-    aborts and the stack is cleared to avoid any further data corruption. 
-    
-    The stack provides two properties for tracking actions: *docallback* 
-    and *undocallback*. Each of these allow a callback function to be set
-    which is called when an action is done or undone repectively. By default, 
-    they do nothing.
-    
-    >>> def done():
-    ...     print('Can now undo: {}'.format(stack().undotext()))
-    >>> def undone():
-    ...     print('Can now redo: {}'.format(stack().redotext()))
-    >>> stack().docallback = done
-    >>> stack().undocallback = undone
-    >>> @undoable
-    ... def action():
-    ...     yield 'An action'
-    >>> action()
-    Can now undo: Undo An action
-    >>> stack().undo()
-    Can now redo: Redo An action
-    >>> stack().redo()
-    Can now undo: Undo An action
-    
-    Setting them back to ``lambda: None`` will stop any further actions.
-    
-    >>> stack().docallback = stack().undocallback = lambda: None
-    >>> action()
-    >>> stack().undo()
-    
-    It is possible to mark a point in the undo history when the document
-    handled is saved. This allows the undo system to report whether a 
-    document has changed. The point is marked using :func:`savepoint` and
-    :func:`haschanged` returns whether or not the state has changed (either
-    by doing or undoing an action). Only one savepoint can be tracked,
-    marking a new one removes the old one.
-    
-    >>> stack().savepoint()
-    >>> stack().haschanged()
-    False
-    >>> action()
-    >>> stack().haschanged()
-    True
-    '''
-
-    def __init__(self):
-        self._undos = deque()
-        self._redos = deque()
-        self._receiver = self._undos
-        self._savepoint = None
-        self.undocallback = lambda: None
-        self.docallback = lambda: None
-
-    def canundo(self):
-        ''' Return *True* if undos are available '''
-        return len(self._undos) > 0
-
-    def canredo(self):
-        ''' Return *True* if redos are available '''
-        return len(self._redos) > 0
-
-    def redo(self):
-        ''' Redo the last undone action. 
-        
-        This is only possible if no other actions have occurred since the 
-        last undo call.
-        '''
-        if self.canredo():
-            undoable = self._redos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.do()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._undos.append(undoable)
-            self.docallback()
-
-    def undo(self):
-        ''' Undo the last action. '''
-        if self.canundo():
-            undoable = self._undos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.undo()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._redos.append(undoable)
-            self.undocallback()
-
-    def clear(self):
-        ''' Clear the undo list. '''
-        self._undos.clear()
-        self._redos.clear()
-        self._savepoint = None
-        self._receiver = self._undos
-
-    def undocount(self):
-        ''' Return the number of undos available. '''
-        return len(self._undos)
-
-    def redocount(self):
-        ''' Return the number of redos available. '''
-        return len(self._redos)
-
-    def undotext(self):
-        ''' Return a description of the next available undo. '''
-        if self.canundo():
-            return ('Undo ' + self._undos[-1].text()).strip()
-
-    def redotext(self):
-        ''' Return a description of the next available redo. '''
-        if self.canredo():
-            return ('Redo ' + self._redos[-1].text()).strip()
-
-    @contextlib.contextmanager
-    def _pausereceiver(self):
-        ''' Return a contect manager which temporarily pauses the receiver. '''
-        receiver = self._receiver
-        self.setreceiver([])
-        yield
-        self._receiver = receiver
-
-    def setreceiver(self, receiver=None):
-        ''' Set an object to receiver commands pushed onto the stack.
-        
-        By default it is the internal stack, but it can be set (usually
-        internally) to any object with an *append()* method.
-        '''
-        assert hasattr(receiver, 'append')
-        self._receiver = receiver
-
-    def resetreceiver(self):
-        ''' Reset the receiver to the internal stack.'''
-        self._receiver = self._undos
-
-    def append(self, action):
-        ''' Add a undoable to the stack, using ``receiver.append()``. '''
-        if self._receiver is not None:
-            self._receiver.append(action)
-        if self._receiver is self._undos:
-            self._redos.clear()
-            self.docallback()
-
-    def savepoint(self):
-        ''' Set the savepoint. '''
-        self._savepoint = self.undocount()
-
-    def haschanged(self):
-        ''' Return *True* if the state has changed since the savepoint. 
-        
-        This will always return *True* if the savepoint has not been set.
-        '''
-        return self._savepoint is None or self._savepoint != self.undocount()
-
-
-_stack = None
-
-def stack():
-    ''' Return the currently used stack.
-    
-    If no stack has been set, a new one is created and set.
-    '''
-    global _stack
-    if _stack is None:
-        _stack = Stack()
-    return _stack
-
-def setstack(stack):
-    ''' Set the undo stack to a specific `Stack` object.'''
-    global _stack
-    _stack = stack
+#!/usr/bin/env python3
+# -*- coding: utf-8 -*-
+#
+# Copyright (c) 2011 David Townshend
+#
+# This program is free software; you can redistribute it and/or modify it
+# under the terms of the GNU General Public License as published by the
+# Free Software Foundation; either version 2 of the License, or (at your
+# option) any later version.
+#
+# This program is distributed in the hope that it will be useful, but
+# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
+# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
+# for more details.
+#
+# You should have received a copy of the GNU General Public License along
+# with this program; if not, write to the Free Software Foundation, Inc.,
+# 675 Mass Ave, Cambridge, MA 02139, USA.
+
+__version__ = '0.5.1'
+__author__ = 'David Townshend'
+
+__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
+
+import contextlib
+
+from collections import deque
+
+class _Action:
+    ''' This represents an action which can be done and undone.
+    
+    It is the result of a call on an undoable function and has
+    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
+    returned by the internal call in ``do()`` is the value which will 
+    subsequently be returned by ``text``.  Any remaining values are 
+    returned by ``do()``.
+    '''
+    def __init__(self, generator, args, kwargs):
+        self._generator = generator
+        self.args = args
+        self.kwargs = kwargs
+        self._text = ''
+
+    def do(self):
+        'Do or redo the action'
+        self._runner = self._generator(*self.args, **self.kwargs)
+        rets = next(self._runner)
+        if isinstance(rets, tuple):
+            self._text = rets[0]
+            return rets[1:]
+        elif rets is None:
+            self._text = ''
+            return None
+        else:
+            self._text = rets
+            return None
+
+    def undo(self):
+        'Undo the action'
+        try:
+            next(self._runner)
+        except StopIteration:
+            pass
+        # Delete it so that its not accidentally called again
+        del self._runner
+
+    def text(self):
+        'Return the descriptive text of the action'
+        return self._text
+
+
+def undoable(generator):
+    ''' Decorator which creates a new undoable action type. 
+    
+    This decorator should be used on a generator of the following format::
+    
+        @undoable
+        def operation(*args):
+            do_operation_code
+            yield 'descriptive text'
+            undo_operator_code
+    '''
+    def inner(*args, **kwargs):
+        action = _Action(generator, args, kwargs)
+        ret = action.do()
+        stack().append(action)
+        if isinstance(ret, tuple):
+            if len(ret) == 1:
+                return ret[0]
+            elif len(ret) == 0:
+                return None
+        return ret
+    return inner
+
+
+class _Group:
+    ''' A undoable group context manager. '''
+
+    def __init__(self, desc):
+        self._desc = desc
+        self._stack = []
+
+    def __enter__(self):
+        self._outer_receiver = stack()._receiver
+        stack().setreceiver(self._stack)
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        # Return to the receiver active before the group (possibly an outer group).
+        # Actions done before an exception are part of the history as well.
+        stack()._receiver = self._outer_receiver
+        stack().append(self)
+        return False
+
+    def undo(self):
+        for undoable in reversed(self._stack):
+            undoable.undo()
+
+    def do(self):
+        for undoable in self._stack:
+            undoable.do()
+
+    def text(self):
+        return self._desc.format(count=len(self._stack))
+
+
+def group(desc):
+    ''' Return a context manager for grouping undoable actions. 
+    
+    All actions which occur within the group will be undone by a single call
+    of `stack.undo`, e.g.
+    
+    >>> @undoable
+    ... def operation(n):
+    ...     yield
+    ...     print(n)
+    >>> with group('text'):
+    ...     for n in range(3):
+    ...         operation(n)
+    >>> operation(3)
+    >>> stack().undo()
+    3
+    >>> stack().undo()
+    2
+    1
+    0
+    '''
+    return _Group(desc)
+
+
+class Stack:
+    ''' The main undo stack. 
+        
+    The two key features are the :func:`redo` and :func:`undo` methods. If an 
+    exception occurs during doing or undoing a undoable, the undoable
+    aborts and the stack is cleared to avoid any further data corruption. 
+    
+    The stack provides two properties for tracking actions: *docallback* 
+    and *undocallback*. Each of these allow a callback function to be set
+    which is called when an action is done or undone repectively. By default, 
+    they do nothing.
+    
+    >>> def done():
+    ...     print('Can now undo: {}'.format(stack().undotext()))
+    >>> def undone():
+    ...     print('Can now redo: {}'.format(stack().redotext()))
+    >>> stack().docallback = done
+    >>> stack().undocallback = undone
+    >>> @undoable
+    ... def action():
+    ...     yield 'An action'
+    >>> action()
+    Can now undo: Undo An action
+    >>> stack().undo()
+    Can now redo: Redo An action
+    >>> stack().redo()
+    Can now undo: Undo An action
+    
+    Setting them back to ``lambda: None`` will stop any further actions.
+    
+    >>> stack().docallback = stack().undocallback = lambda: None
+    >>> action()
+    >>> stack().undo()
+    
+    It is possible to mark a point in the undo history when the document
+    handled is saved. This allows the undo system to report whether a 
+    document has changed. The point is marked using :func:`savepoint` and
+    :func:`haschanged` returns whether or not the state has changed (either
+    by doing or undoing an action). Only one savepoint can be tracked,
+    marking a new one removes the old one.
+    
+    >>> stack().savepoint()
+    >>> stack().haschanged()
+    False
+    >>> action()
+    >>> stack().haschanged()
+    True
+    '''
+
+    def __init__(self):
+        self._undos = deque()
+        self._redos = deque()
+        self._receiver = self._undos
+        self._savepoint = None
+        self.undocallback = lambda: None
+        self.docallback = lambda: None
+
+    def canundo(self):
+        ''' Return *True* if undos are available '''
+        return len(self._undos) > 0
+
+    def canredo(self):
+        ''' Return *True* if redos are available '''
+        return len(self._redos) > 0
+
+    def redo(self):
+        ''' Redo the last undone action. 
+        
+        This is only possible if no other actions have occurred since the 
+        last undo call.
+        '''
+        if self.canredo():
+            undoable = self._redos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.do()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._undos.append(undoable)
+            self.docallback()
+
+    def undo(self):
+        ''' Undo the last action. '''
+        if self.canundo():
+            undoable = self._undos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.undo()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._redos.append(undoable)
+            self.undocallback()
+
+    def clear(self):
+        ''' Clear the undo list. '''
+        self._undos.clear()
+        self._redos.clear()
+        self._savepoint = None
+        self._receiver = self._undos
+
+    def undocount(self):
+        ''' Return the number of undos available. '''
+        return len(self._undos)
+
+    def redocount(self):
+        ''' Return the number of redos available. '''
+        return len(self._redos)
+
+    def undotext(self):
+        ''' Return a description of the next available undo. '''
+        if self.canundo():
+            return ('Undo ' + self._undos[-1].text()).strip()
+
+    def redotext(self):
+        ''' Return a description of the next available redo. '''
+        if self.canredo():
+            return ('Redo ' + self._redos[-1].text()).strip()
+
+    @contextlib.contextmanager
+    def _pausereceiver(self):
+        ''' Return a contect manager which temporarily pauses the receiver. '''
+        receiver = self._receiver
+        self.setreceiver([])
+        yield
+        self._receiver = receiver
+
+    def setreceiver(self, receiver=None):
+        ''' Set an object to receiver commands pushed onto the stack.
+        
+        By default it is the internal stack, but it can be set (usually
+        internally) to any object with an *append()* method.
+        '''
+        assert hasattr(receiver, 'append')
+        self._receiver = receiver
+
+    def resetreceiver(self):
+        ''' Reset the receiver to the internal stack.'''
+        self._receiver = self._undos
+
+    def append(self, action):
+        ''' Add a undoable to the stack, using ``receiver.append()``. '''
+        if self._receiver is not None:
+            self._receiver.append(action)
+        if self._receiver is self._undos:
+            self._redos.clear()
+            self.docallback()
+
+    def savepoint(self):
+        ''' Set the savepoint. '''
+        self._savepoint = self.undocount()
+
+    def haschanged(self):
+        ''' Return *True* if the state has changed since the savepoint. 
+        
+        This will always return *True* if the savepoint has not been set.
+        '''
+        return self._savepoint is None or self._savepoint != self.undocount()
+
+
+_stack = None
+
+def stack():
+    ''' Return the currently used stack.
+    
+    If no stack has been set, a new one is created and set.
+    '''
+    global _stack
+    if _stack is None:
+        _stack = Stack()
+    return _stack
+
+def setstack(stack):
+    ''' Set the undo stack to a specific `Stack` object.'''
+    global _stack
+    _stack = stack
-- 
2.43.0


From fd73d5d1c6177091c847238cd9ba43dfec92951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 63/64] fix: heal_mesh went on healing an element that its own
 merge had removed

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 6a37a58..1f6e90c 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -462,7 +462,7 @@ class HealMesh:
                 modified = self._check_dupl_nodes(ele)
                 if modified: continue
                 modified = self._check_degen_nodes(ele)
-                if modified: continue
+                if modified or eid not in self.mesh.elements: continue
                 modified = self._check_duplicate_element(ele)
                 if modified: continue
 
-- 
2.43.0


From b12555a77d4e741e60e2846fac916170c78aebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 64/64] fix: a compound solid was written with the tag of a
 compound

---
 src/bgem/bspline/brep_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index e740baf..dfede94 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -677,7 +677,7 @@ class Compound(Shape):
 class CompoundSolid(Shape):
     def __init__(self, solids=[]):
         self.sub_types = [Solid]
-        self.shpname = 'Cs'
+        self.shpname = 'CS'
         super().__init__(solids)
 
 
-- 
2.43.0

