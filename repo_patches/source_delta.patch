From 053a9186f61615b7577a3084b8295481d724895f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 01/67] fix: support function of degenerate ellipsoids in
 kernel directions

A direction in the kernel of a degenerate shape matrix makes the quadratic form
zero only up to rounding: the single-direction branch ignored the absolute
tolerance and raised, and both branches returned infinite boundary points when
the form rounded to zero while Q*l did not.
---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py |  2 +-
 products/ellipy/gras/geom/ell/ell.py                | 11 +++++------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index bc143aa..867cdfb 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -590,7 +590,7 @@ class Ellipsoid(AEllipsoid):
     def rho(cls, ell_arr: Union[Iterable, np.ndarray], dirs_arr: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
         def f_rho_for_dir(ell_obj, dir_vec: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
             c_vec, e_mat = ell_obj.double()
-            a_tol = ell_obj.get_abs_tol(ell_obj)
+            _, a_tol = ell_obj.get_abs_tol(ell_obj)
             sup_fun, x_vec = rho_mat(e_mat, dir_vec, a_tol, c_vec.reshape(-1, 1))
             return sup_fun, x_vec
 
diff --git a/products/ellipy/gras/geom/ell/ell.py b/products/ellipy/gras/geom/ell/ell.py
index 35644bd..e532e69 100644
--- a/products/ellipy/gras/geom/ell/ell.py
+++ b/products/ellipy/gras/geom/ell/ell.py
@@ -104,10 +104,10 @@ def rho_mat(ell_shape_mat: np.ndarray, dirs_mat: np.ndarray,
         ell_center_vec = np.zeros((m, 1))
     nd = dirs_mat.shape[1]
     if nd == 1:
-        sq = sqrt_pos(dirs_mat.T @ ell_shape_mat @ dirs_mat)
+        sq = sqrt_pos(dirs_mat.T @ ell_shape_mat @ dirs_mat, abs_tol)
         sup_arr = ell_center_vec.T @ dirs_mat + sq
         bp_mat = (ell_shape_mat @ dirs_mat) / sq
-        if np.any(np.isnan(bp_mat)):
+        if not np.all(np.isfinite(bp_mat)):
             bp_mat[:] = 0.
         bp_mat = bp_mat + ell_center_vec
     else:
@@ -115,9 +115,8 @@ def rho_mat(ell_shape_mat: np.ndarray, dirs_mat: np.ndarray,
                                    axis=1), abs_tol).T
         sup_arr = ell_center_vec.T @ dirs_mat + temp_mat
         bp_mat = ell_shape_mat @ dirs_mat / np.tile(temp_mat, (m, 1))
-        is_nan_bp_mat = np.isnan(bp_mat)
-        is_nan_vec = np.any(is_nan_bp_mat, 0)
-        if np.any(is_nan_vec):
-            bp_mat[:, is_nan_vec] = 0.
+        is_not_finite_vec = np.any(~np.isfinite(bp_mat), 0)
+        if np.any(is_not_finite_vec):
+            bp_mat[:, is_not_finite_vec] = 0.
         bp_mat = bp_mat + np.tile(ell_center_vec, (1, nd))
     return sup_arr, bp_mat
-- 
2.43.0


From 5ad29b419dbe3e1eaa12f67b3cf512fc37b8a83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 02/67] fix: rho accepts a flat array of ellipsoids with as
 many directions

The size check indexed the second axis of a one-dimensional array of ellipsoids
and raised IndexError.
---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 867cdfb..6b1b74c 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -608,7 +608,7 @@ class Ellipsoid(AEllipsoid):
         n_dirs = np.prod(dir_size_vec[1:])
         #
         if not (is_one_ell or is_one_dir or n_ell == n_dirs and
-                (ell_size_vec[0] == 1 or ell_size_vec[1] == 1) and
+                np.max(ell_size_vec) == n_ell and
                 len(dir_size_vec) == 2 or np.all(ell_size_vec == dir_size_vec[1:])):
             throw_error('wrongInput:wrongSizes', 'arguments must be single ellipsoid or single ' +
                         'direction vector or arrays of almost the same sizes')
-- 
2.43.0


From 3bded49a1b46247b6e64344a93b0d7e29262529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 03/67] fix: polar accepts arrays of any layout and lists

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 6b1b74c..0fbeaf0 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -581,9 +581,10 @@ class Ellipsoid(AEllipsoid):
         cls._check_is_me(ell_arr)
         if np.any(cls.is_degenerate(ell_arr)):
             throw_error('degenerateEllipsoid', 'The resulting ellipsoid is not bounded')
-        pol_ell_arr = np.empty((1, ell_arr.size), dtype=cls.__class__)
+        ell_arr = np.array(ell_arr)
+        pol_ell_arr = np.empty((ell_arr.size,), dtype=cls.__class__)
         for i_elem in range(ell_arr.size):
-            pol_ell_arr[i_elem] = cls._get_scalar_polar_internal(ell_arr[i_elem], True)
+            pol_ell_arr[i_elem] = cls._get_scalar_polar_internal(ell_arr.flat[i_elem], True)
         return np.reshape(pol_ell_arr, ell_arr.shape)
 
     @classmethod
-- 
2.43.0


From 1488420361c6b4b6408125d52b3da6f4d1590875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 04/67] fix: polar refuses ellipsoids not containing the origin
 in their interior

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 0fbeaf0..b4d782b 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -76,6 +76,8 @@ class Ellipsoid(AEllipsoid):
             inv_sh_mat = (inv_sh_mat + inv_sh_mat.T)/2
 
             norm_const = quad_mat(sh_mat, c_vec, 0, 'inv')
+            if norm_const >= 1:
+                throw_error('degenerateEllipsoid', 'The resulting ellipsoid is not bounded')
             polar_c_vec = -np.linalg.lstsq(sh_mat, c_vec, -1)[0] / (1.0 - norm_const)
             polar_sh_mat = inv_sh_mat / (1.0 - norm_const) + polar_c_vec * polar_c_vec.T
             polar_obj = self.__class__(polar_c_vec, polar_sh_mat)
-- 
2.43.0


From a45db22f37d2146e47e32076f7d48f34cec2edb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 05/67] fix: non-robust polar of an ellipsoid with a nonzero
 centre

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index b4d782b..76b7213 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -86,7 +86,7 @@ class Ellipsoid(AEllipsoid):
             c_vec, sh_mat = self.double()
             is_zero_in_ell = quad_mat(sh_mat, c_vec, 0, 'invadv')
             if is_zero_in_ell < 1:
-                aux_mat = np.linalg.inv(sh_mat - c_vec @ c_vec.T)
+                aux_mat = np.linalg.inv(sh_mat - np.outer(c_vec, c_vec))
                 aux_mat = (aux_mat + aux_mat.T) / 2
 
                 d_vec, v_mat = np.linalg.eigh(aux_mat)
-- 
2.43.0


From 0588d7d78e12280499cb54be679e9924c3a4fde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 06/67] fix: volume of a mix of degenerate and nondegenerate
 ellipsoids is numeric

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index e3ef30f..bbbb731 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -138,7 +138,7 @@ class AEllipsoid(ABasicEllipsoid, ABC):
 
         def f_single_volume(ell_obj) -> np.ndarray:
             if cls.is_degenerate(ell_obj):
-                return np.array([0.0])
+                return np.float64(0.0)
             else:
                 q_mat = ell_obj.get_shape_mat()
                 n_dim = cls.dimension(ell_obj)
-- 
2.43.0


From b281bd556a3fe7bb947836d8b3dddea2d5210939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 07/67] fix: equality of objects with their properties included

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py   | 2 ++
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 76b7213..38c41dc 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -700,6 +700,8 @@ class Ellipsoid(AEllipsoid):
             field_descr_dict['n_plot_2d_points'] = 'Degree of ellipsoid border smoothness in 2D plotting.'
             field_nice_names_dict['n_plot_3d_points'] = 'n_plot_3d_points'
             field_descr_dict['n_plot_3d_points'] = 'Degree of ellipsoid border smoothness in 3D plotting.'
+            for prop_name in ['abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points']:
+                field_transform_func_dict[prop_name] = lambda z: z
         return ell_dict_arr, field_nice_names_dict, field_descr_dict, field_transform_func_dict
 
     @classmethod
diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 1c1884a..d449bcf 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -290,6 +290,8 @@ class Hyperplane(ABasicEllipsoid):
             field_descr_dict['abs_tol'] = 'Absolute tolerance.'
             field_nice_names_dict['rel_tol'] = 'rel_tol'
             field_descr_dict['rel_tol'] = 'Relative tolerance.'
+            for prop_name in ['abs_tol', 'rel_tol']:
+                field_transform_func_dict[prop_name] = lambda z: z
         return hyp_dict_arr, field_nice_names_dict, field_descr_dict, field_transform_func_dict
 
     @classmethod
-- 
2.43.0


From 4306bb82e0d1ff1593b8746c7a30c222fc521bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 08/67] fix: boundary of a 3-dimensional ellipsoid without the
 face grid

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 38c41dc..a210341 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -289,11 +289,7 @@ class Ellipsoid(AEllipsoid):
         else:
             throw_error('wrongDim', 'ellipsoid must be of dimension 2 or 3')
 
-        if return_grid:
-            dir_mat, f_mat = sphere_tri_ext(n_dim, n_points, return_grid)
-        else:
-            dir_mat = sphere_tri_ext(n_dim, n_points, return_grid)
-            f_mat = None
+        dir_mat, f_mat = sphere_tri_ext(n_dim, n_points, True)
         cen_vec, q_mat = self.double()
         ret_mat = dir_mat @ sqrtm_pos(q_mat, self.get_abs_tol([self], f_prop_fun=None).flat[0])
         cen_mat = np.tile(cen_vec.T, (dir_mat.shape[0], 1))
-- 
2.43.0


From d68496207afe679e41389bbd858b33409f41c7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 09/67] fix: boundary by factor accepts a non-integer scalar
 factor

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index a210341..c8ccc6d 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -307,7 +307,7 @@ class Ellipsoid(AEllipsoid):
             throw_error('wrongDim', 'ellipsoid must be of dimension 2 or 3')
         if factor_vec is None:
             factor = 1
-        elif type(factor_vec) is int:
+        elif np.isscalar(factor_vec):
             factor = factor_vec
         else:
             factor = factor_vec[n_dim - 2]
@@ -362,7 +362,7 @@ class Ellipsoid(AEllipsoid):
         n_plot_points = None
         if factor_vec is None:
             factor = 1
-        elif type(factor_vec) is int:
+        elif np.isscalar(factor_vec):
             factor = factor_vec
         else:
             factor = factor_vec[n_dim - 2]
-- 
2.43.0


From 22140ee52c651c5133001e6cdd0cd0a9be86ab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 10/67] fix: boundary grids accept an integer number of points
 stored as float

---
 products/ellipy/gras/geom/tri/tri.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index c96d1f6..7e1daf4 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -481,6 +481,7 @@ def sphere_tri_ext(n_dim: int, n_points: int, return_f_grid: bool = False) \
             and 0 < n_points == np.fix(n_points)):
         throw_error('wrong_input',
                     'n_points is expected to be a positive integer scalar number')
+    n_points = int(n_points)
     if n_dim == 2:
         if return_f_grid:
             v_grid_mat, f_grid_mat = spherebndr_2d(n_points, return_f_grid)
-- 
2.43.0


From b6afa03b7ae543acd223c2709e7d2df29abbee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 11/67] fix: rep_mat accepts integer sizes stored as float

---
 products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index e38912e..5df3ad3 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -251,6 +251,7 @@ class ABasicEllipsoid(ABC):
         shape_vec = shape_vec.flatten()
         if not np.all(np.logical_and(shape_vec == np.fix(shape_vec), shape_vec >= 0)):
             throw_error('wrongInput:shape_vec', 'size vector must contain non-negative integer values')
+        shape_vec = shape_vec.astype(int)
         n_elems = np.prod(shape_vec).flatten()[0]
         shape_vec = tuple(shape_vec)
         ell_arr = np.empty((n_elems,), dtype=np.object)
-- 
2.43.0


From bb309a15450d6003e8900be645a21129435e3925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 12/67] fix: is_bigger decides a degenerate first ellipsoid

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index c8ccc6d..10bf32b 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -402,7 +402,8 @@ class Ellipsoid(AEllipsoid):
                 logger.info('           Regularizing...')
             first_shape_mat = self._regularize(first_shape_mat, self._abs_tol)
         _, abs_tol = self.get_abs_tol([self, sec_ell], lambda z: np.min(z))
-        t_mat = ell_sim_diag(first_shape_mat, sec_shape_mat, abs_tol)
+        # smallest eigenvalues of the regularized matrix are equal to abs_tol, so a strict comparison needs less
+        t_mat = ell_sim_diag(first_shape_mat, sec_shape_mat, 0.5 * abs_tol)
         return np.max(np.abs(np.diag(t_mat @ sec_shape_mat @ t_mat.T))) < (1 + self._abs_tol)
 
     @classmethod
-- 
2.43.0


From 729b2e5ab2aed58924999b69b8710e40caf58c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 13/67] fix: degenerate shapes symmetric only to the tolerance
 can be regularized

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 10bf32b..0bf0158 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -124,7 +124,7 @@ class Ellipsoid(AEllipsoid):
     @staticmethod
     def _regularize(q_mat: np.ndarray, reg_tol: float) -> np.ndarray:
         from ellipy.gras.la.la import reg_pos_def_mat
-        return reg_pos_def_mat(q_mat, reg_tol)
+        return reg_pos_def_mat(0.5 * (q_mat + q_mat.T), reg_tol)
 
     @staticmethod
     def _rm_bad_directions(q1_mat: np.ndarray, q2_mat: np.ndarray, dirs_mat: np.ndarray, abs_tol: float) -> np.ndarray:
-- 
2.43.0


From 51628d575cc3fa6b8a78f19473eb67585b7a2e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 14/67] fix: ell_sim_diag judges the symmetry of its second
 matrix to the tolerance

---
 products/ellipy/elltool/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/core.py b/products/ellipy/elltool/core/core.py
index 3ce92be..9b5a758 100644
--- a/products/ellipy/elltool/core/core.py
+++ b/products/ellipy/elltool/core/core.py
@@ -14,7 +14,7 @@ def ell_sim_diag(a_mat: np.ndarray, b_mat: np.ndarray, abs_tol: float) -> np.nda
         throw_error('wrongInput', 'both arguments must be numeric matrices')
     if not is_mat_pos_def(a_mat, abs_tol):
         throw_error('wrongInput:a_mat', 'first argument must be a symmetric positive definite matrix')
-    if not is_mat_symm(b_mat):
+    if not is_mat_symm(b_mat, abs_tol):
         throw_error('wrongInput:b_mat', 'second argument must be a symmetric matrix')
     if a_mat.shape[0] != b_mat.shape[0]:
         throw_error('wrongInput', 'both matrices must be of the same dimension')
-- 
2.43.0


From eec2b956b6a6220f6250c42b76f80e8378b77177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 15/67] fix: is_internal accepts ellipsoid arrays of any layout
 and lists

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 0bf0158..cfcea1e 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -442,6 +442,7 @@ class Ellipsoid(AEllipsoid):
             return is_positive
 
         cls._check_is_me(ell_arr, 'first')
+        ell_arr = np.reshape(np.array(ell_arr), (-1, 1))
         if not is_numeric(mat_of_vec_mat):
             throw_error('wrongInput', 'The second input argument must be a numeric matrix.')
         if ell_arr.size == 0:
-- 
2.43.0


From 981e9a812bddd15a7cd3249c98881b9e194daed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 16/67] fix: projection refuses a basis with negative scalar
 products

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index bbbb731..93a9726 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -57,7 +57,7 @@ class AEllipsoid(ABasicEllipsoid, ABC):
             sc_prod_mat = basis_mat.T @ basis_mat
             norm_sq_vec = np.diag(sc_prod_mat)
             _, abs_tol = cls.get_abs_tol(ell_arr, lambda z: np.max(z))
-            is_orthogonal_mat = (sc_prod_mat - np.diag(norm_sq_vec)) > abs_tol
+            is_orthogonal_mat = np.abs(sc_prod_mat - np.diag(norm_sq_vec)) > abs_tol
             if np.any(is_orthogonal_mat.flatten()):
                 throw_error('wrongInput', 'basis vectors must be orthogonal')
             # normalize the basis vectors
-- 
2.43.0


From a4d032bb5ec1b33f01b800b2ca0b2694b4d02403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 17/67] fix: get_copy keeps the layout of one-element arrays

---
 products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index 5df3ad3..627b1d8 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -228,7 +228,7 @@ class ABasicEllipsoid(ABC):
         ell_arr = ell_arr.flatten()
         if ell_arr.size == 1:
             # noinspection PyProtectedMember
-            return np.array(ell_arr[0]._get_single_copy())
+            return np.reshape(np.array(ell_arr[0]._get_single_copy()), ell_shape_vec)
         else:
             copy_ell_arr = np.empty((n_elems,), dtype=np.object)
             for i_elem in range(n_elems):
-- 
2.43.0


From 29d368d08f04eb0b132a8d20bbae4f051cef351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 18/67] fix: copies of hyperplanes keep the relative tolerance

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index d449bcf..ca55245 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -91,7 +91,7 @@ class Hyperplane(ABasicEllipsoid):
 
     def _get_single_copy(self):
         normal_vec, shift = self.parameters()
-        return self.__class__(normal_vec, shift, abs_tol=self._abs_tol)
+        return self.__class__(normal_vec, shift, abs_tol=self._abs_tol, rel_tol=self._rel_tol)
 
     @classmethod
     def contains(cls, hyp_arr: Union[Iterable, np.ndarray], x_arr: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 164e9230667a38e486715503bedcf126af380ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 19/67] fix: regularisation of matrices with repeated
 eigenvalues

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 78c1bad..35a629d 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -214,7 +214,7 @@ def reg_pos_def_mat(inp_mat: np.ndarray, reg_tol: float) -> np.ndarray:
     reg_tol = try_treat_as_real(reg_tol)
     if not(is_mat_symm(inp_mat)):
         throw_error('wrongInput:inp_mat', 'matrix must be symmetric')
-    d_mat, v_mat = np.linalg.eig(inp_mat)
+    d_mat, v_mat = np.linalg.eigh(inp_mat, UPLO='U')
     m_mat = np.diag(np.maximum(0.0, reg_tol-d_mat))
     m_mat = v_mat @ m_mat @ v_mat.T
     regular_mat = inp_mat + m_mat
-- 
2.43.0


From 4e051bd65cfd0ad96a00295bd94fd8b837e3fd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 20/67] fix: internal approximation with a degenerate first
 ellipsoid

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index cfcea1e..03002bf 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -563,7 +563,10 @@ class Ellipsoid(AEllipsoid):
             cent_vec = np.sum(np.array([ell.get_center_vec() for ell in ell_arr]), 0)
             abs_tol_arr = cls.get_abs_tol(ell_arr, f_prop_fun=None).flatten()
 
-            src_mat = sqrtm_pos(ell_arr[0].get_shape_mat(), np.min(abs_tol_arr)) @ dir_mat
+            first_sh_mat = ell_arr[0].get_shape_mat()
+            if ell_arr[0].is_degenerate([ell_arr[0]]).flat[0]:
+                first_sh_mat = cls._regularize(first_sh_mat, abs_tol_arr[0])
+            src_mat = sqrtm_pos(first_sh_mat, np.min(abs_tol_arr)) @ dir_mat
             sqrt_sh_arr, rot_arr = zip(*[f_rot_arr(i) for i in np.arange(0, n_ell)])
             sqrt_sh_arr = np.array(sqrt_sh_arr)
             rot_arr = np.array(rot_arr)
-- 
2.43.0


From 5b33228c3b9d7506b31ccb9b2ebdfa274902a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 21/67] fix: empty hyperplanes are rebuilt from their
 dictionaries

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index ca55245..40479af 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -77,6 +77,8 @@ class Hyperplane(ABasicEllipsoid):
             shift = hyp_dict['shift']
             del hyp_dict['normal_vec']
             del hyp_dict['shift']
+            if np.size(normal_vec) == 0:
+                return Hyperplane(**hyp_dict)
             return Hyperplane(normal_vec, shift, **hyp_dict)
         dict_arr = np.array(dict_arr)
         return np.reshape(np.array([dict_2_hp(hp_dict) for hp_dict in list(dict_arr.flatten())]), dict_arr.shape)
-- 
2.43.0


From 500aca502c2bd5ddeb97d597449913faf7c7e118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 22/67] fix: rep_mat refuses infinite sizes

---
 products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index 627b1d8..506bb2b 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -249,7 +249,7 @@ class ABasicEllipsoid(ABC):
         if shape_vec.size == 0 or shape_vec.size != np.max(shape_vec.shape):
             throw_error('wrongInput:shape_vec', 'size vector must have at least two elements and be not a matrix')
         shape_vec = shape_vec.flatten()
-        if not np.all(np.logical_and(shape_vec == np.fix(shape_vec), shape_vec >= 0)):
+        if not np.all(np.isfinite(shape_vec) & (shape_vec == np.fix(shape_vec)) & (shape_vec >= 0)):
             throw_error('wrongInput:shape_vec', 'size vector must contain non-negative integer values')
         shape_vec = shape_vec.astype(int)
         n_elems = np.prod(shape_vec).flatten()[0]
-- 
2.43.0


From a7ebcff5e1d4d12ac319a4b60dce875b13b5e676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 23/67] fix: parallelism of hyperplanes compares all the
 coordinates of the normals

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 40479af..d0d0f50 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -212,9 +212,9 @@ class Hyperplane(ABasicEllipsoid):
             if np.array_equal(np.shape(first_hyp_norm_vec), np.shape(sec_hyp_norm_vec)):
                 first_hyp_norm_vec /= np.linalg.norm(first_hyp_norm_vec)
                 sec_hyp_norm_vec /= np.linalg.norm(sec_hyp_norm_vec)
-                if np.max(np.abs(first_hyp_norm_vec - sec_hyp_norm_vec) < first_hyp_abs_tol):
+                if np.all(np.abs(first_hyp_norm_vec - sec_hyp_norm_vec) < first_hyp_abs_tol):
                     is_pos = True
-                elif np.max(np.abs(first_hyp_norm_vec + sec_hyp_norm_vec) < first_hyp_abs_tol):
+                elif np.all(np.abs(first_hyp_norm_vec + sec_hyp_norm_vec) < first_hyp_abs_tol):
                     is_pos = True
             return is_pos
 
-- 
2.43.0


From f754d046cb4eb42fe1dd87c97b51c59c043c9814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 24/67] fix: parallelism of one hyperplane and an array of them

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index d0d0f50..a1b961c 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -223,6 +223,11 @@ class Hyperplane(ABasicEllipsoid):
                 (np.size(sec_hyp_arr) == 1)):
             throw_error('wrongSizes', 'Sizes of hyperplane arrays do not match.')
 
+        if np.size(first_hyp_arr) == 1 and np.size(sec_hyp_arr) > 1:
+            first_hyp_arr = np.full(np.shape(sec_hyp_arr), first_hyp_arr.flat[0])
+        elif np.size(sec_hyp_arr) == 1 and np.size(first_hyp_arr) > 1:
+            sec_hyp_arr = np.full(np.shape(first_hyp_arr), sec_hyp_arr.flat[0])
+
         first_hyp_abs_tol_arr = cls.get_abs_tol(first_hyp_arr, f_prop_fun=None).flatten()
 
         is_pos_arr = np.reshape(np.array([is_sing_parallel(x, y, z)
-- 
2.43.0


From c40671c2ffc38ae1d1fbe8bc16b1049324ab9844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 25/67] fix: orth_transl stays orthogonal for nearly opposite
 vectors

---
 products/ellipy/gras/la/la.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 35a629d..4fb67e6 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -93,11 +93,12 @@ def orth_transl(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
     src_vec = src_vec / np.sqrt(src_squared_norm)
 
     scal_prod = np.sum(src_vec * dst_vec)
-    s_val = np.sqrt(np.maximum(1.0 - scal_prod * scal_prod, 0.0))
+    r_vec = src_vec - scal_prod * dst_vec
+    s_val = np.sqrt(np.sum(r_vec * r_vec))
     q_mat = np.zeros((n_dims, 2), dtype=np.float64)
     q_mat[:, 0] = np.squeeze(dst_vec)
     if np.abs(s_val) > __ABS_TOL:
-        q_mat[:, 1] = np.squeeze((src_vec - scal_prod * dst_vec) / s_val)
+        q_mat[:, 1] = np.squeeze(r_vec / s_val)
     else:
         q_mat[:, 1] = 0.0
 
-- 
2.43.0


From d550f7d434752806312b4cdf2ba6ef9e66a14c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 26/67] fix: orth_transl_qr of parallel vectors is not NaN

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 4fb67e6..a6abc06 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -198,7 +198,7 @@ def orth_transl_qr(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
     else:
         q_mat, r_mat = np.linalg.qr(np.hstack((dst_vec, src_vec)))
         cos_val = dst_vec.T @ src_vec / np.sqrt(dst_squared_norm * src_squared_norm)
-        sin_val = -np.sqrt(1 - cos_val * cos_val)
+        sin_val = -np.sqrt(np.maximum(1 - cos_val * cos_val, 0.0))
         if r_mat[0, 0] * r_mat[1, 1] < 0.:
             sin_val = -sin_val
 
-- 
2.43.0


From 7dd4a61347154c2e4036eb50a044b3cc95413e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 27/67] fix: orth_transl_max_tr maps a one-dimensional source
 onto the destination

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index a6abc06..998c510 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -153,7 +153,7 @@ def orth_transl_max_tr(src_vec: np.ndarray, dst_vec: np.ndarray, max_mat: np.nda
 
     n_dims = src_vec.shape[0]
     if n_dims == 1:
-        return np.ones((1, 1))
+        return np.reshape(np.sign(src_vec) * np.sign(dst_vec), (1, 1))
     else:
         e_vec = np.append(np.ones((1, ), dtype=np.float64), np.zeros((n_dims - 1, ), dtype=np.float64))
         o_src_mat = orth_transl(e_vec, src_vec)
-- 
2.43.0


From 2edfd746659ba0435bb10d20ebe4ffbb72b63d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 28/67] fix: ell_valign accepts vectors of dimension one

---
 products/ellipy/elltool/core/core.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/products/ellipy/elltool/core/core.py b/products/ellipy/elltool/core/core.py
index 9b5a758..ddd31de 100644
--- a/products/ellipy/elltool/core/core.py
+++ b/products/ellipy/elltool/core/core.py
@@ -49,15 +49,8 @@ def ell_valign(v: np.ndarray, x: np.ndarray) -> np.ndarray:
     if x.size != max(x.shape):
         throw_error('wrongInput:x', 'ELL_VALIGN: second argument must be a vector.')
 
-    if v.ndim == 0:
-        v = np.expand_dims(v, axis=0)
-    else:
-        v = np.squeeze(v)
-
-    if x.ndim == 0:
-        x = np.expand_dims(x, axis=0)
-    else:
-        x = np.squeeze(x)
+    v = v.flatten()
+    x = x.flatten()
 
     if v.shape[0] != x.shape[0]:
         throw_error('wrongInput:v,x', 'ELL_VALIGN: both vectors must be of the same dimension.')
-- 
2.43.0


From 20aeadb620c4f97873ae8fea3fccccd3ee079de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 29/67] fix: ell_sim_diag diagonalises indefinite matrices

---
 products/ellipy/elltool/core/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/core.py b/products/ellipy/elltool/core/core.py
index ddd31de..b8f2e66 100644
--- a/products/ellipy/elltool/core/core.py
+++ b/products/ellipy/elltool/core/core.py
@@ -21,8 +21,9 @@ def ell_sim_diag(a_mat: np.ndarray, b_mat: np.ndarray, abs_tol: float) -> np.nda
 
     u1_mat, s_vec, _ = np.linalg.svd(a_mat, full_matrices=True)
     u_mat = np.linalg.lstsq(sqrtm_pos(np.diag(s_vec), abs_tol).T, u1_mat.T, -1)[0].T
-    u2_mat, _, _ = np.linalg.svd(u_mat.T @ b_mat @ u_mat)
-    return u2_mat.T @ u_mat.T
+    c_mat = u_mat.T @ b_mat @ u_mat
+    _, u2_mat = np.linalg.eigh(0.5 * (c_mat + c_mat.T))
+    return u2_mat[:, ::-1].T @ u_mat.T
 
 
 def ell_fusion_lambda(a: float, q1: np.ndarray, q1_mat: np.ndarray,
-- 
2.43.0


From 2aa13fc1a706bf2dbc9662ff3afbe10c789056ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 30/67] fix: volume of degenerate ellipsoids is zero, not NaN

---
 products/ellipy/gras/geom/ell/ell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/geom/ell/ell.py b/products/ellipy/gras/geom/ell/ell.py
index e532e69..6587961 100644
--- a/products/ellipy/gras/geom/ell/ell.py
+++ b/products/ellipy/gras/geom/ell/ell.py
@@ -9,7 +9,7 @@ from ellipy.gen.common.common import throw_error, is_numeric
 def ell_volume(q_mat: np.ndarray) -> float:
     n_dims = q_mat.shape[0]
     vol_val = \
-        np.pi ** (n_dims * 0.5) * np.sqrt(np.linalg.det(q_mat)) / gamma(0.5 * n_dims + 1)
+        np.pi ** (n_dims * 0.5) * np.sqrt(np.maximum(np.linalg.det(q_mat), 0.)) / gamma(0.5 * n_dims + 1)
     return vol_val
 
 
-- 
2.43.0


From fd853ac47e8d81e9a9425d9b3a5dee6415317ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:32 +0000
Subject: [PATCH 31/67] fix: support points in directions where the quadratic
 form is zero up to rounding

---
 products/ellipy/gras/geom/ell/ell.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/products/ellipy/gras/geom/ell/ell.py b/products/ellipy/gras/geom/ell/ell.py
index 6587961..07bd71b 100644
--- a/products/ellipy/gras/geom/ell/ell.py
+++ b/products/ellipy/gras/geom/ell/ell.py
@@ -103,11 +103,13 @@ def rho_mat(ell_shape_mat: np.ndarray, dirs_mat: np.ndarray,
     if ell_center_vec is None:
         ell_center_vec = np.zeros((m, 1))
     nd = dirs_mat.shape[1]
+    # rounding level of the quadratic forms of the directions
+    round_vec = 10 * m * np.finfo(float).eps * np.sum(np.abs(dirs_mat) * (np.abs(ell_shape_mat) @ np.abs(dirs_mat)), axis=0)
     if nd == 1:
         sq = sqrt_pos(dirs_mat.T @ ell_shape_mat @ dirs_mat, abs_tol)
         sup_arr = ell_center_vec.T @ dirs_mat + sq
         bp_mat = (ell_shape_mat @ dirs_mat) / sq
-        if not np.all(np.isfinite(bp_mat)):
+        if not np.all(np.isfinite(bp_mat)) or np.all(sq * sq <= round_vec):
             bp_mat[:] = 0.
         bp_mat = bp_mat + ell_center_vec
     else:
@@ -115,8 +117,8 @@ def rho_mat(ell_shape_mat: np.ndarray, dirs_mat: np.ndarray,
                                    axis=1), abs_tol).T
         sup_arr = ell_center_vec.T @ dirs_mat + temp_mat
         bp_mat = ell_shape_mat @ dirs_mat / np.tile(temp_mat, (m, 1))
-        is_not_finite_vec = np.any(~np.isfinite(bp_mat), 0)
-        if np.any(is_not_finite_vec):
-            bp_mat[:, is_not_finite_vec] = 0.
+        is_center_vec = np.logical_or(np.any(~np.isfinite(bp_mat), 0), temp_mat * temp_mat <= round_vec)
+        if np.any(is_center_vec):
+            bp_mat[:, is_center_vec] = 0.
         bp_mat = bp_mat + np.tile(ell_center_vec, (1, nd))
     return sup_arr, bp_mat
-- 
2.43.0


From ef55e2ee03aa8b0853b6426488749dde95fa3102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 32/67] fix: sphere_part returns distinct directions

---
 products/ellipy/gras/geom/geom.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/products/ellipy/gras/geom/geom.py b/products/ellipy/gras/geom/geom.py
index 173cfb6..a05eaa1 100755
--- a/products/ellipy/gras/geom/geom.py
+++ b/products/ellipy/gras/geom/geom.py
@@ -37,7 +37,7 @@ def sphere_part(n_points: int) -> np.ndarray:
 
     def sphere_distance(a_mat: np.ndarray, b_vec: np.ndarray) -> np.ndarray:
         dot_prod_vec = np.sum(a_mat * np.tile(b_vec, ([a_mat.shape[0], 1])), 1)
-        return np.arccos(dot_prod_vec)
+        return np.arccos(np.clip(dot_prod_vec, -1., 1.))
 
     if n_points <= 0:
         throw_error('wrongInput:n_points', 'n_points should be positive integer')
@@ -58,12 +58,10 @@ def sphere_part(n_points: int) -> np.ndarray:
         mod_i = np.mod(i_point, 3)
         if mod_i == 1:
             i_min = np.argmin(x_dist_vec)
-            x_dist_vec[i_min] = 2*np.pi
         elif mod_i == 2:
             i_min = np.argmin(y_dist_vec)
-            y_dist_vec[i_min] = 2*np.pi
         else:
             i_min = np.argmin(z_dist_vec)
-            z_dist_vec[i_min] = 2*np.pi
+        x_dist_vec[i_min] = y_dist_vec[i_min] = z_dist_vec[i_min] = 2*np.pi
         r_mat[i_point] = p_mat[i_min]
     return r_mat
-- 
2.43.0


From 921c55ac2458ea6bae6c464ace56878d3cd6a24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 33/67] fix: refinement of a single face given as a matrix

---
 products/ellipy/gras/geom/tri/tri.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index 7e1daf4..e3eb30d 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -141,11 +141,10 @@ def shrink_face_tri(v_mat: np.ndarray, f_mat: np.ndarray,
         is_e2orig_part_vec = e_length_vec > max_edge_len
         if np.any(is_e2orig_part_vec) and (i_step <= n_max_steps):
             # Find faces that need to be shortened
-            if n_faces > 1:
-                is_f2part_vec = np.any(is_e2orig_part_vec[f2e_mat], 1)
-            else:
-                # this is because is_e2part_vec(f2e_mat) produces a column-vector for one face
-                is_f2part_vec = np.any(is_e2orig_part_vec[f2e_mat])
+            if n_faces == 1:
+                # one face may be given, and is mapped to its edges, as a vector
+                f_mat, f2e_mat, f2e_is_dir_mat = [np.reshape(x, (1, 3)) for x in (f_mat, f2e_mat, f2e_is_dir_mat)]
+            is_f2part_vec = np.any(is_e2orig_part_vec[f2e_mat], 1)
 
             # Read just indices of partitioned edges
             f2e_part_mat = f2e_mat[is_f2part_vec]
-- 
2.43.0


From 015a506b7257e53262b9210e8f6f8df22b2c96b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 34/67] fix: face-to-edge map of zero-area faces made by
 refinement

---
 products/ellipy/gras/geom/tri/tri.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index e3eb30d..132ac15 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -264,8 +264,8 @@ def shrink_face_tri(v_mat: np.ndarray, f_mat: np.ndarray,
             ind_12f2e3_vec = ind_v_mid_e_broken_nut_kept_vec - n_verts + 3 * n_shrinked_faces + n_edges
             ind_23f2e3_vec = ind_12f2e3_vec + n_new_verts
 
-            f2e3_new_mat = np.column_stack((ind_12f2e3_vec, ind_23f2e3_vec, ind_e_broken_but_kept_vec))
-            f2e3_is_dir_new_mat = np.ones(shape=np.shape(f2e3_new_mat), dtype=bool)
+            f2e3_new_mat = np.column_stack((ind_12f2e3_vec, ind_e_broken_but_kept_vec, ind_23f2e3_vec))
+            f2e3_is_dir_new_mat = np.tile(np.array([False, True, True]), (np.size(f2e3_new_mat, 0), 1))
 
             # Optionally adjust vertices
             if is_adjust_func_spec:
-- 
2.43.0


From 1f8b7f76acd1f5062b0c5acbd08770df626a19fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 35/67] fix: is_face compares index matrices of different types

---
 products/ellipy/gras/geom/tri/tri.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index 132ac15..5b7df73 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -345,6 +345,7 @@ def is_face(f_mat: np.ndarray, f_to_check_mat: np.ndarray) -> np.ndarray:
         return out_f_num_list
 
     f_mat, e_mat, ind_f_vec, ind_shift_vec = get_face_edge_info(f_mat)
+    f_to_check_mat = np.asarray(f_to_check_mat, dtype=f_mat.dtype)
     if ind_shift_vec.size == 1:
         f_num_list = [ind_f_vec]
     else:
-- 
2.43.0


From 1c1de9f53aaa4485a4258bb022caa3f75e99c55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 36/67] fix: two-dimensional geometric difference with
 directions off the hull of the scaled ones

qhull orders neither the edges of the hull nor their ends, and the loop over the
directions between them did not wrap around.
---
 products/ellipy/gras/geom/sup/sup.py | 50 +++++++---------------------
 1 file changed, 12 insertions(+), 38 deletions(-)

diff --git a/products/ellipy/gras/geom/sup/sup.py b/products/ellipy/gras/geom/sup/sup.py
index 202dfaf..9739499 100644
--- a/products/ellipy/gras/geom/sup/sup.py
+++ b/products/ellipy/gras/geom/sup/sup.py
@@ -28,6 +28,17 @@ def sup_2_boundary_3(dir_mat: np.ndarray, sup_vec: np.ndarray, face_mat: np.ndar
     return x_bound_mat
 
 
+def __hull_gauge(s_mat: np.ndarray) -> np.ndarray:
+    # for each of the points (columns) its Minkowski functional with respect to their convex hull
+    hull = ConvexHull(s_mat.T)
+    # facets passing through the origin (up to rounding) do not bound the rays
+    is_facet_vec = hull.equations[:, -1] < -1e3 * np.finfo(float).eps * np.max(np.abs(s_mat))
+    facet_mat = hull.equations[is_facet_vec, :]
+    gauge_vec = np.max((facet_mat[:, :-1] @ s_mat) / -facet_mat[:, -1:], axis=0)
+    gauge_vec[hull.vertices] = 1.
+    return np.minimum(gauge_vec, 1.)
+
+
 def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarray) -> np.ndarray:
     if l_mat.ndim != 2:
         throw_error('wrongInput:l_mat',
@@ -59,7 +70,6 @@ def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
         throw_error('wrongInput:rho1_vec,l_mat',
                     'The number of columns of l_mat must equal the length of rho1_vec')
 
-    n_dirs = l_mat.shape[1]
     n_dims = l_mat.shape[0]
 
     if n_dims != 2:
@@ -72,43 +82,7 @@ def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
                     'Geometric difference is expected to have a non-empty interior')
 
     s_mat = l_mat / np.matlib.repmat(rho_diff_vec, n_dims, 1)
-    # noinspection PyUnresolvedReferences
-    ind_mat = ConvexHull(s_mat.T).simplices
-
-    ind_face_length_vec = ind_mat[:, 1] - ind_mat[:, 0]
-    is_neg_vec = ind_face_length_vec < -1
-    ind_face_length_vec[is_neg_vec] = n_dirs + ind_face_length_vec[is_neg_vec]
-    ind_face_vec = np.nonzero(ind_face_length_vec > 1)[0]
-    n_faces = len(ind_face_vec)
-    s_norm_vec = np.ones(n_dirs, dtype=np.float64)
-
-    for i_face in range(n_faces):
-        ind_face = ind_face_vec[i_face]
-        ind_left = ind_mat[ind_face, 0]
-        ind_right = ind_mat[ind_face, 1]
-
-        b_vec = np.expand_dims(s_mat[:, ind_left], axis=0).T
-        a_first_vec = b_vec - np.expand_dims(s_mat[:, ind_right], axis=0).T
-
-        n_change_dirs = ind_face_length_vec[ind_face] - 1
-        ind_dir = ind_left
-
-        for i_dir in range(0, n_change_dirs):
-            ind_dir = ind_dir + 1
-
-            if ind_dir > n_dirs:
-                ind_dir = 0
-
-            a_mat = np.concatenate((a_first_vec, np.expand_dims(s_mat[:, ind_dir], axis=0).T), axis=1)
-            x_vec = np.linalg.lstsq(a_mat, b_vec, -1)[0]
-            s_val = x_vec[1]
-
-            if s_val < 0:
-                throw_error('wrongState:s_val', 's_val cannot be negative')
-
-            s_norm_vec[ind_dir] = s_val
-
-    rho_diff_vec = rho_diff_vec / s_norm_vec
+    rho_diff_vec = rho_diff_vec * __hull_gauge(s_mat)
 
     return rho_diff_vec
 
-- 
2.43.0


From 963dba9605885c85ee0699dfe9dbc2e8ba3e7e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 37/67] fix: three-dimensional geometric difference of sets of
 any size

the absolute tolerance of the ray-triangle intersection dropped all the triangles
of small scaled directions (large sets or fine grids), dividing by zero.
---
 products/ellipy/gras/geom/sup/sup.py | 27 +--------------------------
 1 file changed, 1 insertion(+), 26 deletions(-)

diff --git a/products/ellipy/gras/geom/sup/sup.py b/products/ellipy/gras/geom/sup/sup.py
index 9739499..bd7d81a 100644
--- a/products/ellipy/gras/geom/sup/sup.py
+++ b/products/ellipy/gras/geom/sup/sup.py
@@ -88,8 +88,6 @@ def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
 
 
 def sup_geom_diff_3d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarray) -> np.ndarray:
-    __ABS_TOL = 1e-5
-
     if l_mat.ndim != 2:
         throw_error('wrongInput:l_mat',
                     'l_mat must be a matrix')
@@ -131,29 +129,6 @@ def sup_geom_diff_3d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
                     'Geometric difference is expected to have a non-empty interior')
 
     s_mat = l_mat / np.matlib.repmat(rho_diff_vec, n_dims, 1)
-    # noinspection PyUnresolvedReferences
-    f_s_mat = ConvexHull(s_mat.T).simplices
-    dist_vec = np.zeros(l_mat.shape[1])
-
-    for i_dist in range(l_mat.shape[1]):
-        for j_tri in range(f_s_mat.shape[0]):
-            tri_mat = s_mat[:, f_s_mat[j_tri, :]]
-            x1_vec = tri_mat[:, 1] - tri_mat[:, 0]
-            x2_vec = tri_mat[:, 2] - tri_mat[:, 0]
-            norm1_vec = np.cross(s_mat[:, i_dist], x2_vec)
-            det_temp = np.dot(x1_vec, norm1_vec)
-            if np.abs(det_temp) > __ABS_TOL:
-                inv_det = 1 / det_temp
-                s_point = -tri_mat[:, 0]
-                u_dist = inv_det * np.dot(s_point, norm1_vec)
-                if u_dist >= -__ABS_TOL:
-                    norm2_vec = np.cross(s_point, x1_vec)
-                    v_dist = inv_det * np.dot(s_mat[:, i_dist], norm2_vec)
-                    if v_dist >= -__ABS_TOL and u_dist + v_dist <= 1 + __ABS_TOL:
-                        t_dist = inv_det * np.dot(x2_vec, norm2_vec)
-                        if t_dist > 0:
-                            dist_vec[i_dist] = t_dist
-
-    rho_diff_vec = rho_diff_vec / dist_vec
+    rho_diff_vec = rho_diff_vec * __hull_gauge(s_mat)
 
     return rho_diff_vec
-- 
2.43.0


From 70e239575fefd0b73bc1c62319d439e0d1328e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:22 +0000
Subject: [PATCH 38/67] fix: symmetrisation of a plain matrix

---
 products/ellipy/gras/gen/gen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 6a29139..9d86e26 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -85,7 +85,8 @@ class MatVector:
 
     @staticmethod
     def make_symmetric(data_arr: np.ndarray) -> np.ndarray:
-        ret_arr = 0.5 * (data_arr + MatVector.transpose(data_arr))
+        trans_arr = MatVector.transpose(data_arr)
+        ret_arr = 0.5 * (MatVector.transpose(trans_arr) + trans_arr)
         return ret_arr
 
     @staticmethod
-- 
2.43.0


From ca10c3d6c7710855f12df029f7c01bb7d8b233db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:22 +0000
Subject: [PATCH 39/67] fix: pseudo-inverse of a plain matrix

---
 products/ellipy/gras/gen/gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 9d86e26..43e4243 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -91,9 +91,9 @@ class MatVector:
 
     @staticmethod
     def pinv(data_arr: np.ndarray) -> np.ndarray:
-        arr_size = data_arr.shape
         if data_arr.ndim == 2:
-            arr_size = (arr_size[0], arr_size[1], 1)
+            data_arr = np.expand_dims(data_arr, 2)
+        arr_size = data_arr.shape
         inv_data_array = np.zeros((arr_size[1], arr_size[0], arr_size[2]), dtype=np.float64)
         for t in range(arr_size[2]):
             inv_data_array[:, :, t] = np.linalg.pinv(data_arr[:, :, t])
-- 
2.43.0


From 10aa7416dc358c48cc9f14591e0785a99198e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:22 +0000
Subject: [PATCH 40/67] fix: products with scalar slices and with constant
 factors

---
 products/ellipy/gras/gen/gen.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 43e4243..56b6a7b 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -243,6 +243,16 @@ class MatVector:
             return sp.csc_matrix((int_arr.T.flatten(), (i_ind, j_ind)),
                                  shape=(n_rows * n_time_points, n_cols * n_time_points))
 
+        def get_slice(inp_arr: np.ndarray, i_slice: int) -> np.ndarray:
+            if inp_arr.ndim < 3:
+                return inp_arr
+            return inp_arr[:, :, i_slice if inp_arr.shape[2] > 1 else 0]
+
+        def multiply(left_mat: np.ndarray, right_mat: np.ndarray) -> np.ndarray:
+            if left_mat.size == 1 or right_mat.size == 1:
+                return left_mat * right_mat
+            return left_mat @ right_mat
+
         use_sparse = use_sparse_matrix
         a_shape = a_arr.shape
         n_a_rows = a_shape[0]
@@ -282,12 +292,10 @@ class MatVector:
                     res_mat = np.zeros((n_a_rows, n_a_cols, n_time_points), dtype=np.float64)
                 else:
                     res_mat = np.zeros((n_a_rows, n_b_cols, n_time_points), dtype=np.float64)
-                if b_shape[2] == n_time_points:
-                    for i_time_point in range(n_time_points):
-                        res_mat[:, :, i_time_point] = a_arr[:, :, i_time_point] @ b_arr[:, :, i_time_point]
-                elif b_shape[2] == 1:
+                if b_shape[2] == n_time_points or b_shape[2] == 1:
                     for i_time_point in range(n_time_points):
-                        res_mat[:, :, i_time_point] = a_arr[:, :, i_time_point] @ b_arr
+                        res_mat[:, :, i_time_point] = multiply(a_arr[:, :, i_time_point],
+                                                               get_slice(b_arr, i_time_point))
                 else:
                     throw_error('wrongInput', 'Incorrect size of b_arr')
             else:
@@ -298,8 +306,9 @@ class MatVector:
                 else:
                     res_mat = np.zeros((n_a_rows, n_c_cols, n_time_points), dtype=np.float64)
                 for i_time_point in range(n_time_points):
-                    res_mat[:, :, i_time_point] = a_arr[:, :, i_time_point] @ \
-                                                  b_arr[:, :, i_time_point] @ c_arr[:, :, i_time_point]
+                    res_mat[:, :, i_time_point] = multiply(multiply(a_arr[:, :, i_time_point],
+                                                                    get_slice(b_arr, i_time_point)),
+                                                           get_slice(c_arr, i_time_point))
         return res_mat
 
 
-- 
2.43.0


From 2f94fdc3da146120f40f0898623721df53d4c62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 41/67] fix: square roots of scalar slices and of slices with
 NaNs

---
 products/ellipy/gras/gen/gen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 56b6a7b..558d316 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -336,7 +336,8 @@ class SquareMatVector(MatVector):
             for t in range(size_vec[2]):
                 if np.isnan(data_arr[:, :, t]).any():
                     sqrt_data_array[:, :, t] = np.NaN
-                sqrt_data_array[:, :, t] = sqrtm_pos(np.squeeze(data_arr[:, :, t]))
+                else:
+                    sqrt_data_array[:, :, t] = sqrtm_pos(data_arr[:, :, t])
         return sqrt_data_array
 
     @staticmethod
-- 
2.43.0


From 435510ab7f41e3a917cb61234c0a50fd533212dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 42/67] fix: make_pos_definite_or_nan of a plain matrix keeps
 its size

---
 products/ellipy/gras/gen/gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 558d316..122bcf2 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -345,9 +345,9 @@ class SquareMatVector(MatVector):
         if data_arr.ndim == 2:
             s_min = min(np.linalg.eigvalsh(data_arr))
             if s_min < 0.:
-                res_data_arr = np.nan
+                res_data_arr = np.full(data_arr.shape, np.nan)
             else:
-                res_data_arr = data_arr
+                res_data_arr = np.copy(data_arr)
         else:
             size_vec = data_arr.shape
             res_data_arr = np.zeros(size_vec)
-- 
2.43.0


From 8e9c5fc4357fd128a3e93a16c733f5046184c8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 43/67] fix: lr_multiply_by_vec uses all the slices and keeps
 its argument

---
 products/ellipy/gras/gen/gen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 122bcf2..2648a6d 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -425,7 +425,9 @@ class SquareMatVector(MatVector):
     @staticmethod
     def lr_multiply_by_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         if inp_a_arr.ndim == 1:
-            inp_a_arr.shape = (inp_a_arr.size, 1)
+            inp_a_arr = inp_a_arr.reshape((inp_a_arr.size, 1))
+        if inp_b_arr.ndim > 2 and inp_a_arr.shape[1] == 1:
+            inp_a_arr = np.tile(inp_a_arr, (1, inp_b_arr.shape[2]))
         a_size_vec = inp_a_arr.shape
         if inp_b_arr.ndim == 2:
             out_vec = np.zeros((1, inp_a_arr.shape[1]))
-- 
2.43.0


From d76f2f78a241a53d7f1cb3f2356aa74d92bff715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 44/67] fix: lr_divide_vec of several vectors by one matrix and
 keeping its argument

---
 products/ellipy/gras/gen/gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 2648a6d..e932987 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -442,9 +442,9 @@ class SquareMatVector(MatVector):
     @staticmethod
     def lr_divide_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         if inp_a_arr.ndim == 1:
-            inp_a_arr.shape = (inp_a_arr.size, 1)
+            inp_a_arr = inp_a_arr.reshape((inp_a_arr.size, 1))
         if inp_b_arr.ndim == 2:
-            out_vec = inp_a_arr.T @ np.linalg.lstsq(inp_b_arr, inp_a_arr, -1)[0]
+            out_vec = np.sum(inp_a_arr * np.linalg.lstsq(inp_b_arr, inp_a_arr, -1)[0], axis=0)
         else:
             if inp_a_arr.shape[1] == 1:
                 out_vec = np.zeros((inp_b_arr.shape[2],), dtype=np.float64)
-- 
2.43.0


From 9ab7cc7450c888897911948ab39376368aad1b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 45/67] fix: spectral products project on the eigenvectors

---
 products/ellipy/gras/gen/gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index e932987..310d805 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -468,7 +468,7 @@ class SymmetricMatVector(SquareMatVector):
             ua_array = SquareMatVector.r_multiply(u_array, inp_a_arr)
         else:
             throw_error('wrongInput:flag', 'flag %s is not supported' % flag)
-        out_array = SquareMatVector.lr_multiply(s_array, ua_array, flag)
+        out_array = SquareMatVector.lr_multiply(s_array, ua_array)
         return out_array
 
     @staticmethod
@@ -521,4 +521,4 @@ class SymmetricMatVector(SquareMatVector):
         for t in range(size_vec[2]):
             eig_vec, s_array[:, :, t] = la.eigh(sym_arr[:, :, t])
             u_array[:, :, t] = np.diag(eig_vec)
-        return s_array, u_array
+        return MatVector.transpose(s_array), u_array
-- 
2.43.0


From ad66d3df7b7fec8949ffbfde137bc4176aea85e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 46/67] fix: spectral products with a single matrix

---
 products/ellipy/gras/gen/gen.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 310d805..1ec8104 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -473,7 +473,7 @@ class SymmetricMatVector(SquareMatVector):
 
     @staticmethod
     def r_svd_multiply_by_vec(inp_mat_arr: np.ndarray, inp_vec_arr: np.ndarray) -> np.ndarray:
-        u_array, s_array = SymmetricMatVector.__array_svd(inp_mat_arr)
+        u_array, s_array = SymmetricMatVector.__array_svd(inp_mat_arr, inp_vec_arr.shape[-1])
         uv_array = MatVector.r_multiply_by_vec(u_array, inp_vec_arr)
         if inp_vec_arr.ndim != 2:
             throw_error('wrongInput:inp_vec_arr', 'inpVecArray is expected to be 2-dimensional array')
@@ -486,36 +486,32 @@ class SymmetricMatVector(SquareMatVector):
 
     @staticmethod
     def lr_svd_multiply_by_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
-        u_array, s_array = SymmetricMatVector.__array_svd(inp_b_arr)
+        u_array, s_array = SymmetricMatVector.__array_svd(inp_b_arr, inp_a_arr.shape[-1])
         ua_array = MatVector.r_multiply_by_vec(u_array, inp_a_arr)
         out_vec = SquareMatVector.lr_multiply_by_vec(s_array, ua_array)
         return out_vec
 
     @staticmethod
     def lr_svd_divide_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
-        u_array, s_array = SymmetricMatVector.__array_svd(inp_b_arr)
+        u_array, s_array = SymmetricMatVector.__array_svd(inp_b_arr, inp_a_arr.shape[-1])
         ua_array = MatVector.r_multiply_by_vec(u_array, inp_a_arr)
         #
         a_size_vec = np.shape(inp_a_arr)
         n_elems = a_size_vec[1]
         #
-        n_mat_elems = np.shape(inp_b_arr)
-        n_mat_elems = n_mat_elems[2]
-        if n_mat_elems == 1:
-            b_inv_mat = np.diag(1 / np.diag(s_array))
-            out_vec = np.sum(((b_inv_mat @ ua_array) * ua_array), axis=0)
-        else:
-            out_vec = np.zeros(n_elems, dtype=np.float64)
-            for i_elem in range(n_elems):
-                b_inv_mat = np.diag(1 / np.diag(s_array[:, :, i_elem]))
-                out_vec[i_elem] = (ua_array[:, i_elem].T @ (b_inv_mat @ ua_array[:, i_elem]))
+        out_vec = np.zeros(n_elems, dtype=np.float64)
+        for i_elem in range(n_elems):
+            b_inv_mat = np.diag(1 / np.diag(s_array[:, :, i_elem]))
+            out_vec[i_elem] = (ua_array[:, i_elem].T @ (b_inv_mat @ ua_array[:, i_elem]))
         return out_vec
 
     @staticmethod
-    def __array_svd(sym_arr: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
+    def __array_svd(sym_arr: np.ndarray, n_slices: int = 1) -> Tuple[np.ndarray, np.ndarray]:
+        if sym_arr.ndim == 2:
+            sym_arr = np.expand_dims(sym_arr, 2)
+        if sym_arr.shape[2] == 1:
+            sym_arr = np.tile(sym_arr, (1, 1, n_slices))
         size_vec = np.shape(sym_arr)
-        if len(size_vec) == 2:
-            size_vec = np.append(size_vec, 1)
         u_array = np.zeros(size_vec, dtype=np.float64)
         s_array = np.zeros(size_vec, dtype=np.float64)
         for t in range(size_vec[2]):
-- 
2.43.0


From 7b71b44c3a0bd160a966b7d1e052d46788d37559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 47/67] fix: expressions mixing constants and time at one time
 point

---
 products/ellipy/gras/gen/gen.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 1ec8104..51813f6 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -187,24 +187,16 @@ class MatVector:
         elif exp_str[-2] != "]":
             exp_str = exp_str + "]"
         t = MatVector.__to_array(t_vec)
-        if len(t) == 1:
-            ret_val = np.array(eval(exp_str))
-            if ret_val.ndim < 2:
-                ret_val = np.expand_dims(ret_val, 1)
-            if ret_val.ndim < 3:
-                ret_val = np.expand_dims(ret_val, 2)
-            return ret_val
-        else:
-            time_len = len(t)
-            ret_val = eval(exp_str)
-            ret_val = [[np.repeat(np.asarray(j), time_len) if type(j) != np.ndarray else j
-                        for j in i]
-                       for i in ret_val]
-            ret_val = np.array(ret_val)
-            ret_shape = ret_val.shape
-            if len(ret_shape) < 3:
-                ret_val = np.expand_dims(ret_val, 0)
-            return ret_val
+        time_len = len(t)
+        ret_val = eval(exp_str)
+        ret_val = [[np.repeat(np.asarray(j), time_len) if type(j) != np.ndarray else j
+                    for j in i]
+                   for i in ret_val]
+        ret_val = np.array(ret_val)
+        ret_shape = ret_val.shape
+        if len(ret_shape) < 3:
+            ret_val = np.expand_dims(ret_val, 0)
+        return ret_val
 
     @staticmethod
     def r_multiply_by_vec(a_arr: np.ndarray, b_mat: np.ndarray, use_sparse_matrix: bool = True) -> np.ndarray:
-- 
2.43.0


From 3c2abd0c8ee026d989ba5240b39875821c0bc69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:57 +0000
Subject: [PATCH 48/67] fix: make_pos_definite_or_nan of slices with NaNs

---
 products/ellipy/gras/gen/gen.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 51813f6..c093df9 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -335,8 +335,7 @@ class SquareMatVector(MatVector):
     @staticmethod
     def make_pos_definite_or_nan(data_arr: np.ndarray) -> np.ndarray:
         if data_arr.ndim == 2:
-            s_min = min(np.linalg.eigvalsh(data_arr))
-            if s_min < 0.:
+            if np.isnan(data_arr).any() or min(np.linalg.eigvalsh(data_arr)) < 0.:
                 res_data_arr = np.full(data_arr.shape, np.nan)
             else:
                 res_data_arr = np.copy(data_arr)
@@ -344,7 +343,7 @@ class SquareMatVector(MatVector):
             size_vec = data_arr.shape
             res_data_arr = np.zeros(size_vec)
             for t in range(size_vec[2]):
-                if min(np.linalg.eigvalsh(data_arr[:, :, t])) < 0.:
+                if np.isnan(data_arr[:, :, t]).any() or min(np.linalg.eigvalsh(data_arr[:, :, t])) < 0.:
                     res_data_arr[:, :, t] = np.nan
                 else:
                     res_data_arr[:, :, t] = data_arr[:, :, t]
-- 
2.43.0


From 8c95c460ef53ebd46573609e2656fb1c232a272e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 49/67] fix: comparison of boolean, unsigned, short and complex
 numbers

---
 products/ellipy/gen/common/common.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gen/common/common.py b/products/ellipy/gen/common/common.py
index fe0e358..0165839 100644
--- a/products/ellipy/gen/common/common.py
+++ b/products/ellipy/gen/common/common.py
@@ -141,9 +141,10 @@ def abs_rel_compare(left_arr: np.ndarray, right_arr: np.ndarray,
 
     if is_equal:
         isn_finite_mat = ~np.isfinite(left_arr)
+        # booleans, unsigned and short numbers cannot be subtracted as they are
+        left_arr = np.array(left_arr, dtype=np.result_type(left_arr.dtype, np.int64), copy=True)
+        right_arr = np.array(right_arr, dtype=np.result_type(right_arr.dtype, np.int64), copy=True)
         if np.any(isn_finite_mat.flatten()):
-            left_arr = np.array(left_arr, dtype=np.float64, copy=True)
-            right_arr = np.array(right_arr, dtype=np.float64, copy=True)
             left_arr[isn_finite_mat] = 0.
             right_arr[isn_finite_mat] = 0.
 
-- 
2.43.0


From 9b632542887a4f3803b708296c8eaf5f1d6c0be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 50/67] fix: comparison of empty arrays of dictionaries

---
 products/ellipy/gen/dict/dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index 5682870..c288377 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -158,7 +158,7 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
         return is_out_eq_list, out_report_str_list
 
     is_eq_list, report_str_list = dict_compare_1d_list(
-        list(dict_x_arr.flatten()), list(dict_y_arr.flatten()), abs_tol, rel_tol)
+        list(dict_x_arr.flatten()), list(dict_y_arr.flatten()), abs_tol, rel_tol) if dict_x_arr.size > 0 else ([], [])
     n_reports = len(report_str_list)
     if n_reports > 0:
         report_str = '\n'.join(report_str_list)
-- 
2.43.0


From dc51478a122c6b26a3683231874fb63fc1481547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 51/67] fix: comparison of lists and nonnumeric arrays of
 different sizes

---
 products/ellipy/gen/dict/dict.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index c288377..f312e5d 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -114,6 +114,13 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
                         if not is_comp_eq:
                             return False, comp_report_str
                     else:
+                        x_shape_vec = x.shape if x_type == np.ndarray else (len(x),)
+                        y_shape_vec = y.shape if x_type == np.ndarray else (len(y),)
+                        if x_shape_vec != y_shape_vec:
+                            comp_report_str = 'Different sizes (left: {}, right: {})'.format(x_shape_vec, y_shape_vec)
+                            return False, comp_report_str
+                        if len(x_shape_vec) == 0:
+                            x, y = x.flatten(), y.flatten()
                         n_comp_elems = len(x)
                         if n_comp_elems == 0:
                             return True, ''
-- 
2.43.0


From e09b943e8f9c4074f6f271778a028f5a951e44da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 52/67] fix: comparison of lists of arrays

---
 products/ellipy/gen/dict/dict.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index f312e5d..a48a6e5 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -68,15 +68,16 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
             def comp_fun(x, y, comp_abs_tol: float, comp_rel_tol: float) -> Tuple[bool, str]:
                 comp_report_str = ''
 
-                x_dtype = np.asarray(x).dtype.kind
-                y_dtype = np.asarray(y).dtype.kind
                 x_type = type(x)
+                # lists are compared by their elements as they can hold arrays of different sizes
+                x_dtype = np.asarray(x).dtype.kind if x_type != list else 'O'
+                y_dtype = np.asarray(y).dtype.kind if type(y) != list else 'O'
 
                 if x_type != type(y) or x_dtype != y_dtype:
                     comp_report_str = 'Different types'
                     return False, comp_report_str
 
-                if is_numeric(x) and x_type != list:
+                if x_type != list and is_numeric(x):
                     x_arr = np.array(x)
                     y_arr = np.array(y)
                     x_shape_vec = x_arr.shape
-- 
2.43.0


From f4f667ccdcea16a505e09263b254b83ead0d6c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 53/67] fix: comparison of arrays holding dictionaries and
 other values

---
 products/ellipy/gen/dict/dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index a48a6e5..1821b20 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -109,7 +109,7 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
                 elif x_type in [dict, list, np.ndarray]:
                     is_dict = x_type == dict
                     if not is_dict and x_type == np.ndarray and x.size > 0:
-                        is_dict = type(x.flatten()[0]) == dict
+                        is_dict = all(type(elem) == dict for elem in list(x.flatten()) + list(y.flatten()))
                     if is_dict:
                         is_comp_eq, comp_report_str = dict_compare(x, y, comp_abs_tol, comp_rel_tol)
                         if not is_comp_eq:
-- 
2.43.0


From baa216d0a2448ddc1c2b0ace10da0913409927c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 54/67] fix: default settings pass their own validation

---
 products/ellipy/elltool/conf/properties/Properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/conf/properties/Properties.py b/products/ellipy/elltool/conf/properties/Properties.py
index c4f0eed..b0d64df 100644
--- a/products/ellipy/elltool/conf/properties/Properties.py
+++ b/products/ellipy/elltool/conf/properties/Properties.py
@@ -45,7 +45,7 @@ class Properties(ParsePropMixin):
             'rel_tol': 1e-05,
             'n_time_grid_points': 250,
             'ode_solver_name': 'ode45',
-            'is_ode_norm_control': 'on',
+            'is_ode_norm_control': True,
             'is_enabled_ode_solver_options': False,
             'n_plot_2d_points': 200,
             'n_plot_3d_points': 200,
-- 
2.43.0


From 5f5ea37e8410918fcf6911ce7aa7fa3935e896bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 55/67] fix: messages of a logger requested repeatedly are
 emitted once

---
 products/ellipy/gen/logging/logging.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/products/ellipy/gen/logging/logging.py b/products/ellipy/gen/logging/logging.py
index 04f00b0..1dcc372 100644
--- a/products/ellipy/gen/logging/logging.py
+++ b/products/ellipy/gen/logging/logging.py
@@ -5,10 +5,12 @@ from ellipy.gen.common.common import get_caller_name
 def get_logger():
     caller_name = get_caller_name(2, 'full')
     logger = logging.getLogger(caller_name)
-    handler = logging.StreamHandler()
-    formatter = logging.Formatter(
-        '%(asctime)s [%(name)-12s] %(levelname)-8s %(message)s')
-    handler.setFormatter(formatter)
-    logger.addHandler(handler)
+    # a logger gets its handler only once, otherwise its messages are repeated
+    if not logger.hasHandlers():
+        handler = logging.StreamHandler()
+        formatter = logging.Formatter(
+            '%(asctime)s [%(name)-12s] %(levelname)-8s %(message)s')
+        handler.setFormatter(formatter)
+        logger.addHandler(handler)
     logger.setLevel(logging.DEBUG)
     return logger
-- 
2.43.0


From e574664cfb126fc5e9c5b27951c0b45e2ab6f37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 56/67] fix: messages of the external approximation of a sum
 name it

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 03002bf..c3d8bf2 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -476,7 +476,7 @@ class Ellipsoid(AEllipsoid):
                 if sing_ell.is_degenerate([sing_ell]).flat[0]:
                     if Properties.get_is_verbose():
                         logger = get_logger()
-                        logger.info('MINKSUM_IA: Warning! Degenerate ellipsoid.')
+                        logger.info('MINKSUM_EA: Warning! Degenerate ellipsoid.')
                         logger.info('           Regularizing...')
                     sh_mat = cls._regularize(sh_mat, abs_tol)
                 fst_coef = np.sqrt(quad_mat(sh_mat, dir_vec))
-- 
2.43.0


From d7fa9140cc0fe92294fc783d7cba6ad3436b24a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 57/67] fix: eval_func keeps fractional results for integer
 data

---
 products/ellipy/gras/gen/gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index c093df9..5951326 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -162,7 +162,7 @@ class MatVector:
                 res_array.append(f(data_arr[:, :, i]))
         else:
             if keep_size:
-                res_array = np.copy(data_arr)
+                res_array = np.zeros(data_arr.shape, dtype=np.result_type(data_arr, np.float64))
                 for i in range(data_size):
                     res_array[:, :, i] = f(data_arr[:, :, i])
             else:
-- 
2.43.0


From ca134bf6adf5d50abacb4d6db0c1db66bd67c5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 58/67] fix: projection in place projects an object occurring
 in the array several times once

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index 93a9726..fee2370 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -64,7 +64,8 @@ class AEllipsoid(ABasicEllipsoid, ABC):
             norm_mat = ml.repmat(np.sqrt(norm_sq_vec.T), n_dim, 1)
             ort_basis_mat = basis_mat / norm_mat
             # compute projection
-            [cls._projection_single_internal(x, ort_basis_mat) for x in ell_arr.flatten()]
+            # each object is projected once even when it occurs in the array several times
+            [cls._projection_single_internal(x, ort_basis_mat) for x in {id(x): x for x in ell_arr.flatten()}.values()]
         return ell_arr
 
     def get_center_vec(self):
-- 
2.43.0


From 584f7472530471a9521d51045e218077cf8a184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:21 +0000
Subject: [PATCH 59/67] fix: grid by factor of 2-dimensional ellipsoids is
 returned together with its faces

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index c3d8bf2..a91bd2f 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -198,7 +198,7 @@ class Ellipsoid(AEllipsoid):
             n_plot_points = self._n_plot_3d_points
             if not (factor == 1):
                 n_plot_points = np.floor(n_plot_points * factor)
-        v_grid_mat, f_grid_mat = sphere_tri_ext(n_dim, n_plot_points)
+        v_grid_mat, f_grid_mat = sphere_tri_ext(n_dim, n_plot_points, True)
         v_grid_mat[v_grid_mat == 0] = __EPS
 
         return v_grid_mat, f_grid_mat
-- 
2.43.0


From 6145df7c6cd5fb1ee241472004ff89b5d8d58176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:21 +0000
Subject: [PATCH 60/67] fix: points of the difference of ellipsoids are found
 in bad directions as well

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index a91bd2f..b7925d0 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -156,7 +156,9 @@ class Ellipsoid(AEllipsoid):
             else:
                 _, diff_bnd_mat = rho_mat((1 - p_univ_vec[ind]) * sec_ell.get_shape_mat()
                                           + (1 - 1 / p_univ_vec[ind]) * first_ell.get_shape_mat(),
-                                          l_mat[:, ind], abs_tol, first_ell.get_center_vec() - sec_ell.get_center_vec())
+                                          l_mat[:, [ind]], abs_tol,
+                                          np.expand_dims(first_ell.get_center_vec() - sec_ell.get_center_vec(), 1))
+                diff_bnd_mat = diff_bnd_mat[:, 0]
             if np.all(np.abs(diff_bnd_mat - first_ell.get_center_vec() +
                              sec_ell.get_center_vec()) < __ABS_TOL):
                 diff_bnd_mat = first_ell.get_center_vec() - sec_ell.get_center_vec()
-- 
2.43.0


From ef0899ce072ad6f86f9c51a61d2c990192be291b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:53 +0000
Subject: [PATCH 61/67] fix: equality of hyperplanes passing near the origin

---
 .../elltool/core/hyperplane/Hyperplane.py     | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index a1b961c..72cafce 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -247,6 +247,35 @@ class Hyperplane(ABasicEllipsoid):
         is_ne, _ = self.ne([self], [other])
         return np.array(is_ne).flatten()[0]
 
+    @classmethod
+    def _is_equal_internal(cls, ell_first_arr: Union[Iterable, np.ndarray],
+                           ell_sec_arr: Union[Iterable, np.ndarray],
+                           is_prop_included: bool) -> Tuple[np.ndarray, str]:
+        is_eq_arr, report_str = super()._is_equal_internal(ell_first_arr, ell_sec_arr, is_prop_included)
+        if np.all(is_eq_arr):
+            return is_eq_arr, report_str
+        # the normal of a hyperplane in to_dict is directed according to the sign of the shift, so for hyperplanes
+        # passing near the origin the directions of the normals have to be matched before the comparison
+        first_hyp_arr = np.array(ell_first_arr)
+        sec_hyp_arr = np.array(ell_sec_arr)
+        abs_tol = min(cls.get_abs_tol(first_hyp_arr)[1], cls.get_abs_tol(sec_hyp_arr)[1])
+
+        def match_normal(first_hyp, sec_hyp):
+            first_dict, sec_dict = cls.to_dict([first_hyp, sec_hyp])[0]
+            norm_vec = sec_dict['normal_vec']
+            if 0 < norm_vec.size == first_dict['normal_vec'].size and norm_vec @ first_dict['normal_vec'] < 0 and \
+                    first_dict['shift'] + sec_dict['shift'] <= abs_tol:
+                return cls(-norm_vec, sec_dict['shift'], abs_tol=sec_hyp._abs_tol, rel_tol=sec_hyp._rel_tol)
+            return sec_hyp
+
+        if first_hyp_arr.size == 1:
+            first_hyp_arr = np.full(is_eq_arr.shape, first_hyp_arr.flat[0])
+        elif sec_hyp_arr.size == 1:
+            sec_hyp_arr = np.full(is_eq_arr.shape, sec_hyp_arr.flat[0])
+        sec_hyp_arr = np.reshape(np.array([match_normal(x, y) for x, y in
+                                           zip(first_hyp_arr.flatten(), sec_hyp_arr.flatten())]), is_eq_arr.shape)
+        return super()._is_equal_internal(first_hyp_arr, sec_hyp_arr, is_prop_included)
+
     @classmethod
     def to_dict(cls, hyp_arr: Union[Iterable, np.ndarray],
                 is_prop_included: bool = False, abs_tol: float = None) -> \
-- 
2.43.0


From 989ce53646b1d6d7724140b0b01b0d3f3bfca695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:15 +0000
Subject: [PATCH 62/67] fix: equality of a single object and objects in another
 layout

---
 .../ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index 506bb2b..2bd51e9 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -192,9 +192,9 @@ class ABasicEllipsoid(ABC):
         ell2_dict_arr = np.reshape(np.array(ell2_dict_list), sec_shape_vec)
         if not (isn_first_scalar and isn_sec_scalar):
             if isn_first_scalar:
-                ell2_dict_arr = np.tile(ell2_dict_arr, list(first_shape_vec))
+                ell2_dict_arr = np.full(first_shape_vec, ell2_dict_arr.flat[0])
             else:
-                ell1_dict_arr = np.tile(ell1_dict_arr, list(sec_shape_vec))
+                ell1_dict_arr = np.full(sec_shape_vec, ell1_dict_arr.flat[0])
         is_eq_arr, report_str = dict_compare_vec(ell1_dict_arr, ell2_dict_arr, abs_tol, rel_tol)
         if isn_first_scalar:
             is_eq_arr = np.reshape(is_eq_arr, first_shape_vec)
-- 
2.43.0


From 0c86d9ad6c83e6ba24e36521f00027cf274a31a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:15 +0000
Subject: [PATCH 63/67] fix: spaces around the brackets of a matrix expression

---
 products/ellipy/gras/gen/gen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 5951326..7c79766 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -1,4 +1,5 @@
 from typing import Tuple, Callable, Union, List
+import re
 import numpy as np
 import scipy.sparse as sp
 from ellipy.gen.common.common import throw_error, is_numeric
@@ -175,7 +176,8 @@ class MatVector:
     def from_expression(expr: str, t_vec: Union[int, float, np.ndarray]) -> np.ndarray:
         exec("from numpy import *")
         # string check
-        exp_str = expr
+        # spaces around the brackets of rows do not matter
+        exp_str = re.sub(r'(?<=[\[\]])\s+(?=[\[\]])', '', expr.strip())
         if len(exp_str) < 1:
             throw_error('wrongInput', 'expr must be a non-empty string!')
         if exp_str[0] != "[":
-- 
2.43.0


From cbfc345a6a728f9ad1a816d4ea777a391a6348a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:08 +0000
Subject: [PATCH 64/67] fix: sparse products with a constant factor of one
 slice

---
 products/ellipy/gras/gen/gen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 7c79766..12eb2b1 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -225,7 +225,9 @@ class MatVector:
             int_arr = inp_arr
             inp_shape = inp_arr.shape
             if inp_arr.ndim < 3:
-                int_arr = np.tile(np.expand_dims(int_arr, 2), (1, 1, n_time_points))
+                int_arr = np.expand_dims(int_arr, 2)
+            if int_arr.shape[2] == 1:
+                int_arr = np.tile(int_arr, (1, 1, n_time_points))
             n_rows = inp_shape[0]
             n_cols = inp_shape[1]
             i_mat = np.tile(np.arange(n_rows * n_time_points), (n_cols, 1))
-- 
2.43.0


From cf705f8119ca5e8cadb7eefe30e76bddf6fcf487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:08 +0000
Subject: [PATCH 65/67] fix: a scalar third factor scales the product

---
 products/ellipy/gras/gen/gen.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 12eb2b1..e9f0a9a 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -263,14 +263,16 @@ class MatVector:
             is_binary = True
             n_c_rows = None
             n_c_cols = None
+            is_c_scalar = False
         else:
             c_shape = c_arr.shape
             n_c_rows = c_shape[0]
             n_c_cols = c_shape[1]
             is_binary = False
+            is_c_scalar = (n_c_cols == 1) and (n_c_rows == 1)
         is_a_scalar = (n_a_cols == 1) and (n_a_rows == 1)
         is_b_scalar = (n_b_cols == 1) and (n_b_rows == 1)
-        if is_a_scalar or is_b_scalar:
+        if is_a_scalar or is_b_scalar or is_c_scalar:
             use_sparse = False
         if use_sparse:
             a_mat = np.reshape(a_arr, (n_a_rows, n_a_cols * n_time_points), order='F')
@@ -295,6 +297,8 @@ class MatVector:
                 else:
                     throw_error('wrongInput', 'Incorrect size of b_arr')
             else:
+                if is_c_scalar:
+                    n_c_cols = n_a_cols if is_b_scalar else n_b_cols
                 if is_a_scalar and is_b_scalar:
                     res_mat = np.zeros((n_c_rows, n_c_cols, n_time_points), dtype=np.float64)
                 elif is_a_scalar:
-- 
2.43.0


From c416763853403de9fd51b6c5dd0c56a6a7c8af6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:08 +0000
Subject: [PATCH 66/67] fix: a plain matrix as the first factor is a single
 slice

---
 products/ellipy/gras/gen/gen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index e9f0a9a..3702cdf 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -204,6 +204,8 @@ class MatVector:
     def r_multiply_by_vec(a_arr: np.ndarray, b_mat: np.ndarray, use_sparse_matrix: bool = True) -> np.ndarray:
         if len(b_mat.shape) != 2:
             throw_error('wrongInput', 'b_mat is expected to be 2-dimensional array')
+        if a_arr.ndim < 3:
+            a_arr = np.expand_dims(a_arr, 2)
         n_rows = a_arr.shape[0]
         n_cols = a_arr.shape[1]
         n_time_points = a_arr.shape[2]
@@ -250,6 +252,8 @@ class MatVector:
             return left_mat @ right_mat
 
         use_sparse = use_sparse_matrix
+        if a_arr.ndim < 3:
+            a_arr = np.expand_dims(a_arr, 2)
         a_shape = a_arr.shape
         n_a_rows = a_shape[0]
         n_a_cols = a_shape[1]
-- 
2.43.0


From d649dd7c65b2501c48daebcb0e96472a9535679a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:08 +0000
Subject: [PATCH 67/67] fix: small numbers became zero in var_replace

---
 products/ellipy/gras/sym/sym.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/sym/sym.py b/products/ellipy/gras/sym/sym.py
index 57fdc46..01bf03c 100644
--- a/products/ellipy/gras/sym/sym.py
+++ b/products/ellipy/gras/sym/sym.py
@@ -33,7 +33,9 @@ def var_replace(m_mat: np.ndarray, from_var_name: str, to_var_name: str) -> np.n
         __PRECISION = 15
         if not isinstance(elem, str):
             if not isinstance(elem, Integral):
-                elem = np.format_float_positional(elem, precision=__PRECISION, trim='.')
+                # small numbers keep as many digits as the other ones
+                elem = np.format_float_positional(elem, precision=__PRECISION, trim='.',
+                                                  fractional=bool(np.abs(elem) >= 1.))
             else:
                 elem = str(elem)
         return elem
-- 
2.43.0

