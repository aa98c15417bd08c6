From 97cf5665a60b0010624a15abda40f3d59af89262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 01/26] fix: complex projective coordinates integrate the array
 they are given (small data sets got a frozen zero array)

---
 dreimac/complexprojectivecoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/complexprojectivecoords.py b/dreimac/complexprojectivecoords.py
index 936fa83..5a30a78 100644
--- a/dreimac/complexprojectivecoords.py
+++ b/dreimac/complexprojectivecoords.py
@@ -298,7 +298,7 @@ def _sparse_integrate(
                 class_map[b, i] += nu[i, ball_indx[b]]
                 for t in range(n_landmarks):
                     class_map[b, i] += varphi[t, b] * eta[i, ball_indx[b], t]
-        return np.exp(2 * np.pi * 1j * class_map0) * np.sqrt(varphi.T)
+        return np.exp(2 * np.pi * 1j * class_map) * np.sqrt(varphi.T)
 
     return _assemble(
         class_map0,
-- 
2.43.0


From a2437a2f1cfc3294a8f7cf25b12ae4f4ea0956f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 02/26] fix: lens coordinates no longer use np.complex_,
 removed in numpy 2

---
 dreimac/lenscoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/lenscoords.py b/dreimac/lenscoords.py
index c8a3736..461863e 100644
--- a/dreimac/lenscoords.py
+++ b/dreimac/lenscoords.py
@@ -93,7 +93,7 @@ class LensCoords(EMCoords):
 
         root_of_unity = np.exp(2 * np.pi * 1j / self._prime)
 
-        cocycle_matrix = np.ones( (n_landmarks, n_landmarks), np.complex_ )
+        cocycle_matrix = np.ones( (n_landmarks, n_landmarks), np.complex128 )
         cocycle_matrix[cocycle[:, 0], cocycle[:, 1]] = root_of_unity ** cocycle[:, 2]
         cocycle_matrix[cocycle[:, 1], cocycle[:, 0]] = (1 / root_of_unity) ** cocycle[:, 2]
 
-- 
2.43.0


From dea3983fc608b8861a74e7c07e03577fe24ebd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 03/26] fix: complex projective coordinates import
 scipy.optimize before using it

---
 dreimac/complexprojectivecoords.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dreimac/complexprojectivecoords.py b/dreimac/complexprojectivecoords.py
index 5a30a78..577683b 100644
--- a/dreimac/complexprojectivecoords.py
+++ b/dreimac/complexprojectivecoords.py
@@ -1,4 +1,5 @@
 import numpy as np
+import scipy
 from numba import jit
 import scipy.sparse as sparse
 from scipy.sparse.linalg import lsqr
-- 
2.43.0


From efa86800a2fffca3af918729abc3413e0290fa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 04/26] fix: partition of unity weights are floats also for
 integer distance matrices

---
 dreimac/emcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/emcoords.py b/dreimac/emcoords.py
index ea480a7..654c5a1 100644
--- a/dreimac/emcoords.py
+++ b/dreimac/emcoords.py
@@ -171,7 +171,7 @@ class EMCoords(object):
         """
         dist_land_data = self._dist_land_data
         U = dist_land_data < r_cover
-        phi = np.zeros_like(dist_land_data)
+        phi = np.zeros_like(dist_land_data, dtype=float)
         phi[U] = partunity_fn(dist_land_data[U], r_cover)
         # Compute the partition of unity
         # varphi_j(b) = phi_j(b)/(phi_1(b) + ... + phi_{n_landmarks}(b))
-- 
2.43.0


From e28e39a1d7ae8c2be453e6d70d94b22fc84d4757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 05/26] fix: toroidal coordinates can correct more than one
 cocycle

---
 dreimac/toroidalcoords.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index 77e7438..da27edb 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -136,9 +136,10 @@ class ToroidalCoords(EMCoords):
                 if is_cocycle:
                     fixed_cocycles.append(cocycle_as_vector)
                 else:
-                    delta1 = delta1 or CohomologyUtils.make_delta1_compact(
-                        dist_land_land, rips_threshold, self._cns_lookup_table
-                    )
+                    if delta1 is None:
+                        delta1 = CohomologyUtils.make_delta1_compact(
+                            dist_land_land, rips_threshold, self._cns_lookup_table
+                        )
 
                     d1cocycle = delta1 @ cocycle_as_vector.T
 
-- 
2.43.0


From f8710b55f109e9e09b3d1da573b1af943659321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 06/26] fix: moving_dot uses its dim argument

---
 dreimac/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index f89a935..1de6b5f 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -874,7 +874,6 @@ class GeometryExamples:
             kernel = np.outer(gauss_x, gauss_y)
             return kernel
 
-        dim = 10
         P = np.zeros((sqrt_num_images**2, dim * dim))
         bound = 15
         xs = bound * np.power(np.linspace(-1, 1, sqrt_num_images), 3)
-- 
2.43.0


From 6e92e9c88966f53c9da18d4bda2b1e7448a85d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 07/26] fix: rotmat returns a rotation for nearly coincident
 and for antipodal vectors

---
 dreimac/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 1de6b5f..023aa4c 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1550,14 +1550,19 @@ class ProjectiveMapUtils:
         b = b / np.sqrt(np.sum(b**2))
 
         c = a - np.sum(b * a) * b
-        # If a numerically coincides with b, don't rotate at all
         if np.sqrt(np.sum(c**2)) < 1e-15:
-            return np.eye(d)
+            # If a numerically coincides with b, don't rotate at all
+            if np.sum(b * a) > 0 or d == 1:
+                return np.eye(d)
+            # If a is numerically antipodal to b, rotate by half a turn in any plane containing b
+            c = np.zeros(d)
+            c[np.argmin(np.abs(b))] = 1
+            c = c - np.sum(b * c) * b
 
         # Otherwise, compute rotation matrix
         c = c / np.sqrt(np.sum(c**2))
         lam = np.sum(b * a)
-        beta = np.sqrt(1 - np.abs(lam) ** 2)
+        beta = np.sqrt(max(1 - np.abs(lam) ** 2, 0))
         rot = (
             np.eye(d)
             - (1 - lam) * (c[:, None].dot(c[None, :]))
-- 
2.43.0


From e8c4ac148c79ed0fd00f6584a6d7fda1bb1eb46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 08/26] fix: lens_3D_to_disk_3D does not return nan when the
 second coordinate is a unit up to rounding

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 023aa4c..cf96224 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1614,7 +1614,7 @@ class LensMapUtils:
             x, y, z = (
                 r * np.cos(phi),
                 r * np.sin(phi),
-                (q / np.pi) * (theta - np.pi / q) * np.sqrt(1 - r**2),
+                (q / np.pi) * (theta - np.pi / q) * np.sqrt(np.maximum(1 - r**2, 0)),
             )
             return [x, y, z]
 
-- 
2.43.0


From f6a3b1c2099a47c283c0ae0bedb1dfbd1d2bca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 09/26] fix: circle_to_3dnorthpole does not modify its argument

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index cf96224..feab6fa 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1452,7 +1452,7 @@ class ProjectiveMapUtils:
         """
         magSqr = np.sum(x**2)
         if magSqr > 1:
-            x /= np.sqrt(magSqr)
+            x = x / np.sqrt(magSqr)
             magSqr = 1
         u = np.zeros(3)
         u[0:2] = x
-- 
2.43.0


From 1be855c51eae41927fd6a23ef966e40a55676b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 10/26] fix: lift_to_integer_cocycle does not modify its
 argument

---
 dreimac/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index feab6fa..766da25 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -236,16 +236,13 @@ class CohomologyUtils:
         cocycle : ndarray(K, n, dtype=int)
             Cocycle to be lifted to integer coefficients.
 
-        Note
-        ----
-        This routine modifies the input cocycle.
-
         Returns
         -------
         cocycle : ndarray(K, n, dtype=int)
             Cocycle with same support as input cocycle and integer coefficients.
 
         """
+        cocycle = cocycle.copy()
         cocycle[cocycle[:, -1] > (prime - 1) / 2, -1] -= prime
         return cocycle
 
-- 
2.43.0


From d18c2405d8399bc6e735b29153d113234d450c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 11/26] fix: Gram-Schmidt projects onto the orthogonalised
 vectors

---
 dreimac/toroidalcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index da27edb..a0d92d9 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -391,7 +391,7 @@ def _gram_schmidt(B):
     for i in range(1, n):
         Ai = B[:, i]
         for j in range(0, i):
-            Aj = B[:, j]
+            Aj = A[:, j]
             # t = np.dot(B[i],B[j])
             Ai = Ai - proj(Aj, Ai)
         A[:, i] = Ai
-- 
2.43.0


From 1bd2200b96f070738c60c8ffe1a77a40f8be0f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 12/26] fix: reported Gram matrix of the reduced basis is that
 of its columns

---
 dreimac/toroidalcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index a0d92d9..f62eaa1 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -215,7 +215,7 @@ class ToroidalCoords(EMCoords):
             ) = _reduce_circular_coordinates(circ_coords, gram_mat)
 
             self._original_gram_matrix = gram_mat
-            self._gram_matrix = decorrelated_vectors @ decorrelated_vectors.T
+            self._gram_matrix = decorrelated_vectors.T @ decorrelated_vectors
             self._change_basis = change_basis
 
         return circ_coords
-- 
2.43.0


From 59b3222e93176de0c565fe4e75a9b32c49737ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 13/26] fix: moore_space_distance_matrix returns a symmetric
 matrix

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 766da25..b4c420e 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1223,7 +1223,7 @@ class GeometryExamples:
                     )
 
         _fill_dist_mat(X, dist_mat, R, prime)
-        return dist_mat, X
+        return np.minimum(dist_mat, dist_mat.T), X
 
 
 class CircleMapUtils:
-- 
2.43.0


From f0ed602e638c52debf17a077be9df4099066d462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 14/26] fix: one-by-one reduction measures the discarded
 complex direction with its conjugate and never takes arccos above one

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index b4c420e..02ddb22 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -779,7 +779,7 @@ class EquivariantPCA:
                 except:
                     U = np.eye(X.shape[0])
                 variance[-i - 1] = np.mean(
-                    (np.pi / 2 - np.real(np.arccos(np.abs(U[:, -1][None, :].dot(X)))))
+                    (np.pi / 2 - np.real(np.arccos(np.minimum(np.abs(np.conjugate(U[:, -1])[None, :].dot(X)), 1))))
                     ** 2
                 )
                 Y = (np.conjugate(U).T).dot(X)
-- 
2.43.0


From c5d8f5bf2df681b94ee21ce82d4d8124da393f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 15/26] fix: simplex numbering table is sized by the actual
 number of landmarks

---
 dreimac/complexprojectivecoords.py | 2 +-
 dreimac/toroidalcoords.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dreimac/complexprojectivecoords.py b/dreimac/complexprojectivecoords.py
index 577683b..92ec072 100644
--- a/dreimac/complexprojectivecoords.py
+++ b/dreimac/complexprojectivecoords.py
@@ -40,7 +40,7 @@ class ComplexProjectiveCoords(EMCoords):
         EMCoords.__init__(self, X, n_landmarks, distance_matrix, prime, maxdim, verbose)
         simplicial_complex_dimension = 3
         self._cns_lookup_table = combinatorial_number_system_table(
-            n_landmarks, simplicial_complex_dimension
+            self._n_landmarks, simplicial_complex_dimension
         )
 
     def get_coordinates(
diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index f62eaa1..ba21ea5 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -38,7 +38,7 @@ class ToroidalCoords(EMCoords):
         EMCoords.__init__(self, X, n_landmarks, distance_matrix, prime, maxdim, verbose)
         simplicial_complex_dimension = 2
         self._cns_lookup_table = combinatorial_number_system_table(
-            n_landmarks, simplicial_complex_dimension
+            self._n_landmarks, simplicial_complex_dimension
         )
 
     def get_coordinates(
-- 
2.43.0


From 8231629fb8c675ef76fe3aee204a9034fd5c5288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 16/26] fix: falsy values of distance_matrix are treated alike

---
 dreimac/emcoords.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dreimac/emcoords.py b/dreimac/emcoords.py
index 654c5a1..015893b 100644
--- a/dreimac/emcoords.py
+++ b/dreimac/emcoords.py
@@ -43,7 +43,7 @@ class EMCoords(object):
         if verbose:
             tic = time.time()
             print("Doing TDA...")
-        if distance_matrix is False:
+        if not distance_matrix:
             ripser_metric_input = X 
         elif X.shape[0] == X.shape[1]:
             ripser_metric_input = X 
@@ -66,7 +66,7 @@ class EMCoords(object):
         self._idx_land = res["idx_perm"]
         self._n_landmarks = len(self._idx_land)
         #self.dist_land_data_ = res["dperm2all"]
-        if distance_matrix is False:
+        if not distance_matrix:
             self._dist_land_data = res["dperm2all"]
         elif X.shape[0] == X.shape[1]:
             self._dist_land_data = res["dperm2all"]
-- 
2.43.0


From 01ef05022762a6226c34d7052435f77a7834bf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 17/26] fix: toroidal coordinates of a single class are an
 array, as documented

---
 dreimac/toroidalcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index ba21ea5..d776847 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -218,7 +218,7 @@ class ToroidalCoords(EMCoords):
             self._gram_matrix = decorrelated_vectors.T @ decorrelated_vectors
             self._change_basis = change_basis
 
-        return circ_coords
+        return np.array(circ_coords)
 
 
 def _integrate_harmonic_representative(cocycle, boundary_matrix, sqrt_inner_product):
-- 
2.43.0


From bc1bf66dbb88a75aaa88c3e8870247464bd7e94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 18/26] fix: coverage is the largest distance from a data point
 to the landmarks

---
 dreimac/emcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/emcoords.py b/dreimac/emcoords.py
index 015893b..7ee93c6 100644
--- a/dreimac/emcoords.py
+++ b/dreimac/emcoords.py
@@ -72,7 +72,7 @@ class EMCoords(object):
             self._dist_land_data = res["dperm2all"]
         else:
             self._dist_land_data = X[self._idx_land,:]
-        self._coverage = np.max(np.min(self._dist_land_data, 1))
+        self._coverage = np.max(np.min(self._dist_land_data, 0))
         self._dist_land_land = self._dist_land_data[:, self._idx_land]
         self._cocycles = res["cocycles"]
         # Sort persistence diagrams in descending order of persistence
-- 
2.43.0


From 4c8c37657a43f666b9d15d49629f5306a3574b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 19/26] fix: one-by-one reduction returns coordinates for every
 target dimension

---
 dreimac/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 02ddb22..059e89a 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -768,10 +768,8 @@ class EquivariantPCA:
         elif mode == "one-by-one":
             tic = time.time()
             # Projective dimensionality reduction : Main Loop
-            XRet = None
+            XRet = X
             for i in range(n_dim - 1):
-                if i == n_dim - proj_dim - 1:
-                    XRet = X
                 try:
                     _, U = np.linalg.eigh(X.dot(np.conjugate(X).T))
                     U = np.fliplr(U)
@@ -787,6 +785,8 @@ class EquivariantPCA:
                 Y = Y[0:-1, :]
                 # X = Y / np.sqrt(1 - np.abs(y) ** 2)[None, :]
                 X = Y / np.linalg.norm(Y, axis=0)[None, :]
+                if X.shape[0] >= total_dims_to_keep:
+                    XRet = X
             if verbose:
                 print("Elapsed time ppca: %.3g" % (time.time() - tic))
 
-- 
2.43.0


From 7ca5d8039f5dd948e2b1132b317a6c5d4f08fc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 20/26] fix: points not covered by any landmark do not turn the
 coordinates of all points into nan

---
 dreimac/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 059e89a..305f9ed 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -739,8 +739,9 @@ class EquivariantPCA:
         n_dim = class_map.shape[1]
 
         def _one_step_linear_reduction(X, dims_to_keep):
+            finite = np.isfinite(X).all(axis=0)
             try:
-                _, U = np.linalg.eigh(X.dot(np.conjugate(X).T))
+                _, U = np.linalg.eigh(X[:, finite].dot(np.conjugate(X[:, finite]).T))
                 U = np.fliplr(U)
             except:
                 U = np.eye(X.shape[0])
@@ -770,14 +771,17 @@ class EquivariantPCA:
             # Projective dimensionality reduction : Main Loop
             XRet = X
             for i in range(n_dim - 1):
+                finite = np.isfinite(X).all(axis=0)
                 try:
-                    _, U = np.linalg.eigh(X.dot(np.conjugate(X).T))
+                    _, U = np.linalg.eigh(
+                        X[:, finite].dot(np.conjugate(X[:, finite]).T)
+                    )
                     U = np.fliplr(U)
                     # U, _, _ = np.linalg.svd(X)
                 except:
                     U = np.eye(X.shape[0])
                 variance[-i - 1] = np.mean(
-                    (np.pi / 2 - np.real(np.arccos(np.minimum(np.abs(np.conjugate(U[:, -1])[None, :].dot(X)), 1))))
+                    (np.pi / 2 - np.real(np.arccos(np.minimum(np.abs(np.conjugate(U[:, -1])[None, :].dot(X[:, finite])), 1))))
                     ** 2
                 )
                 Y = (np.conjugate(U).T).dot(X)
-- 
2.43.0


From d1542971efd21602c45d2a1718ce2509ba6da636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:52 +0000
Subject: [PATCH 21/26] fix: documentation lists the parameters that exist
 (n_levelsets, rough_n_points, cocycle_idxs; no partunity_fn in constructors)

---
 dreimac/lenscoords.py       | 2 --
 dreimac/projectivecoords.py | 2 --
 dreimac/toroidalcoords.py   | 6 +++---
 dreimac/utils.py            | 4 ++--
 4 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/dreimac/lenscoords.py b/dreimac/lenscoords.py
index 461863e..0a9b5e4 100644
--- a/dreimac/lenscoords.py
+++ b/dreimac/lenscoords.py
@@ -21,8 +21,6 @@ class LensCoords(EMCoords):
     maxdim : int
         Maximum dimension of homology. Only dimension 1 is needed for lens coordinates,
         but it may be of interest to see other dimensions (e.g. for a torus)
-    partunity_fn: ndarray(n_landmarks, N) -> ndarray(n_landmarks, N)
-        A partition of unity function
 
     """
 
diff --git a/dreimac/projectivecoords.py b/dreimac/projectivecoords.py
index 52ffcb1..388a503 100644
--- a/dreimac/projectivecoords.py
+++ b/dreimac/projectivecoords.py
@@ -19,8 +19,6 @@ class ProjectiveCoords(EMCoords):
     maxdim : int
         Maximum dimension of homology. Only dimension 1 is needed for real projective coordinates,
         but it may be of interest to see other dimensions (e.g. for a torus)
-    partunity_fn: ndarray(n_landmarks, N) -> ndarray(n_landmarks, N)
-        A partition of unity function
 
     """
 
diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index d776847..5fcc5c7 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -56,9 +56,9 @@ class ToroidalCoords(EMCoords):
         ----------
         perc : float
             Percent coverage. Must be between 0 and 1.
-        cocycle_idx : integer
-            Integer representing the index of the persistent cohomology class
-            used to construct the Eilenberg-MacLane coordinate. Persistent cohomology
+        cocycle_idxs : list of integers
+            Each integer representing the index of a persistent cohomology class
+            used to construct the Eilenberg-MacLane coordinates. Persistent cohomology
             classes are ordered by persistence, from largest to smallest.
         partunity_fn : (dist_land_data, r_cover) -> phi
             A function from the distances of each landmark to a bump function
diff --git a/dreimac/utils.py b/dreimac/utils.py
index 305f9ed..fc0fbcc 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1177,7 +1177,7 @@ class GeometryExamples:
 
         Parameters
         ----------
-        rough_n_samples : int
+        rough_n_points : int
             The function returns a distance matrix with approximately n = rough_n_points * (pi/4) points.
 
         prime : int
@@ -1362,7 +1362,7 @@ class CircleMapUtils:
             A numpy array of numbers between 0 and 2pi representing
             points on the circle.
 
-        n_levelset: int, optional, default is 4
+        n_levelsets: int, optional, default is 4
             Number of levelsets to evenly cover the circle.
 
         smoothing: float, optional, default is 0.25
-- 
2.43.0


From 03e5ba171bb4405e39054707530835eb0d093ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:53 +0000
Subject: [PATCH 22/26] fix: lens projection rounds the sector number instead
 of truncating it

---
 dreimac/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index fc0fbcc..5163b1d 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1607,7 +1607,8 @@ class LensMapUtils:
             arg_z = np.mod(np.angle(p1), 2 * np.pi)
             theta = np.mod(arg_z, 2 * np.pi / q)
 
-            k = np.floor((arg_z - theta) / (2 * np.pi / q))
+            # arg_z - theta is a multiple of 2 * pi / q up to rounding
+            k = np.rint((arg_z - theta) / (2 * np.pi / q))
 
             phi = np.mod(np.angle(p2), 2 * np.pi) - 2 * k * np.pi / q
 
-- 
2.43.0


From 50f18f67b0dcc2e1c4db370870b79be23c658903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:31 +0000
Subject: [PATCH 23/26] fix: torus_3d documents the three coordinates it
 returns

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 5163b1d..5d3d5c1 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -934,7 +934,7 @@ class GeometryExamples:
 
         Returns
         -------
-        X: ndarray(n_samples, 4)
+        X: ndarray(n_samples, 3)
             3D torus samples
 
         """
-- 
2.43.0


From bc7c461cb02b019de5eeae75a0b84a5e48a1c0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:31 +0000
Subject: [PATCH 24/26] fix: moore_space_distance_matrix documents the points
 it returns

---
 dreimac/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 5d3d5c1..81fd665 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1187,6 +1187,8 @@ class GeometryExamples:
         -------
         ndarray(n, n)
             Distance matrix of points on the Moore space M(1,Z/prime).
+        ndarray(n, 2)
+            The points, in the unit disk.
 
         """
         np.random.seed(0)
-- 
2.43.0


From 7678e8e9c93c831ba7cfa5df883b90641782c3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:15 +0000
Subject: [PATCH 25/26] fix: keep the exponential bump positive inside the ball
 when it underflows

---
 dreimac/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 81fd665..33a0f81 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -694,7 +694,10 @@ class PartUnity:
             The bump function
 
         """
-        return np.exp(r_cover**2 / (ds**2 - r_cover**2))
+        # keep the bump positive where the exponential underflows
+        return np.maximum(
+            np.exp(r_cover**2 / (ds**2 - r_cover**2)), np.finfo(float).tiny
+        )
 
 
 class EquivariantPCA:
-- 
2.43.0


From 695bfc0c1814935493fb80f07543664ff1eb8778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:31 +0000
Subject: [PATCH 26/26] fix: rotmat returns an orthogonal matrix for almost
 antipodal vectors

The residual of a against b was normalised down to a length of 1e-15, where it
consists of rounding errors and need not be orthogonal to b.
---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 33a0f81..c10e56f 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1556,7 +1556,7 @@ class ProjectiveMapUtils:
         b = b / np.sqrt(np.sum(b**2))
 
         c = a - np.sum(b * a) * b
-        if np.sqrt(np.sum(c**2)) < 1e-15:
+        if np.sqrt(np.sum(c**2)) < 1e-8:
             # If a numerically coincides with b, don't rotate at all
             if np.sum(b * a) > 0 or d == 1:
                 return np.eye(d)
-- 
2.43.0

