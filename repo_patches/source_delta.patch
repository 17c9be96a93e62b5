From e500e76d30493fdb54279b61e598300b55afe3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 01/57] fix: store converted LinearOperator values in
 Model.tocsr

---
 qsymm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index fdb6b1d..ab995ba 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -620,7 +620,7 @@ class Model(UserDict):
                 result[key] = scipy.sparse.csr_matrix(val, dtype=complex)
             else:
                 # LinearOperator doesn't support multiplication with sparse matrix
-                val = scipy.sparse.csr_matrix(val @ np.eye(val.shape[-1], dtype=complex), dtype=complex)
+                result[key] = scipy.sparse.csr_matrix(val @ np.eye(val.shape[-1], dtype=complex), dtype=complex)
         return result
 
     def toarray(self):
-- 
2.43.0


From 5bf8ab923038ee38da5a09fc10f4ef68fef4b14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 02/57] fix: dense conversion of sparse matrices and
 LinearOperators

---
 qsymm/linalg.py | 2 +-
 qsymm/model.py  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index f4a125e..6908506 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -259,7 +259,7 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         return ns.T
     else:
         if isinstance(A, scipy.sparse.spmatrix):
-            A = A.A
+            A = A.toarray()
         # Do dense SVD
         _, s, vh = la.svd(A, full_matrices = True)
         nnz = np.isclose(s, 0, atol=atol)
diff --git a/qsymm/model.py b/qsymm/model.py
index ab995ba..82abd44 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -632,10 +632,10 @@ class Model(UserDict):
                 result[key] = val
             elif isinstance(val, Number):
                 result[key] = np.asarray(val)
-            elif scipy.sparse.spmatrix:
-                result[key] = val.A
+            elif isinstance(val, scipy.sparse.spmatrix):
+                result[key] = val.toarray()
             else:
-                 val = val @ np.eye(val.shape[-1], dtype=complex)
+                result[key] = val @ np.eye(val.shape[-1], dtype=complex)
         return result
 
     def copy(self):
-- 
2.43.0


From defa1fb405a787697318bb9a92afba1959032b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 03/57] fix: use the Frobenius norm for sparse values in
 Model.eliminate_zeros

---
 qsymm/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 82abd44..aa9a382 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -716,8 +716,11 @@ class Model(UserDict):
         # For empty model do nothing
         if self.data == {}:
             return result
-        # Write it explicitely so it works with sparse arrays
+        # Write it explicitely so it works with sparse arrays, where `**`
+        # is the matrix power
         def norm(mat):
+            if isinstance(mat, scipy.sparse.spmatrix):
+                return scipy.sparse.linalg.norm(mat)
             return np.sqrt(np.sum(np.abs(mat)**2))
         max_norm = np.max([norm(val) for val in self.values()])
         tol = max(atol, max_norm * rtol)
-- 
2.43.0


From 9ac3f76d8e9539d0758ee3ee640be3e12983cacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:12 +0000
Subject: [PATCH 04/57] fix: Model.around for sparse values

---
 qsymm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index aa9a382..0e4d6a3 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -587,7 +587,7 @@ class Model(UserDict):
         result = self.zeros_like()
         for key, val in self.items():
             val = np.around(val, decimals)
-            if not np.allclose(val, 0):
+            if not allclose(val, 0):
                 result[key] = val
         return result
 
-- 
2.43.0


From 965a9348e0f265feac941a68512690183b609cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 05/57] fix: allclose for sparse matrices without stored
 entries

---
 qsymm/linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 6908506..cfc001a 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -47,8 +47,9 @@ def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
     elif isinstance(b, sla.LinearOperator):
         b = b @ np.eye(a.shape[-1], dtype=complex)
 
-    # Check if empty arrays, only compare shape
-    if a.size == 0:
+    # Check if empty arrays, only compare shape. Do not use `size`, because
+    # for sparse matrices it is the number of stored entries.
+    if 0 in a.shape:
         return a.shape == b.shape
     atol = atol + rtol * max(np.max(np.abs(a)), np.max(np.abs(b)))
     diff = a - b
-- 
2.43.0


From 29fb27574d0eb039e42992fa53ef6e6ab494fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 06/57] fix: spin representation of the exact 6-fold rotation
 in hexagonal

---
 qsymm/groups.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 34eafd1..eda0fe4 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -820,8 +820,8 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         if sympy_R:
 
             C6 = PointGroupElement(sympy.ImmutableMatrix(
-                                        [[sympy.Rational(1, 2), sympy.sqrt(3)/2],
-                                         [-sympy.sqrt(3)/2,       sympy.Rational(1, 2)]]
+                                        [[sympy.Rational(1, 2), -sympy.sqrt(3)/2],
+                                         [sympy.sqrt(3)/2,        sympy.Rational(1, 2)]]
                                                          ),
                                          False, False, U6)
         else:
@@ -832,8 +832,8 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         C2x = rotation(1/2, [1, 0, 0], spin=spin)
         if sympy_R:
             C6 = PointGroupElement(sympy.ImmutableMatrix(
-                                        [[sympy.Rational(1, 2), sympy.sqrt(3)/2, 0],
-                                         [-sympy.sqrt(3)/2, sympy.Rational(1, 2), 0],
+                                        [[sympy.Rational(1, 2), -sympy.sqrt(3)/2, 0],
+                                         [sympy.sqrt(3)/2, sympy.Rational(1, 2), 0],
                                          [0, 0, 1]]
                                                          ),
                                          False, False, U6)
-- 
2.43.0


From 2c65934000a26c3181be0b46ee072c5d05d0d77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 07/57] fix: ContinuousGroupGenerator must reject R that is not
 both Hermitian and antisymmetric

---
 qsymm/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index eda0fe4..aedd03f 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -533,7 +533,7 @@ class ContinuousGroupGenerator:
 
     def __init__(self, R=None, U=None):
         # Make sure that R and U have correct properties
-        if R is not None and not _is_hermitian(R) and not _is_antisymmetric(R):
+        if R is not None and not (_is_hermitian(R) and _is_antisymmetric(R)):
             raise ValueError('R must be Hermitian antisymmetric')
         if U is not None and not _is_hermitian(U):
             raise ValueError('U must be Hermitian')
-- 
2.43.0


From 58eb7091e78cba25ed7edd0c663ed9dd7b551c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:28 +0000
Subject: [PATCH 08/57] fix: equal PointGroupElements with sympy and floating
 point R must have equal hash

---
 qsymm/groups.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index aedd03f..a97c2c9 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -216,12 +216,13 @@ class PointGroupElement:
             return Rs < Ro
 
     def __hash__(self):
-        # U is not hashed, if R is floating point it is also not hashed
+        # U is not hashed, R is only hashed if it is integer. A sympy R can be
+        # equal to a floating point R, so these can't be hashed either.
         R, c, a = self.R, self.conjugate, self.antisymmetry
-        if isinstance(R, ta.ndarray_float):
-            return hash((c, a))
-        else:
+        if isinstance(R, ta.ndarray_int):
             return hash((R, c, a))
+        else:
+            return hash((c, a))
 
     def __mul__(self, g2):
         g1 = self
-- 
2.43.0


From 02489896595ef3e80cd1d96aac948b6562aebfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:48 +0000
Subject: [PATCH 09/57] fix: do not reject invertible integer matrices because
 of rounding in the determinant

---
 qsymm/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index cfc001a..00ad9b9 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -618,6 +618,6 @@ def _inv_int(A):
     _A = ta.array(A, int)
     if A == np.empty((0, 0)):
         return A
-    if _A != A or abs(la.det(A)) != 1:
+    if _A != A or not np.isclose(abs(la.det(A)), 1):
         raise ValueError('Input needs to be an invertible integer matrix')
     return ta.array(np.round(la.inv(_A)), int)
-- 
2.43.0


From a88772716ed34f4319b0a5b878596852fc53f7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 10/57] fix: multiplication and division of Model by sympy
 numbers

---
 qsymm/model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 0e4d6a3..4030a63 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -360,6 +360,10 @@ class Model(UserDict):
 
     def __mul__(self, other):
         # Multiplication by numbers, sympy symbols, arrays and Model
+        if isinstance(other, sympy.Number):
+            # These are also instances of Number, but multiplying an array
+            # with them results in an object array
+            other = complex(other)
         if isinstance(other, Number):
             result = self.zeros_like()
             result.data = {key: val * other for key, val in self.items()}
@@ -449,6 +453,8 @@ class Model(UserDict):
 
     def __truediv__(self, other):
         result = self.zeros_like()
+        if isinstance(other, sympy.Number):
+            other = complex(other)
         if isinstance(other, Number):
             result.data = {key : val * (1/other) for key, val in self.items()}
         else:
-- 
2.43.0


From 2d4098820ff88e4bc42d1917d2a7a4b470f4e4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 11/57] fix: adding a constant to a Model with integer or real
 values

---
 qsymm/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 4030a63..e5bb5d4 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -330,7 +330,8 @@ class Model(UserDict):
               or (isinstance(other, Number) and self.shape == ())):
             # Addition of constants
             result = self.copy()
-            result[1] += other
+            # Not in-place, the sum can have a different data type
+            result[1] = result[1] + other
         else:
             raise NotImplementedError('Addition of {} with shape {} with {} not supported'.format(type(self), self.shape, type(other)))
         return result
@@ -345,7 +346,8 @@ class Model(UserDict):
               or (isinstance(other, Number) and self.shape == ())):
             # Addition of constants
             result = self.copy()
-            result[1] += other
+            # Not in-place, the sum can have a different data type
+            result[1] = result[1] + other
         else:
             raise NotImplementedError('Addition of {} with {} not supported'.format(type(self), type(other)))
         return result
-- 
2.43.0


From 9f480c0c85e6028d0815f89a35a76383134ef495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 12/57] fix: sum up terms of Model with keys that have the same
 normal form

---
 qsymm/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index e5bb5d4..9a29574 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -196,9 +196,12 @@ class Model(UserDict):
 
         if isinstance(hamiltonian, abc.Mapping):
             # Initialize as dict sympifying the keys
-            self.data = {symbol_normalizer(k): v for k, v in hamiltonian.items()
-                              if symbol_normalizer(k) in self.keep
-                                 or not self.keep}
+            self.data = {}
+            for k, v in hamiltonian.items():
+                key = symbol_normalizer(k)
+                if key in self.keep or not self.keep:
+                    # Different keys can have the same normal form, add these up
+                    self.data[key] = self.data[key] + v if key in self.data else v
 
         else:
             # Try to parse the input with kwant_continuum.sympify
-- 
2.43.0


From b609d1a44f8269a8b5bfac70f6cba177a4301f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 13/57] fix: constrain_family if the transformed family does
 not contain all terms of the family

---
 qsymm/hamiltonian_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 5e01e13..988bf3b 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -419,7 +419,7 @@ def constrain_family(symmetries, family, sparse_linalg=False):
 
     # Get all variables and fix ordering
     all_variables = set()
-    for member in it.chain(*rotated_families):
+    for member in it.chain(family, *rotated_families):
         all_variables |= member.keys()
     all_variables = list(all_variables)
 
-- 
2.43.0


From 10e16d811b112766c0d982ed98456bef56ef0762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 14/57] fix: bloch_family without point group symmetries and
 without modifying its input

---
 qsymm/hamiltonian_generator.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 988bf3b..98e7bd9 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -8,7 +8,7 @@ import tinyarray as ta
 
 from .linalg import matrix_basis, nullspace, family_to_vectors, rref, allclose
 from .model import Model, BlochModel, BlochCoeff, _commutative_momenta, e, I
-from .groups import PointGroupElement, ContinuousGroupGenerator, generate_group
+from .groups import PointGroupElement, ContinuousGroupGenerator, generate_group, identity
 from . import kwant_continuum
 
 
@@ -708,8 +708,9 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         family.extend(hopfamily)
     if symmetrize:
         # Make sure that group is generated while keeping track of unitary part.
-        for g in pg:
-            g._strict_eq = True
+        # The identity is included, so the group is never empty.
+        pg = [PointGroupElement(g.R, g.conjugate, g.antisymmetry, g.U, _strict_eq=True)
+              for g in pg + [identity(dim, N)]]
         pg = generate_group(set(pg))
         # Symmetrize every term and remove linearly dependent or zero ones
         family2 = []
@@ -720,7 +721,9 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         family = remove_duplicates(family2, tol=10**(-num_digits))
     else:
         # Constrain the terms by symmetry
-        family = constrain_family(pg, remove_duplicates(family))
+        family = remove_duplicates(family)
+        if pg:
+            family = constrain_family(pg, family)
     if prettify:
         family = make_basis_pretty(family, num_digits=num_digits)
     return family
-- 
2.43.0


From d155f7dbb110de8e4aa077ee84f32f4426cd3b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 15/57] fix: rref of zero matrix with return_S=True

---
 qsymm/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 00ad9b9..d437a6e 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -535,10 +535,10 @@ def rref(m, rtol = 1e-3, return_S=False):
         return P
 
     # Stop if m is identically zero
+    S = np.eye(rows, dtype=complex)
     if np.allclose(red, 0):
-        return red
+        return (red, S) if return_S else red
 
-    S = np.eye(rows, dtype=complex)
     tol = np.max(np.abs(m)) * rtol
 
     lead = 0
-- 
2.43.0


From f39984c0eb9f266e9996258b17ed55acb54bc141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 16/57] fix: adding a constant to a Model must result in a
 properly formatted key

---
 qsymm/model.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 9a29574..a9b8056 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -332,9 +332,7 @@ class Model(UserDict):
         elif ((isinstance(other, self.format) and self.shape == other.shape)
               or (isinstance(other, Number) and self.shape == ())):
             # Addition of constants
-            result = self.copy()
-            # Not in-place, the sum can have a different data type
-            result[1] = result[1] + other
+            result = self + type(self)({1: other}, momenta=self.momenta)
         else:
             raise NotImplementedError('Addition of {} with shape {} with {} not supported'.format(type(self), self.shape, type(other)))
         return result
@@ -348,9 +346,7 @@ class Model(UserDict):
         elif ((isinstance(other, self.format) and self.shape == other.shape)
               or (isinstance(other, Number) and self.shape == ())):
             # Addition of constants
-            result = self.copy()
-            # Not in-place, the sum can have a different data type
-            result[1] = result[1] + other
+            result = self + type(self)({1: other}, momenta=self.momenta)
         else:
             raise NotImplementedError('Addition of {} with {} not supported'.format(type(self), type(other)))
         return result
-- 
2.43.0


From b322f8d4daea146906d8e8446452e601bac8a4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 17/57] fix: name of rotations around axes with components that
 sum up to zero

---
 qsymm/groups.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index a97c2c9..4048dbc 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1079,14 +1079,16 @@ def rotation_to_angle(R):
     assert allclose(R, R.real)
     n = np.array([1j * np.trace(L @ R) for L in L_matrices()]).real
     # Choose direction to minimize number of minus signs
-    absn = la.norm(n) * np.sign(np.sum(n))
+    def sign(n):
+        return -1 if np.sum(n) < 0 else 1
+    absn = la.norm(n) * sign(n)
     if np.isclose(absn, 0):
         # n is zero for 2-fold rotation, find eigenvector with +1
         val, vec = la.eigh(R)
         assert np.isclose(val[-1], 1), R
         n = vec[:, -1]
         # Choose direction to minimize number of minus signs
-        n /= np.sign(np.sum(n))
+        n /= sign(n)
     else:
         n /= absn
     theta = np.arctan2(absn, np.trace(R).real - 1)
-- 
2.43.0


From 8ceee1c2593f0eb87345cc26b7b12ec8a817001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 18/57] fix: printing of ContinuousGroupGenerator with trivial
 U or rotation axis not along coordinate axes

---
 qsymm/groups.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 4048dbc..bbc8974 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1039,7 +1039,6 @@ def pretty_print_cgg(g, latex=False):
     if R is not None and R.shape[0] == 3:
         n = np.array([np.trace(l @ R) for l in L_matrices()]).real  # Noqa: E741
         n /= la.norm(n)
-        n = _round_axis(n)
         if latex:
             rot_name = r'R_{{\phi}} = R\left(\phi, {}\right)\\'.format(_round_axis(n))
         else:
@@ -1054,6 +1053,8 @@ def pretty_print_cgg(g, latex=False):
             L_name = r'L = {} \\'.format(_array_to_latex(np.round(L, 3)))
         else:
             L_name = '\nL = {}'.format(str(np.round(L, 3)).replace('\n', '\n    '))
+    else:
+        L_name = ''
 
     if latex:
         if R is not None:
-- 
2.43.0


From c5f1482f5ab53bff2d0dca349a77c0815e4427eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 19/57] fix: evalf of BlochModel and of Models with
 exponentials or complex coefficients

---
 qsymm/model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index a9b8056..5ff0e69 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -616,7 +616,9 @@ class Model(UserDict):
 
     def evalf(self, subs=None):
         """Evaluate using parameter values in `subs`."""
-        return sum(float(key.evalf(subs=subs)) * val for key, val in self.items())
+        # 'e' is a symbol, replace it with the numerical value
+        subs = {e: np.e, **({} if subs is None else subs)}
+        return sum(complex(key.evalf(subs=subs)) * val for key, val in self.items())
 
     def tocsr(self):
         """Convert to sparse csr format."""
@@ -876,6 +878,10 @@ class BlochModel(Model):
         If nsimplify=True, attempt to rewrite numerical coefficients as exact formulas."""
         return self.tomodel(nsimplify=nsimplify).tosympy(nsimplify)
 
+    def evalf(self, subs=None):
+        """Evaluate using parameter values in `subs`."""
+        return self.tomodel().evalf(subs=subs)
+
     def tomodel(self, nsimplify=False):
         """Convert to Model."""
         return Model({key.tosympy(self.momenta, nsimplify=nsimplify): copy(val)
-- 
2.43.0


From a83564df7423d593500fcc605fbbf510399c452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 20/57] fix: symmetry_from_permutation must map site to
 perm[site], not the other way around

---
 qsymm/groups.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index bbc8974..78c459c 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1288,7 +1288,8 @@ def symmetry_from_permutation(R, perm, norbs, onsite_action=None,
     for a in norbs.keys():
         if not norbs[a] == norbs[perm[a]]:
             raise ValueError('Symmetry related sites must have the same number or orbitals')
-        U[ranges[a], ranges[perm[a]]] = onsite_action[a]
+        # Site a is mapped to perm[a], so column a is nonzero in row perm[a]
+        U[ranges[perm[a]], ranges[a]] = onsite_action[a]
     g = PointGroupElement(R, antiunitary, antisymmetry, U)
     return g
 
-- 
2.43.0


From c4bd3587a316c6470ccb665c1fd72929dc70dcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 21/57] fix: transpose of sparse Models must keep the format

---
 qsymm/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 5ff0e69..d2ca6fd 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -575,6 +575,9 @@ class Model(UserDict):
         """Transpose"""
         result = self.zeros_like()
         result.data = {key: val.T for key, val in self.items()}
+        if issubclass(self.format, scipy.sparse.spmatrix):
+            # The transpose of some sparse formats has a different format
+            result.data = {key: self.format(val) for key, val in result.items()}
         result.shape = self.shape[::-1]
         return result
 
-- 
2.43.0


From 0c14dfc85b6b05d9a5e36257832e54e2cadb2551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:13 +0000
Subject: [PATCH 22/57] fix: continuous_symmetries of models with one
 dimensional reduced blocks

---
 qsymm/symmetry_finder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index 3dfc11e..91c5c02 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -721,7 +721,11 @@ def continuous_symmetries(model, Ps=None, prettify=True, num_digits=8, sparse_li
         R = None
         Ls = matrix_basis(blockdim, traceless=True)
         trf_hams = [ContinuousGroupGenerator(R, L).apply(rham) for L in Ls]
-        Lblock = family_to_vectors(trf_hams, all_keys=keys).T
+        if trf_hams:
+            Lblock = family_to_vectors(trf_hams, all_keys=keys).T
+        else:
+            # There is no action in a 1D block
+            Lblock = np.empty((Rblock.shape[0], 0))
         Lblocks.append(Lblock)
 
     # Build constraint matrix: first the spatial blocks in a column, then the
-- 
2.43.0


From 3130609a411da422ebac54a05929006a4ce7d407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 23/57] fix: momenta after substitution must not depend on
 identity of sympy symbols

---
 qsymm/model.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index d2ca6fd..28d15c8 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -528,19 +528,18 @@ class Model(UserDict):
 
         momenta = self.momenta
         for (old, new) in args[0]:
+            # Symbols can be given as strings. Equal sympy symbols are not always
+            # identical, so they need to be compared with `==`.
+            old, new = sympy.sympify(old), sympy.sympify(new)
             # Substitution of a momentum variable with a symbol
             # is a renaming of the momentum.
             if old in momenta and isinstance(new, sympy.Symbol):
-                momenta = tuple(momentum if old is not momentum else new
+                momenta = tuple(momentum if old != momentum else new
                                 for momentum in momenta)
             # If no momenta appear in the replacement for a momentum, we consider
             # that momentum removed.
-            # Replacement is not a sympy object.
-            elif not isinstance(new, sympy.Basic):
-                momenta = tuple(momentum for momentum in momenta if old is not momentum)
-            # Replacement is a sympy object, but does not contain momenta.
             elif not any([momentum in new.atoms() for momentum in momenta]):
-                momenta = tuple(momentum for momentum in momenta if old is not momentum)
+                momenta = tuple(momentum for momentum in momenta if old != momentum)
         substituted = self.transform_symbolic(lambda x: x.subs(*args, **kwargs))
         substituted.momenta = momenta
         # If there are exponentials, evaluate any numerical exponents,
-- 
2.43.0


From a1ed04e9cc68d83cffc9f11d9a466772b5c37582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:59 +0000
Subject: [PATCH 24/57] fix: momenta after simultaneous substitution

---
 qsymm/model.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 28d15c8..e26b6a1 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -527,19 +527,25 @@ class Model(UserDict):
             args = ([(key, value) for key, value in args[0].items()], )
 
         momenta = self.momenta
+        # With simultaneous substitution every replacement refers to the original
+        # momenta, not to the ones that are already renamed.
+        simultaneous = kwargs.get('simultaneous', False)
         for (old, new) in args[0]:
             # Symbols can be given as strings. Equal sympy symbols are not always
             # identical, so they need to be compared with `==`.
             old, new = sympy.sympify(old), sympy.sympify(new)
             # Substitution of a momentum variable with a symbol
             # is a renaming of the momentum.
-            if old in momenta and isinstance(new, sympy.Symbol):
-                momenta = tuple(momentum if old != momentum else new
-                                for momentum in momenta)
+            current = self.momenta if simultaneous else momenta
+            if old in current and isinstance(new, sympy.Symbol):
+                momenta = tuple(new if old == name else momentum
+                                for name, momentum in zip(current, momenta))
             # If no momenta appear in the replacement for a momentum, we consider
             # that momentum removed.
-            elif not any([momentum in new.atoms() for momentum in momenta]):
-                momenta = tuple(momentum for momentum in momenta if old != momentum)
+            elif not any([momentum in new.atoms() for momentum in current]):
+                momenta = tuple(None if old == name else momentum
+                                for name, momentum in zip(current, momenta))
+        momenta = tuple(momentum for momentum in momenta if momentum is not None)
         substituted = self.transform_symbolic(lambda x: x.subs(*args, **kwargs))
         substituted.momenta = momenta
         # If there are exponentials, evaluate any numerical exponents,
-- 
2.43.0


From 64530c69cac90d3ae947a4500c40280d5abae3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:40 +0000
Subject: [PATCH 25/57] fix: BlochModel.rotate_momenta with singular matrices

---
 qsymm/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index e26b6a1..68313f2 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -865,7 +865,10 @@ class BlochModel(Model):
         # do rotation on hopping vectors with transpose matrix
         R_T = np.array(R).astype(float).T
         result = self.zeros_like()
-        result.data = {BlochCoeff(R_T @ hop, coeff): copy(val) for (hop, coeff), val in self.items()}
+        for (hop, coeff), val in self.items():
+            key = BlochCoeff(R_T @ hop, coeff)
+            # If R is singular, different hoppings can become the same
+            result.data[key] = result.data[key] + val if key in result.data else copy(val)
         return result
 
     def conj(self):
-- 
2.43.0


From 27dbd405fb8dfe04eaa15bdb788a81efb81c654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:51 +0000
Subject: [PATCH 26/57] fix: comparison of BlochCoeff with sympy expressions
 with the same hash

---
 qsymm/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 68313f2..6dc901b 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -73,6 +73,9 @@ class BlochCoeff(tuple):
         hop1, coeff1 = self
         if other == 1:
             return allclose(hop1, 0) and coeff1 == 1
+        # Sympy expressions can have the same hash
+        if not isinstance(other, tuple):
+            return False
         hop2, coeff2 = other
         # test equality of hop with allclose
         return allclose(hop1, hop2) and coeff1 == coeff2
-- 
2.43.0


From a66661455bda23a3a473123b0d13f717a989e624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:21 +0000
Subject: [PATCH 27/57] fix: compare exact rotations by value, not by the form
 of the expression

---
 qsymm/groups.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 78c459c..3ab818f 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -55,7 +55,9 @@ def _inv(R):
 
 @lru_cache(maxsize=10000)
 def _eq(R1, R2):
-    if type(R1) != type(R2):
+    if type(R1) != type(R2) or (is_sympy_matrix(R1) and R1 != R2):
+        # Equal sympy matrices can be written in different forms, compare
+        # the numerical values if they are not identical.
         R1 = ta.array(np.array(R1).astype(float), float)
         R2 = ta.array(np.array(R2).astype(float), float)
     if isinstance(R1, ta.ndarray_float):
-- 
2.43.0


From 9016a74980edfa767eacfc7932a83e4b1b10b8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:56 +0000
Subject: [PATCH 28/57] fix: apply continuous generators to sparse models

---
 qsymm/groups.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 3ab818f..9cd2d26 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -9,6 +9,7 @@ from collections import OrderedDict
 import numpy as np
 import tinyarray as ta
 import scipy.linalg as la
+import scipy.sparse
 import sympy
 from sympy.matrices.matrices import MatrixBase
 
@@ -574,7 +575,11 @@ class ContinuousGroupGenerator:
                           for i, j in product(range(dim), repeat=2)])
             result += 1j * model.transform_symbolic(trf)
         if U_nonzero:
-            result += model @ (1j*U) + (-1j*U) @ model
+            if issubclass(model.format, scipy.sparse.spmatrix):
+                # Products of sparse and dense matrices are dense, keep the format.
+                U = model.format(U)
+            # `__rmatmul__`, because sparse matrices don't defer to the Model.
+            result += model @ (1j*U) + model.__rmatmul__(-1j*U)
         return result
 
 
-- 
2.43.0


From f3933b9b40aaab77df597067275d1f9affddc277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:52 +0000
Subject: [PATCH 29/57] fix: expand products of exact rotations, whose size
 grew with every product

---
 qsymm/groups.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 9cd2d26..df65685 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -24,14 +24,15 @@ def _mul(R1, R2):
     # Cached multiplication of spatial parts.
     if is_sympy_matrix(R1) and is_sympy_matrix(R2):
         # If spatial parts are sympy matrices, use cached multiplication.
-        R = R1 * R2
+        # Expand the result to prevent expressions growing with every product.
+        R = (R1 * R2).expand()
     elif not (is_sympy_matrix(R1) or is_sympy_matrix(R2)):
         # If arrays, use dot
         R = ta.dot(R1, R2)
     elif ((is_sympy_matrix(R1) or is_sympy_matrix(R2)) and
         (isinstance(R1, ta.ndarray_int) or isinstance(R2, ta.ndarray_int))):
         # Multiplying sympy and integer tinyarray is ok, should result in sympy
-        R = sympy.ImmutableMatrix(R1) * sympy.ImmutableMatrix(R2)
+        R = (sympy.ImmutableMatrix(R1) * sympy.ImmutableMatrix(R2)).expand()
     else:
         raise ValueError("Mixing of sympy and floating point in the spatial part R is not allowed. "
                          "To avoid this error, make sure that all PointGroupElements are initialized "
-- 
2.43.0


From 5c7c3039a1e7bb0086830e3fb8e8107e6711d311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:56 +0000
Subject: [PATCH 30/57] fix: sign of the x and y angular momentum of d orbitals

---
 qsymm/groups.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index df65685..ef83680 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1230,16 +1230,16 @@ def L_matrices(d=3, l=1):  # Noqa: E741
                                [0, 0, 0]]])
     elif d == 3 and l==2:
         s3 = np.sqrt(3)
-        return 1j * np.array([[[0, 0, 0, -1, 0],
-                              [0, 0, 0, -s3, 0],
-                              [0, 0, 0, 0, 1],
-                              [1, s3, 0, 0, 0],
-                              [0, 0, -1, 0, 0]],
-                             [[0, 0, 0, 0, -1],
-                              [0, 0, 0, 0, s3],
-                              [0, 0, 0, -1, 0],
-                              [0, 0, 1, 0, 0],
-                              [1, -s3, 0, 0, 0]],
+        return 1j * np.array([[[0, 0, 0, 1, 0],
+                              [0, 0, 0, s3, 0],
+                              [0, 0, 0, 0, -1],
+                              [-1, -s3, 0, 0, 0],
+                              [0, 0, 1, 0, 0]],
+                             [[0, 0, 0, 0, 1],
+                              [0, 0, 0, 0, -s3],
+                              [0, 0, 0, 1, 0],
+                              [0, 0, -1, 0, 0],
+                              [-1, s3, 0, 0, 0]],
                              [[0, 0, -2, 0, 0],
                               [0, 0, 0, 0, 0],
                               [2, 0, 0, 0, 0],
-- 
2.43.0


From b4fb13745374d1d3a498bbc298059b30c9adbc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:33 +0000
Subject: [PATCH 31/57] fix: reject spins that are not half-integer

---
 qsymm/groups.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index ef83680..3cbd6c0 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1152,9 +1152,8 @@ def spin_matrices(s, include_0=False):
         Array of shape `(3, 2*s + 1, 2*s + 1)`, or if `include_0` is True
         `(4, 2*s + 1, 2*s + 1)`.
     """
-    d = np.round(2*s + 1)
-    assert np.isclose(d, int(d))
-    d = int(d)
+    d = int(np.round(2*s + 1))
+    assert np.isclose(d, 2*s + 1)
     Sz = 1/2 * np.diag(np.arange(d - 1, -d, -2))
     # first diagonal for general s from en.wikipedia.org/wiki/Spin_(physics)
     diag = [1/2*np.sqrt((s + 1) * 2*i - i * (i + 1)) for i in np.arange(1, d)]
-- 
2.43.0


From 4150a783afb3c43d6a8807f91ce51a2a8736511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:26 +0000
Subject: [PATCH 32/57] fix: reject spin with particle-hole symmetry in
 hexagonal, as documented

---
 qsymm/groups.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 3cbd6c0..6f75c57 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -820,6 +820,10 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         is different. Here we consider the action of the mirror, which is the same as the
         action of a 2-fold rotation around the mirror axis, assuming inversion acts trivially.
     """
+    if ph and spin is not None:
+        raise ValueError('If `ph` is True, `spin` may not be provided, as it is not '
+                         'possible to deduce the unitary representation of particle-hole symmetry '
+                         'from spin alone. In this case construct the particle-hole operator manually.')
     if spin is not None and sympy_R:
         U6 = spin_rotation(np.pi / 3 * np.array([0, 0, 1]), spin)
     else:
-- 
2.43.0


From 3b26502af69151582bbf20741f57fccb062f690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:43 +0000
Subject: [PATCH 33/57] fix: keep generators Hermitian in separate_lie_algebra

The Killing form of Hermitian generators is real, but it is stored as a
complex array, so the basis of its null space can be complex.
The resulting generators of the center were only approximately
Hermitian, degenerate eigenvalues were split and symmetries missed.
---
 qsymm/symmetry_finder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index 91c5c02..c9f7676 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -159,6 +159,10 @@ def separate_lie_algebra(gens):
         generators of semisimple part, shape (ms, N, N)
     """
     g = killing(gens)
+    if allclose(g, g.real):
+        # Lapack guarantees that the SVD of a real matrix is real, this way
+        # the generators stay Hermitian if they are such
+        g = g.real
     c, s = nullspace(g, return_complement=True)
     # 'ab,bij->aij'
     gensc = np.tensordot(c, gens, axes=(1, 0))
-- 
2.43.0


From 7d4551ca2f0544f141e39b4019a4b4a4683c3f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:22 +0000
Subject: [PATCH 34/57] fix: simult_diag split degenerate subspaces of nearly
 Hermitian matrices

Matrices that are Hermitian to a relative accuracy of 1e-5 are
diagonalized as Hermitian, but eigh only uses one of the triangles.
The eigenvalues had an error of this order, much larger than tol.
---
 qsymm/linalg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index d437a6e..837bbfb 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -328,7 +328,9 @@ def simult_diag(mats, tol=1e-6, checks=0):
         # Returns the grouped eigenvalues, eigenvectors
         Hdag = H.T.conj()
         if allclose(H, Hdag):
-            evals, U = la.eigh(H)
+            # 'eigh' only uses one of the triangles, H may only be approximately
+            # Hermitian
+            evals, U = la.eigh((H + Hdag) / 2)
         else:
             if not np.allclose(commutator(H, Hdag), 0):
                 raise ValueError('Only normal matrix can be diagonalized.')
-- 
2.43.0


From a560379adf6d71ee7f21a0881f5fd483b73479a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 35/57] fix: sparse nullspace was incomplete for degenerate
 null spaces

Lanczos iteration misses degenerate null vectors, and fails if k is close to
the size of the matrix. Its tolerance was also applied to the squared singular
values, unlike in the dense case.
---
 qsymm/linalg.py | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 837bbfb..5d0b47e 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -215,8 +215,6 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         sparse = isinstance(A, scipy.sparse.spmatrix)
     if sparse:
         # Do sparse eigenvalue solving
-        # sigma used for shift-invert, should be a small negative value
-        sigma = -1e-1
         # Make sure A is sparse matrix
         if isinstance(A, np.ndarray):
             A = scipy.sparse.csr_matrix(A)
@@ -225,35 +223,45 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         if np.allclose(A.data, 0, atol=atol/A.shape[1]):
             return np.eye(A.shape[1])
         # Make Hermitian positive definite matrix
-        A = A.T.conj().dot(A)
+        AA = A.T.conj().dot(A) * 1.0
+        N = A.shape[1]
+
+        # Shift-invert with a small negative shift
+        sigma = -1e-10 * sla.norm(AA, 1)
+        solve = sla.splu((AA - sigma * scipy.sparse.identity(N)).tocsc()).solve
+
+        def smallest_svals(k):
+            # Block inverse iteration. Unlike Lanczos-type methods, it finds all
+            # the degenerate vectors, and works if k is close to N.
+            vecs = np.random.default_rng(0).normal(size=(N, k)).astype(AA.dtype)
+            for _ in range(8):
+                vecs, _ = la.qr(solve(vecs), mode='economic')
+            _, s, vh = la.svd(A @ vecs, full_matrices=A.shape[0] < k)
+            s = np.concatenate((s, np.zeros(k - len(s))))
+            return s, vecs @ vh.T.conj()
 
         if k_max > 0:
-            # If k_max is specified, find k_max smallest eigenvalues
-            evals, evecs = sla.eigsh(A, sigma=sigma, which='LM',
-                                     k=k_max, return_eigenvectors=True)
+            # If k_max is specified, find k_max smallest singular values
+            svals, vecs = smallest_svals(min(k_max, N))
         elif k_max < 0:
-            # Successively find more eigenvalues until some not close to zero
+            # Successively find more singular values until some not close to zero
             # Number of new null space vectors to find in each step
             k_step = abs(k_max)
-            k_max = min(A.shape[0] - 2, k_step)
-            while k_max < A.shape[0] - 1:
-                evals, evecs = sla.eigsh(A, sigma=sigma, which='LM',
-                                         k=k_max, return_eigenvectors=True)
-                if np.max(np.abs(evals)) > atol:
+            k_max = min(k_step, N)
+            while True:
+                svals, vecs = smallest_svals(k_max)
+                if k_max == N or np.max(svals) > atol:
                     # We found the first large one
                     break
                 else:
                     # All small, need to increase k_max
-                    k_max += k_step
-            else:
-                raise ValueError('A should have at most A.shape[0]-2 dimensional null space.'
-                                 'Try using sparse=False.')
+                    k_max = min(k_max + k_step, N)
         else:
             raise ValueError('k_max must be nonzero.')
 
-        # Only keep eigenvectors with small eigenvalues
-        nnz = np.isclose(evals, 0, atol=atol)
-        ns = evecs[:, nnz]
+        # Only keep vectors with small singular values
+        nnz = np.isclose(svals, 0, atol=atol)
+        ns = vecs[:, nnz]
         # Orthonormalize null space
         if ns.shape[1] > 0:
             ns, _ = la.qr(ns, mode='economic')
-- 
2.43.0


From 3c69bd5dfe240d9e6e774598f73ac444a291473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 36/57] fix: names of momenta given as strings in continuum
 families

---
 qsymm/hamiltonian_generator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 98e7bd9..f205ed6 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -7,7 +7,7 @@ from copy import deepcopy
 import tinyarray as ta
 
 from .linalg import matrix_basis, nullspace, family_to_vectors, rref, allclose
-from .model import Model, BlochModel, BlochCoeff, _commutative_momenta, e, I
+from .model import Model, BlochModel, BlochCoeff, _commutative_momenta, _find_momenta, e, I
 from .groups import PointGroupElement, ContinuousGroupGenerator, generate_group, identity
 from . import kwant_continuum
 
@@ -227,8 +227,7 @@ def continuum_variables(dim, total_power, all_powers=None, momenta=_commutative_
     if all(isinstance(i, int) for i in momenta):
         momenta = [_commutative_momenta[i] for i in momenta]
     else:
-        momenta = [kwant_continuum.make_commutative(k, k)
-                        for k in momenta]
+        momenta = _find_momenta(tuple(momenta))
 
     # Generate powers for all terms
     powers = [p for p in it.product(*all_powers) if sum(p) == total_power]
-- 
2.43.0


From e71c0f2717fa1d81a31f869a3745c7814711ba36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:15 +0000
Subject: [PATCH 37/57] fix: names of momenta given as strings in bloch_family

---
 qsymm/hamiltonian_generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index f205ed6..5fe6ec0 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -671,6 +671,7 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
     # Check dimensionality
     dim = len(hopping_vectors[0][-1])
     assert all([len(hop[-1]) == dim for hop in hopping_vectors])
+    momenta = _find_momenta(tuple(momenta)[:dim])
 
     # Add zero hoppings for onsites
     if onsites:
-- 
2.43.0


From a4ca08d2d3e98c9ad1175a659977376cce8664ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 38/57] fix: continuum_pairing for any iterable of symmetries

---
 qsymm/hamiltonian_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 5fe6ec0..741dc8b 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -138,9 +138,9 @@ def continuum_pairing(symmetries, dim, total_power, all_powers=None, momenta=_co
 
     if ph_square not in (-1, 1):
         raise ValueError('Particle-hole operator must square to +1 or -1.')
+    symmetries = deepcopy(list(symmetries))
     if phases is None:
         phases = np.ones(len(symmetries))
-    symmetries = deepcopy(symmetries)
     N = symmetries[0].U.shape[0]
     # Attach phases to symmetry operators and extend to BdG space
     for sym, phase in zip(symmetries, phases):
-- 
2.43.0


From 757ed6013809eee8a18c132355c93b5934c0f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 39/57] fix: constraining strategy of bloch_family missed terms
 for diagonal fractional hoppings

The exponent of the terms was not expanded, e**(I*(k_x/2 + k_y/2)), so the
terms never matched the transformed ones, and valid terms were lost.
---
 qsymm/hamiltonian_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 741dc8b..cfcd112 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -690,7 +690,8 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
             # Dot product with momentum vector
             phase = sum([coordinate * momentum for coordinate, momentum in
                          zip(vec, momenta[:dim])])
-            factor = e**(I*phase)
+            # Expand to match the form of the terms after applying symmetries
+            factor = sympy.expand(e**(I*phase))
         hopfamily = []
         for mat in block_basis:
             matrix = np.zeros((N, N), dtype=complex)
-- 
2.43.0


From 1b1bfb4fdad449b25390a913ac62f1eb8733a3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 40/57] fix: bloch_family with exact hopping vectors and
 bloch_model=True

---
 qsymm/hamiltonian_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index cfcd112..6729664 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -684,7 +684,7 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         block_basis = np.eye(n*m, n*m).reshape((n*m, n, m))
         block_basis = np.concatenate((block_basis, 1j*block_basis))
         if bloch_model:
-            bloch_coeff = BlochCoeff(np.array(vec), sympy.sympify(1))
+            bloch_coeff = BlochCoeff(np.array(vec, dtype=float), sympy.sympify(1))
         else:
             # Hopping direction in real space
             # Dot product with momentum vector
-- 
2.43.0


From 1ddcd7564c874c41f50f94101211b11d45acadf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 41/57] fix: conserved quantities in bloch_family that are not
 invariant under the point group

If the point group maps a conserved quantity to one that is not listed, the
symmetrized terms did not commute with the conserved quantity.
---
 qsymm/hamiltonian_generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 6729664..984744e 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -720,6 +720,10 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
             if not term == {}:
                 family2.append(term)
         family = remove_duplicates(family2, tol=10**(-num_digits))
+        # Symmetrization keeps the conserved quantities only if the point group
+        # maps them onto each other
+        if conserved:
+            family = constrain_family(conserved, family)
     else:
         # Constrain the terms by symmetry
         family = remove_duplicates(family)
-- 
2.43.0


From dad894122b678140055e98ff10612a4182b23568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 42/57] fix: bloch_family returned spurious nearly vanishing
 terms

The symmetrized terms were rounded to num_digits digits before removing linearly
dependent ones with the same tolerance, so the rounding errors of dependent
terms could pass as independent terms.
---
 qsymm/hamiltonian_generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 984744e..2b9d851 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -716,10 +716,10 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         # Symmetrize every term and remove linearly dependent or zero ones
         family2 = []
         for term in family:
-            term = symmetrize_monomial(term, pg).around(decimals=num_digits)
-            if not term == {}:
+            term = symmetrize_monomial(term, pg)
+            if not term.around(decimals=num_digits) == {}:
                 family2.append(term)
-        family = remove_duplicates(family2, tol=10**(-num_digits))
+        family = remove_duplicates(family2)
         # Symmetrization keeps the conserved quantities only if the point group
         # maps them onto each other
         if conserved:
-- 
2.43.0


From e92b9c725a0b754c32a36e69f7b1543386bd2222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 43/57] fix: subtract_family must return terms orthogonal to
 family2

The coefficients that belong to the projected terms were used to combine the
terms that are not projected, so unless the terms of family1 are orthogonal the
result still contained terms of family2.
---
 qsymm/hamiltonian_generator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 2b9d851..4aa523a 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -550,8 +550,11 @@ def subtract_family(family1, family2, tol=1e-8, prettify=False):
     _, ort_basis1 = nullspace(basis1, atol=tol, return_complement=True)
     if not allclose((projected_basis1.dot(ort_basis1.T.conj())).dot(ort_basis1), projected_basis1, atol=tol):
         raise ValueError('Projecting onto the complement of family2 did not result in a subspace of family1')
-    # Find the coefficients of linearly independent vectors
-    _, projected_coeffs1 = nullspace(projected_basis1.T, atol=tol, return_complement=True)
+    # Find the coefficients of linearly independent vectors in family1, and their
+    # combinations that are orthogonal to family2
+    _, coeffs1 = nullspace(basis1.T, atol=tol, return_complement=True)
+    overlap = basis2.dot(coeffs1.dot(basis1).T)
+    projected_coeffs1 = nullspace(overlap, atol=tol).dot(coeffs1)
     rfamily = []
     for vec in projected_coeffs1:
         rfamily.append(sum([family1[i] * c for i, c in enumerate(vec)]))
-- 
2.43.0


From 7245c55b842e660d81b6a92053033a782f1d5c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:39 +0000
Subject: [PATCH 44/57] fix: check_symmetry with num_digits rejected correctly
 rounded families

Rounding both sides and comparing them fails if the rounding errors push an
entry over a rounding boundary, and num_digits was ignored for
ContinuousGroupGenerators.
---
 qsymm/hamiltonian_generator.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 4aa523a..ef91156 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -360,6 +360,11 @@ def check_symmetry(family, symmetries, num_digits=None):
     """
     def fail():
         raise ValueError(f'Member {member} does not satisfy symmetry {symmetry}.')
+
+    def atol(member):
+        # The rounding errors add up when multiplying with the unitary action
+        return max(member.shape + (1,)) * 10.**(-num_digits)
+
     for symmetry in symmetries:
         # Iterate over all members of the family
         for member in family:
@@ -368,12 +373,16 @@ def check_symmetry(family, symmetries, num_digits=None):
                     if symmetry.apply(member) != member:
                         fail()
                 else:
-                    if symmetry.apply(member).around(num_digits) != member.around(num_digits):
+                    if not symmetry.apply(member).allclose(member, rtol=0, atol=atol(member)):
                         fail()
             elif isinstance(symmetry, ContinuousGroupGenerator):
                 # Continous symmetry if applying it returns zero
-                if symmetry.apply(member) != {}:
-                    fail()
+                if num_digits is None:
+                    if symmetry.apply(member) != {}:
+                        fail()
+                else:
+                    if not symmetry.apply(member).allclose({}, rtol=0, atol=atol(member)):
+                        fail()
 
 
 def constrain_family(symmetries, family, sparse_linalg=False):
-- 
2.43.0


From d047657266cd818d74ac69825d64cfa356295a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:46 +0000
Subject: [PATCH 45/57] fix: printing of PointGroupElements with zero
 dimensional or non-orthogonal R
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Printing failed in zero dimensions, which also broke the error message of
check_symmetry. In a basis that is not orthonormal the name was wrong, for
example R(π/2) for a 3-fold rotation.
---
 qsymm/groups.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 6f75c57..dc10c57 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -903,6 +903,7 @@ def pretty_print_pge(g, full=False, latex=False):
         - `R(angle, axis)` for 3D rotation (axis is not normalized)
         - `M(normal)` for mirror
         - `S(angle, axis)` for 3D rotoinversion (axis is not normalized)
+        - the matrix if it is not orthogonal or has more than 3 dimensions
 
         `az_name` can be:
         - `T` for time-reversal (antiunitary symmetry)
@@ -930,7 +931,12 @@ def pretty_print_pge(g, full=False, latex=False):
         return angle
 
     R = np.array(g.R).astype(float)
-    if R.shape[0] == 1:
+    if R.shape[0] == 0:
+        rot_name = '1'
+    elif R.shape[0] > 3 or not np.allclose(R @ R.T, np.eye(R.shape[0])):
+        # Not a rotation in an orthonormal basis, or too many dimensions to name it
+        rot_name = _array_to_latex(R) if latex else str(R.tolist())
+    elif R.shape[0] == 1:
         if R[0, 0] == 1:
             rot_name = '1'
         else:
-- 
2.43.0


From b8768dd64c1b0d174ca1eaae75ca9e964cbcd01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 46/57] fix: bravais_point_group must not depend on the length
 unit

Lengths were compared with absolute tolerances, so lattice constants of 1e-3 or
less gave a wrong group or an AssertionError, large ones missed orthogonal
vectors.
---
 qsymm/symmetry_finder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index c9f7676..130f760 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -826,6 +826,9 @@ def bravais_point_group(periods, tr=False, ph=False, generators=False, verbose=F
 
     # get lll reduced basis
     periods, _ = lll(periods)
+    # The point group does not depend on the scale, choose it such that
+    # the absolute tolerances are small compared to the lattice constants
+    periods = periods / np.min(la.norm(periods, axis=1))
     # get nearest neighbors
     neighbors = voronoi(periods, reduced=True, rtol=1e-5) @ periods
     neighbors = neighbors[:len(neighbors)//2]
-- 
2.43.0


From d209e435bc09a33e01e6345a9e14221faed20380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:32 +0000
Subject: [PATCH 47/57] fix: lll returned bases that were not size reduced

---
 qsymm/kwant_linalg_lll.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/kwant_linalg_lll.py b/qsymm/kwant_linalg_lll.py
index 2f10c1e..d6b89cc 100644
--- a/qsymm/kwant_linalg_lll.py
+++ b/qsymm/kwant_linalg_lll.py
@@ -131,6 +131,9 @@ def lll(basis, c=1.34):
             if abs(u[i+1, i]) > 0.5:
                 ll_reduce(i+1)
             i = max(i-1, 0)
+    # The swaps may leave large coefficients behind.
+    for i in range(m):
+        ll_reduce(i)
     # TODO: change to rcond=None once we depend on numpy >= 1.14.
     coefs = np.linalg.lstsq(vecs_orig.T, vecs.T, rcond=-1)[0]
     if not np.allclose(np.round(coefs), coefs, atol=1e-6):
-- 
2.43.0


From a16cbcad5d451ef336179a8bd3c0c7cbbe7ec724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:30 +0000
Subject: [PATCH 48/57] fix: casimir misjudged whether the Killing form is
 singular

---
 qsymm/symmetry_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index 130f760..4e53c79 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -133,7 +133,7 @@ def killing(gens):
 def casimir(gens):
     # Calculate quadratic Casimir operator
     g = killing(gens)
-    if np.isclose(la.det(g), 0):
+    if len(nullspace(g)) > 0:
         raise ValueError('Lie-algebra not semisimple!')
     # 'ab,aik,bkj->ij'
     return np.tensordot(la.inv(g), gens.dot(gens), axes=((0, 1), (0, 2)))
-- 
2.43.0


From aabb13cec0186e6df4a6acf59bc6ad1047b436d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 49/57] fix: separate_lie_algebra did not return the semisimple
 part

---
 qsymm/symmetry_finder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index 4e53c79..9201d81 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -163,7 +163,14 @@ def separate_lie_algebra(gens):
         # Lapack guarantees that the SVD of a real matrix is real, this way
         # the generators stay Hermitian if they are such
         g = g.real
-    c, s = nullspace(g, return_complement=True)
+    c = nullspace(g)
+    # The semisimple part is spanned by the commutators, the orthogonal
+    # complement of the center in the space of coefficients is not an ideal
+    C = struct_const(gens).reshape(-1, len(gens))
+    if allclose(C, 1j * C.imag):
+        C = C.imag
+    _, s = nullspace(C, return_complement=True)
+    s = s.conj()
     # 'ab,bij->aij'
     gensc = np.tensordot(c, gens, axes=(1, 0))
     genss = np.tensordot(s, gens, axes=(1, 0))
-- 
2.43.0


From c9e8856264de8c9ff9b46134f0f76d0a1fe8f7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 50/57] fix: circular failed for class D with a single channel

---
 qsymm/kwant_rmt.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/qsymm/kwant_rmt.py b/qsymm/kwant_rmt.py
index bd37a4c..2535fc6 100644
--- a/qsymm/kwant_rmt.py
+++ b/qsymm/kwant_rmt.py
@@ -281,10 +281,7 @@ def circular(n, sym='A', charge=None, rng=None):
         if sym == 'DIII':
             det *= (-1) ** (n // 2)
         if (charge > 0) != (det > 0):
-            idx = np.arange(n)
-            idx[-1] -= 1
-            idx[-2] += 1
-            s = s[idx]
+            s[-1] *= -1
 
     # Add the proper time-reversal symmetry:
     if sym in ('AI', 'CI'):
-- 
2.43.0


From e3bfdd1be6412220f436dac3701fc15bc73ff976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 51/57] fix: rotation of a 2D generator was not printed on its
 own line

---
 qsymm/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index dc10c57..d347f28 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1062,7 +1062,7 @@ def pretty_print_cgg(g, latex=False):
         else:
             rot_name = '\nR_ϕ = R(ϕ, {})'.format(_round_axis(n))
     elif R is not None and R.shape[0] == 2:
-        rot_name = r'R_{{\phi}} = R\left(\phi\right)\\' if latex else 'R_ϕ = R(ϕ)\n'
+        rot_name = r'R_{{\phi}} = R\left(\phi\right)\\' if latex else '\nR_ϕ = R(ϕ)'
     else:
         rot_name = ''
 
-- 
2.43.0


From 239461ab553ddc377bc7415eb678cb34b9b6a761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 52/57] fix: lambdify failed if a function appears more than
 once

---
 qsymm/kwant_continuum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qsymm/kwant_continuum.py b/qsymm/kwant_continuum.py
index 7d16e30..5e67e30 100644
--- a/qsymm/kwant_continuum.py
+++ b/qsymm/kwant_continuum.py
@@ -101,8 +101,8 @@ def lambdify(expr, locals=None):
     """
     expr = sympify(expr, locals)
 
-    args = [s.name for s in expr.atoms(sympy.Symbol)]
-    args += [str(f.func) for f in expr.atoms(AppliedUndef, sympy.Function)]
+    args = {s.name for s in expr.atoms(sympy.Symbol)}
+    args |= {str(f.func) for f in expr.atoms(AppliedUndef, sympy.Function)}
 
     return sympy.lambdify(sorted(args), expr)
 
-- 
2.43.0


From 09e8da30cc7cad80be6f90878dfdce39e36c7180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 53/57] fix: prettified continuous symmetries of models with
 large values failed

---
 qsymm/symmetry_finder.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index 9201d81..3e53be2 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -749,6 +749,11 @@ def continuous_symmetries(model, Ps=None, prettify=True, num_digits=8, sparse_li
     if prettify:
         null_vecs = sparse_basis(null_vecs, reals=False, num_digits=num_digits)
 
+    # The precision of the solutions, and the resulting precision of the invariance
+    # of the model
+    precision = max(1e-6, 10.0**(-num_digits)) if prettify else 1e-6
+    atol = precision * max(1, la.norm(constraints))
+
     # Build the symmetry generator
     symmetries = []
     for v in null_vecs:
@@ -767,7 +772,7 @@ def continuous_symmetries(model, Ps=None, prettify=True, num_digits=8, sparse_li
         symmetries.append(g)
         # Check that it is a symmetry
         trf = g.apply(model)
-        assert trf.allclose(0, atol=1e-6), (trf, g)
+        assert trf.allclose(0, atol=atol), (trf, g)
     return PrettyList(symmetries)
 
 
-- 
2.43.0


From 73b83c06f9ce8e231475358ca208b8d7a552a89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 54/57] fix: copies of sparse Models shared the data of the
 original

---
 qsymm/model.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 6dc901b..1ff7672 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -1,5 +1,5 @@
 from itertools import product
-from copy import copy
+from copy import copy as shallow_copy
 from numbers import Number
 from warnings import warn
 from functools import lru_cache
@@ -23,6 +23,14 @@ e = kwant_continuum.e
 I = sympy.I  # noqa: E741
 
 
+def copy(value):
+    """Copy of a value that does not share data with the original."""
+    # A shallow copy of a sparse matrix refers to the data of the original.
+    if scipy.sparse.issparse(value):
+        return value.copy()
+    return shallow_copy(value)
+
+
 def substitute_exponents(expr):
     """Substitute trignometric functions with exp.
 
-- 
2.43.0


From f6e8c444337bd5395b4459f95e986614a056b417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:12 +0000
Subject: [PATCH 55/57] fix: constrain_family returned the Models it was given

---
 qsymm/hamiltonian_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index ef91156..c414059 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -405,7 +405,7 @@ def constrain_family(symmetries, family, sparse_linalg=False):
         family with the symmetry constraints applied. """
 
     if not family:
-        return family
+        return []
     # Fix ordering
     family = list(family)
     symmetries = list(symmetries)
@@ -449,7 +449,7 @@ def constrain_family(symmetries, family, sparse_linalg=False):
     constraint_matrix = np.vstack(constraint_matrices)
     # If it is empty, there are no constraints
     if not np.any(constraint_matrix):
-        return family
+        return [term.copy() for term in family]
     # ROWS of this matrix are the basis vectors
     null_basis = nullspace(constraint_matrix, sparse=sparse_linalg)
 
-- 
2.43.0


From 9eb459fc9b19e05e91d2365dab0c99f7cac7dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 56/57] fix: subtract_family returned the Models it was given

---
 qsymm/hamiltonian_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index c414059..893bfcd 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -544,7 +544,7 @@ def subtract_family(family1, family2, tol=1e-8, prettify=False):
         family1 with the span of family2 removed.
     """
     if not family1 or not family2:
-        return family1
+        return [term.copy() for term in family1]
     # Convert to vectors
     all_keys = set.union(*[set(term.keys()) for term in family1])
     all_keys |= set.union(*[set(term.keys()) for term in family2])
-- 
2.43.0


From 9319dbf2d3c9ce4ac3d33fbd84d128ea0c29fc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 57/57] fix: inverse of exact rotations grew with every
 inversion and lost all digits

---
 qsymm/groups.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index d347f28..e7778a7 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -49,7 +49,8 @@ def _inv(R):
     elif isinstance(R, ta.ndarray_float):
         Rinv = ta.array(la.inv(R))
     elif is_sympy_matrix(R):
-        Rinv = R**(-1)
+        # Avoid division by expressions which only cancel in the determinant
+        Rinv = R.inv(method='ADJ').expand()
     else:
         raise ValueError('Invalid rotation matrix.')
     return Rinv
-- 
2.43.0

