From 2581c7d7569f60e7fdfba60d0ad5c3170475cc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 01/97] fix: sparse row/column helpers accept scipy sparse
 arrays, not only matrices

---
 funpy/colloc/sparse/csc.py | 6 +++---
 funpy/colloc/sparse/csr.py | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/funpy/colloc/sparse/csc.py b/funpy/colloc/sparse/csc.py
index f2c5ceb..8d23fa6 100644
--- a/funpy/colloc/sparse/csc.py
+++ b/funpy/colloc/sparse/csc.py
@@ -19,7 +19,7 @@ import scipy.sparse as sps
 
 
 def delete_col_csc(mat, i):
-    if not isinstance(mat, sps.csc_matrix):
+    if not (sps.issparse(mat) and mat.format == 'csc'):
         raise ValueError("Work only for CSC format -- use .tocsc() first!")
     n = mat.indptr[i+1] - mat.indptr[i]
     if n > 0:
@@ -37,7 +37,7 @@ def delete_cols_csc(mat, indices):
     """
         Deletes rows in indices from a csc sparse matrix
     """
-    if not isinstance(mat, sps.csc_matrix):
+    if not (sps.issparse(mat) and mat.format == 'csc'):
         raise ValueError("Work only for CSC format -- use .tocsc() first!")
     if not (isinstance(indices, list) or isinstance(indices, np.ndarray)):
         indices = [indices]
@@ -50,7 +50,7 @@ def eliminate_zeros_csc(mat, eps=None):
     """
         Eliminates matrix values that are below machine precision
     """
-    if not isinstance(mat, sps.csc_matrix):
+    if not (sps.issparse(mat) and mat.format == 'csc'):
         raise ValueError("Work only for CSC format -- use .tocsc() first!")
 
     if eps is None:
diff --git a/funpy/colloc/sparse/csr.py b/funpy/colloc/sparse/csr.py
index 704e974..54c80cb 100644
--- a/funpy/colloc/sparse/csr.py
+++ b/funpy/colloc/sparse/csr.py
@@ -9,7 +9,7 @@ def csr_vappend(a, b):
     """ Takes in 2 csr_matrices and appends the second one to the bottom of the first one.
     Much faster than scipy.sparse.vstack but assumes the type to be csr and overwrites
     the first matrix instead of copying it. The data, indices, and indptr still get copied."""
-    if not isinstance(a, sps.csr_matrix) or not isinstance(b, sps.csr_matrix):
+    if not all(sps.issparse(x) and x.format == 'csr' for x in (a, b)):
         raise ValueError("Work only for CSR format -- use .tocsr() first!")
     a.data = np.hstack((a.data,b.data))
     a.indices = np.hstack((a.indices,b.indices))
@@ -19,7 +19,7 @@ def csr_vappend(a, b):
 
 
 def delete_row_csr(mat, i):
-    if not isinstance(mat, sps.csr_matrix):
+    if not (sps.issparse(mat) and mat.format == 'csr'):
         raise ValueError("Work only for CSR format -- use .tocsr() first!")
     n = mat.indptr[i+1] - mat.indptr[i]
     if n > 0:
@@ -37,7 +37,7 @@ def delete_rows_csr(mat, indices):
     """
         Deletes rows in indices from a csr sparse matrix
     """
-    if not isinstance(mat, sps.csr_matrix):
+    if not (sps.issparse(mat) and mat.format == 'csr'):
         raise ValueError("Work only for CSR format -- use .tocsr() first!")
     indices = list(indices)
     mask = np.ones(mat.shape[0], dtype=bool)
@@ -49,7 +49,7 @@ def eliminate_zeros(mat, eps=None):
     """
         Eliminates matrix values that are below machine precision
     """
-    if not (isinstance(mat, sps.csr_matrix) or isinstance(mat, sps.csc_matrix)):
+    if not (sps.issparse(mat) and mat.format in ('csr', 'csc')):
         raise ValueError("Work only for CSR / CSC format -- use .tocsr() or .tocsc() first!")
 
     if eps is None:
-- 
2.43.0


From 1e7666ffacd000ecae400ad40ba1770f46589699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 02/97] fix: delete_row_csr dropped the wrong column indices

---
 funpy/colloc/sparse/csr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/sparse/csr.py b/funpy/colloc/sparse/csr.py
index 54c80cb..72b1d2f 100644
--- a/funpy/colloc/sparse/csr.py
+++ b/funpy/colloc/sparse/csr.py
@@ -26,7 +26,7 @@ def delete_row_csr(mat, i):
         mat.data[mat.indptr[i]:-n] = mat.data[mat.indptr[i+1]:]
         mat.data = mat.data[:-n]
         mat.indices[mat.indptr[i]:-n] = mat.indices[mat.indptr[i+1]:]
-        mat.indices = mat.indices[i+1:]
+        mat.indices = mat.indices[:-n]
     mat.indptr[i:-1] = mat.indptr[i+1:]
     mat.indptr[i:] -= n
     mat.indptr = mat.indptr[:-1]
-- 
2.43.0


From 38e5c7d376c13c877f07b33de2a6b85ff2626947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 03/97] fix: RectangularProjection initialises its
 LinearOperator base (pylops keeps shape read-only)

---
 funpy/colloc/projection.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/colloc/projection.py b/funpy/colloc/projection.py
index be2e350..315012f 100644
--- a/funpy/colloc/projection.py
+++ b/funpy/colloc/projection.py
@@ -16,8 +16,7 @@ class RectangularProjection(LinearOperator):
         self.adj = adjoint
 
         # Basic setup for the linear operator
-        self.shape = self.mat.shape
-        self.dtype = np.dtype(dtype)
+        super().__init__(dtype=np.dtype(dtype), shape=self.mat.shape)
         self.explicit = False
 
     def _matvec(self, x):
-- 
2.43.0


From 9cd401f26dcd7c51fb16e157e5f343ae6b1a69dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 04/97] fix: exact linear solver recognises pylops operators
 that no longer subclass scipy's

---
 funpy/linalg/exact_linear_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/linalg/exact_linear_solver.py b/funpy/linalg/exact_linear_solver.py
index 7e36bf7..e91da12 100644
--- a/funpy/linalg/exact_linear_solver.py
+++ b/funpy/linalg/exact_linear_solver.py
@@ -18,7 +18,7 @@ class ExactLinearSolver:
         self.to_fun = to_fun
 
         # Is the matrix sparse?
-        if isinstance(A, LAS.LinearOperator): A = A.to_matrix()
+        if hasattr(A, 'to_matrix'): A = A.to_matrix()
         sparse = sps.issparse(A)
 
         # What linear method are we using?
-- 
2.43.0


From ce57cd2570154075ae56023c53ac732d21833b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 05/97] fix: Frechet operator no longer calls a private scipy
 sparse method that is gone

---
 funpy/newton/FrechetDeflated.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/funpy/newton/FrechetDeflated.py b/funpy/newton/FrechetDeflated.py
index 8f7e5b5..ab7bed9 100644
--- a/funpy/newton/FrechetDeflated.py
+++ b/funpy/newton/FrechetDeflated.py
@@ -50,17 +50,17 @@ class FrechetDeflated(LinearOperator):
         """
         # If no known solutions we bail and simply compute the regular part
         if self.functional is None:
-            return self.mat._mul_vector(x)
+            return self.mat.dot(x)
 
         # Compute the derivative of eta
         deta = self.functional(x)
 
         # The b here should be just F(u)
-        return self.eta * self.mat._mul_vector(x) + self.b * deta
+        return self.eta * self.mat.dot(x) + self.b * deta
 
     def _rmatvec(self, y):
         assert False, ''
-        return self.eta * self.adj._mul_vector(y)
+        return self.eta * self.adj.dot(y)
 
     def to_matrix(self):
         """ Faster than tosparse -> since whenever we are not deflating we
-- 
2.43.0


From 8fceea1d4d06d9e0c4e11bed150017e71a4c6d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 06/97] fix: giant_gbit returned the iterate without the
 accepted step

---
 funpy/newton/giant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/newton/giant.py b/funpy/newton/giant.py
index bac7cbc..ab3626a 100644
--- a/funpy/newton/giant.py
+++ b/funpy/newton/giant.py
@@ -198,7 +198,7 @@ def giant_gbit(NewtonSystem, x, tol=1e6 * np.finfo(float).eps,
             lam_new = min(1.0, 1.0 / (hk * (1.0 + rho)))
             if lam == 1.0 and lam_new == 1.0:
                 if normdxbar <= xtol:
-                    x += dxbar
+                    x = xkp1 + dxbar
                     precision = normdxbar
                     # RETURN SUCCESS
                     rcode = 0
-- 
2.43.0


From ec714a1d5cb273009b56c68f00affe62a60dd5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 07/97] fix: domain check of function arithmetic missed domains
 that end below the other's

---
 funpy/fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 77e29e3..10d783b 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -171,7 +171,7 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
 
             # check domain
             if isinstance(x, type(self)):
-                if not np.all(np.asarray(x.domain) - np.asarray(self.domain) < SMALL_EPS):
+                if not np.all(np.abs(np.asarray(x.domain) - np.asarray(self.domain)) < SMALL_EPS):
                     raise ValueError("Domain mismatch %s != %s!" % (x.domain, self.domain))
 
         if method == "__call__":
-- 
2.43.0


From e246b241d138d92ae4c777d1eeb500a05d0c14db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 08/97] fix: deep copies lost the horizontal scale

---
 funpy/cheb/chebtech.py | 2 +-
 funpy/trig/trigtech.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 553f80d..513c24a 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -87,7 +87,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
         if _copy is None:
             _copy = type(self)(
                 coeffs=deepcopy(self.coeffs),
-                eps=self.eps, hscale=self.eps,
+                eps=self.eps, hscale=self.hscale,
                 maxLength=self.maxLength,
                 simplify=False,
                 ishappy=self.ishappy)
diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 34f0dce..a5f351c 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -112,7 +112,7 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
             _copy = type(self)(
                 coeffs=deepcopy(self.coeffs),
                 values=deepcopy(self.values),
-                eps=self.eps, hscale=self.eps,
+                eps=self.eps, hscale=self.hscale,
                 maxLength=self.maxLength,
                 ishappy=self.ishappy,
                 isreal=self.isReal)
-- 
2.43.0


From 8a6d796c2e5441e6a08bfc26253156a1376b0ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 09/97] fix: unary plus and first power aliased their operand

---
 funpy/cheb/ufuncs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 6167917..8c4c4ba 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -26,7 +26,7 @@ def negative(x, **kwargs):
                        maxLength=x.maxLength, ishappy=x.ishappy)
 
 def positive(x, **kwargs):
-    return x
+    return np.copy(x)
 
 def absolute(x, **kwargs):
     return chebtech(op=lambda y: np.abs(x(y)), minSamples=x.n,
@@ -40,7 +40,7 @@ def power(x1, x2, **kwargs):
     if isinstance(x2, Number):
         # Do nothing just return the function
         if x2 == 1.0:
-            return x1
+            return np.copy(x1)
         return chebtech(op=lambda x: np.float_power(x1(x), x2), minSamples=x1.n, eps=x1.eps)
     else:
         return NotImplemented
-- 
2.43.0


From 43267193adfbad0b436599b5567c5b91ceba6f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 10/97] fix: addition into an output function used the output's
 old value and changed its operands

---
 funpy/cheb/ufuncs.pyx | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 8c4c4ba..db96c57 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -53,10 +53,7 @@ def add(x1, x2, **kwargs):
     out = kwargs.get('out', None)
     if isinstance(x2, Number) or isinstance(x2, np.ndarray):
         # get the coefficients of x1
-        if out is not None:
-            c = out[0].coeffs
-        else:
-            c = np.copy(x1.coeffs, order='F')
+        c = np.copy(x1.coeffs, order='F')
 
         other = np.asanyarray(x2, order='F')
 
@@ -84,20 +81,12 @@ def add(x1, x2, **kwargs):
         nf = x1.n
         no = x2.n
 
-        if out is not None:
-            if nf > no:
-                x2.prolong(nf)
-            elif nf < no:
-                x1.prolong(no)
-            c = out[0].coeffs
-            oc = x2.coeffs
-        else:
-            c = np.copy(x1.coeffs, order='F')
-            oc = x2.coeffs
-            if nf > no:
-                oc = detail.prolong(oc, nf)
-            elif nf < no:
-                c = detail.prolong(c, no)
+        c = np.copy(x1.coeffs, order='F')
+        oc = x2.coeffs
+        if nf > no:
+            oc = detail.prolong(oc, nf)
+        elif nf < no:
+            c = detail.prolong(c, no)
 
         # update values and coefficients
         c += oc
@@ -119,6 +108,7 @@ def add(x1, x2, **kwargs):
 
     # Create the new function
     if out is not None:
+        out[0].coeffs = c
         out[0].ishappy = ishappy
         out[0].eps = eps
         return out[0]
-- 
2.43.0


From 232823fc6923023ae34b3574c255f858c92a2981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 11/97] fix: division into an output function used the output's
 old value

---
 funpy/cheb/ufuncs.pyx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index db96c57..24b15e1 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -281,10 +281,7 @@ def true_divide(x1, x2, **kwargs):
             return NotImplemented
 
     # We know must have that x1 is a chebtech object.
-    if out is not None:
-        c = out[0].coeffs
-    else:
-        c = np.copy(x1.coeffs)
+    c = np.copy(x1.coeffs)
 
     # Deal with the division!
     if isinstance(x2, Number):
@@ -308,6 +305,7 @@ def true_divide(x1, x2, **kwargs):
         return NotImplemented
 
     if out is not None:
+        out[0].coeffs = c
         out[0].eps = eps
         return out[0]
     else:
-- 
2.43.0


From 9cefb436eb8e37c73b48f67a5df36fdafb6865fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 12/97] fix: multiplication by array-valued constant functions
 raised an assertion

---
 funpy/cheb/ufuncs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 24b15e1..ef3c525 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -190,8 +190,8 @@ def multiply(x1, x2, **kwargs):
             x2 = np.expand_dims(x2, axis=1)
 
         # Otherwise the shape of the ndarray must be the same as
-        # for the coefficients
-        assert x1.shape == x2.shape, 'Shape %s and %s mismatch!' % (x1.shape, x2.shape)
+        # for the coefficients (or be a single row: one factor per column)
+        assert x1.shape == x2.shape or x2.shape == (1, x1.m), 'Shape %s and %s mismatch!' % (x1.shape, x2.shape)
 
         # multiply the coefficients
         if out is not None:
-- 
2.43.0


From bedd748fd4b6ac70998f220ddeb713d8d93e55d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 13/97] fix: definite integral of a constant function had one
 dimension too many

---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 513c24a..716817b 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -517,7 +517,7 @@ def sum(cheb, axis=0, **kwargs):
 
     # Constant cheb function
     if n == 1:
-        return 2 * cheb.coeffs
+        return (2 * cheb.coeffs).squeeze()
 
     # Evaluate the integral by using the Chebyshev coefficients
     #
-- 
2.43.0


From 9ded0ffce6d751717dd6cf89bdca02e34cbfa6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 14/97] fix: restriction of single-column functions raised,
 several sub-intervals were mixed up

---
 funpy/cheb/chebtech.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 716817b..c7cb081 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -313,6 +313,9 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
         y = 0.5 * np.vstack((1-self.x, 1+self.x)).T @ np.vstack((s[:-1], s[1:]))  # new grid
         values = self.feval(y.flatten())  # values on new grid
 
+        # one column per sub-interval and function
+        values = np.reshape(values, (n, numInts * m))
+
         # must rearrange the order of columns
         if m > 1:
             numCols = m * numInts
@@ -320,7 +323,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
             values = values[:, index]
 
         # generate new coefficients
-        coeffs = polyfit(values)
+        coeffs = polyfit(np.asfortranarray(values))
         return chebtech(coeffs=coeffs, eps=self.eps, simplify=False,
                        maxLength=self.maxLength, ishappy=self.ishappy,
                        hscale=self.hscale)
-- 
2.43.0


From 79089d640bbabec526b53db98c709ab131e2ae8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 15/97] fix: QR factorisation failed for one column and changed
 its argument

---
 funpy/cheb/qr.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/funpy/cheb/qr.py b/funpy/cheb/qr.py
index deb0f5f..fc8d21a 100644
--- a/funpy/cheb/qr.py
+++ b/funpy/cheb/qr.py
@@ -5,7 +5,7 @@ import numpy as np
 import scipy.linalg as LA
 
 from .pts import chebpts
-from .detail import polyfit
+from .detail import polyfit, polyval
 
 from ..qr import abstractQR
 
@@ -21,17 +21,15 @@ def qr(f, eps=1.48e-8):
 
     # If it contains only one column we simply scale
     if m == 1:
-        R = np.sqrt(f.innerproduct(f))
-        Q = f/R
-        return Q, R
+        R = np.sqrt(np.inner(f, f)).reshape((1, 1))
+        return f.coeffs / R.item(), R
 
     tol = eps * np.max(f.vscale)
 
     # make discrete analog of f
     newN = 2 * max(n, m)
     # get values?
-    f.prolong(newN)
-    A = f.values
+    A = np.copy(polyval(f.prolong_coeffs(newN)))
 
     # Get the chebyshev points
     x, w, _, _ = chebpts(newN)
-- 
2.43.0


From 888e098166fc849ecf70baf2beb5f99c3ed6631f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 16/97] fix: roots of linear pieces outside the domain were
 reported

---
 funpy/cheb/detail.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index 7860fd6..82c0923 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -529,11 +529,11 @@ def roots_main(c, htol, splitPoint, eps=1.48e-8,
     elif n == 2:
         r = [-c[0] / c[1]]
 
-        if all_roots:
-            if np.abs(np.imag(r)) > htol or (r < -(1 + htol)) or (r > (1 + htol)):
+        if not all_roots:
+            if np.abs(np.imag(r[0])) > htol or (r[0] < -(1 + htol)) or (r[0] > (1 + htol)):
                 r = []
             else:
-                r = [max(min(np.real(r), 1), -1)]
+                r = [max(min(np.real(r[0]), 1), -1)]
 
     elif n <= maxEigSize:
         # Adjust the coefficients for the colleague matrix:
-- 
2.43.0


From 075c40c4f102de40b8b0ca8ad74c8a14c76873e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 17/97] fix: adaptive sampling on fewer than 17 points always
 declared convergence (wrong quotients and powers of short functions)

---
 funpy/cheb/chebtech.py | 2 +-
 funpy/cheb/refine.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index c7cb081..58dbe5b 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -52,7 +52,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
                 if isinstance(op, RefineBase):
                     self.populate(op)
                 else:  # Assume that it's a lambda -> TODO check that
-                    refine = Refine(op=op, minSamples=min(self.maxLength, kwargs.pop('minSamples', 17)),
+                    refine = Refine(op=op, minSamples=min(self.maxLength, max(17, kwargs.pop('minSamples', 17))),
                                     strategy=kwargs.pop('resample', 'nested'))
                     self.populate(refine)
 
diff --git a/funpy/cheb/refine.py b/funpy/cheb/refine.py
index f6d2d7c..fc00118 100644
--- a/funpy/cheb/refine.py
+++ b/funpy/cheb/refine.py
@@ -25,7 +25,7 @@ class FunctionContainer:
 """ Base class for resampling and refining operations  """
 class RefineBase:
     def __init__(self, op, *args, **kwargs):
-        self.minSamples = max(9, kwargs.pop('minSamples', 9))
+        self.minSamples = max(9, kwargs.pop('minSamples', 17))
         self.op = op
         self.strategy = kwargs.pop('strategy', 'nested')
         self.values = np.zeros((0,0), order='F')
-- 
2.43.0


From 3c1d32c4b921233bb3589e1b3b307b3a4c07d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 18/97] fix: adaptive sampling of periodic functions dropped
 negative frequencies

---
 funpy/trig/trigtech.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index a5f351c..7c4184c 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -332,8 +332,7 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         ishappy = np.zeros(m).astype(bool)
         cutoff = np.zeros(m).astype(int)
         for k in range(m):
-            # FIXME!
-            cutoff[k] = standardChopCmplx(np.asfortranarray(self.coeffs[:, k]), tol[k])
+            cutoff[k] = standardChopCmplx(coeffs[:, k].astype(complex), tol[k])
             # check if happy - TODO: check this for numpy adaptation
             ishappy[k] = (cutoff[k] < n)
 
-- 
2.43.0


From 94b5fd6b814970894b0d1192e12209da872ae708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 19/97] fix: evaluating a periodic function with an even number
 of coefficients changed it

---
 funpy/trig/eval.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/funpy/trig/eval.py b/funpy/trig/eval.py
index 98ee671..360b4d1 100644
--- a/funpy/trig/eval.py
+++ b/funpy/trig/eval.py
@@ -65,9 +65,8 @@ def horner_scl_real(x, c):
     # Get all negative indexed coefficients so that the constant is the first term
     n = ceil((N+1)/2)
     c = c[n-1::-1, :]
-    a = np.real(c)
-    b = np.imag(c)
-    b.flags.writeable = True
+    a = np.copy(np.real(c))
+    b = np.copy(np.imag(c))
 
     if np.remainder(N, 2) == 0:
         a[n-1] *= 0.5
@@ -96,8 +95,8 @@ def horner_vec_real(x, c):
     # Get all negative indexed coefficients so that the constant term is the first term
     n = ceil((N+1)/2)
     c = c[n-1::-1, :]
-    a = np.real(c)
-    b = np.imag(c)
+    a = np.copy(np.real(c))
+    b = np.copy(np.imag(c))
     e = np.ones((nValsX, 1))
 
     if np.remainder(N, 2) == 0:
-- 
2.43.0


From 59734adfc9ca6d4c58a5cfd1abaa72a80de3f569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 20/97] fix: real part of periodic functions with negative real
 part was zero

---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 7c4184c..5b98583 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -514,7 +514,7 @@ def real(trig):
         return trig
 
     fvalues = np.real(trig.values)
-    if np.all(fvalues < trig.eps):
+    if np.all(np.abs(fvalues) < trig.eps):
         nisReal = np.ones(trig.m).astype(bool)
         return trigtech(values=np.zeros_like(trig.values),
                         coeffs=np.zeros_like(trig.coeffs),
-- 
2.43.0


From 21d71a94c67acaf65b1ed23444086124aa7fdb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 21/97] fix: complex conjugate of a complex periodic function
 was the function itself

---
 funpy/trig/trigtech.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 5b98583..9c6cdaa 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -549,15 +549,12 @@ def imag(trig):
 
 @implements(np.conj)
 def conj(trig):
-    id = ~trig.isReal
-    if np.all(id):
+    if trig.isreal:
         return trig
 
     # other wise construct a new trigtech
-    values = np.copy(trig.values)
-    coeffs = np.copy(trig.coeffs)
-    values[:, id] = np.conj(values[:, id])
-    coeffs[:, id] = np.flipud(np.conj(coeffs[:, id]))
+    values = np.conj(trig.values)
+    coeffs = vals2coeffs(values)
     return trigtech(values=values, coeffs=coeffs, ishappy=trig.ishappy,
                     simplify=False, isreal=trig.isReal)
 
-- 
2.43.0


From e57ce9036d1f22b073681d6bfcfd6dad4c79b5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 22/97] fix: squaring a periodic function raised

---
 funpy/trig/ufuncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 96d72f9..e7dbbce 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -259,7 +259,7 @@ def multiply(x1, x2, **kwargs):
         # multiply values
         if x1 == x2:
             v = np.power(nvals, 2)
-            if x1.isreal():
+            if x1.isreal:
                 pos = True
 
         elif np.conj(x1) == x2:
@@ -283,7 +283,7 @@ def multiply(x1, x2, **kwargs):
             # when the product should be positive make sure it is after call to simplify
             v = np.abs(v)
             c = vals2coeffs(v)
-            is_real = np.ones((1, c.shape[1])).astype(bool)
+            is_real = np.ones(c.shape[1]).astype(bool)
         else:
             is_real = x1.isreal and x2.isreal
 
-- 
2.43.0


From c7a5d9783d62a192136b7fb13a448a725d336ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 23/97] fix: multiplying periodic functions changed an operand

---
 funpy/trig/ufuncs.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index e7dbbce..51ac980 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -192,20 +192,14 @@ def multiply(x1, x2, **kwargs):
 
         # Otherwise the shape of the ndarray must be the same as
         # for the coefficients
-        assert x1.shape == x2.shape, 'Shape %s and %s mismatch!' % (x1.shape, x2.shape)
-
-        if out is not None:
-            c = out[0].coeffs
-            v = out[0].values
-        else:
-            c = x1.coeffs
-            v = x1.values
+        # (or be a single row: one factor per column)
+        assert x1.shape == x2.shape or x2.shape == (1, x1.m), 'Shape %s and %s mismatch!' % (x1.shape, x2.shape)
 
         # multiply the coefficients
-        c *= x2
-        v *= x2
+        c = x1.coeffs * x2
+        v = coeffs2vals(c)
 
-        is_real = x1.isreal and np.isreal(x2)
+        is_real = x1.isreal and np.all(np.isreal(x2))
         ishappy = x1.ishappy
 
     # If one of the arguments is a chebtech -> map everything to a chebtech and then map back!
@@ -247,8 +241,8 @@ def multiply(x1, x2, **kwargs):
                 ncoeffs = np.tile(ncoeffs, (1, gm))
             elif gm == 1:
                 # Allow [inf x m] .* [Inf x 1]
-                x2.values = np.tile(x2.values, (1, fm))
-                x2.coeffs = np.tile(x2.coeffs, (1, fm))
+                x2 = trigtech(values=np.tile(x2.values, (1, fm)), coeffs=np.tile(x2.coeffs, (1, fm)),
+                              simplify=False, ishappy=x2.ishappy)
             else:
                 assert False, 'Inner matrix dimensions must agree!'
 
-- 
2.43.0


From 43c08965f14cf0b69bffef1256c3ea6b64592b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 24/97] fix: in-place multiplication of periodic functions kept
 a stale output value and reality flag

---
 funpy/trig/ufuncs.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 51ac980..06cab73 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -167,13 +167,8 @@ def multiply(x1, x2, **kwargs):
     out = kwargs.pop('out', None)
     if isinstance(x2, Number):
         # get the coefficients of x1
-        if out is not None:
-            c = out[0].coeffs
-            v = out[0].values
-        else:
-            # FIXME???
-            c = np.copy(x1.coeffs, order='F').astype(complex)
-            v = np.copy(x1.values, order='F').astype(complex)
+        c = np.copy(x1.coeffs, order='F').astype(complex)
+        v = np.copy(x1.values, order='F').astype(complex)
 
         # update coefficients
         c *= x2
@@ -291,6 +286,7 @@ def multiply(x1, x2, **kwargs):
         out[0].ishappy = ishappy
         out[0].coeffs = c
         out[0].values = v
+        out[0].isReal = out[0].get_isreal(np.maximum(out[0].vscale, out[0].get_vscale()))
         return out[0]
     else:
         return trigtech(values=v, coeffs=c, simplify=True,
-- 
2.43.0


From 590e7de1b9f8cc7264fd101389e9a1900297c191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 25/97] fix: dividing a number by a periodic function inverted
 the quotient

---
 funpy/trig/ufuncs.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 06cab73..1a870f2 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -296,17 +296,24 @@ def divide(x1, x2, **kwargs):
     return true_divide(x1, x2, **kwargs)
 
 def true_divide(x1, x2, **kwargs):
-    # if we have one element that is a ndarray or Number we want that to be x2!
-    if isinstance(x1, (np.ndarray, Number)):
-        return divide(x2, x1, **kwargs)
-
+    # Deal with assignment operators
     out = kwargs.pop('out', None)
-    if out is not None:
-        c = out[0].coeffs
-        v = out[0].values
-    else:
-        c = np.copy(x1.coeffs)
-        v = np.copy(x1.values)
+    if isinstance(x1, Number):
+        fun = trigtech(op=lambda x: np.divide(x1, x2(x)), minSamples=2 * x2.n)
+        if out is not None:
+            out[0].values = fun.values
+            out[0].coeffs = fun.coeffs
+            out[0].isReal = fun.isReal
+            return out[0]
+        return fun
+    elif isinstance(x1, np.ndarray):
+        if x1.size == 1:
+            return true_divide(x1.item(), x2)
+        else:
+            return NotImplemented
+
+    c = np.copy(x1.coeffs)
+    v = np.copy(x1.values)
 
     if isinstance(x2, Number):
         c /= x2
@@ -325,13 +332,16 @@ def true_divide(x1, x2, **kwargs):
         if out is not None:
             out[0].values = fun.values
             out[0].coeffs = fun.coeffs
+            out[0].isReal = fun.isReal
             return out[0]
         return fun
     else:
         return NotImplemented
 
     if out is not None:
-        # out[0].values = v
+        out[0].values = v
+        out[0].coeffs = c
+        out[0].isReal = out[0].get_isreal(np.maximum(out[0].vscale, out[0].get_vscale()))
         return out[0]
     else:
         return trigtech(coeffs=c, values=v, ishappy=x1.ishappy, isreal=x1.isReal)
-- 
2.43.0


From aa1a9380b401079fd6166d9c493f6d5d73a4a3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 26/97] fix: adding periodic functions into an output used its
 old value and changed the operands

---
 funpy/trig/ufuncs.py | 64 ++++++++++++++------------------------------
 1 file changed, 20 insertions(+), 44 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 1a870f2..dcac38c 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -46,17 +46,15 @@ def add(x1, x2, **kwargs):
     out = kwargs.pop('out', None)
     if isinstance(x2, Number) or isinstance(x2, np.ndarray):
         # get the coefficients of x1
-        if out is not None:
-            c = out[0].coeffs
-            v = out[0].values
-        else:
-            c = np.copy(x1.coeffs, order='F')
-            v = np.copy(x1.values, order='F')
+        c = np.copy(x1.coeffs, order='F')
+        v = np.copy(x1.values, order='F')
 
         other = np.asanyarray(x2, order='F')
+        if other.ndim == 1:  # one constant per column
+            other = np.expand_dims(other, axis=0)
 
         # simply add to the values
-        v += other
+        v = v + other
 
         # Update coefficients
         if other.shape and other.shape[1] > 1 and x1.m == 1:
@@ -73,7 +71,7 @@ def add(x1, x2, **kwargs):
 
         # update is real
         # TODO FIX THE EPS HERE!
-        is_real = x1.isReal & np.all(np.imag(other) < 1e-14)
+        is_real = x1.isReal & np.all(np.abs(np.imag(other)) < 1e-14)
 
         # Don't I need to do this?
         ishappy = x1.ishappy
@@ -89,39 +87,18 @@ def add(x1, x2, **kwargs):
         nf = x1.n
         no = x2.n
 
-        if out is not None:
-            if nf > no:
-                x2.prolong(nf)
-            elif nf < no:
-                x1.prolong(no)
-
-            c = out[0].coeffs
-            v = out[0].values
-            # print('out!')
-            # print('v = ', v.dtype, ' out = ', out[0].values.dtype)
-
-            oc = x2.coeffs
-            ov = x2.values
-        else:
-            # FIXME - I shouldn't need any of these silly type conversions!
-            c = np.copy(x1.coeffs, order='F').astype(complex)
-            v = np.copy(x1.values, order='F').astype(complex)
-
-            oc = x2.coeffs
-            ov = x2.values
-            if nf > no:
-                oc, ov = prolong(oc, nf, x2.isReal)
-            elif nf < no:
-                c, v = prolong(c, no, x1.isReal)
+        # FIXME - I shouldn't need any of these silly type conversions!
+        c = np.copy(x1.coeffs, order='F').astype(complex)
+        v = np.copy(x1.values, order='F').astype(complex)
 
-            # print('not out!')
+        oc = x2.coeffs
+        ov = x2.values
+        if nf > no:
+            oc, ov = prolong(oc, nf, x2.isReal)
+        elif nf < no:
+            c, v = prolong(c, no, x1.isReal)
 
         # Get the new values
-        # print('out = ', out)
-        # if out is not None:
-        #     print('out = ', out[0].values.dtype)
-        # print('ov=', ov.dtype)
-        # print('v=', v.dtype)
         v += ov
 
         # update is real
@@ -131,16 +108,13 @@ def add(x1, x2, **kwargs):
         v[:, is_real] = np.real(v[:, is_real])
 
         # update the coefficients
-        if out is not None:
-            out[0].coeffs = vals2coeffs(v)
-        else:
-            c = vals2coeffs(v)
+        c = vals2coeffs(v)
 
         # Look for zero output - TODO check that i don't do this before updating c!
         if ~np.any(v) or ~np.any(c):
             # create a zero trigtech
-            c = np.zeros((1, v.shape[1]))
-            v = np.zeros((1, v.shape[1]))
+            c = np.zeros((1, v.shape[1]), dtype=complex)
+            v = np.zeros((1, v.shape[1]), dtype=complex)
             ishappy = x1.ishappy
         else:
             ishappy = x1.ishappy and x2.ishappy
@@ -151,6 +125,8 @@ def add(x1, x2, **kwargs):
     # Create the new function
     if out is not None:
         out[0].ishappy = ishappy
+        out[0].coeffs = c
+        out[0].values = v
         out[0].isReal = is_real
         return out[0]
     else:
-- 
2.43.0


From db4e43356c963b7885121c47fd2a2a8781c6c4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 27/97] fix: a number raised to a periodic function swapped
 base and exponent

---
 funpy/trig/ufuncs.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index dcac38c..06241d0 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -29,9 +29,8 @@ def fabs(x, **kwargs):
                     simplify=False, ishappy=x.ishappy, isreal=x.isReal)
 
 def power(x1, x2, **kwargs):
-    # if we have one element that is a ndarray or Number we want that to be x2!
     if isinstance(x1, Number):
-        return power(x2, x1)
+        return trigtech(op=lambda x: np.power(x1, x2(x)), minSamples=2 * x2.n)
 
     if isinstance(x2, Number):
         return trigtech(op=lambda x: np.power(x1(x), x2), minSamples= 2* x1.n)
-- 
2.43.0


From a3508b218ebaa0741af81d863666d9bfadbe3d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 28/97] fix: copies of periodic functions raised, unary plus
 aliased its operand

---
 funpy/trig/trigtech.py | 5 +++++
 funpy/trig/ufuncs.py   | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 9c6cdaa..d5fd1a5 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -547,6 +547,11 @@ def imag(trig):
                         isreal=nisReal)
 
 
+@implements(np.copy)
+def copy(trig):
+    return deepcopy(trig)
+
+
 @implements(np.conj)
 def conj(trig):
     if trig.isreal:
diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 06241d0..abdc4fd 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -21,7 +21,7 @@ def negative(x, **kwargs):
                         simplify=False, ishappy=x.ishappy)
 
 def positive(x, **kwargs):
-    return x
+    return np.copy(x)
 
 def fabs(x, **kwargs):
     abs_values = np.abs(x.get_values())
-- 
2.43.0


From 371aa95cb9da662acc395419e36ccf916ab03859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 29/97] fix: indefinite integral of periodic functions was
 wrong and changed its argument

---
 funpy/trig/trigtech.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index d5fd1a5..2346105 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -620,7 +620,7 @@ def cumsum(f, m=1, **kwargs):
         b_k = c_k / (i pi k).
 
     """
-    c = f.coeffs
+    c = np.copy(f.coeffs)
     n = f.n
     isEven = np.remainder(n, 2) == 0
 
@@ -631,7 +631,7 @@ def cumsum(f, m=1, **kwargs):
         ind = (n+1)//2 - 1
 
     # check that the mean of the trigtech is zero. If it is not, then throw an error.
-    if np.any(np.abs(f.coeffs[ind, :]) > 1e1*f.vscale*f.eps):
+    if np.any(np.abs(f.coeffs[ind, :]) > 1e1*f.get_vscale()*f.eps):
         raise RuntimeError("Indefinite integrals are only possible for trigtech objects with zero mean!")
 
     # throw error that this is only possible for mean zero trigtechs
@@ -643,13 +643,12 @@ def cumsum(f, m=1, **kwargs):
         c = np.vstack((c, c[0, :]))
         highestDegree = n//2
     else:
-        c[(n+1)//2, :] = 0
+        c[ind, :] = 0
         highestDegree = (n-1)//2
 
-    # TODO silence warning here!
     # loop over integration factor for each coefficient
     sumIndices = np.expand_dims(np.arange(-highestDegree, highestDegree+1), axis=1)
-    integrationFactor = (-1j/sumIndices/np.pi)**m
+    integrationFactor = (-1j/np.where(sumIndices == 0, 1, sumIndices)/np.pi)**m
     # zero out the one corresponding to the zeroth term
     integrationFactor[highestDegree] = 0
     c = c * integrationFactor
@@ -661,7 +660,7 @@ def cumsum(f, m=1, **kwargs):
         c[n, :] = 0
 
     # fix the constant term
-    c[highestDegree+1, :] = -np.sum(c * (-1+0j)**sumIndices)
+    c[highestDegree, :] = -np.sum(c * (-1+0j)**sumIndices, axis=0)
 
     if isEven:
         c = c[:-1]
-- 
2.43.0


From 6b39b8cbdbe3b503c91a56defcf7e495c0de1d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 30/97] fix: convolving periodic functions changed the
 representation of its arguments

---
 funpy/trig/operations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/funpy/trig/operations.py b/funpy/trig/operations.py
index 5bc1cb3..cb24378 100644
--- a/funpy/trig/operations.py
+++ b/funpy/trig/operations.py
@@ -59,9 +59,9 @@ def circconv(f, g, domain):
 
     # Make sure the trigtech objects have the same underlying size
     if nf > ng:
-        g.prolong(nf)
+        g = np.copy(g).prolong(nf)
     elif nf < ng:
-        f.prolong(ng)
+        f = np.copy(f).prolong(ng)
     n = f.n
 
     # Convolution is just multiplication of the Fourier coefficients.
@@ -91,9 +91,9 @@ def trig_adhesion(f, g, domain):
 
     # Make sure the trigtech objects have the same underlying size
     if nf > ng:
-        g.prolong(nf)
+        g = np.copy(g).prolong(nf)
     elif nf < ng:
-        f.prolong(ng)
+        f = np.copy(f).prolong(ng)
 
     ncoeffs = f.coeffs * g.coeffs
     nvalues = coeffs2vals(ncoeffs)
-- 
2.43.0


From 7cea6ce30247f40f90cd93ab47d0c56760e7d9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 31/97] fix: derivative of periodic functions with an even
 number of coefficients was wrong in the highest mode

---
 funpy/trig/trigtech.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 2346105..a4492d8 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -452,7 +452,7 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
             c = np.copy(self.coeffs, order='F')
 
         if Nin == Nout:
-            c = self.coeffs
+            pass
 
         # Pad with zeros
         elif Nout > Nin:
@@ -572,6 +572,11 @@ def diff(f, n=1, axis=0):
     m = f.n
     c = f.coeffs  # TODO call simplify!
 
+    # the derivative of the highest mode is not on the even grid
+    if m & 1 == 0:
+        c = f.prolong_coeffs(m + 1)
+        m += 1
+
     if m & 1:
         waveNumber = np.expand_dims(np.arange(-(m-1)/2, m/2), axis=1)
     else:
-- 
2.43.0


From 7f00d0c2659d1acd8e20c74b540377d3d1d47d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 32/97] fix: shifts and convolutions of periodic functions with
 an even number of coefficients were wrong in the highest mode

---
 funpy/trig/operations.py | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/funpy/trig/operations.py b/funpy/trig/operations.py
index cb24378..c8d5ed9 100644
--- a/funpy/trig/operations.py
+++ b/funpy/trig/operations.py
@@ -10,8 +10,6 @@ from .transform import vals2coeffs, coeffs2vals
 
 def circshift(f, a):
     """ Shifts a trigtech by A where A is a real number. """
-    n, m = f.shape
-
     # a must be a scalar!
     # TODO CHECK THIS!
     # TODO generalize this function for periodic functions defined on arbitrary intervals
@@ -19,7 +17,12 @@ def circshift(f, a):
 
     # The trivial case
     if a == 0:
-        return f
+        return np.copy(f)
+
+    # the shifted highest mode is not on the even grid
+    if f.n % 2 == 0:
+        f = np.copy(f).prolong(f.n + 1)
+    n, m = f.shape
 
     # These interpolations are defined on the interval [0, 2*pi), but we want them on
     # (-pi, pi). To fix the coefficients for this we just need to assign
@@ -54,15 +57,12 @@ def circconv(f, g, domain):
         return NotImplemented
 
     # Get the sizes of the trigtech objects
-    nf = f.n
-    ng = g.n
+    n = max(f.n, g.n)
+    n += 1 - n % 2
 
-    # Make sure the trigtech objects have the same underlying size
-    if nf > ng:
-        g = np.copy(g).prolong(nf)
-    elif nf < ng:
-        f = np.copy(f).prolong(ng)
-    n = f.n
+    # Make sure the trigtech objects have the same underlying (odd) size
+    f = np.copy(f).prolong(n)
+    g = np.copy(g).prolong(n)
 
     # Convolution is just multiplication of the Fourier coefficients.
     # Shift g horizontally to -1
@@ -86,14 +86,12 @@ def trig_adhesion(f, g, domain):
         return NotImplemented
 
     # Get the sizes of the trigtech objects
-    nf = f.n
-    ng = g.n
-
-    # Make sure the trigtech objects have the same underlying size
-    if nf > ng:
-        g = np.copy(g).prolong(nf)
-    elif nf < ng:
-        f = np.copy(f).prolong(ng)
+    n = max(f.n, g.n)
+    n += 1 - n % 2
+
+    # Make sure the trigtech objects have the same underlying (odd) size
+    f = np.copy(f).prolong(n)
+    g = np.copy(g).prolong(n)
 
     ncoeffs = f.coeffs * g.coeffs
     nvalues = coeffs2vals(ncoeffs)
-- 
2.43.0


From d72f1b01464a969ab367fc489d6724840c784cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 33/97] fix: in-place product of a constant periodic function
 was lost

---
 funpy/trig/ufuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index abdc4fd..6dab155 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -139,7 +139,7 @@ def multiply(x1, x2, **kwargs):
     if isinstance(x1, (np.ndarray, Number)):
         return multiply(x2, x1, **kwargs)
 
-    out = kwargs.pop('out', None)
+    out = kwargs.get('out', None)
     if isinstance(x2, Number):
         # get the coefficients of x1
         c = np.copy(x1.coeffs, order='F').astype(complex)
-- 
2.43.0


From 96d04d35f8b6362f2434b53a4f87abefec733d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 34/97] fix: product of periodic functions with even numbers of
 coefficients was aliased

---
 funpy/trig/ufuncs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 6dab155..817aa47 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -200,8 +200,9 @@ def multiply(x1, x2, **kwargs):
         fn, fm = x1.shape
         gn, gm = x2.shape
 
-        # prolong
-        ncoeffs, nvals = prolong(x1.coeffs, fn + gn - 1, x1.isReal)
+        # prolong (an even number of coefficients holds one more frequency)
+        hn = fn + gn - 1 if fn & gn & 1 else fn + gn + 1
+        ncoeffs, nvals = prolong(x1.coeffs, hn, x1.isReal)
 
         # check dimensions
         if fm != gm:
@@ -230,7 +231,7 @@ def multiply(x1, x2, **kwargs):
             v = np.conj(nvals) * nvals
             pos = True
         else:
-            gcoeffs, gvals = prolong(x2.coeffs, fn + gn - 1, x2.isReal)
+            gcoeffs, gvals = prolong(x2.coeffs, hn, x2.isReal)
             v = nvals * gvals
 
         # Compute values and coefficients of result
-- 
2.43.0


From 4fff53ba52d31748c2601e890789f5528b39b04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 35/97] fix: indefinite integral of periodic functions with an
 even number of coefficients dropped the highest mode

---
 funpy/trig/trigtech.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index a4492d8..693fa3d 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -643,7 +643,8 @@ def cumsum(f, m=1, **kwargs):
     if isEven:
         # set coeff corresponding to the constant mode to zero:
         c[n//2, :] = 0
-        # expand the coefficients to be symmetric (see above discussion)
+        # expand the coefficients to be symmetric (see above discussion): the
+        # integral of the highest mode is not on the even grid
         c[0, :] = 0.5 * c[0, :]
         c = np.vstack((c, c[0, :]))
         highestDegree = n//2
@@ -657,19 +658,9 @@ def cumsum(f, m=1, **kwargs):
     # zero out the one corresponding to the zeroth term
     integrationFactor[highestDegree] = 0
     c = c * integrationFactor
-    # If this is an odd order cumsum and there an even number of
-    # coefficients then zero out the coefficients corresponding to
-    # sin(N/2x) term, since this will be zero on the Fourier grid
-    if m & 1 and isEven:
-        c[0, :] = 0
-        c[n, :] = 0
-
     # fix the constant term
     c[highestDegree, :] = -np.sum(c * (-1+0j)**sumIndices, axis=0)
 
-    if isEven:
-        c = c[:-1]
-
     # call simplify
     # grab lval
 
-- 
2.43.0


From a3d891068bfb0c178c5e2663e18b0064f274fc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 36/97] fix: a state's parameter stayed in its namespace when
 an earlier one was not there

---
 funpy/vectorspaces/base_state.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 42cb9f4..179fe14 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -61,13 +61,9 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
                 self.ns[par] = Parameter(**{par: par_value})
 
     def sync_ns(self):
-        # Remove reals[0] name from ns
-        try:
-            # Delete the names of the parameters from the namespace!
-            for r in self.reals:
-                del self.ns[r.name]
-        except KeyError:
-            pass
+        # Delete the names of the parameters from the namespace!
+        for r in self.reals:
+            self.ns.pop(r.name, None)
 
     @property
     def number_real(self):
-- 
2.43.0


From 99ac7ba1d2c6d8bb34296ae68b65baf17b5f96e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 37/97] fix: weighted inner product of states called itself on
 functions

---
 funpy/vectorspaces/base_state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 179fe14..e432cd2 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -7,7 +7,8 @@ from numbers import Number
 
 import numpy as np
 
-from ..fun import norm2, minandmax, innerw
+from ..fun import norm2, minandmax
+from ..fun import innerw as fun_innerw
 from .namespace import Namespace
 from .parameter import Parameter
 
@@ -383,7 +384,7 @@ def innerw(state1, state2):
     inner = 0.0
     n, m = state1.fshape
     for i in range(n):
-        ip = state1.weights[i] * innerw(state1.funcs[i], state2.funcs[i])
+        ip = state1.weights[i] * fun_innerw(state1.funcs[i], state2.funcs[i])
         inner += np.sum(ip)
 
     for i in range(m):
-- 
2.43.0


From 0a087203cb7c2e99015e84c25d3bc4092337f9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 38/97] fix: real, imag and conj of states confused the numbers
 of functions and parameters

---
 funpy/vectorspaces/base_state.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index e432cd2..37c7bd7 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -399,10 +399,10 @@ def real(state):
     nreals = np.empty_like(state.reals)
     nfuncs = np.empty_like(state.funcs)
 
-    for i in range(n):
+    for i in range(m):
         nreals[i] = np.real(state.reals[i])
 
-    for i in range(m):
+    for i in range(n):
         nfuncs[i] = np.real(state.funcs[i])
 
     return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
@@ -414,10 +414,10 @@ def imag(state):
     nreals = np.empty_like(state.reals)
     nfuncs = np.empty_like(state.funcs)
 
-    for i in range(n):
+    for i in range(m):
         nreals[i] = np.imag(state.reals[i])
 
-    for i in range(m):
+    for i in range(n):
         nfuncs[i] = np.imag(state.funcs[i])
 
     return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
@@ -429,10 +429,10 @@ def conj(state):
     nreals = np.empty_like(state.reals)
     nfuncs = np.empty_like(state.funcs)
 
-    for i in range(n):
+    for i in range(m):
         nreals[i] = np.conj(state.reals[i])
 
-    for i in range(m):
+    for i in range(n):
         nfuncs[i] = np.conj(state.funcs[i])
 
     return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
-- 
2.43.0


From 67b549e13eb0c029acbf340ac848cdfcda67e57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 39/97] fix: results of state arithmetic lost the weights and
 shared the namespace of their operand

---
 funpy/vectorspaces/base_state.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 37c7bd7..095664a 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -245,7 +245,7 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
             _copy = type(self)(
                 funcs=deepcopy(self.funcs, memo),
                 reals=deepcopy(self.reals, memo),
-                weights=self.weights,
+                weights=np.copy(self.weights),
                 ns=deepcopy(self.ns, memo))
             memo[id_self] = _copy
         return _copy
@@ -303,7 +303,8 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
                     tlist = [x.funcs[i] if isinstance(x, type(self)) else x for x in inputs]
                     nfuncs[i] = numpy_ufunc(*tlist)
 
-                return type(self)(funcs=nfuncs, reals=nreals, ns=self.ns)
+                return type(self)(funcs=nfuncs, reals=nreals,
+                                  weights=np.copy(self.weights), ns=deepcopy(self.ns))
         else:
             return NotImplemented
 
@@ -327,7 +328,8 @@ def zeros_like(state):
     for i, real in enumerate(state.reals):
         reals[i] = np.zeros_like(real)
 
-    return type(state)(funcs=funcs, reals=reals)
+    return type(state)(funcs=funcs, reals=reals,
+                       weights=np.copy(state.weights), ns=deepcopy(state.ns))
 
 
 @implements(np.ones_like)
@@ -341,7 +343,8 @@ def ones_like(state):
     for i, real in enumerate(state.reals):
         reals[i] = np.ones_like(real)
 
-    return type(state)(funcs=funcs, reals=reals)
+    return type(state)(funcs=funcs, reals=reals,
+                       weights=np.copy(state.weights), ns=deepcopy(state.ns))
 
 
 @implements(np.dot)
@@ -405,7 +408,8 @@ def real(state):
     for i in range(n):
         nfuncs[i] = np.real(state.funcs[i])
 
-    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
+    return type(state)(reals=nreals, funcs=nfuncs,
+                       weights=np.copy(state.weights), ns=deepcopy(state.ns))
 
 
 @implements(np.imag)
@@ -420,7 +424,8 @@ def imag(state):
     for i in range(n):
         nfuncs[i] = np.imag(state.funcs[i])
 
-    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
+    return type(state)(reals=nreals, funcs=nfuncs,
+                       weights=np.copy(state.weights), ns=deepcopy(state.ns))
 
 
 @implements(np.conj)
@@ -435,7 +440,8 @@ def conj(state):
     for i in range(n):
         nfuncs[i] = np.conj(state.funcs[i])
 
-    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
+    return type(state)(reals=nreals, funcs=nfuncs,
+                       weights=np.copy(state.weights), ns=deepcopy(state.ns))
 
 
 @implements(np.sum)
-- 
2.43.0


From 86c703b02394821149fead9a1839e6ec1e72eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 40/97] fix: failure returns of qnerr had two values less than
 its other returns

---
 funpy/newton/qnerr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/newton/qnerr.py b/funpy/newton/qnerr.py
index 2e7d4d4..fbb47e9 100644
--- a/funpy/newton/qnerr.py
+++ b/funpy/newton/qnerr.py
@@ -69,7 +69,7 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
                                    RuntimeWarning)
             newton_success = False
             if not nleqcalled: newton_success = False
-            return x, newton_success, k, normdx
+            return x, newton_success, k, normdx, neval, nsystem
 
         # descale - the newton step! Don't need to do this
         sigma[0] = normdx
@@ -82,7 +82,7 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
         if not success_callback:
             if verb: warnings.warn(f'QNERR: Failed callback indicates STOP after {k} iterations!')
             newton_success = False
-            return x, newton_success, k, normdx
+            return x, newton_success, k, normdx, neval, nsystem
     else:
         assert dx0 is not None, ''
         nsystem = NewtonSystem
-- 
2.43.0


From fa70edf4ddf993d51d279dddee60d31fbd567188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 41/97] fix: qnerr started from the norm of the first
 correction where its square is meant

---
 funpy/newton/qnerr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/newton/qnerr.py b/funpy/newton/qnerr.py
index fbb47e9..b6ee2f4 100644
--- a/funpy/newton/qnerr.py
+++ b/funpy/newton/qnerr.py
@@ -72,7 +72,7 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
             return x, newton_success, k, normdx, neval, nsystem
 
         # descale - the newton step! Don't need to do this
-        sigma[0] = normdx
+        sigma[0] = normdx**2
         dx[0] = dxk
 
         # default value
-- 
2.43.0


From 9425b0e22d19599d8903778d3d0d19867036bf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 42/97] fix: Newton solvers overwrote the caller's initial
 guess

---
 funpy/newton/giant.py           | 2 +-
 funpy/newton/newton_standard.py | 2 +-
 funpy/newton/nleq_err.py        | 2 +-
 funpy/newton/qnerr.py           | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/funpy/newton/giant.py b/funpy/newton/giant.py
index ab3626a..7a73a11 100644
--- a/funpy/newton/giant.py
+++ b/funpy/newton/giant.py
@@ -145,7 +145,7 @@ def giant_gbit(NewtonSystem, x, tol=1e6 * np.finfo(float).eps,
         if normdx <= xtol:
             newton_success = True
             precision = normdx
-            x += dx
+            x = x + dx
             k += 1
             break
 
diff --git a/funpy/newton/newton_standard.py b/funpy/newton/newton_standard.py
index e7f5ead..736b67e 100644
--- a/funpy/newton/newton_standard.py
+++ b/funpy/newton/newton_standard.py
@@ -68,7 +68,7 @@ def newton_standard(NewtonSystem, x, linear_solver='lu',
         normdx = norm(dx)
 
         # NEXT STEP
-        x += dx
+        x = x + dx
         k += 1
 
         if debug:
diff --git a/funpy/newton/nleq_err.py b/funpy/newton/nleq_err.py
index 43ecc63..ee80259 100644
--- a/funpy/newton/nleq_err.py
+++ b/funpy/newton/nleq_err.py
@@ -102,7 +102,7 @@ def nleq_err(NewtonSystem, x, linear_solver='lu',
 
         # Solution found if condition here true
         if normdx <= tol:
-            x += dx
+            x = x + dx
             k += 1
             newton_success = True
             break
diff --git a/funpy/newton/qnerr.py b/funpy/newton/qnerr.py
index b6ee2f4..2ab61b4 100644
--- a/funpy/newton/qnerr.py
+++ b/funpy/newton/qnerr.py
@@ -98,7 +98,7 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
 
     while not newton_success and k <= miter:
         if not skipstep:
-            x += dx[k]
+            x = x + dx[k]
 
             if sigma[k] <= tol * tol:
                 k += 1
-- 
2.43.0


From 6ecdfcf67ba03363f45ccd24b42cf66a4145bccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 43/97] fix: newton_standard did not import warnings (failures
 raised a NameError)

---
 funpy/newton/newton_standard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/funpy/newton/newton_standard.py b/funpy/newton/newton_standard.py
index 736b67e..add61ba 100644
--- a/funpy/newton/newton_standard.py
+++ b/funpy/newton/newton_standard.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 # Author: Andreas Buttenschoen
 from math import sqrt
+import warnings
 import numpy as np
 
 
-- 
2.43.0


From 86600e5cd2e0f1961c8927151ab510cd712c79ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 44/97] fix: NewtonSeeker unpacked five of the six values of
 nleq_err

---
 funpy/newton/newton_seeker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/newton/newton_seeker.py b/funpy/newton/newton_seeker.py
index 78c3fd0..f68bb17 100644
--- a/funpy/newton/newton_seeker.py
+++ b/funpy/newton/newton_seeker.py
@@ -54,7 +54,7 @@ class NewtonSeeker(NewtonBase):
                 *args, **kwargs)
 
         elif method == 'nleq' or method == 'nleq-err':
-            un, success, iteration, self.neval, sys = nleq_err(
+            un, success, iteration, self.normdx, self.neval, sys = nleq_err(
                 LinOp, istate, miter=miter, inner=np.dot,
                 *args, **kwargs)
 
-- 
2.43.0


From 9036fc24165188a39add14f22491da3683c17508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 45/97] fix: NewtonSeeker passed its iteration limit to giant
 under a name it ignores

---
 funpy/newton/newton_seeker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/newton/newton_seeker.py b/funpy/newton/newton_seeker.py
index f68bb17..75b1bce 100644
--- a/funpy/newton/newton_seeker.py
+++ b/funpy/newton/newton_seeker.py
@@ -50,7 +50,7 @@ class NewtonSeeker(NewtonBase):
         method = method.lower()
         if method == 'giant':
             un, success, iteration, self.neval, sys = giant_gbit(
-                LinOp, istate, miter=miter, inner=np.dot,
+                LinOp, istate, max_iter=miter, inner=np.dot,
                 *args, **kwargs)
 
         elif method == 'nleq' or method == 'nleq-err':
-- 
2.43.0


From 66c42b899efbadc89960a70bd6ffba88720da7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 46/97] fix: alternative names of the Newton methods were taken
 for linear solvers

---
 funpy/newton/newton.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/funpy/newton/newton.py b/funpy/newton/newton.py
index 63bde98..63a082d 100644
--- a/funpy/newton/newton.py
+++ b/funpy/newton/newton.py
@@ -31,7 +31,9 @@ class Newton(NewtonBase):
 
         # Create a mapping that maps u -> D_u F
         method = kwargs.pop('method', 'giant').lower()
-        linearSolver = {'qnerr': 'lu', 'nleq': 'lu', 'nleq-err': 'lu', 'giant': None}
+        linearSolver = {'qnerr': 'lu', 'qn-err': 'lu',
+                        'nleq': 'lu', 'nleqerr': 'lu', 'nleq-err': 'lu',
+                        'giant': None, 'giant-gbit': None, 'giantgbit': None}
 
         def LinOp(u, *args, **kwargs):
             return self.linop(u, self.system, ks=self.known_solutions,
-- 
2.43.0


From 85599e915907b9c0ca6100195dc0838c7c2a6b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 47/97] fix: indefinite integral of array-valued functions
 raised (coefficients in the wrong memory order)

---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 58dbe5b..88191a2 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -559,7 +559,7 @@ def cumsum(cheb, **kwargs):
     """
     n, m = cheb.shape
     c = np.vstack((cheb.coeffs, np.zeros((2, m))))  # pad with zeros
-    b = np.zeros((n+1, m))
+    b = np.zeros((n+1, m), order='F')
 
     # compute b_(2) ... b_(n+1)
     b[2:n+1, :] = (c[1:n, :] - c[3:n+2, :]) / np.tile(np.expand_dims(2*np.arange(2, n+1), axis=1), (1, m))
-- 
2.43.0


From a3318b7ed79baaa2bc1778446a8f046f7aead21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 48/97] fix: imaginary part of a real function had read-only
 coefficients

---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 88191a2..7e7ced1 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -466,7 +466,7 @@ def real(cheb):
 @implements(np.imag)
 def imag(cheb):
     """ Returns real part of a chebtech """
-    return chebtech(coeffs=np.imag(cheb.coeffs), simplify=False,
+    return chebtech(coeffs=np.array(np.imag(cheb.coeffs), order='F'), simplify=False,
                    ishappy=cheb.ishappy, eps=cheb.eps,
                    hscale=cheb.hscale, maxLength=cheb.maxLength)
 
-- 
2.43.0


From a425e5e9cd71685086757e961877e6d5127402ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 49/97] fix: the sample point of constant functions was a list,
 restricting them raised

---
 funpy/cheb/pts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/pts.py b/funpy/cheb/pts.py
index d62bfa0..6808a90 100644
--- a/funpy/cheb/pts.py
+++ b/funpy/cheb/pts.py
@@ -88,9 +88,9 @@ def chebpts_type1_compute(N):
 @lru_cache(maxsize=25)
 def chebpts_type2_compute(N):
     if N == 0:
-        return []
+        return np.zeros(0)
     elif N == 1:
-        return [0]
+        return np.zeros(1)
     else:
         return np.sin(np.pi * np.arange(-N+1, N, 2) / (2. * (N - 1)))
 
-- 
2.43.0


From 95c967f075e7df8ac26ae8ad55fb30fd82d34fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 50/97] fix: complex conjugates were sampled anew and could
 miss high degrees

---
 funpy/cheb/ufuncs.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index ef3c525..84be7ea 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -28,6 +28,10 @@ def negative(x, **kwargs):
 def positive(x, **kwargs):
     return np.copy(x)
 
+def conjugate(x, **kwargs):
+    return chebtech(coeffs=np.array(np.conj(x.coeffs), order='F'), simplify=False,
+                   eps=x.eps, maxLength=x.maxLength, ishappy=x.ishappy)
+
 def absolute(x, **kwargs):
     return chebtech(op=lambda y: np.abs(x(y)), minSamples=x.n,
                    maxLength=2**10, eps=x.eps)
-- 
2.43.0


From d01ee2f1afdbaade2e8f0c4c787af968069638de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 51/97] fix: powers of functions were sampled too coarsely for
 their degree

---
 funpy/cheb/ufuncs.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 84be7ea..6506d69 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -45,7 +45,8 @@ def power(x1, x2, **kwargs):
         # Do nothing just return the function
         if x2 == 1.0:
             return np.copy(x1)
-        return chebtech(op=lambda x: np.float_power(x1(x), x2), minSamples=x1.n, eps=x1.eps)
+        return chebtech(op=lambda x: np.float_power(x1(x), x2),
+                       minSamples=int(np.ceil(max(1.0, x2))) * x1.n, eps=x1.eps)
     else:
         return NotImplemented
 
-- 
2.43.0


From 28a26b97ce7e26f7f37707ca3e105d1c3e08d6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 52/97] fix: restriction to the whole interval returned the
 function itself

---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 7e7ced1..54ecfc1 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -304,7 +304,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
             assert False, 'Not a valid interval'
         elif s.size == 2 and np.all(s == np.asarray([-1, 1])):
             # nothing to do here
-            return self
+            return np.copy(self)
 
         n, m = self.shape
         numInts = s.size - 1
-- 
2.43.0


From aa1dbcecc6c7849025b0e2e39d98908ec9265c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 53/97] fix: periodic functions could not be made from values

---
 funpy/trig/trigtech.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 693fa3d..1605c94 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -105,6 +105,10 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         else:
             assert False, 'Don\'t know what to do with this!'
 
+    @classmethod
+    def from_values(cls, values, *args, **kwargs):
+        return cls(values=values, *args, **kwargs)
+
     def __deepcopy__(self, memo):
         id_self = id(self)
         _copy = memo.get(id_self)
-- 
2.43.0


From 7599e029d495f878cc215ea740401532b18d30f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 54/97] fix: real part and conjugate of a real periodic
 function shared its data

---
 funpy/trig/trigtech.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 1605c94..d78e9c7 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -515,7 +515,7 @@ def argmax(f):
 def real(trig):
     """ Returns real part of a trigtech """
     if trig.isreal:
-        return trig
+        return np.copy(trig)
 
     fvalues = np.real(trig.values)
     if np.all(np.abs(fvalues) < trig.eps):
@@ -559,7 +559,7 @@ def copy(trig):
 @implements(np.conj)
 def conj(trig):
     if trig.isreal:
-        return trig
+        return np.copy(trig)
 
     # other wise construct a new trigtech
     values = np.conj(trig.values)
-- 
2.43.0


From 65cce0aa46825c8b620f622ea482ff2a4bd46192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 55/97] fix: complex conjugates of periodic functions were
 sampled anew and could miss high frequencies

---
 funpy/trig/ufuncs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 817aa47..8c89588 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -8,7 +8,7 @@ from ..cheb.chebtech import chebtech
 import funpy.cheb.ufuncs as cb_funcs # This feels wrong!
 
 from .trig_simplify import prolong, simplify_coeffs
-from .trigtech import trigtech
+from .trigtech import trigtech, conj
 from .transform import coeffs2vals, vals2coeffs
 
 
@@ -23,6 +23,9 @@ def negative(x, **kwargs):
 def positive(x, **kwargs):
     return np.copy(x)
 
+def conjugate(x, **kwargs):
+    return conj(x)
+
 def fabs(x, **kwargs):
     abs_values = np.abs(x.get_values())
     return trigtech(coeffs=vals2coeffs(abs_values), values=abs_values,
-- 
2.43.0


From 5ff78d7e7def45065a45beb961a885fc26a3dc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 56/97] fix: powers and quotients of periodic functions were
 sampled too coarsely for their frequencies

---
 funpy/trig/trigtech.py | 3 ++-
 funpy/trig/ufuncs.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index d78e9c7..b96cf31 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -67,7 +67,8 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
                 else:   # Assume that it's a lambda -> TODO check that
                     # TODO implement this for the other parts too
                     self.__check_callable(op)
-                    refine = Refine(op=op, strategy=kwargs.pop('resample', 'nested'))
+                    refine = Refine(op=op, minSamples=min(self.maxLength, max(9, kwargs.pop('minSamples', 9))),
+                                    strategy=kwargs.pop('resample', 'nested'))
                     self.populate(refine)
 
                 # check whether the function should be real or not ???
diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 8c89588..10e323e 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -36,7 +36,8 @@ def power(x1, x2, **kwargs):
         return trigtech(op=lambda x: np.power(x1, x2(x)), minSamples=2 * x2.n)
 
     if isinstance(x2, Number):
-        return trigtech(op=lambda x: np.power(x1(x), x2), minSamples= 2* x1.n)
+        return trigtech(op=lambda x: np.power(x1(x), x2),
+                        minSamples=int(np.ceil(max(1.0, x2))) * x1.n)
     else:
         return NotImplemented
 
-- 
2.43.0


From ee78bce3355ab4736a4fcca9735e74bc28333469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 57/97] fix: adding one constant per component to a periodic
 function raised

---
 funpy/trig/ufuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 10e323e..a041420 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -70,7 +70,7 @@ def add(x1, x2, **kwargs):
         else:
             const_index = n//2
 
-        c[const_index, :] += other
+        c[const_index, :] += other.squeeze()
 
         # update is real
         # TODO FIX THE EPS HERE!
-- 
2.43.0


From 5247aff88bd8067b9f8d98765efbbd2c0d88dc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 58/97] fix: dividing a product of periodic functions by a
 complex number raised

---
 funpy/trig/ufuncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index a041420..d6716e2 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -292,8 +292,8 @@ def true_divide(x1, x2, **kwargs):
         else:
             return NotImplemented
 
-    c = np.copy(x1.coeffs)
-    v = np.copy(x1.values)
+    c = np.copy(x1.coeffs).astype(complex)
+    v = np.copy(x1.values).astype(complex)
 
     if isinstance(x2, Number):
         c /= x2
-- 
2.43.0


From ace9434594179ef9a90f07a46faea3212c351223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 59/97] fix: adding a complex number to a periodic function
 changed in place could raise

---
 funpy/trig/ufuncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index d6716e2..38429de 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -49,8 +49,8 @@ def add(x1, x2, **kwargs):
     out = kwargs.pop('out', None)
     if isinstance(x2, Number) or isinstance(x2, np.ndarray):
         # get the coefficients of x1
-        c = np.copy(x1.coeffs, order='F')
-        v = np.copy(x1.values, order='F')
+        c = np.copy(x1.coeffs, order='F').astype(complex)
+        v = np.copy(x1.values, order='F').astype(complex)
 
         other = np.asanyarray(x2, order='F')
         if other.ndim == 1:  # one constant per column
-- 
2.43.0


From 38fce20486e0e9d4a9bce46173a0664e524440ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 60/97] fix: inner products of periodic functions with
 different numbers of components raised

---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index b96cf31..4bcc54f 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -688,7 +688,7 @@ def inner(trig1, trig2, weighted=False):
     out = np.matmul(fvalues.T * w, np.conj(gvalues))
 
     # FIXME for array valued trigtechs!
-    if np.all(trig1.isReal * trig2.isReal):
+    if np.all(trig1.isReal) and np.all(trig2.isReal):
         out = np.real(out)
 
     # Force non-negative output when the inputs are the same
-- 
2.43.0


From 6d8af33fc5fcb7560f4221df8f98caa47768fe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 61/97] fix: a refused in-place operation on states changed
 their parameters

---
 funpy/vectorspaces/base_state.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 095664a..14f1b52 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -279,14 +279,15 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
             nf = self.funcs.size
 
             if out:
-                for i in range(nr):
-                    tlist = [x.reals[i] if isinstance(x, type(self)) else x for x in inputs]
-                    numpy_ufunc(*tlist, out=out[0].reals[i])
-
+                # The functions first: they may refuse the operation
                 for i in range(nf):
                     tlist = [x.funcs[i] if isinstance(x, type(self)) else x for x in inputs]
                     numpy_ufunc(*tlist, out=out[0].funcs[i])
 
+                for i in range(nr):
+                    tlist = [x.reals[i] if isinstance(x, type(self)) else x for x in inputs]
+                    numpy_ufunc(*tlist, out=out[0].reals[i])
+
                 # Update the namespace
                 out[0].sync_ns()
                 return out[0]
-- 
2.43.0


From 2e23e597260db5d9f226a05a80816dc88232039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:47 +0000
Subject: [PATCH 62/97] fix: GIANT failed when a linear correction was exact
 (zero residual or zero defect)

---
 funpy/linalg/gbit.py  |  2 +-
 funpy/newton/giant.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/funpy/linalg/gbit.py b/funpy/linalg/gbit.py
index 4b3cd92..1c20995 100644
--- a/funpy/linalg/gbit.py
+++ b/funpy/linalg/gbit.py
@@ -110,7 +110,7 @@ def gbit(A, P, b, y=None,
 
             if giant_simple:
                 normdiff = norm(y - y0)
-                stop_iter = False if normdiff == 0.0 else (epsilon / normdiff <= rho * errtol)
+                stop_iter = epsilon <= rho * errtol * normdiff
             else:
                 stop_iter = epsilon <= rho * normyip1 * errtol
 
diff --git a/funpy/newton/giant.py b/funpy/newton/giant.py
index 7a73a11..16a774f 100644
--- a/funpy/newton/giant.py
+++ b/funpy/newton/giant.py
@@ -114,7 +114,7 @@ def giant_gbit(NewtonSystem, x, tol=1e6 * np.finfo(float).eps,
 
         if k > 0:
             hkpri = normdx / normdxkm1 * hk
-            lam = min(1.0, 1.0 / ((1.0 + rho) * hkpri))
+            lam = min(1.0, 1.0 / ((1.0 + rho) * hkpri)) if hkpri > 0.0 else 1.0
 
         if lam == 1.0 and k > 0:
             tol = rho / 2.0 * hk / (1.0 + hk) if adaptmode == Adaptmode.QUADRATIC else delta_bar
@@ -133,7 +133,7 @@ def giant_gbit(NewtonSystem, x, tol=1e6 * np.finfo(float).eps,
 
             normdx = norm(dx)
             hkpri = normdx / normdxkm1 * hk
-            lam = min(1.0, 1.0 / ((1.0 + rho) * hkpri))
+            lam = min(1.0, 1.0 / ((1.0 + rho) * hkpri)) if hkpri > 0.0 else 1.0
 
             if debug:
                 print(f'\tkq = {k}; lam = {lam:.2g}; iter = {iter}; dx = {normdx:.2g}; normfk = {normfk:.2g}')
@@ -181,21 +181,21 @@ def giant_gbit(NewtonSystem, x, tol=1e6 * np.finfo(float).eps,
             theta = normdxbar / normdx
             w = dxbar - s * dx
             normdiff = norm(w)
-            rhobar = precision * safetyfactor * normdxbar / normdiff
+            rhobar = precision * safetyfactor * normdxbar / normdiff if normdiff > 0.0 else 0.0
             hk = 2.0 * (1.0 - rhobar) * normdiff / (lam * lam * normdx)
 
             if debug:
                 print(f'\t\tlam = {lam:.2g}; s = {s:.2f}; θ = {theta:.2g}; w = {normdiff:.2g}; iter = {iter}; normdxbar = {normdxbar:.2g}; normfk = {normfk:.2g}.')
 
             if (not restricted and theta >= 1.0) or (restricted and theta > 1.0 - 0.25 * lam):
-                lam_new = min(1.0 / (hk * (1.0 + rho)), 0.5 * lam)
+                lam_new = min(1.0 / (hk * (1.0 + rho)), 0.5 * lam) if hk > 0.0 else 0.5 * lam
                 lam = lam_new if lam <= lambda_min else max(lam_new, lambda_min)
                 reducted = True
 
                 # GO CHECK REG AGAIN!
                 continue
 
-            lam_new = min(1.0, 1.0 / (hk * (1.0 + rho)))
+            lam_new = min(1.0, 1.0 / (hk * (1.0 + rho))) if hk > 0.0 else 1.0
             if lam == 1.0 and lam_new == 1.0:
                 if normdxbar <= xtol:
                     x = xkp1 + dxbar
-- 
2.43.0


From 8f479ba432a687a9154fa78de4e454138cb7197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:10 +0000
Subject: [PATCH 63/97] fix: GBIT kept iterating after diverging and reported
 success on singular systems

---
 funpy/linalg/gbit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/funpy/linalg/gbit.py b/funpy/linalg/gbit.py
index 1c20995..08707b0 100644
--- a/funpy/linalg/gbit.py
+++ b/funpy/linalg/gbit.py
@@ -122,6 +122,7 @@ def gbit(A, P, b, y=None,
                 success = False
                 # Make sure outside loop quits!
                 stop_iter = False
+                restart = False
                 break
 
         # END INNER LOOP
-- 
2.43.0


From 87aaa891e6da4568b9219909446d5888bc037b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:17 +0000
Subject: [PATCH 64/97] fix: Functional was not the inner product with its
 function, ignored its order, could not be applied and changed its argument

---
 funpy/functional.py          | 47 +++++++++++++++++++++++++++++-------
 funpy/newton/NewtonSystem.py |  2 +-
 funpy/newton/deflation.py    | 10 +++-----
 3 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/funpy/functional.py b/funpy/functional.py
index 75f07c7..62e1b8f 100644
--- a/funpy/functional.py
+++ b/funpy/functional.py
@@ -5,6 +5,7 @@ import numpy as np
 
 from .cheb import polyval
 from .cheb import quadwts
+from .cheb import computeDerCoeffs
 
 HANDLED_FUNCTIONS = {}
 
@@ -15,24 +16,52 @@ class Functional:
     """
     def __init__(self, function, *args, **kwargs):
         weighted = kwargs.pop('weighted', False)
+        order = kwargs.pop('order', 0)
         rescaleFactor = 0.5 * np.diff(function.domain)
 
-        n = kwargs.pop('n', None)
-        if n is not None:
-            function = function.prolong(n)
+        # The number of basis functions; the caller's function must not change
+        n = kwargs.pop('n', None) or function.n
 
         if weighted:
-            self.coeffs = np.asarray(function)
+            self.coeffs = np.array(np.copy(function).prolong(n))
             self.coeffs[0] *= np.pi
             self.coeffs[1:] *= 0.5 * np.pi
 
         else:
-            functional = np.empty(function.m, dtype=object)
-            w = quadwts(function.n)
-            for j, col in enumerate(function):
-                functional[j] = np.rot90(polyval(np.rot90(w * col.values.T)), -1)
+            pairing = self.__trig if function.istrig else self.__cheb
+            self.coeffs = pairing(function, n, order, rescaleFactor)
 
-            self.coeffs = np.hstack(functional) * rescaleFactor
+    @staticmethod
+    def __cheb(function, n, order, rescaleFactor):
+        """ The pairing sum_j (f^(j), u^(j)) with each Chebyshev polynomial u """
+        functional = 0.0
+        D = np.eye(n)
+        for j in range(order + 1):
+            if j > 0:
+                if n <= j: break
+                function = np.diff(function)
+                D = computeDerCoeffs(D) / rescaleFactor
+
+            # The products with the basis functions are integrated exactly on this grid
+            N = n + function.n
+            values = np.copy(function).prolong(N).values
+            moments = np.rot90(polyval(np.rot90(quadwts(N) * values.T)), -1)
+            functional = functional + rescaleFactor * np.dot(moments[:, :D.shape[0]], D)
+
+        return functional.reshape(1, -1)
+
+    @staticmethod
+    def __trig(function, n, order, rescaleFactor):
+        """ The pairing sum_j (f^(j), u^(j)) with each Fourier mode u """
+        coeffs = np.copy(function).prolong(n).coeffs
+        waveNumber = np.expand_dims(np.arange(n) - n // 2, axis=1) * np.pi / rescaleFactor
+        weights = sum(waveNumber**(2 * j) for j in range(order + 1))
+        return (2.0 * rescaleFactor * weights * np.conj(coeffs)).reshape(1, -1, order='F')
+
+    def __call__(self, u):
+        """ Applies the functional to the (stacked) coefficients u or to a function """
+        coeffs = u if isinstance(u, np.ndarray) else u.coeffs
+        return np.dot(self.coeffs, coeffs.flatten(order='F')).item()
 
     def __array__(self):
         return self.coeffs
diff --git a/funpy/newton/NewtonSystem.py b/funpy/newton/NewtonSystem.py
index 116f77a..a731fde 100644
--- a/funpy/newton/NewtonSystem.py
+++ b/funpy/newton/NewtonSystem.py
@@ -81,7 +81,7 @@ class NewtonSystem:
 
         if self.known_solutions:
             self.res = self.colloc.project_vector(self.source.rhs.values.flatten(order='F'), cts=True)
-            self.eta, self.deta = deflation_linearization(self.u.u, known_solutions=self.known_solutions)
+            self.eta, self.deta = deflation_linearization(self.u.u, known_solutions=self.known_solutions, n=self.shape[0])
 
         # Create the matrix and its precond
         proj   = self.colloc.proj
diff --git a/funpy/newton/deflation.py b/funpy/newton/deflation.py
index f666fe3..5bcbf66 100644
--- a/funpy/newton/deflation.py
+++ b/funpy/newton/deflation.py
@@ -10,13 +10,13 @@ def deflation(u, known_solutions=[], shift=1.0, power=2.0):
     return 1.0 if not known_solutions else np.product([shift + 1.0 / h1norm(u - ks)**power for ks in known_solutions])
 
 
-def deflation_linearization(u, known_solutions=[], shift=1.0, power=2.0, basis='coeff'):
+def deflation_linearization(u, known_solutions=[], shift=1.0, power=2.0, n=None):
     """ Computes the derivative of the deflation operator eta(u)
 
             eta'(u) = 2 eta(u) Sum [ u - u_k / [ shift ( | u - u_k |^2 + 1 ) | u - u_k |^2 ] ]
                                 k
 
-            This needs to be implemented as a LinearOperator
+            This needs to be implemented as a LinearOperator acting on n coefficients
     """
     eta = 1.
     if not known_solutions:
@@ -38,9 +38,5 @@ def deflation_linearization(u, known_solutions=[], shift=1.0, power=2.0, basis='
     # multiply by the common factor!
     function *= -power * eta
 
-    # Make sure that function has the correct shape
-    if abs(function.shape[0] - u.shape[0]) > 0:
-        function.prolong(u.shape[0])
-
     # create Functional representing the derivative of eta
-    return eta, Functional(function, order=1, basis=basis)
+    return eta, Functional(function, n=u.shape[0] if n is None else n, order=1)
-- 
2.43.0


From 3244fbac597ceb98ca96d9e420f883d501a38f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:17 +0000
Subject: [PATCH 65/97] fix: preconditioner of deflated Newton was not the
 inverse of the deflated operator

---
 funpy/newton/FrechetDeflatedPrecond.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/funpy/newton/FrechetDeflatedPrecond.py b/funpy/newton/FrechetDeflatedPrecond.py
index f396baf..77370b8 100644
--- a/funpy/newton/FrechetDeflatedPrecond.py
+++ b/funpy/newton/FrechetDeflatedPrecond.py
@@ -25,8 +25,9 @@ class FrechetDeflatedPrecond(LinearOperator):
             self.denom = self.__compute_denom()
 
     def __compute_denom(self):
-        # compute the values for the inner-product
-        return self.eta**2 + self.functional(self.b)
+        # the Sherman-Morrison formula needs the direction P_F^{-1} F
+        self.b = self.Pf.solve(self.b)
+        return self.eta + self.functional(self.b)
 
     def _matvec(self, x):
         """
-- 
2.43.0


From 056a20b901231b11d333d6c09474baf28bbc984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:31 +0000
Subject: [PATCH 66/97] fix: derivatives of one unknown in the equation of
 another were dropped when no equation has that order in its own unknown

---
 funpy/colloc/source/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index 41fb84a..f4615bd 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -125,7 +125,7 @@ class Source:
         return len(self.cts_src)
 
     def get_diff_order(self, srcs):
-        return [0] + [ode_order(src, func) for src, func in zip(srcs, self.functions)]
+        return [0] + [ode_order(src, func) for src in srcs for func in self.functions]
 
     def get_function_names(self, type=None, constant=False):
         function_names = []
-- 
2.43.0


From 01f4e5c0dabeb00f0519d596c7133bc907797b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:31 +0000
Subject: [PATCH 67/97] fix: boundary conditions given as functions, and any
 boundary conditions of systems, raised

---
 funpy/colloc/LinSys.py                         |  4 ++--
 funpy/colloc/chebOpConstraint.py               | 11 ++++++++---
 funpy/colloc/source/BoundaryConditionSource.py |  4 ++++
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/funpy/colloc/LinSys.py b/funpy/colloc/LinSys.py
index 18ac750..6f877a0 100644
--- a/funpy/colloc/LinSys.py
+++ b/funpy/colloc/LinSys.py
@@ -135,8 +135,8 @@ class LinSys(LinSysBase):
         for bc_op in src.bcs:
             try:
                 print('op_name = ', bc_op.symbol_name)
-                constraint = ChebOpConstraint(op=self.ns[bc_op.symbol_name],
-                                              domain=src.domain)
+                op = bc_op.expr if callable(bc_op.expr) else self.ns[bc_op.symbol_name]
+                constraint = ChebOpConstraint(op=op, domain=src.domain, n_fun=self.linOp.shape[1])
 
                 self.constraints.append(constraint)
             except KeyError:
diff --git a/funpy/colloc/chebOpConstraint.py b/funpy/colloc/chebOpConstraint.py
index 5d4b1dc..2221095 100644
--- a/funpy/colloc/chebOpConstraint.py
+++ b/funpy/colloc/chebOpConstraint.py
@@ -20,13 +20,16 @@ class ChebOpConstraint:
                 required for constraint collocation.
 
             values: Equal value of the constraint.
+            n_fun: The number of functions the constraint takes.
         """
         self.op     = kwargs.get('op', None)
         self.domain = kwargs.pop('domain', [-1, 1])
         self.values = np.atleast_1d(kwargs.get('values', 0.0))
 
+        self.n_fun  = kwargs.pop('n_fun', 1)
+
         # Assemble dummy function
-        zf = zeros(1, domain=self.domain)
+        zf = zeros(self.n_fun, domain=self.domain)
         offset = -self.residual(zf)
 
         def functional(*args):
@@ -47,8 +50,10 @@ class ChebOpConstraint:
         return self
 
     def __call__(self, n):
-        colloc = chebcolloc2(values=np.eye(n), domain=self.domain)
-        return self.functional(colloc)
+        # The values of all functions are stacked
+        values = np.eye(n * self.n_fun)
+        return self.functional(*(chebcolloc2(values=values[k*n:(k+1)*n], domain=self.domain)
+                                 for k in range(self.n_fun)))
 
     def residual(self, u):
         """ Compute the residual of the functional """
diff --git a/funpy/colloc/source/BoundaryConditionSource.py b/funpy/colloc/source/BoundaryConditionSource.py
index d38b557..194f90f 100644
--- a/funpy/colloc/source/BoundaryConditionSource.py
+++ b/funpy/colloc/source/BoundaryConditionSource.py
@@ -42,6 +42,10 @@ class BoundaryConditionSource:
         # Store symbol name of function
         self.symbol_name = '{0:s}'.format(name)
 
+        # Conditions that are already functions need no code
+        if callable(self.coeffs):
+            return
+
         # Write to the code gen
         #
         # TODO: A current limitation of the chebcolloc2 code is that chebcollocs
-- 
2.43.0


From 6233199dbec3467ceb9cc1228d8f1abf0b66ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:26 +0000
Subject: [PATCH 68/97] fix: linearise products with integrals of the unknowns

All integrals of the linearised expression were taken for integral operators acting
on the perturbation, also those which are mere factors, and coefficients that are
numbers were not turned into functions. Both raised.
---
 funpy/colloc/source/IntegralOperatorSource.py | 5 +++--
 funpy/colloc/source/compiler.py               | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/funpy/colloc/source/IntegralOperatorSource.py b/funpy/colloc/source/IntegralOperatorSource.py
index 9c80230..8df4f01 100644
--- a/funpy/colloc/source/IntegralOperatorSource.py
+++ b/funpy/colloc/source/IntegralOperatorSource.py
@@ -54,8 +54,9 @@ class IntegralOperatorSource:
             if self.coeffs.is_constant() or real:
                 cg.write('return {0} * ones(1, domain=[{1:.16f}, {2:.16f}], type=\'{3:s}\')'.\
                          format(ccode, domain[0], domain[1], ftype))
-            else:
-                cg.write('return {0}'.format(ccode))
+            else:  # The coefficient may be a number, i.e. a function of an integral
+                cg.write('return asfun({0}, type=\'{1:s}\', domain=[{2:.16f}, {3:.16f}])'.\
+                         format(ccode, ftype, domain[0], domain[1]))
 
         else:  # nothing -> write zero
             self.posInfo = False
diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index f4615bd..421bad8 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -538,7 +538,9 @@ class Source:
             DM[i, j] = syp.expand(DM[i, j])
 
             # Collect integral terms so that we can extract them!
-            integrals = [arg for arg in preorder_traversal(DM[i, j]) if isinstance(arg, Integral)]
+            # Only those of the perturbation are integral operators, all others are factors.
+            integrals = [arg for arg in preorder_traversal(DM[i, j])
+                         if isinstance(arg, Integral) and arg.has(pfun)]
             for dpfun in integrals:
                 # Extract the coefficient
                 ex = syp.simplify(DM[i, j].coeff(dpfun), ratio=1)
-- 
2.43.0


From 4bc2d2e5d39e56578d9d5bd3e0b1f8392d4c62ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:10 +0000
Subject: [PATCH 69/97] fix: exact QR solver raised AttributeError for every
 matrix

---
 funpy/linalg/exact_linear_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/linalg/exact_linear_solver.py b/funpy/linalg/exact_linear_solver.py
index e91da12..d50aa33 100644
--- a/funpy/linalg/exact_linear_solver.py
+++ b/funpy/linalg/exact_linear_solver.py
@@ -29,7 +29,7 @@ class ExactLinearSolver:
         elif method == 'lu' and not sparse:
             self.solver = DenseLUSolver(A, *args, **kwargs)
         elif method == 'qr':
-            self.solver = QRCholesky(A, rank=self.A.shape[0], *args, **kwargs)
+            self.solver = QRCholesky(A, rank=self.m, *args, **kwargs)
         else:
             raise RuntimeError(f'Unknown exact linear solver {method} requested!')
 
-- 
2.43.0


From e07d0bc7646153e8713dd7030dcc58dacf7799d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:10 +0000
Subject: [PATCH 70/97] fix: sums of operators with integral terms merged the
 integrals' factors

---
 funpy/colloc/quasiOpBlock.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/funpy/colloc/quasiOpBlock.py b/funpy/colloc/quasiOpBlock.py
index eeebd75..41cc9b5 100644
--- a/funpy/colloc/quasiOpBlock.py
+++ b/funpy/colloc/quasiOpBlock.py
@@ -81,11 +81,10 @@ class QuasiOpBlock:
         if self.has_nonlocal:
             new_icoeffs = np.empty_like(self.icoeffs, dtype=object)
             for i in range(self.icoeffs.size):
-                new_icoeffs = -self.icoeffs[i]
+                new_icoeffs[i] = -self.icoeffs[i]
 
-            new_integrand = np.empty_like(self.integrand, dtype=object)
-            for i in range(self.integrand.size):
-                new_integrand = -self.integrand[i]
+            # -(c ∫ d u) = (-c) ∫ d u
+            new_integrand = self.integrand
 
         return QuasiOpBlock(self.block, coeffs=new_coeffs, icoeffs=new_icoeffs,
                             integrand=new_integrand, nl_coeffs=nl_new_coeffs,
@@ -121,13 +120,9 @@ class QuasiOpBlock:
         # see whether we need to add or just take the one that has one!
         # TODO: Should we just by default set the coefficient to zero?
         if self.has_nonlocal and other.has_nonlocal:
-            new_icoeffs = np.empty_like(self.icoeffs, dtype=object)
-            for i in range(self.icoeffs.size):
-                new_icoeffs[i] = other.icoeffs[i] + self.icoeffs[i]
-
-            new_integrand = np.empty_like(self.integrand, dtype=object)
-            for i in range(self.integrand.size):
-                new_integrand[i] = other.integrand[i] + self.integrand[i]
+            # The sum of two integral operators is the sequence of both.
+            new_icoeffs = np.concatenate((self.icoeffs, other.icoeffs))
+            new_integrand = np.concatenate((self.integrand, other.integrand))
 
         elif self.has_nonlocal and not other.has_nonlocal:
             new_icoeffs = self.icoeffs
@@ -175,9 +170,8 @@ class QuasiOpBlock:
             for i in range(self.icoeffs.size):
                 new_icoeffs[i] = other * self.icoeffs[i]
 
-            new_integrand = np.empty_like(self.integrand, dtype=object)
-            for i in range(self.integrand.size):
-                new_integrand[i] = other * self.integrand[i]
+            # a (c ∫ d u) = (a c) ∫ d u
+            new_integrand = self.integrand
 
         new_info = self.info() | other.info()
         new_nl_info = self.nl_info() | other.nl_info()
-- 
2.43.0


From 7ee5f4a69a3691b24b93c111ec1d4a2b149110f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 71/97] fix: scalar multiples of linear operators raised

---
 funpy/colloc/quasiOpBlock.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/funpy/colloc/quasiOpBlock.py b/funpy/colloc/quasiOpBlock.py
index 41cc9b5..7f52aa0 100644
--- a/funpy/colloc/quasiOpBlock.py
+++ b/funpy/colloc/quasiOpBlock.py
@@ -173,11 +173,9 @@ class QuasiOpBlock:
             # a (c ∫ d u) = (a c) ∫ d u
             new_integrand = self.integrand
 
-        new_info = self.info() | other.info()
-        new_nl_info = self.nl_info() | other.nl_info()
         return QuasiOpBlock(self.block, coeffs=new_coeffs, icoeffs=new_icoeffs,
                             integrand=new_integrand, nl_coeffs=nl_new_coeffs,
-                            info=new_info, nl_info=new_nl_info)
+                            info=self.info(), nl_info=self.nl_info())
 
     def __rmul__(self, other):
-        return other * self
+        return self * other
-- 
2.43.0


From 54f153f2fc4c0d4490cfc2c733d93eb4af9a8019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 72/97] fix: coefficients depending on integrals only were
 placed on the default domain

---
 funpy/colloc/source/DiffOperatorSource.py | 4 +++-
 funpy/fun.py                              | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/funpy/colloc/source/DiffOperatorSource.py b/funpy/colloc/source/DiffOperatorSource.py
index 378ee95..a799b5a 100644
--- a/funpy/colloc/source/DiffOperatorSource.py
+++ b/funpy/colloc/source/DiffOperatorSource.py
@@ -66,6 +66,8 @@ class DiffOperatorSource:
             cg.write('return ({0}) * ones(1, domain=[{1:.16f}, {2:.16f}], type=\'{3:s}\')'.\
                      format(ccode, domain[0], domain[1], ftype))
         else:
-            cg.write('return asfun({0}, type=\'{1:s}\')'.format(ccode, ftype))
+            # The coefficient may be a number, i.e. a function of an integral
+            cg.write('return asfun({0}, type=\'{1:s}\', domain=[{2:.16f}, {3:.16f}])'.\
+                     format(ccode, ftype, domain[0], domain[1]))
 
         cg.dedent()
diff --git a/funpy/fun.py b/funpy/fun.py
index 10d783b..c2e5f96 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -307,7 +307,8 @@ def asfun(obj, *args, **kwargs):
         if obj.type == ftype:
             return obj
 
-        return Fun(op=lambda x: obj(x), type=ftype, domain=obj.domain, *args, **kwargs)
+        kwargs['domain'] = obj.domain
+        return Fun(op=lambda x: obj(x), type=ftype, *args, **kwargs)
 
     elif isinstance(obj, Number) or obj.size == 1:
         return Fun(coeffs=np.reshape(np.asarray(obj, dtype=float), (1, 1), order='F'), *args, **kwargs)
-- 
2.43.0


From 2533047ffbe3f4e3aa18b0cea30d17eba740c985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:21 +0000
Subject: [PATCH 73/97] fix: integrals in several terms of the linearisation
 were counted once per term

---
 funpy/colloc/source/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index 421bad8..66c851a 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -541,7 +541,8 @@ class Source:
             # Only those of the perturbation are integral operators, all others are factors.
             integrals = [arg for arg in preorder_traversal(DM[i, j])
                          if isinstance(arg, Integral) and arg.has(pfun)]
-            for dpfun in integrals:
+            # The coefficient extracted below is that of all the terms with the integral
+            for dpfun in dict.fromkeys(integrals):
                 # Extract the coefficient
                 ex = syp.simplify(DM[i, j].coeff(dpfun), ratio=1)
 
-- 
2.43.0


From 9d0e3edc480ceb071dce6ae7f7493eee7c5c9edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:37 +0000
Subject: [PATCH 74/97] fix: derivatives of integrals of the unknowns were
 linearised as their integrands

---
 funpy/colloc/source/support.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/funpy/colloc/source/support.py b/funpy/colloc/source/support.py
index 566c867..42cd621 100644
--- a/funpy/colloc/source/support.py
+++ b/funpy/colloc/source/support.py
@@ -4,7 +4,8 @@
 import re
 import datetime
 import sympy as syp
-from sympy import oo, integrate, Symbol
+from sympy import oo, integrate, Symbol, Integral
+from sympy.core.function import AppliedUndef
 from .gen import CodeGeneratorBackend
 
 
@@ -33,6 +34,23 @@ def convolve(f, g, t, dummy_var_name='r', lower_limit=-oo, upper_limit=oo):
                      (dummy_int_var, lower_limit, upper_limit))
 
 
+class DefiniteIntegral(Integral):
+    """ The integral over the domain of a function: a number, its derivative is zero. """
+    def _eval_derivative(self, sym):
+        return syp.S.Zero if sym in self.variables else super()._eval_derivative(sym)
+
+    def doit(self, **hints):
+        return self
+
+
+def definite_integral(f, *symbols):
+    """ Integrals of the unknowns without limits are integrals over the domain """
+    if f.has(AppliedUndef) and all(isinstance(symbol, Symbol) for symbol in symbols):
+        return DefiniteIntegral(f, *symbols)
+
+    return integrate(f, *symbols)
+
+
 def sympy_base_program_ode(function_names, parameters={}):
     cg = CodeGeneratorBackend()
     cg.begin(tab=4*" ")
@@ -96,8 +114,8 @@ def sympy_base_program(function_names, constant_function_names,
     cg.write('from sympy import symbols, Function, integrate, Derivative')
     cg.write('from sympy import Symbol, oo')
     cg.write('from sympy import Derivative as diff')
-    cg.write('from sympy import integrate as sum')
-    cg.write('from sympy import integrate as int')
+    cg.write('from funpy.colloc.source.support import definite_integral as sum')
+    cg.write('from funpy.colloc.source.support import definite_integral as int')
     cg.write('from sympy.functions import sign')
     cg.write('')
     cg.write('# Domain symbols')
-- 
2.43.0


From 8c4eb2131d3df50c7c233eb2503f5bf2dbbab598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:51 +0000
Subject: [PATCH 75/97] fix: multiplication by functions without constant
 coefficient was wrong for 100 and more coefficients

---
 funpy/colloc/ultraS/transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/funpy/colloc/ultraS/transform.py b/funpy/colloc/ultraS/transform.py
index 82053d8..a77e7f8 100644
--- a/funpy/colloc/ultraS/transform.py
+++ b/funpy/colloc/ultraS/transform.py
@@ -40,8 +40,10 @@ def sptoeplitz_fast(col, format=None):
         ic, jc, sc = find(col)
 
         # use spdiags for construction
-        d = np.hstack((ic[1:], -ic))
-        B = np.tile(np.hstack((sc[1:], sc)), (n, 1)).T
+        # the main diagonal comes once; it may be zero
+        off = ic > 0
+        d = np.hstack((ic[off], -ic))
+        B = np.tile(np.hstack((sc[off], sc)), (n, 1)).T
         T = spdiags(B, d, n, n, format=format)
 
     return T
-- 
2.43.0


From 512face641216b88f3502a5bafa9317c99de3672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:41 +0000
Subject: [PATCH 76/97] fix: flipping rows or columns changed matrices in
 coordinate format

---
 funpy/colloc/sparse/csc.py | 2 +-
 funpy/colloc/sparse/csr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/colloc/sparse/csc.py b/funpy/colloc/sparse/csc.py
index 8d23fa6..94bbc47 100644
--- a/funpy/colloc/sparse/csc.py
+++ b/funpy/colloc/sparse/csc.py
@@ -64,7 +64,7 @@ def eliminate_zeros_csc(mat, eps=None):
 
 def flip_cols(mat, idenCols):
     """ Flips column in a sparse matrix: idenCols must be the order of the new columns """
-    x = mat.tocoo()
+    x = mat.tocoo(copy=True)
     idenCols = np.argsort(idenCols)
     idenCols = np.asarray(idenCols, dtype=x.col.dtype)
     x.col = idenCols[x.col]
diff --git a/funpy/colloc/sparse/csr.py b/funpy/colloc/sparse/csr.py
index 72b1d2f..6248bf0 100644
--- a/funpy/colloc/sparse/csr.py
+++ b/funpy/colloc/sparse/csr.py
@@ -63,7 +63,7 @@ def eliminate_zeros(mat, eps=None):
 
 def flip_rows(mat, idenRows):
     """ Flips row in a sparse matrix: idenRows must be the order of the new rows """
-    x = mat.tocoo()
+    x = mat.tocoo(copy=True)
     idenRows = np.argsort(idenRows)
     idenRows = np.asarray(idenRows, dtype=x.row.dtype)
     x.row = idenRows[x.row]
-- 
2.43.0


From b6a38cd12588be2baafedb5cfe1debca69139f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 77/97] fix: exact linear solvers dropped the last coefficients
 of the Newton corrections

---
 funpy/newton/NewtonSystem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/newton/NewtonSystem.py b/funpy/newton/NewtonSystem.py
index a731fde..1d9b5c4 100644
--- a/funpy/newton/NewtonSystem.py
+++ b/funpy/newton/NewtonSystem.py
@@ -56,8 +56,8 @@ class NewtonSystem:
         linOp, precd, proj = self.matrix(precond=precond)
 
         # Create the exact linear solver
-        self.linSys = ExactLinearSolver(linOp, proj=lambda x: proj.dot(x),
-                                        method=linear_solver)
+        # The projection acts on residuals; the solution has all its coefficients.
+        self.linSys = ExactLinearSolver(linOp, method=linear_solver)
 
     def solve(self, b):
         assert self.linSys is not None, 'Solving via sparse method don\'t call this!'
-- 
2.43.0


From e7157d5d976c79fc4d55e72db596102815e9e6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 78/97] fix: adaptive solves of operators of order three and
 more failed on the first grids

---
 funpy/colloc/chebOp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index 77f14c5..d5c1d00 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -340,7 +340,11 @@ class ChebOp:
         solve_st = time.time()
 
         if adaptive:
-            anw = SolverAdaptive(newton, n_min=self.n_min, ntol=eps)
+            # The grids must be large enough for the order of the problem: 1 + 2**n_min > diffOrder
+            self.compile(par=bool(self.cpar))
+            n_min = max(self.n_min, int(self.diffOrder - 1).bit_length())
+
+            anw = SolverAdaptive(newton, n_min=n_min, ntol=eps)
             s_state, success, iterations = anw.solve(
                 i_state, eps=1e2*eps, debug=debug,
                 verbose=verbose, *args, **kwargs)
-- 
2.43.0


From 871ee229017b76e0c41dc60264cc78eb1c2cfd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 79/97] fix: linearised operators could not be multiplied by
 numbers

---
 funpy/colloc/quasiOp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/funpy/colloc/quasiOp.py b/funpy/colloc/quasiOp.py
index 622e54b..5633d31 100644
--- a/funpy/colloc/quasiOp.py
+++ b/funpy/colloc/quasiOp.py
@@ -1,6 +1,7 @@
 #!/usr/bin/python
 # -*- coding: utf-8 -*-
 # Author: Andreas Buttenschoen
+from numbers import Number
 import numpy as np
 
 
@@ -47,14 +48,15 @@ class QuasiOp:
         return self.__add__(-other)
 
     def __mul__(self, other):
-        if not self.shape == other.shape:
-            raise ValueError("Shape mismatch! %s != %s." % (self.shape, other.shape))
+        """ Scalar multiplication in the vector space of operators! """
+        if not isinstance(other, Number):
+            raise ValueError("QuasiOp.__mul__ other must be a real!")
 
         new_blocks = np.empty(self.shape, dtype=object)
         for i, j in np.ndindex(self.shape):
-            new_blocks[i, j] = self.blocks[i, j] + other.blocks[i, j]
+            new_blocks[i, j] = self.blocks[i, j] * other
 
         return QuasiOp(blocks=new_blocks)
 
     def __rmul__(self, other):
-        return other * self
+        return self * other
-- 
2.43.0


From ae8607c4f5da048866ed9c1b62616bbfc7ad2e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:02 +0000
Subject: [PATCH 80/97] fix: zeros of functions of degree 50 and more were
 computed to eight digits only

---
 funpy/cheb/detail.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index 82c0923..c8ef5f8 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -578,8 +578,8 @@ def roots_main(c, htol, splitPoint, eps=1.48e-8,
         cRight = np.matmul(TRight[:n, :n], c)
 
         # Recurse
-        rLeft = roots_main(cLeft, 2*htol, splitPoint)
-        rRight = roots_main(cRight, 2*htol, splitPoint)
+        rLeft = roots_main(cLeft, 2*htol, splitPoint, eps=eps)
+        rRight = roots_main(cRight, 2*htol, splitPoint, eps=eps)
         r = np.concatenate(((splitPoint - 1)/2 + (splitPoint + 1)/2 * rLeft,
                             (splitPoint + 1)/2 + (1 - splitPoint)/2 * rRight))
 
@@ -598,8 +598,8 @@ def roots_main(c, htol, splitPoint, eps=1.48e-8,
         cRight = polyfit(v[n:]).squeeze()
 
         # Recurse
-        rLeft = roots_main(cLeft, 2*htol, splitPoint)
-        rRight = roots_main(cRight, 2*htol, splitPoint)
+        rLeft = roots_main(cLeft, 2*htol, splitPoint, eps=eps)
+        rRight = roots_main(cRight, 2*htol, splitPoint, eps=eps)
         r = np.concatenate(((splitPoint - 1)/2 + (splitPoint + 1)/2*rLeft,
                             (splitPoint + 1)/2 + (1 - splitPoint)/2 * rRight))
 
@@ -620,7 +620,7 @@ def roots_scalar(f, eps=1.48e-8):
     c = f.coeffs / f.vscale
 
     # call the recursive roots_main function
-    r = roots_main(c.squeeze(), 100*eps, splitPoint)
+    r = roots_main(c.squeeze(), 100*eps, splitPoint, eps=eps)
     return r
 
 def roots(f, *args, **kwargs):
-- 
2.43.0


From 0f90fb934eda0e5559c58f8b9978cd5a7b2b22f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:54 +0000
Subject: [PATCH 81/97] fix: zeros of a function with several components, one
 of them zero, raised

---
 funpy/cheb/detail.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index c8ef5f8..1b3df30 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -609,7 +609,7 @@ def roots_scalar(f, eps=1.48e-8):
     splitPoint = -0.004849834917525
 
     # Trivial case for f constant:
-    if f.shape[0] == 1:
+    if f.shape[0] == 1 or f.vscale == 0:
         if f.coeffs[0, 0] == 0:
             r = [0]
         else:
-- 
2.43.0


From dd3c57f5d1e1b94d38889db31be55569fa21d85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:54 +0000
Subject: [PATCH 82/97] fix: asking for the zeros of a function shortened its
 coefficients

---
 funpy/cheb/chebtech.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 54ecfc1..210f473 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -400,8 +400,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
 
     def roots(self, *args, **kwargs):
         # If we don't simplify this may lead to crashes!
-        self.simplify()
-        return roots(self, eps=self.eps)
+        return roots(np.copy(self).simplify(), eps=self.eps)
 
     def minandmax(self, *args, **kwargs):
         fp = np.diff(self)
-- 
2.43.0


From 7372fefa68513ab0db63cd1dfb183bcf3392d49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 83/97] fix: in-place powers of functions and numpy functions
 with a target did nothing

---
 funpy/fun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index c2e5f96..b299874 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -178,7 +178,8 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
             out = kwargs.pop('out', None)
             ipts = [x.onefun if isinstance(x, type(self)) else x for x in inputs]
             if out is not None:
-                numpy_ufunc(*ipts, out=out[0].onefun, **kwargs)
+                # Most operations return their result instead of writing it to out
+                out[0].onefun = numpy_ufunc(*ipts, out=out[0].onefun, **kwargs)
                 return out[0]
             else:
                 new_fun = numpy_ufunc(*ipts, **kwargs)
-- 
2.43.0


From 9383df8229be69db778d1aa9733629d0ae5fd2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 84/97] fix: the inequality of functions was a function, and
 always true

---
 funpy/fun.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/funpy/fun.py b/funpy/fun.py
index b299874..3636ccf 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -94,6 +94,9 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
         return np.all(self.domain == other.domain) and np.all(self.onefun == other.onefun) \
                 and np.all(self.mapping == other.mapping)
 
+    def __ne__(self, other):
+        return not self == other
+
     def simplify(self, *args, **kwargs):
         self.onefun = self.onefun.simplify(*args, **kwargs)
         return self
-- 
2.43.0


From cbc26af26bac6a6cb362c0396ac86266f7c9f19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:54 +0000
Subject: [PATCH 85/97] fix: the accuracy of periodic functions depended on
 their magnitude

---
 funpy/cheb/detail.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index 1b3df30..46b31ae 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -333,7 +333,8 @@ cpdef standardChopCmplx(complex[::1] coeffs, double tol, Py_ssize_t minimum=17):
         return cutoff
 
     # normalize - envelop function
-    for j in range(n):
+    # (from the back: its first entry is the one divided by)
+    for j in range(n-1, -1, -1):
         envelop[j] /= envelop[0]
 
     # Step 2: Scan the envelope for a value PLAEAUPOINT.
-- 
2.43.0


From da673021ead91159df8edcf7d586ff39b4948958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:54 +0000
Subject: [PATCH 86/97] fix: numpy functions of functions were sampled too
 coarsely

---
 funpy/cheb/chebtech.py | 6 ++++--
 funpy/trig/trigtech.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 210f473..24b8ad2 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -129,11 +129,13 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
                 return cp_func(*inputs, **kwargs)
 
             # If we don't have a special implementation we default to evaluating by value!
+            # (on grids fine enough for the inputs' degrees)
+            minSamples = 2 * max(len(x) for x in inputs if isinstance(x, type(self)))
             if len(inputs) == 1:
-                return chebtech(op=lambda x: numpy_ufunc(inputs[0](x)),
+                return chebtech(op=lambda x: numpy_ufunc(inputs[0](x)), minSamples=minSamples,
                                eps=self.eps, maxLength=self.maxLength)
             elif len(inputs) == 2:
-                return chebtech(op=lambda x: numpy_ufunc(inputs[0](x), inputs[1](x)),
+                return chebtech(op=lambda x: numpy_ufunc(inputs[0](x), inputs[1](x)), minSamples=minSamples,
                                eps=self.eps, maxLength=self.maxLength)
             else:
                 return NotImplemented
diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 4bcc54f..c728480 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -157,12 +157,14 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
                 return cp_func(*inputs, **kwargs)
 
             # If we don't have a special implementation we default to evaluating by value!
+            # (on grids fine enough for the inputs' frequencies)
+            minSamples = 2 * max(len(x) for x in inputs if isinstance(x, type(self)))
             if len(inputs) == 1:
                 op = lambda x: numpy_ufunc(inputs[0](x))
-                return trigtech(op=op)
+                return trigtech(op=op, minSamples=minSamples)
             elif len(inputs) == 2:
                 op = lambda x: numpy_ufunc(inputs[0](x), inputs[1](x))
-                return trigtech(op=op)
+                return trigtech(op=op, minSamples=minSamples)
             else:
                 return NotImplemented
         else:
-- 
2.43.0


From 6d1446263b72351f63df4c24ff7727d1995ec9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:54 +0000
Subject: [PATCH 87/97] fix: absolute values of long functions failed and
 inherited a length limit

---
 funpy/cheb/ufuncs.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 6506d69..c4a6c3d 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -33,8 +33,11 @@ def conjugate(x, **kwargs):
                    eps=x.eps, maxLength=x.maxLength, ishappy=x.ishappy)
 
 def absolute(x, **kwargs):
-    return chebtech(op=lambda y: np.abs(x(y)), minSamples=x.n,
-                   maxLength=2**10, eps=x.eps)
+    # The limit keeps functions with corners short, but does not outlive this call
+    fun = chebtech(op=lambda y: np.abs(x(y)), minSamples=x.n,
+                   maxLength=max(2**10, 2 * x.n), eps=x.eps)
+    fun.maxLength = x.maxLength
+    return fun
 
 def power(x1, x2, **kwargs):
     # if we have one element that is a ndarray or Number we want that to be x2!
-- 
2.43.0


From c4866645f7224ed3916c375f67795397714dedeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:54 +0000
Subject: [PATCH 88/97] fix: functions whose first grid is longer than the
 limit could not be made

---
 funpy/cheb/refine.py | 2 +-
 funpy/trig/refine.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/refine.py b/funpy/cheb/refine.py
index fc00118..b91b6b4 100644
--- a/funpy/cheb/refine.py
+++ b/funpy/cheb/refine.py
@@ -46,7 +46,7 @@ class RefineBase:
                 n = 2**(np.floor(pow) + 1) + 1
 
         if n > f.maxLength:
-            if self.values is None:
+            if self.values is None or self.values.size == 0:
                 n = f.maxLength
                 giveUp = False
             else:
diff --git a/funpy/trig/refine.py b/funpy/trig/refine.py
index 7076e0b..115b051 100644
--- a/funpy/trig/refine.py
+++ b/funpy/trig/refine.py
@@ -34,7 +34,7 @@ class RefineBase(object):
                 n = 2**(np.floor(pow) + 1)
 
         if n > f.maxLength:
-            if self.values is None:
+            if self.values is None or self.values.size == 0:
                 n = f.maxLength
                 giveUp = False
             else:
-- 
2.43.0


From 661aa71bb7605feb341e6c6f58de1f419dd4c156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:36 +0000
Subject: [PATCH 89/97] fix: null vectors of singular systems were not
 normalised by the bordering

---
 funpy/linalg/bem_solve.py | 4 ++--
 funpy/linalg/brd_solve.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/funpy/linalg/bem_solve.py b/funpy/linalg/bem_solve.py
index 5bde1e2..c21c348 100644
--- a/funpy/linalg/bem_solve.py
+++ b/funpy/linalg/bem_solve.py
@@ -193,12 +193,12 @@ class BEM:
     def solve_null_singular(self):
         # Get the null-vectors
         phi, psi = self.solver.null()
-        return np.hstack((phi, 0))
+        return np.hstack((phi / np.dot(self.b, phi), 0))
 
     def solve_null_singular_adj(self):
         # Get the null-vectors
         phi, psi = self.solver.null()
-        return np.hstack((psi, 0))
+        return np.hstack((psi / np.dot(self.c, psi), 0))
 
     def solve_null(self):
         return self.solve_null_singular() if self.is_singular else self.solve_null_nonsing()
diff --git a/funpy/linalg/brd_solve.py b/funpy/linalg/brd_solve.py
index 863e903..05a743d 100644
--- a/funpy/linalg/brd_solve.py
+++ b/funpy/linalg/brd_solve.py
@@ -140,7 +140,7 @@ class BMatrix:
     def solve_null_singular(self):
         # Get the null-vectors
         phi, psi = self.null()
-        return np.hstack((phi, 0))
+        return np.hstack((phi / np.dot(self.b, phi), 0))
 
     def solve_null_nonsingular(self):
         # Prepare
-- 
2.43.0


From ced91734c8c76dcb3a4d49df3cb45c9dec949f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:36 +0000
Subject: [PATCH 90/97] fix: last equation of fold systems was lost and their
 adjoints were wrong

---
 funpy/linalg/fold_solve.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/funpy/linalg/fold_solve.py b/funpy/linalg/fold_solve.py
index fb2c4c1..37de8ed 100644
--- a/funpy/linalg/fold_solve.py
+++ b/funpy/linalg/fold_solve.py
@@ -69,6 +69,7 @@ class FoldSolver:
         N = (n - 1) // 2
         f = x[:N]           # Projected onto range?
         g = x[N:2 * N]
+        h = x[n - 1]
 
         # This is not quite right yet!
         φ, ψ = self.solver.null()   # TODO: need these as functionals! Maybe not?
@@ -93,7 +94,7 @@ class FoldSolver:
         # Step 2: Solve the second row
         b = self.proj(r - α * Bφ)
         η = self.solver.particular(b)
-        β = (x[n - 1] - np.dot(φ, η)) / np.dot(φ, φ)
+        β = (h - np.dot(φ, η)) / np.dot(φ, φ)
         y = η + β * φ
 
         return np.hstack((x, y, z))
@@ -117,6 +118,7 @@ class FoldSolver:
         N = (n - 1) // 2
         f = x[:N]           # Projected onto range?
         g = x[N:2 * N]
+        h = x[n - 1]
 
         # This is not quite right yet!
         φ, ψ = self.solver.null()   # TODO: need these as functionals! Maybe not?
@@ -141,7 +143,7 @@ class FoldSolver:
         # Step 2: Solve the second row
         b = self.proj(r - α * Bψ)
         χ = self.solver.particular_adj(b)
-        β = (x[n - 1] - np.dot(self.c1, x) - np.dot(self.c2, η)) / np.dot(self.c2, ψ)
+        β = (h - np.dot(self.c1, χ) - np.dot(self.c2, y)) / np.dot(self.c1, ψ)
         x = χ + β * ψ
 
         return np.hstack((x, y, z))
-- 
2.43.0


From 7d82296aa7f861b275c5bf0a09db189854f76972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:36 +0000
Subject: [PATCH 91/97] fix: exact convergence of the iterative solver gave not
 a number

---
 funpy/linalg/gbit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/funpy/linalg/gbit.py b/funpy/linalg/gbit.py
index 08707b0..e89fa46 100644
--- a/funpy/linalg/gbit.py
+++ b/funpy/linalg/gbit.py
@@ -73,6 +73,11 @@ def gbit(A, P, b, y=None,
         i = 0
         stop_iter = False
         while i <= i_max and not stop_iter and iter <= max_iter:
+            # The correction vanishes: y solves the system
+            if sigma[i] == 0.0:
+                stop_iter = True
+                break
+
             q[:] = A * np.asarray(delta[i])
             nomatvec += 1
 
-- 
2.43.0


From 34fc59b9745d57701cb8641dc897812ff2812c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:36 +0000
Subject: [PATCH 92/97] fix: determinants of Hessenberg matrices and signs of
 sparse determinants

---
 funpy/linalg/helpers.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/funpy/linalg/helpers.py b/funpy/linalg/helpers.py
index eb4ead7..7a343e8 100644
--- a/funpy/linalg/helpers.py
+++ b/funpy/linalg/helpers.py
@@ -42,7 +42,7 @@ def logdet_detail_superlu(lu):
 
     logdet = np.log(diagL).sum() + np.log(diagU).sum()
 
-    swap_sign = minimumSwaps(lu.perm_r)
+    swap_sign = minimumSwaps(lu.perm_r) + minimumSwaps(lu.perm_c)
     sign = (-1)**(swap_sign) * np.sign(diagL).prod()*np.sign(diagU).prod()
 
     return np.real(sign), np.real(logdet)
@@ -55,10 +55,7 @@ def logdet_detail_umfpack(lu):
 
     logdet = np.log(diagL).sum() + np.log(diagU).sum() + np.log(diagR).sum()
 
-    swap_sign = minimumSwaps(lu.perm_r)
-    sign = (-1)**(swap_sign) * np.sign(diagL).prod()*np.sign(diagU).prod()
-
-    swap_sign = minimumSwaps(lu.perm_c)
+    swap_sign = minimumSwaps(lu.perm_r) + minimumSwaps(lu.perm_c)
     sign = (-1)**(swap_sign) * np.sign(diagL).prod()*np.sign(diagU).prod()
 
     return np.real(sign), np.real(logdet)
@@ -194,9 +191,9 @@ def detH(A):
     for k in range(1, n):
         # Update the products
         for j in range(k):
-            p[j] *= d[j] * A[k, k-1]
+            p[j] *= A[k, k-1]
 
-        d[k+1] = A[k, k] * d[k] + np.sum(signs[:k][::-1] * A[:k, k] * p[:k])
+        d[k+1] = A[k, k] * d[k] + np.sum(signs[:k][::-1] * A[:k, k] * p[:k] * d[:k])
 
     return d[k+1]
 
-- 
2.43.0


From 74dd4a3a34bab12176077e876ee7bce2ec2db6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:36 +0000
Subject: [PATCH 93/97] fix: complete pivoting changed the matrix given to it

---
 funpy/linalg/lucp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/funpy/linalg/lucp.py b/funpy/linalg/lucp.py
index 698f92f..52df4b9 100644
--- a/funpy/linalg/lucp.py
+++ b/funpy/linalg/lucp.py
@@ -26,10 +26,12 @@ def lucp(A, tol=1e-8, full=False, format='csr'):
     elif issubclass(A.dtype.type, numbers.Integral):
         # make sure the matrix is float
         dtype = np.float64
-        A = A.astype(dtype)
     else:
         dtype = A.dtype
 
+    # the elimination below works in place
+    A = A.astype(dtype)
+
     # pivot vectors
     p = np.arange(0, n, 1, dtype=np.int64)
     q = np.arange(0, m, 1, dtype=np.int64)
-- 
2.43.0


From da12c266c5e9da4f64336ea7d8a126e9241dd317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:36 +0000
Subject: [PATCH 94/97] fix: null vectors from complete pivoting were wrong

---
 funpy/linalg/nullspace.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/funpy/linalg/nullspace.py b/funpy/linalg/nullspace.py
index f485dd0..3eeed76 100644
--- a/funpy/linalg/nullspace.py
+++ b/funpy/linalg/nullspace.py
@@ -35,14 +35,12 @@ def null_vector(A, right=True, left=False, normalize=True):
         phi = np.negative(np.ones(m), dtype=dtype)
 
         # Solve for the right null-vector
-        # Create the correct right hand side for the backwards solve
-        phi[:m-1] = U.getcol(m-1).toarray().reshape(n)[:n-1]
-
         # then we must solve: Ustar = nu = u
-        spsolve_triangular(U[:n-1, :m-1], phi[:m-1], lower=False, overwrite_b=True, overwrite_A=True)
+        u = U[:n-1, m-1].toarray().reshape(n-1)
+        phi[:m-1] = spsolve_triangular(U[:n-1, :m-1], u, lower=False)
 
         # now to compute phi we have to multiply by Q
-        phi = phi[Q]  # Q.dot(phi)
+        phi = phi[np.argsort(Q)]
 
         if normalize:
             phi /= np.linalg.norm(phi, ord=2)
@@ -52,15 +50,13 @@ def null_vector(A, right=True, left=False, normalize=True):
         psi = np.negative(np.ones(m), dtype=dtype)
 
         # Solve for the left null-vector
-        # Create the correct right hand side for the backwards solve
-        L_dual = L.getH()
-        psi[:m-1] = L_dual.getcol(m-1).toarray().reshape(n)[:n-1]
-
         # then we must solve: Lstar w = l
-        spsolve_triangular(L_dual[:n-1, :m-1], psi[:m-1], lower=False, overwrite_b=True, overwrite_A=True)
+        L_dual = L.conj().T.tocsr()
+        l = L_dual[:n-1, m-1].toarray().reshape(n-1)
+        psi[:m-1] = spsolve_triangular(L_dual[:n-1, :m-1], l, lower=False)
 
         # now to compute psi we have to multiply by P^-1
-        psi = P.T.dot(psi)
+        psi = psi[np.argsort(P)]
 
         if normalize:
             psi /= np.linalg.norm(psi, ord=2)
-- 
2.43.0


From 5c4c5783cb317df25c05e8351beea9d203c597e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:36 +0000
Subject: [PATCH 95/97] fix: least norm solutions for rank deficiency two and
 more

---
 funpy/linalg/qr_chol.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/funpy/linalg/qr_chol.py b/funpy/linalg/qr_chol.py
index 03aae1b..4b51db7 100644
--- a/funpy/linalg/qr_chol.py
+++ b/funpy/linalg/qr_chol.py
@@ -50,7 +50,7 @@ class QRCholesky:
             self.R = self.Rtot[:self.rank, :self.rank]
             self.S = self.Rtot[:self.rank, self.rank:]
             if sparse:
-                self.jbar = np.asarray(LAS.spsolve_triangular(self.R, self.S.todense(), lower=False))
+                self.jbar = LAS.spsolve_triangular(self.R, self.S.toarray(), lower=False).reshape(self.S.shape)
             else:
                 self.jbar = LA.solve_triangular(self.R, self.S)
 
@@ -193,8 +193,8 @@ class QRCholesky:
         Qyk = np.dot(self.jbar.T, Pyk)
 
         # solve using Cholesky
-        tmp = LA.solve_triangular(self.L, Qyk)
-        Qxk = LA.solve_triangular(self.L, tmp, trans=1)
+        tmp = LA.solve_triangular(self.L, Qyk, trans=1)
+        Qxk = LA.solve_triangular(self.L, tmp)
 
         Pxk = Pyk - np.dot(self.jbar, Qxk)
         return -np.hstack((Pxk, Qxk))[self.C]
@@ -222,8 +222,8 @@ class QRCholesky:
         Qyk = np.dot(self.jbar.T, Pyk)
 
         # solve using Cholesky
-        tmp = LA.solve_triangular(self.L, Qyk)
-        Qxk = LA.solve_triangular(self.L, tmp, trans=1)
+        tmp = LA.solve_triangular(self.L, Qyk, trans=1)
+        Qxk = LA.solve_triangular(self.L, tmp)
 
         Pxk = Pyk - np.dot(self.jbar, Qxk)
         return -np.hstack((Pxk, Qxk))[self.C]
-- 
2.43.0


From aa84cd0dabe5565fbccd234f4d7ed4a9391d9400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 96/97] fix: QR factorisation of functions that are not
 resolved raised an error

---
 funpy/cheb/qr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/qr.py b/funpy/cheb/qr.py
index fc8d21a..f85756f 100644
--- a/funpy/cheb/qr.py
+++ b/funpy/cheb/qr.py
@@ -51,6 +51,6 @@ def qr(f, eps=1.48e-8):
 
     # compute the corresponding Chebyshev coefficients
     coeffs = polyfit(Q)
-    return coeffs[:newN//2+1, :], R
+    return np.asfortranarray(coeffs[:newN//2+1, :]), R
     #Q = chebtec(coeffs=coeffs[:newN//2+1, :], interval=f.interval, simplify=False)
     return Q, R
-- 
2.43.0


From ea839020d9c5b2d3d0bfd197e1ce45ffda3ef972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 97/97] fix: weighted functionals could not be applied

---
 funpy/functional.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/funpy/functional.py b/funpy/functional.py
index 62e1b8f..4e62d47 100644
--- a/funpy/functional.py
+++ b/funpy/functional.py
@@ -23,9 +23,10 @@ class Functional:
         n = kwargs.pop('n', None) or function.n
 
         if weighted:
-            self.coeffs = np.array(np.copy(function).prolong(n))
-            self.coeffs[0] *= np.pi
-            self.coeffs[1:] *= 0.5 * np.pi
+            coeffs = np.array(np.copy(function).prolong(n).coeffs)
+            coeffs[0] *= np.pi
+            coeffs[1:] *= 0.5 * np.pi
+            self.coeffs = coeffs.reshape(1, -1, order='F')
 
         else:
             pairing = self.__trig if function.istrig else self.__cheb
-- 
2.43.0

