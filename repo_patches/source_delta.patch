From 89587b14cc7f031d4243dcad14855d8755794195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:30 +0000
Subject: [PATCH 001/101] fix: a dimension without points has an output format

---
 hftools/dataset/dim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dim.py b/hftools/dataset/dim.py
index a89e916..1792f01 100644
--- a/hftools/dataset/dim.py
+++ b/hftools/dataset/dim.py
@@ -103,7 +103,9 @@ class DimBase(object):
     @property
     def outputformat(self):
         if self._outputformat is None:
-            if is_integer(self._data[0]):
+            if len(self._data) == 0:
+                return "%s"
+            elif is_integer(self._data[0]):
                 return "%d"
             elif is_numlike(self._data[0]):
                 return "%.16e"
-- 
2.43.0


From fafe4923e36e7c2bf0adb06871e4f4fec3bc86d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:36 +0000
Subject: [PATCH 002/101] fix: indexing with a list or plain array keeps the
 coordinates in step

---
 hftools/dataset/arrayobj.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 6fc190f..1a8e942 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -604,7 +604,8 @@ class _hfarray(ndarray):
 
     @apply_outputformat
     def __getitem__(self, x):
-        if x is newaxis or (isinstance(x, tuple) and newaxis in x):
+        if x is newaxis or (isinstance(x, tuple) and
+                            any(i is newaxis for i in x)):
             return self.view(type=ndarray, dtype=self.dtype)[x]
         if x is Ellipsis:
             return self.view()
@@ -665,6 +666,9 @@ class _hfarray(ndarray):
                 continue
             elif isinstance(idx, slice):
                 dims.append(dim[idx])
+            elif (isinstance(idx, (list, ndarray)) and
+                  not isinstance(idx, hfarray) and np.ndim(idx) == 1):
+                dims.append(dim[np.asarray(idx)])
             else:
                 dims.append(dim_in_indices.get(dim.name, dim))
         if ellipsis_and_ints:
-- 
2.43.0


From c7b9af34908b155abb44cdc348a91aafbcd52d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:53 +0000
Subject: [PATCH 003/101] fix: negative axis numbers in reductions and squeeze

---
 hftools/dataset/arrayobj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 1a8e942..a10d56d 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -974,7 +974,7 @@ def multiple_axis_handler(a, axis):
     for ax in axis:
         if isinstance(ax, integer_types):
             outaxis.append(a.dims[ax])
-            outidx.append(ax)
+            outidx.append(ax if ax >= 0 else ax + len(a.dims))
             continue
         if isinstance(ax, string_types):
             i = a.dims_index(ax)
-- 
2.43.0


From 905e0cd02b0dcc27ceb5523d985e47c9a1662f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:53 +0000
Subject: [PATCH 004/101] fix: std and var honour ddof

---
 hftools/dataset/arrayobj.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index a10d56d..591f383 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -824,7 +824,8 @@ class _hfarray(ndarray):
                 raise
             else:
                 return self
-        r = np.asarray(self).std(dimidx, dtype=dtype, out=out, keepdims=True)
+        r = np.asarray(self).std(dimidx, dtype=dtype, out=out, ddof=ddof,
+                                 keepdims=True)
         res = hfarray(r, dims=self.dims)
         if not keepdims:
             res = res.squeeze(axis=dimidx)
@@ -844,7 +845,8 @@ class _hfarray(ndarray):
                 raise
             else:
                 return self
-        r = np.asarray(self).var(dimidx, dtype=dtype, out=out, keepdims=True)
+        r = np.asarray(self).var(dimidx, dtype=dtype, out=out, ddof=ddof,
+                                 keepdims=True)
         res = hfarray(r, dims=self.dims)
         if not keepdims:
             res = res.squeeze(axis=dimidx)
-- 
2.43.0


From d0fc5d200774bf7720ac37dfa1419b12dc682b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:03 +0000
Subject: [PATCH 005/101] fix: take keeps the coordinates and unit of the taken
 points

---
 hftools/dataset/arrayobj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 591f383..eb77ec6 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -566,7 +566,8 @@ class _hfarray(ndarray):
             return hfarray(data, dims=(DimAnonymous("anon1", indices), ))
         axis = self.dims_index(axis_handler(self, axis))
         olddim = self.dims[axis]
-        newdim = olddim.__class__(olddim.name, indices)
+        newdim = olddim.__class__(olddim, data=olddim.data.take(indices,
+                                                                mode=mode))
         data = np.ndarray.take(self, indices, axis, out, mode)
         newdims = list(self.dims)
         newdims[axis] = newdim
-- 
2.43.0


From 28b3ea8cb61e3cb7e2b2de80c79655c99c51e96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:07 +0000
Subject: [PATCH 006/101] fix: remove_rep collapses non-adjacent repetition
 dimensions correctly

---
 hftools/dataset/arrayobj.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index eb77ec6..c85461b 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -277,16 +277,14 @@ def remove_rep(data, newdimname="AllReps"):
         dims = list(zip(*order))[1]
 
         newdata = data.reorder_dimensions(*(data.dims[:order[0][0]] + dims))
-        newdata = hfarray(np.ascontiguousarray(data, dtype=data.dtype),
-                          dims=newdata.dims, dtype=newdata.dtype,
-                          unit=newdata.unit)
         shapes = [data.shape[i] for i, _ in order]
         repsize = int(np.multiply.reduce(shapes))
-        a = np.array(data)
-        a.shape = (data.shape[:order[0][0]] + (repsize,) +
-                   data.shape[order[-1][0] + 1:])
-        dims = (data.dims[:order[0][0]] + (DimRep(newdimname, repsize),) +
-                data.dims[order[-1][0] + 1:])
+        start = order[0][0]
+        stop = start + len(order)
+        a = np.array(newdata, order="C")
+        a.shape = (newdata.shape[:start] + (repsize,) + newdata.shape[stop:])
+        dims = (newdata.dims[:start] + (DimRep(newdimname, repsize),) +
+                newdata.dims[stop:])
     else:
         dims = data.dims
         a = data
-- 
2.43.0


From c07caee07b9d206e5e8194d335d2ef9b35ab331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:31 +0000
Subject: [PATCH 007/101] fix: convert multiports with any number of ports

---
 hftools/networks/multiports.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 8e17d68..f740270 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -67,10 +67,11 @@ def convert(fromP, toP, a):
     PB = inv(toP)
     PA = fromP
     P = matrix_multiply(PA, PB)
-    tau1 = P[..., :2, :2]
-    sigma1 = P[..., :2, 2:]
-    tau2 = P[..., 2:, :2]
-    sigma2 = P[..., 2:, 2:]
+    N = a.shape[-1]
+    tau1 = P[..., :N, :N]
+    sigma1 = P[..., :N, N:]
+    tau2 = P[..., N:, :N]
+    sigma2 = P[..., N:, N:]
     A = inv(tau1 - matrix_multiply(a, tau2))
     B = -sigma1 + matrix_multiply(a, sigma2)
     res = matrix_multiply(A, B)
-- 
2.43.0


From 396b5a09517ab79cf6cec46b31b4a8ecc4251850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:31 +0000
Subject: [PATCH 008/101] fix: converting multiports with integer data does not
 truncate

---
 hftools/networks/multiports.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index f740270..7d9dc41 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -144,6 +144,9 @@ class _MultiPortArray(_hfarray):
                              for (x, size) in zip(defaultdims, shape))
                 dims = dims + (DimMatrix_i("i", data.shape[-2]),
                                DimMatrix_j("j", data.shape[-1]))
+        if (dtype is None and isinstance(data, _MultiPortArray) and
+                not isinstance(data, subtype) and data.dtype.kind in "biu"):
+            dtype = np.float64
         out = _hfarray.__new__(subtype, data, dims=dims, dtype=dtype,
                                copy=copy, order=order, subok=subok,
                                ndmin=ndmin, unit=unit)
-- 
2.43.0


From 5ff8bfb2765118b44e82588431fa5c9ca5f838c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:31 +0000
Subject: [PATCH 009/101] fix: S-parameter arrays keep and honour their
 reference impedance

---
 hftools/networks/multiports.py | 37 ++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 7d9dc41..6e10651 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -99,9 +99,12 @@ class _MultiPortArray(_hfarray):
                         accessor = make_accessor(i, j)
                         self._attrfuns[label] = accessor
 
-        if isinstance(data, self.__class__) and self.Z0 == data.Z0:
-            pass
-        elif isinstance(data, _MultiPortArray):
+        if not isinstance(data, _MultiPortArray):
+            if Z0 is not None:
+                self.Z0 = Z0
+        elif isinstance(data, self.__class__) and Z0 in (None, data.Z0):
+            self.Z0 = data.Z0
+        else:
             if Z0 is None:
                 self.Z0 = getattr(data, "Z0", None)
             else:
@@ -159,7 +162,7 @@ class _MultiPortArray(_hfarray):
     def view(self, dtype=None, type=None):
         if type is None:
             x = np.ndarray.view(self, dtype=self.dtype)
-            return self.__class__(x, dims=self.dims, copy=False, Z0=self.Z0)
+            return self.__class__(x, dims=self.dims, copy=False)
         else:
             return np.ndarray.view(self, dtype=self.dtype, type=type)
 
@@ -173,8 +176,8 @@ class _MultiPortArray(_hfarray):
 
         Converts *self* and *other* to S-parameters first if necessary.
         """
-        a = SArray(self)
-        b = SArray(other)
+        a = SArray(self, Z0=50.)
+        b = SArray(other, Z0=50.)
         return self.__class__(cascadeS(a, b))
 
     def deembed(self, left=None, right=None):
@@ -186,15 +189,15 @@ class _MultiPortArray(_hfarray):
         if left is None and right is None:
             return self
         elif left is None:
-            return self.__class__(deembedright(SArray(self),
-                                               SArray(right)))
+            return self.__class__(deembedright(SArray(self, Z0=50.),
+                                               SArray(right, Z0=50.)))
         elif right is None:
-            return self.__class__(deembedleft(SArray(left),
-                                              SArray(self)))
+            return self.__class__(deembedleft(SArray(left, Z0=50.),
+                                              SArray(self, Z0=50.)))
         else:
-            return self.__class__(deembed(SArray(left),
-                                          SArray(self),
-                                          SArray(right)))
+            return self.__class__(deembed(SArray(left, Z0=50.),
+                                          SArray(self, Z0=50.),
+                                          SArray(right, Z0=50.)))
 
     def __getattr__(self, key):
         try:
@@ -214,7 +217,9 @@ class _MultiPortArray(_hfarray):
     def __getitem__(self, idx):
         data = self.view(dtype=self.dtype, type=hfarray).__getitem__(idx)
         if ismatrix(data):
-            return self.__class__(data, copy=False)
+            out = self.__class__(data, copy=False)
+            out.Z0 = self.Z0
+            return out
         else:
             return data
 
@@ -333,7 +338,9 @@ This model may be of any dimension.
 """
     shortname = "S"
 
-    def __init__(self, data, dims=None, copy=True, Z0=50., info=None, unit=None):
+    def __init__(self, data, dims=None, copy=True, Z0=None, info=None, unit=None):
+        if Z0 is None and not isinstance(data, SArray):
+            Z0 = 50.
         _MultiPortArray.__init__(self, data, dims, copy=copy, Z0=Z0, info=info, unit=unit)
 
     @property
-- 
2.43.0


From 6c9e9890761e45a8eaa6cf426eac5f51eba4525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:53 +0000
Subject: [PATCH 010/101] fix: cascading real with complex S-parameters keeps
 the imaginary part

---
 hftools/networks/spar_functions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index b146b5c..aca69a6 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -23,7 +23,8 @@ def cascadeS(S1, S2, *rest):
     s1det = det(S1)
     s2det = det(S2)
     maxshape = tuple(max(x) for x in zip(S1.shape, S2.shape))
-    res = S1.__class__(np.zeros(maxshape, S1.dtype), dims=S1.dims)
+    dtype = np.result_type(S1.dtype, S2.dtype, np.float64)
+    res = S1.__class__(np.zeros(maxshape, dtype), dims=S1.dims)
     res[..., 0, 0] = S1[..., 0, 0] - S2[..., 0, 0] * s1det
     res[..., 0, 1] = S1[..., 0, 1] * S2[..., 0, 1]
     res[..., 1, 0] = S1[..., 1, 0] * S2[..., 1, 0]
@@ -49,7 +50,8 @@ def deembedleft(e, X):
              e[..., 0, 0] * e[..., 1, 1] +
              e[..., 1, 1] * X[..., 0, 0])
     maxshape = tuple(max(x) for x in zip(X.shape, e.shape))
-    res = X.__class__(np.zeros(maxshape, X.dtype), dims=X.dims)
+    dtype = np.result_type(X.dtype, e.dtype, np.float64)
+    res = X.__class__(np.zeros(maxshape, dtype), dims=X.dims)
     e11 = (X[..., 0, 0] - e[..., 0, 0])
     e12 = (X[..., 0, 1] * e[..., 1, 0])
     e21 = (X[..., 1, 0] * e[..., 0, 1])
@@ -80,7 +82,8 @@ def deembedright(X, e):
              e[..., 0, 0] * e[..., 1, 1] +
              e[..., 0, 0] * X[..., 1, 1])
     maxshape = tuple(max(x) for x in zip(X.shape, e.shape))
-    res = X.__class__(np.zeros(maxshape, X.dtype), dims=X.dims)
+    dtype = np.result_type(X.dtype, e.dtype, np.float64)
+    res = X.__class__(np.zeros(maxshape, dtype), dims=X.dims)
     res[..., 0, 0] = (-X[..., 0, 1] * X[..., 1, 0] * e[..., 0, 0])
     res[..., 0, 1] = (X[..., 0, 1] * e[..., 1, 0])
     res[..., 1, 0] = (X[..., 1, 0] * e[..., 0, 1])
-- 
2.43.0


From 20048c018a7a138e064495351dafdaf0a509503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:53 +0000
Subject: [PATCH 011/101] fix: cascadeS cascades every argument it is given

---
 hftools/networks/spar_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index aca69a6..25ed79b 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -31,6 +31,8 @@ def cascadeS(S1, S2, *rest):
     res[..., 1, 1] = S2[..., 1, 1] - S1[..., 1, 1] * s2det
     res = res / denom
     res = S1.__class__(res, dims=S1.dims)
+    if rest:
+        return cascadeS(res, *rest)
     return res
 
 
-- 
2.43.0


From 18e9efcbd939b5f6831acfcec4fcc06e1e88b737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:50 +0000
Subject: [PATCH 012/101] fix: noise resistance computed from an ABCD
 correlation matrix

---
 hftools/networks/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/networks/noise.py b/hftools/networks/noise.py
index 2356c41..84fe236 100644
--- a/hftools/networks/noise.py
+++ b/hftools/networks/noise.py
@@ -91,7 +91,7 @@ class NoisyTwoport(object):
             CA11 = CA[..., 0, 0]
             CA12 = CA[..., 0, 1]
             CA22 = CA[..., 1, 1]
-            Rn = CA11.real
+            Rn = CA11.real / 2
             Yopt = (np.sqrt(CA22 / CA11 - (CA12.imag / CA11) ** 2) +
                     1j * (CA12.imag / CA11))
             Fmin = 1 + (CA12 + CA11 * Yopt.conj()).real
-- 
2.43.0


From aa58cfa0d25356e86ce58e777f1c1089d4181d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:17 +0000
Subject: [PATCH 013/101] fix: make_reciprocal chooses the root on the side of
 the original

---
 hftools/networks/spar_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index 25ed79b..2ee11d9 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -155,7 +155,7 @@ def make_reciprocal(S):
     s12 = S[..., 0, 1]
     s21 = S[..., 1, 0]
     S12 = np.sqrt(s12 * s21)
-    A12 = np.where(np.angle(S12 / s12) < 1, S12, -S12)
+    A12 = np.where(abs(np.angle(S12 / s12)) < np.pi / 2, S12, -S12)
     S[..., 0, 1] = A12
     S[..., 1, 0] = A12
     return S
-- 
2.43.0


From d52ea413e18caa3ca31a7f74e1ae408fe53b0930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:17 +0000
Subject: [PATCH 014/101] fix: unit_matrix and unit_smatrix return the
 requested class

---
 hftools/networks/multiports.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 6e10651..69e5818 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -545,7 +545,7 @@ def unit_matrix(size=2, cls=SArray):
     i = DimMatrix_i("i", range(size))
     j = DimMatrix_j("j", range(size))
     m = hfarray(np.identity(size, dtype=np.complex128), dims=(i, j))
-    return SArray(m)
+    return cls(m)
 
 
 def unit_smatrix(size=2, cls=SArray):
@@ -553,7 +553,7 @@ def unit_smatrix(size=2, cls=SArray):
     j = DimMatrix_j("j", range(size))
     m = hfarray(np.zeros((size, size), dtype=np.complex128), dims=(i, j))
     m[0, 1] = m[1, 0] = 1
-    return SArray(m)
+    return cls(SArray(m))
 
 
 if __name__ == "__main__":
-- 
2.43.0


From de60a70e5921cca1dac4fb434ae4387bbdbb10c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:01 +0000
Subject: [PATCH 015/101] fix: make_matrix keeps the widest type of its
 elements

---
 hftools/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/math.py b/hftools/math.py
index adb7a25..0779640 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -44,7 +44,7 @@ def make_matrix(a, b, c, d):
     a, b, c, d = make_same_dims_list([a, b, c, d])
     abcdshape = zip(a.shape, b.shape, c.shape, d.shape)
     maxshape = (tuple(max(x) for x in abcdshape) + (2, 2))
-    res = zeros(maxshape, a.dtype)
+    res = zeros(maxshape, np.result_type(a, b, c, d))
     res[..., 0, 0] = a
     res[..., 0, 1] = b
     res[..., 1, 0] = c
-- 
2.43.0


From 91c8afbabb55086c1ead7489810469f50f9fe313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:01 +0000
Subject: [PATCH 016/101] fix: lstsq works when the system has to be broadcast

---
 hftools/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index 0779640..edcfcb5 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -432,8 +432,8 @@ def lstsq(A, b, squeeze=True):
     xempty = np.empty(res.outershape + x.shape, dtype=x.dtype)
     xresult = hfarray(xempty, dims=xdims)
 
-    for a, b, rx in broadcast_matrices((A, b, xresult)):
-        rx[...], _, _, _ = lstsq(a, b)
+    for idx, (aa, bb) in zip(np.ndindex(*res.outershape), res):
+        xresult[idx], _, _, _ = lstsq(aa, bb)
     return xresult
 
 
-- 
2.43.0


From 0825f0f04bf39df964c56cc2396053a8487c7d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:00 +0000
Subject: [PATCH 017/101] fix: matrix products and solutions have as many
 coordinates as points

---
 hftools/math.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index edcfcb5..4452b31 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -390,6 +390,22 @@ def matrix_multiply_old(A, B):
     return result
 
 
+def _with_matrix_points(dims, rows, columns):
+    """Return *dims* with the last two (matrix) dimensions given the
+    coordinates of the dimensions *rows* and *columns*.
+    """
+    i, j = dims[-2:]
+    return dims[:-2] + (i.__class__(i.name, rows.data),
+                        j.__class__(j.name, columns.data))
+
+
+def _columns(x, default):
+    for dim in getattr(x, "dims", ()):
+        if isinstance(dim, DimMatrix_j):
+            return dim
+    return default
+
+
 def matrix_multiply(a, b):
     """Multiply arrays of matrices.
 
@@ -398,7 +414,8 @@ def matrix_multiply(a, b):
     """
     A, B = make_same_dims(a, b)
     res = np.einsum("...ij,...jk->...ik", A, B)
-    return hfarray(res, dims=A.dims)
+    dims = _with_matrix_points(A.dims, A.dims[-2], _columns(b, A.dims[-1]))
+    return hfarray(res, dims=dims)
 
 
 def flatten_non_matrix(A):
@@ -418,7 +435,9 @@ def det(A):
 def solve_Ab(A, b, squeeze=True):
     AA, bb = make_same_dims(A, b)
     x = np.linalg.solve(AA, bb)
-    result = hfarray(x, dims=bb.dims)
+    columns = _columns(b, DimMatrix_j("j", bb.shape[-1]))
+    dims = _with_matrix_points(bb.dims, _columns(A, bb.dims[-2]), columns)
+    result = hfarray(x, dims=dims)
     if squeeze:
         result = result.squeeze()
     return result
@@ -429,6 +448,8 @@ def lstsq(A, b, squeeze=True):
     res = broadcast_matrices((A, b))
     x, residuals, rank, s = lstsq(firstelement(res._broadcasted[0]), firstelement(res._broadcasted[1]))
     xdims = res._broadcasted[0].dims
+    columns = _columns(b, DimMatrix_j("j", x.shape[-1]))
+    xdims = _with_matrix_points(xdims, _columns(A, xdims[-2]), columns)
     xempty = np.empty(res.outershape + x.shape, dtype=x.dtype)
     xresult = hfarray(xempty, dims=xdims)
 
-- 
2.43.0


From 13ee6317db92b0f3415c1f5897a5bb182fc9e534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:00 +0000
Subject: [PATCH 018/101] fix: renaming to the same name keeps the position

---
 hftools/dataset/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 2fd55be..3cc9e67 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -139,6 +139,8 @@ class DataDict(dict):
 
     def rename(self, oldname, newname):
         vdata = self[oldname]
+        if newname == oldname:
+            return
         if newname not in self.order:
             self.order[self.order.index(oldname)] = newname
         del self[oldname]
-- 
2.43.0


From 152c2bc76abb199e4f689a74db3a27cd2d804eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:00 +0000
Subject: [PATCH 019/101] fix: only complete element names address matrix
 elements

---
 hftools/dataset/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 3cc9e67..305e621 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -181,7 +181,7 @@ class DataDict(dict):
         return self.order + dir(type(self)) + list(self.__dict__.keys())
 
 reg_matrix_name = re.compile("([_A-Za-z]([_A-Za-z0-9]*"
-                             "[_A-Za-z])?)([0-9][0-9])")
+                             "[_A-Za-z])?)([1-9][1-9])$")
 
 
 def is_matrix_name(x):
-- 
2.43.0


From 154dabaeb29dd7ac185d5890f6cf42eb958b369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:15 +0000
Subject: [PATCH 020/101] fix: equal dimensions have equal hashes

__eq__ ignores the output format, __hash__ did not, so equal dimensions were
not found as dictionary keys or set members.
---
 hftools/dataset/dim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dim.py b/hftools/dataset/dim.py
index 1792f01..217d314 100644
--- a/hftools/dataset/dim.py
+++ b/hftools/dataset/dim.py
@@ -147,8 +147,9 @@ class DimBase(object):
                                      self.data.shape)
 
     def __hash__(self):
+        # the output format does not take part in comparisons
         return hash((self.sortprio, self.name, self.__class__, self._data,
-                     self._unit, self._outputformat))
+                     self._unit, None))
 
     def __getitem__(self, index):
         if isinstance(index, slice) and (index == slice(None, None, None)):
-- 
2.43.0


From dfe38be4af77ae58e87483dec09984a200b40fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:16 +0000
Subject: [PATCH 021/101] fix: dimensions of different kinds or units can be
 ordered

Classes, and None and strings, do not compare in Python 3, so sorting raised
TypeError for dimensions differing in those respects only.
---
 hftools/dataset/dim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hftools/dataset/dim.py b/hftools/dataset/dim.py
index 217d314..a2a9429 100644
--- a/hftools/dataset/dim.py
+++ b/hftools/dataset/dim.py
@@ -120,11 +120,11 @@ class DimBase(object):
         return (self.data, (self,))
 
     def __lt__(self, other):
-        a = (self.sortprio, self.name, self.__class__, self._data,
-             self._unit, self._outputformat)
+        a = (self.sortprio, self.name, self.__class__.__name__, self._data,
+             self._unit or "")
         try:
-            b = (other.sortprio, other.name, other.__class__, other._data,
-                 other._unit, self._outputformat)
+            b = (other.sortprio, other.name, other.__class__.__name__,
+                 other._data, other._unit or "")
         except AttributeError:
             a = self.name
             b = other
-- 
2.43.0


From 67c52d8cbe461e11e09e9075cc27544002ffa0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:56 +0000
Subject: [PATCH 022/101] fix: remove_rep keeps the unit and output format

---
 hftools/dataset/arrayobj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index c85461b..33cee4e 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -288,7 +288,8 @@ def remove_rep(data, newdimname="AllReps"):
     else:
         dims = data.dims
         a = data
-    return data.__class__(a, dims=dims, copy=False)
+    return data.__class__(a, dims=dims, unit=data.unit,
+                          outputformat=data.outputformat, copy=False)
 
 
 def make_fullcomplex_array(a):
-- 
2.43.0


From e541c677329dedd9d714259a2162432aebb4f627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:57 +0000
Subject: [PATCH 023/101] fix: hyper labels the points of the grid with their
 own coordinates

The data were sorted by coordinate but the coordinates were listed in order of
appearance, and points that do not form a complete grid were accepted when
their number happened to fit.
---
 hftools/dataset/dataset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 305e621..4e2fe87 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -675,7 +675,7 @@ class DataBlock(object):
                 newname = "%s_index" % x
             else:
                 newname = x
-            dims.append(DimSweep(newname, stable_uniq(self[x]),
+            dims.append(DimSweep(newname, sorted(stable_uniq(self[x])),
                                  unit=self[x].unit,
                                  outputformat=self[x].outputformat))
             sortdata.append(self[x])
@@ -686,6 +686,10 @@ class DataBlock(object):
 
         sortorder = sorted(zip(*sortdata))
         sortorderidx = [x[-1] for x in sortorder]
+        grid = list(itertools.product(*[dim.data for dim in dims]))
+        if [x[:-1] for x in sortorder] != grid:
+            msg = "values of %r do not form a complete grid" % (dimnames,)
+            raise ValueError(msg)
 
         for dim in dims:
             out.ivardata[dim.name] = dim
-- 
2.43.0


From ec4a62f660558f921da3ac4f4e80fc0b09c91014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:57 +0000
Subject: [PATCH 024/101] fix: filter by coordinate values

The mask was made over the values given instead of over the dimension they
select from, which failed unless both had the same length.
---
 hftools/dataset/dataset.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 4e2fe87..82064ac 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -420,12 +420,9 @@ class DataBlock(object):
                 warn(msg)
                 return out
             localdim = self.ivardata[boolarray.dims[0].name]
-            intersection = set(localdim.data).intersection(boolarray)
-            barray = boolarray.astype(bool)
-            barray[...] = False
-            for f in intersection:
-                barray[boolarray == f] = True
-            boolarray = barray
+            wanted = np.array(boolarray)
+            boolarray = hfarray([x in wanted for x in localdim.data],
+                                dims=(localdim,))
 
         out = DataBlock()
         out.blockname = self.blockname
-- 
2.43.0


From 3162e966052bc281392b9ce48f27874da6e1aa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:49 +0000
Subject: [PATCH 025/101] fix: DataBlock.remove_rep puts all variables on the
 same repetitions

Variables storing the repetition dimensions in another order were mislabelled
and those having only some of them got an AllReps dimension of another
length.
---
 hftools/dataset/dataset.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 82064ac..fcbca37 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -25,7 +25,7 @@ import numpy.random as rnd
 from numpy import zeros, array, linspace
 
 from hftools.dataset.arrayobj import hfarray, ismatrix,\
-    remove_rep, _hfarray
+    remove_rep, change_shape, _hfarray
 from hftools.dataset.dim import DimBase, DimSweep, DimRep,\
     DimMatrix_i, DimMatrix_j, DiagAxis
 from hftools.utils import warn, stable_uniq
@@ -656,8 +656,21 @@ class DataBlock(object):
             a = np.array(a, copy=False)
             a.shape = (newdim.data.shape[0],)
             out[dim.name] = hfarray(a, dims=(newdim,))
-        for x in self.vardata:
-            out[x] = remove_rep(self[x], newdimname)
+        for x, v in self.vardata.items():
+            reps = [i for i, dim in enumerate(v.dims)
+                    if isinstance(dim, DimRep)]
+            if reps:
+                # every variable gets all repetitions, in the same order
+                newdims = v.dims[:reps[0]] + tuple(dims)
+                newdims += tuple(dim for dim in v.dims[reps[0]:]
+                                 if not isinstance(dim, DimRep))
+                data = np.array(change_shape(v, newdims))
+                for i, dim in enumerate(newdims):
+                    if dim not in v.dims:
+                        data = data.repeat(dim.data.shape[0], axis=i)
+                v = v.__class__(data, dims=newdims, unit=v.unit,
+                                outputformat=v.outputformat)
+            out[x] = remove_rep(v, newdimname)
         return out
 
     def hyper(self, dimnames, replacedim, indexed=False, all=True):
-- 
2.43.0


From 41929afec1203c3043a62a355fb28f55589328fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:49 +0000
Subject: [PATCH 026/101] fix: sort keeps dimensions no variable depends on

---
 hftools/dataset/dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index fcbca37..9455f64 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -487,6 +487,9 @@ class DataBlock(object):
                 out[v] = data
                 continue
 
+        for k, v in self.ivardata.items():
+            if k not in out.ivardata:
+                out[k] = v
         olddim = self.ivardata[dimname]
         out.xname = self.xname
         data = self[dimname][sortorder]
-- 
2.43.0


From 65a5ec9cbb9be0c18d07d22c280a14dbe1a28e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:35 +0000
Subject: [PATCH 027/101] fix: filter keeps dimensions no variable depends on

---
 hftools/dataset/dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 9455f64..9f9962e 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -452,6 +452,9 @@ class DataBlock(object):
             dimorder = [x.name for x in self.vardata[v].dims]
             utdata = utdata.reorder_dimensions(*dimorder)
             out[v] = utdata
+        for k, v in self.ivardata.items():
+            if k not in out.ivardata:
+                out[k] = newdim if k == newdim.name else v
         out.xname = self.xname
         return out
 
-- 
2.43.0


From d169807837f764cd25b0adb2d8cace4eef7d33e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:39 +0000
Subject: [PATCH 028/101] fix: smooth along any axis

---
 hftools/math.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index 4452b31..ba7352c 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -205,6 +205,8 @@ def smooth(data, aperture, axis=0):
     """
     data = np.asanyarray(data)
     newdata = np.empty_like(data)
+    src = np.moveaxis(np.asarray(data), axis, 0)
+    dst = np.moveaxis(np.asarray(newdata), axis, 0)
     len = data.shape[axis] - 1
     if aperture % 2 == 0:
         odd = 0
@@ -213,9 +215,9 @@ def smooth(data, aperture, axis=0):
     for i in range(data.shape[axis]):
         wid = min(i, aperture // 2, abs(len - i))
         if wid != 0:
-            newdata[i] = np.mean(data[i - wid: i + wid + odd], axis)
+            dst[i] = np.mean(src[i - wid: i + wid + odd], 0)
         else:
-            newdata[i] = data[i]
+            dst[i] = src[i]
     return newdata
 
 
-- 
2.43.0


From 95f520515f08c60d8c2588a2fc4adb69b41d0549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:39 +0000
Subject: [PATCH 029/101] fix: smoothing integer data does not truncate the
 means

---
 hftools/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/math.py b/hftools/math.py
index ba7352c..95e0195 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -204,7 +204,7 @@ def smooth(data, aperture, axis=0):
             axel som skall smoothas langs default = 1
     """
     data = np.asanyarray(data)
-    newdata = np.empty_like(data)
+    newdata = np.empty_like(data, dtype=np.result_type(data, 1.0))
     src = np.moveaxis(np.asarray(data), axis, 0)
     dst = np.moveaxis(np.asarray(newdata), axis, 0)
     len = data.shape[axis] - 1
-- 
2.43.0


From cbaa7140dbf577d4d9c9a19c26d2e09dcc125b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:39 +0000
Subject: [PATCH 030/101] fix: poly_smooth uses the last sample

The windows stopped one sample short of the end, so the last sample was never
fitted and its smoothed value was extrapolated.
---
 hftools/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/math.py b/hftools/math.py
index 95e0195..5381bd4 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -246,7 +246,7 @@ def poly_smooth(x, y, aperture, axis=0, N=3):
     """
     import scipy
     newdata = np.empty_like(y)
-    size = x.shape[axis] - 1
+    size = x.shape[axis]
     if aperture % 2 == 0:
         odd = 0
     else:
-- 
2.43.0


From 27a98c153b5b69e05192d8737b4ec0a6334f972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:39 +0000
Subject: [PATCH 031/101] fix: picking points of a dataset along any axis in
 the order asked for

interpolate without a mode always took the points along the first axis and in
the order of the old coordinates, under the labels of the new ones.
---
 hftools/dataset/dataset.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 9f9962e..db67d97 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -762,14 +762,11 @@ def interpolate(newx, y, defaultmode=None):
     dimidx = olddims.matching_index(newx)
     newdims = olddims[:dimidx] + (newx,) + olddims[dimidx + 1:]
     if mode in [None, "none"]:
-        bools = np.array(newx.data)[:, None] == np.array(oldx.data)[None, :]
-        boolarray = hfarray(bools.any(axis=0),
-                            dims=(oldx,),
-                            unit=y.unit,
-                            outputformat=y.outputformat)
-        if boolarray.sum() != len(newx.data):
+        oldvalues = list(oldx.data)
+        if not all(x in oldvalues for x in newx.data):
             raise ValueError("Missing x-values")
-        data = np.array(y, copy=False)[boolarray]
+        indices = [oldvalues.index(x) for x in newx.data]
+        data = np.array(y, copy=False).take(indices, axis=dimidx)
     elif mode in ["linear"]:
         data = interp1d(y.dims[dimidx].data, y, axis=dimidx)(newx.data)
     else:
-- 
2.43.0


From b1c6263e284ab614290eb8ff78bc5923a85f618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:34 +0000
Subject: [PATCH 032/101] fix: read touchstone files with a single frequency

---
 hftools/file_formats/touchstone.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 821d56a..dc77ec8 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -80,9 +80,10 @@ class ReadTouchstoneFileFormat(ReadFileFormat):
 
 
 def process_data(data):
-    max_N = int(sqrt(sum(map(len, data)) - 1) / 2 + 1)
+    # a file with a single frequency has 2 * n ** 2 + 1 values
+    max_N = int(sqrt(max(sum(map(len, data)) - 1, 0) / 2.))
     n = 1  # number of ports
-    for n in range(1, max_N):
+    for n in range(1, max_N + 1):
         N = 2 * n ** 2 + 1  # number of data points per frequency
         output, noise = _process_data(data, N)
         if output:
-- 
2.43.0


From 7b431dbe8d558039e98de072ec0c3f609c190df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:34 +0000
Subject: [PATCH 033/101] fix: write touchstone files with three or more ports
 row by row

---
 hftools/file_formats/touchstone.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index dc77ec8..f8f8812 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -23,7 +23,7 @@ from numpy import iscomplexobj, sqrt
 from hftools.math import dB_angle_to_complex, mag_angle_to_complex,\
     re_im_to_complex
 from hftools.dataset import DataBlock, DimSweep, hfarray,\
-    make_matrix, DimMatrix_i, DimMatrix_j
+    make_matrix, ismatrix, DimMatrix_i, DimMatrix_j
 from hftools.file_formats.common import Comments, db_iterator,\
     make_col_from_matrix
 from hftools.file_formats.readbase import Token
@@ -211,8 +211,10 @@ def format_touchstone_block(sweepvars, header, fmts,
         yield ["!" + comment]
 
     yield [comments.property.get("INFO", ["#HZ S RI R 50"])[0]]
-    header, columns = make_col_from_matrix(header, columns,
-                                           "%s[%s,%s]", fortranorder=True)
+    # only two-ports are written column by column
+    fortranorder = any(ismatrix(x) and x.shape[-1] == 2 for x in columns)
+    header, columns = make_col_from_matrix(header, columns, "%s[%s,%s]",
+                                           fortranorder=fortranorder)
     fmts = [x.outputformat for x in columns]
     for row in zip(*columns):
         out = []
@@ -240,7 +242,8 @@ def save_touchstone(db, filename):
 
 
         header, columns = make_col_from_matrix([db.S.dims[0].name, "S"], [hfarray(db.S.dims[0]), db.S],
-                                               "%s[%s,%s]", fortranorder=True)
+                                               "%s[%s,%s]",
+                                               fortranorder=db.S.shape[-1] == 2)
         fmts = [x.outputformat for x in columns]
 
         for row in zip(*columns):
-- 
2.43.0


From a0896b9229b0e5b39ca28adba2a16651826f7690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:34 +0000
Subject: [PATCH 034/101] fix: save touchstone files for data without comments

---
 hftools/file_formats/touchstone.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index f8f8812..660f56a 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -231,9 +231,10 @@ def save_touchstone(db, filename):
     """Write a Datablock to a touchstone-format file with name filename.
     """
     with open(filename, "w") as fil:
-        for comment in db.comments.fullcomments:
-            fil.write("!" + comment)
-            fil.write("\n")
+        if db.comments is not None:
+            for comment in db.comments.fullcomments:
+                fil.write("!" + comment)
+                fil.write("\n")
         for k, v in db.vardata.items():
             if v.shape == ():
                 fil.write("!%s: %s\n" % (k, v.outputformat % v))
-- 
2.43.0


From 4bec56dd143c7d5b71bdd0f35e3fb77a0f6e4b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:34 +0000
Subject: [PATCH 035/101] fix: write the reference impedance of the data to
 touchstone files

---
 hftools/file_formats/touchstone.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 660f56a..9b75d68 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -239,7 +239,10 @@ def save_touchstone(db, filename):
             if v.shape == ():
                 fil.write("!%s: %s\n" % (k, v.outputformat % v))
 #            fil.write("\t".join(rad))
-        fil.write("#HZ S RI R 50\n")
+        z0 = 50
+        if "Z0" in db.vardata and db.Z0.shape == ():
+            z0 = db.Z0.real
+        fil.write("#HZ S RI R %.17g\n" % z0)
 
 
         header, columns = make_col_from_matrix([db.S.dims[0].name, "S"], [hfarray(db.S.dims[0]), db.S],
-- 
2.43.0


From 4a6400ab19eabb9692ee0196ba6ea213112b6f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:34 +0000
Subject: [PATCH 036/101] fix: touchstone optimum source reflection is given as
 magnitude and angle

---
 hftools/file_formats/touchstone.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 9b75d68..87adbd2 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -199,7 +199,9 @@ def proc_info(info, f, data, fn, noisedata):
     if noisedata is not None:
         db.Rn = hfarray(noisedata[..., -1], dims=noisedims) * z0
         db.Fmin = 10 ** (hfarray(noisedata[..., 0], dims=noisedims) / 10)
-        db.Gopt = hfarray(convfunc[datatype](noisedata[:, 1], noisedata[:, 2]),
+        # always magnitude and angle, whatever the format of the network data
+        db.Gopt = hfarray(mag_angle_to_complex(noisedata[:, 1],
+                                               noisedata[:, 2]),
                           dims=noisedims)
     db.Z0 = hfarray(z0, unit="Ohm")
     return db
-- 
2.43.0


From 777f065f9a298adef5a8aacdf5caa33dcd65582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:51 +0000
Subject: [PATCH 037/101] fix: matrices read from file keep complex elements
 after a real one

---
 hftools/file_formats/readbase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 12af29f..4f7a93a 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -383,8 +383,9 @@ class ReadFileFormat(object):
         for vname, (elems, i_indices, j_indices) in matrices.items():
             ex = block[elems[0]]
             shape = ex.shape
+            dtype = np.result_type(*[block[elem].dtype for elem in elems])
             x = np.empty(shape + (len(i_indices) * len(j_indices),),
-                         dtype=ex.dtype)
+                         dtype=dtype)
             for idx, elem in enumerate(elems):
                 x[..., idx] = block[elem]
                 del block[elem]
-- 
2.43.0


From 668acc4b172ef95093400cccd06b69e0324a87e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:51 +0000
Subject: [PATCH 038/101] fix: citi files saved with scalar variables can be
 read

---
 hftools/file_formats/citi.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 976cbe1..a74ac45 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -177,8 +177,16 @@ def handle_data(data, typ):
 
 def format_citi_block(inblock):
     block = DataBlock()
+    scalars = []
     for k, v in inblock.vardata.items():
-        block[k] = v
+        if v.ndim == 0 and is_numlike(v):
+            scalars.append((k, v))
+        else:
+            block[k] = v
+    if not block.ivardata:
+        for k, v in scalars:
+            block[k] = v
+        scalars = []
     block.blockname = inblock.blockname
     block.comments = inblock.comments
     yield "CITIFILE A.01.01"
@@ -188,6 +196,12 @@ def format_citi_block(inblock):
             yield "!" + comment.lstrip("!")
     else:
         pass
+    # every DATA list has one value per point of the sweeps, so variables
+    # without sweeps are stored as comments
+    for k, v in scalars:
+        fmt = "%s" if iscomplexobj(v) else v.outputformat
+        name = "%s [%s]" % (k, v.unit) if v.unit else k
+        yield "!%s: %s" % (name, fmt % v)
     yield "NAME %s" % block.blockname
 
     for name, value in block.ivardata.items():
-- 
2.43.0


From 89040ce4790b2705b4d244340d4d485f548dd9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:51 +0000
Subject: [PATCH 039/101] fix: citi files store all variables in the order of
 the sweeps

---
 hftools/file_formats/citi.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index a74ac45..e7629d5 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -231,8 +231,13 @@ def format_citi_block(inblock):
                 yield fmt % rad
             yield "VAR_LIST_END"
 
+    # The values are stored in the order of the VAR lines
+    sweeps = [dim for dim in block.ivardata.values()
+              if not isinstance(dim, _DimMatrix)]
     for name, value in block.vardata.items():
         if is_numlike(value):
+            value = value.reorder_dimensions(*[dim for dim in sweeps
+                                               if dim in value.dims])
             if hftools.dataset.ismatrix(value):
                 values = []
                 for i in hfarray(value.dims[-2]):
-- 
2.43.0


From 0782a29e02f29a910da88a2b98bfc483cde7e2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:02 +0000
Subject: [PATCH 040/101] fix: numbers with an exponent and a unit are
 converted

---
 hftools/constants/si_units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index 7f4355c..defb05e 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -64,7 +64,7 @@ def unit_to_multiplier(unit):
     else:
         return 1, unit
 
-reg_value = re.compile(r"[-+0-9.]+[eE]?[-+0-9]?")
+reg_value = re.compile(r"[-+0-9.]+([eE][-+]?[0-9]+)?")
 reg_unit = re.compile(r"\s*[[]?([a-zA-Z%]+)[]]?")
 
 
-- 
2.43.0


From 985c48f7e62c8b405d88edb3f975508db669ef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:02 +0000
Subject: [PATCH 041/101] fix: save datasets that only contain sweep values

---
 hftools/file_formats/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 302cebd..dfc89b5 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -387,7 +387,7 @@ def make_block_iterator(data, first=False):
         comments = data.comments
         yield (sweepvars, header, fmts, columns,
                blockname, comments)
-        raise StopIteration
+        return
     d = data.vardata.values()[0]
     if ismatrix(d):
         dimsnames = [x.name for x in d.dims[:-2]]
-- 
2.43.0


From 9a35fcea31fc8b423c7663dad453c5b14f312fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:44 +0000
Subject: [PATCH 042/101] fix: save_spdata writes variables without dimensions

---
 hftools/file_formats/spdata.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index 1389bcb..f78c428 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -27,7 +27,7 @@ from hftools.file_formats.common import Comments, db_iterator,\
     make_col_from_matrix, format_complex_header, format_elem
 from hftools.file_formats.readbase import ReadFileFormat
 from hftools.file_formats.readbase import Token
-from hftools.utils import to_numeric
+from hftools.utils import to_numeric, is_numlike
 from hftools.py3compat import string_types
 
 class SPDataIOError(HFToolsIOError):
@@ -160,6 +160,11 @@ class ReadSPFileFormat(ReadFileFormat):
 def format_sp_block(sweepvars, header, fmts, columns, blockname, comments):
     for comment in comments.fullcomments:
         yield ["!" + comment.lstrip("!")]
+    for vname, value in comments.property.items():  # variables without dims
+        if is_numlike(value):
+            fmt = "%s" if np.iscomplexobj(value) else value.outputformat
+            name = "%s [%s]" % (vname, value.unit) if value.unit else vname
+            yield ["!%s: %s" % (name, fmt % value)]
     for iname, fmt, value in sweepvars:
         yield [("!@%s=" + fmt) % (iname, value)]
     header, columns = make_col_from_matrix(header, columns, "%s%s%s")
-- 
2.43.0


From 52c5e2263f4abcbc6b3fdbebf11766b96f12b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:05 +0000
Subject: [PATCH 043/101] fix: merging blocks where a variable is present in
 one block only

---
 hftools/file_formats/merge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index f086cc4..8d47eca 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -186,7 +186,9 @@ def merge_blocks(blocks, hyper=False, indexed=False):
                 continue
             partials = get_partials(b)
             v.append(b[vname])
-        if v:
+        if len(v) == 1:  # only present in one block, can not be indexed
+            db[vname] = v[0]
+        elif v:
             k = tuple(partials.keys())
             if k:
                 ri = (db[tuple(dimpartialgroups[k].keys())[0]].dims[0],)
-- 
2.43.0


From a93cea0662985a6cbe6ac5c262873bb6e532fecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:25 +0000
Subject: [PATCH 044/101] fix: merging blocks keeps the order of the variables

---
 hftools/file_formats/merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index 8d47eca..1eb2bf0 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -171,13 +171,14 @@ def merge_blocks(blocks, hyper=False, indexed=False):
             db[k] = hfarray([x.data[0] for x in v],
                             dims=dims, unit=v[0].unit)
 
-    varnames = set()
+    varnames = []
     for b in blocks:
         for k, v in b.ivardata.items():
             if k not in db:
                 db[k] = v
         for k in b.vardata.keys():
-            varnames.add(k)
+            if k not in varnames:
+                varnames.append(k)
 
     for vname in varnames:
         v = []
-- 
2.43.0


From 70ad144a89d7327d951d9d2783848ec6808c26af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:52 +0000
Subject: [PATCH 045/101] fix: read mdif files to the end

---
 hftools/file_formats/mdif.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index d41db6b..1b6c16d 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -198,17 +198,23 @@ class ReadMDIFFileFormat(ReadFileFormat):
         containing a measurement data block.
         """
         while True:
-            comments = ManyOptional("COMMENT")(stream)
-
             def split_eq(rad):
                 return [x.strip() for x in rad.split("=")]
-            var = ManyOptional("VAR", split_eq)(stream)
-            blockname = One("BEGIN", "Must have Begin after VARs")(stream)
-            attribs = ManyOptional("ATTRIB", split_eq)(stream)
-            header = ManyOptional("HEADER", lambda rad: rad.split())(stream)
-            data = ManyOptional("DATA")(stream)
-            out = (comments, var, blockname, header, attribs, data)
-            One("END", "Must have END after DATA")(stream)
+            try:
+                comments = ManyOptional("COMMENT")(stream)
+                var = ManyOptional("VAR", split_eq)(stream)
+            except StopIteration:  # no more blocks
+                return
+            try:
+                blockname = One("BEGIN", "Must have Begin after VARs")(stream)
+                attribs = ManyOptional("ATTRIB", split_eq)(stream)
+                header = ManyOptional("HEADER",
+                                      lambda rad: rad.split())(stream)
+                data = ManyOptional("DATA")(stream)
+                out = (comments, var, blockname, header, attribs, data)
+                One("END", "Must have END after DATA")(stream)
+            except StopIteration:
+                raise MDIFError("Unexpected end of file in mdif block")
             yield out
 
     def parse_blocks(self, stream):
-- 
2.43.0


From e5ff650ef91a55d26e0c3e3994b461effcd6505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:52 +0000
Subject: [PATCH 046/101] fix: asking for a missing mdif block is an error

---
 hftools/file_formats/mdif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 1b6c16d..2190e8b 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -155,7 +155,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
                 return res[blockname]
             else:
                 msg = "%r not a block in mdif file %r" % (blockname, filename)
-                MDIFError(msg)
+                raise MDIFError(msg)
         else:
             return res
 
-- 
2.43.0


From 51b250a5f3566783581b854e932a16903ea806bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:52 +0000
Subject: [PATCH 047/101] fix: save mdif files for data without attributes and
 any sweep values

---
 hftools/file_formats/mdif.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 2190e8b..f40daa8 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -469,8 +469,9 @@ def fixnames(mdif):
 def fmt_mdif_block(dims, db):
     dimnames = [x.name for x in dims]
     fmts = [x.outputformat for x in dims]
-    for coord in itertools.product(*[x.data for x in dims[1:]]):
-        for iname, fmt, value in zip(dimnames[1:], fmts[1:], coord):
+    for coord in itertools.product(*[range(len(x.data)) for x in dims[1:]]):
+        values = [x.data[i] for x, i in zip(dims[1:], coord)]
+        for iname, fmt, value in zip(dimnames[1:], fmts[1:], values):
 #            import pdb;pdb.set_trace()
             yield [("VAR SWEEP.%s(real) = " + fmt) % (iname, value)]
         blockname = db.blockname
@@ -478,8 +479,9 @@ def fmt_mdif_block(dims, db):
             blockname = "DATABLOCK"
         yield ["BEGIN %s" % blockname]
 
-        attribnames, attribdata = zip(*[(k, v) for (k, v) in db.vardata.items()
-                                        if v.dims == dims[1:]])
+        attribnames = [k for (k, v) in db.vardata.items()
+                       if v.dims == dims[1:]]
+        attribdata = [db.vardata[k] for k in attribnames]
         attribheader = format_complex_header(attribnames, attribdata,
                                              "%s(real)", "%s(complex)",
                                              None, unit_fmt=False)
-- 
2.43.0


From 0ed1358ffcb1f99d5e7d4639472ca0800ac922e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:48 +0000
Subject: [PATCH 048/101] fix: save mdif files with the name of the block

---
 hftools/dataset/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index db67d97..02846a7 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -44,6 +44,7 @@ class DataBlockError(Exception):
 def subset_datablock_by_dims(db, dims):
     """Get subset of db with variables with matching dims."""
     out = DataBlock()
+    out.blockname = db.blockname
     dimset = set(dims)
     if len(dims) != len(dimset):
         msg = "dims %r did not specify unique dimensions %r" % (dims, dimset)
-- 
2.43.0


From f1176ec7b45242c849f23da72524deb5ee48e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:48 +0000
Subject: [PATCH 049/101] fix: read mdif files where a variable is present in
 one block only

---
 hftools/file_formats/mdif.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index f40daa8..4cb1d37 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -336,9 +336,17 @@ def simple_merge_blocks(blocks):
     ri = DimRep("INDEX", len(blocks))
     out = DataBlock()
     #import pdb;pdb.set_trace()
-    for k in blocks[0].vardata:
-        out[k] = hfarray([b[k] for b in blocks],
-                         dims=(ri,) + blocks[0][k].dims)
+    varnames = []
+    for b in blocks:
+        varnames.extend(k for k in b.vardata if k not in varnames)
+    for k in varnames:
+        values = [b[k] for b in blocks if k in b]
+        if len(values) == 1:  # only present in one block, can not be indexed
+            out[k] = values[0]
+            continue
+        elif len(values) != len(blocks):
+            raise MDIFError("%r is missing in some of the blocks" % k)
+        out[k] = hfarray(values, dims=(ri,) + blocks[0][k].dims)
         if blocks[0][k].dims:
             out[k] = out[k].reorder_dimensions(blocks[0][k].dims[0])
     for k in blocks[0].ivardata:
-- 
2.43.0


From 521f0c732703d7b8fc2b5a69e1d08fe193d6732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:34 +0000
Subject: [PATCH 050/101] fix: read mdif files with vectors

---
 hftools/file_formats/mdif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 4cb1d37..bab8456 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -303,7 +303,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
             a.sort()
             fmt = "%s[%%s]" % (matrix, )
             arrays = [np.array(db.vardata[fmt % i])[:, np.newaxis] for i, in a]
-            dims = db.vardata["%s[%s]" % (matrix, i)].dims
+            dims = db.vardata[fmt % a[0]].dims
             X = np.concatenate(arrays, 1)
             X.shape = X.shape[:1] + (len(a),)
             db.vardata[matrix] = make_vector(X, dims)
-- 
2.43.0


From 9daadfc320f3e88ae786ef77e0b7670b32470843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:49 +0000
Subject: [PATCH 051/101] fix: blocks that do not fit together are not merged

---
 hftools/file_formats/merge.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index 1eb2bf0..7999e5b 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -12,10 +12,12 @@ from collections import OrderedDict
 from numpy import array, empty
 import numpy as np
 
-from hftools.core.exceptions import HFToolsHyperCubeError
+from hftools.core.exceptions import HFToolsHyperCubeError,\
+    DimensionMismatchError
 from hftools.dataset import DataDict, DimSweep, DimPartial, hfarray,\
     DataBlock, DimRep
 from hftools.file_formats.common import Comments
+from hftools.utils import is_numlike
 
 
 def merge_blocks_to_association_list(blocks):
@@ -155,6 +157,20 @@ def get_partials(db):
     return partials
 
 
+def same_coordinates(dims, otherdims):
+    if [d.name for d in dims] != [d.name for d in otherdims]:
+        return False
+    for a, b in zip(dims, otherdims):
+        if a.data.shape != b.data.shape:
+            return False
+        elif not (is_numlike(a.data) and is_numlike(b.data)):
+            if not np.all(a.data == b.data):
+                return False
+        elif not np.allclose(a.data, b.data):
+            return False
+    return True
+
+
 def merge_blocks(blocks, hyper=False, indexed=False):
     db = DataBlock()
     dimpartialgroups = OrderedDict()
@@ -167,6 +183,9 @@ def merge_blocks(blocks, hyper=False, indexed=False):
 
     for idx, dims in enumerate(dimpartialgroups.values(), 1):
         for k, v in dims.items():
+            if k in db:
+                msg = "Can not merge blocks, %r is not in all of them"
+                raise DimensionMismatchError(msg % k)
             dims = (DimSweep("INDEX%s" % idx, len(v)),)
             db[k] = hfarray([x.data[0] for x in v],
                             dims=dims, unit=v[0].unit)
@@ -195,6 +214,16 @@ def merge_blocks(blocks, hyper=False, indexed=False):
                 ri = (db[tuple(dimpartialgroups[k].keys())[0]].dims[0],)
             else:
                 ri = tuple()
+            owners = [tuple(get_partials(b).keys()) for b in blocks
+                      if vname in b]
+            if set(owners) != set([k]) or (ri and
+                                           len(v) != len(ri[0].data)):
+                msg = "Can not merge %r, it is not in all blocks with %r"
+                raise DimensionMismatchError(msg % (vname, k))
+            for x in v:
+                if not same_coordinates(x.dims, v[0].dims):
+                    msg = "Can not merge %r, its dimensions differ"
+                    raise DimensionMismatchError(msg % vname)
             try:
                 value = hfarray(v, dims=ri + v[0].dims, unit=v[0].unit)
             except UnicodeError:
-- 
2.43.0


From 10231c19e9e84834fcd8e9defd20cb9c13dccdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:08 +0000
Subject: [PATCH 052/101] fix: mdif blocks with different sweeps are not merged

---
 hftools/file_formats/mdif.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index bab8456..12347b2 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -29,6 +29,7 @@ from hftools.dataset import DataBlock, DataDict, hfarray, DimSweep,\
 from hftools.utils import glob
 from hftools.file_formats.common import Comments,\
     format_complex_header, format_elem
+from hftools.file_formats.merge import same_coordinates
 from hftools.file_formats.readbase import ManyOptional,\
     One, Token, ReadFileFormat, FileFormatError
 
@@ -346,6 +347,9 @@ def simple_merge_blocks(blocks):
             continue
         elif len(values) != len(blocks):
             raise MDIFError("%r is missing in some of the blocks" % k)
+        for x in values:
+            if not same_coordinates(x.dims, values[0].dims):
+                raise MDIFError("The sweeps of %r differ" % k)
         out[k] = hfarray(values, dims=(ri,) + blocks[0][k].dims)
         if blocks[0][k].dims:
             out[k] = out[k].reorder_dimensions(blocks[0][k].dims[0])
-- 
2.43.0


From 617a2d6846c32076747105deda9c593b32b00b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:04 +0000
Subject: [PATCH 053/101] fix: the unit of a number may be in brackets

---
 hftools/constants/si_units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index defb05e..f20e9c7 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -77,7 +77,7 @@ def string_number_with_unit_to_value(string_number):
         reg_unit = re.compile(r"\s*[[]?([a-zA-Z%]+)[]]?")
         unit_res = reg_unit.match(string_number[res.span()[-1]:])
         if unit_res:
-            unit = unit_res.group()
+            unit = unit_res.group(1)
         else:
             unit = None
     else:
-- 
2.43.0


From c1248154e93a0aaded458b4b21c0cb6a1a813d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:04 +0000
Subject: [PATCH 054/101] fix: prefixes zepto, yocto, zetta and yotta

---
 hftools/constants/si_units.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index f20e9c7..13e8460 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -23,16 +23,17 @@ siprefixes = dict(d=0.1, c=0.01,
                   m=1e-03, u=1e-06, n=1e-09,
                   p=1e-12, f=1e-15, a=1e-18,
                   k=1e003, M=1e006, G=1e009,
-                  T=1e012, P=1e015, E=1e018)
+                  T=1e012, P=1e015, E=1e018,
+                  z=1e-21, y=1e-24, Z=1e021, Y=1e024)
 siprefixes[""] = 1.
 si_exp_to_prefixes = {0: "",
                       3: "k", 6: "M", 9: "G", 12: "T", 15: "P",
-                      18: "E", 21: "Z", -24: "Y",
+                      18: "E", 21: "Z", 24: "Y",
                       -3: "m", -6: "u", -9: "n", -12: "p", -15: "f",
                       -18: "a", -21: "z", -24: "y"}
 si_exp_to_prefixes_greek = {0: "",
                             3: "k", 6: "M", 9: "G", 12: "T", 15: "P",
-                            18: "E", 21: "Z", -24: "Y",
+                            18: "E", 21: "Z", 24: "Y",
                             -3: "m", -6: "μ", -9: "n", -12: "p", -15: "f",
                             -18: "a", -21: "z", -24: "y"}
 
-- 
2.43.0


From 0c9c0c2cf2477c5f46f8f04e980fce1bf7eeb05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:04 +0000
Subject: [PATCH 055/101] fix: format numbers outside the range of the prefixes

---
 hftools/constants/si_units.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index 13e8460..149b272 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -106,7 +106,8 @@ def _help_format_sci(value, digs):
     mul = e % 3
     if (e >= 0 and e < 3):
         return m * 10 ** mul, 0
-    return (value * 10 ** -(e - mul), e - mul)
+    exp = min(max(e - mul, -24), 24)
+    return (value * 10 ** -exp, exp)
 
 
 def mantissa(x):
@@ -128,6 +129,9 @@ def format_number(number, fmt="%(num)s %(unit)s",
             num = "inf"
         else:
             num = "-inf"
+    elif np.isnan(number):
+        prefix = ""
+        num = "nan"
     else:
         num, exp = _help_format_sci(number, digs)
         if digs is None:
-- 
2.43.0


From 3685ce62d1d3d133b62577c1746b1c27f6b7ec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:20 +0000
Subject: [PATCH 056/101] fix: guess units of comments with the value zero

---
 hftools/dataset/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 02846a7..88e485a 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -643,7 +643,7 @@ class DataBlock(object):
                         self[varname].unit = unit
                 if self.comments:
                     prop = self.comments.property
-                    if varname in prop and prop[varname]:
+                    if varname in prop:
                         v = prop[varname]
                         if getattr(v, "unit", "") is None:
                             v.unit = unit
-- 
2.43.0


From e924f81dca689423ca1a769d98a5dddb1d9a5a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:20 +0000
Subject: [PATCH 057/101] fix: comments with a unit and a value that is not a
 number

---
 hftools/dataset/comments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/comments.py b/hftools/dataset/comments.py
index 07273f6..74fc2a5 100644
--- a/hftools/dataset/comments.py
+++ b/hftools/dataset/comments.py
@@ -141,7 +141,10 @@ def process_comment(comment):
             except ValueError:
                 pass
         else:
-            value = convert([convert_with_unit], unit, value)
+            try:
+                value = convert([convert_with_unit], unit, value)
+            except ValueError:
+                pass
         out[varname] = value
     return out
 
-- 
2.43.0


From 81c33916cbebc2bffac517dc72b775d28e1a4e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:34 +0000
Subject: [PATCH 058/101] fix: comments with a unit and a date

---
 hftools/dataset/comments.py    | 2 +-
 hftools/file_formats/common.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/comments.py b/hftools/dataset/comments.py
index 74fc2a5..86273f6 100644
--- a/hftools/dataset/comments.py
+++ b/hftools/dataset/comments.py
@@ -111,7 +111,7 @@ def convert(convertors=[], *vars):
     for convfun in convertors:
         try:
             return convfun(*vars)
-        except ValueError:
+        except (ValueError, TypeError):
             pass
     raise ValueError
 
diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index dfc89b5..7c5b81e 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -113,7 +113,7 @@ def convert(convertors=[], *vars):
     for convfun in convertors:
         try:
             return convfun(*vars)
-        except ValueError:
+        except (ValueError, TypeError):
             pass
     raise ValueError
 
-- 
2.43.0


From 03e21f5424c0191c69cd079bc04b557e2345e251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:34 +0000
Subject: [PATCH 059/101] fix: poly_smooth keeps fractions for integer data and
 smooths along axis

---
 hftools/math.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index 5381bd4..4a45986 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -245,20 +245,23 @@ def poly_smooth(x, y, aperture, axis=0, N=3):
 
     """
     import scipy
-    newdata = np.empty_like(y)
-    size = x.shape[axis]
+    y = np.asanyarray(y)
+    newdata = np.empty_like(y, dtype=np.result_type(y, 1.0))
+    src = np.moveaxis(np.asarray(y), axis, 0)
+    dst = np.moveaxis(np.asarray(newdata), axis, 0)
+    size = x.shape[0]
     if aperture % 2 == 0:
         odd = 0
     else:
         odd = 1
     wid = aperture // 2
 
-    for i in range(x.shape[axis]):
+    for i in range(size):
         start = min(max(i - wid, 0), max(0, size - aperture))
         stop = max(min(i + wid + odd, size), aperture)
         assert stop - start == aperture
-        poly = scipy.polyfit(x[start:stop], y[start:stop], N)
-        newdata[i] = scipy.polyval(poly, x[i])
+        poly = scipy.polyfit(x[start:stop], src[start:stop], N)
+        dst[i] = scipy.polyval(poly, x[i])
     return newdata
 
 
-- 
2.43.0


From a9c2d346a4147a5be5452093ae05f7d6985daeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:04 +0000
Subject: [PATCH 060/101] fix: add_dim keeps the unit and format of the array

---
 hftools/dataset/arrayobj.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 33cee4e..415c3ec 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -927,12 +927,14 @@ class _hfarray(ndarray):
         if dim in self.dims:
             return self
         axis = min(axis, self.ndim)
-        out = self[(slice(None), ) * axis + (None, )]
-        if len(dim.data) > 1:
-            out = out.repeat(len(dim.data), axis)
         dims = list(self.dims)
         dims.insert(axis, dim)
-        return self.__class__(out, dims=dims, copy=False)
+        out = self.view()
+        out.shape = self.shape[:axis] + (1, ) + self.shape[axis:]
+        out.dims = dims
+        if len(dim.data) > 1:
+            out = out.repeat(len(dim.data), axis)
+        return out
 
 
 def axis_handler(a, axis):
-- 
2.43.0


From beebac21ced4d3691ff47de59fe72d9d236738ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:04 +0000
Subject: [PATCH 061/101] fix: HDF5 files keep comments, names, dimensions and
 appended values

---
 hftools/file_formats/hdf5/helper.py |  7 +++
 hftools/file_formats/hdf5/v_01.py   | 18 ++++---
 hftools/file_formats/hdf5/v_02.py   | 83 ++++++++++++++++++-----------
 3 files changed, 69 insertions(+), 39 deletions(-)

diff --git a/hftools/file_formats/hdf5/helper.py b/hftools/file_formats/hdf5/helper.py
index 213774d..8121717 100644
--- a/hftools/file_formats/hdf5/helper.py
+++ b/hftools/file_formats/hdf5/helper.py
@@ -23,3 +23,10 @@ def hdf5context(filehandle, mode="r"):
         with h5py.File(filehandle, mode=mode) as fil:
             yield fil
 
+
+def escape_varname(x):
+    return x.replace("/", "\\")
+
+
+def unescape_varname(x):
+    return x.replace("\\", "/")
diff --git a/hftools/file_formats/hdf5/v_01.py b/hftools/file_formats/hdf5/v_01.py
index af3ee0e..2f01400 100644
--- a/hftools/file_formats/hdf5/v_01.py
+++ b/hftools/file_formats/hdf5/v_01.py
@@ -20,6 +20,7 @@ from hftools.dataset.dim import DimBase
 from hftools.file_formats.common import Comments
 
 from hftools.py3compat import string_types, cast_unicode, cast_bytes
+from .helper import escape_varname, unescape_varname
 
 
 def unpack_dim(dim):
@@ -51,13 +52,13 @@ def save_hdf5(db, h5file, name="datablock", mode="w", compression="gzip", **kw):
             if data.dtype.name.startswith("datetime64"):
                 datadtype = data.dtype.name
                 data = data.astype(np.uint64)
-            dset = vardata.create_dataset(k, data=data, compression=compression, )
+            dset = vardata.create_dataset(escape_varname(k), data=data, compression=compression, )
             klass, name, unit = zip(*[unpack_dim(dim) for dim in db[k].dims])
         else:
             if data.dtype.name.startswith("datetime64"):
                 datadtype = data.dtype.name
                 data = data.astype(np.uint64)
-            dset = vardata.create_dataset(k, data=data) #can not compress scalars
+            dset = vardata.create_dataset(escape_varname(k), data=data) #can not compress scalars
             name = []
         dset.attrs[r"info\name"] = list(map(cast_bytes, name))
         dset.attrs[r"data\unit"] = cast_bytes(db[k].unit if db[k].unit is not None else "None")
@@ -69,7 +70,7 @@ def save_hdf5(db, h5file, name="datablock", mode="w", compression="gzip", **kw):
         if data.dtype.name.startswith("datetime64"):
             datadtype = data.dtype.name
             data = data.astype(np.uint64)
-        dset = ivardata.create_dataset(k, data=data, compression=compression)
+        dset = ivardata.create_dataset(escape_varname(k), data=data, compression=compression)
         klass, name, unit = unpack_dim(db.ivardata[k])
         dset.attrs[r"info\class"] = klass
         dset.attrs[r"info\unit"] = cast_bytes(unit if unit is not None else "None")
@@ -78,7 +79,7 @@ def save_hdf5(db, h5file, name="datablock", mode="w", compression="gzip", **kw):
         fil.close()
 
 
-dims_dict = dict((name, dim) for name, dim in hftools.dataset.__dict__.items() if isinstance(dim, type) and issubclass(dim, DimBase))
+dims_dict = dict((name, dim) for name, dim in hftools.dataset.dim.__dict__.items() if isinstance(dim, type) and issubclass(dim, DimBase))
 #print dims
 
 def read_hdf5(h5file, name="datablock", **kw):
@@ -104,12 +105,12 @@ def read_hdf5(h5file, name="datablock", **kw):
         v = ivardata[k]
         datadtype = v.attrs[r"info\dtype"] or None
         dimcls = dims_dict.get(v.attrs[r"info\class"], DimRep)
-        unit = str(v.attrs.get(r"info\unit", "none"))
+        unit = cast_unicode(v.attrs.get(r"info\unit", "none"))
         if unit.lower() == "none":
             unit = None
         vdata = np.array(np.array(v), dtype=datadtype)
-        dim = dimcls(k, vdata, unit=unit)
-        db[k] = dim
+        dim = dimcls(unescape_varname(k), vdata, unit=unit)
+        db[dim.name] = dim
     for k in vardata:
         v = vardata[k]
         datadtype = v.attrs[r"data\dtype"] or None
@@ -117,7 +118,8 @@ def read_hdf5(h5file, name="datablock", **kw):
         unit = cast_unicode(v.attrs.get(r"data\unit", "none"))
         if unit.lower() == "none":
             unit = None
-        db[k] = hfarray(np.array(v), dtype=datadtype, dims=dims, unit=unit)
+        db[unescape_varname(k)] = hfarray(np.array(v), dtype=datadtype,
+                                          dims=dims, unit=unit)
     if isinstance(h5file, string_types):
         fil.close()
 
diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 6ec152e..f4533c0 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -14,48 +14,43 @@ except ImportError:  # pragma: no cover
     h5py = None
 
 import numpy as np
-from hftools.dataset import DimRep, DimSweep, hfarray, DataBlock,\
-    DimMatrix_i, DimMatrix_j, DimPartial
+from hftools.dataset import DimRep, hfarray, DataBlock
+from hftools.dataset import dim as dim_module
+from hftools.dataset.dim import DimBase
 from hftools.py3compat import PY3, cast_unicode
 from hftools.dataset.comments import Comments
 #from hftools.file_formats.hdf5.hdf5 import hdf5context
-from .helper import hdf5context
+from .helper import hdf5context, escape_varname, unescape_varname
 
-dimrep = {"DimRep": DimRep,
-          "DimSweep": DimSweep,
-          "DimMatrix_i": DimMatrix_i,
-          "DimMatrix_j": DimMatrix_j,
-          "DimPartial": DimPartial,
-          }
-
-
-def escape_varname(x):
-    return x.replace("/", "\\")
-
-
-def unescape_varname(x):
-    return x.replace("\\", "/")
+dimrep = dict((name, cls) for name, cls in vars(dim_module).items()
+              if isinstance(cls, type) and issubclass(cls, DimBase))
 
 
 def expand_dataset(dataset, expansion, axis):
     dataset.resize(dataset.shape[axis] + expansion, axis=axis)
 
 
+def getdim(x):
+    dimcls = dimrep[cast_unicode(x.attrs.get("dimtype", "DimSweep"))]
+    return dimcls(unescape_varname(x.name.strip("/")),
+                  np.array(x[...], dtype=x.attrs.get("dtype", None)),
+                  unit=x.attrs.get("unit", None),
+                  outputformat=x.attrs.get("outputformat", None))
+
+
 def getvar(db, key):
     X = db[key]
 
     dims = []
     for x in X.dims:
         if len(x):
-            dimcls = dimrep[cast_unicode(x[0].attrs.get("dimtype", "DimSweep"))]
-            dim = dimcls(x[0].name.strip("/"),
-                         x[0][...],
-                         unit = x[0].attrs.get("unit", None))
-            dims.append(dim)
+            dims.append(getdim(x[0]))
 
     unit = X.attrs.get("unit", None)
     outputformat = X.attrs.get("outputformat", None)
     dtype = X.attrs.get("dtype", None)
+    if dtype is not None and np.dtype(dtype).kind == "U":
+        dtype = np.unicode_  # appended strings might be longer
     if len(dims) == len(X.dims):
         return hfarray(X.value, dims=dims, unit=unit,
                        dtype=dtype, outputformat=outputformat)
@@ -105,7 +100,15 @@ def read_hdf5_handle(filehandle, **kw):
             uk = unescape_varname(k)
             if "dimtype" not in filehandle[k].attrs:
                 db[uk] = getvar(filehandle, k)
-        db.comments = Comments()
+        for k in filehandle:
+            if ("dimtype" in filehandle[k].attrs and
+                    unescape_varname(k) not in db.ivardata):
+                dim = getdim(filehandle[k])
+                db[dim.name] = dim
+        db.blockname = filehandle.attrs.get("Blockname", None)
+        db.comments = Comments(list(filehandle.attrs.get("fullcomments", [])))
+        if kw.get("property_to_vars", False):
+            db.values_from_property()
         return db
     else:
         raise IOError("filehandle should be a h5py File, is: %r" % filehandle)
@@ -127,6 +130,11 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
     if expanddim is None:
         expanddim = DimRep("INDEX", 1)
     filehandle.attrs["hftools file version"] = "0.2"
+    if db.blockname is not None:
+        filehandle.attrs["Blockname"] = db.blockname
+    if db.comments and db.comments.fullcomments:
+        filehandle.attrs["fullcomments"] = np.array(db.comments.fullcomments,
+                                                    dtype=h5py_string_dtype)
     for k, v in db.ivardata.items():
         ek = escape_varname(k)
         create_dataset(filehandle, ek, v.data)
@@ -158,8 +166,9 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
             pass
         create_dataset(filehandle, ek, v, expandable=expandable)
         for idx, dv in enumerate(v.dims):
-            filehandle[ek].dims.create_scale(filehandle[dv.name])
-            filehandle[ek].dims[idx].attach_scale(filehandle[dv.name])
+            scale = filehandle[escape_varname(dv.name)]
+            filehandle[ek].dims.create_scale(scale)
+            filehandle[ek].dims[idx].attach_scale(scale)
 
         filehandle[ek].attrs["arraytype"] = v.__class__.__name__
         if v.unit:
@@ -183,16 +192,28 @@ def append_hdf5(db, filehandle, expanddim=None, **kw):
         raise Exception("Can only append to hftools version 0.2")
     if expanddim is None:
         expanddim = DimRep("INDEX", 1)
+    variables = [k for k in filehandle
+                 if "dimtype" not in filehandle[k].attrs]
+    for k in variables:
+        uk = unescape_varname(k)
+        if uk not in db.vardata:
+            raise ValueError("Variable %r missing in db, can not append" % uk)
+        dims = [getdim(x[0]) for x in filehandle[k].dims]
+        dims = [x for x in dims if x.name != expanddim.name]
+        if ([x.name for x in dims] != [x.name for x in db[uk].dims] or
+                any(not np.array_equal(x.data, y.data)
+                    for x, y in zip(dims, db[uk].dims))):
+            raise ValueError("Dimensions of %r differ, can not append" % uk)
+    for k in db.vardata:
+        if escape_varname(k) not in variables:
+            raise ValueError("Variable %r not in file, can not append" % k)
+
     idx = filehandle[expanddim.name][-1] + 1
     expand_dataset(filehandle[expanddim.name], 1, 0)
-    filehandle[expanddim.name].value[-1] = idx
+    filehandle[expanddim.name][-1] = idx
 
-    for k, v in filehandle.items():
+    for k in variables:
         uk = unescape_varname(k)
-        if uk in db.ivardata or uk == expanddim.name:
-            continue
-        if uk not in db.vardata:
-            raise ValueError("Variable %r missing in db, can not append" % uk)
         diskdata = filehandle[k]
         ax = diskdata.maxshape.index(None)
         expand_dataset(diskdata, 1, ax)
-- 
2.43.0


From 78a0265de59fbdce3e60db2ce9c002ad3f6098a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:04 +0000
Subject: [PATCH 062/101] fix: read_data recognises HDF5 files

---
 hftools/file_formats/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/__init__.py b/hftools/file_formats/__init__.py
index ab92fee..6dccb7f 100644
--- a/hftools/file_formats/__init__.py
+++ b/hftools/file_formats/__init__.py
@@ -25,6 +25,7 @@ This package contains routines to read and write data.
 
 """
 import glob
+import io
 import re
 from contextlib import contextmanager
 from hftools.core.exceptions import HFToolsIOError
@@ -70,7 +71,7 @@ def read_data(filename, merge=True, guess_unit=True,
             break
     else:
         raise IOError("No files match pattern %r" % filename)
-    fil = open(fname)
+    fil = io.open(fname, errors="replace")  # the file might be binary
     for rad in fil:
         for fun, readfun in isfile:
             if fun(fname, rad):
-- 
2.43.0


From 6e60319867175a2d1c1780040ba9f1f9b657f0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:04 +0000
Subject: [PATCH 063/101] fix: draw the Smith chart with current matplotlib

---
 hftools/plotting/smith.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/hftools/plotting/smith.py b/hftools/plotting/smith.py
index e7952b8..ecf56e2 100644
--- a/hftools/plotting/smith.py
+++ b/hftools/plotting/smith.py
@@ -88,13 +88,10 @@ class MyCircle(object):
         if self.t1 is None or self.t2 is None:
             return plt.Circle((self.x, self.y), self.r, *k, **kw)
         else:
-            pars = ((self.x, self.y),
-                    self.flipx * 2 * self.r,
-                    self.flipy * 2 * self.r,
-                    0,
-                    self.t1,
-                    self.t2)
-            return Arc(*(pars + k), **kw)
+            return Arc((self.x, self.y),
+                       self.flipx * 2 * self.r,
+                       self.flipy * 2 * self.r,
+                       *k, theta1=self.t1, theta2=self.t2, **kw)
 
 
 class MyLine(object):
@@ -252,7 +249,8 @@ def polar_grid(ax=None, mode="full", **kw):
     angles = dict(full=(0, 360), lower=(180, 360.00001), upper=(0, 180.000001))
     t1, t2 = angles[mode]
     for r in np.arange(0, 1.001, 0.2):
-        ax.add_patch(Arc((0, 0), 2 * r, 2 * r, 0, t1, t2, color="k"))
+        ax.add_patch(Arc((0, 0), 2 * r, 2 * r, theta1=t1, theta2=t2,
+                         color="k"))
 
     for fi in np.arange(t1 / 180 * np.pi, t2 / 180 * np.pi, np.pi / 4):
         z = np.exp(1j * fi)
@@ -286,7 +284,8 @@ def smith_grid(ax=None, mode="full", standard=True, **kw):
         XC = BCircle
     t1, t2 = angles[mode]
     x1, x2 = xlims[mode]
-    ax.add_patch(Arc((0, 0), 2, 2, 0, t1, t2, fc="w", ec="k"))
+    ax.add_patch(Arc((0, 0), 2, 2, theta1=t1, theta2=t2,
+                     fc="w", ec="k"))
 
     for r in [0, 1. / 3, 1, 3]:
         c = RC(r, x1, x2)
-- 
2.43.0


From 57a1f58f6522080f32095911f3f682f800b260d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:14 +0000
Subject: [PATCH 064/101] fix: susceptance and conductance arcs between given
 limits

---
 hftools/plotting/smith.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hftools/plotting/smith.py b/hftools/plotting/smith.py
index ecf56e2..d255230 100644
--- a/hftools/plotting/smith.py
+++ b/hftools/plotting/smith.py
@@ -196,6 +196,7 @@ def GCircle(g, b1=None, b2=None):
     if b1 is None or b2 is None:
         pass
     else:
+        b1, b2 = min(b1, b2), max(b1, b2)
         y1 = complex(g, b2)
         y2 = complex(g, b1)
         c1 = y2gamma(y1)
@@ -211,9 +212,11 @@ def BCircle(b, g1=None, g2=None):
         if g1 is None or g2 is None:
             return MyLine(-1, 0, 1, 0)
         else:
-            x1 = (z2gamma(g1) + 0j).real
-            x2 = (z2gamma(g2) + 0j).real
+            x1 = (y2gamma(g1) + 0j).real
+            x2 = (y2gamma(g2) + 0j).real
             return MyLine(x1, 0, x2, 0)
+    if g1 is not None and g2 is not None:
+        g1, g2 = min(g1, g2), max(g1, g2)
     if b >= 0:
         branch = 90
         g1, g2 = (g2, g1)
-- 
2.43.0


From 382336e8668668c2e096b14d6ace4d26302ac94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:42 +0000
Subject: [PATCH 065/101] fix: outer circle of the lower and upper admittance
 charts

---
 hftools/plotting/smith.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/plotting/smith.py b/hftools/plotting/smith.py
index d255230..bcd86bd 100644
--- a/hftools/plotting/smith.py
+++ b/hftools/plotting/smith.py
@@ -277,7 +277,7 @@ def smith_grid(ax=None, mode="full", standard=True, **kw):
         lower = [-1. / 3, -1, -3]
 
     else:
-        angles = dict(full=(0, 360), lower=(0, 180), upper=(180, 360))
+        angles = dict(full=(0, 360), lower=(180, 360), upper=(0, 180))
         xlims = dict(full=(-np.inf, np.inf),
                      upper=(-np.inf, 0),
                      lower=(0, np.inf))
-- 
2.43.0


From 186d2e8cb9d406183e141925b2c4737a019fd649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:31 +0000
Subject: [PATCH 066/101] fix: axis labels show the prefix of the tick labels

---
 hftools/plotting/helper.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index 5fae5bc..2779701 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -83,7 +83,6 @@ class SimpleUnitFormatter(FormatStrFormatter):
         self.default_unit = unit
         self._label_unit = None
         self.set_label_fmt(label_fmt)
-        self.label_template = None
 
     def __call__(self, x, pos=None):
         div = 1
@@ -129,8 +128,8 @@ class SimpleUnitFormatter(FormatStrFormatter):
         fmt = self.get_label_fmt()
         if "[]" in fmt:
             if self.get_label_unit():
-                fmt = fmt.replace("[]",
-                                  "[%%(prefix)s%s]" % self.get_label_unit())
+                unit = self.get_label_unit().replace("%", "%%")
+                fmt = fmt.replace("[]", "[%%(prefix)s%s]" % unit)
             else:
                 fmt = fmt.replace("[]", "[%(prefix)sU]")
         elif "%(unit)s" in fmt:
@@ -147,10 +146,9 @@ class UnitFormatter(FormatStrFormatter):
         self.set_label_fun = set_label_fun
         self.default_unit = unit
         self._label_unit = None
-        self.set_label_fmt(label_fmt)
-        self.label_template = None
         self.digs = digs
         self.default_label = "X"
+        self.set_label_fmt(label_fmt)
 
     def __call__(self, x, pos=None):
         locs = [abs(y) for y in self.locs if abs(y) != 0]
@@ -176,6 +174,9 @@ class UnitFormatter(FormatStrFormatter):
                 self.set_label_fun(xlabel)
             return FormatStrFormatter.__call__(self, x / div, pos)
         else:
+            if self.set_label_fun and self.label_template:
+                self.set_label_fun(self.label_template %
+                                   dict(prefix="", powerprefix=0))
             self.engfmt.locs = self.locs
             return self.engfmt(x, pos)
 
@@ -210,7 +211,7 @@ class UnitFormatter(FormatStrFormatter):
         self.update_template()
 
     def get_label_name_and_unit(self):
-        unit = self.get_label_unit()
+        unit = self.get_label_unit().replace("%", "%%")
         default = self.default_label
         if unit == "Hz":
             default = "Frequency"
@@ -229,8 +230,8 @@ class UnitFormatter(FormatStrFormatter):
                 fmt = fmt.replace("[]", u"[%(prefix)sU]")
         elif "[^]" in fmt:
             if self.get_label_unit():
-                fmt = fmt.replace("[^]", u"$[10^{{%%(powerprefix).0f" +
-                                  u"\\rm{{{unit}}}}]$")
+                fmt = fmt.replace("[^]", u"$[10^{{%(powerprefix).0f}}" +
+                                  u"\\rm{{{unit}}}]$")
             else:
                 fmt = fmt.replace("[^]", u"$[10^{{%(powerprefix).0f}}]$")
         if "{unit}" in fmt or "{default}" in fmt:
-- 
2.43.0


From cf990f526ec9a0cf5dcd26202c12b7c38f6371e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:01 +0000
Subject: [PATCH 067/101] fix: plot arrays without dimensions in mag, deg, rad,
 real and imag axes

---
 hftools/plotting/helper.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index 2779701..be744bc 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -629,17 +629,14 @@ def cplx_polar_projection(x, y):
 
 _projfun = dict(db=lambda x, y: (x, hftools.math.dB(y)),
                 db10=lambda x, y: (x, 10 * np.log10(abs(y))),
-                mag=lambda x, y: (x, hfarray(np.abs(y), dims=y.dims)),
-                mag_square=lambda x, y: (x, hfarray(np.abs(y) ** 2,
-                                                    dims=y.dims)),
-                rad=lambda x, y: (x, hfarray(np.angle(y, deg=False),
-                                             dims=y.dims)),
-                deg=lambda x, y: (x, hfarray(np.angle(y, deg=True),
-                                             dims=y.dims)),
+                mag=lambda x, y: (x, np.abs(y)),
+                mag_square=lambda x, y: (x, np.abs(y) ** 2),
+                rad=lambda x, y: (x, np.angle(y, deg=False)),
+                deg=lambda x, y: (x, np.angle(y, deg=True)),
                 unwraprad=lambda x, y: (x, unwrap_phase(y)),
                 unwrapdeg=lambda x, y: (x, unwrap_phase(y, deg=True)),
-                imag=lambda x, y: (x, hfarray(np.imag(y), dims=y.dims)),
-                real=lambda x, y: (x, hfarray(np.real(y), dims=y.dims)),
+                imag=lambda x, y: (x, np.imag(y)),
+                real=lambda x, y: (x, np.real(y)),
                 groupdelay=lambda x, y: delay(x, y),
                 cplxpolar=cplx_polar_projection)
 _projfun["x-si"] = lambda x, y: (x, y)
-- 
2.43.0


From 4feff799156b7cf115dca3223ef5efaee681c517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:01 +0000
Subject: [PATCH 068/101] fix: label dB, phase and delay axes with their unit

---
 hftools/plotting/helper.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index be744bc..c430297 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -352,6 +352,7 @@ class HFToolsAxes(Axes):
 
             if projection in _projfun:
                 x, y = _projfun[projection](x, y)
+                yunit = _projunit.get(projection, yunit)
                 lines = self._plot_helper(x, y, *args, **kwargs)
             elif np.iscomplexobj(y):
                 xunit = yunit
@@ -639,6 +640,15 @@ _projfun = dict(db=lambda x, y: (x, hftools.math.dB(y)),
                 real=lambda x, y: (x, np.real(y)),
                 groupdelay=lambda x, y: delay(x, y),
                 cplxpolar=cplx_polar_projection)
+#Units of projected data, the others keep the unit of the data
+_projunit = dict(db="dB",
+                 db10="dB",
+                 mag_square=None,
+                 rad="rad",
+                 deg="deg",
+                 unwraprad="rad",
+                 unwrapdeg="deg",
+                 groupdelay="s")
 _projfun["x-si"] = lambda x, y: (x, y)
 _projfun[None] = lambda x, y: (x, y)
 
-- 
2.43.0


From cb1e3831a0f873690a31f48e86d467c3ed43bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:25 +0000
Subject: [PATCH 069/101] fix: polar plot of an array without dimensions

---
 hftools/plotting/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index c430297..4ae7c60 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -589,7 +589,7 @@ class ComplexPolarAxes(PolarAxes):
             y = vars[0]
             if projection in _projfun:
                 x, y = _projfun[projection](None, y)
-                return Axes.plot(self, y, *args, **kwargs)
+                return Axes.plot(self, x, y, *args, **kwargs)
             elif np.iscomplexobj(y):
                 return Axes.plot(self, y.real, y.imag, *args, **kwargs)
             else:
-- 
2.43.0


From a6879df4535a28cc2d1500b26be9470641946576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:00 +0000
Subject: [PATCH 070/101] fix: plot pairs x and y by dimension

---
 hftools/plotting/helper.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index 4ae7c60..1581dfb 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -22,7 +22,7 @@ from matplotlib.backends.backend_pdf import PdfPages
 import hftools.math
 from hftools.py3compat import text_type
 from hftools.constants.si_units import si_exp_to_prefixes, _help_format_sci
-from hftools.dataset import hfarray, remove_tail
+from hftools.dataset import hfarray, make_same_dims, remove_tail
 from hftools.math import delay, unwrap_phase
 
 """
@@ -259,10 +259,19 @@ class HFToolsAxes(Axes):
     def _plot_helper(self, x, y, *args, **kwargs):
         if not hasattr(y, "dims"):
             return Axes.plot(self, x, y, *args, **kwargs)
-        if x.ndim == 1 and y.ndim == 1:
+        names = get_dims_names(y)
+        if (hasattr(x, "dims") and
+                get_dims_names(x) not in (names, names[:1])):
+            dims = y.dims
+            x, y = make_same_dims(x, y)
+            x, y = np.broadcast_arrays(np.array(x.reorder_dimensions(*dims)),
+                                       np.array(y.reorder_dimensions(*dims)))
+        if np.ndim(x) == 1 and y.ndim == 1:
             return Axes.plot(self, x, y, *args, **kwargs)
         else:
-            return Axes.plot(self, remove_tail(x), remove_tail(y), *args, **kwargs)
+            x = np.asanyarray(x)
+            return Axes.plot(self, remove_tail(x), remove_tail(y),
+                             *args, **kwargs)
 
             Ns = y.shape[1:4]
             kw = kwargs.copy()
-- 
2.43.0


From a59899ebc17cfb1d9f873ab27827d43d85b34b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:37 +0000
Subject: [PATCH 071/101] fix: names in the scopes of a configuration's lists
 are found by in

---
 hftools/file_formats/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 40fff25..63fee49 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -74,7 +74,8 @@ class LexicalScopeDict(OrderedDict):
     def __contains__(self, key):
         if OrderedDict.__contains__(self, key):
             return True
-        return self.parent and key in self.parent
+        dct = find_next_dict(self)
+        return dct is not None and key in dct
 
     def update(self, other):
         for k, v in other.items():
-- 
2.43.0


From b3e06c6b77f2fe0c4d3b99fe18e94ebb0b1c2247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:37 +0000
Subject: [PATCH 072/101] fix: empty configuration files, and scopes that
 follow changes of the configuration

---
 hftools/file_formats/config.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 63fee49..ec0f2be 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -175,7 +175,10 @@ class LexicalConfig(LexicalScopeDict):
         self.clear()
         try:
             with io.open(self.filename, encoding="utf-8") as stream:
-                self.update(yaml.load(stream, Loader=LexicalLoader))
+                self.update(yaml.load(stream, Loader=LexicalLoader) or {})
+            for value in self.values():
+                if isinstance(value, (LexicalScopeDict, LexicalScopeList)):
+                    value.parent = self
         except IOError:
             print("missing config file %r" % self.filename)
 
@@ -198,7 +201,7 @@ class Config(dict):
         self.clear()
         try:
             with io.open(self.filename, encoding="utf-8") as stream:
-                self.update(yaml.load(stream, Loader=StandardLoader))
+                self.update(yaml.load(stream, Loader=StandardLoader) or {})
         except IOError:
             warnings.warn("missing config file %r" % self.filename)
 
-- 
2.43.0


From 7ce8098047fc76ce9b36e2f288c5a4533caa4dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:37 +0000
Subject: [PATCH 073/101] fix: written configurations keep units, intervals,
 dates, paths and lists

---
 hftools/file_formats/config.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index ec0f2be..1471d83 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -230,8 +230,11 @@ def convert_or_none(x):
 
 
 def sivalue_representer(dumper, data):
-    if data.unit:
-        return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s%s' % (data, data.unit))
+    if data.unit == u"m":
+        #A single m is read as the prefix milli
+        return dumper.represent_scalar(u'!sivalue', u'%smm' % (data * 1000))
+    elif data.unit:
+        return dumper.represent_scalar(u'!sivalue', u'%s%s' % (data, data.unit))
     else:
         return dumper.represent_scalar(u'tag:yaml.org,2002:float', u'%s' % (data))
 
@@ -253,19 +256,20 @@ def timeintervall_representer(dumper, data):
         out.append(u"%s hours" % hours)
     if minutes:
         out.append(u"%s minutes" % minutes)
-    if seconds:
-        out.append(u"%s seconds" % seconds)
+    if seconds or not out:
+        out.append(u"%.6f seconds" % seconds)
 
-    return dumper.represent_scalar(u'tag:yaml.org,2002:str',
+    return dumper.represent_scalar(u'!timeintervall',
                                    u" ".join(out))
 
 
 def timestamp_representer(dumper, data):
-    return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s' % (data))
+    return dumper.represent_scalar(u'tag:yaml.org,2002:timestamp',
+                                   u'%s' % (data))
 
 
 def path_representer(dumper, p):
-    return dumper.represent_scalar(u'!str', u'%s' % p)
+    return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s' % p)
 
 reg_si_value = re.compile(r"^([-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?)"
                           r"[ \t]*(([dcmunpfakMGTPE])?(Hz|V|A|m|s|W|Ohm)?)?$")
@@ -417,7 +421,7 @@ def lexical_scope_dict_representer(dumper, data):
 
 
 def lexical_scope_list_representer(dumper, data):
-    return dumper.represent_mapping(u'tag:yaml.org,2002:seq', data)
+    return dumper.represent_sequence(u'tag:yaml.org,2002:seq', data)
 
 
 StandardDumper.add_representer(SIValue, sivalue_representer)
-- 
2.43.0


From e8a2295d472de30c1067d8688f7f0ef727f598b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:37 +0000
Subject: [PATCH 074/101] fix: configuration texts that only start like a time
 or date stay text

---
 hftools/file_formats/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 1471d83..e674978 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -278,10 +278,10 @@ reg_percent_value = re.compile(r"^([-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?)"
                                r"[ \t]*(%|ppm|ppb)$")
 
 
-regtime = re.compile(r"([0-9][0-9]):([0-9][0-9])(:([0-9][0-9]))?")
+regtime = re.compile(r"([0-9][0-9]):([0-9][0-9])(:([0-9][0-9]))?$")
 regtimeshort = re.compile(r"[0-9][0-9]:[0-9][0-9]")
 regdatetimeshort = re.compile(r"[0-9]{4}-[0-9]{2}-[0-9]{2}"
-                              r" [0-9][0-9]:[0-9][0-9]")
+                              r" [0-9][0-9]:[0-9][0-9]$")
 regdate = re.compile(r"[0-9]{4}-[0-9]{2}-[0-9]{2}")
 
 rec = re.compile
-- 
2.43.0


From ea02ac83531d74fee5ef98df98e237988dcf78a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:37 +0000
Subject: [PATCH 075/101] fix: make_passive_svd works on plain arrays and
 honours delta

---
 hftools/networks/spar_functions.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index 2ee11d9..9f1c1dd 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -121,16 +121,9 @@ def make_passive_svd(S, delta=1e-6):
     Reciprocity, Passivity and Causality in S-parameters"
     """
 
-    svd = np.linalg.svd
-    out = []
-    for ss in S:
-        ss = np.array(ss, copy=False)
-        u, s, v = svd(ss)
-        s = abs(s) - 1
-        s[s < 0] = 0
-        s = np.diag(s)
-        delta = matrix_multiply(matrix_multiply(u, s), v)
-        out.append(ss - delta)
+    u, s, v = np.linalg.svd(np.array(S))
+    excess = np.maximum(s - (1 - delta), 0)
+    out = np.array(S) - np.matmul(u * excess[..., np.newaxis, :], v)
     return S.__class__(out, dims=S.dims)
 
 
-- 
2.43.0


From a7ec3bfc375dc16462db2fb7daa4291f13cd5714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:37 +0000
Subject: [PATCH 076/101] fix: make_passive_eig and check_passive with any
 number of dimensions

---
 hftools/networks/spar_functions.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index 9f1c1dd..86185bf 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -133,14 +133,9 @@ def make_passive_eig(S, delta=1e-6):
     The S-parameters of S are scaled such that the highest eigenvalue of S'
     becomes |lambda|max < 1 - delta.
     """
-    eig = np.linalg.eigvals
-    out = []
-    for s in S:
-        lambda_max = max(abs(eig(s)))
-        if lambda_max > 1:
-            out.append(s / lambda_max * (1 - delta))
-        else:
-            out.append(s)
+    lambda_max = np.array(check_passive(S))
+    scale = np.where(lambda_max > 1, (1 - delta) / np.maximum(lambda_max, 1), 1)
+    out = np.array(S) * scale[..., np.newaxis, np.newaxis]
     return S.__class__(out, dims=S.dims)
 
 
@@ -155,10 +150,6 @@ def make_reciprocal(S):
 
 
 def check_passive(S):
-    eig = np.linalg.eigvals
-    out = []
-    for s in S:
-        lambda_max = max(abs(eig(s)))
-        out.append(lambda_max)
-    return hfarray(out, dims=S.dims[:1])
+    lambda_max = abs(np.linalg.eigvals(np.array(S))).max(axis=-1)
+    return hfarray(lambda_max, dims=S.dims[:-2])
 
-- 
2.43.0


From 959ce915084e40568fc9b16b27dfe87a0219eb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:37 +0000
Subject: [PATCH 077/101] fix: normalize_names keeps both variables when two
 names become the same

---
 hftools/file_formats/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 7c5b81e..c9ac5d8 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -289,7 +289,7 @@ def normalize_names(data):
     """
     out = data.copy()
     for old, new in _trtable.items():
-        if old in data and new in data:
+        if old in out and new in out:
             continue
         out.rename(old, new)
     meantr = remove_enclosing_function("Mean")
-- 
2.43.0


From 64382322027688da8836ea9b28bbaab847308bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:37 +0000
Subject: [PATCH 078/101] fix: a unit in a name does not overwrite the variable
 without unit

---
 hftools/file_formats/readbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 4f7a93a..d7018f9 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -164,6 +164,8 @@ def fix_unit(db, varname):
     res = reg_varunit.match(varname)
     if res:
         vname, unit = res.groups()
+        if vname in db:
+            return  # Keep both
         mul, unit = unit_to_multiplier(unit)
 #        db.rename(varname, vname)
         if varname in db.ivardata:
-- 
2.43.0


From 6132ce86d5796c4ca9d99d980c1167fc419a5c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:37 +0000
Subject: [PATCH 079/101] fix: file names with and without numbers can be
 ordered together

---
 hftools/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/utils.py b/hftools/utils.py
index 5046b86..55e5fdf 100644
--- a/hftools/utils.py
+++ b/hftools/utils.py
@@ -152,7 +152,8 @@ reg_split = re.compile("[^0-9]+|[0-9]+")
 
 
 def split_num(string):
-    return [to_numeric(x, False) for x in reg_split.findall(string)], string
+    return [(0, int(x), "") if "0" <= x[0] <= "9" else (1, 0, x)
+            for x in reg_split.findall(string)], string
 
 
 def lex_order(lista):
-- 
2.43.0


From 9bd90347b7f385e58b6ce9b3d0fe7dde111dd574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:37 +0000
Subject: [PATCH 080/101] fix: matrix elements of ports that do not start at 1
 keep their names

---
 hftools/file_formats/readbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index d7018f9..e0af28a 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -238,7 +238,9 @@ def _matrix_elements(elem_tuples):
         j_idx.add(j)
         elems.append(elemname)
 
-    if len(i_idx) * len(j_idx) != len(elems):
+    if ((len(i_idx) * len(j_idx) != len(elems) or
+         min(i_idx) != 1 or max(i_idx) != len(i_idx) or
+         min(j_idx) != 1 or max(j_idx) != len(j_idx))):
         return None, None, None
     else:
         return elems, sorted(i_idx), sorted(j_idx)
-- 
2.43.0


From f5d1601fbeb67f636a46f5f07f4eb869f53983d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:37 +0000
Subject: [PATCH 081/101] fix: complex pairs keep the rest of their name, such
 as the unit

---
 hftools/file_formats/readbase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index e0af28a..acaccef 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -133,6 +133,7 @@ def make_cplx(dataset):
     varnames = {}
     for vname in dataset.allvarnames:
         outerfunction, varname, rest, fullname = get_outer_function(vname)
+        varname = varname + rest
         varnames.setdefault(varname, {})[outerfunction] = (outerfunction,
                                                            rest, fullname)
 
-- 
2.43.0


From 8ba44f7466282bfb54a0e47097af0e0675a809f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:37 +0000
Subject: [PATCH 082/101] fix: read_data recognizes MDIF files without VAR
 lines

---
 hftools/file_formats/mdif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 12347b2..1ca4788 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -37,7 +37,8 @@ from hftools.file_formats.readbase import ManyOptional,\
 class MDIFError(FileFormatError):
     pass
 
-reg_mdif = re.compile(r"[\t ]*VAR[\t ]*[A-Za-z_0-9.]+[(][a-zA-Z]+[)]")
+reg_mdif = re.compile(r"[\t ]*VAR[\t ]*[A-Za-z_0-9.]+[(][a-zA-Z]+[)]|"
+                      r"[\t ]*%.+[(](integer|real|string|complex)[)]")
 
 
 def is_mdif(filename, rad):
-- 
2.43.0


From 91bf8bcf0862e251b2889c50922b48619c4e4cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:37 +0000
Subject: [PATCH 083/101] fix: combine_elements_to_matrix keeps complex
 elements when the first is real

---
 hftools/file_formats/readbase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index acaccef..e7e18f5 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -196,8 +196,9 @@ def combine_elements_to_matrix(data, name):
         j_indices = sorted(j_idx)
         ex = data["%s%d%d" % (name, list(i_idx)[0], list(j_idx)[0])]
         shape = ex.shape
+        dtype = np.result_type(*[data[v].dtype for v in vnames])
         x = np.empty(shape + (len(i_indices), len(j_indices), ),
-                     dtype=ex.dtype)
+                     dtype=dtype)
 
         for i, j in itertools.product(i_indices, j_indices):
             val = data["%s%d%d" % (name, i, j)]
-- 
2.43.0


From f85c64f7d416655ce91de6d0ec880de467ec99e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:37 +0000
Subject: [PATCH 084/101] fix: read_mdif accepts lists of files and refuses
 patterns that match none

---
 hftools/file_formats/mdif.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 1ca4788..05ae321 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -128,9 +128,16 @@ class ReadMDIFFileFormat(ReadFileFormat):
         obj.filename = filename
 
         if multiple_files:
-            filenames = glob(filename)
+            if isinstance(filename, (list, tuple)):
+                filenames = []
+                for f in filename:
+                    filenames.extend(glob(f))
+            else:
+                filenames = glob(filename)
         else:
             filenames = [filename]
+        if not filenames:
+            raise IOError("Pattern %r did not match any files" % (filename,))
         objs = {}
         for idx, fname in enumerate(filenames):
             with open(fname) as fil:
-- 
2.43.0


From 2ed02a0a29245112f8f8f2af4911b52e42bbc2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:37 +0000
Subject: [PATCH 085/101] fix: datasets named after their file can be saved to
 HDF5

---
 hftools/dataset/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 88e485a..733f5c9 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -265,7 +265,7 @@ class DataBlock(object):
     def blockname(self):
         if self._blockname is None:
             if "FILENAME" in self:
-                return cast_unicode(self.FILENAME.flat[0])
+                return cast_unicode(self.FILENAME.item(0))
         return self._blockname
 
     @blockname.setter
-- 
2.43.0


From b564925eb009fe17599cc42ed203921632158073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:21 +0000
Subject: [PATCH 086/101] fix: report of datasets with an empty, complex or
 boolean dimension raised

---
 hftools/dataset/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 733f5c9..ffeae04 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -519,7 +519,9 @@ class DataBlock(object):
             else:
                 fmt = SIFormat(unit=self.ivardata[name].unit, digs=None)
             tofmt["shape"] = "<%s>" % self.ivardata[name].data.shape[0]
-            if self.report_minmax:
+            hasminmax = (self.ivardata[name].data.size and
+                         self.ivardata[name].data.dtype.kind not in "bc")
+            if self.report_minmax and hasminmax:
                 value, unit = (fmt % self.ivardata[name].data.max()).split(" ")
                 tofmt["maxvalue"] = value
                 tofmt["maxunit"] = unit
-- 
2.43.0


From e1f5c5838a363e676dbe76c49fbfd9cb9302c365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:21 +0000
Subject: [PATCH 087/101] fix: report of a dimension of texts had no size

---
 hftools/dataset/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index ffeae04..a1067de 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -510,6 +510,7 @@ class DataBlock(object):
             isnumber = False
         tofmt = dict(name=name)
         tofmt["N"] = "<%s>" % (len(self.ivardata[name].data.flat))
+        tofmt["shape"] = "<%s>" % self.ivardata[name].data.shape[0]
 
         if isnumber:
             if np.issubdtype(self.ivardata[name].data.dtype, np.int):
@@ -518,7 +519,6 @@ class DataBlock(object):
                 fmt = "%s "  # space ensures split will give two fields
             else:
                 fmt = SIFormat(unit=self.ivardata[name].unit, digs=None)
-            tofmt["shape"] = "<%s>" % self.ivardata[name].data.shape[0]
             hasminmax = (self.ivardata[name].data.size and
                          self.ivardata[name].data.dtype.kind not in "bc")
             if self.report_minmax and hasminmax:
-- 
2.43.0


From bb485888975c96be31a1a07ee19ed835dcb67437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:41 +0000
Subject: [PATCH 088/101] fix: elements of computed networks are accessible by
 name

---
 hftools/networks/multiports.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 69e5818..df02403 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -158,6 +158,8 @@ class _MultiPortArray(_hfarray):
     def __array_finalize__(self, obj):
         _hfarray.__array_finalize__(self, obj)
         self.Z0 = getattr(obj, "Z0", 50.)
+        if type(obj) is type(self):
+            self._attrfuns = obj._attrfuns
 
     def view(self, dtype=None, type=None):
         if type is None:
-- 
2.43.0


From db3b0ece83a6046675271de69f48ded278502695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:36 +0000
Subject: [PATCH 089/101] fix: pickled arrays keep their dimensions, unit and
 format

---
 hftools/dataset/arrayobj.py    | 13 +++++++++++++
 hftools/networks/multiports.py |  8 ++++++++
 2 files changed, 21 insertions(+)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 415c3ec..7d9372e 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -457,6 +457,19 @@ class _hfarray(ndarray):
         self.__dict__["outputformat"] = getattr(obj, "outputformat", "%.16e")
         self.__dict__["unit"] = getattr(obj, "unit", None)
 
+    def __reduce__(self):
+        func, args, state = ndarray.__reduce__(self)
+        return func, args, (state, self._attributes())
+
+    def __setstate__(self, state):
+        state, attributes = state
+        ndarray.__setstate__(self, state)
+        self.__dict__.update(attributes)
+
+    def _attributes(self):
+        return dict(_dims=self._dims, outputformat=self.outputformat,
+                    unit=self.unit)
+
     def verify_dimension(self):
         u"""Internal function that checks to see if the arrays dimensions match
            those of the *dims* specification.
diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index df02403..f97b204 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -161,6 +161,14 @@ class _MultiPortArray(_hfarray):
         if type(obj) is type(self):
             self._attrfuns = obj._attrfuns
 
+    def __setstate__(self, state):
+        _hfarray.__setstate__(self, state)
+        # the element names
+        _MultiPortArray.__init__(self, self.view(type=hfarray))
+
+    def _attributes(self):
+        return dict(_hfarray._attributes(self), _Z0=self._Z0)
+
     def view(self, dtype=None, type=None):
         if type is None:
             x = np.ndarray.view(self, dtype=self.dtype)
-- 
2.43.0


From 0a3cd75d188600bdbebe84f27bcfc0234b58c363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:58 +0000
Subject: [PATCH 090/101] fix: datasets can be copied with the copy module and
 pickled

---
 hftools/dataset/dataset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index a1067de..6d8034c 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -91,6 +91,10 @@ class DataDict(dict):
         dict.__init__(self, *k, **kw)
         self.__dict__["order"] = []
 
+    def __reduce__(self):
+        return (self.__class__, (), {"order": self.order[:]}, None,
+                iter(self.items()))
+
     @property
     def outputformat(self):
         for x in self.values():
@@ -306,6 +310,8 @@ class DataBlock(object):
             raise KeyError("No data named %r is available" % (key,))
 
     def __getattr__(self, key):
+        if key in ("vardata", "ivardata"):  # not initialized yet
+            raise AttributeError(key)
         try:
             return self.__getitem__(key)
         except KeyError as exc:
-- 
2.43.0


From 0f9e0b7276e6ccb3fa35f6c6d50f8fa6e1edadaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:39 +0000
Subject: [PATCH 091/101] fix: converting networks whose sweeps are not in
 canonical order mixed up the points

---
 hftools/networks/multiports.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index f97b204..6f725e0 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -112,6 +112,7 @@ class _MultiPortArray(_hfarray):
             if self.ismatrix() and (data.shape[-1] == data.shape[-2]):
                 view = data.view(type=hfarray, dtype=data.dtype)
                 res, _, _ = convert(data.P, self.P, view)
+                res = res.reorder_dimensions(*self.dims[:-2])
                 self.view(type=hfarray, dtype=self.dtype)[:] = res
             else:
                 fmt = ("Can not convert subelements of a %s matrix to "
-- 
2.43.0


From 6007d1b6b7e6fbd8953e4ab1e1c31159b728b2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:40 +0000
Subject: [PATCH 092/101] fix: comparisons and in-place operations pair
 elements by dimension

!=, <, <=, >, >=, %, // and the in-place operators used the positions of
the axes, so A == B and A != B could both hold, and A += B could add the
transpose of B.
---
 hftools/dataset/arrayobj.py | 40 +++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 7d9372e..67feb8a 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -352,6 +352,29 @@ def check_instance(func):
     return a
 
 
+def same_dims(func):
+    """Let a comparison pair the elements of two hfarrays by dimension."""
+    def a(self, other):
+        if isinstance(other, _hfarray):
+            self, other = make_same_dims(self, other)
+        return func(self, other)
+    return a
+
+
+def own_dims(func):
+    """Let an in place operation pair elements by dimension. The result must
+    fit in the dimensions of the array that is changed."""
+    def a(self, other):
+        if isinstance(other, _hfarray):
+            for dim in other.dims:
+                if dim not in self.dims:
+                    msg = "Can not add dimension %r to an array in place"
+                    raise DimensionMismatchError(msg % dim.name)
+            other = change_shape(other, self.dims)
+        return func(self, other)
+    return a
+
+
 def replace_dim(dims, olddim, newdim):
     out = []
     for d in dims:
@@ -762,6 +785,23 @@ class _hfarray(ndarray):
     def __eq__(self, other):
         return ndarray.__eq__(self, other)
 
+    __ne__ = same_dims(ndarray.__ne__)
+    __lt__ = same_dims(ndarray.__lt__)
+    __le__ = same_dims(ndarray.__le__)
+    __gt__ = same_dims(ndarray.__gt__)
+    __ge__ = same_dims(ndarray.__ge__)
+    __mod__ = same_dims(ndarray.__mod__)
+    __floordiv__ = same_dims(ndarray.__floordiv__)
+
+    __iadd__ = own_dims(ndarray.__iadd__)
+    __isub__ = own_dims(ndarray.__isub__)
+    __imul__ = own_dims(ndarray.__imul__)
+    __itruediv__ = own_dims(ndarray.__itruediv__)
+    __ipow__ = own_dims(ndarray.__ipow__)
+    __iand__ = own_dims(ndarray.__iand__)
+    __ior__ = own_dims(ndarray.__ior__)
+    __ixor__ = own_dims(ndarray.__ixor__)
+
     @check_instance
     def __rdiv__(self, other):
         return np.divide(other, self)
-- 
2.43.0


From f42c88782a76a8b04c90e31188998991d5363b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:40 +0000
Subject: [PATCH 093/101] fix: CITI files may have numbers with a leading plus
 sign

---
 hftools/file_formats/citi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index e7629d5..b0381ff 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -37,7 +37,7 @@ reg_num_unit = re.compile(r"^[ \t]*([-0-9.eE]+) ?"
 class CITIFileError(HFToolsIOError):
     pass
 
-reg_data = re.compile("[-0-9eE.]+")
+reg_data = re.compile("[-+0-9eE.]+")
 
 
 class ReadCITIFileFormat(ReadFileFormat):
-- 
2.43.0


From 03f1a0007c801dfb4439abbf52899f91fc0cb3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:39 +0000
Subject: [PATCH 094/101] fix: save_mdif writes all sweep values for every
 block

---
 hftools/file_formats/mdif.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 05ae321..1b3b604 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -521,11 +521,11 @@ def fmt_mdif_block(dims, db):
                                           None, unit_fmt=False)
 
         yield ["% " + " ".join(outheader)]
-        fmts = [x.outputformat for x in columns]
+        colfmts = [x.outputformat for x in columns]
 #        import pdb;pdb.set_trace()
         for row in zip(*columns):
             out = []
-            for elem, fmt in zip(row, fmts):
+            for elem, fmt in zip(row, colfmts):
                 out.extend(format_elem(fmt, elem))
             yield out
         yield ["END"]
-- 
2.43.0


From 6b44a52cb64e397acb90ea852ba6b2c68ceb22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:05 +0000
Subject: [PATCH 095/101] fix: masks select the coordinates along with the
 points

---
 hftools/dataset/arrayobj.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 67feb8a..618f1b4 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -667,6 +667,12 @@ class _hfarray(ndarray):
             raise IndexError("Can not handle more than one Ellipsis")
 
         dims = self.dims
+        if (len(indices) == 1 and isinstance(indices[0], ndarray) and
+                indices[0].dtype == bool and
+                not isinstance(indices[0], hfarray)):
+            mask = indices[0]
+            if mask.ndim > 1 and mask.shape == self.shape[:mask.ndim]:
+                indices = (hfarray(mask, dims=self.dims[:mask.ndim]),)
         testbool = (len(indices) == 1 and
                     isinstance(indices[0], hfarray) and
                     indices[0].dtype == bool)
@@ -702,8 +708,8 @@ class _hfarray(ndarray):
                 continue
             elif isinstance(idx, slice):
                 dims.append(dim[idx])
-            elif (isinstance(idx, (list, ndarray)) and
-                  not isinstance(idx, hfarray) and np.ndim(idx) == 1):
+            elif (isinstance(idx, (list, ndarray)) and np.ndim(idx) == 1 and
+                  (not isinstance(idx, hfarray) or idx.dtype == bool)):
                 dims.append(dim[np.asarray(idx)])
             else:
                 dims.append(dim_in_indices.get(dim.name, dim))
-- 
2.43.0


From 251629282ef1606e726b65e9f96dfa38f504be94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:23 +0000
Subject: [PATCH 096/101] fix: an ellipsis may follow an array in an index

---
 hftools/dataset/arrayobj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 618f1b4..244d0aa 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -660,7 +660,7 @@ class _hfarray(ndarray):
         ellips_count = len([i for i in indices
                             if isinstance(i, type(Ellipsis))])
         if ellips_count == 1:
-            i = indices.index(Ellipsis)
+            i = [x is Ellipsis for x in indices].index(True)
             indices = (indices[:i] + (slice(None),) *
                        (self.ndim - (len(x) - 1)) + indices[i + 1:])
         elif ellips_count > 1:
-- 
2.43.0


From 6a5be181633efc8c29b38c27d45a79d90aef96ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:04 +0000
Subject: [PATCH 097/101] fix: SP-data rows of the wrong length are refused

---
 hftools/file_formats/spdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index f78c428..eac3252 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -118,7 +118,7 @@ class ReadSPFileFormat(ReadFileFormat):
             header = [x.strip() for x in header[0].strip().split("\t")]
             Nhead = len(header)
             #data = np.array(data)
-            if Nhead != len(data[0]):
+            if not data or any(len(row) != Nhead for row in data):
                 msg = "Different number of header variables "\
                       "from data columns"
                 raise SPDataIOError(msg)
-- 
2.43.0


From 8c52aef89b16b8d6103f110daade662fba043c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:04 +0000
Subject: [PATCH 098/101] fix: cumsum, cumprod and take tell dimensions of one
 name apart

---
 hftools/dataset/arrayobj.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 244d0aa..477bd0d 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -599,7 +599,7 @@ class _hfarray(ndarray):
         if axis is None:
             data = np.ndarray.take(self, indices, axis, out, mode)
             return hfarray(data, dims=(DimAnonymous("anon1", indices), ))
-        axis = self.dims_index(axis_handler(self, axis))
+        axis = self.dims.matching_index(axis_handler(self, axis))
         olddim = self.dims[axis]
         newdim = olddim.__class__(olddim, data=olddim.data.take(indices,
                                                                 mode=mode))
@@ -953,7 +953,7 @@ class _hfarray(ndarray):
         if axis is None:
             raise HFArrayError("Must choose axis for cumulative product")
         axis = axis_handler(self, axis)
-        result = np.asarray(self).cumprod(axis=self.dims_index(axis),
+        result = np.asarray(self).cumprod(axis=self.dims.matching_index(axis),
                                           dtype=dtype, out=out)
         return self.__class__(result, dims=self.dims, copy=False)
 
@@ -961,7 +961,7 @@ class _hfarray(ndarray):
         if axis is None:
             raise HFArrayError("Must choose axis for cumulative product")
         axis = axis_handler(self, axis)
-        result = np.asarray(self).cumsum(axis=self.dims_index(axis),
+        result = np.asarray(self).cumsum(axis=self.dims.matching_index(axis),
                                          dtype=dtype, out=out)
         return self.__class__(result, dims=self.dims, copy=False)
 
-- 
2.43.0


From b42f57c51439acfee9583600d927a1528b327da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:01 +0000
Subject: [PATCH 099/101] fix: complex polar plots of real x and y pair them
 along the first dimension

---
 hftools/plotting/helper.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index 1581dfb..352c4ea 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -604,12 +604,15 @@ class ComplexPolarAxes(PolarAxes):
             else:
                 return Axes.plot(self, y, *args, **kwargs)
         elif len(vars) == 2:
-            x = vars[0]
-            y = remove_tail(vars[1])
+            x, y = vars
+            if not isinstance(x, hfarray):
+                x, y = np.asarray(x), np.asarray(y)
+                x = x.reshape(x.shape + (1,) * (y.ndim - x.ndim))
 
             if projection in _projfun:
                 x, y = _projfun[projection](x, y)
-                lines = Axes.plot(self, x, y, *args, **kwargs)
+                lines = Axes.plot(self, remove_tail(x), remove_tail(y),
+                                  *args, **kwargs)
             elif np.iscomplexobj(y):
                 lines = Axes.plot(self, y.real, y.imag, *args, **kwargs)
             else:
-- 
2.43.0


From 1b76dacb21aa96c0125eeeebfd3315d83d572eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:23 +0000
Subject: [PATCH 100/101] fix: a stored variable is assigned although a matrix
 has an element of its name

---
 hftools/dataset/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 6d8034c..d2e58e8 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -335,7 +335,8 @@ class DataBlock(object):
             else:
                 self._xname = None
             mname, elem = is_matrix_name(key)
-            if mname in self.vardata and not ismatrix(value):
+            if ((key not in self and mname in self.vardata and
+                 not ismatrix(value))):
                 idx = (Ellipsis,) + elem
                 self.vardata[mname][idx] = value
             else:
-- 
2.43.0


From de03eb6a537653945921ad53f73765f5f8b5401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:10 +0000
Subject: [PATCH 101/101] fix: collapsing repetitions keeps the name and the
 units of the coordinates

---
 hftools/dataset/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index d2e58e8..c77a326 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -659,6 +659,7 @@ class DataBlock(object):
 
     def remove_rep(self, newdimname="AllReps"):
         out = DataBlock()
+        out.blockname = self.blockname
         out.comments = self.comments
         dims = [x for x in self.ivardata.values() if isinstance(x, DimRep)]
         fullshape = tuple(x.data.shape[0] for x in dims)
@@ -671,7 +672,8 @@ class DataBlock(object):
             a[...] = dim.data[sliceidx]
             a = np.array(a, copy=False)
             a.shape = (newdim.data.shape[0],)
-            out[dim.name] = hfarray(a, dims=(newdim,))
+            out[dim.name] = hfarray(a, dims=(newdim,), unit=dim.unit,
+                                    outputformat=dim.outputformat)
         for x, v in self.vardata.items():
             reps = [i for i, dim in enumerate(v.dims)
                     if isinstance(dim, DimRep)]
-- 
2.43.0

