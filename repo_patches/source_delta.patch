From c30eb0cb74e779d745977749d5fcf2933966a171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 01/48] fix: adding a 0-d tensor to a tensor with a diagonal
 map reaches every entry

---
 maxlike/tensor/tensor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index c373ea9..762dd31 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -834,6 +834,13 @@ class Tensor(BaseTensor):
                 raise InvalidOperation
 
         if self.values.ndim == 0:
+            # the constant is added to every entry, mapped or not
+            if op_type == TensorOp.ADD:
+                return other.bin_op(self.values, TensorOp.ADD)
+            if op_type == TensorOp.SUB:
+                return other.bin_op(self.values, TensorOp.RSUB)
+            if op_type == TensorOp.RSUB:
+                return other.bin_op(self.values, TensorOp.SUB)
             return Tensor(
                 op_type.value(self.values, other.values),
                 other.x_dim, other.y_dim, other.dim, other.x_map, other.y_map)
-- 
2.43.0


From 29253a672cfd333ab070c6ba46b3e280735669bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 02/48] fix: a partial tensor sum keeps the maps to the axes
 that were not summed

---
 maxlike/tensor/tensor.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 762dd31..0af0a7b 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -36,6 +36,15 @@ def compose_mappings(map1, map2):
     ])
 
 
+def drop_from_mapping(mapping, axes):
+    # mapping after removing some of the value axes
+    res = array('b', [
+        -1 if f < 0 or f in axes else f - sum(a < f for a in axes)
+        for f in mapping
+    ])
+    return res if any(f >= 0 for f in res) else array('b')
+
+
 def arr_swapaxes(arr, q, p, mapping):
     for k, f in enumerate(mapping):
         if f >= 0:
@@ -486,8 +495,9 @@ class Tensor(BaseTensor):
         p = self.x_dim + self.y_dim
 
         if sum_val is False:
-            if sum_dim is True:
-                val = val.sum(tuple(p + self.n + np.arange(self.dim)))
+            if sum_dim is not True:
+                return self
+            val = val.sum(tuple(p + self.n + np.arange(self.dim)))
             return Tensor(val, self.x_dim, self.y_dim, 0,
                           self.x_map, self.y_map)
 
@@ -531,7 +541,11 @@ class Tensor(BaseTensor):
             idx[self.x_dim + f] = slice(None)
             val = val * np.eye(val.shape[k])[tuple(idx)]
 
-        return Tensor(val, self.x_dim, self.y_dim, dim)
+        # maps to the axes that were not summed
+        x_map = drop_from_mapping(self.x_map, sum_val)
+        y_map = drop_from_mapping(self.y_map, sum_val)
+
+        return Tensor(val, self.x_dim, self.y_dim, dim, x_map, y_map)
 
     def expand(self, where, newsize, dim=False):
         """
-- 
2.43.0


From abf5db0f40cc92a39f127b42da6f2d344edf0bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 03/48] fix: product of tensors whose diagonal maps differ
 aligns both operands

---
 maxlike/tensor/tensor.py | 83 ++++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 46 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 0af0a7b..2ec9050 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -52,14 +52,16 @@ def arr_swapaxes(arr, q, p, mapping):
     return arr
 
 
-def arr_take_diag(arr, q, p, mapping):
-    for k, f in enumerate(mapping):
-        if f < 0:
-            continue
-        arr = np.diagonal(arr, 0, q + k, p + f)  # np.diagonal
-        arr = arr.swapaxes(-1, p + f - 1)
-        arr = np.expand_dims(arr, k)
-    return arr
+def arr_take_diag(arr, k, f):
+    # values at the positions where the axes k and f (k < f) coincide,
+    # the axis k is kept with size 1
+    if arr.shape[k] == 1:
+        return arr
+    if arr.shape[f] == 1:
+        return arr.swapaxes(k, f)
+    arr = np.diagonal(arr, 0, k, f)
+    arr = np.moveaxis(arr, -1, f - 1)
+    return np.expand_dims(arr, k)
 
 
 def arr_expand_diag(arr, q, p, mapping):
@@ -76,18 +78,25 @@ def arr_expand_diag(arr, q, p, mapping):
     return arr
 
 
-def arr_expand_cross_diag(arr, p, map1, map2):
-    idx = np.ones(arr.ndim, dtype=np.int32)
-    for i, j in zip(map1, map2):
-        if i == j:
-            continue
-        n = arr.shape[p + i]
-        idx[p + i] = n
-        idx[p + j] = n
-        arr = arr * np.broadcast_to(np.eye(n), idx)
-        idx[p + i] = 1
-        idx[p + j] = 1
-    return arr
+def arr_merge_mappings(l_arr, r_arr, q, p, l_map, r_map):
+    # brings the factors of a product to a common mapping
+    size = max(len(l_map), len(r_map))
+    l_map = l_map or array('b', [-1] * size)
+    r_map = r_map or array('b', [-1] * size)
+    mapping = array('b')
+    for k, (f, g) in enumerate(zip(l_map, r_map)):
+        mapping.append(g if f < 0 else f)
+        if f >= 0 and g < 0:
+            r_arr = arr_take_diag(r_arr, q + k, p + f)
+        elif f < 0 and g >= 0:
+            l_arr = arr_take_diag(l_arr, q + k, p + g)
+        elif f != g:
+            n = l_arr.shape[p + f]
+            idx = np.ones(l_arr.ndim, dtype=np.int32)
+            idx[p + f] = n
+            idx[p + g] = n
+            l_arr = l_arr * np.eye(n).reshape(idx)
+    return l_arr, r_arr, mapping
 
 
 def arr_swapaxes_cross(arr, p, map1, map2):
@@ -912,34 +921,16 @@ class Tensor(BaseTensor):
         # --------------------------------------------------------------------
         # Multiplication and Division
         # --------------------------------------------------------------------
-        p = self.x_dim + self.y_dim
-
-        if self.x_map:
-            x_map = self.x_map
-            l_values = arr_expand_cross_diag(
-                l_values, p, self.x_map, other.x_map)
-            if not other.x_map and other.x_dim:
-                r_values = arr_take_diag(r_values, 0, other.x_dim + other.y_dim,
-                                         self.x_map)
-        else:
-            x_map = other.x_map
-            if x_map and self.x_dim:
-                l_values = arr_take_diag(l_values, 0, p, other.x_map)
-
-        if self.y_map:
-            y_map = self.y_map
-            l_values = arr_expand_cross_diag(
-                l_values, p, self.y_map, other.y_map)
-            if not other.y_map and other.y_dim:
-                r_values = arr_take_diag(r_values, other.x_dim, other.x_dim + other.y_dim,
-                                         self.y_map)
-        else:
-            y_map = other.y_map
-            if self.y_dim:
-                l_values = arr_take_diag(l_values, self.x_dim, p, other.y_map)
+        p = x_dim + y_dim
+        l_values, r_values, x_map = arr_merge_mappings(
+            l_values[l_idx], r_values[r_idx],
+            0, p, self.x_map, other.x_map)
+        l_values, r_values, y_map = arr_merge_mappings(
+            l_values, r_values,
+            x_dim, p, self.y_map, other.y_map)
 
         return Tensor(
-            op_type.value(l_values[l_idx], r_values[r_idx]),
+            op_type.value(l_values, r_values),
             x_dim=x_dim, y_dim=y_dim, dim=dim,
             x_map=x_map, y_map=y_map)
 
-- 
2.43.0


From 9b4a00099ba9d040043bf493165ef7da80b358a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 04/48] fix: sums and dense conversion of a sum of tensors
 align the axes of every addend

---
 maxlike/tensor/tensor.py | 70 ++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 2ec9050..fc3696c 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -245,7 +245,7 @@ class GenericTensor(BaseTensor):
         object.__setattr__(self, 'elements', tuple(elements))
 
     def toarray(self):
-        return sum([el.toarray() if isinstance(el, Tensor) else el
+        return sum([el.toarray()[self.__align_idx(el)]
                     for el in self.elements])
 
     def sum(self, sum_val=True, sum_dim=True):
@@ -268,36 +268,40 @@ class GenericTensor(BaseTensor):
             if len(idx) == self.n:
                 sum_val = True
 
+        sum_idx = list(idx)
         if sum_dim is True:
-            idx += (self.n + np.arange(self.dim)).tolist()
+            sum_idx += (self.n + np.arange(self.dim)).tolist()
 
-        shape_n = np.ones(len(idx), dtype=np.int)
-        el_sizes = np.empty(len(self.elements), dtype=np.int)
+        # sizes of the value/dim axes of each element
+        el_shapes = np.ones(
+            (len(self.elements), self.n + self.dim), dtype=np.int64)
         for k, el in enumerate(self.elements):
             p = el.x_dim + el.y_dim
-            shape = np.array(el.values.shape)[(p + np.array(idx)).tolist()]
-            shape_n = np.maximum(shape_n, shape)
-            el_sizes[k] = np.array(shape).prod()
+            if el.n > 0:
+                el_shapes[k, :self.n] = el.values.shape[p:p + el.n]
+            if el.dim > 0:
+                el_shapes[k, self.n:] = el.values.shape[p + el.n:]
 
-        size = shape_n.prod()
+        el_sizes = el_shapes[:, sum_idx].prod(1)
+        size = el_shapes.max(0, initial=1)[sum_idx].prod()
 
-        if sum_val is True:
-            values = 0
-            for el, el_size in zip(self.elements, el_sizes):
-                idx = []
-                idx += [None] * (self.x_dim - el.x_dim) + [slice(None)] * el.x_dim
-                idx += [None] * (self.y_dim - el.y_dim) + [slice(None)] * el.y_dim
-                idx += [...]
-                values = values + el.sum(sum_val, sum_dim).\
-                    values[tuple(idx)] * (size / el_size)
-
-            dim = 0 if sum_dim is True else self.dim
-            return Tensor(values, x_dim=self.x_dim, y_dim=self.y_dim, dim=dim)
-
-        # else:
-        new_elements = [el.sum(False, sum_dim) * (size / el_size)
+        new_elements = [el.sum(idx if el.n > 0 else False, sum_dim) *
+                        (size / el_size)
                         for el, el_size in zip(self.elements, el_sizes)]
-        return GenericTensor(self.x_dim, self.y_dim, self.n, 0, new_elements)
+        res = GenericTensor(self.x_dim, self.y_dim, self.n - len(idx),
+                            0 if sum_dim is True else self.dim, new_elements)
+        if sum_val is True:
+            return Tensor(res.toarray(), x_dim=res.x_dim, y_dim=res.y_dim,
+                          dim=res.dim)
+        return res
+
+    def __align_idx(self, el):
+        # inserts the groups of axes that the element doesn't have
+        idx = []
+        for size, el_size in ((self.x_dim, el.x_dim), (self.y_dim, el.y_dim),
+                              (self.n, el.n), (self.dim, el.dim)):
+            idx += [None] * (size - el_size) + [slice(None)] * el_size
+        return tuple(idx)
 
     def expand(self, where, newsize, dim=False):
         new_n = self.n if dim else newsize
@@ -375,20 +379,16 @@ class GenericTensor(BaseTensor):
         # Scalar
         # Array
         #  -> are converted to tensor
-        if isinstance(other, (int, float, np.ndarray)):
-            x_dim = self.x_dim
-            y_dim = self.y_dim
-            n = self.n
-            dim = self.dim
+        if not isinstance(other, BaseTensor):
+            other = Tensor(other)
 
-        else:
-            x_dim = max(self.x_dim, other.x_dim)
-            y_dim = max(self.y_dim, other.y_dim)
-            n = max(self.n, other.n)
-            dim = max(self.dim, other.dim)
+        x_dim = max(self.x_dim, other.x_dim)
+        y_dim = max(self.y_dim, other.y_dim)
+        n = max(self.n, other.n)
+        dim = max(self.dim, other.dim)
 
         # Tensor
-        if isinstance(other, (int, float, np.ndarray, Tensor)):
+        if isinstance(other, Tensor):
             new_elements = list(self.elements)
             if op_type in [TensorOp.ADD, TensorOp.SUB]:
                 for k, el in enumerate(new_elements):
-- 
2.43.0


From c3b5ab6a96927a73fe29facd99e2ec265253aaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 05/48] fix: reshaping a sum of tensors brings every addend to
 the same axes

---
 maxlike/tensor/tensor.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index fc3696c..1ba2301 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -303,17 +303,26 @@ class GenericTensor(BaseTensor):
             idx += [None] * (size - el_size) + [slice(None)] * el_size
         return tuple(idx)
 
+    def __padded(self):
+        # elements with the same number of value/dim axes
+        for el in self.elements:
+            idx = [slice(None)] * (el.x_dim + el.y_dim)
+            idx += [None] * (self.n - el.n) + [slice(None)] * el.n
+            idx += [None] * (self.dim - el.dim) + [slice(None)] * el.dim
+            yield Tensor(el.values[tuple(idx)], el.x_dim, el.y_dim, self.dim,
+                         el.x_map, el.y_map)
+
     def expand(self, where, newsize, dim=False):
         new_n = self.n if dim else newsize
         new_dim = newsize if dim else self.dim
         return GenericTensor(
             self.x_dim, self.y_dim, new_n, new_dim,
-            [el.expand(where, newsize, dim) for el in self.elements])
+            [el.expand(where, newsize, dim) for el in self.__padded()])
 
     def flip(self, where, dim=False):
         return GenericTensor(
             self.x_dim, self.y_dim, self.n, self.dim,
-            [el.flip(where, dim) for el in self.elements])
+            [el.flip(where, dim) for el in self.__padded()])
 
     def transpose(self):
         return GenericTensor(
@@ -323,7 +332,7 @@ class GenericTensor(BaseTensor):
     def drop_dim(self):
         return GenericTensor(
             self.x_dim, self.y_dim, self.n + self.dim, 0,
-            [el.drop_dim() for el in self.elements])
+            [el.drop_dim() for el in self.__padded()])
 
     def dot(self, other):
         if isinstance(other, Tensor):
-- 
2.43.0


From 91fda343066ccfc723e0c43d6a8167538f6a566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 06/48] fix: inner product with a mapped factor contracts axes
 the other factor leaves unmapped

---
 maxlike/tensor/tensor.py | 58 ++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 1ba2301..ed01f4c 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -30,10 +30,11 @@ def set_dtype(s):  # pragma: no cover
 
 
 def compose_mappings(map1, map2):
-    return array('b', [
-        -1 if f < 0 else map1[f]
-        for k, f in enumerate(map2)
+    res = array('b', [
+        -1 if f < 0 or not map1 else map1[f]
+        for f in map2
     ])
+    return res if any(f >= 0 for f in res) else array('b')
 
 
 def drop_from_mapping(mapping, axes):
@@ -99,20 +100,21 @@ def arr_merge_mappings(l_arr, r_arr, q, p, l_map, r_map):
     return l_arr, r_arr, mapping
 
 
-def arr_swapaxes_cross(arr, p, map1, map2):
-    idx = np.ones(arr.ndim, dtype=np.int32)
-    for k, f in enumerate(map2):
-        for l, g in enumerate(map1):
-            if g == f:
-                n = arr.shape[k]
-                idx[l] = n
-                idx[p + k] = n
-                arr = arr * np.broadcast_to(np.eye(n), idx)
-                idx[l] = 1
-                idx[p + k] = 1
-                break
-        else:
-            arr = arr.swapaxes(p + k, p + f)
+def arr_swapaxes_cross(arr, q, p, x_map, y_map):
+    # the axes mapped to the same value axis are tied to each other
+    for k, f in enumerate(x_map):
+        if f >= 0:
+            arr = arr.swapaxes(k, p + f)
+    for k, f in enumerate(y_map):
+        if f < 0:
+            continue
+        if f not in x_map:
+            arr = arr.swapaxes(q + k, p + f)
+            continue
+        idx = np.ones(arr.ndim, dtype=np.int32)
+        l = x_map.index(f)
+        idx[l] = idx[q + k] = arr.shape[l]
+        arr = arr * np.eye(arr.shape[l]).reshape(idx)
     return arr
 
 
@@ -732,12 +734,10 @@ class Tensor(BaseTensor):
         val = arr_swapaxes(val, 0, p, self.x_map)
         val = np.multiply(other.values[tuple(l_idx)], val[tuple(r_idx)])
         val = arr_swapaxes(val, other.x_dim, other.x_dim + p, self.x_map)
-        if self.x_map:
-            x_map = compose_mappings(self.x_map, other.x_map)
-        else:
-            x_map = array('b')
-            val = arr_swapaxes(val, 0, other.x_dim, other.x_map)
+        val = arr_swapaxes(val, 0, other.x_dim,
+                           self.__unmapped(other.x_map))
 
+        x_map = compose_mappings(self.x_map, other.x_map)
         val = val.sum(tuple(other.x_dim + np.arange(other.n)))
         return Tensor(val, x_dim=other.x_dim, y_dim=self.y_dim, dim=dim,
                       x_map=x_map, y_map=self.y_map)
@@ -783,10 +783,9 @@ class Tensor(BaseTensor):
         val = arr_swapaxes(val, 0, self.x_dim, self.x_map)
         val = other.values[tuple(l_idx)] * val[tuple(r_idx)]
         val = arr_swapaxes(val, p, p + self.x_dim, self.x_map)
-        if not self.x_map:
-            val = arr_swapaxes(val, 0, p, other.x_map)
-            val = arr_swapaxes_cross(val, other.x_dim,                      # NOT COVERED
-                                     other.x_map, other.y_map)
+        val = arr_swapaxes_cross(val, other.x_dim, p,
+                                 self.__unmapped(other.x_map),
+                                 self.__unmapped(other.y_map))
 
         x_map = compose_mappings(self.x_map, other.x_map)
         y_map = compose_mappings(self.x_map, other.y_map)
@@ -795,6 +794,13 @@ class Tensor(BaseTensor):
                       x_dim=other.x_dim, y_dim=other.y_dim, dim=dim,
                       x_map=x_map, y_map=y_map)
 
+    def __unmapped(self, mapping):
+        # part of a mapping to the x axes that aren't themselves mapped
+        return array('b', [
+            -1 if self.x_map and self.x_map[f] >= 0 else f
+            for f in mapping
+        ])
+
     def __neg__(self):
         return Tensor(
             -self.values,
-- 
2.43.0


From 9122dfe56f69ba3c1bd037503596e9ac60fa0129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 07/48] fix: Linear reports gradient and Hessian of a scalar,
 usable as a regularization

---
 maxlike/func/func.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index 0848e93..dc786c7 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -17,13 +17,10 @@ class Linear(Func):
                     for w, p in zip(params, self.weights)))
 
     def grad(self, params, i):
-        return grad_tensor(self.weights[i] * np.ones((1, ) *
-                           np.asarray(params[i]).ndim), params, i, True)
+        return grad_tensor(self.weights[i] * np.ones_like(
+            params[i], dtype=np.float64), params, i, True).sum()
 
-    def hess(self, params, i, j):
-        return hess_tensor(np.zeros((1, ) *
-            (np.asarray(params[j]).ndim + np.asarray(params[i]).ndim)),
-            params, i, j, True, True)
+    hess = null_func
 
 
 class Quadratic(Func):  # TODO : expand this class to allow more generic stuff
-- 
2.43.0


From 6a0c4de4cde7971dde99090b530eb2b67b3960fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 08/48] fix: CollapseMatrix uses the conditions it is given

---
 maxlike/func/matrix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 253365a..b13922b 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -19,6 +19,10 @@ class CollapseMatrix(Func):
                 (1, -1, 0, 0),
                 (1, -1, 0, -1),
             ]
+        elif isinstance(conditions, tuple):
+            self.conditions = [conditions]
+        else:
+            self.conditions = list(conditions)
 
     def __call__(self, params):
         """
-- 
2.43.0


From 66d70a9cfbdc9d5d517d8b5e9616765975daface Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 09/48] fix: CollapseMatrix gradient keeps the order of the
 feature axes

---
 maxlike/func/matrix.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index b13922b..33fa584 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -51,8 +51,7 @@ class CollapseMatrix(Func):
             val.append(ones * filt)
         x_dim = ones.ndim
         val = np.stack(val, -1)
-        val = val.swapaxes(0, x_dim - 2)
-        val = val.swapaxes(1, x_dim - 1)
+        val = np.moveaxis(val, (x_dim - 2, x_dim - 1), (0, 1))
         x_map = array('b', range(x_dim - 2))
         x_map.append(-1)
         x_map.append(-1)
-- 
2.43.0


From f7d4a736d3acf3e8433fac2dde23c19c11660b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 10/48] fix: mixed second derivative of MarkovMatrix with a
 skew table

---
 maxlike/func/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 33fa584..36b5d08 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -140,7 +140,7 @@ class MarkovMatrix(Func):
 
                     H12[..., x_, y] += s1 * f1 * hm12 + f1 * dm2
                     H12[..., x, y_] += s2 * f2 * hm12 + f2 * dm1
-                    H12[..., x, y]  -= f1 * dm1 + f2 * dm2 + (s1 * f1 + s2 * f2) * hm12
+                    H12[..., x, y]  -= f1 * dm2 + f2 * dm1 + (s1 * f1 + s2 * f2) * hm12
 
                     H22[..., x_, y] += s1 * f1 * hm22
                     H22[..., x, y_] += s2 * f2 * hm22 + 2 * f2 * dm2
-- 
2.43.0


From a77148c74187b6a87c4d2a8c07a936230d9133ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 11/48] fix: Tensor.transpose with two or more x or y axes

---
 maxlike/tensor/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index ed01f4c..66405d0 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -651,8 +651,8 @@ class Tensor(BaseTensor):
     def transpose(self):
         val = self.values
         if (self.x_dim > 0) & (self.y_dim > 0):
-            for k in range(0, self.x_dim):
-                val = np.moveaxis(val, self.x_dim, k)
+            for k in range(0, self.y_dim):
+                val = np.moveaxis(val, self.x_dim + k, k)
         return Tensor(val, self.y_dim,  self.x_dim, self.dim,
                       self.y_map, self.x_map)
 
-- 
2.43.0


From fea8bc2eed77c8e8eafb590ad26d0cc75ff3838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 12/48] fix: GenericTensor.sum over value axis 0 given as a
 number

---
 maxlike/tensor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 66405d0..2b32ad9 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -252,7 +252,7 @@ class GenericTensor(BaseTensor):
 
     def sum(self, sum_val=True, sum_dim=True):
         # considers the impact of broadcasting
-        if not sum_val and not sum_dim:
+        if sum_val is False and sum_dim is not True:
             return self
 
         if sum_val is False:
-- 
2.43.0


From 5b53e22b69c5e522c9134a0f7b36e96187434a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 13/48] fix: offset of an affine or sum added to a Sum is
 scaled by its weight

---
 maxlike/func/func_op.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 3414967..57afed9 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -177,10 +177,10 @@ class Sum(Func):
             dim_map = [dim_map]
 
         if isinstance(foo, Affine):
-            self.b += foo.b
+            self.b += weight * foo.b
             self.add(foo.base, param_map, feat_map, dim_map, weight * foo.a)
         elif isinstance(foo, Sum):
-            self.b += foo.b
+            self.b += weight * foo.b
             for w, atom in foo.atoms:
                 self.add(
                     atom.foo,
-- 
2.43.0


From 93d66ee7d5d3e9ca2c8dfc7af7bd452187367847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 14/48] fix: Sum.eval includes the offset

---
 maxlike/func/func_op.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 57afed9..f95a620 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -217,7 +217,7 @@ class Sum(Func):
                 grad[i] += w * atom_grad[i]
                 for j in range(i + 1):
                     hess[i][j] += w * atom_hess[i][j]
-        return val, grad, hess
+        return val + self.b, grad, hess
 
 
 class Product(Func):
-- 
2.43.0


From 6d1f026c7b4f63bf7c844b9052faecd214364167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 15/48] fix: index-mapped functions accept parameters in any
 order and repeated

---
 maxlike/func/func_op.py | 57 +++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index f95a620..6cc30a0 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -52,10 +52,8 @@ class FuncWrap(Func):
                 grad = []
                 hess = [[Tensor(0)] * (i + 1) for i in range(n)]
                 for i in range(n):
-                    try:
-                        grad.append(obj._expand(foo_grad[obj.param_map.index(i)]))
-                    except ValueError:
-                        grad.append(Tensor(0))
+                    grad.append(obj._sum_expanded(
+                        foo_grad[k] for k in obj._indexes(i)))
                 return val, grad, hess
 
             self.hess = null_method(self)
@@ -68,45 +66,36 @@ class FuncWrap(Func):
     def __call__(self, params):
         return self._expand(self.foo(self.param_map(params)))
 
+    def _indexes(self, i):
+        # positions of the parameter i in the parameters of foo
+        return [k for k, p in enumerate(self.param_map) if p == i]
+
+    def _sum_expanded(self, tensors):
+        return sum((self._expand(x) for x in tensors), Tensor(0))
+
     def grad(self, params, i):
-        try:
-            return self._expand(
-                self.foo.grad(self.param_map(params),
-                              self.param_map.index(i)))
-        except ValueError:
-            return Tensor(0)
+        foo_params = self.param_map(params)
+        return self._sum_expanded(
+            self.foo.grad(foo_params, k) for k in self._indexes(i))
 
     def hess(self, params, i, j):
-        try:
-            return self._expand(
-                self.foo.hess(self.param_map(params),
-                              self.param_map.index(i),
-                              self.param_map.index(j)))
-        except ValueError:
-            return Tensor(0)
+        foo_params = self.param_map(params)
+        return self._sum_expanded(
+            self.foo.hess(foo_params, k, l) if k >= l else
+            self.foo.hess(foo_params, l, k).transpose()
+            for k in self._indexes(i) for l in self._indexes(j))
 
     def eval(self, params):
         foo_val, foo_grad, foo_hess = self.foo.eval(self.param_map(params))
         val = self._expand(foo_val)
         grad, hess = [], []
-        idx_list = []
         for i in range(len(params)):
-            try:
-                idx = self.param_map.index(i)
-                grad.append(self._expand(foo_grad[idx]))
-                hess_line = []
-                for j in range(i):
-                    jdx = idx_list[j]
-                    hess_line.append(
-                        Tensor(0) if jdx is None else
-                        self._expand(foo_hess[idx][jdx]))
-                hess_line.append(self._expand(foo_hess[idx][idx]))  # for diag
-                hess.append(hess_line)
-            except ValueError:
-                idx = None
-                grad.append(Tensor(0))
-                hess.append([Tensor(0)] * (i + 1))
-            idx_list.append(idx)
+            grad.append(self._sum_expanded(
+                foo_grad[k] for k in self._indexes(i)))
+            hess.append([self._sum_expanded(
+                foo_hess[k][l] if k >= l else foo_hess[l][k].transpose()
+                for k in self._indexes(i) for l in self._indexes(j))
+                for j in range(i + 1)])
         return val, grad, hess
 
 
-- 
2.43.0


From 1c59b2f1b8f73b193d6fdd76337cd20f7150943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 16/48] fix: a null tensor is accepted as a factor of an inner
 product

---
 maxlike/tensor/tensor.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 2b32ad9..033c448 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -46,6 +46,11 @@ def drop_from_mapping(mapping, axes):
     return res if any(f >= 0 for f in res) else array('b')
 
 
+def is_zero(t):
+    # the null tensor, that stands for any shape
+    return isinstance(t, Tensor) and t.values.ndim == 0 and t.values == 0
+
+
 def arr_swapaxes(arr, q, p, mapping):
     for k, f in enumerate(mapping):
         if f >= 0:
@@ -714,6 +719,9 @@ class Tensor(BaseTensor):
         """
         dim = max(self.dim, other.dim)
 
+        if self.x_dim != other.n and (is_zero(self) or is_zero(other)):
+            return Tensor(0)
+
         if (self.x_dim != other.n) & (self.y_dim == other.n):
             return self.transpose().dot_left(other)
 
@@ -757,10 +765,13 @@ class Tensor(BaseTensor):
 
         try:
             if other.values.ndim == 0 and other.values == 0:
-                return 0
+                return Tensor(0)
         except:
             pass
 
+        if self.x_dim != other.n and is_zero(self):
+            return Tensor(0)
+
         dim = max(self.dim, other.dim)
 
         assert self.y_dim == 0
-- 
2.43.0


From 84f13ab2edf3124f382605801baf90b4c0af4096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 17/48] fix: a constant tensor expands to any axes

---
 maxlike/tensor/tensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 033c448..e633334 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -579,6 +579,9 @@ class Tensor(BaseTensor):
         assert max(where or [-1]) < newsize
 
         if self.values.ndim == 0:
+            if where:
+                # a constant stands for any shape
+                return self
             if float(self.values) == 0:
                 return Tensor(0)
 
-- 
2.43.0


From 55dba33e95cba00ad975b8e06d3d776062ce4554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 18/48] fix: Collapse derivatives count every axis of the
 collapsed value

---
 maxlike/func/func_op.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 6cc30a0..e0a0eec 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,3 +1,4 @@
+import numpy as np
 from ..tensor import Tensor
 from .func_base import Func, Affine, null_method, isnull
 from six.moves import reduce
@@ -111,22 +112,27 @@ class Collapse(Func):
             sum(sum_val=self.sum_val,
                 sum_dim=self.sum_dim)
 
+    def _sum(self, x, val):
+        # a derivative can be constant along some of the axes of the value
+        shape = val.toarray().shape
+        for el in getattr(x, 'elements', [x]):
+            if el.values.shape[el.x_dim + el.y_dim:] == shape:
+                break
+        else:
+            x = x + Tensor(np.zeros(shape), dim=val.dim)
+        return x.sum(self.sum_val, self.sum_dim)
+
     def grad(self, params, i):
-        return self.foo.grad(params, i).\
-            sum(sum_val=self.sum_val,
-                sum_dim=self.sum_dim)
+        return self._sum(self.foo.grad(params, i), self.foo(params))
 
     def hess(self, params, i, j):
-        return self.foo.hess(params, i, j).\
-            sum(sum_val=self.sum_val,
-                sum_dim=self.sum_dim)
+        return self._sum(self.foo.hess(params, i, j), self.foo(params))
 
     def eval(self, params):
         val, grad, hess = self.foo.eval(params)
         return val.sum(self.sum_val, self.sum_dim), \
-               [d.sum(self.sum_val, self.sum_dim) for d in grad], \
-               [[h.sum(self.sum_val, self.sum_dim)
-                 for h in h_line] for h_line in hess]
+               [self._sum(d, val) for d in grad], \
+               [[self._sum(h, val) for h in h_line] for h_line in hess]
 
 
 class Sum(Func):
-- 
2.43.0


From 02bb30fd3838fdc48e4746aba0477c49f6f2f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 19/48] fix: a constant tensor can be flipped

---
 maxlike/tensor/tensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index e633334..4e76ea1 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -626,6 +626,9 @@ class Tensor(BaseTensor):
         if where is None or where == []:
             return self
 
+        if self.values.ndim == 0:
+            return self
+
         if isinstance(where, int):
             where = [where]
 
-- 
2.43.0


From ce00f93f50193561cd32c5c8e5071d721a7ddf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 20/48] fix: flat gradient and Hessian accept parameters the
 model does not depend on

---
 maxlike/maxlike_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 75c53bc..136321e 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -337,7 +337,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             for i, idx in enumerate(param_map):
                 grad[idx] -= grad_h[i]
 
-        grad = [d.values[~p.mask] for d, p in zip(grad, params)] + grad[n:]
+        grad = [np.broadcast_to(d.values, p.shape)[~p.mask]
+                for d, p in zip(grad, params)] + grad[n:]
         grad = np.concatenate(grad)
 
         return grad
@@ -388,7 +389,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         #
         # then hess[i][j].shape = shape[j] x shape[i]
 
-        hess = [[hess[i][j].values[
+        hess = [[np.broadcast_to(hess[i][j].values, p_i.shape + params[j].shape)[
                      np.multiply.outer(~p_i.mask, ~params[j].mask)].
                      reshape((p_i.count(), params[j].count()))
                  for j in range(i + 1)]
-- 
2.43.0


From e558c7c5e328fb687795512b095c4b7f457b351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 21/48] fix: constraints and regularizations accept parameters
 in any order and repeated

---
 maxlike/maxlike_base.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 136321e..d29b913 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -366,14 +366,16 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             for i, idx in enumerate(param_map):
                 hess_c[k][idx] += grad_g[i].sum().values
                 for j in range(i + 1):
-                    hess[idx][param_map[j]] += gamma * hess_g[i][j]
+                    self._add_block(hess, idx, param_map[j],
+                                    gamma * hess_g[i][j], i == j)
 
         for param_map, h in self.reg:
             args = [params[k] for k in param_map]
             hess_h = h.hess(args)
             for i, idx in enumerate(param_map):
                 for j in range(i + 1):
-                    hess[idx][param_map[j]] -= hess_h[i][j]
+                    self._add_block(hess, idx, param_map[j],
+                                    -hess_h[i][j], i == j)
 
         # --------------------------------------------------------------------
         # 3rd phase: Reshape and flatten
@@ -416,6 +418,17 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
 
         return hess
      
+    @staticmethod
+    def _add_block(hess, i, j, block, diag):
+        # only the lower triangle of blocks is stored; a pair of different
+        # arguments appears twice in the full Hessian
+        if i < j:
+            hess[j][i] += block.transpose()
+        elif i > j or diag:
+            hess[i][j] += block
+        else:
+            hess[i][i] += block + block.transpose()
+
     def newton_step(self, params):
         
         y, der, hess = self.model.eval(params)
-- 
2.43.0


From 9ba4d2a4ead43b51a6370e8ba27459f0d32ae209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 22/48] fix: constraint rows of the flat Hessian are floating
 point for integer parameters

---
 maxlike/maxlike_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index d29b913..2cb0207 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -354,7 +354,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
 
         # Add blocks corresponding to constraint variables:
         # Hess_lambda_params = grad_g
-        hess_c = [[np.zeros_like(p) for p in params] for _ in range(c_len)]
+        hess_c = [[np.zeros(p.shape) for p in params] for _ in range(c_len)]
 
         # --------------------------------------------------------------------
         # 2nd phase: Add constraints / regularization to grad and hess
-- 
2.43.0


From 365151e88d92038392147b2f935bf0d5cc8e278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 23/48] fix: standard errors of models without constraints

---
 maxlike/maxlike_base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 2cb0207..3ccb34d 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -310,12 +310,10 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         """
         Standard Deviation Array.
         """
-        cut = len(self.constraint)
-        if cut == 0:
-            cut = None
+        var = np.diag(-np.linalg.inv(self.flat_hess_))
+        cut = var.size - len(self.constraint)
         return [p.as_masked() for p in
-            self._reshape_array(np.sqrt(np.diag(-np.linalg.inv(
-            self.flat_hess_))[:-cut]))
+            self._reshape_array(np.sqrt(var[:cut]))
         ]
 
     def flat_grad(self, params, *args, **kwargs):
-- 
2.43.0


From ee05726a8277d00005bb0945b76af2ca42477713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 24/48] fix: a successful Newton fit marks the model as
 converged

---
 maxlike/maxlike_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 3ccb34d..8d8db07 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -515,6 +515,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                 if abs(prev_g / g - 1) < tol:
                     self.params = params
                     self.flat_hess_ = hess
+                    self.converged = True
                     return True
 
         elif method == "broyden":
-- 
2.43.0


From 770688c0bebef7b5ae4af60e926a6775e5829b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 25/48] fix: verbose Broyden fit prints the objective

---
 maxlike/maxlike_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 8d8db07..28c568a 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -549,7 +549,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     g = self.g(params)
 
                     if verbose > 0:
-                        print(k + 1, new_g)
+                        print(k + 1, g)
 
                     if abs(prev_g / g - 1) < tol:
                         self.params = params
-- 
2.43.0


From a188c6f6d6df8ac898c679830c31f12efa6b5eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 26/48] fix: Broyden fit accepts integer starting values

---
 maxlike/maxlike_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 28c568a..0ec58cb 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -544,7 +544,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     grad_prev = grad
 
                     step = -np.dot(J, grad)
-                    flat_params += step[:i1]
+                    flat_params = flat_params + step[:i1]
                     params = self._reshape_params(flat_params)
                     g = self.g(params)
 
-- 
2.43.0


From c6f219328092385ac8c1ff14b7d60a90c0a93848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 27/48] fix: copulas accept integer marginals

---
 maxlike/func/copula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/copula.py b/maxlike/func/copula.py
index cb67977..752b048 100644
--- a/maxlike/func/copula.py
+++ b/maxlike/func/copula.py
@@ -34,8 +34,8 @@ def copulaWrap(C):
     def wrap(obj, params, *args, **kwargs):
         x = np.asarray(params[0]).cumsum(-1)
         y = np.asarray(params[1]).cumsum(-1)
-        x /= x[..., -1][..., None]
-        y /= y[..., -1][..., None]
+        x = x / x[..., -1][..., None]
+        y = y / y[..., -1][..., None]
         # exclude last element
         F_xy = C(obj, x[..., None], y[..., None, :], *args, **kwargs)
         F_xy = np.insert(F_xy, 0, 0, -1)
-- 
2.43.0


From f790b8341238758f90566258c1db7f7696ffb031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 28/48] fix: poisson_cdf_root raises its errors instead of
 returning them

---
 maxlike/skellam.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 83fc31c..62b5785 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -72,7 +72,7 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
     """
     # if not (isinstance(target, float) and target < 1 or target > 0):
     if target >= 1 or target <= 0:
-        return ValueError
+        raise ValueError("target must be between 0 and 1")
     phi = ndtri(target)
     min_a = 1e-3
     a = max(((phi * phi + 4 * n + 2) ** .5 - phi) ** 2 / 4, min_a)
@@ -98,7 +98,8 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
                 scale_factor *= .5
         count += 1
         if count > max_steps:
-            return ConvergenceError
+            raise ConvergenceError(
+                "Error: no convergence after %d steps" % max_steps)
     return a
 
 
-- 
2.43.0


From 2c7517f889e2695113c0ef1e80e59e3f06bb4547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 29/48] fix: skellam_cdf_root raises a ConvergenceError with
 its message

---
 maxlike/skellam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 62b5785..ef095e0 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -157,7 +157,8 @@ def skellam_cdf_root(target1, target2, n=0, tol=1e-8):
                 new_e = np.linalg.norm(new_s - target)
         count += 1
         if count > max_steps:
-            raise ConvergenceError
+            raise ConvergenceError(
+                "Error: no convergence after %d steps" % max_steps)
     return a, b
 
 
-- 
2.43.0


From 64cd6c817e47d33c6756c2435e0d0c7bec68b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 30/48] fix: conditional_skellam_cdf_root stops after its step
 limit

---
 maxlike/skellam.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index ef095e0..49d7846 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -205,6 +205,8 @@ def conditional_skellam_cdf_root(b, target, tol=1e-8):
                 frame = Poi_a[:, None] * Poi_b[None, :]
                 new_s = frame[xy < 0].sum() + 0.5 * frame[xy == 0].sum()
                 new_e = abs(target - new_s)
+        count += 1
         if count > max_steps:
-            raise ConvergenceError
+            raise ConvergenceError(
+                "Error: no convergence after %d steps" % max_steps)
     return a
-- 
2.43.0


From 3c06e746886bcfb45f88f47f3e353f953b4cfbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 31/48] fix: poisson_cdf_root does not evaluate negative rates

---
 maxlike/skellam.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 49d7846..7015b14 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -93,8 +93,9 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
                 break
             else:
                 new_a = a + scale_factor * step
-                new_f, _ = poisson_cdf(new_a, n)
-                new_e = abs(target - new_f)
+                if new_a > 0:
+                    new_f, _ = poisson_cdf(new_a, n)
+                    new_e = abs(target - new_f)
                 scale_factor *= .5
         count += 1
         if count > max_steps:
-- 
2.43.0


From cefcc2b47a38bb588995e5bef5daae770395fd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 32/48] fix: derivatives of Log and ArcTan accept the
 parameters of a model

---
 maxlike/func/func.py    | 4 ++--
 maxlike/func/sigmoid.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index dc786c7..9a5c8f6 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -122,9 +122,9 @@ class Log(Func):
         return Tensor(np.log(params[0]))
 
     def grad(self, params, i):
-        f = Tensor(1 / params[0])
+        f = 1 / Tensor(params[0])
         return grad_tensor(f, params, i, True, dim=f.dim)
 
     def hess(self, params, i, j):
-        f = Tensor(-1 / np.square(params[0]))
+        f = -1 / np.square(Tensor(params[0]))
         return hess_tensor(f, params, i, j, True, True, dim=f.dim)
diff --git a/maxlike/func/sigmoid.py b/maxlike/func/sigmoid.py
index c295680..5e06494 100644
--- a/maxlike/func/sigmoid.py
+++ b/maxlike/func/sigmoid.py
@@ -42,10 +42,10 @@ class ArcTan(Func):
         return Tensor(np.arctan(x))
 
     def grad(self, params, i):
-        x = params[0]
+        x = np.asarray(params[0])
         return grad_tensor(1 / (1 + x * x), params, i, True)
 
     def hess(self, params, i, j):
-        x = params[0]
+        x = np.asarray(params[0])
         return hess_tensor(-2 * x / (1 + x * x) ** 2,
                            params, i, j, True, True)
-- 
2.43.0


From 05e3cd23fb95bd206cfbcf0bc40d0c7635b07652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:06 +0000
Subject: [PATCH 33/48] fix: parameters accept lists of values and of fixed
 entries

---
 maxlike/maxlike_base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 0ec58cb..1b65a9d 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -17,14 +17,15 @@ class ConvergenceError(Exception):
 class Param(object):
 
     def __init__(self, values, mask=None):
-        
+        values = np.asarray(values)
         if mask is None or mask is False:
             mask = np.zeros_like(values, dtype=np.bool)
         else:
+            mask = np.asarray(mask)
             assert mask.shape == values.shape
 
-        object.__setattr__(self, 'values', np.asarray(values))
-        object.__setattr__(self, 'mask',   np.asarray(mask))
+        object.__setattr__(self, 'values', values)
+        object.__setattr__(self, 'mask',   mask)
         object.__setattr__(self, 'shape',  self.values.shape)
         object.__setattr__(self, 'hash',   getrandbits(128))
         self.values.flags["WRITEABLE"] = False
-- 
2.43.0


From 914b679aac2493ec9bfae355cd2366a2cbb23719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:33 +0000
Subject: [PATCH 34/48] fix: ufuncs with a tensor as first operand ignored the
 second one

---
 maxlike/tensor/tensor.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 4e76ea1..7cab453 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -469,6 +469,11 @@ class GenericTensor(BaseTensor):
             }[name]
         except:
             raise InvalidOperation('Invalid ufunc:', name)
+        if inputs[0] is self:
+            # the first operand: nothing is reversed
+            return self.bin_op(inputs[1], {
+                TensorOp.RSUB: TensorOp.SUB,
+                TensorOp.RDIV: TensorOp.DIV}.get(op_type, op_type))
         return self.bin_op(inputs[0], op_type)
 
 
@@ -991,7 +996,8 @@ class Tensor(BaseTensor):
                 raise InvalidOperation(
                     "{} only supported for Tensor".format(name) +
                     "for x_dim == y_dim == 0")
-            return Tensor(ufunc(self.values, inputs[1]),
+            other = inputs[1] if inputs[0] is self else inputs[0]
+            return Tensor(ufunc(self.values, other),
                           x_dim=0, y_dim=0, dim=self.dim)
 
         try:
@@ -1004,6 +1010,11 @@ class Tensor(BaseTensor):
             }[name]
         except:
             raise InvalidOperation('Invalid ufunc:', name)
+        if inputs[0] is self:
+            # the first operand: nothing is reversed
+            return self.bin_op(inputs[1], {
+                TensorOp.RSUB: TensorOp.SUB,
+                TensorOp.RDIV: TensorOp.DIV}.get(op_type, op_type))
         return self.bin_op(inputs[0], op_type)
 
     def __reshape_idx(self, x_dim, y_dim, n, dim):
-- 
2.43.0


From 78fd89b0b4e8a1987f8bd08a4de08fe92bb3200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:46 +0000
Subject: [PATCH 35/48] fix: the support of the Skellam functions missed more
 than the tolerance

---
 maxlike/skellam.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 7015b14..3a88a43 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -1,6 +1,6 @@
 import numpy as np
 from math import exp
-from scipy.special import ndtri, factorial
+from scipy.special import ndtri, factorial, pdtrc
 from .maxlike_base import ConvergenceError
 
 
@@ -37,9 +37,20 @@ def tol2size(tol=1e-8, *args):
     return int(-ndtri(tol) * sum(map(lambda x: x ** .5, args)) + sum(args)) + 1
 
 
+def support_size(tol, *rates):
+    """
+    Size of a support that misses at most 'tol' of the mass of independent
+    Poisson distributions with the given rates.
+    """
+    size = max(tol2size(tol, *rates), 1)
+    while sum(pdtrc(size - 1, rate) for rate in rates) > tol:
+        size += 1
+    return size
+
+
 def skellam_cdf(a, b, n=0, tol=1e-8, inverse=False):
     # assert isinstance(n, int)
-    size = tol2size(tol, a, b)
+    size = support_size(tol, a, b)
     rng = np.arange(size)
     xy = rng[None, :] - rng[:, None]
     xy = (xy >= n) if inverse else (xy <= n)
@@ -48,7 +59,7 @@ def skellam_cdf(a, b, n=0, tol=1e-8, inverse=False):
 
 def skellam_cdf_pair(a, b, n=0, tol=1e-8):
     assert isinstance(n, int)
-    size = tol2size(tol, a, b)
+    size = support_size(tol, a, b)
     rng = np.arange(size)
     xy = rng[None, :] - rng[:, None]
     s = skellam_frame(a, b, size)
@@ -177,11 +188,11 @@ def conditional_skellam_cdf_root(b, target, tol=1e-8):
     count = 0
     floor = 1e-6
     max_steps = 50
-    size = tol2size(.5 * tol, b)
+    size = support_size(.5 * tol, b)
     Poi_b, dPoi_b = poisson_vector(b, size)
     rng_b = np.arange(size)
     while e > abs(tol):
-        size = tol2size(tol, a, b)
+        size = support_size(tol, a, b)
         rng_a = np.arange(size)
         xy = rng_b[None, :] - rng_a[:, None]
         Poi_a, dPoi_a = poisson_vector(a, size)
-- 
2.43.0


From 2460dec0cf673c7dba23e79f00327bf30293ffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:42 +0000
Subject: [PATCH 36/48] fix: the Markov functions raised TypeError for model
 parameters (Param)

---
 maxlike/func/matrix.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 36b5d08..af2066f 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -69,8 +69,8 @@ class MarkovMatrix(Func):
         self.skew = skew
 
     def __call__(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
@@ -102,8 +102,8 @@ class MarkovMatrix(Func):
         return self.eval(params)[2][i][j]
 
     def eval(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
@@ -183,8 +183,8 @@ class MarkovVector(Func):
         self.skew = skew
 
     def __call__(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
@@ -213,8 +213,8 @@ class MarkovVector(Func):
         return self.eval(params)[2][i][j]
 
     def eval(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
-- 
2.43.0


From b5860f1eda5dd87f5e24fea53cb637e6a2ccb039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:42 +0000
Subject: [PATCH 37/48] fix: derivatives of Set raised TypeError for model
 parameters (Param)

---
 maxlike/func/tennis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/tennis.py b/maxlike/func/tennis.py
index b7175ad..31bdbbc 100644
--- a/maxlike/func/tennis.py
+++ b/maxlike/func/tennis.py
@@ -118,7 +118,7 @@ class Set(Func):
         return Tensor(np.stack(s).swapaxes(0, -1), dim=1)
     
     def grad(self, params, i):
-        p, t = params
+        p, t = map(np.asarray, params)
         q = 1 - p
 
         d = []
@@ -141,7 +141,7 @@ class Set(Func):
                            params, i, True, dim=1)
     
     def hess(self, params, i, j):
-        p, t = params
+        p, t = map(np.asarray, params)
         q = 1 - p
 
         h = []
-- 
2.43.0


From 68d145873c51fa55eefafdfe1bf34deda0116bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:42 +0000
Subject: [PATCH 38/48] fix: the Poisson vector wrapped around for integer
 means

---
 maxlike/func/func_proba.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/maxlike/func/func_proba.py b/maxlike/func/func_proba.py
index f6f74f5..5667e9c 100644
--- a/maxlike/func/func_proba.py
+++ b/maxlike/func/func_proba.py
@@ -16,20 +16,20 @@ class Poisson(Func):
 
     def __call__(self, params):
         a = np.asarray(params[0])[..., None]
-        x = np.arange(self.size)
+        x = np.arange(self.size, dtype=float)
         vec = (a ** x) / factorial(x)
         return Tensor(vec, dim=1)
 
     def grad(self, params, i):
         a = np.asarray(params[0])[..., None]
-        x = np.arange(self.size)
+        x = np.arange(self.size, dtype=float)
         vec = ((a ** x) / factorial(x))
         vec = np.insert(vec[..., :-1], 0, 0, -1)
         return grad_tensor(vec, params, i, True, dim=1)
 
     def hess(self, params, i, j):
         a = np.asarray(params[0])[..., None]
-        x = np.arange(self.size)
+        x = np.arange(self.size, dtype=float)
         vec = ((a ** x) / factorial(x))
         vec = np.insert(vec[..., :-1], 0, 0, -1)
         vec = np.insert(vec[..., :-1], 0, 0, -1)
@@ -37,7 +37,7 @@ class Poisson(Func):
 
     def eval(self, params):
         a = np.asarray(params[0])[..., None]
-        x = np.arange(self.size)
+        x = np.arange(self.size, dtype=float)
         vec = (a ** x) / factorial(x)
         val = Tensor(vec, dim=1)
         vec = np.insert(vec[..., :-1], 0, 0, -1)
-- 
2.43.0


From 405e675e1c3da72895667391aae2a224c6abb600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:42 +0000
Subject: [PATCH 39/48] fix: the Skellam root finder failed for small upper
 tail probabilities

---
 maxlike/skellam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 3a88a43..b741d7f 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -139,7 +139,7 @@ def skellam_cdf_root(target1, target2, n=0, tol=1e-8):
     if target1 + target2 >= 1 or min(target1, target2) <= 0:
         raise ValueError
     phi_d = ndtri(target1)
-    phi_u = ndtri(1 - target2)
+    phi_u = -ndtri(target2)
     sum_ab = 1 / (phi_u - phi_d) ** 2
     diff_ab = 0.5 * (phi_u + phi_d) / (phi_u - phi_d) - n
     floor = 1e-6
-- 
2.43.0


From ba64bc076fe6fa5a659b70ed5e6befbdeaefc324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:26 +0000
Subject: [PATCH 40/48] fix: grad and hess of wrapped linear functions are
 lists of blocks

---
 maxlike/func/func_base.py | 12 ++++++------
 maxlike/func/func_op.py   |  7 ++++---
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index d32dcd1..a25dd9e 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -9,8 +9,8 @@ from ..tensor import Tensor
 def null_func(obj, *args, **kwargs):
     return Tensor(0)
 
-def null_method(obj):
-    return MethodType(null_func, obj)
+def null_method(obj, wrap):
+    return MethodType(wrap(null_func), obj)
 
 def isnull(foo):
     return getattr(foo, 'null', False)
@@ -208,10 +208,10 @@ class Affine(Func):
     def __init__(self, base, a=1, b=0):
 
         if isnull(base.grad):
-            self.grad = null_method(self)
+            self.grad = null_method(self, vector_wrap)
 
         if isnull(base.hess):
-            self.hess = null_method(self)
+            self.hess = null_method(self, matrix_wrap)
 
         if isinstance(base, Affine):
             self.base = base.base
@@ -255,8 +255,8 @@ class Compose(Func):
         self.f = f
 
         if isnull(f.grad):
-            self.grad = null_method(self)
-            self.hess = null_method(self)
+            self.grad = null_method(self, vector_wrap)
+            self.hess = null_method(self, matrix_wrap)
 
         elif isnull(f.hess):
             def hess(obj, params, i, j):
diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index e0a0eec..06d502e 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,6 +1,7 @@
 import numpy as np
 from ..tensor import Tensor
-from .func_base import Func, Affine, null_method, isnull
+from .func_base import Func, Affine, null_method, isnull, \
+    vector_wrap, matrix_wrap
 from six.moves import reduce
 from types import MethodType
 
@@ -43,7 +44,7 @@ class FuncWrap(Func):
             self.dim_map = IndexMap(dim_map)
 
         if isnull(foo.grad):
-            self.grad = null_method(self)
+            self.grad = null_method(self, vector_wrap)
 
         if isnull(foo.hess):
             def eval(obj, params):
@@ -57,7 +58,7 @@ class FuncWrap(Func):
                         foo_grad[k] for k in obj._indexes(i)))
                 return val, grad, hess
 
-            self.hess = null_method(self)
+            self.hess = null_method(self, matrix_wrap)
             self.eval = MethodType(eval, self)
 
     def _expand(self, x):
-- 
2.43.0


From 0b954153285328dab6152136910b3c377eb574eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:30 +0000
Subject: [PATCH 41/48] fix: eval of compositions with linear functions accepts
 a bare parameter

---
 maxlike/func/func_base.py | 2 +-
 maxlike/func/func_op.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index a25dd9e..dca9447 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -280,7 +280,7 @@ class Compose(Func):
                 return val, grad, hess
             
             self.hess = MethodType(matrix_wrap(hess), self)
-            self.eval = MethodType(eval, self)
+            self.eval = MethodType(eval_wrap(eval), self)
 
     def __call__(self, params):
         g_val = [g(params) for g in self.g_list]
diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 06d502e..b5d08ca 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,7 +1,7 @@
 import numpy as np
 from ..tensor import Tensor
 from .func_base import Func, Affine, null_method, isnull, \
-    vector_wrap, matrix_wrap
+    vector_wrap, matrix_wrap, eval_wrap
 from six.moves import reduce
 from types import MethodType
 
@@ -59,7 +59,7 @@ class FuncWrap(Func):
                 return val, grad, hess
 
             self.hess = null_method(self, matrix_wrap)
-            self.eval = MethodType(eval, self)
+            self.eval = MethodType(eval_wrap(eval), self)
 
     def _expand(self, x):
         return x.expand(self.feat_map, self.n_feat).flip(self.feat_flip).\
-- 
2.43.0


From c24a446dcaaeeaa6e8134b68de81be47fa9cd797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:27 +0000
Subject: [PATCH 42/48] fix: Linear returns a Tensor, as every other function

---
 maxlike/func/func.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index 9a5c8f6..2c484bb 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -13,8 +13,8 @@ class Linear(Func):
         self.weights = weight_list
 
     def __call__(self, params):
-        return sum(((w * np.asarray(p)).sum()
-                    for w, p in zip(params, self.weights)))
+        return Tensor(sum(((w * np.asarray(p)).sum()
+                           for w, p in zip(params, self.weights))))
 
     def grad(self, params, i):
         return grad_tensor(self.weights[i] * np.ones_like(
-- 
2.43.0


From d929ffd8f4104ba62563effce0ac9bbc97f03771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:14 +0000
Subject: [PATCH 43/48] fix: a Newton fit that fails on an error of the model
 stayed marked as converged

---
 maxlike/maxlike_base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 1b65a9d..34fea0e 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -487,6 +487,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
     
         if method == "newton":
 
+            # if the model raises an error, the fit has not converged
+            self.converged = False
             max_inner_steps = 5
             for k in range(max_steps):
                 step, g, grad, hess = self.newton_step(params)
@@ -521,12 +523,12 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
 
         elif method == "broyden":
 
-            g = self.g(params)
+            try:
+                g = self.g(params)
 
-            if verbose > 0:
-                print(0, g)
+                if verbose > 0:
+                    print(0, g)
 
-            try:
                 y, der, hess = self.model.eval(params)
                 grad = self.flat_grad(params, y, der)
 
-- 
2.43.0


From 5d1697847ffe127a037bac1c2c1a485debf1d8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:10 +0000
Subject: [PATCH 44/48] fix: quotient of a function and a number (Python 3
 looks for __truediv__)

---
 maxlike/func/func_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index dca9447..d580a83 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -196,6 +196,8 @@ class Func(with_metaclass(FuncMeta, object)):
     def __div__(self, a):
         return Affine(self, 1.0 / a, 0)
 
+    __truediv__ = __div__
+
     def __matmul__(self, other):
         return Compose(self, other)
 
-- 
2.43.0


From cb5a9b3217c4b49a4a1d1fd90af7b3449345f3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:21 +0000
Subject: [PATCH 45/48] fix: Poisson vectors of large rates raised
 OverflowError

---
 maxlike/skellam.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index b741d7f..ff064c0 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -1,11 +1,12 @@
 import numpy as np
 from math import exp
-from scipy.special import ndtri, factorial, pdtrc
+from scipy.special import ndtri, pdtrc
 from .maxlike_base import ConvergenceError
 
 
 def poisson_vector(a, size=10):
-    curve = np.vectorize(lambda u: a**u / factorial(u))(np.arange(size))
+    # a ** u and u! alone overflow
+    curve = np.cumprod(np.append(1., a / np.arange(1, size)))
     dcurve = np.append(-1, curve[:-1] - curve[1:])
     return exp(-a) * np.array([curve, dcurve])
 
-- 
2.43.0


From f84731ee6fd673453447072d4809d42c233f912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:11 +0000
Subject: [PATCH 46/48] fix: zero inflated Poisson without inflation (s = 0)
 gave a nan objective

---
 maxlike/maxlike.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike.py b/maxlike/maxlike.py
index 3e79b2d..5e41a72 100644
--- a/maxlike/maxlike.py
+++ b/maxlike/maxlike.py
@@ -1,6 +1,7 @@
 import numpy as np
 from .maxlike_base import MaxLike
-from scipy.special import gammaln
+from .tensor import Tensor
+from scipy.special import gammaln, xlogy
 
 
 class Poisson(MaxLike):
@@ -43,7 +44,7 @@ class ZeroInflatedPoisson(MaxLike):
         self.Z = None
 
     def like(self, params, y):
-        return (self.X * y + self.Z * np.log(self.s) -
+        return (self.X * y + Tensor(xlogy(np.asarray(self.Z), self.s)) -
                 self.N * np.log(np.exp(np.exp(y)) + self.s - 1) - 
                 gammaln(self.X + 1)).sum()
 
-- 
2.43.0


From d2cdbca59c199a5965fd9424bcc21a4be1746271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:15 +0000
Subject: [PATCH 47/48] fix: reshaping whole numbers rounded the fixed entries
 and fill values

---
 maxlike/maxlike_base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 34fea0e..243aecd 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -226,6 +226,10 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             return (lambda x: x - np.arange(x.size))(
                 (lambda x: np.arange(x.size)[x])(arr))
 
+        # whole numbers do not round the other entries
+        flat_array = np.asarray(flat_array)
+        flat_array = flat_array.astype(np.result_type(flat_array, val))
+
         shaped_array = []
         s_0 = 0
 
@@ -265,6 +269,9 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         elif matrix.shape[0] != matrix.shape[1]:
             raise ValueError("matrix.shape[0] != matrix.shape[1]")
 
+        # whole numbers do not round the other entries
+        matrix = matrix.astype(np.result_type(matrix, val))
+
         # Split by blocks
         s_ = [0]
         f_ = [0]
-- 
2.43.0


From b0824b977e214450f5978835c7eee668140bb541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:54 +0000
Subject: [PATCH 48/48] fix: power 0 of a tensor with maps left zeros off the
 diagonal

---
 maxlike/tensor/tensor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 7cab453..1fc1dcc 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -830,6 +830,11 @@ class Tensor(BaseTensor):
             x_map=self.x_map, y_map=self.y_map)
 
     def __pow__(self, a):
+        if (self.x_map or self.y_map) and not np.all(np.greater(a, 0)):
+            # the zeros off the diagonal are raised too
+            return Tensor(
+                np.power(self.toarray(), a),
+                x_dim=self.x_dim, y_dim=self.y_dim, dim=self.dim)
         return Tensor(
             np.power(self.values, a),
             x_dim=self.x_dim, y_dim=self.y_dim, dim=self.dim,
-- 
2.43.0

