From b4e52e7927593905d7ac2df2a037d52a79119857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 01/49] fix: keep numpy's row-major order when (un)raveling
 casadi parameters

---
 lumos/models/tree_utils.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index 932729e..90f9795 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -251,11 +251,21 @@ def _size_and_shape(x):
 
 def _ravel(x):
     if _is_casadi_instance(x):
-        return x.reshape((x.numel(), 1))
+        # casadi is column major, so transpose to get the same (row major) order as numpy
+        return x.T.reshape((x.numel(), 1))
     else:
         return np.ravel(x)
 
 
+def _reshape(x, shape):
+    if _is_casadi_instance(x):
+        # casadi is column major, so transpose to get the same (row major) order as numpy
+        rows, cols = shape
+        return x.reshape((cols, rows)).T
+    else:
+        return x.reshape(shape)
+
+
 def _split(arr, indices):
     if _is_casadi_instance(arr):
         indices = [0, *indices, arr.numel()]
@@ -307,7 +317,7 @@ def _ravel_flat_dict(flat_tree):
             new_shapes = shapes
 
         reconstructed_values = [
-            chunk.reshape(shape) if _size(chunk) > 1 else chunk[0]
+            _reshape(chunk, shape) if _size(chunk) > 1 else chunk[0]
             for chunk, shape in zip(chunks, new_shapes)
         ]
         return dict(zip(keys, reconstructed_values))
-- 
2.43.0


From dd301e13ec17904a56cf86e4ac03e55335c4abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 02/49] fix: keep the shape of one-element and empty arrays
 when unraveling parameters

---
 lumos/models/tree_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index 90f9795..6b82f60 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -317,7 +317,7 @@ def _ravel_flat_dict(flat_tree):
             new_shapes = shapes
 
         reconstructed_values = [
-            _reshape(chunk, shape) if _size(chunk) > 1 else chunk[0]
+            chunk[0] if shape == () else _reshape(chunk, shape)
             for chunk, shape in zip(chunks, new_shapes)
         ]
         return dict(zip(keys, reconstructed_values))
-- 
2.43.0


From e77ce2ab6ca440e36d89348014a42dd6119662de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 03/49] fix: honour a custom delimiter in nested parameter
 paths

---
 lumos/models/tree_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index 6b82f60..077f014 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -98,7 +98,7 @@ class Tree:
             subtree._data = value
         elif self._data_type == dict:
             *path_names, param_key = path.split(delimiter)
-            subtree = self._get_subtree(delimiter.join(path_names))
+            subtree = self._get_subtree(delimiter.join(path_names), delimiter)
             subtree._data[param_key] = value
         else:
             raise TypeError("Only str and dict supported for Tree at the moment")
@@ -111,7 +111,7 @@ class Tree:
             )
         *path_to_parent, child_name = path.split(delimiter)
         path_to_parent = delimiter.join(path_to_parent)
-        parent = self._get_subtree(path_to_parent)
+        parent = self._get_subtree(path_to_parent, delimiter)
 
         # Ensure the child to be replaced does actually exist
         if child_name in parent._children:
@@ -173,7 +173,7 @@ class ParameterTree(Tree):
 
     def get_param(self, path, delimiter="."):
         *path_names, param_key = path.split(delimiter)
-        t = self._get_subtree(delimiter.join(path_names))
+        t = self._get_subtree(delimiter.join(path_names), delimiter)
         return t._data[param_key]
 
     def set_param(self, path, value, delimiter="."):
-- 
2.43.0


From 894387cf65f656239ee93d28b73002cb9aebea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 04/49] fix: call the existing array forward of static models
 with parameters

---
 lumos/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index cd8518e..77694c3 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -151,7 +151,7 @@ class Model(CompositeModel):
 
     def apply_and_forward_with_arrays(self, inputs, params):
         self.set_recursive_params(params)
-        return self.forward_with_array(inputs)
+        return self.forward_with_arrays(inputs)
 
     def _construct_io_names(self):
         """Create model io names while also taking into account submodels compositoin"""
-- 
2.43.0


From 5f7049a0a9aacb2ab3581759517adc60137a2063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 05/49] fix: build casadi stage equations of models without
 second derivatives

---
 lumos/models/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 77694c3..da3c5df 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -874,8 +874,14 @@ class StateSpaceModel(Model):
             "constraints": cas.external("implicit_con", library_path),
             "jacobian": cas.external("implicit_jac", library_path),
             "hessian": cas.external("implicit_hess", library_path),
-            "jacobian_structure": (np.array(jac_rows), np.array(jac_cols)),
-            "hessian_structure": (np.array(hess_rows), np.array(hess_cols)),
+            "jacobian_structure": (
+                np.array(jac_rows, dtype=int),
+                np.array(jac_cols, dtype=int),
+            ),
+            "hessian_structure": (
+                np.array(hess_rows, dtype=int),
+                np.array(hess_cols, dtype=int),
+            ),
         }
 
         self.model_algebra = CasMappedConstraints(
-- 
2.43.0


From 5e945c4b690cf1302357ceb6dba8a6af949a8d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 06/49] fix: evaluate batches of the custom backend with arrays

---
 lumos/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index da3c5df..38676dc 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -770,7 +770,7 @@ class StateSpaceModel(Model):
 
         def custom_batched_forward(_states, _inputs, _mesh, _params):
             self.set_recursive_params(_params)
-            out = lnp.lmap(self.forward)(_states, _inputs, _mesh)
+            out = lnp.lmap(self.forward_with_arrays)(_states, _inputs, _mesh)
             return StateSpaceModelReturn(*out)
 
         self._batched_forward = custom_batched_forward
-- 
2.43.0


From 67f96ce815055eea42241ff11ac018963fe318b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 07/49] fix: pass the hessian arguments of the custom backend
 in their documented order

---
 lumos/models/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 38676dc..31d13dc 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -754,11 +754,15 @@ class StateSpaceModel(Model):
         return implicit_functions
 
     def _make_custom_model_algebra_cons(self):
+        # The mapped constraints call the hessian with the multipliers second
+        def custom_hessian(flat_vars, mult, mesh, params):
+            return self._implicit_hess(flat_vars, mesh, params, mult)
+
         implicit_functions = {
             "constraints": self._apply_and_flat_implicit,
             "jacobian": self._implicit_jac,
             "jacobian_structure": self._implicit_jacobianstructure(),
-            "hessian": self._implicit_hess,
+            "hessian": custom_hessian,
             "hessian_structure": self._implicit_hessianstructure(),
         }
 
-- 
2.43.0


From f8d4a83c9c5bb9ec26bfcf40f1f7952eb008507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 08/49] fix: keep model parameters when compiled jax or custom
 functions are evaluated

---
 lumos/models/base.py | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 31d13dc..6c81065 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -3,6 +3,7 @@ import logging
 import subprocess
 from abc import abstractmethod
 from collections import namedtuple
+from functools import wraps
 from os.path import exists, getsize
 from typing import Any, Dict, List, NamedTuple, Optional, Tuple
 
@@ -729,11 +730,28 @@ class StateSpaceModel(Model):
 
         return rows[keep], cols[keep]
 
+    def _keep_params(self, fn):
+        """Make a function that sets the model params restore them after the call.
+
+        Especially when jax traces such a function (which happens on its first call),
+        the model params would otherwise be left as leaked tracers.
+        """
+
+        @wraps(fn)
+        def wrapped(*args):
+            params = self.get_recursive_params()
+            try:
+                return fn(*args)
+            finally:
+                self.set_recursive_params(params)
+
+        return wrapped
+
     def _make_jax_model_algebra_cons(self):
         # For jax, we rely on jac and hessian to compute the constraints at a later
         # stage. See JaxMappedConstraints
         implicit_functions = {
-            "constraints": self._apply_and_flat_implicit,
+            "constraints": self._keep_params(self._apply_and_flat_implicit),
         }
 
         # TODO: _stage_hessianstructure not yet implemented
@@ -747,7 +765,12 @@ class StateSpaceModel(Model):
 
         # FIXME: handle batched_forward better
         self._batched_forward = lnp.use_backend("jax")(
-            jit(vmap(self.apply_and_forward_with_arrays, in_axes=[0, 0, 0, None]))
+            jit(
+                vmap(
+                    self._keep_params(self.apply_and_forward_with_arrays),
+                    in_axes=[0, 0, 0, None],
+                )
+            )
         )
 
         # FIXME: here the implicit functions are incomplete
@@ -759,10 +782,10 @@ class StateSpaceModel(Model):
             return self._implicit_hess(flat_vars, mesh, params, mult)
 
         implicit_functions = {
-            "constraints": self._apply_and_flat_implicit,
-            "jacobian": self._implicit_jac,
+            "constraints": self._keep_params(self._apply_and_flat_implicit),
+            "jacobian": self._keep_params(self._implicit_jac),
             "jacobian_structure": self._implicit_jacobianstructure(),
-            "hessian": custom_hessian,
+            "hessian": self._keep_params(custom_hessian),
             "hessian_structure": self._implicit_hessianstructure(),
         }
 
@@ -777,7 +800,7 @@ class StateSpaceModel(Model):
             out = lnp.lmap(self.forward_with_arrays)(_states, _inputs, _mesh)
             return StateSpaceModelReturn(*out)
 
-        self._batched_forward = custom_batched_forward
+        self._batched_forward = self._keep_params(custom_batched_forward)
 
         return implicit_functions
 
-- 
2.43.0


From 8df72a119dcf307bc680aaf29a442e9b717e8f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 09/49] fix: restore the backend that was active when a backend
 scope was entered

---
 lumos/numpy/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/utils.py b/lumos/numpy/utils.py
index 7041ab7..7fff782 100644
--- a/lumos/numpy/utils.py
+++ b/lumos/numpy/utils.py
@@ -13,14 +13,17 @@ logger = logging.getLogger(__name__)
 
 class use_backend(ContextDecorator):
     def __init__(self, backend: str):
-        self._original_backend = lnp.get_backend()
+        self._original_backends = []
         self._target_backend = backend
 
     def __enter__(self):
+        # The same object could be entered more than once (eg when used as a decorator)
+        # so the backend to restore is only known on entering, and could be nested.
+        self._original_backends.append(lnp.get_backend())
         lnp.set_backend(self._target_backend)
 
     def __exit__(self, *exc):
-        lnp.set_backend(self._original_backend)
+        lnp.set_backend(self._original_backends.pop())
 
 
 def is_jax_array(x: Any) -> bool:
-- 
2.43.0


From 8b211fb8008784011b633136cf0526e0a9bebae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 10/49] fix: take the batch size of a mapped function from a
 mapped argument

---
 lumos/numpy/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/utils.py b/lumos/numpy/utils.py
index 7fff782..90e25bc 100644
--- a/lumos/numpy/utils.py
+++ b/lumos/numpy/utils.py
@@ -129,7 +129,9 @@ def cmap(
             full_in_axes = [in_axes] * len(args)
 
         # First find an argument that needs to be mapped
-        sample_arg = next(a for a in args if a is not None)
+        sample_arg = next(
+            a for (a, map_axis) in zip(args, full_in_axes) if map_axis is not None
+        )
         batch = sample_arg.shape[0]
 
         # NOTE: Creating the mapped function costs quite a bit of overhead. Therefore we
@@ -226,7 +228,9 @@ def lmap(
             full_in_axes = [in_axes] * len(args)
 
         # First find an argument that needs to be mapped
-        sample_arg = next(a for a in args if a is not None)
+        sample_arg = next(
+            a for (a, map_axis) in zip(args, full_in_axes) if map_axis is not None
+        )
         batch_size = sample_arg.shape[0]
 
         out_array = []
-- 
2.43.0


From b142ebe98fac519511b8a373c9b7419f4635fc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 11/49] fix: average all elements of a casadi matrix

---
 lumos/numpy/casadi_numpy/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/arithmetic.py b/lumos/numpy/casadi_numpy/arithmetic.py
index 316aca6..9e976e1 100644
--- a/lumos/numpy/casadi_numpy/arithmetic.py
+++ b/lumos/numpy/casadi_numpy/arithmetic.py
@@ -41,7 +41,7 @@ def mean(x, axis: int = None):
         elif axis == 1:
             return sum(x, axis=1) / x.shape[1]
         elif axis is None:
-            return mean(mean(x, axis=0), axis=1)
+            return sum(x) / (x.shape[0] * x.shape[1])
         else:
             raise ValueError(
                 "CasADi types can only be up to 2D, so `axis` must be None, 0, or 1."
-- 
2.43.0


From a3337c1a13023cf24af67cb507b7072851b33f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 12/49] fix: take n-th differences of casadi arrays along the
 last axis

---
 lumos/numpy/casadi_numpy/calculus.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/calculus.py b/lumos/numpy/casadi_numpy/calculus.py
index 3b9d0da..f7f655e 100644
--- a/lumos/numpy/casadi_numpy/calculus.py
+++ b/lumos/numpy/casadi_numpy/calculus.py
@@ -18,9 +18,12 @@ def diff(a, n=1, axis=-1):
                 "This could be implemented, but haven't had the need yet."
             )
 
+        # vectors are differenced along their length, matrices along the last axis
+        axis = 0 if a.shape[1] == 1 else 1
+
         result = a
         for i in range(n):
-            result = _cas.diff(a)
+            result = _cas.diff(result, 1, axis)
         return result
 
 
-- 
2.43.0


From a568d95a155f4023522276976419f5e2fc053376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 13/49] fix: roll casadi arrays by any shift along any axis

---
 lumos/numpy/casadi_numpy/array.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/array.py b/lumos/numpy/casadi_numpy/array.py
index f8a0362..dc15115 100644
--- a/lumos/numpy/casadi_numpy/array.py
+++ b/lumos/numpy/casadi_numpy/array.py
@@ -244,16 +244,22 @@ def roll(a, shift, axis: int = None):
     """
     if not is_casadi_type(a):
         return _onp.roll(a, shift, axis=axis)
-    else:  # TODO add some checking to make sure shift < len(a), or shift is modulo'd down by len(a).
-        # assert shift < a.shape[axis]
-        if 1 in a.shape and axis == 0:
-            return _cas.vertcat(a[-shift, :], a[:-shift, :])
-        elif axis == 0:
-            return _cas.vertcat(a.T[:, -shift], a.T[:, :-shift]).T
-        elif axis == 1:
-            return _cas.horzcat(a[:, -shift], a[:, :-shift])
-        elif axis is None:
+    else:
+        if axis == 0:
+            n = a.shape[0]
+            shift = shift % n if n > 0 else 0
+            return _cas.vertcat(a[n - shift :, :], a[: n - shift, :])
+        elif axis == 1 or axis == -1:
+            n = a.shape[1]
+            shift = shift % n if n > 0 else 0
+            return _cas.horzcat(a[:, n - shift :], a[:, : n - shift])
+        elif axis is None and 1 in a.shape:
             return roll(a, shift=shift, axis=0)
+        elif axis is None:
+            # numpy rolls the flattened (row-major) array and restores the shape
+            flat = _cas.reshape(a.T, (a.shape[0] * a.shape[1], 1))
+            rolled = roll(flat, shift=shift, axis=0)
+            return _cas.reshape(rolled, (a.shape[1], a.shape[0])).T
         else:
             raise Exception(
                 "CasADi types can only be up to 2D, so `axis` must be None, 0, or 1."
-- 
2.43.0


From 272430fa797cac2ea7c3172053578b841f792bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 14/49] fix: reshape casadi arrays in numpy's row-major order

---
 lumos/numpy/casadi_numpy/array.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/array.py b/lumos/numpy/casadi_numpy/array.py
index dc15115..59574b4 100644
--- a/lumos/numpy/casadi_numpy/array.py
+++ b/lumos/numpy/casadi_numpy/array.py
@@ -294,7 +294,21 @@ def reshape(a, newshape):
     if not is_casadi_type(a):
         return _onp.reshape(a, newshape)
     else:
-        return _cas.reshape(a, newshape)
+        if isinstance(newshape, int):
+            newshape = (newshape,)
+
+        if len(newshape) > 2:
+            raise ValueError("CasADi-backend arrays can only be 1D or 2D.")
+
+        size = a.shape[0] * a.shape[1]
+        rows, cols = newshape if len(newshape) == 2 else (newshape[0], 1)
+        if rows == -1:
+            rows = size // cols
+        elif cols == -1:
+            cols = size // rows
+
+        # casadi reshapes column by column, numpy row by row.
+        return _cas.reshape(a.T, (cols, rows)).T
 
 
 def zeros(shape):
-- 
2.43.0


From aa0e555e68ee16a60311fd71f626795ef0a6a54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 15/49] fix: space casadi geomspace geometrically

---
 lumos/numpy/casadi_numpy/spacing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/spacing.py b/lumos/numpy/casadi_numpy/spacing.py
index 6ac2ce8..b05ac2c 100644
--- a/lumos/numpy/casadi_numpy/spacing.py
+++ b/lumos/numpy/casadi_numpy/spacing.py
@@ -58,4 +58,4 @@ def geomspace(start: float = 1.0, stop: float = 10.0, num: int = 50):
     else:
         if start <= 0 or stop <= 0:
             raise ValueError("Both start and stop must be positive!")
-        return _onp.log10(10 ** linspace(start, stop, num))
+        return 10 ** linspace(_onp.log10(start), _onp.log10(stop), num)
-- 
2.43.0


From 524ab1bbcfcd1d00df3d956ea5c2153ad91a8938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 16/49] fix: multiply casadi matrices in dot like numpy does

---
 lumos/numpy/casadi_numpy/linalg_top_level.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/linalg_top_level.py b/lumos/numpy/casadi_numpy/linalg_top_level.py
index 834b9d5..3399fa7 100644
--- a/lumos/numpy/casadi_numpy/linalg_top_level.py
+++ b/lumos/numpy/casadi_numpy/linalg_top_level.py
@@ -14,7 +14,12 @@ def dot(a, b):
         return _onp.dot(a, b)
 
     else:
-        return _cas.dot(a, b)
+        a, b = [x if is_casadi_type(x) else _cas.DM(x) for x in (a, b)]
+        if a.shape == b.shape and 1 in a.shape:
+            return _cas.dot(a, b)
+
+        # scalars scale the other operand, everything else is a matrix product
+        return _cas.mtimes(a, b)
 
 
 def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
-- 
2.43.0


From 721a2ce6c1e9880f4f93a961273a6676de748479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 17/49] fix: contract and flatten casadi matrices like numpy in
 inner and outer

---
 lumos/numpy/casadi_numpy/linalg.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/linalg.py b/lumos/numpy/casadi_numpy/linalg.py
index 92163d0..140db8e 100644
--- a/lumos/numpy/casadi_numpy/linalg.py
+++ b/lumos/numpy/casadi_numpy/linalg.py
@@ -14,7 +14,14 @@ def inner(x, y):
         return _onp.inner(x, y)
 
     else:
-        return _cas.dot(x, y)
+        x, y = [a if is_casadi_type(a) else _cas.DM(a) for a in (x, y)]
+        if x.shape == y.shape and 1 in x.shape:
+            return _cas.dot(x, y)
+
+        # scalars scale the other operand, matrices are contracted over their last axes
+        if x.is_scalar() or y.is_scalar():
+            return x * y
+        return x @ y.T
 
 
 def outer(x, y):
@@ -27,8 +34,8 @@ def outer(x, y):
         return _onp.outer(x, y)
 
     else:
-        if len(y.shape) == 1:  # Force y to be transposable if it's not.
-            y = _onp.expand_dims(y, 1)
+        # numpy flattens both inputs (in row-major order)
+        x, y = [_cas.vec((a if is_casadi_type(a) else _cas.DM(a)).T) for a in (x, y)]
         return x @ y.T
 
 
-- 
2.43.0


From 98d9749f6b8b06dd63d674696c19999a76deb6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 18/49] fix: raise the errors of finite_difference_coefficients

---
 lumos/numpy/casadi_numpy/finite_difference_operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/finite_difference_operators.py b/lumos/numpy/casadi_numpy/finite_difference_operators.py
index bacdc13..3a9a507 100644
--- a/lumos/numpy/casadi_numpy/finite_difference_operators.py
+++ b/lumos/numpy/casadi_numpy/finite_difference_operators.py
@@ -51,10 +51,10 @@ def finite_difference_coefficients(
     """
     ### Check inputs
     if derivative_degree < 1:
-        return ValueError("The parameter derivative_degree must be an integer >= 1.")
+        raise ValueError("The parameter derivative_degree must be an integer >= 1.")
     expected_order_of_accuracy = length(x) - derivative_degree
     if expected_order_of_accuracy < 1:
-        return ValueError(
+        raise ValueError(
             "You need to provide at least (derivative_degree+1) grid points in the x vector."
         )
 
-- 
2.43.0


From 0c1a699d51860626ea8c517d154f3a2ce78737aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 19/49] fix: compute casadi matrix and infinity norms

---
 lumos/numpy/casadi_numpy/linalg.py | 32 ++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/linalg.py b/lumos/numpy/casadi_numpy/linalg.py
index 140db8e..e3b27c6 100644
--- a/lumos/numpy/casadi_numpy/linalg.py
+++ b/lumos/numpy/casadi_numpy/linalg.py
@@ -76,11 +76,24 @@ def norm(x, ord=None, axis=None):
         elif x.shape[1] == 1:
             axis = 0
 
-        if ord is None:
-            if axis is not None:
-                ord = 2
+        if axis is None:
+            # Matrix norms, see numpy for their definitions.
+            if ord is None or ord == "fro":
+                return _cas.norm_fro(x)
+            elif ord == 1:
+                return _cas.mmax(sum(abs(x), axis=0))
+            elif ord == _onp.inf:
+                return _cas.mmax(sum(abs(x), axis=1))
             else:
-                ord = "fro"
+                raise ValueError(
+                    f"Matrix norm of order {ord} is not available for CasADi types."
+                )
+
+        if axis == -1:
+            axis = 0 if x.shape[1] == 1 else 1
+
+        if ord is None:
+            ord = 2
 
         if ord == 1:
             # return _cas.norm_1(x)
@@ -90,8 +103,15 @@ def norm(x, ord=None, axis=None):
             return sum(x ** 2, axis=axis) ** 0.5
         elif ord == "fro":
             return _cas.norm_fro(x)
-        elif np.isinf(ord):
-            return _cas.norm_inf()
+        elif ord == 0:
+            return sum(x != 0, axis=axis)
+        elif _onp.isinf(ord):
+            slices = _cas.vertsplit(abs(x)) if axis == 0 else _cas.horzsplit(abs(x))
+            extremum = _cas.fmax if ord > 0 else _cas.fmin
+            result = slices[0]
+            for s in slices[1:]:
+                result = extremum(result, s)
+            return result.T if axis == 0 else result
         else:
             try:
                 return sum(abs(x) ** ord, axis=axis) ** (1 / ord)
-- 
2.43.0


From 4fb1d9484214a0196b1b1904e655f5d11a1d2d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 20/49] fix: give integer indices for groups without variables

---
 lumos/optimal_control/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/utils.py b/lumos/optimal_control/utils.py
index 98a7164..ab0c0c7 100644
--- a/lumos/optimal_control/utils.py
+++ b/lumos/optimal_control/utils.py
@@ -271,7 +271,8 @@ class DecVarOperator:
                 [
                     self._stage_var_enum[self._make_stage_var_name(group=group, name=n)]
                     for n in getattr(self._model_var_names, group)
-                ]
+                ],
+                dtype=int,
             )
             + stage * self.num_var_stage
         )
-- 
2.43.0


From a063fb3bd89a3bcb820df38dad1aca6789e76569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 21/49] fix: build condensed problems with a free mesh scale
 (numpy removed np.int)

---
 lumos/optimal_control/scaled_mesh_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 31c2849..60b9963 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -463,7 +463,7 @@ class ScaledMeshOCP(CompositeProblem):
             # If mesh_scale is a variable, then the continuity constraints also has
             # non-zero hessian entries.
             cont_rows = np.arange(self.num_dec)
-            cont_cols = np.ones(self.num_dec, dtype=np.int) * (self.num_dec - 1)
+            cont_cols = np.ones(self.num_dec, dtype=int) * (self.num_dec - 1)
             rows = np.hstack([rows.ravel(), cont_rows])
             cols = np.hstack([cols.ravel(), cont_cols])
 
-- 
2.43.0


From 42b7167a88b380de9dfea20d2756dec67a27f757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 22/49] fix: leave the bounds of a configuration alone when
 building a condensed problem

---
 lumos/optimal_control/scaled_mesh_ocp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 60b9963..088292c 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -129,16 +129,17 @@ class ScaledMeshOCP(CompositeProblem):
         if sim_config.is_cyclic:
             self._build_cyclic_cons(sim_config.non_cyclic_vars)
 
+        bounds = tuple(sim_config.bounds)
         if self.is_condensed:
             self._build_condensed_model_algebra()
             # The states_dot decision variables are un-used, so we set it to
             # 0, and IPOPT will take them out of the NLP depending the settings.
-            sim_config.bounds += tuple(
+            bounds += tuple(
                 BoundConfig("states_dot", n, (0, 0))
                 for n in self.model.get_group_names("states_dot")
             )
 
-        self.update_bounds(sim_config.bounds)
+        self.update_bounds(bounds)
 
         # Set specific boundary conditions of variables at certain stages
         self.update_boundary_conditions(sim_config.boundary_conditions)
-- 
2.43.0


From fd508958f5f5a427e3063f0b034f477f7528f02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 23/49] fix: select the upper triangle anew after the parts of
 a problem changed

---
 lumos/optimal_control/nlp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 81ab86f..7cfb4c1 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -717,10 +717,12 @@ class CompositeProblem(NLPFunction):
         # Update the input scales using the nlp's dec_var_scales
         c.set_input_scales(self._dec_var_scales)
         self._constraints.update({name: c})
+        self._idx_triu = None
 
     def delete_constraints(self, name: str):
         # FIXME: add checks
         self._constraints.pop(name)
+        self._idx_triu = None
 
     def add_objective(self, name: str, o: BaseObjective):
         """Add an objecitve function to the problem.
@@ -742,9 +744,11 @@ class CompositeProblem(NLPFunction):
         # decision variable scale
         o.set_input_scales(self._dec_var_scales)
         self._objectives.update({name: o})
+        self._idx_triu = None
 
     def delete_objective(self, name: str):
         self._objectives.pop(name)
+        self._idx_triu = None
 
 
     def _compute_objective(self, x):
-- 
2.43.0


From 8295cae7ba23c5532f1ffb6b7fb9000580a3318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 24/49] fix: solve problems without an objective (integer
 structure of the constant objective)

---
 lumos/optimal_control/nlp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 7cfb4c1..1431520 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -593,8 +593,8 @@ class NLPFunction(ABC):
                 num_in=self.num_dec,
                 objective=lambda x: 0,
                 gradient=lambda x: np.zeros(self.num_dec),
-                hessian=lambda x: [],
-                hessian_structure=([], []),
+                hessian=lambda x: np.array([]),
+                hessian_structure=(np.array([], dtype=int), np.array([], dtype=int)),
             )
             self.add_objective("const_obj", const_obj)
 
-- 
2.43.0


From 9924c41571873c01dd4a5f1e6bb464b1f3ae5174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 25/49] fix: change the model parameters of condensed problems

---
 lumos/optimal_control/scaled_mesh_ocp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 088292c..581bdd2 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -163,7 +163,9 @@ class ScaledMeshOCP(CompositeProblem):
         # need the parameters (and we put all model-related computation there)
         # We could make the entire 'CompositeProblem' parameterized, but that might
         # be an over-complication.
-        self._constraints["model_algebra"].set_params(model_params)
+        # NOTE: a condensed problem keeps them in its storage.
+        constraints = self._con_storage if self.is_condensed else self._constraints
+        constraints["model_algebra"].set_params(model_params)
 
     def modify_model_param(self, path, value):
         self._params.set_param(path, value)
-- 
2.43.0


From 59f73ab111a6e44312d91b96ec66c3204ad4629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 26/49] fix: derive the condensed jacobian structure from
 structures instead of random values

---
 lumos/optimal_control/scaled_mesh_ocp.py | 29 ++++++++++--------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 581bdd2..bd46d19 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -330,25 +330,20 @@ class ScaledMeshOCP(CompositeProblem):
         return np.squeeze(np.asarray(big_jac.tocsc()[rows, cols]))
 
     def _condensed_jacobianstructure(self):
-        """Return jacobian structure by a pessimistic estimate"""
-        # We estimate the sparsity by passing in a random vecotr. There is the risk
-        # that the sparse library would actually remove explicit zeros (opposite to
-        # structural zeros, these are values that happen to be zero at this point of
-        # calculation and make the estimation more optimistic/sparser). But the risk
-        # is pretty low when we're using float, and it's probably very very small
-        # probability that float computations will become 'zero' accidentally.
-        #
-        # If we want to be conservative, we could create the algebraic and continuity
-        # jacobians with no explicit zeros, which would probably give a more
-        # pessimistic estimate.
-        x0 = np.random.randn(self.num_dec)
-        algebraic_jac = self._con_storage["model_algebra"].get_csc_jacobian(x0)
-        continuity_jac = self._con_storage["continuity"].get_csc_jacobian(x0)
-        # This jac should have a pessimistic structure: the least possible sparsity
+        """Return the pessimistic jacobian structure"""
+        # Derive it from the structures of the two jacobians rather than from their
+        # values at some point, as entries can happen to be zero at that point. (eg,
+        # the derivative of a saturated function)
+        def _make_structure(con):
+            rows, cols = con.jacobianstructure()
+            rows, cols = np.ravel(rows), np.ravel(cols)
+            return sparse.csc_matrix((np.ones(len(rows)), (rows, cols)), con.jac_shape)
+
+        # All values are positive, so nothing cancels.
         structure_jac = self._make_chainrule_condensed_jacobian(
-            continuity_jac, algebraic_jac
+            continuity_jac=_make_structure(self._con_storage["continuity"]),
+            algebraic_jac=_make_structure(self._con_storage["model_algebra"]),
         )
-
         return structure_jac.nonzero()
 
     def _condensed_hessian(self, x, lagrange):
-- 
2.43.0


From ca7de8cf004d1ceb5890a88781e102d082a33b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 27/49] fix: do not keep boundary conditions that were rejected

---
 lumos/optimal_control/scaled_mesh_ocp.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index bd46d19..b898d18 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -723,15 +723,21 @@ class ScaledMeshOCP(CompositeProblem):
         self, boundary_conditions: Tuple[BoundaryConditionConfig]
     ):
         """Store new boundary conditions to the problem. Will append instead of reset."""
-        self._boundary_conditions += boundary_conditions
-        self._apply_boundary_conditions()
+        for bc in boundary_conditions:
+            # Only store a condition once it could be applied, as an invalid one would
+            # make all following updates fail.
+            self._apply_boundary_condition(bc)
+            self._boundary_conditions += (bc,)
+
+    def _apply_boundary_condition(self, bc: BoundaryConditionConfig):
+        self._set_var_bounds(
+            group=bc.group, name=bc.name, stage=bc.stage, bounds=bc.value
+        )
 
     def _apply_boundary_conditions(self):
         """Apply the boundary conditions stored."""
         for bc in self._boundary_conditions:
-            self._set_var_bounds(
-                group=bc.group, name=bc.name, stage=bc.stage, bounds=bc.value
-            )
+            self._apply_boundary_condition(bc)
 
     def _set_var_bounds(
         self,
-- 
2.43.0


From 40bdf140f0e7585522a38fbdf85b4bb87a2f3d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 28/49] fix: keep boundary conditions when an update of the
 bounds is rejected

---
 lumos/optimal_control/scaled_mesh_ocp.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index b898d18..d620719 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -626,14 +626,16 @@ class ScaledMeshOCP(CompositeProblem):
         """
 
         # Overwrite with external bound settings
-        for b in bounds:
-            self._set_var_bounds(
-                group=b.group, name=b.name, stage=None, bounds=b.values
-            )
-
-        # Apply the boundary conditions again, as when we set all the bounds, the
-        # boundary conditions will be overwritten.
-        self._apply_boundary_conditions()
+        try:
+            for b in bounds:
+                self._set_var_bounds(
+                    group=b.group, name=b.name, stage=None, bounds=b.values
+                )
+        finally:
+            # Apply the boundary conditions again, as when we set all the bounds, the
+            # boundary conditions will be overwritten. (also when a bound is invalid,
+            # as the ones before it are set already)
+            self._apply_boundary_conditions()
 
     def set_scales(self, scale_configs: Tuple[ScaleConfig]):
         """Construct variable scales
-- 
2.43.0


From 7612870a023b28819a73777b7ce1ea09d7009d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 29/49] fix: leave the caller's list of non-cyclic variables
 alone in LTCConfig

---
 lumos/simulations/laptime_simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lumos/simulations/laptime_simulation.py b/lumos/simulations/laptime_simulation.py
index 379428b..f70f55f 100644
--- a/lumos/simulations/laptime_simulation.py
+++ b/lumos/simulations/laptime_simulation.py
@@ -128,6 +128,8 @@ class LTCConfig(SimConfig):
         # NOTE: somehow if we make track_curvature also non_cyclic, convergence got
         # a lot worse. This is counterintuitive as one would imagine the track curvature
         # from finite difference isn't actually cyclic! (but it's close, ~1e-5 delta)
+        # NOTE: use a copy so that we don't change the list of the caller.
+        self.non_cyclic_vars = list(self.non_cyclic_vars)
         for name in ["states.time", "inputs.track_heading"]:
             if name not in self.non_cyclic_vars:
                 logger.warning(
-- 
2.43.0


From a72430844637d623c5cde5ae07f2a44665df318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 30/49] fix: build cyclic problems in which all variables are
 non-cyclic

---
 lumos/optimal_control/scaled_mesh_ocp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index d620719..4e34fbb 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -1029,7 +1029,8 @@ class ScaledMeshOCP(CompositeProblem):
             idx_initial.append(op.get_var_index_in_dec(group, name, stage=0))
             idx_final.append(op.get_var_index_in_dec(group, name, stage=-1))
 
-        return np.hstack(idx_initial), np.hstack(idx_final)
+        # NOTE: these are empty when all variables are non-cyclic
+        return np.array(idx_initial, dtype=int), np.array(idx_final, dtype=int)
 
     def _cyclic_constraint(self, x):
         idx_initial, idx_final = self._get_cyclic_indices()
-- 
2.43.0


From a5ba5ab4cdd8b2b1f92f86bf2acb6b6d94cd3e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 31/49] fix: rebuild the logging config of a config from a
 dictionary

---
 lumos/optimal_control/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumos/optimal_control/config.py b/lumos/optimal_control/config.py
index 85c33b5..4bab520 100644
--- a/lumos/optimal_control/config.py
+++ b/lumos/optimal_control/config.py
@@ -156,6 +156,9 @@ class SimConfig:
                 BoundaryConditionConfig(**d) for d in self.boundary_conditions
             )
 
+        if isinstance(self.logging_config, dict):
+            self.logging_config = LoggingConfig(**self.logging_config)
+
     def to_dict(self) -> Dict[str, Any]:
         """Convert a nested config to a dictionary."""
         return asdict(self)
-- 
2.43.0


From 79b6ff240e42a3769f45dd6274125dda7b670a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 32/49] fix: log the unscaled mesh

---
 lumos/optimal_control/scaled_mesh_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 4e34fbb..febc45c 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -995,7 +995,7 @@ class ScaledMeshOCP(CompositeProblem):
         # combine dfs
         result_df = pd.concat(df_list, axis=1)
         # add mesh
-        result_df["mesh"] = self._flat_normalized_mesh * self._get_mesh_scale(dec_var)
+        result_df["mesh"] = self.get_mesh_from_dec_var(unscaled_dec_var)
         # add iteration number
         result_df["iter"] = iter_num
         logger.debug("Iteration result dataframe created")
-- 
2.43.0


From 35e2667a5e64cfef7abbc16ff1542d0604f866a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 33/49] fix: only look for the max violation among the
 constraints

---
 lumos/optimal_control/scaled_mesh_ocp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index febc45c..74f8edf 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -883,7 +883,13 @@ class ScaledMeshOCP(CompositeProblem):
                         os.remove(file)
 
                 # Compute what causes the max violation at each iteration
-                con_names = [c for c in df_list[0].columns if "_con." in c]
+                # NOTE: other columns may contain "_con." as well. (eg, outputs of a
+                # submodel)
+                con_names = [
+                    c
+                    for c in df_list[0].columns
+                    if c.startswith(("stage_con.", "interval_con.", "cyclic_con."))
+                ]
                 # Initialize storage, watchout for datatype
                 metrics_history_df["max_violation_con_name"] = "NotRecorded"
                 metrics_history_df["max_violation_mesh"] = -1.0
-- 
2.43.0


From 719556f6b9bad2e96066b7569ac6d0a0d3a74a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 34/49] fix: start the logs of each solve anew

---
 lumos/optimal_control/scaled_mesh_ocp.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 74f8edf..2179f9d 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -193,6 +193,7 @@ class ScaledMeshOCP(CompositeProblem):
 
     def solve(self, *args, **kwargs):
         """Overwrite to add the logging of last iteration"""
+        self._reset_logging()
         x0 = self.get_init_guess()
         # If jax backend, do one call to invoke jit first
         if self.backend == "jax":
@@ -809,6 +810,18 @@ class ScaledMeshOCP(CompositeProblem):
             Path(self._logging_dir).mkdir(parents=True, exist_ok=True)
             self._metrics_history_list = []
 
+    def _reset_logging(self):
+        """Forget the iterations logged by previous solves"""
+        self._num_iter = None
+        if self.logging_config is not None:
+            self._metrics_history_list = []
+            # A solve that ended in an error leaves its iteration files behind.
+            for file in self._get_iter_files():
+                os.remove(file)
+
+    def _get_iter_files(self) -> List[str]:
+        return glob.glob(os.path.join(self._logging_dir, "iter*.csv"))
+
     @property
     def logging_dir(self):
         return self._logging_dir
@@ -860,7 +873,7 @@ class ScaledMeshOCP(CompositeProblem):
                     os.remove(last_iter_file)
 
                 # Combine all iteration results
-                iter_files = glob.glob(os.path.join(self._logging_dir, "iter*.csv"))
+                iter_files = self._get_iter_files()
 
                 # Add result file to the file list to ensure we always see the last iter
                 iter_files.append(result_file)
-- 
2.43.0


From cf0ae9506bf9cdc1b7793d53856c6d9e84f2eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 35/49] fix: find the iteration logs in directories with
 special characters

---
 lumos/optimal_control/scaled_mesh_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 2179f9d..b514cf6 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -820,7 +820,7 @@ class ScaledMeshOCP(CompositeProblem):
                 os.remove(file)
 
     def _get_iter_files(self) -> List[str]:
-        return glob.glob(os.path.join(self._logging_dir, "iter*.csv"))
+        return glob.glob(os.path.join(glob.escape(self._logging_dir), "iter*.csv"))
 
     @property
     def logging_dir(self):
-- 
2.43.0


From 17657a6ba68ffe2ea4fc3589f396810849a0a4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 36/49] fix: return from solves that stop before the first
 iteration

---
 lumos/optimal_control/scaled_mesh_ocp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index b514cf6..7404f83 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -852,7 +852,8 @@ class ScaledMeshOCP(CompositeProblem):
     def _log_final_iter(self):
         # TODO: we should be able to do better than these hard-coded names everywhere.
         config = self.logging_config
-        if config is not None:
+        # There is nothing to log if the solver stopped before the first iteration
+        if config is not None and self._num_iter is not None:
             # Write the result file
             result_file = os.path.join(self._logging_dir, "results.csv")
             self._create_result_df(
-- 
2.43.0


From 00532c11e5986d82be52ba183c27edae7e4256bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 37/49] fix: give cyipopt the lower triangle of the hessian it
 requires

---
 lumos/optimal_control/nlp.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 1431520..5b85cb6 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -527,7 +527,8 @@ class NLPFunction(ABC):
         nlp = cyipopt.Problem(
             n=self.num_dec,
             m=self.num_con,
-            problem_obj=self,  # this is particularly concerning...
+            # this is particularly concerning...
+            problem_obj=_LowerTriangularHessian(self),
             lb=self.lb / self._dec_var_scales,
             ub=self.ub / self._dec_var_scales,
             cl=self.cl,
@@ -665,6 +666,20 @@ class NLPFunction(ABC):
         self._num_iter = iter_count
 
 
+class _LowerTriangularHessian:
+    """View of a problem for cyipopt, which only accepts lower triangular hessians."""
+
+    def __init__(self, problem: NLPFunction):
+        self._problem = problem
+
+    def __getattr__(self, name: str):
+        return getattr(self._problem, name)
+
+    def hessianstructure(self) -> Tuple[np.ndarray, np.ndarray]:
+        rows, cols = self._problem.hessianstructure()
+        return cols, rows
+
+
 class CompositeProblem(NLPFunction):
     """Combine multiple functions that share the same inputs
 
-- 
2.43.0


From 1c0e06dbd5bd9eef045c918c0b81559f42176b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 38/49] fix: find the hessian of the model in the ModelSolver

---
 lumos/optimal_control/model_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/model_solver.py b/lumos/optimal_control/model_solver.py
index d620c36..cc96f55 100644
--- a/lumos/optimal_control/model_solver.py
+++ b/lumos/optimal_control/model_solver.py
@@ -52,7 +52,7 @@ class ModelSolver(CompositeProblem):
             return np.array(implicit_functions["jacobian"](*args).nonzeros())
 
         def _hessian(*args):
-            return np.array(implicit_functions["_hessian"](*args).nonzeros())
+            return np.array(implicit_functions["hessian"](*args).nonzeros())
 
         # FIXME: we create CasMappedConstraints (839 in base.py), but it actually is NOT
         # a Constriant that can be executed with its .constraints method, as it requires
-- 
2.43.0


From 716e330a89218d70eaec0f4ea9f57564f48ae17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 39/49] fix: integer hessian structure of objectives from
 variables in the ModelSolver

---
 lumos/optimal_control/model_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/model_solver.py b/lumos/optimal_control/model_solver.py
index cc96f55..b2a4385 100644
--- a/lumos/optimal_control/model_solver.py
+++ b/lumos/optimal_control/model_solver.py
@@ -246,13 +246,13 @@ class ModelSolver(CompositeProblem):
                 return grad
 
             def hessian(x):
-                return []
+                return np.array([])
 
             return {
                 "objective": obj,
                 "gradient": gradient,
                 "hessian": hessian,
-                "hessian_structure": ([], []),
+                "hessian_structure": (np.array([], dtype=int), np.array([], dtype=int)),
             }
 
         obj_name = f"{group}.{name}.weight={weight}"
-- 
2.43.0


From f4622db70c3376ece588f3e5cbcdb3aa41cf498b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 40/49] fix: read tire property files with tabs and
 commented-out values

---
 lumos/models/tires/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lumos/models/tires/utils.py b/lumos/models/tires/utils.py
index 33c1b0c..98fea55 100644
--- a/lumos/models/tires/utils.py
+++ b/lumos/models/tires/utils.py
@@ -31,10 +31,10 @@ def read_tir_file(file_path: str) -> Dict[str, Any]:
         tir_data = f.readlines()
 
         for line in tir_data:
-            # TODO: this is pretty flaky and would break if somebody puts a "=" into
-            # comments
+            # Everything after a "$" is a comment
+            line, *_ = line.split("$", 1)
             if "=" in line:
-                name, val, *_ = re.split("[=$]", line.replace(" ", ""))
+                name, val = re.sub(r"\s", "", line).split("=", 1)
                 try:
                     params[name] = float(val)
                 except ValueError:
-- 
2.43.0


From 17ef7f1547bd7ccb30dd433ed281f07fb78e3e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 41/49] fix: return a copy of the coefficients of the constant
 aero model

---
 lumos/models/aero/aero.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/aero/aero.py b/lumos/models/aero/aero.py
index a1fa7bb..ee05482 100644
--- a/lumos/models/aero/aero.py
+++ b/lumos/models/aero/aero.py
@@ -22,7 +22,7 @@ class ConstAero(AeroModel):
         return {"Cx": 0.6, "Cy": 0.0, "Cz": 1.9}
 
     def forward(self, inputs):
-        return ModelReturn(outputs=self._params)
+        return ModelReturn(outputs=dict(self._params))
 
 
 class GPAero(AeroModel):
-- 
2.43.0


From 9ee1ac66a51ca4971f9231b67ed9b213292d2bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:51 +0000
Subject: [PATCH 42/49] fix: all and any take every nonzero casadi entry as
 true

---
 lumos/numpy/casadi_numpy/logicals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/logicals.py b/lumos/numpy/casadi_numpy/logicals.py
index c23122f..99e2fb4 100644
--- a/lumos/numpy/casadi_numpy/logicals.py
+++ b/lumos/numpy/casadi_numpy/logicals.py
@@ -76,7 +76,8 @@ def all(a):  # TODO add axis functionality
         return _onp.all(a)
 
     else:
-        return _cas.logic_all(a)
+        # casadi only takes 1 for true, numpy anything that is not 0
+        return _cas.logic_all(a != 0)
 
 
 def any(a):  # TODO add axis functionality
@@ -89,4 +90,5 @@ def any(a):  # TODO add axis functionality
         return _onp.any(a)
 
     else:
-        return _cas.logic_any(a)
+        # casadi only takes 1 for true, numpy anything that is not 0
+        return _cas.logic_any(a != 0)
-- 
2.43.0


From 5699bad56868007f80c12bed82ade2edbc09a084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 43/49] fix: linspace of one casadi point returns the start as
 numpy does

---
 lumos/numpy/casadi_numpy/spacing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumos/numpy/casadi_numpy/spacing.py b/lumos/numpy/casadi_numpy/spacing.py
index b05ac2c..d9f54d7 100644
--- a/lumos/numpy/casadi_numpy/spacing.py
+++ b/lumos/numpy/casadi_numpy/spacing.py
@@ -12,6 +12,9 @@ def linspace(start: float = 0.0, stop: float = 1.0, num: int = 50):
     if not is_casadi_type([start, stop, num], recursive=True):
         return _onp.linspace(start, stop, num)
     else:
+        if num == 1:
+            # numpy keeps the start, casadi the stop
+            stop = start
         return _cas.linspace(start, stop, num)
 
 
-- 
2.43.0


From 8379dccffd07b5c090e45416540506c0b42f4309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 44/49] fix: a new division of the mesh reaches the model
 algebra of a built problem

---
 lumos/optimal_control/convolution.py     | 5 ++++-
 lumos/optimal_control/scaled_mesh_ocp.py | 8 ++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/convolution.py b/lumos/optimal_control/convolution.py
index 8e11a9e..5c62220 100644
--- a/lumos/optimal_control/convolution.py
+++ b/lumos/optimal_control/convolution.py
@@ -45,7 +45,7 @@ class ConvConstraints(MappedConstraints):
         """
 
         self._unit_problem = unit_problem
-        self._normalized_mesh = normalized_mesh
+        self.set_normalized_mesh(normalized_mesh)
         self._mesh_scale_fn = mesh_scale_fn
         self._op = dec_var_op
         self._batch = dec_var_op.num_stages
@@ -111,6 +111,9 @@ class ConvConstraints(MappedConstraints):
         else:
             self._params = params
 
+    def set_normalized_mesh(self, normalized_mesh: np.ndarray):
+        self._normalized_mesh = normalized_mesh
+
     def _transform_inputs(self, x):
         stage_vars, _ = self._op.split_stage_and_global_vars(x)
 
diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 7404f83..296c824 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -58,6 +58,9 @@ class ScaledMeshOCP(CompositeProblem):
     # conditions we have set just by looking at the upper and lower bound.
     _boundary_conditions: Tuple[BoundaryConditionConfig] = ()
 
+    # The model algebra convoluted over the stages, None until it is built.
+    _stage_cons: Optional[ConvConstraints] = None
+
     # see: https://cyipopt.readthedocs.io/en/stable/reference.html
     # for callback arguments
     _metric_names: List[str] = [
@@ -526,6 +529,10 @@ class ScaledMeshOCP(CompositeProblem):
 
             self._normalized_interval_mesh.append(current_interval_mesh)
 
+        # When the problem is already built, its model algebra must see the new mesh too.
+        if self._stage_cons is not None:
+            self._stage_cons.set_normalized_mesh(self._flat_normalized_mesh)
+
     @property
     def _flat_normalized_mesh(self) -> np.ndarray:
         # Stack all interval mesh togther, omitting the overlapping stage.
@@ -1322,6 +1329,7 @@ class ScaledMeshOCP(CompositeProblem):
 
         # FIXME: currently the unpacking in interval con relies on the order here
         self.add_constraints("model_algebra", stage_cons)
+        self._stage_cons = stage_cons
 
     def _build_cyclic_cons(self, non_cyclic_vars: List[str]):
         self._build_cyclic_vars(non_cyclic_vars)
-- 
2.43.0


From d7f0752df6448be65c1816ee7cdee8e431aaa599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 45/49] fix: a path that starts with the delimiter does not
 address the root of a tree

---
 lumos/models/tree_utils.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index 077f014..2e75cf4 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -58,14 +58,16 @@ class Tree:
 
     def _get_subtree(self, path, delimiter=".") -> Tree:
         if path:
-            child_names = path.split(delimiter)
-            t = self
-            for n in child_names:
-                t = t.get_child(n)
-            return t
+            return self._get_descendant(path.split(delimiter))
         else:
             return self
 
+    def _get_descendant(self, child_names) -> Tree:
+        t = self
+        for n in child_names:
+            t = t.get_child(n)
+        return t
+
     def to_dict(self):
 
         # Ensure "children" key appears regardless whether a child exists
@@ -98,7 +100,7 @@ class Tree:
             subtree._data = value
         elif self._data_type == dict:
             *path_names, param_key = path.split(delimiter)
-            subtree = self._get_subtree(delimiter.join(path_names), delimiter)
+            subtree = self._get_descendant(path_names)
             subtree._data[param_key] = value
         else:
             raise TypeError("Only str and dict supported for Tree at the moment")
@@ -110,8 +112,8 @@ class Tree:
                 f"subtree input should be of type 'Tree', but got '{type(subtree)}'"
             )
         *path_to_parent, child_name = path.split(delimiter)
+        parent = self._get_descendant(path_to_parent)
         path_to_parent = delimiter.join(path_to_parent)
-        parent = self._get_subtree(path_to_parent, delimiter)
 
         # Ensure the child to be replaced does actually exist
         if child_name in parent._children:
@@ -173,7 +175,7 @@ class ParameterTree(Tree):
 
     def get_param(self, path, delimiter="."):
         *path_names, param_key = path.split(delimiter)
-        t = self._get_subtree(delimiter.join(path_names), delimiter)
+        t = self._get_descendant(path_names)
         return t._data[param_key]
 
     def set_param(self, path, value, delimiter="."):
-- 
2.43.0


From 0ab96f59c458b0d174379bbf0071c36e6bc05d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:41 +0000
Subject: [PATCH 46/49] fix: keep the parameters of a model that cannot be
 compiled or exported

---
 lumos/models/base.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 6c81065..e8590f2 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -642,20 +642,22 @@ class StateSpaceModel(Model):
         # TODO: create a param copy method
         params = ParameterTree.from_dict(self.get_recursive_params().to_dict())
 
-        if backend == "casadi":
-            implicit_functions = self._make_casadi_model_algebra_cons()
-        elif backend == "jax":
-            implicit_functions = self._make_jax_model_algebra_cons()
-        elif backend == "custom":
-            implicit_functions = self._make_custom_model_algebra_cons()
-        else:
-            raise ValueError(
-                f"{backend} is not supported. Only 'jax', 'casadi' and 'custom' backends are supported."
-            )
-
-        # Restore the original params (some backends would replace model params with
-        # objects such as their own symbolic types or tracers during tracing)
-        self.set_recursive_params(params)
+        try:
+            if backend == "casadi":
+                implicit_functions = self._make_casadi_model_algebra_cons()
+            elif backend == "jax":
+                implicit_functions = self._make_jax_model_algebra_cons()
+            elif backend == "custom":
+                implicit_functions = self._make_custom_model_algebra_cons()
+            else:
+                raise ValueError(
+                    f"{backend} is not supported. Only 'jax', 'casadi' and 'custom' backends are supported."
+                )
+        finally:
+            # Restore the original params (some backends would replace model params with
+            # objects such as their own symbolic types or tracers during tracing), also
+            # when the model cannot be built.
+            self.set_recursive_params(params)
 
         return implicit_functions
 
@@ -954,8 +956,10 @@ class StateSpaceModel(Model):
         inputs = CasType.sym("inputs", self.num_inputs)
 
         # Only the model calls need to go inside the context manager.
+        # NOTE: the params are kept, as they would be left as casadi variables if the
+        # model fails.
         with lnp.use_backend("casadi"):
-            model_return = self.apply_and_forward_with_arrays(
+            model_return = self._keep_params(self.apply_and_forward_with_arrays)(
                 states, inputs, mesh, cas_dict_params
             )
 
-- 
2.43.0


From 227ac4e666414a364504e32a99c6cdebc4e8f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:55 +0000
Subject: [PATCH 47/49] fix: an interrupted or simultaneous compilation left
 wrong or broken casadi libraries

The generated code and the library were written straight to their final names
in the working directory: a killed compiler left a truncated library that all
later builds loaded (crashing the process), and a build of another process in
between replaced the code, so a model was compiled from another model's code.
---
 lumos/models/base.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index e8590f2..165fb7c 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -1,10 +1,12 @@
 import hashlib
 import logging
+import os
 import subprocess
 from abc import abstractmethod
 from collections import namedtuple
 from functools import wraps
 from os.path import exists, getsize
+from tempfile import TemporaryDirectory
 from typing import Any, Dict, List, NamedTuple, Optional, Tuple
 
 import casadi as cas
@@ -856,7 +858,20 @@ class StateSpaceModel(Model):
                 [lagrange_hessian],
             )
         )
-        codegen.generate()
+        # NOTE: generate and compile in a private directory, as other processes could be
+        # building their models in the same working directory.
+        with TemporaryDirectory(prefix=filename + "_", dir=".") as build_dir:
+            library_path = self._compile_casadi_library(codegen, build_dir)
+
+        return self._load_casadi_library(library_path, jac, lagrange_hessian)
+
+    def _compile_casadi_library(self, codegen, build_dir: str) -> str:
+        """Compile the generated code, unless it was compiled before.
+
+        The library only gets its final name once it is complete, so an interrupted
+        compilation can't leave a broken one behind.
+        """
+        cfile = codegen.generate(build_dir + "/")
 
         logger.info(f"Generated c-code with {getsize(cfile)} lines: ")
         # Call compiler if no library exists already
@@ -872,10 +887,14 @@ class StateSpaceModel(Model):
             logger.info(f"{library_path} already exists, no compliation is needed.")
         else:
             logger.info(f"Compiling casadi library {library_path}")
-            cmd = ["gcc", "-fPIC", "-o2", "-shared", cfile, "-o", library_path]
-            p = subprocess.Popen(cmd)
-            p.wait()
+            new_library_path = build_dir + "/" + library_name + ".so"
+            cmd = ["gcc", "-fPIC", "-o2", "-shared", cfile, "-o", new_library_path]
+            subprocess.run(cmd, check=True)
+            os.replace(new_library_path, library_path)
+
+        return library_path
 
+    def _load_casadi_library(self, library_path: str, jac, lagrange_hessian):
         # Wrap the functions to take in dict params
         # FIXME: fixed thread number
         _mapped_forward = lnp.cmap(
-- 
2.43.0


From 3a4ba3707954337c67f980db59502ec8db838620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:27 +0000
Subject: [PATCH 48/49] fix: problems created within the same second shared a
 log directory

They overwrote the results of each other, and a solve of one of them deleted the
iteration files of the others.
---
 lumos/optimal_control/scaled_mesh_ocp.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 296c824..01e0e11 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -813,8 +813,18 @@ class ScaledMeshOCP(CompositeProblem):
             subdir_name = (
                 datetime.now().strftime("%Y%m%d-%H%M%S") + "_" + config.sim_name
             )
-            self._logging_dir = os.path.join(config.results_dir, subdir_name)
-            Path(self._logging_dir).mkdir(parents=True, exist_ok=True)
+            # Problems created within the same second must not share a directory, as they
+            # would overwrite and delete the logs of each other.
+            logging_dir = os.path.join(config.results_dir, subdir_name)
+            self._logging_dir = logging_dir
+            num_used = 0
+            while True:
+                try:
+                    Path(self._logging_dir).mkdir(parents=True)
+                    break
+                except FileExistsError:
+                    num_used += 1
+                    self._logging_dir = f"{logging_dir}_{num_used}"
             self._metrics_history_list = []
 
     def _reset_logging(self):
-- 
2.43.0


From 72f3788cbaa6ac30a958e4845563ef21ea9c577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:25 +0000
Subject: [PATCH 49/49] fix: condensed problems with further global variables

The condensed derivatives assumed that mesh_scale is the only global variable (and hence the last decision variable).
---
 lumos/optimal_control/scaled_mesh_ocp.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 01e0e11..02daeef 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -313,13 +313,9 @@ class ScaledMeshOCP(CompositeProblem):
                 self._params,
             )
 
-            x = op.flatten_var(
-                states=vars.states,
-                inputs=vars.inputs,
-                con_outputs=vars.con_outputs,
-                mesh_scale=vars.mesh_scale,
-                states_dot=model_return.states_dot,
-            )
+            # All other variables stay as they are. (including other global variables)
+            vars = vars._replace(states_dot=model_return.states_dot)
+            x = op.flatten_var(**vars._asdict())
 
         continuity_jac = self._con_storage["continuity"].get_csc_jacobian(x)
 
@@ -444,8 +440,10 @@ class ScaledMeshOCP(CompositeProblem):
             # and the mesh_scale
             # L = lagrangian of continuity
             # d2L/dvar/dmesh = d2L/xdot/dmesh @ dxdot/dvar
+            idx_mesh_scale = op.get_var_index_in_dec("global", "mesh_scale")
             new_vals = (
-                dxdot_dvar.T @ continuity_hess[idx_states_dot, -1].toarray().ravel()
+                dxdot_dvar.T
+                @ continuity_hess[idx_states_dot, idx_mesh_scale].toarray().ravel()
             )
             # set all deriviatives w.r.t. x_dot to 0. This is because dxdot_dvar is
             # taken from algebraic_jac, which has the f(x, u) - x_dot entry. We could
@@ -465,7 +463,9 @@ class ScaledMeshOCP(CompositeProblem):
             # If mesh_scale is a variable, then the continuity constraints also has
             # non-zero hessian entries.
             cont_rows = np.arange(self.num_dec)
-            cont_cols = np.ones(self.num_dec, dtype=int) * (self.num_dec - 1)
+            cont_cols = np.ones(self.num_dec, dtype=int) * op.get_var_index_in_dec(
+                "global", "mesh_scale"
+            )
             rows = np.hstack([rows.ravel(), cont_rows])
             cols = np.hstack([cols.ravel(), cont_cols])
 
-- 
2.43.0

