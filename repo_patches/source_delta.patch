From 1f08e21d0390088a840cf9e98ad397d1c2849ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:18 +0000
Subject: [PATCH 01/42] fix: clip index bounds outside the vector, and slice
 empty ranges and vectors correctly

---
 ein/codegen/array_indexing.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ein/codegen/array_indexing.py b/ein/codegen/array_indexing.py
index 8eab888..7736130 100644
--- a/ein/codegen/array_indexing.py
+++ b/ein/codegen/array_indexing.py
@@ -86,17 +86,22 @@ def transform_get(
             if use_slice_elision and is_trivial and size_class.equiv(index, dim):
                 return Axial(axes, target.expr)
             if use_slice_pads:
-                zero = Builder.const(0).expr
+                zero = Builder.const(0)
                 size = index_sizes[index]
-                dim1 = (Builder(go(dim).normal) - Builder.const(1)).expr
+                dim1 = Builder(go(dim).normal) - Builder.const(1)
+
+                # Bounds written in the index might themselves be out of range.
+                def in_range(bound: phi.Expr) -> yarr.Expr:
+                    return Builder(go(bound).normal).max(zero).min(dim1).expr
+
                 return Axial(
                     axes,
                     pad_slice_get(
                         target.expr,
                         target.positional_axis(0),
-                        go(shift).normal if shift is not None else zero,
-                        go(low).normal if low is not None else zero,
-                        go(high).normal if high is not None else dim1,
+                        go(shift).normal if shift is not None else zero.expr,
+                        in_range(low) if low is not None else zero.expr,
+                        in_range(high) if high is not None else dim1.expr,
                         size,
                     ),
                 )
@@ -139,9 +144,10 @@ def pad_slice_get(
     # using the operation
     #  b = pad(a[start:stop], (left, right))
     # (where indexing is along the selected axis)
-    start = shift.max(low).min(high)
-    stop = (shift + size - one).max(low).min(high) + one
-    left = (low - shift).max(zero).min(size - one)
+    # (low and high are within the target, unless it is empty and high = -1)
+    start = shift.max(low).min(high).max(zero)
+    stop = ((shift + size - one).max(low).min(high) + one).min(start + size)
+    left = (low - shift).min(size - one).max(zero)
     right = size - (stop - start) - left
 
     return yarr.Pad(
-- 
2.43.0


From 5e2c27c3af087de83ce9bf23d45dc44635f6075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:18 +0000
Subject: [PATCH 02/42] fix: NumPy edge padding keeps the dtype, and the shape
 of empty arrays

---
 ein/backend/numpy_backend.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 00ae828..eaaf01a 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -91,11 +91,17 @@ def fast_edge_pad(
     target: numpy.ndarray, pads: tuple[tuple[int, int], ...]
 ) -> numpy.ndarray:
     if not target.size:
-        return numpy.empty(tuple(lt + rt for lt, rt in pads))
+        return numpy.empty(
+            tuple(d + lt + rt for d, (lt, rt) in zip(target.shape, pads)),
+            dtype=target.dtype,
+        )
     if sum(lt + rt for lt, rt in pads) == 0:
         return target.copy()
     if all(not (lt and rt) for lt, rt in pads):
-        res = numpy.empty([d + lt + rt for d, (lt, rt) in zip(target.shape, pads)])
+        res = numpy.empty(
+            [d + lt + rt for d, (lt, rt) in zip(target.shape, pads)],
+            dtype=target.dtype,
+        )
         edge_index: list[int | numpy.ndarray | slice] = []
         edge_unsqueeze: list[None | slice] = []
         dest: list[slice] = []
-- 
2.43.0


From 67cc0c3ee70146d785e16eba708590fb2f6e943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:18 +0000
Subject: [PATCH 03/42] fix: PyTorch edge padding pads the requested axes of
 arrays of any rank, dtype and size

---
 ein/backend/torch_backend.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 7141a88..8dc3b5b 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -1,4 +1,3 @@
-import itertools
 from functools import cache
 from typing import Any, Callable, Optional, Sequence, TypeAlias, cast
 
@@ -84,15 +83,15 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def pad(
         self, target: torch.Tensor, pads: Sequence[tuple[int, int]]
     ) -> torch.Tensor:
-        return (
-            torch.nn.functional.pad(
-                target.unsqueeze(0).unsqueeze(0),
-                tuple(itertools.chain(*pads)),
-                mode="replicate",
-            )
-            .squeeze(0)
-            .squeeze(0)
-        )
+        for axis, (left, right) in enumerate(pads):
+            dim = target.shape[axis]
+            index = torch.arange(-int(left), dim + int(right), device=target.device)
+            if not dim:
+                shape = target.shape[:axis] + index.shape + target.shape[axis + 1 :]
+                target = target.new_zeros(shape)
+            elif len(index) != dim:
+                target = target.index_select(axis, index.clip(0, dim - 1))
+        return target
 
     def repeat(
         self, target: torch.Tensor, count: torch.Tensor, axis: int
-- 
2.43.0


From 02cdd028ebedd80a5d1a60d771ab74efc21cb6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:18 +0000
Subject: [PATCH 04/42] fix: PyTorch gather broadcasts its operands

---
 ein/backend/torch_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 8dc3b5b..482977e 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -65,7 +65,9 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def gather(
         self, target: torch.Tensor, item: torch.Tensor, axis: int
     ) -> torch.Tensor:
-        return torch.gather(target, axis, torch.clip(item, 0, target.shape[axis] - 1))
+        return torch.take_along_dim(
+            target, torch.clip(item, 0, target.shape[axis] - 1), axis
+        )
 
     def take(
         self, target: torch.Tensor, items: Sequence[Optional[torch.Tensor]]
-- 
2.43.0


From 43c01088d810fe9cb09664c537a6f53310056df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:18 +0000
Subject: [PATCH 05/42] fix: do not contract sums with terms independent of the
 summation counter

---
 ein/codegen/phi_to_yarr.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 63d372e..c3a3570 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -492,7 +492,14 @@ class Dot:
         match expr:
             case phi.Fold() if (summation := match_summation(expr)) is not None:
                 counter, body = summation
-                return cls.lift(body).sum(counter, expr.size)
+                dot = cls.lift(body)
+                # A product that is constant throughout the sum has to be counted
+                #  as many times as there are summands, which a contraction doesn't.
+                if all(
+                    any(counter in operand.free_symbols for operand in product)
+                    for product in dot.products
+                ):
+                    return dot.sum(counter, expr.size)
             case phi.Add((first, second)):
                 return cls.lift(first) + cls.lift(second)
             case phi.Negate((target,)):
-- 
2.43.0


From 92ee8c1bbf8e9440776ed0cc981b16244a3bc4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 06/42] fix: folds whose init mentions indices that the body
 does not

---
 ein/codegen/phi_to_yarr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index c3a3570..c0cb47f 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -167,11 +167,12 @@ def transform(
                 #  Doing this by constructing the body twice is a really bad idea.
                 #  But just using body.free_indices isn't deterministic enough.
                 pre_transformed = transformed.copy()
-                acc_axes = go(
+                body_axes = go(
                     body_,
                     index_sizes,
                     var_axes | {acc: init._axes},
                 )._axes
+                acc_axes = axial._alignment(body_axes, init._axes)
                 transformed.clear()
                 transformed.update(pre_transformed)
                 body = go(
@@ -186,7 +187,7 @@ def transform(
                         size.normal,
                         acc,
                         init.aligned(acc_axes, repeats=index_sizes),
-                        body.aligned(acc_axes),
+                        body.aligned(acc_axes, repeats=index_sizes),
                     ),
                 )
             case phi.Reduce(init_, x, y, xy_, vecs_):
-- 
2.43.0


From 567992f514f34d8c2a3939c49249f09f50d61430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 07/42] fix: align the axes of reduction bodies

---
 ein/codegen/phi_to_yarr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index c0cb47f..5bf8dae 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -220,7 +220,9 @@ def transform(
                 )
                 return Axial(
                     axes,
-                    yarr.Reduce(init_expr, x, y, xy.expr, vecs_expr, len(axes)),
+                    yarr.Reduce(
+                        init_expr, x, y, xy.aligned(xy_axes), vecs_expr, len(axes)
+                    ),
                 )
 
             case phi.Get(target_, item_):
-- 
2.43.0


From dc7b3421ad0f054b4ad098f314656e4914dd0034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 08/42] fix: do not store results of comparisons in operands of
 another type

---
 ein/codegen/phi_to_yarr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 5bf8dae..db68b37 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -557,11 +557,11 @@ def apply_inplace_on_temporaries(program: yarr.Expr) -> yarr.Expr:
                 # This logic is really shaky and interacts with optimisations to the number of axis manipulation calls.
                 # Should have more in-depth analysis on what broadcasting might occur
                 rank = expr.type.single.rank
-                rank1, rank2 = first.type.single.rank, second.type.single.rank
+                # Comparisons don't result in the kind of their operands, so the types have to agree.
                 if rank:
-                    if rank == rank1 and isinstance(first, TEMPORARIES):
+                    if expr.type == first.type and isinstance(first, TEMPORARIES):
                         return yarr.BinaryElementwise(kind, first, second, 0)
-                    if rank == rank2 and isinstance(second, TEMPORARIES):
+                    if expr.type == second.type and isinstance(second, TEMPORARIES):
                         return yarr.BinaryElementwise(kind, first, second, 1)
         return expr
 
-- 
2.43.0


From 83c346270107e8321ca18894d5d345bd86dc5fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 09/42] fix: reject indexing with non-integers

---
 ein/phi/phi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/phi/phi.py b/ein/phi/phi.py
index 378ae77..b25d292 100644
--- a/ein/phi/phi.py
+++ b/ein/phi/phi.py
@@ -242,7 +242,7 @@ class Get(AbstractExpr):
             raise TypeError(f"Cannot index a non-array type {self.operand.type}")
         if not isinstance(self.item.type, Scalar):
             raise TypeError(f"Cannot index with a non-scalar type {self.item.type}")
-        if not isinstance(self.item.type, Scalar):
+        if self.item.type.kind != int:
             raise TypeError(f"Cannot index with a non-integer type {self.item.type}")
         return self.operand.type.elem
 
-- 
2.43.0


From 071ce669a25f37a3779909eae2a0e46a5bff9140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 10/42] fix: zeroth power of a scalar

---
 ein/frontend/ndarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index 4766c08..0c3ddf1 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -302,6 +302,8 @@ class Scalar(_Array):
         if isinstance(power, int):
             if power < 0:
                 return (1.0 / self) ** (-power)
+            if power == 0:
+                return wrap(1 if self.expr.type == ScalarType(int) else 1.0)
 
             def go(k: int) -> Scalar:
                 if k == 1:
-- 
2.43.0


From 3d90c43bb1cd3a55979f383de2b1dc93ebe287e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 11/42] fix: overflow in tanh of large arguments

---
 ein/frontend/ndarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index 0c3ddf1..1c74132 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -369,8 +369,8 @@ class Scalar(_Array):
         return Scalar(phi.Cos((self.expr,)))
 
     def tanh(self) -> "Scalar":
-        a, b = self.exp(), (-self).exp()
-        return (a - b) / (a + b)
+        # This form does not overflow into a division of infinities
+        return 1.0 - 2.0 / ((2.0 * self).exp() + 1.0)
 
 
 def ext(
-- 
2.43.0


From d9a147677b49bb5ae5daa05cb3d241189ae5661d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 12/42] fix: folds with a negative count in the reference
 interpreter

---
 ein/backend/naive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/backend/naive.py b/ein/backend/naive.py
index ea5150f..ad0e4f0 100644
--- a/ein/backend/naive.py
+++ b/ein/backend/naive.py
@@ -25,7 +25,7 @@ def _interpret(expr: Expr, env: dict[Symbol, Value]) -> Value:
                 )
             )
         case phi.Fold(counter, size, acc_v, init, body):
-            n = int(_interpret(size, env).array)
+            n = max(int(_interpret(size, env).array), 0)
             env[acc_v] = _interpret(init, env)
             for i in range(n):
                 env[counter] = Value(numpy.array(i))
-- 
2.43.0


From a29bf2a458a2e798b7d4fad6fb8eca33a405e1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 13/42] fix: records with fields named like dictionary methods

---
 ein/frontend/layout.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ein/frontend/layout.py b/ein/frontend/layout.py
index bdf520b..f32e7a1 100644
--- a/ein/frontend/layout.py
+++ b/ein/frontend/layout.py
@@ -92,11 +92,7 @@ def build_layout(obj, f) -> Layout:
 def fold_layout(layout, args, atom, vec, merge):
     def get(name):
         def do(x):
-            return (
-                getattr(x, name)
-                if isinstance(name, str) and hasattr(x, name)
-                else x[name]
-            )
+            return x[name] if isinstance(x, dict) else getattr(x, name)
 
         return do
 
@@ -129,7 +125,7 @@ def fold_layout(layout, args, atom, vec, merge):
 def map_layout(layout, args, atom, vec):
     def get(name):
         def do(x):
-            return getattr(x, name) if hasattr(x, name) else x[name]
+            return x[name] if isinstance(x, dict) else getattr(x, name)
 
         return do
 
-- 
2.43.0


From 330bbdbeb4f9de150e78a9187e1e5a9e93a29f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 14/42] fix: do not print slices in the JAX backend

---
 ein/backend/jax_backend.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 3e43e96..692bc7c 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -83,7 +83,6 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return target[*it]
 
     def slice(self, target: jnp.ndarray, slices: Sequence[slice]) -> jnp.ndarray:
-        print(slices)
         return target[*slices]
 
     def pad(self, target: jnp.ndarray, pads: Sequence[tuple[int, int]]) -> jnp.ndarray:
-- 
2.43.0


From 1bb82ffe5d8d0856a733d29f334f1744dd5c42a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:37 +0000
Subject: [PATCH 15/42] fix: shape and dtype of empty comprehensions in the
 reference interpreter

---
 ein/backend/naive.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ein/backend/naive.py b/ein/backend/naive.py
index ad0e4f0..128bc54 100644
--- a/ein/backend/naive.py
+++ b/ein/backend/naive.py
@@ -15,15 +15,15 @@ def _interpret(expr: Expr, env: dict[Symbol, Value]) -> Value:
     operands: tuple[Expr, ...]
     match expr:
         case phi.Vec(index, size, body):
-            evaluated_size = int(_interpret(size, env).array)
-            return Value(
-                numpy.array(
-                    [
-                        _interpret(body, env | {index: Value(numpy.array(i))}).array
-                        for i in range(evaluated_size)
-                    ]
-                )
+            evaluated_size = max(int(_interpret(size, env).array), 0)
+            # There always is at least one element, which determines the shape and dtype
+            elems = numpy.array(
+                [
+                    _interpret(body, env | {index: Value(numpy.array(i))}).array
+                    for i in range(max(evaluated_size, 1))
+                ]
             )
+            return Value(elems[:evaluated_size])
         case phi.Fold(counter, size, acc_v, init, body):
             n = max(int(_interpret(size, env).array), 0)
             env[acc_v] = _interpret(init, env)
-- 
2.43.0


From ed3f4a1924ec907daae081dfe61834e35ee2df66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:54 +0000
Subject: [PATCH 16/42] fix: minimum and maximum folds over empty ranges

---
 ein/backend/jax_backend.py   |  3 ++-
 ein/backend/numpy_backend.py |  3 ++-
 ein/backend/torch_backend.py | 10 +++++++++-
 ein/codegen/yarr.py          |  5 +++++
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 692bc7c..3026478 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -175,7 +175,8 @@ def stage_in_array(
             case yarr.ReduceAxis(kind, axis, target_):
                 target = go(target_)
                 call = REDUCE[kind]
-                return lambda env: call(target(env), axis=axis)
+                initial = yarr.REDUCE_IDENTITIES[kind]
+                return lambda env: call(target(env), axis=axis, initial=initial)
             case yarr.Cast(dtype, target_):
                 target = go(target_)
                 return lambda env: target(env).astype(dtype)
diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index eaaf01a..07cdbe6 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -143,7 +143,8 @@ def stage_in_array(
             case yarr.ReduceAxis(kind, axis, target_):
                 target = go(target_)
                 call = yarr.REDUCE_KINDS[kind].reduce
-                return lambda env: call(target(env), axis=axis)
+                initial = yarr.REDUCE_IDENTITIES[kind]
+                return lambda env: call(target(env), axis=axis, initial=initial)
             case yarr.Cast(dtype, target_):
                 target = go(target_)
                 return lambda env: target(env).astype(dtype)
diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 482977e..597397f 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -119,6 +119,13 @@ def unsqueeze_axes(tensor, axes):
     return tensor
 
 
+def reduce_axis(call, tensor, axis, initial):
+    if not tensor.shape[axis]:
+        shape = tensor.shape[:axis] + tensor.shape[axis + 1 :]
+        return tensor.new_full(shape, initial)
+    return call(tensor, axis=axis)
+
+
 def stage_in_array(
     program: yarr.Expr,
 ) -> Callable[[Env], torch.Tensor | tuple[torch.Tensor, ...]]:
@@ -134,7 +141,8 @@ def stage_in_array(
             case yarr.ReduceAxis(kind, axis, target_):
                 target = go(target_)
                 call = REDUCE[kind]
-                return lambda env: call(target(env), axis=axis)
+                initial = yarr.REDUCE_IDENTITIES[kind]
+                return lambda env: reduce_axis(call, target(env), axis, initial)
             case yarr.Cast(dtype, target_):
                 target = go(target_)
                 return lambda env: target(env).to(dtype)
diff --git a/ein/codegen/yarr.py b/ein/codegen/yarr.py
index fd025ec..b6df381 100644
--- a/ein/codegen/yarr.py
+++ b/ein/codegen/yarr.py
@@ -758,6 +758,11 @@ REDUCE_KINDS: dict[Any, Any] = {
     ReduceAxis.Kind.minimum: numpy.minimum,
     ReduceAxis.Kind.maximum: numpy.maximum,
 }
+REDUCE_IDENTITIES: dict[Any, float] = {
+    ReduceAxis.Kind.add: 0.0,
+    ReduceAxis.Kind.minimum: float("+inf"),
+    ReduceAxis.Kind.maximum: float("-inf"),
+}
 REDUCE_UNDERLYING: dict[Any, Any] = {
     ReduceAxis.Kind.add: BinaryElementwise.Kind.add,
     ReduceAxis.Kind.minimum: BinaryElementwise.Kind.minimum,
-- 
2.43.0


From a1b27db46aa7402bb2b1ed629a6e2cb19c20c5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:10 +0000
Subject: [PATCH 17/42] fix: reading from empty vectors (as in or_empty) with
 array backends

---
 ein/backend/jax_backend.py   | 16 ++++++++++++++++
 ein/backend/numpy_backend.py | 12 ++++++++++++
 ein/backend/torch_backend.py | 12 ++++++++++++
 3 files changed, 40 insertions(+)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 3026478..1b12283 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -68,6 +68,7 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return jnp.expand_dims(target, axes)
 
     def gather(self, target: jnp.ndarray, item: jnp.ndarray, axis: int) -> jnp.ndarray:
+        target = readable(target, axis)
         return jnp.take_along_axis(
             target, jnp.clip(item, 0, target.shape[axis] - 1), axis
         )
@@ -75,6 +76,9 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
     def take(
         self, target: jnp.ndarray, items: Sequence[Optional[jnp.ndarray]]
     ) -> jnp.ndarray:
+        for axis, item in enumerate(items):
+            if item is not None:
+                target = readable(target, axis)
         SLICE_NONE = slice(None)
         it: Any = (
             jnp.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
@@ -86,6 +90,10 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return target[*slices]
 
     def pad(self, target: jnp.ndarray, pads: Sequence[tuple[int, int]]) -> jnp.ndarray:
+        for axis, (left, right) in enumerate(pads):
+            if not target.shape[axis] and (left or right):
+                pads = [*pads[:axis], (left, right - 1), *pads[axis + 1 :]]
+                target = readable(target, axis)
         return jnp.pad(target, pads, mode="edge")  # type: ignore
 
     def repeat(self, target: jnp.ndarray, count: jnp.ndarray, axis: int) -> jnp.ndarray:
@@ -160,6 +168,14 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
 INSTANCE = JaxBackend()
 
 
+def readable(target: jnp.ndarray, axis: int) -> jnp.ndarray:
+    # What is read out of an empty vector is arbitrary, but has to have the right shape
+    if not target.shape[axis]:
+        shape = (*target.shape[:axis], 1, *target.shape[axis + 1 :])
+        return jnp.zeros(shape, dtype=target.dtype)
+    return target
+
+
 def stage_in_array(
     program: yarr.Expr,
 ) -> Callable[[Env], jnp.ndarray | tuple[jnp.ndarray, ...]]:
diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 07cdbe6..752e41c 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -49,6 +49,7 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
     def gather(
         self, target: numpy.ndarray, item: numpy.ndarray, axis: int
     ) -> numpy.ndarray:
+        target = readable(target, axis)
         return numpy.take_along_axis(
             target, numpy.clip(item, 0, target.shape[axis] - 1), axis
         )
@@ -56,6 +57,9 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
     def take(
         self, target: numpy.ndarray, items: Sequence[numpy.ndarray | None]
     ) -> numpy.ndarray:
+        for axis, item in enumerate(items):
+            if item is not None:
+                target = readable(target, axis)
         SLICE_NONE = slice(None)
         it: Any = (
             numpy.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
@@ -87,6 +91,14 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
 INSTANCE = NumpyBackend()
 
 
+def readable(target: numpy.ndarray, axis: int) -> numpy.ndarray:
+    # What is read out of an empty vector is arbitrary, but has to have the right shape
+    if not target.shape[axis]:
+        shape = (*target.shape[:axis], 1, *target.shape[axis + 1 :])
+        return numpy.zeros(shape, dtype=target.dtype)
+    return target
+
+
 def fast_edge_pad(
     target: numpy.ndarray, pads: tuple[tuple[int, int], ...]
 ) -> numpy.ndarray:
diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 597397f..6eea042 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -65,6 +65,7 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def gather(
         self, target: torch.Tensor, item: torch.Tensor, axis: int
     ) -> torch.Tensor:
+        target = readable(target, axis)
         return torch.take_along_dim(
             target, torch.clip(item, 0, target.shape[axis] - 1), axis
         )
@@ -72,6 +73,9 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def take(
         self, target: torch.Tensor, items: Sequence[Optional[torch.Tensor]]
     ) -> torch.Tensor:
+        for axis, item in enumerate(items):
+            if item is not None:
+                target = readable(target, axis)
         SLICE_NONE = slice(None)
         it = (
             torch.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
@@ -107,6 +111,14 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
 INSTANCE = TorchBackend()
 
 
+def readable(target: torch.Tensor, axis: int) -> torch.Tensor:
+    # What is read out of an empty vector is arbitrary, but has to have the right shape
+    if not target.shape[axis]:
+        shape = (*target.shape[:axis], 1, *target.shape[axis + 1 :])
+        return torch.zeros(shape, dtype=target.dtype, device=target.device)
+    return target
+
+
 def squeeze_axes(tensor, axes):
     for axis in axes:
         tensor = tensor.squeeze(axis)
-- 
2.43.0


From 941b17911e4ef11d63005434ca5337b1923a9a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:21 +0000
Subject: [PATCH 18/42] fix: gathers out of arrays without elements in the JAX
 backend

---
 ein/backend/jax_backend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 1b12283..ca5008d 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -69,6 +69,11 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
 
     def gather(self, target: jnp.ndarray, item: jnp.ndarray, axis: int) -> jnp.ndarray:
         target = readable(target, axis)
+        if not target.size:
+            # Jax cannot gather out of arrays without any elements
+            shape = (*target.shape[:axis], 1, *target.shape[axis + 1 :])
+            shape = jnp.broadcast_shapes(shape, item.shape)
+            return jnp.zeros(shape, dtype=target.dtype)
         return jnp.take_along_axis(
             target, jnp.clip(item, 0, target.shape[axis] - 1), axis
         )
-- 
2.43.0


From 3945dc3fea7d9c3f79f75b7fbdcc15b3c7f044a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:03 +0000
Subject: [PATCH 19/42] fix: compare the structure of fold bodies with that of
 their initial value

---
 ein/frontend/comprehension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/frontend/comprehension.py b/ein/frontend/comprehension.py
index ebce77c..cb541e5 100644
--- a/ein/frontend/comprehension.py
+++ b/ein/frontend/comprehension.py
@@ -161,7 +161,7 @@ def fold(init: T, step: _WithIndex[T], count: Size | None = None) -> T:
     acc = phi.variable(Variable(), init_expr.type)
     arg_acc = _to_array(acc, layout)
     body = step(arg_index, arg_acc)
-    layout_ = build_layout(init, lambda a: wrap(a).layout)
+    layout_ = build_layout(body, lambda a: wrap(a).layout)
     if layout != layout_:
         raise ValueError(
             f"Expected initialiser and fold body layouts to match, "
-- 
2.43.0


From bccef511fab7437f35bb2504554bc4273493a937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:45 +0000
Subject: [PATCH 20/42] fix: fields of records that do not mention an enclosing
 index extend along it

---
 ein/codegen/axial.py       | 8 +++++---
 ein/codegen/phi_to_yarr.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ein/codegen/axial.py b/ein/codegen/axial.py
index d416cb9..2776c56 100644
--- a/ein/codegen/axial.py
+++ b/ein/codegen/axial.py
@@ -82,12 +82,14 @@ class Axial:
         *rest, (var, bind) = args
         return Axial(self._axes, yarr.Let(var, bind, self.expr)).within(*rest)
 
-    def cons(self, other: "Axial") -> "Axial":
+    def cons(
+        self, other: "Axial", *, repeats: dict[Axis, yarr.Expr] | None = None
+    ) -> "Axial":
         n = len(self.expr.type.elems)
         m = len(other.expr.type.elems)
         axes = _alignment(self._axes, other._axes)
-        self_expr = self.aligned(axes)
-        other_expr = other.aligned(axes)
+        self_expr = self.aligned(axes, repeats=repeats)
+        other_expr = other.aligned(axes, repeats=repeats)
         return Axial(
             axes,
             tuple_maybe_singleton(
diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index db68b37..8be19ab 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -277,7 +277,7 @@ def transform(
             case phi.Cons(first_, second_):
                 first = go(first_, index_sizes, var_axes)
                 second = go(second_, index_sizes, var_axes)
-                return first.cons(second)
+                return first.cons(second, repeats=index_sizes)
             case phi.First(target_):
                 assert isinstance(target_.type, Pair)
                 k = len(target_.type.first.primitive_type.elems)
-- 
2.43.0


From 15a0604e439c8ac2ed8dbd39a506d0be47155e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:29 +0000
Subject: [PATCH 21/42] fix: folds whose element mentions the accumulator are
 not reductions

---
 ein/codegen/phi_to_yarr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 8be19ab..9dcc57a 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -392,10 +392,11 @@ def match_reduction_by_body(
     for typ, kind in red.items():
         if isinstance(body, typ):
             first, second = body.operands
+            # The reduced element has to be independent of the accumulator.
             if isinstance(first, phi.Store) and first.symbol == acc:
-                return second, kind
+                return (second, kind) if acc not in second.free_symbols else None
             elif isinstance(second, phi.Store) and second.symbol == acc:
-                return first, kind
+                return (first, kind) if acc not in first.free_symbols else None
     return None
 
 
-- 
2.43.0


From d0613f3682e8ed6aead8c0281460bbed76b805e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:49 +0000
Subject: [PATCH 22/42] fix: nested arrays of records; casts of sizes in the
 JAX backend

---
 ein/backend/jax_backend.py |  2 +-
 ein/midend/structs.py      | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index ca5008d..ebda169 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -200,7 +200,7 @@ def stage_in_array(
                 return lambda env: call(target(env), axis=axis, initial=initial)
             case yarr.Cast(dtype, target_):
                 target = go(target_)
-                return lambda env: target(env).astype(dtype)
+                return lambda env: jnp.asarray(target(env)).astype(dtype)
             case yarr.UnaryElementwise(kind, target_):
                 target = go(target_)
                 call = ELEMENTWISE[kind]
diff --git a/ein/midend/structs.py b/ein/midend/structs.py
index ee0052f..5d87efc 100644
--- a/ein/midend/structs.py
+++ b/ein/midend/structs.py
@@ -27,12 +27,15 @@ F = TypeVar("F")
 
 def _soa_transform_type(type_: Type) -> Type:
     match type_:
-        case Vector(Pair(first, second)):
-            return Pair(
-                _soa_transform_type(Vector(first)), _soa_transform_type(Vector(second))
-            )
         case Vector(elem):
-            return Vector(_soa_transform_type(elem))
+            match _soa_transform_type(elem):
+                case Pair(first, second):
+                    return Pair(
+                        _soa_transform_type(Vector(first)),
+                        _soa_transform_type(Vector(second)),
+                    )
+                case elem_:
+                    return Vector(elem_)
         case Pair(first, second):
             return Pair(_soa_transform_type(first), _soa_transform_type(second))
         case Scalar():
-- 
2.43.0


From 05ac39246c173d4cc67f202fb55e66b7c54cd1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:49 +0000
Subject: [PATCH 23/42] fix: sizes known at trace time stay known inside of JAX
 loops

---
 ein/backend/jax_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index ebda169..7158f37 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -119,7 +119,9 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
             def jax_body(i, acc):
                 env[acc_var] = acc
                 env[index_var] = i
-                ret = body(env)
+                # Sizes have to stay known when tracing the loop, as outside of it
+                with jax.ensure_compile_time_eval():
+                    ret = body(env)
                 del env[acc_var], env[index_var]
                 return ret
 
-- 
2.43.0


From d2c8e180deb4fa4a4947b5528c1c17a5ba3ccb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:15 +0000
Subject: [PATCH 24/42] fix: contractions of three or more empty arrays in the
 PyTorch backend

---
 ein/backend/torch_backend.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 6eea042..ccacc39 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -105,7 +105,16 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
         return torch.repeat_interleave(target, int(count), axis)
 
     def prepare_einsum(self, subs: str) -> Callable[..., torch.Tensor]:
-        return lambda *args: torch.einsum(subs, *args)
+        def einsum(*args: torch.Tensor) -> torch.Tensor:
+            # opt_einsum cannot plan contractions of arrays without any elements
+            if len(args) > 2 and any(0 in arg.shape for arg in args):
+                from torch.backends import opt_einsum
+
+                with opt_einsum.flags(enabled=False):
+                    return torch.einsum(subs, *args)
+            return torch.einsum(subs, *args)
+
+        return einsum
 
 
 INSTANCE = TorchBackend()
-- 
2.43.0


From 7246d9f18ba2c65682c65bccf701a927d2d36ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:09 +0000
Subject: [PATCH 25/42] fix: reads out of vectors built from an accumulator at
 one of its indices

---
 ein/codegen/array_indexing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/codegen/array_indexing.py b/ein/codegen/array_indexing.py
index 7736130..9efc385 100644
--- a/ein/codegen/array_indexing.py
+++ b/ein/codegen/array_indexing.py
@@ -80,7 +80,7 @@ def transform_get(
     if use_slice_pads and ts is not None:
         index, (shift, low, high) = ts
         axes = target._axes + (index,)
-        if index not in target_.free_indices:
+        if index not in target._axes:
             is_trivial = {shift, low, high} == {None}
             dim = _dim_of(target_, 0)
             if use_slice_elision and is_trivial and size_class.equiv(index, dim):
-- 
2.43.0


From 775b2cc3ceb5c1f9c171c07f394501560f5bf5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:52 +0000
Subject: [PATCH 26/42] fix: sums starting from an accumulator that depends on
 indices

---
 ein/codegen/phi_to_yarr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 9dcc57a..593fd0a 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -409,7 +409,7 @@ def match_reduction(
     size_class: SizeEquivalence,
     go: Callable[[phi.Expr], Axial],
 ) -> Axial | None:
-    if init.type != Scalar(float) or init.free_indices:
+    if init.type != Scalar(float) or go(init)._axes:
         return None
     red = match_reduction_by_body(body, acc)
     if red is None:
-- 
2.43.0


From e867a680bf1f07b153823f806889dec068d5d460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:52 +0000
Subject: [PATCH 27/42] fix: sums of a constant over a negative range

---
 ein/codegen/phi_to_yarr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 593fd0a..64b4c0f 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -417,6 +417,9 @@ def match_reduction(
     elem, kind = red
     if not would_be_memory_considerate_axis(elem, counter, size, size_class):
         return None
+    if counter not in elem.free_symbols:
+        # Otherwise the size is that of some vector, but here it might be negative
+        size = phi.Max((size, phi.Const(phi.Value(0))))
     index = Index()
     with_counter_axis = cast(phi.Expr, substitute(elem, {counter: phi.at(index)}))
     vec_expr = phi.Vec(index, size, with_counter_axis)
-- 
2.43.0


From 604e81c9d86bf5be1e280b08ad9134c6a041bbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:06 +0000
Subject: [PATCH 28/42] fix: NumPy edge padding of several axes at once

---
 ein/backend/numpy_backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 752e41c..9700290 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -109,7 +109,8 @@ def fast_edge_pad(
         )
     if sum(lt + rt for lt, rt in pads) == 0:
         return target.copy()
-    if all(not (lt and rt) for lt, rt in pads):
+    # A single edge is padded, as with more of them there are also corners to fill
+    if sum(bool(lt) + bool(rt) for lt, rt in pads) == 1:
         res = numpy.empty(
             [d + lt + rt for d, (lt, rt) in zip(target.shape, pads)],
             dtype=target.dtype,
-- 
2.43.0


From cb3a635d35e065f866f65cc765915dac170f9541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:28 +0000
Subject: [PATCH 29/42] fix: PyTorch squeeze of several axes at once

---
 ein/backend/torch_backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index ccacc39..4225e0f 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -129,7 +129,8 @@ def readable(target: torch.Tensor, axis: int) -> torch.Tensor:
 
 
 def squeeze_axes(tensor, axes):
-    for axis in axes:
+    # Removing an axis moves the ones after it
+    for axis in sorted(axes, reverse=True):
         tensor = tensor.squeeze(axis)
     return tensor
 
-- 
2.43.0


From 0178584093b2ee37d58c6f164640bd2813704d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:35 +0000
Subject: [PATCH 30/42] fix: PyTorch transpose of arrays without axes

---
 ein/backend/torch_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 4225e0f..b5c1d83 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -54,7 +54,7 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def transpose(
         self, target: torch.Tensor, permutation: tuple[int, ...]
     ) -> torch.Tensor:
-        return target.permute(*permutation)
+        return target.permute(permutation)
 
     def squeeze(self, target: torch.Tensor, axes: tuple[int, ...]) -> torch.Tensor:
         return squeeze_axes(target, axes)
-- 
2.43.0


From ca03fde62e1716a122598e151b03e6082ca4c47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:00 +0000
Subject: [PATCH 31/42] fix: don't reuse axes of an abandoned contraction when
 a sum is compiled otherwise

When some product of a sum couldn't be contracted, the transformed operands of
the earlier products stayed memoised, including variables bound within them
with axes of the counters realised for the contraction. Compiling the sum by
other means then failed on (or leaked) those axes.
---
 ein/codegen/phi_to_yarr.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 64b4c0f..f11a6e6 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -132,9 +132,14 @@ def transform(
                             )
 
                         summands: list[Axial] = []
+                        pre_transformed = transformed.copy()
                         for curr in dot.products:
                             in_array = go_product(*curr)
                             if in_array is None:
+                                # Variables bound in the operands were assigned axes of the realised
+                                #  counters, which don't occur in what the sum is compiled to instead.
+                                transformed.clear()
+                                transformed.update(pre_transformed)
                                 break
                             summands.append(in_array)
                         else:
-- 
2.43.0


From 0e2df25f1a7030f560fa36c9da77af13ef35bd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:46 +0000
Subject: [PATCH 32/42] fix: indices shifted or bounded by variables that
 depend on other indices

Bounds written in terms of e.g. an accumulator of a batched fold have axes, though no free indices, so a slice isn't possible.
---
 ein/codegen/array_indexing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ein/codegen/array_indexing.py b/ein/codegen/array_indexing.py
index 9efc385..e2291de 100644
--- a/ein/codegen/array_indexing.py
+++ b/ein/codegen/array_indexing.py
@@ -80,7 +80,9 @@ def transform_get(
     if use_slice_pads and ts is not None:
         index, (shift, low, high) = ts
         axes = target._axes + (index,)
-        if index not in target._axes:
+        # Variables in the bounds might depend on indices (unlike the bounds themselves).
+        bounds = [go(bound) for bound in (shift, low, high) if bound is not None]
+        if index not in target._axes and not any(bound._axes for bound in bounds):
             is_trivial = {shift, low, high} == {None}
             dim = _dim_of(target_, 0)
             if use_slice_elision and is_trivial and size_class.equiv(index, dim):
-- 
2.43.0


From 3d17b4c3cabf445b689541c0232d5c2278982874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:25 +0000
Subject: [PATCH 33/42] fix: reductions whose combiner has parts independent of
 the elements

Within a combiner the axis of the batch of elements had no size, so tuples, folds and concatenations that combine something that does not depend on either element were not extended along it.
---
 ein/codegen/phi_to_yarr.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index f11a6e6..80f0e90 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -211,8 +211,14 @@ def transform(
                 # Insert the batch axis to be the first one before ones reduced
                 #   this is a convenient choice, as [vecs] also follow it
                 #   (their outermost axis is reduced, so this inserted axis corresponds to it)
-                xy_axes = (*axes, Index())
-                xy = go(xy_, index_sizes, var_axes | {x: xy_axes, y: xy_axes})
+                batch = Index()
+                xy_axes = (*axes, batch)
+                # What is independent of both elements still has to be as long as they are
+                xs = yarr.Var(x, xy_.type.primitive_type.with_rank_delta(len(xy_axes)))
+                xy_sizes = index_sizes | {
+                    batch: yarr.Dim(len(axes), axial.untuple_maybe_singleton(xs, 0))
+                }
+                xy = go(xy_, xy_sizes, var_axes | {x: xy_axes, y: xy_axes})
 
                 # FIXME: There's probably something wrong here.
                 init_expr = init.aligned(axes, repeats=index_sizes)
@@ -226,7 +232,9 @@ def transform(
                 return Axial(
                     axes,
                     yarr.Reduce(
-                        init_expr, x, y, xy.aligned(xy_axes), vecs_expr, len(axes)
+                        init_expr,
+                        *(x, y, xy.aligned(xy_axes, repeats={batch: xy_sizes[batch]})),
+                        *(vecs_expr, len(axes)),
                     ),
                 )
 
-- 
2.43.0


From 405fdfcbb9d874a15d2e1e0a33c1e04722122e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:49 +0000
Subject: [PATCH 34/42] fix: don't repeat the struct-of-arrays transformation
 on bodies of comprehensions

Transforming twice bound fresh variables in reductions, so two copies of a
fold over such a reduction differed while sharing a body, which could not
be outlined.
---
 ein/midend/structs.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ein/midend/structs.py b/ein/midend/structs.py
index 5d87efc..3c3b9e0 100644
--- a/ein/midend/structs.py
+++ b/ein/midend/structs.py
@@ -104,11 +104,18 @@ def struct_of_arrays_transform(program: Expr):
 
             case Vec(index, size, body):
                 size, body = go(size), go(body)
-                if isinstance(body.type, Pair):
-                    i, j = Index(), Index()
-                    body1 = cast(Expr, substitute(First(body), {index: at(i)}))
-                    body2 = cast(Expr, substitute(Second(body), {index: at(j)}))
-                    return Cons(go(Vec(i, size, body1)), go(Vec(j, size, body2)))
+
+                # The body is already transformed, and this shouldn't be repeated: it would bind
+                #  fresh variables in reductions, so copies of a term would no longer be equal.
+                def tuple_vec(sub_index: Index, sub: Expr) -> Expr:
+                    if isinstance(sub.type, Pair):
+                        i, j = Index(), Index()
+                        sub1 = cast(Expr, substitute(First(sub), {sub_index: at(i)}))
+                        sub2 = cast(Expr, substitute(Second(sub), {sub_index: at(j)}))
+                        return Cons(tuple_vec(i, sub1), tuple_vec(j, sub2))
+                    return Vec(sub_index, size, sub)
+
+                return tuple_vec(index, body)
 
             case Reduce(init, x, y, xy, vecs):
                 init, xy = go(init), go(xy)
-- 
2.43.0


From 9045d53205648bcffdcc08da59e171bd2eb9ab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:15 +0000
Subject: [PATCH 35/42] fix: sums of products whose partial sums lack axes of
 the result

Partial sums of contractions were broadcast to the axes of all of them, but
then were the target of an in-place addition of a larger array.
---
 ein/codegen/phi_to_yarr.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 80f0e90..4d3b881 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -22,6 +22,18 @@ from . import array_indexing, axial
 from .axial import Axial
 
 
+def _add_axial(first: Axial, second: Axial) -> Axial:
+    # Partial sums only have the axes of their operands, so they aren't broadcast in place
+    used_axes = axial._alignment(first._axes, second._axes)
+    return Axial(
+        used_axes,
+        yarr.BinaryElementwise(
+            yarr.BinaryElementwise.Kind.add,
+            *(op.aligned(used_axes, leftpad=False) for op in (first, second)),
+        ),
+    )
+
+
 def transform(
     program: phi.Expr,
     *,
@@ -143,19 +155,7 @@ def transform(
                                 break
                             summands.append(in_array)
                         else:
-                            used_axes = axial._alignment(*(op._axes for op in summands))
-                            return Axial(
-                                used_axes,
-                                functools.reduce(
-                                    lambda a, b: yarr.BinaryElementwise(
-                                        yarr.BinaryElementwise.Kind.add, a, b
-                                    ),
-                                    (
-                                        op.aligned(used_axes, leftpad=False)
-                                        for op in summands
-                                    ),
-                                ),
-                            )
+                            return functools.reduce(_add_axial, summands)
                 if use_reductions:
                     reduced = match_reduction(
                         *(counter, size_, acc, init_, body_, size_class),  #
-- 
2.43.0


From c47d9b0df738ab8b90fb0bcbcb258181d388cae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:32 +0000
Subject: [PATCH 36/42] fix: size inference takes exponential time in shared
 terms

---
 ein/frontend/comprehension.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ein/frontend/comprehension.py b/ein/frontend/comprehension.py
index cb541e5..24cd50e 100644
--- a/ein/frontend/comprehension.py
+++ b/ein/frontend/comprehension.py
@@ -64,6 +64,7 @@ def _infer_sizes(
     def go(sub: Expr, captured: set[Symbol]) -> Expr:
         if sub in visited:
             return sub
+        visited.add(sub)
         match sub:
             case phi.Get(target, phi.Store(symbol)):
                 direct_indices.setdefault(symbol, {})[target] = captured
-- 
2.43.0


From 7ea41cd0a3dc99f8311a28d9d4df01a4d9bd82a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:32 +0000
Subject: [PATCH 37/42] fix: sums of products of many sums

---
 ein/codegen/phi_to_yarr.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 4d3b881..6fff7b6 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -3,7 +3,7 @@ import itertools
 from dataclasses import dataclass
 from functools import cache
 from string import ascii_lowercase
-from typing import Callable, Iterable, assert_never, cast
+from typing import Callable, ClassVar, Iterable, assert_never, cast
 
 from ein.codegen import yarr
 from ein.midend.size_classes import (
@@ -464,6 +464,8 @@ def match_summation(expr: phi.Fold) -> tuple[Variable, phi.Expr] | None:
 
 @dataclass(frozen=True)
 class Dot:
+    MAX_PRODUCTS: ClassVar[int] = 64
+
     contract: dict[Variable, phi.Expr]
     products: tuple[tuple[phi.Expr, ...], ...]
 
@@ -528,7 +530,10 @@ class Dot:
                 return cls.lift(first) - cls.lift(second)
             case phi.Multiply((first, second)):
                 fst, snd = cls.lift(first), cls.lift(second)
-                if not (set(fst.contract) & set(snd.contract)):
+                # Distributing over sums in many factors yields exponentially many summands
+                count = len(fst.products) * len(snd.products)
+                common = set(fst.contract) & set(snd.contract)
+                if not common and count <= cls.MAX_PRODUCTS:
                     return fst * snd
         return cls.pure(expr)
 
-- 
2.43.0


From 86553ba0c64f68c9c25cb7bd59c613258ca34f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:33 +0000
Subject: [PATCH 38/42] fix: contractions of many operands with NumPy and JAX

---
 ein/backend/jax_backend.py   | 2 +-
 ein/backend/numpy_backend.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 7158f37..329da96 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -105,7 +105,7 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return jnp.repeat(target, count, axis=axis)
 
     def prepare_einsum(self, subs: str) -> Callable[..., jnp.ndarray]:
-        return lambda *args: jnp.einsum(subs, *args)
+        return lambda *args: jnp.einsum(subs, *args, optimize="auto")
 
     def fold(
         self,
diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 9700290..48316a4 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -84,7 +84,9 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
         op_subs, res_subs = subs.split("->")
         ops_subs = op_subs.split(",")
         dummy_ops = [numpy.empty((4,) * len(curr_subs)) for curr_subs in ops_subs]
-        path = numpy.einsum_path(subs, *dummy_ops, optimize="optimal")[0]
+        # Looking for the best order takes time and memory exponential in the number of operands
+        optimize = "optimal" if len(ops_subs) < 6 else "greedy"
+        path = numpy.einsum_path(subs, *dummy_ops, optimize=optimize)[0]
         return lambda *args: numpy.einsum(subs, *args, optimize=path)
 
 
-- 
2.43.0


From 8a20e3737659780f1f2e156accc598a83a5f4983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:33 +0000
Subject: [PATCH 39/42] fix: in-place operations of NumPy truncate wider
 operands

---
 ein/backend/numpy_backend.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 48316a4..843933e 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -173,15 +173,18 @@ def stage_in_array(
                 if inplace == 0:
 
                     def call_to_first(env: Env) -> numpy.ndarray:
-                        out = first(env)
-                        return call(out, second(env), out=out)
+                        out, other = first(env), second(env)
+                        # The result is wider than the temporary if the other operand is
+                        keep = out.dtype == other.dtype
+                        return call(out, other, out=out if keep else None)
 
                     return call_to_first
                 elif inplace == 1:
 
                     def call_to_second(env: Env) -> numpy.ndarray:
-                        out = second(env)
-                        return call(first(env), out, out=out)
+                        other, out = first(env), second(env)
+                        keep = out.dtype == other.dtype
+                        return call(other, out, out=out if keep else None)
 
                     return call_to_second
                 return lambda env: call(first(env), second(env))
-- 
2.43.0


From 9b8a45b5d77fb696d54192f56de2b91bdd5b1088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:33 +0000
Subject: [PATCH 40/42] fix: constants that are reversed or unaligned views
 with PyTorch

---
 ein/backend/torch_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index b5c1d83..a33a54f 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -36,6 +36,9 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
         if isinstance(value.value, torch.Tensor):
             return value.value
         array = value.array
+        # Tensors only have non-negative strides, counted in elements
+        if any(stride < 0 or stride % array.itemsize for stride in array.strides):
+            array = array.copy()
         ret = torch.from_numpy(array)
         return ret
 
-- 
2.43.0


From e5bcac92910ad93f8dd4ffe034c280ff7d5233ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:33 +0000
Subject: [PATCH 41/42] fix: positions of narrow integer types with PyTorch

---
 ein/backend/torch_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index a33a54f..a863c1b 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -70,7 +70,7 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     ) -> torch.Tensor:
         target = readable(target, axis)
         return torch.take_along_dim(
-            target, torch.clip(item, 0, target.shape[axis] - 1), axis
+            target, torch.clip(item.long(), 0, target.shape[axis] - 1), axis
         )
 
     def take(
@@ -81,7 +81,7 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
                 target = readable(target, axis)
         SLICE_NONE = slice(None)
         it = (
-            torch.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
+            torch.clip(item.long(), 0, dim - 1) if item is not None else SLICE_NONE
             for dim, item in zip(target.shape, items)
         )
         return target[*it]
-- 
2.43.0


From c2095ce160a8e788f17359d798aefad0b73efc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:33 +0000
Subject: [PATCH 42/42] fix: contractions of operands of different widths with
 PyTorch

---
 ein/backend/torch_backend.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index a863c1b..149928e 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -1,4 +1,4 @@
-from functools import cache
+from functools import cache, reduce
 from typing import Any, Callable, Optional, Sequence, TypeAlias, cast
 
 import numpy
@@ -109,6 +109,11 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
 
     def prepare_einsum(self, subs: str) -> Callable[..., torch.Tensor]:
         def einsum(*args: torch.Tensor) -> torch.Tensor:
+            # Unlike elementwise operations, contractions don't promote their operands
+            dtypes = {arg.dtype for arg in args}
+            if len(dtypes) > 1:
+                dtype = reduce(torch.promote_types, dtypes)
+                args = tuple(arg.to(dtype) for arg in args)
             # opt_einsum cannot plan contractions of arrays without any elements
             if len(args) > 2 and any(0 in arg.shape for arg in args):
                 from torch.backends import opt_einsum
-- 
2.43.0

