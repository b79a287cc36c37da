From dd09025a8030a563ac56ebbb9042572852c1beb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 01/31] fix: Angle stays within (-pi, pi] as documented

---
 src/mpllayout/constructions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 839b7fd..2ebbcc7 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1018,9 +1018,10 @@ class Angle(LeafConstruction, _LineLineSignature):
         line0, line1 = prims
         dir0 = UnitLineVector.assem((line0,))
         dir1 = UnitLineVector.assem((line1,))
-        angle0 = jnp.arctan2(dir0[1], dir0[0])
-        angle1 = jnp.arctan2(dir1[1], dir1[0])
-        return angle1 - angle0
+        # These are the cosine and sine of the angle from `dir0` to `dir1`
+        cos = jnp.dot(dir0, dir1)
+        sin = dir0[0] * dir1[1] - dir0[1] * dir1[0]
+        return jnp.arctan2(sin, cos)
 
 
 ## Point and Line constructions
-- 
2.43.0


From b4e5ecad3e322188ae56436d04a30958c51d31a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 02/31] fix: evaluate the second operand of a sum on its own
 primitives

---
 src/mpllayout/constructions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 2ebbcc7..bab467e 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1634,9 +1634,15 @@ def transform_sum(cons_a: TCons, cons_b: TCons) -> ConstructionNode:
         concat_params, split_params = cat_split_params
 
         # Build the sum construction `ConstructionValue` tuple
+        # The primitives of `cons_b` come after those of `cons_a`
+        arg_keys_b = tuple(
+            f"arg{n + len(signature_a.prim_types)}"
+            for n, _ in enumerate(signature_b.prim_types)
+        )
         sum_child_prim_keys = tuple(
-            concat_prims(prim_keys_a, prim_keys_b) for prim_keys_a, prim_keys_b
-            in zip(value_a.child_prim_keys, value_b.child_prim_keys)
+            concat_prims(tuple(prim_keys_a), tuple(prim_keys_b))
+            for prim_keys_a, prim_keys_b
+            in zip(value_a.child_prim_keys, cons_b.child_prim_keys(arg_keys_b))
         )
 
         def sum_child_params(sum_params: Params) -> tuple[Params, ...]:
-- 
2.43.0


From d3f84c85f2ce1778d16e009328e20a8a1b50d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 03/31] fix: let a Scalar be multiplied by a constant

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index bab467e..f10784e 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -445,7 +445,7 @@ class ConstructionNode(Node[ConstructionValue]):
         return transform_sum(other, self)
 
     def __mul__(self, other: "float | Scalar"):
-        if isinstance(self, Scalar):
+        if isinstance(self, Scalar) and isinstance(other, ConstructionNode):
             return transform_scalar_mul(other, self)
         else:
             return transform_scalar_mul(self, other)
-- 
2.43.0


From bacd20f32d133679686277614d51cbe28671c684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 04/31] fix: constraints from compound constructions use every
 element of their target

---
 src/mpllayout/constructions.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index f10784e..d57c9f6 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -636,18 +636,17 @@ class Vector(Construction, _NullSignature):
         prim_keys = num_child*((),)
 
         child_cumsizes = tuple(node.value for _, node in cumsize_node.items())
-        child_sizes = tuple(node.value for _, node in size_node.items())
 
         def child_params(params: Params) -> tuple[Params, ...]:
             value, = params
 
-            if isinstance(value, (float, int)):
+            if np.ndim(value) == 0:
                 value = value* np.ones(cumsize_node.value)
 
+            # The vector's own values come first, followed by those of each child
             return tuple(
-                (child_value[:size],)
-                for child_value, size
-                in zip(chunk(value, child_cumsizes), child_sizes)
+                (child_value,)
+                for child_value in chunk(value[size_node.value:], child_cumsizes)
             )
 
         return (keys, constructions, prim_keys, child_params)
@@ -656,6 +655,15 @@ class Vector(Construction, _NullSignature):
     def init_signature(cls, size_node: Optional[Node[int]]=None):
         return cls.make_signature(size_node.value, (np.ndarray,))
 
+    def assem_atleast_1d(self, prims: Prims, *params: Params) -> NDArray:
+        # `assem` returns the vector of this node and all children
+        value = self.assem(prims, *params)
+        size = self.signature.value_size
+        if jnp.ndim(value) == 0:
+            return jnp.full(size, value)
+        else:
+            return value[:size]
+
     @classmethod
     def assem(cls, prims: tuple[()], value: float | NDArray):
         # FIXME: Does this work for an empty root node???
@@ -1662,7 +1670,10 @@ def transform_sum(cons_a: TCons, cons_b: TCons) -> ConstructionNode:
             def assem(cls, sum_prims: Prims, *sum_params: Params) -> NDArray:
                 prims_a, prims_b = split_prims(sum_prims)
                 params_a, params_b = split_params(sum_params)
-                return cons_a.assem(prims_a, *params_a) + cons_b.assem(prims_b, *params_b)
+                return (
+                    cons_a.assem_atleast_1d(prims_a, *params_a)
+                    + cons_b.assem_atleast_1d(prims_b, *params_b)
+                )
 
         return SumConstruction, node_value, sum_child_keys
 
-- 
2.43.0


From aa256b689639769db78f3bb27a308cbecb056ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 05/31] fix: partial application with nothing to freeze keeps
 all parameters

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index d57c9f6..485b209 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1845,7 +1845,7 @@ def transform_partial(cons: TCons, *freeze_params: tuple[Param, ...]):
         return child_params(params)
 
     partial_sig = ConstructionSignature(
-        prim_types, param_types[:-len(freeze_params)], value_size
+        prim_types, param_types[:len(param_types)-len(freeze_params)], value_size
     )
 
     partial_value = ConstructionValue(
-- 
2.43.0


From 3968c583a29f33d0202af2a85ac189a0d45c1f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 06/31] fix: membership of a missing path is False instead of
 an error

---
 src/mpllayout/containers.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index bee6167..d679d65 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -162,14 +162,12 @@ class Node(Generic[TValue]):
         return self.children.__iter__()
 
     def __contains__(self, key: str) -> bool:
-        split_keys = key.split("/", 1)
-        parent_key = split_keys[0]
-        child_key = "/".join(split_keys[1:])
-
-        if child_key == "":
-            return parent_key in self.children
+        try:
+            self.get_child(key)
+        except KeyError:
+            return False
         else:
-            return child_key in self[parent_key]
+            return True
 
     def __len__(self) -> int:
         return len(self.children)
-- 
2.43.0


From 3d391f644e81fd179b5732ae79521a87036b6a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 07/31] fix: preserve the order of children when jax flattens a
 tree

---
 src/mpllayout/containers.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index d679d65..f605123 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -502,19 +502,21 @@ def unflatten(
 ## pytree flattening/unflattening implementation
 # These functions register `Node` classes as a `jax.pytree` so jax can flatten/unflatten
 # them
-FlatNode = tuple[TValue, dict[str, TNode]]
+FlatNode = tuple[TValue, *tuple[TNode, ...]]
 AuxData = Any
 
 def _make_flatten_unflatten(node_type: type[TNode]):
 
     def _flatten_node(node: TNode) -> tuple[FlatNode, AuxData]:
-        flat_node = (node.value, node.children)
-        aux_data = None
+        # `jax` sorts the keys of a dictionary so store them separately to
+        # preserve the order of children
+        flat_node = (node.value, *node.values())
+        aux_data = tuple(node.keys())
         return (flat_node, aux_data)
 
     def _unflatten_node(aux_data: AuxData, flat_node: FlatNode) -> TNode:
-        value, children = flat_node
-        return node_type.from_tree(value, children)
+        value, *children = flat_node
+        return node_type.from_tree(value, dict(zip(aux_data, children)))
 
     return _flatten_node, _unflatten_node
 
-- 
2.43.0


From b12c76963aa5103277156142628207d7188cb9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 08/31] fix: reject primitives with the wrong number of parts

---
 src/mpllayout/primitives.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index 20aae2b..4a0fb09 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -188,6 +188,10 @@ class Primitive(PrimitiveNode):
             prims = self.default_prims(**kwargs)
 
         child_keys, child_prims = self.init_children(prims, **kwargs)
+        if len(child_keys) != len(child_prims):
+            raise ValueError(
+                f"Invalid `prims` must be {len(child_keys)} not {len(child_prims)}"
+            )
 
         super().__init__(
             value, {key: prim for key, prim in zip(child_keys, child_prims)}
-- 
2.43.0


From 670b24e46bfefa2acaeb615d35ddb82076151eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 09/31] fix: reject parameter arrays that are not vectors of
 the right size

---
 src/mpllayout/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index 4a0fb09..1f7f132 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -117,7 +117,7 @@ class PrimitiveNode(cn.Node[NDArray[np.float64]]):
         )
         param_size, prim_type_sig = self.signature
 
-        assert len(value) == param_size
+        assert value.shape == (param_size,)
 
         prims = [cprim for _, cprim in children.items()]
         if isinstance(prim_type_sig, tuple):
-- 
2.43.0


From 399920049ff008388e27344f2369f04644ecdaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 10/31] fix: reject child primitives given to a point

---
 src/mpllayout/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index 1f7f132..7cff7c0 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -293,7 +293,7 @@ class Point(StaticPrimitive):
 
     @classmethod
     def init_children(cls, prims):
-        return (), ()
+        return (), prims
 
     @classmethod
     def default_value(cls):
-- 
2.43.0


From 080eec44512f5a56657acdeb57637a62d714f24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 11/31] fix: primitives own a copy of the given parameter
 vector

---
 src/mpllayout/primitives.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index 7cff7c0..9838977 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -112,6 +112,9 @@ class PrimitiveNode(cn.Node[NDArray[np.float64]]):
 
         # Type checks that value is an array and children are prims
         assert isinstance(value, np.ndarray)
+        # Primitives are identified by their parameter vector so don't share
+        # the array with the caller (see `filter_unique_values_from_prim`)
+        value = value.copy()
         assert all(
             isinstance(cprim, PrimitiveNode) for _, cprim in children.items()
         )
@@ -177,10 +180,8 @@ class Primitive(PrimitiveNode):
     ):
         if value is None:
             value = self.default_value(**kwargs)
-        elif isinstance(value, (list, tuple)):
+        elif isinstance(value, (list, tuple, np.ndarray, jax.numpy.ndarray)):
             value = np.array(value)
-        elif isinstance(value, (np.ndarray, jax.numpy.ndarray)):
-            value = value
         else:
             raise TypeError()
 
-- 
2.43.0


From e589078f37bc1e228e014d71ea6190f6563239e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 12/31] fix: solve layouts without constraints

---
 src/mpllayout/solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/solver.py b/src/mpllayout/solver.py
index 8a93d6f..8a2262b 100644
--- a/src/mpllayout/solver.py
+++ b/src/mpllayout/solver.py
@@ -116,7 +116,8 @@ def solve_newton(
         residuals = assem_constraint_residual(
             root_prim, constraints, constraint_graph, constraint_params
         )
-        return jnp.concatenate(residuals)
+        # The empty array handles layouts without constraints
+        return jnp.concatenate([jnp.zeros(0), *residuals])
 
     assem_global_jac = jax.jacfwd(assem_global_res)
 
@@ -204,7 +205,8 @@ def solve_minimize(
         residuals = assem_constraint_residual(
             root_prim, constraints, constraint_graph, constraint_params
         )
-        return jnp.sum(jnp.concatenate(residuals)**2)
+        # The empty array handles layouts without constraints
+        return jnp.sum(jnp.concatenate([jnp.zeros(0), *residuals])**2)
 
     class MinHistory:
 
-- 
2.43.0


From c57429f73e80b3237d3b9a264ddd54839fb60a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:02 +0000
Subject: [PATCH 13/31] fix: report residual norms from solve_minimize

---
 src/mpllayout/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/solver.py b/src/mpllayout/solver.py
index 8a2262b..433d067 100644
--- a/src/mpllayout/solver.py
+++ b/src/mpllayout/solver.py
@@ -215,7 +215,8 @@ def solve_minimize(
             self.rel_errs = []
 
         def callback(self, intermediate_result: OptimizeResult):
-            abs_err = intermediate_result['fun']
+            # The objective is the squared 2-norm of the residual
+            abs_err = np.sqrt(intermediate_result['fun'])
             self.abs_errs.append(abs_err)
 
             rel_err = abs_err / self.abs_errs[0]
-- 
2.43.0


From 55c4f6645cdff8a15b0dad7476a2c9319e8a9ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 14/31] fix: declare the right output size of CoincidentLines

---
 src/mpllayout/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 66c25ea..42c0a4f 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -448,7 +448,7 @@ class CoincidentLines(con.LeafConstruction, con._LineLineSignature):
 
     @classmethod
     def init_signature(cls):
-        return cls.make_signature(2, (bool,))
+        return cls.make_signature(4, (bool,))
 
     @classmethod
     def assem(cls, prims: tuple[pr.Line, pr.Line], reverse: bool):
-- 
2.43.0


From c2507b8ef6945cf4a37cfcb715a5b4390e053fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 15/31] fix: check the number of primitive keys of child
 constructions

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 485b209..9345a38 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -176,7 +176,7 @@ class ConstructionNode(Node[ConstructionValue]):
             for (key, prim_types), prim_keys
             in zip(child_prim_types.items(), value.child_prim_keys)
         }
-        if not all(valid_child_prim_keys):
+        if not all(valid_child_prim_keys.values()):
             invalid_cons_keys = {
                 key for key, valid in valid_child_prim_keys.items() if not valid
             }
-- 
2.43.0


From 6437cf25f4aa800c4e4f3a9bae428aed28b9adfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 16/31] fix: look up categories in ItemCounter.__contains__

---
 src/mpllayout/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index f605123..4549319 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -277,7 +277,7 @@ class ItemCounter(Generic[TItem]):
         return self._category_counts
 
     def __contains__(self, key):
-        return key in self._p
+        return key in self.category_counts
 
     def categorize(self, item: TItem) -> str:
         """
-- 
2.43.0


From 53a68ffaaf7fb0ed06ce05fcf03d16714f0a9edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 17/31] fix: keep the layout unchanged when a constraint can
 not be added

---
 src/mpllayout/layout.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 8df961c..3a3af9b 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -205,9 +205,13 @@ class Layout:
         except TypeError as exc:
             raise RuntimeError(f"Wrong parameters {param} for constraint {type(constraint)}\n{exc}") from exc
 
+        # Build the records first so that an error here leaves the layout unchanged
+        root_prim_keys = constraint.root_prim_keys(prim_keys)
+        root_param = constraint.root_params(param)
+
         self.root_constraint.add_child(key, constraint)
-        self.root_prim_keys.add_child(key, constraint.root_prim_keys(prim_keys))
-        self.root_param.add_child(key, constraint.root_params(param))
+        self.root_prim_keys.add_child(key, root_prim_keys)
+        self.root_param.add_child(key, root_param)
 
 def update_layout_constraints(
     layout: Layout,
-- 
2.43.0


From 7f67b7666d73c56e179a1ffc18a5874c6969a8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 18/31] fix: find the axes of nested axis primitives in
 update_layout_constraints

---
 src/mpllayout/layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 3a3af9b..4f77d5a 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -250,12 +250,12 @@ def update_layout_constraints(
 
             if isinstance(constraint, cr.XAxisThickness):
                 axis_key, = prim_keys.value
-                axes_key = axis_key.split("/", 1)[0]
+                axes_key = axis_key.rsplit("/", 1)[0]
                 constraintkey_to_param[key] = (axs[axes_key].xaxis,)
 
             if isinstance(constraint, cr.YAxisThickness):
                 axis_key, = prim_keys.value
-                axes_key = axis_key.split("/", 1)[0]
+                axes_key = axis_key.rsplit("/", 1)[0]
                 constraintkey_to_param[key] = (axs[axes_key].yaxis,)
 
     new_root_param = update_root_param(
-- 
2.43.0


From 39632572bd45fcb2ca8455e5965728b9de0741cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 19/31] fix: don't share root nodes between a layout and its
 update

---
 src/mpllayout/layout.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 4f77d5a..f77ef4f 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -264,10 +264,14 @@ def update_layout_constraints(
         constraintkey_to_param
     )
 
+    # Copy the root nodes so that later additions to one layout don't affect the other
+    def copy_root(root):
+        return root.from_tree(root.value, root.children.copy())
+
     return Layout(
-        layout.root_prim,
-        layout.root_constraint,
-        layout.root_prim_keys,
+        copy_root(layout.root_prim),
+        copy_root(layout.root_constraint),
+        copy_root(layout.root_prim_keys),
         new_root_param
     )
 
-- 
2.43.0


From e0be2bda3c7cbc5c613d3cc91fb9e64061cac713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 20/31] fix: restore the axis label visibility when measuring
 an axis fails

---
 src/mpllayout/constraints.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 42c0a4f..f338437 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -641,7 +641,10 @@ def get_axis_thickness(axis: XAxis | YAxis, side: str):
     label_visibility = axis.label.get_visible()
     axis.label.set_visible(False)
 
-    axis_bbox = axis.get_tightbbox()
+    try:
+        axis_bbox = axis.get_tightbbox()
+    finally:
+        axis.label.set_visible(label_visibility)
 
     if axis_bbox is None:
         dim = 0
@@ -661,8 +664,6 @@ def get_axis_thickness(axis: XAxis | YAxis, side: str):
         else:
             raise ValueError()
 
-    axis.label.set_visible(label_visibility)
-
     return dim
 
 
-- 
2.43.0


From 8046ed8fee954d3e087c122f0a7f22a6337b70a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 21/31] fix: apply the axes aspect before measuring the axis
 thickness

---
 src/mpllayout/constraints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index f338437..5893f71 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -637,6 +637,9 @@ class AspectRatio(con.ConstructionNode):
 
 def get_axis_thickness(axis: XAxis | YAxis, side: str):
 
+    # This also applies the axes aspect, which affects where the ticks are
+    axes_bbox = axis.axes.get_position()
+
     # Ignore the axis label in the height by temporarily making it invisible
     label_visibility = axis.label.get_visible()
     axis.label.set_visible(False)
@@ -651,7 +654,6 @@ def get_axis_thickness(axis: XAxis | YAxis, side: str):
     else:
         axis_bbox = axis_bbox.transformed(axis.axes.figure.transFigure.inverted())
         fig_width, fig_height = axis.axes.figure.get_size_inches()
-        axes_bbox = axis.axes.get_position()
 
         if axis.get_ticks_position() == "bottom":
             dim = fig_height * (axes_bbox.ymin - axis_bbox.ymin)
-- 
2.43.0


From c482b88ef35809d9a33301606aeb46c3243ce825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 22/31] fix: place axis labels relative to the figure origin

---
 src/mpllayout/matplotlibutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/matplotlibutils.py b/src/mpllayout/matplotlibutils.py
index fb2323b..7f69e77 100644
--- a/src/mpllayout/matplotlibutils.py
+++ b/src/mpllayout/matplotlibutils.py
@@ -114,7 +114,7 @@ def update_subplots(
             axis_label = f"{axis_prefix}AxisLabel"
             if axis_label in root_prim[key]:
                 axis_label_point: pr.Point = root_prim[f"{key}/{axis_label}"]
-                label_coords = axis_label_point.value
+                label_coords = axis_label_point.value - fig_origin
                 axis.set_label_coords(
                     *(label_coords / fig_size), transform=fig.transFigure
                 )
-- 
2.43.0


From cfb2349a871a2540ea9bd726cc67072180482c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 23/31] fix: rotate labels along lines that point down

---
 src/mpllayout/ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/ui.py b/src/mpllayout/ui.py
index dd212b1..ccef777 100644
--- a/src/mpllayout/ui.py
+++ b/src/mpllayout/ui.py
@@ -48,7 +48,7 @@ def rotation_from_line(line: pr.Line) -> float:
     # Since `unit_vec` has unit length, the x-component is the cosine
     theta = 180/np.pi * np.arccos(unit_vec[0])
     if unit_vec[1] < 0:
-        theta = theta + 180
+        theta = 360 - theta
 
     return theta
 
-- 
2.43.0


From 051313cd2e8ecf3e39a5fc28a10672b2cc2d817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 24/31] fix: plot polygons without a given alpha

---
 src/mpllayout/ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/ui.py b/src/mpllayout/ui.py
index ccef777..0795a8c 100644
--- a/src/mpllayout/ui.py
+++ b/src/mpllayout/ui.py
@@ -99,7 +99,7 @@ def plot_polygon(ax: Axes, polygon: pr.Polygon, label: Optional[str]=None, **kwa
     ]
     verts = np.array([point.value for point in points])
     patch_kwargs = kwargs.copy()
-    patch_kwargs['alpha'] = 0.1*kwargs['alpha']
+    patch_kwargs['alpha'] = 0.1*kwargs.get('alpha', 1.0)
     poly_patch = Polygon(verts, closed=True, **patch_kwargs)
     ax.add_patch(poly_patch)
 
-- 
2.43.0


From 16dea1cf85ac0fbbf51a98d400b4b023d2b708c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:15 +0000
Subject: [PATCH 25/31] fix: axes that draw no axis have no thickness

---
 src/mpllayout/constraints.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 5893f71..a9533ed 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -649,6 +649,10 @@ def get_axis_thickness(axis: XAxis | YAxis, side: str):
     finally:
         axis.label.set_visible(label_visibility)
 
+    # Axes that are hidden or switched off (`axes.axis("off")`) draw no ticks
+    if not (axis.axes.axison and axis.axes.get_visible()):
+        axis_bbox = None
+
     if axis_bbox is None:
         dim = 0
     else:
-- 
2.43.0


From d98e4d4e8772e840f8464c254a6e0990733b01ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:02 +0000
Subject: [PATCH 26/31] fix: keep node types when copying trees

---
 src/mpllayout/containers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index 4549319..2faf21c 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -142,9 +142,7 @@ class Node(Generic[TValue]):
             self.children[key] = child
 
     def copy(self):
-        def identity(value: TValue) -> TValue:
-            return value
-        return map(identity, self)
+        return unflatten(flatten('', self))[0]
 
     ## String methods
 
-- 
2.43.0


From 2c16e92a3e5a0ac8b3b77c6303415b9ccfa3714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:06 +0000
Subject: [PATCH 27/31] fix: multiply constructions by numpy scalars on the
 left

---
 src/mpllayout/constructions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 9345a38..c59b63b 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -432,6 +432,9 @@ class ConstructionNode(Node[ConstructionValue]):
 
     ## Special methods
 
+    # This makes `numpy` scalars on the left defer to the methods below
+    __array_ufunc__ = None
+
     def __neg__(self):
         return transform_scalar_mul(self, -1.0)
 
-- 
2.43.0


From 73544805d9c7c18abfa65b7a73330b3f385d42bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:06 +0000
Subject: [PATCH 28/31] fix: divide constructions by numpy integers

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index c59b63b..f40c527 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1762,7 +1762,7 @@ def transform_scalar_div(
     if not isinstance(scalar, Scalar):
         scalar = transform_partial(Scalar(), scalar)
 
-    return transform_scalar_mul(cons, transform_scalar_pow(scalar, -1))
+    return transform_scalar_mul(cons, transform_scalar_pow(scalar, -1.0))
 
 
 def transform_scalar_pow(
-- 
2.43.0


From 070120059e9d43377864fdb8aa7eab64639a3cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:37 +0000
Subject: [PATCH 29/31] fix: store primitive parameters as floats

---
 src/mpllayout/primitives.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index 9838977..7402e0e 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -113,8 +113,9 @@ class PrimitiveNode(cn.Node[NDArray[np.float64]]):
         # Type checks that value is an array and children are prims
         assert isinstance(value, np.ndarray)
         # Primitives are identified by their parameter vector so don't share
-        # the array with the caller (see `filter_unique_values_from_prim`)
-        value = value.copy()
+        # the array with the caller (see `filter_unique_values_from_prim`).
+        # Store floats because measurements of other types (integers, ...) overflow
+        value = value.astype(np.float64)
         assert all(
             isinstance(cprim, PrimitiveNode) for _, cprim in children.items()
         )
-- 
2.43.0


From cffa07bfb39d3c5d5e15ffa0f858c1a4297b4637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:34 +0000
Subject: [PATCH 30/31] fix: validate the parameters of every child
 construction

---
 src/mpllayout/constructions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index f40c527..f02ddd4 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -356,6 +356,7 @@ class ConstructionNode(Node[ConstructionValue]):
         root_params: ParamsNode
             A tree of params
         """
+        self.validate_params(params)
         children_params = self.child_params(params)
         children = {
             key: child.root_params(child_params)
-- 
2.43.0


From e59af2f8eabcdcbab1b483f5146de21301ffe5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:23 +0000
Subject: [PATCH 31/31] fix: accept a number as the shape of OuterMarginArray

---
 src/mpllayout/constraints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index a9533ed..4bdf339 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -810,7 +810,9 @@ class OuterMarginArray(con.CompoundConstruction):
     assem(prims: tuple[pr.Quadrilateral, ...])
     """
 
-    def __init__(self, shape: tuple[int, ...], side: Literal['bottom', 'top', 'left', 'right']):
+    def __init__(self, shape: int | tuple[int, ...], side: Literal['bottom', 'top', 'left', 'right']):
+        if isinstance(shape, int):
+            shape = (shape,)
         super().__init__(shape=shape, side=side)
 
     @classmethod
-- 
2.43.0

