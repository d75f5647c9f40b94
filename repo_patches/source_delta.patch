From f11d7d75a592f50fa4ba9e1d00d0f989d1eb9652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:54 +0000
Subject: [PATCH 01/79] fix: keep samples of rescaled real variables inside
 their bounds

---
 bayes_optim/search_space/search_space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index a01926f..53644c7 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -751,7 +751,9 @@ class RealSpace(SearchSpace):
                 X = (ub - lb) * lhs(self.dim, samples=N, criterion="maximin") + lb
         elif method == "sobol":
             X = (ub - lb) * i4_sobol_generate(self.dim, N) + lb
-        return self.round(self.to_linear_scale(X))
+        # NOTE: the inverse transformation might exceed the bounds due to the rounding error
+        lower, upper = zip(*[var.bounds for var in self.data])
+        return self.round(np.clip(self.to_linear_scale(X), lower, upper))
 
     def round(self, X: Union[np.ndarray, List[List]]) -> np.ndarray:
         X = np.atleast_2d(X).astype(float)
-- 
2.43.0


From 818f108166079029dc710364f9a5ae24e466436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:42 +0000
Subject: [PATCH 02/79] fix: Node.remove and Node.deepcopy keep the nodes that
 are not listed

The conditional expression was parsed as part of the first lambda, so that without
`invert` every node counted as listed and the whole tree was dropped.
---
 bayes_optim/search_space/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/node.py b/bayes_optim/search_space/node.py
index 7e5d8aa..d970980 100644
--- a/bayes_optim/search_space/node.py
+++ b/bayes_optim/search_space/node.py
@@ -100,7 +100,7 @@ class Node:
         Node
             the updated root node
         """
-        op = lambda e, S: e not in S if invert else lambda e, S: e in S
+        op = (lambda e, S: e not in S) if invert else (lambda e, S: e in S)
         if op(self.name, node_names):
             return None
         node = Node(self.name, deepcopy(self.data))
-- 
2.43.0


From 013e72f54520fb79daef665e78985b43e03bc9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:42 +0000
Subject: [PATCH 03/79] fix: do not duplicate variable conditions when a
 structure is given

Slicing, popping or removing added the condition of each variable a second time, and the
structure dictionary of the caller was modified.
---
 bayes_optim/search_space/search_space.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 53644c7..d21b697 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -180,7 +180,7 @@ class SearchSpace:
             for t in structure:
                 _structure.update(t.to_dict())
         elif isinstance(structure, dict):
-            _structure = structure
+            _structure = {k: list(v) for k, v in structure.items()}
         # scan for all conditions defined in variables
         for var in self.data:
             if not hasattr(var, "conditions") or var.conditions is None:
@@ -189,9 +189,11 @@ class SearchSpace:
             key = var.conditions["vars"][0]
             if key not in var.conditions["vars"]:
                 raise ValueError(f"variable {var} not in {self}")
-            _structure.setdefault(key, []).append(
-                {"name": var.name, "condition": var.conditions["string"]}
-            )
+            children = _structure.setdefault(key, [])
+            # `structure` might already contain the condition, e.g., when slicing a space
+            child = {"name": var.name, "condition": var.conditions["string"]}
+            if child not in children:
+                children.append(child)
         self.structure = [t.remove(self.var_name, invert=True) for t in Node.from_dict(_structure)]
         self.structure = [t for t in self.structure if t]
 
-- 
2.43.0


From bbc08c7d3ff78b781f0f32bcfb27eca1533d7937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:42 +0000
Subject: [PATCH 04/79] fix: categorical_mask includes and no longer overwrites
 subset_mask

---
 bayes_optim/search_space/search_space.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index d21b697..e735c54 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -228,9 +228,8 @@ class SearchSpace:
             self.categorical_id = np.r_[
                 self.discrete_id, self.ordinal_id, self.bool_id, self.subset_id
             ]
-            self.categorical_mask = np.bitwise_or(
-                self.bool_mask,
-                np.bitwise_or(self.discrete_mask, self.ordinal_mask, self.subset_mask),
+            self.categorical_mask = np.logical_or.reduce(
+                [self.bool_mask, self.discrete_mask, self.ordinal_mask, self.subset_mask]
             )
 
     def _set_levels(self):
-- 
2.43.0


From d4cc449fe6984a715cedb57bc7a113ffd84f8413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:42 +0000
Subject: [PATCH 05/79] fix: SearchSpace.from_dict honours `default` and the
 step of every variable

The key was misspelt, and `pop` changed the input and lost the step for N > 1.
---
 bayes_optim/search_space/search_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index e735c54..326b6b1 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -646,7 +646,7 @@ class SearchSpace:
                 bounds = ()
 
             N = range(int(v["N"])) if "N" in v else range(1)
-            default_value = v["defualt"] if "default" in v else None
+            default_value = v["default"] if "default" in v else None
             try:
                 if v["type"] in ["r", "real"]:  # real-valued parameter
                     precision = v["precision"] if "precision" in v else None
@@ -663,7 +663,7 @@ class SearchSpace:
                     ]
                 elif v["type"] in ["i", "int", "integer"]:  # integer-valued parameter
                     _vars = [
-                        Integer(bounds, name=k, default_value=default_value, step=v.pop("step", 1))
+                        Integer(bounds, name=k, default_value=default_value, step=v.get("step", 1))
                         for _ in N
                     ]
                 elif v["type"] in ["o", "ordinal"]:  # ordinal parameter
-- 
2.43.0


From 1e88d408afbf1c69717ba84fa6457440384f9707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:42 +0000
Subject: [PATCH 06/79] fix: SearchSpace.from_dict reports invalid variables
 instead of dropping them

An invalid entry was skipped silently, or replaced by the variables of the previous entry.
---
 bayes_optim/search_space/search_space.py | 59 ++++++++++++------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 326b6b1..f82e9a0 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -647,36 +647,35 @@ class SearchSpace:
 
             N = range(int(v["N"])) if "N" in v else range(1)
             default_value = v["default"] if "default" in v else None
-            try:
-                if v["type"] in ["r", "real"]:  # real-valued parameter
-                    precision = v["precision"] if "precision" in v else None
-                    scale = v["scale"] if "scale" in v else "linear"
-                    _vars = [
-                        Real(
-                            bounds,
-                            name=k,
-                            default_value=default_value,
-                            precision=precision,
-                            scale=scale,
-                        )
-                        for _ in N
-                    ]
-                elif v["type"] in ["i", "int", "integer"]:  # integer-valued parameter
-                    _vars = [
-                        Integer(bounds, name=k, default_value=default_value, step=v.get("step", 1))
-                        for _ in N
-                    ]
-                elif v["type"] in ["o", "ordinal"]:  # ordinal parameter
-                    _vars = [Ordinal(bounds, name=k, default_value=default_value) for _ in N]
-                elif v["type"] in ["c", "cat"]:  # category-valued parameter
-                    _vars = [Discrete(bounds, name=k, default_value=default_value) for _ in N]
-                elif v["type"] in ["s", "subset"]:  # subset parameter
-                    _vars = [Subset(bounds, name=k, default_value=default_value) for _ in N]
-                elif v["type"] in ["b", "bool"]:  # Boolean-valued
-                    _vars = [Bool(name=k, default_value=default_value) for _ in N]
-                variables += _vars
-            except:
-                print(param)
+            if v["type"] in ["r", "real"]:  # real-valued parameter
+                precision = v["precision"] if "precision" in v else None
+                scale = v["scale"] if "scale" in v else "linear"
+                _vars = [
+                    Real(
+                        bounds,
+                        name=k,
+                        default_value=default_value,
+                        precision=precision,
+                        scale=scale,
+                    )
+                    for _ in N
+                ]
+            elif v["type"] in ["i", "int", "integer"]:  # integer-valued parameter
+                _vars = [
+                    Integer(bounds, name=k, default_value=default_value, step=v.get("step", 1))
+                    for _ in N
+                ]
+            elif v["type"] in ["o", "ordinal"]:  # ordinal parameter
+                _vars = [Ordinal(bounds, name=k, default_value=default_value) for _ in N]
+            elif v["type"] in ["c", "cat"]:  # category-valued parameter
+                _vars = [Discrete(bounds, name=k, default_value=default_value) for _ in N]
+            elif v["type"] in ["s", "subset"]:  # subset parameter
+                _vars = [Subset(bounds, name=k, default_value=default_value) for _ in N]
+            elif v["type"] in ["b", "bool"]:  # Boolean-valued
+                _vars = [Bool(name=k, default_value=default_value) for _ in N]
+            else:
+                raise ValueError(f"type {v['type']} of variable {k} is not supported")
+            variables += _vars
         return SearchSpace(variables)
 
     @classmethod
-- 
2.43.0


From edd256b0e69d77e516c00e225f16c4de031c837a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:42 +0000
Subject: [PATCH 07/79] fix: SearchSpace.update works with any number of shared
 or new variables

Names were compared element-wise between arrays of different lengths.
---
 bayes_optim/search_space/search_space.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index f82e9a0..00d144f 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -483,18 +483,11 @@ class SearchSpace:
         space : SearchSpace
             the input space for the update
         """
-        _var_name = space.var_name
-        _update = np.array(list(set(_var_name) & set(self.var_name)))
-        _add = np.array(list(set(_var_name) - set(self.var_name)))
-
-        _index_update_to = np.nonzero(np.array(self._var_name) == _update)[0]
-        _index_update_from = np.nonzero(np.array(_var_name) == _update)[0]
-        for i, k in enumerate(_index_update_to):
-            j = _index_update_from[i]
-            self.data[k] = deepcopy(space.data[j])
-
-        _index_add = np.nonzero(np.array(_var_name) == _add)[0]
-        self.data += [space.data[i] for i in _index_add]
+        for name, var in zip(space.var_name, space.data):
+            if name in self._var_name:
+                self.data[self._var_name.index(name)] = deepcopy(var)
+            else:
+                self.data.append(deepcopy(var))
         self._set_data(self.data)
         return SearchSpace.__set_type(self)
 
-- 
2.43.0


From 4625e93afdb03f1ceba0086e502233a201e06188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:42 +0000
Subject: [PATCH 08/79] fix: SearchSpace.__imul__ with 1 leaves the space as it
 is

---
 bayes_optim/search_space/search_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 00d144f..1ff4a5c 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -399,7 +399,7 @@ class SearchSpace:
             `self`
         """
         self._set_data(
-            self.data + [deepcopy(var) for _ in range(max(1, int(N - 1))) for var in self.data]
+            self.data + [deepcopy(var) for _ in range(max(1, int(N)) - 1) for var in self.data]
         )
         return self
 
-- 
2.43.0


From 62c3f247292684f655f5c51838ab96b428e7df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:42 +0000
Subject: [PATCH 09/79] fix: variables that compare equal have equal hashes

The hash depends on precision, scale and step, which equality ignored.
---
 bayes_optim/search_space/variable.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bayes_optim/search_space/variable.py b/bayes_optim/search_space/variable.py
index 8a4a41b..d4dccfb 100644
--- a/bayes_optim/search_space/variable.py
+++ b/bayes_optim/search_space/variable.py
@@ -196,6 +196,9 @@ class Real(Variable):
         self.precision: int = precision
         self.scale = scale
 
+    def __eq__(self, var: Variable) -> bool:
+        return super().__eq__(var) and self.precision == var.precision and self.scale == var.scale
+
     def __hash__(self):
         return hash((self.name, self.bounds, self.default_value, self.precision, self.scale))
 
@@ -333,6 +336,9 @@ class Integer(_Discrete):
     def __contains__(self, x: int) -> bool:
         return self.bounds[0] <= x <= self.bounds[1]
 
+    def __eq__(self, var: Variable) -> bool:
+        return super().__eq__(var) and self.step == var.step
+
     def __hash__(self):
         return hash((self.name, self.bounds, self.default_value, self.step))
 
-- 
2.43.0


From b5ad65132f66f096e648205e4213efb1cb9a2cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:42 +0000
Subject: [PATCH 10/79] fix: renaming duplicated variables never produces a
 name already in use

---
 bayes_optim/search_space/search_space.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 1ff4a5c..5e3624b 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -164,12 +164,15 @@ class SearchSpace:
     def _check_data(self, data):
         assert all([isinstance(d, self._supported_types) for d in data])
         names = np.asarray([var.name for var in data])
+        used = set(names)
         for name, count in Counter(names).items():
             if count > 1:
-                idx = np.nonzero(names == name)[0]
-                _names = [name + str(i) for i in range(count)]
-                for i, k in enumerate(idx):
-                    data[k].name = _names[i]
+                i = 0
+                for k in np.nonzero(names == name)[0]:
+                    while name + str(i) in used:
+                        i += 1
+                    data[k].name = name + str(i)
+                    used.add(data[k].name)
 
     def _set_structure(self, structure: Union[dict, List[Node]] = None):
         if structure is None:
-- 
2.43.0


From 7c99c7932e5887509039799c6840af8e6e242cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:42 +0000
Subject: [PATCH 11/79] fix: adding search spaces does not rename the variables
 of the right operand

---
 bayes_optim/search_space/search_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 5e3624b..53c12a4 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -323,7 +323,7 @@ class SearchSpace:
         assert isinstance(space, SearchSpace)
         # NOTE: the random seed of `self` has the priority
         random_seed = self.random_seed if self.random_seed else space.random_seed
-        data = deepcopy(self.data) + space.data
+        data = deepcopy(self.data) + deepcopy(space.data)
         if hasattr(self, "structure"):
             structure = [t.deepcopy() for t in self.structure] + [
                 t.deepcopy() for t in space.structure
@@ -337,7 +337,7 @@ class SearchSpace:
 
     def __iadd__(self, space) -> SearchSpace:
         assert isinstance(space, SearchSpace)
-        self._set_data(self.data + space.data)
+        self._set_data(self.data + deepcopy(space.data))
         SearchSpace.__set_type(self)
         return self
 
-- 
2.43.0


From cf1a465852cec98a0d44cad4b97953e6937db0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:42 +0000
Subject: [PATCH 12/79] fix: update the type of the search space when a
 variable is replaced

---
 bayes_optim/search_space/search_space.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 53c12a4..7526296 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -288,6 +288,7 @@ class SearchSpace:
                 else:
                     raise Exception(f"index type {type(i)} is not supported")
         self._set_data(self.data)
+        SearchSpace.__set_type(self)
 
     def __contains__(self, item: Union[str, Variable, SearchSpace, list, dict]) -> bool:
         """check if a name, a variable, a space, or a sample point in the the search space"""
-- 
2.43.0


From 58a477cfaf041794680c06533053316d8a59cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:51 +0000
Subject: [PATCH 13/79] fix: points repaired by handle_box_constraint never
 exceed the bounds

LB + (UB - LB) can be larger than UB in floating-point arithmetic.
---
 bayes_optim/utils/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/utils/utils.py b/bayes_optim/utils/utils.py
index 5494afc..aaa44fa 100644
--- a/bayes_optim/utils/utils.py
+++ b/bayes_optim/utils/utils.py
@@ -139,7 +139,8 @@ def handle_box_constraint(x, lb, ub):
     yprime[I] = np.abs(y[I] - np.floor(y[I]))
     yprime[~I] = 1.0 - np.abs(y[~I] - np.floor(y[~I]))
 
-    x[valid, :] = LB + (UB - LB) * yprime
+    # NOTE: the sum might exceed the bounds due to the rounding error
+    x[valid, :] = np.clip(LB + (UB - LB) * yprime, LB, UB)
 
     if transpose:
         x = x.T
-- 
2.43.0


From b66f309ca9964d3c3676d6113e8e1202dff617af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:02 +0000
Subject: [PATCH 14/79] fix: SearchSpace.to_dict/to_json write what
 from_dict/from_json can read

The type was written as a Python class, which json cannot encode and from_dict does not know;
the default value and the base set of a Subset were lost.
---
 bayes_optim/search_space/search_space.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 7526296..fa37430 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -589,18 +589,20 @@ class SearchSpace:
         out: dict = {}
         for _, var in enumerate(self.data):
             value = {
-                "range": var.bounds,
-                "type": type(var),
+                "range": var._bounds if isinstance(var, Subset) else var.bounds,
+                "type": type(var).__name__.lower(),
                 "N": 1,
             }
+            if var.default_value is not None:
+                value["default"] = var.default_value
             if isinstance(var, Real):
                 value["precision"] = var.precision
                 value["scale"] = var.scale
             elif isinstance(var, Integer):
                 value["step"] = var.step
 
-            if hasattr(var, "conditions"):
-                value["conditions"] = var.conditions
+            if getattr(var, "conditions", None) is not None:
+                value["conditions"] = var.conditions["string"]
                 # TODO: also export var._action?
             out[var.name] = value
         return out
@@ -664,9 +666,11 @@ class SearchSpace:
                 ]
             elif v["type"] in ["o", "ordinal"]:  # ordinal parameter
                 _vars = [Ordinal(bounds, name=k, default_value=default_value) for _ in N]
-            elif v["type"] in ["c", "cat"]:  # category-valued parameter
+            elif v["type"] in ["c", "cat", "discrete"]:  # category-valued parameter
                 _vars = [Discrete(bounds, name=k, default_value=default_value) for _ in N]
             elif v["type"] in ["s", "subset"]:  # subset parameter
+                if isinstance(default_value, list):  # there is no tuple in json
+                    default_value = tuple(default_value)
                 _vars = [Subset(bounds, name=k, default_value=default_value) for _ in N]
             elif v["type"] in ["b", "bool"]:  # Boolean-valued
                 _vars = [Bool(name=k, default_value=default_value) for _ in N]
-- 
2.43.0


From a01d8da1f646242b7a2b2eb4b8c1dd7e6046c075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:35 +0000
Subject: [PATCH 15/79] fix: a Solution can hold one point whose first
 coordinate is a tuple

---
 bayes_optim/solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 774d2f6..ff8abb4 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -76,7 +76,7 @@ class Solution(np.ndarray):
             obj = np.asarray([_ + [1] for _ in x], dtype="object")[:, 0:dim].view(cls)
         elif isinstance(x[0], tuple):
             dim = len(x)
-            obj = np.asarray(x + [1], dtype="object")[:, 0:dim].view(cls)
+            obj = np.asarray(list(x) + [1], dtype="object")[0:dim].view(cls)
         else:
             obj = np.asarray(x, dtype="object").view(cls)
 
-- 
2.43.0


From d60872785b72e13ccdda5c2ac53cd9c47dd86d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:35 +0000
Subject: [PATCH 16/79] fix: negative and numpy integer indices of a Solution
 keep its attributes

---
 bayes_optim/solution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index ff8abb4..f8eff3d 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -209,8 +209,8 @@ class Solution(np.ndarray):
         if isinstance(index, tuple):
             _ = index[0]
             if len(index) == 2:
-                if isinstance(index[1], int) and not isinstance(index[0], int):
-                    __ = slice(index[1], index[1] + 1)
+                if isinstance(index[1], (int, np.integer)) and not isinstance(index[0], (int, np.integer)):
+                    __ = slice(index[1], index[1] + 1 or None)
                     index = (_, __)
                 else:
                     __ = index[1]
@@ -222,7 +222,7 @@ class Solution(np.ndarray):
             # NOTE: `slice` is needed here to make sure an array is always returned
             # after slicing attributes `fitness`, `n_eval, `index`
             # Otherwise setting the attribute of a slice is by value...
-            _ = slice(_, _ + 1) if isinstance(_, (int, np.int_)) else _
+            _ = slice(_, _ + 1 or None) if isinstance(_, (int, np.integer)) else _
             if len(self.shape) == 1:  # `self` is a 1-d array
                 subarr.var_name = subarr.var_name[_]
             else:
-- 
2.43.0


From 4a31abbe82b7d638ceee6452acc39be0a958a505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:35 +0000
Subject: [PATCH 17/79] fix: Solution.from_dict looks the values up by name

---
 bayes_optim/solution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index f8eff3d..8451893 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -273,11 +273,11 @@ class Solution(np.ndarray):
         **kwargs,
     ) -> Solution:
         if isinstance(x, dict):
-            var_name = list(x.keys())
-            res = cls.__new__(cls, x=list(x.values()), var_name=var_name, index=index, **kwargs)
+            var_name = list(x.keys()) if var_name is None else var_name
+            res = cls.__new__(cls, x=[x[k] for k in var_name], var_name=var_name, index=index, **kwargs)
         elif isinstance(x, list):
-            var_name = list(x[0].keys())
-            _x = [list(_.values()) for _ in x]
+            var_name = list(x[0].keys()) if var_name is None else var_name
+            _x = [[_[k] for k in var_name] for _ in x]
             res = cls.__new__(cls, x=_x, var_name=var_name, index=index, **kwargs)
         return res
 
-- 
2.43.0


From 1dca4be13e7b0714a945ffcda449ca1175bddcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:35 +0000
Subject: [PATCH 18/79] fix: concatenating Solutions aligns the variables by
 name

---
 bayes_optim/solution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 8451893..9bad3ff 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -151,6 +151,9 @@ class Solution(np.ndarray):
 
         _ = [self.tolist()] if len(self.shape) == 1 else self.tolist()
         __ = [other.tolist()] if len(other.shape) == 1 else other.tolist()
+        if list(self.var_name) != list(other.var_name):
+            order = [list(other.var_name).index(name) for name in self.var_name]
+            __ = [[row[k] for k in order] for row in __]
         return Solution(
             _ + __,
             self.fitness.tolist() + other.fitness.tolist(),
-- 
2.43.0


From 625736df6684e6b16d40dea9f35c98bbaf5ab40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:35 +0000
Subject: [PATCH 19/79] fix: multi-objective Solutions of one point can be
 concatenated and repeated

---
 bayes_optim/solution.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 9bad3ff..b6d53ff 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -141,6 +141,10 @@ class Solution(np.ndarray):
     def __iadd__(self, other: Solution) -> Solution:
         return self.__add__(other)
 
+    def _fitness_list(self) -> list:
+        """the fitness values, one entry per solution"""
+        return (self.fitness.reshape(-1, self.n_obj) if self.n_obj > 1 else self.fitness).tolist()
+
     def __add__(self, other: Solution) -> Solution:
         """Concatenate two Solution objects"""
         assert isinstance(other, Solution)
@@ -156,7 +160,7 @@ class Solution(np.ndarray):
             __ = [[row[k] for k in order] for row in __]
         return Solution(
             _ + __,
-            self.fitness.tolist() + other.fitness.tolist(),
+            self._fitness_list() + other._fitness_list(),
             self.n_eval.tolist() + other.n_eval.tolist(),
             var_name=self.var_name,
             fitness_name=self.fitness_name,
@@ -172,7 +176,7 @@ class Solution(np.ndarray):
             raise Exception("Replication is not supported for 2D")
         return Solution(
             [self.tolist()] * N,
-            self.fitness.tolist() * N,
+            self._fitness_list() * N,
             self.n_eval.tolist() * N,
             var_name=self.var_name,
             fitness_name=self.fitness_name,
-- 
2.43.0


From 66df343103ea7e762a51b2f72d488df55e9f967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:02 +0000
Subject: [PATCH 20/79] fix: a maximised objective stops at ftarget when it is
 exceeded, not before

---
 bayes_optim/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/_base.py b/bayes_optim/_base.py
index 94a2098..a0c3541 100644
--- a/bayes_optim/_base.py
+++ b/bayes_optim/_base.py
@@ -176,4 +176,4 @@ class BaseOptimizer:
 
     def _compare(self, f1: float, f2: float) -> bool:
         """Test if objecctive value f1 is better than f2"""
-        return f1 < f2 if self.minimize else f2 > f1
+        return f1 < f2 if self.minimize else f1 > f2
-- 
2.43.0


From 5277dfb287bccccd6e55e96dca5643f3aad80904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:02 +0000
Subject: [PATCH 21/79] fix: one evaluation counts once in n_eval

---
 bayes_optim/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index ce22003..047000c 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -177,7 +177,7 @@ class BaseBO(BaseOptimizer):
     def _set_aux_vars(self):
         if self._eval_type == "list":
             self._to_pheno = lambda x: copy(x.tolist())
-            self._to_geno = lambda x, index=None, n_eval=1, fitness=None: Solution(
+            self._to_geno = lambda x, index=None, n_eval=0, fitness=None: Solution(
                 x,
                 var_name=self.var_names,
                 n_obj=self.n_obj,
-- 
2.43.0


From 03f5f1c260a40a41b1734af61282c086a4a25097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:02 +0000
Subject: [PATCH 22/79] fix: points told as dictionaries are read by name and
 warm data work with eval_type=dict

---
 bayes_optim/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 047000c..ddae6f3 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -187,7 +187,12 @@ class BaseBO(BaseOptimizer):
             )
         elif self._eval_type == "dict":
             self._to_pheno = lambda x: x.to_dict().copy()
-            self._to_geno = lambda x, index=None: Solution.from_dict(x, index=index, n_obj=self.n_obj)
+            self._to_geno = lambda x, index=None: Solution.from_dict(
+                x.to_dict() if isinstance(x, Solution) else x,
+                index=index,
+                var_name=self.var_names,
+                n_obj=self.n_obj,
+            )
 
     def _set_internal_optimization(self, kwargs):
         if kwargs is None:
-- 
2.43.0


From 8be0c75add9363630840f1db4d02705b33cf18d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:02 +0000
Subject: [PATCH 23/79] fix: warm data can be a Solution and hold categorical
 values other than strings

---
 bayes_optim/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index ddae6f3..bc5b488 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -162,7 +162,7 @@ class BaseBO(BaseOptimizer):
             assert len(X) == len(y)
 
             if isinstance(X, Solution):
-                assert X.var_name == self.var_names
+                assert list(X.var_name) == list(self.var_names)
             else:
                 X = self._to_geno(X)
 
@@ -170,7 +170,7 @@ class BaseBO(BaseOptimizer):
             X.n_eval = 1
             assert all([isinstance(_, float) for _ in X[:, self.r_index].ravel()])
             assert all([isinstance(_, int) for _ in X[:, self.i_index].ravel()])
-            assert all([isinstance(_, str) for _ in X[:, self.d_index].ravel()])
+            assert all([_ in self.search_space.bounds[i] for i in self.d_index for _ in X[:, [i]].ravel()])
             self._warm_data = X
             self.tell(X, y, warm_start=True)
 
-- 
2.43.0


From 90b5ed181f827291778ef022fcd09dde4377c042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:02 +0000
Subject: [PATCH 24/79] fix: multi-objective points with a failed evaluation
 are removed

---
 bayes_optim/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index bc5b488..8bf12d2 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -416,7 +416,7 @@ class BaseBO(BaseOptimizer):
         """
 
     def post_eval_check(self, X: Solution) -> Solution:
-        _ = np.isnan(X.fitness) | np.isinf(X.fitness)
+        _ = np.any(~np.isfinite(X.fitness.reshape(len(X), -1)), axis=1)
         if np.any(_):
             self.logger.warning(
                 f"{sum(_)} candidate solutions are removed "
-- 
2.43.0


From 19d33b6679b523146fe83a9c0ff623113e94ff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:02 +0000
Subject: [PATCH 25/79] fix: optimizers do not share or modify the acquisition
 parameters passed in

---
 bayes_optim/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 8bf12d2..94c344c 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -109,7 +109,8 @@ class BaseBO(BaseOptimizer):
         self.DoE_size = DoE_size
 
         self.acquisition_fun = acquisition_fun
-        self._acquisition_par = acquisition_par if acquisition_par else {}
+        # NOTE: a copy is needed as some sub-classes change the parameters during the run
+        self._acquisition_par = copy(acquisition_par) if acquisition_par else {}
         # the callback functions executed after every call of `arg_max_acquisition`
         self._acquisition_callbacks = []
         self.model = model
-- 
2.43.0


From f11bb9aa9cb4ad4dad675f59c94642deee8120bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:02 +0000
Subject: [PATCH 26/79] fix: the acquisition parameters also apply when one
 point is proposed

---
 bayes_optim/base.py      | 2 +-
 bayes_optim/bayes_opt.py | 4 ++--
 bayes_optim/extension.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 94c344c..6e444d2 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -474,7 +474,7 @@ class BaseBO(BaseOptimizer):
                 n_point=n_point, return_dx=return_dx, fixed=fixed
             )
         else:  # single-point strategy
-            criteria = self._create_acquisition(par={}, return_dx=return_dx, fixed=fixed)
+            criteria = self._create_acquisition(return_dx=return_dx, fixed=fixed)
             candidates, values = self._argmax_restart(criteria, logger=self.logger)
             candidates, values = [candidates], [values]
 
diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index b760b5d..ea4b796 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -17,7 +17,7 @@ class BO(BaseBO):
 
     def _create_acquisition(self, fun: Callable = None, par: Dict = None, **kwargv):
         fun = fun if fun is not None else self._acquisition_fun
-        par = {} if par is None else par
+        par = copy(self._acquisition_par) if par is None else par
         if hasattr(getattr(AcquisitionFunction, fun), "plugin"):
             if "plugin" not in par:
                 par.update({"plugin": self.fmin if self.minimize else self.fmax})
@@ -183,7 +183,7 @@ class NoisyBO(ParallelBO):
         return X
 
     def _create_acquisition(self, fun: Callable = None, par: Dict = None, **kwargv):
-        par = {} if par is None else par
+        par = copy(self._acquisition_par) if par is None else par
         if hasattr(getattr(AcquisitionFunction, self._acquisition_fun), "plugin"):
             # use the model prediction to determine the plugin under noisy scenarios
             # TODO: add more options for determining the plugin value
diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index eb5189b..7f2e3ae 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -120,7 +120,7 @@ class PCABO(BO):
 
     def _create_acquisition(self, fun=None, par=None, return_dx=False, **kwargs) -> Callable:
         acquisition_func = super()._create_acquisition(
-            fun=fun, par={} if par is None else par, return_dx=return_dx, **kwargs
+            fun=fun, par=par, return_dx=return_dx, **kwargs
         )
         # TODO: make this more general for other acquisition functions
         # wrap the penalized acquisition function for handling the box constraints
-- 
2.43.0


From 4caf63cbe5f2ba90b29d3322c6ae7c2994166d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:02 +0000
Subject: [PATCH 27/79] fix: one of several equal candidates is kept

---
 bayes_optim/bayes_opt.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index ea4b796..4a37ddb 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -39,7 +39,11 @@ class BO(BaseBO):
         _ = []
         for i in range(N):
             x = X[i]
-            idx = np.arange(len(X)) != i
+            # compare to the candidates kept so far and to the evaluated points
+            idx = _ + list(range(N, len(X)))
+            if len(idx) == 0:
+                _ += [i]
+                continue
             CON = np.all(
                 np.isclose(
                     np.asarray(X[idx][:, self.r_index], dtype="float"),
-- 
2.43.0


From c9657feb2d9db1877af7d45520437a169b83d685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:35 +0000
Subject: [PATCH 28/79] fix: points drawn to complete a batch do not repeat the
 ones already in it

---
 bayes_optim/base.py      | 8 ++++----
 bayes_optim/bayes_opt.py | 4 +---
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 6e444d2..c227696 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -292,7 +292,7 @@ class BaseBO(BaseOptimizer):
                 )
                 N = n_point - len(X)
                 # take random samples if the acquisition optimization failed
-                X += self.create_DoE(N, fixed=fixed)
+                X = self.pre_eval_check(X + self.create_DoE(N, fixed=fixed))
         else:  # take the initial DoE
             n_point = self._DoE_size if n_point is None else n_point
             msg = f"asking {n_point} points (using DoE):"
@@ -396,9 +396,9 @@ class BaseBO(BaseOptimizer):
 
             if len(X) != 0:
                 X = self.search_space.round(X)
-                X = self.pre_eval_check(X)
-                DoE += X
-                n_point -= len(X)
+                X = self.pre_eval_check(DoE + (X.tolist() if isinstance(X, np.ndarray) else X))
+                n_point -= len(X) - len(DoE)
+                DoE = X
 
             count += 1
             if count > 3:  # maximally 3 iterations
diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index 4a37ddb..78be2ac 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -182,9 +182,7 @@ class NoisyBO(ParallelBO):
     """Bayesian Optimization for Noisy Scenarios"""
 
     def pre_eval_check(self, X: List):
-        if not isinstance(X, Solution):
-            X = Solution(X, var_name=self.var_names)
-        return X
+        return X.tolist() if isinstance(X, Solution) else list(X)
 
     def _create_acquisition(self, fun: Callable = None, par: Dict = None, **kwargv):
         par = copy(self._acquisition_par) if par is None else par
-- 
2.43.0


From 82c358a8b2cff6396848b958dd327882fb853242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:35 +0000
Subject: [PATCH 29/79] fix: SelfAdaptiveBO ranks the candidates by their
 acquisition values

---
 bayes_optim/bayes_opt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index 78be2ac..6d379f2 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -173,7 +173,7 @@ class SelfAdaptiveBO(ParallelBO):
             __ = [list(self._argmax_restart(_, logger=self.logger)) for _ in criteria]
 
         # NOTE: this adaptation is different from what I did in the LeGO paper..
-        idx = np.argsort(__[1])[::-1][:N]
+        idx = np.argsort([value for _, value in __])[::-1][:N]
         self._acquisition_par["t"] = np.mean([_t_list[i] for i in idx])
         return tuple(zip(*__))
 
-- 
2.43.0


From b7fad00e2ae1f741aa1187f3e789f2d2010fb666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:35 +0000
Subject: [PATCH 30/79] fix: an optimizer stays usable when it cannot be saved

---
 bayes_optim/base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index c227696..d5890bd 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -517,11 +517,12 @@ class BaseBO(BaseOptimizer):
             logger = self.logger
             self.logger = dump_logger(self.logger)
 
-            dill.dump(self, f)
-
-            self.logger = logger
-            if hasattr(self, "data"):
-                self.data = dill.loads(self.data)
+            try:
+                dill.dump(self, f)
+            finally:
+                self.logger = logger
+                if hasattr(self, "data"):
+                    self.data = dill.loads(self.data)
             self.logger.info(f"save to file {filename}...")
 
     @classmethod
-- 
2.43.0


From d4cc9fd49653c4912a9d17c249e8f86cfc286abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:35 +0000
Subject: [PATCH 31/79] fix: ConditionalBO keeps variables whose value is 0 or
 False

---
 bayes_optim/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 7f2e3ae..88ded74 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -288,7 +288,7 @@ class ConditionalBO(ParallelBO):
         assert len(self._bo_idx) == len(X)
         # call `tell` method of BOs in each subspace
         for i, k in enumerate(self._bo_idx):
-            x = {k: v for k, v in X[i].items() if v}
+            x = {k: v for k, v in X[i].items() if v is not None}
             for key, _ in self._fixed_vars[k].items():
                 x.pop(key)
             self._bo[k].tell([x], [func_vals[i]], **kwargs)
-- 
2.43.0


From 1809be3d8c52a2240b98e5f1c6f56b59140fe424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:35 +0000
Subject: [PATCH 32/79] fix: partial_argument fills in the fixed values for any
 number of points

---
 bayes_optim/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/utils/utils.py b/bayes_optim/utils/utils.py
index aaa44fa..5bb20a5 100644
--- a/bayes_optim/utils/utils.py
+++ b/bayes_optim/utils/utils.py
@@ -187,7 +187,7 @@ def partial_argument(
         if not isinstance(X, np.ndarray):
             X = np.array(X, dtype=object)
 
-        N = 1 if len(X.shape) == 1 else X.shape[1]
+        N = 1 if len(X.shape) == 1 else X.shape[0]
         X_ = np.empty((N, len(masks)), dtype=object)
         X_[:, ~masks] = X
         # this is needed if `values` contains tuples
@@ -208,7 +208,7 @@ def partial_argument(
                         elif v.shape[1] == len(masks):
                             v = v[:, ~masks]
                 elif isinstance(v, list) and len(v) == len(masks):
-                    v = [v[m] for m in ~masks]
+                    v = [v[m] for m in np.nonzero(~masks)[0]]
                 out.append(v)
             return tuple(out)
         return out_
-- 
2.43.0


From 61530f342348dd22c360ffec2be9331ebd1d05b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:35 +0000
Subject: [PATCH 33/79] fix: the probability of improvement can be used

---
 bayes_optim/acquisition/acquisition_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/acquisition_fun.py b/bayes_optim/acquisition/acquisition_fun.py
index 9a2ae06..59d27ef 100644
--- a/bayes_optim/acquisition/acquisition_fun.py
+++ b/bayes_optim/acquisition/acquisition_fun.py
@@ -202,7 +202,7 @@ class EpsilonPI(ImprovementBased):
 
     @epsilon.setter
     def epsilon(self, eps):
-        assert eps > 0
+        assert eps >= 0
         self._epsilon = eps
 
     def __call__(self, X, return_dx=False):
-- 
2.43.0


From 071cb2fc5bc11f8fcf55348d6d099ee4a98bc83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:35 +0000
Subject: [PATCH 34/79] fix: UCB prefers good predicted values

_predict returns values to be minimised, whereas the acquisition function is maximised.
---
 bayes_optim/acquisition/acquisition_fun.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/acquisition/acquisition_fun.py b/bayes_optim/acquisition/acquisition_fun.py
index 59d27ef..d2c1831 100644
--- a/bayes_optim/acquisition/acquisition_fun.py
+++ b/bayes_optim/acquisition/acquisition_fun.py
@@ -110,7 +110,8 @@ class UCB(AcquisitionFunction):
 
         \alpha(x) = m(x) + \alpha * \sigma(x),
 
-        where m(x) the predicted value and \sigma(x) is the uncertainty of the prediction
+        where m(x) the predicted value (with the opposite sign for minimization) and \sigma(x) is
+        the uncertainty of the prediction
         """
         super().__init__(**kwargs)
         self.alpha = alpha
@@ -130,7 +131,7 @@ class UCB(AcquisitionFunction):
         y_hat, sd = self._predict(X)
 
         try:
-            f_value = y_hat + self.alpha * sd
+            f_value = self.alpha * sd - y_hat
             if n_sample == 1:
                 f_value = sum(f_value)
         except Exception:  # in case of numerical errors
@@ -140,7 +141,7 @@ class UCB(AcquisitionFunction):
             y_dx, sd2_dx = self._gradient(X)
             sd_dx = sd2_dx / (2.0 * sd)
             try:
-                f_dx = y_dx + self.alpha * sd_dx
+                f_dx = self.alpha * sd_dx - y_dx
             except Exception:
                 f_dx = np.zeros((len(X[0]), 1))
             return f_value, f_dx
-- 
2.43.0


From 83ab66d22630d36cd47e0b780ccb2e15d2dd904e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:35 +0000
Subject: [PATCH 35/79] fix: (1+1)-CMA-ES restarts at most n_restart times

---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index c8295f8..c540442 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -275,6 +275,7 @@ class OnePlusOne_CMA(object):
             self._delta_f = self.ftol * 200
             self.stop_dict = {}
             self.n_restart -= 1
+            self._restart = False
 
     def ask(self) -> np.ndarray:
         """The mutation operator
-- 
2.43.0


From 58714c5db5b745944021a4cad14d0096a7d15922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:35 +0000
Subject: [PATCH 36/79] fix: (1+1)-CMA-ES with constraints can be verbose

---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index c540442..81e7361 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -343,7 +343,7 @@ class OnePlusOne_CMA(object):
             self.logger.info(f"fopt: {self.fopt}")
             if self.h is not None or self.g is not None:
                 _penalty = (self.fopt - self.fopt_penalized) * (-1) ** self.minimize
-                self.logger.info(f"penalty: {_penalty[0]:.4e}")
+                self.logger.info(f"penalty: {_penalty:.4e}")
             self.logger.info(f"xopt: {self.xopt.tolist()}")
             self.logger.info(f"sigma: {self._sigma}\n")
 
-- 
2.43.0


From dfee33d9970ebd87bb86d53c963f21b07db8b3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:35 +0000
Subject: [PATCH 37/79] fix: MIES respects the step of integer variables

---
 bayes_optim/acquisition/optim/mies.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayes_optim/acquisition/optim/mies.py b/bayes_optim/acquisition/optim/mies.py
index a8a5524..2c02ddc 100644
--- a/bayes_optim/acquisition/optim/mies.py
+++ b/bayes_optim/acquisition/optim/mies.py
@@ -258,6 +258,9 @@ class MIES:
 
         # Interval Bounds Treatment
         x_ = np.asarray(handle_box_constraint(x_, self.bounds_i[:, 0], self.bounds_i[:, 1]), dtype="int")
+        # only every `step`-th value is admissible
+        step = np.asarray([self._space.data[_].step for _ in self.id_i])
+        x_ = x_ - (x_ - self.bounds_i[:, 0]) % step
         individual[self.id_i] = x_
         individual[self._id_eta] = eta
 
-- 
2.43.0


From d1d1e54cee70b6678f67168223943857e47851c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:24 +0000
Subject: [PATCH 38/79] fix: rounding or rescaling points of a mixed search
 space leaves the input array unchanged

---
 bayes_optim/search_space/search_space.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index fa37430..e751531 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -566,8 +566,7 @@ class SearchSpace:
         return X
 
     def round(self, X: Union[np.ndarray, List[List]]) -> np.ndarray:
-        if not isinstance(X, np.ndarray):
-            X = np.array(X, dtype=object)
+        X = np.array(X, dtype=object)  # NOTE: a copy, the input is not modified
         if len(X.shape) == 1:
             X = X.reshape(1, -1)
         if len(self.real_id) > 0:  # if real-valued variables exist.
@@ -576,8 +575,7 @@ class SearchSpace:
         return X
 
     def to_linear_scale(self, X: Union[np.ndarray, List[List]]) -> np.ndarray:
-        if not isinstance(X, np.ndarray):
-            X = np.array(X, dtype=object)
+        X = np.array(X, dtype=object)  # NOTE: a copy, the input is not modified
         if len(X.shape) == 1:
             X = X.reshape(1, -1)
         if len(self.real_id) > 0:  # if real-valued variables exist.
-- 
2.43.0


From f9352ee95d17d321edb71f4977ba81181a916535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:37 +0000
Subject: [PATCH 39/79] fix: candidate points have the declared precision

The result of L-BFGS-B and the initial point of (1+1)-CMA-ES were not rounded.
---
 bayes_optim/acquisition/optim/__init__.py            | 3 ++-
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index d55d253..9bb1f65 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -84,7 +84,8 @@ def argmax_restart(
                 bounds=bounds,
                 maxfun=eval_budget,
             )
-            xopt_ = xopt_.flatten().tolist()
+            # rounding if a coarser numerical precision is provided
+            xopt_ = search_space.round(xopt_).ravel().tolist()
             if not isinstance(fopt_, float):
                 fopt_ = float(fopt_)
             fopt_ = -fopt_
diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index 81e7361..ca99cb1 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -214,6 +214,7 @@ class OnePlusOne_CMA(object):
             # sample `x` u.a.r. in `[lb, ub]`
             assert all(~np.isinf(self.lb)) & all(~np.isinf(self.ub))
             x = (self.ub - self.lb) * np.random.rand(self.dim) + self.lb
+            x = self.search_space.round(np.clip(x, self.lb, self.ub)).ravel()
 
         self._x = x
         y = self.evaluate(x)
-- 
2.43.0


From e3429fedf4054f78411b23d80ff9fcabd7c1dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:33 +0000
Subject: [PATCH 40/79] fix: constrained sampling proposes only values the
 variables may take

The proposals ignored the precision of real and the step of integer variables, turned
mixed levels into strings and failed for subsets and when no level is changed.
---
 bayes_optim/search_space/samplers.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/bayes_optim/search_space/samplers.py b/bayes_optim/search_space/samplers.py
index b62235e..c9c47df 100644
--- a/bayes_optim/search_space/samplers.py
+++ b/bayes_optim/search_space/samplers.py
@@ -87,6 +87,7 @@ class SCMC:
         self.N_i = len(self.id_i)
         self.N_d = len(self.id_d)
 
+        self.sample_out_of_bound = sample_out_of_bound
         if sample_out_of_bound:
             self.bounds_r = np.asarray([(-np.inf, np.inf) for _ in self.id_r])
             self.bounds_i = np.asarray([(-np.inf, np.inf) for _ in self.id_i])
@@ -128,28 +129,35 @@ class SCMC:
     def _rproposal_real(self, X: np.ndarray, t: int):
         X_ = X[:, self.id_r].astype(float)
         q = np.std(X_, axis=0) / (t + 1)
-        X[:, self.id_r] = np.clip(
+        X_ = np.clip(
             X_ + q * np.random.randn(*X_.shape),
             self.bounds_r[:, 0],
             self.bounds_r[:, 1],
         )
+        # rounding if a coarser numerical precision is provided
+        X[:, self.id_r] = X_ if self.sample_out_of_bound else self.sample_space[self.id_r].round(X_)
 
     def _rproposal_integer(self, X: np.ndarray, t: int):
         X_ = X[:, self.id_i].astype(int)
         p = norm.cdf(np.std(X_, axis=0) / (t + 1))
-        X[:, self.id_i] = np.clip(
-            X_ + np.random.geometric(p, X_.shape) - np.random.geometric(p, X_.shape),
+        # only every `step`-th value is admissible
+        step = np.asarray([self.sample_space.data[_].step for _ in self.id_i])
+        X_ = np.clip(
+            X_ + step * (np.random.geometric(p, X_.shape) - np.random.geometric(p, X_.shape)),
             self.bounds_i[:, 0],
             self.bounds_i[:, 1],
         )
+        lb = np.asarray([self.sample_space.bounds[_][0] for _ in self.id_i])
+        X[:, self.id_i] = X_ - (X_ - lb) % step
 
     def _rproposal_discrete(self, X: np.ndarray, t: int):
         N = len(X)
         prob = max(0.5 * np.exp(-1 * t), 1 / self.N_d)
         for i in self.id_d:
-            levels = np.array(self.sample_space.bounds[i])
+            levels = self.sample_space.bounds[i]
             idx = np.random.rand(N) < prob
-            X[idx, i] = levels[np.random.randint(0, len(levels), sum(idx))]
+            for k, j in zip(np.nonzero(idx)[0], np.random.randint(0, len(levels), sum(idx))):
+                X[k, i] = levels[j]
 
     def _ess(self, nu: float, nu_ref: float, X: np.ndarray) -> float:
         """effective sample size"""
-- 
2.43.0


From cee9c9fbca046de77b1d4b79024fb7c8027cc7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:33 +0000
Subject: [PATCH 41/79] fix: the Cholesky factor of (1+1)-CMA-ES stays valid

A step of length zero made it NaN, so that every later point was NaN, and resetting it left its
inverse as it was.
---
 .../acquisition/optim/one_plus_one_cma_es.py        | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index ca99cb1..d8153e1 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -270,8 +270,7 @@ class OnePlusOne_CMA(object):
             self.x = None
             self.sigma = self.sigma0
             self.pc = np.zeros(self.dim)
-            self._C = np.eye(self.dim)
-            self._A = np.eye(self.dim)
+            self._init_covariance(None)
             self._delta_x = self.xtol * 200
             self._delta_f = self.ftol * 200
             self.stop_dict = {}
@@ -412,9 +411,8 @@ class OnePlusOne_CMA(object):
             self._exception = 1
 
         if self._exception:
-            self._C = np.eye(self.dim)
             self.pc = np.zeros(self.dim)
-            self._A = np.eye(self.dim)
+            self._init_covariance(None)
             self._sigma = self.sigma0
             self._exception = False
 
@@ -463,8 +461,11 @@ class OnePlusOne_Cholesky_CMA(OnePlusOne_CMA):
         w_ = w.dot(self._A_inv)
         L = np.sum(w**2)
 
-        self._A += (np.sqrt(1 + L * cb / ca) - 1) / L * np.outer(self.pc, w)
+        # NOTE: `L` is zero if the point did not move, e.g., when it is rounded to a given precision
+        if L > 0:
+            self._A += (np.sqrt(1 + L * cb / ca) - 1) / L * np.outer(self.pc, w)
         self._A *= np.sqrt(ca)
 
-        self._A_inv -= (1 - 1 / np.sqrt(1 + L * cb / ca)) / L * np.outer(w, w_)
+        if L > 0:
+            self._A_inv -= (1 - 1 / np.sqrt(1 + L * cb / ca)) / L * np.outer(w, w_)
         self._A_inv *= 1 / np.sqrt(ca)
-- 
2.43.0


From 04c78d4acef95c2dd2e5ad56f519b601fcb40517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:06 +0000
Subject: [PATCH 42/79] fix: constraints work in spaces whose first variable is
 a subset

The penalty of the best point took its first coordinate, a tuple, for a point.
---
 bayes_optim/base.py | 2 +-
 bayes_optim/mobo.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index d5890bd..82e95e6 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -353,7 +353,7 @@ class BaseBO(BaseOptimizer):
         self.logger.info(f"fopt: {xopt.fitness}")
         # show the current penalty value if cheap constraints are present
         if self.h is not None or self.g is not None:
-            _penalty = dynamic_penalty(xopt.tolist(), 1, self._h, self._g, minimize=self.minimize)
+            _penalty = dynamic_penalty([xopt.tolist()], 1, self._h, self._g, minimize=self.minimize)
             self.logger.info(f"penalty: {_penalty[0]:.4e}")
         self.logger.info(f"xopt: {self._to_pheno(xopt)}\n")
 
diff --git a/bayes_optim/mobo.py b/bayes_optim/mobo.py
index 2588af4..b07b32e 100644
--- a/bayes_optim/mobo.py
+++ b/bayes_optim/mobo.py
@@ -144,7 +144,7 @@ class BaseMOBO(BO):
 
         if self.h is not None or self.g is not None:
             penalty = np.array(
-                [dynamic_penalty(x, 1, self._h, self._g, minimize=False) for x in xopt]
+                [dynamic_penalty([x.tolist()], 1, self._h, self._g, minimize=False) for x in xopt]
             ).ravel()
             self.logger.info(f"... with corresponding penalty: {penalty}")
 
-- 
2.43.0


From a3f9eac954a9e6842171ef2419c502c83c3e5abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:06 +0000
Subject: [PATCH 43/79] fix: argmax_restart takes constraints returning lists
 or numbers

The optimisers it calls do, but testing its result failed. It also failed without a logger when
L-BFGS-B is not applicable.
---
 bayes_optim/acquisition/optim/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index 9bb1f65..87eb0fa 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -69,7 +69,8 @@ def argmax_restart(
     wait_count = 0
     if not isinstance(search_space, RealSpace) and optimizer == "BFGS":
         optimizer = "MIES"
-        logger.warning("L-BFGS-B can only be applied on continuous search space")
+        if logger is not None:
+            logger.warning("L-BFGS-B can only be applied on continuous search space")
 
     for iteration in range(n_restart):
         x0 = search_space.sample(N=1, method="uniform")[0]
@@ -122,8 +123,8 @@ def argmax_restart(
                 eval_type="list",
             ).optimize()
 
-        cond_h = all(np.isclose(np.abs(h(xopt_)), 0, atol=1e-1)) if h else True
-        cond_g = all(g(xopt_) <= 0) if g else True
+        cond_h = np.all(np.isclose(np.abs(h(xopt_)), 0, atol=1e-1)) if h else True
+        cond_g = np.all(np.asarray(g(xopt_)) <= 0) if g else True
         if cond_h and cond_g:
             if isinstance(fopt_, np.ndarray):
                 fopt_ = fopt_[0]
-- 
2.43.0


From fbb9d920fe585f5ac8c423930fb2f8e16b2186ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:24 +0000
Subject: [PATCH 44/79] fix: saving restores the data whatever step of it fails

The data stayed serialised if dumping the logger failed.
---
 bayes_optim/base.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 82e95e6..f466f96 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -511,18 +511,16 @@ class BaseBO(BaseOptimizer):
         with open(filename, "wb") as f:
             # NOTE: we need to dump `self.data` first. Otherwise, some
             # attributes of it will be lost
-            if hasattr(self, "data"):
-                self.data = dill.dumps(self.data)
-
-            logger = self.logger
-            self.logger = dump_logger(self.logger)
-
+            logger, data = self.logger, getattr(self, "data", None)
             try:
+                if data is not None:
+                    self.data = dill.dumps(data)
+                self.logger = dump_logger(logger)
                 dill.dump(self, f)
             finally:
                 self.logger = logger
-                if hasattr(self, "data"):
-                    self.data = dill.loads(self.data)
+                if data is not None:
+                    self.data = data
             self.logger.info(f"save to file {filename}...")
 
     @classmethod
-- 
2.43.0


From d7027fd5db2fb8320454ac63fb78bb631c40b44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:19 +0000
Subject: [PATCH 45/79] fix: unconditional subspaces contain every active
 variable

A variable was missing from the subspace if a sibling on the same branch has conditions of its
own, and two such siblings were never combined.
---
 bayes_optim/search_space/node.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/bayes_optim/search_space/node.py b/bayes_optim/search_space/node.py
index d970980..544650f 100644
--- a/bayes_optim/search_space/node.py
+++ b/bayes_optim/search_space/node.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import itertools
 from copy import copy, deepcopy
 from typing import Any, Dict, List, Tuple
 
@@ -172,17 +173,13 @@ class Node:
             return {(): None}
 
         path = dict()
-        for br in set(self.branches):
-            _path = [
-                ((br,) + p, v) if p else ((br,), [self.children[i].name])
-                for i in [i for i, b in enumerate(self.branches) if b == br]
-                for p, v in Node.get_all_path(self.children[i]).items()
-            ]
-            _merged = dict()
-            for k, v in _path:
-                for vv in v:
-                    _merged.setdefault(k, []).append(vv)
-            path.update(_merged)
+        for br in dict.fromkeys(self.branches):
+            children = [c for c, b in zip(self.children, self.branches) if b == br]
+            # all leaves of a branch are on each of its paths; branching siblings are combined
+            leaves = [c.name for c in children if not c.children]
+            _paths = [Node.get_all_path(c).items() for c in children if c.children]
+            for item in itertools.product(*_paths):
+                path[sum((p for p, _ in item), (br,))] = sum((v for _, v in item), leaves)
         return path
 
     def __str__(self) -> str:
-- 
2.43.0


From 80a0e9b60a8ba452c93ce4573970b89b7459ecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:19 +0000
Subject: [PATCH 46/79] fix: conditions may compare to negative numbers

The value of such a selector was taken to be None in the unconditional subspaces.
---
 bayes_optim/search_space/search_space.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index e751531..83e2461 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -29,11 +29,7 @@ _get_var = lambda c: Parser().parse(c).variables()[0]
 
 
 def _get_val(condition):
-    c = ast.parse(condition).body[0].value.comparators[0]
-    if hasattr(c, "n"):
-        return c.n
-    if hasattr(c, "s"):
-        return c.s
+    return ast.literal_eval(ast.parse(condition).body[0].value.comparators[0])
 
 
 class SearchSpace:
-- 
2.43.0


From 369c229b53b1ca788d761b0b32559fbf40a0914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:19 +0000
Subject: [PATCH 47/79] fix: ConditionalBO counts failed evaluations

As the other optimizers do, otherwise the budget is exceeded.
---
 bayes_optim/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 88ded74..a865454 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -293,9 +293,9 @@ class ConditionalBO(ParallelBO):
                 x.pop(key)
             self._bo[k].tell([x], [func_vals[i]], **kwargs)
 
+        self.eval_count += len(X)
         X = self.post_eval_check(self._to_geno(X, fitness=func_vals))
         self.data = self.data + X if hasattr(self, "data") else X
-        self.eval_count += len(X)
 
         xopt = self.xopt
         self.logger.info(f"fopt: {xopt.fitness}")
-- 
2.43.0


From c190bd571daa99efd9da0f6c3d3781f63d576a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:00 +0000
Subject: [PATCH 48/79] fix: a first batch of failed evaluations does not stop
 the optimizer

The model was updated with an empty data set, which raised a ValueError; for ConditionalBO
one failed evaluation sufficed.
---
 bayes_optim/base.py      | 5 +++++
 bayes_optim/extension.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index f466f96..e4cff66 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -343,6 +343,11 @@ class BaseBO(BaseOptimizer):
             self.logger.info(f"#{i + 1} - fitness: {func_vals[i]}, solution: {self._to_pheno(X[i])}")
 
         X = self.post_eval_check(X)
+        if len(X) == 0 and not hasattr(self, "data"):
+            # every evaluation failed so far: there is nothing to learn from yet
+            if not warm_start:
+                self.iter_count += 1
+            return
         self.data = self.data + X if hasattr(self, "data") else X
         self.update_model()
 
diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index a865454..a852be7 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -295,6 +295,11 @@ class ConditionalBO(ParallelBO):
 
         self.eval_count += len(X)
         X = self.post_eval_check(self._to_geno(X, fitness=func_vals))
+        if len(X) == 0 and not hasattr(self, "data"):
+            # every evaluation failed so far: there is nothing to learn from yet
+            if not warm_start:
+                self.iter_count += 1
+            return
         self.data = self.data + X if hasattr(self, "data") else X
 
         xopt = self.xopt
-- 
2.43.0


From bf6be3acb2c94370975f4c3398dc0560d5657197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:58 +0000
Subject: [PATCH 49/79] fix: generalized_exponential accepts one parameter for
 all variables

---
 bayes_optim/surrogate/gaussian_process/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/surrogate/gaussian_process/kernel.py b/bayes_optim/surrogate/gaussian_process/kernel.py
index 2dd18d1..52abc68 100755
--- a/bayes_optim/surrogate/gaussian_process/kernel.py
+++ b/bayes_optim/surrogate/gaussian_process/kernel.py
@@ -367,7 +367,7 @@ def generalized_exponential(theta, d):
 
     lth = theta.size
     if n_features > 1 and lth == 2:
-        theta = np.hstack([np.repeat(theta[0], n_features), theta[1]])
+        theta = np.hstack([np.repeat(theta[0], n_features), theta[1]]).reshape(1, -1)
     elif lth != n_features + 1:
         raise Exception("Length of theta must be 2 or %s" % (n_features + 1))
     else:
-- 
2.43.0


From 11bce6f2512e32edc027f21a20d349ad9eea4159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:58 +0000
Subject: [PATCH 50/79] fix: the gradient of a Matern GP does not vanish at the
 training points

The division by a zero distance set the derivatives with respect to all training points to
zero, although only the one of the coinciding point is.
---
 bayes_optim/surrogate/gaussian_process/gpr.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index 024c9b6..a70df50 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -642,8 +642,7 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
                     if nu == 0.5:
                         grad = -diff * theta / D * r
                     elif nu == 1.5:
-                        grad = diff * theta / D
-                        grad *= -3.0 * D * exp(-c * D)
+                        grad = -3.0 * diff * theta * exp(-c * D)
                     elif nu == 2.5:
                         pass
 
-- 
2.43.0


From b4baaf6699f2e3bb3c1b374d419c666c75077e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:58 +0000
Subject: [PATCH 51/79] fix: L-BFGS-B gets the gradient of the log-likelihood
 it maximises

The gradient was the one with respect to the parameters instead of their log10, and with a
known noise variance the kernel was scaled by the total variance.
---
 bayes_optim/surrogate/gaussian_process/gpr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index a70df50..d0a15df 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -1026,7 +1026,7 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
                 gamma_ = gamma / sigma2_total
                 Cinv = Rinv / sigma2_total
                 # Covariance: partial derivatives w.r.t. theta
-                C_grad_tensor = sigma2_total * self.corr_grad_theta(theta, self.X, R0)
+                C_grad_tensor = sigma2[0] * self.corr_grad_theta(theta, self.X, R0)
                 # Covariance: partial derivatives w.r.t. sigma2
                 C_grad_tensor = np.concatenate([C_grad_tensor, R0[..., np.newaxis]], axis=2)
                 for i in range(n_par):
@@ -1117,7 +1117,10 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
                     out = self.log_likelihood_concentrated(param, eval_grad=eval_grad)
                 elif self.likelihood == "restricted":
                     out = self.log_likelihood_restricted(param, eval_grad=eval_grad)
-                return -1.0 * out if isinstance(out, float) else tuple(-1.0 * v for v in out)
+                if not eval_grad:
+                    return -1.0 * out
+                # the optimizer works on the log10 of the parameters
+                return -1.0 * out[0], -1.0 * np.ravel(out[1]) * param * np.log(10)
 
             return func
 
-- 
2.43.0


From 1b00a62a9c9f316fb6d0a563decf58acad92b313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:58 +0000
Subject: [PATCH 52/79] fix: prior_cov accepts two sets of points

---
 bayes_optim/surrogate/gaussian_process/gpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index d0a15df..95dd1c4 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -318,7 +318,7 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
     def prior_cov(self, X1, X2=None, corr=False):
         # Check input shapes
         X1 = np.atleast_2d(X1)
-        X2 = np.atleast_2d(X2) if X2 else X1
+        X2 = np.atleast_2d(X2) if X2 is not None else X1
 
         n_eval_X1, _ = X1.shape
         n_eval_X2, _ = X2.shape
-- 
2.43.0


From 333b866719d5ede2fa92646a08c257bd9a7f94a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:58 +0000
Subject: [PATCH 53/79] fix: GP predictions in batches

The number of batches was a float, and the shapes did not match.
---
 bayes_optim/surrogate/gaussian_process/gpr.py | 23 +++++--------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index 95dd1c4..dfa8200 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -515,24 +515,13 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
             if type(batch_size) is not int or batch_size <= 0:
                 raise Exception("batch_size must be a positive integer")
 
+            out = [
+                self.predict(X[k : k + batch_size], eval_MSE=eval_MSE)
+                for k in range(0, n_eval, batch_size)
+            ]
             if eval_MSE:
-                y, MSE = np.zeros(n_eval), np.zeros(n_eval)
-                for k in range(max(1, n_eval / batch_size)):
-                    batch_from = k * batch_size
-                    batch_to = min([(k + 1) * batch_size + 1, n_eval + 1])
-                    y[batch_from:batch_to], MSE[batch_from:batch_to] = self.predict(
-                        X[batch_from:batch_to], eval_MSE=eval_MSE, batch_size=None
-                    )
-                return y, MSE
-
-            y = np.zeros(n_eval)
-            for k in range(max(1, n_eval / batch_size)):
-                batch_from = k * batch_size
-                batch_to = min([(k + 1) * batch_size + 1, n_eval + 1])
-                y[batch_from:batch_to] = self.predict(
-                    X[batch_from:batch_to], eval_MSE=eval_MSE, batch_size=None
-                )
-            return y
+                return np.concatenate([o[0] for o in out]), np.concatenate([o[1] for o in out])
+            return np.concatenate(out)
 
     def gradient(self, x):
         """Calculate the gradient of the posterior mean and variance
-- 
2.43.0


From 363b3d8abaec9101fc35c000e64c9b374971f664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:35 +0000
Subject: [PATCH 54/79] fix: fmin returns the trial points of every iteration

The initial design was left out, its place was taken by the following points, and warm-starting
data was counted as the initial design.
---
 bayes_optim/__init__.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bayes_optim/__init__.py b/bayes_optim/__init__.py
index 0115a59..92c77b9 100755
--- a/bayes_optim/__init__.py
+++ b/bayes_optim/__init__.py
@@ -188,11 +188,14 @@ def fmin(
     )
     opt.run()
 
-    N, n = opt.DoE_size, opt.n_point
-    _data, data = opt.data[:N, :], opt.data[N:, :]
-
-    data_per_iteration = [np.asarray(data[:N, :])]
-    data_per_iteration += [np.asarray(data[(i * n) : ((i + 1) * n), :]) for i in range(opt.iter_count - 1)]
+    # the initial design is generated in the first iteration unless warm-starting data is given
+    n_warm = 0 if opt.warm_data is None else len(opt.warm_data)
+    n = opt.n_point
+    N = n if n_warm else opt.DoE_size
+    data = np.asarray(opt.data[n_warm:, :])
+
+    data_per_iteration = [data[:N, :]]
+    data_per_iteration += [data[(N + i * n) : (N + (i + 1) * n), :] for i in range(opt.iter_count - 1)]
 
     print(
         "Optimization terminated successfully.\n"
-- 
2.43.0


From 6fb9364f83626a77d3cba7a8e6ee213b7560bc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:35 +0000
Subject: [PATCH 55/79] fix: fmin accepts integers as scalar bounds

No search space was created for them, which raised an UnboundLocalError.
---
 bayes_optim/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/__init__.py b/bayes_optim/__init__.py
index 92c77b9..e3cce93 100755
--- a/bayes_optim/__init__.py
+++ b/bayes_optim/__init__.py
@@ -136,7 +136,7 @@ def fmin(
     """
     obj_func = lambda x: func(x, *args)
 
-    if isinstance(lower, float) and isinstance(upper, float):
+    if isinstance(lower, (int, float)) and isinstance(upper, (int, float)):
         search_space = RealSpace([lower, upper])
     elif isinstance(lower, list) and isinstance(upper, list):
         assert len(lower) == len(upper)
-- 
2.43.0


From 9c250354dc183a2c68ffaf880dbd638dd59963f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:29 +0000
Subject: [PATCH 56/79] fix: zero is a valid random seed

It was ignored, and `random_seed` did not exist if no seed is given.
---
 bayes_optim/_base.py                                 | 7 +++----
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/bayes_optim/_base.py b/bayes_optim/_base.py
index a0c3541..91036a7 100644
--- a/bayes_optim/_base.py
+++ b/bayes_optim/_base.py
@@ -149,10 +149,9 @@ class BaseOptimizer:
 
     @random_seed.setter
     def random_seed(self, seed):
-        if seed:
-            self._random_seed = int(seed)
-            if self._random_seed:
-                np.random.seed(self._random_seed)
+        self._random_seed = None if seed is None else int(seed)
+        if self._random_seed is not None:
+            np.random.seed(self._random_seed)
 
     @property
     def search_space(self):
diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index d8153e1..b00959b 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -178,10 +178,9 @@ class OnePlusOne_CMA(object):
 
     @random_seed.setter
     def random_seed(self, seed):
-        if seed:
-            self._random_seed = int(seed)
-            if self._random_seed:
-                np.random.seed(self._random_seed)
+        self._random_seed = None if seed is None else int(seed)
+        if self._random_seed is not None:
+            np.random.seed(self._random_seed)
 
     @property
     def C(self):
-- 
2.43.0


From dbeed019d1e1ea1e640009ffea12b67623c87af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:29 +0000
Subject: [PATCH 57/79] fix: fmin passes vectors to the objective function

The documented example, which computes `x ** 2`, raised a TypeError as `x` was a list.
---
 bayes_optim/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/__init__.py b/bayes_optim/__init__.py
index e3cce93..3b44d79 100755
--- a/bayes_optim/__init__.py
+++ b/bayes_optim/__init__.py
@@ -134,7 +134,7 @@ def fmin(
     >>> minimum[0]
     0.007165794451494286
     """
-    obj_func = lambda x: func(x, *args)
+    obj_func = lambda x: func(np.asarray(x), *args)
 
     if isinstance(lower, (int, float)) and isinstance(upper, (int, float)):
         search_space = RealSpace([lower, upper])
-- 
2.43.0


From 714774beea85696b89f130d3c92787d25816cd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:42 +0000
Subject: [PATCH 58/79] fix: non_dominated_set_2d returns exactly the
 non-dominated points

Points with equal first objectives were visited in arbitrary order, so that dominated ones were
returned; `minimize` given per objective was applied to the rows; the caller's array was modified.
---
 bayes_optim/utils/multi_objective/pareto.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/utils/multi_objective/pareto.py b/bayes_optim/utils/multi_objective/pareto.py
index b44e212..30e2bd0 100644
--- a/bayes_optim/utils/multi_objective/pareto.py
+++ b/bayes_optim/utils/multi_objective/pareto.py
@@ -14,16 +14,17 @@ def non_dominated_set_2d(y, minimize=True):
         where the each solution occupies a row
     """
     y = np.asarray(y)
-    N, _ = y.shape
+    N, n_obj = y.shape
 
     if isinstance(minimize, bool):
         minimize = [minimize]
 
     minimize = np.asarray(minimize).ravel()
-    assert len(minimize) == 1 or minimize.shape == (N,)
-    y *= (np.asarray([-1] * N) ** minimize).reshape(-1, 1)
+    assert len(minimize) == 1 or minimize.shape == (n_obj,)
+    y = y * np.where(minimize, -1, 1)
 
-    _ = np.argsort(y[:, 0])[::-1]
+    # sort by the first objective; among equal ones, the larger second objective comes first
+    _ = np.lexsort((y[:, 1], y[:, 0]))[::-1]
     y2 = y[_, 1]
     ND = []
     for i in range(N):
-- 
2.43.0


From e8c6bd2ddd6c3035153aa62d1349a70dc22eba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:54 +0000
Subject: [PATCH 59/79] fix: PCA-BO can start from a single evaluated point

Its rank weight is zero, so that normalising the weights gave NaN.
---
 bayes_optim/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index a852be7..fd806ee 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -41,7 +41,7 @@ class LinearTransform(PCA):
         y_ = -1 * y if not self.minimize else y
         r = rankdata(y_)
         N = len(y_)
-        w = np.log(N) - np.log(r)
+        w = np.log(N) - np.log(r) if N > 1 else np.ones(N)  # a single point has no rank weight
         w /= np.sum(w)
         X_scaled = X_centered * w.reshape(-1, 1)
         return super().fit(X_scaled)  # fit the PCA transformation on the scaled data matrix
-- 
2.43.0


From 0e074a25a642fa70eb684b00d1854785a35fbdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:54 +0000
Subject: [PATCH 60/79] fix: PCA-BO goes on if no evaluation has succeeded yet

---
 bayes_optim/extension.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index fd806ee..71a033f 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -165,6 +165,8 @@ class PCABO(BO):
         self.eval_count += len(new_X)
 
         new_X = self.post_eval_check(new_X)  # remove NaN's
+        if len(new_X) == 0 and not hasattr(self, "data"):
+            return  # every evaluation failed so far: there is nothing to learn from yet
         self.data = self.data + new_X if hasattr(self, "data") else new_X
         # re-fit the PCA transformation
         X = self._pca.fit_transform(np.array(self.data), self.data.fitness)
-- 
2.43.0


From 06a0c9dd4063802f7633008d44fa74f2fec981d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:54 +0000
Subject: [PATCH 61/79] fix: multi-objective BO does not select a
 gradient-based inner optimizer by default

The number of objectives was unknown when the optimizer is selected, and EHVI has no gradient.
---
 bayes_optim/mobo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/mobo.py b/bayes_optim/mobo.py
index b07b32e..f65c23f 100644
--- a/bayes_optim/mobo.py
+++ b/bayes_optim/mobo.py
@@ -22,7 +22,7 @@ class BaseMOBO(BO):
 
     def __init__(self, n_obj: int = 2, minimize: Union[bool, List[bool]] = True, **kwargv):
         # NOTE: setting `minimize=True` to make parent's constructor work
-        super().__init__(minimize=True, **kwargv)
+        super().__init__(n_obj=n_obj, minimize=True, **kwargv)
         self._check_obj_fun(n_obj)
         self._check_minimize(minimize)
 
-- 
2.43.0


From e41c759027dabdcf5f0d8c4bb73047b68895d4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:54 +0000
Subject: [PATCH 62/79] fix: multi-objective BO goes on if no evaluation has
 succeeded yet

---
 bayes_optim/mobo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bayes_optim/mobo.py b/bayes_optim/mobo.py
index f65c23f..0dba8e3 100644
--- a/bayes_optim/mobo.py
+++ b/bayes_optim/mobo.py
@@ -126,6 +126,11 @@ class BaseMOBO(BO):
             self.logger.info(f"#{i + 1} - {_fitness}, solution: {self._to_pheno(X[i])}")
 
         X = self.post_eval_check(X)
+        if len(X) == 0 and not hasattr(self, "data"):
+            # every evaluation failed so far: there is nothing to learn from yet
+            if not warm_start:
+                self.iter_count += 1
+            return
         if self.data_file is not None:
             X.to_csv(self.data_file, header=False, append=True)
         self.data = self.data + X if hasattr(self, "data") else X
-- 
2.43.0


From 00720712714c611113cd5934b6318af0754ed558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:16 +0000
Subject: [PATCH 63/79] fix: adding a space in place keeps its conditional
 structure

`a += b` added the variables of `b` but none of its conditions, so that conditional
variables were taken as unconditional ones.
---
 bayes_optim/search_space/search_space.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 83e2461..7cbfd59 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -335,6 +335,9 @@ class SearchSpace:
     def __iadd__(self, space) -> SearchSpace:
         assert isinstance(space, SearchSpace)
         self._set_data(self.data + deepcopy(space.data))
+        # backwards compatibility
+        if hasattr(self, "structure"):
+            self._set_structure(self.structure + [t.deepcopy() for t in space.structure])
         SearchSpace.__set_type(self)
         return self
 
-- 
2.43.0


From a759c485d606ead1204291b011fe4debd6d94bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:16 +0000
Subject: [PATCH 64/79] fix: subtracting a space in place removes the variables
 from the structure

The structure still referred to the removed variables and `get_unconditional_subspace`
failed with an IndexError.
---
 bayes_optim/search_space/search_space.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 7cbfd59..00f9330 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -362,6 +362,9 @@ class SearchSpace:
         _res = set(self.var_name) - set(space.var_name)
         _index = [self.var_name.index(_) for _ in _res]
         self._set_data([self.data[i] for i in range(self.dim) if i in _index])
+        # backwards compatibility
+        if hasattr(self, "structure"):
+            self._set_structure(self.structure)
         SearchSpace.__set_type(self)
         return self
 
-- 
2.43.0


From 2bfaf703c0f8c3711585388fceee4c3f4990d6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:44 +0000
Subject: [PATCH 65/79] fix: a selector without conditional variables is an
 ordinary variable

After removing or slicing away the last variable depending on a selector, the selector was
kept as a tree without branches, on which `get_unconditional_subspace` failed with a TypeError.
---
 bayes_optim/search_space/search_space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 00f9330..0b51d47 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -194,7 +194,8 @@ class SearchSpace:
             if child not in children:
                 children.append(child)
         self.structure = [t.remove(self.var_name, invert=True) for t in Node.from_dict(_structure)]
-        self.structure = [t for t in self.structure if t]
+        # a variable whose conditional variables are all removed is not a selector anymore
+        self.structure = [t for t in self.structure if t and t.children]
 
     @staticmethod
     def __set_type(obj: SearchSpace) -> SearchSpace:
-- 
2.43.0


From fa96065da0b5e1726c7a4f2c5e0d5929cc8003ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:39 +0000
Subject: [PATCH 66/79] fix: MIES accepts user-given initial mutation strengths

The columns of `sigma0`, `eta0` and `P0` were only named if the default values are used, so
that giving any of them raised an AssertionError.
---
 bayes_optim/acquisition/optim/mies.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/bayes_optim/acquisition/optim/mies.py b/bayes_optim/acquisition/optim/mies.py
index 2c02ddc..a53a3b5 100644
--- a/bayes_optim/acquisition/optim/mies.py
+++ b/bayes_optim/acquisition/optim/mies.py
@@ -87,14 +87,18 @@ class MIES:
 
         # step default step-sizes/mutation strength
         par_name = []
-        if sigma0 is None and self.N_r:
-            sigma0 = 0.05 * (self.bounds_r[:, 1] - self.bounds_r[:, 0])
+        if self.N_r:
+            if sigma0 is None:
+                sigma0 = 0.05 * (self.bounds_r[:, 1] - self.bounds_r[:, 0])
+            sigma0 = np.broadcast_to(sigma0, self.N_r)
             par_name += ["sigma" + str(_) for _ in range(self.N_r)]
-        if eta0 is None and self.N_i:
-            eta0 = 0.05 * (self.bounds_i[:, 1] - self.bounds_i[:, 0])
+        if self.N_i:
+            if eta0 is None:
+                eta0 = 0.05 * (self.bounds_i[:, 1] - self.bounds_i[:, 0])
+            eta0 = np.broadcast_to(eta0, self.N_i)
             par_name += ["eta" + str(_) for _ in range(self.N_i)]
-        if P0 is None and self.N_d:
-            P0 = 1.0 / self.N_d
+        if self.N_d:
+            P0 = 1.0 / self.N_d if P0 is None else P0
             par_name += ["P" + str(_) for _ in range(self.N_p)]
 
         # column indices: used for slicing
-- 
2.43.0


From 5c8118d679127eb60230e8cb2f2765bf37d068fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:39 +0000
Subject: [PATCH 67/79] fix: MIES can be started from a given point

Passing `x0` raised ValueError: the mutation strengths, which are vectors, were
concatenated to `x0` as a matrix, and a single solution cannot be evaluated.
---
 bayes_optim/acquisition/optim/mies.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bayes_optim/acquisition/optim/mies.py b/bayes_optim/acquisition/optim/mies.py
index a53a3b5..16ef1b6 100644
--- a/bayes_optim/acquisition/optim/mies.py
+++ b/bayes_optim/acquisition/optim/mies.py
@@ -112,20 +112,20 @@ class MIES:
         if x0 is not None:  # given x0
             par = []
             if self.N_r:
-                par += [sigma0]
+                par += list(sigma0)
             if self.N_i:
-                par += [eta0]
+                par += list(eta0)
             if self.N_p:
                 par += [P0] * self.N_p
 
             self.pop = Solution(
-                np.tile(np.r_[x0, par], (self.mu_, 1)),
+                [list(x0) + par for _ in range(self.mu_)],
                 var_name=self.var_names + par_name,
                 verbose=self.verbose,
             )
-            fitness0 = self.evaluate(self.pop[0])
+            fitness0 = self.evaluate(self.pop[[0]])  # the initial population are copies of `x0`
             self.fitness = np.repeat(fitness0, self.mu_)
-            self.xopt = x0
+            self.xopt = self.pop[0, self._id_var]
             self.fopt = sum(fitness0)
         else:  # uniform sampling
             x = np.asarray(self._space.sample(self.mu_), dtype="object")
-- 
2.43.0


From 0e62fb336405db56f325ae2e1cb449396f348b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:39 +0000
Subject: [PATCH 68/79] fix: MIES can pass dictionaries to the objective
 function

`eval_type="dict"` raised TypeError since `Solution.to_dict` takes no search space.
---
 bayes_optim/acquisition/optim/mies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/optim/mies.py b/bayes_optim/acquisition/optim/mies.py
index 16ef1b6..f8a3f8e 100644
--- a/bayes_optim/acquisition/optim/mies.py
+++ b/bayes_optim/acquisition/optim/mies.py
@@ -57,7 +57,7 @@ class MIES:
         if self._eval_type == "list":
             self._to_pheno = lambda x: x
         elif self._eval_type == "dict":
-            self._to_pheno = lambda x: x.to_dict(space=self._space)
+            self._to_pheno = lambda x: x.to_dict()
 
         # index of each type of variables in the dataframe
         self.id_r = self._space.real_id  # index of continuous variable
-- 
2.43.0


From cfb0dc48d1b3bb8ac35e5365761f4d792492b984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:38 +0000
Subject: [PATCH 69/79] fix: assigning one variable to several positions of a
 space keeps the names unique

The same object was stored at each position, so that renaming one renamed all of them.
---
 bayes_optim/search_space/search_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 0b51d47..48fa927 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -275,7 +275,7 @@ class SearchSpace:
             self.data[index] = value
         elif hasattr(index, "__iter__") and not isinstance(index, str):
             if not hasattr(value, "__iter__") or isinstance(value, str):
-                value = [value] * len(index)
+                value = [deepcopy(value) for _ in index]
             for i, v in zip(index, value):
                 if isinstance(i, str):
                     k = np.nonzero(np.array(self.var_name) == i)[0][0]
-- 
2.43.0


From 069bf76f56e4032564aeb01a68d22833582d4078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:38 +0000
Subject: [PATCH 70/79] fix: variables can be assigned with the indices they
 can be read with

A numpy integer was ignored silently, and a mask was taken for the positions 0 and 1.
---
 bayes_optim/search_space/search_space.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 48fa927..1b716e2 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -243,7 +243,7 @@ class SearchSpace:
             )
 
     def __getitem__(self, index) -> Union[SearchSpace, Variable]:
-        if isinstance(index, (int, slice)):
+        if isinstance(index, (int, np.integer, slice)):
             data = self.data[index]
         elif hasattr(index, "__iter__") and not isinstance(index, str):
             index = np.array(index)
@@ -268,19 +268,21 @@ class SearchSpace:
         return out
 
     def __setitem__(self, index, value):
-        if isinstance(index, (int, slice)):
+        if isinstance(index, (int, np.integer, slice)):
             self.data[index] = value
         elif isinstance(index, str):
             index = np.nonzero(np.array(self.var_name) == index)[0][0]
             self.data[index] = value
         elif hasattr(index, "__iter__") and not isinstance(index, str):
+            if np.asarray(index).dtype == bool:  # mask array
+                index = np.nonzero(index)[0]
             if not hasattr(value, "__iter__") or isinstance(value, str):
                 value = [deepcopy(value) for _ in index]
             for i, v in zip(index, value):
                 if isinstance(i, str):
                     k = np.nonzero(np.array(self.var_name) == i)[0][0]
                     self.data[k] = v
-                elif isinstance(i, int):
+                elif isinstance(i, (int, np.integer)):
                     self.data[i] = v
                 else:
                     raise Exception(f"index type {type(i)} is not supported")
-- 
2.43.0


From e30ed2a35fb4452c571f4f11c2113c3e45f13057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:20 +0000
Subject: [PATCH 71/79] fix: noise is not part of what a Gaussian process with
 a nugget predicts

The correlation between a new point and the noisy observations lacked the share of the process
in the total variance, so that the prediction was too far from the trend and its variance too
small, e.g., almost zero at noisy observations.
---
 bayes_optim/surrogate/gaussian_process/gpr.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index dfa8200..7de4a17 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -403,12 +403,17 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
         self.noise_var = env["noise_var"]
         self.sigma2 = env["sigma2"]
         assert len(self.sigma2) == self.y.shape[1]
-        self.rho = env["rho"]
-        self.Yt = env["Yt"]
-        self.C = env["C"]
+        # the likelihood takes the covariance of the observations relative to the total variance,
+        # whereas the predictions take it relative to the variance of the process
+        scale = 1.0
+        if self.estimation_mode != "noiseless":
+            scale = np.sqrt(self.sigma2 / (self.sigma2 + self.noise_var))[0]
+        self.rho = env["rho"] * scale
+        self.Yt = env["Yt"] * scale
+        self.C = env["C"] / scale
         if self.mean_type == "basis_expansion" and self.estimate_trend:
-            self.Ft = env["Ft"]
-            self.G = env["G"]
+            self.Ft = env["Ft"] * scale
+            self.G = env["G"] * scale
             self.Q = env["Q"]
 
         # compute for beta and gamma
-- 
2.43.0


From 2d84cb5f5c7f522b1d2943ff437982d5e261fdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:15 +0000
Subject: [PATCH 72/79] fix: a Gaussian process can be fitted with the
 restricted likelihood

The variance was returned as a number where `fit` expects one value per target.
---
 bayes_optim/surrogate/gaussian_process/gpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index 7de4a17..4c3f038 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -895,7 +895,7 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
                     gradient[i] = -0.5 * (np.sum(Cinv * C_grad) - gamma_.T.dot(C_grad).dot(gamma_))
 
         if env is not None:
-            env["sigma2"] = sigma2
+            env["sigma2"] = np.repeat(sigma2, self.y.shape[1])
             env["noise_var"] = noise_var
             env["rho"] = rho
             env["Yt"] = Yt
-- 
2.43.0


From a948f9a0c78ba0e173ef0fcfcda8ef43b3de708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:15 +0000
Subject: [PATCH 73/79] fix: the restricted likelihood and its gradient

With a known trend the determinant had the wrong sign, and the gradient mixed up the total
variance and that of the process.
---
 bayes_optim/surrogate/gaussian_process/gpr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index 4c3f038..21b70e7 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -856,7 +856,7 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
                 -0.5
                 * (
                     n_samples * log(2 * pi * total_var)
-                    - 2 * np.log(np.diag(L)).sum()
+                    + 2 * np.log(np.diag(L)).sum()
                     + rho.T.dot(rho) / total_var
                 ).sum()
             )
@@ -872,10 +872,10 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
             Cinv = cho_solve((L, True), np.eye(n_samples)) / total_var
             if self.estimate_trend:
                 __ = solve_triangular(L.T, Q)
-                term = __.dot(__.T)
+                term = __.dot(__.T) / total_var
 
             # Covariance: partial derivatives w.r.t. theta
-            C_grad_tensor = total_var * self.corr_grad_theta(theta, self.X, R0)
+            C_grad_tensor = sigma2 * self.corr_grad_theta(theta, self.X, R0)
             # Covariance: partial derivatives w.r.t. sigma2
             C_grad_tensor = np.concatenate([C_grad_tensor, R0[..., np.newaxis]], axis=2)
 
-- 
2.43.0


From 5d81ee251b736ed49b8488e95a479c47a8a8b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:34 +0000
Subject: [PATCH 74/79] fix: the gradient of the RBF kernel lacks the distance
 factor

---
 bayes_optim/surrogate/gaussian_process/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/surrogate/gaussian_process/__init__.py b/bayes_optim/surrogate/gaussian_process/__init__.py
index dbf9559..e2a7410 100755
--- a/bayes_optim/surrogate/gaussian_process/__init__.py
+++ b/bayes_optim/surrogate/gaussian_process/__init__.py
@@ -226,5 +226,5 @@ class GaussianProcessSklearn:
             elif nu == 2.5:
                 g = -5.0 / 3 * sigma2 * np.exp(-np.sqrt(5) * d) * (1 + np.sqrt(5) * d) * d * dd
         elif isinstance(kernel, RBF):
-            g = -sigma2 * np.exp(-0.5 * d**2) * dd
+            g = -sigma2 * np.exp(-0.5 * d**2) * d * dd
         return g
-- 
2.43.0


From be41bde0ccc8ef9061f0951aa5ec52abbb799080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:34 +0000
Subject: [PATCH 75/79] fix: the variance gradient of several points fails for
 one variable

---
 bayes_optim/surrogate/gaussian_process/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/surrogate/gaussian_process/__init__.py b/bayes_optim/surrogate/gaussian_process/__init__.py
index e2a7410..656cb19 100755
--- a/bayes_optim/surrogate/gaussian_process/__init__.py
+++ b/bayes_optim/surrogate/gaussian_process/__init__.py
@@ -187,7 +187,7 @@ class GaussianProcessSklearn:
                 setattr(gp, "_K_inv", L_inv.dot(L_inv.T))
 
             mean_dx[i, ...] = scale * k_dx @ gp.alpha_
-            var_dx[i, ...] = -2.0 * scale**2 * np.squeeze(k_dx @ getattr(gp, "_K_inv") @ k)
+            var_dx[i, ...] = -2.0 * scale**2 * np.squeeze(k_dx @ getattr(gp, "_K_inv") @ k, axis=2)
         return mean_dx, var_dx
 
     def kernel_dx(self, gp: sk_gpr, X: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 783109cfd5aad9ec65b92cb6593a096f7bf02641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:34 +0000
Subject: [PATCH 76/79] fix: MSLL overwrites the variances of the caller

---
 bayes_optim/surrogate/gaussian_process/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/surrogate/gaussian_process/utils.py b/bayes_optim/surrogate/gaussian_process/utils.py
index 576247f..a64af2f 100755
--- a/bayes_optim/surrogate/gaussian_process/utils.py
+++ b/bayes_optim/surrogate/gaussian_process/utils.py
@@ -30,11 +30,12 @@ def MSLL(train_y, test_y, pred_y, variances):
     mean_y = np.mean(train_y)
     var_y = np.var(train_y)
     for i in range(len(variances)):
-        if variances[i] == 0:
-            variances[i] += 0.0000001  # hack
+        variance = variances[i]
+        if variance == 0:
+            variance = 0.0000001  # hack
         sll_trivial = 0.5 * log(2 * pi * var_y) + ((test_y[i] - mean_y) ** 2 / (2 * var_y))
         sllv = (
-            0.5 * log(2 * pi * variances[i]) + ((test_y[i] - pred_y[i]) ** 2 / (2 * variances[i]))
+            0.5 * log(2 * pi * variance) + ((test_y[i] - pred_y[i]) ** 2 / (2 * variance))
         ) - sll_trivial
         sll.append(sllv)
     sll = np.array(sll)
-- 
2.43.0


From 62d6733f0c2354945f241d091c5b1bf31e9e0bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:26 +0000
Subject: [PATCH 77/79] fix: Daemon.stop fails because time is not imported

---
 bayes_optim/utils/_daemon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayes_optim/utils/_daemon.py b/bayes_optim/utils/_daemon.py
index 7267446..e32a29e 100644
--- a/bayes_optim/utils/_daemon.py
+++ b/bayes_optim/utils/_daemon.py
@@ -3,6 +3,7 @@ import errno
 import os
 import signal
 import sys
+import time
 
 
 class Daemon(object):
-- 
2.43.0


From 3b9d987d80bf9ee2cad5daa3565e003b7a8aba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:26 +0000
Subject: [PATCH 78/79] fix: an empty process file makes the Daemon fail to
 stop or start

---
 bayes_optim/utils/_daemon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/utils/_daemon.py b/bayes_optim/utils/_daemon.py
index e32a29e..476c46b 100644
--- a/bayes_optim/utils/_daemon.py
+++ b/bayes_optim/utils/_daemon.py
@@ -140,7 +140,7 @@ class Daemon(object):
             pf = open(self.pidfile, "r")
             pid = int(pf.read().strip())
             pf.close()
-        except IOError:
+        except (IOError, ValueError):  # no file, or one without a process number
             pid = None
         except SystemExit:
             pid = None
@@ -207,7 +207,7 @@ class Daemon(object):
             pf = open(self.pidfile, "r")
             pid = int(pf.read().strip())
             pf.close()
-        except IOError:
+        except (IOError, ValueError):  # no file, or one without a process number
             pid = None
         except SystemExit:
             pid = None
-- 
2.43.0


From b24619b3b6a05fb547d2fe7fde2ef3d52c627c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:03 +0000
Subject: [PATCH 79/79] fix: a random forest can be created without categorical
 levels

---
 bayes_optim/surrogate/random_forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/surrogate/random_forest.py b/bayes_optim/surrogate/random_forest.py
index 22a643c..bae8ca2 100644
--- a/bayes_optim/surrogate/random_forest.py
+++ b/bayes_optim/surrogate/random_forest.py
@@ -88,7 +88,7 @@ class RandomForest(RandomForestRegressor):
             min_samples_leaf=min_samples_leaf,
             **kwargs,
         )
-        assert isinstance(levels, dict)
+        assert levels is None or isinstance(levels, dict)
         self.levels = levels
         self.is_fitted = False
 
-- 
2.43.0

