From 74f54dbea34675399a1e3b763b62ac1261a168b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:15 +0000
Subject: [PATCH 01/73] fix: ftarget of a maximization problem is hit when the
 best value exceeds it

---
 bayes_optim/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/_base.py b/bayes_optim/_base.py
index 94a2098..a0c3541 100644
--- a/bayes_optim/_base.py
+++ b/bayes_optim/_base.py
@@ -176,4 +176,4 @@ class BaseOptimizer:
 
     def _compare(self, f1: float, f2: float) -> bool:
         """Test if objecctive value f1 is better than f2"""
-        return f1 < f2 if self.minimize else f2 > f1
+        return f1 < f2 if self.minimize else f1 > f2
-- 
2.43.0


From 89344e96df4d81939e69e1e5d637aa2339edfe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:15 +0000
Subject: [PATCH 02/73] fix: optimizers no longer share one mutable
 acquisition-parameter dictionary

---
 bayes_optim/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index ce22003..376cd18 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -109,7 +109,7 @@ class BaseBO(BaseOptimizer):
         self.DoE_size = DoE_size
 
         self.acquisition_fun = acquisition_fun
-        self._acquisition_par = acquisition_par if acquisition_par else {}
+        self._acquisition_par = dict(acquisition_par) if acquisition_par else {}
         # the callback functions executed after every call of `arg_max_acquisition`
         self._acquisition_callbacks = []
         self.model = model
-- 
2.43.0


From 491720e6d0fb6334adb5060fc14d418c3030ba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:15 +0000
Subject: [PATCH 03/73] fix: single-point acquisition uses the user-supplied
 acquisition parameters

---
 bayes_optim/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 376cd18..d4e7082 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -468,7 +468,9 @@ class BaseBO(BaseOptimizer):
                 n_point=n_point, return_dx=return_dx, fixed=fixed
             )
         else:  # single-point strategy
-            criteria = self._create_acquisition(par={}, return_dx=return_dx, fixed=fixed)
+            criteria = self._create_acquisition(
+                par=copy(self._acquisition_par), return_dx=return_dx, fixed=fixed
+            )
             candidates, values = self._argmax_restart(criteria, logger=self.logger)
             candidates, values = [candidates], [values]
 
-- 
2.43.0


From c22ae9e801828757beb530777fb60be118ea88b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:15 +0000
Subject: [PATCH 04/73] fix: slicing or building a search space does not
 re-seed the random generator

---
 bayes_optim/search_space/search_space.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index a01926f..801e7b1 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -131,7 +131,8 @@ class SearchSpace:
         if seed:
             seed = int(seed)
         self._random_seed = seed
-        np.random.seed(self._random_seed)
+        if seed is not None:
+            np.random.seed(self._random_seed)
 
     @staticmethod
     def _ready_args(bounds, var_name, **kwargs):
@@ -260,7 +261,8 @@ class SearchSpace:
         if isinstance(data, Variable):
             out = data
         elif isinstance(data, list):
-            out = SearchSpace(data, self.random_seed)
+            # NOTE: do not hand over the seed, which would re-seed the generator per slice
+            out = SearchSpace(data)
             # backwards compatibility
             if hasattr(self, "structure"):
                 getattr(out, "_set_structure")(self.structure)
-- 
2.43.0


From 1f34c8ee310825fb34f627045f38b21e3f0c7133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:15 +0000
Subject: [PATCH 05/73] fix: restarts of the acquisition search are not all
 seeded with the same constant

---
 bayes_optim/acquisition/optim/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index d55d253..65f30cb 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -1,5 +1,4 @@
 import logging
-import time
 from typing import Callable, List, Tuple
 
 import numpy as np
@@ -104,7 +103,7 @@ def argmax_restart(
                 n_restart=0,
                 minimize=False,
                 verbose=False,
-                seed=time.time(),
+                random_seed=None,
             )
             xopt_, fopt_, stop_dict = opt.run()
             stop_dict["funcalls"] = stop_dict["FEs"] if "FEs" in stop_dict else opt.eval_count
-- 
2.43.0


From 4dbef1cca879894c15443f9a0867e480e4f9e38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:44 +0000
Subject: [PATCH 06/73] fix: random_seed=0 seeds the optimizer and an unset
 seed reads as None

---
 bayes_optim/_base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/_base.py b/bayes_optim/_base.py
index a0c3541..91036a7 100644
--- a/bayes_optim/_base.py
+++ b/bayes_optim/_base.py
@@ -149,10 +149,9 @@ class BaseOptimizer:
 
     @random_seed.setter
     def random_seed(self, seed):
-        if seed:
-            self._random_seed = int(seed)
-            if self._random_seed:
-                np.random.seed(self._random_seed)
+        self._random_seed = None if seed is None else int(seed)
+        if self._random_seed is not None:
+            np.random.seed(self._random_seed)
 
     @property
     def search_space(self):
-- 
2.43.0


From 139b32035c615575ad1fd422060b609329957f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:44 +0000
Subject: [PATCH 07/73] fix: UCB prefers better predictions instead of worse
 ones

---
 bayes_optim/acquisition/acquisition_fun.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/acquisition/acquisition_fun.py b/bayes_optim/acquisition/acquisition_fun.py
index 9a2ae06..c88fe68 100644
--- a/bayes_optim/acquisition/acquisition_fun.py
+++ b/bayes_optim/acquisition/acquisition_fun.py
@@ -108,9 +108,9 @@ class UCB(AcquisitionFunction):
     def __init__(self, alpha: float = 0.5, **kwargs):
         """Upper Confidence Bound
 
-        \alpha(x) = m(x) + \alpha * \sigma(x),
+        \alpha(x) = -m(x) + \alpha * \sigma(x),
 
-        where m(x) the predicted value and \sigma(x) is the uncertainty of the prediction
+        where m(x) the predicted value (subject to minimization) and \sigma(x) is the uncertainty of the prediction
         """
         super().__init__(**kwargs)
         self.alpha = alpha
@@ -130,7 +130,7 @@ class UCB(AcquisitionFunction):
         y_hat, sd = self._predict(X)
 
         try:
-            f_value = y_hat + self.alpha * sd
+            f_value = -1.0 * y_hat + self.alpha * sd
             if n_sample == 1:
                 f_value = sum(f_value)
         except Exception:  # in case of numerical errors
@@ -140,7 +140,7 @@ class UCB(AcquisitionFunction):
             y_dx, sd2_dx = self._gradient(X)
             sd_dx = sd2_dx / (2.0 * sd)
             try:
-                f_dx = y_dx + self.alpha * sd_dx
+                f_dx = -1.0 * y_dx + self.alpha * sd_dx
             except Exception:
                 f_dx = np.zeros((len(X[0]), 1))
             return f_value, f_dx
-- 
2.43.0


From eb8dc257c70b53850e530821847c371d93be8761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:44 +0000
Subject: [PATCH 08/73] fix: the probability-of-improvement acquisition can be
 constructed

---
 bayes_optim/acquisition/acquisition_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/acquisition_fun.py b/bayes_optim/acquisition/acquisition_fun.py
index c88fe68..d03dcf5 100644
--- a/bayes_optim/acquisition/acquisition_fun.py
+++ b/bayes_optim/acquisition/acquisition_fun.py
@@ -202,7 +202,7 @@ class EpsilonPI(ImprovementBased):
 
     @epsilon.setter
     def epsilon(self, eps):
-        assert eps > 0
+        assert eps >= 0
         self._epsilon = eps
 
     def __call__(self, X, return_dx=False):
-- 
2.43.0


From 438eeff184491338453255bde57ad39e4875a7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:44 +0000
Subject: [PATCH 09/73] fix: Node.remove/deepcopy keep the nodes that are not
 removed

---
 bayes_optim/search_space/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/node.py b/bayes_optim/search_space/node.py
index 7e5d8aa..d970980 100644
--- a/bayes_optim/search_space/node.py
+++ b/bayes_optim/search_space/node.py
@@ -100,7 +100,7 @@ class Node:
         Node
             the updated root node
         """
-        op = lambda e, S: e not in S if invert else lambda e, S: e in S
+        op = (lambda e, S: e not in S) if invert else (lambda e, S: e in S)
         if op(self.name, node_names):
             return None
         node = Node(self.name, deepcopy(self.data))
-- 
2.43.0


From ce514e2df6ffab049d2bb8a727a5714709f2ddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:44 +0000
Subject: [PATCH 10/73] fix: summing two search spaces does not rename the
 variables of the right operand

---
 bayes_optim/search_space/search_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 801e7b1..bd79798 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -321,7 +321,7 @@ class SearchSpace:
         assert isinstance(space, SearchSpace)
         # NOTE: the random seed of `self` has the priority
         random_seed = self.random_seed if self.random_seed else space.random_seed
-        data = deepcopy(self.data) + space.data
+        data = deepcopy(self.data) + deepcopy(space.data)
         if hasattr(self, "structure"):
             structure = [t.deepcopy() for t in self.structure] + [
                 t.deepcopy() for t in space.structure
@@ -335,7 +335,7 @@ class SearchSpace:
 
     def __iadd__(self, space) -> SearchSpace:
         assert isinstance(space, SearchSpace)
-        self._set_data(self.data + space.data)
+        self._set_data(self.data + deepcopy(space.data))
         SearchSpace.__set_type(self)
         return self
 
-- 
2.43.0


From 8e60963b7ef37c31ff38f9b4b6d524eeedf061b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:44 +0000
Subject: [PATCH 11/73] fix: multiplying a search space in place by one leaves
 it unchanged

---
 bayes_optim/search_space/search_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index bd79798..f518ca1 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -400,7 +400,7 @@ class SearchSpace:
             `self`
         """
         self._set_data(
-            self.data + [deepcopy(var) for _ in range(max(1, int(N - 1))) for var in self.data]
+            self.data + [deepcopy(var) for _ in range(max(1, int(N)) - 1) for var in self.data]
         )
         return self
 
-- 
2.43.0


From fbde2b45b904c4527d4b73960819dd07355392b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:44 +0000
Subject: [PATCH 12/73] fix: SearchSpace.update handles any number of common
 and new variables

---
 bayes_optim/search_space/search_space.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index f518ca1..28bbc46 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -485,17 +485,11 @@ class SearchSpace:
             the input space for the update
         """
         _var_name = space.var_name
-        _update = np.array(list(set(_var_name) & set(self.var_name)))
-        _add = np.array(list(set(_var_name) - set(self.var_name)))
-
-        _index_update_to = np.nonzero(np.array(self._var_name) == _update)[0]
-        _index_update_from = np.nonzero(np.array(_var_name) == _update)[0]
-        for i, k in enumerate(_index_update_to):
-            j = _index_update_from[i]
-            self.data[k] = deepcopy(space.data[j])
-
-        _index_add = np.nonzero(np.array(_var_name) == _add)[0]
-        self.data += [space.data[i] for i in _index_add]
+        for name, var in zip(_var_name, space.data):
+            if name in self._var_name:
+                self.data[self._var_name.index(name)] = deepcopy(var)
+            else:
+                self.data.append(deepcopy(var))
         self._set_data(self.data)
         return SearchSpace.__set_type(self)
 
-- 
2.43.0


From 3e6f752d63c5c8db75f57adfd141411b490ec377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:44 +0000
Subject: [PATCH 13/73] fix: SearchSpace.from_dict reads defaults and steps
 without altering its input

---
 bayes_optim/search_space/search_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 28bbc46..54f803b 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -641,7 +641,7 @@ class SearchSpace:
                 bounds = ()
 
             N = range(int(v["N"])) if "N" in v else range(1)
-            default_value = v["defualt"] if "default" in v else None
+            default_value = v["default"] if "default" in v else None
             try:
                 if v["type"] in ["r", "real"]:  # real-valued parameter
                     precision = v["precision"] if "precision" in v else None
@@ -658,7 +658,7 @@ class SearchSpace:
                     ]
                 elif v["type"] in ["i", "int", "integer"]:  # integer-valued parameter
                     _vars = [
-                        Integer(bounds, name=k, default_value=default_value, step=v.pop("step", 1))
+                        Integer(bounds, name=k, default_value=default_value, step=v.get("step", 1))
                         for _ in N
                     ]
                 elif v["type"] in ["o", "ordinal"]:  # ordinal parameter
-- 
2.43.0


From 910b7f9f4a947a597c1f82d500c2cd7193e5490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:28 +0000
Subject: [PATCH 14/73] fix: renaming duplicated variables never yields another
 duplicate

---
 bayes_optim/search_space/search_space.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 54f803b..30d3623 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -165,12 +165,16 @@ class SearchSpace:
     def _check_data(self, data):
         assert all([isinstance(d, self._supported_types) for d in data])
         names = np.asarray([var.name for var in data])
+        taken = set(names.tolist())
         for name, count in Counter(names).items():
             if count > 1:
                 idx = np.nonzero(names == name)[0]
-                _names = [name + str(i) for i in range(count)]
-                for i, k in enumerate(idx):
-                    data[k].name = _names[i]
+                # NOTE: the new names should not clash with the ones already in use
+                _names = (name + str(i) for i in itertools.count())
+                _names = (n for n in _names if n not in taken)
+                for k in idx:
+                    data[k].name = next(_names)
+                taken.update(data[k].name for k in idx)
 
     def _set_structure(self, structure: Union[dict, List[Node]] = None):
         if structure is None:
-- 
2.43.0


From bbba48ce11366f425da7836e02c242b5b161f970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:28 +0000
Subject: [PATCH 15/73] fix: slicing a conditional space does not duplicate its
 conditional variables

---
 bayes_optim/search_space/search_space.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 30d3623..062cdbc 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -185,7 +185,7 @@ class SearchSpace:
             for t in structure:
                 _structure.update(t.to_dict())
         elif isinstance(structure, dict):
-            _structure = structure
+            _structure = {k: list(v) for k, v in structure.items()}
         # scan for all conditions defined in variables
         for var in self.data:
             if not hasattr(var, "conditions") or var.conditions is None:
@@ -194,9 +194,10 @@ class SearchSpace:
             key = var.conditions["vars"][0]
             if key not in var.conditions["vars"]:
                 raise ValueError(f"variable {var} not in {self}")
-            _structure.setdefault(key, []).append(
-                {"name": var.name, "condition": var.conditions["string"]}
-            )
+            child = {"name": var.name, "condition": var.conditions["string"]}
+            # NOTE: this child might have been included in the input structure already
+            if child not in _structure.setdefault(key, []):
+                _structure[key].append(child)
         self.structure = [t.remove(self.var_name, invert=True) for t in Node.from_dict(_structure)]
         self.structure = [t for t in self.structure if t]
 
-- 
2.43.0


From 0f069c923938760fa349243ae38ee47a3274f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:28 +0000
Subject: [PATCH 16/73] fix: unconditional subspaces contain every variable
 that is active under a branch

---
 bayes_optim/search_space/node.py         | 17 ++++++++---------
 bayes_optim/search_space/search_space.py |  2 +-
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/bayes_optim/search_space/node.py b/bayes_optim/search_space/node.py
index d970980..b99ab99 100644
--- a/bayes_optim/search_space/node.py
+++ b/bayes_optim/search_space/node.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from copy import copy, deepcopy
+from itertools import product
 from typing import Any, Dict, List, Tuple
 
 
@@ -172,17 +173,15 @@ class Node:
             return {(): None}
 
         path = dict()
-        for br in set(self.branches):
+        for br in dict.fromkeys(self.branches):
+            # all children under the same branch are active simultaneously
             _path = [
-                ((br,) + p, v) if p else ((br,), [self.children[i].name])
-                for i in [i for i, b in enumerate(self.branches) if b == br]
-                for p, v in Node.get_all_path(self.children[i]).items()
+                list(child.get_all_path().items()) if child.children else [((), [child.name])]
+                for child, b in zip(self.children, self.branches)
+                if b == br
             ]
-            _merged = dict()
-            for k, v in _path:
-                for vv in v:
-                    _merged.setdefault(k, []).append(vv)
-            path.update(_merged)
+            for item in product(*_path):
+                path[sum((k for k, _ in item), (br,))] = sum((v for _, v in item), [])
         return path
 
     def __str__(self) -> str:
diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 062cdbc..919f9e9 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -702,7 +702,7 @@ class SearchSpace:
             # all variables in the conditional structure
             _var = _reduce([t.get_all_name() for t in self.structure])
             # remaining variables not affected by conditions
-            isolated_var = [self[v] for v in set(self.var_name) - set(_var)]
+            isolated_var = [self[v] for v in self.var_name if v not in _var]
             out, d = list(), dict()
             # all paths in the conditional tree
             paths = [list(root.get_all_path().items()) for root in self.structure]
-- 
2.43.0


From 79e9fd0d6f071c8c11d0c58b3bbef841ac41e84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:28 +0000
Subject: [PATCH 17/73] fix: Solution.from_dict assigns values by variable name
 rather than by key order

---
 bayes_optim/solution.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 774d2f6..1086dcc 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -273,11 +273,13 @@ class Solution(np.ndarray):
         **kwargs,
     ) -> Solution:
         if isinstance(x, dict):
-            var_name = list(x.keys())
-            res = cls.__new__(cls, x=list(x.values()), var_name=var_name, index=index, **kwargs)
+            var_name = list(x.keys() if var_name is None else var_name)
+            _x = [x[k] for k in var_name]
+            res = cls.__new__(cls, x=_x, var_name=var_name, index=index, **kwargs)
         elif isinstance(x, list):
-            var_name = list(x[0].keys())
-            _x = [list(_.values()) for _ in x]
+            # NOTE: the order of keys might differ from one dictionary to another
+            var_name = list(x[0].keys() if var_name is None else var_name)
+            _x = [[_[k] for k in var_name] for _ in x]
             res = cls.__new__(cls, x=_x, var_name=var_name, index=index, **kwargs)
         return res
 
-- 
2.43.0


From 6ac4db43a697213346376935f39e0ff08dd0917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:02 +0000
Subject: [PATCH 18/73] fix: a point told once has been evaluated once

---
 bayes_optim/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index d4e7082..49f068e 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -177,7 +177,7 @@ class BaseBO(BaseOptimizer):
     def _set_aux_vars(self):
         if self._eval_type == "list":
             self._to_pheno = lambda x: copy(x.tolist())
-            self._to_geno = lambda x, index=None, n_eval=1, fitness=None: Solution(
+            self._to_geno = lambda x, index=None, n_eval=0, fitness=None: Solution(
                 x,
                 var_name=self.var_names,
                 n_obj=self.n_obj,
-- 
2.43.0


From 247e301d50424f4bfb6ac39e0e6d5029f6fecc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:02 +0000
Subject: [PATCH 19/73] fix: points told as dictionaries are matched to the
 search space by name

---
 bayes_optim/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 49f068e..3bb7247 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -187,7 +187,9 @@ class BaseBO(BaseOptimizer):
             )
         elif self._eval_type == "dict":
             self._to_pheno = lambda x: x.to_dict().copy()
-            self._to_geno = lambda x, index=None: Solution.from_dict(x, index=index, n_obj=self.n_obj)
+            self._to_geno = lambda x, index=None: Solution.from_dict(
+                x, index=index, var_name=self.var_names, n_obj=self.n_obj
+            )
 
     def _set_internal_optimization(self, kwargs):
         if kwargs is None:
-- 
2.43.0


From 62e48df8cb350bed45aa45893eb68dccf99bbbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:02 +0000
Subject: [PATCH 20/73] fix: warm data may be a Solution and may hold any
 categorical level

---
 bayes_optim/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 3bb7247..da24534 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -162,7 +162,7 @@ class BaseBO(BaseOptimizer):
             assert len(X) == len(y)
 
             if isinstance(X, Solution):
-                assert X.var_name == self.var_names
+                assert list(X.var_name) == list(self.var_names)
             else:
                 X = self._to_geno(X)
 
@@ -170,9 +170,10 @@ class BaseBO(BaseOptimizer):
             X.n_eval = 1
             assert all([isinstance(_, float) for _ in X[:, self.r_index].ravel()])
             assert all([isinstance(_, int) for _ in X[:, self.i_index].ravel()])
-            assert all([isinstance(_, str) for _ in X[:, self.d_index].ravel()])
+            levels = self.search_space.levels
+            assert all([_ in levels[i] for i in self.d_index for _ in np.asarray(X)[:, i]])
             self._warm_data = X
-            self.tell(X, y, warm_start=True)
+            self.tell(self._to_pheno(X), y, warm_start=True)
 
     def _set_aux_vars(self):
         if self._eval_type == "list":
-- 
2.43.0


From 7e9b9ee9ebbe2eb248e069ae313d8aaaae1b23bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:02 +0000
Subject: [PATCH 21/73] fix: a failing save neither corrupts the optimizer nor
 truncates an earlier checkpoint

---
 bayes_optim/base.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index da24534..0afa6dc 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -507,21 +507,23 @@ class BaseBO(BaseOptimizer):
         if dirname != "":
             os.makedirs(dirname, exist_ok=True)
 
-        with open(filename, "wb") as f:
+        logger, data = self.logger, getattr(self, "data", None)
+        try:
             # NOTE: we need to dump `self.data` first. Otherwise, some
             # attributes of it will be lost
-            if hasattr(self, "data"):
-                self.data = dill.dumps(self.data)
-
-            logger = self.logger
-            self.logger = dump_logger(self.logger)
-
-            dill.dump(self, f)
-
+            if data is not None:
+                self.data = dill.dumps(data)
+            self.logger = dump_logger(logger)
+            obj = dill.dumps(self)
+        finally:
+            # restore the state even if the serialization fails
             self.logger = logger
-            if hasattr(self, "data"):
-                self.data = dill.loads(self.data)
-            self.logger.info(f"save to file {filename}...")
+            if data is not None:
+                self.data = data
+
+        with open(filename, "wb") as f:
+            f.write(obj)
+        self.logger.info(f"save to file {filename}...")
 
     @classmethod
     def load(cls, filename):
-- 
2.43.0


From 32c2e1946cfcf8950752e3324c825c5bafc98739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:02 +0000
Subject: [PATCH 22/73] fix: points suggested in one batch are distinct

---
 bayes_optim/base.py      | 15 +++++++--------
 bayes_optim/bayes_opt.py |  6 +++++-
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 0afa6dc..36b59ec 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -289,7 +289,7 @@ class BaseBO(BaseOptimizer):
                 )
                 N = n_point - len(X)
                 # take random samples if the acquisition optimization failed
-                X += self.create_DoE(N, fixed=fixed)
+                X = self.pre_eval_check(X + self.create_DoE(N, fixed=fixed))
         else:  # take the initial DoE
             n_point = self._DoE_size if n_point is None else n_point
             msg = f"asking {n_point} points (using DoE):"
@@ -380,22 +380,21 @@ class BaseBO(BaseOptimizer):
 
         count = 0
         DoE = []
-        while n_point:
+        while len(DoE) < n_point:
+            N = n_point - len(DoE)
             # NOTE: random sampling could generate duplicated points again
             # keep sampling until getting enough points
             X = search_space.sample(
-                n_point,
-                method="LHS" if n_point > 1 else "uniform",
+                N,
+                method="LHS" if N > 1 else "uniform",
                 h=partial_argument(self._h, self.search_space.var_name, fixed) if self._h else None,
                 g=partial_argument(self._g, self.search_space.var_name, fixed) if self._g else None,
             ).tolist()
             X = fillin_fixed_value(X, fixed, self.search_space)
 
             if len(X) != 0:
-                X = self.search_space.round(X)
-                X = self.pre_eval_check(X)
-                DoE += X
-                n_point -= len(X)
+                X = self.search_space.round(X).tolist()
+                DoE = self.pre_eval_check(DoE + X)
 
             count += 1
             if count > 3:  # maximally 3 iterations
diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index b760b5d..ff9f471 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -39,7 +39,11 @@ class BO(BaseBO):
         _ = []
         for i in range(N):
             x = X[i]
-            idx = np.arange(len(X)) != i
+            # compare to the data and the candidates kept so far
+            idx = _ + list(range(N, len(X)))
+            if len(idx) == 0:
+                _ += [i]
+                continue
             CON = np.all(
                 np.isclose(
                     np.asarray(X[idx][:, self.r_index], dtype="float"),
-- 
2.43.0


From f834c3f1421fbad24a2f5ec7d9b3c94137b3ea83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:03 +0000
Subject: [PATCH 23/73] fix: NoisyBO can suggest points

---
 bayes_optim/bayes_opt.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index ff9f471..bb94d47 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -181,10 +181,9 @@ class SelfAdaptiveBO(ParallelBO):
 class NoisyBO(ParallelBO):
     """Bayesian Optimization for Noisy Scenarios"""
 
-    def pre_eval_check(self, X: List):
-        if not isinstance(X, Solution):
-            X = Solution(X, var_name=self.var_names)
-        return X
+    def pre_eval_check(self, X: List) -> List:
+        # NOTE: duplicated solutions are allowed in noisy scenarios
+        return X.tolist() if isinstance(X, np.ndarray) else X
 
     def _create_acquisition(self, fun: Callable = None, par: Dict = None, **kwargv):
         par = {} if par is None else par
-- 
2.43.0


From 54e893d8e162b5a8c14945454ecf9a6bd21c82e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:03 +0000
Subject: [PATCH 24/73] fix: rounding to the precision neither breaks
 constraints nor alters fixed values

---
 bayes_optim/base.py                      | 1 -
 bayes_optim/search_space/search_space.py | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 36b59ec..1bfd5bd 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -393,7 +393,6 @@ class BaseBO(BaseOptimizer):
             X = fillin_fixed_value(X, fixed, self.search_space)
 
             if len(X) != 0:
-                X = self.search_space.round(X).tolist()
                 DoE = self.pre_eval_check(DoE + X)
 
             count += 1
diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 919f9e9..ea06f42 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -533,7 +533,7 @@ class SearchSpace:
         # 10 is the minimal number of sample points to take under constraints
         n = max(N, 10) if h or g else N
         constraints = lambda x: np.r_[np.abs(h(x)) if h else [], np.array(g(x)) if g else []]
-        S = SCMC(self, constraints, tol=tol).sample(n) if h or g else self._sample(N, method)
+        S = self.round(SCMC(self, constraints, tol=tol).sample(n)) if h or g else self._sample(N, method)
         try:
             # NOTE: equality constraints are converted to an epsilon-tude around the
             # corresponding manifold
-- 
2.43.0


From 0953a2441b984136942c9e4ab4007c0f7be14ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:03 +0000
Subject: [PATCH 25/73] fix: candidates from the acquisition search respect the
 numerical precision

---
 bayes_optim/acquisition/optim/__init__.py            | 2 +-
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index 65f30cb..70341b7 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -83,7 +83,7 @@ def argmax_restart(
                 bounds=bounds,
                 maxfun=eval_budget,
             )
-            xopt_ = xopt_.flatten().tolist()
+            xopt_ = search_space.round(xopt_).flatten().tolist()
             if not isinstance(fopt_, float):
                 fopt_ = float(fopt_)
             fopt_ = -fopt_
diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index c8295f8..d9879d7 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -214,6 +214,7 @@ class OnePlusOne_CMA(object):
             # sample `x` u.a.r. in `[lb, ub]`
             assert all(~np.isinf(self.lb)) & all(~np.isinf(self.ub))
             x = (self.ub - self.lb) * np.random.rand(self.dim) + self.lb
+            x = self.search_space.round(x).ravel()
 
         self._x = x
         y = self.evaluate(x)
-- 
2.43.0


From 27e4d0892b098038cdc3aa29ddad94b5dc22c30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:03 +0000
Subject: [PATCH 26/73] fix: integer candidates stay on the grid of the
 declared step

---
 bayes_optim/acquisition/optim/mies.py | 7 +++++--
 bayes_optim/search_space/samplers.py  | 7 +++++--
 bayes_optim/search_space/variable.py  | 4 ++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/bayes_optim/acquisition/optim/mies.py b/bayes_optim/acquisition/optim/mies.py
index a8a5524..7a0b50e 100644
--- a/bayes_optim/acquisition/optim/mies.py
+++ b/bayes_optim/acquisition/optim/mies.py
@@ -254,10 +254,13 @@ class MIES:
         eta[eta > 1] = 1
 
         p = 1 - (eta / self.N_i) / (1 + np.sqrt(1 + (eta / self.N_i) ** 2.0))
-        x_ = x + geometric(p) - geometric(p)
+        step = np.array([self._space.data[i].step for i in self.id_i])
+        x_ = x + step * (geometric(p) - geometric(p))
 
         # Interval Bounds Treatment
-        x_ = np.asarray(handle_box_constraint(x_, self.bounds_i[:, 0], self.bounds_i[:, 1]), dtype="int")
+        lb, ub = self.bounds_i[:, 0], self.bounds_i[:, 1]
+        x_ = np.asarray(handle_box_constraint(x_, lb, ub), dtype="int")
+        x_ = lb + (x_ - lb) // step * step  # stay on the grid of `step`
         individual[self.id_i] = x_
         individual[self._id_eta] = eta
 
diff --git a/bayes_optim/search_space/samplers.py b/bayes_optim/search_space/samplers.py
index b62235e..f51f889 100644
--- a/bayes_optim/search_space/samplers.py
+++ b/bayes_optim/search_space/samplers.py
@@ -137,11 +137,14 @@ class SCMC:
     def _rproposal_integer(self, X: np.ndarray, t: int):
         X_ = X[:, self.id_i].astype(int)
         p = norm.cdf(np.std(X_, axis=0) / (t + 1))
-        X[:, self.id_i] = np.clip(
-            X_ + np.random.geometric(p, X_.shape) - np.random.geometric(p, X_.shape),
+        step = np.array([self.sample_space.data[i].step for i in self.id_i])
+        lb = np.array([self.sample_space.bounds[i][0] for i in self.id_i])
+        X_ = np.clip(
+            X_ + step * (np.random.geometric(p, X_.shape) - np.random.geometric(p, X_.shape)),
             self.bounds_i[:, 0],
             self.bounds_i[:, 1],
         )
+        X[:, self.id_i] = lb + (X_ - lb) // step * step  # stay on the grid of `step`
 
     def _rproposal_discrete(self, X: np.ndarray, t: int):
         N = len(X)
diff --git a/bayes_optim/search_space/variable.py b/bayes_optim/search_space/variable.py
index 8a4a41b..1eba048 100644
--- a/bayes_optim/search_space/variable.py
+++ b/bayes_optim/search_space/variable.py
@@ -322,16 +322,16 @@ class Integer(_Discrete):
         step: Optional[Union[int, float]] = 1,
         **kwargs,
     ):
+        self.step = step
         super().__init__(bounds, name, default_value, **kwargs)
         assert len(self.bounds) == 2
         assert self.bounds[0] < self.bounds[1]
         assert all(map(lambda x: isinstance(x, (int, float)), self.bounds))
-        self.step = step
         self._map_func = _gen_map_func(self.bounds[0], self.step)
         self._size = int(np.floor((self.bounds[1] - self.bounds[0]) / self.step) + 1)
 
     def __contains__(self, x: int) -> bool:
-        return self.bounds[0] <= x <= self.bounds[1]
+        return self.bounds[0] <= x <= self.bounds[1] and (x - self.bounds[0]) % self.step == 0
 
     def __hash__(self):
         return hash((self.name, self.bounds, self.default_value, self.step))
-- 
2.43.0


From deb69851466675c5e2146e3a9515acfc9887c36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:16 +0000
Subject: [PATCH 27/73] fix: the categorical mask covers subsets and leaves the
 subset mask intact

---
 bayes_optim/search_space/search_space.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index ea06f42..0ed6fb1 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -232,9 +232,8 @@ class SearchSpace:
             self.categorical_id = np.r_[
                 self.discrete_id, self.ordinal_id, self.bool_id, self.subset_id
             ]
-            self.categorical_mask = np.bitwise_or(
-                self.bool_mask,
-                np.bitwise_or(self.discrete_mask, self.ordinal_mask, self.subset_mask),
+            self.categorical_mask = (
+                self.discrete_mask | self.ordinal_mask | self.bool_mask | self.subset_mask
             )
 
     def _set_levels(self):
-- 
2.43.0


From a69e52136af3b3e1bf9c2f38a02716a8615438c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:16 +0000
Subject: [PATCH 28/73] fix: constrained sampling keeps the type of categorical
 levels

---
 bayes_optim/search_space/samplers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/search_space/samplers.py b/bayes_optim/search_space/samplers.py
index f51f889..5b0f4ab 100644
--- a/bayes_optim/search_space/samplers.py
+++ b/bayes_optim/search_space/samplers.py
@@ -150,9 +150,9 @@ class SCMC:
         N = len(X)
         prob = max(0.5 * np.exp(-1 * t), 1 / self.N_d)
         for i in self.id_d:
-            levels = np.array(self.sample_space.bounds[i])
-            idx = np.random.rand(N) < prob
-            X[idx, i] = levels[np.random.randint(0, len(levels), sum(idx))]
+            levels = self.sample_space.bounds[i]
+            for k in np.nonzero(np.random.rand(N) < prob)[0]:
+                X[k, i] = levels[np.random.randint(0, len(levels))]
 
     def _ess(self, nu: float, nu_ref: float, X: np.ndarray) -> float:
         """effective sample size"""
-- 
2.43.0


From f1340c10c46820d90049ea1d3694dcf7a4135f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:16 +0000
Subject: [PATCH 29/73] fix: a search space can be exported to and restored
 from a dictionary or JSON

---
 bayes_optim/search_space/search_space.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 0ed6fb1..0bbd551 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -591,9 +591,10 @@ class SearchSpace:
         out: dict = {}
         for _, var in enumerate(self.data):
             value = {
-                "range": var.bounds,
-                "type": type(var),
+                "range": getattr(var, "_bounds", var.bounds),
+                "type": "cat" if type(var) is Discrete else type(var).__name__.lower(),
                 "N": 1,
+                "default": var.default_value,
             }
             if isinstance(var, Real):
                 value["precision"] = var.precision
@@ -601,8 +602,8 @@ class SearchSpace:
             elif isinstance(var, Integer):
                 value["step"] = var.step
 
-            if hasattr(var, "conditions"):
-                value["conditions"] = var.conditions
+            if getattr(var, "conditions", None) is not None:
+                value["conditions"] = var.conditions["string"]
                 # TODO: also export var._action?
             out[var.name] = value
         return out
@@ -673,6 +674,8 @@ class SearchSpace:
                     _vars = [Subset(bounds, name=k, default_value=default_value) for _ in N]
                 elif v["type"] in ["b", "bool"]:  # Boolean-valued
                     _vars = [Bool(name=k, default_value=default_value) for _ in N]
+                for var in _vars:
+                    var.set_conditions(v.get("conditions", None))
                 variables += _vars
             except:
                 print(param)
-- 
2.43.0


From a0d650d18df361288ec0b80c684baab76d2f76c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:16 +0000
Subject: [PATCH 30/73] fix: ConditionalBO keeps the values 0 and False of told
 points

---
 bayes_optim/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index eb5189b..9d9b0b5 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -288,7 +288,7 @@ class ConditionalBO(ParallelBO):
         assert len(self._bo_idx) == len(X)
         # call `tell` method of BOs in each subspace
         for i, k in enumerate(self._bo_idx):
-            x = {k: v for k, v in X[i].items() if v}
+            x = {k: v for k, v in X[i].items() if v is not None}
             for key, _ in self._fixed_vars[k].items():
                 x.pop(key)
             self._bo[k].tell([x], [func_vals[i]], **kwargs)
-- 
2.43.0


From 93af2504e895d3954cfa4e756a601823d49e75b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:16 +0000
Subject: [PATCH 31/73] fix: ConditionalBO records every told point under its
 own variables and counts it

---
 bayes_optim/extension.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 9d9b0b5..dd7eb48 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -214,7 +214,7 @@ class ConditionalBO(ParallelBO):
         self._create_optimizer(**kwargs)
         self._ucb = np.zeros(self.n_subspace)
         self._to_pheno = lambda x: x.to_dict()
-        self._to_geno = lambda x, **kwargs: Solution.from_dict(x, **kwargs)
+        self._to_geno = lambda x, **kwargs: Solution.from_dict(x, var_name=self.var_names, **kwargs)
         self._bo_idx: List[int] = list()
 
     def _create_optimizer(self, **kwargs):
@@ -293,9 +293,10 @@ class ConditionalBO(ParallelBO):
                 x.pop(key)
             self._bo[k].tell([x], [func_vals[i]], **kwargs)
 
-        X = self.post_eval_check(self._to_geno(X, fitness=func_vals))
+        if not warm_start:
+            self.eval_count += len(X)
+        X = self.post_eval_check(self._to_geno(X, fitness=func_vals, n_eval=1))
         self.data = self.data + X if hasattr(self, "data") else X
-        self.eval_count += len(X)
 
         xopt = self.xopt
         self.logger.info(f"fopt: {xopt.fitness}")
-- 
2.43.0


From 60a60610d4497b3096206cdfcd09597e5da2ba7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:16 +0000
Subject: [PATCH 32/73] fix: concatenating solutions aligns their variables by
 name

---
 bayes_optim/solution.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 1086dcc..84e9085 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -149,6 +149,11 @@ class Solution(np.ndarray):
         assert len(set(self.fitness_name).symmetric_difference(other.fitness_name)) == 0
         assert len(set(self.var_name).symmetric_difference(other.var_name)) == 0
 
+        # NOTE: variables of `other` might be in a different order
+        if list(self.var_name) != list(other.var_name):
+            idx = [list(other.var_name).index(name) for name in self.var_name]
+            other = other[idx] if len(other.shape) == 1 else other[:, idx]
+
         _ = [self.tolist()] if len(self.shape) == 1 else self.tolist()
         __ = [other.tolist()] if len(other.shape) == 1 else other.tolist()
         return Solution(
-- 
2.43.0


From 7aa18eeef9b222d4ba5a430ccdb03ccda1ea1db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:16 +0000
Subject: [PATCH 33/73] fix: a single solution may start with a tuple-valued
 variable

---
 bayes_optim/solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 84e9085..a5fc685 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -76,7 +76,7 @@ class Solution(np.ndarray):
             obj = np.asarray([_ + [1] for _ in x], dtype="object")[:, 0:dim].view(cls)
         elif isinstance(x[0], tuple):
             dim = len(x)
-            obj = np.asarray(x + [1], dtype="object")[:, 0:dim].view(cls)
+            obj = np.asarray(x + [1], dtype="object")[0:dim].view(cls)
         else:
             obj = np.asarray(x, dtype="object").view(cls)
 
-- 
2.43.0


From 19a4d4579315a1c874f42d168fa3900a6f9b5e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:16 +0000
Subject: [PATCH 34/73] fix: SelfAdaptiveBO ranks the candidates by their
 acquisition values

---
 bayes_optim/bayes_opt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index bb94d47..89268d3 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -173,7 +173,7 @@ class SelfAdaptiveBO(ParallelBO):
             __ = [list(self._argmax_restart(_, logger=self.logger)) for _ in criteria]
 
         # NOTE: this adaptation is different from what I did in the LeGO paper..
-        idx = np.argsort(__[1])[::-1][:N]
+        idx = np.argsort([v if len(c) else -np.inf for c, v in __])[::-1][:N]
         self._acquisition_par["t"] = np.mean([_t_list[i] for i in idx])
         return tuple(zip(*__))
 
-- 
2.43.0


From dff589db10a02481bb0c9c9921f39c31b4502fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:16 +0000
Subject: [PATCH 35/73] fix: multi-objective optimizers accept warm-starting
 data

---
 bayes_optim/mobo.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/mobo.py b/bayes_optim/mobo.py
index 2588af4..b10b81b 100644
--- a/bayes_optim/mobo.py
+++ b/bayes_optim/mobo.py
@@ -20,11 +20,19 @@ __authors__ = ["Hao Wang"]
 class BaseMOBO(BO):
     """Base class for multi-objective BO"""
 
-    def __init__(self, n_obj: int = 2, minimize: Union[bool, List[bool]] = True, **kwargv):
+    def __init__(
+        self,
+        n_obj: int = 2,
+        minimize: Union[bool, List[bool]] = True,
+        warm_data: Tuple = None,
+        **kwargv,
+    ):
         # NOTE: setting `minimize=True` to make parent's constructor work
-        super().__init__(minimize=True, **kwargv)
+        super().__init__(n_obj=n_obj, minimize=True, **kwargv)
         self._check_obj_fun(n_obj)
         self._check_minimize(minimize)
+        # NOTE: warm data can only be handled after the objectives are known
+        self.warm_data = warm_data
 
     def _check_minimize(self, minimize: bool):
         self.minimize = minimize
-- 
2.43.0


From 02a16e62286f20a341c1c603dd20c5232fc2399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:16 +0000
Subject: [PATCH 36/73] fix: failed evaluations are removed in the
 multi-objective case as well

---
 bayes_optim/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 1bfd5bd..560169e 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -412,7 +412,7 @@ class BaseBO(BaseOptimizer):
         """
 
     def post_eval_check(self, X: Solution) -> Solution:
-        _ = np.isnan(X.fitness) | np.isinf(X.fitness)
+        _ = ~np.isfinite(X.fitness.reshape(len(X), -1)).all(axis=1)
         if np.any(_):
             self.logger.warning(
                 f"{sum(_)} candidate solutions are removed "
-- 
2.43.0


From 1275ef062aad5d25fecb2346a3a103b41b42ec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:16 +0000
Subject: [PATCH 37/73] fix: non_dominated_set_2d handles ties and leaves its
 input unchanged

---
 bayes_optim/utils/multi_objective/pareto.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/utils/multi_objective/pareto.py b/bayes_optim/utils/multi_objective/pareto.py
index b44e212..af17b35 100644
--- a/bayes_optim/utils/multi_objective/pareto.py
+++ b/bayes_optim/utils/multi_objective/pareto.py
@@ -21,9 +21,9 @@ def non_dominated_set_2d(y, minimize=True):
 
     minimize = np.asarray(minimize).ravel()
     assert len(minimize) == 1 or minimize.shape == (N,)
-    y *= (np.asarray([-1] * N) ** minimize).reshape(-1, 1)
+    y = y * (np.asarray([-1] * N) ** minimize).reshape(-1, 1)
 
-    _ = np.argsort(y[:, 0])[::-1]
+    _ = np.lexsort((y[:, 1], y[:, 0]))[::-1]
     y2 = y[_, 1]
     ND = []
     for i in range(N):
-- 
2.43.0


From 8b13f7c9a85277eb2645eedc72730d2ba9da715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:16 +0000
Subject: [PATCH 38/73] fix: fmin reports the points of every iteration,
 starting with the initial design

---
 bayes_optim/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/__init__.py b/bayes_optim/__init__.py
index 0115a59..9685c72 100755
--- a/bayes_optim/__init__.py
+++ b/bayes_optim/__init__.py
@@ -188,11 +188,15 @@ def fmin(
     )
     opt.run()
 
-    N, n = opt.DoE_size, opt.n_point
+    # NOTE: the warm-starting data, if any, replace the initial DoE
+    N, n = len(warm_data[0]) if warm_data else opt.DoE_size, opt.n_point
     _data, data = opt.data[:N, :], opt.data[N:, :]
 
-    data_per_iteration = [np.asarray(data[:N, :])]
-    data_per_iteration += [np.asarray(data[(i * n) : ((i + 1) * n), :]) for i in range(opt.iter_count - 1)]
+    data_per_iteration = [] if warm_data else [np.asarray(_data)]
+    data_per_iteration += [
+        np.asarray(data[(i * n) : ((i + 1) * n), :])
+        for i in range(opt.iter_count - len(data_per_iteration))
+    ]
 
     print(
         "Optimization terminated successfully.\n"
-- 
2.43.0


From be7fb965c6912a3f7caf2cf7a7888737cd4874b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:20 +0000
Subject: [PATCH 39/73] fix: the optimization survives an initial batch in
 which every evaluation fails

---
 bayes_optim/base.py      | 3 +++
 bayes_optim/extension.py | 3 +++
 bayes_optim/mobo.py      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 560169e..4a7e30f 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -340,6 +340,9 @@ class BaseBO(BaseOptimizer):
             self.logger.info(f"#{i + 1} - fitness: {func_vals[i]}, solution: {self._to_pheno(X[i])}")
 
         X = self.post_eval_check(X)
+        if len(X) == 0 and self.xopt is None:  # all evaluations have failed so far
+            self.iter_count += int(not warm_start)
+            return
         self.data = self.data + X if hasattr(self, "data") else X
         self.update_model()
 
diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index dd7eb48..4dcdc25 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -296,6 +296,9 @@ class ConditionalBO(ParallelBO):
         if not warm_start:
             self.eval_count += len(X)
         X = self.post_eval_check(self._to_geno(X, fitness=func_vals, n_eval=1))
+        if len(X) == 0 and self.xopt is None:  # all evaluations have failed so far
+            self.iter_count += int(not warm_start)
+            return
         self.data = self.data + X if hasattr(self, "data") else X
 
         xopt = self.xopt
diff --git a/bayes_optim/mobo.py b/bayes_optim/mobo.py
index b10b81b..da2a498 100644
--- a/bayes_optim/mobo.py
+++ b/bayes_optim/mobo.py
@@ -134,6 +134,9 @@ class BaseMOBO(BO):
             self.logger.info(f"#{i + 1} - {_fitness}, solution: {self._to_pheno(X[i])}")
 
         X = self.post_eval_check(X)
+        if len(X) == 0 and self.xopt is None:  # all evaluations have failed so far
+            self.iter_count += int(not warm_start)
+            return
         if self.data_file is not None:
             X.to_csv(self.data_file, header=False, append=True)
         self.data = self.data + X if hasattr(self, "data") else X
-- 
2.43.0


From 8cdd7e24e94f3a5d77057a52754bc680905610f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:20 +0000
Subject: [PATCH 40/73] fix: observed points reach the data file even if
 updating the model fails

---
 bayes_optim/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 4a7e30f..b472ece 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -344,10 +344,9 @@ class BaseBO(BaseOptimizer):
             self.iter_count += int(not warm_start)
             return
         self.data = self.data + X if hasattr(self, "data") else X
-        self.update_model()
-
         if self.data_file is not None:
             X.to_csv(self.data_file, header=False, append=True)
+        self.update_model()
 
         xopt = self.xopt
         self.logger.info(f"fopt: {xopt.fitness}")
-- 
2.43.0


From 5e9a7c6a33b50a8d95dd608552642eb0609186cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:38 +0000
Subject: [PATCH 41/73] fix: the Cholesky update of the (1+1)-CMA-ES yields no
 NaN when rounding cancels the mutations

---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index d9879d7..7b9a45b 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -462,8 +462,8 @@ class OnePlusOne_Cholesky_CMA(OnePlusOne_CMA):
         w_ = w.dot(self._A_inv)
         L = np.sum(w**2)
 
-        self._A += (np.sqrt(1 + L * cb / ca) - 1) / L * np.outer(self.pc, w)
+        if L > 0:  # NOTE: the path `pc` vanishes if rounding cancels every mutation so far
+            self._A += (np.sqrt(1 + L * cb / ca) - 1) / L * np.outer(self.pc, w)
+            self._A_inv -= (1 - 1 / np.sqrt(1 + L * cb / ca)) / L * np.outer(w, w_)
         self._A *= np.sqrt(ca)
-
-        self._A_inv -= (1 - 1 / np.sqrt(1 + L * cb / ca)) / L * np.outer(w, w_)
         self._A_inv *= 1 / np.sqrt(ca)
-- 
2.43.0


From bc776a2c247f4d5d13395ce5f0d9f974c38b570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:14 +0000
Subject: [PATCH 42/73] fix: the adaptation of t in SelfAdaptiveBO does not
 diverge

---
 bayes_optim/bayes_opt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index 89268d3..84f9d8f 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -159,7 +159,8 @@ class SelfAdaptiveBO(ParallelBO):
         N = int(n_point / 2)
 
         for _ in range(n_point):
-            _t = np.exp(self._acquisition_par["t"] * np.random.randn())
+            # NOTE: `MGFI` caps `t` at the same value. Without it, the adaptation can diverge
+            _t = min(np.exp(self._acquisition_par["t"] * np.random.randn()), 22.36)
             _t_list.append(_t)
             _acquisition_par = copy(self._acquisition_par)
             _acquisition_par.update({"t": _t})
-- 
2.43.0


From 92177e311b3ab55157a4177e3f4eafc5697d7757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:28 +0000
Subject: [PATCH 43/73] fix: the multi-objective recommendation does not merge
 values that differ beyond single precision

---
 bayes_optim/mobo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/mobo.py b/bayes_optim/mobo.py
index da2a498..b1238df 100644
--- a/bayes_optim/mobo.py
+++ b/bayes_optim/mobo.py
@@ -5,7 +5,7 @@ import numpy as np
 from joblib import Parallel, delayed
 from sklearn.metrics import mean_squared_error, r2_score
 from sklearn.preprocessing import MinMaxScaler
-from torch import Tensor
+from torch import Tensor, as_tensor
 
 from .acquisition.optim import argmax_restart
 from .bayes_opt import BO
@@ -61,7 +61,7 @@ class BaseMOBO(BO):
         """get the non-dominated subset of solutions"""
         if self.y is None:
             return None
-        idx = is_non_dominated(Tensor(self.y)).detach().cpu().numpy()
+        idx = is_non_dominated(as_tensor(self.y)).detach().cpu().numpy()
         return self.data[idx, :]
 
     @property
-- 
2.43.0


From 684f51fafc51be92c5a59527eacb230c6af0ac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:36 +0000
Subject: [PATCH 44/73] fix: constraints and criteria accept points whose free
 variables are subsets

---
 bayes_optim/utils/utils.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/bayes_optim/utils/utils.py b/bayes_optim/utils/utils.py
index 5494afc..f4c8799 100644
--- a/bayes_optim/utils/utils.py
+++ b/bayes_optim/utils/utils.py
@@ -160,6 +160,13 @@ def fillin_fixed_value(X: List[List], fixed: Dict, search_space):
     return out.tolist()
 
 
+def _to_rows(X: Union[np.ndarray, Solution, list, tuple]) -> Union[np.ndarray, List]:
+    """a sequence of points; the argument can be a single point, which might contain tuples"""
+    if isinstance(X, np.ndarray):
+        return np.atleast_2d(np.asarray(X))
+    return X if isinstance(X[0], (list, np.ndarray)) else [X]
+
+
 def partial_argument(
     func: callable,
     var_name: List[str],
@@ -183,10 +190,8 @@ def partial_argument(
 
     @functools.wraps(func)
     def wrapper(X: Union[np.ndarray, Solution, list]):
-        if not isinstance(X, np.ndarray):
-            X = np.array(X, dtype=object)
-
-        N = 1 if len(X.shape) == 1 else X.shape[1]
+        X = _to_rows(X)
+        N = len(X)
         X_ = np.empty((N, len(masks)), dtype=object)
         X_[:, ~masks] = X
         # this is needed if `values` contains tuples
@@ -218,10 +223,9 @@ def partial_argument(
 def func_with_list_arg(func, arg_type, var_names):
     @functools.wraps(func)
     def wrapper(X):
-        if isinstance(X, (list, tuple)):
-            X = np.array(X, dtype="object")
-        if len(X.shape) == 1:
-            X = X[np.newaxis, :]
+        X_ = _to_rows(X)
+        X = np.empty((len(X_), len(var_names)), dtype=object)
+        X[:, :] = X_
         X = Solution(X, var_name=var_names)
         if arg_type == "list":
             X = X.tolist()
-- 
2.43.0


From 341f4926a4457207ccd243f468826b030ddc7976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:36 +0000
Subject: [PATCH 45/73] fix: ParallelBO can be used with criteria other than
 MGFI without extra parameters

---
 bayes_optim/bayes_opt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index 84f9d8f..bcb53a4 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -71,9 +71,11 @@ class ParallelBO(BO):
         self,
         n_point: int = 3,
         acquisition_fun: str = "MGFI",
-        acquisition_par: Dict = {"t": 2},
+        acquisition_par: Dict = None,
         **kwargs,
     ):
+        if acquisition_par is None and acquisition_fun == "MGFI":
+            acquisition_par = {"t": 2}
         super().__init__(
             n_point=n_point,
             acquisition_fun=acquisition_fun,
-- 
2.43.0


From 86304ccfbd1591f4234c6bb86a80958b3ac630ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:59 +0000
Subject: [PATCH 46/73] fix: renaming clashing variables neither changes the
 given variables nor leaves duplicates

---
 bayes_optim/search_space/search_space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 0bbd551..1c1932e 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -95,7 +95,7 @@ class SearchSpace:
         self._levels: dict = {}
 
         self.random_seed: int = random_seed
-        self._set_data(data)
+        self._set_data(list(data))
         self._set_structure(structure)
         SearchSpace.__set_type(self)
 
@@ -173,6 +173,8 @@ class SearchSpace:
                 _names = (name + str(i) for i in itertools.count())
                 _names = (n for n in _names if n not in taken)
                 for k in idx:
+                    # NOTE: the variable might be shared with the caller/other spaces
+                    data[k] = copy(data[k])
                     data[k].name = next(_names)
                 taken.update(data[k].name for k in idx)
 
-- 
2.43.0


From 5ab182ed62905454724cf31de604ae76787cfc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:59 +0000
Subject: [PATCH 47/73] fix: naming the variables of a subspace does not
 corrupt the space it was taken from

---
 bayes_optim/search_space/search_space.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 1c1932e..c8d879d 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -110,9 +110,10 @@ class SearchSpace:
         else:
             assert len(var_name) == self.dim
 
-        for i, name in enumerate(var_name):
-            self.data[i].name = name
-        self._set_data(self.data)
+        data = [copy(var) for var in self.data]
+        for var, name in zip(data, var_name):
+            var.name = name
+        self._set_data(data)
 
     @property
     def var_type(self):
-- 
2.43.0


From 4ceae1b7817fbce30642698ef6ffd3444c78a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:59 +0000
Subject: [PATCH 48/73] fix: assigning a variable updates the type of the space

---
 bayes_optim/search_space/search_space.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index c8d879d..d6854b4 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -293,6 +293,7 @@ class SearchSpace:
                 else:
                     raise Exception(f"index type {type(i)} is not supported")
         self._set_data(self.data)
+        SearchSpace.__set_type(self)
 
     def __contains__(self, item: Union[str, Variable, SearchSpace, list, dict]) -> bool:
         """check if a name, a variable, a space, or a sample point in the the search space"""
-- 
2.43.0


From bff6a0f895179c7a0785c64e95d8cc1d6fa78d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:59 +0000
Subject: [PATCH 49/73] fix: the index sets and levels of an emptied search
 space are empty

---
 bayes_optim/search_space/search_space.py | 40 +++++++++++-------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index d6854b4..dac8cb0 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -223,31 +223,29 @@ class SearchSpace:
 
     def _set_index(self):
         """set indices for each type of variables"""
-        if self.dim > 0:
-            for var_type in self._supported_types:
-                name = var_type.__name__
-                attr_mask = name.lower() + "_mask"
-                attr_id = name.lower() + "_id"
-                mask = np.asarray(self._var_type) == name
-                self.__dict__[attr_mask] = mask
-                self.__dict__[attr_id] = np.nonzero(mask)[0]
-
-            self.categorical_id = np.r_[
-                self.discrete_id, self.ordinal_id, self.bool_id, self.subset_id
-            ]
-            self.categorical_mask = (
-                self.discrete_mask | self.ordinal_mask | self.bool_mask | self.subset_mask
-            )
+        for var_type in self._supported_types:
+            name = var_type.__name__
+            attr_mask = name.lower() + "_mask"
+            attr_id = name.lower() + "_id"
+            mask = np.array([t == name for t in self._var_type], dtype=bool)
+            self.__dict__[attr_mask] = mask
+            self.__dict__[attr_id] = np.nonzero(mask)[0]
+
+        self.categorical_id = np.r_[
+            self.discrete_id, self.ordinal_id, self.bool_id, self.subset_id
+        ]
+        self.categorical_mask = (
+            self.discrete_mask | self.ordinal_mask | self.bool_mask | self.subset_mask
+        )
 
     def _set_levels(self):
         # TODO: check if this is still needed
         """Set categorical levels for all nominal variables"""
-        if self.dim > 0:
-            self.levels = (
-                {i: self._bounds[i] for i in self.categorical_id}
-                if len(self.categorical_id) > 0
-                else {}
-            )
+        self.levels = (
+            {i: self._bounds[i] for i in self.categorical_id}
+            if len(self.categorical_id) > 0
+            else {}
+        )
 
     def __getitem__(self, index) -> Union[SearchSpace, Variable]:
         if isinstance(index, (int, slice)):
-- 
2.43.0


From 67a682963c53f911f8fc3764c526fd5a18720957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:59 +0000
Subject: [PATCH 50/73] fix: default values of subset variables survive the
 JSON export

---
 bayes_optim/search_space/search_space.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index dac8cb0..d5b4dcd 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -673,6 +673,8 @@ class SearchSpace:
                 elif v["type"] in ["c", "cat"]:  # category-valued parameter
                     _vars = [Discrete(bounds, name=k, default_value=default_value) for _ in N]
                 elif v["type"] in ["s", "subset"]:  # subset parameter
+                    if isinstance(default_value, list):  # there are no tuples in JSON
+                        default_value = tuple(default_value)
                     _vars = [Subset(bounds, name=k, default_value=default_value) for _ in N]
                 elif v["type"] in ["b", "bool"]:  # Boolean-valued
                     _vars = [Bool(name=k, default_value=default_value) for _ in N]
-- 
2.43.0


From 178e5fdfb92936f0768375fb5836b3ff8b597cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:59 +0000
Subject: [PATCH 51/73] fix: in-place summation and subtraction keep the
 conditional structure up to date

---
 bayes_optim/search_space/search_space.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index d5b4dcd..1e4dd83 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -342,6 +342,8 @@ class SearchSpace:
     def __iadd__(self, space) -> SearchSpace:
         assert isinstance(space, SearchSpace)
         self._set_data(self.data + deepcopy(space.data))
+        if hasattr(self, "structure"):
+            self._set_structure(self.structure + space.structure)
         SearchSpace.__set_type(self)
         return self
 
@@ -366,6 +368,8 @@ class SearchSpace:
         _res = set(self.var_name) - set(space.var_name)
         _index = [self.var_name.index(_) for _ in _res]
         self._set_data([self.data[i] for i in range(self.dim) if i in _index])
+        if hasattr(self, "structure"):
+            self._set_structure(self.structure)
         SearchSpace.__set_type(self)
         return self
 
-- 
2.43.0


From bac3ffff42082801de8bc7f12519df72a84c5775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:16 +0000
Subject: [PATCH 52/73] fix: filtering an empty search space with inversion

---
 bayes_optim/search_space/search_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 1e4dd83..6db0267 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -443,7 +443,7 @@ class SearchSpace:
         Union[Variable, SearchSpace]
             the resulting subspace
         """
-        masks = [v in keys for v in self.var_name]
+        masks = np.array([v in keys for v in self.var_name], dtype=bool)
         if invert:
             masks = np.bitwise_not(masks)
         return self[masks]
-- 
2.43.0


From 5097c48da37659c89a661e200faf1fdb2899a511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:48 +0000
Subject: [PATCH 53/73] fix: sampling under a scalar-valued equality constraint

---
 bayes_optim/search_space/search_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 6db0267..db1611c 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -543,7 +543,7 @@ class SearchSpace:
             # NOTE: equality constraints are converted to an epsilon-tude around the
             # corresponding manifold
             idx_h = (
-                list(map(lambda x: all(np.isclose(np.abs(h(x)), 0, atol=tol)), S))
+                list(map(lambda x: np.all(np.isclose(np.abs(h(x)), 0, atol=tol)), S))
                 if h
                 else [True] * n
             )
-- 
2.43.0


From 3851d7e6fbc996c9300eb457d33e666cd69a8e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:46 +0000
Subject: [PATCH 54/73] fix: indexing a Solution from its end or with numpy
 integers keeps the attributes aligned

---
 bayes_optim/solution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index a5fc685..60c67e5 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -214,8 +214,8 @@ class Solution(np.ndarray):
         if isinstance(index, tuple):
             _ = index[0]
             if len(index) == 2:
-                if isinstance(index[1], int) and not isinstance(index[0], int):
-                    __ = slice(index[1], index[1] + 1)
+                if isinstance(index[1], (int, np.integer)) and not isinstance(index[0], (int, np.integer)):
+                    __ = slice(index[1], index[1] + 1 or None)
                     index = (_, __)
                 else:
                     __ = index[1]
@@ -227,7 +227,7 @@ class Solution(np.ndarray):
             # NOTE: `slice` is needed here to make sure an array is always returned
             # after slicing attributes `fitness`, `n_eval, `index`
             # Otherwise setting the attribute of a slice is by value...
-            _ = slice(_, _ + 1) if isinstance(_, (int, np.int_)) else _
+            _ = slice(_, _ + 1 or None) if isinstance(_, (int, np.integer)) else _
             if len(self.shape) == 1:  # `self` is a 1-d array
                 subarr.var_name = subarr.var_name[_]
             else:
-- 
2.43.0


From 39fb658f5c7896fa1ea5d5d6dfb64e550e2e0607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:46 +0000
Subject: [PATCH 55/73] fix: assigning a longer index to a solution does not
 truncate it

---
 bayes_optim/solution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 60c67e5..55de43b 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -132,7 +132,7 @@ class Solution(np.ndarray):
         # TODO: a np.ndarray is used for those attributes because slicing it returns references
         super(Solution, obj).__setattr__("fitness", np.asarray(fitness, dtype=float))
         super(Solution, obj).__setattr__("n_eval", np.asarray(n_eval, dtype=int))
-        super(Solution, obj).__setattr__("index", np.asarray(index, dtype=str))
+        super(Solution, obj).__setattr__("index", np.asarray(list(map(str, index)), dtype=object))
         obj.var_name = np.asarray(var_name)
         obj.fitness_name = fitness_name
         obj.verbose = verbose
@@ -188,7 +188,8 @@ class Solution(np.ndarray):
     def __setattr__(self, name, value):
         attr = getattr(self, name, None)
         if hasattr(attr, "__iter__") and name in ["fitness", "n_eval", "index"]:
-            attr[:] = value  # NOTE: copy the value (not reference) to the attribute
+            # NOTE: copy the value (not reference) to the attribute
+            attr[:] = np.asarray(value, dtype=str) if name == "index" else value
         else:
             super(Solution, self).__setattr__(name, value)
 
-- 
2.43.0


From a06301a1f1fb9c4a9f8e9e56e6b5d60c10f80e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:46 +0000
Subject: [PATCH 56/73] fix: rows of multi-objective solutions can be
 concatenated, replicated, and exported

---
 bayes_optim/solution.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 55de43b..da91ecb 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -158,7 +158,7 @@ class Solution(np.ndarray):
         __ = [other.tolist()] if len(other.shape) == 1 else other.tolist()
         return Solution(
             _ + __,
-            self.fitness.tolist() + other.fitness.tolist(),
+            self._fitness_rows() + other._fitness_rows(),
             self.n_eval.tolist() + other.n_eval.tolist(),
             var_name=self.var_name,
             fitness_name=self.fitness_name,
@@ -174,7 +174,7 @@ class Solution(np.ndarray):
             raise Exception("Replication is not supported for 2D")
         return Solution(
             [self.tolist()] * N,
-            self.fitness.tolist() * N,
+            self._fitness_rows() * N,
             self.n_eval.tolist() * N,
             var_name=self.var_name,
             fitness_name=self.fitness_name,
@@ -182,6 +182,10 @@ class Solution(np.ndarray):
             verbose=self.verbose,
         )
 
+    def _fitness_rows(self) -> List:
+        """fitness per row, where the fitness of a single row might be one-dimensional"""
+        return (np.atleast_2d(self.fitness) if self.n_obj > 1 else self.fitness).tolist()
+
     def __rmul__(self, N: int) -> Solution:
         return self.__mul__(N)
 
@@ -198,7 +202,7 @@ class Solution(np.ndarray):
         headers = var_name + ["n_eval"] + self.fitness_name if self.verbose else var_name
         if len(self.shape) == 1:
             t = (
-                [self.tolist() + self.n_eval.tolist() + self.fitness.tolist()]
+                [self.tolist() + self.n_eval.tolist() + self.fitness.ravel().tolist()]
                 if self.verbose
                 else [self.tolist()]
             )
@@ -376,7 +380,7 @@ class Solution(np.ndarray):
         if index:
             data = np.c_[self.index, data]
         if attribute:
-            data = np.c_[data, self.n_eval, self.fitness]
+            data = np.c_[data, self.n_eval, self._fitness_rows()]
 
         out = [delimiter.join(map(str, row)) + "\n" for row in data.tolist()]
         mode = "a" if append else "w"
-- 
2.43.0


From e164a9fa860678848a45021c55099e4db907bd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:46 +0000
Subject: [PATCH 57/73] fix: a single-row Solution can be replicated

---
 bayes_optim/solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index da91ecb..026eb90 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -173,7 +173,7 @@ class Solution(np.ndarray):
         if self.N > 1:
             raise Exception("Replication is not supported for 2D")
         return Solution(
-            [self.tolist()] * N,
+            (self.tolist() if len(self.shape) > 1 else [self.tolist()]) * N,
             self._fitness_rows() * N,
             self.n_eval.tolist() * N,
             var_name=self.var_name,
-- 
2.43.0


From 737a91795d4e5e462384e53d3a2db1ac45d50d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:46 +0000
Subject: [PATCH 58/73] fix: copies of a Solution do not share their attributes
 with the original

---
 bayes_optim/solution.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 026eb90..f7a8fbe 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -293,6 +293,23 @@ class Solution(np.ndarray):
             res = cls.__new__(cls, x=_x, var_name=var_name, index=index, **kwargs)
         return res
 
+    def copy(self, order: str = "C") -> Solution:
+        return self._detach(super().copy(order))
+
+    def __copy__(self) -> Solution:
+        return self._detach(super().__copy__())
+
+    def __deepcopy__(self, memo: dict) -> Solution:
+        return self._detach(super().__deepcopy__(memo))
+
+    def _detach(self, obj: Solution) -> Solution:
+        """give `obj`, which is a copy of `self`, its own attributes"""
+        for name in ["fitness", "n_eval", "index"]:
+            value = getattr(self, name, None)
+            if value is not None:
+                super(Solution, obj).__setattr__(name, value.copy())
+        return obj
+
     def unique(self) -> Solution:
         if len(self.shape) == 1:
             return self
-- 
2.43.0


From 4f653d6167d1975a3359aaa1e5680d1e639945e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:44 +0000
Subject: [PATCH 59/73] fix: batch optimizers sample the UCB parameter around
 the configured value, not around its complement

---
 bayes_optim/bayes_opt.py | 2 +-
 bayes_optim/extension.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index bcb53a4..c2dcc48 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -92,7 +92,7 @@ class ParallelBO(BO):
         elif self._acquisition_fun == "UCB":
             self._par_name = "alpha"
             # Logit-normal distribution for `alpha` supported on [0, 1]
-            self._sampler = lambda x: 1 / (1 + np.exp((x["alpha"] * 4 - 2) + 0.6 * np.random.randn()))
+            self._sampler = lambda x: 1 / (1 + np.exp(-(x["alpha"] * 4 - 2) + 0.6 * np.random.randn()))
         elif self._acquisition_fun == "EpsilonPI":
             self._par_name = "epsilon"
             self._sampler = None  # TODO: implement this!
diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 4dcdc25..6cc4c02 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -321,7 +321,7 @@ class MultiAcquisitionBO(ParallelBO):
         self._acquisition_fun_list = ["MGFI", "UCB"]
         self._sampler_list = [
             lambda x: np.exp(np.log(x["t"]) + 0.5 * np.random.randn()),
-            lambda x: 1 / (1 + np.exp((x["alpha"] * 4 - 2) + 0.6 * np.random.randn())),
+            lambda x: 1 / (1 + np.exp(-(x["alpha"] * 4 - 2) + 0.6 * np.random.randn())),
         ]
         self._par_name_list = ["t", "alpha"]
         self._acquisition_par_list = [{"t": 1}, {"alpha": 0.1}]
-- 
2.43.0


From 98adb372aabc16ff96a0deac6c7b50caccd7e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:44 +0000
Subject: [PATCH 60/73] fix: linear annealing stops at the final value instead
 of turning negative

---
 bayes_optim/bayes_opt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index c2dcc48..a0d082e 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -136,7 +136,8 @@ class AnnealingBO(ParallelBO):
             self._anealer = lambda t: t * self.alpha
         elif self.schedule == "linear":
             self.eta = (t0 - self.tf) / max_iter  # linear
-            self._anealer = lambda t: t - self.eta
+            # NOTE: the number of iterations can exceed `max_iter`, e.g., when duplicated points are removed
+            self._anealer = lambda t: np.clip(t - self.eta, min(t0, self.tf), max(t0, self.tf))
         elif self.schedule == "log":
             self.c = self.tf * np.log(max_iter + 1)  # logarithmic
             self._anealer = lambda t: t * self.c / np.log(self.iter_count + 2)
-- 
2.43.0


From ff442f2d7309355032e10cdddbfc85497ec7b680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:25 +0000
Subject: [PATCH 61/73] fix: the (1+1)-CMA-ES makes at most the given number of
 restarts

---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index 7b9a45b..f73d001 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -276,6 +276,7 @@ class OnePlusOne_CMA(object):
             self._delta_f = self.ftol * 200
             self.stop_dict = {}
             self.n_restart -= 1
+            self._restart = False
 
     def ask(self) -> np.ndarray:
         """The mutation operator
-- 
2.43.0


From 5f9c7a2c280f00e27780bd13b4f6c675e2e604a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:19 +0000
Subject: [PATCH 62/73] fix: the acquisition search works without a logger, the
 (1+1)-CMA-ES with the seed zero

---
 bayes_optim/acquisition/optim/__init__.py            | 3 ++-
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 5 ++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index 70341b7..10df99b 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -68,7 +68,8 @@ def argmax_restart(
     wait_count = 0
     if not isinstance(search_space, RealSpace) and optimizer == "BFGS":
         optimizer = "MIES"
-        logger.warning("L-BFGS-B can only be applied on continuous search space")
+        if logger is not None:
+            logger.warning("L-BFGS-B can only be applied on continuous search space")
 
     for iteration in range(n_restart):
         x0 = search_space.sample(N=1, method="uniform")[0]
diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index f73d001..e6bd1d9 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -178,10 +178,9 @@ class OnePlusOne_CMA(object):
 
     @random_seed.setter
     def random_seed(self, seed):
-        if seed:
+        if seed is not None:
             self._random_seed = int(seed)
-            if self._random_seed:
-                np.random.seed(self._random_seed)
+            np.random.seed(self._random_seed)
 
     @property
     def C(self):
-- 
2.43.0


From bf327c0e76456abdf14f4e5b2b2dd5422ee4bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:27 +0000
Subject: [PATCH 63/73] fix: the (1+1)-CMA-ES ignores an initial covariance
 that is not positive definite

---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index e6bd1d9..051374f 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -158,11 +158,9 @@ class OnePlusOne_CMA(object):
         self._coeff: float = self.cc * (2 - self.cc)
 
     def _init_covariance(self, C):
-        if C is None:
-            self._C = np.eye(self.dim)
-            self._A = np.eye(self.dim)
-        else:
-            self.C = C
+        self._C = np.eye(self.dim)
+        self._A = np.eye(self.dim)
+        self.C = C  # NOTE: ignored if not positive definite
 
     def _init_logging_var(self):
         # parameters for logging the history
-- 
2.43.0


From c70d0d624fe424a86c89717c6eec1a5d8f892fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:53 +0000
Subject: [PATCH 64/73] fix: conditions on negative values, and selectors whose
 conditional variables are all gone

---
 bayes_optim/search_space/search_space.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index db1611c..1654a23 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -29,11 +29,7 @@ _get_var = lambda c: Parser().parse(c).variables()[0]
 
 
 def _get_val(condition):
-    c = ast.parse(condition).body[0].value.comparators[0]
-    if hasattr(c, "n"):
-        return c.n
-    if hasattr(c, "s"):
-        return c.s
+    return ast.literal_eval(ast.parse(condition).body[0].value.comparators[0])
 
 
 class SearchSpace:
@@ -202,7 +198,8 @@ class SearchSpace:
             if child not in _structure.setdefault(key, []):
                 _structure[key].append(child)
         self.structure = [t.remove(self.var_name, invert=True) for t in Node.from_dict(_structure)]
-        self.structure = [t for t in self.structure if t]
+        # NOTE: a selector without any conditional variable left is an ordinary variable
+        self.structure = [t for t in self.structure if t and t.children]
 
     @staticmethod
     def __set_type(obj: SearchSpace) -> SearchSpace:
-- 
2.43.0


From 2b40c55a90f092eabb7cdfc11eae6e145784dbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:53 +0000
Subject: [PATCH 65/73] fix: conditional variables under the same condition are
 active together however it is spelled

---
 bayes_optim/search_space/node.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/search_space/node.py b/bayes_optim/search_space/node.py
index b99ab99..c5d659d 100644
--- a/bayes_optim/search_space/node.py
+++ b/bayes_optim/search_space/node.py
@@ -1,10 +1,19 @@
 from __future__ import annotations
 
+import ast
 from copy import copy, deepcopy
 from itertools import product
 from typing import Any, Dict, List, Tuple
 
 
+def _normalize(branch: str) -> str:
+    """the same condition might be spelled differently, e.g., `x==1` and `x == 1`"""
+    try:
+        return ast.unparse(ast.parse(branch))
+    except (SyntaxError, TypeError):
+        return branch
+
+
 class Node:
     r"""Node of a tree used to represent the conditional search space"""
 
@@ -173,11 +182,12 @@ class Node:
             return {(): None}
 
         path = dict()
-        for br in dict.fromkeys(self.branches):
+        branches = [_normalize(b) for b in self.branches]
+        for br in dict.fromkeys(branches):
             # all children under the same branch are active simultaneously
             _path = [
                 list(child.get_all_path().items()) if child.children else [((), [child.name])]
-                for child, b in zip(self.children, self.branches)
+                for child, b in zip(self.children, branches)
                 if b == br
             ]
             for item in product(*_path):
-- 
2.43.0


From 90a7dace214d0a68c3fbc5fcfe58faf4074a9c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:14 +0000
Subject: [PATCH 66/73] fix: fmin passes vectors to the objective function, as
 documented

---
 bayes_optim/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/__init__.py b/bayes_optim/__init__.py
index 9685c72..c85f0ce 100755
--- a/bayes_optim/__init__.py
+++ b/bayes_optim/__init__.py
@@ -134,7 +134,7 @@ def fmin(
     >>> minimum[0]
     0.007165794451494286
     """
-    obj_func = lambda x: func(x, *args)
+    obj_func = lambda x: func(np.asarray(x, dtype=float), *args)
 
     if isinstance(lower, float) and isinstance(upper, float):
         search_space = RealSpace([lower, upper])
-- 
2.43.0


From 0ef3cd8e62bf16289c62aefbcb0f5bfac06b2097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:09 +0000
Subject: [PATCH 67/73] fix: fmin assigns points to iterations correctly when
 evaluations fail

---
 bayes_optim/__init__.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/bayes_optim/__init__.py b/bayes_optim/__init__.py
index c85f0ce..5ad7850 100755
--- a/bayes_optim/__init__.py
+++ b/bayes_optim/__init__.py
@@ -186,17 +186,12 @@ def fmin(
         random_seed=seed,
         **kwargs,
     )
-    opt.run()
-
-    # NOTE: the warm-starting data, if any, replace the initial DoE
-    N, n = len(warm_data[0]) if warm_data else opt.DoE_size, opt.n_point
-    _data, data = opt.data[:N, :], opt.data[N:, :]
-
-    data_per_iteration = [] if warm_data else [np.asarray(_data)]
-    data_per_iteration += [
-        np.asarray(data[(i * n) : ((i + 1) * n), :])
-        for i in range(opt.iter_count - len(data_per_iteration))
-    ]
+    # NOTE: this is `opt.run()`, keeping the points of every iteration, failed evaluations included
+    data_per_iteration = []
+    while not opt.check_stop():
+        X = opt.ask()
+        data_per_iteration.append(np.asarray(X))
+        opt.tell(X, opt.evaluate(X))
 
     print(
         "Optimization terminated successfully.\n"
-- 
2.43.0


From a1409c5cc15a92aa535cfe1e89f33dec742e06ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:48 +0000
Subject: [PATCH 68/73] fix: a save that fails while writing leaves an earlier
 checkpoint intact

---
 bayes_optim/base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index b472ece..b60ec9f 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -521,8 +521,16 @@ class BaseBO(BaseOptimizer):
             if data is not None:
                 self.data = data
 
-        with open(filename, "wb") as f:
-            f.write(obj)
+        # NOTE: write to a temporary file first, so that an earlier file survives if the writing fails
+        tmp = f"{filename}.tmp"
+        try:
+            with open(tmp, "wb") as f:
+                f.write(obj)
+            os.replace(tmp, filename)
+        except BaseException:
+            if os.path.exists(tmp):
+                os.remove(tmp)
+            raise
         self.logger.info(f"save to file {filename}...")
 
     @classmethod
-- 
2.43.0


From 4a3816af39655470749d05a472c8540aea7d4870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:17 +0000
Subject: [PATCH 69/73] fix: observing points works in constrained spaces whose
 first variable is a subset

---
 bayes_optim/base.py | 2 +-
 bayes_optim/mobo.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index b60ec9f..b21421c 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -352,7 +352,7 @@ class BaseBO(BaseOptimizer):
         self.logger.info(f"fopt: {xopt.fitness}")
         # show the current penalty value if cheap constraints are present
         if self.h is not None or self.g is not None:
-            _penalty = dynamic_penalty(xopt.tolist(), 1, self._h, self._g, minimize=self.minimize)
+            _penalty = dynamic_penalty([xopt.tolist()], 1, self._h, self._g, minimize=self.minimize)
             self.logger.info(f"penalty: {_penalty[0]:.4e}")
         self.logger.info(f"xopt: {self._to_pheno(xopt)}\n")
 
diff --git a/bayes_optim/mobo.py b/bayes_optim/mobo.py
index b1238df..a1f842f 100644
--- a/bayes_optim/mobo.py
+++ b/bayes_optim/mobo.py
@@ -155,7 +155,7 @@ class BaseMOBO(BO):
 
         if self.h is not None or self.g is not None:
             penalty = np.array(
-                [dynamic_penalty(x, 1, self._h, self._g, minimize=False) for x in xopt]
+                [dynamic_penalty([x.tolist()], 1, self._h, self._g, minimize=False) for x in xopt]
             ).ravel()
             self.logger.info(f"... with corresponding penalty: {penalty}")
 
-- 
2.43.0


From c3048ea9de09e53634756805325c42ba478e8740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:56 +0000
Subject: [PATCH 70/73] fix: logit-scaled variables whose range reaches one are
 sampled over their range

---
 bayes_optim/search_space/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/variable.py b/bayes_optim/search_space/variable.py
index 1eba048..0bd9725 100644
--- a/bayes_optim/search_space/variable.py
+++ b/bayes_optim/search_space/variable.py
@@ -41,7 +41,7 @@ TRANS = {
     "linear": [identity, [-MAX, MAX]],
     "log": [np.log, [1e-300, MAX]],
     "log10": [np.log10, [1e-300, MAX]],
-    "logit": [sp.special.logit, [1e-300, 1]],
+    "logit": [sp.special.logit, [1e-300, 1 - sys.float_info.epsilon / 2]],
     "bilog": [bilog, [-MAX, MAX]],
 }
 INV_TRANS = {
-- 
2.43.0


From 67d40a265c171b7db49cf462eb97e651d80e5f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:11 +0000
Subject: [PATCH 71/73] fix: the conditional optimizer records a batch also
 when a subspace has a flat fitness

---
 bayes_optim/extension.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 6cc4c02..f548f43 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -16,6 +16,7 @@ from .search_space import RealSpace, SearchSpace
 from .solution import Solution
 from .surrogate import GaussianProcess, RandomForest, trend
 from .utils import timeit
+from .utils.exception import FlatFitnessError
 
 
 class LinearTransform(PCA):
@@ -286,20 +287,28 @@ class ConditionalBO(ParallelBO):
             The corresponding function values
         """
         assert len(self._bo_idx) == len(X)
+        if not warm_start:
+            self.eval_count += len(X)
+        X_ = self.post_eval_check(self._to_geno(X, fitness=func_vals, n_eval=1))
+        if len(X_) > 0 or self.xopt is not None:
+            self.data = self.data + X_ if hasattr(self, "data") else X_
+
         # call `tell` method of BOs in each subspace
+        error = None
         for i, k in enumerate(self._bo_idx):
             x = {k: v for k, v in X[i].items() if v is not None}
             for key, _ in self._fixed_vars[k].items():
                 x.pop(key)
-            self._bo[k].tell([x], [func_vals[i]], **kwargs)
+            try:
+                self._bo[k].tell([x], [func_vals[i]], **kwargs)
+            except FlatFitnessError as e:  # the remaining subspaces still have to be told
+                error = e
+        if error is not None:
+            raise error
 
-        if not warm_start:
-            self.eval_count += len(X)
-        X = self.post_eval_check(self._to_geno(X, fitness=func_vals, n_eval=1))
-        if len(X) == 0 and self.xopt is None:  # all evaluations have failed so far
+        if self.xopt is None:  # all evaluations have failed so far
             self.iter_count += int(not warm_start)
             return
-        self.data = self.data + X if hasattr(self, "data") else X
 
         xopt = self.xopt
         self.logger.info(f"fopt: {xopt.fitness}")
-- 
2.43.0


From 008594deb92e84927e0ffb0ab02ac6f94dd3f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:28 +0000
Subject: [PATCH 72/73] fix: recorded points do not share memory with the array
 they were reported in

---
 bayes_optim/solution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index f7a8fbe..de135dc 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -78,7 +78,8 @@ class Solution(np.ndarray):
             dim = len(x)
             obj = np.asarray(x + [1], dtype="object")[0:dim].view(cls)
         else:
-            obj = np.asarray(x, dtype="object").view(cls)
+            # NOTE: always copy, the caller might change `x` afterwards
+            obj = np.array(x, dtype="object").view(cls)
 
         if len(obj.shape) > 2:
             raise Exception("More than 2D is not supported")
-- 
2.43.0


From 0cb02a880b16e8f6f73011a6f3806dfa15649296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:28 +0000
Subject: [PATCH 73/73] fix: warm-starting does not change the solutions passed
 by the caller

---
 bayes_optim/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index b21421c..cfa2246 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -163,6 +163,7 @@ class BaseBO(BaseOptimizer):
 
             if isinstance(X, Solution):
                 assert list(X.var_name) == list(self.var_names)
+                X = X.copy()  # the attributes of the caller's object should not be changed below
             else:
                 X = self._to_geno(X)
 
-- 
2.43.0

