From a19d83d998a0ffb786901509a9d40d72f64393b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 01/58] fix: gradient check of a parameter concatenation stacks
 a list, not a generator

---
 paramz/core/indexable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/indexable.py b/paramz/core/indexable.py
index b648422..c39dfd7 100644
--- a/paramz/core/indexable.py
+++ b/paramz/core/indexable.py
@@ -158,7 +158,7 @@ class Indexable(Nameable, Updateable):
         """
         from ..param import ParamConcatenation
         if isinstance(param, ParamConcatenation):
-            return np.hstack((self._raveled_index_for(p) for p in param.params))
+            return np.hstack([self._raveled_index_for(p) for p in param.params])
         return param._raveled_index() + self._offset_for(param)
 
     def _raveled_index_for_transformed(self, param):
-- 
2.43.0


From f0cf6d510639f300e148fea2f0b8a31fcb770751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 02/58] fix: optimizer_array is rebuilt on every read instead
 of going stale

---
 paramz/core/parameter_core.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 10a141a..bdf3036 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -80,12 +80,13 @@ class OptimizationHandlable(Constrainable):
         if self.__dict__.get('_optimizer_copy_', None) is None or self.size != self._optimizer_copy_.size:
             self._optimizer_copy_ = np.empty(self.size)
 
-        if not self._optimizer_copy_transformed:
-            self._optimizer_copy_.flat = self.param_array.flat
-            #py3 fix
-            #[np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.iteritems() if c != __fixed__]
-            [np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.items() if c != __fixed__]
-            self._optimizer_copy_transformed = True
+        # Always refresh the copy: changes of the constraints, of the hierarchy or
+        # (through views) of the values do not necessarily notify this object.
+        self._optimizer_copy_.flat = self.param_array.flat
+        #py3 fix
+        #[np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.iteritems() if c != __fixed__]
+        [np.put(self._optimizer_copy_, ind, c.finv(self.param_array.flat[ind])) for c, ind in self.constraints.items() if c != __fixed__]
+        self._optimizer_copy_transformed = True
 
         if self._has_fixes():# or self._has_ties()):
             self._ensure_fixes()
-- 
2.43.0


From 57cf67712823d586354292ccc1f69270ef23786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 03/58] fix: fixes of nodes and leaves always follow their
 constraints

---
 paramz/core/constrainable.py  | 6 +++---
 paramz/core/parameter_core.py | 9 +++++----
 paramz/param.py               | 4 +++-
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index f571700..5746c83 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -86,9 +86,9 @@ class Constrainable(Indexable):
         # Ensure that the fixes array is set:
         # Parameterized: ones(self.size)
         # Param: ones(self._realsize_
-        if (not hasattr(self, "_fixes_")) or (self._fixes_ is None) or (self._fixes_.size != self.size):
-            self._fixes_ = np.ones(self.size, dtype=bool)
-            self._fixes_[self.constraints[__fixed__]] = FIXED
+        # The constraints are the truth, as only the highest parent gets told about changes.
+        self._fixes_ = np.ones(self.size, dtype=bool)
+        self._fixes_[self.constraints[__fixed__]] = FIXED
 
 
     def _set_fixed(self, param, index):
diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index bdf3036..445a60b 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -102,11 +102,9 @@ class OptimizationHandlable(Constrainable):
         Also we want to update param_array in here.
         """
         f = None
-        if self.has_parent() and self.constraints[__fixed__].size != 0:
+        if self._has_fixes():
             f = np.ones(self.size).astype(bool)
             f[self.constraints[__fixed__]] = FIXED
-        elif self._has_fixes():
-            f = self._fixes_
         if f is None:
             self.param_array.flat = p
             [np.put(self.param_array, ind, c.f(self.param_array.flat[ind]))
@@ -149,7 +147,9 @@ class OptimizationHandlable(Constrainable):
         #py3 fix
         #[np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.iteritems() if c != __fixed__]
         [np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.items() if c != __fixed__]
-        if self._has_fixes(): return g[self._fixes_]
+        if self._has_fixes():
+            self._ensure_fixes()
+            return g[self._fixes_]
         return g
 
     #def _transform_gradients_non_natural(self, g):
@@ -220,6 +220,7 @@ class OptimizationHandlable(Constrainable):
         name_list = np.array(name_list)
 
         if not include_fixed and self._has_fixes():
+            self._ensure_fixes()
             return name_list[self._fixes_]
         return name_list
 
diff --git a/paramz/param.py b/paramz/param.py
index c4322ac..5dce07a 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -182,7 +182,9 @@ class Param(Parameterizable, ObsAr):
     # Constrainable
     #===========================================================================
     def _ensure_fixes(self):
-        if (not hasattr(self, "_fixes_")) or (self._fixes_ is None) or (self._fixes_.size != self._realsize_): self._fixes_ = np.ones(self._realsize_, dtype=bool)
+        from .transformations import __fixed__, FIXED
+        self._fixes_ = np.ones(self._realsize_, dtype=bool)
+        self._fixes_[self.constraints[__fixed__]] = FIXED
 
     #===========================================================================
     # Convenience
-- 
2.43.0


From f2099a73fb3f15ed499b5419b002591a6a352b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 04/58] fix: unfixed_param_array works on leaves

---
 paramz/core/parameter_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 445a60b..fd97634 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -363,9 +363,9 @@ class Parameterizable(OptimizationHandlable):
         if self.constraints[__fixed__].size !=0:
             fixes = np.ones(self.size).astype(bool)
             fixes[self.constraints[__fixed__]] = FIXED
-            return self._param_array_[fixes]
+            return self.param_array.flat[fixes]
         else:
-            return self._param_array_
+            return self.param_array
 
     def traverse(self, visit, *args, **kwargs):
         """
-- 
2.43.0


From 68c93ae9e0b793522a1c86b189ab357072be9326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 05/58] fix: a parameter concatenation updates its parents on
 every operation, not only on the first

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index 5dce07a..c6bbc7d 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -425,7 +425,7 @@ class ParamConcatenation(object):
         import operator
         #py3 fix
         #self.parents = map(lambda x: x[0], sorted(parents.iteritems(), key=operator.itemgetter(1)))
-        self.parents = map(lambda x: x[0], sorted(parents.items(), key=operator.itemgetter(1)))
+        self.parents = list(map(lambda x: x[0], sorted(parents.items(), key=operator.itemgetter(1))))
     #===========================================================================
     # Get/set items, enable broadcasting
     #===========================================================================
-- 
2.43.0


From 644a070c86317637a9c9de1199d494b477e9d505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 06/58] fix: selecting from a parameter concatenation keeps
 zeros and refers to the selected elements only

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index c6bbc7d..02bec7c 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -431,7 +431,7 @@ class ParamConcatenation(object):
     #===========================================================================
     def __getitem__(self, s):
         ind = np.zeros(sum(self._param_sizes), dtype=bool); ind[s] = True;
-        params = [p.param_array.flat[ind[ps]] for p,ps in zip(self.params, self._param_slices_) if np.any(p.param_array.flat[ind[ps]])]
+        params = [p.param_array[np.unravel_index(np.flatnonzero(ind[ps]), p.shape)] for p,ps in zip(self.params, self._param_slices_) if np.any(ind[ps])]
         if len(params)==1: return params[0]
         return ParamConcatenation(params)
 
-- 
2.43.0


From cbe99540a9d836805076d1d6969faba397b8b0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 07/58] fix: evaluating the optimizer gradient does not
 overwrite the gradient of the model

---
 paramz/core/parameter_core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index fd97634..20fc9d4 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -144,6 +144,7 @@ class OptimizationHandlable(Constrainable):
         Transform the gradients by multiplying the gradient factor for each
         constraint to it.
         """
+        g = g.copy() # do not overwrite the gradient of the model
         #py3 fix
         #[np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.iteritems() if c != __fixed__]
         [np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.items() if c != __fixed__]
-- 
2.43.0


From 4f958bf0589e8bfbbd399c880ef42f75d6fb73d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 08/58] fix: a visitor which raises does not hide nodes from
 later traversals

---
 paramz/core/parameter_core.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 20fc9d4..53f6dae 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -387,8 +387,10 @@ class Parameterizable(OptimizationHandlable):
         if not self.__visited:
             visit(self, *args, **kwargs)
             self.__visited = True
-            self._traverse(visit, *args, **kwargs)
-            self.__visited = False
+            try:
+                self._traverse(visit, *args, **kwargs)
+            finally:
+                self.__visited = False
 
     def _traverse(self, visit, *args, **kwargs):
         for c in self.parameters:
@@ -408,9 +410,11 @@ class Parameterizable(OptimizationHandlable):
         """
         if self.has_parent():
             self.__visited = True
-            self._parent_.traverse_parents(visit, *args, **kwargs)
-            self._parent_.traverse(visit, *args, **kwargs)
-            self.__visited = False
+            try:
+                self._parent_.traverse_parents(visit, *args, **kwargs)
+                self._parent_.traverse(visit, *args, **kwargs)
+            finally:
+                self.__visited = False
 
     #===========================================================================
     # Caching
-- 
2.43.0


From b1ac8780e13b93897cb4ae2097677ecd47f8fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 09/58] fix: NegativeExponent inverts and differentiates its
 own mapping

---
 paramz/transformations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index f0159e1..723b49e 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -160,11 +160,13 @@ class NegativeExponent(Exponent):
     def f(self, x):
         return -Exponent.f(self, x)
     def finv(self, f):
-        return -Exponent.finv(self, -f)
+        return Exponent.finv(self, -f)
     def gradfactor(self, f, df):
-        return -Exponent.gradfactor(self, f, df)
+        return Exponent.gradfactor(self, -f, -df)
     def initialize(self, f):
         return -Exponent.initialize(self, f) #np.abs(f)
+    def log_jacobian(self, model_param):
+        return Exponent.log_jacobian(self, -model_param)
     def __str__(self):
         return '-ve'
 
-- 
2.43.0


From d4357876d5760a143b035d5eb015f0cfc647e406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 10/58] fix: Cacher tells calls apart which give the same value
 to different keyword arguments

---
 paramz/caching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index 75dd48b..7189097 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -164,7 +164,8 @@ class Cacher(object):
 
         # 2: prepare_cache_id and get the unique self.id string for this call
         inputs = self.combine_inputs(args, kw, self.ignore_args)
-        cache_id = self.prepare_cache_id(inputs)
+        # (the names of the kwargs are part of it, as the same value can be given for different ones)
+        cache_id = self.prepare_cache_id(inputs) + ",".join(sorted(kw))
         # 2: if anything is not cachable, we will just return the operation, without caching
         if reduce(lambda a, b: a or (not (isinstance(b, Observable) or b is None or isinstance(b, Number) or isinstance(b, str))), inputs, False):
 #             print 'WARNING: '+self.operation.__name__ + ' not cacheable!'
-- 
2.43.0


From 7548f7696d3ef861c6a2c66e77d7ae5fb1ea1da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 11/58] fix: Cacher notices changes made through views of a
 cached input

---
 paramz/caching.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index 7189097..6a1c485 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -32,6 +32,7 @@
 #===============================================================================
 
 import collections, weakref
+import numpy as np
 from functools import reduce
 from pickle import PickleError
 from decorator import decorate  # @UnresolvedImport
@@ -110,8 +111,10 @@ class Cacher(object):
                 if tmp is not None:
                     ref, cache_ids = tmp
                     if len(cache_ids) == 1 and ref() is not None:
-                        ref().remove_observer(self, self.on_cache_changed)
                         del self.cached_input_ids[ind_id]
+                        # views share their observers, so only remove us if no other input needs them
+                        if not any(getattr(r(), 'observers', None) is ref().observers for r, _ in self.cached_input_ids.values()):
+                            ref().remove_observer(self, self.on_cache_changed)
                     else:
                         cache_ids.remove(cache_id)
                         self.cached_input_ids[ind_id] = [ref, cache_ids]
@@ -203,6 +206,11 @@ class Cacher(object):
             _, cache_ids = self.cached_input_ids.get(ind_id, [None, []])
             for cache_id in cache_ids:
                 self.inputs_changed[cache_id] = True
+        # views share their observers, so the change can be of any view on the memory of an input:
+        for ref, cache_ids in self.cached_input_ids.values():
+            if isinstance(direct, np.ndarray) and isinstance(ref(), np.ndarray) and np.may_share_memory(direct, ref()):
+                for cache_id in cache_ids:
+                    self.inputs_changed[cache_id] = True
 
     def reset(self):
         """
-- 
2.43.0


From 84b70cbc81bf171f9821990d130b58bf82e273db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 12/58] fix: unpickling a bounded constraint gives the instance
 for its bounds

---
 paramz/transformations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index 723b49e..fa423f9 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -199,6 +199,9 @@ class Logistic(Transformation):
             o = newfunc(cls, lower, upper, *args, **kwargs)
         cls._instances.append(weakref.ref(o))
         return cls._instances[-1]()
+    def __reduce__(self):
+        # the bounds have to be known to get the one instance for them
+        return self.__class__, (self.lower, self.upper)
     def __init__(self, lower, upper):
         assert lower < upper
         self.lower, self.upper = float(lower), float(upper)
-- 
2.43.0


From a3566ec725d10eadbc52c5e5643c7a75dfe6736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 13/58] fix: rejected bounds do not break later bounded
 constraints

---
 paramz/transformations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index fa423f9..deac16a 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -190,7 +190,8 @@ class Logistic(Transformation):
         if cls._instances:
             cls._instances[:] = [instance for instance in cls._instances if instance()]
             for instance in cls._instances:
-                if instance().lower == lower and instance().upper == upper:
+                # an instance, which got its bounds rejected has no bounds
+                if getattr(instance(), 'lower', None) == lower and getattr(instance(), 'upper', None) == upper:
                     return instance()
         newfunc = super(Transformation, cls).__new__
         if newfunc is object.__new__:
-- 
2.43.0


From 1d1a73e246b93d7c24485ba091909d14d7e0e9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 14/58] fix: array observers can be removed (compare observers
 by identity)

---
 paramz/core/lists_and_dicts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/lists_and_dicts.py b/paramz/core/lists_and_dicts.py
index 472b0a2..f4b7785 100644
--- a/paramz/core/lists_and_dicts.py
+++ b/paramz/core/lists_and_dicts.py
@@ -82,7 +82,7 @@ class ObserverList(object):
         self.flush()
         for i in range(len(self) - 1, -1, -1):
             p,o,c = self[i]
-            if priority==p and observer==o and callble==c:
+            if priority==p and observer is o and callble==c:
                 del self._poc[i]
 
     def __repr__(self):
-- 
2.43.0


From a1dca412a6450b080f6f264a8128ce76b2a28418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 15/58] fix: setting a parameter value of a node by integer
 index

---
 paramz/parameterized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 64ab493..05572db 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -319,7 +319,7 @@ If you are loading a model, set updates off, then initialize, then set the value
 """)
         if value is None:
             return # nothing to do here
-        if isinstance(name, (slice, tuple, np.ndarray)):
+        if isinstance(name, (int, slice, tuple, np.ndarray)):
             try:
                 self.param_array[name] = value
             except:
-- 
2.43.0


From 547aeae67d0b651a7425e5a7fa193fe3da9bf3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 16/58] fix: constraining or fixing an advanced-indexed
 parameter sets the values of the parameter itself

---
 paramz/core/constrainable.py | 7 +++++++
 paramz/param.py              | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index 5746c83..36c1309 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -60,6 +60,7 @@ class Constrainable(Indexable):
         """
         if value is not None:
             self[:] = value
+            self._update_original()
 
         #index = self.unconstrain()
         index = self._add_to_index_operations(self.constraints, np.empty(0), __fixed__, warning)
@@ -131,6 +132,11 @@ class Constrainable(Indexable):
         # the copy here
         return self.parameters[param._parent_index_]
 
+    def _update_original(self):
+        # if advanced indexing is activated it happens that the array is a copy,
+        # this writes the values of the copy into the original param
+        pass
+
         #===========================================================================
     # Constrain operations -> done
     #===========================================================================
@@ -146,6 +152,7 @@ class Constrainable(Indexable):
         """
         if isinstance(transform, Transformation):
             self.param_array[...] = transform.initialize(self.param_array)
+            self._update_original()
         elif transform == __fixed__:
             return self.fix(warning=warning, trigger_parent=trigger_parent)
         else:
diff --git a/paramz/param.py b/paramz/param.py
index 02bec7c..f55051f 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -197,6 +197,10 @@ class Param(Parameterizable, ObsAr):
     def _get_original(self, param):
         return self._original_
 
+    def _update_original(self):
+        if self._original_ is not self and not np.may_share_memory(self, self._original_):
+            self._original_.flat[self._raveled_index()] = self.values.ravel()
+
     #===========================================================================
     # Pickling and copying
     #===========================================================================
-- 
2.43.0


From 02b4245d86d60d2838a2fc565469f8a00b273786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 17/58] fix: constraining a node which is not connected yet
 moves the values of its leaves into the domain

---
 paramz/core/constrainable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index 36c1309..ccde8dd 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -153,6 +153,10 @@ class Constrainable(Indexable):
         if isinstance(transform, Transformation):
             self.param_array[...] = transform.initialize(self.param_array)
             self._update_original()
+            if not getattr(self, '_model_initialized_', False):
+                # the memory of the leaves is not connected to ours yet
+                for p in [x for p in self.parameters for x in p.flattened_parameters]:
+                    p.param_array.flat = transform.initialize(p.values).flat
         elif transform == __fixed__:
             return self.fix(warning=warning, trigger_parent=trigger_parent)
         else:
-- 
2.43.0


From a152b837c5cd93a87080aa5472b00e5164c5dc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 18/58] fix: advanced indices separated by a slice select the
 elements they index

---
 paramz/param.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index f55051f..5e57bbe 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -258,7 +258,8 @@ class Param(Parameterizable, ObsAr):
             slice_index = self._current_slice_
         #try:
         indices = np.indices(self._realshape_, dtype=int)
-        indices = indices[(slice(None),)+slice_index]
+        # index every axis on its own, as advanced indices separated by slices reorder the axes
+        indices = np.array([i[slice_index] for i in indices])
         indices = np.rollaxis(indices, 0, indices.ndim).reshape(-1,self._realndim_)
             #print indices_
             #if not np.all(indices==indices__):
-- 
2.43.0


From 29eb204ebc1b99da8ec15f4129a1470d0d6788e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 19/58] fix: linking a node into its own hierarchy is refused
 instead of looping forever

---
 paramz/parameterized.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 05572db..12257cd 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -134,6 +134,11 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         Add all parameters to this param class, you can insert parameters
         at any given index using the :func:`list.insert` syntax
         """
+        parent = self
+        while parent is not None:
+            if parent is param:
+                raise HierarchyError("You cannot add a parameter to itself or to one of its own parameters")
+            parent = parent._parent_
         if param in self.parameters and index is not None:
             self.unlink_parameter(param)
             return self.link_parameter(param, index)
-- 
2.43.0


From 53ff73a02ade85c23e8e8f89a593685ac0ab79da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 20/58] fix: restarts which end in nan are not the best restart

---
 paramz/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index 1c9a7e1..116a835 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -183,7 +183,7 @@ class Model(Parameterized):
 
         if len(self.optimization_runs) > initial_length:
             # This works, since failed jobs don't get added to the optimization_runs.
-            i = np.argmin([o.f_opt for o in self.optimization_runs[initial_length:]])
+            i = np.argmin([np.inf if np.isnan(o.f_opt) else o.f_opt for o in self.optimization_runs[initial_length:]])
             self.optimizer_array = self.optimization_runs[initial_length + i].x_opt
         else:
             self.optimizer_array = initial_parameters
-- 
2.43.0


From a30b9ead5d4066d8e919cc803a07c2bca1a6cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 21/58] fix: verbose restarts of a fully fixed model have no
 run to report

---
 paramz/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index 116a835..b490bb4 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -173,7 +173,7 @@ class Model(Parameterized):
                 else:#pragma: no cover
                     self.optimization_runs.append(jobs[i])
 
-                if verbose:
+                if verbose and len(self.optimization_runs) > initial_length:
                     print(("Optimization restart {0}/{1}, f = {2}".format(i + 1, num_restarts, self.optimization_runs[-1].f_opt)))
             except Exception as e:
                 if robust:
-- 
2.43.0


From c9f0b19441da57caa53c2c8f510dfe6bad14ec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 22/58] fix: verbose gradient check does not divide by an
 objective of zero

---
 paramz/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index b490bb4..981a357 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -376,7 +376,7 @@ class Model(Parameterized):
                 #Avoid divide by zero, if any of the values are above 1e-15, otherwise both values are essentiall
                 #the same
                 if f1 > 1e-15 or f1 < -1e-15 or f2 > 1e-15 or f2 < -1e-15:
-                    df_ratio = np.abs((f1 - f2) / min(f1, f2))
+                    df_ratio = np.abs((f1 - f2) / max(abs(f1), abs(f2)))
                 else: # pragma: no cover
                     df_ratio = 1.0
                 df_unstable = df_ratio < df_tolerance
-- 
2.43.0


From ff7844dacb8b9f2f51392c3233ee407a081261ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 23/58] fix: report all return codes of the tnc and bfgs
 optimizers

---
 paramz/optimization/optimization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/paramz/optimization/optimization.py b/paramz/optimization/optimization.py
index 53d9c42..5bdf717 100644
--- a/paramz/optimization/optimization.py
+++ b/paramz/optimization/optimization.py
@@ -78,7 +78,7 @@ class opt_tnc(Optimizer):
 
         """
         tnc_rcstrings = ['Local minimum', 'Converged', 'XConverged', 'Maximum number of f evaluations reached',
-             'Line search failed', 'Function is constant']
+             'Line search failed', 'Function is constant', 'Unable to progress', 'User requested end of minimization']
 
         assert f_fp != None, "TNC requires f_fp"
 
@@ -95,7 +95,7 @@ class opt_tnc(Optimizer):
         self.x_opt = opt_result[0]
         self.f_opt = f_fp(self.x_opt)[0]
         self.funct_eval = opt_result[1]
-        self.status = tnc_rcstrings[opt_result[2]]
+        self.status = tnc_rcstrings[opt_result[2]] if opt_result[2] >= 0 else 'Infeasible'
 
 class opt_lbfgsb(Optimizer):
     def __init__(self, *args, **kwargs):
@@ -141,7 +141,7 @@ class opt_bfgs(Optimizer):
         Run the optimizer
 
         """
-        rcstrings = ['','Maximum number of iterations exceeded', 'Gradient and/or function calls not changing']
+        rcstrings = ['','Maximum number of iterations exceeded', 'Gradient and/or function calls not changing', 'NaN result encountered']
 
         opt_dict = {}
         if self.xtol is not None:
-- 
2.43.0


From 5727b7e7198c044232537a2b1403ec9d5ae35bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 24/58] fix: gradient check accepts correct gradients
 orthogonal to its random direction

---
 paramz/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paramz/model.py b/paramz/model.py
index 981a357..6b94fff 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -335,6 +335,8 @@ class Model(Parameterized):
             denominator = (2 * np.dot(dx, gradient))
             global_ratio = (f1 - f2) / np.where(denominator == 0., 1e-32, denominator)
             global_diff = np.abs(f1 - f2) < tolerance and np.allclose(gradient, 0, atol=tolerance)
+            # the ratio says nothing, if the random direction is orthogonal to the gradient:
+            global_diff = global_diff or np.abs(f1 - f2 - denominator) < 2 * step * tolerance
             if global_ratio is np.nan: # pragma: no cover
                 global_ratio = 0
             return np.abs(1. - global_ratio) < tolerance or global_diff
-- 
2.43.0


From a6ab5c916e7495360ee05f632c744db7c2427455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 25/58] fix: force_kwargs of Cache_this force a recompute

---
 paramz/caching.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paramz/caching.py b/paramz/caching.py
index 6a1c485..1a1943b 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -280,7 +280,13 @@ class Cache_this(object):
         self.f = None
     def __call__(self, f):
         self.f = f
+        code = getattr(f, '__code__', None)
+        argnames = code.co_varnames[:code.co_argcount] if code is not None else ()
+        defaults = dict(zip(argnames[::-1], (f.__defaults__ or ())[::-1])) if argnames else {}
         def g(obj, *args, **kw):
+            # decorate hands all arguments in as positional ones, including the defaults
+            if any(n in self.force_kwargs and a is not None and a is not defaults.get(n) for n, a in zip(argnames, args)):
+                return self.f(*args, **kw)
             obj = args[0]
             if not hasattr(obj, 'cache'):
                 obj.cache = FunctionCache()
-- 
2.43.0


From 01293b78fc2e7e9d4e932f29ab35994323d154ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 26/58] fix: setting values of or switching updates on for
 fixed parts of a model updates them

---
 paramz/core/parameter_core.py | 8 +++++---
 paramz/core/updateable.py     | 5 +++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 53f6dae..c6ca324 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -120,16 +120,18 @@ class OptimizationHandlable(Constrainable):
         #self._highest_parent_.tie.propagate_val()
 
         self._optimizer_copy_transformed = False
-        self.trigger_update()
+        # fixed parameters did not change
+        self.trigger_update(skip_fixed=True)
 
-    def _trigger_params_changed(self, trigger_parent=True):
+    def _trigger_params_changed(self, trigger_parent=True, skip_fixed=False):
         """
         First tell all children to update,
         then update yourself.
 
         If trigger_parent is True, we will tell the parent, otherwise not.
+        If skip_fixed is True, children which are fixed are not told.
         """
-        [p._trigger_params_changed(trigger_parent=False) for p in self.parameters if not p.is_fixed]
+        [p._trigger_params_changed(trigger_parent=False, skip_fixed=skip_fixed) for p in self.parameters if not (skip_fixed and p.is_fixed)]
         self.notify_observers(None, None if trigger_parent else -np.inf)
 
     def _size_transformed(self):
diff --git a/paramz/core/updateable.py b/paramz/core/updateable.py
index 9a47f65..789b2ff 100644
--- a/paramz/core/updateable.py
+++ b/paramz/core/updateable.py
@@ -65,15 +65,16 @@ class Updateable(Observable):
     def update_toggle(self):
         self.update_model(not self.update_model())
 
-    def trigger_update(self, trigger_parent=True):
+    def trigger_update(self, trigger_parent=True, skip_fixed=False):
         """
         Update the model from the current state.
         Make sure that updates are on, otherwise this
         method will do nothing
 
         :param bool trigger_parent: Whether to trigger the parent, after self has updated
+        :param bool skip_fixed: Whether to skip the children, which are fixed (and did not change)
         """
         if not self.update_model() or (hasattr(self, "_in_init_") and self._in_init_):
             #print "Warning: updates are off, updating the model will do nothing"
             return
-        self._trigger_params_changed(trigger_parent)
+        self._trigger_params_changed(trigger_parent, skip_fixed)
-- 
2.43.0


From 324d1f1ab77fe3b60146c4ae6fc14f0702e7722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 27/58] fix: names which are only the same as attributes are
 made unique, too

---
 paramz/core/parameter_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index c6ca324..36d32be 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -471,7 +471,7 @@ class Parameterizable(OptimizationHandlable):
                 self._add_parameter_name(param)
             # and makes sure to not delete programmatically added parameters
             for other in self.parameters:
-                if (not (other is param)) and (other.name == param.name):
+                if (not (other is param)) and (adjust_name_for_printing(other.name) == pname):
                     return warn_and_retry(other, _name_digit.match(other.name))
             if pname not in dir(self):
                 self.__dict__[pname] = param
-- 
2.43.0


From 3bb066c6999707251ebe9894d9d0e4e294226311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 28/58] fix: switching updates on from a part of the hierarchy
 updates all of it

---
 paramz/core/updateable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/core/updateable.py b/paramz/core/updateable.py
index 789b2ff..62d3a71 100644
--- a/paramz/core/updateable.py
+++ b/paramz/core/updateable.py
@@ -57,7 +57,8 @@ class Updateable(Observable):
         def turn_updates(s):
             s._update_on = updates
         p.traverse(turn_updates)
-        self.trigger_update()
+        # the switch is for the whole hierarchy, so all of it has to be up to date
+        p.trigger_update()
 
     def toggle_update(self):
         print("deprecated: toggle_update was renamed to update_toggle for easier access")
-- 
2.43.0


From a7b0e824c2cfcc2e3593790db71861bb966db32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 29/58] fix: assigning to a part of a parameter concatenation
 sets the assigned elements

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index 5e57bbe..99c653a 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -446,7 +446,7 @@ class ParamConcatenation(object):
         ind = np.zeros(sum(self._param_sizes), dtype=bool); ind[s] = True;
         vals = self.values(); vals[s] = val
         for p, ps in zip(self.params, self._param_slices_):
-            p.flat[ind[ps]] = vals[ps]
+            p.flat[ind[ps]] = vals[ps][ind[ps]]
         self.update_all_params()
 
     def values(self):
-- 
2.43.0


From 86ade93a0dc76c34ca242f9d1797a493aad4eaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 30/58] fix: parameters linked into a node of an initialised
 hierarchy get a unique name and an attribute

---
 paramz/parameterized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 12257cd..0a19ce8 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -180,7 +180,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
             self._notify_parent_change()
 
             if not self._in_init_ and self._highest_parent_._model_initialized_:
-                #self._connect_parameters()
+                self._connect_parameters() # the names have to be connected to self
                 #self._notify_parent_change()
 
                 self._highest_parent_._connect_parameters()
-- 
2.43.0


From a66f7d5260c37153f5469991860b5fef53ab20d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 31/58] fix: transformations stay the shared instance when
 pickled with a protocol below 2

---
 paramz/transformations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index deac16a..c7ef458 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -57,6 +57,10 @@ class Transformation(object):
         if not cls._instance or cls._instance.__class__ is not cls:
             cls._instance = super(Transformation, cls).__new__(cls, *args, **kwargs)
         return cls._instance
+    def __reduce_ex__(self, protocol):
+        # protocols < 2 bypass __new__, so that the loaded transformation
+        # would not be the one (shared) instance anymore
+        return super(Transformation, self).__reduce_ex__(max(protocol, 2))
     def f(self, opt_param):
         raise NotImplementedError
     def finv(self, model_param):
-- 
2.43.0


From 592803369b6d701713a04d64ad44ad6eb82ed1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 32/58] fix: connecting a nested hierarchy does not read memory
 which has been freed

---
 paramz/core/parameter_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 36d32be..653564a 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -289,13 +289,16 @@ class OptimizationHandlable(Constrainable):
         for pi in self.parameters:
             pislice = slice(pi_old_size, pi_old_size + pi.size)
 
+            # connect the children of pi first: the children can be views of memory owned
+            # by pi, which is freed as soon as pi is connected to the new memory
+            pi._propagate_param_grad(parray[pislice], garray[pislice])
+
             self.param_array[pislice] = pi.param_array.flat  # , requirements=['C', 'W']).flat
             self.gradient_full[pislice] = pi.gradient_full.flat  # , requirements=['C', 'W']).flat
 
             pi.param_array.data = parray[pislice].data
             pi.gradient_full.data = garray[pislice].data
 
-            pi._propagate_param_grad(parray[pislice], garray[pislice])
             pi_old_size += pi.size
 
         self._model_initialized_ = True
-- 
2.43.0


From 9bc35eec56a7f78be4d400c37bdcd01d9859f432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 33/58] fix: constraining an advanced-indexed parameter starts
 from the current values of the parameter

---
 paramz/core/constrainable.py | 5 +++++
 paramz/param.py              | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index ccde8dd..a8e45b7 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -132,6 +132,10 @@ class Constrainable(Indexable):
         # the copy here
         return self.parameters[param._parent_index_]
 
+    def _update_from_original(self):
+        # only parameters can be (advanced-indexed) copies of other parameters
+        pass
+
     def _update_original(self):
         # if advanced indexing is activated it happens that the array is a copy,
         # this writes the values of the copy into the original param
@@ -151,6 +155,7 @@ class Constrainable(Indexable):
         :py:class:`paramz.transformations.Transformation`.
         """
         if isinstance(transform, Transformation):
+            self._update_from_original()
             self.param_array[...] = transform.initialize(self.param_array)
             self._update_original()
             if not getattr(self, '_model_initialized_', False):
diff --git a/paramz/param.py b/paramz/param.py
index 99c653a..8b1ac5a 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -197,6 +197,10 @@ class Param(Parameterizable, ObsAr):
     def _get_original(self, param):
         return self._original_
 
+    def _update_from_original(self):
+        if self._original_ is not self and not np.may_share_memory(self, self._original_):
+            self.values.flat = self._original_.values.flat[self._raveled_index()]
+
     def _update_original(self):
         if self._original_ is not self and not np.may_share_memory(self, self._original_):
             self._original_.flat[self._raveled_index()] = self.values.ravel()
-- 
2.43.0


From 4cedfdfd277101dd0cc0db2bf87523071ac9dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 34/58] fix: constraints derived from Logistic do not share
 their instances with it

---
 paramz/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index c7ef458..d428962 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -195,7 +195,7 @@ class Logistic(Transformation):
             cls._instances[:] = [instance for instance in cls._instances if instance()]
             for instance in cls._instances:
                 # an instance, which got its bounds rejected has no bounds
-                if getattr(instance(), 'lower', None) == lower and getattr(instance(), 'upper', None) == upper:
+                if instance().__class__ is cls and getattr(instance(), 'lower', None) == lower and getattr(instance(), 'upper', None) == upper:
                     return instance()
         newfunc = super(Transformation, cls).__new__
         if newfunc is object.__new__:
-- 
2.43.0


From 030d6ed860b00d7f1279f5dc488655453025d41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:14 +0000
Subject: [PATCH 35/58] fix: gradient check rejects a gradient of zero where
 the objective changes

---
 paramz/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index 6b94fff..85a1955 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -334,7 +334,7 @@ class Model(Parameterized):
 
             denominator = (2 * np.dot(dx, gradient))
             global_ratio = (f1 - f2) / np.where(denominator == 0., 1e-32, denominator)
-            global_diff = np.abs(f1 - f2) < tolerance and np.allclose(gradient, 0, atol=tolerance)
+            global_diff = np.abs(f1 - f2) < 2 * step * tolerance and np.allclose(gradient, 0, atol=tolerance)
             # the ratio says nothing, if the random direction is orthogonal to the gradient:
             global_diff = global_diff or np.abs(f1 - f2 - denominator) < 2 * step * tolerance
             if global_ratio is np.nan: # pragma: no cover
-- 
2.43.0


From c685a7dd9da5fad8e604a740f27786428208a7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:45 +0000
Subject: [PATCH 36/58] fix: optimizers start from a copy of the optimizer
 array, which changes when it is read

---
 paramz/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paramz/model.py b/paramz/model.py
index 85a1955..cf0781b 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -96,6 +96,7 @@ class Model(Parameterized):
 
         if start is None:
             start = self.optimizer_array
+        start = np.array(start) # the optimizer array is refreshed in place, whenever it is read
 
         if optimizer is None:
             optimizer = self.preferred_optimizer
-- 
2.43.0


From 749cc239dda63896c023ddfc6ba006a39264d67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:31 +0000
Subject: [PATCH 37/58] fix: scaled conjugate gradients started at a stationary
 point evaluate no nan

---
 paramz/optimization/scg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paramz/optimization/scg.py b/paramz/optimization/scg.py
index be8de76..a327931 100644
--- a/paramz/optimization/scg.py
+++ b/paramz/optimization/scg.py
@@ -82,6 +82,10 @@ def SCG(f, gradf, x, optargs=(), maxiters=500, max_f_eval=np.inf, xtol=None, fto
 
     flog = [fold]
 
+    if current_grad == 0.:
+        # There is no direction to search in, the steps would be nan.
+        return x, flog, function_eval, 'converged - relative reduction in gradient'
+
     iteration = 0
 
     # Main optimization loop.
-- 
2.43.0


From b323b269090f439df7d057f9a1a820a76bc84ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 38/58] fix: failing computation of the gradients counts as one
 failure within the allowed number

---
 paramz/model.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/paramz/model.py b/paramz/model.py
index cf0781b..f26c41b 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -223,6 +223,16 @@ class Model(Parameterized):
         """
         return self.gradient
 
+    def _failed_gradients(self):
+        """
+        The gradients at hand, when the evaluation of the model failed. The
+        computation of the gradients itself can be what fails.
+        """
+        try:
+            return self.objective_function_gradients()
+        except (LinAlgError, ZeroDivisionError, ValueError):
+            return self.gradient
+
     def _grads(self, x):
         """
         Gets the gradients from the likelihood and the priors.
@@ -243,7 +253,7 @@ class Model(Parameterized):
             if self._fail_count >= self._allowed_failures:
                 raise
             self._fail_count += 1
-            self.obj_grads = np.clip(self._transform_gradients(self.objective_function_gradients()), -1e100, 1e100)
+            self.obj_grads = np.clip(self._transform_gradients(self._failed_gradients()), -1e100, 1e100)
         return self.obj_grads
 
     def _objective(self, x):
@@ -279,7 +289,7 @@ class Model(Parameterized):
                 raise
             self._fail_count += 1
             obj_f = np.inf
-            self.obj_grads = np.clip(self._transform_gradients(self.objective_function_gradients()), -1e10, 1e10)
+            self.obj_grads = np.clip(self._transform_gradients(self._failed_gradients()), -1e10, 1e10)
         return obj_f, self.obj_grads
 
     def _checkgrad(self, target_param=None, verbose=False, step=1e-6, tolerance=1e-3, df_tolerance=1e-12):
-- 
2.43.0


From aa1a56ff3709333e29ddb5fe2d9d2bbae91f1d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:22 +0000
Subject: [PATCH 39/58] fix: parallel restarts skip failed jobs when robust and
 jobs without anything to optimize

---
 paramz/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paramz/model.py b/paramz/model.py
index f26c41b..17e6658 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -157,7 +157,7 @@ class Model(Parameterized):
                 pool = mp.Pool(processes=num_processes)
                 obs = [self.copy() for i in range(num_restarts)]
                 [obs[i].randomize() for i in range(num_restarts-1)]
-                jobs = pool.map(opt_wrapper, [(o,kwargs) for o in obs])
+                jobs = [pool.apply_async(opt_wrapper, ((o,kwargs),)) for o in obs]
                 pool.close()
                 pool.join()
             except KeyboardInterrupt:
@@ -172,7 +172,9 @@ class Model(Parameterized):
                         self.randomize()
                     self.optimize(**kwargs)
                 else:#pragma: no cover
-                    self.optimization_runs.append(jobs[i])
+                    run = jobs[i].get() # raises the error of a failed job
+                    if run is not None:
+                        self.optimization_runs.append(run)
 
                 if verbose and len(self.optimization_runs) > initial_length:
                     print(("Optimization restart {0}/{1}, f = {2}".format(i + 1, num_restarts, self.optimization_runs[-1].f_opt)))
-- 
2.43.0


From d77c6ba4ea81bcc9e01ad28aabb8b9346ae6c84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 40/58] fix: adding an empty list of indices keeps the indices
 of a property integers

---
 paramz/core/index_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/index_operations.py b/paramz/core/index_operations.py
index 00d41ea..4b23219 100644
--- a/paramz/core/index_operations.py
+++ b/paramz/core/index_operations.py
@@ -195,7 +195,7 @@ class ParameterIndexOperations(object):
         return pprint.pformat(dict(self._properties))
 
 def combine_indices(arr1, arr2):
-    return numpy.union1d(arr1, arr2)
+    return numpy.union1d(arr1, arr2).astype(int) # an empty list is a float array for numpy
 
 def remove_indices(arr, to_remove):
     return numpy.setdiff1d(arr, to_remove, True)
-- 
2.43.0


From f76cc3a00f27de577a5c3cdfe8e8def5c50f6aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:26 +0000
Subject: [PATCH 41/58] fix: removing repeated indices reports only the
 indices, which were there

---
 paramz/core/index_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/index_operations.py b/paramz/core/index_operations.py
index 4b23219..adbe1f3 100644
--- a/paramz/core/index_operations.py
+++ b/paramz/core/index_operations.py
@@ -164,7 +164,7 @@ class ParameterIndexOperations(object):
     def remove(self, prop, indices):
         if prop in self._properties:
             diff = remove_indices(self[prop], indices)
-            removed = numpy.intersect1d(self[prop], indices, True)
+            removed = numpy.intersect1d(self[prop], indices)
             if not index_empty(diff):
                 self._properties[prop] = diff
             else:
-- 
2.43.0


From 7a707259a0f79bd4c52ac6e8b5492ac4faf7af79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 42/58] fix: views of the index operations accept lists of
 indices, as the index operations do

---
 paramz/core/index_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/index_operations.py b/paramz/core/index_operations.py
index adbe1f3..045fc56 100644
--- a/paramz/core/index_operations.py
+++ b/paramz/core/index_operations.py
@@ -276,7 +276,7 @@ class ParameterIndexOperationsView(object):
 
 
     def add(self, prop, indices):
-        self._param_index_ops.add(prop, indices+self._offset)
+        self._param_index_ops.add(prop, numpy.asarray(indices)+self._offset)
 
 
     def remove(self, prop, indices):
-- 
2.43.0


From 127d5b83cbae00f5db31318a941541cfdeb6a9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:16 +0000
Subject: [PATCH 43/58] fix: parameters can be linked into parts of a
 hierarchy, which is not initialised yet

---
 paramz/parameterized.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 0a19ce8..d244168 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -113,6 +113,8 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
     #__metaclass__ = ParametersChangedMeta
     #The six module is used to support both Python 2 and 3 simultaneously
     #===========================================================================
+    _model_initialized_ = False # set, as soon as the parameters are connected
+
     def __init__(self, name=None, parameters=[]):
         super(Parameterized, self).__init__(name=name)
         self.size = sum(p.size for p in self.parameters)
@@ -177,15 +179,19 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
             while parent is not None:
                 parent.size += param.size
                 parent = parent._parent_
-            self._notify_parent_change()
+            self._highest_parent_._notify_parent_change()
 
-            if not self._in_init_ and self._highest_parent_._model_initialized_:
+            # connect all of the hierarchy above, which is initialised already
+            top = self
+            while top._parent_ is not None and top._parent_._model_initialized_:
+                top = top._parent_
+            if not self._in_init_ and top._model_initialized_:
                 self._connect_parameters() # the names have to be connected to self
                 #self._notify_parent_change()
 
-                self._highest_parent_._connect_parameters()
-                self._highest_parent_._notify_parent_change()
-                self._highest_parent_._connect_fixes()
+                top._connect_parameters()
+                top._notify_parent_change()
+                top._connect_fixes()
             return param
         else:
             raise HierarchyError("""Parameter exists already, try making a copy""")
-- 
2.43.0


From 73a7a0c4270acdcfb0e371b32448b6d848582a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:19 +0000
Subject: [PATCH 44/58] fix: initialising a hierarchy connects the parts, which
 were not initialised themselves

---
 paramz/parameterized.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index d244168..bff9121 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -270,6 +270,9 @@ All parameter arrays must be C_CONTIGUOUS
             p._parent_ = self
             p._parent_index_ = i
 
+            if not getattr(p, '_model_initialized_', True):
+                p._connect_parameters() # p itself has not been connected before
+
             pslice = slice(old_size, old_size + p.size)
 
             # first connect all children
-- 
2.43.0


From 68e531576af511698664577fa82ee9efd130bcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 45/58] fix: showing the progress does not fail, where the
 optimization itself handles failures

---
 paramz/optimization/verbose_optimization.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/paramz/optimization/verbose_optimization.py b/paramz/optimization/verbose_optimization.py
index 87f3a7c..1544bd3 100644
--- a/paramz/optimization/verbose_optimization.py
+++ b/paramz/optimization/verbose_optimization.py
@@ -166,7 +166,10 @@ class VerboseOptimization(object):
             self.text.value = html_begin + html_body + html_end
             self.progress.value = (self.iteration+1)
             #self.progresstext.value = '0/{}'.format((self.iteration+1))
-            self.model_show.value = self.model._repr_html_()
+            try:
+                self.model_show.value = self.model._repr_html_()
+            except Exception:
+                pass # the summary needs the objective as well
         else:
             n_exps = exponents(self.fnow, self.current_gradient)
             if self.iteration - self.p_iter >= 20 * np.random.rand():
@@ -195,7 +198,11 @@ class VerboseOptimization(object):
         self.iteration += 1
 
     def update(self):
-        self.fnow = self.model.objective_function()
+        try:
+            self.fnow = self.model.objective_function()
+        except Exception:
+            # failures are handled, when the optimizer asks for the objective
+            self.fnow = np.nan
         if self.model.obj_grads is not None:
             grad = self.model.obj_grads
             self.current_gradient = np.dot(grad, grad)
-- 
2.43.0


From bfdf26e8e29cc42d2d918d78e567e587d2ef9722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 46/58] fix: the notebook display passes on the error, which
 ended the optimization

---
 paramz/optimization/verbose_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/optimization/verbose_optimization.py b/paramz/optimization/verbose_optimization.py
index 1544bd3..7b41b08 100644
--- a/paramz/optimization/verbose_optimization.py
+++ b/paramz/optimization/verbose_optimization.py
@@ -215,7 +215,7 @@ class VerboseOptimization(object):
 
     def __exit__(self, type, value, traceback):
         if self.verbose:
-            self.status = self.opt.status
+            self.status = str(self.opt.status) # there is no status, if the optimization ended by an error
 
             self.stop = time.time()
             self.model.remove_observer(self)
-- 
2.43.0


From 4c8ae9c345a81649ec7572a2357692ee04b1e8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 47/58] fix: in-place matrix multiplication of observable
 arrays notifies the observers

---
 paramz/core/observable_array.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paramz/core/observable_array.py b/paramz/core/observable_array.py
index 06f8ee4..9dc2197 100644
--- a/paramz/core/observable_array.py
+++ b/paramz/core/observable_array.py
@@ -199,3 +199,9 @@ class ObsAr(np.ndarray, Pickleable, Observable):
         r = np.ndarray.__imul__(self, *args, **kwargs)
         self.notify_observers()
         return r
+
+
+    def __imatmul__(self, *args, **kwargs): #pragma: no cover
+        r = np.ndarray.__imatmul__(self, *args, **kwargs)
+        self.notify_observers()
+        return r
-- 
2.43.0


From bc5f6b8199ff27c1aae7d94cfdebc753411d0438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 48/58] fix: numpy functions can index a parameter they
 reshaped

---
 paramz/param.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index 8b1ac5a..4fabb00 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -162,7 +162,8 @@ class Param(Parameterizable, ObsAr):
         new_arr = super(Param, self).__getitem__(s, *args, **kwargs)
         try:
             new_arr._current_slice_ = s
-            new_arr._gradient_array_ = self.gradient[s]
+            if self.gradient.shape == self.shape: # self can be reshaped, e.g. by numpy functions
+                new_arr._gradient_array_ = self.gradient[s]
             new_arr._original_ = self._original_
         except AttributeError: pass  # returning 0d array or float, double etc
         return new_arr
-- 
2.43.0


From 36443c7d534b713f92483c38c9a34fc55b5b0c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 49/58] fix: in-place operations on a concatenation of
 parameters leave the concatenation, not None

---
 paramz/param.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/paramz/param.py b/paramz/param.py
index 4fabb00..e19930d 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -558,39 +558,52 @@ class ParamConcatenation(object):
 
     def __ilshift__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ilshift__(self.values(), *args, **kwargs)
+        return self
 
     def __irshift__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__irshift__(self.values(), *args, **kwargs)
+        return self
 
     def __ixor__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ixor__(self.values(), *args, **kwargs)
+        return self
 
     def __ipow__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ipow__(self.values(), *args, **kwargs)
+        return self
 
     def __ifloordiv__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ifloordiv__(self.values(), *args, **kwargs)
+        return self
 
     def __isub__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__isub__(self.values(), *args, **kwargs)
+        return self
 
     def __ior__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ior__(self.values(), *args, **kwargs)
+        return self
 
     def __itruediv__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__itruediv__(self.values(), *args, **kwargs)
+        return self
 
     def __idiv__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__idiv__(self.values(), *args, **kwargs)
+        return self
 
     def __iand__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__iand__(self.values(), *args, **kwargs)
+        return self
 
     def __imod__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__imod__(self.values(), *args, **kwargs)
+        return self
 
     def __iadd__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__iadd__(self.values(), *args, **kwargs)
+        return self
 
     def __imul__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__imul__(self.values(), *args, **kwargs)
+        return self
-- 
2.43.0


From 759774bf44014904dc9772f9fd3acd6ad04ebbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:00 +0000
Subject: [PATCH 50/58] fix: a refused rename leaves the parameter and its
 hierarchy as they were

---
 paramz/core/nameable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paramz/core/nameable.py b/paramz/core/nameable.py
index 43e4f74..049f42f 100644
--- a/paramz/core/nameable.py
+++ b/paramz/core/nameable.py
@@ -69,6 +69,8 @@ class Nameable(Gradcheckable):
         """
         from_name = self.name
         assert isinstance(name, str)
+        if self.has_parent():
+            adjust_name_for_printing(name) # refuse the name before anything is changed
         self._name = name
         if self.has_parent():
             self._parent_._name_changed(self, from_name)
-- 
2.43.0


From 65bd35d1bababe22f89a6a4ab119b9694a4d6fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 51/58] fix: linking a parameter, whose name is refused, leaves
 both sides as they were

---
 paramz/parameterized.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index bff9121..768bb22 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -147,6 +147,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         # elif param.has_parent():
         #    raise HierarchyError, "parameter {} already in another model ({}), create new object (or copy) for adding".format(param._short(), param._highest_parent_._short())
         elif param not in self.parameters:
+            adjust_name_for_printing(param.name) # refuse the name before anything is changed
             if param.has_parent():
                 def visit(parent, self):
                     if parent is self:
-- 
2.43.0


From a640dac8503288fd82c85ae5a7bdbbd9c77c4e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 52/58] fix: hierarchy_name(adjust_for_printing=False) gives
 the names of the parents as they are, too

---
 paramz/core/nameable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/nameable.py b/paramz/core/nameable.py
index 049f42f..3213cbd 100644
--- a/paramz/core/nameable.py
+++ b/paramz/core/nameable.py
@@ -86,5 +86,5 @@ class Nameable(Gradcheckable):
         if adjust_for_printing: adjust = lambda x: adjust_name_for_printing(x)
         else: adjust = lambda x: x
         if self.has_parent():
-            return self._parent_.hierarchy_name() + "." + adjust(self.name)
+            return self._parent_.hierarchy_name(adjust_for_printing) + "." + adjust(self.name)
         return adjust(self.name)
-- 
2.43.0


From 13ee58e1feae1dfbd1afdba2aac923d613f2854e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 53/58] fix: the optimizers taken from climin report the
 objective at their solution, restarts need it

---
 paramz/optimization/optimization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paramz/optimization/optimization.py b/paramz/optimization/optimization.py
index 5bdf717..b615ba9 100644
--- a/paramz/optimization/optimization.py
+++ b/paramz/optimization/optimization.py
@@ -270,6 +270,8 @@ class Opt_Adadelta(Optimizer):
         for info in opt:
             if info['n_iter']>=self.max_iters:
                 self.x_opt =  opt.wrt
+                self.f_opt = f(self.x_opt)
+                self.funct_eval = info['n_iter']
                 self.status = 'maximum number of function evaluations exceeded '
                 break
         else: # pragma: no cover
@@ -306,6 +308,8 @@ class RProp(Optimizer):
         for info in opt:
             if info['n_iter']>=self.max_iters:
                 self.x_opt =  opt.wrt
+                self.f_opt = f(self.x_opt)
+                self.funct_eval = info['n_iter']
                 self.status = 'maximum number of function evaluations exceeded'
                 break
         else: # pragma: no cover
@@ -348,6 +352,8 @@ class Adam(Optimizer):
         for info in opt:
             if info['n_iter']>=self.max_iters:
                 self.x_opt =  opt.wrt
+                self.f_opt = f(self.x_opt)
+                self.funct_eval = info['n_iter']
                 self.status = 'maximum number of function evaluations exceeded'
                 break
         else: # pragma: no cover
-- 
2.43.0


From a26d300e0739637ff43f31b2735e191347f705f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 54/58] fix: the decay given to the optimizer Adam was ignored

---
 paramz/optimization/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paramz/optimization/optimization.py b/paramz/optimization/optimization.py
index b615ba9..44ee254 100644
--- a/paramz/optimization/optimization.py
+++ b/paramz/optimization/optimization.py
@@ -318,7 +318,7 @@ class RProp(Optimizer):
 class Adam(Optimizer):
     # We want the optimizer to know some things in the Optimizer implementation:
     def __init__(self, step_rate=.0002,
-                                  decay=0,
+                                  decay=1-1e-8,
                                   decay_mom1=0.1,
                                   decay_mom2=0.001,
                                   momentum=0,
@@ -326,7 +326,7 @@ class Adam(Optimizer):
         super(Adam, self).__init__(*args, **kwargs)
         self.opt_name = 'Adam (climin)'
         self.step_rate = step_rate
-        self.decay = 1-1e-8
+        self.decay = decay
         self.decay_mom1 = decay_mom1
         self.decay_mom2 = decay_mom2
         self.momentum = momentum
-- 
2.43.0


From c542696e582e3f051de1f40f87975f3c533416ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:03 +0000
Subject: [PATCH 55/58] fix: linking at an index behind the last parameter
 raised an IndexError

---
 paramz/parameterized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 768bb22..c3562e1 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -169,7 +169,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
                     iop.shift_right(start, param.size)
                     iop.update(param._index_operations[name], start)
                 param._parent_ = self
-                param._parent_index_ = index if index>=0 else len(self.parameters[:index])
+                param._parent_index_ = len(self.parameters[:index]) # the index can be beyond the ends, as for list.insert
                 for p in self.parameters[index:]:
                     p._parent_index_ += 1
                 self.parameters.insert(index, param)
-- 
2.43.0


From 4489b412755990c854cbd2904698c34425bcf656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 56/58] fix: an unlinked parameter could share its memory with
 those linked next, while the model is constructed

---
 paramz/parameterized.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index c3562e1..125bc42 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -216,6 +216,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
 
         start = sum([p.size for p in self.parameters[:param._parent_index_]])
         self.size -= param.size
+        self._param_array_ = self._gradient_array_ = None # their memory stays with param
         del self.parameters[param._parent_index_]
         self._remove_parameter_name(param)
 
@@ -231,6 +232,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         parent = self._parent_
         while parent is not None:
             parent.size -= param.size
+            parent._param_array_ = parent._gradient_array_ = None
             parent = parent._parent_
 
         self._highest_parent_._connect_parameters()
-- 
2.43.0


From 4fa5daeaee214909afe0c04021e1fabf7d68e525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:38 +0000
Subject: [PATCH 57/58] fix: objects created while copying do not get the ids
 of freed arrays

---
 paramz/parameterized.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 125bc42..3e7877c 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -369,8 +369,9 @@ If you are loading a model, set updates off, then initialize, then set the value
     def copy(self, memo=None):
         if memo is None:
             memo = {}
-        memo[id(self.optimizer_array)] = None # and param_array
-        memo[id(self.param_array)] = None # and param_array
+        arrays = self.optimizer_array, self.param_array # ids are given away again, if the arrays do not live until the copy is done
+        memo[id(arrays[0])] = None # and param_array
+        memo[id(arrays[1])] = None # and param_array
         copy = super(Parameterized, self).copy(memo)
         copy._connect_parameters()
         copy._connect_fixes()
-- 
2.43.0


From 8c7676109a65d12b64383cda917b43f00ad8bd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:48 +0000
Subject: [PATCH 58/58] fix: a cached function can call itself

---
 paramz/caching.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index 1a1943b..9871ea2 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -184,11 +184,12 @@ class Cacher(object):
             except:
                 self.reset()
                 raise
-            if(changed):
+            # (the operation can call this cacher again, so look once more what is cached now)
+            if cache_id in self.inputs_changed:
                 # 4: This happens, when elements have changed for this cache self.id
                 self.inputs_changed[cache_id] = False
                 self.cached_outputs[cache_id] = new_output
-            else:  # not_seen is True, as one of the two has to be True:
+            else:
                 # 3: This is when we never saw this chache_id:
                 self.ensure_cache_length()
                 self.add_to_cache(cache_id, inputs, new_output)
-- 
2.43.0

