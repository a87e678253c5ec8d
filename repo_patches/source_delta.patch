From 5bf04f5a1ea4b39a053b6be592abb069b6c9886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 01/26] fix: bounds no longer alias the caller's numpy arrays

---
 autobound/jax/jax_bound.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 0eb54a0..66cab55 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -27,6 +27,7 @@ from autobound.jax import jaxpr_editor
 import jax
 import jax.extend as jex
 import jax.numpy as jnp
+import numpy as np
 
 
 @dataclasses.dataclass
@@ -90,6 +91,12 @@ def taylor_bounds(
   def bound_fun(
       x0: jnp.ndarray, x_trust_region: types.Interval
   ) -> TaylorBounds:
+    # Copy any numpy arrays, so that the returned bound remains valid if the
+    # caller later overwrites them.
+    x0, x_trust_region = jax.tree_util.tree_map(
+        lambda a: a.copy() if isinstance(a, np.ndarray) else a,
+        (x0, x_trust_region))
+
     trust_region = interval_arithmetic.IntervalArithmetic(jnp).subtract(
         x_trust_region, x0)
 
-- 
2.43.0


From d199d7579747fcf91b5e53a53bc12d787131e421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 02/26] fix: read the registered enclosures atomically, once
 per bounding call

---
 autobound/jax/jax_bound.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 66cab55..53b7ebb 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -102,11 +102,16 @@ def taylor_bounds(
 
     arithmetic = enclosure_arithmetic.TaylorEnclosureArithmetic(
         max_degree, trust_region, jnp)
-    primitive_to_enclosure_fun = _pushforward_funs(arithmetic)
+    # Take a snapshot of the registered enclosures (atomically), in case one is
+    # registered by another thread in the meantime.
+    elementwise_enclosures = _ELEMENTWISE_PRIMITIVE_ENCLOSURES.copy()
+    primitive_to_enclosure_fun = _pushforward_funs(arithmetic,
+                                                   elementwise_enclosures)
 
     degree_0_arithmetic = (
         enclosure_arithmetic.TaylorEnclosureArithmetic(0, trust_region, jnp))
-    primitive_to_enclosure_fun0 = _pushforward_funs(degree_0_arithmetic)
+    primitive_to_enclosure_fun0 = _pushforward_funs(degree_0_arithmetic,
+                                                    elementwise_enclosures)
 
     closed_jaxpr = jaxpr_factory(x0)
     jaxpr = _rewrite_jaxpr(closed_jaxpr.jaxpr)
@@ -468,7 +473,9 @@ PushforwardFunction = Callable[
 
 
 def _pushforward_funs(
-    arithmetic: enclosure_arithmetic.TaylorEnclosureArithmetic
+    arithmetic: enclosure_arithmetic.TaylorEnclosureArithmetic,
+    elementwise_enclosures: dict[jex.core.Primitive,
+                                 ElementwiseEnclosureGeneratingFunction]
 ) -> dict[jex.core.Primitive, PushforwardFunction]:
   """Returns dict from primitive to function that inputs/outputs enclosures."""
   def pushforward_integer_pow(intermediate, y: int):
@@ -501,7 +508,7 @@ def _pushforward_funs(
   }
   primitive_to_enclosure_fun.update({
       primitive: _elementwise_pushforward_fun(arithmetic, get_enclosure)
-      for primitive, get_enclosure in _ELEMENTWISE_PRIMITIVE_ENCLOSURES.items()
+      for primitive, get_enclosure in elementwise_enclosures.items()
   })
   primitive_to_enclosure_fun.update({
       primitive: _pass_thru_pushforward_fun(primitive)
-- 
2.43.0


From 29c91052e96d34dd0bea96e28fc8a85ec0e244a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 03/26] fix: constants stay constants when trust regions are
 propagated

---
 autobound/jax/jax_bound.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 53b7ebb..7f1d85a 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -160,6 +160,7 @@ def taylor_bounds(
           assert fun0 is not None
           assert all(i.trust_region is not None for i in invar_intermediates)
           invar_degree_0_intermediates = [
+              intermediate if intermediate.is_constant() else
               _IntermediateEnclosure(
                   enclosure=types.TaylorEnclosure((intermediate.trust_region,)))
               for intermediate in invar_intermediates
-- 
2.43.0


From 164914e528d190bfac080ac23164cdc229bcf19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 04/26] fix: keep the variables of a replacement distinct from
 the subject's

---
 autobound/jax/jaxpr_editor.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index 3cffbd4..d0fe75d 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -66,10 +66,7 @@ def replace(pattern: jex.core.Jaxpr,
   pattern_graph = _jaxpr_to_graph(pattern)
   # When creating the replacement graph, offset the variable counts to keep
   # them unique.
-  max_count = max(
-      v[1] if v[0] else -1  # pytype: disable=unsupported-operands
-      for v in pattern_graph.intermediate_variables()
-  )
+  max_count = max(_max_var_count(pattern), _max_var_count(subject))
   replacement_graph = _jaxpr_to_graph(replacement, offset=max_count + 1)
   # In the replacement graph, replace inputs/outputs with those in the pattern
   # graph.
@@ -165,6 +162,15 @@ def _jaxpr_to_graph(jaxpr: jex.core.Jaxpr,
   )
 
 
+def _max_var_count(jaxpr: jex.core.Jaxpr) -> int:
+  """Returns the maximum count of any variable in a Jaxpr (-1 if none)."""
+  variables = itertools.chain(
+      jaxpr.constvars, jaxpr.invars,
+      *((*eqn.invars, *eqn.outvars) for eqn in jaxpr.eqns))
+  return max((v.count for v in variables if isinstance(v, jex.core.Var)),
+             default=-1)
+
+
 def _graph_to_jaxpr(h: graph_editor.ComputationGraph) -> jex.core.Jaxpr:
   """Returns the Jaxpr represented by a ComputationGraph."""
   count_to_var = {}
-- 
2.43.0


From 480b6c1b2aa2e003460f9a0ac769e21fea0f64e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 05/26] fix: bound jitted functions by bounding their bodies

---
 autobound/jax/jax_bound.py | 40 +++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 7f1d85a..3e0c713 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -113,8 +113,8 @@ def taylor_bounds(
     primitive_to_enclosure_fun0 = _pushforward_funs(degree_0_arithmetic,
                                                     elementwise_enclosures)
 
-    closed_jaxpr = jaxpr_factory(x0)
-    jaxpr = _rewrite_jaxpr(closed_jaxpr.jaxpr)
+    closed_jaxpr = _rewrite_and_inline_jit_calls(jaxpr_factory(x0))
+    jaxpr = closed_jaxpr.jaxpr
 
     x0 = jnp.asarray(x0)
     if x0.ndim == 0:
@@ -312,7 +312,6 @@ _PASS_THRU_PRIMITIVES = frozenset([
     jax.lax.reduce_window_sum_p,
     jax.lax.squeeze_p,
     jax.lax.transpose_p,
-    jex.core.primitives.jit_p,
     # TODO(mstreeter): add more of these
 ])
 
@@ -325,6 +324,41 @@ def _rewrite_jaxpr(jaxpr: jex.core.Jaxpr) -> jex.core.Jaxpr:
   return jaxpr
 
 
+def _rewrite_and_inline_jit_calls(
+    closed_jaxpr: jex.core.ClosedJaxpr) -> jex.core.ClosedJaxpr:
+  """Rewrites a Jaxpr, then inlines the jitted functions it still calls."""
+  jaxpr = _rewrite_jaxpr(closed_jaxpr.jaxpr)
+  constvars = list(jaxpr.constvars)
+  consts = list(closed_jaxpr.consts)
+  eqns = []
+  var_map = {}
+  def subs(v):
+    return var_map.get(v, v) if isinstance(v, jex.core.Var) else v
+
+  for eqn in jaxpr.eqns:
+    invars = [subs(v) for v in eqn.invars]
+    if eqn.primitive != jex.core.primitives.jit_p:
+      eqns.append(eqn.replace(invars=invars))
+      continue
+    callee = _rewrite_and_inline_jit_calls(eqn.params['jaxpr'])
+    callee_var_map = dict(zip(callee.jaxpr.invars, invars))
+    def rename(v, callee_var_map=callee_var_map):
+      # Create new variables, as the same callee may be called more than once.
+      if isinstance(v, jex.core.Var) and v not in callee_var_map:
+        callee_var_map[v] = jex.core.Var(aval=v.aval)
+      return callee_var_map[v] if isinstance(v, jex.core.Var) else v
+    constvars.extend(rename(v) for v in callee.jaxpr.constvars)
+    consts.extend(callee.consts)
+    eqns.extend(e.replace(invars=[rename(v) for v in e.invars],
+                          outvars=[rename(v) for v in e.outvars])
+                for e in callee.jaxpr.eqns)
+    var_map.update(zip(eqn.outvars, [rename(v) for v in callee.jaxpr.outvars]))
+
+  outvars = [subs(v) for v in jaxpr.outvars]
+  return jex.core.ClosedJaxpr(
+      jex.core.Jaxpr(constvars, jaxpr.invars, outvars, eqns), consts)
+
+
 @dataclasses.dataclass
 class _IntermediateEnclosure:
   """An enclosure for some intermediate variable in a Jaxpr."""
-- 
2.43.0


From 656bc520d46c70292994bb3bb71aed982aa40f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 06/26] fix: ranges compare end points with interior extrema,
 and can be traced

The range of a function over a region was the value at the best extremum
inside the region, ignoring end points, which can be beyond it when there are
several extrema (swish''', sigmoid''''). Sorting the extrema by value also
failed when bounds are computed inside a compiled function.
---
 autobound/elementwise_functions.py | 34 ++++++++++++++++--------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/autobound/elementwise_functions.py b/autobound/elementwise_functions.py
index 07efe06..23fcfe6 100644
--- a/autobound/elementwise_functions.py
+++ b/autobound/elementwise_functions.py
@@ -206,14 +206,16 @@ def maximum_value(f,
                   local_maxima: Sequence[float],
                   np_like: NumpyLike) -> NDArray:
   """Returns maximum value of `f` over `[x_min, x_max]`."""
-  if not local_maxima:
-    return np_like.maximum(f(x_min), f(x_max))
-  sorted_maxima = list(sorted(local_maxima, key=f, reverse=True))
-  x = sorted_maxima[0]
-  return np_like.where(
-      np_like.logical_and(x_min <= x, x <= x_max),
-      f(x),
-      maximum_value(f, x_min, x_max, sorted_maxima[1:], np_like))
+  # The maximum is attained at an end point or at a local maximum in the region.
+  # Note that an end point can beat the local maxima in the region, and that
+  # f(x) can be a traced value, which Python code can't compare.
+  maxval = np_like.maximum(f(x_min), f(x_max))
+  for x in local_maxima:
+    maxval = np_like.where(
+        np_like.logical_and(x_min <= x, x <= x_max),
+        np_like.maximum(maxval, f(x)),
+        maxval)
+  return maxval
 
 
 def minimum_value(f,
@@ -222,14 +224,14 @@ def minimum_value(f,
                   local_minima: Sequence[float],
                   np_like: NumpyLike) -> NDArray:
   """Returns minimum value of `f` over `[x_min, x_max]`."""
-  if not local_minima:
-    return np_like.minimum(f(x_min), f(x_max))
-  sorted_minima = list(sorted(local_minima, key=f))
-  x = sorted_minima[0]
-  return np_like.where(
-      np_like.logical_and(x_min <= x, x <= x_max),
-      f(x),
-      minimum_value(f, x_min, x_max, sorted_minima[1:], np_like))
+  # See the comments in maximum_value().
+  minval = np_like.minimum(f(x_min), f(x_max))
+  for x in local_minima:
+    minval = np_like.where(
+        np_like.logical_and(x_min <= x, x <= x_max),
+        np_like.minimum(minval, f(x)),
+        minval)
+  return minval
 
 
 def _get_range(f,
-- 
2.43.0


From 0fde4d47b551a3da2d39a4c23141d8cc6c8a0680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 07/26] fix: list all extrema of the 4th and 5th derivatives of
 swish

---
 autobound/elementwise_functions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/autobound/elementwise_functions.py b/autobound/elementwise_functions.py
index 23fcfe6..05148b2 100644
--- a/autobound/elementwise_functions.py
+++ b/autobound/elementwise_functions.py
@@ -351,8 +351,10 @@ _FUNCTION_DATA = {
         FunctionData((-4.429235100557346, 1.0319582417807385),
                      (-1.0319582417807402, 4.429235100557342)),
     SWISH.derivative_id(4):
-        FunctionData((0.,), (-1.8197756117249821, 1.8197756117249804)),
+        FunctionData((-5.400818739495216, 0., 5.400818739495216),
+                     (-1.8197756117249821, 1.8197756117249804)),
     SWISH.derivative_id(5):
-        FunctionData((-0.7177419231466055, 2.5062894864026024),
-                     (-2.506289486402605, 0.7177419231466035)),
+        FunctionData(
+            (-6.36199228368169, -0.7177419231466055, 2.5062894864026024),
+            (-2.506289486402605, 0.7177419231466035, 6.36199228368169)),
 }
-- 
2.43.0


From 2b468e5731bbad2ed0bbe7ebed8ce4effbdc873e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:01 +0000
Subject: [PATCH 08/26] fix: evaluate constant operations that have several
 results or sub-programs

An operation on constants with a list of one result (sort, while, cond) got
that list as its value, so bounds had a spurious dimension or failed.
---
 autobound/jax/jax_bound.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 3e0c713..a1fd1ba 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -200,8 +200,9 @@ def taylor_bounds(
       else:
         invar_values = tuple(intermediate.constant_value()
                              for intermediate in invar_intermediates)
-        vals = eqn.primitive.bind(*invar_values, **eqn.params)
-        if len(eqn.outvars) == 1:
+        subfuns, bind_params = eqn.primitive.get_bind_params(eqn.params)
+        vals = eqn.primitive.bind(*subfuns, *invar_values, **bind_params)
+        if not eqn.primitive.multiple_results:
           vals = (vals,)
         outvar_intermediates = [_constant_intermediate_enclosure(v)
                                 for v in vals]
-- 
2.43.0


From 3f4a86583a2b21df0e2a1d3344ca8e58cc446861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:14 +0000
Subject: [PATCH 09/26] fix: don't divide roundoff error by a small power of
 x-x0

With a region whose end point is close to the centre, the remainder at that end
point can be pure roundoff error. Dividing it by (x-x0)**k gave enclosures that
were wrong by orders of magnitude (softplus, degree 2, centre 1e-6 in [0, 3]).
---
 autobound/primitive_enclosures.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index b58a2b5..f2e83cb 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -293,8 +293,16 @@ def taylor_remainder_ratio(
   # We do so using:
   #     r_{k-1} / (x-x0)**k = (r_k + c_k*(x-x0)**k) / (x-x0)**k
   #                         = c_k + r_k / (x-x0)**k.
-  r_k = sigma(x) - sum(
-      c * (x - x0)**i for i, c in enumerate(taylor_coefficients_at_x0))
+  terms = [c * (x - x0)**i for i, c in enumerate(taylor_coefficients_at_x0)]
+  sigma_x = sigma(x)
+  r_k = sigma_x - sum(terms)
+  # When x-x0 is small, r_k can consist of nothing but roundoff error, which
+  # dividing by (x-x0)**k would blow up.  Ignoring a value of r_k that is as
+  # small as the roundoff error only affects the enclosure by roundoff error.
+  # (The comparison is strict so that infinite values of r_k are kept.)
+  eps = np_like.finfo(np_like.asarray(1. * r_k).dtype).eps
+  roundoff = sum(8 * eps * np_like.abs(t) for t in [sigma_x] + terms)
+  r_k = np_like.where(np_like.abs(r_k) < roundoff, 0., r_k)
   denom = (x-x0)**degree
   return (
       taylor_coefficients_at_x0[degree] +
-- 
2.43.0


From 84fbc97085d38e3b20c81fc5d48ffa1b1d9c7b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:40 +0000
Subject: [PATCH 10/26] fix: broadcast enclosures of degree 1, and of functions
 of arrays

The shape of the first coefficient was read with .shape, which fails when
it is an interval, and the extra dimensions of the coefficients were not
mapped to dimensions of the result.
---
 autobound/jax/jax_bound.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index a1fd1ba..742b0ff 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -385,9 +385,14 @@ def _broadcast_in_dim_pushforward_fun(intermediate, shape,
   x0 = enclosure[0]
   if isinstance(x0, tuple):
     x0 = enclosure[0][0]
-  x_shape = (() if len(enclosure) == 1 else enclosure[1].shape[x0.ndim:])
+  set_arithmetic = interval_arithmetic.IntervalArithmetic(jnp)
+  x_shape = (() if len(enclosure) == 1 else
+             tuple(set_arithmetic.shape(enclosure[1]))[x0.ndim:])
   def broadcast_ndarray(a, i):
-    return jax.lax.broadcast_in_dim(a, shape + i*x_shape, broadcast_dimensions)
+    # The trailing i*len(x_shape) dimensions of coefficient i stay last.
+    dims = tuple(broadcast_dimensions) + tuple(
+        range(len(shape), len(shape) + i*len(x_shape)))
+    return jax.lax.broadcast_in_dim(a, tuple(shape) + i*x_shape, dims)
   def broadcast_ndarray_or_interval(a, i):
     if isinstance(a, tuple):
       return tuple(broadcast_ndarray(x, i) for x in a)
-- 
2.43.0


From 58a621d5010a7d2472813b3e99591d8fe26da4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 11/26] fix: propagate trust regions through operations with
 constant results

The degree 0 enclosure of x**0 is an array rather than an interval, and
intersecting it failed.
---
 autobound/jax/jax_bound.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 742b0ff..0ea0b5e 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -488,9 +488,10 @@ def _elementwise_pushforward_fun(arithmetic, get_enclosure):
 
 
 def _intersect_intervals(
-    a: types.Interval, b: types.Interval) -> types.Interval:
-  if not len(a) == len(b) == 2:
-    raise ValueError()
+    a: Union[types.NDArray, types.Interval],
+    b: Union[types.NDArray, types.Interval]) -> types.Interval:
+  # The enclosure of a constant (such as x**0) is an array, not an interval.
+  a, b = (c if isinstance(c, tuple) else (c, c) for c in (a, b))
   return (jnp.maximum(a[0], b[0]), jnp.minimum(a[1], b[1]))  # pytype: disable=wrong-arg-types
 
 
-- 
2.43.0


From 3238875d6864130b0d46ce4e715838840147a3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:51 +0000
Subject: [PATCH 12/26] fix: enclose even derivatives of x**p around zero

Over a region containing zero, an even derivative of x**p has its minimum
inside the region, not at an end point of it.
---
 autobound/primitive_enclosures.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index f2e83cb..2b3d4d4 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -164,6 +164,13 @@ def pow_enclosure(exponent: float,
     elif exponent < 0:
       endpoint_if_always_negative = enc_neg[-1][i]
       endpoint_if_possibly_zero = -np_like.inf if i == 0 else np_like.inf
+    elif exponent > degree and (exponent - degree) % 2 == 0:
+      endpoint_if_always_negative = enc_neg[-1][i]
+      # The (degree)th derivative is a positive multiple of an even power of x,
+      # which is not monotone.  Use the range of the derivative.
+      endpoint_if_possibly_zero = 0. if i == 0 else (
+          math.comb(int(exponent), degree) *
+          np_like.maximum(np_like.abs(a), np_like.abs(b))**(exponent - degree))
     else:
       endpoint_if_always_negative = enc_neg[-1][i]
       endpoint_if_possibly_zero = functools.reduce(
-- 
2.43.0


From 38d0b05717b17a509ed27f7ef83d10c3fb241109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:34 +0000
Subject: [PATCH 13/26] fix: don't cap the reciprocal of a power of x-x0

Capping it at 1e12 made enclosures invalid when the power was smaller.
Roundoff error is no longer divided by it, so that the cap is not needed.
---
 autobound/primitive_enclosures.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index 2b3d4d4..744de16 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -307,16 +307,15 @@ def taylor_remainder_ratio(
   # dividing by (x-x0)**k would blow up.  Ignoring a value of r_k that is as
   # small as the roundoff error only affects the enclosure by roundoff error.
   # (The comparison is strict so that infinite values of r_k are kept.)
-  eps = np_like.finfo(np_like.asarray(1. * r_k).dtype).eps
-  roundoff = sum(8 * eps * np_like.abs(t) for t in [sigma_x] + terms)
+  finfo = np_like.finfo(np_like.asarray(1. * r_k).dtype)
+  roundoff = sum(8 * finfo.eps * np_like.abs(t) for t in [sigma_x] + terms)
   r_k = np_like.where(np_like.abs(r_k) < roundoff, 0., r_k)
   denom = (x-x0)**degree
+  # Return c_k + r_k / denom, without dividing by zero when x=x0.
   return (
       taylor_coefficients_at_x0[degree] +
-      # Return r_k * 1 / denom, capping the magnitude of 1 / denom at 1e12.
-      # TODO(mstreeter): this results in an enclosure that's  not strictly valid
-      # when denom is very small.
-      r_k * np_like.sign(denom) / (np_like.maximum(1e-12, np_like.abs(denom)))
+      r_k * np_like.sign(denom) / np_like.maximum(finfo.tiny,
+                                                  np_like.abs(denom))
   )
 
 
-- 
2.43.0


From 920f061365145bcfdc9fc6f54acc54cc10a015d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:24 +0000
Subject: [PATCH 14/26] fix: derivatives of x**p that are identically zero are
 zero at x=0 too

---
 autobound/primitive_enclosures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index 744de16..9e76702 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -120,7 +120,9 @@ def pow_enclosure(exponent: float,
     # Note: the next line can sometimes generate bogus RuntimeWarnings when
     # using Numpy.  This seems to be a bug in Numpy, as even doing
     # np.array(2.)**-1 generates the same RuntimeWarning.
-    taylor_coefficients_at_x0.append(c * x0**(exponent - i) / math.factorial(i))
+    # When c is zero, so is the derivative (also if x0**(exponent - i) is inf).
+    taylor_coefficients_at_x0.append(
+        c * x0**(exponent - i if c else 0) / math.factorial(i))
     c *= exponent - i
 
   # Compute sharp enclosures of x**exponent for the case x > 0 (enc_pos below),
-- 
2.43.0


From b2b75a7fd7fa8fec297c554541304f2d92ab2e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:02 +0000
Subject: [PATCH 15/26] fix: rewrite programs that contain integer constants

Jax represents some literals by arrays, which aren't hashable.
---
 autobound/jax/jaxpr_editor.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index d0fe75d..14d6752 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -16,7 +16,7 @@
 
 import itertools
 import types
-from typing import Any, Union
+from typing import Union
 
 from autobound import graph_editor
 import jax
@@ -106,6 +106,22 @@ class _EqnData:
     return f'_EqnData({self.primitive}, {self.params})'
 
 
+class _LiteralVal:
+  """The value of a jex.core.Literal (arrays, for example, aren't hashable)."""
+
+  def __init__(self, val):
+    self.val = val
+
+  def __eq__(self, other):
+    return isinstance(other, _LiteralVal) and bool(self.val == other.val)
+
+  def __hash__(self):
+    return hash(self.val.item() if hasattr(self.val, 'item') else self.val)
+
+  def __repr__(self):
+    return f'_LiteralVal({self.val})'
+
+
 # An intermediate variable is a tuple that either represents a jex.core.Var or
 # a jex.core.Literal.
 _IntermediateVariable = Union[
@@ -114,7 +130,7 @@ _IntermediateVariable = Union[
     tuple[bool, int, jax.core.AbstractValue],
     # If the first element of the tuple is False, then the tuple represents
     # a jex.core.Literal, and is of the form (False, val, aval).
-    tuple[bool, Any, jax.core.AbstractValue]
+    tuple[bool, _LiteralVal, jax.core.AbstractValue]
 ]
 
 
@@ -139,7 +155,7 @@ def _jaxpr_to_graph(jaxpr: jex.core.Jaxpr,
       return (True, var.count + offset, var.aval)
     elif isinstance(var_or_literal, jex.core.Literal):
       literal = var_or_literal
-      return (False, literal.val, literal.aval)
+      return (False, _LiteralVal(literal.val), literal.aval)
     else:
       raise NotImplementedError()
 
@@ -186,7 +202,7 @@ def _graph_to_jaxpr(h: graph_editor.ComputationGraph) -> jex.core.Jaxpr:
       return count_to_var[count]
     else:
       _, val, aval = vertex
-      return jex.core.Literal(val, aval)
+      return jex.core.Literal(val.val, aval)
 
   eqns = []
   for edge in h.operations:
-- 
2.43.0


From d20b76b7b07f4f9d739271b1b679f69ee118a51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:00 +0000
Subject: [PATCH 16/26] fix: don't replace matches whose intermediate results
 are needed elsewhere

The rewritten program used variables that nothing computed.
---
 autobound/graph_editor.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/autobound/graph_editor.py b/autobound/graph_editor.py
index 6a87fae..7844fa3 100644
--- a/autobound/graph_editor.py
+++ b/autobound/graph_editor.py
@@ -114,7 +114,9 @@ def replace(
   """Perform a search/replace on a ComputationGraph.
 
   This method greedily replaces occurences of a given operation sequence
-  `pattern` with an operation sequence `replacement`.
+  `pattern` with an operation sequence `replacement`.  Matches with intermediate
+  results that the replacement does not compute, but that are needed elsewhere,
+  are left alone.
 
   Args:
     pattern: a sequence of `Operations`
@@ -136,7 +138,7 @@ def replace(
   while i < len(subject.operations):
     subgraph = subject.operations[i:i+k]
     m = match(pattern, subgraph, can_bind)
-    if m is not None:
+    if m is not None and _can_replace(pattern, replacement, m, subject, i):
       output_operations.extend([e.subs(m) for e in replacement])
       i += k
     else:
@@ -149,3 +151,25 @@ def replace(
       output_operations,
       data=subject.data
   )
+
+
+def _can_replace(
+    pattern: Sequence[Operation],
+    replacement: Sequence[Operation],
+    vertex_map: Mapping[IntermediateVariable, IntermediateVariable],
+    subject: ComputationGraph,
+    start: int
+) -> bool:
+  """Returns whether everything needed is there if a match is replaced."""
+  results = set(itertools.chain(*(op.outputs for op in pattern)))
+  # Results of the matched operations can't be inputs of the replacement.
+  matched_results = {vertex_map[v] for v in results}
+  if any(v not in results and vertex_map[v] in matched_results
+         for v in vertex_map):
+    return False
+  kept_results = {
+      vertex_map.get(v, v) for op in replacement for v in op.outputs}
+  others = itertools.chain(subject.operations[:start],
+                           subject.operations[start+len(pattern):])
+  needed = itertools.chain(subject.outputs, *(op.inputs for op in others))
+  return not (matched_results - kept_results).intersection(needed)
-- 
2.43.0


From 9ab6eb1fc49c70f07cd9a8a758c3ee94a7764ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:08 +0000
Subject: [PATCH 17/26] fix: replacements may return their inputs, constants,
 or one value twice

The rewritten program used variables that nothing computed.
---
 autobound/graph_editor.py     | 21 ++++++++++++++++-----
 autobound/jax/jaxpr_editor.py | 16 ++++++++++------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/autobound/graph_editor.py b/autobound/graph_editor.py
index 7844fa3..6367554 100644
--- a/autobound/graph_editor.py
+++ b/autobound/graph_editor.py
@@ -109,7 +109,8 @@ def replace(
     pattern: Sequence[Operation],
     replacement: Sequence[Operation],
     subject: ComputationGraph,
-    can_bind: Callable[[IntermediateVariable, IntermediateVariable], bool]
+    can_bind: Callable[[IntermediateVariable, IntermediateVariable], bool],
+    aliases: Optional[Mapping[IntermediateVariable, IntermediateVariable]] = None
 ) -> ComputationGraph:
   """Perform a search/replace on a ComputationGraph.
 
@@ -125,6 +126,9 @@ def replace(
     subject: a `ComputationGraph`
     can_bind: a `Callable` with the same meaning as the corresponding argument
       to `match()`.
+    aliases: an optional mapping from `IntermediateVariables` of the pattern to
+      what takes their place, for those that `replacement` does not compute
+      (e.g., because it returns one of its inputs).
 
   Returns:
     a `ComputationGraph` with occurrences of `pattern` replaced by
@@ -133,21 +137,26 @@ def replace(
   # Note: this could be made more efficient using the Knuth-Morris-Pratt
   # algorithm.
   k = len(pattern)
+  aliases = aliases or {}
+  renamed = {}
   output_operations = []
   i = 0
   while i < len(subject.operations):
     subgraph = subject.operations[i:i+k]
     m = match(pattern, subgraph, can_bind)
-    if m is not None and _can_replace(pattern, replacement, m, subject, i):
+    if m is not None and _can_replace(pattern, replacement, m, subject, i,
+                                      aliases):
+      m = {u: renamed.get(v, v) for u, v in m.items()}
       output_operations.extend([e.subs(m) for e in replacement])
+      renamed.update((m[u], m.get(v, v)) for u, v in aliases.items() if u in m)
       i += k
     else:
-      output_operations.append(subject.operations[i])
+      output_operations.append(subject.operations[i].subs(renamed))
       i += 1
 
   return ComputationGraph(
       subject.inputs,
-      subject.outputs,
+      [renamed.get(v, v) for v in subject.outputs],
       output_operations,
       data=subject.data
   )
@@ -158,7 +167,8 @@ def _can_replace(
     replacement: Sequence[Operation],
     vertex_map: Mapping[IntermediateVariable, IntermediateVariable],
     subject: ComputationGraph,
-    start: int
+    start: int,
+    aliases: Mapping[IntermediateVariable, IntermediateVariable]
 ) -> bool:
   """Returns whether everything needed is there if a match is replaced."""
   results = set(itertools.chain(*(op.outputs for op in pattern)))
@@ -169,6 +179,7 @@ def _can_replace(
     return False
   kept_results = {
       vertex_map.get(v, v) for op in replacement for v in op.outputs}
+  kept_results.update(vertex_map[v] for v in aliases if v in vertex_map)
   others = itertools.chain(subject.operations[:start],
                            subject.operations[start+len(pattern):])
   needed = itertools.chain(subject.outputs, *(op.inputs for op in others))
diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index 14d6752..faaa9f9 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -70,12 +70,15 @@ def replace(pattern: jex.core.Jaxpr,
   replacement_graph = _jaxpr_to_graph(replacement, offset=max_count + 1)
   # In the replacement graph, replace inputs/outputs with those in the pattern
   # graph.
-  intermediate_variable_map = {}
-  for u, v in itertools.chain(
-      zip(replacement_graph.inputs, pattern_graph.inputs),
-      zip(replacement_graph.outputs, pattern_graph.outputs),
-  ):
-    intermediate_variable_map[u] = v
+  intermediate_variable_map = dict(
+      zip(replacement_graph.inputs, pattern_graph.inputs))
+  aliases = {}
+  for u, v in zip(replacement_graph.outputs, pattern_graph.outputs):
+    if u in intermediate_variable_map or not u[0]:
+      # The replacement returns an input, a constant, or the same value twice.
+      aliases[v] = intermediate_variable_map.get(u, u)
+    else:
+      intermediate_variable_map[u] = v
   replacement_operations = [
       e.subs(intermediate_variable_map) for e in replacement_graph.operations
   ]
@@ -84,6 +87,7 @@ def replace(pattern: jex.core.Jaxpr,
       replacement_operations,
       _jaxpr_to_graph(subject),
       _can_bind,
+      aliases,
   )
   return _graph_to_jaxpr(hypergraph)
 
-- 
2.43.0


From 86e48b71daa8696833180122d982c7ccf062136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:33 +0000
Subject: [PATCH 18/26] fix: compare the constants of inner programs when
 matching patterns

---
 autobound/jax/jaxpr_editor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index faaa9f9..ed9665b 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -21,6 +21,7 @@ from typing import Union
 from autobound import graph_editor
 import jax
 import jax.extend as jex
+import numpy as np
 
 
 def replace(pattern: jex.core.Jaxpr,
@@ -246,11 +247,12 @@ def _jaxpr_eqn_params_equiv(p0, p1) -> bool:
       continue
     v1 = p1[k0]
     if isinstance(v0, jex.core.ClosedJaxpr):
-      # TODO(mstreeter): this could incorrectly return True if v0.consts and
-      # v1.consts are different.
       if not _same_jaxpr_up_to_variable_renaming(v0.jaxpr, v1.jaxpr,
                                                  ignore_shape=True):
         return False
+      if not all(c0 is c1 or np.array_equal(c0, c1)
+                 for c0, c1 in zip(v0.consts, v1.consts)):
+        return False
     elif isinstance(v0, jex.core.Jaxpr):
       if not _same_jaxpr_up_to_variable_renaming(v0, v1, ignore_shape=True):
         return False
-- 
2.43.0


From 8e184c6ecfc69a104a3337b2e2db43afa957aa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:44 +0000
Subject: [PATCH 19/26] fix: enclosures of functions at integer operands

---
 autobound/elementwise_functions.py | 3 ++-
 autobound/primitive_enclosures.py  | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/autobound/elementwise_functions.py b/autobound/elementwise_functions.py
index 05148b2..87dfb03 100644
--- a/autobound/elementwise_functions.py
+++ b/autobound/elementwise_functions.py
@@ -137,7 +137,8 @@ def get_function(function_id: FunctionId,
       return np_like.log
     else:
       sign = -1 if k % 2 == 0 else 1
-      return lambda x: sign * math.factorial(k-1) * np_like.asarray(x)**-k
+      # Note: integers can't be raised to a negative power.
+      return lambda x: sign * math.factorial(k-1) * (1.*np_like.asarray(x))**-k
   elif function_id.name == SIGMOID.name:
     return functools.partial(_sigmoid_derivative,
                              function_id.derivative_order, np_like=np_like)
diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index 9e76702..cb93696 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -114,6 +114,10 @@ def pow_enclosure(exponent: float,
                   degree: int,
                   np_like: NumpyLike) -> ElementwiseTaylorEnclosure:
   """Returns an ElementwiseTaylorEnclosure for x**exponent in terms of x-x0."""
+  # Integers can't be raised to a negative power, and overflow when raised to a
+  # positive one.
+  x0 = 1. * x0
+  trust_region = (1. * trust_region[0], 1. * trust_region[1])
   taylor_coefficients_at_x0 = []
   c = 1.
   for i in range(degree + 1):
@@ -302,7 +306,8 @@ def taylor_remainder_ratio(
   # We do so using:
   #     r_{k-1} / (x-x0)**k = (r_k + c_k*(x-x0)**k) / (x-x0)**k
   #                         = c_k + r_k / (x-x0)**k.
-  terms = [c * (x - x0)**i for i, c in enumerate(taylor_coefficients_at_x0)]
+  z = 1. * (x - x0)  # powers of integers could overflow
+  terms = [c * z**i for i, c in enumerate(taylor_coefficients_at_x0)]
   sigma_x = sigma(x)
   r_k = sigma_x - sum(terms)
   # When x-x0 is small, r_k can consist of nothing but roundoff error, which
@@ -312,7 +317,7 @@ def taylor_remainder_ratio(
   finfo = np_like.finfo(np_like.asarray(1. * r_k).dtype)
   roundoff = sum(8 * finfo.eps * np_like.abs(t) for t in [sigma_x] + terms)
   r_k = np_like.where(np_like.abs(r_k) < roundoff, 0., r_k)
-  denom = (x-x0)**degree
+  denom = z**degree
   # Return c_k + r_k / denom, without dividing by zero when x=x0.
   return (
       taylor_coefficients_at_x0[degree] +
-- 
2.43.0


From b3fa87655be5ab640c4b7c65583150972ef7fa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 20/26] fix: raise enclosures to integral powers given as
 floats

x**2. raised TypeError.
---
 autobound/enclosure_arithmetic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/autobound/enclosure_arithmetic.py b/autobound/enclosure_arithmetic.py
index ba2891e..2879fd6 100644
--- a/autobound/enclosure_arithmetic.py
+++ b/autobound/enclosure_arithmetic.py
@@ -321,6 +321,7 @@ class TaylorEnclosureArithmetic:
     """Returns a TaylorEnclosure for a**p, of degree <= self.max_degree."""
     self._validate_taylor_enclosure(a)
     if p >= 0 and p == int(p):
+      p = int(p)
       x_ndim = self.np_like.ndim(self.trust_region[0])
       term_product_coefficient = functools.partial(
           _elementwise_term_product_coefficient, x_ndim=x_ndim,
-- 
2.43.0


From 189d1459dcb624fd3ae66be43c6caf3ac790f41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 21/26] fix: bound products with batch dimensions of functions
 of arrays

The batch dimensions were counted as contracted ones, so that dimensions of the
coefficients were permuted: bounds were invalid, or an error was raised.
---
 autobound/jax/jax_bound.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 0ea0b5e..dc76f59 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -450,12 +450,12 @@ def _dot_general_pushforward_fun(arithmetic):
   def fun(lhs_intermediate: _IntermediateEnclosure,
           rhs_intermediate: _IntermediateEnclosure,
           **params):
-    a_contracting_dims = set(a  # pylint: disable=g-complex-comprehension
-                             for t in params['dimension_numbers']
-                             for a in t[0])
+    (a_contracting_dims, _), _ = params['dimension_numbers']
     def pairwise_batched_bilinear(
         a: jnp.ndarray, b: jnp.ndarray, p: int, q: int
     ) -> jnp.ndarray:
+      # The dimensions of the output are the batch dimensions, followed by the
+      # remaining dimensions of a and those of b.
       transposed_output = jax.lax.dot_general_p.bind(a, b, **params)
       p_start = a.ndim - p - len(a_contracting_dims)
       assert p_start >= 0
-- 
2.43.0


From ff66a0ab6d01d086fe57fd8b5c71e368f054c861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:32 +0000
Subject: [PATCH 22/26] fix: reshape, transpose and window-sum functions of
 arrays

The dimensions of coefficients that index powers of x-x0 were not taken into
account, and an error was raised.
---
 autobound/jax/jax_bound.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index dc76f59..3f31d36 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -496,11 +496,20 @@ def _intersect_intervals(
 
 
 def _pass_thru_pushforward_fun(primitive):
+  """Returns function that applies a linear primitive to each coefficient."""
   def fun(intermediate, **params):
+    c0 = intermediate.enclosure[0]
+    c0 = c0[0] if isinstance(c0, tuple) else c0
+    ndim = jnp.ndim(c0)
+    def apply_primitive(a):
+      # The last dimensions of coefficients, beyond those of the operand, index
+      # powers of x-x0 and are not affected.
+      f = functools.partial(primitive.bind, **params)
+      for _ in range(jnp.ndim(a) - ndim):
+        f = jax.vmap(f, in_axes=-1, out_axes=-1)
+      return f(a)
     return enclosure_arithmetic.map_over_enclosure(
-        intermediate.enclosure,
-        functools.partial(primitive.bind, **params)
-    )
+        intermediate.enclosure, apply_primitive)
   return fun
 
 
-- 
2.43.0


From b0d0f8807df87e05d7443a1974293a8ff3e264a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:32 +0000
Subject: [PATCH 23/26] fix: refuse to bound conversions to integer types

Each coefficient was converted, which gave invalid bounds.
---
 autobound/jax/jax_bound.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 3f31d36..66b37dc 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -501,6 +501,10 @@ def _pass_thru_pushforward_fun(primitive):
     c0 = intermediate.enclosure[0]
     c0 = c0[0] if isinstance(c0, tuple) else c0
     ndim = jnp.ndim(c0)
+    if (primitive == jax.lax.convert_element_type_p and
+        jnp.issubdtype(jnp.result_type(c0), jnp.inexact) and
+        not jnp.issubdtype(params['new_dtype'], jnp.inexact)):
+      raise NotImplementedError(params['new_dtype'])  # rounding is not linear
     def apply_primitive(a):
       # The last dimensions of coefficients, beyond those of the operand, index
       # powers of x-x0 and are not affected.
-- 
2.43.0


From f7e60910e75dd39315d7d552901d82338ce459af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:32 +0000
Subject: [PATCH 24/26] fix: broadcast coefficients before operations that
 depend on their shape

The coefficients of x + c, with c of a larger shape than x, kept the smaller
shape, and summing over a broadcast dimension gave invalid bounds.
---
 autobound/jax/jax_bound.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 66b37dc..07636b4 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -155,6 +155,9 @@ def taylor_bounds(
         outvar_enclosures = fun(*invar_intermediates, **eqn.params)
         if len(eqn.outvars) == 1:
           outvar_enclosures = (outvar_enclosures,)
+        outvar_enclosures = tuple(
+            _broadcast_coefficients(enclosure, outvar.aval.shape, x0.shape)
+            for enclosure, outvar in zip(outvar_enclosures, eqn.outvars))
         if propagate_trust_regions:
           fun0 = primitive_to_enclosure_fun0.get(eqn.primitive)
           assert fun0 is not None
@@ -404,6 +407,33 @@ def _broadcast_in_dim_pushforward_fun(intermediate, shape,
   )
 
 
+def _broadcast_coefficients(enclosure: types.TaylorEnclosure,
+                            shape: tuple[int, ...],
+                            x_shape: tuple[int, ...]) -> types.TaylorEnclosure:
+  """Gives each coefficient the full shape that a value's shape implies.
+
+  Arithmetic operations broadcast their operands implicitly, and may return
+  coefficients that have yet to be broadcast.  Operations such as sums over a
+  dimension depend on the actual shape.
+
+  Args:
+    enclosure: a `TaylorEnclosure`
+    shape: the shape of the value it encloses
+    x_shape: the shape of x
+
+  Returns:
+    an equal `TaylorEnclosure` whose ith coefficient has shape
+    `shape + i*x_shape`.
+  """
+  def broadcast(a, i):
+    if isinstance(a, tuple):
+      return tuple(broadcast(c, i) for c in a)
+    full_shape = tuple(shape) + i*tuple(x_shape)
+    return a if jnp.shape(a) == full_shape else jnp.broadcast_to(a, full_shape)
+  return types.TaylorEnclosure(
+      tuple(broadcast(c, i) for i, c in enumerate(enclosure)))
+
+
 def _constant_intermediate_enclosure(val: types.NDArray):
   return _IntermediateEnclosure(enclosure=types.TaylorEnclosure((val,)),
                                 trust_region=(val, val))
-- 
2.43.0


From e403a1cc225d8f86566d29624bd2a2364a1c3496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:59 +0000
Subject: [PATCH 25/26] fix: match patterns that contain conditionals or custom
 VJPs

---
 autobound/jax/jaxpr_editor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index ed9665b..25b0db8 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -235,7 +235,8 @@ def _can_bind(u, v) -> bool:
 
 
 # Set of Jaxpr equation params we ignore for matching purposes.
-_JAXPR_EQN_PARAMS_TO_IGNORE = frozenset(['weak_type', 'jvp_jaxpr_fun'])
+_JAXPR_EQN_PARAMS_TO_IGNORE = frozenset([
+    'weak_type', 'jvp_jaxpr_fun', 'fwd_jaxpr_thunk', 'bwd'])
 
 
 def _jaxpr_eqn_params_equiv(p0, p1) -> bool:
@@ -259,6 +260,10 @@ def _jaxpr_eqn_params_equiv(p0, p1) -> bool:
     elif isinstance(v0, types.FunctionType):
       if not isinstance(v1, types.FunctionType):
         return False
+    elif isinstance(v0, tuple) and isinstance(v1, tuple):
+      # E.g., the branches of a conditional.
+      if not _jaxpr_eqn_params_equiv(dict(enumerate(v0)), dict(enumerate(v1))):
+        return False
     elif v0 != v1:
       return False
   return True
-- 
2.43.0


From 04d85854c3c42770c7612a4e80008d7a2ef4cd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:15 +0000
Subject: [PATCH 26/26] fix: bound negative powers by their one-sided limits at
 a zero end point

---
 autobound/primitive_enclosures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index cb93696..d2608b7 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -118,6 +118,9 @@ def pow_enclosure(exponent: float,
   # positive one.
   x0 = 1. * x0
   trust_region = (1. * trust_region[0], 1. * trust_region[1])
+  # If zero is an endpoint, then use the limit from inside the trust region.
+  trust_region = (np_like.where(trust_region[0] == 0, 0., trust_region[0]),
+                  np_like.where(trust_region[1] == 0, -0., trust_region[1]))
   taylor_coefficients_at_x0 = []
   c = 1.
   for i in range(degree + 1):
-- 
2.43.0

