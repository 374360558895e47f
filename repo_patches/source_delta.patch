From f1ce6a1eaedb7408dfc0dd6631ad2b899ac1d3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:20 +0000
Subject: [PATCH 01/51] fix: Broyden with maxiter=0 and default history_size no
 longer raises IndexError

---
 jaxopt/_src/broyden.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/broyden.py b/jaxopt/_src/broyden.py
index 9670813..e975edf 100644
--- a/jaxopt/_src/broyden.py
+++ b/jaxopt/_src/broyden.py
@@ -417,4 +417,5 @@ class Broyden(base.IterativeSolver):
     self.reference_signature = self.fun
 
     if self.history_size is None:
-      self.history_size = self.maxiter
+      # At least one slot: the first update runs even if maxiter = 0.
+      self.history_size = max(self.maxiter, 1)
-- 
2.43.0


From 24328824f80bfeff3df454825fb0d54e8ef70843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:20 +0000
Subject: [PATCH 02/51] fix: LevenbergMarquardt madsen-nielsen stopping rule
 uses xtol * (||params|| + xtol) as documented

---
 jaxopt/_src/levenberg_marquardt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 0820e26..7df8006 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -171,7 +171,7 @@ class LevenbergMarquardt(base.IterativeSolver):
     if self.verbose:
       print_iteration(state)
     if self.stop_criterion == 'madsen-nielsen':
-      tree_mul_term = self.xtol * (tree_l2_norm(params) - self.xtol)
+      tree_mul_term = self.xtol * (tree_l2_norm(params) + self.xtol)
       return jnp.all(jnp.array([
         tree_inf_norm(state.gradient) > self.gtol,
         tree_l2_norm(state.delta) > tree_mul_term
-- 
2.43.0


From 50980ff33c1a1e8b91d16c70fdb0e7020a2cff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:05 +0000
Subject: [PATCH 03/51] fix: ProjectedGradient uses its implicit_diff_solve
 option

---
 jaxopt/_src/projected_gradient.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jaxopt/_src/projected_gradient.py b/jaxopt/_src/projected_gradient.py
index 5093e54..291e01d 100644
--- a/jaxopt/_src/projected_gradient.py
+++ b/jaxopt/_src/projected_gradient.py
@@ -157,5 +157,6 @@ class ProjectedGradient(base.IterativeSolver):
                                 decrease_factor=self.decrease_factor,
                                 verbose=self.verbose,
                                 implicit_diff=self.implicit_diff,
+                                implicit_diff_solve=self.implicit_diff_solve,
                                 jit=self.jit,
                                 unroll=self.unroll)
-- 
2.43.0


From 7c4e0a1da4a4cf5222eb47611f23e26680acdadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:20 +0000
Subject: [PATCH 04/51] fix: NonlinearCG reports the gradient norm of the
 returned iterate as error

---
 jaxopt/_src/nonlinear_cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/nonlinear_cg.py b/jaxopt/_src/nonlinear_cg.py
index 25151d1..ae3ef55 100644
--- a/jaxopt/_src/nonlinear_cg.py
+++ b/jaxopt/_src/nonlinear_cg.py
@@ -255,7 +255,7 @@ class NonlinearCG(base.IterativeSolver):
     new_descent_direction = tree_add_scalar_mul(tree_scalar_mul(-1, tree_conj(new_grad)),
                                                 new_beta,
                                                 descent_direction)
-    error = tree_l2_norm(grad)
+    error = tree_l2_norm(new_grad)
     realdtype = state.error.dtype
     new_state = NonlinearCGState(iter_num=state.iter_num + 1,
                                  stepsize=jnp.asarray(
-- 
2.43.0


From 0a812e53e85331497305e7e8d6c32c017bc1e90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:48 +0000
Subject: [PATCH 05/51] fix: ProximalGradient error uses the step size that
 produced the iterate

---
 jaxopt/_src/proximal_gradient.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/jaxopt/_src/proximal_gradient.py b/jaxopt/_src/proximal_gradient.py
index 76dba7e..85e5379 100644
--- a/jaxopt/_src/proximal_gradient.py
+++ b/jaxopt/_src/proximal_gradient.py
@@ -228,9 +228,10 @@ class ProximalGradient(base.IterativeSolver):
                                                       kwargs)
       # If step size becomes too small, we restart it to 1.0.
       # Otherwise, we attempt to increase it.
-      next_stepsize = jnp.where(next_stepsize <= 1e-6, 1.0,
-                                next_stepsize / self.decrease_factor)
-      return next_x, next_stepsize
+      used_stepsize = next_stepsize
+      next_stepsize = jnp.where(used_stepsize <= 1e-6, 1.0,
+                                used_stepsize / self.decrease_factor)
+      return next_x, used_stepsize, next_stepsize
     else:
       # without line search
       if isinstance(self.stepsize, Callable):
@@ -238,7 +239,7 @@ class ProximalGradient(base.IterativeSolver):
       else:
         next_stepsize = self.stepsize
       next_x = self._prox_grad(x, x_fun_grad, next_stepsize, hyperparams_prox)
-      return next_x, next_stepsize
+      return next_x, next_stepsize, next_stepsize
 
   def _update(self, x, state, hyperparams_prox, args, kwargs):
     dtype = tree_single_dtype(x)
@@ -246,9 +247,10 @@ class ProximalGradient(base.IterativeSolver):
     stepsize = state.stepsize
     (x_fun_val, aux), x_fun_grad = self._value_and_grad_with_aux(x, *args,
                                                                  **kwargs)
-    next_x, next_stepsize = self._iter(iter_num, x, x_fun_val, x_fun_grad,
-                                       stepsize, hyperparams_prox, args, kwargs)
-    error = self._error(tree_sub(next_x, x), next_stepsize)
+    next_x, used_stepsize, next_stepsize = self._iter(
+        iter_num, x, x_fun_val, x_fun_grad, stepsize, hyperparams_prox, args,
+        kwargs)
+    error = self._error(tree_sub(next_x, x), used_stepsize)
     next_state = ProxGradState(iter_num=iter_num + 1,
                                stepsize=jnp.asarray(next_stepsize, dtype=dtype),
                                error=jnp.asarray(error, dtype=dtype),
@@ -263,12 +265,13 @@ class ProximalGradient(base.IterativeSolver):
     stepsize = state.stepsize
     (y_fun_val, aux), y_fun_grad = self._value_and_grad_with_aux(y, *args,
                                                                  **kwargs)
-    next_x, next_stepsize = self._iter(iter_num, y, y_fun_val, y_fun_grad,
-                                       stepsize, hyperparams_prox, args, kwargs)
+    next_x, used_stepsize, next_stepsize = self._iter(
+        iter_num, y, y_fun_val, y_fun_grad, stepsize, hyperparams_prox, args,
+        kwargs)
     next_t = 0.5 * (1 + jnp.sqrt(1 + 4 * t ** 2))
     diff_x = tree_sub(next_x, x)
     next_y = tree_add_scalar_mul(next_x, (t - 1) / next_t, diff_x)
-    next_error = self._error(diff_x, next_stepsize)
+    next_error = self._error(diff_x, used_stepsize)
     next_state = ProxGradState(iter_num=iter_num + 1, velocity=next_y, t=next_t,
                                stepsize=jnp.asarray(next_stepsize, dtype=dtype),
                                error=jnp.asarray(next_error, dtype=dtype),
-- 
2.43.0


From 198cd4f9b6253631560916aa85970c2e65e733c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:54 +0000
Subject: [PATCH 06/51] fix: LevenbergMarquardt accepts jac_fun with
 materialize_jac=True

---
 jaxopt/_src/levenberg_marquardt.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 7df8006..aa84d59 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -490,14 +490,11 @@ class LevenbergMarquardt(base.IterativeSolver):
     if self.materialize_jac:
       if self.jac_fun is None:
         self._jac_fun = jax.jacfwd(self._fun, argnums=(0))
-        if self.geodesic:
-          self._hess_res_fun = jax.jacfwd(
-              jax.jacfwd(self._fun, argnums=(0)), argnums=(0))
-    else:
-      if self.jac_fun:
+      else:
         self._jac_fun = self.jac_fun
-        if self.geodesic:
-          self._hess_res_fun = jax.jacfwd(self.jac_fun, argnums=(0))
+      if self.geodesic:
+        self._hess_res_fun = jax.jacfwd(self._jac_fun, argnums=(0))
+    else:
       if self.solver == 'qr':
         raise ValueError("QR factorization solver materializes Jacobian to solve the augmented "
                          "Jacobian equation instead of the normal equation. Hence, this solver "
-- 
2.43.0


From bc12334c32a12ea0eb7f6da374b03a576494387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:46 +0000
Subject: [PATCH 07/51] fix: LevenbergMarquardt rejected trial points leave the
 iterate untouched even if non-finite

---
 jaxopt/_src/levenberg_marquardt.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index aa84d59..53b2154 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -295,16 +295,9 @@ class LevenbergMarquardt(base.IterativeSolver):
     gain_ratio_test_not_met_ret = gain_ratio_test_false_func(
         *gain_ratio_test_init_state)
 
-    gain_ratio_test_is_met_ret = jax.tree.map(
-        lambda x: gain_ratio_test_is_met * x, gain_ratio_test_is_met_ret)
-
-    gain_ratio_test_not_met_ret = jax.tree.map(
-        lambda x: (1.0 - gain_ratio_test_is_met) * x,
-        gain_ratio_test_not_met_ret)
-
     params, damping_factor, increase_factor, residual, gradient, jac, jt, jtj, hess_res, aux = jax.tree.map(
-        lambda x, y: x + y, gain_ratio_test_is_met_ret,
-        gain_ratio_test_not_met_ret)
+        lambda x, y: jnp.where(gain_ratio_test_is_met, x, y),
+        gain_ratio_test_is_met_ret, gain_ratio_test_not_met_ret)
 
     return params, damping_factor, increase_factor, residual, gradient, jac, jt, jtj, hess_res, aux
 
-- 
2.43.0


From 9ddd8002805e5449e2788496a9894e66074d59e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:28 +0000
Subject: [PATCH 08/51] fix: ScipyRootFinding and ScipyLeastSquares work with
 has_aux=True

---
 jaxopt/_src/scipy_wrappers.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index fcd116e..3df895e 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -22,6 +22,7 @@
 """
 
 from dataclasses import dataclass
+import functools
 from typing import Any
 from typing import Callable
 from typing import Dict
@@ -560,13 +561,16 @@ class ScipyRootFinding(ScipyWrapper):
     return base.OptStep(params, info)
 
   def __post_init__(self):
-    super().__post_init__()
-
     if self.has_aux:
-      def optimality_fun(x, *args, **kwargs):
-        return self.optimality_fun(x, *args, **kwargs)[0]
+      fun_with_aux = self.optimality_fun
+
+      @functools.wraps(fun_with_aux)
+      def optimality_fun(*args, **kwargs):
+        return fun_with_aux(*args, **kwargs)[0]
       self.optimality_fun = optimality_fun
 
+    super().__post_init__()
+
     # Pre-compile useful functions.
     self._jac_fun = (jax.jacrev(self.optimality_fun) if self.use_jacrev
                      else jax.jacfwd(self.optimality_fun))
@@ -709,7 +713,8 @@ class ScipyLeastSquares(ScipyWrapper):
           self.options[k] = v
 
     if self.has_aux:
-      self.fun = lambda x, *args, **kwargs: self.fun(x, *args, **kwargs)[0]
+      fun_with_aux = self.fun
+      self.fun = lambda *a, **kw: fun_with_aux(*a, **kw)[0]
 
     # Handles PyTree inputs for `x_scale` arg.
     if self.options['x_scale'] != 'jac' and not isinstance(
-- 
2.43.0


From 859ef4fc22b00560076849b06c859237d8ab516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:28 +0000
Subject: [PATCH 09/51] fix: SciPy wrappers do not modify the user's options or
 the shared defaults

---
 jaxopt/_src/scipy_wrappers.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 3df895e..82e2eae 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -402,8 +402,7 @@ class ScipyMinimize(ScipyWrapper):
       self._grad_fun = jax.jit(self._grad_fun)
       self._value_and_grad_fun = jax.jit(self._value_and_grad_fun)
 
-    if self.options is None:
-      self.options = {}
+    self.options = dict(self.options or {})
     if 'maxiter' in self.options:
       raise ValueError("Cannot pass maxiter through options dictionary, use maxiter keyword argument instead.")
     self.options['maxiter'] = self.maxiter
@@ -705,12 +704,9 @@ class ScipyLeastSquares(ScipyWrapper):
   def __post_init__(self):
     super().__post_init__()
 
-    if self.options is None:
-      self.options = LS_DEFAULT_OPTIONS
-    else:
-      for k, v in LS_DEFAULT_OPTIONS.items():
-        if k not in self.options:
-          self.options[k] = v
+    # A fresh dictionary: neither the defaults nor the user's dictionary, which
+    # other solvers may share, are modified.
+    self.options = {**LS_DEFAULT_OPTIONS, **(self.options or {})}
 
     if self.has_aux:
       fun_with_aux = self.fun
-- 
2.43.0


From f4cdbab721cfd3374d7c888dbbfbe12156879eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:28 +0000
Subject: [PATCH 10/51] fix: ScipyLeastSquares huber loss is symmetric in the
 residual

---
 jaxopt/_src/scipy_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 82e2eae..3c26740 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -584,7 +584,7 @@ class ScipyRootFinding(ScipyWrapper):
 LS_RHO_FUNS = {
     'linear': lambda z: z ** 2,
     'soft_l1': lambda z: 2.0 * ((1 + z ** 2) ** 0.5 - 1),
-    'huber': lambda z: jnp.where(z <= 1, z ** 2, 2.0 * z - 1),
+    'huber': lambda z: jnp.where(jnp.abs(z) <= 1, z ** 2, 2.0 * jnp.abs(z) - 1),
     'cauchy': lambda z: jnp.log1p(z ** 2),
     'arctan': lambda z: jnp.arctan(z ** 2),
 }
-- 
2.43.0


From ed3bffba57f4dc716bbb60b55b8fa35ec596548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:49 +0000
Subject: [PATCH 11/51] fix: Broyden's inverse Jacobian product takes inner
 products over the whole tree

---
 jaxopt/_src/broyden.py | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/jaxopt/_src/broyden.py b/jaxopt/_src/broyden.py
index e975edf..0b00e1c 100644
--- a/jaxopt/_src/broyden.py
+++ b/jaxopt/_src/broyden.py
@@ -15,6 +15,7 @@
 """Limited-memory Broyden method"""
 
 from functools import partial
+import operator
 
 from typing import Any
 from typing import Callable
@@ -39,26 +40,13 @@ from jaxopt._src.tree_util import tree_single_dtype
 
 
 def matvec(d_history, c_history, x, indices):
-  # CD^T x
+  # CD^T x, where the inner products D^T x run over all the leaves
   # here j is the history dimension and i is the space dimension
-  dtx = jnp.einsum('j..., ... -> j', d_history[indices], x)
-  cdtx = jnp.einsum('j..., j -> ...', c_history[indices], dtx)
-  return cdtx
-
-def inv_jacobian_product_leaf(v: jnp.ndarray,
-                              d_history: jnp.ndarray,
-                              c_history: jnp.ndarray,
-                              gamma: float = 1.0,
-                              start: int= 0):
-  # the computation of the jacobian inverse for
-  # the Broyden method
-  # this is done using the notations of DEQ
-  history_size = len(d_history)
-
-  indices = (start + jnp.arange(history_size)) % history_size
-
-  v = gamma * v + matvec(d_history, c_history, v, indices)
-  return v
+  dtx = jax.tree_util.tree_reduce(operator.add, tree_map(
+      lambda d, leaf: jnp.einsum('j..., ... -> j', d[indices], leaf),
+      d_history, x))
+  return tree_map(
+      lambda c: jnp.einsum('j..., j -> ...', c[indices], dtx), c_history)
 
 
 def inv_jacobian_product(pytree: Any,
@@ -84,10 +72,15 @@ def inv_jacobian_product(pytree: Any,
       i.e., `gamma * I`.
     start: starting index in the circular buffer.
   """
-  fun = partial(inv_jacobian_product_leaf,
-                gamma=gamma,
-                start=start)
-  return tree_map(fun, pytree, d_history, c_history)
+  # the computation of the jacobian inverse for
+  # the Broyden method
+  # this is done using the notations of DEQ
+  history_size = len(jax.tree_util.tree_leaves(d_history)[0])
+
+  indices = (start + jnp.arange(history_size)) % history_size
+
+  return tree_map(lambda v, cdtv: gamma * v + cdtv,
+                  pytree, matvec(d_history, c_history, pytree, indices))
 
 def inv_jacobian_rproduct(pytree: Any,
                           d_history: Any,
-- 
2.43.0


From 6f2b11192b07fbc433cd54bb4655ed3e39301033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:39 +0000
Subject: [PATCH 12/51] fix: L-BFGS-B orders its history chronologically after
 wrapping around

---
 jaxopt/_src/lbfgsb.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jaxopt/_src/lbfgsb.py b/jaxopt/_src/lbfgsb.py
index 44f5cf0..ebd82fe 100644
--- a/jaxopt/_src/lbfgsb.py
+++ b/jaxopt/_src/lbfgsb.py
@@ -408,6 +408,13 @@ class LBFGSB(base.IterativeSolver):
     s_history_flat = _flatten_and_concat(state.s_history, batch_ndims=1)
     y_history_flat = _flatten_and_concat(state.y_history, batch_ndims=1)
 
+    # The compact representation needs the pairs in chronological order, so that
+    # once the circular buffers are full they have to be unrolled.
+    start = jnp.where(state.num_updates > self.history_size,
+                      state.num_updates % self.history_size, 0)
+    s_history_flat = jnp.roll(s_history_flat, -start, axis=0)
+    y_history_flat = jnp.roll(y_history_flat, -start, axis=0)
+
     # Construct the limited-memory BFGS matrix from [1], section 3.
     w_flat = jnp.transpose(
         jnp.concatenate([y_history_flat, state.theta * s_history_flat], axis=0))
-- 
2.43.0


From 0822c1ad145c02b26ee78fa9df67df640a2a0682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:38 +0000
Subject: [PATCH 13/51] fix: Hager-Zhang returns the step size of the returned
 parameters when the first bracket is accepted

---
 jaxopt/_src/hager_zhang_linesearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/hager_zhang_linesearch.py b/jaxopt/_src/hager_zhang_linesearch.py
index 6d03cd9..886534a 100644
--- a/jaxopt/_src/hager_zhang_linesearch.py
+++ b/jaxopt/_src/hager_zhang_linesearch.py
@@ -520,7 +520,7 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
 
     value_best_point = jnp.minimum(value_low, value_high)
 
-    new_stepsize = jnp.where(state.done, stepsize, best_point)
+    new_stepsize = best_point
     new_params = tree_add_scalar_mul(params, best_point, descent_direction)
     (new_value, new_aux), new_grad = self._value_and_grad_fun_with_aux(
         new_params, *fun_args, **fun_kwargs
-- 
2.43.0


From 33386151c89f32f95593f8e26fa68c72b99e5904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:39 +0000
Subject: [PATCH 14/51] fix: projection_l1_sphere lands on the sphere when the
 input has zeros

---
 jaxopt/_src/projection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/projection.py b/jaxopt/_src/projection.py
index 9154b68..8a8129d 100644
--- a/jaxopt/_src/projection.py
+++ b/jaxopt/_src/projection.py
@@ -222,7 +222,8 @@ def projection_l1_sphere(x: jnp.ndarray, value: float = 1.0) -> jnp.ndarray:
   Returns:
     output array, with the same shape as ``x``.
   """
-  return jnp.sign(x) * projection_simplex(jnp.abs(x), value)
+  sign = jnp.where(x < 0, -1, 1)
+  return sign * projection_simplex(jnp.abs(x), value)
 
 
 def projection_l1_ball(x: jnp.ndarray, max_value: float = 1.0) -> jnp.ndarray:
-- 
2.43.0


From c10e3fbca8bc1b81ba9d0cdd85d469eeb4edbf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:42 +0000
Subject: [PATCH 15/51] fix: solve_cholesky supports two-dimensional right-hand
 sides

---
 jaxopt/_src/linear_solve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jaxopt/_src/linear_solve.py b/jaxopt/_src/linear_solve.py
index 34b5d0d..ca56b33 100644
--- a/jaxopt/_src/linear_solve.py
+++ b/jaxopt/_src/linear_solve.py
@@ -95,6 +95,7 @@ def solve_cholesky(matvec: Callable,
   elif len(b.shape) == 1:
     return jsp.linalg.solve(A, b, assume_a='pos')
   elif len(b.shape) == 2:
+    A = A.reshape(-1, b.shape[0] * b.shape[1])  # 2d array (matrix)
     return  jsp.linalg.solve(A, b.ravel(), assume_a='pos').reshape(*b.shape)
   else:
     raise NotImplementedError
-- 
2.43.0


From ee224ef56dba7ebc39ecd0b23dd89300dbffca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:21 +0000
Subject: [PATCH 16/51] fix: IterativeRefinement starts from the residual of
 the initial parameters

---
 jaxopt/_src/iterative_refinement.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jaxopt/_src/iterative_refinement.py b/jaxopt/_src/iterative_refinement.py
index cb32bfb..8a1e404 100644
--- a/jaxopt/_src/iterative_refinement.py
+++ b/jaxopt/_src/iterative_refinement.py
@@ -65,7 +65,7 @@ class IterativeRefinement(base.IterativeSolver):
 
   This is a meta-algorithm for solving the linear system ``Ax = b`` based on
   a provided linear system solver. Our implementation is a slight generalization
-  of the standard algorithm.  It starts with :math:`(r_0, x_0) = (b, 0)` and
+  of the standard algorithm.  It starts with :math:`r_0 = b - A x_0` and
   iterates
 
   .. math::
@@ -127,9 +127,9 @@ class IterativeRefinement(base.IterativeSolver):
     return IterativeRefinementState(
       iter_num=jnp.asarray(0),
       error=jnp.asarray(jnp.inf),
-      target_residuals=b,
-      init=init_params,
-      num_matvec_eval=jnp.asarray(0, base.NUM_EVAL_DTYPE),
+      target_residuals=tree_sub(b, self.matvec_A(A)(init_params)),
+      init=self.init_params(A, b, A_bar),
+      num_matvec_eval=jnp.asarray(1, base.NUM_EVAL_DTYPE),
       num_matvec_bar_eval=jnp.asarray(0, base.NUM_EVAL_DTYPE),
       num_solve_eval=jnp.asarray(0, base.NUM_EVAL_DTYPE)
 )
-- 
2.43.0


From ba6dc668a83d67551a6f8a1a18b339e2ffe2ec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:34 +0000
Subject: [PATCH 17/51] fix: prox_elastic_net broadcasts scalar arrays and
 integers over pytrees, as floats

---
 jaxopt/_src/prox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/prox.py b/jaxopt/_src/prox.py
index 56ed0ec..9cc473c 100644
--- a/jaxopt/_src/prox.py
+++ b/jaxopt/_src/prox.py
@@ -126,9 +126,9 @@ def prox_elastic_net(x: Any,
     hyperparams = (1.0, 1.0)
 
   lam = tree_util.tree_map(lambda y: hyperparams[0]*jnp.ones_like(
-      y), x) if type(hyperparams[0]) == float else hyperparams[0]
+      y), x) if jnp.isscalar(hyperparams[0]) else hyperparams[0]
   gam = tree_util.tree_map(lambda y: hyperparams[1]*jnp.ones_like(
-      y), x) if type(hyperparams[1]) == float else hyperparams[1]
+      y), x) if jnp.isscalar(hyperparams[1]) else hyperparams[1]
 
   def prox_l1(u, lambd): return jnp.sign(u) * jax.nn.relu(jnp.abs(u) - lambd)
 
-- 
2.43.0


From 5b9242e23fc982df1345a0edee579bca00b62c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:34 +0000
Subject: [PATCH 18/51] fix: document the factor 1/2 in prox_ridge and
 prox_non_negative_ridge

---
 jaxopt/_src/prox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/prox.py b/jaxopt/_src/prox.py
index 9cc473c..1eb1e95 100644
--- a/jaxopt/_src/prox.py
+++ b/jaxopt/_src/prox.py
@@ -174,7 +174,7 @@ def prox_ridge(x: Any,
   .. math::
 
     \underset{y}{\text{argmin}} ~ \frac{1}{2} ||x - y||_2^2
-    + \text{scaling} \cdot \text{l2reg} \cdot ||y||_2^2
+    + \text{scaling} \cdot \frac{\text{l2reg}}{2} ||y||_2^2
 
   Args:
     x: input pytree.
@@ -199,7 +199,7 @@ def prox_non_negative_ridge(x: Any,
   .. math::
 
     \underset{y \ge 0}{\text{argmin}} ~ \frac{1}{2} ||x - y||_2^2
-    + \text{scaling} \cdot \text{l2reg} \cdot ||y||_2^2
+    + \text{scaling} \cdot \frac{\text{l2reg}}{2} ||y||_2^2
 
   Args:
     x: input pytree.
-- 
2.43.0


From 0ce7c901517048a64af3d974b12161df23b238b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:36 +0000
Subject: [PATCH 19/51] fix: multiclass_linear_svm_dual column-wise Lipschitz
 constants include 1/l2reg

---
 jaxopt/_src/objective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/objective.py b/jaxopt/_src/objective.py
index d7776b6..9576ff7 100644
--- a/jaxopt/_src/objective.py
+++ b/jaxopt/_src/objective.py
@@ -327,7 +327,7 @@ class MulticlassLinearSvmDual(CompositeLinearFunction):
   def columnwise_lipschitz_const(self, l2reg, data):
     """Column-wise Lipschitz constants."""
     linop = self.make_linop(l2reg, data)
-    return linop.column_l2_norms(squared=True)
+    return linop.column_l2_norms(squared=True) / l2reg
 
   def b(self, l2reg, data):
     return data[1] - 1
-- 
2.43.0


From b6cd29b48357cf7b9a6bf92a8670077043dc9cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:48 +0000
Subject: [PATCH 20/51] fix: Bisection works with has_aux=True

---
 jaxopt/_src/bisection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/bisection.py b/jaxopt/_src/bisection.py
index 97f259c..bebb5aa 100644
--- a/jaxopt/_src/bisection.py
+++ b/jaxopt/_src/bisection.py
@@ -172,7 +172,10 @@ class Bisection(base.IterativeSolver):
     super().__post_init__()
 
     if self.has_aux:
-      self._fun_with_aux = self.optimality_fun
+      fun_with_aux = self.optimality_fun
+      self._fun_with_aux = fun_with_aux
+      # init_state and implicit differentiation need the value only.
+      self.optimality_fun = lambda *a, **kw: fun_with_aux(*a, **kw)[0]
     else:
       self._fun_with_aux = lambda *a, **kw: (self.optimality_fun(*a, **kw),
                                              None)
-- 
2.43.0


From 048ae3e48c069758be657d6a70bff1323709ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:17 +0000
Subject: [PATCH 21/51] fix: Hager-Zhang bracketing stops when the expansion
 overflows

---
 jaxopt/_src/hager_zhang_linesearch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/hager_zhang_linesearch.py b/jaxopt/_src/hager_zhang_linesearch.py
index 886534a..21f4a76 100644
--- a/jaxopt/_src/hager_zhang_linesearch.py
+++ b/jaxopt/_src/hager_zhang_linesearch.py
@@ -311,8 +311,10 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
       new_num_fun_grad_calls += 1
       num_fun_grad_calls += new_num_fun_grad_calls
 
-      # Terminate on encountering NaNs to avoid an infinite loop.
+      # Terminate on encountering NaNs to avoid an infinite loop, and likewise
+      # when the expansion overflows (function unbounded below on the line).
       failed = failed  | _failed_nan(new_value_middle, new_grad_middle)
+      failed = failed | jnp.isinf(new_middle)
       return (done,
               failed,
               new_low,
-- 
2.43.0


From 92b3bd44ecda1d04dae2662d73fba3bea2591ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:06 +0000
Subject: [PATCH 22/51] fix: Hager-Zhang does not end undecided on nan values
 at an interval end

---
 jaxopt/_src/hager_zhang_linesearch.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/jaxopt/_src/hager_zhang_linesearch.py b/jaxopt/_src/hager_zhang_linesearch.py
index 21f4a76..7ce5c91 100644
--- a/jaxopt/_src/hager_zhang_linesearch.py
+++ b/jaxopt/_src/hager_zhang_linesearch.py
@@ -148,7 +148,9 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
         (value_c - approx_wolfe_threshold_value))
     # We succeed if we either satisfy the Wolfe conditions or the approximate
     # Wolfe conditions.
-    return jax.lax.min(wolfe_error, approx_wolfe_error)
+    error = jax.lax.min(wolfe_error, approx_wolfe_error)
+    # A nan error would stop the search without reporting a failure.
+    return jnp.where(jnp.isnan(error), jnp.inf, error)
 
   def _update(
       self, x, low, high, middle, approx_wolfe_threshold_value,
@@ -412,9 +414,10 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
     num_fun_eval += 2
     num_grad_eval +=  2
 
-    best_point = jnp.where(value_low < value_high, low, high)
-    gd_vdot_best_point = jnp.where(value_low < value_high, grad_low, grad_high)
-    value_best_point = jnp.minimum(value_low, value_high)
+    low_is_best = (value_low < value_high) | jnp.isnan(value_high)
+    best_point = jnp.where(low_is_best, low, high)
+    gd_vdot_best_point = jnp.where(low_is_best, grad_low, grad_high)
+    value_best_point = jnp.where(low_is_best, value_low, value_high)
 
     error = self._satisfies_wolfe_and_approx_wolfe(
         best_point,
@@ -517,10 +520,10 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
     new_num_fun_eval += 2
     new_num_grad_eval += 2
 
-    best_point = jnp.where(value_low < value_high, new_low, new_high)
-    gd_vdot_best_point = jnp.where(value_low < value_high, grad_low, grad_high)
-
-    value_best_point = jnp.minimum(value_low, value_high)
+    low_is_best = (value_low < value_high) | jnp.isnan(value_high)
+    best_point = jnp.where(low_is_best, new_low, new_high)
+    gd_vdot_best_point = jnp.where(low_is_best, grad_low, grad_high)
+    value_best_point = jnp.where(low_is_best, value_low, value_high)
 
     new_stepsize = best_point
     new_params = tree_add_scalar_mul(params, best_point, descent_direction)
@@ -540,7 +543,7 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
                           approx_wolfe_threshold_value,
                           descent_direction))
     done = state.done | (error <= self.tol)
-    failed = failed | ((state.iter_num + 1 == self.maxiter) & ~done)
+    failed = (failed | (state.iter_num + 1 == self.maxiter)) & ~done
 
     new_state = HagerZhangLineSearchState(
         iter_num=state.iter_num + 1,
-- 
2.43.0


From ee12a1bda6ed1507c50fdae4728153477c969cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:01 +0000
Subject: [PATCH 23/51] fix: Levenberg-Marquardt with geodesic acceleration
 never accepts an increase of the loss

---
 jaxopt/_src/levenberg_marquardt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 53b2154..b14e6cf 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -326,6 +326,10 @@ class LevenbergMarquardt(base.IterativeSolver):
 
     gain_ratio = (loss_curr - loss_next) / gain_ratio_denom
 
+    # With geodesic acceleration the predicted decrease can be negative, in which
+    # case a positive ratio would mean that the loss increased.
+    gain_ratio = jnp.where(loss_next < loss_curr, gain_ratio, 0.0)
+
     gain_ratio_test_init_state = (params, damping_factor, increase_factor,
                                   residual, gradient, jac, jt, jtj, hess_res,
                                   updated_params, aux)
-- 
2.43.0


From 714c4ea10575cc5453f1e6faefc0dbeaf7b093a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:53 +0000
Subject: [PATCH 24/51] fix: BoxCDQP moves coordinates without curvature to the
 minimising bound

---
 jaxopt/_src/cd_qp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/cd_qp.py b/jaxopt/_src/cd_qp.py
index e159879..ab61697 100644
--- a/jaxopt/_src/cd_qp.py
+++ b/jaxopt/_src/cd_qp.py
@@ -40,8 +40,11 @@ def fori_loop_body_fun(i, tup):
   g_i = jnp.dot(Q[i], x) + c[i]
   # i-th diagonal element of the Hessian
   h_i = Q[i, i]
-  # Newton-update and avoid division by zero
-  update = jnp.where(h_i == 0, 0, g_i / h_i)
+  # Newton-update and avoid division by zero: without curvature, the objective
+  # is linear in x[i] and the minimum is attained at a bound (if g_i != 0).
+  h_i_safe = jnp.where(h_i == 0, 1, h_i)
+  linear_update = jnp.where(g_i == 0, 0, jnp.sign(g_i) * jnp.inf)
+  update = jnp.where(h_i == 0, linear_update, g_i / h_i_safe)
   # Newton-update + clipping to satisfy the box constraint
   x_i_new = jnp.clip(x[i] - update, l[i], u[i])
   delta_i = x_i_new - x[i]
-- 
2.43.0


From bcc40b67886fb0b61136c5044f2a5ecf14aa869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 25/51] fix: proximal gradient initial aux is the auxiliary
 output when value_and_grad=True

---
 jaxopt/_src/proximal_gradient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/proximal_gradient.py b/jaxopt/_src/proximal_gradient.py
index 85e5379..63a1794 100644
--- a/jaxopt/_src/proximal_gradient.py
+++ b/jaxopt/_src/proximal_gradient.py
@@ -179,7 +179,7 @@ class ProximalGradient(base.IterativeSolver):
     del hyperparams_prox  # Not used.
 
     if self.has_aux:
-      _, aux = self.fun(init_params, *args, **kwargs)
+      _, aux = self._fun_with_aux(init_params, *args, **kwargs)
     else:
       aux = None
 
@@ -330,11 +330,11 @@ class ProximalGradient(base.IterativeSolver):
   def __post_init__(self):
     super().__post_init__()
 
-    fun_with_aux, _, self._value_and_grad_with_aux = \
+    self._fun_with_aux, _, self._value_and_grad_with_aux = \
       base._make_funs_with_aux(fun=self.fun,
                                value_and_grad=self.value_and_grad,
                                has_aux=self.has_aux)
-    fun_without_aux = lambda *a, **kw: fun_with_aux(*a, **kw)[0]
+    fun_without_aux = lambda *a, **kw: self._fun_with_aux(*a, **kw)[0]
 
     # Sets up reference signature.
     fun = getattr(self.fun, "subfun", self.fun)
-- 
2.43.0


From 1dc21b732e55d1a1fe76c7442929f1226a0dc8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 26/51] fix: Hager-Zhang runs on float32 parameters when x64 is
 enabled

---
 jaxopt/_src/hager_zhang_linesearch.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/jaxopt/_src/hager_zhang_linesearch.py b/jaxopt/_src/hager_zhang_linesearch.py
index 7ce5c91..a9b22e5 100644
--- a/jaxopt/_src/hager_zhang_linesearch.py
+++ b/jaxopt/_src/hager_zhang_linesearch.py
@@ -130,25 +130,25 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
     # Armijo condition
     # armijo = value_c <= value_initial + self.c1 * c * gd_vdot
     armijo = value_c - (value_initial + self.c1 * c * gd_vdot)
-    armijo_error = jax.lax.max(armijo, 0.)
+    armijo_error = jnp.maximum(armijo, 0.)
     # Curvature condition
     # curvature = gd_vdot_c >= self.c2 * gd_vdot
     curvature = self.c2 * gd_vdot - gd_vdot_c
-    wolfe_error = jax.lax.max(armijo_error, curvature)
+    wolfe_error = jnp.maximum(armijo_error, curvature)
 
     # Approximate Wolfe
     # approx_wolfe = (2 * self.c1 - 1.) * gd_vdot >= gd_vdot_c
     approx_wolfe = gd_vdot_c - (2 * self.c1 - 1.) * gd_vdot
-    approx_wolfe_error = jax.lax.max(approx_wolfe, 0.)
-    approx_wolfe_error = jax.lax.max(approx_wolfe_error, curvature)
+    approx_wolfe_error = jnp.maximum(approx_wolfe, 0.)
+    approx_wolfe_error = jnp.maximum(approx_wolfe_error, curvature)
     # Finally only enable the approximate wolfe conditions when we are close in
     # value.
-    approx_wolfe_error = jax.lax.max(
+    approx_wolfe_error = jnp.maximum(
         approx_wolfe_error,
         (value_c - approx_wolfe_threshold_value))
     # We succeed if we either satisfy the Wolfe conditions or the approximate
     # Wolfe conditions.
-    error = jax.lax.min(wolfe_error, approx_wolfe_error)
+    error = jnp.minimum(wolfe_error, approx_wolfe_error)
     # A nan error would stop the search without reporting a failure.
     return jnp.where(jnp.isnan(error), jnp.inf, error)
 
@@ -342,12 +342,12 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
         body_fn,
         (done,
          failed,
-         jnp.array(0.),
+         jnp.zeros_like(c),
          c,
          c,
          value_c,
          grad_c,
-         jnp.array(0.),
+         jnp.zeros_like(c),
          0))
     num_fun_grad_calls += new_num_fun_grad_calls
     return failed, final_low, final_high, num_fun_grad_calls
-- 
2.43.0


From 27a2e436992f2b0695dde37f798a160ae6b5801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 27/51] fix: Anderson acceleration runs on float32 parameters
 when x64 is enabled

---
 jaxopt/_src/anderson.py         | 15 +++++++++------
 jaxopt/_src/anderson_wrapper.py |  4 +++-
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/jaxopt/_src/anderson.py b/jaxopt/_src/anderson.py
index ef153bb..70e2b5f 100644
--- a/jaxopt/_src/anderson.py
+++ b/jaxopt/_src/anderson.py
@@ -30,15 +30,17 @@ from jaxopt._src.tree_util import tree_sub
 from jaxopt._src.tree_util import tree_vdot
 from jaxopt._src.tree_util import tree_average, tree_add_scalar_mul
 from jaxopt._src.tree_util import tree_map
+from jaxopt._src.tree_util import get_real_dtype, tree_single_dtype
 
 
 def minimize_residuals(residual_gram, ridge):
   """Return the solution to the linear system with slack variable."""
   m = residual_gram.shape[0]
-  residual_gram = residual_gram + ridge * jnp.eye(m) # avoid ill-posed systems
-  H = jnp.block([[jnp.zeros((1, 1)), jnp.ones((1, m))],
-                  [ jnp.ones((m, 1)), residual_gram  ]])
-  c = jnp.zeros((m+1)).at[0].set(1)
+  dtype = residual_gram.dtype
+  residual_gram = residual_gram + ridge * jnp.eye(m, dtype=dtype) # avoid ill-posed systems
+  H = jnp.block([[jnp.zeros((1, 1), dtype), jnp.ones((1, m), dtype)],
+                  [ jnp.ones((m, 1), dtype), residual_gram  ]])
+  c = jnp.zeros((m+1), dtype).at[0].set(1)
   alphas = jnp.linalg.solve(H, c)
   return alphas
 
@@ -175,12 +177,13 @@ class AndersonAcceleration(base.IterativeSolver):
     params_history = tree_map(lambda x: jnp.tile(x, [m]+[1]*x.ndim),
                               init_params)
     residuals_history = tree_map(jnp.zeros_like, params_history)
-    residual_gram = jnp.zeros((m,m))
+    realdtype = get_real_dtype(tree_single_dtype(init_params))
+    residual_gram = jnp.zeros((m,m), dtype=realdtype)
 
     _, aux = self._value_with_aux(init_params, *args, **kwargs)
 
     return AndersonState(iter_num=jnp.asarray(0),
-                         error=jnp.asarray(jnp.inf),
+                         error=jnp.asarray(jnp.inf, dtype=realdtype),
                          params_history=params_history,
                          residuals_history=residuals_history,
                          residual_gram=residual_gram,
diff --git a/jaxopt/_src/anderson_wrapper.py b/jaxopt/_src/anderson_wrapper.py
index 8f3dbe4..80d7d28 100644
--- a/jaxopt/_src/anderson_wrapper.py
+++ b/jaxopt/_src/anderson_wrapper.py
@@ -27,6 +27,7 @@ import jax.numpy as jnp
 
 from jaxopt._src import base
 from jaxopt._src.tree_util import tree_sub, tree_map
+from jaxopt._src.tree_util import get_real_dtype, tree_single_dtype
 from jaxopt._src.anderson import anderson_step, update_history
 
 
@@ -91,7 +92,8 @@ class AndersonWrapper(base.IterativeSolver):
     params_history = tree_map(lambda x: jnp.tile(x, [m]+[1]*x.ndim),
                               init_params)
     residuals_history = tree_map(jnp.zeros_like, params_history)
-    residual_gram = jnp.zeros((m,m))
+    realdtype = get_real_dtype(tree_single_dtype(init_params))
+    residual_gram = jnp.zeros((m,m), dtype=realdtype)
     return AndersonWrapperState(iter_num=jnp.asarray(0),
                                 solver_state=solver_state,
                                 error=solver_state.error,
-- 
2.43.0


From 6e789d5b399d7fa0bcd7567d6bffcf12c7f2c583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 28/51] fix: AndersonWrapper accepts solvers without a
 reference signature

---
 jaxopt/_src/anderson_wrapper.py   | 3 ++-
 jaxopt/_src/projected_gradient.py | 9 +++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/anderson_wrapper.py b/jaxopt/_src/anderson_wrapper.py
index 80d7d28..b162466 100644
--- a/jaxopt/_src/anderson_wrapper.py
+++ b/jaxopt/_src/anderson_wrapper.py
@@ -180,4 +180,5 @@ class AndersonWrapper(base.IterativeSolver):
     if self.mixing_frequency is None:
       self.mixing_frequency = self.history_size
 
-    self.reference_signature = self.solver.reference_signature
+    self.reference_signature = getattr(self.solver, "reference_signature",
+                                       self.solver.optimality_fun)
diff --git a/jaxopt/_src/projected_gradient.py b/jaxopt/_src/projected_gradient.py
index 291e01d..b3d0269 100644
--- a/jaxopt/_src/projected_gradient.py
+++ b/jaxopt/_src/projected_gradient.py
@@ -14,6 +14,8 @@
 
 """Implementation of projected gradient descent in JAX."""
 
+import inspect
+
 from typing import Any
 from typing import Callable
 from typing import NamedTuple
@@ -160,3 +162,10 @@ class ProjectedGradient(base.IterativeSolver):
                                 implicit_diff_solve=self.implicit_diff_solve,
                                 jit=self.jit,
                                 unroll=self.unroll)
+
+    # The signature of fun, with hyperparams_proj in second position.
+    parameters = [
+        param.replace(name="hyperparams_proj")
+        if param.name == "hyperparams_prox" else param
+        for param in self._pg.reference_signature.parameters.values()]
+    self.reference_signature = inspect.Signature(parameters)
-- 
2.43.0


From a52c8c8d09515daf6ee67c7247698b3831ff9743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 29/51] fix: the Levenberg-Marquardt state keeps its types over
 updates

---
 jaxopt/_src/levenberg_marquardt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index b14e6cf..43d1ab6 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -220,7 +220,7 @@ class LevenbergMarquardt(base.IterativeSolver):
     return LevenbergMarquardtState(
         iter_num=jnp.asarray(0),
         damping_factor=damping_factor,
-        increase_factor=2,
+        increase_factor=jnp.asarray(2, dtype=float),
         error=tree_l2_norm(gradient),
         residual=residual,
         value=0.5 * jnp.sum(jnp.square(residual)),
-- 
2.43.0


From 8fc9d31c3289d227c4f9c3c59e23f172a328d381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:03 +0000
Subject: [PATCH 30/51] fix: L-BFGS-B stays in its box when the line search
 takes steps longer than one

---
 jaxopt/_src/lbfgsb.py | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/jaxopt/_src/lbfgsb.py b/jaxopt/_src/lbfgsb.py
index ebd82fe..b3f6b34 100644
--- a/jaxopt/_src/lbfgsb.py
+++ b/jaxopt/_src/lbfgsb.py
@@ -30,6 +30,7 @@ from jax import numpy as jnp
 
 from jaxopt._src import base
 from jaxopt._src import projection
+from jaxopt._src.cond import cond
 from jaxopt._src.lbfgs import init_history
 from jaxopt._src.lbfgs import update_history
 from jaxopt._src.linesearch_util import _init_stepsize
@@ -55,6 +56,14 @@ def _flatten_and_concat(tree: Any, batch_ndims: int = 0):
   )
 
 
+def _max_feasible_stepsize(x, direction, lower, upper):
+  """Largest stepsize, at least 1, such that x + stepsize * direction is in the box."""
+  bound = jnp.where(direction > 0, upper, lower)
+  moves = direction != 0
+  steps = (bound - x) / jnp.where(moves, direction, 1)
+  return jnp.maximum(jnp.min(jnp.where(moves, steps, jnp.inf)), 1)
+
+
 def _split_and_pack_like(x: jnp.ndarray, tree: Any):
   """Splits an array and packs the components like the provided pytree."""
   treedef = jax.tree_util.tree_structure(tree)
@@ -498,6 +507,29 @@ class LBFGSB(base.IterativeSolver):
       new_num_linesearch_iter = state.num_linesearch_iter + ls_state.iter_num
       new_num_grad_eval = state.num_grad_eval + ls_state.num_grad_eval
       new_num_fun_eval = state.num_fun_eval + ls_state.num_fun_eval
+
+      if self._linesearch_may_leave_box:
+        # A unit step stays in the box, a longer one has to be shortened.
+        max_step = _max_feasible_stepsize(
+            x_flat, x_subspace_min - x_flat, lower_flat, upper_flat)
+        too_long = new_stepsize > max_step
+        new_stepsize = jnp.where(too_long, max_step, new_stepsize)
+
+        def shorten(_):
+          shortened = tree_add_scalar_mul(params, new_stepsize,
+                                          descent_direction)
+          shortened = tree_map(jnp.clip, shortened, lower, upper)
+          (value, aux), grad = self._value_and_grad_with_aux(
+              shortened, *args, **kwargs)
+          return shortened, value, grad, aux
+
+        def keep(_):
+          return new_params, new_value, new_grad, new_aux
+
+        new_params, new_value, new_grad, new_aux = cond(
+            too_long, shorten, keep, None, jit=self.jit)
+        new_num_grad_eval = new_num_grad_eval + too_long
+        new_num_fun_eval = new_num_fun_eval + too_long
     else:
       if isinstance(self.stepsize, Callable):
         new_stepsize = self.stepsize(state.iter_num)
@@ -629,6 +661,9 @@ class LBFGSB(base.IterativeSolver):
     )
 
     self.run_ls = linesearch_solver.run
+    self._linesearch_may_leave_box = (
+        self.linesearch not in ("backtracking", "zoom")
+        or self.max_stepsize > 1)
 
     if self.condition is not None:
       warnings.warn("Argument condition is deprecated", DeprecationWarning)
-- 
2.43.0


From 0a9ced8337a106708b9abf4e1acb659daab3d5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:50 +0000
Subject: [PATCH 31/51] fix: PolyakSGD keeps the parameters where the gradient
 is zero

---
 jaxopt/_src/polyak_sgd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/polyak_sgd.py b/jaxopt/_src/polyak_sgd.py
index 22ed6c3..5ebd93e 100644
--- a/jaxopt/_src/polyak_sgd.py
+++ b/jaxopt/_src/polyak_sgd.py
@@ -213,8 +213,11 @@ class PolyakSGD(base.StochasticSolver):
 
     grad_sqnorm = tree_l2_norm(grad, squared=True)
     if self.variant == "SPS_max":
-      stepsize = jnp.minimum(
-          (value - self.fun_min) / (grad_sqnorm + self.delta), self.max_stepsize
+      stepsize = jnp.where(
+          grad_sqnorm == 0,
+          0.0,
+          jnp.minimum((value - self.fun_min) / (grad_sqnorm + self.delta),
+                      self.max_stepsize),
       )
     elif self.variant == "SPS+":
       # if grad_sqnorm is smaller than machine epsilon, we set the stepsize to 0
-- 
2.43.0


From 205ec4606de53b200566e803398e94a4e449f0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:50 +0000
Subject: [PATCH 32/51] fix: ArmijoSGD does not accept step sizes that lead to
 NaN

---
 jaxopt/_src/armijo_sgd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/armijo_sgd.py b/jaxopt/_src/armijo_sgd.py
index c9b79b9..1127bf0 100644
--- a/jaxopt/_src/armijo_sgd.py
+++ b/jaxopt/_src/armijo_sgd.py
@@ -38,7 +38,8 @@ from jaxopt._src import loop
 
 def wolfe_cond_violated(stepsize, coef, f_cur, f_next, grad_sqnorm):
   eps = jnp.finfo(f_next.dtype).eps
-  return stepsize * coef * grad_sqnorm > f_cur - f_next + eps
+  # Written as a negation so that a NaN f_next violates the condition.
+  return ~(stepsize * coef * grad_sqnorm <= f_cur - f_next + eps)
 
 
 def curvature_cond_violated(stepsize, coef, f_cur, f_next, grad_sqnorm):
-- 
2.43.0


From d21e3c4ee97252285b3eafb9f5694f8b326d5bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:50 +0000
Subject: [PATCH 33/51] fix: OSQP infeasibility certificates are strict

---
 jaxopt/_src/osqp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index 83cb920..89fb9fa 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -545,6 +545,7 @@ class BoxOSQP(base.IterativeSolver):
     criterion  = self.dual_infeasible_tol * tree_inf_norm(delta_x)
 
     certif_Q   = tree_inf_norm(Q(delta_x))
+    # Must be negative: a null delta_x certifies nothing.
     certif_c   = tree_vdot(c, delta_x)
 
     unbounded_l = tree_map(lambda li: li == -jnp.inf, l)
@@ -553,7 +554,8 @@ class BoxOSQP(base.IterativeSolver):
     certif_u   = tree_map(lambda adxi,ui: jnp.all(adxi <= ui), Adx, tree_where(unbounded_u, jnp.inf, criterion))
     certif_A   = tree_reduce(jnp.logical_and, tree_map(jnp.logical_and, certif_l, certif_u))
 
-    certif_dual_infeasible = jnp.logical_and(jnp.logical_and(certif_Q <= criterion, certif_c <= criterion), certif_A)
+    certif_dual_infeasible = jnp.logical_and(
+      jnp.logical_and(certif_Q <= criterion, certif_c < -criterion), certif_A)
 
     if int(self.verbose) >= 2:
       jax.debug.print("certif_Q: {certif_Q} certif_c: {certif_c} certif_A: {certif_A} "
@@ -574,8 +576,9 @@ class BoxOSQP(base.IterativeSolver):
     bounded_u = tree_where(tree_map(lambda ui: ui == jnp.inf, u), 0., u)
     dy_plus   = tree_map(jax.nn.relu, delta_y)
     dy_minus  = tree_negative(tree_map(jax.nn.relu, tree_negative(delta_y)))
+    # Must be negative: a null delta_y (e.g. inactive constraints) certifies nothing.
     certif_lu = tree_add(tree_vdot(bounded_l, dy_minus), tree_vdot(bounded_u, dy_plus))
-    certif_primal_infeasible = jnp.logical_and(certif_A  <= criterion, certif_lu  <= criterion)
+    certif_primal_infeasible = jnp.logical_and(certif_A <= criterion, certif_lu < -criterion)
 
     if int(self.verbose) >= 2:
       jax.debug.print("certif_A: {certif_A}, certif_lu: {certif_lu}, criterion: {criterion}",
-- 
2.43.0


From 33be08494e9c1e8f4f694ed3b962f39eb24cd50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:50 +0000
Subject: [PATCH 34/51] fix: Jacobi preconditioning of OSQP on pytrees of
 matrices

---
 jaxopt/_src/osqp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index 89fb9fa..44eb5ac 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -217,7 +217,7 @@ class OSQPIndirectSolver:
     _, (_, _, sigma, rho_bar), (precond_Q, precond_A) = solver_state
 
     diag_precond = tree_add_scalar_mul(precond_Q, rho_bar, precond_A)
-    diag_precond = tree_add(diag_precond, sigma)
+    diag_precond = tree_map(lambda m_diag: m_diag + sigma, diag_precond)
     inv_diag = tree_map(lambda m_diag: 1/m_diag, diag_precond)
     return tree_mul(inv_diag, x)
 
-- 
2.43.0


From 4fad7c2e7c3aa3e8c5157f7579d7bcb1e1bc937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:28 +0000
Subject: [PATCH 35/51] fix: OSQP step size update divides by zero norms

---
 jaxopt/_src/osqp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index 44eb5ac..3369464 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -517,10 +517,11 @@ class BoxOSQP(base.IterativeSolver):
   def _update_stepsize(self, rho_bar, solver_state, primal_residuals, dual_residuals, Q, c, A, x, y):
     """Update stepsize based on the ratio between primal and dual residuals."""
     Ax, ATy     = A.matvec_and_rmatvec(x, y)
-    primal_coef = tree_inf_norm(primal_residuals) / tree_inf_norm(Ax)
+    # The norms can be zero: guard all divisions.
+    eps_div     = jnp.finfo(tree_inf_norm(dual_residuals).dtype).eps
+    primal_coef = tree_inf_norm(primal_residuals) / (tree_inf_norm(Ax) + eps_div)
     max_inf     = jnp.maximum(tree_inf_norm(Q(x)), jnp.maximum(tree_inf_norm(ATy), tree_inf_norm(c)))
-    dual_coef   = tree_inf_norm(dual_residuals) / max_inf
-    eps_div     = jnp.finfo(dual_coef.dtype).eps
+    dual_coef   = tree_inf_norm(dual_residuals) / (max_inf + eps_div)
     coef        = jnp.sqrt(primal_coef / (dual_coef + eps_div))
     rho_bar     = jnp.clip(rho_bar * coef, self.rho_min, self.rho_max)
     solver_state = self._eq_qp_solve_impl.update_stepsize(solver_state, rho_bar)
-- 
2.43.0


From 4c2047fc1723f8d3a48b57da4ea20cedb8790ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:25 +0000
Subject: [PATCH 36/51] fix: OSQP certificates of primal infeasibility do not
 use infinite bounds

---
 jaxopt/_src/osqp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index 3369464..6893445 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -594,6 +594,9 @@ class BoxOSQP(base.IterativeSolver):
   def _check_infeasability(self, prev_sol, sol, error, status, Q, c, A, l, u):
     delta_x = tree_sub(sol.primal[0], prev_sol.primal[0])
     delta_y = tree_sub(sol.dual_eq, prev_sol.dual_eq)
+    # A certificate cannot use infinite bounds.
+    delta_y = tree_map(lambda dyi, ui: jnp.where(ui == jnp.inf, jnp.minimum(dyi, 0), dyi), delta_y, u)
+    delta_y = tree_map(lambda dyi, li: jnp.where(li == -jnp.inf, jnp.maximum(dyi, 0), dyi), delta_y, l)
     Adx, ATdy = A.matvec_and_rmatvec(delta_x, delta_y)
 
     error, status = self._check_dual_infeasability(error, status, delta_x, Q, c, Adx, l, u)
-- 
2.43.0


From adcfb39d2d32c59968303cd2da24817038ed358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:47 +0000
Subject: [PATCH 37/51] fix: EqualityConstrainedQP with fun accepts pytrees

---
 jaxopt/_src/eq_qp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/eq_qp.py b/jaxopt/_src/eq_qp.py
index 0e97a3a..8f0a5ae 100644
--- a/jaxopt/_src/eq_qp.py
+++ b/jaxopt/_src/eq_qp.py
@@ -292,7 +292,7 @@ class EqualityConstrainedQP(base.Solver):
         # nabla_x f(x) = Q x + c
         # Qx = nabla_x f(x) - c
         def fun_minus_cx(xx):
-          return self.fun(xx, params_Q) - jnp.sum(c*xx)
+          return self.fun(xx, params_Q) - tree_vdot(c, xx)
         Qx = jax.grad(fun_minus_cx)(x)
         return Qx
       self.matvec_Q = matvec_Q
-- 
2.43.0


From 36777c6f9c0e0cb7e41a0303e7d28c4e9df4e909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:35 +0000
Subject: [PATCH 38/51] fix: ScipyMinimize works with COBYLA, which reports no
 iteration count

---
 jaxopt/_src/scipy_wrappers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 3c26740..1474f2f 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -368,7 +368,8 @@ class ScipyMinimize(ScipyWrapper):
     info = ScipyMinimizeInfo(fun_val=jnp.asarray(res.fun),
                              success=res.success,
                              status=res.status,
-                             iter_num=res.nit,
+                             # Some methods (COBYLA) do not report it.
+                             iter_num=getattr(res, 'nit', None),
                              hess_inv=hess_inv,
                              num_fun_eval=nev_dict['nfev'],
                              num_jac_eval=nev_dict['njev'],
-- 
2.43.0


From a2916311b8fb005633ae2b821a3a72e66d193009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:55 +0000
Subject: [PATCH 39/51] fix: ScipyRootFinding works with df-sane

---
 jaxopt/_src/scipy_wrappers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 1474f2f..e8e91d9 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -518,12 +518,17 @@ class ScipyRootFinding(ScipyWrapper):
                                          pytree_topology,
                                          self.dtype)
 
+    # Scipy does not accept functions that also return the Jacobian for df-sane.
+    use_jac = self.method is None or self.method.lower() != 'df-sane'
+
     def scipy_fun(x_onp: onp.ndarray, scipy_args: Any) -> Tuple[onp.ndarray, onp.ndarray]:
       # scipy_args is unused but must appear in the signature since
       # the `args` argument passed to osp.optimize.root is not None.
       del scipy_args  # unused
       x_jnp = onp_to_jnp(x_onp)
       value_jnp = self.optimality_fun(x_jnp, *args, **kwargs)
+      if not use_jac:
+        return jnp_to_onp(value_jnp, self.dtype)
       jacs_jnp = self._jac_fun(x_jnp, *args, **kwargs)
       return jnp_to_onp(value_jnp, self.dtype), jac_jnp_to_onp(jacs_jnp)
 
@@ -532,7 +537,7 @@ class ScipyRootFinding(ScipyWrapper):
     # See the related issue: https://github.com/google/jaxopt/issues/290
     res = osp.optimize.root(scipy_fun, jnp_to_onp(init_params, self.dtype),
                             args=(None,),
-                            jac=True,
+                            jac=use_jac,
                             tol=self.tol,
                             method=self.method,
                             options=self.options)
@@ -555,7 +560,7 @@ class ScipyRootFinding(ScipyWrapper):
 
     info = ScipyRootInfo(fun_val=jnp.asarray(res.fun),
                          success=res.success,
-                         status=res.status,
+                         status=getattr(res, 'status', None),
                          iter_num=iter_num,
                          num_fun_eval=num_fun_eval)
     return base.OptStep(params, info)
-- 
2.43.0


From f49821517ff72179ca434abb5e92335c6dedaa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:55 +0000
Subject: [PATCH 40/51] fix: ScipyRootFinding and ScipyLeastSquares work with
 their default method

---
 jaxopt/_src/scipy_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index e8e91d9..61130ca 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -539,7 +539,7 @@ class ScipyRootFinding(ScipyWrapper):
                             args=(None,),
                             jac=use_jac,
                             tol=self.tol,
-                            method=self.method,
+                            method=self.method or 'hybr',
                             options=self.options)
 
     params = tree_util.tree_map(jnp.asarray, onp_to_jnp(res.x))
@@ -678,7 +678,7 @@ class ScipyLeastSquares(ScipyWrapper):
                                      jnp_to_onp(init_params, self.dtype),
                                      jac=scipy_jac,
                                      bounds=bounds,
-                                     method=self.method,
+                                     method=self.method or 'trf',
                                      loss=self.loss,
                                      **self.options)
 
-- 
2.43.0


From f5a5040f830f25026ad3ba047a0290629b2e40ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:55 +0000
Subject: [PATCH 41/51] fix: bounded SciPy wrappers are differentiable without
 bounds

---
 jaxopt/_src/scipy_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 61130ca..1eba2ec 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -432,6 +432,8 @@ class ScipyBoundedMinimize(ScipyMinimize):
 
   def _fixed_point_fun(self, sol, bounds, args, kwargs):
     step = tree_sub(sol, self._grad_fun(sol, *args, **kwargs))
+    if bounds is None:
+      return step
     return projection.projection_box(step, bounds)
 
   def optimality_fun(self, sol, bounds, *args, **kwargs):
@@ -767,6 +769,8 @@ class ScipyBoundedLeastSquares(ScipyLeastSquares):
 
   def _fixed_point_fun(self, sol, bounds, args, kwargs):
     step = tree_sub(sol, self._grad_cost_fun(sol, *args, **kwargs))
+    if bounds is None:
+      return step
     return projection.projection_box(step, bounds)
 
   def optimality_fun(self, sol, bounds, *args, **kwargs):
-- 
2.43.0


From 32f1a246751dccd21776907a595fd0cd14d137df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:55 +0000
Subject: [PATCH 42/51] fix: ScipyLeastSquares is differentiable when the
 residuals are a pytree

---
 jaxopt/_src/scipy_wrappers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 1eba2ec..84bc32c 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -640,7 +640,9 @@ class ScipyLeastSquares(ScipyWrapper):
   use_jacrev: bool = True
 
   def _cost_fun(self, params, *args, **kwargs):
-    residuals = self.fun(params, *args, **kwargs)
+    residuals = jnp.concatenate([
+        jnp.ravel(leaf)
+        for leaf in tree_util.tree_leaves(self.fun(params, *args, **kwargs))])
     # NOTE: `self._rho` includes the squaring of residuals in its definition.
     losses = self._rho(residuals / self.options['f_scale'])
     return 0.5 * jnp.square(self.options['f_scale']) * jnp.mean(losses)
-- 
2.43.0


From ba3470a2733532a670da7c61a6fc126bf6c96ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:55 +0000
Subject: [PATCH 43/51] fix: ScipyLeastSquares accepts an integer x_scale

---
 jaxopt/_src/scipy_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 84bc32c..25294cb 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -724,7 +724,7 @@ class ScipyLeastSquares(ScipyWrapper):
 
     # Handles PyTree inputs for `x_scale` arg.
     if self.options['x_scale'] != 'jac' and not isinstance(
-        self.options['x_scale'], float):
+        self.options['x_scale'], (int, float)):
       self.options['x_scale'] = jnp_to_onp(self.options['x_scale'], self.dtype)
 
     # Pre-compile useful functions.
-- 
2.43.0


From 891cf3de0139f5883a86e8f2ccc4b7f9e78a8c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:01 +0000
Subject: [PATCH 44/51] fix: ScipyMinimize accepts a callback with trust-constr

---
 jaxopt/_src/scipy_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 25294cb..dce356e 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -324,7 +324,7 @@ class ScipyMinimize(ScipyWrapper):
 
     # wrap the callback so its arguments are of the same kind as fun
     if self.callback is not None:
-      def scipy_callback(x_onp: onp.ndarray):
+      def scipy_callback(x_onp: onp.ndarray, *_):  # trust-constr passes a state.
         x_jnp = onp_to_jnp(x_onp)
         return self.callback(x_jnp)
     else:
-- 
2.43.0


From 54c890b221496cd909aa9c3f15600fe9b761ac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:50 +0000
Subject: [PATCH 45/51] fix: arguments of the user's function may be named like
 internal ones

---
 jaxopt/_src/gauss_newton.py           |  4 ++--
 jaxopt/_src/hager_zhang_linesearch.py |  9 +++++----
 jaxopt/_src/levenberg_marquardt.py    | 10 +++++-----
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/jaxopt/_src/gauss_newton.py b/jaxopt/_src/gauss_newton.py
index ea1d89c..72ae3e2 100644
--- a/jaxopt/_src/gauss_newton.py
+++ b/jaxopt/_src/gauss_newton.py
@@ -151,13 +151,13 @@ class GaussNewton(base.IterativeSolver):
       return self._jt_op(params, residual, *args, **kwargs)
     self.optimality_fun = optimality_fun
 
-  def _jtj_op(self, params, vec, *args, **kwargs):
+  def _jtj_op(self, params, vec, /, *args, **kwargs):
     """Product with J.T J"""
     fun_with_args = lambda p: self._fun(p, *args, **kwargs)
     return jax.vjp(fun_with_args, params)[1](
         jax.jvp(fun_with_args, (params,), (vec,))[1])[0]
 
-  def _jt_op(self, params, residual, *args, **kwargs):
+  def _jt_op(self, params, residual, /, *args, **kwargs):
     """Product with J.T"""
     fun_with_args = lambda p: self._fun(p, *args, **kwargs)
     return jax.vjp(fun_with_args, params)[1](residual)[0]
diff --git a/jaxopt/_src/hager_zhang_linesearch.py b/jaxopt/_src/hager_zhang_linesearch.py
index a9b22e5..75d73ce 100644
--- a/jaxopt/_src/hager_zhang_linesearch.py
+++ b/jaxopt/_src/hager_zhang_linesearch.py
@@ -111,7 +111,8 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
   jit: base.AutoOrBoolean = "auto"
   unroll: base.AutoOrBoolean = "auto"
 
-  def _value_and_grad_on_line(self, x, c, descent_direction, *args, **kwargs):
+  def _value_and_grad_on_line(
+      self, x, c, descent_direction, /, *args, **kwargs):
     z = tree_add_scalar_mul(x, c, descent_direction)
     (value, _), grad = self._value_and_grad_fun_with_aux(z, *args, **kwargs)
     return value, tree_vdot_real(tree_conj(grad), descent_direction)
@@ -218,7 +219,7 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
     num_fun_grad_calls = nit + 1
     return failed, final_low, final_high, num_fun_grad_calls
 
-  def _secant(self, x, low, high, descent_direction, *args, **kwargs):
+  def _secant(self, x, low, high, descent_direction, /, *args, **kwargs):
     _, dlow = self._value_and_grad_on_line(
         x, low, descent_direction, *args, **kwargs)
     _, dhigh = self._value_and_grad_on_line(
@@ -227,7 +228,7 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
 
   def _secant2(
       self, x, low, high,
-      approx_wolfe_threshold_value, descent_direction, *args, **kwargs):
+      approx_wolfe_threshold_value, descent_direction, /, *args, **kwargs):
 
     # Corresponds to the secant^2 routine in the paper.
 
@@ -258,7 +259,7 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
 
   def _bracket(
       self, x, c, approx_wolfe_threshold_value,
-      descent_direction, *args, **kwargs):
+      descent_direction, /, *args, **kwargs):
     # Initial interval that satisfies the opposite slope condition.
 
     def cond_fn(state):
diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 43d1ab6..e9aab2c 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -507,14 +507,14 @@ class LevenbergMarquardt(base.IterativeSolver):
     residual = self._fun(params, *args, **kwargs)
     return self._jt_op(params, residual, *args, **kwargs)
 
-  def _jt_op(self, params, residual, *args, **kwargs):
+  def _jt_op(self, params, residual, /, *args, **kwargs):
     """Product of J^T and residual -- J: jacobian of fun at params."""
     fun_with_args = lambda p: self._fun(p, *args, **kwargs)
     _, vjpfun = jax.vjp(fun_with_args, params)
     jt_op_val, = vjpfun(residual)
     return jt_op_val
 
-  def _jtj_op(self, params, vec, *args, **kwargs):
+  def _jtj_op(self, params, vec, /, *args, **kwargs):
     """Product of J^T.J with vec using vjp & jvp, where J is jacobian of fun at params."""
     fun_with_args = lambda p: self._fun(p, *args, **kwargs)
     _, vjpfun = jax.vjp(fun_with_args, params)
@@ -522,18 +522,18 @@ class LevenbergMarquardt(base.IterativeSolver):
     jtj_op_val, = vjpfun(jvp_val)
     return jtj_op_val
 
-  def _jtj_diag_op(self, params, *args, **kwargs):
+  def _jtj_diag_op(self, params, /, *args, **kwargs):
     """Diagonal elements of J^T.J, where J is jacobian of fun at params."""
     diag_op = lambda v: v.T @ self._jtj_op(params, v, *args, **kwargs)
     return jax.vmap(diag_op)(jnp.eye(len(params))).T
 
-  def _d2fvv_op(self, primals, tangents1, tangents2, *args, **kwargs):
+  def _d2fvv_op(self, primals, tangents1, tangents2, /, *args, **kwargs):
     """Product with d2f.v1v2."""
     fun_with_args = lambda p: self._fun(p, *args, **kwargs)
     g = lambda pr: jax.jvp(fun_with_args, (pr,), (tangents1,))[1]
     return jax.jvp(g, (primals,), (tangents2,))[1]
 
-  def _solve_linear_eqs(self, matvec, state, params, *args, **kwargs):
+  def _solve_linear_eqs(self, matvec, state, params, /, *args, **kwargs):
     """Solves the linear equations to obtain velocity and acceleration."""
     if isinstance(self.solver, Callable):
       solver_options = {'ridge': state.damping_factor, 'init': state.delta}
-- 
2.43.0


From 9788b90d2bfc1363469696e91154dddf4a66ce0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:26 +0000
Subject: [PATCH 46/51] fix: derivatives of GaussNewton, LevenbergMarquardt and
 SciPy wrappers with keyword arguments

---
 jaxopt/_src/gauss_newton.py        |  1 +
 jaxopt/_src/levenberg_marquardt.py |  1 +
 jaxopt/_src/scipy_wrappers.py      | 29 ++++++++++++++++++++++++++++-
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/gauss_newton.py b/jaxopt/_src/gauss_newton.py
index 72ae3e2..566e01f 100644
--- a/jaxopt/_src/gauss_newton.py
+++ b/jaxopt/_src/gauss_newton.py
@@ -150,6 +150,7 @@ class GaussNewton(base.IterativeSolver):
       residual = self._fun(params, *args, **kwargs)
       return self._jt_op(params, residual, *args, **kwargs)
     self.optimality_fun = optimality_fun
+    self.reference_signature = self.residual_fun
 
   def _jtj_op(self, params, vec, /, *args, **kwargs):
     """Product with J.T J"""
diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index e9aab2c..f2fbf74 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -458,6 +458,7 @@ class LevenbergMarquardt(base.IterativeSolver):
 
   def __post_init__(self):
     super().__post_init__()
+    self.reference_signature = self.residual_fun
 
     if isinstance(self.solver, Callable):
       self.solver_fn = self.solver
diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index dce356e..f2877d2 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -23,6 +23,7 @@
 
 from dataclasses import dataclass
 import functools
+import inspect
 from typing import Any
 from typing import Callable
 from typing import Dict
@@ -242,6 +243,15 @@ def pytree_topology_from_example(x_jnp: Any) -> PyTreeTopology:
   return PyTreeTopology(treedef=treedef, shapes=shapes, dtypes=dtypes)
 
 
+def _signature_with_bounds(fun: Callable) -> inspect.Signature:
+  """Signature of `fun` with `bounds` as second argument."""
+  fun = getattr(fun, 'subfun', fun)
+  parameters = list(inspect.signature(fun).parameters.values())
+  parameters.insert(1, inspect.Parameter(
+      name='bounds', kind=inspect.Parameter.POSITIONAL_OR_KEYWORD))
+  return inspect.Signature(parameters)
+
+
 @dataclass(eq=False)
 class ScipyWrapper(base.Solver):
   """Wraps over `scipy.optimize` methods with PyTree and implicit diff support.
@@ -269,11 +279,16 @@ class ScipyWrapper(base.Solver):
     raise NotImplementedError(
         'ScipyWrapper subclasses must implement `optimality_fun` as needed.')
 
+  def _reference_signature(self):
+    """Signature of `optimality_fun`, if it is not explicit."""
+    return None
+
   def __post_init__(self):
     # Set up implicit diff.
     decorator = idf.custom_root(self.optimality_fun,
                                 has_aux=True,
-                                solve=self.implicit_diff_solve)
+                                solve=self.implicit_diff_solve,
+                                reference_signature=self._reference_signature())
     # pylint: disable=g-missing-from-attributes
     self.run = decorator(self.run)
 
@@ -316,6 +331,9 @@ class ScipyMinimize(ScipyWrapper):
     """Optimality function mapping compatible with `@custom_root`."""
     return self._grad_fun(sol, *args, **kwargs)
 
+  def _reference_signature(self):
+    return self.fun
+
   def _run(self, init_params, bounds, *args, **kwargs):
     """Wraps `scipy.optimize.minimize`."""
     # Sets up the "JAX-SciPy" bridge.
@@ -441,6 +459,9 @@ class ScipyBoundedMinimize(ScipyMinimize):
     fp = self._fixed_point_fun(sol, bounds, args, kwargs)
     return tree_sub(fp, sol)
 
+  def _reference_signature(self):
+    return _signature_with_bounds(self.fun)
+
   def run(self,
           init_params: Any,
           bounds: Optional[Any],
@@ -651,6 +672,9 @@ class ScipyLeastSquares(ScipyWrapper):
     """Optimality function mapping compatible with `@custom_root`."""
     return self._grad_cost_fun(sol, *args, **kwargs)
 
+  def _reference_signature(self):
+    return self.fun
+
   def _run(self, init_params, bounds, *args, **kwargs):
     """Wraps `scipy.optimize.least_squares`."""
     # Sets up the "JAX-SciPy" bridge.
@@ -780,6 +804,9 @@ class ScipyBoundedLeastSquares(ScipyLeastSquares):
     fp = self._fixed_point_fun(sol, bounds, args, kwargs)
     return tree_sub(fp, sol)
 
+  def _reference_signature(self):
+    return _signature_with_bounds(self.fun)
+
   def run(self,
           init_params: Any,
           bounds: Optional[Any],
-- 
2.43.0


From bb3f45c3a4d4f87e3cb6bc2368956a4f81527634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:17 +0000
Subject: [PATCH 47/51] fix: BoxOSQP and OSQP with fun are differentiable

---
 jaxopt/_src/osqp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index 6893445..2355f22 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -100,7 +100,9 @@ def _make_osqp_optimality_fun(matvec_Q, matvec_A, fun):
       qp_obj = tree_add_scalar_mul(tree_vdot(c, x), 0.5, tree_vdot(x, Q(x)))
       return qp_obj
   else:
-    obj_fun = fun
+    def obj_fun(primal_var, params_obj):
+      x, _ = primal_var
+      return fun(x, params_obj)
 
   def eq_fun(primal_var, params_eq):
     # constraint Ax=z associated to y^T(Ax-z)=0
-- 
2.43.0


From 69969f4b31300f5444742610086fe18e206f1f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:26 +0000
Subject: [PATCH 48/51] fix: the l2 semi-dual of projection_transport has
 derivatives

---
 jaxopt/_src/projection.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/projection.py b/jaxopt/_src/projection.py
index 8a8129d..561a2c1 100644
--- a/jaxopt/_src/projection.py
+++ b/jaxopt/_src/projection.py
@@ -466,9 +466,8 @@ def _max_l2(x, marginal_b, gamma):
   scale = gamma * marginal_b
   x_scale = x / scale
   p = projection_simplex(x_scale)
-  # From Danskin's theorem, we do not need to backpropagate
-  # through projection_simplex.
-  p = jax.lax.stop_gradient(p)
+  # From Danskin's theorem, backpropagating through projection_simplex does not
+  # change the gradient, but it is needed for the derivatives of the gradient.
   return jnp.dot(x, p) - 0.5 * scale * jnp.dot(p, p)
 
 
-- 
2.43.0


From 3bd76229eb56f56269eec05efa832f753d8fc10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:02 +0000
Subject: [PATCH 49/51] fix: make_perturbed_fun keeps output dimensions of size
 one in derivatives

---
 jaxopt/_src/perturbations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/perturbations.py b/jaxopt/_src/perturbations.py
index 021baee..3319ee7 100644
--- a/jaxopt/_src/perturbations.py
+++ b/jaxopt/_src/perturbations.py
@@ -264,7 +264,7 @@ def make_perturbed_fun(fun: Callable[[jax.Array], float],
         jnp.reshape(output_pert, (num_samples, -1)),
         jnp.reshape(nabla_z_flat, (num_samples, -1)),
         jnp.reshape(tangent, (-1,)))
-    tangent_out = jnp.squeeze(jnp.reshape(tangent_flat, output_pert.shape[1:]))
+    tangent_out = jnp.reshape(tangent_flat, output_pert.shape[1:-1])
     return tangent_out
 
   def pert_jvp_control_variate(tangent, _, inputs, rng):
@@ -279,7 +279,7 @@ def make_perturbed_fun(fun: Callable[[jax.Array], float],
         jnp.reshape(output_pert - output, (num_samples, -1)),
         jnp.reshape(nabla_z_flat, (num_samples, -1)),
         jnp.reshape(tangent, (-1,)))
-    tangent_out = jnp.squeeze(jnp.reshape(tangent_flat, output_pert.shape[1:]))
+    tangent_out = jnp.reshape(tangent_flat, output_pert.shape[1:-1])
     return tangent_out
 
   if control_variate:
-- 
2.43.0


From 43b39d3cf26d945995f15022c9b1191787399f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:02 +0000
Subject: [PATCH 50/51] fix: control variate of make_perturbed_fun for
 functions with array outputs

---
 jaxopt/_src/perturbations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/perturbations.py b/jaxopt/_src/perturbations.py
index 3319ee7..f1a1e15 100644
--- a/jaxopt/_src/perturbations.py
+++ b/jaxopt/_src/perturbations.py
@@ -271,7 +271,7 @@ def make_perturbed_fun(fun: Callable[[jax.Array], float],
     samples = noise.sample(seed=rng,
                            sample_shape=(num_samples,) + inputs.shape)
     output_pert = jax.vmap(fun)(inputs + sigma * samples)[..., jnp.newaxis]
-    output = fun(inputs)
+    output = fun(inputs)[..., jnp.newaxis]
     # noise.log_prob corresponds to -nu in the paper.
     nabla_z_flat = -jax.vmap(jax.grad(noise.log_prob))(samples.reshape([-1]))
     tangent_flat = 1.0 / (num_samples * sigma) * jnp.einsum(
-- 
2.43.0


From eb78efd24716977b3d8e3d982f79ec720bc50f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:32 +0000
Subject: [PATCH 51/51] fix: ZoomLineSearch no longer counts a gradient
 evaluation for evaluating the auxiliary output

---
 jaxopt/_src/zoom_linesearch.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/jaxopt/_src/zoom_linesearch.py b/jaxopt/_src/zoom_linesearch.py
index 96b790c..dba3223 100644
--- a/jaxopt/_src/zoom_linesearch.py
+++ b/jaxopt/_src/zoom_linesearch.py
@@ -684,7 +684,6 @@ class ZoomLineSearch(base.IterativeLineSearch):
     if aux is None and self.has_aux:
       _, aux = self._fun_with_aux(params, *fun_args, **fun_kwargs)
       num_fun_eval += 1
-      num_grad_eval += 1
 
     if descent_direction is None:
       descent_direction = tree_scalar_mul(-1.0, tree_conj(grad))
-- 
2.43.0

