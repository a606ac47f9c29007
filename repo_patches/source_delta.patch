From 6609e68942a2ab2909963905008d742c2552da46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 01/19] fix: scope x64 switch of Lanczos/LOBPCG to the call and
 thread

The process-wide jax_enable_x64 flag was flipped and only restored on
success: an exception left the session in the wrong precision, other
threads saw the flag flip, and results converted while x64 was still
disabled could not have the requested return dtype.
---
 laplax/curv/lanczos.py | 47 ++++++++++++++++++++++++++++++++----------
 laplax/curv/lobpcg.py  | 44 +++++++++++++++++++++++++++++----------
 2 files changed, 69 insertions(+), 22 deletions(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index 6273be4..173b60e 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -1,5 +1,6 @@
 import jax
 import jax.numpy as jnp
+from jax.experimental import enable_x64
 
 from laplax.curv.utils import LowRankTerms, get_matvec
 from laplax.types import Array, Callable, DType, Float, KeyType, Kwargs, Layout
@@ -198,8 +199,41 @@ def lanczos_lowrank(
     if return_dtype is None:
         return_dtype = jnp.float64 if original_float64_enabled else jnp.float32
 
-    jax.config.update("jax_enable_x64", calc_dtype == jnp.float64)
+    # Scoped to this call and thread: restored on any exit, invisible to other threads.
+    with enable_x64(calc_dtype == jnp.float64):
+        low_rank_terms = _lanczos_lowrank(
+            A,
+            key=key,
+            b=b,
+            layout=layout,
+            rank=rank,
+            tol=tol,
+            mv_dtype=mv_dtype,
+            calc_dtype=calc_dtype,
+            mv_jit=mv_jit,
+            full_reorthogonalize=full_reorthogonalize,
+        )
+
+    # Both return precisions are representable while x64 is enabled.
+    with enable_x64(True):
+        return jax.tree.map(
+            lambda x: jnp.asarray(x, dtype=return_dtype), low_rank_terms
+        )
 
+
+def _lanczos_lowrank(
+    A: Callable[[Array], Array] | Array,
+    *,
+    key: KeyType | None,
+    b: Array | None,
+    layout: Layout | None,
+    rank: int,
+    tol: float,
+    mv_dtype: DType,
+    calc_dtype: DType,
+    mv_jit: bool,
+    full_reorthogonalize: bool,
+) -> LowRankTerms:
     # Obtain a uniform matrix-vector multiplication function.
     matvec, size = get_matvec(A, layout=layout, jit=mv_jit)
 
@@ -232,13 +266,4 @@ def lanczos_lowrank(
     )
     eigvals, eigvecs = compute_eigendecomposition(alpha, beta, V, compute_vectors=True)
 
-    # Prepare and convert the results
-    low_rank_result = LowRankTerms(
-        U=jnp.asarray(eigvecs, dtype=return_dtype),
-        S=jnp.asarray(eigvals, dtype=return_dtype),
-        scalar=jnp.asarray(0.0, dtype=return_dtype),
-    )
-
-    # Restore the original configuration dtype
-    jax.config.update("jax_enable_x64", original_float64_enabled)
-    return low_rank_result
+    return LowRankTerms(U=eigvecs, S=eigvals, scalar=jnp.asarray(0.0, dtype=calc_dtype))
diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index ee47547..01695ba 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -67,6 +67,7 @@ import warnings
 
 import jax
 import jax.numpy as jnp
+from jax.experimental import enable_x64
 from jax.experimental.sparse import linalg
 from jax.experimental.sparse.linalg import (
     _check_inputs,  # noqa: PLC2701
@@ -356,8 +357,37 @@ def lobpcg_lowrank(
     if return_dtype is None:
         return_dtype = jnp.float64 if original_float64_enabled else jnp.float32
 
-    jax.config.update("jax_enable_x64", calc_dtype == jnp.float64)
+    # Scoped to this call and thread: restored on any exit, invisible to other threads.
+    with enable_x64(calc_dtype == jnp.float64):
+        low_rank_terms = _lobpcg_lowrank(
+            A,
+            key=key,
+            layout=layout,
+            rank=rank,
+            tol=tol,
+            mv_dtype=mv_dtype,
+            calc_dtype=calc_dtype,
+            mv_jit=mv_jit,
+        )
+
+    # Both return precisions are representable while x64 is enabled.
+    with enable_x64(True):
+        return jax.tree.map(
+            lambda x: jnp.asarray(x, dtype=return_dtype), low_rank_terms
+        )
 
+
+def _lobpcg_lowrank(
+    A: Callable[[Array], Array] | Array,
+    *,
+    key: KeyType | None,
+    layout: Layout | None,
+    rank: int,
+    tol: Float,
+    mv_dtype: DType,
+    calc_dtype: DType,
+    mv_jit: bool,
+) -> LowRankTerms:
     # Obtain a matrix-vector multiplication function.
     matvec, size = get_matvec(A, layout=layout, jit=mv_jit)
 
@@ -394,14 +424,6 @@ def lobpcg_lowrank(
         A_jit=mv_jit,
     )
 
-    # Prepare and convert the results
-    low_rank_result = LowRankTerms(
-        U=jnp.asarray(eigenvecs, dtype=return_dtype),
-        S=jnp.asarray(eigenvals, dtype=return_dtype),
-        scalar=jnp.asarray(0.0, dtype=return_dtype),
+    return LowRankTerms(
+        U=eigenvecs, S=eigenvals, scalar=jnp.asarray(0.0, dtype=calc_dtype)
     )
-
-    # Restore the original configuration dtype
-    jax.config.update("jax_enable_x64", original_float64_enabled)
-
-    return low_rank_result
-- 
2.43.0


From 4e46f75ef0d1b4b38ebbbf9d08010c359704e6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 02/19] fix: evaluation drops the first batch of a one-shot
 iterator

---
 laplax/api.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/laplax/api.py b/laplax/api.py
index 603c0f2..874ea53 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -13,6 +13,7 @@ Public entry points
 from collections.abc import Iterator
 from enum import StrEnum
 from functools import partial
+from itertools import chain
 from typing import cast
 
 import jax
@@ -953,9 +954,12 @@ def evaluation(
 
     # Evaluate
     is_data_loader = _is_data_loader(data)
-    transform = _validate_and_get_transform(
-        next(iter(data)) if is_data_loader else data
-    )
+    if is_data_loader:
+        # Keep the inspected batch: a one-shot iterator would not yield it again.
+        batches = iter(data)
+        first_batch = next(batches)
+        data = chain([first_batch], batches)
+    transform = _validate_and_get_transform(first_batch if is_data_loader else data)
 
     if is_data_loader:
         results = evaluate_metrics_on_generator(
-- 
2.43.0


From 9a83fcb1b3fe66132fb52210003d3637eabcd4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 03/19] fix: do not extend the caller's metrics list in place

---
 laplax/eval/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/eval/utils.py b/laplax/eval/utils.py
index 7d3497c..65f3fac 100644
--- a/laplax/eval/utils.py
+++ b/laplax/eval/utils.py
@@ -269,7 +269,7 @@ def evaluate_metrics_on_dataset(
     if metrics is None:
         metrics = metrics_from_dict
     elif metrics_dict is not None:
-        metrics.extend(metrics_from_dict)
+        metrics = [*metrics, *metrics_from_dict]
 
     def evaluate_data_point(dp: Data) -> dict[str, Array]:
         pred = {**pred_fn(dp["input"]), "target": dp["target"]}
@@ -339,7 +339,7 @@ def evaluate_metrics_on_generator(
     if metrics is None:
         metrics = metrics_from_dict
     elif metrics_dict is not None:
-        metrics.extend(metrics_from_dict)
+        metrics = [*metrics, *metrics_from_dict]
 
     def evaluate_data(dp: Data) -> dict[str, Array]:
         pred = {**pred_fn(dp["input"]), "target": dp["target"]}
-- 
2.43.0


From b8c8f3668178e7c4fd445c05cd1012a6a4aa3322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 04/19] fix: curvature registration with unknown default leaves
 partial entry

---
 laplax/register.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/laplax/register.py b/laplax/register.py
index 220064e..1137129 100644
--- a/laplax/register.py
+++ b/laplax/register.py
@@ -129,6 +129,17 @@ def register_curvature_method(
         )
         raise ValueError(msg)
 
+    # Reject an unknown default before any table is changed.
+    if default not in CURVATURE_METHODS and not all((
+        create_curvature_fn,
+        curvature_to_precision_fn,
+        prec_to_posterior_fn,
+        posterior_state_to_scale_fn,
+        posterior_state_to_cov_fn,
+        marginal_log_likelihood_fn,
+    )):
+        raise KeyError(default)
+
     CURVATURE_METHODS[name] = create_curvature_fn or CURVATURE_METHODS[default]
     CURVATURE_PRECISION_METHODS[name] = (
         curvature_to_precision_fn or CURVATURE_PRECISION_METHODS[default]
-- 
2.43.0


From 311dfcd668c72a392033bfaffd5f8a0439c763ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 05/19] fix: grid_search runs one iteration more than
 max_iterations

---
 laplax/eval/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/calibrate.py b/laplax/eval/calibrate.py
index 30b09a2..130ff5c 100644
--- a/laplax/eval/calibrate.py
+++ b/laplax/eval/calibrate.py
@@ -131,7 +131,7 @@ def grid_search(
         previous_result = result
 
         # Check if maximum iterations reached
-        if max_iterations is not None and iteration >= max_iterations:
+        if max_iterations is not None and iteration + 1 >= max_iterations:
             logger.info(f"Stopping due to reaching max iterations = {max_iterations}")
             break
 
-- 
2.43.0


From 3d6c8e0479de3a614b76b2a822f1c57e1023c74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 06/19] fix: default classification metrics reject the
 remaining predictions

---
 laplax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/api.py b/laplax/api.py
index 874ea53..f67bca3 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -529,7 +529,7 @@ def _resolve_metrics(
                 ],
             ),
             apply_fns(
-                lambda pred_mean, pred_std, target: nll_gaussian(
+                lambda pred_mean, pred_std, target, **kwargs: nll_gaussian(  # noqa: ARG005
                     pred_mean,
                     pred_std,
                     jax.nn.one_hot(target, num_classes=pred_mean.shape[-1]),
-- 
2.43.0


From 25caf0038d53a37833d7b87741b6ffe435b26782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 07/19] fix: non-linear mc_bridge predictive lacks pred_act

---
 laplax/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/laplax/api.py b/laplax/api.py
index f67bca3..a820f58 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -280,6 +280,7 @@ def _setup_pushforward(
             pushforward_fns = [nonlin_setup, nonlin_pred_mean, nonlin_pred_std]
             if predictive_type is Predictive.MC_BRIDGE:
                 pushforward_fns.append(nonlin_mc_pred_act)
+                pushforward_fns.append(get_pred_act)
             elif predictive_type in _SPECIAL_PREDICTIVES:
                 msg = (
                     f"{predictive_type.value} not supported for non-linear pushforward."
-- 
2.43.0


From 248bf4b98b8b333d7754fa749279c828e87931dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 08/19] fix: laplace_bridge reads the class count from a
 missing axis

---
 laplax/eval/predictives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/predictives.py b/laplax/eval/predictives.py
index e344cba..b7c65a7 100644
--- a/laplax/eval/predictives.py
+++ b/laplax/eval/predictives.py
@@ -19,7 +19,7 @@ def laplace_bridge(
     Returns:
         The predictive.
     """
-    num_classes = mean.shape[1]
+    num_classes = mean.shape[0]
 
     if use_correction:
         c = jnp.sum(var, axis=0) / math.sqrt(num_classes / 2)  # [...]
-- 
2.43.0


From fe37298eac16ea70a657ccb92e19975fbc096e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 09/19] fix: Lanczos counts the last vector again once the
 Krylov space is exhausted

---
 laplax/curv/lanczos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index 173b60e..71650c1 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -67,8 +67,8 @@ def lanczos_iterations(
         v_next = jax.lax.cond(
             b_val > 0,  # type: ignore[operator]
             lambda _: w / b_val,
-            lambda _: v,  # In degenerate cases, no progress is made.
-            operand=None,
+            jnp.zeros_like,  # Krylov space exhausted: do not count `v` again.
+            operand=v,
         )
         alpha = alpha.at[i].set(a)
         beta = beta.at[i].set(b_val)
-- 
2.43.0


From 23eea43179f3a32fb8e10c757be67045b6e80c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 10/19] fix: LOBPCG rejects a rank of exactly a fifth of the
 size

---
 laplax/curv/lobpcg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index 01695ba..baf1341 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -395,7 +395,7 @@ def _lobpcg_lowrank(
     matmat = jax.vmap(matvec, in_axes=-1, out_axes=-1)
 
     # Adjust rank if it's too large compared to problem size
-    if size < rank * 5:
+    if size <= rank * 5:  # LOBPCG needs a search dimension * 5 < size
         rank = max(1, size // 5 - 1)
         msg = f"reduced rank to {rank} due to insufficient size"
         warnings.warn(msg, stacklevel=1)
-- 
2.43.0


From f9018f4cd3a15ad4a42c04685ecfb1231265d51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 11/19] fix: Lanczos without reorthogonalisation omits the
 three-term recurrence

With full_reorthogonalize=False the component along the previous Lanczos
vector was never removed, so the vectors were not orthogonal and U S U^T was
wrong (by more than 40 % for a 12x12 matrix at rank 3).
---
 laplax/curv/lanczos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index 71650c1..ab77f23 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -61,6 +61,8 @@ def lanczos_iterations(
         if full_reorthogonalize:
             w = reorthogonalize(w, V, i)
             w = reorthogonalize(w, V, i)
+        else:  # three-term recurrence
+            w = w - jnp.where(i > 0, beta[i - 1], 0.0) * V[i - 1]
 
         b_val = jnp.linalg.norm(w, 2)
         b_val = jnp.where(b_val < tol, 0.0, b_val)
-- 
2.43.0


From 9a611e047988c2ff21df0a5ca26ad1fe9af12c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 12/19] fix: the precompute option of weight sampling raises
 TypeError

---
 laplax/eval/pushforward.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index acac18c..fabab0b 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -79,12 +79,12 @@ def set_get_weight_sample(
     def get_weight_sample(idx):
         return util.tree.normal_like(keys[idx], mean=mean_params, scale_mv=scale_mv)
 
+    # `precompute` is passed on explicitly and must not be in `kwargs` as well.
+    precompute = kwargs.pop("precompute", None)
     return precompute_list(
         get_weight_sample,
         jnp.arange(num_samples),
-        precompute=kwargs.get(
-            "set_get_weight_sample_precompute", kwargs.get("precompute")
-        ),
+        precompute=kwargs.get("set_get_weight_sample_precompute", precompute),
         **kwargs,
     )
 
-- 
2.43.0


From 601a8698315c7812272dc119d3b81fb0e96452c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 13/19] fix: diagonal of a streamed operator rejects its
 batching options

---
 laplax/util/loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/util/loader.py b/laplax/util/loader.py
index 1fdae31..519e11a 100644
--- a/laplax/util/loader.py
+++ b/laplax/util/loader.py
@@ -363,13 +363,13 @@ def _(mv: DataLoaderMV, layout: Layout, **kwargs: Kwargs) -> Array:
 
 
 @diagonal.register
-def _(mv: DataLoaderMV, layout: Layout | None = None) -> Array:
+def _(mv: DataLoaderMV, layout: Layout | None = None, **kwargs: Kwargs) -> Array:
     """Apply diagonal to DataLoaderMV.
 
     Returns:
         The result of applying the function to the data loader.
     """
-    return mv.lower_func(diagonal, layout=layout)
+    return mv.lower_func(diagonal, layout=layout, **kwargs)
 
 
 @wrap_function.register
-- 
2.43.0


From ffc8660cc0ac61f755d11de9ed9e3b3cf3498675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:35 +0000
Subject: [PATCH 14/19] fix: full curvature fails on an integer layout

---
 laplax/curv/full.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/laplax/curv/full.py b/laplax/curv/full.py
index bb1ad12..6979efe 100644
--- a/laplax/curv/full.py
+++ b/laplax/curv/full.py
@@ -48,10 +48,12 @@ def create_full_curvature(
         )
         logger.warning(msg)
         mv_wrapped = mv
+        size = layout
     else:
         flatten, unflatten = create_pytree_flattener(layout)
         mv_wrapped = wrap_function(mv, input_fn=unflatten, output_fn=flatten)
-    curv_estimate = to_dense(mv_wrapped, layout=get_size(layout))
+        size = get_size(layout)
+    curv_estimate = to_dense(mv_wrapped, layout=size)
     return curv_estimate
 
 
-- 
2.43.0


From c2d5c48e4e3860313ddfe8dec40525e822df7380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 15/19] fix: calibration drops the max_iterations of the grid
 search

---
 laplax/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/laplax/api.py b/laplax/api.py
index a820f58..be109ac 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -823,6 +823,7 @@ def calibration(
         log_prior_prec_max = calibration_kwargs.get("log_prior_prec_max", 3.0)
         grid_size = calibration_kwargs.get("grid_size", 50)
         patience = calibration_kwargs.get("patience")
+        max_iterations = calibration_kwargs.get("max_iterations")
 
         # Transform calibration batch to {"input": ..., "target": ...}
         data = _validate_and_get_transform(data)(data)
@@ -848,6 +849,7 @@ def calibration(
             log_prior_prec_max=log_prior_prec_max,
             grid_size=grid_size,
             patience=patience,
+            max_iterations=max_iterations,
         )
         prior_args = {"prior_prec": prior_prec}
 
-- 
2.43.0


From 771f445b2d50458c7f8c234dad1d6acc33483081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:11 +0000
Subject: [PATCH 16/19] fix: taking a diagonal no longer keeps every batch of a
 stream alive

diagonal() jitted a closure over the matrix-vector product; JAX's tracing caches
then kept the data the product closes over, so the diagonal of a DataLoaderMV held
the whole data set in memory, during and after the call. lax.map compiles the loop
body anyway: jit only the basis-vector generator, as mv_jittable documents.
---
 laplax/util/mv.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/laplax/util/mv.py b/laplax/util/mv.py
index d1fa392..f407c3a 100644
--- a/laplax/util/mv.py
+++ b/laplax/util/mv.py
@@ -61,7 +61,6 @@ def diagonal(
     if isinstance(layout, int):  # Integer layout defines size
         size = layout
 
-        @jax.jit
         def get_basis_vec(idx: int) -> jax.Array:
             zero_vec = jnp.zeros(size)
             return zero_vec.at[idx].set(1.0)
@@ -69,16 +68,17 @@ def diagonal(
     else:  # PyTree layout
         size = get_size(layout)
 
-        @jax.jit
         def get_basis_vec(idx: int) -> PyTree:
             return basis_vector_from_index(idx, layout)
 
+    # Jit only the generator: `jax.lax.map` compiles `diag_elem` anyway, and jitting it
+    # here would keep the data `mv` closes over alive in JAX's caches.
+    if mv_jittable:
+        get_basis_vec = jax.jit(get_basis_vec)
+
     def diag_elem(i):
         return util.tree.tree_vec_get(mv(get_basis_vec(i)), i)
 
-    if mv_jittable:
-        diag_elem = jax.jit(diag_elem)
-
     return jax.lax.map(
         diag_elem, jnp.arange(size), batch_size=kwargs.get("diagonal_batch_size")
     )
-- 
2.43.0


From 1c00da37f3c270c869e5b5804f802d420e355559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:13 +0000
Subject: [PATCH 17/19] fix: calibration mistakes "NONE" for a classification
 predictive

Predictive types are accepted in any case, but only the lower-case spelling of
"none" selected the regression objectives.
---
 laplax/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/laplax/api.py b/laplax/api.py
index be109ac..f9fd68e 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -781,7 +781,9 @@ def calibration(
         - GRID_SEARCH: Grid search over prior precision
     """
     # If task is classification, then no NLL objective
-    is_classification = predictive_type != Predictive.NONE
+    is_classification = (
+        _convert_to_enum(Predictive, predictive_type) is not Predictive.NONE
+    )
 
     # Pushforward construction
     set_pushforward, pushforward_fns = _setup_pushforward(
-- 
2.43.0


From b15ed3c062f0a4a5f1c85a83b1578d259c9394a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:05 +0000
Subject: [PATCH 18/19] fix: the curvature of one batch given as a list
 iterates over its two arrays

calibration and evaluation take [input, target] like (input, target); GGN and
laplace took the list for a loader of two batches.
---
 laplax/api.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/laplax/api.py b/laplax/api.py
index f9fd68e..6108076 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -170,13 +170,19 @@ def _maybe_wrap_loader_or_batch(
     Returns:
         Wrapped matrix-vector function.
     """
+    # A list is a batch, as for `_is_data_loader`, unless it is a list of batches.
+    is_batch = isinstance(data, (tuple, dict)) or (
+        isinstance(data, list)
+        and transform is None
+        and not any(isinstance(x, (tuple, list, dict)) for x in data)
+    )
     transform = (
         _validate_and_get_transform(next(iter(data)) if _is_data_loader(data) else data)
         if transform is None
         else transform
     )
 
-    if isinstance(data, (tuple, dict)):
+    if is_batch:
         logger.debug("Using *single batch* curvature evaluation.")
         return partial(mv_fn, data=transform(data))
 
-- 
2.43.0


From 65d2aefa84b3808d7a0334e232830da116b16fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:51 +0000
Subject: [PATCH 19/19] fix: laplace accepts registered curvature methods

---
 laplax/api.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/laplax/api.py b/laplax/api.py
index 6108076..6383432 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -21,7 +21,12 @@ import jax.numpy as jnp
 from loguru import logger
 
 # Laplax imports
-from laplax.curv.cov import Posterior, estimate_curvature, set_posterior_fn
+from laplax.curv.cov import (
+    CURVATURE_METHODS,
+    Posterior,
+    estimate_curvature,
+    set_posterior_fn,
+)
 from laplax.curv.ggn import create_ggn_mv_without_data
 from laplax.enums import (
     CalibrationMethod,
@@ -669,8 +674,12 @@ def laplace(
         - Diagonal GGN: Approximates the GGN with its diagonal
         - Low-rank GGN: Uses Lanczos or LOBPCG for efficient approximation
     """
-    # Convert curv_type to enum
-    curv_type_enum = _convert_to_enum(CurvApprox, curv_type)
+    # Convert curv_type to enum, unless it names a (registered) method as it stands
+    curv_type_enum = (
+        curv_type
+        if curv_type in CURVATURE_METHODS
+        else _convert_to_enum(CurvApprox, curv_type)
+    )
 
     # Calculate factor
     factor = float(num_curv_samples) / float(num_total_samples)
-- 
2.43.0

