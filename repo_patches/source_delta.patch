From afacfb3913bb9826f3b7e31f4a3c956184909285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:04 +0000
Subject: [PATCH 01/16] fix: build the K x K Gram matrix of the iterate
 differences in Anderson acceleration

U stores one difference per row, so the extrapolation system is U.U^T (K x K).
U^T.U is ws_size x ws_size: it made solve_lin_sys index out of bounds when
ws_size (times n_tasks) < K, and produced wrong weights otherwise.
---
 src/solvers/anderson_bcd/mod.rs | 2 +-
 src/solvers/anderson_cd/mod.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/anderson_bcd/mod.rs b/src/solvers/anderson_bcd/mod.rs
index 6b84b73..7989282 100644
--- a/src/solvers/anderson_bcd/mod.rs
+++ b/src/solvers/anderson_bcd/mod.rs
@@ -158,7 +158,7 @@ pub fn anderson_accel<F, DM, T, DF, P>(
         .unwrap();
 
         // Computes the extrapolation matrix à la Anderson
-        let C = U.t().dot(U);
+        let C = U.dot(&U.t());
         let _res = solve_lin_sys(C.view(), Array1::<F>::ones(K).view()); // TODO: change into LAPACK inversion
 
         match _res {
diff --git a/src/solvers/anderson_cd/mod.rs b/src/solvers/anderson_cd/mod.rs
index 6a1b00e..8c31418 100644
--- a/src/solvers/anderson_cd/mod.rs
+++ b/src/solvers/anderson_cd/mod.rs
@@ -147,7 +147,7 @@ pub fn anderson_accel<F, DM, T, DF, P>(
         .unwrap();
 
         // Computes the extrapolation matrix à la Anderson
-        let C = U.t().dot(U);
+        let C = U.dot(&U.t());
         let _res = solve_lin_sys(C.view(), Array1::<F>::ones(K).view());
 
         match _res {
-- 
2.43.0


From 13d49c5523e83148c494829d01f105f167b10559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:04 +0000
Subject: [PATCH 02/16] fix: use the norm of the gradient in
 BlockL1PlusL2::subdiff_distance

The branch of null rows compared the squared norm to the threshold.
---
 src/penalties/block_separable/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/penalties/block_separable/mod.rs b/src/penalties/block_separable/mod.rs
index 5ef9964..dceb13b 100644
--- a/src/penalties/block_separable/mod.rs
+++ b/src/penalties/block_separable/mod.rs
@@ -169,7 +169,7 @@ impl<F: Float> MultiTaskPenalty<F> for BlockL1PlusL2<F> {
                             .sqrt()
                     }
                     false => {
-                        let norm_grad_j = grad_idx.dot(&grad_idx);
+                        let norm_grad_j = grad_idx.dot(&grad_idx).sqrt();
                         F::max(F::zero(), norm_grad_j - self.alpha * self.l21_ratio)
                     }
                 }
-- 
2.43.0


From 3ac34aa3c8fa555a5b9b8c5ed33cd2a838e8fc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:04 +0000
Subject: [PATCH 03/16] fix: include the gradient in BlockMCP::subdiff_distance
 for active rows

The documented distance is ||grad + (alpha / ||W_j|| - 1 / gamma) * W_j||.
---
 src/penalties/block_separable/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/penalties/block_separable/mod.rs b/src/penalties/block_separable/mod.rs
index dceb13b..272b0a4 100644
--- a/src/penalties/block_separable/mod.rs
+++ b/src/penalties/block_separable/mod.rs
@@ -270,7 +270,13 @@ impl<F: Float> MultiTaskPenalty<F> for BlockMCP<F> {
                         if norm_W_j < self.alpha * self.gamma {
                             // distance of -grad_j to alpha * W[j] / ||W_j|| - W[j] / gamma
                             let scale = self.alpha / norm_W_j - F::one() / self.gamma;
-                            W_j.map(|&W_ij| (W_ij * scale).powi(2)).sum().sqrt()
+                            grad_idx
+                                .iter()
+                                .zip(W_j)
+                                .fold(F::zero(), |sum, (&grad_ij, &W_ij)| {
+                                    sum + (grad_ij + W_ij * scale).powi(2)
+                                })
+                                .sqrt()
                         } else {
                             // distance of -grad_j to 0
                             grad_idx.dot(&grad_idx).sqrt()
-- 
2.43.0


From 7165a98dedf3a71e79132ae5f45a2b51e76e48a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:04 +0000
Subject: [PATCH 04/16] fix: block soft-thresholding of a null vector with a
 null threshold is null, not NaN

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index ff74f94..24457f9 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -22,7 +22,7 @@ pub mod prox_funcs {
     /// [`MultiTaskPenalty::L21`].
     pub fn block_soft_thresholding<F: Float>(x: ArrayView1<F>, threshold: F) -> Array1<F> {
         let norm_x = x.map(|&xi| xi.powi(2)).sum().sqrt();
-        if norm_x < threshold {
+        if norm_x <= threshold {
             return Array1::<F>::zeros(x.len());
         }
         let scale = F::one() - threshold / norm_x;
-- 
2.43.0


From 6282d1e789b248223cb97c7cffabfbd6337abe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:04 +0000
Subject: [PATCH 05/16] fix: prox_05 of zero with a null threshold is zero, not
 NaN

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 24457f9..1e460ef 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -32,7 +32,7 @@ pub mod prox_funcs {
     /// This function implements the proximal operator of [`Penalty::L05`].
     pub fn prox_05<F: Float>(x: F, threshold: F) -> F {
         let t = F::cast(F::cast(3. / 2.) * threshold.powf(F::cast(2. / 3.)));
-        if x.abs() < t {
+        if x.abs() <= t {
             return F::zero();
         }
         x * F::cast(2. / 3.)
-- 
2.43.0


From 251fbc8d80344f1a4893b5d8c19f1f188f4c58da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:04 +0000
Subject: [PATCH 06/16] fix: proximal operators of MCP and BlockMCP when the
 step size exceeds gamma

The firm-thresholding formula minimizes the proximal objective only if
stepsize <= gamma. Beyond that the minimizer is the hard-thresholding operator;
the previous formula zeroed weights for which this increases the objective.
---
 src/penalties/block_separable/mod.rs | 8 +++++++-
 src/penalties/separable/mod.rs       | 9 ++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/penalties/block_separable/mod.rs b/src/penalties/block_separable/mod.rs
index 272b0a4..ff0e48c 100644
--- a/src/penalties/block_separable/mod.rs
+++ b/src/penalties/block_separable/mod.rs
@@ -225,9 +225,15 @@ impl<F: Float> MultiTaskPenalty<F> for BlockMCP<F> {
     ///                       x                                     ||x|| > alpha * gamma
     ///                       (1 - alpha * threshold / ||x||) * x   otherwise
     ///                       / (1 - threshold / gamma)
+    ///
+    /// If threshold > gamma, the proximal operator is the block hard-thresholding
+    /// operator at level alpha * sqrt(gamma * threshold).
     fn prox(&self, value: ArrayView1<F>, stepsize: F) -> Array1<F> {
         let cast1 = F::cast(1.);
-        let tau = self.alpha * stepsize;
+        let tau = match stepsize > self.gamma {
+            true => self.alpha * (self.gamma * stepsize).sqrt(),
+            false => self.alpha * stepsize,
+        };
         let g = self.gamma / stepsize;
         let norm_value = value.dot(&value).sqrt();
         if norm_value <= tau {
diff --git a/src/penalties/separable/mod.rs b/src/penalties/separable/mod.rs
index d2b0c3c..e47c747 100644
--- a/src/penalties/separable/mod.rs
+++ b/src/penalties/separable/mod.rs
@@ -192,8 +192,15 @@ impl<F: Float> Penalty<F> for MCP<F> {
     ///                      x                                      if |x| > alpha * gamma
     ///                      sign(x) * (|x| - alpha * threshold)
     ///                      / (1 - threshold / gamma)              otherwise
+    ///
+    /// If threshold > gamma, the proximal objective is concave between 0 and
+    /// alpha * gamma, and the proximal operator is the hard-thresholding operator at
+    /// level alpha * sqrt(gamma * threshold).
     fn prox(&self, value: F, stepsize: F) -> F {
-        let tau = self.alpha * stepsize;
+        let tau = match stepsize > self.gamma {
+            true => self.alpha * (self.gamma * stepsize).sqrt(),
+            false => self.alpha * stepsize,
+        };
         let g = self.gamma / stepsize;
         if value.abs() <= tau {
             F::zero()
-- 
2.43.0


From fb58e07b36babb9dbe8038c0f06b3ebc43dadb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:41 +0000
Subject: [PATCH 07/16] fix: pivot rows in solve_lin_sys

Without row exchanges a zero pivot met before the last column left the system
unreduced and Ok was returned with a wrong solution (e.g. [[0, 1], [1, 1]]),
and a tiny pivot destroyed the accuracy of the solution.
---
 src/utils/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 1e460ef..5a8b4e9 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -127,6 +127,20 @@ pub mod helpers {
 
         // Echelon form
         for i in 0..size - 1 {
+            // Partial pivoting
+            let pivot = (i..size).fold(i, |best, row| {
+                match num_traits::Float::abs(system[[row, i]])
+                    > num_traits::Float::abs(system[[best, i]])
+                {
+                    true => row,
+                    false => best,
+                }
+            });
+            if pivot != i {
+                for k in 0..size + 1 {
+                    system.swap([i, k], [pivot, k]);
+                }
+            }
             for j in i..size - 1 {
                 if system[[i, i]] == F::zero() {
                     continue;
-- 
2.43.0


From 6afb4394522e1b377422219722a1ff212ee2f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:41 +0000
Subject: [PATCH 08/16] fix: reject gamma < 1 in BlockMCParams as MCParams does

---
 src/estimators/hyperparams.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estimators/hyperparams.rs b/src/estimators/hyperparams.rs
index 17f659d..d6cf52d 100644
--- a/src/estimators/hyperparams.rs
+++ b/src/estimators/hyperparams.rs
@@ -711,6 +711,8 @@ impl<F: Float> ParamGuard for BlockMCParams<F> {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
+        } else if self.0.gamma < F::one() {
+            Err(EstimatorError::InvalidGamma(self.0.gamma.to_f32().unwrap()))
         } else if self.0.tolerance.is_negative() {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
-- 
2.43.0


From d220acb43fb764f25547d103519afcc9053aa1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:55 +0000
Subject: [PATCH 09/16] fix: Logistic::value overflowed to infinity for large
 negative margins

An infinite objective made Anderson acceleration compare inf with inf.
---
 src/datafits/single_task/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/datafits/single_task/mod.rs b/src/datafits/single_task/mod.rs
index d319480..2c7288a 100644
--- a/src/datafits/single_task/mod.rs
+++ b/src/datafits/single_task/mod.rs
@@ -1,5 +1,3 @@
-use std::f64::consts::E;
-
 use ndarray::{s, Array1, ArrayBase, ArrayView1, Axis, Data, Ix2};
 
 use super::Float;
@@ -218,7 +216,11 @@ impl<F: Float, D: Data<Elem = F>, T: AsSingleTargets<Elem = F>> Datafit<F, Array
         let y = dataset.targets().try_single_target().unwrap();
         Xw.iter()
             .zip(y)
-            .map(|(&xw_i, &y_i)| F::log(F::one() + F::exp(-xw_i * y_i), F::cast(E)))
+            .map(|(&xw_i, &y_i)| {
+                // log(1 + exp(z)), without overflow for large z
+                let z = -xw_i * y_i;
+                F::max(z, F::zero()) + num_traits::Float::ln_1p(F::exp(-num_traits::Float::abs(z)))
+            })
             .sum::<F>()
             / F::cast(y.len())
     }
@@ -284,7 +286,11 @@ impl<F: Float, T: AsSingleTargets<Elem = F>> Datafit<F, CSCArray<'_, F>, T> for
         let y = dataset.targets().try_single_target().unwrap();
         Xw.iter()
             .zip(y)
-            .map(|(&xw_i, &y_i)| F::log(F::one() + F::exp(-xw_i * y_i), F::cast(E)))
+            .map(|(&xw_i, &y_i)| {
+                // log(1 + exp(z)), without overflow for large z
+                let z = -xw_i * y_i;
+                F::max(z, F::zero()) + num_traits::Float::ln_1p(F::exp(-num_traits::Float::abs(z)))
+            })
             .sum::<F>()
             / F::cast(y.len())
     }
-- 
2.43.0


From d85167ec02b1bdcb01289f4c7fe716322075937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:55 +0000
Subject: [PATCH 10/16] fix: predict raised on every fitted estimator
 (ambiguous truth value of coef_)

---
 python/sparseglm/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index ade3d82..11c6a6e 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -44,7 +44,7 @@ class Estimator(BaseEstimator):
 
     def predict(self, X):
         """Predicts the test set."""
-        if not self.coef_:
+        if self.coef_ is None:
             raise Exception("Estimator must be fitted before inference.")
         return X @ self.coef_.T
 
-- 
2.43.0


From ff696f5adb0b43bde46d0e526c8b32a98afa79f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:55 +0000
Subject: [PATCH 11/16] fix: validate gamma and l1_ratio instead of alpha in
 the Python estimators

MCP regressors rejected every alpha < 1, elastic nets every alpha > 1, and
neither checked the hyperparameter named in the error message.
---
 python/sparseglm/estimators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 11c6a6e..9091cb3 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -269,7 +269,7 @@ class MCPRegressor(Estimator):
             use_accel=use_accel, verbose=verbose)
         if not isinstance(alpha, float) or alpha < 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
-        elif not isinstance(gamma, float) or alpha < 1:
+        elif not isinstance(gamma, float) or gamma < 1:
             raise ValueError("gamma={} must be a float greater than \
                               1".format(gamma))
         else:
@@ -358,7 +358,7 @@ class BlockMCPRegressor(Estimator):
             use_accel=use_accel, max_epochs=max_epochs)
         if not isinstance(alpha, float) or alpha < 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
-        elif not isinstance(gamma, float) or alpha < 1:
+        elif not isinstance(gamma, float) or gamma < 1:
             raise ValueError("gamma={} must be a float greater than \
                               1".format(gamma))
         else:
@@ -459,7 +459,7 @@ class ElasticNet(Estimator):
         else:
             self.alpha = alpha
 
-        if not isinstance(l1_ratio, float) or alpha < 0 or alpha > 1:
+        if not isinstance(l1_ratio, float) or l1_ratio < 0 or l1_ratio > 1:
             raise ValueError("l1_ratio={} must be between 0 and 1"
                              .format(l1_ratio))
         else:
@@ -547,7 +547,7 @@ class MultiTaskElasticNet(Estimator):
             raise ValueError("alpha={} must be a positive float".format(alpha))
         else:
             self.alpha = alpha
-        if not isinstance(l1_ratio, float) or alpha < 0 or alpha > 1:
+        if not isinstance(l1_ratio, float) or l1_ratio < 0 or l1_ratio > 1:
             raise ValueError("l1_ratio={} must be between 0 and 1"
                              .format(l1_ratio))
         else:
-- 
2.43.0


From 4a6c68d377e316d67d762704beb05ff75645560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:55 +0000
Subject: [PATCH 12/16] fix: convert single-precision inputs in the Python
 estimators

The extension only takes float64 arrays: float32 inputs raised a TypeError.
---
 python/sparseglm/estimators.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 9091cb3..1d6dd85 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -109,7 +109,7 @@ class Lasso(Estimator):
             Measurements.
         """
         self._validate_params()
-        X = check_array(X, 'csc', dtype=[np.float64, np.float32], order='F',
+        X = check_array(X, 'csc', dtype=np.float64, order='F',
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
@@ -189,7 +189,7 @@ class MultiTaskLasso(Estimator):
             Measurements.
         """
         self._validate_params()
-        check_X_params = dict(dtype=[np.float64, np.float32], order='F',
+        check_X_params = dict(dtype=np.float64, order='F',
                               accept_sparse='csc')
         check_Y_params = dict(ensure_2d=False, order='F')
         X, Y = self._validate_data(X, Y, validate_separately=(check_X_params,
@@ -288,7 +288,7 @@ class MCPRegressor(Estimator):
             Measurements.
         """
         self._validate_params()
-        X = check_array(X, 'csc', dtype=[np.float64, np.float32], order='F',
+        X = check_array(X, 'csc', dtype=np.float64, order='F',
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
@@ -377,7 +377,7 @@ class BlockMCPRegressor(Estimator):
             Measurements.
         """
         self._validate_params()
-        check_X_params = dict(dtype=[np.float64, np.float32], order='F',
+        check_X_params = dict(dtype=np.float64, order='F',
                               accept_sparse='csc')
         check_Y_params = dict(ensure_2d=False, order='F')
         X, Y = self._validate_data(X, Y, validate_separately=(check_X_params,
@@ -477,7 +477,7 @@ class ElasticNet(Estimator):
             Measurements.
         """
         self._validate_params()
-        X = check_array(X, 'csc', dtype=[np.float64, np.float32], order='F',
+        X = check_array(X, 'csc', dtype=np.float64, order='F',
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
@@ -566,7 +566,7 @@ class MultiTaskElasticNet(Estimator):
             Measurements.
         """
         self._validate_params()
-        check_X_params = dict(dtype=[np.float64, np.float32], order='F',
+        check_X_params = dict(dtype=np.float64, order='F',
                               accept_sparse='csc')
         check_Y_params = dict(ensure_2d=False, order='F')
         X, Y = self._validate_data(X, Y, validate_separately=(check_X_params,
-- 
2.43.0


From 00fd3857401599d90fabe8eb3849b397430fda34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:06 +0000
Subject: [PATCH 13/16] fix: raise ValueError instead of panicking on
 hyperparameters the estimators reject

E.g. Lasso(alpha=0.1, K=0).fit(X, y) raised a PanicException.
---
 python/src/block_mcp.rs              | 11 +++++++++--
 python/src/elastic_net.rs            | 11 +++++++++--
 python/src/lasso.rs                  | 11 +++++++++--
 python/src/mcp.rs                    | 11 +++++++++--
 python/src/mtl_lasso.rs              | 11 +++++++++--
 python/src/multi_task_elastic_net.rs | 11 +++++++++--
 6 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/python/src/block_mcp.rs b/python/src/block_mcp.rs
index 511868e..fb1acc4 100644
--- a/python/src/block_mcp.rs
+++ b/python/src/block_mcp.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -45,7 +46,10 @@ impl BlockMCPWrapper {
         y: &PyArray2<f64>,
     ) -> PyResult<&'py PyArray2<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -59,7 +63,10 @@ impl BlockMCPWrapper {
     ) -> PyResult<&'py PyArray2<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/elastic_net.rs b/python/src/elastic_net.rs
index be404f9..f21e0e7 100644
--- a/python/src/elastic_net.rs
+++ b/python/src/elastic_net.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -45,7 +46,10 @@ impl ElasticNetWrapper {
         y: &PyArray1<f64>,
     ) -> PyResult<&'py PyArray1<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -59,7 +63,10 @@ impl ElasticNetWrapper {
     ) -> PyResult<&'py PyArray1<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/lasso.rs b/python/src/lasso.rs
index c022cbe..41b44d1 100644
--- a/python/src/lasso.rs
+++ b/python/src/lasso.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -43,7 +44,10 @@ impl LassoWrapper {
         y: &PyArray1<f64>,
     ) -> PyResult<&'py PyArray1<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -57,7 +61,10 @@ impl LassoWrapper {
     ) -> PyResult<&'py PyArray1<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/mcp.rs b/python/src/mcp.rs
index 23a1bc6..960cfbc 100644
--- a/python/src/mcp.rs
+++ b/python/src/mcp.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -45,7 +46,10 @@ impl MCPWrapper {
         y: &PyArray1<f64>,
     ) -> PyResult<&'py PyArray1<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -59,7 +63,10 @@ impl MCPWrapper {
     ) -> PyResult<&'py PyArray1<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/mtl_lasso.rs b/python/src/mtl_lasso.rs
index 3aa75bf..1d4ce82 100644
--- a/python/src/mtl_lasso.rs
+++ b/python/src/mtl_lasso.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -43,7 +44,10 @@ impl MultiTaskLassoWrapper {
         y: &PyArray2<f64>,
     ) -> PyResult<&'py PyArray2<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -57,7 +61,10 @@ impl MultiTaskLassoWrapper {
     ) -> PyResult<&'py PyArray2<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/multi_task_elastic_net.rs b/python/src/multi_task_elastic_net.rs
index ef91cac..76824a5 100644
--- a/python/src/multi_task_elastic_net.rs
+++ b/python/src/multi_task_elastic_net.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -45,7 +46,10 @@ impl MultiTaskElasticNetWrapper {
         y: &PyArray2<f64>,
     ) -> PyResult<&'py PyArray2<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -59,7 +63,10 @@ impl MultiTaskElasticNetWrapper {
     ) -> PyResult<&'py PyArray2<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
-- 
2.43.0


From c9c77ad682dad1c113d45130940c13aedc2e72e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:06 +0000
Subject: [PATCH 14/16] fix: the L05 penalty could never leave the null vector

Its distance to the subdifferential is always 0, so the solver stopped before
its first iteration. As documented, rank features and stop on the violation of
the fixed point schema for this penalty.
---
 src/penalties/separable/mod.rs | 39 ++++++++++++++++++++++++++++++++++
 src/solvers/anderson_cd/mod.rs |  2 +-
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/penalties/separable/mod.rs b/src/penalties/separable/mod.rs
index e47c747..e288e89 100644
--- a/src/penalties/separable/mod.rs
+++ b/src/penalties/separable/mod.rs
@@ -31,6 +31,19 @@ pub trait Penalty<F: Float> {
         grad: ArrayView1<F>,
         ws: ArrayView1<usize>,
     ) -> (Array1<F>, F);
+
+    /// This method computes the violation of the optimality conditions for the
+    /// features in the working set. It defaults to the distance of the gradient to
+    /// the subdifferential of the penalty.
+    fn opt_violation(
+        &self,
+        w: ArrayView1<F>,
+        grad: ArrayView1<F>,
+        _lipschitz: ArrayView1<F>,
+        ws: ArrayView1<usize>,
+    ) -> (Array1<F>, F) {
+        self.subdiff_distance(w, grad, ws)
+    }
 }
 
 /// The L1 penalty
@@ -283,6 +296,32 @@ impl<F: Float> Penalty<F> for L05<F> {
     ) -> (Array1<F>, F) {
         (Array1::<F>::zeros(ws.len()), F::zero())
     }
+
+    /// Computes the violation of the fixed point iterate schema
+    ///
+    /// violation = |w[j] - prox(w[j] - grad / lipschitz[j], 1 / lipschitz[j])|
+    fn opt_violation(
+        &self,
+        w: ArrayView1<F>,
+        grad: ArrayView1<F>,
+        lipschitz: ArrayView1<F>,
+        ws: ArrayView1<usize>,
+    ) -> (Array1<F>, F) {
+        let violation = Array1::from_vec(
+            grad.iter()
+                .zip(ws)
+                .map(|(&grad_idx, &j)| match lipschitz[j] == F::zero() {
+                    true => F::zero(),
+                    false => {
+                        let step = F::one() / lipschitz[j];
+                        num_traits::Float::abs(w[j] - self.prox(w[j] - grad_idx * step, step))
+                    }
+                })
+                .collect(),
+        );
+        let max_violation = violation.fold(F::zero(), |max_val, &v| F::max(max_val, v));
+        (violation, max_violation)
+    }
 }
 
 // SCAD penalty
diff --git a/src/solvers/anderson_cd/mod.rs b/src/solvers/anderson_cd/mod.rs
index 8c31418..31ac66a 100644
--- a/src/solvers/anderson_cd/mod.rs
+++ b/src/solvers/anderson_cd/mod.rs
@@ -51,7 +51,7 @@ where
     P: Penalty<F>,
 {
     let grad_ws = construct_grad(dataset, Xw, ws, datafit);
-    let (kkt_ws, kkt_ws_max) = penalty.subdiff_distance(w, grad_ws.view(), ws);
+    let (kkt_ws, kkt_ws_max) = penalty.opt_violation(w, grad_ws.view(), datafit.step_size(), ws);
     (kkt_ws, kkt_ws_max)
 }
 
-- 
2.43.0


From 345953af3891cb35ee796bd265385373a3b1fa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:58:05 +0000
Subject: [PATCH 15/16] fix: add noise to single-task data generated with a
 one-dimensional w_true

---
 python/sparseglm/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/sparseglm/utils.py b/python/sparseglm/utils.py
index 851edaf..5e30156 100644
--- a/python/sparseglm/utils.py
+++ b/python/sparseglm/utils.py
@@ -95,6 +95,9 @@ def make_correlated_data(
         w_true = np.zeros((n_features, n_tasks))
         support = rng.choice(n_features, nnz, replace=False)
         w_true[support, :] = rng.randn(nnz, n_tasks)
+    elif np.ndim(w_true) == 1:
+        # One column per task, as the noise
+        w_true = np.asarray(w_true)[:, np.newaxis]
 
     Y = X @ w_true
     if snr != np.inf:
-- 
2.43.0


From bdecd27843139f18371dd7cdad8b18c521ff921e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:59:29 +0000
Subject: [PATCH 16/16] fix: check that design and target have as many samples
 in the single-task Python estimators

---
 python/sparseglm/estimators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 1d6dd85..7b9f729 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -4,7 +4,7 @@ import scipy.sparse as sp
 from . import _lib
 
 from sklearn.base import BaseEstimator
-from sklearn.utils import check_array
+from sklearn.utils import check_array, check_consistent_length
 
 
 __all__ = [
@@ -113,6 +113,7 @@ class Lasso(Estimator):
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
+        check_consistent_length(X, y)
 
         self._inner = _lib.LassoWrapper(
             alpha=self.alpha, max_iterations=self.max_iter, ws_start_size=self.p0,
@@ -292,6 +293,7 @@ class MCPRegressor(Estimator):
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
+        check_consistent_length(X, y)
 
         self._inner = _lib.MCPWrapper(
             alpha=self.alpha, gamma=self.gamma, max_iterations=self.max_iter,
@@ -481,6 +483,7 @@ class ElasticNet(Estimator):
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
+        check_consistent_length(X, y)
 
         self._inner = _lib.ElasticNetWrapper(
             alpha=self.alpha, l1_ratio=self.l1_ratio,
-- 
2.43.0

