From b3849bb1c3176b0481351bc62d8ccc679534b13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:52 +0000
Subject: [PATCH 01/54] fix: honour the global constraint in cdist_frechet

_cdist_frechet handed the constraint's name to the compiled distance, which
expects its code, so that named constraints were silently ignored.
---
 tslearn/metrics/_frechet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/_frechet.py b/tslearn/metrics/_frechet.py
index 5ccc2bf..53f8d41 100644
--- a/tslearn/metrics/_frechet.py
+++ b/tslearn/metrics/_frechet.py
@@ -798,7 +798,7 @@ def _cdist_frechet(
         verbose=verbose,
         be=be,
         compute_diagonal=False,
-        global_constraint=global_constraint,
+        global_constraint=GLOBAL_CONSTRAINT_CODE[global_constraint],
         sakoe_chiba_radius=sakoe_chiba_radius,
         itakura_max_slope=itakura_max_slope,
     )
-- 
2.43.0


From f55396acc6f86e71ffc24b685a590fd9e3a1f123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 02/54] fix: parallel cdist_soft_dtw_normalized with datasets
 of different lengths

The self-similarities were computed on the two datasets stacked together,
which fails whenever their padded lengths differ.
---
 tslearn/metrics/_soft_dtw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/_soft_dtw.py b/tslearn/metrics/_soft_dtw.py
index 7e42cb2..8aa90ba 100644
--- a/tslearn/metrics/_soft_dtw.py
+++ b/tslearn/metrics/_soft_dtw.py
@@ -1183,7 +1183,7 @@ def _cdist_soft_dtw_normalized(
 
             self_dists = Parallel(n_jobs=n_jobs, prefer="threads", verbose=verbose)(
                 delayed(soft_dtw_variable_lenght)(ts)
-                for ts in be.vstack((dataset1, dataset2))
+                for dataset in (dataset1, dataset2) for ts in dataset
             )
             self_dists_dataset1 = be.array(self_dists[:len(dataset1)]).reshape(-1, 1)
             self_dists_dataset2 = be.array(self_dists[len(dataset1):]).reshape(-1, 1)
-- 
2.43.0


From 940fee17cc811e74b13c9dd2a5c03815bb0e7e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 03/54] fix: DBA honours a global constraint given by name

metric_params={'global_constraint': 'sakoe_chiba', ...} was passed as is to
the compiled DTW, which expects a code, so that the constraint was ignored by
the DBA barycenters and by the centroids of TimeSeriesKMeans.
---
 tslearn/barycenters/dba.py   |  8 +++-----
 tslearn/barycenters/utils.py | 15 +++++++++++++++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index 9373503..52a736f 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -11,7 +11,7 @@ from sklearn.exceptions import ConvergenceWarning
 from sklearn.utils import check_random_state
 
 from tslearn.backend import instantiate_backend
-from tslearn.barycenters.utils import _set_weights
+from tslearn.barycenters.utils import _dtw_metric_params, _set_weights
 from tslearn.metrics._dtw import _njit_dtw_path
 from tslearn.utils import to_time_series_dataset, to_time_series
 from tslearn.utils.utils import _to_time_series
@@ -41,8 +41,7 @@ def _petitjean_assignment(
     backend = instantiate_backend("numpy")
     use_parallel = n_jobs not in [None, 1]
 
-    if metric_params is None:
-        metric_params = {}
+    metric_params = _dtw_metric_params(metric_params)
     n = X.shape[0]
     barycenter_size = barycenter.shape[0]
     assign = ([[] for _ in range(barycenter_size)],
@@ -273,8 +272,7 @@ def _mm_assignment(
     backend = instantiate_backend("numpy")
     use_parallel = n_jobs not in [None, 1]
 
-    if metric_params is None:
-        metric_params = {}
+    metric_params = _dtw_metric_params(metric_params)
     n = X.shape[0]
     cost = 0.
     list_p_k = []
diff --git a/tslearn/barycenters/utils.py b/tslearn/barycenters/utils.py
index b46cb11..606752d 100644
--- a/tslearn/barycenters/utils.py
+++ b/tslearn/barycenters/utils.py
@@ -1,5 +1,7 @@
 import numpy
 
+from tslearn.metrics._masks import GLOBAL_CONSTRAINT_CODE
+
 __author__ = 'Romain Tavenard romain.tavenard[at]univ-rennes2.fr'
 
 
@@ -11,3 +13,16 @@ def _set_weights(w, n):
     if w is None or len(w) != n:
         w = numpy.ones((n, ))
     return w
+
+
+def _dtw_metric_params(metric_params):
+    """Return a copy of the DTW parameters in which a global constraint given
+    by its name is replaced by the code expected by the compiled functions.
+    """
+    metric_params = {} if metric_params is None else dict(metric_params)
+    global_constraint = metric_params.get("global_constraint")
+    if global_constraint in GLOBAL_CONSTRAINT_CODE:
+        metric_params["global_constraint"] = GLOBAL_CONSTRAINT_CODE[
+            global_constraint
+        ]
+    return metric_params
-- 
2.43.0


From 45c4adae9715b2770da5e4b83ae633d0ed92a939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 04/54] fix: LCSS under a global constraint

Cells outside the constraint region must carry over the best score of their
neighbours instead of resetting it to zero, and the trace-back must move on
from such cells (lcss_path looped for ever) and must not use them
(lcss_path_from_metric returned matches outside the region).
---
 tslearn/metrics/dtw_variants.py | 72 +++++++++++++++++----------------
 1 file changed, 38 insertions(+), 34 deletions(-)

diff --git a/tslearn/metrics/dtw_variants.py b/tslearn/metrics/dtw_variants.py
index b2e363c..8da8161 100644
--- a/tslearn/metrics/dtw_variants.py
+++ b/tslearn/metrics/dtw_variants.py
@@ -974,10 +974,10 @@ def njit_lcss_accumulated_matrix(s1, s2, eps, mask):
             if mask[i - 1, j - 1]:
                 if numpy.sqrt(_njit_local_squared_dist(s1[i - 1], s2[j - 1])) <= eps:
                     acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
-                else:
-                    acc_cost_mat[i][j] = max(
-                        acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
-                    )
+                    continue
+            acc_cost_mat[i][j] = max(
+                acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
+            )
 
     return acc_cost_mat
 
@@ -1025,10 +1025,10 @@ def lcss_accumulated_matrix(s1, s2, eps, mask, be=None):
                     squared_dist = _local_squared_dist(s1[i - 1], s2[j - 1], be=be)
                 if be.sqrt(squared_dist) <= eps:
                     acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
-                else:
-                    acc_cost_mat[i][j] = max(
-                        acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
-                    )
+                    continue
+            acc_cost_mat[i][j] = max(
+                acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
+            )
 
     return acc_cost_mat
 
@@ -1245,14 +1245,15 @@ def _njit_return_lcss_path(s1, s2, eps, mask, acc_cost_mat, sz1, sz2):
     path = []
 
     while i > 0 and j > 0:
-        if numpy.isfinite(mask[i - 1, j - 1]):
+        if mask[i - 1, j - 1]:
             if numpy.sqrt(_njit_local_squared_dist(s1[i - 1], s2[j - 1])) <= eps:
                 path.append((i - 1, j - 1))
                 i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+                continue
+        if acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1305,10 +1306,11 @@ def _return_lcss_path(s1, s2, eps, mask, acc_cost_mat, sz1, sz2, be=None):
             if be.sqrt(squared_dist) <= eps:
                 path.append((i - 1, j - 1))
                 i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+                continue
+        if acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1345,14 +1347,15 @@ def _njit_return_lcss_path_from_dist_matrix(
     path = []
 
     while i > 0 and j > 0:
-        if numpy.isfinite(mask[i - 1, j - 1]):
+        if mask[i - 1, j - 1]:
             if dist_matrix[i - 1, j - 1] <= eps:
                 path.append((i - 1, j - 1))
                 i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+                continue
+        if acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1402,10 +1405,11 @@ def _return_lcss_path_from_dist_matrix(
             if dist_matrix[i - 1, j - 1] <= eps:
                 path.append((i - 1, j - 1))
                 i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+                continue
+        if acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1569,10 +1573,10 @@ def njit_lcss_accumulated_matrix_from_dist_matrix(dist_matrix, eps, mask):
             if mask[i - 1, j - 1]:
                 if dist_matrix[i - 1, j - 1] <= eps:
                     acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
-                else:
-                    acc_cost_mat[i][j] = max(
-                        acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
-                    )
+                    continue
+            acc_cost_mat[i][j] = max(
+                acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
+            )
 
     return acc_cost_mat
 
@@ -1612,10 +1616,10 @@ def lcss_accumulated_matrix_from_dist_matrix(dist_matrix, eps, mask, be=None):
             if mask[i - 1, j - 1]:
                 if dist_matrix[i - 1, j - 1] <= eps:
                     acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
-                else:
-                    acc_cost_mat[i][j] = max(
-                        acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
-                    )
+                    continue
+            acc_cost_mat[i][j] = max(
+                acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
+            )
 
     return acc_cost_mat
 
-- 
2.43.0


From 8915cf32e560a920f9927e836119b51a5f5809c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 05/54] fix: SoftDTWLossPyTorch keeps double precision

The accumulated costs went through torch.Tensor(), that is float32, whatever
the dtype of the inputs: for large costs relative to gamma the backward pass
returned visibly wrong gradients.
---
 tslearn/metrics/soft_dtw_loss_pytorch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tslearn/metrics/soft_dtw_loss_pytorch.py b/tslearn/metrics/soft_dtw_loss_pytorch.py
index 48ed077..84dabe8 100644
--- a/tslearn/metrics/soft_dtw_loss_pytorch.py
+++ b/tslearn/metrics/soft_dtw_loss_pytorch.py
@@ -91,7 +91,7 @@ else:
             D_ = D.detach().cpu().numpy()
             R_ = _njit_soft_dtw_batch(D_, gamma, mask)
             gamma_tensor = torch.Tensor([gamma]).to(dev).type(dtype)
-            R = torch.Tensor(R_).to(dev).type(dtype)
+            R = torch.from_numpy(R_).to(dev).type(dtype)
             ctx.save_for_backward(D, R,gamma_tensor)
             return R[:, -1, -1]
 
@@ -105,7 +105,7 @@ else:
             R_ = R.detach().cpu().numpy()
             gamma = gamma_tensor.item()
             E_ = _njit_soft_dtw_grad_batch(D_, R_, gamma)
-            E = torch.Tensor(E_).to(dev).type(dtype)
+            E = torch.from_numpy(E_).to(dev).type(dtype)
             return grad_output.reshape(-1).to(dtype=E.dtype).view(-1, 1, 1) * E, None, None, None, None
 
 
-- 
2.43.0


From 90e88690880bcb4eab95228ea83880715e3e7218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:05 +0000
Subject: [PATCH 06/54] fix: finite gradients of constrained soft-DTW with the
 PyTorch backend

Cells outside the constraint region went through logsumexp with only infinite
arguments, so that automatic differentiation returned NaN gradients.
---
 tslearn/metrics/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tslearn/metrics/utils.py b/tslearn/metrics/utils.py
index fe613de..fc351da 100644
--- a/tslearn/metrics/utils.py
+++ b/tslearn/metrics/utils.py
@@ -215,6 +215,11 @@ if torch is not None:
             i_idx = torch.arange(i_start, i_end, device=D.device)
             j_idx = k - i_idx
 
+            # Cells outside the mask stay infinite: they take no part in the
+            # graph, as their gradient would be undefined (inf - inf)
+            in_mask = mask[i_idx, j_idx]
+            i_idx, j_idx = i_idx[in_mask], j_idx[in_mask]
+
             # cum_sum indices: offset +1
             ci = i_idx + 1
             cj = j_idx + 1
-- 
2.43.0


From 129be1734a84dfe0da80b358375f4df9f48c5e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:44 +0000
Subject: [PATCH 07/54] fix: self-similarity normalized cross-correlation
 matrix of 3 or more series

---
 tslearn/metrics/cycc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cycc.py b/tslearn/metrics/cycc.py
index d2bc8b2..93be722 100644
--- a/tslearn/metrics/cycc.py
+++ b/tslearn/metrics/cycc.py
@@ -85,7 +85,7 @@ def cdist_normalized_cc(dataset1, dataset2, norms1, norms2, self_similarity):
                 dists[i, j] = normalized_cc(
                     dataset1[i], dataset2[j], norm1=norms1[i], norm2=norms2[j]
                 ).max()
-        dists += dists.T
+        dists = dists + dists.T
     else:
         for i in prange(n_ts1):
             for j in range(n_ts2):
-- 
2.43.0


From cf0e376d2ea0522663226879ba2ecab42a2527a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 08/54] fix: from_sktime_dataset selects series by position,
 not by index label

---
 tslearn/utils/cast.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tslearn/utils/cast.py b/tslearn/utils/cast.py
index 5d13b3b..6e4fd6c 100644
--- a/tslearn/utils/cast.py
+++ b/tslearn/utils/cast.py
@@ -394,15 +394,15 @@ def from_sktime_dataset(X):
     max_sz = -1
     for dim_name in ordered_data_dimensions:
         for i in range(n):
-            if X[dim_name][i].size > max_sz:
-                max_sz = X[dim_name][i].size
+            if X[dim_name].iloc[i].size > max_sz:
+                max_sz = X[dim_name].iloc[i].size
 
     tslearn_arr = numpy.empty((n, max_sz, d))
     tslearn_arr[:] = numpy.nan
     for di in range(d):
         for i in range(n):
-            sz = X["dim_%d" % di][i].size
-            tslearn_arr[i, :sz, di] = X["dim_%d" % di][i].values.copy()
+            sz = X["dim_%d" % di].iloc[i].size
+            tslearn_arr[i, :sz, di] = X["dim_%d" % di].iloc[i].values.copy()
     return tslearn_arr
 
 
-- 
2.43.0


From 5aebc022a873e33ae1fb9121ea34cfe3a53e8c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 09/54] fix: from_tsfresh_dataset keeps series in order and
 samples sorted by time

---
 tslearn/utils/cast.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tslearn/utils/cast.py b/tslearn/utils/cast.py
index 6e4fd6c..6a9eccf 100644
--- a/tslearn/utils/cast.py
+++ b/tslearn/utils/cast.py
@@ -632,8 +632,10 @@ def from_tsfresh_dataset(X):
                        for col_name in X.columns
                        if col_name not in ["id", "time"]]
     d = len(data_dimensions)
-    all_ids = set(X["id"])
+    all_ids = X["id"].unique()  # in order of appearance
     n = len(all_ids)
+    if "time" in X.columns:
+        X = X.sort_values("time", kind="stable")
 
     max_sz = -1
     for ind_id in all_ids:
-- 
2.43.0


From 1de4c7ab7d3b6960c45a637b718217fd4b08fe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 10/54] fix: to_time_series_dataset rejects series of different
 dimensionalities instead of broadcasting them

---
 tslearn/utils/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tslearn/utils/utils.py b/tslearn/utils/utils.py
index fbb8f50..48b08c9 100644
--- a/tslearn/utils/utils.py
+++ b/tslearn/utils/utils.py
@@ -282,6 +282,11 @@ def to_time_series_dataset(dataset, dtype=float, be=None):
     dataset_out = be.full((n_ts, max_sz, d), be.nan, dtype=dtype)
     for i in range(n_ts):
         ts = to_time_series(dataset[i], remove_nans=True, be=be, dtype=dtype)
+        if ts.shape[0] > 0 and ts.shape[1] != d:
+            raise ValueError(
+                "All time series of a dataset should have the same number of features: "
+                "{} and {} found".format(d, ts.shape[1])
+            )
         dataset_out[i, : ts.shape[0]] = ts
     return dataset_out
 
-- 
2.43.0


From c4ae6fe38a331ed2f1501cae875f538c8a45c1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 11/54] fix: to_time_series_dataset honours dtype for data
 frames

---
 tslearn/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tslearn/utils/utils.py b/tslearn/utils/utils.py
index 48b08c9..162bd38 100644
--- a/tslearn/utils/utils.py
+++ b/tslearn/utils/utils.py
@@ -265,11 +265,11 @@ def to_time_series_dataset(dataset, dtype=float, be=None):
         import pandas as pd
 
         if isinstance(dataset, pd.DataFrame):
-            return to_time_series_dataset(be.array(dataset), be=be)
+            return to_time_series_dataset(be.array(dataset), dtype=dtype, be=be)
     except ImportError:
         pass
     if isinstance(dataset, NotAnArray):  # Patch to pass sklearn tests
-        return to_time_series_dataset(be.array(dataset), be=be)
+        return to_time_series_dataset(be.array(dataset), dtype=dtype, be=be)
     if len(dataset) == 0:
         return be.zeros((0, 0, 0))
     if be.ndim(be.array(dataset[0])) == 0:
-- 
2.43.0


From 8fe0bfc79e94fba98c17025781b43bd063c1bda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 12/54] fix: nearest neighbors searches no longer alter the
 estimator, nor mix up successive fits

The metric hyper-parameter was overwritten by 'precomputed' during fit and
predictions (lost on error, visible to other threads), the metric and SAX
model of a previous fit were reused by later ones, SAX queries were refit on
their own data (and training data not transformed at all by the regressor),
and neighbors of the indexed points were wrong.
---
 tslearn/neighbors/neighbors.py | 241 ++++++++++++++-------------------
 1 file changed, 100 insertions(+), 141 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 7f50628..0b291c7 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy
 
 from scipy.spatial.distance import cdist as scipy_cdist
@@ -28,19 +30,6 @@ from tslearn.utils import (
 class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
     """Mixin for k-neighbors searches on Time Series."""
 
-    def _sax_preprocess(self, X, n_segments=10, alphabet_size_avg=4,
-                        scale=False):
-        # Now SAX-transform the time series
-        if not hasattr(self, '_sax') or self._sax is None:
-            self._sax = SymbolicAggregateApproximation(
-                n_segments=n_segments,
-                alphabet_size_avg=alphabet_size_avg,
-                scale=scale
-            )
-        X_sax = self._sax.fit_transform(X)
-
-        return X_sax
-
     def _get_metric_params(self):
         if self.metric_params is None:
             metric_params = {}
@@ -55,49 +44,64 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
             del metric_params["verbose"]
         return metric_params
 
+    def _fit_sax(self, X):
+        sax_params = {"n_segments": 10, "alphabet_size_avg": 4}
+        sax_params.update(self._get_metric_params())
+        return SymbolicAggregateApproximation(**sax_params).fit(X)
+
     def _precompute_cross_dist(self, X, other_X=None):
         if other_X is None:
             other_X = self._ts_fit
 
-        self._ts_metric = self.metric
-        self.metric = "precomputed"
-
         metric_params = self._get_metric_params()
 
         X = check_array(X, allow_nd=True, force_all_finite=False)
         X = to_time_series_dataset(X)
 
-        if self._ts_metric == "dtw":
+        if self.metric == "dtw":
             X_ = _cdist_dtw(
                 X,
                 other_X,
                 n_jobs=self.n_jobs,
+                verbose=self.verbose,
                 **metric_params)
-        elif self._ts_metric == "ctw":
+        elif self.metric == "ctw":
             X_ = _cdist_ctw(X, other_X, **metric_params)
-        elif self._ts_metric == "softdtw":
+        elif self.metric == "softdtw":
             X_ = _cdist_soft_dtw(X, other_X, **metric_params)
-        elif self._ts_metric == "sax":
-            X = self._sax_preprocess(X, **metric_params)
+        elif self.metric == "sax":
+            sax = getattr(self, "_sax", None)
+            if sax is None:  # e.g. for a model loaded from disk
+                sax = self._fit_sax(self._ts_fit)
             X_ = _cdist_sax(
-                X,
-                self._sax.breakpoints_avg_,
-                self._sax._X_fit_dims_[1],
-                other_X,
+                sax.transform(X),
+                sax.breakpoints_avg_,
+                sax._X_fit_dims_[1],
+                sax.transform(other_X),
                 n_jobs=self.n_jobs)
-        elif self._ts_metric == "frechet":
+        elif self.metric == "frechet":
             X_ = _cdist_frechet(
                 X,
                 other_X,
                 n_jobs=self.n_jobs,
+                verbose=self.verbose,
                 **metric_params
             )
         else:
             raise ValueError("Invalid metric recorded: %s" %
-                             self._ts_metric)
+                             self.metric)
 
         return X_
 
+    def _precomputed_copy(self):
+        """Shallow copy to be fed with precomputed distances.
+
+        The estimator itself is left untouched, hence can be used from
+        several threads, and stays valid whatever happens next."""
+        precomputed = copy.copy(self)
+        precomputed.metric = "precomputed"
+        return precomputed
+
     def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
         """Finds the K-neighbors of a point.
 
@@ -123,64 +127,59 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         ind : array
             Indices of the nearest points in the population matrix.
         """
-        self_neighbors = False
+        self_neighbors = X is None
         if n_neighbors is None:
             n_neighbors = self.n_neighbors
-        if X is None:
-            X = self._X_fit
-            self_neighbors = True
         if self.metric == "precomputed":
-            full_dist_matrix = X
-        else:
-
+            full_dist_matrix = self._X_fit if self_neighbors else X
+        elif self.metric in TSLEARN_VALID_METRICS:
+            check_is_fitted(self, '_ts_fit')
+            if self_neighbors:
+                X = self._ts_fit
+            X = check_array(X, allow_nd=True, force_all_finite=False)
             if X.ndim == 2:  # sklearn-format case
                 X = X.reshape((X.shape[0], -1, self._d))
-                fit_X = self._X_fit.reshape((self._X_fit.shape[0],
-                                             -1,
-                                             self._d))
-            elif hasattr(self, '_ts_fit') and self._ts_fit is not None:
-                fit_X = self._ts_fit
-            else:
-                fit_X = self._X_fit
-
-            if self.metric in TSLEARN_VALID_METRICS:
-                full_dist_matrix = self._precompute_cross_dist(X,
-                                                               other_X=fit_X)
-            elif self.metric in ["euclidean", "sqeuclidean", "cityblock"]:
-                full_dist_matrix = scipy_cdist(X.reshape((X.shape[0], -1)),
-                                               fit_X.reshape((fit_X.shape[0],
-                                                              -1)),
-                                               metric=self.metric)
-            else:
-                raise ValueError("Unrecognized time series metric string: %s "
-                                 "(should be one of 'dtw', 'softdtw', "
-                                 "'frechet', 'sax', 'euclidean', 'sqeuclidean'"
-                                 " or 'cityblock')" % self.metric)
+            X = check_dims(X, X_fit_dims=self._ts_fit.shape, extend=True,
+                           check_n_features_only=True)
+            full_dist_matrix = self._precompute_cross_dist(X)
+        elif self.metric in ["euclidean", "sqeuclidean", "cityblock"]:
+            check_is_fitted(self, '_X_fit')
+            if self_neighbors:
+                X = self._X_fit
+            X = check_array(X, allow_nd=True)
+            full_dist_matrix = scipy_cdist(
+                X.reshape((X.shape[0], -1)),
+                self._X_fit.reshape((self._X_fit.shape[0], -1)),
+                metric=self.metric)
+        else:
+            raise ValueError("Unrecognized time series metric string: %s "
+                             "(should be one of 'dtw', 'softdtw', "
+                             "'frechet', 'sax', 'euclidean', 'sqeuclidean'"
+                             " or 'cityblock')" % self.metric)
+
+        n_candidates = full_dist_matrix.shape[1]
+        if self_neighbors:
+            # A series is not one of its own neighbors
+            full_dist_matrix = full_dist_matrix.copy()
+            numpy.fill_diagonal(full_dist_matrix, numpy.inf)
+            n_candidates -= 1
+        n_neighbors = min(n_neighbors, n_candidates)
 
         # Code similar to sklearn (sklearn/neighbors/base.py), to make sure
         # that TimeSeriesKNeighbor~(metric='euclidean') has the same results as
         # feeding a distance matrix to sklearn.KNeighbors~(metric='euclidean')
-        kbin = min(n_neighbors - 1, full_dist_matrix.shape[1] - 1)
+        kbin = max(n_neighbors - 1, 0)
         # argpartition will make sure the first `kbin` entries are the
         # `kbin` smallest ones (but in arbitrary order) --> complexity: O(n)
         ind = numpy.argpartition(full_dist_matrix, kbin, axis=1)
-
-        if self_neighbors:
-            ind = ind[:, 1:]
-        if n_neighbors > full_dist_matrix.shape[1]:
-            n_neighbors = full_dist_matrix.shape[1]
         ind = ind[:, :n_neighbors]
 
-        n_ts = X.shape[0]
-        sample_range = numpy.arange(n_ts)[:, None]
+        sample_range = numpy.arange(full_dist_matrix.shape[0])[:, None]
         # Sort the `kbin` nearest neighbors according to distance
         ind = ind[
             sample_range, numpy.argsort(full_dist_matrix[sample_range, ind])]
         dist = full_dist_matrix[sample_range, ind]
 
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
-
         if return_distance:
             return dist, ind
         else:
@@ -221,16 +220,14 @@ def _predict_generic(caller, X, predict_func):
         X = check_dims(X, X_fit_dims=caller._ts_fit.shape, extend=True,
                         check_n_features_only=True)
         X_ = caller._precompute_cross_dist(X)
-        pred = predict_func(X_)
-        caller.metric = caller._ts_metric
-        return pred
+        return predict_func(caller._precomputed_copy(), X_)
     else:
         check_is_fitted(caller, '_X_fit')
         X = check_array(X, allow_nd=True)
         X = to_time_series_dataset(X)
         X_ = to_sklearn_dataset(X)
         X_ = check_dims(X_, X_fit_dims=caller._X_fit.shape, extend=False)
-        return predict_func(X_)
+        return predict_func(caller, X_)
 
 
 class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
@@ -327,25 +324,24 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         X : array-like, shape (n_ts, sz, d)
             Training data.
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
+        is_ts_metric = self.metric in TSLEARN_VALID_METRICS
 
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=not is_ts_metric)
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
-            self._ts_fit = X
+        self._ts_fit = X
+        self._sax = self._fit_sax(X) if self.metric == "sax" else None
+        if is_ts_metric:
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
         else:
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
+        with self._patch_attribute(
+                "metric", "precomputed" if is_ts_metric else self.metric):
+            super().fit(self._X_fit, y)
         return self
 
     def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
@@ -374,44 +370,16 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
             Indices of the nearest points in the population matrix.
         """
         if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
-
-            metric_params = self._get_metric_params()
             check_is_fitted(self, '_ts_fit')
-            X = check_array(X, allow_nd=True, force_all_finite=False)
-            X = check_dims(X, X_fit_dims=self._ts_fit.shape, extend=True,
-                           check_n_features_only=True)
-            if self._ts_metric == "dtw":
-                X_ = _cdist_dtw(
-                    X,
-                    self._ts_fit,
-                    n_jobs=self.n_jobs,
-                    verbose=self.verbose,
-                    **metric_params
-                )
-            elif self._ts_metric == "ctw":
-                X_ = _cdist_ctw(X, self._ts_fit, **metric_params)
-            elif self._ts_metric == "softdtw":
-                X_ = _cdist_soft_dtw(X, self._ts_fit, **metric_params)
-            elif self._ts_metric == "frechet":
-                X_ = _cdist_frechet(
-                    X,
-                    self._ts_fit,
-                    n_jobs=self.n_jobs,
-                    verbose=self.verbose,
-                    **metric_params
-                )
-            else:
-                raise ValueError("Invalid metric recorded: %s" %
-                                 self._ts_metric)
-            pred = KNeighborsTimeSeriesMixin.kneighbors(
+            if X is not None:
+                X = check_array(X, allow_nd=True, force_all_finite=False)
+                X = check_dims(X, X_fit_dims=self._ts_fit.shape, extend=True,
+                               check_n_features_only=True)
+            return KNeighborsTimeSeriesMixin.kneighbors(
                 self,
-                X=X_,
+                X=X,
                 n_neighbors=n_neighbors,
                 return_distance=return_distance)
-            self.metric = self._ts_metric
-            return pred
         else:
             check_is_fitted(self, '_X_fit')
             if X is None:
@@ -551,33 +519,25 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         KNeighborsTimeSeriesClassifier
             The fitted estimator
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
+        is_ts_metric = self.metric in TSLEARN_VALID_METRICS
 
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=not is_ts_metric)
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
-            self._ts_fit = X
-            if self._ts_metric == 'sax':
-                if self.metric_params is not None:
-                    self._ts_fit = self._sax_preprocess(X,
-                                                        **self.metric_params)
-                else:
-                    self._ts_fit = self._sax_preprocess(X)
-
+        self._ts_fit = X
+        self._sax = self._fit_sax(X) if self.metric == "sax" else None
+        if is_ts_metric:
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
         else:
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
+        with self._patch_attribute(
+                "metric", "precomputed" if is_ts_metric else self.metric):
+            super().fit(self._X_fit, y)
         self.n_features_in_ = self._d
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
         return self
 
     def predict(self, X):
@@ -593,7 +553,7 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         array, shape = (n_ts, )
             Array of predicted class labels
         """
-        return _predict_generic(self, X, super().predict)
+        return _predict_generic(self, X, KNeighborsClassifier.predict)
 
     def predict_proba(self, X):
         """Predict the class probabilities for the provided data
@@ -608,7 +568,7 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         array, shape = (n_ts, n_classes)
             Array of predicted class probabilities
         """
-        return _predict_generic(self, X, super().predict_proba)
+        return _predict_generic(self, X, KNeighborsClassifier.predict_proba)
 
 
 class KNeighborsTimeSeriesRegressor(KNeighborsTimeSeriesMixin,
@@ -712,26 +672,25 @@ class KNeighborsTimeSeriesRegressor(KNeighborsTimeSeriesMixin,
         KNeighborsTimeSeriesRegressor
             The fitted estimator
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
+        is_ts_metric = self.metric in TSLEARN_VALID_METRICS
 
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=not is_ts_metric)
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
-            self._ts_fit = X
+        self._ts_fit = X
+        self._sax = self._fit_sax(X) if self.metric == "sax" else None
+        if is_ts_metric:
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
         else:
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
+        with self._patch_attribute(
+                "metric", "precomputed" if is_ts_metric else self.metric):
+            super().fit(self._X_fit, y)
         self.n_features_in_ = self._d
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
         return self
 
     def predict(self, X):
@@ -747,4 +706,4 @@ class KNeighborsTimeSeriesRegressor(KNeighborsTimeSeriesMixin,
         array, shape = (n_ts, ) or (n_ts, dim_y)
             Array of predicted targets
         """
-        return _predict_generic(self, X, super().predict)
+        return _predict_generic(self, X, KNeighborsRegressor.predict)
-- 
2.43.0


From 9cc68dced7cf5753c72f9d9015d5faa4d50d216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:53 +0000
Subject: [PATCH 13/54] fix: KernelKMeans leaves kernel_params untouched and
 recomputes its bandwidth at each fit

---
 tslearn/clustering/kmeans.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tslearn/clustering/kmeans.py b/tslearn/clustering/kmeans.py
index e9097e4..07a0d5d 100644
--- a/tslearn/clustering/kmeans.py
+++ b/tslearn/clustering/kmeans.py
@@ -258,9 +258,9 @@ class KernelKMeans(TimeSeriesMixin, ClusterMixin, BaseEstimator, BaseModelPackag
         if self.kernel_params is None:
             kernel_params = {}
         else:
-            kernel_params = self.kernel_params
+            kernel_params = self.kernel_params.copy()
         if self.kernel == "gak":
-            if hasattr(self, "sigma_gak_"):
+            if getattr(self, "sigma_gak_", None) is not None:
                 kernel_params["sigma"] = self.sigma_gak_
         return kernel_params
 
@@ -275,7 +275,7 @@ class KernelKMeans(TimeSeriesMixin, ClusterMixin, BaseEstimator, BaseModelPackag
                 raise RuntimeError(
                     "The{} `sigma` parameter is close to 0 and "
                     "cannot be used with gak kernel."
-                    .format(" auto computed" if self.kernel_params.get("sigma") == "auto" else ""))
+                    .format(" auto computed" if (self.kernel_params or {}).get("sigma") == "auto" else ""))
 
         else:
             X_sklearn = to_sklearn_dataset(X)
@@ -341,13 +341,13 @@ class KernelKMeans(TimeSeriesMixin, ClusterMixin, BaseEstimator, BaseModelPackag
         rs = check_random_state(self.random_state)
 
         max_attempts = max(self.n_init, 10)
+        # Forget the bandwidth of any previous fit
+        self.sigma_gak_ = None
         kernel_params = self._get_kernel_params()
         if self.kernel == "gak":
             self.sigma_gak_ = kernel_params.get("sigma", 1.0)
             if self.sigma_gak_ == "auto":
                 self.sigma_gak_ = sigma_gak(X, random_state=rs)
-        else:
-            self.sigma_gak_ = None
 
         self.labels_ = None
         self.inertia_ = None
-- 
2.43.0


From 7694181e615b940f3139bc6161d7d72a6295734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 14/54] fix: LearningShapelets refit no longer depends on the
 dimensions of previous fits

---
 tslearn/shapelets/shapelets.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tslearn/shapelets/shapelets.py b/tslearn/shapelets/shapelets.py
index acbdc25..f73b830 100644
--- a/tslearn/shapelets/shapelets.py
+++ b/tslearn/shapelets/shapelets.py
@@ -496,9 +496,9 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
                           FutureWarning)
 
         X, y = check_X_y(X, y, allow_nd=True, force_all_finite=False)
-        X = self._preprocess_series(X)
+        X = self._preprocess_series(X, fitting=True)
         X = check_dims(X)
-        self._check_series_length(X)
+        self._check_series_length(X, fitting=True)
 
         y_ = self._preprocess_labels(y)
         n_labels = len(self.classes_)
@@ -667,7 +667,7 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
         )
         return locations.astype(int)
 
-    def _check_series_length(self, X):
+    def _check_series_length(self, X, fitting=False):
         """Ensures that time series in X matches the following requirements:
 
         - their length is greater than the size of the longest shapelet
@@ -688,7 +688,7 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
 
         max_size = self.max_size
         if max_size is None:
-            max_size = self._X_fit_dims[1] if hasattr(self, '_X_fit_dims') else X.shape[1]
+            max_size = X.shape[1] if fitting else self._X_fit_dims[1]
 
         if X.shape[1] > max_size:
             raise ValueError("Sizes in X do not match maximum allowed "
@@ -698,7 +698,7 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
                              "length {} and maximum allowed size is "
                              "{}".format(X.shape[1], max_size))
 
-    def _preprocess_series(self, X):
+    def _preprocess_series(self, X, fitting=False):
         """Scale if needed, pad with nans if needed."""
         if self.scale:
             X = TimeSeriesScalerMinMax().fit_transform(X)
@@ -707,7 +707,7 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
 
         max_size = self.max_size
         if max_size is None:
-            max_size = self._X_fit_dims[1] if hasattr(self, '_X_fit_dims') else X.shape[1]
+            max_size = X.shape[1] if fitting else self._X_fit_dims[1]
 
         if max_size > X.shape[1]:
             X_ = numpy.zeros((X.shape[0], max_size, X.shape[2]))
-- 
2.43.0


From 0dd2a927a1bbc05dcb3a36e3c1bc13cc2dfd0e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 15/54] fix: concurrent predictions of MLP models no longer
 disturb each other

---
 tslearn/neural_network/neural_network.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/tslearn/neural_network/neural_network.py b/tslearn/neural_network/neural_network.py
index f57849c..90cf653 100644
--- a/tslearn/neural_network/neural_network.py
+++ b/tslearn/neural_network/neural_network.py
@@ -1,3 +1,5 @@
+import copy
+
 from sklearn.neural_network import MLPClassifier, MLPRegressor
 from sklearn.utils.validation import check_is_fitted
 
@@ -106,8 +108,10 @@ class TimeSeriesMLPClassifier(TimeSeriesMixin, MLPClassifier):
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
         X_ = check_dims(X_, self._X_fit_dims, extend=True)
         X_ = X_.reshape((X_.shape[0], -1))
-        with self._patch_attribute("n_features_in_", X_.shape[1]):
-            return super().predict(X_)
+        # Work on a copy, since several threads might share the estimator
+        estimator = copy.copy(self)
+        estimator.n_features_in_ = X_.shape[1]
+        return MLPClassifier.predict(estimator, X_)
 
     def predict_proba(self, X):
         """Predict the class probabilities for the provided data
@@ -126,8 +130,10 @@ class TimeSeriesMLPClassifier(TimeSeriesMixin, MLPClassifier):
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
         X_ = check_dims(X_, self._X_fit_dims, extend=True)
         X_ = X_.reshape((X_.shape[0], -1))
-        with self._patch_attribute("n_features_in_", X_.shape[1]):
-            return super().predict_proba(X_)
+        # Work on a copy, since several threads might share the estimator
+        estimator = copy.copy(self)
+        estimator.n_features_in_ = X_.shape[1]
+        return MLPClassifier.predict_proba(estimator, X_)
 
 
 class TimeSeriesMLPRegressor(TimeSeriesMixin, MLPRegressor):
@@ -226,5 +232,7 @@ class TimeSeriesMLPRegressor(TimeSeriesMixin, MLPRegressor):
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
         X_ = check_dims(X_, self._X_fit_dims, extend=True)
         X_ = X_.reshape((X_.shape[0], -1))
-        with self._patch_attribute("n_features_in_", X_.shape[1]):
-            return super().predict(X_)
+        # Work on a copy, since several threads might share the estimator
+        estimator = copy.copy(self)
+        estimator.n_features_in_ = X_.shape[1]
+        return MLPRegressor.predict(estimator, X_)
-- 
2.43.0


From a653b892588729a68a52722688ef28f25e523477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:55 +0000
Subject: [PATCH 16/54] fix: k-NN classification with the cityblock metric

---
 tslearn/neighbors/neighbors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 0b291c7..7c97390 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -227,6 +227,9 @@ def _predict_generic(caller, X, predict_func):
         X = to_time_series_dataset(X)
         X_ = to_sklearn_dataset(X)
         X_ = check_dims(X_, X_fit_dims=caller._X_fit.shape, extend=False)
+        if caller.metric in ["euclidean", "sqeuclidean", "cityblock"]:
+            X_ = scipy_cdist(X_, caller._X_fit, metric=caller.metric)
+            caller = caller._precomputed_copy()
         return predict_func(caller, X_)
 
 
-- 
2.43.0


From 56bf868bc9c7fed36aa051af39967f4cc7cbb232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:36 +0000
Subject: [PATCH 17/54] fix: saving and loading models keeps all fitted state
 in every format

- nested None, strings, booleans, lists, empty dicts and non-ASCII labels in HDF5
- NumPy scalars and arrays nested in dicts and lists in JSON
- k-NN regressors can be saved; k-NN models keep their fitted attributes
- MatrixProfile, VARIMA and AutoVARIMA can be used after loading
---
 tslearn/bases/bases.py                   | 18 +++++----
 tslearn/forecasting/_arima.py            | 51 ++++++++++++++++++++++++
 tslearn/hdftools/hdftools.py             | 37 ++++++++++++++---
 tslearn/matrix_profile/matrix_profile.py |  5 +++
 tslearn/neighbors/neighbors.py           | 42 ++++++-------------
 5 files changed, 110 insertions(+), 43 deletions(-)

diff --git a/tslearn/bases/bases.py b/tslearn/bases/bases.py
index 760dedc..cda545c 100644
--- a/tslearn/bases/bases.py
+++ b/tslearn/bases/bases.py
@@ -153,15 +153,17 @@ class BaseModelPackage(object):
         Convert all numpy arrays in model-parameters to lists.
         Used for json support
         """
+        def listify(param):
+            if isinstance(param, (np.ndarray, np.generic)):
+                return param.tolist()
+            if isinstance(param, dict):
+                return {k: listify(v) for k, v in param.items()}
+            if isinstance(param, (list, tuple)):
+                return [listify(p) for p in param]
+            return param
+
         for k in model_params.keys():
-            param = model_params[k]
-
-            if isinstance(param, np.ndarray):
-                model_params[k] = param.tolist()  # for json support
-            elif isinstance(param, list) and isinstance(param[0], np.ndarray):
-                model_params[k] = [p.tolist() for p in param]  # json support
-            else:
-                model_params[k] = param
+            model_params[k] = listify(model_params[k])
         return model_params
 
     @staticmethod
diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 8299f11..d19ded0 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -179,6 +179,38 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
     def _seasonal_period(self):
         return self.seasonal_period or 0
 
+    def _is_fitted(self):
+        check_is_fitted(self, "lle_")
+        return True
+
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        for attr in [
+            "_min_samples", "_ts_sizes", "_last_residuals", "_last_timestamps"
+        ]:
+            params[attr] = getattr(self, attr)
+        return params
+
+    @staticmethod
+    def _organize_model(cls, model):
+        inst = BaseModelPackage._organize_model(cls, model)
+        # Some formats lose the shape of empty arrays
+        d = inst.n_features_in_
+        for attr, shape in [
+            ("intercept_", (-1,)),
+            ("ar_coeffs_", (inst.p, d, d)),
+            ("ma_coeffs_", (inst.q, d, d)),
+            ("_last_residuals", (inst.n_ts_, inst.q, d)),
+            ("_last_timestamps", (inst.n_ts_, -1, d)),
+        ]:
+            array = np.asarray(getattr(inst, attr), dtype=float)
+            if -1 not in shape or array.size > 0:
+                array = array.reshape(shape)
+            else:
+                array = np.empty([max(size, 0) for size in shape])
+            setattr(inst, attr, array)
+        return inst
+
     def fit(self, X, y=None):
         """Fits a VARIMA model.
 
@@ -532,6 +564,25 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
     def _seasonal_period(self):
         return self.seasonal_period or 0
 
+    def _is_fitted(self):
+        check_is_fitted(self, "best_estimator_")
+        return True
+
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        params["best_estimator_"] = self.best_estimator_._to_dict()
+        for attr in ["_min_samples", "_ts_sizes"]:
+            params[attr] = getattr(self, attr)
+        return params
+
+    @staticmethod
+    def _organize_model(cls, model):
+        inst = BaseModelPackage._organize_model(cls, model)
+        inst.best_estimator_ = VARIMA._organize_model(
+            VARIMA, inst.best_estimator_
+        )
+        return inst
+
     def fit(self, X, y=None):
         """Selects the best Vector Autoregressive Moving Average (VARIMA) model
         through Hyndman-Khandakar algorithm for the given data.
diff --git a/tslearn/hdftools/hdftools.py b/tslearn/hdftools/hdftools.py
index 16239fe..9df6923 100644
--- a/tslearn/hdftools/hdftools.py
+++ b/tslearn/hdftools/hdftools.py
@@ -82,12 +82,23 @@ def _dicts_to_group(h5file, path, d, raise_meta_fail):
                 # h5file[path + key].attrs['dtype'] = item.dtype.str
 
         # single pieces of data
-        elif isinstance(item, (str, int, np.int8,
-                               np.int16, np.int32, np.int64, float,
-                               np.float16, np.float32, np.float64)):
+        elif isinstance(item, (str, int, float, np.number, np.bool_)):
             h5file[path + key] = item
 
+        elif item is None:
+            h5file[path + key] = h5py.Empty('f')
+
+        elif isinstance(item, (list, tuple)):
+            group = h5file.create_group(path + key)
+            group.attrs['sequence'] = type(item).__name__
+            _dicts_to_group(
+                h5file, "{}{}/".format(path, key),
+                {str(i): value for i, value in enumerate(item)},
+                raise_meta_fail
+            )
+
         elif isinstance(item, dict):
+            h5file.create_group(path + key)  # so as to keep empty ones
             _dicts_to_group(
                 h5file, "{}{}/".format(path, key), item, raise_meta_fail
             )
@@ -142,9 +153,25 @@ def _dicts_from_group(h5file, path):
     for key, item in h5file[path].items():
         if isinstance(item, h5py._hl.dataset.Dataset):
             if item.attrs.__contains__('dtype'):
-                ans[key] = item[()].astype(item.attrs['dtype'])
+                ans[key] = item.asstr()[()].astype(item.attrs['dtype'])
             else:
-                ans[key] = item[()]
+                ans[key] = _to_python(item[()])
         elif isinstance(item, h5py._hl.group.Group):
             ans[key] = _dicts_from_group(h5file, path + key + '/')
+            if 'sequence' in item.attrs:
+                sequence = [ans[key][str(i)] for i in range(len(ans[key]))]
+                if item.attrs['sequence'] == 'tuple':
+                    sequence = tuple(sequence)
+                ans[key] = sequence
     return ans
+
+
+def _to_python(value):
+    """Scalars as they were before being saved"""
+    if isinstance(value, h5py.Empty):
+        return None
+    if isinstance(value, bytes):
+        return value.decode('utf-8')
+    if isinstance(value, np.generic):
+        return value.item()
+    return value
diff --git a/tslearn/matrix_profile/matrix_profile.py b/tslearn/matrix_profile/matrix_profile.py
index b2ce67a..df9c47d 100644
--- a/tslearn/matrix_profile/matrix_profile.py
+++ b/tslearn/matrix_profile/matrix_profile.py
@@ -130,6 +130,11 @@ class MatrixProfile(TimeSeriesMixin,
         check_is_fitted(self, '_X_fit_dims')
         return True
 
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        params['_X_fit_dims'] = self._X_fit_dims
+        return params
+
     def _fit(self, X, y=None):
         self._X_fit_dims = X.shape
         self.n_features_in_ = X.shape[-1]
diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 7c97390..3d05321 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -30,6 +30,18 @@ from tslearn.utils import (
 class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
     """Mixin for k-neighbors searches on Time Series."""
 
+    def _is_fitted(self):
+        check_is_fitted(self, '_ts_fit')
+        return True
+
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        for attr in ['_X_fit', '_ts_fit', '_d', '_y',
+                     '_fit_X', '_fit_method']:
+            if hasattr(self, attr):
+                params[attr] = getattr(self, attr)
+        return params
+
     def _get_metric_params(self):
         if self.metric_params is None:
             metric_params = {}
@@ -305,20 +317,6 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         self.n_jobs = n_jobs
         self.verbose = verbose
 
-    def _is_fitted(self):
-        if self.metric in TSLEARN_VALID_METRICS:
-            check_is_fitted(self, '_ts_fit')
-        else:
-            check_is_fitted(self, '_X_fit')
-
-        return True
-
-    def _get_model_params(self):
-        if self.metric in TSLEARN_VALID_METRICS:
-            return {'_ts_fit': self._ts_fit}
-        else:
-            return {'_X_fit': self._X_fit}
-
     def fit(self, X, y=None):
         """Fit the model using X as training data
 
@@ -491,22 +489,6 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         self.n_jobs = n_jobs
         self.verbose = verbose
 
-    def _is_fitted(self):
-        check_is_fitted(self, '_ts_fit')
-        return True
-
-    def _get_model_params(self):
-        return {
-            '_X_fit': self._X_fit,
-            '_ts_fit': self._ts_fit,
-            '_d': self._d,
-            'classes_': self.classes_,
-            '_y': self._y,
-            'outputs_2d_': self.outputs_2d_,
-            '_fit_X': self._fit_X,
-            '_fit_method': self._fit_method
-        }
-
     def fit(self, X, y):
         """Fit the model using X as training data and y as target values
 
-- 
2.43.0


From c9274af7e4ff85682532f6b427ed8584a815af6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 18/54] fix: PyTorch distances, envelopes and subsequence costs
 in full precision

---
 tslearn/backend/pytorch_backend.py | 16 ++++++++++------
 tslearn/metrics/dtw_variants.py    |  6 +++---
 tslearn/metrics/utils.py           |  4 +++-
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/tslearn/backend/pytorch_backend.py b/tslearn/backend/pytorch_backend.py
index aaded82..dd7a314 100755
--- a/tslearn/backend/pytorch_backend.py
+++ b/tslearn/backend/pytorch_backend.py
@@ -33,6 +33,7 @@ if not HAS_TORCH:
             )
 
 else:
+    _EXACT_CDIST = "donot_use_mm_for_euclid_dist"
 
     class PyTorchBackend(object):
         """Class for the PyTorch  backend."""
@@ -78,7 +79,7 @@ else:
             self.median = _torch.median
             self.min = _torch.min
             self.nan = _torch.nan
-            self.pairwise_euclidean_distances = _torch.cdist
+            self.pairwise_euclidean_distances = self.cdist
             self.reshape = _torch.reshape
             self.round = _torch.round
             self.sum = _torch.sum
@@ -133,10 +134,11 @@ else:
 
         @staticmethod
         def cdist(x, y, metric="euclidean", p=None):
+            # Matrix multiplications are avoided, as they lose precision
             if metric == "euclidean":
-                return _torch.cdist(x, y)
+                return _torch.cdist(x, y, compute_mode=_EXACT_CDIST)
             if metric == "sqeuclidean":
-                return _torch.cdist(x, y) ** 2
+                return _torch.cdist(x, y, compute_mode=_EXACT_CDIST) ** 2
             if metric == "minkowski":
                 return _torch.cdist(x, y, p=p)
             raise ValueError(f"Metric {metric} not implemented in PyTorch backend.")
@@ -178,11 +180,13 @@ else:
             if Y is None:
                 Y = X
             if metric == "euclidean":
-                return _torch.cdist(X, Y)
+                return _torch.cdist(X, Y, compute_mode=_EXACT_CDIST)
             if metric == "sqeuclidean":
-                return _torch.cdist(X, Y) ** 2
+                return _torch.cdist(X, Y, compute_mode=_EXACT_CDIST) ** 2
             if callable(metric):
-                distance_matrix = _torch.zeros(X.shape[0], Y.shape[0])
+                distance_matrix = _torch.zeros(
+                    X.shape[0], Y.shape[0], dtype=X.dtype, device=X.device
+                )
                 for i in range(X.shape[0]):
                     for j in range(Y.shape[0]):
                         distance_matrix[i, j] = metric(X[i, ...], Y[j, ...])
diff --git a/tslearn/metrics/dtw_variants.py b/tslearn/metrics/dtw_variants.py
index 8da8161..35d8ade 100644
--- a/tslearn/metrics/dtw_variants.py
+++ b/tslearn/metrics/dtw_variants.py
@@ -458,7 +458,7 @@ def _subsequence_cost_matrix(subseq, longseq, be=None):
     longseq = be.array(longseq)
     l1 = subseq.shape[0]
     l2 = longseq.shape[0]
-    cum_sum = be.full((l1 + 1, l2 + 1), be.inf)
+    cum_sum = be.full((l1 + 1, l2 + 1), be.inf, dtype=subseq.dtype)
     cum_sum[0, :] = 0.0
 
     for i in range(l1):
@@ -865,8 +865,8 @@ def _lb_envelope(time_series, radius, be=None):
     be = instantiate_backend(be, time_series)
     time_series = be.array(time_series)
     sz, d = be.shape(time_series)
-    envelope_up = be.empty((sz, d))
-    envelope_down = be.empty((sz, d))
+    envelope_up = be.empty((sz, d), dtype=time_series.dtype)
+    envelope_down = be.empty((sz, d), dtype=time_series.dtype)
 
     for i in range(sz):
         min_idx = i - radius
diff --git a/tslearn/metrics/utils.py b/tslearn/metrics/utils.py
index fc351da..bbae03f 100644
--- a/tslearn/metrics/utils.py
+++ b/tslearn/metrics/utils.py
@@ -194,7 +194,9 @@ if torch is not None:
     def _torch_accumulated_matrix(s1, s2, mask, acc_fun, **acc_kwargs):
 
         # Distance matrix
-        D = torch.square(torch.cdist(s1, s2))  # (l1, l2)
+        D = torch.square(
+            torch.cdist(s1, s2, compute_mode="donot_use_mm_for_euclid_dist")
+        )  # (l1, l2)
         return _torch_acc_matrix_from_dist_matrix(D, mask, acc_fun, **acc_kwargs)
 
     def _torch_acc_matrix_from_dist_matrix(D, mask, acc_fun, **acc_kwargs):
-- 
2.43.0


From 3701af9186692ed8620ada9b017a0255fb90d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 19/54] fix: sigma_gak on the PyTorch backend takes the same
 median as NumPy

---
 tslearn/backend/pytorch_backend.py | 8 +++++++-
 tslearn/metrics/_gak.py            | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/tslearn/backend/pytorch_backend.py b/tslearn/backend/pytorch_backend.py
index dd7a314..cbd3b6d 100755
--- a/tslearn/backend/pytorch_backend.py
+++ b/tslearn/backend/pytorch_backend.py
@@ -76,7 +76,6 @@ else:
             self.log = _torch.log
             self.max = _torch.max
             self.mean = _torch.mean
-            self.median = _torch.median
             self.min = _torch.min
             self.nan = _torch.nan
             self.pairwise_euclidean_distances = self.cdist
@@ -171,6 +170,13 @@ else:
         def is_float64(x):
             return isinstance(x, _torch.float64)
 
+        @staticmethod
+        def median(x):
+            # Unlike torch.median, average the two middle values if need be
+            values = _torch.sort(x.flatten()).values
+            n = len(values)
+            return _torch.mean(values[(n - 1) // 2 : n // 2 + 1])
+
         @staticmethod
         def ndim(x):
             return x.dim()
diff --git a/tslearn/metrics/_gak.py b/tslearn/metrics/_gak.py
index 42d0584..adcd72e 100644
--- a/tslearn/metrics/_gak.py
+++ b/tslearn/metrics/_gak.py
@@ -93,7 +93,7 @@ def _sigma_gak(dataset, n_samples=100, random_state=None, be=None):
         dataset[sample_indices],
         metric="euclidean",
     )
-    return be.median(dists) * be.sqrt(sz)
+    return be.median(dists) * math.sqrt(sz)
 
 
 def gak(s1, s2, sigma=1.0, be=None):
-- 
2.43.0


From 6eb9ed6086c22424a9caba7cb37414b8c006cedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 20/54] fix: SoftDTW takes its backend from the distances it is
 given

---
 tslearn/metrics/softdtw_variants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tslearn/metrics/softdtw_variants.py b/tslearn/metrics/softdtw_variants.py
index bfb8496..98fc760 100644
--- a/tslearn/metrics/softdtw_variants.py
+++ b/tslearn/metrics/softdtw_variants.py
@@ -675,13 +675,13 @@ class SoftDTW:
         self.R_: array-like, shape =(m + 2, n + 2)
             Accumulated cost matrix (stored after calling `compute`).
         """
-        be = instantiate_backend(be, D)
-        self.be = be
         self.compute_with_backend = compute_with_backend
         if hasattr(D, "compute"):
             self.D = D.compute()
         else:
             self.D = D
+        be = instantiate_backend(be, self.D)
+        self.be = be
         self.D = self.be.cast(self.D, dtype=self.be.float64)
 
         # Allocate memory.
-- 
2.43.0


From a2b6574f29b6160f1104ccad89a27699f99adac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 21/54] fix: TimeSeriesKMeans reports the inertia of the
 returned centroids

---
 tslearn/clustering/kmeans.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/clustering/kmeans.py b/tslearn/clustering/kmeans.py
index 07a0d5d..3757828 100644
--- a/tslearn/clustering/kmeans.py
+++ b/tslearn/clustering/kmeans.py
@@ -702,6 +702,8 @@ class TimeSeriesKMeans(
             if numpy.abs(old_inertia - self.inertia_) < self.tol:
                 break
             old_inertia = self.inertia_
+        # Labels and inertia of the final centroids
+        self._assign(X)
         if self.verbose:
             print("")
 
-- 
2.43.0


From 3ffc0b5247b7081f03e1a5ee8ba942af1962a3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 22/54] fix: max_iter_barycenter applies to DTW barycenters of
 TimeSeriesKMeans

---
 tslearn/clustering/kmeans.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tslearn/clustering/kmeans.py b/tslearn/clustering/kmeans.py
index 3757828..c8d0345 100644
--- a/tslearn/clustering/kmeans.py
+++ b/tslearn/clustering/kmeans.py
@@ -766,6 +766,7 @@ class TimeSeriesKMeans(
                     X=X[self.labels_ == k],
                     barycenter_size=None,
                     init_barycenter=self.cluster_centers_[k],
+                    max_iter=self.max_iter_barycenter,
                     metric_params=metric_params,
                     verbose=False,
                     n_jobs=self.n_jobs
-- 
2.43.0


From a0ca79b76edaafb6d0fb0d4e9c73070f9df0d534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 23/54] fix: KShape uses the norms of the series and centroids
 being compared

Queries were paired with the norms of the training series (read out of
bounds for more queries than training series), and restored centroids
with the norms of the discarded ones.
---
 tslearn/clustering/kshape.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tslearn/clustering/kshape.py b/tslearn/clustering/kshape.py
index 1f457a5..87b51b7 100644
--- a/tslearn/clustering/kshape.py
+++ b/tslearn/clustering/kshape.py
@@ -151,10 +151,13 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
                                                   axis=(1, 2))
 
     def _cross_dists(self, X):
-        return 1. - cdist_normalized_cc(X, self.cluster_centers_,
-                                        norms1=self.norms_,
-                                        norms2=self.norms_centroids_,
-                                        self_similarity=False)
+        # The norms must be those of the series at hand: neither the training
+        # set nor the centroids of another iteration may be involved here
+        return 1. - cdist_normalized_cc(
+            X, self.cluster_centers_,
+            norms1=numpy.linalg.norm(X, axis=(1, 2)),
+            norms2=numpy.linalg.norm(self.cluster_centers_, axis=(1, 2)),
+            self_similarity=False)
 
     def _assign(self, X):
         dists = self._cross_dists(X)
@@ -250,9 +253,9 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
             except EmptyClusterError:
                 if self.verbose:
                     print("Resumed because of empty cluster")
+        self._post_fit(X_, best_correct_centroids, min_inertia)
         self.norms_centroids_ = numpy.linalg.norm(self.cluster_centers_,
                                                   axis=(1, 2))
-        self._post_fit(X_, best_correct_centroids, min_inertia)
         return self
 
     def fit_predict(self, X, y=None):
-- 
2.43.0


From e8d1ae47787acf9fe3cdc95438ce3a2f1e444a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 24/54] fix: silhouette_score passes metric parameters to
 callable metrics

---
 tslearn/clustering/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tslearn/clustering/utils.py b/tslearn/clustering/utils.py
index a37e3d9..c036470 100644
--- a/tslearn/clustering/utils.py
+++ b/tslearn/clustering/utils.py
@@ -205,14 +205,14 @@ def silhouette_score(X, labels, metric=None, sample_size=None,
                                 backend=be),
                 _to_time_series(y.reshape(sz, d),
                                 remove_nans=True,
-                                backend=be)
+                                backend=be),
+                **metric_params_
             )
     return sklearn_silhouette(X=sklearn_X,
                               labels=labels,
                               metric=sklearn_metric,
                               sample_size=sample_size,
-                              random_state=random_state,
-                              **kwds)
+                              random_state=random_state)
 
 
 def _check_initial_guess(init, n_clusters):
-- 
2.43.0


From 68ec017efce6230f359d789fb9dcca3046c557cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 25/54] fix: trailing NaNs of an initial barycenter do not
 count in its size

---
 tslearn/barycenters/dba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index 52a736f..0e9a9ac 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -203,12 +203,12 @@ def dtw_barycenter_averaging_petitjean(
     if init_barycenter is None:
         barycenter = _init_avg(X_, barycenter_size)
     else:
-        barycenter_size = init_barycenter.shape[0]
         barycenter = to_time_series(
             init_barycenter,
             remove_nans=True,
             be=backend
         )
+        barycenter_size = barycenter.shape[0]
     cost_prev, cost = numpy.inf, numpy.inf
     for it in range(max_iter):
         assign, cost = _petitjean_assignment(X_, barycenter, weights, metric_params, n_jobs)
@@ -710,12 +710,12 @@ def dtw_barycenter_averaging_one_init(
     if init_barycenter is None:
         barycenter = _init_avg(X_, barycenter_size)
     else:
-        barycenter_size = init_barycenter.shape[0]
         barycenter = to_time_series(
             init_barycenter,
             remove_nans=True,
             be=backend
         )
+        barycenter_size = barycenter.shape[0]
     cost_prev, cost = numpy.inf, numpy.inf
     for it in range(max_iter):
         list_p_k, cost = _mm_assignment(
-- 
2.43.0


From 7e6ab2c41d9f9a1dd7da235801d444d5d103b96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 26/54] fix: weights and early stopping of the subgradient DTW
 barycenter

Weights cancelled out (a zero weight gave NaNs), and early stopping
compared the costs of single, different series instead of epochs.
---
 tslearn/barycenters/dba.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index 0e9a9ac..50ee2c6 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -860,22 +860,26 @@ def dtw_barycenter_averaging_subgradient(
     cost_prev, cost = numpy.inf, numpy.inf
     eta = initial_step_size
     n = X_.shape[0]
+    unit_weight = numpy.ones((1, ))
     for it in range(max_iter):
+        cost = 0.
         shuffled_indices = rng.permutation(n)
         for idx in shuffled_indices:
             Xi = X_[idx:idx+1]
             wi = weights[idx:idx+1]
-            list_p_k, cost = _mm_assignment(Xi, barycenter, weights,
-                                            metric_params)
+            list_p_k, cost_i = _mm_assignment(Xi, barycenter, unit_weight,
+                                              metric_params)
+            cost += wi[0] * cost_i / weights.sum()
             list_diag_v_k, list_w_k = _subgradient_valence_warping(
                 list_p_k,
                 barycenter_size,
                 wi
             )
             if verbose:
-                print("[DBA] epoch %d, cost: %.3f" % (it + 1, cost))
+                print("[DBA] epoch %d, cost: %.3f" % (it + 1, cost_i))
             barycenter = _subgradient_update_barycenter(Xi, list_diag_v_k,
-                                                        list_w_k, wi.sum(),
+                                                        list_w_k,
+                                                        weights.mean(),
                                                         barycenter, eta)
             if it == 0:
                 eta -= (initial_step_size - final_step_size) / n
-- 
2.43.0


From 65860be555eae1093eb482ea6ba86ae0e4b5f741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:11 +0000
Subject: [PATCH 27/54] fix: report the cost of the returned DTW barycenter

---
 tslearn/barycenters/dba.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index 50ee2c6..f8d3b09 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -738,6 +738,8 @@ def dtw_barycenter_averaging_one_init(
             break
         else:
             cost_prev = cost
+    # Cost of the barycenter that is returned
+    _, cost = _mm_assignment(X_, barycenter, weights, metric_params, n_jobs)
     return barycenter, cost
 
 
-- 
2.43.0


From 1b352c611156338e8903f38c268075abffebd6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:25 +0000
Subject: [PATCH 28/54] fix: mean-variance scaling of constant series in the
 presence of rounding errors

---
 tslearn/preprocessing/preprocessing.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tslearn/preprocessing/preprocessing.py b/tslearn/preprocessing/preprocessing.py
index 647da0b..77f5237 100644
--- a/tslearn/preprocessing/preprocessing.py
+++ b/tslearn/preprocessing/preprocessing.py
@@ -361,7 +361,13 @@ class TimeSeriesScalerMeanVariance(TimeSeriesMixin, TransformerMixin, BaseEstima
 
         mean_ = numpy.nanmean(X, axis=axis, keepdims=True)
         std_ = numpy.nanstd(X, axis=axis, keepdims=True)
-        std_[std_ == 0.] = 1.
+        # The standard deviation of constant data may differ from 0 because of
+        # rounding errors in the mean
+        constant = (
+            numpy.nanmin(X, axis=axis, keepdims=True, initial=numpy.inf)
+            == numpy.nanmax(X, axis=axis, keepdims=True, initial=-numpy.inf)
+        )
+        std_[constant | (std_ == 0.)] = 1.
 
         return mean_, std_
 
-- 
2.43.0


From 7ae67e291c5750515ddec13612e08176a1393237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 29/54] fix: linear imputation leaves features without any
 value unchanged

---
 tslearn/preprocessing/preprocessing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/preprocessing/preprocessing.py b/tslearn/preprocessing/preprocessing.py
index 77f5237..ef81ffc 100644
--- a/tslearn/preprocessing/preprocessing.py
+++ b/tslearn/preprocessing/preprocessing.py
@@ -538,6 +538,8 @@ class TimeSeriesImputer(TimeSeriesMixin, TransformerMixin, BaseEstimator):
         for di in range(ts.shape[-1]):
             ts_di = ts[:, di]
             mask = numpy.isnan(ts_di)
+            if mask.all():
+                continue
             ts_di[mask] = numpy.interp(
                 numpy.nonzero(mask)[0],
                 numpy.nonzero(~mask)[0],
-- 
2.43.0


From 301e4304f4e01c909e6789442fade337071c82d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 30/54] fix: 1d-SAX scales the data once

---
 tslearn/piecewise/piecewise.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tslearn/piecewise/piecewise.py b/tslearn/piecewise/piecewise.py
index 32faea6..d2bb543 100644
--- a/tslearn/piecewise/piecewise.py
+++ b/tslearn/piecewise/piecewise.py
@@ -687,15 +687,14 @@ class OneD_SymbolicAggregateApproximation(SymbolicAggregateApproximation):
         return X_slopes
 
     def _transform(self, X, y=None):
-        X = self._scale(X)
         n_ts, sz_raw, d = X.shape
         X_1d_sax = numpy.empty((n_ts, self.n_segments, 2 * d), dtype=int)
 
-        # Average
+        # Average (scaling is done there)
         X_1d_sax_avg = SymbolicAggregateApproximation._transform(self, X)
 
         # Slope
-        X_slopes = self._get_slopes(X)
+        X_slopes = self._get_slopes(self._scale(X))
         X_1d_sax_slope = _paa_to_symbols(X_slopes, self.breakpoints_slope_)
 
         X_1d_sax[:, :, :d] = X_1d_sax_avg
-- 
2.43.0


From a0297b5b3a737c1a64cab3ccaea98b6dfb34e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:48 +0000
Subject: [PATCH 31/54] fix: 1d-SAX distance measures segments around their
 middle, as reconstructions do

---
 tslearn/metrics/cysax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cysax.py b/tslearn/metrics/cysax.py
index 1f703a6..dde20a2 100644
--- a/tslearn/metrics/cysax.py
+++ b/tslearn/metrics/cysax.py
@@ -171,7 +171,7 @@ def cydist_1d_sax(
 
     for t in prange(sz):
         t0 = t * seg_sz
-        t_middle = float(t0) + 0.5 * seg_sz
+        t_middle = float(t0) + 0.5 * (seg_sz - 1)
         for di in range(d):
             avg1 = breakpoints_avg_middle_[sax1[t, di]]
             avg2 = breakpoints_avg_middle_[sax2[t, di]]
-- 
2.43.0


From 14a5940bcb04a6e50adcdfe369f0daccdeecb1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:48 +0000
Subject: [PATCH 32/54] fix: 1d-SAX reconstruction left samples after the last
 segment uninitialised

---
 tslearn/metrics/cysax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cysax.py b/tslearn/metrics/cysax.py
index dde20a2..859bf2f 100644
--- a/tslearn/metrics/cysax.py
+++ b/tslearn/metrics/cysax.py
@@ -209,7 +209,7 @@ def inv_transform_1d_sax(
     n_ts, sz, d_1d_sax = dataset_sax.shape
     d = d_1d_sax // 2
     seg_sz = original_size // sz
-    dataset_out = np.empty((n_ts, original_size, d))
+    dataset_out = np.zeros((n_ts, original_size, d))
 
     for i in prange(n_ts):
         for t in range(sz):
-- 
2.43.0


From 0a1215942fedd01366829486861c6e3f1cc2afc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 33/54] fix: SAX scaling of constant series in the presence of
 rounding errors

---
 tslearn/piecewise/piecewise.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tslearn/piecewise/piecewise.py b/tslearn/piecewise/piecewise.py
index d2bb543..18c56f3 100644
--- a/tslearn/piecewise/piecewise.py
+++ b/tslearn/piecewise/piecewise.py
@@ -361,7 +361,11 @@ class SymbolicAggregateApproximation(PiecewiseAggregateApproximation):
             reshaped_X = X.reshape((-1, d))
             self.mu_ = numpy.nanmean(reshaped_X, axis=0)
             self.std_ = numpy.nanstd(reshaped_X, axis=0)
-            self.std_[self.std_ == 0.] = 1.
+            # The standard deviation of constant data may differ from 0 because
+            # of rounding errors in the mean
+            constant = (numpy.nanmin(reshaped_X, axis=0)
+                        == numpy.nanmax(reshaped_X, axis=0))
+            self.std_[constant | (self.std_ == 0.)] = 1.
 
         return super()._fit(X, y)
 
-- 
2.43.0


From fbda827e04ad5dbb3680279aae669b54cf0e8e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:39 +0000
Subject: [PATCH 34/54] fix: cluster probabilities of a series that coincides
 with all cluster centers

---
 tslearn/early_classification/early_classification.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tslearn/early_classification/early_classification.py b/tslearn/early_classification/early_classification.py
index ec031fd..98d23e9 100644
--- a/tslearn/early_classification/early_classification.py
+++ b/tslearn/early_classification/early_classification.py
@@ -279,6 +279,10 @@ class NonMyopicEarlyClassifier(TimeSeriesMixin, ClassifierMixin, BaseEstimator):
         diffs = Xi[np.newaxis, :] - self.cluster_.cluster_centers_[:, :len(Xi)]
         distances_clusters = np.linalg.norm(diffs, axis=(1, 2))
         average_distance = np.mean(distances_clusters)
+        if average_distance == 0.:
+            # All cluster centers coincide with the series so far
+            average_distance = 1.
+            distances_clusters = np.ones_like(distances_clusters)
         delta_k = 1. - distances_clusters / average_distance
         s_k = 1. / (1. + np.exp(-self.lamb * delta_k))
         return s_k / s_k.sum()
-- 
2.43.0


From e261107a5d918107dd5ac95cb447f08cea406ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:39 +0000
Subject: [PATCH 35/54] fix: early classification confusion matrices are
 conditioned on the true class

---
 tslearn/early_classification/early_classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/early_classification/early_classification.py b/tslearn/early_classification/early_classification.py
index 98d23e9..7c2e216 100644
--- a/tslearn/early_classification/early_classification.py
+++ b/tslearn/early_classification/early_classification.py
@@ -200,7 +200,7 @@ class NonMyopicEarlyClassifier(TimeSeriesMixin, ClassifierMixin, BaseEstimator):
                                                    labels=label_set)
                     # normalize parameter seems to be quite recent in sklearn,
                     # so let's do it ourselves
-                    normalizer = conf_matrix.sum(axis=0, keepdims=True)
+                    normalizer = conf_matrix.sum(axis=1, keepdims=True)
                     normalizer[normalizer == 0] = 1  # Avoid divide by 0
                     conf_matrix = conf_matrix / normalizer
 
-- 
2.43.0


From fcdd6e012ca8564d6ef7621aa2dbe98e096ec4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 36/54] fix: order of the residuals in the moving average part
 of VARIMA forecasts

---
 tslearn/forecasting/_arima.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index d19ded0..1265f00 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -100,8 +100,9 @@ def _varma_next(X, residuals, ar_coeffs, ma_coeffs, intercept):
     for k in range(ar_coeffs.shape[0]):
         ar_forecast += np.dot(X[:, n_samples - k - 1], ar_coeffs[k])
     ma_forecast = np.zeros((n_ts, n_features_in))
+    n_residuals = residuals.shape[1]
     for k in range(ma_coeffs.shape[0]):
-        ma_forecast += np.dot(residuals[:, k], ma_coeffs[k])
+        ma_forecast += np.dot(residuals[:, n_residuals - k - 1], ma_coeffs[k])
 
     intercept = np.zeros(n_features_in) if intercept.shape[0] == 0 else intercept
 
-- 
2.43.0


From e3a7eede3e43fdba4db44ea8b39a9e4e15ab6b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 37/54] fix: least-squares estimates of multivariate VAR models
 were transposed

---
 tslearn/forecasting/_arima.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 1265f00..1da74ce 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -329,7 +329,7 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
         ma_start_params = compute_var(self.q, residuals)[1]
 
         return np.concatenate(
-            (constant_params, ar_start_params.T.ravel(), ma_start_params.T.ravel())
+            (constant_params, ar_start_params.ravel(), ma_start_params.ravel())
         )
 
     def _unravel_params(self, params, n_features_in=None):
-- 
2.43.0


From a87b8b5922541eca6e92bc84a94e686097ab711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 38/54] fix: integration of VARIMA forecasts for differencing
 orders above one

---
 tslearn/forecasting/_arima.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 1da74ce..229b9a1 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -372,14 +372,16 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
         return _loss(X, intercept, ar_coeffs, ma_coeffs)
 
     def _undifference(self, initial_values, prediction):
-        _ = np.array(
+        # The d-th order difference of x at t is the sum of
+        # (-1)^j * binom(d, j) * x_{t-j} for j from 0 to d.
+        # Initial values are ordered from the oldest one to the latest one.
+        coeffs = np.array(
             [
-                (-(1 ** (j + 1))) * scipy.special.binom(j + 1, self.d)
-                for j in range(self.d)
+                (-1) ** j * scipy.special.binom(self.d, j)
+                for j in range(self.d, 0, -1)
             ]
         )
-        res = prediction - np.dot(_, initial_values[:, -self.d :])
-        return res
+        return prediction - np.dot(coeffs, initial_values[:, -self.d :])
 
     def predict(self, X=None, n=1):
         """Forecasts n timestamps of the given data if any, otherwise forecasts n timestamps
-- 
2.43.0


From 343ee56bb7c067af40456a4960557582998c6d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 39/54] fix: residuals of variable-length series in
 VARIMA.predict

---
 tslearn/forecasting/_arima.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 229b9a1..3997b51 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -420,7 +420,7 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
             check_dims(X_, (0, 0, self.n_features_in_), check_n_features_only=True)
 
             # Retrieve last residuals and last timestamps needed to compute estimate
-            last_timestamps = self._get_last_timestamps(X_, ts_sizes)
+            last_timestamps = self._get_last_timestamps(X_.copy(), ts_sizes)
             seasonal_differrenced_X = self._seasonal_differencing(X_)
             differenced_X = np.diff(seasonal_differrenced_X, n=self.d, axis=1)
             last_residuals = self._loss(differenced_X)[1]
-- 
2.43.0


From d84bba3d83d48c1ef51cabb5590a3ef96aff8daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 40/54] fix: MatrixProfile ignored scale=False with the stumpy
 implementations

---
 tslearn/matrix_profile/matrix_profile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tslearn/matrix_profile/matrix_profile.py b/tslearn/matrix_profile/matrix_profile.py
index df9c47d..ef079ff 100644
--- a/tslearn/matrix_profile/matrix_profile.py
+++ b/tslearn/matrix_profile/matrix_profile.py
@@ -175,7 +175,8 @@ class MatrixProfile(TimeSeriesMixin,
             for i_ts in range(n_ts):
                 result = stumpy.stump(
                     T_A=X[i_ts, :, 0].ravel(),
-                    m=self.subsequence_length)
+                    m=self.subsequence_length,
+                    normalize=self.scale)
                 X_transformed[i_ts, :, 0] = result[:, 0].astype(float)
 
         elif self.implementation == "gpu_stump":
@@ -185,7 +186,8 @@ class MatrixProfile(TimeSeriesMixin,
             for i_ts in range(n_ts):
                 result = stumpy.gpu_stump(
                     T_A=X[i_ts, :, 0].ravel(),
-                    m=self.subsequence_length)
+                    m=self.subsequence_length,
+                    normalize=self.scale)
                 X_transformed[i_ts, :, 0] = result[:, 0].astype(float)
 
         elif self.implementation == "numpy":
-- 
2.43.0


From fbb88199f03bdb17ff2ad5ba2f604e44e7ed2416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 41/54] fix: numpy matrix profile of padded series

---
 tslearn/matrix_profile/matrix_profile.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tslearn/matrix_profile/matrix_profile.py b/tslearn/matrix_profile/matrix_profile.py
index ef079ff..c0c7bf4 100644
--- a/tslearn/matrix_profile/matrix_profile.py
+++ b/tslearn/matrix_profile/matrix_profile.py
@@ -7,6 +7,7 @@ from sklearn.utils.validation import check_is_fitted
 from tslearn.bases import BaseModelPackage, TimeSeriesMixin
 from tslearn.preprocessing import TimeSeriesScalerMeanVariance
 from tslearn.utils import check_array, check_dims
+from tslearn.utils.utils import _ts_size
 
 stumpy_msg = ('stumpy is not installed, stumpy features will not be'
               'supported.\n Install stumpy to use stumpy features:'
@@ -194,7 +195,13 @@ class MatrixProfile(TimeSeriesMixin,
             scaler = TimeSeriesScalerMeanVariance()
             band_width = int(np.ceil(self.subsequence_length / 4))
             for i_ts in range(n_ts):
-                segments = _series_to_segments(X[i_ts], self.subsequence_length)
+                # As with stumpy, subsequences that include missing values (or
+                # padding) are at infinite distance from all others
+                X_transformed[i_ts] = np.inf
+                ts = X[i_ts, :_ts_size(X[i_ts])]
+                if ts.shape[0] < self.subsequence_length:
+                    continue
+                segments = _series_to_segments(ts, self.subsequence_length)
                 if self.scale:
                     segments = scaler.fit_transform(segments)
                 n_segments = segments.shape[0]
@@ -204,8 +211,8 @@ class MatrixProfile(TimeSeriesMixin,
                             band_width, dtype=bool) &
                         ~np.tri(n_segments, n_segments,
                                 -(band_width + 1), dtype=bool))
-                dists[band] = np.inf
-                X_transformed[i_ts] = dists.min(axis=1, keepdims=True)
+                dists[band | np.isnan(dists)] = np.inf
+                X_transformed[i_ts, :n_segments] = dists.min(axis=1, keepdims=True)
 
         else:
             available_implementations = ["numpy", "stump", "gpu_stump"]
-- 
2.43.0


From d7d412b56ab5a2108cd7c1730b8e9d6e04b1e4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 42/54] fix: distances to several multivariate shapelets of one
 size

---
 tslearn/shapelets/shapelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/shapelets/shapelets.py b/tslearn/shapelets/shapelets.py
index f73b830..23770c8 100644
--- a/tslearn/shapelets/shapelets.py
+++ b/tslearn/shapelets/shapelets.py
@@ -218,7 +218,7 @@ class LocalSquaredDistanceLayer(Layer):
         )
         y_ = ops.reshape(
             ops.transpose(self.kernel,
-                          (1, 0, 2)),
+                          (1, 2, 0)),
                          (shapelet_size * nb_features, self.nb_shapelets))
         xy = ops.dot(x_, y_)
         return (x_sq + y_sq - 2 * xy) / shapelet_size
-- 
2.43.0


From 7b1c9512ea0baa1054f4c0c977c349218a732c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 43/54] fix: series shorter than automatically sized shapelets
 are rejected

---
 tslearn/shapelets/shapelets.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tslearn/shapelets/shapelets.py b/tslearn/shapelets/shapelets.py
index 23770c8..9720993 100644
--- a/tslearn/shapelets/shapelets.py
+++ b/tslearn/shapelets/shapelets.py
@@ -676,8 +676,11 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
         """
         self._min_sz_fit = min(_ts_size(Xi) for Xi in X)
 
-        if self.n_shapelets_per_size is not None:
-            max_sz_shp = max(self.n_shapelets_per_size.keys())
+        n_shapelets_per_size = (
+            self.n_shapelets_per_size if fitting else self.n_shapelets_per_size_
+        )
+        if n_shapelets_per_size is not None:
+            max_sz_shp = max(n_shapelets_per_size.keys())
             if max_sz_shp > self._min_sz_fit:
                 raise ValueError("Sizes in X do not match maximum "
                                  "shapelet size: there is at least one "
-- 
2.43.0


From 138a9cdf49a374ca84e2775bc8cfac8b31505726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 44/54] fix: mase with feature weights given as an array

---
 tslearn/metrics/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/performance.py b/tslearn/metrics/performance.py
index 02445c0..f800bdb 100644
--- a/tslearn/metrics/performance.py
+++ b/tslearn/metrics/performance.py
@@ -205,7 +205,7 @@ def mase(
 
     mae_ = mae(y_true, y_pred, ts_weights, timestamps_weights, multioutput)
 
-    if multioutput == "raw_values":
+    if isinstance(multioutput, str) and multioutput == "raw_values":
         scale_axis = (0, 1)
     else:
         scale_axis = None
-- 
2.43.0


From d8b7937e5293cc03d45b89812309b71c0b6e4a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 45/54] fix: scaling factor of mase with training series of
 different lengths

---
 tslearn/metrics/performance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tslearn/metrics/performance.py b/tslearn/metrics/performance.py
index f800bdb..631336f 100644
--- a/tslearn/metrics/performance.py
+++ b/tslearn/metrics/performance.py
@@ -209,6 +209,10 @@ def mase(
         scale_axis = (0, 1)
     else:
         scale_axis = None
-    scale = abs(train_data[:, :-seasonal_period] - train_data[:, seasonal_period:]).mean(axis=scale_axis)
+    scale = abs(train_data[:, :-seasonal_period] - train_data[:, seasonal_period:])
+    # samples after the end of the shorter training series do not count
+    valid = scale == scale
+    scale[~valid] = 0
+    scale = scale.sum(axis=scale_axis) / valid.sum(axis=scale_axis)
 
     return mae_ / scale
-- 
2.43.0


From c7361eb88554d2e7d43995c1b47dce51c420d277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 46/54] fix: TimeSeriesSVR ignored epsilon

---
 tslearn/svm/svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/svm/svm.py b/tslearn/svm/svm.py
index 5d669da..f33ed2f 100644
--- a/tslearn/svm/svm.py
+++ b/tslearn/svm/svm.py
@@ -585,7 +585,7 @@ class TimeSeriesSVR(TimeSeriesSVMMixin, RegressorMixin, BaseEstimator):
         self.svm_estimator_ = SVR(
             C=self.C, kernel=self.estimator_kernel_, degree=self.degree,
             gamma=self.gamma_, coef0=self.coef0, shrinking=self.shrinking,
-            tol=self.tol, cache_size=self.cache_size,
+            tol=self.tol, epsilon=self.epsilon, cache_size=self.cache_size,
             verbose=self.verbose, max_iter=self.max_iter
         )
         self.svm_estimator_.fit(sklearn_X, y, sample_weight=sample_weight)
-- 
2.43.0


From 393d57dfbfc36f10e28a8a7a357ff4cb160e251e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 47/54] fix: automatic gamma of time series SVMs with other
 kernels than gak

---
 tslearn/svm/svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/svm/svm.py b/tslearn/svm/svm.py
index f33ed2f..b7f29e5 100644
--- a/tslearn/svm/svm.py
+++ b/tslearn/svm/svm.py
@@ -53,7 +53,7 @@ class TimeSeriesSVMMixin(TimeSeriesMixin):
 
         if fit_time:
             self._X_fit = X
-            if self.gamma == "auto":
+            if self.gamma == "auto" and self.kernel in VARIABLE_LENGTH_METRICS:
                 self.gamma_ = gamma_soft_dtw(X, random_state=self.random_state)
             else:
                 self.gamma_ = self.gamma
-- 
2.43.0


From 0de2902b5cc4ef646cda314d174e1ad316a78560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 48/54] fix: fitting MLPs again with warm_start

---
 tslearn/neural_network/neural_network.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tslearn/neural_network/neural_network.py b/tslearn/neural_network/neural_network.py
index 90cf653..f6dfbff 100644
--- a/tslearn/neural_network/neural_network.py
+++ b/tslearn/neural_network/neural_network.py
@@ -55,6 +55,9 @@ class TimeSeriesMLPClassifier(TimeSeriesMixin, MLPClassifier):
         """
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
         X_ = to_time_series_dataset(X_)
+        if self.warm_start and hasattr(self, "_X_fit_dims"):
+            # The flattened size, to be compared with by scikit-learn
+            self.n_features_in_ = self._X_fit_dims[1] * self._X_fit_dims[2]
         self._X_fit_dims = X_.shape
         X_ = X_.reshape((X_.shape[0], -1))
         estimator = super().fit(X_, y)
@@ -179,6 +182,9 @@ class TimeSeriesMLPRegressor(TimeSeriesMixin, MLPRegressor):
         """
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
         X_ = to_time_series_dataset(X_)
+        if self.warm_start and hasattr(self, "_X_fit_dims"):
+            # The flattened size, to be compared with by scikit-learn
+            self.n_features_in_ = self._X_fit_dims[1] * self._X_fit_dims[2]
         self._X_fit_dims = X_.shape
         X_ = X_.reshape((X_.shape[0], -1))
         estimator = super(TimeSeriesMLPRegressor, self).fit(X_, y)
-- 
2.43.0


From 083deece6e6152a301476943195f3f2bd803123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 49/54] fix: download failures and extraction errors of UCR/UEA
 datasets escaped load_dataset

---
 tslearn/datasets/datasets.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tslearn/datasets/datasets.py b/tslearn/datasets/datasets.py
index 2576b6c..819e1c9 100644
--- a/tslearn/datasets/datasets.py
+++ b/tslearn/datasets/datasets.py
@@ -34,12 +34,12 @@ def extract_from_zip_url(url, target_dir=None, verbose=False):
         successful, None otherwise
     """
     fname = Path(url).name
-    tmpdir = tempfile.mkdtemp()
-    local_zip_fname = Path(tmpdir) / fname
-    urlretrieve(url, local_zip_fname)
     target_dir = Path(target_dir)
-    target_dir.mkdir(parents=True, exist_ok=True)
+    tmpdir = tempfile.mkdtemp()
     try:
+        local_zip_fname = Path(tmpdir) / fname
+        urlretrieve(url, local_zip_fname)
+        target_dir.mkdir(parents=True, exist_ok=True)
         with zipfile.ZipFile(local_zip_fname, "r") as f:
             f.extractall(path=target_dir)
         if verbose:
@@ -50,6 +50,12 @@ def extract_from_zip_url(url, target_dir=None, verbose=False):
         warnings.warn("Corrupted or missing zip file encountered, aborting",
                       category=RuntimeWarning)
         return None
+    except Exception as exception:
+        # Download failures and any other error raised by the extraction
+        warnings.warn("File %s could not be downloaded or extracted, "
+                      "aborting: %s" % (url, str(exception)),
+                      category=RuntimeWarning)
+        return None
     finally:
         shutil.rmtree(tmpdir, ignore_errors=True)
 
-- 
2.43.0


From f77db423983af46191472d3c720cf21980e760ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 50/54] fix: partially extracted or corrupted UCR/UEA archives
 were later served from the cache

---
 tslearn/datasets/datasets.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/tslearn/datasets/datasets.py b/tslearn/datasets/datasets.py
index 819e1c9..aabac80 100644
--- a/tslearn/datasets/datasets.py
+++ b/tslearn/datasets/datasets.py
@@ -40,8 +40,21 @@ def extract_from_zip_url(url, target_dir=None, verbose=False):
         local_zip_fname = Path(tmpdir) / fname
         urlretrieve(url, local_zip_fname)
         target_dir.mkdir(parents=True, exist_ok=True)
-        with zipfile.ZipFile(local_zip_fname, "r") as f:
-            f.extractall(path=target_dir)
+        # Files only show up in the target directory once the whole archive
+        # could be extracted
+        staging_dir = Path(tempfile.mkdtemp(prefix=".", dir=target_dir))
+        try:
+            with zipfile.ZipFile(local_zip_fname, "r") as f:
+                f.extractall(path=staging_dir)
+            # Reverse order: TXT files, which are preferred, are complete before
+            # ARFF files are
+            for path in sorted(staging_dir.rglob("*"), reverse=True):
+                if path.is_file():
+                    target_path = target_dir / path.relative_to(staging_dir)
+                    target_path.parent.mkdir(parents=True, exist_ok=True)
+                    path.replace(target_path)
+        finally:
+            shutil.rmtree(staging_dir, ignore_errors=True)
         if verbose:
             print("Successfully extracted file %s to path %s" %
                   (local_zip_fname, target_dir))
-- 
2.43.0


From a8907a9b22f22ba0ecaa91b2f4b4931546643091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 51/54] fix: list_cached_datasets listed datasets that failed
 to download

---
 tslearn/datasets/ucr_uea.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/datasets/ucr_uea.py b/tslearn/datasets/ucr_uea.py
index 8baa6d6..2a49084 100644
--- a/tslearn/datasets/ucr_uea.py
+++ b/tslearn/datasets/ucr_uea.py
@@ -245,7 +245,8 @@ class UCR_UEA_datasets:
         True
         """
         return [path.name for path in self._data_dir.iterdir()
-                if path.is_dir() and path.name not in self._ignore_list]
+                if path.is_dir() and path.name not in self._ignore_list
+                and self._has_files(path.name)]
 
     def load_dataset(self, dataset_name):
         """Load a dataset from the UCR/UEA archive from its name.
-- 
2.43.0


From 0baf9d5b260670a46377830603bddae8d62e3ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 52/54] fix: UCR/UEA text files with a single series could not
 be loaded

---
 tslearn/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/utils/utils.py b/tslearn/utils/utils.py
index 162bd38..b12b24d 100644
--- a/tslearn/utils/utils.py
+++ b/tslearn/utils/utils.py
@@ -702,7 +702,7 @@ def _load_txt_uea(dataset_path):
     Exception: on any failure, e.g. if the given file does not exist or is
                corrupted
     """
-    data = numpy.loadtxt(dataset_path)
+    data = numpy.loadtxt(dataset_path, ndmin=2)
     X = to_time_series_dataset(data[:, 1:])
     y = data[:, 0].astype(int)
     return X, y
-- 
2.43.0


From 343e3f4ec0d7471933c02ee21519f606ea9103aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 53/54] fix: RuntimeWarning for UCR/UEA datasets without
 supported formats, as documented

---
 tslearn/datasets/ucr_uea.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/datasets/ucr_uea.py b/tslearn/datasets/ucr_uea.py
index 2a49084..687d2bd 100644
--- a/tslearn/datasets/ucr_uea.py
+++ b/tslearn/datasets/ucr_uea.py
@@ -332,7 +332,8 @@ class UCR_UEA_datasets:
             else:
                 warnings.warn(
                     f'dataset "{dataset_name}" is not provided in supported '
-                    f'formats {SUPPORTED_EXT} and thus could not be loaded'
+                    f'formats {SUPPORTED_EXT} and thus could not be loaded',
+                    category=RuntimeWarning, stacklevel=2
                 )
                 return None, None, None, None
 
-- 
2.43.0


From 0f44f0fa02552a4abde72195cccdc12d65009ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:34 +0000
Subject: [PATCH 54/54] fix: normalized_cc of length-1 series returns its
 single lag

---
 tslearn/metrics/cycc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cycc.py b/tslearn/metrics/cycc.py
index 93be722..493728d 100644
--- a/tslearn/metrics/cycc.py
+++ b/tslearn/metrics/cycc.py
@@ -45,7 +45,7 @@ def normalized_cc(s1, s2, norm1=-1.0, norm2=-1.0):
                 axis=0,
             )
         )
-    cc = np.vstack((cc[-(sz - 1) :], cc[:sz]))
+    cc = np.vstack((cc[fft_sz - (sz - 1) :], cc[:sz]))
     norm_cc = np.real(cc).sum(axis=-1) / denom
     return norm_cc
 
-- 
2.43.0

