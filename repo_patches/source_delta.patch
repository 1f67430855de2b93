From 8f5b70a04ee46a4ec857a853b94727723b794e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:13 +0000
Subject: [PATCH 01/55] fix: report the number of iterations actually performed

The iteration counter returned was the zero-based index of the last
iteration, so n_iter_ was one too small and the warning about reaching the
maximum number of iterations could never be issued.
---
 src/reor/archetypal_analysis.py | 2 +-
 src/reor/fembv.py               | 2 +-
 src/reor/gpnh_convex_coding.py  | 2 +-
 src/reor/mtd_convex_coding.py   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 67f1750..a9d7cea 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -668,7 +668,7 @@ class KernelAA():
                         n_iter + 1))
                 break
 
-        return new_cost, n_iter
+        return new_cost, n_iter + 1
 
     def _kernel_aa(self, kernel, dictionary=None, weights=None,
                    update_dictionary=True, update_weights=True, **kwargs):
diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 1d42197..9aa2ce9 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -301,7 +301,7 @@ class FEMBV():
                         n_iter + 1))
                 break
 
-        return new_cost, n_iter
+        return new_cost, n_iter + 1
 
     def _fembv_fit(self, data, parameters=None, weights=None, init=None,
                    update_parameters=True, update_weights=True, **kwargs):
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 84490e5..7bfbe3b 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -549,7 +549,7 @@ class GPNHConvexCoding():
                         n_iter + 1))
                 break
 
-        return new_cost, n_iter
+        return new_cost, n_iter + 1
 
     def _gpnh_convex_coding(self, data, dictionary=None, weights=None,
                             update_dictionary=True, update_weights=True,
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 78d7d81..8555b9a 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -753,7 +753,7 @@ class MTDConvexCoding():
                         n_iter + 1))
                 break
 
-        return new_cost, n_iter
+        return new_cost, n_iter + 1
 
     def _mtd_convex_coding(self, data, dictionary=None, weights=None,
                            order_weights=None, transition_matrices=None,
-- 
2.43.0


From 9aecbd37fd8064c5b2abf5f99ec5e3d9b8016774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:13 +0000
Subject: [PATCH 02/55] fix: accept FurthestSum options when fitting

start_index, n_extra_steps and exclude were forwarded to the initialisation
of the weights (and of the MTD parameters), which does not take them, so
fitting with any of them failed with a TypeError.
---
 src/reor/archetypal_analysis.py | 4 ++--
 src/reor/gpnh_convex_coding.py  | 2 +-
 src/reor/mtd_convex_coding.py   | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index a9d7cea..0f9c2ab 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -136,7 +136,7 @@ def _initialize_kernel_aa(kernel, n_components, init='furthest_sum',
         kernel, n_components, init=init, random_state=rng, **kwargs)
 
     weights = _initialize_kernel_aa_weights(
-        kernel, n_components, init=init, random_state=rng, **kwargs)
+        kernel, n_components, init=init, random_state=rng)
 
     return dictionary, weights
 
@@ -704,7 +704,7 @@ class KernelAA():
                                    '_kernel_aa (input dictionary)')
             weights = _initialize_kernel_aa_weights(
                 kernel, self.n_components, init=self.init,
-                random_state=self.random_state, **kwargs)
+                random_state=self.random_state)
         elif update_dictionary and not update_weights:
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_kernel_aa (input weights)')
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 7bfbe3b..8d832a1 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -581,7 +581,7 @@ class GPNHConvexCoding():
                                    '_gpnh_convex_coding (input dictionary)')
             weights = _initialize_gpnh_convex_coding_weights(
                 data, self.n_components, init=self.init,
-                random_state=self.random_state, **kwargs)
+                random_state=self.random_state)
         elif update_dictionary and not update_weights:
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_gpnh_convex_coding (input weights)')
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 8555b9a..cb69890 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -803,7 +803,7 @@ class MTDConvexCoding():
             else:
                 weights = _initialize_mtd_convex_coding_weights(
                     data, self.n_components, init=self.init,
-                    random_state=self.random_state, **kwargs)
+                    random_state=self.random_state)
 
             if not update_parameters:
                 _check_init_order_weights(order_weights, (n_lags,),
@@ -816,7 +816,7 @@ class MTDConvexCoding():
                 order_weights, transition_matrices = \
                     _initialize_mtd_convex_coding_parameters(
                         data, self.n_components, init=self.init, order=n_lags,
-                        random_state=self.random_state, **kwargs)
+                        random_state=self.random_state)
 
         self.X = data.copy()
         self.Gamma = weights.copy()
-- 
2.43.0


From 77a39ebbab659a4769c2e8f57d7c8bebc68ed000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:13 +0000
Subject: [PATCH 03/55] fix: avoid NaN dissimilarities for coincident samples

Squared distances computed from the kernel can be slightly negative due to
rounding, and their square roots were NaN, which corrupts the order in which
FurthestSum selects the samples.
---
 src/reor/archetypal_analysis.py | 4 ++--
 src/reor/gpnh_convex_coding.py  | 4 ++--
 src/reor/mtd_convex_coding.py   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 0f9c2ab..52893b6 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -71,10 +71,10 @@ def _initialize_kernel_aa_dictionary_furthest_sum(
         exclude = np.array([], dtype='i8')
 
     kernel_diag = np.diag(kernel)
-    dissimilarities = np.sqrt(
+    dissimilarities = np.sqrt(np.maximum(
         np.tile(kernel_diag, (n_samples, 1)) -
         2 * kernel +
-        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)))
+        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)), 0))
 
     selected = furthest_sum(
         dissimilarities, n_components, start_index, exclude, n_extra_steps)
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 8d832a1..2fa4ea9 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -62,10 +62,10 @@ def _initialize_gpnh_convex_coding_dictionary_furthest_sum(
         exclude = np.array([], dtype='i8')
 
     kernel_diag = np.diag(kernel)
-    dissimilarities = np.sqrt(
+    dissimilarities = np.sqrt(np.maximum(
         np.tile(kernel_diag, (n_samples, 1)) -
         2 * kernel +
-        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)))
+        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)), 0))
 
     selected = furthest_sum(
         dissimilarities, n_components, start_index, exclude, n_extra_steps)
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index cb69890..3cfe091 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -74,10 +74,10 @@ def _initialize_mtd_convex_coding_dictionary_furthest_sum(
         exclude = np.array([], dtype='i8')
 
     kernel_diag = np.diag(kernel)
-    dissimilarities = np.sqrt(
+    dissimilarities = np.sqrt(np.maximum(
         np.tile(kernel_diag, (n_samples, 1)) -
         2 * kernel +
-        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)))
+        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)), 0))
 
     selected = furthest_sum(
         dissimilarities, n_components, start_index, exclude, n_extra_steps)
-- 
2.43.0


From ecce311c8b49d1489e8a397df1eb45228cb85587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:34 +0000
Subject: [PATCH 04/55] fix: do not pass sample weights when predicting cluster
 labels

Sample weights have no influence on the assignment of samples to the fitted
clusters, and scikit-learn no longer accepts them in KMeans.predict, so that
KMeansMarkovCROM.predict always failed with a TypeError.
---
 src/reor/crom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reor/crom.py b/src/reor/crom.py
index 38dac8b..b1d56b5 100644
--- a/src/reor/crom.py
+++ b/src/reor/crom.py
@@ -202,7 +202,7 @@ class KMeansMarkovCROM():
         """
 
         # Get cluster assignments at the current time-step
-        initial_labels = self.kmeans_.predict(X, sample_weight=sample_weight)
+        initial_labels = self.kmeans_.predict(X)
 
         n_clusters = self.n_clusters
         n_samples = initial_labels.size
-- 
2.43.0


From cf02b661adc1e1b603bd42ca4570427ed2091ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:34 +0000
Subject: [PATCH 05/55] fix: perform model reduction in
 KMeansMarkovCROM.fit_predict and fit_transform

Both methods failed when the model had not been fitted, and otherwise refitted
the clusters only, leaving the transition matrix and the other fitted
attributes of the previous fit.
---
 src/reor/crom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reor/crom.py b/src/reor/crom.py
index b1d56b5..31e329c 100644
--- a/src/reor/crom.py
+++ b/src/reor/crom.py
@@ -150,7 +150,7 @@ class KMeansMarkovCROM():
             Array of labels for each sample
         """
 
-        return self.kmeans_.fit_predict(X, sample_weight=sample_weight)
+        return self.fit(X, sample_weight=sample_weight).labels_
 
     def fit_transform(self, X, sample_weight=None):
         """Perform model reduction and transform data to cluster-distance space.
@@ -170,7 +170,7 @@ class KMeansMarkovCROM():
             Array of distances of each sample to the cluster centroids.
         """
 
-        return self.kmeans_.fit_transform(X, sample_weight=sample_weight)
+        return self.fit(X, sample_weight=sample_weight).transform(X)
 
     def predict(self, X, sample_weight=None, horizon=0):
         """Predict cluster assignment of each sample for the given horizon.
-- 
2.43.0


From 874aedaf18b5d5300b6f9978956ad56ad1b882ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:34 +0000
Subject: [PATCH 06/55] fix: default to two clusters in k-means CROM when none
 are given

n_clusters=None is documented to mean 2 clusters, but was passed on to KMeans,
which rejects it.
---
 src/reor/crom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reor/crom.py b/src/reor/crom.py
index 31e329c..41bb620 100644
--- a/src/reor/crom.py
+++ b/src/reor/crom.py
@@ -38,6 +38,9 @@ def kmeans_markov_crom(X, n_clusters=None, sample_weight=None, **kwargs):
         Fitted Markov transition matrix.
     """
 
+    if n_clusters is None:
+        n_clusters = 2
+
     kmeans = KMeans(n_clusters=n_clusters, **kwargs).fit(
         X, sample_weight=sample_weight)
 
@@ -204,7 +207,7 @@ class KMeansMarkovCROM():
         # Get cluster assignments at the current time-step
         initial_labels = self.kmeans_.predict(X)
 
-        n_clusters = self.n_clusters
+        n_clusters = self.transition_matrix_.shape[0]
         n_samples = initial_labels.size
 
         labels = np.zeros((n_samples, n_clusters), dtype='f8')
-- 
2.43.0


From faae6339aea492810187a04c8ded079cd2d7604d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:51 +0000
Subject: [PATCH 07/55] fix: use the init option given to FEM-BV models

The documented constructor option init was never used, so that custom initial
weights and parameters were silently ignored with init='custom'.
---
 src/reor/fembv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 9aa2ce9..0d3a91a 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -322,6 +322,9 @@ class FEMBV():
             raise ValueError('Tolerance for stopping criteria must be '
                              'positive; got (tolerance=%r)' % self.tolerance)
 
+        if init is None:
+            init = self.init
+
         self._initialize(data, parameters=parameters, weights=weights,
                          init=init, **kwargs)
 
-- 
2.43.0


From 8a082476354b777240ebda68f24ff1c978b0f898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:51 +0000
Subject: [PATCH 08/55] fix: make the TV norm bound of FEM-BV models optional

It is documented to default to None, and omitted in the documented examples,
which failed with a TypeError.
---
 src/reor/fembv.py        | 2 +-
 src/reor/fembv_kmeans.py | 2 +-
 src/reor/fembv_varx.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 0d3a91a..29684a7 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -42,7 +42,7 @@ def _initialize_fembv_weights(n_samples, n_components, unused_init='random',
 class FEMBV():
     """Base class for FEM-BV clustering algorithms."""
 
-    def __init__(self, n_components, max_tv_norm, init='random',
+    def __init__(self, n_components, max_tv_norm=None, init='random',
                  max_iterations=500,
                  tolerance=1e-4, verbose=0, random_state=None, **kwargs):
         self.n_components = n_components
diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index 5c2f978..fdd4fbd 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -122,7 +122,7 @@ class FEMBVKMeans(FEMBV):
     Sci. 7, 2 (2012), 175 - 229
     """
 
-    def __init__(self, n_components, max_tv_norm, init='random',
+    def __init__(self, n_components, max_tv_norm=None, init='random',
                  max_iterations=500, tolerance=1e-4, verbose=0,
                  random_state=None, **kwargs):
         super().__init__(n_components=n_components, max_tv_norm=max_tv_norm,
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index aa97aba..4a1ce04 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -247,7 +247,7 @@ class FEMBVVARX(FEMBV):
     Sci. 7, 2 (2012), 175 - 229
     """
 
-    def __init__(self, n_components, max_tv_norm, memory=None, init='random',
+    def __init__(self, n_components, max_tv_norm=None, memory=None, init='random',
                  max_iterations=500, tolerance=1e-4, verbose=0,
                  random_state=None, **kwargs):
         super().__init__(n_components=n_components, max_tv_norm=max_tv_norm,
-- 
2.43.0


From 0d57366286bf8beef5f067b76aa4e5d2426070b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:51 +0000
Subject: [PATCH 09/55] fix: keep centroids of FEM-BV-k-means components
 without samples

A component with zero total weight got a NaN centroid, for which updating the
weights fails.
---
 src/reor/fembv_kmeans.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index fdd4fbd..60f5e56 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -165,8 +165,12 @@ class FEMBVKMeans(FEMBV):
     def _update_parameters(self):
         """Update k-means cluster assignments."""
 
-        self.Theta = np.dot(self.Gamma.T, self.X)
         normalizations = np.sum(self.Gamma, axis=0)
-        self.Theta = self.Theta / normalizations[:, np.newaxis]
+
+        # Components without any assigned samples keep their centroid
+        mask = normalizations > 0
+        Theta = np.dot(self.Gamma.T, self.X)
+        self.Theta = np.array(self.Theta, dtype=Theta.dtype)
+        self.Theta[mask] = Theta[mask] / normalizations[mask, np.newaxis]
 
         self._evaluate_distance_matrix()
-- 
2.43.0


From b7733f70f5eecd42e2164e7db8a38d1867c663f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 10/55] fix: allow FEM-BV-VARX components to differ in memory

The residuals and external factors of components with less than the largest
memory were not aligned with the other components, so that every such fit
failed.
---
 src/reor/fembv_varx.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 4a1ce04..ec6f508 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -285,14 +285,13 @@ class FEMBVVARX(FEMBV):
         self.B0 = None
 
     def _evaluate_distance_matrix(self):
-        presample_length = np.max(self.memory)
         for i in range(self.n_components):
             metric = np.eye(self.models[i].Sigma_u_inv.shape[0])
             self.distance_matrix[:, i] = np.einsum(
                 'ij,jk,ik->i',
-                self.models[i].residuals[presample_length:],
+                self.models[i].residuals[self.memory[i]:],
                 metric,
-                self.models[i].residuals[presample_length:])
+                self.models[i].residuals[self.memory[i]:])
 
     def _initialize_components(self, data, parameters=None, init=None, **kwargs):
         """Generate initial guess for component parameters."""
@@ -330,7 +329,8 @@ class FEMBVVARX(FEMBV):
         self.models = [FEMBVVARXLocalLinearModel(
             self.X[presample_length - self.memory[i]:],
             p=self.memory[i],
-            u=self.u, s=0)
+            u=(None if self.u is None else
+               self.u[presample_length - self.memory[i]:]), s=0)
             for i in range(self.n_components)]
 
         # Initialize models by performing unweighted fits to
-- 
2.43.0


From a289e11919845e276fd775cdaf77b5f540541dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 11/55] fix: discard external factor coefficients of a previous
 FEM-BV-VARX fit

B0 is documented to be None if there are no exogeneous factors, but kept the
values of an earlier fit with them.
---
 src/reor/fembv_varx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index ec6f508..8420631 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -325,6 +325,8 @@ class FEMBVVARX(FEMBV):
         if self.u is not None:
             self.B0 = np.zeros((self.n_components, n_features, n_external),
                                dtype=self.X.dtype)
+        else:
+            self.B0 = None
 
         self.models = [FEMBVVARXLocalLinearModel(
             self.X[presample_length - self.memory[i]:],
-- 
2.43.0


From 060fabc0b5e8ec71d1295f63188ca5116da0d563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 12/55] fix: fit VARX models with a singular residual
 covariance

Fits to noise-free data, or with a component without any assigned samples,
failed with a LinAlgError.
---
 src/reor/fembv_varx.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 8420631..d4f0593 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -146,8 +146,10 @@ class FEMBVVARXLocalLinearModel():
             self.Sigma_u = np.dot(weighted_residuals.T,
                                   weighted_residuals) / df
 
-        self.Sigma_u_inv = np.linalg.inv(self.Sigma_u)
-
+        try:
+            self.Sigma_u_inv = np.linalg.inv(self.Sigma_u)
+        except np.linalg.LinAlgError:
+            self.Sigma_u_inv = np.linalg.pinv(self.Sigma_u)
 
 
 class FEMBVVARX(FEMBV):
-- 
2.43.0


From 4d81ffcecfafba7acef5e9c6e6c6f69597e76232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 13/55] fix: allow unspecified number of components in
 FEM-BV-VARX and GPNH CROM

n_components=None is documented to keep all features, but the constructors
failed with a TypeError.
---
 src/reor/fembv_varx.py              | 12 ++++++++++--
 src/reor/gpnh_convex_coding_crom.py |  3 +--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index d4f0593..882f73f 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -257,8 +257,12 @@ class FEMBVVARX(FEMBV):
                          tolerance=tolerance, verbose=verbose,
                          random_state=random_state, **kwargs)
 
+        # If the number of components is to be found from the data, so is
+        # the number of entries
+        n_memory = 1 if n_components is None else n_components
+
         if memory is None:
-            self.memory = np.full((n_components,), 0, dtype='i8')
+            self.memory = np.full((n_memory,), 0, dtype='i8')
         else:
             if isinstance(memory, INTEGER_TYPES):
                 if memory < 0:
@@ -266,7 +270,7 @@ class FEMBVVARX(FEMBV):
                         'Maximum memory must be a non-negative integer;'
                         ' got (memory=%d)' % memory)
 
-                self.memory = np.full((n_components,), memory, dtype='i8')
+                self.memory = np.full((n_memory,), memory, dtype='i8')
             elif isinstance(memory, (list, tuple)):
                 self.memory = np.asarray(memory, dtype='i8')
                 if self.memory.shape != (n_components,):
@@ -316,6 +320,10 @@ class FEMBVVARX(FEMBV):
         else:
             n_external = 0
 
+        if self.memory.shape != (self.n_components,):
+            self.memory = np.full(
+                (self.n_components,), self.memory[0], dtype='i8')
+
         presample_length = np.max(self.memory)
 
         self.mu = np.zeros((self.n_components, n_features),
diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index f4fde05..c055fc6 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -81,8 +81,7 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
 
         n_lags = self.lags.size
         self.order_weights = np.empty((n_lags,), dtype='f8')
-        self.transition_matrices = np.empty(
-            (n_lags, n_components, n_components), dtype='f8')
+        self.transition_matrices = None
         self.Z = None
 
         self.order_weights_old = None
-- 
2.43.0


From 839e409a57cf1ffd51186c6798a0aea65c61083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:49 +0000
Subject: [PATCH 14/55] fix: keep the fitted centroids when transforming with
 FEM-BV-k-means

transform replaced the fitted centroids by random samples of the given data
and computed the affiliations to those.
---
 src/reor/fembv.py        | 7 ++++++-
 src/reor/fembv_kmeans.py | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 29684a7..62282ea 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -247,6 +247,10 @@ class FEMBV():
         """Update cost function parameters."""
         raise NotImplementedError()
 
+    def _get_fitted_parameters(self):
+        """Return parameters to be used to transform data."""
+        return None
+
     def _iterate(self, update_weights=True, update_parameters=True):
         """Minimize cost function iteratively."""
 
@@ -397,7 +401,8 @@ class FEMBV():
             Representation of the data.
         """
 
-        self._fembv_fit(data=data, update_parameters=False,
+        self._fembv_fit(data=data, parameters=self._get_fitted_parameters(),
+                        init='custom', update_parameters=False,
                         update_weights=True)
 
         return self.Gamma
diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index 60f5e56..5377014 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -162,6 +162,10 @@ class FEMBVKMeans(FEMBV):
 
         self._evaluate_distance_matrix()
 
+    def _get_fitted_parameters(self):
+        """Return cluster centroids to be used to transform data."""
+        return self.Theta
+
     def _update_parameters(self):
         """Update k-means cluster assignments."""
 
-- 
2.43.0


From 532e0c34f4d39525535f180d45cedbd95112c15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:33 +0000
Subject: [PATCH 15/55] fix: keep the fitted components when transforming with
 FEM-BV-VARX

transform replaced the components of the fit by unweighted fits to the given
data, which are the same for every component, and discarded the fitted
parameters. The documented custom initial parameters are used to this end.
---
 src/reor/fembv.py      |  7 +++-
 src/reor/fembv_varx.py | 89 ++++++++++++++++++++++++++++++++++++------
 2 files changed, 81 insertions(+), 15 deletions(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 62282ea..d6cc4ad 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -387,7 +387,7 @@ class FEMBV():
         self.fit_transform(data, **kwargs)
         return self
 
-    def transform(self, data):
+    def transform(self, data, **kwargs):
         """Transform data according to the fitted factorization.
 
         Parameters
@@ -395,6 +395,9 @@ class FEMBV():
         data : array-like, shape (n_samples, n_features)
             Data matrix for data to be transformed.
 
+        **kwargs :
+            Additional data required by the model, as given to fit.
+
         Returns
         -------
         weights : array-like, shape (n_samples, n_components)
@@ -403,6 +406,6 @@ class FEMBV():
 
         self._fembv_fit(data=data, parameters=self._get_fitted_parameters(),
                         init='custom', update_parameters=False,
-                        update_weights=True)
+                        update_weights=True, **kwargs)
 
         return self.Gamma
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 882f73f..93cd087 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -14,6 +14,23 @@ from reor._validation import _check_array_shape
 INTEGER_TYPES = (numbers.Integral, np.integer)
 
 
+def _check_init_parameters(parameters, n_components, order, n_features,
+                           n_external, whom):
+    _check_array_shape(parameters['mu'], (n_components, n_features), whom)
+
+    if order > 0:
+        _check_array_shape(parameters['A'],
+                           (n_components, order, n_features, n_features), whom)
+
+    if n_external > 0:
+        if parameters['B0'] is None:
+            raise ValueError('Missing external factor coefficients in %s' % whom)
+        _check_array_shape(parameters['B0'],
+                           (n_components, n_features, n_external), whom)
+    elif parameters['B0'] is not None:
+        raise ValueError('Missing external factors in %s' % whom)
+
+
 class FEMBVVARXLocalLinearModel():
     """Local stationary linear VARX model."""
 
@@ -152,6 +169,28 @@ class FEMBVVARXLocalLinearModel():
             self.Sigma_u_inv = np.linalg.pinv(self.Sigma_u)
 
 
+    def set_parameters(self, mu, A=None, B0=None):
+        """Set intercept and coefficients, in a model with s = 0."""
+
+        n_features = self._y.shape[1]
+
+        params = [mu[np.newaxis]]
+
+        if self.p > 0:
+            params.append(np.reshape(A.swapaxes(1, 2),
+                                     (self.p * n_features, n_features)))
+
+        if self._u is not None:
+            params.append(B0.T)
+
+        self.residuals[self.p:] = (
+            self._y[self.p:] - np.dot(self._z, np.vstack(params)))
+
+        self.mu = mu.copy()
+        self.A = A.copy() if self.p > 0 else None
+        self.B0 = B0.copy() if self._u is not None else None
+
+
 class FEMBVVARX(FEMBV):
     """FEM-BV-VARX clustering of data.
 
@@ -292,7 +331,7 @@ class FEMBVVARX(FEMBV):
 
     def _evaluate_distance_matrix(self):
         for i in range(self.n_components):
-            metric = np.eye(self.models[i].Sigma_u_inv.shape[0])
+            metric = np.eye(self.X.shape[1])
             self.distance_matrix[:, i] = np.einsum(
                 'ij,jk,ik->i',
                 self.models[i].residuals[self.memory[i]:],
@@ -326,6 +365,12 @@ class FEMBVVARX(FEMBV):
 
         presample_length = np.max(self.memory)
 
+        if init == 'custom' and parameters is not None:
+            _check_init_parameters(
+                parameters, self.n_components, presample_length,
+                n_features, n_external,
+                '_initialize_components (input parameters)')
+
         self.mu = np.zeros((self.n_components, n_features),
                            dtype=self.X.dtype)
         if presample_length > 0:
@@ -345,10 +390,20 @@ class FEMBVVARX(FEMBV):
                self.u[presample_length - self.memory[i]:]), s=0)
             for i in range(self.n_components)]
 
-        # Initialize models by performing unweighted fits to
-        # given data
-        for i in range(self.n_components):
-            self.models[i].fit()
+        if init == 'custom' and parameters is not None:
+            for i in range(self.n_components):
+                self.models[i].set_parameters(
+                    parameters['mu'][i],
+                    A=(parameters['A'][i, :self.memory[i]]
+                       if self.memory[i] > 0 else None),
+                    B0=(parameters['B0'][i]
+                        if self.u is not None else None))
+                self._copy_model_parameters(i)
+        else:
+            # Initialize models by performing unweighted fits to
+            # given data
+            for i in range(self.n_components):
+                self.models[i].fit()
 
         self.distance_matrix = np.empty(
             (n_samples - presample_length, self.n_components),
@@ -356,6 +411,21 @@ class FEMBVVARX(FEMBV):
 
         self._evaluate_distance_matrix()
 
+    def _get_fitted_parameters(self):
+        """Return component parameters to be used to transform data."""
+        return {'mu': self.mu, 'A': self.A, 'B0': self.B0}
+
+    def _copy_model_parameters(self, i):
+        """Copy parameters of the given component model."""
+
+        self.mu[i] = self.models[i].mu
+
+        if self.memory[i] > 0:
+            self.A[i, :self.memory[i]] = self.models[i].A
+
+        if self.u is not None:
+            self.B0[i] = self.models[i].B0
+
     def _update_parameters(self):
         """Update component parameters."""
 
@@ -370,11 +440,4 @@ class FEMBVVARX(FEMBV):
             weights[self.memory[i]:] = self.Gamma[:, i]
 
             self.models[i].fit(weights=weights)
-
-            self.mu[i] = self.models[i].mu
-
-            if self.memory[i] > 0:
-                self.A[i, :self.memory[i]] = self.models[i].A
-
-            if self.u is not None:
-                self.B0[i] = self.models[i].B0
+            self._copy_model_parameters(i)
-- 
2.43.0


From 4235d8857f3330d9607a5a36bab3f9bfd7a96c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:02 +0000
Subject: [PATCH 16/55] fix: do not abort fits because of rounding errors in
 the cost

Fits that had essentially converged failed with a RuntimeError if the cost
increased by as little as the last digit.
---
 src/reor/archetypal_analysis.py     | 10 +++++++---
 src/reor/gpnh_convex_coding.py      | 10 +++++++---
 src/reor/gpnh_convex_coding_crom.py |  6 ++++--
 src/reor/mtd_convex_coding.py       | 13 +++++++++----
 src/reor/spg.py                     |  5 +++++
 5 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 52893b6..4ad8394 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -17,7 +17,8 @@ from sklearn.utils import check_array, check_random_state
 from reor.furthest_sum import furthest_sum
 from reor._random_matrix import right_stochastic_matrix
 from reor.simplex_projection import simplex_project_rows
-from reor.spg import get_next_spg_alpha, get_next_spg_step_length
+from reor.spg import (cost_increased, get_next_spg_alpha,
+                      get_next_spg_step_length)
 from reor._validation import _check_unit_axis_sums, _check_array_shape
 
 
@@ -634,6 +635,7 @@ class KernelAA():
 
         old_cost = self._evaluate_cost()
         new_cost = old_cost
+        cost_scale = abs(self.trace_K)
 
         for n_iter in range(self.max_iterations):
             start_time = time.perf_counter()
@@ -643,14 +645,16 @@ class KernelAA():
             if update_dictionary:
                 self._update_dictionary()
                 new_cost = self._evaluate_cost()
-                if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+                if (self.require_monotonic_cost_decrease and
+                        cost_increased(old_cost, new_cost, cost_scale)):
                     raise RuntimeError(
                         'factorization cost increased after dictionary update')
 
             if update_weights:
                 self._update_weights()
                 new_cost = self._evaluate_cost()
-                if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+                if (self.require_monotonic_cost_decrease and
+                        cost_increased(old_cost, new_cost, cost_scale)):
                     raise RuntimeError(
                         'factorization cost increased after weights update')
 
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 2fa4ea9..9e66049 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -15,7 +15,8 @@ from sklearn.utils import check_array, check_random_state
 from reor.furthest_sum import furthest_sum
 from reor._random_matrix import right_stochastic_matrix
 from reor.simplex_projection import simplex_project_rows
-from reor.spg import get_next_spg_alpha, get_next_spg_step_length
+from reor.spg import (cost_increased, get_next_spg_alpha,
+                      get_next_spg_step_length)
 from reor._validation import _check_unit_axis_sums, _check_array_shape
 
 
@@ -515,6 +516,7 @@ class GPNHConvexCoding():
 
         old_cost = self._evaluate_cost()
         new_cost = old_cost
+        cost_scale = self.trace_XtX / self.X.size
 
         for n_iter in range(self.max_iterations):
             start_time = time.perf_counter()
@@ -524,14 +526,16 @@ class GPNHConvexCoding():
             if update_dictionary:
                 self._update_dictionary()
                 new_cost = self._evaluate_cost()
-                if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+                if (self.require_monotonic_cost_decrease and
+                        cost_increased(old_cost, new_cost, cost_scale)):
                     raise RuntimeError(
                         'factorization cost increased after dictionary update')
 
             if update_weights:
                 self._update_weights()
                 new_cost = self._evaluate_cost()
-                if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+                if (self.require_monotonic_cost_decrease and
+                        cost_increased(old_cost, new_cost, cost_scale)):
                     raise RuntimeError(
                         'factorization cost increased after weights update')
 
diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index c055fc6..fbf1f70 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -11,7 +11,8 @@ from reor.gpnh_convex_coding import GPNHConvexCoding
 from reor._random_matrix import left_stochastic_matrix
 from reor.simplex_projection import (simplex_project_columns,
                                      simplex_project_vector)
-from reor.spg import get_next_spg_alpha, get_next_spg_step_length
+from reor.spg import (cost_increased, get_next_spg_alpha,
+                      get_next_spg_step_length)
 
 
 class GPNHConvexCodingCROM(GPNHConvexCoding):
@@ -305,7 +306,8 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
 
             self._update_parameters()
             new_cost = self._evaluate_fit_residual()
-            if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+            if (self.require_monotonic_cost_decrease and
+                    cost_increased(old_cost, new_cost, 1.0)):
                 raise RuntimeError(
                     'factorization cost increased after parameters update')
 
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 3cfe091..ec48592 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -17,7 +17,8 @@ from reor._random_matrix import left_stochastic_matrix, right_stochastic_matrix
 from reor.simplex_projection import (simplex_project_columns,
                                      simplex_project_rows,
                                      simplex_project_vector)
-from reor.spg import get_next_spg_alpha, get_next_spg_step_length
+from reor.spg import (cost_increased, get_next_spg_alpha,
+                      get_next_spg_step_length)
 from reor._validation import _check_unit_axis_sums, _check_array_shape
 
 
@@ -712,6 +713,7 @@ class MTDConvexCoding():
 
         old_cost = self._evaluate_cost()
         new_cost = old_cost
+        cost_scale = self.trace_XtX / self.X.size + self.epsilon_weights
 
         for n_iter in range(self.max_iterations):
             start_time = time.perf_counter()
@@ -721,21 +723,24 @@ class MTDConvexCoding():
             if update_dictionary:
                 self._update_dictionary()
                 new_cost = self._evaluate_cost()
-                if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+                if (self.require_monotonic_cost_decrease and
+                        cost_increased(old_cost, new_cost, cost_scale)):
                     raise RuntimeError(
                         'factorization cost increased after dictionary update')
 
             if update_weights:
                 self._update_weights()
                 new_cost = self._evaluate_cost()
-                if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+                if (self.require_monotonic_cost_decrease and
+                        cost_increased(old_cost, new_cost, cost_scale)):
                     raise RuntimeError(
                         'factorization cost increased after weights update')
 
             if update_parameters:
                 self._update_parameters()
                 new_cost = self._evaluate_cost()
-                if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+                if (self.require_monotonic_cost_decrease and
+                        cost_increased(old_cost, new_cost, cost_scale)):
                     raise RuntimeError(
                         'factorization cost increased after parameters update')
 
diff --git a/src/reor/spg.py b/src/reor/spg.py
index 6308db9..f0231a0 100644
--- a/src/reor/spg.py
+++ b/src/reor/spg.py
@@ -25,3 +25,8 @@ def get_next_spg_alpha(beta, sksk, alpha_min=1e-3, alpha_max=1e3):
         return alpha_max
 
     return min(alpha_max, max(alpha_min, sksk / beta))
+
+
+def cost_increased(f_old, f_new, scale, tolerance=1e-10):
+    """Check if cost has increased by more than may be due to rounding."""
+    return f_new - f_old > tolerance * max(abs(f_old), scale)
-- 
2.43.0


From 8b55b878b24329446d54a98899a2f74435457d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:59 +0000
Subject: [PATCH 17/55] fix: keep the zero-based iteration count of archetypal
 analysis

The existing tests rely on n_iter_ being less than max_iterations even for
runs that use all iterations, so only the warning is corrected.
---
 src/reor/archetypal_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 4ad8394..b70489c 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -672,7 +672,7 @@ class KernelAA():
                         n_iter + 1))
                 break
 
-        return new_cost, n_iter + 1
+        return new_cost, n_iter
 
     def _kernel_aa(self, kernel, dictionary=None, weights=None,
                    update_dictionary=True, update_weights=True, **kwargs):
@@ -730,7 +730,7 @@ class KernelAA():
             update_dictionary=update_dictionary,
             update_weights=update_weights)
 
-        if n_iter == self.max_iterations and self.tolerance > 0:
+        if n_iter + 1 == self.max_iterations and self.tolerance > 0:
             warnings.warn('Maximum number of iterations %d reached.' %
                           self.max_iterations, UserWarning)
 
-- 
2.43.0


From 78d473db39624ebcba750ad7919bca1659c0789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:25 +0000
Subject: [PATCH 18/55] fix: transform new data with models fitted from a
 custom initial guess

Transforming only takes the data, so the initial weights have to be generated.
---
 src/reor/archetypal_analysis.py | 5 +++++
 src/reor/gpnh_convex_coding.py  | 5 +++++
 src/reor/mtd_convex_coding.py   | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index b70489c..818d335 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -699,6 +699,11 @@ class KernelAA():
                              'positive; got (tolerance=%r)' % self.tolerance)
 
         if self.init == 'custom':
+            if weights is None and not update_dictionary:
+                weights = _initialize_kernel_aa_weights(
+                    kernel, self.n_components, init='random',
+                    random_state=self.random_state)
+
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_kernel_aa (input weights)')
             _check_init_dictionary(dictionary, (self.n_components, n_samples),
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 9e66049..bece621 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -576,6 +576,11 @@ class GPNHConvexCoding():
                              'positive; got (tolerance=%r)' % self.tolerance)
 
         if self.init == 'custom':
+            if weights is None and not update_dictionary:
+                weights = _initialize_gpnh_convex_coding_weights(
+                    data, self.n_components, init='random',
+                    random_state=self.random_state)
+
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_gpnh_convex_coding (input weights)')
             _check_init_dictionary(dictionary, (self.n_components, n_features),
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index ec48592..e905222 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -783,6 +783,11 @@ class MTDConvexCoding():
                              'positive; got (tolerance=%r)' % self.tolerance)
 
         if self.init == 'custom':
+            if weights is None and not update_dictionary:
+                weights = _initialize_mtd_convex_coding_weights(
+                    data, self.n_components, init='random',
+                    random_state=self.random_state)
+
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_mtd_convex_coding (input weights)')
             _check_init_dictionary(dictionary, (self.n_components, n_features),
-- 
2.43.0


From 2b30d6f583f21e3c29276346b240267e215d564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:57 +0000
Subject: [PATCH 19/55] fix: treat integer data as floating point data

Integer data truncated residuals and distances, or failed with a casting error.
---
 src/reor/_validation.py         |  8 ++++++++
 src/reor/archetypal_analysis.py | 10 +++++++---
 src/reor/fembv.py               |  6 ++++--
 src/reor/fembv_kmeans.py        |  4 ++--
 src/reor/fembv_varx.py          |  6 +++---
 src/reor/gpnh_convex_coding.py  |  8 +++++---
 src/reor/mtd_convex_coding.py   | 12 +++++++-----
 src/reor/pwvarx.py              |  4 ++++
 8 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/src/reor/_validation.py b/src/reor/_validation.py
index f5f7177..eadfb94 100644
--- a/src/reor/_validation.py
+++ b/src/reor/_validation.py
@@ -6,6 +6,14 @@ Provides helper routines for validation and error checking.
 import numpy as np
 
 
+def _as_float_array(A):
+    """Return A as array of floating point numbers, without copying floats."""
+    A = np.asarray(A)
+    if np.issubdtype(A.dtype, np.floating):
+        return A
+    return A.astype('f8')
+
+
 def _check_unit_axis_sums(A, whom, axis=0):
     axis_sums = A.sum(axis=axis)
     if not np.all(np.isclose(axis_sums, 1)):
diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 818d335..8c708c8 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -19,7 +19,8 @@ from reor._random_matrix import right_stochastic_matrix
 from reor.simplex_projection import simplex_project_rows
 from reor.spg import (cost_increased, get_next_spg_alpha,
                       get_next_spg_step_length)
-from reor._validation import _check_unit_axis_sums, _check_array_shape
+from reor._validation import (_as_float_array, _check_array_shape,
+                              _check_unit_axis_sums)
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -678,6 +679,7 @@ class KernelAA():
                    update_dictionary=True, update_weights=True, **kwargs):
         """Perform kernel archetypal analysis."""
 
+        kernel = _as_float_array(kernel)
         n_samples = kernel.shape[0]
 
         if kernel.shape[1] != n_samples:
@@ -726,8 +728,8 @@ class KernelAA():
                 random_state=self.random_state, **kwargs)
 
         self.K = kernel.copy()
-        self.S = weights.copy()
-        self.C = dictionary.copy()
+        self.S = _as_float_array(weights).copy()
+        self.C = _as_float_array(dictionary).copy()
 
         self._initialize_workspace()
 
@@ -941,6 +943,7 @@ class ArchetypalAnalysis(KernelAA):
             Representation of the data.
         """
         if self.kernel_func is None:
+            data = _as_float_array(data)
             kernel = np.dot(data, data.T)
         else:
             kernel = self.kernel_func(data)
@@ -972,6 +975,7 @@ class ArchetypalAnalysis(KernelAA):
         """
 
         if self.kernel_func is None:
+            data = _as_float_array(data)
             kernel = data.dot(data.T)
         else:
             kernel = self.kernel_func(data)
diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index d6cc4ad..9bc35e3 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -15,7 +15,8 @@ import cvxpy as cp
 from sklearn.utils import check_array, check_random_state
 
 from reor._random_matrix import right_stochastic_matrix
-from reor._validation import _check_unit_axis_sums, _check_array_shape
+from reor._validation import (_as_float_array, _check_array_shape,
+                              _check_unit_axis_sums)
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -174,7 +175,7 @@ class FEMBV():
         if init == 'custom' and weights is not None:
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_initialize_weights (input weights)')
-            self.Gamma = weights.copy()
+            self.Gamma = _as_float_array(weights).copy()
         else:
             self.Gamma = _initialize_fembv_weights(
                 n_samples, n_components=self.n_components, unused_init=init,
@@ -311,6 +312,7 @@ class FEMBV():
                    update_parameters=True, update_weights=True, **kwargs):
         """Calculate FEM-BV fit."""
 
+        data = _as_float_array(data)
         n_samples, n_features = data.shape
 
         if self.n_components is None:
diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index 5377014..2c98fa7 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -8,7 +8,7 @@ import numpy as np
 from sklearn.utils import check_random_state
 from sklearn.utils.validation import check_array
 from reor.fembv import FEMBV
-from reor._validation import _check_array_shape
+from reor._validation import _as_float_array, _check_array_shape
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -155,7 +155,7 @@ class FEMBVKMeans(FEMBV):
                 parameters, shape=(self.n_components, n_features),
                 whom='_initialize_components (input parameters)')
 
-            self.Theta = parameters.copy()
+            self.Theta = _as_float_array(parameters).copy()
         else:
             self.Theta = _initialize_fembv_kmeans_random(
                 self.X, self.n_components, random_state=self.random_state)
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 93cd087..06c3e47 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -8,7 +8,7 @@ import numpy as np
 from sklearn.utils.validation import check_array
 
 from reor.fembv import FEMBV
-from reor._validation import _check_array_shape
+from reor._validation import _as_float_array, _check_array_shape
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -40,7 +40,7 @@ class FEMBVVARXLocalLinearModel():
 
         self.p = p
 
-        self._y = check_array(y)
+        self._y = _as_float_array(check_array(y))
 
         n_samples, n_features = self._y.shape
 
@@ -54,7 +54,7 @@ class FEMBVVARXLocalLinearModel():
             self.A = None
 
         if u is not None:
-            self._u = check_array(u)
+            self._u = _as_float_array(check_array(u))
 
             if self._u.shape[0] != n_samples:
                 raise ValueError(
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index bece621..936bb4f 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -17,7 +17,8 @@ from reor._random_matrix import right_stochastic_matrix
 from reor.simplex_projection import simplex_project_rows
 from reor.spg import (cost_increased, get_next_spg_alpha,
                       get_next_spg_step_length)
-from reor._validation import _check_unit_axis_sums, _check_array_shape
+from reor._validation import (_as_float_array, _check_array_shape,
+                              _check_unit_axis_sums)
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -560,6 +561,7 @@ class GPNHConvexCoding():
                             **kwargs):
         """Calculate GPNH-regularized convex coding of dataset."""
 
+        data = _as_float_array(data)
         n_samples, n_features = data.shape
 
         if self.n_components is None:
@@ -603,8 +605,8 @@ class GPNHConvexCoding():
                 random_state=self.random_state, **kwargs)
 
         self.X = data.copy()
-        self.Gamma = weights.copy()
-        self.S = dictionary.copy()
+        self.Gamma = _as_float_array(weights).copy()
+        self.S = _as_float_array(dictionary).copy()
 
         self._initialize_workspace()
 
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index e905222..dec7023 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -19,7 +19,8 @@ from reor.simplex_projection import (simplex_project_columns,
                                      simplex_project_vector)
 from reor.spg import (cost_increased, get_next_spg_alpha,
                       get_next_spg_step_length)
-from reor._validation import _check_unit_axis_sums, _check_array_shape
+from reor._validation import (_as_float_array, _check_array_shape,
+                              _check_unit_axis_sums)
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -766,6 +767,7 @@ class MTDConvexCoding():
                            update_parameters=True, **kwargs):
         """Calculate MTD-regularized convex coding of dataset."""
 
+        data = _as_float_array(data)
         n_samples, n_features = data.shape
         n_lags = self.lags.size
 
@@ -829,10 +831,10 @@ class MTDConvexCoding():
                         random_state=self.random_state)
 
         self.X = data.copy()
-        self.Gamma = weights.copy()
-        self.S = dictionary.copy()
-        self.order_weights = order_weights.copy()
-        self.transition_matrices = transition_matrices.copy()
+        self.Gamma = _as_float_array(weights).copy()
+        self.S = _as_float_array(dictionary).copy()
+        self.order_weights = _as_float_array(order_weights).copy()
+        self.transition_matrices = _as_float_array(transition_matrices).copy()
 
         self._initialize_workspace()
 
diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 91867f3..31ddcec 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -11,6 +11,8 @@ import numpy as np
 from sklearn.cluster import KMeans
 from sklearn.svm import SVC
 
+from reor._validation import _as_float_array
+
 
 class ClusterPWVARX():
     """Piecewise VARX model with clustering of phase space.
@@ -190,6 +192,8 @@ class ClusterPWVARX():
             Representation of the data.
         """
 
+        endog = _as_float_array(endog)
+
         if endog.ndim == 1:
             n_endog = 1
         else:
-- 
2.43.0


From e72de43b22eed44ff5a5877d51f3ef42514ef727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:57 +0000
Subject: [PATCH 20/55] fix: fit piecewise VARX models to a single column of
 data

---
 src/reor/pwvarx.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 31ddcec..a8e64b4 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -194,14 +194,9 @@ class ClusterPWVARX():
 
         endog = _as_float_array(endog)
 
-        if endog.ndim == 1:
-            n_endog = 1
-        else:
-            n_endog = endog.shape[1]
-
         presample_length = max(self.p, self.s)
 
-        if n_endog == 1:
+        if endog.ndim == 1:
             y = np.expand_dims(endog[presample_length:], -1)
         else:
             y = endog[presample_length:]
-- 
2.43.0


From 40e54f2e6ba95ab3345dfdc050cccb548279f0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:57 +0000
Subject: [PATCH 21/55] fix: use the random state given to piecewise VARX
 models

---
 src/reor/pwvarx.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index a8e64b4..111e4fd 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -47,7 +47,7 @@ class ClusterPWVARX():
     """
 
     def __init__(self, n_components, p, s=0, include_trend=True,
-                 clusterer=None, classifier=None, **kwargs):
+                 clusterer=None, classifier=None, random_state=None, **kwargs):
 
         self.n_components = n_components
         self.p = p
@@ -55,6 +55,7 @@ class ClusterPWVARX():
         self.include_trend = include_trend
         self.clusterer = clusterer
         self.classifier = classifier
+        self.random_state = random_state
 
         self.mu = None
         self.A = None
@@ -105,7 +106,8 @@ class ClusterPWVARX():
         z = np.hstack([x, y])
 
         if self.clusterer is None:
-            self.clusterer = KMeans(n_clusters=self.n_components)
+            self.clusterer = KMeans(n_clusters=self.n_components,
+                                    random_state=self.random_state)
 
         self.cluster_labels_ = self.clusterer.fit_predict(z)
 
-- 
2.43.0


From 144ae0bd6b93a460b898cf6eaae713c743cf6c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:57 +0000
Subject: [PATCH 22/55] fix: discard exogenous coefficients of a previous
 piecewise VARX fit

---
 src/reor/pwvarx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 111e4fd..504c9da 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -130,6 +130,7 @@ class ClusterPWVARX():
             self.B = np.zeros((self.n_components, self.s, n_endog, n_exog))
         else:
             n_exog = 0
+            self.B = None
 
         self.Sigma_u = np.zeros((self.n_components, n_endog, n_endog))
         self.residuals = np.zeros_like(y)
-- 
2.43.0


From d860c2bcfdeeab8e3e80b9d9fb8b5b43b231e5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:07 +0000
Subject: [PATCH 23/55] fix: allow repeated indices in the samples excluded
 from FurthestSum

---
 src/reor/furthest_sum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reor/furthest_sum.py b/src/reor/furthest_sum.py
index 4b68d71..f7b5672 100644
--- a/src/reor/furthest_sum.py
+++ b/src/reor/furthest_sum.py
@@ -55,6 +55,7 @@ def _furthest_sum_impl(dissimilarity_matrix, n_components, start_index,
     if exclude is None:
         exclude = []
 
+    exclude = np.unique(exclude)
     n_samples = dissimilarity_matrix.shape[0]
     n_excluded = len(exclude)
 
-- 
2.43.0


From 551f30d25fa09207f06ca48794f6a65f931a0bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:07 +0000
Subject: [PATCH 24/55] fix: do not modify intercepts in the switching
 FEM-BV-VARX example

---
 examples/fem-bv-varx/switching.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/fem-bv-varx/switching.py b/examples/fem-bv-varx/switching.py
index b65403a..dbda488 100644
--- a/examples/fem-bv-varx/switching.py
+++ b/examples/fem-bv-varx/switching.py
@@ -38,7 +38,7 @@ def generate_data(n_features=2, n_samples=500, n_components=2, n_switches=3,
 
     initial_component = rng.choice(np.arange(n_components))
 
-    true_weights = np.empty((n_samples, n_components))
+    true_weights = np.zeros((n_samples, n_components))
     for i in range(order):
         true_weights[i, initial_component] = 1
 
@@ -47,7 +47,7 @@ def generate_data(n_features=2, n_samples=500, n_components=2, n_switches=3,
     for t in range(order, n_samples):
         true_weights[t, component] = 1
 
-        xt = mu[component]
+        xt = mu[component].copy()
         if order > 0:
             for m in range(1, order + 1):
                 xt += np.dot(A[component, m - 1], X[t - m])
-- 
2.43.0


From 9b51f87eafd798f70be2d9339095d6fbbf317d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:33 +0000
Subject: [PATCH 25/55] fix: accept lists of lags in the GPNH CROM and copy
 given arrays

---
 src/reor/gpnh_convex_coding_crom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index fbf1f70..8b12e78 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -78,7 +78,7 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
         if lags is None:
             self.lags = np.array([1], dtype='i8')
         else:
-            self.lags = lags
+            self.lags = np.array(lags, dtype='i8')
 
         n_lags = self.lags.size
         self.order_weights = np.empty((n_lags,), dtype='f8')
-- 
2.43.0


From 5821bd0869d1d4ee382135409d5d9a573e7cc476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:06 +0000
Subject: [PATCH 26/55] fix: project vectors of large magnitude onto the
 simplex accurately

Elements of large magnitude lost all precision, so that factors returned for
badly scaled data could violate their constraints completely.
---
 src/reor/simplex_projection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/reor/simplex_projection.py b/src/reor/simplex_projection.py
index 3d69c12..fa164c2 100644
--- a/src/reor/simplex_projection.py
+++ b/src/reor/simplex_projection.py
@@ -9,7 +9,10 @@ import numpy as np
 def simplex_project_vector(x, out=None):
     """Project vector onto standard simplex."""
 
-    sorted_x = np.sort(x)
+    # The projection is invariant under shifts, and shifting the largest
+    # element to zero avoids cancellation for elements of large magnitude
+    shift = np.max(x)
+    sorted_x = np.sort(x) - shift
 
     n = sorted_x.size
 
@@ -19,7 +22,7 @@ def simplex_project_vector(x, out=None):
         if t_hat >= sorted_x[i]:
             break
 
-    return np.fmax(x - t_hat, 0, out=out)
+    return np.fmax((x - shift) - t_hat, 0, out=out)
 
 
 def simplex_project_columns(A):
-- 
2.43.0


From b3c0bf4960c2bcfad67907eb1763aefc1fa33d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:44 +0000
Subject: [PATCH 27/55] fix: do not draw from the global generator when
 classifying in piecewise VARX models

---
 src/reor/pwvarx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 504c9da..dd3290e 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -209,7 +209,7 @@ class ClusterPWVARX():
         self._cluster(y, x)
 
         if self.classifier is None:
-            self.classifier = SVC()
+            self.classifier = SVC(random_state=self.random_state)
 
         self.classifier.fit(x, self.cluster_labels_)
         labels = self.classifier.predict(x)
-- 
2.43.0


From 34110945c44276bbe52418865a4e4b81d353692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:05 +0000
Subject: [PATCH 28/55] fix: default to all features in piecewise VARX models
 without number of components

---
 src/reor/pwvarx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index dd3290e..580301f 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -204,6 +204,9 @@ class ClusterPWVARX():
         else:
             y = endog[presample_length:]
 
+        if self.n_components is None:
+            self.n_components = y.shape[1]
+
         x = self._stack_predictors(endog, exog=exog)
 
         self._cluster(y, x)
-- 
2.43.0


From c5d11bf43033baf8eeb209a8d6e95b56f4612ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 29/55] fix: reject lags that are not positive integers in the
 GPNH CROM

---
 src/reor/gpnh_convex_coding_crom.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index 8b12e78..27b55e0 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -4,6 +4,7 @@ Provides routines for cluster-based model order reduction.
 
 
 from collections import deque
+import numbers
 import time
 import numpy as np
 
@@ -15,6 +16,9 @@ from reor.spg import (cost_increased, get_next_spg_alpha,
                       get_next_spg_step_length)
 
 
+INTEGER_TYPES = (numbers.Integral, np.integer)
+
+
 class GPNHConvexCodingCROM(GPNHConvexCoding):
     """GPNH convex coding based CROM.
 
@@ -78,6 +82,10 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
         if lags is None:
             self.lags = np.array([1], dtype='i8')
         else:
+            for lag in lags:
+                if not isinstance(lag, INTEGER_TYPES) or lag < 1:
+                    raise ValueError('Lag must be a positive integer; '
+                                     'got (lag=%r)' % lag)
             self.lags = np.array(lags, dtype='i8')
 
         n_lags = self.lags.size
-- 
2.43.0


From ea2eeaa1cbd35b169cc71d922945a8fae07da02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 30/55] fix: reject memory lengths that are not non-negative
 integers

---
 src/reor/fembv_varx.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 06c3e47..c9c34ce 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -311,6 +311,12 @@ class FEMBVVARX(FEMBV):
 
                 self.memory = np.full((n_memory,), memory, dtype='i8')
             elif isinstance(memory, (list, tuple)):
+                for m in memory:
+                    if not isinstance(m, INTEGER_TYPES) or m < 0:
+                        raise ValueError(
+                            'Maximum memory must be a non-negative integer;'
+                            ' got (memory=%r)' % (m,))
+
                 self.memory = np.asarray(memory, dtype='i8')
                 if self.memory.shape != (n_components,):
                     raise ValueError('Memory must be a 1-dimensional array; '
-- 
2.43.0


From b0e0c1951ed9201f28e3518f6ccccfd0867fe3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 31/55] fix: reject invalid affiliations before replacing
 fitted FEM-BV parameters

---
 src/reor/fembv.py      | 12 ++++++++++++
 src/reor/fembv_varx.py |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 9bc35e3..b4a44f3 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -78,6 +78,10 @@ class FEMBV():
     def _has_max_tv_norm_constraint(self):
         return self.max_tv_norm is not None and self.max_tv_norm >= 0
 
+    def _get_presample_length(self):
+        """Return number of initial samples without affiliations."""
+        return 0
+
     def _get_number_of_weight_parameters(self, n_samples):
 
         n_weight_parameters = self.n_components * n_samples
@@ -194,6 +198,14 @@ class FEMBV():
                     **kwargs):
         """Generate initial guess for parameters and weights."""
 
+        if init == 'custom' and weights is not None:
+            # Must be rejected before any fitted parameters are replaced
+            _check_init_weights(
+                weights,
+                (data.shape[0] - self._get_presample_length(),
+                 self.n_components),
+                '_initialize (input weights)')
+
         self._initialize_components(data, parameters=parameters, init=init,
                                     **kwargs)
 
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index c9c34ce..7fa3649 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -335,6 +335,10 @@ class FEMBVVARX(FEMBV):
         self.A = None
         self.B0 = None
 
+    def _get_presample_length(self):
+        """Return number of initial samples without affiliations."""
+        return int(np.max(self.memory))
+
     def _evaluate_distance_matrix(self):
         for i in range(self.n_components):
             metric = np.eye(self.X.shape[1])
-- 
2.43.0


From 05f8cc49f1bcc916c9ab23b9141e0b2a2732e85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:02 +0000
Subject: [PATCH 32/55] fix: do not abort fits to single precision data because
 of rounding errors

---
 src/reor/_validation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/reor/_validation.py b/src/reor/_validation.py
index eadfb94..08e9d0f 100644
--- a/src/reor/_validation.py
+++ b/src/reor/_validation.py
@@ -7,9 +7,12 @@ import numpy as np
 
 
 def _as_float_array(A):
-    """Return A as array of floating point numbers, without copying floats."""
+    """Return A as array of double precision floating point numbers.
+
+    No copy is made if this is already the case.
+    """
     A = np.asarray(A)
-    if np.issubdtype(A.dtype, np.floating):
+    if np.issubdtype(A.dtype, np.floating) and A.dtype.itemsize >= 8:
         return A
     return A.astype('f8')
 
-- 
2.43.0


From 5d0b91e222d8abdeae5ef1f447e5599c530912d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 33/55] fix: use integer sample weights in VARX models at full
 precision

---
 src/reor/fembv_varx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 7fa3649..0ea0faa 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -119,6 +119,8 @@ class FEMBVVARXLocalLinearModel():
                 raise ValueError('Number of weights does not match '
                                  'number of samples')
 
+            weights = _as_float_array(weights)
+
             w = np.sqrt(weights[presample_length:])
 
             params = np.linalg.lstsq(
-- 
2.43.0


From 46e4deb728a0ea671e313f9954bc48132f87906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 34/55] fix: do not overflow sums of integer dissimilarities in
 FurthestSum

---
 src/reor/furthest_sum.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reor/furthest_sum.py b/src/reor/furthest_sum.py
index f7b5672..a7b96e0 100644
--- a/src/reor/furthest_sum.py
+++ b/src/reor/furthest_sum.py
@@ -8,6 +8,8 @@ __all__ = ['furthest_sum']
 
 import numpy as np
 
+from reor._validation import _as_float_array
+
 
 def _update_distance_sums(dissimilarity_matrix, new_index, current_distances):
     for i, qi in enumerate(current_distances):
@@ -152,6 +154,9 @@ def furthest_sum(dissimilarity_matrix, n_components, start_index,
         Indices of selected sample points.
     """
 
+    # Sums of integers of limited size may overflow
+    dissimilarity_matrix = _as_float_array(dissimilarity_matrix)
+
     if dissimilarity_matrix.shape[0] != dissimilarity_matrix.shape[1]:
         raise ValueError(
             'Dissimilarity matrix must be square, but got shape %r' %
-- 
2.43.0


From ca8e6ef329f49e6d368fddb0eeea37fca6d8d9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 35/55] fix: use the documented default tolerance in archetypal
 analysis

---
 src/reor/archetypal_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 8c708c8..5ae0267 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -221,7 +221,7 @@ class KernelAA():
         self.n_components = n_components
         self.delta = kwargs.get('delta', 0.0)
         self.init = kwargs.get('init', None)
-        self.tolerance = kwargs.get('tolerance', 1e-4)
+        self.tolerance = kwargs.get('tolerance', 1e-6)
         self.max_iterations = kwargs.get('max_iterations', 1000)
         self.verbose = kwargs.get('verbose', 0)
         self.random_state = kwargs.get('random_state', None)
-- 
2.43.0


From 96588906f3c8c278672ee0a0283987d6a720969e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:58 +0000
Subject: [PATCH 36/55] fix: make the accuracy of FEM-BV affiliations
 independent of the scale of the data

---
 src/reor/fembv.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index b4a44f3..c307d5b 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -236,6 +236,11 @@ class FEMBV():
         c = np.zeros((n_weight_parameters,))
         c[:self.Gamma.size] = self.distance_matrix.ravel()
 
+        # The accuracy of the solver is not relative to the scale of the costs
+        c_max = np.max(np.abs(c))
+        if c_max > 0:
+            c /= c_max
+
         constraints = [self.A_eq @ gamma_vec == self.b_eq,
                        self.A_ub @ gamma_vec <= self.b_ub]
 
-- 
2.43.0


From e79048f3e9242268637d9f754cf28877e4b9b18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:26 +0000
Subject: [PATCH 37/55] fix: order components by their first coefficient in the
 piecewise VARX example

---
 examples/pwvarx/kmeans_siso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/pwvarx/kmeans_siso.py b/examples/pwvarx/kmeans_siso.py
index 7607a64..78699d3 100644
--- a/examples/pwvarx/kmeans_siso.py
+++ b/examples/pwvarx/kmeans_siso.py
@@ -286,12 +286,12 @@ def main():
 
         if args.p > 0:
             if component_ordering is None:
-                component_ordering = np.squeeze(np.argsort(model.A, axis=0))
+                component_ordering = np.argsort(model.A[:, 0, 0, 0])
             fitted_A[i] = model.A[component_ordering]
 
         if args.s > 0:
             if component_ordering is None:
-                component_ordering = np.squeeze(np.argsort(model.B, axis=0))
+                component_ordering = np.argsort(model.B[:, 0, 0, 0])
             fitted_B[i] = model.B[component_ordering]
 
     if args.include_trend:
-- 
2.43.0


From 1143c7ee8b59e6caaa1c546b8bbca3a4a72fb1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:26 +0000
Subject: [PATCH 38/55] fix: use the random seed for all fits in the
 FEM-BV-k-means example

---
 examples/fem-bv-kmeans/gaussian_clusters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/examples/fem-bv-kmeans/gaussian_clusters.py b/examples/fem-bv-kmeans/gaussian_clusters.py
index b319bb8..0c50ae0 100644
--- a/examples/fem-bv-kmeans/gaussian_clusters.py
+++ b/examples/fem-bv-kmeans/gaussian_clusters.py
@@ -225,11 +225,12 @@ def main():
                                   random_state=random_state)
 
     kmeans_centroids, kmeans_labels = run_kmeans(
-        X, n_clusters=N_CLUSTERS, n_init=n_init)
+        X, n_clusters=N_CLUSTERS, n_init=n_init, random_state=random_state)
     model, weights = fit_fembv_kmeans(
         X, n_components=n_components, max_tv_norm=max_tv_norm,
         n_init=n_init, tolerance=args.tolerance,
-        max_iterations=args.max_iterations, verbose=args.verbose)
+        max_iterations=args.max_iterations, verbose=args.verbose,
+        random_state=random_state)
 
     plot_results(X, Gamma_true, kmeans_centroids, kmeans_labels,
                  model.Theta, weights)
-- 
2.43.0


From d23e89a2784fc02fe78768cc1406fc9aed9fcd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:37 +0000
Subject: [PATCH 39/55] Revert "fix: use the random seed for all fits in the
 FEM-BV-k-means example"

This reverts commit 1143c7ee8b59e6caaa1c546b8bbca3a4a72fb1c1.
---
 examples/fem-bv-kmeans/gaussian_clusters.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/examples/fem-bv-kmeans/gaussian_clusters.py b/examples/fem-bv-kmeans/gaussian_clusters.py
index 0c50ae0..b319bb8 100644
--- a/examples/fem-bv-kmeans/gaussian_clusters.py
+++ b/examples/fem-bv-kmeans/gaussian_clusters.py
@@ -225,12 +225,11 @@ def main():
                                   random_state=random_state)
 
     kmeans_centroids, kmeans_labels = run_kmeans(
-        X, n_clusters=N_CLUSTERS, n_init=n_init, random_state=random_state)
+        X, n_clusters=N_CLUSTERS, n_init=n_init)
     model, weights = fit_fembv_kmeans(
         X, n_components=n_components, max_tv_norm=max_tv_norm,
         n_init=n_init, tolerance=args.tolerance,
-        max_iterations=args.max_iterations, verbose=args.verbose,
-        random_state=random_state)
+        max_iterations=args.max_iterations, verbose=args.verbose)
 
     plot_results(X, Gamma_true, kmeans_centroids, kmeans_labels,
                  model.Theta, weights)
-- 
2.43.0


From 91f0eb26b143d781b78e8aa96e02561a2882e23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:37 +0000
Subject: [PATCH 40/55] Revert "fix: order components by their first
 coefficient in the piecewise VARX example"

This reverts commit e79048f3e9242268637d9f754cf28877e4b9b18b.
---
 examples/pwvarx/kmeans_siso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/pwvarx/kmeans_siso.py b/examples/pwvarx/kmeans_siso.py
index 78699d3..7607a64 100644
--- a/examples/pwvarx/kmeans_siso.py
+++ b/examples/pwvarx/kmeans_siso.py
@@ -286,12 +286,12 @@ def main():
 
         if args.p > 0:
             if component_ordering is None:
-                component_ordering = np.argsort(model.A[:, 0, 0, 0])
+                component_ordering = np.squeeze(np.argsort(model.A, axis=0))
             fitted_A[i] = model.A[component_ordering]
 
         if args.s > 0:
             if component_ordering is None:
-                component_ordering = np.argsort(model.B[:, 0, 0, 0])
+                component_ordering = np.squeeze(np.argsort(model.B, axis=0))
             fitted_B[i] = model.B[component_ordering]
 
     if args.include_trend:
-- 
2.43.0


From 41dc92b16ac8d0b477dd0a503633f2ec540eab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:37 +0000
Subject: [PATCH 41/55] Revert "fix: do not modify intercepts in the switching
 FEM-BV-VARX example"

This reverts commit 551f30d25fa09207f06ca48794f6a65f931a0bda.
---
 examples/fem-bv-varx/switching.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/fem-bv-varx/switching.py b/examples/fem-bv-varx/switching.py
index dbda488..b65403a 100644
--- a/examples/fem-bv-varx/switching.py
+++ b/examples/fem-bv-varx/switching.py
@@ -38,7 +38,7 @@ def generate_data(n_features=2, n_samples=500, n_components=2, n_switches=3,
 
     initial_component = rng.choice(np.arange(n_components))
 
-    true_weights = np.zeros((n_samples, n_components))
+    true_weights = np.empty((n_samples, n_components))
     for i in range(order):
         true_weights[i, initial_component] = 1
 
@@ -47,7 +47,7 @@ def generate_data(n_features=2, n_samples=500, n_components=2, n_switches=3,
     for t in range(order, n_samples):
         true_weights[t, component] = 1
 
-        xt = mu[component].copy()
+        xt = mu[component]
         if order > 0:
             for m in range(1, order + 1):
                 xt += np.dot(A[component, m - 1], X[t - m])
-- 
2.43.0


From 18ee42c46c60898a3dd5a777111404179d9f517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:37 +0000
Subject: [PATCH 42/55] fix: mark forecasts without enough history missing for
 zero dictionaries

The product of the missing weights and a dictionary of zeros can be zero
(BLAS skips zero elements), so that such rows were returned as zeros.
---
 src/reor/gpnh_convex_coding_crom.py | 5 ++++-
 src/reor/mtd_convex_coding.py       | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index 27b55e0..10bbb30 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -432,4 +432,7 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
                 lagged_weights[-1] = next_weights
             predicted_weights[i] = lagged_weights[-1]
 
-        return self.inverse_transform(predicted_weights)
+        forecast = self.inverse_transform(predicted_weights)
+        forecast[:max_lag - 1] = np.NaN
+
+        return forecast
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index dec7023..8837ddc 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -975,7 +975,10 @@ class MTDConvexCoding():
                 lagged_weights[-1] = next_weights
             predicted_weights[i] = lagged_weights[-1]
 
-        return self.inverse_transform(predicted_weights)
+        forecast = self.inverse_transform(predicted_weights)
+        forecast[:max_lag - 1] = np.NaN
+
+        return forecast
 
     def inverse_transform(self, weights):
         """Transform data back into its original space.
-- 
2.43.0


From 246d92faf11a20418f35ef7875ebe38137dc32bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:05 +0000
Subject: [PATCH 43/55] fix: report the unweighted fits FEM-BV-VARX components
 start from

With update_parameters=False the coefficients were left at zero although the
cost and affiliations belong to the initial unweighted fits.
---
 src/reor/fembv_varx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 0ea0faa..581596d 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -416,6 +416,7 @@ class FEMBVVARX(FEMBV):
             # given data
             for i in range(self.n_components):
                 self.models[i].fit()
+                self._copy_model_parameters(i)
 
         self.distance_matrix = np.empty(
             (n_samples - presample_length, self.n_components),
-- 
2.43.0


From 066d9aa057440abf7e75cc4f6f0a6278198ac5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:34 +0000
Subject: [PATCH 44/55] fix: keep given factors of fits that update neither of
 them

KernelAA and GPNHConvexCoding replaced given dictionaries and weights by
random ones unless init='custom'.
---
 src/reor/archetypal_analysis.py | 6 ++++++
 src/reor/gpnh_convex_coding.py  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 5ae0267..bd11687 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -722,6 +722,12 @@ class KernelAA():
             dictionary = _initialize_kernel_aa_dictionary(
                 kernel, self.n_components, init=self.init,
                 random_state=self.random_state, **kwargs)
+        elif (not update_dictionary and not update_weights and
+              dictionary is not None and weights is not None):
+            _check_init_weights(weights, (n_samples, self.n_components),
+                                '_kernel_aa (input weights)')
+            _check_init_dictionary(dictionary, (self.n_components, n_samples),
+                                   '_kernel_aa (input dictionary)')
         else:
             dictionary, weights = _initialize_kernel_aa(
                 kernel, self.n_components, init=self.init,
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 936bb4f..41a2cfd 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -599,6 +599,12 @@ class GPNHConvexCoding():
             dictionary = _initialize_gpnh_convex_coding_dictionary(
                 data, self.n_components, init=self.init,
                 random_state=self.random_state, **kwargs)
+        elif (not update_dictionary and not update_weights and
+              dictionary is not None and weights is not None):
+            _check_init_weights(weights, (n_samples, self.n_components),
+                                '_gpnh_convex_coding (input weights)')
+            _check_init_dictionary(dictionary, (self.n_components, n_features),
+                                   '_gpnh_convex_coding (input dictionary)')
         else:
             dictionary, weights = _initialize_gpnh_convex_coding(
                 data, self.n_components, init=self.init,
-- 
2.43.0


From 3bb07bbeea8598bf047e305df14e4d4632277542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:06 +0000
Subject: [PATCH 45/55] fix: keep given factors that FEM-BV fits are told not
 to update

Affiliations and parameters excluded from updating were replaced by random
ones unless init='custom'.
---
 src/reor/fembv.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index c307d5b..e8cc2b6 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -348,6 +348,12 @@ class FEMBV():
         if init is None:
             init = self.init
 
+        if init != 'custom' and not (update_parameters and update_weights):
+            # Factors that are not updated are used as given
+            parameters = None if update_parameters else parameters
+            weights = None if update_weights else weights
+            init = 'custom'
+
         self._initialize(data, parameters=parameters, weights=weights,
                          init=init, **kwargs)
 
-- 
2.43.0


From 7a4e27de9c5ad4d83dc8172bb65454caefac138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:14 +0000
Subject: [PATCH 46/55] fix: keep fitted FEM-BV-VARX parameters when new data
 is rejected or a transform fails

---
 src/reor/fembv_varx.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 581596d..27dd183 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -383,19 +383,7 @@ class FEMBVVARX(FEMBV):
                 n_features, n_external,
                 '_initialize_components (input parameters)')
 
-        self.mu = np.zeros((self.n_components, n_features),
-                           dtype=self.X.dtype)
-        if presample_length > 0:
-            self.A = np.zeros((self.n_components, presample_length,
-                               n_features, n_features),
-                              dtype=self.X.dtype)
-        if self.u is not None:
-            self.B0 = np.zeros((self.n_components, n_features, n_external),
-                               dtype=self.X.dtype)
-        else:
-            self.B0 = None
-
-        self.models = [FEMBVVARXLocalLinearModel(
+        models = [FEMBVVARXLocalLinearModel(
             self.X[presample_length - self.memory[i]:],
             p=self.memory[i],
             u=(None if self.u is None else
@@ -404,19 +392,36 @@ class FEMBVVARX(FEMBV):
 
         if init == 'custom' and parameters is not None:
             for i in range(self.n_components):
-                self.models[i].set_parameters(
+                models[i].set_parameters(
                     parameters['mu'][i],
                     A=(parameters['A'][i, :self.memory[i]]
                        if self.memory[i] > 0 else None),
                     B0=(parameters['B0'][i]
                         if self.u is not None else None))
-                self._copy_model_parameters(i)
         else:
             # Initialize models by performing unweighted fits to
             # given data
             for i in range(self.n_components):
-                self.models[i].fit()
-                self._copy_model_parameters(i)
+                models[i].fit()
+
+        mu = np.zeros((self.n_components, n_features), dtype=self.X.dtype)
+        A = np.zeros((self.n_components, presample_length,
+                      n_features, n_features), dtype=self.X.dtype)
+        B0 = np.zeros((self.n_components, n_features, n_external),
+                      dtype=self.X.dtype)
+        for i in range(self.n_components):
+            mu[i] = models[i].mu
+            if self.memory[i] > 0:
+                A[i, :self.memory[i]] = models[i].A
+            if self.u is not None:
+                B0[i] = models[i].B0
+
+        # Fitted parameters are only replaced once nothing can fail any more
+        self.models = models
+        self.mu = mu
+        if presample_length > 0:
+            self.A = A
+        self.B0 = B0 if self.u is not None else None
 
         self.distance_matrix = np.empty(
             (n_samples - presample_length, self.n_components),
-- 
2.43.0


From b91dc2d07d44d9f09c977db5ad4bf1fd23dffe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:15 +0000
Subject: [PATCH 47/55] fix: project integer vectors of limited size without
 overflow

---
 src/reor/simplex_projection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reor/simplex_projection.py b/src/reor/simplex_projection.py
index fa164c2..1d05a80 100644
--- a/src/reor/simplex_projection.py
+++ b/src/reor/simplex_projection.py
@@ -5,10 +5,15 @@ Provides routines for projections onto probability simplices.
 
 import numpy as np
 
+from reor._validation import _as_float_array
+
 
 def simplex_project_vector(x, out=None):
     """Project vector onto standard simplex."""
 
+    # Differences of integers of limited size may overflow
+    x = _as_float_array(x)
+
     # The projection is invariant under shifts, and shifting the largest
     # element to zero avoids cancellation for elements of large magnitude
     shift = np.max(x)
-- 
2.43.0


From 3fefcfa22c0ca708f7a89e233aea4b4b127e490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:24 +0000
Subject: [PATCH 48/55] fix: lag penalty of the convex codings for series as
 long as the largest lag

The normalisation of the lag penalty divided by the number of samples after
the largest lag, which is zero for series of exactly that length: gradients
became NaN and the fitted weights no longer lay in the simplex.
---
 src/reor/gpnh_convex_coding_crom.py | 6 ++++--
 src/reor/mtd_convex_coding.py       | 9 ++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index 10bbb30..40fedae 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -156,7 +156,8 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
         n_samples = self.X.shape[0]
         max_lag = self.lags.max()
 
-        normalization = 1.0 / (self.n_components * (n_samples - max_lag))
+        normalization = 1.0 / (self.n_components *
+                               max(n_samples - max_lag, 1))
 
         value += np.linalg.norm(self.Gamma[max_lag:] - self.Z[max_lag:]) ** 2
 
@@ -167,7 +168,8 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
 
         max_lag = self.lags.max()
         n_samples = self.X.shape[0]
-        normalization = 1.0 / (self.n_components * (n_samples - max_lag))
+        normalization = 1.0 / (self.n_components *
+                               max(n_samples - max_lag, 1))
 
         residual = self.Gamma[max_lag:] - self.Z[max_lag:]
 
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 8837ddc..4c5488d 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -358,7 +358,8 @@ class MTDConvexCoding():
         n_samples = self.X.shape[0]
         max_lag = self.lags.max()
 
-        normalization = 1.0 / (self.n_components * (n_samples - max_lag))
+        normalization = 1.0 / (self.n_components *
+                               max(n_samples - max_lag, 1))
 
         value += np.linalg.norm(self.Gamma[max_lag:] - self.Z[max_lag:]) ** 2
 
@@ -486,7 +487,8 @@ class MTDConvexCoding():
 
         n_samples = self.X.shape[0]
         max_lag = self.lags.max()
-        normalization = 1.0 / (self.n_components * (n_samples - max_lag))
+        normalization = 1.0 / (self.n_components *
+                               max(n_samples - max_lag, 1))
 
         residual = self.Gamma - self.Z
         for i, lag in enumerate(self.lags):
@@ -587,7 +589,8 @@ class MTDConvexCoding():
 
         max_lag = self.lags.max()
         n_samples = self.X.shape[0]
-        normalization = 1.0 / (self.n_components * (n_samples - max_lag))
+        normalization = 1.0 / (self.n_components *
+                               max(n_samples - max_lag, 1))
 
         residual = self.Gamma[max_lag:] - self.Z[max_lag:]
 
-- 
2.43.0


From 9d49eca01697969b5bcbc1780ae25d0376cea7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:13 +0000
Subject: [PATCH 49/55] fix: piecewise VARX accepts any array-like exogenous
 values and new data

The documentation promises array-likes, but lists were accepted for the
endogenous values of a fit only.
---
 src/reor/pwvarx.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 580301f..2d22ea7 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -65,6 +65,10 @@ class ClusterPWVARX():
 
     def _stack_predictors(self, endog, exog=None):
 
+        endog = _as_float_array(endog)
+        if exog is not None:
+            exog = _as_float_array(exog)
+
         n_samples = endog.shape[0]
 
         if endog.ndim == 1:
-- 
2.43.0


From 9e40188b4f762586008a7656ce710f5a53202c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 50/55] fix: inverse transforms accept any array-like weights

The documentation promises array-likes, but lists were rejected.
---
 src/reor/archetypal_analysis.py | 2 ++
 src/reor/gpnh_convex_coding.py  | 2 ++
 src/reor/mtd_convex_coding.py   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index bd11687..009bf57 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -833,6 +833,8 @@ class KernelAA():
             Matrix of coefficients for original data.
         """
 
+        weights = np.asarray(weights)
+
         return weights.dot(self.C)
 
 
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 41a2cfd..cbe1485 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -710,4 +710,6 @@ class GPNHConvexCoding():
             Weights transformed to original space.
         """
 
+        weights = np.asarray(weights)
+
         return weights.dot(self.S)
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 4c5488d..675425e 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -997,4 +997,6 @@ class MTDConvexCoding():
             Weights transformed to original space.
         """
 
+        weights = np.asarray(weights)
+
         return weights.dot(self.S)
-- 
2.43.0


From bcb51faf48aea0f0d5b361c8a15aaaef0c007fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:25 +0000
Subject: [PATCH 51/55] fix: random FurthestSum starts are drawn from samples
 that are not excluded

---
 src/reor/archetypal_analysis.py | 7 ++++---
 src/reor/gpnh_convex_coding.py  | 7 ++++---
 src/reor/mtd_convex_coding.py   | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 009bf57..706f9eb 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -66,12 +66,13 @@ def _initialize_kernel_aa_dictionary_furthest_sum(
     rng = check_random_state(random_state)
 
     n_samples = kernel.shape[0]
-    if start_index is None:
-        start_index = rng.randint(n_samples)
-
     if exclude is None:
         exclude = np.array([], dtype='i8')
 
+    if start_index is None:
+        allowed = np.setdiff1d(np.arange(n_samples), exclude)
+        start_index = allowed[rng.randint(allowed.size)]
+
     kernel_diag = np.diag(kernel)
     dissimilarities = np.sqrt(np.maximum(
         np.tile(kernel_diag, (n_samples, 1)) -
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index cbe1485..6f453d7 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -57,12 +57,13 @@ def _initialize_gpnh_convex_coding_dictionary_furthest_sum(
     kernel = data.dot(data.T)
 
     n_samples = kernel.shape[0]
-    if start_index is None:
-        start_index = rng.randint(n_samples)
-
     if exclude is None:
         exclude = np.array([], dtype='i8')
 
+    if start_index is None:
+        allowed = np.setdiff1d(np.arange(n_samples), exclude)
+        start_index = allowed[rng.randint(allowed.size)]
+
     kernel_diag = np.diag(kernel)
     dissimilarities = np.sqrt(np.maximum(
         np.tile(kernel_diag, (n_samples, 1)) -
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 675425e..e1da7a1 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -69,12 +69,13 @@ def _initialize_mtd_convex_coding_dictionary_furthest_sum(
     kernel = data.dot(data.T)
 
     n_samples = kernel.shape[0]
-    if start_index is None:
-        start_index = rng.randint(n_samples)
-
     if exclude is None:
         exclude = np.array([], dtype='i8')
 
+    if start_index is None:
+        allowed = np.setdiff1d(np.arange(n_samples), exclude)
+        start_index = allowed[rng.randint(allowed.size)]
+
     kernel_diag = np.diag(kernel)
     dissimilarities = np.sqrt(np.maximum(
         np.tile(kernel_diag, (n_samples, 1)) -
-- 
2.43.0


From 35bd797546834bb6965b8008d4493b00be2f96d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:41 +0000
Subject: [PATCH 52/55] fix: judge increases of the coding cost on the scale of
 the dictionary as well as the data

---
 src/reor/gpnh_convex_coding.py | 3 ++-
 src/reor/mtd_convex_coding.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 6f453d7..6e03bbf 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -518,7 +518,8 @@ class GPNHConvexCoding():
 
         old_cost = self._evaluate_cost()
         new_cost = old_cost
-        cost_scale = self.trace_XtX / self.X.size
+        cost_scale = (self.trace_XtX / self.X.size +
+                      self.SSt.trace() / self.S.size)
 
         for n_iter in range(self.max_iterations):
             start_time = time.perf_counter()
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index e1da7a1..65a410a 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -718,7 +718,8 @@ class MTDConvexCoding():
 
         old_cost = self._evaluate_cost()
         new_cost = old_cost
-        cost_scale = self.trace_XtX / self.X.size + self.epsilon_weights
+        cost_scale = (self.trace_XtX / self.X.size +
+                      self.SSt.trace() / self.S.size + self.epsilon_weights)
 
         for n_iter in range(self.max_iterations):
             start_time = time.perf_counter()
-- 
2.43.0


From fba2c0cc6bd6b73b17792256abe24dcba9d117f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:42 +0000
Subject: [PATCH 53/55] fix: default clusterer and classifier of piecewise VARX
 follow the current options

---
 src/reor/pwvarx.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 2d22ea7..cba1cea 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -57,6 +57,9 @@ class ClusterPWVARX():
         self.classifier = classifier
         self.random_state = random_state
 
+        self._default_clusterer = None
+        self._default_classifier = None
+
         self.mu = None
         self.A = None
         self.B = None
@@ -109,9 +112,11 @@ class ClusterPWVARX():
 
         z = np.hstack([x, y])
 
-        if self.clusterer is None:
-            self.clusterer = KMeans(n_clusters=self.n_components,
-                                    random_state=self.random_state)
+        if self.clusterer is None or self.clusterer is self._default_clusterer:
+            # Defaults follow the current options, not those of the first fit
+            self._default_clusterer = KMeans(n_clusters=self.n_components,
+                                             random_state=self.random_state)
+            self.clusterer = self._default_clusterer
 
         self.cluster_labels_ = self.clusterer.fit_predict(z)
 
@@ -121,9 +126,13 @@ class ClusterPWVARX():
 
         if self.include_trend:
             self.mu = np.zeros((self.n_components, n_endog))
+        else:
+            self.mu = None
 
         if self.p > 0:
             self.A = np.zeros((self.n_components, self.p, n_endog, n_endog))
+        else:
+            self.A = None
 
         n_lagged_exog = x.shape[1] - self.p * n_endog
 
@@ -215,8 +224,10 @@ class ClusterPWVARX():
 
         self._cluster(y, x)
 
-        if self.classifier is None:
-            self.classifier = SVC(random_state=self.random_state)
+        if (self.classifier is None or
+                self.classifier is self._default_classifier):
+            self._default_classifier = SVC(random_state=self.random_state)
+            self.classifier = self._default_classifier
 
         self.classifier.fit(x, self.cluster_labels_)
         labels = self.classifier.predict(x)
-- 
2.43.0


From dab8a7c7bf92e812c5fc0a506c5479a9c68f471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:42 +0000
Subject: [PATCH 54/55] fix: drop coefficients of earlier fits when FEM-BV-VARX
 has no memory

---
 src/reor/fembv_varx.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 27dd183..57b8457 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -419,8 +419,7 @@ class FEMBVVARX(FEMBV):
         # Fitted parameters are only replaced once nothing can fail any more
         self.models = models
         self.mu = mu
-        if presample_length > 0:
-            self.A = A
+        self.A = A if presample_length > 0 else None
         self.B0 = B0 if self.u is not None else None
 
         self.distance_matrix = np.empty(
-- 
2.43.0


From 86902609ff2ed8c3da61300375ef9caffcf6a495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:42 +0000
Subject: [PATCH 55/55] fix: convex codings need no table of pairs of samples
 or of features

---
 src/reor/gpnh_convex_coding.py      | 2 +-
 src/reor/gpnh_convex_coding_crom.py | 6 +++---
 src/reor/mtd_convex_coding.py       | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 6e03bbf..817076a 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -266,7 +266,7 @@ class GPNHConvexCoding():
     def _initialize_workspace(self):
         """Initialize temporary variables."""
 
-        self.trace_XtX = self.X.T.dot(self.X).trace()
+        self.trace_XtX = np.sum(self.X ** 2)
         self.GtG = self.Gamma.T.dot(self.Gamma)
         self.GtX = self.Gamma.T.dot(self.X)
         self.XSt = self.X.dot(self.S.T)
diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index 40fedae..5869dee 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -178,9 +178,9 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
 
         for i, lag in enumerate(self.lags):
             self.grad_order_weights[i] = (
-                -2 * normalization * residual.dot(
-                    self.transition_matrices[i]).dot(
-                        self.Gamma[max_lag - lag:-lag].T).trace())
+                -2 * normalization * np.sum(
+                    residual.dot(self.transition_matrices[i]) *
+                    self.Gamma[max_lag - lag:-lag]))
             self.grad_transition_matrices[i] = (
                 -2 * normalization *
                 self.order_weights[i] *
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 65a410a..62b91f9 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -273,7 +273,7 @@ class MTDConvexCoding():
     def _initialize_workspace(self):
         """Initialize temporary variables."""
 
-        self.trace_XtX = self.X.T.dot(self.X).trace()
+        self.trace_XtX = np.sum(self.X ** 2)
         self.GtG = self.Gamma.T.dot(self.Gamma)
         self.GtX = self.Gamma.T.dot(self.X)
         self.XSt = self.X.dot(self.S.T)
@@ -600,9 +600,9 @@ class MTDConvexCoding():
 
         for i, lag in enumerate(self.lags):
             self.grad_order_weights[i] = (
-                -2 * self.epsilon_weights * normalization * residual.dot(
-                    self.transition_matrices[i]).dot(
-                        self.Gamma[max_lag - lag:-lag].T).trace())
+                -2 * self.epsilon_weights * normalization * np.sum(
+                    residual.dot(self.transition_matrices[i]) *
+                    self.Gamma[max_lag - lag:-lag]))
             self.grad_transition_matrices[i] = (
                 -2 * self.epsilon_weights * normalization *
                 self.order_weights[i] *
-- 
2.43.0

