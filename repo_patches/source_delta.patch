From eb1794b532a6d801280430d63748aca7831b4f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 01/63] fix: convert one-column probability predictions to
 class labels

np.float no longer exists in numpy, so every one-dimensional or one-column
prediction raised AttributeError; the conversion also returned 0/1 instead of
the class labels and failed for a bag with a single example.
---
 quantificationlib/base.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/quantificationlib/base.py b/quantificationlib/base.py
index d297236..281321b 100644
--- a/quantificationlib/base.py
+++ b/quantificationlib/base.py
@@ -331,15 +331,10 @@ class UsingClassifiers(BaseQuantifier):
             return preds
         if preds.ndim == 1 or preds.shape[1] == 1:
             #  binary problem
-            if preds.ndim == 1:
-                preds_mod = np.copy(preds)
-            else:
-                preds_mod = np.copy(preds.squeeze())
-            if isinstance(preds_mod[0], np.float):
+            preds_mod = np.copy(preds.reshape(-1))
+            if isinstance(preds_mod[0], (float, np.floating)):
                 # it contains probs
-                preds_mod[preds_mod >= 0.5] = 1
-                preds_mod[preds_mod < 0.5] = 0
-                return preds_mod.astype(int)
+                return labels.take((preds_mod >= 0.5).astype(int), axis=0)
             else:
                 return preds_mod
         else:
-- 
2.43.0


From babbc946a75eacfe63885d21cd7ad5dee172e8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 02/63] fix: AC and PAC fall back to the distance minimiser for
 singular matrices hidden by rounding

---
 quantificationlib/baselines/ac.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quantificationlib/baselines/ac.py b/quantificationlib/baselines/ac.py
index 6d7b9fb..d2af34f 100644
--- a/quantificationlib/baselines/ac.py
+++ b/quantificationlib/baselines/ac.py
@@ -246,6 +246,10 @@ class AC(UsingClassifiers):
             prevalences = prevalences.squeeze()
         else:
             try:
+                # rounding errors may hide that the matrix is singular
+                if np.linalg.matrix_rank(self.cm_) < n_classes:
+                    raise np.linalg.LinAlgError('singular matrix')
+
                 inv_cm = linalg.inv(self.cm_.T)
                 prevalences = inv_cm.dot(prevalences_0)
 
@@ -498,6 +502,10 @@ class PAC(UsingClassifiers):
             prevalences = prevalences.squeeze()
         else:
             try:
+                # rounding errors may hide that the matrix is singular
+                if np.linalg.matrix_rank(self.cm_) < n_classes:
+                    raise np.linalg.LinAlgError('singular matrix')
+
                 inv_cm = linalg.inv(self.cm_.T)
                 prevalences = inv_cm.dot(prevalences_0)
 
-- 
2.43.0


From f96fd397cd4ea60f2852c7f2e800e793aa597ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 03/63] fix: Kullback-Leibler divergences of prevalences
 containing zeros are no longer NaN

---
 quantificationlib/metrics/binary.py     | 14 ++++++--------
 quantificationlib/metrics/multiclass.py |  4 +++-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/quantificationlib/metrics/binary.py b/quantificationlib/metrics/binary.py
index eee791e..6c4ce03 100644
--- a/quantificationlib/metrics/binary.py
+++ b/quantificationlib/metrics/binary.py
@@ -33,14 +33,12 @@ def binary_kld(p_true, p_pred, eps=1e-12):
         KLD: float
              The Kullback-Leiber divergence for binary problems
     """
-    if p_pred == 0:
-        kld = p_true * np.log2(p_true / eps)
-    else:
-        kld = p_true * np.log2(p_true / p_pred)
-    if p_pred == 1:
-        kld = kld + (1 - p_true) * np.log2((1 - p_true) / eps)
-    else:
-        kld = kld + (1 - p_true) * np.log2((1 - p_true) / (1 - p_pred))
+    kld = 0.0
+    # by continuity, the terms 0 * log(0) are 0
+    if p_true > 0:
+        kld = p_true * np.log2(p_true / (eps if p_pred == 0 else p_pred))
+    if p_true < 1:
+        kld = kld + (1 - p_true) * np.log2((1 - p_true) / (eps if p_pred == 1 else 1 - p_pred))
     return kld
 
 
diff --git a/quantificationlib/metrics/multiclass.py b/quantificationlib/metrics/multiclass.py
index 20ddfb9..1638ef4 100644
--- a/quantificationlib/metrics/multiclass.py
+++ b/quantificationlib/metrics/multiclass.py
@@ -80,7 +80,9 @@ def kld(p_true, p_pred, eps=1e-12):
             The Kullback-Leiber divergence
     """
     p_true, p_pred = check_prevalences(p_true, p_pred)
-    return np.sum(p_true * np.log2(p_true / (p_pred + eps)))
+    # by continuity, the terms 0 * log(0) are 0
+    nonzero = p_true > 0
+    return np.sum(p_true[nonzero] * np.log2(p_true[nonzero] / (p_pred[nonzero] + eps)))
 
 
 def mean_absolute_error(p_true, p_pred):
-- 
2.43.0


From 442f9bd588c31e5e08a62faa9f0e8c2c416ca7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 04/63] fix: the prevalence search examines every local minimum
 of its grid, including both ends

---
 quantificationlib/search.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/quantificationlib/search.py b/quantificationlib/search.py
index 1cb4bfd..cbd3f46 100644
--- a/quantificationlib/search.py
+++ b/quantificationlib/search.py
@@ -85,26 +85,22 @@ def global_search(distance_func, mixture_func, test_distrib, tol, mixtures, retu
         for i in range(0, 101):
             losses[i] = distance_func(mixture_func(prevalence=i / 100, **kwargs), test_distrib)
 
-    n_mins = 0
-    p_estimated = 2
+    if np.max(losses) == np.min(losses):
+        raise ValueError("Search: there are infinite minima according to the distance function used")
+
+    p_estimated = None
     minimum_loss = np.inf
-    for i in range(1, 100):
-        if losses[i - 1] < losses[i] < losses[i + 1]:
-            n_mins = n_mins + 1
+    for i in range(0, 101):
+        # a local minimum of the grid (or the first point of a flat one), including both ends of the range
+        if (i == 0 or losses[i] < losses[i - 1]) and (i == 100 or losses[i] <= losses[i + 1]):
             loss, p = golden_section_search(distance_func, mixture_func, test_distrib, tol,
-                                            max(i - 2, 0) / 100, min(i + 2, 100) / 100, **kwargs)
+                                            max(i - 1, 0) / 100, min(i + 1, 100) / 100, **kwargs)
+            if losses[i] < loss:
+                loss, p = losses[i], np.array([1 - i / 100, i / 100])
             if loss < minimum_loss:
                 minimum_loss = loss
                 p_estimated = p
 
-    if n_mins == 0:
-        if losses[0] == losses[100]:
-            raise ValueError("Search: there are infinite minima according to the distance function used")
-        elif losses[0] < losses[100]:
-            _, p_estimated = golden_section_search(distance_func, mixture_func, test_distrib, tol, 0.0, 0.02, **kwargs)
-        else:
-            _, p_estimated = golden_section_search(distance_func, mixture_func, test_distrib, tol, 0.98, 1.0, **kwargs)
-
     if return_mixtures:
         return mixtures, p_estimated
     else:
-- 
2.43.0


From 3e2d4e96d5a90bf20be1661f544bde388604e6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 05/63] fix: the nearest positive definite matrix of a null
 matrix is not a subnormal multiple of the identity

---
 quantificationlib/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index c033cb0..1f26266 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -278,7 +278,7 @@ def nearest_pd(A):
     if is_pd(A3):
         return A3
 
-    spacing = np.spacing(np.linalg.norm(A))
+    spacing = np.spacing(max(np.linalg.norm(A), 1.0))  # the null matrix has no spacing of its own
     # The above is different from [1]. It appears that MATLAB's `chol` Cholesky
     # decomposition will accept matrixes with exactly 0-eigenvalue, whereas
     # Numpy's will not. So where [1] uses `eps(mineig)` (where `eps` is Matlab
-- 
2.43.0


From a25c37e9a77b1e78f99dee74c510948d8a5f55da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 06/63] fix: DFy computes class-based bin cuts with labels that
 match stacked predictions

---
 quantificationlib/multiclass/df.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index 7341aa5..f2b7fc6 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -249,7 +249,7 @@ class DFy(UsingClassifiers):
         # compute bincuts according to bin_strategy
         self.bincuts_ = np.zeros((n_descriptors, self.n_bins + 1))
         for descr in range(n_descriptors):
-            self.bincuts_[descr, :] = compute_bincuts(x=self.predictions_train_[:, descr], y=y, classes=self.classes_,
+            self.bincuts_[descr, :] = compute_bincuts(x=self.predictions_train_[:, descr], y=self.y_ext_, classes=self.classes_,
                                                       n_bins=self.n_bins, bin_strategy=self.bin_strategy,
                                                       att_range=[0, 1])
 
-- 
2.43.0


From 73737da77c84a79dc92b3200c8f94f2e9359697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:53 +0000
Subject: [PATCH 07/63] fix: DFy accumulates the CDF of each descriptor
 separately

---
 quantificationlib/multiclass/df.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index f2b7fc6..969342f 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -263,7 +263,9 @@ class DFy(UsingClassifiers):
 
         # compute cdf if necessary
         if self.distribution_function == 'CDF':
-            self.train_distrib_ = np.cumsum(self.train_distrib_, axis=0)
+            for descr in range(n_descriptors):
+                self.train_distrib_[descr * self.n_bins:(descr + 1) * self.n_bins, :] = \
+                    np.cumsum(self.train_distrib_[descr * self.n_bins:(descr + 1) * self.n_bins, :], axis=0)
 
         if self.distance == 'L2':
             self.G_, self.C_, self.b_ = compute_l2_param_train(self.train_distrib_, self.classes_)
@@ -330,7 +332,9 @@ class DFy(UsingClassifiers):
 
         #  compute cdf if necessary
         if self.distribution_function == 'CDF':
-            self.test_distrib_ = np.cumsum(self.test_distrib_, axis=0)
+            for descr in range(n_descriptors):
+                self.test_distrib_[descr * self.n_bins:(descr + 1) * self.n_bins, 0] = \
+                    np.cumsum(self.test_distrib_[descr * self.n_bins:(descr + 1) * self.n_bins, 0], axis=0)
 
         if self.verbose > 0:
             print('Class %s: Computing prevalences...' % self.__class__.__name__, end='')
-- 
2.43.0


From 6d3b60de78c06dbafc606c54910bcbd4eb60675a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 08/63] fix: equal-count bins with fewer examples than bins

---
 quantificationlib/multiclass/df.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index 969342f..366c990 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -707,7 +707,8 @@ def compute_bincuts(x, y=None, classes=None, n_bins=8, bin_strategy='equal_width
         bincuts[0] = -np.inf
         bincuts[-1] = np.inf
         for i in range(1, n_bins):
-            cutpoint = int(round(len(x) * i / n_bins))
+            # with fewer examples than bins some cut points coincide
+            cutpoint = min(max(int(round(len(x) * i / n_bins)), 1), len(x) - 1)
             bincuts[i] = (sorted_values[cutpoint - 1] + sorted_values[cutpoint]) / 2
     elif bin_strategy == 'binormal':
         # only for binary quantification
-- 
2.43.0


From d3fa6046058ed3ce21c5b94461be776952cb00db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 09/63] fix: normal bins of a constant descriptor keep every
 example

---
 quantificationlib/multiclass/df.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index 366c990..c269327 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -726,7 +726,7 @@ def compute_bincuts(x, y=None, classes=None, n_bins=8, bin_strategy='equal_width
         if std > 0:
             bincuts = [std * norm.ppf(i / n_bins) + mu for i in range(0, n_bins + 1)]
         else:
-            bincuts = np.histogram_bin_edges(x, bins=n_bins, range=[0, 0])
+            bincuts = [-np.inf] + [mu] * (n_bins - 1) + [np.inf]
     elif bin_strategy == 'normal':
         weights = np.ones((x.shape[0],))
         for n_cls, cls in enumerate(classes):
@@ -737,7 +737,7 @@ def compute_bincuts(x, y=None, classes=None, n_bins=8, bin_strategy='equal_width
         if std > 0:
             bincuts = [std * norm.ppf(i / n_bins) + mu for i in range(0, n_bins + 1)]
         else:
-            bincuts = np.histogram_bin_edges(x, bins=n_bins, range=[0, 0])
+            bincuts = [-np.inf] + [mu] * (n_bins - 1) + [np.inf]
     else:
         raise ValueError('Unknown bin strategy (possible values: ''equal_width'', ''binormal'', ''normal''')
 
-- 
2.43.0


From 0ac10feebeada5c3c9929fb18f89d5e17737cbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 10/63] fix: DeBias falls back to the training prevalence when
 the training posteriors do not vary

---
 quantificationlib/binary/debias.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/binary/debias.py b/quantificationlib/binary/debias.py
index 24f4e57..138d075 100644
--- a/quantificationlib/binary/debias.py
+++ b/quantificationlib/binary/debias.py
@@ -181,7 +181,9 @@ class DeBias(UsingClassifiers):
         if self.verbose > 0:
             print('Class %s: Computing prevalences for testing distribution...' % self.__class__.__name__, end='')
 
-        p = self.train_prevs_[1] + (np.mean(self.predictions_test_, axis=0)[1] - self.train_prevs_[1]) / self.Vt_
+        p = self.train_prevs_[1]
+        if self.Vt_ > 0:
+            p = p + (np.mean(self.predictions_test_, axis=0)[1] - self.train_prevs_[1]) / self.Vt_
         prevalences = np.array([1 - p, p])
 
         prevalences = np.clip(prevalences, 0, 1)
-- 
2.43.0


From 84d8fe99bd046a05eb1a99318ff3c1888d7e3314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:53 +0000
Subject: [PATCH 11/63] fix: SORDy accepts any class labels

---
 quantificationlib/binary/emd.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/quantificationlib/binary/emd.py b/quantificationlib/binary/emd.py
index ca38116..f71c081 100644
--- a/quantificationlib/binary/emd.py
+++ b/quantificationlib/binary/emd.py
@@ -202,9 +202,10 @@ class SORDy(UsingClassifiers):
         self.union_distrib_ = np.hstack((self.train_distrib_, self.predictions_test_[:, 1]))
         indx = np.argsort(self.union_distrib_)
         self.union_distrib_ = self.union_distrib_[indx]
-        test_label = np.max(self.classes_)+1
-        self.union_labels_ = np.hstack((self.train_labels_,
-                                        np.full(len(self.predictions_test_[:, 1]), test_label)))
+        #  labels are represented by their positions in classes_, the testing examples are labeled with the next one
+        n_classes = len(self.classes_)
+        self.union_labels_ = np.hstack((np.searchsorted(self.classes_, self.train_labels_),
+                                        np.full(len(self.predictions_test_[:, 1]), n_classes)))
         self.union_labels_ = self.union_labels_[indx]
 
         if self.verbose > 0:
@@ -214,7 +215,7 @@ class SORDy(UsingClassifiers):
         _, prevalences = golden_section_search(distance_func=sord, mixture_func=compute_sord_weights,
                                                test_distrib=self.union_distrib_, tol=self.tol, a=0.0, b=1.0,
                                                union_labels=self.union_labels_,
-                                               classes=self.classes_)
+                                               classes=np.arange(n_classes))
         if self.verbose > 0:
             print('done')
 
-- 
2.43.0


From 7b114cc133cb2dce7f3f2e7868862030719359ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 12/63] fix: SORDy and QUANTy reject training sets with a
 single class

---
 quantificationlib/binary/emd.py       | 2 +-
 quantificationlib/binary/quantiles.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/binary/emd.py b/quantificationlib/binary/emd.py
index f71c081..2b47081 100644
--- a/quantificationlib/binary/emd.py
+++ b/quantificationlib/binary/emd.py
@@ -141,7 +141,7 @@ class SORDy(UsingClassifiers):
         """
         super().fit(X, y, predictions_train=predictions_train)
 
-        if len(self.classes_) > 2:
+        if len(self.classes_) != 2:
             raise TypeError("SORDy is a binary method, multiclass quantification is not supported")
 
         if self.verbose > 0:
diff --git a/quantificationlib/binary/quantiles.py b/quantificationlib/binary/quantiles.py
index a4f7608..80f9935 100644
--- a/quantificationlib/binary/quantiles.py
+++ b/quantificationlib/binary/quantiles.py
@@ -164,7 +164,7 @@ class QUANTy(UsingClassifiers):
         """
         super().fit(X, y, predictions_train=predictions_train)
 
-        if len(self.classes_) > 2:
+        if len(self.classes_) != 2:
             raise TypeError("QUANTy is a binary method, multiclass quantification is not supported")
 
         if self.verbose > 0:
-- 
2.43.0


From 7194a69a24f6edf5de2143cfba83cd607c405870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 13/63] fix: Dirichlet bags are drawn with the generator's own
 random state

---
 quantificationlib/bag_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index e5bcb22..31ba59f 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -289,7 +289,7 @@ class PriorShift_BagGenerator(BagGenerator):
                 if len(self.alphas) != n_classes:
                     raise ValueError('the size of alphas parameter does not match the number of classes')
 
-        self.prevalences_ = np.random.dirichlet(self.alphas, size=self.n_bags).transpose()
+        self.prevalences_ = self.random_state.dirichlet(self.alphas, size=self.n_bags).transpose()
         self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
 
         for n_bag in range(self.n_bags):
-- 
2.43.0


From d92f8e6e6ffc87b865b846a32da472c39b1fbcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 14/63] fix: Dirichlet bags with the default alphas

---
 quantificationlib/bag_generator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index 31ba59f..8782348 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -282,12 +282,12 @@ class PriorShift_BagGenerator(BagGenerator):
         # checking if alphas  has correct values
         if isinstance(self.alphas, list):
             self.alphas = np.array(self.alphas)
-        if self.alphas is not None:
-            if np.isscalar(self.alphas):
-                self.alphas = np.ones(n_classes) * self.alphas
-            else:
-                if len(self.alphas) != n_classes:
-                    raise ValueError('the size of alphas parameter does not match the number of classes')
+        if self.alphas is None:
+            self.alphas = np.ones(n_classes)
+        elif np.isscalar(self.alphas):
+            self.alphas = np.ones(n_classes) * self.alphas
+        elif len(self.alphas) != n_classes:
+            raise ValueError('the size of alphas parameter does not match the number of classes')
 
         self.prevalences_ = self.random_state.dirichlet(self.alphas, size=self.n_bags).transpose()
         self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
-- 
2.43.0


From 7314c4859f8f58d13f9efac731e77743aede4cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 15/63] fix: prior and covariate shift bags with the default
 bag size

---
 quantificationlib/bag_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index 8782348..b2cb792 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -531,6 +531,9 @@ class PriorAndCovariateShift_BagGenerator(BagGenerator):
         if self.prevalences_ is not None and self.indexes_ is not None:
             return self.prevalences_, self.indexes_
 
+        if self.bag_size is None:
+            self.bag_size = len(y)
+
         n_bags_prior = self.n_bags // 2
         n_bags_covariate = self.n_bags - n_bags_prior
         prior = PriorShift_BagGenerator(n_bags=n_bags_prior, bag_size=self.bag_size,
-- 
2.43.0


From 20b4525a876b2dd02095dc34e78ec0d720b45d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:16 +0000
Subject: [PATCH 16/63] fix: minimum prevalences of generated bags: every
 feasible request is answered, infeasible ones raise ValueError

---
 quantificationlib/bag_generator.py | 73 ++++++++++--------------------
 1 file changed, 25 insertions(+), 48 deletions(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index b2cb792..a4cb32c 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -144,6 +144,8 @@ class PriorShift_BagGenerator(BagGenerator):
 
         if self.bag_size is None:
             self.bag_size = len(y)
+        if self.bag_size < 1:
+            raise ValueError('The size of the bags must be at least 1')
 
         if self.method == 'Uniform':
             return self._generate_uniform(X, y)
@@ -181,7 +183,7 @@ class PriorShift_BagGenerator(BagGenerator):
         """
 
         # checking if min_prevalence has correct values
-        if isinstance(self.min_prevalence, list):
+        if isinstance(self.min_prevalence, (list, tuple)):
             self.min_prevalence = np.array(self.min_prevalence)
         if self.min_prevalence is not None:
             if np.isscalar(self.min_prevalence):
@@ -199,59 +201,34 @@ class PriorShift_BagGenerator(BagGenerator):
         classes = np.unique(y)
         n_classes = len(classes)
 
-        #  computing min number of examples for each class and low value (for the first class) and the
-        #  high value (for the last class)
-        #  The idea is to perform a efficient comprobation. For binary problems all random generation will be correct
-        #  becuase the values low-high are fixed appropriately. For multiclass problems (min_examples will be
-        #  not None) we need to check it
+        #  computing the min number of examples for each class, the rest of the bag is distributed among all classes
         if self.min_prevalence is None:
-            min_nexamples = None
-            low = 0
-            high = self.bag_size
-        elif n_classes == 2:
-            #  binary problem
-            if np.isscalar(self.min_prevalence):
-                # same prevalence
-                min_nexamples = None
-                low = round(self.bag_size * self.min_prevalence)
-                high = int(self.bag_size * (1 - self.min_prevalence))
-            else:
-                # different prevalence
-                min_nexamples = None
-                low = round(self.bag_size * self.min_prevalence[0])
-                high = int(self.bag_size * (1 - self.min_prevalence[1]))
-        elif np.isscalar(self.min_prevalence):
-            #  multiclass problem, min prevalence equal to all classes
-            min_nexamples = np.round(np.ones(n_classes) * self.min_prevalence * self.bag_size)
-            low = min_nexamples[0]
-            high = self.bag_size - min_nexamples[-1]
+            min_nexamples = np.zeros(n_classes, dtype=int)
         else:
-            #  multiclass problem, different prevalences
-            min_nexamples = np.round(self.min_prevalence * self.bag_size)
-            low = min_nexamples[0]
-            high = self.bag_size - min_nexamples[-1]
+            min_prevalence = self.min_prevalence * np.ones(n_classes)
+            if np.sum(min_prevalence) > 1 + 1e-10:
+                raise ValueError('The values for min_prevalence cannot sum more than 1')
+            min_nexamples = np.round(min_prevalence * self.bag_size).astype(int)
+            if np.sum(min_nexamples) > self.bag_size:
+                min_nexamples = np.floor(min_prevalence * self.bag_size + 1e-10).astype(int)
+        n_free = self.bag_size - np.sum(min_nexamples)
 
         self.prevalences_ = np.zeros((n_classes, self.n_bags))
         self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
-        n_bag = 0
-        while n_bag < self.n_bags:
+        for n_bag in range(self.n_bags):
             # Kraemer method:
-            ps = self.random_state.randint(low, high, n_classes - 1)
-            ps = np.append(ps, [0, self.bag_size])
-            ps = np.diff(np.sort(ps))  # number of samples for each class
-
-            #  checking if the combination is correct, only needed in multiclass problems. Only the values for the
-            #  classes in the middle must be checked
-            if min_nexamples is None or (ps[1:-1] >= min_nexamples[1:-1]).all():
-                self.prevalences_[:, n_bag] = ps / self.bag_size  # to obtain prevalences
-                position = 0
-                for cls, n_examples in zip(classes, np.array(ps)):
-                    if n_examples != 0:
-                        indexes = self.random_state.choice(np.where(y == cls)[0], n_examples, replace=True)
-                        self.indexes_[position:position+len(indexes), n_bag] = indexes
-                        position = position + len(indexes)
-
-                n_bag = n_bag + 1
+            ps = self.random_state.randint(0, max(n_free, 1), n_classes - 1)
+            ps = np.append(ps, [0, n_free])
+            ps = min_nexamples + np.diff(np.sort(ps))  # number of samples for each class
+
+            self.prevalences_[:, n_bag] = ps / self.bag_size  # to obtain prevalences
+            position = 0
+            for cls, n_examples in zip(classes, np.array(ps)):
+                if n_examples != 0:
+                    indexes = self.random_state.choice(np.where(y == cls)[0], n_examples, replace=True)
+                    self.indexes_[position:position+len(indexes), n_bag] = indexes
+                    position = position + len(indexes)
+
         return self.prevalences_, self.indexes_
 
     def _generate_dirichlet(self, X, y):
-- 
2.43.0


From 749fce2aa988ae54e72b8e26cb1b09aa5192e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 17/63] fix: quantifiers with the default bag generator do not
 share their bags

---
 quantificationlib/ensembles/eoq.py         | 11 ++++++-----
 quantificationlib/multiclass/regression.py | 19 ++++++++++---------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 537bb09..fa8838b 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -28,7 +28,7 @@ class EoQ(WithoutClassifiers):
         n_quantifiers: int, (default=100)
             Number of quantifiers in the ensemble
 
-        bag_generator : BagGenerator object (default=PriorShift_BagGenerator())
+        bag_generator : BagGenerator object (default=None, each fit uses a new PriorShift_BagGenerator())
             Object to generate the bags (with a selected shift) for training each quantifier
 
         combination_strategy: str, (default='mean')
@@ -152,7 +152,7 @@ class EoQ(WithoutClassifiers):
         verbose : int
             The verbosity level
     """
-    def __init__(self, base_quantifier=None, n_quantifiers=100, bag_generator=PriorShift_BagGenerator(),
+    def __init__(self, base_quantifier=None, n_quantifiers=100, bag_generator=None,
                  combination_strategy='mean',
                  ensemble_estimator_train=None, ensemble_estimator_test=None,
                  distribution_function='PDF', n_bins=100, bin_strategy='equal_width', distance_bags='euclidean',
@@ -226,11 +226,12 @@ class EoQ(WithoutClassifiers):
 
         #  compute bags if needed
         if prevalences is None and indexes is None:
-            if not isinstance(self.bag_generator, BagGenerator):
+            bag_generator = PriorShift_BagGenerator() if self.bag_generator is None else self.bag_generator
+            if not isinstance(bag_generator, BagGenerator):
                 raise ValueError("Invalid bag generaror object")
 
-            self.bag_generator.n_bags = self.n_quantifiers
-            self.prevalences_, self.indexes_ = self.bag_generator.generate_bags(X, y)
+            bag_generator.n_bags = self.n_quantifiers
+            self.prevalences_, self.indexes_ = bag_generator.generate_bags(X, y)
         else:
             self.prevalences_ = prevalences
             self.indexes_ = indexes
diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index ef72826..923a2a0 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -24,7 +24,7 @@ class REG(six.with_metaclass(ABCMeta)):
 
         Parameters
         ----------
-        bag_generator : BagGenerator object (default=PriorShift_BagGenerator())
+        bag_generator : BagGenerator object (default=None, each fit uses a new PriorShift_BagGenerator())
             Object to generate the bags with a selected shift
 
         n_bins : int (default=8)
@@ -105,7 +105,7 @@ class REG(six.with_metaclass(ABCMeta)):
         Christopher F. Baum: Stata tip 63: Modeling proportions. The Stata Journal 8.2 (2008): 299-303
     """
 
-    def __init__(self, bag_generator=PriorShift_BagGenerator(), n_bins=8, bin_strategy='equal_width',
+    def __init__(self, bag_generator=None, n_bins=8, bin_strategy='equal_width',
                  regression_estimator=None, verbose=0, **kwargs):
         super(REG, self).__init__(**kwargs)
         self.bag_generator = bag_generator
@@ -156,12 +156,13 @@ class REG(six.with_metaclass(ABCMeta)):
                                                     att_range=att_range)
 
         #  compute bags
-        prevalences, indexes = self.bag_generator.generate_bags(X, y)
+        bag_generator = PriorShift_BagGenerator() if self.bag_generator is None else self.bag_generator
+        prevalences, indexes = bag_generator.generate_bags(X, y)
 
-        self.dataX_ = np.zeros((self.bag_generator.n_bags, self.n_bins * n_features))
+        self.dataX_ = np.zeros((bag_generator.n_bags, self.n_bins * n_features))
         self.dataY_ = np.transpose(prevalences)
 
-        for nbag in range(self.bag_generator.n_bags):
+        for nbag in range(bag_generator.n_bags):
             for att in range(n_features):
                 self.dataX_[nbag, att * self.n_bins:(att + 1) * self.n_bins] = \
                     np.histogram(X[indexes[:, nbag], att], bins=self.bincuts_[att, :])[0] / n_examples
@@ -247,7 +248,7 @@ class REGX(WithoutClassifiers, REG):
 
         Parameters
         ----------
-        bag_generator : BagGenerator object (default=PriorShift_BagGenerator())
+        bag_generator : BagGenerator object (default=None, each fit uses a new PriorShift_BagGenerator())
             Object to generate the bags with a selected shift
 
         n_bins : int (default=8)
@@ -327,7 +328,7 @@ class REGX(WithoutClassifiers, REG):
         ----------
         Christopher F. Baum: Stata tip 63: Modeling proportions. The Stata Journal 8.2 (2008): 299-303
     """
-    def __init__(self, bag_generator=PriorShift_BagGenerator(), n_bins=8, bin_strategy='normal',
+    def __init__(self, bag_generator=None, n_bins=8, bin_strategy='normal',
                  regression_estimator=None, verbose=False):
         super(REGX, self).__init__(bag_generator=bag_generator, n_bins=n_bins, bin_strategy=bin_strategy,
                                    regression_estimator=regression_estimator, verbose=verbose)
@@ -417,7 +418,7 @@ class REGy(UsingClassifiers, REG):
             An estimator object implementing `fit` and `predict_proba`. It is used to classify the examples of the
             testing set and to compute the distribution of the whole testing set
 
-        bag_generator : BagGenerator object (default=PriorShift_BagGenerator())
+        bag_generator : BagGenerator object (default=None, each fit uses a new PriorShift_BagGenerator())
             Object to generate the bags with a selected shift
 
         n_bins : int (default=8)
@@ -519,7 +520,7 @@ class REGy(UsingClassifiers, REG):
         Christopher F. Baum: Stata tip 63: Modeling proportions. The Stata Journal 8.2 (2008): 299-303
     """
 
-    def __init__(self, estimator_train=None, estimator_test=None, bag_generator=PriorShift_BagGenerator(),
+    def __init__(self, estimator_train=None, estimator_test=None, bag_generator=None,
                  n_bins=8, bin_strategy='equal_width', regression_estimator=None, verbose=False):
         super(REGy, self).__init__(bag_generator=bag_generator, n_bins=n_bins, bin_strategy=bin_strategy,
                                    regression_estimator=regression_estimator, verbose=verbose,
-- 
2.43.0


From f77103c425b8c0899b7c417296604d58820a6cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 18/63] fix: a rejected request of prior and covariate shift
 bags leaves no empty bags behind

---
 quantificationlib/bag_generator.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index a4cb32c..3cbaf7d 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -521,12 +521,10 @@ class PriorAndCovariateShift_BagGenerator(BagGenerator):
                                                 random_state=self.random_state,
                                                 verbose=self.verbose)
 
-        classes = np.unique(y)
-        n_classes = len(classes)
-        self.prevalences_ = np.zeros((n_classes, self.n_bags))
-        self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
+        prevalences_prior, indexes_prior = prior.generate_bags(X, y)
+        prevalences_covariate, indexes_covariate = covariate.generate_bags(X, y)
 
-        self.prevalences_[:, 0:n_bags_prior], self.indexes_[:, 0:n_bags_prior] = prior.generate_bags(X, y)
-        self.prevalences_[:, n_bags_prior:], self.indexes_[:, n_bags_prior:] = covariate.generate_bags(X, y)
+        self.prevalences_ = np.hstack((prevalences_prior, prevalences_covariate))
+        self.indexes_ = np.hstack((indexes_prior, indexes_covariate))
 
         return self.prevalences_, self.indexes_
-- 
2.43.0


From 5da25f0d6e8f1c186591cbc9729b6a5af1d43859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:13 +0000
Subject: [PATCH 19/63] fix: CV_estimator's default cv is a valid
 cross-validation scheme

---
 quantificationlib/estimators/cross_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/cross_validation.py b/quantificationlib/estimators/cross_validation.py
index c089f9c..3b59939 100644
--- a/quantificationlib/estimators/cross_validation.py
+++ b/quantificationlib/estimators/cross_validation.py
@@ -114,7 +114,7 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             The verbosity level.
     """
 
-    def __init__(self, estimator, groups=None, cv='warn', n_jobs=None, fit_params=None, pre_dispatch='2*n_jobs',
+    def __init__(self, estimator, groups=None, cv=None, n_jobs=None, fit_params=None, pre_dispatch='2*n_jobs',
                  averaged_predictions=True, voting='hard', verbose=0):
         self.estimator = estimator
         self.groups = groups
-- 
2.43.0


From 53bac5b1c3ff261554608edd17b1fc5d9fd2ffda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:26 +0000
Subject: [PATCH 20/63] fix: CV_estimator predicts the training set with the
 folds its models were trained with

---
 quantificationlib/estimators/cross_validation.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/estimators/cross_validation.py b/quantificationlib/estimators/cross_validation.py
index 3b59939..06f32d0 100644
--- a/quantificationlib/estimators/cross_validation.py
+++ b/quantificationlib/estimators/cross_validation.py
@@ -110,6 +110,9 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
         y_train_ : array-like, shape (n_examples, )
             True classes. It is needed to obtain the predictions over the own training set
 
+        splits_ : list of (train, test) pairs
+            Indexes of the training and testing examples of each fold, in the same order that `estimators_`
+
         verbose : integer
             The verbosity level.
     """
@@ -130,6 +133,7 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
         self.classes_ = None
         self.X_train_ = None
         self.y_train_ = None
+        self.splits_ = None
 
     def fit(self, X, y):
         """ Fit the models
@@ -151,9 +155,11 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
         self.le_ = LabelEncoder().fit(y)
         # check cv
         self.cv = check_cv(self.cv, y, classifier=is_classifier(self.estimator))
+        # the splits are drawn just once: predicting the training set needs the same folds used to train the estimators
+        self.splits_ = list(self.cv.split(X, y, self.groups))
         # train CV and save the estimators for each fold
         cvresults = cross_validate(self.estimator, X, y,
-                                   groups=self.groups, cv=self.cv, n_jobs=self.n_jobs,
+                                   groups=self.groups, cv=self.splits_, n_jobs=self.n_jobs,
                                    verbose=self.verbose, fit_params=self.fit_params, pre_dispatch=self.pre_dispatch,
                                    return_estimator=True)
         self.estimators_ = cvresults['estimator']
@@ -265,14 +271,14 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             # predicting over training examples, same partitions
             #  computing number of repetitions
             n_preds = 0
-            for (train_index, test_index) in self.cv.split(self.X_train_, self.y_train_):
+            for (train_index, test_index) in self.splits_:
                 n_preds = n_preds + len(test_index)
             n_repeats = n_preds // n_examples
             #  storing predictions
             preds = np.zeros((n_repeats, n_examples, len(self.classes_)), dtype=float)
             n_rep = 0
             n_preds = 0
-            for nfold, (train_index, test_index) in enumerate(self.cv.split(self.X_train_, self.y_train_)):
+            for nfold, (train_index, test_index) in enumerate(self.splits_):
                 X_test = X[test_index]
                 preds[n_rep, test_index, :] = self.estimators_[nfold].predict_proba(X_test)
                 n_preds = n_preds + len(test_index)
-- 
2.43.0


From 96e035f6d1356fd078e4817d174674938becd6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 21/63] fix: CV_estimator supports folds whose training
 examples lack some class

---
 quantificationlib/estimators/cross_validation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/estimators/cross_validation.py b/quantificationlib/estimators/cross_validation.py
index 06f32d0..ccc45b1 100644
--- a/quantificationlib/estimators/cross_validation.py
+++ b/quantificationlib/estimators/cross_validation.py
@@ -279,8 +279,9 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             n_rep = 0
             n_preds = 0
             for nfold, (train_index, test_index) in enumerate(self.splits_):
-                X_test = X[test_index]
-                preds[n_rep, test_index, :] = self.estimators_[nfold].predict_proba(X_test)
+                est = self.estimators_[nfold]
+                # a model does not know the classes that are absent in its training folds
+                preds[n_rep][np.ix_(test_index, self._columns(est))] = est.predict_proba(X[test_index])
                 n_preds = n_preds + len(test_index)
                 if n_preds == n_examples:
                     n_rep += 1
@@ -289,6 +290,10 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             #   it is a test sample, predicting with each estimator
             preds = np.zeros((len(self.estimators_), n_examples, len(self.classes_)), dtype=float)
             for n_est, est in enumerate(self.estimators_):
-                preds[n_est, :, :] = est.predict_proba(X)
+                preds[n_est][:, self._columns(est)] = est.predict_proba(X)
 
         return preds
+
+    def _columns(self, est):
+        """ Returns the positions in `classes_` of the classes known by a model of the CV """
+        return np.searchsorted(self.classes_, getattr(est, 'classes_', self.classes_))
-- 
2.43.0


From 34ec9c023dc29d2423ef60bacea249aa761a9259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:52 +0000
Subject: [PATCH 22/63] fix: CV_estimator recognises its training examples when
 they have missing values or were modified

---
 quantificationlib/estimators/cross_validation.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/estimators/cross_validation.py b/quantificationlib/estimators/cross_validation.py
index ccc45b1..9c32376 100644
--- a/quantificationlib/estimators/cross_validation.py
+++ b/quantificationlib/estimators/cross_validation.py
@@ -149,8 +149,9 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             y : array-like, shape (n_examples, )
                 True classes
         """
-        self.X_train_ = X
-        self.y_train_ = y
+        # own copies: the examples are recognised at predict, even if the caller modifies the arrays afterwards
+        self.X_train_ = np.copy(X)
+        self.y_train_ = np.copy(y)
         self.classes_ = np.unique(y)
         self.le_ = LabelEncoder().fit(y)
         # check cv
@@ -267,7 +268,7 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             When X is a test bag, each examples is predicted by all estimators
         """
         n_examples = len(X)
-        if np.array_equal(X ,self.X_train_):
+        if self._is_training_set(X):
             # predicting over training examples, same partitions
             #  computing number of repetitions
             n_preds = 0
@@ -294,6 +295,11 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
 
         return preds
 
+    def _is_training_set(self, X):
+        """ Whether X are the training examples, that may have missing values """
+        X = np.asarray(X)
+        return np.array_equal(X, self.X_train_, equal_nan=X.dtype.kind == 'f' and self.X_train_.dtype.kind == 'f')
+
     def _columns(self, est):
         """ Returns the positions in `classes_` of the classes known by a model of the CV """
         return np.searchsorted(self.classes_, getattr(est, 'classes_', self.classes_))
-- 
2.43.0


From 48aca6ff6a7525ed63c10330329c4cb82ecd184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 23/63] fix: EnsembleOfClassifiers trains a different estimator
 with each bag

---
 quantificationlib/estimators/ensembles.py | 25 +++++++++--------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/quantificationlib/estimators/ensembles.py b/quantificationlib/estimators/ensembles.py
index 43b2303..67ab4e8 100644
--- a/quantificationlib/estimators/ensembles.py
+++ b/quantificationlib/estimators/ensembles.py
@@ -12,7 +12,7 @@ Estimators for an Ensemble of Quantifiers
 
 import numpy as np
 
-from sklearn.base import BaseEstimator, ClassifierMixin
+from sklearn.base import BaseEstimator, ClassifierMixin, clone
 from sklearn.utils import check_X_y
 from sklearn.exceptions import NotFittedError
 
@@ -95,23 +95,18 @@ class EnsembleOfClassifiers(BaseEstimator, ClassifierMixin):
             ValueError
                 When base_estimator is None
         """
-        if self.classes_ is None and self.estimators_ is None:
+        if self.base_estimator is None:
+            raise ValueError("An estimator is needed for %s objects", self.__class__.__name__)
 
-            #  estimators_ are not fitted
-            if self.base_estimator is None:
-                raise ValueError("An estimator is needed for %s objects", self.__class__.__name__)
+        X, y = check_X_y(X, y, accept_sparse=True)
 
-            X, y = check_X_y(X, y, accept_sparse=True)
+        self.n_estimators_ = indexes.shape[1]
 
-            self.n_estimators_ = indexes.shape[1]
-            # fit the estimator for each binary combination of classes, n_estimators = n_classes -1
-            self.estimators_ = np.empty(self.n_estimators_, dtype=object)
-
-            # In cases where individual estimators are very fast to train, setting n_jobs > 1 can result in slower
-            # performance due to the overhead of spawning threads.  See joblib issue #112.
-            self.estimators_ = Parallel(n_jobs=self.n_jobs)(delayed(self.base_estimator.fit)(X[indexes[:, n_est], :],
-                                                                                             y[indexes[:, n_est]])
-                                                            for n_est in range(self.n_estimators_))
+        # In cases where individual estimators are very fast to train, setting n_jobs > 1 can result in slower
+        # performance due to the overhead of spawning threads.  See joblib issue #112.
+        self.estimators_ = Parallel(n_jobs=self.n_jobs)(delayed(clone(self.base_estimator).fit)(X[indexes[:, n_est], :],
+                                                                                                y[indexes[:, n_est]])
+                                                        for n_est in range(self.n_estimators_))
 
         self.classes_ = np.unique(y)
         return self
-- 
2.43.0


From 60080bafabb8d50dd734e3ea190207bb151aca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 24/63] fix: EnsembleOfClassifiers supports bags without
 examples of some class

---
 quantificationlib/estimators/ensembles.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/estimators/ensembles.py b/quantificationlib/estimators/ensembles.py
index 67ab4e8..3088737 100644
--- a/quantificationlib/estimators/ensembles.py
+++ b/quantificationlib/estimators/ensembles.py
@@ -165,7 +165,8 @@ class EnsembleOfClassifiers(BaseEstimator, ClassifierMixin):
         #  different than len(X)
         p_0 = self.estimators_[0].predict_proba(X)
         preds = np.zeros((len(p_0), self.n_estimators_, len(self.classes_)), dtype=p_0.dtype)
-        preds[:, 0, :] = p_0
-        for i in range(self.n_estimators_):
-            preds[:, i, :] = self.estimators_[i].predict_proba(X)
+        for i, est in enumerate(self.estimators_):
+            # an estimator does not know the classes that are absent in its bag
+            known = np.searchsorted(self.classes_, getattr(est, 'classes_', self.classes_))
+            preds[:, i, known] = p_0 if i == 0 else est.predict_proba(X)
         return preds
-- 
2.43.0


From bbf864da2d60b482107c0aa1caf53afb29d723dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 25/63] fix: EoQ supports bags of any size when there are
 several predictions for each example

---
 quantificationlib/ensembles/eoq.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index fa8838b..d8f84a4 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -334,11 +334,8 @@ class EoQ(WithoutClassifiers):
             else:
                 n_repetitions = len(predictions_train) // len(y)
                 y_ext = np.tile(y, n_repetitions)
-                adapt_indexs = np.repeat(np.array(range(0, len(y) * n_repetitions, len(y))), len(y))
-                indexes_ext = np.tile(self.indexes_, (n_repetitions, 1)) + np.transpose(np.tile(adapt_indexs,
-                                                                                                (
-                                                                                                    self.n_quantifiers,
-                                                                                                    1)))
+                indexes_ext = np.vstack([self.indexes_ + n_rep * len(y) for n_rep in range(n_repetitions)])
+
             #  fit quantifiers
             if self.verbose > 0:
                 print('Class %s: Training quantifiers...' % self.__class__.__name__, end='')
-- 
2.43.0


From 15bd6981c2d1a74c077b51930be3ca36fe431a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:52 +0000
Subject: [PATCH 26/63] fix: EoQ gives each crisp quantifier the labels
 predicted by its own classifier

---
 quantificationlib/ensembles/eoq.py | 44 ++++++++++++++++++------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index d8f84a4..e0ad3ba 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -343,16 +343,9 @@ class EoQ(WithoutClassifiers):
             self.quantifiers_ = np.zeros(self.n_quantifiers, dtype=object)
             for i in range(self.n_quantifiers):
                 self.quantifiers_[i] = deepcopy(self.base_quantifier)
-                if predictions_train.ndim == 1:
-                    self.quantifiers_[i].fit(X=None, y=y_ext[indexes_ext[:, i]],
-                                             predictions_train=predictions_train[indexes_ext[:, i]])
-                elif predictions_train.ndim == 2:
-                    self.quantifiers_[i].fit(X=None, y=y_ext[indexes_ext[:, i]],
-                                             predictions_train=predictions_train[indexes_ext[:, i], :])
-                else:
-                    #  3 dimensions, an EnsembleOfClassifiers is used
-                    self.quantifiers_[i].fit(X=None, y=y_ext[indexes_ext[:, i]],
-                                             predictions_train=predictions_train[indexes_ext[:, i], i, :])
+                self.quantifiers_[i].fit(X=None, y=y_ext[indexes_ext[:, i]],
+                                         predictions_train=self._member_predictions(predictions_train,
+                                                                                    i)[indexes_ext[:, i]])
 
             #  compute distributions for distribution_similarity combination strategy
             if n_classes == 2:
@@ -362,7 +355,7 @@ class EoQ(WithoutClassifiers):
             # compute bincuts according to bin_strategy
             self.bincuts_ = np.zeros((n_descriptors, self.n_bins + 1))
             for descr in range(n_descriptors):
-                if predictions_train.ndim == 2:
+                if predictions_train.ndim == 2 and not self._crisp(predictions_train):
                     self.bincuts_[descr, :] = compute_bincuts(x=predictions_train[:, descr], y=y_ext,
                                                               classes=self.classes_,
                                                               n_bins=self.n_bins, bin_strategy=self.bin_strategy)
@@ -375,7 +368,7 @@ class EoQ(WithoutClassifiers):
             self.distributions_ = np.zeros((self.n_quantifiers, self.n_bins * n_descriptors))
             for i in range(self.n_quantifiers):
                 for descr in range(n_descriptors):
-                    if predictions_train.ndim == 2:
+                    if predictions_train.ndim == 2 and not self._crisp(predictions_train):
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
                              np.histogram(predictions_train[:, descr],
                                           bins=self.bincuts_[descr, :])[0] / len(predictions_train)
@@ -441,11 +434,9 @@ class EoQ(WithoutClassifiers):
                     predictions_test = self.ensemble_estimator_test.predict(X)
 
             for i in range(self.n_quantifiers):
-                if predictions_test.ndim <= 2:
-                    prevalences[i, :] = self.quantifiers_[i].predict(X=None, predictions_test=predictions_test)
-                else:
-                    #  3 dimensions, an EnsembleOfClassifiers is used
-                    prevalences[i, :] = self.quantifiers_[i].predict(X=None, predictions_test=predictions_test[:, i, :])
+                prevalences[i, :] = self.quantifiers_[i].predict(X=None,
+                                                                 predictions_test=self._member_predictions(
+                                                                     predictions_test, i))
 
         if self.combination_strategy == 'prevalence_similarity' or self.combination_strategy == 'all':
             p = np.mean(prevalences, axis=0)
@@ -468,7 +459,7 @@ class EoQ(WithoutClassifiers):
                             np.cumsum(test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins], axis=1)
             elif isinstance(self.base_quantifier, UsingClassifiers):
 
-                if predictions_test.ndim == 1:
+                if predictions_test.ndim == 1 or self._crisp(predictions_test):
                     raise ValueError("Class %s: distribution_similarity not implemented with quantifiers that use "
                                      "crisp preditions, used prevalence_similarity instead", self.__class__.__name__)
 
@@ -529,3 +520,20 @@ class EoQ(WithoutClassifiers):
             prediction['all'] = (m0 + m1 + m2 + m3)/4
 
         return prediction
+
+    def _crisp(self, predictions):
+        """ Whether predictions are labels: one column, or, with an EnsembleOfClassifiers, a column for each quantifier
+        """
+        if self.base_quantifier.probabilistic_predictions or predictions.dtype.kind == 'f':
+            return False
+        return predictions.ndim == 1 or predictions.ndim == 2 and predictions.shape[1] in (1, self.n_quantifiers)
+
+    def _member_predictions(self, predictions, i):
+        """ Predictions for the i-th quantifier of the ensemble """
+        if predictions.ndim == 3:
+            #  3 dimensions, an EnsembleOfClassifiers is used
+            return predictions[:, i, :]
+        if predictions.ndim == 2 and predictions.shape[1] > 1 and self._crisp(predictions):
+            #  labels predicted by an EnsembleOfClassifiers
+            return predictions[:, i]
+        return predictions
-- 
2.43.0


From caf7ec405c1096cb590063ca0fb6e39b8e604749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 27/63] fix: EoQ compares the test bag with the distribution of
 each training bag

---
 quantificationlib/ensembles/eoq.py | 115 ++++++++++-------------------
 1 file changed, 38 insertions(+), 77 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index e0ad3ba..27992f8 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -219,7 +219,6 @@ class EoQ(WithoutClassifiers):
                              % self.__class__.__name__)
 
         self.classes_ = np.unique(y)
-        n_classes = len(self.classes_)
 
         if self.verbose > 0:
             print('Class %s: Creating training bags...' % self.__class__.__name__, end='')
@@ -242,10 +241,7 @@ class EoQ(WithoutClassifiers):
             if self.verbose > 0:
                 print('Class %s: Training quantifiers...' % self.__class__.__name__, end='')
 
-            self.bincuts_ = np.zeros((X.shape[1], 100 + 1))
-            for att in range(X.shape[1]):
-                self.bincuts_[att, :] = compute_bincuts(x=X[:, att], y=None, classes=self.classes_,
-                                                        n_bins=self.n_bins, bin_strategy='equal_width')
+            self.bincuts_ = self._compute_bincuts(X, y)
 
             self.quantifiers_ = np.zeros(self.n_quantifiers, dtype=object)
             for i in range(self.n_quantifiers):
@@ -253,14 +249,8 @@ class EoQ(WithoutClassifiers):
                 self.quantifiers_[i].fit(X[self.indexes_[:, i], :], y[self.indexes_[:, i]])
 
             #  compute distributions for distribution_similarity combination strategy
-            self.distributions_ = np.zeros((self.n_quantifiers, self.n_bins * X.shape[1]))
-            for i in range(self.n_quantifiers):
-                for att in range(X.shape[1]):
-                    self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins] = \
-                        np.histogram(X[:, att], bins=self.bincuts_[att, :])[0] / len(X)
-                    if self.distribution_function == 'CDF':
-                        self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins] = \
-                            np.cumsum(self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins], axis=1)
+            self.distributions_ = np.array([self._compute_distribution(X[self.indexes_[:, i], :])
+                                            for i in range(self.n_quantifiers)])
 
         elif isinstance(self.base_quantifier, UsingClassifiers):
 
@@ -348,38 +338,11 @@ class EoQ(WithoutClassifiers):
                                                                                     i)[indexes_ext[:, i]])
 
             #  compute distributions for distribution_similarity combination strategy
-            if n_classes == 2:
-                n_descriptors = 1  # number of groups of probabilities used to represent the distribution
-            else:
-                n_descriptors = n_classes
-            # compute bincuts according to bin_strategy
-            self.bincuts_ = np.zeros((n_descriptors, self.n_bins + 1))
-            for descr in range(n_descriptors):
-                if predictions_train.ndim == 2 and not self._crisp(predictions_train):
-                    self.bincuts_[descr, :] = compute_bincuts(x=predictions_train[:, descr], y=y_ext,
-                                                              classes=self.classes_,
-                                                              n_bins=self.n_bins, bin_strategy=self.bin_strategy)
-                elif predictions_train.ndim == 3:
-                    self.bincuts_[descr, :] = compute_bincuts(x=predictions_train.mean(axis=1)[:, descr], y=y_ext,
-                                                              classes=self.classes_,
-                                                              n_bins=self.n_bins, bin_strategy=self.bin_strategy)
-
-            #  compute distributions
-            self.distributions_ = np.zeros((self.n_quantifiers, self.n_bins * n_descriptors))
-            for i in range(self.n_quantifiers):
-                for descr in range(n_descriptors):
-                    if predictions_train.ndim == 2 and not self._crisp(predictions_train):
-                        self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                             np.histogram(predictions_train[:, descr],
-                                          bins=self.bincuts_[descr, :])[0] / len(predictions_train)
-                    elif predictions_train.ndim == 3:
-                        self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                            np.histogram(predictions_train.mean(axis=1)[:, descr],
-                                         bins=self.bincuts_[descr, :])[0] / len(predictions_train)
-                    # compute cdf if necessary
-                    if self.distribution_function == 'CDF':
-                        self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                            np.cumsum(self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins], axis=1)
+            descriptors = self._descriptors(predictions_train)
+            if descriptors is not None:
+                self.bincuts_ = self._compute_bincuts(descriptors, y_ext)
+                self.distributions_ = np.array([self._compute_distribution(descriptors[indexes_ext[:, i], :])
+                                                for i in range(self.n_quantifiers)])
 
         else:
             raise ValueError("Base quantifiers of class %s not implemented in EoQ"
@@ -449,45 +412,19 @@ class EoQ(WithoutClassifiers):
         if self.combination_strategy == 'distribution_similarity' or self.combination_strategy == 'all':
 
             if isinstance(self.base_quantifier, WithoutClassifiers):
-                #  compute test distribution
-                test_distribution = np.zeros((1, self.n_bins * X.shape[1]))
-                for att in range(X.shape[1]):
-                    test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins] = \
-                        np.histogram(X[:, att], bins=self.bincuts_[att, :])[0] / len(X)
-                    if self.distribution_function == 'CDF':
-                        test_distributions[0, att * self.n_bins:(att + 1) * self.n_bins] = \
-                            np.cumsum(test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins], axis=1)
+                descriptors = X
             elif isinstance(self.base_quantifier, UsingClassifiers):
 
-                if predictions_test.ndim == 1 or self._crisp(predictions_test):
+                descriptors = self._descriptors(predictions_test)
+                if descriptors is None:
                     raise ValueError("Class %s: distribution_similarity not implemented with quantifiers that use "
                                      "crisp preditions, used prevalence_similarity instead", self.__class__.__name__)
-
-                if n_classes == 2:
-                    n_descriptors = 1  # number of groups of probabilities used to represent the distribution
-                else:
-                    n_descriptors = n_classes
-
-                #  compute test distributions
-                test_distribution = np.zeros((1, self.n_bins * n_descriptors))
-                for descr in range(n_descriptors):
-                    if predictions_test.ndim == 2:
-                        test_distribution[0, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                            np.histogram(predictions_test[:, descr],
-                                         bins=self.bincuts_[descr, :])[0] / len(predictions_test)
-                    elif predictions_test.ndim == 3:
-                        test_distribution[0, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                            np.histogram(predictions_test.mean(axis=1)[:, descr],
-                                         bins=self.bincuts_[descr, :])[0] / len(predictions_test)
-                    # compute cdf if necessary
-                    if self.distribution_function == 'CDF':
-                        test_distribution[0, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                            np.cumsum(test_distribution[0, descr * self.n_bins:(descr + 1) * self.n_bins], axis=1)
             else:
                 raise ValueError("Base quantifiers of class %s not implemented in EoQ"
                                  % self.base_quantifier.__class__.__name__)
-            distances = cdist(test_distribution, self.distributions_, metric=self.distance_bags)
-            indxs = np.argsort(distances.squeeze())
+            test_distribution = self._compute_distribution(descriptors)
+            distances = cdist(test_distribution.reshape(1, -1), self.distributions_, metric=self.distance_bags)
+            indxs = np.argsort(distances[0])
             distribution_similarity_selected = indxs[0:round(self.n_quantifiers * self.percentage_of_selected_models)]
 
         prediction = 0
@@ -537,3 +474,27 @@ class EoQ(WithoutClassifiers):
             #  labels predicted by an EnsembleOfClassifiers
             return predictions[:, i]
         return predictions
+
+    def _descriptors(self, predictions):
+        """ Columns of the predictions used to represent a bag: the probabilities of the first class in binary problems,
+            those of all the classes otherwise, averaged over the models of an EnsembleOfClassifiers.
+            None if predictions are labels
+        """
+        if predictions.ndim == 1 or self._crisp(predictions):
+            return None
+        if predictions.ndim == 3:
+            predictions = predictions.mean(axis=1)
+        return predictions[:, :1] if len(self.classes_) == 2 else predictions
+
+    def _compute_bincuts(self, descriptors, y):
+        """ Boundaries of the bins of each descriptor """
+        return np.array([compute_bincuts(x=descriptors[:, descr], y=y, classes=self.classes_, n_bins=self.n_bins,
+                                         bin_strategy=self.bin_strategy) for descr in range(descriptors.shape[1])])
+
+    def _compute_distribution(self, descriptors):
+        """ Distribution (PDF or CDF of each descriptor) of the examples of a bag """
+        distribution = [np.histogram(descriptors[:, descr], bins=self.bincuts_[descr, :])[0] / len(descriptors)
+                        for descr in range(descriptors.shape[1])]
+        if self.distribution_function == 'CDF':
+            distribution = np.cumsum(distribution, axis=1)
+        return np.concatenate(distribution)
-- 
2.43.0


From afdaa443a7b915802ddcec3b977eb3369f730446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:33 +0000
Subject: [PATCH 28/63] fix: EoQ selects at least one model

---
 quantificationlib/ensembles/eoq.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 27992f8..d6d0af3 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -401,13 +401,16 @@ class EoQ(WithoutClassifiers):
                                                                  predictions_test=self._member_predictions(
                                                                      predictions_test, i))
 
+        #  at least one model must be selected
+        n_selected = max(1, round(self.n_quantifiers * self.percentage_of_selected_models))
+
         if self.combination_strategy == 'prevalence_similarity' or self.combination_strategy == 'all':
             p = np.mean(prevalences, axis=0)
             difference = np.zeros(self.n_quantifiers)
             for i in range(self.n_quantifiers):
                 difference[i] = mean_absolute_error(p, prevalences[i])
             indxs = np.argsort(difference)
-            prevalence_similarity_selected = indxs[0:round(self.n_quantifiers * self.percentage_of_selected_models)]
+            prevalence_similarity_selected = indxs[0:n_selected]
 
         if self.combination_strategy == 'distribution_similarity' or self.combination_strategy == 'all':
 
@@ -425,7 +428,7 @@ class EoQ(WithoutClassifiers):
             test_distribution = self._compute_distribution(descriptors)
             distances = cdist(test_distribution.reshape(1, -1), self.distributions_, metric=self.distance_bags)
             indxs = np.argsort(distances[0])
-            distribution_similarity_selected = indxs[0:round(self.n_quantifiers * self.percentage_of_selected_models)]
+            distribution_similarity_selected = indxs[0:n_selected]
 
         prediction = 0
         if self.combination_strategy == 'mean':
-- 
2.43.0


From a733d0b69197c109b288cc87043d3a2eed890c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 29/63] fix: EoQ's median strategy returns a distribution when
 all medians are zero

---
 quantificationlib/ensembles/eoq.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index d6d0af3..58e172c 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -435,7 +435,7 @@ class EoQ(WithoutClassifiers):
             prediction = np.mean(prevalences, axis=0)
             prediction = prediction / float(np.sum(prediction))
         elif self.combination_strategy == 'median':
-            prediction = np.median(prevalences, axis=0)
+            prediction = self._median(prevalences)
             prediction = prediction / float(np.sum(prediction))
         elif self.combination_strategy == 'prevalence_similarity':
             prediction = np.mean(prevalences[prevalence_similarity_selected, :], axis=0)
@@ -448,7 +448,7 @@ class EoQ(WithoutClassifiers):
             m0 = np.mean(prevalences, axis=0)
             m0 = m0 / float(np.sum(m0))
             prediction['mean'] = m0
-            m1 = np.median(prevalences, axis=0)
+            m1 = self._median(prevalences)
             m1 = m1 / float(np.sum(m1))
             prediction['median'] = m1
             m2 = np.mean(prevalences[prevalence_similarity_selected, :], axis=0)
@@ -461,6 +461,13 @@ class EoQ(WithoutClassifiers):
 
         return prediction
 
+    @staticmethod
+    def _median(prevalences):
+        """ Median of the prevalences, or their mean if the median is zero for all the classes (it is not a prevalence)
+        """
+        median = np.median(prevalences, axis=0)
+        return median if np.sum(median) > 0 else np.mean(prevalences, axis=0)
+
     def _crisp(self, predictions):
         """ Whether predictions are labels: one column, or, with an EnsembleOfClassifiers, a column for each quantifier
         """
-- 
2.43.0


From ad191ed67990801f045acc6c3d716ed58f32675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:00 +0000
Subject: [PATCH 30/63] fix: EoQ recognises labels per model when there are
 more bags than quantifiers

---
 quantificationlib/ensembles/eoq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 58e172c..9f17ba7 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -473,7 +473,8 @@ class EoQ(WithoutClassifiers):
         """
         if self.base_quantifier.probabilistic_predictions or predictions.dtype.kind == 'f':
             return False
-        return predictions.ndim == 1 or predictions.ndim == 2 and predictions.shape[1] in (1, self.n_quantifiers)
+        return predictions.ndim == 1 or predictions.ndim == 2 and (
+            predictions.shape[1] == 1 or predictions.shape[1] >= self.n_quantifiers)
 
     def _member_predictions(self, predictions, i):
         """ Predictions for the i-th quantifier of the ensemble """
-- 
2.43.0


From 75e49162a69b300bd70e6242cf46b29b2e35836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 31/63] fix: Frank and Hall decompositions of problems with two
 classes

---
 quantificationlib/estimators/frank_and_hall.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index 0d56f10..bd8c834 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -993,6 +993,9 @@ class FHLabelBinarizer(LabelBinarizer):
                     4ht column: (not really used)
         """
         y_bin = super().transform(y)
+        if len(self.classes_) == 2:
+            # LabelBinarizer returns just the column of the second class
+            y_bin = np.hstack((self.pos_label + self.neg_label - y_bin, y_bin))
         y_bin_fh = copy(y_bin)
         for i in range(len(self.classes_)):
             y_bin_fh[:, i] = np.sum(y_bin[:, 0:i + 1], axis=1)
-- 
2.43.0


From f27a533657f4fffa85bc6849951e2c96102d1576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 32/63] fix: FHLabelBinarizer honours negative labels other
 than zero

---
 quantificationlib/estimators/frank_and_hall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index bd8c834..1258a32 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -998,5 +998,5 @@ class FHLabelBinarizer(LabelBinarizer):
             y_bin = np.hstack((self.pos_label + self.neg_label - y_bin, y_bin))
         y_bin_fh = copy(y_bin)
         for i in range(len(self.classes_)):
-            y_bin_fh[:, i] = np.sum(y_bin[:, 0:i + 1], axis=1)
+            y_bin_fh[:, i] = np.max(y_bin[:, 0:i + 1], axis=1)
         return y_bin_fh
-- 
2.43.0


From 98a326f9179fa1c011ad8a18183c5927b5ef7e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:02 +0000
Subject: [PATCH 33/63] fix: OneVsRestQuantifier returns a distribution when
 all the binary estimates are zero

---
 quantificationlib/decomposition/multiclass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/decomposition/multiclass.py b/quantificationlib/decomposition/multiclass.py
index 93d50cb..b6c08ea 100644
--- a/quantificationlib/decomposition/multiclass.py
+++ b/quantificationlib/decomposition/multiclass.py
@@ -199,5 +199,8 @@ class OneVsRestQuantifier(UsingClassifiers):
 
         if np.sum(prevalences) > 0:
             prevalences = prevalences / float(np.sum(prevalences))
+        else:
+            # none of the quantifiers detects its class, there is no reason to prefer any of them
+            prevalences = np.full(len(self.classes_), 1.0 / len(self.classes_))
 
         return prevalences
-- 
2.43.0


From 349d61fa0baaab3decbb51196ed85c06deb3e10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:01 +0000
Subject: [PATCH 34/63] fix: OneVsRestQuantifier supports problems with two
 classes

---
 quantificationlib/decomposition/multiclass.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/decomposition/multiclass.py b/quantificationlib/decomposition/multiclass.py
index b6c08ea..6aa58c4 100644
--- a/quantificationlib/decomposition/multiclass.py
+++ b/quantificationlib/decomposition/multiclass.py
@@ -125,6 +125,9 @@ class OneVsRestQuantifier(UsingClassifiers):
         label_binarized = LabelBinarizer()
         label_binarized.fit(y)
         y_bin = label_binarized.transform(y)
+        if y_bin.shape[1] == 1:
+            # LabelBinarizer returns just the column of the second class when there are two classes
+            y_bin = np.hstack((1 - y_bin, y_bin))
 
         if isinstance(self.base_quantifier, WithoutClassifiers):
 
@@ -150,14 +153,19 @@ class OneVsRestQuantifier(UsingClassifiers):
 
             super().fit(X, y, predictions_train=predictions_train)
 
+            # OneVsRestClassifier trains just one model when there are two classes, its predictions are used for both
+            binary = len(self.classes_) == 2
+            if binary and predictions_train is None:
+                predictions_train = self.predictions_train_
+
             self.quantifiers_ = np.zeros(len(self.classes_), dtype=object)
             for i in range(len(self.classes_)):
                 self.quantifiers_[i] = deepcopy(self.base_quantifier)
-                if self.estimator_train is not None:
+                if self.estimator_train is not None and not binary:
                     self.quantifiers_[i].estimator_train = self.estimator_train.estimators_[i]
                 else:
                     self.quantifiers_[i].estimator_train = None
-                if self.estimator_test is not None:
+                if self.estimator_test is not None and not binary:
                     self.quantifiers_[i].estimator_test = self.estimator_test.estimators_[i]
                 else:
                     self.quantifiers_[i].estimator_test = None
@@ -189,6 +197,9 @@ class OneVsRestQuantifier(UsingClassifiers):
                 prevalences[i] = self.quantifiers_[i].predict(X)[1]
 
         elif isinstance(self.base_quantifier, UsingClassifiers):
+            if predictions_test is None and len(self.classes_) == 2 and self.estimator_test is not None:
+                predictions_test = self.estimator_test.predict_proba(X)
+
             if predictions_test is None:
                 for i in range(len(self.classes_)):
                     prevalences[i] = self.quantifiers_[i].predict(X)[1]
-- 
2.43.0


From ea43174486687e133cb5bbacb2baf5184a2a28bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 35/63] fix: FrankAndHallClassifier: a middle class needs to be
 above the previous split and below its own

---
 quantificationlib/estimators/frank_and_hall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index 1258a32..f7e4dbb 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -250,7 +250,7 @@ class FrankAndHallClassifier(BaseEstimator, ClassifierMixin):
         # of the right group of the c_i-1 estimator, and the probability of the left group of the c_i estimator
         for c_i in range(1, n_classes - 1):
             # Pr(y = c_i) = p_right_estimator_i-1 * p_left_estimator_i
-            probs_samples[:, c_i] = 1 - predictions[:, c_i - 1] * predictions[:, c_i]
+            probs_samples[:, c_i] = (1 - predictions[:, c_i - 1]) * predictions[:, c_i]
         # the probability of the last class is the probability of the right group of the last estimator
         probs_samples[:, n_classes - 1] = 1 - predictions[:, n_classes - 1 - 1]
 
-- 
2.43.0


From a2dcfa9923a92a08ce639632c45b0c6e3de9e773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:21 +0000
Subject: [PATCH 36/63] fix: FrankAndHallMonotoneClassifier corrects decreasing
 probabilities

---
 quantificationlib/estimators/frank_and_hall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index f7e4dbb..2d3b434 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -535,7 +535,7 @@ class FrankAndHallMonotoneClassifier(FrankAndHallClassifier):
             Sep 2014, Nancy, France. pp.323 - 337, 2014,
         """
         ascending = np.all(probabilities[:, 1:] >= probabilities[:, :-1], axis=1)
-        samples_to_correct = np.nonzero(ascending is False)[0]
+        samples_to_correct = np.nonzero(~ascending)[0]
         if len(samples_to_correct) == 0:
             return probabilities
         else:
-- 
2.43.0


From 1e39edeada54ca771e78cad18b2023d1f6749312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:47 +0000
Subject: [PATCH 37/63] fix: FrankAndHallTreeClassifier scores its models with
 the true prevalence of the left group

---
 quantificationlib/estimators/frank_and_hall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index 2d3b434..b984e8f 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -797,7 +797,7 @@ class FrankAndHallTreeClassifier(FrankAndHallClassifier):
         for i in range(n_estimators):
             # compute the true prevalence of the left group for such estimator
             y_val_bin = self.label_binarizer_.transform(y)[:, i]
-            num_left = np.count_nonzero(y_val_bin == 0)  # left 0, right +1
+            num_left = np.count_nonzero(y_val_bin == 1)  # left 1, right 0
             p_true = num_left / float(n_samples)
             scores[i] = self.performance_measure(p_true, p_pred[i])
             if self.verbose:
-- 
2.43.0


From f8ac161550054cc852fecb849ca144290e72acb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 38/63] fix: PDFOrdinaly keeps the examples whose score exceeds
 the class range by a rounding error

---
 quantificationlib/ordinal/pdf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantificationlib/ordinal/pdf.py b/quantificationlib/ordinal/pdf.py
index 6fdc646..2399f89 100644
--- a/quantificationlib/ordinal/pdf.py
+++ b/quantificationlib/ordinal/pdf.py
@@ -188,6 +188,8 @@ class PDFOrdinaly(UsingClassifiers):
             scores = self.__leafprobs2scores(self.predictions_train_, n_classes)
         else:
             raise ValueError('Method %s not implemented with objects of class %s', self.method, self.__class__.__name__)
+        # rounding errors must not take any example out of the range of the histogram
+        scores = np.clip(scores, 1., float(n_classes))
 
         effective_n_bins = self.n_bins * (n_classes - 1)
         self.train_distrib_ = np.zeros((effective_n_bins, n_classes))
@@ -256,6 +258,8 @@ class PDFOrdinaly(UsingClassifiers):
             scores = self.__leafprobs2scores(self.predictions_test_, n_classes)
         else:
             raise ValueError('Method %s not implemented with objects of class %s', self.method, self.__class__.__name__)
+        # rounding errors must not take any example out of the range of the histogram
+        scores = np.clip(scores, 1., float(n_classes))
 
         effective_n_bins = self.n_bins * (n_classes - 1)
         self.test_distrib_ = np.histogram(scores, bins=effective_n_bins, range=(1., float(n_classes)))[0]
-- 
2.43.0


From d4495371e076979171260b6a40ee754454652fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 39/63] fix: L1 and HD problems with just one bin

---
 quantificationlib/optimization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index 1f26266..90093aa 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -64,7 +64,7 @@ def solve_l1(train_distrib, test_distrib, n_classes, problem=None, solver=None):
         prevalences = cvxpy.Variable(n_classes, nonneg=True)
         test_d = cvxpy.Parameter(len(test_distrib), nonneg=True)
         objective = cvxpy.Minimize(cvxpy.norm(test_d - train_distrib @ prevalences, 1))
-        test_d.value = np.squeeze(test_distrib)
+        test_d.value = np.ravel(test_distrib)
         contraints = [cvxpy.sum(prevalences) == 1]
 
         problem = cvxpy.Problem(objective, contraints)
@@ -75,7 +75,7 @@ def solve_l1(train_distrib, test_distrib, n_classes, problem=None, solver=None):
 
         return problem, np.array(prevalences[0:n_classes].value).squeeze()
     else:
-        problem.parameters()[0].value = np.squeeze(test_distrib)
+        problem.parameters()[0].value = np.ravel(test_distrib)
         if solver is None:
             problem.solve(warm_start=True)
         else:
@@ -118,7 +118,7 @@ def solve_hd(train_distrib, test_distrib, n_classes, problem=None, solver='ECOS'
         prevalences = cvxpy.Variable(n_classes, nonneg=True)
         test_d = cvxpy.Parameter(len(test_distrib), nonneg=True)
         s = cvxpy.multiply(test_d, train_distrib @ prevalences)
-        test_d.value = np.squeeze(test_distrib)
+        test_d.value = np.ravel(test_distrib)
         objective = cvxpy.Minimize(1 - cvxpy.sum(cvxpy.sqrt(s)))
         contraints = [cvxpy.sum(prevalences) == 1]
         problem = cvxpy.Problem(objective, contraints)
@@ -126,7 +126,7 @@ def solve_hd(train_distrib, test_distrib, n_classes, problem=None, solver='ECOS'
 
         return problem, np.array(prevalences[0:n_classes].value).squeeze()
     else:
-        problem.parameters()[0].value = np.squeeze(test_distrib)
+        problem.parameters()[0].value = np.ravel(test_distrib)
         problem.solve(warm_start=True, solver=solver, feastol=1e6)
 
         return problem, list(problem.solution.primal_vars.values())[0]
-- 
2.43.0


From 7585828d93c5ba84070eb640b7883f2fddd07124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 40/63] fix: PDFOrdinaly implements the documented L1 distance

---
 quantificationlib/ordinal/pdf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/ordinal/pdf.py b/quantificationlib/ordinal/pdf.py
index 2399f89..1e53927 100644
--- a/quantificationlib/ordinal/pdf.py
+++ b/quantificationlib/ordinal/pdf.py
@@ -86,7 +86,7 @@ class PDFOrdinaly(UsingClassifiers):
              This means that `predictions_train_/predictions_test_` contain probabilistic predictions
 
         distance : str or a distance function
-            A string with the name of the distance function ('HD'/'L1'/'L2') or a distance function
+            A string with the name of the distance function ('HD'/'L1'/'L2'/'EMD')
 
         tol : float
             The precision of the solution when search is used to compute the solution
@@ -271,6 +271,9 @@ class PDFOrdinaly(UsingClassifiers):
         elif self.distance == 'L2':
             prevalences = solve_l2(train_distrib=self.train_distrib_, test_distrib=self.test_distrib_,
                                    G=self.G_, C=self.C_, b=self.b_)
+        elif self.distance == 'L1':
+            self.problem_, prevalences = solve_l1(train_distrib=self.train_distrib_, test_distrib=self.test_distrib_,
+                                                  n_classes=n_classes, problem=self.problem_)
         elif self.distance == 'EMD':
             for i in range(1, effective_n_bins):
                 self.test_distrib_[i] = self.test_distrib_[i] + self.test_distrib_[i-1]
@@ -283,7 +286,8 @@ class PDFOrdinaly(UsingClassifiers):
             if np.sum(prevalences) > 0:
                 prevalences = prevalences / float(np.sum(prevalences))
         else:
-            prevalences = None
+            raise ValueError('Distance %s not implemented with objects of class %s'
+                             % (self.distance, self.__class__.__name__))
 
         if self.verbose > 0:
             print('done')
-- 
2.43.0


From 1807d917f7c5e186424462be4567576d7cd9dd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 41/63] fix: REGX/REGy: describe training bags by relative
 frequencies of the bag

---
 quantificationlib/multiclass/regression.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index 923a2a0..d51bd9f 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -142,7 +142,6 @@ class REG(six.with_metaclass(ABCMeta)):
 
         classes = np.unique(y)
         self.n_classes_ = len(classes)
-        n_examples = X.shape[0]
         if len(X.shape) == 1:
             n_features = 1
         else:
@@ -165,7 +164,7 @@ class REG(six.with_metaclass(ABCMeta)):
         for nbag in range(bag_generator.n_bags):
             for att in range(n_features):
                 self.dataX_[nbag, att * self.n_bins:(att + 1) * self.n_bins] = \
-                    np.histogram(X[indexes[:, nbag], att], bins=self.bincuts_[att, :])[0] / n_examples
+                    np.histogram(X[indexes[:, nbag], att], bins=self.bincuts_[att, :])[0] / len(indexes)
 
     def fit_regressor(self):
         """ This method trains the regressor model using `dataX_` and `dataY_`
-- 
2.43.0


From be580cae161f200ffa434a85839a85a650ae42ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 42/63] fix: REGX/REGy: train a copy of regression_estimator
 for binary problems

---
 quantificationlib/multiclass/regression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index d51bd9f..70a7b14 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -173,7 +173,8 @@ class REG(six.with_metaclass(ABCMeta)):
         if self.n_classes_ == 2:
             self.dataY_ = self.dataY_[:, 1]
             if self.regression_estimator is not None:
-                self.estimators_ = self.regression_estimator.fit(self.dataX_, self.dataY_)
+                self.estimators_ = deepcopy(self.regression_estimator)
+                self.estimators_.fit(self.dataX_, self.dataY_)
             else:
                 self.estimators_ = sm.GLM(endog=self.dataY_, exog=self.dataX_, family=sm.families.Binomial())
                 self.models_ = self.estimators_.fit()
-- 
2.43.0


From a3311b2200f06e9206f544a4a18e0678e9c2016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:46 +0000
Subject: [PATCH 43/63] fix: REGX/REGy: uniform prevalences when every clipped
 prediction is zero

---
 quantificationlib/multiclass/regression.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index 70a7b14..c89ed84 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -234,7 +234,11 @@ class REG(six.with_metaclass(ABCMeta)):
                     prevalences[n_cls] = self.estimators_[n_cls].predict(bagX.reshape(1, -1))
 
             prevalences = np.clip(prevalences, 0, 1)
-            prevalences = prevalences / float(np.sum(prevalences))
+            if np.sum(prevalences) > 0:
+                prevalences = prevalences / float(np.sum(prevalences))
+            else:
+                # no class is predicted to appear, there is no information about the prevalences
+                prevalences = np.ones(self.n_classes_) / self.n_classes_
             return prevalences.reshape(-1)
 
 
-- 
2.43.0


From c0a60fe973ef9d8f3b9b3d02a2d61bf22bd73c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 44/63] fix: REGX: check the training data and find classes as
 every quantifier

---
 quantificationlib/multiclass/regression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index c89ed84..6d2529f 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -350,6 +350,8 @@ class REGX(WithoutClassifiers, REG):
              y : array-like, shape (n_examples, )
                  True classes
          """
+        super().fit(X, y)
+
         if self.verbose > 0:
             print('Class %s: Creating training distribution...' % self.__class__.__name__, end='')
 
-- 
2.43.0


From 9dff01886344ea72fa2955f3902522d930487f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:46 +0000
Subject: [PATCH 45/63] fix: global_search: compare one-dimensional mixtures
 with a one-dimensional test distribution

---
 quantificationlib/search.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/search.py b/quantificationlib/search.py
index cbd3f46..0ad8a62 100644
--- a/quantificationlib/search.py
+++ b/quantificationlib/search.py
@@ -70,17 +70,20 @@ def global_search(distance_func, mixture_func, test_distrib, tol, mixtures, retu
     """
     losses = np.ones(101)
 
+    # the stored mixtures are one-dimensional, so it must be the distribution they are compared with
+    test_row = np.ravel(test_distrib)
+
     if mixtures is None and return_mixtures:
         mix_0 = mixture_func(prevalence=0, **kwargs)
         mixtures = np.zeros((101, len(mix_0)))
         mixtures[0, :] = np.squeeze(mix_0)
-        losses[0] = distance_func(mixtures[0, :], test_distrib)
+        losses[0] = distance_func(mixtures[0, :], test_row)
         for i in range(1, 101):
             mixtures[i, :] = np.squeeze(mixture_func(prevalence=i / 100, **kwargs))
-            losses[i] = distance_func(mixtures[i, :], test_distrib)
+            losses[i] = distance_func(mixtures[i, :], test_row)
     elif mixtures is not None:
         for i in range(0, 101):
-            losses[i] = distance_func(mixtures[i, :], test_distrib)
+            losses[i] = distance_func(mixtures[i, :], test_row)
     else:
         for i in range(0, 101):
             losses[i] = distance_func(mixture_func(prevalence=i / 100, **kwargs), test_distrib)
-- 
2.43.0


From f4cdaea4ed5f4e3876d35825e865b515b4829c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:22 +0000
Subject: [PATCH 46/63] fix: EoQ: the default bags contain every class

---
 quantificationlib/ensembles/eoq.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 9f17ba7..9469685 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -28,7 +28,8 @@ class EoQ(WithoutClassifiers):
         n_quantifiers: int, (default=100)
             Number of quantifiers in the ensemble
 
-        bag_generator : BagGenerator object (default=None, each fit uses a new PriorShift_BagGenerator())
+        bag_generator : BagGenerator object (default=None, each fit uses a new PriorShift_BagGenerator with at
+            least one example of each class in every bag)
             Object to generate the bags (with a selected shift) for training each quantifier
 
         combination_strategy: str, (default='mean')
@@ -225,7 +226,10 @@ class EoQ(WithoutClassifiers):
 
         #  compute bags if needed
         if prevalences is None and indexes is None:
-            bag_generator = PriorShift_BagGenerator() if self.bag_generator is None else self.bag_generator
+            bag_generator = self.bag_generator
+            if bag_generator is None:
+                # each quantifier has to see all the classes
+                bag_generator = PriorShift_BagGenerator(min_prevalence=1 / len(y))
             if not isinstance(bag_generator, BagGenerator):
                 raise ValueError("Invalid bag generaror object")
 
-- 
2.43.0


From b6ea0df8992d1edb78311f5e97b8108ba292f941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:25 +0000
Subject: [PATCH 47/63] fix: solve_hd: well-conditioned Hellinger problems

---
 quantificationlib/optimization.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index 90093aa..4add06b 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -114,20 +114,23 @@ def solve_hd(train_distrib, test_distrib, n_classes, problem=None, solver='ECOS'
         prevalences : array, shape=(n_classes, )
             Vector containing the predicted prevalence for each class
     """
+    # bins without training examples contribute nothing but make the problem badly conditioned
+    bins = np.sum(train_distrib, axis=1) > 0
+    root_test = np.sqrt(np.ravel(test_distrib)[bins])
     if problem is None:
         prevalences = cvxpy.Variable(n_classes, nonneg=True)
-        test_d = cvxpy.Parameter(len(test_distrib), nonneg=True)
-        s = cvxpy.multiply(test_d, train_distrib @ prevalences)
-        test_d.value = np.ravel(test_distrib)
-        objective = cvxpy.Minimize(1 - cvxpy.sum(cvxpy.sqrt(s)))
+        test_d = cvxpy.Parameter(len(root_test), nonneg=True)
+        s = cvxpy.multiply(test_d, cvxpy.sqrt(train_distrib[bins] @ prevalences))
+        test_d.value = root_test
+        objective = cvxpy.Minimize(1 - cvxpy.sum(s))
         contraints = [cvxpy.sum(prevalences) == 1]
         problem = cvxpy.Problem(objective, contraints)
-        problem.solve(solver=solver, feastol=1e6)
+        problem.solve(solver=solver)
 
         return problem, np.array(prevalences[0:n_classes].value).squeeze()
     else:
-        problem.parameters()[0].value = np.ravel(test_distrib)
-        problem.solve(warm_start=True, solver=solver, feastol=1e6)
+        problem.parameters()[0].value = root_test
+        problem.solve(warm_start=True, solver=solver)
 
         return problem, list(problem.solution.primal_vars.values())[0]
 
-- 
2.43.0


From 0c5930bb2b688fb5f3d1408ec063569d38891a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:54 +0000
Subject: [PATCH 48/63] fix: CovariateShift_BagGenerator makes 1000 bags by
 default, as documented

---
 quantificationlib/bag_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index 3cbaf7d..3ffbe98 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -332,7 +332,7 @@ class CovariateShift_BagGenerator(BagGenerator):
             i-th column contains the indexes of the examples for i-th bag
     """
 
-    def __init__(self, n_bags=1001, bag_size=None, random_state=2032, verbose=0):
+    def __init__(self, n_bags=1000, bag_size=None, random_state=2032, verbose=0):
 
         # attributes
         self.n_bags = n_bags
-- 
2.43.0


From f20618a0bbacba26061c80c52f6595e8666be256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:54 +0000
Subject: [PATCH 49/63] fix: docstrings state the default settings the
 constructors have

---
 quantificationlib/estimators/cross_validation.py | 2 +-
 quantificationlib/multiclass/df.py               | 4 ++--
 quantificationlib/multiclass/regression.py       | 4 ++--
 quantificationlib/ordinal/pdf.py                 | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/quantificationlib/estimators/cross_validation.py b/quantificationlib/estimators/cross_validation.py
index 9c32376..b22c714 100644
--- a/quantificationlib/estimators/cross_validation.py
+++ b/quantificationlib/estimators/cross_validation.py
@@ -40,7 +40,7 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
         cv : int, cross-validation generator or an iterable, optional
             Determines the cross-validation splitting strategy. Possible inputs for cv are:
 
-            - None, to use the default 3-fold cross validation,
+            - None, to use the default 5-fold cross validation,
             - integer, to specify the number of folds in a `(Stratified)KFold`,
             - :term:`CV splitter`,
             - An iterable yielding (train, test) splits as arrays of indices.
diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index c269327..e3262a7 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -65,7 +65,7 @@ class DFy(UsingClassifiers):
         n_bins : int  (default=8)
             Number of bins to compute the CDFs/PDFs
 
-        bin_strategy : str (default='norm')
+        bin_strategy : str (default='equal_width')
             Method to compute the boundaries of the bins:
                 - 'equal_width': bins of equal length (it could be affected by outliers)
                 - 'equal_count': bins of equal counts (considering the examples of all classes)
@@ -415,7 +415,7 @@ class DFX(WithoutClassifiers):
         n_bins : int
             Number of bins to compute the PDFs
 
-        bin_strategy : str (default='norm')
+        bin_strategy : str (default='equal_width')
             Method to compute the boundaries of the bins:
                 - 'equal_width': bins of equal length (it could be affected by outliers)
                 - 'equal_count': bins of equal counts (considering the examples of all classes)
diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index 6d2529f..65f1682 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -30,7 +30,7 @@ class REG(six.with_metaclass(ABCMeta)):
         n_bins : int (default=8)
             Number of bins to compute the PDF of each distribution
 
-        bin_strategy : str (default='normal')
+        bin_strategy : str (default='equal_width')
             Method to compute the boundaries of the bins:
                 - 'equal_width': bins of equal length (it could be affected by outliers)
                 - 'equal_count': bins of equal counts (considering the examples of all classes)
@@ -430,7 +430,7 @@ class REGy(UsingClassifiers, REG):
         n_bins : int (default=8)
             Number of bins to compute the PDF of each distribution
 
-        bin_strategy : str (default='normal')
+        bin_strategy : str (default='equal_width')
             Method to compute the boundaries of the bins
                 - 'equal_width': bins of equal length (it could be affected by outliers)
                 - 'equal_count': bins of equal counts (considering the examples of all classes)
diff --git a/quantificationlib/ordinal/pdf.py b/quantificationlib/ordinal/pdf.py
index 1e53927..6826879 100644
--- a/quantificationlib/ordinal/pdf.py
+++ b/quantificationlib/ordinal/pdf.py
@@ -49,7 +49,7 @@ class PDFOrdinaly(UsingClassifiers):
         n_bins : int
             Number of bins to compute the PDFs
 
-        distance : str, representing the distance function (default='HD')
+        distance : str, representing the distance function (default='L2')
             It is the name of the distance used to compute the difference between the mixture of the training
             distribution and the testing distribution
 
-- 
2.43.0


From af2eda74d320f3784015e2315be0d3a4cb9db388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:19 +0000
Subject: [PATCH 50/63] fix: predictions given as float class labels are not
 read as binary probabilities

---
 quantificationlib/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/base.py b/quantificationlib/base.py
index 281321b..4e54681 100644
--- a/quantificationlib/base.py
+++ b/quantificationlib/base.py
@@ -332,7 +332,8 @@ class UsingClassifiers(BaseQuantifier):
         if preds.ndim == 1 or preds.shape[1] == 1:
             #  binary problem
             preds_mod = np.copy(preds.reshape(-1))
-            if isinstance(preds_mod[0], (float, np.floating)):
+            are_labels = len(labels) > 2 or (labels.dtype.kind == 'f' and np.all(np.isin(preds_mod, labels)))
+            if isinstance(preds_mod[0], (float, np.floating)) and not are_labels:
                 # it contains probs
                 return labels.take((preds_mod >= 0.5).astype(int), axis=0)
             else:
-- 
2.43.0


From e7c6c4b8a4b4aac77c4dbe6515ba90fa723d604d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:20 +0000
Subject: [PATCH 51/63] fix: copies of a quantifier that has already predicted
 can predict

---
 quantificationlib/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/base.py b/quantificationlib/base.py
index 4e54681..d8a675d 100644
--- a/quantificationlib/base.py
+++ b/quantificationlib/base.py
@@ -21,7 +21,12 @@ from sklearn.utils import check_X_y, check_array
 class BaseQuantifier(six.with_metaclass(ABCMeta, BaseEstimator)):
     """ Base class for binary, multiclass and ordinal quantifiers
     """
-    pass
+    def __getstate__(self):
+        # the solver problem is just a cache, and a copy of it is not usable: copies must build their own
+        state = dict(super().__getstate__())
+        if 'problem_' in state:
+            state['problem_'] = None
+        return state
 
 
 class WithoutClassifiers(BaseQuantifier):
-- 
2.43.0


From 50a97f0d8a0451cbabb8a2f869d08e1ab2a39293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:33 +0000
Subject: [PATCH 52/63] fix: EM and EDX keep their settings under the names of
 their parameters

---
 quantificationlib/multiclass/em.py     | 12 ++++++------
 quantificationlib/multiclass/energy.py |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/quantificationlib/multiclass/em.py b/quantificationlib/multiclass/em.py
index 4c04940..3c872e7 100644
--- a/quantificationlib/multiclass/em.py
+++ b/quantificationlib/multiclass/em.py
@@ -78,11 +78,11 @@ class EM(UsingClassifiers):
         verbose : int
             The verbosity level
 
-        epsilon_: float
+        epsilon: float
             EM algorithm (its loop) stops when the mean absolute error between the prevalences of two
             consecutive iterations is lower than epsilon
 
-        max_iter_: int
+        max_iter: int
             The maximum number of iterations for the loop of the EM algorithm
 
         prevalences_train_ : ndarray, shape (n_classes, )
@@ -103,8 +103,8 @@ class EM(UsingClassifiers):
     def __init__(self, estimator_train=None, estimator_test=None, verbose=0, epsilon=1e-4, max_iter=1000):
         super(EM, self).__init__(estimator_train=estimator_train, estimator_test=estimator_test,
                                  needs_predictions_train=True, probabilistic_predictions=True, verbose=verbose)
-        self.epsilon_ = epsilon
-        self.max_iter_ = max_iter
+        self.epsilon = epsilon
+        self.max_iter = max_iter
         self.prevalences_train_ = None
 
     def fit(self, X, y, predictions_train=None):
@@ -191,7 +191,7 @@ class EM(UsingClassifiers):
         prevalences = np.copy(self.prevalences_train_)
         prevalences_prev = np.ones(n_classes)
 
-        while iterations < self.max_iter_ and (mean_absolute_error(prevalences, prevalences_prev) > self.epsilon_
+        while iterations < self.max_iter and (mean_absolute_error(prevalences, prevalences_prev) > self.epsilon
                                                or iterations < 10):
 
             nonorm_posteriors = np.multiply(self.predictions_test_, np.divide(prevalences, self.prevalences_train_))
@@ -204,7 +204,7 @@ class EM(UsingClassifiers):
             iterations = iterations + 1
 
         if self.verbose > 0:
-            if iterations < self.max_iter_:
+            if iterations < self.max_iter:
                 print('done')
             else:
                 print('done but it might have not converged, max_iter reached')
diff --git a/quantificationlib/multiclass/energy.py b/quantificationlib/multiclass/energy.py
index c8b09bb..36cf5c9 100644
--- a/quantificationlib/multiclass/energy.py
+++ b/quantificationlib/multiclass/energy.py
@@ -458,7 +458,7 @@ class EDX(WithoutClassifiers):
 
         Attributes
         ----------
-        distance_ : distance function
+        distance : distance function
             The distance fuction used for computing the distance between every pair of examples
 
         classes_ : ndarray, shape (n_classes, )
@@ -490,7 +490,7 @@ class EDX(WithoutClassifiers):
     def __init__(self, distance=euclidean_distances, verbose=0):
         super(EDX, self).__init__(verbose=verbose)
         # variables to represent the distributions using the main idea of ED-based algorithms
-        self.distance_ = distance
+        self.distance = distance
         self.train_n_cls_i_ = None
         self.train_distrib_ = None
         self.K_ = None
@@ -525,7 +525,7 @@ class EDX(WithoutClassifiers):
             self.train_distrib_[cls] = X[y == cls]
             self.train_n_cls_i_[n_cls, 0] = len(self.train_distrib_[cls])
 
-        self.K_, self.G_, self.C_, self.b_ = compute_ed_param_train(self.distance_, self.train_distrib_,
+        self.K_, self.G_, self.C_, self.b_ = compute_ed_param_train(self.distance, self.train_distrib_,
                                                                     self.classes_, self.train_n_cls_i_)
         if self.verbose > 0:
             print('done')
@@ -553,7 +553,7 @@ class EDX(WithoutClassifiers):
 
         check_array(X, accept_sparse=True)
 
-        a = compute_ed_param_test(self.distance_, self.train_distrib_, X, self.K_, self.classes_,
+        a = compute_ed_param_test(self.distance, self.train_distrib_, X, self.K_, self.classes_,
                                   self.train_n_cls_i_)
 
         prevalences = solve_ed(G=self.G_, a=a, C=self.C_, b=self.b_)
-- 
2.43.0


From 8f189a9f443cccede84a25719f668527e11a493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:43 +0000
Subject: [PATCH 53/63] fix: the settings of PWK and PWKQuantifier can be read
 and changed

---
 quantificationlib/estimators/weighted_knn.py | 8 ++++++++
 quantificationlib/multiclass/knn.py          | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/quantificationlib/estimators/weighted_knn.py b/quantificationlib/estimators/weighted_knn.py
index 514cd3b..8b294eb 100644
--- a/quantificationlib/estimators/weighted_knn.py
+++ b/quantificationlib/estimators/weighted_knn.py
@@ -85,6 +85,13 @@ class PWK(BaseEstimator, ClassifierMixin):
     """
     def __init__(self, n_neighbors=10, algorithm='auto', leaf_size=30, p=2, metric='minkowski', metric_params=None,
                  n_jobs=None):
+        self.n_neighbors = n_neighbors
+        self.algorithm = algorithm
+        self.leaf_size = leaf_size
+        self.p = p
+        self.metric = metric
+        self.metric_params = metric_params
+        self.n_jobs = n_jobs
         self.knn_ = KNeighborsClassifier(n_neighbors=n_neighbors, algorithm=algorithm, leaf_size=leaf_size,
                                          metric=metric, p=p, metric_params=metric_params, n_jobs=n_jobs)
         self.classes_ = None
@@ -108,6 +115,7 @@ class PWK(BaseEstimator, ClassifierMixin):
         for n_cls, cls in enumerate(self.classes_):
             self.weights_[y == cls] = 1 - (np.sum(self.y_ == cls) / X.shape[0])
 
+        self.knn_.set_params(**self.get_params(deep=False))
         self.knn_.fit(X, y)
         return self
 
diff --git a/quantificationlib/multiclass/knn.py b/quantificationlib/multiclass/knn.py
index deea5f9..dd90124 100644
--- a/quantificationlib/multiclass/knn.py
+++ b/quantificationlib/multiclass/knn.py
@@ -74,6 +74,10 @@ class PWKQuantifier(WithoutClassifiers):
     def __init__(self, n_neighbors=10, p=2, metric='minkowski', metric_params=None, verbose=0):
         super(PWKQuantifier, self).__init__(verbose=verbose)
         #  Attributes
+        self.n_neighbors = n_neighbors
+        self.p = p
+        self.metric = metric
+        self.metric_params = metric_params
         self.knn_estimator_ = PWK(n_neighbors=n_neighbors, p=p, metric=metric, metric_params=metric_params)
         self.cm_ = None
         self.problem_ = None
@@ -94,6 +98,8 @@ class PWKQuantifier(WithoutClassifiers):
         """
         super().fit(X, y)
 
+        self.knn_estimator_.set_params(n_neighbors=self.n_neighbors, p=self.p, metric=self.metric,
+                                       metric_params=self.metric_params)
         self.knn_estimator_.fit(X, y)
         predictions_train = self.knn_estimator_.predict(X)
 
-- 
2.43.0


From 0e750be04a064b5f370efc167540c37b575fff98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:55 +0000
Subject: [PATCH 54/63] fix: OrdinalQuantificationTree can be cloned

---
 quantificationlib/ordinal/trees.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/ordinal/trees.py b/quantificationlib/ordinal/trees.py
index a3afdf9..5129580 100644
--- a/quantificationlib/ordinal/trees.py
+++ b/quantificationlib/ordinal/trees.py
@@ -35,5 +35,6 @@ class OrdinalQuantificationTree(PCC):
         Association for Computational Linguistics, A, 5863.
     """
     def __init__(self, estimator_test=None, verbose=0):
-        super(OrdinalQuantificationTree, self).__init__(estimator_test=FrankAndHallTreeClassifier(estimator_test),
-                                                        verbose=verbose)
+        if not isinstance(estimator_test, FrankAndHallTreeClassifier):
+            estimator_test = FrankAndHallTreeClassifier(estimator_test)
+        super(OrdinalQuantificationTree, self).__init__(estimator_test=estimator_test, verbose=verbose)
-- 
2.43.0


From fcfa23e30bda8694b4db0e2509f12611ae63ee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:00 +0000
Subject: [PATCH 55/63] fix: load a data file with a single example

---
 quantificationlib/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/data_utils.py b/quantificationlib/data_utils.py
index b7ea5bc..11241cc 100644
--- a/quantificationlib/data_utils.py
+++ b/quantificationlib/data_utils.py
@@ -20,7 +20,7 @@ def normalize(X_train, X_test):
 
 
 def load_data(dfile):
-    data = np.genfromtxt(dfile, delimiter=',')
+    data = np.atleast_2d(np.genfromtxt(dfile, delimiter=','))
 
     X = data[:, :-1]
     y = data[:, -1].astype(int)
-- 
2.43.0


From 1cbcc6d610144969dc5d187fc2255bfdc81da2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:09 +0000
Subject: [PATCH 56/63] fix: refuse labels that do not match the given
 predictions

---
 quantificationlib/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/base.py b/quantificationlib/base.py
index d8a675d..22a798d 100644
--- a/quantificationlib/base.py
+++ b/quantificationlib/base.py
@@ -261,8 +261,11 @@ class UsingClassifiers(BaseQuantifier):
             # Compute y_ext_
             if len(y) == len(self.predictions_train_):
                 self.y_ext_ = y
-            else:
+            elif len(self.predictions_train_) % len(y) == 0:
                 self.y_ext_ = np.tile(y, len(self.predictions_train_) // len(y))
+            else:
+                raise ValueError("the number of predictions of the training examples (%d) is not a multiple of the number "
+                                 "of examples (%d)" % (len(self.predictions_train_), len(y)))
 
         if self.verbose > 0:
             print('done')
-- 
2.43.0


From 7a9620b8cd7abad54a4beacee6d19a5d8c0d70ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:17 +0000
Subject: [PATCH 57/63] fix: REGX refuses bags with NaN or infinite values

---
 quantificationlib/multiclass/regression.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index 65f1682..8c997c1 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -11,6 +11,7 @@ from quantificationlib.bag_generator import PriorShift_BagGenerator
 from quantificationlib.multiclass.df import compute_bincuts
 
 from sklearn.linear_model import LinearRegression
+from sklearn.utils import check_array
 
 
 class REG(six.with_metaclass(ABCMeta)):
@@ -388,6 +389,8 @@ class REGX(WithoutClassifiers, REG):
         if self.verbose > 0:
             print('Class %s: Estimating prevalences for testing distribution...' % self.__class__.__name__, end='')
 
+        check_array(X)
+
         n_examples = X.shape[0]
         if len(X.shape) == 1:
             n_features = 1
-- 
2.43.0


From babd0cfcbdb5a8e333201ca65d1368500a436cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:25 +0000
Subject: [PATCH 58/63] fix: EoQ refuses unknown combination strategies

---
 quantificationlib/ensembles/eoq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 9469685..3bd06a7 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -462,6 +462,9 @@ class EoQ(WithoutClassifiers):
             m3 = m3 / float(np.sum(m3))
             prediction['distribution_similarity'] = m3
             prediction['all'] = (m0 + m1 + m2 + m3)/4
+        else:
+            raise ValueError("Class %s: combination strategy %s not implemented"
+                             % (self.__class__.__name__, self.combination_strategy))
 
         return prediction
 
-- 
2.43.0


From 92e48b4dc77959bbbd27fc3eb5d4d57779130fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:12 +0000
Subject: [PATCH 59/63] fix: data files of one column are not one example

---
 quantificationlib/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/data_utils.py b/quantificationlib/data_utils.py
index 11241cc..0b3529f 100644
--- a/quantificationlib/data_utils.py
+++ b/quantificationlib/data_utils.py
@@ -20,7 +20,7 @@ def normalize(X_train, X_test):
 
 
 def load_data(dfile):
-    data = np.atleast_2d(np.genfromtxt(dfile, delimiter=','))
+    data = np.genfromtxt(dfile, delimiter=',', ndmin=2)
 
     X = data[:, :-1]
     y = data[:, -1].astype(int)
-- 
2.43.0


From c4f09398d86460d4ac2162f990b91d99b0d847e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:18 +0000
Subject: [PATCH 60/63] fix: labels are taken by position

---
 quantificationlib/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/base.py b/quantificationlib/base.py
index 22a798d..dbff6b8 100644
--- a/quantificationlib/base.py
+++ b/quantificationlib/base.py
@@ -260,7 +260,7 @@ class UsingClassifiers(BaseQuantifier):
 
             # Compute y_ext_
             if len(y) == len(self.predictions_train_):
-                self.y_ext_ = y
+                self.y_ext_ = np.asarray(y)
             elif len(self.predictions_train_) % len(y) == 0:
                 self.y_ext_ = np.tile(y, len(self.predictions_train_) // len(y))
             else:
-- 
2.43.0


From e789f42f2f272ab3ae9a078db94d6c59f4e0fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:26 +0000
Subject: [PATCH 61/63] fix: PWK takes labels by position

---
 quantificationlib/estimators/weighted_knn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantificationlib/estimators/weighted_knn.py b/quantificationlib/estimators/weighted_knn.py
index 8b294eb..8c23648 100644
--- a/quantificationlib/estimators/weighted_knn.py
+++ b/quantificationlib/estimators/weighted_knn.py
@@ -109,6 +109,7 @@ class PWK(BaseEstimator, ClassifierMixin):
             y : array-like, shape (n_examples, )
                 True classes
         """
+        y = np.array(y)
         self.y_ = y
         self.classes_ = np.unique(y)
         self.weights_ = np.ones(X.shape[0])
-- 
2.43.0


From baea1b2bbe87fe45c89779caf0a6cfbd1b7dc63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:34 +0000
Subject: [PATCH 62/63] fix: EoQ takes labels by position

---
 quantificationlib/ensembles/eoq.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 3bd06a7..ff84571 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -219,6 +219,7 @@ class EoQ(WithoutClassifiers):
             raise ValueError("Class %s: quantifier must be an object of a class derived from BaseQuantifier"
                              % self.__class__.__name__)
 
+        y = np.asarray(y)
         self.classes_ = np.unique(y)
 
         if self.verbose > 0:
-- 
2.43.0


From e04cb6da098d1d73356b73031f25698197e08139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:44 +0000
Subject: [PATCH 63/63] fix: EDX, DFX and REGX accept labels in lists

---
 quantificationlib/multiclass/df.py         | 1 +
 quantificationlib/multiclass/energy.py     | 1 +
 quantificationlib/multiclass/regression.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index e3262a7..a786148 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -532,6 +532,7 @@ class DFX(WithoutClassifiers):
                 True classes
         """
         super().fit(X, y)
+        y = np.asarray(y)
 
         if self.verbose > 0:
             print('Class %s: Estimating training distribution...' % self.__class__.__name__, end='')
diff --git a/quantificationlib/multiclass/energy.py b/quantificationlib/multiclass/energy.py
index 36cf5c9..6ce34bb 100644
--- a/quantificationlib/multiclass/energy.py
+++ b/quantificationlib/multiclass/energy.py
@@ -512,6 +512,7 @@ class EDX(WithoutClassifiers):
                 True classes
         """
         super().fit(X, y)
+        y = np.asarray(y)
 
         if self.verbose > 0:
             print('Class %s: Computing average distances for training distribution...' % self.__class__.__name__,
diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index 8c997c1..a28c6b3 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -352,6 +352,7 @@ class REGX(WithoutClassifiers, REG):
                  True classes
          """
         super().fit(X, y)
+        y = np.asarray(y)
 
         if self.verbose > 0:
             print('Class %s: Creating training distribution...' % self.__class__.__name__, end='')
-- 
2.43.0

