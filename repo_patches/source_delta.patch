From 82ad90dc712127cd0300ceac3ff7b81a438420d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:40 +0000
Subject: [PATCH 01/30] fix: DFy computes bin cuts with the labels of the
 (possibly repeated) training predictions

---
 quantificationlib/multiclass/df.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index 7341aa5..f2b7fc6 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -249,7 +249,7 @@ class DFy(UsingClassifiers):
         # compute bincuts according to bin_strategy
         self.bincuts_ = np.zeros((n_descriptors, self.n_bins + 1))
         for descr in range(n_descriptors):
-            self.bincuts_[descr, :] = compute_bincuts(x=self.predictions_train_[:, descr], y=y, classes=self.classes_,
+            self.bincuts_[descr, :] = compute_bincuts(x=self.predictions_train_[:, descr], y=self.y_ext_, classes=self.classes_,
                                                       n_bins=self.n_bins, bin_strategy=self.bin_strategy,
                                                       att_range=[0, 1])
 
-- 
2.43.0


From 9705a0a58fda1c4d532ec60b3ed77c242ea4f1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 02/30] fix: bin edges cover every value when the scores are
 constant

---
 quantificationlib/multiclass/df.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index f2b7fc6..634e685 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -721,7 +721,7 @@ def compute_bincuts(x, y=None, classes=None, n_bins=8, bin_strategy='equal_width
         if std > 0:
             bincuts = [std * norm.ppf(i / n_bins) + mu for i in range(0, n_bins + 1)]
         else:
-            bincuts = np.histogram_bin_edges(x, bins=n_bins, range=[0, 0])
+            bincuts = [-np.inf] + [mu] * (n_bins - 1) + [np.inf]
     elif bin_strategy == 'normal':
         weights = np.ones((x.shape[0],))
         for n_cls, cls in enumerate(classes):
@@ -732,7 +732,7 @@ def compute_bincuts(x, y=None, classes=None, n_bins=8, bin_strategy='equal_width
         if std > 0:
             bincuts = [std * norm.ppf(i / n_bins) + mu for i in range(0, n_bins + 1)]
         else:
-            bincuts = np.histogram_bin_edges(x, bins=n_bins, range=[0, 0])
+            bincuts = [-np.inf] + [mu] * (n_bins - 1) + [np.inf]
     else:
         raise ValueError('Unknown bin strategy (possible values: ''equal_width'', ''binormal'', ''normal''')
 
-- 
2.43.0


From 8eef38948e4e4193b11052f9a98bfa76937db366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 03/30] fix: solve_hd no longer accepts infeasible solver
 states (a feasibility tolerance of 1e6 made ECOS report bounded problems as
 unbounded and return no prevalences)

---
 quantificationlib/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index c033cb0..9ddce8c 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -122,12 +122,12 @@ def solve_hd(train_distrib, test_distrib, n_classes, problem=None, solver='ECOS'
         objective = cvxpy.Minimize(1 - cvxpy.sum(cvxpy.sqrt(s)))
         contraints = [cvxpy.sum(prevalences) == 1]
         problem = cvxpy.Problem(objective, contraints)
-        problem.solve(solver=solver, feastol=1e6)
+        problem.solve(solver=solver, feastol=1e-6)
 
         return problem, np.array(prevalences[0:n_classes].value).squeeze()
     else:
         problem.parameters()[0].value = np.squeeze(test_distrib)
-        problem.solve(warm_start=True, solver=solver, feastol=1e6)
+        problem.solve(warm_start=True, solver=solver, feastol=1e-6)
 
         return problem, list(problem.solution.primal_vars.values())[0]
 
-- 
2.43.0


From 5d5e66785bb50dba2a66a1730571e42612b95c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:29 +0000
Subject: [PATCH 04/30] fix: crisp or one-column predictions given to
 label-based methods (np.float no longer exists; probabilities are converted
 to class labels)

---
 quantificationlib/base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/quantificationlib/base.py b/quantificationlib/base.py
index d297236..60196f4 100644
--- a/quantificationlib/base.py
+++ b/quantificationlib/base.py
@@ -334,12 +334,10 @@ class UsingClassifiers(BaseQuantifier):
             if preds.ndim == 1:
                 preds_mod = np.copy(preds)
             else:
-                preds_mod = np.copy(preds.squeeze())
-            if isinstance(preds_mod[0], np.float):
+                preds_mod = np.copy(preds.ravel())
+            if len(labels) == 2 and np.issubdtype(preds_mod.dtype, np.floating):
                 # it contains probs
-                preds_mod[preds_mod >= 0.5] = 1
-                preds_mod[preds_mod < 0.5] = 0
-                return preds_mod.astype(int)
+                return labels.take((preds_mod >= 0.5).astype(int), axis=0)
             else:
                 return preds_mod
         else:
-- 
2.43.0


From b3cd3e44096782fee9b810f0b79921892c87f7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:37 +0000
Subject: [PATCH 05/30] fix: equal_count bin edges when there are more than
 twice as many bins as values (index out of range, unordered edges)

---
 quantificationlib/multiclass/df.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index 634e685..6207560 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -703,7 +703,7 @@ def compute_bincuts(x, y=None, classes=None, n_bins=8, bin_strategy='equal_width
         bincuts[0] = -np.inf
         bincuts[-1] = np.inf
         for i in range(1, n_bins):
-            cutpoint = int(round(len(x) * i / n_bins))
+            cutpoint = min(max(int(round(len(x) * i / n_bins)), 1), len(x) - 1)
             bincuts[i] = (sorted_values[cutpoint - 1] + sorted_values[cutpoint]) / 2
     elif bin_strategy == 'binormal':
         # only for binary quantification
-- 
2.43.0


From a8fe8b5b8bb17a6beba76146d2fa5f0284e5b2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 06/30] fix: global_search looks around the grid minimum when
 no increasing window exists, and calls the loss flat only when it is

---
 quantificationlib/search.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/quantificationlib/search.py b/quantificationlib/search.py
index 1cb4bfd..5836088 100644
--- a/quantificationlib/search.py
+++ b/quantificationlib/search.py
@@ -98,12 +98,11 @@ def global_search(distance_func, mixture_func, test_distrib, tol, mixtures, retu
                 p_estimated = p
 
     if n_mins == 0:
-        if losses[0] == losses[100]:
+        if np.all(losses == losses[0]):
             raise ValueError("Search: there are infinite minima according to the distance function used")
-        elif losses[0] < losses[100]:
-            _, p_estimated = golden_section_search(distance_func, mixture_func, test_distrib, tol, 0.0, 0.02, **kwargs)
-        else:
-            _, p_estimated = golden_section_search(distance_func, mixture_func, test_distrib, tol, 0.98, 1.0, **kwargs)
+        i = np.argmin(losses)
+        _, p_estimated = golden_section_search(distance_func, mixture_func, test_distrib, tol,
+                                               max(i - 2, 0) / 100, min(i + 2, 100) / 100, **kwargs)
 
     if return_mixtures:
         return mixtures, p_estimated
-- 
2.43.0


From cbd72a823eb5dd9fa123deaea39070eebf7a4e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 07/30] fix: a class with zero true prevalence contributes
 nothing to the Kullback-Leibler divergence

---
 quantificationlib/metrics/binary.py     | 6 +++++-
 quantificationlib/metrics/multiclass.py | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/metrics/binary.py b/quantificationlib/metrics/binary.py
index eee791e..8020dc7 100644
--- a/quantificationlib/metrics/binary.py
+++ b/quantificationlib/metrics/binary.py
@@ -33,10 +33,14 @@ def binary_kld(p_true, p_pred, eps=1e-12):
         KLD: float
              The Kullback-Leiber divergence for binary problems
     """
-    if p_pred == 0:
+    if p_true == 0:
+        kld = 0         # 0 * log 0 = 0
+    elif p_pred == 0:
         kld = p_true * np.log2(p_true / eps)
     else:
         kld = p_true * np.log2(p_true / p_pred)
+    if p_true == 1:
+        return kld
     if p_pred == 1:
         kld = kld + (1 - p_true) * np.log2((1 - p_true) / eps)
     else:
diff --git a/quantificationlib/metrics/multiclass.py b/quantificationlib/metrics/multiclass.py
index 20ddfb9..bbe97d2 100644
--- a/quantificationlib/metrics/multiclass.py
+++ b/quantificationlib/metrics/multiclass.py
@@ -80,7 +80,8 @@ def kld(p_true, p_pred, eps=1e-12):
             The Kullback-Leiber divergence
     """
     p_true, p_pred = check_prevalences(p_true, p_pred)
-    return np.sum(p_true * np.log2(p_true / (p_pred + eps)))
+    # a class with zero true prevalence contributes nothing (0 * log 0 = 0)
+    return np.sum(p_true * np.log2(np.where(p_true > 0, p_true, 1) / (p_pred + eps)))
 
 
 def mean_absolute_error(p_true, p_pred):
-- 
2.43.0


From 8ff55c23202e15bdc58dc0032feac0a4c7504847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:47 +0000
Subject: [PATCH 08/30] fix: bag generators return bags of the given data, not
 those of an earlier call

---
 quantificationlib/bag_generator.py | 100 +++++++++++++----------------
 1 file changed, 46 insertions(+), 54 deletions(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index e5bcb22..ffe53f5 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -134,25 +134,22 @@ class PriorShift_BagGenerator(BagGenerator):
                 is not implemented or when the parameters for the selected method are incorrect
         """
 
-        if self.prevalences_ is not None and self.indexes_ is not None:
-            return self.prevalences_, self.indexes_
-
-        if isinstance(self.random_state, (numbers.Integral, np.integer)):
-            self.random_state = np.random.RandomState(self.random_state)
-        if not isinstance(self.random_state, np.random.RandomState):
+        random_state = self.random_state
+        if isinstance(random_state, (numbers.Integral, np.integer)):
+            random_state = np.random.RandomState(random_state)
+        if not isinstance(random_state, np.random.RandomState):
             raise ValueError('Invalid random generaror object')
 
-        if self.bag_size is None:
-            self.bag_size = len(y)
+        bag_size = len(y) if self.bag_size is None else self.bag_size
 
         if self.method == 'Uniform':
-            return self._generate_uniform(X, y)
+            return self._generate_uniform(X, y, random_state, bag_size)
         elif self.method == 'Dirichlet':
-            return self._generate_dirichlet(X, y)
+            return self._generate_dirichlet(X, y, random_state, bag_size)
         else:
             raise ValueError('Invalid method for random generaror object')
 
-    def _generate_uniform(self, X, y):
+    def _generate_uniform(self, X, y, random_state, bag_size):
         """ Create bags of examples simulating prior probability shift using an uniform distribution of the prevalences
 
             The implemented algorithm was proposed by Kramer, see references
@@ -207,54 +204,54 @@ class PriorShift_BagGenerator(BagGenerator):
         if self.min_prevalence is None:
             min_nexamples = None
             low = 0
-            high = self.bag_size
+            high = bag_size
         elif n_classes == 2:
             #  binary problem
             if np.isscalar(self.min_prevalence):
                 # same prevalence
                 min_nexamples = None
-                low = round(self.bag_size * self.min_prevalence)
-                high = int(self.bag_size * (1 - self.min_prevalence))
+                low = round(bag_size * self.min_prevalence)
+                high = int(bag_size * (1 - self.min_prevalence))
             else:
                 # different prevalence
                 min_nexamples = None
-                low = round(self.bag_size * self.min_prevalence[0])
-                high = int(self.bag_size * (1 - self.min_prevalence[1]))
+                low = round(bag_size * self.min_prevalence[0])
+                high = int(bag_size * (1 - self.min_prevalence[1]))
         elif np.isscalar(self.min_prevalence):
             #  multiclass problem, min prevalence equal to all classes
-            min_nexamples = np.round(np.ones(n_classes) * self.min_prevalence * self.bag_size)
+            min_nexamples = np.round(np.ones(n_classes) * self.min_prevalence * bag_size)
             low = min_nexamples[0]
-            high = self.bag_size - min_nexamples[-1]
+            high = bag_size - min_nexamples[-1]
         else:
             #  multiclass problem, different prevalences
-            min_nexamples = np.round(self.min_prevalence * self.bag_size)
+            min_nexamples = np.round(self.min_prevalence * bag_size)
             low = min_nexamples[0]
-            high = self.bag_size - min_nexamples[-1]
+            high = bag_size - min_nexamples[-1]
 
         self.prevalences_ = np.zeros((n_classes, self.n_bags))
-        self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
+        self.indexes_ = np.zeros((bag_size, self.n_bags), dtype=np.uint32)
         n_bag = 0
         while n_bag < self.n_bags:
             # Kraemer method:
-            ps = self.random_state.randint(low, high, n_classes - 1)
-            ps = np.append(ps, [0, self.bag_size])
+            ps = random_state.randint(low, high, n_classes - 1)
+            ps = np.append(ps, [0, bag_size])
             ps = np.diff(np.sort(ps))  # number of samples for each class
 
             #  checking if the combination is correct, only needed in multiclass problems. Only the values for the
             #  classes in the middle must be checked
             if min_nexamples is None or (ps[1:-1] >= min_nexamples[1:-1]).all():
-                self.prevalences_[:, n_bag] = ps / self.bag_size  # to obtain prevalences
+                self.prevalences_[:, n_bag] = ps / bag_size  # to obtain prevalences
                 position = 0
                 for cls, n_examples in zip(classes, np.array(ps)):
                     if n_examples != 0:
-                        indexes = self.random_state.choice(np.where(y == cls)[0], n_examples, replace=True)
+                        indexes = random_state.choice(np.where(y == cls)[0], n_examples, replace=True)
                         self.indexes_[position:position+len(indexes), n_bag] = indexes
                         position = position + len(indexes)
 
                 n_bag = n_bag + 1
         return self.prevalences_, self.indexes_
 
-    def _generate_dirichlet(self, X, y):
+    def _generate_dirichlet(self, X, y, random_state, bag_size):
         """ Create bags of examples simulating prior probability shift using the Dirichlet distribution
 
             Parameters
@@ -280,32 +277,33 @@ class PriorShift_BagGenerator(BagGenerator):
         n_classes = len(classes)
 
         # checking if alphas  has correct values
-        if isinstance(self.alphas, list):
-            self.alphas = np.array(self.alphas)
-        if self.alphas is not None:
-            if np.isscalar(self.alphas):
-                self.alphas = np.ones(n_classes) * self.alphas
+        alphas = self.alphas
+        if isinstance(alphas, list):
+            alphas = np.array(alphas)
+        if alphas is not None:
+            if np.isscalar(alphas):
+                alphas = np.ones(n_classes) * alphas
             else:
-                if len(self.alphas) != n_classes:
+                if len(alphas) != n_classes:
                     raise ValueError('the size of alphas parameter does not match the number of classes')
 
-        self.prevalences_ = np.random.dirichlet(self.alphas, size=self.n_bags).transpose()
-        self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
+        self.prevalences_ = np.random.dirichlet(alphas, size=self.n_bags).transpose()
+        self.indexes_ = np.zeros((bag_size, self.n_bags), dtype=np.uint32)
 
         for n_bag in range(self.n_bags):
             position = 0
             for n_cls, cls in enumerate(classes):
                 #  compute the number of examples given the prevalence
                 if n_cls < n_classes - 1:
-                    n_examples = min(self.bag_size - position,
-                                     int(np.round(self.prevalences_[n_cls, n_bag] * self.bag_size)))
+                    n_examples = min(bag_size - position,
+                                     int(np.round(self.prevalences_[n_cls, n_bag] * bag_size)))
                 else:
-                    n_examples = self.bag_size - position
+                    n_examples = bag_size - position
                 #  adjust the true prevalence given the number of examples
-                self.prevalences_[n_cls, n_bag] = n_examples / self.bag_size
+                self.prevalences_[n_cls, n_bag] = n_examples / bag_size
 
                 if n_examples != 0:
-                    indexes = self.random_state.choice(np.where(y == cls)[0], n_examples, replace=True)
+                    indexes = random_state.choice(np.where(y == cls)[0], n_examples, replace=True)
                     self.indexes_[position:position + len(indexes), n_bag] = indexes
                     position = position + len(indexes)
 
@@ -394,25 +392,22 @@ class CovariateShift_BagGenerator(BagGenerator):
                 When random_state is neither a int nor a RandomState object
         """
 
-        if self.prevalences_ is not None and self.indexes_ is not None:
-            return self.prevalences_, self.indexes_
-
-        if isinstance(self.random_state, (numbers.Integral, np.integer)):
-            self.random_state = np.random.RandomState(self.random_state)
-        if not isinstance(self.random_state, np.random.RandomState):
+        random_state = self.random_state
+        if isinstance(random_state, (numbers.Integral, np.integer)):
+            random_state = np.random.RandomState(random_state)
+        if not isinstance(random_state, np.random.RandomState):
             raise ValueError('Invalid random generaror object')
 
         X, y = check_X_y(X, y)
         classes = np.unique(y)
         n_classes = len(classes)
-        if self.bag_size is None:
-            self.bag_size = len(X)
+        bag_size = len(X) if self.bag_size is None else self.bag_size
 
         self.prevalences_ = np.zeros((n_classes, self.n_bags))
-        self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
+        self.indexes_ = np.zeros((bag_size, self.n_bags), dtype=np.uint32)
 
         #  selecting the center example for each bag
-        centers = self.random_state.randint(0, len(X), self.n_bags)
+        centers = random_state.randint(0, len(X), self.n_bags)
 
         for n_bag in range(self.n_bags):
             #  compute similarity using RBF kernel using the default value for gamma 1/num_features
@@ -420,9 +415,9 @@ class CovariateShift_BagGenerator(BagGenerator):
             #  the probability to select an example for the bag is proportional to its similarity
             probs = similarity / np.sum(similarity)
 
-            self.indexes_[:, n_bag] = self.random_state.choice(range(len(X)), self.bag_size, p=probs[0, :])
+            self.indexes_[:, n_bag] = random_state.choice(range(len(X)), bag_size, p=probs[0, :])
             for n_cls, cls in enumerate(classes):
-                self.prevalences_[n_cls, n_bag] = np.sum(y[self.indexes_[:, n_bag]] == cls) / self.bag_size
+                self.prevalences_[n_cls, n_bag] = np.sum(y[self.indexes_[:, n_bag]] == cls) / bag_size
 
         return self.prevalences_, self.indexes_
 
@@ -528,9 +523,6 @@ class PriorAndCovariateShift_BagGenerator(BagGenerator):
                 When random_state is neither a int nor a RandomState object
         """
 
-        if self.prevalences_ is not None and self.indexes_ is not None:
-            return self.prevalences_, self.indexes_
-
         n_bags_prior = self.n_bags // 2
         n_bags_covariate = self.n_bags - n_bags_prior
         prior = PriorShift_BagGenerator(n_bags=n_bags_prior, bag_size=self.bag_size,
-- 
2.43.0


From 03114bd5b3fc0d62cb1ef94ce28068b99ecefa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 09/30] fix: draw the Dirichlet prevalences from random_state

---
 quantificationlib/bag_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index ffe53f5..1d96d4d 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -287,7 +287,7 @@ class PriorShift_BagGenerator(BagGenerator):
                 if len(alphas) != n_classes:
                     raise ValueError('the size of alphas parameter does not match the number of classes')
 
-        self.prevalences_ = np.random.dirichlet(alphas, size=self.n_bags).transpose()
+        self.prevalences_ = random_state.dirichlet(alphas, size=self.n_bags).transpose()
         self.indexes_ = np.zeros((bag_size, self.n_bags), dtype=np.uint32)
 
         for n_bag in range(self.n_bags):
-- 
2.43.0


From 908e6561601c137d9791b5230250a739f86c001b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 10/30] fix: accept bag_size=None in
 PriorAndCovariateShift_BagGenerator

---
 quantificationlib/bag_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index 1d96d4d..afc7131 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -535,8 +535,9 @@ class PriorAndCovariateShift_BagGenerator(BagGenerator):
 
         classes = np.unique(y)
         n_classes = len(classes)
+        bag_size = len(y) if self.bag_size is None else self.bag_size
         self.prevalences_ = np.zeros((n_classes, self.n_bags))
-        self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
+        self.indexes_ = np.zeros((bag_size, self.n_bags), dtype=np.uint32)
 
         self.prevalences_[:, 0:n_bags_prior], self.indexes_[:, 0:n_bags_prior] = prior.generate_bags(X, y)
         self.prevalences_[:, n_bags_prior:], self.indexes_[:, n_bags_prior:] = covariate.generate_bags(X, y)
-- 
2.43.0


From 8041419cdb12695ce54031ff5c53ef3a7abc4915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:44 +0000
Subject: [PATCH 11/30] fix: reject minimum prevalences that no bag can satisfy

---
 quantificationlib/bag_generator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index afc7131..7bba2b7 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -196,6 +196,9 @@ class PriorShift_BagGenerator(BagGenerator):
         classes = np.unique(y)
         n_classes = len(classes)
 
+        if np.isscalar(self.min_prevalence) and self.min_prevalence * n_classes > 1:
+            raise ValueError('The values for min_prevalence cannot sum more than 1')
+
         #  computing min number of examples for each class and low value (for the first class) and the
         #  high value (for the last class)
         #  The idea is to perform a efficient comprobation. For binary problems all random generation will be correct
@@ -228,6 +231,9 @@ class PriorShift_BagGenerator(BagGenerator):
             low = min_nexamples[0]
             high = bag_size - min_nexamples[-1]
 
+        if min_nexamples is not None and np.sum(min_nexamples) >= bag_size:
+            raise ValueError('The values for min_prevalence leave no room to generate bags of this size')
+
         self.prevalences_ = np.zeros((n_classes, self.n_bags))
         self.indexes_ = np.zeros((bag_size, self.n_bags), dtype=np.uint32)
         n_bag = 0
-- 
2.43.0


From 5467c6ff9b8d09fe4ff76246ad8dd1ca20eb6bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 12/30] fix: Frank and Hall probability of the middle classes

---
 quantificationlib/estimators/frank_and_hall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index 0d56f10..487774b 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -250,7 +250,7 @@ class FrankAndHallClassifier(BaseEstimator, ClassifierMixin):
         # of the right group of the c_i-1 estimator, and the probability of the left group of the c_i estimator
         for c_i in range(1, n_classes - 1):
             # Pr(y = c_i) = p_right_estimator_i-1 * p_left_estimator_i
-            probs_samples[:, c_i] = 1 - predictions[:, c_i - 1] * predictions[:, c_i]
+            probs_samples[:, c_i] = (1 - predictions[:, c_i - 1]) * predictions[:, c_i]
         # the probability of the last class is the probability of the right group of the last estimator
         probs_samples[:, n_classes - 1] = 1 - predictions[:, n_classes - 1 - 1]
 
-- 
2.43.0


From 581032d40f8bf7f0193ebfff10ee6e35cb80753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:14 +0000
Subject: [PATCH 13/30] fix: FrankAndHallMonotoneClassifier corrects the
 examples that need it

---
 quantificationlib/estimators/frank_and_hall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index 487774b..9a07d8c 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -535,7 +535,7 @@ class FrankAndHallMonotoneClassifier(FrankAndHallClassifier):
             Sep 2014, Nancy, France. pp.323 - 337, 2014,
         """
         ascending = np.all(probabilities[:, 1:] >= probabilities[:, :-1], axis=1)
-        samples_to_correct = np.nonzero(ascending is False)[0]
+        samples_to_correct = np.nonzero(np.logical_not(ascending))[0]
         if len(samples_to_correct) == 0:
             return probabilities
         else:
-- 
2.43.0


From 9501b55f75d52252d629d7b72f6bd7a8e4992a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 14/30] fix: Frank and Hall tree compares the estimates of each
 model with the prevalence of its left group

---
 quantificationlib/estimators/frank_and_hall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index 9a07d8c..1b3c648 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -797,7 +797,7 @@ class FrankAndHallTreeClassifier(FrankAndHallClassifier):
         for i in range(n_estimators):
             # compute the true prevalence of the left group for such estimator
             y_val_bin = self.label_binarizer_.transform(y)[:, i]
-            num_left = np.count_nonzero(y_val_bin == 0)  # left 0, right +1
+            num_left = np.count_nonzero(y_val_bin == 1)  # left 1, right 0
             p_true = num_left / float(n_samples)
             scores[i] = self.performance_measure(p_true, p_pred[i])
             if self.verbose:
-- 
2.43.0


From 05820cb733b52f36b67f7f041349b3c009567c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:55 +0000
Subject: [PATCH 15/30] fix: histograms of the training bags are proportions of
 the bag

---
 quantificationlib/multiclass/regression.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index ef72826..fe4dda4 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -142,7 +142,6 @@ class REG(six.with_metaclass(ABCMeta)):
 
         classes = np.unique(y)
         self.n_classes_ = len(classes)
-        n_examples = X.shape[0]
         if len(X.shape) == 1:
             n_features = 1
         else:
@@ -164,7 +163,7 @@ class REG(six.with_metaclass(ABCMeta)):
         for nbag in range(self.bag_generator.n_bags):
             for att in range(n_features):
                 self.dataX_[nbag, att * self.n_bins:(att + 1) * self.n_bins] = \
-                    np.histogram(X[indexes[:, nbag], att], bins=self.bincuts_[att, :])[0] / n_examples
+                    np.histogram(X[indexes[:, nbag], att], bins=self.bincuts_[att, :])[0] / len(indexes)
 
     def fit_regressor(self):
         """ This method trains the regressor model using `dataX_` and `dataY_`
-- 
2.43.0


From c7d82b123095f307add0c37f51315b5b77538705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 16/30] fix: train a copy of the regressor in binary problems
 too

---
 quantificationlib/multiclass/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index fe4dda4..f176a91 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -172,7 +172,7 @@ class REG(six.with_metaclass(ABCMeta)):
         if self.n_classes_ == 2:
             self.dataY_ = self.dataY_[:, 1]
             if self.regression_estimator is not None:
-                self.estimators_ = self.regression_estimator.fit(self.dataX_, self.dataY_)
+                self.estimators_ = deepcopy(self.regression_estimator).fit(self.dataX_, self.dataY_)
             else:
                 self.estimators_ = sm.GLM(endog=self.dataY_, exog=self.dataX_, family=sm.families.Binomial())
                 self.models_ = self.estimators_.fit()
-- 
2.43.0


From d768d3d8ed64f6861d7defda1e1a7ec695106312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:17 +0000
Subject: [PATCH 17/30] fix: reject all-zero regressed prevalences in
 multiclass problems as in binary ones

---
 quantificationlib/multiclass/regression.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index f176a91..d52815a 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -232,7 +232,10 @@ class REG(six.with_metaclass(ABCMeta)):
                     prevalences[n_cls] = self.estimators_[n_cls].predict(bagX.reshape(1, -1))
 
             prevalences = np.clip(prevalences, 0, 1)
-            prevalences = prevalences / float(np.sum(prevalences))
+            if np.sum(prevalences) > 0:
+                prevalences = prevalences / float(np.sum(prevalences))
+            else:
+                raise ValueError('predicted prevalences by object of class %s are all 0', self.__class__.__name__)
             return prevalences.reshape(-1)
 
 
-- 
2.43.0


From 75a711cd238a0d0b433f14552d403bbfe2d54ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:56 +0000
Subject: [PATCH 18/30] fix: each classifier of the ensemble is a different
 object

---
 quantificationlib/estimators/ensembles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/ensembles.py b/quantificationlib/estimators/ensembles.py
index 43b2303..697355b 100644
--- a/quantificationlib/estimators/ensembles.py
+++ b/quantificationlib/estimators/ensembles.py
@@ -16,6 +16,7 @@ from sklearn.base import BaseEstimator, ClassifierMixin
 from sklearn.utils import check_X_y
 from sklearn.exceptions import NotFittedError
 
+from copy import deepcopy
 from joblib import Parallel, delayed
 
 
@@ -109,7 +110,7 @@ class EnsembleOfClassifiers(BaseEstimator, ClassifierMixin):
 
             # In cases where individual estimators are very fast to train, setting n_jobs > 1 can result in slower
             # performance due to the overhead of spawning threads.  See joblib issue #112.
-            self.estimators_ = Parallel(n_jobs=self.n_jobs)(delayed(self.base_estimator.fit)(X[indexes[:, n_est], :],
+            self.estimators_ = Parallel(n_jobs=self.n_jobs)(delayed(deepcopy(self.base_estimator).fit)(X[indexes[:, n_est], :],
                                                                                              y[indexes[:, n_est]])
                                                             for n_est in range(self.n_estimators_))
 
-- 
2.43.0


From f4a82331071b9f9786d3592d2724369589782050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:11 +0000
Subject: [PATCH 19/30] fix: EoQ: accumulate the one-dimensional histograms
 with distribution_function='CDF'

---
 quantificationlib/ensembles/eoq.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 537bb09..ef2f68f 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -259,7 +259,7 @@ class EoQ(WithoutClassifiers):
                         np.histogram(X[:, att], bins=self.bincuts_[att, :])[0] / len(X)
                     if self.distribution_function == 'CDF':
                         self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins] = \
-                            np.cumsum(self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins], axis=1)
+                            np.cumsum(self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins])
 
         elif isinstance(self.base_quantifier, UsingClassifiers):
 
@@ -388,7 +388,7 @@ class EoQ(WithoutClassifiers):
                     # compute cdf if necessary
                     if self.distribution_function == 'CDF':
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                            np.cumsum(self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins], axis=1)
+                            np.cumsum(self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins])
 
         else:
             raise ValueError("Base quantifiers of class %s not implemented in EoQ"
@@ -466,8 +466,8 @@ class EoQ(WithoutClassifiers):
                     test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins] = \
                         np.histogram(X[:, att], bins=self.bincuts_[att, :])[0] / len(X)
                     if self.distribution_function == 'CDF':
-                        test_distributions[0, att * self.n_bins:(att + 1) * self.n_bins] = \
-                            np.cumsum(test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins], axis=1)
+                        test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins] = \
+                            np.cumsum(test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins])
             elif isinstance(self.base_quantifier, UsingClassifiers):
 
                 if predictions_test.ndim == 1:
@@ -493,7 +493,7 @@ class EoQ(WithoutClassifiers):
                     # compute cdf if necessary
                     if self.distribution_function == 'CDF':
                         test_distribution[0, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                            np.cumsum(test_distribution[0, descr * self.n_bins:(descr + 1) * self.n_bins], axis=1)
+                            np.cumsum(test_distribution[0, descr * self.n_bins:(descr + 1) * self.n_bins])
             else:
                 raise ValueError("Base quantifiers of class %s not implemented in EoQ"
                                  % self.base_quantifier.__class__.__name__)
-- 
2.43.0


From bea26e9e023cfb14e05babe111333f0219e6e84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 20/30] fix: EoQ: size the bin cuts by n_bins

---
 quantificationlib/ensembles/eoq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index ef2f68f..d87c7d8 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -241,7 +241,7 @@ class EoQ(WithoutClassifiers):
             if self.verbose > 0:
                 print('Class %s: Training quantifiers...' % self.__class__.__name__, end='')
 
-            self.bincuts_ = np.zeros((X.shape[1], 100 + 1))
+            self.bincuts_ = np.zeros((X.shape[1], self.n_bins + 1))
             for att in range(X.shape[1]):
                 self.bincuts_[att, :] = compute_bincuts(x=X[:, att], y=None, classes=self.classes_,
                                                         n_bins=self.n_bins, bin_strategy='equal_width')
-- 
2.43.0


From 004540418c54f35659ac0d10676efa51ca6e94b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:53 +0000
Subject: [PATCH 21/30] fix: EoQ: describe each training bag by its own
 examples

---
 quantificationlib/ensembles/eoq.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index d87c7d8..7223425 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -256,7 +256,8 @@ class EoQ(WithoutClassifiers):
             for i in range(self.n_quantifiers):
                 for att in range(X.shape[1]):
                     self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins] = \
-                        np.histogram(X[:, att], bins=self.bincuts_[att, :])[0] / len(X)
+                        np.histogram(X[self.indexes_[:, i], att],
+                                     bins=self.bincuts_[att, :])[0] / len(self.indexes_)
                     if self.distribution_function == 'CDF':
                         self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins] = \
                             np.cumsum(self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins])
@@ -379,12 +380,12 @@ class EoQ(WithoutClassifiers):
                 for descr in range(n_descriptors):
                     if predictions_train.ndim == 2:
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                             np.histogram(predictions_train[:, descr],
-                                          bins=self.bincuts_[descr, :])[0] / len(predictions_train)
+                             np.histogram(predictions_train[indexes_ext[:, i], descr],
+                                          bins=self.bincuts_[descr, :])[0] / len(indexes_ext)
                     elif predictions_train.ndim == 3:
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                            np.histogram(predictions_train.mean(axis=1)[:, descr],
-                                         bins=self.bincuts_[descr, :])[0] / len(predictions_train)
+                            np.histogram(predictions_train.mean(axis=1)[indexes_ext[:, i], descr],
+                                         bins=self.bincuts_[descr, :])[0] / len(indexes_ext)
                     # compute cdf if necessary
                     if self.distribution_function == 'CDF':
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-- 
2.43.0


From 08cdb6a79b9da9017f2fb4acc45922c05ddb5d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 22/30] fix: EoQ: apply bin_strategy with WithoutClassifiers
 quantifiers

---
 quantificationlib/ensembles/eoq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 7223425..d3c3f87 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -243,8 +243,8 @@ class EoQ(WithoutClassifiers):
 
             self.bincuts_ = np.zeros((X.shape[1], self.n_bins + 1))
             for att in range(X.shape[1]):
-                self.bincuts_[att, :] = compute_bincuts(x=X[:, att], y=None, classes=self.classes_,
-                                                        n_bins=self.n_bins, bin_strategy='equal_width')
+                self.bincuts_[att, :] = compute_bincuts(x=X[:, att], y=y, classes=self.classes_,
+                                                        n_bins=self.n_bins, bin_strategy=self.bin_strategy)
 
             self.quantifiers_ = np.zeros(self.n_quantifiers, dtype=object)
             for i in range(self.n_quantifiers):
-- 
2.43.0


From f762564d2e41a9a23fc77694e974c889c82afb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 23/30] fix: EoQ: do not alter the bag generator received

---
 quantificationlib/ensembles/eoq.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index d3c3f87..142e7a3 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from copy import deepcopy
+from copy import copy, deepcopy
 
 from sklearn.utils import check_X_y
 from sklearn.exceptions import NotFittedError
@@ -229,8 +229,10 @@ class EoQ(WithoutClassifiers):
             if not isinstance(self.bag_generator, BagGenerator):
                 raise ValueError("Invalid bag generaror object")
 
-            self.bag_generator.n_bags = self.n_quantifiers
-            self.prevalences_, self.indexes_ = self.bag_generator.generate_bags(X, y)
+            #  the generator received is not altered: its number of bags is set by the ensemble
+            bag_generator = copy(self.bag_generator)
+            bag_generator.n_bags = self.n_quantifiers
+            self.prevalences_, self.indexes_ = bag_generator.generate_bags(X, y)
         else:
             self.prevalences_ = prevalences
             self.indexes_ = indexes
-- 
2.43.0


From 2f2ff090c2befa3bb68cc3bea29acdd8c8cd1616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:59 +0000
Subject: [PATCH 24/30] fix: EoQ: give each member the labels of its own
 classifier

---
 quantificationlib/ensembles/eoq.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 142e7a3..aa0a225 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -266,6 +266,9 @@ class EoQ(WithoutClassifiers):
 
         elif isinstance(self.base_quantifier, UsingClassifiers):
 
+            #  True when the i-th column of the predictions contains the labels given by the i-th classifier
+            crisp_by_member = False
+
             if predictions_train is None:
 
                 if self.ensemble_estimator_train is None:
@@ -301,6 +304,7 @@ class EoQ(WithoutClassifiers):
                     predictions_train = self.ensemble_estimator_train.predict_proba(X)
                 else:
                     predictions_train = self.ensemble_estimator_train.predict(X)
+                    crisp_by_member = isinstance(self.ensemble_estimator_train, EnsembleOfClassifiers)
 
             if self.ensemble_estimator_test is not None:
                 if self.verbose > 0:
@@ -348,7 +352,10 @@ class EoQ(WithoutClassifiers):
             self.quantifiers_ = np.zeros(self.n_quantifiers, dtype=object)
             for i in range(self.n_quantifiers):
                 self.quantifiers_[i] = deepcopy(self.base_quantifier)
-                if predictions_train.ndim == 1:
+                if crisp_by_member:
+                    self.quantifiers_[i].fit(X=None, y=y_ext[indexes_ext[:, i]],
+                                             predictions_train=predictions_train[indexes_ext[:, i], i])
+                elif predictions_train.ndim == 1:
                     self.quantifiers_[i].fit(X=None, y=y_ext[indexes_ext[:, i]],
                                              predictions_train=predictions_train[indexes_ext[:, i]])
                 elif predictions_train.ndim == 2:
@@ -367,7 +374,7 @@ class EoQ(WithoutClassifiers):
             # compute bincuts according to bin_strategy
             self.bincuts_ = np.zeros((n_descriptors, self.n_bins + 1))
             for descr in range(n_descriptors):
-                if predictions_train.ndim == 2:
+                if predictions_train.ndim == 2 and not crisp_by_member:
                     self.bincuts_[descr, :] = compute_bincuts(x=predictions_train[:, descr], y=y_ext,
                                                               classes=self.classes_,
                                                               n_bins=self.n_bins, bin_strategy=self.bin_strategy)
@@ -380,7 +387,7 @@ class EoQ(WithoutClassifiers):
             self.distributions_ = np.zeros((self.n_quantifiers, self.n_bins * n_descriptors))
             for i in range(self.n_quantifiers):
                 for descr in range(n_descriptors):
-                    if predictions_train.ndim == 2:
+                    if predictions_train.ndim == 2 and not crisp_by_member:
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
                              np.histogram(predictions_train[indexes_ext[:, i], descr],
                                           bins=self.bincuts_[descr, :])[0] / len(indexes_ext)
@@ -439,14 +446,20 @@ class EoQ(WithoutClassifiers):
 
         elif isinstance(self.base_quantifier, UsingClassifiers):
 
+            #  True when the i-th column of the predictions contains the labels given by the i-th classifier
+            crisp_by_member = False
+
             if predictions_test is None:
                 if self.base_quantifier.probabilistic_predictions:
                     predictions_test = self.ensemble_estimator_test.predict_proba(X)
                 else:
                     predictions_test = self.ensemble_estimator_test.predict(X)
+                    crisp_by_member = isinstance(self.ensemble_estimator_test, EnsembleOfClassifiers)
 
             for i in range(self.n_quantifiers):
-                if predictions_test.ndim <= 2:
+                if crisp_by_member:
+                    prevalences[i, :] = self.quantifiers_[i].predict(X=None, predictions_test=predictions_test[:, i])
+                elif predictions_test.ndim <= 2:
                     prevalences[i, :] = self.quantifiers_[i].predict(X=None, predictions_test=predictions_test)
                 else:
                     #  3 dimensions, an EnsembleOfClassifiers is used
@@ -473,7 +486,7 @@ class EoQ(WithoutClassifiers):
                             np.cumsum(test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins])
             elif isinstance(self.base_quantifier, UsingClassifiers):
 
-                if predictions_test.ndim == 1:
+                if predictions_test.ndim == 1 or crisp_by_member:
                     raise ValueError("Class %s: distribution_similarity not implemented with quantifiers that use "
                                      "crisp preditions, used prevalence_similarity instead", self.__class__.__name__)
 
-- 
2.43.0


From 7ca3b1b4749b7e88b757a1469bb801ad079c43c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 25/30] fix: EnsembleOfClassifiers: place the probabilities in
 the columns of their classes

---
 quantificationlib/estimators/ensembles.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/estimators/ensembles.py b/quantificationlib/estimators/ensembles.py
index 697355b..549a498 100644
--- a/quantificationlib/estimators/ensembles.py
+++ b/quantificationlib/estimators/ensembles.py
@@ -171,7 +171,8 @@ class EnsembleOfClassifiers(BaseEstimator, ClassifierMixin):
         #  different than len(X)
         p_0 = self.estimators_[0].predict_proba(X)
         preds = np.zeros((len(p_0), self.n_estimators_, len(self.classes_)), dtype=p_0.dtype)
-        preds[:, 0, :] = p_0
         for i in range(self.n_estimators_):
-            preds[:, i, :] = self.estimators_[i].predict_proba(X)
+            #  some classes may not be present in the bag used to train the estimator
+            columns = np.searchsorted(self.classes_, self.estimators_[i].classes_)
+            preds[:, i, columns] = self.estimators_[i].predict_proba(X)
         return preds
-- 
2.43.0


From 489a6b367122f39da39c8b330d0b4da1d022b798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 26/30] fix: EoQ: extend bags of any size over repeated
 predictions

---
 quantificationlib/ensembles/eoq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index aa0a225..384eeeb 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -340,7 +340,7 @@ class EoQ(WithoutClassifiers):
             else:
                 n_repetitions = len(predictions_train) // len(y)
                 y_ext = np.tile(y, n_repetitions)
-                adapt_indexs = np.repeat(np.array(range(0, len(y) * n_repetitions, len(y))), len(y))
+                adapt_indexs = np.repeat(np.array(range(0, len(y) * n_repetitions, len(y))), len(self.indexes_))
                 indexes_ext = np.tile(self.indexes_, (n_repetitions, 1)) + np.transpose(np.tile(adapt_indexs,
                                                                                                 (
                                                                                                     self.n_quantifiers,
-- 
2.43.0


From d31bc46d3694908ea32ae5c31172ad82b909c3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 27/30] fix: CV_estimator: usable default for cv

---
 quantificationlib/estimators/cross_validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/estimators/cross_validation.py b/quantificationlib/estimators/cross_validation.py
index c089f9c..ea50b22 100644
--- a/quantificationlib/estimators/cross_validation.py
+++ b/quantificationlib/estimators/cross_validation.py
@@ -40,7 +40,7 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
         cv : int, cross-validation generator or an iterable, optional
             Determines the cross-validation splitting strategy. Possible inputs for cv are:
 
-            - None, to use the default 3-fold cross validation,
+            - None, to use the default 5-fold cross validation,
             - integer, to specify the number of folds in a `(Stratified)KFold`,
             - :term:`CV splitter`,
             - An iterable yielding (train, test) splits as arrays of indices.
@@ -114,7 +114,7 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             The verbosity level.
     """
 
-    def __init__(self, estimator, groups=None, cv='warn', n_jobs=None, fit_params=None, pre_dispatch='2*n_jobs',
+    def __init__(self, estimator, groups=None, cv=None, n_jobs=None, fit_params=None, pre_dispatch='2*n_jobs',
                  averaged_predictions=True, voting='hard', verbose=0):
         self.estimator = estimator
         self.groups = groups
-- 
2.43.0


From 733063ff02b9766eb5b2be4e97eb4198f67a2231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 28/30] fix: CV_estimator: predict the training set with the
 folds used in fit

---
 quantificationlib/estimators/cross_validation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/estimators/cross_validation.py b/quantificationlib/estimators/cross_validation.py
index ea50b22..bfa6f50 100644
--- a/quantificationlib/estimators/cross_validation.py
+++ b/quantificationlib/estimators/cross_validation.py
@@ -126,6 +126,7 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
         self.voting = voting
         self.verbose = verbose
         self.estimators_ = ()
+        self.test_indexes_ = ()
         self.le_ = None
         self.classes_ = None
         self.X_train_ = None
@@ -151,9 +152,13 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
         self.le_ = LabelEncoder().fit(y)
         # check cv
         self.cv = check_cv(self.cv, y, classifier=is_classifier(self.estimator))
+        # the same folds are needed to predict the training examples (the splitter could give other folds if it is
+        # called again)
+        folds = list(self.cv.split(X, y, self.groups))
+        self.test_indexes_ = [test_index for (train_index, test_index) in folds]
         # train CV and save the estimators for each fold
         cvresults = cross_validate(self.estimator, X, y,
-                                   groups=self.groups, cv=self.cv, n_jobs=self.n_jobs,
+                                   groups=self.groups, cv=folds, n_jobs=self.n_jobs,
                                    verbose=self.verbose, fit_params=self.fit_params, pre_dispatch=self.pre_dispatch,
                                    return_estimator=True)
         self.estimators_ = cvresults['estimator']
@@ -265,14 +270,14 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             # predicting over training examples, same partitions
             #  computing number of repetitions
             n_preds = 0
-            for (train_index, test_index) in self.cv.split(self.X_train_, self.y_train_):
+            for test_index in self.test_indexes_:
                 n_preds = n_preds + len(test_index)
             n_repeats = n_preds // n_examples
             #  storing predictions
             preds = np.zeros((n_repeats, n_examples, len(self.classes_)), dtype=float)
             n_rep = 0
             n_preds = 0
-            for nfold, (train_index, test_index) in enumerate(self.cv.split(self.X_train_, self.y_train_)):
+            for nfold, test_index in enumerate(self.test_indexes_):
                 X_test = X[test_index]
                 preds[n_rep, test_index, :] = self.estimators_[nfold].predict_proba(X_test)
                 n_preds = n_preds + len(test_index)
-- 
2.43.0


From 5f4a4e1ca9d4e615636bfc777d4d5131a65be6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 29/30] fix: CV_estimator: place the probabilities in the
 columns of their classes

---
 quantificationlib/estimators/cross_validation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/estimators/cross_validation.py b/quantificationlib/estimators/cross_validation.py
index bfa6f50..e18060c 100644
--- a/quantificationlib/estimators/cross_validation.py
+++ b/quantificationlib/estimators/cross_validation.py
@@ -279,7 +279,9 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             n_preds = 0
             for nfold, test_index in enumerate(self.test_indexes_):
                 X_test = X[test_index]
-                preds[n_rep, test_index, :] = self.estimators_[nfold].predict_proba(X_test)
+                #  some classes may not be present in the training examples of the fold
+                columns = np.searchsorted(self.classes_, self.estimators_[nfold].classes_)
+                preds[n_rep][np.ix_(test_index, columns)] = self.estimators_[nfold].predict_proba(X_test)
                 n_preds = n_preds + len(test_index)
                 if n_preds == n_examples:
                     n_rep += 1
@@ -288,6 +290,6 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             #   it is a test sample, predicting with each estimator
             preds = np.zeros((len(self.estimators_), n_examples, len(self.classes_)), dtype=float)
             for n_est, est in enumerate(self.estimators_):
-                preds[n_est, :, :] = est.predict_proba(X)
+                preds[n_est, :, np.searchsorted(self.classes_, est.classes_)] = est.predict_proba(X).T
 
         return preds
-- 
2.43.0


From aa41675e54b72654c9739758b94897f9f6dc9ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:58 +0000
Subject: [PATCH 30/30] fix: dpofa: factorise integer matrices in floating
 point

---
 quantificationlib/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index 9ddce8c..80cb656 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -322,7 +322,7 @@ def dpofa(m):
             The strict lower triangle is unaltered (it is equal to the strict lower triangle of matrix m), so it
             could be different from 0.
    """
-    r = np.array(m, copy=True)
+    r = np.array(m, dtype=float, copy=True)
     n = len(r)
     for k in range(n):
         s = 0.0
-- 
2.43.0

