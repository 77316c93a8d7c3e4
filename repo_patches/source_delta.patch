From e4dfd66273df04edc9235430fd753539a63f8496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 01/62] fix: Kullback-Leibler divergence was NaN when a true
 prevalence is 0

---
 quantificationlib/metrics/binary.py     | 14 ++++++--------
 quantificationlib/metrics/multiclass.py |  4 +++-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/quantificationlib/metrics/binary.py b/quantificationlib/metrics/binary.py
index eee791e..2184c77 100644
--- a/quantificationlib/metrics/binary.py
+++ b/quantificationlib/metrics/binary.py
@@ -33,14 +33,12 @@ def binary_kld(p_true, p_pred, eps=1e-12):
         KLD: float
              The Kullback-Leiber divergence for binary problems
     """
-    if p_pred == 0:
-        kld = p_true * np.log2(p_true / eps)
-    else:
-        kld = p_true * np.log2(p_true / p_pred)
-    if p_pred == 1:
-        kld = kld + (1 - p_true) * np.log2((1 - p_true) / eps)
-    else:
-        kld = kld + (1 - p_true) * np.log2((1 - p_true) / (1 - p_pred))
+    # a term is 0 when its true prevalence is 0
+    kld = 0.0
+    if p_true > 0:
+        kld = kld + p_true * np.log2(p_true / (eps if p_pred == 0 else p_pred))
+    if p_true < 1:
+        kld = kld + (1 - p_true) * np.log2((1 - p_true) / (eps if p_pred == 1 else 1 - p_pred))
     return kld
 
 
diff --git a/quantificationlib/metrics/multiclass.py b/quantificationlib/metrics/multiclass.py
index 20ddfb9..86ce249 100644
--- a/quantificationlib/metrics/multiclass.py
+++ b/quantificationlib/metrics/multiclass.py
@@ -11,6 +11,7 @@ Score functions and loss functions for multiclass quantification problems
 
 import numpy as np
 import scipy
+import scipy.special
 
 from sklearn.utils.validation import check_array, check_consistent_length
 from sklearn.preprocessing import LabelEncoder
@@ -80,7 +81,8 @@ def kld(p_true, p_pred, eps=1e-12):
             The Kullback-Leiber divergence
     """
     p_true, p_pred = check_prevalences(p_true, p_pred)
-    return np.sum(p_true * np.log2(p_true / (p_pred + eps)))
+    # the terms of the classes with p_true == 0 are 0
+    return np.sum(scipy.special.xlogy(p_true, p_true / (p_pred + eps))) / np.log(2)
 
 
 def mean_absolute_error(p_true, p_pred):
-- 
2.43.0


From 465035a4c2079a7f9d7ceb1068ba63adfecf7211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 02/62] fix: Dirichlet bags ignored random_state and used the
 global generator

---
 quantificationlib/bag_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index e5bcb22..31ba59f 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -289,7 +289,7 @@ class PriorShift_BagGenerator(BagGenerator):
                 if len(self.alphas) != n_classes:
                     raise ValueError('the size of alphas parameter does not match the number of classes')
 
-        self.prevalences_ = np.random.dirichlet(self.alphas, size=self.n_bags).transpose()
+        self.prevalences_ = self.random_state.dirichlet(self.alphas, size=self.n_bags).transpose()
         self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
 
         for n_bag in range(self.n_bags):
-- 
2.43.0


From 80f77c4cb44d1e66b623261e070f5e603a537d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 03/62] fix: min_prevalence values that admit no bag caused an
 infinite loop instead of ValueError

---
 quantificationlib/bag_generator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index 31ba59f..9f43b47 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -199,6 +199,9 @@ class PriorShift_BagGenerator(BagGenerator):
         classes = np.unique(y)
         n_classes = len(classes)
 
+        if np.ndim(self.min_prevalence) > 0 and len(self.min_prevalence) != n_classes:
+            raise ValueError('the size of min_prevalence parameter does not match the number of classes')
+
         #  computing min number of examples for each class and low value (for the first class) and the
         #  high value (for the last class)
         #  The idea is to perform a efficient comprobation. For binary problems all random generation will be correct
@@ -231,6 +234,10 @@ class PriorShift_BagGenerator(BagGenerator):
             low = min_nexamples[0]
             high = self.bag_size - min_nexamples[-1]
 
+        #  without this comprobation the loop below may never end
+        if low >= high or (min_nexamples is not None and np.sum(min_nexamples) >= self.bag_size):
+            raise ValueError('The values for min_prevalence are too large to generate bags of the selected size')
+
         self.prevalences_ = np.zeros((n_classes, self.n_bags))
         self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
         n_bag = 0
-- 
2.43.0


From f0f93a878cc897183bd2f8839b310a6c7be5bda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 04/62] fix: PriorAndCovariateShift_BagGenerator failed with
 its default bag_size

---
 quantificationlib/bag_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index 9f43b47..ab5feca 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -538,6 +538,9 @@ class PriorAndCovariateShift_BagGenerator(BagGenerator):
         if self.prevalences_ is not None and self.indexes_ is not None:
             return self.prevalences_, self.indexes_
 
+        if self.bag_size is None:
+            self.bag_size = len(y)
+
         n_bags_prior = self.n_bags // 2
         n_bags_covariate = self.n_bags - n_bags_prior
         prior = PriorShift_BagGenerator(n_bags=n_bags_prior, bag_size=self.bag_size,
-- 
2.43.0


From a4706f28f1ef4169c18b115c817f71e697e8d8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 05/62] fix: a failed generate_bags call left void bags that
 the next call returned

---
 quantificationlib/bag_generator.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index ab5feca..dc5207c 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -551,12 +551,11 @@ class PriorAndCovariateShift_BagGenerator(BagGenerator):
                                                 random_state=self.random_state,
                                                 verbose=self.verbose)
 
-        classes = np.unique(y)
-        n_classes = len(classes)
-        self.prevalences_ = np.zeros((n_classes, self.n_bags))
-        self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
+        #  the attributes are only set when both generators have succeeded
+        prevalences_prior, indexes_prior = prior.generate_bags(X, y)
+        prevalences_covariate, indexes_covariate = covariate.generate_bags(X, y)
 
-        self.prevalences_[:, 0:n_bags_prior], self.indexes_[:, 0:n_bags_prior] = prior.generate_bags(X, y)
-        self.prevalences_[:, n_bags_prior:], self.indexes_[:, n_bags_prior:] = covariate.generate_bags(X, y)
+        self.prevalences_ = np.hstack((prevalences_prior, prevalences_covariate))
+        self.indexes_ = np.hstack((indexes_prior, indexes_covariate))
 
         return self.prevalences_, self.indexes_
-- 
2.43.0


From c3ea429e41c09a9fe1f73ca66d36dbd1922b1d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 06/62] fix: 1-D probabilistic predictions could not be
 converted to class labels (removed np.float)

---
 quantificationlib/base.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/quantificationlib/base.py b/quantificationlib/base.py
index d297236..3b5d3f8 100644
--- a/quantificationlib/base.py
+++ b/quantificationlib/base.py
@@ -331,15 +331,10 @@ class UsingClassifiers(BaseQuantifier):
             return preds
         if preds.ndim == 1 or preds.shape[1] == 1:
             #  binary problem
-            if preds.ndim == 1:
-                preds_mod = np.copy(preds)
-            else:
-                preds_mod = np.copy(preds.squeeze())
-            if isinstance(preds_mod[0], np.float):
+            preds_mod = np.copy(preds).ravel()
+            if isinstance(preds_mod[0], (float, np.floating)):
                 # it contains probs
-                preds_mod[preds_mod >= 0.5] = 1
-                preds_mod[preds_mod < 0.5] = 0
-                return preds_mod.astype(int)
+                return labels.take((preds_mod >= 0.5).astype(int), axis=0)
             else:
                 return preds_mod
         else:
-- 
2.43.0


From bb9b7f9920a8a368e7601a74f0d25f4746d1ae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 07/62] fix: global_search missed minima next to a flat stretch
 or at the ends of [0, 1]

---
 quantificationlib/search.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/quantificationlib/search.py b/quantificationlib/search.py
index 1cb4bfd..5d757a4 100644
--- a/quantificationlib/search.py
+++ b/quantificationlib/search.py
@@ -85,26 +85,19 @@ def global_search(distance_func, mixture_func, test_distrib, tol, mixtures, retu
         for i in range(0, 101):
             losses[i] = distance_func(mixture_func(prevalence=i / 100, **kwargs), test_distrib)
 
-    n_mins = 0
-    p_estimated = 2
+    if np.min(losses) == np.max(losses):
+        raise ValueError("Search: there are infinite minima according to the distance function used")
+
+    p_estimated = None
     minimum_loss = np.inf
-    for i in range(1, 100):
-        if losses[i - 1] < losses[i] < losses[i + 1]:
-            n_mins = n_mins + 1
+    for i in range(0, 101):
+        if losses[i] <= losses[max(i - 1, 0)] and losses[i] <= losses[min(i + 1, 100)]:
             loss, p = golden_section_search(distance_func, mixture_func, test_distrib, tol,
-                                            max(i - 2, 0) / 100, min(i + 2, 100) / 100, **kwargs)
+                                            max(i - 1, 0) / 100, min(i + 1, 100) / 100, **kwargs)
             if loss < minimum_loss:
                 minimum_loss = loss
                 p_estimated = p
 
-    if n_mins == 0:
-        if losses[0] == losses[100]:
-            raise ValueError("Search: there are infinite minima according to the distance function used")
-        elif losses[0] < losses[100]:
-            _, p_estimated = golden_section_search(distance_func, mixture_func, test_distrib, tol, 0.0, 0.02, **kwargs)
-        else:
-            _, p_estimated = golden_section_search(distance_func, mixture_func, test_distrib, tol, 0.98, 1.0, **kwargs)
-
     if return_mixtures:
         return mixtures, p_estimated
     else:
-- 
2.43.0


From 8e8a37c1045a474135a32c0dc4cfa6729245150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 08/62] fix: Frank and Hall probabilities of the middle classes
 (operator precedence)

---
 quantificationlib/estimators/frank_and_hall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index 0d56f10..487774b 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -250,7 +250,7 @@ class FrankAndHallClassifier(BaseEstimator, ClassifierMixin):
         # of the right group of the c_i-1 estimator, and the probability of the left group of the c_i estimator
         for c_i in range(1, n_classes - 1):
             # Pr(y = c_i) = p_right_estimator_i-1 * p_left_estimator_i
-            probs_samples[:, c_i] = 1 - predictions[:, c_i - 1] * predictions[:, c_i]
+            probs_samples[:, c_i] = (1 - predictions[:, c_i - 1]) * predictions[:, c_i]
         # the probability of the last class is the probability of the right group of the last estimator
         probs_samples[:, n_classes - 1] = 1 - predictions[:, n_classes - 1 - 1]
 
-- 
2.43.0


From f6c58a64f9f015b8abf81dc53b7971497f8c6c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 09/62] fix: FrankAndHallMonotoneClassifier never corrected
 non-monotone probabilities

---
 quantificationlib/estimators/frank_and_hall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index 487774b..ab38188 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -535,7 +535,7 @@ class FrankAndHallMonotoneClassifier(FrankAndHallClassifier):
             Sep 2014, Nancy, France. pp.323 - 337, 2014,
         """
         ascending = np.all(probabilities[:, 1:] >= probabilities[:, :-1], axis=1)
-        samples_to_correct = np.nonzero(ascending is False)[0]
+        samples_to_correct = np.nonzero(~ascending)[0]
         if len(samples_to_correct) == 0:
             return probabilities
         else:
-- 
2.43.0


From d320009c058c6a2a1a6945e3284fdd2356ffa436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 10/62] fix: FrankAndHallTreeClassifier compared the predicted
 left prevalence with the true right one

---
 quantificationlib/estimators/frank_and_hall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index ab38188..2664d1f 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -797,7 +797,7 @@ class FrankAndHallTreeClassifier(FrankAndHallClassifier):
         for i in range(n_estimators):
             # compute the true prevalence of the left group for such estimator
             y_val_bin = self.label_binarizer_.transform(y)[:, i]
-            num_left = np.count_nonzero(y_val_bin == 0)  # left 0, right +1
+            num_left = np.count_nonzero(y_val_bin == self.label_binarizer_.pos_label)  # left +1, right 0
             p_true = num_left / float(n_samples)
             scores[i] = self.performance_measure(p_true, p_pred[i])
             if self.verbose:
-- 
2.43.0


From cfb05a9b874488280adf8dfe74d74ffbfeb3f6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 11/62] fix: FHLabelBinarizer failed with two classes and with
 labels other than 0/1

---
 quantificationlib/estimators/frank_and_hall.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index 2664d1f..af629ca 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -993,7 +993,8 @@ class FHLabelBinarizer(LabelBinarizer):
                     4ht column: (not really used)
         """
         y_bin = super().transform(y)
-        y_bin_fh = copy(y_bin)
-        for i in range(len(self.classes_)):
-            y_bin_fh[:, i] = np.sum(y_bin[:, 0:i + 1], axis=1)
-        return y_bin_fh
+        if y_bin.shape[1] == 1 and len(self.classes_) == 2:
+            # LabelBinarizer returns just one column, for the second class, in binary problems
+            y_bin = np.hstack((self.neg_label + self.pos_label - y_bin, y_bin))
+        in_left_group = np.cumsum(y_bin == self.pos_label, axis=1) > 0
+        return np.where(in_left_group, self.pos_label, self.neg_label)
-- 
2.43.0


From 981b3e1aabef5188d1c20f7f8a20d386cda8c59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 12/62] fix: CV_estimator failed with its default cv ('warn' is
 no longer a valid value)

---
 quantificationlib/estimators/cross_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/cross_validation.py b/quantificationlib/estimators/cross_validation.py
index c089f9c..3b59939 100644
--- a/quantificationlib/estimators/cross_validation.py
+++ b/quantificationlib/estimators/cross_validation.py
@@ -114,7 +114,7 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             The verbosity level.
     """
 
-    def __init__(self, estimator, groups=None, cv='warn', n_jobs=None, fit_params=None, pre_dispatch='2*n_jobs',
+    def __init__(self, estimator, groups=None, cv=None, n_jobs=None, fit_params=None, pre_dispatch='2*n_jobs',
                  averaged_predictions=True, voting='hard', verbose=0):
         self.estimator = estimator
         self.groups = groups
-- 
2.43.0


From 9aafb46a3bf842a6880d03fdc4bae903ad960a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 13/62] fix: CV_estimator predicted its training set with other
 splits when cv shuffles without a seed or uses groups

---
 quantificationlib/estimators/cross_validation.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/quantificationlib/estimators/cross_validation.py b/quantificationlib/estimators/cross_validation.py
index 3b59939..c5b506e 100644
--- a/quantificationlib/estimators/cross_validation.py
+++ b/quantificationlib/estimators/cross_validation.py
@@ -126,6 +126,7 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
         self.voting = voting
         self.verbose = verbose
         self.estimators_ = ()
+        self.splits_ = None
         self.le_ = None
         self.classes_ = None
         self.X_train_ = None
@@ -150,10 +151,12 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
         self.classes_ = np.unique(y)
         self.le_ = LabelEncoder().fit(y)
         # check cv
-        self.cv = check_cv(self.cv, y, classifier=is_classifier(self.estimator))
+        cv = check_cv(self.cv, y, classifier=is_classifier(self.estimator))
+        # the splits are computed once: the splits used to train the estimators must be the ones used to predict
+        self.splits_ = list(cv.split(X, y, self.groups))
         # train CV and save the estimators for each fold
         cvresults = cross_validate(self.estimator, X, y,
-                                   groups=self.groups, cv=self.cv, n_jobs=self.n_jobs,
+                                   groups=self.groups, cv=self.splits_, n_jobs=self.n_jobs,
                                    verbose=self.verbose, fit_params=self.fit_params, pre_dispatch=self.pre_dispatch,
                                    return_estimator=True)
         self.estimators_ = cvresults['estimator']
@@ -265,14 +268,14 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             # predicting over training examples, same partitions
             #  computing number of repetitions
             n_preds = 0
-            for (train_index, test_index) in self.cv.split(self.X_train_, self.y_train_):
+            for (train_index, test_index) in self.splits_:
                 n_preds = n_preds + len(test_index)
             n_repeats = n_preds // n_examples
             #  storing predictions
             preds = np.zeros((n_repeats, n_examples, len(self.classes_)), dtype=float)
             n_rep = 0
             n_preds = 0
-            for nfold, (train_index, test_index) in enumerate(self.cv.split(self.X_train_, self.y_train_)):
+            for nfold, (train_index, test_index) in enumerate(self.splits_):
                 X_test = X[test_index]
                 preds[n_rep, test_index, :] = self.estimators_[nfold].predict_proba(X_test)
                 n_preds = n_preds + len(test_index)
-- 
2.43.0


From fed6b212b69e82a4861533a1f043324313907710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 14/62] fix: all the models of EnsembleOfClassifiers were the
 same object, fitted with the last bag

---
 quantificationlib/estimators/ensembles.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/ensembles.py b/quantificationlib/estimators/ensembles.py
index 43b2303..780c26e 100644
--- a/quantificationlib/estimators/ensembles.py
+++ b/quantificationlib/estimators/ensembles.py
@@ -16,6 +16,8 @@ from sklearn.base import BaseEstimator, ClassifierMixin
 from sklearn.utils import check_X_y
 from sklearn.exceptions import NotFittedError
 
+from copy import deepcopy
+
 from joblib import Parallel, delayed
 
 
@@ -109,7 +111,7 @@ class EnsembleOfClassifiers(BaseEstimator, ClassifierMixin):
 
             # In cases where individual estimators are very fast to train, setting n_jobs > 1 can result in slower
             # performance due to the overhead of spawning threads.  See joblib issue #112.
-            self.estimators_ = Parallel(n_jobs=self.n_jobs)(delayed(self.base_estimator.fit)(X[indexes[:, n_est], :],
+            self.estimators_ = Parallel(n_jobs=self.n_jobs)(delayed(deepcopy(self.base_estimator).fit)(X[indexes[:, n_est], :],
                                                                                              y[indexes[:, n_est]])
                                                             for n_est in range(self.n_estimators_))
 
-- 
2.43.0


From 8cc6242cbc1088642fd571f361d7f2d26688e813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 15/62] fix: bag generators returned the bags of previous
 labels, with wrong indexes and prevalences, for other labels

---
 quantificationlib/bag_generator.py | 37 +++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index dc5207c..4ae9628 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -26,6 +26,31 @@ class BagGenerator(metaclass=ABCMeta):
     def generate_bags(self, X, y):
         raise NotImplementedError()
 
+    def _has_bags_of(self, y):
+        """ Check whether the bags already generated can be reused for labels y. It is so when they were generated
+            from the same labels and with the current values of n_bags and bag_size
+
+            Parameters
+            ----------
+            y : array-like, shape (n_examples, )
+                True classes
+
+            Returns
+            ------
+            True if the bags can be reused. Otherwise the labels are stored, because new bags must be generated
+        """
+        same_labels = self.y_ is not None and np.array_equal(self.y_, y)
+        if (same_labels and self.prevalences_ is not None and self.indexes_ is not None
+                and self.indexes_.shape == (self.bag_size, self.n_bags)):
+            return True
+        if self.y_ is not None and self.default_bag_size_ and self.bag_size == len(self.y_):
+            self.bag_size = None  # the size of the previous bags was the default one, len(y)
+        self.default_bag_size_ = self.bag_size is None
+        self.y_ = np.array(y)
+        self.prevalences_ = None
+        self.indexes_ = None
+        return False
+
 
 class PriorShift_BagGenerator(BagGenerator):
     """ Generate bags with prior probability shift
@@ -103,6 +128,8 @@ class PriorShift_BagGenerator(BagGenerator):
         #  variables to represent the bags
         self.prevalences_ = None
         self.indexes_ = None
+        self.y_ = None
+        self.default_bag_size_ = False
 
     def generate_bags(self, X, y):
         """ Create bags of examples simulating prior probability shift
@@ -134,7 +161,7 @@ class PriorShift_BagGenerator(BagGenerator):
                 is not implemented or when the parameters for the selected method are incorrect
         """
 
-        if self.prevalences_ is not None and self.indexes_ is not None:
+        if self._has_bags_of(y):
             return self.prevalences_, self.indexes_
 
         if isinstance(self.random_state, (numbers.Integral, np.integer)):
@@ -372,6 +399,8 @@ class CovariateShift_BagGenerator(BagGenerator):
         #  variables to represent the bags
         self.prevalences_ = None
         self.indexes_ = None
+        self.y_ = None
+        self.default_bag_size_ = False
 
     def generate_bags(self, X, y):
         """ Create bags of examples simulating covariate shift
@@ -401,7 +430,7 @@ class CovariateShift_BagGenerator(BagGenerator):
                 When random_state is neither a int nor a RandomState object
         """
 
-        if self.prevalences_ is not None and self.indexes_ is not None:
+        if self._has_bags_of(y):
             return self.prevalences_, self.indexes_
 
         if isinstance(self.random_state, (numbers.Integral, np.integer)):
@@ -508,6 +537,8 @@ class PriorAndCovariateShift_BagGenerator(BagGenerator):
         #  variables to represent the training bags and quantifiers
         self.prevalences_ = None
         self.indexes_ = None
+        self.y_ = None
+        self.default_bag_size_ = False
 
     def generate_bags(self, X, y):
         """ Create bags of examples simulating prior probability shift and covariate shift. It uses instances of
@@ -535,7 +566,7 @@ class PriorAndCovariateShift_BagGenerator(BagGenerator):
                 When random_state is neither a int nor a RandomState object
         """
 
-        if self.prevalences_ is not None and self.indexes_ is not None:
+        if self._has_bags_of(y):
             return self.prevalences_, self.indexes_
 
         if self.bag_size is None:
-- 
2.43.0


From 0e49bbe038881ec86039f2355f111a2e14e26b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 16/62] fix: the default bag generator of REGX, REGy and EoQ
 was one object shared by all the instances

---
 quantificationlib/ensembles/eoq.py         | 4 ++--
 quantificationlib/multiclass/regression.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 537bb09..27893ab 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -152,7 +152,7 @@ class EoQ(WithoutClassifiers):
         verbose : int
             The verbosity level
     """
-    def __init__(self, base_quantifier=None, n_quantifiers=100, bag_generator=PriorShift_BagGenerator(),
+    def __init__(self, base_quantifier=None, n_quantifiers=100, bag_generator=None,
                  combination_strategy='mean',
                  ensemble_estimator_train=None, ensemble_estimator_test=None,
                  distribution_function='PDF', n_bins=100, bin_strategy='equal_width', distance_bags='euclidean',
@@ -161,7 +161,7 @@ class EoQ(WithoutClassifiers):
         # attributes
         self.base_quantifier = base_quantifier
         self.n_quantifiers = n_quantifiers
-        self.bag_generator = bag_generator
+        self.bag_generator = PriorShift_BagGenerator() if bag_generator is None else bag_generator
         self.combination_strategy = combination_strategy
         self.ensemble_estimator_train = ensemble_estimator_train
         self.ensemble_estimator_test = ensemble_estimator_test
diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index ef72826..2d92642 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -105,10 +105,10 @@ class REG(six.with_metaclass(ABCMeta)):
         Christopher F. Baum: Stata tip 63: Modeling proportions. The Stata Journal 8.2 (2008): 299-303
     """
 
-    def __init__(self, bag_generator=PriorShift_BagGenerator(), n_bins=8, bin_strategy='equal_width',
+    def __init__(self, bag_generator=None, n_bins=8, bin_strategy='equal_width',
                  regression_estimator=None, verbose=0, **kwargs):
         super(REG, self).__init__(**kwargs)
-        self.bag_generator = bag_generator
+        self.bag_generator = PriorShift_BagGenerator() if bag_generator is None else bag_generator
         self.n_bins = n_bins
         self.bin_strategy = bin_strategy
         self.regression_estimator = regression_estimator
@@ -327,7 +327,7 @@ class REGX(WithoutClassifiers, REG):
         ----------
         Christopher F. Baum: Stata tip 63: Modeling proportions. The Stata Journal 8.2 (2008): 299-303
     """
-    def __init__(self, bag_generator=PriorShift_BagGenerator(), n_bins=8, bin_strategy='normal',
+    def __init__(self, bag_generator=None, n_bins=8, bin_strategy='normal',
                  regression_estimator=None, verbose=False):
         super(REGX, self).__init__(bag_generator=bag_generator, n_bins=n_bins, bin_strategy=bin_strategy,
                                    regression_estimator=regression_estimator, verbose=verbose)
@@ -519,7 +519,7 @@ class REGy(UsingClassifiers, REG):
         Christopher F. Baum: Stata tip 63: Modeling proportions. The Stata Journal 8.2 (2008): 299-303
     """
 
-    def __init__(self, estimator_train=None, estimator_test=None, bag_generator=PriorShift_BagGenerator(),
+    def __init__(self, estimator_train=None, estimator_test=None, bag_generator=None,
                  n_bins=8, bin_strategy='equal_width', regression_estimator=None, verbose=False):
         super(REGy, self).__init__(bag_generator=bag_generator, n_bins=n_bins, bin_strategy=bin_strategy,
                                    regression_estimator=regression_estimator, verbose=verbose,
-- 
2.43.0


From d726bba9241705c70c6affe4d0bfee7d73593f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 17/62] fix: REGX and REGy training histograms did not sum 1
 when the bag size differs from the training set size

---
 quantificationlib/multiclass/regression.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index 2d92642..fb90524 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -142,7 +142,6 @@ class REG(six.with_metaclass(ABCMeta)):
 
         classes = np.unique(y)
         self.n_classes_ = len(classes)
-        n_examples = X.shape[0]
         if len(X.shape) == 1:
             n_features = 1
         else:
@@ -164,7 +163,7 @@ class REG(six.with_metaclass(ABCMeta)):
         for nbag in range(self.bag_generator.n_bags):
             for att in range(n_features):
                 self.dataX_[nbag, att * self.n_bins:(att + 1) * self.n_bins] = \
-                    np.histogram(X[indexes[:, nbag], att], bins=self.bincuts_[att, :])[0] / n_examples
+                    np.histogram(X[indexes[:, nbag], att], bins=self.bincuts_[att, :])[0] / len(indexes)
 
     def fit_regressor(self):
         """ This method trains the regressor model using `dataX_` and `dataY_`
-- 
2.43.0


From de220b0cb261a4119c9099051a9f715c5431328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 18/62] fix: binary REGX and REGy with the same
 regression_estimator object overwrote the model of each other

---
 quantificationlib/multiclass/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index fb90524..45453e3 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -172,7 +172,7 @@ class REG(six.with_metaclass(ABCMeta)):
         if self.n_classes_ == 2:
             self.dataY_ = self.dataY_[:, 1]
             if self.regression_estimator is not None:
-                self.estimators_ = self.regression_estimator.fit(self.dataX_, self.dataY_)
+                self.estimators_ = deepcopy(self.regression_estimator).fit(self.dataX_, self.dataY_)
             else:
                 self.estimators_ = sm.GLM(endog=self.dataY_, exog=self.dataX_, family=sm.families.Binomial())
                 self.models_ = self.estimators_.fit()
-- 
2.43.0


From a4587b4e78c92b1d0579a6a154b4216e09ba579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 19/62] fix: REGX did not set classes_

---
 quantificationlib/multiclass/regression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index 45453e3..0d70421 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -347,6 +347,7 @@ class REGX(WithoutClassifiers, REG):
         if self.verbose > 0:
             print('Class %s: Creating training distribution...' % self.__class__.__name__, end='')
 
+        super().fit(X, y)
         super(REGX, self).create_training_set_of_distributions(X=X, y=y, att_range=None)
 
         if self.verbose > 0:
-- 
2.43.0


From c7b4055e440714350e6e78f72d9f608baae67fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 20/62] fix: EoQ ignored n_bins and bin_strategy with
 quantifiers that do not use classifiers

---
 quantificationlib/ensembles/eoq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 27893ab..6b58fe4 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -241,10 +241,10 @@ class EoQ(WithoutClassifiers):
             if self.verbose > 0:
                 print('Class %s: Training quantifiers...' % self.__class__.__name__, end='')
 
-            self.bincuts_ = np.zeros((X.shape[1], 100 + 1))
+            self.bincuts_ = np.zeros((X.shape[1], self.n_bins + 1))
             for att in range(X.shape[1]):
-                self.bincuts_[att, :] = compute_bincuts(x=X[:, att], y=None, classes=self.classes_,
-                                                        n_bins=self.n_bins, bin_strategy='equal_width')
+                self.bincuts_[att, :] = compute_bincuts(x=X[:, att], y=y, classes=self.classes_,
+                                                        n_bins=self.n_bins, bin_strategy=self.bin_strategy)
 
             self.quantifiers_ = np.zeros(self.n_quantifiers, dtype=object)
             for i in range(self.n_quantifiers):
-- 
2.43.0


From fcc34cc2b1d40339d7f166b220cfbb5056f09249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 21/62] fix: EoQ distribution_similarity used the distribution
 of the whole training set for all the bags

---
 quantificationlib/ensembles/eoq.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 6b58fe4..f193bee 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -256,7 +256,8 @@ class EoQ(WithoutClassifiers):
             for i in range(self.n_quantifiers):
                 for att in range(X.shape[1]):
                     self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins] = \
-                        np.histogram(X[:, att], bins=self.bincuts_[att, :])[0] / len(X)
+                        np.histogram(X[self.indexes_[:, i], att],
+                                     bins=self.bincuts_[att, :])[0] / len(self.indexes_)
                     if self.distribution_function == 'CDF':
                         self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins] = \
                             np.cumsum(self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins], axis=1)
@@ -379,12 +380,12 @@ class EoQ(WithoutClassifiers):
                 for descr in range(n_descriptors):
                     if predictions_train.ndim == 2:
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                             np.histogram(predictions_train[:, descr],
-                                          bins=self.bincuts_[descr, :])[0] / len(predictions_train)
+                             np.histogram(predictions_train[indexes_ext[:, i], descr],
+                                          bins=self.bincuts_[descr, :])[0] / len(indexes_ext)
                     elif predictions_train.ndim == 3:
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                            np.histogram(predictions_train.mean(axis=1)[:, descr],
-                                         bins=self.bincuts_[descr, :])[0] / len(predictions_train)
+                            np.histogram(predictions_train.mean(axis=1)[indexes_ext[:, i], descr],
+                                         bins=self.bincuts_[descr, :])[0] / len(indexes_ext)
                     # compute cdf if necessary
                     if self.distribution_function == 'CDF':
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-- 
2.43.0


From 8aaf58772cfca0b4a4262e1d7b030ad06533a0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 22/62] fix: EoQ failed with distribution_function='CDF'

---
 quantificationlib/ensembles/eoq.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index f193bee..9cb5654 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -260,7 +260,7 @@ class EoQ(WithoutClassifiers):
                                      bins=self.bincuts_[att, :])[0] / len(self.indexes_)
                     if self.distribution_function == 'CDF':
                         self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins] = \
-                            np.cumsum(self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins], axis=1)
+                            np.cumsum(self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins])
 
         elif isinstance(self.base_quantifier, UsingClassifiers):
 
@@ -389,7 +389,7 @@ class EoQ(WithoutClassifiers):
                     # compute cdf if necessary
                     if self.distribution_function == 'CDF':
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                            np.cumsum(self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins], axis=1)
+                            np.cumsum(self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins])
 
         else:
             raise ValueError("Base quantifiers of class %s not implemented in EoQ"
@@ -467,8 +467,8 @@ class EoQ(WithoutClassifiers):
                     test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins] = \
                         np.histogram(X[:, att], bins=self.bincuts_[att, :])[0] / len(X)
                     if self.distribution_function == 'CDF':
-                        test_distributions[0, att * self.n_bins:(att + 1) * self.n_bins] = \
-                            np.cumsum(test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins], axis=1)
+                        test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins] = \
+                            np.cumsum(test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins])
             elif isinstance(self.base_quantifier, UsingClassifiers):
 
                 if predictions_test.ndim == 1:
@@ -494,7 +494,7 @@ class EoQ(WithoutClassifiers):
                     # compute cdf if necessary
                     if self.distribution_function == 'CDF':
                         test_distribution[0, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                            np.cumsum(test_distribution[0, descr * self.n_bins:(descr + 1) * self.n_bins], axis=1)
+                            np.cumsum(test_distribution[0, descr * self.n_bins:(descr + 1) * self.n_bins])
             else:
                 raise ValueError("Base quantifiers of class %s not implemented in EoQ"
                                  % self.base_quantifier.__class__.__name__)
-- 
2.43.0


From 7cd479babc41d71625e9f5080057b9814d8b9542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 23/62] fix: EoQ returned NaN when
 percentage_of_selected_models selects no model

---
 quantificationlib/ensembles/eoq.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 9cb5654..e26250d 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -450,13 +450,16 @@ class EoQ(WithoutClassifiers):
                     #  3 dimensions, an EnsembleOfClassifiers is used
                     prevalences[i, :] = self.quantifiers_[i].predict(X=None, predictions_test=predictions_test[:, i, :])
 
+        #  at least one model must be selected
+        n_selected = max(1, round(self.n_quantifiers * self.percentage_of_selected_models))
+
         if self.combination_strategy == 'prevalence_similarity' or self.combination_strategy == 'all':
             p = np.mean(prevalences, axis=0)
             difference = np.zeros(self.n_quantifiers)
             for i in range(self.n_quantifiers):
                 difference[i] = mean_absolute_error(p, prevalences[i])
             indxs = np.argsort(difference)
-            prevalence_similarity_selected = indxs[0:round(self.n_quantifiers * self.percentage_of_selected_models)]
+            prevalence_similarity_selected = indxs[0:n_selected]
 
         if self.combination_strategy == 'distribution_similarity' or self.combination_strategy == 'all':
 
@@ -500,7 +503,7 @@ class EoQ(WithoutClassifiers):
                                  % self.base_quantifier.__class__.__name__)
             distances = cdist(test_distribution, self.distributions_, metric=self.distance_bags)
             indxs = np.argsort(distances.squeeze())
-            distribution_similarity_selected = indxs[0:round(self.n_quantifiers * self.percentage_of_selected_models)]
+            distribution_similarity_selected = indxs[0:n_selected]
 
         prediction = 0
         if self.combination_strategy == 'mean':
-- 
2.43.0


From 2a66bcf59018e5edfb71239d7fcf28822e46f42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 24/62] fix: EoQ failed with repeated predictions when the bag
 size differs from the training set size

---
 quantificationlib/ensembles/eoq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index e26250d..51db63c 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -334,7 +334,8 @@ class EoQ(WithoutClassifiers):
             else:
                 n_repetitions = len(predictions_train) // len(y)
                 y_ext = np.tile(y, n_repetitions)
-                adapt_indexs = np.repeat(np.array(range(0, len(y) * n_repetitions, len(y))), len(y))
+                adapt_indexs = np.repeat(np.array(range(0, len(y) * n_repetitions, len(y))),
+                                         len(self.indexes_))
                 indexes_ext = np.tile(self.indexes_, (n_repetitions, 1)) + np.transpose(np.tile(adapt_indexs,
                                                                                                 (
                                                                                                     self.n_quantifiers,
-- 
2.43.0


From f3d60a6785e510bd05cca8180de91cccd0efca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 25/62] fix: EoQ used the crisp predictions of an
 EnsembleOfClassifiers as probabilities

---
 quantificationlib/ensembles/eoq.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 51db63c..abce994 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -264,6 +264,8 @@ class EoQ(WithoutClassifiers):
 
         elif isinstance(self.base_quantifier, UsingClassifiers):
 
+            #  crisp_ensemble: i-th column of the predictions contains the crisp predictions of i-th classifier
+            crisp_ensemble = False
             if predictions_train is None:
 
                 if self.ensemble_estimator_train is None:
@@ -299,6 +301,7 @@ class EoQ(WithoutClassifiers):
                     predictions_train = self.ensemble_estimator_train.predict_proba(X)
                 else:
                     predictions_train = self.ensemble_estimator_train.predict(X)
+                    crisp_ensemble = isinstance(self.ensemble_estimator_train, EnsembleOfClassifiers)
 
             if self.ensemble_estimator_test is not None:
                 if self.verbose > 0:
@@ -350,6 +353,9 @@ class EoQ(WithoutClassifiers):
                 if predictions_train.ndim == 1:
                     self.quantifiers_[i].fit(X=None, y=y_ext[indexes_ext[:, i]],
                                              predictions_train=predictions_train[indexes_ext[:, i]])
+                elif crisp_ensemble:
+                    self.quantifiers_[i].fit(X=None, y=y_ext[indexes_ext[:, i]],
+                                             predictions_train=predictions_train[indexes_ext[:, i], i])
                 elif predictions_train.ndim == 2:
                     self.quantifiers_[i].fit(X=None, y=y_ext[indexes_ext[:, i]],
                                              predictions_train=predictions_train[indexes_ext[:, i], :])
@@ -366,7 +372,7 @@ class EoQ(WithoutClassifiers):
             # compute bincuts according to bin_strategy
             self.bincuts_ = np.zeros((n_descriptors, self.n_bins + 1))
             for descr in range(n_descriptors):
-                if predictions_train.ndim == 2:
+                if predictions_train.ndim == 2 and not crisp_ensemble:
                     self.bincuts_[descr, :] = compute_bincuts(x=predictions_train[:, descr], y=y_ext,
                                                               classes=self.classes_,
                                                               n_bins=self.n_bins, bin_strategy=self.bin_strategy)
@@ -379,7 +385,7 @@ class EoQ(WithoutClassifiers):
             self.distributions_ = np.zeros((self.n_quantifiers, self.n_bins * n_descriptors))
             for i in range(self.n_quantifiers):
                 for descr in range(n_descriptors):
-                    if predictions_train.ndim == 2:
+                    if predictions_train.ndim == 2 and not crisp_ensemble:
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
                              np.histogram(predictions_train[indexes_ext[:, i], descr],
                                           bins=self.bincuts_[descr, :])[0] / len(indexes_ext)
@@ -438,14 +444,18 @@ class EoQ(WithoutClassifiers):
 
         elif isinstance(self.base_quantifier, UsingClassifiers):
 
+            crisp_ensemble = False
             if predictions_test is None:
                 if self.base_quantifier.probabilistic_predictions:
                     predictions_test = self.ensemble_estimator_test.predict_proba(X)
                 else:
                     predictions_test = self.ensemble_estimator_test.predict(X)
+                    crisp_ensemble = isinstance(self.ensemble_estimator_test, EnsembleOfClassifiers)
 
             for i in range(self.n_quantifiers):
-                if predictions_test.ndim <= 2:
+                if crisp_ensemble:
+                    prevalences[i, :] = self.quantifiers_[i].predict(X=None, predictions_test=predictions_test[:, i])
+                elif predictions_test.ndim <= 2:
                     prevalences[i, :] = self.quantifiers_[i].predict(X=None, predictions_test=predictions_test)
                 else:
                     #  3 dimensions, an EnsembleOfClassifiers is used
@@ -475,7 +485,7 @@ class EoQ(WithoutClassifiers):
                             np.cumsum(test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins])
             elif isinstance(self.base_quantifier, UsingClassifiers):
 
-                if predictions_test.ndim == 1:
+                if predictions_test.ndim == 1 or crisp_ensemble:
                     raise ValueError("Class %s: distribution_similarity not implemented with quantifiers that use "
                                      "crisp preditions, used prevalence_similarity instead", self.__class__.__name__)
 
-- 
2.43.0


From 779d9a74abec7d4b7a6f31b2979109b35e003a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 26/62] fix: EoQ returned 0 as the prediction of an unknown
 combination_strategy

---
 quantificationlib/ensembles/eoq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index abce994..8a8f51c 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -516,7 +516,6 @@ class EoQ(WithoutClassifiers):
             indxs = np.argsort(distances.squeeze())
             distribution_similarity_selected = indxs[0:n_selected]
 
-        prediction = 0
         if self.combination_strategy == 'mean':
             prediction = np.mean(prevalences, axis=0)
             prediction = prediction / float(np.sum(prediction))
@@ -544,5 +543,7 @@ class EoQ(WithoutClassifiers):
             m3 = m3 / float(np.sum(m3))
             prediction['distribution_similarity'] = m3
             prediction['all'] = (m0 + m1 + m2 + m3)/4
+        else:
+            raise ValueError("Class %s: unknown combination_strategy" % self.__class__.__name__)
 
         return prediction
-- 
2.43.0


From e317ea31bab87e39c7d8f80c923764300efd966b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 27/62] fix: DFy failed with normal/binormal bins and repeated
 predictions (labels not repeated)

---
 quantificationlib/multiclass/df.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index 7341aa5..c2b9a53 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -249,7 +249,8 @@ class DFy(UsingClassifiers):
         # compute bincuts according to bin_strategy
         self.bincuts_ = np.zeros((n_descriptors, self.n_bins + 1))
         for descr in range(n_descriptors):
-            self.bincuts_[descr, :] = compute_bincuts(x=self.predictions_train_[:, descr], y=y, classes=self.classes_,
+            self.bincuts_[descr, :] = compute_bincuts(x=self.predictions_train_[:, descr], y=self.y_ext_,
+                                                      classes=self.classes_,
                                                       n_bins=self.n_bins, bin_strategy=self.bin_strategy,
                                                       att_range=[0, 1])
 
-- 
2.43.0


From e5d1e1fd4fb8f2a5a11cb9d9f3e02ce8ae5daf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 28/62] fix: normal/binormal bins left examples out of the
 histogram when the standard deviation is 0

---
 quantificationlib/multiclass/df.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index c2b9a53..8c94d62 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -722,7 +722,9 @@ def compute_bincuts(x, y=None, classes=None, n_bins=8, bin_strategy='equal_width
         if std > 0:
             bincuts = [std * norm.ppf(i / n_bins) + mu for i in range(0, n_bins + 1)]
         else:
-            bincuts = np.histogram_bin_edges(x, bins=n_bins, range=[0, 0])
+            bincuts = np.histogram_bin_edges(x, bins=n_bins, range=[mu, mu])
+            bincuts[0] = -np.inf
+            bincuts[-1] = np.inf
     elif bin_strategy == 'normal':
         weights = np.ones((x.shape[0],))
         for n_cls, cls in enumerate(classes):
@@ -733,7 +735,9 @@ def compute_bincuts(x, y=None, classes=None, n_bins=8, bin_strategy='equal_width
         if std > 0:
             bincuts = [std * norm.ppf(i / n_bins) + mu for i in range(0, n_bins + 1)]
         else:
-            bincuts = np.histogram_bin_edges(x, bins=n_bins, range=[0, 0])
+            bincuts = np.histogram_bin_edges(x, bins=n_bins, range=[mu, mu])
+            bincuts[0] = -np.inf
+            bincuts[-1] = np.inf
     else:
         raise ValueError('Unknown bin strategy (possible values: ''equal_width'', ''binormal'', ''normal''')
 
-- 
2.43.0


From 5a47c530f9ad4e869c55597936c0594db8a52880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 29/62] fix: equal_count bins failed with fewer examples than
 bins

---
 quantificationlib/multiclass/df.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index 8c94d62..ddc5c48 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -704,7 +704,8 @@ def compute_bincuts(x, y=None, classes=None, n_bins=8, bin_strategy='equal_width
         bincuts[0] = -np.inf
         bincuts[-1] = np.inf
         for i in range(1, n_bins):
-            cutpoint = int(round(len(x) * i / n_bins))
+            #  there must be at least one example on each side of the cut point
+            cutpoint = min(max(int(round(len(x) * i / n_bins)), 1), len(x) - 1)
             bincuts[i] = (sorted_values[cutpoint - 1] + sorted_values[cutpoint]) / 2
     elif bin_strategy == 'binormal':
         # only for binary quantification
-- 
2.43.0


From 80dfc0b1cc2d331cf5f367df5b59185bec6fa089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 30/62] fix: user-defined distances received a 1-D mixture and
 a 2-D test distribution in DFy, DFX and FriedmanME

---
 quantificationlib/multiclass/df.py       | 12 ++++++------
 quantificationlib/multiclass/friedman.py |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index ddc5c48..d995696 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -347,10 +347,10 @@ class DFy(UsingClassifiers):
                                                   n_classes=n_classes, problem=self.problem_)
         else:
             self.mixtures_, prevalences = global_search(distance_func=self.distance, mixture_func=mixture_of_pdfs,
-                                                        test_distrib=self.test_distrib_, tol=self.tol,
+                                                        test_distrib=self.test_distrib_[:, 0], tol=self.tol,
                                                         mixtures=self.mixtures_, return_mixtures=True,
-                                                        pos_distrib=self.train_distrib_[:, 1].reshape(-1, 1),
-                                                        neg_distrib=self.train_distrib_[:, 0].reshape(-1, 1))
+                                                        pos_distrib=self.train_distrib_[:, 1],
+                                                        neg_distrib=self.train_distrib_[:, 0])
 
         if self.verbose > 0:
             print('done')
@@ -614,10 +614,10 @@ class DFX(WithoutClassifiers):
                                                   n_classes=n_classes, problem=self.problem_)
         else:
             self.mixtures_, prevalences = global_search(distance_func=self.distance, mixture_func=mixture_of_pdfs,
-                                                        test_distrib=self.test_distrib_, tol=self.tol,
+                                                        test_distrib=self.test_distrib_[:, 0], tol=self.tol,
                                                         mixtures=self.mixtures_, return_mixtures=True,
-                                                        pos_distrib=self.train_distrib_[:, 1].reshape(-1, 1),
-                                                        neg_distrib=self.train_distrib_[:, 0].reshape(-1, 1))
+                                                        pos_distrib=self.train_distrib_[:, 1],
+                                                        neg_distrib=self.train_distrib_[:, 0])
         if self.verbose > 0:
             print('done')
 
diff --git a/quantificationlib/multiclass/friedman.py b/quantificationlib/multiclass/friedman.py
index b9f300e..b165be4 100644
--- a/quantificationlib/multiclass/friedman.py
+++ b/quantificationlib/multiclass/friedman.py
@@ -261,10 +261,10 @@ class FriedmanME(UsingClassifiers):
                                                   n_classes=n_classes, problem=self.problem_)
         else:
             self.mixtures_, prevalences = global_search(distance_func=self.distance, mixture_func=mixture_of_pdfs,
-                                                        test_distrib=self.test_distrib_, tol=self.tol,
+                                                        test_distrib=self.test_distrib_[:, 0], tol=self.tol,
                                                         mixtures=self.mixtures_, return_mixtures=True,
-                                                        pos_distrib=self.train_distrib_[:, 1].reshape(-1, 1),
-                                                        neg_distrib=self.train_distrib_[:, 0].reshape(-1, 1))
+                                                        pos_distrib=self.train_distrib_[:, 1],
+                                                        neg_distrib=self.train_distrib_[:, 0])
         if self.verbose > 0:
             print('done')
 
-- 
2.43.0


From 98bdbae37f828ef5ac3b7ff972e4c3e9f0d82b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 31/62] fix: DFy, DFX and FriedmanME returned just two
 prevalences with a distance function and three or more classes

---
 quantificationlib/multiclass/df.py       | 4 ++++
 quantificationlib/multiclass/friedman.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index d995696..5bb5254 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -346,6 +346,8 @@ class DFy(UsingClassifiers):
             self.problem_, prevalences = solve_l1(train_distrib=self.train_distrib_, test_distrib=self.test_distrib_,
                                                   n_classes=n_classes, problem=self.problem_)
         else:
+            if n_classes > 2:
+                raise ValueError('distance functions can only be used for binary quantification')
             self.mixtures_, prevalences = global_search(distance_func=self.distance, mixture_func=mixture_of_pdfs,
                                                         test_distrib=self.test_distrib_[:, 0], tol=self.tol,
                                                         mixtures=self.mixtures_, return_mixtures=True,
@@ -613,6 +615,8 @@ class DFX(WithoutClassifiers):
             self.problem_, prevalences = solve_l1(train_distrib=self.train_distrib_, test_distrib=self.test_distrib_,
                                                   n_classes=n_classes, problem=self.problem_)
         else:
+            if n_classes > 2:
+                raise ValueError('distance functions can only be used for binary quantification')
             self.mixtures_, prevalences = global_search(distance_func=self.distance, mixture_func=mixture_of_pdfs,
                                                         test_distrib=self.test_distrib_[:, 0], tol=self.tol,
                                                         mixtures=self.mixtures_, return_mixtures=True,
diff --git a/quantificationlib/multiclass/friedman.py b/quantificationlib/multiclass/friedman.py
index b165be4..bd6d0eb 100644
--- a/quantificationlib/multiclass/friedman.py
+++ b/quantificationlib/multiclass/friedman.py
@@ -260,6 +260,8 @@ class FriedmanME(UsingClassifiers):
             self.problem_, prevalences = solve_l1(train_distrib=self.train_distrib_, test_distrib=self.test_distrib_,
                                                   n_classes=n_classes, problem=self.problem_)
         else:
+            if n_classes > 2:
+                raise ValueError('distance functions can only be used for binary quantification')
             self.mixtures_, prevalences = global_search(distance_func=self.distance, mixture_func=mixture_of_pdfs,
                                                         test_distrib=self.test_distrib_[:, 0], tol=self.tol,
                                                         mixtures=self.mixtures_, return_mixtures=True,
-- 
2.43.0


From 56fe66d09fdf03853d21d87741ff65934583976a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 32/62] fix: SORDy failed when the classes are not numbers

---
 quantificationlib/binary/emd.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/binary/emd.py b/quantificationlib/binary/emd.py
index ca38116..51314be 100644
--- a/quantificationlib/binary/emd.py
+++ b/quantificationlib/binary/emd.py
@@ -202,8 +202,10 @@ class SORDy(UsingClassifiers):
         self.union_distrib_ = np.hstack((self.train_distrib_, self.predictions_test_[:, 1]))
         indx = np.argsort(self.union_distrib_)
         self.union_distrib_ = self.union_distrib_[indx]
-        test_label = np.max(self.classes_)+1
-        self.union_labels_ = np.hstack((self.train_labels_,
+        #  the labels of the union are 0 and 1 for the training examples (the classes could not be numbers) and 2
+        #  for the testing examples
+        test_label = 2
+        self.union_labels_ = np.hstack((np.searchsorted(self.classes_, self.train_labels_),
                                         np.full(len(self.predictions_test_[:, 1]), test_label)))
         self.union_labels_ = self.union_labels_[indx]
 
@@ -214,7 +216,7 @@ class SORDy(UsingClassifiers):
         _, prevalences = golden_section_search(distance_func=sord, mixture_func=compute_sord_weights,
                                                test_distrib=self.union_distrib_, tol=self.tol, a=0.0, b=1.0,
                                                union_labels=self.union_labels_,
-                                               classes=self.classes_)
+                                               classes=np.array([0, 1]))
         if self.verbose > 0:
             print('done')
 
-- 
2.43.0


From e3acc656718c5e2b148aed46e6310ae13dc3669a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 33/62] fix: PDFOrdinaly returned None with an unknown distance

---
 quantificationlib/ordinal/pdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/ordinal/pdf.py b/quantificationlib/ordinal/pdf.py
index 6fdc646..2b84060 100644
--- a/quantificationlib/ordinal/pdf.py
+++ b/quantificationlib/ordinal/pdf.py
@@ -279,7 +279,8 @@ class PDFOrdinaly(UsingClassifiers):
             if np.sum(prevalences) > 0:
                 prevalences = prevalences / float(np.sum(prevalences))
         else:
-            prevalences = None
+            raise ValueError('Distance %s not implemented with objects of class %s'
+                             % (self.distance, self.__class__.__name__))
 
         if self.verbose > 0:
             print('done')
-- 
2.43.0


From f6ead3ac0f43e7f87bd6dc7a625149d3218ac7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 34/62] fix: EM, EDX, PWK and PWKQuantifier could not be
 printed or cloned, and ignored set_params

---
 quantificationlib/estimators/weighted_knn.py | 8 ++++++++
 quantificationlib/multiclass/em.py           | 4 ++++
 quantificationlib/multiclass/energy.py       | 2 ++
 quantificationlib/multiclass/knn.py          | 8 +++++++-
 4 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/weighted_knn.py b/quantificationlib/estimators/weighted_knn.py
index 514cd3b..f5e4333 100644
--- a/quantificationlib/estimators/weighted_knn.py
+++ b/quantificationlib/estimators/weighted_knn.py
@@ -85,6 +85,13 @@ class PWK(BaseEstimator, ClassifierMixin):
     """
     def __init__(self, n_neighbors=10, algorithm='auto', leaf_size=30, p=2, metric='minkowski', metric_params=None,
                  n_jobs=None):
+        self.n_neighbors = n_neighbors
+        self.algorithm = algorithm
+        self.leaf_size = leaf_size
+        self.p = p
+        self.metric = metric
+        self.metric_params = metric_params
+        self.n_jobs = n_jobs
         self.knn_ = KNeighborsClassifier(n_neighbors=n_neighbors, algorithm=algorithm, leaf_size=leaf_size,
                                          metric=metric, p=p, metric_params=metric_params, n_jobs=n_jobs)
         self.classes_ = None
@@ -108,6 +115,7 @@ class PWK(BaseEstimator, ClassifierMixin):
         for n_cls, cls in enumerate(self.classes_):
             self.weights_[y == cls] = 1 - (np.sum(self.y_ == cls) / X.shape[0])
 
+        self.knn_.set_params(**self.get_params())
         self.knn_.fit(X, y)
         return self
 
diff --git a/quantificationlib/multiclass/em.py b/quantificationlib/multiclass/em.py
index 4c04940..6ec4ccc 100644
--- a/quantificationlib/multiclass/em.py
+++ b/quantificationlib/multiclass/em.py
@@ -103,6 +103,8 @@ class EM(UsingClassifiers):
     def __init__(self, estimator_train=None, estimator_test=None, verbose=0, epsilon=1e-4, max_iter=1000):
         super(EM, self).__init__(estimator_train=estimator_train, estimator_test=estimator_test,
                                  needs_predictions_train=True, probabilistic_predictions=True, verbose=verbose)
+        self.epsilon = epsilon
+        self.max_iter = max_iter
         self.epsilon_ = epsilon
         self.max_iter_ = max_iter
         self.prevalences_train_ = None
@@ -131,6 +133,8 @@ class EM(UsingClassifiers):
                 When estimator_train and predictions_train are at the same time None or not None
         """
         super().fit(X, y, predictions_train=predictions_train)
+        self.epsilon_ = self.epsilon
+        self.max_iter_ = self.max_iter
 
         n_classes = len(self.classes_)
 
diff --git a/quantificationlib/multiclass/energy.py b/quantificationlib/multiclass/energy.py
index c8b09bb..a64212a 100644
--- a/quantificationlib/multiclass/energy.py
+++ b/quantificationlib/multiclass/energy.py
@@ -490,6 +490,7 @@ class EDX(WithoutClassifiers):
     def __init__(self, distance=euclidean_distances, verbose=0):
         super(EDX, self).__init__(verbose=verbose)
         # variables to represent the distributions using the main idea of ED-based algorithms
+        self.distance = distance
         self.distance_ = distance
         self.train_n_cls_i_ = None
         self.train_distrib_ = None
@@ -512,6 +513,7 @@ class EDX(WithoutClassifiers):
                 True classes
         """
         super().fit(X, y)
+        self.distance_ = self.distance
 
         if self.verbose > 0:
             print('Class %s: Computing average distances for training distribution...' % self.__class__.__name__,
diff --git a/quantificationlib/multiclass/knn.py b/quantificationlib/multiclass/knn.py
index deea5f9..da93fa8 100644
--- a/quantificationlib/multiclass/knn.py
+++ b/quantificationlib/multiclass/knn.py
@@ -74,7 +74,11 @@ class PWKQuantifier(WithoutClassifiers):
     def __init__(self, n_neighbors=10, p=2, metric='minkowski', metric_params=None, verbose=0):
         super(PWKQuantifier, self).__init__(verbose=verbose)
         #  Attributes
-        self.knn_estimator_ = PWK(n_neighbors=n_neighbors, p=p, metric=metric, metric_params=metric_params)
+        self.n_neighbors = n_neighbors
+        self.p = p
+        self.metric = metric
+        self.metric_params = metric_params
+        self.knn_estimator_ = None
         self.cm_ = None
         self.problem_ = None
 
@@ -94,6 +98,8 @@ class PWKQuantifier(WithoutClassifiers):
         """
         super().fit(X, y)
 
+        self.knn_estimator_ = PWK(n_neighbors=self.n_neighbors, p=self.p, metric=self.metric,
+                                  metric_params=self.metric_params)
         self.knn_estimator_.fit(X, y)
         predictions_train = self.knn_estimator_.predict(X)
 
-- 
2.43.0


From f14c39683ed118cbab57a6b94f4cf28e83743e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 35/62] fix: OrdinalQuantificationTree could not be cloned (the
 tree was wrapped twice)

---
 quantificationlib/ordinal/trees.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/ordinal/trees.py b/quantificationlib/ordinal/trees.py
index a3afdf9..5129580 100644
--- a/quantificationlib/ordinal/trees.py
+++ b/quantificationlib/ordinal/trees.py
@@ -35,5 +35,6 @@ class OrdinalQuantificationTree(PCC):
         Association for Computational Linguistics, A, 5863.
     """
     def __init__(self, estimator_test=None, verbose=0):
-        super(OrdinalQuantificationTree, self).__init__(estimator_test=FrankAndHallTreeClassifier(estimator_test),
-                                                        verbose=verbose)
+        if not isinstance(estimator_test, FrankAndHallTreeClassifier):
+            estimator_test = FrankAndHallTreeClassifier(estimator_test)
+        super(OrdinalQuantificationTree, self).__init__(estimator_test=estimator_test, verbose=verbose)
-- 
2.43.0


From f1431d4418c003ff32e9230cdfa1176acf8806ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 36/62] fix: PWK predictions were floats, and failed when the
 classes are not numbers

---
 quantificationlib/estimators/weighted_knn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/estimators/weighted_knn.py b/quantificationlib/estimators/weighted_knn.py
index f5e4333..2701819 100644
--- a/quantificationlib/estimators/weighted_knn.py
+++ b/quantificationlib/estimators/weighted_knn.py
@@ -134,8 +134,9 @@ class PWK(BaseEstimator, ClassifierMixin):
         """
         _, neigh_ind = self.knn_.kneighbors(X)
 
-        mode, _ = weighted_mode(self.y_[neigh_ind], self.weights_[neigh_ind], axis=1)
-        y_pred = np.asarray(mode.ravel())
+        y_indexes = np.searchsorted(self.classes_, self.y_)
+        mode, _ = weighted_mode(y_indexes[neigh_ind], self.weights_[neigh_ind], axis=1)
+        y_pred = self.classes_[mode.ravel().astype(int)]
         return y_pred
 
     def predict_proba(self, X):
-- 
2.43.0


From 6ff6fa70e928f652b975046963e5d18921300625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 37/62] fix: DeBias returned NaN when all the training
 predictions are equal to the prior

---
 quantificationlib/binary/debias.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/binary/debias.py b/quantificationlib/binary/debias.py
index 24f4e57..7f17bba 100644
--- a/quantificationlib/binary/debias.py
+++ b/quantificationlib/binary/debias.py
@@ -181,7 +181,10 @@ class DeBias(UsingClassifiers):
         if self.verbose > 0:
             print('Class %s: Computing prevalences for testing distribution...' % self.__class__.__name__, end='')
 
-        p = self.train_prevs_[1] + (np.mean(self.predictions_test_, axis=0)[1] - self.train_prevs_[1]) / self.Vt_
+        p = np.mean(self.predictions_test_, axis=0)[1]
+        #  when Vt is 0 the prediction cannot be corrected
+        if self.Vt_ > 0:
+            p = self.train_prevs_[1] + (p - self.train_prevs_[1]) / self.Vt_
         prevalences = np.array([1 - p, p])
 
         prevalences = np.clip(prevalences, 0, 1)
-- 
2.43.0


From 479b4bd2ec49ab6cc1d4ac7b460c32c5695548fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 38/62] fix: OneVsRestQuantifier returned prevalences that sum
 0 when all the binary quantifiers return 0

---
 quantificationlib/decomposition/multiclass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/decomposition/multiclass.py b/quantificationlib/decomposition/multiclass.py
index 93d50cb..db5b1d7 100644
--- a/quantificationlib/decomposition/multiclass.py
+++ b/quantificationlib/decomposition/multiclass.py
@@ -199,5 +199,8 @@ class OneVsRestQuantifier(UsingClassifiers):
 
         if np.sum(prevalences) > 0:
             prevalences = prevalences / float(np.sum(prevalences))
+        else:
+            #  no class was found by its binary quantifier
+            prevalences = np.ones(len(self.classes_)) / len(self.classes_)
 
         return prevalences
-- 
2.43.0


From 9fa59f5b48e1b9c213de2dad37fa4662af4b9211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 39/62] fix: solve_hd asked ECOS for a feasibility tolerance of
 1e6 (unbounded problems without solution, suboptimal prevalences)

---
 quantificationlib/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index c033cb0..b1bc470 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -122,12 +122,12 @@ def solve_hd(train_distrib, test_distrib, n_classes, problem=None, solver='ECOS'
         objective = cvxpy.Minimize(1 - cvxpy.sum(cvxpy.sqrt(s)))
         contraints = [cvxpy.sum(prevalences) == 1]
         problem = cvxpy.Problem(objective, contraints)
-        problem.solve(solver=solver, feastol=1e6)
+        problem.solve(solver=solver)
 
         return problem, np.array(prevalences[0:n_classes].value).squeeze()
     else:
         problem.parameters()[0].value = np.squeeze(test_distrib)
-        problem.solve(warm_start=True, solver=solver, feastol=1e6)
+        problem.solve(warm_start=True, solver=solver)
 
         return problem, list(problem.solution.primal_vars.values())[0]
 
-- 
2.43.0


From 23c6955b8cfcf0c1824936e272de59760aebc1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 40/62] fix: quadprog returned prevalences out of the simplex
 when G is numerically singular (EDX, EDy and L2 problems)

---
 quantificationlib/optimization.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index b1bc470..2fed050 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -243,6 +243,7 @@ def compute_l2_param_train(train_distrib, classes):
     G = 2 * train_distrib.T.dot(train_distrib)
     if not is_pd(G):
         G = nearest_pd(G)
+    G = well_conditioned_pd(G)
     #  constraints, sum prevalences = 1, every prevalence >=0
     n_classes = len(classes)
     C = np.vstack([np.ones((1, n_classes)), np.eye(n_classes)]).T
@@ -298,6 +299,19 @@ def nearest_pd(A):
     return A3
 
 
+def well_conditioned_pd(G, rcond=1e-10):
+    """ Adds to the diagonal of G the minimum amount needed to make its smallest eigenvalue rcond times the largest one
+
+        quadprog returns solutions that violate the constraints (negative prevalences, prevalences that do not sum 1)
+        when G is positive definite but numerically singular, for instance when two classes have the same distribution
+    """
+    eigenvalues = np.linalg.eigvalsh(G)
+    scale = eigenvalues[-1] if eigenvalues[-1] > np.finfo(float).tiny else 1.0
+    if eigenvalues[0] < rcond * scale:
+        G = G + np.eye(G.shape[0]) * (rcond * scale - eigenvalues[0])
+    return G
+
+
 def dpofa(m):
     """ Factors a symmetric positive definite matrix
 
@@ -468,6 +482,7 @@ def compute_ed_param_train(distance_func, train_distrib, classes, n_cls_i):
     G = 2 * B
     if not is_pd(G):
         G = nearest_pd(G)
+    G = well_conditioned_pd(G)
 
     C = -np.vstack([np.ones((1, n_classes - 1)), -np.eye(n_classes - 1)]).T
     b = -np.array([1] + [0] * (n_classes - 1), dtype=float)
-- 
2.43.0


From 16b12ceba9106f015516a5e5f6934b783a2cf4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 41/62] fix: EDX failed with features whose values are large
 (scale of the distances)

---
 quantificationlib/optimization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index 2fed050..edac964 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -414,7 +414,10 @@ def solve_ed(G, a, C, b):
         class-prior estimation under class balance change using energy distance. Transactions on Information
         and Systems 99, 1 (2016), 176–186.
     """
-    sol = quadprog.solve_qp(G=G, a=a, C=C, b=b)
+    # the solution does not depend on the scale of the distances, but quadprog finds the constraints inconsistent when
+    # it is large
+    scale = max(np.abs(G).max(), 1.0)
+    sol = quadprog.solve_qp(G=G / scale, a=a / scale, C=C, b=b)
     prevalences = sol[0]
     # the last class was removed from the problem, its prevalence is 1 - the sum of prevalences for the other classes
     return np.append(prevalences, 1 - prevalences.sum())
-- 
2.43.0


From 42313f8aeca4122d1fc698b8adbb29a15a83e7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 42/62] fix: AC and PAC inverted numerically singular confusion
 matrices (arbitrary prevalences instead of solving the distance problem)

---
 quantificationlib/baselines/ac.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quantificationlib/baselines/ac.py b/quantificationlib/baselines/ac.py
index 6d7b9fb..8048ad8 100644
--- a/quantificationlib/baselines/ac.py
+++ b/quantificationlib/baselines/ac.py
@@ -246,6 +246,9 @@ class AC(UsingClassifiers):
             prevalences = prevalences.squeeze()
         else:
             try:
+                if np.linalg.matrix_rank(self.cm_) < n_classes:
+                    # linalg.inv just detects it when a pivot is exactly 0
+                    raise np.linalg.LinAlgError('singular matrix')
                 inv_cm = linalg.inv(self.cm_.T)
                 prevalences = inv_cm.dot(prevalences_0)
 
@@ -498,6 +501,9 @@ class PAC(UsingClassifiers):
             prevalences = prevalences.squeeze()
         else:
             try:
+                if np.linalg.matrix_rank(self.cm_) < n_classes:
+                    # linalg.inv just detects it when a pivot is exactly 0
+                    raise np.linalg.LinAlgError('singular matrix')
                 inv_cm = linalg.inv(self.cm_.T)
                 prevalences = inv_cm.dot(prevalences_0)
 
-- 
2.43.0


From f3d0669e8d03ae55dbdcf4ef5bb4defec3ece379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 43/62] fix: solve_l1 and solve_hd failed with representations
 of one value (for instance, one bin)

---
 quantificationlib/optimization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index edac964..ace0683 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -64,7 +64,7 @@ def solve_l1(train_distrib, test_distrib, n_classes, problem=None, solver=None):
         prevalences = cvxpy.Variable(n_classes, nonneg=True)
         test_d = cvxpy.Parameter(len(test_distrib), nonneg=True)
         objective = cvxpy.Minimize(cvxpy.norm(test_d - train_distrib @ prevalences, 1))
-        test_d.value = np.squeeze(test_distrib)
+        test_d.value = np.ravel(test_distrib)
         contraints = [cvxpy.sum(prevalences) == 1]
 
         problem = cvxpy.Problem(objective, contraints)
@@ -75,7 +75,7 @@ def solve_l1(train_distrib, test_distrib, n_classes, problem=None, solver=None):
 
         return problem, np.array(prevalences[0:n_classes].value).squeeze()
     else:
-        problem.parameters()[0].value = np.squeeze(test_distrib)
+        problem.parameters()[0].value = np.ravel(test_distrib)
         if solver is None:
             problem.solve(warm_start=True)
         else:
@@ -118,7 +118,7 @@ def solve_hd(train_distrib, test_distrib, n_classes, problem=None, solver='ECOS'
         prevalences = cvxpy.Variable(n_classes, nonneg=True)
         test_d = cvxpy.Parameter(len(test_distrib), nonneg=True)
         s = cvxpy.multiply(test_d, train_distrib @ prevalences)
-        test_d.value = np.squeeze(test_distrib)
+        test_d.value = np.ravel(test_distrib)
         objective = cvxpy.Minimize(1 - cvxpy.sum(cvxpy.sqrt(s)))
         contraints = [cvxpy.sum(prevalences) == 1]
         problem = cvxpy.Problem(objective, contraints)
@@ -126,7 +126,7 @@ def solve_hd(train_distrib, test_distrib, n_classes, problem=None, solver='ECOS'
 
         return problem, np.array(prevalences[0:n_classes].value).squeeze()
     else:
-        problem.parameters()[0].value = np.squeeze(test_distrib)
+        problem.parameters()[0].value = np.ravel(test_distrib)
         problem.solve(warm_start=True, solver=solver)
 
         return problem, list(problem.solution.primal_vars.values())[0]
-- 
2.43.0


From 81eb1a11fcb1872365f4553e32d87a00cb333d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 44/62] fix: global_search returned a prevalence worse than the
 grid point where the search started (flat stretches around a minimum)

---
 quantificationlib/search.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/search.py b/quantificationlib/search.py
index 5d757a4..0cb4721 100644
--- a/quantificationlib/search.py
+++ b/quantificationlib/search.py
@@ -94,6 +94,9 @@ def global_search(distance_func, mixture_func, test_distrib, tol, mixtures, retu
         if losses[i] <= losses[max(i - 1, 0)] and losses[i] <= losses[min(i + 1, 100)]:
             loss, p = golden_section_search(distance_func, mixture_func, test_distrib, tol,
                                             max(i - 1, 0) / 100, min(i + 1, 100) / 100, **kwargs)
+            if losses[i] < loss:
+                # the loss is not V-shaped between the neighbors of this point
+                loss, p = losses[i], np.array([1 - i / 100, i / 100])
             if loss < minimum_loss:
                 minimum_loss = loss
                 p_estimated = p
-- 
2.43.0


From 021be8b5b44fc7058d112b079ffaca89ace66833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 45/62] fix: a bag generator with an integer seed drew other
 bags when it was used again for other labels

---
 quantificationlib/bag_generator.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index 4ae9628..92e610b 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -130,6 +130,7 @@ class PriorShift_BagGenerator(BagGenerator):
         self.indexes_ = None
         self.y_ = None
         self.default_bag_size_ = False
+        self.rng_ = None
 
     def generate_bags(self, X, y):
         """ Create bags of examples simulating prior probability shift
@@ -164,9 +165,10 @@ class PriorShift_BagGenerator(BagGenerator):
         if self._has_bags_of(y):
             return self.prevalences_, self.indexes_
 
-        if isinstance(self.random_state, (numbers.Integral, np.integer)):
-            self.random_state = np.random.RandomState(self.random_state)
-        if not isinstance(self.random_state, np.random.RandomState):
+        self.rng_ = self.random_state
+        if isinstance(self.rng_, (numbers.Integral, np.integer)):
+            self.rng_ = np.random.RandomState(self.rng_)
+        if not isinstance(self.rng_, np.random.RandomState):
             raise ValueError('Invalid random generaror object')
 
         if self.bag_size is None:
@@ -270,7 +272,7 @@ class PriorShift_BagGenerator(BagGenerator):
         n_bag = 0
         while n_bag < self.n_bags:
             # Kraemer method:
-            ps = self.random_state.randint(low, high, n_classes - 1)
+            ps = self.rng_.randint(low, high, n_classes - 1)
             ps = np.append(ps, [0, self.bag_size])
             ps = np.diff(np.sort(ps))  # number of samples for each class
 
@@ -281,7 +283,7 @@ class PriorShift_BagGenerator(BagGenerator):
                 position = 0
                 for cls, n_examples in zip(classes, np.array(ps)):
                     if n_examples != 0:
-                        indexes = self.random_state.choice(np.where(y == cls)[0], n_examples, replace=True)
+                        indexes = self.rng_.choice(np.where(y == cls)[0], n_examples, replace=True)
                         self.indexes_[position:position+len(indexes), n_bag] = indexes
                         position = position + len(indexes)
 
@@ -323,7 +325,7 @@ class PriorShift_BagGenerator(BagGenerator):
                 if len(self.alphas) != n_classes:
                     raise ValueError('the size of alphas parameter does not match the number of classes')
 
-        self.prevalences_ = self.random_state.dirichlet(self.alphas, size=self.n_bags).transpose()
+        self.prevalences_ = self.rng_.dirichlet(self.alphas, size=self.n_bags).transpose()
         self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
 
         for n_bag in range(self.n_bags):
@@ -339,7 +341,7 @@ class PriorShift_BagGenerator(BagGenerator):
                 self.prevalences_[n_cls, n_bag] = n_examples / self.bag_size
 
                 if n_examples != 0:
-                    indexes = self.random_state.choice(np.where(y == cls)[0], n_examples, replace=True)
+                    indexes = self.rng_.choice(np.where(y == cls)[0], n_examples, replace=True)
                     self.indexes_[position:position + len(indexes), n_bag] = indexes
                     position = position + len(indexes)
 
@@ -401,6 +403,7 @@ class CovariateShift_BagGenerator(BagGenerator):
         self.indexes_ = None
         self.y_ = None
         self.default_bag_size_ = False
+        self.rng_ = None
 
     def generate_bags(self, X, y):
         """ Create bags of examples simulating covariate shift
@@ -433,9 +436,10 @@ class CovariateShift_BagGenerator(BagGenerator):
         if self._has_bags_of(y):
             return self.prevalences_, self.indexes_
 
-        if isinstance(self.random_state, (numbers.Integral, np.integer)):
-            self.random_state = np.random.RandomState(self.random_state)
-        if not isinstance(self.random_state, np.random.RandomState):
+        self.rng_ = self.random_state
+        if isinstance(self.rng_, (numbers.Integral, np.integer)):
+            self.rng_ = np.random.RandomState(self.rng_)
+        if not isinstance(self.rng_, np.random.RandomState):
             raise ValueError('Invalid random generaror object')
 
         X, y = check_X_y(X, y)
@@ -448,7 +452,7 @@ class CovariateShift_BagGenerator(BagGenerator):
         self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
 
         #  selecting the center example for each bag
-        centers = self.random_state.randint(0, len(X), self.n_bags)
+        centers = self.rng_.randint(0, len(X), self.n_bags)
 
         for n_bag in range(self.n_bags):
             #  compute similarity using RBF kernel using the default value for gamma 1/num_features
@@ -456,7 +460,7 @@ class CovariateShift_BagGenerator(BagGenerator):
             #  the probability to select an example for the bag is proportional to its similarity
             probs = similarity / np.sum(similarity)
 
-            self.indexes_[:, n_bag] = self.random_state.choice(range(len(X)), self.bag_size, p=probs[0, :])
+            self.indexes_[:, n_bag] = self.rng_.choice(range(len(X)), self.bag_size, p=probs[0, :])
             for n_cls, cls in enumerate(classes):
                 self.prevalences_[n_cls, n_bag] = np.sum(y[self.indexes_[:, n_bag]] == cls) / self.bag_size
 
-- 
2.43.0


From 59149a925c8c0ee7a03abf7f9812c3548628ed25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 46/62] fix: covariate shift bags were reused for other data
 with the same labels

---
 quantificationlib/bag_generator.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index 92e610b..d2061c7 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -26,7 +26,7 @@ class BagGenerator(metaclass=ABCMeta):
     def generate_bags(self, X, y):
         raise NotImplementedError()
 
-    def _has_bags_of(self, y):
+    def _has_bags_of(self, y, X=None):
         """ Check whether the bags already generated can be reused for labels y. It is so when they were generated
             from the same labels and with the current values of n_bags and bag_size
 
@@ -35,11 +35,17 @@ class BagGenerator(metaclass=ABCMeta):
             y : array-like, shape (n_examples, )
                 True classes
 
+            X : array-like, shape (n_examples, n_features), (default=None)
+                Data, only for the generators whose bags depend on them
+
             Returns
             ------
             True if the bags can be reused. Otherwise the labels are stored, because new bags must be generated
         """
         same_labels = self.y_ is not None and np.array_equal(self.y_, y)
+        if X is not None:
+            same_labels = same_labels and np.array_equal(self.X_, X)
+            self.X_ = np.array(X)
         if (same_labels and self.prevalences_ is not None and self.indexes_ is not None
                 and self.indexes_.shape == (self.bag_size, self.n_bags)):
             return True
@@ -402,6 +408,7 @@ class CovariateShift_BagGenerator(BagGenerator):
         self.prevalences_ = None
         self.indexes_ = None
         self.y_ = None
+        self.X_ = None
         self.default_bag_size_ = False
         self.rng_ = None
 
@@ -433,7 +440,7 @@ class CovariateShift_BagGenerator(BagGenerator):
                 When random_state is neither a int nor a RandomState object
         """
 
-        if self._has_bags_of(y):
+        if self._has_bags_of(y, X):
             return self.prevalences_, self.indexes_
 
         self.rng_ = self.random_state
@@ -542,6 +549,7 @@ class PriorAndCovariateShift_BagGenerator(BagGenerator):
         self.prevalences_ = None
         self.indexes_ = None
         self.y_ = None
+        self.X_ = None
         self.default_bag_size_ = False
 
     def generate_bags(self, X, y):
@@ -570,7 +578,7 @@ class PriorAndCovariateShift_BagGenerator(BagGenerator):
                 When random_state is neither a int nor a RandomState object
         """
 
-        if self._has_bags_of(y):
+        if self._has_bags_of(y, X):
             return self.prevalences_, self.indexes_
 
         if self.bag_size is None:
-- 
2.43.0


From 9aa51efac2f55b05a1758c692af25d8f299d6dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:37 +0000
Subject: [PATCH 47/62] fix: solve_hd returned prevalences short of the optimum
 when a bin of the bag is empty (sqrt(test * train p) is degenerate there)

---
 quantificationlib/optimization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index ace0683..d426660 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -117,16 +117,16 @@ def solve_hd(train_distrib, test_distrib, n_classes, problem=None, solver='ECOS'
     if problem is None:
         prevalences = cvxpy.Variable(n_classes, nonneg=True)
         test_d = cvxpy.Parameter(len(test_distrib), nonneg=True)
-        s = cvxpy.multiply(test_d, train_distrib @ prevalences)
-        test_d.value = np.ravel(test_distrib)
-        objective = cvxpy.Minimize(1 - cvxpy.sum(cvxpy.sqrt(s)))
+        # the square roots of the test distribution are used as weights: sqrt(test_d * s) is degenerate for empty bins
+        test_d.value = np.sqrt(np.ravel(test_distrib))
+        objective = cvxpy.Minimize(1 - test_d @ cvxpy.sqrt(train_distrib @ prevalences))
         contraints = [cvxpy.sum(prevalences) == 1]
         problem = cvxpy.Problem(objective, contraints)
         problem.solve(solver=solver)
 
         return problem, np.array(prevalences[0:n_classes].value).squeeze()
     else:
-        problem.parameters()[0].value = np.ravel(test_distrib)
+        problem.parameters()[0].value = np.sqrt(np.ravel(test_distrib))
         problem.solve(warm_start=True, solver=solver)
 
         return problem, list(problem.solution.primal_vars.values())[0]
-- 
2.43.0


From 36c056279e4e83abbe1d89041bd3a27bffbd5b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:21 +0000
Subject: [PATCH 48/62] fix: EoQ returned NaN with the median when no class is
 predicted by half of the quantifiers

---
 quantificationlib/ensembles/eoq.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 8a8f51c..a567e72 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -521,6 +521,9 @@ class EoQ(WithoutClassifiers):
             prediction = prediction / float(np.sum(prediction))
         elif self.combination_strategy == 'median':
             prediction = np.median(prevalences, axis=0)
+            if np.sum(prediction) == 0:
+                # no class is predicted by half of the quantifiers
+                prediction = np.mean(prevalences, axis=0)
             prediction = prediction / float(np.sum(prediction))
         elif self.combination_strategy == 'prevalence_similarity':
             prediction = np.mean(prevalences[prevalence_similarity_selected, :], axis=0)
@@ -534,6 +537,8 @@ class EoQ(WithoutClassifiers):
             m0 = m0 / float(np.sum(m0))
             prediction['mean'] = m0
             m1 = np.median(prevalences, axis=0)
+            if np.sum(m1) == 0:
+                m1 = np.mean(prevalences, axis=0)
             m1 = m1 / float(np.sum(m1))
             prediction['median'] = m1
             m2 = np.mean(prevalences[prevalence_similarity_selected, :], axis=0)
-- 
2.43.0


From dc91ceb6f7ec0e77824f1f305b15b8c139ff9925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:12 +0000
Subject: [PATCH 49/62] fix: the regression quantifiers returned NaN for three
 or more classes when all the regressors predict zero (the binary case raises
 an error)

---
 quantificationlib/multiclass/regression.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index 0d70421..d367a8f 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -232,7 +232,10 @@ class REG(six.with_metaclass(ABCMeta)):
                     prevalences[n_cls] = self.estimators_[n_cls].predict(bagX.reshape(1, -1))
 
             prevalences = np.clip(prevalences, 0, 1)
-            prevalences = prevalences / float(np.sum(prevalences))
+            if np.sum(prevalences) > 0:
+                prevalences = prevalences / float(np.sum(prevalences))
+            else:
+                raise ValueError('predicted prevalences by object of class %s are all 0', self.__class__.__name__)
             return prevalences.reshape(-1)
 
 
-- 
2.43.0


From 7a3269135b51d022a2a7e748857e5c84cb66d9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 50/62] fix: a quantifier that is copied or pickled after
 predicting can predict again

---
 quantificationlib/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/base.py b/quantificationlib/base.py
index 3b5d3f8..0b01d65 100644
--- a/quantificationlib/base.py
+++ b/quantificationlib/base.py
@@ -21,7 +21,12 @@ from sklearn.utils import check_X_y, check_array
 class BaseQuantifier(six.with_metaclass(ABCMeta, BaseEstimator)):
     """ Base class for binary, multiclass and ordinal quantifiers
     """
-    pass
+    def __getstate__(self):
+        # cvxpy problems cannot be used after being copied or pickled, the copy must create its own problem
+        state = dict(super(BaseQuantifier, self).__getstate__())
+        if 'problem_' in state:
+            state['problem_'] = None
+        return state
 
 
 class WithoutClassifiers(BaseQuantifier):
-- 
2.43.0


From 7671c26fc7f5110afce89d6d75e712a673337eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 51/62] fix: SORDy answered when the training set has only one
 class, an error is raised as in DeBias

---
 quantificationlib/binary/emd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/binary/emd.py b/quantificationlib/binary/emd.py
index 51314be..9f3d9ee 100644
--- a/quantificationlib/binary/emd.py
+++ b/quantificationlib/binary/emd.py
@@ -141,7 +141,7 @@ class SORDy(UsingClassifiers):
         """
         super().fit(X, y, predictions_train=predictions_train)
 
-        if len(self.classes_) > 2:
+        if len(self.classes_) != 2:
             raise TypeError("SORDy is a binary method, multiclass quantification is not supported")
 
         if self.verbose > 0:
-- 
2.43.0


From e89ae6e531042f759556d2f22edeed33e8261b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 52/62] fix: labels given as a pandas series are taken by
 position, not by index, in quantifiers of sorted predictions

---
 quantificationlib/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/base.py b/quantificationlib/base.py
index 0b01d65..9593c35 100644
--- a/quantificationlib/base.py
+++ b/quantificationlib/base.py
@@ -260,7 +260,7 @@ class UsingClassifiers(BaseQuantifier):
 
             # Compute y_ext_
             if len(y) == len(self.predictions_train_):
-                self.y_ext_ = y
+                self.y_ext_ = np.asarray(y)
             else:
                 self.y_ext_ = np.tile(y, len(self.predictions_train_) // len(y))
 
-- 
2.43.0


From a08fd1d6df364c141e3decf161cd4031da5cb1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 53/62] fix: labels given as a pandas series or a list are
 taken by position in PWK

---
 quantificationlib/estimators/weighted_knn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/estimators/weighted_knn.py b/quantificationlib/estimators/weighted_knn.py
index 2701819..bb4514b 100644
--- a/quantificationlib/estimators/weighted_knn.py
+++ b/quantificationlib/estimators/weighted_knn.py
@@ -109,11 +109,11 @@ class PWK(BaseEstimator, ClassifierMixin):
             y : array-like, shape (n_examples, )
                 True classes
         """
-        self.y_ = y
+        self.y_ = np.asarray(y)
         self.classes_ = np.unique(y)
         self.weights_ = np.ones(X.shape[0])
         for n_cls, cls in enumerate(self.classes_):
-            self.weights_[y == cls] = 1 - (np.sum(self.y_ == cls) / X.shape[0])
+            self.weights_[self.y_ == cls] = 1 - (np.sum(self.y_ == cls) / X.shape[0])
 
         self.knn_.set_params(**self.get_params())
         self.knn_.fit(X, y)
-- 
2.43.0


From c76207c1fd0a443db9faaa00a83ba1daca4eff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 54/62] fix: labels given as a pandas series or a list are
 taken by position in EoQ

---
 quantificationlib/ensembles/eoq.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index a567e72..093ee3f 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -218,6 +218,7 @@ class EoQ(WithoutClassifiers):
             raise ValueError("Class %s: quantifier must be an object of a class derived from BaseQuantifier"
                              % self.__class__.__name__)
 
+        y = np.asarray(y)
         self.classes_ = np.unique(y)
         n_classes = len(self.classes_)
 
-- 
2.43.0


From a07d0cb4f9a2e0449c1e4d7929ce1cfcd33e6212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 55/62] fix: CovariateShift_BagGenerator generates 1000 bags by
 default, as documented

---
 quantificationlib/bag_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index d2061c7..6f1755d 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -397,7 +397,7 @@ class CovariateShift_BagGenerator(BagGenerator):
             i-th column contains the indexes of the examples for i-th bag
     """
 
-    def __init__(self, n_bags=1001, bag_size=None, random_state=2032, verbose=0):
+    def __init__(self, n_bags=1000, bag_size=None, random_state=2032, verbose=0):
 
         # attributes
         self.n_bags = n_bags
-- 
2.43.0


From d5c729f5ea4f831a0a7db64690166abd2622ab4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:29 +0000
Subject: [PATCH 56/62] fix: load_data reads files with a single example

---
 quantificationlib/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/data_utils.py b/quantificationlib/data_utils.py
index b7ea5bc..0b3529f 100644
--- a/quantificationlib/data_utils.py
+++ b/quantificationlib/data_utils.py
@@ -20,7 +20,7 @@ def normalize(X_train, X_test):
 
 
 def load_data(dfile):
-    data = np.genfromtxt(dfile, delimiter=',')
+    data = np.genfromtxt(dfile, delimiter=',', ndmin=2)
 
     X = data[:, :-1]
     y = data[:, -1].astype(int)
-- 
2.43.0


From 4325f9ed6d0ffd447ca44ad3373048a361eac5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:32 +0000
Subject: [PATCH 57/62] fix: crisp predictions of three or more classes with
 real labels are not taken for binary probabilities

---
 quantificationlib/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/base.py b/quantificationlib/base.py
index 9593c35..4f99e2e 100644
--- a/quantificationlib/base.py
+++ b/quantificationlib/base.py
@@ -337,7 +337,7 @@ class UsingClassifiers(BaseQuantifier):
         if preds.ndim == 1 or preds.shape[1] == 1:
             #  binary problem
             preds_mod = np.copy(preds).ravel()
-            if isinstance(preds_mod[0], (float, np.floating)):
+            if len(labels) == 2 and isinstance(preds_mod[0], (float, np.floating)):
                 # it contains probs
                 return labels.take((preds_mod >= 0.5).astype(int), axis=0)
             else:
-- 
2.43.0


From 054e2c8a67e0adb58f61ab13ab8bebc20e4dae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:59 +0000
Subject: [PATCH 58/62] fix: predictions that are undefined, empty or do not
 match the examples or the classes are refused

---
 quantificationlib/base.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/base.py b/quantificationlib/base.py
index 4f99e2e..81b6b56 100644
--- a/quantificationlib/base.py
+++ b/quantificationlib/base.py
@@ -194,7 +194,8 @@ class UsingClassifiers(BaseQuantifier):
             Raises
             ------
             ValueError
-                When estimator_train and predictions_train are both None
+                When estimator_train and predictions_train are both None, or when predictions_train are undefined or
+                do not match the examples
         """
         self.classes_ = np.unique(y)
 
@@ -248,6 +249,10 @@ class UsingClassifiers(BaseQuantifier):
 
         if self.needs_predictions_train:
             if predictions_train is not None:
+                UsingClassifiers.__check_predictions(predictions_train)
+                if len(predictions_train) % len(y) != 0:
+                    raise ValueError('predictions_train must have one or several predictions per example, '
+                                     '%d for %d examples' % (len(predictions_train), len(y)))
                 if self.probabilistic_predictions:
                     self.predictions_train_ = predictions_train
                 else:
@@ -292,7 +297,8 @@ class UsingClassifiers(BaseQuantifier):
             Raises
             ------
             ValueError
-                When estimator_test and predictions_test are both None
+                When estimator_test and predictions_test are both None, or when predictions_test are undefined, empty
+                or do not match the classes
         """
         if self.estimator_test is None and predictions_test is None:
             raise ValueError("estimator_test or predictions_test must be not None "
@@ -303,7 +309,11 @@ class UsingClassifiers(BaseQuantifier):
 
         # At least one between estimator_test and predictions_test is not None
         if predictions_test is not None:
+            UsingClassifiers.__check_predictions(predictions_test)
             if self.probabilistic_predictions:
+                if predictions_test.ndim != 2 or predictions_test.shape[1] != len(self.classes_):
+                    raise ValueError('predictions_test must have one column per class, its shape is %s'
+                                     % (predictions_test.shape,))
                 self.predictions_test_ = predictions_test
             else:
                 self.predictions_test_ = UsingClassifiers.__probs2crisps(predictions_test, self.classes_)
@@ -319,6 +329,17 @@ class UsingClassifiers(BaseQuantifier):
 
         return self
 
+    @staticmethod
+    def __check_predictions(preds):
+        """ Check that there are predictions and that all of them are defined
+
+            Parameters
+            ----------
+            preds : ndarray
+                Predictions given by the user, probabilities or labels
+        """
+        check_array(preds, ensure_2d=False, allow_nd=True, dtype=None)
+
     @staticmethod
     def __probs2crisps(preds, labels):
         """ Convert probability predictions to crisp predictions
@@ -344,4 +365,6 @@ class UsingClassifiers(BaseQuantifier):
                 return preds_mod
         else:
             # multiclass problem
+            if preds.shape[1] != len(labels):
+                raise ValueError('the predictions must have one column per class, their shape is %s' % (preds.shape,))
             return labels.take(preds.argmax(axis=1), axis=0)
-- 
2.43.0


From 26a76cd2704f6aa28f3719c7300429c645774d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:04 +0000
Subject: [PATCH 59/62] fix: prevalences of the energy distance stay in the
 simplex when the classes are close compared to the bag

---
 quantificationlib/optimization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index d426660..4fd90df 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -420,7 +420,11 @@ def solve_ed(G, a, C, b):
     sol = quadprog.solve_qp(G=G / scale, a=a / scale, C=C, b=b)
     prevalences = sol[0]
     # the last class was removed from the problem, its prevalence is 1 - the sum of prevalences for the other classes
-    return np.append(prevalences, 1 - prevalences.sum())
+    prevalences = np.append(prevalences, 1 - prevalences.sum())
+    # the constraints hold up to the precision of the solver, which is poor when the distances between the classes are
+    # much smaller than their distances to the bag
+    prevalences = np.clip(prevalences, 0, 1)
+    return prevalences / prevalences.sum()
 
 
 def compute_ed_param_train(distance_func, train_distrib, classes, n_cls_i):
-- 
2.43.0


From e58bf4e9ee93596791b12473bdf9d8514c9156a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:20 +0000
Subject: [PATCH 60/62] fix: equal_count limits of small integer features do
 not overflow

---
 quantificationlib/multiclass/df.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index 5bb5254..b73973e 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -703,7 +703,7 @@ def compute_bincuts(x, y=None, classes=None, n_bins=8, bin_strategy='equal_width
         bincuts[-1] = np.inf
         bincuts[1:-1] = np.histogram_bin_edges(x, bins=n_bins, range=att_range)[1:-1]
     elif bin_strategy == 'equal_count':
-        sorted_values = np.sort(x)
+        sorted_values = np.sort(np.asarray(x, dtype=float))   # the sum of two small integers may overflow
         bincuts = np.zeros(n_bins + 1)
         bincuts[0] = -np.inf
         bincuts[-1] = np.inf
-- 
2.43.0


From 84402a78a9afe03c00cd802662c96d3e0fe74b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:58 +0000
Subject: [PATCH 61/62] fix: predictions for other classes than those of the
 training set are refused

---
 quantificationlib/base.py                     | 23 ++++++++++++++++---
 quantificationlib/decomposition/multiclass.py |  1 +
 quantificationlib/decomposition/ordinal.py    |  5 ++++
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/base.py b/quantificationlib/base.py
index 81b6b56..5bf1d6c 100644
--- a/quantificationlib/base.py
+++ b/quantificationlib/base.py
@@ -262,6 +262,7 @@ class UsingClassifiers(BaseQuantifier):
                     self.predictions_train_ = self.estimator_train.predict_proba(X)
                 else:
                     self.predictions_train_ = self.estimator_train.predict(X)
+            self._check_classes(self.predictions_train_)
 
             # Compute y_ext_
             if len(y) == len(self.predictions_train_):
@@ -311,9 +312,6 @@ class UsingClassifiers(BaseQuantifier):
         if predictions_test is not None:
             UsingClassifiers.__check_predictions(predictions_test)
             if self.probabilistic_predictions:
-                if predictions_test.ndim != 2 or predictions_test.shape[1] != len(self.classes_):
-                    raise ValueError('predictions_test must have one column per class, its shape is %s'
-                                     % (predictions_test.shape,))
                 self.predictions_test_ = predictions_test
             else:
                 self.predictions_test_ = UsingClassifiers.__probs2crisps(predictions_test, self.classes_)
@@ -323,12 +321,31 @@ class UsingClassifiers(BaseQuantifier):
                 self.predictions_test_ = self.estimator_test.predict_proba(X)
             else:
                 self.predictions_test_ = self.estimator_test.predict(X)
+        self._check_classes(self.predictions_test_)
 
         if self.verbose > 0:
             print('done')
 
         return self
 
+    def _valid_columns(self):
+        """ Numbers of columns that the probabilities given by the user may have """
+        return [len(self.classes_)]
+
+    def _check_classes(self, preds):
+        """ Check that the predictions match the classes of the training set
+
+            Parameters
+            ----------
+            preds : ndarray
+                Predictions, probabilities (one column per class) or labels
+        """
+        if self.probabilistic_predictions:
+            if np.ndim(preds) != 2 or np.shape(preds)[1] not in self._valid_columns():
+                raise ValueError('the predictions must have one column per class, their shape is %s' % (np.shape(preds),))
+        elif not np.isin(preds, self.classes_).all():
+            raise ValueError('there are predictions that are not classes of the training set')
+
     @staticmethod
     def __check_predictions(preds):
         """ Check that there are predictions and that all of them are defined
diff --git a/quantificationlib/decomposition/multiclass.py b/quantificationlib/decomposition/multiclass.py
index db5b1d7..83568dc 100644
--- a/quantificationlib/decomposition/multiclass.py
+++ b/quantificationlib/decomposition/multiclass.py
@@ -193,6 +193,7 @@ class OneVsRestQuantifier(UsingClassifiers):
                 for i in range(len(self.classes_)):
                     prevalences[i] = self.quantifiers_[i].predict(X)[1]
             else:
+                self._check_classes(predictions_test)
                 for i in range(len(self.classes_)):
                     preds = np.array([1 - predictions_test[:, i], predictions_test[:, i]]).T
                     prevalences[i] = self.quantifiers_[i].predict(X, predictions_test=preds)[1]
diff --git a/quantificationlib/decomposition/ordinal.py b/quantificationlib/decomposition/ordinal.py
index 3894260..2af81f9 100644
--- a/quantificationlib/decomposition/ordinal.py
+++ b/quantificationlib/decomposition/ordinal.py
@@ -174,6 +174,10 @@ class FrankAndHallQuantifier(UsingClassifiers):
                     self.quantifiers_[i].fit(X, y_bin_fh[:, i], predictions_train=preds)
         return self
 
+    def _valid_columns(self):
+        """ One column per binary problem, and maybe another one for the group with all the classes """
+        return [len(self.classes_) - 1, len(self.classes_)]
+
     def predict(self, X, predictions_test=None):
         """ Aggregates the prevalences of the `quantifiers_` to compute the final prediction
 
@@ -240,6 +244,7 @@ class FrankAndHallQuantifier(UsingClassifiers):
                 for i in range(n_classes - 1):
                     leftgroup_prevalences[i] = self.quantifiers_[i].predict(X)[1]
             else:
+                self._check_classes(predictions_test)
                 for i in range(n_classes - 1):
                     preds = np.array([1 - predictions_test[:, i], predictions_test[:, i]]).T
                     leftgroup_prevalences[i] = self.quantifiers_[i].predict(X, predictions_test=preds)[1]
-- 
2.43.0


From 60263b8417adcaeecacd722cbc83477d883aa127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:26 +0000
Subject: [PATCH 62/62] fix: undefined or infinite features of the test bag are
 refused by REGX

---
 quantificationlib/multiclass/regression.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index d367a8f..713c932 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -11,6 +11,7 @@ from quantificationlib.bag_generator import PriorShift_BagGenerator
 from quantificationlib.multiclass.df import compute_bincuts
 
 from sklearn.linear_model import LinearRegression
+from sklearn.utils import check_array
 
 
 class REG(six.with_metaclass(ABCMeta)):
@@ -384,6 +385,8 @@ class REGX(WithoutClassifiers, REG):
         if self.verbose > 0:
             print('Class %s: Estimating prevalences for testing distribution...' % self.__class__.__name__, end='')
 
+        check_array(X, accept_sparse=True)
+
         n_examples = X.shape[0]
         if len(X.shape) == 1:
             n_features = 1
-- 
2.43.0

