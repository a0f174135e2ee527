From c8356ae9c65a225a8aef63a89c206d1a05e0606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:09 +0000
Subject: [PATCH 01/67] fix: do not use np.int, which numpy removed, when
 normalizing integers

Integer and Categorical dimensions could not be transformed to or from the
normalized space at all (AttributeError), which broke the default GP
optimizer and every initial point generator for them.
---
 skopt/space/transformers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/space/transformers.py b/skopt/space/transformers.py
index 6889295..f2dfb16 100644
--- a/skopt/space/transformers.py
+++ b/skopt/space/transformers.py
@@ -259,7 +259,7 @@ class Normalize(Transformer):
         if (self.high - self.low) == 0.:
             return X * 0.
         if self.is_int:
-            return (np.round(X).astype(np.int) - self.low) /\
+            return (np.round(X).astype(int) - self.low) /\
                    (self.high - self.low)
         else:
             return (X - self.low) / (self.high - self.low)
@@ -272,7 +272,7 @@ class Normalize(Transformer):
             raise ValueError("All values should be greater than 0.0")
         X_orig = X * (self.high - self.low) + self.low
         if self.is_int:
-            return np.round(X_orig).astype(np.int)
+            return np.round(X_orig).astype(int)
         return X_orig
 
 
-- 
2.43.0


From 5686d8b03e4744ab3c28256a2116abd607693665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:35 +0000
Subject: [PATCH 02/67] fix: use the criterion and max_features names
 scikit-learn accepts in forests

The defaults 'mse' and 'auto' were removed from scikit-learn (1.2 and 1.3), so
no random forest or extra trees surrogate could be fitted at all.
---
 skopt/learning/forest.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/skopt/learning/forest.py b/skopt/learning/forest.py
index 096770c..0d6dea3 100644
--- a/skopt/learning/forest.py
+++ b/skopt/learning/forest.py
@@ -61,7 +61,7 @@ class RandomForestRegressor(_sk_RandomForestRegressor):
     n_estimators : integer, optional (default=10)
         The number of trees in the forest.
 
-    criterion : string, optional (default="mse")
+    criterion : string, optional (default="squared_error")
         The function to measure the quality of a split. Supported criteria
         are "mse" for the mean squared error, which is equal to variance
         reduction as feature selection criterion, and "mae" for the mean
@@ -194,9 +194,9 @@ class RandomForestRegressor(_sk_RandomForestRegressor):
     .. [1] L. Breiman, "Random Forests", Machine Learning, 45(1), 5-32, 2001.
 
     """
-    def __init__(self, n_estimators=10, criterion='mse', max_depth=None,
+    def __init__(self, n_estimators=10, criterion='squared_error', max_depth=None,
                  min_samples_split=2, min_samples_leaf=1,
-                 min_weight_fraction_leaf=0.0, max_features='auto',
+                 min_weight_fraction_leaf=0.0, max_features=1.0,
                  max_leaf_nodes=None, min_impurity_decrease=0.,
                  bootstrap=True, oob_score=False,
                  n_jobs=1, random_state=None, verbose=0, warm_start=False,
@@ -239,9 +239,10 @@ class RandomForestRegressor(_sk_RandomForestRegressor):
         mean = super(RandomForestRegressor, self).predict(X)
 
         if return_std:
-            if self.criterion != "mse":
+            if self.criterion != "squared_error":
                 raise ValueError(
-                    "Expected impurity to be 'mse', got %s instead"
+                    "Expected impurity to be 'squared_error', got %s "
+                    "instead"
                     % self.criterion)
             std = _return_std(X, self.estimators_, mean, self.min_variance)
             return mean, std
@@ -257,7 +258,7 @@ class ExtraTreesRegressor(_sk_ExtraTreesRegressor):
     n_estimators : integer, optional (default=10)
         The number of trees in the forest.
 
-    criterion : string, optional (default="mse")
+    criterion : string, optional (default="squared_error")
         The function to measure the quality of a split. Supported criteria
         are "mse" for the mean squared error, which is equal to variance
         reduction as feature selection criterion, and "mae" for the mean
@@ -390,9 +391,9 @@ class ExtraTreesRegressor(_sk_ExtraTreesRegressor):
     .. [1] L. Breiman, "Random Forests", Machine Learning, 45(1), 5-32, 2001.
 
     """
-    def __init__(self, n_estimators=10, criterion='mse', max_depth=None,
+    def __init__(self, n_estimators=10, criterion='squared_error', max_depth=None,
                  min_samples_split=2, min_samples_leaf=1,
-                 min_weight_fraction_leaf=0.0, max_features='auto',
+                 min_weight_fraction_leaf=0.0, max_features=1.0,
                  max_leaf_nodes=None, min_impurity_decrease=0.,
                  bootstrap=False, oob_score=False,
                  n_jobs=1, random_state=None, verbose=0, warm_start=False,
@@ -435,9 +436,10 @@ class ExtraTreesRegressor(_sk_ExtraTreesRegressor):
         mean = super(ExtraTreesRegressor, self).predict(X)
 
         if return_std:
-            if self.criterion != "mse":
+            if self.criterion != "squared_error":
                 raise ValueError(
-                    "Expected impurity to be 'mse', got %s instead"
+                    "Expected impurity to be 'squared_error', got %s "
+                    "instead"
                     % self.criterion)
             std = _return_std(X, self.estimators_, mean, self.min_variance)
             return mean, std
-- 
2.43.0


From e08dfa20cd411189b5f6bb488aa96606f41a6085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 03/67] fix: StringEncoder gives back the categories it was
 fitted on (bool)

---
 skopt/space/transformers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skopt/space/transformers.py b/skopt/space/transformers.py
index f2dfb16..01a710b 100644
--- a/skopt/space/transformers.py
+++ b/skopt/space/transformers.py
@@ -37,6 +37,7 @@ class StringEncoder(Transformer):
     def __init__(self, dtype=str):
         super(StringEncoder, self).__init__()
         self.dtype = dtype
+        self.mapping_ = {}
 
     def fit(self, X):
         """Fit a list or array of categories. All elements must be from the
@@ -49,6 +50,8 @@ class StringEncoder(Transformer):
         """
         if len(X) > 0:
             self.dtype = type(X[0])
+        # casting does not undo str() for every type, e.g. bool("False")
+        self.mapping_ = {str(x): x for x in X}
 
     def transform(self, X):
         """Transform an array of categories to a string encoded representation.
@@ -79,7 +82,8 @@ class StringEncoder(Transformer):
         X : array-like, shape=(n_samples,)
             The original categories.
         """
-        return [self.dtype(x) for x in Xt]
+        return [self.mapping_[x] if x in self.mapping_ else self.dtype(x)
+                for x in Xt]
 
 
 class LogN(Transformer):
-- 
2.43.0


From 770efe3b9b5b6f538647135f7402c3096a85d3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:17 +0000
Subject: [PATCH 04/67] fix: encoders and Categorical keep the types of mixed
 categories

---
 skopt/space/space.py        | 5 ++++-
 skopt/space/transformers.py | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 329b0c1..b8dcc0e 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -684,7 +684,10 @@ class Categorical(Dimension):
         # of type float, hence the required cast back to int.
         inv_transform = super(Categorical, self).inverse_transform(Xt)
         if isinstance(inv_transform, list):
-            inv_transform = np.array(inv_transform)
+            # an array of one type would turn e.g. [1, 'a'] into strings
+            mixed = len(set(type(c) for c in self.categories)) > 1
+            inv_transform = np.array(inv_transform,
+                                     dtype=object if mixed else None)
         return inv_transform
 
     def rvs(self, n_samples=None, random_state=None):
diff --git a/skopt/space/transformers.py b/skopt/space/transformers.py
index 01a710b..50804cb 100644
--- a/skopt/space/transformers.py
+++ b/skopt/space/transformers.py
@@ -170,7 +170,9 @@ class LabelEncoder(Transformer):
         X : array-like, shape=(n_categories,)
             List of categories.
         """
-        X = np.asarray(X)
+        # an array of one type would turn e.g. [1, 'a'] into strings
+        mixed = len(set(type(v) for v in X)) > 1
+        X = np.asarray(X, dtype=object if mixed else None)
         if X.dtype == object:
             self.mapping_ = {v: i for i, v in enumerate(X)}
         else:
@@ -196,7 +198,6 @@ class LabelEncoder(Transformer):
         Xt : array-like, shape=(n_samples, n_categories)
             The integer categories.
         """
-        X = np.asarray(X)
         return [self.mapping_[v] for v in X]
 
     def inverse_transform(self, Xt):
-- 
2.43.0


From 71aa6b202245bdfc1beef048ec299a954eb139f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 05/67] fix: transformed_bounds of a log-uniform Real are in
 its base

---
 skopt/space/space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index b8dcc0e..2222c16 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -371,7 +371,8 @@ class Real(Dimension):
             if self.prior == "uniform":
                 return self.low, self.high
             else:
-                return np.log10(self.low), np.log10(self.high)
+                return (np.log10(self.low) / self.log_base,
+                        np.log10(self.high) / self.log_base)
 
     def distance(self, a, b):
         """Compute distance between point `a` and `b`.
-- 
2.43.0


From ae65f3afb3fb16312d0caa38353d89e208f36d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 06/67] fix: transformed_bounds of a log-uniform Integer are
 logarithms

---
 skopt/space/space.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 2222c16..2f3c030 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -556,7 +556,11 @@ class Integer(Dimension):
         if self.transform_ == "normalize":
             return 0., 1.
         else:
-            return (self.low, self.high)
+            if self.prior == "uniform":
+                return (self.low, self.high)
+            else:
+                return (np.log10(self.low) / self.log_base,
+                        np.log10(self.high) / self.log_base)
 
     def distance(self, a, b):
         """Compute distance between point `a` and `b`.
-- 
2.43.0


From 7b065d5f176217cc6b22493072163aac046e8fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 07/67] fix: transformed_bounds of label and identity encoded
 Categoricals

---
 skopt/space/space.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 2f3c030..bda51ac 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -729,7 +729,12 @@ class Categorical(Dimension):
 
     @property
     def transformed_bounds(self):
-        if self.transformed_size == 1:
+        if self.transform_ == "label":
+            return 0.0, float(len(self.categories) - 1)
+        elif self.transform_ == "identity" and \
+                all(isinstance(c, numbers.Real) for c in self.categories):
+            return float(min(self.categories)), float(max(self.categories))
+        elif self.transformed_size == 1:
             return 0.0, 1.0
         else:
             return [(0.0, 1.0) for i in range(self.transformed_size)]
-- 
2.43.0


From f1db70da2bfe0d895665582a8b285a1d7ab1f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 08/67] fix: Real of a narrower float type stays within its
 bounds after the cast

---
 skopt/space/space.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index bda51ac..f8fb3ca 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -344,6 +344,13 @@ class Real(Dimension):
             inv_transform = np.array(inv_transform)
         inv_transform = np.clip(inv_transform,
                                 self.low, self.high).astype(self.dtype)
+        # casting to a narrower type can round a value out of the bounds
+        low, high = inv_transform.dtype.type([self.low, self.high])
+        if float(low) < self.low:
+            low = np.nextafter(low, high)
+        if float(high) > self.high:
+            high = np.nextafter(high, low)
+        inv_transform = np.clip(inv_transform, low, high)
         if self.dtype == float or self.dtype == 'float':
             # necessary, otherwise the type is converted to a numpy type
             return getattr(inv_transform, "tolist", lambda: value)()
-- 
2.43.0


From 09d2bdb6e695a71d03b0196b7481d1de0bdb4a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 09/67] fix: Normalize scales in double precision

---
 skopt/space/transformers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skopt/space/transformers.py b/skopt/space/transformers.py
index 50804cb..981e2d1 100644
--- a/skopt/space/transformers.py
+++ b/skopt/space/transformers.py
@@ -246,7 +246,8 @@ class Normalize(Transformer):
         self._eps = 1e-8
 
     def transform(self, X):
-        X = np.asarray(X)
+        # scale in double precision, whatever the float type of X is
+        X = np.asarray(X, dtype=None if self.is_int else float)
         if self.is_int:
             if np.any(np.round(X) > self.high):
                 raise ValueError("All integer values should"
-- 
2.43.0


From 336f1e1d73b058616d2eb2c06e98493de2b46964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 10/67] fix: a normalized Categorical is sampled from its prior

---
 skopt/space/space.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index f8fb3ca..a826fab 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -662,13 +662,10 @@ class Categorical(Dimension):
         else:
             self.transformer = Identity()
             self.transformer.fit(self.categories)
-        if transform == "normalize":
-            self._rvs = _uniform_inclusive(0.0, 1.0)
-        else:
-            # XXX check that sum(prior) == 1
-            self._rvs = rv_discrete(
-                values=(range(len(self.categories)), self.prior_)
-            )
+        # XXX check that sum(prior) == 1
+        self._rvs = rv_discrete(
+            values=(range(len(self.categories)), self.prior_)
+        )
 
     def __eq__(self, other):
         return (type(self) is type(other) and
@@ -705,12 +702,11 @@ class Categorical(Dimension):
     def rvs(self, n_samples=None, random_state=None):
         choices = self._rvs.rvs(size=n_samples, random_state=random_state)
 
-        if isinstance(choices, numbers.Integral):
+        if self.transform_ == "normalize":
+            samples = [self.categories[c] for c in np.atleast_1d(choices)]
+            return self.inverse_transform(self.transform(samples))
+        elif isinstance(choices, numbers.Integral):
             return self.categories[choices]
-        elif self.transform_ == "normalize" and isinstance(choices, float):
-            return self.inverse_transform([(choices)])
-        elif self.transform_ == "normalize":
-            return self.inverse_transform(list(choices))
         else:
             return [self.categories[c] for c in choices]
 
-- 
2.43.0


From 8c1a7538b89628f1e0a1b50ddeefeaf832c5d91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 11/67] fix: a normalized Integer is sampled uniformly, its
 ends included

---
 skopt/space/space.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index a826fab..c3ab5ca 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -518,6 +518,16 @@ class Integer(Dimension):
                     np.log10(self.low) / self.log_base)
                 self.transformer = LogN(self.base)
 
+    def rvs(self, n_samples=1, random_state=None):
+        if self.transform_ != "normalize" or self.prior != "uniform":
+            return super(Integer, self).rvs(n_samples, random_state)
+        rng = check_random_state(random_state)
+        # rounding as inverse_transform does would halve the weight of the ends
+        samples = self._rvs.rvs(size=n_samples, random_state=rng)
+        samples = np.floor(samples * (self.high - self.low + 1)) + self.low
+        samples = np.clip(samples, self.low, self.high)
+        return self.inverse_transform(self.transform(samples))
+
     def __eq__(self, other):
         return (type(self) is type(other) and
                 np.allclose([self.low], [other.low]) and
-- 
2.43.0


From 5037a9e2017f177258c7eab17702373f4a698efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:43 +0000
Subject: [PATCH 12/67] fix: spaces with different numbers of dimensions are
 not equal

---
 skopt/space/space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index c3ab5ca..1e02285 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -797,7 +797,9 @@ class Space(object):
         self.dimensions = [check_dimension(dim) for dim in dimensions]
 
     def __eq__(self, other):
-        return all([a == b for a, b in zip(self.dimensions, other.dimensions)])
+        return (len(self.dimensions) == len(other.dimensions) and
+                all([a == b for a, b in zip(self.dimensions,
+                                            other.dimensions)]))
 
     def __repr__(self):
         if len(self.dimensions) > 31:
-- 
2.43.0


From 2fab520e26bcfc4f38329a52cb9d952ef181e62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 13/67] fix: Lhs makes an empty design when no points are asked
 for

---
 skopt/sampler/lhs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/sampler/lhs.py b/skopt/sampler/lhs.py
index d63a15b..ba7d5fc 100644
--- a/skopt/sampler/lhs.py
+++ b/skopt/sampler/lhs.py
@@ -15,7 +15,7 @@ def _random_permute_matrix(h, random_state=None):
     h_rand_perm = np.zeros_like(h)
     samples, n = h.shape
     for j in range(n):
-        order = rng.permutation(range(samples))
+        order = rng.permutation(samples)
         h_rand_perm[:, j] = h[order, j]
     return h_rand_perm
 
@@ -79,7 +79,7 @@ class Lhs(InitialPointGenerator):
         transformer = space.get_transformer()
         n_dim = space.n_dims
         space.set_transformer("normalize")
-        if self.criterion is None or n_samples == 1:
+        if self.criterion is None or n_samples <= 1:
             h = self._lhs_normalized(n_dim, n_samples, rng)
             h = space.inverse_transform(h)
             space.set_transformer(transformer)
-- 
2.43.0


From 59ca8549b128b544a4ecdf064136464c30b78db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 14/67] fix: Halton accepts more primes than dimensions

---
 skopt/sampler/halton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/sampler/halton.py b/skopt/sampler/halton.py
index 7a3eeb8..8d52fd2 100644
--- a/skopt/sampler/halton.py
+++ b/skopt/sampler/halton.py
@@ -82,7 +82,7 @@ class Halton(InitialPointGenerator):
                 primes = _create_primes(prime_order)
                 prime_order *= 2
 
-            primes = primes[:n_dim]
+        primes = primes[:n_dim]
         assert len(primes) == n_dim, "not enough primes"
 
         if self.min_skip == self.max_skip:
-- 
2.43.0


From acfeee549b09f7d20f89c8a60aca12fc6eff72d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 15/67] fix: Halton takes the larger of a negative and a
 positive skip

---
 skopt/sampler/halton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/sampler/halton.py b/skopt/sampler/halton.py
index 8d52fd2..c123a43 100644
--- a/skopt/sampler/halton.py
+++ b/skopt/sampler/halton.py
@@ -90,7 +90,7 @@ class Halton(InitialPointGenerator):
         elif self.min_skip < 0 and self.max_skip < 0:
             skip = max(primes)
         elif self.min_skip < 0 or self.max_skip < 0:
-            skip = np.max(self.min_skip, self.max_skip)
+            skip = max(self.min_skip, self.max_skip)
         else:
             skip = rng.randint(self.min_skip, self.max_skip)
 
-- 
2.43.0


From 31cbdf6ee4377bfc937696a76c4ff2985b1ad07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 16/67] fix: Grid(border='only') selects points at the border

---
 skopt/sampler/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/sampler/grid.py b/skopt/sampler/grid.py
index 2e90d7a..e5ee9c7 100644
--- a/skopt/sampler/grid.py
+++ b/skopt/sampler/grid.py
@@ -137,7 +137,7 @@ class Grid(InitialPointGenerator):
                 order = int(np.ceil(n_samples / 2.))
             if order < 2:
                 order = 2
-            h = _create_uniform_grid_exclude_border(n_dim, order)
+            h = _create_uniform_grid_only_border(n_dim, order)
         else:
             raise ValueError("Wrong value for border")
         if np.size(h, 0) > n_samples:
-- 
2.43.0


From 246fd08ec4af6cf2f3342f5d60f020fc5e439c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:42 +0000
Subject: [PATCH 17/67] fix: Grid makes as many points as asked, in any number
 of dimensions

---
 skopt/sampler/grid.py | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/skopt/sampler/grid.py b/skopt/sampler/grid.py
index e5ee9c7..f994198 100644
--- a/skopt/sampler/grid.py
+++ b/skopt/sampler/grid.py
@@ -25,6 +25,22 @@ def _quadrature_combine(args):
     return out
 
 
+def _full_order(n_samples, n_dim):
+    """Largest order of a full factorial design of at most n_samples."""
+    order = int(np.round(n_samples ** (1. / n_dim)))
+    if order ** n_dim > n_samples:
+        order -= 1
+    return order
+
+
+def _next_order(n_samples, n_dim):
+    """Smallest order of a full factorial design of at least n_samples."""
+    order = _full_order(n_samples, n_dim)
+    if order ** n_dim < n_samples:
+        order += 1
+    return order
+
+
 def _create_uniform_grid_exclude_border(n_dim, order):
     assert order > 0
     assert n_dim > 0
@@ -113,28 +129,30 @@ class Grid(InitialPointGenerator):
         n_dim = space.n_dims
         transformer = space.get_transformer()
         space.set_transformer("normalize")
+        # only the last dimension of the border layout has inner points
+        n_sides = 2. ** (n_dim - 1)
 
         if self.border == "include":
             if self.use_full_layout:
-                order = int(np.floor(np.sqrt(n_samples)))
+                order = _full_order(n_samples, n_dim)
             else:
-                order = int(np.ceil(np.sqrt(n_samples)))
+                order = _next_order(n_samples, n_dim)
             if order < 2:
                 order = 2
             h = _create_uniform_grid_include_border(n_dim, order)
         elif self.border == "exclude":
             if self.use_full_layout:
-                order = int(np.floor(np.sqrt(n_samples)))
+                order = _full_order(n_samples, n_dim)
             else:
-                order = int(np.ceil(np.sqrt(n_samples)))
+                order = _next_order(n_samples, n_dim)
             if order < 1:
                 order = 1
             h = _create_uniform_grid_exclude_border(n_dim, order)
         elif self.border == "only":
             if self.use_full_layout:
-                order = int(np.floor(n_samples / 2.))
+                order = int(np.floor(n_samples / n_sides))
             else:
-                order = int(np.ceil(n_samples / 2.))
+                order = int(np.ceil(n_samples / n_sides))
             if order < 2:
                 order = 2
             h = _create_uniform_grid_only_border(n_dim, order)
@@ -145,17 +163,17 @@ class Grid(InitialPointGenerator):
             h = h[:n_samples, :]
         elif np.size(h, 0) < n_samples:
             if self.append_border == "only":
-                order = int(np.ceil((n_samples - np.size(h, 0)) / 2.))
+                order = int(np.ceil((n_samples - np.size(h, 0)) / n_sides))
                 if order < 2:
                     order = 2
                 h2 = _create_uniform_grid_only_border(n_dim, order)
             elif self.append_border == "include":
-                order = int(np.ceil(np.sqrt(n_samples - np.size(h, 0))))
+                order = _next_order(n_samples - np.size(h, 0), n_dim)
                 if order < 2:
                     order = 2
                 h2 = _create_uniform_grid_include_border(n_dim, order)
             elif self.append_border == "exclude":
-                order = int(np.ceil(np.sqrt(n_samples - np.size(h, 0))))
+                order = _next_order(n_samples - np.size(h, 0), n_dim)
                 if order < 1:
                     order = 1
                 h2 = _create_uniform_grid_exclude_border(n_dim, order)
-- 
2.43.0


From 6f476a0ce7ecb41b55d7a69fd686be88df165966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:23 +0000
Subject: [PATCH 18/67] fix: a multi-output regressor has gradients only if its
 estimator has

---
 skopt/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skopt/utils.py b/skopt/utils.py
index a27e62c..4e28f1d 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -5,6 +5,7 @@ import numpy as np
 from scipy.optimize import OptimizeResult
 from scipy.optimize import minimize as sp_minimize
 from sklearn.base import is_regressor
+from sklearn.multioutput import MultiOutputRegressor
 from sklearn.ensemble import GradientBoostingRegressor
 from joblib import dump as dump_
 from joblib import load as load_
@@ -319,6 +320,10 @@ def has_gradients(estimator):
     if isinstance(estimator, tree_estimators):
         return False
 
+    # one copy of the wrapped estimator per output, e.g. for "EIps"
+    if isinstance(estimator, MultiOutputRegressor):
+        return has_gradients(estimator.estimator)
+
     categorical_gp = False
     if hasattr(estimator, "kernel"):
         params = estimator.get_params()
-- 
2.43.0


From f475c391646fa1fa21e8951a3a32b5f727280555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:23 +0000
Subject: [PATCH 19/67] fix: tell rejects a number of values that differs from
 that of points

---
 skopt/optimizer/optimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 240ffbf..156bc09 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -621,6 +621,8 @@ class Optimizer(object):
             if is_2Dlistlike(x):
                 if not (np.ndim(y) == 2 and np.shape(y)[1] == 2):
                     raise TypeError("expected y to be a list of (func_val, t)")
+                if len(x) != len(y):
+                    raise ValueError("expected one (func_val, t) per point")
             elif is_listlike(x):
                 if not (np.ndim(y) == 1 and len(y) == 2):
                     raise TypeError("expected y to be (func_val, t)")
@@ -630,8 +632,10 @@ class Optimizer(object):
             for y_value in y:
                 if not isinstance(y_value, Number):
                     raise ValueError("expected y to be a list of scalars")
+            if len(x) != len(y):
+                raise ValueError("expected one scalar per point")
 
-        elif is_listlike(x):
+        elif is_listlike(x) and not is_2Dlistlike(x):
             if not isinstance(y, Number):
                 raise ValueError("`func` should return a scalar")
 
-- 
2.43.0


From 262c977cafd8176f6be35d9659aa0018f12dc212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 20/67] fix: improvement per second is over the best value, not
 the least time

---
 skopt/optimizer/optimizer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 156bc09..655185a 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -552,10 +552,14 @@ class Optimizer(object):
             X = self.space.transform(self.space.rvs(
                 n_samples=self.n_points, random_state=self.rng))
 
+            # the best objective value, leaving computation times aside
+            y_opt = np.min([y for (y, _) in self.yi]
+                           if "ps" in self.acq_func else self.yi)
+
             self.next_xs_ = []
             for cand_acq_func in self.cand_acq_funcs_:
                 values = _gaussian_acquisition(
-                    X=X, model=est, y_opt=np.min(self.yi),
+                    X=X, model=est, y_opt=y_opt,
                     acq_func=cand_acq_func,
                     acq_func_kwargs=self.acq_func_kwargs)
                 # Find the minimum of the acquisition function by randomly
@@ -574,7 +578,7 @@ class Optimizer(object):
                         results = Parallel(n_jobs=self.n_jobs)(
                             delayed(fmin_l_bfgs_b)(
                                 gaussian_acquisition_1D, x,
-                                args=(est, np.min(self.yi), cand_acq_func,
+                                args=(est, y_opt, cand_acq_func,
                                       self.acq_func_kwargs),
                                 bounds=self.space.transformed_bounds,
                                 approx_grad=False,
-- 
2.43.0


From 967efb4933833d5c5c63626df9c662741a55d5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:17 +0000
Subject: [PATCH 21/67] fix: the constant liar tells lies about values, not
 about times

---
 skopt/optimizer/optimizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 655185a..a9e94ee 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -397,15 +397,16 @@ class Optimizer(object):
 
             ti_available = "ps" in self.acq_func and len(opt.yi) > 0
             ti = [t for (_, t) in opt.yi] if ti_available else None
+            yi = [y for (y, _) in opt.yi] if ti_available else opt.yi
 
             if strategy == "cl_min":
-                y_lie = np.min(opt.yi) if opt.yi else 0.0  # CL-min lie
+                y_lie = np.min(yi) if yi else 0.0  # CL-min lie
                 t_lie = np.min(ti) if ti is not None else log(sys.float_info.max)
             elif strategy == "cl_mean":
-                y_lie = np.mean(opt.yi) if opt.yi else 0.0  # CL-mean lie
+                y_lie = np.mean(yi) if yi else 0.0  # CL-mean lie
                 t_lie = np.mean(ti) if ti is not None else log(sys.float_info.max)
             else:
-                y_lie = np.max(opt.yi) if opt.yi else 0.0  # CL-max lie
+                y_lie = np.max(yi) if yi else 0.0  # CL-max lie
                 t_lie = np.max(ti) if ti is not None else log(sys.float_info.max)
 
             # Lie to the optimizer.
-- 
2.43.0


From a18c9f604c871d6f0dcf22e83743078a21ca5fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 22/67] fix: results are snapshots that later tells do not
 change

---
 skopt/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skopt/utils.py b/skopt/utils.py
index 4e28f1d..814dc9a 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -65,8 +65,9 @@ def create_result(Xi, yi, space=None, rng=None, specs=None, models=None):
     res.x = Xi[best]
     res.fun = yi[best]
     res.func_vals = yi
-    res.x_iters = Xi
-    res.models = models
+    # snapshots: the optimizer goes on appending to its own lists
+    res.x_iters = list(Xi)
+    res.models = list(models) if models is not None else None
     res.space = space
     res.random_state = rng
     res.specs = specs
-- 
2.43.0


From ad3f7dc2b848472521b3be40de8612bff6fa685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 23/67] fix: a copy of an optimizer keeps its model_queue_size

---
 skopt/optimizer/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index a9e94ee..ff72165 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -322,6 +322,7 @@ class Optimizer(object):
             acq_optimizer=self.acq_optimizer,
             acq_func_kwargs=self.acq_func_kwargs,
             acq_optimizer_kwargs=self.acq_optimizer_kwargs,
+            model_queue_size=self.max_model_queue_size,
             random_state=random_state
         )
         optimizer._initial_samples = self._initial_samples
-- 
2.43.0


From 4e83fffd993ff9aef6e9a3832704c1f8bbb391a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 24/67] fix: random search goes on after its initial design is
 used up

---
 skopt/optimizer/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index ff72165..81396ca 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -432,7 +432,7 @@ class Optimizer(object):
         if self._n_initial_points > 0 or self.base_estimator_ is None:
             # this will not make a copy of `self.rng` and hence keep advancing
             # our random state.
-            if self._initial_samples is None:
+            if self._initial_samples is None or self._n_initial_points <= 0:
                 return self.space.rvs(random_state=self.rng)[0]
             else:
                 # The samples are evaluated starting form initial_samples[0]
-- 
2.43.0


From 6aab18b6602b26979d05b2a5c983ce2fa59ec2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 25/67] fix: a copy of an optimizer does not make its initial
 design again

---
 skopt/optimizer/optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 81396ca..57c5c5c 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -317,7 +317,6 @@ class Optimizer(object):
             dimensions=self.space.dimensions,
             base_estimator=self.base_estimator_,
             n_initial_points=self.n_initial_points_,
-            initial_point_generator=self._initial_point_generator,
             acq_func=self.acq_func,
             acq_optimizer=self.acq_optimizer,
             acq_func_kwargs=self.acq_func_kwargs,
@@ -325,6 +324,9 @@ class Optimizer(object):
             model_queue_size=self.max_model_queue_size,
             random_state=random_state
         )
+        # the initial design is shared: making it again would be a waste, and
+        # a generator may refuse (Sobol with `skip`)
+        optimizer._initial_point_generator = self._initial_point_generator
         optimizer._initial_samples = self._initial_samples
         if hasattr(self, "gains_"):
             optimizer.gains_ = np.copy(self.gains_)
-- 
2.43.0


From b4b266ca78f7ba8b72bfa83ad9347dadf138de83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 26/67] fix: dummy_minimize counts a single x0 as one point

---
 skopt/optimizer/dummy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skopt/optimizer/dummy.py b/skopt/optimizer/dummy.py
index c372c24..1b2457b 100644
--- a/skopt/optimizer/dummy.py
+++ b/skopt/optimizer/dummy.py
@@ -105,7 +105,9 @@ def dummy_minimize(func, dimensions, n_calls=100,
     # all our calls want random suggestions, except if we need to evaluate
     # some initial points
     if x0 is not None and y0 is None:
-        n_initial_points = n_calls - len(x0)
+        # a single point may be given as it is
+        n_x0 = len(x0) if isinstance(x0[0], (list, tuple)) else 1
+        n_initial_points = n_calls - n_x0
     else:
         n_initial_points = n_calls
 
-- 
2.43.0


From 2a00bd0af9eef832e17c356b740e9dae8ec78be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 27/67] fix: verbose does not add its callback to the caller's
 list

---
 skopt/callbacks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skopt/callbacks.py b/skopt/callbacks.py
index 11e6c0b..e063c98 100644
--- a/skopt/callbacks.py
+++ b/skopt/callbacks.py
@@ -26,7 +26,8 @@ def check_callback(callback):
 
         elif (isinstance(callback, list) and
               all([isinstance(c, Callable) for c in callback])):
-            return callback
+            # a copy: the caller's list is not ours to append to
+            return list(callback)
 
         else:
             raise ValueError("callback should be either a callable or "
-- 
2.43.0


From 698551f274024117b824c4a34b69184bf2d171b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:28 +0000
Subject: [PATCH 28/67] fix: normalize_dimensions leaves the caller's
 dimensions as they are

---
 skopt/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skopt/utils.py b/skopt/utils.py
index 814dc9a..ca0ca8b 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -1,3 +1,4 @@
+from copy import copy
 from copy import deepcopy
 from functools import wraps
 from sklearn.utils import check_random_state
@@ -601,7 +602,9 @@ def normalize_dimensions(dimensions):
         # check if dimension is of a Dimension instance
         if isinstance(dimension, Dimension):
             # Change the transformer to normalize
-            # and add it to the new transformed dimensions
+            # and add it to the new transformed dimensions; the caller's
+            # dimension may be in use elsewhere and is left as it is
+            dimension = copy(dimension)
             dimension.set_transformer("normalize")
             transformed_dimensions.append(
                 dimension
-- 
2.43.0


From af8719d589fda0774475ecdfa6231c40af8eb3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:28 +0000
Subject: [PATCH 29/67] fix: the std of quantile regressors is not negative
 where they cross

---
 skopt/learning/gbrt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skopt/learning/gbrt.py b/skopt/learning/gbrt.py
index 76b59c6..1745f85 100644
--- a/skopt/learning/gbrt.py
+++ b/skopt/learning/gbrt.py
@@ -117,7 +117,8 @@ class GradientBoostingQuantileRegressor(BaseEstimator, RegressorMixin):
             low = self.regressors_[self.quantiles.index(0.16)].predict(X)
             high = self.regressors_[self.quantiles.index(0.84)].predict(X)
             mean = self.regressors_[self.quantiles.index(0.5)].predict(X)
-            return mean, ((high - low) / 2.0)
+            # the fitted quantiles may cross, a std is never negative
+            return mean, (np.abs(high - low) / 2.0)
 
         # return the mean
         return self.regressors_[self.quantiles.index(0.5)].predict(X)
-- 
2.43.0


From aadbdba27518a856cabc2049d93f04f67982d085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:28 +0000
Subject: [PATCH 30/67] fix: quantile regressors leave the estimator they are
 given as it is

---
 skopt/learning/gbrt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skopt/learning/gbrt.py b/skopt/learning/gbrt.py
index 1745f85..d038818 100644
--- a/skopt/learning/gbrt.py
+++ b/skopt/learning/gbrt.py
@@ -74,6 +74,7 @@ class GradientBoostingQuantileRegressor(BaseEstimator, RegressorMixin):
 
         # The predictions for different quantiles should be sorted.
         # Therefore each of the regressors need the same seed.
+        base_estimator = clone(base_estimator)
         base_estimator.set_params(random_state=rng)
         regressors = []
         for q in self.quantiles:
-- 
2.43.0


From 44102b05a99cf3cf036c21cbbbced0501a6d57f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 31/67] fix: fitting a GaussianProcessRegressor leaves its
 kernel parameter as it is

---
 skopt/learning/gaussian_process/gpr.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/skopt/learning/gaussian_process/gpr.py b/skopt/learning/gaussian_process/gpr.py
index 34902d7..cef7bb8 100644
--- a/skopt/learning/gaussian_process/gpr.py
+++ b/skopt/learning/gaussian_process/gpr.py
@@ -186,13 +186,20 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
         if self.kernel is None:
             self.kernel = ConstantKernel(1.0, constant_value_bounds="fixed") \
                           * RBF(1.0, length_scale_bounds="fixed")
-        if self.noise == "gaussian":
-            self.kernel = self.kernel + WhiteKernel()
-        elif self.noise:
-            self.kernel = self.kernel + WhiteKernel(
-                noise_level=self.noise, noise_level_bounds="fixed"
-            )
-        super(GaussianProcessRegressor, self).fit(X, y)
+
+        # the noise is part of the kernel while fitting only: a second call
+        # would add it twice
+        kernel = self.kernel
+        try:
+            if self.noise == "gaussian":
+                self.kernel = kernel + WhiteKernel()
+            elif self.noise:
+                self.kernel = kernel + WhiteKernel(
+                    noise_level=self.noise, noise_level_bounds="fixed"
+                )
+            super(GaussianProcessRegressor, self).fit(X, y)
+        finally:
+            self.kernel = kernel
 
         self.noise_ = None
 
-- 
2.43.0


From d80a6c13069edbd09230b6b28ead35bd3b94f564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:49 +0000
Subject: [PATCH 32/67] fix: random search can be told computation times

---
 skopt/optimizer/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 57c5c5c..824b219 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -228,7 +228,8 @@ class Optimizer(object):
 
         # treat per second acqusition function specially
         is_multi_regressor = isinstance(base_estimator, MultiOutputRegressor)
-        if "ps" in self.acq_func and not is_multi_regressor:
+        if ("ps" in self.acq_func and not is_multi_regressor and
+                base_estimator is not None):
             self.base_estimator_ = MultiOutputRegressor(base_estimator)
         else:
             self.base_estimator_ = base_estimator
-- 
2.43.0


From be37b9c089b9e8eea357b3b4c0ad145d93280996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:39 +0000
Subject: [PATCH 33/67] fix: normalize the space of a GP that models
 computation times too

---
 skopt/optimizer/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 824b219..a9b2f13 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -267,7 +267,10 @@ class Optimizer(object):
         # Configure search space
 
         # normalize space if GP regressor
-        if isinstance(self.base_estimator_, GaussianProcessRegressor):
+        regressor = self.base_estimator_
+        if isinstance(regressor, MultiOutputRegressor):
+            regressor = regressor.estimator
+        if isinstance(regressor, GaussianProcessRegressor):
             dimensions = normalize_dimensions(dimensions)
         self.space = Space(dimensions)
 
-- 
2.43.0


From 12040aae2f356137e279331068838c9eea5ca672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:56 +0000
Subject: [PATCH 34/67] fix: tell rejects values that are not numbers with
 computation times too

---
 skopt/optimizer/optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index a9b2f13..27193ca 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -635,9 +635,13 @@ class Optimizer(object):
                     raise TypeError("expected y to be a list of (func_val, t)")
                 if len(x) != len(y):
                     raise ValueError("expected one (func_val, t) per point")
+                if not all(isinstance(v, Number) for row in y for v in row):
+                    raise TypeError("expected func_val and t to be scalars")
             elif is_listlike(x):
                 if not (np.ndim(y) == 1 and len(y) == 2):
                     raise TypeError("expected y to be (func_val, t)")
+                if not all(isinstance(v, Number) for v in y):
+                    raise TypeError("expected func_val and t to be scalars")
 
         # if y isn't a scalar it means we have been handed a batch of points
         elif is_listlike(y) and is_2Dlistlike(x):
-- 
2.43.0


From 0225f15a713570e041dd1b99cdc354a30e55b268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:14 +0000
Subject: [PATCH 35/67] fix: tell does not silently drop points that are not
 lists

---
 skopt/optimizer/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 27193ca..c230044 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -642,6 +642,9 @@ class Optimizer(object):
                     raise TypeError("expected y to be (func_val, t)")
                 if not all(isinstance(v, Number) for v in y):
                     raise TypeError("expected func_val and t to be scalars")
+            else:
+                raise ValueError("Type of arguments `x` (%s) and `y` (%s) "
+                                 "not compatible." % (type(x), type(y)))
 
         # if y isn't a scalar it means we have been handed a batch of points
         elif is_listlike(y) and is_2Dlistlike(x):
-- 
2.43.0


From 3b5a034e3ee40a02b05aa71b63e2ab5e53f81ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:36 +0000
Subject: [PATCH 36/67] fix: the gradient of a product of products, powers or
 Matern kernels

---
 skopt/learning/gaussian_process/kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skopt/learning/gaussian_process/kernels.py b/skopt/learning/gaussian_process/kernels.py
index c0d55a2..43a2b03 100644
--- a/skopt/learning/gaussian_process/kernels.py
+++ b/skopt/learning/gaussian_process/kernels.py
@@ -295,14 +295,14 @@ class Product(Kernel, sk_Product):
 
     def gradient_x(self, x, X_train):
         x = np.asarray(x)
-        x = np.expand_dims(x, axis=0)
+        x_2d = np.expand_dims(x, axis=0)
         X_train = np.asarray(X_train)
         f_ggrad = (
-            np.expand_dims(self.k1(x, X_train)[0], axis=1) *
+            np.expand_dims(self.k1(x_2d, X_train)[0], axis=1) *
             self.k2.gradient_x(x, X_train)
         )
         fgrad_g = (
-            np.expand_dims(self.k2(x, X_train)[0], axis=1) *
+            np.expand_dims(self.k2(x_2d, X_train)[0], axis=1) *
             self.k1.gradient_x(x, X_train)
         )
         return f_ggrad + fgrad_g
-- 
2.43.0


From 6c4b2c6d40558b7d12f75347e5de4c42caad78f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:07 +0000
Subject: [PATCH 37/67] fix: the gradient of the std of non-stationary Gaussian
 processes

---
 skopt/learning/gaussian_process/gpr.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/skopt/learning/gaussian_process/gpr.py b/skopt/learning/gaussian_process/gpr.py
index cef7bb8..ad57101 100644
--- a/skopt/learning/gaussian_process/gpr.py
+++ b/skopt/learning/gaussian_process/gpr.py
@@ -357,8 +357,13 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
                 if return_std_grad:
                     grad_std = np.zeros(X.shape[1])
                     if not np.allclose(y_std, grad_std):
-                        grad_std = -np.dot(K_trans,
-                                           np.dot(K_inv, grad))[0] / y_std
+                        # half the gradient of k(x, x), zero if the kernel
+                        # is stationary
+                        grad_diag = np.zeros(X.shape[1])
+                        if not self.kernel_.is_stationary():
+                            grad_diag = self.kernel_.gradient_x(X[0], X)[0]
+                        grad_std = (grad_diag - np.dot(
+                            K_trans, np.dot(K_inv, grad))[0]) / y_std
                         # undo normalisation
                         grad_std = grad_std * self.y_train_std_**2
                     return y_mean, y_std, grad_mean, grad_std
-- 
2.43.0


From 51bc90ff5df41157c2dc74418451199fd3f5726a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:33 +0000
Subject: [PATCH 38/67] fix: a GaussianProcessRegressor without a kernel
 predicts from its default prior

---
 skopt/learning/gaussian_process/gpr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skopt/learning/gaussian_process/gpr.py b/skopt/learning/gaussian_process/gpr.py
index ad57101..6343319 100644
--- a/skopt/learning/gaussian_process/gpr.py
+++ b/skopt/learning/gaussian_process/gpr.py
@@ -308,12 +308,15 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
             raise ValueError("Not implemented for n_samples > 1")
 
         if not hasattr(self, "X_train_"):  # Not fit; predict based on GP prior
+            kernel = self.kernel
+            if kernel is None:
+                kernel = ConstantKernel(1.0) * RBF(1.0)
             y_mean = np.zeros(X.shape[0])
             if return_cov:
-                y_cov = self.kernel(X)
+                y_cov = kernel(X)
                 return y_mean, y_cov
             elif return_std:
-                y_var = self.kernel.diag(X)
+                y_var = kernel.diag(X)
                 return y_mean, np.sqrt(y_var)
             else:
                 return y_mean
-- 
2.43.0


From 0c857d824276c7cf39fea88e63e3af54effc9b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:13 +0000
Subject: [PATCH 39/67] fix: a HammingKernel with fixed length scale has no
 gradient by it

---
 skopt/learning/gaussian_process/kernels.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skopt/learning/gaussian_process/kernels.py b/skopt/learning/gaussian_process/kernels.py
index 43a2b03..fb6ba1d 100644
--- a/skopt/learning/gaussian_process/kernels.py
+++ b/skopt/learning/gaussian_process/kernels.py
@@ -417,5 +417,7 @@ class HammingKernel(sk_StationaryKernelMixin, sk_NormalizedKernelMixin,
 
         grad *= length_scale
         if eval_gradient:
+            if self.hyperparameter_length_scale.fixed:
+                return kernel_prod, np.empty((n_samples, n_samples, 0))
             return kernel_prod, grad
         return kernel_prod
-- 
2.43.0


From 8a0fe4d43aacc0d51161107300aa9b29b93af7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:55 +0000
Subject: [PATCH 40/67] fix: a checkpoint stays until the next one is complete

---
 skopt/callbacks.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/skopt/callbacks.py b/skopt/callbacks.py
index e063c98..db9e06f 100644
--- a/skopt/callbacks.py
+++ b/skopt/callbacks.py
@@ -10,6 +10,7 @@ try:
 except ImportError:
     from collections import Callable
 
+import os
 from time import time
 
 import numpy as np
@@ -317,4 +318,14 @@ class CheckpointSaver(object):
         res : `OptimizeResult`, scipy object
             The optimization as a OptimizeResult object.
         """
-        dump(res, self.checkpoint_path, **self.dump_options)
+        # the last checkpoint stays until the next one is complete; the name
+        # keeps its extension, which may choose the compression
+        path = os.path.realpath(str(self.checkpoint_path))
+        partial = os.path.join(os.path.dirname(path),
+                               ".partial-" + os.path.basename(path))
+        try:
+            dump(res, partial, **self.dump_options)
+            os.replace(partial, path)
+        finally:
+            if os.path.exists(partial):
+                os.remove(partial)
-- 
2.43.0


From 028ef8678138fae471762bfa9bb8378407b561f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:16 +0000
Subject: [PATCH 41/67] fix: expected_minimum gives integers in Integer
 dimensions

---
 skopt/utils.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/skopt/utils.py b/skopt/utils.py
index ca0ca8b..e7a86e8 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -250,10 +250,16 @@ def expected_minimum(res, n_random_starts=20, random_state=None):
 
     for x0 in xs:
         r = sp_minimize(func, x0=x0, bounds=res.space.bounds)
-
-        if r.fun < best_fun:
-            best_x = r.x
-            best_fun = r.fun
+        # the minimization is continuous, Integer dimensions are not; a start
+        # may be better than the rounded end of its minimization
+        x = [int(np.round(v)) if isinstance(dim, Integer) else v
+             for v, dim in zip(r.x, res.space.dimensions)]
+
+        for candidate in (x, x0):
+            fun = func(np.array(candidate))
+            if fun < best_fun:
+                best_x = candidate
+                best_fun = fun
 
     return [v for v in best_x], best_fun
 
-- 
2.43.0


From 2734e9b08b8e94543f97874d3c15216506cefa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:45 +0000
Subject: [PATCH 42/67] fix: total_iterations counts a single search space once

---
 skopt/searchcv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index 391b14c..99e1182 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -423,7 +423,11 @@ class BayesSearchCV(BaseSearchCV):
         """
         total_iter = 0
 
-        for elem in self.search_spaces:
+        search_spaces = self.search_spaces
+        if isinstance(search_spaces, dict):
+            search_spaces = [search_spaces]
+
+        for elem in search_spaces:
 
             if isinstance(elem, tuple):
                 space, n_iter = elem
-- 
2.43.0


From 8d623f0e9e18e5b4d2ac32029bd4578aa3bd310b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:45 +0000
Subject: [PATCH 43/67] fix: BayesSearchCV passes the fit_params of its
 constructor to fit

---
 skopt/searchcv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index 99e1182..12867ce 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -467,6 +467,9 @@ class BayesSearchCV(BaseSearchCV):
         else:
             self.optimizer_kwargs_ = dict(self.optimizer_kwargs)
 
+        if self.fit_params is not None:
+            fit_params = {**self.fit_params, **fit_params}
+
         super().fit(X=X, y=y, groups=groups, **fit_params)
 
         # BaseSearchCV never ranked train scores,
-- 
2.43.0


From 7be1da708a8525e36ffb2f79bc6ea73c2b843276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:45 +0000
Subject: [PATCH 44/67] fix: BayesSearchCV rejects search spaces with no
 iterations

---
 skopt/searchcv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index 12867ce..75fa07c 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -335,7 +335,7 @@ class BayesSearchCV(BaseSearchCV):
                         )
                     subspace, n_iter = elem
 
-                    if (not isinstance(n_iter, int)) or n_iter < 0:
+                    if (not isinstance(n_iter, int)) or n_iter < 1:
                         raise ValueError(
                             "Number of iterations in search space should be"
                             "positive integer, got %s in tuple %s " %
-- 
2.43.0


From 91647f217df9a81e853d28a33fef44c0a141001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:21 +0000
Subject: [PATCH 45/67] fix: plot_evaluations of some of the dimensions when
 others are categorical

---
 skopt/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index 5a14b01..1bc4543 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -827,7 +827,7 @@ def plot_evaluations(result, bins=20, dimensions=None,
         for j in range(n_dims):
             if i == j:
                 index, dim = plot_dims[i]
-                if iscat[j]:
+                if iscat[index]:
                     bins_ = len(dim.categories)
                 elif dim.prior == 'log-uniform':
                     low, high = space.bounds[index]
@@ -839,7 +839,7 @@ def plot_evaluations(result, bins=20, dimensions=None,
                 else:
                     ax_ = ax[i, i]
                 ax_.hist(samples[:, index], bins=bins_,
-                         range=None if iscat[j] else dim.bounds)
+                         range=None if iscat[index] else dim.bounds)
 
             # lower triangle
             elif i > j:
-- 
2.43.0


From 90e6c664c57ab33715cbc170080cb7773ebc5e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:21 +0000
Subject: [PATCH 46/67] fix: histograms of log-uniform dimensions have all
 samples and bins

---
 skopt/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index 1bc4543..9c79ceb 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -831,7 +831,7 @@ def plot_evaluations(result, bins=20, dimensions=None,
                     bins_ = len(dim.categories)
                 elif dim.prior == 'log-uniform':
                     low, high = space.bounds[index]
-                    bins_ = np.logspace(np.log10(low), np.log10(high), bins)
+                    bins_ = np.geomspace(low, high, bins + 1)
                 else:
                     bins_ = bins
                 if n_dims == 1:
@@ -1243,7 +1243,7 @@ def plot_histogram(result, dimension_identifier, bins=20, rotate_labels=0,
         # in which case the histogram can be plotted more easily.
         if dimension.prior == 'log-uniform':
             # Map the number of bins to a log-space for the dimension bounds.
-            bins_mapped = np.logspace(*np.log10(dimension.bounds), bins)
+            bins_mapped = np.geomspace(*dimension.bounds, bins + 1)
         else:
             # Use the original number of bins.
             bins_mapped = bins
-- 
2.43.0


From 2afc9790ba8cccd3fba8c35e458ddb16a160aeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:21 +0000
Subject: [PATCH 47/67] fix: plot_convergence draws a true minimum of zero

---
 skopt/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index 9c79ceb..9a36132 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -95,12 +95,12 @@ def plot_convergence(*args, **kwargs):
             ax.plot(iterations, np.mean(mins, axis=0), c=color,
                     marker=".", markersize=12, lw=2, label=name)
 
-    if true_minimum:
+    if true_minimum is not None:
         ax.axhline(true_minimum, linestyle="--",
                    color="r", lw=1,
                    label="True minimum")
 
-    if true_minimum or name:
+    if true_minimum is not None or name:
         ax.legend(loc="best")
 
     return ax
-- 
2.43.0


From 5d323bcb9f1336f08f37c23801abde8b8f86b782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:21 +0000
Subject: [PATCH 48/67] fix: plot_gaussian_process shows the observations its
 model was fitted on

---
 skopt/plots.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index 9a36132..5bcdf74 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -175,8 +175,9 @@ def plot_gaussian_process(res, **kwargs):
     x, x_model = _evenly_sample(dimension, n_points)
     x = x.reshape(-1, 1)
     x_model = x_model.reshape(-1, 1)
+    acq_func = None
+    acq_func_kwargs = None
     if res.specs is not None and "args" in res.specs:
-        n_random = res.specs["args"].get('n_random_starts', None)
         acq_func = res.specs["args"].get("acq_func", "EI")
         acq_func_kwargs = res.specs["args"].get("acq_func_kwargs", {})
 
@@ -184,8 +185,8 @@ def plot_gaussian_process(res, **kwargs):
         acq_func_kwargs = {}
     if acq_func is None or acq_func == "gp_hedge":
         acq_func = "EI"
-    if n_random is None:
-        n_random = len(res.x_iters) - len(res.models)
+    # The number of points the first of the models was fitted on.
+    n_random = len(res.x_iters) - len(res.models) + 1
 
     if objective is not None:
         fx = np.array([objective(x_i) for x_i in x])
-- 
2.43.0


From 166795815716bae8f1b02c129b85e2cf7024136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:35 +0000
Subject: [PATCH 49/67] fix: partial dependence of integer spaces is evaluated
 where it is drawn

---
 skopt/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index 5bcdf74..14d6872 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -957,7 +957,7 @@ def partial_dependence_1D(space, model, i, samples,
         the index'th dimension of the search-space to the value x,
         and then averaging over all samples.
         """
-        rvs_ = np.array(samples)  # copy
+        rvs_ = np.array(samples, dtype=float)  # copy
         # We replace the values in the dimension that we want to keep
         # fixed
         rvs_[:, dim_locs[i]:dim_locs[i + 1]] = x
@@ -1040,7 +1040,7 @@ def partial_dependence_2D(space, model, i, j, samples,
         and setting the index2'th dimension to the value y,
         and then averaging over all samples.
         """
-        rvs_ = np.array(samples)  # copy
+        rvs_ = np.array(samples, dtype=float)  # copy
         rvs_[:, dim_locs[j]:dim_locs[j + 1]] = x
         rvs_[:, dim_locs[i]:dim_locs[i + 1]] = y
         return np.mean(model.predict(rvs_))
-- 
2.43.0


From 2a57d51b9dcb44964c8488d53c84e73b43a630f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:10 +0000
Subject: [PATCH 50/67] fix: category labels for ticks beyond the categories

---
 skopt/plots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skopt/plots.py b/skopt/plots.py
index 14d6872..26c585e 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -1335,6 +1335,8 @@ def _evenly_sample(dim, n_points):
 def _cat_format(dimension, x, _):
     """Categorical axis tick formatter function.  Returns the name of category
     `x` in `dimension`.  Used with `matplotlib.ticker.FuncFormatter`."""
+    if not 0 <= x <= len(dimension.categories) - 1:
+        return ""  # a tick beyond the categories
     return str(dimension.categories[int(x)])
 
 
-- 
2.43.0


From e481a3a969bfce4e7f8db1f1e9792e96cef340c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:31 +0000
Subject: [PATCH 51/67] fix: points told, asked for and in results are copies

---
 skopt/optimizer/optimizer.py | 18 +++++++++---------
 skopt/utils.py               |  4 ++--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index c230044..f9e83ea 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -389,7 +389,7 @@ class Optimizer(object):
         # Caching the result with n_points not None. If some new parameters
         # are provided to the ask, the cache_ is not used.
         if (n_points, strategy) in self.cache_:
-            return self.cache_[(n_points, strategy)]
+            return [list(x) for x in self.cache_[(n_points, strategy)]]
 
         # Copy of the optimizer is made in order to manage the
         # deletion of points with "lie" objective (the copy of
@@ -426,7 +426,7 @@ class Optimizer(object):
 
         self.cache_ = {(n_points, strategy): X}  # cache_ the result
 
-        return X
+        return [list(x) for x in X]
 
     def _ask(self):
         """Suggest next point at which to evaluate the objective.
@@ -442,8 +442,8 @@ class Optimizer(object):
                 return self.space.rvs(random_state=self.rng)[0]
             else:
                 # The samples are evaluated starting form initial_samples[0]
-                return self._initial_samples[
-                    len(self._initial_samples) - self._n_initial_points]
+                return list(self._initial_samples[
+                    len(self._initial_samples) - self._n_initial_points])
 
         else:
             if not self.models:
@@ -458,7 +458,7 @@ class Optimizer(object):
                               "at this point before.")
 
             # return point computed from last call to tell()
-            return next_x
+            return list(next_x)
 
     def tell(self, x, y, fit=True):
         """Record an observation (or several) of the objective function.
@@ -509,20 +509,20 @@ class Optimizer(object):
 
         if "ps" in self.acq_func:
             if is_2Dlistlike(x):
-                self.Xi.extend(x)
+                self.Xi.extend(list(p) for p in x)
                 self.yi.extend(y)
                 self._n_initial_points -= len(y)
             elif is_listlike(x):
-                self.Xi.append(x)
+                self.Xi.append(list(x))
                 self.yi.append(y)
                 self._n_initial_points -= 1
         # if y isn't a scalar it means we have been handed a batch of points
         elif is_listlike(y) and is_2Dlistlike(x):
-            self.Xi.extend(x)
+            self.Xi.extend(list(p) for p in x)
             self.yi.extend(y)
             self._n_initial_points -= len(y)
         elif is_listlike(x):
-            self.Xi.append(x)
+            self.Xi.append(list(x))
             self.yi.append(y)
             self._n_initial_points -= 1
         else:
diff --git a/skopt/utils.py b/skopt/utils.py
index e7a86e8..746fa4b 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -63,11 +63,11 @@ def create_result(Xi, yi, space=None, rng=None, specs=None, models=None):
         res.log_time = np.ravel(yi[:, 1])
         yi = np.ravel(yi[:, 0])
     best = np.argmin(yi)
-    res.x = Xi[best]
+    res.x = copy(Xi[best])
     res.fun = yi[best]
     res.func_vals = yi
     # snapshots: the optimizer goes on appending to its own lists
-    res.x_iters = list(Xi)
+    res.x_iters = [copy(x) for x in Xi]
     res.models = list(models) if models is not None else None
     res.space = space
     res.random_state = rng
-- 
2.43.0


From 9e8d3a05e292372f5348b6715f495e41bae7b568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:24 +0000
Subject: [PATCH 52/67] fix: BayesSearchCV does not name the caller's
 dimensions

---
 skopt/searchcv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index 75fa07c..044bc5d 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -1,4 +1,5 @@
 import warnings
+from copy import deepcopy
 
 try:
     from collections.abc import Sized
@@ -383,7 +384,7 @@ class BayesSearchCV(BaseSearchCV):
         """
 
         kwargs = self.optimizer_kwargs_.copy()
-        kwargs['dimensions'] = dimensions_aslist(params_space)
+        kwargs['dimensions'] = deepcopy(dimensions_aslist(params_space))
         optimizer = Optimizer(**kwargs)
         for i in range(len(optimizer.space.dimensions)):
             if optimizer.space.dimensions[i].name is not None:
-- 
2.43.0


From 4d5b5835bb34d8ce7eb964665b4eaacfaebaec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:33 +0000
Subject: [PATCH 53/67] fix: the correlation criterion of Lhs compares every
 candidate

---
 skopt/sampler/lhs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skopt/sampler/lhs.py b/skopt/sampler/lhs.py
index ba7d5fc..e08d08c 100644
--- a/skopt/sampler/lhs.py
+++ b/skopt/sampler/lhs.py
@@ -92,10 +92,10 @@ class Lhs(InitialPointGenerator):
                 for i in range(self.iterations):
                     # Generate a random LHS
                     h = self._lhs_normalized(n_dim, n_samples, rng)
-                    r = np.corrcoef(np.array(h).T)
-                    if len(np.abs(r[r != 1])) > 0 and \
-                            np.max(np.abs(r[r != 1])) < mincorr:
-                        mincorr = np.max(np.abs(r - np.eye(r.shape[0])))
+                    # the diagonal is 1 only up to rounding
+                    r = np.corrcoef(np.array(h).T) - np.eye(n_dim)
+                    if n_dim > 1 and np.max(np.abs(r)) < mincorr:
+                        mincorr = np.max(np.abs(r))
                         h_opt = h.copy()
                         h_opt = space.inverse_transform(h_opt)
             elif self.criterion == "maximin":
-- 
2.43.0


From 40ffdc49948d882f762602259c78ada19076f8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 54/67] fix: a budget that cannot hold x0 is refused by
 dummy_minimize

---
 skopt/optimizer/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/optimizer/base.py b/skopt/optimizer/base.py
index 0ded90b..cb3d3a8 100644
--- a/skopt/optimizer/base.py
+++ b/skopt/optimizer/base.py
@@ -241,7 +241,7 @@ def base_minimize(func, dimensions, base_estimator,
         y0 = list(y0)
     elif isinstance(y0, numbers.Number):
         y0 = [y0]
-    required_calls = n_initial_points + (len(x0) if not y0 else 0)
+    required_calls = max(n_initial_points, 0) + (len(x0) if not y0 else 0)
     if n_calls < required_calls:
         raise ValueError(
             "Expected `n_calls` >= %d, got %d" % (required_calls, n_calls))
-- 
2.43.0


From 2f910f5d125af06ac238f00994ad251dd2b999bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 55/67] fix: regressors whose predict gives no gradients have
 none

---
 skopt/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skopt/utils.py b/skopt/utils.py
index 746fa4b..bbd723a 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -1,6 +1,7 @@
 from copy import copy
 from copy import deepcopy
 from functools import wraps
+from inspect import signature
 from sklearn.utils import check_random_state
 import numpy as np
 from scipy.optimize import OptimizeResult
@@ -340,7 +341,12 @@ def has_gradients(estimator):
             any([isinstance(params[p], HammingKernel) for p in params])
         )
 
-    return not categorical_gp
+    if categorical_gp:
+        return False
+
+    # other regressors have them only if `predict` can be asked for them
+    return any(p.name == "return_mean_grad" or p.kind == p.VAR_KEYWORD
+               for p in signature(estimator.predict).parameters.values())
 
 
 def cook_estimator(base_estimator, space=None, **kwargs):
-- 
2.43.0


From f3dfe3113d882a63f82d35116b6da2c324e45310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 56/67] fix: dimensions described by three or four numpy
 numbers are not categories

---
 skopt/space/space.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 1e02285..1fe0b39 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -111,22 +111,23 @@ def check_dimension(dimension, transform=None):
                              " supported types.".format(dimension))
 
     if len(dimension) == 3:
-        if (any([isinstance(dim, int) for dim in dimension[:2]]) and
+        if (any([isinstance(d, numbers.Integral) for d in dimension[:2]]) and
                 dimension[2] in ["uniform", "log-uniform"]):
             return Integer(*dimension, transform=transform)
-        elif (any([isinstance(dim, (float, int)) for dim in dimension[:2]]) and
+        elif (any([isinstance(d, numbers.Real) for d in dimension[:2]]) and
               dimension[2] in ["uniform", "log-uniform"]):
             return Real(*dimension, transform=transform)
         else:
             return Categorical(dimension, transform=transform)
 
     if len(dimension) == 4:
-        if (any([isinstance(dim, int) for dim in dimension[:2]]) and
-                dimension[2] == "log-uniform" and isinstance(dimension[3],
-                                                             int)):
+        if (any([isinstance(d, numbers.Integral) for d in dimension[:2]]) and
+                dimension[2] == "log-uniform" and isinstance(
+                    dimension[3], numbers.Integral)):
             return Integer(*dimension, transform=transform)
-        elif (any([isinstance(dim, (float, int)) for dim in dimension[:2]]) and
-              dimension[2] == "log-uniform" and isinstance(dimension[3], int)):
+        elif (any([isinstance(d, numbers.Real) for d in dimension[:2]]) and
+              dimension[2] == "log-uniform" and isinstance(
+                  dimension[3], numbers.Integral)):
             return Real(*dimension, transform=transform)
 
     if len(dimension) > 3:
-- 
2.43.0


From 77847870e5ba63b3c9dbeb9238c45b3fe7782db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:57 +0000
Subject: [PATCH 57/67] fix: bounds given as narrow numpy numbers do not narrow
 the transforms

---
 skopt/space/space.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 1fe0b39..4cbbe64 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -258,8 +258,9 @@ class Real(Dimension):
         if prior not in ["uniform", "log-uniform"]:
             raise ValueError("prior should be 'uniform' or 'log-uniform'"
                              " got {}".format(prior))
-        self.low = low
-        self.high = high
+        # narrow numpy bounds would narrow what is computed from them
+        self.low = low.item() if isinstance(low, np.generic) else low
+        self.high = high.item() if isinstance(high, np.generic) else high
         self.prior = prior
         self.base = base
         self.log_base = np.log10(base)
@@ -451,8 +452,9 @@ class Integer(Dimension):
         if prior not in ["uniform", "log-uniform"]:
             raise ValueError("prior should be 'uniform' or 'log-uniform'"
                              " got {}".format(prior))
-        self.low = low
-        self.high = high
+        # narrow numpy bounds would narrow what is computed from them
+        self.low = low.item() if isinstance(low, np.generic) else low
+        self.high = high.item() if isinstance(high, np.generic) else high
         self.prior = prior
         self.base = base
         self.log_base = np.log10(base)
-- 
2.43.0


From 7dcecaef5dd27c52fe2770f239c3fdde7acb175c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 58/67] fix: the distance of narrow numpy numbers does not
 overflow

---
 skopt/space/space.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 4cbbe64..75c9382 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -203,6 +203,12 @@ class Dimension(object):
             raise ValueError("Dimension's name must be either string or None.")
 
 
+def _difference(a, b):
+    # in Python's numbers: the difference of e.g. two np.uint8 overflows
+    a, b = [v.item() if isinstance(v, np.generic) else v for v in (a, b)]
+    return abs(a - b)
+
+
 def _uniform_inclusive(loc=0.0, scale=1.0):
     # like scipy.stats.distributions but inclusive of `high`
     # XXX scale + 1. might not actually be a float after scale if
@@ -397,7 +403,7 @@ class Real(Dimension):
         if not (a in self and b in self):
             raise RuntimeError("Can only compute distance for values within "
                                "the space, not %s and %s." % (a, b))
-        return abs(a - b)
+        return _difference(a, b)
 
 
 class Integer(Dimension):
@@ -596,7 +602,7 @@ class Integer(Dimension):
         if not (a in self and b in self):
             raise RuntimeError("Can only compute distance for values within "
                                "the space, not %s and %s." % (a, b))
-        return abs(a - b)
+        return _difference(a, b)
 
 
 class Categorical(Dimension):
-- 
2.43.0


From b73576e0414e93191144fd9c1392a17bc4a93a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 59/67] fix: dimensions are equal only if their bounds and
 priors are

---
 skopt/space/space.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 75c9382..d8fe7ff 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -333,8 +333,8 @@ class Real(Dimension):
 
     def __eq__(self, other):
         return (type(self) is type(other) and
-                np.allclose([self.low], [other.low]) and
-                np.allclose([self.high], [other.high]) and
+                np.allclose([self.low], [other.low], atol=0.) and
+                np.allclose([self.high], [other.high], atol=0.) and
                 self.prior == other.prior and
                 self.transform_ == other.transform_)
 
@@ -539,8 +539,9 @@ class Integer(Dimension):
 
     def __eq__(self, other):
         return (type(self) is type(other) and
-                np.allclose([self.low], [other.low]) and
-                np.allclose([self.high], [other.high]))
+                self.low == other.low and self.high == other.high and
+                self.prior == other.prior and
+                self.transform_ == other.transform_)
 
     def __repr__(self):
         return "Integer(low={}, high={}, prior='{}', transform='{}')".format(
-- 
2.43.0


From 3fb403fd3f735a938d2469ba262c95f7f5fbc6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 60/67] fix: categories that are tuples or other sequences keep
 what they are

---
 skopt/searchcv.py           |  3 ++-
 skopt/space/space.py        |  6 ++----
 skopt/space/transformers.py | 17 ++++++++++++++---
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index 044bc5d..87a974c 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -401,7 +401,8 @@ class BayesSearchCV(BaseSearchCV):
         params = optimizer.ask(n_points=n_points)
 
         # convert parameters to python native types
-        params = [[np.array(v).item() for v in p] for p in params]
+        params = [[v.item() if isinstance(v, np.generic) else v for v in p]
+                  for p in params]
 
         # make lists into dictionaries
         params_dict = [point_asdict(search_space, p) for p in params]
diff --git a/skopt/space/space.py b/skopt/space/space.py
index d8fe7ff..6a2d977 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -16,6 +16,7 @@ from .transformers import Normalize
 from .transformers import Identity
 from .transformers import LogN
 from .transformers import Pipeline
+from .transformers import as_category_array
 
 
 # helper class to be able to print [1, ..., 4] instead of [1, '...', 4]
@@ -713,10 +714,7 @@ class Categorical(Dimension):
         # of type float, hence the required cast back to int.
         inv_transform = super(Categorical, self).inverse_transform(Xt)
         if isinstance(inv_transform, list):
-            # an array of one type would turn e.g. [1, 'a'] into strings
-            mixed = len(set(type(c) for c in self.categories)) > 1
-            inv_transform = np.array(inv_transform,
-                                     dtype=object if mixed else None)
+            inv_transform = as_category_array(inv_transform, self.categories)
         return inv_transform
 
     def rvs(self, n_samples=None, random_state=None):
diff --git a/skopt/space/transformers.py b/skopt/space/transformers.py
index 981e2d1..2510a2c 100644
--- a/skopt/space/transformers.py
+++ b/skopt/space/transformers.py
@@ -4,6 +4,19 @@ from sklearn.preprocessing import LabelBinarizer
 from sklearn.utils import column_or_1d
 
 
+def as_category_array(X, categories):
+    """One-dimensional array that keeps the values of `X` as they are."""
+    # an array of one type would turn e.g. [1, 'a'] into strings, and a
+    # sequence such as a tuple or a pipeline into a row of its items
+    if len(set(type(c) for c in categories)) > 1 or \
+            not all(np.isscalar(c) for c in categories):
+        values = np.empty(len(X), dtype=object)
+        for i, v in enumerate(X):
+            values[i] = v
+        return values
+    return np.asarray(X)
+
+
 class Transformer(object):
     """Base class for all 1-D transformers.
     """
@@ -170,9 +183,7 @@ class LabelEncoder(Transformer):
         X : array-like, shape=(n_categories,)
             List of categories.
         """
-        # an array of one type would turn e.g. [1, 'a'] into strings
-        mixed = len(set(type(v) for v in X)) > 1
-        X = np.asarray(X, dtype=object if mixed else None)
+        X = as_category_array(X, X)
         if X.dtype == object:
             self.mapping_ = {v: i for i, v in enumerate(X)}
         else:
-- 
2.43.0


From 6fc94ebce494f78da3f4b0fde6e29cda37e2020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 61/67] fix: the std of a forest does not cancel out far from
 zero

---
 skopt/learning/forest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/learning/forest.py b/skopt/learning/forest.py
index 0d6dea3..be977b5 100644
--- a/skopt/learning/forest.py
+++ b/skopt/learning/forest.py
@@ -43,10 +43,10 @@ def _return_std(X, trees, predictions, min_variance):
         # is zero variance.
         var_tree[var_tree < min_variance] = min_variance
         mean_tree = tree.predict(X)
-        std += var_tree + mean_tree ** 2
+        # not the difference of the squares, which may both be large
+        std += var_tree + (mean_tree - predictions) ** 2.0
 
     std /= len(trees)
-    std -= predictions ** 2.0
     std[std < 0.0] = 0.0
     std = std ** 0.5
     return std
-- 
2.43.0


From 2bdc7f2795ed02b98dbe46781cf0b09aca117c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 62/67] fix: quantiles given as an array

---
 skopt/learning/gbrt.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/skopt/learning/gbrt.py b/skopt/learning/gbrt.py
index d038818..2f2ef51 100644
--- a/skopt/learning/gbrt.py
+++ b/skopt/learning/gbrt.py
@@ -103,6 +103,7 @@ class GradientBoostingQuantileRegressor(BaseEstimator, RegressorMixin):
             where `n_samples` is the number of samples
             and `n_features` is the number of features.
         """
+        quantiles = list(self.quantiles)  # array-like, e.g. a numpy array
         predicted_quantiles = np.asarray(
             [rgr.predict(X) for rgr in self.regressors_])
         if return_quantiles:
@@ -110,16 +111,16 @@ class GradientBoostingQuantileRegressor(BaseEstimator, RegressorMixin):
 
         elif return_std:
             std_quantiles = [0.16, 0.5, 0.84]
-            is_present_mask = np.in1d(std_quantiles, self.quantiles)
+            is_present_mask = np.in1d(std_quantiles, quantiles)
             if not np.all(is_present_mask):
                 raise ValueError(
                     "return_std works only if the quantiles during "
                     "instantiation include 0.16, 0.5 and 0.84")
-            low = self.regressors_[self.quantiles.index(0.16)].predict(X)
-            high = self.regressors_[self.quantiles.index(0.84)].predict(X)
-            mean = self.regressors_[self.quantiles.index(0.5)].predict(X)
+            low = self.regressors_[quantiles.index(0.16)].predict(X)
+            high = self.regressors_[quantiles.index(0.84)].predict(X)
+            mean = self.regressors_[quantiles.index(0.5)].predict(X)
             # the fitted quantiles may cross, a std is never negative
             return mean, (np.abs(high - low) / 2.0)
 
         # return the mean
-        return self.regressors_[self.quantiles.index(0.5)].predict(X)
+        return self.regressors_[quantiles.index(0.5)].predict(X)
-- 
2.43.0


From 7faa180bb2470dc67cb086866b9be8f149016ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 63/67] fix: results are dumped without objectives that cannot
 be copied

---
 skopt/utils.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/skopt/utils.py b/skopt/utils.py
index bbd723a..0097223 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -1,5 +1,4 @@
 from copy import copy
-from copy import deepcopy
 from functools import wraps
 from inspect import signature
 from sklearn.utils import check_random_state
@@ -126,12 +125,6 @@ def dump(res, filename, store_objective=True, **kwargs):
         unserializable (i.e. if an exception is raised when trying to serialize
         the optimization result).
 
-        Notice that if `store_objective` is set to `False`, a deep copy of the
-        optimization result is created, potentially leading to performance
-        problems if `res` is very large. If the objective function is not
-        critical, one can delete it before calling `skopt.dump()` and thus
-        avoid deep copying of `res`.
-
     **kwargs : other keyword arguments
         All other keyword arguments will be passed to `joblib.dump`.
     """
@@ -140,10 +133,12 @@ def dump(res, filename, store_objective=True, **kwargs):
 
     elif 'func' in res.specs['args']:
         # If the user does not want to store the objective and it is indeed
-        # present in the provided object, then create a deep copy of it and
-        # remove the objective function before dumping it with joblib.dump.
-        res_without_func = deepcopy(res)
-        del res_without_func.specs['args']['func']
+        # present in the provided object, then leave it out of a copy before
+        # dumping that with joblib.dump. The copy is not a deep one: what can
+        # not be stored can often not be copied either.
+        args = {k: v for k, v in res.specs['args'].items() if k != 'func'}
+        res_without_func = copy(res)
+        res_without_func.specs = dict(res.specs, args=args)
         dump_(res_without_func, filename, **kwargs)
 
     else:
-- 
2.43.0


From c384766a6a6c7265eabf871f3557138ced54cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 64/67] fix: the error for a search space that is a tuple names
 it

---
 skopt/searchcv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index 87a974c..bc7f7c8 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -314,7 +314,7 @@ class BayesSearchCV(BaseSearchCV):
         if len(search_space) == 0:
             raise ValueError(
                 "The search_spaces parameter should contain at least one"
-                "non-empty search space, got %s" % search_space
+                "non-empty search space, got %s" % (search_space,)
             )
 
         # check if space is a single dict, convert to list if so
@@ -332,7 +332,8 @@ class BayesSearchCV(BaseSearchCV):
                     if len(elem) != 2:
                         raise ValueError(
                             "All tuples in list of search spaces should have"
-                            "length 2, and contain (dict, int), got %s" % elem
+                            "length 2, and contain (dict, int), got %s"
+                            % (elem,)
                         )
                     subspace, n_iter = elem
 
@@ -359,7 +360,7 @@ class BayesSearchCV(BaseSearchCV):
         else:
             raise TypeError(
                 "Search space should be provided as a dict or list of dict,"
-                "got %s" % search_space)
+                "got %s" % (search_space,))
 
     @property
     def optimizer_results_(self):
-- 
2.43.0


From 9d018ac38787e92c2ee3109b688f0cdb067802c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 65/67] fix: plot_gaussian_process draws the acquisition with
 the run's xi and kappa

---
 skopt/plots.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index 26c585e..adfc360 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -179,7 +179,10 @@ def plot_gaussian_process(res, **kwargs):
     acq_func_kwargs = None
     if res.specs is not None and "args" in res.specs:
         acq_func = res.specs["args"].get("acq_func", "EI")
-        acq_func_kwargs = res.specs["args"].get("acq_func_kwargs", {})
+        # the minimize functions have these as arguments of their own
+        own = {k: v for k, v in res.specs["args"].items()
+               if k in ("xi", "kappa")}
+        acq_func_kwargs = res.specs["args"].get("acq_func_kwargs", own)
 
     if acq_func_kwargs is None:
         acq_func_kwargs = {}
-- 
2.43.0


From 5887d6320df63d54d85f50bb9aeef1fd56a61439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:52 +0000
Subject: [PATCH 66/67] fix: from_yaml refuses unknown types of dimensions

---
 skopt/space/space.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 6a2d977..075327a 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -902,6 +902,10 @@ class Space(object):
                 # Instantiate Dimension subclass and add it to the list
                 dimension = dimension_classes[dimension_class](**values)
                 dimensions.append(dimension)
+            else:
+                raise ValueError("Unknown type of dimension {}. Expected one "
+                                 "of 'Real', 'Integer' and "
+                                 "'Categorical'.".format(key))
 
         space = cls(dimensions=dimensions)
 
-- 
2.43.0


From 6880be632a23cb2146d15a4bb8b2b1b091a9bfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:52 +0000
Subject: [PATCH 67/67] fix: refused options of Lhs and Grid leave the
 dimensions as they were

---
 skopt/sampler/grid.py | 2 ++
 skopt/sampler/lhs.py  | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/skopt/sampler/grid.py b/skopt/sampler/grid.py
index f994198..7ce4264 100644
--- a/skopt/sampler/grid.py
+++ b/skopt/sampler/grid.py
@@ -157,6 +157,7 @@ class Grid(InitialPointGenerator):
                 order = 2
             h = _create_uniform_grid_only_border(n_dim, order)
         else:
+            space.set_transformer(transformer)
             raise ValueError("Wrong value for border")
         if np.size(h, 0) > n_samples:
             rng.shuffle(h)
@@ -178,6 +179,7 @@ class Grid(InitialPointGenerator):
                     order = 1
                 h2 = _create_uniform_grid_exclude_border(n_dim, order)
             else:
+                space.set_transformer(transformer)
                 raise ValueError("Wrong value for append_border")
             h = np.vstack((h, h2[:(n_samples - np.size(h, 0))]))
             rng.shuffle(h)
diff --git a/skopt/sampler/lhs.py b/skopt/sampler/lhs.py
index e08d08c..5b205fb 100644
--- a/skopt/sampler/lhs.py
+++ b/skopt/sampler/lhs.py
@@ -74,6 +74,8 @@ class Lhs(InitialPointGenerator):
         np.array, shape=(n_dim, n_samples)
             LHS set
         """
+        if self.lhs_type not in ["classic", "centered"]:
+            raise ValueError("Wrong lhs_type. Got {}".format(self.lhs_type))
         rng = check_random_state(random_state)
         space = Space(dimensions)
         transformer = space.get_transformer()
@@ -124,6 +126,7 @@ class Lhs(InitialPointGenerator):
                         h_opt = h.copy()
                         h_opt = space.inverse_transform(h_opt)
             else:
+                space.set_transformer(transformer)
                 raise ValueError("Wrong criterion."
                                  "Got {}".format(self.criterion))
             space.set_transformer(transformer)
-- 
2.43.0

