From 937070ada1a9c81171e1710b16040cbe67c88bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 01/23] fix: accept sample_limit=None as "no sample limit"

The docstring says to set sample_limit to None for a fixed confidence
problem and LUCBAlgorithm/SuccessiveEliminationAlgorithm default to it, but
np.isinf(None) and "total_samples > None" raise TypeError.
---
 causal_effect_bandits/bandits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index da69ce9..5ad295f 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -120,6 +120,8 @@ class BAIBanditAlgorithm:
     if error_tol < 0.0:
       raise ValueError(f"error_tol={error_tol}; must be nonnegative.")
     self.error_tol = error_tol
+    if sample_limit is None:  # no limit on the number of samples.
+      sample_limit = np.inf
     if confidence is None and np.isinf(sample_limit):
       raise ValueError(
           "Either the confidence or the number of rounds must be specified")
-- 
2.43.0


From 2012dc4e52edec07f771dac36d7c4ef622353183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 02/23] fix: LUCB arm selection with tied variance estimates or
 bounds

When all arms shared the lowest variance estimate, select_arms took the min
of an empty list and raised ValueError. When a bound was shared between the
best arms and the remaining arms, the same arm could be picked twice or the
leader could be picked from the remaining arms.
---
 causal_effect_bandits/bandits.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 5ad295f..04d85e6 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -400,14 +400,18 @@ class LUCBAlgorithm(BAIBanditAlgorithm):
       return np.random.choice(self._arms, size=2, replace=False)
 
     best_arm_mask = [v == lowest_var for v in var_ests]
+    if all(best_arm_mask):  # there are no remaining arms to compare against.
+      return np.random.choice(self._arms, size=2, replace=False)
 
     # Select the arm in this set with the highest ucb
     high_ucb = max(ucbs[best_arm_mask])
-    high_ucb_mask = [u == high_ucb for u in ucbs]
+    high_ucb_mask = [b and u == high_ucb for b, u in zip(best_arm_mask, ucbs)]
 
     # Also select the arm with the lowest lcb of the remaining arms
     low_lcb = min(lcbs[[not i for i in best_arm_mask]])
-    low_lcb_mask = [l == low_lcb for l in lcbs]
+    low_lcb_mask = [
+        not b and l == low_lcb for b, l in zip(best_arm_mask, lcbs)
+    ]
 
     # We will pick between these two arms
     u_index = np.random.choice(np.arange(self._num_arms)[high_ucb_mask])
-- 
2.43.0


From 339653543184f128606465c38db9e5b98d0f296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 03/23] fix: successive elimination must not eliminate the
 leading arm

An arm with a zero width confidence interval (lcb == ucb) eliminated
itself, which could leave no candidate at all and return no best arm.
---
 causal_effect_bandits/bandits.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 04d85e6..3226e22 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -532,10 +532,12 @@ class SuccessiveEliminationAlgorithm(BAIBanditAlgorithm):
           if low_var_mask[i]
       ])
 
-      # We now eliminate all arms with lcbs that are larger than lowest_ucb.
+      # We now eliminate all arms with lcbs that are larger than lowest_ucb,
+      # except for the arm that lowest_ucb belongs to.
       new_candidate_arms = []
-      for arm in candidate_arms:
-        if lcb_by_arm[arm][-1] < lowest_ucb:
+      for i, arm in enumerate(candidate_arms):
+        is_leader = low_var_mask[i] and ucb_by_arm[arm][-1] == lowest_ucb
+        if is_leader or lcb_by_arm[arm][-1] < lowest_ucb:
           new_candidate_arms.append(arm)
       candidate_arms = new_candidate_arms
 
-- 
2.43.0


From 302f03df2432d481d889206ae2583ee05ead143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 04/23] fix: reset must restore the initial confidence interval
 of an arm

reset left (None, None) where a new arm has (-inf, inf).
---
 causal_effect_bandits/arms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 6d7d320..bcdd489 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -93,7 +93,7 @@ class VarianceEstimatorArm:
 
   def reset(self) -> None:
     """Resets the arm to its default state."""
-    self._ci = (None, None)
+    self._ci = (-np.inf, np.inf)
     self._eta.reset()
     self._ate = None
     self._var_est = None
-- 
2.43.0


From 16136a681ad784509f48b9117899fa521b7cf7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 05/23] fix: keep the data seen so far when stable_splits is
 False

With stable_splits=False all the data should be re-split on every update,
but the arms replaced their data with the newest batch.
---
 causal_effect_bandits/arms.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index bcdd489..d1692a5 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -213,7 +213,10 @@ class SampleSplittingArm(VarianceEstimatorArm):
         for i in range(2):
           self._split_data[i].append(new_split[i])
       else:
-        self._split_data = self._data_transformer(new_data).k_fold(2)
+        all_data = self._split_data[0]
+        all_data.append(self._split_data[1])
+        all_data.append(self._data_transformer(new_data))
+        self._split_data = all_data.k_fold(2)
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
@@ -340,8 +343,11 @@ class BootstrapArm(VarianceEstimatorArm):
         for i in range(self.n_splits):
           self._split_data[i].append(new_split[i])
       else:
-        self._split_data = self._data_transformer(new_data).k_fold(
-            self.n_splits)
+        all_data = self._split_data[0]
+        for i in range(1, self.n_splits):
+          all_data.append(self._split_data[i])
+        all_data.append(self._data_transformer(new_data))
+        self._split_data = all_data.k_fold(self.n_splits)
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
-- 
2.43.0


From e9da7cae6ce8f0ca1717f5912adf5fe01168c4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 06/23] fix: BootstrapArm must report the number of units it
 has seen

It inherited a constant 0, so a bandit reading a fixed dataset in order fed
the first batch to the arm over and over.
---
 causal_effect_bandits/arms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index d1692a5..62e685f 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -380,3 +380,9 @@ class BootstrapArm(VarianceEstimatorArm):
     self._var_est = np.var(self._eta.calculate_score(self._split_data[1]))
 
     return self._ci
+
+  def get_num_units(self) -> int:
+    """Returns the number of units seen by this arm."""
+    if self._split_data is None:
+      return 0
+    return sum(len(data) for data in self._split_data)
-- 
2.43.0


From e74dfbe9f4f6abbbc755503c001762e33235dab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 07/23] fix: VarianceEstimatorArm.update assigned to a
 read-only property

---
 causal_effect_bandits/arms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 62e685f..220c44f 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -88,7 +88,7 @@ class VarianceEstimatorArm:
     """
     del new_data, delta  # for subclassing
     self._ci = (0, np.inf)  # default ci.
-    self.num_pulled += 1
+    self._num_pulled += 1
     return self._ci
 
   def reset(self) -> None:
-- 
2.43.0


From d74759c65e6de652b7384599c9b7fed28b9c420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 08/23] fix: a rejected ExpData.append must not modify the data

The covariates were already extended when a missing exposure or response
was detected, leaving arrays of different lengths.
---
 causal_effect_bandits/data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 51fd892..05b652a 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -68,14 +68,14 @@ class ExpData:
     """Appends the new data."""
     if new_data.n_features != self.n_features:
       raise ValueError("The new data has incompatible shape")
+    if self.exp is not None and new_data.exp is None:
+      raise ValueError("new_data.exp is missing but expected")
+    if self.rsp is not None and new_data.rsp is None:
+      raise ValueError("new_data.rsp is missing but expected")
     self.cov = np.r_[self.cov, new_data.cov]
     if self.exp is not None:
-      if new_data.exp is None:
-        raise ValueError("new_data.exp is missing but expected")
       self.exp = np.r_[self.exp, new_data.exp]
     if self.rsp is not None:
-      if new_data.rsp is None:
-        raise ValueError("new_data.rsp is missing but expected")
       self.rsp = np.r_[self.rsp, new_data.rsp]
 
     self.n_units = self.cov.shape[0]
-- 
2.43.0


From 8a98c3c694e4fee65155a392f0cf6b65a79ed7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 09/23] fix: DataGenerator.generate passed a dtype where a
 shape was meant

---
 causal_effect_bandits/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 05b652a..eb1017f 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -221,7 +221,7 @@ class DataGenerator:
 
   def generate(self, n_samples: int):
     return ExpData(
-        np.zeros(n_samples, 1),
+        np.zeros((n_samples, 1)),
         np.zeros(n_samples),
         np.zeros(n_samples),
     )
-- 
2.43.0


From 93919d7612e788acfcc078f1f6a08e670593d79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 10/23] fix: LinearDataGenerator must use the noise whose
 length it checked

The noise model was called a second time and that second, unchecked draw
was the one added to the response.
---
 causal_effect_bandits/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index eb1017f..93cc497 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -280,7 +280,7 @@ class LinearDataGenerator(DataGenerator):
       raise ValueError(
           f"noise_model's output is {len(noise)} but should be {n_samples}.")
 
-    y = x.dot(self._beta) + self._tau * t + self._noise_model(n_samples)
+    y = x.dot(self._beta) + self._tau * t + noise
     return ExpData(x, t, y)
 
   @property
-- 
2.43.0


From bd778a33238301c0b260921f54f84e51bd0e487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 11/23] fix: TabularCPD.fit must forget the support of earlier
 fits

Counts were reset but x_values was not, so fitting data without some
previously seen x divided by zero.
---
 causal_effect_bandits/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 93cc497..bd2be4c 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -346,6 +346,8 @@ class TabularCPD:
     default_fn = lambda: collections.defaultdict(lambda: 0.0)
     self.table = collections.defaultdict(default_fn)
     self.x_marginal = collections.defaultdict(lambda: 0.0)
+    self.x_values = {}
+    self.z_values = {}
     for xi, zi in zip(x, z):
       self.table[xi.tobytes()][
           zi.tobytes()] = self.table[xi.tobytes()][zi.tobytes()] + 1
-- 
2.43.0


From 9f8a79ded0a2b3c121142bdeb86b425a24439191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 12/23] fix: TabularCPD rows must be probability distributions

Mass removed from a large probability and mass added to a small one were
both subtracted from the remaining entries, so rows summed to more than 1
(for example with one dominant z and any number of rare ones) or, with a
single z, to less than 1; the uniform correction could also push entries
below min_prob. Take the added mass from the excess over min_prob.
---
 causal_effect_bandits/data.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index bd2be4c..3c85d81 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -369,20 +369,22 @@ class TabularCPD:
       self.x_marginal[x_key] = num_samples / self.n_units
       non_violating_z = []
       total_violations = 0
+      total_excess = 0
       for z_key in self.z_values:
         x_table[z_key] = x_table[z_key] / num_samples
         if x_table[z_key] < self.min_prob:
           total_violations += self.min_prob - x_table[z_key]
           x_table[z_key] = self.min_prob
-        elif x_table[z_key] > 1 - self.min_prob:
-          total_violations += x_table[z_key] - (1 - self.min_prob)
-          x_table[z_key] = 1 - self.min_prob
         else:
+          total_excess += x_table[z_key] - self.min_prob
           non_violating_z.append(z_key)
-      # Now, we adjust non_violating_z to make P(Z|x = x_key) sum to 1
-      for z_key in non_violating_z:
-        x_table[z_key] = (
-            x_table[z_key] - total_violations / len(non_violating_z))
+      # Now, we adjust non_violating_z to make P(Z|x = x_key) sum to 1, without
+      # letting any of them drop below min_prob.
+      if total_violations > 0:
+        for z_key in non_violating_z:
+          x_table[z_key] = (
+              x_table[z_key] - total_violations *
+              (x_table[z_key] - self.min_prob) / total_excess)
 
   def x_support(self):
     return list(self.x_values.values())
-- 
2.43.0


From 1352acd6b012a7b9ec4c79d7112da2721a42add5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 13/23] fix: TabularCPD.predict must not add unseen values to
 the table

---
 causal_effect_bandits/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 3c85d81..81f09af 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -410,7 +410,8 @@ class TabularCPD:
     z = np.asarray(z)
 
     for zi, xi in zip(z, x):
-      probs.append(self.table[xi.tobytes()][zi.tobytes()])
+      # Do not let a lookup add entries to the (default) dicts.
+      probs.append(self.table.get(xi.tobytes(), {}).get(zi.tobytes(), 0.0))
     return np.array(probs)
 
   def __str__(self):
-- 
2.43.0


From c59069f7420d2cc3062f450c0e74990585ffc0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 14/23] fix: front-door f_1 looked up single coordinates of z

predict pairs the elements of z with those of x, so passing the row z
itself looked up its first coordinate. With more than one covariate that
key is never in the table and f_1 was identically zero.
---
 causal_effect_bandits/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index f9a953d..bf78875 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -747,8 +747,8 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
                          np.tile(z,
                                  (len(d), 1))]))  # mu_y(z, X=1), z in support
       f_1 += mu_yzx_i * (
-          self.cov_given_exp.predict(np.array([1]), z) -
-          self.cov_given_exp.predict(np.array([0]), z))
+          self.cov_given_exp.predict(np.array([1]), [z]) -
+          self.cov_given_exp.predict(np.array([0]), [z]))
 
       f_3 += (
           self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob * p_z_x1
-- 
2.43.0


From 0d0a4f0c4506d5c940b14d6ff9b6505b5746eaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 15/23] fix: LinearParameterBinaryTreatment must tolerate a
 missing group

A list never equals 0, so the guard was dead and fitting data without both
treatment and control units raised instead of warning.
---
 causal_effect_bandits/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index bf78875..3a609aa 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -195,7 +195,7 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
 
     self.recent_data = d
 
-    if treat_data == 0 or cont_data == 0:
+    if not treat_data or not cont_data:
       logging.warning(
           "Nuisance parameter was fit on data not including treatment and control"
       )
-- 
2.43.0


From 6176d0d9be81a462462500cf280648be559721e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 16/23] fix: LinearParameterBinaryTreatment must report when it
 has been fit

It inherited the protocol stub, which returns None, so an arm using it
never produced an estimate.
---
 causal_effect_bandits/parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 3a609aa..4486553 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -274,6 +274,9 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
     self.cont_response.coef_ = data_gen.beta
     self.cont_response.intercept_ = 0
 
+  def has_enough_samples(self) -> bool:
+    return self._has_been_fit
+
 
 class Predictor(Protocol):
 
-- 
2.43.0


From 213cc39770c1cd276d05f4eeb8e0587eb615e17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 17/23] fix: LinearRegressionParameter.reset must forget the
 fitted model

It inherited the protocol stub, which does nothing.
---
 causal_effect_bandits/parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 4486553..4b1012c 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -878,6 +878,9 @@ class LinearRegressionParameter(NuisanceParameter):
     self._model = np.zeros(((n_features + 1), (n_features + 1)))
     self.l_reg = l_reg
 
+  def reset(self):
+    self.__init__(self._cov_dim, self.l_reg)
+
   def fit(self, d: data.ExpData):
     """Fits eta to the provided experimental d.
 
-- 
2.43.0


From e78437cac2e8ce3dc0900194ca9bd04d5e33b906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 18/23] fix: SCM.compute_treatment_effect always failed and
 corrupted the SCM

deterministic_cpd is a module function, not a method, so the call raised
AttributeError and left the intervened CPD in place of the original.
---
 causal_effect_bandits/scm.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index a70a02b..b0dad0b 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -114,15 +114,16 @@ class SCM(data.DataGenerator):
       An estimate of the ATE of the SCM.
     """
     old_t_cpd = self.cpds[self.treatment_variable]
-    treatment_cpd = lambda n, parents: self.deterministic_cpd(n, 1)
-    self.cpds[self.treatment_variable] = treatment_cpd
-    treatment_sample = self.generate(n_samples)
-
-    control_cpd = lambda n, parents: self.deterministic_cpd(n, 0)
-    self.cpds[self.treatment_variable] = control_cpd
-    control_sample = self.generate(n_samples)
-
-    self.cpds[self.treatment_variable] = old_t_cpd
+    try:
+      treatment_cpd = lambda n, parents: deterministic_cpd(n, 1)
+      self.cpds[self.treatment_variable] = treatment_cpd
+      treatment_sample = self.generate(n_samples)
+
+      control_cpd = lambda n, parents: deterministic_cpd(n, 0)
+      self.cpds[self.treatment_variable] = control_cpd
+      control_sample = self.generate(n_samples)
+    finally:
+      self.cpds[self.treatment_variable] = old_t_cpd
     return np.mean(treatment_sample.rsp) - np.mean(control_sample.rsp)
 
 
-- 
2.43.0


From d93f910e10edde001c5dfc3f474dd104c23c94f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 19/23] fix: categorical_conditioning must not modify the
 caller's parents

---
 causal_effect_bandits/scm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index b0dad0b..979eee1 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -149,8 +149,9 @@ def categorical_conditioning(parents, conditioning_on_idx, distributions):
   if len(parents) <= conditioning_on_idx:
     raise ValueError(
         "Treatment_idx is greater than the number of distributions.")
-  # Remove treatment_idx from parents
+  # Remove treatment_idx from (a copy of) parents
   distribution_indices = parents[conditioning_on_idx]
+  parents = list(parents)
   del parents[conditioning_on_idx]
 
   samples = []
-- 
2.43.0


From ec1f920dd41e4c539bccf8bbdb05ff4f3914583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 20/23] fix: paper arms selected the wrong covariates

The column indices z_idx and v_idx are laid out as Z_0..Z_M, V_1..V_M but
the SCM emitted Z_0, V_1, Z_1, V_2, Z_2, ..., so back-door arms mixed
columns of different variables and did not use the adjustment set they are
named after.
---
 causal_effect_bandits/paper_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index cb15e16..028a641 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -481,13 +481,14 @@ def generate_example_from_cpd(
   for i in range(1, num_back_door_paths + 1):
     var_names.append('V' + str(i))
     var_names.append('Z' + str(i))
-    cov_variables.append('V' + str(i))
     cov_variables.append('Z' + str(i))
     parents['V' + str(i)] = []
     parents['Z' + str(i)] = ['V' + str(i)]
     parents['Y'].append('Z' + str(i))
     parents['X'].append('V' + str(i))
 
+  # The indices below assume that all the Z_i come before all the V_i.
+  cov_variables.extend('V' + str(i) for i in range(1, num_back_door_paths + 1))
   var_names.extend(['X', 'Z0', 'Y'])
 
   scm_gen = scm.SCM(
-- 
2.43.0


From 6d9a94055fcacaadb6d626c472a5dc816dfebad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 21/23] fix: the section 5.2 instance must be determined by its
 seed

Edge strengths and the Gaussian process samples were drawn from the global
numpy generator instead of the one seeded with the given seed.
---
 causal_effect_bandits/paper_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index 028a641..fd21c00 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -197,7 +197,7 @@ def get_section_5_2_cpds(
 
   beta = [.2 * rng.standard_normal(size=(z_dim[0]))]
   for i in range(1, num_back_door_paths + 1):
-    strength = np.random.uniform(.1, 1.9)
+    strength = rng.uniform(.1, 1.9)
     # V
     mu_v.append(0 * rng.standard_normal(size=v_dim[i]))
     cov_v.append(1 * np.identity(v_dim[i]))
@@ -266,6 +266,7 @@ def get_section_5_2_cpds(
             min_x=-2,
             max_x=2,
             n_points=10,
+            seed=int(rng.integers(10000)),
             alpha=1e0))
 
   # f_y should have shape (n_units,1)
@@ -281,6 +282,7 @@ def get_section_5_2_cpds(
             min_x=-2,
             max_x=2,
             n_points=10,
+            seed=int(rng.integers(10000)),
             alpha=1e0))
 
   # f_x should have shape (n_units,1)
@@ -325,6 +327,7 @@ def get_section_5_2_cpds(
         min_x=-1,
         max_x=1,
         n_points=10,
+        seed=int(rng.integers(10000)),
         alpha=1e0)
     cpds['V' + str(i)] = make_v_cpd(mean=mu_v[i], cov=cov_v[i])
     cpds['Z' + str(i)] = make_z_cpd(f=f_z, mean=mu_z[i], cov=cov_z[i])
-- 
2.43.0


From 1bb5eb41c1327198665afe98b54c0a77fc4ab6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:58 +0000
Subject: [PATCH 22/23] fix: linear distributions must accept integer parents
 and coefficients

The in-place sums failed with UFuncTypeError when the first term was an
integer array (e.g. a binary parent with an integer coefficient).
---
 causal_effect_bandits/scm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index 979eee1..ac7995b 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -181,7 +181,7 @@ def normal_cpd(parents, betas, mean, cov):
   n_units = len(parents[0])
   total_mean = parents[0].dot(betas[0])
   for i in range(1, len(parents)):
-    total_mean += parents[i].dot(betas[i])
+    total_mean = total_mean + parents[i].dot(betas[i])
   if total_mean.ndim == 1:  # Y is univariate
     return total_mean + np.random.normal(mean, np.sqrt(cov), size=n_units)
   else:
@@ -236,7 +236,7 @@ def transformed_normal_cpd(parents, betas, fns, mean, cov):
     raise ValueError("parents and fns should be the same length.")
   total_mean = fns[0](parents[0].dot(betas[0]))
   for i in range(1, len(parents)):
-    total_mean += fns[i](parents[i].dot(betas[i]))
+    total_mean = total_mean + fns[i](parents[i].dot(betas[i]))
 
   # infer whether the output should be 1 or 2 dim from mean
   if np.ndim(mean) == 0:  # we should return (n_units,) array
@@ -304,7 +304,7 @@ def logistic_linear_bernoulli_cpd(parents, gammas):
   def f(parents):
     params = 0
     for i in range(len(parents)):
-      params += parents[i].dot(gammas[i])
+      params = params + parents[i].dot(gammas[i])
     return params
 
   return logistic_bernoulli_cpd(parents, f)
-- 
2.43.0


From 44edf5b3e9b17b14a9737dac8646067d82e18dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:04 +0000
Subject: [PATCH 23/23] fix: add_gaussian_noise must accept a 1x1 covariance
 matrix

The documented shape of cov for a one-dimensional variable is (1, 1), which
np.random.normal rejected.
---
 causal_effect_bandits/scm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index ac7995b..af67907 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -207,7 +207,9 @@ def add_gaussian_noise(x, mean, cov):
                         x.shape[1] == 1):  # variable is one-dimensional
     if np.ndim(mean) > 1:
       raise ValueError("The dimensions of x and mean are not compatible")
-    return x.flatten() + np.random.normal(mean, np.sqrt(cov), size=n_units)
+    # cov may be a float or a (1, 1) matrix
+    return x.flatten() + np.random.normal(
+        mean, np.sqrt(np.squeeze(cov)), size=n_units)
   else:  # variable is multi-dimensional
     if x.shape[1] != len(mean):
       raise ValueError("The dimensions of x and mean are not compatible")
-- 
2.43.0

