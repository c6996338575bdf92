From 2725d7248007aea3db21ef9632491ca370fb5581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 01/35] fix: compute_epsilon ignored the RDP of an infinite
 order

---
 .../dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index ec00763..186c3d2 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -263,6 +263,9 @@ def compute_epsilon(
       # In this case, we can simply bound via KL divergence:
       # delta <= sqrt(1-exp(-KL)).
       epsilon = 0  # No need to try further computation if we have epsilon = 0.
+    elif np.isinf(a):
+      # RDP of infinite order is pure differential privacy.
+      epsilon = r
     elif a > 1.01:
       # This bound is not numerically stable as alpha->1.
       # Thus we have a min value of alpha.
-- 
2.43.0


From e214b1206a76205e149ee3cfda556c33d9963c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 02/35] fix: PLDAccountant ignored the count of randomized
 response events

---
 .../dp_accounting/dp_accounting/pld/pld_privacy_accountant.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
index 5fafb0b..6a989c4 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
@@ -76,7 +76,7 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
               num_buckets=event.num_buckets,
               value_discretization_interval=self._value_discretization_interval,
               neighboring_relation=self._neighboring_relation,
-          )
+          ).self_compose(count)
           self._pld = self._pld.compose(rr_pld)
       return None
     elif isinstance(event, dp_event.GaussianDpEvent):
-- 
2.43.0


From ffb065a68033e82363e936a0a2b1a046b0894a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 03/35] fix: PLDAccountant failed on randomized response that
 is pure noise

---
 .../dp_accounting/pld/pld_privacy_accountant.py              | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
index 6a989c4..47dade7 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
@@ -65,8 +65,9 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
         return CompositionErrorDetails(
             invalid_event=event, error_message=error_msg)
       if do_compose:
-        if event.num_buckets == 1:
-          # This is a NoOp event, even when noise_parameter is zero.
+        if event.num_buckets == 1 or event.noise_parameter == 1:
+          # This is a NoOp event, even when noise_parameter is zero. A response
+          # that is always drawn uniformly does not depend on the data either.
           pass
         elif event.noise_parameter == 0:
           self._contains_non_dp_event = True
-- 
2.43.0


From 9dd316b8e01e41489c8dffbcb5ad8a690e6a369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 04/35] fix: integer noise multipliers were not composed inside
 sampled events

---
 .../dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 186c3d2..06ed6ed 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -571,13 +571,13 @@ def _effective_gaussian_noise_multiplier(
     sum_sigma_inv_sq = 0
     for e in event.events:
       sigma = _effective_gaussian_noise_multiplier(e)
-      if not isinstance(sigma, float):
+      if isinstance(sigma, dp_event.DpEvent):
         return sigma
       sum_sigma_inv_sq += sigma**-2
     return sum_sigma_inv_sq**-0.5
   elif isinstance(event, dp_event.SelfComposedDpEvent):
     sigma = _effective_gaussian_noise_multiplier(event.event)
-    if not isinstance(sigma, float):
+    if isinstance(sigma, dp_event.DpEvent):
       return sigma
     return sigma * event.count**-0.5
   else:
-- 
2.43.0


From d888e2f9abe0f41232f65f4d3b6edbf8acc3bea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 05/35] fix: ZeroDivisionError for noiseless or empty
 compositions inside sampled events

---
 .../dp_accounting/rdp/rdp_privacy_accountant.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 06ed6ed..c0ef406 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -568,13 +568,13 @@ def _effective_gaussian_noise_multiplier(
   if isinstance(event, dp_event.GaussianDpEvent):
     return event.noise_multiplier
   elif isinstance(event, dp_event.ComposedDpEvent):
-    sum_sigma_inv_sq = 0
+    sum_sigma_inv_sq = 0.0
     for e in event.events:
       sigma = _effective_gaussian_noise_multiplier(e)
       if isinstance(sigma, dp_event.DpEvent):
         return sigma
-      sum_sigma_inv_sq += sigma**-2
-    return sum_sigma_inv_sq**-0.5
+      sum_sigma_inv_sq += math.inf if sigma == 0 else sigma**-2
+    return math.inf if sum_sigma_inv_sq == 0 else sum_sigma_inv_sq**-0.5
   elif isinstance(event, dp_event.SelfComposedDpEvent):
     sigma = _effective_gaussian_noise_multiplier(event.event)
     if isinstance(sigma, dp_event.DpEvent):
-- 
2.43.0


From 9ada517a52070f6dd3b6da86870877b932a2aa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 06/35] fix: RdpAccountant failed on Laplace and sampled
 Gaussian events without noise

---
 .../dp_accounting/rdp/rdp_privacy_accountant.py    | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index c0ef406..8c2e27a 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -449,6 +449,9 @@ def _compute_rdp_sample_wor_gaussian_scalar(
   if q == 0:
     return 0
 
+  if sigma == 0:
+    return np.inf
+
   if q == 1.0:
     return alpha / (2 * sigma**2)
 
@@ -1101,10 +1104,13 @@ class RdpAccountant(privacy_accountant.PrivacyAccountant):
       return None
     elif isinstance(event, dp_event.LaplaceDpEvent):
       if do_compose:
-        eps = 1 / event.noise_multiplier
-        self._rdp += count * np.array(
-            [_laplace_rdp(eps, order) for order in self._orders]
-        )
+        if event.noise_multiplier == 0:
+          self._rdp += np.inf
+        else:
+          eps = 1 / event.noise_multiplier
+          self._rdp += count * np.array(
+              [_laplace_rdp(eps, order) for order in self._orders]
+          )
       return None
     elif isinstance(event, dp_event.RepeatAndSelectDpEvent):
       save_rdp = self._rdp
-- 
2.43.0


From 05582a28fedee4b74ba4889cafe2d6f930519aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 07/35] fix: repeat-and-select of a non-private event gave NaN
 at order 1

---
 .../dp_accounting/rdp/rdp_privacy_accountant.py             | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 8c2e27a..7862180 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -812,7 +812,11 @@ def _compute_rdp_repeat_and_select(
     # orders[i] = lambda, rdp[i] = epsilon,
     # orders[j] = lambdahat, rdp[j] = epsilonhat
     # First compute constant term
-    c = (1 + shape) * np.min((1 - 1 / orders) * rdp - math.log(gamma) / orders)
+    # An infinite RDP gives no bound, also at order 1 where its factor is 0.
+    rdp = np.asarray(rdp, dtype=np.float64)
+    with np.errstate(invalid='ignore'):
+      bounds = (1 - 1 / orders) * rdp - math.log(gamma) / orders
+    c = (1 + shape) * np.min(np.where(np.isinf(rdp), np.inf, bounds))
     for i in range(len(orders)):
       if orders[i] > 1:  # Otherwise our formula is invalid.
         rdp_out[i] = rdp[i] + math.log(mean) / (orders[i] - 1) + c
-- 
2.43.0


From cbd9cbed2cca8a4a6ba3b6d22ce295592b0c40dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 08/35] fix: an invalid repeat-and-select event erased the RDP
 composed before it

---
 .../rdp/rdp_privacy_accountant.py             | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 7862180..2b15dc6 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -1124,15 +1124,20 @@ class RdpAccountant(privacy_accountant.PrivacyAccountant):
         # Zero out self._rdp before computing the RDP of the underlying
         # DP event.
         self._rdp = np.zeros_like(self._orders, dtype=np.float64)
-      composition_error = self._maybe_compose(event.event, 1, do_compose)
-      if composition_error is None and do_compose:
-        self._rdp = (
-            count
-            * _compute_rdp_repeat_and_select(
-                self._orders, self._rdp, event.mean, event.shape
-            )
-            + save_rdp
-        )
+      try:
+        composition_error = self._maybe_compose(event.event, 1, do_compose)
+        if composition_error is None and do_compose:
+          save_rdp = (
+              count
+              * _compute_rdp_repeat_and_select(
+                  self._orders, self._rdp, event.mean, event.shape
+              )
+              + save_rdp
+          )
+      finally:
+        # Also if an event is invalid, what was composed before must not be
+        # forgotten.
+        self._rdp = save_rdp
       return composition_error
     elif isinstance(event, dp_event.RandomizedResponseDpEvent):
       if self._neighboring_relation not in [
-- 
2.43.0


From b9cade65dc4e4dfe0feb5f754c978833ef7e53ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 09/35] fix: mixture of Gaussians failed on epsilons next to
 the largest privacy loss

---
 .../dp_accounting/pld/privacy_loss_mechanism.py           | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index d67a420..b960ad4 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -2291,6 +2291,10 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
             f'-log(1 - sampling_prob)={-log_1m_prob}.'
         )
       finite_indices = np.logical_not(np.isclose(privacy_losses, -log_1m_prob))
+      if not finite_indices.any():
+        return self.privacy_loss_for_single_gaussian(
+            np.full_like(privacy_losses, np.inf)
+        )
       max_pl = np.max(privacy_losses[finite_indices])
     else:  # Case: self.adjacency_type == AdjacencyType.REMOVE
       if min_pl <= log_1m_prob:
@@ -2299,6 +2303,10 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
             f'log(1 - sampling_prob)={log_1m_prob}'
         )
       finite_indices = np.logical_not(np.isclose(privacy_losses, log_1m_prob))
+      if not finite_indices.any():
+        return self.privacy_loss_for_single_gaussian(
+            np.full_like(privacy_losses, -np.inf)
+        )
       min_pl = np.min(privacy_losses[finite_indices])
 
     # Now, we need to determine a suitable range to binary search over. To do
-- 
2.43.0


From 0ee5dec30902495f499146ad97cab1064e736e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 10/35] fix: mixture of Gaussians without a zero sensitivity
 always samples, whatever its probabilities round to

---
 .../dp_accounting/pld/privacy_loss_mechanism.py            | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index b960ad4..ef3badc 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -1946,7 +1946,12 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
     # Constant properties.
     self._log_sampling_probs = np.log(self.sampling_probs)
     self._pos_sampling_probs = self.sampling_probs[self.sensitivities > 0.0]
-    self._sampling_prob = np.clip(self._pos_sampling_probs.sum(), 0, 1)
+    # The probabilities may add up to 1 only up to rounding; without a zero
+    # sensitivity, a non-zero one is always sampled.
+    if np.all(self.sensitivities > 0.0):
+      self._sampling_prob = 1.0
+    else:
+      self._sampling_prob = np.clip(self._pos_sampling_probs.sum(), 0, 1)
     nonzero_sens = self.sensitivities[self.sensitivities > 0.0]
     self._min_sens = np.min(nonzero_sens)
     self._max_sens = np.max(nonzero_sens)
-- 
2.43.0


From 38583c1ded1ea844782b46e0297bf743c497ce71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:00 +0000
Subject: [PATCH 11/35] fix: epsilon for a delta equal to the infinity mass
 skips losses of zero probability

_get_epsilon_for_delta returned the largest loss of the support even when that
loss (and possibly others below it) has probability zero, so that a much
smaller epsilon already has the target delta.
---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index e798abd..8061734 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -143,7 +143,7 @@ def _get_epsilon_for_delta(infinity_mass: float,
     mass_upper += prob
     mass_lower += math.exp(-loss) * prob
 
-    if mass_upper >= delta and mass_lower == 0:
+    if mass_upper > delta and mass_lower == 0:
       # This only occurs when loss is very large, which results in exp(-loss)
       # being treated as zero.
       return max(0, loss)
-- 
2.43.0


From e8735ff3f4e2d7b3d9c3c896623321478649b356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:00 +0000
Subject: [PATCH 12/35] fix: composition failed when the whole finite mass may
 be truncated

_truncate_tails raised IndexError if all the probabilities together are at most
half of tail_mass_truncation, e.g. when composing a privacy loss distribution
whose infinity mass is (nearly) 1.
---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 8061734..f235ddc 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -186,7 +186,9 @@ def _truncate_tails(probs: ArrayLike, tail_mass_truncation: float,
         return i
     return len(arr)
 
-  left_idx = _find_prefix_to_truncate(probs, tail_mass_truncation / 2)
+  # At least one element is kept, also when the whole mass may be truncated.
+  left_idx = min(_find_prefix_to_truncate(probs, tail_mass_truncation / 2),
+                 len(probs) - 1)
   right_idx = len(probs) - _find_prefix_to_truncate(
       np.flip(probs), tail_mass_truncation / 2)
   # Be sure that left_idx < right_idx. left_idx >= right_idx might be when
-- 
2.43.0


From fbcea98db2dc262a5608630fa71767b6af5e8f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:00 +0000
Subject: [PATCH 13/35] fix: truncation bounds of a convolution crossed when
 its whole mass is negligible

compute_self_convolve_bounds returned a lower bound above the upper bound (or
raised OverflowError for zero mass), and self_convolve then returned an empty
list that cannot be composed any further.
---
 python/dp_accounting/dp_accounting/pld/common.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/common.py b/python/dp_accounting/dp_accounting/pld/common.py
index e468c9a..e081f6b 100644
--- a/python/dp_accounting/dp_accounting/pld/common.py
+++ b/python/dp_accounting/dp_accounting/pld/common.py
@@ -229,7 +229,8 @@ def compute_self_convolve_bounds(
     A pair of upper and lower bounds for which the mass of the result of
     convolution outside of this range is at most tail_mass_truncation.
   """
-  upper_bound = (len(input_list) - 1) * num_times
+  max_index = (len(input_list) - 1) * num_times
+  upper_bound = max_index
   lower_bound = 0
 
   if tail_mass_truncation == 0:
@@ -253,11 +254,12 @@ def compute_self_convolve_bounds(
     bound = (num_times * log_mgf_value +
              math.log(2 / tail_mass_truncation)) / order
     if order > 0:
-      upper_bound = min(upper_bound, math.ceil(bound))
+      upper_bound = min(upper_bound, math.ceil(max(bound, 0)))
     if order < 0:
-      lower_bound = max(lower_bound, math.floor(bound))
+      lower_bound = max(lower_bound, math.floor(min(bound, max_index)))
 
-  return lower_bound, upper_bound
+  # The bounds cross when the whole mass is less than tail_mass_truncation.
+  return min(lower_bound, upper_bound), upper_bound
 
 
 def self_convolve(input_list: ArrayLike,
-- 
2.43.0


From 6edc49ef71ae73563ab5aef2e5bac9edb93db188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:00 +0000
Subject: [PATCH 14/35] fix: self-composition of a privacy loss distribution
 with infinity mass 1 raised ValueError

---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index f235ddc..ddd655a 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -363,8 +363,11 @@ class DensePLDPmf(PLDPmf):
     # infinity mass after composition is given as
     # tail_mass_truncation + 1 - (1 - infinity_mass)**num_times
     # Below we use a numerically stable approach to compute the second term.
-    inf_prob = (tail_mass_truncation
-                - math.expm1(num_times * math.log1p(- self._infinity_mass)))
+    if self._infinity_mass >= 1:
+      inf_prob = 1.0
+    else:
+      inf_prob = min(1.0, tail_mass_truncation - math.expm1(
+          num_times * math.log1p(- self._infinity_mass)))
     return DensePLDPmf(self._discretization, lower_loss, probs,
                        inf_prob, self._pessimistic_estimate)
 
-- 
2.43.0


From cc182761d22a699669d72b35dfea428d2f5700b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:27 +0000
Subject: [PATCH 15/35] fix: distributions of mechanisms with disjoint output
 supports could not be composed

from_two_probability_mass_functions returned a distribution without any finite
loss, for which compose (IndexError) and the conversion to dense storage
(ValueError) failed.
---
 .../dp_accounting/pld/privacy_loss_distribution.py            | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
index b22df0f..fcdeb4d 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
@@ -755,6 +755,10 @@ def from_two_probability_mass_functions(
     round_fn = math.ceil if pessimistic_estimate else math.floor
     for val in pmf:
       rounded_pmf[round_fn(val / value_discretization_interval)] += pmf[val]
+    if not rounded_pmf:
+      # No finite privacy loss (e.g. disjoint supports): keep the support
+      # non-empty, so that the distribution can be composed.
+      rounded_pmf[0] = 0.0
     return infinity_mass, rounded_pmf
 
   infinity_mass, rounded_probability_mass_function = (
-- 
2.43.0


From 9f5954f6d83fa994d0703eff2c6e4ae0212b803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:55 +0000
Subject: [PATCH 16/35] fix: sorted epsilons were refused if they contain
 infinity twice

---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index ddd655a..e16e157 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -76,7 +76,8 @@ def _get_delta_for_epsilon_vectorized(infinity_mass: float,
   Returns:
     The list of epsilon-hockey stick divergences for epsilons.
   """
-  are_epsilons_sorted = np.all(np.diff(epsilons) >= 0)
+  epsilons = np.asarray(epsilons)
+  are_epsilons_sorted = np.all(epsilons[:-1] <= epsilons[1:])
   if not are_epsilons_sorted:
     raise ValueError(
         'Epsilons in get_delta_for_epsilon must be sorted in ascending order')
-- 
2.43.0


From d1c0bd8cd57fdb007cafc44e06bc2cccd0b9f3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:57 +0000
Subject: [PATCH 17/35] fix: monotone-function search hung when the tolerance
 is below the floating-point resolution

---
 python/dp_accounting/dp_accounting/pld/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/common.py b/python/dp_accounting/dp_accounting/pld/common.py
index e081f6b..810639e 100644
--- a/python/dp_accounting/dp_accounting/pld/common.py
+++ b/python/dp_accounting/dp_accounting/pld/common.py
@@ -111,6 +111,9 @@ def inverse_monotone_function(func: Callable[[float], float],
       mid_x = (upper_x + lower_x) // 2
     else:
       mid_x = (upper_x + lower_x) / 2
+      if mid_x in (lower_x, upper_x):
+        # The tolerance is below the floating-point resolution.
+        break
 
     if check(func(mid_x), value):
       lower_x = mid_x
-- 
2.43.0


From 23d7444191d0c065024af65df751a4b9b407cdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:57 +0000
Subject: [PATCH 18/35] fix: discrete monotone-function search missed a bound
 of the range that qualifies

---
 python/dp_accounting/dp_accounting/pld/common.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/common.py b/python/dp_accounting/dp_accounting/pld/common.py
index 810639e..a298217 100644
--- a/python/dp_accounting/dp_accounting/pld/common.py
+++ b/python/dp_accounting/dp_accounting/pld/common.py
@@ -120,6 +120,13 @@ def inverse_monotone_function(func: Callable[[float], float],
     else:
       upper_x = mid_x
 
+  if search_parameters.discrete and lower_x < upper_x:
+    # The last end point may be a bound that has not been compared with value.
+    if increasing and func(upper_x) <= value:
+      return upper_x
+    if not increasing and func(lower_x) <= value:
+      return lower_x
+
   if increasing:
     return lower_x
   else:
-- 
2.43.0


From 0eb34214f2ed2c7efdbe541443b598a86ed45ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 19/35] fix: calibration tried parameters outside the bracket

---
 .../dp_accounting/mechanism_calibration.py             | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/mechanism_calibration.py b/python/dp_accounting/dp_accounting/mechanism_calibration.py
index 773f7ba..330d68a 100644
--- a/python/dp_accounting/dp_accounting/mechanism_calibration.py
+++ b/python/dp_accounting/dp_accounting/mechanism_calibration.py
@@ -268,10 +268,12 @@ def calibrate_dp_mechanism(
     # Considering brentq's contract that there exists a root within tol of the
     # returned value, in most cases adding +/- tol will suffice.
     if epsilon_gap(root) > 0:
-      if epsilon_gap(root + tol) < 0:
-        root += tol
-      elif epsilon_gap(root - tol) < 0:
-        root -= tol
+      lower, upper = sorted(
+          (bracket_interval.endpoint_1, bracket_interval.endpoint_2))
+      if epsilon_gap(min(root + tol, upper)) < 0:
+        root = min(root + tol, upper)
+      elif epsilon_gap(max(root - tol, lower)) < 0:
+        root = max(root - tol, lower)
       else:
         root = None
 
-- 
2.43.0


From b9cb365fba19a16bd02ef38219d729b9a3fa570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 20/35] fix: bisection over a bracket with reversed end points
 did not search

---
 python/dp_accounting/dp_accounting/mechanism_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/mechanism_calibration.py b/python/dp_accounting/dp_accounting/mechanism_calibration.py
index 330d68a..2b33905 100644
--- a/python/dp_accounting/dp_accounting/mechanism_calibration.py
+++ b/python/dp_accounting/dp_accounting/mechanism_calibration.py
@@ -135,7 +135,7 @@ def _bisect(
   if lower_value * upper_value > 0:
     raise ValueError('Values must have opposite signs.')
 
-  if upper - lower <= tol:
+  if abs(upper - lower) <= tol:
     return lower if lower_value < 0 else upper
 
   middle = (lower + upper) / 2
-- 
2.43.0


From 7c322cdd7e892f045523c8ad5ecc0cc284df7271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 21/35] fix: bisection recursed without end when the tolerance
 is below the floating-point resolution

---
 python/dp_accounting/dp_accounting/mechanism_calibration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/mechanism_calibration.py b/python/dp_accounting/dp_accounting/mechanism_calibration.py
index 2b33905..4ce93d9 100644
--- a/python/dp_accounting/dp_accounting/mechanism_calibration.py
+++ b/python/dp_accounting/dp_accounting/mechanism_calibration.py
@@ -135,10 +135,11 @@ def _bisect(
   if lower_value * upper_value > 0:
     raise ValueError('Values must have opposite signs.')
 
-  if abs(upper - lower) <= tol:
+  middle = (lower + upper) / 2
+  # Neighbouring floats may be further apart than tol.
+  if abs(upper - lower) <= tol or middle in (lower, upper):
     return lower if lower_value < 0 else upper
 
-  middle = (lower + upper) / 2
   middle_value = function(middle)
 
   if middle_value == 0:
-- 
2.43.0


From 5aaf2d1eed858bd0b2ccc8d64cbe2e5d254d1c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 22/35] fix: RDP of sampled Gaussian events at order 1

The formulas divide by order - 1. The result was NaN or even -inf, which
compute_epsilon turns into epsilon 0.
---
 .../dp_accounting/rdp/rdp_privacy_accountant.py           | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 2b15dc6..6b5b3ce 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -395,6 +395,10 @@ def _compute_rdp_poisson_subsampled_gaussian(
     if q == 1.0:
       return alpha / (2 * noise_multiplier**2)
 
+    if alpha == 1:
+      # The formula does not apply. RDP does not decrease with the order.
+      alpha = 2
+
     return _compute_log_a(q, noise_multiplier, alpha) / (alpha - 1)
 
   return np.array([compute_one_order(q, order) for order in orders])
@@ -458,6 +462,10 @@ def _compute_rdp_sample_wor_gaussian_scalar(
   if np.isinf(alpha):
     return np.inf
 
+  if alpha == 1:
+    # The formula does not apply. RDP does not decrease with the order.
+    alpha = 2
+
   if float(alpha).is_integer():
     return _compute_rdp_sample_wor_gaussian_int(q, sigma, int(alpha)) / (
         alpha - 1
-- 
2.43.0


From 0742ec20451d970df5e7df54921ca0ea1aa980ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 23/35] fix: composed Gaussians with numpy integer noise
 multipliers

NumPy integers cannot be raised to negative integer powers.
---
 .../dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 6b5b3ce..7b99db2 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -584,7 +584,7 @@ def _effective_gaussian_noise_multiplier(
       sigma = _effective_gaussian_noise_multiplier(e)
       if isinstance(sigma, dp_event.DpEvent):
         return sigma
-      sum_sigma_inv_sq += math.inf if sigma == 0 else sigma**-2
+      sum_sigma_inv_sq += math.inf if sigma == 0 else sigma**-2.0
     return math.inf if sum_sigma_inv_sq == 0 else sum_sigma_inv_sq**-0.5
   elif isinstance(event, dp_event.SelfComposedDpEvent):
     sigma = _effective_gaussian_noise_multiplier(event.event)
-- 
2.43.0


From 15a79d9dcc496f593ca203b5ad70c81158093da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 24/35] fix: sampling without replacement with a large noise
 multiplier

1 - exp(-x) rounds to 0 for small x, so that its logarithm raised
'math domain error' for noise multipliers of 1e8 and more, or infinity (an empty
composition).
---
 .../dp_accounting/rdp/rdp_privacy_accountant.py          | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 7b99db2..5312f65 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -43,10 +43,10 @@ def _log_sub_sign(logx: float, logy: float) -> Tuple[bool, float]:
   """Returns log(exp(logx)-exp(logy)) and its sign."""
   if logx > logy:
     s = True
-    mag = logx + math.log1p(-np.exp(logy - logx))
+    mag = logx + np.log(-np.expm1(logy - logx))
   elif logx < logy:
     s = False
-    mag = logy + np.log1p(-np.exp(logx - logy))
+    mag = logy + np.log(-np.expm1(logx - logy))
   else:
     s = True
     mag = -np.inf
@@ -456,6 +456,9 @@ def _compute_rdp_sample_wor_gaussian_scalar(
   if sigma == 0:
     return np.inf
 
+  if sigma == np.inf:
+    return 0
+
   if q == 1.0:
     return alpha / (2 * sigma**2)
 
@@ -517,7 +520,7 @@ def _compute_rdp_sample_wor_gaussian_int(
   # Initialize with 1 in the log space.
   log_a = 0
   # Calculates the log term when alpha = 2
-  log_f2m1 = func(2.0) + math.log1p(-np.exp(-func(2.0)))
+  log_f2m1 = func(2.0) + math.log(-math.expm1(-func(2.0)))
   if alpha <= max_alpha:
     # We need forward differences of exp(cgf)
     # The following line is the numerically stable way of implementing it.
-- 
2.43.0


From 46a41bc3326c8a1aae95bf2f2d2e71d44d0375a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 25/35] fix: RDP of the Laplace mechanism at infinite order

RdpAccountant accepts infinite orders, but composing a LaplaceDpEvent raised
ValueError. The RDP of infinite order is the pure DP guarantee.
---
 .../dp_accounting/rdp/rdp_privacy_accountant.py             | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 5312f65..9ee27cc 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -862,10 +862,12 @@ def _laplace_rdp(eps: float, order: float) -> float:
   eps = float(eps)
   if not math.isfinite(eps) or eps < 0:
     raise ValueError(f'eps must be > 0. Got {eps}')
-  if not math.isfinite(a) or a < 1:
+  if math.isnan(a) or a < 1:
     raise ValueError(f'order must be >= 1. Got {a}')
 
-  if a == 1:  # KL divergence
+  if math.isinf(a):
+    return eps
+  elif a == 1:  # KL divergence
     # Taking the limit as order->1 gives the following expression.
     return eps + math.expm1(-eps)
   elif a < 1.1:  # 1 < order <= 1.1
-- 
2.43.0


From 5facff9da45418b1d37f23c5569c2ca2af6f6482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:38 +0000
Subject: [PATCH 26/35] fix: Poisson-sampled Gaussian with infinite noise
 multiplier

An empty composition has an infinite noise multiplier. Its RDP was infinite at
fractional orders, and could be negative at integer orders.
---
 .../dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 9ee27cc..a63be82 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -395,6 +395,9 @@ def _compute_rdp_poisson_subsampled_gaussian(
     if q == 1.0:
       return alpha / (2 * noise_multiplier**2)
 
+    if np.isinf(noise_multiplier):
+      return 0
+
     if alpha == 1:
       # The formula does not apply. RDP does not decrease with the order.
       alpha = 2
-- 
2.43.0


From 9b2c31941bb8e5d6b1dd0d648193b58460d3af31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 27/35] fix: RDP of a tree aggregation event without steps at
 infinite order

inf * 0 is NaN, which made epsilon 0 whatever else was composed.
---
 .../dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index a63be82..b8aa4c1 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -645,6 +645,8 @@ def _compute_rdp_single_epoch_tree_aggregation(
       raise ValueError(f'Steps must be non-negative. Got {step_counts}')
 
   max_depth = math.ceil(math.log2(max(step_counts) + 1))
+  if max_depth == 0:
+    return np.zeros(len(orders))
   return np.array([a * max_depth / (2 * noise_multiplier**2) for a in orders])
 
 
-- 
2.43.0


From 0d98c22d633279c24a52cf8bec068143e0df027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:56 +0000
Subject: [PATCH 28/35] fix: negative noise multipliers when sampling without
 replacement

They raise ValueError in all other events, but were squared silently here.
---
 .../dp_accounting/rdp/rdp_privacy_accountant.py           | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index b8aa4c1..bea834e 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -430,7 +430,15 @@ def _compute_rdp_sample_wor_gaussian(
 
   Returns:
     The RDPs at all orders, can be np.inf.
+
+  Raises:
+    ValueError: If noise_multiplier is negative.
   """
+  if noise_multiplier < 0:
+    raise ValueError(
+        f'Noise multiplier must be non-negative: {noise_multiplier}'
+    )
+
   return np.array([
       _compute_rdp_sample_wor_gaussian_scalar(q, noise_multiplier, order)
       for order in orders
-- 
2.43.0


From ff9f923b2786dcf204a7c2c79043f6de3775b3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:33 +0000
Subject: [PATCH 29/35] fix: search all the sensitivities' inverses for a
 mixture's inverse privacy loss

The density ratio of a single Gaussian is not monotone in its sensitivity, so
with three or more positive sensitivities the inverse may lie outside of the
range spanned by the smallest and the largest.
---
 .../pld/privacy_loss_mechanism.py             | 25 ++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index ef3badc..7b25677 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -1953,7 +1953,6 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
     else:
       self._sampling_prob = np.clip(self._pos_sampling_probs.sum(), 0, 1)
     nonzero_sens = self.sensitivities[self.sensitivities > 0.0]
-    self._min_sens = np.min(nonzero_sens)
     self._max_sens = np.max(nonzero_sens)
     self._gaussian_random_variable = stats.norm(scale=standard_deviation)
 
@@ -2316,19 +2315,17 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
 
     # Now, we need to determine a suitable range to binary search over. To do
     # this, we consider the subsampled Gaussian mechanisms given by moving
-    # all the probability mass on non-zero sensitivities to either the
-    # smallest or largest sensitivity. We can show the privacy loss of the
-    # mixture is contained between these two mechanisms' privacy losses, and
-    # the subsampled Gaussian privacy loss is easy to invert. Then, we can
-    # compute the inverse privacy loss at min_pl and max_pl to get four
-    # candidate bounds, and take the min/max of these bounds.
-    loss_bounds = np.array([min_pl, min_pl, max_pl, max_pl])
-    sens_bounds = np.array([
-        self._min_sens,
-        self._max_sens,
-        self._min_sens,
-        self._max_sens,
-    ])
+    # all the probability mass on non-zero sensitivities to a single one of
+    # them. The density ratio of the mixture is an average of the density ratios
+    # of these mechanisms, so its inverse privacy loss is contained between the
+    # smallest and the largest of theirs, and the subsampled Gaussian privacy
+    # loss is easy to invert. (The smallest and largest sensitivities alone do
+    # not suffice, as the density ratio at a point is not monotone in the
+    # sensitivity.) Then, we can compute these inverse privacy losses at min_pl
+    # and max_pl to get the candidate bounds, and take the min/max of them.
+    pos_sens = self.sensitivities[self.sensitivities > 0.0]
+    loss_bounds = np.repeat([min_pl, max_pl], len(pos_sens))
+    sens_bounds = np.tile(pos_sens, 2)
     if self.adjacency_type == AdjacencyType.ADD:
       pl_without_sampling = _pl_without_sampling_add
     else:  # Case: self.adjacency_type == AdjacencyType.REMOVE
-- 
2.43.0


From 733ed78ea5cb7a12d2fefd19dbec705c14782ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:31 +0000
Subject: [PATCH 30/35] fix: advanced composition lost small deltas to
 cancellation

---
 python/dp_accounting/dp_accounting/pld/accountant.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/accountant.py b/python/dp_accounting/dp_accounting/pld/accountant.py
index 59d9b9c..77bc599 100644
--- a/python/dp_accounting/dp_accounting/pld/accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/accountant.py
@@ -224,6 +224,13 @@ def get_smallest_subsampled_gaussian_noise(
   return parameter if parameter is not None else upper_bound
 
 
+def _composed_delta(delta: float, num_queries: int, delta_i: float) -> float:
+  """Computes 1 - (1 - delta)^num_queries * (1 - delta_i) accurately."""
+  if delta >= 1 or delta_i >= 1:
+    return 1.0
+  return -math.expm1(num_queries * math.log1p(-delta) + math.log1p(-delta_i))
+
+
 def advanced_composition(
     privacy_parameters: common.DifferentialPrivacyParameters,
     num_queries: int,
@@ -266,7 +273,7 @@ def advanced_composition(
       delta_i += special.binom(k, l) * (
           math.exp(epsilon * (k - l)) - math.exp(epsilon * (k - 2 * i + l)))
     delta_i /= ((1 + math.exp(epsilon))**k)
-    if 1 - ((1 - delta) ** k) * (1 - delta_i) <= total_delta:
+    if _composed_delta(delta, k, delta_i) <= total_delta:
       return epsilon * (k - 2 * i)
   return None
 
@@ -296,7 +303,8 @@ def get_smallest_epsilon_from_advanced_composition(
     1 - (1 - delta)^num_queries for which no guarantee of
     total_privacy_parameters DP is possible for any value of epsilon.
   """
-  if 1 - ((1 - delta) ** num_queries) > total_privacy_parameters.delta:
+  if (_composed_delta(delta, num_queries, 0) >
+      total_privacy_parameters.delta):
     return None
 
   search_parameters = common.BinarySearchParameters(
-- 
2.43.0


From 873315c1e847c607c327e284145833e3fe21a433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:31 +0000
Subject: [PATCH 31/35] fix: no epsilon was found when basic composition
 attains the total epsilon up to rounding

---
 python/dp_accounting/dp_accounting/pld/accountant.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/accountant.py b/python/dp_accounting/dp_accounting/pld/accountant.py
index 77bc599..fc15d8c 100644
--- a/python/dp_accounting/dp_accounting/pld/accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/accountant.py
@@ -316,8 +316,11 @@ def get_smallest_epsilon_from_advanced_composition(
     return advanced_composition(privacy_parameters, num_queries,
                                 total_privacy_parameters.delta)
 
-  return common.inverse_monotone_function(
+  epsilon = common.inverse_monotone_function(
       get_total_epsilon_for_epsilon,
       total_privacy_parameters.epsilon,
       search_parameters,
       increasing=True)
+  # The lower bound of the search is always valid, by basic composition, though
+  # multiplying it by num_queries may exceed total epsilon by a rounding error.
+  return epsilon if epsilon is not None else search_parameters.lower_bound
-- 
2.43.0


From 48c1ad4363ce54ffdaea0566ac1c76d10e05be1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:12 +0000
Subject: [PATCH 32/35] fix: mixture of Gaussians with a certain sensitivity
 could not be discretised

---
 .../dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index 7b25677..10f43fe 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -2104,6 +2104,10 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
           ),
           increasing=True,
       )
+      if lower_x_truncation is None:
+        # The tail mass below the lower bound of the search is at most
+        # tail_mass, but may exceed it by a rounding error.
+        lower_x_truncation = z_value - self._max_sens
     if self._pessimistic_estimate:
       tail_probability_mass_function = {
           math.inf: self.mu_upper_cdf(lower_x_truncation),
-- 
2.43.0


From 62692434bff1c9320a13bda206bd895c451e620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 33/35] fix: privacy buckets gave negative probabilities if the
 interval divides the largest privacy loss up to rounding

---
 .../dp_accounting/pld/privacy_loss_distribution.py        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
index fcdeb4d..d453091 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
@@ -919,8 +919,12 @@ def _create_pld_pmf_from_monotone_privacy_loss(
           upper_x_privacy_loss):
         x = upper_x
       else:
-        x = monotone_privacy_loss.inverse_privacy_loss(
-            value_discretization_interval * rounded_down_value)
+        # The first value may exceed the privacy loss at lower_x by a rounding
+        # error, in which case there may be no point with that privacy loss.
+        x = max(
+            x,
+            monotone_privacy_loss.inverse_privacy_loss(
+                value_discretization_interval * rounded_down_value))
 
       xs.append(x)
       rounded_values.append(round_fn(rounded_down_value + 0.5))
-- 
2.43.0


From 2e24c71a769afeb9af6ddbd6d719c4cd30cf815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:45 +0000
Subject: [PATCH 34/35] fix: clipping an empty data set to the radius no longer
 raises

---
 learning/clustering/clustering_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/learning/clustering/clustering_params.py b/learning/clustering/clustering_params.py
index 0c3de98..fe103e2 100644
--- a/learning/clustering/clustering_params.py
+++ b/learning/clustering/clustering_params.py
@@ -194,7 +194,7 @@ class Data():
       points = self.datapoints
     scale = self.radius / np.maximum(
         np.linalg.norm(points, axis=-1), self.radius).reshape(-1, 1)
-    if np.min(scale) < 1.0:
+    if np.any(scale < 1.0):
       logging.debug(
           "Found %s points outside of radius provided, rescaling them to "
           "have norm exactly equal to the radius.", np.sum(scale < 1.0))
-- 
2.43.0


From c37911ab5017cb46d804a7a075205ff94b9e539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:45 +0000
Subject: [PATCH 35/35] fix: private averages of integer points no longer raise
 a casting error

---
 learning/clustering/central_privacy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/learning/clustering/central_privacy_utils.py b/learning/clustering/central_privacy_utils.py
index 2a4b2e3..27c78ff 100644
--- a/learning/clustering/central_privacy_utils.py
+++ b/learning/clustering/central_privacy_utils.py
@@ -62,7 +62,7 @@ def get_private_average(nonprivate_points: np.ndarray, private_count: int,
   sum_points = np.sum(nonprivate_points, axis=0)
 
   # Add noise.
-  sum_points += np.random.normal(
+  sum_points = sum_points + np.random.normal(
       scale=average_privacy_param.gaussian_standard_deviation, size=dim)
   return sum_points / private_count
 
-- 
2.43.0

