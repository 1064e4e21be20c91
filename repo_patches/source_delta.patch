From 72aa446476e79b4c162070fec5ffdf5b198e0865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 01/62] fix: random_assignment works without a size and never
 leaves the range

random_assignment() with its default size=None raised AxisError, and a
uniform draw above a cumulative sum that rounds below one returned an index
equal to the number of weights.
---
 pyrichlet/weight_models/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 9ce64d7..936bdd5 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -153,9 +153,9 @@ class BaseWeight(ABC):
         state normalized weighting structure"""
         u = self._rng.uniform(size=size)
         inverse_sampling = np.greater.outer(
-            u, self.get_normalized_cumulative_weights()
+            u, self.get_normalized_cumulative_weights()[:-1]
         )
-        return np.sum(inverse_sampling, axis=1)
+        return np.sum(inverse_sampling, axis=-1)
 
     def fit_variational(self, variational_d):
         """Fits the variational distribution q
-- 
2.43.0


From fc2cd5ede9b084805289a95da3d228a6cc41fec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 02/62] fix: tail terminates on finite weighting structures

A finite structure cannot grow, so tail(x) looped forever whenever its
total weight rounds below x (EqualWeighting(n=7).tail(1 - 1e-16)).
---
 pyrichlet/weight_models/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 936bdd5..0f0cb8e 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -116,7 +116,11 @@ class BaseWeight(ABC):
         if len(self.w) == 0:
             self.random(1)
         while self.w.sum() < x:
-            self.complete(len(self.w) + 1)
+            size = len(self.w)
+            self.complete(size + 1)
+            if len(self.w) == size:
+                # Finite structure whose total weight rounds below `x`
+                break
         return self.w
 
     def assignation_log_likelihood(self, d=None):
-- 
2.43.0


From 9aa41317f3d56fb2817e09976e1c0f429947f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 03/62] fix: BetaInDirichlet.complete returns the completed
 weights

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 2c92567..6367a29 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -102,6 +102,7 @@ class BetaInDirichlet(BaseWeight):
         return self.w
 
     def complete(self, size):
+        super().complete(size)
         if len(self._v_base) == 0:
             self._v_base = self._rng.beta(1, self.alpha, size=1)
             self._count_base = [1]
@@ -120,3 +121,4 @@ class BetaInDirichlet(BaseWeight):
             self._d_base = np.append(self._d_base, jj)
         self.w = self.v * np.cumprod(np.concatenate(([1],
                                                      1 - self.v[:-1])))
+        return self.w
-- 
2.43.0


From fcc04fee947d88a443bb49fb01cf7b88f5f05de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 04/62] fix: BetaBernoulli.complete(1) on an empty structure
 raised IndexError

---
 pyrichlet/weight_models/_beta_bernoulli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 9e4255c..bdd8cea 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -74,10 +74,10 @@ class BetaBernoulli(BaseWeight):
                                              p=self.p,
                                              size=size - len(self.v))
             self.bernoullis = np.concatenate((self.bernoullis, mask_change))
-            mask_change = np.cumsum(mask_change)
             temp_v = np.concatenate((
                 [self.v[-1]],
-                self._rng.beta(a=1, b=self.alpha, size=mask_change[-1])))
+                self._rng.beta(a=1, b=self.alpha, size=mask_change.sum())))
+            mask_change = np.cumsum(mask_change)
             self.v = np.concatenate((self.v, temp_v[mask_change]))
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
-- 
2.43.0


From 949864c05ec3b4b9fa001466fd2d7369912d0cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 05/62] fix: BetaBernoulli.weighting_log_likelihood scores the
 drawn structure

An indicator of 1 starts a new stick, but the stick densities were summed
over the tied sticks (indicator 0), and the indicators' own likelihood left
out the factor 1-p of a tie.  With p=1 the structure is a Dirichlet process
and the likelihood must be the same.
---
 pyrichlet/weight_models/_beta_bernoulli.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index bdd8cea..febbe34 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -1,6 +1,6 @@
 from ._base import BaseWeight
 import numpy as np
-from scipy.special import beta as betaf
+from scipy.special import beta as betaf, xlogy
 
 from ..utils.functions import log_likelihood_beta
 
@@ -19,17 +19,16 @@ class BetaBernoulli(BaseWeight):
         return ret
 
     def _bernoulli_structure_log_likelihood(self):
-        ret = 0
-        if self.p == 0:
-            return ret
-        for b in self.bernoullis:
-            ret += b * np.log(self.p)
-        return ret
+        # The first stick is always a new one, so its indicator carries no mass
+        bernoullis = self.bernoullis[1:len(self.v)]
+        with np.errstate(divide='ignore'):
+            return (xlogy(bernoullis.sum(), self.p)
+                    + xlogy((1 - bernoullis).sum(), 1 - self.p))
 
     def _beta_structure_log_likelihood(self):
         ret = log_likelihood_beta(self.v[0], 1, self.alpha)
         for j in range(1, len(self.v)):
-            if not self.bernoullis[j]:
+            if self.bernoullis[j]:
                 ret += log_likelihood_beta(self.v[j], 1, self.alpha)
         return ret
 
-- 
2.43.0


From bd82ae3fda753a8e09843f63a6e99a2f0d69088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 06/62] fix: BetaBernoulli posterior with 0 < p < 1 raised on
 NaN probabilities

The conditional of each indicator used beta(a, b) of the raw counts, which
is infinite for a zero count, so most posterior draws raised ValueError.
Use the marginal likelihood of a block of tied sticks,
alpha * beta(1 + a, alpha + b), on both sides of the indicator.
---
 pyrichlet/weight_models/_beta_bernoulli.py | 40 +++++++++-------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index febbe34..c94fbd8 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -1,6 +1,6 @@
 from ._base import BaseWeight
 import numpy as np
-from scipy.special import beta as betaf, xlogy
+from scipy.special import betaln, expit, xlogy
 
 from ..utils.functions import log_likelihood_beta
 
@@ -86,34 +86,28 @@ class BetaBernoulli(BaseWeight):
         bernoullis = self._rng.binomial(n=1, p=self.p, size=size)
         self.bernoullis[0] = 1
         if len(self.d) > 0:
-            size_fit = self.d.max()
             a_c = np.bincount(self.d)
             b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
             bernoullis[0] = 0
-            for j in range(1, size_fit):
-                a_j_prime, b_j_prime, g_plus = 0, 0, 1
+            for j in range(1, len(bernoullis)):
+                # Block of tied sticks to the right of, and including, j
                 k = j + 1
-                for b in bernoullis[j + 1:]:
-                    if b == 1:
-                        break
-                    a_j_prime += a_c[k]
-                    b_j_prime += b_c[k]
+                while k < len(bernoullis) and bernoullis[k] == 0:
                     k += 1
-                    g_plus = betaf(a_j_prime, b_j_prime) * self.alpha
-                a_j_prime += a_c[j]
-                b_j_prime += b_c[j]
+                a_plus, b_plus = a_c[j:k].sum(), b_c[j:k].sum()
+                # Block of tied sticks to the left of j
                 k = j - 1
-                for b in bernoullis[:j][::-1]:
-                    if b == 1:
-                        break
-                    a_j_prime += a_c[k]
-                    b_j_prime += b_c[k]
+                while k > 0 and bernoullis[k] == 0:
                     k -= 1
-                g_minus = betaf(a_j_prime, b_j_prime) * self.alpha
-                p = self.p
-                p_times_plus = p * g_plus if p > 0 else 0
-                not_p_times_minus = (1 - p) * g_minus if p < 1 else 0
-                p = p_times_plus / (p_times_plus + not_p_times_minus)
-                bernoullis[j] = self._rng.binomial(n=1, p=p)
+                a_minus, b_minus = a_c[k:j].sum(), b_c[k:j].sum()
+                # log odds of having two blocks against only one
+                log_odds = (np.log(self.alpha)
+                            + betaln(1 + a_plus, self.alpha + b_plus)
+                            + betaln(1 + a_minus, self.alpha + b_minus)
+                            - betaln(1 + a_plus + a_minus,
+                                     self.alpha + b_plus + b_minus))
+                with np.errstate(divide='ignore'):
+                    log_odds += np.log(self.p) - np.log1p(-self.p)
+                bernoullis[j] = self._rng.binomial(n=1, p=expit(log_odds))
         self.bernoullis = bernoullis
         return self.bernoullis
-- 
2.43.0


From 431d1c0dc008536189ee47c21d2ceb5636c2a253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:54 +0000
Subject: [PATCH 07/62] fix: BetaBinomial.weighting_log_likelihood scores every
 stick once

The chain is b_j | v_{j-1} ~ Bin(n, v_{j-1}), v_j | b_j ~ Beta(1 + b_j,
alpha + n - b_j); the first stick was left out and the others were paired
with the previous binomial.  With n=0 the structure is a Dirichlet process
and the likelihood must be the same.
---
 pyrichlet/weight_models/_beta_binomial.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_binomial.py b/pyrichlet/weight_models/_beta_binomial.py
index 4601f7d..9f6d457 100644
--- a/pyrichlet/weight_models/_beta_binomial.py
+++ b/pyrichlet/weight_models/_beta_binomial.py
@@ -17,15 +17,12 @@ class BetaBinomial(BaseWeight):
     def weighting_log_likelihood(self):
         b = self.binomials[0]
         res = log_likelihood_beta_binom(b, self.n, 1, self.alpha)
-        for j in range(1, len(self.v) - 1):
-            v = self.v[j]
-            res += log_likelihood_beta(v, 1 + b,
-                                       self.alpha + self.n - b)
+        res += log_likelihood_beta(self.v[0], 1 + b, self.alpha + self.n - b)
+        for j in range(1, len(self.v)):
             b = self.binomials[j]
-            res += log_likelihood_binom(b, self.n, v)
-
-        res += log_likelihood_beta(self.v[-1], 1 + b,
-                                   self.alpha + self.n - b)
+            res += log_likelihood_binom(b, self.n, self.v[j - 1])
+            res += log_likelihood_beta(self.v[j], 1 + b,
+                                       self.alpha + self.n - b)
         return res
 
     def random(self, size=None):
-- 
2.43.0


From 0fd8463f7bb304c7eb2a21ac762683735eb7e1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:54 +0000
Subject: [PATCH 08/62] fix: BetaInBeta draws p when the structure starts, not
 on every completion

A misplaced parenthesis drew p only if there already were sticks: with x=1
a new structure had p=0 and therefore only zero weights (and tail looped
forever), and later completions mixed several values of p.
---
 pyrichlet/weight_models/_beta_in_beta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index a685a1a..40fb180 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -74,7 +74,7 @@ class BetaInBeta(BaseWeight):
 
     def complete(self, size):
         super().complete(size)
-        if len(self.v == 0):
+        if len(self.v) == 0:
             self.random_p()
         if len(self.v) < size:
             if self.x < 1:
-- 
2.43.0


From 7d7d0ac97529964da02e454cb3838c97ad50d040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:54 +0000
Subject: [PATCH 09/62] fix: GeometricProcess.tail(x) reaches a total weight of
 x

The number of weights was rounded down, so the total weight stayed below x
(and the structure could be empty), which made the slice sampler leave out
components whose weight is above the slice.
---
 pyrichlet/weight_models/_geometric_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 66852a5..902afd9 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -40,9 +40,9 @@ class GeometricProcess(BaseWeight):
     def tail(self, x):
         if x >= 1 or x < 0:
             raise ValueError("Tail parameter not in range [0,1)")
-        size = int(np.log(1 - x) / np.log(1 - self.p))
+        size = int(np.ceil(np.log(1 - x) / np.log(1 - self.p)))
         self.complete(size)
-        return self.w
+        return super().tail(x)
 
     def fit_variational(self, variational_d):
         self.variational_d = variational_d
-- 
2.43.0


From 73a7a378b94795f921ed50e66e73d33c448cb78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:54 +0000
Subject: [PATCH 10/62] fix: PitmanYorProcess sticks have the parameters of the
 process

Stick j = 1, 2, ... is Beta(1 - d, alpha + j d), as in the variational
posterior; sampling and the likelihood used j - 1, so the first weight had
the wrong law and a valid alpha in (-d, 0] raised ValueError.
---
 pyrichlet/weight_models/_pitman_yor_process.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 718211b..a8ef0ec 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -17,12 +17,12 @@ class PitmanYorProcess(BaseWeight):
 
     def weighting_log_likelihood(self):
         v = self.w[0]
-        ret = log_likelihood_beta(v, 1 - self.pyd, self.alpha)
+        ret = log_likelihood_beta(v, 1 - self.pyd, self.alpha + self.pyd)
         prod_v = 1 - v
         for j in range(1, len(self.w)):
             v = self.w[j] / prod_v
             ret += log_likelihood_beta(v, 1 - self.pyd,
-                                       self.alpha + j * self.pyd)
+                                       self.alpha + (j + 1) * self.pyd)
             prod_v *= (1 - v)
         return ret
 
@@ -30,7 +30,7 @@ class PitmanYorProcess(BaseWeight):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
         if len(self.d) == 0:
-            pitman_yor_bias = np.arange(size)
+            pitman_yor_bias = 1 + np.arange(size)
             self.v = self._rng.beta(a=1 - self.pyd,
                                     b=self.alpha + pitman_yor_bias * self.pyd,
                                     size=size)
@@ -44,7 +44,7 @@ class PitmanYorProcess(BaseWeight):
                 a_c = a_c[:size]
                 b_c = b_c[:size]
 
-            pitman_yor_bias = np.arange(len(a_c))
+            pitman_yor_bias = 1 + np.arange(len(a_c))
             self.v = self._rng.beta(
                 a=1 - self.pyd + a_c,
                 b=self.alpha + pitman_yor_bias * self.pyd + b_c
@@ -58,7 +58,7 @@ class PitmanYorProcess(BaseWeight):
     def complete(self, size):
         super().complete(size)
         if self.get_size() < size:
-            pitman_yor_bias = np.arange(self.get_size(), size)
+            pitman_yor_bias = 1 + np.arange(self.get_size(), size)
             self.v = np.concatenate(
                 (
                     self.v,
-- 
2.43.0


From 19bca2e2f3beceb8f7867b92fc811711fcdfa8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 11/62] fix: complete and tail draw from the posterior after
 fit

fit documents that any later call to random, tail or complete draws from the
posterior, but sticks appended by complete (and so by tail) came from the
prior even where the fitted assignations have counts: fit([0, 0, 3]) followed
by complete(4) ignored the data.
---
 pyrichlet/weight_models/_base.py               | 7 +++++++
 pyrichlet/weight_models/_beta_bernoulli.py     | 2 ++
 pyrichlet/weight_models/_beta_binomial.py      | 2 ++
 pyrichlet/weight_models/_beta_in_beta.py       | 6 +++---
 pyrichlet/weight_models/_beta_in_dirichlet.py  | 2 ++
 pyrichlet/weight_models/_dirichlet_process.py  | 4 ++--
 pyrichlet/weight_models/_geometric_process.py  | 6 +++++-
 pyrichlet/weight_models/_pitman_yor_process.py | 6 ++++--
 8 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 0f0cb8e..fe7198e 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -152,6 +152,13 @@ class BaseWeight(ABC):
         """Returns the size of the truncated weighting structure"""
         return len(self.w)
 
+    def _assignation_counts(self, start, stop):
+        """Returns how many fitted assignations are at, and beyond, each one of
+        the groups `start`, ..., `stop - 1`"""
+        a_c = np.bincount(self.d.astype(np.int64), minlength=stop)
+        b_c = len(self.d) - np.cumsum(a_c)
+        return a_c[start:stop], b_c[start:stop]
+
     def random_assignment(self, size=None):
         """Returns a sample draw of the categorical assignment from the current
         state normalized weighting structure"""
diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index c94fbd8..d532fb8 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -66,6 +66,8 @@ class BetaBernoulli(BaseWeight):
 
     def complete(self, size):
         super().complete(size)
+        if len(self.v) == 0 and len(self.d) > 0:
+            return self.random(int(size))
         if len(self.v) < size:
             if len(self.v) == 0:
                 self.v = self._rng.beta(a=1, b=self.alpha, size=1)
diff --git a/pyrichlet/weight_models/_beta_binomial.py b/pyrichlet/weight_models/_beta_binomial.py
index 9f6d457..7b73134 100644
--- a/pyrichlet/weight_models/_beta_binomial.py
+++ b/pyrichlet/weight_models/_beta_binomial.py
@@ -50,6 +50,8 @@ class BetaBinomial(BaseWeight):
 
     def complete(self, size):
         super().complete(size)
+        if len(self.v) == 0 and len(self.d) > 0:
+            return self.random(int(size))
         if len(self.v) == 0:
             v0 = self._rng.beta(1, self.alpha)
             self.binomials = self._rng.binomial(self.n, v0, size=1)
diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index 40fb180..794653f 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -78,10 +78,10 @@ class BetaInBeta(BaseWeight):
             self.random_p()
         if len(self.v) < size:
             if self.x < 1:
+                a_c, b_c = self._assignation_counts(len(self.v), size)
                 concat_value = self._rng.beta(
-                    a=1 + self.x / (1 - self.x) * self.p,
-                    b=self.alpha + self.x / (1 - self.x) * (1 - self.p),
-                    size=size - len(self.v)
+                    a=1 + self.x / (1 - self.x) * self.p + a_c,
+                    b=self.alpha + self.x / (1 - self.x) * (1 - self.p) + b_c
                 )
             else:
                 concat_value = np.repeat(self.p, size - len(self.v))
diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 6367a29..426ae51 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -103,6 +103,8 @@ class BetaInDirichlet(BaseWeight):
 
     def complete(self, size):
         super().complete(size)
+        if len(self.v) == 0 and len(self.d) > 0:
+            return self.random(int(size))
         if len(self._v_base) == 0:
             self._v_base = self._rng.beta(1, self.alpha, size=1)
             self._count_base = [1]
diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index c493052..0ce33b1 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -49,9 +49,9 @@ class DirichletProcess(BaseWeight):
     def complete(self, size):
         super().complete(size)
         if len(self.v) < size:
+            a_c, b_c = self._assignation_counts(len(self.v), size)
             self.v = np.concatenate(
-                (self.v,
-                 self._rng.beta(a=1, b=self.alpha, size=size - len(self.v))))
+                (self.v, self._rng.beta(a=1 + a_c, b=self.alpha + b_c)))
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
         return self.w
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 902afd9..b9bfe5d 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -25,12 +25,14 @@ class GeometricProcess(BaseWeight):
         if size is None:
             size = max(self.d) + 1
         self.v = self.v[:0]
-        self.p = self._rng.beta(self.a + len(self.d), self.b + self.d.sum())
         self.complete(size)
         return self.w
 
     def complete(self, size):
         super().complete(size)
+        if len(self.v) == 0:
+            self.p = self._rng.beta(self.a + len(self.d),
+                                    self.b + self.d.sum())
         if len(self.v) < size:
             self.v = np.repeat(self.p, size)
             self.w = self.v * np.cumprod(np.concatenate(([1],
@@ -40,6 +42,8 @@ class GeometricProcess(BaseWeight):
     def tail(self, x):
         if x >= 1 or x < 0:
             raise ValueError("Tail parameter not in range [0,1)")
+        if len(self.v) == 0:
+            self.random(1)
         size = int(np.ceil(np.log(1 - x) / np.log(1 - self.p)))
         self.complete(size)
         return super().tail(x)
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index a8ef0ec..afb3485 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -59,11 +59,13 @@ class PitmanYorProcess(BaseWeight):
         super().complete(size)
         if self.get_size() < size:
             pitman_yor_bias = 1 + np.arange(self.get_size(), size)
+            a_c, b_c = self._assignation_counts(self.get_size(), size)
             self.v = np.concatenate(
                 (
                     self.v,
-                    self._rng.beta(a=1 - self.pyd,
-                                   b=self.alpha + pitman_yor_bias * self.pyd)
+                    self._rng.beta(
+                        a=1 - self.pyd + a_c,
+                        b=self.alpha + pitman_yor_bias * self.pyd + b_c)
                 )
             )
             self.w = self.v * np.cumprod(np.concatenate(([1],
-- 
2.43.0


From 1b74286a29081c6a65446a9ce595ce4f322dfb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 12/62] fix: BetaInDirichlet posterior draws

A posterior draw raised ValueError when every observation is in group 0, and
ignored the requested size.  A stick moved to a new inner group kept the value
of an unrelated (or prior) inner weight instead of one drawn given its own
counts, the probability of a new group lacked the factor alpha, and inner
assignations of earlier prior draws were never discarded.
---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 426ae51..ff1bbbb 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -33,6 +33,7 @@ class BetaInDirichlet(BaseWeight):
         self.v = self.v[:0]
         self._v_base = self._v_base[:0]
         if len(self.d) == 0:
+            self._d_base = self._d_base[:0]
             self.complete(size)
             return self.w
         n = max(self.d) + 1
@@ -62,7 +63,7 @@ class BetaInDirichlet(BaseWeight):
                     self._d_base = np.append(self._d_base, 0)
                 continue
             d_base_reduced = np.delete(self._d_base, j)
-            k = np.max(d_base_reduced)
+            k = np.max(d_base_reduced, initial=-1)
             log_prob = []
             new_base = False
             for dd in range(k + 2):
@@ -70,7 +71,8 @@ class BetaInDirichlet(BaseWeight):
                 if base_count == 0 and not new_base:
                     new_base = True
                     temp_log_prob = (
-                            np.log(self.a) + loggamma(1 + a_c[j])
+                            np.log(self.a) + np.log(self.alpha)
+                            + loggamma(1 + a_c[j])
                             + loggamma(self.alpha + b_c[j])
                             - loggamma(1 + self.alpha + a_c[j] + b_c[j]))
                     log_prob.append(temp_log_prob)
@@ -85,20 +87,23 @@ class BetaInDirichlet(BaseWeight):
                         + b_c[j] * np.log(1 - self._v_base[dd]))
                 log_prob.append(temp_log_prob)
             log_prob = np.array(log_prob)
-            if j < len(self._d_base):
-                self._d_base[j] = gumbel_max_sampling(log_prob, rng=self._rng)
-            else:
-                self._d_base = np.append(self._d_base,
-                                         gumbel_max_sampling(log_prob,
-                                                             rng=self._rng))
-            if max(self._d_base) <= len(self._v_base):
-                self._v_base = np.concatenate((
-                    self._v_base, [self._rng.beta(a=1, b=self.alpha)]))
+            jj = gumbel_max_sampling(log_prob, rng=self._rng)
+            self._d_base[j] = jj
+            if jj not in d_base_reduced:
+                # A new inner group, its weight given its only assignation
+                new_v_base = self._rng.beta(a=1 + a_c[j],
+                                            b=self.alpha + b_c[j])
+                if jj < len(self._v_base):
+                    self._v_base[jj] = new_v_base
+                else:
+                    self._v_base = np.append(self._v_base, new_v_base)
         self._count_base = [
             np.sum(self._d_base == j) for j in range(len(self._v_base))]
         self.v = self._v_base[self._d_base]
         self.w = self.v * np.cumprod(np.concatenate(([1],
                                                      1 - self.v[:-1])))
+        if size is not None:
+            self.complete(size)
         return self.w
 
     def complete(self, size):
-- 
2.43.0


From 1145cb37f838fd5a6081e613b5c5742a406749e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 13/62] fix: DirichletDistribution variational expectations

The marginal of w_j is Beta(a_j, sum(a) - a_j), but the mean of log w_j was
that of Beta(a_j, sum(a)); the mean of log p(w) weighted every log w_j with
sum(alpha) - 1 instead of alpha_j - 1; and j equal to the number of weights
raised IndexError instead of giving weight 0.
---
 pyrichlet/weight_models/_dirichlet_distribution.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index e7995e3..d1808f9 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -55,8 +55,11 @@ class DirichletDistribution(BaseWeight):
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
+        if j >= self.variational_k:
+            return -np.inf
         return mean_log_beta(self.variational_params[j],
-                             self.variational_params.sum())
+                             self.variational_params.sum()
+                             - self.variational_params[j])
 
     def variational_mean_log_p_d__w(self, variational_d=None):
         if variational_d is None:
@@ -75,8 +78,8 @@ class DirichletDistribution(BaseWeight):
             raise NotFittedError
         log_sum_w_j = 0
         for j in range(self.variational_k):
-            log_sum_w_j += self.variational_mean_log_w_j(j)
-        log_sum_w_j *= self.alpha.sum() - 1
+            log_sum_w_j += ((self.alpha[j] - 1) *
+                            self.variational_mean_log_w_j(j))
         res = self._log_normalization_constant(self.alpha)
         res += log_sum_w_j
         return res
@@ -94,12 +97,12 @@ class DirichletDistribution(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         return self.variational_params[j] / self.variational_params.sum()
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         alpha = self.variational_params.sum()
         if self.variational_params[j] <= 1:
-- 
2.43.0


From d0b8fbfea62e28d67d270ad2b426c18105cb0757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 14/62] fix: DirichletProcess variational mean of log p(w) has
 k - 1 sticks

The last stick is fixed to 1, so it has no normalization constant.
---
 pyrichlet/weight_models/_dirichlet_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index 0ce33b1..39e4017 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -99,7 +99,7 @@ class DirichletProcess(BaseWeight):
         for params in self.variational_params[:-1]:
             res += mean_log_beta(params[1], params[0])
         res *= self.alpha - 1
-        res += self.variational_k * np.log(self.alpha)
+        res += (self.variational_k - 1) * np.log(self.alpha)
         return res
 
     def variational_mean_log_q_w(self):
-- 
2.43.0


From c11917c7bf11ee8526cd306ff94f8e9fe4f53779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 15/62] fix: PitmanYorProcess variational mean of log p(w)
 normalization

The normalization of Beta(1 - d, alpha + j d) divides by
gamma(alpha + j d), not gamma(alpha + j d + 1).
---
 pyrichlet/weight_models/_pitman_yor_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index afb3485..d3e3d12 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -118,7 +118,7 @@ class PitmanYorProcess(BaseWeight):
                     self.alpha + (j + 1) * self.pyd - 1
             )
             res += loggamma(self.alpha + j * self.pyd + 1)
-            res -= loggamma(self.alpha + (j + 1) * self.pyd + 1)
+            res -= loggamma(self.alpha + (j + 1) * self.pyd)
             res -= loggamma(1 - self.pyd)
         return res
 
-- 
2.43.0


From 2e403b29a734f57dadec352cd3105d7905838c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 16/62] fix: PitmanYorProcess variational distribution is
 truncated at k

fit_variational documents that q is truncated so that q(w_k = 1) = 1, as in
DirichletProcess, but the last stick was left free: the mean weights (and
var_eap_density) did not sum to one.
---
 .../weight_models/_pitman_yor_process.py      | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index d3e3d12..93850cb 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -87,13 +87,16 @@ class PitmanYorProcess(BaseWeight):
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
+        if j >= self.variational_k:
+            return -np.inf
         res = 0
         for jj in range(j):
             res += mean_log_beta(self.variational_params[jj][1],
                                  self.variational_params[jj][0])
-        res += mean_log_beta(self.variational_params[j, 0],
-                             self.variational_params[j, 1]
-                             )
+        if j < self.variational_k - 1:
+            res += mean_log_beta(self.variational_params[j, 0],
+                                 self.variational_params[j, 1]
+                                 )
         return res
 
     def variational_mean_log_p_d__w(self, variational_d=None):
@@ -112,7 +115,7 @@ class PitmanYorProcess(BaseWeight):
         if self.variational_d is None:
             raise NotFittedError
         res = 0
-        for j, params in enumerate(self.variational_params):
+        for j, params in enumerate(self.variational_params[:-1]):
             res += mean_log_beta(params[0], params[1]) * -self.pyd
             res += mean_log_beta(params[1], params[0]) * (
                     self.alpha + (j + 1) * self.pyd - 1
@@ -126,7 +129,7 @@ class PitmanYorProcess(BaseWeight):
         if self.variational_d is None:
             raise NotFittedError
         res = 0
-        for params in self.variational_params:
+        for params in self.variational_params[:-1]:
             res += (params[0] - 1) * mean_log_beta(params[0], params[1])
             res += (params[1] - 1) * mean_log_beta(params[1], params[0])
             res += loggamma(params[0] + params[1])
@@ -134,17 +137,19 @@ class PitmanYorProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         res = 1
         for jj in range(j):
             res *= (self.variational_params[jj][1] /
                     self.variational_params[jj].sum())
-        res *= self.variational_params[j, 0] / self.variational_params[j].sum()
+        if j < self.variational_k - 1:
+            res *= (self.variational_params[j, 0] /
+                    self.variational_params[j].sum())
         return res
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         res = 1
         for jj in range(j):
@@ -157,7 +162,8 @@ class PitmanYorProcess(BaseWeight):
                 continue
             res *= ((self.variational_params[jj, 1] - 1) /
                     (self.variational_params[jj].sum() - 2))
-
+        if j == self.variational_k - 1:
+            return res
         if self.variational_params[j, 0] <= 1:
             if self.variational_params[j, 1] <= 1:
                 raise ValueError('multimodal distribution')
-- 
2.43.0


From c82acb165d62fde912ac88e657e13174953eecb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 17/62] fix: GeometricProcess variational posterior counts
 every observation

Each observation has one success, so the posterior is Beta(a + n, b + sum d)
as in the Gibbs sampler; one observation was left out.
---
 pyrichlet/weight_models/_geometric_process.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index b9bfe5d..957836d 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -52,8 +52,7 @@ class GeometricProcess(BaseWeight):
         self.variational_d = variational_d
         self.variational_k = len(self.variational_d)
         self.variational_params = np.empty(2, dtype=np.float64)
-        self.variational_params[0] = self.a + max(len(self.variational_d[0]),
-                                                  1) - 1
+        self.variational_params[0] = self.a + len(self.variational_d[0])
         self.variational_params[1] = (
                 self.b + (self.variational_d[1:].T *
                           range(1, self.variational_k)).sum()
-- 
2.43.0


From 3114585e2a486c1975297ecefc8c26b123bba10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 18/62] fix: GeometricProcess variational mean of log p(d|w)

An assignation to group j has j failures, not one.
---
 pyrichlet/weight_models/_geometric_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 957836d..5f58cbb 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -84,7 +84,7 @@ class GeometricProcess(BaseWeight):
                                     self.variational_params[0]
                                     )
         for j, nj in enumerate(np.sum(_variational_d, 1)):
-            res += nj * e_log_v_bar
+            res += nj * j * e_log_v_bar
         return res
 
     def variational_mean_log_p_w(self):
-- 
2.43.0


From 21f49d84004a987bb6a5f2c9580f95856b907353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 19/62] fix: GeometricProcess variational mean of the weights

The mean of p (1 - p)^j is not the plug-in of the mean of p, and weights
beyond the truncation had mean 1 (and mode None) instead of 0.
---
 pyrichlet/weight_models/_geometric_process.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 5f58cbb..7f4b6a8 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -61,6 +61,8 @@ class GeometricProcess(BaseWeight):
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
+        if j >= self.variational_k:
+            return -np.inf
         res = mean_log_beta(self.variational_params[0],
                             self.variational_params[1]
                             )
@@ -109,13 +111,16 @@ class GeometricProcess(BaseWeight):
 
     def variational_mean_w_j(self, j):
         if j >= self.variational_k:
-            return 1
-        p = self.variational_params[0] / self.variational_params.sum()
-        return p * (1 - p) ** j
+            return 0
+        a, b = self.variational_params
+        res = a / (a + b)
+        for jj in range(j):
+            res *= (b + jj) / (a + b + 1 + jj)
+        return res
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
-            return
+        if j >= self.variational_k:
+            return 0
         if self.variational_params[0] <= 1:
             if self.variational_params[1] <= 1:
                 raise ValueError('multimodal distribution')
-- 
2.43.0


From 2e86dfc37cf6b5a23ddd4e4c4077e832a675a307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 20/62] fix: EqualWeighting variational mean of log p(d|w) has
 the wrong sign

Every assignation has probability 1/n; and a weight beyond n is 0, so its
logarithm is -inf and not 0.
---
 pyrichlet/weight_models/_equal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_equal.py b/pyrichlet/weight_models/_equal.py
index 46f2a2a..015c348 100644
--- a/pyrichlet/weight_models/_equal.py
+++ b/pyrichlet/weight_models/_equal.py
@@ -25,7 +25,7 @@ class EqualWeighting(BaseWeight):
         self.variational_k = self.n
 
     def variational_mean_log_w_j(self, j):
-        return np.log(1 / self.n) * (j < self.n)
+        return np.log(1 / self.n) if j < self.n else -np.inf
 
     def variational_mean_log_p_d__w(self, variational_d=None):
         _variational_d = variational_d
@@ -33,7 +33,7 @@ class EqualWeighting(BaseWeight):
             _variational_d = self.variational_d
             if _variational_d is None:
                 raise NotFittedError
-        return _variational_d.shape[1] * np.log(self.n)
+        return _variational_d.shape[1] * np.log(1 / self.n)
 
     def variational_mean_log_p_w(self):
         return 0
-- 
2.43.0


From d6ff546d6bfa0466f8d027e9c8cc9e784f5530d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 21/62] fix: FrequencyWeighting variational mean of log w_j

It returned w_j and not its logarithm, so the weights were ignored in the
variational assignations; and the truncation was the number of observations
instead of the number of groups.
---
 pyrichlet/weight_models/_frequency.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index 05265fd..c166c0e 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -25,9 +25,7 @@ class FrequencyWeighting(BaseWeight):
 
     def fit_variational(self, variational_d: np.ndarray):
         self.variational_d = variational_d
-        self.variational_k = variational_d.shape[1]
-        if self.variational_k == 0:
-            self.variational_k = self.n
+        self.variational_k = variational_d.shape[0]
 
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
@@ -35,7 +33,8 @@ class FrequencyWeighting(BaseWeight):
         if j >= self.variational_k:
             return -np.inf
         if self.variational_d.shape[1]:
-            return self.variational_d.sum(1)[j] / self.variational_d.sum()
+            return np.log(self.variational_d.sum(1)[j] /
+                          self.variational_d.sum())
         return np.log(1 / self.variational_k)
 
     def variational_mean_log_p_d__w(self, variational_d=None):
@@ -64,6 +63,6 @@ class FrequencyWeighting(BaseWeight):
         return self.variational_d.sum(1)[j] / self.variational_d.sum()
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         return self.variational_d.sum(1)[j] / self.variational_d.sum()
-- 
2.43.0


From 41c40c2276c52441ed84e8b48cfaba4cb06e7f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 22/62] fix: FrequencyWeighting.variational_mean_log_p_d__w
 changed the fit

Evaluating another assignation replaced the fitted one, and a group with no
assignation made the result NaN; with no observations the mean and mode of
the weights were NaN and not 1/k.
---
 pyrichlet/weight_models/_frequency.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index c166c0e..9b7461e 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -38,14 +38,13 @@ class FrequencyWeighting(BaseWeight):
         return np.log(1 / self.variational_k)
 
     def variational_mean_log_p_d__w(self, variational_d=None):
+        if self.variational_d is None:
+            raise NotFittedError
         if variational_d is None:
-            if self.variational_d is None:
-                raise NotFittedError
             variational_d = self.variational_d
-        else:
-            self.variational_d = variational_d
-        return np.sum(variational_d.sum(1) * np.log(self.variational_d.sum(1) /
-                                                    self.variational_d.sum()))
+        n_j = variational_d.sum(1)
+        return sum(n_j[j] * self.variational_mean_log_w_j(j)
+                   for j in np.flatnonzero(n_j))
 
     def variational_mean_log_p_w(self):
         if self.variational_d is None:
@@ -60,9 +59,9 @@ class FrequencyWeighting(BaseWeight):
     def variational_mean_w_j(self, j):
         if j >= self.variational_k:
             return 0
+        if self.variational_d.shape[1] == 0:
+            return 1 / self.variational_k
         return self.variational_d.sum(1)[j] / self.variational_d.sum()
 
     def variational_mode_w_j(self, j):
-        if j >= self.variational_k:
-            return 0
-        return self.variational_d.sum(1)[j] / self.variational_d.sum()
+        return self.variational_mean_w_j(j)
-- 
2.43.0


From e08ef74a63c2101f700254e2b662cddcdadb9d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 23/62] fix: a cold fit_gibbs forgets the MAP of earlier fits

Without warm_start every saved state is documented to be deleted, but the
MAP state and likelihood were kept, so after refitting other data the MAP
density and clusters could be those of the old data.
---
 pyrichlet/mixture_models/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 42edc80..f56b52a 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -777,6 +777,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.n_groups = []
         self.n_atoms = []
         self.total_saved_steps = 0
+        self.map_sim_params = None
+        self.map_log_likelihood = -np.inf
 
         self.theta = defaultdict(atom_generator)
         self.affinity_matrix = np.zeros((len(self.y), len(self.y)))
-- 
2.43.0


From f95ba9234b426b33110b5bbed497aab1056705c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 24/62] fix: default priors follow the data being fitted

The priors left as None are documented to be taken from the observations to
fit, but they were taken once from the first data set and silently reused for
every later one (and raised for data with another number of features).
---
 pyrichlet/mixture_models/_base.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index f56b52a..74cdef0 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -68,6 +68,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.lambda_prior = lambda_prior
         self.psi_prior = psi_prior
         self.nu_prior = nu_prior
+        # Priors taken from the data, to be replaced when fitting other data
+        self._empirical_priors = (None, None, None)
 
         self.weight_model = weight_model
         self.y = np.array([])
@@ -133,7 +135,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             "variational": fits the variational distribution an uses the MAP
             parameters as initialization
         """
-        self._initialize_common_params(y)
+        self._initialize_common_params(y, warm_start)
         if not warm_start:
             self._initialize_gibbs_params(init_groups=init_groups,
                                           method=init_method)
@@ -204,7 +206,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if show_progress is not None:
             self.show_progress = show_progress
-        self._initialize_common_params(y)
+        self._initialize_common_params(y, warm_start)
         if not warm_start:
             if hasattr(self, 'n') and n_groups is None:
                 var_k = self.n
@@ -701,7 +703,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
     def get_sim_params(self):
         return self.sim_params
 
-    def _initialize_common_params(self, y):
+    def _initialize_common_params(self, y, warm_start=False):
         """
         Initialize the prior variables if not given
         """
@@ -731,16 +733,25 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         else:
             raise TypeError('Invalid type for variable y')
 
+        mu_prior, psi_prior, nu_prior = self._empirical_priors
+        if not warm_start:
+            if self.mu_prior is mu_prior:
+                self.mu_prior = None
+            if self.psi_prior is psi_prior:
+                self.psi_prior = None
+            if self.nu_prior is nu_prior:
+                self.nu_prior = None
         if self.mu_prior is None:
-            self.mu_prior = self.y.mean(axis=0)
-        else:
+            self.mu_prior = mu_prior = self.y.mean(axis=0)
+        elif self.mu_prior is not mu_prior:
             self.mu_prior = np.array(self.mu_prior)
         if self.psi_prior is None:
-            self.psi_prior = np.atleast_2d(np.cov(self.y.T))
-        else:
+            self.psi_prior = psi_prior = np.atleast_2d(np.cov(self.y.T))
+        elif self.psi_prior is not psi_prior:
             self.psi_prior = np.atleast_2d(self.psi_prior)
         if self.nu_prior is None:
-            self.nu_prior = self.y.shape[1]
+            self.nu_prior = nu_prior = self.y.shape[1]
+        self._empirical_priors = (mu_prior, psi_prior, nu_prior)
 
     def _initialize_gibbs_params(self, init_groups=None, method="kmeans"):
         """
-- 
2.43.0


From 80d3f558435049489a0fed26496a29e7283583f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 25/62] fix: a cold fit_gibbs starts the weights from the prior

The weighting structure kept the assignations and weights of the previous
fit, so the new sampling did not start from the prior as documented.
---
 pyrichlet/mixture_models/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 74cdef0..67f02a7 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -795,6 +795,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.affinity_matrix = np.zeros((len(self.y), len(self.y)))
         self.u = self.rng.uniform(0 + np.finfo(np.float64).eps, 1,
                                   len(self.y))
+        self.weight_model.reset()
+        self.weight_model.random(1)
         if init_groups is None:
             self.weight_model.tail(1 - min(self.u))
         else:
-- 
2.43.0


From 86e639dc464b54c218ecb4a3d3ef1144b9f18325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 26/62] fix: var_converged describes the last fit_variational

It was never cleared by a later fit that did not converge, and was set when
the ELBO is NaN.
---
 pyrichlet/mixture_models/_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 67f02a7..94884cd 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -232,8 +232,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             if t is not None:
                 t.update()
         self.var_fitted = True
-        if iterations < self.total_iter:
-            self.var_converged = True
+        self.var_converged = bool(elbo_diff <= tol)
 
     def gibbs_eap_density(self, y=None, dim=None, component=None,
                           periods=None):
-- 
2.43.0


From a3457b07f115a966860a68e19abed6271028fded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 27/62] fix: clustering a single observation raised AxisError

---
 pyrichlet/mixture_models/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 6a7bdef..42e4af2 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -97,7 +97,7 @@ def cluster(x, w, theta):
                                                    theta[j][0],
                                                    theta[j][1],
                                                    1))
-    assign_prob = np.array(assign_prob).T
+    assign_prob = np.array(assign_prob).reshape(k, len(x)).T
     assign_prob = assign_prob * w
     assign_prob /= assign_prob.sum(1)[:, None]
     grp = np.argmax(assign_prob, axis=1)
-- 
2.43.0


From 10e34bd05cc089a6f8d484949c2453f308f45cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 28/62] fix: clustering an observation far from every component

The component densities underflow to zero, so the observation was put in
the first component, whichever is the closest, with a NaN uncertainty.
---
 pyrichlet/mixture_models/_utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 42e4af2..359a92c 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -93,12 +93,15 @@ def cluster(x, w, theta):
     k = len(w)
     assign_prob = []
     for j in range(k):
-        assign_prob.append(multivariate_normal.pdf(x,
-                                                   theta[j][0],
-                                                   theta[j][1],
-                                                   1))
+        assign_prob.append(multivariate_normal.logpdf(x,
+                                                      theta[j][0],
+                                                      theta[j][1],
+                                                      1))
     assign_prob = np.array(assign_prob).reshape(k, len(x)).T
-    assign_prob = assign_prob * w
+    with np.errstate(divide='ignore'):
+        assign_prob = assign_prob + np.log(w)
+    assign_prob -= assign_prob.max(1)[:, None]
+    assign_prob = np.exp(assign_prob)
     assign_prob /= assign_prob.sum(1)[:, None]
     grp = np.argmax(assign_prob, axis=1)
     uncertainty = 1 - assign_prob[range(len(x)), grp]
-- 
2.43.0


From 1645010504cf5cabe1126ba7c8019e857b956d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 29/62] fix: density of a component missing from some of the
 Gibbs draws

Each draw has its own number of components; one without the requested
component gives it no weight, but gibbs_eap_density raised IndexError.
---
 pyrichlet/mixture_models/_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 359a92c..4746838 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -67,8 +67,10 @@ def mixture_density(x, w, theta, dim=None, component=None):
     ret = []
     if component is None:
         iterator = range(k)
-    else:
+    elif component < k:
         iterator = [component]
+    else:
+        return np.zeros(len(x))
     for j in iterator:
         if dim is None:
             ret.append(multivariate_normal.pdf(x,
-- 
2.43.0


From fe1a42e1ba6e521b98c4c38fed4584151fe15e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 30/62] fix: marginal densities for numpy integers and tuples
 of dimensions

Any dim other than int, list or array was silently given density zero.
---
 pyrichlet/mixture_models/_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 4746838..26e6ef8 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -77,15 +77,18 @@ def mixture_density(x, w, theta, dim=None, component=None):
                                                theta[j][0],
                                                theta[j][1],
                                                1)*w[j])
-        elif type(dim) in [list, np.ndarray]:
+        elif isinstance(dim, (list, tuple, np.ndarray)):
+            dim = np.array(dim)
             ret.append(multivariate_normal.pdf(x,
                                                theta[j][0][dim],
                                                theta[j][1][:, dim][dim, :],
                                                1)*w[j])
-        elif type(dim) is int:
+        elif isinstance(dim, (int, np.integer)):
             ret.append(norm.pdf(x[:, 0],
                                 theta[j][0][dim],
                                 np.sqrt(theta[j][1][dim, dim]))*w[j])
+        else:
+            raise TypeError("Invalid type for parameter dim")
     ret = np.array(ret).T
     ret = np.atleast_2d(ret).sum(1)
     return ret
-- 
2.43.0


From 96d64ab9b8e7f8afcf5f7bfe288db88af68f174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 31/62] fix: marginal Gibbs densities at the fitted data use
 the columns in dim

With y=None the marginal over dim was evaluated at the first column (or
raised for several dimensions).
---
 pyrichlet/mixture_models/_base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 94884cd..60844f1 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -259,7 +259,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if not self.gibbs_fitted:
             raise NotFittedError("Object must be fitted with fit_gibbs method")
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, dim)
         y_sim = []
         if periods is None:
             sim_params = self.sim_params
@@ -295,7 +295,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if not self.gibbs_fitted:
             raise NotFittedError("Object must be fitted with fit_gibbs method")
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, dim)
         return _utils.mixture_density(_y,
                                       self.map_sim_params["w"],
                                       self.map_sim_params["theta"],
@@ -1110,9 +1110,11 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         res /= 2
         return res
 
-    def _cast_observations(self, y):
+    def _cast_observations(self, y, dim=None):
         if y is None:
             _y = self.y
+            if dim is not None:
+                _y = _y[:, np.atleast_1d(dim)]
         else:
             if isinstance(y, pd.DataFrame):
                 _y = y.to_numpy()
-- 
2.43.0


From 8bf2913a7cf7850752a9cc9262e0b88c0e90f039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 32/62] fix: variational densities and their marginals

var_map_density() raised TypeError with its default dim and both densities
raised IndexError for an int.  A marginal took the block of the precision
matrix, which is the conditional and not the marginal precision, and the
degrees of freedom of the subset instead of those of the component.
---
 pyrichlet/mixture_models/_base.py | 44 +++++++++++++++----------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 60844f1..c8d6e76 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -511,27 +511,20 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
-        _y = self._cast_observations(y)
-        if dim is None:
-            dim = np.arange(_y.shape[1])
-        if isinstance(dim, int):
-            len_dim = 1
-        else:
-            len_dim = len(dim)
+        _y = self._cast_observations(y, dim)
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
         else:
             iterator = [(component, self.var_theta[component])]
         for j, vt_j in iterator:
-            v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
-            v_mu_j = v_mu_j[dim]
-            v_precision_j = v_precision_j[:, dim][dim, :]
+            _, v_lambda_j, v_precision_j, v_scale_j = vt_j
+            scale = v_scale_j + 1 - len(v_precision_j)
+            v_mu_j, v_precision_j = self._marginal_var_theta(j, dim)
             f_x += density_students_t(
                 _y, v_mu_j,
-                v_precision_j * (v_scale_j + 1 -
-                                 len_dim) * v_lambda_j / (1 + v_lambda_j),
-                v_scale_j + 1 - len_dim
+                v_precision_j * scale * v_lambda_j / (1 + v_lambda_j),
+                scale
             ) * self.weight_model.variational_mean_w_j(j)
         return f_x
 
@@ -553,26 +546,31 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
-        _y = self._cast_observations(y)
-        if isinstance(dim, int):
-            len_dim = 1
-        else:
-            len_dim = len(dim)
+        _y = self._cast_observations(y, dim)
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
         else:
             iterator = [(component, self.var_theta[component])]
         for j, vt_j in iterator:
-            v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
-            v_mu_j = v_mu_j[dim]
-            v_precision_j = v_precision_j[:, dim][dim, :]
-            map_mu = v_mu_j
-            map_precision = (v_scale_j - len_dim) * v_precision_j
+            _, _, v_precision_j, v_scale_j = vt_j
+            scale = v_scale_j - len(v_precision_j)
+            map_mu, v_precision_j = self._marginal_var_theta(j, dim)
+            map_precision = scale * v_precision_j
             f_x += density_normal(_y, map_mu, map_precision
                                   ) * self.weight_model.variational_mode_w_j(j)
         return f_x
 
+    def _marginal_var_theta(self, j, dim=None):
+        """Returns the center and the precision scale matrix of the j-th
+        variational component marginalized to the dimensions in `dim`"""
+        v_mu_j, _, v_precision_j, _ = self.var_theta[j]
+        if dim is None:
+            return v_mu_j, v_precision_j
+        dim = np.atleast_1d(dim)
+        covariance = np.linalg.inv(v_precision_j)[np.ix_(dim, dim)]
+        return v_mu_j[dim], np.linalg.inv(covariance)
+
     def var_eap_affinity_matrix(self, y=None):
         """
         Returns the (Variational fitted) affinity matrix for the observations y
-- 
2.43.0


From d042db411b4d5e4223e47db0f37a01cb081d3ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 33/62] fix: multivariate densities are normalized by the
 determinant

The Student's t and normal densities used the Frobenius norm of the precision
matrix, so with more than one feature they did not integrate to one.
---
 pyrichlet/utils/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/utils/functions.py b/pyrichlet/utils/functions.py
index 4d89809..49e77ef 100644
--- a/pyrichlet/utils/functions.py
+++ b/pyrichlet/utils/functions.py
@@ -31,7 +31,7 @@ def mean_log_beta(a, b):
 def density_students_t(x, mu, precision, nu):
     dim = x.shape[1]
     density = np.exp(loggamma((nu + dim) / 2) - loggamma(nu / 2))
-    density *= np.linalg.norm(precision) ** 0.5 / (nu * np.pi) ** (dim / 2)
+    density *= np.linalg.det(precision) ** 0.5 / (nu * np.pi) ** (dim / 2)
     density *= (1 + np.einsum('ij,jk,ik->i',
                               x - mu, precision, x - mu
                               ) / nu) ** (-(nu + dim) / 2)
@@ -40,7 +40,7 @@ def density_students_t(x, mu, precision, nu):
 
 def density_normal(x, mu, precision):
     dim = x.shape[1]
-    density = np.sqrt((2 * np.pi) ** -dim * np.linalg.norm(precision))
+    density = np.sqrt((2 * np.pi) ** -dim * np.linalg.det(precision))
     density *= np.exp(- np.einsum('ij,jk,ik->i',
                                   x - mu, precision, x - mu
                                   ) / 2)
-- 
2.43.0


From 874e020ac5905d440cc958f9ce791cdc1fa005aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 34/62] fix: Wishart expectations use the determinant of the
 scale matrix

E[log|precision|] and the normalization term used the Frobenius norm, which
is wrong with more than one feature.
---
 pyrichlet/mixture_models/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 26e6ef8..3dadbcf 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -116,7 +116,7 @@ def cluster(x, w, theta):
 
 def log_wishart_normalization_term(precision, scale):
     dim = precision.shape[0]
-    res = np.log(np.linalg.norm(precision)) * (-scale / 2)
+    res = np.linalg.slogdet(precision)[1] * (-scale / 2)
     inverse_term = np.log(2) * (scale * dim / 2)
     inverse_term += np.log(np.pi) * (dim * (dim - 1) / 4)
     for i in range(dim):
@@ -127,7 +127,7 @@ def log_wishart_normalization_term(precision, scale):
 
 def e_log_norm_wishart(precision, scale):
     dim = precision.shape[0]
-    res = np.log(np.linalg.norm(precision))
+    res = np.linalg.slogdet(precision)[1]
     res += dim * np.log(2)
     for i in range(dim):
         res += digamma((scale - i) / 2)
-- 
2.43.0


From f255d247791c1b82619d4ae8476a028cfe8463a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 35/62] fix: var_map_cluster uncertainty and distant
 observations

full=True at new observations returned the assignation probabilities of other
observations instead of the uncertainty of each one, and observations far from
every component overflowed to NaN.
---
 pyrichlet/mixture_models/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index c8d6e76..4661883 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -681,7 +681,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                                  v_precision_j @ (_y - v_mu_j).T)).sum(0)
                          )
             var_d[j, :] = log_d_ji
-        var_d -= var_d.mean(0)
+        var_d -= var_d.max(axis=0, initial=-np.inf)
         var_d = np.exp(var_d)
         var_d += np.finfo(np.float64).eps
         var_d /= var_d.sum(0)
@@ -689,7 +689,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             return var_d.argmax(0)
         else:
             d = var_d.argmax(0)
-            return d, var_d[d]
+            return d, 1 - var_d[d, range(len(d))]
 
     def get_n_groups(self):
         return self.n_groups
-- 
2.43.0


From 7e3c8720c3516d471436d7d51d1e65b2915651ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 36/62] fix: var_eap_affinity_matrix accepts every observation
 format

---
 pyrichlet/mixture_models/_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 4661883..2d72157 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -594,8 +594,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             var_d = self.var_d
         else:
             _y = self._cast_observations(y)
-            dim = y.shape[1]
-            var_d = np.zeros((self.var_k, y.shape[0]), dtype=np.float64)
+            dim = _y.shape[1]
+            var_d = np.zeros((self.var_k, _y.shape[0]), dtype=np.float64)
             for j, vt_j in enumerate(self.var_theta):
                 v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
                 log_d_ji = self.weight_model.variational_mean_log_w_j(j)
@@ -604,8 +604,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 log_d_ji -= dim * np.log(2 * np.pi) / 2
                 log_d_ji -= dim / v_lambda_j / 2
                 log_d_ji -= (v_scale_j *
-                             ((y - v_mu_j).T * (
-                                     v_precision_j @ (y - v_mu_j).T)).sum(
+                             ((_y - v_mu_j).T * (
+                                     v_precision_j @ (_y - v_mu_j).T)).sum(
                                  0)
                              ) / 2
                 var_d[j, :] = log_d_ji
-- 
2.43.0


From a3793f0b1a6ca06d42a808148b990ba3d2fc6630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 37/62] fix: variational update of the atoms

The scale matrix used the scatter divided by the group size, and the squared
norm (x_bar - mu) @ (x_bar - mu) in every entry instead of the outer product.
---
 pyrichlet/mixture_models/_base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 2d72157..4828cf2 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1006,10 +1006,11 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         var_theta = []
         for vd_j in self.var_d:
             n_j = vd_j.sum()
-            x_bar_j = (vd_j / n_j) @ self.y
+            # An empty group keeps the prior parameters
+            x_bar_j = (vd_j / n_j) @ self.y if n_j > 0 else self.mu_prior
             ns_j = np.einsum('i,ij,ik->jk',
                              vd_j, (self.y - x_bar_j), (self.y - x_bar_j)
-                             ) / n_j
+                             )
             v_lambda_j = self.lambda_prior + n_j
             v_scale_j = self.nu_prior + n_j
             v_mu_j = (self.lambda_prior * self.mu_prior +
@@ -1017,8 +1018,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             v_precision_j = (self.psi_prior + ns_j +
                              self.lambda_prior * n_j / (self.lambda_prior +
                                                         n_j) *
-                             (x_bar_j - self.mu_prior) @ (x_bar_j -
-                                                          self.mu_prior))
+                             np.outer(x_bar_j - self.mu_prior,
+                                      x_bar_j - self.mu_prior))
             v_precision_j = np.linalg.inv(v_precision_j)
             var_theta.append([v_mu_j, v_lambda_j, v_precision_j, v_scale_j])
         self.var_theta = var_theta
-- 
2.43.0


From c91703f43c63927af10dc4e20885b38c1ec0fc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 38/62] fix: ELBO term of the observations weighs every group
 by its size

---
 pyrichlet/mixture_models/_base.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 4828cf2..708df23 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1052,13 +1052,14 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             x_bar_j = (vd_j / n_j) @ self.y
             s_j = (vd_j / n_j * (self.y - x_bar_j).T) @ (self.y - x_bar_j)
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
-            res += _utils.e_log_norm_wishart(v_precision_j, v_scale_j)
-            res -= dim / v_lambda_j
-            res -= v_scale_j * np.einsum('ij,ji->', s_j, v_precision_j)
-            res -= (v_scale_j *
-                    (x_bar_j - v_mu_j) @ v_precision_j @ (x_bar_j - v_mu_j)
-                    )
-        res -= dim * np.log(2 * np.pi) * self.var_k
+            res_j = _utils.e_log_norm_wishart(v_precision_j, v_scale_j)
+            res_j -= dim / v_lambda_j
+            res_j -= v_scale_j * np.einsum('ij,ji->', s_j, v_precision_j)
+            res_j -= (v_scale_j *
+                      (x_bar_j - v_mu_j) @ v_precision_j @ (x_bar_j - v_mu_j)
+                      )
+            res_j -= dim * np.log(2 * np.pi)
+            res += n_j * res_j
         res /= 2
         return res
 
-- 
2.43.0


From e6d71d22ee79818ff0186b8614b414aa15464365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 39/62] fix: ELBO entropy of the weights uses q(w) instead of
 p(w)

---
 pyrichlet/mixture_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 708df23..bb3039c 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1096,7 +1096,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         return np.sum(self.var_d * np.log(self.var_d))
 
     def _e_loq_q_w(self):
-        return self.weight_model.variational_mean_log_p_w()
+        return self.weight_model.variational_mean_log_q_w()
 
     def _e_log_q_theta(self):
         dim = self.y.shape[1]
-- 
2.43.0


From eb1ac087e41076e27b05ba546beba979da8b48cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 40/62] fix: ELBO entropy of the atoms

The Wishart entropy was counted half and the dimension term had the wrong
sign, so the ELBO decreased along the optimization.
---
 pyrichlet/mixture_models/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index bb3039c..a94ddcb 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1105,8 +1105,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             _, v_lambda_j, v_precision_j, v_scale_j = vt_j
             res += _utils.e_log_norm_wishart(v_precision_j, v_scale_j)
             res += dim * (np.log(v_lambda_j / (2 * np.pi)))
-            res -= _utils.entropy_wishart(v_precision_j, v_scale_j)
-        res += dim * self.var_k
+            res -= 2 * _utils.entropy_wishart(v_precision_j, v_scale_j)
+        res -= dim * self.var_k
         res /= 2
         return res
 
-- 
2.43.0


From 2fca1c891c41432b8d33b01466d866d446857130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 41/62] fix: fitting a pandas Series and querying numpy scalars

A Series was accepted but kept one dimensional, so the fit raised.
---
 pyrichlet/mixture_models/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index a94ddcb..56bf73e 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -708,7 +708,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             self.y = y.to_numpy()
             self._column_names = y.columns
         elif isinstance(y, pd.Series):
-            self.y = y.to_numpy()
+            self.y = y.to_numpy().reshape(-1, 1)
             if y.name is None:
                 self._column_names = np.array([0])
             else:
@@ -1118,6 +1118,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         else:
             if isinstance(y, pd.DataFrame):
                 _y = y.to_numpy()
+            elif isinstance(y, pd.Series):
+                _y = y.to_numpy().reshape(-1, 1)
             elif isinstance(y, list):
                 _y = np.array(y)
                 if _y.ndim == 1:
@@ -1128,7 +1130,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                     _y = y.reshape(-1, 1)
                 else:
                     _y = y
-            elif isinstance(y, (int, float)):
+            elif isinstance(y, (int, float, np.number)):
                 _y = np.array([[y]])
             else:
                 raise TypeError("Invalid type for variable y")
-- 
2.43.0


From d267bff9cd728526a64bd7057c34e3d401e5324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 42/62] fix: the initial state has an atom for every component

When the initial state of the Gibbs sampler was the one of highest likelihood
the MAP queries raised KeyError, as only the components with observations had
an atom.
---
 pyrichlet/mixture_models/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 56bf73e..c1b5c5e 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -870,7 +870,11 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.weight_model.fit_variational(self.var_d)
 
     def _get_run_params(self):
-        return {"w": self.weight_model.get_weights(),
+        w = self.weight_model.get_weights()
+        for j in range(len(w)):
+            # Draws from the prior the atoms that have not been used yet
+            _ = self.theta[j]
+        return {"w": w,
                 "theta": dict(self.theta),
                 "u": self.u,
                 "d": self.d}
-- 
2.43.0


From bfc234484d7934bf42ee04b8d9017503d595748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 43/62] fix: kmeans initialization with more groups than
 observations

---
 pyrichlet/mixture_models/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 3dadbcf..7c38b49 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -146,7 +146,7 @@ def kmeans_cluster_size_biased(y, k, rng):
     # TODO wait for sklearn to implement Generator as random_state
     # input https://github.com/scikit-learn/scikit-learn/issues/16988
     km = KMeans(
-        n_clusters=k,
+        n_clusters=min(k, len(y)),
         n_init=10,
         random_state=np.random.RandomState(rng.bit_generator)
     )
-- 
2.43.0


From c16016a7531327eeb59a9927005e067ebb75623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 44/62] fix: BetaInBeta.weighting_log_likelihood at x = 0 and x
 = 1

It divided by zero at x = 1, and at x = 0 (a Dirichlet process, where p plays
no role) it added the density of an unused p, infinite for b < 1 or a > 1.
---
 pyrichlet/weight_models/_beta_in_beta.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index 794653f..a2aef1a 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -24,6 +24,9 @@ class BetaInBeta(BaseWeight):
         self._validate_params()
 
     def weighting_log_likelihood(self):
+        if self.x == 1:
+            # A geometric structure is determined by p
+            return self._internal_beta_log_likelihood()
         v = self.w[0]
         beta_a = 1 + self.x / (1 - self.x) * self.p
         beta_b = self.alpha + self.x / (1 - self.x) * (1 - self.p)
@@ -33,7 +36,8 @@ class BetaInBeta(BaseWeight):
             v = wj / prod_v
             ret += log_likelihood_beta(v, beta_a, beta_b)
             prod_v *= (1 - v)
-        ret += self._internal_beta_log_likelihood()
+        if self.x > 0:
+            ret += self._internal_beta_log_likelihood()
         return ret
 
     def _internal_beta_log_likelihood(self):
-- 
2.43.0


From ee7b4c5e2d318560e37ce16ac64bc7da596d6da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 45/62] fix: dirichlet_log_eppf is NaN when alpha is zero

---
 pyrichlet/utils/functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyrichlet/utils/functions.py b/pyrichlet/utils/functions.py
index 49e77ef..5e0f8fa 100644
--- a/pyrichlet/utils/functions.py
+++ b/pyrichlet/utils/functions.py
@@ -17,6 +17,9 @@ def log_likelihood_binom(x, n, p):
 
 def dirichlet_log_eppf(alpha, partition):
     k = len(partition)
+    if alpha == 0:
+        # Every element belongs to the same block
+        return 0.0 if k == 1 else -np.inf
     n = sum(partition)
     res = loggamma(alpha) - loggamma(alpha + n)
     res += k * np.log(alpha)
-- 
2.43.0


From 5d8bf8bdfa1587cd666ca5ffbd20243cdd77bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 46/62] fix: mean and mode of the weights before a variational
 fit

They raised TypeError instead of NotFittedError, as the other expectations do.
---
 pyrichlet/weight_models/_dirichlet_distribution.py | 4 ++++
 pyrichlet/weight_models/_dirichlet_process.py      | 4 ++++
 pyrichlet/weight_models/_frequency.py              | 2 ++
 pyrichlet/weight_models/_geometric_process.py      | 4 ++++
 pyrichlet/weight_models/_pitman_yor_process.py     | 4 ++++
 5 files changed, 18 insertions(+)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index d1808f9..b37bb16 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -97,11 +97,15 @@ class DirichletDistribution(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         return self.variational_params[j] / self.variational_params.sum()
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         alpha = self.variational_params.sum()
diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index 39e4017..b59cafe 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -114,6 +114,8 @@ class DirichletProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         res = 1
@@ -126,6 +128,8 @@ class DirichletProcess(BaseWeight):
         return res
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         res = 1
diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index 9b7461e..8b3b882 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -57,6 +57,8 @@ class FrequencyWeighting(BaseWeight):
         return 0
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         if self.variational_d.shape[1] == 0:
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 7f4b6a8..b9a44d8 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -110,6 +110,8 @@ class GeometricProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         a, b = self.variational_params
@@ -119,6 +121,8 @@ class GeometricProcess(BaseWeight):
         return res
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         if self.variational_params[0] <= 1:
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 93850cb..3e1a477 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -137,6 +137,8 @@ class PitmanYorProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         res = 1
@@ -149,6 +151,8 @@ class PitmanYorProcess(BaseWeight):
         return res
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         res = 1
-- 
2.43.0


From f7e7cefe6c294252eef61a103188b65dfdf7a692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 47/62] fix: the fitted data and scale prior do not alias the
 objects of the caller

---
 pyrichlet/mixture_models/_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index c1b5c5e..ab18c63 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -705,10 +705,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         Initialize the prior variables if not given
         """
         if isinstance(y, pd.DataFrame):
-            self.y = y.to_numpy()
+            self.y = y.to_numpy(copy=True)
             self._column_names = y.columns
         elif isinstance(y, pd.Series):
-            self.y = y.to_numpy().reshape(-1, 1)
+            self.y = y.to_numpy(copy=True).reshape(-1, 1)
             if y.name is None:
                 self._column_names = np.array([0])
             else:
@@ -745,7 +745,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if self.psi_prior is None:
             self.psi_prior = psi_prior = np.atleast_2d(np.cov(self.y.T))
         elif self.psi_prior is not psi_prior:
-            self.psi_prior = np.atleast_2d(self.psi_prior)
+            self.psi_prior = np.array(self.psi_prior, ndmin=2)
         if self.nu_prior is None:
             self.nu_prior = nu_prior = self.y.shape[1]
         self._empirical_priors = (mu_prior, psi_prior, nu_prior)
-- 
2.43.0


From 464c404e6bb4e20d16ef39e47fdd05a0e973df5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 48/62] fix: variational fits of the weighting models keep a
 copy of the assignation probabilities

---
 pyrichlet/weight_models/_dirichlet_distribution.py | 2 +-
 pyrichlet/weight_models/_dirichlet_process.py      | 2 +-
 pyrichlet/weight_models/_equal.py                  | 2 +-
 pyrichlet/weight_models/_frequency.py              | 2 +-
 pyrichlet/weight_models/_geometric_process.py      | 2 +-
 pyrichlet/weight_models/_pitman_yor_process.py     | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index b37bb16..1b54ec3 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -49,7 +49,7 @@ class DirichletDistribution(BaseWeight):
                                              "Dirichlet distribution's" \
                                              "dimension"
         self.variational_k = self.n
-        self.variational_d = variational_d
+        self.variational_d = np.array(variational_d)
         self.variational_params = self.alpha + np.sum(self.variational_d, 1)
 
     def variational_mean_log_w_j(self, j):
diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index b59cafe..4965c12 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -57,7 +57,7 @@ class DirichletProcess(BaseWeight):
         return self.w
 
     def fit_variational(self, variational_d):
-        self.variational_d = variational_d
+        self.variational_d = np.array(variational_d)
         self.variational_k = len(self.variational_d)
         self.variational_params = np.empty((self.variational_k, 2),
                                            dtype=np.float64)
diff --git a/pyrichlet/weight_models/_equal.py b/pyrichlet/weight_models/_equal.py
index 015c348..3a09ef6 100644
--- a/pyrichlet/weight_models/_equal.py
+++ b/pyrichlet/weight_models/_equal.py
@@ -20,7 +20,7 @@ class EqualWeighting(BaseWeight):
         return self.random(size)
 
     def fit_variational(self, variational_d: np.ndarray):
-        self.variational_d = variational_d
+        self.variational_d = np.array(variational_d)
         self.n = self.variational_d.shape[0]
         self.variational_k = self.n
 
diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index 8b3b882..1ad6dd8 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -24,7 +24,7 @@ class FrequencyWeighting(BaseWeight):
         return self.random(size)
 
     def fit_variational(self, variational_d: np.ndarray):
-        self.variational_d = variational_d
+        self.variational_d = np.array(variational_d)
         self.variational_k = variational_d.shape[0]
 
     def variational_mean_log_w_j(self, j):
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index b9a44d8..0b433fd 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -49,7 +49,7 @@ class GeometricProcess(BaseWeight):
         return super().tail(x)
 
     def fit_variational(self, variational_d):
-        self.variational_d = variational_d
+        self.variational_d = np.array(variational_d)
         self.variational_k = len(self.variational_d)
         self.variational_params = np.empty(2, dtype=np.float64)
         self.variational_params[0] = self.a + len(self.variational_d[0])
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 3e1a477..e88088d 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -73,7 +73,7 @@ class PitmanYorProcess(BaseWeight):
         return self.w
 
     def fit_variational(self, variational_d):
-        self.variational_d = variational_d
+        self.variational_d = np.array(variational_d)
         self.variational_k = len(self.variational_d)
         self.variational_params = np.empty((self.variational_k, 2),
                                            dtype=np.float64)
-- 
2.43.0


From 9aa41a27c40a3c27d03bfaeed8caf998c09ea1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 49/62] fix: Gibbs sampling of a single observation raised a
 broadcasting error

---
 pyrichlet/mixture_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index ab18c63..6836380 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -941,7 +941,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                                             self.theta[j][1],
                                             1)
                  for j in range(self.weight_model.get_size())]
-            )
+            ).reshape(-1, len(self.y))
             log_probability += np.log(np.greater.outer(
                 self.weight_model.get_weights(),
                 self.u))
-- 
2.43.0


From 0a7792bc08e31eed6fcf1b00637fbc9980b4beca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 50/62] fix: variational fits of EqualWeighting do not replace
 its number of weights

---
 pyrichlet/weight_models/_equal.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pyrichlet/weight_models/_equal.py b/pyrichlet/weight_models/_equal.py
index 3a09ef6..0b35e26 100644
--- a/pyrichlet/weight_models/_equal.py
+++ b/pyrichlet/weight_models/_equal.py
@@ -21,11 +21,11 @@ class EqualWeighting(BaseWeight):
 
     def fit_variational(self, variational_d: np.ndarray):
         self.variational_d = np.array(variational_d)
-        self.n = self.variational_d.shape[0]
-        self.variational_k = self.n
+        self.variational_k = self.variational_d.shape[0]
 
     def variational_mean_log_w_j(self, j):
-        return np.log(1 / self.n) if j < self.n else -np.inf
+        k = self._variational_size()
+        return np.log(1 / k) if j < k else -np.inf
 
     def variational_mean_log_p_d__w(self, variational_d=None):
         _variational_d = variational_d
@@ -33,7 +33,7 @@ class EqualWeighting(BaseWeight):
             _variational_d = self.variational_d
             if _variational_d is None:
                 raise NotFittedError
-        return _variational_d.shape[1] * np.log(1 / self.n)
+        return _variational_d.shape[1] * np.log(1 / self._variational_size())
 
     def variational_mean_log_p_w(self):
         return 0
@@ -42,7 +42,14 @@ class EqualWeighting(BaseWeight):
         return 0
 
     def variational_mean_w_j(self, j):
-        return 1 / self.n * (j < self.n)
+        k = self._variational_size()
+        return 1 / k * (j < k)
 
     def variational_mode_w_j(self, j):
-        return 1 / self.n * (j < self.n)
+        k = self._variational_size()
+        return 1 / k * (j < k)
+
+    def _variational_size(self):
+        # The truncation of a variational fit must not replace `n`, which is
+        # the number of weights of the model
+        return self.n if self.variational_k is None else self.variational_k
-- 
2.43.0


From fad09b527b5cbbd1189e5ac63db9221ae71db26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 51/62] fix: assignation_log_likelihood accepts assignments of
 any integer type

---
 pyrichlet/weight_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index fe7198e..5ff0c80 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -127,7 +127,7 @@ class BaseWeight(ABC):
         """Returns the log-likelihood of an assignment `d` given the weights"""
         if d is None:
             d = self.d
-        self.complete(max(d) + 1)
+        self.complete(int(max(d)) + 1)
         with np.errstate(divide='ignore'):
             ret = np.sum(np.log(self.w[d]))
         return ret
-- 
2.43.0


From 7d58330ac46f2906881fa12191e8f2ce4e60c8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 52/62] fix: max-likelihood p of beta-in-beta is not stuck when
 the density is zero at an end of the interval

---
 pyrichlet/weight_models/_beta_in_beta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index a2aef1a..d723e40 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -118,7 +118,7 @@ class BetaInBeta(BaseWeight):
             max_param = minimize(
                 lambda p: -self._structure_log_likelihood(p=p),
                 np.array([self.p]),
-                bounds=[(0, 1)],
+                bounds=[(1e-8, 1 - 1e-8)],
                 options={'maxiter': self.p_optim_max_steps})
             if max_param.success:
                 self.p = max_param.x[0]
-- 
2.43.0


From e23631e2e64446dd9a3bf899cfb55362551ca9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 53/62] fix: beta-in-beta redraws p given the latest sticks
 after a fit

---
 pyrichlet/weight_models/_beta_in_beta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index d723e40..9566e5f 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -46,8 +46,8 @@ class BetaInBeta(BaseWeight):
     def random(self, size=None):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
-        self.v = self.v[:0]
         if len(self.d) == 0:
+            self.v = self.v[:0]
             self.complete(size)
         else:
             if self.x > 0:
-- 
2.43.0


From eb564a9b6ecc5be3a1e56232630d5b934e62c790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:51 +0000
Subject: [PATCH 54/62] fix: gibbs_map_pairplot before a fit raises the
 not-fitted error

---
 pyrichlet/mixture_models/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 6836380..c8fa1e8 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -385,6 +385,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         return ret
 
     def gibbs_map_pairplot(self):
+        if not self.gibbs_fitted:
+            raise NotFittedError(
+                "Object must be fitted with fit_gibbs method")
         import matplotlib.pyplot as plt
         import matplotlib.ticker as ticker
         from matplotlib.ticker import FormatStrFormatter
-- 
2.43.0


From 69c40d0d46dbcba52cb155cf7dedf6f03f179104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:51 +0000
Subject: [PATCH 55/62] fix: gibbs_map_pairplot of one-dimensional data

---
 pyrichlet/mixture_models/_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index c8fa1e8..2126aab 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -399,6 +399,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         grp = self.gibbs_map_cluster()
 
         fig, axes = plt.subplots(nrows=n_feats, ncols=n_feats, sharex='col',
+                                 squeeze=False,
                                  figsize=(n_feats * 2, n_feats * 2))
         fig.set_dpi(150)
         alpha = 0.05
-- 
2.43.0


From bf8647728b024e50d062df915019f365a5aa55e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:51 +0000
Subject: [PATCH 56/62] fix: gibbs_map_pairplot of eleven clusters ran out of
 colors

---
 pyrichlet/mixture_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 2126aab..b311323 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -405,7 +405,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         alpha = 0.05
         alpha_radius = np.sqrt(chi2.ppf(1 - alpha, 2))
         color = plt.get_cmap('tab10')
-        if max(grp) > 10:
+        if max(grp) >= 10:
             color = color(np.linspace(0, 1, len(np.unique(grp)) + 1))
         else:
             color = color(np.linspace(0, 1, 10))
-- 
2.43.0


From 25a4aad103e7ee00d458c01671bc106bdc76e839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:51 +0000
Subject: [PATCH 57/62] fix: gibbs_map_pairplot shows the components of the
 clusters

---
 pyrichlet/mixture_models/_base.py  | 12 ++++++++----
 pyrichlet/mixture_models/_utils.py | 11 ++++++++++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index b311323..108a734 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -397,6 +397,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         names = self._column_names
         n_feats = self.y.shape[1]
         grp = self.gibbs_map_cluster()
+        # Component of the mixture behind each one of the cluster labels
+        component = _utils.cluster_components(self.y,
+                                              self.map_sim_params["w"],
+                                              self.map_sim_params["theta"])
 
         fig, axes = plt.subplots(nrows=n_feats, ncols=n_feats, sharex='col',
                                  squeeze=False,
@@ -453,12 +457,12 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                                           100)
                     for j in np.unique(grp):
                         dens = self.gibbs_map_density(y_range, dim=it,
-                                                      component=j)
+                                                      component=component[j])
                         # ax.plot(y_range, dens, c=color[j])
                         ax.fill_between(y_range, dens, interpolate=True,
                                         color=color[j], alpha=0.5)
                     for j in range(len(self.map_sim_params['w'])):
-                        if j in grp:
+                        if j in component:
                             continue
                         dens = self.gibbs_map_density(y_range, dim=it,
                                                       component=j)
@@ -475,9 +479,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                     ax.scatter(self.y[:, it], self.y[:, it2], s=10,
                                c=color[grp], alpha=0.5)
                     for j in np.unique(grp):
-                        mu = self.map_sim_params['theta'][j][0]
+                        mu = self.map_sim_params['theta'][component[j]][0]
                         mu = mu[[it, it2]]
-                        sigma = self.map_sim_params['theta'][j][1]
+                        sigma = self.map_sim_params['theta'][component[j]][1]
                         sigma = sigma[[it, it2], :][:, [it, it2]]
                         ldl_sigma = ldl(sigma)
                         sig_sq = ldl_sigma[0] @ np.sqrt(
diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 7c38b49..e4bd41c 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -94,7 +94,16 @@ def mixture_density(x, w, theta, dim=None, component=None):
     return ret
 
 
+def cluster_components(x, w, theta):
+    """Returns the component of the mixture of each label of `cluster`"""
+    return _cluster(x, w, theta)[0]
+
+
 def cluster(x, w, theta):
+    return _cluster(x, w, theta)[1:]
+
+
+def _cluster(x, w, theta):
     k = len(w)
     assign_prob = []
     for j in range(k):
@@ -111,7 +120,7 @@ def cluster(x, w, theta):
     grp = np.argmax(assign_prob, axis=1)
     uncertainty = 1 - assign_prob[range(len(x)), grp]
     u_grp, ret = np.unique(grp, return_inverse=True)
-    return ret, uncertainty
+    return u_grp, ret, uncertainty
 
 
 def log_wishart_normalization_term(precision, scale):
-- 
2.43.0


From 240a70e627c2df4404e8a1020adff17cb1418508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:51 +0000
Subject: [PATCH 58/62] fix: gibbs_map_pairplot draws the contours of the
 components

---
 pyrichlet/mixture_models/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 108a734..a0ee42e 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -484,8 +484,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                         sigma = self.map_sim_params['theta'][component[j]][1]
                         sigma = sigma[[it, it2], :][:, [it, it2]]
                         ldl_sigma = ldl(sigma)
-                        sig_sq = ldl_sigma[0] @ np.sqrt(
-                            ldl_sigma[1]) @ ldl_sigma[0].T
+                        # A square root of sigma, transposed
+                        sig_sq = np.sqrt(ldl_sigma[1]) @ ldl_sigma[0].T
                         circle_points = np.array(
                             [np.cos(np.linspace(0, 2 * np.pi, 100)),
                              np.sin(np.linspace(0, 2 * np.pi,
-- 
2.43.0


From b2985d486f77dc5d662e2d3a581b5841f8b3b8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:05 +0000
Subject: [PATCH 59/62] fix: variational initialization of fit_gibbs keeps the
 column names

The variational fit is given the array of observations, so it replaced the
names of the columns of the fitted data frame by their indices.
---
 pyrichlet/mixture_models/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index a0ee42e..c7a4389 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -819,8 +819,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         elif method == "random":
             self.d = self.weight_model.random_assignment(len(self.y))
         elif method == "variational":
+            column_names = self._column_names
             self.fit_variational(self.y,
                                  n_groups=self.weight_model.get_size())
+            self._column_names = column_names
             self.d = self.var_map_cluster()
         else:
             raise AttributeError("init_method param must be one of 'kmeans', "
-- 
2.43.0


From df32edcdb2b42d3869ee8b7cd9a56004a2647ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:33 +0000
Subject: [PATCH 60/62] fix: normal densities of variables in very different
 units

scipy's allow_singular drops the directions whose variance is 2e-10 times
smaller than the largest one, so that a variable measured in units 1e5
times larger than the others was the only one looked at.
---
 pyrichlet/mixture_models/_base.py  | 15 +++++--------
 pyrichlet/mixture_models/_utils.py | 36 +++++++++++++++++++-----------
 2 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index c7a4389..04a37fe 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1,5 +1,4 @@
 from sklearn.cluster import SpectralClustering
-from scipy.stats import multivariate_normal
 from collections import defaultdict
 import pandas as pd
 import numpy as np
@@ -946,10 +945,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
     def _d_log_likelihood_vector(self):
         with np.errstate(divide='ignore'):
             log_probability = np.array(
-                [multivariate_normal.logpdf(self.y,
-                                            self.theta[j][0],
-                                            self.theta[j][1],
-                                            1)
+                [_utils.log_density_normal(self.y,
+                                           self.theta[j][0],
+                                           self.theta[j][1])
                  for j in range(self.weight_model.get_size())]
             ).reshape(-1, len(self.y))
             log_probability += np.log(np.greater.outer(
@@ -968,10 +966,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         ret = 0
         with np.errstate(divide='ignore'):
             for j in np.unique(self.d):
-                ret += np.sum(multivariate_normal.logpdf(self.y[self.d == j],
-                                                         self.theta[j][0],
-                                                         self.theta[j][1],
-                                                         1))
+                ret += np.sum(_utils.log_density_normal(self.y[self.d == j],
+                                                        self.theta[j][0],
+                                                        self.theta[j][1]))
         return ret
 
     def _d_log_likelihood(self):
diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index e4bd41c..f9765f1 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -1,3 +1,4 @@
+from scipy.linalg import solve_triangular
 from scipy.stats import invwishart, multivariate_normal, norm
 from scipy.special import digamma, loggamma
 from sklearn.cluster import KMeans
@@ -14,9 +15,22 @@ def random_normal_invw(mu, lam, psi, nu, rng=None):
     return ret_mu, ret_sigma
 
 
+def log_density_normal(x, mu, sigma):
+    """Returns the log density of a normal distribution at each row of x,
+    whatever the scale of each one of its dimensions"""
+    try:
+        chol = np.linalg.cholesky(sigma)
+    except np.linalg.LinAlgError:
+        return np.atleast_1d(multivariate_normal.logpdf(x, mu, sigma, True))
+    z = solve_triangular(chol, (np.asarray(x, dtype=float) - mu).T,
+                         lower=True, check_finite=False)
+    return (-(z ** 2).sum(0) / 2 - np.log(np.diag(chol)).sum() -
+            len(chol) * np.log(2 * np.pi) / 2)
+
+
 def log_likelihood_normal_invw(mu, sigma, mu0, lam0, psi0, nu0):
     log_sigma = invwishart.logpdf(sigma, nu0, psi0)
-    log_mu = multivariate_normal.logpdf(mu, mu0, sigma / lam0)
+    log_mu = log_density_normal(np.atleast_2d(mu), mu0, sigma / lam0)[0]
     return log_sigma + log_mu
 
 
@@ -73,16 +87,15 @@ def mixture_density(x, w, theta, dim=None, component=None):
         return np.zeros(len(x))
     for j in iterator:
         if dim is None:
-            ret.append(multivariate_normal.pdf(x,
-                                               theta[j][0],
-                                               theta[j][1],
-                                               1)*w[j])
+            ret.append(np.exp(log_density_normal(x,
+                                                 theta[j][0],
+                                                 theta[j][1]))*w[j])
         elif isinstance(dim, (list, tuple, np.ndarray)):
             dim = np.array(dim)
-            ret.append(multivariate_normal.pdf(x,
-                                               theta[j][0][dim],
-                                               theta[j][1][:, dim][dim, :],
-                                               1)*w[j])
+            ret.append(np.exp(log_density_normal(
+                x,
+                theta[j][0][dim],
+                theta[j][1][:, dim][dim, :]))*w[j])
         elif isinstance(dim, (int, np.integer)):
             ret.append(norm.pdf(x[:, 0],
                                 theta[j][0][dim],
@@ -107,10 +120,7 @@ def _cluster(x, w, theta):
     k = len(w)
     assign_prob = []
     for j in range(k):
-        assign_prob.append(multivariate_normal.logpdf(x,
-                                                      theta[j][0],
-                                                      theta[j][1],
-                                                      1))
+        assign_prob.append(log_density_normal(x, theta[j][0], theta[j][1]))
     assign_prob = np.array(assign_prob).reshape(k, len(x)).T
     with np.errstate(divide='ignore'):
         assign_prob = assign_prob + np.log(w)
-- 
2.43.0


From 2c17707c6a328665dee0df3045a230e5296df2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:06 +0000
Subject: [PATCH 61/62] fix: a refused fit leaves the object as it was

fit_gibbs with an unknown init_method, and fit_variational with an unknown
init_method or without the number of groups, raised only after replacing the
data and the priors and deleting the saved states, so a fitted object was left
claiming to be fitted and without a fit.
---
 pyrichlet/mixture_models/_base.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 04a37fe..f13c61b 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -134,6 +134,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             "variational": fits the variational distribution an uses the MAP
             parameters as initialization
         """
+        if not warm_start and init_method not in ("kmeans", "random",
+                                                  "variational"):
+            raise AttributeError("init_method param must be one of 'kmeans', "
+                                 "'random', 'variational'")
         self._initialize_common_params(y, warm_start)
         if not warm_start:
             self._initialize_gibbs_params(init_groups=init_groups,
@@ -203,9 +207,6 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             "random": initialize variational parameters using a random
             assignment
         """
-        if show_progress is not None:
-            self.show_progress = show_progress
-        self._initialize_common_params(y, warm_start)
         if not warm_start:
             if hasattr(self, 'n') and n_groups is None:
                 var_k = self.n
@@ -213,6 +214,13 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 raise AttributeError("n_groups must be a positive integer")
             else:
                 var_k = n_groups
+            if init_method not in ("kmeans", "random"):
+                raise AttributeError("init_method param must be one of "
+                                     "'kmeans', 'random'")
+        self._initialize_common_params(y, warm_start)
+        if show_progress is not None:
+            self.show_progress = show_progress
+        if not warm_start:
             self._initialize_variational_params(var_k=var_k,
                                                 init_method=init_method)
         elbo = -np.inf
-- 
2.43.0


From 9f4d931e883284ecf0ae8d371b6dfdf9acc29539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:05 +0000
Subject: [PATCH 62/62] fix: a refused random(size) leaves the weighting
 structure as it was

random refused a size that is not an integer only after discarding the sticks
(or after drawing new ones), so that a later completion changed the weights.
The size is validated first, as complete does.
---
 pyrichlet/weight_models/_beta_bernoulli.py     | 1 +
 pyrichlet/weight_models/_beta_binomial.py      | 1 +
 pyrichlet/weight_models/_beta_in_beta.py       | 1 +
 pyrichlet/weight_models/_geometric_process.py  | 1 +
 pyrichlet/weight_models/_pitman_yor_process.py | 1 +
 5 files changed, 5 insertions(+)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index d532fb8..9e67211 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -33,6 +33,7 @@ class BetaBernoulli(BaseWeight):
         return ret
 
     def random(self, size=None):
+        super().complete(size)
         if size is None:
             if len(self.d) == 0:
                 raise ValueError(
diff --git a/pyrichlet/weight_models/_beta_binomial.py b/pyrichlet/weight_models/_beta_binomial.py
index 7b73134..0d76104 100644
--- a/pyrichlet/weight_models/_beta_binomial.py
+++ b/pyrichlet/weight_models/_beta_binomial.py
@@ -26,6 +26,7 @@ class BetaBinomial(BaseWeight):
         return res
 
     def random(self, size=None):
+        super().complete(size)
         if size is None:
             if len(self.d) == 0:
                 raise ValueError(
diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index 9566e5f..72f7a94 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -44,6 +44,7 @@ class BetaInBeta(BaseWeight):
         return log_likelihood_beta(self.p, self.a, self.b)
 
     def random(self, size=None):
+        super().complete(size)
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
         if len(self.d) == 0:
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 0b433fd..76afd55 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -20,6 +20,7 @@ class GeometricProcess(BaseWeight):
         return ret
 
     def random(self, size=None):
+        super().complete(size)
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
         if size is None:
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index e88088d..e0163e0 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -27,6 +27,7 @@ class PitmanYorProcess(BaseWeight):
         return ret
 
     def random(self, size=None):
+        super().complete(size)
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
         if len(self.d) == 0:
-- 
2.43.0

