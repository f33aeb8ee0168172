From e4ae5fd94ac433e403a5a5ea86c0e9c5019db3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 01/18] fix: integrate_box with a finite lower and an infinite
 upper limit

The integral from l to infinity was computed as minus the integral from
negative infinity to l.
---
 gpcm/exppoly.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 1e67949..da2dd14 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -593,7 +593,12 @@ class ExpPoly:
                     parts_new.append(part.translate_var(name, upper))
                 if not is_inf(lower):
                     lower = _as_poly(lower)  # Ensure that it is a polynomial.
-                    parts_new.append(-part.translate_var(name, lower))
+                    if is_inf(upper):
+                        # Reflect the variable, so the integral becomes from
+                        # negative infinity to zero.
+                        parts_new.append(part.substitute(name, lower - var(name)))
+                    else:
+                        parts_new.append(-part.translate_var(name, lower))
             parts = parts_new
 
         # Perform integration.
-- 
2.43.0


From 453b30768b4dc7a4cf437ea43cab36c9915be9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 02/18] fix: closest_psd for eigenvalues which only differ in
 sign

The signs of the eigenvalues were read off from the singular vectors, but
those are not unique if a matrix has eigenvalues which only differ in sign.
For example, [[0, 1], [1, 0]] was projected onto the zero matrix. Similarly,
eigenvalues which are zero up to round-off were inverted.
---
 gpcm/util.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gpcm/util.py b/gpcm/util.py
index 02384d6..f946700 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -148,12 +148,14 @@ def closest_psd(a, inv=False):
     """
     a = B.dense(a)
     a = (a + B.transpose(a)) / 2
-    u, s, v = B.svd(a)
-    signs = B.matmul(u, v, tr_a=True)
-    s = B.maximum(B.diag(signs) * s, 0)
+    # Shift all eigenvalues to be non-negative. Then the left singular vectors are
+    # eigenvectors of `a`, also if `a` has eigenvalues which only differ in sign.
+    u, _, _ = B.svd(a + B.sqrt(B.sum(a**2)) * B.eye(a))
+    s = B.maximum(B.diag(B.mm(u, a, u, tr_a=True)), 0)
     if inv:
-        s = B.where(s == 0, 0, 1 / s)
-    return B.mm(u * B.expand_dims(s, axis=-2), v, tr_b=True)
+        # Do not invert eigenvalues that are zero up to numerical precision.
+        s = B.where(s <= B.epsilon * B.max(s), 0, 1 / s)
+    return B.mm(u * B.expand_dims(s, axis=-2), u, tr_b=True)
 
 
 def collect(name="Quantities", **kw_args):
-- 
2.43.0


From c2af265e94d600c3aeccaab7a7223acd1ef12988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 03/18] fix: normalise the PSD with the total power over all
 frequencies

The trapezoidal rule was applied to frequencies that are not sorted, which
adds a spurious segment from the highest to the lowest frequency.
---
 gpcm/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpcm/util.py b/gpcm/util.py
index f946700..2f6e93c 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -109,7 +109,9 @@ def estimate_psd(t, k, n_zero=2_000, db=False):
     psd = np.abs(np.real(psd))
 
     # Now scale appropriately: the total power should equal `k[0]`.
-    total_power = np.trapz(y=psd, x=freqs)
+    # The frequencies are not sorted and periodic, so sum rather than integrate with the
+    # trapezoidal rule.
+    total_power = np.sum(psd) / (len(psd) * (t[1] - t[0]))
     psd /= total_power / k[0]
 
     # Convert to dB.
-- 
2.43.0


From dd1712d6c159d3061e153221977c91ba81b16c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 04/18] fix: let the 68% band contain 68% of the samples

The quantiles 0.32 and 0.68 only contain 36% of the samples.
---
 gpcm/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpcm/util.py b/gpcm/util.py
index 2f6e93c..d0a6e14 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -67,8 +67,8 @@ def summarise_samples(x, samples, db=False):
         x=B.to_numpy(x),
         mean=transform(B.mean(samples, axis=0)),
         var=transform(B.std(samples, axis=0)) ** 2,
-        err_68_lower=transform(B.quantile(samples, 0.32, axis=0)),
-        err_68_upper=transform(B.quantile(samples, 1 - 0.32, axis=0)),
+        err_68_lower=transform(B.quantile(samples, 0.16, axis=0)),
+        err_68_upper=transform(B.quantile(samples, 1 - 0.16, axis=0)),
         err_95_lower=transform(B.quantile(samples, 0.025, axis=0)),
         err_95_upper=transform(B.quantile(samples, 1 - 0.025, axis=0)),
         err_99_lower=transform(B.quantile(samples, 0.0015, axis=0)),
-- 
2.43.0


From d95122895b18e14cf852ca8815a24b26a4bad45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 05/18] fix: normalise the transform of the RGPCM with the
 decay that is used

The default scale of the transform was computed before the decay was limited,
so the variance of the inducing variables was not one.
---
 gpcm/rgpcm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpcm/rgpcm.py b/gpcm/rgpcm.py
index 0bf9b38..ee03851 100644
--- a/gpcm/rgpcm.py
+++ b/gpcm/rgpcm.py
@@ -170,11 +170,13 @@ class RGPCM(AbstractGPCM):
         if gamma is None:
             gamma = 1 / (2 * (self.t_u[1] - self.t_u[0]))
 
+        # Must ensure that `gamma < alpha`.
+        gamma = min(gamma, self.alpha / 1.5)
+
         if gamma_t is None:
             gamma_t = B.sqrt(2 * gamma)
 
-        # Must ensure that `gamma < alpha`.
-        self.gamma = min(gamma, self.alpha / 1.5)
+        self.gamma = gamma
         self.gamma_t = gamma_t
 
     def k_h(self):
-- 
2.43.0


From 6433a5de883027c647a952b4ced8cb058d613f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 06/18] fix: include the scale of the window in the kernel of
 the filter

The symbolic form of the kernel includes it, and samples of the inducing
variables have covariance according to the symbolic form.
---
 gpcm/gpcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/gpcm.py b/gpcm/gpcm.py
index 5d21f03..3360dfa 100644
--- a/gpcm/gpcm.py
+++ b/gpcm/gpcm.py
@@ -250,7 +250,7 @@ class GPCM(AbstractGPCM):
         k_h *= lambda t: B.exp(-self.alpha * t**2)  # Window
         if self.causal:
             k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
-        return k_h
+        return self.alpha_t**2 * k_h  # Scale of the window
 
     def k_xs(self, t1, t2):
         """Covariance function between to the white noise :math:`x` and its interdomain
-- 
2.43.0


From ac7d3e11360c450b38ea75ac1d00c640bf8488cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 07/18] fix: accept `current=False` in `ignore_qs`

It is documented to ignore none of the current approximate posteriors.
---
 gpcm/approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index c622902..4a0e364 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -114,7 +114,7 @@ class Approximation:
             names.append("-" + self.model.ps.q_u[self._q_i].all())
         elif current == "z":
             names.append("-" + self.model.ps.q_z[self._q_i].all())
-        else:
+        elif current is not False:
             raise ValueError(f'Invalid value "{current}" for `current`.')
         return names
 
-- 
2.43.0


From 7ae6fef9a7e27aa28a9c5af9dbb76b8366d3f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 08/18] fix: pass `current` to `ignore_qs` in the gradient
 scheme

Fitting `mean-field-gradient` raised a `TypeError`.
---
 gpcm/approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 4a0e364..1bfe658 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -816,7 +816,7 @@ def fit(model, t, y, approximation: MeanField, iters: B.Int = 5000):
             iters=iters // 5,
             trace=True,
             jit=True,
-            names=model().approximation.ignore_qs(previous=True),
+            names=model().approximation.ignore_qs(previous=True, current=False),
         )
 
         # Post-fit a CA solution, if applicable.
-- 
2.43.0


From 82304acbd91676099603747c60f317f3809e5692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 09/18] fix: accept the fitting method of
 `mean-field-ca-gradient`

Fitting raised a `ValueError`.
---
 gpcm/approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 1bfe658..846e273 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -800,7 +800,7 @@ def fit(model, t, y, approximation: MeanField, iters: B.Int = 5000):
 
     if approximation.fit == "ca":
         _fit_mean_field_ca(model(), t, y, iters)
-    elif approximation.fit == "bfgs":
+    elif approximation.fit in {"ca-bfgs", "bfgs"}:
         # Pre-fit a CA solution, if applicable.
         if approximation.fit == "ca-bfgs":
             _fit_mean_field_ca(model(), t, y, iters)
-- 
2.43.0


From 61858b2d433fdfd20e2c637f8cccc8088f42bb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 10/18] fix: respect a given maximum number of attempts

It was not passed on, so the default was used after the first attempt.
---
 gpcm/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpcm/sample.py b/gpcm/sample.py
index d9a840a..3ed2841 100644
--- a/gpcm/sample.py
+++ b/gpcm/sample.py
@@ -98,9 +98,9 @@ class ESS:
         else:
             # Proposal rejected. Shrink bracket and try again.
             if self.theta > 0:
-                return self._draw(lower, self.theta, u, attempts + 1)
+                return self._draw(lower, self.theta, u, attempts + 1, max_attempts)
             else:
-                return self._draw(self.theta, upper, u, attempts + 1)
+                return self._draw(self.theta, upper, u, attempts + 1, max_attempts)
 
     def sample(self, num=1, trace=False):
         """Generate samples from the target distribution.
-- 
2.43.0


From a507b6bb92ed8c3e4d7c903ef546c7b803ffc986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 11/18] fix: let `predict_fourier` work for mean-field schemes

It passes the number of samples to all approximations, which the mean-field
approximation did not accept.
---
 gpcm/approx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 846e273..843bce3 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -675,9 +675,13 @@ class MeanField(Approximation):
         return B.stack(*[sample_kernel(t_k, u) for u in _columns(us)], axis=0)
 
     @_dispatch
-    def predict_z(self):
+    def predict_z(self, num_samples: B.Int = 1000):
         """Predict Fourier features under the mean-field approximation.
 
+        Args:
+            num_samples (int, optional): Not used: the prediction is exact. Provided to
+                ensure a consistent interface between all approximations.
+
         Returns:
             tuple[vector, vector]: Marginals of the predictions.
         """
-- 
2.43.0


From 0e5879b72566cad791a287c6c78aa20ddbb99e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 12/18] fix: merge common terms of which a partial sum is zero

A term with constant zero loses its factors, so adding the next common term
raised a `RuntimeError`. For example, (1 + x + x^2) (1 - x + x^2) failed or
succeeded depending on the hash seed.
---
 gpcm/exppoly.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index da2dd14..8af2742 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -302,8 +302,10 @@ class Term:
 def _merge_common_terms(*terms):
     merged_terms = []
     for factors in set(frozenset(x.factors) for x in terms):
-        associated_terms = filter(lambda x: x.factors == factors, terms)
-        merged_terms.append(reduce(operator.add, associated_terms, 0))
+        # Add the constants rather than the terms: if a partial sum happens to be zero,
+        # that partial sum would lose its factors.
+        consts = [x.const for x in terms if x.factors == factors]
+        merged_terms.append(Term(reduce(operator.add, consts), *factors))
     return merged_terms
 
 
-- 
2.43.0


From c62a144fe971c9e07695fd0608e1fede5d4f5d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 13/18] fix: let the zeroth power of a polynomial be a
 polynomial

It was the integer one, which cannot be evaluated.
---
 gpcm/exppoly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 8af2742..e0727b1 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -467,7 +467,7 @@ class Poly:
         assert modulo is None, 'Keyword "modulo" is not supported.'
         if power < 0:
             raise RuntimeError("Can only raise polynomials to non-negative integers.")
-        return reduce(operator.mul, [self] * power, 1)
+        return reduce(operator.mul, [self] * power, const(1))
 
 
 @_dispatch
-- 
2.43.0


From d370f67a6b6ce9cf2dfea6be2e77035098b39201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 14/18] fix: let substitution in an empty polynomial give a
 polynomial

It gave the integer zero, which cannot be evaluated.
---
 gpcm/exppoly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index e0727b1..00c9587 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -407,7 +407,7 @@ class Poly:
         Returns:
             :class:`.exppoly.Poly`: Result of substitution.
         """
-        result = 0
+        result = Poly()
         for term in self.terms:
             result = result + term.substitute(name, poly)
         return result
-- 
2.43.0


From d221add4daf070e61502e6f698567840b153aaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 15/18] fix: let the highest power of an empty polynomial be
 zero

It raised a `ValueError`.
---
 gpcm/exppoly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 00c9587..30478bf 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -394,7 +394,7 @@ class Poly:
             int: Highest power of variable `name`. Returns `0` if it does not depend
                 on `name`.
         """
-        return max([term.highest_power(name) for term in self.terms])
+        return max([term.highest_power(name) for term in self.terms], default=0)
 
     @_dispatch
     def substitute(self, name: str, poly: "Poly"):
-- 
2.43.0


From 82c94460363b160033ffcdfa94b3917d4473f9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 16/18] fix: give the prior a mean of the right shape

---
 gpcm/approx.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 843bce3..793c7c0 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -47,7 +47,8 @@ class Approximation:
     def p_u(self):
         """:class:`stheno.Normal`: Current prior for :math:`u`."""
         if self._q_i == 0:
-            return NaturalNormal(0, self.model.K_u)
+            lam = B.zeros(self.model.dtype, self.model.n_u, 1)
+            return NaturalNormal(lam, self.model.K_u)
         else:
             return _parametrise_natural(
                 self.model.ps.q_u[self._q_i - 1],
@@ -70,7 +71,8 @@ class Approximation:
     def p_z(self):
         """:class:`stheno.Normal`: Current prior for :math:`z`."""
         if self._q_i == 0:
-            return NaturalNormal(0, self.model.K_z)
+            lam = B.zeros(self.model.dtype, self.model.n_z, 1)
+            return NaturalNormal(lam, self.model.K_z)
         else:
             return _parametrise_natural(
                 self.model.ps.q_z[self._q_i - 1],
-- 
2.43.0


From da8f8f1742a04ad75ee3c8ff58e17b513a4015ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:58 +0000
Subject: [PATCH 17/18] fix: let the structured scheme predict before
 conditioning

---
 gpcm/approx.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 793c7c0..845a731 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -526,7 +526,10 @@ class Structured(Approximation):
 
         @B.jit
         def predict_moments(u):
-            q_z = self.q_z_optimal(self.ts, u)
+            if self._q_i == 0:
+                q_z = self.p_z  # There are no observations, so use the prior.
+            else:
+                q_z = self.q_z_optimal(self.ts, u)
             return self._predict_moments(ts, u, B.outer(u), q_z.mean, q_z.m2)
 
         m1s, m2s = zip(*[predict_moments(u) for u in self._sample_p_u(num_samples)])
-- 
2.43.0


From 284ac7d3f56cf5c9ada3481c4001ff03d95ae638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 18/18] fix: let the structured scheme be fitted with a single
 iteration

---
 gpcm/approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 845a731..0ee8275 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -757,7 +757,7 @@ def fit(
     state = B.create_random_state(model.dtype, seed=0)
 
     # Find a good starting points for the samples.
-    state, us, zs = gibbs_sample(state, iters=iters // 2)
+    state, us, zs = gibbs_sample(state, iters=max(iters // 2, 1))
     u, z = us[-1], zs[-1]
 
     if optimise_hypers:
-- 
2.43.0

