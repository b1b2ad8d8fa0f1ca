From 72e654dc4162fa17b37855692ed9d3170966fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 01/16] fix: raising a polynomial to the power zero gives a
 polynomial

reduce started from the integer 1, so p**0 was an int: it could not be
evaluated, integrated or compared.
---
 gpcm/exppoly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 1e67949..8e9b232 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -465,7 +465,7 @@ class Poly:
         assert modulo is None, 'Keyword "modulo" is not supported.'
         if power < 0:
             raise RuntimeError("Can only raise polynomials to non-negative integers.")
-        return reduce(operator.mul, [self] * power, 1)
+        return reduce(operator.mul, [self] * power, const(1))
 
 
 @_dispatch
-- 
2.43.0


From df9eca09170efd1ddc7cbebed8f296dd08a260b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 02/16] fix: discard terms that cancel in a polynomial

A term that cancelled stayed behind as a zero term, so for example
(x + 5) - x was not equal to the constant 5.
---
 gpcm/exppoly.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 8e9b232..14a65b3 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -197,6 +197,14 @@ class Term:
             operator.mul, [x.eval(**var_map) for x in self.factors], self.const
         )
 
+    def is_zero(self):
+        """Check whether this term is identically zero.
+
+        Returns:
+            bool: `True` if the constant is the number zero and `False` otherwise.
+        """
+        return isinstance(self.const, B.Number) and self.const == 0
+
     def is_constant(self):
         """Check whether this term is constant.
 
@@ -319,7 +327,10 @@ class Poly:
         # Merge common terms. Do _not_ store this as a set, even though we would like
         # to, because in certain AD frameworks the hash of the constant of a term
         # cannot be computed.
-        self.terms = _merge_common_terms(*terms)
+        terms = _merge_common_terms(*terms)
+        # Terms that cancel exactly are zero. Discard them, unless nothing else is left.
+        nonzero_terms = [x for x in terms if not x.is_zero()]
+        self.terms = nonzero_terms if nonzero_terms else terms[:1]
 
     @_dispatch
     def is_function_of(self, name: str):
-- 
2.43.0


From 488e75bcd5e4d28c3c040e0ea34cdebe93e0c012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 03/16] fix: highest power and substitution for the empty
 polynomial

reject and collect_for can give a polynomial without terms. Its highest
power raised an exception and substituting into it gave the integer 0.
---
 gpcm/exppoly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 14a65b3..e73aa73 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -403,7 +403,7 @@ class Poly:
             int: Highest power of variable `name`. Returns `0` if it does not depend
                 on `name`.
         """
-        return max([term.highest_power(name) for term in self.terms])
+        return max([term.highest_power(name) for term in self.terms], default=0)
 
     @_dispatch
     def substitute(self, name: str, poly: "Poly"):
@@ -416,7 +416,7 @@ class Poly:
         Returns:
             :class:`.exppoly.Poly`: Result of substitution.
         """
-        result = 0
+        result = Poly()
         for term in self.terms:
             result = result + term.substitute(name, poly)
         return result
-- 
2.43.0


From 7cb3b970aced6de3e34b0259f6b92cad3c2a6fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 04/16] fix: integrate from a finite lower limit to infinity

The part at the infinite upper limit was left out, so the result was minus
the integral from minus infinity to the lower limit.
---
 gpcm/exppoly.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index e73aa73..dbceafd 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -599,9 +599,14 @@ class ExpPoly:
         for name, lower, upper in name_and_lims:
             parts_new = []
             for part in parts:
-                if not is_inf(upper):
-                    upper = _as_poly(upper)  # Ensure that it is a polynomial.
-                    parts_new.append(part.translate_var(name, upper))
+                if is_inf(upper):
+                    # Only the lower limit is finite. Reflect the variable to integrate
+                    # to infinity.
+                    lower = _as_poly(lower)  # Ensure that it is a polynomial.
+                    parts_new.append(part.substitute(name, lower - var(name)))
+                    continue
+                upper = _as_poly(upper)  # Ensure that it is a polynomial.
+                parts_new.append(part.translate_var(name, upper))
                 if not is_inf(lower):
                     lower = _as_poly(lower)  # Ensure that it is a polynomial.
                     parts_new.append(-part.translate_var(name, lower))
-- 
2.43.0


From 31d763bae96fa2779bdadd5641c94c9fb50586c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:49 +0000
Subject: [PATCH 05/16] fix: unit power of the RGPCM's filter transform when
 its decay is capped

---
 gpcm/rgpcm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpcm/rgpcm.py b/gpcm/rgpcm.py
index 0bf9b38..ee03851 100644
--- a/gpcm/rgpcm.py
+++ b/gpcm/rgpcm.py
@@ -170,11 +170,13 @@ class RGPCM(AbstractGPCM):
         if gamma is None:
             gamma = 1 / (2 * (self.t_u[1] - self.t_u[0]))
 
+        # Must ensure that `gamma < alpha`.
+        gamma = min(gamma, self.alpha / 1.5)
+
         if gamma_t is None:
             gamma_t = B.sqrt(2 * gamma)
 
-        # Must ensure that `gamma < alpha`.
-        self.gamma = min(gamma, self.alpha / 1.5)
+        self.gamma = gamma
         self.gamma_t = gamma_t
 
     def k_h(self):
-- 
2.43.0


From 75de61437d0166200ebdd0f5e12496a3d5fe1953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:46 +0000
Subject: [PATCH 06/16] fix: ignore no current approximate posterior in
 ignore_qs

---
 gpcm/approx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index c622902..58265c3 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -89,7 +89,7 @@ class Approximation:
         self.model.ps.q_z[self._q_i].lam.assign(B.dense(dist.lam))
         self.model.ps.q_z[self._q_i].prec.assign(B.dense(dist.prec))
 
-    def ignore_qs(self, previous, current):
+    def ignore_qs(self, previous, current=False):
         """Get a list of regexes that ignore variables corresponding to approximate
         posteriors.
 
@@ -97,7 +97,7 @@ class Approximation:
             previous (bool): Ignore all previous approximate posteriors.
             current (bool or str): Current approximate posteriors to ignore. Set to
                 `True` or `False` to ignore all or none or to `z` or `u` to ignore
-                a specific approximate posterior.
+                a specific approximate posterior. Defaults to `False`.
 
         Returns:
             list[str]: Appropriate list of regexes.
@@ -114,7 +114,7 @@ class Approximation:
             names.append("-" + self.model.ps.q_u[self._q_i].all())
         elif current == "z":
             names.append("-" + self.model.ps.q_z[self._q_i].all())
-        else:
+        elif current is not False:
             raise ValueError(f'Invalid value "{current}" for `current`.')
         return names
 
-- 
2.43.0


From 1805db4a12940e2708f760b4f2100182d011e378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:46 +0000
Subject: [PATCH 07/16] fix: fit the scheme mean-field-ca-gradient

---
 gpcm/approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 58265c3..a232a70 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -800,7 +800,7 @@ def fit(model, t, y, approximation: MeanField, iters: B.Int = 5000):
 
     if approximation.fit == "ca":
         _fit_mean_field_ca(model(), t, y, iters)
-    elif approximation.fit == "bfgs":
+    elif approximation.fit in {"ca-bfgs", "bfgs"}:
         # Pre-fit a CA solution, if applicable.
         if approximation.fit == "ca-bfgs":
             _fit_mean_field_ca(model(), t, y, iters)
-- 
2.43.0


From fa01cc0de0416ec7a49a674fa4442f00ff59b3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:46 +0000
Subject: [PATCH 08/16] fix: predict Fourier features under the mean-field
 approximation

---
 gpcm/approx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index a232a70..924a18a 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -675,9 +675,13 @@ class MeanField(Approximation):
         return B.stack(*[sample_kernel(t_k, u) for u in _columns(us)], axis=0)
 
     @_dispatch
-    def predict_z(self):
+    def predict_z(self, num_samples: B.Int = 1000):
         """Predict Fourier features under the mean-field approximation.
 
+        Args:
+            num_samples (int, optional): Ignored, because the predictions are available
+                in closed form.
+
         Returns:
             tuple[vector, vector]: Marginals of the predictions.
         """
-- 
2.43.0


From c1803e9097ee377fdac404b2685e8116f282a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:46 +0000
Subject: [PATCH 09/16] fix: total power of PSD estimates

---
 gpcm/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpcm/util.py b/gpcm/util.py
index 02384d6..2c4eade 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -109,7 +109,8 @@ def estimate_psd(t, k, n_zero=2_000, db=False):
     psd = np.abs(np.real(psd))
 
     # Now scale appropriately: the total power should equal `k[0]`.
-    total_power = np.trapz(y=psd, x=freqs)
+    # The frequencies must be in ascending order to integrate over them.
+    total_power = np.trapz(y=np.fft.fftshift(psd), x=np.fft.fftshift(freqs))
     psd /= total_power / k[0]
 
     # Convert to dB.
-- 
2.43.0


From 912b79b7d2164b74d056db42ba0d952a2fd6606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:46 +0000
Subject: [PATCH 10/16] fix: projection of matrices with opposite eigenvalues
 onto PSD matrices

---
 gpcm/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gpcm/util.py b/gpcm/util.py
index 2c4eade..788e707 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -2,6 +2,7 @@ from collections import namedtuple
 from varz import Vars, minimise_l_bfgs_b
 
 import jax
+import jax.numpy as jnp
 import lab as B
 import numpy as np
 from plum import Dispatcher
@@ -149,12 +150,11 @@ def closest_psd(a, inv=False):
     """
     a = B.dense(a)
     a = (a + B.transpose(a)) / 2
-    u, s, v = B.svd(a)
-    signs = B.matmul(u, v, tr_a=True)
-    s = B.maximum(B.diag(signs) * s, 0)
+    s, u = jnp.linalg.eigh(a)
+    s = B.maximum(s, 0)
     if inv:
         s = B.where(s == 0, 0, 1 / s)
-    return B.mm(u * B.expand_dims(s, axis=-2), v, tr_b=True)
+    return B.mm(u * B.expand_dims(s, axis=-2), u, tr_b=True)
 
 
 def collect(name="Quantities", **kw_args):
-- 
2.43.0


From c3bad5f0830fc2ac0f73a11cb17629014dd2850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:46 +0000
Subject: [PATCH 11/16] fix: scale of the kernel of the filter

---
 gpcm/gpcm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpcm/gpcm.py b/gpcm/gpcm.py
index 5d21f03..86f3d56 100644
--- a/gpcm/gpcm.py
+++ b/gpcm/gpcm.py
@@ -247,6 +247,7 @@ class GPCM(AbstractGPCM):
         # Convert `self.gamma` to a regular length scale.
         gamma_scale = B.sqrt(1 / (2 * self.gamma))
         k_h = EQ().stretch(gamma_scale)  # Kernel of filter before window
+        k_h *= self.alpha_t**2  # Scale
         k_h *= lambda t: B.exp(-self.alpha * t**2)  # Window
         if self.causal:
             k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
-- 
2.43.0


From 7a8c494150a47aa1d1cf53db2ab0935d2100c4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:46 +0000
Subject: [PATCH 12/16] fix: predictions under the prior

---
 gpcm/approx.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 924a18a..aa95137 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -47,7 +47,7 @@ class Approximation:
     def p_u(self):
         """:class:`stheno.Normal`: Current prior for :math:`u`."""
         if self._q_i == 0:
-            return NaturalNormal(0, self.model.K_u)
+            return NaturalNormal(B.zeros(self.model.dtype, self.model.n_u, 1), self.model.K_u)
         else:
             return _parametrise_natural(
                 self.model.ps.q_u[self._q_i - 1],
@@ -70,7 +70,7 @@ class Approximation:
     def p_z(self):
         """:class:`stheno.Normal`: Current prior for :math:`z`."""
         if self._q_i == 0:
-            return NaturalNormal(0, self.model.K_z)
+            return NaturalNormal(B.zeros(self.model.dtype, self.model.n_z, 1), self.model.K_z)
         else:
             return _parametrise_natural(
                 self.model.ps.q_z[self._q_i - 1],
@@ -524,7 +524,10 @@ class Structured(Approximation):
 
         @B.jit
         def predict_moments(u):
-            q_z = self.q_z_optimal(self.ts, u)
+            if self._q_i == 0:
+                q_z = self.p_z
+            else:
+                q_z = self.q_z_optimal(self.ts, u)
             return self._predict_moments(ts, u, B.outer(u), q_z.mean, q_z.m2)
 
         m1s, m2s = zip(*[predict_moments(u) for u in self._sample_p_u(num_samples)])
-- 
2.43.0


From dac8df641af1ff78d38ccacf79fed16d3c72a60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 13/16] fix: mean-field updates under a prior that is not the
 model's

---
 gpcm/approx.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index aa95137..d12ae26 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -186,7 +186,7 @@ class Approximation:
             ts.A_sum,
             ts.I_uz,
             ts.I_uz_sum,
-            self.model.K_u,
+            NaturalNormal(B.zero(z), self.model.K_u),
             z,
         )
 
@@ -205,7 +205,7 @@ class Approximation:
             ts.A_sum,
             ts.I_uz,
             ts.I_uz_sum,
-            self.model.K_u,
+            self.p_u,
             q_z.mean,
             q_z.m2,
         )
@@ -225,7 +225,7 @@ class Approximation:
             ts.B_sum,
             B.transpose(ts.I_uz),
             B.transpose(ts.I_uz_sum),
-            self.model.K_z,
+            NaturalNormal(B.zero(u), self.model.K_z),
             u,
         )
 
@@ -244,12 +244,12 @@ class Approximation:
             ts.B_sum,
             B.transpose(ts.I_uz),
             B.transpose(ts.I_uz_sum),
-            self.model.K_z,
+            self.p_z,
             q_u.mean,
             q_u.m2,
         )
 
-    def _q_optimal(self, A, I, I_sum, K, x, x2=None):
+    def _q_optimal(self, A, I, I_sum, p, x, x2=None):
         if x2 is not None:
             inner = B.mm(I, x2, I, tr_c=True)
         else:
@@ -257,8 +257,8 @@ class Approximation:
             part = B.mm(I, x)
             inner = B.mm(part, part, tr_b=True)
         return NaturalNormal(
-            B.mm(I_sum, x) / self.model.noise,
-            K + (A + B.sum(inner, axis=0)) / self.model.noise,
+            B.add(p.lam, B.mm(I_sum, x) / self.model.noise),
+            B.add(p.prec, (A + B.sum(inner, axis=0)) / self.model.noise),
         )
 
     def _predict_moments(self, ts, u, u2, z, z2):
@@ -307,6 +307,9 @@ def _fit_mean_field_ca(instance: Model, t, y, iters: B.Int = 5000, callback=None
     """
     ts = instance.approximation.construct_terms(t, y)
 
+    # Ensure that the priors are initialised outside of the JIT.
+    instance.approximation.p_u, instance.approximation.p_z
+
     @B.jit
     def compute_q_u(lam, prec):
         q_z = NaturalNormal(lam, prec)
-- 
2.43.0


From d1b36c8b931cf3af5d814f68751bf3a8aec67213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:26 +0000
Subject: [PATCH 14/16] fix: predict filters under the structured posterior

---
 gpcm/approx.py |  3 +++
 gpcm/model.py  | 10 +++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index d12ae26..2f80f61 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -89,6 +89,9 @@ class Approximation:
         self.model.ps.q_z[self._q_i].lam.assign(B.dense(dist.lam))
         self.model.ps.q_z[self._q_i].prec.assign(B.dense(dist.prec))
 
+    def _sample_p_u(self, num_samples):
+        return _columns(self.p_u.sample(num_samples))
+
     def ignore_qs(self, previous, current=False):
         """Get a list of regexes that ignore variables corresponding to approximate
         posteriors.
diff --git a/gpcm/model.py b/gpcm/model.py
index f04a130..4f353c7 100644
--- a/gpcm/model.py
+++ b/gpcm/model.py
@@ -172,19 +172,19 @@ class AbstractGPCM(Model):
             t_h = B.linspace(self.dtype, -self.extent, self.extent, 601)
 
         @B.jit
-        def sample_h(state):
-            state, u = self.approximation.p_u.sample(state)
+        def sample_h(state, u):
             u = B.mm(self.K_u, u)  # Transform :math:`\hat u` into :math:`u`.
             h = GP(self.k_h())
             h = h | (h(self.t_u), u)  # Condition on sample.
             state, h = h(t_h).sample(state)  # Sample at desired points.
             return state, B.flatten(h)
 
-        # Perform sampling.
+        # Perform sampling. Let the approximation determine the samples for `u`.
+        us = self.approximation._sample_p_u(num_samples)
         state = B.global_random_state(self.dtype)
         samples = []
-        for _ in range(num_samples):
-            state, h = sample_h(state)
+        for u in us:
+            state, h = sample_h(state, u)
 
             # Transform sample according to specification.
             if min_phase:
-- 
2.43.0


From 16fcce7f2ade3ff5dddd31a4debc07db95b5eb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 15/16] fix: condition causal filters on all inducing variables

---
 gpcm/gpcm.py  | 13 +++++++++++--
 gpcm/model.py |  8 ++++++--
 gpcm/rgpcm.py | 14 +++++++++++++-
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/gpcm/gpcm.py b/gpcm/gpcm.py
index 86f3d56..992a0d5 100644
--- a/gpcm/gpcm.py
+++ b/gpcm/gpcm.py
@@ -244,13 +244,22 @@ class GPCM(AbstractGPCM):
         Returns:
             :class:`mlkernels.Kernel`: Kernel for :math:`h`.
         """
+        k_h = self.k_h_acausal()
+        if self.causal:
+            k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
+        return k_h
+
+    def k_h_acausal(self):
+        """Get the kernel function of the filter without the causality constraint.
+
+        Returns:
+            :class:`mlkernels.Kernel`: Kernel for :math:`h` before it is made causal.
+        """
         # Convert `self.gamma` to a regular length scale.
         gamma_scale = B.sqrt(1 / (2 * self.gamma))
         k_h = EQ().stretch(gamma_scale)  # Kernel of filter before window
         k_h *= self.alpha_t**2  # Scale
         k_h *= lambda t: B.exp(-self.alpha * t**2)  # Window
-        if self.causal:
-            k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
         return k_h
 
     def k_xs(self, t1, t2):
diff --git a/gpcm/model.py b/gpcm/model.py
index 4f353c7..8114b47 100644
--- a/gpcm/model.py
+++ b/gpcm/model.py
@@ -174,10 +174,14 @@ class AbstractGPCM(Model):
         @B.jit
         def sample_h(state, u):
             u = B.mm(self.K_u, u)  # Transform :math:`\hat u` into :math:`u`.
-            h = GP(self.k_h())
+            # The inducing variables are values of the filter before it is made causal.
+            h = GP(self.k_h_acausal())
             h = h | (h(self.t_u), u)  # Condition on sample.
             state, h = h(t_h).sample(state)  # Sample at desired points.
-            return state, B.flatten(h)
+            h = B.flatten(h)
+            if self.causal:
+                h = h * B.cast(self.dtype, t_h >= 0)  # Causality constraint
+            return state, h
 
         # Perform sampling. Let the approximation determine the samples for `u`.
         us = self.approximation._sample_p_u(num_samples)
diff --git a/gpcm/rgpcm.py b/gpcm/rgpcm.py
index ee03851..345367e 100644
--- a/gpcm/rgpcm.py
+++ b/gpcm/rgpcm.py
@@ -56,6 +56,9 @@ class RGPCM(AbstractGPCM):
     name = "RGPCM"
     """str: Formatted name."""
 
+    causal = True
+    """bool: The filter is always causal."""
+
     def __init__(
         self,
         scheme="structured",
@@ -185,9 +188,18 @@ class RGPCM(AbstractGPCM):
         Returns:
             :class:`mlkernels.Kernel`: Kernel for :math:`h`.
         """
+        k_h = self.k_h_acausal()
+        k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
+        return k_h
+
+    def k_h_acausal(self):
+        """Get the kernel function of the filter without the causality constraint.
+
+        Returns:
+            :class:`mlkernels.Kernel`: Kernel for :math:`h` before it is made causal.
+        """
         k_h = Exp().stretch(1 / self.lam)  # Kernel of filter before window
         k_h *= lambda t: B.exp(-self.alpha * B.abs(t))  # Window
-        k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
         return k_h
 
     def __prior__(self):
-- 
2.43.0


From d97f881368de1b4299d02f6c3058f285ccc50628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:07 +0000
Subject: [PATCH 16/16] fix: merge terms of a polynomial that partly cancel

---
 gpcm/exppoly.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index dbceafd..b314211 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -310,8 +310,10 @@ class Term:
 def _merge_common_terms(*terms):
     merged_terms = []
     for factors in set(frozenset(x.factors) for x in terms):
-        associated_terms = filter(lambda x: x.factors == factors, terms)
-        merged_terms.append(reduce(operator.add, associated_terms, 0))
+        # Add the constants rather than the terms: if some of the terms cancel, then their
+        # sum has lost its factors, so no other term could be added to it.
+        consts = [x.const for x in terms if x.factors == factors]
+        merged_terms.append(Term(reduce(operator.add, consts), *factors))
     return merged_terms
 
 
-- 
2.43.0

