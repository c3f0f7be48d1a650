From 4897a8e73d703889e3493b55151f4e5a7aa4cc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:01 +0000
Subject: [PATCH 01/22] fix: PxMALA transition density is the Gaussian density
 of its own proposal

---
 pxmcmc/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 45cf316..20d7888 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -284,8 +284,8 @@ class PxMALA(MYULA):
         """
         gradlogpiX1 = -((X1 - proxf) / self.lmda) - gradg
         return (
-            -(1 / 2 * self.delta)
-            * np.sum((X2 - X1 - (self.delta / 2) * gradlogpiX1) ** 2) ** 2
+            -np.sum(np.abs(X2 - X1 - self.delta * gradlogpiX1) ** 2)
+            / (4 * self.delta)
         )
 
 
-- 
2.43.0


From e05336bf8ba8f5c25f39ccd0eb4a297280b6e885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:01 +0000
Subject: [PATCH 02/22] fix: log posterior uses half the weighted squared
 residual, as its gradient does

---
 pxmcmc/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 20d7888..71c3135 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -78,7 +78,7 @@ class PxMCMC:
         diff = self.forward.data - preds
         L2 = np.vdot(diff, self.forward.invcov @ diff)
         prior = self.prior.prior(X)
-        logPi = -self.mu * prior - L2
+        logPi = -self.mu * prior - L2 / 2
         return logPi, L2, prior
 
     def _gradlogpi(self, X, preds=None):
-- 
2.43.0


From d7d000e60009fd50f9c1af76da86088c38bf1978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:01 +0000
Subject: [PATCH 03/22] fix: PxMALA records the current state after a rejection
 too

---
 pxmcmc/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 71c3135..948b1af 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -260,7 +260,7 @@ class PxMALA(MYULA):
                 self.deltas_trace.append(self.delta)
 
             if i >= self.nburn:
-                if (self.ngap == 0 or (i - self.nburn) % self.ngap == 0) and accept:
+                if self.ngap == 0 or (i - self.nburn) % self.ngap == 0:
                     self._tracking(j, X_curr, curr_preds, logpiXc, L2Xc, priorXc)
                     j += 1
             if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-- 
2.43.0


From 0bf411d458c3f3faabd0e92f949101f95f98c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:01 +0000
Subject: [PATCH 04/22] fix: SKROCK stage coefficients and recursion

---
 pxmcmc/mcmc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 948b1af..a4bb428 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -363,8 +363,7 @@ class SKROCK(PxMCMC):
                 * self.delta
                 * self._gradlogpi(self._K_recursion(X, s - 1, Z))
                 + self.nus[s] * self._K_recursion(X, s - 1, Z)
-                + self.ks[s]
-                - self._K_recursion(X, s - 2, Z)
+                + self.ks[s] * self._K_recursion(X, s - 2, Z)
             )
 
     def _recursion_coefs(self):
@@ -377,7 +376,7 @@ class SKROCK(PxMCMC):
         self.ks[1] = self.s * self.omega_1 / self.omega_0
 
         for j in range(2, self.s + 1):
-            cheb_ratio = chebyshev1(self.omega_0, j - 1) / chebyshev1(self.omega_1, j)
+            cheb_ratio = chebyshev1(self.omega_0, j - 1) / chebyshev1(self.omega_0, j)
             self.mus[j] = 2 * self.omega_1 * cheb_ratio
             self.nus[j] = 2 * self.omega_0 * cheb_ratio
-            self.ks[j] = 1 - self.nus[0]
+            self.ks[j] = 1 - self.nus[j]
-- 
2.43.0


From 5a080ce511805e65e8ff2f04570fb0b5f45c26df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:19 +0000
Subject: [PATCH 05/22] fix: progress printing no longer needs logposterior, L2
 and prior to be tracked

---
 pxmcmc/mcmc.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index a4bb428..16adba8 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -169,12 +169,7 @@ class MYULA(PxMCMC):
                     self._tracking(j, X_curr, curr_preds, logPi, L2, prior)
                     j += 1
                 if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-                    self._print_progress(
-                        j - 1,
-                        self.logPi[j - 1],
-                        L2=self.L2s[j - 1],
-                        prior=self.priors[j - 1],
-                    )
+                    self._print_progress(j - 1, logPi, L2=L2, prior=prior)
             else:
                 if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
                     print("Burning in...")
@@ -324,13 +319,11 @@ class SKROCK(PxMCMC):
                     logPi, L2, prior = self.logpi(X_curr, curr_preds)
                     self._tracking(j, X_curr, curr_preds, logPi, L2, prior)
                     j += 1
-            if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-                self._print_progress(
-                    j - 1,
-                    self.logPi[j - 1],
-                    L2=self.L2s[j - 1],
-                    prior=self.priors[j - 1],
-                )
+                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
+                    self._print_progress(j - 1, logPi, L2=L2, prior=prior)
+            else:
+                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
+                    print("Burning in...")
             i += 1
 
         print("\nDONE")
-- 
2.43.0


From 9f96e28fb27c52ee4a2f7d47d815ac251ff175f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:19 +0000
Subject: [PATCH 06/22] fix: tracked predictions keep their imaginary part for
 complex data

---
 pxmcmc/mcmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 16adba8..b3a5e44 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -115,7 +115,8 @@ class PxMCMC:
             self.logPi = np.zeros(self.nsamples)
         if "predictions" in self.track:
             self.preds = np.zeros(
-                (self.nsamples, len(self.forward.data)), dtype=float
+                (self.nsamples, len(self.forward.data)),
+                dtype=complex if np.iscomplexobj(self.forward.data) else float,
             )
         if "chain" in self.track:
             self.chain = np.zeros(
-- 
2.43.0


From 849d25b18b83fd5ed6cc588acb8c3208df2b6d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:19 +0000
Subject: [PATCH 07/22] fix: a 2D covariance matrix can be given as a numpy
 array

---
 pxmcmc/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/forward.py b/pxmcmc/forward.py
index 3f3bbd3..16be580 100644
--- a/pxmcmc/forward.py
+++ b/pxmcmc/forward.py
@@ -75,7 +75,7 @@ class ForwardOperator:
         if isinstance(sig_d, np.ndarray) and len(sig_d.shape) == 2:
             if sig_d.shape[0] != sig_d.shape[1]:
                 raise ValueError("Covariance matrix should be square")
-            return sparse.linalg.inv(sig_d)
+            return sparse.csr_matrix(np.linalg.inv(sig_d))
 
         var = sig_d ** 2
         if np.iscomplexobj(self.data) and not np.iscomplexobj(var):
-- 
2.43.0


From ea205cb37dfc28728d1a8c95b8a81d5db2e2ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:19 +0000
Subject: [PATCH 08/22] fix: the inverse covariance stays real for complex data

---
 pxmcmc/forward.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pxmcmc/forward.py b/pxmcmc/forward.py
index 16be580..c836116 100644
--- a/pxmcmc/forward.py
+++ b/pxmcmc/forward.py
@@ -78,8 +78,6 @@ class ForwardOperator:
             return sparse.csr_matrix(np.linalg.inv(sig_d))
 
         var = sig_d ** 2
-        if np.iscomplexobj(self.data) and not np.iscomplexobj(var):
-            var = var / np.sqrt(2) * (1 + 1j)
         if isinstance(var, float) or isinstance(var, int) or isinstance(var, complex):
             return sparse.identity(len(self.data)).dot(1 / var)
         elif var.size == len(self.data) and len(var.shape) == 1:
-- 
2.43.0


From 653b216576f03601454365748835c9966f79ad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:07 +0000
Subject: [PATCH 09/22] fix: multiresolution bandlimits follow the transform's
 layout when a scale is empty

---
 pxmcmc/utils.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/pxmcmc/utils.py b/pxmcmc/utils.py
index 5af11de..7404ff3 100644
--- a/pxmcmc/utils.py
+++ b/pxmcmc/utils.py
@@ -114,15 +114,9 @@ def alm2map(alm, nside, **kwargs):
 
 
 def _multires_bandlimits(L, B, J_min, dirs=1, spin=0):
-    phi_l, psi_lm = pys2let.wavelet_tiling(B, L, dirs, J_min, spin)
-    psi_l = np.zeros((psi_lm.shape[1], L), dtype=complex)
-    for j, psi in enumerate(psi_lm.T):
-        psi_l[j, :] = np.array([psi[el ** 2 + el] for el in range(L)])
-    gamma_l = np.vstack([phi_l, psi_l])
-    bandlimits = np.zeros(gamma_l.shape[0], dtype=int)
-    for j, gamma in enumerate(gamma_l):
-        bandlimits[j] = np.nonzero(gamma)[0].max() + 1
-    return bandlimits
+    J_max = pys2let.pys2let_j_max(B, L, J_min)
+    scales = [J_min] + [j + 1 for j in range(J_min, J_max + 1)]
+    return np.array([min(int(np.ceil(B ** j)), L) for j in scales], dtype=int)
 
 
 def chebyshev1(X, order):
-- 
2.43.0


From e0c414a8441ce503210151eed010d86e252f1c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:39 +0000
Subject: [PATCH 10/22] fix: wavelet priors weight the threshold and the norm
 alike

---
 pxmcmc/prior.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 661011d..9545dbe 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -78,7 +78,7 @@ class S2_Wavelets_L1(L1):
             self.map_weights = np.concatenate([mw_map_weights(el) for el in bls])
         else:
             raise NotImplementedError
-        self.T *= self.map_weights
+        self.T = self.T * self.map_weights
 
     def prior(self, X):
         return super().prior(self.map_weights * X)
@@ -105,10 +105,7 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
             self._get_weights()
         else:
             raise NotImplementedError
-        self.T *= self.map_weights
-
-    def prior(self, X):
-        return super().prior(self.map_weights * X)
+        self.T = T * self.map_weights
 
     def _get_weights(self):
         scaling_weights = self._calculate_scaling_weights()
-- 
2.43.0


From 464d5920a0e8a8b3940da2912c1980de91f636cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:39 +0000
Subject: [PATCH 11/22] fix: power weights can be built for any number of
 wavelet scales

---
 pxmcmc/prior.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 9545dbe..e2fca29 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -117,7 +117,7 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
     def _calculate_scaling_weights(self):
         phi_l, _ = pys2let.wavelet_tiling(self.B, self.L, self.dirs, self.J_min, self.spin)
         scaling_power = np.vdot(phi_l, phi_l).real
-        effective_L = np.nonzero(phi_l)[0].max() + 1
+        effective_L = _multires_bandlimits(self.L, self.B, self.J_min)[0]
         nsamples = pyssht.sample_length(effective_L)
         weights = np.full(pyssht.sample_shape(effective_L), 2 * np.pi ** 2 / (scaling_power * nsamples))
         thetas, _ = pyssht.sample_positions(effective_L)
@@ -143,4 +143,4 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
             thetas, _ = pyssht.sample_positions(effective_L)
             weights = (weights.T * np.sin(thetas)).T
             all_weights.append(weights)
-        return np.array(all_weights, dtype=list)
+        return all_weights
-- 
2.43.0


From 71561f8664da1897c7529725570709749242cb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:39 +0000
Subject: [PATCH 12/22] fix: the analysis prior is the L1 norm of the wavelet
 coefficients, as its prox assumes

---
 pxmcmc/prior.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index e2fca29..001680e 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -32,6 +32,8 @@ class L1:
         :param X: MCMC sample
         :return: log prior
         """
+        if self.setting == "analysis":
+            X = self.adj(X)
         return sum(abs(X))
 
     def proxf(self, X):
-- 
2.43.0


From db6d21119168777e94d3b149f8b9e81322559d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:39 +0000
Subject: [PATCH 13/22] fix: the credible region holds the samples of highest
 posterior

---
 pxmcmc/uncertainty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/uncertainty.py b/pxmcmc/uncertainty.py
index 36297d5..6e08ff6 100644
--- a/pxmcmc/uncertainty.py
+++ b/pxmcmc/uncertainty.py
@@ -48,9 +48,9 @@ def credible_region_threshold(logpis, alpha=0.05):
     :param float `alpha`: confidence level
     :return: log posterior threshold
     """
-    return np.quantile(logpis, 1 - alpha)
+    return np.quantile(logpis, alpha)
 
 
 def in_credible_region(logpi, threshold):
     """:meta private:"""
-    return True if logpi <= threshold else False
+    return True if logpi >= threshold else False
-- 
2.43.0


From bb9295d0b9a94e6c73e7b496807e72ac971fe287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:39 +0000
Subject: [PATCH 14/22] fix: a mask of the wrong shape is reported as such

---
 pxmcmc/measurements.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pxmcmc/measurements.py b/pxmcmc/measurements.py
index 207b88f..993ed7f 100644
--- a/pxmcmc/measurements.py
+++ b/pxmcmc/measurements.py
@@ -197,15 +197,15 @@ class WeakLensing(WeakLensingHarmonic):
         else:
             self.mask = mask.astype(bool)
 
+        if self.mask.shape != self.shape:
+            raise ValueError("Shape of mask map is incorrect!")
+
         # Define observational covariance
         if ngal is None:
             self.inv_cov = self.mask_forward(np.ones(self.shape))
         else:
             self.inv_cov = self.ngal_to_inv_cov(ngal)
 
-        if self.mask.shape != self.shape:
-            raise ValueError("Shape of mask map is incorrect!")
-
     def forward(self, kappa):
         """Spherical weak lensing measurement operator
 
-- 
2.43.0


From 420a422394d2e680c30b8713cb58212af1f43cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:39 +0000
Subject: [PATCH 15/22] fix: hard thresholding keeps nothing when the kept
 fraction rounds down to no element

---
 pxmcmc/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/utils.py b/pxmcmc/utils.py
index 7404ff3..e849f06 100644
--- a/pxmcmc/utils.py
+++ b/pxmcmc/utils.py
@@ -76,8 +76,11 @@ def hard(X, T=0.1):
     """
     X_srt = np.sort(abs(X))
     thresh_ind = int(T * len(X))
-    thresh_val = X_srt[-thresh_ind]
-    X[abs(X) < thresh_val] = 0
+    if thresh_ind == 0:
+        X[:] = 0
+    else:
+        thresh_val = X_srt[-thresh_ind]
+        X[abs(X) < thresh_val] = 0
     return X
 
 
-- 
2.43.0


From 83684c37db88b9ffc508a5bcc098a6bd81b5e176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:39 +0000
Subject: [PATCH 16/22] fix: plot_map looks the colour map up through pyplot

---
 pxmcmc/plotting.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index de70c24..d587e45 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -1,7 +1,6 @@
 import numpy as np
 import healpy as hp
 import matplotlib.pyplot as plt
-from matplotlib import cm
 import copy
 import pyssht
 import pys2let
@@ -44,7 +43,7 @@ def plot_map(
 
     :return: matplotlib figure
     """
-    cmap = copy.copy(cm.get_cmap(cmap))
+    cmap = copy.copy(plt.get_cmap(cmap))
     cmap.set_bad(alpha=0)
 
     if oversample:
-- 
2.43.0


From 192500d32c040dc4063f1fe07aa78631c9719516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:39 +0000
Subject: [PATCH 17/22] fix: wavelet priors cover every orientation of
 directional wavelets

---
 pxmcmc/prior.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 001680e..a9e31b0 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -77,7 +77,10 @@ class S2_Wavelets_L1(L1):
         self.spin = spin
         if setting == "synthesis":
             bls = _multires_bandlimits(L, B, J_min, dirs, spin)
-            self.map_weights = np.concatenate([mw_map_weights(el) for el in bls])
+            self.map_weights = np.concatenate(
+                [mw_map_weights(bls[0])]
+                + [np.tile(mw_map_weights(el), 2 * dirs - 1) for el in bls[1:]]
+            )
         else:
             raise NotImplementedError
         self.T = self.T * self.map_weights
@@ -113,7 +116,9 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
         scaling_weights = self._calculate_scaling_weights()
         s = scaling_weights.flatten()
         wavelet_weights = self._calculate_wavelet_weights()
-        w = np.concatenate([w.flatten() for w in wavelet_weights])
+        w = np.concatenate(
+            [np.tile(w.flatten(), 2 * self.dirs - 1) for w in wavelet_weights]
+        )
         self.map_weights = np.concatenate([s, w])
 
     def _calculate_scaling_weights(self):
-- 
2.43.0


From 5647dc2fa286e37f8dad569e44cb74b314f524b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:39 +0000
Subject: [PATCH 18/22] fix: plotting a masked map leaves the caller's map
 alone

---
 pxmcmc/plotting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index d587e45..1455c6e 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -58,6 +58,7 @@ def plot_map(
         vmin = -cbar_end
 
     if mask is not None:
+        f = f.copy()
         f[mask] = np.nan
     f_plt, _ = pyssht.mollweide_projection(f, L)
     fig = plt.figure(figsize=(20, 10))
-- 
2.43.0


From 9793a09e0c8c2d2e3b76047bc66f308d75d488d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:39 +0000
Subject: [PATCH 19/22] fix: harmonic-space wavelet transforms count their own
 coefficients

---
 pxmcmc/transforms.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pxmcmc/transforms.py b/pxmcmc/transforms.py
index ec288b3..516cdf8 100644
--- a/pxmcmc/transforms.py
+++ b/pxmcmc/transforms.py
@@ -97,7 +97,7 @@ class SphericalWaveletTransform(Transform):
             self.inv = pys2let.synthesis_wav2px
             self.inv_adj = pys2let.synthesis_adjoint_px2wav
 
-        self._get_ncoefs()
+        self._get_ncoefs(harmonic)
 
     def forward(self, X):
         """
@@ -153,14 +153,12 @@ class SphericalWaveletTransform(Transform):
         X = self.fwd_adj(wav, scal, **self.params)
         return X
 
-    def _get_ncoefs(self):
+    def _get_ncoefs(self, harmonic=False):
         """
         Counts the number of wavelet and scaling coefs for
         the multiresolution algorithm
-
-        TODO: CHECK THIS FOR HARMONIC
         """
-        f_mw = np.empty(pyssht.sample_length(self.L), dtype=complex)
-        f_wav, f_scal = pys2let.analysis_px2wav(f_mw, **self.params)
+        nsamples = self.L ** 2 if harmonic else pyssht.sample_length(self.L)
+        f_wav, f_scal = self.fwd(np.empty(nsamples, dtype=complex), **self.params)
         self.nwav, self.nscal = (f_wav.shape[0], f_scal.shape[0])
         self.ncoefs = self.nwav + self.nscal
-- 
2.43.0


From 6925cfeca1e5d0933009a481a1ff501282865177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:40 +0000
Subject: [PATCH 20/22] fix: plot_evolution works when the highest log
 posterior occurs more than once

---
 pxmcmc/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 1455c6e..3d331e6 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -147,7 +147,7 @@ def plot_evolution(logposteriors, L2s, L1s, figsize=(10, 8)):
 
     :return: matplotlib figure
     """
-    MAP_idx = np.where(logposteriors == max(logposteriors))
+    MAP_idx = np.argmax(logposteriors)
     fig = plt.figure(figsize=figsize)
     plt.subplot(3, 1, 1)
     plt.plot(-logposteriors)
-- 
2.43.0


From e2881e30129165f7f8400b0ca42854b5a1e73c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:40 +0000
Subject: [PATCH 21/22] fix: plot_wavelet_maps can draw the maps without
 oversampling

---
 pxmcmc/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 3d331e6..c047dc4 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -103,6 +103,7 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
     f_wav, f_scal = pys2let.analysis_px2wav(
         f.flatten().astype(complex), B, L, J_min, dirs, spin, upsample=0
     )
+    f_wav, f_scal = f_wav.real.copy(), f_scal.real.copy()
     figs = []
     if "title" in map_args:
         base_title = map_args["title"]
@@ -112,7 +113,7 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
     figs.append(plot_map(f_scal.reshape(pyssht.sample_shape(bls[0])), **map_args))
 
     if same_scale:
-        map_args["vmax"] = np.max(f_wav).real
+        map_args["vmax"] = np.max(f_wav)
 
     scale_start = 0
     for i, bl in enumerate(bls[1:], 1):
-- 
2.43.0


From 07ef564cf141d96e6f24be3575233e5bbb0719c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:57 +0000
Subject: [PATCH 22/22] fix: plot_wavelet_maps draws each scale's own
 coefficients for directional wavelets

---
 pxmcmc/plotting.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index c047dc4..7f93f62 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -118,10 +118,13 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
     scale_start = 0
     for i, bl in enumerate(bls[1:], 1):
         scale_length = pyssht.sample_length(bl)
-        wav = f_wav[scale_start : scale_start + scale_length]
-        map_args["title"] = f"{base_title} Wavelet scale {i}"
-        figs.append(plot_map(wav.reshape(pyssht.sample_shape(bl)), **map_args))
-        scale_start += scale_length
+        for d in range(1, 2 * dirs):
+            wav = f_wav[scale_start : scale_start + scale_length]
+            map_args["title"] = f"{base_title} Wavelet scale {i}"
+            if dirs > 1:
+                map_args["title"] += f" orientation {d}"
+            figs.append(plot_map(wav.reshape(pyssht.sample_shape(bl)), **map_args))
+            scale_start += scale_length
 
     return figs
 
-- 
2.43.0

