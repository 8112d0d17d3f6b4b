From 39d3f0b366f7dde2b6dbd40ffdc36b848b61e0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 01/29] fix: accept a scalar noise coefficient in the Lorenz
 models

np.asarray() has already turned the scalar into a 0-d array, for which
np.isscalar() is False, so the shipped L3D / L40D parameter files were
rejected with "Wrong input dimensions: 0".
---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index b1133ac..f62d84a 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -65,7 +65,7 @@ class Lorenz63(StochasticProcess):
         theta = np.asarray(theta)
 
         # Check the dimensions of the input.
-        if np.isscalar(sigma):
+        if sigma.ndim == 0:
             # Diagonal matrix (from scalar).
             self._sigma = sigma * np.eye(3)
 
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index e6be786..5212d4a 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -143,7 +143,7 @@ class Lorenz96(StochasticProcess):
         self.dim_d = dim_d
 
         # Check the dimensions of the input.
-        if np.isscalar(sigma):
+        if sigma.ndim == 0:
             # Diagonal matrix (from scalar).
             self._sigma = sigma * np.eye(dim_d)
 
-- 
2.43.0


From fcae7d054d6d977812a78757821efd579425311a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 02/29] fix: use a(t) in the RK2 forward covariance half-step

The half-step passed the covariance itself as the linear parameter.
---
 src/numerics/runge_kutta2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/runge_kutta2.py b/src/numerics/runge_kutta2.py
index 8e55d57..f93ecc8 100644
--- a/src/numerics/runge_kutta2.py
+++ b/src/numerics/runge_kutta2.py
@@ -93,7 +93,7 @@ class RungeKutta2(OdeSolver):
                                          a_mid, b_mid)
 
             # -Eq(10)- NEW "variance" point.
-            st[k + 1] = sk + dt * fun_st((sk + h * fun_st(sk, sk, sigma)),
+            st[k + 1] = sk + dt * fun_st((sk + h * fun_st(sk, ak, sigma)),
                                          a_mid, sigma)
         # _end_for_
 
-- 
2.43.0


From 3251b23148c1dcbd7dc10e439ffc2504c5e91a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 03/29] fix: take the covariance at the observation time in the
 nD likelihood

The n-th observation used S(t_n) at grid index n, not at its time index.
---
 src/var_bayes/gaussian_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index 4ec0384..cd71d13 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -142,7 +142,7 @@ class GaussianLikelihood(Likelihood):
             zn_sq = np.inner(Z[n], Z[n])
 
             # Energy term.
-            Eobs += zn_sq + np.inner(diag_inv_rn, sn_diag[n])
+            Eobs += zn_sq + np.inner(diag_inv_rn, sn_diag[tn])
         # _end_for_
 
         # Compute the final including the constants.
-- 
2.43.0


From 049a4e7a4a1d62232349c0dc2869a8d7b8c674ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 04/29] fix: halve log(s0) in the 1D KL divergence at t=0

KL0 was not zero for equal moments and did not match its own gradient.
---
 src/var_bayes/prior_kl0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/prior_kl0.py b/src/var_bayes/prior_kl0.py
index 525c74c..b0c3966 100644
--- a/src/var_bayes/prior_kl0.py
+++ b/src/var_bayes/prior_kl0.py
@@ -57,7 +57,7 @@ class PriorKL0(object):
         z0 = m0 - self.mu0
 
         # Energy of the initial moment.
-        kl0 = - np.log(s0) - 0.5 * (1.0 - np.log(self.tau0)) +\
+        kl0 = - 0.5 * np.log(s0) - 0.5 * (1.0 - np.log(self.tau0)) +\
               0.5 / self.tau0 * (z0 ** 2 + s0)
 
         # Kullback-Liebler at t=0.
-- 
2.43.0


From eaea3bb956b5d343c4b2d4182fe3080f308b135b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 05/29] fix: nD KL divergence at t=0

z0.T.dot(z0) of 1-D arrays is the (scalar) inner product, which was then
added to every entry of the matrix; the outer product is required. Also
log(det(tau0 * inv(s0))) was taken with a Cholesky factorization of a
product that is not symmetric in general.
---
 src/var_bayes/prior_kl0.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/var_bayes/prior_kl0.py b/src/var_bayes/prior_kl0.py
index b0c3966..a8d75af 100644
--- a/src/var_bayes/prior_kl0.py
+++ b/src/var_bayes/prior_kl0.py
@@ -77,15 +77,12 @@ class PriorKL0(object):
         # Inverse of tau0 matrix.
         inv_tau0, _ = chol_inv(self.tau0)
 
-        # Inverted.
-        inv_s0, _ = chol_inv(s0)
-
         # Energy of the initial moment.
         z0 = m0 - self.mu0
 
         # Energy of the initial moment.
-        kl0 = 0.5 * (log_det(self.tau0.dot(inv_s0)) +
-                     np.sum(np.diag(inv_tau0.dot(z0.T.dot(z0) +
+        kl0 = 0.5 * (log_det(self.tau0) - log_det(s0) +
+                     np.sum(np.diag(inv_tau0.dot(np.outer(z0, z0) +
                                                  s0 - self.tau0))))
         # Kullback-Liebler at t=0.
         return kl0
-- 
2.43.0


From eb6682deb16d8b0250b1c8a6dfcb1247aff5a4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 06/29] fix: propagate lam(t) backwards with the transpose of
 A(t)

For a 1-D array lam.dot(A.T) is A * lam. The adjoint of dm = -A*m + b is
A.T * lam, so the gradient was wrong for every non-symmetric A(t).
---
 src/numerics/ode_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerics/ode_solver.py b/src/numerics/ode_solver.py
index 9dd7204..0105b75 100644
--- a/src/numerics/ode_solver.py
+++ b/src/numerics/ode_solver.py
@@ -71,10 +71,10 @@ class OdeSolver(object):
 
         :param lam_t: Lagrange multiplier lam(t).
 
-        :return: - dEf_dm + (lam * A.T)
+        :return: - dEf_dm + (A.T * lam)
         """
         # Switch according to single_dim.
-        return -df_dm + (lam_t * at) if self.single_dim else -df_dm + lam_t.dot(at.T)
+        return -df_dm + (lam_t * at) if self.single_dim else -df_dm + at.T.dot(lam_t)
     # _end_def_
 
     def fun_psi(self, df_ds: np.ndarray, at: np.ndarray,
-- 
2.43.0


From 6b608988e08c8ba56f32f390468870006c222e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 07/29] fix: reject every non positive definite noise matrix in
 the setters

Only matrices with no positive eigenvalue were rejected. For the others
the noise was replaced before its inversion failed, which left the model
with a noise matrix and an inverse that do not belong together.
---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index f62d84a..f3cf214 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -149,7 +149,7 @@ class Lorenz63(StochasticProcess):
         # _end_if_
 
         # Check for positive definiteness.
-        if np.all(np.linalg.eigvals(new_value) <= 0.0):
+        if np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
         # _end_if_
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 5212d4a..162e620 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -226,7 +226,7 @@ class Lorenz96(StochasticProcess):
                              f" Wrong matrix dimensions: {new_value.shape}")
 
         # Check for positive definiteness.
-        if np.all(np.linalg.eigvals(new_value) <= 0.0):
+        if np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
         # Make the change.
-- 
2.43.0


From 47e81d1e36af0b463cf471c1eed355e5a24f9608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 08/29] fix: honour a random seed of zero

Seed 0 was taken as "no seed", so the run was not reproducible.
---
 src/dynamics/stochastic_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/stochastic_process.py b/src/dynamics/stochastic_process.py
index ada9ed5..c83ef48 100644
--- a/src/dynamics/stochastic_process.py
+++ b/src/dynamics/stochastic_process.py
@@ -18,7 +18,7 @@ class StochasticProcess(object):
         :param single_dim: single dimensional flag.
         """
         # Create a random number generator.
-        if r_seed:
+        if r_seed is not None:
             self.rand_g = default_rng(SeedSequence(r_seed))
         else:
             self.rand_g = default_rng()
-- 
2.43.0


From f6466c69169c81e5784c1db11b66136c7b3498f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 09/29] fix: keep the old noise if the new noise matrix can not
 be inverted

The setter stored the new matrix before inverting it, so that a failure
in the inversion left the two out of step.
---
 src/dynamics/lorenz_63.py | 5 ++++-
 src/dynamics/lorenz_96.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index f3cf214..ca04b34 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -154,11 +154,14 @@ class Lorenz63(StochasticProcess):
                                f" Noise matrix {new_value} is not positive definite.")
         # _end_if_
 
+        # Invert the matrix (before making any change).
+        new_inverse, _ = chol_inv(new_value)
+
         # Make the change.
         self._sigma = new_value
 
         # Update the inverse matrix.
-        self.sig_inv, _ = chol_inv(self._sigma)
+        self.sig_inv = new_inverse
     # _end_def_
 
     @property
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 162e620..3dab33f 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -229,11 +229,14 @@ class Lorenz96(StochasticProcess):
         if np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
+        # Invert the matrix (before making any change).
+        new_inverse, _ = chol_inv(new_value)
+
         # Make the change.
         self._sigma = new_value
 
         # Update the inverse matrix.
-        self.sig_inv, _ = chol_inv(self._sigma)
+        self.sig_inv = new_inverse
     # _end_def_
 
     @property
-- 
2.43.0


From fce706cef4459fa64249550ceba2c771452e7fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 10/29] fix: store the moments and multipliers of the optimal
 parameters

When the last step of the optimizer is rejected, the cached m(t), s(t),
lam(t), psi(t) and expectations belong to the rejected point and not to
the a(t), b(t) that are saved next to them.
---
 src/var_bayes/simulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 0cc56b7..81cb753 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -239,6 +239,11 @@ class Simulation(object):
         # Print final duration in seconds.
         print(f" Elapsed time: {(time_tf - time_t0):.2f} seconds.", end='\n')
 
+        # The optimizer may have evaluated (and rejected) other points
+        # after 'x'. Update the marginal moments and the multipliers,
+        # to be consistent with the parameters that we return.
+        _ = vgpa.free_energy(x)
+
         # Unpack optimization output data.
         if self.m_data["model"].single_dim:
             # Get the dimensions.
-- 
2.43.0


From 72533d61fe306b5032b2ed7945f085a56ba82761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 11/29] fix: covariance and diagonal fallback of the unscented
 transform

The covariance used (I - W) D (I - W)^T in place of its transpose, so it
was wrong even for the identity map. The diagonal fallback did not scale
the sigma points by (dim_d + k).
---
 src/numerics/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerics/utilities.py b/src/numerics/utilities.py
index 8a48a63..73dd7b5 100644
--- a/src/numerics/utilities.py
+++ b/src/numerics/utilities.py
@@ -276,7 +276,7 @@ def ut_approx(fun, x_bar, x_cov, *args):
     except LinAlgError:
         # If the original fails, apply only to
         # the diagonal elements of the covariance.
-        sPxx = cholesky(x_cov * np.eye(dim_d)).T
+        sPxx = cholesky((dim_d + k) * x_cov * np.eye(dim_d)).T
     # _end_if_
 
     # Replicate the array.
@@ -300,7 +300,7 @@ def ut_approx(fun, x_bar, x_cov, *args):
 
     # Compute the approximate covariance.
     w_m = np.eye(dim_m) - np.tile(weights, (dim_m, 1))
-    Q = w_m.dot(np.diag(weights.ravel())).dot(w_m.T)
+    Q = w_m.T.dot(np.diag(weights.ravel())).dot(w_m)
 
     # Compute the new approximate covariance.
     y_cov = y.T.dot(Q).dot(y)
-- 
2.43.0


From ce42ee1e34008cc270955cf57941a012d090eedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 12/29] fix: use the lower Cholesky factor to colour the system
 noise

scipy's cholesky() returns the upper factor U by default, and U*z has
covariance U*U.T, which is not sigma unless sigma is diagonal.
---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index ca04b34..4403703 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -212,7 +212,7 @@ class Lorenz63(StochasticProcess):
 
         # Compute the Cholesky decomposition of input matrix.
         try:
-            ek = cholesky(self._sigma * dt)
+            ek = cholesky(self._sigma * dt, lower=True)
         except LinAlgError:
             # Show a warning message.
             print(" Warning : Input matrix was not positive definite."
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 3dab33f..44aaaa9 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -291,7 +291,7 @@ class Lorenz96(StochasticProcess):
 
         # Compute the Cholesky decomposition of input matrix.
         try:
-            ek = cholesky(self._sigma * dt)
+            ek = cholesky(self._sigma * dt, lower=True)
         except LinAlgError:
             # Show a warning message.
             print(" Warning : The input matrix was not positive definite."
-- 
2.43.0


From e0f25b3f17da152911ae786258ecc5d6f851a5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 13/29] fix: share the L63 off-diagonal covariance derivatives

dSxy is the derivative w.r.t. a single parameter that appears at both
(x, y) and (y, x). Storing all of it in both entries counts it twice in
the backward equation for psi(t), hence in the gradient.
---
 src/dynamics/lorenz_63.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index 4403703..5c1c967 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -564,9 +564,10 @@ class Lorenz63(StochasticProcess):
                iSz * ((vB - A33) ** 2) * dEzz_dSzz
 
         # Gradient of the energy with respect to the marginal covariance.
-        dEsde_ds = 0.5 * np.array([[dSxx, dSxy, dSxz],
-                                   [dSxy, dSyy, dSyz],
-                                   [dSxz, dSyz, dSzz]])
+        # NOTE: The symmetric off-diagonal pairs share their derivative.
+        dEsde_ds = 0.5 * np.array([[dSxx, 0.5 * dSxy, 0.5 * dSxz],
+                                   [0.5 * dSxy, dSyy, 0.5 * dSyz],
+                                   [0.5 * dSxz, 0.5 * dSyz, dSzz]])
         # --->
         return Efg, dEsde_dm, dEsde_ds
 
-- 
2.43.0


From e2fd6d02cf903ae4404d281e6c790ecc1b7a06fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 14/29] fix: sixth moment coefficient in the double well energy

<(c*x - 4*x^3 - b)^2> contains 16*<x^6>, as its gradients assume.
---
 src/dynamics/double_well.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/double_well.py b/src/dynamics/double_well.py
index 884b569..712fc49 100644
--- a/src/dynamics/double_well.py
+++ b/src/dynamics/double_well.py
@@ -211,7 +211,7 @@ class DoubleWell(StochasticProcess):
         Ex6 = gauss_mom(order=6)
 
         # Auxiliary variable.
-        var_q = 8.0 * (Ex6 - c * Ex4 + offset_b * Ex3) + (c2 * Ex2) - (2.0 * offset_b * c * m) + (offset_b ** 2)
+        var_q = 8.0 * (2.0 * Ex6 - c * Ex4 + offset_b * Ex3) + (c2 * Ex2) - (2.0 * offset_b * c * m) + (offset_b ** 2)
 
         # Energy from the sDyn: Eq(7)
         Esde = 0.5 * my_trapz(var_q, dt, obs_t) / self._sigma
-- 
2.43.0


From 9932f19624af57ab79a8a871f8f6842d4bffe95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 15/29] fix: pass the additional arguments to every gradient
 evaluation

The curvature estimate dropped *args.
---
 src/numerics/optim_scg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/optim_scg.py b/src/numerics/optim_scg.py
index b5ab4fd..2eef735 100644
--- a/src/numerics/optim_scg.py
+++ b/src/numerics/optim_scg.py
@@ -164,7 +164,7 @@ class SCG(object):
                 # Because we evaluate the gradient at a new point
                 # we run the f(x) too,  so that we get consistent
                 # variational and Lagrangian parameters.
-                g_plus = self.df(x_plus, eval_fun=True)
+                g_plus = self.df(x_plus, *args, eval_fun=True)
 
                 # Increase function/gradients evaluations by one.
                 self.stats["f_eval"] += 1
-- 
2.43.0


From 7a09b60fcbef2ee4e2eef3a20842f1715a972f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 16/29] fix: add noise when the mask selects a single component

(dim_m, 1) observations could not be added in place to (dim_m,) noise.
---
 src/dynamics/stochastic_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/stochastic_process.py b/src/dynamics/stochastic_process.py
index c83ef48..83aa9e9 100644
--- a/src/dynamics/stochastic_process.py
+++ b/src/dynamics/stochastic_process.py
@@ -195,7 +195,7 @@ class StochasticProcess(object):
             sq_rn = np.sqrt(obs_noise)
 
             # Fixed Gaussian noise.
-            obs_y += sq_rn * self.rand_g.standard_normal(dim_m)
+            obs_y += sq_rn * self.rand_g.standard_normal(obs_y.shape)
 
         else:
             # Multidimensional case.
-- 
2.43.0


From e894b44832f5d880a756c04fc484f4084c60ddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 17/29] fix: chol_inv() of integer matrices

numba's solve() and cholesky() accept only floating point arrays, so for
example an integer noise vector in the parameters file was rejected.
---
 src/numerics/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerics/utilities.py b/src/numerics/utilities.py
index 73dd7b5..91d883b 100644
--- a/src/numerics/utilities.py
+++ b/src/numerics/utilities.py
@@ -226,8 +226,8 @@ def chol_inv(x):
     :return: inverted 'x' and inverted Cholesky factor.
     """
 
-    # Make sure input is array.
-    x = np.asarray(x)
+    # Make sure input is (real) array.
+    x = np.asarray(x, dtype=float)
 
     # Check if the input is scalar.
     if x.ndim == 0:
-- 
2.43.0


From e4a36d0456a14f1f49debd1859baa3f2bf0309d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 18/29] fix: evaluate the L96 drift separately at each sigma
 point

Without an axis np.roll() shifts the flattened array, so the first and
last components of each sigma point were coupled with the previous / next
sigma point and not with each other.
---
 src/dynamics/lorenz_96.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 44aaaa9..4c50c05 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -379,11 +379,13 @@ class Lorenz96(StochasticProcess):
         # Gradients of Esde w.r.t. 'Sigma'.
         dEsde_dSig = np.zeros((dim_t, dim_d))
 
+        # Define lambda function: the drift of each row of 'xt'.
+        # NOTE: np.roll() in numba ignores the rows (it has no axis).
+        fun_2 = lambda xt: ((np.roll(xt, -1, axis=1) - np.roll(xt, +2, axis=1)) *
+                            np.roll(xt, +1, axis=1) - xt + theta)
         # Define lambda function.
-        fun_1 = lambda xt, at, bt: (l96(xt, theta) + xt.dot(at.T) -
+        fun_1 = lambda xt, at, bt: (fun_2(xt) + xt.dot(at.T) -
                                     np.tile(bt, (xt.shape[0], 1))) ** 2
-        # Define lambda function.
-        fun_2 = lambda xt: l96(xt, theta)
 
         # Identity matrix.
         iD = np.eye(dim_d)
-- 
2.43.0


From 8dabed5105dd16783d07226343d890a1898c0820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 19/29] fix: backward jump of an observation at the final time

At the maximum observation density the last grid point is observed. Its
jump was never added to the multipliers, although it is in the energy.
---
 src/numerics/euler.py        | 4 ++++
 src/numerics/heun.py         | 4 ++++
 src/numerics/runge_kutta2.py | 4 ++++
 src/numerics/runge_kutta4.py | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/numerics/euler.py b/src/numerics/euler.py
index 09098ae..37acbdd 100644
--- a/src/numerics/euler.py
+++ b/src/numerics/euler.py
@@ -135,6 +135,10 @@ class Euler(OdeSolver):
         fun_lam = self.fun_lam
         fun_psi = self.fun_psi
 
+        # At the final time there is only the jump of
+        # an observation (if there is one).
+        lam[-1], psi[-1] = dEobs_dm[-1], dEobs_ds[-1]
+
         # Run through all-time points.
         for t in range(dim_n - 1, 0, -1):
             # Get the values at time 't'.
diff --git a/src/numerics/heun.py b/src/numerics/heun.py
index 5c21d17..25cc60e 100644
--- a/src/numerics/heun.py
+++ b/src/numerics/heun.py
@@ -156,6 +156,10 @@ class Heun(OdeSolver):
         # Half step-size.
         h = 0.5 * dt
 
+        # At the final time there is only the jump of
+        # an observation (if there is one).
+        lam[-1], psi[-1] = dEobs_dm[-1], dEobs_ds[-1]
+
         # Run through all-time points.
         for t in range(dim_n - 1, 0, -1):
             # Get the values at time 't'.
diff --git a/src/numerics/runge_kutta2.py b/src/numerics/runge_kutta2.py
index f93ecc8..5cd7398 100644
--- a/src/numerics/runge_kutta2.py
+++ b/src/numerics/runge_kutta2.py
@@ -164,6 +164,10 @@ class RungeKutta2(OdeSolver):
 
         # _end_if_
 
+        # At the final time there is only the jump of
+        # an observation (if there is one).
+        lam[-1], psi[-1] = dEobs_dm[-1], dEobs_ds[-1]
+
         # Run through all-time points.
         for t in range(dim_n - 1, 0, -1):
             # Get the values at time 't'.
diff --git a/src/numerics/runge_kutta4.py b/src/numerics/runge_kutta4.py
index e0ffbee..7ba6900 100644
--- a/src/numerics/runge_kutta4.py
+++ b/src/numerics/runge_kutta4.py
@@ -175,6 +175,10 @@ class RungeKutta4(OdeSolver):
             dEsk_mid = np.concatenate((dEsk_mid, np.zeros((1, dim_d, dim_d))), axis=0)
         # _end_if_
 
+        # At the final time there is only the jump of
+        # an observation (if there is one).
+        lam[-1], psi[-1] = dEobs_dm[-1], dEobs_ds[-1]
+
         # Run through all-time points.
         for t in range(dim_n - 1, 0, -1):
             # Get the values at time 't'.
-- 
2.43.0


From 629da475dd685448a3b652be917e02010576512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 20/29] fix: initialization with observations at the ends of
 the time window

CubicSpline() needs strictly increasing times, so that a simulation with
the maximum observation density stopped with an error.
---
 src/var_bayes/variational.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/var_bayes/variational.py b/src/var_bayes/variational.py
index bc3e76c..b93d8cf 100644
--- a/src/var_bayes/variational.py
+++ b/src/var_bayes/variational.py
@@ -91,6 +91,10 @@ class VarGP(object):
             # Replicate the first and last observations.
             obs_z = np.hstack((self.obs_y[0], self.obs_y, self.obs_y[-1]))
 
+            # The ends of the time window may be already observed.
+            time_x, idx_x = np.unique(time_x, return_index=True)
+            obs_z = obs_z[idx_x]
+
             # Linear variational parameters.
             a0 = 0.5 * (self.model.sigma / 0.25) * np.ones(self.dim_n)
 
@@ -104,6 +108,10 @@ class VarGP(object):
             # Replicate the first and last observations.
             obs_z = np.vstack((self.obs_y[0], self.obs_y, self.obs_y[-1]))
 
+            # The ends of the time window may be already observed.
+            time_x, idx_x = np.unique(time_x, return_index=True)
+            obs_z = obs_z[idx_x]
+
             # Cubic spline extrapolation for
             # each dimension separately.
             fb0 = CubicSpline(time_x, obs_z)
-- 
2.43.0


From 467656e8489511b67037820a24662ec5bd49cc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 21/29] fix: observation operator and full noise matrix in the
 likelihood

The energy and the jumps did not agree unless the operator is the identity
(the 1D energy ignored it) and the noise matrix is diagonal.
---
 src/var_bayes/gaussian_like.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index cd71d13..e12c712 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -80,15 +80,18 @@ class GaussianLikelihood(Likelihood):
         # from the parent class (Likelihood).
         obs_y, obs_t = self.values, self.times
 
+        # Observation operator.
+        H = self.operator
+
         # Total number of observations.
         dim_m = obs_t.size
 
         # Second order Gaussian moments,
         # at observation times only.
-        Ex2 = (m[obs_t] ** 2) + s[obs_t]
+        Ex2 = (H ** 2) * ((m[obs_t] ** 2) + s[obs_t])
 
         # Energy from the observations.
-        Eobs = 0.5 * np.sum((obs_y ** 2) - 2.0 * obs_y * m[obs_t] + Ex2) / self.noise +\
+        Eobs = 0.5 * np.sum((obs_y ** 2) - 2.0 * obs_y * H * m[obs_t] + Ex2) / self.noise +\
                0.5 * dim_m * (GaussianLikelihood.LOG2PI + np.log(self.noise))
 
         # Energy term from the observations.
@@ -116,33 +119,24 @@ class GaussianLikelihood(Likelihood):
         H = self.operator
 
         # Pre-compute this only once.
-        W = (obs_y - m[obs_t]).dot(H)
+        W = obs_y - m[obs_t].dot(H.T)
 
         # Inverted Cholesky factor.
         inv_rn, inv_chol_factor = chol_inv(self.noise)
 
-        # Extract the diagonal elements.
-        diag_inv_rn = inv_rn.diagonal()
-
         # Pre-compute this only once.
         Z = W.dot(inv_chol_factor.T)
 
         # Energy term from the observations.
         Eobs = 0.0
 
-        # Get the diagonal elements.
-        # NOTE: Array s is 3-dimensional. The following command
-        # returns the diagonal elements on the first dimensions.
-        # I.e. np.diag(s[0, :, :]), ... , np.diag(s[n-1, :, :])
-        sn_diag = np.diagonal(s, axis1=1, axis2=2)
-
         # Sum the energy iteratively.
         for n, tn in enumerate(obs_t):
             # Inner product: z * z.T
             zn_sq = np.inner(Z[n], Z[n])
 
-            # Energy term.
-            Eobs += zn_sq + np.inner(diag_inv_rn, sn_diag[tn])
+            # Energy term (with the trace of: Rn^{-1} * H * S * H.T).
+            Eobs += zn_sq + np.sum(inv_rn * H.dot(s[tn]).dot(H.T))
         # _end_for_
 
         # Compute the final including the constants.
@@ -185,10 +179,10 @@ class GaussianLikelihood(Likelihood):
         dEobs_dr = np.zeros(dim_n)
 
         # Jumps -Eq(31)- NOT IN THE PAPER.
-        dEobs_dm[obs_t] = - W / self.noise
+        dEobs_dm[obs_t] = - H * W / self.noise
 
         # Jumps -Eq(32)- NOT IN THE PAPER.
-        dEobs_ds[obs_t] = 0.5 / self.noise
+        dEobs_ds[obs_t] = 0.5 * (H ** 2) / self.noise
 
         # Calculate the gradient at 'M' observation times.
         dEobs_dr[obs_t] = -0.5 * ((obs_y ** 2) - 2.0 * obs_y * m[obs_t] + Ex2 + 1.0) / self.noise
@@ -219,7 +213,7 @@ class GaussianLikelihood(Likelihood):
         H = self.operator
 
         # Pre-compute this only once.
-        W = (obs_y - m[obs_t]).dot(H)
+        W = obs_y - m[obs_t].dot(H.T)
 
         # Inverted Cholesky factor.
         inv_rn, _ = chol_inv(self.noise)
-- 
2.43.0


From 1be30d16e3bfdea32bd68f22b4c682c8d420166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:50 +0000
Subject: [PATCH 22/29] fix: load: read the stored data before the conversion
 to objects

h5py cannot read floating point data into an array of objects, so that
loading any results file raised an OSError.
---
 src/var_bayes/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 81cb753..a4c45ee 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -342,7 +342,7 @@ def load(filename=None):
 
         # Extract all the data.
         for key in input_file:
-            sim_data[key] = np.array(input_file[key], dtype=object)
+            sim_data[key] = np.array(input_file[key][()], dtype=object)
         # _end_for_
 
     # _end_with_
-- 
2.43.0


From 7f9edfd916733bb0b0e6cc0f48da719ce8fc1b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:23 +0000
Subject: [PATCH 23/29] fix: reject a non-positive observation noise also in
 one dimension

The energy became NaN, and the program saved these results and exited
with status zero.
---
 src/var_bayes/gaussian_like.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index e12c712..ebeb1ef 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -80,6 +80,12 @@ class GaussianLikelihood(Likelihood):
         # from the parent class (Likelihood).
         obs_y, obs_t = self.values, self.times
 
+        # The variance of the noise must be positive.
+        if not np.all(self.noise > 0.0):
+            raise ValueError(f" {self.__class__.__name__}: Observation noise value:"
+                             f" {self.noise}, should be strictly positive.")
+        # _end_if_
+
         # Observation operator.
         H = self.operator
 
-- 
2.43.0


From 84a1f985a9a85dcd9b4129ac53371c4802812079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:23 +0000
Subject: [PATCH 24/29] fix: reject a non-positive prior variance also in one
 dimension

The energy became NaN, and the program saved these results and exited
with status zero.
---
 src/var_bayes/prior_kl0.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/var_bayes/prior_kl0.py b/src/var_bayes/prior_kl0.py
index a8d75af..5a27e63 100644
--- a/src/var_bayes/prior_kl0.py
+++ b/src/var_bayes/prior_kl0.py
@@ -53,6 +53,12 @@ class PriorKL0(object):
 
         :return: energy of the initial state KL0, (scalar).
         """
+        # The prior variance must be positive.
+        if not np.all(self.tau0 > 0.0):
+            raise ValueError(f" {self.__class__.__name__}: Prior variance value:"
+                             f" {self.tau0}, should be strictly positive.")
+        # _end_if_
+
         # Pre-compute once.
         z0 = m0 - self.mu0
 
-- 
2.43.0


From e418a9816f5edf7596ee58b26b7d5d3e9d200def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:56 +0000
Subject: [PATCH 25/29] fix: zero variances in the diagonal fallback of the
 unscented transform

A positive semi-definite covariance with a zero variance has no Cholesky
factor, and neither has its diagonal: the fallback raised the same error.
---
 src/numerics/utilities.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/numerics/utilities.py b/src/numerics/utilities.py
index 91d883b..77649c1 100644
--- a/src/numerics/utilities.py
+++ b/src/numerics/utilities.py
@@ -276,7 +276,14 @@ def ut_approx(fun, x_bar, x_cov, *args):
     except LinAlgError:
         # If the original fails, apply only to
         # the diagonal elements of the covariance.
-        sPxx = cholesky((dim_d + k) * x_cov * np.eye(dim_d)).T
+        diag = (dim_d + k) * np.diag(x_cov)
+
+        # Zero variances are fine, negative are not.
+        if not np.all(diag >= 0.0):
+            raise
+        # _end_if_
+
+        sPxx = np.diag(np.sqrt(diag))
     # _end_if_
 
     # Replicate the array.
-- 
2.43.0


From 891ff4809f647c0a37c980364f3415be34650a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:29 +0000
Subject: [PATCH 26/29] fix: integer inputs overflow in the Gaussian moments

---
 src/var_bayes/gaussian_moments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/var_bayes/gaussian_moments.py b/src/var_bayes/gaussian_moments.py
index a8dea14..2bfe9af 100644
--- a/src/var_bayes/gaussian_moments.py
+++ b/src/var_bayes/gaussian_moments.py
@@ -23,7 +23,8 @@ class GaussianMoments(object):
         """
 
         # Make sure the inputs are at least 1-D.
-        m_arr, v_arr = np.atleast_1d(m_arr, v_arr)
+        m_arr, v_arr = np.atleast_1d(np.asarray(m_arr, dtype=float),
+                                     np.asarray(v_arr, dtype=float))
 
         # The shapes must match.
         if m_arr.shape != v_arr.shape:
-- 
2.43.0


From 9f65bd95b6a25873543e62602096b737f6375117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:29 +0000
Subject: [PATCH 27/29] fix: constant Gaussian moments of two-dimensional
 arrays

---
 src/var_bayes/gaussian_moments.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/var_bayes/gaussian_moments.py b/src/var_bayes/gaussian_moments.py
index 2bfe9af..7e58c1b 100644
--- a/src/var_bayes/gaussian_moments.py
+++ b/src/var_bayes/gaussian_moments.py
@@ -52,7 +52,7 @@ class GaussianMoments(object):
         :raises ValueError: if the input order is out of bounds.
         """
         if order == 0:
-            x_out = np.ones(self.n_size)
+            x_out = np.ones(self.m_arr.shape)
         elif order == 1:
             x_out = self.m_arr
         elif order == 2:
@@ -105,7 +105,7 @@ class GaussianMoments(object):
         :raises ValueError: if the input order is out of bounds.
         """
         if order == 1:
-            x_out = np.ones(self.n_size)
+            x_out = np.ones(self.m_arr.shape)
         elif order == 2:
             x_out = 2 * self.m_arr
         elif order == 3:
@@ -152,9 +152,9 @@ class GaussianMoments(object):
         :raises ValueError: if the input order is out of bounds.
         """
         if order == 1:
-            x_out = np.zeros(self.n_size)
+            x_out = np.zeros(self.m_arr.shape)
         elif order == 2:
-            x_out = np.ones(self.n_size)
+            x_out = np.ones(self.m_arr.shape)
         elif order == 3:
             x_out = 3 * self.m_arr
         elif order == 4:
-- 
2.43.0


From 9e72a8832ae8b24b6a536516143a82075aea7bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:29 +0000
Subject: [PATCH 28/29] fix: error message of mismatched shapes in the Gaussian
 moments

---
 src/var_bayes/gaussian_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/gaussian_moments.py b/src/var_bayes/gaussian_moments.py
index 7e58c1b..33c2781 100644
--- a/src/var_bayes/gaussian_moments.py
+++ b/src/var_bayes/gaussian_moments.py
@@ -29,7 +29,7 @@ class GaussianMoments(object):
         # The shapes must match.
         if m_arr.shape != v_arr.shape:
             raise RuntimeError(" {0}: Input arrays shape mismatch."
-                               " {1} != {2)".format(self.__class__.__name__,
+                               " {1} != {2}".format(self.__class__.__name__,
                                                     m_arr.shape, v_arr.shape))
         # _end_if_
 
-- 
2.43.0


From 943fd070b344bbd0c190d2f0370b0f2b3dfafcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:24 +0000
Subject: [PATCH 29/29] fix: the prior of a configuration given as arrays is
 accepted and not modified

---
 src/var_bayes/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index a4c45ee..8369fae 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -172,8 +172,8 @@ class Simulation(object):
             self.m_data["s0"] = 0.2 * np.eye(dim_d)
 
             # Adjust the prior values.
-            self.m_data["mu0"] *= np.ones(dim_d)
-            self.m_data["tau0"] *= np.eye(dim_d)
+            self.m_data["mu0"] = self.m_data["mu0"] * np.ones(dim_d)
+            self.m_data["tau0"] = self.m_data["tau0"] * np.eye(dim_d)
         # _end_if_
     # _end_def_
 
-- 
2.43.0

