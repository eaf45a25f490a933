From a1f3f40c81b025b4869f94da41867cd96dba7ffb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:41:30 +0000
Subject: [PATCH 01/11] fix: multivariate Gaussian log density solved the wrong
 triangular system

---
 mfs/classical_filters_smoothers/gfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/classical_filters_smoothers/gfs.py b/mfs/classical_filters_smoothers/gfs.py
index 5b3d1e9..079dc0f 100644
--- a/mfs/classical_filters_smoothers/gfs.py
+++ b/mfs/classical_filters_smoothers/gfs.py
@@ -47,7 +47,7 @@ def _log_normal_pdf(x: FloatScalar, mu: FloatScalar, variance: FloatScalar) -> F
 
 
 def _log_mvn_pdf(x: JArray, mu: JArray, chol: JArray) -> JFloat:
-    z = jax.lax.linalg.triangular_solve(chol, x - mu)
+    z = jax.lax.linalg.triangular_solve(chol, x - mu, left_side=True, lower=True)
     return -0.5 * (jnp.dot(z, z) + 2 * jnp.sum(jnp.log(math.sqrt(2 * math.pi) * jnp.diagonal(chol))))
 
 
-- 
2.43.0


From b43f2257eff7fec309e09450cea54eb1b3840843 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:41:30 +0000
Subject: [PATCH 02/11] fix: Kalman gain for vector measurements used one wrong
 triangular solve instead of the inverse

---
 mfs/classical_filters_smoothers/gfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/classical_filters_smoothers/gfs.py b/mfs/classical_filters_smoothers/gfs.py
index 079dc0f..6f181cc 100644
--- a/mfs/classical_filters_smoothers/gfs.py
+++ b/mfs/classical_filters_smoothers/gfs.py
@@ -75,7 +75,7 @@ def _linear_update(mp: JArray, vp: JArray,
         n_ell = jnp.squeeze(-_log_normal_pdf(y, pred_y, S))
     else:
         chol = jax.lax.linalg.cholesky(S)
-        K = jax.lax.linalg.triangular_solve(chol, H @ vp).T
+        K = jax.scipy.linalg.cho_solve((chol, True), H @ vp).T
         n_ell = -_log_mvn_pdf(y, pred_y, chol)
     return mp + K @ (y - pred_y), vp - K @ S @ K.T, n_ell
 
-- 
2.43.0


From 16e95c3a6e20fb36dab9099fe655f90aa1af1967 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:41:30 +0000
Subject: [PATCH 03/11] fix: scaled conditional moments of order n must be
 divided by scale ** n

---
 mfs/one_dim/moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index bd3aed3..4daa29d 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -202,7 +202,7 @@ def sde_cond_moments_tme_normal(drift: Callable, dispersion: Callable, dt: Float
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JFloat, n: JInt, mean: FloatScalar, scale: FloatScalar) -> JFloat:
         cond_mean, cond_var = tme.mean_and_cov(jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order)
-        s = jnp.prod(scale ** jnp.arange(num_moments))
+        s = scale ** n
         return jnp.array([raw_moment_of_normal(jnp.squeeze(cond_mean) - mean, jnp.squeeze(cond_var), p)
                           for p in range(num_moments)])[n] / s
 
@@ -240,7 +240,7 @@ def sde_cond_moments_euler(drift: Callable, dispersion: Callable, dt: FloatScala
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JFloat, n: JInt, mean: FloatScalar, scale: FloatScalar) -> JFloat:
         cond_mean, cond_var = x + drift(x) * dt, dispersion(x) ** 2 * dt
-        s = jnp.prod(scale ** jnp.arange(num_moments))
+        s = scale ** n
         return jnp.array([raw_moment_of_normal(cond_mean - mean, cond_var, p) for p in range(num_moments)])[n] / s
 
     @partial(jax.vmap, in_axes=[0])
-- 
2.43.0


From d529e7ec008c863b32c7b8571602938913bb7eae Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:41:30 +0000
Subject: [PATCH 04/11] fix: Legendre coefficients need the moments of the
 variable mapped to [-1, 1]

---
 mfs/one_dim/pdf_approximations.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mfs/one_dim/pdf_approximations.py b/mfs/one_dim/pdf_approximations.py
index 39d613e..c7aaec9 100644
--- a/mfs/one_dim/pdf_approximations.py
+++ b/mfs/one_dim/pdf_approximations.py
@@ -123,8 +123,13 @@ def legendre_poly_expansion(rms: JArray, a: FloatScalar = -1., b: FloatScalar =
     def legendre(k: int, x: FloatScalar) -> FloatScalar:
         return poly(k, jnp.array([x ** i for i in range(k + 1)]))
 
+    # Raw moments of the variable mapped from [a, b] to [-1, 1]
+    unit_rms = [sum([math.comb(n, j) * (2 / (b - a)) ** j * (-(a + b) / (b - a)) ** (n - j) * rms[j]
+                     for j in range(n + 1)])
+                for n in range(num_moments)]
+
     def basis_coeff(k: int) -> FloatScalar:
-        return (2 * k + 1) / 2 * poly(k, rms)
+        return (2 * k + 1) / 2 * poly(k, unit_rms)
 
     @partial(jax.vmap, in_axes=[0])
     def pdf(x):
-- 
2.43.0


From a5d929ceff128fbe09180b23f32d0669fa2dd3b6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:42:06 +0000
Subject: [PATCH 05/11] fix: particle filters drew initial, transition and
 proposal samples from keys they also split

---
 mfs/classical_filters_smoothers/smc.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/mfs/classical_filters_smoothers/smc.py b/mfs/classical_filters_smoothers/smc.py
index a5ae85a..a353410 100644
--- a/mfs/classical_filters_smoothers/smc.py
+++ b/mfs/classical_filters_smoothers/smc.py
@@ -63,21 +63,22 @@ def bootstrap_filter(transition_sampler: Callable[[JArray, JArray], JArray],
         samples, nell = carry
         y, _key = elem
 
-        samples = transition_sampler(samples, _key)
+        key_transition, key_resampling = jax.random.split(_key)
+        samples = transition_sampler(samples, key_transition)
 
         weights = measurement_cond_pdf(y, samples)
         nell -= jnp.log(jnp.mean(weights))
         weights = weights / weights.sum()
 
-        _key, _ = jax.random.split(_key)
         if conti_resampling:
-            samples = continuous_resampling(samples, weights, nsamples, _key)
+            samples = continuous_resampling(samples, weights, nsamples, key_resampling)
         else:
-            samples = samples[resampling(weights, _key), ...]
+            samples = samples[resampling(weights, key_resampling), ...]
 
         return (samples, nell), samples
 
-    init_samples = init_sampler(key, nsamples)
+    key_init, key = jax.random.split(key)
+    init_samples = init_sampler(key_init, nsamples)
     keys = jax.random.split(key, num=ys.shape[0])
 
     (*_, nell_ys), solution_samples = jax.lax.scan(scan_body, (init_samples, 0.), (ys, keys))
@@ -127,15 +128,16 @@ def particle_filter(proposal_sampler: Callable[[JArray, JArray, JArray], JArray]
         ancestors = carry
         y, _key = elem
 
-        samples = proposal_sampler(ancestors, y, _key)
+        key_proposal, key_resampling = jax.random.split(_key)
+        samples = proposal_sampler(ancestors, y, key_proposal)
         weights = measurement_cond_pdf(y, samples) * transition_density(samples, ancestors) \
                   / proposal_density(samples, ancestors, y)
         weights = weights / weights.sum()
 
-        _key, _ = jax.random.split(_key)
-        samples = samples[resampling(weights, _key), ...]
+        samples = samples[resampling(weights, key_resampling), ...]
         return samples, samples
 
-    init_samples = init_sampler(key, nsamples)
+    key_init, key = jax.random.split(key)
+    init_samples = init_sampler(key_init, nsamples)
     keys = jax.random.split(key, num=ys.shape[0])
     return jax.lax.scan(scan_body, init_samples, (ys, keys))[1]
-- 
2.43.0


From 8d3c98c469bff744b2b505d3cd7cb98ad1cb0c79 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:42:06 +0000
Subject: [PATCH 06/11] fix: variance of a Gaussian sum built with N=1 was read
 out of bounds

---
 mfs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/utils.py b/mfs/utils.py
index 9a4b8da..f3515d2 100644
--- a/mfs/utils.py
+++ b/mfs/utils.py
@@ -67,7 +67,7 @@ class GaussianSum1D(NamedTuple):
                               zip(means, variances, weights)]) for p in range(2 * N)])
         cms = jnp.array([sum([raw_moment_of_normal(mean - centre, variance, p) * weight for mean, variance, weight in
                               zip(means, variances, weights)]) for p in range(2 * N)])
-        variance = cms[2]
+        variance = jnp.sum((variances + (means - centre) ** 2) * weights)
         scms = cms / jnp.sqrt(variance) ** jnp.arange(2 * N)
         return cls(means=means, variances=variances, weights=weights,
                    mean=centre, variance=variance,
-- 
2.43.0


From 808289b467891f9323054df0a7630d26b381dcac Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:42:06 +0000
Subject: [PATCH 07/11] fix: modified Cholesky had NaN gradients whenever a
 pivot was replaced

---
 mfs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/utils.py b/mfs/utils.py
index f3515d2..ef66f67 100644
--- a/mfs/utils.py
+++ b/mfs/utils.py
@@ -535,4 +535,4 @@ def ldl_chol(mat: JArray, eps: float = None) -> JArray:
     if eps is None:
         eps = 1e-8 * jnp.linalg.norm(mat, 'fro')
     l, d = ldl(mat)
-    return jnp.einsum('ij,j->ij', l, jnp.where(d < 0, eps, jnp.sqrt(d)))
+    return jnp.einsum('ij,j->ij', l, jnp.where(d < 0, eps, jnp.sqrt(jnp.where(d < 0, 1., d))))
-- 
2.43.0


From ca5dde1e755ced6ae86bce0ede4cbec3005f4a2c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:44:06 +0000
Subject: [PATCH 08/11] fix: Gaussian-sum samplers drew components from a key
 they also split

---
 mfs/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mfs/utils.py b/mfs/utils.py
index ef66f67..5a9511b 100644
--- a/mfs/utils.py
+++ b/mfs/utils.py
@@ -53,8 +53,8 @@ class GaussianSum1D(NamedTuple):
         return jnp.sum(pdfs * self.weights[None, :], axis=1)
 
     def sampler(self, key, n):
-        cs = jax.random.choice(key, self.means.shape[0], (n,), p=self.weights)
-        key, _ = jax.random.split(key)
+        key, key_choice = jax.random.split(key)
+        cs = jax.random.choice(key_choice, self.means.shape[0], (n,), p=self.weights)
         return self.means[cs] + jnp.sqrt(self.variances[cs]) * jax.random.normal(key, (n,))
 
     @classmethod
@@ -99,8 +99,8 @@ class GaussianSumND(NamedTuple):
         return jax.scipy.special.logsumexp(log_pdfs, b=self.weights)
 
     def sampler(self, key, nsamples):
-        cs = jax.random.choice(key, self.means.shape[0], (nsamples,), p=self.weights)
-        key, _ = jax.random.split(key)
+        key, key_choice = jax.random.split(key)
+        cs = jax.random.choice(key_choice, self.means.shape[0], (nsamples,), p=self.weights)
         return self.means[cs, :] + jnp.einsum('...ij,...j->...i', jnp.linalg.cholesky(self.covs[cs, :, :]),
                                               jax.random.normal(key, (nsamples, self.d)))
 
-- 
2.43.0


From 188834cbdbb2d25e7e7662d1054f6be159e608d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:30 +0000
Subject: [PATCH 09/11] fix: the convergence script's jitted wrappers shadowed
 the moment filters they call

---
 dardel/convergence/convergence_mf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dardel/convergence/convergence_mf.py b/dardel/convergence/convergence_mf.py
index f62ecc1..dbfc8ba 100644
--- a/dardel/convergence/convergence_mf.py
+++ b/dardel/convergence/convergence_mf.py
@@ -114,7 +114,7 @@ cms0 = jnp.array([central_moment_of_normal(var0, p) for p in range(num_moments)]
 
 # JIT filter routines
 @jax.jit
-def moment_filter_rms(_ys):
+def mf_rms(_ys):
     rmss, _ = moment_filter_rms(state_cond_raw_moments,
                                 measurement_cond_pdf,
                                 rms0,
@@ -123,7 +123,7 @@ def moment_filter_rms(_ys):
 
 
 @jax.jit
-def moment_filter_cms(_ys):
+def mf_cms(_ys):
     cmss, means, _ = moment_filter_cms(state_cond_central_moments,
                                        state_cond_mean,
                                        measurement_cond_pdf,
@@ -152,9 +152,9 @@ for k in range(num_mc):
 
     # Results from moment filter
     if mode == 'raw':
-        mfs, vfs = moment_filter_rms(ys)
+        mfs, vfs = mf_rms(ys)
     elif mode == 'central':
-        mfs, vfs = moment_filter_cms(ys)
+        mfs, vfs = mf_cms(ys)
     else:
         raise NotImplementedError(f'Mode {mode} not implemented.')
 
-- 
2.43.0


From 8dcfed328217cce4454cfe2846f412138e5d5b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:30 +0000
Subject: [PATCH 10/11] fix: the Gauss-Hermite parameter estimation minimised
 the EKF objective

---
 dardel/parameter_estimation/ghf_ekf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dardel/parameter_estimation/ghf_ekf.py b/dardel/parameter_estimation/ghf_ekf.py
index 9d2244c..be2407e 100644
--- a/dardel/parameter_estimation/ghf_ekf.py
+++ b/dardel/parameter_estimation/ghf_ekf.py
@@ -89,7 +89,7 @@ ys = jax.random.poisson(key_ys, emission(xs, true_p2), (T,))
 
 # Run optimisation of GHF
 init_params = jnp.log(jnp.exp(jnp.array([args.p1_init, args.p2_init])) - 1.)
-opt_solver = jaxopt.ScipyMinimize(method='L-BFGS-B', jit=True, fun=obj_func_ekf)
+opt_solver = jaxopt.ScipyMinimize(method='L-BFGS-B', jit=True, fun=obj_func_ghf)
 opt_params, opt_state = opt_solver.run(init_params,  ys)
 opt_params = jnp.log(jnp.exp(opt_params) + 1.)
 
-- 
2.43.0


From 0912efb57ccb0d76626a59ef20e4822e401d8d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:30 +0000
Subject: [PATCH 11/11] fix: plot_convergence loads a particle filter file that
 no script writes

---
 reproduce_paper_plots/plot_convergence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reproduce_paper_plots/plot_convergence.py b/reproduce_paper_plots/plot_convergence.py
index cc582b1..f0e6350 100644
--- a/reproduce_paper_plots/plot_convergence.py
+++ b/reproduce_paper_plots/plot_convergence.py
@@ -62,7 +62,7 @@ for i, N in enumerate([3, 7, 11, 15]):
     axes[1, i].set_xlabel('$t$')
 
 # Plot PF for comparison
-results = np.load(path + 'pf.npz')
+results = np.load(path + 'pf_100000.npz')
 errs_means_pf = results['errs_means']
 errs_variances_pf = results['errs_variances']
 errs_kls = results['errs_kls']
-- 
2.43.0

