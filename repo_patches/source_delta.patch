From d8839e0451bbd5ebe34397ea0349b8549fd75d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 01/44] fix: base distribution density accepts a single point
 given as a 1-D vector

---
 ais_benchmarks/distributions/distributions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/distributions/distributions.py b/ais_benchmarks/distributions/distributions.py
index b84c69a..2f98edb 100644
--- a/ais_benchmarks/distributions/distributions.py
+++ b/ais_benchmarks/distributions/distributions.py
@@ -255,8 +255,7 @@ class CDistribution(metaclass=ABCMeta):
         the dimensionality of the PDF represented by this class instance, i.e. M == self.dims.
         :return: Probability density of x.
         """
-        assert len(x.shape) == 2 and x.shape[1] == self.dims, "Shape mismatch. x must be an Nx%d array. That contains \
-                                                               N points to be evaluated." % self.dims
+        x = self._check_shape(x)
 
         if self.likelihood_f is not None:
             return self.likelihood_f(x)
@@ -272,8 +271,7 @@ class CDistribution(metaclass=ABCMeta):
         the dimensionality of the PDF represented by this class instance, i.e. M == self.dims.
         :return: Log probability density of x.
         """
-        assert len(x.shape) == 2 and x.shape[1] == self.dims, "Shape mismatch. x must be an Nx%d array. That contains \
-                                                               N points to be evaluated." % self.dims
+        x = self._check_shape(x)
 
         if self.loglikelihood_f is not None:
             return self.loglikelihood_f(x)
-- 
2.43.0


From ed0aa500194954385935e0d7801bc0064c2977b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 02/44] fix: exponential density is prod exp(-x/m)/m and zero
 outside the positive orthant

---
 .../parametric/CMultivariateExponential.py            | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
index be2b148..b32a809 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
@@ -23,7 +23,7 @@ class CMultivariateExponential(CDistribution):
     def set_moments(self, mean):
         self.loc = mean
         self.scale = 1 / mean
-        self.log_scale = np.log(self.scale * np.e)
+        self.log_scale = np.log(self.scale)
 
     def sample(self, n_samples=1):
         return np.random.exponential(self.loc, n_samples)
@@ -31,18 +31,15 @@ class CMultivariateExponential(CDistribution):
     def log_prob(self, samples):
         samples = self._check_shape(samples)
 
-        res = np.zeros(len(samples))
+        res = np.full(len(samples), -np.inf)
         inliers = np.all(samples > 0, axis=1).flatten()
-        res_in = -self.scale.reshape(1, self.dims) * samples[inliers] * self.log_scale.reshape(1, self.dims)
+        res_in = self.log_scale.reshape(1, self.dims) - self.scale.reshape(1, self.dims) * samples[inliers]
         res_in = np.sum(res_in, axis=1)
         res[inliers] = res_in.flatten()
         return res
 
     def prob(self, samples):
-        res = np.zeros(len(samples))
-        inliers = np.all(samples > 0, axis=1).flatten()
-        res[inliers] = np.exp(self.log_prob(samples[inliers]).flatten())
-        return res
+        return np.exp(self.log_prob(samples))
 
     def condition(self, dist):
         raise NotImplementedError
-- 
2.43.0


From 6b0df834a4cf640e956f12f206d47d8841b505ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 03/44] fix: exponential sampling returns an n x d array

---
 .../distributions/parametric/CMultivariateExponential.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
index b32a809..b03ea53 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
@@ -26,7 +26,7 @@ class CMultivariateExponential(CDistribution):
         self.log_scale = np.log(self.scale)
 
     def sample(self, n_samples=1):
-        return np.random.exponential(self.loc, n_samples)
+        return np.random.exponential(self.loc, size=(n_samples, self.dims))
 
     def log_prob(self, samples):
         samples = self._check_shape(samples)
-- 
2.43.0


From 53e778352555f5b4eca46e3282254dec537ae6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 04/44] fix: Maxwell log-density is -inf outside the support
 and prob accepts a single point

---
 ais_benchmarks/distributions/benchden/d03_maxwell.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ais_benchmarks/distributions/benchden/d03_maxwell.py b/ais_benchmarks/distributions/benchden/d03_maxwell.py
index 99607bb..b07b7c3 100644
--- a/ais_benchmarks/distributions/benchden/d03_maxwell.py
+++ b/ais_benchmarks/distributions/benchden/d03_maxwell.py
@@ -34,7 +34,7 @@ class BenchDenMaxwell(CDistribution):
         else:
             raise ValueError("Shape of samples does not match self.dims")
 
-        res = np.zeros(len(samples))
+        res = np.full(len(samples), -np.inf)
         inliers = np.all(samples > 0, axis=1).flatten()
         samples_in = samples[inliers]
         res_in = np.log(samples_in) - ((samples_in * samples_in) / 2)
@@ -43,10 +43,7 @@ class BenchDenMaxwell(CDistribution):
         return res
 
     def prob(self, samples):
-        res = np.zeros(len(samples))
-        inliers = np.all(samples > 0, axis=1).flatten()
-        res[inliers] = np.exp(self.log_prob(samples[inliers]).flatten())
-        return res
+        return np.exp(self.log_prob(samples))
 
     def condition(self, dist):
         raise NotImplementedError
-- 
2.43.0


From a339fa1d71eecaa8d81b9ef080a9042d87047c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 05/44] fix: Laplace density returns one value per point

---
 ais_benchmarks/distributions/benchden/d04_laplace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/benchden/d04_laplace.py b/ais_benchmarks/distributions/benchden/d04_laplace.py
index 30d62af..472a264 100644
--- a/ais_benchmarks/distributions/benchden/d04_laplace.py
+++ b/ais_benchmarks/distributions/benchden/d04_laplace.py
@@ -36,7 +36,7 @@ class BenchDenLaplace(CDistribution):
 
         res = np.log(.5) - np.fabs(samples)
         res = np.sum(res, axis=1)
-        return res
+        return res.reshape(len(samples))
 
     def prob(self, samples):
         return np.exp(self.log_prob(samples))
-- 
2.43.0


From 88eac27f2aed683edf8a93f079ccd907bbe63077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 06/44] fix: BenchDen uniform is uniform on [0, 1]

---
 ais_benchmarks/distributions/benchden/d01_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/benchden/d01_uniform.py b/ais_benchmarks/distributions/benchden/d01_uniform.py
index b1a9ceb..0fbc83d 100644
--- a/ais_benchmarks/distributions/benchden/d01_uniform.py
+++ b/ais_benchmarks/distributions/benchden/d01_uniform.py
@@ -20,5 +20,5 @@ class BenchDenUniform(CMultivariateUniform):
         params["dims"] = 1
         params["support"] = np.array([0, 1])
         params["center"] = np.array([.5])
-        params["radius"] = np.array([1])
+        params["radius"] = np.array([.5])
         super(self.__class__, self).__init__(params)
-- 
2.43.0


From 07fee9f287ebbbf3d8742d857bf9ed748edca174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 07/44] fix: uniform integral is zero over a disjoint region

---
 ais_benchmarks/distributions/parametric/CMultivariateUniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
index d69d9d9..af91f22 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
@@ -65,7 +65,7 @@ class CMultivariateUniform(CDistribution):
         assert np.all(a < b)
         ini = np.maximum(a, self.support_vals[0])
         end = np.minimum(b, self.support_vals[1])
-        return (1 / self.volume) * np.prod((end-ini))
+        return (1 / self.volume) * np.prod(np.maximum(end - ini, 0))
 
     def marginal(self, dim):
         raise NotImplementedError
-- 
2.43.0


From 7dc5922a62aaab958d526bc2710934be966364fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 08/44] fix: delta integral uses the distribution's own centre

---
 ais_benchmarks/distributions/parametric/CMultivariateDelta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateDelta.py b/ais_benchmarks/distributions/parametric/CMultivariateDelta.py
index b880714..80d9485 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateDelta.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateDelta.py
@@ -46,7 +46,7 @@ class CMultivariateDelta(CDistribution):
 
     def integral(self, a, b, nsamples=None):
         assert np.all(a < b)
-        if np.all(a < center) and np.all(center < b):
+        if np.all(a < self.loc) and np.all(self.loc < b):
             return np.array([1])
         return np.array([0])
 
-- 
2.43.0


From 57bc6793428f6d2d4db5ac7c0d7da9f93480bebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 09/44] fix: mixture uses equal weights when no weight is valid

---
 ais_benchmarks/distributions/mixture/CMixtureModel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ais_benchmarks/distributions/mixture/CMixtureModel.py b/ais_benchmarks/distributions/mixture/CMixtureModel.py
index 06538f8..609b349 100644
--- a/ais_benchmarks/distributions/mixture/CMixtureModel.py
+++ b/ais_benchmarks/distributions/mixture/CMixtureModel.py
@@ -36,6 +36,7 @@ class CMixtureModel(CDistribution):
         if weights.sum() <= 0:
             print("CMixtureModel. WARNING! All weights are set to zero!. "
                   "Using equal weights for all components.", file=sys.stderr)
+            weights = np.full(len(weights), 1.0 / len(weights))
         else:
             weights = weights / weights.sum()
         self.weights = weights
-- 
2.43.0


From a47238dae86dd25bb43bc4d918c6586666d05968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 10/44] fix: mixture set_weights leaves the caller's array
 unchanged

---
 ais_benchmarks/distributions/mixture/CMixtureModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/mixture/CMixtureModel.py b/ais_benchmarks/distributions/mixture/CMixtureModel.py
index 609b349..0c9b461 100644
--- a/ais_benchmarks/distributions/mixture/CMixtureModel.py
+++ b/ais_benchmarks/distributions/mixture/CMixtureModel.py
@@ -30,7 +30,7 @@ class CMixtureModel(CDistribution):
         if np.any(nan_indices):
             print(f"CMixtureModel. WARNING! There are {np.count_nonzero(nan_indices)} NaN, negative or "
                   f"zero weights out of {len(weights)}. ", file=sys.stderr)
-            weights[nan_indices] = 0
+            weights = np.where(nan_indices, 0, weights)
 
         # Make sure weights are normalized
         if weights.sum() <= 0:
-- 
2.43.0


From 13eaef6243398e6670a552520b5f8f2f9dcda0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 11/44] fix: mixture density accepts a single point given as a
 1-D vector

---
 .../distributions/mixture/CMixtureModel.py    | 20 ++++---------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/ais_benchmarks/distributions/mixture/CMixtureModel.py b/ais_benchmarks/distributions/mixture/CMixtureModel.py
index 0c9b461..47e620b 100644
--- a/ais_benchmarks/distributions/mixture/CMixtureModel.py
+++ b/ais_benchmarks/distributions/mixture/CMixtureModel.py
@@ -42,14 +42,8 @@ class CMixtureModel(CDistribution):
         self.weights = weights
 
     def log_prob(self, data):
-        if len(data.shape) == 1:
-            data.reshape(-1, 1)
-            llikelihood = np.zeros((len(self.models), 1))
-
-        elif len(data.shape) == 2:
-            llikelihood = np.zeros((len(self.models), len(data)))
-        else:
-            raise ValueError("Unsupported samples data format: " + str(data.shape))
+        data = self._check_shape(data)
+        llikelihood = np.zeros((len(self.models), len(data)))
 
         for i in range(len(self.models)):
             llikelihood[i] = self.models[i].log_prob(data)
@@ -58,14 +52,8 @@ class CMixtureModel(CDistribution):
         return logprob
 
     def prob(self, data):
-        if len(data.shape) == 1:
-            data.reshape(-1, 1)
-            likelihood = np.zeros((len(self.models), 1))
-
-        elif len(data.shape) == 2:
-            likelihood = np.zeros((len(self.models), len(data)))
-        else:
-            raise ValueError("Unsupported samples data format: " + str(data.shape))
+        data = self._check_shape(data)
+        likelihood = np.zeros((len(self.models), len(data)))
 
         for i in range(len(self.models)):
             likelihood[i] = np.exp(self.models[i].log_prob(data).flatten()) * self.weights[i]
-- 
2.43.0


From b4dcd65c6acd3cc20e7c1ec82ca3573f1d7cae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 12/44] fix: Gaussian mixture passes its support values to the
 inner mixture

---
 ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py b/ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py
index ff26239..91bd08a 100644
--- a/ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py
+++ b/ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py
@@ -35,7 +35,7 @@ class CGaussianMixtureModel(CDistribution):
             self.weights = (1.0 / len(self.means)) * np.array([1] * len(self.means))
 
         self.gmm = CMixtureModel({"models": self.models, "weights": self.weights,
-                                  "dims": self.dims, "support": self.support})
+                                  "dims": self.dims, "support": self.support_vals})
 
     def log_prob(self, samples):
         return self.gmm.log_prob(samples)
-- 
2.43.0


From 32b1973d46750a8967b2384c8b72e9adaf4addc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 13/44] fix: kernel density estimate builds its mixture from a
 parameter dictionary

---
 ais_benchmarks/distributions/nonparametric/CKernelDensity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/nonparametric/CKernelDensity.py b/ais_benchmarks/distributions/nonparametric/CKernelDensity.py
index a4da415..e98cc33 100644
--- a/ais_benchmarks/distributions/nonparametric/CKernelDensity.py
+++ b/ais_benchmarks/distributions/nonparametric/CKernelDensity.py
@@ -33,7 +33,8 @@ class CKernelDensity(CDistribution):
         models = []
         for x in self.samples:
             models.append(CKernel(x, self.kernel_bw, self.kernel_f))
-        self.model = CMixtureModel(models, self.weights)
+        self.model = CMixtureModel({"models": models, "weights": self.weights,
+                                    "dims": self.dims, "support": self.support_vals})
 
     def log_prob(self, data):
         return self.model.log_prob(data)
-- 
2.43.0


From 90b2146f4a8bfc2962500b68ddb2a172bd1e3ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 14/44] fix: kernel components return one density value per
 point

---
 ais_benchmarks/distributions/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/distributions.py b/ais_benchmarks/distributions/distributions.py
index 2f98edb..830bec3 100644
--- a/ais_benchmarks/distributions/distributions.py
+++ b/ais_benchmarks/distributions/distributions.py
@@ -316,7 +316,7 @@ class CKernel:
         return np.log(self.prob(x))
 
     def prob(self, x):
-        return self(x)
+        return self(x).flatten()
 
     def __call__(self, x):
         return self.kernel((x - self.loc) * self.bw) * self.bw
-- 
2.43.0


From e359999b668c934680342c14f07d00b55c6c2dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:16 +0000
Subject: [PATCH 15/44] fix: memory metric: reset its value

---
 ais_benchmarks/metrics/performance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ais_benchmarks/metrics/performance.py b/ais_benchmarks/metrics/performance.py
index c975334..88c7d6e 100644
--- a/ais_benchmarks/metrics/performance.py
+++ b/ais_benchmarks/metrics/performance.py
@@ -79,5 +79,6 @@ class CMemoryUsage(CMetric):
         self.mem_ini = 0
         self.mem_end = 0
         self.mem_cum = 0
+        self.value = 0
         gc.collect()
 
-- 
2.43.0


From 07ba5c06cf978ccd03123b33ef6c3b1638ce7bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 16/44] fix: DM-AIS and layered AIS: a batch of a single sample
 is still a batch

---
 ais_benchmarks/sampling_methods/dm_ais.py      | 2 +-
 ais_benchmarks/sampling_methods/layered_ais.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/dm_ais.py b/ais_benchmarks/sampling_methods/dm_ais.py
index 878f5fb..68cbdb3 100644
--- a/ais_benchmarks/sampling_methods/dm_ais.py
+++ b/ais_benchmarks/sampling_methods/dm_ais.py
@@ -66,7 +66,7 @@ class CDeterministicMixtureAIS(CMixtureISSamplingMethod):
                 for _ in range(self.K):
                     s = q.sample()[0]
                     self._num_q_samples += 1
-                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s
+                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s.reshape(1, -1)
 
             # Weight samples
             new_weights = t_tensor([])
diff --git a/ais_benchmarks/sampling_methods/layered_ais.py b/ais_benchmarks/sampling_methods/layered_ais.py
index 7f9162b..f1c3a60 100644
--- a/ais_benchmarks/sampling_methods/layered_ais.py
+++ b/ais_benchmarks/sampling_methods/layered_ais.py
@@ -84,7 +84,7 @@ class CLayeredAIS(CMixtureISSamplingMethod):
                 for _ in range(self.K):
                     s = q.sample()[0]           # Samplers generate samples in a batch. Here we are generating just
                     self._num_q_samples += 1    # one sample and discard the batch dimension
-                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s
+                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s.reshape(1, -1)
 
             # Weight samples
             new_weights = t_tensor([])
-- 
2.43.0


From e316beeede86495438994e31ced1dad7c99b4219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 17/44] fix: benchmark rows keep the effective sample size
 apart from the metrics; no second NESS column in the header

---
 ais_benchmarks/benchmark/CBenchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index 7595023..d72d89c 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -164,7 +164,7 @@ class CBenchmark(object):
         # Enable / disable debug plot save path
         self.debug_plot_save_path = None if not self.debug_plot_save else self.debug_plot_save_path
 
-        cols = "dims output_samples " + " ".join([m for m in self.metrics]) + \
+        cols = "dims output_samples " + " ".join([m for m in self.metrics if m != "NESS"]) + \
                " NESS method target_d accept_rate proposal_samples proposal_evals target_evals\n"
         with open(self.output_file, 'w') as f:
             f.write(cols)
@@ -320,7 +320,7 @@ class CBenchmark(object):
         with open(file, mode='a+') as f:
             text = "%02d %04d " % (target.dims, nsamples)
             text += " ".join(["%9.5f" % val for val in results.values()])
-            text += "%9.3f %s %s %5.3f %d %d %d" % (method.get_NESS(), method.name, target.name,
+            text += " %9.3f %s %s %5.3f %d %d %d" % (method.get_NESS(), method.name, target.name,
                                                     method.get_acceptance_rate(), method.num_proposal_samples,
                                                     method.num_proposal_evals, method.num_target_evals)
             f.write(text + "\n")
-- 
2.43.0


From ff4de6ad141d0f622b5393c4652a2acc8503a066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 18/44] fix: benchmark evaluation accumulates the sampling time
 its time limit refers to

---
 ais_benchmarks/benchmark/CBenchmark.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index d72d89c..bed3d23 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -480,8 +480,10 @@ class CBenchmark(object):
                 [m.pre() for m in metrics_eval]
 
                 # Perform importance sampling operation to generate a batch of samples and compute the time taken
+                t_sampling = time.time()
                 samples_acc, _ = sampling_method.importance_sample(target_d=target_dist, n_samples=n_samples,
                                                                    timeout=max_sampling_time - sampling_time)
+                sampling_time += time.time() - t_sampling
 
                 # Compute metrics right after the sampling operation
                 [m.post() for m in metrics_eval]
-- 
2.43.0


From cbb300358d5bfe684d740ecfccb5f9dd977032c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 19/44] fix: benchmark methods get the space limits without
 rounding

---
 ais_benchmarks/benchmark/CBenchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index bed3d23..f08c591 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -61,8 +61,8 @@ class CBenchmark(object):
         methods = yaml.load(m_yaml, Loader=yaml.SafeLoader)
         for method in methods["methods"]:
 
-            params = ['"space_min":np.array(%s)' % np.array2string(space_min, separator=', '), ",",
-                      '"space_max":np.array(%s)' % np.array2string(space_max, separator=', '), ",",
+            params = ['"space_min":np.array(space_min)', ",",
+                      '"space_max":np.array(space_max)', ",",
                       '"dims":%d' % dims, ","]
 
             for p in method["params"].items():
-- 
2.43.0


From 31f3573c0b29c45386e978574870c45ac4f87d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 20/44] fix: BenchDen benchmark file names its target types as
 the benchmark can find them

---
 .../benchmark/benchden/def_benchmark_benchden.yaml        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml b/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml
index 16143d2..d60be08 100644
--- a/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml
+++ b/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml
@@ -1,7 +1,7 @@
 # Define the target densities used for evaluation and label their categories and provide evaluation parameters
 targets:
     - name: uniform
-      type: distributions.benchden.BenchDenUniform
+      type: BenchDenUniform
       params: {}
       space_size: 2.0
       batch_size: 2
@@ -12,7 +12,7 @@ targets:
       tags: [benchden, low_kurtosis, low_skew]
 
     - name: exponential
-      type: distributions.benchden.BenchDenExponential
+      type: BenchDenExponential
       params: {}
       space_size: 6.0
       batch_size: 2
@@ -23,7 +23,7 @@ targets:
       tags: [benchden, low_kurtosis, low_skew]
 
     - name: maxwell
-      type: distributions.benchden.BenchDenMaxwell
+      type: BenchDenMaxwell
       params: {}
       space_size: 6.0
       batch_size: 2
@@ -34,7 +34,7 @@ targets:
       tags: [benchden, low_kurtosis, low_skew]
 
     - name: laplace
-      type: distributions.benchden.BenchDenLaplace
+      type: BenchDenLaplace
       params: {}
       space_size: 10.0
       batch_size: 2
-- 
2.43.0


From 629b9b4e8fbd793f448061c3e543c21039d96126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 21/44] fix: rejection sampling counts the proposals it draws
 and evaluates, not the samples requested

---
 ais_benchmarks/sampling_methods/rejection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/rejection.py b/ais_benchmarks/sampling_methods/rejection.py
index d4f4aef..e6c58cd 100644
--- a/ais_benchmarks/sampling_methods/rejection.py
+++ b/ais_benchmarks/sampling_methods/rejection.py
@@ -20,13 +20,13 @@ class CRejectionSampling(CMixtureSamplingMethod):
         while t_elapsed < timeout and n_samples > len(self.samples):
             # Generate proposal samples from proposal distribution
             proposals = self.proposal_dist.sample(n_samples - len(self.samples))
-            self._num_q_samples += n_samples
+            self._num_q_samples += len(proposals)
 
             # Obtain the sample likelihood for both the proposal and target distributions
             proposals_prob_q = self.proposal_dist.prob(proposals) * self.scaling
-            self._num_pi_evals += n_samples
+            self._num_pi_evals += len(proposals)
             proposals_prob_p = target_d.prob(proposals)
-            self._num_q_evals += n_samples
+            self._num_q_evals += len(proposals)
 
             # Compute the acceptance ratio
             acceptance_ratio = proposals_prob_p / proposals_prob_q
-- 
2.43.0


From 77e34211ce1a35a7fbb0edc2da7260659ab725f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 22/44] fix: tree pyramid counts the evaluations of its first
 sample

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 573cc9b..5f1c96f 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -444,6 +444,8 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             self.T.samples[self.T.root.node_idx] = self.T.root.coords
             self._num_q_samples += 1
             self.T.root.weigh(target_d, self.T.root.sampler)
+            self._num_pi_evals += 1  # Count the evaluation operation
+            self._num_q_evals += 1  # Count the evaluation operation
             self.T.weights[self.T.root.node_idx] = self.T.root.weight
             self._update_model()
 
-- 
2.43.0


From ecd46132fdd91b6cc919f3073bd632d64e53b65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 23/44] fix: tree pyramid returns every sample of its leaves
 (the samples of one leaf overwrote those of another)

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 5f1c96f..56f9d8c 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -698,10 +698,12 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
 
         samples = np.zeros((nsamples, self.ndims))
         weights = np.zeros(nsamples)
-        for i, l in enumerate(self.T.leaves):
+        i = 0
+        for l in self.T.leaves:
             nsamples_subspace = len(l.weight_hist)
             samples[i:i + nsamples_subspace] = l.coords_hist
             weights[i:i + nsamples_subspace] = l.weight_hist.flatten()
+            i += nsamples_subspace
         return samples[weights > 0], weights[weights > 0]
 
     def _self_normalize(self):
-- 
2.43.0


From 33b930e2220012ca10454e86356534ac19fd7f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 24/44] fix: tree pyramid without an effective sample size
 target

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 56f9d8c..2321b8f 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -689,7 +689,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         return len(self._get_samples()[1])
 
     def _get_samples(self):
-        if self.ess_target > 1.0:
+        if self.ess_target is None or self.ess_target > 1.0:
             return self.T.samples[self.T.leaves_idx], self.T.weights[self.T.leaves_idx]
 
         nsamples = 0
-- 
2.43.0


From 8a3a788acd86dfa643ea1f545908d476b3b297a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 25/44] fix: tree pyramid mixture sampling does not use np.int,
 which numpy removed

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 2321b8f..41dffb5 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -392,7 +392,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             # that will be expanded. Each node split generates 2^k samples. Therefore to obtain N samples we
             # have to split X nodes. N = X*2^k, X = N / 2^k
             n_samples_to_get = n_samples - self._get_nsamples()
-            nodes_to_expand = np.int(np.ceil(n_samples_to_get / 2 ** self.ndims))
+            nodes_to_expand = int(np.ceil(n_samples_to_get / 2 ** self.ndims))
 
             # Obtain N samples
             samples = self.sample(nodes_to_expand)
-- 
2.43.0


From 43710f62858711100dad3d038aadb9e250874e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 26/44] fix: locating a point in the tree pyramid descends the
 tree (infinite recursion)

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 41dffb5..e45064e 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -147,9 +147,7 @@ class CTreePyramid:
         :param prev: node that represents the subspace to search
         :return: node that contains val
         """
-        if prev is None and self.root is None:
-            return None
-        else:
+        if prev is None:
             prev = self.root
 
         if prev.is_leaf():
-- 
2.43.0


From 0c2a21398107496547493e6ce97bd774e5952570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 27/44] fix: nested sampling keeps replacement points inside
 the space

---
 ais_benchmarks/sampling_methods/multi_nested.py | 2 +-
 ais_benchmarks/sampling_methods/nested.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index 16eb834..dc07d84 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -114,7 +114,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         if self.debug:
             print("DEBUG: Ellipsoid volume: %f. Converged: " % ellipsoid.volume, not ellipsoid.volume > ellipsoid_converged_radius**self.ndims)
         while value > new_value and elapsed_time < timeout and ellipsoid.volume > ellipsoid_converged_radius**self.ndims:
-            new_sample = ellipsoid.sample()
+            new_sample = np.clip(ellipsoid.sample(), self.space_min, self.space_max)
             self._num_q_samples += 1
             new_value = pdf.prob(new_sample)
             self._num_pi_evals += 1
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 33160db..853e15a 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -38,7 +38,7 @@ class CNestedSampling(CMixtureSamplingMethod):
         # print("Ellipsoid volume: %f. Converged: " % ellipsoid.volume, not ellipsoid.volume > ellipsoid_converged_radius**self.ndims)
         # while value > new_value and elapsed_time < timeout and ellipsoid.volume > ellipsoid_converged_radius**self.ndims:
         while value > new_value and elapsed_time < timeout:
-            new_sample = self.proposal_dist.sample() + sample
+            new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)
             self._num_q_samples += 1
             new_value = pdf.prob(new_sample)
             self._num_pi_evals += 1
-- 
2.43.0


From 289c58d6d81e586b1cec2206b942b2f00b7eb42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 28/44] fix: effective sample size of the nested samplers with
 zero weights

---
 ais_benchmarks/sampling_methods/multi_nested.py | 3 ++-
 ais_benchmarks/sampling_methods/nested.py       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index dc07d84..eef38fc 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -99,7 +99,8 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         super(CMultiNestedSampling, self).reset()
 
     def get_NESS(self):
-        ESS = np.exp(-np.sum(self.weights * np.log(self.weights)))
+        w = self.weights[self.weights > 0]
+        ESS = np.exp(-np.sum(w * np.log(w)))
         return ESS / len(self.samples)
 
     def resample(self, value, pdf, ellipsoid, timeout=60, ellipsoid_converged_radius=1e-2):
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 853e15a..81eb2cb 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -46,7 +46,8 @@ class CNestedSampling(CMixtureSamplingMethod):
         return new_sample, new_value
 
     def get_NESS(self):
-        ESS = np.exp(-np.sum(self.weights * np.log(self.weights)))
+        w = self.weights[self.weights > 0]
+        ESS = np.exp(-np.sum(w * np.log(w)))
         return ESS / len(self.samples)
 
     def importance_sample(self, target_d, n_samples, timeout=60):
-- 
2.43.0


From cc796febfb334c56d7508a9c811589646a7875ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 29/44] fix: multi-nested sampling returns the requested number
 of samples when it does not divide by the clusters

---
 ais_benchmarks/sampling_methods/multi_nested.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index eef38fc..abbb519 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -198,7 +198,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         clusters, c_ellipsoids = self.recursive_clustering(points, inflate_factor=self.inflate_factor)
 
         # Perform nested sampling on each cluster
-        n_samples_ell = int((n_samples-len(self.samples)) / len(c_ellipsoids))
+        n_samples_ell = int(np.ceil((n_samples-len(self.samples)) / len(c_ellipsoids)))
         n_samples_ell = max(n_samples_ell, 1)
         for idx, c_ellipsoid in enumerate(c_ellipsoids):
             for i in range(n_samples_ell):
-- 
2.43.0


From a74550335c9390b5cbae8c9c3deab770981cba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 30/44] fix: multi-nested sampling forgets its ellipsoids on
 reset

---
 ais_benchmarks/sampling_methods/multi_nested.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index abbb519..e0e6b0e 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -96,6 +96,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         self.live_points = np.random.uniform(0, 1, size=(self.N, len(self.space_max))) * self.range + self.space_min
         self.L = np.array([])
         self.Z = 0
+        self.ellipsoids = []
         super(CMultiNestedSampling, self).reset()
 
     def get_NESS(self):
-- 
2.43.0


From e1fea27cec973d98c06fe93b8f19867defdd9dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 31/44] fix: HiDaisee split: a sample on the splitting plane
 goes to the cell that contains it

---
 ais_benchmarks/sampling_methods/hi_daisee.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/hi_daisee.py b/ais_benchmarks/sampling_methods/hi_daisee.py
index 32c17a8..f0fc2ce 100644
--- a/ais_benchmarks/sampling_methods/hi_daisee.py
+++ b/ais_benchmarks/sampling_methods/hi_daisee.py
@@ -119,7 +119,7 @@ class CHiDaiseeTree:
         # Push the samples from the parent to the children. Because the children have different
         # proposal distributions we have to recompute the weights of existing samples
         for x in n.samples:
-            if x[sel_dim] < n_left.center[sel_dim] + n_left.radius[sel_dim]:
+            if x[sel_dim] <= n_left.center[sel_dim] + n_left.radius[sel_dim]:
                 if n_left.prob(x) <= 0:
                     raise ValueError("pl(x) = %f ; pr(x) = %f " % (n_left.prob(x), n_right.prob(x)))
                 w = target_d.prob(x) / n_left.prob(x)
-- 
2.43.0


From 77c53d7c060c0b2f66fb82c1de0212b7fe4770b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 32/44] fix: Metropolis-Hastings keeps its state when time runs
 out before a move is accepted

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 8c2db6a..94b86b3 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -115,8 +115,9 @@ class CMetropolisHastings(CMixtureSamplingMethod):
 
             self.trajectory_types.append(self.REJECT)
 
-        x_old = x_new
-        self.trajectory_types[-1] = self.ACCEPT
+        if accepted:
+            x_old = x_new
+            self.trajectory_types[-1] = self.ACCEPT
         return x_old
 
     def mcmc(self, n_samples, n_steps, timeout=60):
-- 
2.43.0


From 0fd4aa3735267d448e3911cedad55e97eabe6f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 33/44] fix: Metropolis-Hastings sample(n) generates n samples,
 not n * n

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 94b86b3..4c3f328 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -70,7 +70,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
 
         res = t_tensor([])
         for _ in range(n_samples):
-            sample = self.mcmc(n_samples, self.n_steps, timeout)
+            sample = self.mcmc(1, self.n_steps, timeout)
             res = np.concatenate((res, sample)) if res.size else sample
         return res
 
-- 
2.43.0


From eef4b6b64c2d0981dfdb20f2fa03355924fb4bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 34/44] fix: Metropolis-Hastings starts inside the space, again
 after a reset

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 4c3f328..218b241 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -49,7 +49,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
         self.n_burnin = params["n_burnin"]
         self.target_d = None
         self.bw = np.array([params["kde_bw"]])
-        self.current_sample = self.proposal_d.sample()
+        self.current_sample = np.clip(self.proposal_d.sample(), self.space_min, self.space_max)
         self.is_init = False
         self.trajectory_samples = []
         self.trajectory_types = []  # 0:reject 1:accept 2:burn_in 3:decorrelation 4:sample
@@ -76,6 +76,8 @@ class CMetropolisHastings(CMixtureSamplingMethod):
 
     def reset(self):
         super(self.__class__, self).reset()
+        self.target_d = None
+        self.current_sample = np.clip(self.proposal_d.sample(), self.space_min, self.space_max)
         self.is_init = False
         self.trajectory_samples = []
         self.trajectory_types = []
-- 
2.43.0


From 136fdd0245581b300a129e7d82d29eefc464333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 35/44] fix: mixture PMC updates covariances with the weighted
 average of the outer products of deviations

---
 ais_benchmarks/sampling_methods/m_pmc.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/m_pmc.py b/ais_benchmarks/sampling_methods/m_pmc.py
index b6002cf..9d3ce69 100644
--- a/ais_benchmarks/sampling_methods/m_pmc.py
+++ b/ais_benchmarks/sampling_methods/m_pmc.py
@@ -61,14 +61,11 @@ class CMixturePMC(CMixtureISSamplingMethod):
             mu = np.sum(weights.reshape(-1, 1) * posteriors[d].reshape(-1, 1) * samples, axis=0) / self.wproposals[d]
 
             # Covariance eq. 14.3
-            cov_val = (samples - mu).T @ (samples - mu)
-            cov = np.zeros_like(cov_val)
-            for i in range(self.K):
-                cov += weights[i] * posteriors[d][i] * cov_val
-            cov /= self.wproposals[d]
+            dev = samples - mu
+            cov = ((weights * posteriors[d]).reshape(-1, 1) * dev).T @ dev / self.wproposals[d]
 
             # TODO: Remove this failsafe for collapsing or exploding covariances
-            if np.any(np.isnan(cov)) or np.any(cov > 10):
+            if not np.all(np.isfinite(cov)) or np.any(cov > 10) or np.linalg.det(cov) <= 0:
                 cov = np.diag(np.ones(self.ndims)*10)
 
             self.proposals[d].set_moments(mu, cov)
-- 
2.43.0


From 8dab70581cbb9aeba67bee2af59642cb8fda3c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 36/44] fix: DM-AIS keeps its proposals when a whole batch has
 zero weight

---
 ais_benchmarks/sampling_methods/dm_ais.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/dm_ais.py b/ais_benchmarks/sampling_methods/dm_ais.py
index 68cbdb3..1aaa717 100644
--- a/ais_benchmarks/sampling_methods/dm_ais.py
+++ b/ais_benchmarks/sampling_methods/dm_ais.py
@@ -45,6 +45,10 @@ class CDeterministicMixtureAIS(CMixtureISSamplingMethod):
                                     "dims": self.ndims, "support": [self.space_min, self.space_max]})
 
     def resample(self, samples, weights):
+        # Nothing to resample from if no sample hit the target's support
+        if weights.sum() <= 0:
+            return
+
         # Normalize weights
         norm_weights = weights / weights.sum()
 
-- 
2.43.0


From 21eba7ad843db21d44707ff54a702631b6e13f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 37/44] fix: mixture PMC keeps its proposals and weights finite
 when a whole batch has zero weight

---
 ais_benchmarks/sampling_methods/m_pmc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/m_pmc.py b/ais_benchmarks/sampling_methods/m_pmc.py
index 9d3ce69..90a5078 100644
--- a/ais_benchmarks/sampling_methods/m_pmc.py
+++ b/ais_benchmarks/sampling_methods/m_pmc.py
@@ -102,10 +102,10 @@ class CMixturePMC(CMixtureISSamplingMethod):
                     rho[d][i] = np.exp(np.log(alpha_d) + q_d - q_x)
                     self._num_q_evals += 1
 
-            new_weights = new_weights / new_weights.sum()
-
-            # Adaptation
-            self.adapt(new_samples, new_weights, rho)
+            # Adaptation. Nothing to adapt to if no sample hit the target's support
+            if new_weights.sum() > 0:
+                new_weights = new_weights / new_weights.sum()
+                self.adapt(new_samples, new_weights, rho)
 
             self.samples = np.concatenate((self.samples, new_samples)) if self.samples.size else new_samples
             self.weights = np.concatenate((self.weights, new_weights)) if self.weights.size else new_weights
-- 
2.43.0


From a2f5785cae635c4c957e86dd163d980b2dd3f19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 38/44] fix: Metropolis-Hastings does not fail when time runs
 out before the first step

---
 .../sampling_methods/metropolis_hastings.py           | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 218b241..5c35730 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -65,7 +65,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
         if not self.is_init:
             for _ in range(self.n_burnin):
                 self.current_sample = self.mcmc_step(self.current_sample)
-                self.trajectory_types[-1] = self.BURN_IN
+                self._mark_step(self.BURN_IN)
             self.is_init = True
 
         res = t_tensor([])
@@ -82,6 +82,11 @@ class CMetropolisHastings(CMixtureSamplingMethod):
         self.trajectory_samples = []
         self.trajectory_types = []
 
+    def _mark_step(self, step_type):
+        # There is no step to mark if time ran out before the first one
+        if self.trajectory_types:
+            self.trajectory_types[-1] = step_type
+
     def mcmc_step(self, x_old, timeout=60):
         accepted = False
         t_elapsed = 0
@@ -129,8 +134,8 @@ class CMetropolisHastings(CMixtureSamplingMethod):
             for _ in range(n_steps):
                 t_elapsed = time.time() - t_ini
                 self.current_sample = self.mcmc_step(self.current_sample, timeout=timeout-t_elapsed)
-                self.trajectory_types[-1] = self.DECORRELATION
-            self.trajectory_types[-1] = self.SAMPLE
+                self._mark_step(self.DECORRELATION)
+            self._mark_step(self.SAMPLE)
             samples = np.concatenate((samples, self.current_sample)) if samples.size else self.current_sample
         return samples
 
-- 
2.43.0


From d6c25f97dd68453056d23e5069c00219d87ba155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 39/44] fix: tree pyramid: new leaves have their share of the
 parent's weight in the tree's weights (infinite mixture weights)

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index e45064e..da91c32 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -220,7 +220,7 @@ class CTreePyramid:
 
         # Expand cached samples, weights and leaf indices
         self.samples = np.concatenate((self.samples, np.zeros((len(new_nodes), self.ndims))))
-        self.weights = np.concatenate((self.weights, np.zeros(len(new_nodes))))
+        self.weights = np.concatenate((self.weights, np.full(len(new_nodes), self.weights[node.node_idx] / len(new_nodes))))
 
         # The new nodes are all children of the expanding node which is no longer a leaf
         self.leaves_idx[node.node_idx] = False
-- 
2.43.0


From 6665d3336ba29b3d2824a29a3ae8d464f74fecd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 40/44] fix: tree pyramid: rounding of cell limits does not
 make a point of the space impossible to locate

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index da91c32..1b330eb 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -93,11 +93,11 @@ class CTreePyramidNode:
         :param val: Value used to determine the children that contains it
         :return: children node that contains val
         """
-        for c in self.children:
-            min_val = c.center - c.radius
-            max_val = c.center + c.radius
-            if np.all(min_val <= val) and np.all(val <= max_val):
-                return c
+        # The children are hypercubes of the same size, the one that contains val is the one with the closest center
+        c = min(self.children, key=lambda child: np.max(np.abs(val - child.center)))
+        rounding = 1e-9 * (np.abs(c.center) + c.radius)
+        if np.all(np.abs(val - c.center) <= c.radius + rounding):
+            return c
         raise ValueError("Children value not found.")
 
     def __lt__(self, other):
-- 
2.43.0


From 3df076e8c57bf767f14f669282b7637287b97ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 41/44] fix: rejection sampling does not fail when time runs
 out before a sample is accepted

---
 ais_benchmarks/sampling_methods/rejection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/rejection.py b/ais_benchmarks/sampling_methods/rejection.py
index e6c58cd..168db1e 100644
--- a/ais_benchmarks/sampling_methods/rejection.py
+++ b/ais_benchmarks/sampling_methods/rejection.py
@@ -47,7 +47,8 @@ class CRejectionSampling(CMixtureSamplingMethod):
 
         # Return the accepted samples
         self.weights = np.ones_like(self.weights) * 1 / len(self.weights)
-        self._update_model()
+        if len(self.samples) > 0:
+            self._update_model()
         return self.samples, self.weights
 
     def draw(self, ax):
-- 
2.43.0


From 56f1e4e458d9e602cc19b79aea0f70a9640f4f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 42/44] fix: mixture PMC: a component without posterior mass
 keeps its parameters (NaN spread to all components)

---
 ais_benchmarks/sampling_methods/m_pmc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/m_pmc.py b/ais_benchmarks/sampling_methods/m_pmc.py
index 90a5078..990bea8 100644
--- a/ais_benchmarks/sampling_methods/m_pmc.py
+++ b/ais_benchmarks/sampling_methods/m_pmc.py
@@ -56,6 +56,10 @@ class CMixturePMC(CMixtureISSamplingMethod):
             # Update mixture weights (alpha_d) eq. 14.1 (Rao-Blackwellised version)
             self.wproposals[d] = np.sum(weights * posteriors[d])
 
+            # A component that explains none of the samples has nothing to adapt to
+            if self.wproposals[d] <= 0:
+                continue
+
             # Update proposal parameters (gaussian proposal)
             # Mean eq. 14.2
             mu = np.sum(weights.reshape(-1, 1) * posteriors[d].reshape(-1, 1) * samples, axis=0) / self.wproposals[d]
-- 
2.43.0


From cd598b9d30d527ace5c079d236613ad4d0360505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 43/44] fix: nested sampling: the first sample is the point of
 lowest density, not the point that replaces it

---
 ais_benchmarks/sampling_methods/multi_nested.py | 2 +-
 ais_benchmarks/sampling_methods/nested.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index e0e6b0e..3f6cce7 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -210,7 +210,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
                 assert len(g_indices) > 0
 
                 min_idx = g_indices[np.argmin(values[c_ellipsoid.indices])]
-                self.samples = np.vstack((self.samples, points[min_idx])) if self.samples.size else points[min_idx].reshape(1,-1)
+                self.samples = np.vstack((self.samples, points[min_idx])) if self.samples.size else points[min_idx].reshape(1,-1).copy()
 
                 # Keep the likelihood value associated with the sample
                 self.L = np.concatenate((self.L, np.array([Lmin]))) if self.L.size else np.array([Lmin])
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 81eb2cb..8ed62e7 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -58,7 +58,7 @@ class CNestedSampling(CMixtureSamplingMethod):
             # Add the point with lowest likelihood to the resulting sample set
             Lmin = np.min(values)
             min_idx = np.argmin(values)
-            self.samples = np.vstack((self.samples, self.live_points[min_idx])) if self.samples.size else self.live_points[min_idx].reshape(1, -1)
+            self.samples = np.vstack((self.samples, self.live_points[min_idx])) if self.samples.size else self.live_points[min_idx].reshape(1, -1).copy()
 
             # Keep the likelihood value associated with the sample
             self.L = np.concatenate((self.L, np.array([Lmin]))) if self.L.size else np.array([Lmin])
-- 
2.43.0


From e5ba4198e22a8414e9bbe552e1121958f12b3876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 44/44] Undo changes to the benchmark files

---
 ais_benchmarks/benchmark/CBenchmark.py                 | 10 ++++------
 .../benchmark/benchden/def_benchmark_benchden.yaml     |  8 ++++----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index f08c591..7595023 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -61,8 +61,8 @@ class CBenchmark(object):
         methods = yaml.load(m_yaml, Loader=yaml.SafeLoader)
         for method in methods["methods"]:
 
-            params = ['"space_min":np.array(space_min)', ",",
-                      '"space_max":np.array(space_max)', ",",
+            params = ['"space_min":np.array(%s)' % np.array2string(space_min, separator=', '), ",",
+                      '"space_max":np.array(%s)' % np.array2string(space_max, separator=', '), ",",
                       '"dims":%d' % dims, ","]
 
             for p in method["params"].items():
@@ -164,7 +164,7 @@ class CBenchmark(object):
         # Enable / disable debug plot save path
         self.debug_plot_save_path = None if not self.debug_plot_save else self.debug_plot_save_path
 
-        cols = "dims output_samples " + " ".join([m for m in self.metrics if m != "NESS"]) + \
+        cols = "dims output_samples " + " ".join([m for m in self.metrics]) + \
                " NESS method target_d accept_rate proposal_samples proposal_evals target_evals\n"
         with open(self.output_file, 'w') as f:
             f.write(cols)
@@ -320,7 +320,7 @@ class CBenchmark(object):
         with open(file, mode='a+') as f:
             text = "%02d %04d " % (target.dims, nsamples)
             text += " ".join(["%9.5f" % val for val in results.values()])
-            text += " %9.3f %s %s %5.3f %d %d %d" % (method.get_NESS(), method.name, target.name,
+            text += "%9.3f %s %s %5.3f %d %d %d" % (method.get_NESS(), method.name, target.name,
                                                     method.get_acceptance_rate(), method.num_proposal_samples,
                                                     method.num_proposal_evals, method.num_target_evals)
             f.write(text + "\n")
@@ -480,10 +480,8 @@ class CBenchmark(object):
                 [m.pre() for m in metrics_eval]
 
                 # Perform importance sampling operation to generate a batch of samples and compute the time taken
-                t_sampling = time.time()
                 samples_acc, _ = sampling_method.importance_sample(target_d=target_dist, n_samples=n_samples,
                                                                    timeout=max_sampling_time - sampling_time)
-                sampling_time += time.time() - t_sampling
 
                 # Compute metrics right after the sampling operation
                 [m.post() for m in metrics_eval]
diff --git a/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml b/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml
index d60be08..16143d2 100644
--- a/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml
+++ b/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml
@@ -1,7 +1,7 @@
 # Define the target densities used for evaluation and label their categories and provide evaluation parameters
 targets:
     - name: uniform
-      type: BenchDenUniform
+      type: distributions.benchden.BenchDenUniform
       params: {}
       space_size: 2.0
       batch_size: 2
@@ -12,7 +12,7 @@ targets:
       tags: [benchden, low_kurtosis, low_skew]
 
     - name: exponential
-      type: BenchDenExponential
+      type: distributions.benchden.BenchDenExponential
       params: {}
       space_size: 6.0
       batch_size: 2
@@ -23,7 +23,7 @@ targets:
       tags: [benchden, low_kurtosis, low_skew]
 
     - name: maxwell
-      type: BenchDenMaxwell
+      type: distributions.benchden.BenchDenMaxwell
       params: {}
       space_size: 6.0
       batch_size: 2
@@ -34,7 +34,7 @@ targets:
       tags: [benchden, low_kurtosis, low_skew]
 
     - name: laplace
-      type: BenchDenLaplace
+      type: distributions.benchden.BenchDenLaplace
       params: {}
       space_size: 10.0
       batch_size: 2
-- 
2.43.0

