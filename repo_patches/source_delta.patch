From df119efcb124a1a7ac6ed28446015fdf434ce389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 01/51] fix: fit() no longer writes fixed values into the
 caller's or the model's start values

---
 src/spey/optimizer/core.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/spey/optimizer/core.py b/src/spey/optimizer/core.py
index c7fe0cb..3573eb3 100644
--- a/src/spey/optimizer/core.py
+++ b/src/spey/optimizer/core.py
@@ -89,11 +89,16 @@ def fit(
         provided) and the corresponding fit parameter vector.
     """
 
-    init_pars = (
-        initial_parameters
-        if isinstance(initial_parameters, (list, tuple, np.ndarray))
-        else model_configuration.suggested_init
-    )
+    # Always work on a float copy: the fixed values are written into this list below
+    # and neither the caller's container nor the configuration may be modified.
+    init_pars = [
+        float(par)
+        for par in (
+            initial_parameters
+            if isinstance(initial_parameters, (list, tuple, np.ndarray))
+            else model_configuration.suggested_init
+        )
+    ]
 
     if bounds is not None:
         par_bounds = [*bounds]
-- 
2.43.0


From b4cc8e95b88a9e4514217758ac1f62b0a2822064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 02/51] fix: prepare_for_fit copies the caller's constraints
 list instead of extending it

---
 src/spey/interface/statistical_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index 19b7384..4bf473f 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -417,7 +417,8 @@ class StatisticalModel(HypothesisTestingBase):
                 expected=expected, data=data, do_grad=do_grad
             )
 
-        constraints = kwargs.pop("constraints", [])
+        # copy, so that the caller's list does not grow with every fit
+        constraints = list(kwargs.pop("constraints", None) or [])
         if hasattr(self.backend, "constraints"):
             for constraint in self.backend.constraints:
                 constraints.append(constraint)
-- 
2.43.0


From 3c673e80306333ad1b3b25ed93b27d7321f8f9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 03/51] fix: rescale_poi_bounds returns a plain interval when
 no upper bound is given

---
 src/spey/base/model_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 65043b9..8415da2 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -187,6 +187,6 @@ class ModelConfig:
         else:
             bounds[self.poi_index] = (
                 self.minimum_poi if allow_negative_signal else 0.0,
-                bounds[self.poi_index],
+                bounds[self.poi_index][1],
             )
         return bounds
-- 
2.43.0


From 4be6548d01d94d64c3d0225076734c6aed9e3446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 04/51] fix: bounds for several fixed parameters contain the
 fixed value of non-signal parameters

---
 src/spey/base/model_config.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 8415da2..a1c3f5e 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -145,10 +145,11 @@ class ModelConfig:
             if any(b is None for b in bounds[idx]):
                 continue
             if not bounds[idx][0] < val < bounds[idx][1]:
-                bounds[idx] = (
-                    self.minimum_poi if val < 0.0 else 0.0,
-                    val + 1,
-                )
+                lower = self.minimum_poi if val < 0.0 else 0.0
+                if idx != self.poi_index:
+                    # minimum_poi only limits the parameter of interest
+                    lower = min(bounds[idx][0], val)
+                bounds[idx] = (lower, max(val + 1, lower))
         return bounds
 
     def change_parameter_names(self, name_map: Dict[str, str]) -> None:
-- 
2.43.0


From e7b8f06623c45d705cebb6a1eb7c6dcaf46b97f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 05/51] fix: optimiser retries accept open bounds and never
 shrink them

---
 src/spey/optimizer/scipy_tools.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/spey/optimizer/scipy_tools.py b/src/spey/optimizer/scipy_tools.py
index 6e99af2..9435953 100644
--- a/src/spey/optimizer/scipy_tools.py
+++ b/src/spey/optimizer/scipy_tools.py
@@ -119,11 +119,14 @@ def minimize(
             log.warning("Optimiser has not been able to satisfy all the conditions:")
             log.warning(opt.message + " Expanding the bounds...")
             init_pars = list(opt.x)
-            for bdx, bound in enumerate(bounds):
-                if bdx == poi_index:
-                    bounds[bdx] = (bound[0], bound[1] * 2.0)
-                else:
-                    bounds[bdx] = (min(bound[0], bound[0] * 10.0), bound[1] * 10.0)
+            for bdx, (lower, upper) in enumerate(bounds or []):
+                # ``None`` stands for an open side, there is nothing to expand
+                scale = 2.0 if bdx == poi_index else 10.0
+                if lower is not None and bdx != poi_index:
+                    lower = min(lower, lower * scale)
+                if upper is not None:
+                    upper = max(upper, upper * scale)
+                bounds[bdx] = (lower, upper)
         elif opt.success:
             break
 
-- 
2.43.0


From eb16b2a0e0a2ab2090ad095950fa6c09793139fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 06/51] fix: a custom signal upper bound no longer forbids
 negative signals

---
 src/spey/backends/default_pdf/__init__.py   | 8 +++++++-
 src/spey/backends/default_pdf/simple_pdf.py | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/spey/backends/default_pdf/__init__.py b/src/spey/backends/default_pdf/__init__.py
index 1eaeb4f..9dc6765 100644
--- a/src/spey/backends/default_pdf/__init__.py
+++ b/src/spey/backends/default_pdf/__init__.py
@@ -431,7 +431,13 @@ class DefaultPDFBase(BackendBase):
             self._config.poi_index,
             self._config.minimum_poi,
             self._config.suggested_init,
-            [(0, poi_upper_bound)] + self._config.suggested_bounds[1:],
+            [
+                (
+                    self._config.minimum_poi if allow_negative_signal else 0.0,
+                    poi_upper_bound,
+                )
+            ]
+            + self._config.suggested_bounds[1:],
             parameter_names=self._config.parameter_names,
         )
 
diff --git a/src/spey/backends/default_pdf/simple_pdf.py b/src/spey/backends/default_pdf/simple_pdf.py
index 8fefd8f..1df72f2 100644
--- a/src/spey/backends/default_pdf/simple_pdf.py
+++ b/src/spey/backends/default_pdf/simple_pdf.py
@@ -265,7 +265,13 @@ class SimplePDFBase(BackendBase):
             self._config.poi_index,
             self._config.minimum_poi,
             self._config.suggested_init,
-            [(0, poi_upper_bound)] + extra_bounds,
+            [
+                (
+                    self._config.minimum_poi if allow_negative_signal else 0.0,
+                    poi_upper_bound,
+                )
+            ]
+            + extra_bounds,
             parameter_names=self._config.parameter_names,
         )
 
-- 
2.43.0


From 37c8dfe7b7e6d40c0194ed50c8a71b9af2a91697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 07/51] fix: positivity constraint of default.poisson uses the
 absolute uncertainties

---
 src/spey/backends/default_pdf/simple_pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/backends/default_pdf/simple_pdf.py b/src/spey/backends/default_pdf/simple_pdf.py
index 1df72f2..f9f609a 100644
--- a/src/spey/backends/default_pdf/simple_pdf.py
+++ b/src/spey/backends/default_pdf/simple_pdf.py
@@ -610,7 +610,7 @@ class Poisson(SimplePDFBase):
                 """Compute the constraint term"""
                 return (
                     self.background_yields
-                    + pars[slice(1, len(self.data) + 1)] * self.background_yields
+                    + pars[slice(1, len(self.data) + 1)] * self.absolute_uncertainties
                 )
 
             jac_constr = jacobian(constraint)
-- 
2.43.0


From b2e46f44b7ddc7e4bb2de13b531982208ed1463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 08/51] fix: find_most_sensitive indexes the combination with a
 plain integer

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index d765803..2dbf692 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -378,7 +378,7 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
             :class:`~spey.StatisticalModel`:
             The model with the minimum value of :attr:`~spey.StatisticalModel.s95exp`.
         """
-        return self[np.argmin([model.s95exp for model in self])]
+        return self[int(np.argmin([model.s95exp for model in self]))]
 
     def likelihood(
         self,
-- 
2.43.0


From ad83a92fde896e824f17df4b683b172408463c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 09/51] fix: chi2 scans are computed in double precision

---
 src/spey/base/hypotest_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 86083bb..709ae1b 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -633,7 +633,7 @@ class HypothesisTestingBase(ABC):
                         )
                         for p in poi_test
                     ),
-                    np.float32,
+                    np.float64,
                 )
         if isinstance(poi_test, dict):
             scan_list = [
@@ -641,7 +641,7 @@ class HypothesisTestingBase(ABC):
             ]
             if len(scan_list) == 1:
                 poi_list = np.atleast_1d(poi_test[scan_list[0]])
-                llhd = np.empty(len(poi_list), dtype=np.float32)
+                llhd = np.empty(len(poi_list), dtype=np.float64)
                 with capture_logs(logging.INFO) as _:
                     current_poi_test = poi_test.copy()
                     for i, param in enumerate(poi_list):
-- 
2.43.0


From ba4d91e33d1750ba22b7f090ef1814ba61b30417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 10/51] fix: sigma_mu accepts integer signal strengths

---
 src/spey/base/hypotest_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 709ae1b..ca25a81 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -889,7 +889,7 @@ class HypothesisTestingBase(ABC):
 
         def logpdf_asimov(mu: Union[float, np.ndarray]) -> float:
             return -self.asimov_likelihood(
-                poi_test=mu if isinstance(mu, float) else mu[0],
+                poi_test=float(mu if np.isscalar(mu) else mu[0]),
                 expected=expected,
                 test_statistics=test_statistics,
                 **kwargs,
-- 
2.43.0


From 97643ef83de0fa584b8f9e5710cb8bc3ccd7a31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 11/51] fix: third moment correlation no longer loses precision
 for large or vanishing C

---
 src/spey/backends/default_pdf/third_moment.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/spey/backends/default_pdf/third_moment.py b/src/spey/backends/default_pdf/third_moment.py
index bfd371b..6c175da 100644
--- a/src/spey/backends/default_pdf/third_moment.py
+++ b/src/spey/backends/default_pdf/third_moment.py
@@ -153,8 +153,9 @@ def third_moment_expansion(
         \rho_{ij} = \frac{1}{4C_i C_j}
         \left(\sqrt{(B_i B_j)^2 + 8\,C_i C_j\,\Sigma_{ij}} - B_i B_j\right).
 
-    A small regularisation :math:`\varepsilon = 10^{-5}` is added to :math:`C_i`
-    in the denominator to avoid division by zero when :math:`C_i = 0`.
+    which is evaluated in the equivalent form
+    :math:`2\Sigma_{ij} / (B_i B_j + \sqrt{(B_i B_j)^2 + 8\,C_i C_j\,\Sigma_{ij}})`, so
+    that it remains well defined when :math:`C_i = 0`.
 
     .. attention::
 
@@ -209,21 +210,22 @@ def third_moment_expansion(
     log.debug(f"A: {A}")
 
     # arXiv:1809.05548 eq. 2.12
-    eps = 1e-5
     if return_correlation_matrix:
         corr = np.zeros((C.shape[0], C.shape[0]))
         for i in range(corr.shape[0]):
             for j in range(corr.shape[0]):
-                ci = C[i] + eps if C[i] >= 0 else C[i] - eps
-                cj = C[j] + eps if C[j] >= 0 else C[j] - eps
-                cicj = ci * cj
+                cicj = C[i] * C[j]
                 bibj = B[i] * B[j]
 
                 discr1 = bibj**2
                 discr2 = 8 * cicj * covariance_matrix[i, j]
                 discr = discr1 + discr2
 
-                corr[i, j] = (np.sqrt(abs(discr)) - bibj) / 4 / cicj
+                # (sqrt(discr) - bibj) / 4 / cicj, rationalised so that it is well
+                # defined for vanishing C and does not cancel for large yields
+                denominator = bibj + np.sqrt(abs(discr))
+                if denominator > 0.0:
+                    corr[i, j] = 2.0 * covariance_matrix[i, j] / denominator
 
                 if i != j:
                     corr[j, i] = corr[i, j]
-- 
2.43.0


From 38d07fffdaa90c30fec9a509073f54353b4db363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 12/51] fix: static covariance main model does not share its
 mean between evaluations

---
 src/spey/backends/distributions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index cd34f2e..532d9ce 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -1,5 +1,6 @@
 """Autograd based differentiable distribution classes"""
 
+import copy
 import logging
 from typing import Any, Callable, Dict, List, Literal, Union
 
@@ -200,13 +201,15 @@ class MainModel:
             else:
                 # Non-callable cov: inv(cov) and logdet(cov) are constant.
                 # Create a single MultivariateNormal once so those O(n³) ops run
-                # exactly once at construction time.  Each call only updates the
-                # mean (loc(pars)) in-place; _inv_cov and _logdet_cov stay cached.
+                # exactly once at construction time.  Each call gets a shallow copy
+                # with its own mean (loc(pars)), since the main model can be evaluated
+                # from several threads; _inv_cov and _logdet_cov stay cached.
                 _mv = MultivariateNormal(mean=np.zeros(len(cov)), cov=cov)
 
                 def _static_cov_pdf(pars):
-                    _mv.mean = loc(pars)
-                    return _mv
+                    mvn = copy.copy(_mv)
+                    mvn.mean = loc(pars)
+                    return mvn
 
                 self._pdf = _static_cov_pdf
         else:
-- 
2.43.0


From 79c1633f2f50dabb0700ec99d3e8a4221e79a32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 13/51] fix: log-determinant of a parametric covariance matrix
 may be negative

---
 src/spey/backends/distributions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index 532d9ce..227d801 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -126,9 +126,7 @@ class MultivariateNormal:
 
         if callable(cov):
             self._inv_cov = lambda val: np.linalg.inv(cov(val))
-            self._logdet_cov = lambda val: np.clip(
-                np.linalg.slogdet(cov(val))[1], 1e-20, None
-            )
+            self._logdet_cov = lambda val: np.linalg.slogdet(cov(val))[1]
         else:
             # for code efficiency
             inv = np.linalg.inv(cov)
-- 
2.43.0


From 15d71013dcc359a831e45bfbb030968bc26c54fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 14/51] fix: sampling models with signal modifiers evaluates
 the constraint at the full parameter vector

---
 src/spey/backends/default_pdf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/backends/default_pdf/__init__.py b/src/spey/backends/default_pdf/__init__.py
index 9dc6765..4675b43 100644
--- a/src/spey/backends/default_pdf/__init__.py
+++ b/src/spey/backends/default_pdf/__init__.py
@@ -739,7 +739,7 @@ class DefaultPDFBase(BackendBase):
             sample = self.main_model.sample(pars, sample_size)
 
             if include_auxiliary:
-                constraint_sample = self.constraint_model.sample(pars[1:], sample_size)
+                constraint_sample = self.constraint_model.sample(pars, sample_size)
                 sample = np.hstack([sample, constraint_sample])
 
             return sample
-- 
2.43.0


From f527c3e3f64299ca2182d6357e47964f0648f79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 15/51] fix: samples of single bin or single size multivariate
 normal keep their shape

---
 src/spey/backends/distributions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index 227d801..22eff75 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -146,8 +146,12 @@ class MultivariateNormal:
 
     def sample(self, value: np.ndarray, sample_size: int) -> np.ndarray:
         """Generate samples"""
-        return multivariate_normal(self.mean, self.cov(value[self.domain])).rvs(
-            size=(sample_size,)
+        # rvs drops axes of length one, i.e. single bin or single sample
+        return np.reshape(
+            multivariate_normal(self.mean, self.cov(value[self.domain])).rvs(
+                size=(sample_size,)
+            ),
+            (sample_size, len(self.mean)),
         )
 
     def log_prob(self, value: np.ndarray) -> np.ndarray:
-- 
2.43.0


From e172a5f12cd16ed674ffa66632cbbc5af7f41afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 16/51] fix: captured log messages are delivered when the block
 raises

---
 src/spey/system/logger.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/spey/system/logger.py b/src/spey/system/logger.py
index 43218eb..08b124c 100644
--- a/src/spey/system/logger.py
+++ b/src/spey/system/logger.py
@@ -143,13 +143,6 @@ def capture_logs(level: int = logging.DEBUG, stream=None):
 
     try:
         yield
-        # Write unique messages to the provided stream
-        for m in records:
-            stream.write(m + "\n")
-        try:
-            stream.flush()
-        except Exception:
-            pass
     finally:
         spey_logger.removeHandler(handler)
         spey_logger.setLevel(prev_level)
@@ -157,3 +150,10 @@ def capture_logs(level: int = logging.DEBUG, stream=None):
         # Restore original handlers
         for h in prev_handlers:
             spey_logger.addHandler(h)
+        # Write unique messages to the provided stream
+        for m in records:
+            stream.write(m + "\n")
+        try:
+            stream.flush()
+        except Exception:
+            pass
-- 
2.43.0


From f567d27619356089228b99eafa8594d79c6151d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 17/51] fix: ColoredFormatter does not modify the record shared
 with other handlers

---
 src/spey/system/logger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spey/system/logger.py b/src/spey/system/logger.py
index 08b124c..db41b71 100644
--- a/src/spey/system/logger.py
+++ b/src/spey/system/logger.py
@@ -1,4 +1,5 @@
 """Logging style for spey"""
+import copy
 import logging
 import sys
 from contextlib import contextmanager
@@ -36,6 +37,8 @@ class ColoredFormatter(logging.Formatter):
         else:  # ANYTHING ELSE
             color = "\x1b[0mSpey: "
 
+        # other handlers receive the same record, it must not be modified
+        record = copy.copy(record)
         record.msg = color + str(record.msg) + "\x1b[0m"
         return logging.Formatter.format(self, record)
 
-- 
2.43.0


From d02bd5c93e19241c14e56fe534a7bb214b569d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:37 +0000
Subject: [PATCH 18/51] fix: backends registered at run time can be retrieved
 and described

---
 src/spey/__init__.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/spey/__init__.py b/src/spey/__init__.py
index 129d39a..4d36bad 100644
--- a/src/spey/__init__.py
+++ b/src/spey/__init__.py
@@ -269,11 +269,8 @@ def get_backend(name: str) -> Callable[[Any], StatisticalModel]:
     backend = _backend_entries.get(name, False)
 
     if backend:
-        statistical_model = (
-            backend
-            if isinstance(backend, (BackendBase, ConverterBase))
-            else backend.load()
-        )
+        # locally registered backends are classes, installed ones are entry points
+        statistical_model = backend if isinstance(backend, type) else backend.load()
 
         assert hasattr(
             statistical_model, "spey_requires"
@@ -348,7 +345,7 @@ def get_backend_metadata(name: str) -> Dict[str, Any]:
     backend = _backend_entries.get(name, False)
 
     if backend:
-        statistical_model = backend.load()
+        statistical_model = backend if isinstance(backend, type) else backend.load()
         return {
             "name": getattr(statistical_model, "name", "__unknown_model__"),
             "author": getattr(statistical_model, "author", "__unknown_author__"),
-- 
2.43.0


From 626fe5386c6d2f571328f5e3885d8f18ea560792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 19/51] fix: contour threshold is half the chi-square quantile
 above the minimum, as documented

---
 src/spey/multiparameter/contour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index f6bbf79..d6719d8 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -675,7 +675,7 @@ def find_contour(
     # DoF = k = number of contour parameters (profiled params are not DoF)
     # ------------------------------------------------------------------
     delta = float(chi2_dist.ppf(confidence_level, df=k))
-    threshold = nll_min + delta
+    threshold = nll_min + delta / 2.0
     log.debug("delta(chi2, df=%d) = %.4f, NLL threshold = %.6f", k, delta, threshold)
 
     # A basin contributes to the confidence region iff its NLL is below the
-- 
2.43.0


From 0dd64c2b7370a4ca6484ff69fafbc10c682a9499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 20/51] fix: merge_correlated_bins rejects overlapping groups

---
 src/spey/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/helper_functions.py b/src/spey/helper_functions.py
index 61a02b0..b22c553 100644
--- a/src/spey/helper_functions.py
+++ b/src/spey/helper_functions.py
@@ -185,7 +185,7 @@ def merge_correlated_bins(
     N = covariance_matrix.shape[0]
 
     # Flatten merge_groups and find missing indices
-    merged_indices = sorted({i for g in merge_groups for i in g})
+    merged_indices = sorted(i for g in merge_groups for i in g)
     assert len(set(merged_indices)) == len(
         merged_indices
     ), "Overlapping indices in merge_groups"
-- 
2.43.0


From a5819285dec28b197a2af2be75a3c594d7e69702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 21/51] fix: cache keys for mixed-type, nested and object
 arguments

---
 src/spey/system/cache.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index e744fbd..4e46dc7 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -16,7 +16,7 @@ Each argument is converted to a *hashable token* via :func:`_make_token`:
   SHA-256 hash of the raw buffer so the key captures the full content
   without retaining a copy of the array bytes.
 * ``list`` / ``tuple`` -> recursively tokenised element-by-element.
-* ``dict`` -> sorted-items tuple of ``(key_token, value_token)`` pairs.
+* ``dict`` -> unordered set of ``(key_token, value_token)`` pairs.
 * Anything else -> falls back to ``repr()``.
 
 The final key is a ``(args_token, sorted_kwargs_token)`` tuple that is
@@ -92,15 +92,23 @@ def _make_token(obj: Any) -> Any:
     if isinstance(obj, np.ndarray):
         # Hash the raw buffer content (O(n) time, O(1) space) instead of
         # storing a full copy via tobytes() (O(n) time, O(n) space).
+        if obj.dtype.hasobject:
+            # The buffer only holds pointers, tokenise the elements instead.
+            return (obj.shape, obj.dtype, _make_token(obj.tolist()))
         buf = np.ascontiguousarray(obj)
-        digest = hashlib.sha256(buf.data).digest()
-        return (obj.shape, obj.dtype.str, digest)
+        # bytes view: not every dtype, e.g. datetime64, can be exported as a buffer
+        raw = buf.reshape(-1).view(np.uint8) if buf.dtype.itemsize else b""
+        digest = hashlib.sha256(raw).digest()
+        return (obj.shape, obj.dtype, digest)
+    # Containers carry their kind, so that e.g. ``[("a", 1)]`` and ``{"a": 1}`` differ.
     if isinstance(obj, dict):
-        return tuple(sorted((_make_token(k), _make_token(v)) for k, v in obj.items()))
+        # unordered and not sorted: keys of different types can not be compared
+        return ("dict", frozenset((_make_token(k), _make_token(v)) for k, v in obj.items()))
     if isinstance(obj, (list, tuple)):
-        return tuple(_make_token(item) for item in obj)
+        kind = "list" if isinstance(obj, list) else "tuple"
+        return (kind, tuple(_make_token(item) for item in obj))
     if isinstance(obj, (set, frozenset)):
-        return frozenset(_make_token(item) for item in obj)
+        return ("set", frozenset(_make_token(item) for item in obj))
     # Fast path: most primitives (int, float, str, None, bool, Enum) are
     # already hashable.
     try:
@@ -113,8 +121,9 @@ def _make_token(obj: Any) -> Any:
 def _build_key(args: tuple, kwargs: dict) -> tuple:
     """Build the full cache key from positional and keyword arguments."""
     args_token = tuple(_make_token(a) for a in args)
+    # keyword names are unique, hence the values never have to be compared
     kwargs_token = tuple(
-        sorted((_make_token(k), _make_token(v)) for k, v in kwargs.items())
+        (k, _make_token(v)) for k, v in sorted(kwargs.items(), key=lambda item: item[0])
     )
     return (args_token, kwargs_token)
 
-- 
2.43.0


From 7a5fa30641d96d0812d43f8d896e879b02f11d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:17 +0000
Subject: [PATCH 22/51] fix: cache clears and evictions no longer strand or
 duplicate running computations

---
 src/spey/system/cache.py | 307 +++++++++++++++------------------------
 1 file changed, 115 insertions(+), 192 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 4e46dc7..7010133 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -25,10 +25,10 @@ hashed by a standard Python :class:`dict`.
 Thread safety
 -------------
 A :class:`threading.Lock` serialises reads and writes to the internal
-cache dict.  To prevent *thundering-herd* duplicate computation, a
-*sentinel* is inserted under the key **before** the decorated function
-runs.  A per-key :class:`threading.Event` is used so that concurrent
-callers block efficiently (no busy-wait) until the real result is stored.
+cache dict.  To prevent *thundering-herd* duplicate computation, the
+running computation is registered under the key **before** the decorated
+function runs.  A per-key :class:`threading.Event` is used so that concurrent
+callers block efficiently (no busy-wait) until the real result is available.
 Each unique input is computed exactly once even under contention.
 
 Per-instance caching
@@ -66,7 +66,6 @@ import inspect
 import logging
 import threading
 import weakref
-from collections import deque
 from functools import wraps
 from typing import Any, Callable
 
@@ -76,10 +75,6 @@ __all__ = ["cache_results"]
 
 log = logging.getLogger("Spey")
 
-# Internal sentinel -- its identity (not value) marks an in-flight computation.
-_COMPUTING = object()
-
-
 def _make_token(obj: Any) -> Any:
     """Return a hashable, content-based token for *obj*.
 
@@ -138,6 +133,114 @@ def _has_self_param(fn: Callable) -> bool:
     return bool(params) and params[0] == "self"
 
 
+class _InFlight:
+    """A running computation; ``value`` holds its result once ``event`` is set."""
+
+    __slots__ = ("event", "value")
+
+    def __init__(self) -> None:
+        self.event = threading.Event()
+        self.value = None  # (result,) on success, None if the computation failed
+
+
+class _ResultStore:
+    """
+    Thread-safe store of the results of one memoised callable.
+
+    Finished results and running computations are kept apart, so that neither
+    clearing nor evicting results can ever strand a caller that waits for a
+    running computation.
+    """
+
+    __slots__ = ("name", "maxsize", "copy_on_return", "cache", "running", "lock")
+
+    def __init__(self, name: str, maxsize: int, copy_on_return: bool) -> None:
+        self.name = name
+        self.maxsize = maxsize
+        self.copy_on_return = copy_on_return
+        self.cache: dict = {}  # insertion order is the FIFO eviction order
+        self.running: dict[Any, _InFlight] = {}
+        self.lock = threading.Lock()
+
+    def _out(self, value: Any) -> Any:
+        return copy.deepcopy(value) if self.copy_on_return else value
+
+    def call(self, key: Any, compute: Callable) -> Any:
+        """Return the result stored under ``key``, computing it if necessary."""
+        while True:
+            with self.lock:
+                if key in self.cache:
+                    log.debug("cache hit for %s", self.name)
+                    return self._out(self.cache[key])
+                other = self.running.get(key)
+                if other is None:
+                    # First caller for this key -- mark it as in-flight.
+                    mine = self.running[key] = _InFlight()
+                    break
+            # Another thread is computing this key.
+            other.event.wait()
+            if other.value is not None:
+                return self._out(other.value[0])
+            # The computing thread failed -- try to become the computing thread.
+
+        # ---- compute (outside lock so other keys aren't blocked) -------
+        try:
+            result = compute()
+            mine.value = (result,)
+            return self._out(result)
+        finally:
+            with self.lock:
+                # Not the registered computation if the cache was cleared meanwhile.
+                if self.running.get(key) is mine:
+                    del self.running[key]
+                    if mine.value is not None:
+                        self.cache[key] = mine.value[0]
+                        if self.maxsize is not None:
+                            while len(self.cache) > self.maxsize:
+                                del self.cache[next(iter(self.cache))]
+            mine.event.set()  # wake up any waiting threads
+
+    def clear(self) -> None:
+        """Remove all entries; running computations finish but are not stored."""
+        with self.lock:
+            self.cache.clear()
+            self.running.clear()
+
+    def info(self) -> dict:
+        """Return a snapshot of the cache state."""
+        with self.lock:
+            return {"size": len(self.cache), "maxsize": self.maxsize}
+
+    def contents(self) -> dict:
+        """Return a copy of the current cache contents (for testing/debugging)."""
+        with self.lock:
+            return copy.deepcopy(self.cache)
+
+
+def _make_wrapper(fn: Callable, sig: Any, store: _ResultStore, bound_to: tuple) -> Callable:
+    """Callable that looks up ``fn(*bound_to, *args, **kwargs)`` in ``store``."""
+
+    @wraps(fn)
+    def wrapper(*args, **kwargs):
+        key = None
+        if sig is not None:
+            try:
+                bound = sig.bind(*args, **kwargs)
+            except TypeError:
+                pass  # invalid call, the function itself reports it
+            else:
+                bound.apply_defaults()
+                key = _build_key((), dict(bound.arguments))
+        if key is None:
+            key = _build_key(args, kwargs)
+        return store.call(key, lambda: fn(*bound_to, *args, **kwargs))
+
+    wrapper.cache_clear = store.clear
+    wrapper.cache_info = store.info
+    wrapper.get_cache = store.contents
+    return wrapper
+
+
 class _PerInstanceCacheDescriptor:
     """
     Non-data descriptor that provides per-instance caching for instance methods.
@@ -245,93 +348,8 @@ class _PerInstanceCacheDescriptor:
     def _build_wrapper(self, obj: Any) -> Callable:
         """Create a standalone cached callable bound to *obj*."""
         fn = self._fn
-        maxsize = self._maxsize
-        copy_on_return = self._copy_on_return
-        _sig = self._sig
-
-        cache: dict = {}
-        lock = threading.Lock()
-        events: dict = {}
-        order: deque = deque()
-
-        @wraps(fn)
-        def wrapper(*args, **kwargs):
-            if _sig is not None:
-                try:
-                    bound = _sig.bind(*args, **kwargs)
-                    bound.apply_defaults()
-                    key = _build_key((), dict(bound.arguments))
-                except TypeError:
-                    key = _build_key(args, kwargs)
-            else:
-                key = _build_key(args, kwargs)
-
-            with lock:
-                if key in cache:
-                    value = cache[key]
-                    if value is not _COMPUTING:
-                        log.debug("cache hit for %s", fn.__name__)
-                        return copy.deepcopy(value) if copy_on_return else value
-                    event = events[key]
-                else:
-                    event = threading.Event()
-                    events[key] = event
-                    cache[key] = _COMPUTING
-                    order.append(key)
-                    event = None
-
-            if event is not None:
-                event.wait()
-                with lock:
-                    if key in cache and cache[key] is not _COMPUTING:
-                        return copy.deepcopy(cache[key]) if copy_on_return else cache[key]
-                return wrapper(*args, **kwargs)
-
-            try:
-                result = fn(obj, *args, **kwargs)
-            except BaseException:
-                with lock:
-                    if cache.get(key) is _COMPUTING:
-                        del cache[key]
-                        order.remove(key)
-                    evt = events.pop(key, None)
-                if evt is not None:
-                    evt.set()
-                raise
-
-            with lock:
-                cache[key] = result
-                if maxsize is not None:
-                    while len(cache) > maxsize:
-                        oldest = order.popleft()
-                        cache.pop(oldest, None)
-                evt = events.pop(key, None)
-            if evt is not None:
-                evt.set()
-
-            return copy.deepcopy(result) if copy_on_return else result
-
-        def cache_clear() -> None:
-            """Remove all cached entries for this instance."""
-            with lock:
-                cache.clear()
-                order.clear()
-                events.clear()
-
-        def cache_info() -> dict:
-            """Return a snapshot of the cache state for this instance."""
-            with lock:
-                return {"size": len(cache), "maxsize": maxsize}
-
-        def get_cache() -> dict:
-            """Return a copy of the current cache contents (for testing/debugging)."""
-            with lock:
-                return copy.deepcopy(cache)
-
-        wrapper.cache_clear = cache_clear
-        wrapper.cache_info = cache_info
-        wrapper.get_cache = get_cache
-        return wrapper
+        store = _ResultStore(fn.__name__, self._maxsize, self._copy_on_return)
+        return _make_wrapper(fn, self._sig, store, (obj,))
 
 
 def cache_results(
@@ -404,107 +422,12 @@ def cache_results(
         if per_instance or _has_self_param(fn):
             return _PerInstanceCacheDescriptor(fn, maxsize, copy_on_return)
 
-        cache: dict = {}
-        lock = threading.Lock()
-        # Per-key events: signals waiters that the computation is done.
-        events: dict = {}
-        # FIFO eviction order (deque for O(1) popleft).
-        order: deque = deque()
-
         try:
             _sig = inspect.signature(fn)
         except (ValueError, TypeError):
             _sig = None
 
-        @wraps(fn)
-        def wrapper(*args, **kwargs):
-            if _sig is not None:
-                try:
-                    bound = _sig.bind(*args, **kwargs)
-                    bound.apply_defaults()
-                    key = _build_key((), dict(bound.arguments))
-                except TypeError:
-                    key = _build_key(args, kwargs)
-            else:
-                key = _build_key(args, kwargs)
-
-            with lock:
-                if key in cache:
-                    value = cache[key]
-                    if value is not _COMPUTING:
-                        # Cache hit -- return immediately.
-                        log.debug("cache hit for %s", fn.__name__)
-                        return copy.deepcopy(value) if copy_on_return else value
-                    # Another thread is computing this key -- grab its event.
-                    event = events[key]
-                else:
-                    # First caller for this key -- mark it as in-flight.
-                    event = threading.Event()
-                    events[key] = event
-                    cache[key] = _COMPUTING
-                    order.append(key)
-                    event = None  # signals "I am the computing thread"
-
-            if event is not None:
-                # ---- wait for the computing thread to finish ---------------
-                event.wait()
-                with lock:
-                    if key in cache and cache[key] is not _COMPUTING:
-                        return copy.deepcopy(cache[key]) if copy_on_return else cache[key]
-                # The computing thread failed (sentinel removed) -- fall through
-                # and recurse so this caller can become the new computing thread.
-                return wrapper(*args, **kwargs)
-
-            # ---- compute (outside lock so other keys aren't blocked) -------
-            try:
-                result = fn(*args, **kwargs)
-            except BaseException:
-                # Remove the sentinel so future calls can retry.
-                with lock:
-                    if cache.get(key) is _COMPUTING:
-                        del cache[key]
-                        order.remove(key)
-                    evt = events.pop(key, None)
-                if evt is not None:
-                    evt.set()  # wake up waiters
-                raise
-
-            # ---- store result (under lock) ---------------------------------
-            with lock:
-                cache[key] = result
-                # Evict oldest entries if maxsize is exceeded.
-                if maxsize is not None:
-                    while len(cache) > maxsize:
-                        oldest = order.popleft()
-                        cache.pop(oldest, None)
-                evt = events.pop(key, None)
-            if evt is not None:
-                evt.set()  # wake up any waiting threads
-
-            return copy.deepcopy(result) if copy_on_return else result
-
-        # --- public helpers on the wrapper ----------------------------------
-        def cache_clear() -> None:
-            """Remove all cached entries."""
-            with lock:
-                cache.clear()
-                order.clear()
-                events.clear()
-
-        def cache_info() -> dict:
-            """Return a snapshot of the cache state."""
-            with lock:
-                return {"size": len(cache), "maxsize": maxsize}
-
-        def get_cache() -> dict:
-            """Return a copy of the current cache contents (for testing/debugging)."""
-            with lock:
-                return copy.deepcopy(cache)
-
-        wrapper.cache_clear = cache_clear
-        wrapper.cache_info = cache_info
-        wrapper.get_cache = get_cache
-        return wrapper
+        return _make_wrapper(fn, _sig, _ResultStore(fn.__name__, maxsize, copy_on_return), ())
 
     # Support both @cache_results and @cache_results(...) forms.
     if func is not None:
-- 
2.43.0


From 6db8af743ed47a41c5f1defc06376cab49fbc212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 23/51] fix: cached results belong to one instance and method
 and are released with the instance

---
 src/spey/base/hypotest_base.py |   3 +-
 src/spey/system/cache.py       | 112 ++++++++++++---------------------
 2 files changed, 41 insertions(+), 74 deletions(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index ca25a81..8a8913c 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -156,7 +156,8 @@ class HypothesisTestingBase(ABC):
           calculator is selected.
     """
 
-    __slots__ = ["ntoys"]
+    # weakly referenceable, so that cached results are released with the model
+    __slots__ = ["ntoys", "__weakref__"]
 
     def __init__(self, ntoys: int = 1000):
         self.ntoys = ntoys
diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 7010133..de84abc 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -36,18 +36,15 @@ Per-instance caching
 When ``cache_results`` is applied to an instance method (first parameter
 named ``self``), it automatically returns a
 :class:`_PerInstanceCacheDescriptor`.  This can also be requested
-explicitly via ``per_instance=True``.  The descriptor installs a dedicated
-cached callable on each instance the first time the method is accessed,
-ensuring that two distinct instances of the same class (or of different
-subclasses) can never share a cache entry.  ``self`` is never included in
-the cache key and no reference to the instance is held in the cache
-dictionary.
-
-For classes that use ``__slots__`` without ``__dict__``, the descriptor
-falls back to a descriptor-level mapping keyed by ``id(obj)``.  If the
-instance supports weak references, cleanup is automatic; otherwise the
-mapping entry persists for the lifetime of the descriptor (bounded and
-equivalent to the prior behaviour).
+explicitly via ``per_instance=True``.  The descriptor keeps a dedicated
+result store for each instance, ensuring that two distinct instances of the
+same class (or of different subclasses) can never share a cache entry.
+``self`` is never included in the cache key and no reference to the instance
+is held in the cache dictionary.
+
+The stores are keyed by ``id(obj)``.  If the instance supports weak
+references, cleanup is automatic; otherwise the mapping entry persists for
+the lifetime of the descriptor.
 
 .. currentmodule:: spey.system.cache
 
@@ -245,19 +242,11 @@ class _PerInstanceCacheDescriptor:
     """
     Non-data descriptor that provides per-instance caching for instance methods.
 
-    On the first ``instance.method`` attribute lookup the descriptor builds a
-    dedicated cached callable whose internal cache storage is private to that
-    instance.  The wrapper is stored in ``instance.__dict__[method_name]``
-    so that Python's attribute-lookup rules (instance dict beats non-data
-    descriptor) bypass the descriptor on all subsequent accesses -- zero
-    overhead after the first call.
-
-    For classes that use ``__slots__`` without ``__dict__``, the descriptor
-    falls back to a descriptor-level mapping keyed by ``id(obj)``.  If the
-    instance supports weak references a callback is registered to clean up
-    the mapping entry when the instance is garbage-collected; otherwise the
-    entry persists (bounded, and equivalent to the prior behaviour where
-    ``self`` was serialised into a closure-level cache key).
+    Every instance has its own result store for every decorated method.  The
+    stores live in a descriptor-level mapping keyed by ``id(obj)``, hence copies
+    of an instance and overridden methods never share results.  A weak-reference
+    callback removes the store when the instance is garbage-collected; the entry
+    of an instance that does not support weak references persists.
 
     Two distinct instances therefore maintain completely independent caches
     even when they invoke the method with identical arguments, and instances
@@ -284,73 +273,50 @@ class _PerInstanceCacheDescriptor:
             self._sig = inspect.Signature(params)
         except (ValueError, TypeError):
             self._sig = None
-        # Method name used as the instance-dict key; updated by __set_name__.
-        self._name: str = fn.__name__
         # Propagate function metadata so the descriptor looks like the original.
         self.__wrapped__ = fn
         self.__doc__ = fn.__doc__
         self.__name__ = fn.__name__
         self.__qualname__ = fn.__qualname__
         self.__annotations__ = getattr(fn, "__annotations__", {})
-        # Fallback storage for __slots__-only classes (no __dict__).
-        self._fallback_lock = threading.Lock()
-        self._fallback_wrappers: dict[int, Callable] = {}
-        self._fallback_refs: dict[int, weakref.ref] = {}
-
-    def __set_name__(self, _owner: type, name: str) -> None:
-        self._name = name
+        # Result stores keyed by ``id(obj)`` together with what keeps the id unique: a
+        # weak reference, or the object itself if it can not be weakly referenced.
+        # Reentrant, since the weak-ref callback can run while the lock is held.
+        self._stores_lock = threading.RLock()
+        self._stores: dict[int, tuple[Any, _ResultStore]] = {}
 
     def __get__(self, obj: Any, _objtype: type = None) -> Callable:
         if obj is None:
             # When accessed via class, return the ORIGINAL FUNCTION without caching.
             return self._fn  # type: ignore[return-value]
-        # Fast path: try instance __dict__ (available for most classes).
-        try:
-            inst_dict = obj.__dict__
-        except AttributeError:
-            return self._get_fallback(obj)
-        wrapper = inst_dict.get(self._name)
-        if wrapper is None:
-            wrapper = self._build_wrapper(obj)
-            # Storing under the method name makes subsequent lookups land in
-            # the instance dict directly (non-data descriptor rule), so the
-            # descriptor overhead is paid exactly once per instance.
-            inst_dict[self._name] = wrapper
-        return wrapper
-
-    def _get_fallback(self, obj: Any) -> Callable:
-        """Fallback for ``__slots__``-only classes without ``__dict__``."""
+        # The callable holds the instance only as long as the caller holds the callable.
+        return _make_wrapper(self._fn, self._sig, self._get_store(obj), (obj,))
+
+    def _get_store(self, obj: Any) -> _ResultStore:
+        """Return the result store that belongs to *obj*."""
         obj_id = id(obj)
-        with self._fallback_lock:
-            wrapper = self._fallback_wrappers.get(obj_id)
-            if wrapper is not None:
-                return wrapper
-            wrapper = self._build_wrapper(obj)
-            self._fallback_wrappers[obj_id] = wrapper
-            # Register weak-ref cleanup if the instance supports it.
+        with self._stores_lock:
+            owner, store = self._stores.get(obj_id, (None, None))
+            if owner is obj or (isinstance(owner, weakref.ref) and owner() is obj):
+                return store
+            store = _ResultStore(self._fn.__name__, self._maxsize, self._copy_on_return)
             try:
-                ref = weakref.ref(obj, self._make_fallback_cleanup(obj_id))
-                self._fallback_refs[obj_id] = ref
+                owner = weakref.ref(obj, self._make_cleanup(obj_id))
             except TypeError:
-                pass  # Not weakly referenceable; entry persists.
-            return wrapper
+                owner = obj  # Not weakly referenceable; entry persists.
+            self._stores[obj_id] = (owner, store)
+            return store
 
-    def _make_fallback_cleanup(self, obj_id: int) -> Callable:
-        """Return a weak-ref callback that removes the fallback entry for *obj_id*."""
+    def _make_cleanup(self, obj_id: int) -> Callable:
+        """Return a weak-ref callback that removes the store of *obj_id*."""
 
-        def _cleanup(_ref: weakref.ref) -> None:  # noqa: ARG001
-            with self._fallback_lock:
-                self._fallback_wrappers.pop(obj_id, None)
-                self._fallback_refs.pop(obj_id, None)
+        def _cleanup(ref: weakref.ref) -> None:
+            with self._stores_lock:
+                if self._stores.get(obj_id, (None,))[0] is ref:
+                    del self._stores[obj_id]
 
         return _cleanup
 
-    def _build_wrapper(self, obj: Any) -> Callable:
-        """Create a standalone cached callable bound to *obj*."""
-        fn = self._fn
-        store = _ResultStore(fn.__name__, self._maxsize, self._copy_on_return)
-        return _make_wrapper(fn, self._sig, store, (obj,))
-
 
 def cache_results(
     func: Callable = None,
-- 
2.43.0


From ef397aec6ac1e9e98b9f70b25e0a1e78811a8d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 24/51] fix: renaming parameters keeps names unique and is
 applied as a whole

---
 src/spey/base/model_config.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index a1c3f5e..de73768 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -154,14 +154,13 @@ class ModelConfig:
 
     def change_parameter_names(self, name_map: Dict[str, str]) -> None:
         """Change the parameter names"""
-        new_names = []
-        for old, new in name_map.items():
+        for old in name_map:
             if old not in self.parameter_names:
                 raise ValueError(f"Parameter '{old}' does not exist.")
-            if new in new_names:
-                raise ValueError("Each name has to be unique.")
-            new_names.append(new)
-            self.parameter_names[self.parameter_names.index(old)] = new
+        new_names = [name_map.get(name, name) for name in self.parameter_names]
+        if len(set(new_names)) != len(new_names):
+            raise ValueError("Each name has to be unique.")
+        self.parameter_names[:] = new_names
 
     def rescale_poi_bounds(
         self, allow_negative_signal: bool = True, poi_upper_bound: Optional[float] = None
-- 
2.43.0


From ee84eb0fb2c77bdd03673db378e0cf5a7ca85301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:43 +0000
Subject: [PATCH 25/51] fix: profiled contours work for models with positivity
 constraints

---
 src/spey/multiparameter/contour.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index d6719d8..e501f72 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -171,6 +171,7 @@ import autograd
 import autograd.numpy as anp
 import numpy as np
 from joblib import Parallel, cpu_count, delayed
+from scipy.optimize import NonlinearConstraint
 from scipy.optimize import minimize as _sp_minimize
 from scipy.optimize import root_scalar
 from scipy.stats import chi2 as chi2_dist
@@ -599,11 +600,15 @@ def find_contour(
             # Adapt backend constraints (full-param) to profile-param space.
             constraints = []
             for c in _backend_constraints:
-                orig_fun = c["fun"]
+                is_nonlinear = isinstance(c, NonlinearConstraint)
+                orig_fun = c.fun if is_nonlinear else c["fun"]
 
                 def _wrapped(pp, _f=orig_fun, _cp=cp):
                     return _f(_assemble(_cp, pp))
 
+                if is_nonlinear:
+                    constraints.append(NonlinearConstraint(_wrapped, c.lb, c.ub))
+                    continue
                 constraints.append({**c, "fun": _wrapped})
 
             res = _sp_minimize(
-- 
2.43.0


From f677483d8de9033f982cd4081612f8d004693612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 26/51] fix: calculators a backend does not implement are
 reported unavailable

---
 src/spey/interface/statistical_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index 4bf473f..4a72e52 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -228,10 +228,12 @@ class StatisticalModel(HypothesisTestingBase):
             ``bool``:
             ``True`` if the asymptotic calculator is available.
         """
-        return self.backend.expected_data != BackendBase.expected_data or (
-            self.backend.asimov_negative_loglikelihood
+        # compare on the class, bound methods never equal the functions they wrap
+        backend = type(self.backend)
+        return backend.expected_data != BackendBase.expected_data or (
+            backend.asimov_negative_loglikelihood
             != BackendBase.asimov_negative_loglikelihood
-            and self.backend.minimize_asimov_negative_loglikelihood
+            and backend.minimize_asimov_negative_loglikelihood
             != BackendBase.minimize_asimov_negative_loglikelihood
         )
 
@@ -246,7 +248,7 @@ class StatisticalModel(HypothesisTestingBase):
             ``bool``:
             ``True`` if the toy calculator is available.
         """
-        return self.backend.get_sampler != BackendBase.get_sampler
+        return type(self.backend).get_sampler != BackendBase.get_sampler
 
     @property
     def is_chi_square_calculator_available(self) -> bool:
-- 
2.43.0


From 2aa7d9456a63f91f27d1edeaf6e398e535cdf6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 27/51] fix: upper limit search accepts an initial bracket that
 sits on the root

---
 src/spey/hypothesis_testing/upper_limits.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spey/hypothesis_testing/upper_limits.py b/src/spey/hypothesis_testing/upper_limits.py
index ebffbde..091363a 100644
--- a/src/spey/hypothesis_testing/upper_limits.py
+++ b/src/spey/hypothesis_testing/upper_limits.py
@@ -227,6 +227,11 @@ def find_poi_upper_limit(
             result.append(np.inf)
             continue
 
+        # Both ends of the bracket can only coincide at the root itself
+        if low.get_value(-1) == hig.get_value(-1):
+            result.append(low.get_value(-1))
+            continue
+
         x0, r = scipy.optimize.toms748(
             comp,
             low.get_value(-1),
-- 
2.43.0


From c65e95944befb2c4e2aedd4998c8a7870d07b186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 28/51] fix: pull at the best fit is zero instead of
 not-a-number

---
 src/spey/base/hypotest_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 8a8913c..d075c3f 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -717,7 +717,8 @@ class HypothesisTestingBase(ABC):
             expected=expected, allow_negative_signal=allow_negative_signal, **kwargs
         )
         llhd = self.likelihood(poi_test=poi_test, expected=expected, **kwargs)
-        return np.sign(muhat - poi_test) * np.sqrt(2.0 * (llhd - min_nll))
+        # at the best fit the two fits agree only up to the optimiser's precision
+        return np.sign(muhat - poi_test) * np.sqrt(np.maximum(2.0 * (llhd - min_nll), 0.0))
 
     def _prepare_for_hypotest(
         self,
-- 
2.43.0


From e53892817ef84d346a0c51c4e099ffd018617e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 29/51] fix: chi-square of a combination no longer fails on
 unset initial parameters

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index 2dbf692..7419f51 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -720,6 +720,9 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
         """
         statistical_model_options = statistical_model_options or {}
         data = data or {}
+        # ``init_pars`` is not defined for a combination, ``None`` means that it isn't set
+        if optimiser_options.get("init_pars", False) is None:
+            del optimiser_options["init_pars"]
 
         # muhat initial value estimation in gaussian limit
         mu_init = initial_muhat_value or 0.0
-- 
2.43.0


From 90b653ca16518c93bb70144c237e75f4d1086ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:13 +0000
Subject: [PATCH 30/51] fix: interval search always includes the best fit in
 its scan

---
 src/spey/base/hypotest_base.py | 1 +
 src/spey/base/utils.py         | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index d075c3f..c112400 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -1639,6 +1639,7 @@ class HypothesisTestingBase(ABC):
                 xtol=xtol,
                 rtol=rtol,
                 maxiter=maxiter,
+                anchor=reference,
             )
             left_found = any(r < reference - 1e-12 for r in roots_sorted)
             right_found = any(r > reference + 1e-12 for r in roots_sorted)
diff --git a/src/spey/base/utils.py b/src/spey/base/utils.py
index dd2bc62..5b7aa61 100644
--- a/src/spey/base/utils.py
+++ b/src/spey/base/utils.py
@@ -1,4 +1,4 @@
-from typing import Callable, List, Tuple, Union
+from typing import Callable, List, Optional, Tuple, Union
 import logging
 import numpy as np
 
@@ -139,6 +139,7 @@ def _enumerate_crossings_1d(
     xtol: float = 2e-12,
     rtol: float = 1e-4,
     maxiter: int = 10000,
+    anchor: Optional[float] = None,
 ) -> List[float]:
     r"""
     Return **every** root of a 1D scalar function on ``[lo, hi]``.
@@ -161,6 +162,8 @@ def _enumerate_crossings_1d(
             feature is narrower than ``(hi-lo)/(n_scan-1)`` the feature may
             be skipped.
         xtol, rtol, maxiter: Forwarded to the inner root-finder.
+        anchor: Optional point inside the range, e.g. the best fit, which is
+            added to the grid so that the basin around it can not be skipped.
 
     Returns:
         ``List[float]`` — sorted, deduplicated root list (possibly empty).
@@ -172,6 +175,9 @@ def _enumerate_crossings_1d(
     n_scan = max(3, int(n_scan))
 
     xs = np.linspace(float(lo), float(hi), n_scan)
+    if anchor is not None and lo < anchor < hi:
+        xs = np.union1d(xs, [float(anchor)])
+        n_scan = len(xs)
     fs = np.full(n_scan, np.nan, dtype=float)
     for i, x in enumerate(xs):
         try:
-- 
2.43.0


From 6a4bd012f6b573752c02c5c8dd5aa332e714b390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 31/51] fix: likelihoods supplied natively by a backend are
 used as documented

---
 src/spey/interface/statistical_model.py | 64 +++++++++++++++++--------
 1 file changed, 43 insertions(+), 21 deletions(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index 4a72e52..028ca15 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -374,6 +374,37 @@ class StatisticalModel(HypothesisTestingBase):
             return poi_test
         return self.backend.config().resolve_poi_indices(poi_test)
 
+    def _select_pois(
+        self, fit_param: np.ndarray, poi_indices: Optional[List[Union[int, str]]]
+    ) -> Union[float, Dict[Union[int, str], float]]:
+        """
+        Extract the POI, or the requested parameters, from the fit parameters
+
+        Args:
+            fit_param (``np.ndarray``): fit parameters
+            poi_indices (``Optional[List[Union[int, str]]]``): requested indices or names
+
+        Returns:
+            ``Union[float, Dict[Union[int, str], float]]``:
+            value of the POI if ``poi_indices`` is ``None``, requested values otherwise.
+        """
+        config = self.backend.config()
+        if poi_indices is None:
+            return fit_param[config.poi_index]
+
+        result: Dict[Union[int, str], float] = {}
+        for key in poi_indices:
+            if isinstance(key, str):
+                if config.parameter_names is None:
+                    raise ValueError(
+                        "Cannot resolve POI name: parameter_names not set in ModelConfig."
+                    )
+                idx = config.parameter_names.index(key)
+            else:
+                idx = int(key)
+            result[key] = float(fit_param[idx])
+        return result
+
     def prepare_for_fit(
         self,
         data: Optional[Union[List[float], np.ndarray]] = None,
@@ -529,7 +560,7 @@ class StatisticalModel(HypothesisTestingBase):
             Likelihood of the statistical model at a fixed signal strength.
         """
         try:
-            return self.backend.negative_loglikelihood(
+            nll, fit_param = self.backend.negative_loglikelihood(
                 poi_test=poi_test,
                 expected=expected,
                 data=data,
@@ -538,6 +569,8 @@ class StatisticalModel(HypothesisTestingBase):
                 par_bounds=par_bounds,
                 **kwargs,
             )
+            out = nll if return_nll else np.exp(-nll)
+            return (out, fit_param) if return_parameters else out
         except NotImplementedError:
             log.debug(
                 "Backend does not implement negative_loglikelihood(), "
@@ -777,7 +810,7 @@ class StatisticalModel(HypothesisTestingBase):
             likelihood computed for asimov data
         """
         try:
-            return self.backend.asimov_negative_loglikelihood(
+            nll, _ = self.backend.asimov_negative_loglikelihood(
                 poi_test=poi_test,
                 expected=expected,
                 test_statistics=test_statistics,
@@ -785,6 +818,7 @@ class StatisticalModel(HypothesisTestingBase):
                 par_bounds=par_bounds,
                 **kwargs,
             )
+            return nll if return_nll else np.exp(-nll)
         except NotImplementedError:
             log.debug(
                 "Backend does not implement `asimov_negative_loglikelihood()`, "
@@ -911,7 +945,7 @@ class StatisticalModel(HypothesisTestingBase):
             ``{index_or_name: fitted_value}`` and the (negative) log-likelihood.
         """
         try:
-            return self.backend.minimize_negative_loglikelihood(
+            nll, fit_param = self.backend.minimize_negative_loglikelihood(
                 expected=expected,
                 allow_negative_signal=allow_negative_signal,
                 data=data,
@@ -920,6 +954,8 @@ class StatisticalModel(HypothesisTestingBase):
                 poi_indices=poi_indices,
                 **kwargs,
             )
+            nll = nll if return_nll else np.exp(-nll)
+            return self._select_pois(fit_param, poi_indices), nll
         except NotImplementedError:
             log.debug(
                 "Backend does not implement `minimize_negative_loglikelihood()`, "
@@ -942,23 +978,7 @@ class StatisticalModel(HypothesisTestingBase):
         log.debug(f"fit parameters:\n\t {fit_param}")
 
         nll = -logpdf if return_nll else np.exp(logpdf)
-        if poi_indices is None:
-            muhat = fit_param[self.backend.config().poi_index]
-            return muhat, nll
-
-        config = self.backend.config()
-        result: Dict[Union[int, str], float] = {}
-        for key in poi_indices:
-            if isinstance(key, str):
-                if config.parameter_names is None:
-                    raise ValueError(
-                        "Cannot resolve POI name: parameter_names not set in ModelConfig."
-                    )
-                idx = config.parameter_names.index(key)
-            else:
-                idx = int(key)
-            result[key] = float(fit_param[idx])
-        return result, nll
+        return self._select_pois(fit_param, poi_indices), nll
 
     @cache_results(maxsize=128, copy_on_return=True, per_instance=True)
     def maximize_asimov_likelihood(  # pylint: disable = arguments-renamed
@@ -1078,7 +1098,7 @@ class StatisticalModel(HypothesisTestingBase):
             ``{index_or_name: fitted_value}`` and the (negative) log-likelihood.
         """
         try:
-            return self.backend.minimize_asimov_negative_loglikelihood(
+            nll, fit_param = self.backend.minimize_asimov_negative_loglikelihood(
                 expected=expected,
                 test_statistics=test_statistics,
                 init_pars=init_pars,
@@ -1086,6 +1106,8 @@ class StatisticalModel(HypothesisTestingBase):
                 poi_indices=poi_indices,
                 **kwargs,
             )
+            nll = nll if return_nll else np.exp(-nll)
+            return self._select_pois(fit_param, poi_indices), nll
         except NotImplementedError:
             log.debug(
                 "Backend does not implement `minimize_asimov_negative_loglikelihood()`, "
-- 
2.43.0


From 65701f2287632dfa3bb68a7fd725d8ba0155ec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:55 +0000
Subject: [PATCH 32/51] fix: Poisson models accept data given as a list

---
 src/spey/backends/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index 22eff75..a71a377 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -46,8 +46,9 @@ class Poisson:
 
     def log_prob(self, value: np.ndarray) -> np.ndarray:
         """Compute log-probability"""
+        value = np.array(value)
         # for code efficiency
-        if np.array(value).dtype in [np.int32, np.int16, np.int64]:
+        if value.dtype in [np.int32, np.int16, np.int64]:
             return logpmf(value, self.loc).astype(np.float64)
 
         return (value * np.log(self.loc) - self.loc - gammaln(value + 1.0)).astype(
-- 
2.43.0


From 26d9c2f3225ef817e5a03f47949573c13d009630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 33/51] fix: third moments of very large or very small
 uncertainties

---
 src/spey/backends/default_pdf/third_moment.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/spey/backends/default_pdf/third_moment.py b/src/spey/backends/default_pdf/third_moment.py
index 6c175da..a8bc34f 100644
--- a/src/spey/backends/default_pdf/third_moment.py
+++ b/src/spey/backends/default_pdf/third_moment.py
@@ -318,11 +318,18 @@ def compute_third_moments(
 
     third_moment, error = [], []
     for upper, lower in zip(absolute_upper_uncertainties, absolute_lower_uncertainties):
+        # integrate in units of the larger envelope: for very large or very small
+        # uncertainties the quadrature can not locate the distribution otherwise
+        upper, lower = abs(upper), abs(lower)
+        scale = max(upper, lower) or 1.0
         third_moment_tmp, error_tmp = integrate.quad(
-            compute_x3BifurgatedGaussian, -np.inf, np.inf, args=(abs(upper), abs(lower))
+            compute_x3BifurgatedGaussian,
+            -np.inf,
+            np.inf,
+            args=(upper / scale, lower / scale),
         )
-        third_moment.append(third_moment_tmp)
-        error.append(error_tmp)
+        third_moment.append(third_moment_tmp * scale**3)
+        error.append(error_tmp * scale**3)
 
     if return_integration_error:
         return np.array(third_moment), np.array(error)
-- 
2.43.0


From 26394917c4992f8291f9930f7428df2d8a34e57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 34/51] fix: third moment expansion at the maximal admissible
 skewness

---
 src/spey/backends/default_pdf/third_moment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/backends/default_pdf/third_moment.py b/src/spey/backends/default_pdf/third_moment.py
index a8bc34f..6ca5155 100644
--- a/src/spey/backends/default_pdf/third_moment.py
+++ b/src/spey/backends/default_pdf/third_moment.py
@@ -202,7 +202,8 @@ def third_moment_expansion(
     C = np.where(np.isnan(C), 0.0, C)
 
     # arXiv:1809.05548 eq. 2.10
-    B = np.sqrt(cov_diag - 2 * C**2)
+    # 2C^2 may exceed the variance by rounding when the skewness is maximal
+    B = np.sqrt(np.maximum(cov_diag - 2 * C**2, 0.0))
     log.debug(f"B: {B}")
 
     # arXiv:1809.05548 eq. 2.11
-- 
2.43.0


From e7023c8feb7c37fb1d716dc104b45bcc0326fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 35/51] fix: merging bins given by negative indices counts no
 bin twice

---
 src/spey/helper_functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spey/helper_functions.py b/src/spey/helper_functions.py
index b22c553..07e1590 100644
--- a/src/spey/helper_functions.py
+++ b/src/spey/helper_functions.py
@@ -184,6 +184,9 @@ def merge_correlated_bins(
 
     N = covariance_matrix.shape[0]
 
+    # Negative indices count from the end, so that each bin has a single index
+    merge_groups = [[range(N)[i] for i in g] for g in merge_groups]
+
     # Flatten merge_groups and find missing indices
     merged_indices = sorted(i for g in merge_groups for i in g)
     assert len(set(merged_indices)) == len(
-- 
2.43.0


From 943b51518ba65f97a2be162fe77bc6aecbb69cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 36/51] fix: integer-valued moments do not overflow in the
 third moment expansion

---
 src/spey/backends/default_pdf/third_moment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spey/backends/default_pdf/third_moment.py b/src/spey/backends/default_pdf/third_moment.py
index 6ca5155..f07e7c5 100644
--- a/src/spey/backends/default_pdf/third_moment.py
+++ b/src/spey/backends/default_pdf/third_moment.py
@@ -180,7 +180,9 @@ def third_moment_expansion(
         The triple :math:`(A, B, C)` (each of shape :math:`N`), and additionally
         :math:`\rho` (shape :math:`N \times N`) when ``return_correlation_matrix=True``.
     """
-    cov_diag = np.diag(covariance_matrix)
+    # powers of integer moments overflow
+    cov_diag = np.diag(covariance_matrix).astype(float)
+    third_moment = np.array(third_moment, dtype=float)
 
     if not np.all(8.0 * cov_diag**3 >= third_moment**2):
         log.warning(
-- 
2.43.0


From 9ef76066833b16cbb829d862e1b70e185b84022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 37/51] fix: fixed parameters stay fixed with scipy methods
 that ignore constraints

---
 src/spey/optimizer/scipy_tools.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/spey/optimizer/scipy_tools.py b/src/spey/optimizer/scipy_tools.py
index 9435953..b7d478d 100644
--- a/src/spey/optimizer/scipy_tools.py
+++ b/src/spey/optimizer/scipy_tools.py
@@ -95,13 +95,30 @@ def minimize(
                 }
             )
 
+    objective = func
+    if any(fixed_vals) and str(method).lower() not in (
+        "slsqp",
+        "cobyla",
+        "cobyqa",
+        "trust-constr",
+    ):
+        # this method ignores constraints, hold the fixed parameters in the objective
+        fixed = np.array(fixed_vals, dtype=bool)
+        pinned = np.array(init_pars, dtype=float)
+
+        def objective(vector: np.ndarray):
+            result = func(np.where(fixed, pinned, vector))
+            if not do_grad:
+                return result
+            return result[0], np.where(fixed, 0.0, result[1])
+
     ntrial = 0
     while ntrial < ntrials:
         ntrial += 1
         with warnings.catch_warnings():
             warnings.filterwarnings(action="ignore", category=RuntimeWarning)
             opt = scipy.optimize.minimize(
-                func,
+                objective,
                 init_pars,
                 method=method,
                 jac=do_grad,
@@ -111,6 +128,8 @@ def minimize(
                 tol=tol,
                 options=options,
             )
+        if objective is not func:
+            opt.x = np.where(fixed, pinned, opt.x)
         if not opt.success and ntrial < ntrials:
             # Expand the boundaries of the statistical model dynamically to be able to converge
             # Note that it is important to respect the lower bounds especially since there might
-- 
2.43.0


From e5c67da5da0e4ffbbf8ad6cf8cd7e45224aed346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 38/51] fix: values outside a one-sided parameter bound can be
 tested

---
 src/spey/base/model_config.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index de73768..9c7d734 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -59,6 +59,17 @@ class ModelConfig:
         """Number of parameters"""
         return len(self.suggested_init)
 
+    @staticmethod
+    def _extend_one_sided(
+        bound: Tuple[Optional[float], Optional[float]], value: float
+    ) -> Tuple[Optional[float], Optional[float]]:
+        """Extend the finite side, if any, of a (partially) open bound to include value"""
+        lower, upper = bound
+        return (
+            lower if lower is None else min(lower, value),
+            upper if upper is None or value < upper else value + 1,
+        )
+
     def fixed_poi_bounds(
         self, poi_value: Optional[float] = None
     ) -> List[Tuple[float, float]]:
@@ -77,6 +88,9 @@ class ModelConfig:
             return self.suggested_bounds
         bounds = copy.deepcopy(self.suggested_bounds)
         if any(b is None for b in bounds[self.poi_index]):
+            bounds[self.poi_index] = self._extend_one_sided(
+                bounds[self.poi_index], poi_value
+            )
             return bounds
         if not bounds[self.poi_index][0] < poi_value < bounds[self.poi_index][1]:
             bounds[self.poi_index] = (
@@ -143,6 +157,7 @@ class ModelConfig:
         bounds = copy.deepcopy(self.suggested_bounds)
         for idx, val in poi_values.items():
             if any(b is None for b in bounds[idx]):
+                bounds[idx] = self._extend_one_sided(bounds[idx], val)
                 continue
             if not bounds[idx][0] < val < bounds[idx][1]:
                 lower = self.minimum_poi if val < 0.0 else 0.0
-- 
2.43.0


From c532cfeeeaf7de6a10a4bc3e8920f550e0ea2aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 39/51] fix: bounds queries of ModelConfig do not expose the
 live parameter bounds

---
 src/spey/base/model_config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 9c7d734..e146dd5 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -85,7 +85,7 @@ class ModelConfig:
             Updated bounds.
         """
         if poi_value is None:
-            return self.suggested_bounds
+            return copy.deepcopy(self.suggested_bounds)
         bounds = copy.deepcopy(self.suggested_bounds)
         if any(b is None for b in bounds[self.poi_index]):
             bounds[self.poi_index] = self._extend_one_sided(
@@ -153,7 +153,7 @@ class ModelConfig:
             Updated bounds.
         """
         if not poi_values:
-            return self.suggested_bounds
+            return copy.deepcopy(self.suggested_bounds)
         bounds = copy.deepcopy(self.suggested_bounds)
         for idx, val in poi_values.items():
             if any(b is None for b in bounds[idx]):
-- 
2.43.0


From 1db0c612ed18f01fe4b01145cd099d7bd48c4170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 40/51] fix: rescale_poi_bounds honours an upper bound of zero

---
 src/spey/base/model_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index e146dd5..79ed0f8 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -194,7 +194,7 @@ class ModelConfig:
             Updated bounds.
         """
         bounds = copy.deepcopy(self.suggested_bounds)
-        if poi_upper_bound:
+        if poi_upper_bound is not None:
             bounds[self.poi_index] = (
                 self.minimum_poi if allow_negative_signal else 0.0,
                 poi_upper_bound,
-- 
2.43.0


From d00fd84067a0845bf7c211b8884240180aaa16f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 41/51] fix: profiling the signal strength as a nuisance is
 refused by name as well

---
 src/spey/base/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spey/base/utils.py b/src/spey/base/utils.py
index 5b7aa61..575dbd0 100644
--- a/src/spey/base/utils.py
+++ b/src/spey/base/utils.py
@@ -37,8 +37,9 @@ def resolve_parameter_index(parameter: Union[int, str], cfg: ModelConfig) -> int
             raise ValueError(
                 f"Parameter '{parameter}' not found in parameter_names: {cfg.parameter_names}"
             )
-        return cfg.parameter_names.index(parameter)
-    param_idx = int(parameter)
+        param_idx = cfg.parameter_names.index(parameter)
+    else:
+        param_idx = int(parameter)
     if not 0 <= param_idx < cfg.npar:
         raise ValueError(f"Parameter index {param_idx} is out of range [0, {cfg.npar}).")
     if param_idx == cfg.poi_index:
-- 
2.43.0


From 081fcd76365c6b62eb0253c95a43087edca90dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 42/51] fix: contours started from a best fit outside the given
 bounds stay inside them

---
 src/spey/multiparameter/contour.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index e501f72..be8fcdf 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -757,6 +757,10 @@ def find_contour(
             step = _M @ e
             r_max = np.inf
             for i, (lo, hi) in enumerate(bounds):
+                if (hi is not None and _anchor[i] > hi) or (
+                    lo is not None and _anchor[i] < lo
+                ):
+                    return 0.0
                 if hi is not None and step[i] > 1e-30:
                     r_max = min(r_max, (hi - _anchor[i]) / step[i])
                 if lo is not None and step[i] < -1e-30:
-- 
2.43.0


From 3780501440aff003b42739792204dc5699472ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 43/51] fix: contour walks stop when the projection onto the
 likelihood surface fails

---
 src/spey/multiparameter/contour.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index be8fcdf..4c85fd6 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -1730,7 +1730,8 @@ def _rattle_walk(
             signal-parameter space.  ``None`` entries indicate no bound on
             that side.  If any element of ``theta`` violates a finite
             bound after a RATTLE step the chain is terminated early and
-            the points collected so far are returned.
+            the points collected so far are returned.  The same holds if
+            the Newton projection fails to reach the constraint surface.
 
     Returns:
         ``np.ndarray``: Trajectory of contour points, shape
@@ -1785,6 +1786,11 @@ def _rattle_walk(
             log.debug("RATTLE step failed at step %d; terminating chain.", step)
             break
 
+        # Terminate if the projection did not reach the constraint surface
+        if not abs(nll_scalar(theta) - threshold) <= max(1e3 * tol, 1e-6):
+            log.debug("RATTLE projection failed at step %d; terminating chain.", step)
+            break
+
         # Terminate if any parameter has left its allowed range
         if bounds is not None:
             if any(
-- 
2.43.0


From c47a4b53e481525f91471a78bb87961d1298106a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 44/51] fix: initialising the logger replaces all handlers
 attached before

---
 src/spey/system/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/system/logger.py b/src/spey/system/logger.py
index db41b71..eb91087 100644
--- a/src/spey/system/logger.py
+++ b/src/spey/system/logger.py
@@ -65,7 +65,7 @@ def init(LoggerStream=sys.stdout):
     # we need to replace all root loggers by ma5 loggers for a proper
     # interface with madgraph5
     SpeyLogger = logging.getLogger("Spey")
-    for hdlr in SpeyLogger.handlers:
+    for hdlr in SpeyLogger.handlers[:]:
         SpeyLogger.removeHandler(hdlr)
     hdlr = logging.StreamHandler(LoggerStream)
     fmt = ColoredFormatter("%(message)s")
-- 
2.43.0


From bf39bc5332b1f74a5d18a4a1ffb458ef59140259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 45/51] fix: a badly formatted log message does not interrupt
 captured code

---
 src/spey/system/logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/system/logger.py b/src/spey/system/logger.py
index eb91087..5196e54 100644
--- a/src/spey/system/logger.py
+++ b/src/spey/system/logger.py
@@ -119,7 +119,8 @@ def capture_logs(level: int = logging.DEBUG, stream=None):
             try:
                 msg = self.format(record)
             except Exception:
-                msg = record.getMessage()
+                # badly formatted message, it must not interrupt the captured code
+                msg = str(record.msg)
 
             # Only add if we haven't seen this exact message before
             if msg not in seen_messages:
-- 
2.43.0


From 053aeb79c60b030e2ac8e9a435f00f89210339e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:09 +0000
Subject: [PATCH 46/51] fix: spey can be imported if the home directory can not
 be determined

---
 src/spey/system/webutils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spey/system/webutils.py b/src/spey/system/webutils.py
index 5ba082a..7f95c97 100644
--- a/src/spey/system/webutils.py
+++ b/src/spey/system/webutils.py
@@ -1,5 +1,6 @@
 import json
 import logging
+import os
 import pathlib
 from datetime import datetime, timezone
 from platform import python_version
@@ -82,7 +83,9 @@ def get_bibtex(
         return ""
 
 
-_SPEY_DIR = pathlib.Path.home() / ".spey"
+# expanduser does not raise if the home directory can not be determined, in that case
+# the directory does not exist and nothing is cached
+_SPEY_DIR = pathlib.Path(os.path.expanduser("~")) / ".spey"
 _CACHE_MAX_AGE_SECONDS = 86_400  # 24 hours
 
 
-- 
2.43.0


From 2efbdaaf7668241221d7e26b8cb17cc439976e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:56 +0000
Subject: [PATCH 47/51] fix: normalise the objective of one-parameter fits with
 steep or flat likelihoods

---
 src/spey/optimizer/scipy_tools.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/spey/optimizer/scipy_tools.py b/src/spey/optimizer/scipy_tools.py
index b7d478d..f0eb6ad 100644
--- a/src/spey/optimizer/scipy_tools.py
+++ b/src/spey/optimizer/scipy_tools.py
@@ -112,6 +112,17 @@ def minimize(
                 return result
             return result[0], np.where(fixed, 0.0, result[1])
 
+    # A single free parameter with a very steep (strong signal) or almost flat (weak signal)
+    # likelihood is beyond the reach of the line search, which starts with unit steps
+    slope = 1.0
+    if do_grad and len(init_pars) == 1 and str(method).lower() == "slsqp":
+        slope = abs(float(np.squeeze(func(np.array(init_pars, dtype=float))[-1])))
+    unit = 1.0 / slope if np.isfinite(slope) and (slope > 100.0 or 0 < slope < 0.01) else 1.0
+    if unit != 1.0:
+
+        def objective(vector: np.ndarray):
+            return tuple(unit * np.asarray(value) for value in func(vector))
+
     ntrial = 0
     while ntrial < ntrials:
         ntrial += 1
@@ -125,10 +136,12 @@ def minimize(
                 hess=hessian,
                 bounds=bounds,
                 constraints=constraints,
-                tol=tol,
+                tol=tol * unit,
                 options=options,
             )
-        if objective is not func:
+        if unit != 1.0:
+            opt.fun = opt.fun / unit
+        elif objective is not func:
             opt.x = np.where(fixed, pinned, opt.x)
         if not opt.success and ntrial < ntrials:
             # Expand the boundaries of the statistical model dynamically to be able to converge
-- 
2.43.0


From 707860e5deb775ca3577d95d5fef9c56b52d2e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:19 +0000
Subject: [PATCH 48/51] fix: negative yields are reported for parameters given
 as dictionary in combinations

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index 7419f51..8aea2ea 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -468,7 +468,7 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
                 )
             except NegativeExpectedYields as err:
                 warnings.warn(
-                    err.args[0] + f"\nSetting NLL({poi_test:.3f}) = nan",
+                    err.args[0] + f"\nSetting NLL({poi_test}) = nan",
                     category=RuntimeWarning,
                 )
                 nll = np.nan
-- 
2.43.0


From 6e18dcdd572f2e929e06f3caffd5550b2194386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:30 +0000
Subject: [PATCH 49/51] fix: one-parameter fits do not stop at the edge of
 vanishing rates

---
 src/spey/optimizer/scipy_tools.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/spey/optimizer/scipy_tools.py b/src/spey/optimizer/scipy_tools.py
index f0eb6ad..7462897 100644
--- a/src/spey/optimizer/scipy_tools.py
+++ b/src/spey/optimizer/scipy_tools.py
@@ -123,6 +123,9 @@ def minimize(
         def objective(vector: np.ndarray):
             return tuple(unit * np.asarray(value) for value in func(vector))
 
+    def scalar(value: float) -> float:
+        return float(np.squeeze(func(np.array([value]))[0]))
+
     ntrial = 0
     while ntrial < ntrials:
         ntrial += 1
@@ -162,6 +165,20 @@ def minimize(
         elif opt.success:
             break
 
+    # A step onto the edge where an expected rate vanishes ends the search, since the likelihood
+    # is cut off (flat) there, although it increases again right next to it
+    if do_grad and len(init_pars) == 1 and not any(fixed_vals) and bounds is not None:
+        edge, start = float(np.squeeze(opt.x)), float(init_pars[0])
+        if edge in bounds[0] and edge != start and scalar(edge + 1e-3 * (start - edge)) < opt.fun:
+            inner = scipy.optimize.minimize_scalar(
+                scalar,
+                bounds=(min(edge, start), max(edge, start)),
+                method="bounded",
+                options={"xatol": 1e-8 * abs(start - edge)},
+            )
+            if inner.fun < opt.fun:
+                opt.fun, opt.x = inner.fun, np.array([inner.x])
+
     if not opt.success:
         log.warning("Optimiser has not been able to satisfy all the conditions:")
         log.warning(opt.message)
-- 
2.43.0


From 395d2406230980a3b512966cd0661b68a0cd0986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:16 +0000
Subject: [PATCH 50/51] fix: one-parameter fits do not stop next to the edge of
 vanishing rates

---
 src/spey/optimizer/scipy_tools.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/spey/optimizer/scipy_tools.py b/src/spey/optimizer/scipy_tools.py
index 7462897..952c3a4 100644
--- a/src/spey/optimizer/scipy_tools.py
+++ b/src/spey/optimizer/scipy_tools.py
@@ -165,16 +165,16 @@ def minimize(
         elif opt.success:
             break
 
-    # A step onto the edge where an expected rate vanishes ends the search, since the likelihood
-    # is cut off (flat) there, although it increases again right next to it
-    if do_grad and len(init_pars) == 1 and not any(fixed_vals) and bounds is not None:
-        edge, start = float(np.squeeze(opt.x)), float(init_pars[0])
-        if edge in bounds[0] and edge != start and scalar(edge + 1e-3 * (start - edge)) < opt.fun:
+    # Next to the edge where an expected rate vanishes the likelihood is too steep for the line
+    # search, and cut off (flat) on the edge itself: a single parameter may be stopped there
+    if do_grad and len(init_pars) == 1 and not any(fixed_vals):
+        stop, start = float(np.squeeze(opt.x)), float(init_pars[0])
+        if scalar(stop + 1e-3 * (start - stop)) < opt.fun - tol:
             inner = scipy.optimize.minimize_scalar(
                 scalar,
-                bounds=(min(edge, start), max(edge, start)),
+                bounds=(min(stop, start), max(stop, start)),
                 method="bounded",
-                options={"xatol": 1e-8 * abs(start - edge)},
+                options={"xatol": 1e-8 * abs(start - stop)},
             )
             if inner.fun < opt.fun:
                 opt.fun, opt.x = inner.fun, np.array([inner.x])
-- 
2.43.0


From f82d83a1e60354346f4d98c7f5450f8951b943cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:44 +0000
Subject: [PATCH 51/51] fix: likelihood intervals of models with a singular
 Hessian

---
 src/spey/base/hypotest_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index c112400..a26242b 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -1478,7 +1478,8 @@ class HypothesisTestingBase(ABC):
 
             try:
                 sigma = self.sigma_mu(muhat, expected=expected)
-            except MethodNotAvailable:
+            except (MethodNotAvailable, np.linalg.LinAlgError):
+                # A flat (e.g. zero observed events) likelihood has no curvature
                 sigma = 1.0
             if not (np.isfinite(sigma) and sigma > 0.0):
                 sigma = 1.0
-- 
2.43.0

