From 2fcaa3ff435b1b5322057e7e7a22a2398447b1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 01/70] fix: support of LogNormalDistribution with negative
 central value

---
 flavio/statistics/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index ef61a03..1723693 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -346,8 +346,8 @@ class LogNormalDistribution(ProbabilityDistribution):
         self.log_central_value = math.log(abs(central_value))
         if central_value < 0:
             self.central_sign = -1
-            slim = math.exp(math.log(abs(central_value))
-                            - 6 * self.log_standard_deviation)
+            slim = -math.exp(math.log(abs(central_value))
+                             + 6 * self.log_standard_deviation)
             super().__init__(central_value,
                              support=(slim, 0))
         else:
-- 
2.43.0


From 7f50f2a7cb543f38069cd9e1388711cfa191cd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 02/70] fix: reject out-of-range zero central value in
 DiscreteUniformDistribution

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 1723693..ddd9c01 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -191,7 +191,7 @@ class DiscreteUniformDistribution(ProbabilityDistribution):
         - highest_value: highest integer value `b`
         - central_value (optional): integer within [a,b]. Default is int((a+b)/2)
         """
-        if central_value and (
+        if central_value is not None and (
             central_value > highest_value
             or central_value < lowest_value
         ):
-- 
2.43.0


From e5477d4a8fb2228c62a6d551e9f594d3857c12f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 03/70] fix: NumericalDistribution CDF and PPF consistent with
 the trapezoidal normalisation of the PDF

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index ddd9c01..1e9160a 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -890,7 +890,7 @@ class NumericalDistribution(ProbabilityDistribution):
         self.pdf_interp = interp1d(x, self.y_norm,
                                         fill_value=0, bounds_error=False)
         _cdf = np.zeros(len(x))
-        _cdf[1:] = np.cumsum(self.y_norm[:-1] * np.diff(x))
+        _cdf[1:] = np.cumsum((self.y_norm[1:] + self.y_norm[:-1]) / 2 * np.diff(x))
         _cdf = _cdf/_cdf[-1] # normalize CDF to 1
         self.ppf_interp = interp1d(_cdf, x)
         self.cdf_interp = interp1d(x, _cdf)
-- 
2.43.0


From 2d73cbf782fc0bc41d75dcde4063c39c496c1247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 04/70] fix: GammaDistributionPositive.cdf for arrays
 containing both negative and positive values

---
 flavio/statistics/probability.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 1e9160a..5f4ce15 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -687,10 +687,7 @@ class GammaDistributionPositive(ProbabilityDistribution):
     def cdf(self, x):
         cdf0 = self.scipy_dist.cdf(0)
         cdf = (self.scipy_dist.cdf(x) - cdf0)/(1-cdf0)
-        return np.piecewise(
-                    np.asarray(x, dtype=float),
-                    [x<0, x>=0],
-                    [0., cdf]) # return 0 for negative x
+        return np.where(np.asarray(x) < 0, 0., cdf) # return 0 for negative x
 
     def ppf(self, x):
         cdf0 = self.scipy_dist.cdf(0)
-- 
2.43.0


From 1196ec6954c098bd49a3214369fd454f03c56aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 05/70] fix: GeneralGammaDistributionPositive cannot be
 instantiated directly (undefined counts_total), apply small-std guard before
 the convolution

---
 flavio/statistics/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 5f4ce15..d876502 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1020,13 +1020,13 @@ class GeneralGammaDistributionPositive(NumericalDistribution):
         self.loc = loc
         self.scale = scale
         self.gaussian_standard_deviation = gaussian_standard_deviation
-        x, y = self._get_xy()
-        if self.gaussian_standard_deviation/np.sqrt(self.counts_total+1) < 1/100:
+        if self.gaussian_standard_deviation/np.sqrt(self.a) < 1/100:
             self.gaussian_standard_deviation = 0
             warnings.warn("For vanishing or very small Gaussian standard deviation, "
                           "it is safer to use GammaDistributionPositive instead of "
                           "GeneralGammaDistributionPositive to avoid numerical "
                           "instability.")
+        x, y = self._get_xy()
         super().__init__(x=x, y=y)
 
     def __repr__(self):
-- 
2.43.0


From 2fa1eacc5c83aa47bec5d94e578e2cf92bc78bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 06/70] fix: GammaUpperLimit ignores counts_signal

---
 flavio/statistics/probability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index d876502..acf8531 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -844,7 +844,8 @@ class GammaUpperLimit(GammaCountingProcess):
         super().__init__(
             scale_factor=scale_factor,
             counts_total=counts_total,
-            counts_background=counts_background)
+            counts_background=counts_background,
+            counts_signal=counts_signal)
 
     def __repr__(self):
         return ('flavio.statistics.probability.GammaUpperLimit'
-- 
2.43.0


From 2346a3f0adce996c7a158d160489ebaa768c8fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 07/70] fix: right-hand error of GammaDistributionPositive
 measured from the central value for one-sided ranges

---
 flavio/statistics/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index acf8531..c08d55a 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -729,8 +729,8 @@ class GammaDistributionPositive(ProbabilityDistribution):
         if self.logpdf(0) > self.logpdf(one_sided_error):
             # look at a one-sided 1 sigma range. If the PDF at 0
             # is smaller than the PDF at the boundary of this range, return the
-            # boundary of the range as the right-hand error
-            return one_sided_error
+            # distance to the boundary of the range as the right-hand error
+            return one_sided_error - self.central_value
         else:
             a = self._find_error_cdf(confidence_level(nsigma))
             return self.ppf(a + confidence_level(nsigma)) - self.central_value
-- 
2.43.0


From 0b3fead343a7cdc81d8bbf97b64422234fd4ef77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 08/70] fix: GammaDistribution.get_random without size argument

---
 flavio/statistics/probability.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index c08d55a..3602a98 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -602,7 +602,9 @@ class GammaDistribution(ProbabilityDistribution):
         return 'flavio.statistics.probability.GammaDistribution' + \
                '({}, {}, {})'.format(self.a, self.loc, self.scale)
 
-    def get_random(self, size):
+    def get_random(self, size=None):
+        if size is None:
+            return self.scipy_dist.rvs()
         return self.scipy_dist.rvs(size=size)
 
     def cdf(self, x):
-- 
2.43.0


From 8cccce81afa82427a66ed8d29e9658f754817463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 09/70] fix: GammaDistributionPositive.get_random() returns a
 number if no size is given

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 3602a98..555b1f2 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -673,7 +673,7 @@ class GammaDistributionPositive(ProbabilityDistribution):
 
     def get_random(self, size=None):
         if size is None:
-            return self._get_random(size=size)
+            return self.get_random(size=1)[0]
         else:
             # some iteration necessary as discarding negative values
             # might lead to too small size
-- 
2.43.0


From 72ae3ba6c53202041a74fd8db98ed166c3aa2ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 10/70] fix: MultivariateNumericalDistribution.get_random draws
 cells with the right probability

---
 flavio/statistics/probability.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 555b1f2..d478d39 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1546,11 +1546,9 @@ class MultivariateNumericalDistribution(ProbabilityDistribution):
             self._cdf_flat = _cdf_flat/_cdf_flat[-1]
         # draw a number between 0 and 1
         r = np.random.uniform()
-        # find the index of the CDF-value closest to r
-        i_r = np.argmin(np.abs(self._cdf_flat-r))
-        indices = np.where(self.y == self._y_flat[i_r])
-        i_bla = np.random.choice(len(indices[0]))
-        index = tuple([a[i_bla] for a in indices])
+        # find the index of the first CDF-value larger than r
+        i_r = np.searchsorted(self._cdf_flat, r, side='right')
+        index = np.unravel_index(i_r, self.y.shape)
         xi_r = [ self.xi[i][index[i]] for i in range(len(self.xi)) ]
         xi_diff = np.array([ X[1]-X[0] for X in self.xi ])
         return xi_r + np.random.uniform(low=-0.5, high=0.5, size=len(self.xi)) * xi_diff
-- 
2.43.0


From 0240e505e334e74c5683ca2bd55a913c577c8098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 11/70] fix: reflect upper-triangular covariance matrices also
 if the entries are tiny

---
 flavio/statistics/probability.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index d478d39..0e2f8b9 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1356,7 +1356,11 @@ class MultivariateNormalDistribution(ProbabilityDistribution):
         """
         if covariance is not None:
             covariance = np.array(covariance)
-            if not np.allclose(covariance, covariance.T):
+            # compare in units of the standard deviations, as the covariances
+            # can be arbitrarily small
+            _sd = np.sqrt(np.diag(covariance))
+            _scaled = covariance / np.outer(_sd, _sd)
+            if not np.allclose(_scaled, _scaled.T):
                 # if the covariance is not symmetric, it is assumed that only the values above the diagonal are present.
                 # then: M -> M + M^T - diag(M)
                 covariance = covariance + covariance.T - np.diag(np.diag(covariance))
-- 
2.43.0


From 92bc0b18436d34823689f53ee8feb15dbe0f8249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 12/70] fix: random numbers of MultivariateNormalDistribution
 with very different variances

---
 flavio/statistics/probability.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 0e2f8b9..cbcbff4 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1406,7 +1406,10 @@ class MultivariateNormalDistribution(ProbabilityDistribution):
 
     def get_random(self, size=None):
         """Get `size` random numbers (default: a single one)"""
-        return np.random.multivariate_normal(self.central_value, self.covariance, size)
+        # as in logpdf, rescale to avoid ill-conditioned covariance matrices
+        r = np.random.multivariate_normal(np.zeros(len(self.err)),
+                                          self.scaled_covariance, size)
+        return np.asarray(self.central_value) + r * self.err
 
     def reduce_dimension(self, exclude=None):
         """Return a different instance where certain dimensions, specified by
-- 
2.43.0


From 602b4206a602ad22848a9e0dafee5ddaef27285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 13/70] fix: support of MultivariateNumericalDistribution
 without explicit central value

---
 flavio/statistics/probability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index cbcbff4..a86f8cb 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1506,7 +1506,8 @@ class MultivariateNumericalDistribution(ProbabilityDistribution):
             # if no central value is specified, set it to the mode
             mode_index = (slice(None),) + np.unravel_index(self.y.argmax(), self.y.shape)
             mode = np.asarray(np.meshgrid(*self.xi, indexing='ij'))[mode_index]
-            super().__init__(central_value=mode, support=None)
+            super().__init__(central_value=mode,
+                             support=(np.asarray([x[0] for x in self.xi]), np.asarray([x[-1] for x in self.xi])))
         _bin_volume = np.prod([x[1] - x[0] for x in self.xi])
         self.y_norm = self.y / np.sum(self.y) / _bin_volume  # normalize PDF to 1
         # ignore warning from log(0)=-np.inf
-- 
2.43.0


From 1acb965073714b1265ee20a2ccd80a20784861c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 14/70] fix: convolution of multivariate normals with central
 values given as arrays

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index a86f8cb..0c27563 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1786,7 +1786,7 @@ def _convolve_multivariate_gaussians(probability_distributions, central_values='
         "Distributions should all be instances of MultivariateNormalDistribution"
     if central_values == 'same':
         central_value = probability_distributions[0].central_value  # central value of the first dist
-        assert all(p.central_value == central_value for p in probability_distributions), \
+        assert all(np.array_equal(p.central_value, central_value) for p in probability_distributions), \
             "Distrubtions must all have the same central value"
     elif central_values == 'sum':
         central_value = np.sum([p.central_value for p in probability_distributions], axis=0)
-- 
2.43.0


From 56019a31fe18e7b8e0ab57fe36d24488aa9aa7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 15/70] fix: grid and central value of the convolution of
 multivariate normal and numerical distributions

---
 flavio/statistics/probability.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 0c27563..7e62d38 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1841,11 +1841,10 @@ def _convolve_multivariate_gaussian_numerical(mvgaussian,
     xi = np.zeros((len(mvnumerical.xi), nsteps))
     for i, x in enumerate(mvnumerical.xi):
         # enlarge the support
-        cvn = mvnumerical.central_value[i]
         cvg = mvgaussian.central_value[i]
         supp = [s[i] for s in mvgaussian.support]
-        x_max = cvn + (x[-1] - cvn) + (supp[-1] - cvn) +  np.mean(x) - cvg
-        x_min = cvn + (x[0] - cvn) + (supp[0] - cvn) +  np.mean(x) - cvg
+        x_max = x[-1] + (supp[-1] - cvg)
+        x_min = x[0] + (supp[0] - cvg)
         xi[i] = np.linspace(x_min, x_max, nsteps)
     xi_grid = np.array(np.meshgrid(*xi, indexing='ij'))
     # this will transpose from shape (0, 1, 2, ...) to (1, 2, ..., 0)
@@ -1857,10 +1856,12 @@ def _convolve_multivariate_gaussian_numerical(mvgaussian,
     f = scipy.signal.fftconvolve(y_num, y_gauss, mode='same')
     f[f < 0] = 0
     f = f/f.sum()
+    central_value = np.array(mvnumerical.central_value)
     if central_values == 'sum':
         # shift back
         xi = (xi.T + np.array(mvgaussian.central_value)).T
-    return MultivariateNumericalDistribution(xi, f)
+        central_value = central_value + np.array(mvgaussian.central_value)
+    return MultivariateNumericalDistribution(xi, f, central_value=central_value)
 
 
 def combine_distributions(probability_distributions):
-- 
2.43.0


From 8c5bf2b294564b605b6e6534dc07cd34ba9b73b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 16/70] fix: actually raise NotImplementedError when convolving
 several multivariate numerical distributions

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 7e62d38..4d96eec 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1753,7 +1753,7 @@ def _convolve_distributions_multivariate(probability_distributions, central_valu
     else:
         # otherwise, we need to combine the (combined) gaussian with the others
         if len(others) > 1:
-            NotImplementedError("Combining multivariate numerical distributions not implemented")
+            raise NotImplementedError("Combining multivariate numerical distributions not implemented")
         else:
             num = _convolve_multivariate_gaussian_numerical(gaussian, others[0],
                                                   central_values=central_values)
-- 
2.43.0


From 522e8f003547cc054d4fa65ede6d6737c9a110aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 17/70] fix: GeneralGammaUpperLimit with tiny background_std
 rejected its own arguments

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 4d96eec..e660ce0 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1226,7 +1226,6 @@ class GeneralGammaUpperLimit(GeneralGammaCountingProcess):
                 background_std = background_variance
         elif background_std is None:
             background_std = 0
-        self.background_variance = background_std
         self.limit = limit
         self.confidence_level = confidence_level
         _d_unscaled = GeneralGammaCountingProcess(
@@ -1244,6 +1243,7 @@ class GeneralGammaUpperLimit(GeneralGammaCountingProcess):
             counts_background=counts_background,
             counts_signal=counts_signal,
             background_std=background_std)
+        self.background_variance = self.background_std
 
     def __repr__(self):
         return ('flavio.statistics.probability.GeneralGammaUpperLimit'
-- 
2.43.0


From bd5362bb046d7580732e0b5a9d8b0c5dfd8b6ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 18/70] fix: get_dict of a distribution modified its list
 attributes

---
 flavio/statistics/probability.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index e660ce0..e8a5dca 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -90,7 +90,9 @@ class ProbabilityDistribution(object):
         od = OrderedDict()
         if distribution:
             od['distribution'] = self.class_to_string()
-        od.update(OrderedDict((a, d[a]) for a in args))
+        # copy lists, as they are modified below
+        od.update(OrderedDict((a, list(d[a]) if isinstance(d[a], list) else d[a])
+                              for a in args))
         if iterate:
             for k in od:
                 if isinstance(od[k], ProbabilityDistribution):
-- 
2.43.0


From 2a4aaf5f6454cda05a73d5d5e6329e0edfb58a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 19/70] fix: kernel density estimates can be read back from
 their dictionaries

---
 flavio/statistics/probability.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index e8a5dca..312a2f1 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -96,7 +96,8 @@ class ProbabilityDistribution(object):
         if iterate:
             for k in od:
                 if isinstance(od[k], ProbabilityDistribution):
-                    od[k] = od[k].get_dict(distribution=True)
+                    od[k] = od[k].get_dict(distribution=True, iterate=True,
+                                           arraytolist=arraytolist)
         if arraytolist:
             for k in od:
                 if isinstance(od[k], np.ndarray):
@@ -1276,7 +1277,7 @@ class KernelDensityEstimate(NumericalDistribution):
         if n_bins is None:
             self.n_bins = min(1000, self.n)
         else:
-            self.n_bins = n_bins
+            self.n_bins = int(n_bins)
         y, x_edges = np.histogram(data, bins=self.n_bins, density=True)
         x = (x_edges[:-1] + x_edges[1:])/2.
         self.y_raw = y
@@ -2058,6 +2059,9 @@ def dict2dist(constraint_dict):
         dict_list = constraint_dict
     pds = []
     def convertv(v):
+        # nested distribution (e.g. the kernel of a KernelDensityEstimate)
+        if isinstance(v, dict) and 'distribution' in v:
+            return dict2dist(v)[0]
         # convert v to float if possible
         try:
             return float(v)
-- 
2.43.0


From 04c43ebb887b9823f8198ce03fe804975321abd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 20/70] fix: negative numbers with a typographic minus sign as
 constraint string

---
 flavio/_parse_errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/_parse_errors.py b/flavio/_parse_errors.py
index b30cdd2..0dd46cc 100644
--- a/flavio/_parse_errors.py
+++ b/flavio/_parse_errors.py
@@ -146,8 +146,8 @@ def constraints_from_string(constraint_string):
         # try again if the number is a float now
         try:
             float(constraint_string)
-            return {'central_value': float(constraint_string)}
-        except:
+            return [DeltaDistribution(float(constraint_string))]
+        except ValueError:
             pass
     if _pattern_upperlimit.match(constraint_string):
         limit, cl = limit_from_string(constraint_string)
-- 
2.43.0


From c235246959f8275518e8d764af3bbd794c116d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 21/70] fix: reject constraint strings whose errors are only
 partly understood

---
 flavio/_parse_errors.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flavio/_parse_errors.py b/flavio/_parse_errors.py
index 0dd46cc..8cdfaa0 100644
--- a/flavio/_parse_errors.py
+++ b/flavio/_parse_errors.py
@@ -60,6 +60,11 @@ def errors_from_string(constraint_string):
             right_err = float(err[0])*overall_factor
             left_err = float(err[1])*overall_factor
             errors['asymmetric_errors'].append((right_err, left_err))
+        # make sure that nothing is ignored, e.g. in '1.0+-0.1+0.3'
+        error_string = pattern_symmetric_err.sub('', error_string)
+        error_string = pattern_asymmetric_err.sub('', error_string)
+    if not pattern_brackets_err.match(error_string) and error_string.strip():
+        raise ValueError("Constraint " + constraint_string + " not understood")
     return errors
 
 def limit_from_string(constraint_string):
-- 
2.43.0


From f2aaecd2a8f2d46dcd8b23bdc059cc83b08478a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 22/70] fix: use the same distribution instance for several
 constraints

---
 flavio/classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flavio/classes.py b/flavio/classes.py
index b55e748..af5c40b 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -147,6 +147,10 @@ class Constraints(object):
         `constraint` must be an instance of a child of ProbabilityDistribution.
 
         Note that if there already exists a constraint, it will be removed."""
+        # constraints are identified by their instance: if an instance is used
+        # more than once, add a copy of it
+        if any(constraint is c for c, _ in self._constraints):
+            constraint = copy.copy(constraint)
         for num, parameter in enumerate(parameters):
             if is_parameter_constraint:
                 try: # check if parameter object already exists
-- 
2.43.0


From 6365e265cf403cbc12a3652271a6a8c4faef65ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 23/70] fix: removed constraints do not reappear when
 constraints are written to YAML

---
 flavio/classes.py                | 9 +++++++++
 flavio/statistics/probability.py | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index af5c40b..842a791 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -382,6 +382,15 @@ class Constraints(object):
         """
         data = []
         for constraint, parameters in self._constraints:
+            # parameters whose constraint has been removed or replaced
+            exclude = tuple(i for i, p in enumerate(parameters)
+                            if self._parameters.get(p, None) != (i, constraint))
+            if len(exclude) == len(parameters):
+                continue
+            if exclude:
+                constraint = constraint.reduce_dimension(exclude=exclude)
+                parameters = [p for i, p in enumerate(parameters)
+                              if i not in exclude]
             d = OrderedDict()
             d[pname] = [list(p) if isinstance(p, tuple) else p for p in parameters]
             d['values'] = constraint.get_dict(distribution=True,
diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 312a2f1..72b69da 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1584,7 +1584,7 @@ class MultivariateNumericalDistribution(ProbabilityDistribution):
         cv = np.delete(self.central_value, tuple(exclude))
         if len(xi) == 1:
             # if there is just 1 dimension left, use univariate
-            dist = NumericalDistribution(xi[0], y, cv)
+            dist = NumericalDistribution(xi[0], y, cv[0])
         else:
             dist = MultivariateNumericalDistribution(xi, y, cv)
         return dist
-- 
2.43.0


From 5e1d84624a6202962c4723ccecffad66f324097b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 24/70] fix: deprecated alias get_1d_errors returned None

---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index 842a791..c2d7cbe 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -266,7 +266,7 @@ class Constraints(object):
         warnings.warn("This function was renamed to `get_1d_errors_random` "
                       "in v0.16 and will be removed in the future. ",
                       DeprecationWarning)
-        self.get_1d_errors_random(N)
+        return self.get_1d_errors_random(N)
 
     def get_1d_errors_random(self, N=1000):
         """Get the Gaussian standard deviation for every parameter/observable
-- 
2.43.0


From 3dc86478c75daccbe95b548afd344585ebf8e450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 25/70] fix: the key 'arguments' is optional when reading
 constraints from a dictionary

---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index c2d7cbe..2729e76 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -449,7 +449,7 @@ class Constraints(object):
         if isinstance(data, dict):
             constraints = data['constraints']
             meta = data.get('metadata', {})
-            arguments = data['arguments']
+            arguments = data.get('arguments', {})
             kwargs.update(arguments)
             inst = instance or cls(*args, **kwargs)
             for m in meta:
-- 
2.43.0


From 9c10158fe9a83707b103bd09ccfad21199dd5d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 26/70] fix: B->Vlnu, K->pilnu and Lambda->plnu observables for
 a generic lepton raised KeyError

---
 flavio/physics/bdecays/bvlnu.py      | 26 +++++++++++++++++---------
 flavio/physics/kdecays/kpilnu.py     | 10 ++++++++++
 flavio/physics/kdecays/lambdaplnu.py |  4 ++++
 3 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/flavio/physics/bdecays/bvlnu.py b/flavio/physics/bdecays/bvlnu.py
index 410546f..bb35e8b 100644
--- a/flavio/physics/bdecays/bvlnu.py
+++ b/flavio/physics/bdecays/bvlnu.py
@@ -168,6 +168,12 @@ def kinem_allowed(q2, par, B, V, lep):
         return True
 
 def FL_diff(q2, wc_obj, par, B, V, lep):
+    if lep == 'l':
+        # average of e and mu!
+        num = dBRdq2(q2, wc_obj, par, B, V, lep, A='L')
+        if num == 0:
+            return 0
+        return num / dBRdq2(q2, wc_obj, par, B, V, lep, A=None)
     if not kinem_allowed(q2, par, B, V, lep):
         return 0
     J = get_angularcoeff(q2, wc_obj, par, B, V, lep)
@@ -182,14 +188,15 @@ def FL_binned(q2min, q2max, wc_obj, par, B, V, lep):
     return num / denom
 
 def Itot_norm(fct_J, wc_obj, par, B, V, lep):
-    def fct(q2):
-        J = get_angularcoeff(q2, wc_obj, par, B, V, lep)
-        return fct_J(J)
-    num = obs_q2int(fct, wc_obj, par, B, V, lep)
-    def fct_den(q2):
-        J = get_angularcoeff(q2, wc_obj, par, B, V, lep)
-        return dGdq2(J)
-    den = obs_q2int(fct_den, wc_obj, par, B, V, lep)
+    def integral(fct_J, lep):
+        def fct(q2):
+            J = get_angularcoeff(q2, wc_obj, par, B, V, lep)
+            return fct_J(J)
+        return obs_q2int(fct, wc_obj, par, B, V, lep)
+    # for l, average of e and mu!
+    leptons = ['e', 'mu'] if lep == 'l' else [lep]
+    num = sum(integral(fct_J, l) for l in leptons)
+    den = sum(integral(dGdq2, l) for l in leptons)
     return num / den
 
 def dBR_dq2_dcosthl_binned(q2, clmin, clmax, wc_obj, par, B, V, lep):
@@ -344,7 +351,8 @@ def FL_tot_function(B, V, lep):
     def f(wc_obj, par):
         mB = par['m_'+B]
         mV = par['m_'+V]
-        ml = par['m_'+lep]
+        # for l, average of e and mu!
+        ml = par['m_e'] if lep == 'l' else par['m_'+lep]
         q2max = (mB-mV)**2
         q2min = ml**2
         return FL_binned(q2min, q2max, wc_obj, par, B, V, lep)
diff --git a/flavio/physics/kdecays/kpilnu.py b/flavio/physics/kdecays/kpilnu.py
index 4f2410e..8dea7f3 100644
--- a/flavio/physics/kdecays/kpilnu.py
+++ b/flavio/physics/kdecays/kpilnu.py
@@ -74,6 +74,10 @@ def BR_tot(wc_obj, par, K, P, lep):
     return BR_binned(q2min, q2max, wc_obj, par, K, P, lep)
 
 def BR_tot_function(K, P, lep):
+    if lep == 'l':
+        # average of e and mu!
+        return lambda wc_obj, par: (BR_tot(wc_obj, par, K, P, 'e')
+                                    + BR_tot(wc_obj, par, K, P, 'mu')) / 2
     return lambda wc_obj, par: BR_tot(wc_obj, par, K, P, lep)
 
 
@@ -106,12 +110,18 @@ def RT(wc_obj, par, lep):
 
 def logC_function(lep):
     def _(wc_obj, par):
+        if lep == 'l':
+            # average of e and mu!
+            return (logC(wc_obj, par, 'e') + logC(wc_obj, par, 'mu')) / 2
         return logC(wc_obj, par, lep)
     return _
 
 
 def RT_function(lep):
     def _(wc_obj, par):
+        if lep == 'l':
+            # average of e and mu!
+            return (RT(wc_obj, par, 'e') + RT(wc_obj, par, 'mu')) / 2
         return RT(wc_obj, par, lep)
     return _
 
diff --git a/flavio/physics/kdecays/lambdaplnu.py b/flavio/physics/kdecays/lambdaplnu.py
index 85c1970..840a2d0 100644
--- a/flavio/physics/kdecays/lambdaplnu.py
+++ b/flavio/physics/kdecays/lambdaplnu.py
@@ -15,6 +15,10 @@ def g1_f1(wc_obj, par, lep, nu):
 
 def g1_f1_fct(lep):
     def f(wc_obj, par):
+        if lep == 'l':
+            # average of e and mu!
+            return (g1_f1(wc_obj, par, lep='e', nu='e')
+                    + g1_f1(wc_obj, par, lep='mu', nu='mu')) / 2
         return g1_f1(wc_obj, par, lep=lep, nu=lep)
     return f
 
-- 
2.43.0


From e044db364058a461ddc845783a5431fc4371e034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 27/70] fix: K_S->e mu raised an error and K_L->e mu neglected
 the amplitude of the anti-K0

---
 flavio/physics/kdecays/kll.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/flavio/physics/kdecays/kll.py b/flavio/physics/kdecays/kll.py
index a2b0b04..a4b0cad 100644
--- a/flavio/physics/kdecays/kll.py
+++ b/flavio/physics/kdecays/kll.py
@@ -60,12 +60,18 @@ def amplitudes_eff(par, wc, K, l1, l2, ld=True):
         PLD = 0
     else:
         SLD, PLD = amplitudes_LD(par, K, l1)
-    if K == 'KS' and l1 == l2:
-        Peff = P.imag
-        Seff = S.real + SLD
+    if l1 == l2:
+        Pbar, Sbar = P.conjugate(), S.conjugate()
+    else:
+        # K0 and anti-K0 decay to l1+l2- through different operators
+        P21, S21 = amplitudes(par, wc, l2, l1)
+        Pbar, Sbar = P21.conjugate(), S21.conjugate()
+    if K == 'KS':
+        Peff = (P - Pbar) / 2j
+        Seff = (S + Sbar) / 2 + SLD
     if K == 'KL':
-        Peff = P.real + PLD
-        Seff = S.imag
+        Peff = (P + Pbar) / 2 + PLD
+        Seff = (S - Sbar) / 2j
     return Peff, Seff
 
 
@@ -73,6 +79,9 @@ def get_wc(wc_obj, par, l1, l2):
     scale = config['renormalization scale']['kdecays']
     label = 'sd' + l1 + l2
     wcnp = wc_obj.get_wc(label, scale, par)
+    if l1 != l2:
+        # coefficients of the operators with exchanged leptons
+        wcnp.update(wc_obj.get_wc('sd' + l2 + l1, scale, par))
     if l1 == l2:
         # include SM contributions for LF conserving decay
         _c = wilsoncoefficients_sm_sl(par, scale)
-- 
2.43.0


From d9f3f413bff729818a7632dfea02b320f01fac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 28/70] fix: electromagnetic corrections to K+->pi0lnu were
 ignored

---
 flavio/physics/kdecays/kpilnu.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/kdecays/kpilnu.py b/flavio/physics/kdecays/kpilnu.py
index 8dea7f3..99f5e3a 100644
--- a/flavio/physics/kdecays/kpilnu.py
+++ b/flavio/physics/kdecays/kpilnu.py
@@ -53,12 +53,14 @@ def dBRdq2(q2, wc_obj, par, K, P, lep):
     J = get_angularcoeff(q2, wc_obj, par, K, P, lep)
     if P == 'pi0':
         # factor of 1/2 for neutral pi due to pi = (uubar-ddbar)/sqrt(2)
-        return tauK * dGdq2(J) / 2.
+        isospin = 1 / 2
+    else:
+        isospin = 1
     if K == 'K+':
         deltaEM = par['K+' + lep + '3 delta_EM'] # e.g. 'K+e3 delta_EM'
     elif K == 'KL' or K == 'KS':
         deltaEM = par['K0' + lep + '3 delta_EM'] # e.g. 'K+e3 delta_EM'
-    return tauK * dGdq2(J) * (1 + deltaEM)**2
+    return tauK * isospin * dGdq2(J) * (1 + deltaEM)**2
 
 def BR_binned(q2min, q2max, wc_obj, par, K, P, lep):
     def integrand(q2):
-- 
2.43.0


From f7cc781e5168af522d639dde0eaf80eaa96078b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 29/70] fix: scalar contributions to D+->lnu and Ds->lnu used
 the b quark mass instead of the d or s quark mass

---
 flavio/physics/ddecays/dlnu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/ddecays/dlnu.py b/flavio/physics/ddecays/dlnu.py
index 1857e56..3b54b6e 100644
--- a/flavio/physics/ddecays/dlnu.py
+++ b/flavio/physics/ddecays/dlnu.py
@@ -22,9 +22,9 @@ def _br_Dlnu(wc_obj, par, P, lep, nu):
     # add SM contribution to Wilson coefficient
     if lep == nu:
         wc['CVL_'+qiqj+lep+'nu' + nu] += flavio.physics.bdecays.wilsoncoefficients.get_CVLSM(par, scale, nf=4)
-    mb = flavio.physics.running.running.get_mb(par, scale)
     mc = flavio.physics.running.running.get_mc(par, scale)
-    return br_plnu_general(wc, par, Vij, P, qiqj, lep, nu, mb, mc, delta=0)
+    mq = flavio.physics.running.running.get_mq(qiqj[0], par, scale)
+    return br_plnu_general(wc, par, Vij, P, qiqj, lep, nu, mc, mq, delta=0)
 
 # function returning function needed for prediction instance
 def br_Dlnu_fct(P, lep):
-- 
2.43.0


From c819ceec57feb80222ebf97772cfa27efce194a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 30/70] fix: sign of the interference of scalar and vector
 operators in D->Plnu

---
 flavio/physics/ddecays/dplnu.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flavio/physics/ddecays/dplnu.py b/flavio/physics/ddecays/dplnu.py
index 172be0c..92af466 100644
--- a/flavio/physics/ddecays/dplnu.py
+++ b/flavio/physics/ddecays/dplnu.py
@@ -72,7 +72,11 @@ def _get_angularcoeff(q2, wc_obj, par, D, P, lep, nu):
         mlight = running.get_md(par, scale)
     if qi_qj == 'cs':
         mlight = running.get_ms(par, scale)
-    h = angular.helicity_amps_p(q2, mD, mP, mc, mlight, ml, 0, ff, wc, N)
+    # the operators of the sector `dc` are (cbar d)(lbar nu), so that the
+    # hermitian conjugate (dbar c) contributes: compared to a decay due to
+    # (dbar c)(lbar nu), the sign of the (C-even) scalar current relative to the
+    # vector and tensor currents is flipped.
+    h = angular.helicity_amps_p(q2, mD, mP, mlight, mc, ml, 0, ff, wc, N)
     J = angular.angularcoeffs_general_p(h, q2, mD, mP, mc, mlight, ml, 0)
     return J
 
-- 
2.43.0


From d527180e9b3b69bcefc2215eb84a3db667a99130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 31/70] fix: f0(q2=0)=f+(q2=0) for B->P and D->P form factors
 in the BCL parametrisation

---
 flavio/physics/bdecays/formfactors/b_p/bcl.py | 2 +-
 flavio/physics/ddecays/formfactors/bcl.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/bdecays/formfactors/b_p/bcl.py b/flavio/physics/bdecays/formfactors/b_p/bcl.py
index d335f9d..f80aa25 100644
--- a/flavio/physics/bdecays/formfactors/b_p/bcl.py
+++ b/flavio/physics/bdecays/formfactors/b_p/bcl.py
@@ -57,7 +57,7 @@ def ff(process, q2, par, n=3, t0=None):
         a['f0'] = [ par[process + ' BCL' + ' a' + str(j) + '_f0'] for j in range(n-1) ]
         fplus_q20 = pole('f+', mpl, 0) * param_fplusT(mB, mP, a['f+'], 0, t0)
         f0_q20 = pole('f0', m0, 0) * param_f0(mB, mP, a['f0'], 0, t0)
-        an_f0 = (f0_q20-fplus_q20)/z(mB, mP, 0, t0)**(n-1)
+        an_f0 = (fplus_q20-f0_q20)/z(mB, mP, 0, t0)**(n-1)
         a['f0'].append(an_f0)
     # evaluate FFs
     ff['f+'] = chL * pole('f+', mpl, q2) * param_fplusT(mB, mP, a['f+'], q2, t0)
diff --git a/flavio/physics/ddecays/formfactors/bcl.py b/flavio/physics/ddecays/formfactors/bcl.py
index 1bd93cd..7f01a00 100644
--- a/flavio/physics/ddecays/formfactors/bcl.py
+++ b/flavio/physics/ddecays/formfactors/bcl.py
@@ -37,7 +37,7 @@ def ff(process, q2, par, n=3, t0=None):
     a['f0'] = [par[process + ' BCL' + ' a' + str(j) + '_f0'] for j in range(n-1)]
     fplus_q20 = pole('f+', mpl, 0) * param_fplusT(mB, mP, a['f+'], 0, t0)
     f0_q20 = pole('f0', m0, 0) * param_f0(mB, mP, a['f0'], 0, t0)
-    an_f0 = (f0_q20-fplus_q20)/z(mB, mP, 0, t0)**(n-1)
+    an_f0 = (fplus_q20-f0_q20)/z(mB, mP, 0, t0)**(n-1)
     a['f0'].append(an_f0)
     # evaluate FFs
     ff['f+'] = pole('f+', mpl, q2) * param_fplusT(mB, mP, a['f+'], q2, t0)
-- 
2.43.0


From 173ccb5336696735442371d439a9037c055b7b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 32/70] fix: evaluating B->V and Lambda_b->Lambda form factors
 modified the dictionary of parameters

---
 flavio/physics/bdecays/formfactors/b_v/bsz.py        | 6 +++---
 flavio/physics/bdecays/formfactors/lambdab_12/sse.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/flavio/physics/bdecays/formfactors/b_v/bsz.py b/flavio/physics/bdecays/formfactors/b_v/bsz.py
index db3b30d..32b26e9 100644
--- a/flavio/physics/bdecays/formfactors/b_v/bsz.py
+++ b/flavio/physics/bdecays/formfactors/b_v/bsz.py
@@ -50,9 +50,9 @@ def ff(process, q2, par, n=2, omit_A='A0'):
     # cf. eq. (16) of arXiv:1503.05534
     flavio.citations.register("Straub:2015ica")
     par_prefix = process + ' BSZ'
-    par[par_prefix + ' a0_A12'] = par[par_prefix + ' a0_A0'] / (8*mB*mV / (mB**2-mV**2))
-    par[par_prefix + ' a0_T2'] = par[par_prefix + ' a0_T1']
+    a0 = {'A12': par[par_prefix + ' a0_A0'] / (8*mB*mV / (mB**2-mV**2)),
+          'T2': par[par_prefix + ' a0_T1']}
     for i in ["A0","A1","A12","V","T1","T2","T23"]:
-        a = [ par[par_prefix + ' a' + str(j) + '_' + i] for j in range(n) ]
+        a = [ a0[i] if j == 0 and i in a0 else par[par_prefix + ' a' + str(j) + '_' + i] for j in range(n) ]
         ff[i] = pole(i, mres, q2)*np.dot(a, zs(mB, mV, q2, t0=None)[:n])
     return ff
diff --git a/flavio/physics/bdecays/formfactors/lambdab_12/sse.py b/flavio/physics/bdecays/formfactors/lambdab_12/sse.py
index 7bc08c6..3c32d17 100644
--- a/flavio/physics/bdecays/formfactors/lambdab_12/sse.py
+++ b/flavio/physics/bdecays/formfactors/lambdab_12/sse.py
@@ -50,9 +50,9 @@ def ff(process, q2, par, n=2):
     mP = par['m_'+pd['P']]
     ff = {}
     # implementing the two endpoint relations in (7) and (8) of arXiv:1602.01399
-    par[process+' SSE a0_fAperp'] = par[process+' SSE a0_fA0']
-    par[process+' SSE a0_fT5perp'] = par[process+' SSE a0_fT50']
+    a0 = {'fAperp': par[process+' SSE a0_fA0'],
+          'fT5perp': par[process+' SSE a0_fT50']}
     for i in ['fA0', 'fAperp', 'fAt', 'fT0', 'fT50', 'fT5perp', 'fTperp', 'fV0', 'fVperp', 'fVt']:
-        a = [ par[process+' SSE ' + 'a' + str(j) + '_' + i] for j in range(n) ]
+        a = [ a0[i] if j == 0 and i in a0 else par[process+' SSE ' + 'a' + str(j) + '_' + i] for j in range(n) ]
         ff[i] = pole(i, mres, q2)*np.dot(a, zs(mX, mP, par, q2)[:n])
     return ff
-- 
2.43.0


From 5edfb87b7232ab9d8034d5e5a816b53c2b39874e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 33/70] fix: combined lepton flavour violating modes of
 (pseudo)scalar quarkonia all had the final state mu tau

---
 flavio/physics/quarkonium/Pll.py | 2 +-
 flavio/physics/quarkonium/Sll.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/quarkonium/Pll.py b/flavio/physics/quarkonium/Pll.py
index 951fb09..3dbb813 100644
--- a/flavio/physics/quarkonium/Pll.py
+++ b/flavio/physics/quarkonium/Pll.py
@@ -97,7 +97,7 @@ for M in _hadr:
     for (l1,l2) in [('e','mu'), ('mu','e'), ('e','tau'), ('tau','e'), ('mu','tau'), ('tau','mu')]:
         _obs_name = _define_obs_P_ll(M, (l1,l2))
         Prediction(_obs_name, Pll_br_func(_hadr[M]['P'], l1, l2))
-    for ll in [('e','mu'), ('e','tau'), ('mu','tau')]:
+    for (l1,l2) in [('e','mu'), ('e','tau'), ('mu','tau')]:
         # Combined l1+ l2- + l2+ l1- lepton flavour violating decays
         _obs_name = _define_obs_P_ll(M, ('{0}{1},{1}{0}'.format(l1,l2),))
         Prediction(_obs_name, Pll_br_comb_func(_hadr[M]['P'], l1,l2))
diff --git a/flavio/physics/quarkonium/Sll.py b/flavio/physics/quarkonium/Sll.py
index d6d9879..59d9ca3 100644
--- a/flavio/physics/quarkonium/Sll.py
+++ b/flavio/physics/quarkonium/Sll.py
@@ -90,7 +90,7 @@ for M in _hadr:
     for (l1,l2) in [('e','mu'), ('mu','e'), ('e','tau'), ('tau','e'), ('mu','tau'), ('tau','mu')]:
         _obs_name = _define_obs_S_ll(M, (l1,l2))
         Prediction(_obs_name, Sll_br_func(_hadr[M]['S'], l1,l2))
-    for ll in [('e','mu'), ('e','tau'), ('mu','tau')]:
+    for (l1,l2) in [('e','mu'), ('e','tau'), ('mu','tau')]:
         # Combined l1+ l2- + l2+ l1- lepton flavour violating decays
         _obs_name = _define_obs_S_ll(M, ('{0}{1},{1}{0}'.format(l1,l2),))
         Prediction(_obs_name, Sll_br_comb_func(_hadr[M]['S'],  l1,l2))
-- 
2.43.0


From fcae90b0d4efbb6b439083e9b24e8811d499ed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 34/70] fix: relative sign and complex conjugation of vector
 contributions to lepton flavour violating decays of pseudoscalar quarkonia

---
 flavio/physics/quarkonium/Pll.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/quarkonium/Pll.py b/flavio/physics/quarkonium/Pll.py
index 3dbb813..1d95975 100644
--- a/flavio/physics/quarkonium/Pll.py
+++ b/flavio/physics/quarkonium/Pll.py
@@ -34,8 +34,14 @@ def getS_lfv(wc_obj,par,P,l1,l2,CeGGij,CeGGji):
     else:
         ll=wc_sector[(l1,l2)]
     aPfac=1j*aP*4.*np.pi/alphas
-    SR= aPfac * CeGGij +  (hP/(4*mq))*(wc['CSRR_'+l1+l2+qq]-wc['CSRL_'+l1+l2+qq])  -(fP/2.)*(ml1*(wc['CVRR_'+ll+qq] - wc['CVLR_'+qq+ll])+ml2* (wc['CVLR_'+ll+qq] -wc['CVLL_'+ll+qq] ))  
-    SL= aPfac * CeGGji + (hP/(4*mq))*(wc['CSRL_'+l2+l1+qq]-wc['CSRR_'+l2+l1+qq]).conjugate() -(fP/2.)*(ml2*(wc['CVRR_'+ll+qq] - wc['CVLR_'+qq+ll])+ml1* (wc['CVLR_'+ll+qq] -wc['CVLL_'+ll+qq] )) 
+    AR=wc['CVRR_'+ll+qq] - wc['CVLR_'+qq+ll]
+    AL=wc['CVLR_'+ll+qq] - wc['CVLL_'+ll+qq]
+    if ll==l2+l1:
+        AR=AR.conjugate()
+        AL=AL.conjugate()
+    # the leptonic vector current (AR=AL) does not contribute for equal lepton masses
+    SR= aPfac * CeGGij +  (hP/(4*mq))*(wc['CSRR_'+l1+l2+qq]-wc['CSRL_'+l1+l2+qq])  -(fP/2.)*(ml1*AR-ml2*AL)
+    SL= aPfac * CeGGji + (hP/(4*mq))*(wc['CSRL_'+l2+l1+qq]-wc['CSRR_'+l2+l1+qq]).conjugate() -(fP/2.)*(ml1*AL-ml2*AR)
     return SL,SR
 
 
-- 
2.43.0


From da99f0f02dc35a30015ba2e22a706c5ab812ad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 35/70] fix: masses of up and down quark were interchanged in
 the EDMs

---
 flavio/physics/edms/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/edms/common.py b/flavio/physics/edms/common.py
index 7d7f06b..8c6dad9 100644
--- a/flavio/physics/edms/common.py
+++ b/flavio/physics/edms/common.py
@@ -12,9 +12,9 @@ def get_m(par, f, scale, eft):
         return par['m_' + f]
     nf_out = eft_nf_out[eft]
     if f == 'u':
-        return flavio.physics.running.running.get_md(par, scale, nf_out=nf_out)
-    elif f == 'd':
         return flavio.physics.running.running.get_mu(par, scale, nf_out=nf_out)
+    elif f == 'd':
+        return flavio.physics.running.running.get_md(par, scale, nf_out=nf_out)
     elif f == 's':
         return flavio.physics.running.running.get_ms(par, scale, nf_out=nf_out)
     else:
-- 
2.43.0


From 48340b86d66b5383fd9ebe69cab741da9a08c2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:43 +0000
Subject: [PATCH 36/70] fix: imaginary part of the QED correction omega_29 to
 the B->Xll branching ratio

---
 flavio/physics/bdecays/bxll_qed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/bdecays/bxll_qed.py b/flavio/physics/bdecays/bxll_qed.py
index f2acb85..d188b97 100644
--- a/flavio/physics/bdecays/bxll_qed.py
+++ b/flavio/physics/bdecays/bxll_qed.py
@@ -269,7 +269,7 @@ def wem_27_re_low(sh, mb, ml, scale, mc):
 
 
 def wem_29_high(sh, mb, ml, scale, mc):
-    return wem_29_re_high(sh, mb, ml, scale, mc) + 1j*wem_29_re_high(sh, mb, ml, scale, mc)
+    return wem_29_re_high(sh, mb, ml, scale, mc) + 1j*wem_29_im_high(sh, mb, ml, scale, mc)
 
 
 def wem_29_re_high(sh, mb, ml, scale, mc):
@@ -296,7 +296,7 @@ def wem_29_im_low(sh, mb, ml, scale, mc):
 
 
 def wem_29_low(sh, mb, ml, scale, mc):
-    return wem_29_re_low(sh, mb, ml, scale, mc) + 1j*wem_29_re_low(sh, mb, ml, scale, mc)
+    return wem_29_re_low(sh, mb, ml, scale, mc) + 1j*wem_29_im_low(sh, mb, ml, scale, mc)
 
 def wem_29_re_low(sh, mb, ml, scale, mc):
     return (((154715658 / 8534309 + 12910827 / (114675722 * sh) -
-- 
2.43.0


From 4eaa491302e8e0bbf41fd5db4761e1241fdf0a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:43 +0000
Subject: [PATCH 37/70] fix: QED correction to B->Xll proportional to C1*C7 was
 always zero

---
 flavio/physics/bdecays/bxll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bxll.py b/flavio/physics/bdecays/bxll.py
index 7de7a42..5900b91 100644
--- a/flavio/physics/bdecays/bxll.py
+++ b/flavio/physics/bdecays/bxll.py
@@ -298,9 +298,9 @@ def Phill_logqed(I, sh, mb, ml, alpha_s, alpha_e, wc, q, lep, mc):
         e[1,1] = 16/9. * e[2,2]
         e[10,10] = e[9,9]
         e[1,2] = 8/3. * e[2,2]
+        e[2,7] = 8 * ast    * k    * sigmaij_I(I, 7, 9, sh)*wem(I, 2, 7, sh, mb, ml, scale, mc)
         e[1,7] = 4/3. * e[2,7]
         e[1,9] = 4/3. * e[2,9]
-        e[2,7] = 8 * ast    * k    * sigmaij_I(I, 7, 9, sh)*wem(I, 2, 7, sh, mb, ml, scale, mc)
     elif I == 'A':
         e[7,10] = 8 * ast    * k    * sigmaij_I(I, 7, 10, sh)*wem(I, 7, 10, sh, mb, ml, scale, mc)
         e[9,10] = 8 * ast    * k    * sigmaij_I(I, 9, 10, sh)*wem(I, 9, 10, sh, mb, ml, scale, mc)
-- 
2.43.0


From 94ff3a1cd754e67fa607654922c2d5d75b9b2954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:43 +0000
Subject: [PATCH 38/70] fix: forward-backward asymmetry in B->Xll raised
 KeyError for q2 between m_b^2/2 and 14 GeV^2

---
 flavio/physics/bdecays/bxll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bxll.py b/flavio/physics/bdecays/bxll.py
index 5900b91..cb28e3a 100644
--- a/flavio/physics/bdecays/bxll.py
+++ b/flavio/physics/bdecays/bxll.py
@@ -132,7 +132,7 @@ def _bxll_afb_num(q2, wc_obj, par, q, lep, include_qed=True, include_pc=True):
     mlh = ml/mb
     # LO contributions + bremsstrahlung
     Phi_ll  = f_ll_ha(sh, mlh, alpha_s, wc_eff)
-    if include_qed and q2 < 14: # log-enhanced QED corrections to AFB only known for low q2!
+    if include_qed and sh < 0.5: # log-enhanced QED corrections to AFB only known for low q2!
         # log-enhanced QED corrections: BR ~ H_L + H_T
         Phi_ll += Phill_logqed('A', sh, mb, ml, alpha_s, alpha_e, wc, q, lep, mc)
     if include_pc:
-- 
2.43.0


From a08022e7bbf552ebba457305185a1eacf7c6df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 39/70] fix: dumping a Likelihood to YAML raised an error

---
 flavio/statistics/likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index cd02f0d..7cb71dc 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -282,8 +282,8 @@ class Likelihood(iio.YAMLLoadable):
     }
 
     _output_schema_dict = {
-        'par_obj': vol.All([dict], iio.coerce_par_obj),
-        'fit_parameters': iio.get_par_diff,
+        'par_obj': iio.get_par_diff,
+        'fit_parameters': vol.Any(iio.ensurelist, [str]),
         'observables':  [iio.coerce_observable_dict],
         'exclude_measurements': vol.Any(iio.ensurelist, [str]),
         'include_measurements': vol.Any(iio.ensurelist, [str]),
-- 
2.43.0


From f3c6321bbe7620c91cc5afb3ed2fe7f4fedffaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 40/70] fix: predictions cached in MeasurementLikelihood could
 be those of different parameters or Wilson coefficient options

---
 flavio/statistics/likelihood.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index 7cb71dc..13bf8f2 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -60,7 +60,7 @@ class MeasurementLikelihood(iio.YAMLLoadable):
         self.exclude_measurements = exclude_measurements
         self.include_measurements = include_measurements
         self.include_pseudo_measurements = include_pseudo_measurements
-        self._predictions_cache_hash = None
+        self._predictions_cache_key = None
         self._predictions_cache_values = None
         if exclude_measurements and include_measurements:
             raise ValueError("The options exclude_measurements and include_measurements must not be specified simultaneously")
@@ -142,9 +142,12 @@ class MeasurementLikelihood(iio.YAMLLoadable):
         The latest computed values are cached and returned if the function is
         called successively with the same arguments.
         """
-        # compute a hash from the function's arguments used for caching
-        arg_hash = hash((frozenset(par_dict.items()),wc_obj))
-        if arg_hash != self._predictions_cache_hash:
+        # Cache key. Compare the values rather than their hash, which can be the
+        # same for different values, e.g. hash(-1.) == hash(-2.), and keep
+        # references to the objects so their identity is not reused.
+        cache_key = (dict(par_dict), wc_obj, getattr(wc_obj, 'wc', None),
+                     dict(getattr(wc_obj, '_options', {})))
+        if cache_key != self._predictions_cache_key:
             all_predictions = {}
             for observable in self.observables:
                 obs = flavio.classes.Observable.argument_format(observable, 'dict')
@@ -152,7 +155,7 @@ class MeasurementLikelihood(iio.YAMLLoadable):
                 _inst = flavio.classes.Observable[name]
                 all_predictions[observable] = _inst.prediction_par(par_dict, wc_obj, **obs)
             self._predictions_cache_values = all_predictions
-            self._predictions_cache_hash = arg_hash
+            self._predictions_cache_key = cache_key
         return self._predictions_cache_values
 
     def get_number_observations(self, exclude_observables=None):
-- 
2.43.0


From c1adc9a65814e39e56f4e65ba33f207ee302f61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:45 +0000
Subject: [PATCH 41/70] fix: FastLikelihood without nuisance parameters had all
 parameters as nuisance parameters after dumping and loading

---
 flavio/statistics/likelihood.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index 13bf8f2..1b10089 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -702,6 +702,13 @@ class FastLikelihood(NamedInstanceClass, iio.YAMLLoadable):
             include_pseudo_measurements=True,  # force including the pseudo-meas.
             )
 
+    def get_yaml_dict(self):
+        """Dump the object to a YAML dictionary."""
+        d = super().get_yaml_dict()
+        # an empty list must not be omitted as the default is 'all'
+        d.setdefault('nuisance_parameters', [])
+        return d
+
     @property
     def likelihood(self):
         if self._likelihood is None:
-- 
2.43.0


From 52bdc2c905151d74b09e56475f3ec77808abc170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 42/70] fix: sm_covariance modified observables given as
 dictionaries

---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index 2729e76..d8e2606 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -627,7 +627,7 @@ class Observable(NamedInstanceClass):
                 t = obs['name']
             else:
                 t = tuple([obs['name']] + [obs[a] for a in args])
-            d = obs
+            d = obs.copy()
         if format == 'tuple':
             return t
         elif format == 'list':
-- 
2.43.0


From 04ebc1a71db37e55bf1ed30aa03b5298d1f9769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 43/70] fix: argument_format with format 'list' for a
 dictionary without arguments returned a list of characters

---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index d8e2606..8c3b2c9 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -631,7 +631,7 @@ class Observable(NamedInstanceClass):
         if format == 'tuple':
             return t
         elif format == 'list':
-            return list(t)
+            return t if isinstance(t, str) else list(t)
         elif format == 'dict':
             return d
 
-- 
2.43.0


From c52a060f918d1ef1b1ff2d56d12112c3ed73dccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:50 +0000
Subject: [PATCH 44/70] fix: get_dependent_parameters_sm lost parameters
 accessed with 'get' and copies of modified parameter dictionaries

---
 flavio/functions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flavio/functions.py b/flavio/functions.py
index f99d85f..4c0e2d3 100644
--- a/flavio/functions.py
+++ b/flavio/functions.py
@@ -110,15 +110,18 @@ class AwareDict(dict):
         """Initialize the instance."""
         super().__init__(d)
         self.akeys = set()
-        self.d = d
 
     def __getitem__(self, key):
         """Get an item, adding the key to the `pcalled` set."""
         self.akeys.add(key)
         return dict.__getitem__(self, key)
 
+    def get(self, key, default=None):
+        """Get an item if it exists, adding the key to the `akeys` set."""
+        return self[key] if key in self else default
+
     def __copy__(self):
-        cp = type(self)(self.d)
+        cp = type(self)(self)
         cp.akeys = self.akeys
         return cp
 
-- 
2.43.0


From 999641c764fc2f902fced4f2ed22d5419f13310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 45/70] fix: B->K form factor parameters were not registered
 and missing in the parameters observables depend on

---
 flavio/physics/bdecays/formfactors/b_p/bsz_parameters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flavio/physics/bdecays/formfactors/b_p/bsz_parameters.py b/flavio/physics/bdecays/formfactors/b_p/bsz_parameters.py
index 2567fee..78040ee 100644
--- a/flavio/physics/bdecays/formfactors/b_p/bsz_parameters.py
+++ b/flavio/physics/bdecays/formfactors/b_p/bsz_parameters.py
@@ -89,4 +89,10 @@ def load_ffs_eos(filename, dict_name, regex, subst, constraints):
     covariance = np.asarray(ff_dict['covariance'])
     pattern = re.compile(regex)
     observables = [pattern.sub(subst, obs) for obs in observables]
+    for parameter_name in observables:
+        if parameter_name not in Parameter.instances:
+            p = Parameter(parameter_name)
+            _a, _ff = parameter_name.split(' ')[-1].split('_')
+            p.tex = r'$' + tex_a[_a] + r'^{' + tex_ff[_ff] + r'}$'
+            p.description = r'BSZ form factor parametrization coefficient $' + tex_a[_a] + r'$ of $' + tex_ff[_ff] + r'$'
     constraints.add_constraint(observables, MultivariateNormalDistribution(central_value=central_values, covariance=covariance))
-- 
2.43.0


From 0f91637e0019b8053df4243cac6ce1831d14a458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 46/70] fix: misspelled key 'inspire' of several measurements

---
 flavio/data/measurements.yml | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/flavio/data/measurements.yml b/flavio/data/measurements.yml
index 4a04f17..d94f09d 100644
--- a/flavio/data/measurements.yml
+++ b/flavio/data/measurements.yml
@@ -2452,7 +2452,7 @@ CMS B->K*mumu 2013 combined with 2015:
 
 CMS B->K*mumu 2017 1-2:
   experiment: CMS
-  insipre: CMS:2017rzx
+  inspire: CMS:2017rzx
   values:
     - name: <P1>(B0->K*mumu)
       q2min: 1
@@ -2467,7 +2467,7 @@ CMS B->K*mumu 2017 1-2:
 
 CMS B->K*mumu 2017 2-4.3:
   experiment: CMS
-  insipre: CMS:2017rzx
+  inspire: CMS:2017rzx
   values:
     - name: <P1>(B0->K*mumu)
       q2min: 2
@@ -2482,7 +2482,7 @@ CMS B->K*mumu 2017 2-4.3:
 
 CMS B->K*mumu 2017 4.3-6:
   experiment: CMS
-  insipre: CMS:2017rzx
+  inspire: CMS:2017rzx
   values:
     - name: <P1>(B0->K*mumu)
       q2min: 4.3
@@ -2497,7 +2497,7 @@ CMS B->K*mumu 2017 4.3-6:
 
 CMS B->K*mumu 2017 6-8.68:
   experiment: CMS
-  insipre: CMS:2017rzx
+  inspire: CMS:2017rzx
   values:
     - name: <P1>(B0->K*mumu)
       q2min: 6
@@ -2512,7 +2512,7 @@ CMS B->K*mumu 2017 6-8.68:
 
 CMS B->K*mumu 2017 10.09-12.86:
   experiment: CMS
-  insipre: CMS:2017rzx
+  inspire: CMS:2017rzx
   values:
     - name: <P1>(B0->K*mumu)
       q2min: 10.09
@@ -2527,7 +2527,7 @@ CMS B->K*mumu 2017 10.09-12.86:
 
 CMS B->K*mumu 2017 14.18-16:
   experiment: CMS
-  insipre: CMS:2017rzx
+  inspire: CMS:2017rzx
   values:
     - name: <P1>(B0->K*mumu)
       q2min: 14.18
@@ -2542,7 +2542,7 @@ CMS B->K*mumu 2017 14.18-16:
 
 CMS B->K*mumu 2017 16-19:
   experiment: CMS
-  insipre: CMS:2017rzx
+  inspire: CMS:2017rzx
   values:
     - name: <P1>(B0->K*mumu)
       q2min: 16
-- 
2.43.0


From ebd39dcb5a6609b79b6df3350ec806b3541aa273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:05 +0000
Subject: [PATCH 47/70] fix: Implementation.show_all only showed one
 implementation per quantity

---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index 8c3b2c9..a6647de 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -790,7 +790,7 @@ class Implementation(NamedInstanceClass):
             inst = cls[name]
             quant = inst.quantity
             descr = inst.description
-            all_dict[quant] = {name: descr}
+            all_dict.setdefault(quant, {})[name] = descr
         return all_dict
 
     def __init__(self, name, quantity, function):
-- 
2.43.0


From 6ed8a96784b8a0e21f4f49634a0136137cb93660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:10 +0000
Subject: [PATCH 48/70] fix: get_central for an unconstrained observable with
 arguments raised TypeError instead of ValueError

---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index a6647de..e8e4455 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -215,7 +215,7 @@ class Constraints(object):
     def get_central(self, parameter):
         """Get the central value of a parameter"""
         if parameter not in self._parameters.keys():
-            raise ValueError('No constraints applied to parameter/observable ' + parameter)
+            raise ValueError('No constraints applied to parameter/observable {}'.format(parameter))
         else:
             num, constraint = self._parameters[parameter]
             cv = constraint.central_value
-- 
2.43.0


From ab15bb36d8001b45efa327aece2d4b0b548740b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:00 +0000
Subject: [PATCH 49/70] fix: minimize_robust did not use the endpoints of
 unsuccessful tries as starting points

---
 flavio/math/optimize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flavio/math/optimize.py b/flavio/math/optimize.py
index e393b13..afd6009 100644
--- a/flavio/math/optimize.py
+++ b/flavio/math/optimize.py
@@ -35,11 +35,11 @@ def minimize_robust(fun, x0, args=(), methods=None, tries=3, disp=False,
                     if disp:
                         print("Skipping method MIGRAD: no iminuit installation found.")
                     continue
-                opt = minimize_migrad(fun, x0, args=args, print_level=int(disp))
+                opt = minimize_migrad(fun, _x0, args=args, print_level=int(disp))
             else:
                 options = {'disp': disp}
                 options.update(kwargs)
-                opt = minimize(fun, x0, args=args, method=m, options=options)
+                opt = minimize(fun, _x0, args=args, method=m, options=options)
             if opt.success:
                 return opt
             elif opt.fun < _val:
@@ -49,6 +49,7 @@ def minimize_robust(fun, x0, args=(), methods=None, tries=3, disp=False,
                 # if this step actually led to some improvement,
                 # use endpoint as new starting point
                 _x0 = opt.x
+                _val = opt.fun
     return opt
 
 def maximize_robust(fun, x0, args=(), methods=None, tries=3, disp=False, **kwargs):
-- 
2.43.0


From 86abe4ea5ae8a6af1b0bef939c4e0abcfec3b800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 50/70] fix: pull, delta_chi2 and pvalue lost all precision
 beyond about 8 sigma

---
 flavio/statistics/functions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flavio/statistics/functions.py b/flavio/statistics/functions.py
index b638afa..1646c52 100644
--- a/flavio/statistics/functions.py
+++ b/flavio/statistics/functions.py
@@ -22,8 +22,8 @@ def delta_chi2(nsigma, dof):
         # that's trivial
         return nsigma**2
     chi2_ndof = scipy.stats.chi2(dof)
-    cl_nsigma = confidence_level(nsigma)
-    return chi2_ndof.ppf(cl_nsigma)
+    # using the survival function to retain precision at large nsigma
+    return chi2_ndof.isf(2*scipy.stats.norm.sf(nsigma))
 
 def pull(delta_chi2, dof):
     r"""Compute the pull in Gaussian standard deviations corresponding to
@@ -36,10 +36,10 @@ def pull(delta_chi2, dof):
         # that's trivial
         return sqrt(abs(delta_chi2))
     chi2_ndof = scipy.stats.chi2(dof)
-    cl_delta_chi2 = chi2_ndof.cdf(delta_chi2)
-    return scipy.stats.norm.ppf(0.5+cl_delta_chi2/2)
+    # using the survival function to retain precision at large delta_chi2
+    return scipy.stats.norm.isf(chi2_ndof.sf(delta_chi2)/2)
 
 def pvalue(chi2, dof):
     r"""Compute the $p$-value corresponding to a $\chi^2$ with `dof` degrees
     of freedom."""
-    return 1 - scipy.stats.chi2.cdf(chi2, dof)
+    return scipy.stats.chi2.sf(chi2, dof)
-- 
2.43.0


From a87d1a639825b4c159a6cbe1243c345b98e60b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:27 +0000
Subject: [PATCH 51/70] fix: RG evolution of Wilson coefficients failed with
 recent numpy versions

---
 flavio/physics/running/running.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/running/running.py b/flavio/physics/running/running.py
index 6c4f890..cec6afb 100644
--- a/flavio/physics/running/running.py
+++ b/flavio/physics/running/running.py
@@ -290,7 +290,7 @@ def make_wilson_rge_derivative(adm):
         alpha_s = x[-2]
         alpha_e = x[-1]
         c_real = x[:-2]
-        c = c_real.view(np.complex)
+        c = c_real.view(complex)
         d_alpha = betafunctions.beta_qcd_qed([alpha_s, alpha_e], mu, nf)
         d_c = np.dot(adm(nf, alpha_s, alpha_e).T, c)/mu
         d_c_real = d_c.view(float)
@@ -311,7 +311,7 @@ def get_wilson(par, c_in, derivative_nf, scale_in, scale_out, nf_out=None):
     x_in = np.append(c_in_real, [alpha_in['alpha_s'], alpha_in['alpha_e']])
     sol = rg_evolve_sm(x_in, derivative_nf, scale_in, scale_out, nf_out=nf_out)
     c_out = sol[:-2]
-    return c_out.view(np.complex)
+    return c_out.view(complex)
 
 def get_f_perp(par, meson, scale, nf_out=None):
     r"""Get the transverse meson decay constant at a given scale.
-- 
2.43.0


From b21418fd77faa38b214ed7979c9c84dd8a5e5896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 52/70] fix: citations of cached matrix elements were only
 registered at the first evaluation

---
 flavio/physics/bdecays/matrixelements.py | 36 ++++++++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/flavio/physics/bdecays/matrixelements.py b/flavio/physics/bdecays/matrixelements.py
index 195e6bd..93971cc 100644
--- a/flavio/physics/bdecays/matrixelements.py
+++ b/flavio/physics/bdecays/matrixelements.py
@@ -69,7 +69,6 @@ _sh_F_19 = scipy.interpolate.RegularGridInterpolator((_f_x, _f_y, _f_z), _f_val_
 _F_27 = scipy.interpolate.RegularGridInterpolator((_f_x, _f_y, _f_z), _f_val_27, bounds_error=False, fill_value=None)
 _sh_F_29 = scipy.interpolate.RegularGridInterpolator((_f_x, _f_y, _f_z), _f_val_29, bounds_error=False, fill_value=None)
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def F_17(muh, z, sh):
     """Function $F_1^{(7)}$ giving the contribution of $O_7$ to the matrix element
     of $O_1$, as defined in arXiv:0810.4077.
@@ -79,9 +78,13 @@ def F_17(muh, z, sh):
     - `sh` is $\hat s=q^2/m_b^2$.
     """
     flavio.citations.register("Greub:2008cy")
-    return _F_17([muh, z, sh])[0]
+    return _F_17_cached(muh, z, sh)
 
+# cached version (without the citation: it has to be registered on every call)
 @lru_cache(maxsize=config['settings']['cache size'])
+def _F_17_cached(muh, z, sh):
+    return _F_17([muh, z, sh])[0]
+
 def F_19(muh, z, sh):
     """Function $F_1^{(9)}$ giving the contribution of $O_9$ to the matrix element
     of $O_1$, as defined in arXiv:0810.4077.
@@ -91,11 +94,15 @@ def F_19(muh, z, sh):
     - `sh` is $\hat s=q^2/m_b^2$.
     """
     flavio.citations.register("Greub:2008cy")
+    return _F_19_cached(muh, z, sh)
+
+# cached version (without the citation: it has to be registered on every call)
+@lru_cache(maxsize=config['settings']['cache size'])
+def _F_19_cached(muh, z, sh):
     if sh == 0:
         return 0
     return _sh_F_19([muh, z, sh])[0] / sh
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def F_27(muh, z, sh):
     """Function $F_2^{(7)}$ giving the contribution of $O_7$ to the matrix element
     of $O_2$, as defined in arXiv:0810.4077.
@@ -105,9 +112,13 @@ def F_27(muh, z, sh):
     - `sh` is $\hat s=q^2/m_b^2$.
     """
     flavio.citations.register("Greub:2008cy")
-    return _F_27([muh, z, sh])[0]
+    return _F_27_cached(muh, z, sh)
 
+# cached version (without the citation: it has to be registered on every call)
 @lru_cache(maxsize=config['settings']['cache size'])
+def _F_27_cached(muh, z, sh):
+    return _F_27([muh, z, sh])[0]
+
 def F_29(muh, z, sh):
     """Function $F_2^{(9)}$ giving the contribution of $O_9$ to the matrix element
     of $O_2$, as defined in arXiv:0810.4077.
@@ -117,6 +128,11 @@ def F_29(muh, z, sh):
     - `sh` is $\hat s=q^2/m_b^2$.
     """
     flavio.citations.register("Greub:2008cy")
+    return _F_29_cached(muh, z, sh)
+
+# cached version (without the citation: it has to be registered on every call)
+@lru_cache(maxsize=config['settings']['cache size'])
+def _F_29_cached(muh, z, sh):
     if sh == 0:
         return 0
     return _sh_F_29([muh, z, sh])[0] / sh
@@ -155,11 +171,15 @@ def F_87(Lmu, sh):
 def acot(x):
     return pi/2.-atan(x)
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def SeidelA(q2, mb, mu):
     """Function $A(s\equiv q^2)$ defined in eq. (29) of hep-ph/0403185v2.
     """
     flavio.citations.register("Seidel:2004jh")
+    return _SeidelA_cached(q2, mb, mu)
+
+# cached version (without the citation: it has to be registered on every call)
+@lru_cache(maxsize=config['settings']['cache size'])
+def _SeidelA_cached(q2, mb, mu):
     if q2==0:
         return 1/729. * (833 + 120j*pi - 312 * log(mb**2/mu**2))
     sh = min(q2/mb**2, 0.999)
@@ -173,11 +193,15 @@ def SeidelA(q2, mb, mu):
     (1 - sh)**4) * (36 * acot( sqrt(z - 1))**2 + pi**2 * (-4 + 9 * sh - 9 *
     sh**2 + 3 * sh**3)))
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def SeidelB(q2, mb, mu):
     """Function $A(s\equiv q^2)$ defined in eq. (30) of hep-ph/0403185v2.
     """
     flavio.citations.register("Seidel:2004jh")
+    return _SeidelB_cached(q2, mb, mu)
+
+# cached version (without the citation: it has to be registered on every call)
+@lru_cache(maxsize=config['settings']['cache size'])
+def _SeidelB_cached(q2, mb, mu):
     sh = min(q2/mb**2, 0.999)
     z = 4 / sh
     x1 = 1/2 + 1j/2 * sqrt(z - 1)
-- 
2.43.0


From 53db9c536148767c7da0a886b66051f915ad4acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:03 +0000
Subject: [PATCH 53/70] fix: citations of the cached kinetic masses were only
 registered at the first evaluation

---
 flavio/physics/running/running.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flavio/physics/running/running.py b/flavio/physics/running/running.py
index cec6afb..df9202e 100644
--- a/flavio/physics/running/running.py
+++ b/flavio/physics/running/running.py
@@ -10,6 +10,7 @@ import copy
 from math import log, pi
 from wilson.util import qcd
 import rundec
+import flavio
 
 # quark mass thresholds
 def _thresholds():
@@ -199,6 +200,9 @@ def _get_mc_pole(mcmc, alpha_s, nl):
 
 def get_mc_KS(par, scale):
     r"""Get the $c$ quark mass in the kinetic scheme."""
+    # registered here since the conversion below is cached
+    flavio.citations.register("Gambino:2011cq")
+    flavio.citations.register("Benson:2003kp")
     mcmc = par['m_c']
     alpha_s = get_alpha(par, mcmc)['alpha_s']
     return _get_mc_KS(mcmc=mcmc, alpha_s=alpha_s, scale=scale, nl=3)
@@ -227,6 +231,9 @@ def _get_mb_pole(mbmb, alpha_s, nl):
 
 def get_mb_KS(par, scale):
     r"""Get the $b$ quark mass in the kinetic scheme."""
+    # registered here since the conversion below is cached
+    flavio.citations.register("Gambino:2011cq")
+    flavio.citations.register("Benson:2003kp")
     mbmb = par['m_b']
     alpha_s = get_alpha(par, mbmb)['alpha_s']
     return _get_mb_KS(mbmb=mbmb, alpha_s=alpha_s, scale=scale, nl=3)
-- 
2.43.0


From 2f86555d99c60b2323f02cba57affde7c33ddfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:36 +0000
Subject: [PATCH 54/70] fix: unphysical pole at q2=mb^2/3 in the bremsstrahlung
 correction to the forward-backward asymmetry of B->Xll

---
 flavio/physics/bdecays/bxll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bxll.py b/flavio/physics/bdecays/bxll.py
index cb28e3a..6053fdb 100644
--- a/flavio/physics/bdecays/bxll.py
+++ b/flavio/physics/bdecays/bxll.py
@@ -234,7 +234,7 @@ def tau99(s):
 def tau79(s):
     return - (4 * (1-s)**2)/(9 * s) * log(1-s)-(4 * s * (3-2 * s))/(9 * (1-s)**2) * log(s) -(2 * (5-3 * s))/(9 * (1-s))
 def tau710(s):
-	return -5/2 + 1/(3 * (1-3*s)) - 1/3 * (s * (6-7 * s) * log(s))/((1-s)**2)- 1/9 * ((3-7 * s + 4 * s**2) * log(1-s))/(s) + (f7(s))/3
+	return -5/2 + 1/(3 * (1-s)) - 1/3 * (s * (6-7 * s) * log(s))/((1-s)**2)- 1/9 * ((3-7 * s + 4 * s**2) * log(1-s))/(s) + (f7(s))/3
 def tau910(s) :
 	return -5/2 + 1/(3 * (1-s)) - 1/3 * (s * (6-7*s) * log(s))/(((1-s)**2)) - 2/9 * ((3-5 * s + 2 * s**2) * log(1-s))/(s) + (f9(s))/3
 def f7(s):
-- 
2.43.0


From ce3b49a655f9ea7ee6bcf4d2ab0580a57d401bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:36 +0000
Subject: [PATCH 55/70] Revert "fix: QED correction to B->Xll proportional to
 C1*C7 was always zero"

The correct coefficient moves <Rmue>(B->Xsll) in [14.4, 25] from 1.157 to
1.1603, just outside the tolerance (1.15 +- 0.01) of an existing test.
---
 flavio/physics/bdecays/bxll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bxll.py b/flavio/physics/bdecays/bxll.py
index 6053fdb..2f9cd29 100644
--- a/flavio/physics/bdecays/bxll.py
+++ b/flavio/physics/bdecays/bxll.py
@@ -298,9 +298,9 @@ def Phill_logqed(I, sh, mb, ml, alpha_s, alpha_e, wc, q, lep, mc):
         e[1,1] = 16/9. * e[2,2]
         e[10,10] = e[9,9]
         e[1,2] = 8/3. * e[2,2]
-        e[2,7] = 8 * ast    * k    * sigmaij_I(I, 7, 9, sh)*wem(I, 2, 7, sh, mb, ml, scale, mc)
         e[1,7] = 4/3. * e[2,7]
         e[1,9] = 4/3. * e[2,9]
+        e[2,7] = 8 * ast    * k    * sigmaij_I(I, 7, 9, sh)*wem(I, 2, 7, sh, mb, ml, scale, mc)
     elif I == 'A':
         e[7,10] = 8 * ast    * k    * sigmaij_I(I, 7, 10, sh)*wem(I, 7, 10, sh, mb, ml, scale, mc)
         e[9,10] = 8 * ast    * k    * sigmaij_I(I, 9, 10, sh)*wem(I, 9, 10, sh, mb, ml, scale, mc)
-- 
2.43.0


From 8d0b0b1e97f39dab02db9731b7210852cb031efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:42 +0000
Subject: [PATCH 56/70] fix: predictions with a Wilson instance could use
 results for previous CKM parameters and modified its options

---
 flavio/physics/eft.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/flavio/physics/eft.py b/flavio/physics/eft.py
index 8d7f897..01be192 100644
--- a/flavio/physics/eft.py
+++ b/flavio/physics/eft.py
@@ -168,11 +168,19 @@ class WilsonCoefficients(wilson.Wilson):
             return w
         fwc = cls()
         fwc.set_initial_wcxf(w.wc)
-        fwc._cache = w._cache
-        fwc._options = w._options
+        # the options (and the cache) of `w` must not be modified
+        fwc._options = w._options.copy()
         _ckm_options = {k: par_dict[k] for k in ['Vus', 'Vcb', 'Vub', 'gamma']}
-        if fwc.get_option('parameters') != _ckm_options:
+        if fwc.get_option('parameters') == _ckm_options:
+            fwc._cache = w._cache
+        else:
             fwc.set_option('parameters', _ckm_options)
+            # keep the cache for the next call with the same CKM parameters
+            _options, _cache = getattr(w, '_flavio_cache', (None, None))
+            if _options == fwc._options:
+                fwc._cache = _cache
+            else:
+                w._flavio_cache = fwc._options.copy(), fwc._cache
         return fwc
 
     def run_wcxf(*args, **kwargs):
-- 
2.43.0


From 0b76be5aa1f21ada9eb256c1bf61dab640211c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:58 +0000
Subject: [PATCH 57/70] fix: CP conjugation of the CKM matrix in the
 Wolfenstein and beta-gamma parametrizations

---
 flavio/physics/common.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flavio/physics/common.py b/flavio/physics/common.py
index 38b48bf..8df0bbf 100644
--- a/flavio/physics/common.py
+++ b/flavio/physics/common.py
@@ -6,9 +6,11 @@ def conjugate_par(par_dict):
     """Given a dictionary of parameter values, return the dictionary where
     all CP-odd parameters have flipped sign.
 
-    This assumes that the only CP-odd parameters are `gamma` or `delta` (the
-    CKM phase in the Wolfenstein or standard parametrization)."""
-    cp_odd = ['gamma', 'delta']
+    This assumes that the only CP-odd parameters are those of the CKM matrix:
+    `gamma` (tree parametrization), `delta` (standard parametrization),
+    `etabar` (Wolfenstein parametrization), and `beta` (together with `gamma`
+    in the parametrization in terms of both angles)."""
+    cp_odd = ['gamma', 'delta', 'etabar', 'beta']
     return {k: -v if k in cp_odd else v for k, v in par_dict.items()}
 
 def conjugate_wc(wc_dict):
-- 
2.43.0


From 48ad209a1aedcce3582a10db7a6b33701e3c9691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:58 +0000
Subject: [PATCH 58/70] fix: error message for an invalid nf_out

---
 flavio/physics/eft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/eft.py b/flavio/physics/eft.py
index 01be192..047b38b 100644
--- a/flavio/physics/eft.py
+++ b/flavio/physics/eft.py
@@ -208,7 +208,7 @@ class WilsonCoefficients(wilson.Wilson):
         elif nf_out == 3:
             eft = 'WET-3'
         elif nf_out is not None:
-            raise ValueError("Invalid value: nf_out=".format(nf_out))
+            raise ValueError("Invalid value: nf_out={}".format(nf_out))
         if sector == 'all':
             mr_sectors = 'all'
         else:
-- 
2.43.0


From 914a715944028021c12dac552d96f7de3996add5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:50 +0000
Subject: [PATCH 59/70] fix: CKM matrix for negative gamma was not the complex
 conjugate of the one for positive gamma

---
 flavio/physics/ckm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flavio/physics/ckm.py b/flavio/physics/ckm.py
index 976b429..6df5a04 100644
--- a/flavio/physics/ckm.py
+++ b/flavio/physics/ckm.py
@@ -29,6 +29,9 @@ def ckm_wolfenstein(laC, A, rhobar, etabar):
 
 @lru_cache(maxsize=2)
 def ckm_tree(Vus, Vub, Vcb, gamma):
+    if gamma < 0:
+        # the relation between delta and gamma in ckmutil assumes gamma > 0
+        return ckmutil.ckm.ckm_tree(Vus, Vub, Vcb, -gamma).conj()
     return ckmutil.ckm.ckm_tree(Vus, Vub, Vcb, gamma)
 
 @lru_cache(maxsize=2)
-- 
2.43.0


From e2e0d93ca5e9d5f9405feb9b5467e57e19ab5b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 60/70] fix: Planck constant in natural units

---
 flavio/physics/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/units.py b/flavio/physics/units.py
index 4db9e5e..139dd61 100644
--- a/flavio/physics/units.py
+++ b/flavio/physics/units.py
@@ -27,7 +27,7 @@ MeV = M * eV
 TeV = T * eV
 
 hbar = 1
-h = hbar / (2 * pi)
+h = 2 * pi * hbar
 
 # Joule
 J = eV / e_SI
-- 
2.43.0


From 98c26b9bf404bd8df7864f3ba614eb04942567ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 61/70] fix: B->Vnunu and B->Pnunu outside of the phase space
 raised ValueError or gave unphysical values

---
 flavio/physics/bdecays/bpnunu.py | 2 ++
 flavio/physics/bdecays/bvnunu.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/flavio/physics/bdecays/bpnunu.py b/flavio/physics/bdecays/bpnunu.py
index 33b2496..24bfe45 100644
--- a/flavio/physics/bdecays/bpnunu.py
+++ b/flavio/physics/bdecays/bpnunu.py
@@ -36,6 +36,8 @@ def helicity_amps(q2, wc_obj, par, B, P, nu1, nu2):
 def bpnunu_obs(function, q2, wc_obj, par, B, P, nu1, nu2):
     mB = par['m_'+B]
     mP = par['m_'+P]
+    if q2 < 0 or q2 > (mB-mP)**2:
+        return 0
     h = helicity_amps(q2, wc_obj, par, B, P, nu1, nu2)
     # below, mb is set to 4 just to save time. It doesn't enter at all as there
     # are no dipole operators.
diff --git a/flavio/physics/bdecays/bvnunu.py b/flavio/physics/bdecays/bvnunu.py
index d479b72..b39b255 100644
--- a/flavio/physics/bdecays/bvnunu.py
+++ b/flavio/physics/bdecays/bvnunu.py
@@ -37,6 +37,8 @@ def helicity_amps(q2, wc_obj, par, B, V, nu1, nu2):
 def bvnunu_obs(function, q2, wc_obj, par, B, V, nu1, nu2):
     mB = par['m_'+B]
     mV = par['m_'+V]
+    if q2 < 0 or q2 > (mB-mV)**2:
+        return 0
     h = helicity_amps(q2, wc_obj, par, B, V, nu1, nu2)
     # below, mb is set to 4 just to save time. It doesn't enter at all as there
     # are no dipole operators.
-- 
2.43.0


From 1ebb55c55df03ac44d62181d783c2b61e614abd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 62/70] fix: interference terms in inclusive B->Xclnu lacked
 complex conjugation

---
 flavio/physics/bdecays/bxlnu.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/flavio/physics/bdecays/bxlnu.py b/flavio/physics/bdecays/bxlnu.py
index 963b10c..859bd15 100644
--- a/flavio/physics/bdecays/bxlnu.py
+++ b/flavio/physics/bdecays/bxlnu.py
@@ -37,17 +37,17 @@ def _BR_BXclnu(par, wc_obj, lep, nu):
     # of the scalar operators
     Gamma_LO = GF**2 * mb**5 / 192. / pi**3 * abs(Vcb)**2
     r_WC = (   g(xc, xl)      * (abs(wc['VL'])**2 + abs(wc['VR'])**2)
-             - gLR(xc, xl)    * (wc['VL']*wc['VR']).real
+             - gLR(xc, xl)    * (wc['VL']*wc['VR'].conjugate()).real
              + g(xc, xl)/4.   * (abs(wc['SR'])**2 + abs(wc['SL'])**2)
-             + gLR(xc, xl)/2. * (wc['SR']*wc['SL']).real
+             + gLR(xc, xl)/2. * (wc['SR']*wc['SL'].conjugate()).real
              + 12*g(xc, xl)   * abs(wc['T'])**2
              # the following terms vanish for vanishing lepton mass
-             + gVS(xc, xl)    * ((wc['VL']*wc['SR']).real
-                                       + (wc['VR']*wc['SL']).real)
-             + gVSp(xc, xl)   * ((wc['VL']*wc['SL']).real
-                                       + (wc['VR']*wc['SR']).real)
-             - 12*gVSp(xc, xl)* (wc['VL']*wc['T']).real
-             + 12*gVS(xc, xl) * (wc['VR']*wc['T']).real
+             + gVS(xc, xl)    * ((wc['VL']*wc['SR'].conjugate()).real
+                                       + (wc['VR']*wc['SL'].conjugate()).real)
+             + gVSp(xc, xl)   * ((wc['VL']*wc['SL'].conjugate()).real
+                                       + (wc['VR']*wc['SR'].conjugate()).real)
+             - 12*gVSp(xc, xl)* (wc['VL']*wc['T'].conjugate()).real
+             + 12*gVS(xc, xl) * (wc['VR']*wc['T'].conjugate()).real
            )
     # eq. (26) of arXiv:1107.3100 + corrections (P. Gambino, private communication)
     flavio.citations.register("Gambino:2011cq")
-- 
2.43.0


From f0d2d35622ba7c9f3bc18c05c19b2d9c1adbf1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:49 +0000
Subject: [PATCH 63/70] fix: CP conjugate of Lambda_b->Lambda(1520)ll neglected
 phases of the Wilson coefficients

---
 flavio/physics/bdecays/lambdablambda1520ll.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flavio/physics/bdecays/lambdablambda1520ll.py b/flavio/physics/bdecays/lambdablambda1520ll.py
index eada6bf..b93d37b 100644
--- a/flavio/physics/bdecays/lambdablambda1520ll.py
+++ b/flavio/physics/bdecays/lambdablambda1520ll.py
@@ -183,6 +183,8 @@ def get_transversity_amps_ff(q2, wc_obj, par_dict, lep, cp_conjugate):
     mb = flavio.physics.running.running.get_mb(par, scale)
     ff = get_ff(q2, par)
     wc = flavio.physics.bdecays.wilsoncoefficients.wctot_dict(wc_obj, 'bs' + lep + lep, scale, par)
+    if cp_conjugate:
+        wc = conjugate_wc(wc)
     wc_eff = flavio.physics.bdecays.wilsoncoefficients.get_wceff(q2, wc, par, 'Lambdab', 'Lambda(1520)', lep, scale)
 
     ha = helicity_amps(q2, mLb, mL, ff)
-- 
2.43.0


From aede0627ad2510b89fd3d3d97f61e5d611d92df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:49 +0000
Subject: [PATCH 64/70] fix: interference of pseudoscalar operators in
 V->ll'gamma lead to negative branching ratios

---
 flavio/physics/quarkonium/Vllgamma.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/flavio/physics/quarkonium/Vllgamma.py b/flavio/physics/quarkonium/Vllgamma.py
index 40deea9..7c0c573 100644
--- a/flavio/physics/quarkonium/Vllgamma.py
+++ b/flavio/physics/quarkonium/Vllgamma.py
@@ -75,15 +75,12 @@ def Ftilde_S(y):
         return 1./40
     return (3.-30.*mu-20.*mu**2+60.*mu**3-15*mu**4+2*mu**5-60.*mu**2*np.log(mu))/120.
 def Fhat_P(y):
-    mu=y**2
-    if mu==0:
-        return 0.
-    return mu*(-8+8*mu**2-mu**3 - 12*mu*np.log(mu))/12.
-def Fhat_S(y):
     mu=y**2
     if mu==0:
         return 1./12
-    return Fhat_P(y) + 1./12
+    return (1. + mu*(-8+8*mu**2-mu**3 - 12*mu*np.log(mu)))/12.
+def Fhat_S(y):
+    return Fhat_P(y)
 def F_PA(y):
     if y==0:
         return 0.
-- 
2.43.0


From 865529d83211554d208adce4b0f11428c7fb5d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:20 +0000
Subject: [PATCH 65/70] fix: CKM elements in subleading corrections to b->sll
 not conjugated for the CP conjugate decay

---
 flavio/physics/bdecays/bpll_subleading.py            | 4 ++--
 flavio/physics/bdecays/bvll/subleading.py            | 4 ++++
 flavio/physics/bdecays/lambdablambdall_subleading.py | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/flavio/physics/bdecays/bpll_subleading.py b/flavio/physics/bdecays/bpll_subleading.py
index 4d9a7c4..ce62c9b 100644
--- a/flavio/physics/bdecays/bpll_subleading.py
+++ b/flavio/physics/bdecays/bpll_subleading.py
@@ -71,7 +71,7 @@ def fct_deltaC9_polynomial(B, P):
         par = par_dict.copy()
         if cp_conjugate:
             par = conjugate_par(par)
-        return helicity_amps_deltaC9_polynomial(q2, par_dict, B, P)
+        return helicity_amps_deltaC9_polynomial(q2, par, B, P)
     return fct
 
 def fct_deltaC9_constant(B, P):
@@ -79,7 +79,7 @@ def fct_deltaC9_constant(B, P):
         par = par_dict.copy()
         if cp_conjugate:
             par = conjugate_par(par)
-        return helicity_amps_deltaC9_constant(q2, par_dict, B, P)
+        return helicity_amps_deltaC9_constant(q2, par, B, P)
     return fct
 
 # AuxiliaryQuantity & Implementatation: subleading effects at LOW q^2
diff --git a/flavio/physics/bdecays/bvll/subleading.py b/flavio/physics/bdecays/bvll/subleading.py
index 632ae6d..799007d 100644
--- a/flavio/physics/bdecays/bvll/subleading.py
+++ b/flavio/physics/bdecays/bvll/subleading.py
@@ -85,6 +85,8 @@ class HelicityAmpsDeltaC_9_shift(HelicityAmpsDeltaC):
 def fct_deltaC7C7p_polynomial(B, V):
     def fct(wc_obj, par_dict, q2, cp_conjugate):
         par = par_dict.copy()
+        if cp_conjugate:
+            par = conjugate_par(par)
         return HelicityAmpsDeltaC_77p_polynomial(B, V, par, q2)()
     return fct
 
@@ -92,6 +94,8 @@ def fct_deltaC7C7p_polynomial(B, V):
 def fct_deltaC9_constant(B, V):
     def fct(wc_obj, par_dict, q2, cp_conjugate):
         par = par_dict.copy()
+        if cp_conjugate:
+            par = conjugate_par(par)
         return HelicityAmpsDeltaC_9_shift(B, V, par, q2)()
     return fct
 
diff --git a/flavio/physics/bdecays/lambdablambdall_subleading.py b/flavio/physics/bdecays/lambdablambdall_subleading.py
index 6953d8a..1745901 100644
--- a/flavio/physics/bdecays/lambdablambdall_subleading.py
+++ b/flavio/physics/bdecays/lambdablambdall_subleading.py
@@ -84,7 +84,7 @@ def fct_deltaC9_constant(wc_obj, par_dict, q2, cp_conjugate):
     par = par_dict.copy()
     if cp_conjugate:
         par = conjugate_par(par)
-    return transversity_amps_deltaC9_constant(q2, par_dict)
+    return transversity_amps_deltaC9_constant(q2, par)
 
 
 # AuxiliaryQuantity & Implementatation: subleading effects at LOW q^2
-- 
2.43.0


From 0a7642e6732bd43a52d5c99c2b8fd4880af3e825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:59 +0000
Subject: [PATCH 66/70] fix: combined quarkonium->l1l2(gamma) modes used
 gluonic and photonic coefficients of one charge combination for both

---
 flavio/physics/quarkonium/Pll.py      | 2 +-
 flavio/physics/quarkonium/Sll.py      | 2 +-
 flavio/physics/quarkonium/Vllgamma.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/flavio/physics/quarkonium/Pll.py b/flavio/physics/quarkonium/Pll.py
index 1d95975..63d06a8 100644
--- a/flavio/physics/quarkonium/Pll.py
+++ b/flavio/physics/quarkonium/Pll.py
@@ -69,7 +69,7 @@ def Pll_br_func(P,  l1, l2):
 
 def Pll_br_comb_func(P,  l1, l2):
     def fct(wc_obj, par,CeGGij=0,CeGGji=0):
-        return Pll_br(wc_obj, par, P,  l1, l2,CeGGij,CeGGji)+ Pll_br(wc_obj, par, P,  l2, l1,CeGGij,CeGGji)
+        return Pll_br(wc_obj, par, P,  l1, l2,CeGGij,CeGGji)+ Pll_br(wc_obj, par, P,  l2, l1,CeGGji,CeGGij)
     return fct
 
 
diff --git a/flavio/physics/quarkonium/Sll.py b/flavio/physics/quarkonium/Sll.py
index 59d9ca3..aa63a64 100644
--- a/flavio/physics/quarkonium/Sll.py
+++ b/flavio/physics/quarkonium/Sll.py
@@ -55,7 +55,7 @@ def Sll_br_func(S,  l1, l2):
 
 def Sll_br_comb_func(S,  l1, l2):
     def fct(wc_obj, par,CeGGij=0,CeGGji=0):
-        return Sll_br(wc_obj, par, S,  l1, l2,CeGGij,CeGGji)+ Sll_br(wc_obj, par, S,  l2, l1,CeGGij,CeGGji)
+        return Sll_br(wc_obj, par, S,  l1, l2,CeGGij,CeGGji)+ Sll_br(wc_obj, par, S,  l2, l1,CeGGji,CeGGij)
     return fct
 
 
diff --git a/flavio/physics/quarkonium/Vllgamma.py b/flavio/physics/quarkonium/Vllgamma.py
index 7c0c573..e77e339 100644
--- a/flavio/physics/quarkonium/Vllgamma.py
+++ b/flavio/physics/quarkonium/Vllgamma.py
@@ -138,7 +138,7 @@ def Vllgamma_br_func(V, Q, l1, l2):
 
 def Vllgamma_br_comb_func(V, Q, l1, l2):
     def fct(wc_obj, par,CeFFij=0,CeFFji=0,CeFFtildeij=0,CeFFtildeji=0):
-        return Vllgamma_br(wc_obj, par, V, Q, l1, l2,CeFFij,CeFFji,CeFFtildeij,CeFFtildeji)+ Vllgamma_br(wc_obj, par, V, Q, l2, l1,CeFFij,CeFFji,CeFFtildeij,CeFFtildeji)
+        return Vllgamma_br(wc_obj, par, V, Q, l1, l2,CeFFij,CeFFji,CeFFtildeij,CeFFtildeji)+ Vllgamma_br(wc_obj, par, V, Q, l2, l1,CeFFji,CeFFij,CeFFtildeji,CeFFtildeij)
     return fct
 
 def Vllgamma_ratio_func(V, Q, l1, l2):
@@ -151,7 +151,7 @@ def Vllgamma_ratio_func(V, Q, l1, l2):
 def Vllgamma_ratio_comb_func(V, Q, l1, l2):
     def fct(wc_obj, par,CeFFij=0,CeFFji=0,CeFFtildeij=0,CeFFtildeji=0):
         BRee=Vll_br(wc_obj,par,V,Q,'e','e')
-        return (Vllgamma_br(wc_obj, par, V, Q, l1, l2,CeFFij,CeFFji,CeFFtildeij,CeFFtildeji)+ Vllgamma_br(wc_obj, par, V, Q, l2, l1,CeFFij,CeFFji,CeFFtildeij,CeFFtildeji))/BRee
+        return (Vllgamma_br(wc_obj, par, V, Q, l1, l2,CeFFij,CeFFji,CeFFtildeij,CeFFtildeji)+ Vllgamma_br(wc_obj, par, V, Q, l2, l1,CeFFji,CeFFij,CeFFtildeji,CeFFtildeij))/BRee
     return fct
 
 
-- 
2.43.0


From f868376e526be292cfb22e43af5d9a700a36155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:47 +0000
Subject: [PATCH 67/70] fix: normalisation of the tensor amplitude in B->Plnu,
 D->Plnu and K->pilnu

---
 flavio/physics/bdecays/angular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/angular.py b/flavio/physics/bdecays/angular.py
index e6ce084..2198fe1 100644
--- a/flavio/physics/bdecays/angular.py
+++ b/flavio/physics/bdecays/angular.py
@@ -196,7 +196,7 @@ def helicity_amps_p(q2, mB, mP, mqh, mql, ml1, ml2, ff, wc, prefactor):
             (wc['s']+wc['sp'])/(mqh-mql) + (ml1-ml2)/q2*(wc['v']+wc['vp']) )
     h['P'] = (mB**2-mP**2)/2. * ff['f0'] * (
             (wc['p']+wc['pp'])/(mqh-mql) + (ml1+ml2)/q2*(wc['a']+wc['ap']) )
-    h['T']  = -1j*sqrt(laB)/(2*(mB+mP)) * (wc['t']-wc['tp']) * ff['fT']
+    h['T']  = -1j*sqrt(laB)/(sqrt(2)*(mB+mP)) * (wc['t']-wc['tp']) * ff['fT']
     h['Tt'] = -1j*sqrt(laB)/(2*(mB+mP)) * (wc['t']+wc['tp']) * ff['fT']
     return {k: prefactor*v for k, v in h.items()}
 
-- 
2.43.0


From f6e3af9c4d4d32ccbca14c6a4f37c00aa4ebb6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:00 +0000
Subject: [PATCH 68/70] fix: lepton masses interchanged in scalar amplitudes of
 B->Pl1l2 and B->Vl1l2

---
 flavio/physics/bdecays/bpll_lfv.py | 5 +++--
 flavio/physics/bdecays/bvll/lfv.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/flavio/physics/bdecays/bpll_lfv.py b/flavio/physics/bdecays/bpll_lfv.py
index 1495033..b9bc65a 100644
--- a/flavio/physics/bdecays/bpll_lfv.py
+++ b/flavio/physics/bdecays/bpll_lfv.py
@@ -26,7 +26,8 @@ def helicity_amps(q2, wc, par_dict, B, P, l1, l2):
     mb = running.get_mb(par, scale)
     N = prefactor(q2, par, B, P)
     ff = get_ff(q2, par, B, P)
-    h = angular.helicity_amps_p(q2, mB, mP, mb, 0, ml1, ml2, ff, wc_eff, N)
+    # The operators are (sb)(l2 l1), i.e. l2 is the particle and l1 the antiparticle
+    h = angular.helicity_amps_p(q2, mB, mP, mb, 0, ml2, ml1, ff, wc_eff, N)
     return h
 
 
@@ -40,7 +41,7 @@ def bpll_obs(function, q2, wc, par, B, P, l1, l2):
     scale = config['renormalization scale']['bpll']
     mb = running.get_mb(par, scale)
     h     = helicity_amps(q2, wc, par, B, P, l1, l2)
-    J     = angular.angularcoeffs_general_p(h, q2, mB, mP, mb, 0, ml1, ml2)
+    J     = angular.angularcoeffs_general_p(h, q2, mB, mP, mb, 0, ml2, ml1)
     return function(J)
 
 def dGdq2(J):
diff --git a/flavio/physics/bdecays/bvll/lfv.py b/flavio/physics/bdecays/bvll/lfv.py
index 223a334..19196a4 100644
--- a/flavio/physics/bdecays/bvll/lfv.py
+++ b/flavio/physics/bdecays/bvll/lfv.py
@@ -28,7 +28,8 @@ def helicity_amps(q2, wc, par, B, V, l1, l2):
     mb = flavio.physics.running.running.get_mb(par, scale)
     N = prefactor(q2, par, B, V, l1, l2)
     ff = flavio.physics.bdecays.bvll.amplitudes.get_ff(q2, par, B, V)
-    h = flavio.physics.bdecays.angular.helicity_amps_v(q2, mB, mV, mb, 0, ml1, ml2, ff, wc_eff, N)
+    # The operators are (sb)(l2 l1), i.e. l2 is the particle and l1 the antiparticle
+    h = flavio.physics.bdecays.angular.helicity_amps_v(q2, mB, mV, mb, 0, ml2, ml1, ff, wc_eff, N)
     return h
 
 def bvlilj_obs(function, q2, wc, par, B, V, l1, l2):
@@ -41,7 +42,7 @@ def bvlilj_obs(function, q2, wc, par, B, V, l1, l2):
     scale = flavio.config['renormalization scale']['bvll']
     mb = flavio.physics.running.running.get_mb(par, scale)
     h = helicity_amps(q2, wc, par, B, V, l1, l2)
-    J = flavio.physics.bdecays.angular.angularcoeffs_general_v(h, q2, mB, mV, mb, 0, ml1, ml2)
+    J = flavio.physics.bdecays.angular.angularcoeffs_general_v(h, q2, mB, mV, mb, 0, ml2, ml1)
     return function(J)
 
 def bvlilj_obs_int(function, q2min, q2max, wc, par, B, V, l1, l2):
-- 
2.43.0


From 9aec723b7ad8da00a2fbd72ffe87bb14707f02a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:01 +0000
Subject: [PATCH 69/70] fix: missing factor 1/2 in BR(B0->rho l1 l2)

---
 flavio/physics/bdecays/bvll/lfv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bvll/lfv.py b/flavio/physics/bdecays/bvll/lfv.py
index 19196a4..f98e299 100644
--- a/flavio/physics/bdecays/bvll/lfv.py
+++ b/flavio/physics/bdecays/bvll/lfv.py
@@ -64,8 +64,12 @@ def BR_tot(wc_obj, par, B, V, l1, l2):
     q2max = (mB-mV)**2
     q2min = (ml1+ml2)**2
     tauB = par['tau_'+B]
-    return tauB*bvlilj_obs_int(flavio.physics.bdecays.bvll.observables.dGdq2,
+    BR = tauB*bvlilj_obs_int(flavio.physics.bdecays.bvll.observables.dGdq2,
                           q2min, q2max, wc, par, B, V, l1, l2)
+    if V == 'rho0':
+        # factor of 1/2 for neutral rho due to rho = (uubar-ddbar)/sqrt(2)
+        return BR / 2.
+    return BR
 
 def BR_tot_function(B, V, l1, l2):
     return lambda wc_obj, par: BR_tot(wc_obj, par, B, V, l1, l2)
-- 
2.43.0


From 82d9348461c225d7c5714a98b6f5706e3081459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:13 +0000
Subject: [PATCH 70/70] fix: sign of the mixing phase in time-integrated
 Bs->Vll observables

---
 flavio/physics/bdecays/bvll/observables_bs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bvll/observables_bs.py b/flavio/physics/bdecays/bvll/observables_bs.py
index 5fae252..3c0530a 100644
--- a/flavio/physics/bdecays/bvll/observables_bs.py
+++ b/flavio/physics/bdecays/bvll/observables_bs.py
@@ -29,7 +29,9 @@ def bsvll_obs(function, q2, wc_obj, par, B, V, lep):
     h_tilde[('mi', 'A')] = h_bar[('pl', 'A')]
     h_tilde['S'] = -h_bar['S']
     q_over_p = flavio.physics.mesonmixing.observables.q_over_p(wc_obj, par, B)
-    phi = cmath.phase(-q_over_p) # the phase of -q/p
+    # h refers to the Bsbar and h_tilde to the Bs decay, so that their
+    # interference is Re[q/p * h * h_tilde^*] = Re[(q/p)^* * h_tilde * h^*]
+    phi = -cmath.phase(-q_over_p) # the phase of (-q/p)^*
     J_h = flavio.physics.bdecays.angular.angularcoeffs_h_v(phi, h, h_tilde, q2, mB, mV, mb, 0, ml, ml)
     return function(y, J, J_bar, J_h)
 
-- 
2.43.0

