From a68f823a2f49c80d6ea92e2980660e3461069736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 01/53] fix: define xr_avail when xarray is installed (typo)

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index bc9b719..1adbbc0 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -16,7 +16,7 @@ from mud.util import add_noise, fit_domain, make_2d_unit_mesh, null_space, set_s
 try:
     import xarray as xr  # type: ignore
 
-    xr_avial = True
+    xr_avail = True
 except ModuleNotFoundError:
     xr_avail = False
     pass
-- 
2.43.0


From c1b3bfcae01b13240294c64f1a8133fa9d5dcc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 02/53] fix: set_observed discards the updated density computed
 from the old observed

---
 src/mud/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index 1adbbc0..030c618 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -213,6 +213,7 @@ class DensityProblem(object):
         """
         self._ob_dist = distribution
         self._ob = distribution.pdf(self.y).prod(axis=1)
+        self._up = None
 
     def set_initial(self, distribution: Optional[rv_continuous] = None):
         """
-- 
2.43.0


From 2ca477e9798b3514d90a0b6e26c42745f083f003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 03/53] fix: density plots refit instead of drawing a stale or
 unweighted ratio

---
 src/mud/base.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 030c618..3a0d850 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -508,10 +508,9 @@ class DensityProblem(object):
             )
         if up_opts is not None:
             uo.update(up_opts)
-            if self._r is not None:
-                up_kde = gkde(self.X.T, weights=self._r * self._weights)
-            else:
-                up_kde = gkde(self.X.T, weights=None)
+            if self._up is None:
+                self.fit()
+            up_kde = gkde(self.X.T, weights=self._r * self._weights)
             plot_dist(
                 up_kde, x_range, idx=param_idx, ax=ax, source="kde", aff=aff, **uo
             )
@@ -601,6 +600,8 @@ class DensityProblem(object):
             plot_dist(
                 self._ob_dist, y_range, idx=obs_idx, ax=ax, source="pdf", aff=aff, **oo
             )
+        if (pr_opts or pf_opts) and self._up is None:
+            self.fit()
         if pr_opts:
             po.update(pr_opts)
             source = "pdf" if isinstance(self._pr_dist, type(dist.uniform())) else "kde"
@@ -611,10 +612,7 @@ class DensityProblem(object):
             fo.update(pf_opts)
 
             # Compute PF of updated
-            if self._r is not None:
-                pf_kde = gkde(self.y.T, weights=self._weights * self._r)
-            else:
-                pf_kde = gkde(self.y.T, weights=None)
+            pf_kde = gkde(self.y.T, weights=self._weights * self._r)
             plot_dist(pf_kde, y_range, idx=obs_idx, ax=ax, source="kde", aff=aff, **fo)
 
         return ax
-- 
2.43.0


From b8fdcc65b53bee8c80c5cfec015c5b4a7ed91229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 04/53] fix: fit_domain no longer pads the caller's bounds in
 place

---
 src/mud/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mud/util.py b/src/mud/util.py
index fad2040..9254d65 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -278,6 +278,8 @@ def fit_domain(
         if x is None:
             raise ValueError("Both x and min_max_bounds can't be None")
         min_max_bounds = np.array([x.min(axis=0), x.max(axis=0)]).T
+    else:
+        min_max_bounds = np.array(min_max_bounds)
     pad = pad_ratio * (min_max_bounds[:, 1] - min_max_bounds[:, 0])
     min_max_bounds[:, 0] = min_max_bounds[:, 0] - pad
     min_max_bounds[:, 1] = min_max_bounds[:, 1] + pad
-- 
2.43.0


From 84c3f39d4217a628f574fef952ba95064994829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 05/53] fix: DensityProblem honours pad_domain

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 3a0d850..4fa9258 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -129,7 +129,7 @@ class DensityProblem(object):
             ), f"Size mismatch: domain: {self.domain.shape}, params: {self.X.shape}"
 
         else:
-            self.domain = fit_domain(self.X)
+            self.domain = fit_domain(self.X, pad_ratio=pad_domain)
 
         # Initialize weights
         self.set_weights(weights, normalize=normalize)
-- 
2.43.0


From 22711b8cd9d4236503994f9de5857495a661daad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 06/53] fix: custom predicted density is the product over
 observable components

---
 src/mud/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index 4fa9258..96add52 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -304,6 +304,8 @@ class DensityProblem(object):
             pred_pdf_values = distribution.pdf(self.y.T).T
         else:
             pred_pdf_values = distribution.pdf(self.y, **kwargs)
+            if np.ndim(pred_pdf_values) > 1:
+                pred_pdf_values = pred_pdf_values.prod(axis=1)
 
         self._pr_dist = distribution
         self._pr = pred_pdf_values.ravel()
-- 
2.43.0


From f64073540a9a46a9f624d56c4d956c1e57d26d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 07/53] fix: 1-D X is repeated samples of one parameter, as
 documented

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 96add52..3218729 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -108,7 +108,7 @@ class DensityProblem(object):
         normalize: bool = False,
         pad_domain: float = 0.1,
     ):
-        self.X = set_shape(np.array(X), (1, -1))
+        self.X = set_shape(np.array(X), (-1, 1))
         self.y = set_shape(np.array(y), (-1, 1))
 
         # These will be updated in set_ and fit() functions
-- 
2.43.0


From e7cba6155dab57112a73acb750b690d13f74002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 08/53] fix: detect an impossible posterior in log mode by
 -inf, not by a zero sum

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 3218729..aef8110 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -826,7 +826,7 @@ class BayesProblem(object):
             ps_pdf = np.multiply(self._pr, self._ll)
 
         assert ps_pdf.shape[0] == self.X.shape[0]
-        if np.sum(ps_pdf) == 0:
+        if np.all(np.isneginf(ps_pdf)) if self._log else np.sum(ps_pdf) == 0:
             raise ValueError("Posterior numerically unstable.")
         self._ps = ps_pdf
 
-- 
2.43.0


From eebce931cbb5b64df9adc25347b98894c09096f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 09/53] fix: Bayes plots use the current posterior, and its
 density when it is a log

---
 src/mud/base.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index aef8110..46b8f22 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -839,6 +839,10 @@ class BayesProblem(object):
     def estimate(self):
         return self.map_point()
 
+    def _posterior_weights(self):
+        """Posterior density at each sample, up to a constant factor"""
+        return np.exp(self._ps - np.max(self._ps)) if self._log else self._ps
+
     # TODO: Make changes similar to DensityProblem class
     def plot_param_space(
         self,
@@ -869,6 +873,8 @@ class BayesProblem(object):
         x_range = x_range if x_range is not None else self.domain
 
         # Plot distributions for all not set to None
+        if self._ps is None:
+            self.fit()
         if pr_opts is not None:
             pro.update(pr_opts)
             plot_dist(
@@ -882,8 +888,7 @@ class BayesProblem(object):
             )
         if ps_opts is not None:
             pso.update(ps_opts)
-            self.estimate()
-            ps_kde = gkde(self.X.T, weights=self._ps)
+            ps_kde = gkde(self.X.T, weights=self._posterior_weights())
             plot_dist(
                 ps_kde, x_range, idx=param_idx, ax=ax, source="kde", aff=aff, **pso
             )
@@ -964,7 +969,9 @@ class BayesProblem(object):
             po.update(pf_opts)
 
             # Compute PF of posterior
-            pf_kde = gkde(self.y.T, weights=self._ps)
+            if self._ps is None:
+                self.fit()
+            pf_kde = gkde(self.y.T, weights=self._posterior_weights())
             pf_p = margins(np.reshape(pf_kde(grid_points).T, XXX[0].shape))[
                 obs_idx
             ].reshape(-1)
-- 
2.43.0


From 7525b90a6fa6cae41dcd6b0127b378050a8cb318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 10/53] fix: data term of compute_functionals is the misfit A x
 + b - y

---
 src/mud/base.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 46b8f22..4ad919a 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1097,15 +1097,12 @@ class LinearGaussianProblem(object):
         individual terms in functionals that are minimized to solve the
         linear gaussian problem.
         """
-        # Compute observed mean
-        mean_o = self.y - self.b
-
         # Define inner-producted induced by vector norm
         def ip(X, mat):
             return np.sum(X * (np.linalg.inv(mat) @ X), axis=0)
 
         # First compute data mismatch norm
-        data_term = ip((self.A @ X.T + self.b) - mean_o.T, self.cov_o)
+        data_term = ip((self.A @ X.T + self.b) - self.y, self.cov_o)
         if terms == "data":
             return data_term
 
-- 
2.43.0


From 051366b7b3063cd72c9e5e6801bc9b8fbc346f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 11/53] fix: norm_data accepts the scalar observed_mean that is
 full_functional's default

---
 src/mud/norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/norm.py b/src/mud/norm.py
index 543badd..a57dbaf 100644
--- a/src/mud/norm.py
+++ b/src/mud/norm.py
@@ -47,7 +47,7 @@ def norm_input(inputs, initial_mean, initial_cov):
 def norm_data(operator, inputs, data, observed_mean, observed_cov):
     if isinstance(observed_cov, int) or isinstance(observed_cov, float):
         observed_cov = observed_cov * np.eye(len(data))
-    X = (operator @ inputs.T + data) - observed_mean.T
+    X = (operator @ inputs.T + data) - np.transpose(observed_mean)
     return inner_product(X, observed_cov)
 
 
-- 
2.43.0


From 3a8542e5b88d01e62c5677a1494aebef71aa2715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 12/53] fix: wme accepts column-shaped data, as documented

---
 src/mud/funs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/funs.py b/src/mud/funs.py
index 7b74e74..9162ce5 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -44,7 +44,7 @@ def wme(predictions, data, sd=None):
     if N != len(data):
         raise ValueError(f"Predictions and data dim mismatch {N} != {len(data)}")
 
-    return np.sum((1 / (sd * np.sqrt(N))) * (predictions - data), axis=1)
+    return np.sum((1 / (sd * np.sqrt(N))) * (predictions - np.ravel(data)), axis=1)
 
 
 def updated_cov(X, init_cov=None, data_cov=None):
-- 
2.43.0


From 986699b179f4d8a1aeb9b52e85f24634ffc8e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 13/53] fix: add_noise keeps the shape of a multi-dimensional
 signal

---
 src/mud/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/util.py b/src/mud/util.py
index 9254d65..cb00507 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -221,7 +221,7 @@ def add_noise(signal: ArrayLike, sd: float = 0.05, seed: Optional[int] = None):
         np.random.seed(seed)
 
     # Populate qoi_true with noise
-    noise = np.random.randn(signal.size) * sd
+    noise = np.random.randn(signal.size).reshape(signal.shape) * sd
 
     return signal + noise
 
-- 
2.43.0


From e23f7f9900f099aa9e20f09737a0c23de033d0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 14/53] fix: rank_decomposition sums the leading singular
 triples

---
 src/mud/util.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mud/util.py b/src/mud/util.py
index cb00507..e0b4b1f 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -232,10 +232,9 @@ def rank_decomposition(A: np.typing.ArrayLike) -> List[np.ndarray]:
     A_ranks = []
     rank_1_updates = []
     u, s, v = np.linalg.svd(A)
-    A_ranks.append(s[0] * (u[:, 0].reshape(-1, 1)) @ v[:, 0].reshape(1, -1))
-    for i in range(1, A.shape[1]):
-        rank_1_updates.append(s[i] * (u[:, i].reshape(-1, 1)) @ v[:, i].reshape(1, -1))
-        A_ranks.append(sum(rank_1_updates[0:i]))
+    for i in range(len(s)):
+        rank_1_updates.append(s[i] * (u[:, i].reshape(-1, 1)) @ v[i, :].reshape(1, -1))
+        A_ranks.append(sum(rank_1_updates))
 
     return A_ranks
 
-- 
2.43.0


From 1def6c4b65711833208bc9fdba8a8ac4a5009c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 15/53] fix: iterative linear solves pass the arguments their
 constructors take

---
 src/mud/base.py | 6 +++---
 src/mud/funs.py | 7 +++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 4ad919a..bf42ee0 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1470,9 +1470,9 @@ class IterativeLinearProblem(LinearGaussianProblem):
                         self.A[i, :],
                         self.b[i],
                         self.y[i],
-                        mean=solutions[-1],
-                        cov=self.cov,
-                        data_cov=self.data_cov,
+                        mean_i=solutions[-1],
+                        cov_i=self.cov,
+                        cov_o=self.data_cov[i, i].reshape(1, 1),
                     )
                 )
 
diff --git a/src/mud/funs.py b/src/mud/funs.py
index 9162ce5..762e5f4 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -174,10 +174,9 @@ def iter_lin_solve(
         A,
         b=b,
         y=y,
-        mean_i=mean,
-        cov_i=cov,
-        cov_o=data_cov,
-        alpha=1.0,
+        mu_i=mean,
+        cov=cov,
+        data_cov=data_cov,
         idx_order=idx_order,
     )
     res = lin_prob.solve(num_epochs=num_epochs, method=method)
-- 
2.43.0


From 3e941ac462f57a1e9c7b7eaa92cb8928a3e52339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 16/53] fix: get_errors answers for the reference it is given,
 not a cached one

---
 src/mud/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index bf42ee0..9ed38e7 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1490,8 +1490,7 @@ class IterativeLinearProblem(LinearGaussianProblem):
 
         """
         solutions = np.concatenate([x[1:] for x in self.solution_chains])
-        if len(solutions) != len(self.errors):
-            self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
+        self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
         return self.errors
 
     def plot_chain(self, ref_param, ax=None, color="k", s=100, **kwargs):
-- 
2.43.0


From ef194d2288f88b418bdb7138dce5167e7414bfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 17/53] fix: contour lines pass through the reference point,
 with valid default options

---
 src/mud/base.py | 8 ++++----
 src/mud/plot.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 9ed38e7..60dc7f8 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1287,7 +1287,7 @@ class LinearGaussianProblem(object):
         note_loc=None,
         w=1,
         label="{i}",
-        plot_opts={"color": "k", "ls": ":", "lw": 1, "fs": 20},
+        plot_opts={"color": "k", "ls": ":", "lw": 1},
         annotate_opts={"fontsize": 20},
     ):
         """
@@ -1310,8 +1310,8 @@ class LinearGaussianProblem(object):
 
         # Plot each contour line going through ref point
         for i, contour in enumerate(subset):
-            xloc = [ref[0] - w * AA[i, 0], ref[1] + w * AA[i, 0]]
-            yloc = [ref[0] - w * AA[i, 1], ref[1] + w * AA[i, 1]]
+            xloc = [ref[0] - w * AA[i, 0], ref[0] + w * AA[i, 0]]
+            yloc = [ref[1] - w * AA[i, 1], ref[1] + w * AA[i, 1]]
             ax.plot(xloc, yloc, **plot_opts)
 
             # If annotate is set, then label line with given annotations
@@ -1511,7 +1511,7 @@ class IterativeLinearProblem(LinearGaussianProblem):
             ax.scatter(current_point[0], current_point[1], c="g", s=s)
             ax.scatter(ref_param[0], ref_param[1], c="r", s=s)
         self.plot_contours(
-            ref_param, ax=ax, subset=self.idx_order, color=color, s=s, **kwargs
+            ref_param, ax=ax, subset=self.idx_order, plot_opts={"color": color}, **kwargs
         )
 
     def plot_chain_error(
diff --git a/src/mud/plot.py b/src/mud/plot.py
index 5970521..b387120 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -122,8 +122,8 @@ def plot_contours(
     numQoI = A.shape[0]
     AA = np.hstack([null_space(A[i, :].reshape(1, -1)) for i in range(numQoI)]).T
     for i, contour in enumerate(subset):
-        xloc = [ref_param[0] - w * AA[i, 0], ref_param[1] + w * AA[i, 0]]
-        yloc = [ref_param[0] - w * AA[i, 1], ref_param[1] + w * AA[i, 1]]
+        xloc = [ref_param[0] - w * AA[i, 0], ref_param[0] + w * AA[i, 0]]
+        yloc = [ref_param[1] - w * AA[i, 1], ref_param[1] + w * AA[i, 1]]
         plt.plot(xloc, yloc, c=color, ls=ls, lw=lw, **kwds)
         plt.annotate("%d" % (contour + 1), (xloc[0], yloc[0]), fontsize=fs)
 
-- 
2.43.0


From 37fea7412d78402e9d5a0b04fd45334c74d89fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 18/53] fix: plot_sol no longer writes into the caller's (or
 default) pt_opts

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 60dc7f8..6d78b46 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1259,7 +1259,7 @@ class LinearGaussianProblem(object):
 
         # Get solution point or initial poitn to plot.
         pt = self.mean_i if point == "initial" else self.solve(method=point)
-        pt_opts["label"] = point
+        pt_opts = {**pt_opts, "label": point}
 
         # Plot point
         ax.scatter(pt[0], pt[1], **pt_opts)
-- 
2.43.0


From a1a55d30fe7e448677ad7ef4be4a7283f16097a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 19/53] fix: domain setter checks the new domain's dimension,
 not the old one's

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 6d78b46..b325264 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1636,7 +1636,7 @@ class SpatioTemporalProblem(object):
     def domain(self, domain):
         domain = np.reshape(domain, (-1, 2))
         if self.lam is not None:
-            if self.domain.shape[0] != self.lam.shape[1]:
+            if domain.shape[0] != self.lam.shape[1]:
                 raise ValueError("Domain and parameter array dimension mismatch.")
             min_max = np.vstack([self.lam.min(axis=0), self.lam.max(axis=0)]).T
             if not all(
-- 
2.43.0


From a96c95d13771f1d25ab8dd78b47f47f3704a9639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 20/53] fix: lam_ref starts unset, is checked for length, and
 validate() can require it

---
 src/mud/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index b325264..aed0935 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1551,7 +1551,7 @@ class SpatioTemporalProblem(object):
         self._lam = None
         self._data = None
         self._measurements = None
-        self._true_lam = None
+        self._lam_ref = None
         self._true_vals = None
         self._sample_dist = None
         self.sensors = None
@@ -1621,6 +1621,8 @@ class SpatioTemporalProblem(object):
         if self.domain is None:
             raise AttributeError("domain not yet set.")
         lam_ref = np.reshape(lam_ref, (-1))
+        if lam_ref.shape[0] != self.n_params:
+            raise ValueError("lam_ref does not match the dimension of the domain.")
         for idx, lam in enumerate(lam_ref):
             if (lam < self.domain[idx][0]) or (lam > self.domain[idx][1]):
                 raise ValueError(
@@ -1838,7 +1840,7 @@ class SpatioTemporalProblem(object):
         if check_meas:
             req_attrs.append("measurements")
         if check_true:
-            req_attrs.append("true_lam")
+            req_attrs.append("lam_ref")
             req_attrs.append("true_vals")
 
         missing = [x for x in req_attrs if self.__getattribute__(x) is None]
-- 
2.43.0


From 64abf4dff1bf77b66a2af173ec4dba7115b474b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 21/53] fix: measurements_from_reference stores the reference
 through its setter

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index aed0935..8e9b35b 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1758,7 +1758,7 @@ class SpatioTemporalProblem(object):
         Add noise to a reference solution.
         """
         if ref is not None:
-            self._true_vals = ref
+            self.true_vals = ref
         if std_dev is not None:
             self.std_dev = std_dev
         if self.true_vals is None or self.std_dev is None:
-- 
2.43.0


From 7c0098629c65a25346bd71f650f10f7e02489c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 22/53] fix: sensors_mask works for sensors that are not 2-D
 coordinates

---
 src/mud/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 8e9b35b..315892d 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1874,7 +1874,9 @@ class SpatioTemporalProblem(object):
             if sub_meas is not None:
                 sub_meas = sub_meas[:, times_mask]
         if sensors_mask is not None:
-            sub_sensors = np.reshape(self.sensors[sensors_mask], (-1, 2))
+            sub_sensors = np.reshape(
+                self.sensors[sensors_mask], (-1,) + self.sensors.shape[1:]
+            )
             sub_data = sub_data[:, sensors_mask, :]
             if sub_meas is not None:
                 sub_meas = sub_meas[sensors_mask, :]
-- 
2.43.0


From 68513db3e0bc129c42a6e4adb281f092a78f60ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 23/53] fix: data_weights weigh data points, not samples

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 315892d..afe8396 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -2003,8 +2003,8 @@ class SpatioTemporalProblem(object):
         sub_n_samples = sub_data.shape[0]
 
         if data_weights is not None:
-            data_weights = np.reshape(data_weights, (-1, 1))
-            if data_weights.shape[0] != self.n_sensors * self.n_ts:
+            data_weights = np.reshape(data_weights, (1, -1))
+            if data_weights.shape[1] != sub_data.shape[1]:
                 raise ValueError(
                     "Data weights vector and dimension of data space does not match"
                 )
-- 
2.43.0


From 6a33dacf2cb296ac583a19ce566b6dd8a5909c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 24/53] fix: WME map is scaled by the number of data points,
 not of samples

---
 src/mud/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index afe8396..7e77b26 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -2000,7 +2000,6 @@ class SpatioTemporalProblem(object):
             sensors_mask=sensors_mask,
         )
         residuals = (sub_meas - sub_data) / self.std_dev
-        sub_n_samples = sub_data.shape[0]
 
         if data_weights is not None:
             data_weights = np.reshape(data_weights, (1, -1))
@@ -2012,7 +2011,7 @@ class SpatioTemporalProblem(object):
             residuals = data_weights * residuals
 
         if method == "wme":
-            qoi = np.sum(residuals, axis=1) / np.sqrt(sub_n_samples)
+            qoi = np.sum(residuals, axis=1) / np.sqrt(sub_data.shape[1])
         elif method == "pca":
             # Learn qoi to use using PCA
             pca_res, X_train = pca(residuals, n_components=num_components)
@@ -2032,7 +2031,6 @@ class SpatioTemporalProblem(object):
         else:
             ValueError(f"Unrecognized QoI Map type {method}")
 
-        # qoi = qoi.reshape(sub_n_samples, -1)
         d = DensityProblem(lam, qoi, self.domain, weights=sample_weights)
 
         return d
-- 
2.43.0


From 2de8f208290cdc5fb1d01fd3ab1de675c33a9588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 25/53] fix: raise the error for an unrecognized QoI map method

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 7e77b26..5861667 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -2029,7 +2029,7 @@ class SpatioTemporalProblem(object):
             self.svd = {"u": u, "singular_values": s, "singular_vectors": v}
             qoi = residuals @ (v[0:num_components, :]).T
         else:
-            ValueError(f"Unrecognized QoI Map type {method}")
+            raise ValueError(f"Unrecognized QoI Map type {method}")
 
         d = DensityProblem(lam, qoi, self.domain, weights=sample_weights)
 
-- 
2.43.0


From 0507fcc53efa002e3c7263d016bce21a9f23b098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 26/53] fix: load reads fields under the given names and sets
 what others depend on first

---
 src/mud/base.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 5861667..9dfcf60 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1806,9 +1806,9 @@ class SpatioTemporalProblem(object):
             ds = df
 
         def get_set_val(f, v):
-            if f in ds.keys():
-                self.__setattr__(f, ds[v])
-            elif v is not None and not isinstance(v, str):
+            if isinstance(v, str):
+                v = ds[v] if v in ds.keys() else None
+            if v is not None:
                 self.__setattr__(f, v)
 
         field_names = {
@@ -1816,8 +1816,10 @@ class SpatioTemporalProblem(object):
             "domain": "domain",
             "sensors": "sensors",
             "times": "times",
-            "lam_ref": "lam_ref",
             "std_dev": "std_dev",
+            "lam": lam,
+            "data": data,
+            "lam_ref": "lam_ref",
             "true_vals": "true_vals",
             "measurements": "measurements",
         }
@@ -1825,9 +1827,6 @@ class SpatioTemporalProblem(object):
         for f, v in field_names.items():
             get_set_val(f, v)
 
-        get_set_val("lam", lam)
-        get_set_val("data", data)
-
         return ds
 
     def validate(
-- 
2.43.0


From 5487bff49d4933bb9db827370b5a5d67e1b146ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 27/53] fix: data_prob's default sample distribution is one the
 problem accepts

---
 src/mud/funs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/funs.py b/src/mud/funs.py
index 762e5f4..f845e47 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -216,7 +216,7 @@ def data_prob(
     qoi_true=None,
     measurements=None,
     std_dev=None,
-    sample_dist="uniform",
+    sample_dist="u",
     domain=None,
     lam_ref=None,
     times=None,
-- 
2.43.0


From 095b5c81b3c6c7b92ed02ff268bd34b6b4e7ac73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 28/53] fix: plotted marginals are of the requested component

---
 src/mud/base.py | 4 +++-
 src/mud/plot.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 9dfcf60..8d9d1e8 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -947,7 +947,9 @@ class BayesProblem(object):
             y_range = np.repeat([[-1, 1]], self.y.shape[1], axis=0)
 
         # Build grid of points over range to compute marginals
-        XXX = np.meshgrid(*[np.linspace(i, j, aff)[:-1] for i, j in y_range])
+        XXX = np.meshgrid(
+            *[np.linspace(i, j, aff)[:-1] for i, j in y_range], indexing="ij"
+        )
         grid_points = np.vstack([x.ravel() for x in XXX])
         y_plot = np.linspace(y_range[obs_idx, 0], y_range[obs_idx, 1], aff)[: aff - 1]
 
diff --git a/src/mud/plot.py b/src/mud/plot.py
index b387120..6f0ef47 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -194,7 +194,7 @@ def build_nd_mesh_grid(domain, aff=100):
 
     """
 
-    mesh = np.meshgrid(*[np.linspace(i, j, aff)[:-1] for i, j in domain])
+    mesh = np.meshgrid(*[np.linspace(i, j, aff)[:-1] for i, j in domain], indexing="ij")
     grid_points = np.vstack([x.ravel() for x in mesh])
 
     return (mesh, grid_points)
@@ -208,6 +208,8 @@ def plot_dist(dist, domain, ax=None, idx=0, source="kde", aff=100, **kwargs):
     # Create plot if one isn't passed in
     _, ax = plt.subplots(1, 1) if ax is None else (None, ax)
 
+    domain = np.array(domain)
+
     # Mesh is a list of grids over n-dim space the distribution is defined over
     mesh, grid = build_nd_mesh_grid(domain, aff=aff)
     plot_x = np.linspace(domain[idx, 0], domain[idx, 1], aff)[: aff - 1]
@@ -220,7 +222,7 @@ def plot_dist(dist, domain, ax=None, idx=0, source="kde", aff=100, **kwargs):
         ].reshape(-1)
     elif source == "kde":
         # Compute observed distribution using kernel density estimate
-        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape).T)[idx].reshape(-1)
+        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape))[idx].reshape(-1)
     else:
         raise ValueError("Source must be one of pdf or kde.")
 
-- 
2.43.0


From b3eac2e5059f595df9c2843dc54f978cf65445eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 29/53] fix: plot_params_2d plots the requested parameters

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 8d9d1e8..d8a0b97 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -695,10 +695,10 @@ class DensityProblem(object):
             fig = plt.figure(figsize=(5, 5))
             ax = fig.add_subplot(1, 1, 1)
 
-        sp = ax.scatter(self.X[:, 0], self.X[:, 1], c=c)
+        sp = ax.scatter(self.X[:, x_1], self.X[:, x_2], c=c)
 
         if contours:
-            ax.tricontour(self.X[:, 0], self.X[:, 1], c, levels=20)
+            ax.tricontour(self.X[:, x_1], self.X[:, x_2], c, levels=20)
             ax.set_title(f"$q_{y+1}$")
 
         if colorbar and c is not None:
-- 
2.43.0


From 2b19d62e04d2dd4e9a2aa5d5f1574e8da05a4cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 30/53] fix: draw on the axes passed in, not the current ones

---
 src/mud/base.py | 4 ++--
 src/mud/plot.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index d8a0b97..fb49805 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1922,7 +1922,7 @@ class SpatioTemporalProblem(object):
 
         sensors = self.sensors[mask, :] if mask is not None else self.sensors
 
-        sp = plt.scatter(sensors[:, 0], sensors[:, 1], **kwargs)
+        sp = ax.scatter(sensors[:, 0], sensors[:, 1], **kwargs)
 
         if colorbar and "c" in kwargs.keys():
             fig = plt.gcf()
@@ -1963,7 +1963,7 @@ class SpatioTemporalProblem(object):
             "s": 2,
         }
         def_kwargs.update(meas_kwargs)
-        _ = plt.scatter(times, sub_meas, **def_kwargs)
+        _ = ax.scatter(times, sub_meas, **def_kwargs)
 
         # Plot simulated data time series
         def_sample_kwargs = {"color": "r", "linestyle": "-", "zorder": 1, "alpha": 0.1}
diff --git a/src/mud/plot.py b/src/mud/plot.py
index 6f0ef47..03bfece 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -154,7 +154,7 @@ def plot_1D_vecs(vecs, markers=None, ax=None, label=True, **kwargs):
     for i, v in enumerate(vecs):
         if markers is not None:
             kwargs["marker"] = markers[i]
-        plt.scatter(np.arange(len(v)), v, label=f"$p^{{({i+1})}}$", **kwargs)
+        ax.scatter(np.arange(len(v)), v, label=f"$p^{{({i+1})}}$", **kwargs)
 
     if label:
         ax.set_xlabel("i")
-- 
2.43.0


From a60bf6c801a8f383acd05136c3613dc758e5194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:41 +0000
Subject: [PATCH 31/53] fix: evaluate the likelihood on one grid point per row
 when plotting it

The likelihood of several observables has one location per observable; the
grid was passed with observables as rows, so plotting it failed for two or
more observables.
---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index fb49805..720630c 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -961,7 +961,7 @@ class BayesProblem(object):
 
             # Compute observed distribution using stored pdf
             ll_plot = margins(
-                np.reshape(self._ll_dist.pdf(grid_points).T.prod(axis=1), XXX[0].shape)
+                np.reshape(self._ll_dist.pdf(grid_points.T).prod(axis=1), XXX[0].shape)
             )[obs_idx].reshape(-1)
 
             # Plot pf of initial
-- 
2.43.0


From 7602d67a5453c370e9464c89d2beead0379fe7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:34 +0000
Subject: [PATCH 32/53] fix: refuse negative noise levels of distinct
 observations in linear WME maps

The message and the repeated-observation branch ask for a level above
1E-14, but the other branch only looked for zeros.
---
 src/mud/base.py | 2 +-
 src/mud/util.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 720630c..a8519e5 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1414,7 +1414,7 @@ class LinearWMEProblem(LinearGaussianProblem):
             if isinstance(std, (list, tuple)):
                 std = np.array(std)
             assert len(std) == num_observations, "Standard deviation shape mismatch"
-            assert 0 not in np.round(std, 14), "Std must be > 1E-14"
+            assert np.all(std > 1e-14), "Std must be > 1E-14"
             D = np.diag(1.0 / (std * np.sqrt(num_observations)))
             A = np.sum(D @ operator, axis=0)
         else:
diff --git a/src/mud/util.py b/src/mud/util.py
index e0b4b1f..04cd1d4 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -59,7 +59,7 @@ def transform_linear_map(operator, data, std):
         if isinstance(std, (list, tuple)):
             std = np.array(std)
         assert len(std) == num_observations, "Standard deviation shape mismatch"
-        assert 0 not in np.round(std, 14), "Std must be > 1E-14"
+        assert np.all(std > 1e-14), "Std must be > 1E-14"
         D = np.diag(1.0 / (std * np.sqrt(num_observations)))
         A = np.sum(D @ operator, axis=0)
     else:
-- 
2.43.0


From d4becc7e8a55c583a4f6ab2cefb26b99844f5ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:03 +0000
Subject: [PATCH 33/53] fix: read a flat reference parameter as a column in
 get_errors

Subtracting it from column solutions broadcast to a matrix, so the errors
were those of something else.
---
 src/mud/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index a8519e5..7f5df65 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1492,7 +1492,8 @@ class IterativeLinearProblem(LinearGaussianProblem):
 
         """
         solutions = np.concatenate([x[1:] for x in self.solution_chains])
-        self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
+        ref = set_shape(np.array(ref_param), (-1, 1))
+        self.errors = [np.linalg.norm(s - ref) for s in solutions]
         return self.errors
 
     def plot_chain(self, ref_param, ax=None, color="k", s=100, **kwargs):
-- 
2.43.0


From 2fb20725b83a49467503b831d787546983ee77ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:04 +0000
Subject: [PATCH 34/53] fix: svd passes its options on to the decomposition as
 documented

---
 src/mud/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/preprocessing.py b/src/mud/preprocessing.py
index 64efd10..abb292d 100644
--- a/src/mud/preprocessing.py
+++ b/src/mud/preprocessing.py
@@ -167,6 +167,6 @@ def svd(data: ArrayLike, **kwargs) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
     # Standarize and perform SVD
     sc = StandardScaler()
     X = sc.fit_transform(data)
-    U, S, V = np.linalg.svd(X)
+    U, S, V = np.linalg.svd(X, **kwargs)
 
     return (U, S, V)
-- 
2.43.0


From f8cc82c154a31ca7c43fb463f92787f1a84b16c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:57 +0000
Subject: [PATCH 35/53] fix: contour lines follow their own row when another
 row is zero

---
 src/mud/base.py | 6 +++---
 src/mud/plot.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 7f5df65..ffab7a3 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1308,12 +1308,12 @@ class LinearGaussianProblem(object):
         # Build null-space (contour lines) for each subset row of A
         A = self.A[np.array(subset), :]
         numQoI = A.shape[0]
-        AA = np.hstack([null_space(A[i, :].reshape(1, -1)) for i in range(numQoI)]).T
+        AA = [null_space(A[i, :].reshape(1, -1))[:, 0] for i in range(numQoI)]
 
         # Plot each contour line going through ref point
         for i, contour in enumerate(subset):
-            xloc = [ref[0] - w * AA[i, 0], ref[0] + w * AA[i, 0]]
-            yloc = [ref[1] - w * AA[i, 1], ref[1] + w * AA[i, 1]]
+            xloc = [ref[0] - w * AA[i][0], ref[0] + w * AA[i][0]]
+            yloc = [ref[1] - w * AA[i][1], ref[1] + w * AA[i][1]]
             ax.plot(xloc, yloc, **plot_opts)
 
             # If annotate is set, then label line with given annotations
diff --git a/src/mud/plot.py b/src/mud/plot.py
index 03bfece..ecfdb28 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -120,10 +120,10 @@ def plot_contours(
         subset = np.arange(A.shape[0])
     A = A[np.array(subset), :]
     numQoI = A.shape[0]
-    AA = np.hstack([null_space(A[i, :].reshape(1, -1)) for i in range(numQoI)]).T
+    AA = [null_space(A[i, :].reshape(1, -1))[:, 0] for i in range(numQoI)]
     for i, contour in enumerate(subset):
-        xloc = [ref_param[0] - w * AA[i, 0], ref_param[0] + w * AA[i, 0]]
-        yloc = [ref_param[1] - w * AA[i, 1], ref_param[1] + w * AA[i, 1]]
+        xloc = [ref_param[0] - w * AA[i][0], ref_param[0] + w * AA[i][0]]
+        yloc = [ref_param[1] - w * AA[i][1], ref_param[1] + w * AA[i][1]]
         plt.plot(xloc, yloc, c=color, ls=ls, lw=lw, **kwds)
         plt.annotate("%d" % (contour + 1), (xloc[0], yloc[0]), fontsize=fs)
 
-- 
2.43.0


From 9628f1409d30eb6d8a0e00804f9ab207de84d8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:57 +0000
Subject: [PATCH 36/53] fix: sensor contour plot selects the data of the masked
 sensors

---
 src/mud/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index ffab7a3..25ef9c8 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1901,6 +1901,8 @@ class SpatioTemporalProblem(object):
 
         sensors = self.sensors[mask, :] if mask is not None else self.sensors
         contours = c_vals if c_vals is not None else self.data[idx, :].ravel()
+        if c_vals is None and mask is not None and len(contours) == len(self.sensors):
+            contours = contours[mask]
 
         if fill:
             tc = ax.tricontourf(sensors[:, 0], sensors[:, 1], contours, **kwargs)
-- 
2.43.0


From 0df5ccef18ed452d9f966ae6da5fae2dacc04fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:57 +0000
Subject: [PATCH 37/53] fix: Bayesian observable plots accept a list range

---
 src/mud/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index 25ef9c8..12fa5c2 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -945,6 +945,7 @@ class BayesProblem(object):
         # Default range is (-1,1) over each observable variable
         if y_range is None:
             y_range = np.repeat([[-1, 1]], self.y.shape[1], axis=0)
+        y_range = np.array(y_range)
 
         # Build grid of points over range to compute marginals
         XXX = np.meshgrid(
-- 
2.43.0


From e846c0f73d508b69ec70aa2503b2ae013d2cc3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:25 +0000
Subject: [PATCH 38/53] fix: observable plots draw a predicted density given as
 a pdf object

---
 src/mud/base.py | 2 +-
 src/mud/plot.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 12fa5c2..5d18733 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -606,7 +606,7 @@ class DensityProblem(object):
             self.fit()
         if pr_opts:
             po.update(pr_opts)
-            source = "pdf" if isinstance(self._pr_dist, type(dist.uniform())) else "kde"
+            source = "kde" if callable(self._pr_dist) else "pdf"
             plot_dist(
                 self._pr_dist, y_range, idx=obs_idx, ax=ax, source=source, aff=aff, **po
             )
diff --git a/src/mud/plot.py b/src/mud/plot.py
index ecfdb28..ce69547 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -217,9 +217,9 @@ def plot_dist(dist, domain, ax=None, idx=0, source="kde", aff=100, **kwargs):
     # TODO: Add check that domain size matches dimension of dist
     if source == "pdf":
         # Compute observed distribution using stored pdf
-        plot_y = margins(np.reshape(dist.pdf(grid.T).prod(axis=1), mesh[idx].shape))[
-            idx
-        ].reshape(-1)
+        pdf = dist.pdf(grid.T)
+        pdf = pdf.prod(axis=1) if np.ndim(pdf) > 1 else pdf
+        plot_y = margins(np.reshape(pdf, mesh[idx].shape))[idx].reshape(-1)
     elif source == "kde":
         # Compute observed distribution using kernel density estimate
         plot_y = margins(np.reshape(dist(grid), mesh[idx].shape))[idx].reshape(-1)
-- 
2.43.0


From 897035e254900c713a06a2c0206c2afce02116f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:48 +0000
Subject: [PATCH 39/53] fix: samples of zero weight or density stay out of the
 answer when the predicted density vanishes

---
 src/mud/base.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 5d18733..a776a6d 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -348,10 +348,20 @@ class DensityProblem(object):
 
         # Store ratio of observed/predicted
         # e.g. to comptue E(r) and to pass on to future iterations
-        self._r = np.divide(self._ob, self._pr)
+        # (samples of zero weight or zero observed density contribute nothing,
+        # also where the predicted density vanishes)
+        self._r = np.divide(
+            self._ob,
+            self._pr,
+            out=np.zeros(self.n_samples),
+            where=(self._ob != 0) & (self._weights != 0),
+        )
 
         # Multiply by initial to get updated pdf
-        up_pdf = np.multiply(self._in * self._weights, self._r)
+        in_pdf = self._in * self._weights
+        up_pdf = np.multiply(
+            in_pdf, self._r, out=np.zeros(self.n_samples), where=in_pdf != 0
+        )
         self._up = up_pdf
 
     def mud_point(self):
-- 
2.43.0


From b402e87ff8e7ac5d947c74907ca7b98d73f9a8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:22 +0000
Subject: [PATCH 40/53] fix: plot_params_2d passes its keyword arguments to
 scatter, as documented

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index a776a6d..98c6be9 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -705,7 +705,7 @@ class DensityProblem(object):
             fig = plt.figure(figsize=(5, 5))
             ax = fig.add_subplot(1, 1, 1)
 
-        sp = ax.scatter(self.X[:, x_1], self.X[:, x_2], c=c)
+        sp = ax.scatter(self.X[:, x_1], self.X[:, x_2], c=c, **kwargs)
 
         if contours:
             ax.tricontour(self.X[:, x_1], self.X[:, x_2], c, levels=20)
-- 
2.43.0


From 5033e075b2dd93dfa3b04176d2c4b68d6dd7b5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:49 +0000
Subject: [PATCH 41/53] fix: integer samples and observables lose neither
 padding nor precision

---
 src/mud/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 98c6be9..9976fd7 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -108,8 +108,8 @@ class DensityProblem(object):
         normalize: bool = False,
         pad_domain: float = 0.1,
     ):
-        self.X = set_shape(np.array(X), (-1, 1))
-        self.y = set_shape(np.array(y), (-1, 1))
+        self.X = set_shape(np.array(X, dtype=float), (-1, 1))
+        self.y = set_shape(np.array(y, dtype=float), (-1, 1))
 
         # These will be updated in set_ and fit() functions
         self._r = None  # Ratio of observed to predicted
@@ -767,8 +767,8 @@ class BayesProblem(object):
         def set_shape(x, y):
             return x.reshape(y) if x.ndim < 2 else x
 
-        self.X = set_shape(np.array(X), (1, -1))
-        self.y = set_shape(np.array(y), (1, -1))
+        self.X = set_shape(np.array(X, dtype=float), (1, -1))
+        self.y = set_shape(np.array(y, dtype=float), (1, -1))
 
         if domain is not None:
             # Assert domain passed in is consistent with data array
-- 
2.43.0


From 3476197fc98f35871eda2e88de98e82ccd9a82dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:49 +0000
Subject: [PATCH 42/53] fix: weights given as large whole numbers do not
 overflow

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 9976fd7..77e5196 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -175,7 +175,7 @@ class DensityProblem(object):
         if weights is None:
             w = np.ones(self.X.shape[0])
         else:
-            w = np.array(weights)
+            w = np.array(weights, dtype=float)
 
             # Reshape to 2D
             w = w.reshape(1, -1) if w.ndim == 1 else w
-- 
2.43.0


From 4473e2820e2e3d57a338d5e09e15a92bfc1a279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:49 +0000
Subject: [PATCH 43/53] fix: linear problems compute in floating point whatever
 type their arrays have

---
 src/mud/base.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 77e5196..26e40fa 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1065,18 +1065,22 @@ class LinearGaussianProblem(object):
         alpha=1.0,
     ):
         # Make sure A is 2D array
-        A = np.array(A)
+        A = np.array(A, dtype=float)
         self.A = A if A.ndim == 2 else A.reshape(1, -1)
         ns, di = self.A.shape
 
         # Initialize to defaults - Reshape everything into 2D arrays.
-        self.b = np.zeros((ns, 1)) if b is None else np.array(b).reshape(-1, 1)
-        self.y = np.zeros((ns, 1)) if y is None else np.array(y).reshape(-1, 1)
+        self.b = np.zeros((ns, 1)) if b is None else np.array(b, float).reshape(-1, 1)
+        self.y = (
+            np.zeros((ns, 1)) if y is None else np.array(y, float).reshape(-1, 1)
+        )
         self.mean_i = (
-            np.zeros((di, 1)) if mean_i is None else np.array(mean_i).reshape(-1, 1)
+            np.zeros((di, 1))
+            if mean_i is None
+            else np.array(mean_i, float).reshape(-1, 1)
         )
-        self.cov_i = np.eye(di) if cov_i is None else np.array(cov_i)
-        self.cov_o = np.eye(ns) if cov_o is None else np.array(cov_o)
+        self.cov_i = np.eye(di) if cov_i is None else np.array(cov_i, float)
+        self.cov_o = np.eye(ns) if cov_o is None else np.array(cov_o, float)
 
         # How much to scale regularization terms
         self.alpha = alpha if alpha is not None else 1.0
-- 
2.43.0


From 9d369312e2f539f3e99677e620c27573853b1a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:49 +0000
Subject: [PATCH 44/53] fix: contours of an iterative problem are drawn without
 advancing it

---
 src/mud/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 26e40fa..df10c90 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1318,7 +1318,9 @@ class LinearGaussianProblem(object):
         subset = np.arange(self.A.shape[0]) if subset is None else subset
 
         # Ref is the reference point to plot each contour line through.
-        ref = ref if ref is not None else self.solve(method="ls")
+        if ref is None:
+            mean_o = np.subtract(np.reshape(self.y, (-1, 1)), self.b, dtype=float)
+            ref = np.linalg.pinv(self.A) @ mean_o
 
         # Build null-space (contour lines) for each subset row of A
         A = self.A[np.array(subset), :]
-- 
2.43.0


From 3c542866e69b65aaee293d3faf5a7f2ce00f004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:49 +0000
Subject: [PATCH 45/53] fix: linear weighted mean error maps keep their
 precision for integer data

---
 src/mud/base.py | 5 ++---
 src/mud/util.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index df10c90..6bfc845 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1417,9 +1417,8 @@ class LinearWMEProblem(LinearGaussianProblem):
         >>> lin_wme_prob.y
         array([[0.]])
         """
-        if isinstance(data, np.ndarray):
-            data = data.ravel()
-
+        operator = np.asarray(operator, dtype=float)
+        data = np.ravel(data).astype(float)
         num_observations = len(data)
 
         if operator.shape[0] > 1:  # if not repeated observations
diff --git a/src/mud/util.py b/src/mud/util.py
index 04cd1d4..006cb43 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -45,9 +45,8 @@ def transform_linear_map(operator, data, std):
     ...
     ValueError: For repeated measurements, pass a float for std
     """
-    if isinstance(data, np.ndarray):
-        data = data.ravel()
-
+    operator = np.asarray(operator, dtype=float)
+    data = np.ravel(data).astype(float)
     num_observations = len(data)
 
     if operator.shape[0] > 1:  # if not repeated observations
-- 
2.43.0


From 3630240501ce2b250719552f78350b24dfc628d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:49 +0000
Subject: [PATCH 46/53] fix: noise levels may be numpy numbers and are used in
 full precision

---
 src/mud/base.py |  9 ++++-----
 src/mud/util.py | 11 +++++------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 6bfc845..1af0530 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1375,7 +1375,7 @@ class LinearWMEProblem(LinearGaussianProblem):
         cov_o=None,
         alpha=1.0,
     ):
-        if isinstance(sigma, (float, int)):
+        if np.isscalar(sigma):
             sigma = [sigma] * len(data)
 
         results = [
@@ -1425,10 +1425,9 @@ class LinearWMEProblem(LinearGaussianProblem):
             assert (
                 operator.shape[0] == num_observations
             ), f"Operator shape mismatch, op={operator.shape}, obs={num_observations}"
-            if isinstance(std, (float, int)):
-                std = np.array([std] * num_observations)
-            if isinstance(std, (list, tuple)):
-                std = np.array(std)
+            if np.isscalar(std):
+                std = [std] * num_observations
+            std = np.array(std, dtype=float)
             assert len(std) == num_observations, "Standard deviation shape mismatch"
             assert np.all(std > 1e-14), "Std must be > 1E-14"
             D = np.diag(1.0 / (std * np.sqrt(num_observations)))
diff --git a/src/mud/util.py b/src/mud/util.py
index 006cb43..5f038c6 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -53,16 +53,15 @@ def transform_linear_map(operator, data, std):
         assert (
             operator.shape[0] == num_observations
         ), f"Operator shape mismatch, op={operator.shape}, obs={num_observations}"
-        if isinstance(std, (float, int)):
-            std = np.array([std] * num_observations)
-        if isinstance(std, (list, tuple)):
-            std = np.array(std)
+        if np.isscalar(std):
+            std = [std] * num_observations
+        std = np.array(std, dtype=float)
         assert len(std) == num_observations, "Standard deviation shape mismatch"
         assert np.all(std > 1e-14), "Std must be > 1E-14"
         D = np.diag(1.0 / (std * np.sqrt(num_observations)))
         A = np.sum(D @ operator, axis=0)
     else:
-        if isinstance(std, (list, tuple, np.ndarray)):
+        if np.ndim(std) > 0:
             raise ValueError("For repeated measurements, pass a float for std")
         assert std > 1e-14, "Std must be > 1E-14"
         A = np.sqrt(num_observations) / std * operator
@@ -72,7 +71,7 @@ def transform_linear_map(operator, data, std):
 
 
 def transform_linear_setup(operator_list, data_list, std_list):
-    if isinstance(std_list, (float, int)):
+    if np.isscalar(std_list):
         std_list = [std_list] * len(data_list)
     # repeat process for multiple quantities of interest
     results = [
-- 
2.43.0


From b147ecd2625fc042ceaea020af9d0ed50fd1208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:49 +0000
Subject: [PATCH 47/53] fix: refuse quantities of interest without data or
 noise level instead of dropping them

---
 src/mud/base.py | 2 ++
 src/mud/util.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index 1af0530..7a5bba3 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1377,6 +1377,8 @@ class LinearWMEProblem(LinearGaussianProblem):
     ):
         if np.isscalar(sigma):
             sigma = [sigma] * len(data)
+        if not len(operators) == len(data) <= len(sigma):
+            raise ValueError("Each operator needs its data and noise level")
 
         results = [
             self._transform_linear_map(o, d, s)
diff --git a/src/mud/util.py b/src/mud/util.py
index 5f038c6..f61a9cc 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -73,6 +73,8 @@ def transform_linear_map(operator, data, std):
 def transform_linear_setup(operator_list, data_list, std_list):
     if np.isscalar(std_list):
         std_list = [std_list] * len(data_list)
+    if not len(operator_list) == len(data_list) <= len(std_list):
+        raise ValueError("Each operator needs its data and noise level")
     # repeat process for multiple quantities of interest
     results = [
         transform_linear_map(o, d, s)
-- 
2.43.0


From 03dc4ec8756f0cf654b0f964d54e3eea47245f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:49 +0000
Subject: [PATCH 48/53] fix: no epochs leave an iterative problem at its
 initial mean, without errors

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 7a5bba3..02854af 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1501,14 +1501,14 @@ class IterativeLinearProblem(LinearGaussianProblem):
             self.epochs.append(epoch)
             self.solution_chains.append(solutions)
 
-        return self.solution_chains[-1][-1]
+        return solutions[-1]
 
     def get_errors(self, ref_param):
         """
         Get errors with respect to a reference parameter
 
         """
-        solutions = np.concatenate([x[1:] for x in self.solution_chains])
+        solutions = [s for chain in self.solution_chains for s in chain[1:]]
         ref = set_shape(np.array(ref_param), (-1, 1))
         self.errors = [np.linalg.norm(s - ref) for s in solutions]
         return self.errors
-- 
2.43.0


From 214bbda28b66272ef53eab5cd48ca6e75ec4ca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:49 +0000
Subject: [PATCH 49/53] fix: residuals of unsigned data do not wrap around

---
 src/mud/base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 02854af..f5b8001 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1753,7 +1753,8 @@ class SpatioTemporalProblem(object):
             times_mask=times_mask,
             sensors_mask=sensors_mask,
         )
-        closest_idx = np.argmin(np.linalg.norm(sub_data - sub_meas.T, axis=1))
+        residuals = np.subtract(sub_data, sub_meas.T, dtype=float)
+        closest_idx = np.argmin(np.linalg.norm(residuals, axis=1))
         closest_lam = lam[closest_idx, :].ravel()
 
         return closest_lam
@@ -1768,7 +1769,8 @@ class SpatioTemporalProblem(object):
         """
         if self.true_vals is None:
             raise AttributeError("True values is not set")
-        closest_idx = np.argmin(np.linalg.norm(self.data - self.true_vals.T, axis=1))
+        residuals = np.subtract(self.data, self.true_vals.T, dtype=float)
+        closest_idx = np.argmin(np.linalg.norm(residuals, axis=1))
         closest_lam = self.lam[closest_idx, :].ravel()
 
         return closest_lam
@@ -2020,10 +2022,10 @@ class SpatioTemporalProblem(object):
             times_mask=times_mask,
             sensors_mask=sensors_mask,
         )
-        residuals = (sub_meas - sub_data) / self.std_dev
+        residuals = np.subtract(sub_meas, sub_data, dtype=float) / self.std_dev
 
         if data_weights is not None:
-            data_weights = np.reshape(data_weights, (1, -1))
+            data_weights = np.array(data_weights, dtype=float).reshape(1, -1)
             if data_weights.shape[1] != sub_data.shape[1]:
                 raise ValueError(
                     "Data weights vector and dimension of data space does not match"
-- 
2.43.0


From 2179f7a085433960bb98195b87f625b117f5ee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:49 +0000
Subject: [PATCH 50/53] fix: weighted mean error of unsigned or small integers
 is computed in floating point

---
 src/mud/funs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mud/funs.py b/src/mud/funs.py
index f845e47..fac2c70 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -44,7 +44,8 @@ def wme(predictions, data, sd=None):
     if N != len(data):
         raise ValueError(f"Predictions and data dim mismatch {N} != {len(data)}")
 
-    return np.sum((1 / (sd * np.sqrt(N))) * (predictions - np.ravel(data)), axis=1)
+    residuals = np.subtract(predictions, np.ravel(data), dtype=float)
+    return np.sum((1 / (sd * np.sqrt(N))) * residuals, axis=1)
 
 
 def updated_cov(X, init_cov=None, data_cov=None):
-- 
2.43.0


From a1a1c900f3c81d403777fa13e0e9cb248a3b1301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:49 +0000
Subject: [PATCH 51/53] fix: norms accept numpy numbers and unsigned arrays

---
 src/mud/norm.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/mud/norm.py b/src/mud/norm.py
index a57dbaf..2098b7a 100644
--- a/src/mud/norm.py
+++ b/src/mud/norm.py
@@ -38,23 +38,24 @@ def full_functional(
 
 
 def norm_input(inputs, initial_mean, initial_cov):
-    if isinstance(initial_cov, int) or isinstance(initial_cov, float):
+    if np.ndim(initial_cov) == 0:
         initial_cov = initial_cov * np.eye(len(initial_mean))
-    X = (inputs - initial_mean.T).T
+    X = np.subtract(inputs, initial_mean.T, dtype=float).T
     return inner_product(X, initial_cov)
 
 
 def norm_data(operator, inputs, data, observed_mean, observed_cov):
-    if isinstance(observed_cov, int) or isinstance(observed_cov, float):
+    if np.ndim(observed_cov) == 0:
         observed_cov = observed_cov * np.eye(len(data))
-    X = (operator @ inputs.T + data) - np.transpose(observed_mean)
+    predicted = operator @ inputs.T + data
+    X = np.subtract(predicted, np.transpose(observed_mean), dtype=float)
     return inner_product(X, observed_cov)
 
 
 def norm_predicted(operator, inputs, initial_mean, initial_cov):
-    if isinstance(initial_cov, int) or isinstance(initial_cov, float):
+    if np.ndim(initial_cov) == 0:
         initial_cov = initial_cov * np.eye(len(initial_mean))
     predicted_cov = operator @ initial_cov @ operator.T
     # if operator is affine, we can factor it (for efficiency) to be same as linear
-    X = operator @ (inputs - initial_mean.T).T
+    X = operator @ np.subtract(inputs, initial_mean.T, dtype=float).T
     return inner_product(X, predicted_cov)
-- 
2.43.0


From df530d050dd82b1d5445b5eacaf4f3938e45239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:49 +0000
Subject: [PATCH 52/53] fix: padding a domain of small integers does not wrap
 around

---
 src/mud/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mud/util.py b/src/mud/util.py
index f61a9cc..e5d57f9 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -279,6 +279,8 @@ def fit_domain(
         min_max_bounds = np.array([x.min(axis=0), x.max(axis=0)]).T
     else:
         min_max_bounds = np.array(min_max_bounds)
+    if min_max_bounds.dtype.kind in "iu":
+        min_max_bounds = min_max_bounds.astype(int)  # room for the padding
     pad = pad_ratio * (min_max_bounds[:, 1] - min_max_bounds[:, 0])
     min_max_bounds[:, 0] = min_max_bounds[:, 0] - pad
     min_max_bounds[:, 1] = min_max_bounds[:, 1] + pad
-- 
2.43.0


From 2b307bf9f8de0bd8402c98a0198a457a9aa35dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:14 +0000
Subject: [PATCH 53/53] fix: principal components of large data are exact and
 draw no random numbers

scikit-learn switches to a randomized solver for data with more than 500
rows or columns and few components: the directions were then approximate,
the transformed data not the projection on them, and every call consumed
(and depended on) NumPy's global random state.
---
 src/mud/preprocessing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mud/preprocessing.py b/src/mud/preprocessing.py
index abb292d..1f49c90 100644
--- a/src/mud/preprocessing.py
+++ b/src/mud/preprocessing.py
@@ -96,7 +96,9 @@ def pca(data: ArrayLike, n_components: int = 2, **kwargs) -> Tuple[PCA, np.ndarr
     if ndim != 2:
         raise ValueError(f"Data is {ndim} dimensional. Must be 2D")
 
-    # Standarize and perform linear PCA
+    # Standarize and perform linear PCA, with all directions exact for any size
+    # of data (by default large data is reduced with random projections)
+    kwargs.setdefault("svd_solver", "full")
     sc = StandardScaler()
     pca = PCA(n_components=n_components, **kwargs)
     X_train = pca.fit_transform(sc.fit_transform(data))
-- 
2.43.0

