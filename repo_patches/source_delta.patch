From d643a72c86ddc9e6f632dba31eb6aa0cf77b1000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 01/68] fix: spatial 2SLS instruments with yend and slx_lags
 start at W^(slx_lags+1)x

With additional endogenous variables and slx_lags > 0, set_endog skipped
W^(slx_lags+1)x: the instruments started one lag too high, unlike the branch
without yend and unlike the instrument names that are reported.
---
 spreg/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 3fbf27a..8b0d424 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -683,7 +683,9 @@ def set_endog(y, x, w, yend, q, w_lags, lag_q, slx_lags=0, slx_vars="all"):
     # spatial and non-spatial instruments
     if issubclass(type(yend), np.ndarray):
         if slx_lags > 0:
-            lag_x, lag_xq = get_lags_split(w, x, slx_lags+1, slx_lags)
+            # the instruments start one lag above the last lag of x used as regressor
+            lag_x = get_lags(w, x, slx_lags)
+            lag_xq = lag_x[:, -x.shape[1]:]
         else:
             lag_xq = x
         if lag_q:
-- 
2.43.0


From b3473b4548c541e2715290a0bcc0fa1762d07a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 02/68] fix: names of spatial instruments and slx_vars masks in
 spatial lag/combo models

With slx_vars a list, name_q/name_h described instruments that are not the
columns used; slx_lags > 1 raised IndexError, and a constant column in x made
every mask length invalid.
---
 spreg/error_sp.py     | 19 +++++--------------
 spreg/error_sp_het.py | 19 +++++--------------
 spreg/error_sp_hom.py | 22 +++++-----------------
 spreg/twosls_sp.py    | 19 +++++--------------
 spreg/utils.py        |  2 +-
 5 files changed, 21 insertions(+), 60 deletions(-)

diff --git a/spreg/error_sp.py b/spreg/error_sp.py
index 18cc550..f565127 100644
--- a/spreg/error_sp.py
+++ b/spreg/error_sp.py
@@ -1012,7 +1012,7 @@ class GM_Combo(BaseGM_Endog_Error):
         # kx and wkx are used to replace complex calculation for output
         if slx_lags > 0:  # adjust for flexwx
             if (isinstance(slx_vars,list)):     # slx_vars has True,False
-                if len(slx_vars) != x.shape[1] :
+                if len(slx_vars) != len(name_x) - 1:
                     raise Exception("slx_vars incompatible with x column dimensions")
                 else:  # use slx_vars to extract proper columns
                     workname = name_x[1:]
@@ -1039,19 +1039,10 @@ class GM_Combo(BaseGM_Endog_Error):
         self.name_q = USER.set_name_q(name_q, q)
 
         if slx_lags > 0:  # need to remove all but last SLX variables from name_x
-            self.name_x0 = []
-            self.name_x0.append(self.name_x[0])  # constant
-            if (isinstance(slx_vars,list)):   # boolean list passed
-                # x variables that were not lagged
-                self.name_x0.extend(list(compress(self.name_x[1:],[not i for i in slx_vars])))
-                # last wkx variables
-                self.name_x0.extend(self.name_x[-wkx:])
-
-
-            else:
-                okx = int((self.k - self.yend.shape[1] - 1) / (slx_lags + 1))  # number of original exogenous vars
-
-                self.name_x0.extend(self.name_x[-okx:])
+            # the instruments lag the last lag of every exogenous variable
+            self.name_x0 = self.name_x[:1] + USER.set_name_spatial_lags(
+                self.name_x[1:kx + 1], slx_lags
+            )[-kx:]
 
             self.name_q.extend(USER.set_name_q_sp(self.name_x0, w_lags, self.name_q, lag_q))
 
diff --git a/spreg/error_sp_het.py b/spreg/error_sp_het.py
index a03d423..d5c11c6 100755
--- a/spreg/error_sp_het.py
+++ b/spreg/error_sp_het.py
@@ -1463,7 +1463,7 @@ class GM_Combo_Het(BaseGM_Combo_Het):
 
         if slx_lags > 0:  # adjust for flexwx
             if (isinstance(slx_vars,list)):     # slx_vars has True,False
-                if len(slx_vars) != x.shape[1] :
+                if len(slx_vars) != len(name_x) - 1:
                     raise Exception("slx_vars incompatible with x column dimensions")
                 else:  # use slx_vars to extract proper columns
                     workname = name_x[1:]
@@ -1494,19 +1494,10 @@ class GM_Combo_Het(BaseGM_Combo_Het):
         self.name_q = USER.set_name_q(name_q, q)
 
         if slx_lags > 0:  # need to remove all but last SLX variables from name_x
-            self.name_x0 = []
-            self.name_x0.append(self.name_x[0])  # constant
-            if (isinstance(slx_vars,list)):   # boolean list passed
-                # x variables that were not lagged
-                self.name_x0.extend(list(compress(self.name_x[1:],[not i for i in slx_vars])))
-                # last wkx variables
-                self.name_x0.extend(self.name_x[-wkx:])
-
-
-            else:
-                okx = int((self.k - self.yend.shape[1] - 1) / (slx_lags + 1))  # number of original exogenous vars
-
-                self.name_x0.extend(self.name_x[-okx:])
+            # the instruments lag the last lag of every exogenous variable
+            self.name_x0 = self.name_x[:1] + USER.set_name_spatial_lags(
+                self.name_x[1:kx + 1], slx_lags
+            )[-kx:]
 
             self.name_q.extend(USER.set_name_q_sp(self.name_x0, w_lags, self.name_q, lag_q))
 
diff --git a/spreg/error_sp_hom.py b/spreg/error_sp_hom.py
index e7210ff..0964011 100644
--- a/spreg/error_sp_hom.py
+++ b/spreg/error_sp_hom.py
@@ -1413,7 +1413,7 @@ class GM_Combo_Hom(BaseGM_Combo_Hom):
 
         if slx_lags > 0:  # adjust for flexwx
             if isinstance(slx_vars, list):  # slx_vars has True,False
-                if len(slx_vars) != x.shape[1]:
+                if len(slx_vars) != len(name_x) - 1:
                     raise Exception("slx_vars incompatible with x column dimensions")
                 else:  # use slx_vars to extract proper columns
                     workname = name_x[1:]
@@ -1446,22 +1446,10 @@ class GM_Combo_Hom(BaseGM_Combo_Hom):
         self.name_q = USER.set_name_q(name_q, q)
 
         if slx_lags > 0:  # need to remove all but last SLX variables from name_x
-            self.name_x0 = []
-            self.name_x0.append(self.name_x[0])  # constant
-            if isinstance(slx_vars, list):  # boolean list passed
-                # x variables that were not lagged
-                self.name_x0.extend(
-                    list(compress(self.name_x[1:], [not i for i in slx_vars]))
-                )
-                # last wkx variables
-                self.name_x0.extend(self.name_x[-wkx:])
-
-            else:
-                okx = int(
-                    (self.k - self.yend.shape[1] - 1) / (slx_lags + 1)
-                )  # number of original exogenous vars
-
-                self.name_x0.extend(self.name_x[-okx:])
+            # the instruments lag the last lag of every exogenous variable
+            self.name_x0 = self.name_x[:1] + USER.set_name_spatial_lags(
+                self.name_x[1:kx + 1], slx_lags
+            )[-kx:]
 
             self.name_q.extend(
                 USER.set_name_q_sp(self.name_x0, w_lags, self.name_q, lag_q)
diff --git a/spreg/twosls_sp.py b/spreg/twosls_sp.py
index 8efc6e6..5fb549a 100755
--- a/spreg/twosls_sp.py
+++ b/spreg/twosls_sp.py
@@ -581,7 +581,7 @@ class GM_Lag(BaseGM_Lag):
             # kx and wkx are used to replace complex calculation for output
             if slx_lags > 0:  # adjust for flexwx
                 if (isinstance(slx_vars,list)):     # slx_vars has True,False
-                    if len(slx_vars) != x.shape[1] :
+                    if len(slx_vars) != len(name_x) - 1:
                         raise Exception("slx_vars incompatible with x column dimensions")
                     else:  # use slx_vars to extract proper columns
                         workname = name_x[1:]
@@ -629,19 +629,10 @@ class GM_Lag(BaseGM_Lag):
             self.name_q = USER.set_name_q(name_q, q)
 
             if slx_lags > 0:  # need to remove all but last SLX variables from name_x
-                self.name_x0 = []
-                self.name_x0.append(self.name_x[0])  # constant
-                if (isinstance(slx_vars,list)):   # boolean list passed
-                    # x variables that were not lagged
-                    self.name_x0.extend(list(compress(self.name_x[1:],[not i for i in slx_vars])))
-                    # last wkx variables
-                    self.name_x0.extend(self.name_x[-wkx:])
-
-
-                else:
-                    okx = int((self.k - self.kstar - 1) / (slx_lags + 1))  # number of original exogenous vars
-
-                    self.name_x0.extend(self.name_x[-okx:])
+                # the instruments lag the last lag of every exogenous variable
+                self.name_x0 = self.name_x[:1] + USER.set_name_spatial_lags(
+                    self.name_x[1:kx + 1], slx_lags
+                )[-kx:]
 
                 self.name_q.extend(USER.set_name_q_sp(self.name_x0, w_lags, self.name_q, lag_q))
 
diff --git a/spreg/utils.py b/spreg/utils.py
index 8b0d424..726beca 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -718,7 +718,7 @@ def set_endog(y, x, w, yend, q, w_lags, lag_q, slx_lags=0, slx_vars="all"):
             if slx_vars.shape[0] != x.shape[1]:
                 raise Exception("slx_vars incompatible with x column dimensions")
             
-            lag_x = lag_x[:, slx_vars]
+            lag_x = lag_x[:, np.tile(slx_vars, slx_lags)]
             return yend, q, lag_x
 
 
-- 
2.43.0


From eae90cd3b5b8ef02d50fc96014719a3015ee1156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 03/68] fix: power_expansion rejects data of large norm

The initial 'previous norm' of 1e7 made any first increment larger than that
look like divergence, so large-scale data could not be filtered.
---
 spreg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 726beca..6bc8cc9 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -658,7 +658,7 @@ def power_expansion(
     running_total = copy.copy(data)
     increment = copy.copy(data)
     count = 1
-    test = 10000000
+    test = np.inf
     if max_iterations == None:
         max_iterations = 10000000
     while test > threshold and count <= max_iterations:
-- 
2.43.0


From c3745ed5fb847cc58b1382986e4afd69bf2e344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 04/68] fix: GM error lambda depends on the unit of y (variance
 of the KP98 moments not reached)

---
 spreg/utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spreg/utils.py b/spreg/utils.py
index 6bc8cc9..b7e48d5 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -385,6 +385,15 @@ def optim_moments(moments_in, vcX=np.array([0]), all_par=False, start=None, hard
             start = [0.0, 1.0, 1.0]
         bounds = [(-0.99, 0.99), (0.0, None), (0.0, None)]
     lambdaX = op.fmin_l_bfgs_b(optim_par, start, approx_grad=True, bounds=bounds)
+    if moments[0].shape == (3, 3):
+        # a variance far from its starting value is not reached from there: try
+        # again with the variance in units of u'u/n
+        unit = np.array([1.0, float(moments_in[1][0, 0])])
+        rescaled = op.fmin_l_bfgs_b(
+            lambda par: optim_par(par * unit), start, approx_grad=True, bounds=bounds
+        )
+        if rescaled[1] < 0.99 * lambdaX[1]:
+            lambdaX = (rescaled[0] * unit,) + rescaled[1:]
 
     if hard_bound:
         if abs(lambdaX[0][0]) >= 0.99:
-- 
2.43.0


From 734684dae0e8b14c76a90967a28c0a5097383896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 05/68] fix: moments optimisation stops at the bound of lambda
 although it is no minimum

---
 spreg/utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spreg/utils.py b/spreg/utils.py
index b7e48d5..e486dcf 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -395,6 +395,14 @@ def optim_moments(moments_in, vcX=np.array([0]), all_par=False, start=None, hard
         if rescaled[1] < 0.99 * lambdaX[1]:
             lambdaX = (rescaled[0] * unit,) + rescaled[1:]
 
+    if moments[0].shape[1] == 2 and abs(lambdaX[0][0]) >= 0.99:
+        # the search can stop at a bound that is no minimum
+        inside = op.minimize_scalar(
+            lambda par: float(optim_par([par])[0]), bounds=bounds[0], method="bounded"
+        )
+        if inside.fun < lambdaX[1]:
+            lambdaX = (np.array([inside.x]), inside.fun)
+
     if hard_bound:
         if abs(lambdaX[0][0]) >= 0.99:
             raise Exception("Spatial parameter was outside the bounds of -0.99 and 0.99")
-- 
2.43.0


From 1e75158f74fcbc94ddee8511f27b0e4fc6433e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 06/68] fix: eigenvalue (ORD) ML used row-standardised weights
 whatever the weights given, and changed their transform

symmetrize() is similar to w only for a row-standardised binary matrix; for
other weights the eigenvalues of w itself are used. symmetrize() no longer
changes w.
---
 spreg/ml_error.py |  6 +++---
 spreg/ml_lag.py   |  6 +++---
 spreg/panel_re.py |  6 +++---
 spreg/w_utils.py  | 12 +++++++-----
 4 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/spreg/ml_error.py b/spreg/ml_error.py
index e12fe7f..eb7c549 100755
--- a/spreg/ml_error.py
+++ b/spreg/ml_error.py
@@ -14,7 +14,7 @@ from .utils import RegressionPropsY, RegressionPropsVM, set_warn, get_lags
 from . import diagnostics as DIAG
 from . import user_output as USER
 from . import regimes as REGI
-from .w_utils import symmetrize
+from .w_utils import symmetrize, is_symmetric
 import pandas as pd
 from .output import output, _nonspat_top
 
@@ -203,8 +203,8 @@ class BaseML_Error(RegressionPropsY, RegressionPropsVM, REGI.Regimes_Frame):
                 W = Wsp
             elif methodML == "ORD":
                 # check on symmetry structure
-                if w.asymmetry(intrinsic=False) == []:
-                    ww = symmetrize(w)
+                ww = symmetrize(w)
+                if is_symmetric(ww):
                     WW = np.array(ww.todense())
                     evals = la.eigvalsh(WW)
                     W = WW
diff --git a/spreg/ml_lag.py b/spreg/ml_lag.py
index 41cbba2..254226a 100755
--- a/spreg/ml_lag.py
+++ b/spreg/ml_lag.py
@@ -17,7 +17,7 @@ from . import diagnostics as DIAG
 from . import user_output as USER
 import pandas as pd
 from .output import output, _nonspat_top, _spat_diag_out, _spat_pseudo_r2, _summary_impacts
-from .w_utils import symmetrize
+from .w_utils import symmetrize, is_symmetric
 from libpysal import weights
 
 try:
@@ -235,8 +235,8 @@ class BaseML_Lag(RegressionPropsY, RegressionPropsVM):
                 )
             elif methodML == "ORD":
                 # check on symmetry structure
-                if w.asymmetry(intrinsic=False) == []:
-                    ww = symmetrize(w)
+                ww = symmetrize(w)
+                if is_symmetric(ww):
                     WW = np.array(ww.todense())
                     evals = la.eigvalsh(WW)
                     W = WW
diff --git a/spreg/panel_re.py b/spreg/panel_re.py
index a55e9b9..b416543 100755
--- a/spreg/panel_re.py
+++ b/spreg/panel_re.py
@@ -20,7 +20,7 @@ from scipy import sparse as sp
 from scipy.sparse.linalg import splu as SuperLU
 from .utils import RegressionPropsY, RegressionPropsVM, inverse_prod, set_warn
 from .sputils import spdot, spfill_diagonal, spinv
-from spreg.w_utils import symmetrize
+from spreg.w_utils import symmetrize, is_symmetric
 from . import diagnostics as DIAG
 from . import user_output as USER
 from . import summary_output as SUMMARY
@@ -486,8 +486,8 @@ class BasePanel_RE_Error(RegressionPropsY, RegressionPropsVM):
 
         # concentrated Log Likelihood
         I = np.identity(self.n)
-        if w.asymmetry(intrinsic=False) == []:
-            ww = symmetrize(w)
+        ww = symmetrize(w)
+        if is_symmetric(ww):
             WW = np.array(ww.todense())
             evals, evecs = la.eigh(WW)
             W = WW
diff --git a/spreg/w_utils.py b/spreg/w_utils.py
index 657a498..0d530ff 100644
--- a/spreg/w_utils.py
+++ b/spreg/w_utils.py
@@ -15,12 +15,14 @@ def symmetrize(w):
     a sparse symmetric matrix with same eigenvalues as w
 
     """
-    current = w.transform
-    w.transform = "B"
-    d = w.sparse.sum(axis=1)  # row sum
-    d.shape = (w.n,)
+    d = np.asarray((w.sparse != 0).sum(axis=1), dtype=float).flatten()
+    d[d == 0] = 1.0  # islands
     d = np.sqrt(d)
     Di12 = SPARSE.dia_matrix((1.0 / d, [0]), shape=(w.n, w.n))
     D12 = SPARSE.dia_matrix((d, [0]), shape=(w.n, w.n))
-    w.transform = "r"
     return D12 @ w.sparse @ Di12
+
+
+def is_symmetric(ww, tol=1e-10):
+    """Check that a sparse matrix, e.g. the result of symmetrize, is symmetric"""
+    return abs(ww - ww.T).max() < tol
-- 
2.43.0


From 82e5df6119cf9a46cb14540ea8a6b7e72470f443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 07/68] fix: regimes labelled by non-integer numbers were
 truncated to integers that match no observation

---
 spreg/regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index 10d17f9..040e978 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -695,7 +695,7 @@ def _get_regimes_set(regimes):
     regimes_set = list(set(regimes))
     if isinstance(regimes_set[0], float):
         regimes_set1 = list(set(map(int, regimes_set)))
-        if len(regimes_set1) == len(regimes_set):
+        if set(regimes_set1) == set(regimes_set):
             regimes_set = regimes_set1
     regimes_set.sort()
     return regimes_set
-- 
2.43.0


From 767cc487f5e8175a130bad2d13448244bbec57dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 08/68] fix: TSLS_Regimes by regime pairs labels with other
 coefficients in models of more than 16 rows (unstable sort)

---
 spreg/twosls_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 9f408bc..cbb4bcb 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -625,7 +625,7 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
         else:
             diag_out = None
         if summ:
-            self.output.sort_values(by='regime', inplace=True)
+            self.output.sort_values(by='regime', kind='stable', inplace=True)
             output(reg=self, vm=vm, robust=robust, other_end=diag_out, latex=latex)
 
     def _get_spat_diag_props(self, results, regi_ids, x, yend, q):
-- 
2.43.0


From 2eb433d88753f77fb2111e6c955a19634a04f51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 09/68] fix: optimal GMM in TSLS_Regimes reports utu and
 variances of the first step residuals

---
 spreg/twosls_regimes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index cbb4bcb..99eff98 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -717,6 +717,8 @@ def _optimal_weight(reg, sig2n_k, warn=True):
     else:
         vm = fac2 * reg.n
     RegressionProps_basic(reg, betas=betas, vm=vm, sig2=False)
+    for name in ("utu", "sig2n", "sig2n_k"):  # computed from first step residuals
+        reg._cache.pop(name, None)
     #reg.title += " (Optimal-Weighted GMM)"
     if warn:
         set_warn(
-- 
2.43.0


From d73fde5ae3e765df252f4c6ca2b4af89e0ce0280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 10/68] fix: GM_Lag_Regimes with slx_lags fails with more than
 3 x variables, yend, slx_vars or cols2regi list; wrong names and types

---
 spreg/output.py            |  2 ++
 spreg/sputils.py           | 18 +++++++++++-------
 spreg/twosls_sp_regimes.py | 22 +++++++++-------------
 3 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/spreg/output.py b/spreg/output.py
index 3fcdd0a..a4c68aa 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -290,6 +290,8 @@ def _spat_diag_out(reg, w, type, moran=False, ml=False):
                     x_indices = []
                     for m in reg.output['regime'].unique():
                         x_indices.extend(reg.output[(reg.output['regime'] == m) & (reg.output['var_type'] == 'x')].index)
+                    if len(x_indices) != len(wx_indices):  # some of the variables are common to all regimes
+                        return strSummary
                     vm_indices = x_indices + wx_indices.tolist() + reg.output[reg.output['var_type'] == 'rho'].index.tolist()
                     cft, cft_p = diagnostics_sp.comfac_test(reg.rho,
                                                         reg.betas[x_indices],
diff --git a/spreg/sputils.py b/spreg/sputils.py
index 993ff9a..468755b 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -362,13 +362,17 @@ def _sp_effects(reg, variables, spmult, slx_lags=0,slx_vars="All"):
     # Assumes all SLX effects are indirect effects. 
     if slx_lags > 0:
         if reg.output.regime.nunique() > 1:
-            btot_idx = pd.Series(btot.flatten(), index=variables_x_index)   
-            wchunk_size = len(variables.query("regime == @reg.output.regime.iloc[0]")) #Number of exogenous variables in each regime
-            for i in range(slx_lags):
-                chunk_indices = variables_x_index + (i+1) * wchunk_size
-                bmult = m1 * reg.betas[chunk_indices]
-                btot_idx[variables_x_index] += bmult.flatten()
-                btot = btot_idx.to_numpy().reshape(btot.shape)
+            variables_wx = reg.output.query("var_type == 'wx'")
+            wx_index = pd.Series(variables_wx.index, index=variables_wx.var_names)
+            for j, (name, regime) in enumerate(zip(variables.var_names, variables.regime)):
+                prefix = str(regime) + "_"
+                for i in range(slx_lags):
+                    # the lag of the variable may be absent (slx_vars) or common to all regimes
+                    name_wx = "W%s_%s" % (i + 1 if i > 0 else "", name[len(prefix):])
+                    for pre in [prefix, "_Global_"]:
+                        if pre + name_wx in wx_index:
+                            btot[j] = btot[j] + m1 * reg.betas[wx_index[pre + name_wx]]
+                            break
 
         else:
             variables_wx = reg.output.query("var_type == 'wx'")
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index b698967..c26d97d 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -517,16 +517,12 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             set_warn(self,"WX is computed using the complete W, i.e. not trimmed by regimes.")
             x_constant = np.hstack((x_constant, wx))
             name_slx = USER.set_name_spatial_lags(name_x, slx_lags, slx_vars=slx_vars)
-            iter_slx = iter(name_slx) 
-            name_q_temp = [next(iter_slx) if keep else name for name, keep in zip(name_x, slx_vars)]
-            name_q.extend(USER.set_name_q_sp(name_q_temp, w_lags, name_q, lag_q, force_all=True))
+            # the instruments lag the last lag of every exogenous variable
+            name_x0 = USER.set_name_spatial_lags(name_x, slx_lags)[-len(name_x):]
+            name_q.extend(USER.set_name_q_sp(name_x0, w_lags, name_q, lag_q, force_all=True))
             name_x += name_slx
-            if cols2regi == 'all':
-                cols2regi = REGI.check_cols2regi(
-                    constant_regi, cols2regi, x_constant, yend=yend2, add_cons=False)[0:-1]
-            else:
-                cols2regi = REGI.check_cols2regi(
-                    constant_regi, cols2regi, x_constant, yend=yend2, add_cons=False)
+            cols2regi = REGI.check_cols2regi(
+                constant_regi, cols2regi, x_constant, yend=yend, add_cons=False)
         else:
             name_q.extend(USER.set_name_q_sp(name_x, w_lags, name_q, lag_q, force_all=True))
             yend2, q2 = yend, q
@@ -641,10 +637,10 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             self.regime_lag_sep = regime_lag_sep
             self.title = "SPATIAL " + self.title
             if slx_lags > 0:
-                for m in self.regimes_set:
-                    r_output = self.output[(self.output['regime'] == str(m)) & (self.output['var_type'].isin(['x', 'o']))]
-                    wx_index = r_output.index[-((len(r_output)-1)//(slx_lags+1)) * slx_lags:]
-                    self.output.loc[wx_index, 'var_type'] = 'wx'
+                is_wx = self.output['var_names'].isin(
+                    [str(m) + '_' + i for m in list(self.regimes_set) + ['_Global'] for i in name_slx])
+                self.output.loc[is_wx & self.output['var_type'].isin(['x', 'o']), 'var_type'] = 'wx'
+                self.slx_vars = slx_vars
                 self.title = " SPATIAL 2SLS WITH SLX (SPATIAL DURBIN MODEL) - REGIMES"
             top_diag = _spat_pseudo_r2(self)
             try:
-- 
2.43.0


From 2e6e2ac69661ea5a4d33a1cc1102fb303e16729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 11/68] fix: weights restricted to a regime become binary
 whatever the weights given

---
 spreg/regimes.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index 040e978..200e743 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -497,6 +497,23 @@ def set_name_x_regimes(name_x, constant_regi, cols2regi, regimes_set, xtype, rli
         return name_x_regi, xtype_full
 
 
+def _w_subset(w, ids):
+    """
+    Restricts W to the observations in ids, keeping its (untransformed) weights
+    """
+    keep = set(ids)
+    neighbors, values = {}, {}
+    for i in ids:
+        pairs = [
+            (j, v)
+            for j, v in zip(w.neighbors[i], w.transformations["O"][i])
+            if j in keep
+        ]
+        neighbors[i] = [j for j, v in pairs]
+        values[i] = [v for j, v in pairs]
+    return weights.W(neighbors, values, list(ids), silence_warnings=True)
+
+
 def w_regime(w, regi_ids, regi_i, transform=True, min_n=None):
     """
     Returns the subset of W matrix according to a given regime ID
@@ -517,7 +534,7 @@ def w_regime(w, regi_ids, regi_i, transform=True, min_n=None):
     """
     w_ids = list(map(w.id_order.__getitem__, regi_ids))
     warn = None
-    w_regi_i = weights.set_operations.w_subset(w, w_ids, silence_warnings=True)
+    w_regi_i = _w_subset(w, w_ids)
     if min_n:
         if w_regi_i.n < min_n:
             raise Exception(
@@ -557,9 +574,7 @@ def w_regimes(w, regimes, regimes_set, transform=True, get_ids=None, min_n=None)
     w_regi_i = {}
     warn = None
     for r in regimes_set:
-        w_regi_i[r] = weights.set_operations.w_subset(
-            w, w_ids[r], silence_warnings=True
-        )
+        w_regi_i[r] = _w_subset(w, w_ids[r])
         if min_n:
             if w_regi_i[r].n < min_n:
                 raise Exception(
@@ -592,17 +607,12 @@ def w_regimes_union(w, w_regi_i, regimes_set):
     w_regi      : pysal W object
                   Spatial weights object containing the union of the subsets of W
     """
-    w_regi = weights.set_operations.w_union(
-        w_regi_i[regimes_set[0]], w_regi_i[regimes_set[1]], silence_warnings=True
-    )
-    if len(regimes_set) > 2:
-        for i in range(len(regimes_set))[2:]:
-            w_regi = weights.set_operations.w_union(
-                w_regi, w_regi_i[regimes_set[i]], silence_warnings=True
-            )
-    w_regi = weights.util.remap_ids(
-        w_regi, dict((i, i) for i in w_regi.id_order), w.id_order
-    )
+    neighbors, values = {}, {}
+    for r in regimes_set:
+        for i in w_regi_i[r].id_order:
+            neighbors[i] = list(w_regi_i[r].neighbors[i])
+            values[i] = list(w_regi_i[r].transformations["O"][i])
+    w_regi = weights.W(neighbors, values, w.id_order, silence_warnings=True)
     w_regi.transform = w.get_transform()
     return w_regi
 
-- 
2.43.0


From eb1b1b0deb7925e368befd35b90af4e75b0c62cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 12/68] fix: Chow tests missing from the summaries (numpy
 scalar conversion) and misnamed when some coefficients are common

---
 spreg/output.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/spreg/output.py b/spreg/output.py
index a4c68aa..ad3c8d8 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -233,7 +233,7 @@ def _summary_chow(reg):
     except:
         n_clust = len(set(reg.clusters))
     sum_text += "%-20s:%14.2f\n%-20s:%14d\n" % (
-            "Overall SSR", tot_SSR, "Number of clusters", n_clust)
+            "Overall SSR", np.asarray(tot_SSR).item(), "Number of clusters", n_clust)
     sum_text += "\n- CHOW TEST -"
     name_x_r = reg.name_x_r
     joint, regi = reg.chow.joint, reg.chow.regi
@@ -241,13 +241,15 @@ def _summary_chow(reg):
     if reg.cols2regi == "all" or set(reg.cols2regi) == {True}:
         names_chow = name_x_r[1:]
     else:
-        names_chow = [name_x_r[1:][i] for i in np.where(reg.cols2regi)[0]]
+        # the flag of the constant, if present, is the first of the list
+        cols2regi = list(reg.cols2regi)[-(len(name_x_r) - 1):]
+        names_chow = [name_x_r[1:][i] for i in np.where(cols2regi)[0]]
     if reg.constant_regi == "many":
         names_chow = ["CONSTANT"] + names_chow
 
-    if 'lambda' in reg.output.var_type.values:
-        if reg.output.var_type.value_counts()['lambda'] > 1:
-            names_chow += ["lambda"]
+    # lambda is tested only where its variance is estimated
+    if len(names_chow) < len(regi):
+        names_chow += ["lambda"]
 
     reg.output_chow = pd.DataFrame()
     reg.output_chow['var_names'] = names_chow
-- 
2.43.0


From 8502297e058e50b03dacaa5c02d72fb33de82f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 13/68] fix: label the error coefficient of a regime
 '<regime>_lambda' in heteroskedastic endogenous models by regime as
 everywhere else

---
 spreg/error_sp_het_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index d149d9e..59fcb51 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1923,7 +1923,7 @@ def _work_endog_error(
     model.name_y = "%s_%s" % (str(r), name_y)
     model.name_x = ["%s_%s" % (str(r), i) for i in name_x]
     model.name_yend = ["%s_%s" % (str(r), i) for i in name_yend]
-    model.name_z = model.name_x + model.name_yend + [str(r)+"lambda"]
+    model.name_z = model.name_x + model.name_yend + [str(r)+"_lambda"]
     model.name_q = ["%s_%s" % (str(r), i) for i in name_q]
     model.name_h = model.name_x + model.name_q
     model.name_w = name_w
-- 
2.43.0


From 9740f9dfe50cb116304e51dbd92aa3215e19886b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 14/68] fix: by-regime spatial models failed when a variable
 was constant within some regime (its coefficients were still counted)

---
 spreg/error_sp_het_regimes.py | 4 ++--
 spreg/error_sp_hom_regimes.py | 4 ++--
 spreg/error_sp_regimes.py     | 4 ++--
 spreg/ml_error_regimes.py     | 2 +-
 spreg/ml_lag_regimes.py       | 2 +-
 spreg/twosls_sp_regimes.py    | 2 +-
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index 59fcb51..d5b7a2e 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -521,7 +521,7 @@ class GM_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        self.kr = len(cols2regi) + x_constant.shape[1] - x.shape[1]
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
@@ -1232,7 +1232,7 @@ class GM_Endog_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd, self.kf = 0, 0
-        self.kr = len(cols2regi) + 1
+        self.kr = len(cols2regi) + x_constant.shape[1] - x.shape[1]
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
         self.betas = np.zeros((self.nr * self.kr, 1), float)
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 46262e5..8f7ff60 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -533,7 +533,7 @@ class GM_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        self.kr = len(cols2regi) + x_constant.shape[1] - x.shape[1]
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
@@ -1225,7 +1225,7 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd, self.kf = 0, 0
-        self.kr = len(cols2regi) + 1
+        self.kr = len(cols2regi) + x_constant.shape[1] - x.shape[1]
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
         self.betas = np.zeros((self.nr * self.kr, 1), float)
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index e5c1a2f..3097732 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -436,7 +436,7 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi)
+        self.kr = len(cols2regi) - 1 + x_constant.shape[1] - x.shape[1]
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
@@ -1045,7 +1045,7 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd, self.kf = 0, 0
-        self.kr = len(cols2regi)
+        self.kr = len(cols2regi) - 1 + x_constant.shape[1] - x.shape[1]
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
         self.betas = np.zeros((self.nr * (self.kr + 1), 1), float)
diff --git a/spreg/ml_error_regimes.py b/spreg/ml_error_regimes.py
index 12af71a..1d3ec90 100644
--- a/spreg/ml_error_regimes.py
+++ b/spreg/ml_error_regimes.py
@@ -457,7 +457,7 @@ class ML_Error_Regimes(BaseML_Error, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        self.kr = len(cols2regi) + x_constant.shape[1] - x.shape[1]
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
diff --git a/spreg/ml_lag_regimes.py b/spreg/ml_lag_regimes.py
index 060da2c..9d78f08 100644
--- a/spreg/ml_lag_regimes.py
+++ b/spreg/ml_lag_regimes.py
@@ -546,7 +546,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        self.kr = len(cols2regi) + x_constant.shape[1] - x.shape[1]
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.name_x_r = name_x
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index c26d97d..b38096e 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -762,7 +762,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        self.kr = len(cols2regi) + x_constant.shape[1] - x.shape[1]
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.name_x_r = name_x + name_yend
-- 
2.43.0


From 52d8bbd02e4fc9f9d1c7d8d292edda0af9dea66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 15/68] fix: homoskedastic GM error models with regimes filter
 with the latest lambda in every iteration (max_iter > 1 had no effect on the
 coefficients)

---
 spreg/error_sp_hom_regimes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 8f7ff60..60986e9 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -427,8 +427,8 @@ class GM_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.iteration, eps = 0, 1
             while self.iteration < max_iter and eps > epsilon:
                 # 2a. SWLS --> \hat{\delta}
-                xs = get_spFilter(w, lambda1, x_constant1)
-                ys = get_spFilter(w, lambda1, y)
+                xs = get_spFilter(w, lambda_old, x_constant1)
+                ys = get_spFilter(w, lambda_old, y)
                 xs = REGI.Regimes_Frame.__init__(
                     self, xs, regimes, constant_regi=None, cols2regi=cols2regi
                 )[0]
@@ -1069,12 +1069,12 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.iteration, eps = 0, 1
             while self.iteration < max_iter and eps > epsilon:
                 # 2a. GS2SLS --> \hat{\delta}
-                xs = get_spFilter(w, lambda1, x_constant1)
+                xs = get_spFilter(w, lambda_old, x_constant1)
                 xs = REGI.Regimes_Frame.__init__(
                     self, xs, regimes, constant_regi=None, cols2regi=cols2regi
                 )[0]
-                ys = get_spFilter(w, lambda1, y)
-                yend_s = get_spFilter(w, lambda1, yend)
+                ys = get_spFilter(w, lambda_old, y)
+                yend_s = get_spFilter(w, lambda_old, yend)
                 yend_s = REGI.Regimes_Frame.__init__(
                     self,
                     yend_s,
-- 
2.43.0


From 7840df72b1c2ea24ca39ee6867c2a862294ae340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:35 +0000
Subject: [PATCH 16/68] fix: lag models by regime failed with slx_vars (lagged
 variables counted as if all were lagged)

---
 spreg/ml_lag_regimes.py    | 11 ++++++-----
 spreg/sputils.py           |  2 +-
 spreg/twosls_sp_regimes.py |  9 ++++-----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/spreg/ml_lag_regimes.py b/spreg/ml_lag_regimes.py
index 9d78f08..804b494 100644
--- a/spreg/ml_lag_regimes.py
+++ b/spreg/ml_lag_regimes.py
@@ -352,6 +352,9 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
                                                 slx_lags=slx_lags,slx_vars=slx_vars)
             set_warn(self,"WX is computed using the complete W, i.e. not trimmed by regimes.")
             kwx = x_constant.shape[1] - size_x
+            name_slx = name_x[size_x:]
+        else:
+            name_slx = []
 
         self.name_x_r = USER.set_name_x(name_x, x_constant) + [USER.set_name_yend_sp(name_y)]
         self.method = method
@@ -401,6 +404,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
                 w,
                 regi_ids,
                 slx_lags=slx_lags,
+                name_slx=name_slx,
                 cores=cores,
                 cols2regi=cols2regi,
                 method=method,
@@ -478,6 +482,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
         w,
         regi_ids,
         slx_lags,
+        name_slx,
         cores,
         cols2regi,
         method,
@@ -605,11 +610,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
             results[r].other_top = _spat_pseudo_r2(results[r])
             results[r].other_top += _nonspat_top(results[r], ml=True)
             results[r].other_mid = ""
-            if slx_lags > 0:
-                kx = (len(results[r].name_x) - 1) // (slx_lags + 1)
-                var_types = ['o']+['x']*kx + ['wx'] * kx * slx_lags + ['rho']
-            else:
-                var_types = ['o']+['x'] * (len(results[r].name_x) - 2) + ['rho']
+            var_types = ['o'] + ['wx' if i in name_slx else 'x' for i in name_x[1:-1]] + ['rho']
             results[r].output = pd.DataFrame({'var_names': results[r].name_x,
                                               'var_type': var_types,
                                               'regime': r, 'equation': r})
diff --git a/spreg/sputils.py b/spreg/sputils.py
index 468755b..0164520 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -361,7 +361,7 @@ def _sp_effects(reg, variables, spmult, slx_lags=0,slx_vars="All"):
     bdir = m2 * reg.betas[variables_x_index]
     # Assumes all SLX effects are indirect effects. 
     if slx_lags > 0:
-        if reg.output.regime.nunique() > 1:
+        if hasattr(reg, 'name_regimes'):
             variables_wx = reg.output.query("var_type == 'wx'")
             wx_index = pd.Series(variables_wx.index, index=variables_wx.var_names)
             for j, (name, regime) in enumerate(zip(variables.var_names, variables.regime)):
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index b38096e..f1d477d 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -525,6 +525,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                 constant_regi, cols2regi, x_constant, yend=yend, add_cons=False)
         else:
             name_q.extend(USER.set_name_q_sp(name_x, w_lags, name_q, lag_q, force_all=True))
+            name_slx = []
             yend2, q2 = yend, q
             cols2regi = REGI.check_cols2regi(
                 constant_regi, cols2regi, x_constant, yend=yend2, add_cons=False)
@@ -573,6 +574,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                 q=q2,
                 w_lags=w_lags,
                 slx_lags=slx_lags,
+                name_slx=name_slx,
                 lag_q=lag_q,
                 cores=cores,
                 robust=robust,
@@ -671,6 +673,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
         q=None,
         w_lags=1,
         slx_lags=0,
+        name_slx=[],
         lag_q=True,
         robust=None,
         gwk=None,
@@ -848,11 +851,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                 results[r].other_top = ""
             results[r].other_top += _spat_pseudo_r2(results[r])
             results[r].other_mid = ""
-            if slx_lags > 0:
-                kx = (results[r].k - results[r].kstar - 1) // (slx_lags + 1)
-                var_types = ['o'] + ['x']*kx + ['wx'] * kx * slx_lags + ['yend'] * (len(results[r].name_yend) - 1) + ['rho']
-            else:
-                var_types = ['o'] + ['x'] * (len(results[r].name_x)-1) + ['yend'] * (len(results[r].name_yend)-1) + ['rho']
+            var_types = ['o'] + ['wx' if i in name_slx else 'x' for i in name_x[1:]] + ['yend'] * (len(results[r].name_yend)-1) + ['rho']
             results[r].output = pd.DataFrame({'var_names': results[r].name_x + results[r].name_yend,
                                                                 'var_type': var_types,
                                                                 'regime': r, 'equation': r})
-- 
2.43.0


From e7ea471cb057d54b0c866b0ce90a7dfe348d8a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 17/68] fix: LM lag test of SUR summed matrix instead of
 elementwise products of the inverse error covariance

---
 spreg/diagnostics_sur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/diagnostics_sur.py b/spreg/diagnostics_sur.py
index cc6a032..eff8b7a 100644
--- a/spreg/diagnostics_sur.py
+++ b/spreg/diagnostics_sur.py
@@ -225,7 +225,7 @@ def surLMlag(n_eq, WS, bigy, bigX, bigE, bigYP, sig, varb):
     WY = WS @ Y
     EWY = np.dot(bigE.T, WY)
     sigi = la.inv(sig)
-    SEWE = sigi @ EWY
+    SEWE = sigi * EWY
     score = SEWE.sum(axis=0)  # column sums
     score.resize(1, n_eq)  # score as a row vector
 
-- 
2.43.0


From fda1e65507d25fa85df10e421676fb6e9299b3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 18/68] fix: stacked (splm/plm) SUR data raised AttributeError
 (dict.has_key)

---
 spreg/sur_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spreg/sur_utils.py b/spreg/sur_utils.py
index 3041e41..0457234 100644
--- a/spreg/sur_utils.py
+++ b/spreg/sur_utils.py
@@ -121,11 +121,11 @@ def sur_dictxy(db, y_vars, x_vars, space_id=None, time_id=None):
         for i in range(bign):
             sval = ss[i][0]  # e.g. FIPSNO 27077
             tval = tt[i][0]  # e.g. TIME 1960
-            if tmpy.has_key(tval):
+            if tval in tmpy:
                 tmpy[tval][sval] = y[i]
-            if tmpX.has_key(tval):
+            if tval in tmpX:
                 tmpX[tval][sval] = longxc[i]
-            if not sdict.has_key(sval):
+            if sval not in sdict:
                 skeys.append(sval)
                 sdict[sval] = True
 
@@ -226,9 +226,9 @@ def sur_dictZ(db, z_vars, form="spreg", const=False, space_id=None, time_id=None
         for i in range(bign):
             sval = ss[i][0]  # e.g. 27077
             tval = tt[i][0]  # e.g. 1960
-            if tmpz.has_key(tval):
+            if tval in tmpz:
                 tmpz[tval][sval] = longz[i]
-            if not sdict.has_key(sval):
+            if sval not in sdict:
                 skeys.append(sval)
                 sdict[sval] = True
 
-- 
2.43.0


From c8d14e969c81cc3bfe7a450246be513209547ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 19/68] fix: 3SLS Chow tests by regime contrasted exogenous
 with endogenous coefficients; SUR models changed the dictionaries given

---
 spreg/sur.py       | 6 +++++-
 spreg/sur_error.py | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/spreg/sur.py b/spreg/sur.py
index fbe4352..d034f9f 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -430,6 +430,8 @@ class SUR(BaseSUR, REGI.Regimes_Frame):
         self.name_ds = USER.set_name_ds(name_ds)
         self.name_w = USER.set_name_w(name_w, w)
         self.n_eq = len(bigy.keys())
+        # the dictionaries given are not changed
+        bigX = dict(bigX)
 
         # initialize names - should be generated by sur_stack
         if name_bigy:
@@ -829,6 +831,8 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
 
         self.name_ds = USER.set_name_ds(name_ds)
         self.n_eq = len(bigy.keys())
+        # the dictionaries given are not changed
+        bigX, bigyend, bigq = dict(bigX), dict(bigyend), dict(bigq)
 
         # initialize names - should be generated by sur_stack
         if name_bigy:
@@ -941,7 +945,7 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
                 self.chow_regimes[r] = REGI._chow_run(
                     len(cols2regi_dic[r]),
                     0,
-                    0,
+                    len(name_bigyend[r]),
                     len(self.regimes_set),
                     self.b3SLS[r],
                     self.varb[varb_counter:counter_end, varb_counter:counter_end],
diff --git a/spreg/sur_error.py b/spreg/sur_error.py
index 9a1585c..fc9f34d 100644
--- a/spreg/sur_error.py
+++ b/spreg/sur_error.py
@@ -332,6 +332,8 @@ class SURerrorGM(BaseSURerrorGM, REGI.Regimes_Frame):
         self.name_w = USER.set_name_w(name_w, w)
         # initialize names - should be generated by sur_stack
         self.n_eq = len(bigy.keys())
+        # the dictionaries given are not changed
+        bigX = dict(bigX)
         if name_bigy:
             self.name_bigy = name_bigy
         else:  # need to construct y names
@@ -778,6 +780,8 @@ class SURerrorML(BaseSURerrorML, REGI.Regimes_Frame):
         self.name_ds = USER.set_name_ds(name_ds)
         self.name_w = USER.set_name_w(name_w, w)
         self.n_eq = len(bigy.keys())
+        # the dictionaries given are not changed
+        bigX = dict(bigX)
         # initialize names - should be generated by sur_stack
         if name_bigy:
             self.name_bigy = name_bigy
-- 
2.43.0


From 65a1024d8ab0597e4b75563596c0087d2c02e82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 20/68] fix: SURlagIV with regimes failed with endogenous
 variables or common lag, ignored and changed names given, and tested the
 wrong coefficients

---
 spreg/summary_output.py | 48 ++++++++++++++++-------------------------
 spreg/sur_lag.py        | 40 ++++++++++++++++++++--------------
 2 files changed, 42 insertions(+), 46 deletions(-)

diff --git a/spreg/summary_output.py b/spreg/summary_output.py
index 33145e8..146eb80 100755
--- a/spreg/summary_output.py
+++ b/spreg/summary_output.py
@@ -1584,7 +1584,7 @@ def summary_chow(reg, lambd=False, sur=False):
         )
     sum_text += "%25s        %2d    %12.3f        %9.4f\n" % (
         "Global test",
-        reg.kr * (reg.nr - 1),
+        regi.shape[0] * (reg.nr - 1),
         joint[0],
         joint[1],
     )
@@ -1900,37 +1900,25 @@ def summary_diag_sur(
                 if tsls:
                     kend = len(reg.name_bigyend[list(reg.name_bigyend.keys())[0]])
                     kx += -kend
-                names_chow = {}
-                reg_counter = 1
-                for k in range(len(reg.surchow)):
-                    names_chow[k] = ""
-                    if k < ((kx + kend) * reg_counter - kend) / regK:
-                        kxadj = int(k - (reg_counter - 1) * kend / regK)
-                        for i in reg.name_bigX:
-                            names_chow[k] += reg.name_bigX[i][kxadj] + ", "
+                # by regime, coefficients common to the regimes last
+                kxr, kendr = kx // regK, kend // regK
+                order = []
+                for k in range(regK):
+                    order.extend(range(k * kxr, (k + 1) * kxr))
+                    order.extend(range(kx + k * kendr, kx + (k + 1) * kendr))
+                order.extend(range(kx + regK * kendr, kx + kend))
+                for k in order:
+                    if k < kx:
+                        names_chow = ", ".join([reg.name_bigX[i][k] for i in reg.name_bigX])
                     else:
-                        for j in reg.name_bigyend:
-                            kxadj = int(k - kx * reg_counter / regK)
-                            names_chow[k] += reg.name_bigyend[j][kxadj] + ", "
-                    if k + 1 == (kx + kend) * reg_counter / regK:
-                        reg_counter += 1
-                    if len(names_chow[k]) > 42:
-                        names_chow[k] = names_chow[k][0:38] + "..."
-                    else:
-                        names_chow[k] = names_chow[k][:-2]
-                reg_counter = 1
-                for k in range(len(reg.surchow)):
-                    if k < ((kx + kend) * reg_counter - kend) / regK:
-                        kadj = int(k - (reg_counter - 1) * kend / regK)
-                    else:
-                        kadj = int(kx + k - kx * reg_counter / regK)
-                    if k + 1 == (kx + kend) * reg_counter / regK:
-                        reg_counter += 1
+                        names_chow = ", ".join([reg.name_bigyend[j][k - kx] for j in reg.name_bigyend])
+                    if len(names_chow) > 40:
+                        names_chow = names_chow[0:38] + "..."
                     strChow += "%41s        %2d   %10.3f           %6.4f\n" % (
-                        names_chow[k],
-                        reg.surchow[kadj][1],
-                        reg.surchow[kadj][0],
-                        reg.surchow[kadj][2],
+                        names_chow,
+                        reg.surchow[k][1],
+                        reg.surchow[k][0],
+                        reg.surchow[k][2],
                     )
             if spat_diag and chow_lamb:
                 strChow += "%41s        %2d   %10.3f           %6.4f\n" % (
diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 6eab0ac..b225d6c 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -13,6 +13,7 @@ from . import regimes as REGI
 from .sur import BaseThreeSLS
 from .diagnostics_sur import sur_setp, sur_chow, sur_joinrho
 from .sur_utils import check_k, sur_dictxy, sur_dictZ
+from .sputils import sphstack
 
 __all__ = ["SURlagIV"]
 
@@ -246,6 +247,10 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
 
         self.name_ds = USER.set_name_ds(name_ds)
         self.n_eq = len(bigy.keys())
+        # the dictionaries given are not changed
+        bigX = dict(bigX)
+        bigyend = dict(bigyend) if bigyend is not None else None
+        bigq = dict(bigq) if bigq is not None else None
         
         if w is None:
             raise Exception("Spatial weights required for SUR-Lag")
@@ -274,19 +279,21 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                 ct = "Constant_" + str(r + 1)  # NOTE: constant always included in X
                 name_x.insert(0, ct)
                 name_bigX[r] = name_x
-        if name_bigyend is None:
+        set_names = not name_bigyend
+        if set_names:
             name_bigyend = {}
         if bigyend is not None:  # check on other endogenous
             self.bigyend = bigyend
-            for r in range(self.n_eq):
+            for r in range(self.n_eq if set_names else 0):
                 ky = bigyend[r].shape[1]
                 name_ye = ["end_" + str(i + 1) + "_" + str(r + 1) for i in range(ky)]
                 name_bigyend[r] = name_ye
-        if name_bigq is None:
+        set_names = not name_bigq
+        if set_names:
             name_bigq = {}
         if bigq is not None:  # check on instruments
             self.bigq = bigq
-            for r in range(self.n_eq):
+            for r in range(self.n_eq if set_names else 0):
                 ki = bigq[r].shape[1]
                 name_i = ["inst_" + str(i + 1) + "_" + str(r + 1) for i in range(ki)]
                 name_bigq[r] = name_i
@@ -300,7 +307,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
             self.regimes = regimes
             cols2regi_dic = {}
             self.name_bigX, self.name_bigq, self.name_bigyend = {}, {}, {}
-            self.name_x_r = name_bigX
+            self.name_x_r = dict(name_bigX)
 
             # spatial lag dependent variable varying across regimes
             if regime_lag_sep == True:
@@ -310,7 +317,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
 
             for r in range(self.n_eq):
                 if bigyend is not None:
-                    self.name_x_r[r] += name_bigyend[r]
+                    self.name_x_r[r] = name_bigX[r] + name_bigyend[r]
                     cols2regi_dic[r] = REGI.check_cols2regi(
                         self.constant_regi,
                         self.cols2regi,
@@ -360,7 +367,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
         # spatial lag dependent variable fixed across regimes or no regimes
         if regimes is None or regime_lag_sep == False:
             bigyend, self.name_bigyend = _get_spatial_lag(
-                self, bigyend, WS, name_bigyend
+                self, bigyend, WS, self.name_bigyend
             )
         # spatially lagged exogenous variables
         bigwx = {}
@@ -374,13 +381,13 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                     bigwq = {}
                     for r in range(self.n_eq):
                         bigwq = WS @ bigq[r]
-                        bigq[r] = np.hstack((bigq[r], bigwx[r], bigwq))
+                        bigq[r] = sphstack(sphstack(bigq[r], bigwx[r]), bigwq)
                         wqnames = ["W_" + i for i in self.name_bigq[r]]
                         wxnames[r] = wxnames[r] + wqnames
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r]
                 else:  # no lags for other instruments
                     for r in range(self.n_eq):
-                        bigq[r] = np.hstack((bigq[r], bigwx[r]))
+                        bigq[r] = sphstack(bigq[r], bigwx[r])
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r]
             else:  # no other instruments only wx
                 bigq = {}
@@ -395,7 +402,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                 wxnames[r] = nameswork
                 for i in range(1, w_lags):
                     bigwxwork = WS @ bigwxwork
-                    bigwx[r] = np.hstack((bigwx[r], bigwxwork))
+                    bigwx[r] = sphstack(bigwx[r], bigwxwork)
                     nameswork = ["W" + i for i in nameswork]
                     wxnames[r] = wxnames[r] + nameswork
             if bigq:  # other instruments
@@ -409,15 +416,15 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                         wq[r] = bigwq
                         for i in range(1, w_lags):
                             bigwq = WS @ bigwq
-                            wq[r] = np.hstack((wq[r], bigwq))
+                            wq[r] = sphstack(wq[r], bigwq)
                             wqnameswork = ["W" + i for i in wqnameswork]
                             wqnames[r] = wqnames[r] + wqnameswork
-                        bigq[r] = np.hstack((bigq[r], bigwx[r], wq[r]))
+                        bigq[r] = sphstack(sphstack(bigq[r], bigwx[r]), wq[r])
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r] + wqnames[r]
 
                 else:  # no lags for other instruments
                     for r in range(self.n_eq):
-                        bigq[r] = np.hstack((bigq[r], bigwx[r]))
+                        bigq[r] = sphstack(bigq[r], bigwx[r])
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r]
             else:  # no other instruments only wx
                 bigq = {}
@@ -461,7 +468,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                 self.chow_regimes[r] = REGI._chow_run(
                     len(cols2regi_dic[r]),
                     fixed_lag,
-                    0,
+                    len(cols2regi_dic[r]) - len(name_bigX[r]),
                     len(self.regimes_set),
                     self.b3SLS[r],
                     self.varb[varb_counter:counter_end, varb_counter:counter_end],
@@ -480,15 +487,16 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
 
 def _get_spatial_lag(reg, bigyend, WS, name_bigyend):
     bigylag = {}
+    name_bigyend = dict(name_bigyend)
     for r in range(reg.n_eq):
         bigylag[r] = WS @ reg.bigy[r]
     if bigyend is not None:
         for r in range(reg.n_eq):
-            bigyend[r] = np.hstack((bigyend[r], bigylag[r]))
+            bigyend[r] = sphstack(bigyend[r], bigylag[r])
         # adjust variable names
         for r in range(reg.n_eq):
             wyname = "W_" + reg.name_bigy[r]
-            name_bigyend[r].append(wyname)
+            name_bigyend[r] = name_bigyend[r] + [wyname]
     else:  # no other endogenous variables
         bigyend = {}
         for r in range(reg.n_eq):
-- 
2.43.0


From 204173652bfb97a665c1760c59a9c47e6a36e3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 21/68] fix: summary of 3SLS/SURlagIV failed when equations
 split their coefficients differently into exogenous and endogenous

---
 spreg/summary_output.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/spreg/summary_output.py b/spreg/summary_output.py
index 146eb80..29af1dc 100755
--- a/spreg/summary_output.py
+++ b/spreg/summary_output.py
@@ -1907,11 +1907,14 @@ def summary_diag_sur(
                     order.extend(range(k * kxr, (k + 1) * kxr))
                     order.extend(range(kx + k * kendr, kx + (k + 1) * kendr))
                 order.extend(range(kx + regK * kendr, kx + kend))
+                names_eq = {i: list(reg.name_bigX[i]) for i in reg.name_bigX}
+                if tsls:
+                    names_eq = {i: names_eq[i] + list(reg.name_bigyend[i]) for i in names_eq}
+                    if len(set(len(names) for names in reg.name_bigX.values())) > 1:
+                        # exogenous and endogenous columns differ among equations
+                        order = range(kx + kend)
                 for k in order:
-                    if k < kx:
-                        names_chow = ", ".join([reg.name_bigX[i][k] for i in reg.name_bigX])
-                    else:
-                        names_chow = ", ".join([reg.name_bigyend[j][k - kx] for j in reg.name_bigyend])
+                    names_chow = ", ".join([names_eq[i][k] for i in names_eq])
                     if len(names_chow) > 40:
                         names_chow = names_chow[0:38] + "..."
                     strChow += "%41s        %2d   %10.3f           %6.4f\n" % (
-- 
2.43.0


From 8195cac7040b103ed7167ac6ef3945e7b1ece379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:54 +0000
Subject: [PATCH 22/68] fix: single equation likelihoods of SURerrorML with
 regimes were infinite (np.dot of sparse matrices)

---
 spreg/ml_error.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spreg/ml_error.py b/spreg/ml_error.py
index eb7c549..fe55745 100755
--- a/spreg/ml_error.py
+++ b/spreg/ml_error.py
@@ -577,8 +577,8 @@ def err_c_loglik_sp(lam, n, y, ylag, x, xlag, I, Wsp):
 
     # 2. OLS residuals (using solve instead of inv)
     # Equivalent to: B = (X'X)^-1 X'y
-    xsxs = np.dot(xs.T, xs)
-    xsys = np.dot(xs.T, ys)
+    xsxs = spdot(xs.T, xs)
+    xsys = spdot(xs.T, ys)
     
     try:
         # Solves Ax = B for x. stable and faster than inv
@@ -587,7 +587,7 @@ def err_c_loglik_sp(lam, n, y, ylag, x, xlag, I, Wsp):
         return np.inf # Return infinity if singular to steer optimizer away
 
     # Calculate residuals
-    xb = np.dot(xs, betas)
+    xb = spdot(xs, betas)
     e = ys - xb
     
     # Calculate sigma^2
-- 
2.43.0


From 5909116ed8dbe4f5a65c0bf300e9ce33ce1cb00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:54 +0000
Subject: [PATCH 23/68] fix: SURerrorML failed when the optimiser tried lambda
 = 1 or -1 (singular filter)

---
 spreg/sur_error.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/sur_error.py b/spreg/sur_error.py
index fc9f34d..0a0ca5a 100644
--- a/spreg/sur_error.py
+++ b/spreg/sur_error.py
@@ -541,7 +541,8 @@ class BaseSURerrorML:
         self.llik = reg0.llik  # as is, includes constant
 
         # iteration
-        lambdabounds = [(-1.0, +1.0) for i in range(self.n_eq)]
+        # I - lambda W can be exactly singular at -1 and 1
+        lambdabounds = [(-1.0 + 1e-6, 1.0 - 1e-6) for i in range(self.n_eq)]
         while abs(fun0 - fun1) > epsilon:
             fun0 = fun1
             sply = filter_dict(lam, self.bigy, self.bigylag)
-- 
2.43.0


From 211e36f99ebb8781c1ed240e62e811feff1110cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:07 +0000
Subject: [PATCH 24/68] fix: panel data in wide format lost single periods of a
 variable that does not vary within them

---
 spreg/panel_fe.py    | 8 ++++----
 spreg/panel_utils.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spreg/panel_fe.py b/spreg/panel_fe.py
index 703d351..f4e4fb1 100755
--- a/spreg/panel_fe.py
+++ b/spreg/panel_fe.py
@@ -333,9 +333,9 @@ class Panel_FE_Lag(BasePanel_FE_Lag):
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.ML_LagFE in panel.py")
         n_rows = USER.check_arrays(y, x)
-        x_constant, name_x, warn = USER.check_constant(x, name_x, just_rem=True)
+        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x, w, name_y, name_x)
         set_warn(self, warn)
-        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x_constant, w, name_y, name_x)
+        bigx, name_x, warn = USER.check_constant(bigx, name_x, just_rem=True)
         set_warn(self, warn)
         w = USER.check_weights(w, bigy, w_required=True, time=True)
 
@@ -623,9 +623,9 @@ class Panel_FE_Error(BasePanel_FE_Error):
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.ML_ErrorFE in panel.py")
         n_rows = USER.check_arrays(y, x)
-        x_constant, name_x, warn = USER.check_constant(x, name_x, True)
+        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x, w, name_y, name_x)
         set_warn(self, warn)
-        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x_constant, w, name_y, name_x)
+        bigx, name_x, warn = USER.check_constant(bigx, name_x, just_rem=True)
         set_warn(self, warn)
         w = USER.check_weights(w, bigy, w_required=True, time=True)
 
diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index e4bbb47..d91d12d 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -21,9 +21,9 @@ def prepare_panel(y, x, w, name_y, name_x, slx_lags, slx_vars, title, add_consta
     """
     warn = []
     n_rows = USER.check_arrays(y, x)
-    x_constant, name_x, warn_add = USER.check_constant(x, name_x, just_rem=True)
+    bigy, bigx, name_y, name_x, T, warn_add = check_panel(y, x, w, name_y, name_x)
     warn.append(warn_add)
-    bigy, bigx, name_y, name_x, T, warn_add = check_panel(y, x_constant, w, name_y, name_x)
+    bigx, name_x, warn_add = USER.check_constant(bigx, name_x, just_rem=True)
     warn.append(warn_add)
     if add_constant:
         bigx, name_x, warn_add = USER.check_constant(bigx, name_x)
-- 
2.43.0


From 2993fa2098d432896fe79b34932ffb73927074ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:07 +0000
Subject: [PATCH 25/68] fix: PanelFE truncated the demeaned regressors to
 integers when x was an integer array

---
 spreg/panel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index 57902d3..8210cc7 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -357,7 +357,7 @@ class PanelFE(RegressionPropsY, RegressionPropsVM):
         
         dem_y = bigy - np.tile(y_mean, T).reshape(-1, 1)
         
-        dem_x = np.zeros_like(bigx)
+        dem_x = np.zeros(bigx.shape)
         for i in range(self.k):
             col_mean = x_mean[:, i] 
             col_vals = bigx[:, i] 
-- 
2.43.0


From fa3d2b97a90367b4131ac59a40e0b5519b67f1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:07 +0000
Subject: [PATCH 26/68] fix: GM_ErrorPooled and ML_ErrorPooled failed without
 nonspat_diag

---
 spreg/panel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/panel.py b/spreg/panel.py
index 8210cc7..840cd8b 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -854,6 +854,7 @@ class GM_ErrorPooled(BaseGM_ErrorPooled):
         self.output['regime'], self.output['equation'] = (0, 0)
         self.other_top = _summary_iteration(self)
 
+        other_end = False
         if nonspat_diag:
             self.bsk = BSK_tests(self, w, which=['LMC_RE'])
             other_end = "\nDIAGNOSTIC TESTS\n"
@@ -1067,6 +1068,7 @@ class ML_ErrorPooled(BaseML_ErrorPooled):
         self.schwarz = DIAG.schwarz(reg=self)
         self.other_top = _nonspat_top(self, ml=True)     
 
+        other_end = False
         if nonspat_diag:
             self.bsk = BSK_tests(self, w, which=['LMC_RE'])
             other_end = "\nDIAGNOSTIC TESTS\n"
-- 
2.43.0


From f344bcf8a89f3667f733912de6e7986d7bc3eff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:07 +0000
Subject: [PATCH 27/68] fix: BSK_tests failed on models other than PooledOLS
 when a marginal test was asked for

---
 spreg/diagnostics_panel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/diagnostics_panel.py b/spreg/diagnostics_panel.py
index 8222809..83811f1 100755
--- a/spreg/diagnostics_panel.py
+++ b/spreg/diagnostics_panel.py
@@ -273,7 +273,7 @@ def BSK_tests(reg, w, which="all", GM_BSK=False):
 
     if any(test in which for test in ["LMJ", "LM1", "LM2"]):
         if reg.__class__.__name__ != 'PooledOLS':
-            pooled_mod = PooledOLS(reg.y, reg.x)
+            pooled_mod = PooledOLS(reg.y, reg.x, w, spat_diag=False)
         else:
             pooled_mod = reg
 
-- 
2.43.0


From 84a7fa6bd061b3287c5f0374796062a2904c86d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:07 +0000
Subject: [PATCH 28/68] fix: ML_ErrorRE lacked the variance of betas that
 panel_Hausman needs

---
 spreg/panel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spreg/panel.py b/spreg/panel.py
index 840cd8b..ca9b9be 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -2074,6 +2074,7 @@ class BaseML_ErrorRE(RegressionPropsY, RegressionPropsVM):
         vv1 = np.hstack((np.zeros((2, self.k)), vm1[:2, :2]))
 
         self.vm = np.vstack((vv, vv1))
+        self.varb = varb
         self.n = NT
 
     def err_c_loglik_ord(self, 
-- 
2.43.0


From 14343efe2605ef3cda968fdf1ef26018dabf6019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:48 +0000
Subject: [PATCH 29/68] fix: BSK_tests failed when LM2 was asked for without
 LM1 or LMJ

---
 spreg/diagnostics_panel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spreg/diagnostics_panel.py b/spreg/diagnostics_panel.py
index 83811f1..2731a87 100755
--- a/spreg/diagnostics_panel.py
+++ b/spreg/diagnostics_panel.py
@@ -277,12 +277,12 @@ def BSK_tests(reg, w, which="all", GM_BSK=False):
         else:
             pooled_mod = reg
 
+        u = pooled_mod.u 
+        u_mat = u.reshape((T, N))
+        u_sq_sum = np.sum(u**2)
         if any(test in which for test in ["LMJ", "LM1"]):
             # G term (Random Effects) - Eq 2.11
-            u = pooled_mod.u 
-            u_mat = u.reshape((T, N))
             u_sum_sq = np.sum(np.sum(u_mat, axis=0)**2) 
-            u_sq_sum = np.sum(u**2)
             G = (u_sum_sq / u_sq_sum) - 1
 
             # LM1: Marginal RE (Eq 2.12)
-- 
2.43.0


From cc54c08e13f72db46447ecb2e68152d42166d2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 30/68] fix: asymmetric covariance (and negative variance of
 phi) in random effects spatial lag panels

---
 spreg/panel.py    | 2 +-
 spreg/panel_re.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index ca9b9be..a4223e2 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -2882,7 +2882,7 @@ class BaseML_LagRE(RegressionPropsY, RegressionPropsVM):
             (
                 np.zeros((self.k, 1)),
                 self.t * tr1 / self.sig2,
-                -N / self.sig2 ** 2,
+                -N / self.sig2,
                 NT / (2.0 * self.sig2 ** 2),
             )
         )
diff --git a/spreg/panel_re.py b/spreg/panel_re.py
index b416543..eda18d7 100755
--- a/spreg/panel_re.py
+++ b/spreg/panel_re.py
@@ -231,7 +231,7 @@ class BasePanel_RE_Lag(RegressionPropsY, RegressionPropsVM):
             (
                 np.zeros((self.k, 1)),
                 self.t * tr1 / self.sig2,
-                -self.n / self.sig2 ** 2,
+                -self.n / self.sig2,
                 self.n * self.t / (2.0 * self.sig2 ** 2),
             )
         )
-- 
2.43.0


From 55181cd487baf169e34d1d04f01153fc0d785499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 31/68] fix: impacts of ML_LagFE and ML_LagRE failed when
 slx_vars selects some of the variables

---
 spreg/panel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/panel.py b/spreg/panel.py
index a4223e2..49c88c5 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -2685,6 +2685,7 @@ class ML_LagFE(BaseML_LagFE):
         self.mean_mu_i = self.mu_i.mean()
         self.other_top += "%-20s:%12.4f\n" % (
             "Fixed-effects mean", self.mean_mu_i)        
+        self.slx_vars = slx_vars
         if spat_impacts:
             self.sp_multipliers, impacts_str = _summary_impacts(self, w, spat_impacts, slx_lags,slx_vars)
             other_end += impacts_str
@@ -3081,6 +3082,7 @@ class ML_LagRE(BaseML_LagRE):
         self.output['regime'], self.output['equation'] = (0, 0)
         self.other_top, self.other_mid, other_end = ("", "", "")
         self.other_top += _nonspat_top(self, ml=True)
+        self.slx_vars = slx_vars
         if spat_impacts:
             self.sp_multipliers, impacts_str = _summary_impacts(self, w, spat_impacts, slx_lags,slx_vars)
             other_end += impacts_str
-- 
2.43.0


From aa9bf0b78e20b655af9215b63ff1d25afad6583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 32/68] fix: ML_ErrorRE and Panel_RE_Error used eigenvectors of
 a symmetric W that need not be orthogonal

---
 spreg/panel.py    | 4 +++-
 spreg/panel_re.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index 49c88c5..32eb62d 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -12,6 +12,7 @@ from .utils import RegressionPropsY, RegressionPropsVM, set_warn, optim_moments,
 from .sputils import spdot, spfill_diagonal, spinv
 from .ols import BaseOLS
 from .panel_utils import prepare_panel, demean_panel
+from .w_utils import is_symmetric
 from .output import output, _nonspat_mid, _nonspat_top, _summary_iteration, _summary_impacts
 from . import regimes as REGI
 from . import user_output as USER
@@ -1941,7 +1942,8 @@ class BaseML_ErrorRE(RegressionPropsY, RegressionPropsVM):
             xlag[:, i] = (x_reshaped[:, :, i] @ Wsp.T).reshape(-1)
 
         I = np.identity(N)
-        evals, evecs = la.eig(W)
+        # orthonormal eigenvectors are needed (eigenvalues may be repeated)
+        evals, evecs = la.eigh(W) if is_symmetric(Wsp) else la.eig(W)
         
         y_mean_small = y_reshaped.mean(axis=0).reshape(N, 1)        
         x_mean_small = x_reshaped.mean(axis=0) # N x k
diff --git a/spreg/panel_re.py b/spreg/panel_re.py
index eda18d7..a7ad974 100755
--- a/spreg/panel_re.py
+++ b/spreg/panel_re.py
@@ -486,7 +486,7 @@ class BasePanel_RE_Error(RegressionPropsY, RegressionPropsVM):
 
         # concentrated Log Likelihood
         I = np.identity(self.n)
-        ww = symmetrize(w)
+        ww = Wsp if is_symmetric(Wsp) else symmetrize(w)
         if is_symmetric(ww):
             WW = np.array(ww.todense())
             evals, evecs = la.eigh(WW)
-- 
2.43.0


From c4cfe678d0f7c49881f128c0fa365759973c8906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:49 +0000
Subject: [PATCH 33/68] fix: probit likelihood ratio test counted the constant
 as a restriction

---
 spreg/diagnostics_probit.py | 686 ++++++++++++++++++------------------
 1 file changed, 343 insertions(+), 343 deletions(-)

diff --git a/spreg/diagnostics_probit.py b/spreg/diagnostics_probit.py
index 40c3edd..5e1f83f 100644
--- a/spreg/diagnostics_probit.py
+++ b/spreg/diagnostics_probit.py
@@ -1,343 +1,343 @@
-"""
-Diagnostics in probit regression. 
-        
-"""
-__author__ = (
-    "Luc Anselin lanselin@gmail.com, Pedro Amaral pedrovma@gmail.com "
-)
-
-from math import sqrt, pi
-
-from libpysal.common import MISSINGVALUE
-import numpy as np
-import numpy.linalg as la
-import scipy.sparse as SP
-from scipy import stats
-from scipy.stats import norm
-
-__all__ = [
-    "pred_table",
-    "probit_fit",
-    "probit_lrtest",
-    "mcfad_rho",
-    "probit_ape",
-    "sp_tests",
-    "moran_KP",
-]
-
-
-def pred_table(reg):
-    """
-    Calculates a table comparing predicted to actual outcomes for a 
-    discrete choice model
-
-    Parameters
-    ----------
-    reg             : regression object
-                      output instance from a probit regression model
-
-    Returns
-    ----------
-    predtab_vals    : dictionary
-                      includes margins and cells of actual and predicted
-                      values for discrete choice model
-                      actpos   : observed positives (=1)
-                      actneg   : observed negatives (=0)
-                      predpos  : predicted positives 
-                      predneg  : predicted negatives
-                      truepos  : predicted 1 when actual = 1
-                      falsepos : predicted 1 when actual = 0
-                      trueneg  : predicted 0 when actual = 0
-                      falseneg : predicted 0 when actual = 1
-
-    """
-    predtab_vals = {}
-    pos = reg.y.sum()
-    predtab_vals["actpos"] = int(pos)
-    neg = reg.n - pos
-    predtab_vals["actneg"] = int(neg)
-    act1 = (reg.y == 1) * 1
-    act0 = (reg.y == 0) * 1
-    ppos = reg.predybin.sum()
-    predtab_vals["predpos"] = ppos
-    pneg = reg.n - ppos
-    predtab_vals["predneg"] = pneg
-    pred1 = (reg.predybin == 1) * 1
-    pred0 = (reg.predybin == 0) * 1
-    truep = (pred1 * act1) * 1
-    predtab_vals["truepos"] = truep.sum()
-    truen = (pred0 * act0) * 1
-    predtab_vals["trueneg"] = truen.sum()
-    fpos = (pred1 * act0) * 1
-    predtab_vals["falsepos"] = fpos.sum()
-    fneg = (pred0 * act1) * 1
-    predtab_vals["falseneg"] = fneg.sum()
-
-    return predtab_vals
-
-
-def probit_fit(reg):
-    """
-    Various measures of fit for discrete choice models, derived from the
-    prediction table (pred_table)
-    
-    Parameters
-    ----------
-    reg             : regression object
-                      output instance from a probit regression model
-                      must contain predtable attribute
-
-    Returns
-    ----------
-    prob_fit    : a dictionary containing various measures of fit
-                  TPR    : true positive rate (sensitivity, recall, hit rate)
-                  TNR    : true negative rate (specificity, selectivity)
-                  PREDPC : accuracy, percent correctly predicted
-                  BA     : balanced accuracy
-    
-    """
-
-    prob_fit = {}
-    prob_fit["TPR"] = 100.0 * reg.predtable["truepos"] / reg.predtable["actpos"]
-    prob_fit["TNR"] = 100.0 * reg.predtable["trueneg"] / reg.predtable["actneg"]
-    prob_fit["BA"] = (prob_fit["TPR"] + prob_fit["TNR"])/2.0
-    prob_fit["PREDPC"] = 100.0 * (reg.predtable["truepos"] + reg.predtable["trueneg"]) / reg.n
-
-    return prob_fit
-
-def probit_lrtest(regprob):
-    """
-    Likelihood ratio test statistic for probit model
-
-    Parameters
-    ----------
-    regprob      : probit regression object
-
-    Returns
-    -------
-
-    likratio     : dictionary
-                   contains the statistic for the null model (L0), the LR test(likr), 
-                   the degrees of freedom (df) and the p-value (pvalue)
-    L0           : float
-                   log likelihood of null model
-    likr         : float
-                   likelihood ratio statistic
-    df           : integer
-                   degrees of freedom
-    p-value      : float
-                   p-value
-    """
-
-    likratio = {}
-    P = np.mean(regprob.y)
-    L0 = regprob.n * (P * np.log(P) + (1 - P) * np.log(1 - P))
-    likratio["L0"] = L0
-    LR = -2.0 * (L0 - regprob.logl)
-    likratio["likr"] = LR
-    likratio["df"] = regprob.k
-    pval = stats.chisqprob(LR, regprob.k)
-    likratio["p-value"] = pval
-
-    return likratio
-
-def mcfad_rho(regprob):
-    """
-    McFadden's rho measure of fit
-
-    Parameters
-    ---------
-    regprob    : probit regression object
-
-    Returns
-    -------
-    rho        : McFadden's rho (1 - L/L0)
-    
-    """
-
-    rho = 1.0 - (regprob.logl / regprob.L0)
-    return rho
-
-def probit_ape(regprob):
-    """
-    Average partial effects
-
-    Parameters
-    ----------
-    regprob   : probit regression object
-
-    Returns
-    -------
-    tuple with:
-        scale          : the scale of the marginal effects, determined by regprob.scalem
-                         Default: 'phimean' (Mean of individual marginal effects)
-                         Alternative: 'xmean' (Marginal effects at variables mean)
-        slopes         : marginal effects or average partial effects (not for constant)
-        slopes_vm      : estimates of variance of marginal effects (not for constant)
-        slopes_std_err : estimates of standard errors of marginal effects
-        slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
-    
-    """
-        
-
-    if regprob.scalem == "xmean":
-        xmb = regprob.xmean.T @ regprob.betas
-        scale = stats.norm.pdf(xmb)
-            
-    elif regprob.scalem == "phimean":
-        scale = np.mean(regprob.phiy,axis=0)
-
-    # average partial effects (no constant)
-    slopes = (regprob.betas[1:,0] * scale).reshape(-1,1)
-
-    # variance of partial effects
-    xmb = regprob.xmean.T @ regprob.betas
-    bxt = regprob.betas @ regprob.xmean.T
-    dfdb = np.eye(regprob.k) - xmb * bxt
-    slopes_vm = (scale ** 2) * ((dfdb @ regprob.vm) @ dfdb.T)
-
-    # standard errors
-    slopes_std_err = np.sqrt(slopes_vm[1:,1:].diagonal()).reshape(-1,1)
-
-    # z-stats and p-values
-    sl_zStat = slopes / slopes_std_err
-    slopes_z_stat = [(sl_zStat[i,0],stats.norm.sf(abs(sl_zStat[i,0])) * 2) for i in range(len(slopes))]
-
-
-    return (scale, slopes,slopes_vm[1:,1:],slopes_std_err,slopes_z_stat)
-
-
-def sp_tests(regprob=None, obj_list=None):
-    """
-    Calculates tests for spatial dependence in Probit models
-
-    Parameters
-    ----------
-    regprob     : regression object from spreg
-                  output instance from a probit model
-    obj_list    : list
-                  list of regression elements from both libpysal and statsmodels' ProbitResults
-                  The list should be such as:
-                  [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]               
-    
-    Returns
-    -------
-    tuple with LM_Err, moran, ps as 2x1 arrays with statistic and p-value
-               LM_Err: Pinkse
-               moran : Kelejian-Prucha generalized Moran
-               ps    : Pinkse-Slade
-
-    Examples
-    --------
-    The results of this function will be automatically added to the output of the probit model if using spreg.
-    If using the Probit estimator from statsmodels, the user can call the function with the obj_list argument.
-    The argument obj_list should be a list with the following elements, in this order:
-    [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]
-    The function will then return and print the results of the spatial diagnostics.
-
-    >>> import libpysal
-    >>> import statsmodels.api as sm
-    >>> import geopandas as gpd
-    >>> from spreg.diagnostics_probit import sp_tests
-
-    >>> columb = libpysal.examples.load_example('Columbus')
-    >>> dfs = gpd.read_file(columb.get_path("columbus.shp"))
-    >>> w = libpysal.weights.Queen.from_dataframe(dfs)
-    >>> w.transform='r'
-
-    >>> y = (dfs["CRIME"] > 40).astype(float)
-    >>> X = dfs[["INC","HOVAL"]]
-    >>> X = sm.add_constant(X)
-
-    >>> probit_mod = sm.Probit(y, X)
-    >>> probit_res = probit_mod.fit(disp=False)
-    >>> LM_err, moran, ps = sp_tests(obj_list=[w, probit_res.fittedvalues, probit_res.resid_response, probit_res.resid_generalized])
-    PROBIT MODEL DIAGNOSTICS FOR SPATIAL DEPENDENCE
-    TEST                              DF         VALUE           PROB
-    Kelejian-Prucha (error)           1          1.721           0.0852
-    Pinkse (error)                    1          3.132           0.0768
-    Pinkse-Slade (error)              1          2.558           0.1097
-
-    """
-    if regprob:
-        w, Phi, phi, u_naive, u_gen, n = regprob.w, regprob.predy, regprob.phiy, regprob.u_naive, regprob.u_gen, regprob.n
-    elif obj_list:
-        w, fittedvalues, u_naive, u_gen = obj_list
-        Phi = norm.cdf(fittedvalues)
-        phi = norm.pdf(fittedvalues)
-        n = w.n
-
-    try:
-        w = w.sparse
-    except:
-        w = w
-        
-    # Pinkse_error:
-    Phi_prod = Phi * (1 - Phi)
-    sig2 = np.sum((phi * phi) / Phi_prod) / n
-    LM_err_num = np.dot(u_gen.T, (w @ u_gen)) ** 2
-    trWW = np.sum((w @ w).diagonal())
-    trWWWWp = trWW + np.sum((w @ w.T).diagonal())
-    LM_err = (1.0 * LM_err_num / (sig2 ** 2 * trWWWWp)).item()
-    LM_err = np.array([LM_err, stats.chisqprob(LM_err, 1)])
-    # KP_error:
-    moran = moran_KP(w, u_naive, Phi_prod)
-    # Pinkse-Slade_error:
-    u_std = u_naive / np.sqrt(Phi_prod)
-    ps_num = np.dot(u_std.T, (w @ u_std)) ** 2
-    trWpW = np.sum((w.T @ w).diagonal())
-    ps = (ps_num / (trWW + trWpW)).item()
-    # chi-square instead of bootstrap.
-    ps = np.array([ps, stats.chisqprob(ps, 1)])
-
-    if obj_list:
-        from .output import _probit_out
-        reg_simile = type('reg_simile', (object,), {})()
-        reg_simile.Pinkse_error = LM_err
-        reg_simile.KP_error = moran
-        reg_simile.PS_error = ps
-        print("PROBIT MODEL "+_probit_out(reg_simile, spat_diag=True, sptests_only=True)[1:])
-
-    return LM_err, moran, ps
-
-def moran_KP(w, u, sig2i):
-    """
-    Calculates Kelejian-Prucha Moran-flavoured tests
-
-    Parameters
-    ----------
-
-    w           : W
-                  PySAL weights instance aligned with y
-    u           : array
-                  nx1 array of naive residuals
-    sig2i       : array
-                  nx1 array of individual variance
-
-    Returns
-    -------
-    moran       : array, Kelejian-Prucha Moran's I with p-value   
-    """
-    try:
-        w = w.sparse
-    except:
-        pass
-    moran_num = np.dot(u.T, (w @ u))
-    E = SP.lil_matrix(w.shape)
-    E.setdiag(sig2i.flat)
-    E = E.asformat("csr")
-    WE = w @ E
-    moran_den = np.sqrt(np.sum((WE @ WE + (w.T @ E) @ WE).diagonal()))
-    moran = (1.0 * moran_num / moran_den).item()
-    moran = np.array([moran, stats.norm.sf(abs(moran)) * 2.0])
-    return moran
-
-
-def _test():
-    import doctest
-
-    doctest.testmod()
-
-
-if __name__ == "__main__":
-    _test()
+"""
+Diagnostics in probit regression. 
+        
+"""
+__author__ = (
+    "Luc Anselin lanselin@gmail.com, Pedro Amaral pedrovma@gmail.com "
+)
+
+from math import sqrt, pi
+
+from libpysal.common import MISSINGVALUE
+import numpy as np
+import numpy.linalg as la
+import scipy.sparse as SP
+from scipy import stats
+from scipy.stats import norm
+
+__all__ = [
+    "pred_table",
+    "probit_fit",
+    "probit_lrtest",
+    "mcfad_rho",
+    "probit_ape",
+    "sp_tests",
+    "moran_KP",
+]
+
+
+def pred_table(reg):
+    """
+    Calculates a table comparing predicted to actual outcomes for a 
+    discrete choice model
+
+    Parameters
+    ----------
+    reg             : regression object
+                      output instance from a probit regression model
+
+    Returns
+    ----------
+    predtab_vals    : dictionary
+                      includes margins and cells of actual and predicted
+                      values for discrete choice model
+                      actpos   : observed positives (=1)
+                      actneg   : observed negatives (=0)
+                      predpos  : predicted positives 
+                      predneg  : predicted negatives
+                      truepos  : predicted 1 when actual = 1
+                      falsepos : predicted 1 when actual = 0
+                      trueneg  : predicted 0 when actual = 0
+                      falseneg : predicted 0 when actual = 1
+
+    """
+    predtab_vals = {}
+    pos = reg.y.sum()
+    predtab_vals["actpos"] = int(pos)
+    neg = reg.n - pos
+    predtab_vals["actneg"] = int(neg)
+    act1 = (reg.y == 1) * 1
+    act0 = (reg.y == 0) * 1
+    ppos = reg.predybin.sum()
+    predtab_vals["predpos"] = ppos
+    pneg = reg.n - ppos
+    predtab_vals["predneg"] = pneg
+    pred1 = (reg.predybin == 1) * 1
+    pred0 = (reg.predybin == 0) * 1
+    truep = (pred1 * act1) * 1
+    predtab_vals["truepos"] = truep.sum()
+    truen = (pred0 * act0) * 1
+    predtab_vals["trueneg"] = truen.sum()
+    fpos = (pred1 * act0) * 1
+    predtab_vals["falsepos"] = fpos.sum()
+    fneg = (pred0 * act1) * 1
+    predtab_vals["falseneg"] = fneg.sum()
+
+    return predtab_vals
+
+
+def probit_fit(reg):
+    """
+    Various measures of fit for discrete choice models, derived from the
+    prediction table (pred_table)
+    
+    Parameters
+    ----------
+    reg             : regression object
+                      output instance from a probit regression model
+                      must contain predtable attribute
+
+    Returns
+    ----------
+    prob_fit    : a dictionary containing various measures of fit
+                  TPR    : true positive rate (sensitivity, recall, hit rate)
+                  TNR    : true negative rate (specificity, selectivity)
+                  PREDPC : accuracy, percent correctly predicted
+                  BA     : balanced accuracy
+    
+    """
+
+    prob_fit = {}
+    prob_fit["TPR"] = 100.0 * reg.predtable["truepos"] / reg.predtable["actpos"]
+    prob_fit["TNR"] = 100.0 * reg.predtable["trueneg"] / reg.predtable["actneg"]
+    prob_fit["BA"] = (prob_fit["TPR"] + prob_fit["TNR"])/2.0
+    prob_fit["PREDPC"] = 100.0 * (reg.predtable["truepos"] + reg.predtable["trueneg"]) / reg.n
+
+    return prob_fit
+
+def probit_lrtest(regprob):
+    """
+    Likelihood ratio test statistic for probit model
+
+    Parameters
+    ----------
+    regprob      : probit regression object
+
+    Returns
+    -------
+
+    likratio     : dictionary
+                   contains the statistic for the null model (L0), the LR test(likr), 
+                   the degrees of freedom (df) and the p-value (pvalue)
+    L0           : float
+                   log likelihood of null model
+    likr         : float
+                   likelihood ratio statistic
+    df           : integer
+                   degrees of freedom
+    p-value      : float
+                   p-value
+    """
+
+    likratio = {}
+    P = np.mean(regprob.y)
+    L0 = regprob.n * (P * np.log(P) + (1 - P) * np.log(1 - P))
+    likratio["L0"] = L0
+    LR = -2.0 * (L0 - regprob.logl)
+    likratio["likr"] = LR
+    likratio["df"] = regprob.k - 1
+    pval = stats.chisqprob(LR, regprob.k - 1)
+    likratio["p-value"] = pval
+
+    return likratio
+
+def mcfad_rho(regprob):
+    """
+    McFadden's rho measure of fit
+
+    Parameters
+    ---------
+    regprob    : probit regression object
+
+    Returns
+    -------
+    rho        : McFadden's rho (1 - L/L0)
+    
+    """
+
+    rho = 1.0 - (regprob.logl / regprob.L0)
+    return rho
+
+def probit_ape(regprob):
+    """
+    Average partial effects
+
+    Parameters
+    ----------
+    regprob   : probit regression object
+
+    Returns
+    -------
+    tuple with:
+        scale          : the scale of the marginal effects, determined by regprob.scalem
+                         Default: 'phimean' (Mean of individual marginal effects)
+                         Alternative: 'xmean' (Marginal effects at variables mean)
+        slopes         : marginal effects or average partial effects (not for constant)
+        slopes_vm      : estimates of variance of marginal effects (not for constant)
+        slopes_std_err : estimates of standard errors of marginal effects
+        slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
+    
+    """
+        
+
+    if regprob.scalem == "xmean":
+        xmb = regprob.xmean.T @ regprob.betas
+        scale = stats.norm.pdf(xmb)
+            
+    elif regprob.scalem == "phimean":
+        scale = np.mean(regprob.phiy,axis=0)
+
+    # average partial effects (no constant)
+    slopes = (regprob.betas[1:,0] * scale).reshape(-1,1)
+
+    # variance of partial effects
+    xmb = regprob.xmean.T @ regprob.betas
+    bxt = regprob.betas @ regprob.xmean.T
+    dfdb = np.eye(regprob.k) - xmb * bxt
+    slopes_vm = (scale ** 2) * ((dfdb @ regprob.vm) @ dfdb.T)
+
+    # standard errors
+    slopes_std_err = np.sqrt(slopes_vm[1:,1:].diagonal()).reshape(-1,1)
+
+    # z-stats and p-values
+    sl_zStat = slopes / slopes_std_err
+    slopes_z_stat = [(sl_zStat[i,0],stats.norm.sf(abs(sl_zStat[i,0])) * 2) for i in range(len(slopes))]
+
+
+    return (scale, slopes,slopes_vm[1:,1:],slopes_std_err,slopes_z_stat)
+
+
+def sp_tests(regprob=None, obj_list=None):
+    """
+    Calculates tests for spatial dependence in Probit models
+
+    Parameters
+    ----------
+    regprob     : regression object from spreg
+                  output instance from a probit model
+    obj_list    : list
+                  list of regression elements from both libpysal and statsmodels' ProbitResults
+                  The list should be such as:
+                  [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]               
+    
+    Returns
+    -------
+    tuple with LM_Err, moran, ps as 2x1 arrays with statistic and p-value
+               LM_Err: Pinkse
+               moran : Kelejian-Prucha generalized Moran
+               ps    : Pinkse-Slade
+
+    Examples
+    --------
+    The results of this function will be automatically added to the output of the probit model if using spreg.
+    If using the Probit estimator from statsmodels, the user can call the function with the obj_list argument.
+    The argument obj_list should be a list with the following elements, in this order:
+    [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]
+    The function will then return and print the results of the spatial diagnostics.
+
+    >>> import libpysal
+    >>> import statsmodels.api as sm
+    >>> import geopandas as gpd
+    >>> from spreg.diagnostics_probit import sp_tests
+
+    >>> columb = libpysal.examples.load_example('Columbus')
+    >>> dfs = gpd.read_file(columb.get_path("columbus.shp"))
+    >>> w = libpysal.weights.Queen.from_dataframe(dfs)
+    >>> w.transform='r'
+
+    >>> y = (dfs["CRIME"] > 40).astype(float)
+    >>> X = dfs[["INC","HOVAL"]]
+    >>> X = sm.add_constant(X)
+
+    >>> probit_mod = sm.Probit(y, X)
+    >>> probit_res = probit_mod.fit(disp=False)
+    >>> LM_err, moran, ps = sp_tests(obj_list=[w, probit_res.fittedvalues, probit_res.resid_response, probit_res.resid_generalized])
+    PROBIT MODEL DIAGNOSTICS FOR SPATIAL DEPENDENCE
+    TEST                              DF         VALUE           PROB
+    Kelejian-Prucha (error)           1          1.721           0.0852
+    Pinkse (error)                    1          3.132           0.0768
+    Pinkse-Slade (error)              1          2.558           0.1097
+
+    """
+    if regprob:
+        w, Phi, phi, u_naive, u_gen, n = regprob.w, regprob.predy, regprob.phiy, regprob.u_naive, regprob.u_gen, regprob.n
+    elif obj_list:
+        w, fittedvalues, u_naive, u_gen = obj_list
+        Phi = norm.cdf(fittedvalues)
+        phi = norm.pdf(fittedvalues)
+        n = w.n
+
+    try:
+        w = w.sparse
+    except:
+        w = w
+        
+    # Pinkse_error:
+    Phi_prod = Phi * (1 - Phi)
+    sig2 = np.sum((phi * phi) / Phi_prod) / n
+    LM_err_num = np.dot(u_gen.T, (w @ u_gen)) ** 2
+    trWW = np.sum((w @ w).diagonal())
+    trWWWWp = trWW + np.sum((w @ w.T).diagonal())
+    LM_err = (1.0 * LM_err_num / (sig2 ** 2 * trWWWWp)).item()
+    LM_err = np.array([LM_err, stats.chisqprob(LM_err, 1)])
+    # KP_error:
+    moran = moran_KP(w, u_naive, Phi_prod)
+    # Pinkse-Slade_error:
+    u_std = u_naive / np.sqrt(Phi_prod)
+    ps_num = np.dot(u_std.T, (w @ u_std)) ** 2
+    trWpW = np.sum((w.T @ w).diagonal())
+    ps = (ps_num / (trWW + trWpW)).item()
+    # chi-square instead of bootstrap.
+    ps = np.array([ps, stats.chisqprob(ps, 1)])
+
+    if obj_list:
+        from .output import _probit_out
+        reg_simile = type('reg_simile', (object,), {})()
+        reg_simile.Pinkse_error = LM_err
+        reg_simile.KP_error = moran
+        reg_simile.PS_error = ps
+        print("PROBIT MODEL "+_probit_out(reg_simile, spat_diag=True, sptests_only=True)[1:])
+
+    return LM_err, moran, ps
+
+def moran_KP(w, u, sig2i):
+    """
+    Calculates Kelejian-Prucha Moran-flavoured tests
+
+    Parameters
+    ----------
+
+    w           : W
+                  PySAL weights instance aligned with y
+    u           : array
+                  nx1 array of naive residuals
+    sig2i       : array
+                  nx1 array of individual variance
+
+    Returns
+    -------
+    moran       : array, Kelejian-Prucha Moran's I with p-value   
+    """
+    try:
+        w = w.sparse
+    except:
+        pass
+    moran_num = np.dot(u.T, (w @ u))
+    E = SP.lil_matrix(w.shape)
+    E.setdiag(sig2i.flat)
+    E = E.asformat("csr")
+    WE = w @ E
+    moran_den = np.sqrt(np.sum((WE @ WE + (w.T @ E) @ WE).diagonal()))
+    moran = (1.0 * moran_num / moran_den).item()
+    moran = np.array([moran, stats.norm.sf(abs(moran)) * 2.0])
+    return moran
+
+
+def _test():
+    import doctest
+
+    doctest.testmod()
+
+
+if __name__ == "__main__":
+    _test()
-- 
2.43.0


From 451fdfbfcf099e09f6eabac56bd9f033db8ed1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:56 +0000
Subject: [PATCH 34/68] fix: Probit never printed the prediction table predflag
 asks for

---
 spreg/probit.py | 1170 +++++++++++++++++++++++------------------------
 1 file changed, 585 insertions(+), 585 deletions(-)

diff --git a/spreg/probit.py b/spreg/probit.py
index 7b786d5..85db533 100755
--- a/spreg/probit.py
+++ b/spreg/probit.py
@@ -1,585 +1,585 @@
-"""Probit regression class and diagnostics."""
-
-__author__ = "Luc Anselin lanselin@gmail.com, Pedro V. Amaral pedrovma@gmail.com"
-
-import numpy as np
-import numpy.linalg as la
-import scipy.optimize as op
-import pandas as pd
-from scipy.stats import norm, chi2
-from libpysal import weights
-chisqprob = chi2.sf
-import scipy.sparse as SP
-from . import user_output as USER
-from . import diagnostics as DIAGNOSTICS  
-from . import diagnostics_probit as PROBDIAG   
-from .output import output, _probit_out
-from .utils import spdot, spbroadcast, set_warn
-
-__all__ = ["Probit"]
-
-class BaseProbit():
-    """
-    Probit class to do the core estimation
-
-    Parameters
-    ----------
-
-    x           : array
-                  nxk array of independent variables (assumed to be aligned with y)
-    y           : array
-                  nx1 array of dependent binary variable
-    optim       : string
-                  Optimization method.
-                  Default: 'newton' (Newton-Raphson).
-                  Alternatives: 'ncg' (Newton-CG), 'bfgs' (BFGS algorithm)
-    bstart      : list with starting values for betas
-    maxiter     : int
-                  Maximum number of iterations until optimizer stops
-
-    Attributes
-    ----------
-    x           : array
-                  Two dimensional array with n rows and one column for each
-                  independent (exogenous) variable, including the constant
-    xmean       : array
-                  kx1 vector with means of explanatory variables
-                  (for use in slopes)
-    y           : array
-                  nx1 array of dependent variable
-    optim       : string
-                  optimization method
-    maxiter     : int
-                  maximum number of iterations
-    q           : array
-                  nx1 array of transformed dependent variable 2*y - 1
-    betas       : array
-                  kx1 array with estimated coefficients
-    bstart      : list with starting values
-    predy       : array
-                  nx1 array of predicted y values (probabilities)
-    n           : int
-                  Number of observations
-    k           : int
-                  Number of variables
-    vm          : array
-                  Variance-covariance matrix (kxk)
-    logl        : float
-                  Log-Likelihhod of the estimation
-    xb          : predicted value of linear index
-                  nx1 array
-    predybin    : predicted value as binary
-                  =1 for predy > 0.5
-    phiy        : normal density at xb (phi function)
-                  nx1 array
-    u_naive     : naive residuals y - predy
-                  nx1 array
-    u_gen       : generalized residuals
-                  nx1 array
-    warning     : boolean
-                  if True Maximum number of iterations exceeded or gradient
-                  and/or function calls not changing.
-
-    Examples - needs updating
-    --------
-    >>> import numpy as np
-    >>> import libpysal
-    >>> import spreg
-    >>> np.set_printoptions(suppress=True) #prevent scientific format
-    >>> dbf = libpysal.io.open(libpysal.examples.get_path('columbus.dbf'),'r')
-    >>> y = np.array([dbf.by_col('CRIME')]).T
-    >>> x = np.array([dbf.by_col('INC'), dbf.by_col('HOVAL')]).T
-    >>> x = np.hstack((np.ones(y.shape),x))
-    >>> model = spreg.probit.BaseProbit((y>40).astype(float), x)
-    >>> print(np.around(model.betas, decimals=6))
-    [[ 3.353811]
-     [-0.199653]
-     [-0.029514]]
-
-    >>> print(np.around(model.vm, decimals=6))
-    [[ 0.852814 -0.043627 -0.008052]
-     [-0.043627  0.004114 -0.000193]
-     [-0.008052 -0.000193  0.00031 ]]
-
-    """
-
-    def __init__(self, y, x, optim="newton",bstart=False,maxiter=100):
-        self.y = y
-        self.q = 2* self.y - 1
-        self.x = x
-        self.xmean =  np.mean(self.x,axis=0).reshape(-1,1)
-        self.n, self.k = x.shape
-        self.optim = optim
-        self.bstart = bstart
-        self.maxiter = maxiter
-
-        par_est, self.warning = self.par_est()
-        self.betas = par_est[0].reshape(-1,1)
-
-        self.logl = -par_est[1].item()
-        H = self.hessian(self.betas)
-        self.vm = - la.inv(H)
-
-        # predicted values
-        self.xb = self.x @ self.betas
-        self.predy = norm.cdf(self.xb)
-        self.predybin = (self.predy > 0.5) * 1
-        self.phiy = norm.pdf(self.xb)
-        
-        # residuals
-        self.u_naive = self.y - self.predy
-        Phi_prod = self.predy * (1.0 - self.predy)
-        self.u_gen = self.phiy * (self.u_naive / Phi_prod)
-
-
-    def par_est(self):
-
-        if self.bstart:
-            if len(self.bstart) != self.k:
-                raise Exception("Incompatible number of parameters in starting values")
-            else:
-                start = np.array(self.bstart).reshape(-1,1)
-        else:
-            xtx = self.x.T @ self.x
-            xty = self.x.T @ self.y
-            start = la.solve(xtx,xty)
-
-        flogl = lambda par: -self.ll(par)
-
-        if self.optim == "newton":
-            fgrad = lambda par: self.gradient(par)
-            fhess = lambda par: self.hessian(par)
-            par_hat = newton(flogl, start, fgrad, fhess, self.maxiter)
-            warn = par_hat[2]
-        else:
-            fgrad = lambda par: -self.gradient(par)
-            if self.optim == "bfgs":
-                par_hat = op.fmin_bfgs(flogl, start, fgrad, full_output=1, disp=0)
-                warn = par_hat[6]
-            if self.optim == "ncg":
-                fhess = lambda par: -self.hessian(par)
-                par_hat = op.fmin_ncg(
-                    flogl, start, fgrad, fhess=fhess, full_output=1, disp=0
-                )
-                warn = par_hat[5]
-        if warn > 0:
-            warn = True
-        else:
-            warn = False
-        return par_hat, warn
-
-    def ll(self, par):
-        beta = np.reshape(np.array(par), (self.k, 1))
-        q = 2 * self.y - 1
-        qxb = q * spdot(self.x, beta)
-        ll = sum(np.log(norm.cdf(qxb)))
-        return ll
-
-    def gradient(self, par):
-        beta = np.reshape(np.array(par), (self.k, 1))
-        q = 2 * self.y - 1
-        qxb = q * spdot(self.x, beta)
-        lamb = q * norm.pdf(qxb) / norm.cdf(qxb)
-        gradient = spdot(lamb.T, self.x)[0]
-        return gradient
-
-    def hessian(self, par):
-        beta = np.reshape(np.array(par), (self.k, 1))
-        q = 2 * self.y - 1
-        xb = spdot(self.x, beta)
-        qxb = q * xb
-        lamb = q * norm.pdf(qxb) / norm.cdf(qxb)
-        hessian = spdot(self.x.T, spbroadcast(self.x, -lamb * (lamb + xb)))
-        return hessian
-
-
-class Probit(BaseProbit):
-
-    """
-    Classic non-spatial Probit and spatial diagnostics. The class includes a
-    printout that formats all the results and tests in a nice format.
-
-    The diagnostics for spatial dependence currently implemented are:
-
-    * Pinkse Error :cite:`Pinkse2004`
-
-    * Kelejian and Prucha Moran's I :cite:`Kelejian2001`
-
-    * Pinkse & Slade Error :cite:`Pinkse1998`
-
-    Parameters
-    ----------
-
-    x           : numpy.ndarray or pandas object
-                  nxk array of independent variables (assumed to be aligned with y)
-    y           : numpy.ndarray or pandas.Series
-                  nx1 array of dependent binary variable
-    w           : W
-                  PySAL weights instance aligned with y
-    slx_lags    : integer
-                  Number of spatial lags of X to include in the model specification.
-                  If slx_lags>0, the specification becomes of the SLX type.
-    slx_vars    : variables to be lagged when slx_lags > 0
-                  default = "All", otherwise a list with Booleans indicating which
-                  variables must be lagged (True) or not (False)
-    optim       : string
-                  Optimization method.
-                  Default: 'newton' (Newton-Raphson).
-                  Alternatives: 'ncg' (Newton-CG), 'bfgs' (BFGS algorithm)
-    bstart      : list
-                  list with starting values for betas, default = False
-    scalem      : string
-                  Method to calculate the scale of the marginal effects.
-                  Default: 'phimean' (Mean of individual marginal effects)
-                  Alternative: 'xmean' (Marginal effects at variables mean)
-    predflag    : flag to print prediction table
-    maxiter     : int
-                  Maximum number of iterations until optimizer stops
-    name_y       : string
-                   Name of dependent variable for use in output
-    name_x       : list of strings
-                   Names of independent variables for use in output
-    name_w       : string
-                   Name of weights matrix for use in output
-    name_ds      : string
-                   Name of dataset for use in output
-
-    Attributes 
-    ----------
-
-    x           : array
-                  Two dimensional array with n rows and one column for each
-                  independent (exogenous) variable, including the constant
-    xmean       : array
-                  kx1 vector with means of explanatory variables
-                  (for use in slopes)
-    y           : array
-                  nx1 array of dependent variable
-    w           : spatial weights object
-    optim       : string
-                  optimization method
-    predflag    : flag to print prediction table (predtable)
-    maxiter     : int
-                  maximum number of iterations
-    q           : array
-                  nx1 array of transformed dependent variable 2*y - 1
-    betas       : array
-                  kx1 array with estimated coefficients
-    bstart      : list with starting values for betas or False
-    predy       : array
-                  nx1 array of predicted y values (probabilities)
-    n           : int
-                  Number of observations
-    k           : int
-                  Number of variables
-    vm          : array
-                  Variance-covariance matrix (kxk)
-    logl        : float
-                  Log-Likelihhod of the estimation
-    xb          : predicted value of linear index
-                  nx1 array
-    predybin    : predicted value as binary
-                  =1 for predy > 0.5
-    phiy        : normal density at xb (phi function)
-                  nx1 array
-    u_naive     : naive residuals y - predy
-                  nx1 array
-    u_gen       : generalized residuals
-                  nx1 array
-    warning     : boolean
-                  if True Maximum number of iterations exceeded or gradient
-                  and/or function calls not changing.
-    std_err     : standard errors of estimates
-    z_stat      : list of tuples
-                  z statistic; each tuple contains the pair (statistic,
-                  p-value), where each is a float
-    predtable   : dictionary
-                  includes margins and cells of actual and predicted
-                  values for discrete choice model
-    fit         : a dictionary containing various measures of fit
-                  TPR    : true positive rate (sensitivity, recall, hit rate)
-                  TNR    : true negative rate (specificity, selectivity)
-                  PREDPC : accuracy, percent correctly predicted
-                  BA     : balanced accuracy
-    predpc      : float
-                  Percent of y correctly predicted (legacy)
-    LRtest      : dictionary
-                   contains the statistic for the null model (L0), the LR test(likr), 
-                   the degrees of freedom (df) and the p-value (pvalue)
-    L0          : likelihood of null model
-    LR          : tuple (legacy)
-                  Likelihood Ratio test of all coefficients = 0
-                  (test statistics, p-value)
-    mcfadrho    : McFadden rho statistics of fit
-    scale       : float
-                  Scale of the marginal effects.
-    slopes      : array
-                  Marginal effects of the independent variables (k-1x1)
-    slopes_vm   : array
-                  Variance-covariance matrix of the slopes (k-1xk-1)
-    slopes_std_err : estimates of standard errors of marginal effects
-    slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
-    Pinkse_error: array with statistic and p-value
-                  Lagrange Multiplier test against spatial error correlation.
-                  Implemented as presented in :cite:`Pinkse2004`
-    KP_error    : array with statistic and p-value
-                  Moran's I type test against spatial error correlation.
-                  Implemented as presented in :cite:`Kelejian2001`
-    PS_error    : array with statistic and p-value
-                  Lagrange Multiplier test against spatial error correlation.
-                  Implemented as presented in :cite:`Pinkse1998`
-    name_y       : string
-                   Name of dependent variable for use in output
-    name_x       : list of strings
-                   Names of independent variables for use in output
-    name_w       : string
-                   Name of weights matrix for use in output
-    name_ds      : string
-                   Name of dataset for use in output
-    title        : string
-                   Name of the regression method used
-
-    Examples
-    --------
-
-    We first need to import the needed modules, namely numpy to convert the
-    data we read into arrays that ``spreg`` understands and ``libpysal`` to
-    perform all the analysis.
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> np.set_printoptions(suppress=True) #prevent scientific format
-
-    Open data on Columbus neighborhood crime (49 areas) using libpysal.io.open().
-    This is the DBF associated with the Columbus shapefile.  Note that
-    libpysal.io.open() also reads data in CSV format; since the actual class
-    requires data to be passed in as numpy arrays, the user can read their
-    data in using any method.
-
-    >>> dbf = libpysal.io.open(libpysal.examples.get_path('columbus.dbf'),'r')
-
-    Extract the CRIME column (crime) from the DBF file and make it the
-    dependent variable for the regression. Note that libpysal requires this to be
-    an numpy array of shape (n, 1) as opposed to the also common shape of (n, )
-    that other packages accept. Since we want to run a probit model and for this
-    example we use the Columbus data, we also need to transform the continuous
-    CRIME variable into a binary variable. As in :cite:`McMillen1992`, we define
-    y = 1 if CRIME > 40.
-
-    >>> y = np.array([dbf.by_col('CRIME')]).T
-    >>> y = (y>40).astype(float)
-
-    Extract HOVAL (home values) and INC (income) vectors from the DBF to be used as
-    independent variables in the regression.  Note that libpysal requires this to
-    be an nxj numpy array, where j is the number of independent variables (not
-    including a constant). By default this class adds a vector of ones to the
-    independent variables passed in.
-
-    >>> names_to_extract = ['INC', 'HOVAL']
-    >>> x = np.array([dbf.by_col(name) for name in names_to_extract]).T
-
-    Since we want to the test the probit model for spatial dependence, we need to
-    specify the spatial weights matrix that includes the spatial configuration of
-    the observations into the error component of the model. To do that, we can open
-    an already existing gal file or create a new one. In this case, we will use
-    ``columbus.gal``, which contains contiguity relationships between the
-    observations in the Columbus dataset we are using throughout this example.
-    Note that, in order to read the file, not only to open it, we need to
-    append '.read()' at the end of the command.
-
-    >>> w = libpysal.io.open(libpysal.examples.get_path("columbus.gal"), 'r').read()
-
-    Unless there is a good reason not to do it, the weights have to be
-    row-standardized so every row of the matrix sums to one. In libpysal, this
-    can be easily performed in the following way:
-
-    >>> w.transform='r'
-
-    We are all set with the preliminaries, we are good to run the model. In this
-    case, we will need the variables and the weights matrix. If we want to
-    have the names of the variables printed in the output summary, we will
-    have to pass them in as well, although this is optional.
-
-    >>> from spreg import Probit
-    >>> model = Probit(y, x, w=w, name_y='crime', name_x=['income','home value'], name_ds='columbus', name_w='columbus.gal')
-
-    Once we have run the model, we can explore a little bit the output. The
-    regression object we have created has many attributes so take your time to
-    discover them.
-
-    >>> np.around(model.betas, decimals=6)
-    array([[ 3.353811],
-           [-0.199653],
-           [-0.029514]])
-
-    >>> np.around(model.vm, decimals=6)
-    array([[ 0.852814, -0.043627, -0.008052],
-           [-0.043627,  0.004114, -0.000193],
-           [-0.008052, -0.000193,  0.00031 ]])
-
-    Since we have provided a spatial weigths matrix, the diagnostics for
-    spatial dependence have also been computed. We can access them and their
-    p-values individually:
-
-    >>> tests = np.array([['Pinkse_error','KP_error','PS_error']])
-    >>> stats = np.array([[model.Pinkse_error[0],model.KP_error[0],model.PS_error[0]]])
-    >>> pvalue = np.array([[model.Pinkse_error[1],model.KP_error[1],model.PS_error[1]]])
-    >>> print(np.hstack((tests.T,np.around(np.hstack((stats.T,pvalue.T)),6))))
-    [['Pinkse_error' '3.131719' '0.076783']
-     ['KP_error' '1.721312' '0.085194']
-     ['PS_error' '2.558166' '0.109726']]
-
-    Or we can easily obtain a full summary of all the results nicely formatted and
-    ready to be printed simply by typing 'print model.summary'
-
-    """
-
-    def __init__(
-        self,
-        y,
-        x,
-        w=None,
-        slx_lags=0,
-        slx_vars = "All",
-        optim="newton",
-        bstart=False,
-        scalem="phimean",
-        predflag = False,
-        maxiter=100,
-        vm=False,
-        name_y=None,
-        name_x=None,
-        name_w=None,
-        name_ds=None,
-        spat_diag=False,
-        latex=False,
-    ):
-
-        n = USER.check_arrays(y, x)
-        y, name_y = USER.check_y(y, n, name_y)
-        x_constant, name_x, warn = USER.check_constant(x, name_x)
-        set_warn(self, warn)
-        self.name_x = USER.set_name_x(name_x, x_constant)
-
-        w_required=False
-        if spat_diag:
-            w_required=True
-        w = USER.check_weights(w, y, w_required=w_required, slx_lags=slx_lags)
-
-        if slx_lags > 0:
-            x_constant,self.name_x = USER.flex_wx(w,x=x_constant,name_x=self.name_x,constant=True,
-                                            slx_lags=slx_lags,slx_vars=slx_vars)            
-
-        BaseProbit.__init__(
-            self, y=y, x=x_constant, optim=optim, bstart=bstart, maxiter=maxiter
-        )
-        self.title = "CLASSIC PROBIT ESTIMATOR"
-        if slx_lags > 0:
-           self.title += " WITH SPATIALLY LAGGED X (SLX)"        
-        self.slx_lags = slx_lags
-        self.name_ds = USER.set_name_ds(name_ds)
-        self.name_y = USER.set_name_y(name_y)
-        self.name_w = USER.set_name_w(name_w, w)
-
-        self.scalem = scalem
-        self.predflag = predflag  # flag to print prediction table
-        self.w = w   # note, not sparse
-
-        # standard errors and z, p-values
-        self.std_err = DIAGNOSTICS.se_betas(self)
-        self.z_stat = DIAGNOSTICS.t_stat(self,z_stat=True)
-
-        # truepos, trueneg, predpc - measures of fit
-        self.predtable = PROBDIAG.pred_table(self)
-        self.fit = PROBDIAG.probit_fit(self)
-        self.predpc = self.fit["PREDPC"]
-        self.LRtest = PROBDIAG.probit_lrtest(self)
-        self.L0 = self.LRtest["L0"]
-        self.LR = (self.LRtest["likr"],self.LRtest["p-value"])
-        self.mcfadrho = PROBDIAG.mcfad_rho(self)
-
-        # impact measures
-        scale,slopes,slopes_vm,slopes_std_err,slopes_z_stat = PROBDIAG.probit_ape(self)
-        self.scale = scale
-        self.slopes = slopes
-        self.slopes_vm = slopes_vm
-        self.slopes_std_err = slopes_std_err
-        self.slopes_z_stat = slopes_z_stat
-
-        # tests for spatial autocorrelation
-        if spat_diag:
-            self.Pinkse_error,self.KP_error,self.PS_error = PROBDIAG.sp_tests(regprob=self)
-
-        #output
-        self.output = pd.DataFrame(self.name_x, columns=['var_names'])
-        self.output['var_type'] = ['o'] + ['x'] * (len(self.name_x)-1)
-        self.output['regime'], self.output['equation'] = (0, 0)
-        self.other_top, self.other_mid, other_end = _probit_out(reg=self, spat_diag=spat_diag)
-        output(reg=self, vm=vm, robust=None, other_end=other_end, latex=latex)
-
-
-def newton(flogl, start, fgrad, fhess, maxiter):
-
-    """
-    Calculates the Newton-Raphson method
-
-    Parameters
-    ----------
-
-    flogl       : lambda
-                  Function to calculate the log-likelihood
-    start       : array
-                  kx1 array of starting values
-    fgrad       : lambda
-                  Function to calculate the gradient
-    fhess       : lambda
-                  Function to calculate the hessian
-    maxiter     : int
-                  Maximum number of iterations until optimizer stops
-    """
-    warn = 0
-    iteration = 0
-    par_hat0 = start
-    m = 1
-    while iteration < maxiter and m >= 1e-04:
-        H = -la.inv(fhess(par_hat0))
-        g = fgrad(par_hat0).reshape(start.shape)
-        Hg = np.dot(H, g)
-        par_hat0 = par_hat0 + Hg
-        iteration += 1
-        m = np.dot(g.T, Hg)
-    if iteration == maxiter:
-        warn = 1
-    logl = flogl(par_hat0)
-    return (par_hat0, logl, warn)
-
-
-def _test():
-    import doctest
-    start_suppress = np.get_printoptions()["suppress"]
-    np.set_printoptions(suppress=True)
-    doctest.testmod()
-    np.set_printoptions(suppress=start_suppress)
-
-if __name__ == "__main__":
-    _test()
-    import numpy as np
-    import libpysal
-
-    dbf = libpysal.io.open(libpysal.examples.get_path("columbus.dbf"), "r")
-    y = np.array([dbf.by_col("CRIME")]).T
-    var_x = ["INC", "HOVAL"]
-    x = np.array([dbf.by_col(name) for name in var_x]).T
-    w = libpysal.io.open(libpysal.examples.get_path("columbus.gal"), "r").read()
-    w.transform = "r"
-    probit1 = Probit(
-        (y > 40).astype(float),
-        x,
-        w=w,
-        name_x=var_x,
-        name_y="CRIME",
-        name_ds="Columbus",
-        name_w="columbus.dbf",
-    )
-    print(probit1.summary)
-
+"""Probit regression class and diagnostics."""
+
+__author__ = "Luc Anselin lanselin@gmail.com, Pedro V. Amaral pedrovma@gmail.com"
+
+import numpy as np
+import numpy.linalg as la
+import scipy.optimize as op
+import pandas as pd
+from scipy.stats import norm, chi2
+from libpysal import weights
+chisqprob = chi2.sf
+import scipy.sparse as SP
+from . import user_output as USER
+from . import diagnostics as DIAGNOSTICS  
+from . import diagnostics_probit as PROBDIAG   
+from .output import output, _probit_out
+from .utils import spdot, spbroadcast, set_warn
+
+__all__ = ["Probit"]
+
+class BaseProbit():
+    """
+    Probit class to do the core estimation
+
+    Parameters
+    ----------
+
+    x           : array
+                  nxk array of independent variables (assumed to be aligned with y)
+    y           : array
+                  nx1 array of dependent binary variable
+    optim       : string
+                  Optimization method.
+                  Default: 'newton' (Newton-Raphson).
+                  Alternatives: 'ncg' (Newton-CG), 'bfgs' (BFGS algorithm)
+    bstart      : list with starting values for betas
+    maxiter     : int
+                  Maximum number of iterations until optimizer stops
+
+    Attributes
+    ----------
+    x           : array
+                  Two dimensional array with n rows and one column for each
+                  independent (exogenous) variable, including the constant
+    xmean       : array
+                  kx1 vector with means of explanatory variables
+                  (for use in slopes)
+    y           : array
+                  nx1 array of dependent variable
+    optim       : string
+                  optimization method
+    maxiter     : int
+                  maximum number of iterations
+    q           : array
+                  nx1 array of transformed dependent variable 2*y - 1
+    betas       : array
+                  kx1 array with estimated coefficients
+    bstart      : list with starting values
+    predy       : array
+                  nx1 array of predicted y values (probabilities)
+    n           : int
+                  Number of observations
+    k           : int
+                  Number of variables
+    vm          : array
+                  Variance-covariance matrix (kxk)
+    logl        : float
+                  Log-Likelihhod of the estimation
+    xb          : predicted value of linear index
+                  nx1 array
+    predybin    : predicted value as binary
+                  =1 for predy > 0.5
+    phiy        : normal density at xb (phi function)
+                  nx1 array
+    u_naive     : naive residuals y - predy
+                  nx1 array
+    u_gen       : generalized residuals
+                  nx1 array
+    warning     : boolean
+                  if True Maximum number of iterations exceeded or gradient
+                  and/or function calls not changing.
+
+    Examples - needs updating
+    --------
+    >>> import numpy as np
+    >>> import libpysal
+    >>> import spreg
+    >>> np.set_printoptions(suppress=True) #prevent scientific format
+    >>> dbf = libpysal.io.open(libpysal.examples.get_path('columbus.dbf'),'r')
+    >>> y = np.array([dbf.by_col('CRIME')]).T
+    >>> x = np.array([dbf.by_col('INC'), dbf.by_col('HOVAL')]).T
+    >>> x = np.hstack((np.ones(y.shape),x))
+    >>> model = spreg.probit.BaseProbit((y>40).astype(float), x)
+    >>> print(np.around(model.betas, decimals=6))
+    [[ 3.353811]
+     [-0.199653]
+     [-0.029514]]
+
+    >>> print(np.around(model.vm, decimals=6))
+    [[ 0.852814 -0.043627 -0.008052]
+     [-0.043627  0.004114 -0.000193]
+     [-0.008052 -0.000193  0.00031 ]]
+
+    """
+
+    def __init__(self, y, x, optim="newton",bstart=False,maxiter=100):
+        self.y = y
+        self.q = 2* self.y - 1
+        self.x = x
+        self.xmean =  np.mean(self.x,axis=0).reshape(-1,1)
+        self.n, self.k = x.shape
+        self.optim = optim
+        self.bstart = bstart
+        self.maxiter = maxiter
+
+        par_est, self.warning = self.par_est()
+        self.betas = par_est[0].reshape(-1,1)
+
+        self.logl = -par_est[1].item()
+        H = self.hessian(self.betas)
+        self.vm = - la.inv(H)
+
+        # predicted values
+        self.xb = self.x @ self.betas
+        self.predy = norm.cdf(self.xb)
+        self.predybin = (self.predy > 0.5) * 1
+        self.phiy = norm.pdf(self.xb)
+        
+        # residuals
+        self.u_naive = self.y - self.predy
+        Phi_prod = self.predy * (1.0 - self.predy)
+        self.u_gen = self.phiy * (self.u_naive / Phi_prod)
+
+
+    def par_est(self):
+
+        if self.bstart:
+            if len(self.bstart) != self.k:
+                raise Exception("Incompatible number of parameters in starting values")
+            else:
+                start = np.array(self.bstart).reshape(-1,1)
+        else:
+            xtx = self.x.T @ self.x
+            xty = self.x.T @ self.y
+            start = la.solve(xtx,xty)
+
+        flogl = lambda par: -self.ll(par)
+
+        if self.optim == "newton":
+            fgrad = lambda par: self.gradient(par)
+            fhess = lambda par: self.hessian(par)
+            par_hat = newton(flogl, start, fgrad, fhess, self.maxiter)
+            warn = par_hat[2]
+        else:
+            fgrad = lambda par: -self.gradient(par)
+            if self.optim == "bfgs":
+                par_hat = op.fmin_bfgs(flogl, start, fgrad, full_output=1, disp=0)
+                warn = par_hat[6]
+            if self.optim == "ncg":
+                fhess = lambda par: -self.hessian(par)
+                par_hat = op.fmin_ncg(
+                    flogl, start, fgrad, fhess=fhess, full_output=1, disp=0
+                )
+                warn = par_hat[5]
+        if warn > 0:
+            warn = True
+        else:
+            warn = False
+        return par_hat, warn
+
+    def ll(self, par):
+        beta = np.reshape(np.array(par), (self.k, 1))
+        q = 2 * self.y - 1
+        qxb = q * spdot(self.x, beta)
+        ll = sum(np.log(norm.cdf(qxb)))
+        return ll
+
+    def gradient(self, par):
+        beta = np.reshape(np.array(par), (self.k, 1))
+        q = 2 * self.y - 1
+        qxb = q * spdot(self.x, beta)
+        lamb = q * norm.pdf(qxb) / norm.cdf(qxb)
+        gradient = spdot(lamb.T, self.x)[0]
+        return gradient
+
+    def hessian(self, par):
+        beta = np.reshape(np.array(par), (self.k, 1))
+        q = 2 * self.y - 1
+        xb = spdot(self.x, beta)
+        qxb = q * xb
+        lamb = q * norm.pdf(qxb) / norm.cdf(qxb)
+        hessian = spdot(self.x.T, spbroadcast(self.x, -lamb * (lamb + xb)))
+        return hessian
+
+
+class Probit(BaseProbit):
+
+    """
+    Classic non-spatial Probit and spatial diagnostics. The class includes a
+    printout that formats all the results and tests in a nice format.
+
+    The diagnostics for spatial dependence currently implemented are:
+
+    * Pinkse Error :cite:`Pinkse2004`
+
+    * Kelejian and Prucha Moran's I :cite:`Kelejian2001`
+
+    * Pinkse & Slade Error :cite:`Pinkse1998`
+
+    Parameters
+    ----------
+
+    x           : numpy.ndarray or pandas object
+                  nxk array of independent variables (assumed to be aligned with y)
+    y           : numpy.ndarray or pandas.Series
+                  nx1 array of dependent binary variable
+    w           : W
+                  PySAL weights instance aligned with y
+    slx_lags    : integer
+                  Number of spatial lags of X to include in the model specification.
+                  If slx_lags>0, the specification becomes of the SLX type.
+    slx_vars    : variables to be lagged when slx_lags > 0
+                  default = "All", otherwise a list with Booleans indicating which
+                  variables must be lagged (True) or not (False)
+    optim       : string
+                  Optimization method.
+                  Default: 'newton' (Newton-Raphson).
+                  Alternatives: 'ncg' (Newton-CG), 'bfgs' (BFGS algorithm)
+    bstart      : list
+                  list with starting values for betas, default = False
+    scalem      : string
+                  Method to calculate the scale of the marginal effects.
+                  Default: 'phimean' (Mean of individual marginal effects)
+                  Alternative: 'xmean' (Marginal effects at variables mean)
+    predflag    : flag to print prediction table
+    maxiter     : int
+                  Maximum number of iterations until optimizer stops
+    name_y       : string
+                   Name of dependent variable for use in output
+    name_x       : list of strings
+                   Names of independent variables for use in output
+    name_w       : string
+                   Name of weights matrix for use in output
+    name_ds      : string
+                   Name of dataset for use in output
+
+    Attributes 
+    ----------
+
+    x           : array
+                  Two dimensional array with n rows and one column for each
+                  independent (exogenous) variable, including the constant
+    xmean       : array
+                  kx1 vector with means of explanatory variables
+                  (for use in slopes)
+    y           : array
+                  nx1 array of dependent variable
+    w           : spatial weights object
+    optim       : string
+                  optimization method
+    predflag    : flag to print prediction table (predtable)
+    maxiter     : int
+                  maximum number of iterations
+    q           : array
+                  nx1 array of transformed dependent variable 2*y - 1
+    betas       : array
+                  kx1 array with estimated coefficients
+    bstart      : list with starting values for betas or False
+    predy       : array
+                  nx1 array of predicted y values (probabilities)
+    n           : int
+                  Number of observations
+    k           : int
+                  Number of variables
+    vm          : array
+                  Variance-covariance matrix (kxk)
+    logl        : float
+                  Log-Likelihhod of the estimation
+    xb          : predicted value of linear index
+                  nx1 array
+    predybin    : predicted value as binary
+                  =1 for predy > 0.5
+    phiy        : normal density at xb (phi function)
+                  nx1 array
+    u_naive     : naive residuals y - predy
+                  nx1 array
+    u_gen       : generalized residuals
+                  nx1 array
+    warning     : boolean
+                  if True Maximum number of iterations exceeded or gradient
+                  and/or function calls not changing.
+    std_err     : standard errors of estimates
+    z_stat      : list of tuples
+                  z statistic; each tuple contains the pair (statistic,
+                  p-value), where each is a float
+    predtable   : dictionary
+                  includes margins and cells of actual and predicted
+                  values for discrete choice model
+    fit         : a dictionary containing various measures of fit
+                  TPR    : true positive rate (sensitivity, recall, hit rate)
+                  TNR    : true negative rate (specificity, selectivity)
+                  PREDPC : accuracy, percent correctly predicted
+                  BA     : balanced accuracy
+    predpc      : float
+                  Percent of y correctly predicted (legacy)
+    LRtest      : dictionary
+                   contains the statistic for the null model (L0), the LR test(likr), 
+                   the degrees of freedom (df) and the p-value (pvalue)
+    L0          : likelihood of null model
+    LR          : tuple (legacy)
+                  Likelihood Ratio test of all coefficients = 0
+                  (test statistics, p-value)
+    mcfadrho    : McFadden rho statistics of fit
+    scale       : float
+                  Scale of the marginal effects.
+    slopes      : array
+                  Marginal effects of the independent variables (k-1x1)
+    slopes_vm   : array
+                  Variance-covariance matrix of the slopes (k-1xk-1)
+    slopes_std_err : estimates of standard errors of marginal effects
+    slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
+    Pinkse_error: array with statistic and p-value
+                  Lagrange Multiplier test against spatial error correlation.
+                  Implemented as presented in :cite:`Pinkse2004`
+    KP_error    : array with statistic and p-value
+                  Moran's I type test against spatial error correlation.
+                  Implemented as presented in :cite:`Kelejian2001`
+    PS_error    : array with statistic and p-value
+                  Lagrange Multiplier test against spatial error correlation.
+                  Implemented as presented in :cite:`Pinkse1998`
+    name_y       : string
+                   Name of dependent variable for use in output
+    name_x       : list of strings
+                   Names of independent variables for use in output
+    name_w       : string
+                   Name of weights matrix for use in output
+    name_ds      : string
+                   Name of dataset for use in output
+    title        : string
+                   Name of the regression method used
+
+    Examples
+    --------
+
+    We first need to import the needed modules, namely numpy to convert the
+    data we read into arrays that ``spreg`` understands and ``libpysal`` to
+    perform all the analysis.
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> np.set_printoptions(suppress=True) #prevent scientific format
+
+    Open data on Columbus neighborhood crime (49 areas) using libpysal.io.open().
+    This is the DBF associated with the Columbus shapefile.  Note that
+    libpysal.io.open() also reads data in CSV format; since the actual class
+    requires data to be passed in as numpy arrays, the user can read their
+    data in using any method.
+
+    >>> dbf = libpysal.io.open(libpysal.examples.get_path('columbus.dbf'),'r')
+
+    Extract the CRIME column (crime) from the DBF file and make it the
+    dependent variable for the regression. Note that libpysal requires this to be
+    an numpy array of shape (n, 1) as opposed to the also common shape of (n, )
+    that other packages accept. Since we want to run a probit model and for this
+    example we use the Columbus data, we also need to transform the continuous
+    CRIME variable into a binary variable. As in :cite:`McMillen1992`, we define
+    y = 1 if CRIME > 40.
+
+    >>> y = np.array([dbf.by_col('CRIME')]).T
+    >>> y = (y>40).astype(float)
+
+    Extract HOVAL (home values) and INC (income) vectors from the DBF to be used as
+    independent variables in the regression.  Note that libpysal requires this to
+    be an nxj numpy array, where j is the number of independent variables (not
+    including a constant). By default this class adds a vector of ones to the
+    independent variables passed in.
+
+    >>> names_to_extract = ['INC', 'HOVAL']
+    >>> x = np.array([dbf.by_col(name) for name in names_to_extract]).T
+
+    Since we want to the test the probit model for spatial dependence, we need to
+    specify the spatial weights matrix that includes the spatial configuration of
+    the observations into the error component of the model. To do that, we can open
+    an already existing gal file or create a new one. In this case, we will use
+    ``columbus.gal``, which contains contiguity relationships between the
+    observations in the Columbus dataset we are using throughout this example.
+    Note that, in order to read the file, not only to open it, we need to
+    append '.read()' at the end of the command.
+
+    >>> w = libpysal.io.open(libpysal.examples.get_path("columbus.gal"), 'r').read()
+
+    Unless there is a good reason not to do it, the weights have to be
+    row-standardized so every row of the matrix sums to one. In libpysal, this
+    can be easily performed in the following way:
+
+    >>> w.transform='r'
+
+    We are all set with the preliminaries, we are good to run the model. In this
+    case, we will need the variables and the weights matrix. If we want to
+    have the names of the variables printed in the output summary, we will
+    have to pass them in as well, although this is optional.
+
+    >>> from spreg import Probit
+    >>> model = Probit(y, x, w=w, name_y='crime', name_x=['income','home value'], name_ds='columbus', name_w='columbus.gal')
+
+    Once we have run the model, we can explore a little bit the output. The
+    regression object we have created has many attributes so take your time to
+    discover them.
+
+    >>> np.around(model.betas, decimals=6)
+    array([[ 3.353811],
+           [-0.199653],
+           [-0.029514]])
+
+    >>> np.around(model.vm, decimals=6)
+    array([[ 0.852814, -0.043627, -0.008052],
+           [-0.043627,  0.004114, -0.000193],
+           [-0.008052, -0.000193,  0.00031 ]])
+
+    Since we have provided a spatial weigths matrix, the diagnostics for
+    spatial dependence have also been computed. We can access them and their
+    p-values individually:
+
+    >>> tests = np.array([['Pinkse_error','KP_error','PS_error']])
+    >>> stats = np.array([[model.Pinkse_error[0],model.KP_error[0],model.PS_error[0]]])
+    >>> pvalue = np.array([[model.Pinkse_error[1],model.KP_error[1],model.PS_error[1]]])
+    >>> print(np.hstack((tests.T,np.around(np.hstack((stats.T,pvalue.T)),6))))
+    [['Pinkse_error' '3.131719' '0.076783']
+     ['KP_error' '1.721312' '0.085194']
+     ['PS_error' '2.558166' '0.109726']]
+
+    Or we can easily obtain a full summary of all the results nicely formatted and
+    ready to be printed simply by typing 'print model.summary'
+
+    """
+
+    def __init__(
+        self,
+        y,
+        x,
+        w=None,
+        slx_lags=0,
+        slx_vars = "All",
+        optim="newton",
+        bstart=False,
+        scalem="phimean",
+        predflag = False,
+        maxiter=100,
+        vm=False,
+        name_y=None,
+        name_x=None,
+        name_w=None,
+        name_ds=None,
+        spat_diag=False,
+        latex=False,
+    ):
+
+        n = USER.check_arrays(y, x)
+        y, name_y = USER.check_y(y, n, name_y)
+        x_constant, name_x, warn = USER.check_constant(x, name_x)
+        set_warn(self, warn)
+        self.name_x = USER.set_name_x(name_x, x_constant)
+
+        w_required=False
+        if spat_diag:
+            w_required=True
+        w = USER.check_weights(w, y, w_required=w_required, slx_lags=slx_lags)
+
+        if slx_lags > 0:
+            x_constant,self.name_x = USER.flex_wx(w,x=x_constant,name_x=self.name_x,constant=True,
+                                            slx_lags=slx_lags,slx_vars=slx_vars)            
+
+        BaseProbit.__init__(
+            self, y=y, x=x_constant, optim=optim, bstart=bstart, maxiter=maxiter
+        )
+        self.title = "CLASSIC PROBIT ESTIMATOR"
+        if slx_lags > 0:
+           self.title += " WITH SPATIALLY LAGGED X (SLX)"        
+        self.slx_lags = slx_lags
+        self.name_ds = USER.set_name_ds(name_ds)
+        self.name_y = USER.set_name_y(name_y)
+        self.name_w = USER.set_name_w(name_w, w)
+
+        self.scalem = scalem
+        self.predflag = predflag  # flag to print prediction table
+        self.w = w   # note, not sparse
+
+        # standard errors and z, p-values
+        self.std_err = DIAGNOSTICS.se_betas(self)
+        self.z_stat = DIAGNOSTICS.t_stat(self,z_stat=True)
+
+        # truepos, trueneg, predpc - measures of fit
+        self.predtable = PROBDIAG.pred_table(self)
+        self.fit = PROBDIAG.probit_fit(self)
+        self.predpc = self.fit["PREDPC"]
+        self.LRtest = PROBDIAG.probit_lrtest(self)
+        self.L0 = self.LRtest["L0"]
+        self.LR = (self.LRtest["likr"],self.LRtest["p-value"])
+        self.mcfadrho = PROBDIAG.mcfad_rho(self)
+
+        # impact measures
+        scale,slopes,slopes_vm,slopes_std_err,slopes_z_stat = PROBDIAG.probit_ape(self)
+        self.scale = scale
+        self.slopes = slopes
+        self.slopes_vm = slopes_vm
+        self.slopes_std_err = slopes_std_err
+        self.slopes_z_stat = slopes_z_stat
+
+        # tests for spatial autocorrelation
+        if spat_diag:
+            self.Pinkse_error,self.KP_error,self.PS_error = PROBDIAG.sp_tests(regprob=self)
+
+        #output
+        self.output = pd.DataFrame(self.name_x, columns=['var_names'])
+        self.output['var_type'] = ['o'] + ['x'] * (len(self.name_x)-1)
+        self.output['regime'], self.output['equation'] = (0, 0)
+        self.other_top, self.other_mid, other_end = _probit_out(reg=self, spat_diag=spat_diag, predflag=predflag)
+        output(reg=self, vm=vm, robust=None, other_end=other_end, latex=latex)
+
+
+def newton(flogl, start, fgrad, fhess, maxiter):
+
+    """
+    Calculates the Newton-Raphson method
+
+    Parameters
+    ----------
+
+    flogl       : lambda
+                  Function to calculate the log-likelihood
+    start       : array
+                  kx1 array of starting values
+    fgrad       : lambda
+                  Function to calculate the gradient
+    fhess       : lambda
+                  Function to calculate the hessian
+    maxiter     : int
+                  Maximum number of iterations until optimizer stops
+    """
+    warn = 0
+    iteration = 0
+    par_hat0 = start
+    m = 1
+    while iteration < maxiter and m >= 1e-04:
+        H = -la.inv(fhess(par_hat0))
+        g = fgrad(par_hat0).reshape(start.shape)
+        Hg = np.dot(H, g)
+        par_hat0 = par_hat0 + Hg
+        iteration += 1
+        m = np.dot(g.T, Hg)
+    if iteration == maxiter:
+        warn = 1
+    logl = flogl(par_hat0)
+    return (par_hat0, logl, warn)
+
+
+def _test():
+    import doctest
+    start_suppress = np.get_printoptions()["suppress"]
+    np.set_printoptions(suppress=True)
+    doctest.testmod()
+    np.set_printoptions(suppress=start_suppress)
+
+if __name__ == "__main__":
+    _test()
+    import numpy as np
+    import libpysal
+
+    dbf = libpysal.io.open(libpysal.examples.get_path("columbus.dbf"), "r")
+    y = np.array([dbf.by_col("CRIME")]).T
+    var_x = ["INC", "HOVAL"]
+    x = np.array([dbf.by_col(name) for name in var_x]).T
+    w = libpysal.io.open(libpysal.examples.get_path("columbus.gal"), "r").read()
+    w.transform = "r"
+    probit1 = Probit(
+        (y > 40).astype(float),
+        x,
+        w=w,
+        name_x=var_x,
+        name_y="CRIME",
+        name_ds="Columbus",
+        name_w="columbus.dbf",
+    )
+    print(probit1.summary)
+
-- 
2.43.0


From c07f41a3a8893b4fdb3db2268872f1cb4a57af95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:38 +0000
Subject: [PATCH 35/68] fix: power approximation of the direct impacts stopped
 at the first zero or negative term

---
 spreg/sputils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index 0164520..023f0d9 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -317,16 +317,15 @@ def spmultiplier(w, rho, method="simple", mtol=0.00000001):
         ww = ws3
         pow = 1
         adi = 1.0
-        adidiff = 100.00
 
-        while adidiff > mtol:
+        # single terms can be zero (no cycles of that length) or negative (rho < 0)
+        while abs(rhop) > mtol:
             pow = pow + 1
             ww = SP.csr_matrix.dot(ww, ws3)
             trw = ww.diagonal().sum()
             rhop = rhop * rho
-            adidiff = rhop * trw / n
-            adi = adi + adidiff
-        multipliers["adi"] = adi.item()
+            adi = adi + rhop * trw / n
+        multipliers["adi"] = np.asarray(adi).item()
         multipliers["pow"] = pow
     else:
         multipliers["warn"] = "Method '"+method+"' not supported for spatial impacts.\n"
-- 
2.43.0


From ffca0147f23971e430cfe6e1f6a51a1b99a522b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 36/68] fix: i_multipliers refused the id series it documents
 and misaligned indexed ids

---
 spreg/sputils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index 023f0d9..bc85d67 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -474,10 +474,12 @@ def i_multipliers(w,coef=0.0,model='lag',id=None):
     eonNbrs = ww.sum(axis=0).reshape(-1,1) 
 
     if (isinstance(id,pd.core.frame.DataFrame)) or (isinstance(id,gpd.geoseries.GeoSeries)):
-        pdid = id   # already a data frame
+        pdid = id.reset_index(drop=True)   # already a data frame
+    elif isinstance(id,pd.Series):
+        pdid = id.reset_index(drop=True).to_frame()
     elif isinstance(id,np.ndarray):
         pdid = pd.DataFrame(id,columns=["ID"])
-    elif id == None:
+    elif id is None:
         id = np.arange(n,dtype='int32').reshape(-1,1)
         pdid = pd.DataFrame(id,columns=["ID"])
     else:
-- 
2.43.0


From c83a2050d84819201915b60d52af5c1cbb87c456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 37/68] fix: Skater_reg.fit changed the transformation of the
 weights it was given

---
 spreg/skater_reg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index c563597..7eca349 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -222,8 +222,11 @@ class Skater_reg(object):
         if data.shape[0] <= n_clusters*quorum:
             raise ValueError("The number of observations is less than the number of clusters times the quorum.")
         
+        transform = W.transform
         W.transform = "b"
-        W = W.sparse
+        sparse = W.sparse
+        W.transform = transform  # leave the weights of the caller as they were
+        W = sparse
         start = time.time()
 
         super_verbose = verbose > 1
-- 
2.43.0


From dea0e79a06c7d49d08989b72feeb30ceeb44835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 38/68] fix: Skater_reg lost the links between identical
 neighbors

---
 spreg/skater_reg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 7eca349..1551df2 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -231,8 +231,9 @@ class Skater_reg(object):
 
         super_verbose = verbose > 1
         start_W = time.time()
-        dissim = W.multiply(attribute_kernel)
-        dissim.eliminate_zeros()
+        dissim = W.multiply(attribute_kernel).tocsr()
+        # identical neighbors stay neighbors
+        dissim.data[dissim.data == 0] = np.finfo(float).tiny
         end_W = time.time() - start_W
 
         if super_verbose:
-- 
2.43.0


From 145248071d553f1e05d3aeb43e6ad8ebccfd70c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 39/68] fix: Skater_reg with an affinity failed when scoring
 attributes

---
 spreg/skater_reg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 1551df2..ea37d79 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -157,7 +157,7 @@ class Skater_reg(object):
         if affinity is not None:
             # invert the 0,1 affinity to
             # to an unbounded positive dissimilarity
-            metric = lambda x: -np.log(affinity(x))
+            metric = lambda X, Y=None: -np.log(affinity(X, Y))
         else:
             metric = dissimilarity
         self.metric = metric
-- 
2.43.0


From a2e86d3eb408dfdffcad552a7f5d6c49421e4726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 40/68] fix: Skater_reg lost its labels when no further cut was
 possible

---
 spreg/skater_reg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index ea37d79..b94dc9e 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -322,7 +322,9 @@ class Skater_reg(object):
                 prev_score = best_deletion.score
                 MSF = new_MSF
             else:  # otherwise, it means the MSF admits no further cuts
-                prev_n_subtrees, _ = cg.connected_components(MSF, directed=False)
+                prev_n_subtrees, current_labels = cg.connected_components(
+                    MSF, directed=False
+                )
                 warn(
                     "MSF contains no valid moves after finding {} subtrees. "
                     "Decrease the size of your quorum to find the remaining {} subtrees.".format(
-- 
2.43.0


From f7e675bb9eaa37e3879992c4d99dd265e3d03fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 41/68] fix: Skater_reg with GM_Lag dropped the first variable
 from the instruments and changed data_reg

---
 spreg/skater_reg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index b94dc9e..491fffb 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -542,8 +542,9 @@ class Skater_reg(object):
         return part_scores, score, trees_scores
 
     def _prep_lag(self, data_reg):
+        data_reg = dict(data_reg)
         # if the model is a spatial lag, add the lagged dependent variable to the model
-        data_reg['yend'], data_reg['q'] = set_endog(data_reg["y"], data_reg["x"][:, 1:], data_reg["w"], yend=None,
+        data_reg['yend'], data_reg['q'] = set_endog(data_reg["y"], data_reg["x"], data_reg["w"], yend=None,
             q=None, w_lags=1, lag_q=True)
         return data_reg
 
-- 
2.43.0


From 26120bf258fc08d1fe136b6ef411ecf175426094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:27 +0000
Subject: [PATCH 42/68] fix: Skater_reg could not score a whole partition

---
 spreg/skater_reg.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 491fffb..058ebec 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -372,7 +372,9 @@ class Skater_reg(object):
         current_tree: integer indicating the tree's label currently being considered for division
         """
 
-        labels, subtree_quorums = self._prep_score(all_labels, current_tree, current_labels)
+        all_labels, labels, subtree_quorums = self._prep_score(
+            all_labels, current_tree, current_labels
+        )
         if (subtree_quorums < quorum).any():
             return np.inf, None
 
@@ -470,7 +472,7 @@ class Skater_reg(object):
         NOTE: Optimization occurs with respect to a *dissimilarity* metric, so the problem *minimizes*
               the map dissimilarity. So, lower scores are better.
         """
-        labels, subtree_quorums = self._prep_score(
+        all_labels, labels, subtree_quorums = self._prep_score(
             all_labels, current_tree, current_labels
         )
         if (subtree_quorums < quorum).any():
@@ -511,15 +513,16 @@ class Skater_reg(object):
     def _prep_score(self, all_labels, current_tree, current_labels):
         if all_labels is None:
             try:
-                labels = self.current_labels_
+                all_labels = self.current_labels_
             except AttributeError:
                 raise ValueError(
                     "Labels not provided and MSF_Prune object has not been fit to data yet."
                 )
+        labels = all_labels
         if current_tree is not None:
             labels = all_labels[current_labels == current_tree]
         _, subtree_quorums = np.unique(labels, return_counts=True)
-        return labels, subtree_quorums
+        return all_labels, labels, subtree_quorums
 
     def _data_reg_none(self, data, all_labels, set_labels):
         assert data.shape[0] == len(
-- 
2.43.0


From 441b81a33fcd7fd2139a35ca10eae9c2b43728aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:27 +0000
Subject: [PATCH 43/68] fix: Skater_reg ignored the other components in the
 first cut of a disconnected map

---
 spreg/skater_reg.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 058ebec..f26c316 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -625,6 +625,14 @@ class Skater_reg(object):
         except:
             pass
 
+        if trees_scores is None and current_n_subtrees > 1:
+            # the trees that are not cut count as well
+            if model_family == "statsmodels":
+                score_func = self.score_stats
+            else:
+                score_func = self.score_spreg
+            _, trees_scores = score_func(data, data_reg, current_labels, quorum)
+
         try:
             old_score = sum(trees_scores.values())
         except:
-- 
2.43.0


From abd755017258132049ae1fe2991326c2d767d850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:49 +0000
Subject: [PATCH 44/68] fix: fitting an instrumental variable or spatial model
 printed its class name

---
 spreg/output.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/spreg/output.py b/spreg/output.py
index ad3c8d8..5d75f61 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -92,7 +92,6 @@ def out_part_top(strSummary, reg, m):
     else:
         _reg.z_stat = diagnostics.t_stat(_reg, z_stat=True)
         if _reg.__class__.__name__ not in ('NSLX','PSM','LagPSM') and not _reg.__class__.__name__.endswith('Probit'):
-            print(_reg.__class__.__name__)
             _reg.pr2 = diagnostics_tsls.pr2_aspatial(_reg)
             strSummary += "%-20s:%12.4f\n" % ("Pseudo R-squared", _reg.pr2)
         _reg.__summary["summary_zt"] = "z"
-- 
2.43.0


From 1ecd263535cf00b657fd827778265bfcd8b68118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:49 +0000
Subject: [PATCH 45/68] fix: stge_pre named the SDM it selected LAG when the
 lag model was out of bounds

---
 spreg/spsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/spsearch.py b/spreg/spsearch.py
index be59729..9f021e3 100755
--- a/spreg/spsearch.py
+++ b/spreg/spsearch.py
@@ -697,7 +697,7 @@ def stge_pre(
                 except:  # ignore lag model
                     if p_rlag <= p_rerror:
                         k = idv + 1
-                        result = models[1]
+                        result = models[k]
 
                     else:
                         k = idv + 2
-- 
2.43.0


From 8d7053f295958caebfd08580a43ed30516accb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:49 +0000
Subject: [PATCH 46/68] fix: gets_sdm raised on the singular WX test of the SLX
 model

---
 spreg/spsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/spsearch.py b/spreg/spsearch.py
index 9f021e3..23b3ebb 100755
--- a/spreg/spsearch.py
+++ b/spreg/spsearch.py
@@ -1295,7 +1295,7 @@ def gets_sdm(
                 latex=latex,
             )
 
-            errtest = LMtests(model_slx, w)
+            errtest = LMtests(model_slx, w, tests=["lme"])
             if errtest.lme[1] < p:  # SLX-ERROR
                 result = "SLX-Err"
 
-- 
2.43.0


From ae0851354b8fd82d95cf6fb7ddacb2905a1f92a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:00 +0000
Subject: [PATCH 47/68] fix: dgp_spdurbin and dgp_gns went on after reporting
 weights of the wrong dimension

---
 spreg/dgp.py | 2042 +++++++++++++++++++++++++-------------------------
 1 file changed, 1022 insertions(+), 1020 deletions(-)

diff --git a/spreg/dgp.py b/spreg/dgp.py
index a61b7f7..dffaac9 100644
--- a/spreg/dgp.py
+++ b/spreg/dgp.py
@@ -1,1021 +1,1023 @@
-"""
-Generating spatial models for specific DGP
-
-"""
-
-__author__ = "Luc Anselin lanselin@gmail.com,\
-     Pedro Amaral pedrovma@gmail.com,\
-     Renan Serenini renan.serenini@uniroma1.it"
-
-import numpy as np
-import math
-import libpysal
-from scipy.linalg import expm
-from .utils import inverse_prod
-
-
-__all__ = [
-    "make_error",
-    "make_x",
-    "make_wx",
-    "make_xb",
-    "make_wxg",
-    "dgp_errproc",
-    "dgp_ols",
-    "dgp_slx",
-    "dgp_sperror",
-    "dgp_slxerror",
-    "dgp_lag",
-    "dgp_spdurbin",
-    "dgp_lagerr",
-    "dgp_gns",
-    "dgp_mess",
-    "dgp_probit",
-    "make_bin",
-    "make_heterror",
-    "make_vmult"
-]
-    
-    
-def make_error(rng,n,mu=0,varu=1,method='normal'):
-    """
-    make_error: generate error term for a given distribution
-    
-    Arguments:
-    ----------
-    rng:      random number object
-    n:        number of observations
-    mu:       mean (when needed)
-    varu:     variance (when needed)
-    method:   type of distribution, one of
-              normal, laplace, cauchy, lognormal
-    
-    Returns:
-    --------
-    u:        nx1 vector of random errors
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> from spreg import make_error
-    >>> rng = np.random.default_rng(12345)
-    >>> make_error(rng,5)
-    array([[-1.42382504],
-           [ 1.26372846],
-           [-0.87066174],
-           [-0.25917323],
-           [-0.07534331]])
-
-    """
-    # normal - standard normal is default
-    if method == 'normal':
-        sdu = math.sqrt(varu)
-        u = rng.normal(loc=mu,scale=sdu,size=n).reshape(n,1)
-    # laplace with thicker tails
-    elif method == 'laplace':
-        sdu = math.sqrt(varu/2.0)
-        u = rng.laplace(loc=mu,scale=sdu,size=n).reshape(n,1)
-    # cauchy, ill-behaved, no mean or variance defined
-    elif method == 'cauchy':
-        u = rng.standard_cauchy(size=n).reshape(n,1)
-    elif method == 'lognormal':
-        sdu = math.sqrt(varu)
-        u = rng.lognormal(mean=mu,sigma=sdu,size=n).reshape(n,1)
-    # all other yield warning
-    else:
-        print('Warning: Unsupported distribution')
-        u = None
-    return u
-
-def make_x(rng,n,mu=[0],varu=[1],cor=0,method='uniform'):
-    """
-    make_x: generate a matrix of k columns of x for a given distribution  
-    
-    Arguments:
-    ----------
-    rng:      random number object
-    n:        number of observations
-    mu:       mean as a list
-    varu:     variance as a list
-    cor:      correlation as a float (for bivariate normal only)
-    method:   type of distribution, one of
-              uniform, normal, bivnormal (bivariate normal)
-    
-    Returns:
-    --------
-    x:        nxk matrix of x variables
-    
-    Note:
-    -----
-    Uniform and normal generate separate draws, bivariate normal generates
-    correlated draws
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> from spreg import make_x
-    >>> rng = np.random.default_rng(12345)
-    >>> make_x(rng,5,mu=[0,1],varu=[1,4])
-    array([[0.78751508, 2.30580253],
-           [1.09728308, 4.14520464],
-           [2.76215497, 1.29373239],
-           [2.3426149 , 4.6609906 ],
-           [1.35484323, 6.52500165]])
-
-    """
-    # check on k dimension
-    k = len(mu)
-    if k == len(varu):
-        # initialize
-        x = np.zeros((n,k))
-        for i in range(k):
-            # uniform - range is derived from variance since var = (1/12)range^2
-            # range is found as square root of 12 times variance
-            # for 0-1, varu should be 0.0833333
-            # low is always 0
-            if method == 'uniform':
-                sdu = math.sqrt(12.0*varu[i])
-                x[:,i] = rng.uniform(low=0,high=sdu,size=n)
-            # normal - independent normal draws
-            elif method == 'normal':
-                sdu = math.sqrt(varu[i])
-                x[:,i] = rng.normal(loc=mu[i],scale=sdu,size=n)
-            # bivariate normal - only for k=2
-            elif method == 'bivnormal':
-                if k != 2:
-                    print('Error: Wrong dimension for k')
-                    x = None
-                    return x
-                else:
-                    ucov = cor* math.sqrt(varu[0]*varu[1])
-                    mcov = [[varu[0],ucov],[ucov,varu[1]]]
-                    x = rng.multivariate_normal(mean=mu,cov=mcov,size=n)
-                    return x
-            else:
-                print('Warning: Unsupported distribution')
-                x = None
-    else:
-        x = None
-    return x
-
-def make_wx(x,w,o=1):
-    """
-    make_wx: generate a matrix spatially lagged x given matrix x  
-    
-             x must be previously generated using make_x, no constant included
-    
-    Arguments:
-    ----------
-    x:        x matrix - no constant
-    w:        row-standardized spatial weights in spreg format
-    o:        order of contiguity, default o=1
-    
-    Returns:
-    --------
-    wx:       nx(kxo) matrix of spatially lagged x variables
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_wx
-    >>> rng = np.random.default_rng(12345)
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> make_wx(x,w)[0:5,:]
-    array([[1.12509217],
-           [1.87409079],
-           [1.36225472],
-           [2.1491645 ],
-           [2.80255786]])
-
-    """
-    if w.n != x.shape[0]:
-        print("Error: incompatible weights dimensions")
-        return None
-    w1x = libpysal.weights.lag_spatial(w,x)
-    wx = w1x
-    if o > 1:
-        for i in range(1,o):
-            whx = libpysal.weights.lag_spatial(w,w1x)
-            w1x = whx
-            wx = np.hstack((wx,whx))
-    return wx
-        
-
-def make_xb(x,beta):
-    """
-    make_xb: generate a column xb as matrix x (constant added)  
-             times list beta (includes coefficient for constant term)
-    
-    Arguments:
-    ----------
-    x:        n x (k-1) matrix for x variables
-    beta:     k length list of regression coefficients
-    
-    Returns:
-    --------
-    xb:        nx1 vector of x times beta
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> from spreg import make_x, make_xb
-    >>> rng = np.random.default_rng(12345)
-    >>> x = make_x(rng,5,mu=[0,1],varu=[1,4])
-    >>> make_xb(x,[1,2,3])
-    array([[ 9.49243776],
-           [15.63018007],
-           [10.4055071 ],
-           [19.66820159],
-           [23.28469141]])
-    """
-    n = x.shape[0]
-    k = x.shape[1]
-    if k+1 != len(beta):
-        print("Error: Incompatible dimensions")
-        return None
-    else:
-        b = np.array(beta)[:,np.newaxis]
-        x1=np.hstack((np.ones((n,1)),x)) # include constant
-        xb = np.dot(x1,b)
-        return xb
-    
-def make_wxg(wx,gamma):
-    """
-    make_wxg: generate a column wxg as matrix wx (no constant)  
-             times list gamma (coefficient of spatially lagged x)
-    
-    Arguments:
-    ----------
-    wx:       n x ((k-1)xo) matrix for spatially lagged x variables of all orders
-    gamma:    (k-1)*o length list of regression coefficients for spatially lagged x
-    
-    Returns:
-    --------
-    wxg:      nx1 vector of wx times gamma
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_wx, make_wxg
-    >>> rng = np.random.default_rng(12345)
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> wx = make_wx(x,w)
-    >>> print(wx.shape)
-    (25, 1)
-    >>> make_wxg(wx,[2,4])[0:5,:]
-    array([[ 2.25018434,  4.50036868],
-           [ 3.74818158,  7.49636316],
-           [ 2.72450944,  5.44901889],
-           [ 4.298329  ,  8.59665799],
-           [ 5.60511572, 11.21023145]])
-
-    """
-    k = wx.shape[1]
-    if (k > 1): 
-        if k != len(gamma):
-            print("Error: Incompatible dimensions")
-            return None
-        else:
-            g = np.array(gamma)[:,np.newaxis]
-            wxg = np.dot(wx,g)
-    else:  # gamma is a scalar
-        wxg = wx * gamma
-    return wxg
-
-def dgp_errproc(u,w,lam=0.5,model='sar',imethod='power_exp'):
-    """
-    dgp_errproc: generates pure spatial error process
-
-    Arguments:
-    ----------
-    u:      random error vector
-    w:      spatial weights object
-    lam:    spatial autoregressive parameter
-    model:  type of process ('sar' or 'ma')
-    imethod: method for inverse transformation, default = 'power_exp'
-
-    Returns:
-    --------
-    y : vector of observations following a spatial AR or MA process
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, dgp_errproc
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> dgp_errproc(u,w)[0:5,:]
-    array([[-1.43760658],
-           [ 0.69778271],
-           [-0.7750646 ],
-           [-0.47750452],
-           [-0.72377417]])
-
-    """
-    n0 = u.shape[0]
-    if w.n != n0:
-        print("Error: incompatible weights dimensions")
-        return None
-    if model == 'sar':
-        y = inverse_prod(w,u,lam,inv_method=imethod)
-    elif model == 'ma':
-        y = u + lam * libpysal.weights.lag_spatial(w,u)
-    else:
-        print("Error: unsupported model type")
-        return None
-    return y
-    
-
-def dgp_ols(u,xb):
-    """
-    dgp_ols: generates y for non-spatial process with given xb and error term u
-    
-    Arguments:
-    ----------
-    u:      random error vector
-    xb:     vector of xb
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, dgp_ols
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> dgp_ols(u,xb)[0:5,:]
-    array([[5.22803968],
-           [3.60291127],
-           [1.02632633],
-           [1.37589879],
-           [5.07165754]])
-
-    """
-    n1 = u.shape[0]
-    n2 = xb.shape[0]  
-    if n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    y = xb + u
-    return y
-
-def dgp_slx(u,xb,wxg,ybin=False):
-    """
-    dgp_slx: generates y for SLX with given xb, wxg, and error term u
-    
-    Arguments:
-    ----------
-    u:      random error vector
-    xb:     vector of xb
-    wxg:    vector of wxg
-    ybin:   flag for binary dependent variable, default = False
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_slx
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> wx = make_wx(x,w)
-    >>> wxg = make_wxg(wx,[2])
-    >>> dgp_slx(u, xb, wxg)[0:5,:]
-    array([[8.85854389],
-           [7.17524694],
-           [3.83674621],
-           [4.73103929],
-           [8.37023076]])
-    """
-    n0 = u.shape[0]
-    n1 = xb.shape[0]  
-    n2 = wxg.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None
-    elif n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    y = xb + wxg + u
-    if ybin:     # probit case, turn into 0-1
-        y = make_bin(y)
-    return y    
-    
-def dgp_sperror(u,xb,w,lam=0.5,model='sar',imethod='power_exp',ybin=False):
-    """
-    dgp_sperror: generates y for spatial error model with given xb, weights,
-                  spatial parameter lam, error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    w:       spatial weights
-    lam:     spatial coefficient
-    model:   type of process ('sar' or 'ma')
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, dgp_sperror
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> dgp_sperror(u, xb, w)[0:5,:]
-    array([[5.21425813],
-           [3.03696553],
-           [1.12192347],
-           [1.15756751],
-           [4.42322667]])
-    """
-    n0 = u.shape[0]
-    n1 = xb.shape[0]
-    if n0 != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    elif w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    if model == 'sar':
-        u1 = inverse_prod(w,u,lam,inv_method=imethod)
-    elif model == 'ma':
-        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
-    else:
-        print("Error: unsupported model type")
-        return None
-    y = xb + u1
-    if ybin:
-        y = make_bin(y)
-    return y
-
-def dgp_slxerror(u,xb,wxg,w,lam=0.5,model='sar',imethod='power_exp',ybin=False):
-    """
-    dgp_slxerror: generates y for SLX spatial error model with xb, wxg, weights,
-                  spatial parameter lam, model type (sar or ma),
-                  error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    wxg:     vector of wxg
-    w:       spatial weights
-    lam:     spatial coefficient
-    model:   type of process ('sar' or 'ma')
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary 0-1 dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_slxerror
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> wx = make_wx(x,w)
-    >>> wxg = make_wxg(wx,[2])
-    >>> dgp_slxerror(u,xb,wxg,w)[0:5,:]
-    array([[8.84476235],
-           [6.6093012 ],
-           [3.93234334],
-           [4.51270801],
-           [7.7217999 ]])
-   """
-    
-    n0 = u.shape[0]
-    n1 = xb.shape[0]  
-    n2 = wxg.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None
-    elif n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    if model == 'sar':
-        u1 = inverse_prod(w,u,lam,inv_method=imethod)
-    elif model == 'ma':
-        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
-    else:
-        print("Error: unsupported model type")
-        return None  
-    y = xb + wxg + u1
-    if ybin:
-        y = make_bin(y)
-    return y
-    
-def dgp_lag(u,xb,w,rho=0.5,imethod='power_exp',ybin=False):
-    """
-    dgp_lag:      generates y for spatial lag model with xb, weights,
-                  spatial parameter rho,
-                  error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    w:       spatial weights
-    rho:     spatial coefficient
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, dgp_lag
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> dgp_lag(u, xb, w)[0:5,:]
-    array([[10.16582326],
-           [ 7.75359864],
-           [ 5.39821733],
-           [ 5.62244672],
-           [ 8.868168  ]])
-   """    
-    n0 = u.shape[0]
-    n1 = xb.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    y1 = xb + u
-    y = inverse_prod(w,y1,rho,inv_method=imethod)
-    if ybin:
-        y = make_bin(y)
-    return y
-    
-def dgp_spdurbin(u,xb,wxg,w,rho=0.5,imethod='power_exp',ybin=False):
-    """
-    dgp_spdurbin: generates y for spatial Durbin model with xb, wxg, weights,
-                  spatial parameter rho,
-                  error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    wxg:     vector of wxg
-    w:       spatial weights
-    rho:     spatial coefficient
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary 0-1 dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_spdurbin
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> wx = make_wx(x,w)
-    >>> wxg = make_wxg(wx,[2])
-    >>> dgp_spdurbin(u,xb,wxg,w)[0:5,:]
-    array([[18.06895353],
-           [15.18686487],
-           [11.95080505],
-           [12.55220513],
-           [15.75805066]])
-   """        
-    n0 = u.shape[0]
-    n1 = xb.shape[0]  
-    n2 = wxg.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None
-    elif n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-    y1 = xb + wxg + u
-    y = inverse_prod(w,y1,rho,inv_method=imethod)
-    if ybin:
-        y = make_bin(y)
-    return y
-    
-def dgp_lagerr(u,xb,w,rho=0.5,lam=0.2,model='sar',imethod='power_exp',ybin=False):
-    """
-    dgp_lagerr:   generates y for spatial lag model with sar or ma errors
-                  with xb, weights,
-                  spatial parameter rho, spatial parameter lambda,
-                  model for spatial process,
-                  error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    w:       spatial weights
-    rho:     spatial coefficient for lag
-    lam:     spatial coefficient for error
-    model:   spatial process for error
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary 0-1 dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, dgp_lagerr
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> dgp_lagerr(u, xb, w)[0:5,:]
-    array([[10.13845523],
-           [ 7.53009531],
-           [ 5.40644034],
-           [ 5.51132886],
-           [ 8.58872366]])
-   """            
-    n0 = u.shape[0]
-    n1 = xb.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    if model == 'sar':
-        u1 = inverse_prod(w,u,lam,inv_method=imethod)
-    elif model == 'ma':
-        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
-    else:
-        print("Error: unsupported model type")
-        return None
-    y1 = xb + u1
-    y = inverse_prod(w,y1,rho,inv_method=imethod)
-    if ybin:
-        y = make_bin(y)
-    return y
-    
-def dgp_gns(u,xb,wxg,w,rho=0.5,lam=0.2,model='sar',imethod='power_exp',ybin=False):
-    """
-    dgp_gns:      generates y for general nested model with sar or ma errors
-                  with xb, wxg, weights,
-                  spatial parameter rho, spatial parameter lambda,
-                  model for spatial process,
-                  error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    wxg:     vector of wxg
-    w:       spatial weights
-    rho:     spatial coefficient for lag
-    lam:     spatial coefficient for error
-    model:   spatial process for error
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary 0-1 dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_gns
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> wx = make_wx(x,w)
-    >>> wxg = make_wxg(wx,[2])
-    >>> dgp_gns(u,xb,wxg,w)[0:5,:]
-    array([[18.04158549],
-           [14.96336153],
-           [11.95902806],
-           [12.44108728],
-           [15.47860632]])
-   """            
-    n0 = u.shape[0]
-    n1 = xb.shape[0]  
-    n2 = wxg.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None       
-    elif n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-    if model == 'sar':
-        u1 = inverse_prod(w,u,lam,inv_method=imethod)
-    elif model == 'ma':
-        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
-    else:
-        print("Error: unsupported model type")
-        return None
-    y1 = xb + wxg + u1
-    y = inverse_prod(w,y1,rho,inv_method=imethod)
-    if ybin:
-        y = make_bin(y)
-    return y
-    
-def dgp_mess(u,xb,w,rho=0.5):
-    """
-    dgp_mess:     generates y for MESS spatial lag model with xb, weights,
-                  spatial parameter rho (gets converted into alpha),
-                  sigma/method for the error term
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    w:       spatial weights
-    rho:     spatial coefficient (converted into alpha)
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, dgp_mess
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> dgp_mess(u, xb, w)[0:5,:]
-    array([[10.12104421],
-           [ 7.45561055],
-           [ 5.32807674],
-           [ 5.55549492],
-           [ 8.62685145]])
-   """        
-    n0 = u.shape[0]
-    n1 = xb.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None    
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    bigw = libpysal.weights.full(w)[0]
-    alpha=np.log(1-rho) #convert between rho and alpha
-    aw=-alpha*bigw      # inverse exponential is -alpha
-    xbu = xb + u
-    y = np.dot(expm(aw),xbu)
-    return y
-
-def dgp_probit(u,xb):
-    """
-    dgp_probit: generates y for non-spatial probit process with given xb
-                and error u
-                y is taken when linear model prediction > its mean
-    
-    Arguments:
-    ----------
-    u:      random error vector
-    xb:     vector of xb
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, dgp_probit
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> dgp_probit(u,xb)[0:5,:]
-    array([[1],
-           [0],
-           [0],
-           [0],
-           [1]])
-
-    """
-    n1 = u.shape[0]
-    n2 = xb.shape[0]  
-    if n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    yy = xb + u
-    mm = yy.mean()
-    y = (yy > mm) * 1
-    return y
-
-def make_bin(yy):
-    """
-    make_bin:   generates y as 0-1 variable for y > mean of y,
-                i.e., for discrete dependent variables
-    
-    Arguments:
-    ----------
-    yy:      initial dependent variable vector
-    
-    Returns:
-    ----------
-    y: vector of 0-1 observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, dgp_ols, make_bin
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> yy = dgp_ols(u,xb)
-    >>> make_bin(yy)[0:5,:]
-    array([[1],
-           [0],
-           [0],
-           [0],
-           [1]])
-
-    """
-    mm = yy.mean()
-    y = (yy > mm)
-    return y * 1
-
-
-def make_heterror(u,v):
-    """
-    make_heterror: transforms constant variance error term into
-                   a heteroskedastic error vector
-                  
-    Arguments:
-    ----------
-    u:   random error vector (constant variance assumed)
-    v:   matching vector of variance multipliers
-         if variance of u is 1, then variance of result with be v
-         
-    Returns:
-    --------
-    hu:   matching vector with heteroskedastic errors
-    
-    """
-    n0 = u.shape[0]
-    n1 = v.shape[0]
-    if n0 != n1:
-        print("Error: incompatible vector dimensions")
-        return None
-    # multiply error with square root of variance multiplier v
-    sev = np.sqrt(v)
-    hu = u * sev
-    return hu
-
-def make_vmult(n,method="linear",vlow=[1],vup=[4],rng=None):
-    
-    """
-    make_vmult : helper function to create variance multiplier
-                 for use in heteroskedastic errors (dgp_heterror)
-                 
-    Arguments:
-    ----------
-    n:        number of observations
-    method:   type of multiplier             
-                 linear:  linear interpolation between vlow and vup
-                 group: groupwise heteroskedasticity of vup by group vlow
-                 uniform: uniform random number between vlow and vup
-    vlow:     list with lower variance multiplier (default=1) or group indicators
-                 group indicators give number of elements in each group, must add up to n       
-    vup:      list with upper variance multiplier (default=4) or group variance multipliers
-                 list of group variance multipliers must match length of vlow
-    rng:      random number object (required for method=uniform, otherwise None)
-    
-    Returns:
-    --------
-    v:        nx1 vector with variance multipliers
-
-    """
-    v = np.ones((n,1))
-    if method == "uniform":
-        if not(rng == None):
-            v = rng.uniform(low=vlow[0],high=vup[0],size=n)
-            v = v.reshape(-1,1)
-        else:
-            print("Error: Missing random number object")
-            return None
-    elif method == "linear":
-        vlo = vlow[0]
-        slop = (vup[0] - vlow[0])/(n-1)
-        for i in range(n):
-            v[i,0] = vlo + slop*i
-    elif method == "group":
-        if len(vup) == len(vlow) and sum(vlow) == n:
-            h = [[i]*j for i,j in zip(vup,vlow)]    # one sublist for each group
-            # flatten list and convert to numpy array
-            hh = []
-            for ii in h:
-                hh += ii
-            v = np.array(hh)
-            v = v.reshape(-1,1)    
-        else:
-            print("Error: Incompatible dimensions")
-            v = None
-    else:
-        print('Error: Unsupported method')
-        v = None
-    return v
-
-def _test():
-    import doctest
-
-    start_suppress = np.get_printoptions()["suppress"]
-    np.set_printoptions(suppress=True)
-    doctest.testmod()
-    np.set_printoptions(suppress=start_suppress)
-
-if __name__ == "__main__":
-    _test()
+"""
+Generating spatial models for specific DGP
+
+"""
+
+__author__ = "Luc Anselin lanselin@gmail.com,\
+     Pedro Amaral pedrovma@gmail.com,\
+     Renan Serenini renan.serenini@uniroma1.it"
+
+import numpy as np
+import math
+import libpysal
+from scipy.linalg import expm
+from .utils import inverse_prod
+
+
+__all__ = [
+    "make_error",
+    "make_x",
+    "make_wx",
+    "make_xb",
+    "make_wxg",
+    "dgp_errproc",
+    "dgp_ols",
+    "dgp_slx",
+    "dgp_sperror",
+    "dgp_slxerror",
+    "dgp_lag",
+    "dgp_spdurbin",
+    "dgp_lagerr",
+    "dgp_gns",
+    "dgp_mess",
+    "dgp_probit",
+    "make_bin",
+    "make_heterror",
+    "make_vmult"
+]
+    
+    
+def make_error(rng,n,mu=0,varu=1,method='normal'):
+    """
+    make_error: generate error term for a given distribution
+    
+    Arguments:
+    ----------
+    rng:      random number object
+    n:        number of observations
+    mu:       mean (when needed)
+    varu:     variance (when needed)
+    method:   type of distribution, one of
+              normal, laplace, cauchy, lognormal
+    
+    Returns:
+    --------
+    u:        nx1 vector of random errors
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> from spreg import make_error
+    >>> rng = np.random.default_rng(12345)
+    >>> make_error(rng,5)
+    array([[-1.42382504],
+           [ 1.26372846],
+           [-0.87066174],
+           [-0.25917323],
+           [-0.07534331]])
+
+    """
+    # normal - standard normal is default
+    if method == 'normal':
+        sdu = math.sqrt(varu)
+        u = rng.normal(loc=mu,scale=sdu,size=n).reshape(n,1)
+    # laplace with thicker tails
+    elif method == 'laplace':
+        sdu = math.sqrt(varu/2.0)
+        u = rng.laplace(loc=mu,scale=sdu,size=n).reshape(n,1)
+    # cauchy, ill-behaved, no mean or variance defined
+    elif method == 'cauchy':
+        u = rng.standard_cauchy(size=n).reshape(n,1)
+    elif method == 'lognormal':
+        sdu = math.sqrt(varu)
+        u = rng.lognormal(mean=mu,sigma=sdu,size=n).reshape(n,1)
+    # all other yield warning
+    else:
+        print('Warning: Unsupported distribution')
+        u = None
+    return u
+
+def make_x(rng,n,mu=[0],varu=[1],cor=0,method='uniform'):
+    """
+    make_x: generate a matrix of k columns of x for a given distribution  
+    
+    Arguments:
+    ----------
+    rng:      random number object
+    n:        number of observations
+    mu:       mean as a list
+    varu:     variance as a list
+    cor:      correlation as a float (for bivariate normal only)
+    method:   type of distribution, one of
+              uniform, normal, bivnormal (bivariate normal)
+    
+    Returns:
+    --------
+    x:        nxk matrix of x variables
+    
+    Note:
+    -----
+    Uniform and normal generate separate draws, bivariate normal generates
+    correlated draws
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> from spreg import make_x
+    >>> rng = np.random.default_rng(12345)
+    >>> make_x(rng,5,mu=[0,1],varu=[1,4])
+    array([[0.78751508, 2.30580253],
+           [1.09728308, 4.14520464],
+           [2.76215497, 1.29373239],
+           [2.3426149 , 4.6609906 ],
+           [1.35484323, 6.52500165]])
+
+    """
+    # check on k dimension
+    k = len(mu)
+    if k == len(varu):
+        # initialize
+        x = np.zeros((n,k))
+        for i in range(k):
+            # uniform - range is derived from variance since var = (1/12)range^2
+            # range is found as square root of 12 times variance
+            # for 0-1, varu should be 0.0833333
+            # low is always 0
+            if method == 'uniform':
+                sdu = math.sqrt(12.0*varu[i])
+                x[:,i] = rng.uniform(low=0,high=sdu,size=n)
+            # normal - independent normal draws
+            elif method == 'normal':
+                sdu = math.sqrt(varu[i])
+                x[:,i] = rng.normal(loc=mu[i],scale=sdu,size=n)
+            # bivariate normal - only for k=2
+            elif method == 'bivnormal':
+                if k != 2:
+                    print('Error: Wrong dimension for k')
+                    x = None
+                    return x
+                else:
+                    ucov = cor* math.sqrt(varu[0]*varu[1])
+                    mcov = [[varu[0],ucov],[ucov,varu[1]]]
+                    x = rng.multivariate_normal(mean=mu,cov=mcov,size=n)
+                    return x
+            else:
+                print('Warning: Unsupported distribution')
+                x = None
+    else:
+        x = None
+    return x
+
+def make_wx(x,w,o=1):
+    """
+    make_wx: generate a matrix spatially lagged x given matrix x  
+    
+             x must be previously generated using make_x, no constant included
+    
+    Arguments:
+    ----------
+    x:        x matrix - no constant
+    w:        row-standardized spatial weights in spreg format
+    o:        order of contiguity, default o=1
+    
+    Returns:
+    --------
+    wx:       nx(kxo) matrix of spatially lagged x variables
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_wx
+    >>> rng = np.random.default_rng(12345)
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> make_wx(x,w)[0:5,:]
+    array([[1.12509217],
+           [1.87409079],
+           [1.36225472],
+           [2.1491645 ],
+           [2.80255786]])
+
+    """
+    if w.n != x.shape[0]:
+        print("Error: incompatible weights dimensions")
+        return None
+    w1x = libpysal.weights.lag_spatial(w,x)
+    wx = w1x
+    if o > 1:
+        for i in range(1,o):
+            whx = libpysal.weights.lag_spatial(w,w1x)
+            w1x = whx
+            wx = np.hstack((wx,whx))
+    return wx
+        
+
+def make_xb(x,beta):
+    """
+    make_xb: generate a column xb as matrix x (constant added)  
+             times list beta (includes coefficient for constant term)
+    
+    Arguments:
+    ----------
+    x:        n x (k-1) matrix for x variables
+    beta:     k length list of regression coefficients
+    
+    Returns:
+    --------
+    xb:        nx1 vector of x times beta
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> from spreg import make_x, make_xb
+    >>> rng = np.random.default_rng(12345)
+    >>> x = make_x(rng,5,mu=[0,1],varu=[1,4])
+    >>> make_xb(x,[1,2,3])
+    array([[ 9.49243776],
+           [15.63018007],
+           [10.4055071 ],
+           [19.66820159],
+           [23.28469141]])
+    """
+    n = x.shape[0]
+    k = x.shape[1]
+    if k+1 != len(beta):
+        print("Error: Incompatible dimensions")
+        return None
+    else:
+        b = np.array(beta)[:,np.newaxis]
+        x1=np.hstack((np.ones((n,1)),x)) # include constant
+        xb = np.dot(x1,b)
+        return xb
+    
+def make_wxg(wx,gamma):
+    """
+    make_wxg: generate a column wxg as matrix wx (no constant)  
+             times list gamma (coefficient of spatially lagged x)
+    
+    Arguments:
+    ----------
+    wx:       n x ((k-1)xo) matrix for spatially lagged x variables of all orders
+    gamma:    (k-1)*o length list of regression coefficients for spatially lagged x
+    
+    Returns:
+    --------
+    wxg:      nx1 vector of wx times gamma
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_wx, make_wxg
+    >>> rng = np.random.default_rng(12345)
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> wx = make_wx(x,w)
+    >>> print(wx.shape)
+    (25, 1)
+    >>> make_wxg(wx,[2,4])[0:5,:]
+    array([[ 2.25018434,  4.50036868],
+           [ 3.74818158,  7.49636316],
+           [ 2.72450944,  5.44901889],
+           [ 4.298329  ,  8.59665799],
+           [ 5.60511572, 11.21023145]])
+
+    """
+    k = wx.shape[1]
+    if (k > 1): 
+        if k != len(gamma):
+            print("Error: Incompatible dimensions")
+            return None
+        else:
+            g = np.array(gamma)[:,np.newaxis]
+            wxg = np.dot(wx,g)
+    else:  # gamma is a scalar
+        wxg = wx * gamma
+    return wxg
+
+def dgp_errproc(u,w,lam=0.5,model='sar',imethod='power_exp'):
+    """
+    dgp_errproc: generates pure spatial error process
+
+    Arguments:
+    ----------
+    u:      random error vector
+    w:      spatial weights object
+    lam:    spatial autoregressive parameter
+    model:  type of process ('sar' or 'ma')
+    imethod: method for inverse transformation, default = 'power_exp'
+
+    Returns:
+    --------
+    y : vector of observations following a spatial AR or MA process
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, dgp_errproc
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> dgp_errproc(u,w)[0:5,:]
+    array([[-1.43760658],
+           [ 0.69778271],
+           [-0.7750646 ],
+           [-0.47750452],
+           [-0.72377417]])
+
+    """
+    n0 = u.shape[0]
+    if w.n != n0:
+        print("Error: incompatible weights dimensions")
+        return None
+    if model == 'sar':
+        y = inverse_prod(w,u,lam,inv_method=imethod)
+    elif model == 'ma':
+        y = u + lam * libpysal.weights.lag_spatial(w,u)
+    else:
+        print("Error: unsupported model type")
+        return None
+    return y
+    
+
+def dgp_ols(u,xb):
+    """
+    dgp_ols: generates y for non-spatial process with given xb and error term u
+    
+    Arguments:
+    ----------
+    u:      random error vector
+    xb:     vector of xb
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, dgp_ols
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> dgp_ols(u,xb)[0:5,:]
+    array([[5.22803968],
+           [3.60291127],
+           [1.02632633],
+           [1.37589879],
+           [5.07165754]])
+
+    """
+    n1 = u.shape[0]
+    n2 = xb.shape[0]  
+    if n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    y = xb + u
+    return y
+
+def dgp_slx(u,xb,wxg,ybin=False):
+    """
+    dgp_slx: generates y for SLX with given xb, wxg, and error term u
+    
+    Arguments:
+    ----------
+    u:      random error vector
+    xb:     vector of xb
+    wxg:    vector of wxg
+    ybin:   flag for binary dependent variable, default = False
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_slx
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> wx = make_wx(x,w)
+    >>> wxg = make_wxg(wx,[2])
+    >>> dgp_slx(u, xb, wxg)[0:5,:]
+    array([[8.85854389],
+           [7.17524694],
+           [3.83674621],
+           [4.73103929],
+           [8.37023076]])
+    """
+    n0 = u.shape[0]
+    n1 = xb.shape[0]  
+    n2 = wxg.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None
+    elif n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    y = xb + wxg + u
+    if ybin:     # probit case, turn into 0-1
+        y = make_bin(y)
+    return y    
+    
+def dgp_sperror(u,xb,w,lam=0.5,model='sar',imethod='power_exp',ybin=False):
+    """
+    dgp_sperror: generates y for spatial error model with given xb, weights,
+                  spatial parameter lam, error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    w:       spatial weights
+    lam:     spatial coefficient
+    model:   type of process ('sar' or 'ma')
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, dgp_sperror
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> dgp_sperror(u, xb, w)[0:5,:]
+    array([[5.21425813],
+           [3.03696553],
+           [1.12192347],
+           [1.15756751],
+           [4.42322667]])
+    """
+    n0 = u.shape[0]
+    n1 = xb.shape[0]
+    if n0 != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    elif w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    if model == 'sar':
+        u1 = inverse_prod(w,u,lam,inv_method=imethod)
+    elif model == 'ma':
+        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
+    else:
+        print("Error: unsupported model type")
+        return None
+    y = xb + u1
+    if ybin:
+        y = make_bin(y)
+    return y
+
+def dgp_slxerror(u,xb,wxg,w,lam=0.5,model='sar',imethod='power_exp',ybin=False):
+    """
+    dgp_slxerror: generates y for SLX spatial error model with xb, wxg, weights,
+                  spatial parameter lam, model type (sar or ma),
+                  error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    wxg:     vector of wxg
+    w:       spatial weights
+    lam:     spatial coefficient
+    model:   type of process ('sar' or 'ma')
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary 0-1 dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_slxerror
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> wx = make_wx(x,w)
+    >>> wxg = make_wxg(wx,[2])
+    >>> dgp_slxerror(u,xb,wxg,w)[0:5,:]
+    array([[8.84476235],
+           [6.6093012 ],
+           [3.93234334],
+           [4.51270801],
+           [7.7217999 ]])
+   """
+    
+    n0 = u.shape[0]
+    n1 = xb.shape[0]  
+    n2 = wxg.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None
+    elif n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    if model == 'sar':
+        u1 = inverse_prod(w,u,lam,inv_method=imethod)
+    elif model == 'ma':
+        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
+    else:
+        print("Error: unsupported model type")
+        return None  
+    y = xb + wxg + u1
+    if ybin:
+        y = make_bin(y)
+    return y
+    
+def dgp_lag(u,xb,w,rho=0.5,imethod='power_exp',ybin=False):
+    """
+    dgp_lag:      generates y for spatial lag model with xb, weights,
+                  spatial parameter rho,
+                  error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    w:       spatial weights
+    rho:     spatial coefficient
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, dgp_lag
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> dgp_lag(u, xb, w)[0:5,:]
+    array([[10.16582326],
+           [ 7.75359864],
+           [ 5.39821733],
+           [ 5.62244672],
+           [ 8.868168  ]])
+   """    
+    n0 = u.shape[0]
+    n1 = xb.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    y1 = xb + u
+    y = inverse_prod(w,y1,rho,inv_method=imethod)
+    if ybin:
+        y = make_bin(y)
+    return y
+    
+def dgp_spdurbin(u,xb,wxg,w,rho=0.5,imethod='power_exp',ybin=False):
+    """
+    dgp_spdurbin: generates y for spatial Durbin model with xb, wxg, weights,
+                  spatial parameter rho,
+                  error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    wxg:     vector of wxg
+    w:       spatial weights
+    rho:     spatial coefficient
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary 0-1 dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_spdurbin
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> wx = make_wx(x,w)
+    >>> wxg = make_wxg(wx,[2])
+    >>> dgp_spdurbin(u,xb,wxg,w)[0:5,:]
+    array([[18.06895353],
+           [15.18686487],
+           [11.95080505],
+           [12.55220513],
+           [15.75805066]])
+   """        
+    n0 = u.shape[0]
+    n1 = xb.shape[0]  
+    n2 = wxg.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None
+    elif n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    y1 = xb + wxg + u
+    y = inverse_prod(w,y1,rho,inv_method=imethod)
+    if ybin:
+        y = make_bin(y)
+    return y
+    
+def dgp_lagerr(u,xb,w,rho=0.5,lam=0.2,model='sar',imethod='power_exp',ybin=False):
+    """
+    dgp_lagerr:   generates y for spatial lag model with sar or ma errors
+                  with xb, weights,
+                  spatial parameter rho, spatial parameter lambda,
+                  model for spatial process,
+                  error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    w:       spatial weights
+    rho:     spatial coefficient for lag
+    lam:     spatial coefficient for error
+    model:   spatial process for error
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary 0-1 dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, dgp_lagerr
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> dgp_lagerr(u, xb, w)[0:5,:]
+    array([[10.13845523],
+           [ 7.53009531],
+           [ 5.40644034],
+           [ 5.51132886],
+           [ 8.58872366]])
+   """            
+    n0 = u.shape[0]
+    n1 = xb.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    if model == 'sar':
+        u1 = inverse_prod(w,u,lam,inv_method=imethod)
+    elif model == 'ma':
+        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
+    else:
+        print("Error: unsupported model type")
+        return None
+    y1 = xb + u1
+    y = inverse_prod(w,y1,rho,inv_method=imethod)
+    if ybin:
+        y = make_bin(y)
+    return y
+    
+def dgp_gns(u,xb,wxg,w,rho=0.5,lam=0.2,model='sar',imethod='power_exp',ybin=False):
+    """
+    dgp_gns:      generates y for general nested model with sar or ma errors
+                  with xb, wxg, weights,
+                  spatial parameter rho, spatial parameter lambda,
+                  model for spatial process,
+                  error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    wxg:     vector of wxg
+    w:       spatial weights
+    rho:     spatial coefficient for lag
+    lam:     spatial coefficient for error
+    model:   spatial process for error
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary 0-1 dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_gns
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> wx = make_wx(x,w)
+    >>> wxg = make_wxg(wx,[2])
+    >>> dgp_gns(u,xb,wxg,w)[0:5,:]
+    array([[18.04158549],
+           [14.96336153],
+           [11.95902806],
+           [12.44108728],
+           [15.47860632]])
+   """            
+    n0 = u.shape[0]
+    n1 = xb.shape[0]  
+    n2 = wxg.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None       
+    elif n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    if model == 'sar':
+        u1 = inverse_prod(w,u,lam,inv_method=imethod)
+    elif model == 'ma':
+        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
+    else:
+        print("Error: unsupported model type")
+        return None
+    y1 = xb + wxg + u1
+    y = inverse_prod(w,y1,rho,inv_method=imethod)
+    if ybin:
+        y = make_bin(y)
+    return y
+    
+def dgp_mess(u,xb,w,rho=0.5):
+    """
+    dgp_mess:     generates y for MESS spatial lag model with xb, weights,
+                  spatial parameter rho (gets converted into alpha),
+                  sigma/method for the error term
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    w:       spatial weights
+    rho:     spatial coefficient (converted into alpha)
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, dgp_mess
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> dgp_mess(u, xb, w)[0:5,:]
+    array([[10.12104421],
+           [ 7.45561055],
+           [ 5.32807674],
+           [ 5.55549492],
+           [ 8.62685145]])
+   """        
+    n0 = u.shape[0]
+    n1 = xb.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None    
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    bigw = libpysal.weights.full(w)[0]
+    alpha=np.log(1-rho) #convert between rho and alpha
+    aw=-alpha*bigw      # inverse exponential is -alpha
+    xbu = xb + u
+    y = np.dot(expm(aw),xbu)
+    return y
+
+def dgp_probit(u,xb):
+    """
+    dgp_probit: generates y for non-spatial probit process with given xb
+                and error u
+                y is taken when linear model prediction > its mean
+    
+    Arguments:
+    ----------
+    u:      random error vector
+    xb:     vector of xb
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, dgp_probit
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> dgp_probit(u,xb)[0:5,:]
+    array([[1],
+           [0],
+           [0],
+           [0],
+           [1]])
+
+    """
+    n1 = u.shape[0]
+    n2 = xb.shape[0]  
+    if n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    yy = xb + u
+    mm = yy.mean()
+    y = (yy > mm) * 1
+    return y
+
+def make_bin(yy):
+    """
+    make_bin:   generates y as 0-1 variable for y > mean of y,
+                i.e., for discrete dependent variables
+    
+    Arguments:
+    ----------
+    yy:      initial dependent variable vector
+    
+    Returns:
+    ----------
+    y: vector of 0-1 observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, dgp_ols, make_bin
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> yy = dgp_ols(u,xb)
+    >>> make_bin(yy)[0:5,:]
+    array([[1],
+           [0],
+           [0],
+           [0],
+           [1]])
+
+    """
+    mm = yy.mean()
+    y = (yy > mm)
+    return y * 1
+
+
+def make_heterror(u,v):
+    """
+    make_heterror: transforms constant variance error term into
+                   a heteroskedastic error vector
+                  
+    Arguments:
+    ----------
+    u:   random error vector (constant variance assumed)
+    v:   matching vector of variance multipliers
+         if variance of u is 1, then variance of result with be v
+         
+    Returns:
+    --------
+    hu:   matching vector with heteroskedastic errors
+    
+    """
+    n0 = u.shape[0]
+    n1 = v.shape[0]
+    if n0 != n1:
+        print("Error: incompatible vector dimensions")
+        return None
+    # multiply error with square root of variance multiplier v
+    sev = np.sqrt(v)
+    hu = u * sev
+    return hu
+
+def make_vmult(n,method="linear",vlow=[1],vup=[4],rng=None):
+    
+    """
+    make_vmult : helper function to create variance multiplier
+                 for use in heteroskedastic errors (dgp_heterror)
+                 
+    Arguments:
+    ----------
+    n:        number of observations
+    method:   type of multiplier             
+                 linear:  linear interpolation between vlow and vup
+                 group: groupwise heteroskedasticity of vup by group vlow
+                 uniform: uniform random number between vlow and vup
+    vlow:     list with lower variance multiplier (default=1) or group indicators
+                 group indicators give number of elements in each group, must add up to n       
+    vup:      list with upper variance multiplier (default=4) or group variance multipliers
+                 list of group variance multipliers must match length of vlow
+    rng:      random number object (required for method=uniform, otherwise None)
+    
+    Returns:
+    --------
+    v:        nx1 vector with variance multipliers
+
+    """
+    v = np.ones((n,1))
+    if method == "uniform":
+        if not(rng == None):
+            v = rng.uniform(low=vlow[0],high=vup[0],size=n)
+            v = v.reshape(-1,1)
+        else:
+            print("Error: Missing random number object")
+            return None
+    elif method == "linear":
+        vlo = vlow[0]
+        slop = (vup[0] - vlow[0])/(n-1)
+        for i in range(n):
+            v[i,0] = vlo + slop*i
+    elif method == "group":
+        if len(vup) == len(vlow) and sum(vlow) == n:
+            h = [[i]*j for i,j in zip(vup,vlow)]    # one sublist for each group
+            # flatten list and convert to numpy array
+            hh = []
+            for ii in h:
+                hh += ii
+            v = np.array(hh)
+            v = v.reshape(-1,1)    
+        else:
+            print("Error: Incompatible dimensions")
+            v = None
+    else:
+        print('Error: Unsupported method')
+        v = None
+    return v
+
+def _test():
+    import doctest
+
+    start_suppress = np.get_printoptions()["suppress"]
+    np.set_printoptions(suppress=True)
+    doctest.testmod()
+    np.set_printoptions(suppress=start_suppress)
+
+if __name__ == "__main__":
+    _test()
     
\ No newline at end of file
-- 
2.43.0


From b8f8a22f5047741d3266bc678ac614eb25e7c471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:09 +0000
Subject: [PATCH 48/68] fix: make_wnslx lost rows and columns of points that
 are nobody's neighbor

---
 spreg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index e486dcf..57a8837 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -964,7 +964,7 @@ def make_wnslx(coords,params,leafsize=30,distance_metric='Euclidean'):
         colids = nbrs[pickgd].flatten()
         fdis = fdis[pickgd].flatten()
     
-    spdis = coo_array((fdis,(rowids,colids)))
+    spdis = coo_array((fdis,(rowids,colids)),shape=(n,n))
     spdis = spdis.tocsr(copy=True)
     
     return spdis
-- 
2.43.0


From 20da4dceda5b93f9e2d2698a1b873c8abac0fc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:29 +0000
Subject: [PATCH 49/68] fix: NSLX gave the lag the name of its variable when
 one of several transformations was selected

---
 spreg/nslx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/nslx.py b/spreg/nslx.py
index b2aa5d7..6e1f2f1 100755
--- a/spreg/nslx.py
+++ b/spreg/nslx.py
@@ -349,7 +349,7 @@ class NSLX(BaseNSLX):
         if g == 1:
             cp = transform[0][0]
             xw_name = [ "W"+ cp + "_"+ i for i in xw_name]
-        elif len(transform) > 1:
+        else:
             if len(transform) != len(xw_name):
                 raise Exception("Dimension mismatch")
             else:
-- 
2.43.0


From 1b05879ac4c3cac855940e96c82726db780cc265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:29 +0000
Subject: [PATCH 50/68] fix: the variance of NSLX decay parameters was nan for
 the power transformation

---
 spreg/nslx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spreg/nslx.py b/spreg/nslx.py
index 6e1f2f1..9592f3f 100755
--- a/spreg/nslx.py
+++ b/spreg/nslx.py
@@ -541,6 +541,7 @@ def _nltransform(a,w,transform,gradflag=0):
         elif gradflag == 1:
             walpha = walpha.power(a)
             ww = w.copy()
+            ww.data[ww.data == 0] = 1.0  # zero weights have a zero gradient
             np.log(ww.data, out = ww.data)
             wgrad = walpha.multiply(ww)
             walpha = wgrad
-- 
2.43.0


From 4bd6b3a701c2fb3bb79ba9c14e72bca58de7e7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:23 +0000
Subject: [PATCH 51/68] fix: keep the covariance of separately fitted regimes
 when spatial diagnostics are requested

---
 spreg/ols_regimes.py    | 3 ++-
 spreg/twosls_regimes.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 4ebfd1b..6cd91c2 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -682,7 +682,8 @@ class OLS_Regimes(BaseOLS, REGI.Regimes_Frame, RegressionPropsY):
 
     def _get_spat_diag_props(self, x, sig2n_k):
         self.k = self.kr
-        self._cache = {}
+        # the covariance of the separate fits lives in the cache
+        self._cache = {"vm": self.vm}
         self.x = REGI.regimeX_setup(
             x, self.regimes, [True] * x.shape[1], self.regimes_set
         )
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 99eff98..b185c42 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -629,7 +629,8 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
             output(reg=self, vm=vm, robust=robust, other_end=diag_out, latex=latex)
 
     def _get_spat_diag_props(self, results, regi_ids, x, yend, q):
-        self._cache = {}
+        # the covariance of the separate fits lives in the cache
+        self._cache = {"vm": self.vm}
         x = REGI.regimeX_setup(x, self.regimes, [True] * x.shape[1], self.regimes_set)
         self.z = sphstack(
             x,
-- 
2.43.0


From bb3a60e2a30ac2afd68c130539ee600d84be3e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:38 +0000
Subject: [PATCH 52/68] fix: spatial pseudo R2 of a lag model with one rho per
 regime ignored all but the last rho

---
 spreg/output.py            | 3 ++-
 spreg/twosls_sp_regimes.py | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/spreg/output.py b/spreg/output.py
index 5d75f61..5eb2eca 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -530,7 +530,8 @@ def _nonspat_mid(reg, white_test=False):
     return strSummary
 
 def _spat_pseudo_r2(reg):
-    if np.abs(reg.rho) < 1:
+    # a lag model with one rho per regime reports the last one
+    if np.abs(reg.rho) < 1 and not getattr(reg, "_rho_outside", False):
         reg.pr2_e = diagnostics_tsls.pr2_spatial(reg)
         strSummary = "%-20s:  %5.4f\n" % ("Spatial Pseudo R-squared", reg.pr2_e)
     else:
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index f1d477d..ecbe4ad 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -879,6 +879,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
         predy_e_r, e_pred_r = {}, {}
         self.predy_e = np.zeros((self.n, 1), float)
         self.e_pred = np.zeros((self.n, 1), float)
+        self._rho_outside = False
         counter = 1
         for r in self.regimes_set:
             self.rho = self.betas[
@@ -895,6 +896,9 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                 wy[regi_ids[r]],
                 self.rho,
             )
+            if warn and not self._rho_outside:
+                self._rho_outside = True
+                set_warn(self, warn)
             counter += 1
 
     def _get_spat_diag_props(self, y, x, w, yend, q, w_lags, lag_q):
-- 
2.43.0


From 43416354bad5367fd93927e73ac1c20299d48504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:43 +0000
Subject: [PATCH 53/68] fix: regimes= in the base classes dropped slx_vars

---
 spreg/error_sp.py    | 4 +++-
 spreg/ml_error.py    | 1 +
 spreg/ml_lag.py      | 1 +
 spreg/ols.py         | 1 +
 spreg/twosls.py      | 1 +
 spreg/twosls_sp.py   | 1 +
 spreg/user_output.py | 2 +-
 7 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/spreg/error_sp.py b/spreg/error_sp.py
index f565127..08bf814 100644
--- a/spreg/error_sp.py
+++ b/spreg/error_sp.py
@@ -1315,6 +1315,8 @@ class GMM_Error(GM_Error, GM_Endog_Error, GM_Combo, GM_Error_Het, GM_Endog_Error
         if regimes is not None:
             from .error_sp_regimes import GMM_Error_Regimes
             self.__class__ = GMM_Error_Regimes
+            if isinstance(slx_vars, list):
+                kwargs['slx_vars'] = slx_vars
             self.__init__(
                 y=y, x=x, regimes=regimes, w=w, yend=yend, q=q, estimator=estimator, add_wy=add_wy, 
                 slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x, name_w=name_w, name_yend=name_yend,
@@ -1364,7 +1366,7 @@ class GMM_Error(GM_Error, GM_Endog_Error, GM_Combo, GM_Error_Het, GM_Endog_Error
                                         name_w=name_w, name_ds=name_ds, latex=latex, hard_bound=hard_bound)
             else:
                 set_warn(self, 'Combination of arguments passed to GMM_Error not allowed. Using default arguments instead.')
-                GM_Error_Het.__init__(self, y=y, x=x, w=w, slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x, 
+                GM_Error_Het.__init__(self, y=y, x=x, w=w, slx_lags=slx_lags, slx_vars=slx_vars, vm=vm, name_y=name_y, name_x=name_x, 
                                         name_w=name_w, name_ds=name_ds, latex=latex, hard_bound=hard_bound)
 
 
diff --git a/spreg/ml_error.py b/spreg/ml_error.py
index fe55745..a4ae41d 100755
--- a/spreg/ml_error.py
+++ b/spreg/ml_error.py
@@ -499,6 +499,7 @@ class ML_Error(BaseML_Error):
                 regimes=regimes,
                 w=w,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 method=method,
                 epsilon=epsilon,
                 vm=vm,
diff --git a/spreg/ml_lag.py b/spreg/ml_lag.py
index 254226a..2e073b8 100755
--- a/spreg/ml_lag.py
+++ b/spreg/ml_lag.py
@@ -626,6 +626,7 @@ class ML_Lag(BaseML_Lag):
                 regimes=regimes,
                 w=w,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 method=method,
                 epsilon=epsilon,
                 spat_impacts=spat_impacts,
diff --git a/spreg/ols.py b/spreg/ols.py
index 9b1da1d..a4b411f 100755
--- a/spreg/ols.py
+++ b/spreg/ols.py
@@ -474,6 +474,7 @@ class OLS(BaseOLS):
                 robust=robust,
                 gwk=gwk,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 sig2n_k=sig2n_k,
                 nonspat_diag=nonspat_diag,
                 spat_diag=spat_diag,
diff --git a/spreg/twosls.py b/spreg/twosls.py
index 0c59bb6..5b07aba 100644
--- a/spreg/twosls.py
+++ b/spreg/twosls.py
@@ -492,6 +492,7 @@ class TSLS(BaseTSLS):
                 robust=robust,
                 gwk=gwk,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 sig2n_k=sig2n_k,
                 spat_diag=spat_diag,
                 vm=vm,
diff --git a/spreg/twosls_sp.py b/spreg/twosls_sp.py
index 5fb549a..b9a337c 100755
--- a/spreg/twosls_sp.py
+++ b/spreg/twosls_sp.py
@@ -548,6 +548,7 @@ class GM_Lag(BaseGM_Lag):
                 w=w,
                 w_lags=w_lags,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 lag_q=lag_q,
                 robust=robust,
                 gwk=gwk,
diff --git a/spreg/user_output.py b/spreg/user_output.py
index 097dace..ec0dc5d 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -178,7 +178,7 @@ def set_name_spatial_lags(names, w_lags, slx_vars="all", additional=0):
     lag_names2 : string, only returned if additional > 0
 
     """
-    if slx_vars != "all":
+    if not isinstance(slx_vars, str):
         names = list(compress(names,slx_vars))
     lag_names = ["W_" + s for s in names]
     n_i = 1
-- 
2.43.0


From 1e4899939fbad1a0bf080e9bfd36b55af1006b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:46 +0000
Subject: [PATCH 54/68] fix: wide panels with rows that do not match w, or
 columns that do not match T, are refused

---
 spreg/panel_utils.py | 4 ++++
 spreg/sp_panels.py   | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index d91d12d..9e1035e 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -80,6 +80,10 @@ def check_panel(y, x, w, name_y, name_x):
         raise Exception("y must be ntx1 or nxt, and w must be an nxn PySAL W" "object.")
     # Wide format
     if y.shape[1] > 1:
+        if y.shape[0] != w.n or x.shape[1] % y.shape[1]:
+            raise Exception(
+                "In wide format, y must be nxt and x must be nxkt, with w an nxn PySAL W object."
+            )
         warn = (
             "Assuming panel is in wide format.\n"
             "y[:, 0] refers to T0, y[:, 1] refers to T1, etc.\n"
diff --git a/spreg/sp_panels.py b/spreg/sp_panels.py
index 7a27a5e..1989b5e 100755
--- a/spreg/sp_panels.py
+++ b/spreg/sp_panels.py
@@ -522,6 +522,8 @@ def _get_panel_data(y, x, w, name_y, name_x):
             "X must have either n rows and k*t columns or n*t rows and k columns."
         )
     if y.shape[1] > 1:
+        if y.shape[0] != w.n:
+            raise Exception("In wide format, y must be nxt and w must be an nxn PySAL W object.")
         message = (
             "Assuming time data is in wide format, i.e. y[0] refers to T0, y[1], refers to T1, etc."
             "\n Similarly, assuming x[0:k] refers to independent variables for T0, x[k+1:2k] refers to T1, etc."
-- 
2.43.0


From 494f7d06d62eac571750c198828898e46b244b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:46 +0000
Subject: [PATCH 55/68] fix: check_endog reshaped the caller's arrays and
 SURlagIV extended the caller's name_bigq

---
 spreg/sur_lag.py     | 9 +++++----
 spreg/user_output.py | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index b225d6c..5ac7960 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -12,7 +12,7 @@ from . import user_output as USER
 from . import regimes as REGI
 from .sur import BaseThreeSLS
 from .diagnostics_sur import sur_setp, sur_chow, sur_joinrho
-from .sur_utils import check_k, sur_dictxy, sur_dictZ
+from .sur_utils import check_k, check_sur, sur_dictxy, sur_dictZ
 from .sputils import sphstack
 
 __all__ = ["SURlagIV"]
@@ -247,6 +247,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
 
         self.name_ds = USER.set_name_ds(name_ds)
         self.n_eq = len(bigy.keys())
+        check_sur(bigy, bigX, bigyend, bigq)
         # the dictionaries given are not changed
         bigX = dict(bigX)
         bigyend = dict(bigyend) if bigyend is not None else None
@@ -359,9 +360,9 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                     )
         else:
             self.name_bigX, self.name_bigq, self.name_bigyend = (
-                name_bigX,
-                name_bigq,
-                name_bigyend,
+                dict(name_bigX),
+                dict(name_bigq),
+                dict(name_bigyend),
             )
 
         # spatial lag dependent variable fixed across regimes or no regimes
diff --git a/spreg/user_output.py b/spreg/user_output.py
index ec0dc5d..6d25eb6 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -542,7 +542,7 @@ def check_endog(arrays, names):
         if arrays[i] is None:
             pass
         elif len(arrays[i].shape) == 1:
-            arrays[i].shape = (arrays[i].shape[0], 1)
+            arrays[i] = arrays[i].reshape(-1, 1)
         check_numeric_bool(arrays[i])
     return (*arrays, *names)
 
-- 
2.43.0


From 6ae38094af79e482ed79970319242c66e22c9757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:46 +0000
Subject: [PATCH 56/68] fix: systems of equations accepted missing and infinite
 values

---
 spreg/sur.py       |  3 +++
 spreg/sur_error.py |  3 +++
 spreg/sur_utils.py | 18 ++++++++++++++++++
 3 files changed, 24 insertions(+)

diff --git a/spreg/sur.py b/spreg/sur.py
index d034f9f..827c40f 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -12,6 +12,7 @@ from . import summary_output as SUMMARY
 from . import user_output as USER
 from . import regimes as REGI
 from .sur_utils import (
+    check_sur,
     sur_dictxy,
     sur_dictZ,
     sur_corr,
@@ -430,6 +431,7 @@ class SUR(BaseSUR, REGI.Regimes_Frame):
         self.name_ds = USER.set_name_ds(name_ds)
         self.name_w = USER.set_name_w(name_w, w)
         self.n_eq = len(bigy.keys())
+        check_sur(bigy, bigX)
         # the dictionaries given are not changed
         bigX = dict(bigX)
 
@@ -831,6 +833,7 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
 
         self.name_ds = USER.set_name_ds(name_ds)
         self.n_eq = len(bigy.keys())
+        check_sur(bigy, bigX, bigyend, bigq)
         # the dictionaries given are not changed
         bigX, bigyend, bigq = dict(bigX), dict(bigyend), dict(bigq)
 
diff --git a/spreg/sur_error.py b/spreg/sur_error.py
index 0a0ca5a..c0d4ff1 100644
--- a/spreg/sur_error.py
+++ b/spreg/sur_error.py
@@ -21,6 +21,7 @@ from scipy import sparse as sp
 from .ml_error import err_c_loglik_sp
 from .utils import optim_moments
 from .sur_utils import (
+    check_sur,
     sur_dictxy,
     sur_corr,
     sur_dict2mat,
@@ -332,6 +333,7 @@ class SURerrorGM(BaseSURerrorGM, REGI.Regimes_Frame):
         self.name_w = USER.set_name_w(name_w, w)
         # initialize names - should be generated by sur_stack
         self.n_eq = len(bigy.keys())
+        check_sur(bigy, bigX)
         # the dictionaries given are not changed
         bigX = dict(bigX)
         if name_bigy:
@@ -781,6 +783,7 @@ class SURerrorML(BaseSURerrorML, REGI.Regimes_Frame):
         self.name_ds = USER.set_name_ds(name_ds)
         self.name_w = USER.set_name_w(name_w, w)
         self.n_eq = len(bigy.keys())
+        check_sur(bigy, bigX)
         # the dictionaries given are not changed
         bigX = dict(bigX)
         # initialize names - should be generated by sur_stack
diff --git a/spreg/sur_utils.py b/spreg/sur_utils.py
index 0457234..5f92a0f 100644
--- a/spreg/sur_utils.py
+++ b/spreg/sur_utils.py
@@ -9,6 +9,7 @@ import numpy as np
 import numpy.linalg as la
 import pandas as pd
 from .utils import spdot
+from . import user_output as USER
 
 __all__ = [
     "sur_dictxy",
@@ -21,6 +22,7 @@ __all__ = [
     "sur_resids",
     "filter_dict",
     "check_k",
+    "check_sur",
 ]
 
 
@@ -497,6 +499,22 @@ def filter_dict(lam, bigZ, bigZlag):
     return Zfilt
 
 
+def check_sur(bigy, *bigs):
+    """
+    Check that the arrays of every equation are finite and have the same rows
+
+    Parameters
+    ----------
+    bigy        : dictionary
+                  with the dependent variable by equation
+    bigs        : dictionaries
+                  with further arrays by equation; None is skipped
+
+    """
+    for r in bigy.keys():
+        USER.check_arrays(bigy[r], *[b[r] for b in bigs if b is not None])
+
+
 def check_k(bigK):
     """
     Check on equality of number of variables by equation
-- 
2.43.0


From c02630c191fc0507a6f517e691e50c72bf017445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:03 +0000
Subject: [PATCH 57/68] fix: endogenous regimes printed the error of an
 impossible clustering and failed with UnboundLocalError

---
 spreg/ols_regimes.py       | 2 +-
 spreg/twosls_regimes.py    | 2 +-
 spreg/twosls_sp_regimes.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 6cd91c2..1386f1d 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -1078,7 +1078,7 @@ class OLS_Endog_Regimes(OLS_Regimes):
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
-                    print("An error occurred:", e)
+                    raise
 
         self._trace = sk_reg_results._trace
         self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index b185c42..da03ee5 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -1099,7 +1099,7 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
-                    print("An error occurred:", e)
+                    raise
 
         self._trace = sk_reg_results._trace
         self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index ecbe4ad..6b7b224 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -1347,7 +1347,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
-                    print("An error occurred:", e)
+                    raise
 
         self._trace = sk_reg_results._trace
         self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
-- 
2.43.0


From f637817fa6bbb9d1e1ff1ef16f65666b29ff59eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:03 +0000
Subject: [PATCH 58/68] fix: endogenous regimes with trace=False raised
 AttributeError

---
 spreg/ols_regimes.py       | 8 +++++---
 spreg/twosls_regimes.py    | 8 +++++---
 spreg/twosls_sp_regimes.py | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 1386f1d..ab62fe4 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -1060,6 +1060,7 @@ class OLS_Endog_Regimes(OLS_Regimes):
             quorum = np.max([(x_constant.shape[1]+1)*10, 30])
 
         if not n_clusters:
+            trace = True
             n_clusters_opt = x_constant.shape[0]*0.70//quorum
             if n_clusters_opt < 2:
                 raise ValueError(
@@ -1071,7 +1072,7 @@ class OLS_Endog_Regimes(OLS_Regimes):
         else:
             try:
                 # Call the Skater_reg method based on OLS
-                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseOLS,'y':y,'x':x_constant}, quorum=quorum, trace=trace)
+                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseOLS,'y':y,'x':x_constant}, quorum=quorum, trace=True)
                 self.clusters = sk_reg_results.current_labels_
                 self.score = sk_reg_results._trace[-1][1][2]
             except Exception as e:
@@ -1080,8 +1081,9 @@ class OLS_Endog_Regimes(OLS_Regimes):
                 else:
                     raise
 
-        self._trace = sk_reg_results._trace
-        self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
+        if trace:
+            self._trace = sk_reg_results._trace
+            self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
         OLS_Regimes.__init__(self, y, x_constant, regimes=self.clusters, w=w, name_regimes='Skater_reg', name_y=name_y, name_x=name_x,
                                      constant_regi='many', cols2regi='all', regime_err_sep=True, **kwargs)
 
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index da03ee5..9025493 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -1082,6 +1082,7 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
             quorum = np.max([(x_constant.shape[1]+1)*10, 30])
         
         if not n_clusters:
+            trace = True
             n_clusters_opt = x_constant.shape[0]*0.70//quorum
             if n_clusters_opt < 2:
                 raise ValueError(
@@ -1092,7 +1093,7 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
             self.score = sk_reg_results._trace[n_clusters-1][1][2]
         else:
             try:
-                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseTSLS,'y':y,'x':x_constant,'yend':yend,'q':q}, quorum=quorum, trace=trace)
+                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseTSLS,'y':y,'x':x_constant,'yend':yend,'q':q}, quorum=quorum, trace=True)
                 self.clusters = sk_reg_results.current_labels_
                 self.score = sk_reg_results._trace[-1][1][2]
             except Exception as e:
@@ -1101,8 +1102,9 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
                 else:
                     raise
 
-        self._trace = sk_reg_results._trace
-        self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
+        if trace:
+            self._trace = sk_reg_results._trace
+            self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
         TSLS_Regimes.__init__(self, y, x_constant, yend, q, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_yend=name_yend, 
                               name_q=name_q, name_regimes='Skater_reg', constant_regi='many', cols2regi='all', regime_err_sep=True, **kwargs)
 
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 6b7b224..4939ad4 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -1329,6 +1329,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
             quorum = np.max([(x.shape[1]+1)*10, 30])
         
         if not n_clusters:
+            trace = True
             n_clusters_opt = x_constant.shape[0]*0.70//quorum
             if n_clusters_opt < 2:
                 raise ValueError(
@@ -1340,7 +1341,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
         else:
             try:
                 # Call the Skater_reg method based on GM_Lag
-                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseGM_Lag,'y':y,'x':x_constant,'w':w}, quorum=quorum, trace=trace)
+                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseGM_Lag,'y':y,'x':x_constant,'w':w}, quorum=quorum, trace=True)
                 self.clusters = sk_reg_results.current_labels_
                 self.score = sk_reg_results._trace[-1][1][2]
             except Exception as e:
@@ -1349,8 +1350,9 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
                 else:
                     raise
 
-        self._trace = sk_reg_results._trace
-        self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
+        if trace:
+            self._trace = sk_reg_results._trace
+            self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
         GM_Lag_Regimes.__init__(self, y, x, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_regimes='Skater_reg',
                                 constant_regi='many', cols2regi='all', regime_err_sep=False, **kwargs)
 
-- 
2.43.0


From 75563a35ab0d5c0772ed2c756809f3988c8453ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:29 +0000
Subject: [PATCH 59/68] fix: endogenous regimes failed when the quorum admits
 two regimes at most (optim_k returned 1)

---
 spreg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 57a8837..7df42b2 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -872,7 +872,7 @@ def optim_k(trace, window_size=None):
     if not window_size:
         window_size = N//4 # Mojena suggests from 70% to 90%
         if window_size < 2:
-            window_size = N
+            window_size = max(N, 2)
     std_dev = [np.std(trace[i:i+window_size]) for i in range(N - window_size + 1)]
     ma = np.convolve(trace, np.ones(window_size)/window_size, mode='valid')
     treshold = [True]
-- 
2.43.0


From 02c3cd1001cbda32612cbab191fee5f9d5e62b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:08 +0000
Subject: [PATCH 60/68] fix: Skater_reg recorded a trace entry of infinite
 score for a cut it did not make (score of endogenous regimes was inf)

---
 spreg/skater_reg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index f26c316..1fedacd 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -333,7 +333,7 @@ class Skater_reg(object):
                     OptimizeWarning,
                     stacklevel=2,
                 )
-            if trace:
+            if trace and np.isfinite(best_deletion.score):
                 self._trace.append((current_labels, best_deletion))
 
         self.current_labels_ = current_labels
-- 
2.43.0


From 377e9b208f4e3bd9f98c396b894a0637cce55a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:00 +0000
Subject: [PATCH 61/68] fix: GM_Lag_Endog_Regimes failed on named x with a
 constant column

---
 spreg/twosls_sp_regimes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 4939ad4..34abee0 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -1326,7 +1326,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
         x_std = (x_constant - np.mean(x_constant, axis=0)) / np.std(x_constant, axis=0)
 
         if quorum < 0:
-            quorum = np.max([(x.shape[1]+1)*10, 30])
+            quorum = np.max([(x_constant.shape[1]+1)*10, 30])
         
         if not n_clusters:
             trace = True
@@ -1353,7 +1353,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
         if trace:
             self._trace = sk_reg_results._trace
             self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
-        GM_Lag_Regimes.__init__(self, y, x, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_regimes='Skater_reg',
+        GM_Lag_Regimes.__init__(self, y, x_constant, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_regimes='Skater_reg',
                                 constant_regi='many', cols2regi='all', regime_err_sep=False, **kwargs)
 
 
-- 
2.43.0


From 8bf99c4176cf2474615dfd3f1d381ec5f995b14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:28 +0000
Subject: [PATCH 62/68] fix: GM_Lag_Regimes by regime with w_lags > 2
 duplicated instruments (H'H singular)

---
 spreg/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 7df42b2..3970ba0 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -750,15 +750,19 @@ def set_endog_sparse(y, x, w, yend, q, w_lags, lag_q):
             lag_vars = sphstack(x, q)
         else:
             lag_vars = x
-        spatial_inst = w @ lag_vars
+        lag = w @ lag_vars
+        spatial_inst = lag
         for i in range(w_lags - 1):
-            spatial_inst = sphstack(spatial_inst, w @ spatial_inst)
+            lag = w @ lag
+            spatial_inst = sphstack(spatial_inst, lag)
         q = sphstack(q, spatial_inst)
         yend = sphstack(yend, yl)
     elif yend == None:  # spatial instruments only
-        q = w @ x
+        lag = w @ x
+        q = lag
         for i in range(w_lags - 1):
-            q = sphstack(q, w @ q)
+            lag = w @ lag
+            q = sphstack(q, lag)
         yend = yl
     else:
         raise Exception("invalid value passed to yend")
-- 
2.43.0


From 9100cd201bf10446ce0d7d51b360edc36d69405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:09 +0000
Subject: [PATCH 63/68] fix: restore the CRLF line endings of dgp, probit and
 diagnostics_probit that earlier fixes changed

---
 spreg/dgp.py                | 2044 +++++++++++++++++------------------
 spreg/diagnostics_probit.py |  686 ++++++------
 spreg/probit.py             | 1170 ++++++++++----------
 3 files changed, 1950 insertions(+), 1950 deletions(-)

diff --git a/spreg/dgp.py b/spreg/dgp.py
index dffaac9..f60932d 100644
--- a/spreg/dgp.py
+++ b/spreg/dgp.py
@@ -1,1023 +1,1023 @@
-"""
-Generating spatial models for specific DGP
-
-"""
-
-__author__ = "Luc Anselin lanselin@gmail.com,\
-     Pedro Amaral pedrovma@gmail.com,\
-     Renan Serenini renan.serenini@uniroma1.it"
-
-import numpy as np
-import math
-import libpysal
-from scipy.linalg import expm
-from .utils import inverse_prod
-
-
-__all__ = [
-    "make_error",
-    "make_x",
-    "make_wx",
-    "make_xb",
-    "make_wxg",
-    "dgp_errproc",
-    "dgp_ols",
-    "dgp_slx",
-    "dgp_sperror",
-    "dgp_slxerror",
-    "dgp_lag",
-    "dgp_spdurbin",
-    "dgp_lagerr",
-    "dgp_gns",
-    "dgp_mess",
-    "dgp_probit",
-    "make_bin",
-    "make_heterror",
-    "make_vmult"
-]
-    
-    
-def make_error(rng,n,mu=0,varu=1,method='normal'):
-    """
-    make_error: generate error term for a given distribution
-    
-    Arguments:
-    ----------
-    rng:      random number object
-    n:        number of observations
-    mu:       mean (when needed)
-    varu:     variance (when needed)
-    method:   type of distribution, one of
-              normal, laplace, cauchy, lognormal
-    
-    Returns:
-    --------
-    u:        nx1 vector of random errors
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> from spreg import make_error
-    >>> rng = np.random.default_rng(12345)
-    >>> make_error(rng,5)
-    array([[-1.42382504],
-           [ 1.26372846],
-           [-0.87066174],
-           [-0.25917323],
-           [-0.07534331]])
-
-    """
-    # normal - standard normal is default
-    if method == 'normal':
-        sdu = math.sqrt(varu)
-        u = rng.normal(loc=mu,scale=sdu,size=n).reshape(n,1)
-    # laplace with thicker tails
-    elif method == 'laplace':
-        sdu = math.sqrt(varu/2.0)
-        u = rng.laplace(loc=mu,scale=sdu,size=n).reshape(n,1)
-    # cauchy, ill-behaved, no mean or variance defined
-    elif method == 'cauchy':
-        u = rng.standard_cauchy(size=n).reshape(n,1)
-    elif method == 'lognormal':
-        sdu = math.sqrt(varu)
-        u = rng.lognormal(mean=mu,sigma=sdu,size=n).reshape(n,1)
-    # all other yield warning
-    else:
-        print('Warning: Unsupported distribution')
-        u = None
-    return u
-
-def make_x(rng,n,mu=[0],varu=[1],cor=0,method='uniform'):
-    """
-    make_x: generate a matrix of k columns of x for a given distribution  
-    
-    Arguments:
-    ----------
-    rng:      random number object
-    n:        number of observations
-    mu:       mean as a list
-    varu:     variance as a list
-    cor:      correlation as a float (for bivariate normal only)
-    method:   type of distribution, one of
-              uniform, normal, bivnormal (bivariate normal)
-    
-    Returns:
-    --------
-    x:        nxk matrix of x variables
-    
-    Note:
-    -----
-    Uniform and normal generate separate draws, bivariate normal generates
-    correlated draws
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> from spreg import make_x
-    >>> rng = np.random.default_rng(12345)
-    >>> make_x(rng,5,mu=[0,1],varu=[1,4])
-    array([[0.78751508, 2.30580253],
-           [1.09728308, 4.14520464],
-           [2.76215497, 1.29373239],
-           [2.3426149 , 4.6609906 ],
-           [1.35484323, 6.52500165]])
-
-    """
-    # check on k dimension
-    k = len(mu)
-    if k == len(varu):
-        # initialize
-        x = np.zeros((n,k))
-        for i in range(k):
-            # uniform - range is derived from variance since var = (1/12)range^2
-            # range is found as square root of 12 times variance
-            # for 0-1, varu should be 0.0833333
-            # low is always 0
-            if method == 'uniform':
-                sdu = math.sqrt(12.0*varu[i])
-                x[:,i] = rng.uniform(low=0,high=sdu,size=n)
-            # normal - independent normal draws
-            elif method == 'normal':
-                sdu = math.sqrt(varu[i])
-                x[:,i] = rng.normal(loc=mu[i],scale=sdu,size=n)
-            # bivariate normal - only for k=2
-            elif method == 'bivnormal':
-                if k != 2:
-                    print('Error: Wrong dimension for k')
-                    x = None
-                    return x
-                else:
-                    ucov = cor* math.sqrt(varu[0]*varu[1])
-                    mcov = [[varu[0],ucov],[ucov,varu[1]]]
-                    x = rng.multivariate_normal(mean=mu,cov=mcov,size=n)
-                    return x
-            else:
-                print('Warning: Unsupported distribution')
-                x = None
-    else:
-        x = None
-    return x
-
-def make_wx(x,w,o=1):
-    """
-    make_wx: generate a matrix spatially lagged x given matrix x  
-    
-             x must be previously generated using make_x, no constant included
-    
-    Arguments:
-    ----------
-    x:        x matrix - no constant
-    w:        row-standardized spatial weights in spreg format
-    o:        order of contiguity, default o=1
-    
-    Returns:
-    --------
-    wx:       nx(kxo) matrix of spatially lagged x variables
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_wx
-    >>> rng = np.random.default_rng(12345)
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> make_wx(x,w)[0:5,:]
-    array([[1.12509217],
-           [1.87409079],
-           [1.36225472],
-           [2.1491645 ],
-           [2.80255786]])
-
-    """
-    if w.n != x.shape[0]:
-        print("Error: incompatible weights dimensions")
-        return None
-    w1x = libpysal.weights.lag_spatial(w,x)
-    wx = w1x
-    if o > 1:
-        for i in range(1,o):
-            whx = libpysal.weights.lag_spatial(w,w1x)
-            w1x = whx
-            wx = np.hstack((wx,whx))
-    return wx
-        
-
-def make_xb(x,beta):
-    """
-    make_xb: generate a column xb as matrix x (constant added)  
-             times list beta (includes coefficient for constant term)
-    
-    Arguments:
-    ----------
-    x:        n x (k-1) matrix for x variables
-    beta:     k length list of regression coefficients
-    
-    Returns:
-    --------
-    xb:        nx1 vector of x times beta
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> from spreg import make_x, make_xb
-    >>> rng = np.random.default_rng(12345)
-    >>> x = make_x(rng,5,mu=[0,1],varu=[1,4])
-    >>> make_xb(x,[1,2,3])
-    array([[ 9.49243776],
-           [15.63018007],
-           [10.4055071 ],
-           [19.66820159],
-           [23.28469141]])
-    """
-    n = x.shape[0]
-    k = x.shape[1]
-    if k+1 != len(beta):
-        print("Error: Incompatible dimensions")
-        return None
-    else:
-        b = np.array(beta)[:,np.newaxis]
-        x1=np.hstack((np.ones((n,1)),x)) # include constant
-        xb = np.dot(x1,b)
-        return xb
-    
-def make_wxg(wx,gamma):
-    """
-    make_wxg: generate a column wxg as matrix wx (no constant)  
-             times list gamma (coefficient of spatially lagged x)
-    
-    Arguments:
-    ----------
-    wx:       n x ((k-1)xo) matrix for spatially lagged x variables of all orders
-    gamma:    (k-1)*o length list of regression coefficients for spatially lagged x
-    
-    Returns:
-    --------
-    wxg:      nx1 vector of wx times gamma
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_wx, make_wxg
-    >>> rng = np.random.default_rng(12345)
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> wx = make_wx(x,w)
-    >>> print(wx.shape)
-    (25, 1)
-    >>> make_wxg(wx,[2,4])[0:5,:]
-    array([[ 2.25018434,  4.50036868],
-           [ 3.74818158,  7.49636316],
-           [ 2.72450944,  5.44901889],
-           [ 4.298329  ,  8.59665799],
-           [ 5.60511572, 11.21023145]])
-
-    """
-    k = wx.shape[1]
-    if (k > 1): 
-        if k != len(gamma):
-            print("Error: Incompatible dimensions")
-            return None
-        else:
-            g = np.array(gamma)[:,np.newaxis]
-            wxg = np.dot(wx,g)
-    else:  # gamma is a scalar
-        wxg = wx * gamma
-    return wxg
-
-def dgp_errproc(u,w,lam=0.5,model='sar',imethod='power_exp'):
-    """
-    dgp_errproc: generates pure spatial error process
-
-    Arguments:
-    ----------
-    u:      random error vector
-    w:      spatial weights object
-    lam:    spatial autoregressive parameter
-    model:  type of process ('sar' or 'ma')
-    imethod: method for inverse transformation, default = 'power_exp'
-
-    Returns:
-    --------
-    y : vector of observations following a spatial AR or MA process
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, dgp_errproc
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> dgp_errproc(u,w)[0:5,:]
-    array([[-1.43760658],
-           [ 0.69778271],
-           [-0.7750646 ],
-           [-0.47750452],
-           [-0.72377417]])
-
-    """
-    n0 = u.shape[0]
-    if w.n != n0:
-        print("Error: incompatible weights dimensions")
-        return None
-    if model == 'sar':
-        y = inverse_prod(w,u,lam,inv_method=imethod)
-    elif model == 'ma':
-        y = u + lam * libpysal.weights.lag_spatial(w,u)
-    else:
-        print("Error: unsupported model type")
-        return None
-    return y
-    
-
-def dgp_ols(u,xb):
-    """
-    dgp_ols: generates y for non-spatial process with given xb and error term u
-    
-    Arguments:
-    ----------
-    u:      random error vector
-    xb:     vector of xb
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, dgp_ols
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> dgp_ols(u,xb)[0:5,:]
-    array([[5.22803968],
-           [3.60291127],
-           [1.02632633],
-           [1.37589879],
-           [5.07165754]])
-
-    """
-    n1 = u.shape[0]
-    n2 = xb.shape[0]  
-    if n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    y = xb + u
-    return y
-
-def dgp_slx(u,xb,wxg,ybin=False):
-    """
-    dgp_slx: generates y for SLX with given xb, wxg, and error term u
-    
-    Arguments:
-    ----------
-    u:      random error vector
-    xb:     vector of xb
-    wxg:    vector of wxg
-    ybin:   flag for binary dependent variable, default = False
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_slx
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> wx = make_wx(x,w)
-    >>> wxg = make_wxg(wx,[2])
-    >>> dgp_slx(u, xb, wxg)[0:5,:]
-    array([[8.85854389],
-           [7.17524694],
-           [3.83674621],
-           [4.73103929],
-           [8.37023076]])
-    """
-    n0 = u.shape[0]
-    n1 = xb.shape[0]  
-    n2 = wxg.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None
-    elif n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    y = xb + wxg + u
-    if ybin:     # probit case, turn into 0-1
-        y = make_bin(y)
-    return y    
-    
-def dgp_sperror(u,xb,w,lam=0.5,model='sar',imethod='power_exp',ybin=False):
-    """
-    dgp_sperror: generates y for spatial error model with given xb, weights,
-                  spatial parameter lam, error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    w:       spatial weights
-    lam:     spatial coefficient
-    model:   type of process ('sar' or 'ma')
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, dgp_sperror
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> dgp_sperror(u, xb, w)[0:5,:]
-    array([[5.21425813],
-           [3.03696553],
-           [1.12192347],
-           [1.15756751],
-           [4.42322667]])
-    """
-    n0 = u.shape[0]
-    n1 = xb.shape[0]
-    if n0 != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    elif w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    if model == 'sar':
-        u1 = inverse_prod(w,u,lam,inv_method=imethod)
-    elif model == 'ma':
-        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
-    else:
-        print("Error: unsupported model type")
-        return None
-    y = xb + u1
-    if ybin:
-        y = make_bin(y)
-    return y
-
-def dgp_slxerror(u,xb,wxg,w,lam=0.5,model='sar',imethod='power_exp',ybin=False):
-    """
-    dgp_slxerror: generates y for SLX spatial error model with xb, wxg, weights,
-                  spatial parameter lam, model type (sar or ma),
-                  error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    wxg:     vector of wxg
-    w:       spatial weights
-    lam:     spatial coefficient
-    model:   type of process ('sar' or 'ma')
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary 0-1 dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_slxerror
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> wx = make_wx(x,w)
-    >>> wxg = make_wxg(wx,[2])
-    >>> dgp_slxerror(u,xb,wxg,w)[0:5,:]
-    array([[8.84476235],
-           [6.6093012 ],
-           [3.93234334],
-           [4.51270801],
-           [7.7217999 ]])
-   """
-    
-    n0 = u.shape[0]
-    n1 = xb.shape[0]  
-    n2 = wxg.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None
-    elif n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    if model == 'sar':
-        u1 = inverse_prod(w,u,lam,inv_method=imethod)
-    elif model == 'ma':
-        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
-    else:
-        print("Error: unsupported model type")
-        return None  
-    y = xb + wxg + u1
-    if ybin:
-        y = make_bin(y)
-    return y
-    
-def dgp_lag(u,xb,w,rho=0.5,imethod='power_exp',ybin=False):
-    """
-    dgp_lag:      generates y for spatial lag model with xb, weights,
-                  spatial parameter rho,
-                  error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    w:       spatial weights
-    rho:     spatial coefficient
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, dgp_lag
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> dgp_lag(u, xb, w)[0:5,:]
-    array([[10.16582326],
-           [ 7.75359864],
-           [ 5.39821733],
-           [ 5.62244672],
-           [ 8.868168  ]])
-   """    
-    n0 = u.shape[0]
-    n1 = xb.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    y1 = xb + u
-    y = inverse_prod(w,y1,rho,inv_method=imethod)
-    if ybin:
-        y = make_bin(y)
-    return y
-    
-def dgp_spdurbin(u,xb,wxg,w,rho=0.5,imethod='power_exp',ybin=False):
-    """
-    dgp_spdurbin: generates y for spatial Durbin model with xb, wxg, weights,
-                  spatial parameter rho,
-                  error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    wxg:     vector of wxg
-    w:       spatial weights
-    rho:     spatial coefficient
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary 0-1 dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_spdurbin
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> wx = make_wx(x,w)
-    >>> wxg = make_wxg(wx,[2])
-    >>> dgp_spdurbin(u,xb,wxg,w)[0:5,:]
-    array([[18.06895353],
-           [15.18686487],
-           [11.95080505],
-           [12.55220513],
-           [15.75805066]])
-   """        
-    n0 = u.shape[0]
-    n1 = xb.shape[0]  
-    n2 = wxg.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None
-    elif n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    y1 = xb + wxg + u
-    y = inverse_prod(w,y1,rho,inv_method=imethod)
-    if ybin:
-        y = make_bin(y)
-    return y
-    
-def dgp_lagerr(u,xb,w,rho=0.5,lam=0.2,model='sar',imethod='power_exp',ybin=False):
-    """
-    dgp_lagerr:   generates y for spatial lag model with sar or ma errors
-                  with xb, weights,
-                  spatial parameter rho, spatial parameter lambda,
-                  model for spatial process,
-                  error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    w:       spatial weights
-    rho:     spatial coefficient for lag
-    lam:     spatial coefficient for error
-    model:   spatial process for error
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary 0-1 dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, dgp_lagerr
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> dgp_lagerr(u, xb, w)[0:5,:]
-    array([[10.13845523],
-           [ 7.53009531],
-           [ 5.40644034],
-           [ 5.51132886],
-           [ 8.58872366]])
-   """            
-    n0 = u.shape[0]
-    n1 = xb.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    if model == 'sar':
-        u1 = inverse_prod(w,u,lam,inv_method=imethod)
-    elif model == 'ma':
-        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
-    else:
-        print("Error: unsupported model type")
-        return None
-    y1 = xb + u1
-    y = inverse_prod(w,y1,rho,inv_method=imethod)
-    if ybin:
-        y = make_bin(y)
-    return y
-    
-def dgp_gns(u,xb,wxg,w,rho=0.5,lam=0.2,model='sar',imethod='power_exp',ybin=False):
-    """
-    dgp_gns:      generates y for general nested model with sar or ma errors
-                  with xb, wxg, weights,
-                  spatial parameter rho, spatial parameter lambda,
-                  model for spatial process,
-                  error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    wxg:     vector of wxg
-    w:       spatial weights
-    rho:     spatial coefficient for lag
-    lam:     spatial coefficient for error
-    model:   spatial process for error
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary 0-1 dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_gns
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> wx = make_wx(x,w)
-    >>> wxg = make_wxg(wx,[2])
-    >>> dgp_gns(u,xb,wxg,w)[0:5,:]
-    array([[18.04158549],
-           [14.96336153],
-           [11.95902806],
-           [12.44108728],
-           [15.47860632]])
-   """            
-    n0 = u.shape[0]
-    n1 = xb.shape[0]  
-    n2 = wxg.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None       
-    elif n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    if model == 'sar':
-        u1 = inverse_prod(w,u,lam,inv_method=imethod)
-    elif model == 'ma':
-        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
-    else:
-        print("Error: unsupported model type")
-        return None
-    y1 = xb + wxg + u1
-    y = inverse_prod(w,y1,rho,inv_method=imethod)
-    if ybin:
-        y = make_bin(y)
-    return y
-    
-def dgp_mess(u,xb,w,rho=0.5):
-    """
-    dgp_mess:     generates y for MESS spatial lag model with xb, weights,
-                  spatial parameter rho (gets converted into alpha),
-                  sigma/method for the error term
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    w:       spatial weights
-    rho:     spatial coefficient (converted into alpha)
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, dgp_mess
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> dgp_mess(u, xb, w)[0:5,:]
-    array([[10.12104421],
-           [ 7.45561055],
-           [ 5.32807674],
-           [ 5.55549492],
-           [ 8.62685145]])
-   """        
-    n0 = u.shape[0]
-    n1 = xb.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None    
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    bigw = libpysal.weights.full(w)[0]
-    alpha=np.log(1-rho) #convert between rho and alpha
-    aw=-alpha*bigw      # inverse exponential is -alpha
-    xbu = xb + u
-    y = np.dot(expm(aw),xbu)
-    return y
-
-def dgp_probit(u,xb):
-    """
-    dgp_probit: generates y for non-spatial probit process with given xb
-                and error u
-                y is taken when linear model prediction > its mean
-    
-    Arguments:
-    ----------
-    u:      random error vector
-    xb:     vector of xb
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, dgp_probit
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> dgp_probit(u,xb)[0:5,:]
-    array([[1],
-           [0],
-           [0],
-           [0],
-           [1]])
-
-    """
-    n1 = u.shape[0]
-    n2 = xb.shape[0]  
-    if n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    yy = xb + u
-    mm = yy.mean()
-    y = (yy > mm) * 1
-    return y
-
-def make_bin(yy):
-    """
-    make_bin:   generates y as 0-1 variable for y > mean of y,
-                i.e., for discrete dependent variables
-    
-    Arguments:
-    ----------
-    yy:      initial dependent variable vector
-    
-    Returns:
-    ----------
-    y: vector of 0-1 observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, dgp_ols, make_bin
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> yy = dgp_ols(u,xb)
-    >>> make_bin(yy)[0:5,:]
-    array([[1],
-           [0],
-           [0],
-           [0],
-           [1]])
-
-    """
-    mm = yy.mean()
-    y = (yy > mm)
-    return y * 1
-
-
-def make_heterror(u,v):
-    """
-    make_heterror: transforms constant variance error term into
-                   a heteroskedastic error vector
-                  
-    Arguments:
-    ----------
-    u:   random error vector (constant variance assumed)
-    v:   matching vector of variance multipliers
-         if variance of u is 1, then variance of result with be v
-         
-    Returns:
-    --------
-    hu:   matching vector with heteroskedastic errors
-    
-    """
-    n0 = u.shape[0]
-    n1 = v.shape[0]
-    if n0 != n1:
-        print("Error: incompatible vector dimensions")
-        return None
-    # multiply error with square root of variance multiplier v
-    sev = np.sqrt(v)
-    hu = u * sev
-    return hu
-
-def make_vmult(n,method="linear",vlow=[1],vup=[4],rng=None):
-    
-    """
-    make_vmult : helper function to create variance multiplier
-                 for use in heteroskedastic errors (dgp_heterror)
-                 
-    Arguments:
-    ----------
-    n:        number of observations
-    method:   type of multiplier             
-                 linear:  linear interpolation between vlow and vup
-                 group: groupwise heteroskedasticity of vup by group vlow
-                 uniform: uniform random number between vlow and vup
-    vlow:     list with lower variance multiplier (default=1) or group indicators
-                 group indicators give number of elements in each group, must add up to n       
-    vup:      list with upper variance multiplier (default=4) or group variance multipliers
-                 list of group variance multipliers must match length of vlow
-    rng:      random number object (required for method=uniform, otherwise None)
-    
-    Returns:
-    --------
-    v:        nx1 vector with variance multipliers
-
-    """
-    v = np.ones((n,1))
-    if method == "uniform":
-        if not(rng == None):
-            v = rng.uniform(low=vlow[0],high=vup[0],size=n)
-            v = v.reshape(-1,1)
-        else:
-            print("Error: Missing random number object")
-            return None
-    elif method == "linear":
-        vlo = vlow[0]
-        slop = (vup[0] - vlow[0])/(n-1)
-        for i in range(n):
-            v[i,0] = vlo + slop*i
-    elif method == "group":
-        if len(vup) == len(vlow) and sum(vlow) == n:
-            h = [[i]*j for i,j in zip(vup,vlow)]    # one sublist for each group
-            # flatten list and convert to numpy array
-            hh = []
-            for ii in h:
-                hh += ii
-            v = np.array(hh)
-            v = v.reshape(-1,1)    
-        else:
-            print("Error: Incompatible dimensions")
-            v = None
-    else:
-        print('Error: Unsupported method')
-        v = None
-    return v
-
-def _test():
-    import doctest
-
-    start_suppress = np.get_printoptions()["suppress"]
-    np.set_printoptions(suppress=True)
-    doctest.testmod()
-    np.set_printoptions(suppress=start_suppress)
-
-if __name__ == "__main__":
-    _test()
+"""
+Generating spatial models for specific DGP
+
+"""
+
+__author__ = "Luc Anselin lanselin@gmail.com,\
+     Pedro Amaral pedrovma@gmail.com,\
+     Renan Serenini renan.serenini@uniroma1.it"
+
+import numpy as np
+import math
+import libpysal
+from scipy.linalg import expm
+from .utils import inverse_prod
+
+
+__all__ = [
+    "make_error",
+    "make_x",
+    "make_wx",
+    "make_xb",
+    "make_wxg",
+    "dgp_errproc",
+    "dgp_ols",
+    "dgp_slx",
+    "dgp_sperror",
+    "dgp_slxerror",
+    "dgp_lag",
+    "dgp_spdurbin",
+    "dgp_lagerr",
+    "dgp_gns",
+    "dgp_mess",
+    "dgp_probit",
+    "make_bin",
+    "make_heterror",
+    "make_vmult"
+]
+    
+    
+def make_error(rng,n,mu=0,varu=1,method='normal'):
+    """
+    make_error: generate error term for a given distribution
+    
+    Arguments:
+    ----------
+    rng:      random number object
+    n:        number of observations
+    mu:       mean (when needed)
+    varu:     variance (when needed)
+    method:   type of distribution, one of
+              normal, laplace, cauchy, lognormal
+    
+    Returns:
+    --------
+    u:        nx1 vector of random errors
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> from spreg import make_error
+    >>> rng = np.random.default_rng(12345)
+    >>> make_error(rng,5)
+    array([[-1.42382504],
+           [ 1.26372846],
+           [-0.87066174],
+           [-0.25917323],
+           [-0.07534331]])
+
+    """
+    # normal - standard normal is default
+    if method == 'normal':
+        sdu = math.sqrt(varu)
+        u = rng.normal(loc=mu,scale=sdu,size=n).reshape(n,1)
+    # laplace with thicker tails
+    elif method == 'laplace':
+        sdu = math.sqrt(varu/2.0)
+        u = rng.laplace(loc=mu,scale=sdu,size=n).reshape(n,1)
+    # cauchy, ill-behaved, no mean or variance defined
+    elif method == 'cauchy':
+        u = rng.standard_cauchy(size=n).reshape(n,1)
+    elif method == 'lognormal':
+        sdu = math.sqrt(varu)
+        u = rng.lognormal(mean=mu,sigma=sdu,size=n).reshape(n,1)
+    # all other yield warning
+    else:
+        print('Warning: Unsupported distribution')
+        u = None
+    return u
+
+def make_x(rng,n,mu=[0],varu=[1],cor=0,method='uniform'):
+    """
+    make_x: generate a matrix of k columns of x for a given distribution  
+    
+    Arguments:
+    ----------
+    rng:      random number object
+    n:        number of observations
+    mu:       mean as a list
+    varu:     variance as a list
+    cor:      correlation as a float (for bivariate normal only)
+    method:   type of distribution, one of
+              uniform, normal, bivnormal (bivariate normal)
+    
+    Returns:
+    --------
+    x:        nxk matrix of x variables
+    
+    Note:
+    -----
+    Uniform and normal generate separate draws, bivariate normal generates
+    correlated draws
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> from spreg import make_x
+    >>> rng = np.random.default_rng(12345)
+    >>> make_x(rng,5,mu=[0,1],varu=[1,4])
+    array([[0.78751508, 2.30580253],
+           [1.09728308, 4.14520464],
+           [2.76215497, 1.29373239],
+           [2.3426149 , 4.6609906 ],
+           [1.35484323, 6.52500165]])
+
+    """
+    # check on k dimension
+    k = len(mu)
+    if k == len(varu):
+        # initialize
+        x = np.zeros((n,k))
+        for i in range(k):
+            # uniform - range is derived from variance since var = (1/12)range^2
+            # range is found as square root of 12 times variance
+            # for 0-1, varu should be 0.0833333
+            # low is always 0
+            if method == 'uniform':
+                sdu = math.sqrt(12.0*varu[i])
+                x[:,i] = rng.uniform(low=0,high=sdu,size=n)
+            # normal - independent normal draws
+            elif method == 'normal':
+                sdu = math.sqrt(varu[i])
+                x[:,i] = rng.normal(loc=mu[i],scale=sdu,size=n)
+            # bivariate normal - only for k=2
+            elif method == 'bivnormal':
+                if k != 2:
+                    print('Error: Wrong dimension for k')
+                    x = None
+                    return x
+                else:
+                    ucov = cor* math.sqrt(varu[0]*varu[1])
+                    mcov = [[varu[0],ucov],[ucov,varu[1]]]
+                    x = rng.multivariate_normal(mean=mu,cov=mcov,size=n)
+                    return x
+            else:
+                print('Warning: Unsupported distribution')
+                x = None
+    else:
+        x = None
+    return x
+
+def make_wx(x,w,o=1):
+    """
+    make_wx: generate a matrix spatially lagged x given matrix x  
+    
+             x must be previously generated using make_x, no constant included
+    
+    Arguments:
+    ----------
+    x:        x matrix - no constant
+    w:        row-standardized spatial weights in spreg format
+    o:        order of contiguity, default o=1
+    
+    Returns:
+    --------
+    wx:       nx(kxo) matrix of spatially lagged x variables
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_wx
+    >>> rng = np.random.default_rng(12345)
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> make_wx(x,w)[0:5,:]
+    array([[1.12509217],
+           [1.87409079],
+           [1.36225472],
+           [2.1491645 ],
+           [2.80255786]])
+
+    """
+    if w.n != x.shape[0]:
+        print("Error: incompatible weights dimensions")
+        return None
+    w1x = libpysal.weights.lag_spatial(w,x)
+    wx = w1x
+    if o > 1:
+        for i in range(1,o):
+            whx = libpysal.weights.lag_spatial(w,w1x)
+            w1x = whx
+            wx = np.hstack((wx,whx))
+    return wx
+        
+
+def make_xb(x,beta):
+    """
+    make_xb: generate a column xb as matrix x (constant added)  
+             times list beta (includes coefficient for constant term)
+    
+    Arguments:
+    ----------
+    x:        n x (k-1) matrix for x variables
+    beta:     k length list of regression coefficients
+    
+    Returns:
+    --------
+    xb:        nx1 vector of x times beta
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> from spreg import make_x, make_xb
+    >>> rng = np.random.default_rng(12345)
+    >>> x = make_x(rng,5,mu=[0,1],varu=[1,4])
+    >>> make_xb(x,[1,2,3])
+    array([[ 9.49243776],
+           [15.63018007],
+           [10.4055071 ],
+           [19.66820159],
+           [23.28469141]])
+    """
+    n = x.shape[0]
+    k = x.shape[1]
+    if k+1 != len(beta):
+        print("Error: Incompatible dimensions")
+        return None
+    else:
+        b = np.array(beta)[:,np.newaxis]
+        x1=np.hstack((np.ones((n,1)),x)) # include constant
+        xb = np.dot(x1,b)
+        return xb
+    
+def make_wxg(wx,gamma):
+    """
+    make_wxg: generate a column wxg as matrix wx (no constant)  
+             times list gamma (coefficient of spatially lagged x)
+    
+    Arguments:
+    ----------
+    wx:       n x ((k-1)xo) matrix for spatially lagged x variables of all orders
+    gamma:    (k-1)*o length list of regression coefficients for spatially lagged x
+    
+    Returns:
+    --------
+    wxg:      nx1 vector of wx times gamma
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_wx, make_wxg
+    >>> rng = np.random.default_rng(12345)
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> wx = make_wx(x,w)
+    >>> print(wx.shape)
+    (25, 1)
+    >>> make_wxg(wx,[2,4])[0:5,:]
+    array([[ 2.25018434,  4.50036868],
+           [ 3.74818158,  7.49636316],
+           [ 2.72450944,  5.44901889],
+           [ 4.298329  ,  8.59665799],
+           [ 5.60511572, 11.21023145]])
+
+    """
+    k = wx.shape[1]
+    if (k > 1): 
+        if k != len(gamma):
+            print("Error: Incompatible dimensions")
+            return None
+        else:
+            g = np.array(gamma)[:,np.newaxis]
+            wxg = np.dot(wx,g)
+    else:  # gamma is a scalar
+        wxg = wx * gamma
+    return wxg
+
+def dgp_errproc(u,w,lam=0.5,model='sar',imethod='power_exp'):
+    """
+    dgp_errproc: generates pure spatial error process
+
+    Arguments:
+    ----------
+    u:      random error vector
+    w:      spatial weights object
+    lam:    spatial autoregressive parameter
+    model:  type of process ('sar' or 'ma')
+    imethod: method for inverse transformation, default = 'power_exp'
+
+    Returns:
+    --------
+    y : vector of observations following a spatial AR or MA process
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, dgp_errproc
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> dgp_errproc(u,w)[0:5,:]
+    array([[-1.43760658],
+           [ 0.69778271],
+           [-0.7750646 ],
+           [-0.47750452],
+           [-0.72377417]])
+
+    """
+    n0 = u.shape[0]
+    if w.n != n0:
+        print("Error: incompatible weights dimensions")
+        return None
+    if model == 'sar':
+        y = inverse_prod(w,u,lam,inv_method=imethod)
+    elif model == 'ma':
+        y = u + lam * libpysal.weights.lag_spatial(w,u)
+    else:
+        print("Error: unsupported model type")
+        return None
+    return y
+    
+
+def dgp_ols(u,xb):
+    """
+    dgp_ols: generates y for non-spatial process with given xb and error term u
+    
+    Arguments:
+    ----------
+    u:      random error vector
+    xb:     vector of xb
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, dgp_ols
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> dgp_ols(u,xb)[0:5,:]
+    array([[5.22803968],
+           [3.60291127],
+           [1.02632633],
+           [1.37589879],
+           [5.07165754]])
+
+    """
+    n1 = u.shape[0]
+    n2 = xb.shape[0]  
+    if n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    y = xb + u
+    return y
+
+def dgp_slx(u,xb,wxg,ybin=False):
+    """
+    dgp_slx: generates y for SLX with given xb, wxg, and error term u
+    
+    Arguments:
+    ----------
+    u:      random error vector
+    xb:     vector of xb
+    wxg:    vector of wxg
+    ybin:   flag for binary dependent variable, default = False
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_slx
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> wx = make_wx(x,w)
+    >>> wxg = make_wxg(wx,[2])
+    >>> dgp_slx(u, xb, wxg)[0:5,:]
+    array([[8.85854389],
+           [7.17524694],
+           [3.83674621],
+           [4.73103929],
+           [8.37023076]])
+    """
+    n0 = u.shape[0]
+    n1 = xb.shape[0]  
+    n2 = wxg.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None
+    elif n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    y = xb + wxg + u
+    if ybin:     # probit case, turn into 0-1
+        y = make_bin(y)
+    return y    
+    
+def dgp_sperror(u,xb,w,lam=0.5,model='sar',imethod='power_exp',ybin=False):
+    """
+    dgp_sperror: generates y for spatial error model with given xb, weights,
+                  spatial parameter lam, error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    w:       spatial weights
+    lam:     spatial coefficient
+    model:   type of process ('sar' or 'ma')
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, dgp_sperror
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> dgp_sperror(u, xb, w)[0:5,:]
+    array([[5.21425813],
+           [3.03696553],
+           [1.12192347],
+           [1.15756751],
+           [4.42322667]])
+    """
+    n0 = u.shape[0]
+    n1 = xb.shape[0]
+    if n0 != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    elif w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    if model == 'sar':
+        u1 = inverse_prod(w,u,lam,inv_method=imethod)
+    elif model == 'ma':
+        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
+    else:
+        print("Error: unsupported model type")
+        return None
+    y = xb + u1
+    if ybin:
+        y = make_bin(y)
+    return y
+
+def dgp_slxerror(u,xb,wxg,w,lam=0.5,model='sar',imethod='power_exp',ybin=False):
+    """
+    dgp_slxerror: generates y for SLX spatial error model with xb, wxg, weights,
+                  spatial parameter lam, model type (sar or ma),
+                  error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    wxg:     vector of wxg
+    w:       spatial weights
+    lam:     spatial coefficient
+    model:   type of process ('sar' or 'ma')
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary 0-1 dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_slxerror
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> wx = make_wx(x,w)
+    >>> wxg = make_wxg(wx,[2])
+    >>> dgp_slxerror(u,xb,wxg,w)[0:5,:]
+    array([[8.84476235],
+           [6.6093012 ],
+           [3.93234334],
+           [4.51270801],
+           [7.7217999 ]])
+   """
+    
+    n0 = u.shape[0]
+    n1 = xb.shape[0]  
+    n2 = wxg.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None
+    elif n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    if model == 'sar':
+        u1 = inverse_prod(w,u,lam,inv_method=imethod)
+    elif model == 'ma':
+        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
+    else:
+        print("Error: unsupported model type")
+        return None  
+    y = xb + wxg + u1
+    if ybin:
+        y = make_bin(y)
+    return y
+    
+def dgp_lag(u,xb,w,rho=0.5,imethod='power_exp',ybin=False):
+    """
+    dgp_lag:      generates y for spatial lag model with xb, weights,
+                  spatial parameter rho,
+                  error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    w:       spatial weights
+    rho:     spatial coefficient
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, dgp_lag
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> dgp_lag(u, xb, w)[0:5,:]
+    array([[10.16582326],
+           [ 7.75359864],
+           [ 5.39821733],
+           [ 5.62244672],
+           [ 8.868168  ]])
+   """    
+    n0 = u.shape[0]
+    n1 = xb.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    y1 = xb + u
+    y = inverse_prod(w,y1,rho,inv_method=imethod)
+    if ybin:
+        y = make_bin(y)
+    return y
+    
+def dgp_spdurbin(u,xb,wxg,w,rho=0.5,imethod='power_exp',ybin=False):
+    """
+    dgp_spdurbin: generates y for spatial Durbin model with xb, wxg, weights,
+                  spatial parameter rho,
+                  error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    wxg:     vector of wxg
+    w:       spatial weights
+    rho:     spatial coefficient
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary 0-1 dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_spdurbin
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> wx = make_wx(x,w)
+    >>> wxg = make_wxg(wx,[2])
+    >>> dgp_spdurbin(u,xb,wxg,w)[0:5,:]
+    array([[18.06895353],
+           [15.18686487],
+           [11.95080505],
+           [12.55220513],
+           [15.75805066]])
+   """        
+    n0 = u.shape[0]
+    n1 = xb.shape[0]  
+    n2 = wxg.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None
+    elif n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    y1 = xb + wxg + u
+    y = inverse_prod(w,y1,rho,inv_method=imethod)
+    if ybin:
+        y = make_bin(y)
+    return y
+    
+def dgp_lagerr(u,xb,w,rho=0.5,lam=0.2,model='sar',imethod='power_exp',ybin=False):
+    """
+    dgp_lagerr:   generates y for spatial lag model with sar or ma errors
+                  with xb, weights,
+                  spatial parameter rho, spatial parameter lambda,
+                  model for spatial process,
+                  error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    w:       spatial weights
+    rho:     spatial coefficient for lag
+    lam:     spatial coefficient for error
+    model:   spatial process for error
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary 0-1 dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, dgp_lagerr
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> dgp_lagerr(u, xb, w)[0:5,:]
+    array([[10.13845523],
+           [ 7.53009531],
+           [ 5.40644034],
+           [ 5.51132886],
+           [ 8.58872366]])
+   """            
+    n0 = u.shape[0]
+    n1 = xb.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    if model == 'sar':
+        u1 = inverse_prod(w,u,lam,inv_method=imethod)
+    elif model == 'ma':
+        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
+    else:
+        print("Error: unsupported model type")
+        return None
+    y1 = xb + u1
+    y = inverse_prod(w,y1,rho,inv_method=imethod)
+    if ybin:
+        y = make_bin(y)
+    return y
+    
+def dgp_gns(u,xb,wxg,w,rho=0.5,lam=0.2,model='sar',imethod='power_exp',ybin=False):
+    """
+    dgp_gns:      generates y for general nested model with sar or ma errors
+                  with xb, wxg, weights,
+                  spatial parameter rho, spatial parameter lambda,
+                  model for spatial process,
+                  error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    wxg:     vector of wxg
+    w:       spatial weights
+    rho:     spatial coefficient for lag
+    lam:     spatial coefficient for error
+    model:   spatial process for error
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary 0-1 dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_gns
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> wx = make_wx(x,w)
+    >>> wxg = make_wxg(wx,[2])
+    >>> dgp_gns(u,xb,wxg,w)[0:5,:]
+    array([[18.04158549],
+           [14.96336153],
+           [11.95902806],
+           [12.44108728],
+           [15.47860632]])
+   """            
+    n0 = u.shape[0]
+    n1 = xb.shape[0]  
+    n2 = wxg.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None       
+    elif n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    if model == 'sar':
+        u1 = inverse_prod(w,u,lam,inv_method=imethod)
+    elif model == 'ma':
+        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
+    else:
+        print("Error: unsupported model type")
+        return None
+    y1 = xb + wxg + u1
+    y = inverse_prod(w,y1,rho,inv_method=imethod)
+    if ybin:
+        y = make_bin(y)
+    return y
+    
+def dgp_mess(u,xb,w,rho=0.5):
+    """
+    dgp_mess:     generates y for MESS spatial lag model with xb, weights,
+                  spatial parameter rho (gets converted into alpha),
+                  sigma/method for the error term
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    w:       spatial weights
+    rho:     spatial coefficient (converted into alpha)
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, dgp_mess
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> dgp_mess(u, xb, w)[0:5,:]
+    array([[10.12104421],
+           [ 7.45561055],
+           [ 5.32807674],
+           [ 5.55549492],
+           [ 8.62685145]])
+   """        
+    n0 = u.shape[0]
+    n1 = xb.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None    
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    bigw = libpysal.weights.full(w)[0]
+    alpha=np.log(1-rho) #convert between rho and alpha
+    aw=-alpha*bigw      # inverse exponential is -alpha
+    xbu = xb + u
+    y = np.dot(expm(aw),xbu)
+    return y
+
+def dgp_probit(u,xb):
+    """
+    dgp_probit: generates y for non-spatial probit process with given xb
+                and error u
+                y is taken when linear model prediction > its mean
+    
+    Arguments:
+    ----------
+    u:      random error vector
+    xb:     vector of xb
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, dgp_probit
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> dgp_probit(u,xb)[0:5,:]
+    array([[1],
+           [0],
+           [0],
+           [0],
+           [1]])
+
+    """
+    n1 = u.shape[0]
+    n2 = xb.shape[0]  
+    if n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    yy = xb + u
+    mm = yy.mean()
+    y = (yy > mm) * 1
+    return y
+
+def make_bin(yy):
+    """
+    make_bin:   generates y as 0-1 variable for y > mean of y,
+                i.e., for discrete dependent variables
+    
+    Arguments:
+    ----------
+    yy:      initial dependent variable vector
+    
+    Returns:
+    ----------
+    y: vector of 0-1 observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, dgp_ols, make_bin
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> yy = dgp_ols(u,xb)
+    >>> make_bin(yy)[0:5,:]
+    array([[1],
+           [0],
+           [0],
+           [0],
+           [1]])
+
+    """
+    mm = yy.mean()
+    y = (yy > mm)
+    return y * 1
+
+
+def make_heterror(u,v):
+    """
+    make_heterror: transforms constant variance error term into
+                   a heteroskedastic error vector
+                  
+    Arguments:
+    ----------
+    u:   random error vector (constant variance assumed)
+    v:   matching vector of variance multipliers
+         if variance of u is 1, then variance of result with be v
+         
+    Returns:
+    --------
+    hu:   matching vector with heteroskedastic errors
+    
+    """
+    n0 = u.shape[0]
+    n1 = v.shape[0]
+    if n0 != n1:
+        print("Error: incompatible vector dimensions")
+        return None
+    # multiply error with square root of variance multiplier v
+    sev = np.sqrt(v)
+    hu = u * sev
+    return hu
+
+def make_vmult(n,method="linear",vlow=[1],vup=[4],rng=None):
+    
+    """
+    make_vmult : helper function to create variance multiplier
+                 for use in heteroskedastic errors (dgp_heterror)
+                 
+    Arguments:
+    ----------
+    n:        number of observations
+    method:   type of multiplier             
+                 linear:  linear interpolation between vlow and vup
+                 group: groupwise heteroskedasticity of vup by group vlow
+                 uniform: uniform random number between vlow and vup
+    vlow:     list with lower variance multiplier (default=1) or group indicators
+                 group indicators give number of elements in each group, must add up to n       
+    vup:      list with upper variance multiplier (default=4) or group variance multipliers
+                 list of group variance multipliers must match length of vlow
+    rng:      random number object (required for method=uniform, otherwise None)
+    
+    Returns:
+    --------
+    v:        nx1 vector with variance multipliers
+
+    """
+    v = np.ones((n,1))
+    if method == "uniform":
+        if not(rng == None):
+            v = rng.uniform(low=vlow[0],high=vup[0],size=n)
+            v = v.reshape(-1,1)
+        else:
+            print("Error: Missing random number object")
+            return None
+    elif method == "linear":
+        vlo = vlow[0]
+        slop = (vup[0] - vlow[0])/(n-1)
+        for i in range(n):
+            v[i,0] = vlo + slop*i
+    elif method == "group":
+        if len(vup) == len(vlow) and sum(vlow) == n:
+            h = [[i]*j for i,j in zip(vup,vlow)]    # one sublist for each group
+            # flatten list and convert to numpy array
+            hh = []
+            for ii in h:
+                hh += ii
+            v = np.array(hh)
+            v = v.reshape(-1,1)    
+        else:
+            print("Error: Incompatible dimensions")
+            v = None
+    else:
+        print('Error: Unsupported method')
+        v = None
+    return v
+
+def _test():
+    import doctest
+
+    start_suppress = np.get_printoptions()["suppress"]
+    np.set_printoptions(suppress=True)
+    doctest.testmod()
+    np.set_printoptions(suppress=start_suppress)
+
+if __name__ == "__main__":
+    _test()
     
\ No newline at end of file
diff --git a/spreg/diagnostics_probit.py b/spreg/diagnostics_probit.py
index 5e1f83f..bf1428a 100644
--- a/spreg/diagnostics_probit.py
+++ b/spreg/diagnostics_probit.py
@@ -1,343 +1,343 @@
-"""
-Diagnostics in probit regression. 
-        
-"""
-__author__ = (
-    "Luc Anselin lanselin@gmail.com, Pedro Amaral pedrovma@gmail.com "
-)
-
-from math import sqrt, pi
-
-from libpysal.common import MISSINGVALUE
-import numpy as np
-import numpy.linalg as la
-import scipy.sparse as SP
-from scipy import stats
-from scipy.stats import norm
-
-__all__ = [
-    "pred_table",
-    "probit_fit",
-    "probit_lrtest",
-    "mcfad_rho",
-    "probit_ape",
-    "sp_tests",
-    "moran_KP",
-]
-
-
-def pred_table(reg):
-    """
-    Calculates a table comparing predicted to actual outcomes for a 
-    discrete choice model
-
-    Parameters
-    ----------
-    reg             : regression object
-                      output instance from a probit regression model
-
-    Returns
-    ----------
-    predtab_vals    : dictionary
-                      includes margins and cells of actual and predicted
-                      values for discrete choice model
-                      actpos   : observed positives (=1)
-                      actneg   : observed negatives (=0)
-                      predpos  : predicted positives 
-                      predneg  : predicted negatives
-                      truepos  : predicted 1 when actual = 1
-                      falsepos : predicted 1 when actual = 0
-                      trueneg  : predicted 0 when actual = 0
-                      falseneg : predicted 0 when actual = 1
-
-    """
-    predtab_vals = {}
-    pos = reg.y.sum()
-    predtab_vals["actpos"] = int(pos)
-    neg = reg.n - pos
-    predtab_vals["actneg"] = int(neg)
-    act1 = (reg.y == 1) * 1
-    act0 = (reg.y == 0) * 1
-    ppos = reg.predybin.sum()
-    predtab_vals["predpos"] = ppos
-    pneg = reg.n - ppos
-    predtab_vals["predneg"] = pneg
-    pred1 = (reg.predybin == 1) * 1
-    pred0 = (reg.predybin == 0) * 1
-    truep = (pred1 * act1) * 1
-    predtab_vals["truepos"] = truep.sum()
-    truen = (pred0 * act0) * 1
-    predtab_vals["trueneg"] = truen.sum()
-    fpos = (pred1 * act0) * 1
-    predtab_vals["falsepos"] = fpos.sum()
-    fneg = (pred0 * act1) * 1
-    predtab_vals["falseneg"] = fneg.sum()
-
-    return predtab_vals
-
-
-def probit_fit(reg):
-    """
-    Various measures of fit for discrete choice models, derived from the
-    prediction table (pred_table)
-    
-    Parameters
-    ----------
-    reg             : regression object
-                      output instance from a probit regression model
-                      must contain predtable attribute
-
-    Returns
-    ----------
-    prob_fit    : a dictionary containing various measures of fit
-                  TPR    : true positive rate (sensitivity, recall, hit rate)
-                  TNR    : true negative rate (specificity, selectivity)
-                  PREDPC : accuracy, percent correctly predicted
-                  BA     : balanced accuracy
-    
-    """
-
-    prob_fit = {}
-    prob_fit["TPR"] = 100.0 * reg.predtable["truepos"] / reg.predtable["actpos"]
-    prob_fit["TNR"] = 100.0 * reg.predtable["trueneg"] / reg.predtable["actneg"]
-    prob_fit["BA"] = (prob_fit["TPR"] + prob_fit["TNR"])/2.0
-    prob_fit["PREDPC"] = 100.0 * (reg.predtable["truepos"] + reg.predtable["trueneg"]) / reg.n
-
-    return prob_fit
-
-def probit_lrtest(regprob):
-    """
-    Likelihood ratio test statistic for probit model
-
-    Parameters
-    ----------
-    regprob      : probit regression object
-
-    Returns
-    -------
-
-    likratio     : dictionary
-                   contains the statistic for the null model (L0), the LR test(likr), 
-                   the degrees of freedom (df) and the p-value (pvalue)
-    L0           : float
-                   log likelihood of null model
-    likr         : float
-                   likelihood ratio statistic
-    df           : integer
-                   degrees of freedom
-    p-value      : float
-                   p-value
-    """
-
-    likratio = {}
-    P = np.mean(regprob.y)
-    L0 = regprob.n * (P * np.log(P) + (1 - P) * np.log(1 - P))
-    likratio["L0"] = L0
-    LR = -2.0 * (L0 - regprob.logl)
-    likratio["likr"] = LR
-    likratio["df"] = regprob.k - 1
-    pval = stats.chisqprob(LR, regprob.k - 1)
-    likratio["p-value"] = pval
-
-    return likratio
-
-def mcfad_rho(regprob):
-    """
-    McFadden's rho measure of fit
-
-    Parameters
-    ---------
-    regprob    : probit regression object
-
-    Returns
-    -------
-    rho        : McFadden's rho (1 - L/L0)
-    
-    """
-
-    rho = 1.0 - (regprob.logl / regprob.L0)
-    return rho
-
-def probit_ape(regprob):
-    """
-    Average partial effects
-
-    Parameters
-    ----------
-    regprob   : probit regression object
-
-    Returns
-    -------
-    tuple with:
-        scale          : the scale of the marginal effects, determined by regprob.scalem
-                         Default: 'phimean' (Mean of individual marginal effects)
-                         Alternative: 'xmean' (Marginal effects at variables mean)
-        slopes         : marginal effects or average partial effects (not for constant)
-        slopes_vm      : estimates of variance of marginal effects (not for constant)
-        slopes_std_err : estimates of standard errors of marginal effects
-        slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
-    
-    """
-        
-
-    if regprob.scalem == "xmean":
-        xmb = regprob.xmean.T @ regprob.betas
-        scale = stats.norm.pdf(xmb)
-            
-    elif regprob.scalem == "phimean":
-        scale = np.mean(regprob.phiy,axis=0)
-
-    # average partial effects (no constant)
-    slopes = (regprob.betas[1:,0] * scale).reshape(-1,1)
-
-    # variance of partial effects
-    xmb = regprob.xmean.T @ regprob.betas
-    bxt = regprob.betas @ regprob.xmean.T
-    dfdb = np.eye(regprob.k) - xmb * bxt
-    slopes_vm = (scale ** 2) * ((dfdb @ regprob.vm) @ dfdb.T)
-
-    # standard errors
-    slopes_std_err = np.sqrt(slopes_vm[1:,1:].diagonal()).reshape(-1,1)
-
-    # z-stats and p-values
-    sl_zStat = slopes / slopes_std_err
-    slopes_z_stat = [(sl_zStat[i,0],stats.norm.sf(abs(sl_zStat[i,0])) * 2) for i in range(len(slopes))]
-
-
-    return (scale, slopes,slopes_vm[1:,1:],slopes_std_err,slopes_z_stat)
-
-
-def sp_tests(regprob=None, obj_list=None):
-    """
-    Calculates tests for spatial dependence in Probit models
-
-    Parameters
-    ----------
-    regprob     : regression object from spreg
-                  output instance from a probit model
-    obj_list    : list
-                  list of regression elements from both libpysal and statsmodels' ProbitResults
-                  The list should be such as:
-                  [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]               
-    
-    Returns
-    -------
-    tuple with LM_Err, moran, ps as 2x1 arrays with statistic and p-value
-               LM_Err: Pinkse
-               moran : Kelejian-Prucha generalized Moran
-               ps    : Pinkse-Slade
-
-    Examples
-    --------
-    The results of this function will be automatically added to the output of the probit model if using spreg.
-    If using the Probit estimator from statsmodels, the user can call the function with the obj_list argument.
-    The argument obj_list should be a list with the following elements, in this order:
-    [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]
-    The function will then return and print the results of the spatial diagnostics.
-
-    >>> import libpysal
-    >>> import statsmodels.api as sm
-    >>> import geopandas as gpd
-    >>> from spreg.diagnostics_probit import sp_tests
-
-    >>> columb = libpysal.examples.load_example('Columbus')
-    >>> dfs = gpd.read_file(columb.get_path("columbus.shp"))
-    >>> w = libpysal.weights.Queen.from_dataframe(dfs)
-    >>> w.transform='r'
-
-    >>> y = (dfs["CRIME"] > 40).astype(float)
-    >>> X = dfs[["INC","HOVAL"]]
-    >>> X = sm.add_constant(X)
-
-    >>> probit_mod = sm.Probit(y, X)
-    >>> probit_res = probit_mod.fit(disp=False)
-    >>> LM_err, moran, ps = sp_tests(obj_list=[w, probit_res.fittedvalues, probit_res.resid_response, probit_res.resid_generalized])
-    PROBIT MODEL DIAGNOSTICS FOR SPATIAL DEPENDENCE
-    TEST                              DF         VALUE           PROB
-    Kelejian-Prucha (error)           1          1.721           0.0852
-    Pinkse (error)                    1          3.132           0.0768
-    Pinkse-Slade (error)              1          2.558           0.1097
-
-    """
-    if regprob:
-        w, Phi, phi, u_naive, u_gen, n = regprob.w, regprob.predy, regprob.phiy, regprob.u_naive, regprob.u_gen, regprob.n
-    elif obj_list:
-        w, fittedvalues, u_naive, u_gen = obj_list
-        Phi = norm.cdf(fittedvalues)
-        phi = norm.pdf(fittedvalues)
-        n = w.n
-
-    try:
-        w = w.sparse
-    except:
-        w = w
-        
-    # Pinkse_error:
-    Phi_prod = Phi * (1 - Phi)
-    sig2 = np.sum((phi * phi) / Phi_prod) / n
-    LM_err_num = np.dot(u_gen.T, (w @ u_gen)) ** 2
-    trWW = np.sum((w @ w).diagonal())
-    trWWWWp = trWW + np.sum((w @ w.T).diagonal())
-    LM_err = (1.0 * LM_err_num / (sig2 ** 2 * trWWWWp)).item()
-    LM_err = np.array([LM_err, stats.chisqprob(LM_err, 1)])
-    # KP_error:
-    moran = moran_KP(w, u_naive, Phi_prod)
-    # Pinkse-Slade_error:
-    u_std = u_naive / np.sqrt(Phi_prod)
-    ps_num = np.dot(u_std.T, (w @ u_std)) ** 2
-    trWpW = np.sum((w.T @ w).diagonal())
-    ps = (ps_num / (trWW + trWpW)).item()
-    # chi-square instead of bootstrap.
-    ps = np.array([ps, stats.chisqprob(ps, 1)])
-
-    if obj_list:
-        from .output import _probit_out
-        reg_simile = type('reg_simile', (object,), {})()
-        reg_simile.Pinkse_error = LM_err
-        reg_simile.KP_error = moran
-        reg_simile.PS_error = ps
-        print("PROBIT MODEL "+_probit_out(reg_simile, spat_diag=True, sptests_only=True)[1:])
-
-    return LM_err, moran, ps
-
-def moran_KP(w, u, sig2i):
-    """
-    Calculates Kelejian-Prucha Moran-flavoured tests
-
-    Parameters
-    ----------
-
-    w           : W
-                  PySAL weights instance aligned with y
-    u           : array
-                  nx1 array of naive residuals
-    sig2i       : array
-                  nx1 array of individual variance
-
-    Returns
-    -------
-    moran       : array, Kelejian-Prucha Moran's I with p-value   
-    """
-    try:
-        w = w.sparse
-    except:
-        pass
-    moran_num = np.dot(u.T, (w @ u))
-    E = SP.lil_matrix(w.shape)
-    E.setdiag(sig2i.flat)
-    E = E.asformat("csr")
-    WE = w @ E
-    moran_den = np.sqrt(np.sum((WE @ WE + (w.T @ E) @ WE).diagonal()))
-    moran = (1.0 * moran_num / moran_den).item()
-    moran = np.array([moran, stats.norm.sf(abs(moran)) * 2.0])
-    return moran
-
-
-def _test():
-    import doctest
-
-    doctest.testmod()
-
-
-if __name__ == "__main__":
-    _test()
+"""
+Diagnostics in probit regression. 
+        
+"""
+__author__ = (
+    "Luc Anselin lanselin@gmail.com, Pedro Amaral pedrovma@gmail.com "
+)
+
+from math import sqrt, pi
+
+from libpysal.common import MISSINGVALUE
+import numpy as np
+import numpy.linalg as la
+import scipy.sparse as SP
+from scipy import stats
+from scipy.stats import norm
+
+__all__ = [
+    "pred_table",
+    "probit_fit",
+    "probit_lrtest",
+    "mcfad_rho",
+    "probit_ape",
+    "sp_tests",
+    "moran_KP",
+]
+
+
+def pred_table(reg):
+    """
+    Calculates a table comparing predicted to actual outcomes for a 
+    discrete choice model
+
+    Parameters
+    ----------
+    reg             : regression object
+                      output instance from a probit regression model
+
+    Returns
+    ----------
+    predtab_vals    : dictionary
+                      includes margins and cells of actual and predicted
+                      values for discrete choice model
+                      actpos   : observed positives (=1)
+                      actneg   : observed negatives (=0)
+                      predpos  : predicted positives 
+                      predneg  : predicted negatives
+                      truepos  : predicted 1 when actual = 1
+                      falsepos : predicted 1 when actual = 0
+                      trueneg  : predicted 0 when actual = 0
+                      falseneg : predicted 0 when actual = 1
+
+    """
+    predtab_vals = {}
+    pos = reg.y.sum()
+    predtab_vals["actpos"] = int(pos)
+    neg = reg.n - pos
+    predtab_vals["actneg"] = int(neg)
+    act1 = (reg.y == 1) * 1
+    act0 = (reg.y == 0) * 1
+    ppos = reg.predybin.sum()
+    predtab_vals["predpos"] = ppos
+    pneg = reg.n - ppos
+    predtab_vals["predneg"] = pneg
+    pred1 = (reg.predybin == 1) * 1
+    pred0 = (reg.predybin == 0) * 1
+    truep = (pred1 * act1) * 1
+    predtab_vals["truepos"] = truep.sum()
+    truen = (pred0 * act0) * 1
+    predtab_vals["trueneg"] = truen.sum()
+    fpos = (pred1 * act0) * 1
+    predtab_vals["falsepos"] = fpos.sum()
+    fneg = (pred0 * act1) * 1
+    predtab_vals["falseneg"] = fneg.sum()
+
+    return predtab_vals
+
+
+def probit_fit(reg):
+    """
+    Various measures of fit for discrete choice models, derived from the
+    prediction table (pred_table)
+    
+    Parameters
+    ----------
+    reg             : regression object
+                      output instance from a probit regression model
+                      must contain predtable attribute
+
+    Returns
+    ----------
+    prob_fit    : a dictionary containing various measures of fit
+                  TPR    : true positive rate (sensitivity, recall, hit rate)
+                  TNR    : true negative rate (specificity, selectivity)
+                  PREDPC : accuracy, percent correctly predicted
+                  BA     : balanced accuracy
+    
+    """
+
+    prob_fit = {}
+    prob_fit["TPR"] = 100.0 * reg.predtable["truepos"] / reg.predtable["actpos"]
+    prob_fit["TNR"] = 100.0 * reg.predtable["trueneg"] / reg.predtable["actneg"]
+    prob_fit["BA"] = (prob_fit["TPR"] + prob_fit["TNR"])/2.0
+    prob_fit["PREDPC"] = 100.0 * (reg.predtable["truepos"] + reg.predtable["trueneg"]) / reg.n
+
+    return prob_fit
+
+def probit_lrtest(regprob):
+    """
+    Likelihood ratio test statistic for probit model
+
+    Parameters
+    ----------
+    regprob      : probit regression object
+
+    Returns
+    -------
+
+    likratio     : dictionary
+                   contains the statistic for the null model (L0), the LR test(likr), 
+                   the degrees of freedom (df) and the p-value (pvalue)
+    L0           : float
+                   log likelihood of null model
+    likr         : float
+                   likelihood ratio statistic
+    df           : integer
+                   degrees of freedom
+    p-value      : float
+                   p-value
+    """
+
+    likratio = {}
+    P = np.mean(regprob.y)
+    L0 = regprob.n * (P * np.log(P) + (1 - P) * np.log(1 - P))
+    likratio["L0"] = L0
+    LR = -2.0 * (L0 - regprob.logl)
+    likratio["likr"] = LR
+    likratio["df"] = regprob.k - 1
+    pval = stats.chisqprob(LR, regprob.k - 1)
+    likratio["p-value"] = pval
+
+    return likratio
+
+def mcfad_rho(regprob):
+    """
+    McFadden's rho measure of fit
+
+    Parameters
+    ---------
+    regprob    : probit regression object
+
+    Returns
+    -------
+    rho        : McFadden's rho (1 - L/L0)
+    
+    """
+
+    rho = 1.0 - (regprob.logl / regprob.L0)
+    return rho
+
+def probit_ape(regprob):
+    """
+    Average partial effects
+
+    Parameters
+    ----------
+    regprob   : probit regression object
+
+    Returns
+    -------
+    tuple with:
+        scale          : the scale of the marginal effects, determined by regprob.scalem
+                         Default: 'phimean' (Mean of individual marginal effects)
+                         Alternative: 'xmean' (Marginal effects at variables mean)
+        slopes         : marginal effects or average partial effects (not for constant)
+        slopes_vm      : estimates of variance of marginal effects (not for constant)
+        slopes_std_err : estimates of standard errors of marginal effects
+        slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
+    
+    """
+        
+
+    if regprob.scalem == "xmean":
+        xmb = regprob.xmean.T @ regprob.betas
+        scale = stats.norm.pdf(xmb)
+            
+    elif regprob.scalem == "phimean":
+        scale = np.mean(regprob.phiy,axis=0)
+
+    # average partial effects (no constant)
+    slopes = (regprob.betas[1:,0] * scale).reshape(-1,1)
+
+    # variance of partial effects
+    xmb = regprob.xmean.T @ regprob.betas
+    bxt = regprob.betas @ regprob.xmean.T
+    dfdb = np.eye(regprob.k) - xmb * bxt
+    slopes_vm = (scale ** 2) * ((dfdb @ regprob.vm) @ dfdb.T)
+
+    # standard errors
+    slopes_std_err = np.sqrt(slopes_vm[1:,1:].diagonal()).reshape(-1,1)
+
+    # z-stats and p-values
+    sl_zStat = slopes / slopes_std_err
+    slopes_z_stat = [(sl_zStat[i,0],stats.norm.sf(abs(sl_zStat[i,0])) * 2) for i in range(len(slopes))]
+
+
+    return (scale, slopes,slopes_vm[1:,1:],slopes_std_err,slopes_z_stat)
+
+
+def sp_tests(regprob=None, obj_list=None):
+    """
+    Calculates tests for spatial dependence in Probit models
+
+    Parameters
+    ----------
+    regprob     : regression object from spreg
+                  output instance from a probit model
+    obj_list    : list
+                  list of regression elements from both libpysal and statsmodels' ProbitResults
+                  The list should be such as:
+                  [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]               
+    
+    Returns
+    -------
+    tuple with LM_Err, moran, ps as 2x1 arrays with statistic and p-value
+               LM_Err: Pinkse
+               moran : Kelejian-Prucha generalized Moran
+               ps    : Pinkse-Slade
+
+    Examples
+    --------
+    The results of this function will be automatically added to the output of the probit model if using spreg.
+    If using the Probit estimator from statsmodels, the user can call the function with the obj_list argument.
+    The argument obj_list should be a list with the following elements, in this order:
+    [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]
+    The function will then return and print the results of the spatial diagnostics.
+
+    >>> import libpysal
+    >>> import statsmodels.api as sm
+    >>> import geopandas as gpd
+    >>> from spreg.diagnostics_probit import sp_tests
+
+    >>> columb = libpysal.examples.load_example('Columbus')
+    >>> dfs = gpd.read_file(columb.get_path("columbus.shp"))
+    >>> w = libpysal.weights.Queen.from_dataframe(dfs)
+    >>> w.transform='r'
+
+    >>> y = (dfs["CRIME"] > 40).astype(float)
+    >>> X = dfs[["INC","HOVAL"]]
+    >>> X = sm.add_constant(X)
+
+    >>> probit_mod = sm.Probit(y, X)
+    >>> probit_res = probit_mod.fit(disp=False)
+    >>> LM_err, moran, ps = sp_tests(obj_list=[w, probit_res.fittedvalues, probit_res.resid_response, probit_res.resid_generalized])
+    PROBIT MODEL DIAGNOSTICS FOR SPATIAL DEPENDENCE
+    TEST                              DF         VALUE           PROB
+    Kelejian-Prucha (error)           1          1.721           0.0852
+    Pinkse (error)                    1          3.132           0.0768
+    Pinkse-Slade (error)              1          2.558           0.1097
+
+    """
+    if regprob:
+        w, Phi, phi, u_naive, u_gen, n = regprob.w, regprob.predy, regprob.phiy, regprob.u_naive, regprob.u_gen, regprob.n
+    elif obj_list:
+        w, fittedvalues, u_naive, u_gen = obj_list
+        Phi = norm.cdf(fittedvalues)
+        phi = norm.pdf(fittedvalues)
+        n = w.n
+
+    try:
+        w = w.sparse
+    except:
+        w = w
+        
+    # Pinkse_error:
+    Phi_prod = Phi * (1 - Phi)
+    sig2 = np.sum((phi * phi) / Phi_prod) / n
+    LM_err_num = np.dot(u_gen.T, (w @ u_gen)) ** 2
+    trWW = np.sum((w @ w).diagonal())
+    trWWWWp = trWW + np.sum((w @ w.T).diagonal())
+    LM_err = (1.0 * LM_err_num / (sig2 ** 2 * trWWWWp)).item()
+    LM_err = np.array([LM_err, stats.chisqprob(LM_err, 1)])
+    # KP_error:
+    moran = moran_KP(w, u_naive, Phi_prod)
+    # Pinkse-Slade_error:
+    u_std = u_naive / np.sqrt(Phi_prod)
+    ps_num = np.dot(u_std.T, (w @ u_std)) ** 2
+    trWpW = np.sum((w.T @ w).diagonal())
+    ps = (ps_num / (trWW + trWpW)).item()
+    # chi-square instead of bootstrap.
+    ps = np.array([ps, stats.chisqprob(ps, 1)])
+
+    if obj_list:
+        from .output import _probit_out
+        reg_simile = type('reg_simile', (object,), {})()
+        reg_simile.Pinkse_error = LM_err
+        reg_simile.KP_error = moran
+        reg_simile.PS_error = ps
+        print("PROBIT MODEL "+_probit_out(reg_simile, spat_diag=True, sptests_only=True)[1:])
+
+    return LM_err, moran, ps
+
+def moran_KP(w, u, sig2i):
+    """
+    Calculates Kelejian-Prucha Moran-flavoured tests
+
+    Parameters
+    ----------
+
+    w           : W
+                  PySAL weights instance aligned with y
+    u           : array
+                  nx1 array of naive residuals
+    sig2i       : array
+                  nx1 array of individual variance
+
+    Returns
+    -------
+    moran       : array, Kelejian-Prucha Moran's I with p-value   
+    """
+    try:
+        w = w.sparse
+    except:
+        pass
+    moran_num = np.dot(u.T, (w @ u))
+    E = SP.lil_matrix(w.shape)
+    E.setdiag(sig2i.flat)
+    E = E.asformat("csr")
+    WE = w @ E
+    moran_den = np.sqrt(np.sum((WE @ WE + (w.T @ E) @ WE).diagonal()))
+    moran = (1.0 * moran_num / moran_den).item()
+    moran = np.array([moran, stats.norm.sf(abs(moran)) * 2.0])
+    return moran
+
+
+def _test():
+    import doctest
+
+    doctest.testmod()
+
+
+if __name__ == "__main__":
+    _test()
diff --git a/spreg/probit.py b/spreg/probit.py
index 85db533..90d526e 100755
--- a/spreg/probit.py
+++ b/spreg/probit.py
@@ -1,585 +1,585 @@
-"""Probit regression class and diagnostics."""
-
-__author__ = "Luc Anselin lanselin@gmail.com, Pedro V. Amaral pedrovma@gmail.com"
-
-import numpy as np
-import numpy.linalg as la
-import scipy.optimize as op
-import pandas as pd
-from scipy.stats import norm, chi2
-from libpysal import weights
-chisqprob = chi2.sf
-import scipy.sparse as SP
-from . import user_output as USER
-from . import diagnostics as DIAGNOSTICS  
-from . import diagnostics_probit as PROBDIAG   
-from .output import output, _probit_out
-from .utils import spdot, spbroadcast, set_warn
-
-__all__ = ["Probit"]
-
-class BaseProbit():
-    """
-    Probit class to do the core estimation
-
-    Parameters
-    ----------
-
-    x           : array
-                  nxk array of independent variables (assumed to be aligned with y)
-    y           : array
-                  nx1 array of dependent binary variable
-    optim       : string
-                  Optimization method.
-                  Default: 'newton' (Newton-Raphson).
-                  Alternatives: 'ncg' (Newton-CG), 'bfgs' (BFGS algorithm)
-    bstart      : list with starting values for betas
-    maxiter     : int
-                  Maximum number of iterations until optimizer stops
-
-    Attributes
-    ----------
-    x           : array
-                  Two dimensional array with n rows and one column for each
-                  independent (exogenous) variable, including the constant
-    xmean       : array
-                  kx1 vector with means of explanatory variables
-                  (for use in slopes)
-    y           : array
-                  nx1 array of dependent variable
-    optim       : string
-                  optimization method
-    maxiter     : int
-                  maximum number of iterations
-    q           : array
-                  nx1 array of transformed dependent variable 2*y - 1
-    betas       : array
-                  kx1 array with estimated coefficients
-    bstart      : list with starting values
-    predy       : array
-                  nx1 array of predicted y values (probabilities)
-    n           : int
-                  Number of observations
-    k           : int
-                  Number of variables
-    vm          : array
-                  Variance-covariance matrix (kxk)
-    logl        : float
-                  Log-Likelihhod of the estimation
-    xb          : predicted value of linear index
-                  nx1 array
-    predybin    : predicted value as binary
-                  =1 for predy > 0.5
-    phiy        : normal density at xb (phi function)
-                  nx1 array
-    u_naive     : naive residuals y - predy
-                  nx1 array
-    u_gen       : generalized residuals
-                  nx1 array
-    warning     : boolean
-                  if True Maximum number of iterations exceeded or gradient
-                  and/or function calls not changing.
-
-    Examples - needs updating
-    --------
-    >>> import numpy as np
-    >>> import libpysal
-    >>> import spreg
-    >>> np.set_printoptions(suppress=True) #prevent scientific format
-    >>> dbf = libpysal.io.open(libpysal.examples.get_path('columbus.dbf'),'r')
-    >>> y = np.array([dbf.by_col('CRIME')]).T
-    >>> x = np.array([dbf.by_col('INC'), dbf.by_col('HOVAL')]).T
-    >>> x = np.hstack((np.ones(y.shape),x))
-    >>> model = spreg.probit.BaseProbit((y>40).astype(float), x)
-    >>> print(np.around(model.betas, decimals=6))
-    [[ 3.353811]
-     [-0.199653]
-     [-0.029514]]
-
-    >>> print(np.around(model.vm, decimals=6))
-    [[ 0.852814 -0.043627 -0.008052]
-     [-0.043627  0.004114 -0.000193]
-     [-0.008052 -0.000193  0.00031 ]]
-
-    """
-
-    def __init__(self, y, x, optim="newton",bstart=False,maxiter=100):
-        self.y = y
-        self.q = 2* self.y - 1
-        self.x = x
-        self.xmean =  np.mean(self.x,axis=0).reshape(-1,1)
-        self.n, self.k = x.shape
-        self.optim = optim
-        self.bstart = bstart
-        self.maxiter = maxiter
-
-        par_est, self.warning = self.par_est()
-        self.betas = par_est[0].reshape(-1,1)
-
-        self.logl = -par_est[1].item()
-        H = self.hessian(self.betas)
-        self.vm = - la.inv(H)
-
-        # predicted values
-        self.xb = self.x @ self.betas
-        self.predy = norm.cdf(self.xb)
-        self.predybin = (self.predy > 0.5) * 1
-        self.phiy = norm.pdf(self.xb)
-        
-        # residuals
-        self.u_naive = self.y - self.predy
-        Phi_prod = self.predy * (1.0 - self.predy)
-        self.u_gen = self.phiy * (self.u_naive / Phi_prod)
-
-
-    def par_est(self):
-
-        if self.bstart:
-            if len(self.bstart) != self.k:
-                raise Exception("Incompatible number of parameters in starting values")
-            else:
-                start = np.array(self.bstart).reshape(-1,1)
-        else:
-            xtx = self.x.T @ self.x
-            xty = self.x.T @ self.y
-            start = la.solve(xtx,xty)
-
-        flogl = lambda par: -self.ll(par)
-
-        if self.optim == "newton":
-            fgrad = lambda par: self.gradient(par)
-            fhess = lambda par: self.hessian(par)
-            par_hat = newton(flogl, start, fgrad, fhess, self.maxiter)
-            warn = par_hat[2]
-        else:
-            fgrad = lambda par: -self.gradient(par)
-            if self.optim == "bfgs":
-                par_hat = op.fmin_bfgs(flogl, start, fgrad, full_output=1, disp=0)
-                warn = par_hat[6]
-            if self.optim == "ncg":
-                fhess = lambda par: -self.hessian(par)
-                par_hat = op.fmin_ncg(
-                    flogl, start, fgrad, fhess=fhess, full_output=1, disp=0
-                )
-                warn = par_hat[5]
-        if warn > 0:
-            warn = True
-        else:
-            warn = False
-        return par_hat, warn
-
-    def ll(self, par):
-        beta = np.reshape(np.array(par), (self.k, 1))
-        q = 2 * self.y - 1
-        qxb = q * spdot(self.x, beta)
-        ll = sum(np.log(norm.cdf(qxb)))
-        return ll
-
-    def gradient(self, par):
-        beta = np.reshape(np.array(par), (self.k, 1))
-        q = 2 * self.y - 1
-        qxb = q * spdot(self.x, beta)
-        lamb = q * norm.pdf(qxb) / norm.cdf(qxb)
-        gradient = spdot(lamb.T, self.x)[0]
-        return gradient
-
-    def hessian(self, par):
-        beta = np.reshape(np.array(par), (self.k, 1))
-        q = 2 * self.y - 1
-        xb = spdot(self.x, beta)
-        qxb = q * xb
-        lamb = q * norm.pdf(qxb) / norm.cdf(qxb)
-        hessian = spdot(self.x.T, spbroadcast(self.x, -lamb * (lamb + xb)))
-        return hessian
-
-
-class Probit(BaseProbit):
-
-    """
-    Classic non-spatial Probit and spatial diagnostics. The class includes a
-    printout that formats all the results and tests in a nice format.
-
-    The diagnostics for spatial dependence currently implemented are:
-
-    * Pinkse Error :cite:`Pinkse2004`
-
-    * Kelejian and Prucha Moran's I :cite:`Kelejian2001`
-
-    * Pinkse & Slade Error :cite:`Pinkse1998`
-
-    Parameters
-    ----------
-
-    x           : numpy.ndarray or pandas object
-                  nxk array of independent variables (assumed to be aligned with y)
-    y           : numpy.ndarray or pandas.Series
-                  nx1 array of dependent binary variable
-    w           : W
-                  PySAL weights instance aligned with y
-    slx_lags    : integer
-                  Number of spatial lags of X to include in the model specification.
-                  If slx_lags>0, the specification becomes of the SLX type.
-    slx_vars    : variables to be lagged when slx_lags > 0
-                  default = "All", otherwise a list with Booleans indicating which
-                  variables must be lagged (True) or not (False)
-    optim       : string
-                  Optimization method.
-                  Default: 'newton' (Newton-Raphson).
-                  Alternatives: 'ncg' (Newton-CG), 'bfgs' (BFGS algorithm)
-    bstart      : list
-                  list with starting values for betas, default = False
-    scalem      : string
-                  Method to calculate the scale of the marginal effects.
-                  Default: 'phimean' (Mean of individual marginal effects)
-                  Alternative: 'xmean' (Marginal effects at variables mean)
-    predflag    : flag to print prediction table
-    maxiter     : int
-                  Maximum number of iterations until optimizer stops
-    name_y       : string
-                   Name of dependent variable for use in output
-    name_x       : list of strings
-                   Names of independent variables for use in output
-    name_w       : string
-                   Name of weights matrix for use in output
-    name_ds      : string
-                   Name of dataset for use in output
-
-    Attributes 
-    ----------
-
-    x           : array
-                  Two dimensional array with n rows and one column for each
-                  independent (exogenous) variable, including the constant
-    xmean       : array
-                  kx1 vector with means of explanatory variables
-                  (for use in slopes)
-    y           : array
-                  nx1 array of dependent variable
-    w           : spatial weights object
-    optim       : string
-                  optimization method
-    predflag    : flag to print prediction table (predtable)
-    maxiter     : int
-                  maximum number of iterations
-    q           : array
-                  nx1 array of transformed dependent variable 2*y - 1
-    betas       : array
-                  kx1 array with estimated coefficients
-    bstart      : list with starting values for betas or False
-    predy       : array
-                  nx1 array of predicted y values (probabilities)
-    n           : int
-                  Number of observations
-    k           : int
-                  Number of variables
-    vm          : array
-                  Variance-covariance matrix (kxk)
-    logl        : float
-                  Log-Likelihhod of the estimation
-    xb          : predicted value of linear index
-                  nx1 array
-    predybin    : predicted value as binary
-                  =1 for predy > 0.5
-    phiy        : normal density at xb (phi function)
-                  nx1 array
-    u_naive     : naive residuals y - predy
-                  nx1 array
-    u_gen       : generalized residuals
-                  nx1 array
-    warning     : boolean
-                  if True Maximum number of iterations exceeded or gradient
-                  and/or function calls not changing.
-    std_err     : standard errors of estimates
-    z_stat      : list of tuples
-                  z statistic; each tuple contains the pair (statistic,
-                  p-value), where each is a float
-    predtable   : dictionary
-                  includes margins and cells of actual and predicted
-                  values for discrete choice model
-    fit         : a dictionary containing various measures of fit
-                  TPR    : true positive rate (sensitivity, recall, hit rate)
-                  TNR    : true negative rate (specificity, selectivity)
-                  PREDPC : accuracy, percent correctly predicted
-                  BA     : balanced accuracy
-    predpc      : float
-                  Percent of y correctly predicted (legacy)
-    LRtest      : dictionary
-                   contains the statistic for the null model (L0), the LR test(likr), 
-                   the degrees of freedom (df) and the p-value (pvalue)
-    L0          : likelihood of null model
-    LR          : tuple (legacy)
-                  Likelihood Ratio test of all coefficients = 0
-                  (test statistics, p-value)
-    mcfadrho    : McFadden rho statistics of fit
-    scale       : float
-                  Scale of the marginal effects.
-    slopes      : array
-                  Marginal effects of the independent variables (k-1x1)
-    slopes_vm   : array
-                  Variance-covariance matrix of the slopes (k-1xk-1)
-    slopes_std_err : estimates of standard errors of marginal effects
-    slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
-    Pinkse_error: array with statistic and p-value
-                  Lagrange Multiplier test against spatial error correlation.
-                  Implemented as presented in :cite:`Pinkse2004`
-    KP_error    : array with statistic and p-value
-                  Moran's I type test against spatial error correlation.
-                  Implemented as presented in :cite:`Kelejian2001`
-    PS_error    : array with statistic and p-value
-                  Lagrange Multiplier test against spatial error correlation.
-                  Implemented as presented in :cite:`Pinkse1998`
-    name_y       : string
-                   Name of dependent variable for use in output
-    name_x       : list of strings
-                   Names of independent variables for use in output
-    name_w       : string
-                   Name of weights matrix for use in output
-    name_ds      : string
-                   Name of dataset for use in output
-    title        : string
-                   Name of the regression method used
-
-    Examples
-    --------
-
-    We first need to import the needed modules, namely numpy to convert the
-    data we read into arrays that ``spreg`` understands and ``libpysal`` to
-    perform all the analysis.
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> np.set_printoptions(suppress=True) #prevent scientific format
-
-    Open data on Columbus neighborhood crime (49 areas) using libpysal.io.open().
-    This is the DBF associated with the Columbus shapefile.  Note that
-    libpysal.io.open() also reads data in CSV format; since the actual class
-    requires data to be passed in as numpy arrays, the user can read their
-    data in using any method.
-
-    >>> dbf = libpysal.io.open(libpysal.examples.get_path('columbus.dbf'),'r')
-
-    Extract the CRIME column (crime) from the DBF file and make it the
-    dependent variable for the regression. Note that libpysal requires this to be
-    an numpy array of shape (n, 1) as opposed to the also common shape of (n, )
-    that other packages accept. Since we want to run a probit model and for this
-    example we use the Columbus data, we also need to transform the continuous
-    CRIME variable into a binary variable. As in :cite:`McMillen1992`, we define
-    y = 1 if CRIME > 40.
-
-    >>> y = np.array([dbf.by_col('CRIME')]).T
-    >>> y = (y>40).astype(float)
-
-    Extract HOVAL (home values) and INC (income) vectors from the DBF to be used as
-    independent variables in the regression.  Note that libpysal requires this to
-    be an nxj numpy array, where j is the number of independent variables (not
-    including a constant). By default this class adds a vector of ones to the
-    independent variables passed in.
-
-    >>> names_to_extract = ['INC', 'HOVAL']
-    >>> x = np.array([dbf.by_col(name) for name in names_to_extract]).T
-
-    Since we want to the test the probit model for spatial dependence, we need to
-    specify the spatial weights matrix that includes the spatial configuration of
-    the observations into the error component of the model. To do that, we can open
-    an already existing gal file or create a new one. In this case, we will use
-    ``columbus.gal``, which contains contiguity relationships between the
-    observations in the Columbus dataset we are using throughout this example.
-    Note that, in order to read the file, not only to open it, we need to
-    append '.read()' at the end of the command.
-
-    >>> w = libpysal.io.open(libpysal.examples.get_path("columbus.gal"), 'r').read()
-
-    Unless there is a good reason not to do it, the weights have to be
-    row-standardized so every row of the matrix sums to one. In libpysal, this
-    can be easily performed in the following way:
-
-    >>> w.transform='r'
-
-    We are all set with the preliminaries, we are good to run the model. In this
-    case, we will need the variables and the weights matrix. If we want to
-    have the names of the variables printed in the output summary, we will
-    have to pass them in as well, although this is optional.
-
-    >>> from spreg import Probit
-    >>> model = Probit(y, x, w=w, name_y='crime', name_x=['income','home value'], name_ds='columbus', name_w='columbus.gal')
-
-    Once we have run the model, we can explore a little bit the output. The
-    regression object we have created has many attributes so take your time to
-    discover them.
-
-    >>> np.around(model.betas, decimals=6)
-    array([[ 3.353811],
-           [-0.199653],
-           [-0.029514]])
-
-    >>> np.around(model.vm, decimals=6)
-    array([[ 0.852814, -0.043627, -0.008052],
-           [-0.043627,  0.004114, -0.000193],
-           [-0.008052, -0.000193,  0.00031 ]])
-
-    Since we have provided a spatial weigths matrix, the diagnostics for
-    spatial dependence have also been computed. We can access them and their
-    p-values individually:
-
-    >>> tests = np.array([['Pinkse_error','KP_error','PS_error']])
-    >>> stats = np.array([[model.Pinkse_error[0],model.KP_error[0],model.PS_error[0]]])
-    >>> pvalue = np.array([[model.Pinkse_error[1],model.KP_error[1],model.PS_error[1]]])
-    >>> print(np.hstack((tests.T,np.around(np.hstack((stats.T,pvalue.T)),6))))
-    [['Pinkse_error' '3.131719' '0.076783']
-     ['KP_error' '1.721312' '0.085194']
-     ['PS_error' '2.558166' '0.109726']]
-
-    Or we can easily obtain a full summary of all the results nicely formatted and
-    ready to be printed simply by typing 'print model.summary'
-
-    """
-
-    def __init__(
-        self,
-        y,
-        x,
-        w=None,
-        slx_lags=0,
-        slx_vars = "All",
-        optim="newton",
-        bstart=False,
-        scalem="phimean",
-        predflag = False,
-        maxiter=100,
-        vm=False,
-        name_y=None,
-        name_x=None,
-        name_w=None,
-        name_ds=None,
-        spat_diag=False,
-        latex=False,
-    ):
-
-        n = USER.check_arrays(y, x)
-        y, name_y = USER.check_y(y, n, name_y)
-        x_constant, name_x, warn = USER.check_constant(x, name_x)
-        set_warn(self, warn)
-        self.name_x = USER.set_name_x(name_x, x_constant)
-
-        w_required=False
-        if spat_diag:
-            w_required=True
-        w = USER.check_weights(w, y, w_required=w_required, slx_lags=slx_lags)
-
-        if slx_lags > 0:
-            x_constant,self.name_x = USER.flex_wx(w,x=x_constant,name_x=self.name_x,constant=True,
-                                            slx_lags=slx_lags,slx_vars=slx_vars)            
-
-        BaseProbit.__init__(
-            self, y=y, x=x_constant, optim=optim, bstart=bstart, maxiter=maxiter
-        )
-        self.title = "CLASSIC PROBIT ESTIMATOR"
-        if slx_lags > 0:
-           self.title += " WITH SPATIALLY LAGGED X (SLX)"        
-        self.slx_lags = slx_lags
-        self.name_ds = USER.set_name_ds(name_ds)
-        self.name_y = USER.set_name_y(name_y)
-        self.name_w = USER.set_name_w(name_w, w)
-
-        self.scalem = scalem
-        self.predflag = predflag  # flag to print prediction table
-        self.w = w   # note, not sparse
-
-        # standard errors and z, p-values
-        self.std_err = DIAGNOSTICS.se_betas(self)
-        self.z_stat = DIAGNOSTICS.t_stat(self,z_stat=True)
-
-        # truepos, trueneg, predpc - measures of fit
-        self.predtable = PROBDIAG.pred_table(self)
-        self.fit = PROBDIAG.probit_fit(self)
-        self.predpc = self.fit["PREDPC"]
-        self.LRtest = PROBDIAG.probit_lrtest(self)
-        self.L0 = self.LRtest["L0"]
-        self.LR = (self.LRtest["likr"],self.LRtest["p-value"])
-        self.mcfadrho = PROBDIAG.mcfad_rho(self)
-
-        # impact measures
-        scale,slopes,slopes_vm,slopes_std_err,slopes_z_stat = PROBDIAG.probit_ape(self)
-        self.scale = scale
-        self.slopes = slopes
-        self.slopes_vm = slopes_vm
-        self.slopes_std_err = slopes_std_err
-        self.slopes_z_stat = slopes_z_stat
-
-        # tests for spatial autocorrelation
-        if spat_diag:
-            self.Pinkse_error,self.KP_error,self.PS_error = PROBDIAG.sp_tests(regprob=self)
-
-        #output
-        self.output = pd.DataFrame(self.name_x, columns=['var_names'])
-        self.output['var_type'] = ['o'] + ['x'] * (len(self.name_x)-1)
-        self.output['regime'], self.output['equation'] = (0, 0)
-        self.other_top, self.other_mid, other_end = _probit_out(reg=self, spat_diag=spat_diag, predflag=predflag)
-        output(reg=self, vm=vm, robust=None, other_end=other_end, latex=latex)
-
-
-def newton(flogl, start, fgrad, fhess, maxiter):
-
-    """
-    Calculates the Newton-Raphson method
-
-    Parameters
-    ----------
-
-    flogl       : lambda
-                  Function to calculate the log-likelihood
-    start       : array
-                  kx1 array of starting values
-    fgrad       : lambda
-                  Function to calculate the gradient
-    fhess       : lambda
-                  Function to calculate the hessian
-    maxiter     : int
-                  Maximum number of iterations until optimizer stops
-    """
-    warn = 0
-    iteration = 0
-    par_hat0 = start
-    m = 1
-    while iteration < maxiter and m >= 1e-04:
-        H = -la.inv(fhess(par_hat0))
-        g = fgrad(par_hat0).reshape(start.shape)
-        Hg = np.dot(H, g)
-        par_hat0 = par_hat0 + Hg
-        iteration += 1
-        m = np.dot(g.T, Hg)
-    if iteration == maxiter:
-        warn = 1
-    logl = flogl(par_hat0)
-    return (par_hat0, logl, warn)
-
-
-def _test():
-    import doctest
-    start_suppress = np.get_printoptions()["suppress"]
-    np.set_printoptions(suppress=True)
-    doctest.testmod()
-    np.set_printoptions(suppress=start_suppress)
-
-if __name__ == "__main__":
-    _test()
-    import numpy as np
-    import libpysal
-
-    dbf = libpysal.io.open(libpysal.examples.get_path("columbus.dbf"), "r")
-    y = np.array([dbf.by_col("CRIME")]).T
-    var_x = ["INC", "HOVAL"]
-    x = np.array([dbf.by_col(name) for name in var_x]).T
-    w = libpysal.io.open(libpysal.examples.get_path("columbus.gal"), "r").read()
-    w.transform = "r"
-    probit1 = Probit(
-        (y > 40).astype(float),
-        x,
-        w=w,
-        name_x=var_x,
-        name_y="CRIME",
-        name_ds="Columbus",
-        name_w="columbus.dbf",
-    )
-    print(probit1.summary)
-
+"""Probit regression class and diagnostics."""
+
+__author__ = "Luc Anselin lanselin@gmail.com, Pedro V. Amaral pedrovma@gmail.com"
+
+import numpy as np
+import numpy.linalg as la
+import scipy.optimize as op
+import pandas as pd
+from scipy.stats import norm, chi2
+from libpysal import weights
+chisqprob = chi2.sf
+import scipy.sparse as SP
+from . import user_output as USER
+from . import diagnostics as DIAGNOSTICS  
+from . import diagnostics_probit as PROBDIAG   
+from .output import output, _probit_out
+from .utils import spdot, spbroadcast, set_warn
+
+__all__ = ["Probit"]
+
+class BaseProbit():
+    """
+    Probit class to do the core estimation
+
+    Parameters
+    ----------
+
+    x           : array
+                  nxk array of independent variables (assumed to be aligned with y)
+    y           : array
+                  nx1 array of dependent binary variable
+    optim       : string
+                  Optimization method.
+                  Default: 'newton' (Newton-Raphson).
+                  Alternatives: 'ncg' (Newton-CG), 'bfgs' (BFGS algorithm)
+    bstart      : list with starting values for betas
+    maxiter     : int
+                  Maximum number of iterations until optimizer stops
+
+    Attributes
+    ----------
+    x           : array
+                  Two dimensional array with n rows and one column for each
+                  independent (exogenous) variable, including the constant
+    xmean       : array
+                  kx1 vector with means of explanatory variables
+                  (for use in slopes)
+    y           : array
+                  nx1 array of dependent variable
+    optim       : string
+                  optimization method
+    maxiter     : int
+                  maximum number of iterations
+    q           : array
+                  nx1 array of transformed dependent variable 2*y - 1
+    betas       : array
+                  kx1 array with estimated coefficients
+    bstart      : list with starting values
+    predy       : array
+                  nx1 array of predicted y values (probabilities)
+    n           : int
+                  Number of observations
+    k           : int
+                  Number of variables
+    vm          : array
+                  Variance-covariance matrix (kxk)
+    logl        : float
+                  Log-Likelihhod of the estimation
+    xb          : predicted value of linear index
+                  nx1 array
+    predybin    : predicted value as binary
+                  =1 for predy > 0.5
+    phiy        : normal density at xb (phi function)
+                  nx1 array
+    u_naive     : naive residuals y - predy
+                  nx1 array
+    u_gen       : generalized residuals
+                  nx1 array
+    warning     : boolean
+                  if True Maximum number of iterations exceeded or gradient
+                  and/or function calls not changing.
+
+    Examples - needs updating
+    --------
+    >>> import numpy as np
+    >>> import libpysal
+    >>> import spreg
+    >>> np.set_printoptions(suppress=True) #prevent scientific format
+    >>> dbf = libpysal.io.open(libpysal.examples.get_path('columbus.dbf'),'r')
+    >>> y = np.array([dbf.by_col('CRIME')]).T
+    >>> x = np.array([dbf.by_col('INC'), dbf.by_col('HOVAL')]).T
+    >>> x = np.hstack((np.ones(y.shape),x))
+    >>> model = spreg.probit.BaseProbit((y>40).astype(float), x)
+    >>> print(np.around(model.betas, decimals=6))
+    [[ 3.353811]
+     [-0.199653]
+     [-0.029514]]
+
+    >>> print(np.around(model.vm, decimals=6))
+    [[ 0.852814 -0.043627 -0.008052]
+     [-0.043627  0.004114 -0.000193]
+     [-0.008052 -0.000193  0.00031 ]]
+
+    """
+
+    def __init__(self, y, x, optim="newton",bstart=False,maxiter=100):
+        self.y = y
+        self.q = 2* self.y - 1
+        self.x = x
+        self.xmean =  np.mean(self.x,axis=0).reshape(-1,1)
+        self.n, self.k = x.shape
+        self.optim = optim
+        self.bstart = bstart
+        self.maxiter = maxiter
+
+        par_est, self.warning = self.par_est()
+        self.betas = par_est[0].reshape(-1,1)
+
+        self.logl = -par_est[1].item()
+        H = self.hessian(self.betas)
+        self.vm = - la.inv(H)
+
+        # predicted values
+        self.xb = self.x @ self.betas
+        self.predy = norm.cdf(self.xb)
+        self.predybin = (self.predy > 0.5) * 1
+        self.phiy = norm.pdf(self.xb)
+        
+        # residuals
+        self.u_naive = self.y - self.predy
+        Phi_prod = self.predy * (1.0 - self.predy)
+        self.u_gen = self.phiy * (self.u_naive / Phi_prod)
+
+
+    def par_est(self):
+
+        if self.bstart:
+            if len(self.bstart) != self.k:
+                raise Exception("Incompatible number of parameters in starting values")
+            else:
+                start = np.array(self.bstart).reshape(-1,1)
+        else:
+            xtx = self.x.T @ self.x
+            xty = self.x.T @ self.y
+            start = la.solve(xtx,xty)
+
+        flogl = lambda par: -self.ll(par)
+
+        if self.optim == "newton":
+            fgrad = lambda par: self.gradient(par)
+            fhess = lambda par: self.hessian(par)
+            par_hat = newton(flogl, start, fgrad, fhess, self.maxiter)
+            warn = par_hat[2]
+        else:
+            fgrad = lambda par: -self.gradient(par)
+            if self.optim == "bfgs":
+                par_hat = op.fmin_bfgs(flogl, start, fgrad, full_output=1, disp=0)
+                warn = par_hat[6]
+            if self.optim == "ncg":
+                fhess = lambda par: -self.hessian(par)
+                par_hat = op.fmin_ncg(
+                    flogl, start, fgrad, fhess=fhess, full_output=1, disp=0
+                )
+                warn = par_hat[5]
+        if warn > 0:
+            warn = True
+        else:
+            warn = False
+        return par_hat, warn
+
+    def ll(self, par):
+        beta = np.reshape(np.array(par), (self.k, 1))
+        q = 2 * self.y - 1
+        qxb = q * spdot(self.x, beta)
+        ll = sum(np.log(norm.cdf(qxb)))
+        return ll
+
+    def gradient(self, par):
+        beta = np.reshape(np.array(par), (self.k, 1))
+        q = 2 * self.y - 1
+        qxb = q * spdot(self.x, beta)
+        lamb = q * norm.pdf(qxb) / norm.cdf(qxb)
+        gradient = spdot(lamb.T, self.x)[0]
+        return gradient
+
+    def hessian(self, par):
+        beta = np.reshape(np.array(par), (self.k, 1))
+        q = 2 * self.y - 1
+        xb = spdot(self.x, beta)
+        qxb = q * xb
+        lamb = q * norm.pdf(qxb) / norm.cdf(qxb)
+        hessian = spdot(self.x.T, spbroadcast(self.x, -lamb * (lamb + xb)))
+        return hessian
+
+
+class Probit(BaseProbit):
+
+    """
+    Classic non-spatial Probit and spatial diagnostics. The class includes a
+    printout that formats all the results and tests in a nice format.
+
+    The diagnostics for spatial dependence currently implemented are:
+
+    * Pinkse Error :cite:`Pinkse2004`
+
+    * Kelejian and Prucha Moran's I :cite:`Kelejian2001`
+
+    * Pinkse & Slade Error :cite:`Pinkse1998`
+
+    Parameters
+    ----------
+
+    x           : numpy.ndarray or pandas object
+                  nxk array of independent variables (assumed to be aligned with y)
+    y           : numpy.ndarray or pandas.Series
+                  nx1 array of dependent binary variable
+    w           : W
+                  PySAL weights instance aligned with y
+    slx_lags    : integer
+                  Number of spatial lags of X to include in the model specification.
+                  If slx_lags>0, the specification becomes of the SLX type.
+    slx_vars    : variables to be lagged when slx_lags > 0
+                  default = "All", otherwise a list with Booleans indicating which
+                  variables must be lagged (True) or not (False)
+    optim       : string
+                  Optimization method.
+                  Default: 'newton' (Newton-Raphson).
+                  Alternatives: 'ncg' (Newton-CG), 'bfgs' (BFGS algorithm)
+    bstart      : list
+                  list with starting values for betas, default = False
+    scalem      : string
+                  Method to calculate the scale of the marginal effects.
+                  Default: 'phimean' (Mean of individual marginal effects)
+                  Alternative: 'xmean' (Marginal effects at variables mean)
+    predflag    : flag to print prediction table
+    maxiter     : int
+                  Maximum number of iterations until optimizer stops
+    name_y       : string
+                   Name of dependent variable for use in output
+    name_x       : list of strings
+                   Names of independent variables for use in output
+    name_w       : string
+                   Name of weights matrix for use in output
+    name_ds      : string
+                   Name of dataset for use in output
+
+    Attributes 
+    ----------
+
+    x           : array
+                  Two dimensional array with n rows and one column for each
+                  independent (exogenous) variable, including the constant
+    xmean       : array
+                  kx1 vector with means of explanatory variables
+                  (for use in slopes)
+    y           : array
+                  nx1 array of dependent variable
+    w           : spatial weights object
+    optim       : string
+                  optimization method
+    predflag    : flag to print prediction table (predtable)
+    maxiter     : int
+                  maximum number of iterations
+    q           : array
+                  nx1 array of transformed dependent variable 2*y - 1
+    betas       : array
+                  kx1 array with estimated coefficients
+    bstart      : list with starting values for betas or False
+    predy       : array
+                  nx1 array of predicted y values (probabilities)
+    n           : int
+                  Number of observations
+    k           : int
+                  Number of variables
+    vm          : array
+                  Variance-covariance matrix (kxk)
+    logl        : float
+                  Log-Likelihhod of the estimation
+    xb          : predicted value of linear index
+                  nx1 array
+    predybin    : predicted value as binary
+                  =1 for predy > 0.5
+    phiy        : normal density at xb (phi function)
+                  nx1 array
+    u_naive     : naive residuals y - predy
+                  nx1 array
+    u_gen       : generalized residuals
+                  nx1 array
+    warning     : boolean
+                  if True Maximum number of iterations exceeded or gradient
+                  and/or function calls not changing.
+    std_err     : standard errors of estimates
+    z_stat      : list of tuples
+                  z statistic; each tuple contains the pair (statistic,
+                  p-value), where each is a float
+    predtable   : dictionary
+                  includes margins and cells of actual and predicted
+                  values for discrete choice model
+    fit         : a dictionary containing various measures of fit
+                  TPR    : true positive rate (sensitivity, recall, hit rate)
+                  TNR    : true negative rate (specificity, selectivity)
+                  PREDPC : accuracy, percent correctly predicted
+                  BA     : balanced accuracy
+    predpc      : float
+                  Percent of y correctly predicted (legacy)
+    LRtest      : dictionary
+                   contains the statistic for the null model (L0), the LR test(likr), 
+                   the degrees of freedom (df) and the p-value (pvalue)
+    L0          : likelihood of null model
+    LR          : tuple (legacy)
+                  Likelihood Ratio test of all coefficients = 0
+                  (test statistics, p-value)
+    mcfadrho    : McFadden rho statistics of fit
+    scale       : float
+                  Scale of the marginal effects.
+    slopes      : array
+                  Marginal effects of the independent variables (k-1x1)
+    slopes_vm   : array
+                  Variance-covariance matrix of the slopes (k-1xk-1)
+    slopes_std_err : estimates of standard errors of marginal effects
+    slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
+    Pinkse_error: array with statistic and p-value
+                  Lagrange Multiplier test against spatial error correlation.
+                  Implemented as presented in :cite:`Pinkse2004`
+    KP_error    : array with statistic and p-value
+                  Moran's I type test against spatial error correlation.
+                  Implemented as presented in :cite:`Kelejian2001`
+    PS_error    : array with statistic and p-value
+                  Lagrange Multiplier test against spatial error correlation.
+                  Implemented as presented in :cite:`Pinkse1998`
+    name_y       : string
+                   Name of dependent variable for use in output
+    name_x       : list of strings
+                   Names of independent variables for use in output
+    name_w       : string
+                   Name of weights matrix for use in output
+    name_ds      : string
+                   Name of dataset for use in output
+    title        : string
+                   Name of the regression method used
+
+    Examples
+    --------
+
+    We first need to import the needed modules, namely numpy to convert the
+    data we read into arrays that ``spreg`` understands and ``libpysal`` to
+    perform all the analysis.
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> np.set_printoptions(suppress=True) #prevent scientific format
+
+    Open data on Columbus neighborhood crime (49 areas) using libpysal.io.open().
+    This is the DBF associated with the Columbus shapefile.  Note that
+    libpysal.io.open() also reads data in CSV format; since the actual class
+    requires data to be passed in as numpy arrays, the user can read their
+    data in using any method.
+
+    >>> dbf = libpysal.io.open(libpysal.examples.get_path('columbus.dbf'),'r')
+
+    Extract the CRIME column (crime) from the DBF file and make it the
+    dependent variable for the regression. Note that libpysal requires this to be
+    an numpy array of shape (n, 1) as opposed to the also common shape of (n, )
+    that other packages accept. Since we want to run a probit model and for this
+    example we use the Columbus data, we also need to transform the continuous
+    CRIME variable into a binary variable. As in :cite:`McMillen1992`, we define
+    y = 1 if CRIME > 40.
+
+    >>> y = np.array([dbf.by_col('CRIME')]).T
+    >>> y = (y>40).astype(float)
+
+    Extract HOVAL (home values) and INC (income) vectors from the DBF to be used as
+    independent variables in the regression.  Note that libpysal requires this to
+    be an nxj numpy array, where j is the number of independent variables (not
+    including a constant). By default this class adds a vector of ones to the
+    independent variables passed in.
+
+    >>> names_to_extract = ['INC', 'HOVAL']
+    >>> x = np.array([dbf.by_col(name) for name in names_to_extract]).T
+
+    Since we want to the test the probit model for spatial dependence, we need to
+    specify the spatial weights matrix that includes the spatial configuration of
+    the observations into the error component of the model. To do that, we can open
+    an already existing gal file or create a new one. In this case, we will use
+    ``columbus.gal``, which contains contiguity relationships between the
+    observations in the Columbus dataset we are using throughout this example.
+    Note that, in order to read the file, not only to open it, we need to
+    append '.read()' at the end of the command.
+
+    >>> w = libpysal.io.open(libpysal.examples.get_path("columbus.gal"), 'r').read()
+
+    Unless there is a good reason not to do it, the weights have to be
+    row-standardized so every row of the matrix sums to one. In libpysal, this
+    can be easily performed in the following way:
+
+    >>> w.transform='r'
+
+    We are all set with the preliminaries, we are good to run the model. In this
+    case, we will need the variables and the weights matrix. If we want to
+    have the names of the variables printed in the output summary, we will
+    have to pass them in as well, although this is optional.
+
+    >>> from spreg import Probit
+    >>> model = Probit(y, x, w=w, name_y='crime', name_x=['income','home value'], name_ds='columbus', name_w='columbus.gal')
+
+    Once we have run the model, we can explore a little bit the output. The
+    regression object we have created has many attributes so take your time to
+    discover them.
+
+    >>> np.around(model.betas, decimals=6)
+    array([[ 3.353811],
+           [-0.199653],
+           [-0.029514]])
+
+    >>> np.around(model.vm, decimals=6)
+    array([[ 0.852814, -0.043627, -0.008052],
+           [-0.043627,  0.004114, -0.000193],
+           [-0.008052, -0.000193,  0.00031 ]])
+
+    Since we have provided a spatial weigths matrix, the diagnostics for
+    spatial dependence have also been computed. We can access them and their
+    p-values individually:
+
+    >>> tests = np.array([['Pinkse_error','KP_error','PS_error']])
+    >>> stats = np.array([[model.Pinkse_error[0],model.KP_error[0],model.PS_error[0]]])
+    >>> pvalue = np.array([[model.Pinkse_error[1],model.KP_error[1],model.PS_error[1]]])
+    >>> print(np.hstack((tests.T,np.around(np.hstack((stats.T,pvalue.T)),6))))
+    [['Pinkse_error' '3.131719' '0.076783']
+     ['KP_error' '1.721312' '0.085194']
+     ['PS_error' '2.558166' '0.109726']]
+
+    Or we can easily obtain a full summary of all the results nicely formatted and
+    ready to be printed simply by typing 'print model.summary'
+
+    """
+
+    def __init__(
+        self,
+        y,
+        x,
+        w=None,
+        slx_lags=0,
+        slx_vars = "All",
+        optim="newton",
+        bstart=False,
+        scalem="phimean",
+        predflag = False,
+        maxiter=100,
+        vm=False,
+        name_y=None,
+        name_x=None,
+        name_w=None,
+        name_ds=None,
+        spat_diag=False,
+        latex=False,
+    ):
+
+        n = USER.check_arrays(y, x)
+        y, name_y = USER.check_y(y, n, name_y)
+        x_constant, name_x, warn = USER.check_constant(x, name_x)
+        set_warn(self, warn)
+        self.name_x = USER.set_name_x(name_x, x_constant)
+
+        w_required=False
+        if spat_diag:
+            w_required=True
+        w = USER.check_weights(w, y, w_required=w_required, slx_lags=slx_lags)
+
+        if slx_lags > 0:
+            x_constant,self.name_x = USER.flex_wx(w,x=x_constant,name_x=self.name_x,constant=True,
+                                            slx_lags=slx_lags,slx_vars=slx_vars)            
+
+        BaseProbit.__init__(
+            self, y=y, x=x_constant, optim=optim, bstart=bstart, maxiter=maxiter
+        )
+        self.title = "CLASSIC PROBIT ESTIMATOR"
+        if slx_lags > 0:
+           self.title += " WITH SPATIALLY LAGGED X (SLX)"        
+        self.slx_lags = slx_lags
+        self.name_ds = USER.set_name_ds(name_ds)
+        self.name_y = USER.set_name_y(name_y)
+        self.name_w = USER.set_name_w(name_w, w)
+
+        self.scalem = scalem
+        self.predflag = predflag  # flag to print prediction table
+        self.w = w   # note, not sparse
+
+        # standard errors and z, p-values
+        self.std_err = DIAGNOSTICS.se_betas(self)
+        self.z_stat = DIAGNOSTICS.t_stat(self,z_stat=True)
+
+        # truepos, trueneg, predpc - measures of fit
+        self.predtable = PROBDIAG.pred_table(self)
+        self.fit = PROBDIAG.probit_fit(self)
+        self.predpc = self.fit["PREDPC"]
+        self.LRtest = PROBDIAG.probit_lrtest(self)
+        self.L0 = self.LRtest["L0"]
+        self.LR = (self.LRtest["likr"],self.LRtest["p-value"])
+        self.mcfadrho = PROBDIAG.mcfad_rho(self)
+
+        # impact measures
+        scale,slopes,slopes_vm,slopes_std_err,slopes_z_stat = PROBDIAG.probit_ape(self)
+        self.scale = scale
+        self.slopes = slopes
+        self.slopes_vm = slopes_vm
+        self.slopes_std_err = slopes_std_err
+        self.slopes_z_stat = slopes_z_stat
+
+        # tests for spatial autocorrelation
+        if spat_diag:
+            self.Pinkse_error,self.KP_error,self.PS_error = PROBDIAG.sp_tests(regprob=self)
+
+        #output
+        self.output = pd.DataFrame(self.name_x, columns=['var_names'])
+        self.output['var_type'] = ['o'] + ['x'] * (len(self.name_x)-1)
+        self.output['regime'], self.output['equation'] = (0, 0)
+        self.other_top, self.other_mid, other_end = _probit_out(reg=self, spat_diag=spat_diag, predflag=predflag)
+        output(reg=self, vm=vm, robust=None, other_end=other_end, latex=latex)
+
+
+def newton(flogl, start, fgrad, fhess, maxiter):
+
+    """
+    Calculates the Newton-Raphson method
+
+    Parameters
+    ----------
+
+    flogl       : lambda
+                  Function to calculate the log-likelihood
+    start       : array
+                  kx1 array of starting values
+    fgrad       : lambda
+                  Function to calculate the gradient
+    fhess       : lambda
+                  Function to calculate the hessian
+    maxiter     : int
+                  Maximum number of iterations until optimizer stops
+    """
+    warn = 0
+    iteration = 0
+    par_hat0 = start
+    m = 1
+    while iteration < maxiter and m >= 1e-04:
+        H = -la.inv(fhess(par_hat0))
+        g = fgrad(par_hat0).reshape(start.shape)
+        Hg = np.dot(H, g)
+        par_hat0 = par_hat0 + Hg
+        iteration += 1
+        m = np.dot(g.T, Hg)
+    if iteration == maxiter:
+        warn = 1
+    logl = flogl(par_hat0)
+    return (par_hat0, logl, warn)
+
+
+def _test():
+    import doctest
+    start_suppress = np.get_printoptions()["suppress"]
+    np.set_printoptions(suppress=True)
+    doctest.testmod()
+    np.set_printoptions(suppress=start_suppress)
+
+if __name__ == "__main__":
+    _test()
+    import numpy as np
+    import libpysal
+
+    dbf = libpysal.io.open(libpysal.examples.get_path("columbus.dbf"), "r")
+    y = np.array([dbf.by_col("CRIME")]).T
+    var_x = ["INC", "HOVAL"]
+    x = np.array([dbf.by_col(name) for name in var_x]).T
+    w = libpysal.io.open(libpysal.examples.get_path("columbus.gal"), "r").read()
+    w.transform = "r"
+    probit1 = Probit(
+        (y > 40).astype(float),
+        x,
+        w=w,
+        name_x=var_x,
+        name_y="CRIME",
+        name_ds="Columbus",
+        name_w="columbus.dbf",
+    )
+    print(probit1.summary)
+
-- 
2.43.0


From 41da6340d0dea1f824dac75aac0be3ba83164b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:07 +0000
Subject: [PATCH 64/68] fix: Skater_reg applied the reduction to the two parts
 of a cut only, not over all clusters

---
 spreg/skater_reg.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 1fedacd..8ba541d 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -676,6 +676,12 @@ class Skater_reg(object):
                 try:
                     d_score = trees_scores[current_tree] - new_score
                     score = old_score - d_score
+                    if data_reg is None:  # the reduction is over all the clusters
+                        score = self.reduction(
+                            [s for i, s in trees_scores.items() if i != current_tree]
+                            + list(new_trees_scores.values())
+                        )
+                        d_score = self.reduction(list(trees_scores.values())) - score
                 except:
                     d_score = -new_score
                     score = new_score
-- 
2.43.0


From 73e5e38e7a3812601f1a153013dac7a176690225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:32 +0000
Subject: [PATCH 65/68] fix: common factor test paired common regressors with
 regime-specific lags of the same number

---
 spreg/output.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/output.py b/spreg/output.py
index 5eb2eca..d755710 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -291,7 +291,8 @@ def _spat_diag_out(reg, w, type, moran=False, ml=False):
                     x_indices = []
                     for m in reg.output['regime'].unique():
                         x_indices.extend(reg.output[(reg.output['regime'] == m) & (reg.output['var_type'] == 'x')].index)
-                    if len(x_indices) != len(wx_indices):  # some of the variables are common to all regimes
+                    # some of the variables, or of their lags, are common to all regimes
+                    if list(reg.output.loc[x_indices, 'regime']) != list(reg.output.loc[wx_indices, 'regime']):
                         return strSummary
                     vm_indices = x_indices + wx_indices.tolist() + reg.output[reg.output['var_type'] == 'rho'].index.tolist()
                     cft, cft_p = diagnostics_sp.comfac_test(reg.rho,
-- 
2.43.0


From b786a979686713212a44f985e80c49b113fe0327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:45 +0000
Subject: [PATCH 66/68] fix: White test used a singular auxiliary regression
 when columns are linearly dependent (regime constants)

---
 spreg/diagnostics.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spreg/diagnostics.py b/spreg/diagnostics.py
index 2811c17..c88caf2 100755
--- a/spreg/diagnostics.py
+++ b/spreg/diagnostics.py
@@ -12,6 +12,7 @@ from libpysal.common import MISSINGVALUE
 import numpy as np
 import numpy.linalg as la
 import scipy.sparse as SP
+from scipy.linalg import qr
 from scipy import stats
 from .ols import BaseOLS
 from .utils import spmultiply, sphstack, spmin, spmax
@@ -1000,6 +1001,12 @@ def white(reg):
     else:
         raise Exception("unknown A type, %s" % type(X).__name__)
     A = sphstack(np.ones((A.shape[0], 1)), A)  # add a constant back in
+    # Columns that are combinations of the others (e.g. the constants of regimes add up
+    # to the constant) add no information and no degrees of freedom
+    Ad = A.toarray() if SP.issparse(A) else A
+    R, order = qr(Ad / la.norm(Ad, axis=0), mode="r", pivoting=True)
+    d = abs(np.diag(R))
+    A = A[:, np.sort(order[: len(d)][d > d[0] * np.finfo(float).eps ** 0.5])]
     n, k = A.shape
 
     # Conduct the auxiliary regression and calculate the statistic
-- 
2.43.0


From ba6f54b557155d01ac540b4dc4bf8738e8dcd3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:28 +0000
Subject: [PATCH 67/68] fix: moments of Moran's I of separate OLS regime fits
 counted the regressors of one regime only

---
 spreg/ols_regimes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index ab62fe4..3eb88f3 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -681,7 +681,8 @@ class OLS_Regimes(BaseOLS, REGI.Regimes_Frame, RegressionPropsY):
         output(reg=self, vm=vm, robust=robust, other_end=other_end, latex=latex)
 
     def _get_spat_diag_props(self, x, sig2n_k):
-        self.k = self.kr
+        # of the model with all the interacted regressors
+        self.k = self.kr * self.nr
         # the covariance of the separate fits lives in the cache
         self._cache = {"vm": self.vm}
         self.x = REGI.regimeX_setup(
-- 
2.43.0


From 8d4fdf5875e18137057976b78fe7f4b089b9a3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:40 +0000
Subject: [PATCH 68/68] fix: headings of GM_Error_Regimes fits by regime
 mention the lagged variables

---
 spreg/error_sp_regimes.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index 3097732..3059447 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -415,7 +415,7 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                         name_x + ["lambda"],
                         self.name_w,
                         self.name_regimes,
-                        #slx_lags,
+                        slx_lags,
                     ),
                 )
             else:
@@ -431,7 +431,7 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                         name_x + ["lambda"],
                         self.name_w,
                         self.name_regimes,
-                        #slx_lags,
+                        slx_lags,
                     )
                 )
 
@@ -1970,14 +1970,17 @@ class GMM_Error_Regimes(GM_Error_Regimes, GM_Combo_Regimes, GM_Endog_Error_Regim
                                             constant_regi=constant_regi, cols2regi=cols2regi, regime_err_sep=regime_err_sep,
                                             name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex)
 
-def _work_error(y, x, regi_ids, r, w, name_ds, name_y, name_x, name_w, name_regimes):
+def _work_error(y, x, regi_ids, r, w, name_ds, name_y, name_x, name_w, name_regimes, slx_lags):
     w_r, warn = REGI.w_regime(w, regi_ids[r], r, transform=True)
     y_r = y[regi_ids[r]]
     x_r = x[regi_ids[r]]
     model = BaseGM_Error(y_r, x_r, w_r.sparse)
     set_warn(model, warn)
     model.w = w_r
-    model.title = "GM SPATIALLY WEIGHTED LEAST SQUARES ESTIMATION - REGIME %s" % r
+    if slx_lags == 0:
+        model.title = "GM SPATIALLY WEIGHTED LEAST SQUARES ESTIMATION - REGIME %s" % r
+    else:
+        model.title = "GM SPATIALLY WEIGHTED LEAST SQUARES ESTIMATION + SLX (SLX-Error) - REGIME %s" % r
     model.name_ds = name_ds
     model.name_y = "%s_%s" % (str(r), name_y)
     model.name_x = ["%s_%s" % (str(r), i) for i in name_x]
-- 
2.43.0

