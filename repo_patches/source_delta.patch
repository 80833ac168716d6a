From fbfc63c4a1e9ef37eef701e4abaaafbea6f3e932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 01/57] fix: check_endog reshapes a copy instead of the
 caller's 1-D array

---
 spreg/user_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/user_output.py b/spreg/user_output.py
index 097dace..b8e9c2b 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -542,7 +542,7 @@ def check_endog(arrays, names):
         if arrays[i] is None:
             pass
         elif len(arrays[i].shape) == 1:
-            arrays[i].shape = (arrays[i].shape[0], 1)
+            arrays[i] = arrays[i].reshape((arrays[i].shape[0], 1))
         check_numeric_bool(arrays[i])
     return (*arrays, *names)
 
-- 
2.43.0


From 53ffd28fee7ae77c22b59173b8c714c75a0680ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 02/57] fix: symmetrize restores the transform of the caller's
 weights

---
 spreg/w_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spreg/w_utils.py b/spreg/w_utils.py
index 657a498..066847f 100644
--- a/spreg/w_utils.py
+++ b/spreg/w_utils.py
@@ -23,4 +23,6 @@ def symmetrize(w):
     Di12 = SPARSE.dia_matrix((1.0 / d, [0]), shape=(w.n, w.n))
     D12 = SPARSE.dia_matrix((d, [0]), shape=(w.n, w.n))
     w.transform = "r"
-    return D12 @ w.sparse @ Di12
+    sym = D12 @ w.sparse @ Di12
+    w.transform = current
+    return sym
-- 
2.43.0


From cdb1af80bfb4f1111b64986f69df765b2ad32c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 03/57] fix: regimes error models no longer append to the
 caller's cols2regi list

---
 spreg/error_sp_het_regimes.py | 4 ++--
 spreg/error_sp_hom_regimes.py | 4 ++--
 spreg/error_sp_regimes.py     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index d149d9e..1d2b473 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1158,8 +1158,8 @@ class GM_Endog_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             (r, list(np.where(np.array(regimes) == r)[0])) for r in self.regimes_set
         )
         if add_lag != False:
-            self.cols2regi += [True]
-            cols2regi += [True]
+            self.cols2regi = self.cols2regi + [True]
+            cols2regi = cols2regi + [True]
             self.predy_e = np.zeros((self.n, 1), float)
             self.e_pred = np.zeros((self.n, 1), float)
         results_p = {}
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 46262e5..6bd2655 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -1153,8 +1153,8 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             (r, list(np.where(np.array(regimes) == r)[0])) for r in self.regimes_set
         )
         if add_lag != False:
-            self.cols2regi += [True]
-            cols2regi += [True]
+            self.cols2regi = self.cols2regi + [True]
+            cols2regi = cols2regi + [True]
             self.predy_e = np.zeros((self.n, 1), float)
             self.e_pred = np.zeros((self.n, 1), float)
         results_p = {}
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index e5c1a2f..8b9a9c6 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -981,8 +981,8 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             (r, list(np.where(np.array(regimes) == r)[0])) for r in self.regimes_set
         )
         if add_lag != False:
-            self.cols2regi += [True]
-            cols2regi += [True]
+            self.cols2regi = self.cols2regi + [True]
+            cols2regi = cols2regi + [True]
             self.predy_e = np.zeros((self.n, 1), float)
             self.e_pred = np.zeros((self.n, 1), float)
         results_p = {}
-- 
2.43.0


From bb1805292e2227c0c243e9fd391ff52c4c054f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 04/57] fix: Skater_reg.fit leaves the caller's weights
 transform and data_reg dictionary as they were

---
 spreg/skater_reg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index c563597..162a01d 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -222,8 +222,11 @@ class Skater_reg(object):
         if data.shape[0] <= n_clusters*quorum:
             raise ValueError("The number of observations is less than the number of clusters times the quorum.")
         
+        w_transform = W.transform
         W.transform = "b"
-        W = W.sparse
+        W_binary = W.sparse
+        W.transform = w_transform
+        W = W_binary
         start = time.time()
 
         super_verbose = verbose > 1
@@ -537,6 +540,7 @@ class Skater_reg(object):
 
     def _prep_lag(self, data_reg):
         # if the model is a spatial lag, add the lagged dependent variable to the model
+        data_reg = dict(data_reg)
         data_reg['yend'], data_reg['q'] = set_endog(data_reg["y"], data_reg["x"][:, 1:], data_reg["w"], yend=None,
             q=None, w_lags=1, lag_q=True)
         return data_reg
-- 
2.43.0


From a6b319b193f23d2d03c84cc20f7c029dada64ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 05/57] fix: SUR classes expand regimes and spatial lags in
 copies of the caller's dictionaries

---
 spreg/sur.py       | 3 +++
 spreg/sur_error.py | 2 ++
 spreg/sur_lag.py   | 8 ++++++++
 3 files changed, 13 insertions(+)

diff --git a/spreg/sur.py b/spreg/sur.py
index fbe4352..db0d0fb 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -427,6 +427,7 @@ class SUR(BaseSUR, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy and bigX must be both lists or both dictionaries")
 
+        bigX = dict(bigX)  # regimes are expanded in a copy, not in the caller's dictionary
         self.name_ds = USER.set_name_ds(name_ds)
         self.name_w = USER.set_name_w(name_w, w)
         self.n_eq = len(bigy.keys())
@@ -827,6 +828,8 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy, bigX, bigyend and bigq must be all lists or all dictionaries")
 
+        # regimes are expanded in copies, not in the caller's dictionaries
+        bigX, bigyend, bigq = dict(bigX), dict(bigyend), dict(bigq)
         self.name_ds = USER.set_name_ds(name_ds)
         self.n_eq = len(bigy.keys())
 
diff --git a/spreg/sur_error.py b/spreg/sur_error.py
index 9a1585c..e9c6abf 100644
--- a/spreg/sur_error.py
+++ b/spreg/sur_error.py
@@ -327,6 +327,7 @@ class SURerrorGM(BaseSURerrorGM, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy and bigX must be both lists or both dictionaries")
 
+        bigX = dict(bigX)  # regimes are expanded in a copy, not in the caller's dictionary
         # check on variable names for listing results
         self.name_ds = USER.set_name_ds(name_ds)
         self.name_w = USER.set_name_w(name_w, w)
@@ -774,6 +775,7 @@ class SURerrorML(BaseSURerrorML, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy and bigX must be both lists or both dictionaries")
             
+        bigX = dict(bigX)  # regimes are expanded in a copy, not in the caller's dictionary
         # check on variable names for listing results
         self.name_ds = USER.set_name_ds(name_ds)
         self.name_w = USER.set_name_w(name_w, w)
diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 6eab0ac..ca84213 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -244,6 +244,14 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy, bigX, bigyend (if provided) and bigq (if provided) must be all lists or all dictionaries")
 
+        # spatial lags and regimes are added to copies, not to the caller's dictionaries
+        bigX = dict(bigX)
+        bigyend = None if bigyend is None else dict(bigyend)
+        bigq = None if bigq is None else dict(bigq)
+        name_bigX, name_bigyend, name_bigq = [
+            None if names is None else {r: list(names[r]) for r in names}
+            for names in (name_bigX, name_bigyend, name_bigq)
+        ]
         self.name_ds = USER.set_name_ds(name_ds)
         self.n_eq = len(bigy.keys())
         
-- 
2.43.0


From 2eda22d1053260ef0a40a93a7fe3e044c38f38e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 06/57] fix: use stats.chi2.sf instead of adding chisqprob to
 scipy.stats

---
 spreg/diagnostics.py        |  10 +-
 spreg/diagnostics_probit.py | 686 ++++++++++++++++++------------------
 spreg/sur_error.py          |   5 +-
 3 files changed, 350 insertions(+), 351 deletions(-)

diff --git a/spreg/diagnostics.py b/spreg/diagnostics.py
index 2811c17..4a0a87c 100755
--- a/spreg/diagnostics.py
+++ b/spreg/diagnostics.py
@@ -702,7 +702,7 @@ def jarque_bera(reg):
     S = mu3 / (mu2 ** (1.5))  # skewness measure
     K = mu4 / (mu2**2)  # kurtosis measure
     jb = n * (((S**2) / 6) + ((K - 3) ** 2) / 24)
-    pvalue = stats.chisqprob(jb, 2)
+    pvalue = stats.chi2.sf(jb, 2)
     jb_result = {"df": 2, "jb": jb, "pvalue": pvalue}
     return jb_result
 
@@ -853,7 +853,7 @@ def breusch_pagan(reg, z=None):
     bp_array = 0.5 * part2
     bp = bp_array[0, 0]
 
-    pvalue = stats.chisqprob(bp, df)
+    pvalue = stats.chi2.sf(bp, df)
     bp_result = {"df": df, "bp": bp, "pvalue": pvalue}
     return bp_result
 
@@ -1009,7 +1009,7 @@ def white(reg):
     aux_r2 = r2(aux_reg)
     wh = aux_r2 * n
     df = k - 1
-    pvalue = stats.chisqprob(wh, df)
+    pvalue = stats.chi2.sf(wh, df)
     white_result = {"df": df, "wh": wh, "pvalue": pvalue}
     return white_result
 
@@ -1165,7 +1165,7 @@ def koenker_bassett(reg, z=None):
     kb_array = (1.0 / v) * part2
     kb = kb_array[0, 0]
 
-    pvalue = stats.chisqprob(kb, df)
+    pvalue = stats.chi2.sf(kb, df)
     kb_result = {"kb": kb, "df": df, "pvalue": pvalue}
     return kb_result
 
@@ -1392,7 +1392,7 @@ def likratiotest(reg0, reg1):
         df = 1
 
     #pvalue = stats.chisqprob(likr, 1)
-    pvalue = stats.chisqprob(likr, df)
+    pvalue = stats.chi2.sf(likr, df)
     #likratio = {"likr": likr, "df": 1, "p-value": pvalue}
     likratio = {"likr": likr, "df": df, "p-value": pvalue}
     return likratio
diff --git a/spreg/diagnostics_probit.py b/spreg/diagnostics_probit.py
index 40c3edd..980889b 100644
--- a/spreg/diagnostics_probit.py
+++ b/spreg/diagnostics_probit.py
@@ -1,343 +1,343 @@
-"""
-Diagnostics in probit regression. 
-        
-"""
-__author__ = (
-    "Luc Anselin lanselin@gmail.com, Pedro Amaral pedrovma@gmail.com "
-)
-
-from math import sqrt, pi
-
-from libpysal.common import MISSINGVALUE
-import numpy as np
-import numpy.linalg as la
-import scipy.sparse as SP
-from scipy import stats
-from scipy.stats import norm
-
-__all__ = [
-    "pred_table",
-    "probit_fit",
-    "probit_lrtest",
-    "mcfad_rho",
-    "probit_ape",
-    "sp_tests",
-    "moran_KP",
-]
-
-
-def pred_table(reg):
-    """
-    Calculates a table comparing predicted to actual outcomes for a 
-    discrete choice model
-
-    Parameters
-    ----------
-    reg             : regression object
-                      output instance from a probit regression model
-
-    Returns
-    ----------
-    predtab_vals    : dictionary
-                      includes margins and cells of actual and predicted
-                      values for discrete choice model
-                      actpos   : observed positives (=1)
-                      actneg   : observed negatives (=0)
-                      predpos  : predicted positives 
-                      predneg  : predicted negatives
-                      truepos  : predicted 1 when actual = 1
-                      falsepos : predicted 1 when actual = 0
-                      trueneg  : predicted 0 when actual = 0
-                      falseneg : predicted 0 when actual = 1
-
-    """
-    predtab_vals = {}
-    pos = reg.y.sum()
-    predtab_vals["actpos"] = int(pos)
-    neg = reg.n - pos
-    predtab_vals["actneg"] = int(neg)
-    act1 = (reg.y == 1) * 1
-    act0 = (reg.y == 0) * 1
-    ppos = reg.predybin.sum()
-    predtab_vals["predpos"] = ppos
-    pneg = reg.n - ppos
-    predtab_vals["predneg"] = pneg
-    pred1 = (reg.predybin == 1) * 1
-    pred0 = (reg.predybin == 0) * 1
-    truep = (pred1 * act1) * 1
-    predtab_vals["truepos"] = truep.sum()
-    truen = (pred0 * act0) * 1
-    predtab_vals["trueneg"] = truen.sum()
-    fpos = (pred1 * act0) * 1
-    predtab_vals["falsepos"] = fpos.sum()
-    fneg = (pred0 * act1) * 1
-    predtab_vals["falseneg"] = fneg.sum()
-
-    return predtab_vals
-
-
-def probit_fit(reg):
-    """
-    Various measures of fit for discrete choice models, derived from the
-    prediction table (pred_table)
-    
-    Parameters
-    ----------
-    reg             : regression object
-                      output instance from a probit regression model
-                      must contain predtable attribute
-
-    Returns
-    ----------
-    prob_fit    : a dictionary containing various measures of fit
-                  TPR    : true positive rate (sensitivity, recall, hit rate)
-                  TNR    : true negative rate (specificity, selectivity)
-                  PREDPC : accuracy, percent correctly predicted
-                  BA     : balanced accuracy
-    
-    """
-
-    prob_fit = {}
-    prob_fit["TPR"] = 100.0 * reg.predtable["truepos"] / reg.predtable["actpos"]
-    prob_fit["TNR"] = 100.0 * reg.predtable["trueneg"] / reg.predtable["actneg"]
-    prob_fit["BA"] = (prob_fit["TPR"] + prob_fit["TNR"])/2.0
-    prob_fit["PREDPC"] = 100.0 * (reg.predtable["truepos"] + reg.predtable["trueneg"]) / reg.n
-
-    return prob_fit
-
-def probit_lrtest(regprob):
-    """
-    Likelihood ratio test statistic for probit model
-
-    Parameters
-    ----------
-    regprob      : probit regression object
-
-    Returns
-    -------
-
-    likratio     : dictionary
-                   contains the statistic for the null model (L0), the LR test(likr), 
-                   the degrees of freedom (df) and the p-value (pvalue)
-    L0           : float
-                   log likelihood of null model
-    likr         : float
-                   likelihood ratio statistic
-    df           : integer
-                   degrees of freedom
-    p-value      : float
-                   p-value
-    """
-
-    likratio = {}
-    P = np.mean(regprob.y)
-    L0 = regprob.n * (P * np.log(P) + (1 - P) * np.log(1 - P))
-    likratio["L0"] = L0
-    LR = -2.0 * (L0 - regprob.logl)
-    likratio["likr"] = LR
-    likratio["df"] = regprob.k
-    pval = stats.chisqprob(LR, regprob.k)
-    likratio["p-value"] = pval
-
-    return likratio
-
-def mcfad_rho(regprob):
-    """
-    McFadden's rho measure of fit
-
-    Parameters
-    ---------
-    regprob    : probit regression object
-
-    Returns
-    -------
-    rho        : McFadden's rho (1 - L/L0)
-    
-    """
-
-    rho = 1.0 - (regprob.logl / regprob.L0)
-    return rho
-
-def probit_ape(regprob):
-    """
-    Average partial effects
-
-    Parameters
-    ----------
-    regprob   : probit regression object
-
-    Returns
-    -------
-    tuple with:
-        scale          : the scale of the marginal effects, determined by regprob.scalem
-                         Default: 'phimean' (Mean of individual marginal effects)
-                         Alternative: 'xmean' (Marginal effects at variables mean)
-        slopes         : marginal effects or average partial effects (not for constant)
-        slopes_vm      : estimates of variance of marginal effects (not for constant)
-        slopes_std_err : estimates of standard errors of marginal effects
-        slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
-    
-    """
-        
-
-    if regprob.scalem == "xmean":
-        xmb = regprob.xmean.T @ regprob.betas
-        scale = stats.norm.pdf(xmb)
-            
-    elif regprob.scalem == "phimean":
-        scale = np.mean(regprob.phiy,axis=0)
-
-    # average partial effects (no constant)
-    slopes = (regprob.betas[1:,0] * scale).reshape(-1,1)
-
-    # variance of partial effects
-    xmb = regprob.xmean.T @ regprob.betas
-    bxt = regprob.betas @ regprob.xmean.T
-    dfdb = np.eye(regprob.k) - xmb * bxt
-    slopes_vm = (scale ** 2) * ((dfdb @ regprob.vm) @ dfdb.T)
-
-    # standard errors
-    slopes_std_err = np.sqrt(slopes_vm[1:,1:].diagonal()).reshape(-1,1)
-
-    # z-stats and p-values
-    sl_zStat = slopes / slopes_std_err
-    slopes_z_stat = [(sl_zStat[i,0],stats.norm.sf(abs(sl_zStat[i,0])) * 2) for i in range(len(slopes))]
-
-
-    return (scale, slopes,slopes_vm[1:,1:],slopes_std_err,slopes_z_stat)
-
-
-def sp_tests(regprob=None, obj_list=None):
-    """
-    Calculates tests for spatial dependence in Probit models
-
-    Parameters
-    ----------
-    regprob     : regression object from spreg
-                  output instance from a probit model
-    obj_list    : list
-                  list of regression elements from both libpysal and statsmodels' ProbitResults
-                  The list should be such as:
-                  [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]               
-    
-    Returns
-    -------
-    tuple with LM_Err, moran, ps as 2x1 arrays with statistic and p-value
-               LM_Err: Pinkse
-               moran : Kelejian-Prucha generalized Moran
-               ps    : Pinkse-Slade
-
-    Examples
-    --------
-    The results of this function will be automatically added to the output of the probit model if using spreg.
-    If using the Probit estimator from statsmodels, the user can call the function with the obj_list argument.
-    The argument obj_list should be a list with the following elements, in this order:
-    [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]
-    The function will then return and print the results of the spatial diagnostics.
-
-    >>> import libpysal
-    >>> import statsmodels.api as sm
-    >>> import geopandas as gpd
-    >>> from spreg.diagnostics_probit import sp_tests
-
-    >>> columb = libpysal.examples.load_example('Columbus')
-    >>> dfs = gpd.read_file(columb.get_path("columbus.shp"))
-    >>> w = libpysal.weights.Queen.from_dataframe(dfs)
-    >>> w.transform='r'
-
-    >>> y = (dfs["CRIME"] > 40).astype(float)
-    >>> X = dfs[["INC","HOVAL"]]
-    >>> X = sm.add_constant(X)
-
-    >>> probit_mod = sm.Probit(y, X)
-    >>> probit_res = probit_mod.fit(disp=False)
-    >>> LM_err, moran, ps = sp_tests(obj_list=[w, probit_res.fittedvalues, probit_res.resid_response, probit_res.resid_generalized])
-    PROBIT MODEL DIAGNOSTICS FOR SPATIAL DEPENDENCE
-    TEST                              DF         VALUE           PROB
-    Kelejian-Prucha (error)           1          1.721           0.0852
-    Pinkse (error)                    1          3.132           0.0768
-    Pinkse-Slade (error)              1          2.558           0.1097
-
-    """
-    if regprob:
-        w, Phi, phi, u_naive, u_gen, n = regprob.w, regprob.predy, regprob.phiy, regprob.u_naive, regprob.u_gen, regprob.n
-    elif obj_list:
-        w, fittedvalues, u_naive, u_gen = obj_list
-        Phi = norm.cdf(fittedvalues)
-        phi = norm.pdf(fittedvalues)
-        n = w.n
-
-    try:
-        w = w.sparse
-    except:
-        w = w
-        
-    # Pinkse_error:
-    Phi_prod = Phi * (1 - Phi)
-    sig2 = np.sum((phi * phi) / Phi_prod) / n
-    LM_err_num = np.dot(u_gen.T, (w @ u_gen)) ** 2
-    trWW = np.sum((w @ w).diagonal())
-    trWWWWp = trWW + np.sum((w @ w.T).diagonal())
-    LM_err = (1.0 * LM_err_num / (sig2 ** 2 * trWWWWp)).item()
-    LM_err = np.array([LM_err, stats.chisqprob(LM_err, 1)])
-    # KP_error:
-    moran = moran_KP(w, u_naive, Phi_prod)
-    # Pinkse-Slade_error:
-    u_std = u_naive / np.sqrt(Phi_prod)
-    ps_num = np.dot(u_std.T, (w @ u_std)) ** 2
-    trWpW = np.sum((w.T @ w).diagonal())
-    ps = (ps_num / (trWW + trWpW)).item()
-    # chi-square instead of bootstrap.
-    ps = np.array([ps, stats.chisqprob(ps, 1)])
-
-    if obj_list:
-        from .output import _probit_out
-        reg_simile = type('reg_simile', (object,), {})()
-        reg_simile.Pinkse_error = LM_err
-        reg_simile.KP_error = moran
-        reg_simile.PS_error = ps
-        print("PROBIT MODEL "+_probit_out(reg_simile, spat_diag=True, sptests_only=True)[1:])
-
-    return LM_err, moran, ps
-
-def moran_KP(w, u, sig2i):
-    """
-    Calculates Kelejian-Prucha Moran-flavoured tests
-
-    Parameters
-    ----------
-
-    w           : W
-                  PySAL weights instance aligned with y
-    u           : array
-                  nx1 array of naive residuals
-    sig2i       : array
-                  nx1 array of individual variance
-
-    Returns
-    -------
-    moran       : array, Kelejian-Prucha Moran's I with p-value   
-    """
-    try:
-        w = w.sparse
-    except:
-        pass
-    moran_num = np.dot(u.T, (w @ u))
-    E = SP.lil_matrix(w.shape)
-    E.setdiag(sig2i.flat)
-    E = E.asformat("csr")
-    WE = w @ E
-    moran_den = np.sqrt(np.sum((WE @ WE + (w.T @ E) @ WE).diagonal()))
-    moran = (1.0 * moran_num / moran_den).item()
-    moran = np.array([moran, stats.norm.sf(abs(moran)) * 2.0])
-    return moran
-
-
-def _test():
-    import doctest
-
-    doctest.testmod()
-
-
-if __name__ == "__main__":
-    _test()
+"""
+Diagnostics in probit regression. 
+        
+"""
+__author__ = (
+    "Luc Anselin lanselin@gmail.com, Pedro Amaral pedrovma@gmail.com "
+)
+
+from math import sqrt, pi
+
+from libpysal.common import MISSINGVALUE
+import numpy as np
+import numpy.linalg as la
+import scipy.sparse as SP
+from scipy import stats
+from scipy.stats import norm
+
+__all__ = [
+    "pred_table",
+    "probit_fit",
+    "probit_lrtest",
+    "mcfad_rho",
+    "probit_ape",
+    "sp_tests",
+    "moran_KP",
+]
+
+
+def pred_table(reg):
+    """
+    Calculates a table comparing predicted to actual outcomes for a 
+    discrete choice model
+
+    Parameters
+    ----------
+    reg             : regression object
+                      output instance from a probit regression model
+
+    Returns
+    ----------
+    predtab_vals    : dictionary
+                      includes margins and cells of actual and predicted
+                      values for discrete choice model
+                      actpos   : observed positives (=1)
+                      actneg   : observed negatives (=0)
+                      predpos  : predicted positives 
+                      predneg  : predicted negatives
+                      truepos  : predicted 1 when actual = 1
+                      falsepos : predicted 1 when actual = 0
+                      trueneg  : predicted 0 when actual = 0
+                      falseneg : predicted 0 when actual = 1
+
+    """
+    predtab_vals = {}
+    pos = reg.y.sum()
+    predtab_vals["actpos"] = int(pos)
+    neg = reg.n - pos
+    predtab_vals["actneg"] = int(neg)
+    act1 = (reg.y == 1) * 1
+    act0 = (reg.y == 0) * 1
+    ppos = reg.predybin.sum()
+    predtab_vals["predpos"] = ppos
+    pneg = reg.n - ppos
+    predtab_vals["predneg"] = pneg
+    pred1 = (reg.predybin == 1) * 1
+    pred0 = (reg.predybin == 0) * 1
+    truep = (pred1 * act1) * 1
+    predtab_vals["truepos"] = truep.sum()
+    truen = (pred0 * act0) * 1
+    predtab_vals["trueneg"] = truen.sum()
+    fpos = (pred1 * act0) * 1
+    predtab_vals["falsepos"] = fpos.sum()
+    fneg = (pred0 * act1) * 1
+    predtab_vals["falseneg"] = fneg.sum()
+
+    return predtab_vals
+
+
+def probit_fit(reg):
+    """
+    Various measures of fit for discrete choice models, derived from the
+    prediction table (pred_table)
+    
+    Parameters
+    ----------
+    reg             : regression object
+                      output instance from a probit regression model
+                      must contain predtable attribute
+
+    Returns
+    ----------
+    prob_fit    : a dictionary containing various measures of fit
+                  TPR    : true positive rate (sensitivity, recall, hit rate)
+                  TNR    : true negative rate (specificity, selectivity)
+                  PREDPC : accuracy, percent correctly predicted
+                  BA     : balanced accuracy
+    
+    """
+
+    prob_fit = {}
+    prob_fit["TPR"] = 100.0 * reg.predtable["truepos"] / reg.predtable["actpos"]
+    prob_fit["TNR"] = 100.0 * reg.predtable["trueneg"] / reg.predtable["actneg"]
+    prob_fit["BA"] = (prob_fit["TPR"] + prob_fit["TNR"])/2.0
+    prob_fit["PREDPC"] = 100.0 * (reg.predtable["truepos"] + reg.predtable["trueneg"]) / reg.n
+
+    return prob_fit
+
+def probit_lrtest(regprob):
+    """
+    Likelihood ratio test statistic for probit model
+
+    Parameters
+    ----------
+    regprob      : probit regression object
+
+    Returns
+    -------
+
+    likratio     : dictionary
+                   contains the statistic for the null model (L0), the LR test(likr), 
+                   the degrees of freedom (df) and the p-value (pvalue)
+    L0           : float
+                   log likelihood of null model
+    likr         : float
+                   likelihood ratio statistic
+    df           : integer
+                   degrees of freedom
+    p-value      : float
+                   p-value
+    """
+
+    likratio = {}
+    P = np.mean(regprob.y)
+    L0 = regprob.n * (P * np.log(P) + (1 - P) * np.log(1 - P))
+    likratio["L0"] = L0
+    LR = -2.0 * (L0 - regprob.logl)
+    likratio["likr"] = LR
+    likratio["df"] = regprob.k
+    pval = stats.chi2.sf(LR, regprob.k)
+    likratio["p-value"] = pval
+
+    return likratio
+
+def mcfad_rho(regprob):
+    """
+    McFadden's rho measure of fit
+
+    Parameters
+    ---------
+    regprob    : probit regression object
+
+    Returns
+    -------
+    rho        : McFadden's rho (1 - L/L0)
+    
+    """
+
+    rho = 1.0 - (regprob.logl / regprob.L0)
+    return rho
+
+def probit_ape(regprob):
+    """
+    Average partial effects
+
+    Parameters
+    ----------
+    regprob   : probit regression object
+
+    Returns
+    -------
+    tuple with:
+        scale          : the scale of the marginal effects, determined by regprob.scalem
+                         Default: 'phimean' (Mean of individual marginal effects)
+                         Alternative: 'xmean' (Marginal effects at variables mean)
+        slopes         : marginal effects or average partial effects (not for constant)
+        slopes_vm      : estimates of variance of marginal effects (not for constant)
+        slopes_std_err : estimates of standard errors of marginal effects
+        slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
+    
+    """
+        
+
+    if regprob.scalem == "xmean":
+        xmb = regprob.xmean.T @ regprob.betas
+        scale = stats.norm.pdf(xmb)
+            
+    elif regprob.scalem == "phimean":
+        scale = np.mean(regprob.phiy,axis=0)
+
+    # average partial effects (no constant)
+    slopes = (regprob.betas[1:,0] * scale).reshape(-1,1)
+
+    # variance of partial effects
+    xmb = regprob.xmean.T @ regprob.betas
+    bxt = regprob.betas @ regprob.xmean.T
+    dfdb = np.eye(regprob.k) - xmb * bxt
+    slopes_vm = (scale ** 2) * ((dfdb @ regprob.vm) @ dfdb.T)
+
+    # standard errors
+    slopes_std_err = np.sqrt(slopes_vm[1:,1:].diagonal()).reshape(-1,1)
+
+    # z-stats and p-values
+    sl_zStat = slopes / slopes_std_err
+    slopes_z_stat = [(sl_zStat[i,0],stats.norm.sf(abs(sl_zStat[i,0])) * 2) for i in range(len(slopes))]
+
+
+    return (scale, slopes,slopes_vm[1:,1:],slopes_std_err,slopes_z_stat)
+
+
+def sp_tests(regprob=None, obj_list=None):
+    """
+    Calculates tests for spatial dependence in Probit models
+
+    Parameters
+    ----------
+    regprob     : regression object from spreg
+                  output instance from a probit model
+    obj_list    : list
+                  list of regression elements from both libpysal and statsmodels' ProbitResults
+                  The list should be such as:
+                  [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]               
+    
+    Returns
+    -------
+    tuple with LM_Err, moran, ps as 2x1 arrays with statistic and p-value
+               LM_Err: Pinkse
+               moran : Kelejian-Prucha generalized Moran
+               ps    : Pinkse-Slade
+
+    Examples
+    --------
+    The results of this function will be automatically added to the output of the probit model if using spreg.
+    If using the Probit estimator from statsmodels, the user can call the function with the obj_list argument.
+    The argument obj_list should be a list with the following elements, in this order:
+    [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]
+    The function will then return and print the results of the spatial diagnostics.
+
+    >>> import libpysal
+    >>> import statsmodels.api as sm
+    >>> import geopandas as gpd
+    >>> from spreg.diagnostics_probit import sp_tests
+
+    >>> columb = libpysal.examples.load_example('Columbus')
+    >>> dfs = gpd.read_file(columb.get_path("columbus.shp"))
+    >>> w = libpysal.weights.Queen.from_dataframe(dfs)
+    >>> w.transform='r'
+
+    >>> y = (dfs["CRIME"] > 40).astype(float)
+    >>> X = dfs[["INC","HOVAL"]]
+    >>> X = sm.add_constant(X)
+
+    >>> probit_mod = sm.Probit(y, X)
+    >>> probit_res = probit_mod.fit(disp=False)
+    >>> LM_err, moran, ps = sp_tests(obj_list=[w, probit_res.fittedvalues, probit_res.resid_response, probit_res.resid_generalized])
+    PROBIT MODEL DIAGNOSTICS FOR SPATIAL DEPENDENCE
+    TEST                              DF         VALUE           PROB
+    Kelejian-Prucha (error)           1          1.721           0.0852
+    Pinkse (error)                    1          3.132           0.0768
+    Pinkse-Slade (error)              1          2.558           0.1097
+
+    """
+    if regprob:
+        w, Phi, phi, u_naive, u_gen, n = regprob.w, regprob.predy, regprob.phiy, regprob.u_naive, regprob.u_gen, regprob.n
+    elif obj_list:
+        w, fittedvalues, u_naive, u_gen = obj_list
+        Phi = norm.cdf(fittedvalues)
+        phi = norm.pdf(fittedvalues)
+        n = w.n
+
+    try:
+        w = w.sparse
+    except:
+        w = w
+        
+    # Pinkse_error:
+    Phi_prod = Phi * (1 - Phi)
+    sig2 = np.sum((phi * phi) / Phi_prod) / n
+    LM_err_num = np.dot(u_gen.T, (w @ u_gen)) ** 2
+    trWW = np.sum((w @ w).diagonal())
+    trWWWWp = trWW + np.sum((w @ w.T).diagonal())
+    LM_err = (1.0 * LM_err_num / (sig2 ** 2 * trWWWWp)).item()
+    LM_err = np.array([LM_err, stats.chi2.sf(LM_err, 1)])
+    # KP_error:
+    moran = moran_KP(w, u_naive, Phi_prod)
+    # Pinkse-Slade_error:
+    u_std = u_naive / np.sqrt(Phi_prod)
+    ps_num = np.dot(u_std.T, (w @ u_std)) ** 2
+    trWpW = np.sum((w.T @ w).diagonal())
+    ps = (ps_num / (trWW + trWpW)).item()
+    # chi-square instead of bootstrap.
+    ps = np.array([ps, stats.chi2.sf(ps, 1)])
+
+    if obj_list:
+        from .output import _probit_out
+        reg_simile = type('reg_simile', (object,), {})()
+        reg_simile.Pinkse_error = LM_err
+        reg_simile.KP_error = moran
+        reg_simile.PS_error = ps
+        print("PROBIT MODEL "+_probit_out(reg_simile, spat_diag=True, sptests_only=True)[1:])
+
+    return LM_err, moran, ps
+
+def moran_KP(w, u, sig2i):
+    """
+    Calculates Kelejian-Prucha Moran-flavoured tests
+
+    Parameters
+    ----------
+
+    w           : W
+                  PySAL weights instance aligned with y
+    u           : array
+                  nx1 array of naive residuals
+    sig2i       : array
+                  nx1 array of individual variance
+
+    Returns
+    -------
+    moran       : array, Kelejian-Prucha Moran's I with p-value   
+    """
+    try:
+        w = w.sparse
+    except:
+        pass
+    moran_num = np.dot(u.T, (w @ u))
+    E = SP.lil_matrix(w.shape)
+    E.setdiag(sig2i.flat)
+    E = E.asformat("csr")
+    WE = w @ E
+    moran_den = np.sqrt(np.sum((WE @ WE + (w.T @ E) @ WE).diagonal()))
+    moran = (1.0 * moran_num / moran_den).item()
+    moran = np.array([moran, stats.norm.sf(abs(moran)) * 2.0])
+    return moran
+
+
+def _test():
+    import doctest
+
+    doctest.testmod()
+
+
+if __name__ == "__main__":
+    _test()
diff --git a/spreg/sur_error.py b/spreg/sur_error.py
index e9c6abf..741d7b3 100644
--- a/spreg/sur_error.py
+++ b/spreg/sur_error.py
@@ -10,7 +10,6 @@ import numpy as np
 import numpy.linalg as la
 from scipy import stats
 
-stats.chisqprob = stats.chi2.sf
 from . import summary_output as SUMMARY
 from . import user_output as USER
 from . import regimes as REGI
@@ -838,7 +837,7 @@ class SURerrorML(BaseSURerrorML, REGI.Regimes_Frame):
         if nonspat_diag:
             M = self.n_eq * (self.n_eq - 1) / 2.0
             likrodiag = 2.0 * (self.surerrllik - self.errllik)
-            plik1 = stats.chisqprob(likrodiag, M)
+            plik1 = stats.chi2.sf(likrodiag, M)
             self.lrtest = (likrodiag, int(M), plik1)
         else:
             self.lrtest = None
@@ -846,7 +845,7 @@ class SURerrorML(BaseSURerrorML, REGI.Regimes_Frame):
         # LR test on spatial autoregressive coefficients
         if spat_diag:
             liklambda = 2.0 * (self.surerrllik - self.llik)
-            plik2 = stats.chisqprob(liklambda, self.n_eq)
+            plik2 = stats.chi2.sf(liklambda, self.n_eq)
             self.likrlambda = (liklambda, self.n_eq, plik2)
         else:
             self.likrlambda = None
-- 
2.43.0


From a871b5ecb0c79e3b17afee6c838b509bb3b688a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 07/57] fix: building the summary and checking inputs no longer
 print

---
 spreg/output.py      | 1 -
 spreg/user_output.py | 3 ---
 2 files changed, 4 deletions(-)

diff --git a/spreg/output.py b/spreg/output.py
index 3fcdd0a..e57c5ac 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -92,7 +92,6 @@ def out_part_top(strSummary, reg, m):
     else:
         _reg.z_stat = diagnostics.t_stat(_reg, z_stat=True)
         if _reg.__class__.__name__ not in ('NSLX','PSM','LagPSM') and not _reg.__class__.__name__.endswith('Probit'):
-            print(_reg.__class__.__name__)
             _reg.pr2 = diagnostics_tsls.pr2_aspatial(_reg)
             strSummary += "%-20s:%12.4f\n" % ("Pseudo R-squared", _reg.pr2)
         _reg.__summary["summary_zt"] = "z"
diff --git a/spreg/user_output.py b/spreg/user_output.py
index b8e9c2b..cdd3a17 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -498,7 +498,6 @@ def check_y(y, n, name_y=None):
                     
         y = y.to_numpy()
     if not isinstance(y, np.ndarray):
-        print(y.__class__.__name__)
         raise Exception("y must be a numpy array or a pandas Series")
     shape = y.shape
     if len(shape) > 2:
@@ -672,12 +671,10 @@ def check_robust(robust, wk):
             diag = wk.sparse.diagonal()
             # check to make sure all entries equal 1
             if diag.min() < 1.0:
-                print(diag.min())
                 raise Exception(
                     "All entries on diagonal of kernel weights matrix must equal 1."
                 )
             if diag.max() > 1.0:
-                print(diag.max())
                 raise Exception(
                     "All entries on diagonal of kernel weights matrix must equal 1."
                 )
-- 
2.43.0


From 4f12d99e3c91b7a23112bf68b7fddb1bd2dd1fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 08/57] fix: endogenous regimes classes re-raise clustering
 errors instead of printing and failing later

---
 spreg/ols_regimes.py       | 2 +-
 spreg/twosls_regimes.py    | 2 +-
 spreg/twosls_sp_regimes.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 4ebfd1b..58d94e4 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -1077,7 +1077,7 @@ class OLS_Endog_Regimes(OLS_Regimes):
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
-                    print("An error occurred:", e)
+                    raise
 
         self._trace = sk_reg_results._trace
         self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 9f408bc..d948278 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -1096,7 +1096,7 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
-                    print("An error occurred:", e)
+                    raise
 
         self._trace = sk_reg_results._trace
         self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index b698967..b09e631 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -1348,7 +1348,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
-                    print("An error occurred:", e)
+                    raise
 
         self._trace = sk_reg_results._trace
         self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
-- 
2.43.0


From 09f769627b30e6efba385ee2cdbf6b7941368e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 09/57] fix: BaseML_Lag raises on an unsupported method instead
 of returning a half-built result

---
 spreg/ml_lag.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/spreg/ml_lag.py b/spreg/ml_lag.py
index 41cbba2..f774309 100755
--- a/spreg/ml_lag.py
+++ b/spreg/ml_lag.py
@@ -252,10 +252,7 @@ class BaseML_Lag(RegressionPropsY, RegressionPropsVM):
                     options={'xatol': epsilon},
                 )
         else:
-            # program will crash, need to catch
-            print(("{0} is an unsupported method".format(methodML)))
-            self = None
-            return
+            raise Exception("{0} is an unsupported method".format(methodML))
 
         self.rho = res.x[0][0]
 
-- 
2.43.0


From 733c9cd37bcacbc93b51a3a2c12cb33d1c8ea4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 10/57] fix: AKtest raises on an unsupported case

---
 spreg/diagnostics_sp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/diagnostics_sp.py b/spreg/diagnostics_sp.py
index f323d6a..cc5ff1a 100644
--- a/spreg/diagnostics_sp.py
+++ b/spreg/diagnostics_sp.py
@@ -431,7 +431,7 @@ class AKtest:
             self.mi = get_mI(iv, w, cache)
             self.ak, self.p = lmErr(iv, w, cache)
         else:
-            print(
+            raise Exception(
                 """\n
             Fix the optional argument 'case' to match the requirements:
                 * 'gen': General case (spatial lag + end. reg.)
-- 
2.43.0


From 76d6bd030e3e2705b09af8ab8f2f5b8f4ed9edf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 11/57] fix: pooled ML error records the enforced method as a
 warning instead of printing

---
 spreg/panel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index 57902d3..18e8908 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -896,7 +896,7 @@ class BaseML_ErrorPooled(BaseML_Error):
         w_full_wsp = WSP(W_full_sparse)
         
         if method != 'LU':
-            print("Warning: Pooled ML estimation enforces method='LU' for efficiency.")
+            set_warn(self, "Pooled ML estimation enforces method='LU' for efficiency.")
             method = 'LU'
             
         BaseML_Error.__init__(self, y, x, w_full_wsp, method=method, epsilon=epsilon)
-- 
2.43.0


From d784f2b80334f998f297d75e45c2e42d20b5f041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 12/57] fix: specification searches print the out-of-bounds
 message only when mprint is set

---
 spreg/spsearch.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/spreg/spsearch.py b/spreg/spsearch.py
index be59729..6066703 100755
--- a/spreg/spsearch.py
+++ b/spreg/spsearch.py
@@ -876,7 +876,8 @@ def gets_gns(
             )
         except:
             result = "Exception: GNS parameters out of bounds"
-            print(result)
+            if mprint:
+                print(result)
             return (result, finreg)
 
         name_y = model_gns.name_y
@@ -900,7 +901,8 @@ def gets_gns(
             )
         except:
             result = "Exception: GNS parameters out of bounds"
-            print(result)
+            if mprint:
+                print(result)
             return (result, finreg)
 
     pstats = np.array(model_gns.z_stat)[1 + k :, 1]  # t statistics p-values
@@ -937,7 +939,8 @@ def gets_gns(
                 )
             except:
                 result = "Exception: SDM parameters out of bounds"
-                print(result)
+                if mprint:
+                    print(result)
                 return (result, finreg)
 
             pstats = np.array(model_sdm.z_stat)[1 + k :, 1]
@@ -983,7 +986,8 @@ def gets_gns(
                 )
             except:
                 result = "Exception: SLX Error parameters out of bounds"
-                print(result)
+                if mprint:
+                    print(result)
                 return (result, finreg)
 
             pstats = np.array(model_slxerr.z_stat)[1 + k :, 1]
@@ -1024,7 +1028,8 @@ def gets_gns(
                 )
             except:
                 result = "Exception: SARSAR parameters out of bounds"
-                print(result)
+                if mprint:
+                    print(result)
                 return (result, finreg)
 
             pstats = np.array(model_sarsar.z_stat)[1 + k :, 1]
@@ -1211,7 +1216,8 @@ def gets_sdm(
             )
         except:
             result = "Exception: SDM parameters out of bounds"
-            print(result)
+            if mprint:
+                print(result)
             return (result, finreg)
 
         name_y = model_sdm.name_y
@@ -1234,7 +1240,8 @@ def gets_sdm(
             )
         except:
             result = "Exception: SDM parameters out of bounds"
-            print(result)
+            if mprint:
+                print(result)
             return (result, finreg)
 
     pstats = np.array(model_sdm.z_stat)[1 + k :, 1]  # spatial parameters
@@ -1320,7 +1327,8 @@ def gets_sdm(
                 )
             except:
                 result = "Exception: LAG parameters out of bounds"
-                print(result)
+                if mprint:
+                    print(result)
                 return (result, finreg)
             # print(model_lag.summary)
             ak_lag = AKtest(model_lag, w, case="gen")
-- 
2.43.0


From 13b260fcb6148ab7462cc21d9b94bb22d44c94b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 13/57] fix: panel data layout note is a Python warning instead
 of a print

---
 spreg/sp_panels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/sp_panels.py b/spreg/sp_panels.py
index 7a27a5e..74e3145 100755
--- a/spreg/sp_panels.py
+++ b/spreg/sp_panels.py
@@ -14,6 +14,7 @@ __author__ = (
     "Luc Anselin anselin@uchicago.edu, Pedro Amaral pedroamaral@cedeplar.ufmg.br"
 )
 
+import warnings
 from scipy import sparse as SP
 import numpy as np
 import pandas as pd
@@ -526,8 +527,7 @@ def _get_panel_data(y, x, w, name_y, name_x):
             "Assuming time data is in wide format, i.e. y[0] refers to T0, y[1], refers to T1, etc."
             "\n Similarly, assuming x[0:k] refers to independent variables for T0, x[k+1:2k] refers to T1, etc."
         )
-        print("Warning: " + message)
-        # warnings.warn(message)
+        warnings.warn(message)
 
         if y.shape[1] != T:
             raise Exception(
-- 
2.43.0


From 788875652e792d2fe829299f8a2176a217cec19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 14/57] fix: BSK_tests fits the pooled model from the stacked
 data and computes LM2 on its own

---
 spreg/diagnostics_panel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spreg/diagnostics_panel.py b/spreg/diagnostics_panel.py
index 8222809..0128f14 100755
--- a/spreg/diagnostics_panel.py
+++ b/spreg/diagnostics_panel.py
@@ -248,6 +248,7 @@ def BSK_tests(reg, w, which="all", GM_BSK=False):
     summary : pd.DataFrame
               Table with Test Statistic, p-value, and Conclusion.
     """
+    from .ols import BaseOLS
     from .panel import PanelRE, BaseML_ErrorPooled, BaseGM_ErrorPooled, PooledOLS
 
     if which == "all":
@@ -273,16 +274,17 @@ def BSK_tests(reg, w, which="all", GM_BSK=False):
 
     if any(test in which for test in ["LMJ", "LM1", "LM2"]):
         if reg.__class__.__name__ != 'PooledOLS':
-            pooled_mod = PooledOLS(reg.y, reg.x)
+            pooled_mod = BaseOLS(reg.y, reg.x)
         else:
             pooled_mod = reg
 
+        u = pooled_mod.u 
+        u_mat = u.reshape((T, N))
+        u_sq_sum = np.sum(u**2)
+
         if any(test in which for test in ["LMJ", "LM1"]):
             # G term (Random Effects) - Eq 2.11
-            u = pooled_mod.u 
-            u_mat = u.reshape((T, N))
             u_sum_sq = np.sum(np.sum(u_mat, axis=0)**2) 
-            u_sq_sum = np.sum(u**2)
             G = (u_sum_sq / u_sq_sum) - 1
 
             # LM1: Marginal RE (Eq 2.12)
-- 
2.43.0


From 1c5b66ba46838f08256f8cdcefc94c6c59b4628c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 15/57] fix: pooled error panels can be fitted with
 nonspat_diag=False

---
 spreg/panel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/panel.py b/spreg/panel.py
index 18e8908..39264d3 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -853,6 +853,7 @@ class GM_ErrorPooled(BaseGM_ErrorPooled):
         self.output['var_type'] = ['o'] + ['x'] * (kx-1) + ['wx'] * kwx + ['lambda']
         self.output['regime'], self.output['equation'] = (0, 0)
         self.other_top = _summary_iteration(self)
+        other_end = False
 
         if nonspat_diag:
             self.bsk = BSK_tests(self, w, which=['LMC_RE'])
@@ -1066,6 +1067,7 @@ class ML_ErrorPooled(BaseML_ErrorPooled):
         self.aic = DIAG.akaike(reg=self)
         self.schwarz = DIAG.schwarz(reg=self)
         self.other_top = _nonspat_top(self, ml=True)     
+        other_end = False
 
         if nonspat_diag:
             self.bsk = BSK_tests(self, w, which=['LMC_RE'])
-- 
2.43.0


From d6bd60dd285623a38bffdc737b124e9dad6cf995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 16/57] fix: BaseML_LagRE defines the likelihood functions it
 minimises

---
 spreg/panel.py | 57 +++++++++++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index 39264d3..bee3db5 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -2894,6 +2894,34 @@ class BaseML_LagRE(RegressionPropsY, RegressionPropsVM):
         self.k += 1 # add one to k to account for rho
         self.n = NT
 
+    def lag_c_loglik_sp(self, rho, n, t, e0, e1, I, Wsp):
+        # concentrated log-lik for lag model, sparse algebra
+        if isinstance(rho, np.ndarray):
+            if rho.shape == (1, 1):
+                rho = rho[0][0]
+        er = e0 - rho * e1
+        sig2 = spdot(er.T, er) / (n * t)
+        nlsig2 = (n * t / 2.0) * np.log(sig2)
+        a = I - rho * Wsp
+        LU = sps.linalg.splu(a.tocsc())
+        jacob = t * np.sum(np.log(np.abs(LU.U.diagonal())))
+        clike = nlsig2 - jacob
+        return clike
+
+
+    def phi_c_loglik(self, phi, rho, beta, bigy, bigx, n, t, W_nt):
+        # Demeaned variables
+        y = demean_panel(bigy, n, t, phi=phi)
+        x = demean_panel(bigx, n, t, phi=phi)
+        # Lag dependent variable
+        ylag = spdot(W_nt, y)
+        er = y - rho * ylag - spdot(x, beta)
+        sig2 = spdot(er.T, er)
+        nlsig2 = (n * t / 2.0) * np.log(sig2)
+        nphi2 = (n / 2.0) * np.log(phi ** 2)
+        clike = nlsig2 - nphi2
+        return clike
+
 
 class ML_LagRE(BaseML_LagRE):
 
@@ -3086,32 +3114,3 @@ class ML_LagRE(BaseML_LagRE):
         output(reg=self, vm=vm, other_end=other_end, latex=latex)
 
 
-    def lag_c_loglik_sp(self, rho, n, t, e0, e1, I, Wsp):
-        # concentrated log-lik for lag model, sparse algebra
-        if isinstance(rho, np.ndarray):
-            if rho.shape == (1, 1):
-                rho = rho[0][0]
-        er = e0 - rho * e1
-        sig2 = spdot(er.T, er) / (n * t)
-        nlsig2 = (n * t / 2.0) * np.log(sig2)
-        a = I - rho * Wsp
-        LU = sps.linalg.splu(a.tocsc())
-        jacob = t * np.sum(np.log(np.abs(LU.U.diagonal())))
-        clike = nlsig2 - jacob
-        return clike
-
-
-    def phi_c_loglik(self, phi, rho, beta, bigy, bigx, n, t, W_nt):
-        # Demeaned variables
-        y = demean_panel(bigy, n, t, phi=phi)
-        x = demean_panel(bigx, n, t, phi=phi)
-        # Lag dependent variable
-        ylag = spdot(W_nt, y)
-        er = y - rho * ylag - spdot(x, beta)
-        sig2 = spdot(er.T, er)
-        nlsig2 = (n * t / 2.0) * np.log(sig2)
-        nphi2 = (n / 2.0) * np.log(phi ** 2)
-        clike = nlsig2 - nphi2
-        return clike
-
-
-- 
2.43.0


From af19ccc63424b58076f8ffbfd451182794087a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 17/57] fix: Skater_reg affinity metrics accept the two data
 sets they are called with

---
 spreg/skater_reg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 162a01d..5b33c7d 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -157,7 +157,9 @@ class Skater_reg(object):
         if affinity is not None:
             # invert the 0,1 affinity to
             # to an unbounded positive dissimilarity
-            metric = lambda x: -np.log(affinity(x))
+            metric = lambda X, Y=None: -np.log(
+                affinity(X) if Y is None else affinity(X, Y)
+            )
         else:
             metric = dissimilarity
         self.metric = metric
-- 
2.43.0


From 2ea0f4f546a4bc8ba9fd56e7c13c4eac64f31b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 18/57] fix: sur_dictxy and sur_dictZ no longer use the removed
 dict.has_key

---
 spreg/sur_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spreg/sur_utils.py b/spreg/sur_utils.py
index 3041e41..0457234 100644
--- a/spreg/sur_utils.py
+++ b/spreg/sur_utils.py
@@ -121,11 +121,11 @@ def sur_dictxy(db, y_vars, x_vars, space_id=None, time_id=None):
         for i in range(bign):
             sval = ss[i][0]  # e.g. FIPSNO 27077
             tval = tt[i][0]  # e.g. TIME 1960
-            if tmpy.has_key(tval):
+            if tval in tmpy:
                 tmpy[tval][sval] = y[i]
-            if tmpX.has_key(tval):
+            if tval in tmpX:
                 tmpX[tval][sval] = longxc[i]
-            if not sdict.has_key(sval):
+            if sval not in sdict:
                 skeys.append(sval)
                 sdict[sval] = True
 
@@ -226,9 +226,9 @@ def sur_dictZ(db, z_vars, form="spreg", const=False, space_id=None, time_id=None
         for i in range(bign):
             sval = ss[i][0]  # e.g. 27077
             tval = tt[i][0]  # e.g. 1960
-            if tmpz.has_key(tval):
+            if tval in tmpz:
                 tmpz[tval][sval] = longz[i]
-            if not sdict.has_key(sval):
+            if sval not in sdict:
                 skeys.append(sval)
                 sdict[sval] = True
 
-- 
2.43.0


From 895bd4ff018bc607640f346d5471a2a2bf8b7026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 19/57] fix: PooledOLS checks the robust option instead of
 failing without kernel weights

---
 spreg/panel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spreg/panel.py b/spreg/panel.py
index bee3db5..65eea24 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -175,6 +175,7 @@ class PooledOLS(BaseOLS, RegressionPropsY, RegressionPropsVM):
         latex=False,
     ):
 
+        USER.check_robust(robust, None)
         self.title = "POOLED OLS PANEL"
         bigy, bigx, self.name_y, self.name_x, w, warn, self.slx_lags, self.title, kx, kwx, self.t = prepare_panel(
             y, x, w, name_y, name_x, slx_lags, slx_vars, self.title, add_constant=True)
-- 
2.43.0


From 200426c8a3ffe2a5314739ed02161753df377f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 20/57] fix: dgp_spdurbin and dgp_gns return None on weights of
 the wrong size like their siblings

---
 spreg/dgp.py | 2042 +++++++++++++++++++++++++-------------------------
 1 file changed, 1022 insertions(+), 1020 deletions(-)

diff --git a/spreg/dgp.py b/spreg/dgp.py
index a61b7f7..dffaac9 100644
--- a/spreg/dgp.py
+++ b/spreg/dgp.py
@@ -1,1021 +1,1023 @@
-"""
-Generating spatial models for specific DGP
-
-"""
-
-__author__ = "Luc Anselin lanselin@gmail.com,\
-     Pedro Amaral pedrovma@gmail.com,\
-     Renan Serenini renan.serenini@uniroma1.it"
-
-import numpy as np
-import math
-import libpysal
-from scipy.linalg import expm
-from .utils import inverse_prod
-
-
-__all__ = [
-    "make_error",
-    "make_x",
-    "make_wx",
-    "make_xb",
-    "make_wxg",
-    "dgp_errproc",
-    "dgp_ols",
-    "dgp_slx",
-    "dgp_sperror",
-    "dgp_slxerror",
-    "dgp_lag",
-    "dgp_spdurbin",
-    "dgp_lagerr",
-    "dgp_gns",
-    "dgp_mess",
-    "dgp_probit",
-    "make_bin",
-    "make_heterror",
-    "make_vmult"
-]
-    
-    
-def make_error(rng,n,mu=0,varu=1,method='normal'):
-    """
-    make_error: generate error term for a given distribution
-    
-    Arguments:
-    ----------
-    rng:      random number object
-    n:        number of observations
-    mu:       mean (when needed)
-    varu:     variance (when needed)
-    method:   type of distribution, one of
-              normal, laplace, cauchy, lognormal
-    
-    Returns:
-    --------
-    u:        nx1 vector of random errors
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> from spreg import make_error
-    >>> rng = np.random.default_rng(12345)
-    >>> make_error(rng,5)
-    array([[-1.42382504],
-           [ 1.26372846],
-           [-0.87066174],
-           [-0.25917323],
-           [-0.07534331]])
-
-    """
-    # normal - standard normal is default
-    if method == 'normal':
-        sdu = math.sqrt(varu)
-        u = rng.normal(loc=mu,scale=sdu,size=n).reshape(n,1)
-    # laplace with thicker tails
-    elif method == 'laplace':
-        sdu = math.sqrt(varu/2.0)
-        u = rng.laplace(loc=mu,scale=sdu,size=n).reshape(n,1)
-    # cauchy, ill-behaved, no mean or variance defined
-    elif method == 'cauchy':
-        u = rng.standard_cauchy(size=n).reshape(n,1)
-    elif method == 'lognormal':
-        sdu = math.sqrt(varu)
-        u = rng.lognormal(mean=mu,sigma=sdu,size=n).reshape(n,1)
-    # all other yield warning
-    else:
-        print('Warning: Unsupported distribution')
-        u = None
-    return u
-
-def make_x(rng,n,mu=[0],varu=[1],cor=0,method='uniform'):
-    """
-    make_x: generate a matrix of k columns of x for a given distribution  
-    
-    Arguments:
-    ----------
-    rng:      random number object
-    n:        number of observations
-    mu:       mean as a list
-    varu:     variance as a list
-    cor:      correlation as a float (for bivariate normal only)
-    method:   type of distribution, one of
-              uniform, normal, bivnormal (bivariate normal)
-    
-    Returns:
-    --------
-    x:        nxk matrix of x variables
-    
-    Note:
-    -----
-    Uniform and normal generate separate draws, bivariate normal generates
-    correlated draws
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> from spreg import make_x
-    >>> rng = np.random.default_rng(12345)
-    >>> make_x(rng,5,mu=[0,1],varu=[1,4])
-    array([[0.78751508, 2.30580253],
-           [1.09728308, 4.14520464],
-           [2.76215497, 1.29373239],
-           [2.3426149 , 4.6609906 ],
-           [1.35484323, 6.52500165]])
-
-    """
-    # check on k dimension
-    k = len(mu)
-    if k == len(varu):
-        # initialize
-        x = np.zeros((n,k))
-        for i in range(k):
-            # uniform - range is derived from variance since var = (1/12)range^2
-            # range is found as square root of 12 times variance
-            # for 0-1, varu should be 0.0833333
-            # low is always 0
-            if method == 'uniform':
-                sdu = math.sqrt(12.0*varu[i])
-                x[:,i] = rng.uniform(low=0,high=sdu,size=n)
-            # normal - independent normal draws
-            elif method == 'normal':
-                sdu = math.sqrt(varu[i])
-                x[:,i] = rng.normal(loc=mu[i],scale=sdu,size=n)
-            # bivariate normal - only for k=2
-            elif method == 'bivnormal':
-                if k != 2:
-                    print('Error: Wrong dimension for k')
-                    x = None
-                    return x
-                else:
-                    ucov = cor* math.sqrt(varu[0]*varu[1])
-                    mcov = [[varu[0],ucov],[ucov,varu[1]]]
-                    x = rng.multivariate_normal(mean=mu,cov=mcov,size=n)
-                    return x
-            else:
-                print('Warning: Unsupported distribution')
-                x = None
-    else:
-        x = None
-    return x
-
-def make_wx(x,w,o=1):
-    """
-    make_wx: generate a matrix spatially lagged x given matrix x  
-    
-             x must be previously generated using make_x, no constant included
-    
-    Arguments:
-    ----------
-    x:        x matrix - no constant
-    w:        row-standardized spatial weights in spreg format
-    o:        order of contiguity, default o=1
-    
-    Returns:
-    --------
-    wx:       nx(kxo) matrix of spatially lagged x variables
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_wx
-    >>> rng = np.random.default_rng(12345)
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> make_wx(x,w)[0:5,:]
-    array([[1.12509217],
-           [1.87409079],
-           [1.36225472],
-           [2.1491645 ],
-           [2.80255786]])
-
-    """
-    if w.n != x.shape[0]:
-        print("Error: incompatible weights dimensions")
-        return None
-    w1x = libpysal.weights.lag_spatial(w,x)
-    wx = w1x
-    if o > 1:
-        for i in range(1,o):
-            whx = libpysal.weights.lag_spatial(w,w1x)
-            w1x = whx
-            wx = np.hstack((wx,whx))
-    return wx
-        
-
-def make_xb(x,beta):
-    """
-    make_xb: generate a column xb as matrix x (constant added)  
-             times list beta (includes coefficient for constant term)
-    
-    Arguments:
-    ----------
-    x:        n x (k-1) matrix for x variables
-    beta:     k length list of regression coefficients
-    
-    Returns:
-    --------
-    xb:        nx1 vector of x times beta
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> from spreg import make_x, make_xb
-    >>> rng = np.random.default_rng(12345)
-    >>> x = make_x(rng,5,mu=[0,1],varu=[1,4])
-    >>> make_xb(x,[1,2,3])
-    array([[ 9.49243776],
-           [15.63018007],
-           [10.4055071 ],
-           [19.66820159],
-           [23.28469141]])
-    """
-    n = x.shape[0]
-    k = x.shape[1]
-    if k+1 != len(beta):
-        print("Error: Incompatible dimensions")
-        return None
-    else:
-        b = np.array(beta)[:,np.newaxis]
-        x1=np.hstack((np.ones((n,1)),x)) # include constant
-        xb = np.dot(x1,b)
-        return xb
-    
-def make_wxg(wx,gamma):
-    """
-    make_wxg: generate a column wxg as matrix wx (no constant)  
-             times list gamma (coefficient of spatially lagged x)
-    
-    Arguments:
-    ----------
-    wx:       n x ((k-1)xo) matrix for spatially lagged x variables of all orders
-    gamma:    (k-1)*o length list of regression coefficients for spatially lagged x
-    
-    Returns:
-    --------
-    wxg:      nx1 vector of wx times gamma
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_wx, make_wxg
-    >>> rng = np.random.default_rng(12345)
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> wx = make_wx(x,w)
-    >>> print(wx.shape)
-    (25, 1)
-    >>> make_wxg(wx,[2,4])[0:5,:]
-    array([[ 2.25018434,  4.50036868],
-           [ 3.74818158,  7.49636316],
-           [ 2.72450944,  5.44901889],
-           [ 4.298329  ,  8.59665799],
-           [ 5.60511572, 11.21023145]])
-
-    """
-    k = wx.shape[1]
-    if (k > 1): 
-        if k != len(gamma):
-            print("Error: Incompatible dimensions")
-            return None
-        else:
-            g = np.array(gamma)[:,np.newaxis]
-            wxg = np.dot(wx,g)
-    else:  # gamma is a scalar
-        wxg = wx * gamma
-    return wxg
-
-def dgp_errproc(u,w,lam=0.5,model='sar',imethod='power_exp'):
-    """
-    dgp_errproc: generates pure spatial error process
-
-    Arguments:
-    ----------
-    u:      random error vector
-    w:      spatial weights object
-    lam:    spatial autoregressive parameter
-    model:  type of process ('sar' or 'ma')
-    imethod: method for inverse transformation, default = 'power_exp'
-
-    Returns:
-    --------
-    y : vector of observations following a spatial AR or MA process
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, dgp_errproc
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> dgp_errproc(u,w)[0:5,:]
-    array([[-1.43760658],
-           [ 0.69778271],
-           [-0.7750646 ],
-           [-0.47750452],
-           [-0.72377417]])
-
-    """
-    n0 = u.shape[0]
-    if w.n != n0:
-        print("Error: incompatible weights dimensions")
-        return None
-    if model == 'sar':
-        y = inverse_prod(w,u,lam,inv_method=imethod)
-    elif model == 'ma':
-        y = u + lam * libpysal.weights.lag_spatial(w,u)
-    else:
-        print("Error: unsupported model type")
-        return None
-    return y
-    
-
-def dgp_ols(u,xb):
-    """
-    dgp_ols: generates y for non-spatial process with given xb and error term u
-    
-    Arguments:
-    ----------
-    u:      random error vector
-    xb:     vector of xb
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, dgp_ols
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> dgp_ols(u,xb)[0:5,:]
-    array([[5.22803968],
-           [3.60291127],
-           [1.02632633],
-           [1.37589879],
-           [5.07165754]])
-
-    """
-    n1 = u.shape[0]
-    n2 = xb.shape[0]  
-    if n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    y = xb + u
-    return y
-
-def dgp_slx(u,xb,wxg,ybin=False):
-    """
-    dgp_slx: generates y for SLX with given xb, wxg, and error term u
-    
-    Arguments:
-    ----------
-    u:      random error vector
-    xb:     vector of xb
-    wxg:    vector of wxg
-    ybin:   flag for binary dependent variable, default = False
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_slx
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> wx = make_wx(x,w)
-    >>> wxg = make_wxg(wx,[2])
-    >>> dgp_slx(u, xb, wxg)[0:5,:]
-    array([[8.85854389],
-           [7.17524694],
-           [3.83674621],
-           [4.73103929],
-           [8.37023076]])
-    """
-    n0 = u.shape[0]
-    n1 = xb.shape[0]  
-    n2 = wxg.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None
-    elif n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    y = xb + wxg + u
-    if ybin:     # probit case, turn into 0-1
-        y = make_bin(y)
-    return y    
-    
-def dgp_sperror(u,xb,w,lam=0.5,model='sar',imethod='power_exp',ybin=False):
-    """
-    dgp_sperror: generates y for spatial error model with given xb, weights,
-                  spatial parameter lam, error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    w:       spatial weights
-    lam:     spatial coefficient
-    model:   type of process ('sar' or 'ma')
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, dgp_sperror
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> dgp_sperror(u, xb, w)[0:5,:]
-    array([[5.21425813],
-           [3.03696553],
-           [1.12192347],
-           [1.15756751],
-           [4.42322667]])
-    """
-    n0 = u.shape[0]
-    n1 = xb.shape[0]
-    if n0 != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    elif w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    if model == 'sar':
-        u1 = inverse_prod(w,u,lam,inv_method=imethod)
-    elif model == 'ma':
-        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
-    else:
-        print("Error: unsupported model type")
-        return None
-    y = xb + u1
-    if ybin:
-        y = make_bin(y)
-    return y
-
-def dgp_slxerror(u,xb,wxg,w,lam=0.5,model='sar',imethod='power_exp',ybin=False):
-    """
-    dgp_slxerror: generates y for SLX spatial error model with xb, wxg, weights,
-                  spatial parameter lam, model type (sar or ma),
-                  error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    wxg:     vector of wxg
-    w:       spatial weights
-    lam:     spatial coefficient
-    model:   type of process ('sar' or 'ma')
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary 0-1 dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_slxerror
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> wx = make_wx(x,w)
-    >>> wxg = make_wxg(wx,[2])
-    >>> dgp_slxerror(u,xb,wxg,w)[0:5,:]
-    array([[8.84476235],
-           [6.6093012 ],
-           [3.93234334],
-           [4.51270801],
-           [7.7217999 ]])
-   """
-    
-    n0 = u.shape[0]
-    n1 = xb.shape[0]  
-    n2 = wxg.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None
-    elif n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    if model == 'sar':
-        u1 = inverse_prod(w,u,lam,inv_method=imethod)
-    elif model == 'ma':
-        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
-    else:
-        print("Error: unsupported model type")
-        return None  
-    y = xb + wxg + u1
-    if ybin:
-        y = make_bin(y)
-    return y
-    
-def dgp_lag(u,xb,w,rho=0.5,imethod='power_exp',ybin=False):
-    """
-    dgp_lag:      generates y for spatial lag model with xb, weights,
-                  spatial parameter rho,
-                  error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    w:       spatial weights
-    rho:     spatial coefficient
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, dgp_lag
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> dgp_lag(u, xb, w)[0:5,:]
-    array([[10.16582326],
-           [ 7.75359864],
-           [ 5.39821733],
-           [ 5.62244672],
-           [ 8.868168  ]])
-   """    
-    n0 = u.shape[0]
-    n1 = xb.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    y1 = xb + u
-    y = inverse_prod(w,y1,rho,inv_method=imethod)
-    if ybin:
-        y = make_bin(y)
-    return y
-    
-def dgp_spdurbin(u,xb,wxg,w,rho=0.5,imethod='power_exp',ybin=False):
-    """
-    dgp_spdurbin: generates y for spatial Durbin model with xb, wxg, weights,
-                  spatial parameter rho,
-                  error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    wxg:     vector of wxg
-    w:       spatial weights
-    rho:     spatial coefficient
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary 0-1 dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_spdurbin
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> wx = make_wx(x,w)
-    >>> wxg = make_wxg(wx,[2])
-    >>> dgp_spdurbin(u,xb,wxg,w)[0:5,:]
-    array([[18.06895353],
-           [15.18686487],
-           [11.95080505],
-           [12.55220513],
-           [15.75805066]])
-   """        
-    n0 = u.shape[0]
-    n1 = xb.shape[0]  
-    n2 = wxg.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None
-    elif n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-    y1 = xb + wxg + u
-    y = inverse_prod(w,y1,rho,inv_method=imethod)
-    if ybin:
-        y = make_bin(y)
-    return y
-    
-def dgp_lagerr(u,xb,w,rho=0.5,lam=0.2,model='sar',imethod='power_exp',ybin=False):
-    """
-    dgp_lagerr:   generates y for spatial lag model with sar or ma errors
-                  with xb, weights,
-                  spatial parameter rho, spatial parameter lambda,
-                  model for spatial process,
-                  error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    w:       spatial weights
-    rho:     spatial coefficient for lag
-    lam:     spatial coefficient for error
-    model:   spatial process for error
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary 0-1 dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, dgp_lagerr
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> dgp_lagerr(u, xb, w)[0:5,:]
-    array([[10.13845523],
-           [ 7.53009531],
-           [ 5.40644034],
-           [ 5.51132886],
-           [ 8.58872366]])
-   """            
-    n0 = u.shape[0]
-    n1 = xb.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    if model == 'sar':
-        u1 = inverse_prod(w,u,lam,inv_method=imethod)
-    elif model == 'ma':
-        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
-    else:
-        print("Error: unsupported model type")
-        return None
-    y1 = xb + u1
-    y = inverse_prod(w,y1,rho,inv_method=imethod)
-    if ybin:
-        y = make_bin(y)
-    return y
-    
-def dgp_gns(u,xb,wxg,w,rho=0.5,lam=0.2,model='sar',imethod='power_exp',ybin=False):
-    """
-    dgp_gns:      generates y for general nested model with sar or ma errors
-                  with xb, wxg, weights,
-                  spatial parameter rho, spatial parameter lambda,
-                  model for spatial process,
-                  error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    wxg:     vector of wxg
-    w:       spatial weights
-    rho:     spatial coefficient for lag
-    lam:     spatial coefficient for error
-    model:   spatial process for error
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary 0-1 dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_gns
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> wx = make_wx(x,w)
-    >>> wxg = make_wxg(wx,[2])
-    >>> dgp_gns(u,xb,wxg,w)[0:5,:]
-    array([[18.04158549],
-           [14.96336153],
-           [11.95902806],
-           [12.44108728],
-           [15.47860632]])
-   """            
-    n0 = u.shape[0]
-    n1 = xb.shape[0]  
-    n2 = wxg.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None       
-    elif n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-    if model == 'sar':
-        u1 = inverse_prod(w,u,lam,inv_method=imethod)
-    elif model == 'ma':
-        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
-    else:
-        print("Error: unsupported model type")
-        return None
-    y1 = xb + wxg + u1
-    y = inverse_prod(w,y1,rho,inv_method=imethod)
-    if ybin:
-        y = make_bin(y)
-    return y
-    
-def dgp_mess(u,xb,w,rho=0.5):
-    """
-    dgp_mess:     generates y for MESS spatial lag model with xb, weights,
-                  spatial parameter rho (gets converted into alpha),
-                  sigma/method for the error term
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    w:       spatial weights
-    rho:     spatial coefficient (converted into alpha)
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, dgp_mess
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> dgp_mess(u, xb, w)[0:5,:]
-    array([[10.12104421],
-           [ 7.45561055],
-           [ 5.32807674],
-           [ 5.55549492],
-           [ 8.62685145]])
-   """        
-    n0 = u.shape[0]
-    n1 = xb.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None    
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    bigw = libpysal.weights.full(w)[0]
-    alpha=np.log(1-rho) #convert between rho and alpha
-    aw=-alpha*bigw      # inverse exponential is -alpha
-    xbu = xb + u
-    y = np.dot(expm(aw),xbu)
-    return y
-
-def dgp_probit(u,xb):
-    """
-    dgp_probit: generates y for non-spatial probit process with given xb
-                and error u
-                y is taken when linear model prediction > its mean
-    
-    Arguments:
-    ----------
-    u:      random error vector
-    xb:     vector of xb
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, dgp_probit
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> dgp_probit(u,xb)[0:5,:]
-    array([[1],
-           [0],
-           [0],
-           [0],
-           [1]])
-
-    """
-    n1 = u.shape[0]
-    n2 = xb.shape[0]  
-    if n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    yy = xb + u
-    mm = yy.mean()
-    y = (yy > mm) * 1
-    return y
-
-def make_bin(yy):
-    """
-    make_bin:   generates y as 0-1 variable for y > mean of y,
-                i.e., for discrete dependent variables
-    
-    Arguments:
-    ----------
-    yy:      initial dependent variable vector
-    
-    Returns:
-    ----------
-    y: vector of 0-1 observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, dgp_ols, make_bin
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> yy = dgp_ols(u,xb)
-    >>> make_bin(yy)[0:5,:]
-    array([[1],
-           [0],
-           [0],
-           [0],
-           [1]])
-
-    """
-    mm = yy.mean()
-    y = (yy > mm)
-    return y * 1
-
-
-def make_heterror(u,v):
-    """
-    make_heterror: transforms constant variance error term into
-                   a heteroskedastic error vector
-                  
-    Arguments:
-    ----------
-    u:   random error vector (constant variance assumed)
-    v:   matching vector of variance multipliers
-         if variance of u is 1, then variance of result with be v
-         
-    Returns:
-    --------
-    hu:   matching vector with heteroskedastic errors
-    
-    """
-    n0 = u.shape[0]
-    n1 = v.shape[0]
-    if n0 != n1:
-        print("Error: incompatible vector dimensions")
-        return None
-    # multiply error with square root of variance multiplier v
-    sev = np.sqrt(v)
-    hu = u * sev
-    return hu
-
-def make_vmult(n,method="linear",vlow=[1],vup=[4],rng=None):
-    
-    """
-    make_vmult : helper function to create variance multiplier
-                 for use in heteroskedastic errors (dgp_heterror)
-                 
-    Arguments:
-    ----------
-    n:        number of observations
-    method:   type of multiplier             
-                 linear:  linear interpolation between vlow and vup
-                 group: groupwise heteroskedasticity of vup by group vlow
-                 uniform: uniform random number between vlow and vup
-    vlow:     list with lower variance multiplier (default=1) or group indicators
-                 group indicators give number of elements in each group, must add up to n       
-    vup:      list with upper variance multiplier (default=4) or group variance multipliers
-                 list of group variance multipliers must match length of vlow
-    rng:      random number object (required for method=uniform, otherwise None)
-    
-    Returns:
-    --------
-    v:        nx1 vector with variance multipliers
-
-    """
-    v = np.ones((n,1))
-    if method == "uniform":
-        if not(rng == None):
-            v = rng.uniform(low=vlow[0],high=vup[0],size=n)
-            v = v.reshape(-1,1)
-        else:
-            print("Error: Missing random number object")
-            return None
-    elif method == "linear":
-        vlo = vlow[0]
-        slop = (vup[0] - vlow[0])/(n-1)
-        for i in range(n):
-            v[i,0] = vlo + slop*i
-    elif method == "group":
-        if len(vup) == len(vlow) and sum(vlow) == n:
-            h = [[i]*j for i,j in zip(vup,vlow)]    # one sublist for each group
-            # flatten list and convert to numpy array
-            hh = []
-            for ii in h:
-                hh += ii
-            v = np.array(hh)
-            v = v.reshape(-1,1)    
-        else:
-            print("Error: Incompatible dimensions")
-            v = None
-    else:
-        print('Error: Unsupported method')
-        v = None
-    return v
-
-def _test():
-    import doctest
-
-    start_suppress = np.get_printoptions()["suppress"]
-    np.set_printoptions(suppress=True)
-    doctest.testmod()
-    np.set_printoptions(suppress=start_suppress)
-
-if __name__ == "__main__":
-    _test()
+"""
+Generating spatial models for specific DGP
+
+"""
+
+__author__ = "Luc Anselin lanselin@gmail.com,\
+     Pedro Amaral pedrovma@gmail.com,\
+     Renan Serenini renan.serenini@uniroma1.it"
+
+import numpy as np
+import math
+import libpysal
+from scipy.linalg import expm
+from .utils import inverse_prod
+
+
+__all__ = [
+    "make_error",
+    "make_x",
+    "make_wx",
+    "make_xb",
+    "make_wxg",
+    "dgp_errproc",
+    "dgp_ols",
+    "dgp_slx",
+    "dgp_sperror",
+    "dgp_slxerror",
+    "dgp_lag",
+    "dgp_spdurbin",
+    "dgp_lagerr",
+    "dgp_gns",
+    "dgp_mess",
+    "dgp_probit",
+    "make_bin",
+    "make_heterror",
+    "make_vmult"
+]
+    
+    
+def make_error(rng,n,mu=0,varu=1,method='normal'):
+    """
+    make_error: generate error term for a given distribution
+    
+    Arguments:
+    ----------
+    rng:      random number object
+    n:        number of observations
+    mu:       mean (when needed)
+    varu:     variance (when needed)
+    method:   type of distribution, one of
+              normal, laplace, cauchy, lognormal
+    
+    Returns:
+    --------
+    u:        nx1 vector of random errors
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> from spreg import make_error
+    >>> rng = np.random.default_rng(12345)
+    >>> make_error(rng,5)
+    array([[-1.42382504],
+           [ 1.26372846],
+           [-0.87066174],
+           [-0.25917323],
+           [-0.07534331]])
+
+    """
+    # normal - standard normal is default
+    if method == 'normal':
+        sdu = math.sqrt(varu)
+        u = rng.normal(loc=mu,scale=sdu,size=n).reshape(n,1)
+    # laplace with thicker tails
+    elif method == 'laplace':
+        sdu = math.sqrt(varu/2.0)
+        u = rng.laplace(loc=mu,scale=sdu,size=n).reshape(n,1)
+    # cauchy, ill-behaved, no mean or variance defined
+    elif method == 'cauchy':
+        u = rng.standard_cauchy(size=n).reshape(n,1)
+    elif method == 'lognormal':
+        sdu = math.sqrt(varu)
+        u = rng.lognormal(mean=mu,sigma=sdu,size=n).reshape(n,1)
+    # all other yield warning
+    else:
+        print('Warning: Unsupported distribution')
+        u = None
+    return u
+
+def make_x(rng,n,mu=[0],varu=[1],cor=0,method='uniform'):
+    """
+    make_x: generate a matrix of k columns of x for a given distribution  
+    
+    Arguments:
+    ----------
+    rng:      random number object
+    n:        number of observations
+    mu:       mean as a list
+    varu:     variance as a list
+    cor:      correlation as a float (for bivariate normal only)
+    method:   type of distribution, one of
+              uniform, normal, bivnormal (bivariate normal)
+    
+    Returns:
+    --------
+    x:        nxk matrix of x variables
+    
+    Note:
+    -----
+    Uniform and normal generate separate draws, bivariate normal generates
+    correlated draws
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> from spreg import make_x
+    >>> rng = np.random.default_rng(12345)
+    >>> make_x(rng,5,mu=[0,1],varu=[1,4])
+    array([[0.78751508, 2.30580253],
+           [1.09728308, 4.14520464],
+           [2.76215497, 1.29373239],
+           [2.3426149 , 4.6609906 ],
+           [1.35484323, 6.52500165]])
+
+    """
+    # check on k dimension
+    k = len(mu)
+    if k == len(varu):
+        # initialize
+        x = np.zeros((n,k))
+        for i in range(k):
+            # uniform - range is derived from variance since var = (1/12)range^2
+            # range is found as square root of 12 times variance
+            # for 0-1, varu should be 0.0833333
+            # low is always 0
+            if method == 'uniform':
+                sdu = math.sqrt(12.0*varu[i])
+                x[:,i] = rng.uniform(low=0,high=sdu,size=n)
+            # normal - independent normal draws
+            elif method == 'normal':
+                sdu = math.sqrt(varu[i])
+                x[:,i] = rng.normal(loc=mu[i],scale=sdu,size=n)
+            # bivariate normal - only for k=2
+            elif method == 'bivnormal':
+                if k != 2:
+                    print('Error: Wrong dimension for k')
+                    x = None
+                    return x
+                else:
+                    ucov = cor* math.sqrt(varu[0]*varu[1])
+                    mcov = [[varu[0],ucov],[ucov,varu[1]]]
+                    x = rng.multivariate_normal(mean=mu,cov=mcov,size=n)
+                    return x
+            else:
+                print('Warning: Unsupported distribution')
+                x = None
+    else:
+        x = None
+    return x
+
+def make_wx(x,w,o=1):
+    """
+    make_wx: generate a matrix spatially lagged x given matrix x  
+    
+             x must be previously generated using make_x, no constant included
+    
+    Arguments:
+    ----------
+    x:        x matrix - no constant
+    w:        row-standardized spatial weights in spreg format
+    o:        order of contiguity, default o=1
+    
+    Returns:
+    --------
+    wx:       nx(kxo) matrix of spatially lagged x variables
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_wx
+    >>> rng = np.random.default_rng(12345)
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> make_wx(x,w)[0:5,:]
+    array([[1.12509217],
+           [1.87409079],
+           [1.36225472],
+           [2.1491645 ],
+           [2.80255786]])
+
+    """
+    if w.n != x.shape[0]:
+        print("Error: incompatible weights dimensions")
+        return None
+    w1x = libpysal.weights.lag_spatial(w,x)
+    wx = w1x
+    if o > 1:
+        for i in range(1,o):
+            whx = libpysal.weights.lag_spatial(w,w1x)
+            w1x = whx
+            wx = np.hstack((wx,whx))
+    return wx
+        
+
+def make_xb(x,beta):
+    """
+    make_xb: generate a column xb as matrix x (constant added)  
+             times list beta (includes coefficient for constant term)
+    
+    Arguments:
+    ----------
+    x:        n x (k-1) matrix for x variables
+    beta:     k length list of regression coefficients
+    
+    Returns:
+    --------
+    xb:        nx1 vector of x times beta
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> from spreg import make_x, make_xb
+    >>> rng = np.random.default_rng(12345)
+    >>> x = make_x(rng,5,mu=[0,1],varu=[1,4])
+    >>> make_xb(x,[1,2,3])
+    array([[ 9.49243776],
+           [15.63018007],
+           [10.4055071 ],
+           [19.66820159],
+           [23.28469141]])
+    """
+    n = x.shape[0]
+    k = x.shape[1]
+    if k+1 != len(beta):
+        print("Error: Incompatible dimensions")
+        return None
+    else:
+        b = np.array(beta)[:,np.newaxis]
+        x1=np.hstack((np.ones((n,1)),x)) # include constant
+        xb = np.dot(x1,b)
+        return xb
+    
+def make_wxg(wx,gamma):
+    """
+    make_wxg: generate a column wxg as matrix wx (no constant)  
+             times list gamma (coefficient of spatially lagged x)
+    
+    Arguments:
+    ----------
+    wx:       n x ((k-1)xo) matrix for spatially lagged x variables of all orders
+    gamma:    (k-1)*o length list of regression coefficients for spatially lagged x
+    
+    Returns:
+    --------
+    wxg:      nx1 vector of wx times gamma
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_wx, make_wxg
+    >>> rng = np.random.default_rng(12345)
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> wx = make_wx(x,w)
+    >>> print(wx.shape)
+    (25, 1)
+    >>> make_wxg(wx,[2,4])[0:5,:]
+    array([[ 2.25018434,  4.50036868],
+           [ 3.74818158,  7.49636316],
+           [ 2.72450944,  5.44901889],
+           [ 4.298329  ,  8.59665799],
+           [ 5.60511572, 11.21023145]])
+
+    """
+    k = wx.shape[1]
+    if (k > 1): 
+        if k != len(gamma):
+            print("Error: Incompatible dimensions")
+            return None
+        else:
+            g = np.array(gamma)[:,np.newaxis]
+            wxg = np.dot(wx,g)
+    else:  # gamma is a scalar
+        wxg = wx * gamma
+    return wxg
+
+def dgp_errproc(u,w,lam=0.5,model='sar',imethod='power_exp'):
+    """
+    dgp_errproc: generates pure spatial error process
+
+    Arguments:
+    ----------
+    u:      random error vector
+    w:      spatial weights object
+    lam:    spatial autoregressive parameter
+    model:  type of process ('sar' or 'ma')
+    imethod: method for inverse transformation, default = 'power_exp'
+
+    Returns:
+    --------
+    y : vector of observations following a spatial AR or MA process
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, dgp_errproc
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> dgp_errproc(u,w)[0:5,:]
+    array([[-1.43760658],
+           [ 0.69778271],
+           [-0.7750646 ],
+           [-0.47750452],
+           [-0.72377417]])
+
+    """
+    n0 = u.shape[0]
+    if w.n != n0:
+        print("Error: incompatible weights dimensions")
+        return None
+    if model == 'sar':
+        y = inverse_prod(w,u,lam,inv_method=imethod)
+    elif model == 'ma':
+        y = u + lam * libpysal.weights.lag_spatial(w,u)
+    else:
+        print("Error: unsupported model type")
+        return None
+    return y
+    
+
+def dgp_ols(u,xb):
+    """
+    dgp_ols: generates y for non-spatial process with given xb and error term u
+    
+    Arguments:
+    ----------
+    u:      random error vector
+    xb:     vector of xb
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, dgp_ols
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> dgp_ols(u,xb)[0:5,:]
+    array([[5.22803968],
+           [3.60291127],
+           [1.02632633],
+           [1.37589879],
+           [5.07165754]])
+
+    """
+    n1 = u.shape[0]
+    n2 = xb.shape[0]  
+    if n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    y = xb + u
+    return y
+
+def dgp_slx(u,xb,wxg,ybin=False):
+    """
+    dgp_slx: generates y for SLX with given xb, wxg, and error term u
+    
+    Arguments:
+    ----------
+    u:      random error vector
+    xb:     vector of xb
+    wxg:    vector of wxg
+    ybin:   flag for binary dependent variable, default = False
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_slx
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> wx = make_wx(x,w)
+    >>> wxg = make_wxg(wx,[2])
+    >>> dgp_slx(u, xb, wxg)[0:5,:]
+    array([[8.85854389],
+           [7.17524694],
+           [3.83674621],
+           [4.73103929],
+           [8.37023076]])
+    """
+    n0 = u.shape[0]
+    n1 = xb.shape[0]  
+    n2 = wxg.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None
+    elif n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    y = xb + wxg + u
+    if ybin:     # probit case, turn into 0-1
+        y = make_bin(y)
+    return y    
+    
+def dgp_sperror(u,xb,w,lam=0.5,model='sar',imethod='power_exp',ybin=False):
+    """
+    dgp_sperror: generates y for spatial error model with given xb, weights,
+                  spatial parameter lam, error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    w:       spatial weights
+    lam:     spatial coefficient
+    model:   type of process ('sar' or 'ma')
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, dgp_sperror
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> dgp_sperror(u, xb, w)[0:5,:]
+    array([[5.21425813],
+           [3.03696553],
+           [1.12192347],
+           [1.15756751],
+           [4.42322667]])
+    """
+    n0 = u.shape[0]
+    n1 = xb.shape[0]
+    if n0 != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    elif w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    if model == 'sar':
+        u1 = inverse_prod(w,u,lam,inv_method=imethod)
+    elif model == 'ma':
+        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
+    else:
+        print("Error: unsupported model type")
+        return None
+    y = xb + u1
+    if ybin:
+        y = make_bin(y)
+    return y
+
+def dgp_slxerror(u,xb,wxg,w,lam=0.5,model='sar',imethod='power_exp',ybin=False):
+    """
+    dgp_slxerror: generates y for SLX spatial error model with xb, wxg, weights,
+                  spatial parameter lam, model type (sar or ma),
+                  error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    wxg:     vector of wxg
+    w:       spatial weights
+    lam:     spatial coefficient
+    model:   type of process ('sar' or 'ma')
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary 0-1 dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_slxerror
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> wx = make_wx(x,w)
+    >>> wxg = make_wxg(wx,[2])
+    >>> dgp_slxerror(u,xb,wxg,w)[0:5,:]
+    array([[8.84476235],
+           [6.6093012 ],
+           [3.93234334],
+           [4.51270801],
+           [7.7217999 ]])
+   """
+    
+    n0 = u.shape[0]
+    n1 = xb.shape[0]  
+    n2 = wxg.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None
+    elif n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    if model == 'sar':
+        u1 = inverse_prod(w,u,lam,inv_method=imethod)
+    elif model == 'ma':
+        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
+    else:
+        print("Error: unsupported model type")
+        return None  
+    y = xb + wxg + u1
+    if ybin:
+        y = make_bin(y)
+    return y
+    
+def dgp_lag(u,xb,w,rho=0.5,imethod='power_exp',ybin=False):
+    """
+    dgp_lag:      generates y for spatial lag model with xb, weights,
+                  spatial parameter rho,
+                  error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    w:       spatial weights
+    rho:     spatial coefficient
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, dgp_lag
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> dgp_lag(u, xb, w)[0:5,:]
+    array([[10.16582326],
+           [ 7.75359864],
+           [ 5.39821733],
+           [ 5.62244672],
+           [ 8.868168  ]])
+   """    
+    n0 = u.shape[0]
+    n1 = xb.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    y1 = xb + u
+    y = inverse_prod(w,y1,rho,inv_method=imethod)
+    if ybin:
+        y = make_bin(y)
+    return y
+    
+def dgp_spdurbin(u,xb,wxg,w,rho=0.5,imethod='power_exp',ybin=False):
+    """
+    dgp_spdurbin: generates y for spatial Durbin model with xb, wxg, weights,
+                  spatial parameter rho,
+                  error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    wxg:     vector of wxg
+    w:       spatial weights
+    rho:     spatial coefficient
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary 0-1 dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_spdurbin
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> wx = make_wx(x,w)
+    >>> wxg = make_wxg(wx,[2])
+    >>> dgp_spdurbin(u,xb,wxg,w)[0:5,:]
+    array([[18.06895353],
+           [15.18686487],
+           [11.95080505],
+           [12.55220513],
+           [15.75805066]])
+   """        
+    n0 = u.shape[0]
+    n1 = xb.shape[0]  
+    n2 = wxg.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None
+    elif n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    y1 = xb + wxg + u
+    y = inverse_prod(w,y1,rho,inv_method=imethod)
+    if ybin:
+        y = make_bin(y)
+    return y
+    
+def dgp_lagerr(u,xb,w,rho=0.5,lam=0.2,model='sar',imethod='power_exp',ybin=False):
+    """
+    dgp_lagerr:   generates y for spatial lag model with sar or ma errors
+                  with xb, weights,
+                  spatial parameter rho, spatial parameter lambda,
+                  model for spatial process,
+                  error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    w:       spatial weights
+    rho:     spatial coefficient for lag
+    lam:     spatial coefficient for error
+    model:   spatial process for error
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary 0-1 dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, dgp_lagerr
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> dgp_lagerr(u, xb, w)[0:5,:]
+    array([[10.13845523],
+           [ 7.53009531],
+           [ 5.40644034],
+           [ 5.51132886],
+           [ 8.58872366]])
+   """            
+    n0 = u.shape[0]
+    n1 = xb.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    if model == 'sar':
+        u1 = inverse_prod(w,u,lam,inv_method=imethod)
+    elif model == 'ma':
+        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
+    else:
+        print("Error: unsupported model type")
+        return None
+    y1 = xb + u1
+    y = inverse_prod(w,y1,rho,inv_method=imethod)
+    if ybin:
+        y = make_bin(y)
+    return y
+    
+def dgp_gns(u,xb,wxg,w,rho=0.5,lam=0.2,model='sar',imethod='power_exp',ybin=False):
+    """
+    dgp_gns:      generates y for general nested model with sar or ma errors
+                  with xb, wxg, weights,
+                  spatial parameter rho, spatial parameter lambda,
+                  model for spatial process,
+                  error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    wxg:     vector of wxg
+    w:       spatial weights
+    rho:     spatial coefficient for lag
+    lam:     spatial coefficient for error
+    model:   spatial process for error
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary 0-1 dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_gns
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> wx = make_wx(x,w)
+    >>> wxg = make_wxg(wx,[2])
+    >>> dgp_gns(u,xb,wxg,w)[0:5,:]
+    array([[18.04158549],
+           [14.96336153],
+           [11.95902806],
+           [12.44108728],
+           [15.47860632]])
+   """            
+    n0 = u.shape[0]
+    n1 = xb.shape[0]  
+    n2 = wxg.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None       
+    elif n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    if model == 'sar':
+        u1 = inverse_prod(w,u,lam,inv_method=imethod)
+    elif model == 'ma':
+        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
+    else:
+        print("Error: unsupported model type")
+        return None
+    y1 = xb + wxg + u1
+    y = inverse_prod(w,y1,rho,inv_method=imethod)
+    if ybin:
+        y = make_bin(y)
+    return y
+    
+def dgp_mess(u,xb,w,rho=0.5):
+    """
+    dgp_mess:     generates y for MESS spatial lag model with xb, weights,
+                  spatial parameter rho (gets converted into alpha),
+                  sigma/method for the error term
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    w:       spatial weights
+    rho:     spatial coefficient (converted into alpha)
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, dgp_mess
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> dgp_mess(u, xb, w)[0:5,:]
+    array([[10.12104421],
+           [ 7.45561055],
+           [ 5.32807674],
+           [ 5.55549492],
+           [ 8.62685145]])
+   """        
+    n0 = u.shape[0]
+    n1 = xb.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None    
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    bigw = libpysal.weights.full(w)[0]
+    alpha=np.log(1-rho) #convert between rho and alpha
+    aw=-alpha*bigw      # inverse exponential is -alpha
+    xbu = xb + u
+    y = np.dot(expm(aw),xbu)
+    return y
+
+def dgp_probit(u,xb):
+    """
+    dgp_probit: generates y for non-spatial probit process with given xb
+                and error u
+                y is taken when linear model prediction > its mean
+    
+    Arguments:
+    ----------
+    u:      random error vector
+    xb:     vector of xb
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, dgp_probit
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> dgp_probit(u,xb)[0:5,:]
+    array([[1],
+           [0],
+           [0],
+           [0],
+           [1]])
+
+    """
+    n1 = u.shape[0]
+    n2 = xb.shape[0]  
+    if n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    yy = xb + u
+    mm = yy.mean()
+    y = (yy > mm) * 1
+    return y
+
+def make_bin(yy):
+    """
+    make_bin:   generates y as 0-1 variable for y > mean of y,
+                i.e., for discrete dependent variables
+    
+    Arguments:
+    ----------
+    yy:      initial dependent variable vector
+    
+    Returns:
+    ----------
+    y: vector of 0-1 observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, dgp_ols, make_bin
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> yy = dgp_ols(u,xb)
+    >>> make_bin(yy)[0:5,:]
+    array([[1],
+           [0],
+           [0],
+           [0],
+           [1]])
+
+    """
+    mm = yy.mean()
+    y = (yy > mm)
+    return y * 1
+
+
+def make_heterror(u,v):
+    """
+    make_heterror: transforms constant variance error term into
+                   a heteroskedastic error vector
+                  
+    Arguments:
+    ----------
+    u:   random error vector (constant variance assumed)
+    v:   matching vector of variance multipliers
+         if variance of u is 1, then variance of result with be v
+         
+    Returns:
+    --------
+    hu:   matching vector with heteroskedastic errors
+    
+    """
+    n0 = u.shape[0]
+    n1 = v.shape[0]
+    if n0 != n1:
+        print("Error: incompatible vector dimensions")
+        return None
+    # multiply error with square root of variance multiplier v
+    sev = np.sqrt(v)
+    hu = u * sev
+    return hu
+
+def make_vmult(n,method="linear",vlow=[1],vup=[4],rng=None):
+    
+    """
+    make_vmult : helper function to create variance multiplier
+                 for use in heteroskedastic errors (dgp_heterror)
+                 
+    Arguments:
+    ----------
+    n:        number of observations
+    method:   type of multiplier             
+                 linear:  linear interpolation between vlow and vup
+                 group: groupwise heteroskedasticity of vup by group vlow
+                 uniform: uniform random number between vlow and vup
+    vlow:     list with lower variance multiplier (default=1) or group indicators
+                 group indicators give number of elements in each group, must add up to n       
+    vup:      list with upper variance multiplier (default=4) or group variance multipliers
+                 list of group variance multipliers must match length of vlow
+    rng:      random number object (required for method=uniform, otherwise None)
+    
+    Returns:
+    --------
+    v:        nx1 vector with variance multipliers
+
+    """
+    v = np.ones((n,1))
+    if method == "uniform":
+        if not(rng == None):
+            v = rng.uniform(low=vlow[0],high=vup[0],size=n)
+            v = v.reshape(-1,1)
+        else:
+            print("Error: Missing random number object")
+            return None
+    elif method == "linear":
+        vlo = vlow[0]
+        slop = (vup[0] - vlow[0])/(n-1)
+        for i in range(n):
+            v[i,0] = vlo + slop*i
+    elif method == "group":
+        if len(vup) == len(vlow) and sum(vlow) == n:
+            h = [[i]*j for i,j in zip(vup,vlow)]    # one sublist for each group
+            # flatten list and convert to numpy array
+            hh = []
+            for ii in h:
+                hh += ii
+            v = np.array(hh)
+            v = v.reshape(-1,1)    
+        else:
+            print("Error: Incompatible dimensions")
+            v = None
+    else:
+        print('Error: Unsupported method')
+        v = None
+    return v
+
+def _test():
+    import doctest
+
+    start_suppress = np.get_printoptions()["suppress"]
+    np.set_printoptions(suppress=True)
+    doctest.testmod()
+    np.set_printoptions(suppress=start_suppress)
+
+if __name__ == "__main__":
+    _test()
     
\ No newline at end of file
-- 
2.43.0


From f54744105038a5d135107ce9a6bd3c69f116a620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 21/57] fix: names of spatially lagged regressors and
 instruments treat 'All' like 'all' for any number of variables

---
 spreg/twosls_sp_regimes.py | 3 ++-
 spreg/user_output.py       | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index b09e631..710c5f4 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -518,7 +518,8 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             x_constant = np.hstack((x_constant, wx))
             name_slx = USER.set_name_spatial_lags(name_x, slx_lags, slx_vars=slx_vars)
             iter_slx = iter(name_slx) 
-            name_q_temp = [next(iter_slx) if keep else name for name, keep in zip(name_x, slx_vars)]
+            lagged = [True] * len(name_x) if isinstance(slx_vars, str) else slx_vars
+            name_q_temp = [next(iter_slx) if keep else name for name, keep in zip(name_x, lagged)]
             name_q.extend(USER.set_name_q_sp(name_q_temp, w_lags, name_q, lag_q, force_all=True))
             name_x += name_slx
             if cols2regi == 'all':
diff --git a/spreg/user_output.py b/spreg/user_output.py
index cdd3a17..8d14e7f 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -178,7 +178,7 @@ def set_name_spatial_lags(names, w_lags, slx_vars="all", additional=0):
     lag_names2 : string, only returned if additional > 0
 
     """
-    if slx_vars != "all":
+    if not isinstance(slx_vars, str):
         names = list(compress(names,slx_vars))
     lag_names = ["W_" + s for s in names]
     n_i = 1
-- 
2.43.0


From e2d05b928f0a32530337c2fb00ac3e4f3d831aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 22/57] fix: slx_vars is handed on when regimes are given

---
 spreg/ml_error.py  | 1 +
 spreg/ml_lag.py    | 1 +
 spreg/ols.py       | 1 +
 spreg/twosls.py    | 1 +
 spreg/twosls_sp.py | 1 +
 5 files changed, 5 insertions(+)

diff --git a/spreg/ml_error.py b/spreg/ml_error.py
index e12fe7f..2247366 100755
--- a/spreg/ml_error.py
+++ b/spreg/ml_error.py
@@ -499,6 +499,7 @@ class ML_Error(BaseML_Error):
                 regimes=regimes,
                 w=w,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 method=method,
                 epsilon=epsilon,
                 vm=vm,
diff --git a/spreg/ml_lag.py b/spreg/ml_lag.py
index f774309..86f5f57 100755
--- a/spreg/ml_lag.py
+++ b/spreg/ml_lag.py
@@ -623,6 +623,7 @@ class ML_Lag(BaseML_Lag):
                 regimes=regimes,
                 w=w,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 method=method,
                 epsilon=epsilon,
                 spat_impacts=spat_impacts,
diff --git a/spreg/ols.py b/spreg/ols.py
index 9b1da1d..a4b411f 100755
--- a/spreg/ols.py
+++ b/spreg/ols.py
@@ -474,6 +474,7 @@ class OLS(BaseOLS):
                 robust=robust,
                 gwk=gwk,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 sig2n_k=sig2n_k,
                 nonspat_diag=nonspat_diag,
                 spat_diag=spat_diag,
diff --git a/spreg/twosls.py b/spreg/twosls.py
index 0c59bb6..5b07aba 100644
--- a/spreg/twosls.py
+++ b/spreg/twosls.py
@@ -492,6 +492,7 @@ class TSLS(BaseTSLS):
                 robust=robust,
                 gwk=gwk,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 sig2n_k=sig2n_k,
                 spat_diag=spat_diag,
                 vm=vm,
diff --git a/spreg/twosls_sp.py b/spreg/twosls_sp.py
index 8efc6e6..26eb06a 100755
--- a/spreg/twosls_sp.py
+++ b/spreg/twosls_sp.py
@@ -548,6 +548,7 @@ class GM_Lag(BaseGM_Lag):
                 w=w,
                 w_lags=w_lags,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 lag_q=lag_q,
                 robust=robust,
                 gwk=gwk,
-- 
2.43.0


From 35949ca3bde46801910ee1c4067bbe9da68765ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 23/57] fix: stge_pre names the model it selected when the AK
 test cannot be computed

---
 spreg/spsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/spsearch.py b/spreg/spsearch.py
index 6066703..097f729 100755
--- a/spreg/spsearch.py
+++ b/spreg/spsearch.py
@@ -697,7 +697,7 @@ def stge_pre(
                 except:  # ignore lag model
                     if p_rlag <= p_rerror:
                         k = idv + 1
-                        result = models[1]
+                        result = models[k]
 
                     else:
                         k = idv + 2
-- 
2.43.0


From ee2a7939811206604142cd44a43bba6d9f9d31d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:54 +0000
Subject: [PATCH 24/57] fix: GMM_Error hands slx_vars and hard_bound on to its
 regimes version, which says when it cannot use them

---
 spreg/error_sp.py         |  6 ++---
 spreg/error_sp_regimes.py | 46 ++++++++++++++++++++++++---------------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/spreg/error_sp.py b/spreg/error_sp.py
index 18cc550..07080fd 100644
--- a/spreg/error_sp.py
+++ b/spreg/error_sp.py
@@ -1326,8 +1326,8 @@ class GMM_Error(GM_Error, GM_Endog_Error, GM_Combo, GM_Error_Het, GM_Endog_Error
             self.__class__ = GMM_Error_Regimes
             self.__init__(
                 y=y, x=x, regimes=regimes, w=w, yend=yend, q=q, estimator=estimator, add_wy=add_wy, 
-                slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x, name_w=name_w, name_yend=name_yend,
-                name_q=name_q, name_ds=name_ds, latex=latex, **kwargs)
+                slx_lags=slx_lags, slx_vars=slx_vars, vm=vm, name_y=name_y, name_x=name_x, name_w=name_w, name_yend=name_yend,
+                name_q=name_q, name_ds=name_ds, latex=latex, hard_bound=hard_bound, **kwargs)
         else:        
             if estimator == 'het':
                 if yend is None and not add_wy:
@@ -1373,7 +1373,7 @@ class GMM_Error(GM_Error, GM_Endog_Error, GM_Combo, GM_Error_Het, GM_Endog_Error
                                         name_w=name_w, name_ds=name_ds, latex=latex, hard_bound=hard_bound)
             else:
                 set_warn(self, 'Combination of arguments passed to GMM_Error not allowed. Using default arguments instead.')
-                GM_Error_Het.__init__(self, y=y, x=x, w=w, slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x, 
+                GM_Error_Het.__init__(self, y=y, x=x, w=w, slx_lags=slx_lags, slx_vars=slx_vars, vm=vm, name_y=name_y, name_x=name_x, 
                                         name_w=name_w, name_ds=name_ds, latex=latex, hard_bound=hard_bound)
 
 
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index 8b9a9c6..15eb085 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -1647,6 +1647,13 @@ class GMM_Error_Regimes(GM_Error_Regimes, GM_Combo_Regimes, GM_Endog_Error_Regim
     slx_lags     : integer
                    Number of spatial lags of X to include in the model specification.
                    If slx_lags>0, the specification becomes of the SLX-Error or GNSM type.             
+    slx_vars     : either "All" (default) or list of booleans to select x variables
+                   to be lagged. Only available without endogenous variables
+                   and without the spatial lag of the dependent variable.
+    hard_bound   : boolean
+                   If true, raises an exception if the estimated spatial
+                   autoregressive parameter is outside the bounds. Not available
+                   with the 'kp98' estimator.
     vm           : boolean
                    If True, include variance-covariance matrix in summary
                    results
@@ -1908,47 +1915,52 @@ class GMM_Error_Regimes(GM_Error_Regimes, GM_Combo_Regimes, GM_Endog_Error_Regim
     def __init__(
             self, y, x, regimes, w, yend=None, q=None, estimator='het', constant_regi="many", cols2regi="all", regime_err_sep=False,
             regime_lag_sep=False, add_wy=False, slx_lags=0, vm=False, name_y=None, name_x=None, name_w=None, name_regimes=None, name_yend=None,
-            name_q=None, name_ds=None, latex=False, **kwargs):
+            name_q=None, name_ds=None, latex=False, slx_vars="All", hard_bound=False, **kwargs):
+
+        if slx_lags > 0 and not isinstance(slx_vars, str) and (yend is not None or add_wy):
+            set_warn(self, 'slx_vars is not available with endogenous variables or a spatial lag. All variables are lagged.')
+        if hard_bound and estimator == 'kp98':
+            set_warn(self, 'hard_bound is not available for the kp98 estimator with regimes and has been ignored.')
 
         if estimator == 'het':
             if yend is None and not add_wy:
-                GM_Error_Het_Regimes.__init__(self, y=y, x=x, regimes=regimes, w=w, slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x,
+                GM_Error_Het_Regimes.__init__(self, y=y, x=x, regimes=regimes, w=w, slx_lags=slx_lags, slx_vars=slx_vars, vm=vm, name_y=name_y, name_x=name_x,
                                               constant_regi=constant_regi, cols2regi=cols2regi, regime_err_sep=regime_err_sep,
-                                              name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex, **kwargs)
+                                              name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex, hard_bound=hard_bound, **kwargs)
             elif yend is not None and not add_wy:
                 GM_Endog_Error_Het_Regimes.__init__(self, y=y, x=x, regimes=regimes, yend=yend, q=q, w=w, slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x,
                                                     constant_regi=constant_regi, cols2regi=cols2regi, regime_err_sep=regime_err_sep,
-                                                    name_yend=name_yend, name_q=name_q, name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex, **kwargs)
+                                                    name_yend=name_yend, name_q=name_q, name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex, hard_bound=hard_bound, **kwargs)
             elif add_wy:
                 GM_Combo_Het_Regimes.__init__(self, y=y, x=x, regimes=regimes, yend=yend, q=q, w=w, slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x,
                                               constant_regi=constant_regi, cols2regi=cols2regi, regime_err_sep=regime_err_sep, regime_lag_sep=regime_lag_sep,
-                                              name_yend=name_yend, name_q=name_q, name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex, **kwargs)
+                                              name_yend=name_yend, name_q=name_q, name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex, hard_bound=hard_bound, **kwargs)
             else:
                 set_warn(self, 'Combination of arguments passed to GMM_Error_Regimes not allowed. Using default arguments instead.')
-                GM_Error_Het_Regimes.__init__(self, y=y, x=x, regimes=regimes, w=w, slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x,
+                GM_Error_Het_Regimes.__init__(self, y=y, x=x, regimes=regimes, w=w, slx_lags=slx_lags, slx_vars=slx_vars, vm=vm, name_y=name_y, name_x=name_x,
                                               constant_regi=constant_regi, cols2regi=cols2regi, regime_err_sep=regime_err_sep,
-                                              name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex)
+                                              name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex, hard_bound=hard_bound)
         elif estimator == 'hom':
             if yend is None and not add_wy:
-                GM_Error_Hom_Regimes.__init__(self, y=y, x=x, regimes=regimes, w=w, slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x,
+                GM_Error_Hom_Regimes.__init__(self, y=y, x=x, regimes=regimes, w=w, slx_lags=slx_lags, slx_vars=slx_vars, vm=vm, name_y=name_y, name_x=name_x,
                                               constant_regi=constant_regi, cols2regi=cols2regi, regime_err_sep=regime_err_sep,
-                                              name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex, **kwargs)
+                                              name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex, hard_bound=hard_bound, **kwargs)
             elif yend is not None and not add_wy:
                 GM_Endog_Error_Hom_Regimes.__init__(self, y=y, x=x, regimes=regimes, yend=yend, q=q, w=w, slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x,
                                                     constant_regi=constant_regi, cols2regi=cols2regi, regime_err_sep=regime_err_sep,
-                                                    name_yend=name_yend, name_q=name_q, name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex, **kwargs)
+                                                    name_yend=name_yend, name_q=name_q, name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex, hard_bound=hard_bound, **kwargs)
             elif add_wy:
                 GM_Combo_Hom_Regimes.__init__(self, y=y, x=x, regimes=regimes, yend=yend, q=q, w=w, slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x,
                                               constant_regi=constant_regi, cols2regi=cols2regi, regime_err_sep=regime_err_sep, regime_lag_sep=regime_lag_sep,
-                                              name_yend=name_yend, name_q=name_q, name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex, **kwargs)
+                                              name_yend=name_yend, name_q=name_q, name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex, hard_bound=hard_bound, **kwargs)
             else:
                 set_warn(self, 'Combination of arguments passed to GMM_Error_Regimes not allowed. Using default arguments instead.')
-                GM_Error_Hom_Regimes.__init__(self, y=y, x=x, regimes=regimes, w=w, slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x,
+                GM_Error_Hom_Regimes.__init__(self, y=y, x=x, regimes=regimes, w=w, slx_lags=slx_lags, slx_vars=slx_vars, vm=vm, name_y=name_y, name_x=name_x,
                                               constant_regi=constant_regi, cols2regi=cols2regi, regime_err_sep=regime_err_sep,
-                                              name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex)        
+                                              name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex, hard_bound=hard_bound)        
         elif estimator == 'kp98':
             if yend is None and not add_wy:
-                GM_Error_Regimes.__init__(self, y=y, x=x, regimes=regimes, w=w, slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x,
+                GM_Error_Regimes.__init__(self, y=y, x=x, regimes=regimes, w=w, slx_lags=slx_lags, slx_vars=slx_vars, vm=vm, name_y=name_y, name_x=name_x,
                                           constant_regi=constant_regi, cols2regi=cols2regi, regime_err_sep=regime_err_sep,
                                           name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex, **kwargs)
             elif yend is not None and not add_wy:
@@ -1961,14 +1973,14 @@ class GMM_Error_Regimes(GM_Error_Regimes, GM_Combo_Regimes, GM_Endog_Error_Regim
                                           name_yend=name_yend, name_q=name_q, name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex, **kwargs)
             else:
                 set_warn(self, 'Combination of arguments passed to GMM_Error_Regimes not allowed. Using default arguments instead.')
-                GM_Error_Regimes.__init__(self, y=y, x=x, regimes=regimes, w=w, slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x,
+                GM_Error_Regimes.__init__(self, y=y, x=x, regimes=regimes, w=w, slx_lags=slx_lags, slx_vars=slx_vars, vm=vm, name_y=name_y, name_x=name_x,
                                           constant_regi=constant_regi, cols2regi=cols2regi, regime_err_sep=regime_err_sep,
                                           name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex)     
         else:
             set_warn(self, 'Combination of arguments passed to GMM_Error_Regimes not allowed. Using default arguments instead.')
-            GM_Error_Het_Regimes.__init__(self, y=y, x=x, regimes=regimes, w=w, slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x,
+            GM_Error_Het_Regimes.__init__(self, y=y, x=x, regimes=regimes, w=w, slx_lags=slx_lags, slx_vars=slx_vars, vm=vm, name_y=name_y, name_x=name_x,
                                             constant_regi=constant_regi, cols2regi=cols2regi, regime_err_sep=regime_err_sep,
-                                            name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex)
+                                            name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex, hard_bound=hard_bound)
 
 def _work_error(y, x, regi_ids, r, w, name_ds, name_y, name_x, name_w, name_regimes):
     w_r, warn = REGI.w_regime(w, regi_ids[r], r, transform=True)
-- 
2.43.0


From cb5d4052ff77e6981439d4fad3d824e4ac5e4b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:54 +0000
Subject: [PATCH 25/57] fix: OLS with regimes says that variance inflation
 factors are not available

---
 spreg/ols.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/ols.py b/spreg/ols.py
index a4b411f..ca1849d 100755
--- a/spreg/ols.py
+++ b/spreg/ols.py
@@ -466,6 +466,8 @@ class OLS(BaseOLS):
         if regimes is not None:
             from .ols_regimes import OLS_Regimes
             self.__class__ = OLS_Regimes
+            if vif:
+                set_warn(self, "Variance inflation factors are not available with regimes.")
             self.__init__(
                 y=y,
                 x=x,
-- 
2.43.0


From 29a0de0bf06fef5abc4ed87a05f108668cae087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 26/57] fix: SURlagIV keeps the names given for endogenous
 variables and instruments

---
 spreg/sur_lag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index ca84213..f3e5cb3 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -289,7 +289,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
             for r in range(self.n_eq):
                 ky = bigyend[r].shape[1]
                 name_ye = ["end_" + str(i + 1) + "_" + str(r + 1) for i in range(ky)]
-                name_bigyend[r] = name_ye
+                name_bigyend.setdefault(r, name_ye)
         if name_bigq is None:
             name_bigq = {}
         if bigq is not None:  # check on instruments
@@ -297,7 +297,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
             for r in range(self.n_eq):
                 ki = bigq[r].shape[1]
                 name_i = ["inst_" + str(i + 1) + "_" + str(r + 1) for i in range(ki)]
-                name_bigq[r] = name_i
+                name_bigq.setdefault(r, name_i)
 
         if regimes is not None:
             self.constant_regi = "many"
-- 
2.43.0


From ad6d344e7aa25f2e51aaf492fbd0133e635a29e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 27/57] fix: keep the original line endings of dgp.py and
 diagnostics_probit.py

---
 spreg/dgp.py                | 2044 +++++++++++++++++------------------
 spreg/diagnostics_probit.py |  686 ++++++------
 2 files changed, 1365 insertions(+), 1365 deletions(-)

diff --git a/spreg/dgp.py b/spreg/dgp.py
index dffaac9..f60932d 100644
--- a/spreg/dgp.py
+++ b/spreg/dgp.py
@@ -1,1023 +1,1023 @@
-"""
-Generating spatial models for specific DGP
-
-"""
-
-__author__ = "Luc Anselin lanselin@gmail.com,\
-     Pedro Amaral pedrovma@gmail.com,\
-     Renan Serenini renan.serenini@uniroma1.it"
-
-import numpy as np
-import math
-import libpysal
-from scipy.linalg import expm
-from .utils import inverse_prod
-
-
-__all__ = [
-    "make_error",
-    "make_x",
-    "make_wx",
-    "make_xb",
-    "make_wxg",
-    "dgp_errproc",
-    "dgp_ols",
-    "dgp_slx",
-    "dgp_sperror",
-    "dgp_slxerror",
-    "dgp_lag",
-    "dgp_spdurbin",
-    "dgp_lagerr",
-    "dgp_gns",
-    "dgp_mess",
-    "dgp_probit",
-    "make_bin",
-    "make_heterror",
-    "make_vmult"
-]
-    
-    
-def make_error(rng,n,mu=0,varu=1,method='normal'):
-    """
-    make_error: generate error term for a given distribution
-    
-    Arguments:
-    ----------
-    rng:      random number object
-    n:        number of observations
-    mu:       mean (when needed)
-    varu:     variance (when needed)
-    method:   type of distribution, one of
-              normal, laplace, cauchy, lognormal
-    
-    Returns:
-    --------
-    u:        nx1 vector of random errors
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> from spreg import make_error
-    >>> rng = np.random.default_rng(12345)
-    >>> make_error(rng,5)
-    array([[-1.42382504],
-           [ 1.26372846],
-           [-0.87066174],
-           [-0.25917323],
-           [-0.07534331]])
-
-    """
-    # normal - standard normal is default
-    if method == 'normal':
-        sdu = math.sqrt(varu)
-        u = rng.normal(loc=mu,scale=sdu,size=n).reshape(n,1)
-    # laplace with thicker tails
-    elif method == 'laplace':
-        sdu = math.sqrt(varu/2.0)
-        u = rng.laplace(loc=mu,scale=sdu,size=n).reshape(n,1)
-    # cauchy, ill-behaved, no mean or variance defined
-    elif method == 'cauchy':
-        u = rng.standard_cauchy(size=n).reshape(n,1)
-    elif method == 'lognormal':
-        sdu = math.sqrt(varu)
-        u = rng.lognormal(mean=mu,sigma=sdu,size=n).reshape(n,1)
-    # all other yield warning
-    else:
-        print('Warning: Unsupported distribution')
-        u = None
-    return u
-
-def make_x(rng,n,mu=[0],varu=[1],cor=0,method='uniform'):
-    """
-    make_x: generate a matrix of k columns of x for a given distribution  
-    
-    Arguments:
-    ----------
-    rng:      random number object
-    n:        number of observations
-    mu:       mean as a list
-    varu:     variance as a list
-    cor:      correlation as a float (for bivariate normal only)
-    method:   type of distribution, one of
-              uniform, normal, bivnormal (bivariate normal)
-    
-    Returns:
-    --------
-    x:        nxk matrix of x variables
-    
-    Note:
-    -----
-    Uniform and normal generate separate draws, bivariate normal generates
-    correlated draws
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> from spreg import make_x
-    >>> rng = np.random.default_rng(12345)
-    >>> make_x(rng,5,mu=[0,1],varu=[1,4])
-    array([[0.78751508, 2.30580253],
-           [1.09728308, 4.14520464],
-           [2.76215497, 1.29373239],
-           [2.3426149 , 4.6609906 ],
-           [1.35484323, 6.52500165]])
-
-    """
-    # check on k dimension
-    k = len(mu)
-    if k == len(varu):
-        # initialize
-        x = np.zeros((n,k))
-        for i in range(k):
-            # uniform - range is derived from variance since var = (1/12)range^2
-            # range is found as square root of 12 times variance
-            # for 0-1, varu should be 0.0833333
-            # low is always 0
-            if method == 'uniform':
-                sdu = math.sqrt(12.0*varu[i])
-                x[:,i] = rng.uniform(low=0,high=sdu,size=n)
-            # normal - independent normal draws
-            elif method == 'normal':
-                sdu = math.sqrt(varu[i])
-                x[:,i] = rng.normal(loc=mu[i],scale=sdu,size=n)
-            # bivariate normal - only for k=2
-            elif method == 'bivnormal':
-                if k != 2:
-                    print('Error: Wrong dimension for k')
-                    x = None
-                    return x
-                else:
-                    ucov = cor* math.sqrt(varu[0]*varu[1])
-                    mcov = [[varu[0],ucov],[ucov,varu[1]]]
-                    x = rng.multivariate_normal(mean=mu,cov=mcov,size=n)
-                    return x
-            else:
-                print('Warning: Unsupported distribution')
-                x = None
-    else:
-        x = None
-    return x
-
-def make_wx(x,w,o=1):
-    """
-    make_wx: generate a matrix spatially lagged x given matrix x  
-    
-             x must be previously generated using make_x, no constant included
-    
-    Arguments:
-    ----------
-    x:        x matrix - no constant
-    w:        row-standardized spatial weights in spreg format
-    o:        order of contiguity, default o=1
-    
-    Returns:
-    --------
-    wx:       nx(kxo) matrix of spatially lagged x variables
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_wx
-    >>> rng = np.random.default_rng(12345)
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> make_wx(x,w)[0:5,:]
-    array([[1.12509217],
-           [1.87409079],
-           [1.36225472],
-           [2.1491645 ],
-           [2.80255786]])
-
-    """
-    if w.n != x.shape[0]:
-        print("Error: incompatible weights dimensions")
-        return None
-    w1x = libpysal.weights.lag_spatial(w,x)
-    wx = w1x
-    if o > 1:
-        for i in range(1,o):
-            whx = libpysal.weights.lag_spatial(w,w1x)
-            w1x = whx
-            wx = np.hstack((wx,whx))
-    return wx
-        
-
-def make_xb(x,beta):
-    """
-    make_xb: generate a column xb as matrix x (constant added)  
-             times list beta (includes coefficient for constant term)
-    
-    Arguments:
-    ----------
-    x:        n x (k-1) matrix for x variables
-    beta:     k length list of regression coefficients
-    
-    Returns:
-    --------
-    xb:        nx1 vector of x times beta
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> from spreg import make_x, make_xb
-    >>> rng = np.random.default_rng(12345)
-    >>> x = make_x(rng,5,mu=[0,1],varu=[1,4])
-    >>> make_xb(x,[1,2,3])
-    array([[ 9.49243776],
-           [15.63018007],
-           [10.4055071 ],
-           [19.66820159],
-           [23.28469141]])
-    """
-    n = x.shape[0]
-    k = x.shape[1]
-    if k+1 != len(beta):
-        print("Error: Incompatible dimensions")
-        return None
-    else:
-        b = np.array(beta)[:,np.newaxis]
-        x1=np.hstack((np.ones((n,1)),x)) # include constant
-        xb = np.dot(x1,b)
-        return xb
-    
-def make_wxg(wx,gamma):
-    """
-    make_wxg: generate a column wxg as matrix wx (no constant)  
-             times list gamma (coefficient of spatially lagged x)
-    
-    Arguments:
-    ----------
-    wx:       n x ((k-1)xo) matrix for spatially lagged x variables of all orders
-    gamma:    (k-1)*o length list of regression coefficients for spatially lagged x
-    
-    Returns:
-    --------
-    wxg:      nx1 vector of wx times gamma
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_wx, make_wxg
-    >>> rng = np.random.default_rng(12345)
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> wx = make_wx(x,w)
-    >>> print(wx.shape)
-    (25, 1)
-    >>> make_wxg(wx,[2,4])[0:5,:]
-    array([[ 2.25018434,  4.50036868],
-           [ 3.74818158,  7.49636316],
-           [ 2.72450944,  5.44901889],
-           [ 4.298329  ,  8.59665799],
-           [ 5.60511572, 11.21023145]])
-
-    """
-    k = wx.shape[1]
-    if (k > 1): 
-        if k != len(gamma):
-            print("Error: Incompatible dimensions")
-            return None
-        else:
-            g = np.array(gamma)[:,np.newaxis]
-            wxg = np.dot(wx,g)
-    else:  # gamma is a scalar
-        wxg = wx * gamma
-    return wxg
-
-def dgp_errproc(u,w,lam=0.5,model='sar',imethod='power_exp'):
-    """
-    dgp_errproc: generates pure spatial error process
-
-    Arguments:
-    ----------
-    u:      random error vector
-    w:      spatial weights object
-    lam:    spatial autoregressive parameter
-    model:  type of process ('sar' or 'ma')
-    imethod: method for inverse transformation, default = 'power_exp'
-
-    Returns:
-    --------
-    y : vector of observations following a spatial AR or MA process
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, dgp_errproc
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> dgp_errproc(u,w)[0:5,:]
-    array([[-1.43760658],
-           [ 0.69778271],
-           [-0.7750646 ],
-           [-0.47750452],
-           [-0.72377417]])
-
-    """
-    n0 = u.shape[0]
-    if w.n != n0:
-        print("Error: incompatible weights dimensions")
-        return None
-    if model == 'sar':
-        y = inverse_prod(w,u,lam,inv_method=imethod)
-    elif model == 'ma':
-        y = u + lam * libpysal.weights.lag_spatial(w,u)
-    else:
-        print("Error: unsupported model type")
-        return None
-    return y
-    
-
-def dgp_ols(u,xb):
-    """
-    dgp_ols: generates y for non-spatial process with given xb and error term u
-    
-    Arguments:
-    ----------
-    u:      random error vector
-    xb:     vector of xb
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, dgp_ols
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> dgp_ols(u,xb)[0:5,:]
-    array([[5.22803968],
-           [3.60291127],
-           [1.02632633],
-           [1.37589879],
-           [5.07165754]])
-
-    """
-    n1 = u.shape[0]
-    n2 = xb.shape[0]  
-    if n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    y = xb + u
-    return y
-
-def dgp_slx(u,xb,wxg,ybin=False):
-    """
-    dgp_slx: generates y for SLX with given xb, wxg, and error term u
-    
-    Arguments:
-    ----------
-    u:      random error vector
-    xb:     vector of xb
-    wxg:    vector of wxg
-    ybin:   flag for binary dependent variable, default = False
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_slx
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> wx = make_wx(x,w)
-    >>> wxg = make_wxg(wx,[2])
-    >>> dgp_slx(u, xb, wxg)[0:5,:]
-    array([[8.85854389],
-           [7.17524694],
-           [3.83674621],
-           [4.73103929],
-           [8.37023076]])
-    """
-    n0 = u.shape[0]
-    n1 = xb.shape[0]  
-    n2 = wxg.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None
-    elif n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    y = xb + wxg + u
-    if ybin:     # probit case, turn into 0-1
-        y = make_bin(y)
-    return y    
-    
-def dgp_sperror(u,xb,w,lam=0.5,model='sar',imethod='power_exp',ybin=False):
-    """
-    dgp_sperror: generates y for spatial error model with given xb, weights,
-                  spatial parameter lam, error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    w:       spatial weights
-    lam:     spatial coefficient
-    model:   type of process ('sar' or 'ma')
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, dgp_sperror
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> dgp_sperror(u, xb, w)[0:5,:]
-    array([[5.21425813],
-           [3.03696553],
-           [1.12192347],
-           [1.15756751],
-           [4.42322667]])
-    """
-    n0 = u.shape[0]
-    n1 = xb.shape[0]
-    if n0 != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    elif w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    if model == 'sar':
-        u1 = inverse_prod(w,u,lam,inv_method=imethod)
-    elif model == 'ma':
-        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
-    else:
-        print("Error: unsupported model type")
-        return None
-    y = xb + u1
-    if ybin:
-        y = make_bin(y)
-    return y
-
-def dgp_slxerror(u,xb,wxg,w,lam=0.5,model='sar',imethod='power_exp',ybin=False):
-    """
-    dgp_slxerror: generates y for SLX spatial error model with xb, wxg, weights,
-                  spatial parameter lam, model type (sar or ma),
-                  error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    wxg:     vector of wxg
-    w:       spatial weights
-    lam:     spatial coefficient
-    model:   type of process ('sar' or 'ma')
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary 0-1 dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_slxerror
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> wx = make_wx(x,w)
-    >>> wxg = make_wxg(wx,[2])
-    >>> dgp_slxerror(u,xb,wxg,w)[0:5,:]
-    array([[8.84476235],
-           [6.6093012 ],
-           [3.93234334],
-           [4.51270801],
-           [7.7217999 ]])
-   """
-    
-    n0 = u.shape[0]
-    n1 = xb.shape[0]  
-    n2 = wxg.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None
-    elif n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    if model == 'sar':
-        u1 = inverse_prod(w,u,lam,inv_method=imethod)
-    elif model == 'ma':
-        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
-    else:
-        print("Error: unsupported model type")
-        return None  
-    y = xb + wxg + u1
-    if ybin:
-        y = make_bin(y)
-    return y
-    
-def dgp_lag(u,xb,w,rho=0.5,imethod='power_exp',ybin=False):
-    """
-    dgp_lag:      generates y for spatial lag model with xb, weights,
-                  spatial parameter rho,
-                  error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    w:       spatial weights
-    rho:     spatial coefficient
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, dgp_lag
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> dgp_lag(u, xb, w)[0:5,:]
-    array([[10.16582326],
-           [ 7.75359864],
-           [ 5.39821733],
-           [ 5.62244672],
-           [ 8.868168  ]])
-   """    
-    n0 = u.shape[0]
-    n1 = xb.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    y1 = xb + u
-    y = inverse_prod(w,y1,rho,inv_method=imethod)
-    if ybin:
-        y = make_bin(y)
-    return y
-    
-def dgp_spdurbin(u,xb,wxg,w,rho=0.5,imethod='power_exp',ybin=False):
-    """
-    dgp_spdurbin: generates y for spatial Durbin model with xb, wxg, weights,
-                  spatial parameter rho,
-                  error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    wxg:     vector of wxg
-    w:       spatial weights
-    rho:     spatial coefficient
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary 0-1 dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_spdurbin
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> wx = make_wx(x,w)
-    >>> wxg = make_wxg(wx,[2])
-    >>> dgp_spdurbin(u,xb,wxg,w)[0:5,:]
-    array([[18.06895353],
-           [15.18686487],
-           [11.95080505],
-           [12.55220513],
-           [15.75805066]])
-   """        
-    n0 = u.shape[0]
-    n1 = xb.shape[0]  
-    n2 = wxg.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None
-    elif n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    y1 = xb + wxg + u
-    y = inverse_prod(w,y1,rho,inv_method=imethod)
-    if ybin:
-        y = make_bin(y)
-    return y
-    
-def dgp_lagerr(u,xb,w,rho=0.5,lam=0.2,model='sar',imethod='power_exp',ybin=False):
-    """
-    dgp_lagerr:   generates y for spatial lag model with sar or ma errors
-                  with xb, weights,
-                  spatial parameter rho, spatial parameter lambda,
-                  model for spatial process,
-                  error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    w:       spatial weights
-    rho:     spatial coefficient for lag
-    lam:     spatial coefficient for error
-    model:   spatial process for error
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary 0-1 dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, dgp_lagerr
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> dgp_lagerr(u, xb, w)[0:5,:]
-    array([[10.13845523],
-           [ 7.53009531],
-           [ 5.40644034],
-           [ 5.51132886],
-           [ 8.58872366]])
-   """            
-    n0 = u.shape[0]
-    n1 = xb.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    if model == 'sar':
-        u1 = inverse_prod(w,u,lam,inv_method=imethod)
-    elif model == 'ma':
-        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
-    else:
-        print("Error: unsupported model type")
-        return None
-    y1 = xb + u1
-    y = inverse_prod(w,y1,rho,inv_method=imethod)
-    if ybin:
-        y = make_bin(y)
-    return y
-    
-def dgp_gns(u,xb,wxg,w,rho=0.5,lam=0.2,model='sar',imethod='power_exp',ybin=False):
-    """
-    dgp_gns:      generates y for general nested model with sar or ma errors
-                  with xb, wxg, weights,
-                  spatial parameter rho, spatial parameter lambda,
-                  model for spatial process,
-                  error term, method for inverse transform
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    wxg:     vector of wxg
-    w:       spatial weights
-    rho:     spatial coefficient for lag
-    lam:     spatial coefficient for error
-    model:   spatial process for error
-    imethod: method for inverse transformation, default = 'power_exp'
-    ybin:    flag for binary 0-1 dependent variable
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_gns
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> wx = make_wx(x,w)
-    >>> wxg = make_wxg(wx,[2])
-    >>> dgp_gns(u,xb,wxg,w)[0:5,:]
-    array([[18.04158549],
-           [14.96336153],
-           [11.95902806],
-           [12.44108728],
-           [15.47860632]])
-   """            
-    n0 = u.shape[0]
-    n1 = xb.shape[0]  
-    n2 = wxg.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None       
-    elif n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    if model == 'sar':
-        u1 = inverse_prod(w,u,lam,inv_method=imethod)
-    elif model == 'ma':
-        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
-    else:
-        print("Error: unsupported model type")
-        return None
-    y1 = xb + wxg + u1
-    y = inverse_prod(w,y1,rho,inv_method=imethod)
-    if ybin:
-        y = make_bin(y)
-    return y
-    
-def dgp_mess(u,xb,w,rho=0.5):
-    """
-    dgp_mess:     generates y for MESS spatial lag model with xb, weights,
-                  spatial parameter rho (gets converted into alpha),
-                  sigma/method for the error term
-    
-    Arguments:
-    ----------
-    u:       random error
-    xb:      vector of xb
-    w:       spatial weights
-    rho:     spatial coefficient (converted into alpha)
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, make_xb, dgp_mess
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> w  = libpysal.weights.lat2W(5, 5)
-    >>> w.transform = "r"
-    >>> dgp_mess(u, xb, w)[0:5,:]
-    array([[10.12104421],
-           [ 7.45561055],
-           [ 5.32807674],
-           [ 5.55549492],
-           [ 8.62685145]])
-   """        
-    n0 = u.shape[0]
-    n1 = xb.shape[0]
-    if n0 != n1:
-        print("Error: dimension mismatch")
-        return None    
-    if w.n != n1:
-        print("Error: incompatible weights dimensions")
-        return None
-    bigw = libpysal.weights.full(w)[0]
-    alpha=np.log(1-rho) #convert between rho and alpha
-    aw=-alpha*bigw      # inverse exponential is -alpha
-    xbu = xb + u
-    y = np.dot(expm(aw),xbu)
-    return y
-
-def dgp_probit(u,xb):
-    """
-    dgp_probit: generates y for non-spatial probit process with given xb
-                and error u
-                y is taken when linear model prediction > its mean
-    
-    Arguments:
-    ----------
-    u:      random error vector
-    xb:     vector of xb
-    
-    Returns:
-    ----------
-    y: vector of observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, dgp_probit
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> dgp_probit(u,xb)[0:5,:]
-    array([[1],
-           [0],
-           [0],
-           [0],
-           [1]])
-
-    """
-    n1 = u.shape[0]
-    n2 = xb.shape[0]  
-    if n1 != n2:
-        print("Error: dimension mismatch")
-        return None
-    yy = xb + u
-    mm = yy.mean()
-    y = (yy > mm) * 1
-    return y
-
-def make_bin(yy):
-    """
-    make_bin:   generates y as 0-1 variable for y > mean of y,
-                i.e., for discrete dependent variables
-    
-    Arguments:
-    ----------
-    yy:      initial dependent variable vector
-    
-    Returns:
-    ----------
-    y: vector of 0-1 observations on dependent variable
-
-    Examples
-    --------
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> from spreg import make_x, dgp_ols, make_bin
-    >>> rng = np.random.default_rng(12345)
-    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
-    >>> x = make_x(rng,25,mu=[0],varu=[1])
-    >>> xb = make_xb(x,[1,2])
-    >>> yy = dgp_ols(u,xb)
-    >>> make_bin(yy)[0:5,:]
-    array([[1],
-           [0],
-           [0],
-           [0],
-           [1]])
-
-    """
-    mm = yy.mean()
-    y = (yy > mm)
-    return y * 1
-
-
-def make_heterror(u,v):
-    """
-    make_heterror: transforms constant variance error term into
-                   a heteroskedastic error vector
-                  
-    Arguments:
-    ----------
-    u:   random error vector (constant variance assumed)
-    v:   matching vector of variance multipliers
-         if variance of u is 1, then variance of result with be v
-         
-    Returns:
-    --------
-    hu:   matching vector with heteroskedastic errors
-    
-    """
-    n0 = u.shape[0]
-    n1 = v.shape[0]
-    if n0 != n1:
-        print("Error: incompatible vector dimensions")
-        return None
-    # multiply error with square root of variance multiplier v
-    sev = np.sqrt(v)
-    hu = u * sev
-    return hu
-
-def make_vmult(n,method="linear",vlow=[1],vup=[4],rng=None):
-    
-    """
-    make_vmult : helper function to create variance multiplier
-                 for use in heteroskedastic errors (dgp_heterror)
-                 
-    Arguments:
-    ----------
-    n:        number of observations
-    method:   type of multiplier             
-                 linear:  linear interpolation between vlow and vup
-                 group: groupwise heteroskedasticity of vup by group vlow
-                 uniform: uniform random number between vlow and vup
-    vlow:     list with lower variance multiplier (default=1) or group indicators
-                 group indicators give number of elements in each group, must add up to n       
-    vup:      list with upper variance multiplier (default=4) or group variance multipliers
-                 list of group variance multipliers must match length of vlow
-    rng:      random number object (required for method=uniform, otherwise None)
-    
-    Returns:
-    --------
-    v:        nx1 vector with variance multipliers
-
-    """
-    v = np.ones((n,1))
-    if method == "uniform":
-        if not(rng == None):
-            v = rng.uniform(low=vlow[0],high=vup[0],size=n)
-            v = v.reshape(-1,1)
-        else:
-            print("Error: Missing random number object")
-            return None
-    elif method == "linear":
-        vlo = vlow[0]
-        slop = (vup[0] - vlow[0])/(n-1)
-        for i in range(n):
-            v[i,0] = vlo + slop*i
-    elif method == "group":
-        if len(vup) == len(vlow) and sum(vlow) == n:
-            h = [[i]*j for i,j in zip(vup,vlow)]    # one sublist for each group
-            # flatten list and convert to numpy array
-            hh = []
-            for ii in h:
-                hh += ii
-            v = np.array(hh)
-            v = v.reshape(-1,1)    
-        else:
-            print("Error: Incompatible dimensions")
-            v = None
-    else:
-        print('Error: Unsupported method')
-        v = None
-    return v
-
-def _test():
-    import doctest
-
-    start_suppress = np.get_printoptions()["suppress"]
-    np.set_printoptions(suppress=True)
-    doctest.testmod()
-    np.set_printoptions(suppress=start_suppress)
-
-if __name__ == "__main__":
-    _test()
+"""
+Generating spatial models for specific DGP
+
+"""
+
+__author__ = "Luc Anselin lanselin@gmail.com,\
+     Pedro Amaral pedrovma@gmail.com,\
+     Renan Serenini renan.serenini@uniroma1.it"
+
+import numpy as np
+import math
+import libpysal
+from scipy.linalg import expm
+from .utils import inverse_prod
+
+
+__all__ = [
+    "make_error",
+    "make_x",
+    "make_wx",
+    "make_xb",
+    "make_wxg",
+    "dgp_errproc",
+    "dgp_ols",
+    "dgp_slx",
+    "dgp_sperror",
+    "dgp_slxerror",
+    "dgp_lag",
+    "dgp_spdurbin",
+    "dgp_lagerr",
+    "dgp_gns",
+    "dgp_mess",
+    "dgp_probit",
+    "make_bin",
+    "make_heterror",
+    "make_vmult"
+]
+    
+    
+def make_error(rng,n,mu=0,varu=1,method='normal'):
+    """
+    make_error: generate error term for a given distribution
+    
+    Arguments:
+    ----------
+    rng:      random number object
+    n:        number of observations
+    mu:       mean (when needed)
+    varu:     variance (when needed)
+    method:   type of distribution, one of
+              normal, laplace, cauchy, lognormal
+    
+    Returns:
+    --------
+    u:        nx1 vector of random errors
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> from spreg import make_error
+    >>> rng = np.random.default_rng(12345)
+    >>> make_error(rng,5)
+    array([[-1.42382504],
+           [ 1.26372846],
+           [-0.87066174],
+           [-0.25917323],
+           [-0.07534331]])
+
+    """
+    # normal - standard normal is default
+    if method == 'normal':
+        sdu = math.sqrt(varu)
+        u = rng.normal(loc=mu,scale=sdu,size=n).reshape(n,1)
+    # laplace with thicker tails
+    elif method == 'laplace':
+        sdu = math.sqrt(varu/2.0)
+        u = rng.laplace(loc=mu,scale=sdu,size=n).reshape(n,1)
+    # cauchy, ill-behaved, no mean or variance defined
+    elif method == 'cauchy':
+        u = rng.standard_cauchy(size=n).reshape(n,1)
+    elif method == 'lognormal':
+        sdu = math.sqrt(varu)
+        u = rng.lognormal(mean=mu,sigma=sdu,size=n).reshape(n,1)
+    # all other yield warning
+    else:
+        print('Warning: Unsupported distribution')
+        u = None
+    return u
+
+def make_x(rng,n,mu=[0],varu=[1],cor=0,method='uniform'):
+    """
+    make_x: generate a matrix of k columns of x for a given distribution  
+    
+    Arguments:
+    ----------
+    rng:      random number object
+    n:        number of observations
+    mu:       mean as a list
+    varu:     variance as a list
+    cor:      correlation as a float (for bivariate normal only)
+    method:   type of distribution, one of
+              uniform, normal, bivnormal (bivariate normal)
+    
+    Returns:
+    --------
+    x:        nxk matrix of x variables
+    
+    Note:
+    -----
+    Uniform and normal generate separate draws, bivariate normal generates
+    correlated draws
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> from spreg import make_x
+    >>> rng = np.random.default_rng(12345)
+    >>> make_x(rng,5,mu=[0,1],varu=[1,4])
+    array([[0.78751508, 2.30580253],
+           [1.09728308, 4.14520464],
+           [2.76215497, 1.29373239],
+           [2.3426149 , 4.6609906 ],
+           [1.35484323, 6.52500165]])
+
+    """
+    # check on k dimension
+    k = len(mu)
+    if k == len(varu):
+        # initialize
+        x = np.zeros((n,k))
+        for i in range(k):
+            # uniform - range is derived from variance since var = (1/12)range^2
+            # range is found as square root of 12 times variance
+            # for 0-1, varu should be 0.0833333
+            # low is always 0
+            if method == 'uniform':
+                sdu = math.sqrt(12.0*varu[i])
+                x[:,i] = rng.uniform(low=0,high=sdu,size=n)
+            # normal - independent normal draws
+            elif method == 'normal':
+                sdu = math.sqrt(varu[i])
+                x[:,i] = rng.normal(loc=mu[i],scale=sdu,size=n)
+            # bivariate normal - only for k=2
+            elif method == 'bivnormal':
+                if k != 2:
+                    print('Error: Wrong dimension for k')
+                    x = None
+                    return x
+                else:
+                    ucov = cor* math.sqrt(varu[0]*varu[1])
+                    mcov = [[varu[0],ucov],[ucov,varu[1]]]
+                    x = rng.multivariate_normal(mean=mu,cov=mcov,size=n)
+                    return x
+            else:
+                print('Warning: Unsupported distribution')
+                x = None
+    else:
+        x = None
+    return x
+
+def make_wx(x,w,o=1):
+    """
+    make_wx: generate a matrix spatially lagged x given matrix x  
+    
+             x must be previously generated using make_x, no constant included
+    
+    Arguments:
+    ----------
+    x:        x matrix - no constant
+    w:        row-standardized spatial weights in spreg format
+    o:        order of contiguity, default o=1
+    
+    Returns:
+    --------
+    wx:       nx(kxo) matrix of spatially lagged x variables
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_wx
+    >>> rng = np.random.default_rng(12345)
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> make_wx(x,w)[0:5,:]
+    array([[1.12509217],
+           [1.87409079],
+           [1.36225472],
+           [2.1491645 ],
+           [2.80255786]])
+
+    """
+    if w.n != x.shape[0]:
+        print("Error: incompatible weights dimensions")
+        return None
+    w1x = libpysal.weights.lag_spatial(w,x)
+    wx = w1x
+    if o > 1:
+        for i in range(1,o):
+            whx = libpysal.weights.lag_spatial(w,w1x)
+            w1x = whx
+            wx = np.hstack((wx,whx))
+    return wx
+        
+
+def make_xb(x,beta):
+    """
+    make_xb: generate a column xb as matrix x (constant added)  
+             times list beta (includes coefficient for constant term)
+    
+    Arguments:
+    ----------
+    x:        n x (k-1) matrix for x variables
+    beta:     k length list of regression coefficients
+    
+    Returns:
+    --------
+    xb:        nx1 vector of x times beta
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> from spreg import make_x, make_xb
+    >>> rng = np.random.default_rng(12345)
+    >>> x = make_x(rng,5,mu=[0,1],varu=[1,4])
+    >>> make_xb(x,[1,2,3])
+    array([[ 9.49243776],
+           [15.63018007],
+           [10.4055071 ],
+           [19.66820159],
+           [23.28469141]])
+    """
+    n = x.shape[0]
+    k = x.shape[1]
+    if k+1 != len(beta):
+        print("Error: Incompatible dimensions")
+        return None
+    else:
+        b = np.array(beta)[:,np.newaxis]
+        x1=np.hstack((np.ones((n,1)),x)) # include constant
+        xb = np.dot(x1,b)
+        return xb
+    
+def make_wxg(wx,gamma):
+    """
+    make_wxg: generate a column wxg as matrix wx (no constant)  
+             times list gamma (coefficient of spatially lagged x)
+    
+    Arguments:
+    ----------
+    wx:       n x ((k-1)xo) matrix for spatially lagged x variables of all orders
+    gamma:    (k-1)*o length list of regression coefficients for spatially lagged x
+    
+    Returns:
+    --------
+    wxg:      nx1 vector of wx times gamma
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_wx, make_wxg
+    >>> rng = np.random.default_rng(12345)
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> wx = make_wx(x,w)
+    >>> print(wx.shape)
+    (25, 1)
+    >>> make_wxg(wx,[2,4])[0:5,:]
+    array([[ 2.25018434,  4.50036868],
+           [ 3.74818158,  7.49636316],
+           [ 2.72450944,  5.44901889],
+           [ 4.298329  ,  8.59665799],
+           [ 5.60511572, 11.21023145]])
+
+    """
+    k = wx.shape[1]
+    if (k > 1): 
+        if k != len(gamma):
+            print("Error: Incompatible dimensions")
+            return None
+        else:
+            g = np.array(gamma)[:,np.newaxis]
+            wxg = np.dot(wx,g)
+    else:  # gamma is a scalar
+        wxg = wx * gamma
+    return wxg
+
+def dgp_errproc(u,w,lam=0.5,model='sar',imethod='power_exp'):
+    """
+    dgp_errproc: generates pure spatial error process
+
+    Arguments:
+    ----------
+    u:      random error vector
+    w:      spatial weights object
+    lam:    spatial autoregressive parameter
+    model:  type of process ('sar' or 'ma')
+    imethod: method for inverse transformation, default = 'power_exp'
+
+    Returns:
+    --------
+    y : vector of observations following a spatial AR or MA process
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, dgp_errproc
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> dgp_errproc(u,w)[0:5,:]
+    array([[-1.43760658],
+           [ 0.69778271],
+           [-0.7750646 ],
+           [-0.47750452],
+           [-0.72377417]])
+
+    """
+    n0 = u.shape[0]
+    if w.n != n0:
+        print("Error: incompatible weights dimensions")
+        return None
+    if model == 'sar':
+        y = inverse_prod(w,u,lam,inv_method=imethod)
+    elif model == 'ma':
+        y = u + lam * libpysal.weights.lag_spatial(w,u)
+    else:
+        print("Error: unsupported model type")
+        return None
+    return y
+    
+
+def dgp_ols(u,xb):
+    """
+    dgp_ols: generates y for non-spatial process with given xb and error term u
+    
+    Arguments:
+    ----------
+    u:      random error vector
+    xb:     vector of xb
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, dgp_ols
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> dgp_ols(u,xb)[0:5,:]
+    array([[5.22803968],
+           [3.60291127],
+           [1.02632633],
+           [1.37589879],
+           [5.07165754]])
+
+    """
+    n1 = u.shape[0]
+    n2 = xb.shape[0]  
+    if n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    y = xb + u
+    return y
+
+def dgp_slx(u,xb,wxg,ybin=False):
+    """
+    dgp_slx: generates y for SLX with given xb, wxg, and error term u
+    
+    Arguments:
+    ----------
+    u:      random error vector
+    xb:     vector of xb
+    wxg:    vector of wxg
+    ybin:   flag for binary dependent variable, default = False
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_slx
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> wx = make_wx(x,w)
+    >>> wxg = make_wxg(wx,[2])
+    >>> dgp_slx(u, xb, wxg)[0:5,:]
+    array([[8.85854389],
+           [7.17524694],
+           [3.83674621],
+           [4.73103929],
+           [8.37023076]])
+    """
+    n0 = u.shape[0]
+    n1 = xb.shape[0]  
+    n2 = wxg.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None
+    elif n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    y = xb + wxg + u
+    if ybin:     # probit case, turn into 0-1
+        y = make_bin(y)
+    return y    
+    
+def dgp_sperror(u,xb,w,lam=0.5,model='sar',imethod='power_exp',ybin=False):
+    """
+    dgp_sperror: generates y for spatial error model with given xb, weights,
+                  spatial parameter lam, error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    w:       spatial weights
+    lam:     spatial coefficient
+    model:   type of process ('sar' or 'ma')
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, dgp_sperror
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> dgp_sperror(u, xb, w)[0:5,:]
+    array([[5.21425813],
+           [3.03696553],
+           [1.12192347],
+           [1.15756751],
+           [4.42322667]])
+    """
+    n0 = u.shape[0]
+    n1 = xb.shape[0]
+    if n0 != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    elif w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    if model == 'sar':
+        u1 = inverse_prod(w,u,lam,inv_method=imethod)
+    elif model == 'ma':
+        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
+    else:
+        print("Error: unsupported model type")
+        return None
+    y = xb + u1
+    if ybin:
+        y = make_bin(y)
+    return y
+
+def dgp_slxerror(u,xb,wxg,w,lam=0.5,model='sar',imethod='power_exp',ybin=False):
+    """
+    dgp_slxerror: generates y for SLX spatial error model with xb, wxg, weights,
+                  spatial parameter lam, model type (sar or ma),
+                  error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    wxg:     vector of wxg
+    w:       spatial weights
+    lam:     spatial coefficient
+    model:   type of process ('sar' or 'ma')
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary 0-1 dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_slxerror
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> wx = make_wx(x,w)
+    >>> wxg = make_wxg(wx,[2])
+    >>> dgp_slxerror(u,xb,wxg,w)[0:5,:]
+    array([[8.84476235],
+           [6.6093012 ],
+           [3.93234334],
+           [4.51270801],
+           [7.7217999 ]])
+   """
+    
+    n0 = u.shape[0]
+    n1 = xb.shape[0]  
+    n2 = wxg.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None
+    elif n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    if model == 'sar':
+        u1 = inverse_prod(w,u,lam,inv_method=imethod)
+    elif model == 'ma':
+        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
+    else:
+        print("Error: unsupported model type")
+        return None  
+    y = xb + wxg + u1
+    if ybin:
+        y = make_bin(y)
+    return y
+    
+def dgp_lag(u,xb,w,rho=0.5,imethod='power_exp',ybin=False):
+    """
+    dgp_lag:      generates y for spatial lag model with xb, weights,
+                  spatial parameter rho,
+                  error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    w:       spatial weights
+    rho:     spatial coefficient
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, dgp_lag
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> dgp_lag(u, xb, w)[0:5,:]
+    array([[10.16582326],
+           [ 7.75359864],
+           [ 5.39821733],
+           [ 5.62244672],
+           [ 8.868168  ]])
+   """    
+    n0 = u.shape[0]
+    n1 = xb.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    y1 = xb + u
+    y = inverse_prod(w,y1,rho,inv_method=imethod)
+    if ybin:
+        y = make_bin(y)
+    return y
+    
+def dgp_spdurbin(u,xb,wxg,w,rho=0.5,imethod='power_exp',ybin=False):
+    """
+    dgp_spdurbin: generates y for spatial Durbin model with xb, wxg, weights,
+                  spatial parameter rho,
+                  error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    wxg:     vector of wxg
+    w:       spatial weights
+    rho:     spatial coefficient
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary 0-1 dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_spdurbin
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> wx = make_wx(x,w)
+    >>> wxg = make_wxg(wx,[2])
+    >>> dgp_spdurbin(u,xb,wxg,w)[0:5,:]
+    array([[18.06895353],
+           [15.18686487],
+           [11.95080505],
+           [12.55220513],
+           [15.75805066]])
+   """        
+    n0 = u.shape[0]
+    n1 = xb.shape[0]  
+    n2 = wxg.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None
+    elif n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    y1 = xb + wxg + u
+    y = inverse_prod(w,y1,rho,inv_method=imethod)
+    if ybin:
+        y = make_bin(y)
+    return y
+    
+def dgp_lagerr(u,xb,w,rho=0.5,lam=0.2,model='sar',imethod='power_exp',ybin=False):
+    """
+    dgp_lagerr:   generates y for spatial lag model with sar or ma errors
+                  with xb, weights,
+                  spatial parameter rho, spatial parameter lambda,
+                  model for spatial process,
+                  error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    w:       spatial weights
+    rho:     spatial coefficient for lag
+    lam:     spatial coefficient for error
+    model:   spatial process for error
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary 0-1 dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, dgp_lagerr
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> dgp_lagerr(u, xb, w)[0:5,:]
+    array([[10.13845523],
+           [ 7.53009531],
+           [ 5.40644034],
+           [ 5.51132886],
+           [ 8.58872366]])
+   """            
+    n0 = u.shape[0]
+    n1 = xb.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    if model == 'sar':
+        u1 = inverse_prod(w,u,lam,inv_method=imethod)
+    elif model == 'ma':
+        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
+    else:
+        print("Error: unsupported model type")
+        return None
+    y1 = xb + u1
+    y = inverse_prod(w,y1,rho,inv_method=imethod)
+    if ybin:
+        y = make_bin(y)
+    return y
+    
+def dgp_gns(u,xb,wxg,w,rho=0.5,lam=0.2,model='sar',imethod='power_exp',ybin=False):
+    """
+    dgp_gns:      generates y for general nested model with sar or ma errors
+                  with xb, wxg, weights,
+                  spatial parameter rho, spatial parameter lambda,
+                  model for spatial process,
+                  error term, method for inverse transform
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    wxg:     vector of wxg
+    w:       spatial weights
+    rho:     spatial coefficient for lag
+    lam:     spatial coefficient for error
+    model:   spatial process for error
+    imethod: method for inverse transformation, default = 'power_exp'
+    ybin:    flag for binary 0-1 dependent variable
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, make_wx, make_wxg, dgp_gns
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> wx = make_wx(x,w)
+    >>> wxg = make_wxg(wx,[2])
+    >>> dgp_gns(u,xb,wxg,w)[0:5,:]
+    array([[18.04158549],
+           [14.96336153],
+           [11.95902806],
+           [12.44108728],
+           [15.47860632]])
+   """            
+    n0 = u.shape[0]
+    n1 = xb.shape[0]  
+    n2 = wxg.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None       
+    elif n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    if model == 'sar':
+        u1 = inverse_prod(w,u,lam,inv_method=imethod)
+    elif model == 'ma':
+        u1 = u + lam * libpysal.weights.lag_spatial(w,u)
+    else:
+        print("Error: unsupported model type")
+        return None
+    y1 = xb + wxg + u1
+    y = inverse_prod(w,y1,rho,inv_method=imethod)
+    if ybin:
+        y = make_bin(y)
+    return y
+    
+def dgp_mess(u,xb,w,rho=0.5):
+    """
+    dgp_mess:     generates y for MESS spatial lag model with xb, weights,
+                  spatial parameter rho (gets converted into alpha),
+                  sigma/method for the error term
+    
+    Arguments:
+    ----------
+    u:       random error
+    xb:      vector of xb
+    w:       spatial weights
+    rho:     spatial coefficient (converted into alpha)
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, make_xb, dgp_mess
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> w  = libpysal.weights.lat2W(5, 5)
+    >>> w.transform = "r"
+    >>> dgp_mess(u, xb, w)[0:5,:]
+    array([[10.12104421],
+           [ 7.45561055],
+           [ 5.32807674],
+           [ 5.55549492],
+           [ 8.62685145]])
+   """        
+    n0 = u.shape[0]
+    n1 = xb.shape[0]
+    if n0 != n1:
+        print("Error: dimension mismatch")
+        return None    
+    if w.n != n1:
+        print("Error: incompatible weights dimensions")
+        return None
+    bigw = libpysal.weights.full(w)[0]
+    alpha=np.log(1-rho) #convert between rho and alpha
+    aw=-alpha*bigw      # inverse exponential is -alpha
+    xbu = xb + u
+    y = np.dot(expm(aw),xbu)
+    return y
+
+def dgp_probit(u,xb):
+    """
+    dgp_probit: generates y for non-spatial probit process with given xb
+                and error u
+                y is taken when linear model prediction > its mean
+    
+    Arguments:
+    ----------
+    u:      random error vector
+    xb:     vector of xb
+    
+    Returns:
+    ----------
+    y: vector of observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, dgp_probit
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> dgp_probit(u,xb)[0:5,:]
+    array([[1],
+           [0],
+           [0],
+           [0],
+           [1]])
+
+    """
+    n1 = u.shape[0]
+    n2 = xb.shape[0]  
+    if n1 != n2:
+        print("Error: dimension mismatch")
+        return None
+    yy = xb + u
+    mm = yy.mean()
+    y = (yy > mm) * 1
+    return y
+
+def make_bin(yy):
+    """
+    make_bin:   generates y as 0-1 variable for y > mean of y,
+                i.e., for discrete dependent variables
+    
+    Arguments:
+    ----------
+    yy:      initial dependent variable vector
+    
+    Returns:
+    ----------
+    y: vector of 0-1 observations on dependent variable
+
+    Examples
+    --------
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> from spreg import make_x, dgp_ols, make_bin
+    >>> rng = np.random.default_rng(12345)
+    >>> u = make_x(rng,25,mu=[0],varu=[1], method='normal')
+    >>> x = make_x(rng,25,mu=[0],varu=[1])
+    >>> xb = make_xb(x,[1,2])
+    >>> yy = dgp_ols(u,xb)
+    >>> make_bin(yy)[0:5,:]
+    array([[1],
+           [0],
+           [0],
+           [0],
+           [1]])
+
+    """
+    mm = yy.mean()
+    y = (yy > mm)
+    return y * 1
+
+
+def make_heterror(u,v):
+    """
+    make_heterror: transforms constant variance error term into
+                   a heteroskedastic error vector
+                  
+    Arguments:
+    ----------
+    u:   random error vector (constant variance assumed)
+    v:   matching vector of variance multipliers
+         if variance of u is 1, then variance of result with be v
+         
+    Returns:
+    --------
+    hu:   matching vector with heteroskedastic errors
+    
+    """
+    n0 = u.shape[0]
+    n1 = v.shape[0]
+    if n0 != n1:
+        print("Error: incompatible vector dimensions")
+        return None
+    # multiply error with square root of variance multiplier v
+    sev = np.sqrt(v)
+    hu = u * sev
+    return hu
+
+def make_vmult(n,method="linear",vlow=[1],vup=[4],rng=None):
+    
+    """
+    make_vmult : helper function to create variance multiplier
+                 for use in heteroskedastic errors (dgp_heterror)
+                 
+    Arguments:
+    ----------
+    n:        number of observations
+    method:   type of multiplier             
+                 linear:  linear interpolation between vlow and vup
+                 group: groupwise heteroskedasticity of vup by group vlow
+                 uniform: uniform random number between vlow and vup
+    vlow:     list with lower variance multiplier (default=1) or group indicators
+                 group indicators give number of elements in each group, must add up to n       
+    vup:      list with upper variance multiplier (default=4) or group variance multipliers
+                 list of group variance multipliers must match length of vlow
+    rng:      random number object (required for method=uniform, otherwise None)
+    
+    Returns:
+    --------
+    v:        nx1 vector with variance multipliers
+
+    """
+    v = np.ones((n,1))
+    if method == "uniform":
+        if not(rng == None):
+            v = rng.uniform(low=vlow[0],high=vup[0],size=n)
+            v = v.reshape(-1,1)
+        else:
+            print("Error: Missing random number object")
+            return None
+    elif method == "linear":
+        vlo = vlow[0]
+        slop = (vup[0] - vlow[0])/(n-1)
+        for i in range(n):
+            v[i,0] = vlo + slop*i
+    elif method == "group":
+        if len(vup) == len(vlow) and sum(vlow) == n:
+            h = [[i]*j for i,j in zip(vup,vlow)]    # one sublist for each group
+            # flatten list and convert to numpy array
+            hh = []
+            for ii in h:
+                hh += ii
+            v = np.array(hh)
+            v = v.reshape(-1,1)    
+        else:
+            print("Error: Incompatible dimensions")
+            v = None
+    else:
+        print('Error: Unsupported method')
+        v = None
+    return v
+
+def _test():
+    import doctest
+
+    start_suppress = np.get_printoptions()["suppress"]
+    np.set_printoptions(suppress=True)
+    doctest.testmod()
+    np.set_printoptions(suppress=start_suppress)
+
+if __name__ == "__main__":
+    _test()
     
\ No newline at end of file
diff --git a/spreg/diagnostics_probit.py b/spreg/diagnostics_probit.py
index 980889b..476827e 100644
--- a/spreg/diagnostics_probit.py
+++ b/spreg/diagnostics_probit.py
@@ -1,343 +1,343 @@
-"""
-Diagnostics in probit regression. 
-        
-"""
-__author__ = (
-    "Luc Anselin lanselin@gmail.com, Pedro Amaral pedrovma@gmail.com "
-)
-
-from math import sqrt, pi
-
-from libpysal.common import MISSINGVALUE
-import numpy as np
-import numpy.linalg as la
-import scipy.sparse as SP
-from scipy import stats
-from scipy.stats import norm
-
-__all__ = [
-    "pred_table",
-    "probit_fit",
-    "probit_lrtest",
-    "mcfad_rho",
-    "probit_ape",
-    "sp_tests",
-    "moran_KP",
-]
-
-
-def pred_table(reg):
-    """
-    Calculates a table comparing predicted to actual outcomes for a 
-    discrete choice model
-
-    Parameters
-    ----------
-    reg             : regression object
-                      output instance from a probit regression model
-
-    Returns
-    ----------
-    predtab_vals    : dictionary
-                      includes margins and cells of actual and predicted
-                      values for discrete choice model
-                      actpos   : observed positives (=1)
-                      actneg   : observed negatives (=0)
-                      predpos  : predicted positives 
-                      predneg  : predicted negatives
-                      truepos  : predicted 1 when actual = 1
-                      falsepos : predicted 1 when actual = 0
-                      trueneg  : predicted 0 when actual = 0
-                      falseneg : predicted 0 when actual = 1
-
-    """
-    predtab_vals = {}
-    pos = reg.y.sum()
-    predtab_vals["actpos"] = int(pos)
-    neg = reg.n - pos
-    predtab_vals["actneg"] = int(neg)
-    act1 = (reg.y == 1) * 1
-    act0 = (reg.y == 0) * 1
-    ppos = reg.predybin.sum()
-    predtab_vals["predpos"] = ppos
-    pneg = reg.n - ppos
-    predtab_vals["predneg"] = pneg
-    pred1 = (reg.predybin == 1) * 1
-    pred0 = (reg.predybin == 0) * 1
-    truep = (pred1 * act1) * 1
-    predtab_vals["truepos"] = truep.sum()
-    truen = (pred0 * act0) * 1
-    predtab_vals["trueneg"] = truen.sum()
-    fpos = (pred1 * act0) * 1
-    predtab_vals["falsepos"] = fpos.sum()
-    fneg = (pred0 * act1) * 1
-    predtab_vals["falseneg"] = fneg.sum()
-
-    return predtab_vals
-
-
-def probit_fit(reg):
-    """
-    Various measures of fit for discrete choice models, derived from the
-    prediction table (pred_table)
-    
-    Parameters
-    ----------
-    reg             : regression object
-                      output instance from a probit regression model
-                      must contain predtable attribute
-
-    Returns
-    ----------
-    prob_fit    : a dictionary containing various measures of fit
-                  TPR    : true positive rate (sensitivity, recall, hit rate)
-                  TNR    : true negative rate (specificity, selectivity)
-                  PREDPC : accuracy, percent correctly predicted
-                  BA     : balanced accuracy
-    
-    """
-
-    prob_fit = {}
-    prob_fit["TPR"] = 100.0 * reg.predtable["truepos"] / reg.predtable["actpos"]
-    prob_fit["TNR"] = 100.0 * reg.predtable["trueneg"] / reg.predtable["actneg"]
-    prob_fit["BA"] = (prob_fit["TPR"] + prob_fit["TNR"])/2.0
-    prob_fit["PREDPC"] = 100.0 * (reg.predtable["truepos"] + reg.predtable["trueneg"]) / reg.n
-
-    return prob_fit
-
-def probit_lrtest(regprob):
-    """
-    Likelihood ratio test statistic for probit model
-
-    Parameters
-    ----------
-    regprob      : probit regression object
-
-    Returns
-    -------
-
-    likratio     : dictionary
-                   contains the statistic for the null model (L0), the LR test(likr), 
-                   the degrees of freedom (df) and the p-value (pvalue)
-    L0           : float
-                   log likelihood of null model
-    likr         : float
-                   likelihood ratio statistic
-    df           : integer
-                   degrees of freedom
-    p-value      : float
-                   p-value
-    """
-
-    likratio = {}
-    P = np.mean(regprob.y)
-    L0 = regprob.n * (P * np.log(P) + (1 - P) * np.log(1 - P))
-    likratio["L0"] = L0
-    LR = -2.0 * (L0 - regprob.logl)
-    likratio["likr"] = LR
-    likratio["df"] = regprob.k
-    pval = stats.chi2.sf(LR, regprob.k)
-    likratio["p-value"] = pval
-
-    return likratio
-
-def mcfad_rho(regprob):
-    """
-    McFadden's rho measure of fit
-
-    Parameters
-    ---------
-    regprob    : probit regression object
-
-    Returns
-    -------
-    rho        : McFadden's rho (1 - L/L0)
-    
-    """
-
-    rho = 1.0 - (regprob.logl / regprob.L0)
-    return rho
-
-def probit_ape(regprob):
-    """
-    Average partial effects
-
-    Parameters
-    ----------
-    regprob   : probit regression object
-
-    Returns
-    -------
-    tuple with:
-        scale          : the scale of the marginal effects, determined by regprob.scalem
-                         Default: 'phimean' (Mean of individual marginal effects)
-                         Alternative: 'xmean' (Marginal effects at variables mean)
-        slopes         : marginal effects or average partial effects (not for constant)
-        slopes_vm      : estimates of variance of marginal effects (not for constant)
-        slopes_std_err : estimates of standard errors of marginal effects
-        slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
-    
-    """
-        
-
-    if regprob.scalem == "xmean":
-        xmb = regprob.xmean.T @ regprob.betas
-        scale = stats.norm.pdf(xmb)
-            
-    elif regprob.scalem == "phimean":
-        scale = np.mean(regprob.phiy,axis=0)
-
-    # average partial effects (no constant)
-    slopes = (regprob.betas[1:,0] * scale).reshape(-1,1)
-
-    # variance of partial effects
-    xmb = regprob.xmean.T @ regprob.betas
-    bxt = regprob.betas @ regprob.xmean.T
-    dfdb = np.eye(regprob.k) - xmb * bxt
-    slopes_vm = (scale ** 2) * ((dfdb @ regprob.vm) @ dfdb.T)
-
-    # standard errors
-    slopes_std_err = np.sqrt(slopes_vm[1:,1:].diagonal()).reshape(-1,1)
-
-    # z-stats and p-values
-    sl_zStat = slopes / slopes_std_err
-    slopes_z_stat = [(sl_zStat[i,0],stats.norm.sf(abs(sl_zStat[i,0])) * 2) for i in range(len(slopes))]
-
-
-    return (scale, slopes,slopes_vm[1:,1:],slopes_std_err,slopes_z_stat)
-
-
-def sp_tests(regprob=None, obj_list=None):
-    """
-    Calculates tests for spatial dependence in Probit models
-
-    Parameters
-    ----------
-    regprob     : regression object from spreg
-                  output instance from a probit model
-    obj_list    : list
-                  list of regression elements from both libpysal and statsmodels' ProbitResults
-                  The list should be such as:
-                  [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]               
-    
-    Returns
-    -------
-    tuple with LM_Err, moran, ps as 2x1 arrays with statistic and p-value
-               LM_Err: Pinkse
-               moran : Kelejian-Prucha generalized Moran
-               ps    : Pinkse-Slade
-
-    Examples
-    --------
-    The results of this function will be automatically added to the output of the probit model if using spreg.
-    If using the Probit estimator from statsmodels, the user can call the function with the obj_list argument.
-    The argument obj_list should be a list with the following elements, in this order:
-    [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]
-    The function will then return and print the results of the spatial diagnostics.
-
-    >>> import libpysal
-    >>> import statsmodels.api as sm
-    >>> import geopandas as gpd
-    >>> from spreg.diagnostics_probit import sp_tests
-
-    >>> columb = libpysal.examples.load_example('Columbus')
-    >>> dfs = gpd.read_file(columb.get_path("columbus.shp"))
-    >>> w = libpysal.weights.Queen.from_dataframe(dfs)
-    >>> w.transform='r'
-
-    >>> y = (dfs["CRIME"] > 40).astype(float)
-    >>> X = dfs[["INC","HOVAL"]]
-    >>> X = sm.add_constant(X)
-
-    >>> probit_mod = sm.Probit(y, X)
-    >>> probit_res = probit_mod.fit(disp=False)
-    >>> LM_err, moran, ps = sp_tests(obj_list=[w, probit_res.fittedvalues, probit_res.resid_response, probit_res.resid_generalized])
-    PROBIT MODEL DIAGNOSTICS FOR SPATIAL DEPENDENCE
-    TEST                              DF         VALUE           PROB
-    Kelejian-Prucha (error)           1          1.721           0.0852
-    Pinkse (error)                    1          3.132           0.0768
-    Pinkse-Slade (error)              1          2.558           0.1097
-
-    """
-    if regprob:
-        w, Phi, phi, u_naive, u_gen, n = regprob.w, regprob.predy, regprob.phiy, regprob.u_naive, regprob.u_gen, regprob.n
-    elif obj_list:
-        w, fittedvalues, u_naive, u_gen = obj_list
-        Phi = norm.cdf(fittedvalues)
-        phi = norm.pdf(fittedvalues)
-        n = w.n
-
-    try:
-        w = w.sparse
-    except:
-        w = w
-        
-    # Pinkse_error:
-    Phi_prod = Phi * (1 - Phi)
-    sig2 = np.sum((phi * phi) / Phi_prod) / n
-    LM_err_num = np.dot(u_gen.T, (w @ u_gen)) ** 2
-    trWW = np.sum((w @ w).diagonal())
-    trWWWWp = trWW + np.sum((w @ w.T).diagonal())
-    LM_err = (1.0 * LM_err_num / (sig2 ** 2 * trWWWWp)).item()
-    LM_err = np.array([LM_err, stats.chi2.sf(LM_err, 1)])
-    # KP_error:
-    moran = moran_KP(w, u_naive, Phi_prod)
-    # Pinkse-Slade_error:
-    u_std = u_naive / np.sqrt(Phi_prod)
-    ps_num = np.dot(u_std.T, (w @ u_std)) ** 2
-    trWpW = np.sum((w.T @ w).diagonal())
-    ps = (ps_num / (trWW + trWpW)).item()
-    # chi-square instead of bootstrap.
-    ps = np.array([ps, stats.chi2.sf(ps, 1)])
-
-    if obj_list:
-        from .output import _probit_out
-        reg_simile = type('reg_simile', (object,), {})()
-        reg_simile.Pinkse_error = LM_err
-        reg_simile.KP_error = moran
-        reg_simile.PS_error = ps
-        print("PROBIT MODEL "+_probit_out(reg_simile, spat_diag=True, sptests_only=True)[1:])
-
-    return LM_err, moran, ps
-
-def moran_KP(w, u, sig2i):
-    """
-    Calculates Kelejian-Prucha Moran-flavoured tests
-
-    Parameters
-    ----------
-
-    w           : W
-                  PySAL weights instance aligned with y
-    u           : array
-                  nx1 array of naive residuals
-    sig2i       : array
-                  nx1 array of individual variance
-
-    Returns
-    -------
-    moran       : array, Kelejian-Prucha Moran's I with p-value   
-    """
-    try:
-        w = w.sparse
-    except:
-        pass
-    moran_num = np.dot(u.T, (w @ u))
-    E = SP.lil_matrix(w.shape)
-    E.setdiag(sig2i.flat)
-    E = E.asformat("csr")
-    WE = w @ E
-    moran_den = np.sqrt(np.sum((WE @ WE + (w.T @ E) @ WE).diagonal()))
-    moran = (1.0 * moran_num / moran_den).item()
-    moran = np.array([moran, stats.norm.sf(abs(moran)) * 2.0])
-    return moran
-
-
-def _test():
-    import doctest
-
-    doctest.testmod()
-
-
-if __name__ == "__main__":
-    _test()
+"""
+Diagnostics in probit regression. 
+        
+"""
+__author__ = (
+    "Luc Anselin lanselin@gmail.com, Pedro Amaral pedrovma@gmail.com "
+)
+
+from math import sqrt, pi
+
+from libpysal.common import MISSINGVALUE
+import numpy as np
+import numpy.linalg as la
+import scipy.sparse as SP
+from scipy import stats
+from scipy.stats import norm
+
+__all__ = [
+    "pred_table",
+    "probit_fit",
+    "probit_lrtest",
+    "mcfad_rho",
+    "probit_ape",
+    "sp_tests",
+    "moran_KP",
+]
+
+
+def pred_table(reg):
+    """
+    Calculates a table comparing predicted to actual outcomes for a 
+    discrete choice model
+
+    Parameters
+    ----------
+    reg             : regression object
+                      output instance from a probit regression model
+
+    Returns
+    ----------
+    predtab_vals    : dictionary
+                      includes margins and cells of actual and predicted
+                      values for discrete choice model
+                      actpos   : observed positives (=1)
+                      actneg   : observed negatives (=0)
+                      predpos  : predicted positives 
+                      predneg  : predicted negatives
+                      truepos  : predicted 1 when actual = 1
+                      falsepos : predicted 1 when actual = 0
+                      trueneg  : predicted 0 when actual = 0
+                      falseneg : predicted 0 when actual = 1
+
+    """
+    predtab_vals = {}
+    pos = reg.y.sum()
+    predtab_vals["actpos"] = int(pos)
+    neg = reg.n - pos
+    predtab_vals["actneg"] = int(neg)
+    act1 = (reg.y == 1) * 1
+    act0 = (reg.y == 0) * 1
+    ppos = reg.predybin.sum()
+    predtab_vals["predpos"] = ppos
+    pneg = reg.n - ppos
+    predtab_vals["predneg"] = pneg
+    pred1 = (reg.predybin == 1) * 1
+    pred0 = (reg.predybin == 0) * 1
+    truep = (pred1 * act1) * 1
+    predtab_vals["truepos"] = truep.sum()
+    truen = (pred0 * act0) * 1
+    predtab_vals["trueneg"] = truen.sum()
+    fpos = (pred1 * act0) * 1
+    predtab_vals["falsepos"] = fpos.sum()
+    fneg = (pred0 * act1) * 1
+    predtab_vals["falseneg"] = fneg.sum()
+
+    return predtab_vals
+
+
+def probit_fit(reg):
+    """
+    Various measures of fit for discrete choice models, derived from the
+    prediction table (pred_table)
+    
+    Parameters
+    ----------
+    reg             : regression object
+                      output instance from a probit regression model
+                      must contain predtable attribute
+
+    Returns
+    ----------
+    prob_fit    : a dictionary containing various measures of fit
+                  TPR    : true positive rate (sensitivity, recall, hit rate)
+                  TNR    : true negative rate (specificity, selectivity)
+                  PREDPC : accuracy, percent correctly predicted
+                  BA     : balanced accuracy
+    
+    """
+
+    prob_fit = {}
+    prob_fit["TPR"] = 100.0 * reg.predtable["truepos"] / reg.predtable["actpos"]
+    prob_fit["TNR"] = 100.0 * reg.predtable["trueneg"] / reg.predtable["actneg"]
+    prob_fit["BA"] = (prob_fit["TPR"] + prob_fit["TNR"])/2.0
+    prob_fit["PREDPC"] = 100.0 * (reg.predtable["truepos"] + reg.predtable["trueneg"]) / reg.n
+
+    return prob_fit
+
+def probit_lrtest(regprob):
+    """
+    Likelihood ratio test statistic for probit model
+
+    Parameters
+    ----------
+    regprob      : probit regression object
+
+    Returns
+    -------
+
+    likratio     : dictionary
+                   contains the statistic for the null model (L0), the LR test(likr), 
+                   the degrees of freedom (df) and the p-value (pvalue)
+    L0           : float
+                   log likelihood of null model
+    likr         : float
+                   likelihood ratio statistic
+    df           : integer
+                   degrees of freedom
+    p-value      : float
+                   p-value
+    """
+
+    likratio = {}
+    P = np.mean(regprob.y)
+    L0 = regprob.n * (P * np.log(P) + (1 - P) * np.log(1 - P))
+    likratio["L0"] = L0
+    LR = -2.0 * (L0 - regprob.logl)
+    likratio["likr"] = LR
+    likratio["df"] = regprob.k
+    pval = stats.chi2.sf(LR, regprob.k)
+    likratio["p-value"] = pval
+
+    return likratio
+
+def mcfad_rho(regprob):
+    """
+    McFadden's rho measure of fit
+
+    Parameters
+    ---------
+    regprob    : probit regression object
+
+    Returns
+    -------
+    rho        : McFadden's rho (1 - L/L0)
+    
+    """
+
+    rho = 1.0 - (regprob.logl / regprob.L0)
+    return rho
+
+def probit_ape(regprob):
+    """
+    Average partial effects
+
+    Parameters
+    ----------
+    regprob   : probit regression object
+
+    Returns
+    -------
+    tuple with:
+        scale          : the scale of the marginal effects, determined by regprob.scalem
+                         Default: 'phimean' (Mean of individual marginal effects)
+                         Alternative: 'xmean' (Marginal effects at variables mean)
+        slopes         : marginal effects or average partial effects (not for constant)
+        slopes_vm      : estimates of variance of marginal effects (not for constant)
+        slopes_std_err : estimates of standard errors of marginal effects
+        slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
+    
+    """
+        
+
+    if regprob.scalem == "xmean":
+        xmb = regprob.xmean.T @ regprob.betas
+        scale = stats.norm.pdf(xmb)
+            
+    elif regprob.scalem == "phimean":
+        scale = np.mean(regprob.phiy,axis=0)
+
+    # average partial effects (no constant)
+    slopes = (regprob.betas[1:,0] * scale).reshape(-1,1)
+
+    # variance of partial effects
+    xmb = regprob.xmean.T @ regprob.betas
+    bxt = regprob.betas @ regprob.xmean.T
+    dfdb = np.eye(regprob.k) - xmb * bxt
+    slopes_vm = (scale ** 2) * ((dfdb @ regprob.vm) @ dfdb.T)
+
+    # standard errors
+    slopes_std_err = np.sqrt(slopes_vm[1:,1:].diagonal()).reshape(-1,1)
+
+    # z-stats and p-values
+    sl_zStat = slopes / slopes_std_err
+    slopes_z_stat = [(sl_zStat[i,0],stats.norm.sf(abs(sl_zStat[i,0])) * 2) for i in range(len(slopes))]
+
+
+    return (scale, slopes,slopes_vm[1:,1:],slopes_std_err,slopes_z_stat)
+
+
+def sp_tests(regprob=None, obj_list=None):
+    """
+    Calculates tests for spatial dependence in Probit models
+
+    Parameters
+    ----------
+    regprob     : regression object from spreg
+                  output instance from a probit model
+    obj_list    : list
+                  list of regression elements from both libpysal and statsmodels' ProbitResults
+                  The list should be such as:
+                  [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]               
+    
+    Returns
+    -------
+    tuple with LM_Err, moran, ps as 2x1 arrays with statistic and p-value
+               LM_Err: Pinkse
+               moran : Kelejian-Prucha generalized Moran
+               ps    : Pinkse-Slade
+
+    Examples
+    --------
+    The results of this function will be automatically added to the output of the probit model if using spreg.
+    If using the Probit estimator from statsmodels, the user can call the function with the obj_list argument.
+    The argument obj_list should be a list with the following elements, in this order:
+    [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]
+    The function will then return and print the results of the spatial diagnostics.
+
+    >>> import libpysal
+    >>> import statsmodels.api as sm
+    >>> import geopandas as gpd
+    >>> from spreg.diagnostics_probit import sp_tests
+
+    >>> columb = libpysal.examples.load_example('Columbus')
+    >>> dfs = gpd.read_file(columb.get_path("columbus.shp"))
+    >>> w = libpysal.weights.Queen.from_dataframe(dfs)
+    >>> w.transform='r'
+
+    >>> y = (dfs["CRIME"] > 40).astype(float)
+    >>> X = dfs[["INC","HOVAL"]]
+    >>> X = sm.add_constant(X)
+
+    >>> probit_mod = sm.Probit(y, X)
+    >>> probit_res = probit_mod.fit(disp=False)
+    >>> LM_err, moran, ps = sp_tests(obj_list=[w, probit_res.fittedvalues, probit_res.resid_response, probit_res.resid_generalized])
+    PROBIT MODEL DIAGNOSTICS FOR SPATIAL DEPENDENCE
+    TEST                              DF         VALUE           PROB
+    Kelejian-Prucha (error)           1          1.721           0.0852
+    Pinkse (error)                    1          3.132           0.0768
+    Pinkse-Slade (error)              1          2.558           0.1097
+
+    """
+    if regprob:
+        w, Phi, phi, u_naive, u_gen, n = regprob.w, regprob.predy, regprob.phiy, regprob.u_naive, regprob.u_gen, regprob.n
+    elif obj_list:
+        w, fittedvalues, u_naive, u_gen = obj_list
+        Phi = norm.cdf(fittedvalues)
+        phi = norm.pdf(fittedvalues)
+        n = w.n
+
+    try:
+        w = w.sparse
+    except:
+        w = w
+        
+    # Pinkse_error:
+    Phi_prod = Phi * (1 - Phi)
+    sig2 = np.sum((phi * phi) / Phi_prod) / n
+    LM_err_num = np.dot(u_gen.T, (w @ u_gen)) ** 2
+    trWW = np.sum((w @ w).diagonal())
+    trWWWWp = trWW + np.sum((w @ w.T).diagonal())
+    LM_err = (1.0 * LM_err_num / (sig2 ** 2 * trWWWWp)).item()
+    LM_err = np.array([LM_err, stats.chi2.sf(LM_err, 1)])
+    # KP_error:
+    moran = moran_KP(w, u_naive, Phi_prod)
+    # Pinkse-Slade_error:
+    u_std = u_naive / np.sqrt(Phi_prod)
+    ps_num = np.dot(u_std.T, (w @ u_std)) ** 2
+    trWpW = np.sum((w.T @ w).diagonal())
+    ps = (ps_num / (trWW + trWpW)).item()
+    # chi-square instead of bootstrap.
+    ps = np.array([ps, stats.chi2.sf(ps, 1)])
+
+    if obj_list:
+        from .output import _probit_out
+        reg_simile = type('reg_simile', (object,), {})()
+        reg_simile.Pinkse_error = LM_err
+        reg_simile.KP_error = moran
+        reg_simile.PS_error = ps
+        print("PROBIT MODEL "+_probit_out(reg_simile, spat_diag=True, sptests_only=True)[1:])
+
+    return LM_err, moran, ps
+
+def moran_KP(w, u, sig2i):
+    """
+    Calculates Kelejian-Prucha Moran-flavoured tests
+
+    Parameters
+    ----------
+
+    w           : W
+                  PySAL weights instance aligned with y
+    u           : array
+                  nx1 array of naive residuals
+    sig2i       : array
+                  nx1 array of individual variance
+
+    Returns
+    -------
+    moran       : array, Kelejian-Prucha Moran's I with p-value   
+    """
+    try:
+        w = w.sparse
+    except:
+        pass
+    moran_num = np.dot(u.T, (w @ u))
+    E = SP.lil_matrix(w.shape)
+    E.setdiag(sig2i.flat)
+    E = E.asformat("csr")
+    WE = w @ E
+    moran_den = np.sqrt(np.sum((WE @ WE + (w.T @ E) @ WE).diagonal()))
+    moran = (1.0 * moran_num / moran_den).item()
+    moran = np.array([moran, stats.norm.sf(abs(moran)) * 2.0])
+    return moran
+
+
+def _test():
+    import doctest
+
+    doctest.testmod()
+
+
+if __name__ == "__main__":
+    _test()
-- 
2.43.0


From 61d665342079b8916f2085513dc1b9f375fbf55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:52 +0000
Subject: [PATCH 28/57] fix: robust="white" no longer gives the HAC variance
 when kernel weights are passed

---
 spreg/ols.py    | 2 ++
 spreg/twosls.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/spreg/ols.py b/spreg/ols.py
index ca1849d..2aef859 100755
--- a/spreg/ols.py
+++ b/spreg/ols.py
@@ -123,6 +123,8 @@ class BaseOLS(RegressionPropsY, RegressionPropsVM):
             self.sig2 = self.sig2n
 
         if robust is not None:
+            if robust.lower() != "hac":
+                gwk = None  # kernel weights are for HAC only
             self.vm = ROBUST.robust_vm(reg=self, gwk=gwk, sig2n_k=sig2n_k)
 
 
diff --git a/spreg/twosls.py b/spreg/twosls.py
index 5b07aba..0d2efde 100644
--- a/spreg/twosls.py
+++ b/spreg/twosls.py
@@ -193,6 +193,8 @@ class BaseTSLS(RegressionPropsY, RegressionPropsVM):
         self.htz = zth.T
 
         if robust:
+            if robust.lower() != "hac":
+                gwk = None  # kernel weights are for HAC only
             self.vm = ROBUST.robust_vm(reg=self, gwk=gwk, sig2n_k=sig2n_k)
 
         if sig2n_k:
-- 
2.43.0


From b58f3209e064886f94591025b16b215bc680aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 29/57] fix: robust option is case insensitive on every route,
 as check_robust accepts it

---
 spreg/ols.py               | 1 +
 spreg/ols_regimes.py       | 1 +
 spreg/panel.py             | 1 +
 spreg/twosls.py            | 1 +
 spreg/twosls_regimes.py    | 1 +
 spreg/twosls_sp.py         | 1 +
 spreg/twosls_sp_regimes.py | 1 +
 7 files changed, 7 insertions(+)

diff --git a/spreg/ols.py b/spreg/ols.py
index 2aef859..d8df6dd 100755
--- a/spreg/ols.py
+++ b/spreg/ols.py
@@ -497,6 +497,7 @@ class OLS(BaseOLS):
             n = USER.check_arrays(y, x)
             y, name_y = USER.check_y(y, n, name_y)
             USER.check_robust(robust, gwk)
+            robust = robust.lower() if robust else robust
             spat_diag, warn = USER.check_spat_diag(spat_diag=spat_diag, w=w, robust=robust, slx_lags=slx_lags)
             set_warn(self, warn)
 
diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 58d94e4..beddc18 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -420,6 +420,7 @@ class OLS_Regimes(BaseOLS, REGI.Regimes_Frame, RegressionPropsY):
         n = USER.check_arrays(y, x)
         y, name_y = USER.check_y(y, n, name_y)
         USER.check_robust(robust, gwk)
+        robust = robust.lower() if robust else robust
         if robust == "hac":
             if regime_err_sep:
                 set_warn(
diff --git a/spreg/panel.py b/spreg/panel.py
index 65eea24..7af2c40 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -176,6 +176,7 @@ class PooledOLS(BaseOLS, RegressionPropsY, RegressionPropsVM):
     ):
 
         USER.check_robust(robust, None)
+        robust = robust.lower() if robust else robust
         self.title = "POOLED OLS PANEL"
         bigy, bigx, self.name_y, self.name_x, w, warn, self.slx_lags, self.title, kx, kwx, self.t = prepare_panel(
             y, x, w, name_y, name_x, slx_lags, slx_vars, self.title, add_constant=True)
diff --git a/spreg/twosls.py b/spreg/twosls.py
index 0d2efde..e3f9e3b 100644
--- a/spreg/twosls.py
+++ b/spreg/twosls.py
@@ -513,6 +513,7 @@ class TSLS(BaseTSLS):
             y, name_y = USER.check_y(y, n, name_y)
             yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
             USER.check_robust(robust, gwk)
+            robust = robust.lower() if robust else robust
             spat_diag, warn = USER.check_spat_diag(spat_diag=spat_diag, w=w, robust=robust, slx_lags=slx_lags)
             set_warn(self, warn)        
             x_constant, name_x, warn = USER.check_constant(x, name_x)
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index d948278..f5a1556 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -345,6 +345,7 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
         n = USER.check_arrays(y, x)
         y, name_y = USER.check_y(y, n, name_y)
         USER.check_robust(robust, gwk)
+        robust = robust.lower() if robust else robust
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
         if robust == "hac":
             if regime_err_sep:
diff --git a/spreg/twosls_sp.py b/spreg/twosls_sp.py
index 26eb06a..58555a7 100755
--- a/spreg/twosls_sp.py
+++ b/spreg/twosls_sp.py
@@ -572,6 +572,7 @@ class GM_Lag(BaseGM_Lag):
             y, name_y = USER.check_y(y, n, name_y)
             w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
             USER.check_robust(robust, gwk)
+            robust = robust.lower() if robust else robust
             yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
             spat_diag, warn = USER.check_spat_diag(spat_diag=spat_diag, w=w, robust=robust, slx_lags=slx_lags)
             set_warn(self, warn)
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 710c5f4..9401618 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -487,6 +487,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
         USER.check_robust(robust, gwk)
+        robust = robust.lower() if robust else robust
         if regime_lag_sep and not regime_err_sep:
             set_warn(self, "regime_err_sep set to True when regime_lag_sep=True.")                
             regime_err_sep = True
-- 
2.43.0


From 7e273a4ff27264e594524117b06bf3e9a67330bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 30/57] fix: instruments of Durbin models with other endogenous
 variables skipped the first lag order

---
 spreg/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 3fbf27a..68eb0bc 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -683,7 +683,8 @@ def set_endog(y, x, w, yend, q, w_lags, lag_q, slx_lags=0, slx_vars="all"):
     # spatial and non-spatial instruments
     if issubclass(type(yend), np.ndarray):
         if slx_lags > 0:
-            lag_x, lag_xq = get_lags_split(w, x, slx_lags+1, slx_lags)
+            lag_x = get_lags(w, x, slx_lags)
+            lag_xq = lag_x[:, -x.shape[1]:]  # instruments start at the next order
         else:
             lag_xq = x
         if lag_q:
-- 
2.43.0


From d8cf04bf27573f0227a9a9262e055d912b536c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 31/57] fix: set_endog failed for slx_vars given as a list with
 slx_lags above one

---
 spreg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 68eb0bc..fe566e7 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -717,7 +717,7 @@ def set_endog(y, x, w, yend, q, w_lags, lag_q, slx_lags=0, slx_vars="all"):
             if slx_vars.shape[0] != x.shape[1]:
                 raise Exception("slx_vars incompatible with x column dimensions")
             
-            lag_x = lag_x[:, slx_vars]
+            lag_x = lag_x[:, np.tile(slx_vars, slx_lags)]
             return yend, q, lag_x
 
 
-- 
2.43.0


From d3242b3f5b1ec00f5dfedba9f8f80bf65100ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 32/57] fix: set_endog_sparse repeated lag orders for w_lags
 above two

---
 spreg/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index fe566e7..d013771 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -732,15 +732,17 @@ def set_endog_sparse(y, x, w, yend, q, w_lags, lag_q):
             lag_vars = sphstack(x, q)
         else:
             lag_vars = x
-        spatial_inst = w @ lag_vars
+        spatial_inst = lag = w @ lag_vars
         for i in range(w_lags - 1):
-            spatial_inst = sphstack(spatial_inst, w @ spatial_inst)
+            lag = w @ lag
+            spatial_inst = sphstack(spatial_inst, lag)
         q = sphstack(q, spatial_inst)
         yend = sphstack(yend, yl)
     elif yend == None:  # spatial instruments only
-        q = w @ x
+        q = lag = w @ x
         for i in range(w_lags - 1):
-            q = sphstack(q, w @ q)
+            lag = w @ lag
+            q = sphstack(q, lag)
         yend = yl
     else:
         raise Exception("invalid value passed to yend")
-- 
2.43.0


From 72941f5ee072a694126a5762729a29ec7e8a1791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:23 +0000
Subject: [PATCH 33/57] fix: instrument names of Durbin models with selected
 lags matched other columns

---
 spreg/error_sp.py          | 6 ++----
 spreg/error_sp_het.py      | 6 ++----
 spreg/error_sp_hom.py      | 8 ++------
 spreg/twosls_sp.py         | 6 ++----
 spreg/twosls_sp_regimes.py | 5 ++---
 5 files changed, 10 insertions(+), 21 deletions(-)

diff --git a/spreg/error_sp.py b/spreg/error_sp.py
index 07080fd..880dc31 100644
--- a/spreg/error_sp.py
+++ b/spreg/error_sp.py
@@ -1042,10 +1042,8 @@ class GM_Combo(BaseGM_Endog_Error):
             self.name_x0 = []
             self.name_x0.append(self.name_x[0])  # constant
             if (isinstance(slx_vars,list)):   # boolean list passed
-                # x variables that were not lagged
-                self.name_x0.extend(list(compress(self.name_x[1:],[not i for i in slx_vars])))
-                # last wkx variables
-                self.name_x0.extend(self.name_x[-wkx:])
+                # last lags of all x variables, as in set_endog
+                self.name_x0.extend(USER.set_name_spatial_lags(self.name_x[1:kx + 1], slx_lags)[-kx:])
 
 
             else:
diff --git a/spreg/error_sp_het.py b/spreg/error_sp_het.py
index a03d423..a488262 100755
--- a/spreg/error_sp_het.py
+++ b/spreg/error_sp_het.py
@@ -1497,10 +1497,8 @@ class GM_Combo_Het(BaseGM_Combo_Het):
             self.name_x0 = []
             self.name_x0.append(self.name_x[0])  # constant
             if (isinstance(slx_vars,list)):   # boolean list passed
-                # x variables that were not lagged
-                self.name_x0.extend(list(compress(self.name_x[1:],[not i for i in slx_vars])))
-                # last wkx variables
-                self.name_x0.extend(self.name_x[-wkx:])
+                # last lags of all x variables, as in set_endog
+                self.name_x0.extend(USER.set_name_spatial_lags(self.name_x[1:kx + 1], slx_lags)[-kx:])
 
 
             else:
diff --git a/spreg/error_sp_hom.py b/spreg/error_sp_hom.py
index e7210ff..e4fc37f 100644
--- a/spreg/error_sp_hom.py
+++ b/spreg/error_sp_hom.py
@@ -1449,12 +1449,8 @@ class GM_Combo_Hom(BaseGM_Combo_Hom):
             self.name_x0 = []
             self.name_x0.append(self.name_x[0])  # constant
             if isinstance(slx_vars, list):  # boolean list passed
-                # x variables that were not lagged
-                self.name_x0.extend(
-                    list(compress(self.name_x[1:], [not i for i in slx_vars]))
-                )
-                # last wkx variables
-                self.name_x0.extend(self.name_x[-wkx:])
+                # last lags of all x variables, as in set_endog
+                self.name_x0.extend(USER.set_name_spatial_lags(self.name_x[1:kx + 1], slx_lags)[-kx:])
 
             else:
                 okx = int(
diff --git a/spreg/twosls_sp.py b/spreg/twosls_sp.py
index 58555a7..07a91a9 100755
--- a/spreg/twosls_sp.py
+++ b/spreg/twosls_sp.py
@@ -634,10 +634,8 @@ class GM_Lag(BaseGM_Lag):
                 self.name_x0 = []
                 self.name_x0.append(self.name_x[0])  # constant
                 if (isinstance(slx_vars,list)):   # boolean list passed
-                    # x variables that were not lagged
-                    self.name_x0.extend(list(compress(self.name_x[1:],[not i for i in slx_vars])))
-                    # last wkx variables
-                    self.name_x0.extend(self.name_x[-wkx:])
+                    # last lags of all x variables, as in set_endog
+                    self.name_x0.extend(USER.set_name_spatial_lags(self.name_x[1:kx + 1], slx_lags)[-kx:])
 
 
                 else:
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 9401618..42e1239 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -518,9 +518,8 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             set_warn(self,"WX is computed using the complete W, i.e. not trimmed by regimes.")
             x_constant = np.hstack((x_constant, wx))
             name_slx = USER.set_name_spatial_lags(name_x, slx_lags, slx_vars=slx_vars)
-            iter_slx = iter(name_slx) 
-            lagged = [True] * len(name_x) if isinstance(slx_vars, str) else slx_vars
-            name_q_temp = [next(iter_slx) if keep else name for name, keep in zip(name_x, lagged)]
+            # last lags of all x variables, as in set_endog
+            name_q_temp = USER.set_name_spatial_lags(name_x, slx_lags)[-len(name_x):]
             name_q.extend(USER.set_name_q_sp(name_q_temp, w_lags, name_q, lag_q, force_all=True))
             name_x += name_slx
             if cols2regi == 'all':
-- 
2.43.0


From a12b1afe472e298d3332559d629712476f590219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 34/57] fix: breusch_pagan and koenker_bassett failed when z
 was given as an array

---
 spreg/diagnostics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/diagnostics.py b/spreg/diagnostics.py
index 4a0a87c..306d6e4 100755
--- a/spreg/diagnostics.py
+++ b/spreg/diagnostics.py
@@ -800,7 +800,7 @@ def breusch_pagan(reg, z=None):
     den = ete / n
     g = e2 / den - 1.0
 
-    if z == None:
+    if z is None:
         x = reg.x
         # constant = constant_check(x)
         # if constant == False:
@@ -1112,7 +1112,7 @@ def koenker_bassett(reg, z=None):
     g = u - ubari
     v = (1.0 / n) * np.sum((u - ubar) ** 2)
 
-    if z == None:
+    if z is None:
         x = reg.x
         # constant = constant_check(x)
         # if constant == False:
-- 
2.43.0


From e79e381b0ad4ba089a01487fab55f5b00a163fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 35/57] fix: Wald failed when the constants q were given as an
 array

---
 spreg/regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index 10d17f9..941c253 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -143,7 +143,7 @@ class Wald:
     """
 
     def __init__(self, reg, r, q=None):
-        if not q:
+        if q is None:
             q = np.zeros((r.shape[0], 1))
         self.w, self.pvalue = wald_test(reg.betas, r, q, reg.vm)
 
-- 
2.43.0


From 90ad81ba1a615decd078dd0408d08f6d5ef6fe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 36/57] fix: group-wise weighting failed with endogenous
 variables

---
 spreg/regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index 941c253..da7c33a 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -723,7 +723,7 @@ def _get_weighted_var(regimes, regimes_set, sig2n_k, u, y, x, yend=None, q=None)
         sig_vec[regi_ids[r]] = 1 / np.sqrt(sig[r]).item()
         y2[regi_ids[r]] = y[regi_ids[r]] / np.sqrt(sig[r]).item()
     x2 = spbroadcast(x, sig_vec)
-    if yend != None:
+    if yend is not None:
         yend2 = spbroadcast(yend, sig_vec)
         q2 = spbroadcast(q, sig_vec)
         return y2, x2, yend2, q2
-- 
2.43.0


From 3d38fc5340640bfe46140c600e49837c620999d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:05 +0000
Subject: [PATCH 37/57] fix: power method for the average direct impact stopped
 at the first zero or negative term

---
 spreg/sputils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index 993ff9a..c4dee76 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -318,15 +318,18 @@ def spmultiplier(w, rho, method="simple", mtol=0.00000001):
         pow = 1
         adi = 1.0
         adidiff = 100.00
+        adilast = adidiff
 
-        while adidiff > mtol:
+        # a single term can be zero or negative without the series having converged
+        while (abs(adidiff) > mtol or abs(adilast) > mtol) and abs(rhop) < 1.0:
             pow = pow + 1
+            adilast = adidiff
             ww = SP.csr_matrix.dot(ww, ws3)
             trw = ww.diagonal().sum()
             rhop = rhop * rho
             adidiff = rhop * trw / n
             adi = adi + adidiff
-        multipliers["adi"] = adi.item()
+        multipliers["adi"] = np.asarray(adi).item()
         multipliers["pow"] = pow
     else:
         multipliers["warn"] = "Method '"+method+"' not supported for spatial impacts.\n"
-- 
2.43.0


From 42e7608a1d781ac81577e6a8b39d53ee1a52453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:16 +0000
Subject: [PATCH 38/57] fix: splogdet of a dense matrix is the log of the
 absolute determinant, as for a sparse one

---
 spreg/sputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index c4dee76..e04d2cc 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -212,7 +212,7 @@ def splogdet(a):
         det = np.sum(np.log(np.abs(LU.U.diagonal())))
     else:
         sgn, ldet = la.slogdet(a)
-        det = sgn * ldet
+        det = ldet
     return det
 
 
-- 
2.43.0


From 034a1a661f5214dc6601b7e1ac672318307a73f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 39/57] fix: names of the additional spatial lags of flex_wx
 follow the order of its columns

---
 spreg/user_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/user_output.py b/spreg/user_output.py
index 8d14e7f..28be4ba 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -1001,7 +1001,7 @@ def flex_wx(w,x,name_x,constant=True,slx_lags=1,slx_vars="All",panel=False,q_lag
             bigq = lag_xq
             qlagname2 = []
         xlagname,qlagname = set_name_spatial_lags(xnamework,slx_lags, additional=q_lags)
-        bignameq = qlagname2 + qlagname 
+        bignameq = qlagname + qlagname2
         bigx = np.hstack((x,lagx))
         bignamex = name_x + xlagname
         return(bigx,bignamex,bigq,bignameq)
-- 
2.43.0


From 8fc46830c6302de0adf35c189393f50eb862e325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:58 +0000
Subject: [PATCH 40/57] fix: probit likelihood ratio test against the
 constant-only model has k-1 degrees of freedom

---
 spreg/diagnostics_probit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/diagnostics_probit.py b/spreg/diagnostics_probit.py
index 476827e..91d7f9e 100644
--- a/spreg/diagnostics_probit.py
+++ b/spreg/diagnostics_probit.py
@@ -135,8 +135,8 @@ def probit_lrtest(regprob):
     likratio["L0"] = L0
     LR = -2.0 * (L0 - regprob.logl)
     likratio["likr"] = LR
-    likratio["df"] = regprob.k
-    pval = stats.chi2.sf(LR, regprob.k)
+    likratio["df"] = regprob.k - 1
+    pval = stats.chi2.sf(LR, regprob.k - 1)
     likratio["p-value"] = pval
 
     return likratio
-- 
2.43.0


From 3a3e7605389af01f9ba7687544ae1d8f3e162d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:58 +0000
Subject: [PATCH 41/57] fix: SUR lag LM test: score elements are sum_i sigma^ij
 e_i'Wy_j (element by element product)

---
 spreg/diagnostics_sur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/diagnostics_sur.py b/spreg/diagnostics_sur.py
index cc6a032..eff8b7a 100644
--- a/spreg/diagnostics_sur.py
+++ b/spreg/diagnostics_sur.py
@@ -225,7 +225,7 @@ def surLMlag(n_eq, WS, bigy, bigX, bigE, bigYP, sig, varb):
     WY = WS @ Y
     EWY = np.dot(bigE.T, WY)
     sigi = la.inv(sig)
-    SEWE = sigi @ EWY
+    SEWE = sigi * EWY
     score = SEWE.sum(axis=0)  # column sums
     score.resize(1, n_eq)  # score as a row vector
 
-- 
2.43.0


From 78adf09959d3ebb4c017e0ec29ce5926f13f1041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:14 +0000
Subject: [PATCH 42/57] fix: i_multipliers accepts a pandas Series as id and
 keeps rows with their id

---
 spreg/sputils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index e04d2cc..711f75f 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -475,16 +475,18 @@ def i_multipliers(w,coef=0.0,model='lag',id=None):
 
     if (isinstance(id,pd.core.frame.DataFrame)) or (isinstance(id,gpd.geoseries.GeoSeries)):
         pdid = id   # already a data frame
+    elif isinstance(id,pd.core.series.Series):
+        pdid = id.to_frame(name="ID" if id.name is None else id.name)
     elif isinstance(id,np.ndarray):
         pdid = pd.DataFrame(id,columns=["ID"])
-    elif id == None:
+    elif id is None:
         id = np.arange(n,dtype='int32').reshape(-1,1)
         pdid = pd.DataFrame(id,columns=["ID"])
     else:
         raise Exception("ID format not supported")
         
     impacts = np.concatenate((edirect,eofNbrs,eonNbrs),axis=1)  
-    dfimpacts = pd.DataFrame(impacts,columns=["Direct","EofNbrs","EonNbrs"])
+    dfimpacts = pd.DataFrame(impacts,columns=["Direct","EofNbrs","EonNbrs"],index=pdid.index)
     dfimpacts = pd.concat([pdid,dfimpacts],axis=1)
 
     return dfimpacts
-- 
2.43.0


From 0171fefc00e6e780e04b43f46b8c0cacbe49e939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:32 +0000
Subject: [PATCH 43/57] fix: name_y of separately estimated regimes lists names
 instead of single characters

---
 spreg/error_sp_het_regimes.py | 4 ++--
 spreg/error_sp_hom_regimes.py | 4 ++--
 spreg/error_sp_regimes.py     | 4 ++--
 spreg/ml_error_regimes.py     | 2 +-
 spreg/ml_lag_regimes.py       | 2 +-
 spreg/ols_regimes.py          | 2 +-
 spreg/twosls_regimes.py       | 2 +-
 spreg/twosls_sp_regimes.py    | 2 +-
 8 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index 1d2b473..611a1ee 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -570,7 +570,7 @@ class GM_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.e_filtered[
                 regi_ids[r],
             ] = results[r].e_filtered
-            self.name_y += results[r].name_y
+            self.name_y.append(results[r].name_y)
             results[r].name_x = [str(r) + '_lambda' if value == 'lambda' else value for value in results[r].name_x]
             self.name_x += results[r].name_x
             results[r].other_top = _summary_iteration(results[r])
@@ -1287,7 +1287,7 @@ class GM_Endog_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.e_filtered[
                 regi_ids[r],
             ] = results[r].e_filtered
-            self.name_y += results[r].name_y
+            self.name_y.append(results[r].name_y)
             self.name_x += results[r].name_x
             self.name_yend += results[r].name_yend
             self.name_q += results[r].name_q
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 6bd2655..f216154 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -582,7 +582,7 @@ class GM_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.e_filtered[
                 regi_ids[r],
             ] = results[r].e_filtered
-            self.name_y += results[r].name_y
+            self.name_y.append(results[r].name_y)
             self.name_x += results[r].name_x
             results[r].A1 = A1
             results[r].other_top = _summary_iteration(results[r])
@@ -1280,7 +1280,7 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.e_filtered[
                 regi_ids[r],
             ] = results[r].e_filtered
-            self.name_y += results[r].name_y
+            self.name_y.append(results[r].name_y)
             self.name_x += results[r].name_x
             self.name_yend += results[r].name_yend
             self.name_q += results[r].name_q
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index 15eb085..6e271b2 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -486,7 +486,7 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.e_filtered[
                 regi_ids[r],
             ] = results[r].e_filtered
-            self.name_y += results[r].name_y
+            self.name_y.append(results[r].name_y)
             self.name_x += results[r].name_x
             self.output = pd.concat([self.output, pd.DataFrame({'var_names': results[r].name_x,
                                                                 'var_type': ['x'] * (len(results[r].name_x) - 1) +
@@ -1101,7 +1101,7 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.e_filtered[
                 regi_ids[r],
             ] = results[r].e_filtered
-            self.name_y += results[r].name_y
+            self.name_y.append(results[r].name_y)
             self.name_x += results[r].name_x
             self.name_yend += results[r].name_yend
             self.name_q += results[r].name_q
diff --git a/spreg/ml_error_regimes.py b/spreg/ml_error_regimes.py
index 12af71a..072624a 100644
--- a/spreg/ml_error_regimes.py
+++ b/spreg/ml_error_regimes.py
@@ -506,7 +506,7 @@ class ML_Error_Regimes(BaseML_Error, REGI.Regimes_Frame):
             self.e_filtered[
                 regi_ids[r],
             ] = results[r].e_filtered
-            self.name_y += results[r].name_y
+            self.name_y.append(results[r].name_y)
             self.name_x += results[r].name_x
             results[r].other_top = _nonspat_top(results[r], ml=True)
             self.output = pd.concat([self.output, pd.DataFrame({'var_names': results[r].name_x,
diff --git a/spreg/ml_lag_regimes.py b/spreg/ml_lag_regimes.py
index 060da2c..5e00c8a 100644
--- a/spreg/ml_lag_regimes.py
+++ b/spreg/ml_lag_regimes.py
@@ -600,7 +600,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
             self.e_pred[
                 regi_ids[r],
             ] = results[r].e_pred
-            self.name_y += results[r].name_y
+            self.name_y.append(results[r].name_y)
             self.name_x += results[r].name_x
             results[r].other_top = _spat_pseudo_r2(results[r])
             results[r].other_top += _nonspat_top(results[r], ml=True)
diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index beddc18..df532d5 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -656,7 +656,7 @@ class OLS_Regimes(BaseOLS, REGI.Regimes_Frame, RegressionPropsY):
             self.predy[
                 regi_ids[r],
             ] = results[r].predy
-            self.name_y += results[r].name_y
+            self.name_y.append(results[r].name_y)
             self.name_x += results[r].name_x
             self.output = pd.concat([self.output, pd.DataFrame({'var_names': results[r].name_x,
                                                        'var_type': ['o']+['x']*(len(results[r].name_x)-1),
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index f5a1556..c48bd1e 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -598,7 +598,7 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
             self.predy[
                 regi_ids[r],
             ] = results[r].predy
-            self.name_y += results[r].name_y
+            self.name_y.append(results[r].name_y)
             self.name_x += results[r].name_x
             self.name_yend += results[r].name_yend
             self.name_q += results[r].name_q
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 42e1239..74d18c0 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -836,7 +836,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             self.e_pred[
                 regi_ids[r],
             ] = results[r].e_pred
-            self.name_y += results[r].name_y
+            self.name_y.append(results[r].name_y)
             self.name_x += results[r].name_x
             self.name_yend += results[r].name_yend
             self.name_q += results[r].name_q
-- 
2.43.0


From b09b060ecfb8c56fa36df06580217abc696bdc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:00 +0000
Subject: [PATCH 44/57] fix: the constant of GM_Error_Hom and
 GM_Endog_Error_Hom is labelled as in the other estimators

---
 spreg/error_sp_hom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/error_sp_hom.py b/spreg/error_sp_hom.py
index e4fc37f..8560c33 100644
--- a/spreg/error_sp_hom.py
+++ b/spreg/error_sp_hom.py
@@ -414,7 +414,7 @@ class GM_Error_Hom(BaseGM_Error_Hom):
         self.name_w = USER.set_name_w(name_w, w)
         self.A1 = A1
         self.output = pd.DataFrame(self.name_x, columns=["var_names"])
-        self.output["var_type"] = ["x"] * (len(self.name_x) - 1) + ["lambda"]
+        self.output["var_type"] = ["o"] + ["x"] * (len(self.name_x) - 2) + ["lambda"]
         self.output["regime"], self.output["equation"] = (0, 0)
         self.other_top = _summary_iteration(self)
         output(reg=self, vm=vm, robust=False, other_end=False, latex=latex)
@@ -907,7 +907,7 @@ class GM_Endog_Error_Hom(BaseGM_Endog_Error_Hom):
         self.A1 = A1
         self.output = pd.DataFrame(self.name_z, columns=["var_names"])
         self.output["var_type"] = (
-            ["x"] * len(self.name_x) + ["yend"] * len(self.name_yend) + ["lambda"]
+            ["o"] + ["x"] * (len(self.name_x) - 1) + ["yend"] * len(self.name_yend) + ["lambda"]
         )
         self.output["regime"], self.output["equation"] = (0, 0)
         self.other_top = _summary_iteration(self)
-- 
2.43.0


From 5bfc596a68052986e8c5ea0244c50c46a07bcd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:00 +0000
Subject: [PATCH 45/57] fix: ML_ErrorFE has no constant to label as one

---
 spreg/panel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index 7af2c40..d93a027 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -1848,7 +1848,7 @@ class ML_ErrorFE(BaseML_ErrorFE):
         self.name_w = USER.set_name_w(name_w, w)
 
         self.output = pd.DataFrame(self.name_x, columns=['var_names'])
-        self.output['var_type'] = ['o'] + ['x'] * (kx-1) + ['wx'] * kwx + ["lambda"]
+        self.output['var_type'] = ['x'] * kx + ['wx'] * kwx + ["lambda"]
         self.output['regime'], self.output['equation'] = (0, 0)
 
         self.aic = DIAG.akaike(reg=self)
-- 
2.43.0


From 433bb8ed44a9f89e6670eeb075d85e1c8637fba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:00 +0000
Subject: [PATCH 46/57] fix: lambda of a regime is named with the separator
 used everywhere else

---
 spreg/error_sp_het_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index 611a1ee..dfbdda8 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1923,7 +1923,7 @@ def _work_endog_error(
     model.name_y = "%s_%s" % (str(r), name_y)
     model.name_x = ["%s_%s" % (str(r), i) for i in name_x]
     model.name_yend = ["%s_%s" % (str(r), i) for i in name_yend]
-    model.name_z = model.name_x + model.name_yend + [str(r)+"lambda"]
+    model.name_z = model.name_x + model.name_yend + [str(r)+"_lambda"]
     model.name_q = ["%s_%s" % (str(r), i) for i in name_q]
     model.name_h = model.name_x + model.name_q
     model.name_w = name_w
-- 
2.43.0


From 8c97571acbe9741bc70247be086b1ee089fb4712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:00 +0000
Subject: [PATCH 47/57] fix: the constants of separately estimated
 GM_Error_Regimes are labelled as in the other estimators

---
 spreg/error_sp_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index 6e271b2..221ccad 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -489,7 +489,7 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.name_y.append(results[r].name_y)
             self.name_x += results[r].name_x
             self.output = pd.concat([self.output, pd.DataFrame({'var_names': results[r].name_x,
-                                                                'var_type': ['x'] * (len(results[r].name_x) - 1) +
+                                                                'var_type': ['o'] + ['x'] * (len(results[r].name_x) - 2) +
                                                                             ['lambda'],
                                                                 'regime': r, 'equation': r})], ignore_index=True)
             counter += 1
-- 
2.43.0


From 82cc0197c1e545b2cf24eb8fadca9e74bae9acb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:57 +0000
Subject: [PATCH 48/57] fix: GM_Lag_Regimes with slx_lags accepts cols2regi as
 a list, as without slx_lags

---
 spreg/twosls_sp_regimes.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 74d18c0..46114cc 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -522,12 +522,9 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             name_q_temp = USER.set_name_spatial_lags(name_x, slx_lags)[-len(name_x):]
             name_q.extend(USER.set_name_q_sp(name_q_temp, w_lags, name_q, lag_q, force_all=True))
             name_x += name_slx
-            if cols2regi == 'all':
-                cols2regi = REGI.check_cols2regi(
-                    constant_regi, cols2regi, x_constant, yend=yend2, add_cons=False)[0:-1]
-            else:
-                cols2regi = REGI.check_cols2regi(
-                    constant_regi, cols2regi, x_constant, yend=yend2, add_cons=False)
+            # W*y, the last column of yend2, is added to cols2regi below
+            cols2regi = REGI.check_cols2regi(
+                constant_regi, cols2regi, x_constant, yend=yend, add_cons=False)
         else:
             name_q.extend(USER.set_name_q_sp(name_x, w_lags, name_q, lag_q, force_all=True))
             yend2, q2 = yend, q
-- 
2.43.0


From 486f2f54a441a19a915d3652c5ae02424a7948bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:57 +0000
Subject: [PATCH 49/57] fix: GM_Lag_Regimes labels the spatial lags of X also
 with a fixed constant, fixed lags or slx_vars

---
 spreg/twosls_sp_regimes.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 46114cc..4b34a22 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -639,10 +639,8 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             self.regime_lag_sep = regime_lag_sep
             self.title = "SPATIAL " + self.title
             if slx_lags > 0:
-                for m in self.regimes_set:
-                    r_output = self.output[(self.output['regime'] == str(m)) & (self.output['var_type'].isin(['x', 'o']))]
-                    wx_index = r_output.index[-((len(r_output)-1)//(slx_lags+1)) * slx_lags:]
-                    self.output.loc[wx_index, 'var_type'] = 'wx'
+                wx_names = ["%s_%s" % (m, i) for m in list(self.regimes_set) + ["_Global"] for i in name_slx]
+                self.output.loc[self.output['var_names'].isin(wx_names), 'var_type'] = 'wx'
                 self.title = " SPATIAL 2SLS WITH SLX (SPATIAL DURBIN MODEL) - REGIMES"
             top_diag = _spat_pseudo_r2(self)
             try:
-- 
2.43.0


From db12d152eb09f38cdc13f5d92a7674b9050573af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:36 +0000
Subject: [PATCH 50/57] fix: no common factor test in regimes models where it
 is not defined (partial or fixed spatial lags)

---
 spreg/ml_lag_regimes.py    | 1 +
 spreg/output.py            | 4 +++-
 spreg/twosls_sp_regimes.py | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/spreg/ml_lag_regimes.py b/spreg/ml_lag_regimes.py
index 5e00c8a..e223337 100644
--- a/spreg/ml_lag_regimes.py
+++ b/spreg/ml_lag_regimes.py
@@ -442,6 +442,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
             #self.output['var_type'] = ['o'] + ['x'] * (len(self.name_x) - 2) + ['rho']
             self.output['equation'] = 0
             self.slx_lags = slx_lags
+            self.slx_vars = slx_vars
             diag_out = None
             if slx_lags > 0:
                 self.title = ("MAXIMUM LIKELIHOOD SPATIAL DURBIN - REGIMES"+ " (METHOD = "+ method+ ")")
diff --git a/spreg/output.py b/spreg/output.py
index e57c5ac..227bb98 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -284,7 +284,9 @@ def _spat_diag_out(reg, w, type, moran=False, ml=False):
         if any(reg.output['var_type'] == 'rho'):
             # no common factor test if slx_vars is not "All"
             if reg.slx_lags == 1 and not any(reg.output['var_type'] == 'yend'):
-                if not hasattr(reg, 'slx_vars') or not isinstance(reg.slx_vars, list):
+                # nor if some coefficients of x or wx are the same in all regimes
+                fixed_x = reg.output['var_type'].isin(['x', 'wx']) & (reg.output['regime'] == '_Global')
+                if not any(fixed_x) and (not hasattr(reg, 'slx_vars') or not isinstance(reg.slx_vars, list)):
                     wx_indices = reg.output[(reg.output['var_type'] == 'wx') & (reg.output['regime'] != '_Global')].index
                     x_indices = []
                     for m in reg.output['regime'].unique():
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 4b34a22..398dbe3 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -648,6 +648,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             except:
                 self.other_top = top_diag
             self.slx_lags = slx_lags
+            self.slx_vars = slx_vars
             diag_out = None
             if spat_diag:
                 diag_out = _spat_diag_out(self, w, 'yend')
-- 
2.43.0


From f545b378b8ac91934b5ffc8a4259cb35276301e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:41 +0000
Subject: [PATCH 51/57] fix: impacts of Durbin models with regimes use the
 spatial lag of the same variable

---
 spreg/output.py  |  4 ++++
 spreg/sputils.py | 18 ++++++++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/spreg/output.py b/spreg/output.py
index 227bb98..04c9871 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -627,6 +627,10 @@ def _summary_impacts(reg, w, spat_impacts, slx_lags=0, slx_vars="All",regimes=Fa
         strSummary += "Omitted since spatial autoregressive parameter is outside the boundary (-1, 1).\n"
         return None, strSummary
 
+    if regimes and slx_lags > 0 and any(variables['regime'] == '_Global'):
+        strSummary += "Omitted since some coefficients of X are fixed over the regimes.\n"
+        return None, strSummary
+
     if "all" in spat_impacts:
         spat_impacts = ["simple", "full", "power"]
 
diff --git a/spreg/sputils.py b/spreg/sputils.py
index 711f75f..8d7dc5e 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -366,12 +366,18 @@ def _sp_effects(reg, variables, spmult, slx_lags=0,slx_vars="All"):
     if slx_lags > 0:
         if reg.output.regime.nunique() > 1:
             btot_idx = pd.Series(btot.flatten(), index=variables_x_index)   
-            wchunk_size = len(variables.query("regime == @reg.output.regime.iloc[0]")) #Number of exogenous variables in each regime
-            for i in range(slx_lags):
-                chunk_indices = variables_x_index + (i+1) * wchunk_size
-                bmult = m1 * reg.betas[chunk_indices]
-                btot_idx[variables_x_index] += bmult.flatten()
-                btot = btot_idx.to_numpy().reshape(btot.shape)
+            variables_wx = reg.output.query("var_type == 'wx'")
+            wx_rows = dict(zip(variables_wx['var_names'], variables_wx.index))
+            for x_i in variables_x_index:
+                regi = str(reg.output.regime[x_i])
+                name = reg.output.var_names[x_i][len(regi) + 1:]
+                for i in range(slx_lags):
+                    lag = "_W%s_%s" % (i + 1 if i else "", name)
+                    # lag of the variable in its own regime or fixed over the regimes (not there if not in slx_vars)
+                    wx_i = wx_rows.get(regi + lag, wx_rows.get("_Global" + lag))
+                    if wx_i is not None:
+                        btot_idx[x_i] += (m1 * reg.betas[wx_i]).item()
+            btot = btot_idx.to_numpy().reshape(btot.shape)
 
         else:
             variables_wx = reg.output.query("var_type == 'wx'")
-- 
2.43.0


From c697ca745bb375defc752b69ee15f230f517716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:05 +0000
Subject: [PATCH 52/57] fix: GM_Lag_Regimes with lags by regime flags
 coefficients outside the bounds

---
 spreg/twosls_sp_regimes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 398dbe3..043a491 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -629,7 +629,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             )
 
             if regime_lag_sep:  # not currently available.
-                self.sp_att_reg(w_i, regi_ids, yend2[:, -1].reshape(self.n, 1))
+                self.sp_att_reg(w_i, regi_ids, yend2[:, -1].reshape(self.n, 1), hard_bound)
             else:
                 self.rho = self.betas[-1]
                 self.output.iat[-1, self.output.columns.get_loc('var_type')] = 'rho'
@@ -877,7 +877,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
         #   self._get_spat_diag_props(y, x, w, yend, q, w_lags, lag_q)
         output(reg=self, vm=vm, robust=robust, other_end=False, latex=latex)
 
-    def sp_att_reg(self, w_i, regi_ids, wy):
+    def sp_att_reg(self, w_i, regi_ids, wy, hard_bound=False):
         predy_e_r, e_pred_r = {}, {}
         self.predy_e = np.zeros((self.n, 1), float)
         self.e_pred = np.zeros((self.n, 1), float)
@@ -896,7 +896,9 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                 self.predy[regi_ids[r]],
                 wy[regi_ids[r]],
                 self.rho,
+                hard_bound=hard_bound,
             )
+            set_warn(self, warn)
             counter += 1
 
     def _get_spat_diag_props(self, y, x, w, yend, q, w_lags, lag_q):
-- 
2.43.0


From 4a2979a306201f6f55e376fabecd05f8d3b248cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:05 +0000
Subject: [PATCH 53/57] fix: hard_bound applies to the spatial lag coefficient
 of combo models

---
 spreg/error_sp.py             | 2 +-
 spreg/error_sp_het.py         | 2 +-
 spreg/error_sp_het_regimes.py | 4 ++--
 spreg/error_sp_hom.py         | 2 +-
 spreg/error_sp_hom_regimes.py | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/spreg/error_sp.py b/spreg/error_sp.py
index 880dc31..90a4111 100644
--- a/spreg/error_sp.py
+++ b/spreg/error_sp.py
@@ -999,7 +999,7 @@ class GM_Combo(BaseGM_Endog_Error):
 
         self.rho = self.betas[-2]
         self.predy_e, self.e_pred, warn = sp_att(
-            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho
+            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho, hard_bound=hard_bound
         )
         set_warn(self, warn)
         self.title = "SPATIALLY WEIGHTED 2SLS - GM-COMBO MODEL"
diff --git a/spreg/error_sp_het.py b/spreg/error_sp_het.py
index a488262..b3361f5 100755
--- a/spreg/error_sp_het.py
+++ b/spreg/error_sp_het.py
@@ -1456,7 +1456,7 @@ class GM_Combo_Het(BaseGM_Combo_Het):
         )
         self.rho = self.betas[-2]
         self.predy_e, self.e_pred, warn = UTILS.sp_att(
-            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho
+            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho, hard_bound=hard_bound
         )
         UTILS.set_warn(self, warn)
         self.title = "SPATIALLY WEIGHTED 2SLS- GM-COMBO MODEL (HET)"
diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index dfbdda8..8616c63 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1803,7 +1803,7 @@ class GM_Combo_Het_Regimes(GM_Endog_Error_Het_Regimes):
         if regime_err_sep != True:
             self.rho = self.betas[-2]
             self.predy_e, self.e_pred, warn = UTILS.sp_att(
-                w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho
+                w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho, hard_bound=hard_bound
             )
             UTILS.set_warn(self, warn)
             self.regime_lag_sep = regime_lag_sep
@@ -1905,7 +1905,7 @@ def _work_endog_error(
     if add_lag != False:
         model.rho = model.betas[-2]
         model.predy_e, model.e_pred, warn = sp_att(
-            w_r, model.y, model.predy, model.yend[:, -1].reshape(model.n, 1), model.rho
+            w_r, model.y, model.predy, model.yend[:, -1].reshape(model.n, 1), model.rho, hard_bound=hard_bound
         )
         set_warn(model, warn)
         
diff --git a/spreg/error_sp_hom.py b/spreg/error_sp_hom.py
index 8560c33..2cfc9ae 100644
--- a/spreg/error_sp_hom.py
+++ b/spreg/error_sp_hom.py
@@ -1406,7 +1406,7 @@ class GM_Combo_Hom(BaseGM_Combo_Hom):
         )
         self.rho = self.betas[-2]
         self.predy_e, self.e_pred, warn = sp_att(
-            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho
+            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho, hard_bound=hard_bound
         )
         set_warn(self, warn)
         self.title = "SPATIALLY WEIGHTED 2SLS- GM-COMBO MODEL (HOM)"
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index f216154..8aea250 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -1802,7 +1802,7 @@ class GM_Combo_Hom_Regimes(GM_Endog_Error_Hom_Regimes):
         if regime_err_sep != True:
             self.rho = self.betas[-2]
             self.predy_e, self.e_pred, warn = sp_att(
-                w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho
+                w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho, hard_bound=hard_bound
             )
             set_warn(self, warn)
             self.regime_lag_sep = regime_lag_sep
@@ -1895,7 +1895,7 @@ def _work_endog_error(
     if add_lag != False:
         model.rho = model.betas[-2]
         model.predy_e, model.e_pred, warn = sp_att(
-            w_r, model.y, model.predy, model.yend[:, -1].reshape(model.n, 1), model.rho
+            w_r, model.y, model.predy, model.yend[:, -1].reshape(model.n, 1), model.rho, hard_bound=hard_bound
         )
         set_warn(model, warn)
     if slx_lags == 0:
-- 
2.43.0


From 867038b6b50f89da4eaeefb25cf5d71ba3f9afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:36 +0000
Subject: [PATCH 54/57] fix: regimes estimators check the length of endogenous
 variables and instruments

---
 spreg/error_sp_het_regimes.py | 2 +-
 spreg/error_sp_hom_regimes.py | 2 +-
 spreg/error_sp_regimes.py     | 2 +-
 spreg/twosls_regimes.py       | 2 +-
 spreg/twosls_sp_regimes.py    | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index 8616c63..a405bc3 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1720,7 +1720,7 @@ class GM_Combo_Het_Regimes(GM_Endog_Error_Het_Regimes):
         if regime_err_sep and not regime_lag_sep:
             set_warn(self, "regime_err_sep set to False when regime_lag_sep=False.")                
             regime_err_sep = False
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         self.step1c = step1c
         y, name_y = USER.check_y(y, n, name_y)
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 8aea250..3083b37 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -1720,7 +1720,7 @@ class GM_Combo_Hom_Regimes(GM_Endog_Error_Hom_Regimes):
         if regime_err_sep and not regime_lag_sep:
             set_warn(self, "regime_err_sep set to False when regime_lag_sep=False.")                
             regime_err_sep = False
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index 221ccad..f1a7144 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -1501,7 +1501,7 @@ class GM_Combo_Regimes(GM_Endog_Error_Regimes, REGI.Regimes_Frame):
         if regime_err_sep and not regime_lag_sep:
             set_warn(self, "regime_err_sep set to False when regime_lag_sep=False.")                
             regime_err_sep = False
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index c48bd1e..90b16dc 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -342,7 +342,7 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
         latex=False,
     ):
 
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         USER.check_robust(robust, gwk)
         robust = robust.lower() if robust else robust
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 043a491..586a61e 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -482,7 +482,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
         hard_bound=False,
     ):
 
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
-- 
2.43.0


From e98d9acfd663c08e3bfe1ee6a88e62f9a112064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:25 +0000
Subject: [PATCH 55/57] fix: panels check that y is numeric

---
 spreg/panel_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index e4bbb47..3e072c7 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -75,6 +75,8 @@ def check_panel(y, x, w, name_y, name_x):
                 name_x = x.name
         x = x.to_numpy()
 
+    USER.check_numeric_bool(y)
+
     # Check if 'y' is a balanced panel with respect to 'W'
     if y.shape[0] / w.n != y.shape[0] // w.n:
         raise Exception("y must be ntx1 or nxt, and w must be an nxn PySAL W" "object.")
-- 
2.43.0


From 58e375f9622800d5201282efba6aacf9727467a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:35 +0000
Subject: [PATCH 56/57] fix: panels accept pandas Series

---
 spreg/panel_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index 3e072c7..0bb5cc9 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -72,9 +72,14 @@ def check_panel(y, x, w, name_y, name_x):
             try:
                 name_x = x.columns.to_list()
             except AttributeError:
-                name_x = x.name
+                name_x = [x.name]
         x = x.to_numpy()
 
+    if y.ndim == 1:
+        y = y.reshape((y.shape[0], 1))
+    if x.ndim == 1:
+        x = x.reshape((x.shape[0], 1))
+
     USER.check_numeric_bool(y)
 
     # Check if 'y' is a balanced panel with respect to 'W'
-- 
2.43.0


From bd8c4dfe89f355c372ec100efdd2a1b17aa2884b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:40 +0000
Subject: [PATCH 57/57] fix: ML_Error_Regimes accepts a Series as x

---
 spreg/ml_error_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/ml_error_regimes.py b/spreg/ml_error_regimes.py
index 072624a..941826b 100644
--- a/spreg/ml_error_regimes.py
+++ b/spreg/ml_error_regimes.py
@@ -331,7 +331,7 @@ class ML_Error_Regimes(BaseML_Error, REGI.Regimes_Frame):
         self.cols2regi = cols2regi        
         self.regimes_set = REGI._get_regimes_set(regimes)
         self.regimes = regimes
-        USER.check_regimes(self.regimes_set, self.n, x.shape[1])
+        USER.check_regimes(self.regimes_set, self.n, x_constant.shape[1])
         self.regime_err_sep = regime_err_sep
 
         if regime_err_sep == True:
-- 
2.43.0

