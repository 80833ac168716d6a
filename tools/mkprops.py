"""writes properties.jsonl (kept as a script so that the wording stays reviewable)"""
import json
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": ["spreg/" + f for f in files], "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe)}})


I, C = "inputs", "configurations"
p("A01", "No public call modifies the objects the caller passes in",
  "After any public estimator, diagnostic or utility returns, every array, list, dictionary, data frame, spatial weights object and result object that the caller passed in has the same contents, shape and weights transform as before the call. Values a call has to extend (names, instruments, regime expansions, spatial lags) are extended in copies. The helpers whose documented purpose is to fill a given object are the only exception.",
  [I, C], "every argument of every public entry point, for every option combination that reaches a write",
  "Tests compare outputs with stored numbers; none re-reads its inputs after a call, and most option combinations with user-supplied names, 1-D arrays, DataFrames or dictionaries are never executed.",
  ["user_output.py", "w_utils.py", "sur.py", "sur_lag.py", "sur_error.py", "skater_reg.py", "regimes.py", "utils.py"],
  [("inputs are copied before they are extended", "user_output.check_constant / set_name_x / check_endog; sur*.py constructors"),
   ("weights transform restored", "w_utils.symmetrize")])
p("A02", "Calls leave no process-wide state behind",
  "Importing the package or calling any public function changes nothing outside the objects it returns: no attribute of another library, no module-level variable, no default argument object, no global random state, print option or warning filter is changed by the call. Two identical calls in one process therefore start from identical state.",
  ["histories", C], "every sequence of public calls in one process",
  "Tests run each call once in a fresh object; pollution of shared state shows only in some later, different call.",
  ["sur_error.py", "diagnostics.py", "nslx.py", "dgp.py", "probit.py", "utils.py"],
  [("no module-level writes", "all modules"), ("mutable defaults are never extended", "function signatures")])
p("A03", "Estimation is silent unless output was asked for",
  "Estimators and diagnostics write nothing to standard output unless the caller asked for it (a verbose flag, or a function whose documented purpose is to print). Problems are reported by raising an exception or through the warning text stored with the results, never by printing.",
  [I, C], "every path through every public entry point",
  "Tests do not capture standard output, and the paths that print are mostly those for invalid or unusual options.",
  ["output.py", "user_output.py", "ml_lag.py", "panel.py", "sur.py", "sur_error.py", "regimes.py"],
  [("errors are raised", "user_output.check_*"), ("set_warn", "utils.set_warn")])
p("B01", "Inputs are validated before estimation",
  "Every single-equation cross-section, probit and panel estimator validates its data before computing with it: the dependent and explanatory variables, endogenous variables and instruments go through the shape, length and numeric checks, the spatial weights are checked for presence, kernel type, size and diagonal, regimes are checked for type, length, count and size, and the HAC option is checked together with its kernel weights. Input that fails a check is rejected with an exception before any coefficient is computed, and data that pass are handed on unchanged.",
  [I, C], "every user-facing estimator, every option combination, every malformed input",
  "Tests pass well-formed data; whether a given estimator and option route around one check is not visible in them.",
  ["user_output.py", "ols.py", "twosls.py", "twosls_sp.py", "ml_lag.py", "ml_error.py", "error_sp.py", "error_sp_het.py", "error_sp_hom.py", "ols_regimes.py", "panel.py", "sur.py"],
  [("check_arrays, check_y, check_weights, check_robust, check_constant, check_regimes", "user_output.py")])
p("B02", "Accepted options are honoured by every route to an estimator",
  "An option a caller passes to an estimator has the effect documented for it on every route: when the estimator delegates (to its regimes version, to another estimator chosen by the options, or to one worker per regime) every option the target accepts is handed on unchanged and to the parameter of the same meaning. An option that the chosen route cannot honour is reported by a warning or exception instead of being silently dropped.",
  [C], "every public estimator, every option it accepts, every delegation route",
  "Tests call each route with a handful of option settings, mostly defaults; a dropped or swapped option equals the default on most of them.",
  ["ols.py", "twosls.py", "twosls_sp.py", "ml_lag.py", "ml_error.py", "error_sp.py", "error_sp_regimes.py", "ols_regimes.py", "twosls_regimes.py", "twosls_sp_regimes.py"],
  [("dispatch on regimes", "OLS, TSLS, GM_Lag, ML_Lag, ML_Error, GMM_Error constructors"), ("per-regime workers", "_work* functions")])
p("B03", "Unsupported option values are rejected",
  "For every option with a closed set of documented values (estimation method, estimator, robust type, moment variant, scale method, optimizer, impact method, constant handling) a value outside the set is refused: the call raises an exception, or, where the documentation names a fallback (the estimator of the general moment class, the pooled likelihood method, the multiplier method, the constant in the endogenous regimes classes), uses it and says so in a warning; data generators return None. No call returns a partially built result because an option value was not recognised.",
  [C, I], "every enumerated option of every public entry point, every value outside its documented set",
  "Tests pass supported values; the fall-through branch is rarely executed.",
  ["ml_lag.py", "ml_error.py", "error_sp.py", "probit.py", "diagnostics_probit.py", "panel.py", "nslx.py", "sputils.py", "dgp.py", "twosls_sp.py"],
  [("explicit else branches raising", "per-option dispatch")])
p("B04", "No option combination ends in an internal programming error",
  "For well-formed input no public entry point fails with an accidental error: reading a variable, attribute or dictionary entry that the chosen options never set, calling an internal function with the wrong arguments, or using a method the object does not have. Every such failure is either impossible or replaced by a deliberate exception.",
  [C], "every combination of options of every public entry point",
  "The option space is a product of a dozen switches per estimator; tests visit a few points, and several modules have no runnable tests here.",
  ["panel.py", "diagnostics_panel.py", "sur_utils.py", "sur_lag.py", "probit.py", "error_sp_hom.py", "output.py", "spsearch.py"],
  [("definite assignment and attribute initialisation", "all modules")])
p("B05", "Spatial coefficients outside their range are flagged",
  "Whenever a spatial lag model reports predictions from its reduced form, a spatial autoregressive estimate at or beyond one in absolute value makes the result carry a warning, and with the hard bound option it raises an exception instead. This holds for every spatial lag and combo estimator, with and without regimes.",
  [I, C], "every estimate, every estimator with a spatial lag, both values of the hard bound option",
  "Estimates outside the range do not occur on the test data sets.",
  ["utils.py", "twosls_sp.py", "twosls_sp_regimes.py", "error_sp.py", "error_sp_het.py", "error_sp_hom.py", "error_sp_regimes.py", "ml_lag.py"],
  [("sp_att", "utils.sp_att"), ("set_warn", "utils.set_warn")])
p("B06", "Data given as pandas objects are treated like arrays",
  "Giving the dependent variable, the regressors, the endogenous variables, the instruments or the regime labels as pandas objects (a Series, or a data frame, for panels also in wide form) or the dependent variable as a one-dimensional array yields the same estimates, diagnostics and labels as giving the same values as two-dimensional arrays together with the corresponding names. This holds for every estimator documented to accept pandas objects.",
  [I, C], "every data set, every supported representation of the data, every estimator documented to take pandas objects",
  "Tests build arrays from a data base file; only a handful of cases use pandas objects, with one estimator each.",
  ["user_output.py", "panel_utils.py", "ols.py", "twosls.py", "twosls_sp.py", "ml_lag.py", "ml_error.py", "error_sp.py", "probit.py", "panel_fe.py", "panel_re.py"],
  [("check_arrays, check_y, check_constant, set_name_x", "user_output"), ("check_panel", "panel_utils"), ("the _wrapped name handling at the start of every constructor", "estimators")])
p("C01", "Parallel and serial estimation of regimes give the same results",
  "Estimating regimes separately gives the same results, in the same order, with the same labels, whether the regimes are run one after another or by parallel worker processes. Only the scheduling of the work depends on the cores option.",
  ["schedules", C], "every value of the cores option, every completion order of the workers, every estimator that estimates regimes separately",
  "Tests compare a few estimators run serially; worker completion order is never varied.",
  ["ols_regimes.py", "twosls_regimes.py", "twosls_sp_regimes.py", "ml_lag_regimes.py", "ml_error_regimes.py", "error_sp_regimes.py", "error_sp_het_regimes.py", "error_sp_hom_regimes.py"],
  [("same worker function and arguments on both routes; results collected by regime key", "*_multi methods")])
p("C02", "Separately estimated regimes use and fill only their own observations",
  "When regimes are estimated separately, the estimate of a regime uses exactly the observations of that regime (dependent variable, regressors, endogenous variables, instruments and weights alike), and its coefficients, variances, residuals and predictions are stored in the positions of that regime in the combined result. No regime's data or results reach another regime's slot.",
  [I, C], "every labelling of observations into regimes, in any order, every estimator that estimates regimes separately",
  "Test data have two or three regimes in one fixed arrangement; the combined arrays are compared for a few estimators only.",
  ["ols_regimes.py", "twosls_regimes.py", "twosls_sp_regimes.py", "ml_lag_regimes.py", "ml_error_regimes.py", "error_sp_regimes.py", "error_sp_het_regimes.py", "error_sp_hom_regimes.py", "regimes.py"],
  [("regi_ids", "*_multi methods"), ("counter-based block placement", "*_multi methods")])
p("D01", "Result tables pair every estimate with the right variable",
  "In every result, the table of results has exactly one row per reported coefficient, in the order of the coefficient vector, and each row carries the name and the kind (constant, exogenous, endogenous, spatial lag, error parameter) of the column the coefficient belongs to. This holds for every combination of Durbin terms, endogenous variables, instruments, regimes and fixed or varying coefficients.",
  [C, I], "every option combination that adds or reorders columns",
  "Tests compare coefficient values; names and kinds are checked for few configurations.",
  ["ols.py", "twosls_sp.py", "ml_lag.py", "error_sp.py", "error_sp_het.py", "error_sp_hom.py", "regimes.py", "panel.py", "output.py"],
  [("names and columns are extended together", "constructors"), ("set_name_*", "user_output.py")])
p("D02", "Reported significance follows from the estimate and its variance",
  "For every coefficient the reported standard error is the square root of the matching diagonal element of the reported variance matrix, the statistic is the coefficient divided by that standard error, and the p-value is two-sided: from the t distribution with n minus k degrees of freedom for least squares, from the standard normal otherwise. Every chi-squared and F test reports the upper tail probability of its own statistic with its own degrees of freedom.",
  [I, C], "every result object and every test in the library",
  "Tests compare numbers on data where several wrong tails or degrees of freedom still round to the same value, and not for every class.",
  ["diagnostics.py", "diagnostics_sp.py", "diagnostics_tsls.py", "diagnostics_sur.py", "diagnostics_probit.py", "diagnostics_panel.py", "output.py", "regimes.py"],
  [("se_betas, t_stat", "diagnostics.py"), ("p-values", "stats.*.sf calls")])
p("D03", "Residuals and predictions add up to the observed data",
  "For every estimator the reported residuals are the observed dependent variable minus the reported predictions, and the predictions are the design matrix used times the reported coefficients. Filtered residuals of error models are the residuals minus the error parameter times their spatial lag.",
  [I, C], "every estimator and every data set",
  "Tests compare the first few residuals of one data set per class.",
  ["ols.py", "twosls.py", "error_sp.py", "error_sp_het.py", "error_sp_hom.py", "ml_lag.py", "ml_error.py", "panel.py", "panel_fe.py", "panel_re.py", "utils.py"],
  [("RegressionProps_basic", "utils.py"), ("u = y - predy", "estimators")])
p("D04", "Least squares and two-stage least squares estimates are the exact formulas",
  "Ordinary, weighted and two-stage least squares return the closed-form estimates for the data given: coefficients solving the normal equations (with the endogenous variables projected on exogenous variables and instruments), classical variance equal to the residual variance times the inverse cross-product, and residual variance with the divisor the options select. The spatial two-stage least squares estimator is two-stage least squares with the spatial lag of the dependent variable as last endogenous variable.",
  [I, C], "every data set and every setting of the divisor and instrument options",
  "Numbers are compared on single data sets with default options.",
  ["ols.py", "twosls.py", "twosls_sp.py", "utils.py"],
  [("BaseOLS, BaseWLS, BaseTSLS, BaseGM_Lag", "ols.py, twosls.py, twosls_sp.py")])
p("D05", "Robust variances are the White and HAC sandwich estimators",
  "The robust variance option returns the sandwich estimator of the fitted model: the bread is the inverse cross-product (of the projected regressors for instrumental estimation), the meat is built from the squared residuals for White and from the kernel-weighted residual cross-products for HAC. White ignores kernel weights, HAC uses them, and the degrees-of-freedom correction follows the divisor option.",
  [I, C], "every data set, robust option and divisor option",
  "Tests use one data set and not all combinations of robust type, divisor and estimator.",
  ["robust.py", "ols.py", "twosls.py", "regimes.py"], [("robust_vm, hac_multi", "robust.py")])
p("D06", "Spatial dependence tests use the published statistics",
  "The Lagrange multiplier tests for spatial error, lag, their robust forms, the joint SARMA test, the spatial Durbin variants, Moran's I for residuals and the Anselin-Kelejian test are computed from the fitted model by their published formulas. The degrees of freedom of every test match its hypothesis.",
  [I, C], "every fitted least squares or instrumental variables model and every weights matrix",
  "One data set with symmetric contiguity weights does not distinguish many wrong formulas.",
  ["diagnostics_sp.py"], [("LMtests, MoranRes, AKtest, spDcache", "diagnostics_sp.py")])
p("D07", "Non-spatial diagnostics follow their definitions",
  "Fit measures (R-squared, adjusted R-squared, log-likelihood, Akaike, Schwarz), the F test, the normality test, the three heteroskedasticity tests, the condition number and the variance inflation factors are the textbook functions of the model they are computed for, including the number of observations, the number of coefficients and the degrees of freedom they use.",
  [I, C], "every fitted model", "Tests cover one data set.", ["diagnostics.py", "diagnostics_tsls.py"],
  [("functions of diagnostics.py", "diagnostics.py")])
p("D08", "Maximum likelihood models evaluate the stated likelihood",
  "The concentrated log-likelihood of the spatial lag and the spatial error model is the Gaussian one, and its dense, sparse and eigenvalue evaluations are the same function. At the estimate, coefficients, residual variance, log-likelihood, information criteria and the asymptotic variance matrix are the stated functions of the spatial parameter and the data.",
  [I, C], "every data set, weights matrix and evaluation method",
  "The variants are compared at optimum on one data set.", ["ml_lag.py", "ml_error.py"],
  [("lag_c_loglik*, err_c_loglik*", "ml_lag.py, ml_error.py")])
p("D09", "Moment estimators use the published moment conditions",
  "The moment equations of the Kelejian-Prucha, heteroskedastic (Arraiz et al.) and homoskedastic (Drukker et al.) spatial error estimators, their weighting, the spatial Cochrane-Orcutt filter and the variance matrices of the coefficients and of the error parameter are the published functions of residuals and weights.",
  [I, C], "every data set and weights matrix",
  "Tests compare final numbers on one data set.", ["error_sp.py", "error_sp_het.py", "error_sp_hom.py", "utils.py"],
  [("_momentsGM_Error, moments_hom, moments2eqs, get_vc_*", "utils.py and error_sp*.py")])
p("D10", "Spatial lags and instruments are built to the requested order",
  "Spatially lagged variables are the weights matrix applied the requested number of times, to the requested variables, in a fixed order, and never to the constant. The instruments of the spatial lag are the lags of the exogenous variables, and of additional instruments only when asked for, each order once.",
  [C, I], "every number of lags, choice of variables and presence of endogenous variables",
  "Tests use one or two lags on few variables.", ["utils.py", "user_output.py", "twosls_sp.py"],
  [("get_lags, get_lags_split, set_endog, set_endog_sparse", "utils.py"), ("flex_wx", "user_output.py")])
p("D11", "Impacts decompose totals and reduced-form predictions are consistent",
  "Direct, indirect and total impacts satisfy total equals direct plus indirect, with the total given by the coefficient (plus its Durbin coefficient) times the spatial multiplier of the chosen method. Reduced-form predictions are the spatial multiplier applied to the systematic part excluding the spatial lag, and reduced-form residuals are the observations minus those predictions.",
  [I, C], "every estimate, weights matrix, impact method and choice of Durbin variables",
  "Tests compare printed tables for few methods.", ["sputils.py", "utils.py", "output.py"],
  [("spmultiplier, _sp_effects, i_multipliers", "sputils.py"), ("sp_att, inverse_prod, power_expansion", "utils.py")])
p("D12", "Probit results follow the stated likelihood",
  "The probit log-likelihood, its gradient and its Hessian are consistent derivatives of one function, and predictions, residuals, variance matrix, marginal effects, likelihood-ratio test and the spatial tests are the stated functions of the estimates.",
  [I, C], "every binary data set and option", "Tests compare numbers on one data set.", ["probit.py", "diagnostics_probit.py"],
  [("ll, gradient, hessian", "probit.py")])
p("D13", "Seemingly unrelated regressions follow their estimating equations",
  "The system estimators stack the equations in order, estimate the cross-equation error covariance from the current residuals with n as divisor, and return the generalized least squares (or three-stage least squares) coefficients and variance. Equation-wise results, tests across equations and filtered variables refer to the same equation throughout.",
  [I, C], "every number of equations and regressors per equation", "The system estimator tests need data that cannot be fetched here.",
  ["sur.py", "sur_utils.py", "sur_error.py", "sur_lag.py", "diagnostics_sur.py"], [("sur_crossprod, sur_est, sur_resids", "sur_utils.py")])
p("D14", "Panel estimators transform and test as stated",
  "Fixed effects estimators demean every variable by unit, random effects estimators quasi-demean, and the stacked weights apply the spatial weights within each period. Likelihoods, moments and panel tests use the number of units and of periods in the stated places.",
  [I, C], "every number of units and periods, every panel layout", "Panel tests need data that cannot be fetched here, or use one panel.",
  ["panel.py", "panel_fe.py", "panel_re.py", "panel_utils.py", "sp_panels.py", "diagnostics_panel.py"],
  [("demean_panel, check_panel", "panel_utils.py")])
p("D15", "Regime designs and stability tests match the restrictions they state",
  "With regimes, each varying regressor gets one column per regime that equals the regressor on that regime's observations and zero elsewhere, in the documented order, and fixed regressors appear once. The stability tests are Wald tests whose restriction matrix equates exactly the coefficients of one variable (or of all varying variables) across regimes, with as many degrees of freedom as restrictions.",
  [I, C], "every set of regimes and every choice of varying and fixed coefficients",
  "Tests use two or three regimes and few choices of varying coefficients.", ["regimes.py"],
  [("regimeX_setup, x2xsp, buildR, buildR1var, wald_test, Chow", "regimes.py")])
p("D16", "Simulated data follow the process named",
  "Each data generating function returns the reduced form of the process it is named after for the errors, coefficients and weights given, and rejects arguments of inconsistent dimension.",
  [I, C], "every parameter value and weights matrix", "Tests use one seed and one weights matrix.", ["dgp.py"], [("dgp_*", "dgp.py")])
p("D17", "Dense and sparse computations agree",
  "The linear algebra helpers return the same mathematical result for dense and for sparse arguments, in every combination.",
  [I], "every combination of dense and sparse operands", "Tests mostly run dense operands.", ["sputils.py"],
  [("spdot, spmultiply, sphstack, spbroadcast, spmin, spmax, splogdet, spinv", "sputils.py")])
p("D18", "Lazily computed results do not depend on the order of access",
  "A result read from a fitted model has the same value whatever other results were read or computed before it. A stored intermediate value is only ever used for the quantity it was computed for, a value assigned to a result is the value read afterwards, and a diagnostic gives the same answer whether it is computed alone or together with, or after, others.",
  ["histories"], "every order of reading and assigning the attributes of every result",
  "Tests read attributes in one fixed order.", ["utils.py", "diagnostics_sp.py", "probit.py", "twosls.py", "panel.py"],
  [("_cache", "RegressionPropsY, RegressionPropsVM, spDcache, BaseProbit, BaseTSLS")])
p("D19", "Specification searches report the model their tests select",
  "Every model search returns the label of the model that its documented sequence of tests selects at the given significance level, whatever the outcomes of the tests, and on request the fitted model of exactly that specification (Durbin terms, spatial lag, spatial error) for the same data, weights, names and lag order. When a model on the way violates the parameter bounds the search says so in the label, or continues as documented, and never returns a model of another specification.",
  [I, C], "every combination of test outcomes, and every fitted model inside or outside the bounds",
  "Tests run each search on one data set, which follows one path of the decision tree.", ["spsearch.py"],
  [("stge_classic, stge_kb, stge_pre, gets_gns, gets_sdm", "decision sequence and final model")])
p("E01", "Optimizers converge to the global optimum",
  "The numerical optimizers used for spatial parameters and probit coefficients reach the global optimum of their objective to the requested tolerance.",
  [I], "every data set and starting value", "Tests compare one optimum.", ["ml_lag.py", "ml_error.py", "utils.py", "probit.py"], [("minimize_scalar, optimize calls", "estimators")])
p("E02", "Results are numerically accurate",
  "Coefficients and statistics are accurate to working precision relative to the conditioning of the data, and ill-conditioned input is recognised.",
  [I], "every data set", "Tests use well-conditioned data.", ["ols.py", "sputils.py"], [("inverse computations", "estimators")])
p("E03", "Tests have their nominal size and estimators are consistent",
  "Under the stated assumptions estimators are consistent and tests have the nominal rejection rate.",
  [I], "every data generating process satisfying the assumptions", "No simulation study in the tests.", ["diagnostics_sp.py"], [("estimators", "all modules")])
p("E04", "Endogenous regions are contiguous and at least the minimum size",
  "The spatially constrained clustering returns the requested number of regions, each connected in the weights graph and with at least the minimum number of members.",
  [I], "every data set, graph and number of clusters", "One data set is tested.", ["skater_reg.py"], [("tree cuts", "skater_reg.py")])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
