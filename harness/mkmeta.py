"""Writes properties.jsonl and MANIFEST.json from the table below, so the two
stay in step.  Run from anywhere: python3 harness/mkmeta.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over.split(), text=" ".join(text.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=["spreg/" + f for f in files.split()],
                               mechanism=[dict(name=a, where="spreg/" + b) for a, b in mech]),
                  _note=" ".join(note.split())))


IC = "inputs configurations"
SAMPLE = "The tests compare printed digits of one bundled data set under a few option settings; "

prop("C01", "OLS returns the least-squares fit and its classical inference",
     """For every y, X (with optional spatial lags of X up to any order) OLS reports the coefficients, fitted values,
     residuals, moment matrices, variance, standard errors, t and F statistics, R2 and likelihood criteria that the
     least-squares definition gives for the design [1, X, WX, ...] after dropping constant columns of X.
     With nonspat_diag the choice of sig2 (n or n-k) is the one asked for, and x, n, k, and the names describe that
     same design.""",
     IC, "all full-rank numeric data, all W, every combination of lag order, lagged-variable mask, constants, degrees-of-freedom option, container type and naming",
     SAMPLE + "no test fixes the relation between outputs for other data, masks, lag orders or containers.",
     "ols.py utils.py user_output.py output.py", [("BaseOLS", "ols.py"), ("OLS", "ols.py"), ("RegressionProps_basic", "utils.py"), ("flex_wx", "user_output.py")])

prop("C02", "Robust covariance: White and HAC variances follow their definitions",
     """With robust='white' or 'hac' an OLS, TSLS or spatial-lag 2SLS fit keeps the same coefficients and reports the
     sandwich covariance with White or kernel-weighted middle matrix (with the small-sample factor exactly when asked
     for). Standard errors, t/z statistics and p-values of that fit are those of the reported covariance.""",
     IC, "all data, kernels (any bandwidth and function), estimators, sig2n_k settings",
     SAMPLE + "the sandwich identity is not tested off that sample.",
     "robust.py ols.py twosls.py twosls_sp.py", [("robust_vm", "robust.py"), ("get_middle", "robust.py")])

prop("C03", "2SLS returns the instrumental-variables estimator and its inference",
     """For every y, X, endogenous and excluded-instrument variables (with optional spatial lags of X), TSLS reports the 2SLS coefficients,
     fitted values, residuals, covariance, z statistics, pseudo-R2 and instrument moment matrices defined by
     regressors [1, X, yend] and instruments [1, X, q]. The choice of variance divisor is the one asked for.""",
     IC, "all data with at least as many excluded instruments as endogenous variables, all options",
     SAMPLE + "over-identification, several endogenous variables, lags and divisors are sampled once or never.",
     "twosls.py utils.py user_output.py", [("BaseTSLS", "twosls.py"), ("TSLS", "twosls.py")])

prop("C04", "Spatial 2SLS: lag model uses the right instruments and reduced form",
     """The spatial-lag 2SLS model is the 2SLS fit with Wy as last endogenous variable and instruments the W-lags, up to
     the requested order, of the exogenous variables (and of additional instruments exactly when requested), including
     under spatial lags of X. Predictions use the reduced form (I - rho W)^-1(X beta) (predy_e, e_pred), rho is
     the last coefficient, and the instrument labels name the columns actually used.""",
     IC, "all data and W, lag orders of W and of X, lag_q, extra endogenous variables, slx masks",
     SAMPLE + "higher lag orders, masks and lag_q combinations are never exercised together.",
     "twosls_sp.py utils.py user_output.py sputils.py", [("BaseGM_Lag", "twosls_sp.py"), ("GM_Lag", "twosls_sp.py"), ("set_endog", "utils.py"), ("spdot", "sputils.py")])

prop("C05", "Every output table row carries the right label, estimate and inference",
     """For every estimator, the rows of the output table pair each coefficient with the name of the variable whose
     column it multiplies, together with that coefficient's own standard error, statistic and p-value, in equation and
     regime order, and the table, the coefficient vector and the covariance agree. The printed summary shows the same rows with the
     same values, and its header and test lines show the fit's own statistics; so do the covariance matrix, the lists
     of instruments and the variance inflation factors where they are printed.""",
     IC, "all estimators and option combinations that change the set or order of columns (dropped constants, lags, regimes, equations, names given by user or frame)",
     SAMPLE + "the tests hardly read the table and do not parse the summary.",
     "output.py user_output.py ols.py twosls.py twosls_sp.py ml_lag.py ml_error.py error_sp.py error_sp_het.py error_sp_hom.py probit.py",
     [("output", "output.py"), ("_summary_*", "output.py"), ("set_name_*", "user_output.py")])

prop("C06", "Regime models: block design, restrictions and separate fits are equivalent",
     """A regime model estimates exactly the model whose regressors are the regime-interacted columns for the variables
     allowed to vary and single columns for the others, whatever the order of observations or the kind of regime labels. When
     every coefficient varies, its estimates equal those of separate fits on each regime's observations, and fitted values and
     residuals stay in the caller's observation order.""",
     IC, "all data, regime vectors (labels, interleavings, sizes), constant_regi, cols2regi subsets; OLS, 2SLS and spatial-lag 2SLS",
     SAMPLE + "regimes there are one two-valued column and the switches are mostly at their defaults.",
     "regimes.py ols_regimes.py twosls_regimes.py twosls_sp_regimes.py",
     [("Regimes_Frame", "regimes.py"), ("x2xsp", "regimes.py"), ("OLS_Regimes", "ols_regimes.py"), ("TSLS_Regimes", "twosls_regimes.py"), ("GM_Lag_Regimes", "twosls_sp_regimes.py")])

prop("C07", "Chow tests are the Wald tests of coefficient equality across regimes",
     """The per-coefficient Chow tests and the joint test of a regime model are the Wald statistics, with the right degrees of freedom and chi-square p-values, of the
     hypotheses that the (single, all) coefficients allowed to vary are equal across all regimes, computed from that
     model's reported coefficients and covariance. They do not depend on which regime is listed first.""",
     IC, "all regime estimators, regime counts, varying/constant splits and lag/error separations",
     SAMPLE + "only two or three regimes with one layout are compared.",
     "regimes.py", [("Chow", "regimes.py"), ("wald_test", "regimes.py"), ("buildR", "regimes.py"), ("buildR1var", "regimes.py")])

prop("C08", "Regime separation restricts W to each regime; parallel equals serial",
     """With separate errors or lags per regime, each regime's model is the non-regime estimator applied to that regime's
     observations with the weights restricted to that regime (and re-standardised as documented), and its results sit
     under that regime's key and at that regime's positions of the stacked vectors. Using several cores gives the
     same result as one core, under any process schedule.""",
     "inputs configurations schedules", "all data, regime partitions, estimators with regime_err_sep / regime_lag_sep, robust options, worker completion orders",
     "The tests run single-process on fixed data with few partitions and never compare parallel with serial.",
     "ols_regimes.py twosls_regimes.py twosls_sp_regimes.py regimes.py error_sp_regimes.py ml_lag_regimes.py ml_error_regimes.py",
     [("w_regime", "regimes.py"), ("_work*", "ols_regimes.py"), ("_optimal_weight", "ols_regimes.py")])

prop("C09", "Spatial diagnostics are the published statistics of the fitted residuals",
     """Every reported LM, robust LM, SARMA, Moran's I (with its expectation and variance), Anselin-Kelejian, Koley-Bera
     spatial Durbin and common-factor statistic equals its published formula evaluated at the fit's residuals,
     regressors and W, with the matching p-value. Requesting diagnostics does not change the estimates.""",
     IC, "all data and W (symmetric or not, row-standardised or not), OLS/2SLS/spatial-lag models, slx lag orders",
     SAMPLE + "the formulae are checked at one residual vector and W.",
     "diagnostics_sp.py", [("LMtests", "diagnostics_sp.py"), ("MoranRes", "diagnostics_sp.py"), ("AKtest", "diagnostics_sp.py"), ("comfac_test", "diagnostics_sp.py")])

prop("C10", "Non-spatial diagnostics are the published statistics",
     """Every reported Jarque-Bera, Breusch-Pagan, Koenker-Bassett, White, F, R2, likelihood-ratio, VIF/tolerance,
     condition-number, AIC/Schwarz and Durbin-Wu-Hausman value equals its published formula for the fit, with matching
     degrees of freedom and p-value.""",
     IC, "all OLS and 2SLS fits",
     SAMPLE + "each formula is compared at one data point.",
     "diagnostics.py diagnostics_tsls.py", [("breusch_pagan", "diagnostics.py"), ("white", "diagnostics.py"), ("jarque_bera", "diagnostics.py"), ("koenker_bassett", "diagnostics.py"), ("vif", "diagnostics.py"), ("dwh", "diagnostics.py")])

prop("C11", "GM spatial error (Kelejian-Prucha 98/99) solves its moment problem",
     """The reported lambda minimises the Kelejian-Prucha moment objective at the first-step residuals, and coefficients,
     residuals, fitted values, filtered residuals, covariance and inference are those of (2S)LS on data filtered
     by (I - lambda W), for the models with and without additional endogenous variables or a spatial lag.""",
     IC, "all data and W; GM_Error, GM_Endog_Error, GM_Combo with lag orders, slx and masks",
     SAMPLE + "neither the optimality of lambda nor the algebra around it is tested elsewhere.",
     "error_sp.py utils.py", [("BaseGM_Error", "error_sp.py"), ("BaseGM_Endog_Error", "error_sp.py"), ("BaseGM_Combo", "error_sp.py"), ("_momentsGM_Error", "error_sp.py"), ("optim_moments", "utils.py")])

prop("C12", "Heteroskedasticity-robust GM error model follows Arraiz et al. (2010)",
     """The reported lambda, coefficients, covariance (including lambda's), residuals, and inference of the KP-HET models are those of the published
     multi-step procedure with the requested step-1c and iteration options; iteration stops exactly by the documented
     tolerance/limit rule and the reported iteration count and stopping reason are true.""",
     "inputs configurations histories", "all data and W; GM_Error_Het, GM_Endog_Error_Het, GM_Combo_Het; step1c, max_iter, epsilon, inv_method",
     SAMPLE + "iteration histories other than the converged default are not covered.",
     "error_sp_het.py utils.py", [("BaseGM_Error_Het", "error_sp_het.py"), ("get_vc_het", "error_sp_het.py"), ("get_Omega_GS2SLS", "error_sp_het.py"), ("moments_het", "error_sp_het.py")])

prop("C13", "Homoskedastic GM error model follows Drukker et al. (2013)",
     """The reported lambda, coefficients, covariance (including lambda's), residuals and inference of the KP-HOM models are those of the published
     multi-step procedure for the requested moment version (A1) and iteration options; iteration stops exactly by the
     tolerance/limit rule and the reported iteration count and stopping reason are true.""",
     "inputs configurations histories", "all data and W; GM_Error_Hom, GM_Endog_Error_Hom, GM_Combo_Hom; A1, max_iter, epsilon",
     SAMPLE + "iteration histories other than the converged default are not covered.",
     "error_sp_hom.py utils.py", [("BaseGM_Error_Hom", "error_sp_hom.py"), ("moments_hom", "error_sp_hom.py"), ("get_vc_hom", "error_sp_hom.py"), ("get_omega_hom", "error_sp_hom.py")])

prop("C14", "GM error models with regimes equal the pooled block or per-regime model",
     """GM, Het and Hom error models with regimes are the corresponding non-regime estimator applied either to the
     regime-interacted design with one error process, or, with separate errors, to each regime's own data and
     restricted weights; coefficients, lambda(s), covariance, residuals and names follow that layout.""",
     IC, "all data, regime partitions, cols2regi, constant_regi, regime_err_sep, the nine *_Regimes classes",
     SAMPLE + "only two layouts are exercised.",
     "error_sp_regimes.py error_sp_het_regimes.py error_sp_hom_regimes.py", [("GM_Error_Regimes", "error_sp_regimes.py"), ("GM_Error_Het_Regimes", "error_sp_het_regimes.py"), ("GM_Error_Hom_Regimes", "error_sp_hom_regimes.py")])

prop("C15", "Regime ML models equal the ML estimator on the block or per-regime design",
     """ML lag and ML error models with regimes are the non-regime ML estimator applied to the regime-interacted design,
     or to each regime's own data and restricted weights when error/lag separation is requested; parameters, likelihoods,
     covariance, fitted values in both forms, and residuals follow that layout in the caller's order.""",
     IC, "all data, regime partitions, separation and method options",
     SAMPLE + "only one partition is exercised.",
     "ml_lag_regimes.py ml_error_regimes.py", [("ML_Lag_Regimes", "ml_lag_regimes.py"), ("ML_Error_Regimes", "ml_error_regimes.py")])

prop("C16", "ML spatial lag maximises the likelihood; everything follows from rho",
     """The reported rho maximises the concentrated lag-model likelihood; beta, sigma2, log-likelihood, AIC, Schwarz, both
     covariance matrices, fitted values (naive and reduced form), residuals, pseudo-R2 and z statistics are the
     closed-form functions of the data and that rho. Jacobian methods (full, LU, eigenvalue) agree.""",
     IC, "all data, all W (symmetric, asymmetric, row-standardised), methods, slx lags",
     SAMPLE + "neither optimality nor agreement of methods is tested elsewhere.",
     "ml_lag.py", [("BaseML_Lag", "ml_lag.py"), ("lag_c_loglik*", "ml_lag.py")])

prop("C17", "ML spatial error maximises the likelihood; everything follows from lambda",
     """The reported lambda maximises the concentrated error-model likelihood; beta, sigma2, log-likelihood, both covariance
     matrices, fitted values, residuals, filtered residuals and z statistics are the closed-form functions of the data
     and that lambda. Jacobian methods (full, LU, eigenvalue) agree.""",
     IC, "all data, all W, methods, slx lags",
     SAMPLE + "neither optimality nor agreement of methods is tested elsewhere.",
     "ml_error.py", [("BaseML_Error", "ml_error.py"), ("err_c_loglik*", "ml_error.py")])

prop("C18", "SUR and 3SLS are generalised least squares across equations",
     """SUR (two-step and iterated) and 3SLS report the (instrumented) GLS estimates, covariance, residuals, error covariance, correlation and
     likelihood for the stacked system with its estimated error covariance; iterated SUR is a fixed point or hits
     the documented limit. The reported system tests (log-determinant LR, LM, Lagrange-multiplier error/lag, Chow, surjoin) are the published statistics.""",
     "inputs configurations histories", "all equation counts, differing regressor sets, iteration limits, dictionaries built from arrays or frames",
     SAMPLE + "two-equation systems with identical regressors dominate.",
     "sur.py sur_utils.py diagnostics_sur.py", [("BaseSUR", "sur.py"), ("ThreeSLS", "sur.py"), ("sur_estsig", "sur_utils.py"), ("sur_corr", "sur_utils.py")])

prop("C19", "Spatial SUR: lag and error systems follow their definitions",
     """SURlagIV is 3SLS with each equation's own Wy and its W-lag instruments; SURerrorGM's lambda per equation solves that
     equation's moment problem, SURerrorML's lambdas maximise the system likelihood; betas, covariance, residuals and
     tests are the closed-form functions of the data and those parameters.""",
     IC, "all systems, W, lag orders and options",
     SAMPLE + "the estimating conditions themselves are never tested.",
     "sur_lag.py sur_error.py sur_utils.py", [("SURlagIV", "sur_lag.py"), ("BaseSURerrorGM", "sur_error.py"), ("BaseSURerrorML", "sur_error.py")])

prop("C20", "Panel fixed-, random-effects and GM estimators follow their definitions",
     """Pooled, within and random-effects panel estimators, the panel GM error models, and the panel LM/Hausman tests equal their
     published formulas for the balanced panel, and wide and long input layouts of the same panel give the same fit.""",
     IC, "all balanced panels, N and T, layouts, W",
     "Most panel tests need downloaded data and are not part of the stable suite at all.",
     "panel.py panel_fe.py panel_re.py panel_utils.py diagnostics_panel.py sp_panels.py", [("PooledPanel/PanelFE/PanelRE", "panel.py"), ("prepare_panel", "panel_utils.py"), ("panel_LM*", "diagnostics_panel.py"), ("GM_KKP", "sp_panels.py")])

prop("C21", "Panel ML estimators maximise their likelihood",
     """The fixed- and random-effects ML spatial lag and error panel estimators report parameters that maximise their
     likelihood on the demeaned or quasi-demeaned data, and all other reported quantities are the closed-form functions of those parameters.""",
     IC, "all balanced panels and W",
     "Panel tests need downloaded data and are not part of the stable suite.",
     "panel.py panel_fe.py panel_re.py", [("BaseML_LagFE, BaseML_ErrorRE ...", "panel.py"), ("Panel_FE_Lag", "panel_fe.py"), ("Panel_FE_Error", "panel_fe.py"), ("Panel_RE_Lag", "panel_re.py"), ("Panel_RE_Error", "panel_re.py")])

prop("C22", "Probit maximises the likelihood; effects and spatial tests follow",
     """The probit coefficients solve the score equations; log-likelihood, covariance, predictions, fit measures, slopes
     (at means and averaged), their standard errors, the LR test and the spatial dependence tests are the published functions of the
     data and those coefficients.""",
     IC, "all non-separated binary data and W",
     SAMPLE + "one fit only.",
     "probit.py diagnostics_probit.py", [("BaseProbit", "probit.py"), ("sp_tests", "diagnostics_probit.py")])

prop("C23", "Skater regionalisation: valid, connected, greedy-optimal partitions",
     """Every reported partition is obtained by cutting edges of a minimum spanning forest of the weighted contiguity graph, has the requested
     number of connected clusters (plus the components of a disconnected map unless they are ignored; fewer, with a warning, only when no further cut is admissible), respects the quorum, and each cut is the one that most reduces the total score
     among the admissible cuts; the reported scores are the true scores of the partitions, and the weights and data of the caller are left unchanged.""",
     "inputs histories configurations", "all attribute data, connected graphs, cluster counts, quorums, regression or attribute scores",
     "The tests compare labels of one map.",
     "skater_reg.py", [("Skater_reg.fit", "skater_reg.py"), ("score_tree/find_cut", "skater_reg.py")])

prop("C24", "Specification searches follow their decision trees",
     """The classic, Koenker-Bassett/robust and pretest forward searches and the general-to-specific search select, for every combination of test outcomes, the model
     their published decision rules name, and return the corresponding fitted estimator.""",
     "inputs configurations histories", "all combinations of significance outcomes of the tests involved, and thresholds",
     "A data set realises one path through each tree; the tests sample very few.",
     "spsearch.py", [("stge_classic", "spsearch.py"), ("stge_kb", "spsearch.py"), ("stge_pre", "spsearch.py"), ("gets_gns/gets_sdm", "spsearch.py")])

prop("C25", "Inputs are validated and never modified",
     """Every public estimator rejects malformed input (wrong dimensions, non-numeric or non-finite data, missing or mismatched weights,
     too few regimes or observations, wrong robust option) with an error instead of returning results, and no estimator changes the arrays,
     frames, lists or weights it is given.""",
     IC, "all estimators and all single malformations of otherwise valid calls; all valid calls for immutability",
     "The tests check a handful of messages and never check immutability.",
     "user_output.py", [("check_arrays", "user_output.py"), ("check_y", "user_output.py"), ("check_weights", "user_output.py"), ("check_spat_diag", "user_output.py"), ("check_regimes", "user_output.py"), ("check_constant", "user_output.py")])

prop("C26", "One entry point, one model: dispatch never changes the estimate",
     """Passing regimes to a base estimator gives the same results as calling the corresponding regime class with the same
     options, and the general GM_Error front end gives the same results as the estimator it selects (from estimator,
     endogenous variables, and add_wy).""",
     IC, "all dispatching front ends and their options",
     "The tests check that attributes exist rather than equality over options.",
     "ols.py twosls.py twosls_sp.py error_sp.py ml_lag.py ml_error.py", [("GM_Error", "error_sp.py"), ("OLS.__init__ regimes branch", "ols.py")])

prop("C27", "Impacts, multipliers and spatial filters match the exact inverse",
     """Direct, indirect and total impacts (simple, full and power methods), spatial multipliers, lag-model predictions,
     truncated power expansions and filtered variables equal the functions of (I - rho W)^-1 that define them.""",
     IC, "all rho inside the parameter space, all W, SAR/SDM/SLX models, orders and thresholds",
     SAMPLE + "one rho and one W.",
     "sputils.py utils.py output.py", [("_sp_effects", "sputils.py"), ("_spmultiplier", "sputils.py"), ("inverse_prod/power_expansion", "utils.py"), ("_summary_impacts", "output.py")])

prop("C28", "NSLX uses the distance-decay weights it reports",
     """The nonlinear SLX model builds its weights from the coordinates (k nearest neighbours within the bound, distances scaled by the
     farthest one, Euclidean or arc), reports names in order, coefficients and decay parameters that minimise the residual sum of
     squares under its transforms, fitted values and likelihood statistics of that optimum, and the block-diagonal covariance
     (cross products of x; of the derivatives with respect to the decay parameters; or the optimiser's inverse Hessian on request).""",
     IC, "all coordinates, transforms, K, distance bounds",
     "The tests for this model need downloaded data and are not in the stable suite.",
     "nslx.py w_utils.py", [("BaseNSLX", "nslx.py"), ("make_wnslx", "nslx.py")])

prop("C29", "Simulated data satisfy their data-generating equations",
     """Every DGP function returns the y that solves its model equation for the given X beta, W, parameters and errors, in
     normal and probit form; the variable makers have the requested shape and distribution parameters; mismatched
     dimensions give no data.""",
     IC, "all inputs, W, models (standard, SLX, lag, error, Durbin, SARMA, GNS) and parameters",
     "The tests use a seed and compare the first values.",
     "dgp.py", [("dgp_*", "dgp.py"), ("make_*", "dgp.py")])

prop("C30", "Estimates do not depend on observation order or on identifiers",
     """Relabelling or permuting the observations (with W, regimes and data permuted alike), permuting columns, or rescaling units changes
     results only by the same permutation or scaling, for every estimator.""",
     IC, "all estimators, permutations, id types and column orders",
     "No test re-runs an estimator on permuted or relabelled data.",
     "utils.py regimes.py user_output.py", [("w.sparse row order", "utils.py"), ("regime_ids", "regimes.py")])

prop("C31", "Sparse and dense code paths, and lazy properties, agree",
     """The sparse/dense helper functions give the dense-algebra result for every mix of sparse and dense arguments, and lazily
     computed properties of a fit equal their definition no matter in which order, or how often, they are read; setting one
     behaves as documented.""",
     "inputs histories", "all operand types and shapes; all read/set orders of the lazy properties",
     "The tests read each property once in one order.",
     "sputils.py utils.py", [("spdot/sphstack/spmultiply", "sputils.py"), ("RegressionPropsY/RegressionPropsVM caches", "utils.py")])

prop("C32", "Endogenous regimes: Skater partition, stopping rule, and the regime model",
     """The endogenous-regime estimators (OLS, TSLS, spatial lag) report the clusters that Skater's greedy cuts of the
     minimum spanning forest of the standardised regressors give under the quorum, in the number requested or, when none
     is, in the number the published stopping rule (optim_k) selects on the sequence of total scores; the reported scores
     are those of the partitions, and every other result is that of the corresponding regime estimator on those clusters
     with the options given. An impossible request is refused with its reason.""",
     "inputs configurations histories", "all maps, data, cluster numbers, quorums, options; all score sequences and windows of the stopping rule",
     "One test fits one endogenous-regime model and compares its coefficients.",
     "ols_regimes.py twosls_regimes.py twosls_sp_regimes.py utils.py skater_reg.py",
     [("OLS_Endog_Regimes", "ols_regimes.py"), ("TSLS_Endog_Regimes", "twosls_regimes.py"), ("GM_Lag_Endog_Regimes", "twosls_sp_regimes.py"), ("optim_k", "utils.py")])

prop("C33", "Diagnostics of models with regimes are those of the model they describe",
     """Every diagnostic attached to a least squares, 2SLS or spatial lag model with regimes is the published statistic of
     that model, in the joint result or in the fit of each regime, and absent where it was not asked for: normality,
     heteroskedasticity, White, F, likelihood and condition number of the pooled interacted regression or of every
     separate regression (White's auxiliary regression without dependent terms); LM, robust LM, SARMA and Moran tests of
     all residuals on the interacted regressors and complete weights; Anselin-Kelejian and common factor tests of the
     2SLS and lag models, pooled or regime by regime, with matching degrees of freedom and p-values.""",
     IC, "all data, W and partitions; constants and variables common or regime-specific, pooled or separate fits, slx lags",
     SAMPLE + "a few diagnostics of one partition of one data set are compared.",
     "diagnostics.py diagnostics_sp.py output.py ols_regimes.py twosls_regimes.py twosls_sp_regimes.py",
     [("white", "diagnostics.py"), ("LMtests", "diagnostics_sp.py"), ("MoranRes", "diagnostics_sp.py"), ("AKtest", "diagnostics_sp.py"), ("OLS_Regimes", "ols_regimes.py"), ("TSLS_Regimes", "twosls_regimes.py"), ("GM_Lag_Regimes", "twosls_sp_regimes.py")])

prop("C34", "Printed reports of systems and panels show the fit",
     """The report of a system of equations (SUR, three-stage least squares, spatial lag and spatial error systems, with or
     without regimes) lists in each equation every coefficient exactly once, regime by regime and those common to the
     regimes last, each with its own label, estimate, standard error, statistic and p-value, the equation's dependent
     variable, size, degrees of freedom and instruments; every test between equations and within an equation is printed
     with the statistic, degrees of freedom and p-value computed for the coefficients its label names, and so are the
     likelihoods and the error correlations. The report of a panel model shows the model's own coefficients, size,
     fit statistics, variance components, tests and covariance matrix.""",
     IC, "all systems (number and size of equations, endogenous variables, regimes, lag common or by regime, ways of giving data and names, diagnostics asked for) and all panel classes and layouts",
     SAMPLE + "no test reads a printed system or panel report.",
     "summary_output.py output.py sur.py sur_lag.py sur_error.py panel.py panel_fe.py panel_re.py sp_panels.py",
     [("summary_coefs_sur", "summary_output.py"), ("summary_diag_sur", "summary_output.py"), ("summary_chow", "summary_output.py"), ("output", "output.py"), ("SURlagIV", "sur_lag.py"), ("GM_Panels", "summary_output.py")])

prop("C35", "Reports name the model and data they show and carry the warnings",
     """The heading of every report (of each regime's report, when the regimes are fitted separately) says which model was estimated:
     the estimator (least squares, 2SLS, spatial lag, spatial error, combined, maximum likelihood with its method, probit; the
     variance assumption HET or HOM; fixed or random effects or pooled; SUR or 3SLS), lags of the regressors exactly when
     there are any, and regimes with the label of the regime reported. Data set, weights, dependent variable and regimes
     variable are those given. Removed constant variables are named in a warning, a spatial lag coefficient
     outside (-1, 1) is warned about, and neither warning appears otherwise.""",
     IC, "all estimators (cross-section with and without regimes, panels, systems), lag orders and selections, methods, names given or not, constant variables",
     SAMPLE + "no test reads a heading or a printed warning.",
     "output.py user_output.py utils.py panel_utils.py summary_output.py ols.py twosls.py twosls_sp.py ml_lag.py ml_error.py error_sp.py error_sp_het.py error_sp_hom.py ols_regimes.py twosls_regimes.py twosls_sp_regimes.py error_sp_regimes.py error_sp_het_regimes.py error_sp_hom_regimes.py ml_lag_regimes.py ml_error_regimes.py panel.py sur.py",
     [("out_part_top", "output.py"), ("check_constant", "user_output.py"), ("sp_att", "utils.py"), ("set_warn", "utils.py"), ("prepare_panel", "panel_utils.py")])

NOTES = {}
HERE = {p["id"] for p in P if os.path.exists(os.path.join(V, "checks", p["id"] + ".py"))}
WHY_NOT = {}


def write():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks = []
    for p in P:
        if p["id"] in HERE:
            checks.append({
                "property": p["id"], "quick_cmd": "python3 checks/%s.py" % p["id"],
                "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % p["id"],
                "technique": "TLA+ specification model-checked with TLC; TLC-enumerated configurations/behaviours replayed in the real code and its recorded observations validated as traces against the specification",
                "level": "model_checking",
                "level_note": p["_note"] or "Exhaustive over the abstract configuration space of the specification (TLC); the real code is bound to it by trace validation on replayed configurations with generated data, to the stated number of digits. Trusts TLC and the 40-digit matrix operators (java/Mat.java), which spec/MatLaws.tla checks."})
    m = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks,
         "not_applicable": [{"property": p["id"], "reason": WHY_NOT.get(p["id"], "check not built yet (work in progress)")}
                            for p in P if p["id"] not in HERE],
         "notes": "TLA+/TLC; see DESIGN.md. No hooks in /repo are needed: observations are public attributes."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    write()
