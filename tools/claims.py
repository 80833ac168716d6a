CLAIMS = {
    "A01": ("interprocedural alias/effect analysis of the AST (abstract interpretation)",
            "Every in-place operation reachable from a public entry is attributed to the storage it may reach. Trusts the alias model of numpy/pandas/scipy calls (which return views, which copies); effects inside third-party code are outside."),
    "A02": ("interprocedural effect analysis: writes to process-wide state (abstract interpretation of the AST)",
            "Every write to module variables, foreign modules, default arguments, class attributes, random state, print options and warning filters reachable from an import or public entry, with must-restore tracking. Effects inside third-party code are outside."),
    "A03": ("interprocedural effect analysis: output calls against the flags that enable them",
            "Every print or stream write reachable from a public entry must be dominated by a documented output flag."),
    "B02": ("option-flow analysis: each accepted option followed into the delegated estimator and into the result (abstract interpretation)",
            "For every route of an estimator (none, regimes, panels, search functions) an accepted option must be handed on, influence the result, or be mentioned in a warning; options paired by name must not be swapped. Influence is decided on value terms, so it over-approximates: an option that only feeds an unused value counts as used."),
    "B03": ("unsupported-value re-analysis of every option site (abstract interpretation)",
            "Each entry is analysed with one option bound to a value outside its documented set and all data unknown; every path must end in an exception, in None (data generators) or in a result carrying a warning text that a supported value does not produce. Which options are enumerated, and their fallbacks, is a table in the check."),
    "B04": ("definedness and call-signature analysis with option-scenario re-analysis (abstract interpretation)",
            "Undefined uses found on the symbolic run are confirmed by re-analysing the entry under the documented option values that lead there; a violation is reported only when every path then ends in the accidental error. Data-dependent failures (shapes, singularity) are outside."),
    "C01": ("relational effect analysis: serial and worker-pool routes analysed with copied task state, result compared attribute by attribute (abstract interpretation)",
            "Every estimator with a cores option is analysed with cores False and True for each option at each documented value (two and three named regimes, and regimes given by a variable); a pool task works on a copy of its arguments. Base estimators are uninterpreted functions of their arguments. The completion order is immaterial in the model because results are collected per task; that is checked by the value terms, not assumed."),
    "B01": ("ill-formed input analysis: every estimator re-analysed per kind of ill-formed argument, all other data unknown (abstract interpretation with an input-shape domain)",
            "Each route (plain, endogenous, lagged regressors, regimes common or separate) must raise before a computational class is entered, for each of some thirty kinds of ill-formed data, weights and regimes; the checks must hand well-formed data through unchanged. One representative size per shape; pandas input is B06; SUR and nonlinear SLX are outside."),
    "B05": ("condition-cell analysis: every branch on the spatial coefficient decided per cell of the partition of the line at -1 and 1 (abstract interpretation)",
            "Each spatial lag and combo estimator is analysed once per cell (inside, boundary, outside) with all data unknown; a warning text or, with hard_bound, an exception must appear exactly in the outer cells. The coefficient is recognised as an element taken from the end of the coefficient vector. Estimators by maximum likelihood are bounded by their optimizer and outside."),
    "B06": ("relational analysis of two input representations: every estimator analysed with arrays and with stand-ins of the pandas classes, all result attributes compared as value terms (abstract interpretation)",
            "Styles: Series, one-column and several-column data frames, wide panels, one-dimensional arrays. The stand-ins model the part of the pandas interface the library uses. SUR, NSLX and ML_ErrorPooled, which do not document pandas input, are outside; GM_KKP does not document a Series or regimes."),
    "D18": ("relational analysis of read histories: every order of reading and assigning computed properties, and every pair of diagnostics, compared as value terms (abstract interpretation)",
            "Histories of length two on every class with properties (and longer ones for diagnostics sharing a store). The fitted model is symbolic."),
    "D19": ("decision-table analysis: each search analysed once per cell of the space of test outcomes, with models and tests as stand-ins (abstract interpretation)",
            "The cells cover each test significant or not, ties, every least significant coefficient, and each model inside or outside its bounds, for two regressors; the decision tables are written from the documentation. p-values exactly equal to the threshold are left open. The statistics themselves are D02 and D06."),
}
REL = "relational value analysis: interprocedural abstract interpretation of the AST to value terms, matrix-algebra normal form, term equality with a reference formula"
RNOTE = ("The value term each entry computes is compared with the term of a written-down formula for unbounded symbolic data, per listed option setting. Trusts the normal form (exact real arithmetic, shape "
         "declarations, numpy/scipy call models). Pairs with constructs outside the normal form are undecided and listed in the evidence, not alarms. ")
for _i, _n in {
    "D01": "The names, kinds, regimes and order of the rows are compared with a written-down table and the number and order of design columns with the names. Two exogenous variables, two further endogenous ones, two regimes; SUR names are not covered.",
    "D02": "", "D03": "Estimators that set predictions or residuals through a loop over regimes are outside.",
    "D04": "", "D05": "", "D06": "", "D07": "",
    "D09": "The minimizer of the moment conditions is a symbol. Helper functions that have a formula of their own are compared by their arguments first and multiplied out when that is not enough.",
    "D10": "Regimes estimators that build the lags of each regime are outside.", "D16": "", "D17": "",
    "D11": "", "D12": "The optimizer is a symbol.", "D13": "Decided for two and three equations (numbers of rows and regressors unbounded). The optimizer of the likelihood is a symbol.",
    "D14": "The optimizers are symbols. Wide data is decided for two periods and two variables. Iterated random effects lag estimation is decided for one and two rounds.",
    "D15": "Decided for listed lists of regimes (labels, orders and sizes) with unbounded data values; checks of the restrictions for listed numbers of regimes and regressors.",
    "C02": "Decided for two lists of regimes (two and three regimes, interleaved, unbounded data values), one regressor and every estimator with separate regimes. Panels have none.",
    "D08": "The optimizer is a symbol: the objective it is given, its bounds and tolerance are compared, not its convergence. Regimes estimated one by one are outside.",
}.items():
    CLAIMS[_i] = (REL, RNOTE + _n)
NA = {
    "E01": "Whether an iterative optimizer reaches the global optimum is a numerical run-time quantity; no static argument in reach bounds it.",
    "E02": "Floating-point accuracy and conditioning depend on run-time values.",
    "E03": "Consistency and test size are probabilistic statements about distributions, not visible in the source.",
    "E04": "Connectivity and size of the regions depend on run-time graph searches and scores; the loop invariants are not decidable from the shape of the code.",
}
