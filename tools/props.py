GEN = "Trusts the enumeration bounds listed in DESIGN.md and the reference " \
      "model in mc/ and the check module; every point of the stated space " \
      "is executed on the real code, none is sampled."

p("C01", "c01_partition",
  "Binning tables count every training row exactly once, in the right row",
  "After fitting a 1-dimensional optimal binning (binary, continuous or "
  "multiclass target), the rows of the binning table (bins, special groups, "
  "missing) partition the training rows: each row's (weighted) count, class "
  "counts and target sum/min/max/std equal a recount of exactly the rows whose "
  "value falls in the half-open interval [a, b), the category set, the special "
  "group or the missing bin that labels it. Bins are disjoint, ordered and "
  "cover the domain, and no row is lost or counted twice.",
  ["inputs", "configurations"],
  "every dataset, dtype, special-code layout, pre-binning method, user splits, "
  "category cutoff and integral sample weights",
  "Tests compare tables of one public dataset; loss or double counting needs "
  "particular value/special/missing/pure-bin patterns.",
  [B + "binning.py", B + "continuous_binning.py", B + "multiclass_binning.py",
   B + "preprocessing.py", B + "binning_statistics.py", B + "prebinning.py",
   B + "mdlp.py"],
  [("split_data", B + "preprocessing.py"),
   ("_compute_prebins", B + "binning.py"),
   ("bin_info", B + "binning_statistics.py")], GEN)

p("C02", "c02_binstats",
  "Binary binning table statistics equal their documented definitions",
  "For every fitted binary binning, each row of the binning table (Count %, "
  "Non-event, Event, Event rate, WoE, IV, JS) and the totals equal the "
  "documented formulas computed from the class counts of the rows; rows with "
  "an empty class contribute WoE = IV = JS = 0. The aggregate metrics of the "
  "analysis (IV, Gini, JS, Hellinger, triangular, KS, HHI, normalised HHI, "
  "Cramer's V, chi-square tests, quality score, monotonic trend label) equal "
  "their definitions.",
  ["inputs", "configurations"],
  "every vector of per-bin class counts, special/missing rows and options of "
  "the table (digits, totals)",
  "Tests compare a handful of aggregated numbers of one dataset; zero cells, "
  "special dict rows and permuted counts are not exercised.",
  [B + "binning_statistics.py", B + "metrics.py", B + "transformations.py",
   "optbinning/formatting.py"],
  [("BinningTable.build/analysis", B + "binning_statistics.py"),
   ("divergences", B + "metrics.py")], GEN)

p("C03", "c03_cmstats",
  "Continuous and multiclass table statistics equal their definitions",
  "For every fitted continuous or multiclass binning, each row of the binning "
  "table (Count %, Sum, Std, Mean, Min, Max, Zeros count, WoE, IV; event "
  "counts and rates per class) and the totals equal the documented formulas, "
  "and the metrics of the analysis (IV, WoE, HHI, quality score, "
  "Jensen-Shannon, Cramer's V, significance tests) equal their definitions.",
  ["inputs", "configurations"],
  "every vector of per-bin target samples / class counts",
  "Tests look at a few rows of two public datasets and never analyse the "
  "continuous target (those tests need the network).",
  [B + "binning_statistics.py", B + "metrics.py"],
  [("ContinuousBinningTable, MulticlassBinningTable",
    B + "binning_statistics.py")], GEN)

p("C04", "c04_transform",
  "transform maps every value to the metric of the bin that contains it",
  "For every fitted 1-dimensional binning and every input array, transform "
  "returns, element by element and independently of the other elements, the "
  "metric (WoE, event rate, mean, index, bin label) of the binning-table row "
  "whose bin contains the value; special codes, missing values and unknown "
  "categories get exactly the value requested by metric_special, "
  "metric_missing and cat_unknown (empirical = the metric of their own row). "
  "The input array is left unchanged and its container type is irrelevant.",
  ["inputs", "configurations"],
  "every input vector (split points and their neighbours, infinities, "
  "specials, missing, unseen categories) and metric configuration",
  "Tests transform a few hand-picked values of one dataset.",
  [B + "transformations.py", B + "binning.py", B + "continuous_binning.py",
   B + "multiclass_binning.py"],
  [("transform_*_target", B + "transformations.py"),
   ("bin_categorical", B + "binning_statistics.py")], GEN)

p("C05", "c05_constraints",
  "A returned OPTIMAL/FEASIBLE binning satisfies every constraint requested",
  "If fitting ends with status OPTIMAL or FEASIBLE, the returned bins satisfy "
  "all requested constraints simultaneously: minimum/maximum number of bins, "
  "minimum/maximum bin size, minimum/maximum (non-)events per bin, minimum "
  "event rate (mean) difference between consecutive bins, maximum p-value "
  "under the chosen policy, fixed user splits, and the requested monotonic "
  "trend (ascending, descending, peak, valley, convex, concave and their "
  "heuristic variants). This holds for every solver and target type.",
  ["inputs", "configurations"],
  "every vector of prebin counts and combination of constraints within bounds",
  "Tests check a few constraints one at a time on one dataset where most are "
  "slack.",
  [B + "cp.py", B + "mip.py", B + "continuous_cp.py", B + "multiclass_cp.py",
   B + "multiclass_mip.py", B + "model_data.py", B + "binning.py"],
  [("BinningCP.build_model", B + "cp.py"),
   ("BinningMIP.build_model", B + "mip.py")], GEN)

p("C06", "c06_optimality",
  "Binary binning is optimal among all admissible mergings of the prebins",
  "For a binary target, the binning returned with status OPTIMAL attains the "
  "maximum of the chosen divergence (IV, JS, Hellinger, triangular) over all "
  "groupings of consecutive prebins that satisfy the requested constraints, "
  "and INFEASIBLE is reported only if no grouping satisfies them. The "
  "constraint-programming and mixed-integer solvers agree.",
  ["inputs", "configurations"],
  "every vector of prebin class counts and constraint configuration",
  "Tests compare the two solvers on one dataset; a suboptimal or wrongly "
  "infeasible model is invisible without an exhaustive oracle.",
  [B + "cp.py", B + "mip.py", B + "model_data.py", B + "metrics.py",
   B + "binning.py"],
  [("objective and constraints", B + "cp.py"),
   ("model_data", B + "model_data.py")], GEN)

p("C07", "c07_optimality_cm",
  "Continuous and multiclass binnings are optimal among admissible mergings",
  "For a continuous target the OPTIMAL binning maximises the documented "
  "objective (sum of absolute deviations of bin means, or the documented "
  "norm) and for a multiclass target the sum of the one-vs-rest IVs, over all "
  "groupings of consecutive prebins that satisfy the constraints; INFEASIBLE "
  "is reported only if there is none.",
  ["inputs", "configurations"],
  "every vector of prebin records/sums or class counts and constraint "
  "configuration",
  "Existing tests of the continuous solver need the network and check one "
  "dataset.",
  [B + "continuous_cp.py", B + "multiclass_cp.py", B + "multiclass_mip.py",
   B + "model_data.py", B + "continuous_binning.py",
   B + "multiclass_binning.py"],
  [("ContinuousBinningCP", B + "continuous_cp.py"),
   ("MulticlassBinningCP", B + "multiclass_cp.py")], GEN)

p("C08", "c08_autotrend",
  "Automatic monotonic trends return a binning of a documented trend",
  "With monotonic_trend auto, auto_heuristic or auto_asc_desc the returned "
  "event rates (means) follow one of the trends the mode may select "
  "(ascending or descending; also peak or valley for auto and auto_heuristic), "
  "and the decision depends only on the prebin statistics; the helper "
  "functions that count peaks/valleys and locate the change point agree with "
  "their definitions.",
  ["inputs"], "every vector of prebin class counts or sums",
  "Tests use one dataset per mode.",
  [B + "auto_monotonic.py", B + "binning.py", B + "continuous_binning.py",
   B + "multiclass_binning.py"],
  [("auto_monotonic", B + "auto_monotonic.py")], GEN)

p("C09", "c09_prebinning",
  "Pre-binning honours its limits and user-provided splits",
  "Pre-binning never creates more than max_n_prebins prebins (cart, quantile, "
  "uniform), cart respects min_prebin_size, final splits are a subset of the "
  "prebin splits or of the user splits (rounded to split_digits), user splits "
  "marked as fixed are kept or rejected with an error, and with an IV/JS "
  "divergence no final bin is pure. Splits strictly separate observed values.",
  ["inputs", "configurations"],
  "every dataset, pre-binning method, limit and split list within bounds",
  "Tests use default pre-binning of one dataset.",
  [B + "prebinning.py", B + "mdlp.py", B + "binning.py"],
  [("PreBinning.fit", B + "prebinning.py"), ("MDLP", B + "mdlp.py")], GEN)

p("C10", "c10_purity",
  "Fitting is pure: no dependence on history, row order or the container",
  "fit depends only on its arguments: refitting an object after any sequence "
  "of fits, transforms, table builds and failed fits gives the same result as "
  "a fresh object, permuting the rows or changing the container (list, array, "
  "Series) does not change the result, fit_transform equals fit followed by "
  "transform, unit sample weights equal no weights and integer weights equal "
  "repetition, and neither the inputs nor the constructor parameters are "
  "modified.",
  ["histories", "inputs"],
  "every sequence of operations up to the bound over a set of datasets and "
  "configurations",
  "Each test fits one object once.",
  [B + "binning.py", B + "continuous_binning.py", B + "multiclass_binning.py",
   B + "mdlp.py", B + "preprocessing.py"],
  [("fit state reset", B + "binning.py")], GEN)

p("C11", "c11_json",
  "Saving a fitted binning to JSON and reading it back preserves it",
  "For every fitted 1-dimensional binning, to_json followed by read_json "
  "yields an object whose binning table and transform are identical to those "
  "of the original, for numerical and categorical variables, special codes "
  "and user splits.",
  ["inputs", "configurations"],
  "every fitted binning over the enumerated configurations",
  "One test saves one numerical variable.",
  [B + "binning.py", B + "continuous_binning.py", B + "multiclass_binning.py"],
  [("to_json/read_json", B + "binning.py")], GEN)

p("C12", "c12_scenarios",
  "Scenario-based binning is feasible in, and optimal over, all scenarios",
  "The scenario-based stochastic binning returns splits for which every "
  "scenario satisfies the requested trend and constraints, maximises the "
  "(weighted) expected IV over all mergings of the prebins, and its tables "
  "per scenario count every scenario row once; one scenario, or identical "
  "scenarios, reduce to the deterministic problem.",
  ["inputs", "configurations"],
  "every pair of scenario count vectors and weights within bounds",
  "Tests fit three random scenarios.",
  [B + "uncertainty/binning_scenarios.py", B + "cp.py", B + "model_data.py"],
  [("SBOptimalBinning", B + "uncertainty/binning_scenarios.py")], GEN)

p("C13", "c13_2d",
  "2D binnings partition the plane and transform/table agree with the data",
  "The rectangles of a fitted two-dimensional binning tile the plane: every "
  "pair of clean values lies in exactly one bin; the table counts every row "
  "once (bin, special or missing), the statistics equal a recount, and "
  "transform returns the metric of the bin containing the pair.",
  ["inputs", "configurations"],
  "every dataset on small grids with special/missing combinations, strategies "
  "and solvers",
  "Tests use one dataset, the continuous 2D tests need the network.",
  [B + "multidimensional/binning_2d.py",
   B + "multidimensional/continuous_binning_2d.py",
   B + "multidimensional/transformations_2d.py",
   B + "multidimensional/preprocessing_2d.py",
   B + "multidimensional/model_data_2d.py",
   B + "multidimensional/binning_statistics_2d.py"],
  [("model_data", B + "multidimensional/model_data_2d.py"),
   ("transform_binary_target",
    B + "multidimensional/transformations_2d.py")], GEN)

p("C14", "c14_2dopt",
  "2D binning is optimal among rectangle partitions meeting the constraints",
  "The OPTIMAL two-dimensional binning maximises the divergence (IV and the "
  "others; the deviation objective for continuous targets) over all "
  "partitions of the prebin grid into rectangles that satisfy the number of "
  "bins, bin size and monotonicity constraints, for every solver; INFEASIBLE "
  "only if there is none.",
  ["inputs", "configurations"],
  "every grid of prebin counts up to the bound and constraint configuration",
  "No existing test compares with the true optimum.",
  [B + "multidimensional/cp_2d.py", B + "multidimensional/mip_2d.py",
   B + "multidimensional/model_2d.py",
   B + "multidimensional/model_data_2d.py"],
  [("Binning2D models", B + "multidimensional/cp_2d.py")], GEN)

p("C15", "c15_piecewise",
  "Piecewise binnings evaluate consistently and honour trend and bounds",
  "The fitted piecewise function is continuous or discontinuous as requested, "
  "monotone in the requested direction, within the requested bounds, and "
  "transform evaluates exactly the polynomial of the bin that contains the "
  "value (converted to WoE when asked); special and missing values get the "
  "requested or empirical value, and the table counts every row once.",
  ["inputs", "configurations"],
  "every dataset of the alphabet and combination of degree, continuity, "
  "trend, bounds",
  "Tests fit one dataset; continuous piecewise tests need the network.",
  [B + "piecewise/base.py", B + "piecewise/binning.py",
   B + "piecewise/continuous_binning.py", B + "piecewise/transformations.py",
   B + "piecewise/binning_statistics.py"],
  [("_fit_binning", B + "piecewise/base.py")], GEN)

p("C16", "c16_sketch",
  "Quantile sketches keep their error bound under any add/merge history",
  "For every sequence of add and merge operations, the Greenwald-Khanna "
  "sketch answers quantile queries within eps*n ranks and the t-digest keeps "
  "total weight, range and order; n equals the number of values added and no "
  "operation changes the sketch it merges from.",
  ["histories", "inputs"],
  "every value sequence and merge tree up to the bound",
  "Tests add random data once.",
  [B + "distributed/gk.py", B + "distributed/bsketch.py"],
  [("GK.add/merge/quantile", B + "distributed/gk.py")], GEN)

p("C17", "c17_obsketch",
  "Streaming binning equals batch counts for any partition of the stream",
  "For every way of splitting a data stream into add calls and of merging "
  "sketches, OptimalBinningSketch.solve yields a binning table whose rows "
  "count every streamed row exactly once (bins, special, missing), merged "
  "sketches equal one sketch of all the data, and adding after solving "
  "continues from the full history.",
  ["histories", "inputs"],
  "every partition/merge history of the enumerated streams",
  "Tests add chunks in one order.",
  [B + "distributed/binning_sketch.py", B + "distributed/bsketch.py"],
  [("BSketch.add/merge/bins", B + "distributed/bsketch.py"),
   ("OptimalBinningSketch.solve", B + "distributed/binning_sketch.py")], GEN)

p("C18", "c18_process",
  "BinningProcess bins, selects and transforms each variable independently",
  "A binning process bins every variable exactly as a standalone optimal "
  "binning with the same parameters would, whatever the other variables and "
  "the container; selection keeps exactly the variables that satisfy the "
  "selection criteria; transform returns exactly the selected columns, in "
  "order, equal to the standalone transforms; updating a variable affects "
  "only that variable.",
  ["inputs", "configurations", "histories"],
  "every combination of variables, selection criteria, per-variable "
  "parameters and update histories within bounds",
  "Tests use fixed datasets and one criterion at a time.",
  [B + "binning_process.py"],
  [("BinningProcess._fit/_support_selection_criteria",
    B + "binning_process.py")], GEN)

p("C19", "c19_processsketch",
  "BinningProcessSketch equals per-variable sketches for any stream history",
  "For every partition of a stream of data frames into add calls and every "
  "merge history, the streaming binning process gives each variable the same "
  "table as a standalone sketch fed with that column, counts all rows, and "
  "selects and transforms consistently with its summary.",
  ["histories", "inputs"],
  "every add/merge history of the enumerated frames",
  "Tests stream one dataset in one order.",
  [B + "distributed/binning_process_sketch.py"],
  [("BinningProcessSketch.add/merge/solve",
    B + "distributed/binning_process_sketch.py")], GEN)

p("C20", "c20_scorecard",
  "Scorecard points reproduce the score of every observation",
  "For every fitted scorecard the score of an observation equals the sum of "
  "the points its bins have in the scorecard table plus the intercept, the "
  "scaling (pdo_odds, min_max), rounding and reverse options satisfy their "
  "definitions, predictions equal those of the estimator on the transformed "
  "data, and saving/loading preserves the scorecard.",
  ["inputs", "configurations", "histories"],
  "every observation of the alphabet and combination of scaling, rounding, "
  "intercept, special/missing options",
  "Tests score one dataset with a few scaling options.",
  ["optbinning/scorecard/scorecard.py", "optbinning/scorecard/rounding.py"],
  [("Scorecard._fit/_transform", "optbinning/scorecard/scorecard.py")], GEN)

p("C21", "c21_monitoring",
  "Scorecard monitoring statistics equal their definitions",
  "Population stability index tables and totals, system stability and "
  "variable-level PSI equal the definition computed from the counts of "
  "expected and actual scores per bin, identical populations give PSI 0, and "
  "every actual and expected observation is counted once.",
  ["inputs", "configurations"],
  "every pair of score samples within bounds",
  "Tests check one pair of samples.",
  ["optbinning/scorecard/monitoring.py"],
  [("ScorecardMonitoring._fit_system_stability",
    "optbinning/scorecard/monitoring.py")], GEN)

p("C22", "c22_counterfactual",
  "Counterfactuals are valid, within limits and optimal",
  "Every generated counterfactual reaches the requested outcome according to "
  "the scorecard itself, changes at most max_changes features and only "
  "actionable ones, and with the proximity/closeness objectives is optimal "
  "among all bin combinations; INFEASIBLE only if none qualifies; several "
  "counterfactuals are pairwise different as requested.",
  ["inputs", "configurations"],
  "every query and outcome configuration over a small scorecard",
  "The counterfactual tests need the network.",
  ["optbinning/scorecard/counterfactual/counterfactual.py",
   "optbinning/scorecard/counterfactual/model_data.py",
   "optbinning/scorecard/counterfactual/mip.py"],
  [("CFMIP.build_model", "optbinning/scorecard/counterfactual/mip.py")], GEN)

p("C23", "c23_preprocessing",
  "Outlier detection, category ordering and cutoffs follow their definitions",
  "Range, modified z-score and y-quantile outlier detectors flag exactly the "
  "values their definition excludes, outliers never enter a bin; categories "
  "are ordered by target rate/mean, and categories below cat_cutoff form the "
  "others bin. fix_lb/fix_ub keep exactly the values in range.",
  ["inputs", "configurations"],
  "every small sample and parameter choice",
  "Detector tests are excluded offline; others use one dataset.",
  [B + "outlier.py", B + "preprocessing.py"],
  [("OutlierDetector.fit", B + "outlier.py"),
   ("split_data", B + "preprocessing.py")], GEN)

p("C24", "c24_metrics",
  "Classification and regression metrics equal their definitions",
  "gini, ks, the imbalanced classification metrics and the regression metrics "
  "equal their mathematical definitions for every label/score vector.",
  ["inputs"], "every label and score vector up to the bound",
  "No test covers the metrics directly.",
  ["optbinning/metrics/classification.py", "optbinning/metrics/regression.py"],
  [("metrics", "optbinning/metrics/classification.py")], GEN)

p("C25", "c25_parallel",
  "n_jobs does not change the result of a binning process",
  "A binning process fitted with several jobs gives the tables, statuses, "
  "summary, selection and transforms of the sequential fit, for every number "
  "of jobs, container, target and option and every interleaving of its "
  "workers; every variable is fitted exactly once with the options of the "
  "process, and the data are not modified. The number of jobs of 2D binnings "
  "and counterfactuals does not change the value of the solution.",
  ["schedules", "configurations"],
  "every number of variables and jobs within bounds, every interleaving of "
  "the workers up to a preemption bound",
  "One test uses n_jobs=2 on one dataset under whatever schedule occurs.",
  [B + "binning_process.py", B + "multidimensional/binning_2d.py"],
  [("_fit_variable, _fit_block", B + "binning_process.py")], GEN)

p("C26", "c26_lifecycle",
  "Objects reject use before fit and invalid parameters, and stay usable",
  "Every public object raises a NotFitted/NotSolved/NotGenerated error (never "
  "a wrong answer) when an operation that needs a fit is called before one, "
  "rejects values outside the documented domain of each parameter with an "
  "exception and accepts those at its limits; a call that fails, by invalid "
  "arguments or by an exception at any point of the fit, leaves a fitted "
  "object answering as before and a later fit gives what a new object gives; "
  "statistics, plots and analysis of a binning table require build first and "
  "do not depend on the order of the calls.",
  ["histories", "configurations", "crash points"],
  "every object, invalid value and source line at which a fit can fail, every "
  "sequence of operations up to the bound",
  "Tests try a few invalid parameters on fresh objects.",
  [B + "base.py", B + "binning.py", B + "binning_process.py",
   "optbinning/scorecard/scorecard.py"],
  [("restore_if_fails, _check_is_fitted", B + "base.py"),
   ("_check_parameters", B + "binning.py")], GEN)

p("C27", "c27_reports",
  "Plots and printed reports show the numbers of the fitted object",
  "The figure drawn by the plot of a binning table (1D, 2D, piecewise) and by "
  "psi_plot and plot_progress shows, for every combination of its arguments, "
  "exactly the rows of the built table: bar heights are the counts, points, "
  "cells and curves are the chosen metric of that bin, labels, hatches and "
  "legend belong to their bar, hidden rows are absent. The text printed by "
  "analysis, system_stability_report and information shows the values of the "
  "object: metrics, tests between neighbouring bins, classification of the "
  "PSI and p-values, status, numbers of records, variables and operations, "
  "size of the model, and the value of each option with its flag (d default, "
  "U set by the user).",
  ["inputs", "configurations", "histories"],
  "every table of a grid times every combination of plot arguments, every "
  "class times option times alternative value, every add/solve history up to "
  "a length",
  "No test looks at a figure or at the printed text; plots are only called.",
  [B + "binning_statistics.py", "optbinning/information.py",
   B + "multidimensional/binning_statistics_2d.py",
   B + "piecewise/binning_statistics.py", "optbinning/scorecard/monitoring.py"],
  [("plot, analysis", B + "binning_statistics.py"),
   ("print_optional_parameters, solver_statistics",
    "optbinning/information.py")], GEN)
