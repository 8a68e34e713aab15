"""Per property: (oracle, why beyond the tests)"""
NOTES = {
"C01": ("a recount of the training rows with an independent bin locator; totals, per-bin counts, special groups, others bin, weights",
        "loss or double counting of rows needs a particular combination of pure prebins, special layout, missing, weights; tests fit one clean dataset per option"),
"C02": ("documented formulas evaluated in `mc/ref.py` on the recount (WoE, IV, JS, hellinger, triangular, Gini, KS, HHI, Cramer's V, quality score, chi2/fisher/Bayes tests)",
        "formulas differ only at empty classes, dict specials, single bins"),
"C03": ("documented formulas for means, deviations, min/max/zeros, one-vs-rest WoE/IV/JS, t-tests, quality scores",
        "as C02, for continuous and multiclass tables"),
"C04": ("lookup of the row of the binning table that contains the value (locator written from the meaning of the splits)",
        "boundary values, neighbours of a split, unseen/special/missing values and every metric combination are a product no test samples"),
"C05": ("each constraint re-evaluated on a recount of the returned bins (sizes, counts, number of bins, p-values, minimum differences, ten trends)",
        "a constraint that is dropped only in combination with another one or with one solver"),
"C06": ("all 2^(n-1) groupings of the prebins: best admissible divergence, emptiness of the admissible set",
        "a cut that removes the optimum only for some count vectors leaves every test green"),
"C07": ("as C06 for the continuous objective and the multiclass sum of IVs", "as C06"),
"C08": ("exact recomputation (rationals, convex hull) of the published decision trees; metamorphic: special/missing rows, affine maps of x",
        "leaves of the trees reached by unusual record shares only"),
"C09": ("independent quantile / uniform / MDLP / CART references; refinement rule",
        "ties, repeated values and degenerate prebins"),
"C10": ("a fresh object given the same data (histories, permutations, integer weights = repeated rows, containers)",
        "stale state appears only after particular histories"),
"C11": ("the object itself before serialisation; all strict prefixes of the file are rejected atomically",
        "torn files and mixed histories of two objects are never tested"),
"C12": ("exhaustive search over groupings admissible in all scenarios; recount per scenario", "two tests exist for the whole class"),
"C13": ("point location over the plane (every region and boundary), recount per rectangle, lookup",
        "rectangles that overlap or leave gaps only for some solver solutions"),
"C14": ("all partitions of the grid into rectangles (322 for 3x3)", "as C06 in two dimensions"),
"C15": ("own evaluation of the piecewise polynomial, bounds, continuity, trend; closed-form least squares where known",
        "depends on degree x continuity x trend x bounds combinations"),
"C16": ("the list of the values added (exact ranks)", "approximation bounds under every merge tree cannot be sampled"),
"C17": ("recount of the stream; one-shot sketch; exhaustive groupings", "distribution and order of chunks, merges and solves"),
"C18": ("standalone binning objects per column; reference selection", "combination of process and per-variable options, update histories, disk chunks"),
"C19": ("standalone sketches per column; recount; reference selection", "as C17/C18"),
"C20": ("definition of points, scaling, rounding applied to the values the estimator sees; exhaustive rounding search",
        "scorecards are compared with golden numbers for two configurations only"),
"C21": ("recount of scores and bins; formulas of PSI, chi-square, Welch", "empty score bins, special/missing/unknown in actual data"),
"C22": ("the scorecard itself and every combination (pair, triple) of bins", "validity/optimality for every query, objective and constraint"),
"C23": ("detector definitions in exact arithmetic; recount", "ties, constant vectors, degenerate intervals"),
"C24": ("quadratic-time textbook definitions", "ties, single classes, zero targets"),
"C25": ("the sequential fit", "no test controls the schedule"),
"C26": ("the answers of the object before the failed call; the documented domain of each parameter", "every line at which a fit can fail is a different crash point"),
"C27": ("the built table, the tests recomputed from its rows, transform, the constructor defaults, the sizes seen at the call of the MIP solver",
        "figures and printed text are never read by a test"),
}
