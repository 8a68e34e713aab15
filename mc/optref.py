"""Brute force oracle: best grouping of consecutive prebins under constraints.

Written from the documentation of the parameters, independent of /repo.
"""
import math

from scipy import stats

from mc import ref

TOL = 2e-5
# margin demanded from the groupings a solver may not miss: the constraint
# programming model keeps exact ties, the MIP sums floats without tolerance
STRICT = {"cp": -5e-6, None: -5e-6, "mip": -2e-5}


def sums(cells, g):
    return [(sum(cells[k][0] for k in range(a, b)),
             sum(cells[k][1] for k in range(a, b))) for a, b in g]


def proportions_pvalue(e1, n1, e2, n2):
    """two-sided z-test for equality of two proportions"""
    p = (e1 + e2) / (n1 + n2)
    v = p * (1 - p) * (1 / n1 + 1 / n2)
    if v == 0:
        return 1.0
    z = (e1 / n1 - e2 / n2) / math.sqrt(v)
    return 2 * (1 - stats.norm.cdf(abs(z)))


def all_triples_convex(v, eps):
    n = len(v)
    return all(v[i] + v[k] - 2 * v[j] >= -eps for i in range(n)
               for j in range(i) for k in range(j))


def pairs(n, policy):
    if policy == "consecutive":
        return [(i, i + 1) for i in range(n - 1)]
    return [(i, j) for j in range(n) for i in range(j)]


def trend_ok(trend, v, eps, g=None, tc=None):
    if trend in (None, "auto", "auto_heuristic", "auto_asc_desc"):
        return True
    if -1e-5 < eps < 0 and trend not in ("convex", "concave"):
        eps = 0.0  # equal fractions are equal floats: ties are exact
    if trend in ("peak_heuristic", "valley_heuristic") and tc is not None:
        # documented heuristic: the change point is fixed in advance at the
        # extreme prebin; bins ending before it go one way, the rest back
        left = [r for r, (_, b) in zip(v, g) if b - 1 < tc]
        right = [r for r, (_, b) in zip(v, g) if b - 1 >= tc]
        if trend == "peak_heuristic":
            return ref.asc(left, eps=eps) and ref.desc(right, eps=eps)
        return ref.desc(left, eps=eps) and ref.asc(right, eps=eps)
    if trend in ("convex", "concave") and tc == "all":
        w = v if trend == "convex" else [-a for a in v]
        return all_triples_convex(w, eps)
    return ref.TREND[trend](v, eps=eps)


def change_point(trend, rate):
    """what `tc` the trend needs, given the statistics of the prebins"""
    if trend == "peak_heuristic":
        return rate.index(max(rate))
    if trend == "valley_heuristic":
        return rate.index(min(rate))
    if trend in ("convex", "concave"):
        return "all"
    return None


def common(c, n_total, size, n_bins, g, fixed_n, eps=0.0):
    """constraints on number of bins, bin sizes and fixed splits"""
    if c.get("min_n_bins") is not None and n_bins < c["min_n_bins"]:
        return "min_n_bins"
    if c.get("max_n_bins") is not None and n_bins > c["max_n_bins"]:
        return "max_n_bins"
    if c.get("min_bin_size") is not None and any(
            s < c["min_bin_size"] * n_total for s in size):
        return "min_bin_size"
    if c.get("max_bin_size") is not None and any(
            s > (math.ceil if eps >= 0 else math.floor)(
                c["max_bin_size"] * n_total) for s in size):
        return "max_bin_size"
    if c.get("fixed"):
        ends = {b for _, b in g}
        for i, f in enumerate(c["fixed"]):
            if f and i + 1 < fixed_n + 1 and (i + 1) not in ends:
                return "fixed"
    return None


def binary_violation(c, bins, g, n_total, n_pre, eps=1e-9, tc=None):
    """name of the first violated constraint or None.

    bins: [(nonevent, event)]; eps > 0 relaxes, eps < 0 demands a margin
    (near ties are left to the rounding of the solver)."""
    ne = [b[0] for b in bins]
    e = [b[1] for b in bins]
    size = [a + b for a, b in bins]
    v = common(c, n_total, size, len(bins), g, n_pre - 1, eps)
    if v:
        return v
    for key, arr, op in (("min_bin_n_event", e, 1), ("max_bin_n_event", e, -1),
                         ("min_bin_n_nonevent", ne, 1),
                         ("max_bin_n_nonevent", ne, -1)):
        if c.get(key) is not None and any(
                op * a < op * c[key] for a in arr):
            return key
    if c.get("divergence") in ("hellinger", "triangular") and c.get("zeros"):
        if any(a == 0 for a in e) or any(a == 0 for a in ne):
            return "pure"
    rate = [b / s for b, s in zip(e, size)]
    t = c.get("monotonic_trend")
    if not trend_ok(t, rate, eps, g, tc):
        return "monotonic_trend"
    d = c.get("min_event_rate_diff", 0)
    if d:
        for i in range(len(rate) - 1):
            if abs(rate[i] - rate[i + 1]) < d - eps:
                return "min_event_rate_diff"
    if c.get("max_pvalue") is not None:
        for i, j in pairs(len(bins), c.get("max_pvalue_policy",
                                           "consecutive")):
            if proportions_pvalue(e[i], size[i], e[j], size[j]) > \
                    c["max_pvalue"] + eps:
                return "max_pvalue"
    return None


def binary_objective(c, bins):
    te = sum(b[1] for b in bins)
    tne = sum(b[0] for b in bins)
    f = ref.DIV[c.get("divergence", "iv")]
    v = sum(f(e / te, ne / tne) for ne, e in bins)
    if c.get("gamma"):
        size = [a + b for a, b in bins]
        v -= c["gamma"] / (te + tne) * (max(size) - min(size))
    return v


def best(objs):
    return max(objs) if objs else None


# --- continuous target ---------------------------------------------------
# a cell is the tuple of target values of the prebin

def csums(cells, g):
    return [tuple(v for k in range(a, b) for v in cells[k]) for a, b in g]


def mean(v):
    return sum(v) / len(v)


def pstd(v):
    m = mean(v)
    return math.sqrt(max(sum(a * a for a in v) / len(v) - m * m, 0.0))


def welch_pvalue(a, b):
    return float(stats.ttest_ind_from_stats(
        mean(a), pstd(a), len(a), mean(b), pstd(b), len(b), False)[1])


def continuous_violation(c, bins, g, n_total, n_pre, eps=1e-9, tc=None):
    size = [len(b) for b in bins]
    v = common(c, n_total, size, len(bins), g, n_pre - 1, eps)
    if v:
        return v
    m = [mean(b) for b in bins]
    if not trend_ok(c.get("monotonic_trend"), m, eps, g, tc):
        return "monotonic_trend"
    d = c.get("min_mean_diff", 0)
    if d and any(abs(m[i] - m[i + 1]) < d - eps for i in range(len(m) - 1)):
        return "min_mean_diff"
    if c.get("max_pvalue") is not None:
        for i, j in pairs(len(bins), c.get("max_pvalue_policy",
                                           "consecutive")):
            if welch_pvalue(bins[i], bins[j]) > c["max_pvalue"] + eps:
                return "max_pvalue"
    return None


def continuous_objective(c, bins):
    allv = [v for b in bins for v in b]
    t = mean(allv)
    v = sum(abs(mean(b) - t) for b in bins)
    if c.get("gamma"):
        size = [len(b) for b in bins]
        v -= c["gamma"] / len(allv) * (max(size) - min(size))
    return v


# --- multiclass target ---------------------------------------------------
# a cell is the tuple of class counts of the prebin

def msums(cells, g):
    k = len(cells[0])
    return [tuple(sum(cells[i][c] for i in range(a, b)) for c in range(k))
            for a, b in g]


def multiclass_violation(c, bins, g, n_total, n_pre, eps=1e-9, tcs=None):
    size = [sum(b) for b in bins]
    v = common(c, n_total, size, len(bins), g, n_pre - 1, eps)
    if v:
        return v
    k = len(bins[0])
    trend = c.get("monotonic_trend")
    if not isinstance(trend, (list, tuple)):
        trend = [trend] * k
    for q in range(k):
        sub = {"monotonic_trend": trend[q],
               "min_event_rate_diff": c.get("min_event_rate_diff", 0),
               "max_pvalue": c.get("max_pvalue"),
               "max_pvalue_policy": c.get("max_pvalue_policy",
                                          "consecutive")}
        v = binary_violation(
            sub, [(s - b[q], b[q]) for s, b in zip(size, bins)], g, n_total,
            n_pre, eps, tcs[q] if tcs else None)
        if v:
            return "{} of class {}".format(v, q)
    return None


def multiclass_objective(c, bins):
    k = len(bins[0])
    return sum(binary_objective({}, [(sum(b) - b[q], b[q]) for b in bins])
               for q in range(k))
