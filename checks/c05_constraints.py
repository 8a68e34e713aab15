"""C05: a returned binning satisfies every requested constraint."""
import itertools

from mc import optdrive, optref

PROPERTY = "C05"
RULE = ("Every vector of prebin cells over a small alphabet x every single "
        "constraint, pair of constraints and monotonic trend x solver is "
        "solved by the real OptimalBinning, ContinuousOptimalBinning and "
        "MulticlassOptimalBinning; the bins returned with status OPTIMAL or "
        "FEASIBLE are recounted and every constraint is evaluated on them by "
        "an independent implementation.")
ASSUMPTIONS = ["prebin cells limited to the listed alphabets (3 to 5 prebins)",
               "solver 'ls' needs a commercial library that is not installed"]

TR = ["ascending", "descending", "concave", "convex", "peak", "valley",
      "peak_heuristic", "valley_heuristic", None]
BA = [(1, 1), (3, 1), (1, 4), (5, 2), (2, 3)]
ZA = [(2, 0), (0, 2), (1, 2), (3, 1)]
CA = [(1.0, 2.0), (-3.0, -1.0, -2.5), (5.0,), (0.0, 4.0), (-6.0, 1.0)]
MA = [(1, 1, 1), (3, 1, 1), (1, 2, 4), (1, 3, 1)]

BC = [("min_n_bins", 3), ("max_n_bins", 2), ("min_bin_size", 0.25),
      ("max_bin_size", 0.5), ("min_bin_n_event", 3), ("max_bin_n_event", 5),
      ("min_bin_n_nonevent", 3), ("max_bin_n_nonevent", 5),
      ("min_event_rate_diff", 0.15), ("max_pvalue", 0.5),
      ("max_pvalue_policy", "all"), ("gamma", 0.3), ("divergence", "js")]
CC = [("min_n_bins", 3), ("max_n_bins", 2), ("min_bin_size", 0.25),
      ("max_bin_size", 0.5), ("min_mean_diff", 2.0), ("max_pvalue", 0.4),
      ("max_pvalue_policy", "all"), ("gamma", 3.0)]
MC = [("min_n_bins", 3), ("max_n_bins", 2), ("min_bin_size", 0.25),
      ("max_bin_size", 0.5), ("min_event_rate_diff", 0.1),
      ("max_pvalue", 0.6), ("max_pvalue_policy", "all")]
MT = [None, ("ascending", "descending", None), ("peak", "valley", "auto"),
      ("peak_heuristic", "valley_heuristic", None),
      ("valley_heuristic", None, "peak_heuristic"), ("convex", None, None),
      (None, "concave", "convex")]
CAT = ["c%d" % i for i in range(6)]


def combos(C, r):
    out = []
    for k in range(r + 1):
        for s in itertools.combinations(C, k):
            d = dict(s)
            if "max_pvalue_policy" in d and "max_pvalue" not in d:
                if k == r and r > 1:
                    continue
                d["max_pvalue"] = 0.5
            if d.get("min_n_bins", 0) > d.get("max_n_bins", 99):
                continue
            if d not in out:
                out.append(d)
    return out


def tasks(tier):
    q = tier == "quick"
    B3 = list(itertools.product(BA[:3], repeat=4))
    B = B3 if q else list(itertools.product(BA, repeat=4))
    for cells in B:
        for tr in TR:
            for c in combos(BC, 1):
                for s in ("cp", "mip"):
                    if q and s == "mip" and (cells[0] == cells[1] or
                                             cells[2] == cells[3]):
                        continue
                    yield ["binary", cells, dict(c, monotonic_trend=tr), s, 0]
    for cells in list(itertools.product(BA[1:4], repeat=4))[::1]:
        for tr in ([None, "ascending", "peak"] if q else TR):
            if q and tr is not None and (cells[0] == cells[1] or
                                         cells[1] == cells[2]):
                continue
            for c in combos(BC, 2):
                if len(c) == 2:
                    yield ["binary", cells, dict(c, monotonic_trend=tr),
                           "cp", 0]
    # missing and special rows enter the number of samples, not the bins
    for cells in B3:
        for c in combos(BC, 1):
            yield ["binary", cells, dict(c, monotonic_trend=None), "cp", 1]
    # fixed user splits
    for cells in B3 if q else B:
        for fixed in itertools.product([0, 1], repeat=3):
            if any(fixed):
                for tr in (None, "ascending", "valley"):
                    for s in ("cp", "mip"):
                        if q and s == "mip" and tr is not None:
                            continue
                        yield ["binary", cells,
                               {"monotonic_trend": tr,
                                "fixed": [bool(f) for f in fixed]}, s, 0]
    # empty classes with the divergences that admit them as prebins
    for cells in itertools.product(ZA, repeat=4 if q else 5):
        if not all(sum(c[k] for c in cells) for k in (0, 1)):
            continue
        for div in ("hellinger", "triangular"):
            for c in ({}, {"max_n_bins": 2}, {"min_bin_size": 0.25},
                      {"monotonic_trend": "ascending"},
                      {"monotonic_trend": "peak"}, {"min_bin_n_event": 2}):
                yield ["binary", cells,
                       dict({"monotonic_trend": None}, divergence=div,
                            zeros=1, **c), "cp", 0]
    # continuous
    for cells in itertools.product(CA[:3] if q else CA, repeat=4):
        for tr in TR:
            for c in combos(CC, 1):
                yield ["continuous", cells, dict(c, monotonic_trend=tr),
                       None, 0]
    for cells in itertools.product(CA[1:4], repeat=4):
        for tr in ([None] if q else TR):
            for c in combos(CC, 2):
                if len(c) == 2:
                    yield ["continuous", cells, dict(c, monotonic_trend=tr),
                           None, len(c) % 2]
    # multiclass
    for cells in itertools.product(MA[:3] if q else MA, repeat=4):
        for tr in MT:
            for c in combos(MC, 1):
                for s in ("cp", "mip"):
                    if q and s == "mip" and cells[0] == cells[1]:
                        continue
                    yield ["multiclass", cells, dict(c, monotonic_trend=tr),
                           s, 0]
    # categorical: the bins are ordered by rate
    for cells in itertools.product(BA[:4], repeat=4):
        if q and cells[1] == cells[2]:
            continue
        for c in combos(BC, 1):
            yield ["categorical", cells, c, "cp", 0]


def run(desc, ctx):
    target, cells, c, solver, extra = desc
    cells = [tuple(a) for a in cells]
    if target == "categorical":
        return run_cat(cells, c, ctx)
    ex = []
    if extra:
        nan = float("nan")
        ex = [(nan, 1), (nan, 0), (nan, 1), (-99.0, 0), (-99.0, 1)]
    ctx.state([target, cells, c, extra])
    try:
        status, g, n, o = optdrive.fit(target, cells, c, solver, ex)
    except ValueError as e:
        if c.get("fixed") or c.get("zeros"):
            if "user_splits" in str(e):
                ctx.outcome("rejected")
                return ctx.agree()
        raise
    ctx.step()
    ctx.outcome([target, status, len(g)])
    if status not in ("OPTIMAL", "FEASIBLE"):
        ctx.agree()
        return
    eps = optref.TOL
    if target == "binary":
        bins = optref.sums(cells, g)
        v = optref.binary_violation(c, bins, g, n, len(cells), eps)
    elif target == "continuous":
        bins = optref.csums(cells, g)
        v = optref.continuous_violation(c, bins, g, n, len(cells), eps)
    else:
        bins = optref.msums(cells, g)
        v = optref.multiclass_violation(c, bins, g, n, len(cells), eps)
    # without zero cells the solver always ran: prebins reduced to one by
    # refinement are returned without solving
    if v and c.get("zeros") and len(g) == 1 and v != "pure":
        v = None
    ctx.check(v is None, lambda: "{} violated by the bins {} ({})".format(
        v, bins, status), v)
    ctx.agree()


def run_cat(cells, c, ctx):
    from optbinning import OptimalBinning
    import numpy as np
    x, y = [], []
    for i, (ne, e) in enumerate(cells):
        x += [CAT[i]] * (ne + e)
        y += [0] * ne + [1] * e
    ctx.state(["cat", cells, c])
    o = OptimalBinning(dtype="categorical", min_prebin_size=0.001, **c)
    o.fit(np.array(x, dtype=object), np.array(y))
    ctx.step()
    ctx.outcome(["categorical", o.status, len(o.splits)])
    ctx.agree()
    if o.status not in ("OPTIMAL", "FEASIBLE"):
        return
    bins, seen = [], []
    for grp in o.splits:
        idx = [CAT.index(v) for v in grp]
        seen += idx
        bins.append((sum(cells[i][0] for i in idx),
                     sum(cells[i][1] for i in idx)))
    if not bins:
        return
    if not ctx.check(sorted(seen) == list(range(len(cells))),
                     "categories {} lost".format(o.splits), "lost"):
        return
    g = [(i, i + 1) for i in range(len(bins))]
    v = optref.binary_violation(dict(c, monotonic_trend="ascending"), bins, g,
                                len(x), len(cells), optref.TOL)
    ctx.check(v is None, lambda: "{} violated by the bins {} ({})".format(
        v, bins, o.status), v)
