"""C07: OPTIMAL continuous and multiclass binnings are the best mergings."""
import itertools

from mc import optdrive, optref, ref
from checks.c05_constraints import BA, CA, CC, MA, MC, MT, TR, combos

PROPERTY = "C07"
RULE = ("Every vector of prebin cells (target values of the prebin, or class "
        "counts) over a small alphabet x monotonic trend(s) x constraints is "
        "solved by the real ContinuousOptimalBinning and "
        "MulticlassOptimalBinning and compared with the exhaustive "
        "enumeration of all 2^(n-1) groupings of the prebins: the objective "
        "(sum over the bins of |bin mean - mean|, minus the gamma term; sum "
        "over the classes of the one-vs-rest IV) must reach the maximum over "
        "the admissible groupings and INFEASIBLE needs an empty set.")
ASSUMPTIONS = ["prebin cells limited to the listed alphabets (3 to 5 prebins)",
               "objective compared with tolerance (integer scaling by 1e6)"]

CB = CA + [(100.0, -50.0, 2.0)]


def tasks(tier):
    q = tier == "quick"
    # continuous: trends
    for cells in itertools.product(CA[:4] if q else CB, repeat=4):
        for tr in TR:
            yield ["continuous", cells, {"monotonic_trend": tr}, None, 0]
    for cells in itertools.product(CA[1:4], repeat=5 if q else 6):
        for tr in (None, "descending", "valley"):
            yield ["continuous", cells, {"monotonic_trend": tr}, None, 0]
    # constraints
    for cells in itertools.product(CA[1:4] if q else CA, repeat=4):
        for tr in (TR if not q else [None, "ascending", "peak", "concave",
                                     "valley_heuristic"]):
            for c in combos(CC, 1):
                if c:
                    yield ["continuous", cells, dict(c, monotonic_trend=tr),
                           None, 0]
    for cells in itertools.product(CA[1:4], repeat=3 if q else 4):
        for tr in (None, "ascending"):
            for c in combos(CC, 2):
                if len(c) == 2:
                    yield ["continuous", cells, dict(c, monotonic_trend=tr),
                           None, 1]
    for cells in itertools.product(CA[1:4], repeat=4):
        for fixed in itertools.product([False, True], repeat=3):
            if any(fixed):
                yield ["continuous", cells,
                       {"monotonic_trend": None, "fixed": fixed}, None, 0]
    # multiclass
    for cells in itertools.product(MA, repeat=4):
        for tr in MT:
            for s in ("cp", "mip"):
                if q and s == "mip" and cells[0] == cells[1]:
                    continue
                yield ["multiclass", cells, {"monotonic_trend": tr}, s, 0]
    for cells in itertools.product(MA[:3], repeat=4):
        for tr in (MT[0], MT[1], MT[2]) if q else MT:
            for c in combos(MC, 1):
                if c:
                    yield ["multiclass", cells, dict(c, monotonic_trend=tr),
                           "cp" if q else "mip", 0]
    for cells in itertools.product(BA[1:4], repeat=4):
        # two classes solved as a multiclass problem
        for tr in (None, ("ascending", None), ("peak_heuristic", "valley")):
            yield ["multiclass", cells, {"monotonic_trend": tr}, "cp", 0]


def run(desc, ctx):
    target, cells, c, solver, extra = desc
    cells = [tuple(a) for a in cells]
    n = len(cells)
    ex = []
    if extra:
        nan = float("nan")
        ex = [(nan, 1), (nan, 0), (nan, 1), (-99.0, 0), (-99.0, 1)]
    ctx.state([target, cells, c, extra])
    status, g, total, o = optdrive.fit(target, cells, c, solver, ex)
    ctx.step()
    tol = optref.TOL
    margin = optref.STRICT[solver]
    tr = c.get("monotonic_trend")
    if target == "continuous":
        S, viol, obj = (optref.csums, optref.continuous_violation,
                        optref.continuous_objective)
        tc = optref.change_point(tr, [optref.mean(v) for v in cells])
        if c.get("gamma"):
            tol += 2e-6 * sum(map(len, cells))
    else:
        S, viol, obj = (optref.msums, optref.multiclass_violation,
                        optref.multiclass_objective)
        k = len(cells[0])
        trs = tr if isinstance(tr, (list, tuple)) else [tr] * k
        tc = [optref.change_point(t, [v[q] / sum(v) for v in cells])
              for q, t in enumerate(trs)]
        if "auto" in trs:
            # which trend is taken is decided elsewhere (C08): read it back
            from optbinning.binning.auto_monotonic import auto_monotonic
            import numpy as np
            A = np.array(cells)
            c = dict(c, monotonic_trend=[
                auto_monotonic(A.sum(1) - A[:, q], A[:, q], "auto")
                if t == "auto" else t for q, t in enumerate(trs)])
    best = bestg = None
    for h in ref.groupings(n):
        bins = S(cells, h)
        ctx.step()
        if viol(c, bins, h, total, n, margin, tc) is None:
            v = obj(c, bins)
            if best is None or v > best:
                best, bestg = v, h
    ctx.agree()
    ctx.outcome([target, status, len(g), bestg and len(bestg)])
    if status == "OPTIMAL":
        if best is None:
            return
        got = obj(c, S(cells, g))
        ctx.check(best - got <= tol, lambda: "OPTIMAL binning {} has objective"
                  " {:.6f}; {} is admissible with {:.6f}".format(
                      g, got, bestg, best), "suboptimal")
    elif status != "FEASIBLE":
        ctx.check(best is None, lambda: "{} but {} is admissible".format(
            status, bestg), "wrong status")
