"""C06: the OPTIMAL binary binning is the best admissible merging."""
import itertools

from mc import optdrive, optref, ref
from mc.core import Skip
from checks.c05_constraints import BA, BC, TR, ZA, combos

PROPERTY = "C06"
RULE = ("Every vector of prebin class counts over a small alphabet x "
        "divergence x monotonic trend x constraints x solver is solved by the "
        "real OptimalBinning and compared with an exhaustive enumeration of "
        "all 2^(n-1) groupings of the prebins: the divergence of the returned "
        "binning must reach the maximum over the admissible groupings, and "
        "INFEASIBLE is accepted only if no grouping is admissible. With "
        "concave/convex trends admissible groupings satisfy the trend on all "
        "triples of bins; groupings admissible only through rounding are left "
        "to the solver.")
ASSUMPTIONS = ["prebin cells limited to the listed alphabets (3 to 6 prebins)",
               "objective compared with tolerance 2e-5 (the constraint "
               "programming model scales it to integers)"]

REPRESENTATIVE = [(1, 1), (3, 1), (1, 4), (1, 1)]
TR0 = [t for t in TR]


def tasks(tier):
    q = tier == "quick"
    A4 = list(itertools.product(BA[:4], repeat=4))
    A3 = list(itertools.product(BA[:3], repeat=4))
    # every divergence and trend, no other constraint
    for cells in A4 if q else list(itertools.product(BA, repeat=5)):
        for div in ("iv", "js", "hellinger", "triangular"):
            for tr in TR0:
                if q and div != "iv" and (tr in ("convex", "valley",
                                                 "peak_heuristic") or
                                          cells[0] == cells[3]):
                    continue
                yield [cells, {"divergence": div, "monotonic_trend": tr},
                       "cp", 0]
    # five and six prebins: optimal interior groupings
    for cells in itertools.product(BA[1:4], repeat=5 if q else 6):
        for tr in (None, "ascending", "peak"):
            yield [cells, {"monotonic_trend": tr}, "cp", 0]
    # one more constraint
    for cells in A3:
        for tr in TR0:
            for c in combos(BC[:-1], 1):
                if c:
                    yield [cells, dict(c, monotonic_trend=tr), "cp", 0]
    # two more
    for cells in (A3 if not q else
                  list(itertools.product(BA[1:4], repeat=3))):
        for tr in (None, "ascending", "valley"):
            for c in combos(BC[:-1], 2):
                if len(c) == 2:
                    yield [cells, dict(c, monotonic_trend=tr), "cp", 0]
    # mixed integer programming
    for cells in (A3 if not q else
                  list(itertools.product(BA[1:4], repeat=3))):
        for tr in TR0:
            for c in combos(BC, 1):
                yield [cells, dict(c, monotonic_trend=tr), "mip", 0]
    # fixed splits, rows outside the prebins, empty classes
    for cells in A3:
        for fixed in itertools.product([False, True], repeat=3):
            if any(fixed):
                for tr in ("ascending", None, "peak"):
                    yield [cells, {"monotonic_trend": tr,
                                   "fixed": fixed}, "cp", 0]
        for c in combos(BC[:4], 1):
            yield [cells, dict(c, monotonic_trend=None), "cp", 1]
    for cells in itertools.product(ZA, repeat=4):
        if all(sum(c[k] for c in cells) for k in (0, 1)):
            for div in ("hellinger", "triangular"):
                for tr in (None, "descending"):
                    yield [cells, {"divergence": div, "monotonic_trend": tr,
                                   "zeros": 1}, "cp", 0]


def run(desc, ctx):
    cells, c, solver, extra = desc
    cells = [tuple(a) for a in cells]
    n = len(cells)
    ex = []
    if extra:
        nan = float("nan")
        ex = [(nan, 1), (nan, 0), (nan, 1), (-99.0, 0), (-99.0, 1)]
    ctx.state([cells, c, extra])
    tr = c.get("monotonic_trend")
    rate = [e / (a + e) for a, e in cells]
    if c.get("fixed") and tr == "ascending" and any(
            rate[i] > rate[i + 1] for i in range(n - 1)) and \
            cells != REPRESENTATIVE:
        # tests/test_binning.py pins INFEASIBLE for a fixed split between two
        # prebins that contradict the trend, even if merging them elsewhere
        # is admissible; see known_findings.txt for the representative
        raise Skip
    status, g, total, o = optdrive.fit("binary", cells, c, solver, ex)
    ctx.step()
    tol = optref.TOL
    margin = optref.STRICT[solver]
    if c.get("gamma"):
        tol += 2e-6 * sum(a + b for a, b in cells)
    tc = optref.change_point(tr, rate)
    best = bestg = None
    loose = False
    for h in ref.groupings(n):
        bins = optref.sums(cells, h)
        ctx.step()
        if optref.binary_violation(c, bins, h, total, n, margin, tc) is None:
            v = optref.binary_objective(c, bins)
            if best is None or v > best:
                best, bestg = v, h
        if not loose and optref.binary_violation(
                c, bins, h, total, n, optref.TOL, None) is None:
            loose = True
    ctx.agree()
    ctx.outcome([status, len(g), None if bestg is None else len(bestg)])
    if status == "OPTIMAL":
        if best is None:
            return
        got = optref.binary_objective(c, optref.sums(cells, g))
        ctx.check(best - got <= tol, lambda: "OPTIMAL binning {} has objective"
                  " {:.6f}; {} is admissible with {:.6f}".format(
                      g, got, bestg, best), "suboptimal")
    elif status == "FEASIBLE":
        pass
    else:
        ctx.check(best is None, lambda: "{} but {} is admissible".format(
            status, bestg), "wrong status")
