"""C14: two-dimensional binnings are the best rectangle partitions."""
import itertools

import numpy as np

from mc.core import Skip
from mc.rect import Model, partitions

PROPERTY = "C14"
RULE = ("Every grid of prebin cells (event/non-event counts or target values) "
        "over a small alphabet, 2x2 to 3x3, x monotonic trends of both axes x "
        "size/number/difference constraints x solver x divergence is binned "
        "by the real 2D classes (uniform prebins: one per value) and compared "
        "with the enumeration of all partitions of the grid into rectangles: "
        "the result must be admissible and reach the best objective, and "
        "INFEASIBLE needs an empty admissible set.")
ASSUMPTIONS = [
    "grids up to 3x3 (322 rectangle partitions), thorough 4x3; listed alphabets",
    "equal rates of adjacent bins are accepted whether or not the library "
    "uses them (strict and non-strict reading of ascending)",
    "gamma > 0: the result must not be dominated in (objective, spread of "
    "the bin sizes); the scale of the penalty is not documented",
    "the 'cart' strategy deliberately drops rectangles of a single leaf "
    "(pinned by the repository's tests): there, on 4x4 grids, the result must "
    "be an admissible partition into rectangles, not the best one"]

BIN = [(0, 0), (1, 1), (3, 1), (1, 3), (2, 0), (0, 2)]
CON = [(), (0.0,), (1.0, 2.0), (4.0,), (-3.0, 5.0), (2.5, 2.5)]
TR = [None, "ascending", "descending"]


def limits(target):
    out = [{"min_n_bins": 2}, {"min_n_bins": 3}, {"max_n_bins": 1},
           {"max_n_bins": 2}, {"min_n_bins": 2, "max_n_bins": 3},
           {"min_bin_size": 0.3}, {"max_bin_size": 0.5},
           {"min_bin_size": 0.2, "max_bin_size": 0.6},
           {"min_bin_size": 0.15, "max_n_bins": 3}]
    if target == "binary":
        out += [{"min_bin_n_event": 2}, {"max_bin_n_event": 4},
                {"min_bin_n_nonevent": 3}, {"max_bin_n_nonevent": 4},
                {"min_bin_n_event": 2, "max_bin_n_nonevent": 5}]
    return out


def diffs(target):
    k, d = ("min_event_rate_diff_", (0.2, 0.5)) if target == "binary" else \
        ("min_mean_diff_", (1.0, 3.0))
    for a in d:
        yield {k + "x": a}
        yield {k + "y": a}
        yield {k + "x": a, k + "y": d[0]}


def trends(both=True):
    for a in TR:
        for b in TR:
            yield {"monotonic_trend_x": a, "monotonic_trend_y": b}


KINDS = [(1, 1), (3, 1), (1, 3), (4, 1), (1, 4), (3, 2), (2, 3)]


def cart_grids(q):
    """4x4 grids whose CART leaves are staggered in many ways."""
    for mod in (3, 5, 7):
        for a, b, d in itertools.product(range(mod), repeat=3):
            yield [KINDS[(a * i + b * j + d * i * j) % mod]
                   for i in range(4) for j in range(4)]
    for k in range(0, 65536, 113 if q else 7):
        yield [(1, 4) if k >> i & 1 else (4, 1) for i in range(16)]
    if not q:
        rows = [(0, 1, 1, 2), (1, 2, 2, 1), (2, 2, 1, 1), (1, 1, 2, 0),
                (2, 1, 0, 2)]
        for g in itertools.product(rows, repeat=4):
            yield [KINDS[k] for r in g for k in r]


def cart_tasks(q):
    base = {"strategy": "cart", "min_prebin_size_x": .01,
            "min_prebin_size_y": .01}
    for i, cells in enumerate(cart_grids(q)):
        cs = [{"max_n_bins": 3}, {"max_n_bins": 4}, {"max_n_bins": 5},
              {"monotonic_trend_x": TR[1 + i % 2]},
              {"monotonic_trend_y": TR[1 + i % 2], "min_bin_size": 0.1},
              {"max_bin_size": 0.5, "min_n_bins": 2,
               "monotonic_trend_x": TR[i % 3], "monotonic_trend_y": "ascending"}]
        for j, c in enumerate(cs):
            t = "continuous" if (i + j) % 4 == 3 else "binary"
            if t == "continuous":
                cl = [(1.0,) * v[1] + (-float(v[0]),) for v in cells]
            else:
                cl = cells
            yield [t, 4, 4, cl, dict(base, **c),
                   "mip" if (i + j) % 7 == 5 else "cp"]


def tasks(tier):
    q = tier == "quick"
    yield from cart_tasks(q)
    for target, AL in (("binary", BIN), ("continuous", CON)):
        for cells in itertools.product(AL, repeat=4):
            for tr in trends():
                if q and tr["monotonic_trend_x"] == "descending" and \
                        tr["monotonic_trend_y"]:
                    continue
                yield [target, 2, 2, cells, dict(tr), "cp"]
        al = AL[1:4]
        for m, n in ((2, 3), (3, 2)):
            for cells in itertools.product(al, repeat=6):
                for tr in ((None, None), ("ascending", "descending"),
                           ("descending", None), (None, "ascending"),
                           ("ascending", "ascending")):
                    if q and m == 3 and tr[0] == tr[1]:
                        continue
                    yield [target, m, n, cells, {"monotonic_trend_x": tr[0],
                                                 "monotonic_trend_y": tr[1]},
                           "cp"]
        # constraints
        for cells in itertools.product(AL[1:3] if q else al, repeat=6):
            if len(set(cells)) < 2:
                continue
            for c in limits(target):
                for tr in ((None, None), ("ascending", None),
                           ("descending", "ascending")):
                    yield [target, 2, 3, cells, dict(
                        c, monotonic_trend_x=tr[0], monotonic_trend_y=tr[1]),
                        "cp" if tr[1] else "mip"]
            for c in diffs(target):
                for tr in (("ascending", "ascending"), ("descending", None),
                           (None, "descending"), ("descending", "ascending"),
                           ("ascending", "descending"),
                           (None, "ascending"), ("ascending", None)):
                    for s in ("cp", "mip"):
                        yield [target, 3, 2, cells, dict(
                            c, monotonic_trend_x=tr[0],
                            monotonic_trend_y=tr[1]), s]
            yield [target, 3, 2, cells, {"gamma": 0.3}, "cp"]
            yield [target, 3, 2, cells, {"gamma": 0.3}, "mip"]
        # larger grids
        for cells in itertools.product(AL[2:4], repeat=9):
            for tr in ((None, None), ("ascending", "ascending"),
                       ("descending", "ascending")):
                if q and (sum(map(len, cells)) if target == "continuous"
                          else cells.count(AL[2])) % 3 and tr[0]:
                    continue
                yield [target, 3, 3, cells, {"monotonic_trend_x": tr[0],
                                             "monotonic_trend_y": tr[1]},
                       "mip" if tr[0] and not q else "cp"]
        if not q:
            for cells in itertools.product(AL[2:4], repeat=12):
                yield [target, 4, 3, cells,
                       {"monotonic_trend_x": "ascending"}, "cp"]
            for cells in itertools.product(al, repeat=9):
                yield [target, 3, 3, cells, {"monotonic_trend_x": "ascending",
                                             "monotonic_trend_y":
                                             "descending"}, "cp"]
    for d in ("js", "hellinger", "triangular"):
        for cells in itertools.product(BIN[1:4] if q else BIN, repeat=4):
            for s in ("cp", "mip"):
                for tr in (None, "ascending"):
                    yield ["binary", 2, 2, cells,
                           {"divergence": d, "monotonic_trend_y": tr}, s]
    for cells in itertools.product(BIN[1:4], repeat=4):
        for tr in trends():
            yield ["binary", 2, 2, cells, tr, "mip"]


def expand(target, cells):
    """Rows of the sample: cells[i][j] at y=i, x=j."""
    X, Y, Z = [], [], []
    for i, row in enumerate(cells):
        for j, v in enumerate(row):
            zs = [0] * v[0] + [1] * v[1] if target == "binary" else list(v)
            X += [float(j)] * len(zs)
            Y += [float(i)] * len(zs)
            Z += zs
    return X, Y, Z


def fitted(target, m, n, cells, c, solver, extra=()):
    from optbinning import ContinuousOptimalBinning2D, OptimalBinning2D
    cls = OptimalBinning2D if target == "binary" else \
        ContinuousOptimalBinning2D
    X, Y, Z = expand(target, cells)
    for x, y, z in extra:
        X.append(x), Y.append(y), Z.append(z)
    o = cls(solver=solver, prebinning_method="uniform", max_n_prebins_x=n,
            max_n_prebins_y=m, special_codes_x=[-99], **c)
    o.fit(X, Y, Z)
    return o, len(Z)


def read(o, m, n):
    """Rectangles of the grid from the public splits."""
    sx, sy = o.splits
    out = []
    for (a, b), (d, e) in zip(sx, sy):
        js = [j for j in range(n) if a <= j < b]
        ii = [i for i in range(m) if d <= i < e]
        out.append((ii[0], ii[-1], js[0], js[-1]))
    return tuple(sorted(out))


def run(desc, ctx):
    target, m, n, flat, c, solver = desc
    cells = [[tuple(flat[i * n + j]) for j in range(n)] for i in range(m)]
    size = (lambda v: v[0] + v[1]) if target == "binary" else len
    tot = [[size(v) for v in row] for row in cells]
    if not all(map(sum, (tot[0], tot[-1]))) or not all(
            sum(r[j] for r in tot) for j in (0, n - 1)):
        raise Skip          # an axis does not reach its end values
    if target == "binary" and not all(
            sum(v[k] for row in cells for v in row) for k in (0, 1)):
        raise Skip
    extra = []
    if "min_bin_size" in c or "max_bin_size" in c:
        extra = [(-99.0, 0.0, 1), (-99.0, 1.0, 0), (0.0, float("nan"), 1)]
    ctx.state(desc[:5])
    o, N = fitted(target, m, n, cells, c, solver, extra)
    ctx.step()
    mod = Model(target, cells, c, N)
    got = read(o, m, n)
    # the best one that is certainly admissible
    tight, tightp = (None, None) if c.get("strategy") == "cart" else \
        mod.best(-1e-7)
    ctx.step(len(mod.value))
    ctx.agree()
    ctx.outcome([target, m, n, o.status, len(got)])
    if c.get("strategy") == "cart":
        seen = [(i, j) for r in got for i in range(r[0], r[1] + 1)
                for j in range(r[2], r[3] + 1)]
        P = o.binning_table.P
        boxes = []
        for b in np.unique(P):
            ii, jj = np.nonzero(P == b)
            boxes.append((ii.min(), ii.max(), jj.min(), jj.max()))
        if not ctx.check(
                len(seen) == m * n == len(set(seen)) and
                sorted(boxes) == list(got),
                lambda: "the bins {} (grid of bins {}) are no partition into "
                "rectangles".format(got, P.tolist()), "cart rectangles"):
            return
    if o.status in ("OPTIMAL", "FEASIBLE"):
        bad = mod.violation(got, 1e-7)
        if not ctx.check(bad is None, lambda: "{} {}: {}".format(
                o.status, got, bad), "inadmissible"):
            return
        if o.status != "OPTIMAL" or tight is None:
            return
        if c.get("gamma"):
            # the penalty is increasing in the spread of the bin sizes
            v, s = mod.objective(got), mod.spread(got)
            for p in partitions(m, n):
                if all(r in mod.value for r in p) and \
                        mod.violation(p, -1e-7) is None:
                    pv, ps = mod.objective(p), mod.spread(p)
                    tol = 1e-5 + (2e-4 * abs(pv) if solver == "mip" else 0)
                    if not ctx.check(
                            not (pv > v + tol and ps <= s or
                                 pv >= v - 1e-9 and ps < s - .5 and tol < 1e-3
                                 and solver == "cp"),
                            lambda: "{} ({:.6f}, spread {}) is dominated by "
                            "{} ({:.6f}, spread {})".format(
                                got, v, s, p, pv, ps), "gamma dominated"):
                        return
            return
        v = mod.objective(got)
        tol = 1e-6 * (len(got) + len(tightp) + 1) + (
            2e-4 * abs(tight) if solver == "mip" else 0)
        ctx.check(tight - v <= tol, lambda: "OPTIMAL {} has {:.6f}; {} is "
                  "admissible with {:.6f}".format(got, v, tightp, tight),
                  "suboptimal")
    else:
        ctx.check(tight is None, lambda: "{} but {} is admissible".format(
            o.status, tightp), "wrong status")
        ctx.check(len(got) == 1 and got[0] == (0, m - 1, 0, n - 1),
                  lambda: "{} returned {}".format(o.status, got), "fallback")
