"""C08: automatic monotonic trends select and enforce a documented trend."""
import itertools
from fractions import Fraction as F

import numpy as np

from mc import autoref, optdrive, optref, ref

PROPERTY = "C08"
RULE = ("Every vector of prebin statistics from a bounded alphabet (binary "
        "counts, continuous target samples, multiclass counts; 2-6 prebins; "
        "very different record shares so that the leaves of both decision "
        "trees are reached) is fitted with every automatic mode. The trend "
        "the mode must select is recomputed exactly (rational features, "
        "convex hull, published trees); the result must equal the fit with "
        "that explicit trend, follow it, and stay the same when special and "
        "missing rows are added and when x is shifted and scaled.")
ASSUMPTIONS = ["vectors with equal rates everywhere or an exactly zero "
               "regression slope (decided by rounding) may follow any of the "
               "trends of the mode"]

BC = [(1, 1), (2, 8), (30, 1), (10, 40), (5, 3)]
CC = [[1.0, 2.0], [0.0, 0.0, 3.0, 1.0, 1.0], [-1.0], [5.0, 7.0] * 8,
      [2.5] * 20]
MC = [(1, 1, 1), (2, 8, 3), (20, 1, 2), (3, 4, 30)]
POOL = [(1, 1), (2, 8), (30, 1), (10, 40), (5, 3), (100, 60), (60, 100),
        (200, 3), (3, 200), (1, 2), (2, 1), (20, 19)]
# vectors whose permutations reach the remaining leaves of the trees
WIT = [[8, 8, 4, 10, 4], [9, 9, 2, 7, 7], [3, 0, 1, 11], [3, 0, 3, 11],
       [11, 11, 10, 4], [1, 0, 1, 11, 3], [4, 0, 9, 10], [5, 0, 2, 9, 9],
       [4, 8, 8], [0, 1, 11], [11, 4, 0]]
MODES = ["auto", "auto_heuristic", "auto_asc_desc"]


def tasks(tier):
    q = tier == "quick"
    for n in (2, 3, 4):
        for c in itertools.product(range(5), repeat=n):
            for m in MODES:
                yield {"t": "binary", "c": c, "m": m, "x": sum(c) % 4 == 0}
    for n in (5,):
        for c in itertools.product(range(5 if not q else 4), repeat=n):
            if q and len(set(c)) < 3:
                continue
            for m in MODES if not q else (MODES[0], MODES[2]):
                yield {"t": "binary", "c": c, "m": m, "x": False}
    for n in (2, 3, 4):
        for c in itertools.product(range(5), repeat=n):
            for m in MODES:
                if q and n == 4 and (sum(c) + len(m)) % 2:
                    continue
                yield {"t": "continuous", "c": c, "m": m,
                       "x": sum(c) % 5 == 0}
    for n in (2, 3, 4):
        for c in itertools.product(range(4), repeat=n):
            if q and n == 4 and sum(c) % 2:
                continue
            for m in (MODES[0], MODES[2]):
                yield {"t": "multiclass", "c": c, "m": m,
                       "x": sum(c) % 5 == 0}
            yield {"t": "multiclass", "c": c, "x": False,
                   "m": [MODES[1], "ascending", MODES[2]]}
    for c in itertools.product(range(len(POOL)), repeat=3):
        for m in (MODES[0], MODES[2]):
            if q and (sum(c) + len(m)) % 2:
                continue
            yield {"t": "binary", "c": c, "m": m, "x": False, "p": 1}
        if not q or sum(c) % 3 == 0:
            yield {"t": "binary", "c": c, "m": MODES[1], "x": False, "p": 1}
    for w in WIT:
        for c in sorted(set(itertools.permutations(w))):
            for m in MODES if not q else (MODES[0], MODES[2]):
                yield {"t": "binary", "c": c, "m": m, "x": False, "p": 1}
    # categorical: sorted categories, the trend is ascending
    for n in (3, 4):
        for c in itertools.product(range(5), repeat=n):
            if len(set(c)) == n:
                for t in ("binary", "continuous"):
                    yield {"t": t, "c": c, "m": "auto", "cat": 1}
    if not q:
        for c in itertools.product(range(5), repeat=6):
            if len(set(c)) >= 4 and sum(c) % 2:
                yield {"t": "binary", "c": c, "m": "auto", "x": False}


def stats_of(t, cells, k=None):
    if t == "continuous":
        return ([len(c) for c in cells],
                [F(sum(c)) / len(c) for c in cells])
    if t == "binary":
        return [sum(c) for c in cells], [F(c[1], sum(c)) for c in cells]
    return [sum(c) for c in cells], [F(c[k], sum(c)) for c in cells]


def values(t, cells, g, k=None):
    """rate / mean of every bin of the grouping"""
    out = []
    for a, b in g:
        if t == "continuous":
            v = [F(x) for i in range(a, b) for x in cells[i]]
            out.append(sum(v) / len(v))
        else:
            tot = sum(sum(cells[i]) for i in range(a, b))
            out.append(F(sum(cells[i][1 if k is None else k]
                             for i in range(a, b)), tot))
    return out


EXTRA = {"binary": [(-99.0, 0), (-99.0, 1), (float("nan"), 1)],
         "continuous": [(-99.0, 50.0), (float("nan"), -7.0)],
         "multiclass": [(-99.0, 0), (-99.0, 2), (float("nan"), 1)]}


def same(t, cells, g, h):
    """equal groupings, up to ties of the objective"""
    if g == h:
        return True

    def obj(gr):
        if t == "binary":
            return optref.binary_objective({}, optref.sums(cells, gr))
        if t == "continuous":
            return optref.continuous_objective({}, optref.csums(cells, gr))
        return optref.multiclass_objective({}, optref.msums(cells, gr))
    return ref.close(obj(g), obj(h), 1e-5, 1e-5)


def run(desc, ctx):
    t, m = desc["t"], desc["m"]
    cells = [{"binary": POOL if desc.get("p") else BC, "continuous": CC, "multiclass": MC}[t][i]
             for i in desc["c"]]
    if desc.get("cat"):
        return categorical(desc, cells, ctx)
    n = len(cells)
    mm = tuple(m) if isinstance(m, list) else m
    status, g, _, o = optdrive.fit(t, cells, {"monotonic_trend": mm})
    ctx.step()
    ctx.state([t, cells, m])
    ctx.outcome("{} {} {}".format(t, m, status))
    classes = [None] if t != "multiclass" else [0, 1, 2]
    trends = []
    for j, k in enumerate(classes):
        mode = m[j] if isinstance(m, list) else m
        if mode not in MODES:
            trends.append(mode)
            continue
        d = autoref.decide(mode, *stats_of(t, cells, k))
        if d is not None:
            ctx.outcome("leaf {} {}".format(
                "tree" if mode != MODES[2] else "ad", d[1]))
        trends.append(None if d is None else d[0])
    if status not in ("OPTIMAL", "FEASIBLE"):
        ctx.fail("status {}".format(status), "status")
        return
    # the result follows a trend the mode may select
    for j, k in enumerate(classes):
        mode = m[j] if isinstance(m, list) else m
        cand = autoref.ALLOWED.get(mode, (mode,)) if trends[j] is None else \
            (trends[j],)
        v = values(t, cells, g, k)
        ctx.check(any(ref.TREND[c](v, eps=0) for c in cand), lambda:
                  "{} (class {}): values {} of grouping {} follow none of {}"
                  .format(mode, k, [float(a) for a in v], g, cand), "trend")
    # the heuristic fixes the change at the extreme prebin, nothing else
    if m == "auto_heuristic" and trends[0] in ("peak", "valley"):
        heuristic(t, trends[0] + "_heuristic", cells, g, ctx)
    # it equals the fit with the explicit trend
    if all(v is not None for v in trends):
        exp = []
        for j, v in enumerate(trends):
            mode = m[j] if isinstance(m, list) else m
            if mode == "auto_heuristic" and v in ("peak", "valley"):
                v += "_heuristic"
            exp.append(v)
        e = tuple(exp) if t == "multiclass" else exp[0]
        if t == "multiclass" and not isinstance(m, list):
            pass
        s2, g2, _, o2 = optdrive.fit(t, cells, {"monotonic_trend": e})
        ctx.step()
        if s2 != status or not same(t, cells, g, g2):
            ctx.fail("{} selected grouping {} ({}), the trend {} gives {} "
                     "({})".format(m, g, status, e, g2, s2), "selected")
        # and is feasible for it: prebins that already follow it are a witness
    if desc["x"]:
        # special and missing rows do not take part in the decision (they
        # shift the totals, so compare with the explicit trend)
        ex = EXTRA[t]
        _, g3, _, o3 = optdrive.fit(t, cells, {"monotonic_trend": mm},
                                    extra=ex)
        ctx.step()
        if all(v is not None for v in trends):
            _, g4, _, _ = optdrive.fit(t, cells, {"monotonic_trend": e},
                                       extra=ex)
            ctx.step()
            ctx.check(same(t, cells, g3, g4), lambda: "with special and missing rows the "
                      "mode {} gives {}, trend {} gives {}".format(
                          m, g3, e, g4), "extra")
        # x is only used to order the prebins
        x, y = optdrive.rows(t, cells)
        o5 = type(o)(user_splits=[1000 * (i + 0.5) - 7 for i in range(n - 1)],
                     min_prebin_size=0.001,
                     monotonic_trend=list(mm) if isinstance(mm, tuple) else mm)
        o5.fit(1000 * x[::-1] - 7, y[::-1])
        ctx.step()
        g5 = [int(round((float(s) + 7) / 1000 + 0.5)) for s in o5.splits]
        g5 = list(zip([0] + g5, g5 + [n]))
        ctx.check(same(t, cells, g5, g), lambda: "scaled and permuted "
                  "x: boundaries {} instead of {}".format(g5, g), "scale")
    ctx.agree()


def heuristic(t, trend, cells, g, ctx):
    n = len(cells)
    if t == "binary":
        rate = [F(b, a + b) for a, b in cells]
        add, viol, obj = (optref.sums, optref.binary_violation,
                          optref.binary_objective)
    else:
        rate = [F(sum(c)) / len(c) for c in cells]
        add, viol, obj = (optref.csums, optref.continuous_violation,
                          optref.continuous_objective)
    if rate.count(max(rate) if trend[0] == "p" else min(rate)) > 1:
        return          # the extreme prebin is not unique
    tc = optref.change_point(trend, rate)
    total = sum(sum(c) for c in cells) if t == "binary" else sum(
        map(len, cells))
    c = {"monotonic_trend": trend}
    best, bh = None, None
    for h in ref.groupings(n):
        b = add(cells, h)
        if viol(c, b, h, total, n, -1e-6, tc) is None:
            v = obj(c, b)
            if best is None or v > best:
                best, bh = v, h
    v = obj(c, add(cells, g))
    ctx.check(best is None or best - v <= 1e-5 * n + 1e-6 * abs(best), lambda:
              "{} of {}: {} has {:.6f} but {} has {:.6f}".format(
                  trend, cells, g, v, bh, best), "heuristic")


def categorical(desc, cells, ctx):
    from optbinning import ContinuousOptimalBinning, OptimalBinning
    t = desc["t"]
    x, y = optdrive.rows(t, cells)
    x = np.array(["c%d" % v for v in x], dtype=object)
    cls = OptimalBinning if t == "binary" else ContinuousOptimalBinning
    o = cls(dtype="categorical", monotonic_trend="auto",
            min_prebin_size=0.001)
    o.fit(x, y)
    ctx.step()
    ctx.state([t, cells, "cat"])
    v = []
    for s in o.splits:
        ids = [int(str(a)[1:]) for a in s]
        if t == "binary":
            v.append(F(sum(cells[i][1] for i in ids),
                       sum(sum(cells[i]) for i in ids)))
        else:
            w = [F(a) for i in ids for a in cells[i]]
            v.append(sum(w) / len(w))
    ctx.check(ref.asc(v, eps=0), lambda: "categorical bins with values {} are "
              "not ascending".format([float(a) for a in v]), "cat")
    ctx.outcome("cat bins %d" % len(v))
    ctx.agree()
