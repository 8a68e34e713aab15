"""C23: outliers, bounds, category order and cutoff follow their definition."""
import itertools
import math
from fractions import Fraction as F

import numpy as np

from mc import ref
from mc.core import Skip

PROPERTY = "C23"
RULE = ("Every vector over a small value alphabet x every detector setting is "
        "compared with the definition of the detector in exact arithmetic; "
        "every such vector with targets, special and missing rows is binned "
        "with the detector on and the table must count exactly the rows that "
        "are not outliers; every assignment of counts and targets to four "
        "categories x cutoff must put exactly the rare categories in the "
        "last group and order the others by target rate; split_data must "
        "keep exactly the values between fix_lb and fix_ub.")
ASSUMPTIONS = ["vectors of length <= 5 (6), alphabet {0, 1, 2, 10}",
               "intervals with dyadic quantiles so that the definition is "
               "exact in floating point"]

AL = [0.0, 1.0, 2.0, 10.0]
RANGE = [dict(method=m, interval_length=i, k=k) for m in ("ETI", "HDI")
         for i in (0, 0.25, 0.5, 1) for k in (0, 0.5, 1.5)]
ZS = [dict(threshold=t) for t in (0, 0.5, 1.2, 3.5, 6)]


def tasks(tier):
    q = tier == "quick"
    for n in range(1, 6 if q else 7):
        for v in itertools.combinations_with_replacement(AL + [5.0], n):
            yield ["detector", v]
    for n in (2, 3, 4, 5) if q else (2, 3, 4, 5, 6):
        for xs in itertools.combinations_with_replacement((0, 1, 2, 3), n):
            for ys in itertools.product((0.0, 1.0, 9.0), repeat=n):
                if q and n == 5 and sum(ys) % 2:
                    continue
                yield ["yquantile", xs, ys]
    for target in ("binary", "continuous", "multiclass"):
        for v in itertools.combinations_with_replacement(
                (3.0, 4.0, 30.0, -25.0), 3):
            for det in (("range", None), ("zscore", None),
                        ("range", {"method": "HDI", "k": 0.5}),
                        ("zscore", {"threshold": 1.2}),
                        ("range", {"interval_length": 1, "k": 0}),
                        ("yquantile", {"n_bins": 2}),
                        ("yquantile", {"n_bins": 2, "outlier_detector":
                                       "range", "outlier_params":
                                       {"k": 0.5}})):
                for s in range(4):
                    yield ["binning", target, v, det, s]
    for target in ("binary", "continuous"):
        for cnt in itertools.product((1, 2, 3, 6), repeat=4):
            for cut in (None, 0.125, 0.25, 0.3):
                for pat in range(2 if q else 6):
                    yield ["category", target, cnt, cut, pat]
    for v in itertools.combinations_with_replacement(AL, 4):
        for lb in (None, 0, 0.5, 1, 2):
            for ub in (None, 1, 2, 5, 10):
                if lb is None or ub is None or lb <= ub:
                    yield ["bounds", v, lb, ub]


def percentile(xs, p):
    h = (len(xs) - 1) * F(p)
    i = int(h)
    if i + 1 >= len(xs):
        return F(xs[-1])
    return F(xs[i]) + (h - i) * (F(xs[i + 1]) - F(xs[i]))


def range_out(v, method="ETI", interval_length=0.5, k=1.5):
    xs = sorted(map(F, v))
    n = len(xs)
    il = F(interval_length)
    if method == "ETI":
        lb, ub = percentile(xs, (1 - il) / 2), percentile(xs, (1 + il) / 2)
    else:
        w = min(math.ceil(il * n), n - 1)
        lb, ub = min(((xs[j], xs[j + w]) for j in range(n - w)),
                     key=lambda t: t[1] - t[0])
        ties = {(xs[j], xs[j + w]) for j in range(n - w)
                if xs[j + w] - xs[j] == ub - lb}
        if len(ties) > 1:
            return [t for t in (_outside(v, a, b, k) for a, b in ties)]
    return [_outside(v, lb, ub, k)]


def _outside(v, lb, ub, k):
    d = F(k) * (ub - lb)
    return [F(a) > ub + d or F(a) < lb - d for a in v]


def median(v):
    v = sorted(v)
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def z_out(v, threshold=3.5):
    v = list(map(F, v))
    m = median(v)
    mad = median([abs(a - m) for a in v])
    t = F(threshold)
    return [[abs(a - m) * F("0.6745") > t * mad and a != m for a in v]]


def y_out(x, y, n_bins=5, outlier_detector="zscore", outlier_params=None):
    xs = sorted(map(F, x))
    qs = sorted({percentile(xs, F(i, n_bins)) for i in range(n_bins + 1)})
    splits = qs[1:-1]
    idx = [sum(1 for s in splits if F(a) >= s) for a in x]
    out = [[False] * len(x)]
    f = z_out if outlier_detector == "zscore" else range_out
    for b in set(idx):
        pos = [i for i in range(len(x)) if idx[i] == b]
        opts = f([y[i] for i in pos], **(outlier_params or {}))
        out = [[o[pos.index(i)] if i in pos else p[i] for i in range(len(x))]
               for p in out for o in opts]
    return out


def detector_check(ctx, d, args, want, name):
    got = d.fit(*args).get_support()
    ctx.step()
    got = [bool(a) for a in got]
    ctx.check(got in want, lambda: "{} on {} flags {} instead of {}".format(
        d, args, got, want), name)
    ix = [int(a) for a in d.get_support(indices=True)]
    ctx.check(ix == [i for i, a in enumerate(got) if a], "indices", name)
    return got


def run(desc, ctx):
    ctx.state(desc)
    ctx.agree()
    globals()["run_" + desc[0]](desc[1:], ctx)


def run_detector(a, ctx):
    from optbinning.binning.outlier import (ModifiedZScoreDetector,
                                            RangeDetector)
    v = np.array(a[0])
    for p in itertools.islice(itertools.permutations(a[0]), 0, 7, 3):
        v = np.array(p)
        for c in RANGE:
            detector_check(ctx, RangeDetector(**c), (v,),
                           range_out(p, **c), "range")
        for c in ZS:
            g = detector_check(ctx, ModifiedZScoreDetector(**c), (v,),
                               z_out(p, **c), "zscore")
            ctx.outcome([len(p), sum(g)])
        detector_check(ctx, RangeDetector(), (list(p),), range_out(p),
                       "range list")
        detector_check(ctx, ModifiedZScoreDetector(), (list(p),), z_out(p),
                       "zscore list")


def run_yquantile(a, ctx):
    from optbinning.binning.outlier import YQuantileDetector
    x, y = np.array(a[0], dtype=float), np.array(a[1])
    for nb in (1, 2, 4):
        for det, par in (("zscore", None), ("zscore", {"threshold": 1.2}),
                         ("range", None), ("range", {"k": 0.5}),
                         ("range", {"method": "HDI"})):
            d = YQuantileDetector(outlier_detector=det, outlier_params=par,
                                  n_bins=nb)
            g = detector_check(ctx, d, (x, y), y_out(
                a[0], a[1], nb, det, par), "yquantile")
    ctx.outcome(["y", sum(g)])


def run_binning(a, ctx):
    import optbinning as ob
    target, v, (det, par), s = a
    x = [3.0, 3.0, 3.5, 4.0, 4.0, 4.5, 5.0, 5.0, 5.5, 6.0] + list(v)
    n = len(x)
    if target == "continuous":
        y = [float((3 * i + s) % 7) + (40.0 if i == 3 + s else 0)
             for i in range(n)]
    else:
        k = 2 if target == "binary" else 3
        y = [(i * (s + 1) + i // 3) % k for i in range(n)]
        if det == "yquantile" and target != "continuous":
            raise Skip
    if det == "range":
        want = range_out(x, **(par or {}))
    elif det == "zscore":
        want = z_out(x, **(par or {}))
    else:
        want = y_out(x, y, **par)
    if len(want) != 1:
        raise Skip
    out = want[0]
    keep = [i for i in range(n) if not out[i]]
    if len({y[i] for i in keep}) < 2 or len({x[i] for i in keep}) < 2:
        raise Skip
    extra = [(-999.0, 1), (float("nan"), 0), (-999.0, 0)] if s % 2 else []
    X = np.array([e[0] for e in extra] + x)
    Y = np.array([e[1] for e in extra] + y)
    cls = {"binary": ob.OptimalBinning, "multiclass":
           ob.MulticlassOptimalBinning,
           "continuous": ob.ContinuousOptimalBinning}[target]
    o = cls(outlier_detector=det, outlier_params=par, special_codes=[-999.0],
            prebinning_method="quantile", max_n_prebins=4,
            min_prebin_size=0.01)
    o.fit(X, Y)
    ctx.step()
    t = o.binning_table.build()
    sp = list(o.splits)
    cnt = [0] * (len(sp) + 1)
    for i in keep:
        cnt[ref.bin_of(x[i], sp)] += 1
    cnt += [sum(1 for e in extra if e[0] == -999), sum(
        1 for e in extra if ref.is_nan(e[0]))]
    got = [int(c) for c in t["Count"]][:-1]
    ctx.check(got == cnt, lambda: "counts {}, without outliers {}".format(
        got, cnt), "table")
    if target == "binary":
        ev = [0] * (len(sp) + 1)
        for i in keep:
            ev[ref.bin_of(x[i], sp)] += y[i]
        got = [int(c) for c in t["Event"]][:len(ev)]
        ctx.check(got == ev, lambda: "events {} instead of {}".format(got, ev),
                  "table")
    ctx.outcome([target, det, sum(out), len(sp)])


def run_category(a, ctx):
    import optbinning as ob
    target, cnt, cut, pat = a
    names = ["d", "a", "c", "b"]
    x, y = [], []
    for c, (nm, k) in enumerate(zip(names, cnt)):
        for i in range(k):
            x.append(nm)
            if target == "binary":
                y.append(int((i * (c + 2) + c + pat) % 3 < 1 + (pat + c) % 2))
            else:
                y.append(float((i * 5 + 3 * c * pat + c) % 11) - 4)
    n = len(x)
    others = {nm for nm, k in zip(names, cnt)
              if cut is not None and F(k, n) < F(str(cut))}
    keep = [nm for nm in names if nm not in others]
    yk = [v for u, v in zip(x, y) if u in keep]
    cls = ob.OptimalBinning if target == "binary" else \
        ob.ContinuousOptimalBinning
    o = cls(dtype="categorical", cat_cutoff=cut, min_prebin_size=0.01,
            prebinning_method="cart", max_n_prebins=10)
    if not keep:
        try:
            o.fit(np.array(x, dtype=object), np.array(y))
        except ValueError:
            return
        ctx.fail("no category reaches the cutoff but the fit succeeds", "all")
        return
    if len(set(yk)) < 2 or (target == "binary" and len(set(y)) < 2):
        raise Skip
    o.fit(np.array(x, dtype=object), np.array(y))
    ctx.step()
    groups = [sorted(map(str, g)) for g in o.splits]
    if others:
        ctx.check(groups and groups[-1] == sorted(others), lambda:
                  "groups {}, rare categories {}".format(groups, others),
                  "others")
        groups = groups[:-1]
    rate = {nm: sum(v for u, v in zip(x, y) if u == nm) / k
            for nm, k in zip(names, cnt)}
    ctx.check(sorted(sum(groups, [])) == sorted(keep), lambda:
              "groups {} of categories {}".format(groups, keep), "cover")
    for g, h in zip(groups, groups[1:]):
        ctx.check(max(rate[c] for c in g) <= min(rate[c] for c in h) + 1e-12,
                  lambda: "groups {} not in order of the target {}".format(
                      groups, rate), "order")
    ctx.outcome([target, len(groups), len(others)])


def run_bounds(a, ctx):
    from optbinning.binning.preprocessing import split_data
    v, lb, ub = a
    x = np.array(list(v) + [float("nan"), -7.0])
    y = np.arange(len(x))
    r = split_data("numerical", x, y, special_codes=[-7.0], fix_lb=lb,
                   fix_ub=ub)
    ctx.step()
    keep = [i for i in range(len(v)) if (lb is None or v[i] >= lb) and
            (ub is None or v[i] <= ub)]
    ctx.check(list(map(int, r[1])) == keep and [float(t) for t in r[0]] ==
              [v[i] for i in keep], lambda: "kept {}".format(r[:2]), "bounds")
    ctx.check(list(r[3]) == [len(v)] and list(r[5]) == [len(v) + 1],
              "missing or special", "bounds")
    ctx.check(len(r[9]) == len(keep), "weights", "bounds")
    ctx.outcome([len(keep)])
