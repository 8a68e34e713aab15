"""C15: piecewise binnings evaluate consistently, honour trend and bounds."""
import contextlib
import io
import itertools
import math

import numpy as np

from mc import osqpfix, ref

osqpfix.install()

PROPERTY = "C15"
BATCH = 4
BATCH_TIMEOUT = 300
RULE = ("(bin, cont) every dataset of the alphabet x degree x continuity x "
        "trend x objective x bounds x special codes x prebinning options: "
        "table, coefficients, transform with every metric, treatment and "
        "bounds on a grid of values, continuity, trend and bounds of the "
        "fitted function, metrics and tests, against an own evaluation; the "
        "loss against the exact minimum where it is known. (sub) subsamples "
        "and seeds. (hist) sequences of fits. (api) invalid parameters.")
ASSUMPTIONS = ["at most 60 rows and 6 bins", "trend across bins is only "
               "required of continuous functions of degree at most 1, else "
               "within the bins (documented by ropwr)",
               "tolerances of the convex solvers (1e-3 of the range)"]
NAN = float("nan")
INF = float("inf")
S, T = -99.0, -88.0
SPEC = [None, [S], {"s": [S], "t": T}, {"s": [S, T]}, {"n": 55.0, "s": S}]


def datasets():
    """values with special codes, missing values and outliers"""
    out = []
    x = [float(i // 4) for i in range(40)]
    b = [(i * 7 + i // 5) % 3 == 0 or i > 30 for i in range(40)]
    c = [2.0 + 0.5 * v + ((i * 5) % 7 - 3) / 4 for i, v in enumerate(x)]
    out.append((x + [S, S, T, NAN, NAN, S, NAN],
                b + [1, 0, 0, 1, 0, 1, 1],
                c + [7.0, -1.5, 0.0, 0.0, -4.0, 1.0, 3.0]))
    # descending, zeros of the target, repeated values
    x = [float(v) for v in (0, 0, 0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 5, 6, 6, 6, 7,
                            7, 8, 8, 9, 9, 9, 9, -1, -1, -2, -2, 11, 12)]
    b = [(v * 3 + i) % 5 < (3 if v < 4 else 1) for i, v in enumerate(x)]
    c = [round(10 - v + ((i * 3) % 5 - 2) / 2, 3) if i % 7 else 0.0
         for i, v in enumerate(x)]
    out.append((x + [NAN, NAN, T], b + [0, 0, 1], c + [1.0, 2.0, -7.0]))
    # peak
    x = [i / 4 - 3 for i in range(36)]
    b = [(abs(v) < 2 and i % 4 != 0) or i % 6 == 0 for i, v in enumerate(x)]
    c = [5 - abs(v) + ((i * 5) % 3 - 1) / 3 for i, v in enumerate(x)]
    out.append((x + [S, T, 60.0], b + [1, 1, 0], c + [1.0, -2.0, 9.0]))
    # valley, outliers, infinite values are not regular: none
    x = [float((i * 7) % 24) for i in range(44)]
    b = [(abs(v - 12) > 6 and i % 3 != 0) or i % 7 == 0
         for i, v in enumerate(x)]
    c = [abs(v - 12) / 2 + ((i * 5) % 4) / 4 for i, v in enumerate(x)]
    out.append((x + [300.0, -250.0, NAN, S], b + [0, 1, 1, 0],
                c + [30.0, -20.0, 2.0, 3.0]))
    return [(np.array(a), np.array(y).astype(int), np.array(z))
            for a, y, z in out]


PRE = [{}, {"user_splits": [1.5, 3.0, 6.0]},
       {"user_splits": [0.0, 2.5, 5.0], "user_splits_fixed":
        [False, True, True]},
       {"prebinning_method": "quantile", "max_n_prebins": 5},
       {"prebinning_method": "uniform", "max_n_prebins": 6,
        "max_n_bins": 3, "min_bin_size": 0.1},
       {"min_n_bins": 3, "max_pvalue": 0.9, "min_prebin_size": 0.1},
       {"outlier_detector": "range",
        "outlier_params": {"k": 0.3}},
       {"outlier_detector": "zscore", "outlier_params": {"threshold": 1.2},
        "split_digits": 0},
       {"max_n_bins": 1}, {"max_bin_size": 0.6, "max_n_prebins": 8}]
FIT = [{"objective": "l2"}, {"objective": "l1"},
       {"objective": "huber", "h_epsilon": 1.1},
       {"objective": "quantile", "quantile": 0.3},
       {"objective": "l2", "regularization": "l2", "reg_l2": 0.2},
       {"objective": "l1", "regularization": "l1", "reg_l1": 0.05}]
SHAPE = [(d, c, v) for d in (0, 1, 2, 3) for c in (True, False)
         for v in (True, False) if v or (d > 1 and c)]
TREND = ["auto", None, "ascending", "descending", "peak", "valley",
         "concave", "convex"]
BOUND = {"bin": [(None, None), (0.001, 0.999), (0.2, None), (None, 0.7)],
         "cont": [(None, None), (1.0, 6.0), (2.0, None), (None, 5.0)]}


def tasks(tier):
    q = tier == "quick"
    n = 0
    for kind in ("bin", "cont"):
        for d, (i, sh), t, (j, b) in itertools.product(
                range(4), enumerate(SHAPE), range(len(TREND)),
                enumerate(BOUND[kind])):
            n += 1
            if q and (n * 7 + i + n // 8 + n // 32) % 6:
                continue
            for k in range(1 if q else 3):
                yield {"k": kind, "d": d, "sh": i, "t": t, "b": j,
                       "p": (n * 3 + n // 5 + 4 * k) % len(PRE),
                       "f": 0 if (n + k) % 2 else (n // 2 + k) % len(FIT),
                       "s": (n + n // 3 + k) % len(SPEC),
                       "e": (n // 2 + k) % 3}
        for d, p in itertools.product(range(4), range(len(PRE))):
            for s in range(len(SPEC)):
                if q and (s + p + d) % 3:
                    continue
                yield {"k": kind, "d": d, "sh": (p + d) % 3, "t": p % 2,
                       "b": 0, "p": p, "f": 0, "s": s, "e": p % 3}
        for d in range(4):
            yield {"k": "sub", "t": kind, "d": d}
            yield {"k": "hist", "t": kind, "d": d}
        yield {"k": "api", "t": kind}


def run(desc, ctx):
    {"bin": fit, "cont": fit, "sub": sub, "hist": hist, "api": api}[
        desc["k"]](desc, ctx)


class Steps:
    """an estimator that is a step function"""

    def __init__(self, cuts=(2.5, 6.0)):
        self.cuts = cuts

    def get_params(self, deep=True):
        return {"cuts": self.cuts}

    def set_params(self, **kw):
        return self

    def fit(self, x, y):
        self.y_ = float(np.mean(y))
        self.shape_ = x.shape
        return self

    def predict_proba(self, x):
        k = np.digitize(x[:, 0], self.cuts)
        p = np.array([0.15, 0.8, 0.4])[k] * 0.8 + 0.2 * self.y_
        return np.c_[1 - p, p]


def estimator(e):
    from sklearn.linear_model import LogisticRegression
    return [None, LogisticRegression(C=0.1), Steps()][e]


def build(kind, kw, e=0):
    from optbinning import ContinuousOptimalPWBinning, OptimalPWBinning
    if kind == "bin":
        return OptimalPWBinning(name="x", estimator=estimator(e), **kw)
    return ContinuousOptimalPWBinning(name="x", **kw)


def plain(kind, kw, trend, x, y):
    """the underlying binning of the clean data"""
    from optbinning import ContinuousOptimalBinning, OptimalBinning
    names = ("prebinning_method", "max_n_prebins", "min_prebin_size",
             "min_n_bins", "max_n_bins", "min_bin_size", "max_bin_size",
             "max_pvalue", "max_pvalue_policy", "user_splits",
             "user_splits_fixed", "split_digits")
    k = {n: kw[n] for n in names if n in kw}
    c = OptimalBinning if kind == "bin" else ContinuousOptimalBinning
    return c(dtype="numerical", monotonic_trend=trend, **k).fit(x, y)


def outliers(x, y, kw):
    from optbinning.binning import outlier
    d = kw.get("outlier_detector")
    if d is None:
        return np.zeros(len(x), dtype=bool)
    c = {"range": outlier.RangeDetector,
         "zscore": outlier.ModifiedZScoreDetector}[d](
             **kw.get("outlier_params", {}))
    return c.fit(x).get_support()


def groups(x, sc):
    """-2 regular, -1 missing, k-th special group"""
    g = []
    for v in x:
        if v != v:
            g.append(-1)
            continue
        h = -2
        if isinstance(sc, dict):
            for k, s in enumerate(sc.values()):
                if v in (s if isinstance(s, list) else [s]):
                    h = k
        elif sc is not None and v in sc:
            h = 0
        g.append(h)
    return np.array(g)


def trend_of(m):
    """trend of distinct means, or None if undefined"""
    up = [b > a for a, b in zip(m, m[1:])]
    if not up:
        return None
    ch = sum(a != b for a, b in zip(up, up[1:]))
    if ch == 0:
        return "ascending" if up[0] else "descending"
    if ch == 1:
        return "peak" if up[0] else "valley"
    return None


def same(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(
        (np.isnan(a) & np.isnan(b)) | (a == b) |
        (np.abs(a - b) <= tol * np.maximum(1, np.abs(b)))))


GRID = [-1000.0, -250.0, -3.0, -2.0, -1.0, -0.25, 0.0, 0.5, 1.0, 1.5, 2.0, 2.5,
        3.0, 3.7, 4.0, 5.0, 5.9, 6.0, 7.0, 8.3, 9.0, 11.0, 14.0, 20.0, 55.0,
        300.0, 1e4]


def woe_of(p, tn, te):
    r = te / tn
    return -math.log(p / (1 - p) / r) if 0 < p < 1 else None


def value(kind, x, y, splits):
    """objective of the underlying optimal binning"""
    ix = np.digitize(x, splits)
    gr = [y[ix == i] for i in range(len(splits) + 1)]
    if kind == "cont":
        return sum(abs(g.mean() - y.mean()) for g in gr)
    t = y.sum()
    return sum(ref.iv_term((len(g) - g.sum()) / (len(y) - t), g.sum() / t)
               for g in gr)


def fit(desc, ctx):
    from ropwr import RobustPWRegression
    kind = desc["k"]
    x, yb, yc = datasets()[desc["d"]]
    y = yb if kind == "bin" else yc
    deg, cont, der = SHAPE[desc["sh"]]
    trend = TREND[desc["t"]]
    sc = SPEC[desc["s"]]
    lb, ub = BOUND[kind][desc["b"]]
    kw = dict(PRE[desc["p"]], degree=deg, continuous=cont,
              continuous_deriv=der, monotonic_trend=trend, special_codes=sc,
              **FIT[desc["f"]])
    g = groups(x, sc)
    xr, yr = x[g == -2], y[g == -2]
    out = outliers(xr, yr, kw)
    xc, yc_ = xr[~out], yr[~out]
    what = "{}".format(desc)
    ob = build(kind, kw, desc["e"])
    before = str(ob.get_params())
    xin, yin = x.copy(), y.copy()
    # reference
    why = None
    inner = "auto" if trend in ("concave", "convex") else trend
    try:
        if trend in ("concave", "convex") and deg > 1:
            raise ValueError("degree")
        pl = plain(kind, kw, inner, xc, yc_)
        splits = np.asarray(pl.splits, dtype=float)
        nb = len(splits) + 1
        ix = np.digitize(xc, splits)
        means = [yc_[ix == i].mean() for i in range(nb)]
        tr = trend
        if trend == "auto":
            tr = trend_of(means)
            if len(set(means)) < nb:
                from optbinning.binning.auto_monotonic import \
                    type_of_monotonic_trend
                tr = type_of_monotonic_trend(np.array(means)).split()[0]
                if tr in ("undefined", "no"):
                    tr = None
        if kind == "bin":
            from sklearn.linear_model import LogisticRegression
            e = estimator(desc["e"]) or LogisticRegression()
            e.fit(xc.reshape(-1, 1), yc_)
            pred = e.predict_proba(xc.reshape(-1, 1))[:, 1]
        else:
            pred = yc_
        pw = RobustPWRegression(degree=deg, continuous=cont,
                                continuous_deriv=der, monotonic_trend=tr,
                                **FIT[desc["f"]])
        # ropwr moves null splits to the right of zero
        pw.fit(xc, pred, np.where(splits == 0, -1e-9, splits), lb=lb, ub=ub)
        want = pw.coef_
        if not np.isfinite(np.asarray(want, dtype=float)).all():
            want = None
    except Exception as ex:
        want = None
        why = ex
    ctx.step()
    ctx.state(desc)
    try:
        ob.fit(x, y, lb=lb, ub=ub)
    except Exception as ex:
        if want is None:
            ctx.outcome(["rejected", trend, cont, type(ex).__name__])
            return
        ctx.fail("{}: fit failed {!r}".format(what, ex), "crash")
        return
    if want is None:
        ctx.outcome(["no reference", trend, cont])
        return
    ctx.check(str(ob.get_params()) == before, lambda: "{}: fit changed the "
              "parameters {} -> {}".format(what, before, ob.get_params()),
              "params")
    ctx.check(same(x, xin) and same(y, yin), "input modified", "input")
    if not same(ob.splits, splits):
        # ties of the underlying optimal binning
        tie = abs(value(kind, xc, yc_, ob.splits) -
                  value(kind, xc, yc_, splits)) < 1e-5
        ctx.check(tie, lambda: "{}: splits {} expected {}".format(
            what, ob.splits, splits), "splits")
        ctx.outcome(["tie", tie])
        return
    ctx.agree()
    nc = ob.binning_table.coef.shape[1]
    df = ob.binning_table.build()
    df0 = ob.binning_table.build(add_totals=False)
    c = df0[["c{}".format(i) for i in range(deg + 1)]].values.astype(float)
    if not ctx.check(nc == deg + 1 and "c{}".format(deg + 1) not in df0,
                     "{}: coefficients".format(what), "coef"):
        return
    scale = max(1.0, np.abs(pred).max())
    xs = np.sort(xc)

    def poly(v, cc=c):
        i = int(np.searchsorted(splits, v, side="right"))
        return float(np.polyval(cc[i][::-1], v))
    fw = [poly(v, want) for v in xs]
    fg = np.array([poly(v) for v in xs])
    ctx.check(np.abs(fg - fw).max() <= 1e-6 * scale, lambda: "{}: fitted "
              "{} expected {}".format(what, c[:nb].tolist(), want.tolist()),
              "coef")
    shape(desc, ctx, what, xs, fg, c, splits, deg, cont, der, tr, lb, ub,
          scale)
    loss(desc, ctx, what, xc, pred, c, splits, deg, cont, tr, lb, ub, scale)
    gc = g.copy()
    table(desc, ctx, what, df, df0, x, y, gc, splits, sc, out, c)
    if kind == "bin":
        check_transform_bin(desc, ctx, what, ob, x, y, g, out, splits, sc,
                            poly)
    else:
        check_transform_cont(desc, ctx, what, ob, x, y, g, splits, sc, poly)
    metrics(desc, ctx, what, ob, kind, xc, yc_, y, g, out, poly, lb, ub, sc)
    analysis(desc, ctx, what, ob, kind, df0, sc, splits, yc_, ix)
    s = ob.status
    ctx.check(s == "OPTIMAL" or (isinstance(s, (list, np.ndarray)) and
                                 all(z == "OPTIMAL" for z in s))
              or "NUMERICAL" in str(s) or "FEASIBLE" in str(s)
              or "INACCURATE" in str(s).upper(),
              lambda: "{}: status {}".format(what, s), "status")
    ctx.outcome([kind, trend, str(tr), deg, cont, nb])


def shape(desc, ctx, what, xs, fg, c, splits, deg, cont, der, tr, lb, ub,
          scale):
    tol = 2e-3 * scale
    if cont:
        for i, s in enumerate(splits):
            d = sum((c[i][k] - c[i + 1][k]) * s ** k for k in range(deg + 1))
            ctx.check(abs(d) <= tol, lambda: "{}: jump {} at {}".format(
                what, d, s), "continuous")
            if der and deg > 1:
                d = sum(k * (c[i][k] - c[i + 1][k]) * s ** (k - 1)
                        for k in range(1, deg + 1))
                ctx.check(abs(d) <= 1e-2 * scale, lambda: "{}: jump {} of the "
                          "derivative at {}".format(what, d, s), "derivative")
        ctx.agree()
    n = len(splits) + 1
    ix = np.digitize(xs, splits)
    ok = None
    if (cont or deg == 0) and deg < 2:
        # steps of the levels or slopes
        if tr in ("ascending", "descending", "peak", "valley"):
            d = np.diff(fg)
            if tr == "ascending":
                ok = d.min() >= -tol
            elif tr == "descending":
                ok = d.max() <= tol
            else:
                z = fg if tr == "peak" else -fg
                run = np.maximum.accumulate(z)
                back = np.maximum.accumulate(z[::-1])[::-1]
                # a change point separates the two parts
                ok = any((run[:i + 1] - z[:i + 1]).max() <= tol and
                         (back[i:] - z[i:]).max() <= tol
                         for i in range(len(z)))
        elif tr in ("concave", "convex") and deg == 1:
            sl = [c[i][1] for i in range(n)]
            w = 1 if tr == "convex" else -1
            ok = all(w * (b - a) >= -1e-3 * scale for a, b in zip(sl, sl[1:]))
    elif deg > 0 and tr in ("ascending", "descending"):
        # the derivative at every value
        w = 1 if tr == "ascending" else -1
        ok = all(w * sum(k * c[i][k] * v ** (k - 1)
                         for k in range(1, deg + 1)) >= -1e-2 * scale
                 for v, i in zip(xs, ix))
    if ok is not None:
        ctx.check(ok, lambda: "{}: not {}: {}".format(what, tr, fg.tolist()),
                  "trend")
        ctx.agree()
    if deg > 1 and np.abs(xs).max() > 30:
        return      # badly conditioned
    if tr is None or (deg < 2 and cont and tr not in ("peak", "valley")):
        if lb is not None:
            ctx.check(fg.min() >= lb - tol, lambda: "{}: {} below {}".format(
                what, fg.min(), lb), "bounds")
        if ub is not None:
            ctx.check(fg.max() <= ub + tol, lambda: "{}: {} above {}".format(
                what, fg.max(), ub), "bounds")


def loss(desc, ctx, what, x, p, c, splits, deg, cont, tr, lb, ub, scale):
    """the minimum is known without constraints between the bins"""
    if tr is not None or lb is not None or ub is not None or \
            desc["f"] not in (0, 1) or (cont and len(splits)):
        return
    ix = np.digitize(x, splits)
    for i in range(len(splits) + 1):
        xi, pi = x[ix == i], p[ix == i]
        r = pi - sum(c[i][k] * xi ** k for k in range(deg + 1))
        A = np.vander(xi, deg + 1, increasing=True)
        if desc["f"] == 0:
            got = (r ** 2).sum()
            z = np.linalg.lstsq(A, pi, rcond=None)[0]
            best = ((pi - A @ z) ** 2).sum()
        else:
            def pin(r):
                return np.abs(r).sum()
            got = pin(r)
            if deg > 1:
                continue
            # an optimal function interpolates deg + 1 points
            best = INF
            u = sorted(set(range(len(xi))))
            for s in itertools.combinations(u, deg + 1):
                if len(set(xi[list(s)])) < deg + 1:
                    continue
                z = np.linalg.solve(A[list(s)], pi[list(s)])
                best = min(best, pin(pi - A @ z))
            if best == INF:
                continue
        ctx.check(got <= best + 1e-3 * scale * max(1, len(xi)) * 0.1,
                  lambda: "{}: bin {} loss {} minimum {}".format(
                      what, i, got, best), "loss")
        ctx.agree()


def labels(splits, sc):
    e = [-INF] + list(splits) + [INF]
    b = []
    for a, z in zip(e, e[1:]):
        b.append("{}{}, {})".format("(" if a == -INF else "[",
                                    *["-inf" if v == -INF else "inf"
                                      if v == INF else "{:.2f}".format(v)
                                      for v in (a, z)]))
    return b + (list(sc) if isinstance(sc, dict) else ["Special"]) + [
        "Missing"]


def table(desc, ctx, what, df, df0, x, y, g, splits, sc, out, c):
    nb = len(splits) + 1
    nsp = len(sc) if isinstance(sc, dict) else 1
    row = np.full(len(x), -1)
    k = np.nonzero(g == -2)[0][~out]
    row[k] = np.digitize(x[k], splits)
    row[g == -1] = nb + nsp
    for s in range(nsp):
        row[g == s] = nb + s
    n = nb + nsp + 1
    ctx.check(list(df0["Bin"]) == labels(splits, sc), lambda: "{}: bins {}"
              .format(what, list(df0["Bin"])), "table")
    cnt = np.array([(row == i).sum() for i in range(n)])
    tot = (row >= 0).sum()
    ctx.check(list(df0["Count"]) == cnt.tolist() and same(
        df0["Count (%)"], cnt / tot), lambda: "{}: counts {} expected {}"
        .format(what, list(df0["Count"]), cnt), "table")
    t = df.loc["Totals"]
    ctx.check(t["Count"] == tot and t["Count (%)"] == 1, lambda:
              "{}: totals {}".format(what, t.tolist()), "table")
    if desc["k"] == "bin":
        ev = np.array([y[row == i].sum() for i in range(n)])
        ctx.check(list(df0["Event"]) == ev.tolist() and
                  list(df0["Non-event"]) == (cnt - ev).tolist() and
                  t["Event"] == ev.sum() and
                  t["Non-event"] == (cnt - ev).sum(), lambda:
                  "{}: events {} expected {}".format(what, list(df0["Event"]),
                                                     ev), "table")
        extra = [ev[i] / cnt[i] if cnt[i] else 0 for i in range(nb, n)]
    else:
        gr = [y[row == i] for i in range(n)]
        sm = [v.sum() for v in gr]
        ctx.check(same(df0["Sum"], sm) and abs(t["Sum"] - sum(sm)) < 1e-9
                  * max(1, abs(sum(sm))), lambda: "{}: sums {} expected {}"
                  .format(what, list(df0["Sum"]), sm), "table")
        for name, f in (("Std", np.std), ("Min", np.min), ("Max", np.max)):
            w = [f(v) if len(v) else None for v in gr]
            gt = [None if v is None or v != v else v for v in df0[name]]
            ctx.check(all((a is None) == (b is None) and
                          (a is None or abs(a - b) < 1e-9 * max(1, abs(b)))
                          for a, b in zip(gt, w)), lambda:
                      "{}: {} {} expected {}".format(what, name, gt, w),
                      "table")
        ctx.check(t["Min"] == min(v.min() for v in gr if len(v)) and
                  t["Max"] == max(v.max() for v in gr if len(v)), lambda:
                  "{}: Min and Max of the totals {} {}".format(
                      what, t["Min"], t["Max"]), "table-totals")
        z = [int((v == 0).sum()) for v in gr]
        ctx.check(list(df0["Zeros count"]) == z and t["Zeros count"] ==
                  sum(z), lambda: "{}: zeros {} expected {}".format(
                      what, list(df0["Zeros count"]), z), "table")
        extra = [s / k if k else 0 for s, k in zip(sm[nb:], cnt[nb:])]
    ctx.check(same(c[nb:, 0], extra) and not c[nb:, 1:].any(), lambda:
              "{}: special and missing {} expected {}".format(
                  what, c[nb:].tolist(), extra), "table-extra")
    ctx.agree()


TREAT = [(0, 0), ("empirical", "empirical"), (-7.5, "empirical"),
         ("empirical", 3)]


def special_values(x, y, g, sc):
    """empirical means of the special groups and missing"""
    nsp = len(sc) if isinstance(sc, dict) else 1
    sp = [y[g == s].mean() if (g == s).any() else 0.0 for s in range(nsp)]
    ms = y[g == -1].mean() if (g == -1).any() else 0.0
    return sp, ms


def grid(sc):
    v = GRID + [NAN, S, T]
    return np.array(v), groups(v, sc)


def check_transform_bin(desc, ctx, what, ob, x, y, g, out, splits, sc, poly):
    v, gv = grid(sc)
    keep = np.ones(len(x), dtype=bool)
    keep[np.nonzero(g == -2)[0][out]] = False
    te = int(y[keep].sum())
    tn = int(keep.sum() - te)
    sp, ms = special_values(x, y, g, sc)
    for metric, (i, (a, b)), (lo, hi) in itertools.product(
            ("woe", "event_rate"), enumerate(TREAT),
            [(None, None), (0.05, 0.9), (0.3, None), (None, 0.6)]):
        if (i + (lo is None) + desc["d"]) % 2 and lo != 0.05:
            continue
        got = ob.transform(v if i % 2 else v.tolist() if i == 0 else
                           _series(v), metric=metric, metric_special=a,
                           metric_missing=b, lb=lo, ub=hi,
                           check_input=bool(i % 2))
        ctx.step()
        bad = None
        for z, h, r in zip(v, gv, got):
            if h == -2:
                w = poly(z)
                if lo is not None:
                    w = max(w, lo)
                if hi is not None:
                    w = min(w, hi)
                if metric == "woe":
                    if not 1e-6 < w < 1 - 1e-6:
                        # no WoE: a finite value of the right sign
                        if not (math.isfinite(r) and (r > 0) == (
                                w < te / (tn + te))):
                            bad = (z, r, w)
                        continue
                    w = woe_of(w, tn, te)
            else:
                t = b if h == -1 else a
                e = ms if h == -1 else sp[h]
                if t == "empirical":
                    w = e
                    if metric == "woe":
                        w = woe_of(e, tn, te) or 0.0
                else:
                    w = t
            if not abs(r - w) <= 1e-7 * max(1, abs(w)):
                bad = (z, r, w)
        ctx.check(bad is None, lambda: "{}: transform {} {} {} {} of {} is {} "
                  "expected {}".format(what, metric, (a, b), lo, hi, *bad),
                  "transform")
        ctx.agree()


def _series(v):
    import pandas as pd
    return pd.Series(v, index=range(5, 5 + len(v)))


def check_transform_cont(desc, ctx, what, ob, x, y, g, splits, sc, poly):
    v, gv = grid(sc)
    sp, ms = special_values(x, y, g, sc)
    for (i, (a, b)), (lo, hi) in itertools.product(
            enumerate(TREAT),
            [(None, None), (1.5, 4.0), (3.0, None), (None, 2.0)]):
        if (i + (lo is None) + desc["d"]) % 2 and lo != 1.5:
            continue
        got = ob.transform(v if i % 2 else v.tolist() if i == 0 else
                           _series(v), metric_special=a, metric_missing=b,
                           lb=lo, ub=hi, check_input=bool(i % 2))
        ctx.step()
        bad = None
        for z, h, r in zip(v, gv, got):
            if h == -2:
                w = poly(z)
                if lo is not None:
                    w = max(w, lo)
                if hi is not None:
                    w = min(w, hi)
            else:
                t = b if h == -1 else a
                w = (ms if h == -1 else sp[h]) if t == "empirical" else t
            if not abs(r - w) <= 1e-7 * max(1, abs(w)):
                bad = (z, r, w)
        ctx.check(bad is None, lambda: "{}: transform {} {} {} of {} is {} "
                  "expected {}".format(what, (a, b), lo, hi, *bad),
                  "transform")
        ctx.agree()


def metrics(desc, ctx, what, ob, kind, x, y, yall, g, out, poly, lb, ub, sc):
    d = ob.binning_table.d_metrics
    if kind == "bin":
        p = np.clip([poly(v) for v in x], 1e-8, 1 - 1e-8)
        from checks import c24_metrics as c24
        w = {"Gini index": abs(2 * c24.auc(y.tolist(), p.tolist()) - 1),
             "KS": None, "Brier score": ((p - y) ** 2).mean()}
        got = d["Gini index"]
        ctx.check(abs(abs(got) - w["Gini index"]) < 1e-7, lambda:
                  "{}: gini {} expected {}".format(what, got,
                                                   w["Gini index"]), "metric")
        ctx.check(abs(d["Brier score"] - w["Brier score"]) < 1e-9, lambda:
                  "{}: brier {}".format(what, d["Brier score"]), "metric")
        te = y.sum() + yall[g != -2].sum()
        n = len(y) + (g != -2).sum()
        tn = n - te
        r = te / n
        pi, qi = (1 - p) / (1 - r), p / r
        fs = {"IV (Jeffrey)": ref.iv_term, "JS (Jensen-Shannon)": ref.js_term,
              "Hellinger": ref.hellinger_term, "Triangular":
              ref.triangular_term}
        for name, f in fs.items():
            w = sum(f(a, b) for a, b in zip(pi, qi)) / n
            nsp = len(sc) if isinstance(sc, dict) else 1
            for s in range(nsp):
                e = yall[g == s].sum()
                m = (g == s).sum() - e
                if e > 0 and m > 0:
                    w += f(m / tn, e / te) / nsp
            e = yall[g == -1].sum()
            m = (g == -1).sum() - e
            if e > 0 and m > 0:
                w += f(m / tn, e / te)
            ctx.check(abs(d[name] - w) < 1e-7 * max(1, abs(w)), lambda:
                      "{}: {} {} expected {}".format(what, name, d[name], w),
                      "metric-div")
    else:
        p = np.array([poly(v) for v in x])
        if lb is not None:
            p = np.maximum(p, lb)
        if ub is not None:
            p = np.minimum(p, ub)
        mse = ((p - y) ** 2).mean()
        mae = np.abs(p - y).mean()
        ctx.check(abs(d["Mean squared error"] - mse) < 1e-7 * max(1, mse) and
                  abs(d["Mean absolute error"] - mae) < 1e-7 * max(1, mae),
                  lambda: "{}: {} expected mse {} mae {}".format(
                      what, d, mse, mae), "metric")
    ctx.agree()


def analysis(desc, ctx, what, ob, kind, df0, sc, splits, y, ix):
    from scipy import stats
    bt = ob.binning_table
    nb = len(splits) + 1
    cap = io.StringIO()
    with contextlib.redirect_stdout(cap):
        if kind == "bin":
            bt.analysis(pvalue_test="chi2" if desc["d"] % 2 else "fisher")
        else:
            bt.analysis()
    txt = cap.getvalue()
    pv = []
    for i in range(nb - 1):
        a, b = y[ix == i], y[ix == i + 1]
        if kind == "bin":
            o = np.array([[len(a) - a.sum() + .5, len(b) - b.sum() + .5],
                          [a.sum() + .5, b.sum() + .5]])
            pv.append(stats.chi2_contingency(o, correction=False)[1]
                      if desc["d"] % 2 else stats.fisher_exact(o)[1])
        else:
            pv.append(stats.ttest_ind_from_stats(
                a.mean(), a.std(), len(a), b.mean(), b.std(), len(b),
                False)[1])
    if "Significance tests\n\n" not in txt:
        ctx.fail("{}: no tests".format(what), "analysis")
        return
    rows = [r.split() for r in txt.split("Significance tests\n\n")[1]
            .splitlines() if r.strip()]
    if nb == 1:
        ctx.check(rows == [["None"]], lambda: "{}: tests {}".format(
            what, rows), "analysis")
    else:
        ctx.check(len(rows) == nb and all(
            int(r[0]) == i and int(r[1]) == i + 1 and (
                (p != p and r[3] in ("NaN", "nan")) or
                abs(float(r[3]) - p) <= 2e-2 * p + 1e-5)
            for i, (r, p) in enumerate(zip(rows[1:], pv))), lambda:
            "{}: tests {} expected {}".format(what, rows, pv), "analysis")
    cn = df0["Count (%)"].values.astype(float)
    h = (cn ** 2).sum()
    ctx.check("{:.8f}".format(h) in txt, lambda: "{}: HHI {} {}".format(
        what, h, txt), "hhi")
    hn = (h - 1 / len(cn)) / (1 - 1 / len(cn))
    if kind == "bin":
        c0 = 0.39573882184806863
        q1 = bt.iv * math.exp(.5 * (1 - (bt.iv / c0) ** 2)) / c0
    else:
        # significance and homogeneity only
        q1 = 1 - 1e-6
    for p in pv:
        q1 *= 1 - p
    q1 *= 1 - hn
    qs = bt.quality_score
    ctx.check(ref.close(qs, q1, 1e-7, 1e-9) or (qs != qs and q1 != q1), lambda:
              "{}: quality {} expected {}".format(what, qs, q1), "quality")
    if kind == "bin":
        ctx.check((bt.iv, bt.js, bt.ks) == (
            bt.d_metrics["IV (Jeffrey)"], bt.d_metrics["JS (Jensen-Shannon)"],
            bt.d_metrics["KS"]) and bt.gini == bt.d_metrics["Gini index"],
            "{}: table properties".format(what), "props")
    else:
        s, c = df0["Sum"].values.astype(float), df0["Count"].values.astype(
            float)
        m = np.array([a / b if b else 0 for a, b in zip(s, c)])
        w = np.abs(m - s.sum() / c.sum()).sum()
        ctx.check(abs(bt.woe - w) < 1e-9 * max(1, w), "{}: woe {} {}".format(
            what, bt.woe, w), "props")
    ctx.agree()


def tied(kind, x, y, sc, a, b):
    """different splits with the same objective"""
    g = groups(x, sc) == -2
    return list(a) != list(b) and abs(
        value(kind, x[g], y[g], a) - value(kind, x[g], y[g], b)) < 1e-5


def coefs(a, b, desc):
    """the predictions agree up to the tolerance of OSQP"""
    v = np.linspace(0, 8, 50)
    k = {"metric": "event_rate"} if desc["t"] == "bin" else {}
    a, b = a.transform(v, **k), b.transform(v, **k)
    return np.abs(a - b).max() <= 1e-2 * max(1, np.abs(a).max())


def sub(desc, ctx):
    """subsamples: deterministic, only the coefficients change"""
    x, yb, yc = datasets()[desc["d"]]
    y = yb if desc["t"] == "bin" else yc
    n = int((groups(x, None) == -2).sum())
    full = build(desc["t"], {}).fit(x, y)
    base = full.binning_table.build()
    for k in (20, n - 1, n, n + 1, 1000):
        for seed in (0, 1, 7):
            ctx.step()
            ctx.state([desc, k, seed])
            try:
                a = build(desc["t"], {"n_subsamples": k,
                                      "random_state": seed}).fit(x, y)
                b = build(desc["t"], {"n_subsamples": k,
                                      "random_state": seed}).fit(x, y)
            except Exception as ex:
                # a bin without subsampled rows has no solution
                ctx.check(k < n, lambda: "{} of {} subsamples: {!r}".format(
                    k, n, ex), "sub-crash")
                continue
            if tied(desc["t"], x, y, None, a.splits, b.splits) or \
                    tied(desc["t"], x, y, None, a.splits, full.splits):
                ctx.outcome("tie")
                continue
            ta, tb = a.binning_table.build(), b.binning_table.build()
            ctx.check(coefs(a, b, desc), lambda: "subsample {} seed {}: {} {}"
                      .format(k, seed, ta, tb), "sub-det")
            cols = [z for z in base if not (z[0] == "c" and
                                            z[1:].isdigit())]
            ctx.check(ta[cols].equals(base[cols]), "subsample {} changes the "
                      "table".format(k), "sub-table")
            if k >= n:
                ctx.check(coefs(a, full, desc), "{} subsamples of {} rows".format(
                    k, n), "sub-all")
            ctx.agree()
    ctx.outcome([desc["t"], n])


def hist(desc, ctx):
    """refit answers as a fresh object; fit_transform is fit and transform"""
    kind = desc["t"]
    ds = datasets()
    lb, ub = BOUND[kind][1]
    confs = [{}, {"special_codes": SPEC[1], "degree": 2},
             {"special_codes": SPEC[2], "continuous": False,
              "monotonic_trend": "ascending", "degree": 1}]
    v, _ = grid(None)
    # the solver is not deterministic: no extrapolation far from the data
    v = v[~((v < -3) | (v > 20))]

    er = {"metric": "event_rate"} if kind == "bin" else {}

    def look(o):
        t = o.binning_table.build(add_totals=False)
        k = [z for z in t if not (z[0] == "c" and z[1:].isdigit())]
        return [str(t[k].values.tolist()), np.asarray(
            o.transform(v, lb=lb, ub=ub, metric_special="empirical",
                        metric_missing="empirical", **er)), list(o.splits)]

    def equal(a, b):
        # OSQP is not deterministic
        return a[0] == b[0] and a[2] == b[2] and same(a[1], b[1], 5e-2)
    for c in confs:
        fresh = []
        for x, yb, yc in ds:
            y = yb if kind == "bin" else yc
            fresh.append(look(build(kind, c).fit(x, y)))
        for a in range(4):
            o = build(kind, c)
            for b in (a, desc["d"], a):
                x, yb, yc = ds[b]
                y = yb if kind == "bin" else yc
                o.fit(x, y)
                ctx.step()
                if tied(kind, x, y, c.get("special_codes"), o.splits,
                        fresh[b][2]):
                    ctx.outcome("tie")
                    continue
                ctx.check(equal(look(o), fresh[b]), lambda:
                          "{} {} refit on {} after {}".format(kind, c, b, a),
                          "refit")
            ctx.state([desc, str(c), a])
            ctx.agree()
        x, yb, yc = ds[desc["d"]]
        y = yb if kind == "bin" else yc
        for l, u in ((None, None), (lb, ub)):
            p = build(kind, c).fit(x, y, lb=l, ub=u)
            q = build(kind, c)
            kw = dict(metric_special=-1, metric_missing="empirical", lb=l,
                      ub=u)
            for m in ("woe", "event_rate") if kind == "bin" else (None,):
                if m:
                    kw["metric"] = m
                r = q.fit_transform(x, y, **kw)
                if tied(kind, x, y, c.get("special_codes"), p.splits,
                        q.splits):
                    ctx.outcome("tie")
                    continue
                ctx.check(same(r, p.transform(x, **kw), 5e-2),
                          "fit_transform", "fit_transform")
    ctx.outcome(desc)


def api(desc, ctx):
    from sklearn.exceptions import NotFittedError
    kind = desc["t"]
    x, yb, yc = datasets()[0]
    y = yb if kind == "bin" else yc
    bad = [{"objective": "x"}, {"degree": -1}, {"degree": 6}, {"degree": 1.5},
           {"continuous": 1}, {"continuous_deriv": None},
           {"prebinning_method": "mdlp"}, {"max_n_prebins": 1},
           {"min_prebin_size": 0.0}, {"min_n_bins": 0}, {"max_n_bins": 0},
           {"min_n_bins": 3, "max_n_bins": 2}, {"min_bin_size": 0.6},
           {"max_bin_size": 1.5}, {"min_bin_size": 0.4, "max_bin_size": 0.3},
           {"monotonic_trend": "x"}, {"monotonic_trend": "convex",
                                      "degree": 2},
           {"n_subsamples": 0}, {"max_pvalue": 1.5},
           {"max_pvalue_policy": "x"}, {"outlier_detector": "x"},
           {"outlier_detector": "range", "outlier_params": []},
           {"user_splits": 3}, {"user_splits_fixed": [True]},
           {"user_splits": [1, 2], "user_splits_fixed": [True]},
           {"special_codes": 3}, {"special_codes": {}}, {"split_digits": 9},
           {"solver": "x"}, {"h_epsilon": 0.5}, {"quantile": 1.0},
           {"regularization": "x"}, {"reg_l1": -1}, {"reg_l2": -1},
           {"random_state": "a"}, {"verbose": 1}, {"name": 1}]
    if kind == "bin":
        bad.append({"est": 1})
    for b in bad:
        ctx.step()
        ctx.state([desc, str(b)])
        o = build(kind, {})
        o.fit(x, y)
        t = o.binning_table.build()
        try:
            if "est" in b:
                o.set_params(estimator=3)
            else:
                o.set_params(**b)
            o.fit(x, y)
            ctx.fail("{} accepted".format(b), "api-bad")
        except (ValueError, TypeError):
            pass
        ctx.check(o.binning_table.build().equals(t), "{}: failed fit changed "
                  "the table".format(b), "api-keep")
        ctx.agree()
    o = build(kind, {})
    for f in (lambda: o.transform(x), lambda: o.binning_table,
              lambda: o.splits, lambda: o.status, lambda: o.information()):
        try:
            f()
            ctx.fail("answered before fit", "api-notfitted")
        except NotFittedError:
            pass
    o.fit(x, y)
    for f in (lambda: o.binning_table.analysis(),
              lambda: o.binning_table.plot()):
        try:
            f()
            ctx.fail("answered before build", "api-notbuilt")
        except Exception as ex:
            if type(ex).__name__ != "NotBuiltError" and "build" not in str(ex):
                ctx.fail("before build {!r}".format(ex), "api-notbuilt")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        for l in (0, 1, 2):
            o.information(l)
    ctx.check("OPTIMAL" in out.getvalue(), "information", "api-info")
    if kind == "bin":
        for m in ("mean", None, "indices"):
            try:
                o.transform(x, metric=m)
                ctx.fail("metric {} accepted".format(m), "api-metric")
            except ValueError:
                pass
    for kw in ({"metric_special": "x"}, {"metric_missing": "x"}):
        try:
            o.transform(x, **kw)
            ctx.fail("{} accepted".format(kw), "api-metric")
        except ValueError:
            pass
    ctx.outcome(kind)
