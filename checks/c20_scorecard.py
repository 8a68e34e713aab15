"""C20: scorecard points reproduce the score of every observation."""
import itertools
import math
import os
import shutil
import tempfile

import numpy as np
from sklearn.base import BaseEstimator

from mc import sig
from checks import c18_process as c18

PROPERTY = "C20"
BATCH = 6
RULE = ("(opt) every combination of target, variables, special codes, "
        "treatment of special and missing values, scaling, intercept, reverse "
        "and rounding options, and coefficient signs: every observation of "
        "the alphabet of bins (each bin, special, missing, unknown category, "
        "out of range) is scored and compared with the definition applied to "
        "the values the estimator sees. (round) every assignment of points "
        "of a grid to the bins of small scorecards: the rounding is compared "
        "with an exhaustive search. (hist) every pair of option sets fitted "
        "one after the other on the same object. (est) fitted scikit-learn "
        "estimators, weights, per-variable transform options, save and load.")
ASSUMPTIONS = ["30 rows, 4 variables",
               "scorecards whose total range of points is not zero",
               "CBC may return a suboptimal rounding (checked: the optimum of "
               "the model is the best rounding)",
               "bins themselves are covered by C01-C04 and C18"]
NAN = float("nan")
S = c18.S
TOL = 1e-7


class Fixed(BaseEstimator):
    """linear estimator with given coefficients"""
    def __init__(self, coefs=(1.0,), intercept=None, cls=True):
        self.coefs = coefs
        self.intercept = intercept
        self.cls = cls

    def fit(self, X, y, sample_weight=None):
        k = X.shape[1]
        c = np.array([self.coefs[i % len(self.coefs)] for i in range(k)])
        self.coef_ = c.reshape(1, -1) if self.cls else c
        if self.intercept is not None:
            self.intercept_ = (np.array([self.intercept]) if self.cls
                               else self.intercept)
        self.n_ = X.shape[0]
        return self

    def decision_function(self, X):
        return np.asarray(X) @ self.coef_.ravel() + (self.intercept or 0)

    def predict(self, X):
        d = self.decision_function(X)
        return (d > 0).astype(int) if self.cls else d

    def predict_proba(self, X):
        p = 1 / (1 + np.exp(-self.decision_function(X)))
        return np.c_[1 - p, p]


VARS = [["a", "d"], ["b"], ["b", "d", "c"], ["d", "a", "b", "c"], ["d"]]
SPEC = [None, [S], {"s": S, "t": [4.0, 3.0]}]
MET = [(0, 0), ("empirical", "empirical"), (1.5, "empirical"),
       ("empirical", -2), (-0.5, 0.25)]
SCAL = [(None, None),
        ("pdo_odds", {"pdo": 20, "odds": 3.0, "scorecard_points": 600}),
        ("pdo_odds", {"pdo": 7.5, "odds": 0.2, "scorecard_points": 50}),
        ("min_max", {"min": 300, "max": 850}),
        ("min_max", {"min": -5, "max": 12}),
        ("min_max", {"min": 0, "max": 3})]
COEF = [((1.0,), None), ((-0.7, 0.4), 0.9), ((1.3, 0.0, -2.0), -1.7),
        ((-1.0,), 0.25)]
CATS = ["d"]


def opts():
    for s, ib, rev, rnd in itertools.product(
            range(len(SCAL)), (0, 1), (0, 1), (0, 1)):
        if rnd and SCAL[s][0] is None:
            continue
        yield s, ib, rev, rnd


def tasks(tier):
    q = tier == "quick"
    n = 0
    for t in ("binary", "continuous"):
        for v, sp, m, c in itertools.product(
                range(len(VARS)), range(len(SPEC)), range(len(MET)),
                range(len(COEF))):
            n += 1
            if q and (v + 2 * sp + 3 * m + c) % 7:
                continue
            for cu in (0, 1, 2):
                if cu and (v == 1 or (q and (n + cu) % 2)):
                    continue
                yield {"k": "opt", "t": t, "v": v, "sp": sp, "m": m, "c": c,
                       "cu": cu}
    g = [-1.4, -0.5, 0.0, 0.3, 0.5, 1.5, 2.6]
    for shape in ((1, 1), (2,), (3,), (2, 1), (2, 2), (2, 1, 1), (2, 3),
                  (1, 1, 1), (2, 2, 2)):
        k = sum(shape)
        tot = len(g) ** k
        step = 1 if tot <= 400 else (tot // (150 if q else 1500)) | 1
        for lo in range(0, tot, step * 10):
            yield {"k": "round", "shape": shape, "lo": lo, "step": step,
                   "hi": min(tot, lo + step * 10)}
    o = list(opts())
    for i in range(len(o)):
        for j in range(len(o)):
            if q and (i + 5 * j) % 23:
                continue
            yield {"k": "hist", "i": i, "j": j}
    for t in ("binary", "continuous"):
        for sp, m in itertools.product(range(len(SPEC)), range(len(MET))):
            for tp in range(len(TP)):
                if q and (sp + m + tp) % 3:
                    continue
                yield {"k": "est", "t": t, "sp": sp, "m": m, "tp": tp}
    yield {"k": "api"}


def run(desc, ctx):
    globals()[desc["k"]](desc, ctx)


def process(v, sp, cu=0, tp=None, **kw):
    from optbinning import BinningProcess
    f = {}
    if cu and "d" in v:
        f = {"d": {"cat_unknown": [None, 0.75, 2][cu]}}
    return BinningProcess(variable_names=list(v), special_codes=SPEC[sp],
                          categorical_variables=[x for x in CATS if x in v],
                          binning_fit_params=f or None,
                          binning_transform_params=tp, **kw)


def observations(v):
    """all bins, special, missing, unknown, out of range"""
    import pandas as pd
    p = c18.pool()
    reps = {"a": sorted(set(p["a"]))[::3] + [-100.0, 1e6, S, 4.0, 3.0, NAN],
            "b": sorted(x for x in set(p["b"]) if x == x)[::3] + [
                NAN, S, 1e6, 3.0],
            "c": [float(x) for x in range(6)] + [NAN, S, 99.0],
            "d": ["u", "v", "w", "x", "y", "z", "new", None, "other"]}
    if len(v) <= 2:
        rows = list(itertools.product(*[reps[x] for x in v]))
    else:
        k = max(len(reps[x]) for x in v) * 5
        rows = [[reps[x][(i * (2 * j + 1)) % len(reps[x])]
                 for j, x in enumerate(v)] for i in range(k)]
    df = pd.DataFrame(rows, columns=v)
    for x in v:
        df[x] = df[x].astype(object if x in CATS else float)
    df.index = ["o%d" % (3 * i) for i in range(len(df))]
    return df


def best_rounding(points, lo, hi):
    """min L1 deviation of an integer rounding with given sum of minima and
    maxima; the minimum (maximum) may be moved to any bin"""
    best = {(0, 0): 0.0}
    for p in points:
        cand = {}
        n = len(p)
        ps = sorted(p)
        for a in range(math.floor(ps[0]) - 2, math.ceil(ps[0]) + 3):
            for b in range(max(a, math.floor(ps[-1]) - 2),
                           math.ceil(ps[-1]) + 3):
                if n == 1:
                    if a != b:
                        continue
                    cost = abs(ps[0] - a)
                else:
                    cost = abs(ps[0] - a) + abs(ps[-1] - b)
                    for x in ps[1:-1]:
                        cost += min(abs(x - min(max(r, a), b)) for r in
                                    (math.floor(x), math.ceil(x)))
                cand[a, b] = cost
        new = {}
        for (s, t), c in best.items():
            for (a, b), d in cand.items():
                k = (s + a, t + b)
                if c + d < new.get(k, math.inf):
                    new[k] = c + d
        best = new
    return best.get((lo, hi))


def check_rounding(points, got, lo, hi, ctx, what):
    """points, got: lists per variable"""
    flat = [x for g in got for x in g]
    if not ctx.check(all(abs(x - round(x)) < 1e-6 for x in flat), lambda:
                     "{}: not integers {}".format(what, got), "round-int"):
        return
    a, b = sum(min(g) for g in got), sum(max(g) for g in got)
    want = best_rounding(points, lo, hi)
    if want is None:
        return
    ctx.check(abs(a - lo) < 1e-6 and abs(b - hi) < 1e-6, lambda:
              "{}: points {} rounded to {}: total range [{}, {}] instead of "
              "[{}, {}]".format(what, points, got, a, b, lo, hi),
              "round-range")
    d = sum(abs(x - y) for p, g in zip(points, got) for x, y in zip(p, g))
    ctx.check(d < want + 1e-6 or solver_flaw(points, d, want), lambda:
              "{}: points {} rounded to {}: deviation {} best {}".format(
                  what, points, got, d, want), "round-opt")
    ctx.agree()


def solver_flaw(points, d, want):
    """CBC sometimes calls a suboptimal point OPTIMAL: true if the optimum of
    the model, found by another solver, is the best rounding and CBC itself
    returns this deviation"""
    import pandas as pd
    from ortools.linear_solver import linear_solver_pb2, pywraplp
    from optbinning.scorecard.rounding import RoundingMIP
    mip = RoundingMIP()
    mip.build_model(pd.DataFrame({
        "Variable": [str(i) for i, p in enumerate(points) for _ in p],
        "Points": [x for p in points for x in p]}))
    sat = pywraplp.Solver.CreateSolver("SCIP")
    proto = linear_solver_pb2.MPModelProto()
    mip.solver_.ExportModelToProto(proto)
    sat.LoadModelFromProto(proto)
    if sat.Solve() != pywraplp.Solver.OPTIMAL or abs(
            sat.Objective().Value() - want) > 1e-6:
        return False
    sol = mip.solve()[1]
    return abs(sum(abs(a - b) for a, b in zip(
        (x for p in points for x in p), sol)) - d) < 1e-6


def verify(sc, fx, y, opt, t, m, ctx, what, tp=None):
    """the whole contract of a fitted scorecard"""
    import pandas as pd
    s, ib, rev, rnd = opt
    v = list(sc.binning_process_.get_support(names=True))
    if not v:
        return False
    coef = np.ravel(sc.estimator_.coef_)
    I = float(np.ravel(getattr(sc.estimator_, "intercept_", 0.0))[0])
    dt = sc.table("detailed")
    met = {"binary": "WoE", "continuous": "Mean"}[t]
    names = {"woe": "WoE", "event_rate": "Event rate", "mean": "Mean"}
    ctx.check(list(dict.fromkeys(dt["Variable"])) == v, "variables of the "
              "table", "table-vars")
    raw, pts, objs, unk = [], [], {}, []
    for i, x in enumerate(v):
        o = objs[x] = sc.binning_process_.get_binned_variable(x)
        q = (tp or {}).get(x, {})
        sp, mi = q.get("metric_special", m[0]), q.get("metric_missing", m[1])
        b = o.binning_table.build(add_totals=False)
        d = dt[dt["Variable"] == x]
        ctx.check(list(map(str, d["Bin"])) == list(map(str, b["Bin"])) and
                  list(d["Count"]) == list(b["Count"]) and
                  list(d["Bin id"]) == list(range(len(b))), lambda:
                  "{}: rows of {}".format(what, x), "table-rows")
        val = list(range(len(b))) if q.get("metric") == "indices" else [
            float(z) for z in b[names[q["metric"]] if "metric" in q else met]]
        k = len(SPEC[sc._spec]) if isinstance(SPEC[sc._spec], dict) else 1
        if sp != "empirical":
            for j in range(len(val) - 1 - k, len(val) - 1):
                val[j] = float(sp)
        if mi != "empirical":
            val[-1] = float(mi)
        raw.append([z * coef[i] for z in val])
        pts.append([float(z) for z in d["Points"]])
        u = None
        if o.dtype == "categorical":
            u = coef[i] * float(o.transform(
                np.array(["none such"], dtype=object),
                metric=q.get("metric", met.lower().replace(" ", "_")))[0])
        unk.append(u)
        ctx.check(np.allclose(d["Coefficient"], coef[i]), "coefficient",
                  "table-coef")
    # definition of the scaling
    n = len(v)
    sense = -1 if rev else 1
    meth, prm = SCAL[s]
    lo, hi = sum(map(min, raw)), sum(map(max, raw))
    if meth == "pdo_odds":
        f = prm["pdo"] / math.log(2)
        A = prm["scorecard_points"] - f * math.log(prm["odds"])
        A, B = A - sense * f * I, -sense * f
    elif meth == "min_max":
        if hi - lo < 1e-9:
            return False
        B = -sense * (prm["max"] - prm["min"]) / (hi - lo)
        A = prm["min"] - B * (lo if rev else hi)
    else:
        A, B = 0.0, 1.0
    want = [[A / n + B * z for z in r] for r in raw]
    uw = [None if u is None else A / n + B * u for u in unk]
    base = 0.0
    if ib:
        mn = [min(w) for w in want]
        want = [[z - a for z in w] for w, a in zip(want, mn)]
        uw = [None if u is None else u - a for u, a in zip(uw, mn)]
        base = sum(mn)
    if not rnd:
        for x, w, p in zip(v, want, pts):
            ctx.check(np.allclose(w, p, rtol=1e-7, atol=1e-6), lambda:
                      "{}: points of {} {} expected {}".format(
                          what, x, p, w), "points")
        ctx.check(abs(float(np.ravel(sc.intercept_)[0]) - base) < 1e-6,
                  lambda: "{}: intercept {} expected {}".format(
                      what, sc.intercept_, base), "intercept")
    elif meth == "min_max":
        check_rounding(want, pts, round(sum(map(min, want))),
                       round(sum(map(max, want))), ctx, what)
        base = round(base)
    else:
        for w, p in zip(want, pts):
            ctx.check(all(abs(a - b) <= 0.5 + 1e-6 and b == int(b)
                          for a, b in zip(w, p)), lambda:
                      "{}: points {} of {}".format(what, p, w), "round-near")
    if rnd:
        ctx.check(abs(float(np.ravel(sc.intercept_)[0]) - base) <= (
            0.5 + 1e-6 if meth != "min_max" else 1e-6) and float(
                np.ravel(sc.intercept_)[0]) % 1 == 0, lambda:
                "{}: intercept {} expected {}".format(
                    what, sc.intercept_, base), "intercept-round")
    # score of every observation
    bp = sc.binning_process_
    col = {"Z%d" % i: 1 for i in range(1)}
    ob = fx.assign(**col)[["Z0"] + list(fx.columns)[::-1]]
    got = sc.score(ob)
    ctx.check(isinstance(got, (pd.Series, np.ndarray)) and
              np.shape(got) == (len(fx),), "shape of the score", "shape")
    tot = np.zeros(len(fx))
    exact = np.zeros(len(fx))
    for i, x in enumerate(v):
        o = objs[x]
        k = o.transform(fx[x].values, metric="indices",
                        metric_special="empirical",
                        metric_missing="empirical") if not isinstance(
                            o.cat_unknown, (int, float)) else idx(o, fx[x])
        for r, j in enumerate(k):
            if j < 0:
                tot[r] += round(uw[i]) if rnd else uw[i]
                exact[r] += unk[i]
            else:
                tot[r] += pts[i][j]
                exact[r] += raw[i][j]
    tot += float(np.ravel(sc.intercept_)[0])
    bad = np.nonzero(~np.isclose(np.asarray(got, dtype=float), tot,
                                 rtol=1e-7, atol=1e-6))[0]
    ctx.agree(len(fx))
    ctx.check(not len(bad), lambda: "{}: score of {} is {} expected {}".format(
        what, fx.iloc[bad[0]].to_dict(), np.asarray(got)[bad[0]],
        tot[bad[0]]), "score")
    # the score is the scaled linear predictor of the estimator
    xt = bp.transform(fx[list(bp.variable_names)], metric=None,
                      metric_special=m[0], metric_missing=m[1])
    lin = np.asarray(xt, dtype=float) @ coef
    bad = np.nonzero(~np.isclose(lin, exact, rtol=1e-7, atol=1e-7))[0]
    ctx.check(not len(bad), lambda: "{}: linear predictor of {} is {} but the "
              "table gives {}".format(what, fx.iloc[bad[0]].to_dict(),
                                      lin[bad[0]], exact[bad[0]]), "linear")
    if not rnd:
        w = A + B * lin
        bad = np.nonzero(~np.isclose(np.asarray(got, dtype=float), w,
                                     rtol=1e-7, atol=1e-6))[0]
        ctx.check(not len(bad), lambda: "{}: score {} of {} expected from the "
                  "estimator {}".format(what, np.asarray(got)[bad[0]],
                                        fx.iloc[bad[0]].to_dict(),
                                        w[bad[0]]), "scaled")
    for f in ("predict", "predict_proba", "decision_function"):
        if hasattr(sc.estimator_, f):
            g = getattr(sc, f)(ob)
            ctx.check(np.allclose(g, getattr(sc.estimator_, f)(xt)), lambda:
                      "{}: {}".format(what, f), f)
    sm = sc.table()
    ctx.check(list(sm.columns) == ["Variable", "Bin", "Points"] and
              list(sm["Points"]) == list(dt["Points"]), "summary table",
              "summary")
    return True


def idx(o, x):
    """bin indices when cat_unknown is a value of the metric"""
    u = o.cat_unknown
    o.cat_unknown = None
    try:
        return o.transform(x.values, metric="indices",
                           metric_special="empirical",
                           metric_missing="empirical")
    finally:
        o.cat_unknown = u


def make(bp, est, opt):
    from optbinning import Scorecard
    s, ib, rev, rnd = opt
    return Scorecard(binning_process=bp, estimator=est,
                     scaling_method=SCAL[s][0],
                     scaling_method_params=SCAL[s][1],
                     intercept_based=bool(ib), reverse_scorecard=bool(rev),
                     rounding=bool(rnd))


def data(v, t):
    import pandas as pd
    p = c18.pool()
    X = pd.DataFrame({x: p[x] for x in v})
    return X, c18.targets()[t]


def opt(desc, ctx):
    v = VARS[desc["v"]]
    t = desc["t"]
    X, y = data(v, t)
    m = MET[desc["m"]]
    cf, ic = COEF[desc["c"]]
    fx = observations(v)
    cut = range(48)
    base = None
    for i, o in enumerate(opts()):
        if SCAL[o[0]][0] == "pdo_odds" and t != "binary":
            continue
        if (i + sum(desc[z] for z in ("v", "sp", "m", "c"))) % 6:
            continue
        sc = make(process(v, desc["sp"], desc["cu"]),
                  Fixed(cf, ic, t == "binary"), o)
        try:
            sc.fit(X, y, metric_special=m[0], metric_missing=m[1])
        except Exception as e:
            ctx.fail("{}: fit {!r}".format(o, e), "fit")
            continue
        sc._spec = desc["sp"]
        ctx.step()
        ctx.state([desc, o])
        try:
            if verify(sc, fx, y, o, t, m, ctx, "{} {}".format(desc, o)):
                ctx.outcome([desc["v"], o])
        except (ValueError, IndexError, KeyError, TypeError) as e:
            ctx.fail("{} {}: {!r}".format(desc, o, e), "crash")
    assert cut and base is None


def round(x, *a):   # noqa: A001  (python's round is to even as np.rint)
    return int(np.rint(x)) if not a else np.round(x, *a)


def _round_task(desc, ctx):
    import pandas as pd
    from optbinning.scorecard.rounding import RoundingMIP
    g = [-1.4, -0.5, 0.0, 0.3, 0.5, 1.5, 2.6]
    shape = desc["shape"]
    k = sum(shape)
    for code in range(desc["lo"], desc["hi"], desc["step"]):
        z, c = [], code
        for _ in range(k):
            z.append(g[c % len(g)])
            c //= len(g)
        pts, at = [], 0
        for n in shape:
            pts.append(z[at:at + n])
            at += n
        # make the totals integers, as the scaling does
        lo, hi = sum(map(min, pts)), sum(map(max, pts))
        if len(shape) > 1 and shape[-1] == 1:
            pts[-1][0] -= lo - round(lo)
        df = pd.DataFrame({"Variable": [str(i) for i, p in enumerate(pts)
                                        for _ in p],
                           "Points": [x for p in pts for x in p]})
        lo, hi = sum(map(min, pts)), sum(map(max, pts))
        if abs(lo - round(lo)) > 1e-9 or abs(hi - round(hi)) > 1e-9:
            pts2 = [list(p) for p in pts]
            pts2[0] = [x - (lo - round(lo)) for x in pts2[0]]
            hi = sum(map(max, pts2))
            if abs(hi - round(hi)) > 1e-9:
                j = pts2[0].index(max(pts2[0]))
                pts2[0][j] -= hi - round(hi)
                if sum(map(min, pts2)) != sum(map(min, pts2)):
                    continue
            pts = pts2
            df["Points"] = [x for p in pts for x in p]
            lo, hi = sum(map(min, pts)), sum(map(max, pts))
            if abs(lo - round(lo)) > 1e-9 or abs(hi - round(hi)) > 1e-9:
                continue
        ctx.state(pts)
        ctx.step()
        mip = RoundingMIP()
        mip.build_model(df)
        st, sol = mip.solve()
        want = best_rounding(pts, round(lo), round(hi))
        if want is None:
            ctx.check(st not in ("OPTIMAL",), lambda: "{} {} {}".format(
                pts, st, sol), "round-status")
            continue
        if not ctx.check(st == "OPTIMAL", lambda: "points {}: {} although "
                         "deviation {} is possible".format(pts, st, want),
                         "round-status"):
            continue
        got, at = [], 0
        for n in shape:
            got.append(list(sol[at:at + n]))
            at += n
        check_rounding(pts, got, round(lo), round(hi), ctx, "MIP")
        ctx.outcome([len(p) for p in pts] + [round(want * 10)])


def hist(desc, ctx):
    o = list(opts())
    oi, oj = o[desc["i"]], o[desc["j"]]
    v = VARS[0]
    X, y = data(v, "binary")
    fx = observations(v)
    sc = make(process(v, 1), Fixed((-0.7, 0.4), 0.9), oi)
    m1, m2 = MET[desc["i"] % 5], MET[desc["j"] % 5]
    sc._spec = 1
    sc.fit(X, y, metric_special=m1[0], metric_missing=m1[1])
    a = sc.score(fx)
    sc.set_params(scaling_method=SCAL[oj[0]][0],
                  scaling_method_params=SCAL[oj[0]][1],
                  intercept_based=bool(oj[1]),
                  reverse_scorecard=bool(oj[2]), rounding=bool(oj[3]))
    # options act at the next fit only
    ctx.check(np.array_equal(a, sc.score(fx)), "score changed by set_params",
              "hist-params")
    if desc["j"] % 3 == 0:
        d = tempfile.mkdtemp()
        try:
            p = os.path.join(d, "s.pkl")
            sc.save(p)
            sc = type(sc).load(p)
        finally:
            shutil.rmtree(d)
        ctx.check(np.array_equal(a, sc.score(fx)), "load", "hist-load")
    k = desc["j"] % 4
    sc.fit(X.iloc[k:], y[k:], metric_special=m2[0], metric_missing=m2[1])
    ctx.step(3)
    ctx.state([oi, oj])
    try:
        verify(sc, fx, y, oj, "binary", m2, ctx, "after {} {}".format(oi, oj))
    except (ValueError, IndexError, KeyError) as e:
        ctx.fail("{} {}: {!r}".format(oi, oj, e), "crash")
    ctx.check(sc.binning_process_ is not sc.binning_process and
              not sc.binning_process._is_fitted and
              not hasattr(sc.estimator, "coef_"), "the parameters were fitted",
              "hist-clone")
    ctx.outcome([oi, oj])


TP = [None, {"b": {"metric_special": 2.5}},
      {"d": {"metric_missing": "empirical"},
       "a": {"metric": None}},
      {"d": {"metric": "other"}, "b": {"metric_missing": -1,
                                      "metric_special": "empirical"}}]


def est(desc, ctx):
    from sklearn.linear_model import (LinearRegression, LogisticRegression,
                                      Ridge)
    t = desc["t"]
    v = VARS[3]
    X, y = data(v, t)
    w = 1.0 + (np.arange(len(y)) * 7 % 3)
    m = MET[desc["m"]]
    fx = observations(v)
    tp = TP[desc["tp"]]
    if tp:
        tp = {x: dict(q) for x, q in tp.items()}
        for q in tp.values():
            if "metric" in q:
                if q["metric"] == "indices":
                    continue
                if q["metric"] is None:
                    q["metric"] = "woe" if t == "binary" else "mean"
                else:
                    q["metric"] = ("event_rate" if t == "binary" else "mean")
    es = ([LogisticRegression(), LogisticRegression(fit_intercept=False, C=5)]
          if t == "binary" else [LinearRegression(), Ridge(alpha=3.0)])
    sel = {} if t == "continuous" else {"selection_criteria": {
        "iv": {"min": 0.6, "max": 50.0}}}
    for i, e in enumerate(es):
        for o in [(0, 0, 0, 0), (3, 1, 0, 0), (1, 0, 1, 0), (4, 0, 0, 1),
                  (1, 1, 1, 1), (3, 1, 1, 1)]:
            if SCAL[o[0]][0] == "pdo_odds" and t != "binary":
                continue
            if (i + sum(o) + desc["m"]) % 2:
                continue
            sc = make(process(v, desc["sp"], 0, tp, **(sel if i else {})), e,
                      o)
            try:
                sc.fit(X, y, sample_weight=w if t == "binary" and i else None,
                       metric_special=m[0], metric_missing=m[1])
            except Exception as x:
                ctx.fail("fit {!r}".format(x), "fit")
                continue
            sc._spec = desc["sp"]
            ctx.step()
            ctx.state([desc, i, o])
            try:
                verify(sc, fx, y, o, t, m, ctx, "{} {}".format(desc, o), tp)
            except (ValueError, IndexError, KeyError) as x:
                ctx.fail("{} {}: {!r}".format(desc, o, x), "crash")
            ctx.outcome([desc, i, o])
            # the reference estimator fitted on the transformed data
            bp = process(v, desc["sp"], 0, tp, **(sel if i else {}))
            kw = {"sample_weight": w} if t == "binary" and i else {}
            xt = bp.fit_transform(X, y, metric_special=m[0],
                                  metric_missing=m[1], **kw)
            from sklearn.base import clone
            r = clone(e).fit(xt, y, **kw)
            ctx.check(np.allclose(np.ravel(r.coef_), np.ravel(
                sc.estimator_.coef_)), "coefficients", "est-coef")


def api(desc, ctx):
    from optbinning import Scorecard
    from sklearn.exceptions import NotFittedError
    v = VARS[0]
    X, y = data(v, "binary")
    z = Fixed((1.0,))
    for f in ("predict", "predict_proba", "decision_function", "score",
              "table", "information"):
        sc = make(process(v, 0), z, (0, 0, 0, 0))
        a = [X] if f not in ("table", "information") else []
        ctx.step()
        try:
            getattr(sc, f)(*a)
            ctx.fail("{} before fit".format(f), "api")
        except NotFittedError:
            pass
    bad = [("pdo_odds", {"pdo": 20}), ("pdo_odds", {"min": 1, "max": 2}),
           ("min_max", {"min": 5, "max": 2}), ("min_max", {"min": 1}),
           ("pdo_odds", {"pdo": 0, "odds": 1, "scorecard_points": 2}),
           ("pdo_odds", {"pdo": 1, "odds": -1, "scorecard_points": 2}),
           ("min_max", {"min": "a", "max": 2}), ("other", {"min": 1}),
           ("min_max", None), ("min_max", [1, 2]),
           ("min_max", {"min": 0.5, "max": 2, "_r": 1})]
    for meth, p in bad:
        rnd = bool(p and isinstance(p, dict) and "_r" in p)
        if rnd:
            p = {"min": 0.5, "max": 2}
        sc = Scorecard(process(v, 0), z, scaling_method=meth,
                       scaling_method_params=p, rounding=rnd)
        ctx.state([meth, str(p)])
        try:
            sc.fit(X, y)
            ctx.fail("{} {} accepted".format(meth, p), "api-bad")
        except (ValueError, TypeError):
            pass
    Xc, yc = data(v, "continuous")
    for kw, fk in (({"scaling_method": "pdo_odds", "scaling_method_params":
                     SCAL[1][1]}, {}), ({}, {"sample_weight": yc * 0 + 1})):
        try:
            Scorecard(process(v, 0), Fixed((1.0,), None, False), **kw).fit(
                Xc, yc, **fk)
            ctx.fail("{} {} accepted".format(kw, fk), "api-bad")
        except ValueError:
            pass


_DISPATCH = {"round": _round_task}


def run(desc, ctx):     # noqa: F811
    f = _DISPATCH.get(desc["k"]) or globals()[desc["k"]]
    f(desc, ctx)
