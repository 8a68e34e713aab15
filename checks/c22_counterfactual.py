"""C22: counterfactuals are valid, within limits and optimal."""
import contextlib
import io
import itertools
import math

import numpy as np

from checks import c18_process as c18
from checks import c20_scorecard as c20

PROPERTY = "C22"
BATCH = 2
BATCH_TIMEOUT = 600
RULE = ("(one) every query of the alphabet of bins (each bin, special, "
        "missing, unknown), outcome, subset of actionable features, number of "
        "changes, method and combination of objectives and constraints: the "
        "counterfactual is checked against the scorecard itself and against "
        "every combination of bins. (multi) two and three counterfactuals "
        "with every diversity option against every pair and triple. (hist) "
        "sequences of queries on one object. (api) invalid parameters.")
ASSUMPTIONS = ["30 rows, at most 3 variables (each at most 6 bins)",
               "probability outcomes up to the error of the piecewise linear "
               "logistic approximation (at most 0.005)",
               "CBC may call a suboptimal point optimal: confirmed by solving "
               "the same model with SCIP"]
NAN = float("nan")
S = c18.S
TOL = 1e-5
VARS = [["a", "d"], ["b", "c"], ["b", "d", "c"], ["a"]]
# (variables, special codes, metric special/missing, coefs, intercept)
SETS = [(0, 0, 0, (-0.7, -0.4), 0.3), (1, 1, 1, (-1.1, -0.6), 0.2),
        (2, 2, 2, (-0.8, -0.5, -0.3), -0.1), (3, 0, 3, (-1.0,), 0.4),
        (2, 1, 3, (-0.4, -1.0, 0.6), 0.05), (0, 1, 1, (-0.9, 0.5), -0.2),
        (2, 0, 0, (-0.7, 0.0, -0.4), 0.3)]
OBJ = [None, {"proximity": 1}, {"closeness": 1},
       {"proximity": 1, "closeness": 2}, {"proximity": 3, "closeness": 1}]


def tasks(tier):
    q = tier == "quick"
    n = 0
    for t in ("binary", "continuous"):
        for s in range(len(SETS)):
            for out in (("binary", "probability") if t == "binary"
                        else ("continuous",)):
                for meth, ob, mc in itertools.product(
                        ("weighted", "hierarchical"), range(len(OBJ)),
                        (None, 1, 2)):
                    for sm in (0, 1):
                        n += 1
                        if q and (n * 7 + s) % (5 if out == "binary"
                                                else 11):
                            continue
                        yield {"k": "one", "t": t, "s": s, "out": out,
                               "m": meth, "ob": ob, "mc": mc, "sm": sm,
                               "step": 5 if q else 2}
    for t, out in (("binary", "binary"), ("continuous", "continuous"),
                   ("binary", "probability")):
        for s in (0, 1, 2, 4, 6):
            for meth, ob, kk, hard, soft in itertools.product(
                    ("weighted", "hierarchical"), (0, 1, 2), (2, 3),
                    range(4), range(4)):
                n += 1
                if kk == 3 and (s > 0 or meth != "weighted"):
                    continue
                if out == "probability" and s > 1:
                    continue
                if q and (n * 5 + s) % (23 if kk == 2 else 41):
                    continue
                yield {"k": "multi", "t": t, "s": s, "out": out, "m": meth,
                       "ob": ob, "n": kk, "hard": hard, "soft": soft}
    for s in (0, 1, 4):
        yield {"k": "hist", "s": s}
    yield {"k": "api"}


def run(desc, ctx):
    {"one": one, "multi": multi, "hist": hist, "api": api}[desc["k"]](
        desc, ctx)


_C = {}


def setup(t, s, opt=(0, 0, 0, 0)):
    """scorecard, data, raw values of the bins, representative values"""
    key = (t, s, opt)
    if key in _C:
        return _C[key]
    vi, sp, mi, cf, ic = SETS[s]
    v = VARS[vi]
    m = c20.MET[mi]
    X, y = c20.data(v, t)
    if t == "continuous":
        cf, ic = tuple(-z for z in cf), ic * 10
    # strong correlations would hide closeness: reverse one column
    sc = c20.make(c20.process(v, sp), c20.Fixed(cf, ic, t == "binary"), opt)
    sc.fit(X, y, metric_special=m[0], metric_missing=m[1])
    bp = sc.binning_process_
    fx = c20.observations(v)
    raw, reps = [], []
    for x in v:
        o = bp.get_binned_variable(x)
        val = fx[x].values
        xt = o.transform(val, metric_special=m[0], metric_missing=m[1])
        ix = o.transform(val, metric="indices", metric_special="empirical",
                         metric_missing="empirical")
        n = len(o.binning_table.build(add_totals=False))
        nsp = len(o.special_codes) if isinstance(o.special_codes, dict) else 1
        r = {}
        for a, b, c in zip(val, xt, ix):
            r.setdefault(int(c), (a, float(b)))
        # special bins without training rows or codes
        b = o.binning_table.build(add_totals=False)
        col = "WoE" if t == "binary" else "Mean"
        vals = []
        for j in range(n):
            if j in r:
                vals.append(r[j][1])
            elif j == n - 1 and m[1] != "empirical":
                vals.append(float(m[1]))
            elif n - 1 - nsp <= j < n - 1 and m[0] != "empirical":
                vals.append(float(m[0]))
            else:
                vals.append(float(b[col].iloc[j]))
        raw.append((vals, n - 1 - nsp, [str(z) for z in b["Bin"]]))
        reps.append(r)
    Xt = bp.transform(X, metric=None, metric_special=m[0],
                      metric_missing=m[1]).values.astype(float)
    L = np.linalg.cholesky(np.linalg.inv(np.atleast_2d(np.cov(Xt.T))))
    # inverse range of the points (of the metric for null coefficients)
    w = [1.0 / ((max(r[0]) - min(r[0])) * (abs(c) or 1))
         for r, c in zip(raw, cf)]
    _C[key] = dict(sc=sc, X=X, y=y, v=v, m=m, coef=cf, ic=ic, raw=raw,
                   reps=reps, L=L, mu=Xt.mean(axis=0), w=w, fx=fx)
    return _C[key]


class Space:
    """all combinations of bins for a query"""

    def __init__(self, e, query, sm, mc, act, t):
        self.e = e
        v = e["v"]
        bp = e["sc"].binning_process_
        x = [float(bp.get_binned_variable(z).transform(
            np.array([q], dtype=object if z == "d" else float),
            metric_special=e["m"][0], metric_missing=e["m"][1])[0])
            for z, q in zip(v, query)]
        self.x = np.array(x)
        self.k = max(1, len(v) // 2) if mc is None else mc
        opts = []
        for i, z in enumerate(v):
            vals, nc, _ = e["raw"][i]
            o = [None]
            if act is None or z in act:
                o += [j for j in range(len(vals) if sm else nc)
                      if abs(vals[j] - x[i]) > 1e-9]
            opts.append(o)
        self.combos = [c for c in itertools.product(*opts) if sum(
            j is not None for j in c) <= self.k]
        self.val = np.array([[x[i] if j is None else e["raw"][i][0][j]
                              for i, j in enumerate(c)]
                             for c in self.combos])
        self.act = self.val @ np.array(e["coef"]) + e["ic"]
        self.obj = {
            "proximity": np.abs(self.val - self.x) @ np.array(e["w"]),
            "closeness": np.abs((self.val - e["mu"]) @ e["L"]).sum(axis=1)}
        self.at = {c: i for i, c in enumerate(self.combos)}


def config(desc, i):
    """constraints and wanted value of the i-th variation"""
    if desc["out"] == "binary":
        return i % 2, None, None
    ys = ([0.15, 0.35, 0.5, 0.65, 0.9] if desc["out"] == "probability"
          else [-2.0, 8.0, 15.0, 22.0, 40.0])
    hard = [["min_outcome"], ["max_outcome"], None,
            ["min_outcome", "max_outcome"], ["min_outcome"]][i % 5]
    soft = [None, None, {"diff_outcome": 2}, None, {"diff_outcome": 0.5}][
        i % 5]
    if hard and len(hard) == 2:
        hard = ["max_outcome", "min_outcome"][:1 + (i % 2)]
    return ys[(i // 2 + i) % 5], hard, soft


def outcome(act, out):
    return 1 / (1 + np.exp(-act)) if out == "probability" else act


def feasible(act, y, out, hard, slack):
    """slack > 0 enlarges the feasible set"""
    if out == "binary":
        return act >= 1e-6 - slack if y == 1 else act <= slack
    f = outcome(act, out)
    s = slack + (math.copysign(0.005, slack) if out == "probability" else 0)
    ok = np.ones(len(act), dtype=bool)
    if hard and "min_outcome" in hard:
        ok &= f >= y - s
    if hard and "max_outcome" in hard:
        ok &= f <= y + s
    return ok


def objective_terms(sp, y, out, obj, soft):
    names = dict(obj)
    terms = {n: sp.obj[n] for n in names}
    if soft and "diff_outcome" in soft:
        names["diff_outcome"] = soft["diff_outcome"]
        terms["diff_outcome"] = np.abs(outcome(sp.act, out) - y)
    return names, terms


def best_bounds(names, terms, meth, tight, wide, tol, err):
    """an interval for the optimum of the last stage and a function telling
    whether a point is acceptable; None if infeasible"""
    if meth == "weighted":
        tot = sum(names[n] * terms[n] for n in names)
        e = err * names.get("diff_outcome", 0)
        lo = tot[wide].min() - e if wide.any() else None
        hi = tot[tight].min() + e if tight.any() else None
        return [(tot, lo, hi, e)]
    order = [k for k, _ in sorted(names.items(), key=lambda z: z[1],
                                  reverse=True)]
    out = []
    tg, wd = tight.copy(), wide.copy()
    for n in order:
        e = err if n == "diff_outcome" else 0.0
        lo = terms[n][wd].min() - e if wd.any() else None
        hi = terms[n][tg].min() + e if tg.any() else None
        last = n == order[-1]
        out.append((terms[n], lo, hi if last or hi is None else
                    hi * (1 + tol) if hi > 0 else hi, e))
        if lo is None:
            break
        if not last:
            wd &= terms[n] <= (lo + 2 * e + TOL) * (1 + tol) + TOL + (
                (hi - lo) * (1 + tol) if hi is not None else 1e9)
            tg = tg & (terms[n] <= max(lo, 0) * (1 + tol) - e)
            if hi is not None:
                # any point within the tolerance of the best tight point
                tg = tg & (terms[n] <= max(0, lo) * (1 + tol) + 1e-9)
    return out


def scip(f):
    """run f with SCIP instead of CBC"""
    from optbinning.scorecard.counterfactual import mip, multi_mip
    from ortools.linear_solver import pywraplp

    class P:
        def __getattr__(self, n):
            return getattr(pywraplp, n)

        def Solver(self, name, kind):
            return pywraplp.Solver(
                name, pywraplp.Solver.SCIP_MIXED_INTEGER_PROGRAMMING)
    old = [(m, m.pywraplp) for m in (mip, multi_mip)
           if hasattr(m, "pywraplp")]
    p = P()
    for n in ("OPTIMAL", "FEASIBLE", "ABNORMAL", "INFEASIBLE", "UNBOUNDED",
              "CBC_MIXED_INTEGER_PROGRAMMING"):
        setattr(P.Solver, n, getattr(pywraplp.Solver, n))
    for m, _ in old:
        m.pywraplp = p
    try:
        return f()
    finally:
        for m, o in old:
            m.pywraplp = o


def decode(cf, e, sp, qdf, query, ctx, what):
    """the combinations of bins reported; None if inconsistent"""
    import pandas as pd
    d = cf.display()
    full = cf.display(show_only_changes=True, show_outcome=True)
    res = []
    for i in range(len(d)):
        row = d.iloc[i]
        c = []
        obs = []
        for k, (z, q) in enumerate(zip(e["v"], query)):
            b = row[z]
            ch = full.iloc[i][z]
            lab = e["raw"][k][2]
            if str(b) in lab and b is not q:
                j = lab.index(str(b))
                if not ctx.check(str(ch) == str(b), lambda: "{}: {} changed to {} "
                                 "but shown as {}".format(what, z, b, ch),
                                 "display"):
                    return None
                c.append(j)
                obs.append(e["reps"][k].get(j, (None,))[0]
                           if j in e["reps"][k] else "?")
            else:
                same = (b is None and q is None) or (isinstance(b, float)
                                                     and b != b and (q is None
                                                                  or q != q))
                same = same or np.array_equal(b, q)
                if not ctx.check(same and ch == "-", lambda:
                                 "{}: {} is {} ({}) query {}".format(
                                     what, z, b, ch, q), "display"):
                    return None
                c.append(None)
                obs.append(q)
        c = tuple(c)
        if not ctx.check(c in sp.at, lambda: "{}: {} is not an admissible "
                         "combination (max {} changes)".format(
                             what, c, sp.k), "admissible"):
            return None
        res.append(c)
        # the scorecard itself
        o = float(full.iloc[i]["outcome"])
        act = sp.act[sp.at[c]]
        kind = e["kind"]
        w = act if kind == "continuous" else 1 / (1 + math.exp(-act))
        ctx.check(abs(o - w) < 1e-6 * max(1, abs(w)), lambda:
                  "{}: outcome {} of {} is {}".format(what, o, c, w),
                  "outcome")
        if "?" not in obs:
            df = pd.DataFrame([obs], columns=e["v"])
            for z in e["v"]:
                df[z] = df[z].astype(object if z == "d" else float)
            g = float(e["sc"].decision_function(df)[0])
            ctx.check(abs(g - act) < 1e-6 * max(1, abs(act)), lambda:
                      "{}: scorecard gives {} for {}, counterfactual {}"
                      .format(what, g, obs, act), "scorecard")
            if kind == "binary":
                ctx.check(int(e["sc"].predict(df)[0]) == e["want"], lambda:
                          "{}: {} is not of class {}".format(
                              what, obs, e["want"]), "class")
    ctx.agree()
    return res


def queries(e):
    """observations: bins, special, missing, unknown in every position"""
    vals = []
    for i, z in enumerate(e["v"]):
        r = e["reps"][i]
        nc = e["raw"][i][1]
        l = [r[j][0] for j in sorted(r) if 0 <= j < nc]
        l += [r[j][0] for j in sorted(r) if j >= nc]
        if -1 in r:
            l.append(r[-1][0])
        vals.append(l)
    if len(vals) < 3:
        return list(itertools.product(*vals))
    k = max(map(len, vals)) * 2
    return [tuple(l[(i * (2 * j + 1)) % len(l)] for j, l in enumerate(vals))
            for i in range(k)]


def make(e, desc, **kw):
    from optbinning.scorecard import Counterfactual
    if "jobs" in desc:
        kw["n_jobs"] = desc["jobs"]
    cf = Counterfactual(e["sc"], special_missing=bool(desc.get("sm")), **kw)
    return cf.fit(e["X"])


def qarg(e, q, i):
    import pandas as pd
    if i % 3 == 0:
        return dict(zip(e["v"], q))
    df = pd.DataFrame([q], columns=e["v"])
    for z in e["v"]:
        df[z] = df[z].astype(object if z == "d" else float)
    if i % 3 == 1:
        df = df[df.columns[::-1]].assign(zz=1)
        df.index = [17]
    return df


def one(desc, ctx):
    t = desc["t"]
    opts = [(0, 0, 0, 0), (3, 1, 0, 1), (4, 0, 1, 0)]
    e = setup(t, desc["s"], opts[(desc["ob"] + desc["s"]) % 3])
    e["kind"] = {"binary": "binary"}.get(desc["out"], desc["out"])
    before = e["sc"].table("detailed").copy()
    cf = make(e, desc)
    v = e["v"]
    qs = queries(e)
    acts = [None] + [list(c) for r in (1, 2) for c in itertools.combinations(
        v, r)]
    n = 0
    for i in range(desc["ob"] + desc["sm"], len(qs), desc["step"]):
        n += 1
        q = qs[i]
        y, hard, soft = config(desc, i + desc["ob"])
        act = acts[(i + n) % len(acts)] if n % 2 else None
        if act is not None and i % 4 == 1:
            act = np.array(act)
        ctx.step()
        ctx.state([desc, i])
        what = "{} query {} y={} hard={} soft={} actionable={}".format(
            desc, q, y, hard, soft, act)
        e["want"] = y
        arg = qarg(e, q, i)
        kw = dict(y=y, outcome_type=desc["out"], n_cf=1, method=desc["m"],
                  objectives=OBJ[desc["ob"]], max_changes=desc["mc"],
                  actionable_features=act, hard_constraints=hard,
                  soft_constraints=soft, priority_tol=0.1)
        sp = Space(e, q, desc["sm"], desc["mc"], act, t)
        judge(cf, arg, kw, e, sp, q, desc, y, hard, soft, ctx, what)
    ctx.check(before.equals(e["sc"].table("detailed")), "the scorecard was "
              "modified", "modified")
    ctx.outcome([desc["s"], desc["out"], desc["m"], desc["ob"]])


def default_obj(desc):
    return OBJ[desc["ob"]] or ({"proximity": 1, "closeness": 1}
                               if desc["m"] == "weighted" else
                               {"proximity": 2, "closeness": 1})


def judge(cf, arg, kw, e, sp, q, desc, y, hard, soft, ctx, what,
          retry=True):
    out = desc["out"]
    tight = feasible(sp.act, y, out, hard, -1e-5)
    wide = feasible(sp.act, y, out, hard, 1e-5)
    names, terms = objective_terms(sp, y, out, default_obj(desc), soft)
    try:
        cf.generate(arg, **kw)
        st = cf.status
    except Exception as x:
        if "problem in hierarchical" in str(x):
            st = "INFEASIBLE"
        else:
            ctx.fail("{}: {!r}".format(what, x), "crash")
            return
    if st not in ("OPTIMAL", "FEASIBLE"):
        ctx.check(not tight.any(), lambda: "{}: {} although {} qualifies"
                  .format(what, st, sp.combos[int(np.nonzero(tight)[0][0])]),
                  "infeasible")
        ctx.agree()
        return
    res = decode(cf, e, sp, arg, q, ctx, what)
    if res is None:
        return
    i = sp.at[res[0]]
    if not ctx.check(wide[i], lambda: "{}: {} with {} does not reach the "
                     "outcome".format(what, res[0], sp.act[i]), "reach"):
        return
    err = 0.005 if out == "probability" else 0.0
    bad = None
    for tot, lo, hi, er in best_bounds(names, terms, desc["m"], tight, wide,
                                       kw.get("priority_tol", 0.1), err):
        if hi is not None and tot[i] > hi + er + TOL * max(1, abs(hi)):
            bad = (float(tot[i]), float(hi))
    if bad and retry:
        if scip(lambda: _ok(cf, arg, kw, e, sp, q, desc, y, hard, soft)):
            ctx.agree()
            return
    ctx.check(bad is None, lambda: "{}: {} has objective {} but {} is "
              "possible".format(what, res[0], *bad), "optimal")
    ctx.agree()


class _Quiet:
    def __init__(self):
        self.bad = []

    def check(self, c, m, s=None):
        if not c:
            self.bad.append(s)
        return c

    def fail(self, m, s=None):
        self.bad.append(s)

    def agree(self, n=1):
        pass


def _ok(cf, arg, kw, e, sp, q, desc, y, hard, soft):
    c = _Quiet()
    judge(cf, arg, kw, e, sp, q, desc, y, hard, soft, c, "", retry=False)
    return not c.bad


HARD = [None, ["diversity_features"], ["diversity_values"],
        ["diversity_features", "diversity_values"]]
SOFT = [None, {"diversity_features": 1}, {"diversity_values": 0.5},
        {"diversity_features": 0.3, "diversity_values": 2}]


def pairs(c, d):
    """features changed by exactly one, values that differ, both changed"""
    f = sum((a is None) != (b is None) for a, b in zip(c, d))
    v = sum((0 if a == b else (a is not None) + (b is not None))
            for a, b in zip(c, d))
    clash = any(a is not None and a == b for a, b in zip(c, d))
    return f, v, clash


def multi(desc, ctx):
    t = desc["t"]
    e = setup(t, desc["s"])
    e["kind"] = desc["out"]
    cf = make(e, desc)
    qs = queries(e)
    K = desc["n"]
    for r, i in enumerate((1, len(qs) // 2, len(qs) - 1)):
        q = qs[i]
        hard = HARD[desc["hard"]]
        soft = SOFT[desc["soft"]]
        if desc["out"] == "binary":
            y = (i + desc["ob"]) % 2
        else:
            y = ([8.0, 15.0, 22.0] if t == "continuous"
                 else [0.35, 0.5, 0.7])[r]
            hard = (hard or []) + [["min_outcome"], ["max_outcome"]][r % 2]
        mc = [None, 2, 1][(desc["s"] + r) % 3]
        act = [None, e["v"][:-1], e["v"][1:]][
            (r + desc["ob"] + desc["soft"]) % 3]
        sp = Space(e, q, 0, mc, act, t)
        if len(sp.combos) ** K > 60000:
            mc = 1
            sp = Space(e, q, 0, mc, act, t)
        e["want"] = y
        kw = dict(y=y, outcome_type=desc["out"], n_cf=K, method=desc["m"],
                  objectives=OBJ[desc["ob"]], max_changes=mc,
                  actionable_features=act, hard_constraints=hard, soft_constraints=soft,
                  priority_tol=0.05)
        ctx.step()
        ctx.state([desc, i])
        what = "{} query {} y={} mc={} actionable={}".format(
            desc, q, y, mc, act)
        judge_multi(cf, qarg(e, q, r), kw, e, sp, q, desc, y, hard, soft,
                    ctx, what, K)
    ctx.outcome([desc["s"], desc["hard"], desc["soft"], desc["ob"]])


def judge_multi(cf, arg, kw, e, sp, q, desc, y, hard, soft, ctx, what, K,
                retry=True):
    tight = np.nonzero(feasible(sp.act, y, desc["out"], hard, -1e-5))[0]
    obj = default_obj(desc)
    w = dict(obj)
    w.update(soft or {})
    best = None
    order = [k for k, _ in sorted(w.items(), key=lambda z: z[1],
                                  reverse=True)]

    def terms(ix):
        d = {n: sum(sp.obj[n][i] for i in ix) for n in obj}
        f = v = 0
        ok = True
        for a, b in itertools.combinations(ix, 2):
            pf, pv, cl = pairs(sp.combos[a], sp.combos[b])
            f, v = f + pf, v + pv
            if hard and "diversity_features" in hard and pf < 1:
                ok = False
            if hard and "diversity_values" in hard and cl:
                ok = False
        if soft and "diversity_features" in soft:
            d["diversity_features"] = -f
        if soft and "diversity_values" in soft:
            d["diversity_values"] = -v
        return ok, d
    rows = []
    for ix in itertools.combinations_with_replacement(tight, K):
        ok, d = terms(ix)
        if ok:
            rows.append([d[n] for n in order])
    T = np.array(rows)
    if len(T):
        if desc["m"] == "weighted":
            best = (T @ np.array([w[n] for n in order])).min()
        else:
            ok = np.ones(len(T), dtype=bool)
            best = []
            for j, n in enumerate(order):
                b = T[ok, j].min()
                best.append(b)
                ok &= np.abs(T[:, j] - b) <= kw["priority_tol"] * abs(b) + \
                    1e-7
    try:
        cf.generate(arg, **kw)
        st = cf.status
    except Exception as x:
        if "problem in hierarchical" in str(x):
            st = "INFEASIBLE"
        else:
            ctx.fail("{}: {!r}".format(what, x), "crash")
            return
    if st not in ("OPTIMAL", "FEASIBLE"):
        ctx.check(not len(T), lambda: "{}: {} although {} solutions".format(
            what, st, len(T)), "infeasible")
        ctx.agree()
        return
    res = decode(cf, e, sp, arg, q, ctx, what)
    if res is None:
        return
    ctx.check(len(res) == K, lambda: "{}: {} counterfactuals".format(
        what, len(res)), "number")
    ix = [sp.at[c] for c in res]
    wide = feasible(sp.act, y, desc["out"], hard, 1e-5)
    if not ctx.check(all(wide[i] for i in ix), lambda: "{}: {} does not reach "
                     "the outcome".format(what, res), "reach"):
        return
    ok, d = terms(ix)
    if not ctx.check(ok, lambda: "{}: {} violate the diversity constraints"
                     .format(what, res), "diversity"):
        return
    if not len(T):
        return
    if desc["m"] == "weighted":
        g = sum(w[n] * d[n] for n in w)
        bad = g > best + TOL * max(1, abs(best))
        info = (g, best)
    else:
        bad = False
        for j, n in enumerate(order):
            slack = TOL + (0 if j == len(order) - 1 else
                           kw["priority_tol"] * abs(best[j]))
            bad = bad or d[n] > best[j] + slack
        info = ([d[n] for n in order], best)
    if bad and retry:
        c = _Quiet()
        scip(lambda: judge_multi(cf, arg, kw, e, sp, q, desc, y, hard, soft,
                                 c, "", K, retry=False))
        if not c.bad:
            ctx.agree()
            return
    ctx.check(not bad, lambda: "{}: {} objective {} best {}".format(
        what, res, *info), "optimal-multi")
    ctx.agree()


def hist(desc, ctx):
    """answers do not depend on earlier queries"""
    e = setup("binary", desc["s"])
    e["kind"] = "binary"
    cf = make(e, {})
    qs = queries(e)
    ref = {}

    def call(c, i, y, n):
        ctx.step()
        c.generate(dict(zip(e["v"], qs[i])), y=y, outcome_type="binary",
                   n_cf=n, max_changes=2,
                   hard_constraints=["diversity_values"] if n > 1 else None)
        if c.status != "OPTIMAL":
            return c.status
        d = c.display(show_only_changes=True, show_outcome=True)
        return [[round(z, 9) if isinstance(z, float) else str(z) for z in r]
                for r in d.values.tolist()]
    calls = [(i, y, n) for i in (0, 3, len(qs) - 1) for y in (0, 1)
             for n in (1, 2)]
    for k in calls:
        ref[k] = call(make(e, {}), *k)
    for a, b in itertools.permutations(calls, 2):
        got = [call(cf, *a), call(cf, *b)]
        ctx.state([desc["s"], a, b])
        ctx.check(got == [ref[a], ref[b]], lambda: "{} {}: {} alone {} {}"
                  .format(a, b, got, ref[a], ref[b]), "hist")
        ctx.agree()
    ctx.outcome([desc["s"], len(ref)])


def api(desc, ctx):
    from optbinning import Scorecard
    from optbinning.exceptions import (CounterfactualsFoundWarning,
                                       NotGeneratedError)
    from optbinning.scorecard import Counterfactual
    from sklearn.exceptions import NotFittedError
    e = setup("binary", 0)
    q = dict(zip(e["v"], queries(e)[0]))
    good = dict(y=1, outcome_type="binary", n_cf=1)
    try:
        Counterfactual(e["sc"]).generate(q, **good)
        ctx.fail("generate before fit", "api")
    except NotFittedError:
        pass
    try:
        Counterfactual(Scorecard(c20.process(e["v"], 0), c20.Fixed())).fit(
            e["X"])
        ctx.fail("scorecard not fitted", "api")
    except NotFittedError:
        pass
    cf = make(e, {})
    for f in ("display", "information", "status"):
        for z in (cf, Counterfactual(e["sc"])):
            try:
                g = getattr(z, f)
                g()
                ctx.fail("{} before generate".format(f), "api")
            except NotGeneratedError:
                pass
    bad = [{"query": [1]}, {"y": "a"}, {"y": 2}, {"outcome_type": "x"},
           {"outcome_type": "continuous"}, {"n_cf": 0}, {"n_cf": 1.5},
           {"max_changes": 0}, {"max_changes": "a"},
           {"actionable_features": "a"}, {"actionable_features": ["zz"]},
           {"method": "x"}, {"objectives": {}}, {"objectives": {"x": 1}},
           {"objectives": {"proximity": 0}}, {"objectives": [1]},
           {"hard_constraints": "min_outcome"},
           {"hard_constraints": ["min_outcome"]},
           {"hard_constraints": ["diversity_values", "diversity_values"]},
           {"soft_constraints": ["diversity_values"]},
           {"soft_constraints": {"diversity_values": -1}},
           {"soft_constraints": {"diff_outcome": 1}},
           {"outcome_type": "probability"},
           {"outcome_type": "probability", "y": 1.5,
            "hard_constraints": ["min_outcome"]},
           {"outcome_type": "probability", "y": 0.5,
            "hard_constraints": ["diversity_values"]},
           {"priority_tol": -1}, {"priority_tol": 2}, {"time_limit": 0}]
    for b in bad:
        k = dict(good, query=q)
        k.update(b)
        ctx.step()
        ctx.state(str(b))
        try:
            cf.generate(**k)
            ctx.fail("{} accepted".format(b), "api-bad")
        except (ValueError, TypeError):
            pass
    cf.generate(q, y=1, outcome_type="binary", n_cf=1, time_limit=2.5)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        for l in (0, 1, 2):
            cf.information(print_level=l)
    ctx.check("OPTIMAL" in out.getvalue() or "INFEASIBLE" in out.getvalue(),
              "information", "api-info")
    # no counterfactual exists: display says so
    cf.generate(q, y=0.999999, outcome_type="probability", n_cf=1,
                hard_constraints=["min_outcome"])
    ctx.check(cf.status == "INFEASIBLE", "status {}".format(cf.status),
              "api-infeasible")
    try:
        cf.display()
        ctx.fail("display without counterfactuals", "api")
    except CounterfactualsFoundWarning:
        pass
    cf.fit(e["X"])
    try:
        cf.display()
        ctx.fail("display after refit", "api")
    except NotGeneratedError:
        pass
