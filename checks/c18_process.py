"""C18: BinningProcess against standalone binning of every variable."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from mc import sig

PROPERTY = "C18"
BATCH = 4
RULE = ("(fit) every subset and order of a pool of variables (numerical, "
        "with missing and special values, integer codes, categorical) x "
        "container x target x every process parameter x per-variable "
        "parameters x number of jobs: every binned variable, the summary and "
        "the transform are compared with standalone objects fitted on the "
        "column alone. (sel) every selection criterion with thresholds below, "
        "at, between and above the observed metrics, every top / strategy, "
        "every pair of metrics and fixed variables, against a reference "
        "selection. (tr) every combination of global metric, per-variable "
        "metrics and special / missing replacements, support and container, "
        "against the standalone transforms. (hist) every history of update / "
        "summary / support / transform / refit / save-load operations up to a "
        "depth against a model that keeps one object per variable. (disk) "
        "every chunk size, existing output files and paths with dots, against "
        "the in-memory result.")
ASSUMPTIONS = ["30 rows, at most 5 variables",
               "several criteria are applied in the order of the documented "
               "metrics, each one on the variables kept so far",
               "ties at a top cut-off: any of the tied variables"]

NAN = float("nan")
N = 30
S = -99.0


def pool():
    i = np.arange(N)
    a = np.round(((i * 7) % N) / 3.0, 3)
    b = a.copy() * 2 - 5
    b[[3, 11, 17]] = NAN
    b[[5, 6, 20, 21]] = S
    c = ((i * 11) % 6).astype(int)
    d = np.array(["uvwxyz"[(k * k + k // 4) % 5] for k in i], dtype=object)
    d[[2, 9]] = None
    e = np.full(N, 4.0)
    e[i % 3 == 1] = 5.0
    return {"a": a, "b": b, "c": c, "d": d, "e": e}


def targets():
    i = np.arange(N)
    p = pool()
    return {"binary": ((p["a"] + (i * 5) % 4) > 5.5).astype(int),
            "continuous": np.round(p["a"] ** 1.5 - 2 * p["c"] + (i * 3) % 7
                                   / 2.0, 3),
            "multiclass": (((p["a"] + (i * 5) % 4) / 4.5).astype(int)) % 3}


PARAMS = [
    {}, {"max_n_prebins": 4}, {"min_prebin_size": 0.2}, {"min_n_bins": 3},
    {"max_n_bins": 2}, {"min_bin_size": 0.3}, {"max_bin_size": 0.5},
    {"max_pvalue": 0.4}, {"max_pvalue": 0.6, "max_pvalue_policy": "all"},
    {"special_codes": [S]}, {"split_digits": 0}, {"split_digits": 1},
    {"special_codes": {"s": S, "t": [4.0]}},
    {"max_n_bins": 3, "min_bin_size": 0.1, "special_codes": [S]},
    {"categorical_variables": ["c"]},
    {"categorical_variables": ["a", "c"], "max_n_bins": 3},
]
FITP = [None, {"a": {"max_n_bins": 2}}, {"b": {"monotonic_trend": None,
                                               "special_codes": [S]}},
        {"c": {"max_n_prebins": 3}, "a": {"min_prebin_size": 0.25}},
        {"c": {"dtype": "categorical"}, "d": {"cat_cutoff": 0.15}},
        {"a": {"user_splits": [2.0, 5.0, 7.0]}, "e": {"min_n_bins": 2}}]
CONT = ["df", "np", "dfx", "dfi"]


def subsets():
    for k in (1, 2, 3):
        yield from itertools.permutations("abcd", k)
    yield from itertools.permutations("abcde", 5)


def tasks(tier):
    q = tier == "quick"
    n = 0
    subs = list(subsets())
    for t in ("binary", "continuous", "multiclass"):
        for vs in subs:
            if t == "multiclass" and "d" in vs:
                continue
            for i, p in enumerate(PARAMS):
                if t == "multiclass" and "categorical_variables" in p:
                    continue
                for j, f in enumerate(FITP):
                    for c in CONT:
                        n += 1
                        if n % (331 if q else 11):
                            continue
                        yield {"k": "fit", "t": t, "vs": vs, "p": i, "f": j,
                               "c": c, "jobs": 1 + n // 331 % 3,
                               "ci": n // 7 % 2, "w": n // 5 % 3 == 1}
    for t in ("binary", "continuous", "multiclass"):
        vs = "abce" if t == "multiclass" else "abcde"
        for k in range(24 if q else 48):
            yield {"k": "sel", "t": t, "vs": vs, "part": k,
                   "of": 79 if q else 48}
        for sup in itertools.product((0, 1), repeat=3):
            for m in MET[t]:
                for pv in itertools.product(range(4), repeat=3):
                    if q and (sum(pv) + sum(sup) + len(str(m))) % 5:
                        continue
                    yield {"k": "tr", "t": t, "sup": sup, "m": m, "pv": pv}
        for h in itertools.product(range(len(OPS)), repeat=3 if q else 4):
            if h[0] != 0 and h[0] > 3:
                continue
            if q and (sum(h) * 7 + h[1]) % (2 if t == "binary" else 5):
                continue
            yield {"k": "hist", "t": t, "h": h}
    for t in ("binary", "continuous", "multiclass"):
        for ch in (1, 7, 30) if q else range(1, 32):
            for m in MET[t]:
                for pv in range(3):
                    yield {"k": "disk", "t": t, "ch": ch, "m": m, "pv": pv,
                           "old": (ch + pv) % 2}
    yield {"k": "api"}


def run(desc, ctx):
    globals()[desc["k"]](desc, ctx)


# ----------------------------------------------------------------- helpers
def cls(t):
    from optbinning import (ContinuousOptimalBinning,
                            MulticlassOptimalBinning, OptimalBinning)
    return {"binary": OptimalBinning, "continuous": ContinuousOptimalBinning,
            "multiclass": MulticlassOptimalBinning}[t]


def container(vs, c):
    import pandas as pd
    p = pool()
    df = pd.DataFrame({v: p[v] for v in vs})
    if c == "dfx":          # columns in another order
        df = df[list(reversed(vs))]
    elif c == "dfi":        # labels of the rows
        df.index = ["r%d" % k for k in range(N)][::-1]
    elif c == "np":
        return df.values
    return df


def standalone(t, name, x, params, fitp, cat, y, w=None):
    kw = {k: v for k, v in params.items() if k != "categorical_variables"}
    o = cls(t)(name=name, **kw)
    if t != "multiclass":
        o.set_params(dtype="categorical" if cat else "numerical")
    o.set_params(**(fitp or {}).get(name, {}))
    if w is not None:
        o.fit(x, y, w)
    else:
        o.fit(x, y)
    return o


def table_of(o):
    return sig.flat([o.binning_table.build(), o.splits, o.status], [])


def objective(t, o):
    bt = o.binning_table
    bt.build()
    return {"binary": "iv", "continuous": "woe", "multiclass": "js"}[t] and \
        getattr(bt, {"binary": "iv", "continuous": "woe",
                     "multiclass": "js"}[t])


def same_fit(t, o, ref_o, again):
    d = sig.same(table_of(o), table_of(ref_o))
    if d is None:
        return None
    for _ in range(2):      # a tie of the solver
        r = again()
        if sig.same(table_of(o), table_of(r)) is None:
            return None
    if o.status == ref_o.status and abs(objective(t, o) -
                                        objective(t, ref_o)) < 1e-7:
        return None
    return d


def colval(X, v, vs):
    return X[:, vs.index(v)] if isinstance(X, np.ndarray) else X[v].values


METRICS = {"binary": ["iv", "js", "gini", "quality_score"],
           "multiclass": ["js", "quality_score"],
           "continuous": ["woe", "quality_score"]}


def check_summary(bp, t, vs, objs, support, ctx, what):
    df = bp.summary()
    ok = ctx.check(list(df["name"]) == list(vs), lambda: "{}: names {}"
                   .format(what, list(df["name"])), "summary-names")
    for i, v in enumerate(vs):
        o = objs[v]
        bt = o.binning_table
        bt.build()
        bt.analysis(print_output=False)
        dtype = getattr(o, "dtype", "numerical")
        nb = len(o.splits) + (dtype == "numerical")
        row = df.iloc[i]
        ok &= ctx.check(row["dtype"] == dtype and row["status"] == o.status
                        and int(row["n_bins"]) == nb, lambda:
                        "{}: row {} expected {} {} {}".format(
                            what, dict(row), dtype, o.status, nb),
                        "summary-row")
        for m in METRICS[t]:
            ok &= ctx.check(abs(float(row[m]) - getattr(bt, m)) < 1e-9,
                            lambda: "{}: {} of {} is {} expected {}".format(
                                what, m, v, row[m], getattr(bt, m)),
                            "summary-metric")
    if support is not None:
        ok &= ctx.check([bool(s) for s in df["selected"]] == list(support),
                        lambda: "{}: selected {} expected {}".format(
                            what, list(df["selected"]), support),
                        "summary-selected")
        ok &= ctx.check(
            [bool(s) for s in bp.get_support()] == list(support) and
            [int(k) for k in bp.get_support(indices=True)] ==
            [k for k, s in enumerate(support) if s] and
            [str(k) for k in bp.get_support(names=True)] ==
            [v for v, s in zip(vs, support) if s], "{}: support".format(what),
            "support")
    return ok


def expect(objs, X, vs, names, metric, tparams, ms, mm):
    """columns of the transform and the expected kind"""
    cols, kinds = [], set()
    for v in names:
        p = (tparams or {}).get(v, {})
        m = p.get("metric", metric)
        kinds.add(m)
        kw = {"metric_special": p.get("metric_special", ms),
              "metric_missing": p.get("metric_missing", mm)}
        if m is not None:
            kw["metric"] = m
        cols.append(objs[v].transform(colval(X, v, vs), **kw))
    return cols, kinds


def check_transform(got, cols, names, X, ctx, what):
    import pandas as pd
    if isinstance(X, np.ndarray):
        ok = ctx.check(isinstance(got, np.ndarray) and got.shape ==
                       (len(X), len(names)), lambda: "{}: shape {}".format(
                           what, got.shape), "tr-shape")
        g = got
    else:
        ok = ctx.check(isinstance(got, pd.DataFrame) and
                       list(got.columns) == list(names) and
                       list(got.index) == list(X.index) if names else True,
                       lambda: "{}: columns {} index {}".format(
                           what, list(got.columns), list(got.index)[:3]),
                       "tr-columns")
        g = got.values if names else got
    if not ok:
        return False
    for j, v in enumerate(names):
        a, b = list(g[:, j]), list(cols[j])
        bad = [k for k in range(len(b)) if not (
            a[k] == b[k] or (a[k] != a[k] and b[k] != b[k]) or (isinstance(a[k], float) and
                             abs(a[k] - b[k]) < 1e-12))]
        if not ctx.check(len(a) == len(b) and not bad, lambda: "{}: column {} "
                         "row {}: {} expected {}".format(
                             what, v, bad[:1], [a[k] for k in bad[:1]],
                             [b[k] for k in bad[:1]]), "tr-values"):
            return False
    return True


# ----------------------------------------------------------------- fit
def fit(desc, ctx):
    from optbinning import BinningProcess
    t, vs = desc["t"], list(desc["vs"])
    p, f = PARAMS[desc["p"]], FITP[desc["f"]]
    if t == "multiclass" and f:
        f = {v: {k: o for k, o in d.items() if k != "dtype"}
             for v, d in f.items()}
    elif t == "multiclass":
        f = None
    if desc["c"] == "np" and "d" in vs and t == "multiclass":
        return
    X = container(vs, desc["c"])
    y = targets()[t]
    w = None
    if desc["w"] and t == "binary":
        w = 1.0 + (np.arange(N) % 4 == 2)
    obj = isinstance(X, np.ndarray) and X.dtype == object
    if obj and p.get("special_codes"):
        pass
    cats = p.get("categorical_variables") or []
    objs = {}
    ctx.state([t, vs, desc["p"], desc["f"], desc["c"], desc["jobs"],
               desc["ci"], desc["w"]])

    def make(v):
        x = colval(X, v, vs)
        return standalone(t, v, x, p, f, x.dtype == object or v in cats, y, w)
    err = None
    for v in vs:
        try:
            objs[v] = make(v)
        except (ValueError, TypeError) as e:
            err = e
            break
    bp = BinningProcess(variable_names=vs, binning_fit_params=f,
                        n_jobs=desc["jobs"], **p)
    ctx.step(len(vs))
    try:
        bp.fit(X, y, sample_weight=w, check_input=bool(desc["ci"]))
    except (ValueError, TypeError) as e:
        ctx.check(err is not None, lambda: "raised {!r}".format(e), "raise")
        ctx.outcome("rejected")
        return
    if not ctx.check(err is None, lambda: "no error, standalone raised {!r}"
                     .format(err), "no-raise"):
        return
    got = {v: bp.get_binned_variable(v) for v in vs}
    for v in vs:
        d = same_fit(t, got[v], objs[v], lambda: make(v))
        if not ctx.check(d is None, lambda: "variable {} differs from the "
                         "standalone binning: {}".format(v, d), "variable"):
            return
        ctx.agree()
    check_summary(bp, t, vs, got, [True] * len(vs), ctx, "fit")
    cols, _ = expect(got, X, vs, vs, None, None, 0, 0)
    check_transform(bp.transform(X), cols, vs, X, ctx, "fit")
    if not isinstance(X, np.ndarray):
        # another order of the columns, other columns, some of the rows
        Z = X[list(reversed(list(X.columns)))].assign(zz=1.0).iloc[::3]
        cols, _ = expect(got, Z, vs, vs, None, None, 0, 0)
        check_transform(bp.transform(Z), cols, vs, Z, ctx, "columns")
        if desc["p"] % 4 == 0:
            b2 = BinningProcess(variable_names=vs, binning_fit_params=f, **p)
            z = b2.fit_transform(X, y, sample_weight=w)
            cols, _ = expect({v: b2.get_binned_variable(v) for v in vs}, X,
                             vs, vs, None, None, 0, 0)
            check_transform(z, cols, vs, X, ctx, "fit_transform")
    ctx.outcome([t, [len(got[v].splits) for v in vs]])


# ----------------------------------------------------------------- select
_FIT = {}


def fitted(t, vs):
    key = (t, tuple(vs))
    if key not in _FIT:
        y = targets()[t]
        p = pool()
        _FIT[key] = {v: standalone(t, v, p[v], {"special_codes": [S]}, None,
                                   p[v].dtype == object, y) for v in vs}
    return _FIT[key]


def select(stats, vs, t, crit, fixed):
    """set of admissible selections (ties) as list of frozensets"""
    outs = [set(vs)]
    for m in METRICS[t]:
        if m not in (crit or {}):
            continue
        c = crit[m]
        new = []
        for s in outs:
            s = {v for v in s if stats[v][m] >= c.get("min", -1e18) and
                 stats[v][m] <= c.get("max", 1e18)}
            if "strategy" in c and "top" in c:
                k = c["top"]
                if not isinstance(k, int):
                    k = int(np.ceil(len(s) * k))
                k = min(k, len(s))
                sgn = -1 if c["strategy"] == "highest" else 1
                for w in itertools.combinations(sorted(s), k):
                    rest = [sgn * stats[v][m] for v in s if v not in w]
                    if not w or not rest or max(
                            sgn * stats[v][m] for v in w) <= min(rest):
                        new.append(set(w))
            else:
                new.append(s)
        outs = new
    return [s | set(fixed or []) for s in outs]


def criteria(stats, vs, t):
    one = {}
    for m in METRICS[t]:
        val = sorted({stats[v][m] for v in vs})
        cut = [0.0] + [(a + b) / 2 for a, b in zip(val, val[1:])] + val
        top = 1.0 if m in ("gini", "quality_score") else 50.0
        cut = [c for c in cut if c <= top]
        cs = [{"min": c} for c in cut] + [{"max": c} for c in cut]
        cs += [{"min": a, "max": b} for a in cut[1:6:2] for b in cut[2::2]]
        for s in ("highest", "lowest"):
            for k in (1, 2, 3, 5, 9, 0.1, 0.2, 0.4, 0.5, 0.61, 0.99):
                cs.append({"strategy": s, "top": k})
                cs.append({"strategy": s, "top": k, "min": cut[2]})
                cs.append({"strategy": s, "top": k, "max": cut[-2]})
        cs += [{"strategy": "highest"}, {"top": 1}, {}]
        one[m] = cs
    for m in one:
        for c in one[m]:
            yield {m: c}
    for m1, m2 in itertools.permutations(METRICS[t], 2):
        for c1 in one[m1][::5]:
            for c2 in one[m2][::5]:
                yield {m1: c1, m2: c2}


def sel(desc, ctx):
    from optbinning import BinningProcess
    t, vs = desc["t"], list(desc["vs"])
    objs = fitted(t, vs)
    stats = {}
    for v in vs:
        bt = objs[v].binning_table
        bt.build()
        bt.analysis(print_output=False)
        stats[v] = {m: float(getattr(bt, m)) for m in METRICS[t]}
    fix = [None, ["a"], ["e", "b"], list(vs)]
    X = container(vs, "df")
    for i, c in enumerate(criteria(stats, vs, t)):
        if i % desc["of"] != desc["part"]:
            continue
        fx = fix[i // desc["of"] % 4]
        order = vs if i % 2 else vs[::-1]
        bp = BinningProcess(variable_names=order, selection_criteria=c,
                            fixed_variables=fx)
        bp.fit_from_dict(dict((v, objs[v]) for v in vs))
        ctx.step()
        ctx.state([t, c, fx])
        got = {str(v) for v in bp.get_support(names=True)}
        want = select(stats, vs, t, c, fx)
        ctx.agree()
        ctx.check(got in want, lambda: "criteria {} fixed {}: selected {} "
                  "expected {} of {}".format(c, fx, got, want, stats),
                  "selection")
        sup = [v in got for v in order]
        if i // desc["of"] % 5 == 0:
            check_summary(bp, t, order, objs, sup, ctx, "sel")
        else:
            ctx.check([bool(s) for s in bp.get_support()] == sup, "support",
                      "support")
        names = [v for v in order if v in got]
        if i // desc["of"] % 3 == 0:
            cols, _ = expect(objs, X, vs, names, None, None, 0, 0)
            check_transform(bp.transform(X), cols, names, X, ctx, "sel")
        ctx.outcome([t, len(got)])


# ----------------------------------------------------------------- transform
MET = {"binary": [None, "woe", "event_rate", "indices", "bins"],
       "continuous": [None, "mean", "indices", "bins"],
       "multiclass": [None, "mean_woe", "weighted_mean_woe", "indices",
                      "bins"]}
VP = [{}, {"metric_missing": "empirical", "metric_special": -3},
      {"metric": 1}, {"metric": 2, "metric_missing": 7.5}]


def varparams(t, pv, vs):
    out = {}
    for v, k in zip(vs, pv):
        p = dict(VP[k])
        if p.get("metric") == 1:
            p["metric"] = "indices"
        elif p.get("metric") == 2:
            p["metric"] = {"binary": "event_rate", "continuous": "mean",
                           "multiclass": "weighted_mean_woe"}[t]
        if p or k == 0 and v == "a":
            out[v] = p
    return out


def tr(desc, ctx):
    from optbinning import BinningProcess
    t, m = desc["t"], desc["m"]
    vs = ["a", "b", "c"]
    if t != "multiclass" and sum(desc["pv"]) % 2:
        vs = ["d", "b", "a"]
    objs = fitted(t, vs)
    tp = varparams(t, desc["pv"], vs)
    keep = [v for v, s in zip(vs, desc["sup"]) if s]
    # selection: nothing satisfies the criterion but the fixed variables
    q = METRICS[t][0]
    bp = BinningProcess(
        variable_names=vs, fixed_variables=keep,
        selection_criteria={q: {"min": 0.999 if q == "js" else 1e6}},
        binning_transform_params=tp or None)
    bp.fit_from_dict({v: objs[v] for v in vs})
    for c in ("df", "np"):
        X = container(vs, c)
        for ms, mm in ((0, 0), (5, -2)):
            ctx.step()
            ctx.state([t, m, desc["pv"], desc["sup"], c, ms])
            cols, kinds = None, {(tp.get(v) or {}).get("metric", m)
                                 for v in keep}
            mixed = len(kinds) > 1 and "bins" in kinds
            try:
                cols, kinds = expect(objs, X, vs, keep, m, tp, ms, mm)
            except ValueError:
                pass
            try:
                got = bp.transform(X, metric=m, metric_special=ms,
                                   metric_missing=mm)
            except ValueError as e:
                ctx.check(mixed or cols is None or
                          (m == "bins" and tp), lambda: "raised {}".format(e),
                          "tr-raise")
                continue
            if not ctx.check(not mixed and cols is not None,
                             "mixed bins accepted", "tr-mixed"):
                continue
            if not keep:
                ctx.check(got.shape == (N, 0), "empty selection", "tr-empty")
                continue
            if kinds == {"indices"}:
                cols = [[int(v) for v in col] for col in cols]
            check_transform(got, cols, keep, X, ctx, "metric {} params {}"
                            .format(m, tp))
            ctx.agree()
            # transforming again gives the same: nothing leaked
            ctx.check(sig.same(got, bp.transform(
                X, metric=m, metric_special=ms, metric_missing=mm)) is None,
                "second transform differs", "tr-again")
    ctx.outcome([t, m, sorted(map(str, tp))])


# ----------------------------------------------------------------- histories
OPS = ["updA", "updB", "updPW", "updD", "summary", "support", "transform",
       "fit", "saveload", "info"]
_ALT = {}


def alternatives(t):
    if t not in _ALT:
        from optbinning import ContinuousOptimalPWBinning, OptimalPWBinning
        p, y = pool(), targets()[t]
        kw = {"special_codes": [S]}
        alt = {"updA": ("a", standalone(t, "a", p["a"], dict(
                   kw, max_n_bins=2), None, False, y)),
               "updB": ("b", standalone(t, "b", p["b"], dict(
                   kw, max_n_prebins=3), None, False, y)),
               "updD": ("c", standalone(t, "c", p["c"], dict(
                   kw, max_n_bins=3), None, t != "multiclass", y))}
        if t != "multiclass":
            k = OptimalPWBinning if t == "binary" else \
                ContinuousOptimalPWBinning
            o = k(name="a", special_codes=[S], max_n_prebins=3)
            o.fit(p["a"], y)
            alt["updPW"] = ("a", o)
        _ALT[t] = alt
    return _ALT[t]


def hist(desc, ctx):
    import contextlib
    import io

    from optbinning import BinningProcess
    t = desc["t"]
    vs = ["b", "a", "c"]
    h = [OPS[k] for k in desc["h"]]
    alt = alternatives(t)
    if any(o.startswith("upd") and o not in alt for o in h):
        return
    X, y = container(vs, "df"), targets()[t]
    base = fitted(t, vs)
    m0 = METRICS[t][0]
    vals = []
    for o in list(base.values()) + [a[1] for a in alt.values()]:
        o.binning_table.build()
        o.binning_table.analysis(print_output=False)
        vals.append(float(getattr(o.binning_table, m0)))
    vals = sorted(set(vals))
    # a threshold between the metrics of an object and its replacement
    u = alt[[o for o in h if o.startswith("upd")][0]] if any(
        o.startswith("upd") for o in h) else alt["updA"]
    a, b = [float(getattr(o.binning_table, m0))
            for o in (base[u[0]], u[1])]
    cut = (a + b) / 2
    bp = BinningProcess(variable_names=vs, special_codes=[S],
                        selection_criteria={m0: {"min": cut}})
    bp.fit_from_dict({v: base[v] for v in vs})
    model = dict(base)
    ctx.state([t, h])

    def verify(what):
        st = {}
        for v in vs:
            bt = model[v].binning_table
            bt.build()
            bt.analysis(print_output=False)
            st[v] = float(getattr(bt, m0))
        return [st[v] >= cut for v in vs]

    def check(op):
        sup = verify(op)
        if op == "summary":
            check_summary(bp, t, vs, model, sup, ctx, "{}".format(h))
        elif op == "support":
            ctx.check([bool(s) for s in bp.get_support()] == sup,
                      lambda: "{}: support {} expected {}".format(
                          h, list(bp.get_support()), sup), "hist-support")
        elif op == "transform":
            names = [v for v, s in zip(vs, sup) if s]
            got = bp.transform(X)
            if not names:
                ctx.check(got.shape == (N, 0), "columns without selection",
                          "hist-transform")
                return
            cols, _ = expect(model, X, vs, names, None, None, 0, 0)
            check_transform(got, cols, names, X, ctx, "{}".format(h))
        elif op == "info":
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                bp.information(print_level=1)
            nums = [l.split()[-1] for l in out.getvalue().splitlines()
                    if "selected" in l.lower()]
            ctx.check(nums[-1:] == [str(sum(sup))], lambda: "{}: information "
                      "{} expected {}".format(h, nums, sum(sup)),
                      "hist-info")
            ncat = sum(getattr(model[v], "dtype", "") == "categorical"
                       for v in vs)
            nums = [l.split()[-1] for l in out.getvalue().splitlines()
                    if "categorical" in l.lower() and "variables" in l]
            ctx.check(nums in ([], [str(ncat)]) or not nums, lambda:
                      "{}: categorical {} expected {}".format(h, nums, ncat),
                      "hist-info-cat")
        ctx.agree()

    for op in h:
        ctx.step()
        if op in alt:
            v, o = alt[op]
            bp.update_binned_variable(v, o)
            model[v] = o
        elif op == "fit":
            bp.fit(X, y)
            model = {v: bp.get_binned_variable(v) for v in vs}
            for v in vs:
                d = same_fit(t, model[v], base[v], lambda: base[v])
                ctx.check(d is None, lambda: "{}: refit {}".format(h, d),
                          "hist-fit")
        elif op == "saveload":
            d = tempfile.mkdtemp()
            try:
                f = os.path.join(d, "bp.v1.pkl")
                try:
                    bp.save(f)
                except TypeError as e:
                    if "pickle" in str(e):      # solver objects
                        return
                    raise
                bp2 = BinningProcess.load(f)
            finally:
                shutil.rmtree(d)
            bp = bp2
            for v in vs:
                ctx.check(sig.same(table_of2(bp.get_binned_variable(v)),
                                   table_of2(model[v])) is None,
                          "{}: loaded table".format(h), "hist-load")
        else:
            check(op)
        for v in vs:
            if op != "saveload":
                ctx.check(sig.same(table_of2(bp.get_binned_variable(v)),
                                   table_of2(model[v])) is None,
                          "{}: table of {}".format(h, v), "hist-table")
    for op in ("transform", "support", "summary", "info"):
        check(op)
    ctx.outcome([t, verify("end")])


def table_of2(o):
    return [o.binning_table.build(), list(map(str, o.splits))]


# ----------------------------------------------------------------- disk
def disk(desc, ctx):
    import pandas as pd

    from optbinning import BinningProcess
    t, m = desc["t"], desc["m"]
    vs = ["c", "a", "b"] if t == "multiclass" else ["d", "a", "b", "c"]
    if m == "bins":
        tp = None
    else:
        tp = [None, {"a": {"metric": "indices"}},
              {"a": {"metric_missing": 3}, "b": {"metric_missing":
                                                 "empirical"}}][desc["pv"]]
    df = container(vs, "df")
    df["target"] = targets()[t]
    df["other"] = np.arange(N)
    d = tempfile.mkdtemp()
    try:
        src = os.path.join(d, "in.v2.csv")
        dst = os.path.join(d, "out.v2.csv")
        df.to_csv(src, index=False)
        read = pd.read_csv(src)
        if desc["old"]:
            with open(dst, "w") as f:
                f.write("old,content\n1,2\n")

        def make():
            return BinningProcess(variable_names=vs, special_codes=[S],
                                  binning_transform_params=tp)
        bp, mem = make(), make()
        bp.fit_disk(src, "target")
        mem.fit(read[vs], read["target"])
        ctx.step(2)
        ctx.state([t, desc["ch"], m, desc["pv"]])
        for v in vs:
            dd = same_fit(t, bp.get_binned_variable(v),
                          mem.get_binned_variable(v), lambda: make().fit(
                              read[vs], read["target"])
                          .get_binned_variable(v))
            ctx.check(dd is None, lambda: "fit_disk {}: {}".format(v, dd),
                      "disk-fit")
        want = bp.transform(read, metric=m)
        bp.transform_disk(src, dst, desc["ch"], metric=m)
        ctx.step()
        got = pd.read_csv(dst)
        ctx.agree()
        ctx.check(list(got.columns) == list(want.columns) and
                  len(got) == N, lambda: "output {} rows, columns {}".format(
                      len(got), list(got.columns)), "disk-shape")
        if len(got) == N and list(got.columns) == list(want.columns):
            ctx.check(sig.same(got.values, want.values) is None, lambda:
                      "chunk size {}: {}".format(desc["ch"], sig.same(
                          got.values, want.values)), "disk-values")
        ctx.outcome([t, m, len(got.columns)])
    finally:
        shutil.rmtree(d)


# ----------------------------------------------------------------- misuse
def api(desc, ctx):
    from sklearn.exceptions import NotFittedError

    from optbinning import BinningProcess, OptimalBinning
    X, T = container("ab", "df"), targets()
    for f in (lambda b: b.transform(X), lambda b: b.summary(),
              lambda b: b.get_support(), lambda b: b.information(),
              lambda b: b.get_binned_variable("a"),
              lambda b: b.update_binned_variable("a", OptimalBinning())):
        ctx.step()
        try:
            f(BinningProcess(variable_names=["a", "b"]))
            ctx.fail("not fitted, no error", "api-notfitted")
        except NotFittedError:
            pass
    bad = [({"selection_criteria": {"xx": {"min": 0}}}, ValueError),
           ({"selection_criteria": {"iv": {"min": -1}}}, ValueError),
           ({"selection_criteria": {"gini": {"max": 2}}}, ValueError),
           ({"selection_criteria": {"iv": {"strategy": "best"}}}, ValueError),
           ({"selection_criteria": {"iv": {"top": 0}}}, ValueError),
           ({"selection_criteria": {"iv": {"top": 1.5}}}, ValueError),
           ({"selection_criteria": {"iv": {"foo": 1}}}, KeyError),
           ({"selection_criteria": {"iv": 3}}, TypeError)]
    for kw, exc in bad:
        ctx.step()
        ctx.state(kw)
        try:
            BinningProcess(variable_names=["a", "b"], **kw).fit(
                X, T["binary"])
            ctx.fail("accepted {}".format(kw), "api-criteria")
        except exc:
            pass
    bp = BinningProcess(variable_names=["a", "b"]).fit(X, T["binary"])
    for t in ("continuous", "multiclass"):
        o = fitted(t, ["a"])["a"]
        ctx.step()
        try:
            bp.update_binned_variable("a", o)
            ctx.fail("updated with another target type", "api-update")
        except TypeError:
            pass
    for name, o in (("z", fitted("binary", ["a"])["a"]),
                    ("b", fitted("binary", ["a"])["a"])):
        try:
            bp.update_binned_variable(name, o)
            ctx.fail("updated {} with object a".format(name), "api-update")
        except ValueError:
            pass
    try:
        bp.transform(X[["a"]])
        ctx.fail("missing column accepted", "api-columns")
    except ValueError:
        pass
    try:
        bp.transform(container("abc", "df").values[:, :3])
        ctx.fail("array with other columns accepted", "api-columns")
    except ValueError:
        pass
