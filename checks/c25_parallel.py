"""C25: n_jobs and the schedule of the workers do not change a result."""
import itertools
import os

import numpy as np

from checks import c18_process as c18
from mc import ref, sched, sig

PROPERTY = "C25"
BATCH = 1
BATCH_TIMEOUT = 600
RULE = ("(sched) the worker tasks of a parallel fit run as real threads under "
        "a controlled scheduler: every schedule with at most one preemption "
        "at any source line of the package (first visits of the line by the "
        "thread), with at most two preemptions at any function call, every "
        "starting thread; each schedule is compared with the sequential fit. "
        "(jobs) every number of variables, number of jobs (positive, "
        "negative, more jobs than variables), container, names of every "
        "type, target: the parallel fit covers every variable exactly once "
        "and tables, summary, support and transforms equal the sequential "
        "ones. (2d, cf) number of solver workers of 2D binnings and "
        "counterfactuals: same status and objective, admissible result.")
ASSUMPTIONS = ["30 rows, at most 5 variables, at most 3 threads under the "
               "scheduler; C code between two lines of Python is atomic",
               "tied optima may be chosen differently (compared by "
               "objective)"]
S = -99.0

# (target, variables, jobs, process parameters, per variable parameters,
#  weights)
CONF = [
    ("binary", "ab", 2, {"special_codes": [S]}, None, 0),
    ("binary", "dab", 3, {"special_codes": {"s": S, "t": [4.0]},
                          "max_n_bins": 3}, {"d": {"cat_cutoff": 0.15}}, 1),
    ("binary", "acbd", 2, {"max_pvalue": 0.4, "min_bin_size": 0.1},
     {"a": {"user_splits": np.array([2.0, 5.0, 7.0]),
            "user_splits_fixed": [False, True, False]},
      "c": {"solver": "mip", "monotonic_trend": "peak"}}, 0),
    ("continuous", "ba", 2, {"special_codes": [S]}, None, 0),
    ("continuous", "cda", 3, {"max_n_prebins": 6}, {"d": {
        "cat_unknown": 2}}, 0),
    ("multiclass", "ab", 2, {"special_codes": [S]}, None, 0),
    ("multiclass", "ca", 2, {}, {"c": {"monotonic_trend": None},
                                 "a": {"solver": "mip",
                                       "monotonic_trend": None}}, 0),
    ("binary", "aa2", 2, {"special_codes": [S]},
     {"a": {"prebinning_method": "mdlp"},
      "a2": {"prebinning_method": "mdlp"}}, 0),
    ("binary", "ab", 2, {"special_codes": [S]},
     {"a": {"prebinning_method": "quantile", "outlier_detector": "zscore",
            "divergence": "js"},
      "b": {"prebinning_method": "uniform", "outlier_detector": "range",
            "divergence": "hellinger"}}, 0),
]
PARTS = 24


def tasks(tier):
    q = tier == "quick"
    for i in range(len(CONF)):
        for part in range(PARTS):
            for gran in ("line", "call"):
                yield {"k": "schedule", "conf": i, "part": part, "g": gran,
                       "step": (13 if gran == "line" else 83) if q else
                       (1 if gran == "line" else 5),
                       "visits": 1 if q else 2, "tot": PARTS}
    for t in ("binary", "continuous", "multiclass"):
        for n in range(1, 6):
            for jobs in (2, 3, 4, 7, -1, -2):
                for c in ("df", "np", "dfx", "dfi"):
                    if q and (n + jobs + len(c)) % 3:
                        continue
                    yield {"k": "jobs", "t": t, "n": n, "jobs": jobs, "c": c}
    for i in range(len(OPTS)):
        for t in ("binary", "continuous", "multiclass"):
            for c in ("df", "np"):
                for jobs in (2, 3, -1):
                    if q and jobs == -1:
                        continue
                    yield {"k": "options", "i": i, "t": t, "c": c,
                           "jobs": jobs}
    for names in range(6):
        for jobs in (2, 3):
            yield {"k": "naming", "n": names, "jobs": jobs}
    for t, s in itertools.product(("binary", "continuous"), ("cp", "mip")):
        for tr in ((None, None), ("ascending", None),
                   ("ascending", "descending")):
            for pat in range(2 if q else 8):
                yield {"k": "twod", "t": t, "s": s, "tr": tr, "p": pat}
    for t, out in (("binary", "binary"), ("continuous", "continuous")):
        for s in (0, 1, 2):
            for m in ("weighted", "hierarchical"):
                for jobs in (2, 4):
                    yield {"k": "cf", "t": t, "s": s, "out": out, "m": m,
                           "ob": 0, "mc": None, "sm": 0, "jobs": jobs,
                           "step": 9 if q else 3}


def run(desc, ctx):
    globals()[desc["k"]](desc, ctx)


def pkg():
    import optbinning
    return os.path.dirname(os.path.abspath(optbinning.__file__)) + os.sep


# ------------------------------------------------------------- observation
def names_of(s):
    return ["a", "a2"] if s == "aa2" else list(s)


def data(vs):
    import pandas as pd
    p = c18.pool()
    p["a2"] = p["a"][::-1].copy()
    return pd.DataFrame({v: p[v] for v in vs})


def process(conf, jobs, vs=None):
    import copy

    from optbinning import BinningProcess
    t, v, _, kw, fp, w = conf
    return BinningProcess(variable_names=vs or names_of(v), n_jobs=jobs,
                          binning_fit_params=copy.deepcopy(fp), **kw)


def shot(bp, X, vs, t):
    """all that can be observed of a fitted process"""
    out = []
    for v in vs:
        o = bp.get_binned_variable(v)
        out.append([v, getattr(o, "dtype", None), o.status,
                    o.splits if not isinstance(o.splits, np.ndarray)
                    else o.splits.tolist(), o.binning_table.build()])
    df = bp.summary()
    out.append(df)
    out.append(list(bp.get_support()))
    for m in c18.MET[t][:3]:
        if m is None:
            continue
        out.append(bp.transform(X, metric=m, metric_special="empirical",
                                metric_missing="empirical"))
    return sig.flat(out, [])


def objectives(bp, vs, t):
    return [(bp.get_binned_variable(v).status,
             c18.objective(t, bp.get_binned_variable(v))) for v in vs]


def compare(a, b, ctx, vs, t, what, name):
    """a, b: (process, shot)"""
    ctx.agree()
    d = sig.same(a[1], b[1])
    if d is None:
        return True
    oa, ob = objectives(a[0], vs, t), objectives(b[0], vs, t)
    tied = all(p[0] == q[0] and abs(p[1] - q[1]) < 1e-7
               for p, q in zip(oa, ob))
    return ctx.check(tied, "{}: {}".format(what, d), name)


_REF = {}


def reference(i):
    if i not in _REF:
        conf = CONF[i]
        t, v = conf[0], conf[1]
        vs = names_of(v)
        X, y = data(vs), c18.targets()[t]
        w = 1.0 + (np.arange(len(y)) % 4 == 2) if conf[5] else None
        bp = process(conf, 1)
        bp.fit(X, y, sample_weight=w)
        _REF[i] = (X, y, w, vs, t, (bp, shot(bp, X, vs, t)))
    return _REF[i]


# --------------------------------------------------------------- schedules
def schedule(desc, ctx):
    from optbinning.binning import binning_process as m
    i = desc["conf"]
    X, y, w, vs, t, base = reference(i)
    conf = CONF[i]
    if not hasattr(m, "Parallel"):
        ctx.outcome("no joblib.Parallel: only the results are compared")
        return
    old = m.Parallel

    def fit(first, preempt):
        sched.FakeParallel.plan = {
            "first": first, "preempt": preempt, "prefix": pkg(),
            "gran": desc["g"], "visits": desc["visits"]}
        sched.FakeParallel.log = None
        bp = process(conf, conf[2])
        xc, yc = X.copy(), y.copy()
        m.Parallel = sched.FakeParallel
        try:
            bp.fit(xc, yc, sample_weight=None if w is None else w.copy())
        finally:
            m.Parallel = old
        ctx.step()
        c = sched.FakeParallel.log
        if c is not None:
            ctx.state([i, desc["g"], first, c.trace])
        ctx.check(sig.same([list(xc[v]) for v in vs] + [list(yc)],
                           [list(X[v]) for v in vs] + [list(y)]) is None,
                  "the data were modified", "mutated")
        ok = compare((bp, shot(bp, X, vs, t)), base, ctx, vs, t,
                     "schedule {} {}".format(first, preempt), "schedule")
        return c, ok

    c, ok = fit(0, {})
    if c is None or not ok:
        ctx.outcome("not parallel" if ok else "failed")
        return
    n = len(c.tasks)
    cnt = list(c.count)
    ctx.outcome("%s conf %d: %d threads" % (desc["g"], i, n))
    plans = []
    if desc["g"] == "line":         # one preemption, anywhere
        for a in range(n):
            plans.append((a, {}))
            for p in range(1, cnt[a] + 1):
                for b in range(n):
                    if b != a:
                        plans.append((a, {(a, p): b}))
    else:                           # two preemptions at calls
        for a in range(n):
            for b in range(n):
                if b == a:
                    continue
                for p in range(1, cnt[a] + 1):
                    for r in range(1, cnt[b] + 1):
                        plans.append((a, {(a, p): b, (b, r): a}))
    mine = plans[desc["part"]::desc["tot"]]
    for a, pre in mine[::desc["step"]]:
        if not fit(a, pre)[1]:
            return


# -------------------------------------------------------------------- jobs
def jobs(desc, ctx):
    from optbinning import BinningProcess
    t = desc["t"]
    pool = "abce" if t == "multiclass" else "abcde"
    for i, vs in enumerate(itertools.combinations(
            pool, min(desc["n"], len(pool)))):
        # the variables come in any order
        i += desc["n"] + 1
        vs = list(vs)[::-1 if i % 2 else 1]
        vs = vs[i % len(vs):] + vs[:i % len(vs)]
        X = c18.container(vs, desc["c"])
        y = c18.targets()[t]
        got = []
        crit = {"binary": {"iv": {"top": 2}},
                "continuous": {"woe": {"top": 0.5}},
                "multiclass": {"js": {"top": 2, "strategy": "lowest"}}}[t]
        for j in (None, desc["jobs"]):
            bp = BinningProcess(variable_names=vs, n_jobs=j,
                                special_codes=[S], selection_criteria=crit)
            bp.fit(X, y)
            ctx.step()
            got.append((bp, shot(bp, X, vs, t)))
        ctx.state([t, vs, desc["jobs"], desc["c"]])
        bp = got[1][0]
        got_vs = list(bp.summary()["name"])
        ctx.check(got_vs == vs, lambda: "variables {} of {}".format(
            got_vs, vs), "cover")
        for v in vs:
            ctx.check(bp.get_binned_variable(v).name == v, "name", "name")
        compare(got[1], got[0], ctx, vs, t, "jobs {} {}".format(
            desc["jobs"], vs), "jobs")
        ctx.outcome("%s %d variables" % (t, len(vs)))


OPTS = [{"max_n_prebins": 3}, {"min_prebin_size": 0.25}, {"min_n_bins": 3},
        {"max_n_bins": 2}, {"min_bin_size": 0.3}, {"max_bin_size": 0.4},
        {"max_pvalue": 0.05}, {"max_pvalue": 0.6, "max_pvalue_policy": "all"},
        {"special_codes": {"s": S, "t": [4.0]}}, {"split_digits": 0},
        {"categorical_variables": ["b"]},
        {"binning_fit_params": {"b": {"max_n_bins": 2},
                                "c": {"prebinning_method": "quantile"}}},
        {"binning_transform_params": {"b": {"metric": "indices"},
                                      "a": {"metric_missing": 7}}},
        {"fixed_variables": ["b"], "selection_criteria": {"zz": {
            "top": 1}}},
        {"selection_criteria": {"zz": {"top": 0.5, "strategy": "lowest"}}},
        {"weight": 1}]


def options(desc, ctx):
    """every option of the process reaches the workers"""
    from optbinning import BinningProcess
    t, kw = desc["t"], dict(OPTS[desc["i"]])
    vs = list("abcd") if t != "multiclass" and desc["c"] == "df" else \
        list("abc")
    if t == "multiclass" and "categorical_variables" in kw:
        ctx.outcome("no categorical multiclass")
        return
    X, y = c18.container(vs, desc["c"]), c18.targets()[t]
    w = None
    if kw.pop("weight", 0):
        if t != "binary":
            return
        w = 1.0 + (np.arange(len(y)) % 4 == 2) * 2.0
    if "selection_criteria" in kw:
        kw["selection_criteria"] = {
            {"binary": "iv", "continuous": "woe", "multiclass": "js"}[t]:
            kw["selection_criteria"]["zz"]}
    kw.setdefault("special_codes", [S])
    got = []
    for j in (1, desc["jobs"]):
        bp = BinningProcess(variable_names=vs, n_jobs=j, **kw)
        bp.fit(X, y, sample_weight=w)
        ctx.step()
        ps = [{k: str(v) for k, v in bp.get_binned_variable(
            u).get_params().items()} for u in vs]
        got.append((bp, shot(bp, X, vs, t), ps))
    ctx.state([t, desc["i"], desc["c"], desc["jobs"]])
    ctx.check(got[0][2] == got[1][2], lambda: "parameters of the variables: "
              "{}".format([(a, b) for a, b in zip(got[1][2], got[0][2])
                           if a != b]), "options")
    compare(got[1], got[0], ctx, vs, t, "jobs {} {}".format(
        desc["jobs"], kw), "options")
    ctx.outcome("options %d" % desc["i"])


def naming(desc, ctx):
    """names that are not plain strings"""
    import pandas as pd

    from optbinning import BinningProcess
    p = c18.pool()
    ns = [["a", 1, "c"], [0, 1, 2], [1.5, 2.5, 0.5],
          ["a long name of a variable", "b", "c"],
          [("a", "x"), ("b", "x"), ("c", "y")],
          np.array(["b", "a", "c"])][desc["n"]]
    df = pd.DataFrame({k: p[v] for k, v in zip(list(ns), "abc")})
    if desc["n"] == 4:
        df.columns = pd.Index(ns, tupleize_cols=False)
    y = c18.targets()["binary"]
    got = []
    for j in (1, desc["jobs"]):
        bp = BinningProcess(variable_names=ns, n_jobs=j, special_codes=[S])
        try:
            bp.fit(df, y, check_input=False)
        except (ValueError, TypeError, KeyError, IndexError) as e:
            got.append("raised")
            ctx.outcome(repr(e)[:60])
            continue
        ctx.step()
        out = []
        for v in ns:
            try:
                out.append(bp.get_binned_variable(v).binning_table.build())
            except (TypeError, ValueError) as e:
                out.append(type(e).__name__)
        out.append(bp.summary())
        got.append(sig.flat(out, []))
    ctx.state([str(ns), desc["jobs"]])
    ctx.agree()
    ctx.check(sig.same(got[0], got[1]) is None, lambda: "names {}: {}".format(
        list(ns), sig.same(got[0], got[1])), "naming")


# ----------------------------------------------------------------- solvers
def twod(desc, ctx):
    from optbinning import ContinuousOptimalBinning2D, OptimalBinning2D
    t = desc["t"]
    i = np.arange(90)
    p = desc["p"]
    x = (i * (7 + p)) % 10 / 2.0
    z = (i * i + p * i // 3) % 9 * 1.5
    if t == "binary":
        y = ((x * 2 + z + i % 5) > 11 + p % 3).astype(int)
    else:
        y = x * 2 - z + (i % 7) / 3.0
    k = OptimalBinning2D if t == "binary" else ContinuousOptimalBinning2D
    tr = desc["tr"]
    got = {}
    for j in (1, 2, 3, None, -1):
        o = k(solver=desc["s"], monotonic_trend_x=tr[0],
              monotonic_trend_y=tr[1], max_n_prebins_x=3, max_n_prebins_y=3,
              n_jobs=j)
        o.fit(x, z, y)
        ctx.step()
        bt = o.binning_table
        df = bt.build()
        got[j] = (o.status, bt.iv if t == "binary" else float(
            df["WoE"].iloc[-1]), int(df["Count"].iloc[-1]))
    ctx.state([t, desc["s"], tr, p])
    ctx.agree()
    a = got[1]
    for j, b in got.items():
        ctx.check(a[0] == b[0] and ref.close(a[1], b[1], 1e-4, 1e-4) and
                  a[2] == b[2], lambda: "n_jobs {}: {} expected {}".format(
                      j, b, a), "twod")
    ctx.outcome([t, a[0]])


def cf(desc, ctx):
    """the counterfactual is valid and optimal for any number of workers"""
    from checks import c22_counterfactual as c22
    c22.one(desc, ctx)
