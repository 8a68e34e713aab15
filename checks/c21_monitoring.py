"""C21: scorecard monitoring statistics equal their definitions."""
import contextlib
import io
import itertools
import math

import numpy as np

from checks import c18_process as c18
from checks import c20_scorecard as c20
from mc.core import Skip

PROPERTY = "C21"
BATCH = 12
RULE = ("(bin) every pair of actual and expected samples given by the number "
        "of records (0..2) and the target pattern of each prototype "
        "observation (one per score level, special, missing, unknown "
        "category). (cfg) every PSI method, number of bins, minimum size, "
        "scorecard scaling and rounding, target type and container over "
        "windows of a data set. Each table is compared with a recount of the "
        "scores and of the bins of every variable and with the formulas of "
        "PSI, chi-square and Welch tests.")
ASSUMPTIONS = ["2 or 3 variables, at most 30 + 30 records",
               "PSI terms of bins empty in one sample are infinite (no "
               "smoothing is documented)",
               "unknown categories belong to no bin of their variable"]
NAN = float("nan")
S = c18.S


def tasks(tier):
    q = tier == "quick"
    # counts of 4 prototypes in expected and actual, target patterns
    E = [c for c in itertools.product(range(3), repeat=4) if sum(c) >= 2]
    n = 0
    for e in E:
        for a in itertools.product(range(3), repeat=4):
            if sum(a) < 1:
                continue
            n += 1
            if n % (13 if q else 2):
                continue
            yield {"k": "bin", "e": e, "a": a, "t": n % 4, "set": n // 4 % 3}
    for meth, nb, ms, sd in itertools.product(
            ("cart", "quantile", "uniform"), (2, 3, 4, 20), (0.05, 0.3),
            (0, 2, 5)):
        for t in ("binary", "continuous"):
            for sc in range(6):
                for w in range(6):
                    if q and (nb + int(ms * 100) + sd + sc + w) % 9:
                        continue
                    yield {"k": "cfg", "m": meth, "nb": nb, "ms": ms,
                           "sd": sd, "t": t, "sc": sc, "w": w}
    yield {"k": "api"}


def run(desc, ctx):
    {"bin": bin_task, "cfg": cfg, "api": api}[desc["k"]](desc, ctx)


_SC = {}


def scorecard(t, i):
    """fitted scorecards (never modified by monitoring)"""
    if (t, i) in _SC:
        return _SC[t, i]
    v = [["a", "d"], ["b", "d"], ["b"], ["d", "a", "b"], ["c", "b"],
         ["a"]][i]
    opt = [(0, 0, 0, 0), (3, 1, 0, 1), (4, 0, 1, 1), (5, 0, 0, 1),
           (0, 1, 1, 0), (3, 0, 1, 0)][i]
    sp = [0, 1, 2, 1, 0, 0][i]
    m = [(0, 0), ("empirical", "empirical"), (1.5, "empirical"), (0, 0),
         ("empirical", -2), (0, 0)][i]
    X, y = c20.data(v, t)
    f = c20.Fixed([(-0.7, 0.4), (1.3, -0.5), (-1.0,), (0.5, -1.1, 0.8),
                   (1.0, 2.0), (-1.0,)][i], -0.3, t == "binary")
    sc = c20.make(c20.process(v, sp), f, opt)
    sc.fit(X, y, metric_special=m[0], metric_missing=m[1])
    _SC[t, i] = sc, v
    return sc, v


def protos(v, s):
    """prototype observations"""
    d = {"a": [0.5, 4.0, 8.7, NAN], "b": [-3.0, NAN, 14.0, S],
         "d": ["u", "x", None, "new"], "c": [0, 5, 2, NAN]}
    return [[d[x][(j + (i + s) * k) % 4] for k, x in enumerate(v)] if k0
            else None for i, k0 in enumerate((1, 1, 1, 1)) for j in (i,)]


def frame(v, rows):
    import pandas as pd
    df = pd.DataFrame(rows, columns=v)
    for x in v:
        df[x] = df[x].astype(object if x == "d" else float)
    return df


def bin_index(x, splits):
    """bins are [a, b)"""
    return sum(1 for s in splits if x >= s)


def psi_term(p, q):
    if p == q:
        return 0.0
    if p == 0 or q == 0:
        return math.inf
    return (p - q) * math.log(p / q)


def close(a, b, tol=1e-7):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def chi2(table):
    R = [sum(r) for r in table]
    C = [sum(c) for c in zip(*table)]
    N = sum(R)
    if 0 in C:
        return NAN, NAN          # one of the samples has no record
    if 0 in R:
        return 0.0, 1.0          # same event rate, 0 or 1
    t = sum((table[i][j] - R[i] * C[j] / N) ** 2 / (R[i] * C[j] / N)
            for i in (0, 1) for j in (0, 1))
    return t, math.erfc(math.sqrt(t / 2))


def welch(a, b):
    from scipy import stats
    n, m = len(a), len(b)
    if n < 2 or m < 2:
        return None
    ma, mb = sum(a) / n, sum(b) / m
    va = sum((x - ma) ** 2 for x in a) / n      # population variances, see
    vb = sum((x - mb) ** 2 for x in b) / m      # DESIGN.md
    s = va / n + vb / m
    if s < 1e-12:
        return None
    t = (ma - mb) / math.sqrt(s)
    df = s ** 2 / ((va / n) ** 2 / (n - 1) + (vb / m) ** 2 / (m - 1))
    return t, 2 * stats.t.sf(abs(t), df)


def verify(mo, sc, Xa, ya, Xe, ye, t, nb, ms, sd, ctx, what):
    sa, se = list(map(float, sc.score(Xa))), list(map(float, sc.score(Xe)))
    ya, ye = [float(z) for z in ya], [float(z) for z in ye]
    splits = [float(s) for s in mo.psi_splits]
    n = len(splits) + 1
    ctx.check(splits == sorted(splits) and n <= nb, lambda:
              "{}: splits {}".format(what, splits), "splits")
    ia = [bin_index(x, splits) for x in sa]
    ie = [bin_index(x, splits) for x in se]
    ca = [ia.count(i) for i in range(n)]
    ce = [ie.count(i) for i in range(n)]
    if mo.psi_method == "cart" and n > 1:
        k = math.ceil(ms * len(se) - 1e-9)
        ctx.check(min(ce) >= k, lambda: "{}: expected counts {} minimum {}"
                  .format(what, ce, k), "min-size")
    df = mo.psi_table()
    bins = ["(-inf, inf)"] if n == 1 else (
        ["(-inf, {:.{}f})".format(splits[0], sd)] +
        ["[{:.{}f}, {:.{}f})".format(splits[i], sd, splits[i + 1], sd)
         for i in range(n - 2)] + ["[{:.{}f}, inf)".format(splits[-1], sd)])
    ctx.check(list(df["Bin"])[:n] == bins and list(df.index)[-1] == "Totals"
              and len(df) == n + 1, lambda: "{}: bins {} expected {}".format(
                  what, list(df["Bin"]), bins), "bins")
    ctx.check(list(df["Count A"]) == ca + [len(sa)] and
              list(df["Count E"]) == ce + [len(se)], lambda:
              "{}: counts {} {} expected {} {} scores {} {} splits {}".format(
                  what, list(df["Count A"]), list(df["Count E"]), ca, ce, sa,
                  se, splits), "counts")
    pa = [c / len(sa) for c in ca]
    pe = [c / len(se) for c in ce]
    ps = [psi_term(p, q) for p, q in zip(pa, pe)]
    ctx.check(all(map(close, df["PSI"], ps + [sum(ps)])) and
              all(map(close, df["Count A (%)"], pa + [1])) and
              all(map(close, df["Count E (%)"], pe + [1])), lambda:
              "{}: PSI {} expected {}".format(what, list(df["PSI"]), ps),
              "psi")
    ctx.agree()
    # tests per bin
    dt = mo.tests_table()
    ctx.check(list(dt["Bin"]) == bins and list(dt["Count A"]) == ca and
              list(dt["Count E"]) == ce, "tests table", "tests-rows")
    for i in range(n):
        va = [y for y, j in zip(ya, ia) if j == i]
        ve = [y for y, j in zip(ye, ie) if j == i]
        r = dt.iloc[i]
        if t == "binary":
            tab = [[va.count(0), ve.count(0)], [va.count(1), ve.count(1)]]
            w = [sum(va) / len(va) if va else NAN,
                 sum(ve) / len(ve) if ve else NAN, *chi2(tab)]
            g = [r[c] for c in ("Event rate A", "Event rate E", "statistic",
                                "p-value")]
        else:
            w = [sum(va) / len(va) if va else NAN,
                 sum(ve) / len(ve) if ve else NAN]
            g = [r[c] for c in ("Mean A", "Mean E")]
            z = welch(va, ve)
            if z:
                w += z
                g += [r["statistic"], r["p-value"]]
            for c, v in (("Std A", va), ("Std E", ve)):
                if len(v) > 1:
                    m = sum(v) / len(v)
                    w.append(math.sqrt(sum((x - m) ** 2 for x in v) /
                                       len(v)))
                    g.append(r[c])
        ctx.check(all(map(close, g, w)), lambda: "{}: bin {} tests {} "
                  "expected {} of {} {}".format(what, i, g, w, va, ve),
                  "tests-" + t)
    # variables
    dv = mo.psi_variable_table(style="detailed")
    su = mo.psi_variable_table()
    names = list(sc.binning_process_.get_support(names=True))
    ctx.check(list(dict.fromkeys(dv["Variable"])) == names, "variables",
              "var-names")
    tab = sc.table("detailed")
    for v in names:
        o = sc.binning_process_.get_binned_variable(v)
        r = tab[tab["Variable"] == v]
        k = {}
        for which, X in (("a", Xa), ("e", Xe)):
            k[which] = [int(j) for j in o.transform(
                X[v].values, metric="indices", metric_special="empirical",
                metric_missing="empirical")]
        na = [k["a"].count(j) for j in range(len(r))]
        ne = [k["e"].count(j) for j in range(len(r))]
        d = dv[dv["Variable"] == v]
        ctx.check(list(map(str, d["Bin"])) == list(map(str, r["Bin"])) and
                  list(d["Count A"]) == na and list(d["Count E"]) == ne,
                  lambda: "{}: {} rows {} {} expected {} {}".format(
                      what, v, list(d["Count A"]), list(d["Count E"]), na,
                      ne), "var-counts")
        ta, te = sum(na), sum(ne)
        if not ta or not te:
            continue
        ps = [psi_term(x / ta, y / te) for x, y in zip(na, ne)]
        ctx.check(len(ps) == len(d) and all(map(close, d["PSI"], ps)),
                  lambda: "{}: {} PSI {} expected {}".format(
                      what, v, list(d["PSI"]), ps), "var-psi")
        one = mo.psi_variable_table(name=v)
        both = [float(one.values[0]),
                float(su[su["Variable"] == v]["PSI"].values[0])]
        ctx.check(all(close(b, sum(ps)) for b in both) and
                  mo.psi_variable_table(name=v, style="detailed").equals(d),
                  lambda: "{}: {} PSI total {} expected {}".format(
                      what, v, both, sum(ps)), "var-total")
        ctx.agree()
    target(mo, ya, ye, t, ctx, what)
    performance(mo, sc, Xa, ya, Xe, ye, t, ctx, what)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        mo.system_stability_report()
        mo.information(print_level=1)
    txt = out.getvalue()
    tot = sum(psi_term(p, q) for p, q in zip(pa, pe))
    msg = ("No significant change" if tot < 0.1 else
           "Requires investigation" if tot < 0.25 else "Significance change")
    ctx.check("{:.4f}".format(tot) in txt and msg in txt, lambda:
              "{}: report of PSI {}: {}".format(what, tot, txt[:400]),
              "report")
    return splits


def target(mo, ya, ye, t, ctx, what):
    d = mo._df_target_analysis.set_index("Metric")
    for col, y in (("Actual", ya), ("Expected", ye)):
        if t == "binary":
            want = {"Number of records": len(y), "Event records": sum(y),
                    "Non-event records": len(y) - sum(y)}
        else:
            want = {"Mean": np.mean(y), "Median": np.median(y),
                    "p25": np.percentile(y, 25), "p75": np.percentile(y, 75)}
        for k, w in want.items():
            ctx.check(close(d[col][k], w), lambda: "{}: {} {} {} expected {}"
                      .format(what, col, k, d[col][k], w), "target")
        if t == "binary":
            ctx.check(close(d[col + " (%)"]["Event records"], sum(y) / len(y)),
                      "event rate of the target", "target")


def performance(mo, sc, Xa, ya, Xe, ye, t, ctx, what):
    d = mo._df_performance.set_index("Metric")
    for col, X, y in (("Actual", Xa, ya), ("Expected", Xe, ye)):
        p = [float(z) for z in sc.predict(X)]
        if t == "binary":
            ev = [b for a, b in zip(y, p) if a == 1]
            ne = [b for a, b in zip(y, p) if a == 0]
            if not ev or not ne:
                continue
            tpr, tnr = sum(ev) / len(ev), 1 - sum(ne) / len(ne)
            pr = [float(z) for z in sc.predict_proba(X)[:, 1]]
            g = sum((a > b) - (a < b) for a, i in zip(pr, y) if i == 1
                    for b, j in zip(pr, y) if j == 0) / (len(ev) * len(ne))
            want = {"True positive rate": tpr, "True negative rate": tnr,
                    "Balanced accuracy": (tpr + tnr) / 2, "Gini": g}
        else:
            want = {"Mean absolute error": np.mean(np.abs(
                np.array(p) - y))}
        for k, w in want.items():
            ctx.check(close(d[col][k], w), lambda: "{}: {} {} is {} expected "
                      "{}".format(what, col, k, d[col][k], w), "performance")
    both = d.dropna()
    ctx.check(all(close(a - b, c) for a, b, c in zip(
        both["Actual"], both["Expected"], both["Diff A - E"])
        if math.isfinite(a) and math.isfinite(b)), "differences", "diff")


def fit(mo, Xa, ya, Xe, ye, ctx, what, sig):
    try:
        mo.fit(Xa, ya, Xe, ye)
        return True
    except Exception as e:
        ctx.fail("{}: fit raised {!r}".format(what, e), sig)
        return False


def bin_task(desc, ctx):
    from optbinning.scorecard import ScorecardMonitoring
    i = [1, 3, 5][desc["set"]]
    sc, v = scorecard("binary", i)
    pr = protos(v, desc["set"])
    rows = {}
    for w in "ea":
        rows[w] = [(pr[j], (j + r + desc["t"] + (w == "a")) % 2
                    if desc["t"] < 3 else int(j > 1))
                   for j, c in enumerate(desc[w]) for r in range(c)]
    Xe, Xa = frame(v, [r[0] for r in rows["e"]]), frame(
        v, [r[0] for r in rows["a"]])
    ye, ya = np.array([r[1] for r in rows["e"]]), np.array(
        [r[1] for r in rows["a"]])
    for X in (Xe, Xa):
        if "d" in v and all(z == "new" for z in X["d"]):
            raise Skip("a variable has unknown categories only")
    mo = ScorecardMonitoring(sc, psi_method=["cart", "quantile", "uniform",
                                             "cart"][sum(desc["a"]) % 4],
                             psi_n_bins=4, psi_min_bin_size=0.2)
    ctx.step()
    ctx.state(desc)
    if fit(mo, Xa, ya, Xe, ye, ctx, str(desc), "fit-" + desc["k"]):
        s = verify(mo, sc, Xa, ya, Xe, ye, "binary", 4, 0.2, 2, ctx,
                   str(desc))
        ctx.outcome([len(s), desc["set"]])
        # identical populations
        if desc["e"] == desc["a"] or sum(desc["a"]) % 3 == 0:
            mo.fit(Xe, ye, Xe, ye)
            verify(mo, sc, Xe, ye, Xe, ye, "binary", 4, 0.2, 2, ctx,
                   "identical")
            ctx.check(close(mo.psi_table()["PSI"].values[-1], 0), "PSI of "
                      "identical populations", "identical")


def cfg(desc, ctx):
    import pandas as pd
    from optbinning.scorecard import ScorecardMonitoring
    t = desc["t"]
    sc, v = scorecard(t, desc["sc"])
    X, y = c20.data(v, t)
    w = desc["w"]
    a, b = [(slice(0, 30), slice(0, 30)), (slice(0, 12), slice(0, 30)),
            (slice(10, 30), slice(0, 20)), (slice(0, 30), slice(5, 17)),
            (slice(0, 30, 2), slice(1, 30, 2)), (slice(29, 2, -1),
                                                 slice(3, 25))][w]
    Xa, ya, Xe, ye = X.iloc[a], y[a], X.iloc[b], y[b]
    if w == 2:
        ya = pd.Series(ya, index=Xa.index)
        ye = pd.Series(ye, index=Xe.index)
    if w == 3:
        ya, ye = ya.tolist(), ye.tolist()
    if w == 4:
        ya = pd.Series(ya)
        ye = pd.Series(ye, index=range(500, 500 + len(ye)))
    if w == 5:
        Xa, Xe = Xa.assign(other="q"), Xe.assign(other=3)
    mo = ScorecardMonitoring(sc, psi_method=desc["m"], psi_n_bins=desc["nb"],
                             psi_min_bin_size=desc["ms"],
                             show_digits=desc["sd"])
    ctx.step()
    ctx.state(desc)
    if fit(mo, Xa, ya, Xe, ye, ctx, str(desc), "fit-%s-%d" % (t, w)):
        s = verify(mo, sc, Xa, ya, Xe, ye, t, desc["nb"], desc["ms"],
                   desc["sd"], ctx, str(desc))
        ctx.outcome([len(s), desc["m"], t])
        if w == 0:
            ctx.check(close(mo.psi_table()["PSI"].values[-1], 0), "PSI of "
                      "identical populations", "identical")


def api(desc, ctx):
    from optbinning.scorecard import ScorecardMonitoring
    from sklearn.exceptions import NotFittedError
    sc, v = scorecard("binary", 0)
    X, y = c20.data(v, "binary")
    for f in ("information", "system_stability_report", "psi_table",
              "psi_variable_table", "tests_table", "psi_plot", "psi_splits"):
        mo = ScorecardMonitoring(sc)
        ctx.step()
        ctx.state(f)
        try:
            g = getattr(mo, f)
            g()
            ctx.fail("{} before fit".format(f), "api")
        except NotFittedError:
            pass
    bad = [({"scorecard": 3}, TypeError), ({"psi_method": "x"}, ValueError),
           ({"psi_n_bins": 0}, ValueError), ({"psi_n_bins": 2.5}, ValueError),
           ({"psi_min_bin_size": 0}, ValueError),
           ({"psi_min_bin_size": 0.6}, ValueError),
           ({"show_digits": 9}, ValueError), ({"verbose": 1}, TypeError)]
    for kw, e in bad:
        k = {"scorecard": sc}
        k.update(kw)
        try:
            ScorecardMonitoring(**k).fit(X, y, X, y)
            ctx.fail("{} accepted".format(kw), "api-bad")
        except e:
            pass
    mo = ScorecardMonitoring(sc)
    yc = c18.targets()["continuous"]
    for a in ((X, yc, X, y), (X, y, X, yc), (X, y, X[["d"]], y),
              (X, c18.targets()["multiclass"], X, y)):
        try:
            mo.fit(*a)
            ctx.fail("inconsistent data accepted", "api-bad")
        except ValueError:
            pass
    from optbinning import Scorecard
    try:
        ScorecardMonitoring(Scorecard(c20.process(v, 0), c20.Fixed())).fit(
            X, y, X, y)
        ctx.fail("unfitted scorecard accepted", "api-bad")
    except NotFittedError:
        pass
    mo.fit(X, y, X, y)
    for kw in ({"style": "x"}, {"name": "zz"}):
        try:
            mo.psi_variable_table(**kw)
            ctx.fail("{} accepted".format(kw), "api-bad")
        except ValueError:
            pass
