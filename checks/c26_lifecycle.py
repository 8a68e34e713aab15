"""C26: use before fit, invalid parameters, failed calls."""
import contextlib
import copy
import io
import itertools
import os
import re
import tempfile

import numpy as np

from checks import c10_purity as c10
from checks import c18_process as c18
from checks import c20_scorecard as c20
from mc import crash, sig

PROPERTY = "C26"
BATCH = 2
BATCH_TIMEOUT = 300
RULE = ("(fresh) every public class x every operation that needs a fitted "
        "object x every history that leaves it unfitted: a NotFitted / "
        "NotSolved / NotGenerated error. (bad) every class x parameter x "
        "value outside the documented domain: an exception at fit, the "
        "object stays unfitted or, if it was fitted, answers as before; "
        "every value at the boundary of the domain is accepted. (crash) a "
        "fitted object is fitted again with other data and an exception is "
        "raised at each source line of the package in turn: all its answers "
        "are those from before, and a new fit equals the fit of a new "
        "object. (fail) every sequence of failing calls up to a depth, "
        "likewise. (table) every sequence of operations on binning tables "
        "up to a depth: plots, statistics and the analysis need their "
        "precondition and do not depend on the order.")
ASSUMPTIONS = ["crash points: the first visits of each line (C code is atomic)"]
nan = float("nan")
S = c18.S


# ------------------------------------------------------------------ objects
def ob():
    import optbinning
    return optbinning


def frame(names, rev=False):
    import pandas as pd
    p = c18.pool()
    return pd.DataFrame({v: (p[v][::-1] if rev else p[v]) for v in names})


def quiet(f):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        f()
    # solver statistics and times are not reproducible
    out = [l for l in buf.getvalue().splitlines()
           if not re.search(r"sec|time|%|Solver|walk|branch|conflict|iter|booleans|"
                            r"best|coeff|variables  |constraints", l)]
    return out


class Bin:
    """classes of one or two variables driven as in C10"""
    def __init__(self, k, c):
        self.k, self.c = k, c
        self.cat = c10.iscat(k, c)

    def make(self, **kw):
        p = c10.params(self.k, self.c)
        p.update(kw)
        return c10.klass(self.k)(**p)

    def fit(self, o, i):
        o.fit(*c10.D(self.k, i, self.cat))

    def shot(self, o):
        out = [c10.observe(self.k, self.cat, o),
               quiet(lambda: o.information(print_level=1))]
        if self.k in ("b2d", "c2d"):
            out.append([np.asarray(s).tolist() for s in o.splits])
        return sig.flat(out, [])

    def ops(self):
        x = np.array([1.0, 2.0])
        d = (x, x) if self.k in ("b2d", "c2d") else (x,)
        yield "transform", lambda o: o.transform(*d)
        yield "information", lambda o: o.information()
        for a in ("binning_table", "splits", "status") + (
                ("classes",) if self.k == "mul" else ()):
            yield a, lambda o, a=a: getattr(o, a)
        if self.k in ("bin", "con", "mul"):
            yield "to_json", lambda o: o.to_json("/dev/null")

    def failing(self, o):
        """calls that must raise"""
        d = c10.D(self.k, 1, self.cat)
        two = self.k in ("b2d", "c2d")
        pr = c10.probe(self.k, self.cat)
        yield "lengths", lambda: o.fit(*(list(d[:-1]) + [d[-1][:-1]]),
                                       check_input=True)
        yield "nan target", lambda: o.fit(*(list(d[:-1]) + [
            np.r_[d[-1][:-1].astype(float), nan]]), check_input=True)
        yield "param", lambda: self.badfit(o, d)
        if self.k != "cpw":
            yield "metric", lambda: o.transform(*pr, metric="nope")
        yield "special", lambda: o.transform(*pr, metric_special="nope")
        yield "missing", lambda: o.transform(*pr, metric_missing="nope")
        yield "level", lambda: o.information(print_level=-1)
        if self.k in ("bin", "con", "mul"):
            yield "json", lambda: o.to_json(None)
            yield "nojson", lambda: o.read_json("/nonexistent/x.json")
        if not self.cat and not two:
            yield "user", lambda: self.swapfit(o, d, user_splits=[
                1.0, 1.0, 2.0])
        if self.k in ("bin", "mul"):
            yield "solver", lambda: self.swapfit(o, d, solver="ls")
        if self.cat:
            yield "cutoff", lambda: self.swapfit(o, d, cat_cutoff=1.0,
                                                 user_splits=None)

    def badfit(self, o, d):
        self.swapfit(o, d, **({"min_prebin_size": 7.0}
                              if self.k not in ("b2d", "c2d") else
                              {"min_prebin_size_x": 7.0}))

    @staticmethod
    def swapfit(o, d, **kw):
        old = {k: getattr(o, k) for k in kw}
        o.set_params(**kw)
        try:
            o.fit(*d)
        finally:
            o.set_params(**old)


class SB(Bin):
    def __init__(self):
        self.k = "sb"

    def make(self, **kw):
        from optbinning.binning.uncertainty import SBOptimalBinning
        p = dict(min_prebin_size=0.05, special_codes=[-9.0])
        p.update(kw)
        return SBOptimalBinning(**p)

    def data(self, i):
        X = [np.array(x) for x in (c10.X1, c10.X2, c10.X3)]
        Y = [np.array(y) for y in (c10.Y1, c10.Y2, c10.Y3)]
        a, b = [(0, 1), (1, 2), (2, 0)][i]
        return [X[a], X[b]], [Y[a], Y[b]], [None, [1, 3], None][i]

    def fit(self, o, i):
        o.fit(*self.data(i))

    def shot(self, o):
        out = [o.binning_table.build(), o.status, o.splits,
               quiet(lambda: o.information(print_level=1))]
        for k in (0, 1):
            out.append(o.binning_table_scenario(k).build())
        pr = c10.probe("bin", False)
        out.append(o.transform(*pr, metric_special="empirical",
                               metric_missing="empirical"))
        return sig.flat(out, [])

    def ops(self):
        x = np.array([1.0, 2.0])
        yield "transform", lambda o: o.transform(x)
        yield "information", lambda o: o.information()
        for a in ("binning_table", "splits", "status"):
            yield a, lambda o, a=a: getattr(o, a)
        yield "scenario", lambda o: o.binning_table_scenario(0)

    def failing(self, o):
        X, Y, _ = self.data(1)
        pr = c10.probe("bin", False)
        yield "lengths", lambda: o.fit(X, Y[:1])
        yield "weights", lambda: o.fit(X, Y, [1.0])
        yield "array", lambda: o.fit(X[0], Y[0])
        yield "param", lambda: self.swapfit(o, (X, Y), max_n_bins=0)
        yield "scenario", lambda: o.binning_table_scenario(7)
        yield "scenario-", lambda: o.binning_table_scenario(-1)
        yield "metric", lambda: o.transform(*pr, metric="nope")


class Proc:
    """BinningProcess, fitted from memory, from disk or from objects"""
    def __init__(self, t, how):
        self.t, self.how = t, how
        self.vs = ["a", "b", "c"] if t == "multiclass" else ["b", "a", "d"]

    def make(self, **kw):
        p = dict(variable_names=list(self.vs), special_codes=[S],
                 binning_fit_params={"a": {"max_n_bins": 3}},
                 selection_criteria={
                     {"binary": "iv", "continuous": "woe",
                      "multiclass": "js"}[self.t]: {"top": 2}})
        p.update(kw)
        return ob().BinningProcess(**p)

    def data(self, i):
        y = c18.targets()[self.t]
        return frame(self.vs, i == 1), (y if i < 2 else y[::-1].copy())

    def fit(self, o, i):
        X, y = self.data(i)
        if self.how == "mem":
            o.fit(X, y)
        elif self.how == "jobs":
            o.fit(X, y)
        elif self.how == "disk":
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, "x.csv")
                X.assign(target=y).to_csv(p, index=False)
                o.fit_disk(p, "target")
        else:
            o.fit_from_dict({v: self._optb(v, X, y) for v in self.vs})

    def _optb(self, v, X, y):
        key = (self.t, v, str(X[v].tolist()), str(list(y)))
        if key not in _OPTB:
            _OPTB[key] = c18.standalone(
                self.t, v, X[v].values, {"special_codes": [S]}, None,
                X[v].dtype == object, y)
        return _OPTB[key]

    def shot(self, o):
        X, _ = self.data(0)
        out = []
        for v in self.vs:
            b = o.get_binned_variable(v)
            out.append([v, b.binning_table.build(), b.status])
        out += [o.summary(), list(o.get_support()),
                o.transform(X, metric_special="empirical",
                            metric_missing="empirical"),
                quiet(lambda: o.information(print_level=1))]
        return sig.flat(out, [])

    def ops(self):
        X, _ = self.data(0)
        yield "transform", lambda o: o.transform(X)
        yield "disk", lambda o: o.transform_disk("/nonexistent/a.csv",
                                                 "/nonexistent/b.csv", 7)
        yield "information", lambda o: o.information()
        yield "summary", lambda o: o.summary()
        yield "variable", lambda o: o.get_binned_variable("a")
        yield "update", lambda o: o.update_binned_variable(
            "a", ob().OptimalBinning())
        yield "support", lambda o: o.get_support()
        yield "names", lambda o: o.get_support(names=True)

    def failing(self, o):
        X, y = self.data(1)
        yield "columns", lambda: o.fit(X[self.vs[:2]], y)
        yield "lengths", lambda: o.fit(X, y[:-1], check_input=True)
        yield "late", lambda: self.late(o, X, y)
        yield "weights", lambda: o.fit(
            X, y, sample_weight=np.ones(3)) if self.t == "binary" else \
            o.fit(X, y, sample_weight=np.ones(len(y)))
        yield "target", lambda: o.fit(
            X, np.arange(len(y)) % 2 if self.t == "continuous" else
            np.linspace(0, 1.7, len(y)))
        yield "param", lambda: Bin.swapfit(o, (X, y), max_n_prebins=1)
        yield "criteria", lambda: Bin.swapfit(o, (X, y), selection_criteria={
            "zz": {"min": 1}})
        yield "fixed", lambda: Bin.swapfit(o, (X, y),
                                           fixed_variables=["nope"])
        yield "transform", lambda: o.transform(X[["a"]])
        yield "metric", lambda: o.transform(X, metric="nope")
        yield "variable", lambda: o.get_binned_variable("nope")
        yield "update", lambda: o.update_binned_variable(
            "nope", ob().OptimalBinning())
        yield "update type", lambda: o.update_binned_variable("a", 3)
        yield "support", lambda: o.get_support(indices=True, names=True)
        yield "dict", lambda: o.fit_from_dict({"a": ob().OptimalBinning()})
        yield "dict type", lambda: o.fit_from_dict(
            {v: 3 for v in self.vs})
        yield "disk", lambda: o.fit_disk("/nonexistent/a.csv", "t")

    def late(self, o, X, y):
        """the last variable cannot be binned"""
        Bin.swapfit(o, (X, y), binning_fit_params={
            self.vs[-1]: {"max_n_bins": -1}})


_OPTB = {}


class Sketch:
    """solve and stream histories of a sketch"""
    def __init__(self, c):
        self.c = c

    def make(self, **kw):
        p = [dict(special_codes=[-9.0]),
             dict(dtype="categorical", special_codes=["s"]),
             dict(sketch="t-digest", divergence="js")][self.c]
        p.update(kw)
        return ob().OptimalBinningSketch(**p)

    def arrays(self, i):
        x, y = c10.D("bin", i, self.c == 1)
        return x, y

    def fit(self, o, i):
        import random
        random.seed(3)
        o.add(*self.arrays(i))
        o.solve()

    def shot(self, o):
        pr = c10.probe("bin", self.c == 1)
        return sig.flat([o.binning_table.build(), o.status, o.splits,
                         o.transform(*pr, metric_special="empirical",
                                     metric_missing="empirical"),
                         ], [])

    def ops(self):
        x = np.array([1.0])
        yield "transform", lambda o: o.transform(x)
        yield "information", lambda o: o.information()
        for a in ("binning_table", "splits", "status"):
            yield a, lambda o, a=a: getattr(o, a)
        yield "progress", lambda o: o.plot_progress()

    def failing(self, o):
        x, y = self.arrays(1)
        yield "lengths", lambda: o.add(x, y[:-1], check_input=True)
        yield "merge", lambda: o.merge(ob().OptimalBinningSketch(eps=0.3))
        yield "nan target", lambda: o.add(x, np.r_[y[:-1].astype(float), nan],
                                          check_input=True)
        yield "metric", lambda: o.transform(x, metric="nope")


class PSketch:
    def __init__(self):
        self.vs = ["b", "a", "d"]

    def make(self, **kw):
        p = dict(variable_names=list(self.vs), special_codes=[S],
                 categorical_variables=["d"])
        p.update(kw)
        return ob().BinningProcessSketch(**p)

    def arrays(self, i):
        y = c18.targets()["binary"]
        return frame(self.vs, i == 1), (y if i < 2 else y[::-1].copy())

    def fit(self, o, i):
        o.add(*self.arrays(i))
        o.solve()

    def shot(self, o):
        X, _ = self.arrays(0)
        out = [[v, o.get_binned_variable(v).binning_table.build()]
               for v in self.vs]
        out += [o.summary(), list(o.get_support()), o.transform(
            X, metric_special="empirical", metric_missing="empirical")]
        return sig.flat(out, [])

    def ops(self):
        X, _ = self.arrays(0)
        yield "transform", lambda o: o.transform(X)
        yield "information", lambda o: o.information()
        yield "summary", lambda o: o.summary()
        yield "variable", lambda o: o.get_binned_variable("a")
        yield "support", lambda o: o.get_support()

    def failing(self, o):
        X, y = self.arrays(1)
        yield "array", lambda: o.add(X.values.tolist(), y)
        yield "lengths", lambda: o.add(X, y[:-1], check_input=True)
        yield "merge", lambda: o.merge(ob().BinningProcessSketch(["z"]))
        yield "metric", lambda: o.transform(X, metric="nope")
        yield "variable", lambda: o.get_binned_variable("nope")
        yield "support", lambda: o.get_support(indices=True, names=True)


class Card:
    def __init__(self, t):
        self.t = t
        self.vs = ["a", "d"]

    def make(self, **kw):
        p = dict(binning_process=c20.process(self.vs, 1),
                 estimator=c20.Fixed((-0.7, 0.4), 0.3, self.t == "binary"),
                 scaling_method="min_max",
                 scaling_method_params={"min": 300, "max": 850})
        p.update(kw)
        return ob().Scorecard(**p)

    def arrays(self, i):
        X, y = c20.data(self.vs, self.t)
        return (X if i == 0 else X.iloc[::-1].reset_index(drop=True)
                if i == 1 else X), (y if i < 2 else y[::-1].copy())

    def fit(self, o, i):
        ms = [0, "empirical", 1.5][i]
        X, y = self.arrays(i)
        o.fit(X, y, metric_special=ms, metric_missing=ms,
              show_digits=2 + i)

    def shot(self, o):
        X, _ = self.arrays(0)
        X = X.copy()
        X.iloc[0, 0] = S
        X.iloc[1, 0] = nan
        out = [o.table(), o.table("detailed"), o.score(X), o.predict(X),
               o.intercept_, quiet(lambda: o.information(print_level=1))]
        if self.t == "binary":
            out += [o.predict_proba(X), o.decision_function(X)]
        out.append(o.binning_process_.summary())
        return sig.flat(out, [])

    def ops(self):
        X, _ = self.arrays(0)
        for m in ("predict", "predict_proba", "decision_function", "score"):
            yield m, lambda o, m=m: getattr(o, m)(X)
        yield "information", lambda o: o.information()
        yield "table", lambda o: o.table()
        yield "detailed", lambda o: o.table("detailed")

    def failing(self, o):
        X, y = self.arrays(1)
        yield "columns", lambda: o.fit(X[["a"]], y)
        yield "lengths", lambda: o.fit(X, y[:-1], check_input=True)
        yield "target", lambda: o.fit(X, np.arange(len(y)) % 3)
        yield "special", lambda: o.fit(X, y, metric_special="nope")
        yield "missing", lambda: o.fit(X, y, metric_missing="nope")
        yield "digits", lambda: o.fit(X, y, metric_special=2.5,
                                      metric_missing=3.5, show_digits="x")
        yield "param", lambda: Bin.swapfit(o, (X, y), scaling_method="nope")
        yield "scaling", lambda: Bin.swapfit(
            o, (X, y), scaling_method_params={"min": 5, "max": 1})
        yield "estimator", lambda: Bin.swapfit(o, (X, y), estimator=NoCoef())
        yield "process", lambda: Bin.swapfit(
            o, (X, y), binning_process=c20.process(["a", "b"], 1))
        yield "style", lambda: o.table("nope")
        yield "score", lambda: o.score(X[["a"]])


class NoCoef(c20.Fixed):
    def fit(self, X, y, sample_weight=None):
        return self


class Monitor:
    def __init__(self, t):
        self.t = t
        self.vs = ["a", "d"]

    def card(self):
        if self.t not in _CARD:
            k = Card(self.t)
            o = k.make()
            k.fit(o, 0)
            _CARD[self.t] = o
        return _CARD[self.t]

    def make(self, **kw):
        from optbinning.scorecard import ScorecardMonitoring
        p = dict(scorecard=self.card(), psi_method="quantile", psi_n_bins=3)
        p.update(kw)
        return ScorecardMonitoring(**p)

    def arrays(self, i):
        X, y = c20.data(self.vs, self.t)
        k = [10, 14, 18][i]
        return (X.iloc[:k], y[:k], X.iloc[k:], y[k:])

    def fit(self, o, i):
        o.fit(*self.arrays(i))

    def shot(self, o):
        out = [o.psi_table(), o.tests_table(), o.psi_splits]
        for st in ("summary", "detailed"):
            out.append(o.psi_variable_table(style=st))
            out.append(o.psi_variable_table(name="a", style=st))
        out.append(quiet(lambda: o.system_stability_report()))
        return sig.flat(out, [])

    def ops(self):
        for m in ("information", "system_stability_report", "psi_table",
                  "psi_variable_table", "tests_table", "psi_plot"):
            yield m, lambda o, m=m: getattr(o, m)()
        yield "splits", lambda o: o.psi_splits

    def failing(self, o):
        a = self.arrays(1)
        yield "columns", lambda: o.fit(a[0][["a"]], *a[1:])
        yield "lengths", lambda: o.fit(a[0], a[1][:-1], *a[2:])
        yield "lengths 2", lambda: o.fit(a[0], a[1], a[2], a[3][:-1])
        yield "target", lambda: o.fit(a[0], np.arange(len(a[1])) % 3,
                                      a[2], np.arange(len(a[3])) % 3)
        yield "mixed", lambda: o.fit(a[0], np.linspace(0, 1.7, len(a[1]))
                                     if self.t == "binary" else
                                     np.arange(len(a[1])) % 2, a[2], a[3])
        yield "param", lambda: Bin.swapfit(o, a, psi_method="nope")
        yield "card", lambda: Bin.swapfit(o, a, scorecard=Card(
            self.t).make())
        yield "name", lambda: o.psi_variable_table(name="nope")
        yield "style", lambda: o.psi_variable_table(style="nope")


_CARD = {}


class Counter(Monitor):
    generated = False

    def make(self, **kw):
        from optbinning.scorecard import Counterfactual
        p = dict(scorecard=self.card())
        p.update(kw)
        return Counterfactual(**p)

    def fit(self, o, i):
        X, y = c20.data(self.vs, self.t)
        o.fit(X)
        q = X.iloc[[2, 5, 9][i]:[3, 6, 10][i]]
        self.gen(o, q, i)

    def gen(self, o, q, i):
        if self.t == "binary":
            p = o.scorecard.predict(q)[0]
            o.generate(q, y=1 - int(p), outcome_type="binary", n_cf=1 + i % 2,
                       method=["weighted", "hierarchical"][i % 2],
                       **({} if i % 2 == 0 else {"max_changes": 2}))
        else:
            o.generate(q, y=[20.0, 35.0, 30.0][i], outcome_type="continuous",
                       n_cf=1 + i % 2, hard_constraints=["min_outcome"])

    def shot(self, o):
        out = [o.status]
        if o.status in ("OPTIMAL", "FEASIBLE"):
            out += [o.display(), o.display(show_only_changes=True,
                                           show_outcome=True)]
        out.append(quiet(lambda: o.information(print_level=1)))
        return sig.flat(out, [])

    def onlyfit(self, o, i):
        o.fit(c20.data(self.vs, self.t)[0])

    def refit(self, o, i):
        X, y = c20.data(self.vs, self.t)
        self.gen(o, X.iloc[[2, 5, 9][i]:[3, 6, 10][i]], i)

    def ops(self):
        X, _ = c20.data(self.vs, self.t)
        yield "information", lambda o: o.information()
        yield "display", lambda o: o.display()
        yield "status", lambda o: o.status
        if not self.generated:
            yield "generate", lambda o: o.generate(
                X.iloc[:1], 1, "binary" if self.t == "binary" else
                "continuous", 1)

    def failing(self, o):
        X, _ = c20.data(self.vs, self.t)
        q = X.iloc[:1]
        ot = self.t
        hc = None if self.t == "binary" else ["min_outcome"]
        yield "fit columns", lambda: o.fit(X[["a"]])
        yield "fit type", lambda: o.fit(X.values)
        yield "param", lambda: Bin.swapfit(o, (X,), n_jobs=0)
        yield "card", lambda: Bin.swapfit(o, (X,), scorecard=Card(
            self.t).make())
        yield "query", lambda: o.generate([1, 2], 1, ot, 1,
                                          hard_constraints=hc)
        yield "columns", lambda: o.generate(q[["a"]], 1, ot, 1,
                                            hard_constraints=hc)
        yield "rows", lambda: o.generate(X.iloc[:2], 1, ot, 1,
                                         hard_constraints=hc)
        for kw in ({"y": "1"}, {"outcome_type": "nope"}, {"n_cf": 0},
                   {"n_cf": 1.5}, {"method": "nope"}, {"objectives": {}},
                   {"objectives": {"nope": 1}},
                   {"objectives": {"proximity": -1}}, {"max_changes": 0},
                   {"actionable_features": ["nope"]},
                   {"actionable_features": "a"},
                   {"hard_constraints": ["nope"]},
                   {"soft_constraints": {"nope": 1}},
                   {"soft_constraints": ["diversity_values"]}):
            p = dict(query=q, y=1, outcome_type=ot, n_cf=1,
                     hard_constraints=hc)
            p.update(kw)
            yield str(kw), lambda p=p: o.generate(**p)


class Detector:
    def __init__(self, k):
        self.k = k

    def make(self, **kw):
        from optbinning.binning import outlier
        return {"range": outlier.RangeDetector,
                "hdi": outlier.RangeDetector,
                "z": outlier.ModifiedZScoreDetector,
                "y": outlier.YQuantileDetector}[self.k](
                    **dict({"method": "HDI"} if self.k == "hdi" else {},
                           **kw))

    def arrays(self, i):
        x = np.array([[1, 2, 3, 4, 90, 5], [3, 3, -40, 2, 1.0, 2],
                      [0, 1, 0, 2, 5, 300.0]][i], dtype=float)
        return x, x[::-1] * 2 + np.arange(6)

    def fit(self, o, i):
        o.fit(*self.arrays(i))

    def shot(self, o):
        return sig.flat([o.get_support(), o.get_support(indices=True)], [])

    def ops(self):
        yield "support", lambda o: o.get_support()
        yield "indices", lambda o: o.get_support(indices=True)

    def failing(self, o):
        x, y = self.arrays(1)
        kw = {"range": {"method": "nope"}, "hdi": {"interval_length": 1.5},
              "z": {"threshold": -1}, "y": {"outlier_detector": "nope"}}
        yield "param", lambda: Bin.swapfit(o, (x, y), **kw[self.k])
        yield "strings", lambda: o.fit(np.array(["p", "q"] * 3), y)


class Mdlp:
    def make(self, **kw):
        return ob().MDLP(**kw)

    def arrays(self, i):
        x = np.array([0.5, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11])
        y = np.array([[0] * 6 + [1] * 6, [1] * 3 + [0] * 9,
                      [0] * 8 + [1] * 4][i])
        return x + i, y

    def fit(self, o, i):
        o.fit(*self.arrays(i))

    def shot(self, o):
        return sig.flat([o.splits], [])

    def ops(self):
        yield "splits", lambda o: o.splits

    def failing(self, o):
        x, y = self.arrays(1)
        yield "param", lambda: Bin.swapfit(o, (x, y), min_samples_split=-1)
        yield "strings", lambda: o.fit(np.array(["p"] * 12, dtype=object), y)
        yield "lengths", lambda: o.fit(x, y[:-1])


def objects():
    out = {}
    for k, cs in (("bin", "dscu"), ("con", "dsuc"), ("mul", "ds"),
                  ("b2d", "s"), ("c2d", "s"), ("pw", "ds"), ("cpw", "ds")):
        for c in c10.CFG[k]:
            if c in cs:
                out["%s-%s" % (k, c)] = Bin(k, c)
    out["sb"] = SB()
    for t in ("binary", "continuous", "multiclass"):
        for how in ("mem", "disk", "dict"):
            out["bp-%s-%s" % (t, how)] = Proc(t, how)
    for c in range(3):
        out["sketch-%d" % c] = Sketch(c)
    out["psketch"] = PSketch()
    for t in ("binary", "continuous"):
        out["card-" + t] = Card(t)
        out["monitor-" + t] = Monitor(t)
        out["cf-" + t] = Counter(t)
    for k in ("range", "hdi", "z", "y"):
        out["detector-" + k] = Detector(k)
    out["mdlp"] = Mdlp()
    return out


STREAM = ("sketch-", "psketch")

# ------------------------------------------------------ parameter domains
POS = ([0, -1, 1.5, "a"], [1, 30])
BOOL = ([1, "yes", None], [True, False])
NUM = {
    "max_n_prebins": ([1, 0, -3, 2.5, "a", None], [2, 100]),
    "min_prebin_size": ([0, -0.1, 0.6, nan], [1e-6, 0.5]),
    "min_n_bins": (POS[0], [1]),
    "max_n_bins": (POS[0], [1, 50]),
    "min_bin_size": ([0, -0.1, 0.51, "a", nan], [1e-6, 0.1]),
    "max_bin_size": ([0, -0.1, 1.01, "a", nan], [1.0, 1]),
    "max_pvalue": ([0, -0.1, 1.01, "a", nan], [1.0, 0.9]),
    "max_pvalue_policy": (["nope", None, 1], ["all", "consecutive"]),
    "split_digits": ([-1, 9, 1.5, "a"], [0, 8]),
    "verbose": (BOOL[0], [False]),
}
TRENDS = ["auto", "auto_heuristic", "auto_asc_desc", "ascending",
          "descending", "concave", "convex", "peak", "valley",
          "peak_heuristic", "valley_heuristic"]
UNI = {
    "name": ([1, None], ["", "v"]),
    "solver": (["nope", None, "CP"], ["cp", "mip"]),
    "prebinning_method": (["nope", None, "CART"], ["cart", "quantile",
                                                   "uniform"]),
    "monotonic_trend": (["nope", 1, "Ascending"], [None] + TRENDS),
    "outlier_detector": (["nope", 1], [None, "range", "zscore"]),
    "user_splits": ([3, "abc", {1: 2}], [[2.5], np.array([2.5, 4.5])]),
    "special_codes": ([-9, "s", {}], [[], [-9.0], {"s": -9.0},
                                      np.array([-9.0])]),
    "time_limit": ([-1, "a", None], [100, 30.5]),
}
BINARY = {
    "divergence": (["nope", None, "IV"], ["iv", "js", "hellinger",
                                          "triangular"]),
    "min_bin_n_nonevent": (POS[0], [1]), "max_bin_n_nonevent": (POS[0], [99]),
    "min_bin_n_event": (POS[0], [1]), "max_bin_n_event": (POS[0], [99]),
    "min_event_rate_diff": ([-0.1, 1.1, "a", None], [0, 0.01]),
    "gamma": ([-0.1, "a", None], [0, 0.5]),
    "class_weight": ([1, "nope"], [None, "balanced", {0: 1, 1: 2}]),
    "cat_cutoff": ([0, -0.1, 1.01, "a", nan], [1e-6, 1.0]),
    "cat_unknown": ([[1], {}], [0, 0.5, "x"]),
    "mip_solver": (["nope", None, "CBC"], ["cbc", "bop"]),
    "dtype": (["nope", None], ["numerical"]),
}
CONT = {
    "min_mean_diff": ([-0.1, "a", None], [0, 0.01]),
    "gamma": BINARY["gamma"], "cat_cutoff": BINARY["cat_cutoff"],
    "cat_unknown": BINARY["cat_unknown"], "dtype": BINARY["dtype"],
}
MULT = {
    "min_event_rate_diff": BINARY["min_event_rate_diff"],
    "mip_solver": BINARY["mip_solver"],
    "monotonic_trend": (["nope", 1, ["auto"], ["auto", "nope", None],
                         ["auto"] * 4],
                        [None, "auto", ["auto", None, "peak"]]),
}
D2 = {
    "name_x": UNI["name"], "name_y": UNI["name"],
    "dtype_x": BINARY["dtype"], "dtype_y": BINARY["dtype"],
    "prebinning_method": UNI["prebinning_method"],
    "strategy": (["nope", None], ["grid", "cart"]),
    "solver": UNI["solver"],
    "max_n_prebins_x": NUM["max_n_prebins"][:1] + ([2, 4],),
    "max_n_prebins_y": NUM["max_n_prebins"][:1] + ([2, 3],),
    "min_prebin_size_x": NUM["min_prebin_size"],
    "min_prebin_size_y": NUM["min_prebin_size"],
    "min_n_bins": NUM["min_n_bins"], "max_n_bins": NUM["max_n_bins"],
    "min_bin_size": NUM["min_bin_size"][:1] + ([1e-6],),
    "max_bin_size": NUM["max_bin_size"],
    "monotonic_trend_x": (["nope", 1, "peak"], [None, "ascending",
                                                "descending"]),
    "monotonic_trend_y": (["nope", 1, "auto"], [None, "ascending",
                                                "descending"]),
    "gamma": BINARY["gamma"],
    "special_codes_x": ([-9, "s", {}], [[], [-9.0]]),
    "special_codes_y": ([-9, "s", {}], [[], [-9.0]]),
    "split_digits": NUM["split_digits"],
    "n_jobs": ([1.5, "a"], [None, 1, 2]),
    "time_limit": UNI["time_limit"], "verbose": NUM["verbose"],
}
PW = {
    "name": UNI["name"], "objective": (["nope", None], ["l2", "l1"]),
    "degree": ([-1, 6, 1.5, "a", None], [1, 2]),
    "continuous": (BOOL[0], [True]),
    "continuous_deriv": (BOOL[0], [True]),
    "prebinning_method": UNI["prebinning_method"],
    "max_n_prebins": NUM["max_n_prebins"][:1] + ([2, 4],),
    "min_prebin_size": NUM["min_prebin_size"],
    "min_n_bins": NUM["min_n_bins"], "max_n_bins": NUM["max_n_bins"],
    "min_bin_size": NUM["min_bin_size"][:1] + ([1e-6],),
    "max_bin_size": NUM["max_bin_size"],
    "monotonic_trend": (["nope", 1], [None, "auto", "ascending"]),
    "n_subsamples": (POS[0], [None, 5]),
    "max_pvalue": NUM["max_pvalue"],
    "max_pvalue_policy": NUM["max_pvalue_policy"],
    "outlier_detector": (["nope", 1], [None, "range", "zscore",
                                       "yquantile"]),
    "user_splits": UNI["user_splits"],
    "special_codes": UNI["special_codes"],
    "split_digits": ([-1, 9, 1.5, "a"], [2, 8]),
    "solver": (["nope", None], ["auto"]),
    "h_epsilon": ([0.5, "a", None], [1.0, 1.35]),
    "quantile": ([0, 1, -1, 2, "a", nan], [0.5]),
    "regularization": (["nope", 1], [None, "l1", "l2"]),
    "reg_l1": ([-1, "a", None], [0, 1.0]),
    "reg_l2": ([-1, "a", None], [0, 1.0]),
    "random_state": (["a", 1.5], [None, 3]),
    "verbose": NUM["verbose"],
}
SKETCH = {
    "sketch": (["nope", None], ["gk", "t-digest"]),
    "eps": ([-0.1, 1.1, "a", None, nan], [1e-4, 0.5]),
    "K": (POS[0], [1, 25]),
    "cat_heuristic": (BOOL[0], [True, False]),
    "special_codes": ([-9, "s", {"a": 1}], [[], [-9.0]]),
}
BPAR = {
    "variable_names": (["abc", 3, None], []),
    "selection_criteria": ([["iv"], "iv", {"nope": {}}, {"iv": 3},
                            {"iv": {"min": -1}}, {"iv": {"nope": 1}},
                            {"iv": {"top": 0}}, {"iv": {"top": 1.5}},
                            {"iv": {"strategy": "nope"}},
                            {"gini": {"max": 1.5}}],
                           [None, {"iv": {"min": 0, "max": 1, "top": 1,
                                          "strategy": "lowest"}},
                            {"iv": {"top": 0.5}}]),
    "fixed_variables": (["a", 3, ["nope"]], [[], ["a"]]),
    "categorical_variables": (["a", 3, [1]], [[], ["a"]]),
    "special_codes": UNI["special_codes"],
    "binning_fit_params": ([3, "a", [1], {"a": {"max_n_bins": -1}},
                            {"a": {"nope": 1}}],
                           [{}, {"a": {"max_n_bins": 4}}]),
    "binning_transform_params": ([3, "a", [1]], [{}]),
    "n_jobs": ([1.5, "a"], [None, 1, 2, -1]),
}
CARD = {
    "binning_process": ([3, None, "x"], []),
    "estimator": ([3, None, "x"], []),
    "scaling_method": (["nope", 3], ["min_max", None]),
    "scaling_method_params": ([None, 3, [1], {}, {"min": 1},
                               {"min": 5, "max": 1}, {"min": "a", "max": 3},
                               {"min": 1, "max": 2, "pdo": 3}],
                              [{"min": 0, "max": 1.5}]),
    "intercept_based": BOOL, "reverse_scorecard": BOOL, "rounding": BOOL,
    "verbose": NUM["verbose"],
}
MON = {
    "scorecard": ([3, None], []),
    "psi_method": (["nope", None], ["cart", "quantile", "uniform"]),
    "psi_n_bins": (POS[0], [2, 20]),
    "psi_min_bin_size": ([0, -0.1, 0.6, "a", nan], [0.05, 0.5]),
    "show_digits": ([-1, 9, 1.5, "a"], [0, 8]),
    "verbose": NUM["verbose"],
}
CFP = {"scorecard": ([3, None], []), "special_missing": BOOL,
       "n_jobs": ([0, -1, 1.5, "a", None], [1, 2]),
       "verbose": NUM["verbose"]}
# combinations of parameters
PAIRS = {
    "bin-d": [dict(min_n_bins=4, max_n_bins=3),
              dict(min_bin_size=0.4, max_bin_size=0.3),
              dict(min_bin_n_event=4, max_bin_n_event=3),
              dict(min_bin_n_nonevent=4, max_bin_n_nonevent=3),
              dict(user_splits_fixed=[True]),
              dict(user_splits=[2.5], user_splits_fixed=[True, False]),
              dict(user_splits=[2.5], user_splits_fixed=[1]),
              dict(user_splits=[2.5], user_splits_fixed=True),
              dict(user_splits=[2.5, 2.5]),
              dict(user_splits=[2.5, nan]),
              dict(outlier_detector="range", outlier_params=3),
              dict(outlier_detector="range", outlier_params={"method": 3})],
    "con-d": [dict(min_n_bins=4, max_n_bins=3),
              dict(min_bin_size=0.4, max_bin_size=0.3),
              dict(user_splits_fixed=[True]),
              dict(user_splits=[2.5], user_splits_fixed=[True, False]),
              dict(user_splits=[2.5, 2.5]),
              dict(outlier_detector="range", outlier_params=3)],
    "mul-d": [dict(min_n_bins=4, max_n_bins=3),
              dict(min_bin_size=0.4, max_bin_size=0.3),
              dict(user_splits_fixed=[True]),
              dict(user_splits=[2.5, 2.5]),
              dict(user_splits=[2.5], user_splits_fixed=[True, False]),
              dict(outlier_detector="range", outlier_params=3)],
    "b2d-s": [dict(min_n_bins=4, max_n_bins=3),
              dict(min_bin_size=0.4, max_bin_size=0.3),
              dict(min_bin_n_event=4, max_bin_n_event=3)],
    "c2d-s": [dict(min_n_bins=4, max_n_bins=3),
              dict(min_bin_size=0.4, max_bin_size=0.3)],
    "pw-d": [dict(min_n_bins=4, max_n_bins=3),
             dict(min_bin_size=0.4, max_bin_size=0.3),
             dict(monotonic_trend="convex", degree=2),
             dict(user_splits_fixed=[True])],
    "cpw-d": [dict(min_n_bins=4, max_n_bins=3),
              dict(min_bin_size=0.4, max_bin_size=0.3),
              dict(monotonic_trend="concave", degree=3)],
    "sb": [dict(min_n_bins=4, max_n_bins=3),
           dict(min_bin_size=0.4, max_bin_size=0.3),
           dict(user_splits_fixed=[True])],
    "sketch-0": [dict(min_n_bins=4, max_n_bins=3),
                 dict(min_bin_size=0.4, max_bin_size=0.3),
                 dict(min_bin_n_event=4, max_bin_n_event=3)],
    "bp-binary-mem": [dict(min_n_bins=4, max_n_bins=3),
                      dict(min_bin_size=0.4, max_bin_size=0.3)],
    "psketch": [dict(min_n_bins=4, max_n_bins=3)],
    "card-binary": [dict(scaling_method=None, rounding=True),
                    dict(scaling_method="pdo_odds"),
                    dict(scaling_method="pdo_odds", scaling_method_params={
                        "pdo": 0, "odds": 1, "scorecard_points": 3}),
                    dict(rounding=True, scaling_method_params={
                        "min": 0.5, "max": 3})],
    "card-continuous": [dict(scaling_method="pdo_odds",
                             scaling_method_params={
                                 "pdo": 2, "odds": 1,
                                 "scorecard_points": 3})],
}


def domains():
    d = {}
    d["bin-d"] = dict(NUM, **dict(UNI, **BINARY))
    d["bin-d"]["prebinning_method"] = (
        ["nope", None, "CART"], ["cart", "mdlp", "quantile", "uniform"])
    d["con-d"] = dict(NUM, **dict(UNI, **CONT))
    d["con-d"].pop("solver", None)
    d["mul-d"] = dict(NUM, **dict(UNI, **MULT))
    d["b2d-s"] = dict(D2, **{k: BINARY[k] for k in (
        "divergence", "min_bin_n_nonevent", "max_bin_n_nonevent",
        "min_bin_n_event", "max_bin_n_event")})
    for k in ("min_event_rate_diff_x", "min_event_rate_diff_y"):
        d["b2d-s"][k] = BINARY["min_event_rate_diff"]
    d["c2d-s"] = dict(D2)
    for k in ("min_mean_diff_x", "min_mean_diff_y"):
        d["c2d-s"][k] = (["a", None], [0, 0.01])
    d["pw-d"] = dict(PW)
    d["cpw-d"] = dict(PW)
    d["sb"] = {k: NUM[k] for k in NUM}
    for k in ("name", "prebinning_method", "user_splits", "time_limit"):
        d["sb"][k] = UNI[k]
    d["sb"]["special_codes"] = ([-9, "s", {"a": 1}], [[], [-9.0]])
    d["sb"]["monotonic_trend"] = (["nope", 1, "auto"], [
        None, "ascending", "descending", "concave", "convex", "peak",
        "valley"])
    d["sb"]["min_event_rate_diff"] = BINARY["min_event_rate_diff"]
    d["sb"]["class_weight"] = BINARY["class_weight"]
    d["bp-binary-mem"] = dict(NUM, **BPAR)
    sk = dict(NUM, **{k: BINARY[k] for k in BINARY if k != "class_weight"})
    sk.pop("min_prebin_size")
    for k in ("name", "solver", "monotonic_trend", "time_limit"):
        sk[k] = UNI[k]
    sk.update(SKETCH)
    sk["cat_unknown"] = ([[1], {}], [0, 0.5])
    d["sketch-0"] = sk
    ps = {k: NUM[k] for k in NUM if k != "min_prebin_size"}
    ps.update({k: BPAR[k] for k in BPAR if k not in (
        "fixed_variables", "n_jobs")})
    ps["special_codes"] = SKETCH["special_codes"]
    ps["categorical_variables"] = (["a", 3, [1]], [["d"]])
    d["psketch"] = ps
    d["card-binary"] = CARD
    d["monitor-binary"] = MON
    d["cf-binary"] = CFP
    d["detector-range"] = {"method": (["nope", None], ["ETI", "HDI"]),
                           "interval_length": ([-0.1, 1.1, "a", nan],
                                               [0, 0.5, 1]),
                           "k": (["a", None], [0, 3])}
    d["detector-z"] = {"threshold": ([-1, "a", None], [0, 3.5])}
    d["mdlp"] = {"min_samples_split": ([1, 0, 1.5, "a"], [2, 6]),
                 "min_samples_leaf": ([0, -1, 1.5, "a"], [1, 2]),
                 "max_candidates": ([0, -1, 1.5, "a"], [1, 8])}
    return d


# -------------------------------------------------------------------- tasks
def tasks(tier):
    q = tier == "quick"
    objs = objects()
    for k in objs:
        for h in ("new", "params", "badfit", "clone", "pickle", "crash"):
            yield {"k": "fresh", "o": k, "h": h}
    dom = domains()
    for k in dom:
        for p in dom[k]:
            yield {"k": "bad", "o": k, "p": p}
        for i in range(len(PAIRS.get(k, []))):
            yield {"k": "bad", "o": k, "pair": i}
    for k in objs:
        if k.startswith(STREAM):
            continue
        parts = 8
        for i in range(parts):
            yield {"k": "crashes", "o": k, "part": i, "of": parts,
                   "step": 8 if q else 1, "visits": 1 if q else 2}
        yield {"k": "fail", "o": k, "depth": 1 if q else 2}
    for k in objs:
        if k.startswith(STREAM):
            yield {"k": "fail", "o": k, "depth": 1 if q else 2}
            for i in range(4):
                yield {"k": "resolve", "o": k, "part": i, "of": 4,
                       "step": 4 if q else 1}
    for k in TABLES:
        for n in (1, 2, 3) if q else (1, 2, 3, 4):
            for first in range(len(TABLES[k][1])):
                yield {"k": "table", "t": k, "n": n, "first": first}


def run(desc, ctx):
    globals()[desc["k"]](desc, ctx)


def errors():
    from sklearn.exceptions import NotFittedError

    from optbinning.exceptions import (NotDataAddedError, NotGeneratedError,
                                       NotSolvedError)
    return (NotFittedError, NotDataAddedError, NotGeneratedError,
            NotSolvedError)


def pkg():
    import optbinning
    return os.path.dirname(os.path.abspath(optbinning.__file__)) + os.sep


_O = {}


def get(k):
    if not _O:
        _O.update(objects())
    return _O[k]


# -------------------------------------------------------------------- fresh
def unfitted(a, o, ctx, what):
    ok = True
    for name, f in a.ops():
        ctx.step()
        try:
            r = f(o)
        except errors():
            continue
        except Exception as e:  # noqa
            ok = ctx.check(False, "{}: {} raised {!r}".format(what, name, e),
                           "unfitted-error:" + name)
            continue
        ok = ctx.check(False, "{}: {} returned {!r}".format(
            what, name, str(r)[:80]), "unfitted-answer:" + name)
    return ok


def fresh(desc, ctx):
    import pickle

    from sklearn.base import clone
    a, h = get(desc["o"]), desc["h"]
    o = a.make()
    if h == "params":
        o.set_params(**o.get_params(deep=False))
    elif h == "badfit":
        for n, f in a.failing(o):
            try:
                f()
            except Exception:  # noqa
                pass
    elif h == "clone":
        a.fit(o, 0)
        o = clone(o)
    elif h == "pickle":
        o = pickle.loads(pickle.dumps(o))
    elif h == "crash":
        c = crash.Crasher(pkg())
        fit = getattr(a, "onlyfit", a.fit)
        c.run(lambda: fit(a.make(), 0))
        for at in range(1, c.n + 1, max(1, c.n // 12)):
            o = a.make()
            if crash.Crasher(pkg(), at).run(lambda: fit(o, 0)):
                # streams: data may have been added, but nothing is solved
                if not unfitted(a, o, ctx, "{} crash at {}".format(
                        desc["o"], at)):
                    return
        o = a.make()
    ctx.state(desc)
    unfitted(a, o, ctx, "{} {}".format(desc["o"], h))
    ctx.agree()
    ctx.outcome("fresh " + h)


# --------------------------------------------------------------- parameters
def bad(desc, ctx):
    k = desc["o"]
    a = get(k)
    if "pair" in desc:
        wrong, right = [PAIRS[k][desc["pair"]]], []
    else:
        w, r = domains()[k][desc["p"]]
        wrong = [{desc["p"]: v} for v in w]
        right = [{desc["p"]: v} for v in r]
    stream = k.startswith(STREAM)
    for kw in wrong:
        ctx.step()
        ctx.state([k, str(kw)])
        o = None
        try:
            o = a.make(**kw)
            a.fit(o, 0)
            ctx.fail("{} accepted {}".format(k, kw), "accepted:%s" % "-".join(
                sorted(kw)))
            continue
        except Exception as e:  # noqa
            if not ctx.check(isinstance(e, (ValueError, TypeError, KeyError)),
                             "{} with {} raised {!r}".format(k, kw, e),
                             "error-type:%s" % "-".join(sorted(kw))):
                continue
        if o is not None:
            unfitted(a, o, ctx, "{} {}".format(k, kw))
        if stream:
            continue
        # on a fitted object
        o = a.make()
        a.fit(o, 0)
        before = a.shot(o)
        old = {p: getattr(o, p) for p in kw}
        o.set_params(**kw)
        try:
            a.fit(o, 1)
            ctx.fail("{} refitted with {}".format(k, kw), "accepted-refit")
        except Exception:  # noqa
            pass
        o.set_params(**old)
        d = sig.same(a.shot(o), before)
        ctx.check(d is None, lambda: "{}: fit with {} changed {}".format(
            k, kw, d), "bad-keep")
        ctx.agree()
    for kw in right:
        ctx.step()
        try:
            o = a.make(**copy.deepcopy(kw))
            a.fit(o, 0)
            if not (k == "bin-d" and "mip_solver" in kw):
                a.shot(o)
        except Exception as e:  # noqa
            ctx.fail("{} rejected {}: {!r}".format(k, kw, e), "rejected:%s"
                     % "-".join(sorted(kw)))
    ctx.outcome("bad " + k)


# ------------------------------------------------------------------ crashes
def crashes(desc, ctx):
    k = desc["o"]
    a = get(k)
    refit = getattr(a, "refit", a.fit)
    o = a.make()
    a.fit(o, 0)
    c = crash.Crasher(pkg(), None, desc["visits"])
    c.run(lambda: refit(o, 1))
    n = c.n
    want = a.shot(o)
    o = a.make()
    a.fit(o, 0)
    before = a.shot(o)
    bad = set()
    for at in range(1 + desc["part"], n + 1, desc["of"] * desc["step"]):
        c = crash.Crasher(pkg(), at, desc["visits"])
        ctx.step()
        hit = c.run(lambda: refit(o, 1))
        ctx.state([k, at])
        if not hit:
            # handled inside the package: the fit went on
            ctx.outcome("handled")
            o = a.make()
            a.fit(o, 0)
            continue
        ctx.agree()
        d = same_state(a, o, before)
        if d is not None:
            f = c.where.split(":")[0]
            if f not in bad:
                bad.add(f)
                ctx.fail("{}: fit of other data failed at {}, then {}".format(
                    k, c.where, d), "crash:" + k)
            o = a.make()
            a.fit(o, 0)
    refit(o, 1)
    def again():
        b = a.make()
        a.fit(b, 0)
        refit(b, 1)
        return a.shot(b)
    d = differs(a.shot(o), want, again)
    ctx.check(d is None, lambda: "{}: after failed fits, fit gives {}".format(
        k, d), "after")
    ctx.outcome("crash " + k.split("-")[0])


def differs(got, want, again):
    """the CP solver returns any of the optimal solutions"""
    d = sig.same(got, want, 1e-6)
    for _ in range(40):
        if d is None:
            break
        if sig.same(got, again(), 1e-6) is None:
            d = None
    return d


def same_state(a, o, before):
    try:
        return sig.same(a.shot(o), before)
    except Exception as e:  # noqa
        return "raised {!r}".format(e)


def fail(desc, ctx):
    k = desc["o"]
    a = get(k)
    o = a.make()
    a.fit(o, 0)
    before = a.shot(o)
    names = [n for n, _ in a.failing(o)]
    for seq in itertools.product(range(len(names)), repeat=desc["depth"]):
        for i in seq:
            ctx.step()
            n, f = list(a.failing(o))[i]
            try:
                f()
                ctx.fail("{}: {} did not raise".format(k, n), "no-raise:" + n)
                o = a.make()
                a.fit(o, 0)
                break
            except crash.Injected:
                raise
            except Exception:  # noqa
                pass
        ctx.state([k, seq])
        ctx.agree()
        d = same_state(a, o, before)
        if d is not None:
            ctx.fail("{}: after the failed calls {}: {}".format(
                k, [names[i] for i in seq], d), "fail:" + names[seq[-1]])
            o = a.make()
            a.fit(o, 0)
    if k.startswith(STREAM):
        # the stream is as before
        o.solve()

        def again():
            b = a.make()
            a.fit(b, 0)
            return a.shot(b)
        d = differs(a.shot(o), before, again)
        ctx.check(d is None, lambda: "{}: rows of failed calls: {}".format(
            k, d), "stream")
        return
    def again():
        b = a.make()
        a.fit(b, 2)
        return a.shot(b)
    a.fit(o, 2)
    d = differs(a.shot(o), again(), again)
    ctx.check(d is None, lambda: "{}: fit after failed calls: {}".format(
        k, d), "fail-after")
    ctx.outcome("fail " + k.split("-")[0])


def resolve(desc, ctx):
    """a solve of the sketch that fails keeps the previous solution"""
    k = desc["o"]
    a = get(k)

    def new():
        o = a.make()
        a.fit(o, 0)
        b = a.shot(o)
        o.add(*a.arrays(1))
        return o, b
    o, _ = new()
    c = crash.Crasher(pkg())
    c.run(o.solve)
    want = a.shot(o)
    o, before = new()
    bad = False
    for at in range(1 + desc["part"], c.n + 1, desc["of"] * desc["step"]):
        cc = crash.Crasher(pkg(), at)
        hit = cc.run(o.solve)
        ctx.step()
        ctx.state([k, at])
        if not hit:
            o, before = new()
            continue
        ctx.agree()
        d = same_state(a, o, before)
        if d is not None:
            if not bad:
                ctx.fail("{}: solve failed at {}, then {}".format(
                    k, cc.where, d), "resolve:" + k)
            bad = True
            o, before = new()
    o.solve()

    def again():
        b = new()[0]
        b.solve()
        return a.shot(b)
    d = differs(a.shot(o), want, again)
    ctx.check(d is None, lambda: "{}: solve after failed solves {}".format(
        k, d), "resolve-after")
    ctx.outcome("resolve " + k)


# ------------------------------------------------------------------- tables
# name: (object, {operation: what it needs}); "b": built, "a": analysed
def _plot(t, **kw):
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    with tempfile.TemporaryDirectory() as d:
        t.plot(savefig=os.path.join(d, "p.png"), **kw)
    plt.close("all")


def quietly(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


TABLES = {
    "bin-d": ("bin-d", ["build", "build2", "analysis", "iv", "js", "gini",
                        "hellinger", "triangular", "ks", "quality_score",
                        "plot"]),
    "con-d": ("con-d", ["build", "build2", "analysis", "iv", "woe",
                        "quality_score", "plot"]),
    "mul-d": ("mul-d", ["build", "build2", "analysis", "js",
                        "quality_score", "plot"]),
    "b2d-s": ("b2d-s", ["build", "analysis", "iv", "js", "gini",
                        "hellinger", "triangular", "ks", "quality_score",
                        "plot"]),
    "c2d-s": ("c2d-s", ["build", "analysis", "iv", "woe", "quality_score",
                        "plot"]),
    "pw-d": ("pw-d", ["build", "build2", "analysis", "iv", "js", "gini",
                      "hellinger", "triangular", "ks", "quality_score",
                      "plot"]),
    "cpw-d": ("cpw-d", ["build", "build2", "analysis", "woe",
                        "quality_score", "plot"]),
    "sb": ("sb", ["build", "build2", "analysis", "iv", "js", "gini", "ks",
                  "quality_score", "plot"]),
    "sketch-0": ("sketch-0", ["build", "analysis", "iv", "quality_score"]),
}


def doit(t, op):
    if op == "build":
        return t.build()
    if op == "build2":
        return t.build(show_digits=4, add_totals=False)
    if op == "analysis":
        quietly(lambda: t.analysis(print_output=False))
        return [v for k, v in sorted(vars(t).items()) if k.startswith(
            "_") and isinstance(v, (int, float, np.number))
            and not isinstance(v, bool)]
    if op == "plot":
        return _plot(t)
    return getattr(t, op)


def table(desc, ctx):
    k, ops = TABLES[desc["t"]]
    a = get(k)
    if k not in _TAB:
        o = a.make()
        a.fit(o, 0)
        _TAB[k] = o
    o = _TAB[k]
    if ("ref", k) not in _TAB:
        ref = {}
        for op in ops:
            t = copy.deepcopy(o.binning_table)
            if op != "build2":
                t.build()
            if op == "quality_score":
                quietly(lambda: t.analysis(print_output=False))
            ref[op] = sig.flat([doit(t, op)], [])
        _TAB["ref", k] = ref
    ref = _TAB["ref", k]
    first = ops[desc["first"]]
    for rest in itertools.product(ops, repeat=desc["n"] - 1):
        seq = (first,) + rest
        if seq.count("plot") > 1 or (desc["n"] > 2 and "plot" in seq[:-1]):
            continue
        if seq and seq[-1] == "plot" and desc["n"] > 2 and \
                hash_of(seq) % 7:
            continue
        t = copy.deepcopy(o.binning_table)
        built, analysed = k.startswith(STREAM), False
        ctx.state([k, seq])
        for op in seq:
            ctx.step()
            need = {"build": True, "build2": True}.get(op, built)
            if op == "quality_score":
                need = analysed
            try:
                v = doit(t, op)
            except errors():
                if not ctx.check(not need, "{} {}: {} raised NotFitted".format(
                        k, seq, op), "table-raise:" + op):
                    return
                continue
            except Exception as e:  # noqa
                ctx.fail("{} {}: {} raised {!r}".format(k, seq, op, e),
                         "table-error:" + op)
                return
            if not ctx.check(need, "{} {}: {} answered".format(k, seq, op),
                             "table-answer:" + op):
                return
            if op.startswith("build"):
                built = True
            if op == "analysis":
                analysed = True
                continue
            d = sig.same(sig.flat([v], []), ref[op])
            if not ctx.check(d is None, lambda: "{} {}: {} is {}".format(
                    k, seq, op, d), "table-value:" + op):
                return
        ctx.agree()
    ctx.outcome("table " + k)


def hash_of(seq):
    return sum((i + 1) * len(s) * ord(s[0]) for i, s in enumerate(seq))


_TAB = {}
