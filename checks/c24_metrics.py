"""C24: performance metrics equal their mathematical definitions."""
import itertools
import math

import numpy as np

from mc import ref

PROPERTY = "C24"
RULE = ("Every vector of labels and scores (three score levels, so with ties) "
        "up to length 5 (thorough 6) in several containers; every pair of "
        "true/predicted label vectors; every pair of target/prediction "
        "vectors over a small alphabet; every small contingency table: the "
        "library's metrics against quadratic-time textbook definitions "
        "(pairwise concordance, threshold enumeration, explicit sums).")
ASSUMPTIONS = ["length <= 5 (6), score levels {0.1, 0.4, 0.7}",
               "KS is one-sided: higher scores for events, as documented by "
               "its use", "zero targets are outside the percentage metrics"]

LV = [0.1, 0.4, 0.7]
CONT = ["array", "series", "list"]


def tasks(tier):
    q = tier == "quick"
    for n in range(2, 6 if q else 7):
        for y in itertools.product((0, 1), repeat=n):
            if 0 < sum(y) < n:
                for s in itertools.product(range(3), repeat=n):
                    yield ["class", y, s, CONT[(sum(s) + n) % 3]]
    for n in range(2, 5 if q else 6):
        for y in itertools.product((0, 1), repeat=n):
            for p in itertools.product((0, 1), repeat=n):
                if 0 < sum(y) < n:
                    yield ["imbalanced", y, p, CONT[sum(p) % 3]]
    for n in (2, 3):
        for y in itertools.product((1.0, -2.0, 4.0, 0.5), repeat=n):
            for p in itertools.product((0.0, 1.0, 3.0, -2.0), repeat=n):
                yield ["regression", y, p, CONT[int(sum(p)) % 3]]
    for n in (1, 2, 3, 4):
        for e in itertools.product((0, 1, 3), repeat=n):
            for ne in itertools.product((0, 1, 4), repeat=n):
                if sum(e) and sum(ne) and (n < 4 or not q):
                    yield ["table", e, ne, "array"]
    for n in (2, 3):
        for k in (2, 3):
            al = (0, 1, 3) if q or n * k > 6 else (0, 1, 2, 5)
            for v in itertools.product(al, repeat=n * k):
                if n * k > 6 and q:
                    continue
                m = np.array(v).reshape(n, k)
                if (m.sum(0) > 0).all() and (m.sum(1) > 0).all():
                    yield ["multi", [list(map(int, r)) for r in m], k,
                           "array"]
    for n in (2, 3, 4, 5):
        for y in itertools.product((0, 1), repeat=n):
            if 0 < sum(y) < n:
                for s in itertools.product(range(3), repeat=min(n, 3)):
                    yield ["plots", y, (s + s)[:n], "array"]


def conv(v, kind):
    import pandas as pd
    if kind == "series":
        return pd.Series(v, index=[7 * i % 11 for i in range(len(v))][::-1])
    return list(v) if kind == "list" else np.array(v)


def auc(y, s):
    P = [b for a, b in zip(y, s) if a]
    N = [b for a, b in zip(y, s) if not a]
    return sum(1.0 if p > n else 0.5 if p == n else 0
               for p in P for n in N) / len(P) / len(N)


def ks_ref(y, s):
    ne, e = y.count(0), y.count(1)
    best = 0
    for t in set(s):
        a = sum(1 for v, w in zip(y, s) if w <= t and not v) / ne
        b = sum(1 for v, w in zip(y, s) if w <= t and v) / e
        best = max(best, a - b)
    return best


def below(y, s, t, cl):
    """fraction of the observations of a class with a score up to t"""
    m = [w <= t for v, w in zip(y, s) if v == cl]
    return sum(m) / len(m)


def median(v):
    v = sorted(v)
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def eq(ctx, name, got, want, tol=1e-9):
    ctx.step()
    return ctx.check(ref.close(got, want, tol, tol), lambda:
                     "{} = {}, definition {}".format(name, got, want), name)


def chi2(t):
    R, C = [sum(r) for r in t], [sum(c) for c in zip(*t)]
    N = sum(R)
    return sum((t[i][j] - R[i] * C[j] / N) ** 2 / (R[i] * C[j] / N)
               for i in range(len(R)) for j in range(len(C)))


def run(desc, ctx):
    kind, a, b, cont = desc
    ctx.state(desc)
    ctx.agree()
    if kind == "class":
        from optbinning.metrics.classification import gini, ks
        y, s = list(a), [LV[i] for i in b]
        Y, S = conv(y, cont), conv(s, cont)
        g = gini(Y, S)
        eq(ctx, "gini", g, 2 * auc(y, s) - 1)
        k, pos = ks(Y, S)
        eq(ctx, "ks", k, ks_ref(y, s))
        t = sorted(s)[pos]
        d = (sum(1 for v, w in zip(y, s) if w <= t and not v) / y.count(0) -
             sum(1 for v, w in zip(y, s) if w <= t and v) / y.count(1))
        eq(ctx, "ks position", d, k)
        ctx.outcome([kind, round(g, 6)])
    elif kind == "imbalanced":
        from optbinning.metrics.classification import \
            imbalanced_classification_metrics as f
        got = f(conv(a, cont), conv(b, cont))
        tp = sum(1 for y, p in zip(a, b) if y and p)
        fn = sum(1 for y, p in zip(a, b) if y and not p)
        fp = sum(1 for y, p in zip(a, b) if not y and p)
        tn = sum(1 for y, p in zip(a, b) if not y and not p)
        tpr, tnr = tp / (tp + fn), tn / (tn + fp)
        eq(ctx, "TPR", got["True positive rate"], tpr)
        eq(ctx, "TNR", got["True negative rate"], tnr)
        eq(ctx, "FPR", got["False positive rate"], fp / (fp + tn))
        eq(ctx, "FNR", got["False negative rate"], fn / (fn + tp))
        eq(ctx, "BACC", got["Balanced accuracy"], (tpr + tnr) / 2)
        if tp and fn and fp and tn:
            dp = math.sqrt(3) / math.pi * (math.log(tpr / (1 - tpr)) +
                                           math.log(tnr / (1 - tnr)))
            eq(ctx, "DP", got["Discriminant power"], dp)
        ctx.outcome([kind, tp, fn, fp, tn])
    elif kind == "regression":
        from optbinning.metrics.regression import regression_metrics
        y, p = list(a), list(b)
        n = len(y)
        got = regression_metrics(conv(y, cont), conv(p, cont))
        e = [u - v for u, v in zip(y, p)]
        m = sum(y) / n
        ss = sum((u - m) ** 2 for u in y)
        em = sum(e) / n
        want = {
            "Mean absolute error": sum(map(abs, e)) / n,
            "Mean squared error": sum(v * v for v in e) / n,
            "Median absolute error": median(map(abs, e)),
            "MPE": sum(v / u for v, u in zip(e, y)) / n,
            "MAPE": sum(abs(v / u) for v, u in zip(e, y)) / n,
            "MdAPE": median(abs(v / u) for v, u in zip(e, y)),
            "SMAPE": sum(abs(v) / (abs(u) + abs(w))
                         for v, u, w in zip(e, y, p)) / n,
            "SMdAPE": median(abs(v) / (abs(u) + abs(w))
                             for v, u, w in zip(e, y, p))}
        if ss:
            want["R^2"] = 1 - sum(v * v for v in e) / ss
            want["Explained variance"] = 1 - sum((v - em) ** 2
                                                 for v in e) / ss
        for k, v in want.items():
            eq(ctx, k, got[k], v)
        ctx.outcome([kind, round(want["MAPE"], 3)])
    elif kind == "table":
        from optbinning.binning import metrics as M
        e, ne = np.array(a), np.array(b)
        E, NE = sum(a), sum(b)
        n = len(a)
        rows = [(x, z) for x, z in zip(a, b) if x + z]
        if len(rows) > 1:
            y = [1] * E + [0] * NE
            s = [x / (x + z) for x, z in rows for _ in range(x)] + \
                [x / (x + z) for x, z in rows for _ in range(z)]
            eq(ctx, "table gini", M.gini(e, ne), 2 * auc(y, s) - 1)
        p, q = [x / E for x in a], [z / NE for z in b]
        ok = [i for i in range(n) if p[i] and q[i]]
        P, Q = np.array([p[i] for i in ok]), np.array([q[i] for i in ok])
        if ok:
            for name, f in (("jeffrey", ref.iv_term),
                            ("jensen_shannon", ref.js_term),
                            ("hellinger", ref.hellinger_term),
                            ("triangular", ref.triangular_term)):
                w = [f(u, v) for u, v in zip(P, Q)]
                g = getattr(M, name)(P, Q)
                eq(ctx, name, getattr(M, name)(P, Q, return_sum=True), sum(w))
                for u, v in zip(g, w):
                    eq(ctx, name, u, v)
        share = [(x + z) / (E + NE) for x, z in zip(a, b)]
        h = sum(v * v for v in share)
        eq(ctx, "hhi", M.hhi(np.array(share)), h)
        eq(ctx, "hhi normalized", M.hhi(np.array(share), True),
           1 if n == 1 else (h - 1 / n) / (1 - 1 / n))
        if len(rows) == n >= 2:
            from scipy import stats
            c = chi2([a, b])
            t, v = M.chi2_cramer_v(ne, e)
            eq(ctx, "chi2", t, c)
            eq(ctx, "cramer", v, math.sqrt(c / (E + NE)))
            if n == 2:
                t, pv = M.frequentist_pvalue(np.array([b, a]), "chi2")
                eq(ctx, "pvalue t", t, c)
                eq(ctx, "pvalue", pv, stats.chi2.sf(c, 1))
                t, pv = M.frequentist_pvalue(np.array([b, a]), "fisher")
                tot = math.comb(E + NE, E)
                k = a[0] + b[0]
                pr = {i: math.comb(k, i) * math.comb(E + NE - k, E - i) / tot
                      for i in range(max(0, E - (E + NE - k)), min(k, E) + 1)}
                eq(ctx, "fisher", pv, sum(
                    v for v in pr.values() if v <= pr[a[0]] * (1 + 1e-7)))
                if all(a) and all(b):
                    pa, pb = M.bayesian_probability(np.array([b, a]), 2000)
                    # P[A > B] for Beta posteriors, closed form
                    f = sum(stats.beta.cdf(u, b[0], b[1]) for u in
                            stats.beta.ppf((np.arange(4000) + .5) / 4000,
                                           a[0], a[1])) / 4000
                    eq(ctx, "bayes", pa, f, 2e-3)
                    eq(ctx, "bayes", pa + pb, 1)
        ctx.outcome([kind, n, len(ok)])
    elif kind == "multi":
        from optbinning.binning import metrics as M
        T = np.array(a)
        k = T.shape[1]
        c = chi2(a)
        t, v = M.chi2_cramer_v_multi(T)
        eq(ctx, "chi2 multi", t, c)
        eq(ctx, "cramer multi", v, math.sqrt(
            c / T.sum() / min(T.shape[0] - 1, k - 1)))
        X = T / T.sum(0)
        H = (lambda d: -sum(x * math.log(x) for x in d if x > 0))
        js = H(X.mean(1)) - sum(H(X[:, i]) for i in range(k)) / k
        eq(ctx, "js multivariate", M.jensen_shannon_multivariate(X), js)
        for w in itertools.product((1, 2, 7), repeat=k):
            w = np.array(w) / sum(w)
            js = H(X @ w) - sum(w[i] * H(X[:, i]) for i in range(k))
            eq(ctx, "js weights", M.jensen_shannon_multivariate(X, w), js)
        ctx.outcome([kind, T.shape])
    else:
        import matplotlib.pyplot as plt
        from optbinning.scorecard import plots
        y, s = np.array(a), np.array([LV[i] for i in b])
        try:
            show, plt.show = plt.show, lambda *a, **k: None
            plots.plot_ks(y, s)
            txt = [t.get_text() for t in plt.gca().texts]
            ctx.check("KS: {:.2%}".format(ks_ref(list(a), list(s))) in
                      " ".join(txt), lambda: "plot_ks says {}, KS is {}"
                      .format(txt, ks_ref(list(a), list(s))), "plot_ks")
            at = ["at {:.2f}".format(v) for v in set(s) if abs(
                below(a, s, v, 0) - below(a, s, v, 1) -
                ks_ref(list(a), list(s))) < 1e-12]
            ctx.check(any(t.endswith(v) for t in txt for v in at), lambda:
                      "plot_ks says {}, the KS is reached {}".format(txt, at),
                      "plot_ks-at")
            for cl, lab in ((1, "Cumulative events"),
                            (0, "Cumulative non-events")):
                ln, = [i for i in plt.gca().lines if i.get_label() == lab]
                x0, y0 = np.asarray(ln.get_xdata()), np.asarray(ln.get_ydata())
                ctx.check(sorted(s) == list(x0), "plot_ks thresholds {}"
                          .format(x0), "plot_ks-x")
                for v in set(s):
                    eq(ctx, lab, y0[np.flatnonzero(x0 == v)[-1]],
                       below(a, s, v, cl))
            seg = plt.gca().collections[0].get_segments()[0]
            v = float(seg[0][0])
            ctx.check(v == float(seg[1][0]) and "at {:.2f}".format(v) in at,
                      lambda: "plot_ks line at {}, not {}".format(v, at),
                      "plot_ks-line")
            for cl, u in zip((0, 1), sorted((w[1] for w in seg),
                                            reverse=True)):
                eq(ctx, "plot_ks line", u, below(a, s, v, cl))
            plt.close("all")
            A = auc(list(a), list(s))
            plots.plot_auc_roc(y, s)
            txt = [t.get_text() for t in plt.gca().get_legend().texts]
            ctx.check("AUC: {:.5f}".format(A) in " ".join(txt),
                      lambda: "plot_auc_roc {}".format(txt), "plot_auc_roc")
            for ln in plt.gca().lines:
                x0, y0 = np.asarray(ln.get_xdata()), np.asarray(ln.get_ydata())
                if "Model (" in ln.get_label():
                    area = float(np.sum(np.diff(x0) * (y0[1:] + y0[:-1]) / 2))
                    eq(ctx, "area of the ROC curve", area, A)
            plt.close("all")
            plots.plot_cap(y, s)
            txt = [t.get_text() for t in plt.gca().get_legend().texts]
            g = float(" ".join(txt).split("Gini: ")[1].split(")")[0])
            ctx.check(abs(g - (2 * A - 1)) < 1e-5, lambda: "plot_cap {}".format(txt),
                      "plot_cap")
            n, ev = len(y), int(y.sum())
            for ln in plt.gca().lines:
                x0, y0 = np.asarray(ln.get_xdata()), np.asarray(ln.get_ydata())
                if "Perfect" in ln.get_label():
                    eq(ctx, "perfect model", sum(abs(x0 - [0, ev / n, 1])) +
                       sum(abs(y0 - [0, 1, 1])), 0.0)
                elif "Model (" in ln.get_label():
                    ctx.check(len(x0) == n + 1 and x0[0] == y0[0] == 0,
                              "plot_cap curve", "plot_cap-len")
                    for v in set(s):
                        i = int((s >= v).sum())
                        eq(ctx, "fraction of population", x0[i], i / n)
                        eq(ctx, "fraction of events", y0[i],
                           int(y[s >= v].sum()) / ev)
        finally:
            plt.close("all")
            plt.show = show
        ctx.step(3)
        ctx.outcome([kind, round(A, 4)])
