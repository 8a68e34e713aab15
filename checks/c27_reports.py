"""C27: plots and printed reports show the numbers of the fitted object."""
import contextlib
import inspect
import io
import itertools
import math
import os
import re
import tempfile

import numpy as np

from checks import c20_scorecard as c20
from checks import c21_monitoring as c21
from checks import c22_counterfactual as c22

PROPERTY = "C27"
BATCH = 2
BATCH_TIMEOUT = 300
RULE = ("(bar) every binning table of a grid (target, dtype, number of bins, "
        "special codes, missing, other categories) x every combination of "
        "the arguments of plot: the bars, the points, the hatches, the "
        "labels and the legend of the figure are the rows of the built "
        "table. (map) every 2D table of a grid: the cell of the matrix shows "
        "its bin and the metric of that bin, neighbours share their edge, "
        "the profiles are its rows and columns. (pw) bars of the bins, curve "
        "= transform. (psi) bars and lines = psi_table / tests_table, the "
        "report counts its rows. (prog) the progress of every add/solve "
        "history. (text) every number printed by analysis is the one of the "
        "table and of the tests recomputed from its rows. (info) every class "
        "x option x alternative value x print level: value and flag of each "
        "option, status, statistics of the problem.")
ASSUMPTIONS = ["the figure is read from the artists given to matplotlib, "
               "not from pixels",
               "timings and memory sizes in the reports are not checked",
               "options not listed by information (**kwargs) are outside"]
nan = float("nan")
S = -9.0

SPECIAL = [None, [S], {"sa": S}, {"sa": S, "sb": -8.0},
           {"sa": [S, -8.0], "unused": -7.0, "sb": -6.0}]


def tasks(tier):
    q = tier == "quick"
    n = 0
    for t in ("binary", "continuous", "multiclass"):
        for d in ("num", "cat", "others", "long"):
            if t == "multiclass" and d != "num":
                continue
            for k, s, m in itertools.product((1, 2, 3, 5), range(5), (0, 1)):
                n += 1
                if d == "long" and (k != 3 or s > 2):
                    continue
                if q and (n % 2 or k == 5 and n % 4):
                    continue
                yield {"k": "bar", "t": t, "d": d, "n": k, "s": s, "m": m}
    for t in ("binary", "continuous"):
        for dx, dy in itertools.product(("num", "cat"), repeat=2):
            for i in range(3 if q else 8):
                for nb in (None, 1, 2, 3):
                    yield {"k": "map", "t": t, "d": [dx, dy], "i": i,
                           "n": nb}
    for t in ("binary", "continuous"):
        for deg, c in ((1, True), (1, False), (2, True), (2, False)):
            for s in range(4):
                for b in range(3):
                    yield {"k": "pw", "t": t, "deg": deg, "c": c, "s": s,
                           "b": b}
    E = [c for c in itertools.product(range(3), repeat=4) if sum(c) >= 2]
    n = 0
    for e in E:
        for a in itertools.product(range(3), repeat=4):
            n += 1
            if sum(a) and n % (61 if q else 7) == 0:
                yield {"k": "psi", "e": e, "a": a, "t": n % 4,
                       "set": n // 3 % 6}
    L = 6 if q else 8
    for w in itertools.product("as", repeat=L):
        if "s" in w and w[0] == "a":
            for div in ("iv", "js"):
                yield {"k": "prog", "w": "".join(w), "div": div}
    for c in sorted(alternatives()):
        for p in alternatives()[c]:
            for i in range(len(alternatives()[c][p])):
                yield {"k": "info", "c": c, "p": p, "i": i}
    for t in ("binary", "continuous"):
        for s in range(6):
            for y in (0, 1):
                yield {"k": "cf", "t": t, "s": s, "y": y}


def run(desc, ctx):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.show = lambda *a, **k: None
    plt.close("all")
    ctx.state(desc)
    {"bar": bar, "map": heat, "pw": pw, "psi": psi, "prog": prog,
     "info": info, "cf": cf}[desc["k"]](desc, ctx)
    plt.close("all")


def near(a, b, tol=1e-9):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def same(a, b, tol=1e-9):
    return len(a) == len(b) and all(
        len(u) == len(v) and all(near(x, y, tol) for x, y in zip(u, v))
        for u, v in zip(a, b))


def rects(ax):
    """(left, width, bottom, height, colour, hatch) of every bar"""
    out = []
    for r in ax.patches:
        out.append((r.get_x(), r.get_width(), r.get_y(), r.get_height(),
                    tuple(round(z, 3) for z in r.get_facecolor()[:3]),
                    r.get_hatch()))
    return out


def stacked(R, ctx, what):
    """bars over the same interval leave no gap and do not overlap"""
    at = {}
    for x, w, b, h, _, _ in R:
        if h:
            at.setdefault((round(x, 9), round(w, 9)), []).append((b, b + h))
    for k, v in at.items():
        e = 0
        for lo, hi in sorted(v):
            ctx.check(near(lo, e), lambda: "{}: bars {} at {}".format(
                what, v, k), "stack")
            e = hi


def points(ax, colour=False):
    """markers drawn on the axes"""
    from matplotlib.colors import to_rgb
    out = []
    for ln in ax.lines:
        if ln.get_marker() not in (None, "None", "", " "):
            c = tuple(round(z, 3) for z in to_rgb(ln.get_markerfacecolor()))
            for x, y in zip(ln.get_xdata(), ln.get_ydata()):
                out.append((float(x), float(y)) + ((c,) if colour else ()))
    return out


def legend():
    import matplotlib.pyplot as plt
    for ax in reversed(plt.gcf().axes):
        lg = ax.get_legend()
        if lg is not None:
            return [(t.get_text(),
                     tuple(round(z, 3) for z in h.get_facecolor()[:3]),
                     h.get_hatch())
                    for t, h in zip(lg.get_texts(), lg.get_patches())]
    return []


def stack(bars, colour):
    """position -> (bottom, top) of the bars with a colour"""
    return {round(x + w / 2, 9): (y, y + h) for x, w, y, h, c, _ in bars
            if c == colour}


# ----------------------------------------------------------- binning tables
def data(desc):
    """records of a table: bins with distinct counts, specials, missing"""
    t, d, k = desc["t"], desc["d"], desc["n"]
    rows = []

    def add(v, cnt, base):
        for i in range(cnt):
            y = [i % (2 + base % 3) == 0, base * 1.5 - i % 3,
                 (i + (i % 4 == base % 3)) % 3][
                ("binary", "continuous", "multiclass").index(t)]
            rows.append((v, float(y)))
    names = ["a", "b", "c", "e", "f", "g", "h"]
    if d == "long":
        names = [z * 16 for z in names]
    val = (lambda i: float(i)) if d == "num" else (lambda i: names[i])
    for i in range(k):
        add(val(i), 6 + 2 * i + i * i % 3, i)
    if d == "others":
        add("q", 1, 2), add("r", 1, 3)
    sp = SPECIAL[desc["s"]]
    if d != "num" and sp is not None:
        conv = {S: "s9", -8.0: "s8", -7.0: "s7", -6.0: "s6"}
        sp = [conv[z] for z in sp] if isinstance(sp, list) else {
            a: [conv[z] for z in b] if isinstance(b, list) else conv[b]
            for a, b in sp.items()}
    if sp is not None:
        codes = sp if isinstance(sp, list) else [
            z for n, b in sp.items() if n != "unused"
            for z in (b if isinstance(b, list) else [b])]
        for j, c in enumerate(codes):
            add(c, 3 + j, j + 1)
    if desc["m"]:
        add(nan if d == "num" else None, 4, 4)
    return [r[0] for r in rows], [r[1] for r in rows], sp


def fitted(desc):
    import optbinning as ob
    x, y, sp = data(desc)
    kw = dict(special_codes=sp, prebinning_method="cart", monotonic_trend=None,
              min_prebin_size=1e-3, name="var")
    if desc["d"] == "num":
        us = [i + 0.5 for i in range(desc["n"] - 1)]
        if us:
            kw.update(user_splits=us, user_splits_fixed=[True] * len(us))
        x = np.array(x, dtype=float)
    else:
        x = np.array(x, dtype=object)
        kw.update(dtype="categorical")
        if desc["d"] == "others":
            kw.update(cat_cutoff=0.08)
        else:
            us = [np.array([z], dtype=object) for z in
                  dict.fromkeys(v for v in x if v is not None and not
                                str(v).startswith("s"))]
            kw.update(user_splits=np.array(us),
                      user_splits_fixed=[True] * len(us))
    c = {"binary": ob.OptimalBinning, "continuous":
         ob.ContinuousOptimalBinning, "multiclass":
         ob.MulticlassOptimalBinning}[desc["t"]]
    if desc["t"] != "continuous":
        y = np.array(y, dtype=int)
        if desc["t"] == "multiclass" and desc["m"]:
            y = np.array([2, 5, 7])[y]
    return c(**kw).fit(x, np.array(y)), x, np.array(y), sp


def bar(desc, ctx):
    import matplotlib.pyplot as plt
    o, x, y, sp = fitted(desc)
    ctx.step()
    bt = o.binning_table
    df = bt.build(show_digits=2)
    df = df.iloc[:-1]
    n, ns = len(df), len(sp) if isinstance(sp, dict) else 1
    # position of each row and its kind
    oth = 1 if desc["d"] == "others" and len(o.binning_table.cat_others) else 0
    kind = ["bin"] * (n - 1 - ns - oth) + ["others"] * oth + \
        ["special"] * ns + ["missing"]
    classes = None
    if desc["t"] == "binary":
        metrics = {"woe": "WoE", "event_rate": "Event rate", "iv": "IV"}
        series = [("Event", df["Event"]), ("Non-event", df["Non-event"])]
    elif desc["t"] == "continuous":
        metrics = {"mean": "Mean", "woe": "WoE", "iv": "IV"}
        series = [("Count", df["Count"])]
    else:
        metrics = {None: None}
        classes = sorted(set(y))
        series = [(str(c), df[col]) for c, col in
                  zip(classes, df.columns[3:3 + len(classes)])]
        rates = df.columns[3 + len(classes):3 + 2 * len(classes)]
    for metric, a_s, a_m, lab in itertools.product(
            metrics, (True, False), (True, False), (True, False)):
        kw = dict(add_special=a_s, add_missing=a_m, show_bin_labels=lab)
        if metric:
            kw["metric"] = metric
        what = "plot({})".format(kw)
        plt.close("all")
        bt.plot(**kw)
        ctx.step()
        ctx.agree()
        ax1, ax2 = plt.gcf().axes[:2]
        see = [i for i in range(n) if (kind[i] != "special" or a_s) and
               (kind[i] != "missing" or a_m)]
        R = rects(ax1)
        lg = legend()
        col = {a: c for a, c, h in lg}
        [0] * len(see)
        seen = 0
        order = []
        for name, s in series:
            if not ctx.check(name in col, "{}: legend {}".format(what, lg),
                             "legend"):
                return
            got = stack(R, col[name])
            seen += len(got)
            want = [float(s.iloc[i]) for i in see]
            ctx.check(sorted(got) == list(range(len(see))) and all(
                near(got[i][1] - got[i][0], w) for i, w in enumerate(want)),
                lambda: "{}: bars of {} {} instead of {}".format(
                    what, name, got, want), "bars")
            order.append(got)
        ctx.check(seen == len(R), "{}: {} bars of {}".format(what, len(R),
                                                             seen), "bars")
        stacked(R, ctx, what)
        hz = {"special": "/", "missing": "\\"}
        for x0, w, _, _, _, h in R:
            i = see[int(round(x0 + w / 2))]
            ctx.check(h == hz.get(kind[i]), lambda: "{}: hatch {!r} of row "
                      "{} ({})".format(what, h, i, kind[i]), "hatch")
        extra = [(a, h) for a, c, h in lg if h]
        ctx.check(extra == [("Bin special", "/")] * a_s +
                  [("Bin missing", "\\")] * a_m,
                  "{}: legend {}".format(what, lg), "legend")
        if metric:
            P = sorted(points(ax2))
            v = [(float(j), float(df[metrics[metric]].iloc[i]))
                 for j, i in enumerate(see)]
            ctx.check(same(P, v), lambda: "{}: points {} instead of {}".format(
                what, P, v), "points")
            ctx.check(ax2.get_ylabel().lower().replace("_", " ") ==
                      metric.replace("_", " "), "{}: axis {!r}".format(
                          what, ax2.get_ylabel()), "axis")
        else:
            P = points(ax2, True)
            for c, r in zip(classes, rates):
                p = sorted(z[:2] for z in P if z[2] == col[str(c)])
                v = [(float(j), float(df[r].iloc[i]))
                     for j, i in enumerate(see)]
                ctx.check(same(p, v), lambda: "{}: points of class {} {} "
                          "instead of {}".format(what, c, p, v), "points")
        if lab:
            tl = [z.get_text() for z in ax1.get_xticklabels()]
            tp = [float(z) for z in ax1.get_xticks()]
            w = [str(df["Bin"].iloc[i]) for i in see]
            if desc["d"] != "num":
                w = [z if len(z) <= 27 else z[:27] + "..." for z in w]
            ctx.check(tl == w and tp == list(map(float, range(len(see)))),
                      lambda: "{}: labels {} instead of {}".format(
                          what, tl, w), "labels")
        ctx.check([a.get_title() for a in plt.gcf().axes if a.get_title()] ==
                  ["var"], what + ": title", "title")
        ctx.outcome([desc["t"], desc["d"], n, metric, a_s, a_m])
    if desc["t"] != "multiclass" and desc["d"] == "num":
        actual(desc, ctx, o, x, df, kind, metrics, series)
    saved(bt, ctx)
    text1d(desc, ctx, o, df, kind, x, y)


def actual(desc, ctx, o, x, df, kind, metrics, series):
    """style actual: the bins on the axis of the variable"""
    import matplotlib.pyplot as plt
    spec = {z for b in [SPECIAL[desc["s"]] or []]
            for v in (b.values() if isinstance(b, dict) else b)
            for z in (v if isinstance(v, list) else [v])}
    cl = [v for v in x if v == v and v not in spec]
    e = [min(cl)] + list(o.splits) + [max(cl)]
    k = kind.count("bin")
    for metric in metrics:
        plt.close("all")
        o.binning_table.plot(metric=metric, style="actual")
        ctx.step()
        ctx.agree()
        what = "plot(style=actual, metric={})".format(metric)
        ax1, ax2 = plt.gcf().axes[:2]
        col = {a: c for a, c, h in legend()}
        R = rects(ax1)
        ctx.check(len(R) == k * len(series), "{}: {} bars".format(
            what, len(R)), "actual bars")
        for name, s in series:
            got = sorted((a, a + w, h) for a, w, b, h, c, _ in R
                         if c == col.get(name))
            v = [(e[i], e[i + 1], float(s.iloc[i])) for i in range(k)]
            ctx.check(same(got, v), lambda: "{}: bars of {} {} instead of {}"
                      .format(what, name, got, v), "actual bars")
        stacked(R, ctx, what)
        m = [float(z) for z in df[metrics[metric]].iloc[:k]]
        P = points(ax2)
        v = [((e[i] + e[i + 1]) / 2, m[i]) for i in range(k)]
        ctx.check(same(sorted(P), v), lambda: "{}: points {} instead of {}"
                  .format(what, P, v), "actual points")
        seg, vert = [], []
        for ln in ax2.lines:
            X, Y = list(ln.get_xdata()), list(ln.get_ydata())
            if ln.get_marker() in (None, "None", "", " "):
                if len(X) == 2 and X[0] == X[1] and list(Y) == [0, 1]:
                    vert.append(float(X[0]))
                else:
                    seg.append((X[0], Y[0], X[1], Y[1]))
        v = [(e[i], m[i], e[i + 1], m[i]) for i in range(k)]
        if min(cl) < max(cl):
            ctx.check(same(sorted(seg), v), lambda: "{}: steps {} instead of "
                      "{}".format(what, seg, v), "actual steps")
            ctx.check(same([vert], [list(o.splits)]), lambda: "{}: lines {} "
                      "instead of {}".format(what, vert, o.splits),
                      "actual lines")


def saved(bt, ctx, **kw):
    """savefig writes the file and shows nothing"""
    import matplotlib.pyplot as plt
    shown = []
    plt.close("all")
    plt.show = lambda *a, **k: shown.append(1)
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, "z.png")
        bt.plot(savefig=f, **kw)
        ctx.step()
        ok = os.path.isfile(f) and open(f, "rb").read(4) == b"\x89PNG"
        ctx.check(ok and not shown and not plt.get_fignums(),
                  "savefig: file {}, shown {}, open figures {}".format(
                      ok, shown, plt.get_fignums()), "savefig")
        for z in os.listdir(d):
            os.remove(os.path.join(d, z))
    finally:
        os.rmdir(d)
        plt.show = lambda *a, **k: None
        plt.close("all")


# ----------------------------------------------------------------- printing
def printed(f, *a, **kw):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        f(*a, **kw)
    return b.getvalue()


def value(txt, label):
    """number printed after a label on its own line"""
    m = re.search(r"^\s*" + re.escape(label) + r"\s*:?\s+(\S+)", txt, re.M)
    return None if m is None else m.group(1)


def shows(ctx, txt, label, want, digits=8, sig="text"):
    got = value(txt, label)
    ok = got is not None and near(float(got), float(want),
                                  0.6 * 10 ** -digits)
    ctx.check(ok, lambda: "{} printed {} instead of {}".format(
        label, got, want), sig + " " + label)


def tests_of(txt):
    """rows of the significance tests"""
    z = txt.split("Significance tests")[1].strip().splitlines()
    if z[0].strip() == "None":
        return []
    cols = re.split(r"\s{2,}|\s(?=Bin |p-value|t-stat|P\[)", z[0].strip())
    return [dict(zip([c.strip() for c in cols if c.strip()], r.split()))
            for r in z[1:] if r.strip()]


def chi2_p(obs):
    R = [sum(r) for r in obs]
    C = [sum(c) for c in zip(*obs)]
    N = sum(R)
    C0 = [j for j in range(len(C)) if C[j]]
    if 0 in R or len(C0) < 2:
        return None
    t = sum((obs[i][j] - R[i] * C[j] / N) ** 2 / (R[i] * C[j] / N)
            for i in range(len(R)) for j in C0)
    from scipy.stats import chi2
    return t, float(chi2.sf(t, (len(R) - 1) * (len(C0) - 1)))


def welch(u, s, n, v, z, m):
    if s * s / n + z * z / m <= 0:
        return None
    t = (u - v) / math.sqrt(s * s / n + z * z / m)
    return t, None


def rough(a, b):
    """a printed number and its value (pandas prints 6 digits)"""
    try:
        a = float(a)
    except (TypeError, ValueError):
        return False
    return near(a, b, 2e-4) or abs(a - b) < 2e-6


def text1d(desc, ctx, o, df, kind, x, y):
    bt = o.binning_table
    k = kind.count("bin")
    txt = printed(bt.analysis)
    ctx.step()
    ctx.agree()
    ctx.check(printed(bt.analysis, print_output=False) == "",
              "print_output=False prints", "silent")
    if desc["t"] == "binary":
        for lab, v in (("Gini index", bt.gini), ("IV (Jeffrey)", bt.iv),
                       ("JS (Jensen-Shannon)", bt.js),
                       ("Hellinger", bt.hellinger),
                       ("Triangular", bt.triangular), ("KS", bt.ks),
                       ("Quality score", bt.quality_score)):
            shows(ctx, txt, lab, v)
        t = [[float(df["Non-event"].iloc[i]), float(df["Event"].iloc[i])]
             for i in range(k)]
        cv = chi2_p(t) if k > 1 else None
        if cv:
            shows(ctx, txt, "Cramer's V",
                  math.sqrt(cv[0] / sum(map(sum, t)) / min(k - 1, 1)))
        means = list(df["Event rate"].iloc[:k])
        pair = [chi2_p([t[i], t[i + 1]]) for i in range(k - 1)]
        trends = [means]
    elif desc["t"] == "continuous":
        for lab, v in (("IV", bt.iv), ("WoE", bt.woe),
                       ("Quality score", bt.quality_score)):
            shows(ctx, txt, lab, v)
        t = o.binning_table.build().iloc[-1]
        if float(t["Mean"]):
            shows(ctx, txt, "WoE (normalized)",
                  bt.woe / abs(float(t["Mean"])))
        g = [df.iloc[i] for i in range(k)]
        pair = [welch(float(a["Mean"]), float(a["Std"]), float(a["Count"]),
                      float(b["Mean"]), float(b["Std"]), float(b["Count"]))
                for a, b in zip(g, g[1:])]
        trends = [list(df["Mean"].iloc[:k])]
    else:
        shows(ctx, txt, "JS (Jensen-Shannon)", bt.js)
        shows(ctx, txt, "Quality score", bt.quality_score)
        nc = len(set(y))
        t = [[float(df.iloc[i, 3 + j]) for j in range(nc)] for i in range(k)]
        cv = chi2_p(t) if k > 1 else None
        if cv:
            shows(ctx, txt, "Cramer's V", math.sqrt(
                cv[0] / sum(map(sum, t)) / min(k - 1, nc - 1)))
        pair = [chi2_p([t[i], t[i + 1]]) for i in range(k - 1)]
        trends = [[a[j] / sum(a) for a in t] for j in range(nc)]
        for c in sorted(set(y)):
            ctx.check(re.search(r"Class +{}\s".format(c), txt),
                      lambda: "class {} not in {}".format(c, txt), "classes")
    p = [c / len(x) for c in df["Count"]]
    hh = sum(v * v for v in p)
    shows(ctx, txt, "HHI", hh)
    m = len(p)
    shows(ctx, txt, "HHI (normalized)", (hh - 1 / m) / (1 - 1 / m))
    rows = tests_of(txt)
    if ctx.check(len(rows) == max(k - 1, 0), lambda: "{} tests of {} bins"
                 .format(len(rows), k), "tests"):
        for i, (r, w) in enumerate(zip(rows, pair)):
            ctx.check(r["Bin A"] == str(i) and r["Bin B"] == str(i + 1),
                      "tests {}".format(r), "tests")
            if w:
                ctx.check(rough(r["t-statistic"], w[0]) and
                          (w[1] is None or rough(r["p-value"], w[1])),
                          lambda: "test {} instead of {}".format(r, w),
                          "tests")
    got = re.findall(r"(?:Monotonic trend +|Class +\S+ +)(\S[^\n]*)", txt)
    ctx.check(len(got) == len(trends), lambda: "trends {}".format(got),
              "trend")
    for g, v in zip(got, trends):
        up = all(a < b for a, b in zip(v, v[1:]))
        dn = all(a > b for a, b in zip(v, v[1:]))
        if len(v) > 1:
            ctx.check((g.strip() == "ascending") == up and
                      (g.strip() == "descending") == dn,
                      lambda: "trend {} of {}".format(g, v), "trend")


# ------------------------------------------------------------------- 2D
def heat(desc, ctx):
    import matplotlib.pyplot as plt
    import optbinning as ob
    n, i = 60, desc["i"]
    rows = [(j % 5, (j * (i + 2) // 3 + j // 7) % 4) for j in range(n)]
    z = [a * (i % 3 + 1) - 2 * b * (i % 2) + (j * j + i) % 4
         for j, (a, b) in enumerate(rows)]
    nm = ["u", "v", "w", "k", "l"]
    xx, yy = (np.array([r[c] if desc["d"][c] == "num" else nm[r[c]]
                        for r in rows],
                       dtype=float if desc["d"][c] == "num" else object)
              for c in (0, 1))
    if i % 2:
        xx[3] = nan if desc["d"][0] == "num" else None
    full = {"num": "numerical", "cat": "categorical"}
    if desc["t"] == "binary":
        c = ob.OptimalBinning2D
        z = np.array([v > np.median(z) for v in z], dtype=int)
    else:
        c = ob.ContinuousOptimalBinning2D
        z = np.array(z, dtype=float)
    o = c("x", "y", full[desc["d"][0]], full[desc["d"][1]],
          max_n_bins=desc["n"], monotonic_trend_x=None if i % 2 else
          "ascending", max_n_prebins_x=3 + i % 2, max_n_prebins_y=3,
          min_prebin_size_x=0.05, min_prebin_size_y=0.05)
    o.fit(xx, yy, z)
    ctx.step()
    if o.status not in ("OPTIMAL", "FEASIBLE"):
        ctx.outcome("none")
        return
    bt = o.binning_table
    df = bt.build()
    nb = len(df) - 3
    if desc["t"] == "binary":
        metrics = {"woe": "WoE", "event_rate": "Event rate"}
    else:
        metrics = {None: "Mean"}
    for metric in metrics:
        plt.close("all")
        bt.plot(**({"metric": metric} if metric else {}))
        ctx.step()
        ctx.agree()
        what = "plot {}".format(metric)
        ax, axt, axr = None, None, None
        for a in plt.gcf().axes:
            if a.images and ax is None and a.texts:
                ax = a
        rest = [a for a in plt.gcf().axes if a is not ax and a.lines]
        axt, axr = rest[:2]
        M = np.array(ax.images[0].get_array(), dtype=float)
        P = {}
        for t in ax.texts:
            P[int(round(t.get_position()[1])),
              int(round(t.get_position()[0]))] = int(t.get_text())
        v = [float(q) for q in df[metrics[metric]].iloc[:nb]]
        if not ctx.check(sorted(P) == [(a, b) for a in range(M.shape[0])
                                       for b in range(M.shape[1])] and
                         sorted(set(P.values())) == list(range(nb)),
                         lambda: "{}: cells {} of {} bins".format(
                             what, P, nb), "cells"):
            return
        for (a, b), k in P.items():
            ctx.check(near(M[a, b], v[k]), lambda: "{}: cell {} of bin {} "
                      "shows {} instead of {}".format(what, (a, b), k,
                                                      M[a, b], v[k]),
                      "cell value")
        X, Y = ([str(q) for q in df[c].iloc[:nb]] for c in ("Bin x", "Bin y"))
        for d, lab, step in ((0, X, (0, 1)), (1, Y, (1, 0))):
            for (a, b), k in P.items():
                q = P.get((a + step[0], b + step[1]))
                if desc["d"][d] == "num":
                    lo, hi = lab[k][1:-1].split(", ")
                    back = (a - step[0], b - step[1])
                    if back not in P:
                        ctx.check(lo == "-inf", "{}: cell {} starts at {}"
                                  .format(what, (a, b), lo), "layout")
                    if q is None:
                        ctx.check(hi == "inf", "{}: cell {} ends at {}"
                                  .format(what, (a, b), hi), "layout")
                    elif q != k:
                        lo2 = lab[q][1:-1].split(", ")[0]
                        ctx.check(lo2 == hi, "{}: bin {} next to {} along {}"
                                  .format(what, lab[k], lab[q], "xy"[d]),
                                  "layout")
                elif q is not None and q != k:
                    ctx.check(lab[q] != lab[k], "{}: bin {} twice along {}"
                              .format(what, lab[k], "xy"[d]), "layout")
        # profiles
        for a, mat, flip in ((axt, M, 0), (axr, M.T, 1)):
            want = sorted({tuple(round(q, 8) for q in r) for r in mat})
            got = set()
            m = mat.shape[1]
            for ln in a.lines:
                p, q = list(ln.get_xdata()), list(ln.get_ydata())
                if flip:
                    p, q = q, p
                if len(p) == m + 1 and len(q) == m + 1 and \
                        not str(ln.get_label()).startswith("_child"):
                    ctx.check(same([p], [[s - 0.5 for s in range(m + 1)]]),
                              "{}: profile at {}".format(what, p), "profile")
                    ctx.check(ln.get_drawstyle() == (
                        "steps-pre" if flip else "steps-post"),
                        "{}: {}".format(what, ln.get_drawstyle()), "profile")
                    got.add(tuple(round(float(s), 8) for s in q[:-1]))
            ctx.check(sorted(got) == want, lambda: "{}: profiles {} instead "
                      "of {}".format(what, sorted(got), want), "profile")
    saved(bt, ctx)
    # text
    txt = printed(bt.analysis)
    ctx.step()
    if desc["t"] == "binary":
        for lab, v in (("Gini index", bt.gini), ("IV (Jeffrey)", bt.iv),
                       ("JS (Jensen-Shannon)", bt.js),
                       ("Hellinger", bt.hellinger),
                       ("Triangular", bt.triangular), ("KS", bt.ks),
                       ("Quality score", bt.quality_score)):
            shows(ctx, txt, lab, v, sig="text2d")
        t = [[float(df["Non-event"].iloc[k]), float(df["Event"].iloc[k])]
             for k in range(nb)]

        def stat(a, b):
            return chi2_p([t[a], t[b]])
    else:
        for lab, v in (("IV", bt.iv), ("WoE", bt.woe),
                       ("Quality score", bt.quality_score)):
            shows(ctx, txt, lab, v, sig="text2d")
        g = [df.iloc[k] for k in range(nb)]

        def stat(a, b):
            return welch(float(g[a]["Mean"]), float(g[a]["Std"]),
                         float(g[a]["Count"]), float(g[b]["Mean"]),
                         float(g[b]["Std"]), float(g[b]["Count"]))
    p = [c / n for c in df["Count"].iloc[:-1]]
    hh = sum(q * q for q in p)
    shows(ctx, txt, "HHI", hh, sig="text2d")
    m = len(p)
    shows(ctx, txt, "HHI (normalized)", (hh - 1 / m) / (1 - 1 / m),
          sig="text2d")
    rows = tests_of(txt)
    adj = set()
    for (a, b), k in P.items():
        for q in (P.get((a + 1, b)), P.get((a, b + 1))):
            if q is not None and q != k:
                adj.add((k, q))
    ctx.check(sorted((int(r["Bin A"]), int(r["Bin B"])) for r in rows) ==
              sorted(adj), lambda: "tests of {} instead of {}".format(
                  rows, sorted(adj)), "tests2d")
    for r in rows:
        w = stat(int(r["Bin A"]), int(r["Bin B"]))
        if w:
            ctx.check(rough(r["t-statistic"], w[0]) and
                      (w[1] is None or rough(r["p-value"], w[1])),
                      lambda: "test {} instead of {}".format(r, w), "tests2d")
    ctx.outcome([desc["t"], desc["d"], nb])


# ------------------------------------------------------------- piecewise
def pw(desc, ctx):
    import matplotlib.pyplot as plt
    from optbinning import ContinuousOptimalPWBinning, OptimalPWBinning
    n = 40
    x = [float(j % 20) for j in range(n)]
    y = [(3 * v + 7 * (j % 5)) % 11 + v / 2 for j, v in enumerate(x)]
    sp = [None, [S], {"sa": S, "sb": -8.0}, {"sa": S, "no": -7.0}][desc["s"]]
    if sp is not None:
        x += [S, S, -8.0, -8.0] if desc["s"] == 2 else [S, S]
        y += [1.0, 9.0, 4.0, 8.0][:len(x) - n]
    x += [nan] * 3
    y += [2.0, 9.0, 9.5]
    us = [[9.5], [4.5, 12.5], [3.5, 8.5, 14.5]][desc["b"]]
    kw = dict(name="v", degree=desc["deg"], continuous=desc["c"],
              special_codes=sp, user_splits=us,
              monotonic_trend=None if desc["c"] else "ascending")
    x = np.array(x)
    if desc["t"] == "binary":
        y = np.array([v > 7 for v in y], dtype=int)
        o = OptimalPWBinning(**kw)
    else:
        y = np.array(y)
        o = ContinuousOptimalPWBinning(**kw)
    fk = {}
    if desc["t"] == "continuous" and desc["b"] == 1:
        fk = dict(lb=3.0, ub=8.0)
    o.fit(x, y, **fk)
    ctx.step()
    bt = o.binning_table
    df = bt.build()
    e = [0.0] + [float(s) for s in o.splits] + [19.0]
    k = len(e) - 1
    for metric, ns in itertools.product(
            ("woe", "event_rate") if desc["t"] == "binary" else (None,),
            (11, 200)):
        plt.close("all")
        a = {"metric": metric} if metric else {}
        bt.plot(n_samples=ns, **a)
        ctx.step()
        ctx.agree()
        what = "plot {} {}".format(metric, ns)
        ax1, ax2 = plt.gcf().axes[:2]
        col = {u: c for u, c, h in legend()}
        R = rects(ax1)
        for name in (("Event", "Non-event") if desc["t"] == "binary" else
                     ("Count",)):
            got = sorted((u, u + w, h) for u, w, b, h, c, _ in R
                         if c == col.get(name))
            v = [(e[i], e[i + 1], float(df[name].iloc[i])) for i in range(k)]
            ctx.check(same(got, v), lambda: "{}: bars of {} {} instead of {}"
                      .format(what, name, got, v), "pw bars")
        stacked(R, ctx, what)
        vert, curve = [], []
        for ln in ax2.lines:
            X, Y = list(ln.get_xdata()), list(ln.get_ydata())
            if len(X) == 2 and X[0] == X[1]:
                vert.append(float(X[0]))
            else:
                curve.append((X, Y))
        ctx.check(same([vert], [e[1:-1]]), "{}: lines {}".format(what, vert),
                  "pw lines")
        if ctx.check(len(curve) == 1 and len(curve[0][0]) == ns,
                     what + ": curve", "pw curve"):
            X, Y = curve[0]
            ctx.check(same([X], [list(np.linspace(0, 19, ns))]),
                      what + ": abscissas", "pw curve")
            b = dict(lb=0, ub=1) if metric else fk
            w = o.transform(np.array(X), **a, **b)
            ok = [j for j in range(ns) if not metric == "woe" or
                  (math.isfinite(w[j]))]
            ctx.check(same([[Y[j] for j in ok]], [[w[j] for j in ok]], 1e-7),
                      lambda: "{}: curve {} instead of {}".format(
                          what, Y[:5], list(w[:5])), "pw curve")
    saved(bt, ctx)
    txt = printed(bt.analysis)
    ctx.step()
    if desc["t"] == "binary":
        shows(ctx, txt, "Quality score", bt.quality_score, sig="pw text")
    N = len(x)
    p = [c / N for c in df["Count"].iloc[:-1]]
    hh = sum(q * q for q in p)
    m = len(p)
    shows(ctx, txt, "HHI", hh, sig="pw text")
    shows(ctx, txt, "HHI (normalized)", (hh - 1 / m) / (1 - 1 / m),
          sig="pw text")
    for name in bt.d_metrics:
        shows(ctx, txt, name, bt.d_metrics[name], sig="pw text")
    ctx.outcome([desc["t"], k, desc["s"]])


# ------------------------------------------------------------ monitoring
def psi(desc, ctx):
    import matplotlib.pyplot as plt
    from optbinning.scorecard import ScorecardMonitoring
    t = "continuous" if desc["t"] == 3 else "binary"
    sc, v = c21.scorecard(t, desc["set"])
    P = c21.protos(v, desc["set"])
    E = [p for p, c in zip(P, desc["e"]) for _ in range(2 * c)]
    A = [p for p, c in zip(P, desc["a"]) for _ in range(2 * c + 1)]
    Xe, Xa = c21.frame(v, E), c21.frame(v, A)

    def target(k):
        y = [(i * (desc["t"] + 2) + i // 3) % 4 for i in range(k)]
        return np.array([float(z) for z in y]) if t == "continuous" else \
            np.array([int(z > 1) for z in y])
    ya, ye = target(len(A)), target(len(E))
    if t == "binary" and (len(set(ya)) < 2 or len(set(ye)) < 2):
        ctx.outcome("one class")
        return
    mo = ScorecardMonitoring(sc, psi_n_bins=4, psi_min_bin_size=0.05,
                             psi_method=("cart", "uniform")[desc["set"] % 2])
    try:
        mo.fit(Xa, ya, Xe, ye)
    except Exception as ex:      # subject of C21
        ctx.outcome("fit " + type(ex).__name__)
        return
    ctx.step()
    T, W = mo.psi_table(), mo.tests_table()
    k = len(T) - 1
    mo.psi_plot()
    ctx.agree()
    ax1, ax2 = plt.gcf().axes[:2]
    col = {a: c for a, c, h in legend()}
    R = rects(ax1)
    ctx.check(len(R) == 2 * k, "bars {}".format(R), "psi bars")
    m = "Event rate" if t == "binary" else "Mean"
    for name, L in (("Actual", "A"), ("Expected", "E")):
        h = sorted((a, a + w, b, q) for a, w, b, q, c, _ in R
                   if c == col.get(name))
        want = [float(z) * 100 for z in T["Count {} (%)".format(L)].iloc[:k]]
        ctx.check(same([[q[3] for q in h]], [want]) and
                  all(q[2] == 0 for q in h), lambda: "{} {} instead of {}"
                  .format(name, h, want), "psi bars")
        # a bar lies in the slot of its bin and overlaps no other
        ctx.check(all(-0.75 <= q[0] - i and q[1] - i <= 0.75
                      for i, q in enumerate(h)), "{} {}".format(name, h),
                  "psi bars")
        want = [float(z) for z in W["{} {}".format(m, L)]]
        got = [list(map(float, ln.get_ydata())) for ln in ax2.lines
               if tuple(round(z, 3) for z in
                        __import__("matplotlib.colors").colors.to_rgb(
                            ln.get_color())) == col.get(name)]
        ctx.check(same(got, [want]), lambda: "{} {} instead of {}".format(
            m, got, want), "psi lines")
    q = sorted((a, a + w) for a, w, *_ in R)
    ctx.check(all(a[1] <= b[0] + 1e-9 for a, b in zip(q, q[1:])),
              "bars overlap {}".format(q), "psi overlap")
    txt = printed(mo.system_stability_report)
    ctx.step()
    tot = float(T["PSI"].iloc[-1])
    ps = [float(z) for z in T["PSI"].iloc[:-1]]
    mm = re.search(r"PSI total: +(\S+) \((.*)\)", txt)
    lev = (tot >= 0.1) + (tot >= 0.25)
    ctx.check(mm and near(float(mm.group(1)), tot, 6e-5),
              "PSI total {} instead of {}".format(mm and mm.group(1), tot),
              "report psi")
    says = mm.group(2).lower()
    seen = 0 if "no significant" in says else 1 if "investigation" in says \
        else 2
    ctx.check(seen == lev, "verdict {} for PSI {}".format(mm.group(2), tot),
              "report verdict")

    def counted(labels, vals, cuts, what):
        for i, lab in enumerate(labels):
            z = re.search(r"^\s*" + re.escape(lab) + r"\s+(\S+)\s+(\S+)\s*$",
                          txt, re.M)
            c = sum(1 for u in vals if sum(u >= s for s in cuts) == i)
            ctx.check(z and int(z.group(1)) == c and
                      near(float(z.group(2)), c / len(vals), 1e-5),
                      lambda: "{} {}: {} instead of {} of {}".format(
                          what, lab, z and z.groups(), c, vals),
                      "report " + what)
    if all(math.isfinite(z) for z in ps):
        counted(["[0.00, 0.10)", "[0.10, 0.25)", "[0.25, Inf+)"], ps,
                [0.1, 0.25], "psi")
    pv = [float(z) for z in W["p-value"]]
    if all(math.isfinite(z) for z in pv):
        counted(["[0.00, 0.05)", "[0.05, 0.10)", "[0.10, 0.50)",
                 "[0.50, 1.00)"], pv, [0.05, 0.1, 0.5], "p-value")
    # target and performance of the two samples
    if t == "binary":
        s = txt.split("Target analysis")[1].split("Performance")[0]
        for lab, ff in (("Number of records", len),
                        ("Event records", sum)):
            r = re.search(re.escape(lab) + r"\s+(\S+)(?:\s+\S+)?\s+(\S+)", s)
            if ctx.check(r, "no {}".format(lab), "report target"):
                got = re.search(r"^\s*" + re.escape(lab) + r"(.*)$", s,
                                re.M).group(1).split()
                want = [ff(list(ya)), ff(list(ye))]
                num = [float(z.strip("%")) for z in got if z[0].isdigit()]
                ctx.check(any(near(num[0], want[0]) and near(z, want[1])
                              for z in num[1:]),
                          lambda: "{}: {} instead of {}".format(
                              lab, got, want), "report target")
    for lv in (0, 1, 2):
        z = printed(mo.information, print_level=lv)
        num = [int(u) for u in re.findall(r"Number of \S+ ?\w*\s*:? +(\d+)",
                                          z)]
        ctx.check(num == [len(A), len(E), len(
            sc.binning_process_.get_support(names=True))],
            lambda: "information {}: {}".format(lv, num), "info monitoring")
        if lv:
            ctx.check(value(z, "Target type") == t, z, "info monitoring")
    ctx.outcome([t, k, lev])


# ------------------------------------------------------- sketch progress
def prog(desc, ctx):
    import matplotlib.pyplot as plt
    from optbinning import OptimalBinningSketch
    o = OptimalBinningSketch(divergence=desc["div"], eps=1e-3)
    na, ns, nr = 0, 0, 0
    R, D, ev = [], [], []
    for j, w in enumerate(desc["w"]):
        if w == "a":
            x = [float((i * (j + 2)) % 7) for i in range(20 + 5 * j)]
            y = [int((v + i * (1 + j)) % 5 > 1 + v / 4)
                 for i, v in enumerate(x)]
            o.add(np.array(x), np.array(y))
            na, nr = na + 1, nr + len(x)
        else:
            o.solve()
            ns += 1
            o.binning_table.build()
            R.append(nr)
            D.append(getattr(o.binning_table, desc["div"]))
            ev.append(na)
        ctx.step()
        if not ns:
            continue
        z = printed(o.information, print_level=1)
        ctx.check([value(z, "Processed records"), value(z, "Add operations"),
                   value(z, "Solve operations")] ==
                  [str(nr), str(na), str(ns)], lambda: "information {} "
                  "instead of {}".format(z, (nr, na, ns)), "info sketch")
    if not ns:
        return
    plt.close("all")
    o.plot_progress()
    ctx.agree()
    ax = plt.gcf().axes[0]
    L = {ln.get_label().split(" (")[0]: ln for ln in ax.lines}
    mv = [sum(D[:i + 1]) / (i + 1) for i in range(ns)]
    for name, v in (("divergence", D), ("moving mean", mv)):
        ln = L.get(name)
        if ctx.check(ln is not None, "no line {}".format(name), "progress"):
            ctx.check(same([list(ln.get_xdata()), list(ln.get_ydata())],
                           [R, v]), lambda: "{}: {} {} instead of {} {}"
                      .format(name, list(ln.get_xdata()),
                              list(ln.get_ydata()), R, v), "progress")
            ctx.check(ln.get_label() == "{} ({:.5f})".format(name, v[-1]),
                      ln.get_label(), "progress label")
    ctx.check([int(z) for z in re.findall(r"\d+", ax.get_title())] ==
              [ev[-1], R[-1]], ax.get_title(), "progress title")
    ctx.outcome([desc["w"], round(D[-1], 6)])


# ------------------------------------------------------------ information
def classes():
    import optbinning as ob
    from optbinning.binning.uncertainty import SBOptimalBinning
    from optbinning.scorecard import Counterfactual, ScorecardMonitoring
    return {"bin": ob.OptimalBinning, "con": ob.ContinuousOptimalBinning,
            "mul": ob.MulticlassOptimalBinning, "sb": SBOptimalBinning,
            "b2d": ob.OptimalBinning2D, "c2d": ob.ContinuousOptimalBinning2D,
            "pw": ob.OptimalPWBinning, "cpw": ob.ContinuousOptimalPWBinning,
            "sk": ob.OptimalBinningSketch, "bp": ob.BinningProcess,
            "bps": ob.BinningProcessSketch, "sc": ob.Scorecard,
            "mo": ScorecardMonitoring, "cf": Counterfactual}


_ALT = {
    "name": ["v", ""], "max_n_prebins": [7, 20], "min_prebin_size": [0.1],
    "min_n_bins": [1], "max_n_bins": [9], "min_bin_size": [0.02],
    "max_bin_size": [0.9], "max_pvalue": [0.9], "max_pvalue_policy": ["all"],
    "split_digits": [3], "verbose": [False],
}
_UNI = dict(_ALT, prebinning_method=["quantile", "cart"],
            monotonic_trend=["ascending", None, "auto"],
            user_splits=[[2.5]], special_codes=[[-9.0], {"s": -9.0}],
            time_limit=[50])
_BIN = dict(_UNI, solver=["mip", "cp"], divergence=["js"],
            min_bin_n_nonevent=[1], max_bin_n_nonevent=[99],
            min_bin_n_event=[1], max_bin_n_event=[99],
            min_event_rate_diff=[0.01], gamma=[0.2],
            class_weight=["balanced", {0: 1, 1: 2}], cat_cutoff=[0.1],
            mip_solver=["cbc"])
_D2 = dict(name_x=["p"], name_y=["q"], prebinning_method=["quantile"],
           strategy=["cart"], solver=["mip"], max_n_prebins_x=[4],
           max_n_prebins_y=[3], min_prebin_size_x=[0.1],
           min_prebin_size_y=[0.2], min_n_bins=[1], max_n_bins=[4],
           min_bin_size=[0.01], max_bin_size=[0.9],
           monotonic_trend_x=["ascending"], monotonic_trend_y=["descending"],
           gamma=[0.1], special_codes_x=[[-9.0]], special_codes_y=[[-9.0]],
           split_digits=[4], n_jobs=[2], time_limit=[50])


def alternatives():
    un = dict(_UNI)
    sb = dict(_UNI, monotonic_trend=["ascending", None],
              special_codes=[[-9.0]])
    return {
        "bin": _BIN,
        "con": dict(un, min_mean_diff=[0.01], gamma=[0.2], cat_cutoff=[0.1]),
        "mul": dict(un, solver=["mip"], monotonic_trend=[None, "auto"], min_event_rate_diff=[0.01],
                    mip_solver=["cbc"]),
        "sb": dict(sb, min_event_rate_diff=[0.01],
                   class_weight=["balanced"]),
        "b2d": dict(_D2, divergence=["js"], min_bin_n_nonevent=[1],
                    max_bin_n_event=[50], min_event_rate_diff_x=[0.01]),
        "c2d": dict(_D2, min_mean_diff_x=[0.01], min_mean_diff_y=[0.02]),
        "pw": dict(_ALT, objective=["l1"], degree=[2],
                   prebinning_method=["quantile"], n_subsamples=[30],
                   monotonic_trend=[None], user_splits=[[2.5]],
                   special_codes=[[-9.0]], random_state=[3],
                   regularization=["l2"], reg_l1=[0.5], reg_l2=[0.5],
                   h_epsilon=[1.5], quantile=[0.4],
                   estimator=["logistic"]),
        "cpw": dict(_ALT, objective=["l1"], degree=[2]),
        "sk": {k: v for k, v in dict(
            _BIN, special_codes=[[-9.0]], sketch=["t-digest"], eps=[1e-3, 1e-4], K=[10],
            cat_heuristic=[False]).items() if k not in (
                "class_weight", "user_splits", "prebinning_method",
                "min_prebin_size")},
        "bp": {k: v for k, v in dict(
            _ALT, selection_criteria=[{"iv": {"top": 1}}],
            fixed_variables=[["a"]], categorical_variables=[["c"]],
            special_codes=[[-9.0]],
            binning_fit_params=[{"a": {"max_n_bins": 2}}],
            binning_transform_params=[{"a": {"metric": "event_rate"}}]
        ).items() if k != "name"},
        "bps": {k: v for k, v in dict(
            _ALT, selection_criteria=[{"iv": {"top": 1}}],
            categorical_variables=[["c"]], special_codes=[[-9.0]],
            binning_fit_params=[{"a": {"max_n_bins": 2}}],
        ).items() if k not in ("name", "min_prebin_size")},
        "sc": dict(scaling_method=["min_max"], intercept_based=[True],
                   reverse_scorecard=[True], rounding=[True],
                   verbose=[False]),
        "mo": dict(psi_method=["uniform"], psi_n_bins=[5],
                   psi_min_bin_size=[0.1], show_digits=[3]),
        "cf": dict(special_missing=[True], n_jobs=[2]),
    }


def sample(nrow=60):
    x = np.array([float(i % 6) for i in range(nrow)])
    y = np.array([int((i * 7 + i // 6) % 9 < 2 + i % 6)
                  for i in range(nrow)])
    return x, y


class Spy:
    """sizes of the models solved by OR-tools MIP"""

    def __enter__(self):
        from ortools.linear_solver import pywraplp
        self.s = pywraplp.Solver
        self.old = self.s.Solve
        self.size = []
        spy = self

        def solve(o, *a):
            spy.size.append((o.NumVariables(), o.NumConstraints()))
            return spy.old(o, *a)
        self.s.Solve = solve
        return self

    def __exit__(self, *a):
        self.s.Solve = self.old


def options(ctx, txt, cls, given, defaults=None, sig="option"):
    """the table of options"""
    from sklearn.base import BaseEstimator
    body = txt.split("Begin options\n")[1].split("  End options")[0]
    sg = {k: p.default for k, p in
          inspect.signature(cls.__init__).parameters.items() if k != "self"}
    seen = []
    for ln in body.splitlines():
        z = re.match(r"^    (\S+) +(.*?) +\* (\S)$", ln)
        if not ctx.check(z, "option line {!r}".format(ln), sig):
            continue
        k, v, f = z.groups()
        seen.append(k)
        if k not in sg:
            ctx.check(v in ("no", "None"), "unknown option {}".format(ln),
                      sig)
            continue
        cur = given.get(k, sg[k])
        if cur is None:
            w = "no"
        elif isinstance(cur, (list, np.ndarray, dict, BaseEstimator)) or \
                hasattr(cur, "fit"):
            w = "yes"
        else:
            w = str(cur)
        ctx.check(v == w, "{} shown as {!r} instead of {!r}".format(k, v, w),
                  sig + " " + k)
        if isinstance(cur, (list, np.ndarray, dict)) or hasattr(cur, "fit"):
            d = "U"
        else:
            d = "d" if cur == sg[k] else "U"
        ctx.check(f == d, "{}={!r} flagged {}".format(k, cur, f),
                  sig + " " + k)
    ctx.check(len(seen) == len(set(seen)), "options {}".format(seen), sig)
    for k in given:
        if k in _SHOWN and k != "variable_names":
            ctx.check(k in seen, "option {} not shown".format(k), sig)


_SHOWN = {k for c in alternatives().values() for k in c}


def info(desc, ctx):
    import pandas as pd
    c, p = desc["c"], desc["p"]
    cls = classes()[c]
    val = alternatives()[c][p][desc["i"]]
    if p == "estimator":
        from sklearn.linear_model import LogisticRegression
        val = LogisticRegression()
    kw = {p: val}
    x, y = sample()
    stats, _sizes, opts = {}, None, dict(kw)
    with Spy() as spy:
        if c in ("bin", "con", "mul"):
            t = y if c == "bin" else y + x % 2 if c == "mul" else y + x / 3
            o = cls(**kw).fit(x, t.astype(int) if c != "con" else t)
            stats = {"Name": kw.get("name") or "UNKNOWN",
                     "Status": o.status}
        elif c == "sb":
            if "user_splits" in kw or "prebinning_method" in kw:
                pass
            o = cls(**kw).fit([x, x[:40]], [y, y[:40]])
            stats = {"Name": kw.get("name") or "UNKNOWN",
                     "Status": o.status}
        elif c in ("b2d", "c2d"):
            x2 = np.array([float(i * 5 // 3 % 4) for i in range(60)])
            o = cls(**kw).fit(x, x2, y if c == "b2d" else y + x)
            _n1, _n2 = kw.get("name_x", ""), kw.get("name_y", "")
            stats = {"Status": o.status}
        elif c in ("pw", "cpw"):
            o = cls(**kw).fit(x, y if c == "pw" else y + x / 3)
            stats = {"Name": kw.get("name") or "UNKNOWN",
                     "Status": o.status, "Number of bins": len(o.splits) + 1}
        elif c == "sk":
            o = cls(**kw)
            o.add(x, y)
            o.add(x[:30], y[:30])
            o.solve()
            o.solve()
            stats = {"Name": kw.get("name") or "UNKNOWN", "Status": o.status,
                     "Processed records": 90, "Add operations": 2,
                     "Solve operations": 2}
        elif c in ("bp", "bps"):
            X = pd.DataFrame({"a": x, "b": x[::-1] // 2,
                              "c": [str(int(v)) for v in x]})
            kw = dict(kw)
            if c == "bp":
                o = cls(["a", "b", "c"], **kw).fit(X, y)
            else:
                if "categorical_variables" not in kw:
                    kw["categorical_variables"] = ["c"]
                o = cls(["a", "b", "c"], **kw)
                o.add(X, y)
                o.add(X, y)
                o.solve()
                stats = {"Add operations": 2, "Solve operations": 1}
            opts = dict(kw)
            stats.update({"Number of records": 60 * (2 if c == "bps" else 1),
                          "Number of variables": 3,
                          "Number of selected": sum(o.get_support()),
                          "Number of numerical": 2,
                          "Number of categorical": 1,
                          "Target type": "binary"})
        elif c == "sc":
            v = ["a", "d", "b"]
            X, yy = c20.data(v, "binary")
            bp = c20.process(v, 1)
            if p == "scaling_method":
                kw["scaling_method_params"] = {"min": 0, "max": 100}
            elif p == "rounding":
                kw.update(scaling_method="min_max",
                          scaling_method_params={"min": 0, "max": 100})
            est = c20.Fixed((-0.7, 0.4, 0.3), -0.3, True)
            o = cls(bp, est, **kw).fit(X, yy)
            opts = dict(kw, binning_process=bp, estimator=est)
            stats = {"Number of records": len(X), "Number of variables": 3,
                     "Number of numerical": 2, "Number of categorical": 1,
                     "Number of selected": 3, "Target type": "binary"}
        elif c == "mo":
            sc, v = c21.scorecard("binary", 0)
            X, yy = c20.data(v, "binary")
            o = cls(sc, **kw).fit(X, yy, X, yy)
            opts = dict(kw, scorecard=sc)
        else:
            e = c22.setup("binary", 0)
            o = cls(e["sc"], **kw).fit(e["X"])
            o.generate(query=e["X"].iloc[[0]], y=1, outcome_type="binary",
                       n_cf=1)
            opts = dict(kw, scorecard=e["sc"])
            stats = {"Status": o.status}
        ctx.step()
    for lv in (0, 1, 2):
        txt = printed(o.information, print_level=lv)
        ctx.step()
        ctx.agree()
        if lv == 2:
            options(ctx, txt, cls, opts)
        for k, v in stats.items():
            if lv == 0 and (k.startswith(("Number", "Target", "Proc", "Add",
                                          "Solve")) and k not in
                            ("Number of records", "Number of variables")):
                continue
            got = value(txt, k)
            if lv == 0 and got is None and k in ("Number of bins",):
                continue
            ctx.check(got == str(v), lambda: "information({}): {} {} instead "
                      "of {}".format(lv, k, got, v), "info " + k)
        if c in ("bin", "mul", "b2d", "c2d", "sk", "cf") and lv:
            solved(ctx, txt, kw.get("solver", "mip" if c == "cf" else "cp"),
                   spy)
    with_level = printed(o.information)
    ctx.check(strip(with_level) == strip(printed(o.information,
                                                 print_level=1)),
              "default print level", "info level")
    ctx.outcome([c, p, desc["i"]])


def strip(t):
    return [ln for ln in t.splitlines() if "sec" not in ln and
            "MB" not in ln]


def solved(ctx, txt, solver, spy):
    if "Solver statistics" not in txt:
        return
    ctx.check(value(txt.split("Solver statistics")[1], "Type") == solver,
              "solver type", "info solver")
    if spy.size:
        (value(txt, "Number of constraints"), txt)
        sec = txt.split("Solver statistics")[1]
        nv, nc = value(sec, "Number of variables"), value(
            sec, "Number of constraints")
        ctx.check((nv, nc) == tuple(map(str, spy.size[-1])),
                  lambda: "variables, constraints {} instead of {}".format(
                      (nv, nc), spy.size[-1]), "info mip size")


# --------------------------------------------------------- counterfactual
def cf(desc, ctx):
    e = c22.setup(desc["t"], desc["s"])
    from optbinning.scorecard import Counterfactual
    o = Counterfactual(e["sc"]).fit(e["X"])
    q = e["X"].iloc[[desc["s"]]]
    y, act = desc["y"], "binary"
    if desc["t"] == "continuous":
        y, act = float(np.mean(e["y"])) + (2 * desc["y"] - 1) * 0.5, \
            "continuous"
        kw = dict(hard_constraints=["min_outcome"] if desc["y"] else
                  ["max_outcome"])
    else:
        kw = {}
    with Spy() as spy:
        try:
            o.generate(query=q, y=y, outcome_type=act, n_cf=1,
                       objectives={"proximity": 1, "closeness": 0.5},
                       method="weighted", **kw)
        except Exception as ex:      # subject of C22
            ctx.outcome(type(ex).__name__)
            return
        ctx.step()
    for lv in (0, 1, 2):
        txt = printed(o.information, print_level=lv)
        ctx.agree()
        ctx.check(value(txt, "Status") == o.status, txt, "info cf")
        if lv and o.status in ("OPTIMAL", "FEASIBLE"):
            solved(ctx, txt, "mip", spy)
            sec = txt.split("Objectives")[1]
            ctx.check(value(sec, "proximity") is not None and
                      value(sec, "closeness") is not None, txt, "info cf")
    ctx.outcome([desc["t"], o.status])
