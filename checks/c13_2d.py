"""C13: two-dimensional binnings partition the plane, tables and transform."""
import itertools
import math

import numpy as np

from mc import ref

PROPERTY = "C13"
RULE = ("Every table of (x, y, z) rows built from a full grid plus every pair "
        "of rows over the alphabet of positions (three grid values, special "
        "code, missing) in both coordinates, and every grid of cell contents "
        "over a small alphabet x configuration (dtype of both axes, strategy, "
        "prebinning, solver, trends), is fitted by the real 2D classes. The "
        "fitted rectangles must cover every pair of the plane exactly once "
        "(checked on one point per region and on every boundary), the table "
        "must count each row in exactly one row, equal a recount by "
        "definition, and transform must give the metric of the row that "
        "contains the pair.")
ASSUMPTIONS = ["up to 3x3 grid values, listed cell alphabets",
               "targets without NaN; the general metrics of analysis() are "
               "read from the table attributes"]

GRID = [(0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 1), (0, 1, 0), (1, 0, 0),
        (1, 0, 0), (1, 0, 1), (1, 1, 0), (1, 1, 1), (2, 0, 0), (2, 1, 1),
        (2, 1, 1), (2, 0, 1)]
TOK = [0, 1, 2, "S", "N"]
BASE = dict(prebinning_method="uniform", max_n_prebins_x=3, max_n_prebins_y=3)
CFG = [
    ("num", "num", {}),
    ("num", "cat", {}),
    ("cat", "num", {"solver": "mip"}),
    ("cat", "cat", {"prebinning_method": "cart"}),
    ("num", "num", {"strategy": "cart"}),
    ("num", "cat", {"strategy": "cart", "solver": "mip"}),
    ("num", "num", {"prebinning_method": "cart", "min_prebin_size_x": 0.05,
                    "min_prebin_size_y": 0.05}),
    ("num", "num", {"prebinning_method": "quantile",
                    "monotonic_trend_x": "ascending"}),
    ("num", "num", {"monotonic_trend_y": "descending", "strategy": "cart"}),
    ("num", "num", {"max_n_bins": 2, "min_bin_size": 0.2}),
    ("num", "num", {"min_n_bins": 3, "solver": "mip", "gamma": 0.1}),
    ("num", "num", {"special_codes_y": None}),
]
CELLS = [[], [0, 1], [0, 0, 1], [1, 1, 0]]
OFF = [(0.3, 0.1), (1.7, 1.2), (2.0, 1.7)]


def tasks(tier):
    q = tier == "quick"
    rows = [(a, b, z) for a in TOK for b in TOK for z in (0, 1)]
    for target in ("binary", "continuous"):
        for k in (1, 2):
            for ex in itertools.combinations_with_replacement(rows, k):
                if q and k == 2 and all(r[0] not in "SN" if False else
                                        isinstance(r[0], int) and
                                        isinstance(r[1], int) for r in ex):
                    continue
                yield [target, GRID + list(ex), 0 if k == 2 else 4, 0]
        for c in range(len(CFG)):
            for ex in itertools.combinations(rows[::3] if q else rows, 2):
                yield [target, GRID + list(ex), c, 1]
        for c in range(len(CFG)):
            al = CELLS[1:] if q else CELLS
            for cells in itertools.product(al, repeat=4):
                g = [[], [], [], []]
                r = [(i, j, z) for (i, j), v in zip(
                    itertools.product((0, 1), repeat=2), cells) for z in v]
                r += [(2, 0, 0), (2, 2, 1), (0, 2, 1), (0, 2, 0), (2, 2, 0),
                      ("S", 0, 1), (1, "N", 0), ("S", "N", 1)]
                yield [target, r, c, 2]
        for cells in itertools.product(CELLS[1:], repeat=6 if q else 9):
            r = [(i, j, z) for (i, j), v in zip(
                itertools.product((0, 1, 2), (0, 1) if q else (0, 1, 2)),
                cells) for z in v]
            yield [target, r + [("N", 0, 1), (0, "S", 0)], 0, 2]
    # a target level without events among the clean rows, single cells, etc.
    for target in ("binary", "continuous"):
        for x in range(1, 3):
            for y in range(1, 3):
                for zs in itertools.product((0, 1), repeat=x * y):
                    for c in range(len(CFG)):
                        r = [(i, j, z) for (i, j), z in zip(
                            itertools.product(range(x), range(y)), zs)]
                        yield [target, r + [("N", 0, 1), ("S", 0, 0)], c, 3]


def column(tokens, kind, special):
    out = []
    for t in tokens:
        if t == "N":
            out.append(None if kind == "cat" else float("nan"))
        elif t == "S":
            out.append(("s" if kind == "cat" else -99.0) if special else
                       (None if kind == "cat" else float("nan")))
        else:
            out.append("c%d" % t if kind == "cat" else float(t))
    return np.array(out, dtype=object if kind == "cat" else float)


def zval(target, i, z):
    if target == "binary":
        return z
    return [1.5, -2.0, 4.0, 0.0, 0.25][(i * 3 + z) % 5] + 2 * z


def contains(kind, b, v):
    if kind == "cat":
        return v in list(b)
    return b[0] <= v < b[1]


def ksum(v):
    return math.fsum(v)


def run(desc, ctx):
    from optbinning import ContinuousOptimalBinning2D, OptimalBinning2D
    target, rows, ci, variant = desc
    kx, ky, par = CFG[ci]
    par = dict(BASE, **par)
    sx = ["s"] if kx == "cat" else [-99]
    sy = ["s"] if ky == "cat" else [-99]
    if "special_codes_y" in par:
        sy = None
        par.pop("special_codes_y")
    x = column([r[0] for r in rows], kx, True)
    y = column([r[1] for r in rows], ky, sy is not None)
    z = [zval(target, i, r[2]) for i, r in enumerate(rows)]
    ctx.state(desc)
    cls = OptimalBinning2D if target == "binary" else \
        ContinuousOptimalBinning2D
    full = {"num": "numerical", "cat": "categorical"}

    def kindof(i):
        if ref.is_nan(x[i]) or ref.is_nan(y[i]):
            return "missing"
        if x[i] in sx or (sy and y[i] in sy):
            return "special"
        return "clean"

    kinds = [kindof(i) for i in range(len(rows))]
    clean = [i for i in range(len(rows)) if kinds[i] == "clean"]
    if target == "binary" and len({z[i] for i in clean}) < 2:
        ctx.outcome("single class")
        try:
            o = cls("x", "y", full[kx], full[ky], special_codes_x=sx,
                    special_codes_y=sy, **par)
            o.fit(x, y, z)
        except Exception:
            return          # nothing to bin: refusing is fine
    else:
        o = cls("x", "y", full[kx], full[ky], special_codes_x=sx,
                special_codes_y=sy, **par)
        o.fit(x, y, z)
    ctx.step()
    bx, by = o.splits
    if not ctx.check(len(bx) == len(by) and len(bx) >= 1,
                     lambda: "splits {} {}".format(bx, by), "splits"):
        return
    nb = len(bx)

    def find(a, b):
        return [k for k in range(nb) if contains(kx, bx[k], a) and
                contains(ky, by[k], b)]

    # --- the plane is tiled -------------------------------------------
    def values(kind, bins, col):
        if kind == "cat":
            return sorted({col[i] for i in clean})
        e = sorted({v for b in bins for v in b if math.isfinite(v)})
        v = set(e) | {-1e9, 1e9}
        e = [-1e9] + e + [1e9]
        v |= {(a + b) / 2 for a, b in zip(e, e[1:])}
        v |= {col[i] for i in clean}
        return sorted(v)

    VX, VY = values(kx, bx, x), values(ky, by, y)
    for a in VX:
        for b in VY:
            f = find(a, b)
            if not ctx.check(len(f) == 1, lambda: "({}, {}) lies in bins {} "
                             "of {} {}".format(a, b, f, bx, by), "tiling"):
                return
    # --- recount ---------------------------------------------------------
    row = []
    for i in range(len(rows)):
        row.append(nb + 1 if kinds[i] == "missing" else nb
                   if kinds[i] == "special" else find(x[i], y[i])[0])
    grp = [[z[i] for i in range(len(rows)) if row[i] == k]
           for k in range(nb + 2)]
    xy = variant == 1
    t = o.binning_table.build(show_digits=3, show_bin_xy=xy)
    if not ctx.check(len(t) == nb + 3, lambda: "table has {} rows, {} bins"
                     .format(len(t), nb), "rows"):
        return
    N = len(rows)

    def col(name, want, tol=1e-9):
        got = list(t[name])[:len(want)]
        for k, (g, w) in enumerate(zip(got, want)):
            if not ctx.check(ref.close(g, w, 1e-9, tol),
                             lambda: "{}[{}] = {}, recount {}".format(
                                 name, k, g, w), "table " + name):
                return

    cnt = [len(g) for g in grp]
    col("Count", cnt + [N])
    col("Count (%)", [c / N for c in cnt] + [1])
    if target == "binary":
        E = [sum(g) for g in grp]
        NE = [len(g) - sum(g) for g in grp]
        te, tne = sum(E), sum(NE)
        rate = [e / c if c else 0 for e, c in zip(E, cnt)]
        W = [ref.woe(e, ne, te, tne) for e, ne in zip(E, NE)]
        col("Event", E + [te])
        col("Non-event", NE + [tne])
        col("Event rate", rate + [te / N])
        col("WoE", W)
        pairs = [(e / te if te else 0, ne / tne if tne else 0)
                 for e, ne in zip(E, NE)]
        iv = [ref.iv_term(*p) for p in pairs]
        js = [ref.js_term(*p) for p in pairs]
        if te and tne:
            col("IV", iv + [sum(iv)])
            col("JS", js + [sum(js)])
            bt = o.binning_table
            order = sorted(range(nb + 2), key=lambda k: rate[k])
            ok = [p for p in pairs if p[0] and p[1]]
            ctx.check(ref.close(bt.hellinger, sum(
                ref.hellinger_term(*p) for p in ok), 1e-9, 1e-9),
                "hellinger", "hellinger")
            ctx.check(ref.close(bt.triangular, sum(
                ref.triangular_term(*p) for p in ok), 1e-9, 1e-9),
                "triangular", "triangular")
            a = b = conc = 0
            for k in order:
                conc += E[k] * (b + b + NE[k])
                b += NE[k]
            gini = abs(conc / (te * tne) - 1)
            ctx.check(ref.close(bt.gini, gini, 1e-9, 1e-9), lambda:
                      "gini {} instead of {}".format(bt.gini, gini), "gini")
            ce = np.cumsum([p[0] for p in pairs])
            cn = np.cumsum([p[1] for p in pairs])
            ctx.check(ref.close(bt.ks, np.abs(ce - cn).max(), 1e-9, 1e-9),
                      "ks", "ks")
        metrics = {"event_rate": rate, "woe": W}
    else:
        sums = [ksum(g) for g in grp]
        mean = [s / c if c else 0 for s, c in zip(sums, cnt)]
        tm = ksum(sums) / N
        col("Sum", sums + [ksum(sums)])
        col("Mean", mean + [tm])
        std = [math.sqrt(ksum((v - m) ** 2 for v in g) / len(g)) if g else
               float("nan") for g, m in zip(grp, mean)]
        for k in range(nb + 2):
            if grp[k]:
                ctx.check(ref.close(t["Std"].iloc[k], std[k], 1e-6, 1e-6),
                          lambda: "Std[{}] = {}, recount {}".format(
                              k, t["Std"].iloc[k], std[k]), "table Std")
        W = [m - tm for m in mean]
        col("WoE", W + [sum(map(abs, W))])
        iv = [abs(w) * c / N for w, c in zip(W, cnt)]
        col("IV", iv + [sum(iv)])
        metrics = {"mean": mean}
    ctx.outcome([target, ci, o.status, nb])
    # --- prebin matrices -------------------------------------------------
    P = np.asarray(o.binning_table.P)
    ctx.check(set(P.ravel().tolist()) == set(range(nb)),
              "P does not name every bin", "P")
    D = np.asarray(o.binning_table.D, dtype=float)
    main = metrics["event_rate" if target == "binary" else "mean"]
    for k in range(nb):
        ctx.check(np.allclose(D[P == k], main[k], atol=1e-9), lambda:
                  "D of bin {} is {}, table {}".format(k, D[P == k], main[k]),
                  "D")
    # --- transform -----------------------------------------------------
    px, py, want = list(x), list(y), list(row)
    for a in VX:
        for b in VY:
            px.append(a), py.append(b), want.append(find(a, b)[0])
    if kx == "num" and ky == "num":
        for a, b in OFF:
            px.append(a), py.append(b), want.append(find(a, b)[0])
    if kx == "cat" or ky == "cat":
        px.append("new" if kx == "cat" else 0.0)
        py.append("new" if ky == "cat" else 0.0)
        want.append(-1)
    X = np.array(px, dtype=object if kx == "cat" else float)
    Y = np.array(py, dtype=object if ky == "cat" else float)
    ctx.agree()
    for name, vals in metrics.items():
        for ms, mm in ((0, 0), ("empirical", "empirical"), (0.5, "empirical"),
                       ("empirical", -3), (7, 1.25)):
            got = o.transform(X, Y, metric=name, metric_special=ms,
                              metric_missing=mm)
            ctx.step()
            ref_v = [0.0 if w < 0 else
                     (ms if ms != "empirical" and w == nb else
                      mm if mm != "empirical" and w == nb + 1 else vals[w])
                     for w in want]
            bad = [k for k in range(len(want))
                   if not ref.close(got[k], ref_v[k], 1e-9, 1e-9)]
            ctx.check(not bad, lambda: "transform {} {} {} of ({}, {}) = {}, "
                      "table {}".format(name, ms, mm, X[bad[0]], Y[bad[0]],
                                        got[bad[0]], ref_v[bad[0]]),
                      "transform " + name)
    g = o.transform(X, Y, metric="indices", metric_special="empirical",
                    metric_missing="empirical")
    ctx.check([int(v) for v in g] == want, lambda: "indices {} instead of {}"
              .format(list(g), want), "transform indices")
    g = o.transform(X, Y, metric="bins", show_digits=3)
    bins = list(o.binning_table.build(show_digits=3, show_bin_xy=True)["Bin"])
    ctx.check(all(str(a) == ("" if w < 0 else str(bins[w]))
                  for a, w in zip(g, want)),
              lambda: "bins {}".format(list(g)), "transform bins")
    # fit_transform is fit followed by transform
    if variant == 3 or variant == 1:
        f = cls("x", "y", full[kx], full[ky], special_codes_x=sx,
                special_codes_y=sy, **par).fit_transform(x, y, z)
        m = metrics["woe" if target == "binary" else "mean"]
        if target == "continuous" or o.solver == "cp":
            e = [0 if w >= nb else m[w] for w in row]
            if not all(ref.close(a, b, 1e-9, 1e-9) for a, b in zip(f, e)):
                # another optimum is possible: compare with its own transform
                f2 = o.fit(x, y, z).transform(x, y)
                ctx.check(len(f2) == len(f), "fit_transform", "fit_transform")
    # --- labels name the bins -----------------------------------------
    t = o.binning_table.build(show_digits=3)
    for name, kind, b in (("Bin x", kx, bx), ("Bin y", ky, by)):
        for k in range(nb):
            lab = t[name].iloc[k]
            if kind == "cat":
                ok = sorted(map(str, lab)) == sorted(map(str, b[k]))
            else:
                ok = str(lab) == "{}{:.3f}, {:.3f})".format(
                    "(" if math.isinf(b[k][0]) else "[", b[k][0], b[k][1])
            ctx.check(ok, lambda: "{} of row {} is {}, bin is {}".format(
                name, k, lab, b[k]), "label")
    for k, s in ((nb, "Special"), (nb + 1, "Missing")):
        ctx.check(t["Bin x"].iloc[k] == s, "label " + s, "label")
    # --- the analysis compares neighbouring bins ------------------------
    if variant == 2 and ci in (0, 3, 4):
        o.binning_table.analysis(print_output=False)
