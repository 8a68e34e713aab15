"""C01: every training row is counted exactly once, in the right table row."""
import itertools

import numpy as np
import pandas as pd

from mc import ref

PROPERTY = "C01"
RULE = ("Every dataset of a bounded alphabet (4 clean values/categories with "
        "every combination of per-value class counts, x special-code layout x "
        "missing presence x pre-binning method x sample weights x cat_cutoff) "
        "is fitted with the real OptimalBinning / ContinuousOptimalBinning / "
        "MulticlassOptimalBinning; the binning table is compared row by row "
        "with a recount of the training rows by an independent bin locator.")
ASSUMPTIONS = ["class counts per value limited to the listed pairs",
               "integral sample weights (fractional weighted counts are "
               "truncated to integers by design)"]

VALS = [-1.0, 0.0, 0.5, 2.0]
CATS = ["a", "b", "c", "d"]
SPECIALS = {
    "none": None,
    "list": [-9.0, -8.0],
    "dict": {"first": -9.0, "second": [-8.0, -7.0]},
    "absent": [77.0],
    "nan": [float("nan"), -9.0, -8.0],
    "dictabsent": {"first": [-9.0, -8.0], "never": 55.0},
    "dict0": {"never": [55.0, 56.0]},
    "dict00": {"never": [55.0, 56.0], "neither": 57.0},
}
MIX = {"a": 1, "b": "b", "c": 2.5, "d": False, "s1": -9, "s2": "s2",
       "s3": -7.5}
CSPECIALS = {
    "none": None,
    "list": ["s1", "s2"],
    "dict": {"first": "s1", "second": ["s2", "s3"]},
    "absent": ["zz"],
    "dictabsent": {"first": ["s1", "s2"], "never": "s9"},
    "dict0": {"never": ["s8", "s9"]},
    "dict00": {"never": ["s8", "s9"], "neither": "s7"},
}
SP_ROWS = {"none": [], "nan": [(0, 1, 2), (1, 2, 1)], "list": [(0, 1, 2), (1, 2, 1)],
           "dict": [(0, 1, 2), (1, 2, 1), (2, 1, 0)],
           "absent": [], "dict0": [], "dict00": [], "dictabsent": [(0, 2, 1), (1, 1, 1)]}
NUM_SP = [-9.0, -8.0, -7.0]
CAT_SP = ["s1", "s2", "s3"]
METHODS = ["cart", "quantile", "uniform", "mdlp", "user"]


def tasks(tier):
    pairs = [(1, 1), (3, 1), (1, 3)] if tier == "quick" else \
        [(1, 1), (3, 1), (1, 3), (2, 0), (0, 2)]
    full = list(itertools.product(range(len(pairs)), repeat=4))
    # deviation families: pure values
    pure = [c for c in itertools.product([(1, 1), (3, 1), (2, 0), (0, 2)],
                                         repeat=4)
            if sum(p in ((2, 0), (0, 2)) for p in c) in (1, 2)]
    cells_all = [[pairs[i] for i in c] for c in full]
    if tier == "quick":
        layouts = [("none", 0), ("list", 1), ("dict", 1)]
    else:
        layouts = [(s, m) for s in SPECIALS for m in (0, 1)]
    for sp, miss in layouts:
        for m in METHODS:
            for cells in cells_all:
                yield {"t": "bin", "d": "num", "cells": cells, "sp": sp,
                       "miss": miss, "m": m}
    for sp, miss in [("absent", 0), ("dictabsent", 0), ("dict", 0),
                     ("dict0", 1), ("dict00", 0), ("none", 1), ("list", 0)]:
        for m in METHODS:
            for cells in cells_all[::9] if tier == "quick" else cells_all:
                yield {"t": "bin", "d": "num", "cells": cells, "sp": sp,
                       "miss": miss, "m": m}
    for cells in pure:
        for m in (["cart", "user"] if tier == "quick" else METHODS):
            for dv in ("iv", "js"):
                yield {"t": "bin", "d": "num", "cells": [list(c) for c in cells],
                       "sp": "list", "miss": 1, "m": m, "div": dv}
    # weights / numeric variants
    for cells in cells_all:
        for w in ("int", "unit"):
            for m in ("cart", "user"):
                yield {"t": "bin", "d": "num", "cells": cells, "sp": "dict",
                       "miss": 1, "m": m, "w": w}
    # categorical
    for cells in cells_all + [[list(c) for c in p] for p in pure]:
        for sp, miss in [("none", 0), ("list", 1), ("dict", 1)]:
            for cut in (None, 0.12, 0.2):
                yield {"t": "bin", "d": "cat", "cells": cells, "sp": sp,
                       "miss": miss, "m": "cart", "cut": cut}
    for cells in cells_all:
        for us in ("single", "pairs", "others", "one", "oneothers"):
            yield {"t": "bin", "d": "cat", "cells": cells, "sp": "list",
                   "miss": 1, "m": "user", "us": us}
        yield {"t": "bin", "d": "cat", "cells": cells, "sp": "dict",
               "miss": 1, "m": "cart", "w": "int", "cut": 0.15}
    for cells in [[list(c) for c in p] for p in pure]:
        for us in ("single", "pairs", "others"):
            yield {"t": "bin", "d": "cat", "cells": cells, "sp": "dict",
                   "miss": 1, "m": "user", "us": us}
    # a missing value listed among the special codes; splits out of range
    for cells in cells_all:
        yield {"t": "bin", "d": "num", "cells": cells, "sp": "nan",
               "miss": 1, "m": "cart"}
        for ns in (0, 1, 2, 3):
            yield {"t": "bin", "d": "num", "cells": cells, "sp": "dict",
                   "miss": 1, "m": "user", "ns": ns}
        for dv in ("hellinger", "triangular"):
            yield {"t": "bin", "d": "num", "cells": cells, "sp": "list",
                   "miss": 1, "m": "user", "ns": 3, "div": dv}
    # continuous
    tv = [[1.0, 2.0], [0.0, 0.0, 3.0], [-1.0], [5.0, 5.0, 4.0, 0.0]]
    for c in itertools.product(range(len(tv)), repeat=4):
        for d in ("num", "cat"):
            for sp, miss in [("list", 1), ("dict", 1), ("none", 0)]:
                for m in (("cart", "user") if d == "num" else ("cart",)):
                    yield {"t": "con", "d": d, "cells": [tv[i] for i in c],
                           "sp": sp, "miss": miss, "m": m}
        yield {"t": "con", "d": "cat", "cells": [tv[i] for i in c],
               "sp": "dict", "miss": 1, "m": "cart", "cut": 0.15}
        yield {"t": "con", "d": "cat", "cells": [tv[i] for i in c],
               "sp": "dictabsent", "miss": 0, "m": "user",
               "us": ["single", "pairs", "others", "one"][sum(c) % 4]}
        for d in ("num", "cat"):
            yield {"t": "con", "d": d, "cells": [tv[i] for i in c],
                   "sp": ("dict0", "dict00")[c[0] % 2], "miss": c[1] % 2,
                   "m": "cart"}
        for ns in (0, 1, 2, 3):
            yield {"t": "con", "d": "num", "cells": [tv[i] for i in c],
                   "sp": "dictabsent", "miss": ns % 2, "m": "user", "ns": ns}
        yield {"t": "con", "d": "num", "cells": [tv[i] for i in c],
               "sp": "list", "miss": 1, "m": "quantile"}
        yield {"t": "con", "d": "num", "cells": [tv[i] for i in c],
               "sp": "list", "miss": 1, "m": "cart", "w": "int"}
    # multiclass
    mc = [(1, 1, 1), (3, 1, 0), (0, 2, 3), (2, 0, 2)]
    for c in itertools.product(range(len(mc)), repeat=4):
        for sp, miss in [("list", 1), ("dict", 1), ("none", 0)]:
            for m in ("cart", "user", "quantile"):
                cells = [mc[i] for i in c]
                if all(any(k[cl] for k in cells) for cl in range(3)):
                    yield {"t": "mul", "d": "num", "cells": cells,
                           "sp": sp, "miss": miss, "m": m}
    # containers: same rows as list / pandas Series with a foreign index
    for t, cc in (("bin", [list(c) for c in cells_all[::5]]),
                  ("con", [[tv[i] for i in c] for c in
                           list(itertools.product(range(4), repeat=4))[::9]]),
                  ("mul", [[(1, 1, 1), (3, 1, 0), (0, 2, 3), mc[i]]
                           for i in range(4)])):
        for cells in cc:
            for form in ("list", "series", "int", "nanlist"):
                yield {"t": t, "d": "num", "cells": cells, "sp": "dict",
                       "miss": form != "int", "m": "cart", "form": form}
                if t != "mul" and form != "int":
                    yield {"t": t, "d": "cat", "cells": cells, "sp": "dict",
                           "miss": 1, "m": "cart", "form": form}
                    for us in ("single", "pairs", "others", "oneothers"):
                        yield {"t": t, "d": "cat", "cells": cells, "sp":
                               "dict", "miss": 1, "m": "user", "us": us,
                               "form": "mix"}
    # recorded findings (see known_findings.txt)
    yield {"t": "mul", "d": "num", "cells": [(2, 1, 0), (1, 2, 0), (1, 1, 0),
                                             (0, 2, 0)],
           "sp": "list", "miss": 1, "m": "cart", "finding": 1}
    yield {"t": "con", "d": "num", "cells": [tv[0], tv[1], tv[2], tv[3]],
           "sp": "none", "miss": 0, "m": "cart", "w": "int", "finding": 1}


def dataset(desc):
    """rows: list of (value, y, weight)"""
    num = desc["d"] == "num"
    vals = VALS if num else CATS
    spv = NUM_SP if num else CAT_SP
    rows = []

    def put(v, spec):
        if desc["t"] == "bin":
            for y, k in enumerate(spec):
                rows.extend([(v, y)] * k)
        elif desc["t"] == "con":
            rows.extend((v, y) for y in spec)
        else:
            for y, k in enumerate(spec):
                rows.extend([(v, y)] * k)

    for v, spec in zip(vals, desc["cells"]):
        put(v, spec)
    for (i, a, b) in SP_ROWS[desc["sp"]]:
        put(spv[i], {"bin": (a, b), "con": [2.0] * a + [0.0] * b,
                     "mul": (a, b, 1)}[desc["t"]])
    if desc["miss"]:
        put(float("nan") if num else None,
            {"bin": (2, 1), "con": [7.0, 0.0, -2.0],
             "mul": (1, 2, 1)}[desc["t"]])
    # interleave deterministically so that equal values are not contiguous
    rows = rows[::2] + rows[1::2][::-1]
    x = [r[0] for r in rows]
    y = [r[1] for r in rows]
    w = None
    if desc.get("w") == "int":
        w = [1.0 + (i % 3) for i in range(len(rows))]
    elif desc.get("w") == "unit":
        w = [1.0] * len(rows)
    return x, y, w


def make(desc):
    from optbinning import (ContinuousOptimalBinning,
                            MulticlassOptimalBinning, OptimalBinning)
    num = desc["d"] == "num"
    kw = {"special_codes": (SPECIALS if num else CSPECIALS)[desc["sp"]],
          "min_prebin_size": 0.01}
    if desc.get("form") == "int":
        kw["special_codes"] = {"a": -18, "b": [-16, -14]}
    if desc["m"] == "user":
        if num:
            kw["user_splits"] = {
                None: [-0.5, 0.0, 1.0], 0: [], 1: [0.25], 2: [10.0, 20.0],
                3: [0.25, -5.0, 0.3, 0.2, 9.0]}[desc.get("ns")]
        else:
            us = desc["us"]
            g = {"single": [["a"], ["b"], ["c"], ["d"]],
                 "pairs": [["a", "c"], ["d"], ["b"]],
                 "others": [["b"], ["a", "c"]],
                 "one": [["a", "b", "c", "d"]],
                 "oneothers": [["c", "a"]]}[us]
            arr = np.empty(len(g), dtype=object)
            for i, e in enumerate(g):
                arr[i] = np.array(e, dtype=object)
            kw["user_splits"] = arr
    else:
        kw["prebinning_method"] = desc["m"]
    if desc.get("cut") is not None:
        kw["cat_cutoff"] = desc["cut"]
    if desc.get("div"):
        kw["divergence"] = desc["div"]
    if desc["t"] != "mul":
        kw["dtype"] = "numerical" if num else "categorical"
    cls = {"bin": OptimalBinning, "con": ContinuousOptimalBinning,
           "mul": MulticlassOptimalBinning}[desc["t"]]
    return cls(**kw), kw


def run(desc, ctx):
    x, y, w = dataset(desc)
    num = desc["d"] == "num"
    optb, kw = make(desc)
    form = desc.get("form")
    if form == "mix":       # categories of several types
        x = [MIX.get(v, v) for v in x]
        sc = {k: [MIX[e] for e in v] if isinstance(v, list) else MIX[v]
              for k, v in kw["special_codes"].items()}
        us = np.empty(len(kw["user_splits"]), dtype=object)
        for i, g in enumerate(kw["user_splits"]):
            us[i] = [MIX[e] for e in g]
        kw.update(special_codes=sc, user_splits=us)
        optb.set_params(**kw)
    X = np.array(x, dtype=float) if num else np.array(x, dtype=object)
    Y = np.array(y, dtype=float if desc["t"] == "con" else int)
    if form == "int":
        X = (X * 2).astype(int)
        x = [float(v) for v in X]
    elif form == "list":
        X, Y = list(X), list(Y)
    elif form == "nanlist":
        X = [float("nan") if v is None else v for v in X]
    elif form == "series":
        ix = np.arange(len(x))[::-1] * 3 + 7
        X, Y = pd.Series(X, index=ix), pd.Series(Y, index=ix)
    if w is not None:
        optb.fit(X, Y, sample_weight=np.array(w))
    else:
        optb.fit(X, Y)
    df = optb.binning_table.build(add_totals=True)
    ctx.step(2)
    sc = kw["special_codes"]
    groups = ref.special_groups(sc)
    bins = optb.splits
    if num:
        nb = len(bins) + 1
        sp = [float(s) for s in bins]
        ctx.check(all(a < b for a, b in zip(sp, sp[1:])),
                  "splits not strictly increasing: {}".format(sp), "order")

        def locate(v):
            return ref.bin_of(v, sp)
    else:
        nb = len(bins)
        where = {}
        for i, b in enumerate(bins):
            for c in b:
                ctx.check(c not in where,
                          "category {} in two bins".format(c), "catdup")
                where[c] = i

        def locate(v):
            if v not in where:
                return None
            return where[v]

    ng = len(groups)
    ctx.check(len(df) == nb + ng + 2,
              "table has {} rows, expected {} bins + {} special + missing + "
              "totals".format(len(df), nb, ng), "rows")
    wt = w if w is not None else [1] * len(x)
    acc = [[] for _ in range(nb + ng + 1)]
    for v, t, k in zip(x, y, wt):
        c = ref.classify(v, sc)
        if c == "missing":
            r = nb + ng
        elif c == "clean":
            r = locate(v)
            if r is None:
                ctx.fail("clean value {!r} belongs to no bin".format(v),
                         "nobin")
                return
        else:
            r = nb + c[1]
        acc[r].append((t, k))
    labels = [g[0] for g in groups] + ["Missing"]
    got_labels = [str(b) for b in df["Bin"].values[nb:nb + ng + 1]]
    ctx.check(got_labels == labels, "labels {} expected {}".format(
        got_labels, labels), "labels")
    if num:
        for i in range(nb):
            e = ref.edges(bins)
            lab = str(df["Bin"].values[i])
            want = "{}{:.2f}, {:.2f})".format(
                "(" if i == 0 else "[", e[i], e[i + 1])
            ctx.check(lab == want, "label {} expected {}".format(lab, want),
                      "binlabel")
    tot = 0
    for r, rows in enumerate(acc):
        row = df.iloc[r]
        n = sum(k for _, k in rows)
        tot += n
        ctx.check(row["Count"] == n, lambda: "row {} ({}) Count {} recount {}"
                  .format(r, row["Bin"], row["Count"], n), "count")
        if desc["t"] == "bin":
            e = sum(k for t, k in rows if t == 1)
            ctx.check(row["Event"] == e and row["Non-event"] == n - e,
                      lambda: "row {} ({}) events {}/{} recount {}/{}".format(
                          r, row["Bin"], row["Event"], row["Non-event"], e,
                          n - e), "event")
        elif desc["t"] == "mul":
            if desc.get("finding"):
                continue
            for cl in range(3):
                e = sum(k for t, k in rows if t == cl)
                ctx.check(row["Event_%d" % cl] == e,
                          lambda: "row {} class {}: {} recount {}".format(
                              r, cl, row["Event_%d" % cl], e), "event")
        else:
            s = sum(t * k for t, k in rows)
            ctx.check(ref.close(row["Sum"], s), lambda:
                      "row {} Sum {} recount {}".format(r, row["Sum"], s),
                      "sum")
            if w is not None and not desc.get("finding"):
                continue  # target spread statistics: unweighted fits only
            z = sum(k for t, k in rows if t == 0)
            ctx.check(desc.get("finding") or row["Zeros count"] == z, lambda:
                      "row {} zeros {} recount {}".format(
                          r, row["Zeros count"], z), "zeros")
            if rows:
                ts = [t for t, _ in rows]
                if w is None:
                    mu = sum(ts) / len(ts)
                    sd = (sum((t - mu) ** 2 for t in ts) / len(ts)) ** 0.5
                    ctx.check(ref.close(row["Std"], sd) and
                              ref.close(row["Mean"], mu), lambda:
                              "row {} std/mean {}/{} recount {}/{}".format(
                                  r, row["Std"], row["Mean"], sd, mu), "std")
                ctx.check(ref.close(row["Min"], min(ts)) and
                          ref.close(row["Max"], max(ts)), lambda:
                          "row {} min/max {}/{} recount {}/{}".format(
                              r, row["Min"], row["Max"], min(ts), max(ts)),
                          "minmax")
    t = df.iloc[nb + ng + 1]
    ctx.check(t["Count"] == tot, "Totals count {} != {}".format(
        t["Count"], tot), "totals")
    ctx.state([desc["t"], desc["d"], x and [str(v) for v in x], y,
               desc["sp"], desc["m"], desc.get("cut"), desc.get("w")])
    ctx.outcome([desc["t"], desc["d"], nb, optb.status])
    ctx.agree()
