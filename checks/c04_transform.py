"""C04: transform maps every value to the metric of the bin containing it."""
import itertools
import math

import numpy as np
import pandas as pd

from mc import ref

PROPERTY = "C04"
RULE = ("Every fitted binning of a bounded family (binary, continuous, "
        "multiclass; numerical and categorical; special-code layouts, missing, "
        "cat_cutoff/user split others bins, split_digits, cat_unknown) is "
        "asked to transform a probe vector with every training value, every "
        "split, its two floating point neighbours, infinities, special codes, "
        "undeclared codes, missing and unseen categories, for every metric x "
        "metric_special x metric_missing; each element is compared with the "
        "table row an independent locator assigns to it; reversed and "
        "singleton vectors, other containers and input immutability too.")
ASSUMPTIONS = ["infinite values are passed with check_input=False (default)"]

NUMV = [-1.0, 0.0, 0.5, 2.0]
BP = [(1, 1), (3, 1), (1, 3)]
TV = [[1.0, 2.0], [0.0, 0.0, 3.0], [-1.0, 4.0]]
MV = [(1, 1, 1), (3, 1, 2), (1, 2, 3)]
LAY = {  # name: (numeric codes, categorical codes, rows per code)
    "none": (None, None, []),
    "list": ([-9.0, -8.0], ["s1", "s2"], [0, 1]),
    "dict": ({"first": -9.0, "second": [-8.0, -7.0]},
             {"first": "s1", "second": ["s2", "s3"]}, [0, 2, 1]),
    "empty": ([-9.0], ["s1"], []),
    "dictempty": ({"first": [-9.0], "second": -8.0},
                  {"first": ["s1"], "second": "s2"}, [1]),
    "array": (np.array([-9.0, -8.0]), np.array(["s1", "s2"], dtype=object),
              [0, 1]),
    "dictarray": ({"first": -9.0, "second": np.array([-8.0, -7.0])},
                  {"first": "s1", "second": np.array(["s2", "s3"])},
                  [0, 2, 1]),
}
LAY["dict4"] = ({"d": -9.0, "b": [-8.0, -7.0], "a": -6.0, "c": [-5.0]},
                {"d": "s1", "b": ["s2", "s3"], "a": "s4", "c": ["s5"]},
                [0, 1, 2, 3, 3, 4, 3, 2])
NSP = [-9.0, -8.0, -7.0, -6.0, -5.0]
CSP = ["s1", "s2", "s3", "s4", "s5"]
MS = [0, "empirical", 1.5, -3]


def tasks(tier):
    q = tier == "quick"
    lays = [(s, m) for s in LAY for m in (0, 1)]
    for t in ("bin", "con", "mul"):
        k = 3
        for c in itertools.product(range(k), repeat=4):
            for i, (sp, mi) in enumerate(lays):
                if q and (sum(c) + i) % (4 if t == "bin" else 6):
                    continue
                yield {"t": t, "d": "num", "c": c, "sp": sp, "mi": mi,
                       "m": ("user", "cart")[c[0] == c[1]]}
    for t in ("bin", "con"):
        for c in itertools.product(range(3), repeat=4):
            for i, (sp, mi) in enumerate(lays):
                for j, oth in enumerate((None, "cut", "user", "one")):
                    for l, cu in enumerate((None, 0, 2, 0.25)):
                        if q and (sum(c) + i + 3 * j + 2 * l) % (
                                24 if t == "bin" else 36):
                            continue
                        if not q and (sum(c) + i + j + l) % 3:
                            continue
                        yield {"t": t, "d": "cat", "c": c, "sp": sp,
                               "mi": mi, "oth": oth, "cu": cu}
    for t in ("bin", "con", "mul"):
        for c in itertools.product(range(3), repeat=4):
            if q and sum(c) % 3:
                continue
            yield {"t": t, "d": "num", "c": c, "sp": "dict", "mi": 1,
                   "m": "user", "sd": 1, "cu": 3}
            yield {"t": t, "d": "num", "c": c, "sp": "list", "mi": 0,
                   "m": "none"}
    # pure bins (hellinger keeps none, so they appear as special/missing)
    for c in itertools.product(range(3), repeat=3):
        for pure in ("ev", "ne"):
            for sp in ("list", "dict"):
                yield {"t": "bin", "d": "num", "c": c, "sp": sp, "mi": 1,
                       "m": "user", "pure": pure}


def build(desc):
    from optbinning import (ContinuousOptimalBinning,
                            MulticlassOptimalBinning, OptimalBinning)
    t, cat = desc["t"], desc["d"] == "cat"
    pool = {"bin": [[0] * a + [1] * b for a, b in BP], "con": TV,
            "mul": [[0] * a + [1] * b + [2] * c for a, b, c in MV]}[t]
    x, y = [], []
    vals = ["a", "b", "c", "d"] if cat else NUMV
    for v, k in zip(vals, desc["c"]):
        x += [v] * len(pool[k])
        y += pool[k]
    ncod, ccod, rws = LAY[desc["sp"]]
    small = {"bin": [0, 1, 1], "con": [2.0, 6.0], "mul": [0, 1, 2, 2]}[t]
    if desc.get("pure"):
        small = [1, 1] if desc["pure"] == "ev" else [0, 0, 0]
    for i, r in enumerate(rws):
        v = (CSP if cat else NSP)[r]
        ys = small[:2] if i in (1, 2) else small
        x += [v] * len(ys)
        y += ys
    if desc["mi"]:
        x += [None if cat else float("nan")] * len(small)
        y += small
    kw = dict(special_codes=ccod if cat else ncod, min_prebin_size=0.01,
              monotonic_trend=None)
    if t != "mul":
        kw["cat_unknown"] = desc.get("cu")
    if cat:
        kw["dtype"] = "categorical"
        o = desc["oth"]
        if o == "cut":
            x += ["rare1", "rare2", "rare2"]
            y += [y[0], y[1], y[1]]
            kw["cat_cutoff"] = 0.12
        elif o == "user":
            kw["user_splits"] = np.array([["a", "c"], ["b"]], dtype=object)
        elif o == "one":
            kw["user_splits"] = np.array([["b", "a", "c", "d"]], dtype=object)
    else:
        m = desc["m"]
        if m == "user":
            kw["user_splits"] = [-0.5, 0.25, 0.5] if not desc.get("sd") else \
                [-0.512, 0.23, 0.97]
            if desc.get("sd"):
                kw["split_digits"] = desc["sd"]
        elif m == "none":
            kw["max_n_prebins"] = 2
            kw["min_prebin_size"] = 0.5
    cls = {"bin": OptimalBinning, "con": ContinuousOptimalBinning,
           "mul": MulticlassOptimalBinning}[t]
    if t == "mul":
        kw.pop("dtype", None)
    if "user_splits" in kw and cat:
        # a ragged list of lists, as documented
        kw["user_splits"] = [list(g) for g in kw["user_splits"]]
        us = np.empty(len(kw["user_splits"]), dtype=object)
        for i, g in enumerate(kw["user_splits"]):
            us[i] = g
        kw["user_splits"] = us
    o = cls(**kw)
    xa = np.array(x, dtype=object if cat else float)
    o.fit(xa, np.array(y))
    return o, kw, xa, np.array(y)


def run(desc, ctx):
    o, kw, xa, ya = build(desc)
    ctx.step()
    t, cat = desc["t"], desc["d"] == "cat"
    df = o.binning_table.build(add_totals=False)
    sc = kw["special_codes"]
    groups = ref.special_groups(sc)
    nb = len(df) - len(groups) - 1
    if cat:
        sets = [set(str(v) for v in s) for s in o.splits]
        probes = ["a", "b", "c", "d", "zz", "", "s1", "s2", "s3", "s4", "s5", None,
                  float("nan"), "rare1", "rare2"]
        ctx.check(len(sets) == nb, "{} groups, {} bins".format(len(sets), nb),
                  "nbins")
    else:
        spl = [float(s) for s in o.splits]
        probes = sorted(set(NUMV + [v for s in spl for v in
                                    (s, np.nextafter(s, -np.inf),
                                     np.nextafter(s, np.inf))] +
                            [-np.inf, np.inf, -1e300, 1e300, -9.0, -8.0,
                             -7.0, -6.0, -5.0]))
        probes = [float(v) for v in probes] + [float("nan")]
        ctx.check(len(spl) + 1 == nb, "{} splits, {} bins".format(
            len(spl), nb), "nbins")
    ctx.state([desc["t"], desc["d"], [str(v) for v in o.splits],
               df.iloc[:, 1].tolist(), desc["sp"]])
    where = []       # table row of every probe, None = unknown category
    for v in probes:
        k = ref.classify(v, sc)
        if k == "missing":
            where.append(len(df) - 1)
        elif k != "clean":
            where.append(nb + k[1])
        elif cat:
            w = [i for i, s in enumerate(sets) if v in s]
            ctx.check(len(w) < 2, "category in two bins", "overlap")
            where.append(w[0] if w else None)
        else:
            where.append(ref.bin_of(v, spl))
    # values of the rows
    rows = {}
    labels = [str(b) for b in df["Bin"]]
    if t == "bin":
        rows["woe"] = df["WoE"].tolist()
        rows["event_rate"] = df["Event rate"].tolist()
        te, tn = df["Event"].sum(), df["Non-event"].sum()
        unknown = {"woe": 0.0, "event_rate": te / (te + tn)}
    elif t == "con":
        rows["mean"] = df["Mean"].tolist()
        unknown = {"mean": df["Sum"].sum() / df["Count"].sum()}
    else:
        cnt = df[["Event_0", "Event_1", "Event_2"]].values
        N, tk = cnt.sum(), cnt.sum(axis=0)
        W = [[ref.woe(r[k], r.sum() - r[k], tk[k], N - tk[k])
              for k in range(3)] for r in cnt]
        rows["mean_woe"] = [sum(w) / 3 for w in W]
        rows["weighted_mean_woe"] = [sum(a * b for a, b in zip(w, tk)) / N
                                     for w in W]
        unknown = {}
    rows["indices"] = list(range(len(df)))
    rows["bins"] = labels
    unknown.update(indices=-1, bins="unknown")
    cu = desc.get("cu")
    orig = np.array(probes, dtype=object if cat else float)
    for metric, vals in rows.items():
        if cu is not None and t != "mul":
            # declared type errors of cat_unknown
            bad = (metric == "bins") or (metric == "indices" and
                                         not isinstance(cu, int))
            if bad:
                try:
                    o.transform(orig.copy(), metric=metric)
                    ctx.fail("cat_unknown={} accepted for {}".format(
                        cu, metric), "cu")
                except ValueError:
                    pass
                continue
            unk = cu
        else:
            unk = unknown.get(metric)
        first = True
        for ms, mm in itertools.product(MS, MS):
            if metric in ("bins", "indices") and (ms, mm) not in (
                    (0, 0), ("empirical", "empirical"), (-3, "empirical"),
                    (1.5, -3)):
                continue
            exp = []
            for v, w in zip(probes, where):
                if w is None:
                    e = unk
                elif w < nb:
                    e = vals[w]
                else:
                    opt = mm if w == len(df) - 1 else ms
                    if metric == "bins" or opt == "empirical" or (
                            metric == "indices" and not isinstance(opt, int)):
                        e = vals[w]
                    else:
                        e = opt
                exp.append(e)
            xin = orig.copy()
            got = o.transform(xin, metric=metric, metric_special=ms,
                              metric_missing=mm)
            ctx.step()
            if not same_input(xin, orig):
                ctx.fail("transform modified its input", "mutated")
            bad = diff(got, exp, metric)
            if bad is not None:
                ctx.fail("{} special={} missing={}: value {!r} -> {!r}, "
                         "expected {!r}".format(
                             metric, ms, mm, probes[bad], got[bad],
                             exp[bad]), "value:" + metric)
                return
            if first:
                first = False
                alts = [("reversed", orig[::-1].copy(), exp[::-1])]
                alts.append(("list", list(probes), exp))
                if cat:
                    ix = [i for i, v in enumerate(probes) if v is not None]
                    alts.append(("list with nan", [probes[i] for i in ix],
                                 [exp[i] for i in ix]))
                alts.append(("series", pd.Series(orig.copy(), index=[
                    7 * i % 101 + 1 for i in range(len(orig))]), exp))
                alts += [("single", orig[i:i + 1].copy(), exp[i:i + 1])
                         for i in range(0, len(orig),
                                        1 if metric in ("woe", "mean") else 3)]
                if not cat:
                    iv = [i for i, v in enumerate(probes)
                          if math.isfinite(v) and v == int(v) and
                          abs(v) < 1e9]
                    alts.append(("int array", np.array(
                        [int(probes[i]) for i in iv]), [exp[i] for i in iv]))
                for nm, xx, ee in alts:
                    got = o.transform(xx, metric=metric, metric_special=ms,
                                      metric_missing=mm)
                    ctx.step()
                    bad = diff(got, ee, metric)
                    if bad is not None:
                        ctx.fail("{} input, {}: {!r} -> {!r}, expected {!r}"
                                 .format(nm, metric, list(xx)[bad], got[bad],
                                         ee[bad]), "container:" + nm)
                        return
    # fit_transform equals fit and transform
    m0 = next(iter(rows))
    if cu is None or m0 not in ("bins", "indices"):
        o2, _, _, _ = build(desc)
        a = o2.fit_transform(xa.copy(), ya.copy(), metric=m0,
                             metric_special=1.5, metric_missing="empirical")
        b = o.transform(xa.copy(), metric=m0, metric_special=1.5,
                        metric_missing="empirical")
        if diff(a, list(b), m0) is not None:
            ctx.fail("fit_transform differs from fit and transform", "ft")
    ctx.agree()
    ctx.outcome("{} {} bins={}".format(t, desc["d"], nb))


def diff(got, exp, metric):
    if len(got) != len(exp):
        return 0
    for i, (g, e) in enumerate(zip(got, exp)):
        if metric == "bins":
            if str(g) != str(e):
                return i
        elif not ref.close(g, e, 1e-9, 1e-11):
            return i
    return None


def same_input(a, b):
    if len(a) != len(b):
        return False
    return all((u is w) or (u == w) or (ref.is_nan(u) and ref.is_nan(w))
               for u, w in zip(a, b))
