"""C09: pre-binning limits, user splits and the MDLP recursion."""
import itertools
import math

import numpy as np

from mc import ref
from mc.core import Skip

PROPERTY = "C09"
RULE = ("Every small binary / continuous / multiclass dataset of the alphabet "
        "x pre-binning method x max_n_prebins x min_prebin_size is pre-binned "
        "by the real code; number and size of the prebins, their boundaries "
        "(against independently computed quantiles, equal-width edges, CART "
        "thresholds and a tie-tolerant recursive MDLP reference) and the final "
        "splits (subset of the prebin splits or of the rounded user splits, "
        "fixed splits kept or rejected, non-empty and non-pure consecutive "
        "bins) are checked on every point.")
ASSUMPTIONS = ["CART thresholds are those of scikit-learn with the documented "
               "parameters (scikit-learn is trusted)",
               "MDLP keeps the split at which the stopping rule first holds, "
               "as the library does; ties of the entropy gain are accepted"]

YC = [-2.0, 0.5, 3.0]


def label_vectors(n):
    return list(itertools.product((0, 1), repeat=n))


# x layouts: distinct values, repeated values, skewed
XL = {"d": [0, 1, 2, 3, 4, 5, 6, 7], "t": [0, 0, 1, 1, 2, 2, 3, 3],
      "s": [0, 0, 0, 0, 1, 1, 2, 9], "w": [0.5, 1, 2.25, 4, 4, 8, 16, 16],
      "c": [3, 3, 3, 3, 3, 3, 3, 4], "n": [-5, -4, -3, -3, -1, -1, 0, 2]}


def tasks(tier):
    q = tier == "quick"
    # MDLP recursion
    for lay in XL:
        for y in label_vectors(8):
            for leaf in (1, 2):
                for mc in (32, 2):
                    if q and (leaf, mc) == (1, 2) and lay != "d":
                        continue
                    yield {"k": "mdlp", "x": lay, "y": y, "leaf": leaf,
                           "mc": mc}
    for y in label_vectors(12):
        for m in ((4,) if q else (1, 2, 3, 4, 8)):
            if y[0] and (not q or y[1] != y[10]):
                yield {"k": "mdlp", "x": "12", "y": y, "leaf": 1, "mc": 32,
                       "m": m}
    cells = list(itertools.product((0, 2, 5, 9), (0, 1, 3, 7)))
    for c in itertools.product(cells[1:], repeat=3):
        yield {"k": "mdlp", "x": "cells", "y": c, "leaf": 1, "mc": 32}
    # PreBinning
    for lay in XL:
        for y in label_vectors(8):
            if q and y[0] != y[5] and lay != "t":
                continue
            yield {"k": "pre", "x": lay, "y": y}
        for y in itertools.product(YC, repeat=4):
            yield {"k": "prer", "x": lay, "y": y + y[::-1]}
    # complete fits, binary
    for lay in XL:
        for y in label_vectors(8):
            if 0 < sum(y) < 8:
                yield {"k": "fit", "t": "binary", "x": lay, "y": y}
        for y in itertools.product((0, 1, 2), repeat=4 if q else 6):
            if set(y) == {0, 1, 2}:
                yield {"k": "fit", "t": "multiclass", "x": lay,
                       "y": (y + y + y)[:8]}
        for y in itertools.product(YC, repeat=4 if q else 6):
            yield {"k": "fit", "t": "continuous", "x": lay,
                   "y": (y + y[::-1])[:8]}
    # user splits
    US = [[], [2.5], [1.25, 5.04], [0.0, 3.5], [1.04, 1.26, 6.0], [7.0, 2.5, 0.26],
          [-1.0, 4.0], [4.0, 20.0], [1.24, 1.21], [0.5, 1.5, 2.5, 3.5],
          [2.34, 2.31, 2.26]]
    for us in US:
        for y in label_vectors(8):
            if 0 < sum(y) < 8:
                if q and y[2] == y[6] and len(us) < 3:
                    continue
                for dg in (None, 1):
                    yield {"k": "user", "t": "binary", "us": us, "y": y,
                           "dg": dg}
        for y in itertools.product((0, 1, 2), repeat=4):
            if set(y) == {0, 1, 2}:
                for dg in (None, 1):
                    yield {"k": "user", "t": "multiclass", "us": us,
                           "y": y + y[::-1], "dg": dg}
        for y in itertools.product(YC, repeat=4):
            for dg in (None, 1):
                yield {"k": "user", "t": "continuous", "us": us,
                       "y": y + y[::-1], "dg": dg}
    # categorical user splits with pure / unseen groups
    for y in label_vectors(8):
        if 0 < sum(y) < 8:
            yield {"k": "ucat", "y": y}


def run(desc, ctx):
    {"mdlp": mdlp, "pre": pre, "prer": pre, "fit": fit, "user": user,
     "ucat": ucat}[desc["k"]](desc, ctx)


def xs(desc):
    if desc["x"] == "12":
        return np.repeat(np.array([0, 0, 1, 2, 2, 2, 3, 4, 5, 5, 6, 7],
                                  dtype=float), desc["m"])
    return np.array(XL[desc["x"]], dtype=float)


# --- MDLP ------------------------------------------------------------------
def ent(y):
    n = len(y)
    out = 0.0
    for k in set(y):
        p = y.count(k) / n
        out -= p * math.log(p)
    return out


def mdlp_ref(rows, leaf, depth=0):
    """set of possible split tuples (ties of the gain branch)"""
    vals = sorted({v for v, _ in rows})
    y = [t for _, t in rows]
    n = len(rows)
    best, cands = 0.0, []
    for a, b in zip(vals, vals[1:]):
        ya = {t for v, t in rows if v == a}
        yb = {t for v, t in rows if v == b}
        if len(ya) == 1 and ya == yb:
            continue
        cands.append(0.5 * (a + b))
    scored = []
    for c in cands:
        y1 = [t for v, t in rows if v < c]
        y2 = [t for v, t in rows if v >= c]
        if len(y1) < leaf or len(y2) < leaf:
            continue
        g = ent(y) - (len(y1) * ent(y1) + len(y2) * ent(y2)) / n
        scored.append((g, c, y1, y2))
    if not scored:
        return {()}
    best = max(g for g, *_ in scored)
    if best < -1e-12:
        return {()}
    out = set()
    if best <= 1e-12:
        out.add(())
    for g, c, y1, y2 in scored:
        if g < best - 1e-12:
            continue
        k, k1, k2 = (len(set(a)) for a in (y, y1, y2))
        delta = math.log(3 ** k - 2) - (k * ent(y) - k1 * ent(y1)
                                        - k2 * ent(y2))
        thr = (math.log(n - 1) + delta) / n
        stop = g <= thr or len(vals) < 2
        near = abs(g - thr) < 1e-12
        if stop or near:
            out.add((c,))
        if not stop or near:
            for s1 in mdlp_ref([r for r in rows if r[0] < c], leaf):
                for s2 in mdlp_ref([r for r in rows if r[0] >= c], leaf):
                    out.add(tuple(sorted(s1 + (c,) + s2)))
    return out


def mdlp(desc, ctx):
    from optbinning import MDLP
    if desc["x"] == "cells":
        x = np.repeat(np.arange(3.0), [sum(c) for c in desc["y"]])
        y = np.concatenate([np.repeat([0, 1], c) for c in desc["y"]])
    else:
        x = xs(desc)
        y = np.repeat(np.array(desc["y"]), desc.get("m", 1))
    perm = [(5 * i + 3) % len(x) for i in range(len(x))] \
        if len(x) % 5 else np.roll(np.arange(len(x))[::-1], 3)
    m = MDLP(min_samples_leaf=desc["leaf"], max_candidates=desc["mc"])
    if desc["y"][0] and desc["y"][1]:
        m.fit(-x, y)               # history must not matter
        ctx.step()
    s = tuple(float(v) for v in m.fit(x[perm], y[perm]).splits)
    ctx.step()
    ctx.state([desc["x"], desc["y"], desc["leaf"], desc["mc"],
               desc.get("m", 1)])
    ctx.outcome("mdlp%d" % len(s))
    ctx.check(list(s) == sorted(set(s)), "splits {} not increasing".format(s))
    lo = [ref.bin_of(v, s) for v in x]
    for b in range(len(s) + 1):
        ctx.check(lo.count(b) >= desc["leaf"] or not s,
                  lambda: "mdlp leaf {} has {} rows < {}: {}".format(
                      b, lo.count(b), desc["leaf"], s), "mdlp-leaf")
    if desc["mc"] == 32:
        want = mdlp_ref(list(zip([float(v) for v in x], y.tolist())),
                        desc["leaf"])
        ctx.check(s in want, lambda: "mdlp splits {} not in {}".format(
            s, sorted(want)), "mdlp")
    ctx.agree()


# --- PreBinning ------------------------------------------------------------
def quantile_edges(x, n):
    xs_ = np.sort(x)
    e = []
    for k in range(n + 1):
        p = k / n * (len(xs_) - 1)
        i = int(math.floor(p + 1e-12))
        j = min(i + 1, len(xs_) - 1)
        e.append(float(xs_[i] + (p - i) * (xs_[j] - xs_[i])))
    out = [e[0]]
    for v in e[1:]:
        if v - out[-1] > 1e-8:
            out.append(v)
    return out[1:-1]


def cart_ref(x, y, n, leaf, cls, cw=None, sw=None):
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
    t = (DecisionTreeClassifier(max_leaf_nodes=n, min_samples_leaf=leaf,
                                class_weight=cw) if cls else
         DecisionTreeRegressor(max_leaf_nodes=n, min_samples_leaf=leaf))
    t.fit(x[:, None], y, sample_weight=sw)
    tr = t.tree_
    return t, sorted({float(v) for v, l in zip(tr.threshold,
                                               tr.children_left) if l >= 0})


def pre(desc, ctx):
    from optbinning.binning.prebinning import PreBinning
    x, y = xs(desc), np.array(desc["y"])
    cls = desc["k"] == "pre"
    ptype = "classification" if cls else "regression"
    ctx.state([desc["x"], desc["y"], "pre"])
    sw = np.array([1, 2, 1, 1, 3, 1, 2, 1])
    w = dict(class_weight={0: 1, 1: 3}) if cls else {}
    for n in (2, 3, 5, 20):
        for leaf in (1, 2, 3):
            for kw, s_w in (({}, None), (w, sw)):
                p = PreBinning(ptype, "cart", n, leaf, **kw)
                p.fit(x, y, s_w)
                ctx.step()
                s = [float(v) for v in p.splits]
                # the impurity gain decides which leaves grow first; equal
                # gains may be resolved either way by feature permutation
                _, want = cart_ref(x, y, n, leaf, cls,
                                   kw.get("class_weight"), s_w)
                sizes = [0] * (len(s) + 1)
                for v in x:
                    sizes[ref.bin_of(v, s)] += 1
                ctx.check(len(s) + 1 <= n, "cart n_bins={} gave {}".format(
                    n, s), "cart-n")
                ctx.check(min(sizes) >= leaf, "cart leaf {} < {}".format(
                    sizes, leaf), "cart-leaf")
                ctx.check(np.allclose(s, want) if len(s) == len(want) else
                          False, lambda: "cart splits {} want {}".format(
                              s, want), "cart")
                ctx.agree()
        if n > 5 or (sum(map(bool, desc["y"])) != 4 and cls):
            continue
        for m in ("uniform", "quantile"):
            p = PreBinning(ptype, m, n, 1)
            p.fit(x, y, None)
            ctx.step()
            s = [float(v) for v in p.splits]
            want = ([float(x.min() + k * (x.max() - x.min()) / n)
                     for k in range(1, n)] if m == "uniform" else
                    quantile_edges(x, n))
            ctx.check(len(s) == len(want) and np.allclose(s, want),
                      lambda: "{} n={} splits {} want {}".format(
                          m, n, s, want), m)
            ctx.agree()
            ctx.outcome(m + str(len(s)))


# --- complete fits -----------------------------------------------------------
def klass(t):
    from optbinning import (ContinuousOptimalBinning, MulticlassOptimalBinning,
                            OptimalBinning)
    return {"binary": OptimalBinning, "continuous": ContinuousOptimalBinning,
            "multiclass": MulticlassOptimalBinning}[t]


def final_rules(desc, ctx, o, x, y, t, div, tag):
    """non-empty, non-pure bins; strictly increasing separating splits"""
    s = [float(v) for v in o.splits]
    ctx.check(all(a < b for a, b in zip(s, s[1:])),
              lambda: "{}: splits {} not increasing".format(tag, s),
              "increasing")
    cells = [[] for _ in range(len(s) + 1)]
    for v, w in zip(x, y):
        cells[ref.bin_of(float(v), s)].append(w)
    ctx.check(all(cells), lambda: "{}: empty bin, splits {}".format(tag, s),
              "empty")
    if len(cells) > 1 and t == "binary" and div in ("iv", "js"):
        ctx.check(all(len(set(c)) == 2 for c in cells),
                  lambda: "{}: pure bin, splits {} cells {}".format(
                      tag, s, cells), "pure")
    if len(cells) > 1 and t == "multiclass":
        ctx.check(all(len(set(c)) == len(set(y)) for c in cells),
                  lambda: "{}: bin without a class, {} {}".format(
                      tag, s, cells), "pure")
    return s, cells


def member(v, pool, tol=1e-9):
    return any(abs(v - p) <= tol for p in pool)


def fit(desc, ctx):
    from optbinning.binning.prebinning import PreBinning
    t = desc["t"]
    x, y = xs(desc), np.array(desc["y"])
    # two copies, the second rotated: 16 rows with mixed cells
    x = np.concatenate([x, x])
    y = np.concatenate([y, np.roll(y, 1)])
    ctx.state([desc["x"], desc["y"], t, "fit"])
    for meth, n, size, dg, div in (
            ("cart", 20, 0.05, None, "iv"), ("cart", 3, 0.2, None, "js"),
            ("cart", 4, 0.125, 0, "hellinger"),
            ("quantile", 4, 0.05, None, "iv"),
            ("quantile", 5, 0.3, 1, "triangular"),
            ("uniform", 5, 0.05, None, "iv"), ("uniform", 3, 0.3, 0, "js"),
            ("mdlp", 20, 0.05, None, "iv"), ("mdlp", 20, 0.2, 1, "iv")):
        if meth == "mdlp" and t != "binary":
            continue
        kw = dict(prebinning_method=meth, max_n_prebins=n,
                  min_prebin_size=size, split_digits=dg,
                  monotonic_trend=None)
        if t == "binary":
            kw["divergence"] = div
        o = klass(t)(**kw)
        o.fit(x, y)
        ctx.step()
        tag = "{} {} n={} size={} dg={}".format(t, meth, n, size, dg)
        s, cells = final_rules(desc, ctx, o, x, y, t, div, tag)
        p = PreBinning("regression" if t == "continuous" else
                       "classification", meth, n, int(math.ceil(size * 16)))
        p.fit(x, y, None)
        pool = [float(v) for v in p.splits]
        if dg is not None:
            pool = [round(v, dg) for v in pool]
        ctx.check(all(member(v, pool) for v in s),
                  lambda: "{}: splits {} not among {}".format(tag, s, pool),
                  "subset")
        if meth != "mdlp":
            ctx.check(len(s) + 1 <= n, lambda: "{}: {} bins".format(
                tag, len(s) + 1), "n")
        if meth in ("cart", "mdlp") and dg is None:
            ctx.check(min(map(len, cells)) >= math.ceil(size * 16),
                      lambda: "{}: bin sizes {}".format(
                          tag, list(map(len, cells))), "size")
        ctx.agree()
        ctx.outcome([t, meth, len(s)])


UX = np.array([0, 1, 2, 3, 4, 5, 6, 7], dtype=float)


def user(desc, ctx):
    t, us, dg = desc["t"], desc["us"], desc["dg"]
    y = np.array(desc["y"])
    x = np.concatenate([UX, UX, UX])
    y = np.concatenate([y, np.roll(y, 1), y])
    ctx.state([us, desc["y"], t, dg])
    pool = [round(v, dg) if dg is not None else v for v in us]
    for k, fixed in enumerate([None] + list(itertools.product(
            (False, True), repeat=len(us)))):
        if fixed is not None and not any(fixed):
            continue
        if len(us) > 2 and fixed is not None and sum(fixed) not in (
                1, len(us)):
            continue
        div = ("iv", "hellinger")[k % 2] if t == "binary" else "iv"
        kw = dict(user_splits=list(us), split_digits=dg, monotonic_trend=None)
        if t == "binary":
            kw["divergence"] = div
        if fixed is not None:
            kw["user_splits_fixed"] = list(fixed)
        o = klass(t)(**kw)
        ctx.step()
        tag = "{} user {} fixed {} dg {} {}".format(t, us, fixed, dg, div)
        try:
            o.fit(x, y)
        except ValueError as e:
            if fixed is None or "removed" not in str(e):
                raise
            # a rejected fixed split must really yield an inadmissible prebin
            cells = [[] for _ in range(len(us) + 1)]
            for v, w in zip(x, y):
                cells[ref.bin_of(float(v), sorted(pool))].append(w)
            need = 1 if t == "continuous" or div == "hellinger" else \
                len(set(y.tolist()))
            ctx.check(any(len(set(c)) < need for c in cells),
                      "{}: rejected without reason".format(tag), "reject")
            ctx.outcome("rejected")
            continue
        s, cells = final_rules(desc, ctx, o, x, y, t, div, tag)
        ctx.check(all(member(v, pool) for v in s), lambda:
                  "{}: splits {} not among {}".format(tag, s, pool), "subset")
        if fixed is not None and o.status in ("OPTIMAL", "FEASIBLE"):
            for f, v in zip(fixed, pool):
                if f:
                    ctx.check(member(v, s), lambda: "{}: fixed split {} not "
                              "in {}".format(tag, v, s), "fixed")
        ctx.agree()
        ctx.outcome([t, len(s), str(o.status)])


def ucat(desc, ctx):
    """categorical user groups, including groups never seen in the data"""
    y = np.array(desc["y"])
    x = np.array(list("aabbccdd"), dtype=object)
    ctx.state(["ucat", desc["y"]])
    for groups in (["a"], ["b", "c"], ["d"]), (["a", "b"], ["c", "d"]), \
            (["z"], ["a", "c"], ["b", "d"]), (["a", "z"], ["b"], ["c", "d"]):
        us = np.empty(len(groups), dtype=object)
        us[:] = [np.array(g, dtype=object) for g in groups]
        for t in ("binary", "continuous"):
            o = klass(t)(dtype="categorical", user_splits=us,
                         monotonic_trend=None)
            o.fit(x, y if t == "binary" else y.astype(float))
            ctx.step()
            got = [frozenset(map(str, g)) for g in o.splits]
            known = set("abcd")
            flat = [c for g in got for c in g if c in known]
            ctx.check(len(flat) == len(set(flat)) and set(flat) == known,
                      lambda: "{} {}: groups {}".format(t, groups, got),
                      "ucat")
            for g in groups:
                gs = set(g) & known
                ctx.check(any(gs <= h for h in got),
                          lambda: "{}: user group {} split in {}".format(
                              t, g, got), "ucat-split")
            if t == "binary" and len(got) > 1:
                for h in got:
                    cls = {int(b) for a, b in zip(x, y) if a in h}
                    ctx.check(len(cls) == 2, lambda: "{}: pure group {} in "
                              "{}".format(groups, h, got), "ucat-pure")
            ctx.agree()
            ctx.outcome(["ucat", t, len(got)])
