"""C10: fit is a pure function of its arguments."""
import copy
import itertools

import numpy as np
import pandas as pd

from mc import sig

PROPERTY = "C10"
RULE = ("(1) Every sequence of operations (fits of several datasets, failing "
        "fits, fit_transform, transform, table build, analysis, information) "
        "up to the depth bound is executed on one object of every binning "
        "class; afterwards every dataset is fitted and the complete observable "
        "result is compared with that of a fresh object. (2) Every row "
        "permutation of small datasets, (3) every integer weight vector "
        "(against repeated rows), (4) every container type and (5) every "
        "dataset/configuration for fit_transform and argument immutability is "
        "compared likewise.")
ASSUMPTIONS = ["equality of floating point results up to 1e-9 relative (1e-6 for the "
               "piecewise binning)",
               "the order of the categories inside the label of the others "
               "bin is not compared under row permutations"]

nan = float("nan")
MET = {"bin": "woe", "con": "mean", "mul": "mean_woe", "b2d": "woe",
       "c2d": "mean", "pw": "woe", "cpw": None}


def klass(k):
    import optbinning as ob
    return {"bin": ob.OptimalBinning, "con": ob.ContinuousOptimalBinning,
            "mul": ob.MulticlassOptimalBinning, "b2d": ob.OptimalBinning2D,
            "c2d": ob.ContinuousOptimalBinning2D, "pw": ob.OptimalPWBinning,
            "cpw": ob.ContinuousOptimalPWBinning}[k]


X1 = [1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, -9, -9, nan, nan]
X2 = [5, 5, 5, 1, 1, 1, 3, 3, 9, 9, 2, 2, 8, 8, 8, 4]
X3 = [0.5, 0.5, 0.5, 0.5, 1.5, 1.5, 1.5, 1.5, nan, -9, -8, 2.5, 2.5, 2.5]
Y1 = [0, 1, 0, 0, 1, 0, 1, 0, 1, 1, 0, 1, 1, 0, 1, 0, 0, 1]
Y2 = [0, 1, 1, 0, 0, 1, 0, 1, 0, 1, 1, 1, 0, 0, 1, 0]
Y3 = [0, 0, 0, 1, 0, 1, 0, 1, 1, 0, 1, 1, 1, 1]
C1 = ["a", "b", "c", "a", "b", "c", "a", "d", "a", "b", "b", "c", "e", "a",
      "s", "s", None, "c"]
C2 = ["z", "y", "z", "y", "z", "y", "a", "a", "z", "y", "y", "z", "z", "x",
      "s", "y"]
V1 = [3, 7, 1, 2, 5, 6, 6, 1, 8, 9, 2, 0, 4, 4, 1, 3, 7, -2]
V2 = [1, 0, 0, 2, 5, 5, 9, 8, 7, 3, 3, 3, -1, -4, 2, 6]
V3 = [2, 3, 1, 2, 8, 8, 9, 7, 0, 1, 4, 5, 4, 6]
W1 = [2, 1, 2, 3, 1, 1, 3, 2, 3, 1, 2, 3, 2, 1, -9, 1, nan, nan]
W2 = [1, 1, 2, 2, 1, 2, 2, 1, 1, 2, 2, 1, 1, 2, 2, 2]
W3 = [5, 6, 6, 5, 5, 6, 5, 6, 5, 5, -9, nan, 6, 5]
M1 = [0, 1, 2, 0, 1, 2, 2, 1, 0, 1, 2, 2, 0, 1, 2, 0, 1, 2]
M2 = [0, 1, 1, 0, 1, 0, 0, 1, 0, 1, 1, 1, 0, 0, 1, 1]
M3 = [2, 0, 1, 2, 0, 1, 2, 0, 1, 2, 0, 1, 2, 0]


def D(k, i, cat=False):
    """dataset i of a class: tuple of positional arguments"""
    X = [C1, C2, C1[::-1]][i] if cat else [X1, X2, X3][i]
    X = np.array(X, dtype=object if cat else float)
    Y = {"bin": [Y1, Y2, Y3], "mul": [M1, M2, M3], "pw": [Y1, Y2, Y3],
         "con": [V1, V2, V3], "cpw": [V1, V2, V3]}
    if k in ("b2d", "c2d"):
        W = np.array([W1, W2, W3][i], dtype=float)
        Z = np.array([[Y1, Y2, Y3], [V1, V2, V3]][k == "c2d"][i])
        return X, W, Z
    yy = Y[k][i]
    if k == "mul":
        # every value with every class, so that the bins are not refined away
        n = max(yy) + 1
        X = np.concatenate([X, X, X])
        yy = yy + [(v + 1) % n for v in yy] + [
            (v + 2) % n if j % 3 else v for j, v in enumerate(yy)]
    if cat:
        yy = (yy + yy)[:len(X)]
    return X, np.array(yy)


CFG = {
    "bin": {
        "d": dict(min_prebin_size=0.05),
        "h": dict(divergence="hellinger", special_codes=[-9.0, -8.0],
                  min_prebin_size=0.05, max_pvalue=0.9),
        "m": dict(prebinning_method="mdlp", special_codes={"a": -9.0,
                                                           "b": [-8.0]}),
        "u": dict(user_splits=[2.5, 1.25, 5.5], special_codes=[-9.0],
                  user_splits_fixed=[False, False, False], split_digits=1),
        "f": dict(user_splits=[4.5, 1.0], user_splits_fixed=[True, False]),
        "w": dict(class_weight="balanced", min_prebin_size=0.05,
                  prebinning_method="quantile", max_n_prebins=4),
        "o": dict(outlier_detector="range", min_prebin_size=0.05,
                  solver="mip"),
        "c": dict(dtype="categorical", cat_cutoff=0.15, special_codes=["s"]),
        "cu": dict(dtype="categorical", special_codes=["s"],
                   user_splits=[["a", "z"], ["b", "y"], ["c", "d", "x"]])},
    "con": {
        "d": dict(min_prebin_size=0.05),
        "s": dict(special_codes={"a": -9.0, "b": [-8.0]}, max_n_bins=3,
                  min_prebin_size=0.05),
        "u": dict(user_splits=[2.5, 1.25, 5.5], special_codes=[-9.0],
                  user_splits_fixed=[False, True, False], split_digits=1),
        "o": dict(outlier_detector="zscore", monotonic_trend="ascending",
                  prebinning_method="uniform", max_n_prebins=4),
        "c": dict(dtype="categorical", cat_cutoff=0.15, special_codes=["s"]),
        "cu": dict(dtype="categorical", special_codes=["s"],
                   user_splits=[["a", "z"], ["b", "y"], ["c", "d", "x"]])},
    "mul": {
        "d": dict(min_prebin_size=0.05),
        "s": dict(special_codes={"a": -9.0, "b": [-8.0]}, solver="mip",
                  min_prebin_size=0.05),
        "u": dict(user_splits=[2.5, 5.5], special_codes=[-9.0],
                  user_splits_fixed=[False, False]),
        "o": dict(outlier_detector="range", monotonic_trend="auto",
                  prebinning_method="quantile", max_n_prebins=3)},
    "b2d": {
        "d": dict(max_n_prebins_x=3, max_n_prebins_y=2,
                  min_prebin_size_x=0.05, min_prebin_size_y=0.05),
        "s": dict(special_codes_x=[-9.0], special_codes_y=[-9.0],
                  max_n_prebins_x=4, max_n_prebins_y=3, strategy="cart")},
    "c2d": {
        "d": dict(max_n_prebins_x=3, max_n_prebins_y=2,
                  min_prebin_size_x=0.05, min_prebin_size_y=0.05),
        "s": dict(special_codes_x=[-9.0], special_codes_y=[-9.0],
                  max_n_prebins_x=4, max_n_prebins_y=3, strategy="cart")},
    "pw": {
        "d": dict(min_prebin_size=0.1, max_n_prebins=4),
        "s": dict(special_codes={"a": -9.0, "b": [-8.0]}, max_n_prebins=3,
                  continuous=False, monotonic_trend=None),
        "u": dict(user_splits=[2.5, 1.25], special_codes=[-9.0],
                  n_subsamples=10, random_state=0)},
    "cpw": {
        "d": dict(min_prebin_size=0.1, max_n_prebins=4),
        "s": dict(special_codes={"a": -9.0, "b": [-8.0]}, max_n_prebins=3,
                  continuous=False, monotonic_trend=None),
        "o": dict(outlier_detector="range", user_splits=[2.5, 1.25])},
}
OPS = ["F0", "F1", "F2", "G1", "T", "B", "A", "I", "E0", "E1", "E2"]


def iscat(k, c):
    return CFG[k][c].get("dtype") == "categorical"


def tasks(tier):
    q = tier == "quick"
    for k in CFG:
        for c in CFG[k]:
            slow = k in ("pw", "cpw", "b2d", "c2d")
            deep = [(a,) for a in OPS]
            ops = ["F0", "F1", "F2", "E2"] if slow and q else OPS
            deep += itertools.product(ops, repeat=2)
            if not slow or not q:
                deep += itertools.product(["F0", "F1", "F2", "E2"], repeat=3)
            if not q and not slow:
                deep += itertools.product(OPS, repeat=3)
            for seq in deep:
                yield {"k": "hist", "t": k, "c": c, "seq": seq}
    for k in ("bin", "con", "mul"):
        for c in CFG[k]:
            if c in ("w", "o") and k == "bin":
                continue
            perms = itertools.permutations(range(6 if q else 7))
            for i, p in enumerate(perms):
                if q and i % 3 and k != "bin":
                    continue
                yield {"k": "perm", "t": k, "c": c, "p": p}
    for k in ("b2d", "c2d", "pw", "cpw"):
        for c in CFG[k]:
            if "n_subsamples" in CFG[k][c]:
                continue        # a random subset depends on the row order
            for p in itertools.permutations(range(4 if q else 5)):
                yield {"k": "perm", "t": k, "c": c, "p": p}
    for c in ("d", "h", "u", "c", "cu"):
        for w in itertools.product((1, 2, 3), repeat=5 if q else 7):
            yield {"k": "wt", "t": "bin", "c": c, "w": w}
    for c in ("d", "u", "s", "c"):
        for w in itertools.product((1, 2, 3), repeat=5 if q else 7):
            if q and w[0] == 3:
                continue
            yield {"k": "wt", "t": "con", "c": c, "w": w}
    for k in CFG:
        for c in CFG[k]:
            for i in range(3):
                yield {"k": "cont", "t": k, "c": c, "i": i}


def run(desc, ctx):
    {"hist": hist, "perm": perm, "wt": wt, "cont": cont}[desc["k"]](desc, ctx)


# --- observation -------------------------------------------------------------
def probe(k, cat, i=0):
    if cat:
        return (np.array(["a", "b", "c", "d", "e", "x", "y", "z", "s", None],
                         dtype=object),)
    x = np.array([0, 0.5, 1, 1.25, 1.3, 2, 2.5, 3, 4.5, 5, 5.5, 8, 20, -9, -8,
                  nan])
    if k in ("b2d", "c2d"):
        w = np.array([1, 1.5, 2, 2.5, 3, 5, 5.5, 6, -9, nan])
        g = list(itertools.product(x[::2], w))
        return (np.array([a for a, _ in g]), np.array([b for _, b in g]))
    return (x,)


def observe(k, cat, o, order=True):
    """everything a user can see of a fitted object"""
    out = []
    df = sig.guard(lambda: o.binning_table.build())
    if isinstance(df, pd.DataFrame) and not order and "Bin" in df.columns:
        df = df.copy()
        df["Bin"] = ["|".join(sorted(map(str, b))) if isinstance(
            b, (list, np.ndarray)) else str(b) for b in df["Bin"]]
    out.append(df)
    out.append(str(getattr(o, "status", "")))
    if k not in ("b2d", "c2d"):
        sp = o.splits
        out.append([sorted(map(str, s)) for s in sp] if cat and not order
                   else sp)
    pr = probe(k, cat)
    if MET[k]:
        for ms, mm in ((0, 0), ("empirical", "empirical")):
            out.append(sig.guard(lambda: o.transform(
                *pr, metric=MET[k], metric_special=ms, metric_missing=mm)))
        out.append(sig.guard(lambda: o.transform(*pr, metric="bins"))
                   if k in ("bin", "con", "mul") and order else "")
    else:
        out.append(sig.guard(lambda: o.transform(
            *pr, metric_special="empirical", metric_missing="empirical")))
    return out


FRESH = {}


def TOL(k):
    """the piecewise fits are solutions of a numerical optimiser"""
    return 1e-6 if k in ("pw", "cpw") else 1e-9


def params(k, c):
    kw = copy.deepcopy(CFG[k][c])
    if k in ("bin", "con", "mul") and c in ("d", "h", "u", "c", "cu", "f"):
        kw.setdefault("monotonic_trend", "auto" if k != "bin" else
                      "ascending")
    return kw


def attempt(k, o, args):
    """fit; the outcome (None or the error class) is part of the result"""
    try:
        o.fit(*args)
        return None
    except (ValueError, TypeError, IndexError, AttributeError,
            ZeroDivisionError) as e:
        return type(e).__name__


def fresh(k, c, i):
    key = (k, c, i)
    if key not in FRESH:
        o = klass(k)(**params(k, c))
        err = attempt(k, o, D(k, i, iscat(k, c)))
        if err not in (None, "ValueError"):
            # a crash is not an answer: let it surface
            o.fit(*D(k, i, iscat(k, c)))
        FRESH[key] = err if err else observe(k, iscat(k, c), o)
    return FRESH[key]


def apply(op, k, c, o, st):
    """st: index of the dataset the object is fitted on (None: unknown)"""
    cat = iscat(k, c)
    a = int(op[1]) if len(op) > 1 else 0
    if op[0] == "F":
        st["ok"] = attempt(k, o, D(k, a, cat)) is None
    elif op[0] == "G":
        try:
            o.fit_transform(*D(k, a, cat))
            st["ok"] = True
        except ValueError:
            st["ok"] = False
    elif op[0] == "E":
        X = list(D(k, 0, cat))
        if op == "E0":      # inconsistent lengths
            X[-1] = X[-1][:-1]
        elif op == "E1":    # nothing but missing values
            X[0] = np.array([None if cat else nan] * len(X[0]),
                            dtype=object if cat else float)
        else:               # a single class / constant target
            X[-1] = np.ones_like(X[-1])
        try:
            o.fit(*X, **({"check_input": True} if op == "E0" else {}))
            st["ok"] = True
        except Exception:   # noqa: which error is not the point here
            st["ok"] = False
    elif st["ok"]:
        if op == "T":
            o.transform(*probe(k, cat))
        elif op == "B":
            sig.guard(lambda: o.binning_table.build(show_digits=1,
                                                    add_totals=False)
                      if k not in ("b2d", "c2d") else
                      o.binning_table.build(show_digits=1))
        elif op == "A":
            sig.guard(lambda: o.binning_table.build())
            sig.guard(lambda: o.binning_table.analysis(print_output=False))
        elif op == "I":
            o.information(print_level=2)


def hist(desc, ctx):
    k, c = desc["t"], desc["c"]
    cat = iscat(k, c)
    o = klass(k)(**params(k, c))
    st = {"ok": False}
    for op in desc["seq"]:
        apply(op, k, c, o, st)
        ctx.step()
        ctx.state([k, c, desc["seq"], op])
    for i in range(3):
        if desc["seq"][-1] == "F%d" % i:
            continue
        want = fresh(k, c, i)
        err = attempt(k, o, D(k, i, cat))
        got = err if err else observe(k, cat, o)
        ctx.step()
        d = sig.same(got, want, TOL(k))
        ctx.check(d is None, lambda: "{} {} after {} then F{}: {}".format(
            k, c, list(desc["seq"]), i, d), "hist:%s:%s" % (k, c))
        ctx.agree()
        ctx.outcome([k, c, i, err])
        break_after = desc["seq"][-1] not in ("E2", "F0", "F1", "F2")
        if break_after:
            break


# --- rows in any order -------------------------------------------------------
def permute(a, p):
    """a permutation of blocks: row j goes with block j % len(p)"""
    n, m = len(a), len(p)
    idx = [i for b in p for i in range(n) if i % m == b]
    return a[np.array(idx)]


def perm(desc, ctx):
    k, c = desc["t"], desc["c"]
    cat = iscat(k, c)
    i = sum(a * b for a, b in enumerate(desc["p"])) % 3
    base = "perm-base", k, c, i
    args = D(k, i, cat)
    if base not in FRESH:
        o = klass(k)(**params(k, c))
        err = attempt(k, o, args)
        FRESH[base] = err or observe(k, cat, o, False)
    o = klass(k)(**params(k, c))
    err = attempt(k, o, [permute(a, desc["p"]) for a in args])
    ctx.step()
    ctx.state([k, c, desc["p"]])
    d = sig.same(err or observe(k, cat, o, False), FRESH[base],
                 TOL(k))
    ctx.check(d is None, lambda: "{} {} dataset {} rows permuted {}: {}"
              .format(k, c, i, desc["p"], d), "perm:%s:%s" % (k, c))
    ctx.agree()
    ctx.outcome([k, c, err])


# --- weights -----------------------------------------------------------------
def wt(desc, ctx):
    k, c, w = desc["t"], desc["c"], desc["w"]
    cat = iscat(k, c)
    kw = params(k, c)
    kw["min_prebin_size"] = 1e-6
    kw.pop("cat_cutoff", None)
    args = D(k, 0, cat)
    n = len(args[0])
    if k == "con":      # no ties between candidate splits
        args = (args[0], args[1] + 0.37 * np.sqrt(np.arange(2, n + 2)))
    sw = np.array([w[(3 * i) % len(w)] for i in range(n)])
    o = klass(k)(**kw)
    sw0 = sw.copy()
    o.fit(*args, sample_weight=sw)
    r = klass(k)(**kw)
    r.fit(*[np.repeat(a, sw) for a in args])
    ctx.step(2)
    ctx.state([k, c, w])
    a, b = observe(k, cat, o), observe(k, cat, r)
    d = sig.same(a, b)
    ctx.check(d is None, lambda: "{} {} weights {} vs repetition: {}".format(
        k, c, w, d), "wt:%s:%s" % (k, c))
    ctx.check((sw == sw0).all(), "sample_weight was modified", "wt-mod")
    if len(set(w)) == 1:
        u = klass(k)(**kw)
        u.fit(*args)
        v = klass(k)(**kw)
        v.fit(*args, sample_weight=np.ones(n))
        d = sig.same(observe(k, cat, u), observe(k, cat, v))
        ctx.check(d is None, lambda: "{} {} unit weights: {}".format(k, c, d),
                  "unit")
    ctx.agree()
    ctx.outcome([k, c, len(b[0])])


# --- containers, immutability, fit_transform ---------------------------------
def cont(desc, ctx):
    k, c, i = desc["t"], desc["c"], desc["i"]
    cat = iscat(k, c)
    args = D(k, i, cat)
    want = fresh(k, c, i)
    if isinstance(want, str):
        return
    n = len(args[0])

    def series(a):
        return pd.Series(a, index=[(7 * j) % n + 100 for j in range(n)]
                         if n % 7 else range(n, 0, -1))

    def nanlist(a):
        return [nan if v is None else v for v in a]

    def ro(a):
        a = a.copy()
        a.flags.writeable = False
        return a

    for name, f in (("array", np.copy), ("list", list), ("series", series),
                    ("nanlist", nanlist), ("readonly", ro), ("strided", lambda a: np.repeat(
                        a, 2)[::2]),
                    ("f32", lambda a: a.astype(np.float32) if a.dtype.kind ==
                     "f" else a)):
        conv = [f(a) for a in args]
        keep = copy.deepcopy(conv)
        kw = params(k, c)
        kw0 = copy.deepcopy(kw)
        for chk in (False, True):
            o = klass(k)(**kw)
            o.fit(*conv, check_input=chk)
            ctx.step()
            if name == "f32":
                continue
            d = sig.same(observe(k, cat, o), want, TOL(k))
            ctx.check(d is None, lambda: "{} {} container {} check={}: {}"
                      .format(k, c, name, chk, d), "cont:%s:%s" % (k, name))
            ctx.check(sig.same(conv, keep) is None,
                      "{} {} {}: input modified".format(k, c, name), "input")
            ctx.check(sig.same(kw, kw0) is None,
                      lambda: "{} {}: parameter object modified {} {}".format(
                          k, c, kw, kw0), "params")
            gp = o.get_params()
            ctx.check(all(sig.same(gp[p], kw0[p]) is None for p in kw0),
                      "{} {}: get_params changed".format(k, c), "get_params")
            ctx.agree()
        o = klass(k)(**kw)
        m = {"metric": MET[k]} if MET[k] else {}
        for ms, mm in (("empirical", "empirical"), (3.5, -5.25),
                       ("empirical", 2.25), (-1.5, "empirical")):
            a = o.fit_transform(*conv, metric_special=ms, metric_missing=mm,
                                **m)
            b = o.transform(*conv[:len(probe(k, cat))], metric_special=ms,
                            metric_missing=mm, **m)
            ctx.step(2)
            d = sig.same(np.asarray(a), np.asarray(b))
            ctx.check(d is None, lambda: "{} {} {} fit_transform: {}".format(
                k, c, name, d), "ft:%s" % k)
        if name != "f32":
            d = sig.same(observe(k, cat, o), want, TOL(k))
            ctx.check(d is None, lambda: "{} {} {} after fit_transform: {}"
                      .format(k, c, name, d), "ft2:%s" % k)
    ctx.state([k, c, i, "cont"])
    ctx.outcome([k, c, "cont"])
