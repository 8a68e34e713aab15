"""C11: to_json / read_json preserve a fitted binning."""
import itertools
import os
import tempfile

import numpy as np
import pandas as pd

from mc import sig

PROPERTY = "C11"
RULE = ("(1) Every assignment of target patterns to the value blocks (three "
        "clean values or categories, two special codes, missing) is fitted "
        "under every configuration; the object is written to JSON and read "
        "into a default object, an identically configured one and one fitted "
        "on other data. Table, measures, splits and transform under every "
        "metric and special/missing option are compared with the original, "
        "and the file written again must be identical. (2) Every sequence of "
        "fit/write/read operations up to the depth bound on two objects and "
        "one file is compared with the obvious model (a binning is a value). "
        "(3) Every torn write: reading each strict prefix of a file must "
        "raise and leave the object as it was.")
ASSUMPTIONS = ["cat_unknown is a parameter of the reading object, not stored",
               "special codes dictionaries have string keys",
               "category labels are compared by their members"]

nan = float("nan")
BLK = [1.0, 2.0, 3.0, -9.0, -8.0, nan]
CBLK = ["a", "b", "c", "s", "t", None]
IBLK = [10, 20, 30, -9, -8, 40]
SP = {"a": -9.0, "b": [-8.0]}
CSP = {"a": "s", "b": ["t"]}
BASE = dict(min_prebin_size=0.01)
CFG = {
    "bin": {
        "n": dict(BASE),
        "l": dict(BASE, special_codes=[-9.0, -8.0]),
        "d": dict(BASE, special_codes=SP, monotonic_trend=None),
        "a": dict(BASE, special_codes=np.array([-9.0, -8.0]),
                  user_splits=np.array([1.5, 2.5])),
        "u": dict(user_splits=[2.5, 0.0, 1.75], special_codes=[-9.0],
                  split_digits=1),
        "c": dict(BASE, dtype="categorical", special_codes=["s", "t"]),
        "cd": dict(BASE, dtype="categorical", special_codes=CSP,
                   cat_cutoff=0.25, cat_unknown=0.5, monotonic_trend=None),
        "cu": dict(dtype="categorical", special_codes=["s"],
                   user_splits=np.array([["a"], ["b", "c"], ["t"]],
                                        dtype=object)),
        "ci": dict(BASE, dtype="categorical", special_codes=[-9, -8])},
    "con": {
        "n": dict(BASE),
        "d": dict(BASE, special_codes=SP, monotonic_trend=None),
        "u": dict(user_splits=np.array([1.5, 2.5]), special_codes=[-9.0]),
        "c": dict(BASE, dtype="categorical", special_codes=CSP,
                  cat_cutoff=0.25, cat_unknown=0.5),
        "cu": dict(dtype="categorical", special_codes=["s"],
                   user_splits=np.array([["a"], ["b", "c"], ["t"]],
                                        dtype=object))},
    "mul": {
        "n": dict(BASE),
        "d": dict(BASE, special_codes=SP, monotonic_trend=None),
        "u": dict(user_splits=np.array([1.5, 2.5]), special_codes=[-9.0])},
}
PAT = {"bin": [(0, 0, 0), (0, 1, 0), (1, 1, 1)],
       "con": [(0, 0, 1.0625), (3, 3.37, 2), (-1, 7, 7 / 3)],
       "mul": [(0, 1, 0), (1, 2, 0), (2, 2, 2)]}
METS = {"bin": ("woe", "event_rate", "indices", "bins"),
        "con": ("mean", "indices", "bins"),
        "mul": ("mean_woe", "weighted_mean_woe", "indices", "bins")}
OPS = ("F0", "F1", "W", "R", "G", "r")


def klass(k):
    import optbinning as ob
    return {"bin": ob.OptimalBinning, "con": ob.ContinuousOptimalBinning,
            "mul": ob.MulticlassOptimalBinning}[k]


def tasks(tier):
    q = tier == "quick"
    for k in CFG:
        for c in CFG[k]:
            for t in itertools.product(range(3), repeat=6):
                if q and (t[4] != 1 or t[5] > t[3]):
                    continue
                yield {"k": "rt", "t": k, "c": c, "p": t}
            for seq in itertools.product(OPS, repeat=3 if q else 6):
                if "W" in seq and ("R" in seq or "r" in seq or "G" in seq):
                    yield {"k": "seq", "t": k, "c": c, "s": seq}
            yield {"k": "torn", "t": k, "c": c}


def data(k, c, t):
    blk = IBLK if c == "ci" else CBLK if c[0] == "c" else BLK
    if c[0] == "c":            # the third category is below cat_cutoff
        blk, t = blk + blk[:2], list(t) + list(t[:2])
    x = [v for v in blk for _ in range(3)]
    x = np.array(x) if c == "ci" else np.array(
        x, dtype=object if c[0] == "c" else float)
    y = np.array([v for i in t for v in PAT[k][i]])
    return x, y


def probe(c, unknown):
    if c == "ci":
        return np.array(IBLK + ([99] if unknown else []))
    if c[0] == "c":
        return np.array(CBLK + (["zz"] if unknown else []), dtype=object)
    return np.array([0.0, 1, 1.5, 1.75, 2, 2.5, 3, 9, -9, -8, nan, 1.49, 2.51])


def labels(v):
    return "|".join(sorted(map(str, v))) if isinstance(
        v, (list, np.ndarray)) else str(v)


def observe(k, c, o, unknown=False):
    out = []
    bt = o.binning_table
    df = sig.guard(bt.build)
    if isinstance(df, pd.DataFrame):
        df = df.copy()
        df["Bin"] = [labels(b) for b in df["Bin"]]
    out.append(df)
    sig.guard(lambda: bt.analysis(print_output=False))
    for m in ("iv", "js", "gini", "ks", "quality_score", "woe", "hellinger"):
        out.append(sig.guard(lambda: getattr(bt, m, None)))
    sp = o.splits
    out.append([labels(s) for s in sp] if c[0] == "c" else np.asarray(sp))
    out.append(o.name)
    if k == "mul":
        out.append(list(o.classes))
    pr = probe(c, unknown)
    for m in METS[k]:
        for ms, mm in ((0, 0), ("empirical", 0.25), (7, "empirical")):
            if m in ("indices", "bins") and mm == 0.25:
                mm = 0
            v = sig.guard(lambda: o.transform(
                pr, metric=m, metric_special=ms, metric_missing=mm))
            if m == "bins" and not isinstance(v, str):
                v = [str(a) for a in v]
            out.append(v)
    return out


def make(k, c, **kw):
    return klass(k)(**dict(CFG[k][c], name="v1", **kw))


def blank(k, c):
    kw = {"dtype": "categorical"} if c[0] == "c" else {}
    if "cat_unknown" in CFG[k][c]:
        kw["cat_unknown"] = CFG[k][c]["cat_unknown"]
    return klass(k)(**kw)


def run(desc, ctx):
    with tempfile.TemporaryDirectory() as d:
        {"rt": roundtrip, "seq": sequence, "torn": torn}[desc["k"]](
            desc, ctx, os.path.join(d, "b.json"))


def fit(k, c, t):
    o = make(k, c)
    try:
        o.fit(*data(k, c, t))
    except ValueError:
        return None
    return o


def roundtrip(desc, ctx, path):
    k, c, t = desc["t"], desc["c"], desc["p"]
    o = fit(k, c, t)
    ctx.state([k, c, t])
    if o is None:
        ctx.outcome("invalid")
        return
    before = observe(k, c, o)
    o.to_json(path)
    ctx.step()
    d = sig.same(observe(k, c, o), before)
    ctx.check(d is None, lambda: "{} {} {}: writing changed the object: {}"
              .format(k, c, t, d), "write")
    text = open(path).read()
    other = make(k, c)
    other.fit(*data(k, c, (0, 1, 2, 1, 0, 2)))
    for name, r, unk in (("default", blank(k, c), False),
                         ("same", make(k, c), True), ("used", other, True)):
        r.read_json(path)
        ctx.step()
        want = observe(k, c, o, True) if unk else before
        d = sig.same(observe(k, c, r, unk), want)
        ctx.check(d is None, lambda: "{} {} {} read into a {} object: {}"
                  .format(k, c, t, name, d), "read:%s:%s" % (k, name))
        r.to_json(path + "2")
        ctx.check(open(path + "2").read() == text,
                  "{} {} {}: rewritten file differs".format(k, c, t),
                  "rewrite:%s" % k)
        ctx.agree()
    ctx.outcome([k, len(o.splits), len(text) // 100])


TS = ((0, 1, 2, 1, 0, 2), (2, 0, 1, 0, 1, 1))


def sequence(desc, ctx, path):
    """o: object under test; g: a second reader; the model state is the index
    of the dataset each of o, g and the file hold"""
    k, c = desc["t"], desc["c"]
    key = k, c
    if key not in CACHE:
        CACHE[key] = [observe(k, c, fit(k, c, t)) for t in TS]
    o, g = make(k, c), blank(k, c)
    m = {"o": None, "g": None, "f": None}
    for op in desc["s"]:
        if op in ("F0", "F1"):
            o.fit(*data(k, c, TS[int(op[1])]))
            m["o"] = int(op[1])
        elif op == "W":
            from sklearn.exceptions import NotFittedError
            try:
                o.to_json(path)
                ok = True
            except NotFittedError:
                ok = False
            ctx.check(ok == (m["o"] is not None), "{}: write before fit: {}"
                      .format(desc, ok), "unfitted")
            if ok:
                m["f"] = m["o"]
        elif op in ("R", "r"):
            who, w = (o, "o") if op == "R" else (g, "g")
            try:
                who.read_json(path)
                ok = True
            except FileNotFoundError:
                ok = False
            ctx.check(ok == (m["f"] is not None), str(desc), "read")
            if ok:
                m[w] = m["f"]
        else:                                   # G: g writes
            if m["g"] is not None:
                g.to_json(path)
                m["f"] = m["g"]
        ctx.step()
        ctx.state([k, c, m["o"], m["g"], m["f"]])
    from sklearn.exceptions import NotFittedError
    for w, who in (("o", o), ("g", g)):
        if m[w] is None:
            try:
                who.transform(probe(c, False))
                ctx.fail("{}: {} answers before fit/read".format(desc, w),
                         "unfitted")
            except NotFittedError:
                ctx.agree()
        else:
            d = sig.same(observe(k, c, who), CACHE[key][m[w]])
            ctx.check(d is None, lambda: "{}: object {}: {}".format(
                desc, w, d), "seq:%s" % k)
            ctx.agree()
    ctx.outcome([k, c, m["o"], m["g"]])


CACHE = {}


def torn(desc, ctx, path):
    k, c = desc["t"], desc["c"]
    o = fit(k, c, TS[0])
    o.to_json(path)
    raw = open(path, "rb").read()
    from sklearn.exceptions import NotFittedError
    used = fit(k, c, TS[1])
    want = observe(k, c, used)
    for n in range(len(raw)):
        with open(path, "wb") as f:
            f.write(raw[:n])
        ctx.state([k, c, n])
        for fresh in (True, False):
            r = blank(k, c) if fresh else used
            try:
                r.read_json(path)
                ctx.fail("{} {}: the first {} of {} bytes were accepted"
                         .format(k, c, n, len(raw)), "torn")
            except ValueError:
                pass
            ctx.step()
            if fresh:
                try:
                    r.transform(probe(c, False))
                    ctx.fail("{} {}: usable after a failed read".format(k, c),
                             "torn-fresh")
                except NotFittedError:
                    ctx.agree()
            elif n % 50 == 0 or n == len(raw) - 1:
                ctx.check(sig.same(observe(k, c, r), want) is None,
                          "{} {}: a failed read changed the object".format(
                              k, c), "torn-used")
                ctx.agree()
    with open(path, "wb") as f:
        f.write(raw)
    used.read_json(path)
    ctx.check(sig.same(observe(k, c, used), observe(k, c, o)) is None,
              "{} {}: reading after failed reads".format(k, c), "torn-last")
    ctx.outcome([k, c, len(raw)])
