"""C12: scenario-based binning is feasible in every scenario and optimal."""
import itertools

import numpy as np

from mc import optref, ref

PROPERTY = "C12"
RULE = ("(1) Every vector of prebin counts of two (three) scenarios over a "
        "small alphabet x trend x constraint x scenario weights is solved by "
        "the real SBOptimalBinning and compared with the enumeration of all "
        "2^(n-1) groupings of the prebins: the grouping must satisfy the "
        "constraints in every scenario, reach the best weighted sum of the "
        "scenarios' IV among the groupings admissible in all of them, and "
        "INFEASIBLE needs an empty set. (2) Count vectors with pure and "
        "empty prebins, special and missing rows, fixed splits: tables per "
        "scenario, total table and transform against a recount. (3) One scenario and "
        "repeated scenarios against the deterministic OptimalBinning, over "
        "every pre-binning method.")
ASSUMPTIONS = ["prebin counts limited to the listed alphabets (3-5 prebins)",
               "for peak and valley trends the optimum is taken over the "
               "groupings whose change point is common to the scenarios "
               "(the model has one change point); each scenario must follow "
               "the trend in any case",
               "scenario weights are resolved to 1e-4 of the largest weight"]

A = [(2, 1), (1, 2), (1, 4), (5, 2)]            # (non-event, event)
P = [(2, 1), (1, 2), (0, 2), (3, 0), (0, 0)]
TR = [None, "ascending", "descending", "concave", "convex", "peak", "valley"]
WT = [None, (1, 3), (0.3, 0.7), (0.05, 0.95), (2, 25), (0, 1)]
CS = [{"min_n_bins": 3}, {"max_n_bins": 2}, {"min_n_bins": 2,
                                             "max_n_bins": 3},
      {"min_bin_size": 0.4}, {"max_bin_size": 0.6}, {"min_bin_size": 0.2,
                                                     "max_bin_size": 0.5},
      {"min_event_rate_diff": 0.2}, {"max_pvalue": 0.5},
      {"max_pvalue": 0.7, "max_pvalue_policy": "all"},
      {"fixed": (False, True, False)}, {"fixed": (True, False, True)}]


def tasks(tier):
    q = tier == "quick"
    a3 = A[:3] if q else A
    pairs = list(itertools.product(itertools.product(a3, repeat=3), repeat=2))
    for i, X in enumerate(pairs):
        for t in TR:
            if q and i % 2 and t in ("convex", "valley", "descending"):
                continue
            yield {"k": "opt", "X": X, "c": {"monotonic_trend": t},
                   "w": WT[i % 2] if q else WT[i % 6]}
    v4 = list(itertools.product(A[:3], repeat=4))
    few = [v4[i] for i in range(0, 81, 27)] if q else v4[::4]
    for X in itertools.product(v4[::2] if q else v4, few):
        for i, t in enumerate(TR):
            yield {"k": "opt", "X": X, "c": {"monotonic_trend": t},
                   "w": WT[2 + i % 4]}
    for X in itertools.product(v4[::3] if q else v4, few[1:4]):
        for c in CS:
            for t in (None, "descending") if q else TR:
                yield {"k": "opt", "X": X, "c": dict(c, monotonic_trend=t),
                       "w": None}
    for X in itertools.product(itertools.product(A[:3], repeat=3),
                               [v4[5][:3], v4[50][:3]], [v4[30][:3]]):
        for t in TR:
            for w in ((1, 1, 3), (0.2, 0.5, 0.3)):
                yield {"k": "opt", "X": X, "c": {"monotonic_trend": t},
                       "w": w}
    for u in itertools.product(P, repeat=4):
        for v in itertools.product(P[:4] if q else P, repeat=4):
            if q and (u[0] != v[3] or v[1] == v[2] or u[3] != v[1]):
                continue
            yield {"k": "rec", "X": (u, v)}
    for u in itertools.product(P[:4], repeat=4):
        for v in (A, A[::-1]):
            for i in range(3):
                if q and (i + P.index(u[0]) + P.index(u[2])) % 2:
                    continue
                for c in ({"max_n_bins": 2},
                          {"monotonic_trend": "ascending"}):
                    yield {"k": "fix", "X": (u, v), "i": i, "c": c}
    for m in ("user", "cart", "quantile", "uniform"):
        for v in itertools.product(A, repeat=5):
            if q and (v[0] == v[2] or v[1] == v[3]):
                continue
            yield {"k": "red", "X": v, "m": m}


def rows(cells, extra=()):
    x, y = [], []
    for i, (a, b) in enumerate(cells):
        x += [float(i)] * (a + b)
        y += [0] * a + [1] * b
    for a, b in extra:
        x.append(a)
        y.append(b)
    return np.array(x), np.array(y)


def run(desc, ctx):
    {"opt": opt, "rec": rec, "red": red, "fix": fix}[desc["k"]](desc, ctx)


def grouping(o, n):
    cuts = [int(float(s) + 0.5) for s in o.splits]
    assert cuts == sorted(set(cuts)), cuts
    return list(zip([0] + cuts, cuts + [n]))


def common_change(bins, t):
    rates = [[b / (a + b) for a, b in bb] for bb in bins]
    up, down = (ref.asc, ref.desc) if t == "peak" else (ref.desc, ref.asc)
    return any(all(up(r[:k + 1], eps=0.0) and down(r[k:], eps=0.0)
                   for r in rates) for k in range(len(rates[0])))


def opt(desc, ctx):
    from optbinning.binning.uncertainty import SBOptimalBinning
    X = [[tuple(a) for a in v] for v in desc["X"]]
    c, w = desc["c"], desc["w"]
    n = len(X[0])
    kw = {k: v for k, v in c.items() if k != "fixed"}
    if c.get("fixed"):
        kw["user_splits_fixed"] = [bool(f) for f in c["fixed"]]
    o = SBOptimalBinning(user_splits=[i + 0.5 for i in range(n - 1)],
                         **kw)
    data = [rows(v) for v in X]
    o.fit([d[0] for d in data], [d[1] for d in data],
          None if w is None else np.array(w))
    ctx.state([X, c, w])
    ctx.step()
    g = grouping(o, n)
    ww = [v / max(w) for v in w] if w else [1.0] * len(X)
    t = c.get("monotonic_trend")

    def viol(h, eps):
        for v in X:
            tc = optref.change_point(t, [b / (a + b) for a, b in v])
            r = optref.binary_violation(c, optref.sums(v, h), h,
                                        sum(map(sum, v)), n, eps, tc)
            if r:
                return r
        return None

    def obj(h):
        return sum(k * optref.binary_objective({}, optref.sums(v, h))
                   for k, v in zip(ww, X))

    best = bestg = None
    for h in ref.groupings(n):
        ctx.step()
        if viol(h, optref.STRICT["cp"]) is None and (
                t not in ("peak", "valley") or
                common_change([optref.sums(v, h) for v in X], t)):
            v = obj(h)
            if best is None or v > best:
                best, bestg = v, h
    ctx.agree()
    ctx.outcome([o.status, len(g), bestg and len(bestg)])
    if o.status == "OPTIMAL":
        r = viol(g, 2e-6)
        ctx.check(r is None, lambda: "OPTIMAL grouping {} violates {}".format(
            g, r), "violates:%s" % r)
        tol = 1e-5 * n * len(X) + 2e-4 * sum(
            optref.binary_objective({}, v) for v in X if w)
        ctx.check(best is None or best - obj(g) <= tol,
                  lambda: "OPTIMAL grouping {} has value {:.6f}, but {} is "
                  "admissible in all scenarios with {:.6f}".format(
                      g, obj(g), bestg, best), "suboptimal")
    elif o.status != "FEASIBLE":
        ctx.check(best is None, lambda: "{} but {} is admissible".format(
            o.status, bestg), "status")


def count(x, y, splits):
    """rows of the table: [(nonevent, event)] of the bins, special, missing"""
    out = [[0, 0] for _ in range(len(splits) + 3)]
    for a, b in zip(x, y):
        i = -1 if np.isnan(a) else -2 if a in (-99.0, -98.0) else ref.bin_of(
            a, splits)
        out[i][int(b)] += 1
    return out


def rec(desc, ctx):
    from optbinning.binning.uncertainty import SBOptimalBinning
    X = [[tuple(a) for a in v] for v in desc["X"]]
    if any(sum(map(sum, v)) == 0 for v in X):
        return
    nan = float("nan")
    data = [rows(v, e) for v, e in zip(X, (
        [(nan, 1), (-99.0, 0), (-99.0, 1)], [(-98.0, 0), (nan, 0)]))]
    n = len(X[0])
    o = SBOptimalBinning(user_splits=[2.5, 0.5, 1.5],
                         special_codes=[-99.0, -98.0])
    o.fit([d[0] for d in data], [d[1] for d in data])
    ctx.step()
    ctx.state([X])
    splits = [float(s) for s in o.splits]
    ctx.check(set(splits) <= {0.5, 1.5, 2.5} and
              splits == sorted(set(splits)), str(splits), "splits")
    total = None
    for s, (x, y) in enumerate(data):
        want = count(x, y, splits)
        df = o.binning_table_scenario(s).build()
        got = [[int(a), int(b)] for a, b in zip(
            df["Non-event"][:-1], df["Event"][:-1])]
        ctx.check(got == want, lambda: "scenario {} table {} recount {}"
                  .format(s, got, want), "table")
        ctx.check(int(df["Count"].iloc[-1]) == len(x), "total", "table-total")
        total = want if total is None else [
            [a + c for a, c in zip(u, v)] for u, v in zip(total, want)]
        if len(splits):
            ctx.check(all(a and b for a, b in want[:-2]),
                      "pure bin {} in scenario {}".format(want, s), "pure")
    df = o.binning_table.build()
    got = [[int(a), int(b)] for a, b in zip(df["Non-event"][:-1],
                                            df["Event"][:-1])]
    ctx.check(got == total, lambda: "total table {} recount {}".format(
        got, total), "total")
    te, tne = sum(b for _, b in total), sum(a for a, _ in total)
    woe = [ref.woe(b, a, te, tne) if a and b else 0.0 for a, b in total]
    rate = [b / (a + b) if a + b else 0.0 for a, b in total]
    pr = [-1.0, 0, 0.5, 1, 1.49, 1.5, 2.0, 2.5, 7, -99, -98, nan]
    idx = [-1 if np.isnan(v) else -2 if v <= -98 else ref.bin_of(v, splits)
           for v in pr]
    for m, val in (("woe", woe), ("event_rate", rate)):
        if tne == 0 or te == 0:
            continue
        got = o.transform(np.array(pr), metric=m, metric_special="empirical",
                          metric_missing="empirical")
        for a, b, v in zip(got, idx, pr):
            ctx.check(ref.close(a, val[b]), lambda: "transform {} of {}: {}, "
                      "expected {}".format(m, v, a, val[b]), "transform")
    ctx.check(ref.close(float(df["Count"].iloc[-1]), te + tne), "sum", "sum")
    ctx.agree()
    ctx.outcome([len(splits), total])


def fix(desc, ctx):
    """a fixed split is kept, or refused because a bin beside it is pure"""
    from optbinning.binning.uncertainty import SBOptimalBinning
    X = [[tuple(a) for a in v] for v in desc["X"]]
    data = [rows(v) for v in X]
    i = desc["i"]
    o = SBOptimalBinning(user_splits=[0.5, 1.5, 2.5], user_splits_fixed=[
        j == i for j in range(3)], **dict({"min_event_rate_diff": 0},
                                          **desc["c"]))
    ctx.step()
    ctx.state([X, i, desc["c"]])
    pure = any(0 in c for v in X for c in v)
    try:
        o.fit([d[0] for d in data], [d[1] for d in data])
    except ValueError as e:
        ctx.check(pure and "Fixed" in str(e), "{}".format(e), "fixed-error")
        ctx.outcome("refused")
        ctx.agree()
        return
    ctx.agree()
    ctx.outcome([o.status, len(o.splits)])
    if o.status in ("OPTIMAL", "FEASIBLE"):
        ctx.check(i + 0.5 in list(o.splits), lambda: "{}: splits {}, the "
                  "fixed split {} is not among them".format(
                      o.status, list(o.splits), i + 0.5), "fixed")
    else:
        # the two bins beside the fixed split, if nothing else is needed
        ctx.check("max_n_bins" not in desc["c"] or pure, lambda:
                  "{} but the fixed split alone is admissible".format(
                      o.status), "fixed-status")


def red(desc, ctx):
    from optbinning import OptimalBinning
    from optbinning.binning.uncertainty import SBOptimalBinning
    v = [tuple(a) for a in desc["X"]]
    x, y = rows(v)
    kw = dict(monotonic_trend=[None, "ascending", "peak"][
        sum(map(sum, v)) % 3], min_prebin_size=0.05)
    if desc["m"] == "user":
        kw["user_splits"] = [0.5, 1.5, 2.5, 3.5] if sum(map(sum, v)) % 5 \
            else []
    else:
        kw.update(prebinning_method=desc["m"], max_n_prebins=4)
    d = OptimalBinning(**kw)
    d.fit(x, y)
    ctx.state([v, desc["m"]])
    base = d.binning_table.build()
    iv = d.binning_table.iv
    out = [len(d.splits)]
    for name, X, Y, w in (
            ("one scenario", [x], [y], None),
            ("one weighted scenario", [x], [y], [2.0]),
            ("two equal scenarios", [x, x], [y, y], None),
            ("two equal weighted scenarios", [x, x[::-1]], [y, y[::-1]],
             [0.25, 0.75]),
            ("a scenario of weight 0", [x, x], [y, 1 - y], [1, 0])):
        o = SBOptimalBinning(**kw)
        if w and w[0] == 0.25 and desc["m"] == "cart":
            continue    # ties between CART splits depend on the rounding
        if w and w[-1] == 0:
            o.set_params(monotonic_trend=None)
            if kw["monotonic_trend"] is not None or desc["m"] == "cart":
                continue
        o.fit(X, Y, w)
        ctx.step()
        t = o.binning_table_scenario(0)
        df = t.build()
        n = len(df)
        ctx.check(o.status == d.status, "{}: status {}, expected {}".format(
            name, o.status, d.status), "status")
        if o.status != "OPTIMAL":
            continue
        ctx.check(abs(t.iv - iv) <= 1e-5 * n + (1e-4 if w else 0),
                  lambda: "{}: IV {} with splits {}, deterministic binning {} "
                  "with splits {}".format(name, t.iv, o.splits, iv, d.splits),
                  "reduction")
        if list(o.splits) == list(d.splits):
            a, b = (df.drop(columns="Bin").values.tolist(),
                    base.drop(columns="Bin").values.tolist())
            ctx.check(str(a) == str(b), "{}: tables differ".format(name),
                      "reduction-table")
        out.append(n)
    ctx.agree()
    ctx.outcome(out)
