"""C17: streaming optimal binning under every add/merge/solve history."""
import copy
import itertools
import random

import numpy as np

from mc import optref, ref, sig

PROPERTY = "C17"
BATCH = 8
RULE = ("(1) Every assignment of the chunks of a stream to one, two or three "
        "sketches, every pattern of intermediate solves, every merge order "
        "(numerical with both sketch algorithms, categorical): the final "
        "table is recounted from the rows of the stream, equals the table of "
        "one sketch fed at once, intermediate tables count the rows added so "
        "far and do not change when more data are added or another sketch "
        "is used; transform is the lookup of the last table. (2) Every "
        "vector of counts of 4 values / categories over an alphabet with "
        "pure and absent ones x divergence x constraints x number of "
        "prebins: table against a recount, grouping against the enumeration "
        "of all groupings of the reference prebins (quantiles of the stream, "
        "pure prebins merged). (3) Coarse sketches: no row is lost and the "
        "bins are within the error of the sketch.")
ASSUMPTIONS = ["streams of at most 5 chunks / 25 rows, 4 distinct values in "
               "(2)", "the optimum is not compared when categories tie in "
               "event rate (their order is unspecified)",
               "t-digest draws from the random module, seeded by the check"]

NAN = float("nan")
CODES = [-9.0, -8.0]
NUM = [
    [([1, 2, 3, 4], [0, 1, 0, 1]), ([5, 6, NAN, 1], [1, 1, 0, 0]),
     ([-9, 2, 3, 6], [1, 0, 1, 1]), ([4, 4, 5, -8, NAN], [0, 1, 1, 0, 1]),
     ([1, 2, 6, 3], [1, 0, 0, 0])],
    [([7], [1]), ([NAN, -9], [0, 1]), ([1, 1, 1, 2], [0, 0, 1, 1]),
     ([], []), ([2, 7, 1, 7, 2, 5, 5], [0, 1, 0, 0, 1, 0, 1])],
    # every chunk has special and missing rows of both classes
    [([1, NAN, NAN, -9, -8, 2], [0, 0, 1, 0, 1, 1]),
     ([3, NAN, NAN, NAN, -9, -9, 1], [0, 0, 0, 1, 1, 0, 1]),
     ([2, 4, NAN, NAN, -8, -8, -9], [1, 0, 1, 0, 0, 0, 1])],
]
CAT = [
    [(["a", "b", "c", "d"], [0, 1, 0, 1]),
     (["d", "c", None, "a"], [1, 1, 0, 0]),
     (["S", "b", "b", "d"], [1, 0, 1, 0]),
     (["c", "a", "d", "T", None], [0, 1, 1, 0, 1]),
     (["a", "b", "d", "e", "c"], [0, 1, 0, 0, 1])],
    [(["e"], [1]), ([None, "S"], [0, 1]), (["a", "a", "a", "b"],
                                           [0, 0, 1, 1]),
     ([], []), (["b", "e", "a", "e", "b", "c", "c"],
                [0, 1, 0, 0, 1, 0, 1])],
    [(["a", None, None, "S", "T", "b"], [0, 0, 1, 0, 1, 1]),
     (["c", None, None, None, "S", "S", "a"], [0, 0, 0, 1, 1, 0, 1]),
     (["b", "d", None, None, "T", "T", "S"], [1, 0, 1, 0, 0, 0, 1])],
]
HCONF = {
    "gk": dict(sketch="gk"),
    "gkmax": dict(sketch="gk", max_n_bins=3, monotonic_trend="ascending"),
    "gkhel": dict(sketch="gk", divergence="hellinger"),
    "td": dict(sketch="t-digest"),
    "mip": dict(solver="mip", monotonic_trend=None),
    "cat": dict(dtype="categorical"),
    "cut": dict(dtype="categorical", cat_cutoff=0.2),
    "hel": dict(dtype="categorical", divergence="hellinger"),
}
ALPHA = [(2, 1), (1, 2), (0, 2), (3, 0), (0, 0), (1, 4)]
TRENDS = [None, "ascending", "descending", "peak", "valley", "auto"]
OCONF = [{}, {"max_n_bins": 2}, {"min_n_bins": 3}, {"min_bin_size": 0.3},
         {"max_bin_size": 0.6}, {"min_bin_n_event": 2},
         {"max_bin_n_nonevent": 3}, {"min_event_rate_diff": 0.3},
         {"max_pvalue": 0.6}, {"divergence": "hellinger"},
         {"divergence": "triangular", "max_n_bins": 2}, {"divergence": "js"},
         {"gamma": 0.5}, {"min_bin_n_nonevent": 2, "max_bin_n_event": 4}]


def tasks(tier):
    q = tier == "quick"
    for c in HCONF:
        cat = HCONF[c].get("dtype") == "categorical"
        for s in range(3):
            for asg in itertools.product(range(3), repeat=3 if s == 2 else 5):
                if s == 2:
                    if c == "cut":
                        continue
                    for mask in (0, 7) if q else range(8):
                        yield {"k": "hist", "c": c, "s": s, "asg": asg,
                               "mask": mask}
                    continue
                if max(asg) == 2 and q and (asg[0] != 0 or asg[1] == 0):
                    continue
                for mask in (0, 31, 10) if q and max(asg) else range(32):
                    if q and (sum(asg) + mask + len(c)) % 3:
                        continue
                    yield {"k": "hist", "c": c, "s": s, "asg": asg,
                           "mask": mask}
    for i, v in enumerate(itertools.product(ALPHA, repeat=4)):
        for j, c in enumerate(OCONF):
            if q and (i + j) % 4:
                continue
            yield {"k": "num", "v": v, "c": dict(
                c, monotonic_trend=TRENDS[(i + j) % 6]),
                "p": (3, 4, 20)[i % 3]}
            yield {"k": "cat", "v": v, "c": dict(
                c, monotonic_trend=(None, "ascending", "auto")[(i // 2) % 3]),
                "cut": (None, None, 0.15, 0.3, 0.5)[(i + j) % 5],
                "heur": (i // 4 + j) % 2, "p": (2, 3, 20)[(i + j) % 3]}
    for s in ("gk", "t-digest"):
        for eps in (0.3, 0.15, 0.05):
            for v in itertools.product(ALPHA, repeat=4):
                if q and v[0] != ALPHA[0]:
                    continue
                for asg in ((0,), (0, 1), (0, 1, 1, 0)):
                    yield {"k": "coarse", "s": s, "eps": eps, "v": v,
                           "asg": asg}
    yield {"k": "api"}


def run(desc, ctx):
    random.seed(11)
    globals()[desc["k"]](desc, ctx)


def arr(x, cat):
    return np.array(x, dtype=object) if cat else np.array(x, dtype=float)


def kind(v, cat):
    if v is None or v != v:
        return "missing"
    return "special" if v in (("S", "T") if cat else CODES) else "clean"


def count(rows, splits, cat):
    """[non-event, event] of every row of the table"""
    n = len(splits) if cat else len(splits) + 1
    out = [[0, 0] for _ in range(n + 2)]
    for v, t in rows:
        k = kind(v, cat)
        if k == "clean":
            if cat:
                i = [j for j, g in enumerate(splits) if v in list(g)]
                if len(i) != 1:
                    return "{} is in the groups {}".format(v, i)
                i = i[0]
            else:
                i = ref.bin_of(v, splits)
        else:
            i = n if k == "special" else n + 1
        out[i][int(t)] += 1
    return out


def table(o):
    df = o.binning_table.build()
    got = [[int(a), int(b)] for a, b in zip(df["Non-event"], df["Event"])]
    return got[:-1], got[-1], df


def check_table(o, rows, cat, ctx, what):
    splits = [list(g) for g in o.splits] if cat else [
        float(s) for s in o.splits]
    if not cat and not ctx.check(
            splits == sorted(set(splits)), "{}: splits {}".format(
                what, splits), "splits"):
        return False
    want = count(rows, splits, cat)
    got, tot, df = table(o)
    ctx.agree()
    ok = ctx.check(got == want, lambda: "{}: splits {} table {} recount {}"
                   .format(what, splits, got, want), "table")
    ok &= ctx.check(tot == [sum(1 for r in rows if r[1] == k)
                            for k in (0, 1)], lambda: "{}: totals {}".format(
                                what, tot), "totals")
    if not ok:
        return False
    n = len(want)
    values = sorted({v for v, _ in rows if kind(v, cat) == "clean"})
    probe = values + ([] if cat else [-1e9, 1e9] + splits) + [
        None if cat else NAN, "S" if cat else -9.0]
    idx = o.transform(arr(probe, cat), metric="indices", metric_special=77,
                      metric_missing=78)
    woe = o.transform(arr(probe, cat), metric="woe",
                      metric_special="empirical", metric_missing="empirical")
    ev = o.transform(arr(probe, cat), metric="event_rate",
                     metric_special="empirical", metric_missing="empirical")
    te, tne = tot[1], tot[0]
    for v, i, w, e in zip(probe, idx, woe, ev):
        k = kind(v, cat)
        if k == "clean":
            b = [j for j, g in enumerate(splits) if v in g][0] if cat else \
                ref.bin_of(v, splits)
            exp = b
        else:
            b = n - 2 if k == "special" else n - 1
            exp = 77 if k == "special" else 78
        ne, e1 = want[b]
        ok &= ctx.check(int(i) == exp, lambda: "{}: {} index {} expected {}"
                        .format(what, v, i, exp), "transform-index")
        if te and tne:
            ok &= ctx.check(ref.close(float(w), ref.woe(e1, ne, te, tne)),
                            lambda: "{}: {} woe {} of {}".format(
                                what, v, w, want[b]), "transform-woe")
        rate = e1 / (e1 + ne) if e1 + ne else 0.0
        ok &= ctx.check(ref.close(float(e), rate), lambda: "{}: {} event rate "
                        "{} of {}".format(what, v, e, want[b]),
                        "transform-rate")
    return ok


def shot(o):
    """everything observable of the last solve"""
    return sig.flat([table(o)[2], o.splits, o.status], [])


def divergence(o, kw):
    return getattr(o.binning_table, kw.get("divergence", "iv"))


def hist(desc, ctx):
    from optbinning.binning.distributed import OptimalBinningSketch
    kw = HCONF[desc["c"]]
    cat = kw.get("dtype") == "categorical"
    chunks = (CAT if cat else NUM)[desc["s"]]
    codes = ["S", "T"] if cat else CODES

    def new():
        return OptimalBinningSketch(special_codes=codes, **kw)

    parts = [new() for _ in range(max(desc["asg"]) + 1)]
    rows = [[] for _ in parts]
    shots = [None] * len(parts)
    for i, (a, ch) in enumerate(zip(desc["asg"], chunks)):
        parts[a].add(arr(ch[0], cat), np.array(ch[1], dtype=int))
        rows[a] += list(zip(*ch))
        ctx.step()
        for p, s in zip(parts, shots):
            if s is not None:
                ctx.check(sig.same(shot(p), s) is None,
                          "add changed a solved table", "shot")
        has = any(kind(v, cat) == "clean" for v, _ in rows[a])
        if desc["mask"] >> i & 1 and (has or cat):
            if cat and kw.get("cat_cutoff") and not has:
                continue
            try:
                parts[a].solve()
            except ValueError as e:
                ctx.check("others' bin" in str(e), repr(e), "solve-raise")
                continue
            ctx.step()
            if not check_table(parts[a], rows[a], cat, ctx, "chunk %d" % i):
                return
            shots[a] = shot(parts[a])
    # merge everything in the first sketch, in every order
    one = new()
    for x, y in chunks:
        one.add(arr(x, cat), np.array(y, dtype=int))
    one.solve()
    allr = [r for ch in chunks for r in zip(*ch)]
    if not check_table(one, allr, cat, ctx, "one sketch"):
        return
    n = len(parts)
    for order in itertools.permutations(range(n)):
        for shape in ("left", "right") if n == 3 else ("left",):
            ps = [copy.deepcopy(parts[i]) for i in order]
            rs = [list(rows[i]) for i in order]
            ctx.state([desc["c"], desc["s"], desc["asg"], desc["mask"],
                       order, shape])
            while len(ps) > 1:
                i = 0 if shape == "left" else len(ps) - 2
                src = shot(ps[i + 1]) if ps[i + 1]._is_solved else None
                ps[i].merge(ps[i + 1])
                if src is not None:
                    ctx.check(sig.same(shot(ps[i + 1]), src) is None,
                              "merge changed the source", "source")
                rs[i] += rs[i + 1]
                # the merged sketch goes on alone: no state is shared
                ps[i + 1].add(arr(chunks[0][0], cat), np.array(chunks[0][1]))
                del ps[i + 1], rs[i + 1]
                ctx.step()
            o = ps[0]
            o.solve()
            if not check_table(o, rs[0], cat, ctx, "merged"):
                return
            d = None
            if cat:     # tied categories: any order; compare when distinct
                cnt = {}
                for v, t in allr:
                    if kind(v, cat) == "clean":
                        cnt.setdefault(v, [0, 0])[t] += 1
                rate = [c[1] / sum(c) for c in cnt.values()]
                if len(set(rate)) == len(rate):
                    d = sig.same([sorted(map(str, g)) for g in o.splits],
                                 [sorted(map(str, g)) for g in one.splits])
            elif kw.get("sketch") != "t-digest":
                d = sig.same(shot(o), shot(one))
                if d and o.status == one.status and ref.close(
                        divergence(o, kw), divergence(one, kw), 0, 1e-5):
                    d = None        # tied optima
            ctx.check(d is None, lambda: "merged {} differs from one sketch: "
                      "{}".format(order, d), "merge-equal")
            ctx.outcome([desc["c"], len(o.splits), o.status])


# ------------------------------------------------------------------ optimum
def refine(cells, cuts, div, keep_small=0):
    """cells: counts per value; cuts: boundaries; merge as documented"""
    tot = [sum(c[k] for c in cells) for k in (0, 1)]
    while True:
        ed = [0] + cuts + [len(cells)]
        bins = [(sum(c[0] for c in cells[a:b]), sum(c[1] for c in cells[a:b]))
                for a, b in zip(ed, ed[1:])]
        if not cuts:
            return cuts, bins
        if div in ("hellinger", "triangular") and min(tot) > 0:
            bad = [sum(b) == 0 for b in bins]
        else:
            bad = [min(b) == 0 for b in bins]
        if keep_small and len(bins) > keep_small[0]:
            bad = [x or sum(b) < keep_small[1] for x, b in zip(bad, bins)]
        if not any(bad):
            return cuts, bins
        rem = bad[:-2] + [bad[-2] or bad[-1]]
        cuts = [c for c, r in zip(cuts, rem) if not r]


def optimum(o, c, pre, cuts, got_cuts, n_total, ctx):
    n = len(pre)
    if not ctx.check(set(got_cuts) <= set(cuts), lambda: "cuts {} are not "
                     "prebin cuts {}".format(got_cuts, cuts), "cuts"):
        return
    pos = [0] + [cuts.index(k) + 1 for k in got_cuts] + [n]
    g = list(zip(pos, pos[1:]))
    c = dict(c)
    if c["monotonic_trend"] == "auto":
        # cross-check with the batch algorithm on the same prebins
        from mc import optdrive
        z = [b for b in pre if sum(b)]
        if len(z) == n and n > 1 and all(min(b) for b in z):
            k = {a: b for a, b in c.items() if a != "min_bin_size" and
                 a != "max_bin_size"}
            if k == c:
                _, g2, _, o2 = optdrive.fit("binary", pre, c)
                a, b = [optref.binary_objective(c, optref.sums(pre, h))
                        for h in (g, g2)]
                ctx.check(o2.status == o.status and abs(a - b) < 1e-5 * n,
                          lambda: "{} {} but batch {} {}".format(
                              o.status, g, o2.status, g2), "batch")
        return
    if n == 1:
        ctx.check(o.status == "OPTIMAL" and g == [(0, 1)], "single prebin",
                  "single")
        return
    c["zeros"] = any(min(b) == 0 for b in pre)
    best = bg = None
    for h in ref.groupings(n):
        b = optref.sums(pre, h)
        if optref.binary_violation(c, b, h, n_total, n,
                                   optref.STRICT["cp"]) is None:
            v = optref.binary_objective(c, b)
            if best is None or v > best:
                best, bg = v, h
    ctx.agree()
    if o.status == "OPTIMAL":
        b = optref.sums(pre, g)
        r = optref.binary_violation(c, b, g, n_total, n, 2e-6)
        ctx.check(r is None, lambda: "OPTIMAL {} of {} violates {}".format(
            g, pre, r), "violates:%s" % r)
        v = optref.binary_objective(c, b)
        ctx.check(best is None or best - v <= 1e-5 * n, lambda: "{} of {} has "
                  "{:.6f} but {} has {:.6f}".format(g, pre, v, bg, best),
                  "suboptimal")
    else:
        ctx.check(best is None, lambda: "{} but {} of {} is admissible"
                  .format(o.status, bg, pre), "status")


def spread(cells, names):
    """rows in an interleaved order"""
    rows = []
    left = [list(c) for c in cells]
    while any(map(sum, left)):
        for v, c in zip(names, left):
            for k in (1, 0):
                if c[k]:
                    c[k] -= 1
                    rows.append((v, k))
    return rows


def num(desc, ctx):
    from optbinning.binning.distributed import OptimalBinningSketch
    v = [tuple(a) for a in desc["v"]]
    names = [1.0, 2.0, 2.5, 7.0]
    rows = spread(v, names) + [(NAN, 1), (-9.0, 0), (NAN, 0)]
    clean = sorted(r[0] for r in rows if kind(r[0], False) == "clean")
    c, p = desc["c"], desc["p"]
    o = OptimalBinningSketch(special_codes=CODES, max_n_prebins=p, **c)
    for i in (0, 1):
        o.add(arr([r[0] for r in rows[i::2]], False),
              np.array([r[1] for r in rows[i::2]]))
    o.solve()
    ctx.step(3)
    ctx.state([v, c, p])
    if not check_table(o, rows, False, ctx, "num"):
        return
    n = len(clean)
    sp = sorted({clean[int(a * (n - 1) + 1) - 1]
                 for a in np.linspace(0, 1, p + 1)[1:-1]}) if n else []
    cells = [a for a in v]
    cuts, pre = refine(cells, [names.index(s) for s in sp],
                       c.get("divergence"))
    got = [float(s) for s in o.splits]
    if not ctx.check(set(got) <= set(names), "splits {}".format(got),
                     "splits-values"):
        return
    optimum(o, c, pre, cuts, [names.index(s) for s in got], len(rows), ctx)
    ctx.outcome([o.status, len(got)])


def cat(desc, ctx):
    from optbinning.binning.distributed import OptimalBinningSketch
    v = [tuple(a) for a in desc["v"]]
    rows = spread(v, "abcd") + [(None, 1), ("S", 0), (None, 0)]
    c, p, cut = desc["c"], desc["p"], desc["cut"]
    o = OptimalBinningSketch(dtype="categorical", special_codes=["S", "T"],
                             max_n_prebins=p, cat_cutoff=cut,
                             cat_heuristic=bool(desc["heur"]), **c)
    for i in (0, 1):
        o.add(arr([r[0] for r in rows[i::2]], True),
              np.array([r[1] for r in rows[i::2]]))
    d = {a: b for a, b in zip("abcd", v) if sum(b)}
    n = len(rows)
    keep = [a for a in d if cut is None or not sum(d[a]) / n < cut]
    oth = [a for a in d if a not in keep]
    ctx.step(3)
    ctx.state([v, c, p, cut, desc["heur"]])
    try:
        o.solve()
    except ValueError as e:
        ctx.check(d and not keep and "others" in str(e), lambda: "raised {}"
                  .format(e), "raise")
        return
    if d and not keep:
        ctx.fail("all the categories are below the cut-off", "raise")
        return
    if not check_table(o, rows, True, ctx, "cat"):
        return
    groups = [list(g) for g in o.splits]
    if oth:
        ctx.check(sorted(groups.pop()) == sorted(oth), "others group",
                  "others")
    rate = {a: d[a][1] / sum(d[a]) for a in d}
    flat = [a for g in groups for a in g]
    if not ctx.check(sorted(flat) == sorted(keep) and [rate[a] for a in flat]
                     == sorted(rate[a] for a in flat), lambda: "groups {} of "
                     "{}".format(groups, d), "groups"):
        return
    if len({rate[a] for a in keep}) < len(keep) or not keep:
        return
    cells = [d[a] for a in flat]
    cuts, pre = refine(cells, list(range(1, len(cells))), c.get("divergence"),
                       (p, n / p) if desc["heur"] else 0)
    got = list(itertools.accumulate(map(len, groups)))[:-1]
    c = dict(c)
    if c["monotonic_trend"] is not None:
        c["monotonic_trend"] = "ascending"
    optimum(o, c, pre, cuts, got, n, ctx)
    ctx.outcome([o.status, len(got), bool(oth)])


def coarse(desc, ctx):
    from optbinning.binning.distributed import OptimalBinningSketch
    v = [tuple(a) for a in desc["v"]]
    rows = spread(v, [1.0, 2.0, 2.5, 7.0]) * 2
    eps = desc["eps"]
    k = len(desc["asg"])
    parts = [OptimalBinningSketch(sketch=desc["s"], eps=eps,
                                  monotonic_trend=None)
             for _ in range(max(desc["asg"]) + 1)]
    for i, a in enumerate(desc["asg"]):
        r = rows[i::k]
        parts[a].add(arr([b[0] for b in r], False),
                     np.array([b[1] for b in r]))
    for p in parts[1:]:
        parts[0].merge(p)
    o = parts[0]
    if not rows:
        return
    o.solve()
    ctx.step(k + 1)
    ctx.state([desc["s"], eps, v, desc["asg"]])
    got, tot, _ = table(o)
    te = sum(r[1] for r in rows)
    ctx.check(tot == [len(rows) - te, te], lambda: "totals {}".format(tot),
              "coarse-totals")
    sp = [float(s) for s in o.splits]
    ctx.check(sp == sorted(set(sp)), "splits {}".format(sp), "coarse-splits")
    ctx.check(len(got) == len(sp) + 3 and got[-2:] == [[0, 0], [0, 0]] and
              min(map(min, got)) >= 0, "rows {}".format(got), "coarse-rows")
    if desc["s"] == "gk":
        for c in (0, 1):
            vals = [r[0] for r in rows if r[1] == c]
            for i, s in enumerate(sp):
                left = sum(g[c] for g in got[:i + 1])
                t = sum(1 for a in vals if a < s)
                ctx.check(abs(left - t) <= 2 * eps * max(len(vals) - 1, 0) +
                          1e-9, lambda: "class {} left of {}: {} expected {}"
                          .format(c, s, left, t), "coarse-count")
    ctx.agree()
    ctx.outcome([desc["s"], len(sp)])


def api(desc, ctx):
    from sklearn.exceptions import NotFittedError

    from optbinning.binning.distributed import OptimalBinningSketch as S
    from optbinning.exceptions import NotSolvedError

    def full(**kw):
        o = S(**kw)
        o.add(np.array([1.0, 2.0, 3.0, 4.0]), np.array([0, 1, 0, 1]))
        return o
    # not solved / no data
    for f in (lambda o: o.transform([1.0]), lambda o: o.splits,
              lambda o: o.status, lambda o: o.binning_table,
              lambda o: o.information()):
        for o in (S(), full()):
            ctx.step()
            try:
                f(o)
                ctx.fail("not solved, no error", "api-notsolved")
            except NotSolvedError:
                pass
    try:
        S().solve()
        ctx.fail("solve without data", "api-empty")
    except NotFittedError:
        pass
    # parameters: every pair of configurations differing in one parameter
    conf = [{}, {"eps": 0.01}, {"sketch": "t-digest"}, {"K": 30},
            {"divergence": "js"}, {"max_n_bins": 3}, {"special_codes": [9]},
            {"special_codes": np.array([9])}, {"solver": "mip"},
            {"monotonic_trend": None}, {"gamma": 0.1}, {"split_digits": 2}]
    for a, b in itertools.product(range(len(conf)), repeat=2):
        x, y = full(**conf[a]), full(**conf[b])
        eq = a == b or {a, b} == {6, 7}
        ctx.state([a, b])
        ctx.step()
        ctx.check(bool(x.mergeable(y)) == eq, "mergeable {} {}".format(
            conf[a], conf[b]), "api-mergeable")
        try:
            x.merge(y)
            ctx.check(eq, "merged {} {}".format(conf[a], conf[b]),
                      "api-merge")
        except Exception as e:
            ctx.check(not eq, "not merged {} {}: {!r}".format(
                conf[a], conf[b], e), "api-merge")
        x.solve()
        ctx.check(table(x)[1] == ([4, 4] if eq else [2, 2]), "rows after "
                  "merge", "api-rows")
    # merging with sketches without data
    for left, right in itertools.product((True, False), repeat=2):
        x, y = (full() if left else S()), (full() if right else S())
        x.merge(y)
        if left or right:
            x.solve()
            ctx.check(sum(table(x)[1]) == 4 * (left + right), "rows after "
                      "merging empty sketches", "api-empty-merge")
        else:
            try:
                x.solve()
                ctx.fail("solve without data", "api-empty")
            except NotFittedError:
                pass
        x.add(np.array([1.0, 2.0]), np.array([0, 1]))
        y2 = None if not right else y
        x.solve()
        ctx.check(sum(table(x)[1]) == 4 * (left + right) + 2, "rows after "
                  "adding to a merged sketch", "api-add")
        if y2 is not None:
            y2.solve()
            ctx.check(sum(table(y2)[1]) == 4, "source rows", "api-source")
    # split_digits
    for dg in (0, 1, 2):
        vals = np.array([0.123, 0.456, 0.789, 1.234, 1.5678, 2.345] * 3)
        y = np.array([0, 1, 0, 1, 1, 0, 1, 1, 0, 1, 0, 0, 0, 0, 1, 1, 1, 0])
        o = S(split_digits=dg, special_codes=CODES)
        o.add(vals, y)
        o.solve()
        ctx.step()
        sp = [float(s) for s in o.splits]
        ctx.check(all(s == round(s, dg) for s in sp), "split digits {}"
                  .format(sp), "api-digits")
        check_table(o, list(zip(vals.tolist(), y.tolist())), False, ctx,
                    "digits")
    # statistics of the stream
    o = S()
    for i in range(3):
        o.add(np.array([1.0, 2.0, 3.0, NAN]), np.array([0, 1, i % 2, 1]))
        o.solve()
        st = o._solve_stats[max(o._solve_stats)]
        ctx.check(len(o._solve_stats) == i + 1, "progress length",
                  "api-progress")
        ctx.check(st["n_add"] == i + 1 and st["n_records"] == 4 * (i + 1),
                  "progress {}".format(st), "api-progress")
        ctx.check(ref.close(st["divergence"], o.binning_table.iv),
                  "progress {}".format(st), "api-progress")
