"""C19: BinningProcessSketch under every add / merge / solve history."""
import contextlib
import copy
import io
import itertools
import os
import shutil
import tempfile

import numpy as np

from mc import sig
from checks import c18_process as c18
from checks import c17_obsketch as c17

PROPERTY = "C19"
BATCH = 4
RULE = ("(hist) every assignment of the chunks of a stream of data frames "
        "(columns in any order, absent or extra columns, missing and special "
        "values) to one, two or three sketches, every merge order and "
        "intermediate solves, compared per variable with a standalone "
        "OptimalBinningSketch of the column, with a recount of the rows, with "
        "the summary, the number of samples and the transforms. (par) every "
        "process and per-variable parameter. (sel) every selection criterion "
        "with thresholds around the observed metrics, against the reference "
        "selection. (tr) every combination of metric and per-variable "
        "transform options.")
ASSUMPTIONS = ["4 chunks of at most 10 rows, 4 variables",
               "GK sketches with eps 1e-4 (exact at this size)"]
NAN = float("nan")
VS = ["a", "b", "d", "c"]
CAT = ["d"]


def stream():
    import pandas as pd
    p = c18.pool()
    y = c18.targets()["binary"]
    df = pd.DataFrame({v: p[v] for v in VS})
    df["extra"] = 1
    out = []
    for i, (a, b) in enumerate(((0, 7), (7, 9), (9, 20), (20, 30))):
        x = df.iloc[a:b]
        if i == 1:
            x = x[["c", "extra", "d", "b", "a"]]
        if i == 2:
            x = x[["d", "a", "b", "c"]]
        if i == 3:
            x = x[["a", "d", "c"]]          # b is absent
        out.append((x, y[a:b]))
    return out


PARAMS = [{}, {"max_n_prebins": 4}, {"min_n_bins": 3}, {"max_n_bins": 2},
          {"min_bin_size": 0.3}, {"max_bin_size": 0.4}, {"max_pvalue": 0.4},
          {"max_pvalue": 0.6, "max_pvalue_policy": "all"},
          {"special_codes": [c18.S]}, {"split_digits": 0},
          {"special_codes": np.array([c18.S])},
          {"categorical_variables": ["c", "d"]}]
FITP = [None, {"a": {"max_n_bins": 2}}, {"b": {"special_codes": [c18.S],
                                               "divergence": "js"}},
        {"d": {"cat_cutoff": 0.15}, "c": {"monotonic_trend": None}},
        {"a": {"sketch": "t-digest"}, "c": {"solver": "mip"}}]


def tasks(tier):
    q = tier == "quick"
    for asg in itertools.product(range(3), repeat=4):
        for mask in range(16):
            if q and (sum(asg) + mask) % (7 if max(asg) < 2 else 23):
                continue
            yield {"k": "hist", "asg": asg, "mask": mask,
                   "p": (sum(asg) + mask // 2) % len(PARAMS)}
    for p in range(len(PARAMS)):
        for f in range(len(FITP)):
            for asg in itertools.product(range(2), repeat=4):
                if q and (sum(asg) + p + f) % 4:
                    continue
                yield {"k": "par", "p": p, "f": f, "asg": asg}
    for k in range(16):
        yield {"k": "sel", "part": k, "of": 127 if q else 16}
    for m in ("woe", "event_rate"):
        for sup in itertools.product((0, 1), repeat=4):
            for pv in itertools.product(range(4), repeat=4):
                if (sum(pv) + sum(sup)) % (13 if q else 2):
                    continue
                yield {"k": "tr", "m": m, "sup": sup, "pv": pv}
    yield {"k": "api"}


def run(desc, ctx):
    globals()[desc["k"]](desc, ctx)


def make(p, f=None, **kw):
    from optbinning.binning.distributed import BinningProcessSketch
    k = {"categorical_variables": list(CAT)}
    k.update(PARAMS[p])
    k.update(kw)
    return BinningProcessSketch(variable_names=list(VS),
                                binning_fit_params=f, **k)


def standalone(v, rows, p, f):
    from optbinning.binning.distributed import OptimalBinningSketch
    k = dict(PARAMS[p])
    cats = k.pop("categorical_variables", CAT)
    o = OptimalBinningSketch(
        name=v, dtype="categorical" if v in cats else "numerical", **k)
    o.set_params(**(f or {}).get(v, {}))
    x = np.array([r[0] for r in rows],
                 dtype=object if v in cats else float)
    o.add(x, np.array([r[1] for r in rows], dtype=int))
    o.solve()
    return o


def rows_of(chunks, v):
    return [(a, int(b)) for x, y in chunks if v in x.columns
            for a, b in zip(x[v], y)]


def recount(o, rows, v, ctx, what):
    cat = o.dtype == "categorical"
    splits = [list(g) for g in o.splits] if cat else [
        float(s) for s in o.splits]
    sp = o.special_codes
    sp = [] if sp is None else list(sp)
    n = len(splits) if cat else len(splits) + 1
    want = [[0, 0] for _ in range(n + 2)]
    from mc import ref
    for a, t in rows:
        if a is None or a != a:
            i = n + 1
        elif a in sp:
            i = n
        elif cat:
            i = [j for j, g in enumerate(splits) if a in g][0]
        else:
            i = ref.bin_of(a, splits)
        want[i][t] += 1
    got, tot, _ = c17.table(o)
    return ctx.check(got == want and sum(tot) == len(rows), lambda:
                     "{}: variable {} table {} recount {}".format(
                         what, v, got, want), "table")


def verify(bp, chunks, p, f, ctx, what, deep=True):
    n = sum(len(c[1]) for c in chunks)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        bp.information(print_level=1)
    num = [l.split()[-1] for l in out.getvalue().splitlines()
           if "Number of records" in l or "records" in l.lower()]
    ctx.check(bp._n_samples == n and str(n) in num, lambda: "{}: samples {} "
              "{} expected {}".format(what, bp._n_samples, num, n), "samples")
    ok = True
    objs = {}
    for v in VS:
        o = objs[v] = bp.get_binned_variable(v)
        rows = rows_of(chunks, v)
        td = o.sketch == "t-digest"
        ok &= recount(o, rows, v, ctx, what)
        ctx.agree()
        if not ok:
            return None
        if deep and not td:
            s = standalone(v, rows, p, f)
            d = sig.same(c17.shot(o), c17.shot(s))
            if d and o.status == s.status and abs(
                    o.binning_table.iv - s.binning_table.iv) < 1e-6:
                d = None
            if d and o.dtype == "categorical":
                # categories with equal rates: order of arrival
                cnt = {}
                for a, t in rows:
                    cnt.setdefault(a, [0, 0])[t] += 1
                r = [b[1] / sum(b) for b in cnt.values()]
                if len(set(r)) < len(r):
                    d = None
            ok &= ctx.check(d is None, lambda: "{}: variable {} {}".format(
                what, v, d), "standalone")
    sup = [bool(s) for s in bp.get_support()]
    ok &= c18.check_summary(bp, "binary", VS, objs, sup, ctx, what)
    return objs if ok else None


def transforms(bp, objs, chunks, ctx, what):
    import pandas as pd
    X = pd.concat([c[0] for c in chunks])
    X = X.reindex(columns=["d", "c", "b", "a", "extra"])
    X.index = ["r%d" % i for i in range(len(X))]
    names = [v for v, s in zip(VS, bp.get_support()) if s]
    for m in ("woe", "event_rate"):
        got = bp.transform(X, metric=m, metric_special="empirical",
                           metric_missing="empirical")
        cols = [objs[v].transform(X[v].values, metric=m,
                                  metric_special="empirical",
                                  metric_missing="empirical") for v in names]
        c18.check_transform(got, cols, names, X, ctx, what)


def hist(desc, ctx):
    chunks = stream()
    p = desc["p"]
    parts = [make(p) for _ in range(max(desc["asg"]) + 1)]
    own = [[] for _ in parts]
    for i, (a, ch) in enumerate(zip(desc["asg"], chunks)):
        parts[a].add(*ch)
        own[a].append(ch)
        ctx.step()
        if desc["mask"] >> i & 1:
            if i == 3 and len(own[a]) == 1:
                continue            # b without any data
            parts[a].solve()
            ctx.step()
            objs = verify(parts[a], own[a], p, None, ctx, "chunk %d" % i,
                          deep=i % 2)
            if objs is None:
                return
    for order in itertools.permutations(range(len(parts))):
        ps = [copy.deepcopy(parts[i]) for i in order]
        rs = [list(own[i]) for i in order]
        ctx.state([desc["asg"], desc["mask"], p, order])
        while len(ps) > 1:
            i = len(ps) - 2 if desc["mask"] % 2 else 0
            ps[i].merge(ps[i + 1])
            rs[i] += rs[i + 1]
            ps[i + 1].add(*chunks[0])       # no state is shared
            n = sum(len(c[1]) for c in rs[i + 1]) + len(chunks[0][1])
            ctx.check(ps[i + 1]._n_samples == n, "samples of the source",
                      "source")
            del ps[i + 1], rs[i + 1]
            ctx.step()
        ps[0].solve()
        objs = verify(ps[0], rs[0], p, None, ctx, "merged {}".format(order))
        if objs is None:
            return
        transforms(ps[0], objs, rs[0], ctx, "merged")
        # the history goes on after merging and solving
        ps[0].add(*chunks[2])
        ps[0].solve()
        verify(ps[0], rs[0] + [chunks[2]], p, None, ctx, "continued",
               deep=False)
        ctx.outcome([p, [len(objs[v].splits) for v in VS]])


def contradictory(p, f):
    return any(dict(PARAMS[p], **q).get("min_n_bins", 1) >
               dict(PARAMS[p], **q).get("max_n_bins", 99)
               for q in (f or {}).values())


def par(desc, ctx):
    chunks = stream()
    p, f = desc["p"], FITP[desc["f"]]
    if contradictory(p, f):
        # invalid parameters of a variable: rejected before any data
        try:
            make(p, f).add(*chunks[0])
        except ValueError:
            ctx.outcome("invalid parameters")
            return
        ctx.fail("accepted {} {}".format(PARAMS[p], f), "invalid")
        return
    a, b = make(p, f), make(p, f)
    order = []
    for s in (0, 1):
        for i, ch in enumerate(chunks):
            if desc["asg"][i] == s:
                (b if s else a).add(*ch)
                order.append(ch)
    a.merge(b)
    a.solve()
    ctx.step(5)
    ctx.state([p, desc["f"], desc["asg"]])
    objs = verify(a, order, p, f, ctx, "par")
    if objs:
        transforms(a, objs, order, ctx, "par")
        ctx.outcome([p, desc["f"], [len(objs[v].splits) for v in VS]])


_BASE = {}


def base():
    if not _BASE:
        bp = make(8)
        for ch in stream():
            bp.add(*ch)
        bp.solve()
        st = {}
        for v in VS:
            bt = bp.get_binned_variable(v).binning_table
            bt.build()
            bt.analysis(print_output=False)
            st[v] = {m: float(getattr(bt, m)) for m in c18.METRICS["binary"]}
        _BASE["st"] = st
    return _BASE["st"]


def sel(desc, ctx):
    st = base()
    chunks = stream()
    for i, c in enumerate(c18.criteria(st, VS, "binary")):
        if i % desc["of"] != desc["part"]:
            continue
        a = make(8, None, selection_criteria=c)
        b = make(8, None, selection_criteria=c)
        for k, ch in enumerate(chunks):
            (a if (k + i) % 2 else b).add(*ch)
        a.merge(b)
        a.solve()
        ctx.step(6)
        ctx.state(c)
        got = {str(v) for v in a.get_support(names=True)}
        want = c18.select(st, VS, "binary", c, None)
        ctx.agree()
        ctx.check(got in want, lambda: "criteria {}: selected {} expected {} "
                  "of {}".format(c, got, want, st), "selection")
        objs = {v: a.get_binned_variable(v) for v in VS}
        sup = [v in got for v in VS]
        c18.check_summary(a, "binary", VS, objs, sup, ctx, "sel")
        if got:
            transforms(a, objs, chunks, ctx, "sel")
        ctx.outcome(sorted(got))


VP = [{}, {"metric_missing": "empirical", "metric_special": -3},
      {"metric": "event_rate"}, {"metric": "woe", "metric_missing": 7.5}]


def tr(desc, ctx):
    import pandas as pd
    st = base()
    tp = {v: dict(VP[k]) for v, k in zip(VS, desc["pv"]) if VP[k]}
    bp = make(8, None, binning_transform_params=tp or None)
    chunks = stream()
    for ch in chunks:
        bp.add(*ch)
    bp.solve()
    ctx.step(5)
    ctx.state([desc["m"], desc["sup"], desc["pv"]])
    assert st
    X = pd.concat([c[0] for c in chunks])
    X.index = range(100, 100 + len(X))
    objs = {v: bp.get_binned_variable(v) for v in VS}
    for ms, mm in ((0, 0), (5, -2), ("empirical", "empirical")):
        got = bp.transform(X, metric=desc["m"], metric_special=ms,
                           metric_missing=mm)
        cols, _ = c18.expect(objs, X, VS, VS, desc["m"], tp, ms, mm)
        c18.check_transform(got, cols, VS, X, ctx, "{} {}".format(
            desc["m"], tp))
        ctx.agree()


def api(desc, ctx):
    from optbinning.exceptions import NotDataAddedError, NotSolvedError
    X, y = stream()[0]
    for f in (lambda b: b.transform(X), lambda b: b.summary(),
              lambda b: b.get_support(), lambda b: b.information(),
              lambda b: b.get_binned_variable("a")):
        for add in (0, 1):
            b = make(0)
            if add:
                b.add(X, y)
            ctx.step()
            try:
                f(b)
                ctx.fail("not solved, no error", "api-notsolved")
            except NotSolvedError:
                pass
    try:
        make(0).solve()
        ctx.fail("solve without data", "api-empty")
    except NotDataAddedError:
        pass
    conf = [(0, {}), (1, {}), (2, {}), (8, {}), (10, {}), (9, {}),
            (0, {"selection_criteria": {"iv": {"min": 0.1}}}),
            (0, {"binning_transform_params": {"a": {"metric": "woe"}}}),
            (11, {})]
    for i, j in itertools.product(range(len(conf)), repeat=2):
        a, b = make(conf[i][0], None, **conf[i][1]), make(
            conf[j][0], None, **conf[j][1])
        a.add(X, y)
        b.add(X, y)
        eq = i == j or {i, j} == {3, 4}
        ctx.state([i, j])
        ctx.step()
        ctx.check(bool(a.mergeable(b)) == eq, "mergeable {} {}".format(
            conf[i], conf[j]), "api-mergeable")
        try:
            a.merge(b)
            ctx.check(eq, "merged {} {}".format(conf[i], conf[j]),
                      "api-merge")
        except Exception as e:
            ctx.check(not eq, "{!r}".format(e), "api-merge")
        a.solve()
        tot = c17.table(a.get_binned_variable("a"))[1]
        ctx.check(sum(tot) == len(y) * (2 if eq else 1), "rows", "api-rows")
    for left, right in itertools.product((0, 1), repeat=2):
        a, b = make(0), make(0)
        if left:
            a.add(X, y)
        if right:
            b.add(X, y)
        a.merge(b)
        a.add(X, y)
        a.solve()
        ctx.check(a._n_samples == len(y) * (1 + left + right) and sum(
            c17.table(a.get_binned_variable("d"))[1]) == a._n_samples,
            "rows after merging empty sketches", "api-empty-merge")
    a = make(0)
    a.add(X, y)
    a.solve()
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, "s.pkl")
        try:
            a.save(f)
        except TypeError:
            return
        b = type(a).load(f)
        b.add(X, y)
        b.solve()
        ctx.check(b._n_samples == 2 * len(y) and a._n_samples == len(y),
                  "save and load", "api-load")
    finally:
        shutil.rmtree(d)
