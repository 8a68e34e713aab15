"""C16: quantile and binning sketches under every add/merge/query history."""
import bisect
import copy
import itertools
import random

import numpy as np

from mc import ref

PROPERTY = "C16"
BATCH = 4
RULE = ("(1) Explicit-state exploration of two GK sketches driven by every "
        "interleaving of add (three values), merge in either direction and "
        "quantile query, states deduplicated by the full sketch contents. "
        "(2) Every value sequence over an alphabet (ties) and every "
        "permutation of distinct values, split in every way in chunks, one "
        "sketch per chunk, merged with every merge tree shape. In every state "
        "n, the entry weights, the quantile of a grid of q (rank error at "
        "most eps*(n-1) plus rounding, monotone in q, an added value) are "
        "compared with the list of the added values and the merged-from "
        "sketch must be unaffected, also by later operations. (3) BSketch "
        "(GK and t-digest) and BCatSketch: every history of chunks with "
        "events, non-events, missing and special values over two sketches: "
        "record counts, bins for every set of splits, categories, cut-off.")
ASSUMPTIONS = ["values are finite; at most 9 values per GK history",
               "rank tolerance eps*(n-1)+1 (the integer rank), both for "
               "single and for merged sketches; merging may compress the "
               "source, whose answers must stay within the bound",
               "t-digest (third party): total weight and range only"]

EPS = [0.5, 0.34, 0.25, 0.15, 0.01]


def tasks(tier):
    q = tier == "quick"
    for e in EPS:
        d = 6 if q else 8
        for pre in itertools.product(range(8), repeat=2):
            yield {"k": "ops", "eps": e, "d": d, "pre": pre}
    for e in EPS[:4]:
        for n in range(3, 7 if q else 9):
            for pre in itertools.product((1, 2, 3), repeat=2):
                yield {"k": "seq", "eps": e, "n": n, "pre": pre}
        for n in range(3, 7 if q else 9):
            for first in range(n):
                yield {"k": "perm", "eps": e, "n": n, "first": first}
    for s in ("gk", "t-digest"):
        for e in ((1e-4, 0.25) if s == "gk" else (1e-4, 0.1)):
            for pre in itertools.product(range(len(CHUNKS)), repeat=2):
                yield {"k": "bsk", "s": s, "eps": e, "pre": pre,
                       "d": 4 if not q or (s == "gk" and pre[0] != pre[1])
                       else 3}
    for cut in (None, 0.1, 0.2, 0.35, 1.0):
        for pre in itertools.product(range(len(CCHUNKS)), repeat=2):
            yield {"k": "cat", "cut": cut, "pre": pre, "d": 4}
    yield {"k": "sig"}


def run(desc, ctx):
    globals()[desc["k"]](desc, ctx)


# ---------------------------------------------------------------- GK
QS = [0.0, 0.1, 0.25, 1 / 3, 0.5, 2 / 3, 0.75, 0.9, 1.0]


def content(s):
    return (tuple((e.value, e.g, e.delta) for e in s.entries),
            tuple(s.incoming), s._count)


def answers(s):
    s = copy.deepcopy(s)
    return [s.quantile(q) for q in QS] if s.n else None


def verify(s, added, eps, ctx, what):
    """s is not modified (queries compress: they run on a copy)"""
    v = sorted(added)
    n = len(v)
    ctx.agree()
    if not ctx.check(s.n == n, lambda: "{}: n {} for {}".format(what, s.n, v),
                     "gk-n"):
        return False
    c = copy.deepcopy(s)
    if n == 0:
        try:
            c.quantile(0.5)
            ctx.fail("quantile of an empty sketch", "gk-empty")
        except ValueError:
            pass
        return True
    got = [c.quantile(q) for q in QS]
    ok = True
    for q, x in zip(QS, got):
        r = q * (n - 1) + 1
        lo, hi = bisect.bisect_left(v, x) + 1, bisect.bisect_right(v, x)
        err = max(lo - r, r - hi, 0)
        ok &= ctx.check(hi >= lo and err <= eps * (n - 1) + 1 + 1e-9,
                        lambda: "{}: eps {} values {} quantile({}) = {}, rank "
                        "error {}".format(what, eps, v, q, x, err), "gk-rank")
    ok &= ctx.check(got == sorted(got), lambda: "{}: quantiles {} decrease"
                    .format(what, got), "gk-monotone")
    w = [(e.value, e.g, e.delta) for e in c.entries]
    ok &= ctx.check(sum(a[1] for a in w) == n and
                    min(min(a[1] - 1, a[2]) for a in w) >= 0 and
                    [a[0] for a in w] == sorted(a[0] for a in w) and
                    len(c) == len(w), lambda: "{}: entries {} for {}".format(
                        what, w, v), "gk-entries")
    # the weight left of a cut is the number of values left of it up to the
    # uncertainty of one entry
    for cut in sorted(set(v)):
        g = sum(a[1] for a in w if a[0] < cut)
        t = bisect.bisect_left(v, cut)
        ok &= ctx.check(abs(g - t) <= 2 * eps * (n - 1) + 1e-9, lambda:
                        "{}: {} values left of {} counted as {}".format(
                            what, t, cut, g), "gk-count")
    ctx.outcome([n, len(w), got])
    return ok


def apply(st, op):
    """st = [A, B, addedA, addedB]"""
    A, B, a, b = st
    if op < 3:
        A.add(float(op + 1))
        a.append(float(op + 1))
    elif op < 5:
        B.add(float(op - 1))
        b.append(float(op - 1))
    elif op == 5:
        A.merge(B)
        a.extend(b)
    elif op == 6:
        B.merge(A)
        b.extend(a)
    elif op == 7:
        for s in (A, B):
            if s.n:
                s.quantile(0.5)


def ops(desc, ctx):
    from optbinning.binning.distributed.gk import GK
    eps, depth = desc["eps"], desc["d"]
    seen = set()
    start = [GK(eps), GK(eps), [], []]
    hist = []
    for op in desc["pre"]:
        apply(start, op)
        hist.append(op)
    todo = [(start, hist)]
    while todo:
        st, hist = todo.pop()
        key = (content(st[0]), content(st[1]), tuple(sorted(st[2])),
               tuple(sorted(st[3])), len(hist))
        if key in seen:
            continue
        seen.add(key)
        ctx.state([eps, key[:4]])
        what = "ops {}".format(hist)
        if not (verify(st[0], st[2], eps, ctx, what + " A") and
                verify(st[1], st[3], eps, ctx, what + " B")):
            return
        if len(hist) == depth or len(st[2]) + len(st[3]) > 40:
            continue
        for op in range(8):
            new = copy.deepcopy(st)
            if op in (5, 6):
                src, dst = (1, 0) if op == 5 else (0, 1)
                apply(new, op)      # both are verified when popped
                # later operations on either sketch leave the other alone
                for mod, oth in ((src, dst), (dst, src)):
                    c = copy.deepcopy(new)
                    before = answers(c[oth])
                    for x in (0.0, 9.0, 2.0, 2.0, 5.0):
                        c[mod].add(x)
                    if c[mod].n:
                        c[mod].quantile(0.3)
                    ctx.check(answers(c[oth]) == before, lambda: "{}: shared "
                              "state after merge".format(what), "gk-alias")
            else:
                oth = 1 if op < 3 else 0
                before = content(new[oth])
                apply(new, op)
                ctx.check(op == 7 or content(new[oth]) == before,
                          "{}: op changed the other sketch".format(what),
                          "gk-alias")
            ctx.step()
            todo.append((new, hist + [op]))


def chunked(vals, eps, cuts):
    from optbinning.binning.distributed.gk import GK
    out = []
    for a, b in zip([0] + cuts, cuts + [len(vals)]):
        s = GK(eps)
        for x in vals[a:b]:
            s.add(x)
        out.append((s, list(vals[a:b])))
    return out


def fold(parts, shape):
    parts = [(copy.deepcopy(s), list(v)) for s, v in parts]
    if shape == "left":
        while len(parts) > 1:
            parts[0][0].merge(parts[1][0])
            parts[0][1].extend(parts[1][1])
            del parts[1]
    elif shape == "right":
        while len(parts) > 1:
            parts[-2][0].merge(parts[-1][0])
            parts[-2][1].extend(parts[-1][1])
            del parts[-1]
    else:
        while len(parts) > 1:
            new = []
            for i in range(0, len(parts) - 1, 2):
                parts[i][0].merge(parts[i + 1][0])
                new.append((parts[i][0], parts[i][1] + parts[i + 1][1]))
            if len(parts) % 2:
                new.append(parts[-1])
            parts = new
    return parts[0]


def stream(vals, eps, ctx, masks):
    n = len(vals)
    for mask in masks:
        cuts = [i + 1 for i in range(n - 1) if mask >> i & 1]
        parts = chunked(vals, eps, cuts)
        for shape in ("left", "right", "tree") if len(cuts) > 1 else (
                "left",):
            s, v = fold(parts, shape)
            ctx.step(len(cuts) + 1)
            ctx.state([eps, content(s)])
            if not verify(s, v, eps, ctx, "stream {} cut at {} merged {}"
                          .format(vals, cuts, shape)):
                return False
    return True


def seq(desc, ctx):
    n = desc["n"]
    for i, rest in enumerate(itertools.product((1.0, 2.0, 3.0),
                                               repeat=n - 2)):
        vals = [float(v) for v in desc["pre"]] + list(rest)
        full = 2 ** (n - 1)
        masks = range(full) if n <= 5 else sorted(
            {0, full - 1, i % full, (5 * i + 2) % full, 0b101010 % full,
             (i * 11 + 7) % full, 1 << (n - 2)})
        if not stream(vals, desc["eps"], ctx, masks):
            return


def perm(desc, ctx):
    n = desc["n"]
    others = [float(i) for i in range(n) if i != desc["first"]]
    for i, p in enumerate(itertools.permutations(others)):
        full = 2 ** (n - 1)
        masks = range(full) if n <= 5 else sorted(
            {0, i % full, (7 * i + 3) % full, full - 1})
        if not stream([float(desc["first"])] + list(p), desc["eps"], ctx,
                      masks):
            return


# ---------------------------------------------------------------- BSketch
NAN = float("nan")
CHUNKS = [
    ([1.0, 2.0, 3.0], [0, 1, 1]),
    ([NAN, -9.0], [1, 0]),
    ([2.0, 2.0, -8.0, 4.0, NAN], [0, 0, 1, 1, 0]),
    ([5.0, 0.0, 2.0, 1.0, 4.0, 3.0, 2.0], [1, 0, 1, 0, 0, 1, 0]),
    ([], []),
]
NOPS = 2 * len(CHUNKS) + 2      # add chunk to A / to B, merge either way
CODES = [-9.0, -8.0]
SPLITS = [list(c) for k in range(4) for c in itertools.combinations(
    (1.0, 1.5, 2.0, 3.0, 4.5, 7.0), k)]


def bapply(st, op, chunks):
    n = len(chunks)
    if op < 2 * n:
        x, y = chunks[op % n]
        k = op // n
        st[k].add(np.array(x, dtype=object if x and isinstance(x[0], str) or
                           chunks is CCHUNKS else float),
                  np.array(y, dtype=int))
        st[2 + k].append(op % n)
    elif op == 2 * n:
        st[0].merge(st[1])
        st[2].extend(st[3])
    else:
        st[1].merge(st[0])
        st[3].extend(st[2])


def walk(desc, ctx, make, check, chunks):
    """every history of the prefix's subtree; both sketches are checked in
    every state and the untouched one must not change"""
    n = len(chunks)
    st = [make(), make(), [], []]
    todo = [(st, [])]
    pre = list(desc["pre"])
    seen = set()
    while todo:
        st, hist = todo.pop()
        key = (tuple(st[2]), tuple(st[3]), len(hist), tuple(hist[-1:]))
        if key in seen and len(hist) >= len(pre):
            continue
        seen.add(key)
        ctx.state([desc["k"], desc.get("s"), desc.get("eps"),
                   desc.get("cut"), hist])
        if not (check(st[0], st[2], ctx, "{} A".format(hist)) and
                check(st[1], st[3], ctx, "{} B".format(hist))):
            return
        if len(hist) >= desc["d"]:
            continue
        nxt = range(2 * n + 2)
        if len(hist) < len(pre):
            # histories start by adding a chunk to each of the sketches
            nxt = [pre[len(hist)] + n * len(hist)]
        for op in nxt:
            new = copy.deepcopy(st)
            bapply(new, op, chunks)
            ctx.step()
            todo.append((new, hist + [op]))


def bsk(desc, ctx):
    from optbinning.binning.distributed.bsketch import BSketch
    random.seed(7)
    s, eps = desc["s"], desc["eps"]

    def check(b, added, ctx, what):
        x = [v for i in added for v in CHUNKS[i][0]]
        y = [v for i in added for v in CHUNKS[i][1]]
        cl = {0: [], 1: []}
        tot = {0: [0, 0], 1: [0, 0]}            # missing, special
        for a, t in zip(x, y):
            if ref.is_nan(a):
                tot[t][0] += 1
            elif a in CODES:
                tot[t][1] += 1
            else:
                cl[t].append(a)
        got = (b.n_event, b.n_nonevent, b.n, b._count_missing_e,
               b._count_missing_ne, b._count_special_e, b._count_special_ne)
        want = (len(cl[1]) + sum(tot[1]), len(cl[0]) + sum(tot[0]), len(x),
                tot[1][0], tot[0][0], tot[1][1], tot[0][1])
        ctx.agree()
        if not ctx.check(got == want, lambda: "{} {}: counts {} expected {}"
                         .format(s, what, got, want), "bsk-counts"):
            return False
        ok = True
        for sp in SPLITS:
            e, ne = copy.deepcopy(b).bins(sp)
            for g, vals in ((e, cl[1]), (ne, cl[0])):
                ok &= ctx.check(
                    len(g) == len(sp) + 1 and sum(g) == len(vals) and
                    min(g) >= 0, lambda: "{} {} splits {}: bins {} of {}"
                    .format(s, what, sp, list(g), vals), "bsk-sum")
                if s == "gk" or (s == "t-digest" and eps < 1e-3):
                    tol = 2 * eps * max(len(vals) - 1, 0) + 1e-9
                    for i, c in enumerate(sp):
                        left = sum(g[:i + 1])
                        t = sum(1 for v in vals if v < c)
                        ok &= ctx.check(abs(left - t) <= tol, lambda: "{} {} "
                                        "splits {}: {} records left of {}, "
                                        "expected {}".format(
                                            s, what, sp, left, c, t),
                                        "bsk-bins")
        m = copy.deepcopy(b).merge_sketches()
        allv = sorted(cl[0] + cl[1])
        ok &= ctx.check(m.n == len(allv), "{}: merged n".format(what),
                        "bsk-merged")
        if allv and s == "gk":
            ok &= verify(m, allv, eps, ctx, what + " merged")
        elif allv:
            qs = [m.percentile(p) for p in (0, 100)]
            ok &= ctx.check(qs[0] >= allv[0] - 1e-9 and
                            qs[1] <= allv[-1] + 1e-9, lambda: "{}: {} of {}"
                            .format(what, qs, allv), "bsk-range")
        # building the merged sketch must not disturb the two parts
        c = copy.deepcopy(b)
        before = [list(v) for v in copy.deepcopy(b).bins(SPLITS[-1])]
        m = c.merge_sketches()
        if s == "gk":
            for v in (0.0, 2.0, 9.0):
                m.add(v)
        ok &= ctx.check([list(v) for v in c.bins(SPLITS[-1])] == before,
                        "{}: merge_sketches changed the sketch".format(what),
                        "bsk-merged-alias")
        ctx.outcome([want, len(allv)])
        return ok

    walk(desc, ctx, lambda: BSketch(s, eps, 25, special_codes=CODES), check,
         CHUNKS)


# ---------------------------------------------------------------- categories
CCHUNKS = [
    (["a", "b", "c"], [0, 1, 1]),
    ([None, "S"], [1, 0]),
    (["b", "b", "T", "d", NAN], [0, 0, 1, 1, 0]),
    (["a", "d", "b", "a", "c", "e", "b"], [1, 0, 1, 0, 0, 1, 0]),
    ([], []),
]


def cat(desc, ctx):
    from optbinning.binning.distributed.bsketch import BCatSketch
    cut = desc["cut"]

    def check(b, added, ctx, what):
        d = {}
        tot = [[0, 0], [0, 0]]
        n = 0
        for i in added:
            for a, t in zip(*CCHUNKS[i]):
                n += 1
                if a is None or a != a:
                    tot[0][t] += 1
                elif a in ("S", "T"):
                    tot[1][t] += 1
                else:
                    d.setdefault(a, [0, 0])[t] += 1
        got = (int(b.n_event), int(b.n_nonevent), int(b.n),
               b._count_missing_ne, b._count_missing_e, b._count_special_ne,
               b._count_special_e)
        ev = sum(v[1] for v in d.values()) + tot[0][1] + tot[1][1]
        want = (ev, n - ev, n, tot[0][0], tot[0][1], tot[1][0], tot[1][1])
        ctx.agree()
        ok = ctx.check(got == want, lambda: "{}: counts {} expected {}"
                       .format(what, got, want), "cat-counts")
        sp, cats, ne, e, others, one, oe = b.bins()
        keep = {k for k, v in d.items()
                if cut is None or not sum(v) / n < cut}
        ok &= ctx.check(set(cats) == keep and len(cats) == len(keep) and
                        set(others) == set(d) - keep, lambda: "{}: kept {} "
                        "others {} of {}".format(what, list(cats),
                                                 list(others), d),
                        "cat-cutoff")
        ok &= ctx.check(all([ne[i], e[i]] == d[c] for i, c in
                            enumerate(cats)), "{}: category counts".format(
                                what), "cat-bins")
        r = [d[c][1] / sum(d[c]) for c in cats]
        ok &= ctx.check(r == sorted(r), "{}: order {}".format(what, r),
                        "cat-order")
        ok &= ctx.check([float(v) for v in sp] ==
                        [i + 0.5 for i in range(len(cats) - 1)], "splits",
                        "cat-splits")
        if cut is not None:
            ok &= ctx.check([one, oe] == [
                sum(d[c][0] for c in d if c not in keep),
                sum(d[c][1] for c in d if c not in keep)], lambda:
                "{}: others {} {}".format(what, one, oe), "cat-others")
        ctx.outcome([len(keep), len(d)])
        return ok

    walk(desc, ctx, lambda: BCatSketch(cut, ["S", "T"]), check, CCHUNKS)


def sig(desc, ctx):
    from optbinning.binning.distributed.bsketch import BSketch
    from optbinning.binning.distributed.gk import GK
    for a, b in itertools.product(EPS, repeat=2):
        ctx.state(["gk", a, b])
        x, y = GK(a), GK(b)
        for v in (1.0, 2.0):
            x.add(v)
            y.add(v)
        ctx.check(x.mergeable(y) == (a == b), "mergeable", "sig")
        try:
            x.merge(y)
            ctx.check(a == b, "GK sketches of different eps merged", "sig")
        except Exception:
            ctx.check(a != b, "GK sketches of equal eps rejected", "sig")
        ctx.check(y.n == 2 and x.n == (4 if a == b else 2), "n", "sig-n")
    conf = [("gk", 0.1, 25, None), ("gk", 0.2, 25, None),
            ("gk", 0.1, 30, None), ("t-digest", 0.1, 25, None),
            ("gk", 0.1, 25, [1.0]), ("gk", 0.1, 25, [2.0, 1.0]),
            ("gk", 0.1, 25, [1.0, 2.0])]
    for p, q in itertools.product(conf, repeat=2):
        ctx.state(["bsk", p, q])
        ctx.step()
        x, y = BSketch(*p), BSketch(*q)
        for s in (x, y):
            s.add(np.array([1.0, 3.0, NAN]), np.array([0, 1, 1]))
        eq = p[:3] == q[:3] and (p[3] is None or q[3] is None or
                                 set(p[3]) == set(q[3]))
        try:
            x.merge(y)
            ctx.check(eq, "{} merged with {}".format(p, q), "sig-bsk")
            ctx.check(x.n == 6 and y.n == 3, "n after merge", "sig-bsk-n")
        except Exception:
            ctx.check(not eq, "{} not merged with {}".format(p, q),
                      "sig-bsk")
            ctx.check(x.n == 3 and y.n == 3, "n after rejected merge",
                      "sig-bsk-n")
