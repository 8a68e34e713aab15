"""C03: continuous and multiclass binning table statistics."""
import contextlib
import io
import itertools
import math

import numpy as np
from scipy import stats as st

from mc import ref
from checks.c02_binstats import chi2, trend

PROPERTY = "C03"
RULE = ("Every vector of target samples per bin (continuous) or class counts "
        "per bin (multiclass) from a small set, 1-4 bins, crossed with layouts "
        "of special groups and missing rows, is fitted by the real "
        "ContinuousOptimalBinning / MulticlassOptimalBinning; every cell, "
        "total, metric, trend label and significance test of build() and "
        "analysis() is compared with an independent evaluation of the "
        "documented formulas on a recount of the rows.")
ASSUMPTIONS = ["trend labels are compared for strictly monotone or strictly "
               "unimodal bin means / rates",
               "an empty Special/Missing row has mean 0 (as documented in the "
               "published tables), its Std/Min/Max are not compared"]

TV = [[1.0, 2.0], [0.0, 0.0, 3.0], [-1.0], [5.0, 5.0, 4.0, 0.0],
      [7.0, 9.0, 8.0]]
CSP = {"none": [], "list": [[2.0, 0.0]], "list0": [[]],
       "dict2": [[1.0, 1.0, 4.0], [-3.0]], "dict0": [[], [6.0, 2.0], []]}
CMI = [[], [10.0, 0.0]]
MV = [(1, 1, 1), (3, 1, 0), (1, 2, 3), (2, 0, 2), (1, 4, 1)]
MSP = {"none": [], "list": [(1, 2, 0)], "list0": [(0, 0, 0)],
       "dict2": [(1, 1, 1), (0, 3, 0)], "dict0": [(0, 0, 0), (1, 0, 2)]}
MMI = [(0, 0, 0), (2, 0, 1)]
M4 = (1, 2, 0, 1, 3)
CUTS = [0.5, 1.25, 2.125]


def tasks(tier):
    q = tier == "quick"
    for n in (1, 2, 3, 4):
        for c in itertools.product(range(5), repeat=n):
            for sp in CSP:
                for mi in (0, 1):
                    if q and n == 4 and (sum(c) + 7 * mi + len(sp)) % 3:
                        continue
                    if n > 1:
                        yield {"t": "con", "d": "num", "c": c, "sp": sp,
                               "mi": mi}
                    elif sp != "none":
                        yield {"t": "con", "d": "num", "c": c, "sp": sp,
                               "mi": mi}
    for n in (2, 3):
        for c in itertools.product(range(5), repeat=n):
            for sp in ("none", "dict2", "dict0"):
                for oth in (0, 1):
                    yield {"t": "con", "d": "cat", "c": c, "sp": sp,
                           "mi": len(sp) % 2, "oth": oth}
    for c in itertools.product(range(3), repeat=4 if q else 5):
        for dg in (0, 3):
            yield {"t": "con", "d": "num", "c": c, "sp": "dict2", "mi": 1,
                   "free": 1, "dg": dg, "tot": bool(dg)}
    for n in (2, 3, 4):
        for c in itertools.product(range(5), repeat=n):
            for sp in MSP:
                for mi in (0, 1):
                    if q and n == 4 and (sum(c) + 7 * mi + len(sp)) % 3:
                        continue
                    yield {"t": "mul", "d": "num", "c": c, "sp": sp,
                           "mi": mi}
    for c in itertools.product(range(3), repeat=4):
        for dg in (1, 8):
            yield {"t": "mul", "d": "num", "c": c, "sp": "dict2", "mi": 1,
                   "free": 1, "dg": dg, "tot": dg == 1}
    # bins that merge several prebins
    for c in itertools.product(range(5), repeat=4):
        for mb in (1, 2):
            if q and (sum(c) + mb) % 2:
                continue
            yield {"t": "con", "d": "num", "c": c, "sp": "list", "mi": 1,
                   "free": 1, "mb": mb}
            yield {"t": "mul", "d": "num", "c": c, "sp": "dict2", "mi": 0,
                   "free": 1, "mb": mb}
    # two and four classes
    for n in (2, 3):
        for c in itertools.product(range(5), repeat=n):
            for lab in ([0, 1], [4, 2], [0, 1, 2, 3], [8, 1, 5, 3]):
                yield {"t": "mul", "d": "num", "c": c, "sp": "dict0",
                       "mi": 1, "labels": lab, "free": 1}
    # other class labels
    for c in itertools.product(range(5), repeat=3):
        yield {"t": "mul", "d": "num", "c": c, "sp": "list", "mi": 1,
               "labels": [7, 3, 10]}


def codes(desc):
    sp = desc["sp"]
    if sp == "none":
        return None
    cat = desc["d"] == "cat"
    if sp.startswith("list"):
        return ["s0"] if cat else [-9.0]
    k = len((CSP if desc["t"] == "con" else MSP)[sp])
    return {"g%d" % i: (["s%d" % i] if cat else [-9.0 - i]) if i % 2 else
            ("s%d" % i if cat else -9.0 - i) for i in range(k)}


def run(desc, ctx):
    (cont if desc["t"] == "con" else multi)(desc, ctx)


def fit(desc, cells, groups, miss):
    """cells etc. are lists of y lists -> fitted object"""
    from optbinning import ContinuousOptimalBinning, MulticlassOptimalBinning
    cat = desc["d"] == "cat"
    x, y = [], []
    for i, t in enumerate(cells):
        x += [("c%d" % i) if cat else float(i)] * len(t)
        y += t
    for g, t in enumerate(groups):
        x += [("s%d" % g) if cat else -9.0 - g] * len(t)
        y += t
    x += [None if cat else float("nan")] * len(miss)
    y += miss
    n = len(cells)
    kw = dict(special_codes=codes(desc), min_prebin_size=1e-4,
              monotonic_trend=None)
    if cat:
        nb = n - 1 if desc["oth"] else n
        kw["user_splits"] = np.array([["c%d" % i] for i in range(nb)],
                                     dtype=object)
        kw["user_splits_fixed"] = [True] * nb
        kw["dtype"] = "categorical"
    elif n > 1:
        kw["user_splits"] = CUTS[:n - 1]
        if not desc.get("free") and (desc["t"] == "con" or full(desc)):
            kw["user_splits_fixed"] = [True] * (n - 1)
    if "mb" in desc:
        kw["max_n_bins"] = desc["mb"]
    o = (ContinuousOptimalBinning if desc["t"] == "con" else
         MulticlassOptimalBinning)(**kw)
    o.fit(np.array(x, dtype=object if cat else float), np.array(y))
    return o


def full(desc):
    """prebins without some class are merged by definition"""
    if "labels" in desc and len(desc["labels"]) != 3:
        return False
    return all(all(MV[i]) for i in desc["c"])


def layout(desc, o, n, ctx):
    """[(label, cell ids)] of the clean rows of the table"""
    dg = desc.get("dg", 2)
    out = []
    if desc["d"] == "cat":
        seen = set()
        for s in o.splits:
            ids = frozenset(int(str(v)[1:]) for v in s)
            seen |= ids
            out.append((None, ids))
        ctx.check(seen == set(range(n)), "categories lost", "lost")
        return out
    spl = [float(s) for s in o.splits]
    f = "{:.%df}" % dg
    e = ["-inf"] + [f.format(s) for s in spl] + ["inf"]
    for i in range(len(spl) + 1):
        ids = frozenset(k for k in range(n) if ref.bin_of(k, spl) == i)
        out.append(("{}{}, {})".format("(" if i == 0 else "[", e[i],
                                       e[i + 1]), ids))
    return out


def tail_labels(desc):
    sp = codes(desc)
    return (list(sp) if isinstance(sp, dict) else ["Special"]) + ["Missing"]


def compare(df, cols, R, labels, tot, totals, ctx):
    if len(df) != len(R) + tot:
        ctx.fail("{} rows, expected {}".format(len(df), len(R) + tot), "rows")
        return False
    for i, r in enumerate(R):
        row = df.iloc[i]
        for c, v in zip(cols, r):
            if v is not None and not ref.close(row[c], v, 1e-9, 1e-10):
                ctx.fail("row {} ({}) {}: {} expected {}".format(
                    i, row["Bin"], c, row[c], v), "cell:" + c.split("_")[0])
        if labels[i] is not None and str(row["Bin"]) != labels[i]:
            ctx.fail("label {!r} expected {!r}".format(row["Bin"], labels[i]),
                     "label")
    if tot:
        row = df.loc["Totals"]
        for c, v in totals.items():
            if not ref.close(row[c], v, 1e-9, 1e-10):
                ctx.fail("Totals {}: {} expected {}".format(c, row[c], v),
                         "total:" + c.split("_")[0])
    return True


def parse(text, names):
    out = {"tests": [], "trends": []}
    for line in text.splitlines():
        s = line.strip()
        for nm in sorted(names, key=len, reverse=True):
            if s.startswith(nm + " ") and nm not in out:
                v = s[len(nm):].strip()
                if v.startswith("("):
                    continue
                out[nm] = v
                break
        if s.startswith("Class "):
            out["trends"].append(" ".join(s.split()[2:]))
        p = s.split()
        if len(p) == 4 and p[0].isdigit() and p[1].isdigit():
            out["tests"].append([int(p[0]), int(p[1])] +
                                [float(v) for v in p[2:]])
    return out


def report(bt):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        bt.analysis()
    return buf.getvalue()


def tests_ok(rep, tests, ctx):
    if len(rep["tests"]) != len(tests):
        ctx.fail("{} significance tests, expected {}".format(
            len(rep["tests"]), len(tests)), "ntests")
        return
    for k, (row, (t, p)) in enumerate(zip(rep["tests"], tests)):
        if row[0] != k or row[1] != k + 1 or \
                not ref.close(row[2], t, 1e-4, 1e-5) or \
                not ref.close(row[3], p, 2e-4, 2e-6):
            ctx.fail("significance test {}: {} expected {}".format(
                k, row, (t, p)), "tests")


def cont(desc, ctx):
    n = len(desc["c"])
    cells = [list(TV[i]) for i in desc["c"]]
    groups = [list(g) for g in CSP[desc["sp"]]]
    miss = list(CMI[desc["mi"]])
    o = fit(desc, cells, groups, miss)
    ctx.step()
    bt = o.binning_table
    tot = desc.get("tot", True)
    df = bt.build(show_digits=desc.get("dg", 2), add_totals=tot)
    lay = layout(desc, o, n, ctx)
    body = [[v for i in sorted(ids) for v in cells[i]] for _, ids in lay]
    if not desc.get("free"):
        ctx.check(len(body) == n, "{} bins instead of {}".format(
            len(body), n), "nbins")
    samp = body + (groups or [[]]) + [miss]
    N = sum(map(len, samp))
    S = math.fsum(v for s in samp for v in s)
    mu = S / N
    R, m_, sd_ = [], [], []
    for s in samp:
        m = math.fsum(s) / len(s) if s else 0.0
        sd = math.sqrt(math.fsum((v - m) ** 2 for v in s) / len(s)) if s \
            else None
        m_.append(m)
        sd_.append(sd)
        R.append([len(s), len(s) / N, math.fsum(s), sd, m,
                  min(s) if s else None, max(s) if s else None,
                  sum(v == 0 for v in s), m - mu, abs(m - mu) * len(s) / N])
    ctx.state([samp])
    cols = ["Count", "Count (%)", "Sum", "Std", "Mean", "Min", "Max",
            "Zeros count", "WoE", "IV"]
    allv = [v for s in samp for v in s]
    iv = sum(r[9] for r in R)
    woe = sum(abs(r[8]) for r in R)
    if not compare_cont(df, cols, R, [a for a, _ in lay] + tail_labels(desc),
                        tot, {"Count": N, "Count (%)": 1, "Sum": S,
                              "Mean": mu, "Min": min(allv), "Max": max(allv),
                              "Zeros count": sum(v == 0 for v in allv),
                              "WoE": woe, "IV": iv}, ctx):
        return
    hhi = sum(r[1] ** 2 for r in R)
    hhin = (hhi - 1 / len(R)) / (1 - 1 / len(R))
    for nm, v in (("iv", iv), ("woe", woe)):
        if not ref.close(getattr(bt, nm), v):
            ctx.fail("{} = {} expected {}".format(nm, getattr(bt, nm), v),
                     "metric:" + nm)
    rep = parse(report(bt), ["IV", "WoE", "WoE (normalized)", "HHI",
                             "HHI (normalized)", "Quality score",
                             "Monotonic trend"])
    ctx.step()
    nb = len(body) - int(bool(desc.get("oth")))
    tests, qs, nan = [], 1.0, False
    for i in range(nb - 1):
        t, p = st.ttest_ind_from_stats(m_[i], sd_[i], len(body[i]), m_[i + 1],
                                       sd_[i + 1], len(body[i + 1]), False)
        tests.append((t, p))
        qs *= 1 - p
    rwoe = woe if mu == 0 else woe / abs(mu)
    qs *= (max(1 - 1 / rwoe, 0) if rwoe else 0) * (1 - hhin)
    if not ref.close(bt.quality_score, qs, 1e-7, 1e-9):
        ctx.fail("quality score {} expected {}".format(bt.quality_score, qs),
                 "quality")
    for nm, v in (("HHI", hhi), ("HHI (normalized)", hhin), ("IV", iv),
                  ("WoE", woe), ("WoE (normalized)", rwoe),
                  ("Quality score", qs)):
        if nm not in rep or not ref.close(float(rep[nm]), v, 1e-9, 2e-8):
            ctx.fail("analysis {}: {} expected {}".format(nm, rep.get(nm), v),
                     "analysis:" + nm)
    tr = trend(m_[:nb])
    ctx.outcome("con " + str(rep.get("Monotonic trend")))
    if tr is not None and tr != rep.get("Monotonic trend", "").split(" (")[0]:
        ctx.fail("trend {!r} expected {!r} for {}".format(
            rep.get("Monotonic trend"), tr, m_[:nb]), "trend")
    tests_ok(rep, tests, ctx)
    ctx.agree()


compare_cont = compare


def multi(desc, ctx):
    n = len(desc["c"])
    lab = desc.get("labels", [0, 1, 2])
    K = len(lab)
    cells = [(MV[i] + (M4[i],))[:K] for i in desc["c"]]
    groups = [(g + (g[1],))[:K] for g in MSP[desc["sp"]]]
    miss = (MMI[desc["mi"]] + (1,))[:K]
    if not all(any(c[k] for c in cells) for k in range(K)):
        ctx.outcome("class without clean rows")
        return

    def rows(c):
        return [lab[k] for k in range(K) for _ in range(c[k])]
    o = fit(desc, [rows(c) for c in cells], [rows(g) for g in groups],
            rows(miss))
    ctx.step()
    bt = o.binning_table
    tot = desc.get("tot", True)
    df = bt.build(show_digits=desc.get("dg", 2), add_totals=tot)
    lay = layout(desc, o, n, ctx)
    if not desc.get("free") and full(desc):
        ctx.check(len(lay) == n, "{} bins instead of {}".format(
            len(lay), n), "nbins")
    body = [tuple(sum(cells[i][k] for i in ids) for k in range(K))
            for _, ids in lay]
    cnt = body + (groups or [(0,) * K]) + [miss]
    ctx.state([cnt])
    N = sum(map(sum, cnt))
    order = sorted(range(K), key=lambda k: lab[k])
    names = [lab[k] for k in order]
    cnt = [tuple(c[k] for k in order) for c in cnt]
    body = [tuple(c[k] for k in order) for c in body]
    tk = [sum(c[k] for c in cnt) for k in range(K)]
    R = []
    for c in cnt:
        s = sum(c)
        R.append([s, s / N] + list(c) +
                 [v / s if s else 0.0 for v in c])
    cols = ["Count", "Count (%)"] + ["Event_%s" % v for v in names] + \
        ["Event_rate_%s" % v for v in names]
    totals = {"Count": N, "Count (%)": 1}
    for v, t in zip(names, tk):
        totals["Event_%s" % v] = t
        totals["Event_rate_%s" % v] = t / N
    if not compare(df, cols, R, [a for a, _ in lay] + tail_labels(desc), tot,
                   totals, ctx):
        return

    def ent(p):
        return -sum(v * math.log(v) for v in p if v > 0)
    P = [[c[k] / tk[k] for c in cnt] for k in range(K)]
    js = ent([sum(P[k][i] for k in range(K)) / K for i in range(len(cnt))]) \
        - sum(ent(p) for p in P) / K
    hhi = sum(r[1] ** 2 for r in R)
    hhin = (hhi - 1 / len(R)) / (1 - 1 / len(R))
    if not ref.close(bt.js, js):
        ctx.fail("js {} expected {}".format(bt.js, js), "metric:js")
    rep = parse(report(bt), ["JS (Jensen-Shannon)", "HHI",
                             "HHI (normalized)", "Cramer's V",
                             "Quality score"])
    ctx.step()
    tests, c0 = [], 0.39573882184806863
    jn = js / math.log(K)
    qs = jn * math.exp(.5 * (1 - (jn / c0) ** 2)) / c0 * (1 - hhin)
    for a, b in zip(body, body[1:]):
        t, p = chi2(np.array([a, b]))
        tests.append((t, p))
        qs *= 1 - p
    cv = 0.0
    if len(body) > 1:
        t, _ = chi2(np.array(body))
        cv = math.sqrt(t / sum(map(sum, body)) / min(K - 1, len(body) - 1))
    if not ref.close(bt.quality_score, qs, 1e-7, 1e-9):
        ctx.fail("quality score {} expected {}".format(bt.quality_score, qs),
                 "quality")
    for nm, v in (("HHI", hhi), ("HHI (normalized)", hhin),
                  ("JS (Jensen-Shannon)", js), ("Cramer's V", cv),
                  ("Quality score", qs)):
        if nm not in rep or not ref.close(float(rep[nm]), v, 1e-9, 2e-8):
            ctx.fail("analysis {}: {} expected {}".format(nm, rep.get(nm), v),
                     "analysis:" + nm)
    for k in range(K):
        tr = trend([c[k] / sum(c) for c in body])
        got = rep["trends"][k] if k < len(rep["trends"]) else ""
        ctx.outcome("mul " + got)
        if tr is not None and tr != got.split(" (")[0]:
            ctx.fail("class {} trend {!r} expected {!r} for {}".format(
                k, got, tr, body), "trend")
    tests_ok(rep, tests, ctx)
    ctx.agree()
