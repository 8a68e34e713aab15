"""C02: binary binning table statistics equal their definitions."""
import contextlib
import io
import itertools
import math

import numpy as np
from scipy import stats as st

from mc import ref

PROPERTY = "C02"
RULE = ("Every vector of per-bin (non-event, event) counts from a small set "
        "(with empty classes), for 1-4 bins, crossed with every layout of "
        "special groups and missing counts, categorical variables with an "
        "others bin, and table options, is turned into rows and fitted by the "
        "real OptimalBinning with fixed splits; every cell, total, metric, "
        "trend label and significance test of build() and analysis() is "
        "compared with formulas evaluated by an independent reference.")
ASSUMPTIONS = ["P[A > B] is a quadrature: compared within 0.02 of the exact "
               "value for n_samples=100",
               "trend labels are compared for strictly monotone or strictly "
               "unimodal event rates"]

QP = [(1, 1), (3, 1), (1, 4), (2, 0), (0, 2), (5, 3)]
SPROWS = {"none": [], "list": [(1, 2)], "lne": [(2, 0)], "lev": [(0, 3)],
          "dict2": [(1, 2), (3, 0)], "dict3": [(1, 1), (0, 0), (0, 2)],
          "dict1": [(4, 1)]}
MISS = [(0, 0), (1, 2), (0, 2), (3, 0)]


def spec(sp):
    if sp == "none":
        return None
    if sp.startswith("l"):
        return [-9.0]
    return {"g%d" % i: [-9.0 - i] if i % 2 else -9.0 - i
            for i in range(len(SPROWS[sp]))}


def tasks(tier):
    q = tier == "quick"
    pairs = QP
    # numerical
    for n in (1, 2, 3):
        for c in itertools.product(pairs, repeat=n):
            for sp in SPROWS:
                for mi in range(len(MISS)):
                    if q and n == 3 and (hash_(c) + mi * 2 + len(sp)) % 3:
                        continue
                    yield {"d": "num", "c": c, "sp": sp, "mi": mi,
                           "ana": "chi2" if n < 3 or mi % 2 else "fisher"}
    p4 = [(1, 1), (3, 1), (1, 4), (0, 2)] if q else QP
    for c in itertools.product(p4, repeat=4):
        for sp, mi in (("none", 0), ("list", 1), ("dict2", 1)) if q else \
                itertools.product(SPROWS, range(len(MISS))):
            yield {"d": "num", "c": c, "sp": sp, "mi": mi, "ana": "chi2"}
    # digits of labels and totals switched off
    for c in itertools.product(pairs[:4], repeat=2 if q else 3):
        for dg in (0, 1, 2, 4, 8):
            for tot in (True, False):
                yield {"d": "num", "c": c, "sp": "dict2", "mi": 1, "dg": dg,
                       "tot": tot, "ana": "fisher"}
    # categorical, with and without others
    for n in (2, 3, 4):
        for c in itertools.product(pairs[:4] if n == 4 else pairs, repeat=n):
            for sp, mi in (("none", 0), ("list", 1), ("dict2", 3)):
                for oth in (0, 1):
                    if q and n == 4 and (hash_(c) + oth + mi) % 4:
                        continue
                    yield {"d": "cat", "c": c, "sp": sp, "mi": mi,
                           "oth": oth, "ana": "chi2"}
    # free optimisation (bins are unions of cells), five cells
    for c in itertools.product(pairs[:3], repeat=5):
        yield {"d": "num", "c": c, "sp": "dict2", "mi": 1, "free": 1,
               "ana": "chi2"}


def hash_(c):
    return sum((i + 1) * (3 * a + b) for i, (a, b) in enumerate(c))


CUTS = [0.5, 1.25, 2.125, 3.0625]


def rows(desc):
    """[(row key, x, y)]"""
    out = []
    cat = desc["d"] == "cat"
    for i, (a, b) in enumerate(desc["c"]):
        v = ("c%d" % i) if cat else float(i)
        out += [(("bin", i), v, 0)] * a + [(("bin", i), v, 1)] * b
    for g, (a, b) in enumerate(SPROWS[desc["sp"]]):
        v = ("s%d" % g) if cat else -9.0 - g
        out += [(("sp", g), v, 0)] * a + [(("sp", g), v, 1)] * b
    a, b = MISS[desc["mi"]]
    v = None if cat else float("nan")
    out += [(("mi", 0), v, 0)] * a + [(("mi", 0), v, 1)] * b
    return out


def run(desc, ctx):
    from optbinning import OptimalBinning
    rs = rows(desc)
    y = np.array([r[2] for r in rs])
    te, tn = int(y.sum()), int(len(y) - y.sum())
    ce = sum(b for _, b in desc["c"])
    if not te or not tn:
        ctx.outcome("single class")
        return
    n = len(desc["c"])
    cat = desc["d"] == "cat"
    bins = desc["c"][:n - 1] if cat and desc["oth"] else desc["c"]
    fix = any(a for a, _ in bins) and any(b for _, b in bins)
    sp = spec(desc["sp"])
    if cat and sp is not None:
        if isinstance(sp, dict):
            sp = {k: ["s%d" % i] if isinstance(v, list) else "s%d" % i
                  for i, (k, v) in enumerate(sp.items())}
        else:
            sp = ["s0"]
    kw = dict(special_codes=sp, divergence="hellinger", min_prebin_size=1e-4,
              monotonic_trend=None)
    if cat:
        x = np.array([r[1] for r in rs], dtype=object)
        nb = n - 1 if desc["oth"] else n
        kw["user_splits"] = np.array([["c%d" % i] for i in range(nb)],
                                     dtype=object)
        if fix:
            kw["user_splits_fixed"] = [True] * nb
    else:
        x = np.array([r[1] for r in rs], dtype=float)
        kw["user_splits"] = CUTS[:n - 1] if n > 1 else []
        if not desc.get("free") and n > 1 and fix:
            kw["user_splits_fixed"] = [True] * (n - 1)
        if desc.get("free"):
            kw["divergence"] = "iv"
    o = OptimalBinning(dtype="categorical" if cat else "numerical", **kw)
    o.fit(x, y)
    ctx.step()
    bt = o.binning_table
    dg, tot = desc.get("dg", 2), desc.get("tot", True)
    df = bt.build(show_digits=dg, add_totals=tot)
    # ---- expected rows ----------------------------------------------------
    groups = []          # [(label, predicate on row key)]
    others = 0
    if cat:
        seen = set()
        for s in o.splits:
            ids = frozenset(int(str(v)[1:]) for v in s)
            seen |= ids
            groups.append(("/".join(str(v) for v in s), ids))
        rest = frozenset(range(n)) - seen
        ctx.check(not rest, lambda: "categories {} in no bin".format(rest),
                  "lost")
        # categories absent from the user splits form the last, others bin
        others = int(bool(desc["oth"]))
    else:
        spl = [float(s) for s in o.splits]
        for i in range(len(spl) + 1):
            ids = frozenset(k for k in range(n) if ref.bin_of(k, spl) == i)
            groups.append((None, ids))
    if not desc.get("free") and not cat and \
            all(a and b for a, b in desc["c"]):
        ctx.check(len(groups) == n, lambda: "{} bins instead of {} with fixed "
                  "splits".format(len(groups), n), "nbins")
    cnt = []
    for _, ids in groups:
        cnt.append((sum(desc["c"][i][0] for i in ids),
                    sum(desc["c"][i][1] for i in ids)))
    nb = len(cnt) - others
    spr = SPROWS[desc["sp"]] if isinstance(sp, dict) else \
        (SPROWS[desc["sp"]] or [(0, 0)])
    cnt += list(spr) + [MISS[desc["mi"]]]
    labels = []
    if not cat:
        f = "{:.%df}" % dg
        e = ["-inf"] + [f.format(s) for s in spl] + ["inf"]
        for i in range(len(e) - 1):
            labels.append("{}{}, {})".format("(" if i == 0 else "[", e[i],
                                             e[i + 1]))
    else:
        labels = [None] * len(groups)
    labels += (list(sp) if isinstance(sp, dict) else ["Special"]) + ["Missing"]

    N = te + tn
    R = []
    for ne, ev in cnt:
        p, q = ev / te, ne / tn
        R.append([ne + ev, (ne + ev) / N, ne, ev,
                  ev / (ne + ev) if ne + ev else 0.0,
                  ref.woe(ev, ne, te, tn),
                  ref.iv_term(p, q), ref.js_term(p, q)])
    ctx.state([cnt, te, tn, others])
    cols = ["Count", "Count (%)", "Non-event", "Event", "Event rate", "WoE",
            "IV", "JS"]
    ctx.check(len(df) == len(R) + tot, lambda: "{} rows, expected {}".format(
        len(df), len(R) + tot), "rows")
    if len(df) != len(R) + tot:
        return
    for i, r in enumerate(R):
        row = df.iloc[i]
        for c, v in zip(cols, r):
            if not ref.close(row[c], v, 1e-9, 1e-11):
                ctx.fail("row {} ({}) {}: {} expected {}; counts {}".format(
                    i, row["Bin"], c, row[c], v, cnt), "cell:" + c)
        if labels[i] is not None and str(row["Bin"]) != labels[i]:
            ctx.fail("label {!r} expected {!r}".format(row["Bin"], labels[i]),
                     "label")
    iv = sum(r[6] for r in R)
    js = sum(r[7] for r in R)
    if tot:
        row = df.loc["Totals"]
        for c, v in (("Count", N), ("Count (%)", 1), ("Non-event", tn),
                     ("Event", te), ("Event rate", te / N), ("IV", iv),
                     ("JS", js)):
            if not ref.close(row[c], v):
                ctx.fail("Totals {}: {} expected {}".format(c, row[c], v),
                         "total:" + c)
    elif "Totals" in df.index:
        ctx.fail("Totals row although add_totals=False", "total")
    # ---- aggregate metrics -------------------------------------------------
    # gini: 2 * area under the Lorenz curve - 1, sorted by event rate
    conc = sum(a[1] * b[0] * (1 if a[1] * b[0] > b[1] * a[0] else
                              -1 if a[1] * b[0] < b[1] * a[0] else 0)
               for a in cnt for b in cnt)
    # P(rate of a random event > rate of a random non-event) - P(<)
    rate = [ev / (ne + ev) if ne + ev else 0 for ne, ev in cnt]
    conc = sum(a[1] * b[0] * ((ra > rb) - (ra < rb))
               for a, ra in zip(cnt, rate) for b, rb in zip(cnt, rate))
    gini = conc / (te * tn)
    cum = np.cumsum([[ne / tn, ev / te] for ne, ev in cnt], axis=0)
    ks = max(abs(a - b) for a, b in cum)
    both = [(ev / te, ne / tn) for ne, ev in cnt if ev and ne]
    hell = sum(ref.hellinger_term(p, q) for p, q in both)
    tri = sum(ref.triangular_term(p, q) for p, q in both)
    hhi = sum(r[1] ** 2 for r in R)
    hhin = 1 if len(R) == 1 else (hhi - 1 / len(R)) / (1 - 1 / len(R))
    for nm, v in (("gini", gini), ("iv", iv), ("js", js),
                  ("hellinger", hell), ("triangular", tri), ("ks", ks)):
        got = getattr(bt, nm)
        if not ref.close(got, v):
            ctx.fail("{} = {} expected {}; counts {}".format(nm, got, v, cnt),
                     "metric:" + nm)
    # ---- analysis -----------------------------------------------------------
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        bt.analysis(pvalue_test=desc["ana"], n_samples=100)
    ctx.step()
    rep = parse(buf.getvalue())
    body = cnt[:nb]
    pv = []
    tests = []
    for a, b in zip(body, body[1:]):
        if desc["ana"] == "chi2":
            t, p = chi2(np.array([a, b]))
        else:
            t = (a[0] * b[1]) / (b[0] * a[1]) if b[0] * a[1] else float("nan")
            p = fisher(a, b)
        pv.append(p)
        tests.append((t, p, beats(a, b)))
    cv = 0.0
    if nb >= 2:
        t, _ = chi2(np.array(body))
        cv = math.sqrt(t / sum(map(sum, body)))
    c0 = 0.39573882184806863
    qs = iv * math.exp(.5 * (1 - (iv / c0) ** 2)) / c0
    for p in pv:
        qs *= 1 - p
    qs *= 1 - hhin
    if not ref.close(bt.quality_score, qs, 1e-7, 1e-9):
        ctx.fail("quality score {} expected {}; counts {}".format(
            bt.quality_score, qs, cnt), "quality")
    for nm, v in (("HHI", hhi), ("HHI (normalized)", hhin),
                  ("Cramer's V", cv), ("Gini index", gini),
                  ("IV (Jeffrey)", iv), ("JS (Jensen-Shannon)", js),
                  ("Hellinger", hell), ("Triangular", tri), ("KS", ks),
                  ("Quality score", qs)):
        if nm not in rep or not ref.close(float(rep[nm]), v, 0, 2e-8):
            ctx.fail("analysis {}: {} expected {}; counts {}".format(
                nm, rep.get(nm), v, cnt), "analysis:" + nm)
    tr = trend([ev / (ev + ne) for ne, ev in body])
    if tr is not None and tr != rep.get("Monotonic trend", "").split(" (")[0]:
        ctx.fail("trend {!r} expected {!r} for {}".format(
            rep.get("Monotonic trend"), tr, body), "trend")
    ctx.outcome("trend " + str(rep.get("Monotonic trend")))
    if len(rep["tests"]) != len(tests):
        ctx.fail("{} significance tests, expected {}".format(
            len(rep["tests"]), len(tests)), "ntests")
    else:
        for k, (row, (t, p, ab)) in enumerate(zip(rep["tests"], tests)):
            ok = row[0] == k and row[1] == k + 1
            if ok and not math.isnan(t):
                ok = ref.close(row[2], t, 1e-4, 1e-5)
            ok = ok and ref.close(row[3], p, 2e-4, 2e-6)
            if ok and ab is not None:
                ok = abs(row[4] - ab) < 0.02 and \
                    abs(row[4] + row[5] - 1) < 1e-5
            if not ok:
                ctx.fail("significance test {}: {} expected {}".format(
                    k, row, (t, p, ab)), "tests")
    ctx.agree()


def parse(text):
    out = {"tests": []}
    for line in text.splitlines():
        s = line.strip()
        for nm in ("HHI (normalized)", "HHI", "Cramer's V", "Gini index",
                   "IV (Jeffrey)", "JS (Jensen-Shannon)", "Hellinger",
                   "Triangular", "KS", "Quality score", "Monotonic trend"):
            if s.startswith(nm + " ") and nm not in out:
                v = s[len(nm):].strip()
                if nm == "HHI" and v.startswith("("):
                    continue
                out[nm] = v
        p = s.split()
        if len(p) == 6 and p[0].isdigit() and p[1].isdigit():
            out["tests"].append([int(p[0]), int(p[1])] +
                                [float(v) for v in p[2:]])
    return out


def chi2(obs):
    obs = obs[obs.sum(axis=1) > 0]
    obs = obs[:, obs.sum(axis=0) > 0]
    if min(obs.shape) < 2:
        return 0.0, 1.0
    n = obs.sum()
    t = 0.0
    for i in range(obs.shape[0]):
        for j in range(obs.shape[1]):
            e = obs[i].sum() * obs[:, j].sum() / n
            t += (obs[i, j] - e) ** 2 / e
    return t, st.chi2.sf(t, (obs.shape[0] - 1) * (obs.shape[1] - 1))


def fisher(a, b):
    """two-sided exact p-value by summing hypergeometric probabilities"""
    r1, k, n = a[0] + a[1], a[0] + b[0], sum(a) + sum(b)

    def pr(x):
        if x < 0 or r1 - x < 0 or k - x < 0 or n - r1 - k + x < 0:
            return 0.0
        return math.comb(k, x) * math.comb(n - k, r1 - x) / math.comb(n, r1)
    p0 = pr(a[0])
    return min(1.0, sum(pr(x) for x in range(0, r1 + 1)
                        if pr(x) <= p0 * (1 + 1e-7)))


def beats(a, b):
    """P[rate A > rate B] for Beta(event, non-event) rates, exact; None if
    a class is empty."""
    (na, ea), (nb, eb) = a, b
    if not (na and ea and nb and eb):
        return None
    lb = math.lgamma

    def lB(u, v):
        return lb(u) + lb(v) - lb(u + v)
    # P(X_A > X_B) with X ~ Beta(e, n), integer parameters
    s = 0.0
    for i in range(ea):
        s += math.exp(lB(eb + i, na + nb) - math.log(na + i) -
                      lB(1 + i, na) - lB(eb, nb))
    return s


def trend(r):
    if len(r) == 1:
        return "undefined"
    d = [b - a for a, b in zip(r, r[1:])]
    if any(abs(v) < 1e-9 for v in d):
        return None
    sg = [v > 0 for v in d]
    ch = sum(a != b for a, b in zip(sg, sg[1:]))
    if ch == 0:
        return "ascending" if sg[0] else "descending"
    if ch == 1:
        return "peak" if sg[0] else "valley"
    return "no monotonic"
