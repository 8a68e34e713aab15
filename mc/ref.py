"""Reference definitions, written from the documentation; independent of /repo."""
import math

import numpy as np


def is_nan(v):
    return v is None or (isinstance(v, float) and math.isnan(v))


def edges(splits):
    return [-math.inf] + [float(s) for s in splits] + [math.inf]


def bin_of(v, splits):
    """index of the half-open interval [a, b) that contains v"""
    e = edges(splits)
    for i in range(len(e) - 1):
        lo_ok = (e[i] <= v) or (i == 0)
        hi_ok = (v < e[i + 1]) or (i == len(e) - 2)
        if lo_ok and hi_ok:
            return i
    raise AssertionError((v, splits))


def special_groups(special_codes):
    """[(label, [codes])]"""
    if special_codes is None:
        return [("Special", [])]
    if isinstance(special_codes, dict):
        return [(k, list(v) if isinstance(v, (list, tuple, np.ndarray))
                 else [v]) for k, v in special_codes.items()]
    return [("Special", list(special_codes))]


def classify(v, special_codes):
    """'missing' | ('special', g) | 'clean'"""
    if is_nan(v):
        return "missing"
    for g, (_, codes) in enumerate(special_groups(special_codes)):
        for c in codes:
            if v == c:
                return ("special", g)
    return "clean"


# --- divergences between distributions p (event) and q (non-event) --------
def _xlogxy(p, q):
    return p * math.log(p / q)


def iv_term(p, q):
    if p <= 0 or q <= 0:
        return 0.0
    return (p - q) * math.log(p / q)


def js_term(p, q):
    if p <= 0 or q <= 0:
        return 0.0
    m = 0.5 * (p + q)
    return 0.5 * (_xlogxy(p, m) + _xlogxy(q, m))


def hellinger_term(p, q):
    return 0.5 * (math.sqrt(p) - math.sqrt(q)) ** 2


def triangular_term(p, q):
    if p + q <= 0:
        return 0.0
    return (p - q) ** 2 / (p + q)


DIV = {"iv": iv_term, "js": js_term, "hellinger": hellinger_term,
       "triangular": triangular_term}


def woe(e, ne, te, tne):
    if e <= 0 or ne <= 0:
        return 0.0
    return math.log((ne / tne) / (e / te))


# --- trends ------------------------------------------------------------
EPS = 1e-9


def asc(v, d=0.0, eps=EPS):
    return all(v[i + 1] - v[i] >= d - eps for i in range(len(v) - 1))


def desc(v, d=0.0, eps=EPS):
    return all(v[i] - v[i + 1] >= d - eps for i in range(len(v) - 1))


def peak(v, eps=EPS):
    """non-decreasing up to some position, non-increasing after"""
    return any(asc(v[:t + 1], 0, eps) and desc(v[t:], 0, eps)
               for t in range(max(len(v), 1)))


def valley(v, eps=EPS):
    return peak([-a for a in v], eps)


def convex(v, eps=EPS):
    return all(v[i] + v[i + 2] - 2 * v[i + 1] >= -eps
               for i in range(len(v) - 2))


def concave(v, eps=EPS):
    return convex([-a for a in v], eps)


TREND = {"ascending": asc, "descending": desc, "peak": peak,
         "valley": valley, "convex": convex, "concave": concave,
         "peak_heuristic": peak, "valley_heuristic": valley}


def close(a, b, rel=1e-9, abs_=1e-9):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def groupings(n):
    """every grouping of n consecutive prebins: tuple of end positions"""
    for m in range(2 ** (n - 1)):
        g, start = [], 0
        for i in range(n - 1):
            if m >> i & 1:
                g.append((start, i + 1))
                start = i + 1
        g.append((start, n))
        yield g
