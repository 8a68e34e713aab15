"""Reference of the automatic monotonic trend classifiers.

The features follow the published description (trend changes, regression
sense, shares of records at each side of the extremes, areas of the extreme
point triangles and of the convex hull); the thresholds of the two trained
decision trees are data. Leaves are numbered for coverage.
"""
import math
from fractions import Fraction as F

import numpy as np

# (feature, threshold, left if <= else right); leaf = (trend, leaf id)
A, D, P, V = "ascending", "descending", "peak", "valley"
AUTO = ("p_area", 0.22145836800033838,
        ("sense", 0.5,
         ("hull", 0.48331470787525177,
          ("min_right", 0.010740397498011589, (D, 1),
           ("min_right", 0.022145185619592667, (V, 2), (D, 3))),
          ("max_right", 0.6426683664321899, (V, 4), (D, 5))),
         (A, 6)),
        ("min_right", 0.06137961149215698,
         ("hull", 0.23837491869926453, (D, 7),
          ("max_left", 0.10170064494013786,
           ("max_left", 0.01817034650593996, (V, 8), (D, 9)), (P, 10))),
         ("min_left", 0.05336669087409973,
          ("max_right", 0.0695494469255209, (A, 11),
           ("max_left", 0.14705360680818558, (A, 12), (P, 13))),
          ("min_left", 0.8308950066566467, (V, 14),
           ("max_right", 0.1587613895535469, (V, 15), (P, 16))))))
ASC_DESC = ("sense", 0.5,
            ("p_area", 0.4890555590391159,
             ("max_right", 0.029244758188724518, (A, 1), (D, 2)),
             ("hull", 0.5553120970726013, (A, 3), (D, 4))),
            ("max_left", 0.03698493912816048, (D, 5),
             ("min_left", 0.7991077601909637,
              ("p_area", 0.48206718266010284, (A, 6),
               ("max_left", 0.8631451725959778, (A, 7), (D, 8))),
              ("changes", 0.5277777910232544,
               ("min_left", 0.8155287206172943, (D, 9), (A, 10)),
               (D, 11)))))


def tri(a, b, c):
    return abs((b[0] - a[0]) * (c[1] - a[1]) -
               (c[0] - a[0]) * (b[1] - a[1])) / 2


def hull_area(pts):
    """monotone chain, exact"""
    pts = sorted(pts)

    def half(ps):
        h = []
        for p in ps:
            while len(h) > 1 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - \
                    (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h
    ring = half(pts)[:-1] + half(pts[::-1])[:-1]
    return abs(sum(ring[i][0] * ring[(i + 1) % len(ring)][1] -
                   ring[(i + 1) % len(ring)][0] * ring[i][1]
                   for i in range(len(ring)))) / 2


def features(records, rates):
    """exact features; records ints, rates Fractions. None if degenerate
    (a feature sits on the decision boundary of rounding)."""
    n = len(rates)
    r = rates
    if max(r) == min(r):
        return None
    sg = [(b > a) - (b < a) for a, b in zip(r, r[1:])]
    changes = F(sum(a != b for a, b in zip(sg, sg[1:])), n)
    xm = F(n - 1, 2)
    slope = sum((i - xm) * v for i, v in enumerate(r))
    if slope == 0:
        return None
    lo, hi = r.index(min(r)), r.index(max(r))
    tot = sum(records)

    def share(a):
        return F(sum(a), tot)
    f = {"changes": changes, "sense": 1 if slope > 0 else 0,
         "min_left": share(records[:lo]), "min_right": share(records[lo + 1:]),
         "max_left": share(records[:hi]), "max_right": share(records[hi + 1:])}
    rect = (max(r) - min(r)) * n
    if n > 2:
        a = tri((0, r[0]), (lo, r[lo]), (hi, r[hi])) + \
            tri((lo, r[lo]), (hi, r[hi]), (n, r[-1]))
        f["p_area"] = a / rect
        f["hull"] = hull_area([(F(i), v) for i, v in enumerate(r)]) / rect
    else:
        f["p_area"] = f["hull"] = F(0)
    return f


def decide(mode, records, rates):
    """-> (trend, leaf) or None when the classifier input is degenerate"""
    f = features(records, rates)
    if f is None:
        return None
    node = AUTO if mode in ("auto", "auto_heuristic") else ASC_DESC
    while len(node) > 2:
        node = node[2] if float(f[node[0]]) <= node[1] else node[3]
    return node


ALLOWED = {"auto": (A, D, P, V), "auto_heuristic": (A, D, P, V),
           "auto_asc_desc": (A, D)}
