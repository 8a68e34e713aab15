"""Drive the real optimal binning classes on a vector of prebin cells.

Prebin i holds x = i; user splits i + 0.5 make every cell one prebin, so that
the returned splits name a grouping of the cells.
"""
import numpy as np

CLASSES = {}


def _load():
    if not CLASSES:
        from optbinning import (ContinuousOptimalBinning,
                                MulticlassOptimalBinning, OptimalBinning)
        CLASSES.update(binary=OptimalBinning,
                       continuous=ContinuousOptimalBinning,
                       multiclass=MulticlassOptimalBinning)
    return CLASSES


def rows(target, cells):
    x, y = [], []
    for i, c in enumerate(cells):
        if target == "continuous":
            x += [i] * len(c)
            y += list(c)
        else:
            for k, cnt in enumerate(c):
                x += [i] * cnt
                y += [k] * cnt
    return np.array(x, dtype=float), np.array(y)


def fit(target, cells, c, solver=None, extra=(), shift=0.0):
    """extra: [(x value, y value)] rows appended (missing / special -99).

    Returns (status, grouping or None, n_total, optb)."""
    kw = {k: v for k, v in c.items() if k not in ("fixed", "zeros")}
    n = len(cells)
    if isinstance(kw.get("monotonic_trend"), tuple):
        kw["monotonic_trend"] = list(kw["monotonic_trend"])
    x, y = rows(target, cells)
    if extra:
        x = np.concatenate([x, [e[0] for e in extra]])
        y = np.concatenate([y, [e[1] for e in extra]])
    splits = [i + 0.5 for i in range(n - 1)]
    if c.get("fixed"):
        kw["user_splits_fixed"] = list(c["fixed"])
    if solver:
        kw["solver"] = solver
    o = _load()[target](user_splits=splits, min_prebin_size=0.001,
                        special_codes=[-99.0], **kw)
    o.fit(x, y)
    cuts = []
    for s in o.splits:
        i = float(s) - 0.5
        if i != int(i) or not 0 <= i < n - 1:
            raise AssertionError("split {} is not a prebin boundary".format(s))
        cuts.append(int(i) + 1)
    if sorted(set(cuts)) != cuts:
        raise AssertionError("splits {} not strictly increasing".format(cuts))
    g = list(zip([0] + cuts, cuts + [n]))
    return o.status, g, len(x), o
