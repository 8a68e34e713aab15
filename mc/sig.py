"""Observable signature of any fitted binning object, and its comparison."""
import math

import numpy as np
import pandas as pd


def flat(v, out):
    if isinstance(v, pd.DataFrame):
        flat(list(v.columns), out)
        flat([str(i) for i in v.index], out)
        for c in v.columns:
            flat(v[c].tolist(), out)
    elif isinstance(v, dict):
        for k in v:
            flat(k, out)
            flat(v[k], out)
    elif isinstance(v, (pd.Series, np.ndarray, list, tuple, pd.Index)):
        out.append("[")
        for w in (v.tolist() if hasattr(v, "tolist") else v):
            flat(w, out)
        out.append("]")
    elif isinstance(v, (bool, np.bool_)):
        out.append(bool(v))
    elif isinstance(v, (int, float, np.number)):
        out.append(float(v))
    else:
        out.append(str(v))
    return out


def same(a, b, tol=1e-9):
    """None if equal, otherwise a short description"""
    a, b = flat(a, []), flat(b, [])
    if len(a) != len(b):
        return "{} vs {}".format(a[:40], b[:40])
    for i, (p, q) in enumerate(zip(a, b)):
        if isinstance(p, float) and isinstance(q, float):
            if p == q or (math.isnan(p) and math.isnan(q)):
                continue
            if abs(p - q) <= tol * max(1.0, abs(p), abs(q)):
                continue
            return "item {}: {} vs {}".format(i, p, q)
        if p != q:
            return "item {}: {!r} vs {!r}".format(i, p, q)
    return None


def guard(f):
    try:
        return f()
    except (ValueError, ZeroDivisionError) as e:
        return "raised {}".format(type(e).__name__)
