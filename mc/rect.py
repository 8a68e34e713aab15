"""Reference model of the two-dimensional binning problem.

Cells are addressed (i, j) with i the y position and j the x position.  A
rectangle is (i0, i1, j0, j1), both ends included.
"""
import functools
import itertools
import math


@functools.lru_cache(None)
def partitions(m, n):
    """Every partition of the m x n grid (m rows in y) into rectangles."""
    out = []

    def rec(free, acc):
        if not free:
            out.append(tuple(acc))
            return
        i0, j0 = min(free)
        for i1 in range(i0, m):
            if (i1, j0) not in free:
                break
            for j1 in range(j0, n):
                cells = {(i, j) for i in range(i0, i1 + 1)
                         for j in range(j0, j1 + 1)}
                if not cells <= free:
                    break
                rec(free - cells, acc + [(i0, i1, j0, j1)])

    rec(frozenset((i, j) for i in range(m) for j in range(n)), [])
    return out


@functools.lru_cache(None)
def adjacent(a, b):
    """'x' if b touches the right side of a, 'y' if it lies just above."""
    if b[2] == a[3] + 1 and a[0] <= b[1] and b[0] <= a[1]:
        return "x"
    if b[0] == a[1] + 1 and a[2] <= b[3] and b[2] <= a[3]:
        return "y"
    return None


def rectangles(m, n):
    return [(i0, i1, j0, j1) for i0 in range(m) for i1 in range(i0, m)
            for j0 in range(n) for j1 in range(j0, n)]


def divergence(name, p, q):
    """Textbook contribution of one bin, p, q > 0."""
    if name == "iv":
        return (p - q) * math.log(p / q)
    if name == "js":
        s = (p + q) / 2
        return 0.5 * (p * math.log(p / s) + q * math.log(q / s))
    if name == "hellinger":
        return 0.5 * (math.sqrt(p) - math.sqrt(q)) ** 2
    if name == "triangular":
        return (p - q) ** 2 / (p + q)
    raise ValueError(name)


class Model:
    """cells[i][j]: binary (nonevents, events); continuous list of targets."""

    def __init__(self, target, cells, c, n_samples):
        self.m, self.n = len(cells), len(cells[0])
        self.c = c
        self.target = target
        self.value, self.rate, self.size = {}, {}, {}
        self.why = {}
        flat = [v for row in cells for v in row]
        if target == "binary":
            NE, E = sum(v[0] for v in flat), sum(v[1] for v in flat)
        else:
            allv = [z for v in flat for z in v]
            mean = sum(allv) / len(allv)
        lo = c.get("min_bin_size")
        hi = c.get("max_bin_size")
        lo = None if lo is None else math.ceil(lo * n_samples)
        hi = None if hi is None else math.ceil(hi * n_samples)
        for r in rectangles(self.m, self.n):
            sub = [cells[i][j] for i in range(r[0], r[1] + 1)
                   for j in range(r[2], r[3] + 1)]
            if target == "binary":
                ne, e = sum(v[0] for v in sub), sum(v[1] for v in sub)
                size = ne + e
                lim = [(size, lo, hi, "bin size"),
                       (e, c.get("min_bin_n_event"),
                        c.get("max_bin_n_event"), "events"),
                       (ne, c.get("min_bin_n_nonevent"),
                        c.get("max_bin_n_nonevent"), "nonevents")]
                if not e or not ne:
                    self.why[r] = "pure or empty"
                    continue
                v = divergence(c.get("divergence", "iv"), e / E, ne / NE)
                rate = e / size
            else:
                zs = [z for v in sub for z in v]
                size = len(zs)
                lim = [(size, lo, hi, "bin size")]
                if not size:
                    self.why[r] = "empty"
                    continue
                rate = sum(zs) / size
                v = abs(rate - mean)
            bad = [t for s, a, b, t in lim if (a is not None and s < a) or
                   (b is not None and s > b)]
            if bad:
                self.why[r] = bad[0]
                continue
            self.value[r], self.rate[r], self.size[r] = v, rate, size

    def diff(self, axis):
        k = "min_event_rate_diff_" if self.target == "binary" else \
            "min_mean_diff_"
        return self.c.get(k + axis, 0)

    def violation(self, part, margin):
        """margin > 0: looser (a tie is fine); < 0 strictly inside."""
        c = self.c
        for r in part:
            if r not in self.value:
                return "{} has {}".format(r, self.why[r])
        lo, hi = c.get("min_n_bins"), c.get("max_n_bins")
        if lo is not None and len(part) < lo:
            return "fewer than {} bins".format(lo)
        if hi is not None and len(part) > hi:
            return "more than {} bins".format(hi)
        tr = {"x": c.get("monotonic_trend_x"), "y": c.get("monotonic_trend_y")}
        if tr["x"] or tr["y"]:
            for a, b in itertools.permutations(part, 2):
                axis = adjacent(a, b)
                if axis and tr[axis]:
                    d = self.rate[b] - self.rate[a]
                    if tr[axis] == "descending":
                        d = -d
                    if d < self.diff(axis) - margin:
                        return "{} and {} not {} in {}".format(
                            a, b, tr[axis], axis)
        return None

    def objective(self, part):
        return sum(self.value[r] for r in part)

    def spread(self, part):
        s = [self.size[r] for r in part]
        return max(s) - min(s)

    def best(self, margin):
        b = bp = None
        for p in partitions(self.m, self.n):
            if all(r in self.value for r in p) and \
                    self.violation(p, margin) is None:
                v = self.objective(p)
                if b is None or v > b:
                    b, bp = v, p
        return b, bp
