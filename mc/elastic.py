"""Common exploration for path-based measures (DTW, Frechet)."""
import itertools

import numpy as np

from . import paths as P
from .core import close, require, equal

CONSTRAINTS = [
    {},
    {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 0},
    {"global_constraint": "sakoe_chiba"},
    {"sakoe_chiba_radius": 1},
    {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 2},
    {"global_constraint": "itakura", "itakura_max_slope": 2.0},
    {"global_constraint": "itakura"},
    {"itakura_max_slope": 1.5},
    {"itakura_max_slope": 3.0},
    # the named constraint wins over the parameter of the other one
    {"global_constraint": "itakura", "itakura_max_slope": 3.0, "sakoe_chiba_radius": 0},
    {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 1, "itakura_max_slope": 1.5},
    {"global_constraint": ""},
]


def lcg(seed, n, lo=-3.0, hi=3.0):
    """Deterministic pseudo-random values (independent of numpy's generators)."""
    out, x = [], (seed * 2654435761 + 12345) % (1 << 32)
    for _ in range(n):
        x = (1664525 * x + 1013904223) % (1 << 32)
        out.append(lo + (hi - lo) * ((x >> 8) / float(1 << 24)))
    return np.array(out)


def series(seed, l, d=1):
    return lcg(seed, l * d).reshape(l, d)


def ladder(thorough=False):
    """Datasets beyond the enumerated sizes, one for each way of being large or
    small: many series, long series, many features, tiny, huge and far-off
    values, many lengths.  Yields (name, list of series, equal lengths)."""
    out = [("many", [series(1000 + k, 6) for k in range(40)], True),
           ("long", [series(1100 + k, 70) for k in range(5)], True),
           ("tiny", [series(1200 + k, 7) * 1e-3 for k in range(6)], True),
           ("huge", [series(1300 + k, 7) * 1e5 for k in range(6)], True),
           ("far", [series(1400 + k, 7) + 3e3 for k in range(6)], True),
           ("features", [series(1500 + k, 6, 5) for k in range(6)], True),
           ("lengths", [series(1600 + k, 2 + (k * 5) % 17) for k in range(12)], False),
           ("lengths-features", [series(1700 + k, 3 + (k * 3) % 8, 3) for k in range(7)], False)]
    if thorough:
        out += [("very-many", [series(1800 + k, 4) for k in range(120)], True),
                ("very-long", [series(1900 + k, 260) for k in range(3)], True),
                ("long-lengths", [series(2000 + k, 30 + 33 * k) for k in range(5)], False)]
    return out


def cells(path):
    return [(int(i), int(j)) for i, j in path]


class Measure:
    """A path measure: aggregate of local costs over admissible runs."""

    def __init__(self, agg, root):
        self.agg, self.root = agg, root

    def best(self, local, mask):
        l1, l2 = local.shape
        if l1 * l2 <= 30:
            idx = P.admissible(mask)
            if not len(idx):
                return None, 0
            if self.agg == "sum":
                v = (P.incidence(l1, l2)[idx] @ local.ravel()).min()
            else:
                inc = P.incidence(l1, l2)[idx]
                v = np.where(inc > 0, local.ravel()[None, :], -np.inf).max(1).min()
            return v, len(idx)
        v = (P.dp_min if self.agg == "sum" else P.dp_minmax)(local, mask)
        return (None, 0) if not np.isfinite(v) else (v, 1)

    def of_path(self, local, path):
        v = [local[i, j] for i, j in path]
        return sum(v) if self.agg == "sum" else max(v)

    def fin(self, v):
        return np.sqrt(v) if self.root else v


def check_pair(ctx, meas, f, f_path, s1, s2, kw, local, mask, tag, **info):
    """One pair under one constraint against the enumerated runs."""
    v, n = meas.best(local, mask)
    with ctx.case(tag, s1=s1, s2=s2, kw=kw, **info):
        if v is None:
            # no admissible run: must be rejected
            try:
                r = f(s1, s2, **kw) if f is not None else f_path(s1, s2, **kw)
            except (RuntimeWarning, ValueError):
                return
            require(False, f"infeasible constraint accepted, returned {r}")
        want = meas.fin(v)
        l1, l2 = local.shape
        if f is not None:
            close(float(f(s1, s2, **kw)), want, "value")
        if f_path is not None:
            path, d = f_path(s1, s2, **kw)
            close(float(d), want, "value returned with the path")
            p = P.is_warping_path(path, l1, l2)
            require(all(mask[c] for c in p), f"path {p} leaves the constraint region")
            close(meas.fin(meas.of_path(local, p)), want, f"cost of returned path {p}")
            ctx.outcome(p)
    ctx.states += l1 * l2
    ctx.transitions += n
    ctx.traces += 1
