"""C05: LCSS is the longest common subsequence inside the region."""
import itertools

import numpy as np

from mc import paths as P
from mc.core import close, require, equal
from mc.elastic import CONSTRAINTS, series

LEVEL = "model_checking"
RULE = ("every pair of series over the alphabet x eps x constraint; all strictly increasing matchings are "
        "enumerated (no memoisation) up to 4x4, a dynamic program validated against that enumeration is used "
        "beyond; distinct_nontrivial counts distinct returned matchings")
ASSUMPTIONS = ["values 0, 1, 2.5, lengths <= 4 exhaustively, structured series up to 60 samples"]


def enum_longest(match):
    """Longest strictly increasing set of matched cells, by plain enumeration."""
    l1, l2 = match.shape
    runs = [0]

    def rec(i0, j0):
        best = 0
        for i in range(i0, l1):
            for j in range(j0, l2):
                if match[i, j]:
                    runs[0] += 1
                    best = max(best, 1 + rec(i + 1, j + 1))
        return best
    return rec(0, 0), runs[0]


def dp_longest(match):
    l1, l2 = match.shape
    a = np.zeros((l1 + 1, l2 + 1), int)
    for i in range(l1):
        for j in range(l2):
            a[i + 1, j + 1] = max(a[i, j + 1], a[i + 1, j], a[i, j] + bool(match[i, j]))
    return a[l1, l2]


_memo = {}


def longest(ctx, match):
    key = (match.shape, match.tobytes())
    if key not in _memo:
        if match.shape[0] * match.shape[1] <= 16:
            v, n = enum_longest(match)
            assert v == dp_longest(match)
            ctx.transitions += n
        else:
            v = dp_longest(match)
        ctx.states += match.size
        _memo[key] = v
    return _memo[key]


def check_path(path, match, n, what):
    p = [(int(i), int(j)) for i, j in path]
    for (a, b), (c, d) in zip(p, p[1:]):
        require(a < c and b < d, f"{what}: matching {p} is not strictly increasing")
    for i, j in p:
        require(0 <= i < match.shape[0] and 0 <= j < match.shape[1] and match[i, j],
                f"{what}: pair {(i, j)} is too far apart or outside the region")
    require(len(p) == n, f"{what}: {len(p)} matched pairs {p}, longest is {n}")
    return p


def run(ctx):
    import torch
    from tslearn.metrics import lcss, lcss_path, lcss_path_from_metric

    def one(s1, s2, eps, kw, tag, a=None, b=None, light=False, **info):
        a = s1 if a is None else a
        b = s2 if b is None else b
        dist = np.sqrt(P.sq_local(s1, s2))
        mask = P.constraint_mask(len(s1), len(s2), kw)
        if not P.has_path(mask):
            with ctx.case(tag + "-infeasible", s1=s1, s2=s2, kw=kw):
                try:
                    lcss(a, b, eps=eps, **kw)
                except (RuntimeWarning, ValueError):
                    return
                require(False, "infeasible constraint accepted")
            return
        match = (dist <= eps) & mask
        with ctx.case(tag, s1=s1, s2=s2, eps=eps, kw=kw, **info):
            n = longest(ctx, match)
            want = n / min(len(s1), len(s2))
            close(float(lcss(a, b, eps=eps, **kw)), want, "lcss")
            if light:
                return
            path, v = lcss_path(a, b, eps=eps, **kw)
            close(float(v), want, "lcss_path value")
            ctx.outcome(check_path(path, match, n, "lcss_path"))
            if kw.get("be") == "pytorch" and ctx.quick and ctx.evaluations % 3:
                return
            path, v = lcss_path_from_metric(a, b, eps=eps, **kw)
            close(float(v), want, "lcss_path_from_metric value")
            check_path(path, match, n, "lcss_path_from_metric")
            pre = dist.copy()
            path, v = lcss_path_from_metric(pre, eps=eps, metric="precomputed", **kw)
            close(float(v), want, "precomputed value")
            check_path(path, match, n, "precomputed")
            equal(pre, dist, "precomputed matrix after the call")
        ctx.traces += 1

    pool = list(P.series_over((0., 1., 2.5), (1, 2, 3)))
    if ctx.thorough:
        pool += list(P.series_over((0., 1., 2.5), (4,)))
    else:
        pool += list(P.series_over((0., 2.), (4,)))
    k = 0
    for s1, s2 in itertools.product(pool, repeat=2):
        k += 1
        eps = (0., 1., 1.5, 2., 0.5)[k % 5]
        kw = CONSTRAINTS[(k // 5) % len(CONSTRAINTS)]
        one(s1, s2, eps, kw, "pair-1d")
    for (l1, l2), kw in itertools.product(itertools.product(range(1, ctx.pick(7, 9)), repeat=2), CONSTRAINTS):
        for eps in (0.8, 2.0):
            one(series(l1 * 13 + 1, l1), series(l2 * 7 + 5, l2), eps, kw, "shape")
    # matches whose predecessors lie outside the region
    binary = list(P.series_over((0., 5.), (4,)))
    for s1, s2 in itertools.product(binary, repeat=2):
        for kw in CONSTRAINTS[1:6]:
            one(s1, s2, 0.5, kw, "binary")
    for s1, s2 in itertools.product(list(P.series_over((0., 1.), (1, 2), d=2)), repeat=2):
        one(s1, s2, 1.0, {}, "pair-2d")
        one(s1, s2, 1.2, {"sakoe_chiba_radius": 0}, "pair-2d")
    for l1, l2 in [(12, 15), (33, 20), (60, 60), (41, 40)]:
        for kw in CONSTRAINTS[:8]:
            one(series(l1, l1), series(l2 + 9, l2), 0.7, kw, "long")
            one(series(l1, l1, 2), series(l2 + 9, l2, 2), 1.5, kw, "long-2d")
    # default threshold
    for l1, l2 in [(3, 4), (5, 5)]:
        s1, s2 = series(l1 + 3, l1), series(l2 + 4, l2)
        with ctx.case("default-eps", l1=l1, l2=l2):
            n = longest(ctx, np.sqrt(P.sq_local(s1, s2)) <= 1)
            close(lcss(s1, s2), n / min(l1, l2), "lcss default eps")
            close(lcss_path(s1, s2)[1], n / min(l1, l2), "lcss_path default eps")
            close(lcss_path_from_metric(s1, s2)[1], n / min(l1, l2), "from_metric default eps")
    # exact tie with the threshold counts as a match
    for eps in (0.5, 1.0, 3.0):
        with ctx.case("tie", eps=eps):
            close(lcss([0.], [eps], eps=eps), 1., "distance equal to eps")
            close(lcss([[0., 0.]], [[eps, 0.]], eps=eps), 1., "distance equal to eps")
    # PyTorch backend
    tpool = list(P.series_over((0., 2.), (1, 2, 3)))
    k = 0
    for s1, s2 in itertools.product(tpool, repeat=2):
        k += 1
        kw = dict(CONSTRAINTS[k % len(CONSTRAINTS)], be="pytorch")
        one(s1, s2, (0.5, 2.)[k % 2], kw, "torch")
    for (l1, l2), kw in itertools.product([(3, 5), (5, 3), (6, 6), (5, 4)], CONSTRAINTS):
        for d in (1, 2):
            s1, s2 = series(l1 * 3 + d, l1, d), series(l2 * 5 + d, l2, d)
            one(s1, s2, 1.5, dict(kw, be="pytorch"), "torch-shape", d=d)
            one(s1, s2, 1.5, kw, "torch-tensor", a=torch.tensor(s1), b=torch.tensor(s2), light=True, d=d)
    # trailing NaNs
    for l1, l2, p1, p2, be in itertools.product((1, 3), (2, 4), (0, 2), (1, 3), (None, "pytorch")):
        s1, s2 = series(l1 + 4, l1), series(l2 + 5, l2)
        a = np.vstack([s1, np.full((p1, 1), np.nan)])
        b = np.vstack([s2, np.full((p2, 1), np.nan)])
        for kw in CONSTRAINTS[:6]:
            mask = P.constraint_mask(l1, l2, kw)
            if not P.has_path(mask):
                continue
            with ctx.case("padded", l1=l1, l2=l2, p1=p1, p2=p2, kw=kw, be=be):
                match = (np.sqrt(P.sq_local(s1, s2)) <= 1.5) & mask
                n = longest(ctx, match)
                close(float(lcss(a, b, eps=1.5, be=be, **kw)), n / min(l1, l2), "lcss")
                path, v = lcss_path(a, b, eps=1.5, be=be, **kw)
                close(float(v), n / min(l1, l2), "lcss_path")
                check_path(path, match, n, "lcss_path")
                path, v = lcss_path_from_metric(a, b, eps=1.5, be=be, **kw)
                close(float(v), n / min(l1, l2), "lcss_path_from_metric")
                check_path(path, match, n, "lcss_path_from_metric")
    # user metrics: the threshold applies to the metric's value

    def asym(x, y):
        d = np.asarray(x) - np.asarray(y)
        return float(np.where(d > 0, 2 * d, -d).sum())
    for name, fun in [("sqeuclidean", lambda x, y: ((x - y) ** 2).sum()), ("cityblock", lambda x, y: np.abs(x - y).sum()),
                      (asym, asym)]:
        for (l1, l2), kw in itertools.product([(3, 4), (4, 3), (5, 5)], CONSTRAINTS):
            s1, s2 = series(l1 + 3, l1, 2), series(l2 + 4, l2, 2)
            loc = np.array([[fun(x, y) for y in s2] for x in s1], float)
            mask = P.constraint_mask(l1, l2, kw)
            if not P.has_path(mask):
                continue
            with ctx.case("metric", metric=str(getattr(name, "__name__", name)), l1=l1, l2=l2, kw=kw):
                match = (loc <= 3.0) & mask
                n = longest(ctx, match)
                path, v = lcss_path_from_metric(s1, s2, eps=3.0, metric=name, **kw)
                close(float(v), n / min(l1, l2), "value")
                check_path(path, match, n, "path")
