"""C07: length-limited DTW is the optimum over paths of bounded length."""
import itertools

import numpy as np

from mc import paths as P
from mc.core import close, require, raises
from mc.elastic import series

LEVEL = "model_checking"
RULE = ("every pair of series over the alphabet x every limit from the smallest accepted to beyond the longest path; all "
        "runs of at most that many cells are enumerated (reference dynamic program over (i, j, length) above 30 cells)")
ASSUMPTIONS = ["alphabet values 0, 1, 2.5, lengths 1..3 (4 in thorough) exhaustively; larger generic shapes by reference dynamic program"]


def best(loc, limit):
    l1, l2 = loc.shape
    if loc.size <= 30:
        inc = P.incidence(l1, l2)
        ok = inc.sum(1) <= limit
        return (inc[ok] @ loc.ravel()).min()
    a = np.full((limit + 1, l1 + 1, l2 + 1), np.inf)
    a[0, 0, 0] = 0
    for n in range(1, limit + 1):
        m = np.minimum(np.minimum(a[n - 1, :-1, :-1], a[n - 1, 1:, :-1]), a[n - 1, :-1, 1:])
        a[n, 1:, 1:] = loc + m
    return a[:, l1, l2].min()


def check(ctx, M, s1, s2, limit, tag, be=None, pad=0, conv=lambda x: x, **info):
    loc = P.sq_local(s1, s2)
    with ctx.case(tag, s1=s1, s2=s2, limit=limit, be=be, pad=pad, **info):
        z = np.full((pad, s1.shape[1]), np.nan)
        a, b = conv(np.vstack([s1, z])), conv(np.vstack([s2, z, z]))
        if limit < max(loc.shape):
            raises(ValueError, lambda: M.dtw_limited_warping_length(a, b, limit, be=be), "limit below the longer length")
            raises(ValueError, lambda: M.dtw_path_limited_warping_length(a, b, limit, be=be), "limit below the longer length")
            return
        want = best(loc, limit)
        close(M.dtw_limited_warping_length(a, b, limit, be=be), np.sqrt(want), "value")
        path, v = M.dtw_path_limited_warping_length(a, b, limit, be=be)
        close(v, np.sqrt(want), "value returned with the path")
        p = P.is_warping_path(path, *loc.shape)
        require(len(p) <= limit, f"path {p} longer than {limit}")
        close(sum(loc[c] for c in p), want, f"cost of path {p}", atol=1e-7)
        if limit >= sum(loc.shape) - 1:
            close(v, M.dtw(a, b, be=be), "unrestricted DTW")
        ctx.outcome(p, limit)
    ctx.states += loc.size
    ctx.transitions += P.n_steps(*loc.shape) if loc.size <= 30 else loc.size * limit
    ctx.traces += 1


def run(ctx):
    import torch
    from tslearn import metrics as M
    ctx.states += P.self_check()
    pool = list(P.series_over((0., 1., 2.5), (1, 2))) + list(P.series_over((0., 2.), (3,))) + \
        list(P.series_over((0., 1., 2.5), (3,)))[5::3]
    if ctx.thorough:
        pool = list(P.series_over((0., 1., 2.5), (1, 2, 3))) + list(P.series_over((0., 2.), (4,)))
    for s1, s2 in itertools.product(pool, repeat=2):
        for limit in range(max(len(s1), len(s2)), len(s1) + len(s2) + 1):
            check(ctx, M, s1, s2, limit, "pair-1d")
    for s1, s2 in itertools.product(P.series_over((0., 1.), (1, 2), d=2), repeat=2):
        for limit in range(max(len(s1), len(s2)), len(s1) + len(s2) + 1):
            check(ctx, M, s1, s2, limit, "pair-2d")
    top = ctx.pick(6, 8)
    for l1, l2 in itertools.product(range(1, top), repeat=2):
        for k, d in ((0, 1), (1, 1), (2, 2)):
            for limit in list(range(0, l1 + l2 + 2)) + [50]:
                check(ctx, M, series(l1 * 11 + k, l1, d), series(l2 * 23 + 5 + k, l2, d), limit, "shape", d=d)
    # lagged series, for which the limit matters
    lag = np.array([0, 0, 0, 0, 3., 1, -2, .5, 0, 0, 0]).reshape(-1, 1)
    for n, k1, k2 in itertools.product((5, 6, 7), range(4), range(4)):
        for limit in range(n, 2 * n):
            check(ctx, M, lag[k1:k1 + n] + .01 * series(n, n), lag[k2:k2 + n], limit, "lagged")
    for l1, l2 in [(3, 3), (2, 4), (4, 2), (1, 3), (3, 1), (4, 4)]:
        for limit in range(max(l1, l2) - 1, l1 + l2 + 1):
            for d in (1, 2):
                a, b = series(l1 + 60, l1, d), series(l2 + 70, l2, d)
                check(ctx, M, a, b, limit, "torch", be="pytorch", d=d)
                check(ctx, M, a, b, limit, "tensor", conv=torch.tensor, d=d)
                check(ctx, M, a, b, limit, "padded", pad=2, d=d)
                check(ctx, M, a, b, limit, "padded-torch", be="pytorch", pad=1, d=d)
    for l1, l2 in [(15, 15), (12, 20), (20, 12)]:
        for limit in (max(l1, l2), max(l1, l2) + 2, l1 + l2 - 1):
            check(ctx, M, series(l1, l1), series(l2 + 5, l2), limit, "long")
