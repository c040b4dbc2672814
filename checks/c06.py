"""C06: subsequence DTW finds the best-matching window."""
import itertools

import numpy as np

from mc import paths as P
from mc.core import close, require, equal
from mc.elastic import series

LEVEL = "model_checking"
RULE = ("every (query, series) pair over the alphabet; for every query prefix, end column and start column all runs of "
        "the warping-path transition system are enumerated (reference dynamic program above 30 cells)")
ASSUMPTIONS = ["alphabet values 0, 1, 2.5; query lengths 1..3, series lengths 1..5 exhaustively; larger generic shapes by "
               "a reference dynamic program per window start"]


def best(local):
    return P.path_costs(local).min() if local.size <= 30 else P.dp_min(local)


def windows(loc):
    """Smallest cost of query prefix i on a window ending at j: minimum over all starts."""
    l1, l2 = loc.shape
    return np.array([[min(best(loc[:i + 1, s:j + 1]) for s in range(j + 1)) for j in range(l2)] for i in range(l1)])


def fast(loc):
    l1, l2 = loc.shape
    out = np.full((l1, l2), np.inf)
    for s in range(l2):
        acc = np.full((l1 + 1, l2 - s + 1), np.inf)
        acc[0, 0] = 0
        for i in range(l1):
            for j in range(l2 - s):
                acc[i + 1, j + 1] = loc[i, s + j] + min(acc[i, j], acc[i, j + 1], acc[i + 1, j])
        out[:, s:] = np.minimum(out[:, s:], acc[1:, 1:])
    return out


def check(ctx, M, q, s, tag, be=None, pad=(0, 0), conv=lambda x: x, ref=windows, **info):
    loc = P.sq_local(q, s)
    d = q.shape[1]
    with ctx.case(tag, q=q, s=s, be=be, pad=pad, **info):
        want = ref(loc)
        Q = conv(np.vstack([q, np.full((pad[0], d), np.nan)]))
        S = conv(np.vstack([s, np.full((pad[1], d), np.nan)]))
        acc = M.subsequence_cost_matrix(Q, S, be=be)
        close(acc, want, "cost matrix")
        path, v = M.dtw_subsequence_path(Q, S, be=be)
        close(v, np.sqrt(want[-1].min()), "subsequence DTW")
        validate(path, loc, float(v) ** 2)
        keep = np.array(acc, copy=True)
        for j in range(len(s)):
            p = M.subsequence_path(acc, j, be=be)
            require(tuple(map(int, p[-1])) == (len(q) - 1, j), f"path ends at {p[-1]} instead of column {j}")
            validate(p, loc, want[-1, j])
        equal(np.asarray(acc), keep, "cost matrix after path queries")
        ctx.outcome(np.array([[int(a), int(b)] for a, b in path]))
    ctx.states += loc.size * len(s)
    ctx.transitions += sum(P.n_steps(min(i, 5), min(j, 5)) for i in range(1, len(q) + 1) for j in range(1, len(s) + 1))
    ctx.traces += 1 + len(s)


def validate(path, loc, cost):
    p = [(int(i), int(j)) for i, j in path]
    require(p[0][0] == 0 and p[-1][0] == loc.shape[0] - 1, f"path {p} does not cover the whole query")
    require(all(0 <= j < loc.shape[1] for _, j in p), f"path {p} leaves the series")
    for (a, b), (c, d) in zip(p, p[1:]):
        require((c - a, d - b) in P.STEPS, f"illegal step in {p}")
    close(sum(loc[c] for c in p), cost, f"cost of path {p}", atol=1e-7)


def run(ctx):
    import torch
    from tslearn import metrics as M
    ctx.states += P.self_check()
    qs = list(P.series_over((0., 1., 2.5), ctx.pick((1, 2), (1, 2, 3)))) + list(P.series_over((0., 2.), (3,)))
    ss = list(P.series_over((0., 1., 2.5), ctx.pick((1, 2, 3), (1, 2, 3, 4)))) + list(P.series_over((0., 2.), ctx.pick((4,), (4, 5))))
    for q, s in itertools.product(qs, ss):
        check(ctx, M, q, s, "pair-1d")
    q2, s2 = list(P.series_over((0., 1.), (1, 2), d=2)), list(P.series_over((0., 1.), (1, 2), d=2))
    for q, s in itertools.product(q2, s2):
        check(ctx, M, q, s, "pair-2d")
    for l1, l2, d in itertools.product(range(1, 6), range(1, 8), (1, 3)):
        check(ctx, M, series(l1 * 13 + d, l1, d), series(l2 * 7 + d, l2, d), "shape", ref=fast, d=d)
        if l1 <= 3 and l2 <= 5:
            check(ctx, M, series(l1 * 13 + d, l1, d), series(l2 * 7 + d, l2, d), "torch", be="pytorch", d=d)
            check(ctx, M, series(l1 * 13 + d, l1, d), series(l2 * 7 + d, l2, d), "tensor", conv=torch.tensor, d=d)
    for l1, l2 in [(5, 30), (12, 60), (30, 31), (20, 10), (1, 100)]:
        for k in range(3):
            check(ctx, M, series(k, l1), series(k + 50, l2), "long", ref=fast)
    # padding on either side, either backend
    for p1, p2, be in itertools.product((0, 1, 2), (0, 1, 3), (None, "pytorch")):
        check(ctx, M, series(1, 3), series(2, 5), "padded", be=be, pad=(p1, p2), ref=fast)
        check(ctx, M, series(3, 2, 2), series(4, 4, 2), "padded", be=be, pad=(p1, p2), ref=fast)
    for scale in (1e-6, 1e6):
        q, s = series(8, 3), series(9, 6)
        with ctx.case("scale", scale=scale):
            close(np.asarray(M.subsequence_cost_matrix(q * scale, s * scale)) / scale ** 2, fast(P.sq_local(q, s)), "scaled")
    # an exact occurrence is found at distance zero, wherever it is
    for l1, l2 in [(1, 4), (2, 5), (3, 7)]:
        for at in range(l2 - l1 + 1):
            s = series(l2, l2)
            with ctx.case("planted", l1=l1, l2=l2, at=at):
                path, v = M.dtw_subsequence_path(s[at:at + l1], s)
                close(v, 0., "distance of an exact occurrence", atol=1e-9)
                equal([tuple(map(int, c)) for c in path], [(i, at + i) for i in range(l1)], "its path")
