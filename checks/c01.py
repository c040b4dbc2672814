"""C01: DTW is the minimum over all admissible warping paths."""
import itertools

import numpy as np

from mc import paths as P
from mc.core import close, require, raises
from mc.elastic import CONSTRAINTS, Measure, check_pair, series, cells

LEVEL = "model_checking"
RULE = ("every pair of series over the alphabet and lengths; for each pair and constraint all runs of the "
        "warping-path transition system are enumerated and the implementation's value and path are compared; "
        "distinct_nontrivial counts distinct returned optimal paths")
ASSUMPTIONS = [
    "alphabet-bounded enumeration: values 0, 1, 2.5, lengths <= 4 (quick) in one dimension, lengths <= 3 in 2-D",
    "beyond 30 cells the reference is a dynamic program that is itself compared with the full enumeration of runs "
    "on all grids up to 5x5 at the start of the run",
    "agreement up to 1e-6 relative",
]

SQ = Measure("sum", True)
PLAIN = Measure("sum", False)


def manhattan(x, y):
    return float(np.abs(np.asarray(x) - np.asarray(y)).sum())


def asym(x, y):
    """A ground cost that is not symmetric (argument order matters)."""
    d = np.asarray(x) - np.asarray(y)
    return float(np.where(d > 0, 2 * d, -d).sum())


def run(ctx):
    from tslearn import metrics as M
    ctx.states += P.self_check()
    drive(ctx, M.dtw, M.dtw_path, M.dtw_path_from_metric, SQ, PLAIN)


def drive(ctx, f, f_path, f_metric, SQ, PLAIN):
    import torch
    # 1. exhaustive, one dimension, NumPy
    pools = [list(P.series_over((0., 1., 2.5), (1, 2, 3))),
             list(P.series_over((0., 2.), (4,))) + list(P.series_over((0., 2.), (1, 2)))]
    if ctx.thorough:
        pools[0] = list(P.series_over((0., 1., 2.5), (1, 2, 3, 4)))
        pools.append(list(P.series_over((0., 2.), (5,))) + list(P.series_over((0., 1.), (2, 3))))
    mask_cache = {}

    def mask_of(l1, l2, kw):
        k = (l1, l2, tuple(sorted(kw.items(), key=str)))
        if k not in mask_cache:
            mask_cache[k] = P.constraint_mask(l1, l2, kw)
        return mask_cache[k]

    def one(s1, s2, kw, tag, **info):
        loc = P.sq_local(s1, s2)
        check_pair(ctx, SQ, f, f_path, s1, s2, kw, loc, mask_of(len(s1), len(s2), kw), tag, **info)

    for n, pool in enumerate(pools):
        for a, b in itertools.product(range(len(pool)), repeat=2):
            # every pair unconstrained; constraints rotate over the pairs in quick, all of them in thorough
            cons = [CONSTRAINTS[0]]
            if ctx.thorough and n < 2:
                cons = CONSTRAINTS
            else:
                cons.append(CONSTRAINTS[1 + (a * 7 + b) % (len(CONSTRAINTS) - 1)])
            for kw in cons:
                one(pool[a], pool[b], kw, "pair-1d")
    # every constraint on every pair of representative shapes up to 7x7 (injective values)
    shapes = list(itertools.product(range(1, ctx.pick(7, 9)), repeat=2))
    for (l1, l2), kw in itertools.product(shapes, CONSTRAINTS):
        one(series(l1 * 31 + 1, l1), series(l2 * 17 + 2, l2), kw, "shape")
    # 2. multivariate
    pool2 = list(P.series_over((0., 1.), (1, 2), d=2))
    for s1, s2 in itertools.product(pool2, repeat=2):
        one(s1, s2, {}, "pair-2d")
    for (l1, l2), d in itertools.product([(3, 4), (4, 3), (5, 5), (1, 4), (4, 1)], (2, 3, 5)):
        for kw in CONSTRAINTS:
            one(series(l1 + 7 * d, l1, d), series(l2 + 3 * d, l2, d), kw, "shape-nd", d=d)
    # 3. sizes and magnitudes beyond enumeration (reference dynamic program)
    for l1, l2 in [(12, 12), (17, 9), (9, 17), (33, 33), (40, 65), (65, 40), (101, 100), (130, 128), (1, 70), (70, 1)]:
        for kw in CONSTRAINTS[:8]:
            if (l1, l2) in ((1, 70), (70, 1)) and "itakura" in str(kw):
                continue
            one(series(l1, l1), series(l2 + 100, l2), kw, "long")
    for scale in (1e-6, 1e-3, 1e4, 1e8):
        for d in (1, 2):
            s1, s2 = series(5, 5, d), series(6, 4, d)
            loc = P.sq_local(s1, s2)
            want = np.sqrt(P.dp_min(loc) if SQ.agg == "sum" else P.dp_minmax(loc)) * scale
            with ctx.case("scale", scale=scale, d=d):
                close(float(f(s1 * scale, s2 * scale)) / scale, want / scale, "scaled value")
                path, v = f_path(s1 * scale, s2 * scale)
                close(float(v) / scale, want / scale, "scaled value")
                close(SQ.fin(SQ.of_path(loc, P.is_warping_path(path, 5, 4))) * scale / scale, want / scale, "path")
    # 4. PyTorch backend, selected by argument and by tensor inputs
    tp = list(P.series_over((0., 2.), (1, 2, 3)))
    k = 0
    for s1, s2 in itertools.product(tp, repeat=2):
        k += 1
        kw = CONSTRAINTS[k % len(CONSTRAINTS)]
        loc = P.sq_local(s1, s2)
        m = mask_of(len(s1), len(s2), kw)
        if k % 2:
            check_pair(ctx, SQ, f, f_path, s1, s2, dict(kw, be="pytorch"), loc, m, "torch")
        else:
            t1, t2 = torch.tensor(s1), torch.tensor(s2)
            check_pair(ctx, SQ, lambda x, y, **q: f(t1, t2, **q), lambda x, y, **q: f_path(t1, t2, **q),
                       s1, s2, kw, loc, m, "torch-tensor")
    for (l1, l2), kw in itertools.product([(1, 4), (4, 1), (3, 5), (5, 3), (6, 6), (6, 4)], CONSTRAINTS):
        for d in (1, 3):
            s1, s2 = series(l1 * 3 + d, l1, d), series(l2 * 5 + d, l2, d)
            loc = P.sq_local(s1, s2)
            check_pair(ctx, SQ, f, f_path, s1, s2, dict(kw, be="pytorch"), loc, mask_of(l1, l2, kw), "torch-shape", d=d)
    for l1, l2 in [(31, 30), (26, 40)]:
        s1, s2 = series(l1, l1), series(l2, l2)
        check_pair(ctx, SQ, f, f_path, s1, s2, {"be": "pytorch", "sakoe_chiba_radius": 4}, P.sq_local(s1, s2),
                   P.sakoe(l1, l2, 4), "torch-long")
    # 5. trailing NaNs are ignored; rejected inputs
    for l1, l2, p1, p2, d in itertools.product((1, 3), (2, 3), (0, 1, 3), (0, 2), (1, 2)):
        s1, s2 = series(l1 + 40, l1, d), series(l2 + 50, l2, d)
        n1 = np.vstack([s1, np.full((p1, d), np.nan)])
        n2 = np.vstack([s2, np.full((p2, d), np.nan)])
        loc = P.sq_local(s1, s2)
        for kw in CONSTRAINTS[:6]:
            m = mask_of(l1, l2, kw)
            for be in (None, "pytorch"):
                check_pair(ctx, SQ, lambda x, y, **q: f(n1, n2, **q), lambda x, y, **q: f_path(n1, n2, **q),
                           s1, s2, dict(kw, be=be), loc, m, "padded", pad=(p1, p2))
    for be in (None, "pytorch"):
        with ctx.case("rejects", be=be):
            raises(ValueError, lambda: f(np.zeros((3, 1)), np.zeros((3, 2)), be=be), "feature sizes differ")
            raises(ValueError, lambda: f(np.full((3, 1), np.nan), np.zeros((3, 1)), be=be), "empty series")
            raises(ValueError, lambda: f_path(np.zeros((3, 1)), np.zeros((3, 2)), be=be), "feature sizes differ")
            raises(ValueError, lambda: f_path(np.zeros((3, 1)), np.full((3, 1), np.nan), be=be), "empty series")
    # 6. other ground metrics
    metric_menu = [("euclidean", lambda x, y: np.sqrt(((x - y) ** 2).sum()), {}),
                   ("sqeuclidean", lambda x, y: ((x - y) ** 2).sum(), {}),
                   ("cityblock", lambda x, y: np.abs(x - y).sum(), {}),
                   (manhattan, manhattan, {}), (asym, asym, {})]
    pool3 = list(P.series_over((0., 1.5), (1, 2, 3))) + list(P.series_over((0., 1.), (2,), d=2))
    k = 0
    for s1, s2 in itertools.product(pool3, repeat=2):
        if s1.shape[1] != s2.shape[1]:
            continue
        k += 1
        if ctx.quick and k % 2:
            continue
        metric_cases(ctx, f_metric, PLAIN, metric_menu, s1, s2, CONSTRAINTS[k % len(CONSTRAINTS)], mask_of,
                     be="pytorch" if k % 3 == 0 else None)
    for (l1, l2), kw in itertools.product([(4, 6), (6, 4), (5, 5)], CONSTRAINTS):
        for be in (None, "pytorch"):
            metric_cases(ctx, f_metric, PLAIN, metric_menu, series(l1 + 9, l1, 2), series(l2 + 8, l2, 2), kw, mask_of, be)


def metric_cases(ctx, f_metric, PLAIN, menu, s1, s2, kw, mask_of, be):
    l1, l2 = len(s1), len(s2)
    for name, fun, extra in menu:
        loc = np.array([[fun(x, y) for y in s2] for x in s1], float)
        lab = name if isinstance(name, str) else name.__name__
        if be == "pytorch" and not isinstance(name, str):
            continue
        if be == "pytorch" and name == "cityblock":
            continue
        check_pair(ctx, PLAIN, None, lambda x, y, **q: f_metric(x, y, metric=name, **q, **extra),
                   s1, s2, dict(kw, be=be), loc, mask_of(l1, l2, kw), "metric", metric=lab)
        # the same numbers given as a precomputed matrix, which must be left alone
        pre = loc.copy()

        def f_pre(x, y, **q):
            r = f_metric(pre, metric="precomputed", **q)
            require(np.array_equal(pre, loc), "the precomputed matrix was modified")
            return r
        check_pair(ctx, PLAIN, None, f_pre, s1, s2, dict(kw, be=be), loc, mask_of(l1, l2, kw), "precomputed", metric=lab)
