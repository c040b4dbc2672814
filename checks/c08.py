"""C08: LB_Keogh is a true lower bound built from the exact envelope."""
import itertools

import numpy as np

from mc import paths as P
from mc.core import close, require, equal
from mc.elastic import series

LEVEL = "model_checking"
RULE = ("every pair of equal-length series over the alphabet x every radius: envelope against the enumeration of every "
        "window, LB_Keogh against its definition and against the minimum over all runs inside the Sakoe-Chiba band")
ASSUMPTIONS = ["alphabet values -1, 0, 2; lengths 1..4 (5 in thorough); radii 0..length+1"]


def envelope(s, r):
    n = len(s)
    lo = np.array([s[max(0, i - r):min(n, i + r + 1)].min(0) for i in range(n)])
    up = np.array([s[max(0, i - r):min(n, i + r + 1)].max(0) for i in range(n)])
    return lo, up


def run(ctx):
    import torch
    from tslearn import metrics as M
    ctx.states += P.self_check()

    def env(s, r, be=None, conv=lambda x: x):
        with ctx.case("envelope", s=s, r=r, be=be):
            src = np.array(s)
            lo, up = M.lb_envelope(conv(s), radius=r, be=be)
            rl, ru = envelope(src, r)
            close(lo, rl, "lower envelope")
            close(up, ru, "upper envelope")
            equal(s, src, "input")
            ctx.outcome(rl, ru)
        ctx.states += len(s) * (2 * r + 1)

    def pair(q, c, r, be=None):
        with ctx.case("bound", q=q, c=c, r=r):
            lo, up = envelope(c, r)
            want = np.sqrt((np.maximum(q - up, 0) ** 2).sum() + (np.maximum(lo - q, 0) ** 2).sum())
            lb = float(M.lb_keogh(q, c, radius=r))
            close(lb, want, "LB_Keogh")
            close(M.lb_keogh(ts_query=q, envelope_candidate=M.lb_envelope(c, radius=r)), want, "from an envelope")
            loc, mask = P.sq_local(q, c), P.sakoe(len(q), len(c), r)
            best = P.path_costs(loc, mask).min() if loc.size <= 30 else P.dp_min(loc, mask)
            require(lb <= np.sqrt(best) + 1e-7 * (1 + lb), f"bound {lb} above DTW {np.sqrt(best)}")
            d = float(M.dtw(q, c, global_constraint="sakoe_chiba", sakoe_chiba_radius=r))
            require(lb <= d + 1e-7 * (1 + lb), f"bound {lb} above the library's DTW {d}")
            ctx.outcome(np.array([lb, best]))
        ctx.states += loc.size
        ctx.transitions += P.n_steps(*loc.shape) if loc.size <= 25 else loc.size
        ctx.traces += 1

    for n in range(1, ctx.pick(5, 6)):
        pool = list(P.series_over((-1., 0., 2.), (n,)))
        for s in pool:
            for r in range(0, n + 2):
                env(s, r)
                if n <= 3:
                    env(s, r, be="pytorch")
        if n == 4 and ctx.quick:
            pool = pool[::3]
        if n == 5:
            pool = pool[::7]
        for q, c in itertools.product(pool, repeat=2):
            for r in range(0, n):
                pair(q, c, r)
    for n in (5, 6, 9, 20, 50):
        for k, r in itertools.product(range(4), (0, 1, 2, 5, n - 1, n, 2 * n)):
            q, c = series(k + n, n), series(k + 2 * n + 7, n) * 3
            pair(q, c, r)
            pair(c, q, r)
            env(c, r)
            for d in (2, 3):
                env(series(k + d, n, d), r)
                if n < 10:
                    env(series(k + d, n, d), r, be="pytorch")
                    env(series(k + d, n, d), r, conv=torch.tensor)
    with ctx.case("default-radius"):
        q, c = series(1, 6), series(2, 6) * 3
        close(M.lb_keogh(q, c), M.lb_keogh(q, c, radius=1), "default radius is 1")
        for a, b in zip(M.lb_envelope(c), envelope(c, 1)):
            close(a, b, "default envelope radius is 1")
    for conv in (list, lambda x: x.tolist(), lambda x: x.ravel(), lambda x: x.astype(np.float32)):
        with ctx.case("layouts", conv=str(conv)[:10]):
            q, c = np.array([0., 4, -2, 1]).reshape(-1, 1), np.array([1., 2, 0, 3]).reshape(-1, 1)
            close(M.lb_keogh(conv(q), conv(c), radius=1), M.lb_keogh(q, c, radius=1), "same series, other layout")
    with ctx.case("multivariate-rejected"):
        for q, c in ((np.zeros((3, 2)), np.zeros((3, 2))), (np.zeros((3, 1)), np.zeros((3, 2)))):
            try:
                v = M.lb_keogh(q, c)
            except (AssertionError, ValueError):
                continue
            require(False, f"multivariate series accepted: {v}")
