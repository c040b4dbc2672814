"""C20: the soft-DTW barycenter descends its own objective."""
import itertools

import numpy as np

from mc import paths as P
from mc.core import close, equal, require
from mc.elastic import series

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of the descent's iterates: every dataset x start x weights x gamma x constraint x iteration cap, the objective and its gradient computed from "
             "the enumeration of all warping paths (Gibbs average), trajectories in lockstep with the same descent run on that reference objective")
SHARDS = 4
RULE = ("all datasets of 1..3 series of length 1..4 (5) from a pool x initial barycenter (default, every size 1..5) x weights x gamma x constraint x iteration caps 0..4, the default "
        "and until convergence x numbers of jobs")
ASSUMPTIONS = ["dims 1..2, gamma 0.01..10; stationarity is required after 1000 iterations with a tolerance of 1e-13 up to 1e-3 (relative)"]
NOTE = "The objective is not returned by the library; it is recomputed from the returned barycenter by path enumeration."

CONS = [{}, {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 1}, {"sakoe_chiba_radius": 0}, {"global_constraint": "itakura", "itakura_max_slope": 2.5}]


def objective(b, data, w, gamma, kw):
    """Weighted sum of the soft minima over all paths, and its gradient."""
    val, g = 0., np.zeros_like(b)
    for wi, x in zip(w, data):
        local = P.sq_local(b, x)
        idx = P.admissible(P.constraint_mask(len(b), len(x), kw))
        inc = P.incidence(len(b), len(x))[idx]
        c = inc @ local.ravel()
        m = c.min()
        p = np.exp(-(c - m) / gamma)
        val += wi * (m - gamma * np.log(p.sum()))
        E = ((p / p.sum()) @ inc).reshape(local.shape)
        g += wi * 2 * (E.sum(1)[:, None] * b - E @ x)
    return val, g


def resampled(x, size):
    if len(x) == 1:
        return np.repeat(x, size, axis=0)
    t = np.linspace(0, 1, len(x))
    return np.stack([np.interp(np.linspace(0, 1, size), t, x[:, f]) for f in range(x.shape[1])], axis=1)


def datasets(ctx):
    S = series
    out = [[S(1, 4), S(2, 4)], [S(3, 4), S(4, 2), S(5, 3)], [S(6, 3, 2), S(7, 3, 2)], [S(8, 3)], [S(9, 3, 2), S(10, 2, 2), S(11, 4, 2)], [S(12, 4) * 3, S(13, 4), S(13, 4)]]
    if ctx.thorough:
        out += [[S(100 + 7 * a + k, 1 + (a * k + a) % 5, 1 + a % 2) for k in range(1 + a % 3)] for a in range(20)]
    return out


def run(ctx):
    from tslearn.barycenters import softdtw_barycenter as sb
    from scipy.optimize import minimize
    ctx.states += P.self_check()
    gammas = (.01, .3, 1., 10.)
    for di, data in enumerate(datasets(ctx)):
        X, n, d = P.pad(data), len(data), data[0].shape[1]
        longest = X.shape[1]
        weightss = [None, np.arange(1., n + 1), np.array([.2, 3., 1.])[:n]] + ([np.array([0., 1., 2.])[:n]] if n > 1 else [])
        starts = [None] + [series(60 + l, l, d) for l in (1, 2, 3, 5)] + [data[0]]
        for (wi, weights), (si, start), (gi, gamma) in itertools.product(enumerate(weightss), enumerate(starts), enumerate(gammas)):
            if ctx.quick and (wi + si + gi + di) % 2 and wi:
                continue
            if not ctx.mine():
                continue
            w = np.ones(n) if weights is None else weights
            if start is None:
                b0 = sum(wi_ * resampled(x, longest) for wi_, x in zip(w, data)) / w.sum()
            else:
                b0 = start
            for ki, kw in enumerate(CONS):
                if not all(P.has_path(P.constraint_mask(len(b0), len(x), kw)) for x in data) or ki and (di + si + gi) % 2 and ctx.quick:
                    continue
                f0, _ = objective(b0, data, w, gamma, kw)
                last = f0

                def call(**more):
                    s = None if start is None else start.copy()
                    Z, ww = X.copy(), None if weights is None else weights.copy()
                    b = sb(Z, gamma=gamma, weights=ww, init=s, **{**kw, **more})
                    equal(Z, X, "dataset modified")
                    require(s is None or np.array_equal(s, start), "initial barycenter modified")
                    require(ww is None or np.array_equal(ww, weights), "weights modified")
                    b = np.asarray(b)
                    require(b.shape == b0.shape, f"shape {b.shape} instead of {b0.shape}")
                    require(np.isfinite(b).all(), "not finite")
                    return b
                ref_f = lambda z: (lambda v, g: (v, g.ravel()))(*objective(z.reshape(b0.shape), data, w, gamma, kw))
                for it in (0, 1, 2, 4):
                    with ctx.case("iterate", dataset=di, start=si, weights=weights, gamma=gamma, constraint=kw, iterations=it):
                        b = call(max_iter=it, tol=1e-13)
                        v, _ = objective(b, data, w, gamma, kw)
                        require(v <= last + 1e-9 * max(1, abs(last)), f"objective {v} after {it} iterations, {last} before")
                        last = v
                        if it == 0:
                            close(b, b0, "initial barycenter")
                        else:
                            want = minimize(ref_f, b0.ravel(), method="L-BFGS-B", jac=True, tol=1e-13, options=dict(maxiter=it)).x.reshape(b0.shape)
                            close(b, want, f"barycenter after {it} iterations", rtol=1e-4, atol=1e-5)
                        if it == 2:
                            close(call(max_iter=it, tol=1e-13, n_jobs=2), b, "two jobs", rtol=1e-5, atol=1e-6)
                        ctx.outcome(np.round(b, 5))
                    ctx.transitions += len(data)
                    ctx.states += 1
                with ctx.case("default", dataset=di, start=si, weights=weights, gamma=gamma, constraint=kw):
                    v, _ = objective(call(), data, w, gamma, kw)
                    require(v <= f0 + 1e-9 * max(1, abs(f0)), f"objective {v}, initially {f0}")
                with ctx.case("converged", dataset=di, start=si, weights=weights, gamma=gamma, constraint=kw):
                    b = call(max_iter=1000, tol=1e-13)
                    v, g = objective(b, data, w, gamma, kw)
                    require(v <= last + 1e-9 * max(1, abs(last)), f"objective {v} at convergence, {last} after 4 iterations")
                    require(abs(g).max() <= 1e-3 * w.sum() * max(1., abs(b).max()), f"gradient {g.ravel().tolist()} at the barycenter")
                    again = sb(X.copy(), gamma=gamma, weights=weights, init=b.copy(), max_iter=50, **kw)
                    require(objective(np.asarray(again), data, w, gamma, kw)[0] <= v + 1e-9 * max(1, abs(v)), "restarting at the barycenter worsens it")
                ctx.traces += 1
        if ctx.mine():
            relations(ctx, sb, data, X, d, di)


def relations(ctx, sb, data, X, d, di):
    n = len(data)
    w = np.arange(1., n + 1)
    for start, gamma, kw, it in itertools.product((data[0], series(91, 3, d), None), (.5, 2.), CONS[:2], (1, 3)):
        with ctx.case("relations", dataset=di, start=start, gamma=gamma, constraint=kw, iterations=it):
            go = lambda Z, w, **more: np.asarray(sb(Z, gamma=gamma, weights=w, init=start, max_iter=it, tol=1e-13, **{**kw, **more}))
            b = go(X.copy(), w)
            near = dict(rtol=1e-4, atol=1e-5)
            close(go(X[::-1].copy(), w[::-1].copy()), b, "series reordered", **near)
            if start is not None or True:
                extra = np.concatenate([X, X[:1] * 5 - 2])
                close(go(extra, np.append(w, 0.)), b, "series of weight zero", **near)
            dup = np.concatenate([X] + [X[k:k + 1] for k in range(n) for _ in range(k)])
            close(go(dup, None), b, "integer weights against repeated series", **near)
            close(go([x.tolist() for x in data], w), b, "list input", **near)
            close(go(P.pad(data, 3), w), b, "more padding", **near) if start is not None else None
        ctx.traces += 1
