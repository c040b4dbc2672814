"""C19: DBA barycenters never get worse and report their true cost."""
import itertools

import numpy as np

from mc import paths as P
from mc.core import close, equal, require
from mc.elastic import series

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of the iterates of the barycenter update as a transition system: every dataset x start x weights x constraint, one iteration at a time, each "
             "state's cost against the warping-path enumeration and the trajectory in lockstep with a reference update; scripted orders for the stochastic variant")
SHARDS = 6
RULE = ("all datasets of 1..3 (4) series from pools incl. all small integer series x initial barycenter (every pool series, default, sizes 1..6, NaN-padded) x weights x "
        "constraint x iteration caps 0..6 and the default x variant; every visiting order of the stochastic variant for up to 2 epochs")
ASSUMPTIONS = ["series of length 1..6, dims 1..2; lockstep where optimal paths are unique (generic values), cost properties everywhere",
               "monotonicity is claimed for the two expectation-maximisation variants, not for the stochastic one",
               "weights are numpy arrays, as documented"]
NOTE = "Costs are not returned by the public functions; they are computed from the returned barycenters."


def cost(b, data, w, kw):
    return sum(wi * P.ref_dtw(b, x, kw) ** 2 for wi, x in zip(w, data)) / sum(w)


def unique(local, mask):
    """The optimal run, or None when several are (nearly) optimal."""
    l1, l2 = local.shape
    if l1 * l2 > 30:
        return P.dp_path(local, mask)[0]
    idx = P.admissible(mask)
    c = P.incidence(l1, l2)[idx] @ local.ravel()
    o = np.sort(c)
    if len(o) > 1 and o[1] - o[0] < 1e-7 * max(1, o[0]):
        return None
    return P.all_paths(l1, l2)[idx[c.argmin()]]


def step(b, data, w, kw):
    """One reference update: every point becomes the weighted mean of the samples aligned with it."""
    num, den = np.zeros_like(b), np.zeros(len(b))
    for wi, x in zip(w, data):
        path = unique(P.sq_local(b, x), P.constraint_mask(len(b), len(x), kw))
        if path is None:
            return None
        for i, j in path:
            num[i] += wi * x[j]
            den[i] += wi
    return num / den[:, None]


def default_start(X, size):
    m = np.nanmean(X, axis=0)
    t = np.linspace(0, 1, len(m))
    return np.stack([np.interp(np.linspace(0, 1, size), t, m[:, f]) for f in range(m.shape[1])], axis=1)


CONS = [None, {}, {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 1}, {"sakoe_chiba_radius": 0}, {"global_constraint": "itakura", "itakura_max_slope": 2.5}]


def datasets(ctx):
    S = series
    out = [[S(k, 4), S(k + 1, 4), S(k + 2, 4)] for k in (1, 5)]
    out += [[S(11, 5), S(12, 3), S(13, 4)], [S(14, 3, 2), S(15, 4, 2)], [S(16, 4, 2), S(17, 4, 2), S(18, 2, 2)], [S(19, 1), S(20, 4)], [S(21, 5)], [S(22, 3, 2)],
            [S(23, 4), S(23, 4), S(24, 5), S(25, 3)]]
    if ctx.thorough:
        out += [[S(100 + 7 * a + k, 2 + (a * k + a) % 5, 1 + a % 2) for k in range(2 + a % 3)] for a in range(24)]
    return out


class Permuted(np.random.RandomState):
    def __init__(self, orders):
        super().__init__(0)
        self.orders, self.served = list(orders), 0

    def permutation(self, x):
        if self.served < len(self.orders):
            self.served += 1
            return np.array(self.orders[self.served - 1])
        return super().permutation(x)

    def shuffle(self, x):
        if self.served < len(self.orders):
            self.served += 1
            x[:] = np.array(x)[list(self.orders[self.served - 1])]
        else:
            super().shuffle(x)


def run(ctx):
    from tslearn.barycenters import (dtw_barycenter_averaging as mm, dtw_barycenter_averaging_petitjean as pj, euclidean_barycenter)
    ctx.states += P.self_check()
    variants = [("em", mm), ("petitjean", pj)]
    for di, data in enumerate(datasets(ctx)):
        X, d, n = P.pad(data), data[0].shape[1], len(data)
        longest = X.shape[1]
        starts = [("default", None)] + [(f"series{k}", x) for k, x in enumerate(data[:2])] + [(f"other{l}", series(60 + l, l, d)) for l in (1, 3, 6)] + \
                 [("padded", np.vstack([series(70, 3, d), np.full((2, d), np.nan)]))]
        weightss = [None, np.ones(n) * 2.5, np.arange(1., n + 1), np.array([.1, 2., .7, 1.])[:n]]
        for (sn, start), (wi, weights) in itertools.product(starts, enumerate(weightss)):
            if not ctx.mine():
                continue
            for ci, kw in enumerate(CONS):
                if ctx.quick and (wi == 1 and ci > 1 or wi == 3 and ci == 2):
                    continue
                w = np.ones(n) if weights is None else weights
                b0 = default_start(X, longest) if start is None else start[~np.isnan(start).all(1)]
                if not all(P.has_path(P.constraint_mask(len(b0), len(x), kw or {})) for x in data):
                    continue
                trajectory(ctx, variants, mm, X, data, d, sn, start, b0, weights, w, kw, di)
    sizes(ctx, variants)
    small(ctx, variants)
    relations(ctx, variants)
    stochastic(ctx)
    euclid(ctx, euclidean_barycenter)


def trajectory(ctx, variants, mm, X, data, d, sn, start, b0, weights, w, kw, di):
    ref, lock = [b0], True
    for vn, fn in variants:
        last = cost(b0, data, w, kw or {})
        ref, lock, stopped, prev = [b0], True, False, np.inf
        for it in range(0, 6):
            with ctx.case("iterate", dataset=di, variant=vn, start=sn, weights=weights, constraint=kw, iterations=it):
                s = None if start is None else start.copy()
                b = fn(X.copy(), init_barycenter=s, weights=None if weights is None else weights.copy(), metric_params=None if kw is None else dict(kw), max_iter=it, tol=0.,
                       n_jobs=2 if it == 3 else None)
                require(b.shape == b0.shape, f"barycenter of shape {b.shape} instead of {b0.shape}")
                require(np.isfinite(b).all(), "not finite")
                now = cost(b, data, w, kw or {})
                require(now <= last + 1e-9 * max(1, last), f"cost {now} after {it} iterations, {last} before")
                last = now
                if it == 0:
                    close(b, b0, "without iterations the initial barycenter is returned")
                if lock and it:
                    nxt = step(ref[-1], data, w, kw or {})
                    if nxt is None:
                        lock = False
                    else:
                        ref.append(nxt)
                        close(b, nxt, f"barycenter after {it} iterations", rtol=1e-7, atol=1e-8)
                if s is not None:
                    equal(s, start, "initial barycenter modified")
                ctx.outcome(np.round(b, 7))
            ctx.transitions += len(data)
            ctx.states += 1
        with ctx.case("defaults", dataset=di, variant=vn, start=sn, weights=weights, constraint=kw):
            b = fn(X.copy(), init_barycenter=start, weights=weights, metric_params=kw)
            require(cost(b, data, w, kw or {}) <= last + 1e-4, "the default number of iterations gives a worse barycenter than five")
            if vn == "em":
                close(fn(X.copy(), init_barycenter=start, weights=weights, metric_params=kw, n_init=3, verbose=False), b, "n_init")
                if ctx.thorough or di % 2:
                    from tslearn.barycenters.dba import dtw_barycenter_averaging_one_init as one
                    for it in (0, 1, 2, 30):
                        b, c = one(X.copy(), init_barycenter=start, weights=weights, metric_params=kw, max_iter=it)
                        close(c, cost(b, data, w, kw or {}), f"reported cost after {it} iterations", atol=1e-9)
        ctx.traces += 1


def sizes(ctx, variants):
    """Requested sizes, early stopping and iteration caps."""
    for di, data in enumerate([[series(31, 4), series(32, 5)], [series(33, 3, 2), series(34, 3, 2), series(35, 3, 2)]]):
        if not ctx.mine():
            continue
        X, w = P.pad(data), np.ones(len(data))
        for (vn, fn), size, kw in itertools.product(variants, (None, 1, 2, 4, 7), (None, {"sakoe_chiba_radius": 1})):
            with ctx.case("size", dataset=di, variant=vn, size=size, constraint=kw):
                b = fn(X.copy(), barycenter_size=size, max_iter=0)
                close(b, default_start(X, size or X.shape[1]), "default initial barycenter")
                c0 = cost(b, data, w, kw or {})
                b = fn(X.copy(), barycenter_size=size, metric_params=kw)
                require(b.shape == (size or X.shape[1], X.shape[2]), f"shape {b.shape}")
                c = cost(b, data, w, kw or {})
                require(c <= c0 + 1e-9, f"cost {c}, initially {c0}")
                # early stopping: a huge tolerance stops after the second iteration (the first has nothing to compare with)
                two = fn(X.copy(), barycenter_size=size, metric_params=kw, max_iter=2, tol=0.)
                close(fn(X.copy(), barycenter_size=size, metric_params=kw, tol=1e9, max_iter=30), two, "stopped by the tolerance")
                # the size of a given initial barycenter wins
                s = series(36, 3, X.shape[2])
                require(len(fn(X.copy(), barycenter_size=size, init_barycenter=s)) == 3, "size of the initial barycenter")
                # converged: a fixed point of the update
                b = fn(X.copy(), barycenter_size=size, metric_params=kw, tol=0., max_iter=200)
                close(fn(X.copy(), init_barycenter=b, metric_params=kw, tol=0., max_iter=1), b, "fixed point", atol=1e-6)
            ctx.traces += 1


def small(ctx, variants):
    """All small integer datasets: only costs, as optimal paths are not unique."""
    alphabet = (0., 1., 3.)
    pool = list(P.series_over(alphabet, (1, 2, 3)))
    pool = pool[::2] if ctx.quick else pool
    n = 0
    for a, b in itertools.combinations_with_replacement(range(len(pool)), 2):
        data = [pool[a], pool[b]]
        X = P.pad(data)
        for vn, fn in variants:
            n += 1
            if n % 2 and ctx.quick or not ctx.mine():
                continue
            w = np.array([1., 1.]) if n % 4 < 2 else np.array([3., 1.])
            with ctx.case("integer", variant=vn, series=data, weights=w):
                start = None if n % 3 else pool[(a + b) % len(pool)]
                b0 = default_start(X, X.shape[1]) if start is None else start
                last = cost(b0, data, w, {})
                for it in (1, 2, 3, 30):
                    z = fn(X.copy(), init_barycenter=start, weights=w, max_iter=it)
                    now = cost(z, data, w, {})
                    require(now <= last + 1e-9, f"cost {now} after {it} iterations, {last} before")
                    last = now
                ctx.outcome(np.round(z, 7))
            ctx.traces += 1
            ctx.transitions += 4


def relations(ctx, variants):
    for di, data in enumerate(datasets(ctx)):
        if not ctx.mine():
            continue
        X, n, d = P.pad(data), len(data), data[0].shape[1]
        for (vn, fn), (sn, start), kw in itertools.product(variants, (("series", data[0]), ("other", series(91, 4, d))), (None, {"sakoe_chiba_radius": 2})):
            with ctx.case("relations", dataset=di, variant=vn, start=sn, constraint=kw):
                w = np.arange(1., n + 1)
                b = fn(X.copy(), init_barycenter=start, weights=w, metric_params=kw, tol=0., max_iter=4)
                close(fn(X.copy(), init_barycenter=start, weights=w * 37., metric_params=kw, tol=0., max_iter=4), b, "weights scaled")
                close(fn(X[::-1].copy(), init_barycenter=start, weights=w[::-1].copy(), metric_params=kw, tol=0., max_iter=4), b, "series reordered")
                extra = np.concatenate([X, X[:1] * 5 - 2])
                close(fn(extra, init_barycenter=start, weights=np.append(w, 0.), metric_params=kw, tol=0., max_iter=4), b, "series of weight zero")
                dup = np.concatenate([X] + [X[k:k + 1] for k in range(n) for _ in range(k)])
                close(fn(dup, init_barycenter=start, metric_params=kw, tol=0., max_iter=4), b, "integer weights against repeated series", atol=1e-7)
                if kw is None:
                    close(fn([x.tolist() for x in data], init_barycenter=start, weights=w, tol=0., max_iter=4), b, "list input")
            with ctx.case("single", dataset=di, variant=vn, start=sn):
                # one series: the barycenter of its size is the series itself
                close(fn(X[:1].copy(), init_barycenter=data[0], max_iter=5), data[0], "a single series is its own barycenter")
                one = data[-1]
                close(fn([one], max_iter=3), one, "a single series is its own barycenter")
                same = fn([one] * 3, max_iter=3, weights=np.array([1., 2., .5]))
                close(same, one, "equal series")
        ctx.traces += 1


def stochastic(ctx):
    """Every visiting order of up to two epochs, in lockstep with a reference subgradient step."""
    from tslearn.barycenters import dtw_barycenter_averaging_subgradient as sg
    cases = [[series(41, 4), series(42, 4)], [series(43, 3), series(44, 4), series(45, 3)], [series(46, 3, 2), series(47, 3, 2)]]
    for di, data in enumerate(cases):
        n, d, X = len(data), data[0].shape[1], P.pad(data)
        orders = list(itertools.permutations(range(n)))
        for sn, weights, kw, (e0, e1) in itertools.product(("default", "other", "padded"), (None, np.arange(1., n + 1), np.array([0., 2., 1.])[:n], np.ones(n) * 3), (None, {"sakoe_chiba_radius": 1}),
                                                         ((.05, .005), (.3, .1))):
            if not ctx.mine():
                continue
            w = np.ones(n) if weights is None else weights
            start = None if sn == "default" else series(48, 3, d)
            given = None if start is None else np.vstack([start, np.full((2, d), np.nan)]) if sn == "padded" else start
            b0 = default_start(X, X.shape[1]) if start is None else start
            for epochs in (0, 1, 2):
                for seq in itertools.product(orders, repeat=epochs):
                    b, eta, ok = b0.copy(), e0, True
                    for e, order in enumerate(seq):
                        for i in order:
                            path = unique(P.sq_local(b, data[i]), P.constraint_mask(len(b), len(data[i]), kw or {}))
                            if path is None:
                                ok = False
                                break
                            g = np.zeros_like(b)
                            for p, q in path:
                                g[p] += b[p] - data[i][q]
                            b = b - 2 * eta * g * w[i] / w.mean()
                            if e == 0:
                                eta -= (e0 - e1) / n
                    with ctx.case("stochastic", dataset=di, start=sn, weights=weights, constraint=kw, steps=(e0, e1), orders=seq):
                        rs = Permuted(seq)
                        s = None if given is None else given.copy()
                        got = sg(X.copy(), init_barycenter=s, weights=None if weights is None else weights.copy(), metric_params=kw, initial_step_size=e0, final_step_size=e1,
                                 max_iter=epochs, tol=0., random_state=rs)
                        if s is not None:
                            equal(s, given, "initial barycenter modified")
                        require(got.shape == b0.shape and np.isfinite(got).all(), f"barycenter {got.tolist()}")
                        if ok and rs.served == epochs:
                            close(got, b, "barycenter", rtol=1e-7, atol=1e-8)
                        ctx.outcome(np.round(got, 7))
                    ctx.transitions += epochs * n
                    ctx.traces += 1
            with ctx.case("stochastic-scale", dataset=di, start=sn, constraint=kw, steps=(e0, e1), weights=weights):
                a = sg(X.copy(), init_barycenter=given, weights=w.copy(), metric_params=kw, initial_step_size=e0, final_step_size=e1, random_state=3, tol=0.)
                b = sg(X.copy(), init_barycenter=given, weights=w * 8., metric_params=kw, initial_step_size=e0, final_step_size=e1, random_state=3, tol=0.)
                close(a, b, "weights scaled", atol=1e-7)
                c0, c1 = cost(b0, data, w, kw or {}), cost(a, data, w, kw or {})
                require(c1 <= c0 * 1.05 + 1e-9, f"cost {c1} after 30 epochs, initially {c0}")
                one = sg(X[:1].copy(), init_barycenter=data[0].copy(), max_iter=5)
                close(one, data[0], "a single series is its own barycenter")


def euclid(ctx, euclidean_barycenter):
    alphabet = (0., 1., -2.5)
    for d, l in itertools.product((1, 2), (1, 2, 3)):
        pool = list(P.series_over(alphabet, (l,), d))[::1 if l * d < 3 else 9]
        if not ctx.mine():
            continue
        for n in (1, 2, 3):
            for data in itertools.product(pool[:9], repeat=n):
                for w in (None, np.arange(1., n + 1), np.array([0., 2., 1.])[:n] if n > 1 else np.array([3.])):
                    with ctx.case("euclidean", data=data, weights=w):
                        X = np.array(data)
                        b = euclidean_barycenter(X.copy(), weights=w)
                        u = np.ones(n) if w is None else w
                        close(b, sum(a * x for a, x in zip(u, X)) / u.sum(), "weighted mean")
                    ctx.traces += 1
