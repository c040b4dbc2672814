"""C10: every pairwise matrix holds the pairwise values, whatever the parallel schedule."""
import functools
import itertools
import os

import numpy as np

from mc import jobs, paths as P, sched
from mc.core import close, require, equal
from mc.elastic import series

LEVEL = "model_checking"
TECHNIQUE = ("stateless model checking of the real matrix functions: a controlled joblib backend enumerates every task "
             "completion order, a line-level scheduler every interleaving with one preemption")
RULE = ("all completion orders of the parallel tasks (joblib dispatch window 2*n_jobs) for every matrix function, plus "
        "all one-preemption interleavings of the tasks' Python lines; matrices compared bit for bit with the sequential "
        "one and entry by entry with the two-series function")
ASSUMPTIONS = ["schedules: up to 6 tasks, n_jobs 2 and 3; compiled kernels are atomic steps of the scheduler",
               "the parallel loops inside compiled kernels (numba prange) are not interleaved, only compared"]


def sax_ref(a, b, bp, size):
    s = 0.
    for x, y in zip(a.ravel(), b.ravel()):
        if abs(x - y) > 1:
            s += (bp[int(max(x, y)) - 1] - bp[int(min(x, y))]) ** 2
    return np.sqrt(s * size / len(a))


def menu(M):
    sc = {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 1}
    it = {"global_constraint": "itakura", "itakura_max_slope": 3.}
    return [
        ("dtw", M.cdist_dtw, M.dtw, [{}, sc, {"sakoe_chiba_radius": 0}, it]),
        ("frechet", M.cdist_frechet, M.frechet, [{}, sc, {"itakura_max_slope": 3.}]),
        ("soft_dtw", M.cdist_soft_dtw, M.soft_dtw, [{}, {"gamma": .1}, dict(sc, gamma=.5)]),
        ("soft_dtw_normalized", M.cdist_soft_dtw_normalized, M.soft_dtw_normalized, [{}, {"gamma": .1}, dict(sc, gamma=.5)]),
        ("gak", M.cdist_gak, M.gak, [{}, {"sigma": 3.}]),
        ("ctw", M.cdist_ctw, M.ctw, [{}, {"max_iter": 1}, {"n_components": 1}, sc]),
    ]


def data(lens, d, seed):
    return [series(seed + k, l, d) for k, l in enumerate(lens)]


def run(ctx):
    import torch
    from tslearn import metrics as M
    values(ctx, M, torch)
    orders(ctx, M)
    interleavings(ctx, M)


def values(ctx, M, torch):
    sets = [((4, 4, 4), (4, 4), 1), ((3, 5, 4, 2), (6, 2, 3), 1), ((4, 3, 5), (3,), 2), ((4,), (6, 3, 5, 4), 2), ((5,), (5,), 1),
            ((2, 2), (7, 3), 1), ((6, 6, 3, 4, 5), (2, 4), 3)]
    for name, cd, f, kws in menu(M):
        for si, (l1, l2, d) in enumerate(sets):
            if name == "ctw" and (min(l1 + l2) < 3):
                continue
            D1, D2 = data(l1, d, 10 * si), data(l2, d, 10 * si + 500)
            for kw in kws:
                if "itakura" in str(kw) and si not in (0, 2, 4):
                    continue
                for be in (None, "pytorch"):
                    if be and (si != 1 or (name == "ctw" and kw) or (ctx.quick and "gamma" in kw)):
                        continue
                    X1, X2 = P.pad(D1), P.pad(D2, extra=si % 3)
                    k1, k2 = X1.copy(), X2.copy()
                    with ctx.case("values", fun=name, set=si, kw=kw, be=be):
                        s = np.zeros((len(D1), len(D1)))
                        for i, j in itertools.combinations_with_replacement(range(len(D1)), 2):
                            if i != j or name not in ("dtw", "frechet", "ctw"):
                                s[i, j] = s[j, i] = float(f(D1[i], D1[j], be=be, **kw))
                        c = P.matrix(lambda a, b: float(f(a, b, be=be, **kw)), D1, D2)
                        base = [np.asarray(cd(X1, be=be, **kw)), np.asarray(cd(X1, X2, be=be, **kw))]
                        tol = dict(rtol=1e-7, atol=1e-7)
                        close(base[0], s, "self matrix", **tol)
                        close(base[1], c, "cross matrix", **tol)
                        require(np.array_equal(base[0], base[0].T) or name == "gak", "self matrix symmetric")
                        close(cd(X2, X1, be=be, **kw), c.T if name != "ctw" else P.matrix(
                            lambda a, b: float(f(a, b, be=be, **kw)), D2, D1), "swapped", rtol=1e-6, atol=1e-6)
                        close(cd(D1 if be is None else [torch.tensor(t) for t in D1], D2, be=be, **kw), base[1], "list input", **tol)
                        for nj in ((1, 2, 3, -1) if ctx.thorough or (si == 1 and not be) else (2,)):
                            equal(np.asarray(cd(X1, be=be, n_jobs=nj, **kw)), base[0], f"self matrix, n_jobs={nj}")
                            equal(np.asarray(cd(X1, X2, be=be, n_jobs=nj, **kw)), base[1], f"cross matrix, n_jobs={nj}")
                        equal(X1, k1, "first dataset")
                        equal(X2, k2, "second dataset")
                        full = P.matrix(lambda a, b: float(f(a, b, be=be, **kw)), D1, D1)
                        close(cd(X1, X1, be=be, **kw), full, "cross matrix of a dataset with itself", **tol)
                        close(cd(X1, X1, be=be, n_jobs=2, **kw), full, "the same in parallel", **tol)
                        ctx.outcome(c, s)
                    ctx.states += s.size + c.size
                    ctx.traces += 12
    for n1, n2, seg, d in itertools.product((1, 3), (1, 2), (1, 3, 5), (1, 2)):
        bp = np.array([-.8, -.2, .3, .9])
        A = (series(n1 + 3, n1 * seg, d).reshape(n1, seg, d) + 3.) // 1.2
        B = (series(n2 + 9, n2 * seg, d).reshape(n2, seg, d) + 3.) // 1.2
        A, B = A.astype(int), B.astype(int)
        with ctx.case("sax", n1=n1, n2=n2, seg=seg, d=d):
            size = seg * 4
            c, s = P.matrix(lambda a, b: sax_ref(a, b, bp, size), A, B), P.matrix(lambda a, b: sax_ref(a, b, bp, size), A, A)
            for nj in (None, 2, -1):
                close(M.cdist_sax(A, bp, size, n_jobs=nj), s, f"self (n_jobs={nj})")
                close(M.cdist_sax(A, bp, size, B, n_jobs=nj), c, f"cross (n_jobs={nj})")
            ctx.outcome(c)
        ctx.states += c.size
    for n1, n2, l, d in itertools.product((1, 3), (2, 4), (2, 3, 7, 8), (1, 2)):
        A = np.stack(data([l] * n1, d, 3))
        B = np.stack(data([l] * n2, d, 33))

        def ncc(a, b):
            cc = sum(np.correlate(a[:, k], b[:, k], "full") for k in range(d))
            return (cc / (np.linalg.norm(a) * np.linalg.norm(b))).max()
        with ctx.case("normalized_cc", n1=n1, n2=n2, l=l, d=d):
            c = P.matrix(ncc, A, B)
            neg = lambda n: -np.ones(n)
            close(M.cdist_normalized_cc(A, B, neg(n1), neg(n2), False), c, "cross")
            close(M.cdist_normalized_cc(A, B, np.linalg.norm(A, axis=(1, 2)), np.linalg.norm(B, axis=(1, 2)), False), c, "cross, norms given")
            s = P.matrix(ncc, A, A) * (1 - np.eye(n1))
            close(M.cdist_normalized_cc(A, A, neg(n1), neg(n1), True), s, "self")
            ctx.outcome(c)
        ctx.states += c.size


def orders(ctx, M):
    """Every completion order of the parallel tasks."""
    tot = 0
    for name, cd, f, kws in menu(M):
        sizes = [((4, 3, 5), None, 2), ((3, 4), (5, 3), 2)]
        if ctx.thorough:
            sizes += [((4, 3, 5), None, 3), ((3, 4, 3), (5, 3), 2), ((5,), (3, 4, 4), 3)]
        if name in ("gak", "soft_dtw_normalized"):
            sizes = [((4, 3), None, 2), ((3, 4), (5, 3), 2)] if ctx.quick else sizes[:2] + [((3,), (4, 4, 3), 2)]
        for (l1, l2, nj), kw in itertools.product(sizes, kws[:2] if ctx.quick else kws):
            if "itakura" in str(kw):
                continue
            X1 = P.pad(data(l1, 1, 70))
            X2 = None if l2 is None else P.pad(data(l2, 1, 90))
            ref = np.asarray(cd(X1, X2, **kw))
            cap = ctx.pick(384, 2000)
            n = 0
            jobs.STATS["tasks"] = 0
            with ctx.case("order", fun=name, lens=(l1, l2), n_jobs=nj, kw=kw):
                for choices, r in jobs.explore_orders(lambda: cd(X1, X2, n_jobs=nj, **kw), limit=cap):
                    n += 1
                    require(len(choices) > 1, "the matrix function did not run its tasks through joblib")
                    require(np.array_equal(np.asarray(r), ref), f"task order {choices}: {np.asarray(r).tolist()} instead of {ref.tolist()}")
                    ctx.outcome(np.array(choices))
            if n >= cap:
                ctx.extra["capped_order_explorations"] = ctx.extra.get("capped_order_explorations", 0) + 1
            tot += n
            ctx.traces += n
            ctx.transitions += jobs.STATS["tasks"]
    ctx.extra["task_orders"] = tot


def interleavings(ctx, M):
    """One-preemption interleavings of the tasks' Python lines."""
    import tslearn
    root = os.path.dirname(os.path.realpath(tslearn.__file__))
    roots = (os.path.dirname(tslearn.__file__) + os.sep, root + os.sep)
    n_runs = 0
    for name, cd, f, kws in menu(M):
        for l1, l2 in (((4, 3), None), ((3, 4), (5, 3))):
            X1 = P.pad(data(l1, 1, 70))
            X2 = None if l2 is None else P.pad(data(l2, 1, 90))
            kw = kws[1]
            ref = np.asarray(cd(X1, X2, **kw))
            taken = {}

            def runner(pre, first, backend):
                q, backend.pending = backend.pending, []
                out = [None] * len(q)

                def body(k):
                    def go():
                        try:
                            out[k] = q[k][0]()
                        except BaseException as e:
                            out[k] = e
                    return go
                r = sched.Run([body(k) for k in range(len(q))], pre, roots, min(first, len(q) - 1)).go()
                taken["runs"] = taken.get("runs", []) + [r]
                for (fn, cb), o in zip(q, out):
                    cb(o)

            def execute(pre_by_call, first):
                taken["runs"] = []
                calls = {"n": 0}

                def R(backend):
                    k = calls["n"]
                    calls["n"] += 1
                    runner(pre_by_call.get(k, {}), first, backend)
                jobs.RUNNER = R
                try:
                    with jobs.controlled():
                        return cd(X1, X2, n_jobs=4, **kw)
                finally:
                    jobs.RUNNER = None
            with ctx.case("interleaving", fun=name, lens=(l1, l2), kw=kw):
                for first in (0, 1):
                    require(np.array_equal(np.asarray(execute({}, first)), ref), "no preemption")
                    shape = [(r.points, list(r.alts)) for r in taken["runs"]]
                    for call, (pts, alts) in enumerate(shape):
                        step = 1 if (ctx.thorough or pts < 120) else max(1, pts // 120)
                        for p in range(0, pts, step):
                            for a in range(alts[p]):
                                r = np.asarray(execute({call: {p: a}}, first))
                                require(np.array_equal(r, ref), f"preemption {taken['runs'][call].trace}: {r.tolist()} instead of {ref.tolist()}")
                                n_runs += 1
                                ctx.transitions += pts
    ctx.extra["interleavings"] = n_runs
    ctx.traces += n_runs
