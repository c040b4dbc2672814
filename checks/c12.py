"""C12: the NumPy and the PyTorch backend compute the same thing."""
import itertools

import numpy as np

from mc import paths as P
from mc.core import close, equal, require, Mismatch
from mc.elastic import CONSTRAINTS, series

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state bounded model checking of the two implementations against each other: exhaustive enumeration of the inputs x parameters x "
             "ways of choosing the backend, each run in lockstep on both (bisimulation of the two backends), gradients against central differences of the other one")
RULE = ("every measure with a backend x every pair of the pool x every parameter choice x the ways of choosing the PyTorch backend (by name, by backend object, "
        "by tensors), in lockstep with NumPy; gradients at generic points against central differences of the NumPy value")
ASSUMPTIONS = ["values 0, 1, 2.5 with lengths 1..3 (1..4 thorough), generic series up to length 12, and two of 30 samples with a large offset; dims 1..2",
               "double precision tensors on the CPU; paths are compared by their cost, as equal costs may be broken differently"]
SHARDS = 5


def leaves(o):
    if isinstance(o, (list, tuple)):
        for x in o:
            yield from leaves(x)
    else:
        yield o


def typed(o, torch, want_torch, what):
    for x in leaves(o):
        if want_torch:
            require(not isinstance(x, (np.ndarray, np.generic)), f"{what}: NumPy object {type(x)} from the PyTorch backend")
        else:
            require(not torch.is_tensor(x), f"{what}: tensor from the NumPy backend")


def run(ctx):
    import torch
    from tslearn import metrics as M
    from tslearn.metrics import softdtw_variants as old
    from tslearn.backend import Backend, instantiate_backend
    ctx.states += P.self_check()

    def tens(x):
        if isinstance(x, np.ndarray):
            return torch.tensor(x)
        if isinstance(x, list):
            return [tens(v) for v in x]
        return x

    def snap(x):
        return [snap(v) for v in x] if isinstance(x, list) else (x.clone() if torch.is_tensor(x) else x)

    MODES = {"name": lambda f, a, kw: f(*a, be="pytorch", **kw),
             "object": lambda f, a, kw: f(*a, be=Backend("pytorch"), **kw),
             "tensors": lambda f, a, kw: f(*tens(list(a)), be=None, **kw),
             "tensors-name": lambda f, a, kw: f(*tens(list(a)), be="torch", **kw),
             "numpy": lambda f, a, kw: f(*tens(list(a)), be="numpy", **kw),
             "numpy-object": lambda f, a, kw: f(*a, be=Backend("numpy"), **kw)}
    turn = itertools.count()

    def both(tag, f, args, kw, modes=None, compare=None, rtol=1e-9, atol=1e-7, **info):
        """The same call on both backends."""
        if modes is None:
            modes = [("name", "tensors", "object", "tensors-name")[next(turn) % 4]]
        with ctx.case(tag, args=[a if not callable(a) else "fun" for a in args], kw={k: v if not callable(v) else "fun" for k, v in kw.items()}, modes=modes, **info):
            try:
                want, err = f(*args, be=None, **kw), None
            except (ValueError, RuntimeWarning, ZeroDivisionError) as e:
                want, err = None, e
            for m in modes:
                a = [np.copy(x) if isinstance(x, np.ndarray) else x for x in args]
                try:
                    got = MODES[m](f, a, kw)
                except (ValueError, RuntimeWarning, ZeroDivisionError) as e:
                    require(err is not None, f"{m}: {type(e).__name__}: {e} only with this backend")
                    continue
                require(err is None, f"{m}: NumPy rejects the call ({err!r}), this backend returns {got!r:.200}")
                typed(got, torch, not m.startswith("numpy"), m)
                (compare or same)(got, want, rtol, atol)
            if err is None:
                ctx.outcome([float(x) for x in leaves(want) if np.ndim(x) == 0][:8])
        ctx.traces += len(modes)
        ctx.transitions += len(modes) + 1

    def same(got, want, rtol, atol):
        g, w = list(leaves(got)), list(leaves(want))
        require(len(g) == len(w), f"structure {got!r:.300} vs {want!r:.300}")
        for x, y in zip(g, w):
            close(x, y, "result", rtol=rtol, atol=atol)

    def path_of(meas, a, b, kw):
        def cmp(got, want, rtol, atol):
            (gp, gv), (wp, wv) = got, want
            close(gv, wv, "value", rtol=rtol, atol=atol)
            close(meas(gp, a, b, kw), meas(wp, a, b, kw), f"cost of the path {gp!r:.200} (NumPy: {wp!r:.200})", rtol=rtol, atol=atol)
        return cmp

    def sumcost(p, a, b, kw):
        d = P.sq_local(a, b)
        P.is_warping_path(p, len(a), len(b))
        m = P.constraint_mask(len(a), len(b), kw)
        require(all(m[int(i), int(j)] for i, j in p), f"path {p} leaves the region")
        return sum(d[int(i), int(j)] for i, j in p)

    def maxcost(p, a, b, kw):
        d = P.sq_local(a, b)
        P.is_warping_path(p, len(a), len(b))
        m = P.constraint_mask(len(a), len(b), kw)
        require(all(m[int(i), int(j)] for i, j in p), f"path {p} leaves the region")
        return max(d[int(i), int(j)] for i, j in p)

    def windowcost(p, a, b, kw):
        d = P.sq_local(a, b)
        return sum(d[int(i), int(j)] for i, j in p)

    def matches(eps):
        def f(p, a, b, kw):
            d = np.sqrt(P.sq_local(a, b))
            require(all(d[i, j] <= eps for i, j in p), f"pairs {p} too far apart")
            return len(p)
        return f

    def l1(x, y):
        return abs(x - y).sum()

    def pair(a, b, tag, cons, thin=False, modes=None, **info):
        """Every two-series measure on one pair."""
        k = dict(modes=modes, **info)
        for c in cons:
            both(tag + "-dtw", M.dtw, (a, b), c, **k)
            both(tag + "-dtw-path", M.dtw_path, (a, b), c, compare=path_of(sumcost, a, b, c), **k)
            both(tag + "-frechet", M.frechet, (a, b), c, **k)
            both(tag + "-frechet-path", M.frechet_path, (a, b), c, compare=path_of(maxcost, a, b, c), **k)
            both(tag + "-softdtw", M.soft_dtw, (a, b), {**c, "gamma": .5}, **k)
            both(tag + "-softdtw-norm", M.soft_dtw_normalized, (a, b), {**c, "gamma": 2.}, **k)
            both(tag + "-softdtw-align", M.soft_dtw_alignment, (a, b), {**c, "gamma": .5}, **k)
            for eps in (0., 1.2):
                both(tag + "-lcss", M.lcss, (a, b), {**c, "eps": eps}, **k)
            both(tag + "-lcss-path", M.lcss_path, (a, b), {**c, "eps": 1.2}, compare=path_of(matches(1.2), a, b, c), **k)
            if not thin:
                for met in ("euclidean", "sqeuclidean", l1):
                    mk = {**c, "metric": met}
                    tot = lambda agg, met=met: (lambda p, a, b, kw: agg([local(met, a, b)[int(i), int(j)] for i, j in p]))
                    both(tag + "-dtw-metric", M.dtw_path_from_metric, (a, b), mk, compare=path_of(tot(sum), a, b, c), **k)
                    both(tag + "-frechet-metric", M.frechet_path_from_metric, (a, b), mk, compare=path_of(tot(max), a, b, c), **k)
                    both(tag + "-lcss-metric", M.lcss_path_from_metric, (a, b), {**mk, "eps": 1.2}, compare=path_of(lambda p, a, b, kw: len(p), a, b, c), **k)
                d = np.sqrt(P.sq_local(a, b))
                precomputed(tag, d, c, k)
        if thin:
            return
        both(tag + "-gak", M.gak, (a, b), {"sigma": .7}, **k)
        both(tag + "-gak-un", M.unnormalized_gak, (a, b), {"sigma": 2.}, **k)
        both(tag + "-softdtw-0", M.soft_dtw, (a, b), {"gamma": 0.}, **k)
        both(tag + "-softdtw-norm-0", M.soft_dtw_normalized, (a, b), {"gamma": 0.}, **k)
        both(tag + "-subseq-matrix", M.subsequence_cost_matrix, (a, b), {}, **k)
        both(tag + "-subseq", M.dtw_subsequence_path, (a, b), {}, compare=path_of(windowcost, a, b, {}), **k)
        for n in range(max(len(a), len(b)) - 1, len(a) + len(b)):
            both(tag + "-limited", M.dtw_limited_warping_length, (a, b, n), {}, **k)
            both(tag + "-limited-path", M.dtw_path_limited_warping_length, (a, b, n), {}, compare=path_of(windowcost, a, b, {}), **k)

    def local(met, a, b):
        if callable(met):
            return np.array([[l1(x, y) for y in b] for x in a])
        return P.sq_local(a, b) if met == "sqeuclidean" else np.sqrt(P.sq_local(a, b))

    def precomputed(tag, d, c, k):
        for f, agg, kw in ((M.dtw_path_from_metric, sum, {}), (M.frechet_path_from_metric, max, {}), (M.lcss_path_from_metric, lambda v: len(v), {"eps": 1.2})):
            cmp = path_of(lambda p, a, b, kw: agg([d[int(i), int(j)] for i, j in p]), None, None, c)
            both(tag + "-precomputed-" + f.__name__.split("_")[0], f, (d,), {**c, **kw, "metric": "precomputed"}, compare=cmp, **k)

    # -- all small pairs, one way of choosing the backend each; other parameters on a part of them
    pool = list(P.series_over((0., 1., 2.5), (1, 2, 3)))
    if ctx.thorough:
        pool += list(P.series_over((0., 1.), (4,)))
    cons = [c for c in CONSTRAINTS if c]
    for n, (a, b) in enumerate(itertools.product(pool, repeat=2)):
        if not ctx.mine():
            continue
        if ctx.thorough or n % 3 == 0:
            pair(a, b, "all", [{}], thin=ctx.quick and n % 12 != 0)
        if ctx.thorough or n % 29 == 0:
            pair(a, b, "all", [cons[(n // 29) % len(cons)]])
    pool2 = list(P.series_over((0., 1.), (1, 2), d=2))
    for n, (a, b) in enumerate(itertools.product(pool2, repeat=2)):
        if ctx.mine() and (ctx.thorough or n % 9 == 0):
            pair(a, b, "dim2", [{}])
    # -- generic series: every constraint, every way of choosing the backend
    sizes = ctx.pick(((1, 1), (1, 4), (3, 3), (4, 6), (7, 5), (5, 5)), list(itertools.product(range(1, 8), repeat=2)))
    for (n1, n2), d in itertools.product(sizes, (1, 2)):
        a, b = series(n1 + 3, n1, d), series(n2 + 7, n2, d)
        for c in CONSTRAINTS:
            if ctx.mine():
                pair(a, b, "generic", [c], modes=[m for m in MODES if ctx.thorough or d == 1 or m in ("name", "tensors")], thin=ctx.quick and n1 > 5 and bool(c))
    # -- sizes that select other code inside PyTorch (matrix products above 25 rows), and large offsets
    for off, scale in ((0., 1.), (1e3, 1.), (1e6, 1e-2)):
        for n1, n2 in ((26, 30), (24, 30), (30, 30)):
            a, b = off + scale * series(n1, n1, 1), off + scale * series(n2 + 1, n2, 1)
            if ctx.mine():
                k = dict(modes=["name", "tensors"], rtol=1e-6, atol=1e-9, offset=off, sizes=(n1, n2))
                for f, kw in ((M.dtw, {}), (M.frechet, {}), (M.soft_dtw, {"gamma": .1}), (M.soft_dtw_normalized, {"gamma": .1}), (M.gak, {"sigma": 3.}),
                              (M.lcss, {"eps": .5 * scale}), (M.subsequence_cost_matrix, {})):
                    both("offset-" + f.__name__, f, (a, b), kw, **k)
                for met in ("euclidean", l1) if off < 1e6 else (l1,):       # scikit-learn's own distances are not exact there
                    both("offset-metric", lambda x, y, be, **kw: M.dtw_path_from_metric(x, y, be=be, **kw)[1], (a, b), {"metric": met}, **k)
                both("offset-self", M.dtw, (a, a.copy()), {}, **k)
                both("offset-envelope", M.lb_envelope, (a, 2), {}, **k)
                if off < 1e6:
                    both("offset-old", old.soft_dtw, (a, b), {"gamma": .1}, **k)
    # -- matrices
    sets = [[series(1, 3), series(2, 2), series(3, 4)], [series(4, 2, 2), series(5, 3, 2)], [series(6, 1), series(7, 1)], [series(8, 3)]]
    mats = [(M.cdist_dtw, cons[:6]), (M.cdist_frechet, cons[:6]), (M.cdist_soft_dtw, [{"gamma": .5}, {"gamma": 0.}, {"gamma": .5, "sakoe_chiba_radius": 1}]),
            (M.cdist_soft_dtw_normalized, [{"gamma": .5}, {"gamma": 0.}, {"gamma": 2., "sakoe_chiba_radius": 1}]), (M.cdist_gak, [{"sigma": .5}, {"sigma": 3.}]),
            (old.cdist_soft_dtw, [{"gamma": .5}, {"gamma": .5, "compute_with_backend": True}]),
            (old.cdist_soft_dtw_normalized, [{"gamma": .5}, {"gamma": .5, "compute_with_backend": True}])]
    for f, kws in mats:
        legacy = f.__module__.endswith("softdtw_variants")
        for kw, s1 in itertools.product([{}] * (not legacy) + kws, sets):
            if not ctx.mine():
                continue
            for s2 in [None] + [s for s in sets if s[0].shape[1] == s1[0].shape[1]]:
                for nj in (None,) if legacy else (None, 2):
                    z1 = P.pad(s1, 1)
                    z2 = None if s2 is None else P.pad(s2, 0)
                    both("matrix-" + f.__name__, f, (z1, z2), {**kw, **({} if legacy else {"n_jobs": nj})}, modes=["name", "tensors", "numpy"],
                         rtol=1e-6 if legacy else 1e-9, legacy=legacy)
    for s in ([series(1, 4, 2), series(2, 3, 2)], [series(5, 5, 2), series(6, 5, 2), series(9, 3, 2)]):
        if ctx.mine():
            for c in cons[:4] + [{}]:
                for it in (1, 2):
                    both("ctw", M.ctw, (s[0], s[1]), {**c, "max_iter": it}, modes=list(MODES))
                    both("ctw-path", lambda x, y, be, **kw: M.ctw_path(x, y, be=be, **kw)[::2], (s[0], s[1]), {**c, "max_iter": it},
                         compare=lambda g, w, rtol, atol: (equal([tuple(map(int, p)) for p in g[0]], [tuple(map(int, p)) for p in w[0]], "path"), close(g[1], w[1], "value")),
                         modes=["name", "tensors", "object"])
                both("ctw-matrix", M.cdist_ctw, (P.pad(s), None), c, modes=["name", "tensors"])
    # -- bandwidths
    for n, s in enumerate(sets):
        for ns, rs in itertools.product((2, 3, 4, 5, 20, 100), range(3)):
            if ctx.mine():
                for f in (M.sigma_gak, M.gamma_soft_dtw):
                    both("bandwidth-" + f.__name__, f, (P.pad(s, 1),), {"n_samples": ns, "random_state": rs}, modes=list(MODES))
    # -- masks, envelopes, building blocks
    for n1, n2 in itertools.product(range(1, ctx.pick(10, 21)), repeat=2):
        if ctx.mine():
            for r in (0, 1, 3):
                both("mask-sakoe", lambda be, **kw: M.sakoe_chiba_mask(n1, n2, be=be, **kw), (), {"radius": r}, modes=["name", "object"], compare=arr_same, sizes=(n1, n2))
            for s in (1.2, 1.5, 1.7, 2., 2.3, 3., 4.1):
                both("mask-itakura", lambda be, **kw: M.itakura_mask(n1, n2, be=be, **kw), (), {"max_slope": s}, modes=["name", "object"], compare=arr_same, sizes=(n1, n2))
    for n, a in enumerate(pool + pool2 + [series(3, 9), series(4, 7, 2), series(1, 5) + 1e5]):
        if ctx.mine():
            for r in range(0, 4):
                both("envelope", M.lb_envelope, (a, r), {}, modes=["name", "tensors"])
    for n, (a, b) in enumerate(itertools.product(pool[:12], repeat=2)):
        if ctx.mine():
            m = np.ones((len(a), len(b)), dtype=bool)
            m[-1, 0] = len(a) == 1 or len(b) == 1
            for f in (M.dtw_accumulated_matrix, M.frechet_accumulated_matrix):
                def acc(x, y, be, f=f):
                    t = torch.tensor(m) if (torch.is_tensor(x) or be in ("pytorch", "torch") or getattr(be, "is_pytorch", False)) and be != "numpy" else m
                    return f(x, y, t, be=be)
                both("accumulated-" + f.__module__.split("_")[-1], acc, (a, b), {}, modes=["name", "tensors"])
            for g in (.3, 2.):
                for cwb in (False, True):
                    def obj(x, y, be, g=g, cwb=cwb):
                        D = M.SquaredEuclidean(x, y, be=be, **({"compute_with_backend": cwb}))
                        S = M.SoftDTW(D, gamma=g, be=be, compute_with_backend=cwb)
                        v = S.compute()
                        return v, S.grad(), D.jacobian_product(S.grad())
                    both("objects", obj, (a, b), {}, modes=["name", "tensors"], cwb=cwb, gamma=g, rtol=1e-6)
                    both("old-softdtw", old.soft_dtw, (a, b), {"gamma": g, "compute_with_backend": cwb}, modes=["name", "tensors"], rtol=1e-6)
                    both("old-align", old.soft_dtw_alignment, (a, b), {"gamma": g, "compute_with_backend": cwb}, modes=["name", "tensors"], rtol=1e-6)
    utilities(ctx, both, pool, torch)
    gradients(ctx, torch, M)


def arr_same(got, want, rtol, atol):
    equal(np.asarray(got), np.asarray(want), "mask")


def utilities(ctx, both, pool, torch):
    from tslearn.utils import to_time_series, to_time_series_dataset, ts_size, check_equal_size
    nan = np.nan
    one = [np.array([[1.], [nan], [2.], [nan]]), np.array([[nan, 1.], [2., nan], [nan, nan]]), np.array([1., 2.]), np.full((2, 1), nan)]
    for a in pool[:20] + one:
        if ctx.mine():
            for rn in (False, True):
                both("utils-series", to_time_series, (a,), {"remove_nans": rn}, modes=["name", "tensors", "numpy"])
            both("utils-size", ts_size, (a,), {}, modes=["name", "tensors", "numpy"])
    for a, b in itertools.product(pool[:6] + one[:1], repeat=2):
        if ctx.mine():
            for f in (to_time_series_dataset, check_equal_size):
                both("utils-" + f.__name__, lambda x, y, be, f=f: f([x, y], be=be), (a, b), {}, modes=["name", "tensors"])


def gradients(ctx, torch, M):
    """Automatic differentiation of the PyTorch value against central differences of the NumPy value."""
    def sub(x, y, be=None):
        return M.dtw_subsequence_path(x, y, be=be)[1]

    def ofpath(f, **kw):
        return lambda x, y, be=None, **k: f(x, y, be=be, **kw, **k)[1]
    funs = [("dtw", M.dtw, True), ("dtw_path", ofpath(M.dtw_path), True), ("frechet", M.frechet, True), ("frechet_path", ofpath(M.frechet_path), True),
            ("soft_dtw", lambda x, y, be=None, **k: M.soft_dtw(x, y, gamma=.7, be=be, **k), True),
            ("soft_dtw_norm", lambda x, y, be=None, **k: M.soft_dtw_normalized(x, y, gamma=.7, be=be, **k), True),
            ("dtw_metric", ofpath(M.dtw_path_from_metric, metric="euclidean"), True),
            ("gak", lambda x, y, be=None: M.gak(x, y, sigma=1.5, be=be), False),
            ("gak_un", lambda x, y, be=None: M.unnormalized_gak(x, y, sigma=1.5, be=be), False),
            ("limited", lambda x, y, be=None: M.dtw_limited_warping_length(x, y, max(len(x), len(y)) + 1, be=be), False),
            ("limited_path", ofpath(lambda x, y, be=None: M.dtw_path_limited_warping_length(x, y, max(len(x), len(y)) + 1, be=be)), False),
            ("subsequence", sub, False),
            ("cdist_dtw", lambda x, y, be=None, **k: M.cdist_dtw([x, y], be=be, **k)[0, 1], True),
            ("cdist_dtw2", lambda x, y, be=None, **k: M.cdist_dtw([x], [y], be=be, **k)[0, 0], True),
            ("cdist_soft", lambda x, y, be=None, **k: M.cdist_soft_dtw([x, y], gamma=.7, be=be, **k).sum(), True),
            ("cdist_soft_norm", lambda x, y, be=None, **k: M.cdist_soft_dtw_normalized([x, y], [y], gamma=.7, be=be, **k).sum(), True),
            ("cdist_gak", lambda x, y, be=None: M.cdist_gak([x, y], sigma=1.5, be=be)[1, 0], False),
            ("cdist_gak2", lambda x, y, be=None: M.cdist_gak([x], [y], sigma=1.5, be=be)[0, 0], False),
            ("cdist_frechet", lambda x, y, be=None, **k: M.cdist_frechet([x], [y], be=be, **k)[0, 0], True)]
    cons = [{}] + [c for c in CONSTRAINTS if c][:8]
    for (name, f, constrained), (n1, n2, d) in itertools.product(funs, ctx.pick(((3, 3, 1), (4, 5, 2), (5, 3, 1), (1, 3, 1)), list(itertools.product((1, 2, 3, 4, 5, 6), (1, 3, 5, 6), (1, 2))))):
        if not ctx.mine():
            continue
        a, b = series(n1 * 31 + d, n1, d), series(n2 * 17 + 5, n2, d)
        for c in cons if constrained else [{}]:
            with ctx.case("gradient", fun=name, sizes=(n1, n2, d), kw=c):
                num = lambda u, v: float(f(u, v, be="numpy", **c))
                try:
                    num(a, b)
                except RuntimeWarning:
                    continue
                x, y = torch.tensor(a, requires_grad=True), torch.tensor(b, requires_grad=True)
                v = f(x, y, **c)
                require(torch.is_tensor(v) and v.requires_grad, "the value lost its gradient")
                v.backward()
                for t, which in ((x, 0), (y, 1)):
                    h, fd = 1e-6, np.zeros_like((a, b)[which])
                    for idx in np.ndindex(fd.shape):
                        w = [a.copy(), b.copy()]
                        w[which][idx] += h
                        up = num(*w)
                        w[which][idx] -= 2 * h
                        fd[idx] = (up - num(*w)) / (2 * h)
                    require(t.grad is not None, "no gradient reached the input")
                    close(t.grad, fd, f"gradient by series {which + 1}", rtol=1e-4, atol=1e-6)
                ctx.outcome(fd)
            ctx.traces += 1
