"""C04: soft-DTW is the soft minimum over all admissible paths, with its gradient."""
import itertools

import numpy as np

from mc import paths as P
from mc.core import close, require, raises, equal
from mc.elastic import CONSTRAINTS, series

LEVEL = "model_checking"
RULE = ("every pair of series over the alphabet and lengths x gammas; for each pair and constraint all runs of the "
        "warping-path transition system are enumerated, their Gibbs weights give the reference value, expected "
        "path and gradient; distinct_nontrivial counts distinct expected-path matrices")
ASSUMPTIONS = ["alphabet-bounded enumeration: values 0, 1, 2.5, lengths <= 4; larger sizes use a reference dynamic "
               "program compared with the enumeration of all runs at start-up",
               "agreement up to 1e-6 relative (1e-5 for gradients)"]


def gibbs(local, gamma, mask):
    """Soft minimum and expected path by explicit enumeration of all runs."""
    idx = P.admissible(mask)
    if not len(idx):
        return None, None, 0
    inc = P.incidence(*local.shape)[idx]
    c = inc @ local.ravel()
    v = P.softmin(c, gamma)
    w = np.exp(-(c - v) / gamma)
    return v, (w @ inc).reshape(local.shape), len(idx)


def big(local, gamma, mask):
    """The same by dynamic programming forward and backward."""
    v = P.dp_softmin(local, gamma, mask)
    l1, l2 = local.shape
    f = np.full((l1, l2), np.inf)
    b = np.full((l1, l2), np.inf)
    for d, t in ((f, 1), (b, -1)):
        L = local[::t, ::t]
        Mk = mask[::t, ::t]
        a = np.full((l1 + 1, l2 + 1), np.inf)
        a[0, 0] = 0
        for i in range(l1):
            for j in range(l2):
                if Mk[i, j]:
                    p = np.array([a[i, j], a[i, j + 1], a[i + 1, j]])
                    p = p[np.isfinite(p)]
                    if len(p):
                        a[i + 1, j + 1] = L[i, j] + P.softmin(p, gamma)
        d[:] = a[1:, 1:][::t, ::t]
    with np.errstate(all="ignore"):
        E = np.exp(-(f + b - local - v) / gamma)
    E[~np.isfinite(f + b)] = 0
    return v, E


def run(ctx):
    from tslearn import metrics as M
    ctx.states += P.self_check()
    gammas = (.01, .1, 1., 10.)

    def one(s1, s2, kw, gamma, tag, be=None, **info):
        l1, l2 = len(s1), len(s2)
        loc, mask = P.sq_local(s1, s2), P.constraint_mask(l1, l2, kw)
        small = l1 * l2 <= 30
        v, E, n = gibbs(loc, gamma, mask) if small else big(loc, gamma, mask) + (1,)
        with ctx.case(tag, s1=s1, s2=s2, kw=kw, gamma=gamma, be=be, **info):
            k = dict(kw, gamma=gamma, be=be)
            if v is None or not np.isfinite(v):
                raises((RuntimeWarning, ValueError), lambda: M.soft_dtw(s1, s2, **k), "infeasible")
                raises((RuntimeWarning, ValueError), lambda: M.soft_dtw_alignment(s1, s2, **k), "infeasible")
                return
            close(M.soft_dtw(s1, s2, **k), v, "soft_dtw", atol=1e-7)
            a, w = M.soft_dtw_alignment(s1, s2, **k)
            close(w, v, "value of soft_dtw_alignment", atol=1e-7)
            close(a, E, "alignment matrix", rtol=1e-5, atol=1e-6)
            if P.has_path(P.constraint_mask(l1, l1, kw)) and P.has_path(P.constraint_mask(l2, l2, kw)):
                sf = [softval(s, gamma, kw) for s in (s1, s2)]
                close(M.soft_dtw_normalized(s1, s2, **k), v - .5 * sum(sf), "soft_dtw_normalized", atol=1e-6)
            ctx.outcome(E)
        ctx.states += l1 * l2
        ctx.transitions += n
        ctx.traces += 1

    pool = list(P.series_over((0., 1., 2.5), (1, 2, 3)))
    for a, b in itertools.product(range(len(pool)), repeat=2):
        kws = [({}, gammas[(a + b) % 4])] if ctx.quick else [({}, g) for g in gammas]
        kws.append((CONSTRAINTS[1 + (a * 7 + b) % (len(CONSTRAINTS) - 1)], gammas[(a + 3 * b) % 4]))
        for kw, g in kws:
            one(pool[a], pool[b], kw, g, "pair-1d")
    top = ctx.pick(6, 8)
    for (l1, l2), kw in itertools.product(itertools.product(range(1, top), repeat=2), CONSTRAINTS):
        for d in (1, 2):
            one(series(l1 * 31 + 1, l1, d), series(l2 * 17 + 2, l2, d), kw, gammas[(l1 + l2) % 4], "shape", d=d)
    for (l1, l2), kw in itertools.product([(1, 3), (3, 1), (2, 4), (4, 2), (3, 3), (4, 4)], CONSTRAINTS):
        one(series(l1 + 5, l1, 2), series(l2 + 6, l2, 2), kw, gammas[(l1 + l2) % 4], "torch", be="pytorch")
    for l1, l2 in [(12, 12), (17, 9), (9, 17), (30, 41)]:
        for kw in CONSTRAINTS[:7]:
            one(series(l1, l1), series(l2 + 100, l2), kw, .5, "long")
    pool2 = list(P.series_over((0., 1.), (1, 2), d=2))
    for s1, s2 in itertools.product(pool2, repeat=2):
        one(s1, s2, {}, 1., "pair-2d")
    # magnitudes: the soft minimum must not overflow or lose the small terms
    for scale, g in itertools.product((1e-3, 1., 1e2, 1e4), (1e-3, 1., 1e3)):
        s1, s2 = series(5, 4) * scale, series(6, 3) * scale
        v, E, _ = gibbs(P.sq_local(s1, s2), g, np.ones((4, 3), bool))
        with ctx.case("scale", scale=scale, gamma=g):
            close(M.soft_dtw(s1, s2, gamma=g), v, "soft_dtw")
            a, w = M.soft_dtw_alignment(s1, s2, gamma=g)
            close(w, v, "alignment value")
            close(a, E, "alignment", atol=1e-5)
    # gamma = 0
    for a, b in itertools.product(range(0, len(pool), 2), range(1, len(pool), 3)):
        s1, s2 = pool[a], pool[b]
        kw = CONSTRAINTS[(a + b) % 5]
        want = P.ref_dtw(s1, s2, kw) ** 2
        for be in (None, "pytorch"):
            with ctx.case("gamma0", s1=s1, s2=s2, kw=kw, be=be):
                close(M.soft_dtw(s1, s2, gamma=0., be=be, **kw), want, "soft_dtw")
                close(M.soft_dtw_normalized(s1, s2, gamma=0., be=be, **kw), want, "soft_dtw_normalized")
    for be in (None, "pytorch"):
        for kw in ({}, {"sakoe_chiba_radius": 1}):
            with ctx.case("gamma0-alignment", be=be, kw=kw):
                a, v = M.soft_dtw_alignment(series(1, 4), series(2, 5), gamma=0., be=be, **kw)
                pth, c = P.dp_path(P.sq_local(series(1, 4), series(2, 5)), P.constraint_mask(4, 5, kw))
                E = np.zeros((4, 5))
                for i, j in pth:
                    E[i, j] = 1
                close(a, E, "alignment")
                close(v, c, "value")
            data = [series(k, 3 + k % 2) for k in range(4)]
            ref = P.matrix(lambda x, y: P.ref_dtw(x, y, kw) ** 2, data, data)
            sym = np.triu(ref) + np.triu(ref, 1).T
            for f in (M.cdist_soft_dtw, M.cdist_soft_dtw_normalized):
                got = []
                with ctx.case("gamma0-matrix-up-to-root", fun=f.__name__, be=be, kw=kw):
                    got = [f(P.pad(data), gamma=0., be=be, **kw), f(P.pad(data[:2]), P.pad(data), gamma=0., be=be, **kw)]
                    got = [np.asarray(x) for x in got]
                    for x, w in zip(got, (sym, ref[:2])):
                        if np.allclose(x, np.sqrt(w)):
                            x = x ** 2
                        close(x, w, "DTW or squared DTW")
                with ctx.case("gamma0-matrix-squared", fun=f.__name__, be=be, kw=kw):
                    for x, w in zip(got, (sym, ref[:2])):
                        close(x, w, "squared DTW")
    for be in (None, "pytorch"):
        with ctx.case("rejects", be=be):
            for f in (M.soft_dtw, M.soft_dtw_alignment, M.soft_dtw_normalized):
                raises(ValueError, lambda: f(np.zeros((3, 1)), np.zeros((3, 2)), be=be), "feature sizes differ")
                raises(ValueError, lambda: f(np.full((3, 1), np.nan), np.zeros((3, 1)), be=be), "empty series")
    matrices(ctx, M)
    low_level(ctx, M)
    autodiff(ctx, M)


def softval(s, gamma, kw={}, t=None):
    t = s if t is None else t
    return P.dp_softmin(P.sq_local(s, t), gamma, P.constraint_mask(len(s), len(t), kw))


def matrices(ctx, M):
    for lens1, lens2, d in [((3, 3, 3), (4, 4), 1), ((2, 4, 3), (5, 1), 1), ((1, 2, 4), (3,), 2), ((4,), (2, 6, 3), 1)]:
        D1 = [series(20 + k, l, d) for k, l in enumerate(lens1)]
        D2 = [series(40 + k, l, d) for k, l in enumerate(lens2)]
        X1, X2 = P.pad(D1), P.pad(D2)
        for g, kw in itertools.product((.1, 1., 5.), ({}, {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 1})):
            f = lambda a, b: softval(a, g, kw, b)
            c, s1, s2 = P.matrix(f, D1, D2), P.matrix(f, D1, D1), P.matrix(f, D2, D2)
            s1 = np.triu(s1) + np.triu(s1, 1).T
            n12 = c - .5 * (np.diag(s1)[:, None] + np.diag(s2)[None, :])
            n11 = s1 - .5 * (np.diag(s1)[:, None] + np.diag(s1)[None, :])
            for nj, be in ((None, None), (2, None), (-1, None), (None, "pytorch"), (2, "pytorch")):
                if be and (g != 1. or ctx.quick and len(D1) == 1):
                    continue
                with ctx.case("matrix", lens=(lens1, lens2), d=d, gamma=g, kw=kw, n_jobs=nj, be=be):
                    k = dict(kw, gamma=g, n_jobs=nj, be=be)
                    close(M.cdist_soft_dtw(X1, **k), s1, "self", atol=1e-7)
                    close(M.cdist_soft_dtw(X1, X2, **k), c, "cross", atol=1e-7)
                    close(M.cdist_soft_dtw_normalized(X1, **k), n11, "normalised self", atol=1e-6)
                    close(M.cdist_soft_dtw_normalized(X1, X2, **k), n12, "normalised cross", atol=1e-6)
                    r = np.asarray(M.cdist_soft_dtw_normalized(X1, X1, **k))
                    require(np.abs(np.diag(r)).max() < 1e-6, "normalised self distance is zero")
                ctx.traces += 1
                ctx.states += c.size


def low_level(ctx, M):
    import torch
    for (l1, l2), d, g in itertools.product([(1, 1), (1, 3), (3, 1), (3, 3), (4, 3), (3, 5)], (1, 2), (.1, 1.)):
        a, b = series(l1 + 60, l1, d), series(l2 + 70, l2, d)
        loc = P.sq_local(a, b)
        v, E, n = gibbs(loc, g, np.ones((l1, l2), bool))
        G = (2 * E[:, :, None] * (a[:, None, :] - b[None, :, :])).sum(1)
        for be, cwb in ((None, False), ("pytorch", False), ("pytorch", True)):
            with ctx.case("low-level", l1=l1, l2=l2, d=d, gamma=g, be=be, compute_with_backend=cwb):
                x, y = (a, b) if be is None else (torch.tensor(a), torch.tensor(b))
                D = M.SquaredEuclidean(x, y, be=be, compute_with_backend=cwb)
                close(D.compute(), loc, "SquaredEuclidean.compute")
                for src in (D, D.compute()):
                    s = M.SoftDTW(src, gamma=g, be=be, compute_with_backend=cwb)
                    raises(ValueError, s.grad, "gradient before compute")
                    close(s.compute(), v, "SoftDTW.compute")
                    close(s.grad(), E, "SoftDTW.grad", rtol=1e-5, atol=1e-7)
                    close(s.compute(), v, "SoftDTW.compute again")
                    e = s.grad()
                    close(e, E, "SoftDTW.grad again", rtol=1e-5, atol=1e-7)
                close(D.jacobian_product(e), G, "jacobian_product", rtol=1e-5, atol=1e-7)
            ctx.traces += 1
            ctx.states += l1 * l2
            ctx.transitions += n


def autodiff(ctx, M):
    import torch
    sizes = [(1, 1), (1, 4), (4, 1), (3, 3), (4, 3), (3, 5), (5, 5)]
    for (l1, l2), d, g, scale in itertools.product(sizes, (1, 2), (.1, 1.), (1., 30.)):
        for kw in ({}, {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 1}, {"global_constraint": "itakura"},
                   {"sakoe_chiba_radius": 0}):
            if scale > 1 and kw:
                continue
            mask = P.constraint_mask(l1, l2, kw)
            if not (P.has_path(mask) and P.has_path(P.constraint_mask(l1, l1, kw)) and P.has_path(P.constraint_mask(l2, l2, kw))):
                continue
            A = np.stack([series(90 + k, l1, d) for k in range(3)]) * scale
            B = np.stack([series(95 + k, l2, d) for k in range(3)]) * scale
            cot = np.array([1., -.5, 2.])

            def ref(A, B):
                return [gibbs(P.sq_local(a, b), g, P.constraint_mask(len(a), len(b), kw))[:2] for a, b in zip(A, B)]
            r = ref(A, B)
            v = np.array([x[0] for x in r])
            gA = np.stack([c * (2 * E[:, :, None] * (a[:, None] - b[None])).sum(1) for c, (_, E), a, b in zip(cot, r, A, B)])
            gB = np.stack([c * (2 * E[:, :, None] * (b[None] - a[:, None])).sum(0) for c, (_, E), a, b in zip(cot, r, A, B)])
            tol = dict(rtol=1e-5, atol=1e-5 * scale)
            with ctx.case("loss", l1=l1, l2=l2, d=d, gamma=g, kw=kw, scale=scale):
                x, y = torch.tensor(A, requires_grad=True), torch.tensor(B, requires_grad=True)
                L = M.SoftDTWLossPyTorch(gamma=g, **kw)(x, y)
                close(L, v, "loss", **tol)
                (L * torch.tensor(cot)).sum().backward()
                close(x.grad, gA, "gradient in x", **tol)
                close(y.grad, gB, "gradient in y", **tol)
                L = M.SoftDTWLossPyTorch(gamma=g, **kw)(x.detach().float(), y.detach().float())
                require(L.dtype == torch.float32, "dtype kept")
                close(L, v, "float32 loss", rtol=1e-3, atol=1e-3 * scale)
                # a user-supplied ground distance
                fun = lambda p, q: (p[:, :, None] - q[:, None]).abs().sum(-1)
                L = M.SoftDTWLossPyTorch(gamma=g, dist_func=fun, **kw)(x.detach(), y.detach())
                close(L, [gibbs(np.abs(a[:, None] - b[None]).sum(-1), g, mask)[0] for a, b in zip(A, B)],
                      "loss with dist_func", **tol)
            with ctx.case("loss-normalized", l1=l1, l2=l2, d=d, gamma=g, kw=kw, scale=scale):
                x, y = torch.tensor(A, requires_grad=True), torch.tensor(B, requires_grad=True)
                L = M.SoftDTWLossPyTorch(gamma=g, normalize=True, **kw)(x, y)
                xx, yy = ref(A, A), ref(B, B)
                close(L, v - .5 * np.array([p[0] + q[0] for p, q in zip(xx, yy)]), "normalised loss", **tol)
                (L * torch.tensor(cot)).sum().backward()
                sA = np.stack([c * .5 * (2 * (E[:, :, None] + E.T[:, :, None]) * (a[:, None] - a[None])).sum(1)
                               for c, (_, E), a in zip(cot, xx, A)])
                close(x.grad, gA - sA, "gradient of the normalised loss", **tol)
            ctx.traces += 2
            ctx.states += 3 * l1 * l2
            if scale > 1:
                continue
            with ctx.case("autograd", l1=l1, l2=l2, d=d, gamma=g, kw=kw):
                for k in range(2):
                    x, y = torch.tensor(A[k], requires_grad=True), torch.tensor(B[k], requires_grad=True)
                    s = M.soft_dtw(x, y, gamma=g, **kw)
                    close(s, v[k], "value")
                    s.backward()
                    close(x.grad, gA[k] / cot[k], "gradient in x", **tol)
                    close(y.grad, gB[k] / cot[k], "gradient in y", **tol)
