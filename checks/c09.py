"""C09: the global alignment kernel sums over all alignments and is a normalised kernel."""
import itertools

import numpy as np

from mc import paths as P
from mc.core import close, require, raises, equal
from mc.elastic import series

LEVEL = "model_checking"
RULE = ("every pair of series over the alphabet x bandwidths: the sum over all enumerated warping paths of the product of "
        "local kernels; matrices over every dataset of up to 3 series of the pool and over larger generic datasets")
ASSUMPTIONS = ["alphabet values 0, 1, 2.5, lengths 1..4; generic series up to length 60 by reference dynamic program; "
               "series of several hundred samples overflow double precision in the library and are outside the bound"]


def local_kernel(a, b, sigma):
    k = np.exp(-P.sq_local(a, b) / (2 * sigma * sigma))
    return k / (2 - k)


def ref(a, b, sigma):
    k = local_kernel(a, b, sigma)
    if k.size <= 30:
        inc = P.incidence(*k.shape)
        with np.errstate(divide="ignore"):
            return float(np.prod(np.where(inc > 0, k.ravel()[None], 1.), axis=1).sum())
    acc = np.zeros((len(a) + 1, len(b) + 1))
    acc[0, 0] = 1
    for i in range(len(a)):
        for j in range(len(b)):
            acc[i + 1, j + 1] = k[i, j] * (acc[i, j] + acc[i, j + 1] + acc[i + 1, j])
    return acc[-1, -1]


def nref(a, b, sigma):
    return ref(a, b, sigma) / np.sqrt(ref(a, a, sigma) * ref(b, b, sigma))


def run(ctx):
    import torch
    from tslearn import metrics as M
    ctx.states += P.self_check()
    sigmas = (.3, 1., 4.)

    def pair(a, b, s, tag, be=None, conv=lambda x: x, pad=0, **info):
        with ctx.case(tag, a=a, b=b, sigma=s, be=be, pad=pad, **info):
            z = np.full((pad, a.shape[1]), np.nan)
            x, y = conv(np.vstack([a, z])), conv(np.vstack([b, z, z]))
            u = ref(a, b, s)
            close(float(M.unnormalized_gak(x, y, sigma=s, be=be)), u, "unnormalised kernel", atol=0, rtol=1e-7)
            v = u / np.sqrt(ref(a, a, s) * ref(b, b, s))
            close(float(M.gak(x, y, sigma=s, be=be)), v, "kernel", atol=1e-12)
            require(-1e-12 <= v <= 1 + 1e-9, "kernel outside [0, 1]")
            ctx.outcome(np.array([u, v]))
        ctx.states += len(a) * len(b)
        ctx.transitions += P.n_steps(min(len(a), 6), min(len(b), 6))
        ctx.traces += 1

    pool = list(P.series_over((0., 1., 2.5), (1, 2, 3)))
    for k, (a, b) in enumerate(itertools.product(pool, repeat=2)):
        for s in (sigmas if ctx.thorough else sigmas[k % 3:k % 3 + 1]):
            pair(a, b, s, "pair-1d")
    for k, (a, b) in enumerate(itertools.product(P.series_over((0., 2.), (4,)), repeat=2)):
        pair(a, b, sigmas[k % 3], "pair-1d")
    for a, b in itertools.product(P.series_over((0., 1.), (1, 2), d=2), repeat=2):
        pair(a, b, 1., "pair-2d")
    for l1, l2, d in itertools.product(range(1, 6), range(1, 6), (1, 3)):
        a, b = series(l1 * 3 + d, l1, d), series(l2 * 5 + d + 1, l2, d)
        for s in sigmas:
            pair(a, b, s, "shape", d=d)
        if l1 < 4 and l2 < 4:
            pair(a, b, 1.5, "torch", be="pytorch", d=d)
            pair(a, b, 1.5, "tensor", conv=torch.tensor, d=d)
            pair(a, b, 1.5, "padded", pad=2, d=d)
            pair(a, b, 1.5, "padded-torch", pad=1, be="pytorch", d=d)
    for l1, l2 in [(12, 12), (9, 17), (17, 9), (40, 60)]:
        for s in (1., 4.):
            pair(series(l1, l1), series(l2 + 1, l2), s, "long")
    with ctx.case("default-bandwidth"):
        a, b = series(1, 3), series(2, 4)
        close(M.gak(a, b), nref(a, b, 1.), "sigma defaults to 1")
        close(M.cdist_gak(P.pad([a, b]))[0, 1], nref(a, b, 1.), "sigma defaults to 1")
        for f in (lambda: M.gak(a, b, sigma=0.), lambda: M.unnormalized_gak(a, b, sigma=0.), lambda: M.cdist_gak(P.pad([a, b]), sigma=0.)):
            raises(ZeroDivisionError, f, "zero bandwidth")

    def matrix(data, s, tag, be=None, cross=None, psd=True, jobs=(None, 2, -1), conv=lambda x: x, **info):
        X = P.pad(data)
        K = P.matrix(lambda a, b: nref(a, b, s), data, data)
        with ctx.case(tag, data=[t for t in data], sigma=s, be=be, **info):
            first = None
            for nj in jobs:
                G = np.asarray(M.cdist_gak(conv(X.copy()), sigma=s, n_jobs=nj, be=be))
                close(G, K, f"self matrix (n_jobs={nj})", atol=1e-9)
                first = G if first is None else first
                equal(G, first, "same bits for every number of jobs")
                close(G, G.T, "symmetric", rtol=1e-12, atol=1e-14)
                close(np.diag(G), np.ones(len(G)), "unit diagonal")
                require(G.min() >= 0 and G.max() <= 1 + 1e-9, "entries in [0, 1]")
                require(np.linalg.eigvalsh(G).min() > -1e-8, f"not positive semi-definite: {np.linalg.eigvalsh(G).min()}")
            if cross is not None:
                C = P.matrix(lambda a, b: nref(a, b, s), data, cross)
                first = None
                for nj in jobs:
                    G = np.asarray(M.cdist_gak(conv(X.copy()), conv(P.pad(cross, extra=2)), sigma=s, n_jobs=nj, be=be))
                    close(G, C, f"cross matrix (n_jobs={nj})", atol=1e-9)
                    first = G if first is None else first
                    equal(G, first, "same bits for every number of jobs")
                close(M.cdist_gak(conv(X.copy()), conv(X.copy()), sigma=s, be=be), K, "cross matrix with itself", atol=1e-9)
            ctx.outcome(K)
        ctx.states += K.size
        ctx.traces += 1

    small = list(P.series_over((0., 2.), (1, 2))) + list(P.series_over((0., 1.), (3,)))[1:4]
    for k, data in enumerate(itertools.combinations_with_replacement(small, 3)):
        if ctx.quick and k % 3:
            continue
        matrix(list(data), sigmas[k % 3], "matrix-3", cross=small[:2] if k % 2 else None, jobs=(None, 2) if k % 6 == 0 else (None,))
    for k, (n, d) in enumerate(itertools.product((1, 2, 5, 8), (1, 2))):
        data = [series(k * 50 + i, 2 + (i * 3) % 5, d) for i in range(n)]
        for s in sigmas:
            matrix(data, s, "matrix", cross=[series(900 + i, 3 + i, d) for i in range(3)], d=d)
        matrix(data[:3], 1., "matrix-torch", be="pytorch", cross=data[:2], jobs=(None, 2), d=d)
        matrix(data[:3], 1., "matrix-tensor", conv=torch.tensor, cross=data[:2], jobs=(None,), d=d)
    # bandwidth estimate: the median pairwise distance of sampled points times sqrt(length)
    for n, l, d in [(3, 4, 1), (4, 3, 2), (10, 15, 1)]:
        X = P.pad([series(70 + i, l, d) for i in range(n)])
        with ctx.case("sigma_gak", n=n, l=l, d=d):
            for sd in (0, 1):
                v = float(M.sigma_gak(X, n_samples=50, random_state=sd))
                close(v, float(M.sigma_gak(X, n_samples=50, random_state=sd)), "same seed, same estimate")
                pts = X.reshape(-1, d)
                D = np.sqrt(P.sq_local(pts, pts))
                require(D.min() * np.sqrt(l) <= v <= D.max() * np.sqrt(l) + 1e-9, "estimate outside the range of distances")
                close(M.gamma_soft_dtw(X, n_samples=50, random_state=sd), 2 * v * v, "gamma_soft_dtw")
            c = np.full((3, 5, 1), 2.)
            c[:, ::2] = 5.
