"""C25: the matrix profile holds true nearest-neighbour subsequence distances."""
import itertools

import numpy as np

from mc.core import close, equal, require
from mc.elastic import series

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of every series over a small alphabet and every subsequence length, scaling and implementation, against a brute-force nearest-neighbour search over all pairs of subsequences")
SHARDS = 4
RULE = ("every series of length 1..7 (8) over 2..3 values x every subsequence length x scaling on/off with the numpy implementation, and with stumpy from subsequence length 3 (its minimum); "
        "batches against single series, unequal lengths padded with NaN, longer fixed series")
ASSUMPTIONS = ["the trivial-match zone of subsequence i is |i-j| <= ceil(m/4); with no subsequence outside it the entry is inf",
               "stumpy is compared up to 1e-4 (its own arithmetic cancels near-zero distances); the GPU implementation needs a GPU and is not run",
               "series are finite inside their true length"]


def ref_profile(x, m, scale, size=None):
    """x: 1-d without padding; entries beyond its own subsequences are inf."""
    n = len(x) - m + 1
    out = np.full((size if size is not None else len(x)) - m + 1, np.inf)
    if n < 1:
        return out
    S = np.array([x[i:i + m] for i in range(n)])
    if scale:
        mean = S.mean(1, keepdims=True)
        sd = np.sqrt(((S - mean) ** 2).mean(1, keepdims=True))
        const = (S.min(1) == S.max(1))[:, None]
        S = np.where(const, 0., (S - mean) / np.where(const, 1., sd))
    zone = -(-m // 4)
    for i in range(n):
        for j in range(n):
            if abs(i - j) > zone:
                out[i] = min(out[i], np.sqrt(((S[i] - S[j]) ** 2).sum()))
    return out


def words(alphabet, l):
    return np.array(list(itertools.product(alphabet, repeat=l)), float)[..., None]


def pad(data, extra=0):
    out = np.full((len(data), max(len(x) for x in data) + extra, 1), np.nan)
    for k, x in enumerate(data):
        out[k, :len(x)] = x
    return out


def datasets(ctx):
    al3, al2 = (-1.5, 0., 2.), (0.1, 1.3)
    for l in range(1, 6):
        yield words(al3, l)
    for l in range(6, ctx.pick(8, 10)):
        yield words(al2, l)
    yield np.array([series(k, 9) for k in range(12)])
    yield np.array([series(20 + k, 13) for k in range(6)]) * 100 - 50
    yield np.array([np.cumsum(series(40 + k, 17), 0) for k in range(4)])


def run(ctx):
    from tslearn.matrix_profile import MatrixProfile as MP
    for X in datasets(ctx):
        size = X.shape[1]
        for m, scale in itertools.product(range(1, size + 1), (True, False)):
            if not ctx.mine():
                continue
            want = np.array([ref_profile(x[:, 0], m, scale) for x in X])[..., None]
            for impl in ("numpy", "stump"):
                if impl == "stump" and m < 3:
                    continue
                step = 1 if impl == "numpy" or ctx.thorough else max(1, len(X) // 40)
                with ctx.case("profile", size=size, count=len(X), subsequence_length=m, scale=scale, implementation=impl):
                    Y, w = X[::step], want[::step]
                    Z = Y.copy()
                    got = MP(m, impl, scale).fit_transform(Z)
                    equal(Z, Y, "input modified")
                    agree(got, w, impl, "profile")
                    est = MP(subsequence_length=m, implementation=impl, scale=scale).fit(series(3, size + 2)[None])
                    for k in range(0, len(Y), 1 + len(Y) // 12):
                        agree(est.transform(Y[k:k + 1]), w[k:k + 1], impl, "alone")
                    if impl == "numpy":
                        equal(est.transform(Y[::-1])[::-1], got, "reversed batch")
                        agree(est.transform((3 * Y + 7) if scale else Y - 5), w, impl, "rescaled" if scale else "translated", 1e-7)
                        agree(est.transform(Y[:, ::-1])[:, ::-1], w, impl, "reversed time", 1e-9)
                    ctx.outcome(np.round(got, 5))
                ctx.traces += 1
                ctx.states += len(X[::step])
                ctx.transitions += len(X[::step]) * (size - m + 1) ** 2
    unequal(ctx)
    rejects(ctx)


def agree(got, want, impl, what, atol=1e-9):
    equal(np.isinf(got), np.isinf(want), what + ": positions without neighbour")
    f = np.isfinite(want)
    require(not np.isnan(got).any(), what + ": NaN")
    close(got[f], want[f], what, atol=1e-4 if impl == "stump" else atol, rtol=1e-5)


def unequal(ctx):
    from tslearn.matrix_profile import MatrixProfile as MP
    for lens in list(itertools.product((1, 2, 4, 6, 7), repeat=2)) + [(9, 3, 12), (12, 9, 3)]:
        if not ctx.mine():
            continue
        for extra, scale in itertools.product((0, 2), (True, False)):
            data = [series(50 + 3 * k + l, l) for k, l in enumerate(lens)]
            X = pad(data, extra)
            for m, impl in itertools.product(range(1, max(lens) + 1), ("numpy", "stump")):
                if impl == "stump" and (m < 3 or ctx.quick and (m + extra) % 3):
                    continue
                with ctx.case("unequal-lengths", lengths=lens, padding=extra, subsequence_length=m, scale=scale, implementation=impl):
                    got = MP(m, impl, scale).fit_transform(X)
                    agree(got[..., 0], np.array([ref_profile(x[:, 0], m, scale, X.shape[1]) for x in data]), impl, "profile")
                    ctx.outcome(np.round(got, 5))
                ctx.traces += 1
                ctx.states += len(data)


def rejects(ctx):
    from tslearn.matrix_profile import MatrixProfile as MP
    with ctx.case("unknown-implementation"):
        for fn, exc in ((lambda: MP(2, "nope").fit_transform(np.zeros((1, 5, 1))), ValueError), (lambda: MP(2).fit_transform(np.zeros((1, 5, 2))), NotImplementedError)):
            try:
                fn()
            except exc:
                continue
            require(False, "accepted")
