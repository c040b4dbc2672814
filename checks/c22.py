"""C22: PAA, SAX and 1d-SAX represent, reconstruct and measure as defined."""
import itertools

import numpy as np
from scipy.stats import norm

from mc.core import close, equal, require
from mc.elastic import series

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of every series over a small alphabet, every segmentation, alphabet size and option, and of every pair of symbol words, "
             "against element-wise reference definitions; the lower bounds checked on every pair of enumerated series")
SHARDS = 4
RULE = ("every series of length 1..5 (6) over 4 values and bivariate ones of length 1..2 (3), padded and not, x every number of segments up to the length x alphabet sizes 2..7 x scaling; "
        "distances over every pair of symbol words of 1..3 segments; lower bounds over every pair of series")
ASSUMPTIONS = ["at least one sample per segment (n_segments <= length); 1d-SAX on equal-sized series without gaps (documented restriction)",
               "lower bounds and PAA/SAX distances only bound when the number of segments divides the length (otherwise the last samples are not represented)",
               "a mean within 1e-9 of a breakpoint may fall on either side"]
AL = (-1.3, 0., .6, 2.)


def words(alphabet, l, d=1):
    return np.array(list(itertools.product(alphabet, repeat=l * d)), float).reshape(-1, l, d)


def ref_paa(x, n):
    """x without padding"""
    s = len(x) // n
    return np.array([[sum(x[k * s + i, f] for i in range(s)) / s for f in range(x.shape[1])] for k in range(n)])


def ref_slope(x, n):
    s = len(x) // n
    out = np.zeros((n, x.shape[1]))
    t = np.arange(s) - (s - 1) / 2
    if s > 1:
        for k in range(n):
            for f in range(x.shape[1]):
                out[k, f] = (t * x[k * s:(k + 1) * s, f]).sum() / (t * t).sum()
    return out


def breaks(a, scale=1.):
    return np.array([norm.ppf(k / a) * scale for k in range(1, a)])


def medians(a, scale=1.):
    return np.array([norm.ppf((2 * k + 1) / (2 * a)) * scale for k in range(a)])


def check_symbols(got, values, bps, what):
    got = np.asarray(got)
    require(got.dtype.kind == "i", what + ": not integers")
    low = (values[..., None] >= bps + 1e-9).sum(-1)
    high = (values[..., None] >= bps - 1e-9).sum(-1)
    exact = (values[..., None] >= bps).sum(-1)
    bad = (got < low) | (got > high) | ((values == np.round(values, 2)) & (got != exact) & (low == high))
    require(not bad.any(), f"{what}: symbols {got.tolist()!r:.200} of {values.tolist()!r:.200}")


def pad(data, extra=0):
    d = data[0].shape[1]
    out = np.full((len(data), max(len(x) for x in data) + extra, d), np.nan)
    for k, x in enumerate(data):
        out[k, :len(x)] = x
    return out


def spread(seg, size, n, d):
    """Segment values (n, s, d) placed over a series of the given size, zero elsewhere."""
    out = np.zeros((size, d))
    s = size // n
    out[:n * s] = seg.reshape(n * s, d)
    return out


def batches(ctx):
    """Datasets that together hold every enumerated word."""
    for l in range(1, ctx.pick(6, 7)):
        w = words(AL, l)
        for k in range(0, len(w), 256):
            yield list(w[k:k + 256])
    for l in range(1, ctx.pick(3, 4)):
        w = words(AL if l < 3 else (-1.3, .7, 2.), l, 2)
        for k in range(0, len(w), 256):
            yield list(w[k:k + 256])
    yield [series(5, 9)]
    yield [series(6 + k, 7, 3) for k in range(3)]
    yield [series(9 + k, 12, 1) for k in range(2)]


def run(ctx):
    for part in (represent, variable, constants, one_d, measure, bounds):
        part(ctx)


def moments(X):
    v = [X[..., f][~np.isnan(X[..., f])] for f in range(X.shape[2])]
    mu = np.array([c.mean() for c in v])
    sd = np.array([np.sqrt(((c - c.mean()) ** 2).mean()) if c.min() != c.max() else 1. for c in v])
    return mu, sd


def represent(ctx):
    from tslearn.piecewise import PiecewiseAggregateApproximation as PAA, SymbolicAggregateApproximation as SAX
    for data in batches(ctx):
        if not ctx.mine():
            continue
        X = np.array(data)
        size, d = X.shape[1:]
        other = np.array([series(70 + k, size + k * 0, d) for k in range(3)])
        for n in range(1, size + 1):
            with ctx.case("paa", first=data[0], count=len(data), n_segments=n):
                Z = X.copy()
                est = PAA(n_segments=n)
                got = est.fit_transform(Z)
                equal(Z, X, "input modified")
                want = np.array([ref_paa(x, n) for x in data])
                close(got, want, "segment means", atol=1e-12)
                close(est.transform(other), np.array([ref_paa(x, n) for x in other]), "other series", atol=1e-12)
                close(PAA(n_segments=n).fit(other).transform(X.tolist()), got, "transform", atol=1e-12)
                back = est.inverse_transform(got)
                s = size // n
                close(back, np.array([spread(np.repeat(w, s, 0), size, n, d) for w in want]), "reconstruction", atol=1e-12)
                ctx.outcome(got)
            ctx.traces += 1
            ctx.states += len(data)
            for a, scale in itertools.product(range(2, 8), (False, True)):
                if ctx.quick and len(data) > 64 and (a + n) % 3:
                    continue
                with ctx.case("sax", first=data[0], count=len(data), n_segments=n, alphabet=a, scale=scale):
                    est = SAX(n_segments=n, alphabet_size_avg=a, scale=scale)
                    Z = X.copy()
                    got = est.fit_transform(Z)
                    equal(Z, X, "input modified")
                    mu, sd = moments(X) if scale else (np.zeros(d), np.ones(d))
                    close(est.breakpoints_avg_, breaks(a), "breakpoints", atol=1e-12)
                    check_symbols(got, (want - mu) / sd, breaks(a), "own series")
                    check_symbols(est.transform(other), (np.array([ref_paa(x, n) for x in other]) - mu) / sd, breaks(a), "other series")
                    equal(est.transform(X[::-1])[::-1], got, "order of the batch")
                    equal(est.transform(X[-1:])[0], got[-1], "alone")
                    back = est.inverse_transform(got)
                    close(back, np.array([spread(np.repeat(medians(a)[g], s, 0), size, n, d) for g in got]) * sd + mu, "reconstruction", atol=1e-9)
                    ctx.outcome(got)
                ctx.traces += 1
                ctx.transitions += len(data)


def variable(ctx):
    """PAA and SAX of series of unequal lengths use each series' own length."""
    from tslearn.piecewise import PiecewiseAggregateApproximation as PAA, SymbolicAggregateApproximation as SAX
    for lens in itertools.product(range(1, 6), repeat=2) if ctx.quick else itertools.product(range(1, 6), repeat=3):
        if not ctx.mine():
            continue
        for d, extra in itertools.product((1, 2), (0, 1, 3)):
            data = [series(40 + 3 * k + l, l, d) for k, l in enumerate(lens)]
            X = pad(data, extra)
            for n in range(1, min(lens) + 1):
                want = np.array([ref_paa(x, n) for x in data])
                with ctx.case("variable-length", lengths=lens, d=d, padding=extra, n_segments=n):
                    close(PAA(n_segments=n).fit_transform(X), want, "segment means", atol=1e-12)
                    for a, scale in ((2, False), (3, True), (4, False), (6, True)):
                        est = SAX(n_segments=n, alphabet_size_avg=a, scale=scale)
                        mu, sd = moments(X) if scale else (np.zeros(d), np.ones(d))
                        got = est.fit_transform(X)
                        check_symbols(got, (want - mu) / sd, breaks(a), "symbols")
                        for k, x in enumerate(data):
                            equal(est.transform(x[None])[0], got[k], "alone")
                    ctx.outcome(got)
                ctx.traces += 1
                ctx.states += len(data)


def constants(ctx):
    """Scaled constant series are zero, whatever the rounding of their mean."""
    from tslearn.piecewise import OneD_SymbolicAggregateApproximation as ODS, SymbolicAggregateApproximation as SAX
    for v, l, a in itertools.product((0., .1, .3, -.7, 1 / 3, 1e6 + .1), (1, 3, 6, 7, 9), (3, 5)):
        if not ctx.mine():
            continue
        with ctx.case("constant", value=v, length=l, alphabet=a):
            X = np.full((1, l, 1), v)
            for n in (1, l):
                est = SAX(n_segments=n, alphabet_size_avg=a, scale=True)
                equal(est.fit_transform(X), np.full((1, n, 1), a // 2), "symbols")
                close(est.inverse_transform(np.full((1, n, 1), a // 2)), X, "reconstruction")
                equal(ODS(n_segments=n, alphabet_size_avg=a, alphabet_size_slope=a, scale=True).fit_transform(X), np.full((1, n, 2), a // 2), "1d-SAX symbols")
        ctx.traces += 1


def one_d(ctx):
    from tslearn.piecewise import OneD_SymbolicAggregateApproximation as ODS
    pools = [list(words((-1., .5, 2.), l)) for l in (1, 2, 3, 4)] + [list(words((-1., 1.5), l)) for l in ((5,) if ctx.quick else (5, 6, 7))]
    pools += [list(words((-1., 1.5), 2, 2)), list(words((-1., 1.5), 3, 2)), [series(80 + k, 9, 2) for k in range(3)], [series(85 + k, 8, 1) for k in range(3)]]
    cells = []
    for p in pools:
        size = p[0].shape[0]
        for n in range(1, size + 1):
            # the library fits one regression per segment and series: keep the number of series moderate
            step = max(1, len(p) // 27) if ctx.quick else 1
            for off in range(step):
                cells.append((p[off::step], n) if not off or ctx.thorough else None)
    for c in cells:
        if c is None or not ctx.mine():
            continue
        data, n = c
        X = np.array(data)
        size, d = X.shape[1:]
        s = size // n
        for (a, b), sl, scale in zip(((2, 2), (5, 3), (3, 6), (4, 5), (6, 2)), (None, 1., .3, None, None), (False, False, True, True, False)):
            with ctx.case("1d-sax", first=data[0], count=len(data), n_segments=n, alphabets=(a, b), sigma_l=sl, scale=scale):
                sigma = np.sqrt(.03 / s) if sl is None else sl
                mu, sd = moments(X) if scale else (np.zeros(d), np.ones(d))
                est = ODS(n_segments=n, alphabet_size_avg=a, alphabet_size_slope=b, sigma_l=sl, scale=scale)
                Z = X.copy()
                got = est.fit_transform(Z)
                equal(Z, X, "input modified")
                equal(got.shape, (len(data), n, 2 * d), "shape")
                S = (X - mu) / sd
                check_symbols(got[..., :d], np.array([ref_paa(x, n) for x in S]), breaks(a), "means")
                check_symbols(got[..., d:], np.array([ref_slope(x, n) for x in S]), breaks(b, sigma), "slopes")
                close(est.breakpoints_avg_, breaks(a), "breakpoints", atol=1e-12)
                close(est.breakpoints_slope_, breaks(b, sigma), "slope breakpoints", atol=1e-12)
                equal(est.transform(X[-1:])[0], got[-1], "alone")
                t = np.arange(s) - (s - 1) / 2
                rec = [spread(np.array([medians(a)[g[k, :d]] + t[:, None] * medians(b, sigma)[g[k, d:]] for k in range(n)]), size, n, d) for g in got]
                close(est.inverse_transform(got), np.array(rec) * sd + mu, "reconstruction", atol=1e-9)
                for i, j in itertools.product(range(min(len(data), 7)), repeat=2):
                    j = (3 * j + i) % len(data)
                    w = np.sqrt(((rec[i] - rec[j]) ** 2).sum())
                    close(est.distance_1d_sax(got[i], got[j]), w, "distance of the symbols", atol=1e-9)
                    if i < 3 and j < 3:
                        close(est.distance(data[i], data[j]), w, "distance of the series", atol=1e-9)
                ctx.outcome(got)
            ctx.traces += 1
            ctx.states += len(data)
            ctx.transitions += min(len(data), 7) ** 2


def ref_mindist(p, q, bps, size):
    gap = 0.
    for u, v in zip(p.ravel(), q.ravel()):
        u, v = min(u, v), max(u, v)
        if v - u > 1:
            gap += (bps[v - 1] - bps[u]) ** 2
    return np.sqrt(gap * size / len(p))


def measure(ctx):
    """Distances over every pair of symbol words, and the matrix variants."""
    from tslearn.metrics import cdist_sax
    from tslearn.piecewise import PiecewiseAggregateApproximation as PAA, SymbolicAggregateApproximation as SAX
    for a, n, d in ((2, 1, 1), (3, 2, 1), (4, 2, 1), (7, 1, 1), (3, 3, 1), (5, 2, 1), (4, 1, 2), (3, 2, 2)) + (() if ctx.quick else ((4, 3, 1), (6, 2, 1), (3, 4, 1))):
        for size in (n, 2 * n, 3 * n + 1):
            if not ctx.mine():
                continue
            W = words(range(a), n, d).astype(int)
            if len(W) > 81:
                W = W[::len(W) // 60]
            with ctx.case("sax-distance", alphabet=a, n_segments=n, d=d, size=size):
                est = SAX(n_segments=n, alphabet_size_avg=a).fit(np.array([series(1, size, d)]))
                want = np.array([[ref_mindist(p, q, breaks(a), size) for q in W] for p in W])
                got = np.array([[est.distance_sax(p, q) for q in W] for p in W])
                close(got, want, "distances", atol=1e-9)
                close(cdist_sax(W, breaks(a), size), want, "matrix", atol=1e-9)
                close(cdist_sax(W, breaks(a), size, W[:2]), want[:, :2], "cross matrix", atol=1e-9)
                close(cdist_sax(W[:3], breaks(a), size, W, n_jobs=2), want[:3], "cross matrix, two jobs", atol=1e-9)
                close(got, got.T, "symmetry", rtol=1e-9, atol=1e-12)
                ctx.outcome(got)
            ctx.traces += 1
            ctx.transitions += len(W) ** 2
            with ctx.case("paa-distance", n_segments=n, d=d, size=size):
                est = PAA(n_segments=n).fit(np.array([series(1, size, d)]))
                V = W[:40] * .7 - 1
                got = np.array([[est.distance_paa(p, q) for q in V] for p in V])
                close(got, [[np.sqrt(((p - q) ** 2).sum() * size / n) for q in V] for p in V], "distances", atol=1e-9)
            ctx.traces += 1


def bounds(ctx):
    """PAA and SAX distances never exceed the Euclidean distance of the series they represent."""
    from tslearn.piecewise import PiecewiseAggregateApproximation as PAA, SymbolicAggregateApproximation as SAX
    pools = [words(AL, 1), words(AL, 2), words(AL[::2] + (3.1,), 3), words((-1.3, 1.2), 4), words((-1., 2.), 6), words((-1., .5, 2.), 1, 2), words((-1., 1.5), 2, 2)]
    for W in pools:
        size, d = W.shape[1:]
        if len(W) > 32:
            W = W[::len(W) // 30]
        E = np.sqrt(((W[:, None] - W[None]) ** 2).sum((2, 3)))
        for n in [k for k in range(1, size + 1) if size % k == 0]:
            if not ctx.mine():
                continue
            with ctx.case("paa-bound", size=size, d=d, n_segments=n):
                est = PAA(n_segments=n).fit(W)
                D = np.array([[est.distance(p, q) for q in W] for p in W])
                P = [ref_paa(x, n) for x in W]
                close(D, [[np.sqrt(((p - q) ** 2).sum() * size / n) for q in P] for p in P], "value", atol=1e-9)
                require((D <= E + 1e-9).all(), f"PAA distance exceeds the Euclidean distance by {(D - E).max()}")
                if n == size:
                    close(D, E, "one segment per sample")
                ctx.outcome(D)
            for a, scale in itertools.product((2, 3, 4, 6), (False, True)):
                with ctx.case("sax-bound", size=size, d=d, n_segments=n, alphabet=a, scale=scale):
                    est = SAX(n_segments=n, alphabet_size_avg=a, scale=scale).fit(W)
                    mu, sd = moments(W) if scale else (np.zeros(d), np.ones(d))
                    S = (W - mu) / sd
                    e = np.sqrt(((S[:, None] - S[None]) ** 2).sum((2, 3)))
                    D = np.array([[est.distance(p, q) for q in W] for p in W])
                    require((D <= e + 1e-9).all(), f"SAX distance exceeds the Euclidean distance by {(D - e).max()}")
                    require(((D == 0) | (D > 0)).all() and np.diag(D).max() == 0, "self-distance")
                    close(D, D.T, "symmetry", rtol=1e-9, atol=1e-12)
                    ctx.outcome(D)
                ctx.traces += 1
                ctx.transitions += len(W) ** 2
