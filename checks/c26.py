"""C26: learned shapelets are measured and located by true minimal distance."""
import itertools
import warnings

import numpy as np

from mc.core import close, equal, require
from mc.elastic import series

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of every series over a small alphabet for models whose shapelets and classification weights are set to enumerated values, "
             "transform, location, probabilities and labels compared with brute-force search over every window")
SHARDS = 6
RULE = ("models of every combination of shapelet sizes (one or two sizes out of 1..5), 1..3 shapelets per size, 1..3 features, 2..3 classes, scaling and batch sizes, shapelets set to fixed values and to windows of the data; "
        "every series over 2..3 values of every admissible length, alone, in batches of unequal lengths, padded")
ASSUMPTIONS = ["values of size at most 10 (the network computes in single precision and expands the square)",
               "a location may be any window within 1e-4 of the smallest distance"]


def windows(x, s):
    return np.array([x[t:t + s] for t in range(len(x) - s + 1)])


def ref_distances(x, shp):
    return ((windows(x, len(shp)) - shp[None]) ** 2).sum((1, 2)) / len(shp)


def minmax(x):
    lo, hi = x.min(0), x.max(0)
    return (x - lo) / np.where(hi == lo, 1, hi - lo)


def pad(data, extra=0):
    out = np.full((len(data), max(len(x) for x in data) + extra, data[0].shape[1]), np.nan)
    for k, x in enumerate(data):
        out[k, :len(x)] = x
    return out


def draws():
    """The initial shapelets come from 10000 random windows by default; their values do not matter here."""
    from tslearn.shapelets import shapelets
    f = getattr(shapelets, "_kmeans_init_shapelets", None)
    if f is not None and f.__defaults__ == (10000,):
        f.__defaults__ = (60,)


def fit(sizes, d, classes, length, seed=0, **kw):
    from tslearn.shapelets import LearningShapelets
    draws()
    X = np.array([series(1000 + 10 * seed + k, length, d) for k in range(9)])
    y = np.array([("a", "b", "c")[k % classes] for k in range(9)]) if seed % 2 else np.arange(9) % classes * 3 - 2
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return LearningShapelets(n_shapelets_per_size=sizes, max_iter=1, random_state=seed, verbose=0, **kw).fit(X, y), X


def softmax(z):
    e = np.exp(z - z.max())
    return e / e.sum()


def judge(ctx, m, data, X, batch=None):
    """Everything the model says about data (X: its padded form) against the definitions."""
    shapelets = [np.array(s, float) for s in m.shapelets_]
    D = [[ref_distances(minmax(x) if m.scale else x, s) for s in shapelets] for x in data]
    Z = X.copy()
    T = m.transform(Z)
    L = m.locate(Z)
    P = m.predict_proba(Z)
    y = m.predict(Z)
    require(np.array_equal(Z, X, equal_nan=True), "input modified")
    F = np.array([[v.min() for v in row] for row in D])
    close(T, F, "transform", rtol=1e-4, atol=2e-4)
    equal(L.shape, F.shape, "shape of the locations")
    for i, row in enumerate(D):
        for k, v in enumerate(row):
            require(0 <= L[i, k] < len(v), f"window {L[i, k]} is not inside series {i} of length {len(data[i])}")
            require(v[L[i, k]] <= v.min() * (1 + 1e-4) + 2e-4, f"window {L[i, k]} at distance {v[L[i, k]]}, not {v.min()}")
    W, b = m.get_weights("classification")
    S = F @ W + b
    want = np.array([softmax(s) for s in S]) if W.shape[1] > 1 else np.hstack([1 - 1 / (1 + np.exp(-S)), 1 / (1 + np.exp(-S))])
    close(P, want, "probabilities", rtol=1e-3, atol=1e-3)
    close(P.sum(1), np.ones(len(X)), "total probability", atol=1e-5)
    require((P >= 0).all(), "negative probability")
    equal([str(v) for v in y], [str(m.classes_[k]) for k in P.argmax(1)], "labels")
    ctx.states += len(data)
    ctx.transitions += sum(len(v) for row in D for v in row)
    ctx.outcome(np.round(T, 2))
    return T, L, P


def words(alphabet, l, d):
    return np.array(list(itertools.product(alphabet, repeat=l * d)), float).reshape(-1, l, d)


def run(ctx):
    configs = []
    for n, (sizes, d, classes) in enumerate(itertools.product(({3: 1}, {2: 3}, {1: 2, 3: 1}, {4: 2, 2: 2}, {5: 1}, {2: 1, 1: 1, 3: 2}), (1, 2, 3), (2, 3))):
        configs.append((n, sizes, d, classes, dict(scale=bool(n % 3 == 0), batch_size=(256, 2, 5)[n % 3])))
    for n, sizes, d, classes, kw in configs:
        if ctx.quick and n % 2 and n % 5:
            continue
        if not ctx.mine():
            continue
        length = 6
        name = dict(sizes=[list(s) for s in sizes.items()], features=d, classes=classes, **kw)
        made = []
        with ctx.case("fit", **name):
            m, X = fit(sizes, d, classes, length, seed=n, **kw)
            made.append((m, X))
            total = sum(sizes.values())
            equal([s.shape for s in m.shapelets_], [(s, d) for s, k in sizes.items() for _ in range(k)], "shapes of the shapelets")
            judge(ctx, m, list(X), X)
        if not made:
            continue
        m, X = made[0]
        ctx.traces += 1
        al = (-1., .5, 2.)
        lens = range(max(sizes), length + 1)
        for variant in range(ctx.pick(2, 4)):
            with ctx.case("set-weights", **name, variant=variant):
                for i, (s, k) in enumerate(sizes.items()):
                    if variant % 2 == 0:
                        shp = np.array([np.round(series(77 + 5 * variant + i + j, s, d), 1) for j in range(k)])
                    else:       # windows of the data: zero distances
                        shp = np.array([(minmax(X[j]) if m.scale else X[j])[j:j + s] if j + s <= length else X[j][:s] for j in range(k)])
                    m.set_weights([shp], "shapelets_%d" % i)
                    close(m.get_weights("shapelets_%d" % i)[0], shp, "weights as set", atol=1e-6)
                W, b = m.get_weights("classification")
                m.set_weights([np.round(series(5 + variant, W.shape[0], W.shape[1]), 2) / 3, series(9, len(b))[:, 0]], "classification")
                flat = m.shapelets_as_time_series_
                at = 0
                for i, (s, k) in enumerate(sizes.items()):
                    got = m.get_weights("shapelets_%d" % i)[0]
                    for j in range(k):
                        close(flat[at][:s], got[j], "shapelets as time series", atol=1e-6)
                        require(np.isnan(flat[at][s:]).all(), "padding of the shapelets")
                        close(m.shapelets_[at], got[j], "shapelets_", atol=0)
                        at += 1
            for l in lens:
                W = words(al, l, d) if 3 ** (l * d) <= (250 if ctx.quick else 3000) else words((-1., 2.), l, d) if 2 ** (l * d) <= (70 if ctx.quick else 5000) else np.array([series(50 + k, l, d) for k in range(30)])
                with ctx.case("all-series", **name, variant=variant, size=l):
                    T, L, P = judge(ctx, m, list(W), W)
                    k = len(W) // 3
                    t1, l1, p1 = judge(ctx, m, [W[k]], pad([W[k]], length - l))
                    close(t1[0], T[k], "alone", atol=2e-4)
                    close(p1[0], P[k], "alone", atol=1e-3)
                ctx.traces += 1
            some = [series(60 + k, l, d) for k, l in enumerate(lens)] + [words((-1., 2.), lens[0], d)[1], np.zeros((lens[-1], d))]
            for order, extra in ((some, 0), (some[::-1], 0), (some[:1] * 2 + some[1:2], 0), ([s for s in some if len(s) < length] or some, 2)):
                with ctx.case("unequal-lengths", **name, variant=variant, lengths=[len(x) for x in order], padding=extra):
                    judge(ctx, m, order, pad(order, extra))
                ctx.traces += 1
        with ctx.case("lengths-out-of-range", **name):
            bad = [series(1, length + 1, d)] + ([series(2, max(sizes) - 1, d)] if max(sizes) > 1 else [])
            for x, fn in itertools.product(bad, (m.transform, m.predict, m.predict_proba, m.locate)):
                for data in ([x], [x, series(3, length, d)]):
                    try:
                        fn(pad(data))
                    except ValueError:
                        continue
                    require(False, f"a series of length {len(x)} was accepted")
    defaults(ctx)


def defaults(ctx):
    """Shapelet sizes chosen by the library, and a larger maximal size."""
    for n, (share, lengths, d) in enumerate(itertools.product((.3, .5), (1, 2), (1, 2))):
        if not ctx.mine():
            continue
        with ctx.case("default-sizes", shapelet_length=share, total_lengths=lengths, features=d):
            m, X = fit(None, d, 2, 8, seed=n, shapelet_length=share, total_lengths=lengths)
            equal(sorted({len(s) for s in m.shapelets_}), [int(share * 8) * (k + 1) for k in range(lengths)], "sizes of the shapelets")
            judge(ctx, m, list(X), X)
            big = max(len(s) for s in m.shapelets_)
            data = [series(5, big, d), series(6, 8, d)]
            judge(ctx, m, data, pad(data))
            if big > 1:
                for fn in (m.transform, m.predict, m.locate):
                    try:
                        fn(series(7, big - 1, d)[None])
                    except ValueError:
                        continue
                    require(False, "a series shorter than a shapelet was accepted")
        ctx.traces += 1
        with ctx.case("max-size", shapelet_length=share, total_lengths=lengths, features=d):
            m, X = fit({2: 1, 3: 2}, d, 3, 5, seed=n, max_size=7)
            data = [series(5 + k, l, d) for k, l in enumerate((7, 3, 5, 6))]
            judge(ctx, m, data, pad(data))
            judge(ctx, m, data[1:2], pad(data[1:2]))
            try:
                m.transform(series(1, 8, d)[None])
            except ValueError:
                pass
            else:
                require(False, "a series longer than max_size was accepted")
        ctx.traces += 1
