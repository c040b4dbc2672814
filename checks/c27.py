"""C27: feature synchronisation interpolates every feature onto the time base of the reference feature."""
import itertools
from fractions import Fraction

import numpy as np

from mc.core import close, equal, require
from mc.elastic import series

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of every combination of feature lengths, of every small-alphabet content and of every choice of increasing time stamps on a grid, "
             "against interpolation computed in exact rational arithmetic")
SHARDS = 4
RULE = ("2..3 features of every length 1..4 (5), every reference feature, every content over 2..3 values for two features; every pair of increasing subsets of a grid of 5 (6) days or seconds as time stamps; "
        "batches of several such series, padded")
ASSUMPTIONS = ["features are finite up to their own length and NaN afterwards; every feature has at least one value", "time stamps are numpy arrays of the shape of the data, trailing NaT after the last sample of a feature",
               "time stamps in days to milliseconds (the library computes in double precision)"]


def interp(at, base, values):
    """Piecewise-linear through (base, values), constant outside."""
    out = []
    for t in at:
        if t <= base[0]:
            out.append(values[0])
        elif t >= base[-1]:
            out.append(values[-1])
        else:
            k = max(j for j in range(len(base)) if base[j] <= t)
            w = Fraction(t - base[k]) / Fraction(base[k + 1] - base[k])
            out.append(values[k] * (1 - float(w)) + values[k + 1] * float(w))
    return np.array(out, float)


def even(n):
    return [Fraction(k, n - 1) if n > 1 else Fraction(0) for k in range(n)]


def ref(features, r, stamps=None):
    """features: list of 1-d arrays; the synchronised series, one column per feature."""
    base = [even(len(f)) if stamps is None else stamps[k] for k, f in enumerate(features)]
    return np.stack([interp(base[r], base[k], f) for k, f in enumerate(features)], 1)


def build(batch, extra=0):
    """Batch of series given by their features, as a padded array."""
    size = max(len(f) for s in batch for f in s)
    X = np.full((len(batch), size + extra, len(batch[0])), np.nan)
    for i, s in enumerate(batch):
        for k, f in enumerate(s):
            X[i, :len(f), k] = f
    return X


def stack(out):
    size = max(len(o) for o in out)
    res = np.full((len(out), size, out[0].shape[1]), np.nan)
    for i, o in enumerate(out):
        res[i, :len(o)] = o
    return res


def run(ctx):
    from tslearn.preprocessing import TimeSeriesFeatureSynchronizer as S
    even_bases(ctx, S)
    batches(ctx, S)
    stamped(ctx, S)
    rejects(ctx, S)


def verify(ctx, S, batch, r, extra, what="synchronised"):
    X = build(batch, extra)
    Z = X.copy()
    want = stack([ref(s, r) for s in batch])
    got = S(reference_feature_index=r).fit_transform(Z)
    require(np.array_equal(Z, X, equal_nan=True), "input modified")
    close(got, want, what, atol=1e-9)
    for i, s in enumerate(batch):
        equal(got[i, :len(s[r]), r], np.array(s[r], float), "reference feature")
    est = S(reference_feature_index=r).fit(np.zeros((1, 2, X.shape[2])))
    close(est.transform(X), want, "transform after fitting other data", atol=1e-9)
    close(est.transform([x[:max(len(f) for f in s)] for x, s in zip(X, batch)]), want, "list of series", atol=1e-9)
    ctx.states += len(batch)
    ctx.outcome(got)
    return got


def even_bases(ctx, S):
    top = ctx.pick(4, 5)
    for lens in itertools.product(range(1, top + 1), repeat=2):
        if not ctx.mine():
            continue
        contents = list(itertools.product(*[itertools.product((-1., .5, 2.) if sum(lens) <= ctx.pick(6, 8) else (-1., 2.), repeat=l) for l in lens]))
        for r in (0, 1):
            with ctx.case("contents", lengths=lens, reference=r):
                # one batch holds them all
                verify(ctx, S, [[np.array(f) for f in s] for s in contents], r, 0)
                for s in contents[::max(1, len(contents) // 20)]:
                    verify(ctx, S, [[np.array(f) for f in s]], r, 1, "alone")
            ctx.traces += 1
            ctx.transitions += len(contents)
    for lens in itertools.product(range(1, top + 1), repeat=3):
        if not ctx.mine():
            continue
        for r in range(3):
            with ctx.case("three-features", lengths=lens, reference=r):
                verify(ctx, S, [[series(3 * k + j + sum(lens), l)[:, 0] for j, l in enumerate(lens)] for k in range(3)], r, r % 2)
            ctx.traces += 1


def batches(ctx, S):
    """Series of different lengths and rates in one batch."""
    shapes = [(1, 3), (3, 1), (2, 4), (4, 2), (3, 3), (5, 2), (1, 1)]
    for pick in list(itertools.permutations(shapes, 2)) + list(itertools.combinations(shapes, 3)):
        if not ctx.mine():
            continue
        for r, extra in itertools.product((0, 1), (0, 2)):
            with ctx.case("batch", shapes=pick, reference=r, padding=extra):
                verify(ctx, S, [[series(10 * i + j, l)[:, 0] for j, l in enumerate(s)] for i, s in enumerate(pick)], r, extra)
            ctx.traces += 1


def subsets(grid, low=1, high=4):
    for n in range(low, high + 1):
        yield from itertools.combinations(range(grid), n)


def stamps_array(batch, unit, scale):
    size = max(len(f) for s in batch for f in s)
    T = np.full((len(batch), size, len(batch[0])), np.datetime64("NaT"), dtype=f"datetime64[{unit}]")
    start = np.datetime64("2025-01-01", unit)
    for i, s in enumerate(batch):
        for k, f in enumerate(s):
            for j, t in enumerate(f):
                T[i, j, k] = start + np.timedelta64(int(t) * scale, unit)
    return T


def stamped(ctx, S):
    sets = list(subsets(ctx.pick(5, 6), 1, ctx.pick(3, 4)))
    todo = list(itertools.product(sets, repeat=2))
    for n in range(0, len(todo), 8):
        if not ctx.mine():
            continue
        part = todo[n:n + 8]
        for r in (0, 1):
            with ctx.case("time-stamps", first=part[0], count=len(part), reference=r):
                batch = [[series(7 * i + k + n, len(t))[:, 0] for k, t in enumerate(p)] for i, p in enumerate(part)]
                X = build(batch)
                want = stack([ref(s, r, p) for s, p in zip(batch, part)])
                unit, scale = (("D", 1), ("s", 3600), ("ms", 1))[n // 8 % 3]
                T = stamps_array(part, unit, scale)
                Z, U = X.copy(), T.copy()
                got = S(reference_feature_index=r).fit_transform(Z, timestamps=U)
                require(np.array_equal(Z, X, equal_nan=True) and np.array_equal(U.astype("int64"), T.astype("int64")), "input modified")
                close(got, want, "synchronised", atol=1e-6 if unit == "ms" else 1e-9)
                for i in range(len(part)):
                    size = max(len(t) for t in part[i])
                    close(S(reference_feature_index=r).fit_transform(X[i:i + 1, :size], timestamps=T[i:i + 1, :size]), want[i:i + 1, :len(part[i][r])], "alone", atol=1e-6)
                ctx.states += len(part)
                ctx.outcome(got)
            ctx.traces += 1
    for r, order in itertools.product(range(3), itertools.permutations([(0, 2, 5), (1, 2), (0, 3, 4, 6)])):
        with ctx.case("time-stamps-three", order=order, reference=r):
            s = [series(90 + k, len(t))[:, 0] for k, t in enumerate(order)]
            got = S(reference_feature_index=r).fit_transform(build([s]), timestamps=stamps_array([order], "h", 1))
            close(got[0], ref(s, r, order), "synchronised", atol=1e-9)
        ctx.traces += 1


def rejects(ctx, S):
    X = np.arange(12.).reshape(2, 3, 2)
    T = stamps_array([((0, 1, 2), (0, 2, 4))] * 2, "D", 1)
    for i, t, k, other in itertools.product(range(2), (1, 2), range(2), ("same", "before")):
        with ctx.case("not-increasing", series=i, at=t, feature=k, how=other):
            bad = T.copy()
            bad[i, t, k] = bad[i, t - 1, k] - np.timedelta64(0 if other == "same" else 1, "D")
            fails(lambda: S().fit_transform(X, timestamps=bad))
    for shape in ((2, 2, 2), (1, 3, 2), (2, 3, 1)):
        with ctx.case("shape-mismatch", shape=shape):
            fails(lambda: S().fit_transform(X, timestamps=T[:shape[0], :shape[1], :shape[2]]))


def fails(fn):
    try:
        fn()
    except ValueError:
        return
    require(False, "accepted")
