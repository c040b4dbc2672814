"""C21: scalers, resampler and imputer meet their stated post-conditions."""
import itertools

import numpy as np

from mc.core import close, equal, require
from mc.elastic import series

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of the input space (every series and NaN pattern over a small alphabet, alone and in batches) and of every option of each transformer, "
             "post-conditions and element-wise reference values checked on each")
SHARDS = 4
RULE = ("every series of length 1..4 (5) over {nan, -1, 0.1, 2} (all NaN positions) and multivariate ones of length 1..2 (3), each alone and inside batches of series of all lengths, "
        "constant series of many values and lengths, x every option of the scalers, the resampler and the imputer; datasets fitted on one set and applied to another")
ASSUMPTIONS = ["values up to 1e6 in size; lengths up to 12 for constant series; a series or feature without any value has no post-condition except that it stays NaN (scalers, imputer)"]
NAN = np.nan


def words(alphabet, lengths, d=1):
    for l in lengths:
        for v in itertools.product(alphabet, repeat=l * d):
            yield np.array(v, float).reshape(l, d)


def pad(data, extra=0):
    d = data[0].shape[1]
    out = np.full((len(data), max(len(x) for x in data) + extra, d), NAN)
    for k, x in enumerate(data):
        out[k, :len(x)] = x
    return out


def true_len(x):
    n = len(x)
    while n and np.isnan(x[n - 1]).all():
        n -= 1
    return n


def trimmed(X):
    """What the library makes of a padded dataset: the longest true length."""
    return X[:, :max(true_len(x) for x in X)]


def run(ctx):
    parts = (scalers, resampler, imputer, constants)
    for part in parts:
        part(ctx)


def pools(ctx):
    """Batches of series; every enumerated series occurs alone and in a batch."""
    al = (NAN, -1., .1, 2.)
    one = list(words(al, range(1, ctx.pick(5, 6))))
    two = list(words(al, (1, 2), 2)) + (list(words((NAN, 0., 3.), (3,), 2)) if ctx.thorough else list(words((NAN, 2.), (3,), 2)))
    three = list(words((NAN, 1., -3.), (1,), 3)) + list(words((NAN, 1.), (2,), 3))
    for ws in (one, two, three):
        for k, w in enumerate(ws):
            if ctx.quick and len(w) == 4 and k % 3:
                continue
            yield [w]
        for k in range(0, len(ws), 5):
            yield [ws[(k + 37 * j) % len(ws)] for j in range(4)]


# -- scalers ----------------------------------------------------------------

def stat(X, per_ts, per_f, fn):
    """fn over the values of each group, spread over the dataset."""
    out = np.full(X.shape, NAN)
    groups = {}
    for i, t, f in np.ndindex(X.shape):
        groups.setdefault((i if per_ts else 0, f if per_f else 0), []).append((i, t, f))
    for g in groups.values():
        v = [X[p] for p in g if not np.isnan(X[p])]
        if v:
            r = fn(v)
            for p in g:
                out[p] = r
    return out


def spread(v):
    v = np.array(v)
    return np.sqrt(((v - v.mean()) ** 2).mean()) if v.min() != v.max() else 0.


def ref_minmax(X, lo, hi, rng):
    span = hi - lo
    span = np.where(span == 0, 1, span)
    return (X - lo) / span * (rng[1] - rng[0]) + rng[0]


def ref_meanvar(X, m, s, mu, std):
    return (X - m) / np.where(s == 0, 1, s) * std + mu


def scalers(ctx):
    from tslearn.preprocessing import TimeSeriesScalerMeanVariance as MV, TimeSeriesScalerMinMax as MM
    opts = list(itertools.product((True, False), (True, False)))
    ranges, moments = ((0., 1.), (-2., 5.), (10, 11)), ((0., 1.), (3., .5), (-1, 10))
    for n, data in enumerate(pools(ctx)):
        if not ctx.mine():
            continue
        X = pad(data, n % 3)
        T = trimmed(X)
        if not T.size:
            continue            # no value at all
        d = X.shape[2]
        other = np.array([series(7 + k, 3, d) for k in range(2)])
        for (pt, pf), rng, (mu, std) in zip(opts * 3, [r for r in ranges for _ in opts], [m for m in moments for _ in opts]):
            if ctx.quick and len(data) == 1 and (n + pt + 2 * pf) % 3 and rng != ranges[n % 3]:
                continue
            with ctx.case("min-max", data=data, padding=n % 3, per_timeseries=pt, per_feature=pf, value_range=rng):
                Z = X.copy()
                est = MM(value_range=rng, per_timeseries=pt, per_feature=pf)
                got = est.fit_transform(Z)
                equal(Z, X, "input modified")
                lo, hi = stat(T, pt, pf, min), stat(T, pt, pf, max)
                close(got, ref_minmax(T, lo, hi, rng), "scaled", atol=1e-9)
                equal(np.isnan(got), np.isnan(T), "NaN positions")
                v = stat(got, pt, pf, min), stat(got, pt, pf, max)
                varies = (lo != hi) & ~np.isnan(lo)
                close(v[0][varies], np.full(varies.sum(), float(rng[0])), "smallest value", atol=1e-9)
                close(v[1][varies], np.full(varies.sum(), float(rng[1])), "largest value", atol=1e-9)
                close(est.transform(X.copy()), got, "transform", atol=1e-12)
                if not pt and not np.isnan(lo).any():
                    o = est.transform(other.copy())
                    L = lo[0, 0] if pf else np.full(d, lo[0, 0, 0])
                    H = hi[0, 0] if pf else np.full(d, hi[0, 0, 0])
                    close(o, ref_minmax(other, L, H, rng), "new series by the fitted range", atol=1e-9)
                elif pt:
                    close(est.transform(other.copy()), ref_minmax(other, stat(other, pt, pf, min), stat(other, pt, pf, max), rng), "new series by their own range", atol=1e-9)
                ctx.outcome(np.round(got, 6))
            with ctx.case("mean-variance", data=data, padding=n % 3, per_timeseries=pt, per_feature=pf, mu=mu, std=std):
                Z = X.copy()
                est = MV(mu=mu, std=std, per_timeseries=pt, per_feature=pf)
                got = est.fit_transform(Z)
                equal(Z, X, "input modified")
                m, s = stat(T, pt, pf, np.mean), stat(T, pt, pf, spread)
                close(got, ref_meanvar(T, m, s, mu, std), "scaled", atol=1e-8)
                equal(np.isnan(got), np.isnan(T), "NaN positions")
                some = ~np.isnan(m)
                close(stat(got, pt, pf, np.mean)[some], np.full(some.sum(), float(mu)), "mean", atol=1e-8)
                close(stat(got, pt, pf, spread)[some & (s > 0)], np.full((some & (s > 0)).sum(), float(std)), "deviation", atol=1e-8)
                close(est.transform(X.copy()), got, "transform", atol=1e-12)
                if not pt and not np.isnan(m).any():
                    M = m[0, 0] if pf else np.full(d, m[0, 0, 0])
                    S = s[0, 0] if pf else np.full(d, s[0, 0, 0])
                    close(est.transform(other.copy()), ref_meanvar(other, M, S, mu, std), "new series by the fitted moments", atol=1e-8)
                elif pt:
                    close(est.transform(other.copy()), ref_meanvar(other, stat(other, pt, pf, np.mean), stat(other, pt, pf, spread), mu, std), "new series by their own moments", atol=1e-8)
                ctx.outcome(np.round(got, 6))
            ctx.traces += 2
        ctx.states += X.size


def constants(ctx):
    """Constant series of awkward values: the result is the requested mean, or the lower end of the range."""
    from tslearn.preprocessing import TimeSeriesScalerMeanVariance as MV, TimeSeriesScalerMinMax as MM
    values = (0., .1, .3, -.7, 7.7, 1e-3, 1 / 3, 1e6 + .1, -123.456, 2.)
    for v, l, (pt, pf) in itertools.product(values, range(1, ctx.pick(9, 13)), itertools.product((True, False), (True, False))):
        if not ctx.mine():
            continue
        with ctx.case("constant", value=v, length=l, per_timeseries=pt, per_feature=pf):
            for n, d, extra in ((1, 1, 0), (3, 1, 2), (2, 2, 0), (2, 3, 1)):
                data = [np.full((l, d), v)] * n
                if extra and pt:
                    data = data + [np.full((l + extra, d), v)]
                X = pad(data)
                got = MV(mu=1.5, std=2., per_timeseries=pt, per_feature=pf).fit_transform(X.copy())
                close(got, np.where(np.isnan(X), NAN, 1.5), "constant series by mean and variance", atol=1e-6)
                got = MM(value_range=(-1., 4.), per_timeseries=pt, per_feature=pf).fit_transform(X.copy())
                close(got, np.where(np.isnan(X), NAN, -1.), "constant series by range", atol=1e-6)
        ctx.traces += 1


# -- resampler --------------------------------------------------------------

def ref_resample(x, size):
    n = len(x)
    if size == 1:
        return x.mean(0, keepdims=True)
    out = np.zeros((size, x.shape[1]))
    for k in range(size):
        p = k * (n - 1) / (size - 1)
        i = min(int(np.floor(p + 1e-12)), n - 1)
        j = min(i + 1, n - 1)
        out[k] = x[i] * (1 - (p - i)) + x[j] * (p - i)
    return out


def resampler(ctx):
    from tslearn.preprocessing import TimeSeriesResampler as R
    pool = [series(k, l, 1) for k, l in enumerate((1, 2, 3, 4, 5, 6, 7))] + list(words((0., 1.), (1, 2, 3)))
    pool2 = [series(30 + k, l, 2) for k, l in enumerate((1, 2, 3, 4, 6))]
    batches = [[w] for w in pool] + list(map(list, itertools.product(pool[:5], repeat=2))) + [pool[:7], pool[::-1]] + [[w] for w in pool2] + list(map(list, itertools.permutations(pool2, 3)))
    batches += [[series(50 + k, 3) for k in range(3)]]
    sizes = range(-1, ctx.pick(10, 20))
    for n, data in enumerate(batches):
        if not ctx.mine():
            continue
        for size, extra in itertools.product(sizes, (0, 2)):
            if size in (0,) or extra and (n + size) % 2:
                continue
            with ctx.case("resample", data=data, size=size, padding=extra):
                X = pad(data, extra)
                Z = X.copy()
                got = R(sz=size).fit_transform(Z)
                equal(Z, X, "input modified")
                m = size if size > 0 else max(len(x) for x in data)
                close(got, np.array([ref_resample(x, m) for x in data]), "resampled", atol=1e-9)
                if m > 1:
                    close(got[:, 0], np.array([x[0] for x in data]), "first sample", atol=0)
                    close(got[:, -1], np.array([x[-1] for x in data]), "last sample", atol=0)
                other = [series(60 + k, 1 + k, X.shape[2]) for k in range(3)]
                m2 = size if size > 0 else 3
                close(R(sz=size).fit(X.copy()).transform(pad(other)), np.array([ref_resample(x, m2) for x in other]), "other series", atol=1e-9)
                close(R(sz=size).fit_transform([x.tolist() for x in data]), got, "list input", atol=1e-12)
                ctx.outcome(np.round(got, 6))
            ctx.traces += 1
            ctx.transitions += len(data)


# -- imputer ----------------------------------------------------------------

def ref_impute(x, method, value):
    """Column by column; unsolvable values stay."""
    out = x.copy()
    for f in range(x.shape[1]):
        c = x[:, f]
        known = [i for i in range(len(c)) if not np.isnan(c[i])]
        for i in range(len(c)):
            if not np.isnan(c[i]):
                continue
            before, after = [k for k in known if k < i], [k for k in known if k > i]
            if method == "constant":
                out[i, f] = value
            elif not known:
                continue
            elif method == "mean":
                out[i, f] = np.mean(c[known])
            elif method == "median":
                out[i, f] = np.median(c[known])
            elif method == "ffill":
                out[i, f] = c[before[-1]] if before else NAN
            elif method == "bfill":
                out[i, f] = c[after[0]] if after else NAN
            elif method == "linear":
                if before and after:
                    a, b = before[-1], after[0]
                    out[i, f] = c[a] + (c[b] - c[a]) * (i - a) / (b - a)
                else:
                    out[i, f] = c[before[-1]] if before else c[after[0]]
            elif callable(method):
                out[i, f] = 42.
    return out


def filler(ts):
    return np.where(np.isnan(ts), np.where(np.isnan(ts).all(0), NAN, 42.), ts)


def imputer(ctx):
    from tslearn.preprocessing import TimeSeriesImputer as I
    methods = ["mean", "median", "ffill", "bfill", "linear", "constant", filler]
    for n, data in enumerate(pools(ctx)):
        if not ctx.mine():
            continue
        X = pad(data, n % 3)
        T = trimmed(X)
        for m, keep in itertools.product(methods, (True, False)):
            value = -7.5
            with ctx.case("impute", data=data, padding=n % 3, method=m if isinstance(m, str) else "callable", keep_trailing_nans=keep):
                Z = X.copy()
                est = I(method=m, value=value, keep_trailing_nans=keep)
                got = est.fit_transform(Z)
                equal(Z, X, "input modified")
                want = T.copy()
                for i, x in enumerate(T):
                    e = true_len(x) if keep else len(x)
                    if e:
                        want[i, :e] = ref_impute(x[:e], m, value)
                want = trimmed(want)
                close(got, want, "imputed", atol=1e-12)
                keepers = ~np.isnan(T[:, :want.shape[1]])
                equal(got[keepers], T[:, :want.shape[1]][keepers], "known values")
                close(I(method=m, value=value, keep_trailing_nans=keep).fit(np.zeros((1, 2, X.shape[2]))).transform(X.copy()), got, "transform after fitting other data")
                if keep and m != "constant":
                    close(est.transform(got.copy()), trimmed(np.array([np.vstack([ref_impute(x[:true_len(x)], m, value), x[true_len(x):]]) for x in got])), "imputing again")
                ctx.outcome(np.round(got, 6))
            ctx.traces += 1
            ctx.transitions += len(data)
        with ctx.case("default-constant", data=data):
            close(I(method="constant").fit_transform(X.copy()), T, "the default constant is NaN")
    with ctx.case("unknown-method"):
        try:
            I(method="nope").fit_transform(np.zeros((1, 2, 1)))
        except ValueError:
            pass
        else:
            require(False, "unknown method accepted")
