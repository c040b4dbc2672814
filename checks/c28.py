"""C28: the forecast error measures equal their definitions for every weighting and aggregation."""
import itertools
from fractions import Fraction

import numpy as np

from mc.core import close, require
from mc.elastic import series

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of every small truth/forecast pair over a value alphabet, with every series weighting, time weighting and aggregation over a weight alphabet, "
             "against the definitions evaluated in exact rational arithmetic")
SHARDS = 4
RULE = ("every dataset shape n <= 2, sz <= 3, d <= 2 with at most 4 (5) values over {-1, 0, 2}: every truth x every forecast; every weighting of series, time stamps and features over {1, 2, 1/2, 0}, "
        "every seasonal period for every training data shape up to 3 x 5 x 2, equal and variable length")
ASSUMPTIONS = ["true and predicted series all have one length and no missing value", "every weighting has a positive total", "training series are longer than the seasonal period and not periodic (positive scaling factor)"]

F = Fraction


def mean(vals, weights=None):
    weights = [F(1)] * len(vals) if weights is None else [F(w) for w in weights]
    return sum(w * v for w, v in zip(weights, vals)) / sum(weights)


def ref(yt, yp, power, ws=None, wt=None, mo="uniform_average"):
    n, sz, d = yt.shape
    err = [[[abs(F(yt[i, t, k]) - F(yp[i, t, k])) ** power for i in range(n)] for t in range(sz)] for k in range(d)]
    feats = [mean([mean(c, ws) for c in col], wt) for col in err]
    if isinstance(mo, str):
        return feats if mo == "raw_values" else mean(feats)
    return mean(feats, mo)


def ref_scale(train, m, raw):
    """train: list of 2-d arrays."""
    d = train[0].shape[1]
    per = [[abs(F(s[t, k]) - F(s[t + m, k])) for s in train for t in range(len(s) - m)] for k in range(d)]
    return [mean(p) for p in per] if raw else mean([v for p in per for v in p])


def fl(v):
    return np.array([float(x) for x in v]) if isinstance(v, list) else float(v)


def weights(n):
    return [None] + [w for w in itertools.product((1., 2., .5, 0.), repeat=n) if sum(w)]


def aggs(d):
    return ["uniform_average", "raw_values"] + weights(d)[1:]


def thin(ctx, options, n):
    """All of them in the thorough tier, else few of the long ones."""
    return options if n == 1 or ctx.tier != "quick" else options[::2] if n == 2 else options[::7]


def run(ctx):
    from tslearn.metrics import performance as P
    pairs(ctx, P)
    options(ctx, P)
    scaled(ctx, P)


def pairs(ctx, P):
    top = ctx.pick(4, 5)
    for n, sz, d in itertools.product((1, 2), (1, 2, 3), (1, 2)):
        if n * sz * d > top:
            continue
        values = [np.array(v).reshape(n, sz, d) for v in itertools.product((-1., 0., 2.), repeat=n * sz * d)]
        for yt in values:
            if not ctx.mine():
                continue
            train = np.concatenate([yt, series(4, 1, d)[None] + np.arange(3.)[None, :, None]], 1) if n == 1 else series(5, 4 * d)[:, 0].reshape(1, 4, d)
            scale = ref_scale(list(train), 1, False)
            with ctx.case("pairs", truth=yt):
                for k, yp in enumerate(values):
                    mae, mse = fl(ref(yt, yp, 1)), fl(ref(yt, yp, 2))
                    got = [P.mae(yt, yp), P.mse(yt, yp), P.mase(yt, yp, train)]
                    close(np.array(got), np.array([mae, mse, mae / float(scale)]), "mae, mse, mase", atol=1e-12)
                    require((got[0] == 0) == (got[1] == 0) == (yt == yp).all(), "zero exactly for perfect forecasts")
                    if k % 7 == int(abs(yt).sum()) % 7:
                        raw = [f(yt, yp, *a, multioutput="raw_values") for f, a in ((P.mae, ()), (P.mse, ()))]
                        close(raw[0], fl(ref(yt, yp, 1, mo="raw_values")), "raw mae", atol=1e-12)
                        close(raw[1], fl(ref(yt, yp, 2, mo="raw_values")), "raw mse", atol=1e-12)
                ctx.states += len(values)
            ctx.traces += 1


def options(ctx, P):
    """Every weighting x aggregation on fixed data, in every input form."""
    for n, sz, d in itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 3)):
        yt, yp = series(7 * n + sz, n * sz * d)[:, 0].reshape(n, sz, d), series(50 + d, n * sz * d)[:, 0].reshape(n, sz, d)
        # nothing cancels: every series, time and feature has its own error
        yp = yp + np.arange(n * sz * d).reshape(n, sz, d) ** 2 / 4.
        train = [series(60 + i, 5, d) for i in range(2)]
        W = thin(ctx, weights(n), n)
        for ws in W:
            if not ctx.mine():
                continue
            for wt, mo in itertools.product(thin(ctx, weights(sz), sz), aggs(d)[:2] + thin(ctx, aggs(d)[2:], d)):
                with ctx.case("options", shape=(n, sz, d), series=ws, times=wt, aggregation=mo):
                    keep = [a.copy() for a in (yt, yp, *train)]
                    want = [fl(ref(yt, yp, p, ws, wt, mo)) for p in (1, 2)]
                    sc = fl(ref_scale(train, 1, isinstance(mo, str) and mo == "raw_values"))
                    as_arr = ctx.states % 2
                    conv = (lambda v: np.array(v) if as_arr and isinstance(v, tuple) else list(v) if isinstance(v, tuple) else v)
                    kw = dict(ts_weights=conv(ws), timestamps_weights=conv(wt), multioutput=conv(mo))
                    a, b = (yt, yp) if as_arr else (yt.tolist(), yp.tolist())
                    close(P.mae(a, b, **kw), want[0], "mae", atol=1e-12)
                    close(P.mse(a, b, **kw), want[1], "mse", atol=1e-12)
                    close(P.mase(a, b, train, 1, **kw), want[0] / sc, "mase", atol=1e-12)
                    require(all(np.array_equal(x, y) for x, y in zip(keep, (yt, yp, *train))), "input modified")
                ctx.states += 1
                ctx.outcome(want)
        ctx.traces += 1


def scaled(ctx, P):
    for d, lens in itertools.product((1, 2), [c for n in (1, 2, 3) for c in itertools.product((2, 3, 5), repeat=n)]):
        if not ctx.mine():
            continue
        train = [series(9 * i + len(lens), l, d) * (i + 1) for i, l in enumerate(lens)]
        yt, yp = series(1, 8 * d)[:, 0].reshape(2, 4, d), series(2, 8 * d)[:, 0].reshape(2, 4, d)
        for m in range(1, min(lens)):
            for mo in aggs(d)[::2 if d == 2 else 1]:
                with ctx.case("scaling", lengths=lens, dim=d, period=m, aggregation=mo):
                    raw = isinstance(mo, str) and mo == "raw_values"
                    want = fl(ref(yt, yp, 1, mo=mo)) / fl(ref_scale(train, m, raw))
                    close(P.mase(yt, yp, train, m, multioutput=mo), want, "mase", atol=1e-12)
                    close(P.mase(yt, yt, train, m, multioutput=mo), want * 0, "mase of a perfect forecast")
                ctx.states += 1
        ctx.traces += 1
