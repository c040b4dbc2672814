"""C24: VARIMA forecasts follow the fitted recursion."""
import itertools
import math
import warnings

import numpy as np

from mc.core import close, equal, require
from mc.elastic import series

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of every model order (p, d, q, season, constant, features) and of every series over a small alphabet as forecast input, in batches, alone and padded, "
             "against an independent step-by-step implementation of the recursion")
SHARDS = 6
RULE = ("all orders p, q in 0..2, d in 0..2 (3), seasons none/1/2/3, with and without constant, 1..2 features, fitted on fixed datasets of equal and unequal lengths; forecasts of horizons 1..5 of the fitted data, "
        "of every series over 3 values of the two shortest admissible lengths and of longer ones, alone, in batches and padded; exactly autoregressive data of every order")
ASSUMPTIONS = ["the coefficients are those the fit found (a local optimum for q > 0); finite samples; lengths up to 14; explosive models are only compared where forecasts stay below 1e5"]


def ref_residuals(z, A, M, c):
    p, q = len(A), len(M)
    e = np.zeros((len(z), z.shape[1]))
    for t in range(max(p, q), len(z)):
        e[t] = z[t] - step(z[:t], e[:t], A, M, c)
    return e


def step(z, e, A, M, c):
    out = np.array(c, float)
    for k, a in enumerate(A):
        out = out + z[-1 - k] @ a
    for k, m in enumerate(M):
        out = out + (e[-1 - k] @ m if len(e) > k else 0)
    return out


def ref_forecast(x, n, A, M, c, d, s):
    x = [np.array(v) for v in x]
    w = [x[t] - x[t - s] for t in range(s, len(x))] if s else list(x)
    z = [sum((-1) ** j * math.comb(d, j) * w[t - j] for j in range(d + 1)) for t in range(d, len(w))]
    z = np.array(z).reshape(len(z), -1)
    e = ref_residuals(z, A, M, c)
    out = []
    for _ in range(n):
        nxt = step(z, e, A, M, c)
        z, e = np.vstack([z, nxt]), np.vstack([e, np.zeros(len(nxt))])
        nxt = nxt - sum((-1) ** j * math.comb(d, j) * w[-j] for j in range(1, d + 1))
        w.append(nxt)
        if s:
            nxt = nxt + x[-s]
        x.append(nxt)
        out.append(nxt)
    return np.array(out)


def pad(data, extra=0):
    f = data[0].shape[1]
    out = np.full((len(data), max(len(x) for x in data) + extra, f), np.nan)
    for k, x in enumerate(data):
        out[k, :len(x)] = x
    return out


def run(ctx):
    recursion(ctx)
    exact(ctx)
    improves(ctx)
    auto(ctx)


def agree(got, want, what):
    """Explosive fitted models amplify rounding errors: series forecast beyond 1e5 are left out."""
    want, got = np.array(want), np.asarray(got)
    equal(got.shape, want.shape, what + ": shape")
    keep = np.abs(want).max((1, 2)) < 1e5
    close(got[keep], want[keep], what, atol=1e-6 * (1 + np.abs(want[keep]).max(initial=0)))


def recursion(ctx):
    from tslearn.forecasting import VARIMA
    orders = list(itertools.product(range(3), range(ctx.pick(3, 4)), range(3), (None, 1, 2, 3), (True, False), (1, 2)))
    for n, (p, d, q, s, const, f) in enumerate(orders):
        if ctx.quick and (n // 2 + p + q + (s or 0)) % 2:
            continue
        if not ctx.mine():
            continue
        need = p + q + d + 1 + (s or 0)
        lens = ((12, 12, 12), (12, 9 + need // 3, 14))[n % 3 == 0]
        data = [series(200 + 7 * n + k, max(l, need), f) for k, l in enumerate(lens)]
        X = pad(data, n % 2)
        name = dict(p=p, d=d, q=q, seasonal_period=s, with_constant=const, features=f, lengths=lens)
        fitted = []
        with ctx.case("fit", **name):
            Z = X.copy()
            m = VARIMA(p, d, q, with_constant=const, seasonal_period=s, max_iter=6).fit(Z)
            equal(Z, X, "input modified")
            equal(np.shape(m.ar_coeffs_), (p, f, f), "shape of the AR coefficients")
            equal(np.shape(m.ma_coeffs_), (q, f, f), "shape of the MA coefficients")
            equal(np.shape(m.intercept_), (f,) if const else (0,), "shape of the intercept")
            require(np.isfinite(m.lle_), "likelihood")
            fitted.append(m)
        if not fitted:
            continue
        m = fitted[0]
        A, M = np.array(m.ar_coeffs_), np.array(m.ma_coeffs_)
        c = np.array(m.intercept_) if const else np.zeros(f)
        s0 = s or 0

        def ref(x, h):
            return ref_forecast(x, h, A, M, c, d, s0)
        with ctx.case("fitted-data", **name):
            full = [ref(x, 5) for x in data]
            for h in (5, 1, 2, 5, 3):
                agree(m.predict(n=h), [w[:h] for w in full], f"{h} steps of the fitted data")
                agree(m.predict(X.copy(), n=h), [w[:h] for w in full], f"{h} steps of the same data given")
            agree(m.predict(), [w[:1] for w in full], "default horizon")
            agree(VARIMA(p, d, q, with_constant=const, seasonal_period=s, max_iter=6).fit_predict(X, n=2), [w[:2] for w in full], "fit_predict")
            ctx.outcome(np.round(full, 4))
        ctx.traces += 1
        # every short series over an alphabet
        for extra in (0, 1):
            l = need + extra
            k = l * f
            al = (-1., .5, 2.) if k <= (4 if ctx.quick else 6) else (-1., 2.) if k <= (7 if ctx.quick else 9) else None
            if al is None:
                W = np.array([series(900 + j, l, f) for j in range(12)])
            else:
                W = np.array(list(itertools.product(al, repeat=k))).reshape(-1, l, f)
            with ctx.case("short-series", **name, size=l):
                want = [ref(x, 3) for x in W]
                Z = W.copy()
                got = m.predict(Z, n=3)
                equal(Z, W, "input modified")
                agree(got, want, "forecasts")
                agree(m.predict(W[::-1].copy(), n=1)[::-1], [w[:1] for w in want], "reversed batch, one step")
                for j in range(0, len(W), 1 + len(W) // 5):
                    agree(m.predict(W[j:j + 1], n=2), [want[j][:2]], "alone")
                    agree(m.predict(pad([W[j]], 2), n=2), [want[j][:2]], "padded")
                ctx.states += len(W)
            ctx.traces += 1
        # unequal lengths in one batch
        batches = list(itertools.permutations([series(700 + k, need + l, f) for k, l in enumerate((0, 1, 4))])) + [[series(710 + k, need + l, f) for k, l in enumerate(ls)] for ls in ((0, 5), (3, 0), (2, 2, 0, 1))]
        with ctx.case("unequal-lengths", **name):
            for b, extra in itertools.product(batches, (0, 3)):
                agree(m.predict(pad(b, extra), n=4), [ref(x, 4) for x in b], "forecasts")
                ctx.transitions += len(b)
            agree(m.predict(n=2), [w[:2] for w in full], "fitted data afterwards")
        ctx.traces += 1
        if need > 1:
            with ctx.case("too-short", **name):
                for bad in (pad([series(1, need - 1, f)]), pad([series(1, need + 2, f), series(2, need - 1, f)])):
                    for fn in (m.predict, VARIMA(p, d, q, with_constant=const, seasonal_period=s).fit):
                        try:
                            fn(bad)
                        except ValueError:
                            continue
                        require(False, "a series shorter than the model needs was accepted")


def exact(ctx):
    """Exactly autoregressive data: the fit finds the recursion and the forecast continues it."""
    from tslearn.forecasting import VARIMA
    mats = {1: [np.array([[.5]]), np.array([[-.8]]), np.array([[1.1]])],
            2: [np.array([[.5, .3], [-.4, .6]]), np.array([[0., 1.], [-.7, .2]]), np.array([[.9, -.2], [.1, -.5]])]}
    for p, d, s, f, const in itertools.product((1, 2), range(ctx.pick(3, 4)), (None, 1, 2), (1, 2), (True, False)):
        for v, n_ts in itertools.product(range(3), (1, 2)):
            if ctx.quick and (v + n_ts + d + p) % 2:
                continue
            if not ctx.mine():
                continue
            with ctx.case("exact", p=p, d=d, seasonal_period=s, features=f, with_constant=const, variant=v, n_ts=n_ts):
                A = [mats[f][v]] + [-.4 * mats[f][(v + 1) % 3]] * (p - 1)
                c = np.array([.7, -.3])[:f] if const else np.zeros(f)
                data = []
                for k in range(n_ts):
                    x = list(series(300 + 11 * k + v, p + d + (s or 0), f))
                    for _ in range(16 + p * f):
                        # ref_forecast continues any series by the recursion
                        x.append(ref_forecast(x, 1, A, [], c, d, s or 0)[0])
                    data.append(np.array(x))
                X = np.array([x[:-4] for x in data])
                m = VARIMA(p, d, 0, with_constant=const, seasonal_period=s).fit(X)
                # differencing amplifies rounding, hence the tolerances
                scale = 1 + max(np.abs(x).max() for x in data)
                close(m.ar_coeffs_, A, "AR coefficients", rtol=1e-4, atol=1e-4)
                if const:
                    close(m.intercept_, c, "intercept", rtol=1e-4, atol=1e-4)
                close(m.predict(n=4), [x[-4:] for x in data], "continuation", rtol=1e-4, atol=1e-4 * scale)
                ctx.outcome(np.round(m.predict(n=4), 3))
            ctx.traces += 1


def improves(ctx):
    """More optimiser iterations never lower the likelihood; a single series' pure AR fit is its least-squares fit."""
    from tslearn.forecasting import VARIMA
    for p, d, q, f in itertools.product((0, 1, 2), (0, 1), (1, 2), (1, 2)):
        if not ctx.mine():
            continue
        with ctx.case("iterations", p=p, d=d, q=q, features=f):
            X = np.array([series(400 + k, 20, f) for k in range(2)])
            lle = []
            for it in (1, 4, 10, 25, 60):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    lle.append(VARIMA(p, d, q, max_iter=it).fit(X).lle_)
            require(all(b >= a - 1e-9 for a, b in zip(lle, lle[1:])), f"likelihood after more iterations: {lle}")
        ctx.traces += 1
    for p, d, f, const, l in itertools.product((0, 1, 2), (0, 1, 2), (1, 2), (True, False), (9, 13)):
        if not ctx.mine():
            continue
        with ctx.case("least-squares", p=p, d=d, features=f, with_constant=const, length=l):
            x = series(500 + l + p, l, f)
            m = VARIMA(p, d, 0, with_constant=const).fit(x[None])
            z = np.diff(x, n=d, axis=0)
            D = np.array([np.concatenate([[1.] * const] + [z[t - 1 - k] for k in range(p)]) for t in range(p, len(z))]).reshape(len(z) - p, -1)
            B = np.linalg.lstsq(D, z[p:], rcond=None)[0] if D.shape[1] else np.zeros((0, f))
            if const:
                close(m.intercept_, B[0], "intercept", atol=1e-7)
            close(m.ar_coeffs_, B[int(const):].reshape(p, f, f), "AR coefficients", atol=1e-7)
        ctx.traces += 1


def auto(ctx):
    """The selected orders have the least AIC among all their neighbours, and forecasts are the selected model's."""
    from tslearn.forecasting import AutoVARIMA, VARIMA
    cells = [(0, None, 1, 2, 2), (1, None, 1, 1, 1), (2, None, 2, 1, 0), (3, 2, 1, 1, 2), (4, None, 1, 2, 1), (5, 3, 1, 0, 1)]
    if ctx.thorough:
        cells += [(k, s, f, 2, 2) for k, s, f in itertools.product(range(6, 14), (None, 2), (1, 2))]
    for k, s, f, mp, mq in cells:
        if not ctx.mine():
            continue
        with ctx.case("auto", seed=k, seasonal_period=s, features=f, max_p=mp, max_q=mq):
            X = np.array([series(600 + 5 * k + j, 40, f) for j in range(2)])
            if k % 2:
                X = np.cumsum(X, axis=1)
            if k % 3 == 1:
                X[1, 33:] = np.nan
            est = AutoVARIMA(max_p=mp, max_q=mq, max_d=1, seasonal_period=s, max_iter=8).fit(X.copy())
            b = est.best_estimator_
            require(0 <= b.p <= mp and 0 <= b.q <= mq and b.d <= 1 and b.seasonal_period == s, "orders out of bounds")
            close(est.predict(n=3), b.predict(n=3), "forecast of the fitted data", atol=0)
            close(est.predict(X[:, :20], n=2), b.predict(X[:, :20], n=2), "forecast of other data", atol=0)
            again = VARIMA(b.p, b.d, b.q, with_constant=b.with_constant, seasonal_period=s, max_iter=8).fit(X.copy())
            close(again.predict(n=3), est.predict(n=3), "the same model fitted directly", atol=1e-9)

            def aic(p, q, const):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    return 2 * (p + q + (2 if const else 1) - VARIMA(p, b.d, q, with_constant=const, seasonal_period=s, max_iter=8).fit(X.copy()).lle_)
            best = aic(b.p, b.q, b.with_constant)
            for p, q in itertools.product(range(max(0, b.p - 1), min(mp, b.p + 1) + 1), range(max(0, b.q - 1), min(mq, b.q + 1) + 1)):
                require(best <= aic(p, q, b.with_constant) + 1e-9, f"orders {p, q} have a lower AIC than the selected {b.p, b.q}")
            require(best <= aic(b.p, b.q, not b.with_constant) + 1e-9, "the other constant term has a lower AIC")
        ctx.traces += 1
