"""C31: SVM and MLP models equal their scikit-learn counterparts on kernel matrices / flattened series."""
import itertools
import warnings

import numpy as np
from sklearn.neural_network import MLPClassifier, MLPRegressor
from sklearn.svm import SVC, SVR

from mc import paths as P
from mc.core import close, equal, require
from mc.elastic import series

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of labellings, weightings and hyper-parameters over small datasets, with the global alignment kernel summed over enumerated alignment paths, "
             "and of all operation sequences (fit, partial_fit, predict on several datasets) of the MLPs up to a depth; the scikit-learn model on the same matrix is the reference")
SHARDS = 6
RULE = ("every labelling of 5 (6) series with 2 and 3 classes; kernels gak, linear, rbf, poly, sigmoid x bandwidths x C x weightings x class weights x decision shapes, equal and variable length, 1..2 features; "
        "every sequence of up to 3 (4) operations on an MLP over two training sets, with and without warm start")
ASSUMPTIONS = ["scikit-learn's SVC/SVR/MLP are trusted; SVMs are solved to a tolerance of 1e-9 and compared to 1e-5 (kernel matrices agree up to rounding)",
               "series for the MLP and for kernels other than gak have equal lengths without missing values"]
TOL = dict(rtol=1e-4, atol=1e-5)


def gak(a, b, sigma):
    def raw(a, b):
        d2 = P.sq_local(a, b)
        k = np.exp(-d2 / (2 * sigma ** 2))
        k = k / (2 - k)
        lw = np.log(k).ravel()
        return np.log(np.exp(P.incidence(len(a), len(b)) @ lw).sum()) if len(a) * len(b) <= 30 else dp(np.log(k))
    return np.exp(raw(a, b) - .5 * (raw(a, a) + raw(b, b)))


def dp(lw):
    l1, l2 = lw.shape
    acc = np.zeros((l1 + 1, l2 + 1))
    acc[0, 0] = 1
    for i, j in itertools.product(range(l1), range(l2)):
        acc[i + 1, j + 1] = np.exp(lw[i, j]) * (acc[i, j] + acc[i + 1, j] + acc[i, j + 1])
    return np.log(acc[l1, l2])


def data(seed, lens, d):
    return [np.round(series(seed + 13 * k, l, d) * .7 + (k % 2) * .8, 2) for k, l in enumerate(lens)]


def flat(S):
    return np.stack(S).reshape(len(S), -1)


def run(ctx):
    warnings.simplefilter("ignore")
    from tslearn import svm as V
    from tslearn import metrics as M
    from tslearn import neural_network as N
    labellings(ctx, V)
    settings(ctx, V, M)
    proba(ctx, V)
    regress(ctx, V, M)
    mlp_settings(ctx, N)
    mlp_histories(ctx, N)


def kernel_inputs(kernel, S, Q, gamma):
    """What scikit-learn's model gets: training matrix, query matrix, kernel name, gamma."""
    if kernel == "gak":
        sigma = np.sqrt(gamma / 2)
        K = np.array([[gak(a, b, sigma) for b in S] for a in S])
        return K, np.array([[gak(q, b, sigma) for b in S] for q in Q]), "precomputed", 1.
    return flat(S), flat(Q), kernel, gamma


def same_svm(est, ref, S, Q, XQ, RQ, classes=True):
    close(est.predict(XQ), ref.predict(RQ), "predictions", **TOL) if not classes else None
    if classes:
        dec = ref.decision_function(RQ)
        close(est.decision_function(XQ), dec, "decision values", **TOL)
        clear = np.abs(dec) > 1e-4 if dec.ndim == 1 else (np.diff(np.sort(dec, 1), axis=1) > 1e-4).all(1)
        equal(est.predict(XQ)[clear], ref.predict(RQ)[clear], "predictions")
        equal(est.classes_, ref.classes_, "classes")
    close(est.intercept_, ref.intercept_, "intercept", **TOL)
    # the dual solution as a function of the training series
    n = len(S)
    full = lambda m, sup: np.stack([np.bincount(sup, weights=row, minlength=n) for row in m])
    inner = est.svm_estimator_
    full_a, full_b = full(est.dual_coef_, est.support_), full(ref.dual_coef_, ref.support_)
    if np.linalg.cond(ref._gram) < 1e3:
        close(full_a, full_b, "dual coefficients", rtol=1e-3, atol=1e-4)
    sv = est.support_vectors_
    if classes:
        equal([len(v) for v in sv], list(inner.n_support_), "numbers of support vectors")
        sv = np.concatenate(sv)
    want = P.pad([S[i] for i in est.support_])
    full_len = max(map(len, S))
    want = np.concatenate([want, np.full((len(want), full_len - want.shape[1], want.shape[2]), np.nan)], 1)
    equal(np.asarray(sv), want, "support vectors")


def gram(ref, R):
    from sklearn.metrics.pairwise import pairwise_kernels
    if ref.kernel == "precomputed":
        return R
    kw = {"gamma": ref._gamma} if ref.kernel != "linear" else {}
    if ref.kernel == "poly":
        kw["degree"] = ref.degree
    if ref.kernel in ("poly", "sigmoid"):
        kw["coef0"] = ref.coef0
    return pairwise_kernels(R, metric=ref.kernel, **kw)


def verify(ctx, model, refmodel, kernel, gamma, S, Q, y, args, weights=None, classes=True, **info):
    with ctx.case("svm", kernel=kernel, gamma=gamma, y=y, lengths=[len(s) for s in S], args=args, weights=weights, model=model.__name__, **info):
        est = model(kernel=kernel, gamma=gamma, tol=1e-9, **args)
        X, XQ = P.pad(S), P.pad(Q)
        keep = X.copy(), XQ.copy()
        est.fit(X, y, **({} if weights is None else {"sample_weight": weights}))
        R, RQ, k, g = kernel_inputs(kernel, S, Q, gamma)
        ref = refmodel(kernel=k, gamma=g, tol=1e-9, **args).fit(R, y, sample_weight=weights)
        ref._gram = gram(ref, R)
        same_svm(est, ref, S, Q, XQ, RQ, classes)
        equal(est.n_features_in_, S[0].shape[1], "number of features")
        require(np.array_equal(X, keep[0], equal_nan=True) and np.array_equal(XQ, keep[1], equal_nan=True), "input modified")
        if kernel == "linear":
            close(est.coef_, ref.coef_, "primal coefficients", **TOL)
        # one by one and as lists
        one = [est.predict([q])[0] for q in Q] if kernel == "gak" else [est.predict(q[None])[0] for q in Q]
        equal(np.array(one), est.predict(XQ), "series predicted alone") if classes else close(np.array(one), est.predict(XQ), "series predicted alone", **TOL)
        ctx.outcome(est.predict(XQ))
        ctx.states += len(Q) + 1
    ctx.traces += 1


def labellings(ctx, V):
    n = ctx.pick(5, 6)
    for d, var in ((1, True), (2, False), (1, False)):
        lens = ((3, 5, 4, 2, 5, 3) if var else (4,) * 6)[:n]
        S = data(5 + d, lens, d)
        Q = data(70 + d, (2, 6, 4) if var else (4, 4, 4), d)
        for y in itertools.product((0, 1, 2), repeat=n):
            if len(set(y)) == 1 or y[0] != 0 or (len(set(y)) == 3 and ctx.quick and sum(y) % 3):
                continue
            if not ctx.mine():
                continue
            for kernel, gamma in ((("gak", 8.),) if var else (("gak", 3.), ("rbf", .2)) if sum(y) % 2 else (("linear", 1.),)):
                verify(ctx, V.TimeSeriesSVC, SVC, kernel, gamma, S, Q, np.array(y), {}, dim=d)


def settings(ctx, V, M):
    kernels = [("gak", 2.), ("gak", 20.), ("linear", 1.), ("rbf", .1), ("rbf", "scale"), ("poly", .3), ("sigmoid", .05)]
    for (kernel, gamma), d in itertools.product(kernels, (1, 2)):
        var = kernel == "gak"
        S = data(31 + d, (3, 5, 4, 4, 5, 3) if var else (4,) * 6, d)
        Q = data(90 + d, (2, 6, 4) if var else (4, 4), d)
        y = np.array(["a", "b", "a", "c", "b", "c"])
        y2 = np.array([5, -1, 5, -1, -1, 5])
        for C, cw, shape, w in itertools.product((.3, 10.), (None, "balanced"), ("ovr", "ovo"), (None, (1., 2., .5, 1., 3., .1))):
            if not ctx.mine():
                continue
            extra = {"degree": 2, "coef0": .5} if kernel in ("poly", "sigmoid") else {}
            for lab in (y, y2):
                verify(ctx, V.TimeSeriesSVC, SVC, kernel, gamma, S, Q, lab, {"C": C, "class_weight": cw, "decision_function_shape": shape, **extra}, w, dim=d)
    # automatic bandwidths
    for d, seed in itertools.product((1, 2), range(ctx.pick(3, 8))):
        if not ctx.mine():
            continue
        S, Q = data(seed * 7 + d, (4,) * 5, d), data(seed + 50, (4,) * 3, d)
        X, XQ, y = P.pad(S), P.pad(Q), np.array([0, 1, 0, 1, 1])
        for model, refm, lab in ((V.TimeSeriesSVC, SVC, y), (V.TimeSeriesSVR, SVR, y + .5 * np.arange(5))):
            get = (lambda e, q: e.decision_function(q)) if model is V.TimeSeriesSVC else (lambda e, q: e.predict(q))
            with ctx.case("auto-gak", seed=seed, dim=d, model=model.__name__):
                g = float(M.gamma_soft_dtw(X, random_state=seed))
                auto = model(gamma="auto", random_state=seed, tol=1e-9).fit(X, lab)
                R, RQ, k, _ = kernel_inputs("gak", S, Q, g)
                close(get(auto, XQ), get(refm(kernel=k, tol=1e-9).fit(R, lab), RQ), "automatic bandwidth", **TOL)
                close(auto.gamma_, g, "stored bandwidth")
                # fitted again on other data: a new bandwidth
                S2 = [s * 3 for s in S]
                R2, RQ2, _, _ = kernel_inputs("gak", S2, Q, float(M.gamma_soft_dtw(P.pad(S2), random_state=seed)))
                close(get(auto.fit(P.pad(S2), lab), XQ), get(refm(kernel="precomputed", tol=1e-9).fit(R2, lab), RQ2), "after a second fit", **TOL)
            for kernel in ("rbf", "poly"):
                with ctx.case("auto-others", kernel=kernel, seed=seed, dim=d, model=model.__name__):
                    got = get(model(kernel=kernel, gamma="auto", random_state=seed, tol=1e-9).fit(X, lab), XQ)
                    close(got, get(refm(kernel=kernel, gamma="auto", tol=1e-9).fit(flat(S), lab), flat(Q)), "1 / n_features", **TOL)
        ctx.traces += 1
    # a callable kernel gets the flattened series
    for d in (1, 2):
        with ctx.case("callable-kernel", dim=d):
            S, Q, y = data(3, (4,) * 6, d), data(33, (4,) * 3, d), np.array([0, 1, 1, 0, 1, 0])
            ker = lambda a, b: (a @ b.T + 1) ** 2
            a, b = V.TimeSeriesSVC(kernel=ker, tol=1e-9).fit(P.pad(S), y), SVC(kernel=ker, tol=1e-9).fit(flat(S), y)
            close(a.decision_function(P.pad(Q)), b.decision_function(flat(Q)), "decision values", **TOL)


def proba(ctx, V):
    for kernel, ncls, seed in itertools.product(("gak", "rbf"), (2, 3), range(ctx.pick(2, 6))):
        if not ctx.mine():
            continue
        with ctx.case("probabilities", kernel=kernel, classes=ncls, seed=seed):
            S, Q = data(seed * 3, (4,) * 12, 1), data(seed + 40, (4,) * 4, 1)
            y = np.arange(12) % ncls
            R, RQ, k, g = kernel_inputs(kernel, S, Q, 4.)
            est = V.TimeSeriesSVC(kernel=kernel, gamma=4., probability=True, random_state=seed, tol=1e-9).fit(P.pad(S), y)
            ref = SVC(kernel=k, gamma=g, probability=True, random_state=seed, tol=1e-9).fit(R, y)
            close(est.predict_proba(P.pad(Q)), ref.predict_proba(RQ), "probabilities", rtol=1e-3, atol=1e-3)
            close(est.predict_log_proba(P.pad(Q)), np.log(est.predict_proba(P.pad(Q))), "log probabilities")
            close(est.predict_proba(P.pad(Q)).sum(1), np.ones(4), "sum of probabilities")
        ctx.traces += 1


def regress(ctx, V, M):
    for (kernel, gamma), d, C, eps, w in itertools.product((("gak", 2.), ("gak", 20.), ("linear", 1.), ("rbf", .1), ("poly", .3)), (1, 2), (.5, 20.), (.01, .3), (None, (1., 2., .5, 1., 3., .1))):
        if not ctx.mine():
            continue
        var = kernel == "gak"
        S = data(31 + d, (3, 5, 4, 4, 5, 3) if var else (4,) * 6, d)
        Q = data(90 + d, (2, 6, 4) if var else (4, 4), d)
        y = np.array([.5, -1.25, 3., 0., 2., .75])
        verify(ctx, V.TimeSeriesSVR, SVR, kernel, gamma, S, Q, y, {"C": C, "epsilon": eps, **({"degree": 2, "coef0": .5} if kernel == "poly" else {})}, w, False, dim=d)


BASE = dict(random_state=3, max_iter=20, hidden_layer_sizes=(3,))


def mlp_settings(ctx, N):
    for d, sz, solver, act, hidden, n in itertools.product((1, 2), (1, 3), ("lbfgs", "adam", "sgd"), ("relu", "tanh"), ((3,), (2, 2)), (6, 8)):
        if not ctx.mine():
            continue
        S, Q = data(d + sz, (sz,) * n, d), data(50, (sz,) * 3, d)
        for kind in ("class", "class3", "regression"):
            with ctx.case("mlp", dim=d, size=sz, solver=solver, activation=act, hidden=hidden, n=n, target=kind):
                y = np.array([str(k % (3 if kind == "class3" else 2)) for k in range(n)]) if kind != "regression" else np.round(flat(S).sum(1), 2)
                A, B = (N.TimeSeriesMLPRegressor, MLPRegressor) if kind == "regression" else (N.TimeSeriesMLPClassifier, MLPClassifier)
                kw = dict(BASE, solver=solver, activation=act, hidden_layer_sizes=hidden)
                X = np.stack(S)
                est, ref = A(**kw).fit(X.copy(), y), B(**kw).fit(flat(S), y)
                same_mlp(est, ref, Q)
                equal(est.n_features_in_, d, "number of features")
                if kind != "regression":
                    close(est.predict_log_proba(np.stack(Q)), ref.predict_log_proba(flat(Q)), "log probabilities")
                equal(est.score(X, y), ref.score(flat(S), y), "score")
            ctx.states += 1
        ctx.traces += 1


def same_mlp(est, ref, Q):
    XQ = np.stack(Q)
    close(np.array(est.predict(XQ), float), np.array(ref.predict(flat(Q)), float), "predictions")
    if hasattr(ref, "predict_proba"):
        close(est.predict_proba(XQ), ref.predict_proba(flat(Q)), "probabilities")
        equal(list(map(str, est.classes_)), list(map(str, ref.classes_)), "classes")
    for k, (a, b) in enumerate(zip(est.coefs_ + est.intercepts_, ref.coefs_ + ref.intercepts_)):
        close(a, b, f"weights {k}")


def mlp_histories(ctx, N):
    """Every sequence of operations; the scikit-learn model does the same on flattened series."""
    d = 2
    sets = {"A": data(3, (3,) * 6, d), "B": data(80, (3,) * 4, d), "L": data(120, (4,) * 6, d)}
    Q = {3: data(60, (3,) * 2, d), 4: data(61, (4,) * 2, d)}
    for kind, solver, warm, depth in itertools.product(("class", "regression"), ("lbfgs", "sgd", "adam"), (False, True), (ctx.pick(3, 4),)):
        ops = ["fitA", "fitB", "predict"] + ([] if solver == "lbfgs" else ["partA", "partB"]) + (["fitL"] if not warm else [])
        for seq in itertools.product(ops, repeat=depth):
            if seq[0] == "predict" or seq[-1] == "predict" or not ctx.mine():
                continue
            # incremental fits need the size of the first one
            size, fine = None, True
            for o in seq:
                if o[:3] == "fit":
                    size = len(sets[o[-1]][0])
                elif o[:4] == "part":
                    fine &= size in (None, 3)
                    size = size or 3
            if not fine:
                continue
            with ctx.case("mlp-history", target=kind, solver=solver, warm_start=warm, operations=seq):
                A, B = (N.TimeSeriesMLPRegressor, MLPRegressor) if kind == "regression" else (N.TimeSeriesMLPClassifier, MLPClassifier)
                kw = dict(BASE, solver=solver, warm_start=warm, max_iter=6)
                est, ref, size = A(**kw), B(**kw), 3
                for o in seq:
                    if o == "predict":
                        same_mlp(est, ref, Q[size])
                        continue
                    S = sets[o[-1]]
                    y = np.array([k % 2 for k in range(len(S))]) if kind == "class" else np.round(flat(S).sum(1), 2)
                    if o[:3] == "fit":
                        size = len(S[0])
                        est.fit(np.stack(S), y)
                        ref.fit(flat(S), y)
                    else:
                        extra = {"classes": [0, 1]} if kind == "class" else {}
                        est.partial_fit(np.stack(S), y, **extra)
                        ref.partial_fit(flat(S), y, **extra)
                    equal(est.n_features_in_, d, f"number of features after {o}")
                same_mlp(est, ref, Q[size])
                ctx.outcome(est.predict(np.stack(Q[size])))
            ctx.states += len(seq)
            ctx.transitions += len(seq)
            ctx.traces += 1
