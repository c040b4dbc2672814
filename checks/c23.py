"""C23: streaming early classification equals batch early classification."""
import itertools
import warnings

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin

from mc.core import close, equal, require

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of the streaming predictor: states are the prefixes received, transitions feed one more chunk; every chunking of every enumerated series, every interleaving "
             "of two streams with invalid and empty feeds in between, compared with an independent model of the decision rule and with batch prediction")
SHARDS = 6
RULE = ("every series over an alphabet of 2..3 values with the model's length (4..5, one and two features) x every chunking (all compositions) x fitted models of several cluster counts, minimum times, "
        "costs and base classifiers; every interleaving of two streams; wrongly shaped chunks at every position")
ASSUMPTIONS = ["streams of at most the training length, finite samples (trailing NaNs of one of several parallel series mean it has ended)",
               "where two delays have equal expected cost up to 1e-9 either may be reported, the same in batch and stream"]


class Rule(ClassifierMixin, BaseEstimator):
    """A classifier of prefixes by a fixed rule; notes what it is asked while its owner is fitted."""
    log = None

    def fit(self, X, y):
        self.classes_ = np.unique(y)
        self.t_ = np.asarray(X).shape[1]
        if Rule.log is not None:
            Rule.log.append(("fit", np.array(X), np.array(y)))
        return self

    def _index(self, X):
        X = np.asarray(X, float)
        X = X.reshape(len(X), X.shape[1], -1)
        return (np.floor(np.abs(X).sum((1, 2)) * 1.7 + X[:, -1, 0]).astype(int)) % len(self.classes_)

    def predict(self, X):
        if Rule.log is not None:
            Rule.log.append(("predict", np.array(X), self.t_))
        return self.classes_[self._index(X)]

    def predict_proba(self, X):
        out = np.full((len(X), len(self.classes_)), .2 / max(1, len(self.classes_) - 1))
        out[np.arange(len(X)), self._index(X)] = .8
        return out


def words(alphabet, l, d):
    return np.array(list(itertools.product(alphabet, repeat=l * d)), float).reshape(-1, l, d)


def training(d, T, n=12, classes=2):
    from mc.elastic import series
    X = np.array([np.round(series(100 + k, T, d), 2) + 2.5 * (k % 3 - 1) for k in range(n)])
    y = np.array([(k * k + k // 3) % classes for k in range(n)])
    return X, y


def coincident(T):
    """Series that all start alike (all cluster centres coincide with the first sample)."""
    X = np.array([[0.] + [(-1.) ** k * (t + k // 4) for t in range(1, T)] for k in range(8)])[..., None]
    return X, np.array([0, 1] * 3 + [0, 0])


def models(ctx):
    from tslearn.early_classification import NonMyopicEarlyClassifier as NM
    from tslearn.neighbors import KNeighborsTimeSeriesClassifier as KNN
    T = 4
    out = []
    grid = [(1, 2, 1., .05, None), (2, 2, 100., .02, None), (1, 3, 1., .1, Rule()), (3, 2, 5., 0., Rule()), (4, 2, 1., .1, None),
            (1, 2, 0., .01, KNN(n_neighbors=2, metric="euclidean", weights="uniform")), (2, 3, 1000., .3, Rule()), (1, 1, 1., .02, Rule())]
    for k, (min_t, ncl, lamb, cost, base) in enumerate(grid):
        for d, classes in ((1, 2), (1, 3), (2, 2)):
            if ctx.quick and (k + d + classes) % 2 and k > 2:
                continue
            out.append((dict(min_t=min_t, n_clusters=ncl, lamb=lamb, cost_time_parameter=cost, base_classifier=base, random_state=k), (d, T, 12, classes)))
    out.append((dict(n_clusters=2, lamb=10., cost_time_parameter=.05, random_state=0), "coincident"))
    out.append((dict(n_clusters=2, lamb=2., cost_time_parameter=.01, base_classifier=Rule(), random_state=1), (1, 5, 12, 2)))
    for params, data in out:
        X, y = coincident(T) if data == "coincident" else training(*data)
        yield params, data, X, y, NM


class Model:
    """Decision rule recomputed from the fitted parameters by the documented formulas."""

    def __init__(self, m, T):
        self.m, self.T = m, T

    def probas(self, x):
        D = np.array([np.sqrt(((c[:len(x)] - x) ** 2).sum()) for c in self.m.cluster_.cluster_centers_])
        mean = D.mean()
        delta = (mean - D) / mean if mean else np.zeros(len(D))
        with np.errstate(over="ignore"):
            s = 1 / (1 + np.exp(-self.m.lamb * delta))
        return s / s.sum()

    def costs(self, x):
        P = self.probas(x)
        out = []
        for t in range(len(x), self.T + 1):
            c = 0.
            for k, y in itertools.product(range(len(P)), range(len(self.m.pyck_))):
                c += P[k] * self.m.pyck_[y, k] * self.m.pyhatyck_[t - self.m.min_t, k, y].sum()
            out.append(c + self.m.cost_time_parameter * t)
        return np.array(out)

    def label(self, x, proba):
        clf = self.m.classifiers_[len(x)]
        return (clf.predict_proba if proba else clf.predict)(x[None])[0]

    def at(self, x, proba):
        """Expected label and the set of delays of least cost after the samples x."""
        if len(x) < self.m.min_t:
            return None, None
        c = self.costs(x)
        return self.label(x, proba), set(np.flatnonzero(c <= c.min() + 1e-9).tolist())


def same(got, want, what):
    g, w = np.asarray(got), np.asarray(want)
    require(g.shape == w.shape and np.array_equal(g, w, equal_nan=True), f"{what}: got {g.tolist()!r:.200} expected {w.tolist()!r:.200}")


def compositions(n):
    for cut in itertools.product((0, 1), repeat=n - 1):
        out, last = [], 0
        for k, c in enumerate(cut):
            if c:
                out.append(k + 1 - last)
                last = k + 1
        yield out + [n - last]


def run(ctx):
    for n, (params, data, X, y, NM) in enumerate(models(ctx)):
        if not ctx.mine():
            continue
        T, d = X.shape[1:]
        name = {k: v if not isinstance(v, BaseEstimator) else type(v).__name__ for k, v in params.items()}
        fitted = []
        with ctx.case("fit", model=name, data=data):
            Rule.log = []
            m = NM(**params).fit(X.copy(), y.copy())
            log, Rule.log = Rule.log, None
            fitted.append(m)
            parameters(m, X, y, log)
        Rule.log = None
        if not fitted:
            continue
        m = fitted[0]
        ref = Model(m, T)
        al = (-2.5, .3, 2.) if d == 1 and T == 4 else (-2., .8) if d == 1 else (-1., 1.5)
        W = words(al, T, d)
        if d == 2:
            W = W[::5] if ctx.quick else W
        if ctx.quick:
            W = W[n % 2::2]
        W = np.concatenate([W, X])
        table = {}
        with ctx.case("batch-prefixes", model=name, data=data):
            for t in range(1, T + 1):
                for proba in (False, True):
                    got = (m.early_predict_proba if proba else m.early_predict)(W[:, :t].copy())
                    for i, x in enumerate(W):
                        lab, taus = ref.at(x[:t], proba)
                        if lab is None:
                            require(np.isnan(got[1][i]) and np.isnan(np.asarray(got[0][i], float)).all(), "a decision before the minimum time")
                        else:
                            close(got[0][i], lab, "label at a prefix", atol=1e-12)
                            require(int(got[1][i]) in taus, f"delay {got[1][i]} of the prefix {x[:t].ravel().tolist()} is none of {taus}")
                        table[proba, x[:t].tobytes()] = (got[0][i], got[1][i])
                        ctx.states += 1
                    if t >= m.min_t:
                        for x in W[:20]:
                            close(m.get_cluster_probas(x[:t]), ref.probas(x[:t]), "cluster probabilities", atol=1e-9)
                            close(m.get_cluster_probas(x[:t]).sum(), 1., "total cluster probability")
        batch(ctx, m, ref, W, table, name, data, X, y)
        for i, x in enumerate(W):
            for proba in (False, True):
                with ctx.case("chunkings", model=name, data=data, series=x, proba=proba):
                    for parts in compositions(T):
                        gen = generator(m, proba)
                        t = 0
                        for size in parts:
                            chunk = x[None, t:t + size].copy()
                            got = gen.send(chunk if (i + t) % 3 else chunk.tolist())
                            chunk[:] = 77.      # the stream must have taken its own copy
                            t += size
                            lab, tau = table[proba, x[:t].tobytes()]
                            same(got[0], [lab], f"label after chunks {parts} at {t}")
                            same(got[1], [tau], f"delay after chunks {parts} at {t}")
                            ctx.transitions += 1
                    ctx.outcome([table[proba, x[:t].tobytes()][1] for t in range(1, T + 1)], name, proba)
                ctx.traces += 1
        parallel(ctx, m, W, table, name, data)
        streams(ctx, m, W, table, name, data)


def generator(m, proba, n=1):
    return (m.get_early_predict_proba_generator if proba else m.get_early_predict_generator)(n)


def parameters(m, X, y, log):
    """The fitted probabilities are those of the training data."""
    labels = np.unique(y)
    c = m.cluster_.predict(X)
    for k in range(m.n_clusters):
        for a, lab in enumerate(labels):
            close(m.pyck_[a, k], ((c == k) & (y == lab)).sum() / (c == k).sum(), "P(class | cluster)")
    if not log:
        return
    T = X.shape[1]
    for t in range(m.min_t, T + 1):
        asked = {a[i].tobytes() for what, a, tt in log if what == "predict" and tt == t for i in range(len(a))}
        second = [i for i in range(len(X)) if np.ascontiguousarray(X[i, :t]).tobytes() in asked]
        trained = {a[i].tobytes() for what, a, *_ in log if what == "fit" and a.shape[1] == t for i in range(len(a))}
        first = [i for i in range(len(X)) if np.ascontiguousarray(X[i, :t]).tobytes() in trained]
        equal(sorted(first + second), list(range(len(X))), "halves of the training data")
        hat = m.classifiers_[t].predict(X[:, :t])
        for k, (a, la) in itertools.product(range(m.n_clusters), enumerate(labels)):
            rows = [i for i in second if c[i] == k and y[i] == la]
            for b, lb in enumerate(labels):
                want = 0. if a == b or not rows else np.mean([hat[i] == lb for i in rows])
                close(m.pyhatyck_[t - m.min_t, k, a, b], want, f"P(prediction | class, cluster) at {t}")


def batch(ctx, m, ref, W, table, name, data, X, y):
    T = W.shape[1]
    with ctx.case("batch-full", model=name, data=data):
        Z = W.copy()
        lab, when = m.predict_class_and_earliness(Z)
        pro, when2 = m.predict_proba_and_earliness(Z)
        equal(Z, W, "input modified")
        for i, x in enumerate(W):
            t = next(t for t in range(m.min_t, T + 1) if t == T or table[False, x[:t].tobytes()][1] == 0)
            require(m.min_t <= when[i] <= T, "decision time out of range")
            equal((int(when[i]), int(when2[i])), (t, t), f"decision time of {x.ravel().tolist()}")
            equal(lab[i], table[False, x[:t].tobytes()][0], "label")
            close(pro[i], table[True, x[:t].tobytes()][0], "probabilities", atol=1e-12)
            close(pro[i].sum(), 1., "total probability")
        equal(m.predict(W), lab, "predict")
        equal(m.predict_proba(W), pro, "predict_proba")
        for k in range(0, len(W), 7):
            one = m.predict_class_and_earliness(W[k:k + 1])
            equal((one[0][0], int(one[1][0])), (lab[k], int(when[k])), "alone")
        truth = np.resize(y, len(W))
        close(m.early_classification_cost(W, truth), np.mean(truth != lab) + m.cost_time_parameter * np.mean(when), "cost", atol=1e-12)
        l2, w2 = m.predict_class_and_earliness(X)
        close(m.early_classification_cost(X, y), np.mean(y != l2) + m.cost_time_parameter * np.mean(w2), "cost", atol=1e-12)
    with ctx.case("too-long", model=name, data=data):
        for fn in (m.early_predict, m.early_predict_proba):
            try:
                fn(np.concatenate([W[:1], W[:1]], 1))
            except ValueError:
                continue
            require(False, "prediction for a series longer than those of training")


def parallel(ctx, m, W, table, name, data):
    """Several series in one stream; some end before the others."""
    T, d = W.shape[1:]
    idx = range(0, len(W), max(1, len(W) // 8))
    for n_ts in (2, 3):
        for k in idx:
            who = [(k + 5 * j) % len(W) for j in range(n_ts)]
            for proba, parts in itertools.product((False, True), compositions(T)):
                for end in (None, 1, 2):
                    if end is not None and (len(parts) != T or end < m.min_t):
                        continue
                    with ctx.case("parallel", model=name, data=data, series=W[who], proba=proba, parts=parts, first_ends=end):
                        gen, t = generator(m, proba, n_ts), 0
                        for size in parts:
                            chunk = W[who, t:t + size].copy()
                            if end is not None:
                                chunk[0, max(0, end - t):] = np.nan
                            got = gen.send(chunk)
                            t += size
                            for j, w in enumerate(who):
                                s = min(t, end) if end and j == 0 else t
                                lab, tau = table[proba, W[w][:s].tobytes()]
                                same(got[0][j], lab, f"label of series {j} at {t}")
                                same(got[1][j], tau, f"delay of series {j} at {t}")
                            ctx.transitions += 1
                    ctx.traces += 1


def streams(ctx, m, W, table, name, data):
    """Every interleaving of two streams (and of predictions in between); wrongly shaped and empty feeds."""
    T, d = W.shape[1:]
    pairs = [(0, 1), (2, len(W) - 1), (len(W) // 2, len(W) - 3)]
    for a, b in pairs[:ctx.pick(2, 3)]:
        for turn in itertools.product((0, 1), repeat=2 * T):
            if sum(turn) != T:
                continue
            with ctx.case("interleaving", model=name, data=data, series=(W[a], W[b]), turn=turn):
                gens, pos, who = [generator(m, False), generator(m, bool(sum(turn[:3]) % 2))], [0, 0], (a, b)
                proba = (False, bool(sum(turn[:3]) % 2))
                for n, g in enumerate(turn):
                    x = W[who[g]]
                    got = gens[g].send(x[None, pos[g]:pos[g] + 1])
                    pos[g] += 1
                    lab, tau = table[proba[g], x[:pos[g]].tobytes()]
                    same(got[0], [lab], f"label of stream {g} at {pos[g]}")
                    same(got[1], [tau], f"delay of stream {g} at {pos[g]}")
                    if n % 4 == 1:
                        got = m.early_predict(W[who[1 - g]][None, :T - 1])
                        same(got[1][0], table[False, W[who[1 - g]][:T - 1].tobytes()][1], "batch prediction in between")
                    ctx.transitions += 1
            ctx.traces += 1
    wrong = [("features", np.zeros((1, 1, d + 1))), ("series", np.zeros((2, 1, d))), ("ndim", np.zeros((1, d))), ("empty", np.zeros((1, 0, d))), ("none", None), ("next", "next"), ("scalar", 3.)]
    for (label, bad), at, a, proba in itertools.product(wrong, range(T + 1), (0, len(W) // 3), (False, True)):
        with ctx.case("ignored-feed", model=name, data=data, series=W[a], feed=label, at=at, proba=proba):
            gen, x = generator(m, proba), W[a]
            for t in range(T + 1):
                if t == at:
                    for _ in range(2):
                        with warnings.catch_warnings(record=True) as seen:
                            warnings.simplefilter("always")
                            got = next(gen) if label == "next" else gen.send(bad)
                        if t:
                            lab, tau = table[proba, x[:t].tobytes()]
                            same(got[0], [lab], "label unchanged")
                            same(got[1], [tau], "delay unchanged")
                        else:
                            require(np.isnan(got[1]).all(), "a decision before any sample")
                        told = any(issubclass(w.category, RuntimeWarning) and "Invalid incoming" in str(w.message) for w in seen)
                        equal(told, label in ("features", "series", "ndim", "scalar"), "warning")
                if t < T:
                    got = gen.send(x[None, t:t + 1])
                    lab, tau = table[proba, x[:t + 1].tobytes()]
                    same(got[0], [lab], f"label at {t + 1}")
                    same(got[1], [tau], f"delay at {t + 1}")
                ctx.transitions += 1
        ctx.traces += 1
