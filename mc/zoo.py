"""All estimators of the library in small configurations, with data and observations.

Used by the history checks (C14, C15), the concurrency check (C30) and the
representation check (C11).
"""
import copy

import numpy as np

from .elastic import series
from .paths import pad


def _ds(lens, d, seed, shift=0.):
    out = []
    for k, l in enumerate(lens):
        s = series(seed + k, l, d) * .4
        s += (np.sin(np.arange(l) * 1.1 + (k % 2) * 2.) * 2 + (k % 2) * 1.5 + shift)[:, None]
        out.append(s)
    return out


class Data:
    """One training set with queries."""

    def __init__(self, lens, qlens, d, seed, ncls=2):
        self.S, self.Q = _ds(lens, d, seed), _ds(qlens, d, seed + 100)
        self.X, self.XQ = pad(self.S), pad(self.Q)
        self.lens, self.d = lens, d
        self.y = np.array([k % ncls for k in range(len(lens))])
        self.yr = np.array([round(float(s.sum()), 3) for s in self.S])


def datasets(var, d):
    if var:
        return {"A": Data((6, 4, 5, 6, 6, 5), (5, 6, 3), d, 3), "B": Data((5, 7, 4, 6, 7), (4, 7), d, 40)}
    return {"A": Data((6,) * 6, (6,) * 3, d, 3), "B": Data((7,) * 5, (7,) * 2, d, 40)}


class E:
    def __init__(self, name, make, var=False, y=None, d=1, queries=None, variants=(), bad=(), cost=1, fmt=(), skip=()):
        self.name, self.make, self.var, self.ykind, self.d = name, make, var, y, d
        self.queries, self.variants, self.bad, self.cost, self.fmt, self.skip = queries or {}, list(variants), bad, cost, fmt, skip
        self.data = datasets(var, d)

    def y(self, D):
        return {None: None, "c": D.y, "r": D.yr}[self.ykind]

    def fit(self, est, D):
        y = self.y(D)
        return est.fit(D.X.copy()) if y is None else est.fit(D.X.copy(), y.copy())


def q_predict(e, D):
    return e.predict(D.XQ.copy())


def q_predict_train(e, D):
    return e.predict(D.X.copy())


def q_transform(e, D):
    return e.transform(D.XQ.copy())


def q_proba(e, D):
    return e.predict_proba(D.XQ.copy())


def q_decision(e, D):
    return e.decision_function(D.XQ.copy())


def q_kn(e, D):
    return e.kneighbors(D.XQ.copy(), n_neighbors=2)


def q_kn_ind(e, D):
    return e.kneighbors(D.XQ.copy(), return_distance=False)


def q_attrs(e, D):
    return {}


def q_roundtrip(e, D):
    r = e.transform(D.XQ.copy())
    return e.inverse_transform(r)


def q_distance(e, D):
    return e.distance(D.XQ[0].copy(), D.XQ[1].copy())


def q_forecast(e, D):
    return e.predict(n=3)


def q_forecast_x(e, D):
    return e.predict(D.XQ.copy(), n=2)


def q_early(e, D):
    return e.predict_class_and_earliness(D.XQ.copy())


def q_early_stream(e, D):
    g = e.get_early_predict_generator(len(D.XQ))
    return [g.send(D.XQ[:, t:t + 1].copy()) for t in range(D.XQ.shape[1])]


def q_locate(e, D):
    return e.locate(D.XQ.copy())


def menu(slow=False):
    from tslearn.barycenters import softdtw_barycenter  # noqa: F401
    from tslearn.clustering import TimeSeriesKMeans, KernelKMeans, KShape, TimeSeriesDBSCAN
    from tslearn.neighbors import KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier, KNeighborsTimeSeriesRegressor
    from tslearn.svm import TimeSeriesSVC, TimeSeriesSVR
    from tslearn.neural_network import TimeSeriesMLPClassifier, TimeSeriesMLPRegressor
    from tslearn.piecewise import PiecewiseAggregateApproximation, SymbolicAggregateApproximation, OneD_SymbolicAggregateApproximation
    from tslearn.preprocessing import (TimeSeriesScalerMinMax, TimeSeriesScalerMeanVariance, TimeSeriesResampler, TimeSeriesImputer,
                                       TimeSeriesFeatureSynchronizer)
    from tslearn.early_classification import NonMyopicEarlyClassifier
    from tslearn.forecasting import VARIMA, AutoVARIMA
    from tslearn.matrix_profile import MatrixProfile
    P, T = {"predict": q_predict}, {"transform": q_transform}
    all3 = ("hdf5", "json", "pickle")
    sc = {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 2}
    out = []
    add = lambda *a, **k: out.append(E(*a, **k))
    # -- clustering
    km = lambda **k: (lambda: TimeSeriesKMeans(n_clusters=2, random_state=0, max_iter=4, max_iter_barycenter=5, **k))
    PT = {"predict": q_predict, "predict_train": q_predict_train, "transform": q_transform}
    add("kmeans-euclidean", km(), queries=PT, variants=[{"n_clusters": 3}, {"metric": "dtw"}], fmt=all3)
    add("kmeans-dtw", km(metric="dtw", metric_params=dict(sc)), var=True, queries=PT,
        variants=[{"metric_params": None}, {"init": "random", "n_init": 2}], bad=({"metric_params": {"bogus": 1}},), fmt=all3)
    add("kmeans-softdtw", km(metric="softdtw", metric_params={"gamma": .5}, dtw_inertia=True), var=True, queries=PT,
        variants=[{"metric_params": {"gamma": 2.}}], bad=({"metric": "bogus"},), fmt=all3)
    add("kernel-kmeans-gak", lambda: KernelKMeans(n_clusters=2, kernel="gak", kernel_params={"sigma": "auto"}, random_state=0),
        var=True, queries={"predict": q_predict, "predict_train": q_predict_train},
        variants=[{"kernel_params": {"sigma": 3.}}, {"kernel_params": None}, {"kernel": "rbf", "kernel_params": {"gamma": .1}}],
        bad=({"kernel": "bogus"},), fmt=all3)
    add("kernel-kmeans-rbf", lambda: KernelKMeans(n_clusters=2, kernel="rbf", kernel_params={"gamma": .1}, random_state=0),
        queries={"predict": q_predict}, variants=[{"kernel": "gak", "kernel_params": {"sigma": "auto"}}, {"kernel_params": None}], fmt=all3)
    add("kshape", lambda: KShape(n_clusters=2, random_state=0, max_iter=4), queries={"predict": q_predict, "predict_train": q_predict_train},
        variants=[{"n_clusters": 3}, {"n_init": 2}], bad=({"init": "bogus"},), cost=2, fmt=all3)
    add("dbscan-dtw", lambda: TimeSeriesDBSCAN(eps=2.5, min_ts=2, metric_params=dict(sc)), var=True, queries={"attrs": q_attrs},
        variants=[{"eps": 1.}, {"metric": "softdtw_normalized", "metric_params": {"gamma": .5}}, {"metric": "frechet", "metric_params": None}],
        bad=({"metric": "bogus"},), fmt=("hdf5", "json", "pickle"))
    # -- neighbours
    kn = {"kneighbors": q_kn, "indices": q_kn_ind}
    pc = {"predict": q_predict, "proba": q_proba, "kneighbors": q_kn}
    for m, mp, var in (("dtw", dict(sc), True), ("softdtw", {"gamma": .5}, True), ("frechet", None, True), ("ctw", {"max_iter": 5}, True),
                       ("euclidean", None, False), ("cityblock", None, False), ("sax", {"n_segments": 2, "alphabet_size_avg": 5}, False)):
        oth = [{"metric": "frechet" if m != "frechet" else "dtw", "metric_params": None}, {"n_neighbors": 1}]
        if not var:
            oth.append({"metric": "cityblock" if m != "cityblock" else "euclidean", "metric_params": None})
        else:
            oth.append({"metric_params": dict(sc)} if m != "dtw" else {"metric_params": None})
        bad = ({"metric": "bogus"}, {"metric_params": {"bogus": 1}}) if m not in ("euclidean", "cityblock") else ({"metric": "bogus"},)
        if m != "sax":
            add("knn-" + m, lambda m=m, mp=mp: KNeighborsTimeSeries(n_neighbors=2, metric=m, metric_params=copy.copy(mp)), var=var,
                queries=kn, variants=oth, bad=bad, fmt=all3, cost=2 if m == "ctw" else 1)
        add("knnc-" + m, lambda m=m, mp=mp: KNeighborsTimeSeriesClassifier(n_neighbors=2, metric=m, metric_params=copy.copy(mp), weights="distance"),
            var=var, y="c", queries=pc if m != "sax" else {"predict": q_predict, "proba": q_proba}, variants=oth, bad=bad, fmt=all3, cost=2 if m == "ctw" else 1)
        add("knnr-" + m, lambda m=m, mp=mp: KNeighborsTimeSeriesRegressor(n_neighbors=2, metric=m, metric_params=copy.copy(mp)), var=var, y="r",
            queries={"predict": q_predict, "kneighbors": q_kn} if m != "sax" else P, variants=oth, bad=bad, fmt=all3, cost=2 if m == "ctw" else 1)
    # -- SVM, MLP
    add("svc-gak", lambda: TimeSeriesSVC(gamma="auto", random_state=0), var=True, y="c", queries={"predict": q_predict, "decision": q_decision},
        variants=[{"gamma": 30.}, {"C": .1}], bad=({"kernel": "bogus"},))
    add("svc-rbf", lambda: TimeSeriesSVC(kernel="rbf", gamma=.1, random_state=0), y="c", queries={"predict": q_predict, "decision": q_decision},
        variants=[{"kernel": "gak", "gamma": "auto"}, {"kernel": "linear"}])
    add("svr-gak", lambda: TimeSeriesSVR(gamma="auto", random_state=0), var=True, y="r", queries=P, variants=[{"gamma": 30.}, {"epsilon": .5}])
    add("svr-linear", lambda: TimeSeriesSVR(kernel="linear", gamma=1., random_state=0), y="r", queries=P, variants=[{"kernel": "gak", "gamma": "auto"}])
    mlp = dict(hidden_layer_sizes=(3,), max_iter=5, random_state=0, solver="lbfgs")
    add("mlpc", lambda: TimeSeriesMLPClassifier(**mlp), y="c", queries={"predict": q_predict, "proba": q_proba}, variants=[{"hidden_layer_sizes": (2,)}],
        bad=({"solver": "bogus"},))
    add("mlpr", lambda: TimeSeriesMLPRegressor(**mlp), y="r", queries=P, variants=[{"alpha": 1.}], bad=({"solver": "bogus"},))
    # -- representations
    TR = {"transform": q_transform, "inverse": q_roundtrip, "distance": q_distance}
    add("paa", lambda: PiecewiseAggregateApproximation(n_segments=2), queries=TR, variants=[{"n_segments": 3}], fmt=all3)
    add("sax", lambda: SymbolicAggregateApproximation(n_segments=2, alphabet_size_avg=4, scale=True), queries=TR,
        variants=[{"scale": False}, {"n_segments": 3, "alphabet_size_avg": 6}], fmt=all3)
    add("1dsax", lambda: OneD_SymbolicAggregateApproximation(n_segments=3, alphabet_size_avg=4, alphabet_size_slope=3, scale=True),
        queries={"transform": q_transform, "distance": q_distance}, variants=[{"scale": False}, {"sigma_l": .5}], fmt=all3)
    # -- preprocessing
    for d in (1, 2):
        add(f"minmax-series-{d}", lambda: TimeSeriesScalerMinMax((-1., 2.)), var=True, d=d, queries=T, variants=[{"per_timeseries": False}, {"per_feature": False}])
        add(f"meanvar-{d}", lambda: TimeSeriesScalerMeanVariance(1., 2., per_timeseries=False), var=True, d=d, queries=T,
            variants=[{"per_timeseries": True}, {"per_feature": False}])
    add("minmax-dataset", lambda: TimeSeriesScalerMinMax(per_timeseries=False), var=True, d=2, queries=T, variants=[{"value_range": (3., 5.)}],
        bad=({"value_range": (2., 1.)},))
    add("resampler", lambda: TimeSeriesResampler(sz=4), var=True, d=2, queries=T, variants=[{"sz": 9}, {"sz": 1}])
    add("imputer", lambda: TimeSeriesImputer("linear"), var=True, d=2, queries=T, variants=[{"method": "ffill"}, {"keep_trailing_nans": False}],
        bad=({"method": "bogus"},))
    add("synchronizer", lambda: TimeSeriesFeatureSynchronizer(), var=True, d=2, queries=T, variants=[{"reference_feature_index": 1}])
    add("matrix-profile", lambda: MatrixProfile(subsequence_length=3), queries=T, variants=[{"subsequence_length": 2}, {"scale": False}],
        bad=({"implementation": "bogus"},), fmt=all3)
    # -- early classification, forecasting
    add("early", lambda: NonMyopicEarlyClassifier(n_clusters=2, lamb=10., cost_time_parameter=.02, random_state=0), y="c",
        queries={"predict": q_predict, "early": q_early, "stream": q_early_stream}, variants=[{"min_t": 2}, {"cost_time_parameter": .5}], cost=2)
    add("varima-110", lambda: VARIMA(1, 1, 0), queries={"forecast": q_forecast, "forecast_x": q_forecast_x}, variants=[{"p": 0}, {"d": 0}], cost=2, fmt=("hdf5", "json", "pickle"))
    add("varima-001", lambda: VARIMA(0, 0, 1, max_iter=5), var=False, queries={"forecast": q_forecast, "forecast_x": q_forecast_x},
        variants=[{"with_constant": False}, {"seasonal_period": 2}], fmt=("hdf5", "json", "pickle"))
    add("autovarima", lambda: AutoVARIMA(max_p=1, max_d=1, max_q=0, max_iter=3), queries={"forecast": q_forecast}, variants=[{"max_p": 0}], cost=3, fmt=("hdf5", "json", "pickle"))
    if slow:
        from tslearn.shapelets import LearningShapelets, shapelets
        try:            # 10000 draws by default, to initialise the shapelets
            if shapelets._kmeans_init_shapelets.__defaults__ == (10000,):
                shapelets._kmeans_init_shapelets.__defaults__ = (200,)
        except AttributeError:
            pass
        add("shapelets", lambda: LearningShapelets({3: 2, 2: 1}, max_iter=2, random_state=0, scale=True), var=True, y="c",
            queries={"predict": q_predict, "proba": q_proba, "transform": q_transform, "locate": q_locate},
            variants=[{"max_size": 9}, {"scale": False}], bad=({"n_shapelets_per_size": {20: 1}},), cost=20, fmt=("json", "pickle"))
    return out


# -- observations ---------------------------------------------------------------

def fitted(est):
    """Public fitted attributes."""
    out = {}
    for k in dir(est):
        if k.endswith("_") and not k.startswith("_") and not isinstance(getattr(type(est), k, None), property):
            try:
                v = getattr(est, k)
            except Exception:
                continue
            if not callable(v):
                out[k] = v
    return out


def diff(a, b, where=""):
    """First difference between two observations, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(map(str, a)) != sorted(map(str, b)):
            return f"{where}: keys {sorted(map(str, a))} vs {sorted(map(str, b))}"
        bb = {str(k): v for k, v in b.items()}
        for k in a:
            r = diff(a[k], bb[str(k)], f"{where}[{k!r}]")
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{where}: lengths {len(a)} vs {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, f"{where}[{i}]")
            if r:
                return r
        return None
    num = (int, float, np.number, np.ndarray, bool, np.bool_)
    if isinstance(a, num + (list, tuple)) and isinstance(b, num + (list, tuple)):
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype == object or y.dtype == object:
            return diff(list(x), list(y), where)
        if x.shape != y.shape:
            return f"{where}: shape {x.shape} vs {y.shape}"
        if x.dtype.kind in "fc" or y.dtype.kind in "fc":
            if not np.allclose(x, y, rtol=1e-6, atol=1e-8, equal_nan=True):
                return f"{where}: {x.tolist()!r:.300} vs {y.tolist()!r:.300}"
        elif not np.array_equal(x, y):
            return f"{where}: {x.tolist()!r:.300} vs {y.tolist()!r:.300}"
        return None
    if a is None or b is None or isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return None if (a is b or (isinstance(a, type(b)) and a == b)) else f"{where}: {a!r:.200} vs {b!r:.200}"
    if hasattr(a, "get_params") and hasattr(b, "get_params"):
        return diff(a.get_params(), b.get_params(), where + ".params") or diff(fitted(a), fitted(b), where)
    if type(a) is type(b):
        return None          # opaque objects (models, trees, ...): seen through the queries
    return f"{where}: {type(a)} vs {type(b)}"


def share(ctx, entries):
    """The part of the entries that this process of a sharded check works on: whole families, as they share compiled code."""
    weight = {"kshape": 20, "kmeans": 20, "knn": 12, "knnc": 12, "knnr": 10, "1dsax": 8, "sax": 5, "paa": 4, "varima": 8,
              "autovarima": 8, "kernel": 6, "shapelets": 10}
    family = lambda e: e.name.split("-")[0]
    load = [0] * ctx.shard[1]
    owner = {}
    for f in sorted({family(e) for e in entries}, key=lambda f: (-weight.get(f, 2), f)):
        k = load.index(min(load))
        load[k] += weight.get(f, 2) 
        owner[f] = k
    return [e for e in entries if owner[family(e)] == ctx.shard[0]]
