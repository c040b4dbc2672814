"""C14: saving and reloading a model preserves its behaviour in every format."""
import copy
import itertools
import os
import tempfile
import warnings

import numpy as np

from mc import zoo
from mc.core import require, Mismatch, equal

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of life histories of the real estimators with save/load transitions in every format, "
             "each compared with a twin that lived the same history without ever being saved")
SHARDS = 5
RULE = ("for every serialisable estimator and parameter variant: all histories up to the depth over {fit A, fit B, query, "
        "save+load in each format}; after each save the saved object is unchanged, and after each load the loaded object has "
        "the parameters, fitted attributes, predictions, transforms and distances of its twin")
ASSUMPTIONS = ["histories of one fit followed by at most 2 (quick) / 3 (thorough) operations", "two datasets per estimator",
               "containers may change type (tuple, list, array) when a format has no such distinction"]
OPAQUE = ("model_", "transformer_model_", "locator_model_")


def public(est):
    return {k: v for k, v in zoo.fitted(est).items() if k not in OPAQUE}


def observe(z, est, D):
    out = {"params": est.get_params(deep=False), "fitted": public(est)}
    for name, q in z.queries.items():
        try:
            out[name] = q(est, D)
        except Exception as e:
            out[name] = "raised " + type(e).__name__
    return copy.deepcopy(out)


def save(est, fmt, path):
    getattr(est, "to_" + fmt)(path)


def load(est, fmt, path):
    return getattr(type(est), "from_" + fmt)(path)


def cycle(est, fmt, d, n):
    path = os.path.join(d, f"m{n}.{fmt}")
    if os.path.exists(path):
        os.unlink(path)
    save(est, fmt, path)
    return load(est, fmt, path)


def configs(z):
    yield "base", {}
    for k, v in enumerate(z.variants):
        yield f"variant{k}", v


def run(ctx):
    d = tempfile.mkdtemp(prefix="c14-", dir=os.environ.get("VERIF_SCRATCH"))
    counter = itertools.count()
    for z in zoo.share(ctx, zoo.menu(slow=True) + extra()):
        if not z.fmt:
            continue
        ops = ([] if z.name.endswith("init-array") else [("fit", "B")]) + [("query",)] + [("save", f) for f in z.fmt]
        for cname, change in configs(z):
            deep = cname == "base" and z.cost == 1
            if ctx.quick and z.cost >= 20 and cname != "base":
                continue
            try:
                z.fit(z.make().set_params(**copy.deepcopy(change)), z.data["A"])
            except ValueError:
                continue  # variant for other kinds of data
            depth = ctx.pick(2 if deep and not z.name.startswith(("knnr", "knnc")) else 1, 3 if deep else 2)
            for n in range(1, depth + 1):
                for h in itertools.product(ops, repeat=n):
                    if h[-1][0] != "save":
                        continue
                    with ctx.case("history", est=z.name, config=cname, ops=[list(o) for o in h]):
                        history(ctx, z, change, h, d, counter)
                    ctx.states += n + 1
                    ctx.transitions += n + 1
                    ctx.traces += 1
    if ctx.shard[0] == ctx.shard[1] - 1:
        files(ctx, d)
        values(ctx, d)


def history(ctx, z, change, h, d, counter):
    est = z.make().set_params(**copy.deepcopy(change))
    twin = z.make().set_params(**copy.deepcopy(change))
    data = "A"
    z.fit(est, z.data["A"])
    z.fit(twin, z.data["A"])
    for o in h:
        if o[0] == "fit":
            data = o[1]
            z.fit(est, z.data[data])
            z.fit(twin, z.data[data])
        elif o[0] == "query":
            observe(z, est, z.data[data])
            observe(z, twin, z.data[data])
        else:
            before = observe(z, est, z.data[data])
            loaded = cycle(est, o[1], d, next(counter))
            after = observe(z, est, z.data[data])
            r = zoo.diff(after, before, "")
            require(r is None, f"saving as {o[1]} changed the saved object: {r}")
            require(type(loaded) is type(est), f"loaded a {type(loaded)}")
            want = observe(z, twin, z.data[data])
            got = observe(z, loaded, z.data[data])
            r = zoo.diff(got, want, "")
            require(r is None, f"loaded from {o[1]}: {r}")
            ctx.outcome(np.array([len(repr(got))]), z.name, o[1])
            est = loaded


def extra():
    """Hyper-parameters of unusual kinds, string labels, several outputs."""
    from tslearn.clustering import TimeSeriesKMeans, KShape, KernelKMeans
    from tslearn.neighbors import KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier, KNeighborsTimeSeriesRegressor
    all3 = ("hdf5", "json", "pickle")
    out = []
    Z = lambda *a, **k: out.append(zoo.E(*a, fmt=all3, **k))
    base = zoo.datasets(False, 1)["A"].X
    Z("kmeans-init-array", lambda: TimeSeriesKMeans(n_clusters=2, init=base[:2] + 0., max_iter=2), queries={"predict": zoo.q_predict}, )
    Z("kmeans-none-params", lambda: TimeSeriesKMeans(n_clusters=2, metric="dtw", metric_params={"global_constraint": None, "sakoe_chiba_radius": None},
                                                     max_iter=2, max_iter_barycenter=3, random_state=0), queries={"predict": zoo.q_predict, "transform": zoo.q_transform})
    Z("kmeans-empty-params", lambda: TimeSeriesKMeans(n_clusters=2, metric="dtw", metric_params={}, max_iter=2, max_iter_barycenter=3, random_state=0),
      queries={"predict": zoo.q_predict})
    Z("kmeans-verbose", lambda: TimeSeriesKMeans(n_clusters=2, dtw_inertia=True, n_jobs=1, max_iter=2, random_state=3, tol=0.), queries={"predict": zoo.q_predict})
    Z("kernel-empty-params", lambda: KernelKMeans(n_clusters=2, kernel_params={}, random_state=0), queries={"predict": zoo.q_predict})
    Z("kshape-init-array", lambda: KShape(n_clusters=2, init=base[:2] + 0., max_iter=2), queries={"predict": zoo.q_predict}, cost=2)
    s = zoo.E("knnc-string-labels", lambda: KNeighborsTimeSeriesClassifier(n_neighbors=2, metric_params={}), y="c", fmt=all3,
              queries={"predict": zoo.q_predict, "proba": zoo.q_proba, "kneighbors": zoo.q_kn})
    for D in s.data.values():
        D.y = np.array(["yes", "\u00e9t\u00e9-long"])[D.y]
    out.append(s)
    s = zoo.E("knnr-two-outputs", lambda: KNeighborsTimeSeriesRegressor(n_neighbors=2, metric="euclidean"), y="r", fmt=all3, queries={"predict": zoo.q_predict})
    for D in s.data.values():
        D.yr = np.stack([D.yr, -D.yr], 1)
    out.append(s)
    s = zoo.E("knnc-two-outputs", lambda: KNeighborsTimeSeriesClassifier(n_neighbors=2), y="c", fmt=all3, queries={"predict": zoo.q_predict})
    for D in s.data.values():
        D.y = np.stack([D.y, D.y * 3 + 1], 1)
    out.append(s)
    Z("knn-2d", lambda: KNeighborsTimeSeries(n_neighbors=1, metric="euclidean"), d=2, queries={"kneighbors": zoo.q_kn})
    Z("knn-self", lambda: KNeighborsTimeSeries(n_neighbors=2, metric="dtw"), var=True, queries={"self": lambda e, D: e.kneighbors()})
    return out


def files(ctx, d):
    """Existing files, missing directories, unfitted models."""
    from sklearn.exceptions import NotFittedError
    z = {e.name: e for e in zoo.menu()}
    for name in ("kmeans-dtw", "knnc-dtw", "paa", "sax", "kernel-kmeans-gak"):
        e = z[name]
        for fmt in e.fmt:
            with ctx.case("unfitted", est=name, fmt=fmt):
                path = os.path.join(d, f"unfitted-{name}.{fmt}")
                try:
                    save(e.make(), fmt, path)
                except NotFittedError:
                    pass
                else:
                    require(False, "an unfitted model was saved")
                require(not os.path.exists(path), "a file was left behind by the failed save")
            with ctx.case("missing-directory", est=name, fmt=fmt):
                m = e.fit(e.make(), e.data["A"])
                before = observe(e, m, e.data["A"])
                try:
                    save(m, fmt, os.path.join(d, "nowhere", "m"))
                except OSError:
                    pass
                else:
                    require(False, "no error")
                r = zoo.diff(observe(e, m, e.data["A"]), before, "")
                require(r is None, f"failed save changed the model: {r}")
            ctx.transitions += 2
        # an existing HDF5 file is left alone, whatever it holds and however often one tries
        for content in ("model", "bytes", "empty"):
            with ctx.case("existing-hdf5", est=name, content=content):
                path = os.path.join(d, f"there-{name}-{content}.hdf5")
                m = e.fit(e.make(), e.data["A"])
                want = observe(e, m, e.data["A"])
                if content == "model":
                    m.to_hdf5(path)
                else:
                    open(path, "wb").write(b"\x00\xffsome bytes" if content == "bytes" else b"")
                was = open(path, "rb").read()
                other = e.fit(e.make(), e.data["B"])
                for _ in range(2):
                    try:
                        other.to_hdf5(path)
                    except FileExistsError:
                        pass
                    else:
                        require(False, "existing file accepted")
                    equal(open(path, "rb").read(), was, "content of the existing file")
                if content == "model":
                    r = zoo.diff(observe(e, type(m).from_hdf5(path), e.data["A"]), want, "")
                    require(r is None, f"existing file no longer loads as saved: {r}")
            ctx.transitions += 2
        # formats that do overwrite hold the last model saved
        for fmt in ("json", "pickle"):
            with ctx.case("overwrite", est=name, fmt=fmt):
                path = os.path.join(d, f"over-{name}.{fmt}")
                big, small = e.fit(e.make(), e.data["A"]), e.fit(e.make(), e.data["B"])
                for m, ds in ((big, "A"), (small, "B"), (big, "A")):
                    save(m, fmt, path)
                    r = zoo.diff(observe(e, load(m, fmt, path), e.data[ds]), observe(e, m, e.data[ds]), "")
                    require(r is None, f"overwritten file: {r}")
            ctx.transitions += 3


def values(ctx, d):
    """Extreme values survive every format exactly."""
    from tslearn.clustering import TimeSeriesKMeans
    from tslearn.neighbors import KNeighborsTimeSeries
    vals = [0., -0., 1e-300, 1e300, 5e-324, 0.1, 1 / 3, -7., 123456789.123456789, 2. ** -40]
    n = 0
    for pair in itertools.product(vals, repeat=2):
        X = np.array([[pair[0], 1., pair[1]], [2., pair[1], pair[0]]])[:, :, None]
        for fmt in ("hdf5", "json", "pickle"):
            n += 1
            with ctx.case("values", pair=pair, fmt=fmt):
                for m in (KNeighborsTimeSeries(n_neighbors=1, metric="cityblock").fit(X),):
                    l = cycle(m, fmt, d, f"v{n}")
                    a, b = m.kneighbors(X * .5)[0], l.kneighbors(X * .5)[0]
                    equal(b, a, "distances of the reloaded model")
            ctx.transitions += 1
