"""C02: a global constraint means the same region at every entry point."""
import itertools

import numpy as np

from mc import paths as P
from mc.core import close, require, equal, raises
from mc.elastic import CONSTRAINTS, series

LEVEL = "model_checking"
RULE = ("all size pairs x radii/slopes for the regions themselves; every entry point accepting a constraint x "
        "every way of giving it x datasets on which the constraint changes the result; a run is non-trivial when "
        "the constrained reference differs from the unconstrained one (counted in constrained_binding)")
ASSUMPTIONS = ["regions compared cell by cell with their definition up to 10x10 (quick) / 16x16 (thorough)",
               "entry points compared with reference dynamic programs restricted to that region"]


def run(ctx):
    import torch
    from tslearn import metrics as M
    ctx.states += P.self_check()
    top = ctx.pick(10, 16)
    for be in ("numpy", "pytorch"):
        for l1, l2 in itertools.product(range(1, top + 1), repeat=2):
            for r in (0, 1, 2, 3, 5, 20):
                with ctx.case("sakoe-region", l1=l1, l2=l2, r=r, be=be):
                    m = np.asarray(M.sakoe_chiba_mask(l1, l2, radius=r, be=be))
                    equal(m.astype(bool), P.sakoe(l1, l2, r), "region")
                    ctx.outcome(m.astype(int))
                ctx.states += l1 * l2
            if be == "pytorch" and ctx.quick and (l1 > 7 or l2 > 7):
                continue
            for s in (1., 1.2, 1.5, 2., 3., 5., 0.5):
                with ctx.case("itakura-region", l1=l1, l2=l2, slope=s, be=be):
                    ref = P.itakura(l1, l2, s)
                    try:
                        m = np.asarray(M.itakura_mask(l1, l2, max_slope=s, be=be))
                    except RuntimeWarning:
                        require(not P.has_path(ref), "feasible constraint rejected")
                        continue
                    require(P.has_path(ref), "infeasible constraint accepted")
                    equal(m.astype(bool), ref, "region")
                    ctx.outcome(m.astype(int))
                ctx.states += l1 * l2
    for l1, l2 in [(40, 57), (57, 40), (100, 100), (64, 128)]:
        for r in (0, 1, 7, 30):
            with ctx.case("sakoe-region", l1=l1, l2=l2, r=r):
                equal(np.asarray(M.sakoe_chiba_mask(l1, l2, radius=r)), P.sakoe(l1, l2, r), "region")
        for s in (1.5, 2., 4.):
            with ctx.case("itakura-region", l1=l1, l2=l2, slope=s):
                ref = P.itakura(l1, l2, s)
                if P.has_path(ref):
                    equal(np.asarray(M.itakura_mask(l1, l2, max_slope=s)).astype(bool), ref, "region")
                else:
                    raises(RuntimeWarning, lambda: M.itakura_mask(l1, l2, max_slope=s), "infeasible")
    # defaults and the code-based entry
    for l1, l2 in itertools.product(range(2, 7), repeat=2):
        for be in ("numpy", "pytorch"):
            with ctx.case("defaults", l1=l1, l2=l2, be=be):
                equal(np.asarray(M.sakoe_chiba_mask(l1, l2, be=be)).astype(bool), P.sakoe(l1, l2, 1), "default radius")
                if P.has_path(P.itakura(l1, l2, 2.)):
                    equal(np.asarray(M.itakura_mask(l1, l2, be=be)).astype(bool), P.itakura(l1, l2, 2.), "default slope")
                for kw in CONSTRAINTS:
                    ref = P.constraint_mask(l1, l2, kw)
                    if not P.has_path(ref):
                        continue
                    k = dict(kw)
                    code = M.GLOBAL_CONSTRAINT_CODE[k.pop("global_constraint", None)]
                    equal(np.asarray(M.compute_mask(l1, l2, global_constraint=code, be=be, **k)).astype(bool), ref,
                          f"compute_mask {kw}")
                    a, b = np.zeros((l1, 1)), np.zeros((l2, 1))
                    equal(np.asarray(M.compute_mask(a, b, global_constraint=code, be=be, **k)).astype(bool), ref,
                          f"compute_mask on series {kw}")
    entry_points(ctx)


def binding(ctx, kw, data):
    n = sum(P.ref_dtw(a, b, kw) > P.ref_dtw(a, b) + 1e-9 for a, b in itertools.combinations(data, 2))
    ctx.extra["constrained_binding"] = ctx.extra.get("constrained_binding", 0) + n
    return n


def entry_points(ctx):
    import torch
    from tslearn import metrics as M
    from tslearn.barycenters import (dtw_barycenter_averaging, dtw_barycenter_averaging_petitjean,
                                     dtw_barycenter_averaging_subgradient, softdtw_barycenter)
    from tslearn.clustering import TimeSeriesDBSCAN, TimeSeriesKMeans, silhouette_score
    from tslearn.neighbors import (KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier,
                                   KNeighborsTimeSeriesRegressor)
    from sklearn.metrics import silhouette_score as sk_sil
    # generic series with a lag, so that the constraint binds
    base = np.array([0, 0, 0, 0, 3.1, 1.2, -2.3, 0.4])
    sets = [[base[k:k + 6 + (0 if eq else k % 2)].reshape(-1, 1) + 0.1 * series(k, 6 + (0 if eq else k % 2))[:len(base[k:k + 6 + (0 if eq else k % 2)])]
             for k in (0, 1, 2, 0, 1)] for eq in (True, False)]
    sets.append([series(k + 60, 5 + k % 2, 2) for k in range(5)])
    menu = [kw for kw in CONSTRAINTS if kw.get("global_constraint") != ""] + \
        [{"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 3}]
    for si, data in enumerate(sets):
        X = P.pad(data)
        eq = len({len(t) for t in data}) == 1
        arg = X if eq else X.copy()
        for ki, kw in enumerate(menu):
            if not all(P.has_path(P.constraint_mask(len(a), len(b), kw)) for a in data for b in data):
                with ctx.case("infeasible", set=si, kw=kw):
                    for f in (M.cdist_dtw, M.cdist_frechet, M.cdist_soft_dtw):
                        raises(RuntimeWarning, lambda: f(X, **kw), f.__name__)
                continue
            nb = binding(ctx, kw, data)
            ref = {"dtw": P.matrix(lambda a, b: P.ref_dtw(a, b, kw), data, data),
                   "frechet": P.matrix(lambda a, b: P.ref_frechet(a, b, kw), data, data),
                   "softdtw": P.matrix(lambda a, b: P.ref_softdtw(a, b, .5, kw), data, data)}
            diag = np.diag(ref["softdtw"])
            ref["softdtw_normalized"] = ref["softdtw"] - .5 * (diag[:, None] + diag[None, :])
            sym = {k: np.triu(v) + np.triu(v, 1).T for k, v in ref.items()}
            ctx.traces += 1
            ctx.states += len(data) ** 2
            ctx.transitions += nb
            fs = {"dtw": (M.cdist_dtw, {}), "frechet": (M.cdist_frechet, {}),
                  "softdtw": (M.cdist_soft_dtw, {"gamma": .5}),
                  "softdtw_normalized": (M.cdist_soft_dtw_normalized, {"gamma": .5})}
            for name, (f, p) in fs.items():
                with ctx.case("cdist", measure=name, set=si, kw=kw):
                    close(f(X, **p, **kw), sym[name], "self")
                    close(f(X[:2], X, **p, **kw), ref[name][:2], "cross")
                    close(f(X, n_jobs=2, **p, **kw), sym[name], "self, parallel")
                    close(f(X[:3], X[1:], n_jobs=2, **p, **kw), ref[name][:3, 1:], "cross, parallel")
                    close(f(X[:3], X[2:], be="pytorch", **p, **kw), ref[name][:3, 2:], "cross, PyTorch")
            with ctx.case("single", set=si, kw=kw):
                a, b = data[0], data[1]
                m = P.constraint_mask(len(a), len(b), kw)
                close(M.dtw(a, b, **kw), ref["dtw"][0, 1], "dtw")
                close(M.frechet(a, b, **kw), ref["frechet"][0, 1], "frechet")
                close(M.soft_dtw(a, b, gamma=.5, **kw), ref["softdtw"][0, 1], "soft_dtw")
                close(M.soft_dtw_normalized(a, b, gamma=.5, **kw), ref["softdtw_normalized"][0, 1], "soft_dtw_normalized")
                al, v = M.soft_dtw_alignment(a, b, gamma=.5, **kw)
                close(v, ref["softdtw"][0, 1], "soft_dtw_alignment")
                require(np.all(np.asarray(al)[~m] == 0), "alignment weight outside the region")
                for f, r in ((M.dtw_path, ref["dtw"]), (M.frechet_path, ref["frechet"])):
                    path, v = f(a, b, **kw)
                    close(v, r[0, 1], f.__name__)
                    require(all(m[i, j] for i, j in path), f"{f.__name__} leaves the region")
                loss = M.SoftDTWLossPyTorch(gamma=.5, **kw)(torch.tensor(a[None]), torch.tensor(b[None]))
                close(loss, ref["softdtw"][0, 1:2], "SoftDTWLossPyTorch", rtol=1e-4, atol=1e-4)
                path, _, _ = M.ctw_path(a, b, **kw)
                require(all(m[i, j] for i, j in path), "ctw_path leaves the region")
                path, _ = M.dtw_path_from_metric(a, b, metric="euclidean", **kw)
                require(all(m[i, j] for i, j in path), "dtw_path_from_metric leaves the region")
                path, _ = M.lcss_path(a, b, eps=1., **kw)
                require(all(m[i, j] for i, j in path), "lcss_path leaves the region")
            # neighbours
            for name in ("dtw", "frechet", "softdtw"):
                p = dict(kw, **({"gamma": .5} if name == "softdtw" else {}))
                with ctx.case("neighbours", measure=name, set=si, kw=kw):
                    want = np.sort(ref[name][:, :4], axis=1)
                    for cls, y in ((KNeighborsTimeSeries, None), (KNeighborsTimeSeriesClassifier, [0, 1, 2, 3]),
                                   (KNeighborsTimeSeriesRegressor, [0., 1., 2., 3.])):
                        keep = dict(p)
                        m = cls(n_neighbors=4, metric=name, metric_params=p).fit(X[:4], y)
                        dist, ind = m.kneighbors(X, n_neighbors=4)
                        close(dist, want, cls.__name__ + " distances")
                        close(np.take_along_axis(ref[name][:, :4], ind, 1), want, cls.__name__ + " indices")
                        equal(p, keep, "metric_params after use")
                        if y is not None:
                            m1 = cls(n_neighbors=1, metric=name, metric_params=p, n_jobs=2).fit(X[:4], y)
                            pr = np.asarray(m1.predict(X[4:])).astype(int)
                            close(ref[name][4, pr[0]], ref[name][4, :4].min(), cls.__name__ + " prediction")
            # density clustering and silhouette
            off = ref["dtw"][np.triu_indices(len(data), 1)]
            order = np.sort(np.unique(np.round(off, 9)))
            for q in range(len(order) - 1):
                if order[q + 1] - order[q] < 1e-3:
                    continue
                eps = (order[q] + order[q + 1]) / 2
                with ctx.case("dbscan", set=si, kw=kw, eps=eps):
                    m = TimeSeriesDBSCAN(eps=eps, min_ts=2, metric="dtw", metric_params=dict(kw)).fit(X)
                    core, comp, border = P.ref_dbscan(sym["dtw"], eps, 2)
                    equal(list(m.core_ts_indices_), core, "core series")
                    for i, j in itertools.product(core, repeat=2):
                        require((m.labels_[i] == m.labels_[j]) == (comp[i] == comp[j]), "cluster membership")
            with ctx.case("silhouette", set=si, kw=kw):
                lab = [0, 1, 0, 1, 1]
                close(silhouette_score(X, lab, metric="dtw", metric_params=dict(kw)),
                      sk_sil(sym["dtw"] * (1 - np.eye(5)), lab, metric="precomputed"), "dtw silhouette")
            # k-means: distances, assignment
            init = P.pad(data)[:2]
            for k in range(2):
                init[k] = P.pad([data[k]], extra=X.shape[1] - len(data[k]))[0]
            full = [t for t in range(len(data)) if len(data[t]) == X.shape[1]][:2]
            if len(full) == 2:
                init = X[full].copy()
                for name in ("dtw", "softdtw"):
                    p = dict(kw, **({"gamma": .5} if name == "softdtw" else {}))
                    with ctx.case("kmeans", measure=name, set=si, kw=kw):
                        m = TimeSeriesKMeans(n_clusters=2, metric=name, metric_params=p, init=init, max_iter=2,
                                             max_iter_barycenter=5, random_state=0).fit(X)
                        if getattr(m, "_X_fit", 0) is not None and m.cluster_centers_ is not None:
                            fun = (lambda a, b: P.ref_dtw(a, b, kw)) if name == "dtw" else \
                                (lambda a, b: P.ref_softdtw(a, b, .5, kw))
                            D = P.matrix(fun, data, list(m.cluster_centers_))
                            close(m.transform(X), D, "transform")
                            lab = m.predict(X)
                            close(D[np.arange(len(data)), lab], D.min(1), "assignment")
            # one DBA step, and the soft barycenter's optimum
            c0 = X[full[0]].copy()
            d = c0.shape[1]
            w = np.array([1., 2., .5, 1., 3.])
            step = np.zeros_like(c0)
            tot = np.zeros(len(c0))
            step2 = np.zeros_like(c0)
            tot2 = np.zeros(len(c0))
            ok = True
            for t, wt in zip(data, w):
                pth, _ = P.dp_path(P.sq_local(c0, t), P.constraint_mask(len(c0), len(t), kw))
                for i, j in pth:
                    step[i] += wt * t[j]
                    tot[i] += wt
                mt = P.constraint_mask(len(t), len(c0), kw)
                pth, _ = P.dp_path(P.sq_local(t, c0), mt)
                for i, j in pth:
                    step2[j] += wt * t[i]
                    tot2[j] += wt
            # zero cost to itself makes ties possible only on generic data of measure zero
            with ctx.case("dba-step", set=si, kw=kw):
                b = dtw_barycenter_averaging(X, init_barycenter=c0, max_iter=1, weights=w, metric_params=dict(kw))
                close(b, step / tot[:, None], "majorize-minimize update")
                b = dtw_barycenter_averaging_petitjean(X, init_barycenter=c0, max_iter=1, weights=w, metric_params=dict(kw))
                close(b, step2 / tot2[:, None], "Petitjean update")
                b = dtw_barycenter_averaging(X, init_barycenter=c0, max_iter=1, weights=w, metric_params=dict(kw), n_jobs=2)
                close(b, step / tot[:, None], "majorize-minimize update, parallel")
                one = X[1:2]
                pth, _ = P.dp_path(P.sq_local(c0, data[1]), P.constraint_mask(len(c0), len(data[1]), kw))
                g = np.zeros_like(c0)
                for i, j in pth:
                    g[i] += c0[i] - data[1][j]
                b = dtw_barycenter_averaging_subgradient(one, init_barycenter=c0.copy(), max_iter=1, initial_step_size=.1,
                                                         metric_params=dict(kw), random_state=0)
                close(b, c0 - 2 * .1 * g, "subgradient update")
            with ctx.case("soft-barycenter", set=si, kw=kw):
                b = softdtw_barycenter(X, gamma=.5, init=c0.copy(), tol=1e-10, max_iter=300, **kw)

                def obj(z):
                    z = z.reshape(c0.shape)
                    return sum(P.ref_softdtw(z, t, .5, kw) for t in data)
                g = np.array([(obj(b.ravel() + 1e-5 * e) - obj(b.ravel() - 1e-5 * e)) / 2e-5 for e in np.eye(b.size)])
                require(np.abs(g).max() < 2e-2, f"not stationary for the constrained objective: |g|={np.abs(g).max()}")
                require(obj(b.ravel()) <= obj(c0.ravel()) + 1e-9, "objective increased")
