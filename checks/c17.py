"""C17: k-means labels, inertia, prediction and transform agree with the centroids."""
import itertools

import numpy as np

from mc import paths as P
from mc.core import close, equal, require
from mc.elastic import ladder, series

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of the runs of the fit as a transition system (centroids, assign/update): every choice of initial centroids x parameters, and "
             "every sequence of random choices served by a scripted generator; each terminal state checked against reference distances, each trajectory against a "
             "reference Lloyd iteration (lockstep)")
SHARDS = 6
RULE = ("all datasets of a pool x every choice of initial centroids (explicit, or served by a scripted random generator for every sequence of up to 3 "
        "initialisations) x metric x parameters x iteration caps; after every fit labels, inertia, predict and transform against reference distances to the centroids")
ASSUMPTIONS = ["datasets of 3..6 series of length 2..5, dims 1..2, 2 or 3 clusters, up to 4 iterations and the default; plus a ladder of larger datasets (40 to 120 series, lengths up to 70 / 260, 5 features, amplitudes 1e-3, 1e5, offset 3e3); ties in distance may go to either centroid",
               "soft-DTW inertia is the mean of the squared reported distances, as for the other metrics; barycenters themselves are decided under C19 and C20"]


def datasets(ctx):
    a = np.array
    out = [("int", [a([[0.], [0.], [1.]]), a([[0.], [1.], [1.]]), a([[3.], [3.], [4.]]), a([[4.], [3.], [3.]]), a([[9.], [8.], [9.]])]),
           ("gen", [series(k, 4) for k in (3, 8, 9, 17, 20)]),
           ("gen2", [series(k, 3, 2) for k in (2, 5, 11, 12)]),
           ("dup", [a([[1.], [2.]]), a([[1.], [2.]]), a([[5.], [5.]]), a([[1.], [3.]])])]
    var = [("var", [series(k, 3 + k % 3) for k in range(5)]),
           ("var2", [series(40 + k, (2, 4, 3, 5)[k], 2) for k in range(4)])]
    if ctx.thorough:
        out += [(f"g{s}", [series(s * 7 + k, 5) for k in range(6)]) for s in range(4)]
        var += [(f"v{s}", [series(s * 13 + k, 2 + (k * s) % 4) for k in range(5)]) for s in range(1, 5)]
    return [(n, d, False) for n, d in out] + [(n, d, True) for n, d in var]


def menu():
    sc = {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 1}
    return [("euclidean", None), ("dtw", None), ("dtw", sc), ("softdtw", {"gamma": .5}), ("softdtw", None), ("dtw", {"sakoe_chiba_radius": 0, "n_jobs": 2})]


def ref_dist(metric, mp):
    kw = {k: v for k, v in (mp or {}).items() if k not in ("n_jobs", "gamma")}
    if metric == "euclidean":
        return lambda a, b: np.sqrt(((a - b) ** 2).sum())
    if metric == "dtw":
        return lambda a, b: P.ref_dtw(a, b, kw)
    return lambda a, b: P.ref_softdtw(a, b, (mp or {}).get("gamma", 1.), kw)


class Scripted(np.random.RandomState):
    """Serves the random choice of the initial centroids from a script."""

    def __init__(self, script):
        super().__init__(0)
        self.script, self.served = list(script), 0

    def choice(self, a, size=None, replace=True, p=None):
        if self.served >= len(self.script):
            return super().choice(a, size, replace, p)
        self.served += 1
        return np.array(self.script[self.served - 1])


def run(ctx):
    from tslearn.clustering import TimeSeriesKMeans
    from tslearn.clustering import kmeans as module
    ctx.states += P.self_check()

    def strip(c):
        return c[~np.isnan(c).all(1)]

    def consistent(km, X, data, D, metric, mp, dtw_in, eq, tag=""):
        """The fitted attributes against reference distances to the reported centroids."""
        C = [strip(c) for c in km.cluster_centers_]
        R = P.matrix(D, data, C)
        lab = np.asarray(km.labels_)
        tol = 1e-7 * min(1., max(np.abs(x).max() for x in data) ** 2)
        require(lab.shape == (len(data),) and lab.min() >= 0 and lab.max() < len(C), f"labels {lab}")
        require(len(set(lab.tolist())) == len(C), f"empty cluster in {lab}")
        mine = R[np.arange(len(data)), lab]
        require((mine <= R.min(1) + 1e-9).all(), f"labels {lab} are not nearest centroids: {R.tolist()}")
        equal(np.asarray(km.predict(X)), lab, "predict on the training set")
        close(km.transform(X), R, "transform on the training set", atol=tol)
        if dtw_in and metric != "dtw":
            mine = P.matrix(P.ref_dtw, data, C)[np.arange(len(data)), lab]
        close(km.inertia_, (mine ** 2).sum() / len(data), "inertia", atol=tol)
        # new series, also of other lengths
        d = data[0].shape[1]
        q = [data[0] + .3, series(77, len(C[0]), d)] + ([series(78, n, d) for n in (1, len(C[0]) + 2)] if metric != "euclidean" else [])
        Q = P.matrix(D, q, C)
        Z = P.pad(q)
        close(km.transform(Z), Q, "transform of new series", atol=1e-7)
        pl = np.asarray(km.predict(Z))
        require((Q[np.arange(len(q)), pl] <= Q.min(1) + 1e-9).all(), f"predicted labels {pl}: {Q.tolist()}")
        ctx.outcome(lab, np.round(np.asarray(km.cluster_centers_), 6))

    def explicit(X, idx, k, **kw):
        init = X[list(idx)].copy()
        km = TimeSeriesKMeans(n_clusters=k, init=init, random_state=0, **kw)
        km.fit(X)
        return km

    def full(c):
        """Initial centroids are brought to full length first."""
        from tslearn.preprocessing import TimeSeriesResampler
        return TimeSeriesResampler(sz=c.shape[1]).fit_transform(c)

    for (name, data, eq), (metric, mp) in itertools.product(ladder(ctx.thorough), menu()):
        if not eq and metric == "euclidean" or name == "very-long" and metric != "euclidean" or (mp or {}).get("sakoe_chiba_radius") == 0 or not ctx.mine():
            continue
        scales(ctx, TimeSeriesKMeans, consistent, metric, mp, name, data, eq)
    for name, data, var in datasets(ctx):
        for n, (metric, mp) in enumerate(menu()):
            if var and metric == "euclidean":
                continue
            X = P.pad(data)
            D = ref_dist(metric, mp)
            for k in (2, 3):
                inits = list(itertools.permutations(range(len(data)), k))
                if ctx.quick:
                    inits = inits[::(3 if metric == "euclidean" else 7) * (k - 1)]
                if not ctx.mine():
                    continue
                fits = {}
                for idx in inits:
                    for m, (it, di) in enumerate(itertools.product((1, 2, 3, 50) if ctx.thorough else (1, 3, 50), (False, True))):
                        if di and (metric == "dtw" or it == 3):
                            continue
                        kw = dict(metric=metric, metric_params=mp, max_iter=it, dtw_inertia=di, max_iter_barycenter=(5 if metric == "softdtw" else 100))
                        with ctx.case("fit", data=name, init=idx, k=k, **{a: b for a, b in kw.items()}):
                            km = explicit(X, idx, k, **kw)
                            if km.labels_ is None or km._X_fit is None:
                                fits[idx, it, di] = None       # every attempt met an empty cluster
                                require(not admissible_start(D, data, full(X[list(idx)]), strip) or metric != "euclidean" or it > 1,
                                        "no result although the initial assignment has no empty cluster")
                            else:
                                require(1 <= km.n_iter_ <= it, f"{km.n_iter_} iterations of at most {it}")
                                consistent(km, X, data, D, metric, mp, di, not var)
                                fits[idx, it, di] = km
                        ctx.states += it
                        ctx.transitions += it * len(data) * k
                        ctx.traces += 1
                    if name.startswith(("g", "v")) and metric in ("euclidean", "dtw"):
                        lockstep(ctx, TimeSeriesKMeans, X, data, D, metric, mp, idx, k, name, full, strip, explicit)
                    caps(ctx, module, explicit, X, idx, k, metric, mp, name)
                sequences(ctx, TimeSeriesKMeans, X, data, k, metric, mp, inits, fits, name)
            if ctx.mine():
                others(ctx, TimeSeriesKMeans, X, data, D, metric, mp, consistent, name, var)


def scales(ctx, TimeSeriesKMeans, consistent, metric, mp, name, data, eq):
    """Many, long, wide, tiny, huge series: several numbers of clusters and seeds."""
    X = P.pad(data)
    D = ref_dist(metric, mp)
    soft = metric == "softdtw"
    for k, init, seed in ((2, "random", 0), (3, "k-means++", 1), (5, "random", 2), (9, "k-means++", 0)):
        if k > len(data) // 2 or k == 9 and metric != "euclidean":
            continue
        for it, n_init in ((2, 1), (10, 2)):
            with ctx.case("scales", data=name, metric=metric, metric_params=mp, k=k, init=init, max_iter=it, n_init=n_init):
                km = TimeSeriesKMeans(n_clusters=k, init=init, n_init=n_init, random_state=seed, metric=metric, metric_params=mp, max_iter=it,
                                      max_iter_barycenter=3 if soft else 20).fit(X)
                if km.labels_ is not None and km._X_fit is not None:
                    consistent(km, X, data, D, metric, mp, False, eq)
                    if metric == "euclidean" and it == 10 and km.n_iter_ < 10:
                        for j in range(k):
                            # converged: moving the centroids again changes the inertia by less than the tolerance
                            c = np.mean([data[i] for i in np.flatnonzero(km.labels_ == j)], axis=0)
                            require(np.abs(c - km.cluster_centers_[j]).max() <= 1e-3 + 1e-3 * np.abs(c).max(), f"centroid {j} is not the mean of its series")
            ctx.traces += 1
            ctx.transitions += len(data) * k


def admissible_start(D, data, C, strip):
    R = P.matrix(D, data, [strip(c) for c in C])
    return len(set(R.argmin(1).tolist())) == len(C)


def lockstep(ctx, TimeSeriesKMeans, X, data, D, metric, mp, idx, k, name, full, strip, explicit):
    """The fit against a reference Lloyd iteration, one iteration at a time."""
    from tslearn.barycenters import dtw_barycenter_averaging
    kw = {a: b for a, b in (mp or {}).items() if a != "n_jobs"}
    C = full(X[list(idx)])
    last = np.inf
    for it in range(1, 5):
        R = P.matrix(D, data, [strip(c) for c in C])
        lab = R.argmin(1)
        if len(set(lab.tolist())) < k:
            return
        for j in range(k):
            part = [data[i] for i in np.flatnonzero(lab == j)]
            C[j] = np.mean(part, axis=0) if metric == "euclidean" else \
                dtw_barycenter_averaging(P.pad(part), init_barycenter=C[j].copy(), max_iter=100, metric_params=kw)
        R2 = P.matrix(D, data, [strip(c) for c in C])
        if len(set(R2.argmin(1).tolist())) < k:
            return
        with ctx.case("lockstep", data=name, init=idx, k=k, metric=metric, metric_params=mp, iterations=it):
            km = explicit(X, idx, k, metric=metric, metric_params=mp, max_iter=it)
            close(km.cluster_centers_, C, "centroids", rtol=1e-6, atol=1e-7)
            equal(np.asarray(km.labels_), R2.argmin(1), "labels")
            require(km.inertia_ <= last + 1e-9, f"inertia {km.inertia_} after {it} iterations, {last} before")
            last = km.inertia_
        ctx.traces += 1


def caps(ctx, module, explicit, X, idx, k, metric, mp, name):
    """The iterations of the barycenters are the configured ones."""
    if metric == "euclidean":
        return
    from tslearn.barycenters import dtw_barycenter_averaging, softdtw_barycenter
    kw = {a: b for a, b in (mp or {}).items() if a != "n_jobs"}
    for m in (1, 2):
        with ctx.case("barycenter-iterations", data=name, init=idx, k=k, metric=metric, metric_params=mp, iterations=m):
            km = explicit(X, idx, k, metric=metric, metric_params=mp, max_iter=1, max_iter_barycenter=m)
            if km.labels_ is None or km._X_fit is None:
                return
            from tslearn.preprocessing import TimeSeriesResampler
            C = TimeSeriesResampler(sz=X.shape[1]).fit_transform(X[list(idx)])
            data = [x[~np.isnan(x).all(1)] for x in X]
            R = P.matrix(ref_dist(metric, mp), data, C)
            s = np.sort(R, axis=1)
            if (s[:, 1] - s[:, 0] < 1e-9).any():
                return
            lab = R.argmin(1)
            for j in range(k):
                part = X[lab == j]
                want = dtw_barycenter_averaging(part, init_barycenter=C[j].copy(), max_iter=m, metric_params=kw) if metric == "dtw" else \
                    softdtw_barycenter(part, init=C[j].copy(), max_iter=m, **kw)
                if metric == "dtw" or not np.isnan(part).any():
                    close(km.cluster_centers_[j], want, f"centroid {j} after {m} barycenter iterations", rtol=1e-5, atol=1e-6)
        ctx.traces += 1


def sequences(ctx, TimeSeriesKMeans, X, data, k, metric, mp, inits, fits, name):
    """Several initialisations: every sequence of scripted random choices keeps the best."""
    it, di = 50, False
    usable = [i for i in inits if fits.get((i, it, di), 0) is not None and (i, it, di) in fits]
    good = sorted(usable, key=lambda i: fits[i, it, di].inertia_)
    menu_ = list(dict.fromkeys(good[:1] + good[-1:] + good[len(good) // 2:len(good) // 2 + 1]))
    bad = [i for i in inits if (i, it, di) in fits and fits[i, it, di] is None][:1]
    for n_init in (1, 2, 3):
        for seq in itertools.product(menu_ + bad, repeat=n_init):
            rs = Scripted(list(seq) + [menu_[0]] * n_init if menu_ else seq)
            if not menu_:
                continue
            with ctx.case("initialisations", data=name, k=k, metric=metric, metric_params=mp, sequence=seq):
                km = TimeSeriesKMeans(n_clusters=k, init="random", n_init=n_init, random_state=rs, metric=metric, metric_params=mp,
                                      max_iter_barycenter=(5 if metric == "softdtw" else 100)).fit(X)
                if rs.served < n_init:
                    continue              # the choice is not made through the generator's choice()
                used = [fits[i, it, di] for i in rs.script[:rs.served] if fits[i, it, di] is not None]
                require(len(used) == n_init, f"{len(used)} successful initialisations of {n_init}")
                best = min(f.inertia_ for f in used)
                close(km.inertia_, best, f"inertia; of the initialisations: {[f.inertia_ for f in used]}", rtol=1e-9, atol=1e-12)
                require(any(np.allclose(km.cluster_centers_, f.cluster_centers_) and np.array_equal(km.labels_, f.labels_)
                            for f in used if abs(f.inertia_ - best) <= 1e-9 + 1e-9 * abs(best)), "centroids and labels of another initialisation than the best one")
            ctx.traces += 1
            ctx.transitions += n_init


def others(ctx, TimeSeriesKMeans, X, data, D, metric, mp, consistent, name, var):
    """Seeded initialisations, numbers of jobs, initial centroids of another length, integer data."""
    for init, seed, nj, n_init in itertools.product(("k-means++", "random"), range(ctx.pick(3, 8)), (None, 2), (1, 3)):
        if nj == 2 and (n_init == 3 or seed):
            continue
        with ctx.case("seeded", data=name, metric=metric, metric_params=mp, init=init, seed=seed, n_jobs=nj, n_init=n_init):
            km = TimeSeriesKMeans(n_clusters=2, init=init, random_state=seed, n_init=n_init, n_jobs=nj, metric=metric, metric_params=mp, max_iter=5,
                                  max_iter_barycenter=5).fit(X)
            if km.labels_ is not None and km._X_fit is not None:
                consistent(km, X, data, D, metric, mp, False, not var)
                equal(np.asarray(TimeSeriesKMeans(n_clusters=2, init=init, random_state=seed, n_init=n_init, n_jobs=nj, metric=metric, metric_params=mp, max_iter=5,
                                                  max_iter_barycenter=5).fit_predict(X)), np.asarray(km.labels_), "fit_predict")
        ctx.traces += 1
    if metric != "euclidean":
        d = data[0].shape[1]
        for sz in (2, 7):
            with ctx.case("other-length", data=name, metric=metric, metric_params=mp, size=sz):
                init = np.array([series(5, sz, d), series(9, sz, d) + 4.])
                if (mp or {}).get("sakoe_chiba_radius") == 0:
                    continue
                km = TimeSeriesKMeans(n_clusters=2, init=init, metric=metric, metric_params=mp, max_iter=3, max_iter_barycenter=5).fit(X)
                if km.labels_ is not None and km._X_fit is not None:
                    equal(km.cluster_centers_.shape, (2, sz, d), "shape of the centroids")
                    consistent(km, X, data, D, metric, mp, False, False)
            ctx.traces += 1
