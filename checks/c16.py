"""C16: nearest-neighbour models agree with brute force over the metric."""
import itertools

import numpy as np
from scipy.stats import norm

from mc import paths as P
from mc.core import close, require, equal
from mc.elastic import ladder, series

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of the bounded space of searches (training sequences x query sets x metric x parameters x "
             "neighbour counts x jobs x weights) on the real estimators against an exhaustive search over reference distances "
             "obtained by enumerating warping paths")
SHARDS = 4
RULE = ("all training sequences up to the size bound from a pool with ties, all pool series as queries, every metric and "
        "parameter set, every neighbour count up to beyond the training size; distances, indices, votes and means compared "
        "with exhaustive search over the reference distance matrix")
ASSUMPTIONS = ["pool of 8 small series per dimensionality, training sets of at most 4 (quick) / 5 (thorough) series; plus a ladder of larger datasets (40 to 120 series, lengths up to 70 / 260, 5 features, amplitudes 1e-3, 1e5, offset 3e3) and crowds of 300 and 700 training series",
               "with tied distances any of the tied series may be returned; votes are then those of the returned neighbours",
               "ctw distances are taken from the two-series function (decided under C29)"]


def pool(d, equal_len=False):
    a = [[0, 1, 0], [1, 1, 0], [0], [3, 1], [0, 1, 1, 0], [2, 2, 3], [0, 3, 3, 1], [1, 0, 2]]
    if equal_len:
        a = [[0, 1, 0], [1, 1, 0], [0, 0, 3], [3, 1, 3], [0, 1, 1], [2, 2, 3], [0, 3, 1], [1, 0, 2]]
    return [np.array([[float(v) if k == 0 else float((v * 2 + t + k) % 3) for k in range(d)] for t, v in enumerate(s)]) for s in a]


def long_pool(d, n=8):
    return [series(30 + k, (6, 4, 5, 7)[k % 4], d) for k in range(n)]


def sax_ref(train, queries, n_segments=10, alphabet_size_avg=4, scale=False):
    bp = norm.ppf(np.arange(1, alphabet_size_avg) / alphabet_size_avg)
    X = np.array(train)
    mu, sd = (X.reshape(-1, X.shape[2]).mean(0), X.reshape(-1, X.shape[2]).std(0)) if scale else (0., 1.)
    sd = np.where(sd == 0, 1., sd)
    size = X.shape[1]

    def sym(s):
        s = (s - mu) / sd
        w = len(s) // n_segments
        return np.array([[np.searchsorted(bp, s[k * w:(k + 1) * w, j].mean(), side="left") for j in range(s.shape[1])] for k in range(n_segments)])

    def dist(a, b):
        v = 0.
        for x, y in zip(sym(a).ravel(), sym(b).ravel()):
            if abs(x - y) > 1:
                v += (bp[max(x, y) - 1] - bp[min(x, y)]) ** 2
        return np.sqrt(v * size / n_segments)
    return P.matrix(dist, queries, train)


def menu():
    from tslearn import metrics as M
    sc = {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 1}
    el = lambda fun: (lambda tr, q, kw: P.matrix(lambda a, b: fun(a, b, kw), q, tr))
    eu = lambda fun: (lambda tr, q, kw: P.matrix(fun, q, tr))
    out = [("dtw", kw, el(P.ref_dtw), "var") for kw in (None, {}, sc, {"sakoe_chiba_radius": 0})]
    out += [("dtw", {"itakura_max_slope": 3.}, el(P.ref_dtw), "eq")]
    out += [("frechet", kw, el(P.ref_frechet), "var") for kw in (None, sc)]
    soft = lambda a, b, kw: P.ref_softdtw(a, b, kw.get("gamma_sdtw", kw.get("gamma", 1.)), {k: v for k, v in kw.items() if "gamma" not in k})
    out += [("softdtw", kw, el(soft), "var") for kw in (None, {"gamma": .1}, {"gamma_sdtw": .5}, dict(sc, gamma=2.))]
    out += [("ctw", kw, (lambda tr, q, kw: P.matrix(lambda a, b: float(M.ctw(a, b, **kw)), q, tr)), "long") for kw in (None, {"max_iter": 2, "n_components": 1})]
    out += [("euclidean", None, eu(lambda a, b: np.sqrt(((a - b) ** 2).sum())), "eq"),
            ("sqeuclidean", None, eu(lambda a, b: ((a - b) ** 2).sum()), "eq"),
            ("cityblock", None, eu(lambda a, b: np.abs(a - b).sum()), "eq")]
    out += [("sax", kw, (lambda tr, q, kw: sax_ref(tr, q, **kw)), "sax") for kw in
            ({"n_segments": 3, "alphabet_size_avg": 5}, {"n_segments": 3, "alphabet_size_avg": 6, "scale": True}, {"n_segments": 2})]
    return out


def check_neighbours(dist, ind, D, k, what, self_search=False):
    """Exhaustive search over the reference matrix D (queries x training)."""
    n = D.shape[1] - (1 if self_search else 0)
    k = min(k, n)
    ind, dist = np.asarray(ind), np.asarray(dist)
    equal(ind.shape, (D.shape[0], k), what + ": shape of the indices")
    tol = 1e-6 * min(1., np.abs(D).max())
    for q in range(D.shape[0]):
        cand = [j for j in range(D.shape[1]) if not (self_search and j == q)]
        want = np.sort(D[q, cand])[:k]
        got = [int(j) for j in ind[q]]
        require(len(set(got)) == k and all(j in cand for j in got), f"{what}: neighbours {got} of series {q}")
        close(dist[q], want, f"{what}: distances of series {q}", rtol=1e-6, atol=tol)
        close(D[q, got], want, f"{what}: distances of the returned neighbours {got} of series {q}", rtol=1e-6, atol=tol)


def weights_of(dist, weights):
    if weights == "uniform":
        return np.ones_like(dist)
    if callable(weights):
        return weights(dist)
    w = np.empty_like(dist)
    for i, row in enumerate(dist):
        z = row == 0
        w[i] = z.astype(float) if z.any() else 1. / row
    return w


def inv1(d):
    return 1. / (1. + np.abs(d))


def run(ctx):
    from tslearn.neighbors import KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier, KNeighborsTimeSeriesRegressor
    nmax = ctx.pick(3, 4)
    for mi, (metric, kw, ref, kind) in enumerate(menu()):
        if not ctx.mine():
            continue
        for d in (1, 2):
            pl = {"var": lambda: pool(d), "eq": lambda: pool(d, True), "long": lambda: long_pool(d, ctx.pick(4, 6)),
                  "sax": lambda: [series(70 + k, 6, d) * .7 for k in range(6)]}[kind]()
            if kind == "long" and d == 1 and kw:
                continue
            full = ref(pl, pl, kw or {}) if metric != "sax" else None
            XQ = P.pad(pl)
            sizes = range(1, nmax + 1)
            for n in sizes:
                combos = list(itertools.permutations(range(len(pl)), n)) if n <= 2 and ctx.thorough else list(itertools.combinations(range(len(pl)), n))
                if ctx.quick:
                    combos = combos[mi % 4::{1: 4, 2: 14, 3: 28}[n]] if kind != "long" else combos[1::12]
                # repeated series and one larger training set
                combos += {2: [(3, 3)], 3: [(1, 4, 1)]}.get(n, []) if kind != "long" else []
                if n == nmax:
                    combos.append(tuple(range(len(pl)))[:6])
                for ci, combo in enumerate(combos):
                    one(ctx, metric, kw, ref, pl, combo, d, full, XQ, ci,
                        KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier, KNeighborsTimeSeriesRegressor)
    for metric, kw, ref, kind in menu():
        if kind == "long":
            continue
        for name, pl, eq in ladder(ctx.thorough):
            if not ctx.mine() or not eq and kind in ("eq", "sax") or name == "very-long" and kind != "eq":
                continue
            n = len(pl)
            full = ref(pl, pl, kw or {}) if metric != "sax" else None
            one(ctx, metric, kw, ref, pl, tuple(range(n - n // 3)), pl[0].shape[1], full, P.pad(pl), 0,
                KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier, KNeighborsTimeSeriesRegressor, ks=(1, 4, 17), name=name)
    if ctx.shard[0] == 0:
        forms(ctx)
        crowd(ctx)


def one(ctx, metric, kw, ref, pl, combo, d, full, XQ, ci, KN, KC, KR, ks=(), name=None):
    n = len(combo)
    tr = [pl[j] for j in combo]
    X = P.pad(tr)
    D = full[:, list(combo)] if full is not None else ref(tr, pl, kw or {})
    S = full[np.ix_(combo, combo)] if full is not None else ref(tr, tr, kw or {})
    y = np.array([j % 3 for j in combo])
    yr = np.array([float(j * j % 7) - 2.5 for j in combo])
    njobs = 2 if (ci + 5 * n + d + len(str(kw))) % ctx.pick(23, 11) == 1 else None
    base = dict(metric=metric, metric_params=None if kw is None else dict(kw))
    for k in sorted({1, 2, n, n + 1} | set(ks) if n < 10 else set(ks)):
        with ctx.case("kneighbors", metric=metric, kw=kw, d=d, data=name, train=combo, k=k, n_jobs=njobs):
            m = KN(n_neighbors=k, n_jobs=njobs, **base).fit(X)
            check_neighbours(*m.kneighbors(XQ), D, k, "queries")
            equal(np.asarray(m.kneighbors(XQ, return_distance=False)).shape[0], len(D), "indices only")
            k2 = 1 + (k % n)
            check_neighbours(*m.kneighbors(XQ, n_neighbors=k2), D, k2, "queries, explicit n_neighbors")
            if n > 1:
                check_neighbours(*m.kneighbors(), S, k, "training set itself", self_search=True)
        ctx.states += D.size
        ctx.transitions += D.shape[0]
        ctx.traces += 1
        for weights in ("uniform", "distance", inv1) if metric != "softdtw" else ("uniform", inv1):
            wname = weights if isinstance(weights, str) else "callable"
            if ctx.quick and (ci + k) % 3 != {"uniform": 0, "distance": 1, "callable": 2}[wname] and n > 1:
                continue
            with ctx.case("classifier", metric=metric, kw=kw, d=d, train=combo, k=k, weights=wname):
                labels = np.array(["c", "a", "b"])[y] if ci % 2 else y * 2 - 1
                c = KC(n_neighbors=k, weights=weights, n_jobs=njobs, **base).fit(X, labels)
                dist, ind = c.kneighbors(XQ)
                check_neighbours(dist, ind, D, k, "classifier queries")
                classes = np.unique(labels)
                equal(c.classes_, classes, "classes_")
                w = weights_of(dist, weights)
                votes = np.array([[sum(w[q, t] for t in range(ind.shape[1]) if labels[ind[q, t]] == cl) for cl in classes] for q in range(len(D))])
                pred = c.predict(XQ)
                for q in range(len(D)):
                    j = list(classes).index(pred[q])
                    require(votes[q, j] >= votes[q].max() - 1e-9, f"query {q}: predicted {pred[q]} with votes {votes[q]} for {classes}")
                close(c.predict_proba(XQ), votes / votes.sum(1, keepdims=True), "probabilities")
                if n > 1:
                    check_neighbours(*c.kneighbors(), S, k, "training set of the classifier", self_search=True)
                ctx.outcome(pred.astype(str), metric)
            if ctx.quick and ci % 2:
                continue
            with ctx.case("regressor", metric=metric, kw=kw, d=d, train=combo, k=k, weights=wname):
                t = np.stack([yr, yr[::-1]], 1) if ci % 2 else yr
                r = KR(n_neighbors=k, weights=weights, n_jobs=njobs, **base).fit(X, t)
                dist, ind = r.kneighbors(XQ)
                check_neighbours(dist, ind, D, k, "regressor queries")
                w = weights_of(dist, weights)
                want = np.array([np.average(t[ind[q]], axis=0, weights=w[q]) for q in range(len(D))])
                close(r.predict(XQ), want, "predictions")
            ctx.transitions += 2


def crowd(ctx):
    """Training sets of hundreds of series: every number of neighbours."""
    from tslearn.neighbors import KNeighborsTimeSeries as KN
    for n, d in ((300, 1), (700, 2)):
        A = np.array([series(5000 + k, 3, d) for k in range(n)])
        Q = np.array([series(9000 + k, 3, d) for k in range(8)])
        D = np.sqrt(((Q[:, None] - A[None]) ** 2).sum((2, 3)))
        S = np.sqrt(((A[:, None] - A[None]) ** 2).sum((2, 3)))
        m = KN(metric="euclidean").fit(A)
        for k in list(range(1, 12)) + [31, 64, 100, 255, n - 1, n]:
            with ctx.case("crowd", train=n, k=k):
                check_neighbours(*m.kneighbors(Q, n_neighbors=k), D, k, "queries")
                if k in (1, 5, 64):
                    check_neighbours(*m.kneighbors(n_neighbors=k), S, k, "training set itself", self_search=True)
            ctx.transitions += len(D)
            ctx.traces += 1


def forms(ctx):
    """Two-dimensional, list and padded queries and training sets; queries longer than any training series."""
    from tslearn.neighbors import KNeighborsTimeSeries as KN, KNeighborsTimeSeriesClassifier as KC
    eq = pool(1, True)
    for metric in ("dtw", "frechet", "softdtw", "euclidean"):
        X3 = np.array(eq[:5])
        Q3 = np.array(eq[3:])
        want = KN(n_neighbors=3, metric=metric).fit(X3).kneighbors(Q3)
        forms = {"2d": lambda A: A[:, :, 0], "list": lambda A: A.tolist(), "fortran": np.asfortranarray, "int": lambda A: A.astype(int)}
        if metric != "euclidean":
            forms["padded"] = lambda A: P.pad(list(A), extra=2)
        for a, b in itertools.product(forms, repeat=2):
            for cls in (KN, KC):
                if ctx.quick and (metric in ("frechet", "softdtw") or cls is KC) and (a != b and "int" in (a, b)):
                    continue
                with ctx.case("forms", metric=metric, train=a, query=b, cls=cls.__name__):
                    m = cls(n_neighbors=3, metric=metric)
                    m = m.fit(forms[a](X3)) if cls is KN else m.fit(forms[a](X3), [0, 1, 0, 1, 1])
                    if a == "padded" or metric != "euclidean" or True:
                        got = m.kneighbors(forms[b](Q3))
                        close(got[0], want[0], "distances")
                ctx.transitions += 1
    lp = pool(1)
    for metric, ref in (("dtw", P.ref_dtw), ("frechet", P.ref_frechet)):
        long = [np.array([[0.], [1.], [1.], [3.], [2.], [0.]]), np.array([[2.], [0.]])]
        for tr in list(itertools.combinations(lp, 3))[::ctx.pick(5, 1)]:
            with ctx.case("long-queries", metric=metric, train=[t.ravel() for t in tr]):
                for extra in (0, 3):
                    m = KN(n_neighbors=2, metric=metric).fit(P.pad(list(tr), extra=extra))
                    check_neighbours(*m.kneighbors(P.pad(long)), P.matrix(ref, long, list(tr)), 2, "long queries")
            ctx.transitions += 1
    for cls in (KN, KC):
        for metric in ("bogus", "gak"):
            with ctx.case("unsupported", metric=metric, cls=cls.__name__):
                try:
                    m = cls(n_neighbors=1, metric=metric)
                    m = m.fit(np.array(eq)) if cls is KN else m.fit(np.array(eq), list(range(8)))
                    r = m.kneighbors(np.array(eq)) if cls is KN else m.predict(np.array(eq))
                except ValueError:
                    continue
                require(False, f"unsupported metric accepted: {r!r:.200}")
