"""C18: kernel k-means, k-shape, DBSCAN and silhouette follow their definitions."""
import itertools

import numpy as np

from mc import paths as P
from mc.core import close, equal, require
from mc.elastic import ladder, series

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of the runs of each clustering algorithm as a transition system: every initial labelling / initial choice of centroids served by a "
             "scripted generator, in lockstep with a reference transition function; density clustering against breadth-first search on reference distances")
SHARDS = 8
RULE = ("kernel k-means: every initial labelling of 4..6 series into 2..3 clusters x kernel x weights x iteration caps, and sequences of initialisations; k-shape: every "
        "initial choice x iterations against a reference k-shape by direct sums; DBSCAN: every neighbourhood radius that changes the graph x min_ts x metric; silhouette: every "
        "labelling x metric against the textbook formula")
ASSUMPTIONS = ["datasets of 4..7 series of length 3..7, dims 1..2; plus a ladder of larger datasets (40 to 120 series, lengths up to 70 / 260, 5 features, amplitudes 1e-3, 1e5, offset 3e3); near-ties (relative 1e-8) in a reference argmin are skipped",
               "series given to k-shape are z-normalised, as its documentation asks, when training labels and predictions are compared"]


class Scripted(np.random.RandomState):
    """Serves the random labelling / choice of an initialisation from a script."""

    def __init__(self, script):
        super().__init__(0)
        self.script, self.served = [np.array(s) for s in script], 0

    def _next(self):
        self.served += 1
        return self.script[self.served - 1].copy()

    def randint(self, low, high=None, size=None, dtype=int):
        if self.served < len(self.script) and size is not None and np.prod(size) == len(self.script[self.served]):
            return self._next()
        return super().randint(low, high, size, dtype)

    def choice(self, a, size=None, replace=True, p=None):
        if self.served < len(self.script):
            return self._next()
        return super().choice(a, size, replace, p)


def pool(ctx):
    out = [("eq1", [series(k, 4) for k in range(5)]), ("eq2", [series(20 + k, 3, 2) for k in range(4)]),
           ("var", [series(40 + k, 3 + k % 3) for k in range(5)]),
           ("int", [np.array(v, float)[:, None] for v in ([0, 0, 1, 2], [0, 1, 1, 2], [3, 3, 4, 5], [4, 3, 3, 5], [9, 8, 9, 9])])]
    if ctx.thorough:
        out += [(f"e{s}", [series(s * 11 + k, 5) for k in range(6)]) for s in range(1, 4)]
        out += [(f"w{s}", [series(s * 17 + k, 3 + (k * s) % 4, 2) for k in range(5)]) for s in range(1, 4)]
    return out


def run(ctx):
    ctx.states += P.self_check()
    for members, part in (((0, 1, 2, 3), kernel_kmeans), ((0, 1, 2, 3, 5, 6, 7), large_kernel_kmeans), ((4, 5), kshape), (range(8), large_kshape), (range(8), cross_correlation),
                          ((6, 7), dbscan), ((6, 7), large_graph), ((7,), silhouette)):
        if ctx.team(*members):
            part(ctx)


# -- kernel k-means ---------------------------------------------------------

class NearTie(Exception):
    pass


def kkm_dist(K, lab, k, sw):
    return np.array([[2 - 2 * sum(sw[i] * K[x, i] for i in np.flatnonzero(lab == j)) / sw[lab == j].sum() for j in range(k)] for x in range(len(K))])


def assign(D):
    s = np.sort(D, axis=1)
    if D.shape[1] > 1 and (s[:, 1] - s[:, 0] < 1e-8 * np.maximum(1, abs(s[:, 0]))).any():
        raise NearTie
    return D.argmin(1)


def ref_kkm(K, lab, k, sw, max_iter, tol):
    """(labels the final distances were computed from, labels, inertia, iterations) or None with an empty cluster."""
    old = np.inf
    for it in range(1, max_iter + 1):
        if len(set(lab.tolist())) < k:
            return None
        D = kkm_dist(K, lab, k, sw)
        before, lab = lab, assign(D)
        if len(set(lab.tolist())) < k:
            return None
        inertia = D.min(1).sum()
        if abs(abs(old - inertia) - tol) < 1e-10:
            raise NearTie
        if abs(old - inertia) < tol:
            break
        old = inertia
    return before, lab, inertia, it


def kernels():
    from sklearn.metrics.pairwise import pairwise_kernels
    from tslearn.metrics import cdist_gak, sigma_gak

    def flat(name, **kw):
        return lambda A, B: pairwise_kernels(A.reshape(len(A), -1), B.reshape(len(B), -1), metric=name, **kw)

    def gak(sigma):
        return lambda A, B: cdist_gak(A, B, sigma=sigma)
    return [("gak", {"sigma": 1.5}, gak(1.5)), ("gak", None, gak(1.)), ("rbf", {"gamma": .05}, flat("rbf", gamma=.05)),
            ("gak", {"sigma": 4.}, gak(4.)), ("laplacian", {"gamma": .1}, flat("laplacian", gamma=.1)), ("cosine", None, flat("cosine"))]


def kernel_kmeans(ctx):
    from tslearn.clustering import KernelKMeans
    for name, data in pool(ctx):
        X = P.pad(data)
        var = np.isnan(X).any()
        d = X.shape[2]
        for m, (kernel, kp, kf) in enumerate(kernels()):
            if var and kernel != "gak" or ctx.quick and (m > 3 or m == 1 and not var):
                continue
            for k in (1, 2, 3):
                labelings = list(itertools.product(range(k), repeat=len(data)))
                if ctx.quick and len(labelings) > 30:
                    labelings = labelings[::len(labelings) // 25]
                if not ctx.mine():
                    continue
                with ctx.case("kernel", data=name, kernel=kernel, params=kp):
                    K = kf(X, X)
                Xn = P.pad([series(300 + j, X.shape[1] if kernel != "gak" else 2 + j, d) for j in range(3)], d=d)
                KN = kf(Xn, X)
                done = {}
                for w, weights in enumerate((None, [1.] * len(data), [.5, 3., 1., 2., .25, 1.][:len(data)], [0.] + [1.] * (len(data) - 1))):
                    sw = np.ones(len(data)) if weights is None else np.array(weights)
                    for a, lab in enumerate(labelings):
                        lab = np.array(lab)
                        if w and (a + w) % 2 and ctx.quick or w == 3 and any(sw[lab == j].sum() == 0 for j in range(k)):
                            continue
                        for mi, tol in ((1, 1e-6), (2, 1e-6), (50, 1e-6), (50, .05)):
                            if mi == 2 and w:
                                continue
                            ctx.transitions += mi if mi < 50 else 5
                            try:
                                ref = ref_kkm(K, lab, k, sw, mi, tol)
                            except (NearTie, ZeroDivisionError):
                                continue
                            if w == 3 and ref is not None and any(sw[ref[0] == j].sum() == 0 or sw[ref[1] == j].sum() == 0 for j in range(k)):
                                continue
                            if not w and mi == 50 and tol < 1e-3:
                                done[tuple(lab)] = ref
                            with ctx.case("kernel-kmeans", data=name, kernel=kernel, params=kp, k=k, labels=lab, weights=weights, max_iter=mi, tol=tol):
                                rs = Scripted([lab] * 10)
                                km = KernelKMeans(n_clusters=k, kernel=kernel, kernel_params=kp, max_iter=mi, tol=tol, random_state=rs, n_jobs=2 if a % 5 == 0 else None)
                                km.fit(X.copy(), sample_weight=None if weights is None else np.array(weights))
                                if rs.served == 0:
                                    continue
                                if ref is None:
                                    require(km._X_fit is None, f"a result although an empty cluster arises: {km.labels_}")
                                    continue
                                before, want, inertia, it = ref
                                equal(np.asarray(km.labels_), want, "labels")
                                close(km.inertia_, inertia, "inertia", rtol=1e-9, atol=1e-9)
                                require(km.n_iter_ == it, f"{km.n_iter_} iterations instead of {it}")
                                if np.array_equal(before, want):
                                    equal(np.asarray(km.predict(X)), want, "prediction of the training set")
                                if not any(sw[want == j].sum() == 0 for j in range(k)):
                                    DN = np.array([[2 - 2 * (sw * KN[x])[want == j].sum() / sw[want == j].sum() for j in range(k)] for x in range(3)])
                                    pl = np.asarray(km.predict(Xn))
                                    require((DN[np.arange(3), pl] <= DN.min(1) + 1e-9).all(), f"predicted {pl}, distances {DN.tolist()}")
                                ctx.outcome(want, round(float(inertia), 9))
                            ctx.traces += 1
                sequences(ctx, KernelKMeans, X, kernel, kp, k, done, name)
                seeded(ctx, KernelKMeans, X, K, kernel, kp, k, name)


def sequences(ctx, KernelKMeans, X, kernel, kp, k, done, name):
    """Multiple initialisations keep the one of lowest inertia; failed ones are not counted."""
    good = sorted((l for l, r in done.items() if r), key=lambda l: done[l][2])
    menu = list(dict.fromkeys(good[:1] + good[len(good) // 2:len(good) // 2 + 1] + good[-1:])) + [l for l, r in done.items() if not r][:1]
    if not good:
        return
    for n_init in (1, 2, 3):
        for seq in itertools.product(menu, repeat=n_init):
            with ctx.case("initialisations", data=name, kernel=kernel, params=kp, k=k, sequence=seq):
                rs = Scripted(list(seq) + [good[0]] * n_init)
                km = KernelKMeans(n_clusters=k, kernel=kernel, kernel_params=kp, n_init=n_init, random_state=rs).fit(X.copy())
                if rs.served < n_init:
                    continue
                used = [done[tuple(l)] for l in rs.script[:rs.served]]
                require(sum(u is not None for u in used) == n_init, f"{rs.served} attempts, {n_init} initialisations")
                best = min(u[2] for u in used if u)
                close(km.inertia_, best, "lowest inertia", rtol=1e-9, atol=1e-9)
                require(any(u and abs(u[2] - best) < 1e-9 and np.array_equal(u[1], km.labels_) and u[3] == km.n_iter_ for u in used), "labels or iterations of another initialisation")
            ctx.traces += 1


def seeded(ctx, KernelKMeans, X, K, kernel, kp, k, name):
    for seed, n_init in itertools.product(range(ctx.pick(2, 6)), (1, 4)):
        with ctx.case("seeded", data=name, kernel=kernel, params=kp, k=k, seed=seed, n_init=n_init):
            km = KernelKMeans(n_clusters=k, kernel=kernel, kernel_params=kp, n_init=n_init, random_state=seed)
            lab = np.asarray(km.fit_predict(X.copy())) if km is not None else None
            if km._X_fit is None:
                continue
            D = kkm_dist(K, lab, k, np.ones(len(X)))
            got = np.asarray(km.predict(X))
            require((D[np.arange(len(X)), got] <= D.min(1) + 1e-9).all(), f"predicted {got}, distances {D.tolist()}")
        ctx.traces += 1
    if kernel == "gak":
        from tslearn.metrics import cdist_gak
        with ctx.case("auto-sigma", data=name, k=k):
            km = KernelKMeans(n_clusters=k, kernel="gak", kernel_params={"sigma": "auto"}, random_state=0).fit(X.copy())
            if km._X_fit is not None:
                D = kkm_dist(cdist_gak(X, X, sigma=km.sigma_gak_), np.asarray(km.labels_), k, np.ones(len(X)))
                got = np.asarray(km.predict(X))
                require((D[np.arange(len(X)), got] <= D.min(1) + 1e-9).all(), f"predicted {got}, distances {D.tolist()}")


def large_kernel_kmeans(ctx):
    """Many, long, wide, tiny and huge series from seeded starts."""
    from tslearn.clustering import KernelKMeans
    from tslearn.metrics import cdist_gak, sigma_gak
    for name, data, eq in ladder(ctx.thorough):
        if max(map(len, data)) > 80 or not ctx.mine():
            continue
        X = P.pad(data)
        amp = max(np.abs(x).max() for x in data)
        for k, weights, seed, w in ((2, None, 0, 3.), (4, True, 1, 1.), (3, None, 2, 10.)):
            sw = np.ones(len(data)) if weights is None else np.array([.25 + (7 * i) % 5 for i in range(len(data))])
            K = cdist_gak(X, X, sigma=w * amp)
            for mi in (1, 3, 50):
                with ctx.case("large", data=name, k=k, seed=seed, max_iter=mi, sigma=w * amp):
                    start = np.random.RandomState(seed).randint(k, size=len(data))
                    km = KernelKMeans(n_clusters=k, kernel="gak", kernel_params={"sigma": w * amp}, max_iter=mi, random_state=Scripted([start] * 10)).fit(
                        X.copy(), sample_weight=None if weights is None else sw)
                    try:
                        ref = ref_kkm(K, start, k, sw, mi, 1e-6)
                    except NearTie:
                        continue
                    require((km._X_fit is None) == (ref is None), "a result with or without an empty cluster")
                    if ref is not None:
                        equal(np.asarray(km.labels_), ref[1], "labels")
                        close(km.inertia_, ref[2], "inertia", rtol=1e-8)
                        require(km.n_iter_ == ref[3], f"{km.n_iter_} iterations instead of {ref[3]}")
                        if np.array_equal(ref[0], ref[1]):
                            equal(np.asarray(km.predict(X)), ref[1], "prediction of the training set")
                ctx.traces += 1
                ctx.transitions += mi


# -- k-shape ----------------------------------------------------------------

def ncc(x, y):
    """Normalised cross-correlation at every shift, by direct sums: entry s+sz-1 slides y by s."""
    sz = len(x)
    den = np.sqrt((x ** 2).sum() * (y ** 2).sum())
    out = []
    for s in range(-(sz - 1), sz):
        out.append(sum((x[i] * y[i - s]).sum() for i in range(sz) if 0 <= i - s < sz))
    return np.array(out) / den if den >= 1e-9 else np.zeros(len(out))


def shift(ref, x):
    """x slid to its best match with ref."""
    c = ncc(ref, x)
    o = np.sort(c)
    if len(o) > 1 and o[-1] - o[-2] < 1e-8:
        raise NearTie
    s = int(c.argmax()) - (len(x) - 1)
    out = np.zeros_like(x)
    for i in range(len(x)):
        if 0 <= i - s < len(x):
            out[i] = x[i - s]
    return out


def znorm(X):
    s = X.std(1, keepdims=True)
    return (X - X.mean(1, keepdims=True)) / np.where(s == 0, 1, s)


def extract(center, part):
    Xp = np.array([shift(center, x) for x in part])
    cols = []
    sz = Xp.shape[1]
    for f in range(Xp.shape[2]):
        Q = np.eye(sz) - 1. / sz
        w, v = np.linalg.eigh(Q.T @ (Xp[:, :, f].T @ Xp[:, :, f]) @ Q)
        if sz > 1 and w[-1] - w[-2] < 1e-6 * max(1, w[-1]):
            raise NearTie
        mu = v[:, -1:]
        a, b = (np.linalg.norm(Xp - m, axis=(1, 2)).sum() for m in (mu, -mu))
        if abs(a - b) < 1e-8:
            raise NearTie
        cols.append(mu if a <= b else -mu)
    return np.hstack(cols)


def ref_kshape(X, idx, max_iter, tol):
    """Centroids, labels, inertia, iterations of the reference; None with an empty cluster."""
    C = X[list(idx)].copy()
    k = len(C)

    def step(C):
        D = np.array([[1 - ncc(x, c).max() for c in C] for x in X])
        lab = assign(D)
        if len(set(lab.tolist())) < k:
            return None
        return lab, (D.min(1) ** 2).mean()
    cur = step(C)
    if cur is None:
        return None
    old = np.inf
    for it in range(1, max_iter + 1):
        prev, prev_cur = C, cur
        C = znorm(np.array([extract(C[j], X[cur[0] == j]) for j in range(k)]))
        cur = step(C)
        if cur is None:
            return None
        delta = old - cur[1]
        if abs(abs(delta) - tol) < 1e-9 or abs(delta) < 1e-9:
            raise NearTie
        if abs(delta) < tol or delta < 0:
            return prev, prev_cur[0], prev_cur[1], it
        old = cur[1]
    return C, cur[0], cur[1], it


def kshape_pool(ctx):
    out = [("k5", znorm(np.array([series(60 + k, 5) for k in range(5)]))), ("k6d2", znorm(np.array([series(80 + k, 6, 2) for k in range(5)]))),
           ("sin", znorm(np.array([[[np.sin(.9 * t + p) + (k > 2) * .4 * t] for t in range(7)] for k, p in enumerate((0., .4, 2., .1, 1., 2.5))])))]
    if ctx.thorough:
        out += [(f"k{s}", znorm(np.array([series(s * 31 + k, 4 + s, 1 + s % 2) for k in range(6)]))) for s in range(1, 7)]
    return out


def kshape(ctx):
    from tslearn.clustering import KShape
    for name, X in kshape_pool(ctx):
        sz, d = X.shape[1:]
        Q = np.array([series(400 + j, sz, d) * (1 + j) + j for j in range(len(X) + 3)])      # more than there are training series
        for k in (1, 2, 3):
            if not ctx.mine():
                continue
            inits = list(itertools.permutations(range(len(X)), k))
            done = {}
            for idx in inits[::1 if ctx.thorough or k < 3 else 4]:
                for mi, tol in ((1, 1e-6), (2, 1e-6), (3, 1e-6), (100, 1e-6), (100, .02)):
                    ctx.transitions += min(mi, 5)
                    ref = lock = None
                    try:
                        ref = ref_kshape(X, idx, mi, tol)
                        lock = True
                    except NearTie:
                        pass
                    if mi == 100 and tol < 1e-3 and lock:
                        done[idx] = ref
                    with ctx.case("kshape", data=name, init=idx, max_iter=mi, tol=tol):
                        ks = KShape(n_clusters=k, init=X[list(idx)].copy(), max_iter=mi, tol=tol, random_state=0).fit(X.copy())
                        if ks.labels_ is None or ks._X_fit is None:
                            require(not lock or ref is None, "no result although no cluster gets empty")
                            continue
                        consistent(ks, X, Q, k)
                        if lock:
                            require(ref is not None, "a result although a cluster gets empty")
                            C, lab, inertia, it = ref
                            close(ks.cluster_centers_, C, "centroids", rtol=1e-6, atol=1e-7)
                            equal(np.asarray(ks.labels_), lab, "labels")
                            require(ks.n_iter_ == it, f"{ks.n_iter_} iterations, reference {it}")
                        ctx.outcome(np.round(ks.cluster_centers_, 6))
                    ctx.traces += 1
            menu = [i for i, r in done.items() if r]
            menu.sort(key=lambda i: done[i][2])
            menu = list(dict.fromkeys(menu[:1] + menu[len(menu) // 2:len(menu) // 2 + 1] + menu[-1:])) + [i for i, r in done.items() if not r][:1]
            for n_init in (1, 2, 3) if any(done[i] for i in menu) else ():
                for seq in itertools.product(menu, repeat=n_init):
                    with ctx.case("kshape-initialisations", data=name, k=k, sequence=seq):
                        rs = Scripted(list(seq) + [menu[0]] * n_init)
                        ks = KShape(n_clusters=k, init="random", n_init=n_init, random_state=rs).fit(X.copy())
                        if rs.served < n_init:
                            continue
                        used = [done[tuple(i)] for i in rs.script[:rs.served]]
                        best = min(u[2] for u in used if u)
                        close(ks.inertia_, best, "lowest inertia", rtol=1e-7, atol=1e-9)
                        require(any(u and abs(u[2] - best) < 1e-9 and np.allclose(u[0], ks.cluster_centers_, atol=1e-6) for u in used), "centroids of another initialisation")
                        consistent(ks, X, Q, k)
                    ctx.traces += 1
            for seed in range(2):
                with ctx.case("kshape-seeded", data=name, k=k, seed=seed):
                    ks = KShape(n_clusters=k, random_state=seed, n_init=2)
                    lab = ks.fit_predict(X.copy())
                    if ks._X_fit is not None:
                        equal(np.asarray(lab), np.asarray(ks.labels_), "fit_predict")
                        consistent(ks, X, Q, k)
                ctx.traces += 1


def large_kshape(ctx):
    from tslearn.clustering import KShape
    for name, data, eq in ladder(ctx.thorough):
        if not eq or name == "very-long" or not ctx.mine():
            continue
        X = znorm(np.array(data))
        for k, seed, n_init in ((2, 0, 1), (3, 1, 2), (6, 2, 1)):
            if 2 * k > len(X):
                continue
            for mi in (1, 4, 100):
                with ctx.case("large-kshape", data=name, k=k, seed=seed, n_init=n_init, max_iter=mi):
                    ks = KShape(n_clusters=k, max_iter=mi, n_init=n_init, random_state=seed).fit(X.copy())
                    if ks._X_fit is not None:
                        consistent(ks, X, np.array(data)[:5], k)
                ctx.traces += 1


def consistent(ks, X, Q, k):
    C = ks.cluster_centers_
    lab = np.asarray(ks.labels_)
    D = np.array([[1 - ncc(x, c).max() for c in C] for x in X])
    require(C.shape == (k,) + X.shape[1:], f"centroids of shape {C.shape}")
    require((D[np.arange(len(X)), lab] <= D.min(1) + 1e-9).all(), f"labels {lab} are not the most correlated centroids: {D.tolist()}")
    close(ks.inertia_, (D[np.arange(len(X)), lab] ** 2).mean(), "inertia", atol=1e-9)
    got = np.asarray(ks.predict(X.copy()))
    require((D[np.arange(len(X)), got] <= D.min(1) + 1e-9).all(), f"predicted {got} on the training set: {D.tolist()}")
    for Z in (Q, Q[:1], Q[2:4] * 50 - 7, np.concatenate([Q, np.full((1,) + Q.shape[1:], 3.)])):
        DQ = np.array([[1 - ncc(x, c).max() for c in C] for x in znorm(Z)])
        got = np.asarray(ks.predict(Z.copy()))
        require((DQ[np.arange(len(Z)), got] <= DQ.min(1) + 1e-9).all(), f"predicted {got} for new series: {DQ.tolist()}")


def cross_correlation(ctx):
    from tslearn.metrics.cycc import cdist_normalized_cc, normalized_cc, y_shifted_sbd_vec
    sizes = list(range(1, ctx.pick(10, 18))) + [16, 17, 32, 33, 64, 65]
    for sz, d, amp in itertools.product(sizes, (1, 2, 3), (1., 1e-3, 1e4)):
        if sz > 9 and d == 2 or amp != 1. and sz not in (3, 8, 33) or not ctx.mine():
            continue
        A = amp * np.array([series(500 + k, sz, d) for k in range(4)] + [np.zeros((sz, d)), np.full((sz, d), 2.), -series(500, sz, d)])
        B = np.array([amp * series(600 + k, sz, d) for k in range(2)] + [np.roll(A[0], 1, axis=0), A[1] * 3.5])
        nA, nB = (np.sqrt((M ** 2).sum((1, 2))) for M in (A, B))
        for norms in (True, False):
            with ctx.case("ncc", size=sz, dims=d, amplitude=amp, norms=norms):
                for a, b in itertools.product(range(len(A)), range(len(B))):
                    close(normalized_cc(A[a], B[b], nA[a], nB[b]) if norms else normalized_cc(A[a], B[b]), ncc(A[a], B[b]), "cross-correlation", atol=1e-9)
                W = np.array([[ncc(x, y).max() for y in B] for x in A])
                ma, mb = (nA.copy(), nB.copy()) if norms else (-np.ones(len(A)), -np.ones(len(B)))
                close(cdist_normalized_cc(A, B, norms1=ma, norms2=mb, self_similarity=False), W, "matrix", atol=1e-9)
                S = np.array([[ncc(x, y).max() for y in A] for x in A])
                np.fill_diagonal(S, 0)
                close(cdist_normalized_cc(A, A, norms1=nA.copy() if norms else -np.ones(len(A)), norms2=nA.copy() if norms else -np.ones(len(A)), self_similarity=True), S,
                      "self-similarity matrix (zero diagonal)", atol=1e-9)
                for b in range(len(B)):
                    part = [a for a in range(len(A)) if nA[a] > 0]
                    try:
                        want = np.array([shift(B[b], A[a]) for a in part])
                    except NearTie:
                        continue
                    close(y_shifted_sbd_vec(B[b], A[part], norm_ref=nB[b] if norms else -1., norms_dataset=nA[part].copy() if norms else -np.ones(len(part))), want,
                          "series slid to the reference", atol=1e-8 * min(1., amp))
                ctx.outcome(np.round(W, 8))
            ctx.states += len(A) * len(B) * (2 * sz - 1)
            ctx.traces += 1


# -- DBSCAN -----------------------------------------------------------------

def sym_distances(data, metric, mp):
    mp = mp or {}
    if metric == "dtw":
        return P.matrix(lambda a, b: P.ref_dtw(a, b, mp), data, data)
    if metric == "frechet":
        return P.matrix(lambda a, b: P.ref_frechet(a, b, mp), data, data)
    if metric == "softdtw_normalized":
        g = mp.get("gamma", 1.)
        S = P.matrix(lambda a, b: P.ref_softdtw(a, b, g), data, data)
        return S - .5 * (np.diag(S)[:, None] + np.diag(S)[None, :])
    return P.matrix(lambda a, b: np.sqrt(((a - b) ** 2).sum()), data, data)


def dbscan(ctx):
    from tslearn.clustering import TimeSeriesDBSCAN
    menu = [("dtw", None), ("dtw", {"sakoe_chiba_radius": 1}), ("frechet", None), ("frechet", {"itakura_max_slope": 2.}), ("euclidean", None), ("precomputed", None),
            ("softdtw_normalized", {"gamma": .5}), ("softdtw_normalized", None), ("dtw", {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 0, "n_jobs": 2})]
    if ctx.thorough:
        menu.append(("ctw", {"max_iter": 5}))
    for (name, data), (metric, mp) in itertools.product(pool(ctx), menu):
        X = P.pad(data)
        if np.isnan(X).any() and metric in ("euclidean",) or not ctx.mine():
            continue
        if metric == "frechet" and mp and not all(P.has_path(P.itakura(len(a), len(b), 2.)) for a, b in itertools.product(data, data)):
            continue
        kw = {k: v for k, v in (mp or {}).items() if k != "n_jobs"}
        if metric == "ctw":
            from tslearn.metrics import cdist_ctw
            R = cdist_ctw(X, X, **kw)
        else:
            R = sym_distances(data, "dtw" if metric == "precomputed" else metric, kw)
        if metric == "precomputed":
            X = R
        vals = sorted(set(np.round(R[~np.eye(len(R), dtype=bool)], 7).tolist()))
        cuts = [v + 1e-4 for v in vals] + [max(vals[0] / 2, 1e-3)] + ([0.] if metric == "precomputed" else [])
        for eps, mt in itertools.product(cuts, range(1, len(data) + 2)):
            if (np.abs(R - eps) < 1e-6).any() and eps:
                continue
            core, comp, border = P.ref_dbscan(R, eps, mt)
            for nj in (None, 2) if mt == 2 else (None,):
                with ctx.case("dbscan", data=name, metric=metric, params=mp, eps=eps, min_ts=mt, n_jobs=nj):
                    db = TimeSeriesDBSCAN(eps=eps, min_ts=mt, metric=metric, metric_params=mp, n_jobs=nj)
                    lab = np.asarray(db.fit_predict(X.copy()))
                    equal(np.asarray(db.labels_), lab, "fit_predict")
                    equal(sorted(np.asarray(db.core_ts_indices_).tolist()), core, "core series")
                    groups = {}
                    for i in core:
                        groups.setdefault(comp[i], set()).add(int(lab[i]))
                    require(all(len(g) == 1 and -1 not in g for g in groups.values()), f"labels {lab}: connected core series have different labels")
                    require(len(set().union(*groups.values())) == len(groups) if groups else True, f"labels {lab}: unconnected clusters share a label")
                    require(set(int(v) for v in lab) - {-1} == set(range(len(groups))), f"labels {lab}: {len(groups)} clusters")
                    for i, cs in border.items():
                        require((lab[i] == -1) if not cs else any(groups[c] == {int(lab[i])} for c in cs), f"labels {lab}: series {i} is no core series and near to clusters {cs}")
                    if len(core):
                        C = np.asarray(db.components_)
                        XX = X[..., None] if metric == "precomputed" else X
                        close(C.reshape((len(core),) + XX.shape[1:]), XX[core], "components")
                    else:
                        require(len(db.components_) == 0, "components without core series")
                    ctx.outcome(lab)
                ctx.traces += 1
            ctx.states += len(data)


def large_graph(ctx):
    """Density clustering and silhouette of many, long, wide, tiny and huge series."""
    from tslearn.clustering import TimeSeriesDBSCAN, silhouette_score
    for (name, data, eq), metric in itertools.product(ladder(ctx.thorough), ("dtw", "frechet", "euclidean", "softdtw_normalized")):
        if not eq and metric == "euclidean" or name == "very-long" or not ctx.mine():
            continue
        X = P.pad(data)
        R = sym_distances(data, metric, {})
        n = len(data)
        vals = np.sort(R[np.triu_indices(n, 1)])
        for q, mt in itertools.product((.02, .05, .1, .3, .7), (2, 4)):
            a = int(q * (len(vals) - 1))
            eps = (vals[a] + vals[a + 1]) / 2
            if vals[a + 1] - vals[a] < 1e-6 * abs(vals[a]) or eps <= 0:
                continue
            with ctx.case("large-dbscan", data=name, metric=metric, eps=eps, min_ts=mt):
                core, comp, border = P.ref_dbscan(R, eps, mt)
                db = TimeSeriesDBSCAN(eps=eps, min_ts=mt, metric=metric).fit(X.copy())
                lab = np.asarray(db.labels_)
                equal(sorted(np.asarray(db.core_ts_indices_).tolist()), core, "core series")
                pairs = {(comp[i], int(lab[i])) for i in core}
                require(len(pairs) == len({p[0] for p in pairs}) == len({p[1] for p in pairs}) and -1 not in {p[1] for p in pairs}, f"labels {lab}")
                names = dict(pairs)
                require(all((lab[i] == -1) if not cs else int(lab[i]) in {names[c] for c in cs} for i, cs in border.items()), f"border labels {lab}")
            ctx.traces += 1
        if metric == "frechet":
            continue
        for k in (2, 3, n - 1):
            lab = np.array([(5 * i + i // 3) % k for i in range(n)])
            if len(set(lab.tolist())) < 2:
                continue
            with ctx.case("large-silhouette", data=name, metric=metric, labels=lab):
                got = silhouette_score(X.copy(), lab, metric={"softdtw_normalized": "softdtw"}.get(metric, metric))
                close(float(got), ref_silhouette(R, lab), "silhouette", atol=1e-7)
            ctx.traces += 1


# -- silhouette -------------------------------------------------------------

def ref_silhouette(R, lab):
    n, out = len(lab), []
    for i in range(n):
        own = [j for j in range(n) if lab[j] == lab[i] and j != i]
        if not own:
            out.append(0.)
            continue
        a = np.mean([R[i, j] for j in own])
        b = min(np.mean([R[i, j] for j in range(n) if lab[j] == c]) for c in set(lab) if c != lab[i])
        out.append((b - a) / max(a, b) if max(a, b) else 0.)
    return float(np.mean(out))


def silhouette(ctx):
    from tslearn.clustering import silhouette_score
    from tslearn.metrics import dtw

    def scaled(x, y, p=1.):
        return float(p + abs(x - y).sum() ** p) if len(x) == len(y) and not np.array_equal(x, y) else float(abs(x.sum() - y.sum()))
    sc = {"sakoe_chiba_radius": 1}
    for name, data in pool(ctx):
        X = P.pad(data)
        var = np.isnan(X).any()
        base = {m: sym_distances(data, *m_) for m, m_ in {"dtw": ("dtw", {}), "dtwsc": ("dtw", sc), "soft": ("softdtw_normalized", {}), "soft.3": ("softdtw_normalized", {"gamma": .3})}.items()}
        menu = [(base["dtw"], dict(metric="dtw")), (base["dtw"], dict()), (base["dtwsc"], dict(metric="dtw", metric_params=sc)), (base["dtwsc"], dict(metric="dtw", **sc)),
                (base["dtwsc"], dict(metric="dtw", metric_params={"sakoe_chiba_radius": 3}, sakoe_chiba_radius=1)),
                (base["dtw"], dict(metric="dtw", n_jobs=2)), (base["dtw"], dict(metric="dtw", metric_params={"n_jobs": 2})),
                (base["soft"], dict(metric="softdtw")), (base["soft.3"], dict(metric="softdtw", metric_params={"gamma": .3})), (base["soft.3"], dict(metric="softdtw", gamma=.3)),
                (base["dtw"], "precomputed")]
        if not var:
            menu += [(sym_distances(data, "euclidean", {}), dict(metric="euclidean")), (base["dtw"], dict(metric=dtw)), (base["dtwsc"], dict(metric=dtw, metric_params=sc)),
                     (base["dtwsc"], dict(metric=dtw, **sc)),
                     (P.matrix(lambda a, b: scaled(a, b, 2.), data, data), dict(metric=scaled, metric_params={"p": 2.}))]
        if not ctx.mine():
            continue
        for lab in itertools.product(range(3), repeat=len(data)):
            if len(set(lab)) < 2 or len(set(lab)) > len(data) - 1 or lab[0] != 0 or (ctx.quick and len(data) > 4 and sum(v * 3 ** i for i, v in enumerate(lab)) % 3):
                continue
            for n, (R, kw) in enumerate(menu):
                pre = kw == "precomputed"
                with ctx.case("silhouette", data=name, labels=lab, config=n, args=str(kw)):
                    got = silhouette_score(R.copy(), list(lab), metric="precomputed") if pre else silhouette_score(X.copy(), np.array(lab), **kw)
                    close(float(got), ref_silhouette(R, lab), "silhouette", atol=1e-8)
                ctx.traces += 1
            ctx.outcome(lab)
