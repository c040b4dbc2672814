"""C11: results depend only on the values of the series, and inputs are never modified."""
import copy
import itertools
import warnings

import numpy as np

from mc import zoo
from mc.core import require, close, Mismatch

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive exploration of the representation graph (container, element type, memory layout, trailing padding, "
             "write protection) of every input of the real measures, barycenters and estimators, against the canonical representation")
SHARDS = 5
RULE = ("every function x every assignment of representations to its series arguments; every estimator x every representation of "
        "its training set x every representation of its queries; results equal those of the canonical float arrays, and a "
        "byte-for-byte snapshot of every argument is unchanged after the call")
ASSUMPTIONS = ["integer-valued series, so that all representations hold the same values", "lb_envelope and lb_keogh excluded from padding",
               "padding only for the estimators that support series of different lengths and whose parameters do not refer to the padded length"]

S1 = {1: [[3.], [0.], [-2.], [1.], [4.]], 2: [[3., 1.], [0., 2.], [-2., 5.], [1., 1.], [4., 0.]]}
S2 = {1: [[1.], [5.], [-1.], [0.]], 2: [[1., 0.], [5., 5.], [-1., 2.], [0., 3.]]}


def strided(a):
    big = np.full(tuple(2 * n + 1 for n in a.shape), 77.)
    v = big[tuple(slice(1, 2 * n + 1, 2) for n in a.shape)]
    v[...] = a
    return v


def backwards(a):
    idx = tuple(slice(None, None, -1) for _ in a.shape)
    return np.ascontiguousarray(a[idx])[idx]


def readonly(a):
    a = a.copy()
    a.setflags(write=False)
    return a


def padded(a, k, axis):
    w = [(0, 0)] * a.ndim
    w[axis] = (0, k)
    return np.pad(a, w, constant_values=np.nan)


def reps(s, pads=True):
    """Representations of one series given as a list of lists."""
    a = np.array(s, dtype=float)
    out = {"array": a.copy(), "list": copy.deepcopy(s), "ints": a.astype(int), "intlist": a.astype(int).tolist(),
           "int32": a.astype(np.int32), "fortran": np.asfortranarray(a), "strided": strided(a), "backwards": backwards(a),
           "readonly": readonly(a), "float32": a.astype(np.float32), "tuple": tuple(tuple(r) for r in s)}
    if a.shape[1] == 1:
        out.update({"flat": a[:, 0].copy(), "flatlist": a[:, 0].tolist(), "flatints": a[:, 0].astype(int),
                    "flatstrided": strided(a)[:, 0], "flatreadonly": readonly(a[:, 0])})
    if pads:
        out.update({"pad1": padded(a, 1, 0), "pad3": padded(a, 3, 0), "padlist": padded(a, 2, 0).tolist(),
                    "padstrided": strided(padded(a, 2, 0)), "padreadonly": readonly(padded(a, 1, 0))})
    return out


def set_reps(S, pads=True, ragged=True):
    """Representations of one dataset given as a list of (l, d) arrays."""
    n, d = len(S), S[0].shape[1]
    m = max(len(s) for s in S)
    eq = all(len(s) == m for s in S)
    X = np.full((n, m, d), np.nan)
    for i, s in enumerate(S):
        X[i, :len(s)] = s
    out = {"array": X.copy(), "fortran": np.asfortranarray(X), "strided": strided(X), "backwards": backwards(X),
           "readonly": readonly(X), "transposed": np.ascontiguousarray(X.transpose(2, 0, 1)).transpose(1, 2, 0)}
    if eq:
        out.update({"list": X.tolist(), "ints": X.astype(int), "intlist": X.astype(int).tolist(), "float32": X.astype(np.float32)})
    if ragged:
        out.update({"lists": [s.tolist() for s in S], "arrays": [s.copy() for s in S], "mixed": [s.tolist() if i % 2 else strided(s) for i, s in enumerate(S)]})
    if pads:
        out.update({"pad1": padded(X, 1, 1), "pad3": padded(X, 3, 1), "padstrided": strided(padded(X, 2, 1)), "padreadonly": readonly(padded(X, 1, 1))})
    return out


def freeze(o):
    """Snapshot of a value that shows any modification."""
    if isinstance(o, np.ndarray):
        base = o
        while isinstance(base.base, np.ndarray):
            base = base.base
        return ("array", o.dtype.str, o.shape, o.strides, base.tobytes(), o.flags.writeable)
    if hasattr(o, "detach"):
        return ("tensor", str(o.dtype), tuple(o.shape), o.detach().numpy().tobytes(), o.requires_grad)
    if isinstance(o, dict):
        return ("dict", [(k, freeze(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [freeze(v) for v in o])
    return repr(o)


def normal(r):
    """Results as nested plain values; trailing all-NaN rows of time series dropped."""
    if hasattr(r, "detach"):
        r = r.detach().cpu().numpy()
    if isinstance(r, np.ndarray):
        if r.ndim == 3:
            keep = r.shape[1]
            while keep and np.isnan(r[:, keep - 1]).all():
                keep -= 1
            r = r[:, :keep]
        return r.astype(float) if r.dtype.kind in "fiub" else r.tolist()
    if isinstance(r, dict):
        return {str(k): normal(v) for k, v in r.items()}
    if isinstance(r, (list, tuple)):
        if len(r) and all(isinstance(v, tuple) for v in r):
            return np.array([tuple(int(x) for x in v) for v in r], dtype=float) if all(len(v) == len(r[0]) for v in r) and not hasattr(r[0][0], "shape") else [normal(v) for v in r]
        return [normal(v) for v in r]
    if isinstance(r, (bool, int, float, np.generic)) and not isinstance(r, (str, np.str_)):
        return np.asarray(float(r))
    return r


def same(a, b, what, tol=1e-7):
    if isinstance(a, dict):
        require(isinstance(b, dict) and sorted(a) == sorted(b), f"{what}: keys")
        for k in a:
            same(a[k], b[k], f"{what}[{k}]", tol)
    elif isinstance(a, list):
        require(isinstance(b, list) and len(a) == len(b), f"{what}: {a!r:.200} vs {b!r:.200}")
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, f"{what}[{i}]", tol)
    elif isinstance(a, np.ndarray) and a.dtype.kind == "f":
        require(isinstance(b, np.ndarray), f"{what}: {a!r:.100} vs {b!r:.100}")
        close(a, b, what, rtol=tol, atol=tol)
    else:
        require(a == b, f"{what}: {a!r:.200} vs {b!r:.200}")


def unchanged(before, args, what):
    after = [freeze(a) for a in args]
    for k, (x, y) in enumerate(zip(before, after)):
        require(x == y, f"{what}: argument {k} was modified")


def run(ctx):
    warnings.simplefilter("ignore")
    pairs(ctx)
    sets(ctx)
    precomputed(ctx)
    if ctx.shard[0] == ctx.shard[1] - 1:
        barycenters(ctx)
        helpers(ctx)
    estimators(ctx)


# -- functions of two series ------------------------------------------------------

def pair_menu():
    from tslearn import metrics as M
    sc = dict(global_constraint="sakoe_chiba", sakoe_chiba_radius=2)
    it = dict(global_constraint="itakura", itakura_max_slope=3.)
    two = {
        "dtw": lambda a, b: M.dtw(a, b), "dtw-sc": lambda a, b: M.dtw(a, b, **sc), "dtw_path": lambda a, b: M.dtw_path(a, b, **it),
        "dtw_path_from_metric": lambda a, b: M.dtw_path_from_metric(a, b, metric="sqeuclidean"),
        "dtw_path_from_metric-callable": lambda a, b: M.dtw_path_from_metric(a, b, metric=lambda x, y: float(np.abs(np.asarray(x) - np.asarray(y)).sum())),
        "limited": lambda a, b: M.dtw_limited_warping_length(a, b, 6), "limited_path": lambda a, b: M.dtw_path_limited_warping_length(a, b, 6),
        "subsequence": lambda a, b: M.dtw_subsequence_path(a, b), "subsequence_costs": lambda a, b: M.subsequence_cost_matrix(a, b),
        "lcss": lambda a, b: M.lcss(a, b, eps=1.5), "lcss_path": lambda a, b: M.lcss_path(a, b, eps=1.5, **sc),
        "lcss_path_from_metric": lambda a, b: M.lcss_path_from_metric(a, b, eps=2., metric="cityblock"),
        "frechet": lambda a, b: M.frechet(a, b), "frechet_path": lambda a, b: M.frechet_path(a, b, **sc),
        "frechet_path_from_metric": lambda a, b: M.frechet_path_from_metric(a, b, metric="cityblock"),
        "ctw": lambda a, b: M.ctw(a, b, max_iter=3), "ctw_path": lambda a, b: M.ctw_path(a, b, max_iter=3)[::2],
        "gak": lambda a, b: M.gak(a, b, sigma=2.), "unnormalized_gak": lambda a, b: M.unnormalized_gak(a, b, sigma=2.),
        "soft_dtw": lambda a, b: M.soft_dtw(a, b, gamma=.5), "soft_dtw_alignment": lambda a, b: M.soft_dtw_alignment(a, b, gamma=.5),
        "dtw_accumulated_matrix": lambda a, b: M.dtw_accumulated_matrix(a, b, M.compute_mask(5, 4)),
        "frechet_accumulated_matrix": lambda a, b: M.frechet_accumulated_matrix(a, b, M.compute_mask(5, 4)),
    }
    nopad = {"dtw_accumulated_matrix", "frechet_accumulated_matrix", "subsequence"}
    flat = {"lb_keogh": lambda a, b: M.lb_keogh(a, b, radius=1), "lb_envelope": lambda a, b: M.lb_envelope(a, radius=2)}
    return two, nopad, flat


def pairs(ctx):
    two, nopad, flat = pair_menu()
    for name, f in two.items():
        if not ctx.mine():
            continue
        for d in (1, 2):
            a0, b0 = np.array(S1[d]), np.array(S2[d])
            want = None
            R1, R2 = reps(S1[d], name not in nopad), reps(S2[d], name not in nopad)
            slow = name.startswith(("ctw", "limited"))
            for (n1, a), (n2, b) in itertools.product(R1.items(), R2.items()):
                if ctx.quick and slow and n1 != "array" and n2 != "array" and n1 != n2:
                    continue
                with ctx.case("pair", f=name, d=d, reps=[n1, n2]):
                    if want is None:
                        want = normal(f(a0.copy(), b0.copy()))
                    before = [freeze(a), freeze(b)]
                    got = normal(f(a, b))
                    unchanged(before, [a, b], name)
                    same(got, want, name, 1e-5 if "float32" in (n1, n2) else 1e-7)
                ctx.states += 1
                ctx.transitions += 1
                ctx.traces += 1
            ctx.outcome(np.array([d]), name)
    for name, f in flat.items():
        if not ctx.mine():
            continue
        want = normal(f(np.array(S1[1][:4]), np.array(S2[1])))
        for (n1, a), (n2, b) in itertools.product(reps(S1[1][:4], False).items(), reps(S2[1], False).items()):
            with ctx.case("pair", f=name, d=1, reps=[n1, n2]):
                before = [freeze(a), freeze(b)]
                same(normal(f(a, b)), want, name)
                unchanged(before, [a, b], name)
            ctx.transitions += 1


# -- functions of datasets ----------------------------------------------------------

def sets(ctx):
    from tslearn import metrics as M
    from tslearn.clustering import silhouette_score
    sc = dict(global_constraint="sakoe_chiba", sakoe_chiba_radius=2)
    menu = {
        "cdist_dtw": lambda X, Y: M.cdist_dtw(X, Y, **sc), "cdist_frechet": lambda X, Y: M.cdist_frechet(X, Y), "cdist_gak": lambda X, Y: M.cdist_gak(X, Y, sigma=2.),
        "cdist_soft_dtw": lambda X, Y: M.cdist_soft_dtw(X, Y, gamma=.5), "cdist_soft_dtw_normalized": lambda X, Y: M.cdist_soft_dtw_normalized(X, Y, gamma=.5),
        "cdist_ctw": lambda X, Y: M.cdist_ctw(X, Y, max_iter=2),
    }
    one = {
        "silhouette-dtw": lambda X: silhouette_score(X, [0, 1, 0, 1], metric="dtw"),
        "silhouette-softdtw": lambda X: silhouette_score(X, [0, 1, 0, 1], metric="softdtw", metric_params={"gamma": .5}),
        "gamma_soft_dtw": lambda X: M.gamma_soft_dtw(X, n_samples=20, random_state=0),
    }
    for d in (1, 2):
        A = [np.array(S1[d]), np.array(S2[d]), np.array(S1[d])[1:4] * 2, np.array(S2[d])[:2] + 1]
        B = [np.array(S2[d])[::-1].copy() - 1, np.array(S1[d])[:3]]
        EA, EB = [a[:2] for a in A], [b[:2] for b in B]
        for name, f in menu.items():
            if not ctx.mine():
                continue
            for eq in (False, True):
                a0, b0 = (EA, EB) if eq else (A, B)
                RA, RB = set_reps(a0), set_reps(b0)
                for sym in (False, True):
                    want = normal(f(set_reps(a0)["array"], None if sym else set_reps(b0)["array"]))
                    for (n1, X), (n2, Y) in (((k, None) for k in RA.items()) if False else itertools.product(RA.items(), [("none", None)] if sym else RB.items())):
                        if ctx.quick and not sym and "array" not in (n1, n2) and n1 != n2:
                            continue
                        with ctx.case("sets", f=name, d=d, equal_lengths=eq, reps=[n1, n2]):
                            before = [freeze(X), freeze(Y)]
                            got = normal(f(X, Y))
                            unchanged(before, [X, Y], name)
                            same(got, want, name, 1e-5 if "float32" in (n1, n2) else 1e-7)
                        ctx.states += 1
                        ctx.transitions += 1
                        ctx.traces += 1
        for name, f in one.items():
            if not ctx.mine():
                continue
            for eq in (False, True):
                R = set_reps(EA if eq else A)
                want = normal(f(set_reps(EA if eq else A)["array"]))
                for n1, X in R.items():
                    with ctx.case("sets", f=name, d=d, equal_lengths=eq, reps=[n1]):
                        before = [freeze(X)]
                        got = normal(f(X))
                        unchanged(before, [X], name)
                        same(got, want, name, 1e-5)
                    ctx.transitions += 1
                    ctx.states += 1


def precomputed(ctx):
    """Distance matrices, masks, envelopes and tensors handed to the library stay as they are."""
    import torch
    from tslearn import metrics as M
    if not ctx.mine():
        return
    D0 = np.abs(np.array(S1[1]) - np.array(S2[1]).T)
    kws = ({}, {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 1}, {"global_constraint": "itakura", "itakura_max_slope": 3.})
    fs = {"dtw": lambda D, **k: M.dtw_path_from_metric(D, metric="precomputed", **k),
          "frechet": lambda D, **k: M.frechet_path_from_metric(D, metric="precomputed", **k),
          "lcss": lambda D, **k: M.lcss_path_from_metric(D, eps=2., metric="precomputed", **k)}
    for (name, f), (ki, kw) in itertools.product(fs.items(), enumerate(kws)):
        want = normal(f(D0.copy(), **kw))
        forms = {"array": D0.copy(), "fortran": np.asfortranarray(D0), "strided": strided(D0), "backwards": backwards(D0), "readonly": readonly(D0),
                 "list": D0.tolist(), "tensor": torch.tensor(D0), "tensor-grad": torch.tensor(D0, requires_grad=True)}
        for n, D in forms.items():
            with ctx.case("precomputed", f=name, constraint=ki, rep=n):
                before = [freeze(D)]
                got = normal(f(D, **kw))
                unchanged(before, [D], name)
                same(got, want, name)
            ctx.transitions += 1
            ctx.states += 1
    # tensors of series
    two, nopad, _ = pair_menu()
    for name, f in two.items():
        if name in ("ctw", "ctw_path", "lcss_path_from_metric", "frechet_path_from_metric", "dtw_path_from_metric-callable") or "accumulated" in name:
            continue
        for d in (1, 2):
            want = None
            for grad, pad in itertools.product((False, True), (0, 2)):
                if pad and name in nopad:
                    continue
                with ctx.case("tensors", f=name, d=d, grad=grad, pad=pad):
                    if want is None:
                        want = normal(f(np.array(S1[d]), np.array(S2[d])))
                    a = torch.tensor(padded(np.array(S1[d]), pad, 0), requires_grad=grad)
                    b = torch.tensor(padded(np.array(S2[d]), pad, 0), requires_grad=grad)
                    before = [freeze(a), freeze(b)]
                    got = normal(f(a, b))
                    unchanged(before, [a, b], name)
                    same(got, want, name, 1e-6)
                ctx.transitions += 1
    # masks and envelopes
    mask = M.compute_mask(5, 4, 2, sakoe_chiba_radius=1)
    env = M.lb_envelope(np.array(S2[1]), radius=1)
    with ctx.case("masks"):
        before = [freeze(mask), freeze(env)]
        for f in (M.dtw_accumulated_matrix, M.frechet_accumulated_matrix):
            f(np.array(S1[1]), np.array(S2[1]), mask)
        M.lb_keogh(np.array(S1[1][:4]), envelope_candidate=env)
        unchanged(before, [mask, env], "mask or envelope")


def barycenters(ctx):
    from tslearn import barycenters as B
    fs = {"euclidean": lambda X, w, i: B.euclidean_barycenter(X, weights=w),
          "dba": lambda X, w, i: B.dtw_barycenter_averaging(X, weights=w, init_barycenter=i, max_iter=4),
          "dba-init": lambda X, w, i: B.dtw_barycenter_averaging(X, weights=w, init_barycenter=i, max_iter=3, n_init=1,
                                                                  metric_params={"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 2}),
          "petitjean": lambda X, w, i: B.dtw_barycenter_averaging_petitjean(X, weights=w, init_barycenter=i, max_iter=4),
          "subgradient": lambda X, w, i: B.dtw_barycenter_averaging_subgradient(X, weights=w, init_barycenter=i, max_iter=4, random_state=0),
          "softdtw": lambda X, w, i: B.softdtw_barycenter(X, gamma=.5, weights=w, init=i, max_iter=4)}
    for d in (1, 2):
        A = [np.array(S1[d]), np.array(S2[d]), np.array(S1[d])[1:4] * 2, np.array(S2[d])[:2] + 1]
        E = [a[:2] for a in A]
        for name, f in fs.items():
            for eq in (True, False):
                if name == "euclidean" and not eq:
                    continue
                S = E if eq else A
                i0 = np.array(S1[d])[:3]
                w0 = np.array([1., 2., 0., 4.])
                want = None
                inits = {"array": i0.copy(), "fortran": np.asfortranarray(i0), "readonly": readonly(i0), "strided": strided(i0)}
                wreps = {"array": w0.copy(), "readonly": readonly(w0), "ints": w0.astype(int), "strided": strided(w0)}
                combos = [(x, "array", "array") for x in set_reps(S, pads=name != "euclidean")] + [("array", w, "array") for w in wreps] + [("array", "array", i) for i in inits]
                R = set_reps(S)
                for rx, rw, ri in combos:
                    with ctx.case("barycenter", f=name, d=d, equal_lengths=eq, reps=[rx, rw, ri]):
                        if want is None:
                            want = normal(f(set_reps(S)["array"], w0.copy(), i0.copy()))
                        args = [R[rx], wreps[rw], inits[ri]]
                        before = [freeze(a) for a in args]
                        got = normal(f(*args))
                        unchanged(before, args, name)
                        same(got, want, name, 1e-4 if rx == "float32" else 1e-6)
                    ctx.states += 1
                    ctx.transitions += 1
                    ctx.traces += 1


def helpers(ctx):
    """Utilities never touch what they are given, and never hand out the caller's own memory to be changed later."""
    from tslearn import utils as U
    from tslearn.metrics import performance as F
    for d in (1, 2):
        A = [np.array(S1[d]), np.array(S2[d]), np.array(S1[d])[1:4] * 2]
        for n1, X in set_reps(A).items():
            for f in ("to_time_series_dataset", "check_equal_size", "check_dataset", "check_variable_length_input"):
                with ctx.case("utility", f=f, d=d, rep=n1):
                    before = [freeze(X)]
                    r = getattr(U, f)(X)
                    unchanged(before, [X], f)
                    same(normal(r), normal(getattr(U, f)(set_reps(A)["array"])), f)
                ctx.transitions += 1
        Y = [a + np.arange(len(a))[:, None] - 1 for a in A]
        T, P = set_reps([a[:3] for a in A]), set_reps([a[:3] for a in Y])
        for f in ("mae", "mse", "mase"):
            for n1, n2 in itertools.product(T, repeat=2):
                if "array" not in (n1, n2) and n1 != n2:
                    continue
                args = [T[n1], P[n2]] if f != "mase" else [T[n1], P[n2], T["array"]]
                with ctx.case("performance", f=f, d=d, reps=[n1, n2]):
                    try:
                        want = getattr(F, f)(T["array"].copy(), P["array"].copy(), *([T["array"].copy()] if f == "mase" else []))
                    except TypeError:
                        raise
                    before = [freeze(a) for a in args]
                    got = getattr(F, f)(*args)
                    unchanged(before, args, f)
                    same(normal(got), normal(want), f, 1e-6)
                ctx.transitions += 1


# -- estimators -----------------------------------------------------------------------

NO_PAD = ("kmeans-euclidean", "kernel-kmeans-rbf", "kshape", "knn-euclidean", "knn-cityblock", "knnc-euclidean", "knnc-cityblock", "knnr-euclidean",
          "knnr-cityblock", "knnc-sax", "knnr-sax", "svc-gak", "svr-gak", "svc-rbf", "svr-linear", "mlpc", "mlpr", "paa", "sax", "1dsax", "matrix-profile",
          "early", "kernel-kmeans-gak")


class Whole:
    def __init__(self, D):
        self.S = [np.round(s * 2) for s in D.S]
        self.Q = [np.round(s * 2) for s in D.Q]
        self.y, self.yr = D.y, D.yr


def raw_queries(z):
    """The queries of the zoo, without their defensive copies."""
    plain = {"predict": lambda e, q: e.predict(q), "transform": lambda e, q: e.transform(q), "proba": lambda e, q: e.predict_proba(q),
             "decision": lambda e, q: e.decision_function(q), "kneighbors": lambda e, q: e.kneighbors(q, n_neighbors=2), "early": lambda e, q: e.predict_class_and_earliness(q),
             "forecast_x": lambda e, q: e.predict(q, n=2), "inverse": lambda e, q: e.inverse_transform(e.transform(q)), "locate": lambda e, q: e.locate(q)}
    return {k: plain[k] for k in z.queries if k in plain}


def estimators(ctx):
    entries = [z for z in zoo.menu(slow=ctx.thorough)]
    for z in zoo.share(ctx, entries):
        pads = z.data["A"].lens and z.name not in NO_PAD
        W = Whole(z.data["A"])
        y = {None: None, "c": W.y, "r": W.yr}[z.ykind]
        RX, RQ = set_reps(W.S, pads=pads, ragged=False), set_reps(W.Q, pads=pads, ragged=False)
        base = {}

        def outcome(X, Q, yy):
            est = z.make()
            args = [X, Q, yy]
            before = [freeze(a) for a in args]
            if yy is None:
                est.fit(X)
            else:
                est.fit(X, yy)
            unchanged(before, args, "fit")
            out = {}
            for name, q in raw_queries(z).items():
                out[name] = normal(q(est, Q))
                unchanged(before, args, name)
            if hasattr(est, "fit_transform") and yy is None:
                out["fit_transform"] = normal(z.make().fit_transform(X))
                unchanged(before, args, "fit_transform")
            if hasattr(est, "fit_predict") and yy is None:
                out["fit_predict"] = normal(z.make().fit_predict(X))
                unchanged(before, args, "fit_predict")
            for k in ("labels_", "cluster_centers_", "inertia_"):
                if hasattr(est, k) and k not in z.skip:
                    out[k] = normal(getattr(est, k))
            return out
        ys = {"array": y}
        if y is not None:
            ys.update({"list": y.tolist(), "readonly": readonly(y), "strided": strided(y).astype(y.dtype)})
            st = np.empty(2 * len(y), dtype=y.dtype)[::2]
            st[...] = y
            ys["strided"] = st
        combos = [(a, "array", "array") for a in RX] + [("array", b, "array") for b in RQ if b != "array"] + [("array", "array", c) for c in ys if c != "array"]
        if ctx.thorough and z.cost < 20:
            combos += [(a, b, "array") for a in RX for b in RQ if a != "array" and b != "array"]
        for a, b, c in combos:
            with ctx.case("estimator", est=z.name, train=a, query=b, y=c):
                if not base:
                    fresh = set_reps(W.S)["array"], set_reps(W.Q)["array"], copy.deepcopy(y)
                    base["v"] = outcome(*fresh)
                got = outcome(RX[a], RQ[b], ys[c])
                same(got, base["v"], z.name, 1e-3 if "float32" in (a, b) else 1e-6)
            ctx.states += 2
            ctx.transitions += 2
            ctx.traces += 1
