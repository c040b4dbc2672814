"""C13: dataset conversions and text formats round-trip."""
import itertools
import os

import numpy as np

from mc.core import close, require, equal, Mismatch

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of all dataset shapes (number of series, every combination of lengths, dimensionality, "
             "NaN pattern) and of all compositions of two conversions, executed on the real converters")
RULE = ("all datasets of 0..3 series with lengths 1..3 (4 in thorough), dims 1..3, values from an alphabet of extreme and "
        "ordinary floats with every interior-NaN position, through every converter and every composition of two converters, "
        "compared bit for bit; all malformed inputs of a menu rejected")
ASSUMPTIONS = ["series of length 0 only inside to_time_series_dataset and text formats (other layouts cannot express them)",
               "cesium drops the time axis of a series of length 1 (its own TimeSeries fails on them): lengths from 2 there"]

ALPHA = [0.0, -0.0, 1.0, -1.5, 0.1, 1 / 3., 1e-300, -1e300, 5e-324, 1.7976931348623157e308, 123456789.123456789, -2.0 ** -30, 7.0]


class Vals:
    def __init__(self, k=0):
        self.k = k

    def take(self, l, d):
        out = np.array([ALPHA[(self.k + i * 5) % len(ALPHA)] for i in range(l * d)]).reshape(l, d)
        self.k += l * d * 5 + 1
        return out


def same(ds, ref, what):
    """ds: tslearn dataset; ref: list of (l, d) arrays."""
    ds = np.asarray(ds)
    n, d = len(ref), ref[0].shape[1]
    m = max(len(r) for r in ref)
    require(ds.ndim == 3 and ds.shape[0] == n and ds.shape[2] == d and ds.shape[1] >= m,
            f"{what}: shape {ds.shape} for {n} series, longest {m}, {d} dims")
    require(ds.dtype == float, f"{what}: dtype {ds.dtype}")
    for i, r in enumerate(ref):
        if not np.array_equal(ds[i, :len(r)], r, equal_nan=True):
            raise Mismatch(f"{what}: series {i} is {ds[i].tolist()} instead of {r.tolist()}")
        require(np.isnan(ds[i, len(r):]).all(), f"{what}: series {i} padded with {ds[i, len(r):].tolist()}")


def converters(U):
    """name -> (roundtrip function, accepts predicate)."""
    any_ = lambda lens, d: True
    eq = lambda lens, d: len(set(lens)) == 1
    return {
        "pyts": (lambda X: U.from_pyts_dataset(U.to_pyts_dataset(X)), eq, False),
        "seglearn": (lambda X: U.from_seglearn_dataset(U.to_seglearn_dataset(X)), any_, True),
        "stumpy": (lambda X: U.from_stumpy_dataset(U.to_stumpy_dataset(X)), any_, True),
        "sktime": (lambda X: U.from_sktime_dataset(U.to_sktime_dataset(X)), any_, True),
        "pyflux": (lambda X: U.from_pyflux_dataset(U.to_pyflux_dataset(X)), lambda lens, d: len(lens) == 1, True),
        "tsfresh": (lambda X: U.from_tsfresh_dataset(U.to_tsfresh_dataset(X)), any_, True),
        "cesium": (lambda X: U.from_cesium_dataset(U.to_cesium_dataset(X)), lambda lens, d: min(lens) > 1, False),
        "text": (text(U), any_, True),
        "sklearn": (lambda X: back(*U.to_sklearn_dataset(X, return_dim=True)), any_, True),
        "identity": (U.to_time_series_dataset, any_, True),
    }


def back(M, d):
    return M.reshape(len(M), -1, d)


def text(U):
    def go(X):
        f = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "c13.txt")
        U.save_time_series_txt(f, X)
        out = U.load_time_series_txt(f)
        os.remove(f)
        return out
    return go


def run(ctx):
    from tslearn import utils as U
    conv = converters(U)
    vals = Vals()
    L = ctx.pick(3, 4)
    for n, d in itertools.product((1, 2, 3), (1, 2, 3)):
        for lens in itertools.product(range(1, L + 1), repeat=n):
            for nanpat in ((None,) if n == 3 and ctx.quick else (None, 0, 1)):
                S = [vals.take(l, d) for l in lens]
                if nanpat is not None:
                    # interior NaN: allowed anywhere as long as the last row is not all NaN
                    k = [i for i, s in enumerate(S) if s.size > 1]
                    if not k:
                        continue
                    s = S[k[0]]
                    p = nanpat if nanpat == 0 or s.shape[1] == 1 else (s.size - 1)
                    if s.shape[1] == 1 and p >= len(s) - 1:
                        continue
                    if s.shape[0] == 1 and s.shape[1] == 1:
                        continue
                    s.ravel()[p] = np.nan
                build(ctx, U, S, d, lens)
                X = U.to_time_series_dataset(S)
                for (na, (fa, oka, nana)) in conv.items():
                    if not oka(lens, d) or (nanpat is not None and not nana):
                        continue
                    snap = X.copy()
                    with ctx.case("roundtrip", fmt=na, lens=lens, d=d, nan=nanpat):
                        same(fa(X), S, na)
                        equal(X, snap, "input changed")
                        same(fa([s.copy() for s in S]), S, na + " from list")
                        ctx.outcome(X, np.array([hash(na) % 997]))
                    ctx.states += 1
                    ctx.transitions += 2
                    if n == 3 and ctx.quick and (d == 2 or len(set(lens)) > 2 or lens[0] < lens[1]):
                        continue
                    for nb, (fb, okb, nanb) in conv.items():
                        if nb == na or not okb(lens, d) or (nanpat is not None and not nanb):
                            continue
                        with ctx.case("two conversions", fmt=(na, nb), lens=lens, d=d, nan=nanpat):
                            same(fb(fa(X)), S, f"{na} then {nb}")
                        ctx.transitions += 2
                    ctx.traces += 1
    layouts(ctx, U)
    strings(ctx, U, vals)
    malformed(ctx, U)


def build(ctx, U, S, d, lens):
    with ctx.case("build", S=S):
        snap = [s.copy() for s in S]
        X = U.to_time_series_dataset(S)
        same(X, S, "to_time_series_dataset")
        require(X.shape[1] == max(lens), f"padded to {X.shape[1]} for lengths {lens}")
        for a, b in zip(S, snap):
            equal(a, b, "input changed")
        require([U.ts_size(x) for x in X] == list(lens), f"sizes {[U.ts_size(x) for x in X]} for {lens}")
        require(U.check_equal_size(X) == (len(set(lens)) == 1), "check_equal_size")
        lists = [s.tolist() for s in S]
        same(U.to_time_series_dataset(lists), S, "from nested lists")
        same(U.to_time_series_dataset(tuple(tuple(map(tuple, s)) for s in lists)), S, "from tuples")
        if d == 1:
            same(U.to_time_series_dataset([s[:, 0] for s in S]), S, "from 1-D arrays")
            same(U.to_time_series_dataset([s[:, 0].tolist() for s in S]), S, "from flat lists")
            if len(S) == 1:
                same(U.to_time_series_dataset(S[0][:, 0]), S, "single series")
                same(U.to_time_series_dataset(S[0][:, 0].tolist()), S, "single series as a list")
        pad = np.full((len(S), max(lens) + 2, d), np.nan)
        for i, s in enumerate(S):
            pad[i, :len(s)] = s
        same(U.to_time_series_dataset(pad), S, "over-padded array")
        require(U.to_time_series_dataset(pad).shape[1] == max(lens), "over-padding is trimmed")
        for s, p in zip(S, pad):
            equal(U.to_time_series(p, remove_nans=True), s, "to_time_series")
            equal(U.to_time_series(p), p, "to_time_series keeping NaNs")
    ctx.states += 1
    ctx.transitions += 6


def layouts(ctx, U):
    """Layouts as third-party code produces them (orders and indices permuted in every way)."""
    import pandas as pd
    S = [np.array([[1., 10.], [2., 20.]]), np.array([[3., 30.], [4., 40.], [5., 50.]]), np.array([[6., 60.]])]
    df = U.to_sktime_dataset(S)
    for perm in itertools.permutations(range(3)):
        with ctx.case("sktime index", perm=perm):
            sub = df.iloc[list(perm)]
            same(U.from_sktime_dataset(sub), [S[k] for k in perm], "rows selected from a frame")
            sub = sub.copy()
            sub.index = ["a", "b", "c"]
            same(U.from_sktime_dataset(sub), [S[k] for k in perm], "string index")
            same(U.from_sktime_dataset(sub[["dim_1", "dim_0"]]), [S[k] for k in perm], "columns permuted")
    long = U.to_tsfresh_dataset(S)
    for ids in itertools.permutations((7, 1000003, 12)):
        for kind in ("int", "str"):
            with ctx.case("tsfresh ids", ids=ids, idtype=kind):
                f = long.copy()
                f["id"] = [ids[k] if kind == "int" else f"s{ids[k]}" for k in f["id"]]
                same(U.from_tsfresh_dataset(f), S, "series in order of appearance")
    n = len(long)
    for perm in itertools.permutations(range(3)):
        with ctx.case("tsfresh time", perm=perm):
            rows = [0, 1] + [2 + k for k in perm] + [5]
            same(U.from_tsfresh_dataset(long.iloc[rows]), S, "rows of a series permuted, with their time")
    for dt in (int, float, bool):
        with ctx.case("dtype", dtype=str(dt)):
            same(U.to_time_series_dataset([np.array([1, 0, 1], dtype=dt), np.array([1], dtype=dt)]),
                 [np.array([[1.], [0.], [1.]]), np.array([[1.]])], "integer input")
    with ctx.case("empty"):
        equal(U.to_time_series_dataset([]).shape, (0, 0, 0), "no series")
        X = U.to_time_series_dataset([[1., 2.], []])
        equal(X, np.array([[[1.], [2.]], [[np.nan], [np.nan]]]), "an empty series")
        equal(U.ts_size(X[1]), 0, "its size")
        for sz, d in itertools.product(range(4), (1, 2, 3)):
            equal(U.ts_zeros(sz, d), np.zeros((sz, d)), "ts_zeros")
    with ctx.case("dataframe"):
        fr = pd.DataFrame([[1., 2., 3.], [4., 5., np.nan]])
        same(U.to_time_series_dataset(fr), [np.array([[1.], [2.], [3.]]), np.array([[4.], [5.]])], "frame")
    for shape in itertools.product((1, 2), (2, 3), (1, 2)):
        with ctx.case("dtype float32", shape=shape):
            X = U.to_time_series_dataset(np.arange(np.prod(shape)).reshape(shape), dtype=np.float32)
            require(X.dtype == np.float32, f"dtype {X.dtype}")
            if shape[2] == 1:
                X = U.to_time_series_dataset(pd.DataFrame(np.arange(np.prod(shape)).reshape(shape[:2])), dtype=np.float32)
                require(X.dtype == np.float32, f"dtype of a frame {X.dtype}")


def strings(ctx, U, vals):
    for l, d, fmt in itertools.product((1, 2, 3, 4), (1, 2, 3), ("%.18e", "%.17g", "%r" if False else "%.20f", "%.3f", "%d")):
        s = vals.take(l, d)
        if fmt in ("%.3f", "%d", "%.20f"):
            s = np.where(np.abs(s) > 1e5, 1234.5, s)
        with ctx.case("string", l=l, d=d, fmt=fmt, s=s):
            t = U.time_series_to_str(s, fmt=fmt)
            r = U.str_to_time_series(t)
            want = np.array([[float(fmt % v) for v in row] for row in s])
            equal(r, want, f"series read back from {t!r}")
            if fmt == "%.18e":
                equal(r, s, "exact values")
            if d == 1:
                equal(U.str_to_time_series(U.time_series_to_str(s[:, 0], fmt=fmt)), want, "1-D series")
            require(t.count("|") == d - 1, "one field per dimension")
        ctx.states += 1


def malformed(ctx, U):
    from tslearn.utils import (from_sktime_dataset, from_pyflux_dataset, from_tsfresh_dataset, from_cesium_dataset,
                               from_pyts_dataset, to_pyts_dataset, to_pyflux_dataset)
    import pandas as pd
    A = lambda l, d: np.arange(l * d, dtype=float).reshape(l, d)

    def rejected(name, fn):
        with ctx.case("malformed", what=name):
            try:
                r = fn()
            except (ValueError, TypeError, KeyError, AssertionError):
                return
            raise Mismatch(f"{name}: accepted, returned {np.asarray(r).tolist()!r:.300}")
        ctx.states += 1

    for d1, d2 in itertools.permutations((1, 2, 3), 2):
        for l1, l2 in itertools.product((1, 2, 3), repeat=2):
            rejected(f"series of {d1} and {d2} dims, lengths {l1},{l2}", lambda: U.to_time_series_dataset([A(l1, d1), A(l2, d2)]))
    for t in ("1 2|3", "1 2 3|4 5", "1 x", "a", "1 2 || 3 4"):
        rejected("text " + t, lambda: U.str_to_time_series(t))
    rejected("pyts of unequal lengths", lambda: to_pyts_dataset([[1., 2.], [1.]]))
    rejected("pyflux of two series", lambda: to_pyflux_dataset([[1., 2.], [1., 3.]]))
    rejected("4-d pyts", lambda: from_pyts_dataset(np.zeros((1, 2, 3, 4))))
    for f in (from_sktime_dataset, from_pyflux_dataset, from_tsfresh_dataset, from_cesium_dataset):
        rejected(f.__name__ + " of an array", lambda: f(np.zeros((2, 3))))
    rejected("sktime with a gap in the columns", lambda: from_sktime_dataset(pd.DataFrame({"dim_0": [pd.Series([1.])], "dim_2": [pd.Series([1.])]})))
    rejected("multivariate where univariate is required", lambda: U.check_dataset(np.zeros((2, 3, 2)), force_univariate=True))
    rejected("unequal where equal lengths are required", lambda: U.check_dataset([[1., 2.], [1.]], force_equal_length=True))
    rejected("two series where one is required", lambda: U.check_dataset([[1., 2.], [1., 4.]], force_single_time_series=True))
    rejected("check_dims None", lambda: U.check_dims(None))
    for a, b in (((2, 3, 1), (2, 4, 1)), ((2, 3, 1), (5, 3, 2))):
        rejected(f"check_dims {a} {b}", lambda: U.check_dims(np.zeros(b), X_fit_dims=a))
    rejected("check_dims features", lambda: U.check_dims(np.zeros((1, 3, 2)), X_fit_dims=(1, 5, 1), check_n_features_only=True))
    with ctx.case("check_dims accepts"):
        equal(U.check_dims(np.zeros((1, 3, 2)), X_fit_dims=(4, 9, 2), check_n_features_only=True).shape, (1, 3, 2), "shape")
        equal(U.check_dims(np.zeros((4, 3)), X_fit_dims=(1, 3, 1)).shape, (4, 3, 1), "shape")
