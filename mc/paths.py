"""The warping-path transition system, enumerated explicitly.

States are the cells (i, j) of an l1 x l2 grid, transitions the three steps
(1,0), (0,1), (1,1); a warping path is a run from (0,0) to (l1-1, l2-1).  All
runs are enumerated by depth-first search; every elastic measure of the
library has a definition as an aggregate (min, soft-min, sum, max, ...) over
these runs, which is what the checks compare with.
"""
import functools
import itertools
import math

import numpy as np

STEPS = ((1, 1), (1, 0), (0, 1))


@functools.lru_cache(maxsize=None)
def all_paths(l1, l2):
    """All complete runs, as a list of tuples of cells."""
    out = []

    def rec(path):
        i, j = path[-1]
        if (i, j) == (l1 - 1, l2 - 1):
            out.append(tuple(path))
            return
        for di, dj in STEPS:
            a, b = i + di, j + dj
            if a < l1 and b < l2:
                path.append((a, b))
                rec(path)
                path.pop()

    rec([(0, 0)])
    return out


@functools.lru_cache(maxsize=None)
def incidence(l1, l2):
    """0/1 matrix (n_paths, l1*l2): which cells each run visits."""
    paths = all_paths(l1, l2)
    m = np.zeros((len(paths), l1 * l2))
    for k, p in enumerate(paths):
        for i, j in p:
            m[k, i * l2 + j] = 1.0
    return m


@functools.lru_cache(maxsize=None)
def n_steps(l1, l2):
    return int(sum(len(p) for p in all_paths(l1, l2)))


def admissible(mask):
    """Indices of the runs that stay inside mask."""
    l1, l2 = mask.shape
    return np.flatnonzero(incidence(l1, l2) @ (~mask).ravel() == 0)


def path_costs(local, mask=None):
    """Accumulated cost of every admissible run."""
    local = np.asarray(local, float)
    inc = incidence(*local.shape)
    c = inc @ local.ravel()
    if mask is not None:
        c = c[admissible(mask)]
    return c


def sq_local(s1, s2):
    """Squared Euclidean ground cost between two (l, d) arrays."""
    return ((s1[:, None, :] - s2[None, :, :]) ** 2).sum(-1)


def is_warping_path(path, l1, l2):
    """Raise unless path is a complete run."""
    p = [(int(i), int(j)) for i, j in path]
    if p[0] != (0, 0) or p[-1] != (l1 - 1, l2 - 1):
        raise AssertionError(f"path has wrong end points: {p}")
    for (a, b), (c, d) in zip(p, p[1:]):
        if (c - a, d - b) not in STEPS:
            raise AssertionError(f"illegal step {(a, b)} -> {(c, d)} in {p}")
    return p


# -- reference dynamic programs, for sizes beyond explicit enumeration --------
# (validated against the enumeration in self_check below)

def softmin(costs, gamma):
    m = costs.min()
    return float(-gamma * np.log(np.exp(-(costs - m) / gamma).sum()) + m)


def _softmin3(p, gamma):
    """Soft minimum over the first axis; infinite where all entries are."""
    m = p.min(0)
    safe = np.where(np.isfinite(m), m, 0.)
    with np.errstate(divide="ignore"):
        return np.where(np.isfinite(m), safe - gamma * np.log(np.exp(-(p - safe) / gamma).sum(0)), np.inf)


def dp_table(local, mask, combine, first):
    """Accumulated values of every prefix, one anti-diagonal at a time;
    ``combine(ground cost, the three predecessors)``."""
    local = np.asarray(local, float)
    l1, l2 = local.shape
    acc = np.full((l1 + 1, l2 + 1), np.inf)
    acc[0, 0] = first
    flat, w = acc.ravel(), l2 + 1
    for s in range(l1 + l2 - 1):
        i = np.arange(max(0, s - l2 + 1), min(l1 - 1, s) + 1)
        j = s - i
        if mask is not None:
            keep = mask[i, j]
            i, j = i[keep], j[keep]
        c = (i + 1) * w + j + 1
        flat[c] = combine(local[i, j], flat[np.array([c - w - 1, c - w, c - 1])])
    return acc


def _dp(local, mask, combine, first, scalar):
    """By anti-diagonals, or cell by cell where that is faster."""
    local = np.asarray(local, float)
    if local.size > SMALL:
        return float(dp_table(local, mask, combine, first)[-1, -1])
    l1, l2 = local.shape
    loc, msk = local.tolist(), None if mask is None else np.asarray(mask).tolist()
    inf = float("inf")
    prev = [first] + [inf] * l2
    for i in range(l1):
        cur = [inf] * (l2 + 1)
        row, ok = loc[i], None if msk is None else msk[i]
        for j in range(l2):
            if ok is None or ok[j]:
                cur[j + 1] = scalar(row[j], prev[j], prev[j + 1], cur[j])
        prev = cur
    return float(prev[l2])


SMALL = 2000


def dp_min(local, mask=None):
    return _dp(local, mask, lambda c, p: c + p.min(0), 0., lambda c, x, y, z: c + min(x, y, z))


def dp_minmax(local, mask=None):
    return _dp(local, mask, lambda c, p: np.maximum(c, p.min(0)), -np.inf, lambda c, x, y, z: max(c, min(x, y, z)))


def dp_softmin(local, gamma, mask=None):
    def scalar(c, x, y, z):
        m = min(x, y, z)
        return c + m - gamma * math.log(
            math.exp((m - x) / gamma) + math.exp((m - y) / gamma) + math.exp((m - z) / gamma)) if m < math.inf else math.inf
    return _dp(local, mask, lambda c, p: c + _softmin3(p, gamma), 0., scalar)


def self_check():
    """The dynamic programs against the explicit enumeration."""
    rng = np.random.RandomState(0)
    n = 0
    for l1, l2 in itertools.product(range(1, 6), repeat=2):
        for full in (True, False):
            local = rng.randint(0, 5, size=(l1, l2)).astype(float)
            mask = np.ones((l1, l2), bool) if full else sakoe(l1, l2, 0)
            idx = admissible(mask)
            c = path_costs(local, mask)
            mx = np.array([max(local[i, j] for i, j in all_paths(l1, l2)[k]) for k in idx])
            assert abs(dp_min(local, mask) - c.min()) < 1e-9
            assert abs(dp_minmax(local, mask) - mx.min()) < 1e-9
            assert abs(dp_softmin(local, .7, mask) - softmin(c, .7)) < 1e-9
            table = [dp_table(local, mask, lambda c, p: c + p.min(0), 0.), dp_table(local, mask, lambda c, p: np.maximum(c, p.min(0)), -np.inf),
                     dp_table(local, mask, lambda c, p: c + _softmin3(p, .7), 0.)]
            for t, want in zip(table, (c.min(), mx.min(), softmin(c, .7))):
                assert abs(t[-1, -1] - want) < 1e-9
            n += len(idx)
    return n


# -- global constraints, from their definition ------------------------------

def sakoe(l1, l2, radius):
    """Cells at most ``radius`` off the diagonal band joining both corners:
    with the shorter index k and longer index m, k - r <= m <= k + (gap) + r."""
    m = np.zeros((l1, l2), bool)
    gap = abs(l1 - l2)
    for i in range(l1):
        for j in range(l2):
            k, q = (j, i) if l1 > l2 else (i, j)
            m[i, j] = k - radius <= q <= k + gap + radius
    return m


def itakura(l1, l2, slope):
    """Itakura parallelogram of the given maximum slope in the rectangle
    (bounds rounded to two decimals, as the library documents by example)."""
    hi, lo = slope * l1 / l2, (1.0 / slope) * l1 / l2
    m = np.zeros((l1, l2), bool)
    for j in range(l2):
        low = max(round(lo * j, 2), round(l1 - 1 - hi * (l2 - 1) + hi * j, 2))
        up = min(round(hi * j, 2), round(l1 - 1 - lo * (l2 - 1) + lo * j, 2))
        for i in range(l1):
            m[i, j] = low <= i <= up
    return m


def has_path(mask):
    l1, l2 = mask.shape
    ok = np.zeros((l1 + 1, l2 + 1), bool)
    ok[0, 0] = True
    for i in range(l1):
        for j in range(l2):
            ok[i + 1, j + 1] = mask[i, j] and (ok[i, j] or ok[i, j + 1] or ok[i + 1, j])
    return bool(ok[l1, l2])


def constraint_mask(l1, l2, kw):
    """Reference region for keyword arguments of the library's measures."""
    gc = kw.get("global_constraint") or None
    r, s = kw.get("sakoe_chiba_radius"), kw.get("itakura_max_slope")
    if gc == "sakoe_chiba" or (gc is None and r is not None and s is None):
        return sakoe(l1, l2, 1 if r is None else r)
    if gc == "itakura" or (gc is None and s is not None and r is None):
        return itakura(l1, l2, 2.0 if s is None else s)
    return np.ones((l1, l2), bool)


def series_over(alphabet, lengths, d=1):
    """Every series of the given lengths with (l, d) entries in alphabet."""
    for n in lengths:
        for v in itertools.product(alphabet, repeat=n * d):
            yield np.array(v, float).reshape(n, d)


def dp_path(local, mask=None):
    """One optimal run by dynamic programming (unique for generic costs)."""
    l1, l2 = local.shape
    acc = dp_table(local, mask, lambda c, p: c + p.min(0), 0.)
    i, j = l1, l2
    path = []
    while True:
        path.append((i - 1, j - 1))
        if (i, j) == (1, 1):
            return path[::-1], acc[l1, l2]
        opts = [(acc[i - 1, j - 1], i - 1, j - 1), (acc[i - 1, j], i - 1, j), (acc[i, j - 1], i, j - 1)]
        _, i, j = min(opts, key=lambda t: t[0])


def ref_dtw(s1, s2, kw={}):
    return float(np.sqrt(dp_min(sq_local(s1, s2), constraint_mask(len(s1), len(s2), kw))))


def ref_frechet(s1, s2, kw={}):
    return float(np.sqrt(dp_minmax(sq_local(s1, s2), constraint_mask(len(s1), len(s2), kw))))


def ref_softdtw(s1, s2, gamma=1., kw={}):
    return float(dp_softmin(sq_local(s1, s2), gamma, constraint_mask(len(s1), len(s2), kw)))


def matrix(fun, d1, d2):
    return np.array([[fun(a, b) for b in d2] for a in d1], float).reshape(len(d1), len(d2))


def pad(ts_list, extra=0, d=None):
    """Pad a list of (l, d) series with trailing NaNs into one array."""
    d = d or ts_list[0].shape[1]
    out = np.full((len(ts_list), max(len(t) for t in ts_list) + extra, d), np.nan)
    for k, t in enumerate(ts_list):
        out[k, :len(t)] = t
    return out


def ref_dbscan(dist, eps, min_ts):
    """Core samples and the partition they induce (plain breadth-first)."""
    n = len(dist)
    nb = [np.flatnonzero(dist[i] <= eps) for i in range(n)]
    core = [i for i in range(n) if len(nb[i]) >= min_ts]
    comp, c = {}, 0
    for i in core:
        if i in comp:
            continue
        todo = [i]
        comp[i] = c
        while todo:
            u = todo.pop()
            for v in nb[u]:
                if v in core and v not in comp:
                    comp[v] = c
                    todo.append(v)
        c += 1
    border = {}
    for i in range(n):
        if i not in core:
            border[i] = {comp[v] for v in nb[i] if v in comp}
    return core, comp, border
