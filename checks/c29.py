"""C29: canonical time warping alternates optimal alignments and canonical correlation analysis."""
import functools
import itertools
import warnings

import numpy as np
from sklearn.cross_decomposition import CCA

from mc import paths as P
from mc.core import close, equal, require
from mc.elastic import series

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration: the alternation 'align optimally / refit the projection' is a nondeterministic transition system over warping paths (every optimal path is a successor), "
             "its reachable states are enumerated with path enumeration as the oracle, and every returned (path, projection, score) must be one of them")
SHARDS = 4
RULE = ("every pair of univariate series of lengths 2..3 (2..4) over {-1, 0, 2}; pools of series of 1..2 features (also different numbers) of lengths 2..4; every iteration cap in {1, 2, 3, 100}, number of components, global constraint; "
        "all pairs of batches with padding for the matrix variant")
ASSUMPTIONS = ["at least two samples per series and no constant feature (scikit-learn's CCA is undefined otherwise); scikit-learn's CCA is trusted",
               "the score may be the one of the projection in which the path was found before the iteration that confirmed it"]


class Start:
    """Truncation to the first features."""

    def __init__(self, k):
        self.k = k

    def transform(self, a, b):
        def cut(s):
            z = np.zeros((len(s), self.k))
            w = min(self.k, s.shape[1])
            z[:, :w] = s[:, :w]
            return z
        return cut(a), cut(b)


def region(l1, l2, kw):
    return masks(l1, l2, tuple(sorted(kw.items())))


@functools.lru_cache(maxsize=None)
def masks(l1, l2, items):
    kw = dict(items)
    return P.constraint_mask(l1, l2, kw)


def costs(proj, s1, s2, mask):
    a, b = proj.transform(s1, s2)
    idx = P.admissible(mask)
    return idx, np.sqrt(np.maximum(P.incidence(len(s1), len(s2))[idx] @ P.sq_local(a, b).ravel(), 0))


def optima(proj, s1, s2, mask):
    """Indices of all optimal paths (with a tolerance: rounding decides between ties) and the cost of every path."""
    idx, c = costs(proj, s1, s2, mask)
    return [int(i) for i, v in zip(idx, c) if v <= c.min() + 1e-7 * (1 + c.min())], dict(zip(map(int, idx), c))


def refit(path, s1, s2, k):
    """None where the canonical correlation is not defined: aligned samples without correlation."""
    i, j = map(list, zip(*path))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            cca = CCA(n_components=k).fit(s1[i], s2[j])
            a, b = cca.transform(s1[i], s2[j])
        except ValueError:
            return None
    with np.errstate(all="ignore"):
        fine = all(abs(np.corrcoef(a[:, c], b[:, c])[0, 1]) > 1e-6 for c in range(k))
    return cca if fine else None


class System:
    """States (path, projection it was found in); the projection of the successors is fitted on the path."""

    def __init__(self, s1, s2, k, mask):
        self.s1, self.s2, self.k, self.mask = s1, s2, k, mask
        self.all = P.all_paths(len(s1), len(s2))
        self.fits, self.undefined = {}, False

    def fit(self, p):
        if p not in self.fits:
            self.fits[p] = refit(self.all[p], self.s1, self.s2, self.k)
        return self.fits[p]

    def reach(self, steps):
        """Levels of (path, path the projection was fitted on or None, its cost there, the same one step earlier)."""
        best, cost = optima(Start(self.k), self.s1, self.s2, self.mask)
        level = [(p, None, cost[p], None) for p in best]
        yield level
        seen = set()
        for _ in range(steps):
            nxt = []
            for q, came, c, _ in level:
                if q in seen:
                    continue
                seen.add(q)
                if self.fit(q) is None:
                    self.undefined = True
                    continue
                best, cost = optima(self.fit(q), self.s1, self.s2, self.mask)
                nxt += [(p, q, cost[p], c if p == q else None) for p in best]
            if not nxt:
                return
            level = nxt
            yield level


def check(ctx, M, s1, s2, caps, k=None, kw=None, tag="pair", **info):
    kw = kw or {}
    comp = min(s1.shape[1], s2.shape[1]) if k is None else k
    mask = region(len(s1), len(s2), kw)
    if not len(P.admissible(mask)):
        return
    sys = System(s1, s2, comp, mask)
    levels = list(sys.reach(max(caps) - 1 if max(caps) < 100 else 8))
    if sys.undefined:
        ctx.extra["undefined"] = ctx.extra.get("undefined", 0) + 1
        return
    raw, rawcost = optima(Start(comp), s1, s2, mask)
    ctx.states += sum(map(len, levels))
    ctx.transitions += len(sys.fits) * len(rawcost)
    for cap in caps:
        bad = None
        with ctx.case(tag, s1=s1, s2=s2, kw=kw, cap=cap, components=k, **info):
            z1, z2 = s1.copy(), s2.copy()
            path, cca, score = M.ctw_path(z1, z2, max_iter=cap, n_components=k, **kw)
            require(np.array_equal(z1, s1) and np.array_equal(z2, s2), "input modified")
            p = sys.all.index(tuple(P.is_warping_path(path, len(s1), len(s2))))
            require(p in rawcost, f"path {path} leaves the constraint region")
            fitted = hasattr(cca, "x_weights_") or hasattr(cca, "x_rotations_")
            equal(fitted, cap > 1, "projection fitted")
            score = float(score)
            if cap == 1:
                require(p in raw, f"path {path} is not optimal in the first features")
                close(score, rawcost[p], "score")
            else:
                now = optima(cca, s1, s2, mask)
                require(p in now[0], f"path {path} is not optimal in the returned projection: {now[1][p]} > {min(now[1].values())}")
                view = np.concatenate(cca.transform(s1, s2))
                mine = [st for lv in levels[1:] for st in lv if st[0] == p and np.allclose(np.concatenate(sys.fit(st[1]).transform(s1, s2)), view, atol=1e-6)]
                require(mine, f"the returned projection is not the one of any reachable alignment before {path}")
                fine = [v for st in mine for v in (st[2], st[3]) if v is not None]
                fits = any(abs(score - v) <= 1e-6 * (1 + v) for v in fine)
                if not fits:
                    # the score of the first alignment, in the original features
                    require(p not in raw and abs(score - min(rawcost.values())) <= 1e-6 * (1 + score), f"score {score} instead of one of {sorted(set(fine))}")
                    bad = f"score {score} is the cost of the initial alignment, not of the returned one ({sorted(set(fine))})"
            close(float(M.ctw(s1, s2, max_iter=cap, n_components=k, **kw)), score, "ctw against ctw_path")
            ctx.outcome([p, round(score, 6)])
        if bad:
            with ctx.case("score-of-initial-alignment", s1=s1, s2=s2, kw=kw, cap=cap, components=k, **info):
                require(False, bad)
    ctx.traces += len(caps)


def defined(s1, s2, max_iter=100, n_components=None, **kw):
    mask = region(len(s1), len(s2), kw)
    if not len(P.admissible(mask)):
        return False
    if max_iter == 1:
        return True
    sys = System(s1, s2, n_components or min(s1.shape[1], s2.shape[1]), mask)
    list(sys.reach(8))
    return not sys.undefined


def plain(s):
    """No constant feature."""
    return len(s) > 1 and (np.ptp(s, axis=0) > 0).all()


def run(ctx):
    from tslearn import metrics as M
    univariate(ctx, M)
    pools(ctx, M)
    same(ctx, M)
    matrices(ctx, M)


def univariate(ctx, M):
    top = ctx.pick(3, 4)
    all_ = [np.array(v)[:, None] for l in range(2, top + 1) for v in itertools.product((-1., 0., 2.), repeat=l)]
    all_ = [s for s in all_ if plain(s)]
    for n, s1 in enumerate(all_):
        if not ctx.mine():
            continue
        for m, s2 in enumerate(all_):
            if top == 4 and len(s1) == len(s2) == 4 and (n + m) % 3:
                continue
            check(ctx, M, s1, s2, (1, 100) if (n + m) % 4 else (1, 2, 3, 100))


KW = [{}, {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 1}, {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 0},
      {"global_constraint": "sakoe_chiba"}, {"global_constraint": "itakura"}, {"global_constraint": "itakura", "itakura_max_slope": 3.}]


def pool(d, n, lens=(2, 3, 4)):
    return [np.round(series(31 * i + 7 * d + l, l, d) + i * .5, 2) for i in range(n) for l in lens]


def pools(ctx, M):
    n = ctx.pick(2, 4)
    for d1, d2 in itertools.product((1, 2, 3), repeat=2):
        for (i, s1), (j, s2) in itertools.product(enumerate(pool(d1, n)), enumerate(pool(d2, n + 1)[3:])):
            if not ctx.mine():
                continue
            if max(d1, d2) == 3 and (i + j) % ctx.pick(3, 1):
                continue
            ks = [None] + list(range(1, min(d1, d2)))
            for k, (w, kw) in itertools.product(ks, enumerate(KW)):
                if (w + i + j) % ctx.pick(2, 1) and w:
                    continue
                # CCA needs as many aligned pairs as components
                if max(len(s1), len(s2)) < (k or min(d1, d2)):
                    continue
                check(ctx, M, s1, s2, (1, 2, 100) if w == 0 else (100,), k, kw, tag="pool")


def same(ctx, M):
    for d, l in itertools.product((1, 2), (2, 3, 4, 5)):
        if not ctx.mine():
            continue
        for n in range(ctx.pick(3, 8)):
            s = series(n + 10 * d + l, l, d)
            for w, kw in enumerate(KW):
                with ctx.case("identical", s=s, kw=kw):
                    path, cca, score = M.ctw_path(s, s.copy(), **kw)
                    equal([tuple(map(int, c)) for c in path], [(i, i) for i in range(l)], "path")
                    close(float(score), 0., "score of identical series")
            t = series(n + 77, 3, d)
            for pad, kw in itertools.product((1, 3), KW[:2]):
                if not (defined(s, t, **kw) and defined(t, s, **kw)):
                    continue
                with ctx.case("forms", s=s, t=t, kw=kw, padding=pad):
                    want = float(M.ctw(s, t, **kw))
                    long = np.concatenate([s, np.full((pad, d), np.nan)])
                    close(float(M.ctw(long, t, **kw)), want, "trailing padding of the first")
                    close(float(M.ctw(t, long, **kw)), float(M.ctw(t, s, **kw)), "trailing padding of the second")
                    close(float(M.ctw(s.tolist(), t.tolist(), **kw)), want, "lists")
                    close(float(M.ctw(s, t, be="numpy", **kw)), want, "explicit backend")
        ctx.traces += 1


def matrices(ctx, M):
    for d, lens, kw, args in itertools.product((1, 2), ((3, 3, 3), (2, 4, 3), (4, 2)), KW[:2] + KW[4:5], ({}, {"max_iter": 1}, {"n_components": 1})):
        if not ctx.mine():
            continue
        A = [series(5 * i + 3 * d, l + d - 1, d) for i, l in enumerate(lens)]
        B = [series(5 * i + 60 * d, l + d - 1, d) for i, l in enumerate((3, 4))]
        kw = {**kw, **args}
        if not all(defined(a, b, **kw) for a in A for b in A + B if a is not b):
            continue
        with ctx.case("matrix", dim=d, lengths=lens, kw=kw):
            got = M.cdist_ctw(P.pad(A), P.pad(B), **kw)
            close(got, [[float(M.ctw(a, b, **kw)) for b in B] for a in A], "matrix of pairs")
            own = M.cdist_ctw(P.pad(A), **kw)
            want = np.array([[float(M.ctw(a, b, **kw)) for b in A] for a in A])
            close(np.triu(own, 1), np.triu(want, 1), "self-similarity")
            close(own, own.T, "symmetry")
            close(np.diag(own), np.zeros(len(A)), "diagonal")
            close(M.cdist_ctw(P.pad(A), P.pad(B), n_jobs=2, **kw), got, "jobs") if lens == (3, 3, 3) and not args else None
        ctx.states += len(A) * len(B)
        ctx.traces += 1
