"""C30: concurrent calls on one fitted model (and of the library's functions) do not interfere."""
import copy
import os
import sys
import time

import numpy as np

from mc import zoo
from mc.core import equal, require
from mc.elastic import series
from mc.sched import Run

LEVEL = "model_checking"
TECHNIQUE = ("systematic exploration of thread schedules on the real code: two real threads under a controlled scheduler (one runs at a time, scheduling points are the executed source lines of the library); "
             "all schedules with one preemption, and with two preemptions around every line at which shared state is seen to change (monitored at each point); reduced by line occurrences")
SHARDS = 8
RULE = ("every estimator of the library in small configurations x pairs of its queries (each with itself on other data, and with the next one) x every preemption point (first 2 (6) and last occurrences of each line) x who runs first; "
        "where a query changes shared state even temporarily: every pair of preemption points in the changing regions; pairs of calls of the functional interface")
ASSUMPTIONS = ["preemptions at line granularity inside the library (compiled code and third-party calls are atomic)", "estimators with n_jobs=None",
               "schedules are taken to be equivalent when they differ only in the occurrence number of a repeated line beyond the bound"]


def lib_root():
    import tslearn
    return os.path.dirname(os.path.realpath(tslearn.__file__)) + os.sep


def roots():
    import tslearn
    return (lib_root(), os.path.dirname(tslearn.__file__) + os.sep)


def mark(o, depth=0, seen=None):
    """Fingerprint of an object graph: identities of leaves, contents of arrays and containers."""
    seen = set() if seen is None else seen
    if isinstance(o, (int, float, str, bytes, bool, type(None), np.generic)):
        return repr(o)
    if id(o) in seen or depth > 5:
        return id(o)
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        return (id(o), o.shape, o.tobytes() if o.size < 4000 and o.dtype != object else 0)
    if isinstance(o, dict):
        return tuple((k if isinstance(k, (str, int)) else id(k), mark(v, depth + 1, seen)) for k, v in list(o.items()))
    if isinstance(o, (list, tuple)):
        return tuple(mark(v, depth + 1, seen) for v in list(o))
    d = getattr(o, "__dict__", None)
    if type(o).__module__.startswith(("tslearn", "sklearn")) and isinstance(d, dict):
        return (type(o).__name__, mark(d, depth + 1, seen))
    return id(o)


def module_state():
    out = []
    for name, m in sorted(sys.modules.items()):
        if name == "tslearn" or name.startswith("tslearn."):
            for k, v in list(vars(m).items()):
                if not k.startswith("__") and isinstance(v, (int, float, str, dict, list, set, np.ndarray, type(None))):
                    out.append((name, k, mark(v) if not isinstance(v, set) else repr(sorted(map(str, v)))))
    return out


def state(shared):
    return tuple(mark(o) for o in shared)


# conversions of arguments: scheduling points in the quick tier only for the functional interface,
# or when the queries of a model are seen to change shared state
CONVERSIONS = ("utils" + os.sep, "backend" + os.sep)


class Pair:
    """Two calls on shared objects."""

    def __init__(self, ctx, name, make, calls):
        # make() -> list of shared objects; calls: functions of that list
        self.ctx, self.name, self.make, self.calls = ctx, name, make, calls

    def run(self, shared, pre, first, watch=None):
        r = Run([lambda c=c: c(shared) for c in self.calls], dict(pre), roots(), first)
        if watch is not None:
            r.watch = lambda p: watch(p, r)
        return r.go()

    def alone(self, n, shared):
        """Result, points and the points at which something shared had changed since the previous one."""
        seen, changes = [state(shared), module_state()], []

        def watch(p, _):
            s = state(shared)
            m = module_state() if p % 100 == 50 else seen[1]
            if s != seen[0] or m != seen[1]:
                changes.append(p)
                seen[0], seen[1] = s, m
        r = Run([lambda: self.calls[n](shared)], {}, roots(), 0)
        r.watch = lambda p: watch(p, r)
        r.go()
        if state(shared) != seen[0]:
            changes.append(r.points)
        return r, changes

    def explore(self, occurrences, pairs_cap, everywhere=True):
        ctx = self.ctx
        t0 = time.time()
        with ctx.case("alone", est=self.name):
            # twice: the first call compiles and imports, and may fill caches once and for all
            for _ in range(2):
                shared = self.make()
                solo = [Run([lambda c=c: c(shared)], {}, roots(), 0).go().results[0] for c in self.calls]
            for k, v in solo:
                require(k == "ok", f"the call fails when alone: {v!r}")
        self.want = [v for _, v in solo]
        shared = self.make()
        before = state(shared)
        writes = []
        for n in range(len(self.calls)):
            s = self.make()
            r, ch = self.alone(n, s)
            writes.append([(max(0, c - 2), c + 1) for c in ch])
        changed = any(writes)
        same = self.same
        for first in range(1 if same else 2):
            base = self.run(self.make(), (), first)
            self.judge(base, (), first, before, shared if not changed else None)
            todo = self.points(base, first, occurrences, everywhere or changed)
            for p in todo:
                s = self.make() if changed else shared
                r = self.run(s, ((p, 0),), first)
                self.judge(r, ((p, 0),), first, before, s)
            if changed:
                near = [p for p in range(base.points) if base.where[p][0] == first and any(a <= p <= b for a, b in writes[first])]
                other = [q for a, b in writes[1 - first] for q in range(a, b + 1)] or [0]
                done = 0
                for p in near[:pairs_cap]:
                    for q in sorted(set(other))[:pairs_cap]:
                        s = self.make()
                        pre = ((p, 0), (p + 1 + q, 0))
                        r = self.run(s, pre, first)
                        self.judge(r, pre, first, before, s)
                        done += 1
                ctx.extra["two_preemptions"] = ctx.extra.get("two_preemptions", 0) + done
        ctx.extra["pairs"] = ctx.extra.get("pairs", 0) + 1
        ctx.extra["pairs_with_shared_writes"] = ctx.extra.get("pairs_with_shared_writes", 0) + int(changed)

    def points(self, base, first, occurrences, everywhere):
        """Points of the thread that runs first, at the first and last occurrences of each line."""
        by = {}
        for p, (i, f, l) in enumerate(base.where):
            if i == first and base.alts[p] and (everywhere or not f[len(lib_root()):].startswith(CONVERSIONS)):
                by.setdefault((f, l), []).append(p)
        out = set()
        for v in by.values():
            out.update(v[:occurrences])
            out.add(v[-1])
        return sorted(out)

    def judge(self, r, pre, first, before, shared):
        ctx = self.ctx
        ctx.transitions += r.points
        ctx.traces += 1
        ctx.states += 1
        with ctx.case("schedule", est=self.name, first=first, preempted=[list(t[1:]) for t in r.trace]):
            for k, (how, v) in enumerate(r.results):
                require(how == "ok", f"call {k} fails: {v!r}"[:300])
                d = zoo.diff(self.want[k], v)
                require(d is None, f"call {k} returns something else than alone: {d}")
            if shared is not None:
                after = state(shared)
                if after != before and not self.fresh:
                    d = zoo.diff(zoo.fitted(self.reference), zoo.fitted(shared[0])) or zoo.diff(self.reference.get_params(), shared[0].get_params())
                    require(d is None, f"the model has changed: {d}")
            ctx.outcome(self.name, r.order)

    fresh = True
    same = False
    reference = None


class ModelPair(Pair):
    fresh = False


def run(ctx):
    os.environ.setdefault("KERAS_BACKEND", "torch")
    models(ctx)
    functions(ctx)


# the same code as knn-ctw and their relatives with other metrics
QUICK_SKIP = {"knnc-ctw", "knnr-ctw", "knnr-softdtw", "knnc-frechet", "knnr-cityblock", "knn-cityblock"}


def models(ctx):
    entries = zoo.share(ctx, zoo.menu(slow=ctx.thorough))
    for e in entries:
        D = e.data["A"]
        other = e.data["A"]
        other = copy.copy(D)
        other.XQ = np.ascontiguousarray(D.XQ[::-1][:max(2, len(D.XQ) - 1)])
        if e.var:
            other.XQ = np.concatenate([other.XQ, np.full_like(other.XQ[:, :1], np.nan)], 1)
        est = e.make()
        with ctx.case("fit", est=e.name):
            e.fit(est, D)
        qs = [(n, q) for n, q in e.queries.items() if n != "attrs"]
        if not qs or ctx.quick and e.name in QUICK_SKIP:
            continue
        todo = [(a, a) for a in qs]
        if len(qs) > 1:
            todo += [(qs[k], qs[(k + 1) % len(qs)]) for k in range(len(qs) if len(qs) > 2 or ctx.thorough else 1)]
        if ctx.quick:
            todo = todo[:1] if e.cost > 1 else todo[:1] + todo[len(qs):][:1]
        for (na, qa), (nb, qb) in todo:
            pair = ModelPair(ctx, f"{e.name}:{na}+{nb}", lambda: [copy.deepcopy(est)], [
                lambda sh, qa=qa: qa(sh[0], D), lambda sh, qb=qb: qb(sh[0], other)])
            pair.reference = est
            pair.same = na == nb and ctx.quick
            pair.explore(ctx.pick(1, 6), ctx.pick(12, 60), ctx.thorough)


def functions(ctx):
    from tslearn import barycenters as B
    from tslearn import metrics as M
    from tslearn import utils as U
    from tslearn.clustering import silhouette_score
    from tslearn.generators import random_walks, random_walk_blobs
    a, b = series(1, 5), series(2, 4)
    X = [series(k, 4 + k % 2) for k in range(3)]
    Y = [series(9 + k, 5) for k in range(3)]
    one = {
        "dtw": [lambda: M.dtw(a, b, global_constraint="sakoe_chiba", sakoe_chiba_radius=0), lambda: M.dtw(a, b)],
        "dtw_path": [lambda: M.dtw_path(a, b, global_constraint="itakura"), lambda: M.dtw_path(b, a)],
        "frechet": [lambda: M.frechet_path(a, b), lambda: M.cdist_frechet(X, Y, global_constraint="itakura")],
        "lcss": [lambda: M.lcss_path(a, b, eps=.5), lambda: M.lcss(a, b, eps=2.)],
        "soft_dtw": [lambda: M.soft_dtw(a, b, gamma=.1), lambda: M.cdist_soft_dtw_normalized(X, gamma=3.)],
        "gak": [lambda: M.cdist_gak(X, Y, sigma=2.), lambda: M.gak(a, b, sigma=.5)],
        "ctw": [lambda: M.ctw(a, b), lambda: M.ctw(b, a, max_iter=2)],
        "ldtw": [lambda: M.dtw_limited_warping_length(a, b, max_length=6), lambda: M.dtw_limited_warping_length(a, b, max_length=5)],
        "lb": [lambda: M.lb_keogh(a, a[::-1], radius=2), lambda: M.lb_envelope(a, radius=1)],
        "cdist": [lambda: M.cdist_dtw(X, Y), lambda: M.cdist_dtw(Y, sakoe_chiba_radius=1)],
        "dba": [lambda: B.dtw_barycenter_averaging(X, max_iter=3), lambda: B.dtw_barycenter_averaging(Y, max_iter=3, metric_params={"sakoe_chiba_radius": 1})],
        "softbary": [lambda: B.softdtw_barycenter(Y, gamma=.5, max_iter=3), lambda: B.euclidean_barycenter(Y)],
        "dataset": [lambda: U.to_time_series_dataset(X), lambda: U.to_time_series_dataset([[1, 2], [3, 4, 5]], dtype=float)],
        "text": [lambda: U.time_series_to_str(a), lambda: U.str_to_time_series("1 2|3 4")],
        "silhouette": [lambda: silhouette_score(Y, [0, 1, 1], metric="dtw"), lambda: silhouette_score(Y, [0, 0, 1], metric="euclidean")],
        "generators": [lambda: random_walks(2, 3, 1, random_state=3), lambda: random_walk_blobs(2, 3, 1, n_blobs=2, random_state=5)],
    }
    for name, calls in one.items():
        if not ctx.mine():
            continue
        Pair(ctx, "function:" + name, lambda: [], [lambda sh, c=c: c() for c in calls]).explore(ctx.pick(1, 6), ctx.pick(8, 40))
