"""C15: an estimator's fit depends only on its parameters and data, not on its past."""
import copy
import itertools

import numpy as np

from mc import zoo
from mc.core import require, Mismatch

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of operation histories on the real estimators, against the abstract state machine "
             "(parameters, last successful fit); every reachable history up to the depth is executed and compared with a "
             "fresh clone brought to the same abstract state in one step")
SHARDS = 5
RULE = ("for every estimator of the library: all histories up to the depth over {fit A, fit B, set each parameter variant, "
        "query, rejected fit, rejected query, call that fails because of a bad parameter which is then put back}, followed by a "
        "fit and all queries; results compared with those of a fresh estimator")
ASSUMPTIONS = ["histories of at most 1 to 2 (quick) / 2 to 3 (thorough) operations before the final fit and queries, 2 datasets",
               "after a fit that raised, the fitted state is not specified until the next successful fit (its parameters are)"]


DEEP = ("kmeans-dtw", "kernel-kmeans-gak", "knn-dtw", "knnc-euclidean", "knnr-sax", "svc-gak", "mlpc", "sax", "minmax-series-2", "meanvar-2",
        "imputer", "matrix-profile", "dbscan-dtw", "varima-001")


def snapshot(est):
    return {k: copy.deepcopy(v) for k, v in est.get_params(deep=False).items()}


class Machine:
    """The real estimator next to its abstract state."""

    def __init__(self, z):
        self.z, self.est = z, z.make()
        self.params = snapshot(self.est)
        self.owned = []          # user-supplied containers and their content
        self.watch(self.est.get_params(deep=False))
        self.fit_at = None       # (params at fit, dataset name) or None

    def watch(self, params):
        for v in params.values():
            if isinstance(v, (dict, list, np.ndarray)):
                self.owned.append((v, copy.deepcopy(v)))

    def check(self, op):
        d = zoo.diff(self.est.get_params(deep=False), self.params, "get_params()")
        if d:
            raise Mismatch(f"hyper-parameters changed by {op}: {d}")
        for v, was in self.owned:
            d = zoo.diff(v, was, "user-supplied parameter")
            if d:
                raise Mismatch(f"changed by {op}: {d}")

    def step(self, op):
        z = self.z
        if op[0] == "fit":
            D = z.data[op[1]]
            z.fit(self.est, D)
            self.fit_at = (copy.deepcopy(self.params), op[1])
        elif op[0] == "set":
            v = copy.deepcopy(z.variants[op[1]])
            self.est.set_params(**v)
            self.watch(v)
            self.params = {**self.params, **copy.deepcopy(v)}
        elif op[0] == "query":
            if self.fit_at is not None:
                for name, q in z.queries.items():
                    try:
                        q(self.est, z.data[self.fit_at[1]])
                    except Exception:
                        pass          # judged at the end, against the fresh estimator
        elif op[0] == "badfit":
            D = z.data["A"]
            try:
                self.est.fit(np.array([[["x"], ["y"]]], dtype=object), None if z.ykind is None else D.y[:1])
            except Exception:
                self.fit_at = None
            else:
                raise Mismatch("non-numeric data accepted by fit")
        elif op[0] == "badquery":
            if self.fit_at is not None:
                D = z.data[self.fit_at[1]]
                wide = copy.copy(D)
                wide.XQ = np.concatenate([D.XQ] * 3, axis=2)
                wide.X = np.concatenate([D.X] * 3, axis=2)
                for name, q in z.queries.items():
                    try:
                        q(self.est, wide)
                    except Exception:
                        pass
        elif op[0] == "badparam":
            v = z.bad[op[1]]
            old = {k: self.est.get_params(deep=False)[k] for k in v}
            self.est.set_params(**copy.deepcopy(v))
            if self.fit_at is not None:
                for name, q in z.queries.items():
                    try:
                        q(self.est, z.data[self.fit_at[1]])
                    except Exception:
                        pass
            if op[2] == "fit":
                try:
                    z.fit(self.est, z.data["A"])
                except Exception:
                    pass
                self.fit_at = None
            self.est.set_params(**old)
        self.check(op)


def observe(z, est, D):
    # estimator_kernel_ is bookkeeping of the SVM classes, rewritten from the kernel parameter at each prediction
    out = {"fitted": copy.deepcopy({k: v for k, v in zoo.fitted(est).items() if not opaque(v) and k != "estimator_kernel_"})}
    for name, q in z.queries.items():
        try:
            out[name] = q(est, D)
        except Exception as e:
            out[name] = "raised " + type(e).__name__
    return out


def opaque(v):
    return type(v).__module__.startswith(("keras", "torch", "sklearn.neighbors"))


def ops(z):
    o = [("fit", "A"), ("fit", "B"), ("query",), ("badfit",), ("badquery",)]
    o += [("set", k) for k in range(len(z.variants))]
    o += [("badparam", k, w) for k in range(len(z.bad)) for w in ("query", "fit")]
    return o


def run(ctx):
    only = None
    total = 0
    for z in zoo.share(ctx, zoo.menu(slow=True)):
        if only and z.name not in only:
            continue
        fresh = {}

        def expected(params, ds, now):
            key = repr((sorted(map(repr, params.items())), ds, sorted(map(repr, now.items()))))
            if key not in fresh:
                e = z.make().set_params(**copy.deepcopy(params))
                try:
                    z.fit(e, z.data[ds])
                except Exception as ex:
                    fresh[key] = "raised " + type(ex).__name__
                else:
                    e.set_params(**copy.deepcopy(now))
                    fresh[key] = observe(z, e, z.data[ds])
            return fresh[key]

        depth = ctx.pick(2 if z.name in DEEP else 1, 3) if z.cost == 1 else ctx.pick(1, 2)
        menu = ops(z)
        hist = [h for n in range(0, depth + 1) for h in itertools.product(menu, repeat=n)]
        for h in hist:
            # nothing to learn from histories whose first operation acts on an unfitted estimator
            if h and h[0][0] in ("query", "badquery"):
                continue
            for last in (("fit", "A"), ("fit", "B"), None):
                if last is not None and h and h[-1] == last and len(h) < depth:
                    continue
                if z.cost >= 20 and ctx.quick and h and h[0][0] in ("badfit", "badparam"):
                    continue
                if z.cost >= 20 and ctx.quick and (not h or (last != ("fit", "A")) if h[:1] != (("fit", "A"),) else last is not None):
                    continue
                if last == ("fit", "B") and len(h) == depth and depth > 1 and ctx.quick and h[0][0] != "fit":
                    continue
                with ctx.case("history", est=z.name, ops=[list(map(str, o)) for o in h], last=None if last is None else list(last)):
                    m = Machine(z)
                    skip = False
                    for o in h:
                        try:
                            m.step(o)
                        except Mismatch:
                            raise
                        except Exception as ex:
                            # a fit that fails here must fail on a fresh estimator too
                            want = expected(m.params, o[1], m.params) if o[0] == "fit" else None
                            if want == "raised " + type(ex).__name__:
                                skip = True
                                break
                            raise
                    if skip:
                        continue
                    if last is not None:
                        want = expected(m.params, last[1], m.params)
                        try:
                            m.step(last)
                        except Mismatch:
                            raise
                        except Exception as ex:
                            require(want == "raised " + type(ex).__name__, f"fit failed after this history: {ex!r}; fresh: {want!r:.200}")
                            continue
                    if m.fit_at is None:
                        continue
                    want = expected(m.fit_at[0], m.fit_at[1], m.params)
                    got = observe(z, m.est, z.data[m.fit_at[1]])
                    # attributes that these parameters do not produce may be left over from an earlier fit
                    if not isinstance(want, str):
                        got = dict(got, fitted={k: v for k, v in got["fitted"].items() if k in want["fitted"]})
                    d = zoo.diff(got, want, "")
                    require(d is None, f"differs from a fresh estimator: {d}")
                    m.check("queries")
                    again = observe(z, m.est, z.data[m.fit_at[1]])
                    again["fitted"] = {k: v for k, v in again["fitted"].items() if k in got["fitted"]}
                    d = zoo.diff(again, got, "")
                    require(d is None, f"second observation differs from the first: {d}")
                    ctx.outcome(np.array([len(repr(got))]), z.name)
                total += 1
                ctx.states += len(h) + 1
                ctx.transitions += len(h) + 1
                ctx.traces += 1
    ctx.extra["histories"] = total
