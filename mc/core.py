"""Shared machinery of all checks: case bookkeeping, violations, evidence.

A check module defines ``LEVEL``, ``ASSUMPTIONS`` (list of str) and
``run(ctx)``.  Everything explored is reported through ``ctx``:

    with ctx.case("kind", param=..., ...):
        ...assertions about the real code...

An exception inside a case (an AssertionError of ours, or anything raised by
the code under test) is a violation of the property, identified by the kind
and the parameters.  Enumeration goes on afterwards (up to a cap), so that one
run can report every violating case.
"""
import hashlib
import json
import mmap
import os
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOLATIONS = 12


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    if isinstance(o, (float, np.floating)):
        f = float(o)
        return f if np.isfinite(f) else repr(f)
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (int, str)) or o is None:
        return o
    return str(o)


def signature(kind, params):
    return kind + "|" + json.dumps(jsonable(params), sort_keys=True)


class Mismatch(AssertionError):
    pass


def close(actual, expected, what, rtol=1e-6, atol=1e-8):
    """Element-wise agreement; inf and nan must match exactly."""
    a = to_np(actual)
    e = to_np(expected)
    if a.shape != e.shape:
        raise Mismatch(f"{what}: shape {a.shape} instead of {e.shape}; "
                       f"got {a.tolist()!r:.300} expected {e.tolist()!r:.300}")
    if not np.allclose(a, e, rtol=rtol, atol=atol, equal_nan=True):
        raise Mismatch(f"{what}: got {a.tolist()!r:.400} expected {e.tolist()!r:.400}")


def to_np(x):
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return np.asarray(x, dtype=float)


def equal(actual, expected, what):
    if isinstance(actual, np.ndarray) or isinstance(expected, np.ndarray):
        a, e = np.asarray(actual), np.asarray(expected)
        if a.shape != e.shape or not _arr_eq(a, e):
            raise Mismatch(f"{what}: got {a.tolist()!r:.400} expected {e.tolist()!r:.400}")
        return
    if actual != expected:
        raise Mismatch(f"{what}: got {actual!r:.400} expected {expected!r:.400}")


def _arr_eq(a, e):
    if a.dtype.kind == "f" and e.dtype.kind == "f":
        return np.array_equal(a, e, equal_nan=True)
    return np.array_equal(a, e)


def require(cond, what):
    if not cond:
        raise Mismatch(what)


def raises(exc, fn, what):
    try:
        r = fn()
    except exc:
        return
    raise Mismatch(f"{what}: expected {exc} but the call returned {r!r:.200}")


def digest(*arrays):
    """Hash used to canonicalise observed states / outcomes."""
    h = hashlib.blake2b(digest_size=12)
    for a in arrays:
        h.update(repr(jsonable(np.round(a, 9) if isinstance(a, np.ndarray) and a.dtype.kind == "f" else a)).encode())
    return h.digest()


class _Case:
    __slots__ = ("ctx", "kind", "params")

    def __init__(self, ctx, kind, params):
        self.ctx, self.kind, self.params = ctx, kind, params

    def __enter__(self):
        self.ctx._begin(self.kind, self.params)
        return self

    def __exit__(self, et, ev, tb):
        ctx = self.ctx
        if et is None:
            ctx.evaluations += 1
            return False
        if issubclass(et, (KeyboardInterrupt, SystemExit, MemoryError, Stop)):
            return False
        ctx.evaluations += 1
        ctx._violation(self.kind, self.params, ev, tb)
        return True


class Stop(Exception):
    """Raised to end the enumeration after MAX_VIOLATIONS."""


class Ctx:
    def __init__(self, prop, tier, seed, heartbeat=None, only=None, shard=(0, 1)):
        self.shard, self._units, self._team = shard, 0, ()
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.thorough = not self.quick
        self.only = only
        self.t0 = time.time()
        self.evaluations = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.outcomes = set()
        self.extra = {}
        self.violations = []
        self.known_hit = {}
        self._seen_kinds = {}
        self.known = load_known(prop)
        self._hb = None
        if heartbeat:
            f = open(heartbeat, "r+b")
            self._hb = mmap.mmap(f.fileno(), 8192)
        self.lib = os.path.dirname(os.path.abspath(__file__))

    # -- enumeration ------------------------------------------------------
    def case(self, kind, **params):
        return _Case(self, kind, params)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def mine(self, cost=1):
        """Deals units of work round-robin to the processes of a sharded check (every process must ask in the same order)."""
        self._units += 1
        team = self._team or range(self.shard[1])
        return self.shard[1] == 1 or team[(self._units - 1) % len(team)] == self.shard[0]

    def team(self, *members):
        """The following units go to these processes only (fewer processes compile the same functions); false when this one is not among them."""
        self._team = members
        return self.shard[1] == 1 or not members or self.shard[0] in members

    def _begin(self, kind, params):
        n = self._seen_kinds.get(kind, 0)
        self._seen_kinds[kind] = n + 1
        if self._hb is not None and (n < 50 or n % 16 == 0):
            s = (json.dumps({"n": self.evaluations, "t": time.time(), "kind": kind,
                             "params": jsonable(params)}, default=str)[:8000]).encode()
            self._hb[0:len(s) + 1] = s + b"\0"
        if n in (1, 7):
            self.sample(kind, params)

    def sample(self, kind, params):
        if len(self.samples) < 40:
            s = json.dumps({"kind": kind, **jsonable(params)})
            if len(s) < 1500:
                self.samples.append(s)

    def outcome(self, *arrays):
        """Register one distinct observed outcome (canonical form)."""
        self.outcomes.add(digest(*arrays))

    # -- violations -------------------------------------------------------
    def _violation(self, kind, params, ev, tb):
        sig = signature(kind, params)
        for k in self.known:
            if k["signature"] == sig or (k.get("prefix") and sig.startswith(k["prefix"])):
                self.known_hit[k["what"]] = self.known_hit.get(k["what"], 0) + 1
                return
        text = "".join(traceback.format_exception(type(ev), ev, tb))[-4000:]
        rec = {"property": self.prop, "kind": kind, "params": jsonable(params),
               "signature": sig, "message": f"{type(ev).__name__}: {ev}"[:2000],
               "traceback": text, "tier": self.tier,
               "replay": f"cd /verif && python3 run.py {self.prop} --tier {self.tier} --replay <this file>"}
        if self.only is not None and self.only != sig:
            return
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{self.prop}-{hashlib.sha1(sig.encode()).hexdigest()[:10]}.json")
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        self.violations.append(rec)
        print(f"VIOLATION property={self.prop} replay={path}")
        print(f"  {kind}: {rec['message'][:300]}")
        print(f"  params: {json.dumps(rec['params'])[:400]}")
        sys.stdout.flush()
        if len(self.violations) >= MAX_VIOLATIONS:
            raise Stop()

    # -- evidence ---------------------------------------------------------
    def report(self, level, assumptions, rule):
        return {"level": level, "assumptions": assumptions, "rule": rule, "known_hit": self.known_hit,
                "evaluations": self.evaluations, "states": int(self.states), "transitions": int(self.transitions),
                "traces": int(self.traces), "outcomes": sorted(o.hex() for o in self.outcomes),
                "samples": self.samples, "kinds": self._seen_kinds, "extra": jsonable(self.extra),
                "violations": len(self.violations)}


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line:
                continue
            k = json.loads(line)
            if k.get("status") == "known" and k["property"] == prop:
                out.append(k)
    return out
