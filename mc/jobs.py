"""A joblib backend whose task schedule is decided by the explorer.

Tasks submitted by ``joblib.Parallel`` are queued; when the caller starts
waiting for results, they are run one at a time in the order chosen by the
explorer (a choice among the tasks queued at that moment, as joblib keeps
feeding the queue after each completion).  ``explore_orders`` runs a function
under every possible sequence of choices.
"""
import contextlib

import joblib
from joblib._parallel_backends import ParallelBackendBase


class _Choices:
    def __init__(self, prefix):
        self.prefix, self.log = list(prefix), []

    def pick(self, n):
        k = len(self.log)
        c = self.prefix[k] if k < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError("schedule replay diverged")
        self.log.append((c, n))
        return c


CURRENT = None      # _Choices of the running execution
RUNNER = None       # optional: callable(list of (task, callback, backend)) that runs a whole queue itself
STATS = {"tasks": 0}


class ControlledBackend(ParallelBackendBase):
    supports_retrieve_callback = True
    uses_threads = True
    supports_sharedmem = True
    default_n_jobs = 2

    def __init__(self, **kw):
        super().__init__(**kw)
        self.pending = []

    def effective_n_jobs(self, n_jobs):
        return {None: 1, -1: 2}.get(n_jobs, n_jobs)

    def configure(self, n_jobs=1, parallel=None, **kw):
        self.parallel = parallel
        self.pending = []
        return self.effective_n_jobs(n_jobs)

    def submit(self, func, callback=None):
        self.pending.append((func, callback))
        return func

    apply_async = submit

    def retrieve_result_callback(self, out):
        if isinstance(out, BaseException):
            raise out
        return out

    def abort_everything(self, ensure_ready=True):
        self.pending = []

    @contextlib.contextmanager
    def retrieval_context(self):
        if RUNNER is not None:
            RUNNER(self)
        while self.pending:
            k = CURRENT.pick(len(self.pending)) if CURRENT is not None else 0
            self.run_one(*self.pending.pop(k))
        yield

    @staticmethod
    def run_one(func, callback):
        STATS["tasks"] += 1
        try:
            out = func()
        except BaseException as e:          # delivered by joblib to the caller
            out = e
        callback(out)


joblib.register_parallel_backend("verif-controlled", ControlledBackend)


def controlled():
    return joblib.parallel_config(backend="verif-controlled")


def explore_orders(fn, limit=None):
    """Yield (choices, result-or-exception) for every task order."""
    global CURRENT
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        CURRENT = _Choices(prefix)
        try:
            with controlled():
                res = fn()
        finally:
            log, CURRENT = CURRENT.log, None
        n += 1
        yield [c for c, _ in log], res
        if limit and n >= limit:
            return
        for i in range(len(log) - 1, len(prefix) - 1, -1):
            for alt in range(log[i][1] - 1, 0, -1):
                stack.append([c for c, _ in log[:i]] + [alt])
