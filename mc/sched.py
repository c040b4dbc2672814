"""Controlled interleaving of real threads at the granularity of source lines.

Each body runs in its own thread under ``sys.settrace``; before every line of
the traced packages the thread asks the scheduler, which decides who runs
next.  Exactly one thread runs at any time.  ``explore`` enumerates every
schedule with at most ``bound`` preemptions (stateless, by re-execution); the
preemption points of one execution are all its traced lines.
"""
import itertools
import os
import sys
import threading
import time

BLOCKED_AFTER = 0.5


class Run:
    """One execution under a fixed set of preemptions {point: alternative}."""

    def __init__(self, bodies, preempt, roots, first=0):
        self.bodies, self.preempt, self.roots = bodies, dict(preempt), tuple(roots)
        self.n = len(bodies)
        self.sems = [threading.Semaphore(0) for _ in bodies]
        self.done = [False] * self.n
        self.blocked = [False] * self.n
        self.results = [None] * self.n
        self.points = 0
        self.alts = []              # alternatives at each point
        self.trace = []             # (thread, file, line) of the preemptions taken
        self.where = []             # (thread, file, line) of each point
        self.watch = None           # called at each point (with its number)
        self.current = first
        self.order = [first]
        self.finished = threading.Event()
        self.progress = 0
        self.uncontrolled = 0
        self.lock = threading.Lock()

    def go(self):
        ts = [threading.Thread(target=self._main, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.sems[self.current].release()
        last, t0 = -1, time.time()
        while not self.finished.wait(0.05):
            if self.progress != last:
                last, t0 = self.progress, time.time()
            elif time.time() - t0 > BLOCKED_AFTER:
                # the running thread waits for something another one holds
                with self.lock:
                    self.uncontrolled += 1
                    self.blocked[self.current] = True
                    cand = [i for i in range(self.n) if not self.done[i] and not self.blocked[i]]
                    if cand:
                        self._to(cand[0])
                t0 = time.time()
                if self.uncontrolled > 200:
                    raise RuntimeError("deadlock: no thread makes progress")
        for t in ts:
            t.join()
        return self

    def _to(self, i):
        self.current = i
        self.order.append(i)
        self.sems[i].release()

    def _main(self, i):
        self.sems[i].acquire()
        tracer = self._make(i)
        sys.settrace(tracer)
        try:
            r = ("ok", self.bodies[i]())
        except BaseException as e:
            r = ("error", e)
        finally:
            sys.settrace(None)
        self.results[i] = r
        with self.lock:
            self.progress += 1
            self.done[i] = True
            was_blocked, self.blocked[i] = self.blocked[i], False
            if all(self.done):
                self.finished.set()
            elif self.current == i:
                cand = [k for k in range(self.n) if not self.done[k] and not self.blocked[k]] or \
                    [k for k in range(self.n) if not self.done[k]]
                self._to(cand[0])

    def _make(self, i):
        roots = self.roots

        def local(frame, event, arg):
            if event == "line":
                self._point(i, frame)
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(roots):
                return local
            return None
        return tracer

    def _point(self, i, frame):
        with self.lock:
            self.progress += 1
            if self.current != i:
                # was resumed from outside the scheduler's control (had been blocked)
                self.blocked[i] = False
                wait = True
            else:
                others = [k for k in range(self.n) if k != i and not self.done[k] and not self.blocked[k]]
                p = self.points
                self.points += 1
                self.alts.append(len(others))
                self.where.append((i, frame.f_code.co_filename, frame.f_lineno))
                if self.watch is not None:
                    self.watch(p)
                wait = False
                alt = self.preempt.get(p)
                if alt is not None:
                    if alt >= len(others):
                        return
                    self.trace.append((i, os.path.basename(frame.f_code.co_filename), frame.f_lineno))
                    self._to(others[alt])
                    wait = True
        if wait:
            self.sems[i].acquire()


def explore(make, bound, roots, first_menu=None, stride=1, budget=None):
    """Yield one finished Run per schedule.

    ``make()`` returns fresh bodies.  All schedules with at most ``bound``
    preemptions, for every thread that may start first.  ``budget`` (seconds)
    ends the enumeration early; the last yielded item is then None.
    """
    t0 = time.time()
    n = len(make())
    for first in (first_menu if first_menu is not None else range(n)):
        todo = [()]
        while todo:
            if budget and time.time() - t0 > budget:
                yield None
                return
            pre = todo.pop()
            r = Run(make(), dict(pre), roots, first).go()
            yield r
            if len(pre) < bound:
                start = pre[-1][0] + 1 if pre else 0
                for p in range(start, r.points, stride if len(pre) else 1):
                    for a in range(r.alts[p]):
                        todo.append(pre + ((p, a),))
