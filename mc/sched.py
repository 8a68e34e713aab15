"""Controlled scheduler: every interleaving up to a preemption bound.

`explore(run, points)` drives real threads: exactly one of them runs at a
time and it may be preempted only at a scheduling point (the first `visits`
times a source line of the package under test is reached by a thread). A
schedule is the thread that starts plus a list of preemptions
(index of the scheduling point of the running thread, next thread).
"""
import os
import sys
import threading


class Deadlock(Exception):
    pass


class Controller:
    def __init__(self, tasks, first, preempt, prefix, granularity="line",
                 visits=1):
        self.tasks = tasks
        self.preempt = dict(preempt)    # {(thread, point): next thread}
        self.prefix = prefix
        self.gran = granularity
        self.visits = visits
        self.first = first
        n = len(tasks)
        self.count = [0] * n            # scheduling points passed
        self.seen = [dict() for _ in range(n)]
        self.done = [False] * n
        self.result = [None] * n
        self.error = [None] * n
        self.turn = first
        self.cv = threading.Condition()
        self.rotated = False
        self.trace = []                 # order of the scheduling decisions

    # a thread gives the baton to `j`
    def hand(self, i, j):
        with self.cv:
            self.trace.append((i, self.count[i], j))
            self.turn = j
            self.cv.notify_all()

    def wait(self, i):
        with self.cv:
            while self.turn != i:
                self.cv.wait(60)

    def point(self, i, key):
        s = self.seen[i]
        k = s.get(key, 0)
        if k >= self.visits:
            return
        s[key] = k + 1
        self.count[i] += 1
        self.wait(i)        # only after a rotation (see run)
        j = self.preempt.get((i, self.count[i]))
        if j is not None and j != i and not self.done[j]:
            self.hand(i, j)
            self.wait(i)

    def tracer(self, i):
        pre, lines = self.prefix, self.gran == "line"

        def local(frame, event, arg):
            if event == "line":
                self.point(i, (frame.f_code.co_filename, frame.f_lineno))
            return local

        def glob(frame, event, arg):
            if event != "call" or not frame.f_code.co_filename.startswith(
                    pre):
                return None
            self.point(i, (frame.f_code.co_filename,
                           -frame.f_code.co_firstlineno))
            return local if lines else None
        return glob

    def body(self, i):
        try:
            self.wait(i)
            sys.settrace(self.tracer(i))
            try:
                self.result[i] = self.tasks[i]()
            finally:
                sys.settrace(None)
        except BaseException as e:      # reported by the caller
            self.error[i] = e
        self.done[i] = True
        for j in [(i + k) % len(self.tasks)
                  for k in range(1, len(self.tasks))]:
            if not self.done[j]:
                self.hand(i, j)
                break

    def run(self):
        ths = [threading.Thread(target=self.body, args=(i,), daemon=True)
               for i in range(len(self.tasks))]
        for t in ths:
            t.start()
        # a thread that waits for another one (a lock of the code under test)
        # gives its turn away: the schedule is then not the planned one
        last, idle = None, 0
        for t in ths:
            while t.is_alive():
                t.join(2)
                now = (tuple(self.count), tuple(self.done))
                if now != last:
                    last, idle = now, 0
                    continue
                idle += 1
                if idle > 30:
                    raise Deadlock("no thread makes progress")
                n = len(ths)
                for k in range(1, n):
                    j = (self.turn + k) % n
                    if not self.done[j]:
                        self.rotated = True
                        self.hand(self.turn, j)
                        break
        for e in self.error:
            if e is not None:
                raise e
        return self.result


class FakeParallel:
    """stands for joblib.Parallel: the tasks run under the controller"""
    plan = {}
    log = None

    def __init__(self, *a, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, iterable):
        calls = [(lambda f=f, a=a, k=k: f(*a, **k)) for f, a, k in iterable]
        p = FakeParallel.plan
        if not calls:
            return []
        c = Controller(calls, p.get("first", 0) % len(calls),
                       p.get("preempt", {}), p["prefix"],
                       p.get("gran", "line"), p.get("visits", 1))
        FakeParallel.log = c
        return c.run()
