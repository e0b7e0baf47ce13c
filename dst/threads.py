"""Real threads, simulated scheduling: one baton, handed over at chosen points.

Exactly one thread runs at a time. Whenever a thread reaches a yield point (a tensor
operation, forward or backward; a forward pass; a loader event; optionally every line of
the library's code) the global step counter advances. The schedule is a list of
``[step, offset]``: at the first yield point at or after ``step`` the baton moves to the
``offset``-th next runnable thread. A finished thread hands over to the next runnable one.
"""

import sys
import threading

from dst.core import OpSeam

TIMEOUT = 60


class Stuck(RuntimeError):
    """The baton was lost (an error of the harness, never a verdict)."""


class Thread:
    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.error = None
        self.counts = {}
        self.fault = None  # {"site", "n", "exc"}: the exception object to raise
        self.fired = False


class Baton:
    def __init__(self, ctx, schedule=(), lines=None):
        self.ctx = ctx
        self.schedule = [tuple(s) for s in schedule]
        self.next = 0
        self.step = 0
        self.threads = []
        self.lines = lines  # path prefix of the code whose lines are yield points
        self.idle = threading.Semaphore(0)
        self.by_ident = {}
        self.current = None
        self.switches = 0
        self.stuck = None

    # -- called by running threads ---------------------------------------------
    def me(self):
        return self.by_ident.get(threading.get_ident())

    def arm(self, fault):
        """Start counting the sites of the calling thread, fail at ``fault``."""
        t = self.me()
        t.counts, t.fault, t.fired = {}, fault, False

    def point(self, site):
        t = self.me()
        if t is None:
            return  # not one of the simulated threads
        n = t.counts.get(site, 0)
        t.counts[site] = n + 1
        self.step += 1
        if self.next < len(self.schedule) and self.step >= self.schedule[self.next][0]:
            offset = self.schedule[self.next][1]
            self.next += 1
            self.hand_over(t, offset)
        f = t.fault
        if f is not None and not t.fired and f["site"] == site and f["n"] == n:
            t.fired = True
            self.ctx.fired(site)
            raise f["exc"]

    def runnable(self, t):
        """The other unfinished threads, in cyclic order after ``t``."""
        n = len(self.threads)
        order = [self.threads[(t.tid + 1 + j) % n] for j in range(n - 1)]
        return [o for o in order if not o.done]

    def hand_over(self, t, offset):
        others = self.runnable(t)
        if not others:
            return
        target = others[offset % len(others)]
        self.switches += 1
        self.ctx.ev("switch", self.step, t.tid, target.tid)
        target.sem.release()
        if not t.sem.acquire(timeout=TIMEOUT):
            self.stuck = f"thread {t.tid} never got the baton back"
            raise Stuck(self.stuck)

    # -- life cycle ------------------------------------------------------------
    def _main(self, t):
        self.by_ident[threading.get_ident()] = t
        if not t.sem.acquire(timeout=TIMEOUT):
            self.stuck = f"thread {t.tid} never started"
            return
        try:
            if self.lines:
                sys.settrace(self._trace)
            with OpSeam(on_op=lambda name: self.point("op")):
                t.fn()
        except BaseException as e:  # noqa: B036
            t.error = e
        finally:
            sys.settrace(None)
            t.done = True
            others = self.runnable(t)
            if others:
                others[0].sem.release()
            else:
                self.idle.release()

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.lines):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == "line":
            self.point("line")
        return self._local

    def run(self, fns):
        """Run the functions in threads until all are done."""
        self.threads = [Thread(i, fn) for i, fn in enumerate(fns)]
        real = [
            threading.Thread(target=self._main, args=(t,), daemon=True)
            for t in self.threads
        ]
        for r in real:
            r.start()
        self.threads[0].sem.release()
        if not self.idle.acquire(timeout=2 * TIMEOUT) or self.stuck:
            raise Stuck(self.stuck or "the threads did not finish")
        for r in real:
            r.join(TIMEOUT)
        for t in self.threads:
            if t.error is not None:
                raise t.error
