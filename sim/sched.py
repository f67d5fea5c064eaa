"""A seeded scheduler for threads: exactly one runs, switches happen only at
executed lines of ahkab, at file operations and at linear solves."""
import random
import sys
import threading
import _thread

from . import seams
from .core import Budget


class Stuck(BaseException):
    pass


class Sched(object):
    """mode random: at every point a switch with probability p.
    mode sites: thread i is preempted when it passes line `site` for the
    `occ`-th time; plan = [(thread, (file, line), occ)], in any order."""

    def __init__(self, seed, p=0.0, plan=(), budget=4000000):
        self.rng = random.Random(seed)
        self.p = p
        self.plan = [list(x) + [0] for x in plan]
        self.n = 0
        self.budget = budget
        self.switches = 0
        self.trace = []          # (thread, events) runs of the schedule
        self.cur = None
        self.alive = []
        self.sem = {}
        self.dead = False
        self.last = 0

    # -- called by the running thread
    def point(self, where=None):
        if self.cur is None or _thread.get_ident() != self.ids.get(self.cur):
            return
        self.n += 1
        if self.n > self.budget:
            self.dead = True
            raise Budget("%d steps of concurrent threads" % self.n)
        go = self.p and self.rng.random() < self.p
        if where is not None and self.plan:
            for e in self.plan:
                if e[0] == self.cur and e[1] == where:
                    e[3] += 1
                    if e[3] - 1 == e[2]:
                        go = True
        if go:
            self.switch()

    def switch(self, blocked=False):
        others = [t for t in self.alive if t != self.cur]
        if not others:
            if blocked:
                raise Stuck("every thread waits for a lock")
            return
        me, nxt = self.cur, self.rng.choice(others)
        # from here on no Python function is called: a RecursionError cannot tear this
        self.switches += 1
        self.trace.append((me, self.n - self.last))
        self.last = self.n
        self.cur = nxt
        self.sem[nxt].release()
        self.sem[me].acquire()

    def tracer(self):
        def local(frame, event, arg):
            if event == "line":
                self.point((seams.os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            return local

        def glob(frame, event, arg):
            return local if seams.is_ahkab(frame.f_code.co_filename) else None
        return glob

    def run(self, fns):
        """Run every fn() in a thread of its own; list of (value, exception)."""
        out = [None] * len(fns)
        self.sem = {i: _thread.allocate_lock() for i in range(len(fns))}
        for l in self.sem.values():
            l.acquire()
        self.ids = {}
        self.alive = list(range(len(fns)))
        done = threading.Semaphore(0)
        tr = self.tracer()

        def body(i):
            self.ids[i] = _thread.get_ident()
            self.sem[i].acquire()
            v = e = None
            sys.settrace(tr)
            try:
                v = fns[i]()
            except BaseException as x:
                e = x
            finally:
                sys.settrace(None)
            out[i] = (v, e)
            self.trace.append((i, self.n - self.last))
            self.last = self.n
            self.alive.remove(i)
            if self.alive:
                self.cur = self.rng.choice(self.alive)
                self.sem[self.cur].release()
            else:
                self.cur = None
                done.release()
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(fns))]
        global active
        active = self
        try:
            for t in ts:
                t.start()
            self.cur = self.rng.choice(self.alive)
            self.sem[self.cur].release()
            done.acquire()
            for t in ts:
                t.join()
        finally:
            active = None
        return out


active = None


def point(*a):
    """A possible switch at an external operation."""
    if active is not None:
        active.point()


class SimLock(object):
    """A lock the scheduler knows of: a thread that has to wait lets others run."""

    def __init__(self, make):
        self._l = make()

    def acquire(self, blocking=True, timeout=-1):
        spins = 0
        while active is not None and active.cur is not None and blocking:
            if self._l.acquire(False):
                return True
            spins += 1
            if spins > 10000:
                raise Stuck("threads wait for each other's locks")
            if active.ids.get(active.cur) != _thread.get_ident():
                break
            if timeout is not None and timeout >= 0:
                return False
            active.switch(blocked=True)
        if timeout is not None and timeout >= 0 and blocking:
            return self._l.acquire(True, timeout)
        return self._l.acquire(blocking)

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked() if hasattr(self._l, "locked") else False

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, n):
        return getattr(self._l, n)


class sim_locks(object):
    """Locks made in here (by ahkab at import, or in a simulated run) are SimLocks."""

    def __enter__(self):
        self.l, self.r = threading.Lock, threading.RLock
        a, b = self.l, self.r
        threading.Lock = lambda: SimLock(a)
        threading.RLock = lambda: SimLock(b)

    def __exit__(self, *a):
        threading.Lock, threading.RLock = self.l, self.r
        return False
