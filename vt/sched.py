"""Deterministic interleavings of threads at statement or instruction granularity.

Exactly one thread runs at a time.  A thread counts the lines it executes in the
package under test (plus explicit points of the harness); a schedule is a list of
segments (thread, lines): run that thread for so many lines, then pass on; what is
left runs to completion in order."""
import os
import sys
import threading
import time

from .core import REPO, HarnessError

PKG = os.path.realpath(os.path.join(REPO, 'ombott')) + os.sep
_here = threading.local()


def point():
    t = getattr(_here, 'task', None)
    if t is not None:
        t.step()


class atomic:
    """no switch of threads inside"""
    def __enter__(self):
        t = getattr(_here, 'task', None)
        if t is not None:
            t.hold += 1

    def __exit__(self, *a):
        t = getattr(_here, 'task', None)
        if t is not None:
            t.hold -= 1


class Gate:
    """a closed lock that others open (cheaper than a semaphore)"""
    def __init__(self):
        self.lock = threading.Lock()
        self.lock.acquire()

    def acquire(self, timeout=-1):
        return self.lock.acquire(True, timeout)

    def release(self):
        try:
            self.lock.release()
        except RuntimeError:       # already open: only after a stuck schedule
            pass


ALL = 1 << 30                # a segment of this length runs to completion


class Task:
    def __init__(self, run, i, fn):
        self.run, self.i, self.fn = run, i, fn
        self.sem = Gate()
        self.steps = 0
        self.limit = None
        self.left = 0                  # preemptions still planned for this thread
        self.tracing = True
        self.hold = 0
        self.done = False
        self.result = self.error = None
        self.ended = Gate()

    def start(self, fresh):
        if fresh:
            threading.Thread(target=self.whole, daemon=True).start()
        else:
            _pool[self.i].start(self)

    def whole(self):
        self.main()
        self.ended.release()

    def step(self):
        if self.hold:
            return
        self.steps += 1
        if self.limit is not None and self.steps >= self.limit:
            self.limit = None
            self.left -= 1
            self.run.ctl.release()
            self.sem.acquire()
        if not self.left and not self.run.count:
            self.tracing = False
            if not self.run.fine:
                sys.settrace(None)

    def trace(self, frame, event, arg):
        if not self.tracing:
            return None
        f = frame.f_code.co_filename
        ok = _known.get(f)
        if ok is None:
            ok = _known[f] = os.path.realpath(f).startswith(PKG)
        if not ok:
            return None
        if self.run.fine:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == self.run.event:
            self.step()
        return self.local if self.tracing else None

    def main(self):
        _here.task = None
        self.sem.acquire()
        try:
            if self.run.prelude is not None:
                self.run.prelude(self.i)
                self.run.ctl.release()
                self.sem.acquire()
            _here.task = self
            if self.left or self.run.count:
                sys.settrace(self.trace)
            try:
                self.result = self.fn()
            finally:
                sys.settrace(None)
                _here.task = None
        except BaseException as e:
            self.error = e
        self.done = True
        self.run.ctl.release()


_known = {}


class Worker:
    """a thread which is kept for the next schedules"""
    def __init__(self):
        self.gate = Gate()
        self.thread = threading.Thread(target=self.main, daemon=True)
        self.thread.start()

    def start(self, task):
        self.task = task
        self.gate.release()

    def main(self):
        while True:
            self.gate.acquire()
            self.task.whole()


_pool = []


class Run:
    def __init__(self, fns, prelude=None, count=False, fresh=True, fine=False):
        self.fine = fine                  # count instructions, not lines
        self.event = 'opcode' if fine else 'line'
        self.fresh = fresh
        self.prelude = prelude
        self.count = count
        self.ctl = Gate()
        self.tasks = [Task(self, i, f) for i, f in enumerate(fns)]
        self.stuck = 0

    def wait(self, task):
        """until the running task stops (pause or end); a task blocked by a paused one lets the others go on"""
        while not self.ctl.acquire(timeout=1.0):
            before = task.steps
            if self.ctl.acquire(timeout=1.0):
                return
            if task.steps == before and not task.done:
                self.stuck += 1
                return

    def go(self, segments):
        for i, n in segments:
            if n < ALL:
                self.tasks[i].left += 1
        while not self.fresh and len(_pool) < len(self.tasks):
            _pool.append(Worker())
        for t in self.tasks:
            t.start(self.fresh)
        for t in self.tasks if self.prelude is not None else ():               # preludes, one after the other
            t.sem.release()
            self.wait(t)
        trail = []
        for i, n in segments:
            t = self.tasks[i]
            if t.done:
                continue
            t.limit = t.steps + n if n < ALL else None
            t.sem.release()
            self.wait(t)
            trail.append((i, t.steps, t.done))
        for t in self.tasks:
            if not t.done:
                t.limit = None
                t.sem.release()
                if not self.stuck:
                    self.wait(t)
        t0 = time.monotonic()
        for t in self.tasks:
            while not t.ended.acquire(1.0):
                for u in self.tasks:       # only after a stuck schedule
                    if self.stuck and not u.done:
                        u.limit = None
                        u.sem.release()
                if time.monotonic() - t0 > 60:
                    raise HarnessError('threads of a schedule do not end')
        if self.stuck:
            del _pool[:]
        return trail


def interleave(fns, segments, prelude=None, count=False, fresh=True, fine=False):
    r = Run(fns, prelude, count, fresh, fine)
    r.go(segments)
    for t in r.tasks:
        if t.error is not None:
            raise t.error
    return [t.result for t in r.tasks], [t.steps for t in r.tasks], r.stuck
