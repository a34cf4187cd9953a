"""A controlled scheduler for Python threads: exactly one managed thread runs at a time
and control moves only where the plan says, when a thread ends, or when it waits for a
lock.  Scheduling points are the executed lines (or bytecodes) of sudachipy."""
import os
import sys
import threading
import time
import _thread

_real_lock = _thread.allocate_lock
_current = None         # the active scheduler
_ident = {}             # thread ident -> managed thread number


class Deadlock(Exception):
    pass


class Aborted(BaseException):
    pass


class CoopLock:
    """threading.Lock / RLock that tells the scheduler when it waits"""
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._real = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        me = _thread.get_ident()
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        t = _ident.get(me) if s is not None else None
        if t is None:
            ok = self._real.acquire(blocking, timeout)
        else:
            while True:
                ok = self._real.acquire(False)
                if ok or not blocking or timeout >= 0:
                    break
                s.block(t, self)
        if ok:
            self._owner = me
            self._count = 1
        return ok

    def release(self):
        if self.reentrant and self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self.reentrant and self._count:
            return
        self._owner = None
        self._real.release()
        if _current is not None:
            _current.released(self)

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self._real = _real_lock()
        self._owner = None
        self._count = 0


class CoopRLock(CoopLock):
    reentrant = True


def patch():
    import multiprocessing.synchronize  # noqa  anything that wants real locks is imported before
    import logging, concurrent.futures, queue, tempfile, random, csv, json, argparse  # noqa
    threading.Lock = CoopLock
    threading.RLock = CoopRLock


class Scheduler:
    """runs the programs under one plan: a list of (step, thread), in increasing steps"""

    def __init__(self, programs, first, plan, base, opcodes=False):
        self.programs = programs
        self.plan = list(plan)
        self.base = base
        self.opcodes = opcodes
        self.n = len(programs)
        self.first = first
        self.sems = [_real_lock() for _ in programs]
        for s in self.sems:
            s.acquire()
        self.done = [False] * self.n
        self.blocked = [None] * self.n
        self.results = [None] * self.n
        self.errors = [None] * self.n
        self.steps = 0
        self.current = None
        self.switches = 0
        self.skipped = 0
        self.finished = _real_lock()
        self.finished.acquire()
        self.abort = None
        self.trace_tail = []

    # -- called by managed threads
    def point(self, t, frame):
        if self.abort is not None:
            raise Aborted()
        if self.current != t:           # it had been left behind in a foreign wait
            self.sems[t].acquire()
        self.steps += 1
        if self.plan and self.plan[0][0] <= self.steps:
            _, to = self.plan.pop(0)
            if to != t and not self.done[to] and self.blocked[to] is None:
                self.switches += 1
                self.trace_tail.append((self.steps, t, '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno or 0), to))
                self.hand(to)
                self.wait(t)
            else:
                self.skipped += 1

    def hand(self, to):
        self.current = to
        self.sems[to].release()

    def wait(self, t):
        self.sems[t].acquire()
        if self.abort is not None:
            raise Aborted()

    def next(self):
        for i in range(self.n):
            if not self.done[i] and self.blocked[i] is None:
                return i
        return None

    def block(self, t, lock):
        self.blocked[t] = lock
        to = self.next()
        if to is None:
            self.abort = 'deadlock'
            for i in range(self.n):
                if i != t and not self.done[i]:
                    self.sems[i].release()
            raise Aborted()
        self.switches += 1
        self.hand(to)
        self.wait(t)

    def released(self, lock):
        for i in range(self.n):
            if self.blocked[i] is lock:
                self.blocked[i] = None

    def end(self, t):
        self.done[t] = True
        if all(self.done):
            self.finished.release()
            return
        if self.abort is not None:
            return
        to = self.next()
        if to is None:
            self.abort = 'deadlock'
            for i in range(self.n):
                if not self.done[i]:
                    self.sems[i].release()
            return
        self.hand(to)

    def body(self, t):
        _ident[_thread.get_ident()] = t
        base = self.base
        point = self.point

        if self.opcodes:
            def local(frame, event, arg):
                if event == 'opcode':
                    point(t, frame)
                return local
        else:
            def local(frame, event, arg):
                if event == 'line':
                    point(t, frame)
                return local

        opc = self.opcodes

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(base):
                if opc:
                    frame.f_trace_opcodes = True
                return local
            return None
        try:
            self.wait(t)
            sys.settrace(tracer)
            try:
                self.results[t] = self.programs[t]()
            finally:
                sys.settrace(None)
        except Aborted:
            self.errors[t] = self.abort
        except BaseException as e:  # noqa
            self.errors[t] = '%s: %s' % (type(e).__name__, e)
        finally:
            _ident.pop(_thread.get_ident(), None)
            self.end(t)

    def run(self, patience=2.0, limit=60.0):
        global _current
        _current = self
        try:
            for t in range(self.n):
                _thread.start_new_thread(self.body, (t,))
            self.hand(self.first)
            seen, since, t0 = self.steps, time.time(), time.time()
            while not self.finished.acquire(timeout=0.25):
                now = time.time()
                if self.steps != seen:
                    seen, since = self.steps, now
                elif now - since > patience and self.abort is None:
                    # the running thread waits for something the scheduler does not know
                    stuck = self.current
                    others = [i for i in range(self.n) if i != stuck and not self.done[i] and self.blocked[i] is None]
                    if others:
                        since = now
                        self.hand(others[0])
                if now - t0 > limit and self.abort is None:
                    self.abort = 'no progress'
                    for i in range(self.n):
                        if not self.done[i]:
                            try:
                                self.sems[i].release()
                            except RuntimeError:
                                pass
                if now - t0 > limit + 10:
                    self.errors = [e or 'did not end' if not d else e for e, d in zip(self.errors, self.done)]
                    break
        finally:
            _current = None
        return self.results, self.errors
