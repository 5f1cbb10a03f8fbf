"""Controlled scheduler for real Python threads.

Exactly one controlled thread runs at a time.  Every bytecode instruction (or line) executed in the code under
test is a scheduling point (sys.settrace); locks of the code under test are
cooperative (jv.core.MonLock), so deadlocks are detected, not timed out.
All choices come from a seeded RNG; the schedule (sequence of thread ids at switches) is recorded.
"""
import gc
import sys
import threading
import _thread

from . import core

_alloc = core._real_allocate


EXT = [0]     # interventions on a thread in a wait the scheduler does not control (or starved by the machine)


class _T(object):
    __slots__ = ('idx', 'fn', 'ident', 'gate', 'done', 'waiting', 'exc', 'result', 'prio', 'started', 'steps', 'ext')

    def __init__(self, idx, fn):
        self.idx = idx
        self.fn = fn
        self.ident = None
        self.gate = _alloc()
        self.gate.acquire()
        self.done = False
        self.waiting = None
        self.exc = None
        self.result = None
        self.prio = 0
        self.started = False
        self.steps = 0
        self.ext = False


class Aborted(BaseException):
    pass


class Scheduler(object):
    """run([f0, f1, ...]) executes the functions concurrently under control."""

    def __init__(self, rng, mode=None, opcodes=True, extra_files=(), max_steps=60000, p=None, depth=None):
        self.rng = rng
        # mode: 'rand' = switch with probability p at each point; 'pct' = priorities with d change points
        self.mode = mode or ('rand' if rng.random() < 0.5 else 'pct')
        self.opcodes = opcodes
        self.p = p if p is not None else rng.choice([0.02, 0.05, 0.1, 0.25, 0.5])
        self.depth = depth if depth is not None else rng.choice([1, 2, 2, 3, 4])
        self.max_steps = max_steps
        self.steps = 0
        self.switches = 0
        self.schedule = []
        self.deadlock = None
        self.overrun = False
        self.unsafe = None      # an event loop used from a foreign thread
        self.extra = tuple(extra_files)
        self.threads = []
        self.by_ident = {}
        self.cur = None
        self.progress = 0
        # (CPython 3.12 delivers opcode events only to tracers installed after some frame asked for them)
        sys._getframe().f_trace_opcodes = True
        self.mutex = _alloc()
        self.finished = _alloc()
        self.finished.acquire()
        self.points = set()     # distinct code points at which a switch happened
        self.horizon = rng.choice([40, 100, 250, 600, 1500])

    # ------------------------------------------------------------- tracing
    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not (core.is_sut_file(fn) or fn in self.extra):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event == 'opcode' or event == 'line':
            self.point(frame)
        return self._local

    def controls(self, ident):
        return ident in self.by_ident

    # ------------------------------------------------------------- switching
    def _runnable(self):
        return [t for t in self.threads if t.started and not t.done and not t.ext
                and (t.waiting is None or t.waiting._owner is None)]

    def point(self, frame=None):
        me = self.by_ident.get(_thread.get_ident())
        if me is None or me.done:
            return
        if self.deadlock or self.overrun:
            raise Aborted()
        me.steps += 1
        self.steps += 1
        self.progress += 1
        if self.steps > self.max_steps:
            self.overrun = True
            raise Aborted()
        if me.ext:
            # came back from an uncontrolled wait: queue up again
            me.ext = False
            self._park(me)
            return
        nxt = None
        if self.mode == 'rand':
            if self.rng.random() < self.p:
                r = self._runnable()
                nxt = self.rng.choice(r) if r else me
        else:
            if self.steps in self.changes:
                me.prio = self.low
                self.low -= 1
                r = self._runnable()
                nxt = max(r, key=lambda t: t.prio) if r else me
        if nxt is not None and nxt is not me:
            if frame is not None:
                self.points.add((frame.f_code.co_name, frame.f_lasti))
            self._switch(me, nxt)

    def _switch(self, me, nxt):
        self.switches += 1
        self.schedule.append(nxt.idx)
        self.cur = nxt
        nxt.gate.release()
        me.gate.acquire()
        if self.deadlock or self.overrun:
            if not me.done:
                raise Aborted()

    def _park(self, me):
        me.gate.acquire()
        if self.deadlock or self.overrun:
            raise Aborted()

    def _next_after_block(self, me, what):
        r = self._runnable()
        if not r:
            if any(t.ext for t in self.threads if not t.done):
                # someone is in an uncontrolled wait; hand over to nobody and wait
                self.cur = None
                return None
            alive = [t for t in self.threads if not t.done]
            if alive:
                self.deadlock = what or 'all controlled threads blocked'
                for t in self.threads:
                    if t is not me and not t.done:
                        t.gate.release()
            return None
        if self.mode == 'pct':
            return max(r, key=lambda t: t.prio)
        return self.rng.choice(r)

    # ------------------------------------------------------------- locks
    def lock_acquire(self, lock, ident, blocking, timeout):
        me = self.by_ident[ident]
        if self.deadlock or self.overrun:
            raise Aborted()
        if lock._owner == ident:
            if lock.reentrant:
                lock._count += 1
                return True
            if blocking and timeout == -1:
                raise core.DeadlockError('thread re-acquires a non-reentrant lock it already holds')
            return False
        self.point()
        while lock._owner is not None:
            if not blocking:
                return False
            if timeout != -1:
                # a timed wait may expire at any moment; model expiry when nobody else can run
                r = [t for t in self._runnable() if t is not me]
                if not r:
                    return False
            me.waiting = lock
            nxt = self._next_after_block(me, 'deadlock: thread %d waits for a lock held by another blocked thread' % me.idx)
            if nxt is None:
                if self.deadlock:
                    me.waiting = None
                    raise core.DeadlockError(self.deadlock)
                self._park(me)
            elif nxt is not me:
                self._switch(me, nxt)
            me.waiting = None
        lock._owner = ident
        lock._count = 1
        return True

    def lock_release(self, lock, ident):
        if lock.reentrant:
            lock._count -= 1
            if lock._count > 0:
                return
        if lock._owner is None:
            raise RuntimeError('release unlocked lock')
        lock._owner = None
        if not (self.deadlock or self.overrun):
            self.point()

    # ------------------------------------------------------------- run
    def _main(self, t):
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        t.started = True
        self._ready.release()
        t.gate.acquire()
        if not (self.deadlock or self.overrun):
            sys.settrace(self._trace)
            try:
                t.result = t.fn()
            except Aborted:
                pass
            except BaseException as e:
                t.exc = e
            finally:
                sys.settrace(None)
        t.done = True
        with self.mutex:
            if all(x.done for x in self.threads):
                self.finished.release()
                return
        if self.deadlock or self.overrun:
            for x in self.threads:
                if not x.done and x.gate.locked():
                    try:
                        x.gate.release()
                    except RuntimeError:
                        pass
            return
        nxt = self._next_after_block(t, 'deadlock: remaining threads blocked')
        if nxt is not None:
            self.cur = nxt
            self.schedule.append(nxt.idx)
            nxt.gate.release()

    def run(self, fns, wall=60.0):
        self.threads = [_T(i, f) for i, f in enumerate(fns)]
        n = len(self.threads)
        pr = list(range(n))
        self.rng.shuffle(pr)
        for t, p in zip(self.threads, pr):
            t.prio = p + 1
        self.low = 0
        self.changes = set(self.rng.randrange(1, self.horizon) for _ in range(self.depth))
        self._ready = _alloc()
        self._ready.acquire()
        prev = core.SCHED[0]
        # a collection could run finalizers, and their lock operations, in the middle of the scheduler
        collecting = gc.isenabled()
        gc.disable()
        core.SCHED[0] = self
        ths = []
        try:
            for t in self.threads:
                th = threading.Thread(target=self._main, args=(t,), daemon=True)
                ths.append(th)
                th.start()
                self._ready.acquire()
            first = max(self.threads, key=lambda t: t.prio) if self.mode == 'pct' else self.rng.choice(self.threads)
            self.cur = first
            self.schedule.append(first.idx)
            first.gate.release()
            end = core.real_monotonic() + wall
            last = -1
            while not self.finished.acquire(True, 1.5):
                if core.real_monotonic() > end:
                    EXT[0] += 1
                    self.deadlock = self.deadlock or 'no progress (uncontrolled wait)'
                    break
                if self.progress == last:
                    # the running thread sits in a wait we do not control: let another one run
                    c = self.cur
                    if c is not None and not c.done:
                        c.ext = True
                        EXT[0] += 1
                    r = self._runnable()
                    if r:
                        nxt = self.rng.choice(r)
                        self.cur = nxt
                        self.schedule.append(nxt.idx)
                        nxt.gate.release()
                last = self.progress
        finally:
            core.SCHED[0] = prev
            if collecting:
                gc.enable()
        for th in ths:
            th.join(5.0)
        return self

    def raise_problems(self):
        """Return a description of a scheduling problem, or None."""
        for t in self.threads:
            if isinstance(t.exc, core.DeadlockError):
                return 'deadlock', str(t.exc)
        if self.deadlock:
            return 'deadlock', self.deadlock
        if self.overrun:
            return 'livelock', 'no termination within %d steps' % self.max_steps
        if self.unsafe:
            return 'unsafe-loop-access', self.unsafe
        return None
