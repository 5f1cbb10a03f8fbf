"""Bootstrap: make the code under test importable from the working tree, with the
monitored primitives (clock, locks, datagram sockets) in place before it is imported.

Nothing here edits the code under test; every hook sits at a boundary it uses
(time.*, threading.Lock/RLock, socket.socket).
"""
import os
import sys
import threading
import time as _time
import _thread

REPO = os.path.realpath(os.environ.get('JV_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, 'out')

_REPO_PREFIX = REPO + os.sep
_SUT_PREFIXES = (os.path.join(REPO, 'jaeger_client') + os.sep,
                 os.path.join(REPO, 'crossdock') + os.sep)
_HERE = VERIF + os.sep


def is_sut_file(fn):
    return fn.startswith(_SUT_PREFIXES)


# --------------------------------------------------------------------- clock
real_time = _time.time
real_monotonic = _time.monotonic
real_sleep = _time.sleep


class Clock(object):
    """Virtual clock.  `wall` is what time.time() shows, `mono` what monotonic() shows."""

    def __init__(self, wall=1500000000.0, mono=1000.0):
        self.wall = wall
        self.mono = mono
        self.calls = 0

    def advance(self, dt):
        if dt > 0:
            self.wall += dt
            self.mono += dt


_clock = [None]


def set_clock(c):
    _clock[0] = c


def clock():
    return _clock[0]


def _vtime():
    c = _clock[0]
    if c is None:
        return real_time()
    c.calls += 1
    return c.wall


def _vmono():
    c = _clock[0]
    return real_monotonic() if c is None else c.mono


_real_perf = _time.perf_counter
_real_time_ns = _time.time_ns
_real_mono_ns = _time.monotonic_ns


def _vperf():
    c = _clock[0]
    return _real_perf() if c is None else c.mono


def _vtime_ns():
    c = _clock[0]
    if c is None:
        return _real_time_ns()
    c.calls += 1
    return int(c.wall * 1e9)


def _vmono_ns():
    c = _clock[0]
    return _real_mono_ns() if c is None else int(c.mono * 1e9)


def _vsleep(secs):
    """A sleep executed under the virtual clock advances it (recorded as blocking time)."""
    c = _clock[0]
    if c is None:
        return real_sleep(secs)
    c.slept = getattr(c, 'slept', 0.0) + secs
    c.advance(secs)


def install_clock():
    _time.time = _vtime
    _time.monotonic = _vmono
    _time.perf_counter = _vperf
    _time.time_ns = _vtime_ns
    _time.monotonic_ns = _vmono_ns
    _time.sleep = _vsleep


# --------------------------------------------------------------------- locks
class DeadlockError(BaseException):
    """A wait that cannot end (self-deadlock, or every controlled thread blocked)."""


_real_allocate = _thread.allocate_lock
SCHED = [None]      # active controlled scheduler, see jv.sched


class MonLock(object):
    """Stand-in for threading.Lock handed to the code under test.

    Under the controlled scheduler it is cooperative; otherwise a real lock, except that a blocking
    acquire by the thread that already holds it raises DeadlockError instead of
    hanging for ever.
    """
    reentrant = False
    __slots__ = ('_l', '_owner', '_count', '__weakref__')

    def __init__(self):
        self._l = _real_allocate()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s = SCHED[0]
        if s is not None and s.controls(me):
            return s.lock_acquire(self, me, blocking, timeout)
        if self._owner == me:
            if self.reentrant:
                self._count += 1
                return True
            if blocking and timeout == -1:
                raise DeadlockError('thread re-acquires a non-reentrant lock it already holds')
        ok = self._l.acquire(blocking, timeout)
        if ok:
            self._owner = me
            self._count = 1
        return ok

    def release(self):
        s = SCHED[0]
        me = _thread.get_ident()
        if s is not None and s.controls(me):
            return s.lock_release(self, me)
        if self.reentrant:
            if self._owner != me:
                raise RuntimeError('cannot release un-acquired lock')
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._l.release()

    def locked(self):
        return self._owner is not None or self._l.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def __repr__(self):
        return '<MonLock owner=%r>' % (self._owner,)


class MonRLock(MonLock):
    reentrant = True
    __slots__ = ()


_real_Lock = threading.Lock
_real_RLock = threading.RLock


def _caller_is_sut():
    f = sys._getframe(2)
    return is_sut_file(f.f_code.co_filename)


def _Lock(*a, **k):
    if _caller_is_sut():
        return MonLock()
    return _real_Lock(*a, **k)


def _RLock(*a, **k):
    if _caller_is_sut():
        return MonRLock()
    return _real_RLock(*a, **k)


def install_locks():
    threading.Lock = _Lock
    threading.RLock = _RLock


_booted = [False]


def bootstrap():
    """Install the hooks and import the code under test from the working tree."""
    if _booted[0]:
        return
    _booted[0] = True
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    for k in list(os.environ):
        if k.startswith('JAEGER_') or k in ('AGENT_HOST_PORT',) or k.lower().endswith('_proxy'):
            del os.environ[k]
    install_clock()
    install_locks()
    from . import tap
    tap.install()
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.raiseExceptions = False
    import jaeger_client
    real = os.path.realpath(jaeger_client.__file__)
    if not real.startswith(_REPO_PREFIX):
        raise RuntimeError('jaeger_client imported from %s, not %s' % (real, REPO))


def sut_frames(tb):
    """(file, line, function) of frames of the code under test in a traceback."""
    out = []
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if is_sut_file(fn):
            out.append((os.path.relpath(fn, REPO), tb.tb_lineno, tb.tb_frame.f_code.co_name))
        tb = tb.tb_next
    return out
