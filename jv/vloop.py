"""A Tornado IOLoop in virtual time: deterministic, advances the clock only when idle."""
import asyncio
import collections
import selectors
import sys
import threading

from . import core


class Stalled(Exception):
    """The loop did not become quiescent within the turn budget."""


class _VSelector(object):
    """Selector that never waits: idle time is turned into virtual time."""

    def __init__(self):
        self._sel = selectors.DefaultSelector()
        self.loop = None

    def select(self, timeout=None):
        ev = self._sel.select(0)
        if ev:
            return ev
        if timeout is None:
            # nothing scheduled at all
            self.loop._idle_forever()
            return []
        if timeout > 0:
            self.loop._idle_until(timeout)
        return []

    def __getattr__(self, name):
        return getattr(self._sel, name)


class VAsyncLoop(asyncio.SelectorEventLoop):
    def __init__(self, clk):
        self._jv_clock = clk
        sel = _VSelector()
        sel.loop = self
        self._jv_turns = 0
        self._jv_limit = None      # virtual mono deadline of the current run
        self._jv_stop_idle = False
        self._jv_perm = None
        self._jv_budget = 200000
        super(VAsyncLoop, self).__init__(sel)
        self._clock_resolution = 1e-6      # more than the rounding of a large clock value

    def time(self):
        return self._jv_clock.mono

    def _run_once(self):
        self._jv_turns += 1
        if core.SCHED[0] is not None:
            self._jv_owner = (core.SCHED[0], threading.get_ident())
        self._jv_budget -= 1
        if self._jv_budget < 0:
            self.stop()
            self._jv_stalled = True
            self._jv_budget = 10
        if self._jv_perm is not None and len(self._ready) > 1:
            self._jv_perm(self._ready)
        super(VAsyncLoop, self)._run_once()

    _jv_stalled = False
    _jv_owner = None

    def _jv_check_owner(self):
        """A callback put on the loop of another thread without waking it may wait for ever."""
        o = self._jv_owner
        if o is None or o[0] is not core.SCHED[0] or o[1] == threading.get_ident() or threading.get_ident() not in o[0].by_ident:
            return
        f = sys._getframe(2)
        while f is not None and not core.is_sut_file(f.f_code.co_filename):
            f = f.f_back
        if f is not None:
            o[0].unsafe = o[0].unsafe or '%s, called by another thread than that of the event loop, puts a callback on the loop without waking it' % f.f_code.co_name

    def call_soon(self, *a, **k):
        self._jv_check_owner()
        return super(VAsyncLoop, self).call_soon(*a, **k)

    def call_at(self, *a, **k):
        self._jv_check_owner()
        return super(VAsyncLoop, self).call_at(*a, **k)

    def _idle_until(self, timeout):
        clk = self._jv_clock
        if self._jv_stop_idle:
            self.stop()
            return
        target = clk.mono + timeout
        if self._jv_limit is not None and target > self._jv_limit:
            clk.advance(self._jv_limit - clk.mono)
            self.stop()
            return
        clk.advance(timeout)
        # guard against rounding: make sure the earliest timer is really due
        if self._scheduled and self._scheduled[0]._when > clk.mono:
            clk.advance(self._scheduled[0]._when - clk.mono)

    def _idle_forever(self):
        if self._jv_limit is not None and not self._jv_stop_idle:
            self._jv_clock.advance(self._jv_limit - self._jv_clock.mono)
        self.stop()


class World(object):
    """Owns a virtual clock + virtual IOLoop for one case."""

    def __init__(self, wall=1500000000.0, mono=5000.0, perm=None):
        import tornado.ioloop
        self.clock = core.Clock(wall, mono)
        core.set_clock(self.clock)
        self.aloop = VAsyncLoop(self.clock)
        self.errors = []
        self.aloop.set_exception_handler(self._on_error)
        self.aloop._jv_perm = perm
        asyncio.set_event_loop(self.aloop)
        self.io_loop = tornado.ioloop.IOLoop(make_current=False, asyncio_loop=self.aloop)

    def _on_error(self, loop, ctx):
        self.errors.append(ctx)

    # ------------------------------------------------------------ running
    def run_for(self, dt, budget=200000):
        """Run the loop for dt seconds of virtual time."""
        lp = self.aloop
        lp._jv_limit = self.clock.mono + dt
        lp._jv_stop_idle = False
        lp._jv_budget = budget
        lp._jv_stalled = False
        lp.run_forever()
        if lp._jv_stalled:
            raise Stalled('event loop not quiescent after %d turns' % budget)

    def settle(self, budget=20000):
        """Run until nothing is ready, without letting time pass."""
        lp = self.aloop
        lp._jv_stop_idle = True
        lp._jv_limit = None
        lp._jv_budget = budget
        lp._jv_stalled = False
        lp.run_forever()
        if lp._jv_stalled:
            raise Stalled('event loop not quiescent after %d turns' % budget)

    def turn(self, n=1):
        """Run n single loop iterations."""
        lp = self.aloop
        for _ in range(n):
            lp.call_soon(lambda: None)
            lp._jv_limit = None
            lp._jv_stop_idle = True
            lp._jv_budget = 100
            lp.stop()
            lp.run_forever()

    def in_loop(self, fn):
        """Run fn inside a callback of the running loop; returns its result (exceptions propagate)."""
        box = []

        def cb():
            try:
                box.append((True, fn()))
            except BaseException as e:
                box.append((False, e))
        self.aloop.call_soon(cb)
        self.turn(1)
        while not box:
            self.turn(1)
        ok, v = box[0]
        if not ok:
            raise v
        return v

    def close(self):
        try:
            lp = self.aloop
            for t in asyncio.all_tasks(lp):
                t._log_destroy_pending = False
                t.cancel()
            lp._scheduled.clear()
            lp._ready.clear()
            self.io_loop.close(all_fds=False)
        except Exception:
            pass
        finally:
            asyncio.set_event_loop(None)
            core.set_clock(None)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
