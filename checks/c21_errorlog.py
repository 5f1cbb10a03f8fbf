"""C21: error logging is rate-limited and never breaks the caller."""
import logging
import random

from jv import core, sched
from jv.runner import Scenario
from jv.world import J, Resp, Tap, World, virtual_sender

ID = 'C21'
RULE = ('random sequences of error times (floods, instants just before, at and after every deadline, long silences, the wall clock set forward and back) for random intervals in virtual time, compared with '
        'a reference model; concurrent errors under the controlled scheduler; errors provoked through sampler and throttler; distinct by sequence')
ASSUMPTIONS = ['an error exactly at the deadline may or may not be logged', 'threads that report at the same moment may each log once']


class Log(object):
    """Logger stand-in (only what a reporter may call)."""

    def __init__(self):
        self.calls = []
        self.lock = core._real_allocate()

    def error(self, *args, **kw):
        with self.lock:
            self.calls.append((args, kw))

    def __getattr__(self, name):
        def other(*a, **k):
            with self.lock:
                self.calls.append((('wrong level', name) + a, k))
        return other


def args_of(rng):
    return rng.choice([('plain',), ('with %s', 'arg'), ('two %s %d', 'a', 7), ('%', 'not a format'), ('%s %s', 'too few'), ('no args', 1), (ValueError('x'),), ('é %r', b'\xff'), ('', None)])


def sequence(ctx):
    rng = ctx.rng
    clk = core.Clock(wall=rng.choice([1.5e9, 1.7e9 + rng.random(), 1e9]))
    core.set_clock(clk)
    log = Log()
    minutes = rng.choice([0, 1, 15, 15, 60, 0.5])
    er = J.ErrorReporter(J.Metrics(), log) if minutes == 15 and rng.random() < 0.5 else J.ErrorReporter(metrics=J.Metrics(), logger=log, log_interval_minutes=minutes)
    iv = minutes * 60.0
    last = clk.mono
    jumps = rng.random() < 0.3     # the wall clock is set to another time now and then
    times = []
    logged = 0
    for _ in range(rng.randint(5, 60)):
        left = last + iv - clk.mono
        step = rng.choice([0, 0.001, 1, iv / 3, iv / 2, left - 0.01, left - 0.001, left + 0.001, left + 0.01, left + 1, iv, 3 * iv, 0])
        clk.advance(max(0, step))
        if jumps and rng.random() < 0.2:
            clk.wall += rng.choice([-1, 1]) * rng.choice([1, 600, 3600, 1e8])
            ctx.count('clock_set')
        a = args_of(rng)
        n = len(log.calls)
        r = er.error(*a)
        ctx.check(r is None, 'result', 'error() returned %r' % (r,))
        new = log.calls[n:]
        d = clk.mono - last - iv
        w = dict(interval=iv, times=times[-20:], now=clk.mono)
        times.append((round(clk.mono, 4), len(new)))
        ctx.check(len(new) <= 1, 'logged-twice', 'one error was logged %d times' % len(new), **w)
        if new:
            ctx.check(d > -1e-5, 'too-often', 'logged %.4f s before the interval of %s s was over' % (-d, iv), **w)
            ctx.check(new[0] == (a, {}), 'arguments', 'error%r was logged as %r' % (a, new[0]), **w)
            last = clk.mono
            logged += 1
        else:
            ctx.check(d < 1e-5, 'not-logged', 'an error %.4f s after the interval of %s s was not logged' % (d, iv), **w)
        ctx.event()
    ctx.count('logged', logged)
    ctx.key(minutes, tuple(times))
    ctx.sample({'interval_min': minutes, 'errors': len(times), 'logged': logged})


def silent(ctx):
    """Without a logger nothing is logged anywhere."""
    rng = ctx.rng
    clk = core.Clock()
    core.set_clock(clk)
    seen = []
    h = logging.Handler()
    h.emit = seen.append
    old = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    lg = logging.getLogger('jaeger_tracing')
    p = lg.propagate
    logging.root.addHandler(h)
    lg.addHandler(h)
    lg.propagate = False
    try:
        er = J.ErrorReporter(J.Metrics())
        for _ in range(rng.randint(1, 20)):
            clk.advance(rng.choice([0, 1000, 10000]))
            er.error(*args_of(rng))
            ctx.event()
    finally:
        lg.propagate = p
        lg.removeHandler(h)
        logging.root.removeHandler(h)
        logging.disable(old)
    ctx.check(not seen, 'logged-without-logger', '%d lines were logged without a logger' % len(seen))
    ctx.key(rng.random())
    ctx.sample({'lines': len(seen)})


def through_client(ctx):
    """One kind of failure again and again, in the sampler, the throttler or the reporter: one line an interval, for hours."""
    rng = ctx.rng
    with World() as world, Tap() as tap:
        log = Log()
        minutes = rng.choice([1, 15])
        er = J.ErrorReporter(J.Metrics(), log, minutes)

        who = rng.choice(['sampler', 'throttler', 'reporter'])
        iv = rng.choice([5, 20])
        fault = rng.choice({'sampler': [OSError('refused'), TimeoutError(), b'{', b'', b'\xff', b'{"strategyType": "x"}',
                                        b'{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 7}}'],
                            'throttler': [OSError('refused'), TimeoutError(), b'{', b'', b'\xff', b'{"balances": 7}'],
                            'reporter': [OSError(111, 'refused'), ValueError('odd'), KeyError('x'), TypeError('y')]}[who])
        raised = isinstance(fault, Exception) and rng.random() < 0.5
        requests = [0]

        def respond(kind, a, k):
            requests[0] += 1
            if raised:
                raise fault
            return None, fault
        ctx.notes.update(component=who, fault=repr(fault), raised=raised, interval_min=minutes)
        sender = virtual_sender(world, respond)
        if who == 'sampler':
            J.RemoteControlledSampler(sender, 'svc', error_reporter=er, sampling_refresh_interval=iv)
        elif who == 'throttler':
            t = J.RemoteThrottler(sender, 'svc', error_reporter=er, refresh_interval=iv)
            t.is_allowed('x')
        else:
            def failing(data, dest):
                requests[0] += 1
                return fault
            tap.fault = failing
            tracer = J.Tracer('svc', J.Reporter(channel=sender, batch_size=1, error_reporter=er), J.ConstSampler(True))

            def emit():
                tracer.start_span('x', ignore_active_span=True).finish()
                world.aloop.call_later(iv, emit)
            world.aloop.call_soon(emit)
        hours = 3
        at = []
        for _ in range(hours * 60):
            n = len(log.calls)
            world.run_for(60)
            at += [world.clock.wall] * (len(log.calls) - n)
        errors = requests[0]
        span = hours * 3600
        ctx.check(len(log.calls) <= span / (minutes * 60.0) + 1, 'too-often', '%d lines in %d s, interval %d min' % (len(log.calls), span, minutes))
        ctx.check(len(log.calls) >= span / (minutes * 60.0 + 2 * iv) - 2, 'not-logged', '%d lines in %d s with %d errors, interval %d min' % (len(log.calls), span, errors, minutes))
        ctx.check(all(a[0][0] != 'wrong level' for a in log.calls), 'arguments', 'logged %r' % (log.calls[:2],))
        for a, k in log.calls[:20]:
            a[0] % a[1:]
        ctx.event(errors)
        ctx.count(who)
        ctx.key(minutes, iv, tuple(round(x) for x in at[:20]), rng.random())
        ctx.sample({'interval_min': minutes, 'errors': errors, 'lines': len(log.calls)})


def race(ctx):
    """Threads report errors together: nothing is raised, and the moment logs at least once and at most once per thread."""
    rng = ctx.rng
    clk = core.Clock()
    core.set_clock(clk)
    log = Log()
    er = J.ErrorReporter(J.Metrics(), log)
    n = rng.choice([2, 3])
    clk.advance(rng.choice([10, 901, 5000]))
    due = clk.wall - core.Clock().wall > 900

    def f():
        er.error('x %s', 1)
        er.error('x %s', 1)
    sc = sched.Scheduler(rng)
    sc.run([f] * n)
    p = sc.raise_problems()
    if p:
        ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
    for t in sc.threads:
        if t.exc is not None:
            raise t.exc
    ctx.check((1 <= len(log.calls) <= n) if due else not log.calls, 'too-often' if log.calls else 'not-logged', '%d lines by %d threads, due: %s' % (len(log.calls), n, due),
              schedule=sc.schedule[:300])
    k = len(log.calls)
    er.error('again')
    ctx.check(len(log.calls) == k, 'too-often', 'logged again at the same instant')
    clk.advance(901)
    er.error('later')
    ctx.check(len(log.calls) == k + 1, 'not-logged', 'an error after a whole interval was not logged')
    ctx.event(2 * n)
    ctx.count('switches', sc.switches)
    ctx.key(tuple(sc.schedule), due)
    ctx.sample({'threads': n, 'due': due, 'lines': k})


def configured(ctx):
    """A client built through Config: with logging on, failures of every component reach the client's log, one line per 15 minutes; with logging off, none does."""
    rng = ctx.rng
    from checks.c20_config import Http
    lines = []
    h = logging.Handler()
    h.emit = lambda r: lines.append((r.levelno, r.getMessage())) if r.levelno >= logging.ERROR else None
    lg = logging.getLogger('jaeger_tracing')
    old = logging.root.manager.disable, lg.level, lg.propagate
    logging.disable(logging.NOTSET)
    lg.addHandler(h)
    lg.setLevel(logging.INFO)
    lg.propagate = False
    try:
        who = rng.choice(['sampler', 'throttler', 'reporter'])
        on = rng.random() < 0.7
        fault = rng.choice({'sampler': [OSError('refused'), TimeoutError(), b'{', b'', b'{"strategyType": "x"}'], 'throttler': [OSError('refused'), TimeoutError(), b'{', b'{"balances": 7}'],
                            'reporter': [OSError(111, 'refused'), ValueError('odd')]}[who])
        raised = isinstance(fault, Exception) and rng.random() < 0.5
        failures = [0]
        with World() as world:
            def respond(path, q):
                if who != {'/sampling': 'sampler', '/credits': 'throttler'}[path]:
                    return b'{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 1}}' if path == '/sampling' else b'{"balances": []}'
                failures[0] += 1
                if raised:
                    raise fault
                return fault

            def failing(data, dest):
                if who == 'reporter':
                    failures[0] += 1
                    return fault
            with Tap(fault=failing), Http(world, respond):
                c = {'logging': rng.choice([True, 'true', 1]) if on else rng.choice([False, 'false', None]), 'throttler': {'port': 5779, 'refresh_interval': 20}, 'sampling_refresh_interval': 30,
                     'local_agent': {'reporting_host': '127.0.0.1'}, 'reporter_batch_size': 1}
                if c['logging'] is None:
                    del c['logging']
                if rng.random() < 0.5 and who != 'sampler':
                    c['sampler'] = {'type': 'const', 'param': 1}
                ctx.notes.update(component=who, fault=repr(fault), raised=raised, logging=c.get('logging'))
                tr = J.Config(c, service_name='svc', metrics=J.Metrics()).new_tracer(io_loop=world.io_loop)
                tr.start_span('x').set_tag('sampling.priority', 1)

                def emit():
                    tr.start_span('x', ignore_active_span=True).finish()
                    world.aloop.call_later(25, emit)
                world.aloop.call_soon(emit)
                world.run_for(3 * 3600 + 60)
                tr.close()
                world.run_for(10)
    finally:
        lg.removeHandler(h)
        logging.disable(old[0])
        lg.setLevel(old[1])
        lg.propagate = old[2]
    w = dict(lines=lines[:5], failures=failures[0])
    ctx.check(failures[0] > 300, 'no-failures', 'the component did not go on')
    if on:
        ctx.check(len(lines) <= 13, 'too-often', '%d lines in three hours' % len(lines), **w)
        ctx.check(len(lines) >= 10, 'not-logged', '%d lines in three hours' % len(lines), **w)
        ctx.count(who)
    else:
        ctx.check(not lines, 'logged-without-logger', 'logging is off and %d lines were logged' % len(lines), **w)
        ctx.count('off')
    ctx.event(failures[0])
    ctx.key(who, repr(fault), raised, on, len(lines), rng.random())
    ctx.sample({'component': who, 'logging': on, 'failures': failures[0], 'lines': len(lines)})


SCENARIOS = [
    Scenario('sequence', sequence, 1500, 40000, need=('events', 'logged', 'clock_set')),
    Scenario('silent', silent, 60, 500),
    Scenario('through_client', through_client, 30, 800, need=('events', 'sampler', 'throttler', 'reporter')),
    Scenario('configured', configured, 25, 500, need=('events', 'sampler', 'throttler', 'reporter', 'off')),
    Scenario('race', race, 200, 8000, need=('events', 'switches')),
]
del random, Resp
