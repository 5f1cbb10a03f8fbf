"""C30: application code that the client calls may itself use the client."""
import importlib
import json
import logging
import sys
import threading

from checks.c27_independence import configuration
from checks.c29_unhandled import BODIES, Agent
from jv import core, tap
from jv.runner import Inconclusive, Scenario
from jv.world import J, Tap, World

ID = 'C30'
RULE = ('whole clients of random configuration in virtual time with failing sends and agents that answer well and badly; log handlers, metrics, reporters, close callbacks and values whose text is asked for use the client '
        'in the middle of the call they are called from: in the same thread, and in another thread they wait for; whether that comes back is read off the locks (who waits for whom), not off a timeout; distinct by program')
ASSUMPTIONS = ['samplers and throttlers supplied by the application only decide', 'while a span is being forced (sampling.priority), the callbacks do not change that same span',
               'callbacks that wait for other threads hold no lock of their own']


class Use(object):
    """What application code does when it is called by the client."""

    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        # a fresh copy of the module, in which nothing has been initialised yet
        self.Config = importlib.reload(sys.modules[J.Config.__module__]).Config
        self.tracers, self.spans = [], []
        self.current = None          # the span of the call under way
        self.forced = None           # the span that is being forced
        self.busy = False
        self.found = []
        self.notes = []              # (span, 'log' or 'tag', key, sampled)
        self.n = 0
        self.rate = self.rng.choice([0.1, 0.5, 1])

    def called(self, what):
        """The client calls the application."""
        if self.busy:
            return
        self.ctx.count('called_' + what)
        if self.rng.random() > self.rate:
            return
        self.busy = True
        try:
            self.use(what)
        finally:
            self.busy = False

    def use(self, what):
        rng = self.rng
        ops = [self.operation() for _ in range(rng.choice([1, 1, 2]))]
        me = threading.get_ident()
        cur = ['']

        def run():
            for name, f in ops:
                cur[0] = name
                try:
                    f()
                except core.DeadlockError:
                    self.found.append(('deadlock', '%s in a %s never comes back: the client holds a lock that it needs' % (name, what), stack()))
                    return
                except Exception as e:
                    self.found.append(('raises', '%s in a %s raises %r' % (name, what, e), stack()))
                    return
        if rng.random() < 0.5:
            self.ctx.count('same_thread')
            run()
            return
        self.ctx.count('other_thread')
        t = threading.Thread(target=run, daemon=True)
        t.start()
        end = core.real_monotonic() + 30
        while True:
            t.join(0.01)
            if not t.is_alive():
                return
            f = sys._current_frames().get(t.ident)
            while f is not None and f.f_code is not core.MonLock.acquire.__code__:
                f = f.f_back
            lock = f.f_locals.get('self') if f is not None else None
            if lock is not None and lock._owner == me:
                # we wait for it, it waits for us
                self.found.append(('deadlock', '%s in another thread, that a %s waits for, never comes back: the client holds a lock that it needs' % (cur[0], what), stack()))
                return
            if core.real_monotonic() > end:
                raise Inconclusive('a helper thread does not end')

    def operation(self):
        rng = self.rng
        k = rng.randrange(14)
        tr = rng.choice(self.tracers) if self.tracers else None
        spans = [s for s in self.spans if s is not self.forced]
        s = self.current if self.current is not None and self.current is not self.forced and rng.random() < 0.7 else rng.choice(spans) if spans else None
        if tr is None or k == 0:
            return 'Config.initialized', self.Config.initialized
        if k == 1:
            return 'start_span', lambda: tr.start_span('inner').finish()
        if k == 2:
            return 'start_span with a debug id', lambda: tr.start_span('a', child_of=J.SpanContext(None, None, None, None, None, 'dbg')).finish()
        if k == 3:
            return 'start_span with priority', lambda: tr.start_span('b', tags={'sampling.priority': 1}).finish()
        if k == 4:
            return 'extract', lambda: tr.extract('text_map', {})
        if k == 5 and rng.random() < 0.1:
            return 'close', tr.close
        if s is None:
            return 'Config.initialized', self.Config.initialized
        self.n += 1
        key = 'n%d' % self.n
        if k <= 7:
            def log():
                sampled = s.is_sampled()
                s.log_kv({key: 1})
                self.notes.append((s, 'log', key, sampled))
            return 'log_kv', log
        if k == 8:
            def tag():
                sampled = s.is_sampled()
                s.set_tag(key, 1)
                self.notes.append((s, 'tag', key, sampled))
            return 'set_tag', tag
        if k == 9:
            return 'set_baggage_item', lambda: s.set_baggage_item('k', 'v')
        if k == 10:
            return 'inject', lambda: tr.inject(s.context, 'text_map', {})
        if k == 11:
            return 'set_operation_name', lambda: s.set_operation_name('b')
        if k == 12:
            return 'finish', s.finish
        return 'repr', lambda: (repr(s), s.is_sampled(), s.is_rpc(), s.get_baggage_item('k'))


def stack():
    out, f = [], sys._getframe(1)
    while f is not None and len(out) < 40:
        if core.is_sut_file(f.f_code.co_filename):
            out.append('%s:%d %s' % (f.f_code.co_filename[len(core.REPO) + 1:], f.f_lineno, f.f_code.co_name))
        f = f.f_back
    return out


class Text(object):
    def __init__(self, use):
        self.use = use

    def __str__(self):
        self.use.called('conversion of a value')
        return 'text'


class Handler(logging.Handler):
    def __init__(self, use):
        logging.Handler.__init__(self, 0)
        self.use = use

    def createLock(self):
        self.lock = None

    def emit(self, r):
        self.use.called('log handler')


def factory(use):
    class F(J.MetricsFactory):
        def create_counter(self, name, tags=None):
            return lambda v: use.called('metric')
        create_timer = create_gauge = create_counter
    return F()


class Annotating(object):
    """A reporter of the application."""

    def __init__(self, use):
        self.use = use

    def set_process(self, *a, **k):
        self.use.called('reporter')

    def report_span(self, span):
        self.use.called('reporter')

    def close(self):
        self.use.called('reporter')
        return J.NullReporter().close()


def callbacks(ctx):
    rng = ctx.rng
    use = Use(ctx)
    kinds = tap.fault_exceptions()
    refuse = rng.choice([0, 0.3, 1])
    cfg = configuration(rng, 0)
    cfg['logging'] = rng.random() < 0.8
    if rng.random() < 0.6:
        cfg.pop('sampler', None)
        cfg['throttler'] = {'port': 7200, 'refresh_interval': 1}
    ctx.notes.update(configuration=cfg)

    def respond(path, q):
        r = rng.random()
        if r < 0.1:
            return None
        if r < 0.25:
            return rng.choice(kinds)()
        body = rng.choice(BODIES) if r < 0.5 else json.dumps(
            rng.choice([{'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': rng.choice([0.5, 1])}}, {'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': {'maxTracesPerSecond': rng.choice([1, 5])}},
                        {'operationSampling': {'defaultSamplingProbability': 1, 'defaultLowerBoundTracesPerSecond': 1, 'perOperationStrategies': [{'operation': 'a', 'probabilisticSampling': {'samplingRate': 1}}]}}])
            if path == '/sampling' else {'balances': [{'operation': o, 'balance': 1} for o in 'abc']}).encode()
        return (rng.choice([0, 1.5]), body) if rng.random() < 0.5 else body

    def fault(data, dest):
        return rng.choice(kinds)() if rng.random() < refuse else None
    import opentracing
    before = opentracing.tracer, opentracing.is_global_tracer_registered()
    lg = logging.getLogger('jaeger_tracing')
    handler = Handler(use)
    old = logging.root.manager.disable, lg.level
    logging.disable(logging.NOTSET)
    lg.addHandler(handler)
    lg.setLevel(1)
    mine = []
    steps = 0
    try:
        with World() as world, Tap(fault=fault), Agent(world, respond):
            conf = use.Config(cfg, service_name='svc', validate=False, metrics_factory=factory(use))
            conf.error_reporter.log_interval_minutes = 0
            tr = conf.new_tracer(io_loop=world.io_loop)
            if rng.random() < 0.5:
                tr.reporter = J.CompositeReporter(*rng.sample([tr.reporter, Annotating(use)], 2))
            use.tracers.append(tr)
            if rng.random() < 0.3:
                first = use.Config(dict(cfg), service_name='first', validate=False, metrics_factory=factory(use)).initialize_tracer(io_loop=world.io_loop)
                use.tracers.append(first)
                if rng.random() < 0.7:
                    conf.initialize_tracer(io_loop=world.io_loop)
            closed = False
            for _ in range(rng.randint(4, 25)):
                steps += 1
                k = rng.randrange(12)
                s = rng.choice(use.spans) if use.spans else None
                use.current = s
                key = 'm%d' % steps
                if k <= 2 or s is None:
                    use.current = None
                    s = tr.start_span(rng.choice('abc'), child_of=rng.choice([None, None, s, J.SpanContext(None, None, None, None, None, 'dbg')]),
                                      tags={'v': Text(use)} if rng.random() < 0.5 else None)
                    use.spans.append(s)
                elif k == 3:
                    mine.append((s, 'tag', key, s.is_sampled()))
                    s.set_tag(key, Text(use))
                elif k == 4:
                    mine.append((s, 'log', key, s.is_sampled()))
                    s.log_kv({key: Text(use)})
                elif k == 5:
                    use.forced = s
                    try:
                        s.set_tag('sampling.priority', 1)
                    finally:
                        use.forced = None
                elif k == 6:
                    s.set_baggage_item('b', rng.choice(['x', None]))
                elif k <= 8:
                    s.finish()
                    if rng.random() < 0.5:
                        s.finish()
                elif k == 9 and rng.random() < 0.3:
                    f = tr.close()
                    f.add_done_callback(lambda f: use.called('close callback'))
                    closed = True
                elif k == 10:
                    s.error('x', payload=Text(use))
                use.current = None
                world.run_for(rng.choice([0, 0, 0.06, 0.8, 3]))
            for s in use.spans:
                use.current = s
                s.finish()
            use.current = None
            f = tr.close()
            f.add_done_callback(lambda f: use.called('close callback'))
            world.run_for(15)
            ctx.check(use.found or f.done(), 'close', 'the close never completes')
            del closed
    except core.DeadlockError:
        # what follows from the deadlock that was found
        if not use.found:
            raise
    finally:
        lg.removeHandler(handler)
        lg.setLevel(old[1])
        logging.disable(old[0])
        opentracing.tracer = before[0]
        opentracing.is_tracer_registered = before[1]
    for kind, msg, where in use.found[:1]:
        ctx.fail(kind, msg, called_from=where, all=[m for _, m, _ in use.found[:6]])
    for s, what, key, sampled in mine + use.notes:
        if not sampled:
            continue
        n = sum(1 for t in s.tags if t.key == key) if what == 'tag' else sum(1 for l in s.logs for t in l.fields if t.key == key)
        ctx.check(n == 1, 'annotation', 'a %s made %s is on the span %d times' % (what, 'in a callback' if key[0] == 'n' else 'with a value that uses the client', n))
        ctx.count('inner' if key[0] == 'n' else 'outer')
    ctx.event(steps)
    ctx.key(json.dumps(cfg, sort_keys=True), steps)
    ctx.sample({'steps': steps, 'spans': len(use.spans), 'uses': use.n})


SCENARIOS = [
    Scenario('callbacks', callbacks, 700, 20000, need=('events', 'called_log handler', 'called_metric', 'called_conversion of a value', 'called_reporter', 'called_close callback', 'same_thread', 'other_thread', 'inner', 'outer')),
]
