"""C29: no failure goes unhandled, and everything logged can be read."""
import asyncio
import gc
import json
import logging
import os
import random
import sys
import threading
import traceback
import types
import warnings

from checks import c28_process
from checks.c20_config import Http
from checks.c27_independence import Client, configuration
from jv import core, gen, tap
from jv.runner import Inconclusive, Scenario
from jv.world import J, Resp, Tap, World

ID = 'C29'
RULE = ('whole clients of random configuration in virtual time, one or two on a loop, doing random work with hostile values and misuse while sends fail in every way, agents answer well, badly, late, never or raise, '
        'and clients are closed at any moment; every place where an unhandled failure would surface is watched: the exception handler of the loop, the logs of asyncio and tornado, '
        'the hooks of threads and finalizers, warnings of coroutines never awaited, futures with exceptions nobody looked at, and every log record of the client, at every level, is formatted; distinct by program')
ASSUMPTIONS = ['loggers and metrics supplied by the user do not raise']

BODIES = [b'', b'{', b'null', b'[]', b'7', b'"x"', b'\xff\xfe', b'{"strategyType": null}', b'{"strategyType": "PROBABILISTIC"}', b'{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": "x"}}',
          b'{"strategyType": "RATE_LIMITING", "rateLimitingSampling": {"maxTracesPerSecond": -1}}', b'{"strategyType": "RATE_LIMITING", "rateLimitingSampling": 5}', b'{"operationSampling": 5}',
          b'{"operationSampling": {"perOperationStrategies": [{}]}}', b'{"operationSampling": {"defaultSamplingProbability": 0.5, "defaultLowerBoundTracesPerSecond": 1, "perOperationStrategies": [{"operation": "a"}]}}',
          b'{"balances": 5}', b'{"balances": [{}]}', b'{"balances": [{"operation": "a", "balance": "x"}]}', b'{"balances": [{"operation": "a", "balance": NaN}]}', b'{"balances": null}', b'%s %d %(x)s',
          b'{"strategyType": "%s %d"}', 'ä "'.encode(), b'[' * 5000]


class Hook(logging.Handler):
    """Sees every record at every level; formats those of the client."""

    def __init__(self, found):
        logging.Handler.__init__(self, 0)
        self.found, self.n = found, 0

    def emit(self, r):
        self.n += 1
        try:
            m = r.getMessage()
            if r.exc_info:
                m += '\n' + ''.join(traceback.format_exception(*r.exc_info))[-600:]
        except Exception as e:
            m = repr(r.msg)
            if r.name.split('.')[0] not in ('asyncio', 'tornado'):
                self.found.append(('log-format', 'a record of %s cannot be formatted: %r with %s arguments: %r' % (r.name, r.msg, len(r.args or ()), e)))
        if r.name.split('.')[0] in ('asyncio', 'tornado') and r.levelno >= logging.WARNING and not m.startswith('Executing '):
            self.found.append(('unhandled', '%s logs %s' % (r.name, m[-700:])))


class Watch(object):
    """Every place where a failure that nobody handled surfaces."""

    def __init__(self, world):
        self.world, self.found = world, []

    def __enter__(self):
        self.hook = Hook(self.found)
        self.root, self.lg = logging.getLogger(), logging.getLogger('jaeger_tracing')
        self.others = [logging.getLogger('asyncio'), logging.getLogger('tornado')]
        self.old = logging.root.manager.disable, self.root.level, self.lg.level, self.lg.propagate
        logging.disable(logging.NOTSET)
        self.root.addHandler(self.hook)
        self.root.setLevel(0)
        self.lg.setLevel(1)
        self.lg.propagate = True
        self.unraisable, self.excepthook = sys.unraisablehook, threading.excepthook
        sys.unraisablehook = lambda u: self.found.append(('unhandled', 'in a finalizer or callback: %r in %r' % (u.exc_value, u.object)))
        threading.excepthook = lambda a: self.found.append(('unhandled', 'in a thread: %r' % (a.exc_value,)))
        self.caught = warnings.catch_warnings(record=True)
        self.warned = self.caught.__enter__()
        warnings.simplefilter('always', RuntimeWarning)
        return self

    def done(self):
        gc.collect()
        for w in self.warned:
            if issubclass(w.category, RuntimeWarning):
                self.found.append(('unhandled', 'warning: %s' % w.message))
        for c in self.world.errors:
            self.found.append(('unhandled', 'the event loop reports %s: %r' % (c.get('message'), c.get('exception'))))

    def __exit__(self, *a):
        self.caught.__exit__(*a)
        sys.unraisablehook, threading.excepthook = self.unraisable, self.excepthook
        self.root.removeHandler(self.hook)
        logging.disable(self.old[0])
        self.root.setLevel(self.old[1])
        self.lg.setLevel(self.old[2])
        self.lg.propagate = self.old[3]


class Agent(Http):
    """Answers late, too: respond may return (delay, body)."""

    def __enter__(self):
        Http.__enter__(self)
        inner = self.h.AsyncHTTPClient.fetch
        me = self
        answer = self.respond
        late = {}

        def respond(path, q):
            r = answer(path, q)
            if isinstance(r, tuple):
                late['x'] = r
                return None
            return r
        self.respond = respond

        def fetch(client, request, *a, **k):
            late.clear()
            fut = inner(client, request, *a, **k)
            if late:
                delay, body = late['x']

                def go():
                    if isinstance(body, Exception):
                        fut.set_exception(body)
                    else:
                        fut.set_result(Resp(body))
                me.world.io_loop.call_later(delay, go)
            return fut
        self.h.AsyncHTTPClient.fetch = fetch
        return self


NAMES = ['a', 'b', '%s', '%d %(x)s', 'é\u20ac', '', 'x' * 300, '{0}', 'a\nb']
MISUSE = [
    lambda tr, s, r: s.set_tag('sampling.priority', r.choice(['x', None, '', [], 'nan', object()])),
    lambda tr, s, r: s.set_tag(r.choice(NAMES), gen.tag_value(r)),
    lambda tr, s, r: s.set_tag(r.choice(['k', None, 5, b'x']), r.choice([Bad(), b'\xff', float('nan'), 1 << 80, '\ud800', None, {'a': Bad()}])),
    lambda tr, s, r: s.log_kv({r.choice(NAMES): r.choice([Bad(), 'x', 5, None, '\ud800'])}, timestamp=r.choice([None, 5, 1e12])),
    lambda tr, s, r: s.set_operation_name(r.choice(NAMES)),
    lambda tr, s, r: s.set_baggage_item(r.choice(NAMES), r.choice(['v', None, '%s'])),
    lambda tr, s, r: s.log_event(r.choice(NAMES), payload=r.choice([None, 'p', Bad()])),
    lambda tr, s, r: s.info(r.choice(NAMES), payload=r.choice([None, {'a': 1}])),
    lambda tr, s, r: s.error(r.choice(NAMES)),
    lambda tr, s, r: tr.extract(r.choice(['text_map', 'http_headers']), {'uber-trace-id': r.choice(['%s', '1:2:3:1', 'x:y', '1:2:3', '', '%d:%d:%d:%d']), 'jaeger-baggage': r.choice(['%s', 'a=b', '=,=']), 'uberctx-%s': '%zz'}),
    lambda tr, s, r: tr.extract('binary', bytearray(r.getrandbits(8) for _ in range(r.choice([0, 3, 37, 60])))),
    lambda tr, s, r: tr.extract('nonsense', {}),
    lambda tr, s, r: tr.inject(s.context, r.choice(['text_map', 'http_headers', 'nonsense']), r.choice([{}, None, []])),
    lambda tr, s, r: (s.finish(), s.finish()),
    lambda tr, s, r: (repr(s), repr(s.context), str(s)),
]


class Bad(object):
    def __str__(self):
        raise ValueError('no text for this one')
    __repr__ = __str__


def misuse(f, tr, span, rng):
    """What the caller sees is judged elsewhere (C05); here only that it sees it, and nobody else."""
    try:
        f(tr, span, rng)
    except (J.InvalidCarrierException, J.SpanContextCorruptedException, J.UnsupportedFormatException):
        pass
    except ValueError as e:
        if 'no text for this one' not in str(e):
            raise


def work(ctx):
    rng = ctx.rng
    kinds = tap.fault_exceptions()
    refuse = rng.choice([0, 0.2, 1])
    good = rng.random() < 0.3
    n = rng.choice([1, 1, 2])
    cfgs = [configuration(rng, i) for i in range(n)]
    for c in cfgs:
        c['logging'] = rng.random() < 0.6
    ctx.notes.update(configurations=cfgs)
    answers = {'well': 0, 'badly': 0, 'late': 0, 'never': 0, 'raising': 0, 'failing': 0}

    def respond(path, q):
        k = rng.choice(['well', 'badly', 'badly', 'late', 'never', 'raising', 'failing']) if not good else 'well'
        answers[k] += 1
        if k == 'raising':
            raise rng.choice(kinds)()
        if k == 'failing':
            return rng.choice(kinds)()
        if k == 'never':
            return None
        body = rng.choice(BODIES) if k != 'well' and (k == 'badly' or rng.random() < 0.7) else json.dumps(
            {'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': rng.random()}} if path == '/sampling' and rng.random() < 0.5 else
            {'operationSampling': {'defaultSamplingProbability': 1, 'defaultLowerBoundTracesPerSecond': 1, 'perOperationStrategies': [{'operation': 'a', 'probabilisticSampling': {'samplingRate': 1}}]}}
            if path == '/sampling' else {'balances': [{'operation': o, 'balance': 1} for o in 'abc']}).encode()
        if k == 'late':
            return rng.choice([0.1, 2, 9]), (rng.choice(kinds)() if rng.random() < 0.3 else body)
        return body
    def fault(data, dest):
        return rng.choice(kinds)() if rng.random() < refuse else None
    draws = types.SimpleNamespace(who=None, real=random.Random)
    calls = 0
    with World() as world, Watch(world) as watch, Tap(fault=fault), Agent(world, respond):
        clients = [Client(i, rng.getrandbits(32), c, draws, world) for i, c in enumerate(cfgs)]
        closes = [rng.choice([None, rng.randrange(40)]) for _ in clients]
        if rng.random() < 0.5:
            # log at once, and every time
            for c in clients:
                c.conf.error_reporter.log_interval_minutes = 0
        for k in range(rng.randint(5, 40)):
            for c in clients:
                c.step(rng.choice(clients))
                if c.spans and rng.random() < 0.6:
                    f = rng.choice(MISUSE)
                    misuse(f, c.tr, rng.choice(c.spans), rng)
                calls += 1
                if closes[c.i] == k:
                    f = c.tr.close()
                    if rng.random() < 0.5:
                        c.tr.close()
                    if rng.random() < 0.3:
                        f.add_done_callback(lambda f: None)
                    del f
            world.run_for(rng.choice([0, 0, 0.01, 0.3, 1.1, 8]))
        for c in clients:
            for s in c.spans:
                s.finish()
            if rng.random() < 0.8:
                c.tr.close()
        world.run_for(20)
        clients, c, s = None, None, None
        watch.done()
        records = watch.hook.n
    for kind, msg in watch.found[:1]:
        ctx.fail(kind, msg, all=[m for _, m in watch.found[:6]])
    for k, v in answers.items():
        ctx.count(k, v)
    ctx.count('records', records)
    ctx.event(calls)
    ctx.key(json.dumps(cfgs, sort_keys=True), calls)
    ctx.sample({'clients': n, 'calls': calls, 'log records': records, 'answers': answers})


def threads(ctx):
    """Clients with their background thread, an event loop that checks its callers, and plain threads at work."""
    rng = ctx.rng
    mode = rng.choice(['alive', 'silent', 'refusing', 'babbling'])
    refuse = rng.choice([0, 0.2, 1])
    kinds = tap.fault_exceptions()
    frng, lock = random.Random(rng.getrandbits(32)), core._real_allocate()

    def fault(data, dest):
        with lock:
            return frng.choice(kinds)() if frng.random() < refuse else None
    fake = types.SimpleNamespace(errors=[])
    agent = c28_process.Agent(mode)
    errs = []
    old = sys.getswitchinterval()
    loops, composites = [], 0
    try:
        with Watch(fake) as watch, Tap(fault=fault):
            clients = []
            for i in range(rng.choice([1, 1, 2])):
                cfg = configuration(rng, i)
                cfg.update(local_agent={'reporting_host': '127.0.0.1', 'reporting_port': agent.udp_port, 'sampling_port': agent.tcp_port}, sampling_refresh_interval=0.02, logging=rng.random() < 0.6)
                if 'throttler' in cfg:
                    cfg['throttler'] = {'port': agent.tcp_port, 'refresh_interval': 1}
                conf = J.Config(cfg, service_name='svc', validate=False)
                conf.error_reporter.log_interval_minutes = 0
                # loops check their callers from the start
                os.environ['PYTHONASYNCIODEBUG'] = '1'
                try:
                    tr = conf.new_tracer()
                    if rng.random() < 0.3:
                        other = J.LocalAgentSender('127.0.0.1', agent.tcp_port, agent.udp_port)
                        loops.append(other.io_loop)
                        rep = J.Reporter(channel=other, queue_capacity=3, batch_size=2, flush_interval=0.05, error_reporter=conf.error_reporter)
                        rep.set_process('svc', {}, 100)
                        tr.reporter = J.CompositeReporter(tr.reporter, rep)
                        composites += 1
                finally:
                    os.environ.pop('PYTHONASYNCIODEBUG')
                r = tr.reporter
                while not hasattr(r, 'io_loop'):
                    r = r.reporters[0]
                if not r.io_loop.asyncio_loop.get_debug():
                    raise Inconclusive('the loop does not check its callers')
                loops.append(r.io_loop)
                clients.append(tr)
            sys.setswitchinterval(1e-5)

            def app(k):
                r = random.Random(k)
                try:
                    for i in range(r.randint(3, 40)):
                        tr = r.choice(clients)
                        s = tr.start_span(r.choice(NAMES), tags={'sampling.priority': 1} if r.random() < 0.3 else None)
                        misuse(r.choice(MISUSE), tr, s, r)
                        s.finish()
                        if r.random() < 0.05:
                            f = tr.close()
                            if r.random() < 0.5:
                                (f.get_loop().call_soon_threadsafe if isinstance(f, asyncio.Future) else lambda add, cb: add(cb))(f.add_done_callback, lambda f: None)
                        if r.random() < 0.1:
                            core.real_sleep(r.choice([0, 0.001, 0.02]))
                except BaseException as e:
                    errs.append(e)
            ths = [threading.Thread(target=app, args=(rng.getrandbits(32),)) for _ in range(rng.randint(1, 4))]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            futs = [tr.close() for tr in clients]
            end = core.real_monotonic() + 20
            while not all(f.done() for f in futs) and core.real_monotonic() < end:
                core.real_sleep(0.002)
            if errs:
                raise errs[0]
            del futs
            for loop in loops:
                ev = threading.Event()
                loop.add_callback(ev.set)
                if not ev.wait(30):
                    raise Inconclusive('background loop did not run a callback for 30 s')
            watch.done()
            records = watch.hook.n
    finally:
        sys.setswitchinterval(old)
        for loop in loops:
            loop.asyncio_loop.set_debug(False)
            loop.add_callback(loop.stop)
        agent.close()
    for kind, msg in watch.found[:1]:
        ctx.fail(kind, msg, all=[m for _, m in watch.found[:6]])
    ctx.count(mode)
    ctx.count('composites', composites)
    ctx.count('records', records)
    ctx.event(len(ths))
    ctx.key(mode, refuse, len(ths), len(clients))
    ctx.sample({'clients': len(clients), 'threads': len(ths), 'log records': records, 'agent': mode})


SCENARIOS = [
    Scenario('work', work, 500, 15000, need=('events', 'records', 'well', 'badly', 'late', 'never', 'raising', 'failing')),
    Scenario('threads', threads, 60, 900, real=True, need=('events', 'records', 'alive', 'silent', 'refusing', 'babbling', 'composites')),
]
