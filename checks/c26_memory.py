"""C26 Nothing accumulates: what the client holds in memory does not grow with the work it has done."""
import collections
import gc
import json
import sys
import threading
import types

from checks.c20_config import Http
from jv import gen
from jv.runner import Scenario
from jv.world import J, Tap, World

ID = 'C26'
RULE = ('a client built through Config (or by hand) in virtual time does N, N, 2N units of one mix of work: spans of every kind (sampled or not, finished, abandoned, active, '
        'with every annotation), carriers, failing sends, full queues, polls answered well, badly and never; two leak monitors, the number of live objects and the deep size of everything '
        'reachable from the client and from the module state, must not grow from one quiescent point to the next')
ORACLE = 'growth between quiescent points (garbage collected, all queues empty) that persists, beyond a constant'

ASSUMPTIONS = ['growth within a constant slack, or that stops (bounded caches), is admitted']

SKIP = (types.ModuleType, types.FrameType, types.CodeType, types.BuiltinFunctionType, type)


def referents(o):
    if isinstance(o, types.FunctionType):
        return [o.__closure__, o.__defaults__, o.__kwdefaults__, o.__dict__]
    if isinstance(o, types.MethodType):
        return [o.__self__, o.__func__]
    return gc.get_referents(o)


def module_state():
    """Mutable state of the client's modules and classes."""
    out = []
    for name, m in list(sys.modules.items()):
        if not name.startswith('jaeger_client') or m is None:
            continue
        for k, v in list(vars(m).items()):
            if k.startswith('__'):
                continue
            if isinstance(v, type):
                if (v.__module__ or '').startswith('jaeger_client'):
                    out += [x for n, x in list(vars(v).items()) if not n.startswith('__') and not isinstance(x, SKIP)]
            elif not isinstance(v, SKIP):
                out.append(v)
    return out


def deep(roots, stop):
    """(size, objects, largest containers) of everything reachable; does not enter the loop, the harness or the interpreter."""
    seen = set(map(id, stop))
    todo = list(roots) + module_state()
    size = 0
    kinds = collections.Counter()
    while todo:
        o = todo.pop()
        if id(o) in seen or o is None or isinstance(o, SKIP):
            continue
        mod = type(o).__module__ or ''
        if mod.startswith(('jv.', 'checks.', 'asyncio', 'logging', 'weakref')) or isinstance(o, dict) and '__builtins__' in o:
            continue
        seen.add(id(o))
        size += sys.getsizeof(o, 0)
        kinds[type(o).__name__] += 1
        todo.extend(referents(o))
    return size, kinds


def census():
    gc.collect()
    return collections.Counter('%s.%s' % (type(o).__module__, type(o).__name__) for o in gc.get_objects())


class Count(object):
    """A metrics factory that holds one number per metric."""

    def __new__(cls):
        class F(J.MetricsFactory):
            n = {}

            def create_counter(self, name, tags=None):
                k = (name, tuple(sorted((tags or {}).items())))

                def inc(v):
                    Count.n[k] = Count.n.get(k, 0) + v
                return inc
            create_timer = create_gauge = lambda self, name, tags=None: lambda v: None
        return F()


OPS = ['a', 'b', 'c', 'd']
RESPONSES = [
    lambda r: json.dumps({'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': r.choice([0.0, 0.5, 1.0])}}).encode(),
    lambda r: json.dumps({'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': {'maxTracesPerSecond': r.choice([1, 2, 100])}}).encode(),
    lambda r: json.dumps({'operationSampling': {'defaultSamplingProbability': r.choice([0.1, 1]), 'defaultLowerBoundTracesPerSecond': r.choice([1, 50]), 'perOperationStrategies':
                          [{'operation': o, 'probabilisticSampling': {'samplingRate': r.random()}} for o in OPS if r.random() < 0.7]}}).encode(),
    lambda r: r.choice([b'', b'{', b'null', b'{"strategyType": "X"}', b'{"operationSampling": 5}']),
]


def work(ctx):
    from checks import c05_undisturbed as c05
    rng = ctx.rng
    Count.n = {}
    send = [rng.choice([0, 0, 0.3, 1])]
    tp = Tap(fault=lambda data, dest: OSError(rng.choice([11, 111]), 'no') if rng.random() < send[0] else None)
    # one kind of response for the whole case, or a mix: the strategy in force is part of what may accumulate
    kinds = rng.choice([[0], [1], [2], [3], [0, 1, 2, 3]])

    calm = [False]

    def respond(path, q):
        if calm[0]:
            # at the end of a block the strategy and the credits are the same each time
            if path == '/sampling':
                return {0: b'{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 0.5}}',
                        1: b'{"strategyType": "RATE_LIMITING", "rateLimitingSampling": {"maxTracesPerSecond": 7}}',
                        2: json.dumps({'operationSampling': {'defaultSamplingProbability': 0.5, 'defaultLowerBoundTracesPerSecond': 1, 'perOperationStrategies':
                                       [{'operation': o, 'probabilisticSampling': {'samplingRate': 0.5}} for o in OPS]}}).encode(), 3: b'{'}[kinds[0]]
            return json.dumps({'balances': [{'operation': o, 'balance': 1} for o in OPS]}).encode()
        r = rng.random()
        if r < 0.1:
            raise OSError(111, 'refused')
        if r < 0.2:
            return None
        if path == '/sampling':
            return RESPONSES[rng.choice(kinds)](rng)
        return rng.choice([b'[]', json.dumps({'balances': [{'operation': o, 'balance': rng.choice([0, 1, 3])} for o in OPS]}).encode()])
    with World() as w, tp, Http(w, respond) as http:
        cap = rng.choice([2, 10, 40])
        cfg = {'logging': rng.random() < 0.3, 'reporter_queue_size': cap, 'reporter_batch_size': rng.choice([1, 2, max(1, cap // 2)]),
               'reporter_flush_interval': rng.choice([0.05, 1]), 'sampling_refresh_interval': 1, 'max_operations': rng.choice([1, 3, 20]),
               'propagation': rng.choice(['jaeger', 'b3']), 'generate_128bit_trace_id': rng.random() < 0.5, 'tags': {'t': 'v'}}
        if rng.random() < 0.6:
            cfg['sampler'] = rng.choice([{'type': 'const', 'param': 1}, {'type': 'const', 'param': 0}, {'type': 'probabilistic', 'param': 0.5}, {'type': 'ratelimiting', 'param': 10}])
        if rng.random() < 0.6:
            cfg['throttler'] = {'port': 5778, 'refresh_interval': 1}
        metrics = rng.choice(['factory', 'none', 'legacy'])
        kw = {}
        if metrics == 'factory':
            kw['metrics_factory'] = Count()
        elif metrics == 'legacy':
            kw['metrics'] = J.Metrics(count=lambda k, v: None, gauge=lambda k, v: None)
        conf = J.Config(cfg, service_name='svc', validate=False, **kw)
        tr = conf.new_tracer(io_loop=w.io_loop)
        fresh = rng.random() < 0.3           # operation names that never come back (only for work that may not remember them)
        mix = rng.sample(['spans', 'children', 'unfinished', 'active', 'carriers', 'bad carriers', 'debug', 'burst', 'late', 'threads', 'chain', 'long'], rng.randint(1, 4))
        n = [0]
        last, by_span = [tr.start_span('a')], rng.random() < 0.6
        alive = tr.start_span('a')
        alive.set_tag('sampling.priority', 0)

        def name():
            n[0] += 1
            return 'new%d' % n[0] if fresh and 'throttler' not in cfg else rng.choice(OPS)

        def unit():
            k = rng.choice(mix)
            ctx.count(k.replace(' ', '_'))
            ctx.event()
            if k == 'spans':
                s = tr.start_span(name(), tags={'k': gen.tag_value(rng)})
                c05.annotate(rng, s)
                s.finish()
            elif k == 'children':
                s = tr.start_span(name())
                s.set_baggage_item('b%d' % rng.randrange(3), gen.word(rng))
                c = tr.start_span(name(), child_of=s)
                d = tr.start_span(name(), references=[J.Reference(J.ReferenceType.FOLLOWS_FROM, s.context), J.Reference(J.ReferenceType.CHILD_OF, c.context)])
                for x in (d, c, s):
                    x.finish()
            elif k == 'unfinished':
                s = tr.start_span(name())
                c05.annotate(rng, s)
            elif k == 'active':
                with tr.start_active_span(name(), finish_on_close=rng.random() < 0.7):
                    with tr.start_active_span(name()) as sc:
                        sc.span.log_kv({'e': gen.word(rng)})
            elif k == 'carriers':
                s = tr.start_span(name())
                s.set_baggage_item('b', gen.word(rng))
                f = rng.choice([J.Format.TEXT_MAP, J.Format.HTTP_HEADERS, J.Format.BINARY, J.ZipkinSpanFormat])
                if cfg['propagation'] == 'b3' and f == J.Format.BINARY:
                    f = J.Format.TEXT_MAP
                car = bytearray() if f == J.Format.BINARY else {}
                if f == J.ZipkinSpanFormat:
                    s.context.parent_id, s.context.trace_id
                tr.inject(s.context, f, car)
                tr.start_span(name(), child_of=tr.extract(f, car), tags={'span.kind': rng.choice(['server', 'client'])}).finish()
            elif k == 'bad carriers':
                try:
                    tr.extract(J.Format.TEXT_MAP, {'uber-trace-id': rng.choice(['', '1:2', gen.text(rng), '1:1:1:1:1', '%s:0:0:1' % gen.word(rng)]), 'x-b3-traceid': gen.word(rng),
                                                   'x-b3-spanid': gen.word(rng), gen.word(rng): gen.word(rng)})
                except J.SpanContextCorruptedException:
                    pass
            elif k == 'debug':
                ctxt = J.SpanContext(None, None, None, None, {'b': gen.word(rng)}, gen.word(rng))
                s = tr.start_span(rng.choice(OPS), child_of=ctxt)
                s.set_tag('sampling.priority', 1)
                s.finish()
            elif k == 'burst':
                for _ in range(cap + 3):
                    tr.start_span(name()).finish()
            elif k == 'late':
                s = tr.start_span(name())
                s.finish()
                s.set_tag('t', gen.word(rng))
                s.log_kv({'t': 1})
                s.finish()
            elif k == 'chain':
                # an endless chain of causes
                last[0].finish()
                last[0] = tr.start_span(name(), child_of=last[0]) if by_span else \
                    tr.start_span(name(), references=J.Reference(J.ReferenceType.FOLLOWS_FROM, last[0].context))
                last[0].set_baggage_item('b', gen.word(rng))
            elif k == 'long':
                # a long-lived span that is not sampled
                alive.set_tag(gen.word(rng), gen.word(rng))
                alive.log_kv({gen.word(rng): gen.word(rng)})
                alive.set_baggage_item('b', gen.word(rng))
                alive.set_operation_name(name())
                tr.start_span(name(), child_of=alive).finish()
            else:
                def f():
                    with tr.start_active_span(name()) as sc:
                        sc.span.set_tag('thread', 1)
                t = threading.Thread(target=f)
                t.start()
                t.join()

        def block(units):
            for _ in range(units):
                unit()
                if rng.random() < 0.3:
                    w.run_for(rng.choice([0, 0.01, 0.3, 1.1]))
            calm[0] = True
            w.run_for(8)
            # whatever the client still holds of the last span is the same each time
            for _ in range(3):
                tr.start_span('a').finish()
                w.run_for(2)
            calm[0] = False
            del tp.sent[:], tp.attempts[:], tp.families[:], tp.could_wait[:]
            del http.reqs[:]
            gc.collect()
            return deep([tr, conf], [w, w.io_loop, w.aloop, http, tp, ctx, ctx.rng, Count]), census()
        N = 100
        block(N)
        a = block(N)
        b = block(N)
        c = block(2 * N)
        ctx.notes.update(config=cfg, mix=mix, metrics=metrics, fresh_names=fresh)

        def top(x, y):
            return ['%s +%d' % (k, v) for k, v in (y - x).most_common(6)]
        d = []
        for what, of, slack in (('bytes reachable from the client', lambda m: m[0][0], 4 * N), ('live objects', lambda m: sum(m[1].values()), N // 4)):
            x, y, z = of(a), of(b), of(c)
            if y - x > slack and z - y > 2 * slack:
                # it has to go on like that
                d = d or [block(8 * N), block(16 * N)]
                if of(d[0]) - z > 8 * slack and of(d[1]) - of(d[0]) > 16 * slack:
                    ctx.fail('grows', 'the number of %s grows with the work done: %d, %d after %d, %d after %d, %d after %d, %d after %d more units' % (what, x, y, N, z, 2 * N, of(d[0]), 8 * N, of(d[1]), 16 * N),
                             reachable=top(c[0][1], d[0][0][1]), live=top(c[1], d[0][1]))
        ctx.count('remeasured', len(d))
        ctx.count('measured')
        tr.close()
        w.run_for(5)
    ctx.key(json.dumps(cfg, sort_keys=True), tuple(mix))
    ctx.sample({'mix': mix, 'objects': sum(c[1].values()), 'bytes': c[0][0]})


SCENARIOS = [
    Scenario('work', work, 60, 1500, need=('events', 'measured', 'spans', 'children', 'unfinished', 'active', 'carriers', 'bad_carriers', 'debug', 'burst', 'late', 'threads'), limit=120),
]
