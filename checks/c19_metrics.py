"""C19: client metrics equal what happened."""
import itertools
import json
import random

import opentracing

from jv import core, gen, sched, wire
from jv.repwork import Rig
from jv.runner import Scenario
from jv.world import J, RecReporter, World, rec_factory

ID = 'C19'
RULE = ('random span programs (roots, children, server spans, remote parents, priorities, repeated finishes) counted independently and compared with '
        'the legacy and Prometheus metrics, on one thread and several under the controlled scheduler; random metric names and label sets, '
        'requested repeatedly in shuffled order, also concurrently; distinct by program')
ASSUMPTIONS = ['a trace is joined when a server span continues a context it was given, and started when a span begins without one',
               'in Prometheus one metric name has one set of label names and one type']
_serial = itertools.count(1)
NAMES = {'started_y': ('jaeger:started_spans', {'sampled': 'y'}), 'started_n': ('jaeger:started_spans', {'sampled': 'n'}),
         'finished': ('jaeger:finished_spans', None),
         'new_y': ('jaeger:traces', {'state': 'started', 'sampled': 'y'}), 'new_n': ('jaeger:traces', {'state': 'started', 'sampled': 'n'}),
         'join_y': ('jaeger:traces', {'state': 'joined', 'sampled': 'y'}), 'join_n': ('jaeger:traces', {'state': 'joined', 'sampled': 'n'})}


class Legacy(object):
    what = 'legacy'

    def __init__(self):
        self.counts = {}
        self.lock = core._real_allocate()
        self.factory = None
        self.metrics = J.Metrics(count=self.count)

    def count(self, key, v):
        with self.lock:
            self.counts[key] = self.counts.get(key, 0) + v

    def kw(self, rng):
        return {'metrics': self.metrics} if rng.random() < 0.5 else {'metrics_factory': J.LegacyMetricsFactory(self.metrics)}

    def get(self, name, tags):
        key = name + ''.join('.%s_%s' % (k, tags[k]) for k in sorted(tags or {}))
        return self.counts.get(key, 0)

    def close(self):
        pass


class Prom(object):
    what = 'prometheus'

    def __init__(self, label=None):
        import prometheus_client
        self.reg = prometheus_client.REGISTRY
        self.before = set(self.reg._collector_to_names)
        self.ns = 'jv%d' % next(_serial)
        self.label = label
        self.factory = J.PrometheusMetricsFactory(namespace=self.ns, service_name_label=label)

    def kw(self, rng):
        return {'metrics_factory': self.factory}

    def get(self, name, tags, suffix='_total'):
        t = {k: str(v) for k, v in (tags or {}).items()}
        if self.label:
            t['service'] = self.label
        return self.reg.get_sample_value(self.ns + '_' + name + suffix, t) or 0

    def series(self):
        """All samples of the namespace."""
        out = {}
        for m in self.reg.collect():
            if m.name.startswith(self.ns + '_'):
                for s in m.samples:
                    if not s.name.endswith('_created'):
                        out[(s.name[len(self.ns) + 1:], tuple(sorted(s.labels.items())))] = s.value
        return out

    def close(self):
        for c in set(self.reg._collector_to_names) - self.before:
            self.reg.unregister(c)


class Rec(object):
    what = 'factory'

    def __init__(self):
        self.factory = rec_factory()

    def kw(self, rng):
        return {'metrics_factory': self.factory}

    def get(self, name, tags):
        return self.factory.get(name, **(tags or {}))

    def close(self):
        pass


def backend(rng):
    return rng.choice([Legacy, Legacy, Prom, Prom, lambda: Prom('svc-label'), Rec])()


class Count(object):
    def __init__(self):
        self.n = dict.fromkeys(NAMES, 0)

    def start(self, sp, remote_server, root):
        y = 'y' if sp.is_sampled() else 'n'
        self.n['started_' + y] += 1
        if remote_server:
            self.n['join_' + y] += 1
        elif root:
            self.n['new_' + y] += 1

    def compare(self, ctx, be, **w):
        for k, (name, tags) in NAMES.items():
            got = be.get(name, tags)
            ctx.check(got == self.n[k], 'wrong-count', '%s %r: %s says %s, %d happened' % (name, tags, be.what, got, self.n[k]), **w)


def act(rng, tr, cnt, live, prog):
    """One random span operation, counted."""
    r = rng.random()
    server = rng.random() < 0.3
    kind = rng.choice([None, 'client', 'server', 'producer']) if not server else 'server'
    tags = {'span.kind': kind} if kind else None
    if rng.random() < 0.1:
        tags = dict(tags or {}, **{'sampling.priority': rng.choice([0, 1])})
    server = kind == 'server'
    if r < 0.3:
        sp = tr.start_span('root', tags=tags, ignore_active_span=True)
        cnt.start(sp, False, True)
        live.append(sp)
        prog.append(('root', kind, sp.is_sampled()))
    elif r < 0.4:
        car = rng.choice([{'jaeger-debug-id': 'x'}, {'uberctx-a': 'b'}, {'jaeger-baggage': 'a=b'}])
        sp = tr.start_span('root', child_of=tr.extract('text_map', car), tags=tags)
        cnt.start(sp, False, True)
        live.append(sp)
        prog.append(('header', kind, sp.is_sampled()))
    elif r < 0.55:
        f = rng.choice([0, 1, 3])
        par = rng.choice([0, 0, gen.id64(rng)])
        c = tr.extract('text_map', {'uber-trace-id': '%x:%x:%x:%x' % (gen.id64(rng), gen.id64(rng), par, f)})
        how = rng.choice(['child_of', 'child_of', 'reference', 'references', 'both', 'headers'])
        kw = {}
        if how in ('child_of', 'both'):
            kw['child_of'] = c
        if how == 'headers':
            # what arrived beside the reference belongs to no trace
            kw['child_of'] = tr.extract('text_map', {'uberctx-a': 'b'})
        if how != 'child_of':
            kw['references'] = rng.choice([opentracing.child_of, opentracing.follows_from])(c)
        if how == 'references':
            kw['references'] = [kw['references'], opentracing.follows_from(J.SpanContext(gen.id64(rng), gen.id64(rng), None, rng.choice([0, 1])))]
        if how == 'reference' and rng.random() < 0.5:
            kw['references'] = [kw['references']]
        sp = tr.start_span('remote', tags=tags, **kw) if rng.random() < 0.8 else tr.start_active_span('remote', finish_on_close=False, tags=tags, **kw).span
        if tr.active_span is not None:
            tr.scope_manager.active.close()
        cnt.start(sp, server, False)
        live.append(sp)
        prog.append(('remote', kind, sp.is_sampled()))
    elif r < 0.7 and live:
        # (a server span under a local parent: neither is claimed to be a joined trace)
        if server:
            tags.pop('span.kind')
        sp = tr.start_span('child', child_of=rng.choice(live), tags=tags)
        cnt.start(sp, False, False)
        live.append(sp)
        prog.append(('child', kind, sp.is_sampled()))
    elif live:
        sp = rng.choice(live)
        if rng.random() < 0.2:
            sp.set_tag('sampling.priority', rng.choice([0, 1]))
            prog.append(('priority', sp.is_sampled()))
        else:
            if sp.is_sampled() and not sp.finished:
                cnt.n['finished'] += 1
            if not sp.is_sampled():
                live.remove(sp)
            elif rng.random() < 0.5:
                live.remove(sp)
            sp.finish()
            prog.append(('finish', sp.is_sampled()))


def programs(ctx):
    rng = ctx.rng
    be = backend(rng)
    try:
        tr = J.Tracer('svc', RecReporter(), J.ProbabilisticSampler(rng.choice([0.0, 0.5, 0.5, 1.0])), one_span_per_rpc=rng.random() < 0.4, **be.kw(rng))
        cnt, live, prog = Count(), [], []
        ctx.notes.update(program=prog, backend=be.what)
        for i in range(rng.randint(5, 40)):
            act(rng, tr, cnt, live, prog)
            ctx.event()
            if i % 7 == 0:
                cnt.compare(ctx, be)
        cnt.compare(ctx, be)
        for k, v in cnt.n.items():
            ctx.count(k, v)
        ctx.count(be.what)
    finally:
        be.close()
    ctx.key(tuple(prog), be.what)
    ctx.sample({'backend': be.what, 'operations': len(prog), 'counts': cnt.n})


def race(ctx):
    rng = ctx.rng
    be = backend(rng)
    try:
        tr = J.Tracer('svc', RecReporter(), J.ProbabilisticSampler(0.5), **be.kw(rng))
        total = Count()
        parts = []

        def worker(r):
            cnt, live, prog = Count(), [], []
            parts.append(cnt)

            def f():
                for _ in range(6):
                    act(r, tr, cnt, live, prog)
            return f
        sc = sched.Scheduler(rng)
        sc.run([worker(random.Random(rng.getrandbits(64))) for _ in range(rng.choice([2, 3]))])
        p = sc.raise_problems()
        if p:
            ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
        for t in sc.threads:
            if t.exc is not None:
                raise t.exc
        for c in parts:
            for k, v in c.n.items():
                total.n[k] += v
        total.compare(ctx, be, schedule=sc.schedule[:300])
        ctx.event(6 * len(parts))
        ctx.count('switches', sc.switches)
    finally:
        be.close()
    ctx.key(tuple(sc.schedule), be.what)
    ctx.sample({'backend': be.what, 'threads': len(parts), 'switches': sc.switches, 'counts': total.n})


LABELS = ['result', 'state', 'sampled', 'a', 'b', 'ab', 'zz', 'endpoint']
VALUES = ['ok', 'err', '', 'y', 'n', 'é', 'a"b', 'a\\b\n', '1', 1, 2.5, True, 'x y', 'a.b_c', 'a=b,c']


def label_set(rng, names, i):
    t = [(k, rng.choice(VALUES)) for k in names]
    rng.shuffle(t)
    return dict(t)


def prom_series(ctx):
    """Each name and tag set is a series of its own, and always the same one."""
    rng = ctx.rng
    be = Prom(rng.choice([None, None, 'svc', 'other svc']))
    try:
        metrics = {}
        kinds = ['counter', 'counter', 'gauge']
        for i in range(rng.randint(1, 5)):
            metrics['%s%d' % (rng.choice(['jaeger:m', 'm_', 'req']), i)] = (rng.choice(kinds), rng.sample(LABELS, rng.choice([0, 1, 2, 3, 4])))
        if rng.random() < 0.5:
            # names and labels that run into each other when written one after the other
            base = rng.choice(['reqs', 'm'])
            kind = rng.choice(['counter', 'gauge'])
            metrics.update(rng.choice([{base + 'a': (kind, ['b']), base: (kind, ['ab']), base + 'ab': (kind, [])},
                                       {base + '_a': (kind, ['b', 'c']), base: (kind, ['_a', 'b', 'c']), base + '_ab': (kind, ['c'])},
                                       {base: (kind, ['a', 'b']), base + 'a': (kind, ['b']), base + 'b': (kind, ['a'])},
                                       {base: (kind, ['ab', 'c']), base + '_': (kind, ['a', 'bc']), base + 'x': (kind, ['abc'])}]))
        model = {}
        handles = []
        calls = []
        for _ in range(rng.randint(5, 60)):
            if handles and rng.random() < 0.4:
                h, key, kind = rng.choice(handles)
            else:
                name = rng.choice(sorted(metrics))
                kind, labels = metrics[name]
                tags = label_set(rng, labels, 0)
                given = dict(tags)
                kw = {'name': name}
                if tags or rng.random() < 0.5:
                    kw['tags'] = given if tags else rng.choice([None, {}])
                h = (be.factory.create_counter if kind == 'counter' else be.factory.create_gauge)(**kw)
                ctx.check(given == tags, 'tags-changed', 'asking for a metric changed the tags given')
                full = {k: str(v) for k, v in tags.items()}
                if be.label:
                    full['service'] = be.label
                key = (name + ('_total' if kind == 'counter' else ''), tuple(sorted(full.items())))
                handles.append((h, key, kind))
                model.setdefault(key, 0)
            v = rng.choice([1, 1, 2, 0, 0.5, 7])
            h(v)
            model[key] = model[key] + v if kind == 'counter' else v
            calls.append((key, v))
            ctx.event()
        got = be.series()
        ctx.check(got == model, 'wrong-series', 'the registry holds %r, expected %r' % (got, model), calls=calls[:60])
        ctx.count('series', len(model))
        ctx.key(tuple(sorted(model.items(), key=repr)), be.label)
        ctx.sample({'metrics': {k: list(v[1]) for k, v in metrics.items()}, 'series': len(model), 'label': be.label})
    finally:
        be.close()


def prom_race(ctx):
    """Threads ask for the same and different metrics at the same time."""
    rng = ctx.rng
    be = Prom(rng.choice([None, 'svc']))
    try:
        n = rng.choice([2, 3])
        plan = [[(rng.choice(['m1', 'm2', 'm3']), rng.choice(['x', 'y'])) for _ in range(3)] for _ in range(n)]
        model = {}

        def worker(k):
            def f():
                for name, v in plan[k]:
                    tags = None if name == 'm3' else {'a': v, 'b': '1'}
                    be.factory.create_counter(name, tags)(1)
            return f
        for name, v in itertools.chain(*plan):
            t = {} if name == 'm3' else {'a': v, 'b': '1'}
            if be.label:
                t['service'] = be.label
            key = (name + '_total', tuple(sorted(t.items())))
            model[key] = model.get(key, 0) + 1
        sc = sched.Scheduler(rng)
        sc.run([worker(k) for k in range(n)])
        p = sc.raise_problems()
        if p:
            ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
        for t in sc.threads:
            if t.exc is not None:
                ctx.fail('concurrent-create', 'asking for metrics concurrently raised %r' % t.exc, schedule=sc.schedule[:400])
        got = be.series()
        ctx.check(got == model, 'wrong-series', 'the registry holds %r, expected %r' % (got, model), schedule=sc.schedule[:400])
        ctx.event(3 * n)
        ctx.count('switches', sc.switches)
        ctx.key(tuple(sc.schedule), repr(plan))
        ctx.sample({'threads': n, 'series': len(model), 'switches': sc.switches})
    finally:
        be.close()


def legacy_keys(ctx):
    """The legacy adapter: one key per name and tag set, whatever the order; the values arrive as given."""
    rng = ctx.rng
    seen = []
    m = J.Metrics(count=lambda k, v: seen.append(('count', k, v)), gauge=lambda k, v: seen.append(('gauge', k, v)), timing=lambda k, v: seen.append(('timing', k, v)))
    if rng.random() < 0.2:
        none = J.LegacyMetricsFactory(J.Metrics())
        none.create_counter('x', {'a': 'b'})(1)
        none.create_gauge('x')(1)
        none.create_timer('x', None)(1)
    f = J.LegacyMetricsFactory(m)
    keys = {}
    for _ in range(rng.randint(3, 25)):
        kind = rng.choice(['counter', 'gauge', 'timer'])
        name = rng.choice(['jaeger:a', 'b', 'c:d'])
        labels = rng.sample(LABELS[:4], rng.randint(0, 3))
        t = [(k, rng.choice(['ok', 'err', 'y', 1])) for k in labels]
        rng.shuffle(t)
        tags = dict(t) or rng.choice([None, {}])
        v = rng.choice([1, 2, 5, 1500])
        n = len(seen)
        getattr(f, 'create_' + kind)(name, tags)(v)
        ctx.check(len(seen) == n + 1, 'wrong-count', 'one %s update made %d calls' % (kind, len(seen) - n))
        k, key, got = seen[-1]
        ctx.check(k == {'counter': 'count', 'gauge': 'gauge', 'timer': 'timing'}[kind], 'wrong-count', 'a %s update was emitted as %s' % (kind, k))
        ctx.check(got == (v if kind != 'timer' else v / 1000.0), 'wrong-count', 'a %s update of %r was emitted as %r' % (kind, v, got))
        ident = (name, tuple(sorted((a, str(b)) for a, b in (tags or {}).items())))
        ctx.check(keys.setdefault(ident, key) == key, 'wrong-series', '%r was emitted as %r and as %r' % (ident, keys[ident], key))
        ctx.event()
    ctx.check(len(set(keys.values())) == len(keys), 'wrong-series', 'different metrics share a key: %r' % (keys,))
    ctx.key(tuple(sorted(keys.values())), len(seen))
    ctx.sample({'keys': sorted(keys.values())[:5]})


def disabled(ctx):
    """metrics: false emits none; enabled, the client's own metrics arrive at the configured place."""
    rng = ctx.rng
    with World() as world:
        off = rng.random() < 0.6
        leg, rec = Legacy(), rec_factory()
        use_rec = rng.random() < 0.5
        conf = {'service_name': 's', 'sampler': {'type': 'const', 'param': 1}, 'local_agent': {'reporting_host': '127.0.0.1'}}
        if off:
            conf['metrics'] = rng.choice([False, 'false', 'False', 0, '0'])
        elif rng.random() < 0.5:
            conf['metrics'] = rng.choice([True, 'true', 1])
        kw = {'metrics_factory': rec} if use_rec else {'metrics': leg.metrics}
        from jv.tap import Tap
        with Tap():
            tr = J.Config(conf, **kw).new_tracer(io_loop=world.io_loop)
            n = rng.randint(1, 5)
            for _ in range(n):
                tr.start_span('x', ignore_active_span=True).finish()
            world.run_for(3)
        got = dict(rec.counts) if use_rec else dict(leg.counts)
        total = sum(got.values())
        if off:
            ctx.check(total == 0, 'not-disabled', 'metrics are disabled (%r) and %r was emitted' % (conf['metrics'], got))
            ctx.check(not use_rec or not any(v for v in rec.gauges.values()), 'not-disabled', 'gauges %r' % (rec.gauges,))
            ctx.count('off')
        else:
            be = Rec() if use_rec else leg
            if use_rec:
                be.factory = rec
            for name, tags, want in (('jaeger:started_spans', {'sampled': 'y'}, n), ('jaeger:finished_spans', None, n), ('jaeger:reporter_spans', {'result': 'ok'}, n),
                                     ('jaeger:traces', {'state': 'started', 'sampled': 'y'}, n)):
                ctx.check(be.get(name, tags) == want, 'wrong-count', '%s %r is %s, expected %d' % (name, tags, be.get(name, tags), want))
            ctx.count('on')
        ctx.event()
        ctx.key(repr(conf), use_rec, n)
        ctx.sample({'metrics': conf.get('metrics', 'default'), 'emitted': total})


def queue_gauge(ctx):
    """The queue length published after a batch is the number of spans waiting then."""
    rng = ctx.rng
    cap = rng.choice([2, 5, 20, 60])
    with Rig(ctx, plain=True, queue_capacity=cap, batch_size=rng.choice([1, 2, max(1, cap // 3)]), flush_interval=rng.choice([None, 0.05, 1.0])) as rig:
        put = [0]
        wrong = []
        refuse = rng.choice([0, 0, 0.5, 1])
        rig.fault = lambda data, dest: OSError(11, 'refused') if rng.random() < refuse else None

        def on_gauge(name, v):
            if name != 'jaeger:reporter_queue_length':
                return
            ctx.count('gauges')
            if put[0] == rig.seq:
                want = rig.seq - sum(rig.mf.spans())
                ctx.count('exact')
                if want:
                    ctx.count('waiting')
            else:
                # spans on their way to the queue
                want = None
            if v != want and want is not None or not 0 <= v <= cap:
                wrong.append('a queue length of %r was published when %r of %d spans were waiting (capacity %d)' % (v, want, rig.seq, cap))
        rig.mf.on_gauge = on_gauge
        for _ in range(rng.randint(1, 6)):
            n = rng.choice([0, 1, 2, cap, rng.randint(0, 2 * cap)])
            for _ in range(n):
                rig.emit()
            rig.world.io_loop.add_callback(put.__setitem__, 0, rig.seq)
            rig.world.run_for(rng.choice([0, 0.01, 0.06, 2.0]))
            ctx.event(n)
        fut = rig.tracer.close()
        rig.world.run_for(5)
        ctx.check(fut.done(), 'close', 'close did not complete')
        if rig.seq:
            last = rig.mf.gauges.get(('jaeger:reporter_queue_length', ()))
            ctx.check(last in (0, None) and not (last is None and sum(rig.mf.spans()[:2])), 'queue-length', 'the last queue length published is %r after everything was sent' % (last,))
        ctx.check(not wrong, 'queue-length', wrong[0] if wrong else '')
        ctx.key(cap, rig.seq, refuse, rig.batch)
        ctx.sample({'capacity': cap, 'spans': rig.seq, 'counters': rig.mf.spans()})


def agent(ctx):
    """A whole client: polls, strategy updates, credit requests, refusals and spans are counted where the configuration says."""
    rng = ctx.rng
    from jv.tap import Tap
    from checks.c20_config import Http
    be = backend(rng)
    n = dict.fromkeys(('q ok', 'q err', 'u ok', 'u err', 't ok', 't err', 'refused', 's ok', 's err'), 0)
    rates = iter([(i * 37 % 1000) / 1000.0 for i in range(1, 1000)])
    bad = rng.choice([0, 0.3, 0.8])
    kind = rng.choice('PR')
    last = []

    def respond(path, q):
        k = rng.random()
        name = 'q' if path == '/sampling' else 't'
        if k < bad:
            n[name + ' err'] += 1
            e = rng.choice([OSError(111, 'refused'), TimeoutError(), b'{', b'', b'\xff\xfe'])
            if isinstance(e, Exception) and rng.random() < 0.5:
                raise e
            return e
        if path != '/sampling':
            n['t ok'] += 1
            ctx.count('credits')
            return json.dumps({'balances': [{'operation': o, 'balance': 1} for k_, o in q if k_ == 'operations']}).encode()
        n['q ok'] += 1
        ctx.count('strategies')
        if k > 0.85:
            n['u err'] += 1
            return rng.choice([b'{}', b'{"strategyType": "X"}', b'{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 2}}', b'{"operationSampling": {"perOperationStrategies": 7}}'])
        if last and rng.random() < 0.3:
            # the strategy already in force is no update
            ctx.count('repeated')
            return last[-1]
        n['u ok'] += 1
        # (a strategy of one kind that differs from the one before is always an update)
        if kind == 'P':
            last.append(json.dumps({'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': next(rates)}}).encode())
        else:
            last.append(json.dumps({'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': {'maxTracesPerSecond': 1 + len(last) % 400}}).encode())
        return last[-1]

    def fault(data, dest):
        k = len(wire.decode(data)['spans'])
        if rng.random() < 0.3:
            n['s err'] += k
            return OSError(111, 'refused')
        n['s ok'] += k

    try:
        with World() as world, Tap(fault=fault), Http(world, respond) as http:
            conf = {'service_name': 's', 'throttler': {'port': 5779, 'refresh_interval': rng.choice([3, 5])}, 'sampling_refresh_interval': rng.choice([2, 7]), 'logging': rng.random() < 0.5,
                    'local_agent': {'reporting_host': '127.0.0.1'}}
            kw = be.kw(rng)
            if rng.random() < 0.4:
                # the same parts, put together by hand
                chan = J.LocalAgentSender('127.0.0.1', 5778, 6831, io_loop=world.io_loop, throttling_port=5779)
                mf = kw.get('metrics_factory') or J.LegacyMetricsFactory(kw['metrics'])
                tr = J.Tracer('s', J.Reporter(chan, **kw), J.RemoteControlledSampler(chan, 's', sampling_refresh_interval=conf['sampling_refresh_interval'], **kw),
                              throttler=J.RemoteThrottler(chan, 's', refresh_interval=conf['throttler']['refresh_interval'], metrics_factory=mf), **kw)
                ctx.count('by_hand')
            else:
                tr = J.Config(conf, **kw).new_tracer(io_loop=world.io_loop)
            for _ in range(rng.randint(3, 25)):
                sp = tr.start_span('root', ignore_active_span=True)
                sp.set_tag('sampling.priority', 1)
                if not sp.is_debug():
                    n['refused'] += 1
                sp.finish()
                world.run_for(rng.choice([0, 0.5, 2, 6]))
                ctx.event()
            tr.close()
            world.run_for(30)
            requests = len(http.reqs)
        for k, (name, tags) in {'q ok': ('jaeger:sampler_queries', {'result': 'ok'}), 'q err': ('jaeger:sampler_queries', {'result': 'err'}),
                                'u ok': ('jaeger:sampler_updates', {'result': 'ok'}), 'u err': ('jaeger:sampler_updates', {'result': 'err'}),
                                't ok': ('jaeger:throttler_update', {'result': 'ok'}), 't err': ('jaeger:throttler_update', {'result': 'err'}),
                                'refused': ('jaeger:throttled_debug_spans', None),
                                's ok': ('jaeger:reporter_spans', {'result': 'ok'}), 's err': ('jaeger:reporter_spans', {'result': 'err'})}.items():
            got = be.get(name, tags)
            ctx.check(got == n[k], 'wrong-count', '%s %r: %s says %s, %d happened' % (name, tags, be.what, got, n[k]), happened=n, requests=requests)
            ctx.count(k.replace(' ', '_'), n[k])
    finally:
        be.close()
    ctx.key(be.what, tuple(sorted(n.items())))
    ctx.sample({'backend': be.what, 'counts': n})


SCENARIOS = [
    Scenario('programs', programs, 900, 30000, need=('events', 'legacy', 'prometheus', 'factory') + tuple(NAMES)),
    Scenario('race', race, 200, 8000, need=('events', 'switches')),
    Scenario('prom_series', prom_series, 400, 10000, need=('events', 'series')),
    Scenario('prom_race', prom_race, 300, 10000, need=('events', 'switches')),
    Scenario('legacy_keys', legacy_keys, 300, 5000),
    Scenario('queue_gauge', queue_gauge, 300, 6000, need=('gauges', 'exact', 'waiting')),
    Scenario('agent', agent, 150, 3000, need=('events', 'strategies', 'credits', 'q_err', 'u_ok', 'u_err', 't_err', 'refused', 's_ok', 's_err', 'repeated')),
    Scenario('disabled', disabled, 150, 3000, need=('on', 'off')),
]
