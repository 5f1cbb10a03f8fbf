"""C33 What an operation costs does not depend on what happened before."""
import gc
import json
import logging
import struct
import sys
import time

from jv import core, gen
from jv.runner import Scenario
from jv.world import J, RecReporter, Tap, World, rec_factory, virtual_sender

ID = 'C33'
RULE = ('one dimension of history per case (spans waiting, sent, dropped, open; annotations, generations, siblings; operations known to sampler and throttler; polls, failures, '
        'log lines, metrics, tracers, idle time) is grown from a few hundred units to some ten thousand; every operation is measured before and after, in interpreter steps and in CPU time; '
        'and the time for one value, carrier, strategy or batch is measured at two sizes, eight apart; distinct by dimension and configuration')
ORACLE = 'steps executed by the code under test (median of repeated operations), and CPU time (least of many repetitions) for what runs inside the interpreter'
ASSUMPTIONS = ['a factor of 3 in steps and of 4 in CPU time (and 0.02 ms) is admitted; costs that are spread over many operations are not judged',
               'what has to be copied or sent is exempt: the baggage of a span, the operations in a credit request']

OWN = core.VERIF if hasattr(core, 'VERIF') else __file__.rsplit('/checks/', 1)[0]


def steps(f, arg):
    """Interpreter steps outside the harness."""
    n = [0]

    def local(frame, event, _):
        n[0] += 1
        return local

    def glob(frame, event, _):
        if frame.f_code.co_filename.startswith(OWN):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return local
    old = sys.gettrace()
    sys.settrace(glob)
    try:
        f(arg)
    finally:
        sys.settrace(old)
    return n[0]


def cpu(f, arg):
    gc.disable()
    try:
        t = time.thread_time_ns()
        f(arg)
        return time.thread_time_ns() - t
    finally:
        gc.enable()


def nothing():
    return None


def measure(ops, reps=15):
    out = {}
    for name, (prepare, op) in ops.items():
        s, c = [], []
        for _ in range(7):
            a = prepare()
            s.append(steps(op, a))
        for _ in range(reps):
            a = prepare()
            c.append(cpu(op, a))
        out[name] = (sorted(s)[len(s) // 2], min(c))
    return out


def pick(ctx, kinds):
    """All kinds in turn."""
    return kinds[(2 * (ctx.index // len(DIMS)) + ctx.index % 2) % len(kinds)]


# ---- dimensions: each returns (grow, operations, N) ------------------------------------------------


def spans(tr, **kw):
    def new():
        return tr.start_span('op', ignore_active_span=True, **kw)
    return new


def pipeline(ctx, w, rng, what):
    cap = 1000000 if what in ('waiting', 'in batch', 'blocked') else 50
    batch = 1000000 if what == 'in batch' else rng.choice([1, 10])
    send = virtual_sender(w)
    rep = J.Reporter(channel=send, queue_capacity=cap, batch_size=batch, flush_interval=1000 if what == 'in batch' else rng.choice([1, 1000]), metrics_factory=rec_factory())
    if rng.random() < 0.3:
        rep = J.CompositeReporter(rep, J.NullReporter())
    tr = J.Tracer('svc', rep, J.ConstSampler(True), metrics_factory=rec_factory())
    new = spans(tr)
    tick = (lambda: w.run_for(0.001)) if what in ('in batch', 'sent', 'failed') else nothing
    if what == 'failed':
        ctx.tap.fault = lambda data, dest: OSError(111, 'refused')

    def grow(n):
        for i in range(n):
            new().finish()
            if i % 20 == 0:
                tick()
                if what in ('sent', 'failed'):
                    w.run_for(1.1)
        del ctx.tap.sent[:], ctx.tap.attempts[:], ctx.tap.families[:], ctx.tap.could_wait[:]

    def finish(s):
        s.finish()
    ops = {'start': (nothing, lambda _: new()), 'finish': (new, finish), 'set_tag': (new, lambda s: s.set_tag('a', 1))}
    if tick is not nothing:
        def deliver(s):
            s.finish()
            tick()
        ops['deliver'] = (new, deliver)
    return grow, ops, 40000 if cap > 50 else 20000


def waiting(ctx, w, rng):
    return pipeline(ctx, w, rng, 'waiting')


def in_batch(ctx, w, rng):
    return pipeline(ctx, w, rng, 'in batch')


def dropped(ctx, w, rng):
    return pipeline(ctx, w, rng, 'dropped')


def sent(ctx, w, rng):
    return pipeline(ctx, w, rng, 'sent')


def failed(ctx, w, rng):
    return pipeline(ctx, w, rng, 'failed')


def plain(ctx, rng, **kw):
    return J.Tracer('svc', rng.choice([J.NullReporter, RecReporter])(), J.ConstSampler(True), metrics_factory=rec_factory(), **kw)


def everything(tr, sp):
    """Operations on the span sp()."""
    def inj(fmt, car):
        return lambda s: tr.inject(s.context, fmt, car())
    b = sp()
    return {'set_tag': (sp, lambda s: s.set_tag('k', 'v')), 'log_kv': (sp, lambda s: s.log_kv({'k': 'v'})), 'baggage': (sp, lambda s: s.set_baggage_item('k', 'v')),
            'get_baggage': (sp, lambda s: s.get_baggage_item('k')), 'child': (sp, lambda s: tr.start_span('c', child_of=s)),
            'follows': (sp, lambda s: tr.start_span('c', references=J.Reference(J.ReferenceType.FOLLOWS_FROM, s.context))),
            'inject': (sp, inj(J.Format.TEXT_MAP, dict)), 'inject binary': (sp, inj(J.Format.BINARY, bytearray)), 'name': (sp, lambda s: s.set_operation_name('n')),
            'priority': (sp, lambda s: s.set_tag('sampling.priority', 1)), 'active': (nothing, lambda _: tr.start_active_span('a').close()), 'other': (lambda: b, lambda s: s.is_sampled())}


def open_spans(ctx, w, rng):
    tr = plain(ctx, rng)
    live = [tr.start_span('op')]

    def grow(n):
        live.extend(tr.start_span('op', ignore_active_span=True) for _ in range(n))
    ops = {'start': (nothing, lambda _: tr.start_span('op')), 'finish': (lambda: live.pop(rng.randrange(len(live))), lambda s: s.finish())}
    return grow, dict(everything(tr, lambda: live[rng.randrange(len(live))]) if rng.random() < 0.7 else {}, **ops), 20000


def annotations(ctx, w, rng):
    tr = plain(ctx, rng)
    how = pick(ctx, ['tags', 'logs', 'baggage', 'same tag', 'names', 'mixed'])
    s = tr.start_span('op')
    ctx.notes.update(how=how)

    def grow(n):
        for i in range(n):
            k = how if how != 'mixed' else rng.choice(['tags', 'logs', 'baggage', 'names'])
            if k == 'tags':
                s.set_tag('k%d' % i, i)
            elif k == 'same tag':
                s.set_tag('k', i)
            elif k == 'logs':
                s.log_kv({'e': i})
            elif k == 'baggage':
                s.set_baggage_item('k', 'v%d' % i)
            else:
                s.set_operation_name('n%d' % i)
    return grow, everything(tr, lambda: s), 60000


def generations(ctx, w, rng):
    tr = plain(ctx, rng, one_span_per_rpc=rng.random() < 0.3)
    last = [tr.start_span('op')]
    how = pick(ctx, ['child_of', 'follows', 'baggage', 'carrier', 'finished'])
    ctx.notes.update(how=how)

    def grow(n):
        for _ in range(n):
            p = last[0]
            if how == 'carrier':
                car = {}
                tr.inject(p.context, 'text_map', car)
                last[0] = tr.start_span('c', child_of=tr.extract('text_map', car), tags={'span.kind': 'server'})
            elif how == 'follows':
                last[0] = tr.start_span('c', references=J.Reference(J.ReferenceType.FOLLOWS_FROM, p.context))
            else:
                last[0] = tr.start_span('c', child_of=p)
            if how == 'baggage':
                last[0].set_baggage_item('k', 'v')
            if how == 'finished':
                p.finish()
    return grow, everything(tr, lambda: last[0]), 40000


def siblings(ctx, w, rng):
    tr = plain(ctx, rng)
    root = tr.start_span('op')
    kids = []

    def grow(n):
        kids.extend(tr.start_span('c', child_of=root) for _ in range(n))
        for k in kids[::2]:
            k.finish()
    return grow, dict(everything(tr, lambda: root), finish=(lambda: tr.start_span('c', child_of=root), lambda s: s.finish())), 20000


def strategies(n, rate=0.5, lower=1):
    return {'defaultSamplingProbability': 0.5, 'defaultLowerBoundTracesPerSecond': lower,
            'perOperationStrategies': [{'operation': 'op%d' % i, 'probabilisticSampling': {'samplingRate': rate}} for i in range(n)]}


def operations(ctx, w, rng):
    """Many operation names pass a per-operation sampler; some are beyond its limit."""
    limit = pick(ctx, [10, 1000, 1000000])
    s = J.AdaptiveSampler(strategies(0), limit)
    tr = J.Tracer('svc', J.NullReporter(), s, metrics_factory=rec_factory())
    n = [0]

    def fresh(_=None):
        n[0] += 1
        return 'op%d' % n[0]

    def grow(k):
        for _ in range(k):
            tr.start_span(fresh(), ignore_active_span=True)
        w.clock.advance(1)
    ops = {'known': (nothing, lambda _: tr.start_span('op1')), 'last': (nothing, lambda _: tr.start_span('op%d' % n[0])), 'new': (fresh, lambda o: tr.start_span(o)),
           'sampler': (nothing, lambda _: s.is_sampled(12345, 'op5'))}
    return grow, ops, 40000


def debug_names(ctx, w, rng):
    """Many operation names ask the throttler."""
    th = J.RemoteThrottler(virtual_sender(w), 'svc', refresh_interval=10000, metrics_factory=rec_factory())
    tr = J.Tracer('svc', J.NullReporter(), J.ConstSampler(False), throttler=th, metrics_factory=rec_factory())
    n = [0]

    def debug(o):
        tr.start_span(o, ignore_active_span=True).set_tag('sampling.priority', 1)

    def fresh():
        n[0] += 1
        return 'op%d' % n[0]

    def grow(k):
        for _ in range(k):
            debug(fresh())
    return grow, {'known': (nothing, lambda _: debug('op1')), 'new': (fresh, debug), 'plain': (nothing, lambda _: tr.start_span('x'))}, 40000


def polls(ctx, w, rng):
    """Many polls for strategies and credits."""
    kind = rng.choice(['probabilistic', 'ratelimiting', 'operations', 'bad', 'mixed'])
    ctx.notes.update(kind=kind)

    def respond(path, *a):
        k = kind if kind != 'mixed' else rng.choice(['probabilistic', 'ratelimiting', 'operations', 'bad'])
        if path == 'throttling':
            return json.dumps({'balances': [{'operation': 'x', 'balance': 1}]}).encode()
        if k == 'bad':
            return b'{'
        if k == 'operations':
            return json.dumps({'operationSampling': strategies(3, rng.random())}).encode()
        if k == 'ratelimiting':
            return json.dumps({'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': {'maxTracesPerSecond': rng.randint(1, 400)}}).encode()
        return json.dumps({'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': rng.random()}}).encode()
    from checks.c20_config import Http
    with Http(w, lambda path, q: respond('sampling' if path == '/sampling' else 'throttling')) as http:
        tr = J.Config({'sampling_refresh_interval': 1, 'throttler': {'port': 5779, 'refresh_interval': 1}, 'logging': rng.random() < 0.5, 'local_agent': {'reporting_host': '127.0.0.1'}},
                      service_name='s', validate=True, metrics_factory=rec_factory()).new_tracer(io_loop=w.io_loop)
        w.run_for(3)

        def grow(n):
            w.run_for(n)
            del http.reqs[:]
        ops = {'start': (nothing, lambda _: tr.start_span('x', ignore_active_span=True)), 'finish': (spans(tr), lambda s: s.finish()),
               'debug': (spans(tr), lambda s: s.set_tag('sampling.priority', 1)), 'poll': (nothing, lambda _: w.run_for(1.0))}
        yield grow, ops, 3000


def log_lines(ctx, w, rng):
    er = J.ErrorReporter(J.Metrics(), logging.getLogger('jv.none'), rng.choice([0, 1, 15]))

    def grow(n):
        for i in range(n):
            er.error('m%d', i)
            if i % 100 == 0:
                w.clock.advance(rng.choice([0, 30, 1000]))
    return grow, {'error': (nothing, lambda _: er.error('x')), 'error 2': (nothing, lambda _: er.error('x %s', 1))}, 20000


def series(ctx, w, rng):
    """Many metrics, each requested many times."""
    import prometheus_client
    reg = prometheus_client.REGISTRY
    before = set(reg._collector_to_names)
    many = pick(ctx, ['values', 'requests', 'increments'])
    f = J.PrometheusMetricsFactory(namespace='jvcost') if ctx.index // len(DIMS) % 4 != 3 else J.LegacyMetricsFactory(J.Metrics(count=lambda k, v: None, gauge=lambda k, v: None))
    n = [0]
    inc = f.create_counter('c0', {'a': 'x'})
    ctx.notes.update(many=many)

    def grow(k):
        for _ in range(k):
            n[0] += 1
            if many == 'values':
                f.create_counter('c0', {'a': str(n[0])})(1)
            elif many == 'increments':
                inc(1)
            else:
                f.create_counter('c0', {'a': 'x'})(1)
    ops = {'request': (nothing, lambda _: f.create_counter('c0', {'a': 'x'})), 'inc': (nothing, lambda _: inc(1)), 'gauge': (nothing, lambda _: f.create_gauge('g', {'a': 'x'})(1))}
    try:
        yield grow, ops, 40000 if many != 'values' else 10000
    finally:
        for c in set(reg._collector_to_names) - before:
            reg.unregister(c)


def tracers(ctx, w, rng):
    """Many tracers in the process, kept, closed or forgotten."""
    keep = []
    how = rng.choice(['kept', 'closed', 'forgotten'])
    first = plain(ctx, rng)
    ctx.notes.update(how=how)

    def build(_=None):
        t = plain(ctx, rng)
        t.start_span('a').finish()
        if how == 'closed':
            t.close()
        if how != 'forgotten':
            keep.append(t)
        return t

    def grow(n):
        for _ in range(n):
            build()
    return grow, dict(everything(first, lambda: first.start_span('x')), build=(nothing, build), start=(nothing, lambda _: first.start_span('a')),
                      finish=(spans(first), lambda s: s.finish())), 1500


def idle(ctx, w, rng):
    """A long time without work."""
    make = rng.choice([lambda: J.RateLimitingSampler(rng.choice([0.1, 1, 100])), lambda: J.GuaranteedThroughputProbabilisticSampler('op', 2, 0.001),
                       lambda: J.AdaptiveSampler(strategies(3, 0.001, 2), 10)])
    tr = J.Tracer('svc', J.NullReporter(), make(), metrics_factory=rec_factory())
    er = J.ErrorReporter(J.Metrics(), logging.getLogger('jv.none'), 15)
    unit = rng.choice([10, 1000, 1e5])

    def grow(n):
        w.clock.advance(n * unit)
    ops = {'start': (lambda: grow(seen[0]), lambda _: tr.start_span('op1')), 'error': (lambda: grow(seen[0]), lambda _: er.error('x'))}
    seen = [0]

    def more(n):
        seen[0] = n
        grow(n)
    return more, ops, 20000


DIMS = [waiting, in_batch, dropped, sent, failed, open_spans, annotations, annotations, generations, generations, siblings, operations, operations, debug_names, polls, log_lines, series, series, tracers, idle]


def history(ctx):
    rng = ctx.rng
    dim = DIMS[ctx.index % len(DIMS)]
    ctx.notes.update(dimension=dim.__name__)
    with World() as w, Tap() as ctx.tap:
        made = dim(ctx, w, rng)
        gen_ = None
        if not isinstance(made, tuple):
            gen_, made = made, next(made)
        grow, ops, n = made
        try:
            few = 100
            grow(few)
            a = measure(ops)
            grow(n)
            b = measure(ops)
            for name in ops:
                ctx.event()
                (s0, t0), (s1, t1) = a[name], b[name]
                if s1 > 3 * s0 + 400:
                    ctx.fail('steps-grow', '%s takes %d interpreter steps after %d units of history (%s), and %d after %d more' % (name, s0, few, dim.__name__, s1, n), before=a, after=b)
                if t1 > 4 * t0 + 20000:
                    again = min(t1, measure({name: ops[name]}, 60)[name][1])
                    ctx.count('remeasured')
                    if again > 4 * t0 + 20000:
                        ctx.fail('time-grows', '%s takes %.1f us of CPU after %d units of history (%s), and %.1f us after %d more' % (name, t0 / 1e3, few, dim.__name__, again / 1e3, n), before=a, after=b)
                ctx.count('steps', s1)
            ctx.count(dim.__name__)
        finally:
            if gen_ is not None:
                gen_.close()
    ctx.key(dim.__name__, repr(sorted(ctx.notes.items(), key=repr)), rng.random() < 0)
    ctx.sample({'dimension': dim.__name__, 'units': n, 'steps and ns': {k: [list(a[k]), list(b[k])] for k in ops}})


# ---- size of one input -----------------------------------------------------------------------------

CHARS = ['0', 'f', ':', ',', '=', '%', '%2', '%41', ' ', 'a=', 'a=b,', '1:', '-', '\t', '\0', 'é', '\U0001f600', '\\', '"', ';', '1-', 'x']


def inputs(ctx):
    """The time for one input is in proportion to its size."""
    rng = ctx.rng
    unit = rng.choice(CHARS)
    if rng.random() < 0.4:
        unit = ''.join(rng.choice(CHARS) for _ in range(rng.randint(2, 4)))
    head, tail = rng.choice(['', '', '1:', '0', 'a=', '%']), rng.choice(['', '', '!', ':1', 'g', '=', '%'])
    # the client's codecs decode values as URLs or not
    enc = rng.random() < 0.5
    small = rng.choice([4000, 8000, 8000, 60000])
    several = rng.random() < 0.5
    cut = rng.choice([0, 0, 1, 1000])
    with World() as w, Tap() as tap:
        send = virtual_sender(w)
        rep = J.Reporter(channel=send, queue_capacity=1000000, batch_size=rng.choice([1, 10, 1000]), metrics_factory=rec_factory())
        tr = J.Tracer('svc', rng.choice([rep, J.InMemoryReporter()]), J.ConstSampler(True), metrics_factory=rec_factory(), max_tag_value_length=rng.choice([10, 1024, 10000000]))
        codec = J.TextCodec(url_encoding=enc)
        b3, zip_, bin_ = J.B3Codec(), J.ZipkinCodec(), J.BinaryCodec()

        def text(n):
            return head + unit * (n // len(unit)) + tail

        def many(n):
            return ['k%d' % i + unit for i in range(n // 20)]

        def safe(f, *a):
            try:
                return f(*a)
            except (J.SpanContextCorruptedException, J.InvalidCarrierException, ValueError, TypeError):
                return None

        def span():
            return tr.start_span('op', ignore_active_span=True)

        def binary(n):
            k = [gen.word(rng) + str(i) for i in range(n // 20)] if several else ['a' * n]
            c = J.SpanContext(1, 2, 3, 1, {x: 'v' for x in k})
            out = bytearray()
            bin_.inject(c, out)
            return out

        def items(n):
            # items of the least size, and as many as fit; the last of them may be cut
            size = 1 if several and small < 10000 else 0
            item = struct.pack('>I', size) + b'k' * size + struct.pack('>I', size) + b'v' * size
            k = n // len(item)
            return bytearray(struct.pack('>QQQQBI', 0, 1, 2, 3, 1, k + cut) + item * k)

        def send_batch(n):
            s = []
            for _ in range(n // 100):
                x = span()
                x.set_tag('a', 'b')
                s.append(x)
            return s

        def deliver(s):
            for x in s:
                x.finish()
            w.run_for(3)
            del tap.sent[:], tap.attempts[:], tap.families[:], tap.could_wait[:]

        def strategy(n):
            return strategies(n // 20, rng.random())
        ad = J.AdaptiveSampler(strategies(3), 100000)
        WHAT = ['id', 'baggage', 'names', 'many', 'b3', 'b3 names', 'zipkin', 'binary', 'binary items', 'binary cut', 'tag', 'log', 'operation', 'baggage item', 'error', 'many tags', 'many baggage',
 'batch', 'burst', 'strategy', 'debug', 'bytes tag', 'exception', 'encode many', 'references', 'jaeger-baggage', 'baggage list']
        what = WHAT[ctx.index % len(WHAT)]
        ops = {
            'id': (lambda n: {'uber-trace-id': text(n)}, lambda c: safe(codec.extract, c)),
            'baggage': (lambda n: {'uber-trace-id': '1:2:3:1', 'uberctx-k': text(n)}, lambda c: safe(codec.extract, c)),
            'jaeger-baggage': (lambda n: {'jaeger-baggage': text(n)}, lambda c: safe(codec.extract, c)),
            'baggage list': (lambda n: {'jaeger-baggage': ','.join('%s=%s' % (k, unit if enc else 'v') for k in many(2 * n))}, lambda c: safe(codec.extract, c)),
            'names': (lambda n: {'uber-trace-id': '1:2:3:1', 'uberctx-' + text(n): 'v', text(n): 'x'}, lambda c: safe(codec.extract, c)),
            'many': (lambda n: dict({'uber-trace-id': '1:2:3:1'}, **{'uberctx-' + k: 'v' for k in many(n)}), lambda c: safe(codec.extract, c)),
            'debug': (lambda n: {'jaeger-debug-id': text(n)}, lambda c: tr.start_span('x', child_of=codec.extract(c))),
            'b3': (lambda n: {'X-B3-TraceId': text(n), 'X-B3-SpanId': text(n), 'X-B3-ParentSpanId': text(n), 'X-B3-Flags': text(n), 'X-B3-Sampled': text(n)}, lambda c: safe(b3.extract, c)),
            'b3 names': (lambda n: dict({'x-b3-traceid': '1', 'x-b3-spanid': '2'}, **{k: 'v' for k in many(n)}), lambda c: safe(b3.extract, c)),
            'zipkin': (lambda n: dict({'trace_id': 1, 'span_id': 2, 'parent_id': 3, 'traceflags': 1}, **{k: 'v' for k in many(n)}), lambda c: safe(zip_.extract, c)),
            'binary': (binary, lambda c: safe(bin_.extract, c)),
            'binary items': (items, lambda c: safe(bin_.extract, c)),
            'binary cut': (lambda n: binary(n)[:n // 2], lambda c: safe(bin_.extract, c)),
            'tag': (lambda n: (span(), text(n)), lambda a: (a[0].set_tag('k', a[1]), deliver([a[0]]))),
            'bytes tag': (lambda n: (span(), text(n).encode()), lambda a: (a[0].set_tag('k', a[1]), deliver([a[0]]))),
            'log': (lambda n: (span(), text(n)), lambda a: (a[0].log_kv({'k': a[1], 'event': a[1]}), deliver([a[0]]))),
            'error': (lambda n: (span(), text(n)), lambda a: (a[0].error(a[1], a[1]), deliver([a[0]]))),
            'operation': (lambda n: (span(), text(n)), lambda a: (a[0].set_operation_name(a[1]), deliver([a[0]]))),
            'baggage item': (lambda n: (span(), text(n)), lambda a: (a[0].set_baggage_item('k', a[1]), codec.inject(a[0].context, {}), bin_.inject(a[0].context, bytearray()), deliver([a[0]]))),
            'many tags': (lambda n: (span(), n // 20), lambda a: ([a[0].set_tag('k%d' % i, i) for i in range(a[1])], deliver([a[0]]))),
            'many baggage': (lambda n: (J.SpanContext(1, 2, 3, 1, {k: 'v' for k in many(n)}),),
                             lambda a: (codec.inject(a[0], {}), bin_.inject(a[0], bytearray()), [tr.start_span('c', child_of=a[0]) for _ in range(3)])),
            'encode many': (lambda n: (J.SpanContext(1, 2, 3, 1, {k: text(30) for k in many(n)}),), lambda a: codec.inject(a[0], {})),
            'batch': (send_batch, deliver),
            'burst': (lambda n: send_batch(min(12 * n, n + 100000)), deliver),
            'strategy': (strategy, lambda s: (ad.update(s), J.AdaptiveSampler(s, 100000))),
            'references': (lambda n: [J.Reference(J.ReferenceType.FOLLOWS_FROM, J.SpanContext(i + 1, 2, 3, 1)) for i in range(n // 20)],
                           lambda r: deliver([tr.start_span('x', references=r)])),
            'exception': (lambda n: (span(), ValueError(text(n))), lambda a: (a[0].__exit__(ValueError, a[1], None), deliver([]))),
        }
        make, op = ops[what]
        ctx.notes.update(what=what, unit=unit, head=head, tail=tail, url_encoding=enc, size=small)
        few, large = [], []
        for _ in range(6):
            few.append(cpu(op, make(small)))
            large.append(cpu(op, make(8 * small)))
            if large[-1] > 5e8:
                break
        a, b = min(few), min(large)
        if b > 24 * a + 3000000:
            for _ in range(10 if b < 1e9 else 2):
                few.append(cpu(op, make(small)))
                large.append(cpu(op, make(8 * small)))
            a, b = min(few), min(large)
            ctx.count('remeasured')
            if b > 24 * a + 3000000:
                ctx.fail('time-not-in-proportion', '%s: %.2f ms of CPU for size %d, %.2f ms for size %d' % (what, a / 1e6, small, b / 1e6, 8 * small))
        ctx.event()
        ctx.count('ratio_below_%d' % (6 if b < 6 * a else 12 if b < 12 * a else 24 if b < 24 * a else 1000))
    ctx.key(what, unit, head, tail, enc, small)
    ctx.sample({'what': what, 'small': a, 'large': b})


SCENARIOS = [
    Scenario('history', history, 24, 400, need=('events', 'steps'), limit=200),
    Scenario('inputs', inputs, 120, 3000, need=('events',), limit=200),
]
