"""C17: debug ids and sampling priorities always do what they say."""
import random
import urllib.parse

from jv import gen, sched
from jv.runner import Scenario
from jv.world import J, RecReporter

ID = 'C17'
RULE = ('random programs of priorities of any type, children in process and across every codec, renames and finishes, with scripted throttlers, '
        'judged by a two-bit model and the record of throttler calls; debug ids under every header configuration and carrier; '
        'concurrent priorities under the controlled scheduler; distinct by program')
ASSUMPTIONS = ['priorities that are negative, fractional below one, or numbers written as text are not judged',
               'a throttled debug request leaves the trace to start undebugged, its ordinary sampling is not judged']

ON = [1, 2, 7, True, 1.0, 2 ** 70, gen.Int(3), gen.Float(5.0), gen.Color.RED]
OFF = [0, 0.0, False, -0.0, gen.Int(0)]
NOT_NUMBERS = [None, '', 'high', 'one', b'x', [], [1], {}, {'a': 1}, (), (1,), {1}, object(), object, float('nan'), float('inf'), float('-inf'), 1j, gen.Weird('w'), gen.Raises(),
               ValueError('x'), len]


class Scripted(object):
    """Throttler (public duck type) with a recorded, scripted answer per call."""

    def __init__(self, rng, p):
        self.rng, self.p = rng, p
        self.calls = []

    def set_client_id(self, client_id):
        pass

    def is_allowed(self, operation):
        a = self.rng.random() < self.p
        self.calls.append((operation, a))
        return a

    def close(self):
        pass


def state(sp):
    f = sp.context.flags
    return bool(f & 1), bool(f & 2)


CARRIERS = ['process', 'span', 'text', 'http', 'binary', 'b3', 'ref']


def child(ctx, tr, rng, sp, op, tags):
    how = rng.choice(CARRIERS)
    if how == 'process':
        return how, tr.start_span(op, child_of=sp.context, tags=tags)
    if how == 'span':
        return how, tr.start_span(op, child_of=sp, tags=tags)
    if how == 'ref':
        import opentracing
        return how, tr.start_span(op, references=[opentracing.follows_from(sp.context)], tags=tags)
    fmt = {'text': J.Format.TEXT_MAP, 'http': J.Format.HTTP_HEADERS, 'binary': J.Format.BINARY, 'b3': 'b3'}[how]
    car = bytearray() if how == 'binary' else {}
    if how == 'b3':
        J.B3Codec(generate_128bit_trace_id=True).inject(sp.context, car)
        got = J.B3Codec(generate_128bit_trace_id=True).extract(car)
    else:
        tr.inject(sp.context, fmt, car)
        got = tr.extract(fmt, car)
    return how, tr.start_span(op, child_of=got, tags=tags)


def priorities(ctx):
    rng = ctx.rng
    thr = Scripted(rng, rng.choice([0, 0.3, 0.7, 1])) if rng.random() < 0.7 else None
    tr = J.Tracer('svc', RecReporter(), J.ConstSampler(rng.random() < 0.5), throttler=thr)
    prog = []
    sp = tr.start_span('root', ignore_active_span=True)
    live = [[sp, state(sp), 'root']]
    ctx.notes.update(program=prog)
    base = state(sp)
    ctx.check(not base[1], 'debug-unasked', 'a fresh root is debug')

    def set_priority(ent, v, apply):
        sp, (s, d), op = ent
        n = len(thr.calls) if thr else 0
        apply(v)
        calls = thr.calls[n:] if thr else []
        got = state(sp) if sp is not None else None
        if any(v is x for x in OFF):
            want = (False, False)
            ctx.check(not calls, 'credit-spent', 'priority %r asked the throttler: %r' % (v, calls))
            ctx.count('off')
        elif any(v is x for x in ON):
            if d:
                want = (s, d)
                ctx.check(not calls, 'credit-spent', 'priority %r on a debug span asked the throttler: %r' % (v, calls))
                ctx.count('repeated')
            elif thr:
                ctx.check(len(calls) == 1, 'credit-spent', 'priority %r made %d throttler calls' % (v, len(calls)))
                ctx.check(calls[0][0] == op, 'credit-spent', 'priority of %r asked for %r' % (op, calls[0][0]))
                want = (True, True) if calls[0][1] else (s, d)
                ctx.count('on' if calls[0][1] else 'throttled')
            else:
                want = (True, True)
                ctx.count('on')
        else:
            want = (s, d)
            ctx.check(not calls, 'credit-spent', 'the meaningless priority %r asked the throttler: %r' % (v, calls))
            ctx.count('ignored')
        return want, got

    for _ in range(rng.randint(3, 25)):
        ent = rng.choice(live)
        sp = ent[0]
        r = rng.random()
        v = rng.choice(rng.choice([ON, ON, OFF, NOT_NUMBERS]))
        if r < 0.55:
            prog.append(('priority', live.index(ent), repr(v)))
            tags = [t.key for t in sp.tags].count('sampling.priority')
            debug = ent[1][1]
            want, _ = set_priority(ent, v, lambda x: sp.set_tag('sampling.priority', x))
            more = [t.key for t in sp.tags].count('sampling.priority') - tags
            ctx.check(more == (1 if want[1] and not debug else 0), 'priority-tag', 'priority %r left %d tags, (sampled, debug) went from %r to %r' % (v, more, ent[1], want))
            ctx.check(state(sp) == want, 'priority', 'priority %r made (sampled, debug) %r, expected %r from %r' % (v, state(sp), want, ent[1]))
            ent[1] = want
        elif r < 0.85:
            op = rng.choice(['c1', 'c2', ''])
            if rng.random() < 0.3:
                new = [None, ent[1], op]
                box = []
                n = len(thr.calls) if thr else 0

                def start(x):
                    # the other tags of the new span do not matter
                    t = {'a': 1, 'sampling.priority': x, 'b': 2}
                    how, c = child(ctx, tr, rng, sp, op, t)
                    box.append((how, c))
                want, _ = set_priority(new, v, start)
                how, c = box[0]
                del n
            else:
                how, c = child(ctx, tr, rng, sp, op, None)
                want = ent[1]
            prog.append(('child', live.index(ent), how))
            ctx.check(state(c) == want, 'child', 'a child (%s) has (sampled, debug) %r, expected %r' % (how, state(c), want))
            live.append([c, want, op])
            ctx.count('children')
        elif r < 0.93:
            ent[2] = rng.choice(['renamed', 'again'])
            sp.set_operation_name(ent[2])
            prog.append(('rename', live.index(ent)))
        else:
            n = len(tr.reporter.spans)
            if not sp.finished:
                sp.finish()
                ctx.check((len(tr.reporter.spans) > n) == ent[1][0], 'priority', 'finishing a span with sampled=%s reported %d spans' % (ent[1][0], len(tr.reporter.spans) - n))
                prog.append(('finish', live.index(ent)))
            live.remove(ent)
            if not live:
                break
        # the other spans are as they were
        for e in live:
            ctx.check(state(e[0]) == e[1], 'other-span', 'span %r changed to %r, expected %r' % (e[2], state(e[0]), e[1]))
        ctx.event()
    ctx.key(tuple(prog), thr is None)
    ctx.sample({'throttler': None if thr is None else thr.p, 'program': prog[:8]})


HEADERS = ['jaeger-debug-id', 'X-Debug', 'my_debug_id', 'DBG', 'd']


def recase(rng, s):
    return ''.join(c.upper() if rng.random() < 0.5 else c.lower() for c in s)


def debug_ids(ctx):
    rng = ctx.rng
    thr = Scripted(rng, rng.choice([0, 0.5, 1])) if rng.random() < 0.6 else None
    header = rng.choice(HEADERS)
    sampler_calls = []

    rep = RecReporter()
    kw = {}
    if header != 'jaeger-debug-id' or rng.random() < 0.5:
        kw['debug_id_header'] = header
    tr = J.Tracer('svc', rep, J.ConstSampler(rng.random() < 0.5), throttler=thr, **kw)
    if header != header.lower() or '_' in header or rng.random() < 0.3:
        pass
    for _ in range(rng.randint(1, 6)):
        http = rng.random() < 0.5
        # a codec configured with the tracer's header, as the configuration does
        value = gen.text(rng, 1, 12) if rng.random() < 0.6 else gen.word(rng)
        if rng.random() < 0.2:
            value += rng.choice(['%41', '%c3%a9', '100%25', 'a+b'])
        car = {}
        wire_name = recase(rng, header.lower().replace('_', '-'))
        car[wire_name] = urllib.parse.quote(value, safe='') if http else value
        has_trace = rng.random() < 0.25
        flags = rng.choice([0, 1, 3])
        if has_trace:
            car['uber-trace-id'] = '%x:%x:0:%x' % (gen.id64(rng), gen.id64(rng), flags)
        if rng.random() < 0.3:
            car['uberctx-k'] = 'v'
        if rng.random() < 0.3:
            car['Accept'] = 'text/html'
        items = list(car.items())
        rng.shuffle(items)
        car = dict(items)
        fmt = J.Format.HTTP_HEADERS if http else J.Format.TEXT_MAP
        before = dict(car)
        c = tr.extract(fmt, car)
        ctx.check(car == before, 'carrier-changed', 'extract changed the carrier')
        op = rng.choice(['op', '', None, 'x y'])
        n = len(thr.calls) if thr else 0
        tags = {'span.kind': 'server'} if rng.random() < 0.3 else None
        how = rng.random()
        if how < 0.7:
            sp = tr.start_span(op, child_of=c, tags=tags)
        else:
            import opentracing
            sp = tr.start_span(op, references=opentracing.child_of(c), tags=tags)
        calls = thr.calls[n:] if thr else []
        w = dict(carrier=before, header=header, calls=calls)
        ctx.check(sp.get_baggage_item('k') == car.get('uberctx-k'), 'baggage-lost', 'baggage %r beside a debug id, arrived as %r' % (car.get('uberctx-k'), sp.get_baggage_item('k')), **w)
        if tags and sp.is_sampled():
            kinds = [x.vStr for x in sp.tags if x.key == 'span.kind']
            ctx.check(kinds == ['server'], 'tags-lost', 'a span started with the tag span.kind=server beside a debug id has it as %r' % (kinds,), **w)
        got = {t.key.lower().replace('_', '-'): t.vStr for t in sp.tags}
        key = header.lower().replace('_', '-')
        if has_trace:
            s = bool(flags & 1)
            ctx.check(not calls, 'credit-spent', 'a request with trace context asked the throttler', **w)
            ctx.check(state(sp) == (s, bool(flags & 2)), 'context-lost', 'a debug id next to a trace context made %r of flags %d' % (state(sp), flags), **w)
            ctx.count('with_context')
        elif thr and not calls:
            ctx.fail('debug-id', 'a debug id did not ask the throttler', **w)
        elif thr and not calls[0][1]:
            ctx.check(len(calls) == 1, 'credit-spent', '%d throttler calls for one debug id' % len(calls), **w)
            ctx.check(not state(sp)[1], 'debug-id', 'a throttled debug id made a debug span', **w)
            ctx.count('throttled')
        else:
            ctx.check(len(calls) <= 1, 'credit-spent', '%d throttler calls for one debug id' % len(calls), **w)
            ctx.check(not calls or calls[0][0] == (op or ''), 'credit-spent', 'debug id on %r asked for %r' % (op, calls), **w)
            ctx.check(state(sp) == (True, True), 'debug-id', 'a debug id made (sampled, debug) = %r' % (state(sp),), **w)
            ctx.check(got.get(key) == value, 'debug-id-tag', 'the root of a debug id %r has tags %r' % (value, got), **w)
            ctx.check(sp.trace_id > 0 and sp.span_id > 0 and not sp.parent_id, 'debug-id', 'a debug id made ids %r' % ((sp.trace_id, sp.span_id, sp.parent_id),), **w)
            ctx.check(sum(1 for t in sp.tags if t.key.lower().replace('_', '-') == key) == 1, 'debug-id-tag', 'the id is tagged more than once', **w)
            # children are debug, do not carry the id tag, and cost nothing
            m = len(thr.calls) if thr else 0
            _, ch = child(ctx, tr, rng, sp, 'child', None)
            ctx.check(state(ch) == (True, True), 'child', 'the child of a debug trace has %r' % (state(ch),), **w)
            ctx.check(not thr or len(thr.calls) == m, 'credit-spent', 'a child of a debug trace asked the throttler', **w)
            sp.set_tag('sampling.priority', 1)
            ctx.check(not thr or len(thr.calls) == m, 'credit-spent', 'a priority on a debug root asked the throttler', **w)
            k = len(rep.spans)
            sp.finish()
            ctx.check(len(rep.spans) == k + 1, 'debug-id', 'a debug root was not reported', **w)
            ctx.count('forced')
        ctx.event()
    del sampler_calls
    ctx.key(header, repr(before), thr is None)
    ctx.sample({'header': header, 'carrier': before, 'throttler': None if thr is None else thr.p})


def empty_id(ctx):
    """An empty id, or a header by another name, starts an ordinary trace and costs nothing."""
    rng = ctx.rng
    thr = Scripted(rng, 1)
    d = rng.random() < 0.5
    header = rng.choice(HEADERS)
    tr = J.Tracer('svc', RecReporter(), J.ConstSampler(d), throttler=thr, debug_id_header=header)
    name = header.lower().replace('_', '-')
    car = rng.choice([{name: ''}, {name + 'x': 'v'}, {'x' + name: 'v'}, {}, {'uberctx-a': 'b'}, {'uberctx-' + name: 'b'}])
    c = tr.extract(J.Format.TEXT_MAP, dict(car))
    sp = tr.start_span('op', child_of=c)
    ctx.check(state(sp) == (d, False), 'debug-unasked', 'carrier %r made (sampled, debug) %r under the constant sampler %s' % (car, state(sp), d))
    ctx.check(not thr.calls, 'credit-spent', 'carrier %r asked the throttler' % (car,))
    ctx.event()
    ctx.key(header, repr(car), d, rng.random())
    ctx.sample({'header': header, 'carrier': car})


def race(ctx):
    """Concurrent priorities on one span: one credit, and never one bit without the other."""
    rng = ctx.rng
    rng2 = random.Random(rng.getrandbits(32))
    thr = Scripted(rng2, 1)
    tr = J.Tracer('svc', RecReporter(), J.ConstSampler(False), throttler=thr)
    sp = tr.start_span('op', ignore_active_span=True)
    mixed = rng.random() < 0.4
    kids = []
    seen = []

    def setter(v):
        def f():
            sp.set_tag('sampling.priority', v)
            if v and not mixed:
                k = tr.start_span('kid', child_of=sp)
                kids.append(state(k))
        return f

    def reader():
        for _ in range(3):
            seen.append(state(tr.start_span('kid', child_of=sp)))
    fns = [setter(rng.choice([1, True, 3])) for _ in range(rng.choice([2, 3]))]
    if mixed:
        fns.append(setter(0))
    fns.append(reader)
    sc = sched.Scheduler(rng)
    sc.run(fns)
    p = sc.raise_problems()
    if p:
        ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
    for t in sc.threads:
        if t.exc is not None:
            raise t.exc
    w = dict(schedule=sc.schedule[:400], calls=thr.calls)
    ctx.check(all(x in ((True, True), (False, False)) for x in seen + [state(sp)]), 'half-set', 'a state between off and debug was seen: %r' % (seen + [state(sp)],), **w)
    if not mixed:
        ctx.check(len(thr.calls) == 1, 'credit-spent', '%d credits asked for one debug span' % len(thr.calls), **w)
        ctx.check(state(sp) == (True, True), 'priority', 'after concurrent priorities (sampled, debug) = %r' % (state(sp),), **w)
        ctx.check(all(k == (True, True) for k in kids), 'child', 'a child started after the priority has %r' % (kids,), **w)
    else:
        ctx.check(1 <= len(thr.calls) <= 2, 'credit-spent', '%d credits asked for one span switched off at most once' % len(thr.calls), **w)
    ctx.event(len(fns))
    ctx.count('switches', sc.switches)
    ctx.key(tuple(sc.schedule), mixed)
    ctx.sample({'threads': len(fns), 'mixed': mixed, 'calls': len(thr.calls), 'switches': sc.switches})


SCENARIOS = [
    Scenario('priorities', priorities, 1500, 50000, need=('events', 'on', 'off', 'ignored', 'throttled', 'repeated', 'children')),
    Scenario('debug_ids', debug_ids, 1000, 30000, need=('events', 'with_context', 'throttled', 'forced')),
    Scenario('empty_id', empty_id, 200, 4000),
    Scenario('race', race, 400, 15000, need=('events', 'switches')),
]
