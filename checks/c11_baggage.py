"""C11: baggage reaches all later descendants, no one else, and no update is lost."""
import urllib.parse
from jv import core, gen, sched
from jv.runner import Scenario
from jv.world import J, RecReporter

ID = 'C11'
RULE = ('random trees of spans over several tracers and carriers with baggage set, overwritten and removed at random points, compared '
        'with a model after every step on every span; and interleavings of updates, children and priority changes on one span under the '
        'controlled scheduler; distinct by program or schedule')
ASSUMPTIONS = ['baggage keys are text equal to their lower-case form, values are text']

KEYS = ['a', 'b', 'user-id', 'k1', 'x.y', 'session', 'é', 'a b']


def value(rng):
    return rng.choice(['', 'v', gen.text(rng), gen.word(rng), '0', 'None'])


def tree(ctx):
    rng = ctx.rng
    tracers = [J.Tracer('s%d' % i, RecReporter(), J.ConstSampler(rng.random() < 0.6)) for i in range(2)]
    spans = []       # (span, model dict)
    prog = []

    def verify(where):
        for i, (s, m) in enumerate(spans):
            got = dict(s.context.baggage)
            ctx.check(got == m, 'baggage-wrong', 'span %d has baggage %r, expected %r, after %s' % (i, got, m, where), program=prog[-12:])
            for k in KEYS[:3]:
                ctx.check(s.get_baggage_item(k) == m.get(k), 'baggage-wrong', 'item %r of span %d reads %r, expected %r' % (k, i, s.get_baggage_item(k), m.get(k)))
            ctx.event()
    for _ in range(rng.randint(4, 25)):
        tr = rng.choice(tracers)
        a = rng.random()
        if not spans or a < 0.08:
            spans.append((tr.start_span('root', ignore_active_span=True), {}))
            what = 'root'
        elif a < 0.25:
            i = rng.randrange(len(spans))
            p, m = spans[i]
            how = rng.choice(['span', 'context', 'reference', 'scope'])
            if how == 'span':
                c = tr.start_span('c', child_of=p)
            elif how == 'context':
                c = tr.start_span('c', child_of=p.context)
            elif how == 'reference':
                c = tr.start_span('c', references=[J.Reference(rng.choice([J.ReferenceType.CHILD_OF, J.ReferenceType.FOLLOWS_FROM]), p.context)])
            else:
                with tr.scope_manager.activate(p, False):
                    c = tr.start_span('c')
            if rng.random() < 0.2:
                c.set_tag('sampling.priority', rng.choice([0, 1]))
            spans.append((c, dict(m)))
            what = 'child of %d via %s' % (i, how)
        elif a < 0.4:
            i = rng.randrange(len(spans))
            p, m = spans[i]
            fmt = rng.choice([J.Format.TEXT_MAP, J.Format.HTTP_HEADERS, J.Format.BINARY])
            car = bytearray() if fmt == J.Format.BINARY else {}
            tracers[0].inject(p, fmt, car)
            c = tr.start_span('r', child_of=tr.extract(fmt, car))
            spans.append((c, dict(m)))
            what = 'remote child of %d via %s' % (i, fmt)
        elif a < 0.46:
            kv = {rng.choice(['k1', 'k2', 'k3']): rng.choice([gen.word(rng), gen.word(rng) + '%41', '%c3%a9' + gen.word(rng), '50%25', gen.word(rng) + '\xe9']) for _ in range(rng.randint(1, 3))}
            fmt = rng.choice([J.Format.TEXT_MAP, J.Format.HTTP_HEADERS])
            # in HTTP headers values are URL-encoded, in a text map they are taken as they are
            if fmt == J.Format.HTTP_HEADERS:
                car = {'Jaeger-Baggage': ', '.join('%s=%s' % (k, urllib.parse.quote(v, safe='')) for k, v in kv.items())}
            else:
                car = {'Jaeger-Baggage': ', '.join('%s=%s' % x for x in kv.items())}
            ctx.count('adhoc')
            m = dict(kv)
            if rng.random() < 0.4:
                car['uberctx-own'] = 'o'
                m['own'] = 'o'
            if rng.random() < 0.4:
                car['jaeger-debug-id'] = 'dbg'
            if rng.random() < 0.3:
                car['uber-trace-id'] = '%x:%x:0:%x' % (gen.trace_id(rng), gen.id64(rng), gen.flags(rng))
            items = list(car.items())
            rng.shuffle(items)
            x = tr.extract(fmt, dict(items))
            spans.append((tr.start_span('adhoc', child_of=x), m))
            what = 'ad-hoc baggage header'
        else:
            i = rng.randrange(len(spans))
            s, m = spans[i]
            k = rng.choice(KEYS)
            if rng.random() < 0.25:
                s.set_baggage_item(k, None)
                m.pop(k, None)
                what = 'remove %s on %d' % (k, i)
            else:
                v = value(rng)
                r = s.set_baggage_item(k, v)
                ctx.check(r is s, 'no-chaining', 'set_baggage_item returns %r' % (r,))
                m[k] = v
                what = 'set %s on %d' % (k, i)
        if rng.random() < 0.05 and spans:
            rng.choice(spans)[0].finish()
        prog.append(what)
        verify(what)
    ctx.key(tuple(prog))
    ctx.sample({'spans': len(spans), 'program': prog[:8]})


def race(ctx):
    """Concurrent updates on one span: none is lost, and none undoes a priority change."""
    rng = ctx.rng
    core.set_clock(core.Clock())
    sampled = rng.random() < 0.5
    tr = J.Tracer('svc', RecReporter(), J.ConstSampler(sampled))
    span = tr.start_span('x')
    base = {}
    for k in rng.sample(KEYS, rng.randint(0, 3)):
        span.set_baggage_item(k, 'old')
        base[k] = 'old'
    before = span.context
    prio = rng.choice([None, None, 0, 1, 1, 'junk'])
    fns, expect, plans = [], dict(base), []
    n = rng.choice([2, 2, 3])
    for t in range(n):
        plan = []
        for j in range(rng.randint(1, 3)):
            k = 't%d-%d' % (t, j)
            plan.append((k, 'v%d' % j))
            expect[k] = 'v%d' % j
        if base and rng.random() < 0.4:
            k = sorted(base)[t % len(base)]
            if expect.get(k) == 'old':
                plan.append((k, None))
                expect.pop(k)
        plans.append(plan)

        def f(plan=plan):
            for k, v in plan:
                span.set_baggage_item(k, v)
        fns.append(f)
    kids = []
    if prio is not None:
        fns.append(lambda: span.set_tag('sampling.priority', prio))
    if rng.random() < 0.5:
        def starter():
            for _ in range(3):
                kids.append(tr.start_span('kid', child_of=span))
                car = {}
                tr.inject(span, J.Format.TEXT_MAP, car)
        fns.append(starter)
    sc = sched.Scheduler(rng)
    sc.run(fns)
    p = sc.raise_problems()
    if p:
        ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
    for t in sc.threads:
        if t.exc is not None:
            raise t.exc
    ctx.notes.update(schedule=sc.schedule[:300], plans=plans, priority=prio)
    got = dict(span.context.baggage)
    ctx.check(got == expect, 'update-lost', 'after concurrent updates the baggage is %r, expected %r' % (got, expect))
    flags = {0: 0, 1: 3}.get(prio, 1 if sampled else 0)
    ctx.check(span.flags == flags and span.context.flags == flags, 'priority-undone',
              'flags are %d after priority %r, expected %d' % (span.flags, prio, flags))
    ctx.check(dict(before.baggage) == base, 'context-changed', 'a context taken before the updates now has baggage %r' % dict(before.baggage))
    # each child has, per thread, a prefix of its updates, and later children at least as much
    last = [0] * len(plans)
    for c in kids:
        b = dict(c.context.baggage)
        for i, plan in enumerate(plans):
            sets = [(k, v) for k, v in plan if v is not None]
            have = [b.get(k) == v for k, v in sets]
            ctx.check(have == sorted(have, reverse=True), 'not-a-prefix', 'a child has updates %r of %r' % (have, sets))
            ctx.check(sum(have) >= last[i], 'update-lost', 'a later child has fewer updates')
            last[i] = sum(have)
    ctx.event(len(fns))
    ctx.count('switches', sc.switches)
    ctx.key(tuple(sc.schedule), repr(plans), prio)
    ctx.sample({'plans': plans, 'priority': prio, 'children': len(kids), 'switches': sc.switches})


SCENARIOS = [
    Scenario('tree', tree, 1200, 30000),
    Scenario('race', race, 900, 16000, need=('events', 'switches')),
]
