"""C02: a finished span is handed to the reporter exactly once, and only if it is sampled."""
from jv.runner import Scenario
from jv import core, sched
from jv.repwork import shape
from jv.world import J, RecReporter

ID = 'C02'
RULE = ('random programs of start/finish/with/scope operations (nested, raising bodies, repeated and concurrent finishes, '
        'priority changes) checked against a model of which spans must be reported with which end time; a case is '
        'non-trivial if at least one span was finished more than once or through a scope')


class Boom(Exception):
    pass


class SnapReporter(RecReporter):
    """Records each hand-off with the end time visible at that moment."""

    def report_span(self, span):
        with self.lock:
            self.spans.append(span)
            self.calls.append((span, span.end_time, span.start_time, span.operation_name))


def make(ctx, **kw):
    rep = SnapReporter()
    rng = ctx.rng
    p = rng.choice([1.0, 1.0, 0.5])
    sampler = J.ConstSampler(True) if p == 1.0 else J.ProbabilisticSampler(p)
    tr = J.Tracer('svc', rep, sampler, **kw)
    return rep, tr


def sequential(ctx):
    rng = ctx.rng
    clk = core.Clock(1.5e9 + rng.random() * 1e8, 100.0)
    core.set_clock(clk)
    rep, tr = make(ctx)
    expect = []          # (op, end time, start time) in order of the effective finish
    state = {'n': 0, 'multi': 0, 'scopes': 0, 'raised': 0, 'unsampled': 0, 'resampled': 0}
    again = set()
    prog = []
    done = {}

    def tick():
        clk.advance(rng.choice([0.0, 0.001, 0.1, 1.0]))

    def took_effect(span, end):
        """Model of one finish request."""
        op = span.operation_name
        if op in done:
            state['multi'] += 1
            return
        if not (span.context.flags & 1):
            state['unsampled'] += 1
            again.add(op)              # not reported; if it becomes sampled, a later finish is its effective one
            return
        if op in again:
            state['resampled'] += 1
        done[op] = end
        expect.append((op, end, span.start_time))

    def finish(span):
        if rng.random() < 0.4:
            e = rng.choice([clk.wall + 5, clk.wall - 3, clk.wall, 123.5, span.start_time])
            span.finish(e)
            prog.append('finish@')
        else:
            e = clk.wall
            if rng.random() < 0.2:
                span.finish(finish_time=None)
            else:
                span.finish()
            prog.append('finish')
        took_effect(span, e)

    def flip(span):
        if span.operation_name in done:
            # after the finish: must not cause or undo anything
            span.set_tag('sampling.priority', rng.choice([0, 1]))
        else:
            span.set_tag('sampling.priority', rng.choice([0, 1] if span.operation_name in again else [0, 0, 1]))
        prog.append('prio')

    def name():
        state['n'] += 1
        return 'op%d' % state['n']

    spans = []

    def odd():
        return shape(rng, sampled=rng.choice([True, None])) if rng.random() < 0.3 else {}

    def pick(p):
        # now and then a span whose first finish had no effect
        part = [x for x in spans if x.operation_name in again and x.operation_name not in done] if rng.random() < p else []
        return rng.choice(part or spans)

    def block(depth):
        for _ in range(rng.randint(1, 4)):
            tick()
            a = rng.random()
            if a < 0.3:
                s = tr.start_span(name(), ignore_active_span=rng.random() < 0.5, **odd())
                spans.append(s)
                prog.append('start')
            elif a < 0.5 and spans:
                finish(pick(0.3))
            elif a < 0.58 and spans:
                flip(pick(0.5))
            elif depth < 4:
                boom = rng.random() < 0.3
                kind = rng.choice(['with', 'scope', 'scope', 'noclose', 'manual', 'activate'])
                prog.append('%s%s(' % (kind, '!' if boom else ''))
                if boom:
                    state['raised'] += 1
                try:
                    if kind == 'with':
                        s = tr.start_span(name(), **odd())
                        spans.append(s)
                        end = []
                        try:
                            with s:
                                block(depth + 1)
                                tick()
                                end.append(clk.wall)
                                if boom:
                                    raise Boom('x')
                        finally:
                            took_effect(s, clk.wall)
                    elif kind in ('scope', 'noclose'):
                        foc = kind == 'scope'
                        state['scopes'] += 1
                        n = name()
                        try:
                            with tr.start_active_span(n, finish_on_close=foc, **odd()) as sc:
                                s = sc.span
                                spans.append(s)
                                block(depth + 1)
                                tick()
                                if boom:
                                    raise Boom('x')
                        finally:
                            if foc:
                                took_effect(s, clk.wall)
                        if rng.random() < 0.3:
                            sc.close()        # closing it again changes nothing
                    elif kind == 'activate':
                        s = tr.start_span(name(), **odd())
                        spans.append(s)
                        foc = rng.random() < 0.5
                        state['scopes'] += 1
                        try:
                            with tr.scope_manager.activate(s, foc):
                                block(depth + 1)
                                if boom:
                                    raise Boom('x')
                        finally:
                            if foc:
                                took_effect(s, clk.wall)
                    else:
                        sc = tr.start_active_span(name(), **odd())
                        state['scopes'] += 1
                        s = sc.span
                        spans.append(s)
                        try:
                            block(depth + 1)
                            if boom:
                                raise Boom('x')
                        finally:
                            sc.close()
                            took_effect(s, clk.wall)
                except Boom:
                    pass
                prog.append(')')
    block(0)
    tick()
    ctx.notes['program'] = ' '.join(prog)
    ctx.event(len(prog))
    ctx.count('scopes', state['scopes'])
    ctx.count('raised', state['raised'])
    ctx.count('repeated_finishes', state['multi'])
    ctx.count('unsampled_finishes', state['unsampled'])
    ctx.count('finished_after_resampling', state['resampled'])
    got = [(op, end, start) for _, end, start, op in rep.calls]
    ctx.check(not [1 for _, _, _, op in rep.calls if op not in done], 'reported-unfinished', 'a span that was not finished was reported')
    ops = [g[0] for g in got]
    ctx.check(len(set(ops)) == len(ops), 'reported-twice', 'a span was reported more than once: %s' % ops)
    exp = [e[0] for e in expect]
    ctx.check(set(ops) == set(exp), 'wrong-set', 'reported %s, expected %s' % (ops, exp))
    ctx.check(ops == exp, 'wrong-order', 'reported %s, expected %s' % (ops, exp))
    for (op, end, start), (_, e2, s2) in zip(got, expect):
        ctx.check(end == e2, 'end-time', 'span %s reported with end time %r, finished at %r' % (op, end, e2))
        ctx.check(start == s2, 'start-time', 'span %s start time changed' % op)
    # an unsampled span that was finished once is never reported by that finish
    for sp, end, _, op in rep.calls:
        if op in done:
            ctx.check(sp.end_time == end, 'end-time-changed', 'end time of %s changed after it was reported' % op)
    if state['multi'] or state['scopes']:
        ctx.key(tuple(prog), tuple(exp))
    ctx.sample({'program': ' '.join(prog)[:300], 'reported': exp[:10]})


def unsampled(ctx):
    """Spans of unsampled traces are never reported, whatever is done to them short of forcing sampling."""
    rng = ctx.rng
    rep = SnapReporter()
    tr = J.Tracer('svc', rep, J.ConstSampler(rng.random() < 0.5))
    spans = []
    expect = []
    for i in range(rng.randint(2, 15)):
        par = rng.choice(spans) if spans and rng.random() < 0.6 else None
        s = tr.start_span('op%d' % i, **(dict(child_of=par) if par or rng.random() < 0.5 else shape(rng, sampled=None)))
        if rng.random() < 0.3:
            s.set_tag('sampling.priority', 0)
        s.set_tag('a', 1)
        s.log_kv({'e': 1})
        s.set_baggage_item('k', 'v')
        spans.append(s)
    for s in spans:
        if rng.random() < 0.7:
            samp = s.is_sampled()
            for _ in range(rng.choice([1, 1, 2, 3])):
                if rng.random() < 0.5:
                    s.finish()
                else:
                    s.__exit__(None, None, None)
            if samp:
                expect.append(s.operation_name)
            else:
                ctx.count('unsampled')
    got = [c[3] for c in rep.calls]
    ctx.event(len(spans))
    ctx.check(got == expect, 'wrong-set', 'reported %s, expected %s' % (got, expect))
    ctx.key(tuple(got), len(spans))
    ctx.sample({'spans': len(spans), 'reported': len(got)})


def race(ctx):
    """Concurrent finishes of the same spans."""
    rng = ctx.rng
    clk = core.Clock(1.5e9, 100.0)
    core.set_clock(clk)
    rep = SnapReporter()
    tr = J.Tracer('svc', rep, J.ConstSampler(True))
    ns = rng.choice([1, 1, 2])
    spans = [tr.start_span('op%d' % i, **(shape(rng) if rng.random() < 0.3 else {})) for i in range(ns)]
    nt = rng.choice([2, 2, 3, 4])
    times = [[1.5e9 + 10 * t + i + 1 for i in range(ns)] for t in range(nt)]
    fns = []
    for t in range(nt):
        ops = []
        for i in range(ns):
            ops.append((rng.choice(['finish', 'finish', 'exit']), i))
            if rng.random() < 0.3:
                ops.append((rng.choice(['tag', 'log', 'finish', 'bag']), i))
        rng.shuffle(ops)

        def f(ops=ops, t=t):
            for kind, i in ops:
                s = spans[i]
                if kind == 'finish':
                    s.finish(times[t][i])
                elif kind == 'exit':
                    s.__exit__(None, None, None)
                elif kind == 'tag':
                    s.set_tag('t%d' % t, i)
                elif kind == 'bag':
                    s.set_baggage_item('t%d' % t, 'v')
                else:
                    s.log_kv({'t': t})
        fns.append(f)
    sc = sched.Scheduler(rng)
    sc.horizon = rng.choice([30, 60, 120, 300])
    sc.run(fns)
    p = sc.raise_problems()
    if p:
        ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
    for t in sc.threads:
        if t.exc is not None:
            raise t.exc
    ctx.notes['schedule'] = sc.schedule[:400]
    ctx.event(nt * ns)
    ctx.count('switches', sc.switches)
    for i, s in enumerate(spans):
        mine = [c for c in rep.calls if c[0] is s]
        ctx.check(len(mine) == 1, 'reported-%s' % ('twice' if mine else 'never'),
                  'span finished by %d threads was reported %d times' % (nt, len(mine)))
        legal = [t[i] for t in times] + [clk.wall]
        ctx.check(mine[0][1] in legal, 'end-time', 'end time at hand-off is %r' % (mine[0][1],))
        ctx.check(s.end_time == mine[0][1], 'end-time-changed', 'end time changed after the span was reported: %r -> %r' % (mine[0][1], s.end_time))
    ctx.key(tuple(sc.schedule))
    ctx.sample({'threads': nt, 'spans': ns, 'switches': sc.switches})


def wire_once(ctx):
    """Through the real reporter: a span finished repeatedly occupies one slot in the datagrams."""
    from jv.repwork import Rig, sent_uids
    rng = ctx.rng
    with Rig(ctx, queue_capacity=50, batch_size=rng.choice([1, 3, 10]), flush_interval=0.5) as rig:
        n = rng.randint(1, 12)
        spans = [rig.span() for _ in range(n)]
        hist = []
        for _ in range(3 * n):
            uid, s = rng.choice(spans)
            hist.append(uid)
            s.finish()
            if rng.random() < 0.3:
                rig.world.run_for(0.2)
        rig.world.run_for(2)
        first = list(dict.fromkeys(hist))
        got = [u for _, us, _ in sent_uids(ctx, rig.tap) for u in us]
        ctx.event(len(hist))
        ctx.check(got == first, 'wrong-set', 'spans on the wire %s, finished %s' % (got, first))
        ctx.check(rig.mf.get('jaeger:finished_spans') == len(first), 'finished-metric', 'finished_spans does not count hand-offs')
        ctx.key(tuple(hist))
        ctx.sample({'finishes': hist[:30], 'sent': got[:30]})


SCENARIOS = [
    Scenario('sequential', sequential, 2500, 40000, need=('events', 'scopes', 'raised', 'repeated_finishes', 'unsampled_finishes')),
    Scenario('unsampled', unsampled, 500, 6000, need=('events', 'unsampled')),
    Scenario('race', race, 900, 14000, need=('events', 'switches')),
    Scenario('wire_once', wire_once, 150, 2000, need=('events',)),
]
