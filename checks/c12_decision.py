"""C12: the sampling decision is made once per trace and is a function of the trace id."""
from fractions import Fraction

from jv import core, gen, wire
from jv.runner import Scenario
from jv.world import J, RecReporter, World, virtual_sender, rec_factory
from jv.repwork import Rig

ID = 'C12'
RULE = ('span trees over several tracers with recording samplers (consultations counted per start), tags read off the wire, and '
        'probabilistic decisions compared with exact rational arithmetic at and around the boundary for random and extreme rates; '
        'distinct by program or by (rate, id)')
ASSUMPTIONS = ['traces started from a debug-id header are forced and not judged here (C17)',
               'the caller does not reuse the tags dictionary it handed to start_span (the documentation transfers ownership)']


class Recorder(object):
    def __init__(self, rng, p=0.5):
        self.rng = rng
        self.p = p
        self.calls = []

    def is_sampled(self, trace_id, operation=''):
        d = self.rng.random() < self.p
        self.calls.append((trace_id, operation, d))
        return d, {'sampler.type': 'rec', 'sampler.param': len(self.calls)}

    def close(self):
        pass


def consulted(ctx):
    """Exactly once at the start of a trace, never otherwise; every descendant inherits."""
    rng = ctx.rng
    core.set_clock(core.Clock(wall=1.5e9 + rng.random() * 1e6))
    tracers = []
    for i in range(3):
        core.clock().advance(1 + rng.random())
        tracers.append(J.Tracer('s%d' % i, RecReporter(), Recorder(rng), generate_128bit_trace_id=rng.random() < 0.5,
                                one_span_per_rpc=rng.random() < 0.3, extra_codecs={'b3': J.B3Codec()}))
    spans = []      # (span, decision)
    prog = []
    for _ in range(rng.randint(3, 25)):
        tr = rng.choice(tracers)
        n0 = [len(t.sampler.calls) for t in tracers]
        op = gen.word(rng)
        kw = {}
        if rng.random() < 0.3:
            kw['tags'] = {'span.kind': rng.choice(['server', 'client']), 'a': 1}
        if rng.random() < 0.15:
            kw['start_time'] = rng.choice([1.0, 1e9, 3e9])
        a = rng.random()
        root = False
        if not spans or a < 0.25:
            how = rng.choice(['plain', 'baggage-only', 'ignored-scope', 'named-none'])
            root = True
            if how == 'plain':
                s = tr.start_span(op, **kw)
            elif how == 'baggage-only':
                c = tr.extract(J.Format.TEXT_MAP, {'uberctx-a': 'b'})
                s = tr.start_span(op, child_of=c, **kw)
            elif how == 'named-none':
                op = ''
                s = tr.start_span(**kw)
            elif spans:
                with tr.scope_manager.activate(rng.choice(spans)[0], False):
                    s = tr.start_span(op, ignore_active_span=True, **kw)
            else:
                s = tr.start_span(op, **kw)
        else:
            p, d = rng.choice(spans)
            how = rng.choice(['child', 'reference', 'scope', 'remote', 'remote', 'foreign', 'foreign'])
            if how == 'child':
                s = tr.start_span(op, child_of=rng.choice([p, p.context]), **kw)
            elif how == 'reference':
                s = tr.start_span(op, references=J.Reference(J.ReferenceType.FOLLOWS_FROM, p.context), **kw)
            elif how == 'scope':
                with tr.scope_manager.activate(p, False):
                    s = tr.start_active_span(op, **kw).span
                    tr.scope_manager.active.close()
            elif how == 'foreign':
                # a trace some other client started: any flags byte is a decision already made
                p = J.SpanContext(gen.trace_id(rng), gen.id64(rng), rng.choice([None, gen.id64(rng)]), gen.flags(rng, debug=False),
                                  rng.choice([None, {'a': 'b'}]), rng.choice([None, None, 'dbg']))
                d = bool(p.flags & 1)
                if rng.random() < 0.5:
                    s = tr.start_span(op, child_of=p, **kw)
                else:
                    s = tr.start_span(op, references=[J.Reference(J.ReferenceType.CHILD_OF, p)], **kw)
                ctx.check(s.trace_id == p.trace_id, 'not-continued', 'a span started under flags %#x has another trace id' % p.flags)
            else:
                fmt = rng.choice([J.Format.TEXT_MAP, J.Format.HTTP_HEADERS, J.Format.BINARY, J.ZipkinSpanFormat, 'b3'])
                how += ' ' + str(fmt)
                car = bytearray() if fmt == J.Format.BINARY else {}
                rng.choice(tracers).inject(p, fmt, car)
                s = tr.start_span(op, child_of=tr.extract(fmt, car), **kw)
        new = [t.sampler.calls[n:] for t, n in zip(tracers, n0)]
        mine = new[tracers.index(tr)]
        others = sum(len(x) for x in new) - len(mine)
        prog.append(how)
        ctx.notes['program'] = prog[-8:]
        ctx.event()
        if root:
            ctx.count('roots')
            ctx.check(len(mine) == 1 and not others, 'consultations', 'a new trace (%s) consulted the sampler %d times' % (how, len(mine)))
            ctx.check(mine[0][0] == s.trace_id and mine[0][1] == op, 'consulted-with', 'sampler asked about %r for trace %x operation %r' % (mine[0], s.trace_id, op))
            d = mine[0][2]
        else:
            ctx.check(not mine and not others, 'consultations', 'a continued trace (%s) consulted the sampler %d times' % (how, len(mine) + others))
        ctx.check(s.is_sampled() == d and bool(s.context.flags & 1) == d and not s.is_debug(), 'decision-lost',
                  '%s: span sampled=%s, the decision for its trace was %s' % (how, s.is_sampled(), d))
        # later calls do not consult
        for f in (lambda: s.set_tag('x', 1), lambda: s.log_kv({'a': 1}), lambda: s.set_baggage_item('a', 'b'), lambda: s.set_operation_name('z'),
                  lambda: tr.inject(s, J.Format.TEXT_MAP, {})):
            f()
        if rng.random() < 0.3:
            s.finish()
        ctx.check(sum(len(t.sampler.calls) for t in tracers) == sum(n0) + (1 if root else 0), 'consultations', 'annotating or finishing consulted the sampler')
        spans.append((s, d))
    ctx.key(tuple(prog), tuple(len(t.sampler.calls) for t in tracers))
    ctx.sample({'program': prog[:10]})


def real_samplers(rng, world, rig):
    """(sampler, expected tags for a sampled root: key -> triple, or None when only the type is known)"""
    rate = rng.choice([1.0, 0.5, 1, 0.25])
    k = rng.randrange(6)
    if k == 0:
        d = rng.random() < 0.7
        return J.ConstSampler(d), [('const', ('bool', d))]
    if k == 1:
        return J.ProbabilisticSampler(rate), [('probabilistic', num(rate))]
    if k == 2:
        m = rng.choice([2, 10, 0.5, 3.5])
        return J.RateLimitingSampler(m), [('ratelimiting', num(m))]
    lb = rng.choice([1, 0.5, 5])
    if k == 3:
        return J.GuaranteedThroughputProbabilisticSampler('op', lb, rate), [('probabilistic', num(rate)), ('lowerbound', num(rate))]
    strat = {'defaultSamplingProbability': rate, 'defaultLowerBoundTracesPerSecond': lb,
             'perOperationStrategies': [{'operation': 'op', 'probabilisticSampling': {'samplingRate': rate}}]}
    if k == 4:
        return J.AdaptiveSampler(strat, 10), [('probabilistic', num(rate)), ('lowerbound', num(rate))]
    return J.RemoteControlledSampler(rig.sender, 'svc', init_sampler=J.ProbabilisticSampler(rate)), [('probabilistic', num(rate))]


def num(v):
    return ('i64', v) if isinstance(v, int) else ('dbl', v)


def tags(ctx):
    """Sampler tags are on the sampled root span and nowhere else, as the agent sees them."""
    rng = ctx.rng
    with Rig(ctx, queue_capacity=100, batch_size=rng.choice([1, 10]), flush_interval=0.5) as rig:
        smp, options = real_samplers(rng, rig.world, rig)
        tr = rig.tracer = J.Tracer('svc', rig.reporter, smp, metrics_factory=rig.mf, generate_128bit_trace_id=rng.random() < 0.5)
        roots, kids = {}, {}
        for _ in range(rng.randint(3, 14)):
            rig.world.clock.advance(rng.choice([0, 0.1, 1]))
            own = {'mine': 1} if rng.random() < 0.5 else None
            if rng.random() < 0.15:
                # only a sampler may say how a trace was sampled
                own = {rng.choice(['sampler.type', 'sampler.param']): 'own', 'mine': 1}
                ctx.count('colliding_tags')
            r = tr.start_span('op', tags=own, ignore_active_span=True)
            roots[r.span_id] = r.is_sampled()
            fam = [r]
            for _ in range(rng.randint(0, 3)):
                p = rng.choice(fam)
                if rng.random() < 0.4:
                    car = {}
                    tr.inject(p, J.Format.TEXT_MAP, car)
                    p = tr.extract(J.Format.TEXT_MAP, car)
                c = tr.start_span('op', child_of=p, tags={'mine': 2} if rng.random() < 0.5 else None)
                kids[c.span_id] = r.is_sampled()
                fam.append(c)
            for s in fam:
                if not s.is_sampled() and rng.random() < 0.3:
                    # forcing a span later does not give it the tags of a sampler that refused it
                    s.set_tag('sampling.priority', 1)
                s.finish()
        rig.world.run_for(2)
        seen = {}
        for _, data, _, _ in rig.tap.sent:
            for g in wire.decode(data)['spans']:
                seen[wire.u64(g['spanId'])] = [(k, (t, v)) for k, t, v in wire.tag_list(g['tags'])]
        for sid, d in list(roots.items()) + list(kids.items()):
            t = [(k, v) for k, v in seen.get(sid, []) if k.startswith('sampler.')]
            if sid in roots and d:
                ctx.check(sid in seen, 'not-reported', 'a sampled root span was not reported')
                got = dict(t)
                ctx.check(len(t) == 2 and set(got) == {'sampler.type', 'sampler.param'}, 'sampler-tags', 'sampled root has sampler tags %r' % t)
                pair = (got['sampler.type'], got['sampler.param'])
                ctx.check(any(pair == (('str', ty), par) for ty, par in options), 'sampler-tags', 'sampled root has %r, sampler is %s' % (t, smp), options=options)
                ctx.count('tagged')
            else:
                ctx.check(not t, 'sampler-tags', '%s has sampler tags %r' % ('unsampled root' if sid in roots else 'child', t))
            ctx.event()
        ctx.key(str(smp), tuple(roots.values()), len(kids), rng.random())
        ctx.sample({'sampler': str(smp), 'roots': len(roots), 'children': len(kids)})


def rates(rng):
    r = rng.random()
    if r < 0.2:
        return rng.choice([0.0, 1.0, 0, 1])
    if r < 0.35:
        return rng.choice([5e-324, 2.0 ** -64, 2.0 ** -63, 2.0 ** -65, 1e-19, 1e-20, 1 - 2.0 ** -53, 0.5, 0.5 + 2.0 ** -53, 0.001, 1 / 3.0, 0.1, 0.9999999])
    if r < 0.6:
        return 2.0 ** -rng.randint(1, 64) * rng.choice([1, 1.5, 1 + 2.0 ** -52])
    return rng.random() * rng.choice([1, 1, 1e-3, 1e-9, 1e-15])


def sampler_of(rng, rate):
    """The probabilistic decision as reached through each sampler that makes it."""
    k = rng.randrange(4)
    if k < 2:
        return J.ProbabilisticSampler(rate), 'plain'
    strat = {'defaultSamplingProbability': rate, 'defaultLowerBoundTracesPerSecond': 0, 'perOperationStrategies': []}
    if k == 2:
        return J.AdaptiveSampler(dict(strat), 0), 'adaptive-default'
    world = World()
    mf = rec_factory()
    body = gen_json({'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': rate}})
    sender = virtual_sender(world, lambda kind, a, kw: (None, body))
    s = J.RemoteControlledSampler(sender, 'svc', init_sampler=J.ConstSampler(False), metrics_factory=mf, sampling_refresh_interval=1)
    world.run_for(2)
    world.close()
    return s, 'remote'


def gen_json(o):
    import json
    return json.dumps(o).encode()


def boundary(ctx):
    """Exactly the ids below rate * 2^64, whatever the upper half; monotone in the rate."""
    rng = ctx.rng
    rate = rates(rng)
    s, via = sampler_of(rng, rate)
    twin = J.ProbabilisticSampler(rate)
    rate2 = min(1.0, max(rate, rates(rng)))
    bigger = J.ProbabilisticSampler(rate2)
    lim = Fraction(rate) * (1 << 64)
    b = int(lim)
    ids = {0, 1, (1 << 64) - 1, 1 << 63, (1 << 63) - 1}
    for d in (-2, -1, 0, 1, 2):
        ids.add(b + d)
    for _ in range(6):
        ids.add(rng.getrandbits(64))
        ids.add(int(lim * Fraction(rng.random())))
    for low in ids:
        if not 0 <= low < 1 << 64:
            continue
        want = low < lim
        for high in (0, 1, rng.getrandbits(64), (1 << 64) - 1):
            t = high << 64 | low
            got = s.is_sampled(t, 'op')[0]
            ctx.event()
            ctx.check(bool(got) == want, 'boundary', 'rate %r (%s): trace id %#x sampled=%s, expected %s' % (rate, via, t, got, want))
            ctx.check(bool(twin.is_sampled(t, 'other')[0]) == want, 'disagree', 'rate %r: two samplers disagree on %#x' % (rate, t))
            if want:
                ctx.check(bool(bigger.is_sampled(t, '')[0]), 'not-monotone', 'id %#x sampled at rate %r but not at %r' % (t, rate, rate2))
        if rate == 0:
            ctx.check(not got, 'boundary', 'rate 0 samples')
        if rate == 1:
            ctx.check(bool(got), 'boundary', 'rate 1 does not sample')
    ctx.key(rate, via)
    ctx.sample({'rate': rate, 'via': via, 'ids': len(ids)})


def distribution(ctx):
    """Over ids the tracer itself generates, the sampled share is the rate."""
    rng = ctx.rng
    core.set_clock(core.Clock(wall=1.5e9 + rng.random() * 1e7))
    rate = rng.choice([0.5, 0.25, 0.1, 0.9])
    tr = J.Tracer('svc', RecReporter(), J.ProbabilisticSampler(rate), generate_128bit_trace_id=rng.random() < 0.5)
    n = 600
    got = 0
    for _ in range(n):
        s = tr.start_span('r')
        low = s.trace_id & ((1 << 64) - 1)
        ctx.check(s.is_sampled() == (low < Fraction(rate) * (1 << 64)), 'boundary', 'trace %#x sampled=%s at rate %r' % (s.trace_id, s.is_sampled(), rate))
        got += s.is_sampled()
    sd = (n * rate * (1 - rate)) ** 0.5
    ctx.check(abs(got - n * rate) < 7.5 * sd, 'share', '%d of %d traces sampled at rate %r' % (got, n, rate))
    ctx.event(n)
    ctx.key(rate, got, rng.random())
    ctx.sample({'rate': rate, 'sampled': '%d of %d' % (got, n)})


SCENARIOS = [
    Scenario('consulted', consulted, 900, 25000, need=('events', 'roots')),
    Scenario('tags', tags, 350, 6000, need=('events', 'tagged')),
    Scenario('boundary', boundary, 900, 25000),
    Scenario('distribution', distribution, 24, 200),
]
