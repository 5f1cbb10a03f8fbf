"""C10: a new span takes its place in the trace: ids, parent, flags, references."""
import asyncio

from jv import core, gen, sched, wire
from jv.runner import Scenario
from jv.world import J, RecReporter
from jv.repwork import Rig

ID = 'C10'
RULE = ('random programs of nested scopes, explicit parents (spans, contexts, remote contexts), reference lists, ignored active spans '
        'and server spans over tracers of both id widths and both RPC modes, followed by a reference model; distinct by program')
ASSUMPTIONS = ['references hold span contexts; when a list of references is given its first usable one has a trace']


class Sampler(object):
    """Deterministic stand-in (public sampler interface)."""

    def __init__(self, rng):
        self.rng = rng
        self.asked = 0

    def is_sampled(self, trace_id, operation=''):
        self.asked += 1
        return self.rng.random() < 0.6, {'sampler.type': 'x'}

    def close(self):
        pass


def remote(rng):
    return J.SpanContext(trace_id=gen.trace_id(rng), span_id=gen.id64(rng), parent_id=rng.choice([None, gen.id64(rng)]),
                         flags=gen.flags(rng), baggage=rng.choice([None, {'k': 'v'}]))


class Model(object):
    """What the identity of each new span must be."""

    def __init__(self, ctx, wide, rpc):
        self.ctx = ctx
        self.wide = wide
        self.rpc = rpc
        self.fresh = set()
        self.roots = set()

    def check(self, span, child_of, refs, active, ignore, server, what):
        ctx = self.ctx
        explicit = child_of.context if isinstance(child_of, J.Span) else child_of
        parent = explicit
        if refs and (parent is None or not parent.has_trace):
            parent = refs[0].referenced_context
        if parent is None and not ignore and active is not None:
            parent = active.context
        got = (span.trace_id, span.span_id, span.parent_id, span.flags)
        w = dict(got=got, case=what)
        for n, v, top in (('trace id', got[0], 1 << 128), ('span id', got[1], 1 << 64)):
            ctx.check(type(v) is int and 0 < v < top, 'illegal-id', '%s %r of a new span' % (n, v), **w)
        if parent is not None and parent.has_trace:
            w['parent'] = (parent.trace_id, parent.span_id, parent.parent_id, parent.flags)
            ctx.check(got[0] == parent.trace_id, 'wrong-trace', 'trace id %x, parent has %x' % (got[0], parent.trace_id), **w)
            fl = parent.flags | (1 if parent.flags & 2 else 0)
            ctx.check(got[3] == fl, 'wrong-flags', 'flags %r, parent has %r' % (got[3], parent.flags), **w)
            if server and self.rpc:
                ctx.check(got[1] == parent.span_id and got[2] == parent.parent_id, 'rpc-ids', 'server span does not share the ids of the client span', **w)
                return 'rpc'
            ctx.check(got[2] == parent.span_id, 'wrong-parent', 'parent id %r, parent has span id %r' % (got[2], parent.span_id), **w)
            ctx.check(got[1] not in self.fresh and got[1] != parent.span_id, 'span-id-reused', 'span id %x was used before' % got[1], **w)
            self.fresh.add(got[1])
            return 'child'
        ctx.check(got[2] is None, 'wrong-parent', 'a span without parent has parent id %r' % got[2], **w)
        ctx.check(got[0] not in self.roots, 'trace-id-reused', 'trace id %x was used before' % got[0], **w)
        ctx.check(got[1] not in self.fresh, 'span-id-reused', 'span id %x was used before' % got[1], **w)
        ctx.check((got[0] >> 64 != 0) == self.wide, 'id-width', 'trace id %x in %s mode' % (got[0], '128-bit' if self.wide else '64-bit'), **w)
        ctx.check(got[3] in ((3,) if parent is not None and parent.debug_id else (0, 1)), 'wrong-flags', 'flags %r of a new trace' % got[3], **w)
        self.roots.add(got[0])
        self.fresh.add(got[1])
        return 'root'


def refs_for(rng, pool):
    """(argument, list) of references."""
    n = rng.choice([0, 0, 1, 1, 2, 3])
    if n == 0:
        return rng.choice([None, []]), []
    lst = []
    for i in range(n):
        c = rng.choice(pool) if pool and rng.random() < 0.7 else remote(rng)
        c = c.context if isinstance(c, J.Span) else c
        lst.append(J.Reference(rng.choice([J.ReferenceType.CHILD_OF, J.ReferenceType.FOLLOWS_FROM]), c))
    arg = list(lst)
    if rng.random() < 0.2:
        # references to nothing are unusable
        arg.insert(rng.randint(0, len(arg)), J.Reference(J.ReferenceType.CHILD_OF, None))
    if len(arg) == 1 and rng.random() < 0.5:
        arg = arg[0]
    return arg, lst


def step(ctx, tr, model, pool, active, how):
    """Start one span in a random way; returns (span, kind)."""
    rng = ctx.rng
    child_of, kw = None, {}
    r = rng.random()
    if r < 0.3 and pool:
        child_of = rng.choice(pool)
        child_of = child_of.context if rng.random() < 0.5 else child_of
    elif r < 0.45:
        child_of = remote(rng)
    elif r < 0.52:
        child_of = J.SpanContext(None, None, None, None, baggage={'a': 'b'}) if rng.random() < 0.6 else \
            J.SpanContext(None, None, None, None, debug_id='dbg')
    if child_of is not None or rng.random() < 0.1:
        kw['child_of'] = child_of
    arg, refs = refs_for(rng, pool) if rng.random() < 0.5 else (None, [])
    if arg is not None:
        kw['references'] = arg
    ignore = rng.random() < 0.2
    if ignore or rng.random() < 0.1:
        kw['ignore_active_span'] = ignore
    server = False
    if rng.random() < 0.3:
        server = rng.random() < 0.7
        kw['tags'] = {'span.kind': 'server' if server else rng.choice(['client', 'producer', 'serve']), 'x': 1}
    what = {k: repr(v)[:80] for k, v in kw.items()}
    what['active'] = active is not None
    ctx.notes['call'] = what
    if how == 'active':
        scope = tr.start_active_span('op', **kw)
        span = scope.span
    else:
        scope, span = None, tr.start_span('op', **kw)
    kind = model.check(span, child_of, refs, active, ignore, server, what)
    ctx.event()
    ctx.count(kind)
    return span, scope, kind, refs


def programs(ctx):
    rng = ctx.rng
    core.set_clock(core.Clock(wall=1.5e9 + rng.random() * 1e6))
    wide, rpc = rng.random() < 0.5, rng.random() < 0.5
    kw = {}
    if rng.random() < 0.25:
        from opentracing.scope_managers.contextvars import ContextVarsScopeManager
        kw['scope_manager'] = ContextVarsScopeManager()
    tr = J.Tracer('svc', RecReporter(), Sampler(rng), generate_128bit_trace_id=wide, one_span_per_rpc=rpc, **kw)
    model = Model(ctx, wide, rpc)
    scopes, pool, prog = [], [], []
    for _ in range(rng.randint(3, 30)):
        active = scopes[-1].span if scopes else None
        ctx.check(tr.active_span is active, 'active-span', 'active span %r, expected %r' % (tr.active_span, active))
        r = rng.random()
        if r < 0.35:
            span, scope, kind, _ = step(ctx, tr, model, pool, active, 'active')
            scopes.append(scope)
            pool.append(span)
        elif r < 0.75:
            span, _, kind, _ = step(ctx, tr, model, pool, active, 'span')
            pool.append(span)
        elif r < 0.85 and pool:
            span = rng.choice(pool)
            kind = 'activate'
            scopes.append(tr.scope_manager.activate(span, rng.random() < 0.5))
        elif r < 0.9 and pool:
            kind = 'priority'
            rng.choice(pool).set_tag('sampling.priority', rng.choice([0, 1]))
        elif scopes:
            scopes.pop().close()
            kind = 'close'
        else:
            continue
        prog.append(kind)
    while scopes:
        scopes.pop().close()
    ctx.check(tr.active_span is None, 'active-span', 'an active span is left after all scopes closed')
    ctx.key(wide, rpc, tuple(prog), tuple(sorted(model.fresh))[:3])
    ctx.sample({'wide': wide, 'rpc': rpc, 'program': prog})


def on_the_wire(ctx):
    """The same facts as the agent receives them, with every given reference."""
    rng = ctx.rng
    wide = rng.random() < 0.5
    with Rig(ctx, queue_capacity=50, batch_size=rng.choice([1, 5]), flush_interval=1, generate_128bit_trace_id=wide) as rig:
        tr = rig.tracer
        model = Model(ctx, wide, False)
        pool, want = [], {}
        for _ in range(rng.randint(2, 15)):
            span, _, kind, refs = step(ctx, tr, model, pool, None, 'span')
            pool.append(span)
            span.set_tag('sampling.priority', 1)
            uid = len(want)
            span.set_tag('uid', uid)
            want[uid] = (span.trace_id, span.span_id, span.parent_id or 0,
                         [(1 if r.type == J.ReferenceType.FOLLOWS_FROM else 0, r.referenced_context.trace_id, r.referenced_context.span_id) for r in refs])
            span.finish()
        rig.world.settle()
        rig.world.run_for(2)
        seen = {}
        for _, data, _, _ in rig.tap.sent:
            for g in wire.decode(data)['spans']:
                uid = [t['vLong'] for t in g['tags'] if t['key'] == 'uid'][0]
                refs = [(r['refType'], wire.u64(r['traceIdHigh']) << 64 | wire.u64(r['traceIdLow']), wire.u64(r['spanId'])) for r in g.get('references') or []]
                seen[uid] = wire.span_ids(g) + (refs,)
        for uid, w in want.items():
            ctx.check(uid in seen, 'span-missing', 'span not on the wire')
            ctx.check(seen[uid] == w, 'wire-differs', 'on the wire %r, started as %r' % (seen[uid], w))
        ctx.key(tuple(sorted(model.fresh)))
        ctx.sample({'spans': len(want)})


def threads(ctx):
    """Each thread has its own active span; ids stay distinct whatever the interleaving."""
    rng = ctx.rng
    core.set_clock(core.Clock(wall=1.5e9 + rng.random() * 1e6))
    wide = rng.random() < 0.5
    tr = J.Tracer('svc', RecReporter(), J.ConstSampler(True), generate_128bit_trace_id=wide)
    shared = tr.start_span('shared', ignore_active_span=True)
    logs = []

    def worker(k, n, plan):
        mine = []
        logs.append(mine)

        def f():
            scopes = []
            for act in plan:
                active = scopes[-1].span if scopes else None
                mine.append(('active', tr.active_span is active))
                if act == 'open':
                    sc = tr.start_active_span('op')
                    mine.append(('span', sc.span, active))
                    scopes.append(sc)
                elif act == 'child':
                    mine.append(('span', tr.start_span('c'), active))
                elif act == 'shared':
                    mine.append(('span', tr.start_span('c', child_of=shared), shared))
                elif act == 'ignore':
                    mine.append(('span', tr.start_span('c', ignore_active_span=True), None))
                elif scopes:
                    scopes.pop().close()
            while scopes:
                scopes.pop().close()
        return f
    n = rng.choice([2, 2, 3])
    plans = [[rng.choice(['open', 'child', 'shared', 'ignore', 'close']) for _ in range(rng.randint(2, 6))] for _ in range(n)]
    sc = sched.Scheduler(rng)
    sc.run([worker(k, n, plans[k]) for k in range(n)])
    p = sc.raise_problems()
    if p:
        ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
    for t in sc.threads:
        if t.exc is not None:
            raise t.exc
    ids, roots = set(), set()
    for mine in logs:
        for e in mine:
            if e[0] == 'active':
                ctx.check(e[1], 'active-span', 'a thread sees the active span of another')
                continue
            _, s, par = e
            ctx.check(s.span_id not in ids, 'span-id-reused', 'span id %x was used before' % s.span_id)
            ids.add(s.span_id)
            if par is None:
                ctx.check(s.parent_id is None and s.trace_id not in roots, 'wrong-parent', 'root span with parent %r' % s.parent_id)
                roots.add(s.trace_id)
            else:
                ctx.check((s.trace_id, s.parent_id) == (par.trace_id, par.span_id), 'wrong-parent',
                          'child of %r is %r' % ((par.trace_id, par.span_id), (s.trace_id, s.parent_id)), plans=plans)
            ctx.event()
    ctx.count('switches', sc.switches)
    ctx.key(tuple(sc.schedule), repr(plans))
    ctx.sample({'plans': plans, 'switches': sc.switches})


def tasks(ctx):
    """asyncio tasks with the context-variable scope manager keep their active spans apart."""
    rng = ctx.rng
    from opentracing.scope_managers.contextvars import ContextVarsScopeManager
    tr = J.Tracer('svc', RecReporter(), J.ConstSampler(True), scope_manager=ContextVarsScopeManager())
    bad, seen = [], []

    async def worker(k, depth, top):
        with tr.start_active_span('t%d' % k) as scope:
            s = scope.span
            want = top.span_id if top is not None else None
            if s.parent_id != want:
                bad.append((k, s.parent_id, want))
            for _ in range(rng.randint(0, 3)):
                await asyncio.sleep(0)
                c = tr.start_span('c')
                seen.append(c)
                if (c.trace_id, c.parent_id) != (s.trace_id, s.span_id):
                    bad.append((k, c.parent_id, s.span_id))
            if depth:
                await asyncio.gather(*[worker(k * 10 + i, depth - 1, s) for i in range(2)])
            if tr.active_span is not s:
                bad.append((k, 'active'))

    async def main():
        await asyncio.gather(*[worker(i, 1, None) for i in range(1, 4)])
    asyncio.run(main())
    asyncio.set_event_loop(None)
    ctx.check(not bad, 'wrong-parent', 'asyncio tasks: %r' % bad[:3])
    ctx.event(len(seen) + 9)
    ctx.key(len(seen), rng.random())
    ctx.sample({'children': len(seen)})


def randomness(ctx):
    """Root ids are random over the whole configured width."""
    rng = ctx.rng
    core.set_clock(core.Clock(wall=1.5e9 + rng.random() * 1e7))
    wide = rng.random() < 0.5
    tr = J.Tracer('svc', RecReporter(), J.ConstSampler(False), generate_128bit_trace_id=wide)
    n = 400
    spans = [tr.start_span('r', ignore_active_span=True) for _ in range(n)]
    for name, vals, bits in (('trace id', [s.trace_id for s in spans], 128 if wide else 64), ('span id', [s.span_id for s in spans], 64)):
        ctx.check(len(set(vals)) == n, 'id-repeats', '%s values repeat' % name)
        ctx.check(max(vals) < 1 << bits, 'id-width', '%s of %d bits exceeds the width' % (name, max(vals).bit_length()))
        for b in range(bits):
            ones = sum(v >> b & 1 for v in vals)
            # 400 fair flips: outside 120..280 has probability below 1e-15
            ctx.check(120 < ones < 280, 'not-random', 'bit %d of the %s is set in %d of %d traces' % (b, name, ones, n))
    same = sum(1 for s in spans if s.span_id == s.trace_id & ((1 << 64) - 1))
    ctx.check(same == 0, 'not-random', 'span id equals the trace id in %d traces' % same)
    core.clock().advance(0.001)
    other = J.Tracer('svc', RecReporter(), J.ConstSampler(False))
    o = {other.start_span('r', ignore_active_span=True).span_id for _ in range(50)}
    ctx.check(not o & {s.span_id for s in spans}, 'id-repeats', 'two tracers produce the same ids')
    ctx.event(n)
    ctx.key(spans[0].trace_id)
    ctx.sample({'wide': wide, 'first': '%x' % spans[0].trace_id})


def zeros(ctx):
    """Whatever the generator of random numbers draws, no id is 0, which stands for none."""
    import random
    rng = ctx.rng
    real, drawn = random.Random.getrandbits, [0]
    often = rng.choice([0.1, 0.4, 0.8])

    def getrandbits(self, k):
        if rng.random() < often:
            drawn[0] += 1
            return 0
        return real(self, k)
    random.Random.getrandbits = getrandbits
    try:
        rep = RecReporter()
        tr = J.Tracer('svc', rep, J.ConstSampler(True), generate_128bit_trace_id=rng.random() < 0.5)
        spans = []
        for _ in range(rng.randint(3, 25)):
            parent = rng.choice(spans) if spans and rng.random() < 0.7 else None
            far = parent is not None and rng.random() < 0.4
            c = parent
            if far:
                fmt = rng.choice(['text_map', 'http_headers', 'binary'])
                car = bytearray() if fmt == 'binary' else {}
                tr.inject(parent, fmt, car)
                c = tr.extract(fmt, car)
            s = tr.start_span('op', child_of=c, ignore_active_span=True)
            ctx.check(s.trace_id and s.span_id, 'zero-id', 'a span has trace id %x and span id %x' % (s.trace_id or 0, s.span_id or 0))
            if parent is not None:
                ctx.check((s.trace_id, s.parent_id) == (parent.trace_id, parent.span_id), 'wrong-parent',
                          'child %x:%x of %x:%x has the parent id %r' % (s.trace_id, s.span_id, parent.trace_id, parent.span_id, s.parent_id))
            else:
                ctx.check(s.parent_id is None, 'wrong-parent', 'a root has the parent id %r' % s.parent_id)
            spans.append(s)
            ctx.event()
    finally:
        del random.Random.getrandbits
    ctx.count('zeros', drawn[0])
    ctx.key(rng.random())
    ctx.sample({'spans': len(spans), 'zeros drawn': drawn[0]})


SCENARIOS = [
    Scenario('programs', programs, 1500, 40000, need=('events', 'root', 'child', 'rpc')),
    Scenario('on_the_wire', on_the_wire, 250, 4000),
    Scenario('threads', threads, 250, 5000, need=('events', 'switches')),
    Scenario('tasks', tasks, 40, 600, real=True),
    Scenario('randomness', randomness, 24, 200),
    Scenario('zeros', zeros, 40, 600),
]
