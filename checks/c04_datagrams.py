"""C04: datagrams are self-contained, bounded, ordered, and isolated from bad spans."""
from jv import core, gen, sched, wire
from jv.runner import Scenario
from jv.world import J
from jv.repwork import Rig, random_fault, sent_uids, uids

ID = 'C04'
RULE = ('random mixes of ordinary spans, spans with hostile values, spans under contexts received from peers and spans that '
        'cannot be encoded, with send faults, through the real reporter; every accepted or refused datagram is decoded '
        'strictly; distinct by the sequence of span kinds and faults')
ASSUMPTIONS = ['batches fit into one datagram unless a case makes them too large on purpose',
               'every batch-mate of a span with nonsensical explicit start or finish times may fail with it']


def check_datagrams(ctx, rig, strict_failed=True):
    """Every datagram decodes, holds 1..batch spans; returns uids per accepted datagram."""
    out = sent_uids(ctx, rig.tap)
    for _, us, b in out:
        ctx.check(1 <= len(us) <= rig.batch, 'batch-size', 'a datagram holds %d spans, batch size is %d' % (len(us), rig.batch))
        ctx.check(b['process']['serviceName'] == 'svc', 'process', 'datagram without its process description')
    for _, _, _, exc, data in rig.tap.attempts:
        if exc is not None and strict_failed:
            try:
                us = uids(wire.decode(data))
            except wire.WireError as e:
                ctx.fail('undecodable-datagram', 'a datagram handed to the network does not decode: %s' % e, datagram=data[:200].hex())
                continue
            ctx.check(1 <= len(us) <= rig.batch, 'batch-size', 'a datagram holds %d spans, batch size is %d' % (len(us), rig.batch))
    ctx.count('datagrams', len(out))
    return out


LONE = ['\ud800', 'a\udfffb', '\udc80\udcff', '\ud83d x']


class BadStr(object):
    def __str__(self):
        return 'lone \ud800'


class BadStr2(object):
    def __str__(self):
        raise RuntimeError('no \udc00 text')


class NotStr(object):
    def __str__(self):
        return 5


def hostile_value(rng):
    return rng.choice([
        lambda: 1 << rng.choice([63, 64, 65, 200, 5000]), lambda: -(1 << 63) - rng.choice([1, 2, 1 << 70]),
        lambda: rng.choice(LONE), lambda: BadStr(), lambda: BadStr2(), lambda: NotStr(), lambda: float('nan'), lambda: float('inf'),
        lambda: b'\xff\xfe', lambda: bytearray(b'\xff'), lambda: '\0' * 3, lambda: None, lambda: [1 << 70, '\ud800'], lambda: {'a': BadStr2()},
        lambda: 10 ** 5000, lambda: complex(1, 2), lambda: object(), lambda: gen.make_tb(rng), lambda: 'x' * 5000,
        lambda: RuntimeError('\ud800'), lambda: type('T', (), {}), lambda: gen.Int(1 << 70), lambda: memoryview(b'x'),
    ])()


def hostile_key(rng):
    return rng.choice([lambda: 'k', lambda: '', lambda: rng.choice(LONE), lambda: None, lambda: 1 << 80, lambda: b'\xff', lambda: ('a', '\ud800'),
                       lambda: 'x' * 300, lambda: BadStr(), lambda: '\0'])()


def hostile_context(rng, tracer):
    """Contexts a peer can cause: extracted from whatever header, B3 or binary content that extract accepts."""
    def hexs():
        return rng.choice(['0', '1', 'f' * rng.choice([1, 15, 16, 17, 31, 32, 33, 40]), '-1', '+1', '0x10', ' 7', '1_0', 'g', '',
                           '8' + '0' * 15, '%x' % gen.trace_id(rng), '%x' % (1 << 128), '%x' % (1 << 64), '\u0661'])
    for _ in range(20):
        k = rng.random()
        fmt, car = J.Format.TEXT_MAP, {}
        if k < 0.5:
            parts = ['%x' % gen.trace_id(rng), '%x' % gen.id64(rng), '%x' % gen.id64(rng), rng.choice(['1', '3'])]
            for i in range(rng.choice([1, 1, 2])):
                parts[rng.randrange(4)] = rng.choice([hexs(), 'ff', '100', 'ffffffffff', '7fffffff', '80000001'])
            car = {'uber-trace-id': ':'.join(parts)}
            fmt = rng.choice([J.Format.TEXT_MAP, J.Format.HTTP_HEADERS])
        elif k < 0.65:
            car = {'jaeger-debug-id': rng.choice(['', 'dbg', rng.choice(LONE), 'x' * 3000])}
        elif k < 0.8:
            car = {'uberctx-' + rng.choice(['a', rng.choice(LONE), '']): rng.choice(['v', rng.choice(LONE)])}
        elif k < 0.9:
            import struct
            fmt = J.Format.BINARY
            car = bytearray(struct.pack('>QQQQBI', *[rng.choice([0, 1, (1 << 64) - 1, rng.getrandbits(64)]) for _ in range(4)],
                                        rng.choice([0, 1, 3, 255]), 0))
        else:
            fmt = 'b3'
            car = {'X-B3-TraceId': hexs(), 'X-B3-SpanId': hexs(), 'X-B3-ParentSpanId': hexs(), rng.choice(['X-B3-Sampled', 'X-B3-Flags']): '1'}
        try:
            c = J.B3Codec().extract(car) if fmt == 'b3' else tracer.extract(fmt, car)
        except (J.SpanContextCorruptedException, J.InvalidCarrierException):
            continue
        if c is not None:
            return c
    return None


def hostile_values(ctx):
    """Nothing the application records or a peer sends makes the other spans of the batch undeliverable."""
    rng = ctx.rng
    with Rig(ctx, queue_capacity=60, batch_size=rng.choice([1, 2, 3, 5, 10]), flush_interval=rng.choice([0.5, 1.0])) as rig:
        good, kinds, hostile = [], [], []
        for _ in range(rng.randint(2, 14)):
            if rng.random() < 0.5:
                good.append(rig.emit({'x': 1}))
                kinds.append('good')
            else:
                k = rng.choice(['tag', 'tag', 'log', 'name', 'baggage', 'peer', 'ref', 'start-tag', 'set-name', 'event'])
                kinds.append(k)
                kw = {}
                c = None
                if k == 'peer':
                    c = hostile_context(rng, rig.tracer)
                    kw['child_of'] = c
                elif k == 'ref':
                    c = hostile_context(rng, rig.tracer)
                    if c is not None:
                        other = J.SpanContext(5, 6, None, 1)
                        refs = [J.Reference(rng.choice([J.ReferenceType.CHILD_OF, J.ReferenceType.FOLLOWS_FROM]), x) for x in rng.choice([[c], [other, c], [c, other]])]
                        kw['references'] = refs
                elif k == 'start-tag':
                    kw['tags'] = {hostile_key(rng): hostile_value(rng)}
                name = rng.choice(['op', rng.choice(LONE), 7, None, b'op', BadStr(), '']) if k == 'name' else 'op'
                uid = rig.seq
                rig.seq += 1
                s = rig.tracer.start_span(name, ignore_active_span=True, **kw)
                s.set_tag('uid', uid)
                if k == 'tag':
                    for _ in range(rng.randint(1, 3)):
                        s.set_tag(hostile_key(rng), hostile_value(rng))
                elif k == 'log':
                    s.log_kv({hostile_key(rng): hostile_value(rng) for _ in range(rng.randint(0, 3))})
                elif k == 'event':
                    s.error(hostile_value(rng), hostile_value(rng))
                elif k == 'baggage':
                    s.set_baggage_item(rng.choice(['k', rng.choice(LONE)]), rng.choice(['v', rng.choice(LONE), 'x' * 2000]))
                elif k == 'set-name':
                    s.set_operation_name(rng.choice([rng.choice(LONE), 7, None, 2.5, BadStr(), BadStr2()]))
                samp = s.is_sampled()
                s.finish()
                if samp:
                    hostile.append(uid)
            if rng.random() < 0.2:
                rig.world.run_for(rng.choice([0.1, 2.0]))
        rig.world.run_for(3)
        ctx.notes['kinds'] = kinds
        out = check_datagrams(ctx, rig)
        sent = [u for _, us, _ in out for u in us]
        ctx.event(len(kinds))
        ctx.count('hostile', len(hostile))
        ctx.check(set(good) <= set(sent), 'innocent-lost',
                  'ordinary spans %s were lost next to hostile ones' % sorted(set(good) - set(sent)), counters=rig.mf.spans())
        ctx.check(set(hostile) <= set(sent), 'hostile-lost',
                  'spans %s with unusual values were lost' % sorted(set(hostile) - set(sent)), counters=rig.mf.spans())
        ctx.key(tuple(kinds), tuple(good), rig.batch)
        ctx.sample({'kinds': kinds, 'batch': rig.batch, 'datagrams': [us for _, us, _ in out][:5]})


def residue(ctx):
    """A batch that fails half way through encoding or on the network leaves nothing behind."""
    rng = ctx.rng
    with Rig(ctx, queue_capacity=60, batch_size=rng.choice([1, 2, 3, 8]), flush_interval=rng.choice([0.3, 1.0]),
             fault=random_fault(rng, rng.choice([0, 0, 0.2, 0.5]))) as rig:
        good, kinds, bad = [], [], []
        for _ in range(rng.randint(3, 20)):
            if rng.random() < 0.6:
                good.append(rig.emit())
                kinds.append('good')
            else:
                k = rng.choice(['start', 'finish', 'finish', 'logtime', 'big', 'flags', 'poke'])
                kinds.append(k)
                uid = rig.seq
                rig.seq += 1
                kw = {}
                if k == 'start':
                    kw['start_time'] = rng.choice([1e20, -1e20, 1e13 + 1e12, 2e13])
                elif k == 'flags':
                    kw['child_of'] = J.SpanContext(rng.getrandbits(60) | 1, 1, None, rng.choice([1 | 1 << 33, 1 | 1 << 70]))
                s = rig.tracer.start_span('op', ignore_active_span=True, **kw)
                s.set_tag('uid', uid)
                if k == 'big':
                    for j in range(70):
                        s.set_tag('b%d' % j, 'x' * 1024)
                elif k == 'logtime':
                    s.log_kv({'e': 1}, 1e19)
                elif k == 'poke':
                    s.operation_name = rng.choice([object(), 5, None, b'\xff'])
                bad.append(uid)
                try:
                    s.finish(1e20 if k == 'finish' else None)
                except Exception as e:
                    ctx.fail('finish-raised', 'finish() raised %r' % e)
                rig.reported.append(uid)
            if rng.random() < 0.45:
                rig.world.run_for(rng.choice([0.01, 0.4, 2.0]))
        rig.world.run_for(3)
        n0 = len(rig.tap.sent)
        # whatever happened, the reporter now delivers a fresh batch alone and intact
        rig.fault = None
        last = [rig.emit() for _ in range(rig.batch)]
        rig.world.run_for(3)
        ctx.notes['kinds'] = kinds
        out = check_datagrams(ctx, rig)
        ctx.event(len(kinds))
        ctx.count('bad', len(bad))
        ctx.check([us for _, us, _ in out[n0:]] == [last], 'residue',
                  'after failures a fresh batch %s came out as %s' % (last, [us for _, us, _ in out[n0:]]))
        sent = [u for _, us, _ in out for u in us]
        ctx.check(len(set(sent)) == len(sent), 'sent-twice', 'a span was sent twice: %s' % sent)
        ctx.check(sent == sorted(sent), 'order', 'spans out of order: %s' % sent)
        ok, err, dropped = rig.mf.spans()
        ctx.count('failed_batches', 1 if err else 0)
        ctx.check(ok == len(sent), 'ok-count', 'ok counter %d, %d spans on the wire' % (ok, len(sent)))
        ctx.check(ok + err + dropped == len(rig.reported), 'books', 'ok %d + err %d + dropped %d != %d' % (ok, err, dropped, len(rig.reported)))
        ctx.key(tuple(kinds), ok, err, dropped)
        ctx.sample({'kinds': kinds, 'ok/err/dropped': [ok, err, dropped]})


def order(ctx):
    """Spans of one thread keep their order and batches their bound, with several threads and a running loop."""
    rng = ctx.rng
    with Rig(ctx, queue_capacity=rng.choice([3, 20, 50]), batch_size=rng.choice([1, 2, 3]), flush_interval=rng.choice([None, 0.5]),
             fault=random_fault(rng, rng.choice([0, 0, 0.3]))) as rig:
        rig.world.turn(2)
        nt = rng.choice([1, 2, 2, 3])
        mine = [[rig.span() for _ in range(rng.randint(1, 5))] for _ in range(nt)]

        def app(l):
            def f():
                for uid, s in l:
                    rig.finish(uid, s)
            return f

        def loop():
            import asyncio
            asyncio.set_event_loop(rig.world.aloop)
            try:
                for _ in range(rng.randint(2, 10)):
                    rig.world.turn(1)
            finally:
                asyncio.set_event_loop(None)
        sc = sched.Scheduler(rng)
        sc.run([app(l) for l in mine] + [loop])
        p = sc.raise_problems()
        if p:
            ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
        for t in sc.threads:
            if t.exc is not None:
                raise t.exc
        rig.world.run_for(3)
        rig.top.close()
        rig.world.run_for(3)
        ctx.notes['schedule'] = sc.schedule[:300]
        out = check_datagrams(ctx, rig)
        att = []
        for _, _, _, exc, data in rig.tap.attempts:
            att += uids(wire.decode(data))
        for l in mine:
            ids = [u for u, _ in l]
            seq = [u for u in att if u in ids]
            ctx.check(seq == sorted(seq), 'order', 'spans of one thread left in order %s, finished in order %s' % (seq, ids))
        ctx.event(len(att))
        ctx.count('switches', sc.switches)
        ctx.key(tuple(sc.schedule), tuple(att))
        ctx.sample({'threads': nt, 'sent': [us for _, us, _ in out]})


def late(ctx):
    """Annotations arriving while a finished span is being encoded never corrupt the datagram."""
    rng = ctx.rng
    with Rig(ctx, queue_capacity=20, batch_size=rng.choice([1, 2]), flush_interval=None) as rig:
        rig.world.turn(2)
        spans = [rig.span() for _ in range(rig.batch)]
        for _, s in spans:
            for j in range(rng.randint(0, 3)):
                s.set_tag('t%d' % j, j)
                s.log_kv({'l': j})
        nt = rng.choice([1, 1, 2])

        def app(k):
            def f():
                for j in range(rng.randint(2, 8)):
                    s = spans[(j + k) % len(spans)][1]
                    if j % 3 == 0:
                        s.log_kv({'late': j})
                    elif j % 3 == 1:
                        s.set_tag('late%d' % j, 'x')
                    else:
                        s.set_baggage_item('k%d' % j, 'v')
            return f
        for uid, s in spans:
            rig.finish(uid, s)

        def loop():
            import asyncio
            asyncio.set_event_loop(rig.world.aloop)
            try:
                rig.world.turn(6)
            finally:
                asyncio.set_event_loop(None)
        import jaeger_client.thrift_gen.jaeger.ttypes as tt
        sc = sched.Scheduler(rng, p=rng.choice([0.005, 0.02, 0.05]), extra_files=(tt.__file__,))
        sc.horizon = rng.choice([300, 1000, 3000])
        sc.run([loop] + [app(k) for k in range(nt)])
        p = sc.raise_problems()
        if p:
            ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
        for t in sc.threads:
            if t.exc is not None:
                raise t.exc
        rig.world.run_for(2)
        ctx.notes['schedule'] = sc.schedule[:300]
        last = [rig.emit() for _ in range(rig.batch)]
        rig.world.run_for(2)
        out = check_datagrams(ctx, rig)
        got = [us for _, us, _ in out]
        ctx.check(got == [[u for u, _ in spans], last], 'late-annotation', 'datagrams hold %s' % got)
        ctx.event(len(spans))
        ctx.count('switches', sc.switches)
        ctx.key(tuple(sc.schedule))
        ctx.sample({'switches': sc.switches, 'datagrams': got})


SCENARIOS = [
    Scenario('hostile_values', hostile_values, 1200, 20000, need=('events', 'hostile', 'datagrams')),
    Scenario('residue', residue, 700, 10000, need=('events', 'bad', 'failed_batches', 'datagrams')),
    Scenario('order', order, 300, 5000, need=('events', 'switches', 'datagrams')),
    Scenario('late', late, 400, 6000, need=('events', 'switches', 'datagrams')),
]
__all__ = ['core']
