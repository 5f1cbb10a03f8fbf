"""C08: a span context survives inject then extract in every format."""
from jv import gen, refcodec as rc
from jv.runner import Scenario
from jv.world import J, RecReporter

ID = 'C08'
RULE = ('random contexts (ids over the whole 64/128-bit range, all flags, baggage with arbitrary text) injected and extracted '
        'through the tracer, and read / written by an independent codec of each documented format; distinct by context and format')
ASSUMPTIONS = ['baggage keys are text equal to their lower-case form (header names are case-insensitive), baggage values are text',
               'the configured trace and debug header names do not start with the baggage prefix']


def bag_key(rng):
    r = rng.random()
    if r < 0.6:
        k = gen.word(rng)
    elif r < 0.7:
        k = rng.choice(['', 'uber-trace-id', 'uberctx-', 'uberctx-x', 'jaeger-baggage', 'jaeger-debug-id', 'x-b3-traceid', 'a_b', ':', '%41', 'a%20b'])
    else:
        k = gen.text(rng, 1, 8)
    # one lower-casing must be enough
    k = k.lower()
    return k if k.lower() == k else 'k'


def bag_value(rng):
    r = rng.random()
    if r < 0.1:
        return rng.choice(['', '%', '%41', '%zz', 'a+b c', 'a%2Bb', ' lead', 'trail ', 'x,y=z', '"q"', 'a:b:c:d', '\r\nX-Evil: 1'])
    return gen.text(rng, 0, 14)


def context(rng, baggage=True):
    t = gen.trace_id(rng)
    s = gen.id64(rng)
    p = None if rng.random() < 0.3 else gen.id64(rng)
    f = rng.choice([0, 1, 1, 2, 3, 3, 255, rng.randrange(256)])
    bag = {bag_key(rng): bag_value(rng) for _ in range(rng.choice([0, 0, 1, 2, 5]))} if baggage else {}
    return J.SpanContext(trace_id=t, span_id=s, parent_id=p, flags=f, baggage=dict(bag)), (t, s, p, f, bag)


def header_names(rng):
    """(kwargs of the tracer, effective lower-case names)"""
    kw, eff = {}, {'trace_id_header': 'uber-trace-id', 'baggage_header_prefix': 'uberctx-', 'debug_id_header': 'jaeger-debug-id'}
    if rng.random() < 0.5:
        for n, opts in (('trace_id_header', ['Trace_Id', 'x-trace', 'MY-TRACE_ID', 'uber-trace-id', 't']),
                        ('baggage_header_prefix', ['Bag_', 'ctx-', 'My_Bag-', 'b', 'UberCtx-']),
                        ('debug_id_header', ['Debug_Id', 'x-dbg', 'd'])):
            if rng.random() < 0.7:
                kw[n] = rng.choice(opts)
                eff[n] = kw[n].lower().replace('_', '-')
    return kw, eff


def tracer(rng):
    kw, eff = header_names(rng)
    if rng.random() < 0.3:
        kw['generate_128bit_trace_id'] = True
    return J.Tracer('svc', RecReporter(), J.ConstSampler(rng.random() < 0.5), **kw), eff


OTHER = ['content-type', 'Host', 'x-request-id', 'uber', 'uberct', 'jaeger', 'x-b3', 'trace', '', '\u4e2d', 'accept']


def unrelated(rng, eff):
    out = {}
    for _ in range(rng.randint(0, 4)):
        k = rng.choice(OTHER)
        lk = k.lower()
        if lk.startswith(eff['baggage_header_prefix']) or lk in (eff['trace_id_header'], eff['debug_id_header']):
            continue
        out[k] = rng.choice(['v', 'text/html', '%41', '1:2:3:4', ''])
    return out


def ids(c):
    return c.trace_id, c.span_id, c.parent_id, c.flags


def equal(ctx, got, want, what, bag=True):
    t, s, p, f, b = want
    ctx.check(got is not None, 'lost-context', '%s: nothing extracted' % what, want=want)
    ctx.check(ids(got) == (t, s, p, f), 'ids-differ', '%s: %r became %r' % (what, (t, s, p, f), ids(got)), want=want)
    for n in ('trace_id', 'span_id', 'flags'):
        ctx.check(type(getattr(got, n)) is int, 'ids-differ', '%s: %s is %r' % (what, n, getattr(got, n)))
    if bag:
        ctx.check(dict(got.baggage) == b, 'baggage-differs', '%s: baggage %r became %r' % (what, b, dict(got.baggage)), want=want)


def text_formats(ctx):
    rng = ctx.rng
    tr, eff = tracer(rng)
    for _ in range(4):
        c, want = context(rng)
        http = rng.random() < 0.5
        fmt = J.Format.HTTP_HEADERS if http else J.Format.TEXT_MAP
        other = unrelated(rng, eff)
        car = dict(other)
        subject = c
        if rng.random() < 0.3:
            subject = tr.start_span('x', ignore_active_span=True)
            subject.context.__init__(*want[:4], dict(want[4]))
        tr.inject(subject, fmt, car)
        ctx.notes.update(context=want, names=eff, http=http)
        ctx.check({k: car.get(k) for k in other} == other, 'carrier-disturbed', 'inject changed unrelated entries: %r' % car)
        # the documented format, read by someone else
        new = {k: v for k, v in car.items() if k not in other}
        expect_keys = {eff['trace_id_header']} | {eff['baggage_header_prefix'] + k for k in want[4]}
        ctx.check(set(new) == expect_keys, 'wire-format', 'carrier has entries %r, expected %r' % (sorted(new), sorted(expect_keys)))
        try:
            t, s, p, f = rc.read_text_id(new[eff['trace_id_header']])
            bag = {}
            for k, v in new.items():
                if k != eff['trace_id_header']:
                    bag[k[len(eff['baggage_header_prefix']):]] = rc.url_decode(v) if http else v
        except (ValueError, UnicodeDecodeError) as e:
            ctx.fail('wire-format', 'a conforming peer cannot read the carrier: %s' % e, carrier=car)
        ctx.check((t, s, p or None, f) == want[:4] and bag == want[4], 'wire-format', 'a conforming peer reads %r' % ((t, s, p, f, bag),), carrier=car)
        # own extraction, header names in any case
        back = {}
        for k, v in car.items():
            back[rc.vary_case(rng, k) if k.isascii() else k] = v
        before = dict(back)
        got = tr.extract(fmt, back)
        equal(ctx, got, want, fmt)
        ctx.check(back == before, 'carrier-disturbed', 'extract changed the carrier')
        # a carrier written by another conforming client
        peer = {rc.vary_case(rng, eff['trace_id_header']): rc.write_text_id(*want[:4], rng=rng)}
        for k, v in want[4].items():
            peer[(rc.vary_case(rng, eff['baggage_header_prefix']) + k)] = rc.url_encode(v, rng) if http else v
        peer.update(other)
        items = list(peer.items())
        rng.shuffle(items)
        equal(ctx, tr.extract(fmt, dict(items)), want, fmt + ' from a peer')
        if http and rng.random() < 0.3:
            enc = {eff['trace_id_header']: rc.url_encode(rc.write_text_id(*want[:4]))}
            equal(ctx, tr.extract(fmt, enc), want[:4] + ({},), 'url-encoded trace header')
        # headers that are passed on, with a later context put over the one they carry
        again, later = context(rng)
        bag = {**{k: bag_value(rng) for k in want[4]}, **later[4]}
        later = later[:4] + (bag,)
        tr.inject(J.SpanContext(*later[:4], baggage=dict(bag)), fmt, car)
        equal(ctx, tr.extract(fmt, car), later, fmt + ' over an earlier one')
        ctx.event(3)
        ctx.key(want[:4], http, tuple(sorted(want[4].items())))
    ctx.sample({'context': repr(want), 'carrier': repr(car)})


def binary(ctx):
    rng = ctx.rng
    tr, _ = tracer(rng)
    for _ in range(5):
        c, want = context(rng)
        # binary keys are case-sensitive and any text
        bag = {}
        for _ in range(rng.choice([0, 1, 3, 20])):
            bag[gen.text(rng, 0, 10)] = gen.text(rng, 0, 30) * rng.choice([1, 1, 50])
        c = J.SpanContext(*want[:4], baggage=dict(bag))
        want = want[:4] + (bag,)
        ctx.notes.update(context=want)
        car = bytearray()
        tr.inject(c, J.Format.BINARY, car)
        try:
            t, s, p, f, pairs = rc.read_binary(car)
        except Exception as e:
            ctx.fail('wire-format', 'a conforming peer cannot read the carrier: %r' % e, carrier=car.hex())
        ctx.check((t, s, p or None, f) == want[:4] and dict(pairs) == bag and len(pairs) == len(bag), 'wire-format',
                  'a conforming peer reads %r' % ((t, s, p, f, pairs),))
        raw = bytes(car)
        equal(ctx, tr.extract(J.Format.BINARY, car), want, 'binary')
        ctx.check(bytes(car) == raw, 'carrier-disturbed', 'extract changed the carrier')
        equal(ctx, tr.extract(J.Format.BINARY, rc.write_binary(*want[:4], baggage=bag)), want, 'binary from a peer')
        ctx.event(2)
        ctx.key(want[:4], len(bag), raw[-8:])
    ctx.sample({'context': repr(want)[:300]})


class Holder(object):
    pass


def zipkin(ctx):
    rng = ctx.rng
    tr, _ = tracer(rng)
    for _ in range(6):
        c, want = context(rng, baggage=False)
        ctx.notes.update(context=want)
        other = {'headers': {'a': 1}, 'x': 2}
        car = dict(other)
        tr.inject(c, J.ZipkinSpanFormat, car)
        w = dict(other, trace_id=want[0], span_id=want[1], parent_id=want[2], traceflags=want[3])
        ctx.check(car == w, 'wire-format', 'carrier %r, expected %r' % (car, w))
        equal(ctx, tr.extract(J.ZipkinSpanFormat, car), want, 'zipkin', bag=False)
        again, later = context(rng, baggage=False)
        tr.inject(again, J.ZipkinSpanFormat, car)
        equal(ctx, tr.extract(J.ZipkinSpanFormat, car), later, 'zipkin over an earlier one', bag=False)
        tr.inject(c, J.ZipkinSpanFormat, car)
        h = Holder()
        h.__dict__.update({k: v for k, v in car.items() if k not in other})
        equal(ctx, tr.extract(J.ZipkinSpanFormat, h), want, 'zipkin object', bag=False)
        ctx.event(2)
        ctx.key(want[:4])
    ctx.sample({'context': repr(want)})


def b3(ctx):
    """Ids and the sampling decision, as seen by a child on the other side."""
    rng = ctx.rng
    wide = rng.random() < 0.3
    codec = J.B3Codec(generate_128bit_trace_id=wide)
    never = J.Tracer('svc', RecReporter(), J.ConstSampler(rng.random() < 0.5), extra_codecs={J.Format.HTTP_HEADERS: codec, 'b3': codec})
    for _ in range(5):
        c, want = context(rng, baggage=False)
        t, s, p, f = want[:4]
        ctx.notes.update(context=want)
        other = {'Host': 'h', 'x-b3': 'no', 'X-B3-Other': '5'}
        car = dict(other)
        never.inject(c, rng.choice([J.Format.HTTP_HEADERS, 'b3']), car)
        ctx.check({k: car[k] for k in other} == other, 'carrier-disturbed', 'inject changed unrelated entries: %r' % car)
        sampled, debug = bool(f & 1), bool(f & 2)
        try:
            rt, rs, rp, rsampled, rdebug = rc.read_b3(car)
        except (ValueError, KeyError) as e:
            ctx.fail('wire-format', 'a conforming peer cannot read the headers: %r' % e, carrier=car)
        ctx.check((rt, rs, rp) == (t, s, p), 'wire-format', 'a conforming peer reads ids %r' % ((rt, rs, rp),), carrier=car)
        ctx.check((rsampled, rdebug) == (sampled or debug, debug), 'wire-format',
                  'a conforming peer reads sampled=%s debug=%s of flags %d' % (rsampled, rdebug, f), carrier=car)
        ctx.check(not wide or len(car['X-B3-TraceId']) == 32, 'wire-format', '128-bit mode wrote %r' % car['X-B3-TraceId'])
        peer = {'X-B3-TraceId': '%016x' % t if t < 1 << 64 and rng.random() < 0.5 else '%032x' % t, 'X-B3-SpanId': '%016x' % s}
        if p:
            peer['X-B3-ParentSpanId'] = '%016x' % p
        if debug:
            peer['X-B3-Flags'] = '1'
            if rng.random() < 0.5:
                peer['X-B3-Sampled'] = '1'
        elif rng.random() < 0.9 or sampled:
            peer['X-B3-Sampled'] = '1' if sampled else '0'
        for what, cc in (('own headers', car), ('peer headers', peer)):
            items = [(rc.vary_case(rng, k), v.upper() if rng.random() < 0.2 and 'Id' in k else v) for k, v in cc.items()]
            rng.shuffle(items)
            got = never.extract(J.Format.HTTP_HEADERS, dict(items))
            ctx.check(got is not None, 'lost-context', '%s: nothing extracted' % what)
            ctx.check(ids(got)[:3] == (t, s, p), 'ids-differ', '%s: %r became %r' % (what, (t, s, p), ids(got)[:3]))
            ch = never.start_span('child', child_of=got)
            ctx.check((ch.trace_id, ch.parent_id) == (t, s), 'ids-differ', '%s: child continues %r' % (what, (ch.trace_id, ch.parent_id)))
            ctx.check((ch.is_sampled(), ch.is_debug()) == (sampled or debug, debug), 'decision-lost',
                      '%s: child sampled=%s debug=%s, injected flags %d' % (what, ch.is_sampled(), ch.is_debug(), f), carrier=cc)
            # and the next hop still sees the same decision
            nxt = {}
            never.inject(ch, J.Format.HTTP_HEADERS, nxt)
            ctx.check(rc.read_b3(nxt)[3:] == (sampled or debug, debug), 'decision-lost', '%s: next hop reads %r' % (what, nxt))
        ctx.event(2)
        ctx.key(want[:4], wide)
    ctx.sample({'context': repr(want), 'headers': repr(car)})


def chain(ctx):
    """Contexts of real spans hop through services and formats; ids, decision and baggage arrive."""
    rng = ctx.rng
    nodes = [J.Tracer('s%d' % i, RecReporter(), J.ConstSampler(rng.random() < 0.7), generate_128bit_trace_id=rng.random() < 0.5)
             for i in range(3)]
    span = nodes[0].start_span('root')
    bag = {}
    root = span.trace_id
    flags = span.flags
    path = []
    for hop in range(rng.randint(1, 6)):
        for _ in range(rng.randint(0, 2)):
            k, v = bag_key(rng), bag_value(rng)
            span.set_baggage_item(k, v)
            bag[k] = v
        fmt = rng.choice([J.Format.TEXT_MAP, J.Format.HTTP_HEADERS, J.Format.BINARY])
        car = bytearray() if fmt == J.Format.BINARY else {}
        me = nodes[hop % 3]
        me.inject(span, fmt, car)
        nxt = nodes[(hop + 1) % 3]
        c = nxt.extract(fmt, car)
        equal(ctx, c, (span.trace_id, span.span_id, span.parent_id, span.flags, bag), 'hop %d %s' % (hop, fmt))
        child = nxt.start_span('op', child_of=c)
        ctx.check((child.trace_id, child.parent_id, child.flags) == (root, span.span_id, flags), 'ids-differ', 'child on hop %d' % hop)
        ctx.check(dict(child.context.baggage) == bag, 'baggage-differs', 'hop %d' % hop)
        span = child
        path.append(str(fmt))
        ctx.event()
    ctx.key(root, tuple(path), tuple(sorted(bag.items())))
    ctx.sample({'path': path, 'baggage': len(bag)})


SCENARIOS = [
    Scenario('text_formats', text_formats, 1500, 40000),
    Scenario('binary', binary, 900, 20000),
    Scenario('zipkin', zipkin, 300, 4000),
    Scenario('b3', b3, 1200, 30000),
    Scenario('chain', chain, 500, 12000),
]
