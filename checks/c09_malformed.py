"""C09: malformed carriers are rejected cleanly and never yield an invalid context."""
import struct

from jv import gen, refcodec as rc
from jv.runner import Scenario
from jv.world import J, RecReporter

ID = 'C09'
RULE = ('carriers produced by mutating valid ones (every truncation, every field out of range, wrong types, odd text, duplicated and '
        'unrelated entries) and by pure fuzzing, for text-map, HTTP, B3 and binary; the oracle admits None, a legal context, or the two '
        'documented exceptions; distinct by carrier')
ASSUMPTIONS = ['carrier keys are text']

MAX_T, MAX_I = (1 << 128) - 1, (1 << 64) - 1


class MyDict(dict):
    pass


def is_id(v, top, zero):
    return type(v) is int and (0 if zero else 1) <= v <= top


def judge(ctx, tr, fmt, car, what, zero_ok=False):
    """Extract and classify; returns 'none', 'ctx', 'partial' or the exception name."""
    try:
        got = tr.extract(fmt, car)
    except (J.InvalidCarrierException, J.SpanContextCorruptedException) as e:
        ctx.count(type(e).__name__)
        return type(e).__name__
    except Exception as e:
        ctx.fail('undocumented-exception', '%s %s: extract raised %r' % (fmt, what, e), carrier=repr(car)[:500])
        return 'bad'
    if got is None:
        ctx.count('none')
        return 'none'
    ctx.check(isinstance(got, J.SpanContext), 'illegal-context', '%s: extract returned %r' % (what, got))
    t, s, p, f = got.trace_id, got.span_id, got.parent_id, got.flags
    if t is None and s is None and not zero_ok:
        ctx.check(p is None and f is None, 'illegal-context', '%s: context without ids has parent %r flags %r' % (what, p, f), carrier=repr(car)[:500])
        ctx.check(bool(got.debug_id) or bool(got.baggage), 'illegal-context', '%s: empty context' % what, carrier=repr(car)[:500])
        ctx.count('partial')
        kind = 'partial'
    else:
        ok = is_id(t, MAX_T, zero_ok) and is_id(s, MAX_I, zero_ok) and (p is None or is_id(p, MAX_I, False)) and \
            type(f) is int and 0 <= f <= 255
        ctx.check(ok, 'illegal-context', '%s %s: context %r' % (fmt, what, (t, s, p, f)), carrier=repr(car)[:500])
        ctx.count('contexts')
        kind = 'ctx'
    sp = tr.start_span('child', child_of=got)
    ok = is_id(sp.trace_id, MAX_T, False) and is_id(sp.span_id, MAX_I, False) and (sp.parent_id is None or is_id(sp.parent_id, MAX_I, False)) \
        and type(sp.flags) is int and 0 <= sp.flags <= 255
    ctx.check(ok, 'illegal-context', '%s %s: a child of it has ids %r' % (fmt, what, (sp.trace_id, sp.span_id, sp.parent_id, sp.flags)))
    sp.finish()
    return kind


def odd_value(rng):
    return rng.choice([None, 0, 1, -1, 1.5, True, b'bytes', b'\xff', [], ['a'], ['1:2:3:4'], ['1:2:3:4', '5:6:7:8'], [None], {}, {'a': 1}, (), object(),
                       '', ' ', 'x', '\ud800', '\0', '%', '%ff%fe', '%E0%A4%A', '1' * 5000])


def odd_number(rng):
    return rng.choice(['0', '', '-1', '+1', ' 1', '1 ', '0x1', '1_0', '__', 'g', 'xyz', '1.5', '1e5', 'ffffffffffffffff', '10000000000000000',
                       'f' * 32, '1' + '0' * 32, 'f' * 33, '-f', '00', '0' * 40 + '1', '\u0661', '\uff11', '\u00b2', '100', 'ff', 'FF', '\ud800',
                       '\0', '1\n', '9' * 4301, 'f' * 10000, 'None', 'nan'])


def good_text(rng):
    return rc.write_text_id(gen.trace_id(rng), gen.id64(rng), rng.choice([0, gen.id64(rng)]), rng.randrange(256), rng)


def text_id(rng):
    r = rng.random()
    if r < 0.25:
        v = good_text(rng)
        k = rng.randrange(5)
        if k == 0:
            return v[:rng.randint(0, len(v))]
        if k == 1:
            i = rng.randint(0, len(v))
            return v[:i] + rng.choice(gen.CHARS) + v[i:]
        if k == 2:
            i = rng.randrange(len(v))
            return v[:i] + v[i + 1:]
        if k == 3:
            return v + rng.choice([':', ':1', ' ', '\n', v])
        return v.replace(':', rng.choice(['%3A', '%3a', ';', '::', '']))
    if r < 0.7:
        parts = good_text(rng).split(':')
        for _ in range(rng.choice([1, 1, 2])):
            parts[rng.randrange(4)] = odd_number(rng)
        return ':'.join(parts)
    if r < 0.8:
        return ':'.join(odd_number(rng) for _ in range(rng.randint(0, 6)))
    if r < 0.9:
        return odd_value(rng)
    return rng.choice([['%s' % good_text(rng)], [good_text(rng), good_text(rng)], [odd_value(rng)], good_text(rng).encode(), gen.text(rng)])


def text_formats(ctx):
    rng = ctx.rng
    tr = J.Tracer('svc', RecReporter(), J.ConstSampler(True))
    for _ in range(6):
        fmt = rng.choice([J.Format.TEXT_MAP, J.Format.HTTP_HEADERS])
        car = {}
        for _ in range(rng.randint(0, 4)):
            k = rng.choice(['uber-trace-id', 'uber-trace-id', 'uberctx-k', 'uberctx-', 'jaeger-debug-id', 'jaeger-baggage', 'x', '', gen.text(rng)])
            k = rc.vary_case(rng, k)
            lk = k.lower()
            if lk == 'uber-trace-id':
                car[k] = text_id(rng)
            elif lk == 'jaeger-baggage' and rng.random() < 0.7:
                car[k] = rng.choice(['k1=v1,k2=v2', 'k1', '=', '=,=', 'a=b=c', ',,,', ' a = b ', gen.text(rng)])
            else:
                car[k] = odd_value(rng) if rng.random() < 0.5 else gen.text(rng)
        ctx.event()
        r = judge(ctx, tr, fmt, MyDict(car) if rng.random() < 0.2 else car, 'fuzzed')
        ctx.key(r, fmt, repr(sorted(car.items(), key=repr))[:2000] if 'object' not in repr(car) else len(car))
    ctx.sample({'carrier': repr(car)[:200], 'result': r})


def parts(ctx):
    """A trace header of other than four parts is no trace, however good its parts are."""
    rng = ctx.rng
    tr = J.Tracer('svc', RecReporter(), J.ConstSampler(True))
    for _ in range(5):
        n = rng.choice([1, 2, 3, 4, 5, 5, 6, 8])
        p = [rng.choice([lambda: '%x' % gen.id64(rng), lambda: rng.choice(['0', '1', '3', '', 'f']), lambda: '%032x' % gen.trace_id(rng)])() for _ in range(n)]
        if n >= 4:
            p[:4] = good_text(rng).split(':')
        v = ':'.join(p)
        if rng.random() < 0.3 or n == 4:
            v = v.replace(':', '%3A' if rng.random() < 0.5 else '%3a')
        # (a text map is not URL-encoded: there four parts joined by %3A are one part)
        fmt = J.Format.TEXT_MAP if n == 4 else rng.choice([J.Format.TEXT_MAP, J.Format.HTTP_HEADERS])
        car = {rc.vary_case(rng, 'uber-trace-id'): v}
        if rng.random() < 0.3:
            car['uberctx-k'] = 'v'
        r = judge(ctx, tr, fmt, car, '%d parts' % n)
        ctx.check(r != 'ctx', 'parts', 'a trace header of %d parts is accepted' % n, carrier=repr(car)[:500], format=fmt)
        ctx.event()
        ctx.key(v, fmt)
    ctx.sample({'carrier': car, 'result': r})


def carrier_types(ctx):
    """Things that are not carriers at all."""
    rng = ctx.rng
    tr = J.Tracer('svc', RecReporter(), J.ConstSampler(True), extra_codecs={'b3': J.B3Codec()})
    for _ in range(6):
        bad = rng.choice([None, 'text', b'bytes', 7, 1.5, [], [('uber-trace-id', '1:2:3:4')], (), set(), object(), True, bytearray(b'x' * 37), memoryview(b'1234')])
        fmt = rng.choice([J.Format.TEXT_MAP, J.Format.HTTP_HEADERS, 'b3', J.Format.BINARY])
        if fmt == J.Format.BINARY:
            if isinstance(bad, bytearray):
                bad = {}
        for op in ('extract', 'inject'):
            try:
                if op == 'extract':
                    tr.extract(fmt, bad)
                else:
                    tr.inject(J.SpanContext(1, 2, 3, 1), fmt, bad)
            except J.InvalidCarrierException:
                ctx.event()
                continue
            except Exception as e:
                ctx.fail('undocumented-exception', '%s from a %s carrier raised %r' % (op, type(bad).__name__, e), format=fmt)
            ctx.fail('wrong-carrier-accepted', '%s accepted a %s carrier' % (op, type(bad).__name__), format=fmt)
        ctx.key(fmt, repr(type(bad)))
    ctx.sample({'carrier': repr(bad), 'format': str(fmt)})


B3_KEYS = ['X-B3-TraceId', 'X-B3-SpanId', 'X-B3-ParentSpanId', 'X-B3-Sampled', 'X-B3-Flags']


def b3(ctx):
    rng = ctx.rng
    tr = J.Tracer('svc', RecReporter(), J.ConstSampler(True), extra_codecs={J.Format.HTTP_HEADERS: J.B3Codec(rng.random() < 0.5)})
    for _ in range(6):
        car = {'X-B3-TraceId': '%032x' % gen.trace_id(rng), 'X-B3-SpanId': '%016x' % gen.id64(rng), 'X-B3-ParentSpanId': '%016x' % gen.id64(rng),
               'X-B3-Sampled': rng.choice(['0', '1']), 'X-B3-Flags': rng.choice(['0', '1'])}
        for _ in range(rng.randint(1, 3)):
            k = rng.choice(B3_KEYS)
            how = rng.random()
            if how < 0.25:
                car.pop(k, None)
            elif how < 0.75:
                car[k] = odd_number(rng)
            else:
                car[k] = odd_value(rng)
        car = {rc.vary_case(rng, k): v for k, v in car.items()}
        if rng.random() < 0.3:
            car[gen.text(rng)] = odd_value(rng)
        ctx.event()
        r = judge(ctx, tr, J.Format.HTTP_HEADERS, car, 'b3')
        ctx.key(r, repr(car)[:1000] if 'object' not in repr(car) else len(car))
    ctx.sample({'headers': repr(car)[:300], 'result': r})


def binary(ctx):
    rng = ctx.rng
    tr = J.Tracer('svc', RecReporter(), J.ConstSampler(True))
    bag = {gen.text(rng, 0, 6): gen.text(rng, 0, 6) for _ in range(rng.choice([0, 1, 2, 4]))}
    good = bytes(rc.write_binary(rng.choice([0, gen.trace_id(rng)]), rng.choice([0, gen.id64(rng)]), rng.choice([0, gen.id64(rng)]), rng.randrange(256), bag))
    kind = rng.choice(['truncate', 'lengths', 'fuzz', 'flip'])
    if kind == 'truncate':
        for i in range(len(good)):
            ctx.event()
            r = judge(ctx, tr, J.Format.BINARY, bytearray(good[:i]), 'cut at %d of %d' % (i, len(good)), zero_ok=True)
            ctx.check(r == 'SpanContextCorruptedException', 'truncation-accepted', 'a carrier cut at byte %d of %d is accepted' % (i, len(good)), carrier=good.hex())
        ctx.key(good)
    elif kind == 'lengths':
        for pos in [33] + ([37] if bag else []):
            for n in (0, 1, 2, 255, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffc, len(good)):
                b = bytearray(good)
                b[pos:pos + 4] = struct.pack('>I', n)
                ctx.event()
                judge(ctx, tr, J.Format.BINARY, b, 'length %d at %d' % (n, pos), zero_ok=True)
                ctx.key(bytes(b))
    elif kind == 'flip':
        for _ in range(20):
            b = bytearray(good)
            for _ in range(rng.randint(1, 3)):
                if len(b):
                    b[rng.randrange(len(b))] = rng.choice([0, 1, 0x7f, 0x80, 0xc3, 0xff])
            ctx.event()
            judge(ctx, tr, J.Format.BINARY, b, 'flipped', zero_ok=True)
            ctx.key(bytes(b))
    else:
        for _ in range(10):
            b = bytearray(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 36, 37, 38, 41, 45, 60])))
            if len(b) >= 37:
                b[33:37] = struct.pack('>I', rng.choice([0, 1, 2]))
            ctx.event()
            judge(ctx, tr, J.Format.BINARY, b, 'random', zero_ok=True)
            ctx.key(bytes(b))
    ctx.sample({'kind': kind, 'carrier': good.hex()[:160]})


def unrelated(ctx):
    """A valid trace context is extracted whatever else is in the carrier."""
    rng = ctx.rng
    b3 = rng.random() < 0.4
    codec = J.B3Codec()
    tr = J.Tracer('svc', RecReporter(), J.ConstSampler(True), extra_codecs={'b3': codec})
    for _ in range(4):
        t, s, p, f = gen.trace_id(rng), gen.id64(rng), rng.choice([None, gen.id64(rng)]), rng.choice([0, 1])
        if b3:
            car = {'X-B3-TraceId': '%032x' % t, 'X-B3-SpanId': '%016x' % s, 'X-B3-Sampled': str(f)}
            if p:
                car['X-B3-ParentSpanId'] = '%016x' % p
            taken = ('x-b3-traceid', 'x-b3-spanid', 'x-b3-parentspanid', 'x-b3-sampled', 'x-b3-flags')
            fmt = 'b3'
        else:
            car = {'uber-trace-id': rc.write_text_id(t, s, p, f, rng)}
            taken = ('uber-trace-id',)
            fmt = rng.choice([J.Format.TEXT_MAP, J.Format.HTTP_HEADERS])
        junk = {}
        for _ in range(rng.randint(1, 6)):
            k = rng.choice([gen.text(rng), gen.word(rng), 'uberctx-' + gen.word(rng), 'jaeger-baggage', 'jaeger-debug-id', 'x-b3-x', 'uber-trace-i', 'Cookie',
                            'uber-trace-id-2', 'X-B3-TraceIdx', 'b3', 'traceparent'])
            if k.lower() in taken:
                continue
            junk[k] = rng.choice([odd_value(rng), gen.text(rng), odd_number(rng), rng.choice(['1', '0', 'd', 'true']), '%x' % gen.id64(rng),
                                  rc.write_text_id(gen.trace_id(rng), gen.id64(rng), None, rng.choice([0, 1, 3]), rng)])
        items = list(car.items()) + list(junk.items())
        rng.shuffle(items)
        try:
            got = tr.extract(fmt, dict(items))
        except Exception as e:
            ctx.fail('rejected-by-junk', 'a carrier with a valid trace context is rejected: %r' % e, junk=repr(junk)[:500], format=fmt)
        ctx.check(got is not None and (got.trace_id, got.span_id, got.parent_id, got.flags) == (t, s, p, f), 'rejected-by-junk',
                  'valid trace context among unrelated entries extracted as %r' % (got and (got.trace_id, got.span_id, got.parent_id, got.flags),),
                  junk=repr(junk)[:500], want=(t, s, p, f))
        ctx.event()
        ctx.key(t, s, len(junk), fmt)
    ctx.sample({'format': str(fmt), 'entries': repr(items)[:300]})


def misuse(ctx):
    """Unknown formats, foreign contexts and incomplete Zipkin carriers are refused, and the carrier is left alone."""
    import opentracing
    rng = ctx.rng
    tr = J.Tracer('svc', RecReporter(), J.ConstSampler(True), extra_codecs={'b3': J.B3Codec()})
    own = J.SpanContext(gen.trace_id(rng), gen.id64(rng), rng.choice([None, gen.id64(rng)]), rng.randrange(4), {'k': 'v'})
    formats = [J.Format.TEXT_MAP, J.Format.HTTP_HEADERS, J.Format.BINARY, 'b3', J.ZipkinSpanFormat]
    for _ in range(6):
        what = rng.choice(['format', 'context', 'zipkin-object', 'zipkin-carrier', 'zipkin-empty'])
        start = {gen.word(rng): gen.text(rng) for _ in range(rng.randint(0, 3))}
        car, fmt = dict(start), None
        if what == 'format':
            fmt = rng.choice(['', 'text', 'TEXT_MAP', None, 7, 'http', 'B3', 'zipkin', 'x' * 100, True, ('b3',)])
            call = rng.choice([lambda: tr.extract(fmt, car), lambda: tr.inject(own, fmt, car), lambda: tr.inject(None, fmt, car)])
            want = opentracing.UnsupportedFormatException
        elif what == 'context':
            fmt = rng.choice(formats)
            if fmt == J.Format.BINARY:
                car = bytearray(b'keep')
                start = bytes(car)
            bad = rng.choice([None, 'x', 7, {}, object(), opentracing.SpanContext(), opentracing.Tracer().start_span('x'), '1:2:0:1', (1, 2, 0, 1), J.SpanContext])
            call, want = (lambda: tr.inject(bad, fmt, car)), ValueError
        elif what == 'zipkin-object':
            class Holder(object):
                pass
            car = Holder()
            names = ['trace_id', 'span_id', 'parent_id', 'traceflags']
            for n in names:
                setattr(car, n, rng.choice([0, 1, gen.id64(rng)]))
            for n in rng.sample(names, rng.randint(1, 4)):
                delattr(car, n)
            start = dict(vars(car))
            call, want = (lambda: tr.extract(J.ZipkinSpanFormat, car)), J.InvalidCarrierException
        elif what == 'zipkin-carrier':
            car = rng.choice([None, 'x', [], 7, object(), ()])
            start = car
            call = rng.choice([lambda: tr.extract(J.ZipkinSpanFormat, car), lambda: tr.inject(own, J.ZipkinSpanFormat, car)])
            want = J.InvalidCarrierException
        else:
            car.update({'trace_id': rng.choice([0, None]), 'span_id': rng.choice([0, None, 5]), 'parent_id': rng.choice([0, None, 5]), 'traceflags': rng.choice([0, 1, None])})
            if rng.random() < 0.3:
                del car['trace_id']
            start = dict(car)
            call, want = (lambda: tr.extract(J.ZipkinSpanFormat, car)), None
        ctx.notes.update(what=what, format=repr(fmt), carrier=repr(car)[:300])
        try:
            r = call()
        except Exception as e:
            ctx.check(want is not None and isinstance(e, want), 'undocumented-exception', '%s raised %r' % (what, e))
        else:
            ctx.check(want is None and r is None, 'wrong-carrier-accepted', '%s returned %r' % (what, r))
        now = bytes(car) if isinstance(car, bytearray) else dict(vars(car)) if what == 'zipkin-object' else car
        ctx.check(now == start, 'carrier-touched', 'the refused call changed the carrier from %r to %r' % (start, now))
        ctx.event()
        ctx.count(what.replace('-', '_'))
        ctx.key(what, repr(fmt), want, repr(start)[:200] if what.startswith(("format", "zipkin-empty")) else what)
    ctx.sample({'last': what, 'format': repr(fmt)})


SCENARIOS = [
    Scenario('text_formats', text_formats, 2500, 60000, need=('events', 'SpanContextCorruptedException', 'none', 'partial', 'contexts')),
    Scenario('parts', parts, 300, 6000),
    Scenario('carrier_types', carrier_types, 60, 600),
    Scenario('b3', b3, 1500, 40000, need=('events', 'SpanContextCorruptedException', 'none', 'contexts')),
    Scenario('binary', binary, 1200, 30000, need=('events', 'SpanContextCorruptedException', 'contexts')),
    Scenario('unrelated', unrelated, 1000, 20000),
    Scenario('misuse', misuse, 200, 4000, need=('events', 'format', 'context', 'zipkin_object', 'zipkin_carrier', 'zipkin_empty')),
]
