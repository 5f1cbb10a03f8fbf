"""C03: the datagram carries exactly what the application recorded."""
import socket
import traceback

from jv import core, gen, wire
from jv.runner import Scenario
from jv.world import J
from jv.repwork import Rig

ID = 'C03'
RULE = ('random spans (values of every type at their limits, logs, references, remote parents, all id widths, explicit '
        'and clock times, random length limits) through the real reporter; every field of the decoded datagram is compared '
        'with an independent record of the calls; distinct by the values recorded')
ASSUMPTIONS = ['integers fit in 64 bits, times are finite and within 1970..2200',
               'a time is considered equal when it differs by at most one microsecond (double rounding)']


def expect_value(v, maxlen, maxtb):
    """(type name, value) that a conforming client puts on the wire."""
    if type(v).__name__ == 'bool':
        return 'BOOL', v
    if isinstance(v, int):
        return 'LONG', int(v)
    if isinstance(v, float):
        return 'DOUBLE', float(v)
    if type(v).__name__ == 'traceback':
        return 'STRING', ''.join(traceback.format_tb(v))[:maxtb]
    return 'STRING', text(v)[:maxlen]


def text(v):
    try:
        return str(v)
    except Exception as e:
        return str(e)


NAMES = {'str': 'STRING', 'dbl': 'DOUBLE', 'bool': 'BOOL', 'i64': 'LONG', 'bin': 'BINARY'}


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'DOUBLE':
        return repr(float(a[1])) == repr(float(b[1]))
    return a[1] == b[1] and type(a[1]) == type(b[1])


def got_tags(tags):
    return [(k, (NAMES[t], v)) for k, t, v in wire.tag_list(tags)]


def cmp_tags(ctx, what, got, exp, **w):
    gk, ek = [k for k, _ in got], [k for k, _ in exp]
    ctx.check(gk == ek, what + '-keys', '%s on the wire have keys %r, recorded %r' % (what, gk, ek), **w)
    for (k, g), (_, e) in zip(got, exp):
        ctx.check(same(g, e), what + '-value', '%s %r on the wire is %r, recorded %r' % (what, k, g, e), **w)


SKIP = ('sampler.type', 'sampler.param')


def fidelity(ctx):
    rng = ctx.rng
    maxlen = rng.choice([1, 7, 64, 1024, 1024, 4096])
    maxtb = rng.choice([1, 50, 4096, 4096])
    ptags = {}
    for _ in range(rng.randint(0, 4)):
        ptags['p.' + gen.word(rng)] = gen.tag_value(rng)
    own_host = rng.random() < 0.4
    own_ip = rng.random() < 0.4
    if own_host:
        ptags['hostname'] = 'host-%s' % gen.word(rng)
    if own_ip:
        ptags['ip'] = '10.1.2.3'
    svc = rng.choice(['svc', 'sérvice', 'a b', gen.text(rng, 1, 10) or 'x'])
    wide = rng.random() < 0.5
    with Rig(ctx, queue_capacity=60, batch_size=rng.choice([1, 2, 5, 20]), flush_interval=0.5) as rig:
        clk = rig.world.clock
        given = dict(ptags)
        thr = None
        if rng.random() < 0.3:
            thr = J.RemoteThrottler(rig.sender, svc, metrics_factory=rig.mf)
        tr = J.Tracer(svc, rig.reporter, J.ConstSampler(True), metrics_factory=rig.mf, generate_128bit_trace_id=wide,
                      tags=given or None, max_tag_value_length=maxlen, max_traceback_length=maxtb, throttler=thr,
                      one_span_per_rpc=rng.random() < 0.5)
        exp = {}
        order = []
        made = []
        for i in range(rng.randint(1, 8)):
            clk.advance(rng.choice([0, 1e-6, 0.25, 1.5]))
            kw = {}
            r = rng.random()
            ctxs = [m.context for m in made]
            if r < 0.25:
                kw['child_of'] = J.SpanContext(gen.trace_id(rng), gen.id64(rng), rng.choice([None, gen.id64(rng)]), rng.choice([1, 3, 0x81, 0x0f]))
            elif r < 0.5 and made:
                kw['child_of'] = rng.choice(made)
            elif r < 0.8:
                pool = ctxs + [J.SpanContext(gen.trace_id(rng), gen.id64(rng), None, 1)]
                refs = [J.Reference(rng.choice([J.ReferenceType.CHILD_OF, J.ReferenceType.FOLLOWS_FROM]), rng.choice(pool))
                        for _ in range(rng.randint(1, 3))]
                kw['references'] = refs if rng.random() < 0.8 or len(refs) > 1 else refs[0]
            forced = None
            if not kw and thr is None and rng.random() < 0.5:
                forced = gen.word(rng)
                kw['child_of'] = J.SpanContext(None, None, None, None, None, forced)
                if rng.random() < 0.5:
                    kw['references'] = [J.Reference(J.ReferenceType.CHILD_OF, kw.pop('child_of'))]
            start = clk.wall
            if rng.random() < 0.4:
                start = kw['start_time'] = rng.choice([clk.wall - 10, 1.0, 1234567890.123456, 4e9, int(clk.wall), clk.wall + rng.random()])
            tags = []
            if rng.random() < 0.5:
                d = {}
                for _ in range(rng.randint(0, 4)):
                    d[gen.key(rng)] = gen.tag_value(rng)
                if rng.random() < 0.3:
                    d['span.kind'] = rng.choice(['client', 'server', 'producer'])
                tags += list(d.items())
                kw['tags'] = d
            if forced:
                tags.append(('jaeger-debug-id', forced))
                ctx.count('forced')
            name = rng.choice([gen.word(rng), gen.text(rng, 0, 20), 'x' * 300])
            s = tr.start_span(name, ignore_active_span=True, **kw)
            uid = ('uid', i)
            s.set_tag(*uid)
            tags.append(uid)
            logs = []
            for _ in range(rng.randint(0, 7)):
                clk.advance(rng.choice([0, 0, 1e-6, 0.01]))
                a = rng.random()
                if a < 0.45:
                    k, v = gen.key(rng), gen.tag_value(rng)
                    s.set_tag(k, v)
                    tags.append((k, v))
                elif a < 0.85:
                    f = {}
                    for _ in range(rng.randint(0, 4)):
                        f[gen.key(rng)] = gen.tag_value(rng)
                    ts = None
                    if rng.random() < 0.4:
                        ts = rng.choice([clk.wall - 1, 17.25, clk.wall + 100])
                    s.log_kv(f, ts)
                    logs.append((ts or clk.wall, list(f.items())))
                elif a < 0.93:
                    name = rng.choice([gen.text(rng, 0, 10), 'renamed'])
                    s.set_operation_name(name)
                else:
                    s.info('msg', None)
                    logs.append((clk.wall, [('event', 'msg')]))
            clk.advance(rng.choice([0, 1e-6, 0.3, 100.0]))
            end = clk.wall
            boom = rng.random() < 0.15
            if boom:
                try:
                    with s:
                        raise KeyError('boom')
                except KeyError as e:
                    tb = e.__traceback__
                del tb
                logs = None        # opentracing adds its own error log; checked separately below
                tags.append(('error', True))
            elif rng.random() < 0.4:
                end = rng.choice([start + rng.random() * 100, start, start + 1e-6, start + 3600 * 24])
                s.finish(end)
            else:
                s.finish()
            made.append(s)
            order.append(i)
            refs = kw.get('references')
            refs = refs if isinstance(refs, list) else [refs] if refs else []
            exp[i] = dict(name=name, tags=tags, logs=logs, start=start, end=end, boom=boom,
                          ids=(s.trace_id, s.span_id, s.parent_id or 0, s.context.flags),
                          refs=[(r.type, r.referenced_context.trace_id, r.referenced_context.span_id) for r in refs if r.referenced_context.trace_id])
            if rng.random() < 0.3:
                rig.world.run_for(0.7)
        rig.world.run_for(2)
        got = []
        for _, data, _, _ in rig.tap.sent:
            b = wire.decode(data)
            pt = dict(got_tags(b['process']['tags']))
            ctx.check(b['process']['serviceName'] == svc, 'service-name', 'process name %r, configured %r' % (b['process']['serviceName'], svc))
            for k, v in ptags.items():
                e = expect_value(v, maxlen, 4096)
                ctx.check(k in pt and same(pt[k], e), 'process-tag', 'process tag %r is %r, configured %r' % (k, pt.get(k), e))
            ver = pt.get('jaeger.version')
            ctx.check(ver is not None and ver[0] == 'STRING' and ver[1] == ('Python-%s' % version())[:maxlen], 'process-version', 'client version tag is %r' % (ver,))
            if not own_host:
                ctx.check(pt.get('hostname') == ('STRING', socket.gethostname()[:maxlen]), 'process-hostname', 'hostname tag is %r' % (pt.get('hostname'),))
            ctx.check('ip' in pt if own_ip else 'ip' not in pt or pt['ip'][1] not in ('', 'None'), 'process-ip', 'ip tag is %r' % (pt.get('ip'),))
            if thr is not None:
                cid = pt.get('client-uuid')
                ctx.check(cid is not None and cid[0] == 'LONG', 'process-client-uuid', 'client uuid tag is %r' % (cid,))
            allowed = set(ptags) | {'jaeger.version', 'hostname', 'ip', 'client-uuid'}
            ctx.check(set(pt) <= allowed, 'process-extra', 'unknown process tags %r' % (set(pt) - allowed,))
            got += b['spans']
            ctx.count('datagrams')
        ctx.check(len(got) == len(order), 'missing', '%d spans on the wire, %d finished' % (len(got), len(order)))
        seen = []
        for g in got:
            allt = got_tags(g.get('tags'))
            t = [(k, v) for k, v in allt if k not in SKIP]
            u = [v[1] for k, v in t if k == 'uid']
            ctx.check(len(u) == 1 and u[0] in exp, 'uid', 'span without its id tag: %r' % (u,))
            i = u[0]
            seen.append(i)
            e = exp[i]
            tid, sid, pid = wire.span_ids(g)
            flags = g['flags']
            ctx.check(tid == e['ids'][0], 'trace-id', 'trace id %x on the wire, %x in the span' % (tid, e['ids'][0]))
            ctx.check(sid == e['ids'][1], 'span-id', 'span id %x on the wire, %x in the span' % (sid, e['ids'][1]))
            ctx.check(pid == e['ids'][2], 'parent-id', 'parent id %x on the wire, %x in the span' % (pid, e['ids'][2]))
            ctx.check(flags == e['ids'][3], 'flags', 'flags %r on the wire, %r in the span' % (flags, e['ids'][3]))
            ctx.check(g['operationName'] == e['name'], 'operation-name', 'operation name %r on the wire, recorded %r' % (g['operationName'], e['name']))
            ctx.check(abs(g['startTime'] - e['start'] * 1e6) <= 1.5, 'start-time', 'start %r on the wire, recorded %r' % (g['startTime'], e['start']))
            ctx.check(abs(g['duration'] - (e['end'] - e['start']) * 1e6) <= 1.5, 'duration', 'duration %r us on the wire, recorded %r s' % (g['duration'], e['end'] - e['start']))
            refs = [(r['refType'], wire.u64(r['traceIdHigh']) << 64 | wire.u64(r['traceIdLow']), wire.u64(r['spanId'])) for r in g.get('references') or []]
            er = [(1 if k == J.ReferenceType.FOLLOWS_FROM else 0, a, b) for k, a, b in e['refs']]
            ctx.check(refs == er, 'references', 'references %r on the wire, given %r' % (refs, er))
            cmp_tags(ctx, 'tags', t, [(text(k), expect_value(v, maxlen, maxtb)) for k, v in e['tags']])
            logs = g.get('logs') or []
            if e['boom']:
                ctx.check(len(logs) >= 1, 'error-log', 'no log for the exception that left the with-block')
                ks = [k for k, _ in got_tags(logs[-1]['fields'])]
                ctx.check('event' in ks and 'stack' in ks, 'error-log', 'error log fields %r' % ks)
                st = dict(got_tags(logs[-1]['fields']))['stack']
                ctx.check(len(st[1]) <= maxtb and (maxtb < 50 or 'File ' in st[1]), 'error-log', 'traceback %r' % st[1][:100])
            else:
                ctx.check(len(logs) == len(e['logs']), 'log-count', '%d logs on the wire, %d recorded' % (len(logs), len(e['logs'])))
                for l, (ts, f) in zip(logs, e['logs']):
                    ctx.check(abs(l['timestamp'] - ts * 1e6) <= 1.5, 'log-time', 'log time %r, recorded %r' % (l['timestamp'], ts))
                    cmp_tags(ctx, 'log fields', got_tags(l['fields']), [(text(k), expect_value(v, maxlen, maxtb)) for k, v in f])
                    ctx.count('logs')
            ctx.event(1 + len(t))
        ctx.check(seen == order, 'order', 'spans on the wire %r, finished %r' % (seen, order))
        ctx.key(repr(exp))
        ctx.sample({'spans': len(order), 'first': {k: repr(v)[:200] for k, v in exp[0].items()}})


def version():
    import jaeger_client
    return jaeger_client.__version__


def typed(ctx):
    """One value at a time, in a tag, a log field and a process tag, with surrounding spans as witnesses."""
    rng = ctx.rng
    v = gen.tag_value(rng, big=3000)
    k = gen.key(rng)
    maxlen = rng.choice([1024, 1024, 10])
    with Rig(ctx, queue_capacity=10, batch_size=1, flush_interval=1) as rig:
        tr = J.Tracer('svc', rig.reporter, J.ConstSampler(True), max_tag_value_length=maxlen, tags={'ptag': v})
        s = tr.start_span('op', tags={'first': 1, k: v})
        s.set_tag(k, v)
        s.log_kv({'a': 0, k: v, 'z': 1})
        s.finish()
        rig.world.run_for(2)
        ctx.check(len(rig.tap.sent) == 1, 'missing', 'span with %r tag was not sent' % (v,))
        b = wire.decode(rig.tap.sent[0][1])
        g = b['spans'][0]
        e = expect_value(v, maxlen, 4096)
        first = [] if text(k) == 'first' and k == 'first' else [('first', ('LONG', 1))]
        cmp_tags(ctx, 'tags', [x for x in got_tags(g['tags']) if x[0] not in SKIP], first + [(text(k), e), (text(k), e)])
        d = {'a': 0, k: v, 'z': 1}
        cmp_tags(ctx, 'log fields', got_tags(g['logs'][0]['fields']), [(text(a), expect_value(c, maxlen, 4096)) for a, c in d.items()])
        pv = dict(got_tags(b['process']['tags'])).get('ptag')
        ctx.check(pv is not None and same(pv, e), 'process-tag', 'process tag %r, configured %r' % (pv, e))
        ctx.event(4)
        ctx.count('type_' + e[0])
        ctx.key(repr(k), repr(v)[:80], e[0])
        ctx.sample({'key': repr(k), 'value': repr(v)[:60], 'on the wire': e[0]})


def long_batch(ctx):
    """Header forms: more than 14 spans, tags, logs, references in one list; long strings; many process tags."""
    rng = ctx.rng
    n = rng.choice([14, 15, 16, 40])
    with Rig(ctx, queue_capacity=100, batch_size=n, flush_interval=None) as rig:
        tr = J.Tracer('svc', rig.reporter, J.ConstSampler(True), tags={'p%d' % i: i for i in range(n)})
        ref = J.SpanContext(gen.trace_id(rng), gen.id64(rng), None, 1)
        for i in range(n):
            s = tr.start_span('o' * rng.choice([1, 127, 128, 200]), references=[J.Reference(J.ReferenceType.FOLLOWS_FROM, ref)] * (n if i == 0 else 1))
            for j in range(n if i < 2 else 1):
                s.set_tag('k%d' % j, rng.choice([True, False, j, 'v' * rng.choice([0, 1, 127, 128])]))
                s.log_kv({'f%d' % q: q for q in range(n if j == 0 else 1)})
            s.finish()
        rig.world.run_for(1)
        ctx.check(len(rig.tap.sent) == 1, 'missing', '%d datagrams for one full batch' % len(rig.tap.sent))
        b = wire.decode(rig.tap.sent[0][1])
        ctx.check(len(b['spans']) == n, 'missing', '%d spans of %d' % (len(b['spans']), n))
        g = b['spans'][0]
        ctx.check(len(g['references']) == n and len([t for t in g['tags'] if t['key'] not in SKIP]) == n and len(g['logs']) == n
                  and len(g['logs'][0]['fields']) == n, 'list-size', 'a long list lost elements')
        ctx.check(len([t for t in b['process']['tags'] if t['key'][0] == 'p']) == n, 'list-size', 'process tags lost')
        ctx.event(n)
        ctx.key(n, core.REPO, rng.random())
        ctx.sample({'elements': n})


SCENARIOS = [
    Scenario('fidelity', fidelity, 900, 15000, need=('events', 'datagrams', 'logs')),
    Scenario('typed', typed, 700, 8000, need=('events', 'type_BOOL', 'type_LONG', 'type_DOUBLE', 'type_STRING')),
    Scenario('long_batch', long_batch, 40, 400),
]
