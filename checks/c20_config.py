"""C20: configuration is honoured."""
import copy
import importlib
import logging
import os
import sys
import urllib.parse

from jv import core, gen, sched, wire
from jv.runner import Scenario
from jv.tap import Tap
from jv.world import J, RecReporter, Resp, World, rec_factory

ID = 'C20'
RULE = ('random subsets of all options and environment variables with random values (also of the types YAML and the environment produce, and unusable '
        'ones where a fallback exists); the tracer that is built is run in virtual time and each option is judged by its observable effect; validation '
        'with random keys; concurrent initialisation under the controlled scheduler; distinct by configuration')
ASSUMPTIONS = ['enabled and local_agent.enabled have no effect to observe',
               'option values are of a usable kind unless a fallback for unusable ones exists (ports)']

ENV = ['JAEGER_AGENT_HOST', 'JAEGER_AGENT_PORT', 'JAEGER_TRACEID_128BIT', 'JAEGER_TAGS']
TRUE, FALSE = [True, 'true', 'True', 1, '1', 'TRUE'], [False, 'false', 'False', 0, '0']


class Env(object):
    def __init__(self, env):
        self.env = env

    def __enter__(self):
        self.old = {k: os.environ.pop(k, None) for k in ENV}
        os.environ.update(self.env)

    def __exit__(self, *a):
        for k in ENV:
            os.environ.pop(k, None)
            if self.old[k] is not None:
                os.environ[k] = self.old[k]


class Logs(logging.Handler):
    """Collects the lines of the client's logger."""

    def __init__(self):
        logging.Handler.__init__(self)
        self.lines = []

    def emit(self, rec):
        self.lines.append((rec.levelno, rec.getMessage()))

    def __enter__(self):
        self.lg = logging.getLogger('jaeger_tracing')
        self.old = (self.lg.level, self.lg.propagate, logging.root.manager.disable)
        self.lg.addHandler(self)
        self.lg.setLevel(logging.DEBUG)
        self.lg.propagate = False
        logging.disable(logging.NOTSET)
        return self

    def __exit__(self, *a):
        self.lg.removeHandler(self)
        self.lg.setLevel(self.old[0])
        self.lg.propagate = self.old[1]
        logging.disable(self.old[2])


class Http(object):
    """Answers the HTTP requests of the client (tornado's client is replaced)."""

    def __init__(self, world, respond):
        self.world, self.respond, self.reqs = world, respond, []

    def __enter__(self):
        import tornado.httpclient as h
        from tornado.concurrent import Future
        self.h, self.real = h, h.AsyncHTTPClient.fetch
        me = self

        def fetch(client, request, *a, **k):
            url = request if isinstance(request, str) else request.url
            u = urllib.parse.urlsplit(url)
            q = urllib.parse.parse_qsl(u.query, keep_blank_values=True)
            me.reqs.append((me.world.clock.mono, u.hostname, u.port, u.path, q))
            fut = Future()
            body = me.respond(u.path, q)
            if isinstance(body, Exception):
                fut.set_exception(body)
            elif body is not None:
                fut.set_result(Resp(body))
            return fut
        h.AsyncHTTPClient.fetch = fetch
        return self

    def __exit__(self, *a):
        self.h.AsyncHTTPClient.fetch = self.real

    def of(self, path):
        return [r for r in self.reqs if r[3] == path]


def maybe(rng, p=0.5):
    return rng.random() < p


def configuration(rng):
    """(config, env, expected effects)"""
    c, env, e = {}, {}, {}
    name = gen.text(rng, 1, 8)
    c_name = maybe(rng)
    if c_name:
        c['service_name'] = name
    e['service'] = name
    arg_name = name if not c_name else rng.choice([None, 'other'])
    # agent address
    la = {}
    host, port, sport = 'localhost', 6831, 5778
    if maybe(rng, 0.4):
        env['JAEGER_AGENT_HOST'] = host = '127.0.0.%d' % rng.randint(2, 250)
    if maybe(rng, 0.4):
        port = rng.randint(1, 65535)
        env['JAEGER_AGENT_PORT'] = str(port)
        if maybe(rng, 0.2):
            env['JAEGER_AGENT_PORT'] = rng.choice(['', 'abc', '6831/udp', '12 34'])
            port = 6831
    if maybe(rng, 0.6):
        if maybe(rng):
            la['reporting_host'] = host = '127.0.1.%d' % rng.randint(2, 250)
        if maybe(rng):
            if maybe(rng, 0.2):
                la['reporting_port'] = rng.choice(['', 'abc', None])
            else:
                port = rng.randint(1, 65535)
                la['reporting_port'] = rng.choice([port, str(port)])
        if maybe(rng):
            if maybe(rng, 0.2):
                la['sampling_port'] = rng.choice(['', 'abc', None])
            else:
                sport = rng.randint(1, 65535)
                la['sampling_port'] = rng.choice([sport, str(sport)])
        if maybe(rng, 0.2):
            la['enabled'] = True
        c['local_agent'] = la
    e.update(host=host, port=port, sport=sport)
    # sampler
    k = rng.randrange(6)
    e['sampler'] = None
    if k == 0:
        v = maybe(rng)
        c['sampler'] = {'type': 'const', 'param': rng.choice(TRUE if v else FALSE)}
        e['sampler'] = ('const', v)
    elif k == 1:
        r = rng.choice([0, 0.25, 1, 0.5])
        c['sampler'] = {'type': 'probabilistic', 'param': rng.choice([r, str(r)])}
        e['sampler'] = ('probabilistic', float(r))
    elif k == 2:
        r = rng.choice([1, 2, 5, 2.5, 0.5, 1.75])
        c['sampler'] = {'type': rng.choice(['ratelimiting', 'rate_limiting']), 'param': rng.choice([r, str(r)])}
        e['sampler'] = ('ratelimiting', float(r))
    elif k == 3 and maybe(rng, 0.5):
        c['sampler'] = {}
    # reporter
    e['batch'], e['queue'], e['flush'] = 10, 100, 1
    if maybe(rng):
        e['batch'] = rng.choice([1, 2, 5, 20])
        c['reporter_batch_size'] = rng.choice([e['batch'], str(e['batch'])])
    if maybe(rng):
        e['queue'] = rng.choice([e['batch'], e['batch'] + 3, 50, 150])
        e['queue'] = max(e['queue'], e['batch'])
        c['reporter_queue_size'] = rng.choice([e['queue'], str(e['queue'])])
    if maybe(rng):
        e['flush'] = c['reporter_flush_interval'] = rng.choice([0.2, 3, 10.5])
    # names, lengths, id width
    e['trace_header'], e['prefix'], e['debug'] = 'uber-trace-id', 'uberctx-', 'jaeger-debug-id'
    if maybe(rng, 0.4):
        e['trace_header'] = c['trace_id_header'] = rng.choice(['Trace_ID', 'x-t', 'trace-id'])
    if maybe(rng, 0.4):
        e['prefix'] = c['baggage_header_prefix'] = rng.choice(['BAG_', 'x-b-', 'ctx-'])
    if maybe(rng, 0.4):
        e['debug'] = c['debug_id_header'] = rng.choice(['Debug_Me', 'x-d', 'dbg'])
    e['taglen'], e['tblen'] = None, None
    if maybe(rng, 0.4):
        e['taglen'] = c['max_tag_value_length'] = rng.choice([1, 5, 100, 3000])
    if maybe(rng, 0.4):
        e['tblen'] = c['max_traceback_length'] = rng.choice([10, 200])
    e['wide'] = False
    if maybe(rng, 0.3):
        env['JAEGER_TRACEID_128BIT'] = rng.choice(['true', 'false', ''])
        e['wide'] = env['JAEGER_TRACEID_128BIT'] == 'true'
    if maybe(rng, 0.4):
        e['wide'] = maybe(rng)
        c['generate_128bit_trace_id'] = rng.choice(TRUE if e['wide'] else FALSE)
    e['b3'] = maybe(rng, 0.3)
    if e['b3']:
        c['propagation'] = 'b3'
    # tags
    e['tags'] = {}
    if maybe(rng, 0.4):
        t = {'ct%d' % i: rng.choice(['v', 1, True, 2.5]) for i in range(rng.randint(0, 3))}
        c['tags'] = t if t or maybe(rng) else None
        e['tags'].update(t)
    if maybe(rng, 0.4):
        pairs = [('%st%d' % (rng.choice('eeec'), i), rng.choice(['v', 'a=b', '', 'x y', 'é'])) for i in range(rng.randint(1, 3))]
        env['JAEGER_TAGS'] = ','.join('%s%s%s=%s%s' % (rng.choice(['', ' ']), k, rng.choice(['', ' ']), rng.choice(['', ' ']), v) for k, v in pairs)
        e['tags'].update({k: v.strip() for k, v in pairs})
    # the rest
    e['throttler'] = None
    if maybe(rng, 0.4):
        th = {}
        tport, tint = 5778, 5
        if maybe(rng):
            tport = rng.randint(1, 65535)
            th['port'] = rng.choice([tport, str(tport)])
        elif maybe(rng, 0.2):
            th['port'] = rng.choice(['', 'abc', None])
        if maybe(rng):
            tint = rng.choice([1, 7, 20])
            th['refresh_interval'] = rng.choice([tint, str(tint)])
        elif maybe(rng, 0.2):
            th['refresh_interval'] = rng.choice(['', 'abc', None])
        c['throttler'] = th
        e['throttler'] = (tport, tint)
    e['metrics'] = True
    if maybe(rng, 0.4):
        e['metrics'] = maybe(rng)
        c['metrics'] = rng.choice(TRUE if e['metrics'] else FALSE)
    e['logging'] = False
    if maybe(rng, 0.5):
        e['logging'] = maybe(rng)
        c['logging'] = rng.choice(TRUE if e['logging'] else FALSE)
    e['poll'] = 60
    if maybe(rng, 0.4):
        e['poll'] = c['sampling_refresh_interval'] = rng.choice([5, 30, 100])
    e['maxops'] = 2000
    if maybe(rng, 0.4):
        e['maxops'] = c['max_operations'] = rng.choice([1, 3, 10])
    if maybe(rng, 0.2):
        c['enabled'] = True
    return c, env, e, arg_name


def effects(ctx):
    rng = ctx.rng
    c, env, e, arg_name = configuration(rng)
    frozen = copy.deepcopy(c)
    ctx.notes.update(config=frozen, env=env, service_name_argument=arg_name)
    with World() as world, Tap() as tap, Logs() as logs:
        def respond(path, q):
            if path == '/sampling':
                return b'{"operationSampling": {"defaultSamplingProbability": 0, "defaultLowerBoundTracesPerSecond": 1, "perOperationStrategies": []}}'
            return None
        with Http(world, respond) as http:
            rec = rec_factory()
            scopes = None
            kw = {}
            if maybe(rng, 0.3):
                from opentracing.scope_managers.asyncio import AsyncioScopeManager
                scopes = kw['scope_manager'] = AsyncioScopeManager()
            with Env(env):
                cfg = J.Config(c, service_name=arg_name, metrics_factory=rec, validate=maybe(rng), **kw)
                tr = cfg.new_tracer(io_loop=world.io_loop)
                ctx.check({k: os.environ[k] for k in ENV if k in os.environ} == env, 'environment-changed', 'building the tracer changed the environment')
            ctx.check(c == frozen and repr(c) == repr(frozen), 'config-changed', 'building the tracer changed the configuration to %r' % (c,))
            ctx.check(cfg.service_name == e['service'] and tr.service_name == e['service'], 'option', 'service name %r, expected %r' % (tr.service_name, e['service']))
            if scopes is not None:
                ctx.check(tr.scope_manager is scopes, 'option', 'the scope manager given is not used')
            sampler(ctx, world, http, tr, e)
            reporter(ctx, world, tap, logs, tr, rec, e)
            headers(ctx, tr, e)
            throttler(ctx, world, http, tr, e)
            any_count = any(rec.counts.values())
            ctx.check(any_count == e['metrics'], 'option', 'metrics %s but counters are %r' % (e['metrics'], {k: v for k, v in rec.counts.items() if v}))
    ctx.event(len(c) + len(env))
    for k in c:
        ctx.count('opt_' + k)
    for k in env:
        ctx.count('env_' + k)
    ctx.key(repr(frozen), repr(env))
    ctx.sample({'config': frozen, 'env': env})


def sampler(ctx, world, http, tr, e):
    s, rng = tr.sampler, ctx.rng
    if e['sampler'] is None:
        # remotely controlled: polls host and port at the interval
        world.run_for(e['poll'] * 2.2)
        reqs = http.of('/sampling')
        ctx.check(len(reqs) >= 2, 'option', '%d sampling polls in %s s at an interval of %s s' % (len(reqs), e['poll'] * 2.2, e['poll']))
        gap = reqs[1][0] - reqs[0][0]
        ctx.check(abs(gap - e['poll']) < 0.02 * e['poll'], 'option', 'sampling polled every %s s, expected %s' % (gap, e['poll']))
        for _, h, p, _, q in reqs:
            ctx.check((h, p) == (e['host'], e['sport']), 'option', 'sampling polled at %s:%s, expected %s:%s' % (h, p, e['host'], e['sport']))
            ctx.check(q == [('service', e['service'])], 'option', 'sampling query %r for service %r' % (q, e['service']))
        n = min(e['maxops'], 20) + 2
        for _ in range(2):
            got = [s.is_sampled(1 << 63, 'op%d' % i)[0] for i in range(n)]
            world.clock.advance(5)
        want = min(n, e['maxops'])
        ctx.check(sum(got) == want, 'option', '%d operations have a lower bound, expected %d' % (sum(got), want))
        return
    kind, v = e['sampler']
    world.run_for(200)
    ctx.check(not http.of('/sampling'), 'option', 'the agent is polled for a strategy although the sampler is configured')
    if kind == 'const':
        got, tags = s.is_sampled(rng.getrandbits(64), 'x')
        ctx.check(bool(got) == v, 'option', 'constant sampler %s sampled=%s' % (v, got))
    elif kind == 'probabilistic':
        lim = int(v * (1 << 64))
        for t, want in ((lim - 1, True), (lim, False)):
            if 0 <= t < 1 << 64:
                ctx.check(bool(s.is_sampled(t, 'x')[0]) == want, 'option', 'probability %s: id %#x sampled=%s' % (v, t, not want))
    else:
        got, tags = False, {}
        for _ in range(5):
            got, tags = s.is_sampled(1, 'x')
            if got:
                break
            world.clock.advance(1)
        ctx.check(tags.get('sampler.param') == v and tags.get('sampler.type') == 'ratelimiting', 'option', 'rate %s: tags %r' % (v, tags))
        world.clock.advance(1000)
        n = sum(bool(s.is_sampled(1, 'x')[0]) for _ in range(20))
        ctx.check(n == int(max(v, 1)), 'option', 'rate %s admits a burst of %d' % (v, n))


def forced(tr, op='x'):
    """A span sampled whatever the sampler says."""
    c = J.SpanContext(trace_id=7, span_id=8, parent_id=0, flags=1)
    return tr.start_span(op, child_of=c)


def decoded(tap, since=0):
    return [(t, dest, wire.decode(d)) for t, d, dest, _ in tap.sent[since:]]


def reporter(ctx, world, tap, logs, tr, rec, e):
    rng = ctx.rng
    world.settle()
    n0, l0 = len(tap.sent), len(logs.lines)
    t0 = world.clock.wall
    sp = forced(tr)
    long = 'x' * 5000
    sp.set_tag('long', long)
    tb = gen.make_tb(rng)
    sp.log_kv({'long': long, 'stack': tb})
    sp.finish()
    logged = [m for lv, m in logs.lines[l0:]]
    ctx.check(bool(logged) == e['logging'], 'option', 'logging %s, lines at finish: %r' % (e['logging'], logged))
    world.run_for(30)
    got = decoded(tap, n0)
    ctx.check(len(got) == 1 and len(got[0][2]['spans']) == 1, 'option', '%d datagrams for one span' % len(got))
    at, dest, b = got[0]
    hosts = ('127.0.0.1', '::1', 'localhost') if e['host'] == 'localhost' else (e['host'],)
    ctx.check(dest[0] in hosts and dest[1] == e['port'], 'option', 'spans go to %r, expected %s:%s' % (dest, e['host'], e['port']))
    want = 0 if e['batch'] == 1 else e['flush']
    ctx.check(want * 0.9 - 0.01 <= at - t0 <= want * 1.1 + 0.1, 'option', 'a lone span was sent after %.3f s, expected about %s' % (at - t0, want))
    p = b['process']
    ctx.check(p['serviceName'] == e['service'], 'option', 'process service name %r' % p['serviceName'])
    tags = {k: v for k, _, v in wire.tag_list(p['tags'])}
    for k, v in e['tags'].items():
        w = v if not isinstance(v, str) or e['taglen'] is None else v[:e['taglen']]
        ctx.check(k in tags and tags[k] == w and isinstance(tags[k], bool) == isinstance(w, bool), 'option', 'process tags %r, expected %r = %r' % (tags, k, w))
    ctx.check(not any(k[:2] in ('ct', 'et') and k not in e['tags'] for k in tags), 'option', 'process tags %r, configured %r' % (tags, e['tags']))
    st = {k: v for k, _, v in wire.tag_list(b['spans'][0]['tags'])}
    lt = {k: v for k, _, v in wire.tag_list(b['spans'][0]['logs'][0]['fields'])}
    n = e['taglen'] or 1024
    for x in (st['long'], lt['long']):
        ctx.check(len(x) == n, 'option', 'a string of 5000 was cut to %d, the maximum is %d' % (len(x), n))
    m = e['tblen'] or 4096
    ctx.check(len(lt['stack']) <= m and (len(lt['stack']) == m or m > 100), 'option', 'a traceback has %d characters, the maximum is %d' % (len(lt['stack']), m))
    # batches of the configured size
    n0 = len(tap.sent)
    k = e['batch'] * 2
    if k <= e['queue']:
        for _ in range(k):
            forced(tr).finish()
        world.settle()
        got = [len(b['spans']) for _, _, b in decoded(tap, n0)]
        ctx.check(got == [e['batch']] * 2, 'option', '%d spans were sent in batches of %r, batch size %d' % (k, got, e['batch']))
    world.run_for(30)
    # a queue of the configured size
    if e['metrics']:
        d0 = rec.spans()[2]
        over = 7
        stop = {'on': True}
        n0 = len(tap.sent)

        def burst():
            for _ in range(e['queue'] + over):
                forced(tr).finish()
        burst()
        world.run_for(60)
        del stop
        sent = sum(len(b['spans']) for _, _, b in decoded(tap, n0))
        dropped = rec.spans()[2] - d0
        ctx.check(sent + dropped == e['queue'] + over, 'option', '%d spans sent, %d dropped of %d' % (sent, dropped, e['queue'] + over))
        # at most a batch can be taken out of the queue meanwhile
        ctx.check(over - e['batch'] - 1 <= dropped <= over, 'option', '%d of %d spans at once were dropped, queue size %d' % (dropped, e['queue'] + over, e['queue']))


def headers(ctx, tr, e):
    rng = ctx.rng
    sp = tr.start_span('x', ignore_active_span=True)
    sp.set_baggage_item('k', 'v')
    sp.set_tag('sampling.priority', 0)
    # the width of ids
    ids = [tr.start_span('x', ignore_active_span=True).trace_id for _ in range(12)]
    wide = any(i >= 1 << 64 for i in ids)
    ctx.check(wide == e['wide'], 'option', '128-bit ids %s, got ids %r' % (e['wide'], ids[:3]))
    norm = lambda s: s.lower().replace('_', '-')     # noqa: E731
    car = {}
    tr.inject(sp.context, J.Format.TEXT_MAP, car)
    low = {norm(k): v for k, v in car.items()}
    ctx.check(norm(e['trace_header']) in low, 'option', 'text carrier %r, trace header %r' % (car, e['trace_header']))
    ctx.check(norm(e['prefix'] + 'k') in low, 'option', 'text carrier %r, baggage prefix %r' % (car, e['prefix']))
    http = {}
    tr.inject(sp.context, J.Format.HTTP_HEADERS, http)
    low = {norm(k) for k in http}
    if e['b3']:
        ctx.check('x-b3-traceid' in low and norm(e['trace_header']) not in low, 'option', 'HTTP carrier %r under B3 propagation' % (http,))
        w = [v for k, v in http.items() if norm(k) == 'x-b3-traceid'][0]
        ctx.check(int(w, 16) == sp.trace_id, 'option', 'B3 carrier %r for trace id %#x' % (http, sp.trace_id))
        got = tr.extract(J.Format.HTTP_HEADERS, http)
        ctx.check(got is not None and (got.trace_id, got.span_id) == (sp.trace_id, sp.span_id), 'option', 'B3 headers %r extract to %r' % (http, got))
    else:
        ctx.check(norm(e['trace_header']) in low and norm(e['prefix'] + 'k') in low, 'option', 'HTTP carrier %r' % (http,))
    got = tr.extract(J.Format.TEXT_MAP, {norm(e['debug']): 'id7'})
    ctx.check(got is not None and got.debug_id == 'id7', 'option', 'debug header %r is not recognised' % e['debug'])
    if e['debug'] != 'jaeger-debug-id':
        ctx.check(tr.extract(J.Format.TEXT_MAP, {'jaeger-debug-id': 'id7'}) is None, 'option', 'the default debug header is recognised next to %r' % e['debug'])
    del rng


def throttler(ctx, world, http, tr, e):
    c = tr.extract(J.Format.TEXT_MAP, {e['debug'].lower().replace('_', '-'): 'x'})
    sp = tr.start_span('dbg-op', child_of=c)
    if e['throttler'] is None:
        ctx.check(sp.is_debug(), 'option', 'a debug trace is refused although no throttler is configured')
        world.run_for(30)
        ctx.check(not http.of('/credits'), 'option', 'credits are requested although no throttler is configured')
        return
    port, iv = e['throttler']
    ctx.check(not sp.is_debug(), 'option', 'a debug trace is not throttled although a throttler is configured')
    n = len(http.of('/credits'))
    world.run_for(iv * 2.2)
    reqs = http.of('/credits')[n:]
    ctx.check(len(reqs) >= 2, 'option', '%d credit requests in %s s at an interval of %s s' % (len(reqs), iv * 2.2, iv))
    ctx.check(abs(reqs[1][0] - reqs[0][0] - iv) < 0.02 * iv, 'option', 'credits requested every %s s, expected %s' % (reqs[1][0] - reqs[0][0], iv))
    for _, h, p, _, q in reqs:
        ctx.check((h, p) == (e['host'], port), 'option', 'credits requested at %s:%s, expected %s:%s' % (h, p, e['host'], port))
        ctx.check([x for x in q if x[0] != 'uuid'] == [('service', e['service']), ('operations', 'dbg-op')], 'option', 'credit query %r' % (q,))


SUPPORTED = ['logging', 'local_agent', 'sampler', 'tags', 'enabled', 'reporter_batch_size', 'reporter_queue_size', 'propagation', 'max_tag_value_length',
             'max_traceback_length', 'reporter_flush_interval', 'sampling_refresh_interval', 'trace_id_header', 'generate_128bit_trace_id',
             'baggage_header_prefix', 'service_name', 'debug_id_header', 'max_operations', 'metrics', 'throttler']


def validation(ctx):
    """With validation on, exactly the supported keys are accepted; without, any."""
    rng = ctx.rng
    c, _, _, arg = configuration(rng)
    bad = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.choice(['servicename', 'Sampler', 'sampler ', 'report_batch_size', '', 'reporter-batch-size', 'x', 'trace_id_headers', 'local_agents', 'throttle', 'é'])
        c[k] = rng.choice([None, 1, {}])
        bad.append(k)
    ctx.notes.update(config=repr(c))
    assert set(c) - set(bad) <= set(SUPPORTED)
    before = copy.deepcopy(c)
    err = None
    try:
        J.Config(c, service_name=arg, validate=True)
    except ValueError as x:
        err = x
    if bad:
        ctx.check(err is not None, 'validation', 'unknown keys %r pass validation' % bad)
        ctx.count('rejected')
    else:
        ctx.check(err is None, 'validation', 'validation rejects %r: %s' % (sorted(c), err))
        ctx.count('accepted')
    J.Config(c, service_name=arg)
    J.Config(c, service_name=arg, validate=False)
    ctx.check(c == before, 'config-changed', 'Config changed its argument')
    # without a name nothing is built
    c.pop('service_name', None)
    for name in (None, ''):
        try:
            J.Config(c, service_name=name)
            ctx.fail('validation', 'a configuration without service name is accepted')
        except ValueError:
            pass
    ctx.event()
    ctx.key(repr(before))
    ctx.sample({'keys': sorted(c), 'unknown': bad})


def bad_sampler(ctx):
    """An unknown or unusable sampler is refused with ValueError, TypeError or AssertionError: no tracer with some other sampler."""
    rng = ctx.rng
    sc = rng.choice([{'type': 'Const', 'param': 1}, {'type': 'unknown'}, {'type': 'probabilistic', 'param': 1.5}, {'type': 'probabilistic', 'param': -0.1},
                     {'type': 'probabilistic', 'param': 'abc'}, {'type': 'probabilistic'}, {'type': 'ratelimiting', 'param': -1}, {'type': 'ratelimiting', 'param': 'x'}, {'type': 7}])
    with World() as world:
        try:
            tr = J.Config({'sampler': sc}, service_name='x').new_tracer(io_loop=world.io_loop)
        except (ValueError, TypeError, AssertionError):
            tr = None
        ctx.check(tr is None, 'validation', 'sampler configuration %r built a tracer with %s' % (sc, tr and tr.sampler))
    # a sampler object is used as it is
    s = J.ConstSampler(True)
    cfg = J.Config({'sampler': s}, service_name='x')
    ctx.check(cfg.create_tracer(RecReporter(), cfg.sampler).sampler is s, 'option', 'a sampler object is not used as it is')
    ctx.event()
    ctx.key(repr(sc), rng.random())
    ctx.sample({'sampler': sc})


def init_race(ctx):
    """However many threads initialise, exactly one global tracer is installed and returned."""
    import opentracing
    rng = ctx.rng
    old = opentracing.tracer
    with World() as world, Tap():
        # a fresh copy of the module, in which nothing has been initialised yet
        Config = importlib.reload(sys.modules[J.Config.__module__]).Config
        try:
            ctx.check(not Config.initialized(), 'init-race', 'initialized() is true before initialisation')
            n = rng.choice([2, 3, 3, 4])
            cfgs = [Config({'sampler': {'type': 'const', 'param': 1}, 'local_agent': {'reporting_host': '127.0.0.1'}}, service_name='s%d' % i) for i in range(n)]
            got = []
            flags = []

            def f(i):
                def g():
                    t = cfgs[i].initialize_tracer(io_loop=world.io_loop)
                    got.append((i, t))
                    flags.append(Config.initialized())
                return g
            sc = sched.Scheduler(rng)
            sc.run([f(i) for i in range(n)])
            p = sc.raise_problems()
            if p:
                ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
            for t in sc.threads:
                if t.exc is not None:
                    raise t.exc
            w = dict(schedule=sc.schedule[:400])
            won = [(i, t) for i, t in got if t is not None]
            ctx.check(len(won) == 1, 'init-race', '%d of %d concurrent initialisations returned a tracer' % (len(won), n), **w)
            ctx.check(opentracing.global_tracer() is won[0][1], 'init-race', 'the tracer returned is not the global tracer', **w)
            ctx.check(won[0][1].service_name == 's%d' % won[0][0], 'init-race', 'the tracer of another configuration was returned', **w)
            ctx.check(all(flags), 'init-race', 'initialized() is false after initialisation', **w)
            again = cfgs[0].initialize_tracer(io_loop=world.io_loop)
            ctx.check(again is None and opentracing.global_tracer() is won[0][1], 'init-race', 'a later initialisation replaced the tracer', **w)
            sp = opentracing.global_tracer().start_span('x')
            ctx.check(sp.is_sampled(), 'init-race', 'the global tracer does not work', **w)
            ctx.event(n)
            ctx.count('switches', sc.switches)
            ctx.count('won_%d' % won[0][0])
            ctx.key(tuple(sc.schedule), n)
            ctx.sample({'threads': n, 'winner': won[0][0], 'switches': sc.switches})
        finally:
            opentracing.set_global_tracer(old)


SCENARIOS = [
    Scenario('effects', effects, 500, 15000, need=('events',) + tuple('opt_' + k for k in SUPPORTED) + tuple('env_' + k for k in ENV)),
    Scenario('validation', validation, 400, 8000, need=('accepted', 'rejected')),
    Scenario('bad_sampler', bad_sampler, 60, 400),
    Scenario('init_race', init_race, 250, 8000, need=('events', 'switches', 'won_0', 'won_1')),
]
del core
