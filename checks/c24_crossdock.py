"""C24: the crossdock service speaks its trace-join JSON protocol faithfully."""
import asyncio
import contextlib
import importlib
import json
import os
import socket
import types
import urllib.parse

from jv import core, gen, tap, wire
from jv.runner import Inconclusive, Scenario
from jv.world import J, Tap, World

ID = 'C24'
RULE = ('random request and response trees (any depth, any field absent, every transport, any text) encoded by the service and by an independent writer and decoded by '
        'the service and by an independent reader; random trace-creation requests handled over several tracers whose datagrams are decoded; distinct by tree or request')
ASSUMPTIONS = ['the HTTP and TChannel front end runs with stand-ins for the packages it needs that are not installed (tchannel, opentracing_instrumentation)', 'JSON members have the declared types',
               'nesting up to 80 levels']


def S():
    return importlib.import_module('crossdock.server.serializer')


def T():
    return importlib.import_module('crossdock.thrift_gen.tracetest.ttypes')


TRANSPORTS = {'HTTP': 0, 'TCHANNEL': 1}
DOWN = ('serviceName', 'serverRole', 'host', 'port', 'transport', 'downstream')


def opt(rng, v, p=0.15):
    return None if rng.random() < p else v


def tree_down(rng, depth):
    """Abstract downstream: dict; transport by name."""
    d = None
    for _ in range(depth):
        d = {'serviceName': opt(rng, gen.text(rng)), 'serverRole': opt(rng, gen.text(rng)), 'host': opt(rng, gen.text(rng)), 'port': opt(rng, str(rng.randint(0, 70000))),
             'transport': opt(rng, rng.choice(['HTTP', 'TCHANNEL'])), 'downstream': d}
    return d


def tree_resp(rng, depth):
    d = None
    for _ in range(depth):
        span = opt(rng, {'traceId': opt(rng, '%x' % rng.getrandbits(64)), 'sampled': opt(rng, rng.random() < 0.5), 'baggage': opt(rng, gen.text(rng))})
        d = {'span': span, 'downstream': d, 'notImplementedError': opt(rng, rng.choice(['', gen.text(rng)]))}
    return d


def obj_down(d):
    if d is None:
        return None
    kw = dict(d, downstream=obj_down(d['downstream']))
    if kw['transport'] is not None:
        kw['transport'] = TRANSPORTS[kw['transport']]
    return T().Downstream(**kw)


def obj_resp(d):
    if d is None:
        return None
    sp = d['span']
    return T().TraceResponse(span=None if sp is None else T().ObservedSpan(**sp), downstream=obj_resp(d['downstream']), notImplementedError=d['notImplementedError'])


def back(o, fields, nested):
    """Object -> abstract tree, by the declared fields."""
    if o is None:
        return None
    out = {}
    for f in fields:
        v = getattr(o, f)
        if f in nested:
            v = back(v, *nested[f]) if v is not None else None
        if f == 'transport' and v is not None:
            v = {n: k for k, n in TRANSPORTS.items()}.get(v, ('?', v))
        out[f] = v
    return out


DN = (DOWN, {})
DN[1]['downstream'] = DN
RN = (('span', 'downstream', 'notImplementedError'), {'span': (('traceId', 'sampled', 'baggage'), {})})
RN[1]['downstream'] = RN


def strip(d, keep_none):
    """The abstract tree as a JSON document; absent fields as null or left out."""
    if not isinstance(d, dict):
        return d
    return {k: strip(v, keep_none) for k, v in d.items() if v is not None or keep_none()}


def prune(d):
    if not isinstance(d, dict):
        return d
    return {k: prune(v) for k, v in d.items() if v is not None}


def typed(d):
    """Distinguish True from 1."""
    return repr(d) if not isinstance(d, dict) else {k: typed(v) for k, v in d.items()}


def raw(rng, doc):
    s = json.dumps(doc, ensure_ascii=rng.random() < 0.5)
    return rng.choice([lambda: s, lambda: s.encode('utf-8'), lambda: bytearray(s.encode('utf-8'))])()


def depth(rng):
    return rng.choice([0, 1, 1, 2, 3, 5, 12, rng.randint(1, 80)])


def encode(ctx):
    rng = ctx.rng
    s = S()
    # join request
    d = tree_down(rng, depth(rng))
    role = rng.choice([None, '', gen.text(rng), 'S2'])
    o = obj_down(d)
    text = s.join_trace_request_to_json(o, role)
    doc = json.loads(text)
    ctx.check(isinstance(doc, dict), 'encode', 'encoded request is %r' % (text[:100],))
    ctx.check(typed(prune(doc)) == typed(prune({'downstream': d, 'serverRole': role})), 'encode', 'encoded join request differs from the request', request=repr(d)[:600], encoded=text[:600])
    for wire_form in (text, text.encode('utf-8')):
        r = s.join_trace_request_from_json(wire_form)
        ctx.check(isinstance(r, T().JoinTraceRequest), 'decode-type', 'decoded join request is a %s' % type(r).__name__)
        ctx.check(typed(back(r, ('serverRole', 'downstream'), {'downstream': DN})) == typed({'serverRole': role, 'downstream': d}), 'roundtrip', 'join request changed in a round trip',
                  sent=repr(d)[:600], got=str(sorted(vars(r))))
    ctx.check(typed(back(o, *DN)) == typed(d) if d is not None else o is None, 'modified', 'encoding changed the request')
    # start request
    st = {'serverRole': opt(rng, gen.text(rng)), 'sampled': opt(rng, rng.random() < 0.5), 'baggage': opt(rng, gen.text(rng)), 'downstream': tree_down(rng, depth(rng))}
    so = T().StartTraceRequest(**dict(st, downstream=obj_down(st['downstream'])))
    doc = json.loads(json.dumps(s.traced_service_object_to_json(so)))
    ctx.check(typed(prune(doc)) == typed(prune(st)), 'encode', 'encoded start request differs from the request', request=repr(st)[:600], encoded=repr(doc)[:600])
    r = s.start_trace_request_from_json(json.dumps(doc))
    ctx.check(typed(back(r, tuple(st), {'downstream': DN})) == typed(st), 'roundtrip', 'start request changed in a round trip', sent=repr(st)[:600], got=str(sorted(vars(r))))
    # response
    t = tree_resp(rng, max(1, depth(rng)))
    to = obj_resp(t)
    doc = json.loads(json.dumps(s.traced_service_object_to_json(to)))
    ctx.check(typed(prune(doc)) == typed(prune(t)), 'encode', 'encoded response differs from the response', response=repr(t)[:600], encoded=repr(doc)[:600])
    r = s.traceresponse_from_json(json.dumps(doc))
    ctx.check(typed(back(r, *RN)) == typed(t), 'roundtrip', 'response changed in a round trip', sent=repr(t)[:600], got=str(sorted(vars(r))))
    ctx.event(3)
    ctx.key(d, role, st, t)
    ctx.sample({'join': repr(d)[:300], 'response': repr(t)[:300]})


def classes(o, cls, nested):
    """Every level of a decoded tree has its Thrift class (so it can go on to a Thrift downstream)."""
    ok = True
    while o is not None:
        ok = ok and isinstance(o, cls) and (nested is None or getattr(o, 'span') is None or isinstance(o.span, nested))
        o = o.downstream
    return ok


def decode(ctx):
    """Documents written independently (absent members left out or null, any member order, unknown members) and decoded by the service."""
    rng = ctx.rng
    s = S()

    def style():
        k = rng.random()
        return lambda: rng.random() < k

    def shuffled(d):
        if not isinstance(d, dict):
            return d
        items = [(k, shuffled(v)) for k, v in d.items()]
        rng.shuffle(items)
        if rng.random() < 0.1:
            items.append(('unknownMember', rng.choice([1, None, 'x', {'a': []}])))
        return dict(items)
    d = tree_down(rng, depth(rng))
    req = {'serverRole': opt(rng, gen.text(rng)), 'downstream': d}
    r = s.join_trace_request_from_json(raw(rng, shuffled(strip(req, style()))))
    ctx.check(typed(back(r, ('serverRole', 'downstream'), {'downstream': DN})) == typed(req), 'decode', 'join request decoded wrongly', sent=repr(req)[:600], got=str(sorted(vars(r))))
    ctx.check(classes(r.downstream, T().Downstream, None), 'decode-type', 'a nested downstream is not a Downstream')
    st = {'serverRole': opt(rng, gen.text(rng)), 'sampled': opt(rng, rng.random() < 0.5), 'baggage': opt(rng, gen.text(rng)), 'downstream': tree_down(rng, depth(rng))}
    r = s.start_trace_request_from_json(raw(rng, shuffled(strip(st, style()))))
    ctx.check(isinstance(r, T().StartTraceRequest), 'decode-type', 'decoded start request is a %s' % type(r).__name__)
    ctx.check(typed(back(r, tuple(st), {'downstream': DN})) == typed(st), 'decode', 'start request decoded wrongly', sent=repr(st)[:600], got=str(sorted(vars(r))))
    t = tree_resp(rng, max(1, depth(rng)))
    r = s.traceresponse_from_json(raw(rng, shuffled(strip(t, style()))))
    ctx.check(typed(back(r, *RN)) == typed(t), 'decode', 'response decoded wrongly', sent=repr(t)[:600], got=str(sorted(vars(r))))
    ctx.check(classes(r, T().TraceResponse, T().ObservedSpan), 'decode-type', 'a nested response is not a TraceResponse')
    ctx.event(3)
    ctx.key(req, st, t)
    ctx.sample({'start': repr(st)[:300]})


class Svc(object):
    """Stand-in for the service module made by thriftrw: positional and keyword construction, one class per struct."""

    class Downstream(object):
        F = DOWN

        def __init__(self, *a, **k):
            self.__dict__.update(dict.fromkeys(self.F), **dict(zip(self.F, a)), **k)

    class JoinTraceRequest(Downstream):
        F = ('serverRole', 'downstream')

    class TraceResponse(Downstream):
        F = ('span', 'downstream', 'notImplementedError')

    class ObservedSpan(Downstream):
        F = ('traceId', 'sampled', 'baggage')


def thriftrw(ctx):
    """Conversion to the thriftrw service types keeps every field at every level."""
    rng = ctx.rng
    z = importlib.import_module('crossdock.server.thriftrw_serializer')
    d = tree_down(rng, depth(rng))
    role = gen.text(rng)
    j = z.join_trace_request_to_thriftrw(Svc, T().JoinTraceRequest(serverRole=role, downstream=obj_down(d)))
    ctx.check(type(j) is Svc.JoinTraceRequest and j.serverRole == role, 'thriftrw', 'join request lost its role')
    ctx.check(typed(back(j.downstream, *DN)) == typed(d), 'thriftrw', 'downstream changed in conversion', sent=repr(d)[:600])
    o = j.downstream
    n = 0
    while o is not None:
        ctx.check(type(o) is Svc.Downstream, 'thriftrw-type', 'level %d of the downstream is a %s of another module' % (n, type(o).__name__))
        o = o.downstream
        n += 1
    t = tree_resp(rng, max(1, depth(rng)))
    try:
        r = z.trace_response_to_thriftrw(Svc, obj_resp(t))
    except Exception as e:
        ctx.fail('thriftrw', 'a response cannot be converted: %r' % e, response=repr(t)[:600])
    e, o = t, r
    while e is not None:
        ctx.check(type(o) is Svc.TraceResponse and type(o.span) is (Svc.ObservedSpan if e['span'] else type(None)), 'thriftrw-type', 'response level is %r' % (o,))
        ctx.check(typed(back(o.span, *RN[1]['span'])) == typed(e['span']) and (o.notImplementedError or '') == (e['notImplementedError'] or ''), 'thriftrw', 'response changed in conversion')
        e, o = e['downstream'], o.downstream
    ctx.check(o is None, 'thriftrw', 'response has extra levels')
    ctx.event(2)
    ctx.key(d, t)
    ctx.sample({'levels': n})


class Front(object):
    """The HTTP and TChannel front end, with stand-ins for the packages it needs that are not installed.

    The stand-ins do what those packages do: extract the context from the headers of a request, start a server span, inject the
    context into outgoing requests, and deliver TChannel calls with the context of the current span.
    """
    mod = None

    @classmethod
    def load(cls):
        if cls.mod is not None:
            return cls.mod
        import sys
        import tornado.web
        import opentracing
        from opentracing.scope_managers import ThreadLocalScopeManager

        def module(name, **kw):
            m = types.ModuleType(name)
            vars(m).update(kw)
            return m

        class Wrapper(object):
            def __init__(self, request):
                self.request = request

            def __getattr__(self, name):
                return getattr(self.request, name)

            @property
            def operation(self):
                return 'request'

            def add_header(self, k, v):
                self.request.headers[k] = v

        def before_request(request, tracer=None):
            sc = tracer.extract(J.Format.HTTP_HEADERS, dict(request.headers))
            span = tracer.start_span('request', child_of=sc, tags={'span.kind': 'server'})
            cls.net.spans.append(span)
            return span

        def before_http_request(request, current_span_extractor):
            span = current_span_extractor()
            out = span.tracer.start_span('call', child_of=span, tags={'span.kind': 'client'})
            carrier = {}
            out.tracer.inject(out.context, J.Format.HTTP_HEADERS, carrier)
            for k, v in carrier.items():
                request.add_header(k, v)
            return out

        class Thrift(object):
            def __init__(self):
                self.handlers = {}

            def register(self, service, handler=None, method=None, **kw):
                def reg(f):
                    self.handlers[method or f.__name__] = f
                    return f
                return reg if handler is None else reg(handler)

            def __call__(self, request, hostport=None, **kw):
                carrier = {}
                span = cls.stack[-1]
                span.tracer.inject(span.context, J.Format.TEXT_MAP, carrier)
                return cls.net.tchannel(hostport, request, carrier)

        class TChannel(object):
            def __init__(self, *a, **k):
                self.thrift = Thrift()

            def listen(self, *a, **k):
                pass

        @contextlib.contextmanager
        def span_in_stack_context(span):
            cls.stack.append(span)
            try:
                yield
            finally:
                cls.stack.pop()

        stubs = {}
        stubs['tchannel'] = module('tchannel', TChannel=TChannel, thrift=module('tchannel.thrift', load=lambda path=None, service=None, **k: Service(service)))
        hooks = module('opentracing_instrumentation.client_hooks', tornado_http=module('opentracing_instrumentation.client_hooks.tornado_http', TornadoRequestWrapper=Wrapper))
        stubs['opentracing_instrumentation'] = module(
            'opentracing_instrumentation', http_client=module('http_client', before_http_request=before_http_request), client_hooks=hooks,
            http_server=module('http_server', before_request=before_request, TornadoRequestWrapper=Wrapper), get_current_span=lambda: cls.stack[-1] if cls.stack else None,
            request_context=module('request_context', span_in_stack_context=span_in_stack_context, get_current_span=lambda: cls.stack[-1] if cls.stack else None))
        stubs['opentracing_instrumentation.client_hooks'] = hooks
        stubs['opentracing_instrumentation.client_hooks.tornado_http'] = hooks.tornado_http
        stubs['opentracing.scope_managers.tornado'] = module('tornado_scope', TornadoScopeManager=ThreadLocalScopeManager)
        sys.modules.update(stubs)
        if not hasattr(tornado.web, 'asynchronous'):
            tornado.web.asynchronous = lambda f: f
        was = opentracing.tracer
        try:
            cls.mod = importlib.import_module('crossdock.server.server')
        except Exception as e:
            cls.mod = e
        finally:
            opentracing.tracer = was
        return cls.mod

    stack = []
    net = None


class Service(object):
    """What thrift.load returns: the structs and the service."""

    def __init__(self, name):
        self.name = name

        def struct(what, *fields):
            def init(self, *a, **k):
                vars(self).update(dict(dict.fromkeys(fields), **dict(zip(fields, a))), **k)
            return type(what, (), {'__init__': init, '__repr__': lambda self: '%s%r' % (what, vars(self))})
        self.Downstream = struct('Downstream', *DOWN)
        self.JoinTraceRequest = struct('JoinTraceRequest', 'serverRole', 'downstream')
        self.TraceResponse = struct('TraceResponse', 'span', 'downstream', 'notImplementedError')
        self.ObservedSpan = struct('ObservedSpan', 'traceId', 'sampled', 'baggage')
        svc = self

        class TracedService(object):
            @staticmethod
            def joinTrace(request):
                return svc, 'joinTrace', request
        self.TracedService = TracedService


class Net(object):
    """The hosts of a crossdock run and what travels between them."""

    def __init__(self):
        self.hosts = {}
        self.calls = []
        self.spans = []

    def fetch(self, client, request, *a, **kw):
        import tornado.httpclient
        import tornado.httputil
        import tornado.gen
        if not isinstance(request, tornado.httpclient.HTTPRequest):
            request = tornado.httpclient.HTTPRequest(request, **{k: v for k, v in kw.items() if k != 'raise_error'})
        addr, path = request.url[len('http://'):].split('/', 1)
        self.calls.append(('HTTP', addr, path, request.method, json.loads(request.body.decode('utf-8'))))
        to = self.hosts[addr]

        @tornado.gen.coroutine
        def go():
            yield tornado.gen.moment
            if isinstance(to, bytes):
                out = to
            else:
                w = Writer()
                saved, Front.stack = Front.stack, []
                fut = to.join_trace(Req(request.body, dict(request.headers)), w)
                Front.stack = saved
                yield fut
                out = json.dumps(w.written[0]).encode('utf-8')
            raise tornado.gen.Return(types.SimpleNamespace(body=out, code=200))
        return go()

    def tchannel(self, addr, request, carrier):
        import tornado.gen
        svc, method, jtr = request
        self.calls.append(('TCHANNEL', addr, svc.name, method, jtr))
        to = self.hosts[addr]

        @tornado.gen.coroutine
        def go():
            yield tornado.gen.moment
            span = to.tracer.start_span('rpc', child_of=to.tracer.extract(J.Format.TEXT_MAP, carrier), tags={'span.kind': 'server'})
            saved, Front.stack = Front.stack, [span]
            fut = to.tchannel.thrift.handlers[method](types.SimpleNamespace(body=types.SimpleNamespace(request=jtr)))
            Front.stack = saved
            body = yield fut
            raise tornado.gen.Return(types.SimpleNamespace(body=body))
        return go()


def service(ctx):
    """A start request travels down a chain of crossdock servers over both transports; the response is checked level by level."""
    import opentracing
    import tornado.httpclient
    rng = ctx.rng
    m = Front.load()
    if isinstance(m, Exception):
        ctx.count('unavailable')
        ctx.event()
        return
    n = rng.choice([0, 1, 1, 2, 3, 4, 6])
    leaf = rng.random() < 0.3 and n
    net = Net()
    Front.net, Front.stack = net, []

    def server():
        was = opentracing.tracer
        try:
            opentracing.tracer = J.Tracer('python', J.InMemoryReporter(), J.ConstSampler(rng.random() < 0.5))
            return m.Server(8082)
        finally:
            opentracing.tracer = was
    down, trees, hops = None, [], []
    for i in range(n, 0, -1):
        host, port = '%s%d' % (gen.word(rng), i), str(rng.randint(1, 65535))
        tr = rng.choice(['HTTP', 'TCHANNEL'])
        if leaf and i == n:
            tr = 'HTTP'
            net.hosts[host + ':' + port] = json.dumps(dict({'notImplementedError': 'not here'}, **rng.choice([{}, {'span': None}, {'downstream': None, 'span': None}]))).encode()
        else:
            net.hosts[host + ':' + port] = server()
        down = {'serviceName': gen.word(rng), 'serverRole': 'S%d' % i, 'host': host, 'port': port, 'transport': tr, 'downstream': down}
        hops.insert(0, down)
    baggage, sampled = rng.choice([gen.text(rng).replace('\x00', ''), gen.word(rng), 'a b/%c']), rng.random() < 0.6
    if not baggage:
        baggage = 'b'
    first = server()
    w = Writer()
    body = raw(rng, strip({'serverRole': 'S0', 'sampled': sampled, 'baggage': baggage, 'downstream': down}, lambda: rng.random() < 0.5))

    async def main():
        await asyncio.wait_for(first.start_trace(Req(body, {}), w), 20)
    was = tornado.httpclient.AsyncHTTPClient.fetch
    tornado.httpclient.AsyncHTTPClient.fetch = lambda client, *a, **k: net.fetch(client, *a, **k)
    ctx.notes.update(chain=[(h['host'], h['transport']) for h in hops], baggage=baggage, sampled=sampled, leaf=bool(leaf))
    try:
        asyncio.run(main())
    except Exception as e:
        ctx.fail('front', 'start_trace failed with %r' % e)
    finally:
        tornado.httpclient.AsyncHTTPClient.fetch = was
    ctx.check(len(w.written) == 1 and w.finished == 1, 'front', '%d responses written, finished %d times' % (len(w.written), w.finished))
    got = json.loads(json.dumps(w.written[0]))
    ids = set()
    for i in range(n + 1):
        ctx.check(isinstance(got, dict), 'front', 'the response has %d levels, expected %d' % (i, n + 1), response=repr(w.written[0])[:500])
        sp = got.get('span')
        if leaf and i == n:
            ctx.check(sp is None and got.get('notImplementedError') == 'not here', 'front', 'the last level is %r, a server that does not implement joining' % (got,))
            ctx.count('not_implemented')
        else:
            ctx.check(isinstance(sp, dict) and sp['sampled'] is sampled and sp['baggage'] == baggage and got.get('notImplementedError') == '', 'front',
                      'level %d observed %r, requested sampled=%r baggage=%r' % (i, got, sampled, baggage))
            ids.add(sp['traceId'])
        got = got.get('downstream')
    ctx.check(got is None, 'front', 'the response has an extra level %r' % (got,))
    # the trace id of the first server's span, in hexadecimal
    ctx.check(ids == {'%x' % net.spans[0].trace_id}, 'front', 'the servers observed the traces %r' % (sorted(ids),))
    ctx.check(len(net.calls) == n, 'front', '%d calls for %d servers' % (len(net.calls), n))
    for (kind, addr, a, b, what), h in zip(net.calls, hops):
        ctx.check(kind == h['transport'] and addr == h['host'] + ':' + h['port'], 'front', 'called %s over %s instead of %s:%s over %s' % (addr, kind, h['host'], h['port'], h['transport']))
        if kind == 'HTTP':
            ctx.check(a == 'join_trace' and b == 'POST' and what.get('serverRole') == h['serverRole'], 'front', 'request %s %s %r to role %s' % (b, a, what, h['serverRole']))
            left = what.get('downstream')
            ctx.check(typed(full(left)) == typed(h['downstream']), 'front', 'the request asks for %r, expected %r' % (left, h['downstream']))
        else:
            ctx.check(a == h['serviceName'] and what.serverRole == h['serverRole'], 'front', 'request to %s with role %r' % (a, what.serverRole))
            ctx.check(typed(back(what.downstream, *DN)) == typed(h['downstream']), 'front', 'the request asks for %r' % (what.downstream,))
        ctx.count(kind.lower())
    ctx.event()
    ctx.key(n, tuple(h['transport'] for h in hops), sampled, baggage, bool(leaf))
    ctx.sample({'chain': [h['transport'] for h in hops], 'response': repr(w.written[0])[:300]})


def full(d):
    """A downstream document with its absent members."""
    return None if d is None else {k: full(d.get(k)) if k == 'downstream' else d.get(k) for k in DOWN}


class Req(object):
    def __init__(self, body, headers=None):
        self.headers = headers or {}
        self.body = body


class Writer(object):
    def __init__(self):
        self.finished = 0
        self.written = []

    def finish(self, *a):
        self.finished += 1

    def write(self, x):
        self.written.append(x)


def tagval(rng):
    return rng.choice([gen.text(rng), rng.random() * 1e6, rng.randint(-1 << 63, (1 << 63) - 1), True, False, rng.randint(0, 9), ''])


def expect_tag(v):
    if isinstance(v, bool):
        return ('bool', v)
    if isinstance(v, int):
        return ('i64', v)
    if isinstance(v, float):
        return ('dbl', v)
    return ('str', v)


SAMPLER = (('sampler.type', 'str', 'const'), ('sampler.param', 'bool', True))


def endtoend(ctx):
    """Requests over several tracers in virtual time; the datagrams of each tracer hold exactly what was asked of it."""
    rng = ctx.rng
    m = importlib.import_module('crossdock.server.endtoend')
    with World() as w, Tap() as tp:
        h = m.EndToEndHandler.__new__(m.EndToEndHandler)
        trs = {}
        for i, n in enumerate(rng.choice([['remote'], ['remote', 'const'], ['remote', 'const', 'third']])):
            sender = J.LocalAgentSender('127.0.0.1', 5778, 7000 + i, io_loop=w.io_loop)
            trs[n] = J.Tracer(n, J.Reporter(channel=sender, queue_capacity=5000, batch_size=rng.choice([1, 10]), flush_interval=0.2), J.ConstSampler(True))
        h.tracers = trs
        ctx.check(h.tracers is trs or h.tracers == trs, 'tracers', 'the tracers set are not the tracers used')
        want = {n: [] for n in trs}
        for _ in range(rng.randint(1, 5)):
            doc = {'operation': gen.text(rng, 1, 10)}
            t = 'remote'
            if rng.random() < 0.8:
                t = rng.choice(sorted(trs))
                doc['type'] = t
            n = 0
            if rng.random() < 0.9:
                n = rng.choice([0, 1, 2, 2, 3, 10, 40])
                doc['count'] = n
            tags = {}
            if rng.random() < 0.8:
                tags = {rng.choice(['', 'sampler.'] if rng.random() < 0.1 else ['']) + gen.text(rng, 1, 6): tagval(rng) for _ in range(rng.randint(0, 5))}
                if rng.random() < 0.2:
                    # names the client uses itself
                    tags[rng.choice(['sampler.type', 'sampler.param', 'span.kind', 'peer.service', 'error', 'component'])] = tagval(rng)
                doc['tags'] = tags
            wr = Writer()
            f = w.in_loop(lambda: h.generate_traces(Req(raw(rng, doc)), wr))
            w.settle()
            ctx.check(f.done(), 'unfinished', 'the request handler did not finish')
            f.result()
            ctx.check(wr.finished == 1, 'response', 'response finished %d times' % wr.finished)
            want[t] += [(doc['operation'], tuple(sorted(((k,) + expect_tag(v) for k, v in tags.items() if (k,) + expect_tag(v) not in SAMPLER), key=repr)))] * n
            ctx.event()
            if rng.random() < 0.5:
                w.run_for(rng.choice([0.05, 1]))
        for t in trs.values():
            t.close()
        w.run_for(5)
        ids = []
        for i, n in enumerate(trs):
            got = []
            for _, d, dest, _ in tp.sent:
                if dest[1] == 7000 + i:
                    b = wire.decode(d)
                    for sp in b['spans']:
                        tags = list(map(tuple, wire.tag_list(sp['tags'])))
                        # the sampler's own two, however the service places them
                        for own in SAMPLER:
                            while own in tags:
                                tags.remove(own)
                                ctx.count('sampler_tags')
                        got.append((sp['operationName'], tuple(sorted(tags, key=repr))))
                        tid, sid, par = wire.span_ids(sp)
                        ids.append((n, tid))
                        ctx.check(not par, 'not-a-trace', 'a created span has a parent')
            ctx.check([repr(x) for x in got] == [repr(x) for x in want[n]], 'traces', 'tracer %s: asked for %d traces, it made %d, or they differ' % (n, len(want[n]), len(got)),
                      asked=repr([w_ for w_ in want[n] if w_ not in got][:2])[:600], made=repr([g for g in got if g not in want[n]][:2])[:600])
        ctx.check(len(set(ids)) == len(ids), 'not-a-trace', 'created spans share a trace')
        ctx.count('traces', len(ids))
        ctx.key(want)
        ctx.sample({'tracers': len(trs), 'traces': len(ids)})


def defaults(ctx):
    """The handler as the service builds it: both tracers exist, sample, and report to AGENT_HOST_PORT."""
    rng = ctx.rng
    m = importlib.import_module('crossdock.server.endtoend')
    s = tap._RealSocket(socket.AF_INET, socket.SOCK_DGRAM)
    s.bind(('127.0.0.1', 0))
    port = s.getsockname()[1]
    os.environ['AGENT_HOST_PORT'] = rng.choice(['127.0.0.1:%d', 'localhost:%d']) % port
    try:
        h = m.EndToEndHandler()
    finally:
        del os.environ['AGENT_HOST_PORT']
    try:
        ctx.check(sorted(h.tracers) == ['const', 'remote'], 'tracers', 'the handler has tracers %s' % sorted(h.tracers))
        want = []
        for t in rng.sample(['const', 'remote'], rng.randint(1, 2)):
            n = rng.randint(1, 4)
            op = gen.word(rng)
            wr = Writer()
            async def go(t=t, op=op, n=n, wr=wr):
                await h.generate_traces(Req(json.dumps({'type': t, 'operation': op, 'count': n, 'tags': {'k': op}})), wr)
            asyncio.run(go())
            ctx.check(wr.finished == 1, 'response', 'response finished %d times' % wr.finished)
            want += [(op, op)] * n
        got = []
        end = core.real_monotonic() + 20
        s.settimeout(0.5)
        waits = 0
        while len(got) < len(want) and core.real_monotonic() < end:
            try:
                b = wire.decode(s.recv(70000))
            except socket.timeout:
                waits += 1
                continue
            ctx.check(b['process']['serviceName'] == 'crossdock-python', 'service', 'service name %r' % b['process']['serviceName'])
            for sp in b['spans']:
                got.append((sp['operationName'], [t[2] for t in map(tuple, wire.tag_list(sp['tags'])) if t[0] == 'k'][0]))
        if len(got) < len(want) and not got and waits < 35:
            raise Inconclusive('nothing arrived; starved?')
        ctx.check(sorted(got) == sorted(want), 'traces', 'asked for %s, received %s' % (want, got))
        ctx.event(len(got))
        ctx.key(want)
        ctx.sample({'traces': want})
    finally:
        for t in getattr(h, 'tracers', {}).values():
            t.close()
        s.close()


def remote_control(ctx):
    """The remote tracer of the handler follows the strategy that the agent answers with, the other one samples everything."""
    import tornado.httpclient
    from tornado.concurrent import Future
    rng = ctx.rng
    m = importlib.import_module('crossdock.server.endtoend')
    s = tap._RealSocket(socket.AF_INET, socket.SOCK_DGRAM)
    s.bind(('127.0.0.1', 0))
    polls = []
    rate = rng.choice([0, 0, 1])
    answer = rng.choice([{'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': rate}},
                         {'operationSampling': {'defaultSamplingProbability': rate, 'defaultLowerBoundTracesPerSecond': 0, 'perOperationStrategies': []}}])

    class Answer(object):
        body = json.dumps(answer).encode()

    def fetch(client, request, *a, **k):
        u = urllib.parse.urlsplit(request if isinstance(request, str) else request.url)
        f = Future()
        if u.path == '/sampling':
            polls.append(dict(urllib.parse.parse_qsl(u.query)))
            f.set_result(Answer())
        else:
            f.set_exception(OSError('no'))
        return f
    was, tornado.httpclient.AsyncHTTPClient.fetch = tornado.httpclient.AsyncHTTPClient.fetch, fetch
    cfg = getattr(m, 'config', None)
    old = dict(cfg) if isinstance(cfg, dict) else None
    if old is not None and 'sampling_refresh_interval' in old:
        cfg['sampling_refresh_interval'] = 0.2
    h = None
    try:
        os.environ['AGENT_HOST_PORT'] = '127.0.0.1:%d' % s.getsockname()[1]
        try:
            h = m.EndToEndHandler()
        finally:
            del os.environ['AGENT_HOST_PORT']
        end = core.real_monotonic() + 30
        # by the second poll, the first answer has taken effect
        while len(polls) < 2 and core.real_monotonic() < end:
            core.real_sleep(0.01)
        ctx.check(len(polls) >= 2, 'no-polls', 'the agent was asked %d times for a strategy in 30 s' % len(polls))
        ctx.check(polls[0] == {'service': 'crossdock-python'}, 'service', 'the strategy was requested for %r' % polls[0])
        want = []
        for t in ('remote', 'const'):
            n = rng.randint(1, 4)
            op = '%s-%s' % (t, gen.word(rng))
            wr = Writer()

            async def go(t=t, op=op, n=n, wr=wr):
                await h.generate_traces(Req(json.dumps({'type': t, 'operation': op, 'count': n, 'tags': {'k': op}})), wr)
            asyncio.run(go())
            if t == 'const' or rate:
                want += [op] * n
        for t in h.tracers.values():
            t.close()
        got = []
        end = core.real_monotonic() + 20
        s.settimeout(0.3)
        waits = 0
        while core.real_monotonic() < end:
            try:
                got += [x['operationName'] for x in wire.decode(s.recv(70000))['spans']]
            except socket.timeout:
                waits += 1
                if len(got) >= len(want):
                    break
        if not got and waits < 55:
            raise Inconclusive('nothing arrived; starved?')
        ctx.check(sorted(got) == sorted(want), 'not-controlled', 'with a strategy of rate %s the spans of %s arrived, not of %s' % (rate, sorted(got), sorted(want)))
        ctx.event(len(got))
        ctx.key(rate, len(got), sorted(answer))
        ctx.sample({'rate': rate, 'traces': got})
    finally:
        tornado.httpclient.AsyncHTTPClient.fetch = was
        if old is not None:
            cfg.clear()
            cfg.update(old)
        for t in getattr(h, 'tracers', {}).values():
            t.close()
        s.close()


def agent_address(ctx):
    """AGENT_HOST_PORT: host and port honoured, anything unusable falls back to the default."""
    rng = ctx.rng
    m = importlib.import_module('crossdock.server.endtoend')
    host = rng.choice(['localhost', '10.0.0.1', gen.word(rng)])
    port = rng.randint(0, 65535)
    v, want = rng.choice([('%s:%d' % (host, port), (host, port)), (host, None), ('%s:x' % host, None), ('%s:' % host, None), ('a:b:1', None), (None, None), ('', None)])
    if v is None:
        os.environ.pop('AGENT_HOST_PORT', None)
    else:
        os.environ['AGENT_HOST_PORT'] = v
    try:
        got = m._determine_host_port()
    finally:
        os.environ.pop('AGENT_HOST_PORT', None)
    ctx.check(tuple(got) == (want or ('jaeger-agent', 6831)), 'agent-address', 'AGENT_HOST_PORT=%r gives %r' % (v, got))
    ctx.event()
    ctx.key(v)
    ctx.sample({'AGENT_HOST_PORT': v, 'address': got})


SCENARIOS = [
    Scenario('encode', encode, 700, 20000),
    Scenario('decode', decode, 700, 20000),
    Scenario('thriftrw', thriftrw, 300, 6000),
    Scenario('service', service, 400, 6000),
    Scenario('endtoend', endtoend, 200, 6000, need=('events', 'traces', 'sampler_tags')),
    Scenario('defaults', defaults, 16, 80, limit=90, real=True),
    Scenario('remote_control', remote_control, 16, 80, limit=90, real=True),
    Scenario('agent_address', agent_address, 60, 500),
]
