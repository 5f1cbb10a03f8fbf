"""C22: requests to the agent identify service, client and operations exactly; datagrams go where configured."""
import asyncio
import json
import socket
import urllib.parse

from jv import core, gen, tap, wire
from jv.runner import Inconclusive, Scenario
from jv.world import J, Tap, World

ID = 'C22'
RULE = ('real HTTP requests and datagrams to stand-in agents on loopback sockets (IPv4, IPv6, host names, distinct ports), whose request lines are parsed '
        'independently; names of any characters, operation lists of any length, many requests in flight; host names resolved by a stub to addresses of either '
        'family; the whole client in virtual time; distinct by names and address')
ASSUMPTIONS = ['loopback sockets', 'hosts: IPv4/IPv6 literals , localhost and names resolved by a stub', 'names contain no lone surrogates']

HOSTS4 = ['127.0.0.1', '127.0.0.1', 'localhost', '127.0.0.2', '127.1']
HOSTS6 = ['::1', '::1', '0:0:0:0:0:0:0:1']


def bindable6():
    try:
        s = tap._RealSocket(socket.AF_INET6, socket.SOCK_DGRAM)
        s.bind(('::1', 0))
        s.close()
        return True
    except OSError:
        return False


V6 = [None]


def hosts():
    if V6[0] is None:
        V6[0] = bindable6()
    return HOSTS4 + (HOSTS6 if V6[0] else [])


def bind_addr(host):
    if ':' in host:
        return socket.AF_INET6, '::1'
    return socket.AF_INET, '127.0.0.2' if host == '127.0.0.2' else '127.0.0.1'


def name(rng):
    r = rng.random()
    if r < 0.25:
        return gen.word(rng)
    if r < 0.8:
        return gen.text(rng, 1, 16)
    if r < 0.9:
        return rng.choice(['a&service=b', 'x&uuid=1', 'a%20b', '%', '%zz', 'a+b', 'a b', '#frag', '?q=1', 'http://x/y', '../..', 'GET /x HTTP/1.1\r\nX: y', '日本語', 'a=b=c', ';', 'é' * 40,
                           'op\n', '\r', '&', '=', '[x]', 'operations', "{'a': 1}", '{0}', '%s', '%(x)s'])
    if r < 0.95:
        return gen.text(rng, 100, 700)
    return gen.text(rng, 0, 2)


class Stub(object):
    """A stand-in agent: reads requests, remembers the request line, answers 200 with a body naming the request."""

    def __init__(self):
        self.seen = []      # (method, target, headers, body sent)

    async def start(self, family, addr):
        self.sock = tap._RealSocket(family, socket.SOCK_STREAM)
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind((addr, 0))
        self.sock.listen(64)
        self.sock.setblocking(False)
        self.port = self.sock.getsockname()[1]
        self.server = await asyncio.start_server(self.handle, sock=self.sock)
        return self

    async def handle(self, reader, writer):
        try:
            head = await reader.readuntil(b'\r\n\r\n')
            line, _, rest = head.partition(b'\r\n')
            parts = line.split(b' ')
            body = json.dumps({'n': len(self.seen)}).encode()
            headers = {}
            for h in rest.split(b'\r\n'):
                k, _, v = h.partition(b':')
                headers[k.strip().lower().decode('latin1')] = v.strip().decode('latin1')
            self.seen.append((line, parts, headers, body))
            writer.write(b'HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n' % len(body) + body)
            await writer.drain()
        finally:
            writer.close()

    def stop(self):
        self.server.close()


def query(target):
    """Independent decoding of a query string (application/x-www-form-urlencoded)."""
    path, _, q = target.partition(b'?')
    out = []
    for pair in q.split(b'&') if q else []:
        k, _, v = pair.partition(b'=')
        out.append(tuple(urllib.parse.unquote_to_bytes(x.replace(b'+', b' ')).decode('utf-8') for x in (k, v)))
    return path.decode('ascii'), out


def expect_query(kind, args):
    if kind == 'sampling':
        return '/sampling', [('service', args[0])]
    return '/credits', [('service', args[0]), ('uuid', str(args[1]))] + [('operations', o) for o in args[2]]


def http(ctx):
    rng = ctx.rng
    host = rng.choice(hosts())
    family, addr = bind_addr(host)
    ctx.count('ipv6' if family == socket.AF_INET6 else 'ipv4')
    ctx.notes['host'] = host

    async def go():
        from tornado.ioloop import IOLoop
        samp = await Stub().start(family, addr)
        cred = await Stub().start(family, addr)
        port = rng.choice([int, str])(samp.port)
        sender = J.LocalAgentSender(host, port, 1, io_loop=IOLoop.current(), throttling_port=cred.port)
        try:
            for _ in range(rng.randint(1, 3)):
                batch = []
                for _ in range(rng.randint(1, 6)):
                    if rng.random() < 0.4:
                        a = (name(rng),)
                        batch.append(('sampling', a, sender.request_sampling_strategy(*a) if rng.random() < 0.5 else sender.request_sampling_strategy(service_name=a[0], timeout=10)))
                    else:
                        a = (name(rng), rng.choice([0, 1, rng.getrandbits(63), (1 << 63) - 1]), [name(rng) for _ in range(rng.choice([0, 1, 1, 2, 5, 30]))] if rng.random() < 0.85
                             else ['op%d' % i for i in range(rng.choice([40, 110, 300, 1200, 2000]))])
                        ops = rng.choice([list, tuple])(a[2])
                        batch.append(('credits', a, sender.request_throttling_credits(a[0], a[1], ops)))
                base = {'sampling': len(samp.seen), 'credits': len(cred.seen)}
                want = {'sampling': [], 'credits': []}
                got = []
                for kind, a, f in batch:
                    try:
                        r = await asyncio.wait_for(asyncio.ensure_future(wrap(f)), 20)
                    except asyncio.TimeoutError:
                        raise Inconclusive('stand-in agent starved')
                    except Exception as e:
                        ctx.fail('request-failed', '%s request to a healthy agent at %s failed: %r' % (kind, host, e), args=repr(a)[:500])
                    want[kind].append(expect_query(kind, a))
                    got.append((kind, a, json.loads(r.body.decode())['n']))
                    ctx.event()
                for kind, stub in (('sampling', samp), ('credits', cred)):
                    seen = stub.seen[base[kind]:]
                    ctx.check(len(seen) == len(want[kind]), 'request-count', '%d %s requests made, agent received %d on that port' % (len(want[kind]), kind, len(seen)))
                for kind, a, n in got:
                    line, parts, headers, _ = (samp if kind == 'sampling' else cred).seen[n]
                    ctx.check(len(parts) == 3 and parts[0] == b'GET' and parts[2].startswith(b'HTTP/1.'), 'request-line', 'malformed request line %r' % line[:200], args=repr(a)[:300])
                    try:
                        p, q = query(parts[1])
                    except UnicodeDecodeError as e:
                        ctx.fail('query-encoding', 'query is not UTF-8: %r' % e, line=repr(line[:300]))
                    wp, wq = expect_query(kind, a)
                    ctx.check(p == wp, 'path', 'request to %r, expected %r' % (p, wp))
                    ctx.check(sorted(q) == sorted(wq) and [x for x in q if x[0] == 'operations'] == [x for x in wq if x[0] == 'operations'], 'query',
                              'the query does not carry what was asked', asked=repr(wq)[:600], received=repr(q)[:600])
                    hp = headers.get('host', '')
                    sp = urllib.parse.urlsplit('http://' + hp)
                    ctx.check(sp.port == (samp if kind == 'sampling' else cred).port, 'host-header', 'Host header is %r' % hp)
                    ctx.key(host, wq)
        finally:
            samp.stop()
            cred.stop()
            sender.close()
    asyncio.run(go())
    ctx.sample({'host': host})


async def wrap(f):
    return await f


def recv(socks, n, timeout=10.0):
    """Datagrams received by {label: socket}: [(label, data)]; stops after n or when nothing came for `timeout`."""
    import select
    out = []
    while len(out) < n:
        r, _, _ = select.select(list(socks.values()), [], [], timeout)
        if not r:
            break
        for k, s in socks.items():
            if s in r:
                out.append((k, s.recv(70000)))
    # anything more, anywhere
    r, _, _ = select.select(list(socks.values()), [], [], 0.005)
    for k, s in socks.items():
        if s in r:
            out.append((k, s.recv(70000)))
    return out


def datagrams(ctx):
    """Real UDP sockets: the batch arrives at the configured host and port and nowhere else."""
    rng = ctx.rng
    host = rng.choice(hosts())
    family, addr = bind_addr(host)
    ctx.count('ipv6' if family == socket.AF_INET6 else 'ipv4')
    socks = {}
    for label in ('target', 'other'):
        s = tap._RealSocket(family, socket.SOCK_DGRAM)
        s.bind((addr, 0))
        socks[label] = s
    port = socks['target'].getsockname()[1]
    try:
        whole = rng.random() < 0.7
        if whole:
            with World() as w:
                sender = J.LocalAgentSender(host, socks['other'].getsockname()[1], port, io_loop=w.io_loop)
                rep = J.Reporter(channel=sender, batch_size=1, flush_interval=0.1)
                tr = J.Tracer(gen.word(rng), rep, J.ConstSampler(True))
                ops = [gen.word(rng) for _ in range(rng.randint(1, 4))]
                for o in ops:
                    tr.start_span(o).finish()
                    if rng.random() < 0.5:
                        w.run_for(rng.choice([0, 0.05, 0.2]))
                f = tr.close()
                w.run_for(2.0)
                ctx.check(f.done(), 'close', 'close did not complete')
            got = recv(socks, len(ops), 2.0)
            bad = [k for k, _ in got if k != 'target']
            ctx.check(not bad, 'wrong-port', 'datagram sent to another port')
            names = [sp['operationName'] for _, d in got for sp in wire.decode(d)['spans']]
            ctx.check(sorted(names) == sorted(ops), 'not-delivered', 'spans for %s port %d: expected %s there, received %s' % (host, port, ops, names))
            ctx.event(len(got))
            ctx.key(host, ops)
        else:
            t = J.TUDPTransport(host, port, blocking=rng.random() < 0.3)
            blobs = [bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 100, 1000]))) for _ in range(rng.randint(1, 5))]
            for b in blobs:
                try:
                    t.write(b)
                except OSError as e:
                    ctx.fail('send-failed', 'datagram to %s could not be sent: %r' % (host, e))
            got = recv(socks, len(blobs), 2.0)
            ctx.check([d for k, d in got if k == 'target'] == blobs and len(got) == len(blobs), 'not-delivered', 'datagrams to %s port %d not received as sent' % (host, port))
            ctx.check(t.isOpen(), 'closed', 'transport reports closed')
            t.close()
            ctx.event(len(got))
            ctx.key(host, blobs)
    finally:
        for s in socks.values():
            s.close()
    ctx.sample({'host': host, 'datagrams': len(got)})


def names(ctx):
    """Host names resolved by a stub: the socket's family and the destination fit the first address of the name."""
    rng = ctx.rng
    real = socket.getaddrinfo
    table = {}
    for _ in range(rng.randint(1, 4)):
        n = 'agent-%s.example' % gen.word(rng).strip('.-_')
        table[n] = rng.sample([(socket.AF_INET, '10.1.2.3'), (socket.AF_INET6, 'fd00::7'), (socket.AF_INET, '192.0.2.9')], rng.randint(1, 3))
    for n in ('192.0.2.1', '2001:db8::5', 'fe80::1%lo'):
        table[n] = [(socket.AF_INET6 if ':' in n else socket.AF_INET, n)]

    def stub(host, port, family=0, type=0, proto=0, flags=0):
        if isinstance(host, bytes):
            host = host.decode()
        if host not in table:
            return real(host, port, family, type, proto, flags)
        out = []
        for fam, a in table[host]:
            if family in (0, fam):
                if flags & socket.AI_NUMERICHOST and a != host:
                    raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
                for ty, pr in ((socket.SOCK_STREAM, 6), (socket.SOCK_DGRAM, 17)):
                    if type in (0, ty):
                        out.append((fam, ty, pr, '', (a, int(port or 0)) if fam == socket.AF_INET else (a, int(port or 0), 0, 0)))
        if not out:
            raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
        return out
    socket.getaddrinfo = stub
    try:
        with Tap() as tp:
            for host in rng.sample(sorted(table), min(len(table), 3)):
                port = rng.randint(1, 65535)
                n0, f0 = len(tp.sent), len(tp.families)
                with World() as w:
                    sender = J.LocalAgentSender(host, 5778, port, io_loop=w.io_loop)
                    rep = J.Reporter(channel=sender, batch_size=1, flush_interval=0.1)
                    tr = J.Tracer('svc', rep, J.ConstSampler(True))
                    tr.start_span('a').finish()
                    w.run_for(0.5)
                    tr.close()
                    w.run_for(1.0)
                sent = tp.sent[n0:]
                ctx.check(len(sent) == 1, 'not-delivered', '%d datagrams for one span to host %s' % (len(sent), host))
                dest = sent[0][2]
                ok = [(host, fam) for fam, _ in table[host][:1]] + [(a, fam) for fam, a in table[host]]
                fam = tp.families[f0:][-1] if tp.families[f0:] else None
                ctx.check(dest[1] == port, 'wrong-port', 'datagram to port %r, configured %r' % (dest[1], port))
                ctx.check(dest[0] == host or any(dest[0] == a for _, a in table[host]), 'wrong-host', 'datagram to %r, configured %r' % (dest[0], host))
                if fam is not None:
                    ctx.check((dest[0], fam) in ok, 'wrong-family', 'socket of family %s sends to %r (%s)' % (fam, dest[0], table[host]), host=host)
                ctx.event()
                ctx.key(host, port, table[host])
                ctx.count('name_v6' if table[host][0][0] == socket.AF_INET6 else 'name_v4')
    finally:
        socket.getaddrinfo = real
    ctx.sample({'names': {k: str(v) for k, v in table.items()}})


def through_client(ctx):
    """Config -> sampler and throttler -> HTTP client (its fetch recorded): every poll names the service, the tracer's client id and operations of the tracer."""
    from checks.c20_config import Http
    rng = ctx.rng
    svc = gen.text(rng, 1, 12)
    host = rng.choice(['localhost', '10.0.0.7', '::1', 'fd00::2', 'agent.example'])
    sport, tport = rng.randint(1, 65535), rng.randint(1, 65535)
    ops = [name(rng) or 'x' for _ in range(rng.randint(1, 6))]
    uids = []

    def respond(path, q):
        if path == '/sampling':
            return json.dumps({'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': 0.0}}).encode()
        return json.dumps({'balances': [{'operation': v, 'balance': 1} for k, v in q if k == 'operations']}).encode()
    with World() as w, Tap() as tp:
        with Http(w, respond) as http:
            cfg = J.Config({'local_agent': {'reporting_host': host, 'reporting_port': 6831, 'sampling_port': sport},
                            'throttler': {'port': tport, 'refresh_interval': 5}, 'sampling_refresh_interval': 10}, service_name=svc, validate=False)
            tr = cfg.new_tracer(io_loop=w.io_loop)
            for o in ops:
                s = tr.start_span(o)
                s.set_tag('sampling.priority', 1)
                s.finish()
                w.run_for(rng.choice([0, 1, 6]))
            w.run_for(30)
            last = tr.start_span(ops[0])
            last.set_tag('sampling.priority', 1)
            last.finish()
            tr.close()
            w.run_for(5)
        for _, d, _, _ in tp.sent:
            for t in wire.tag_list(wire.decode(d)['process']['tags']):
                if t[0] == 'client-uuid':
                    uids.append(t[2])
        ctx.check(uids, 'no-span', 'no span of a credited operation arrived')
        ctx.check(len(set(uids)) == 1, 'client-id', 'several client ids: %s' % set(uids))
        for _, h, p, path, q in http.reqs:
            ctx.event()
            ctx.check(h == host.lower(), 'wrong-host', 'request to host %r, configured %r' % (h, host))
            if path == '/sampling':
                ctx.count('sampling')
                ctx.check(p == sport, 'wrong-port', 'sampling request to port %r, configured %r' % (p, sport))
                ctx.check(q == [('service', svc)], 'query', 'sampling query %r for service %r' % (q, svc))
            else:
                ctx.count('credits')
                ctx.check(path == '/credits', 'path', 'request to %r' % path)
                ctx.check(p == tport, 'wrong-port', 'credit request to port %r, configured %r' % (p, tport))
                ctx.check([v for k, v in q if k == 'service'] == [svc], 'query', 'credit query %r for service %r' % (q, svc))
                ctx.check([v for k, v in q if k == 'uuid'] == [str(uids[0])], 'client-id', 'credits asked for client %r, spans say client-uuid %r' % ([v for k, v in q if k == 'uuid'], uids[0]))
                o = [v for k, v in q if k == 'operations']
                ctx.check(set(o) <= set(ops) and len(set(o)) == len(o), 'query', 'credits asked for %r, operations of the tracer are %r' % (o, ops))
        asked = {v for _, _, _, path, q in http.reqs if path == '/credits' for k, v in q if k == 'operations'}
        ctx.check(asked == set(ops), 'query', 'credits asked for %r, operations throttled are %r' % (asked, set(ops)))
        ctx.key(svc, host, ops)
    ctx.sample({'host': host, 'service': svc, 'requests': len(http.reqs)})


def limits(ctx):
    """Requests to an agent that never answers end within their time limit, whatever else uses the HTTP client of the event loop, which keeps its own settings."""
    import tornado.httpclient
    rng = ctx.rng
    mine = rng.choice([None, 7.0, 0, 3600])     # how the application has set its client up
    limit = rng.choice([None, 0.15, 0.3, 15, 2.5])
    first = rng.random() < 0.5
    kinds = [rng.choice(['sampling', 'credits']) for _ in range(rng.randint(1, 3))]
    seen = []
    impl = tornado.httpclient.AsyncHTTPClient.configured_class()

    def app_client():
        return tornado.httpclient.AsyncHTTPClient(**({} if mine is None else {'defaults': {'request_timeout': mine}}))

    async def go():
        from tornado.ioloop import IOLoop
        hung = []

        async def silent(reader, writer):
            hung.append(writer)
        server = await asyncio.start_server(silent, '127.0.0.1', 0)
        port = server.sockets[0].getsockname()[1]
        sender = J.LocalAgentSender('127.0.0.1', port, 1, io_loop=IOLoop.current(), throttling_port=port)
        kw = {} if limit is None else {'timeout': limit}
        real = impl.fetch_impl

        def watched(client, request, callback):
            seen.append(request.request_timeout)
            return real(client, request, callback)
        impl.fetch_impl = watched
        try:
            if first:
                app_client()
            futs = [sender.request_sampling_strategy('svc', **kw) if k == 'sampling' else sender.request_throttling_credits('svc', 1, ['a'], **kw) for k in kinds]
            t0 = core.real_monotonic()
            if limit is not None and limit < 1:
                done, late = await asyncio.wait([asyncio.ensure_future(wrap(f)) for f in futs], timeout=20)
                ctx.check(not late, 'never-ends', '%d of %d requests with a time limit of %s s to an agent that does not answer are open after 20 s' % (len(late), len(futs), limit))
                ctx.check(all(d.result() is not None for d in done), 'answered', 'a request that was not answered succeeds')
                ctx.count('ended', len(done))
            else:
                # (too long to wait for: the limit that the client was given)
                await asyncio.sleep(0)
                await asyncio.sleep(0)
            want = 15 if limit is None else limit
            ctx.check(len(seen) == len(futs) and all(x == want for x in seen), 'time-limit', 'requests with a time limit of %s s were issued with %s' % (want, seen))
            del seen[:]
            c = tornado.httpclient.AsyncHTTPClient() if first else app_client()
            f = c.fetch('http://127.0.0.1:%d/x' % port)
            asyncio.ensure_future(wrap(f))
            await asyncio.sleep(0)
            await asyncio.sleep(0)
            own = 20.0 if mine is None or not first else mine
            # who is first to ask for the client of the loop sets it up, so this client must not have
            ctx.check(not seen or first is False and mine is not None or seen == [own], 'client-settings',
                      'the time limit of the requests of the application is %s s, without the client it is %s s' % (seen, own))
            ctx.event(len(futs) + 1)
            return core.real_monotonic() - t0
        finally:
            impl.fetch_impl = real
            for w in hung:
                w.transport.abort()
            server.close()

    async def wrap(f):
        try:
            await f
        except Exception as e:
            return e
    asyncio.set_event_loop(None)
    asyncio.run(go())
    ctx.key(mine, limit, first, kinds)
    ctx.sample({'limit': limit, 'requests': kinds})


SCENARIOS = [
    Scenario('http', http, 120, 3000, need=('events', 'ipv4'), limit=90, real=True),
    Scenario('limits', limits, 60, 800, limit=90, real=True, need=('events', 'ended')),
    Scenario('datagrams', datagrams, 200, 4000, need=('events', 'ipv4'), real=True),
    Scenario('names', names, 200, 4000, need=('events', 'name_v4', 'name_v6')),
    Scenario('through_client', through_client, 200, 5000, need=('events', 'sampling', 'credits')),
]
