"""C31: a trace that crosses services arrives at the collector whole."""
import asyncio
import concurrent.futures
import contextvars
import json
import sys
import threading
import time

from checks.c08_roundtrip import bag_key, bag_value, header_names, unrelated
from checks.c20_config import Http
from jv import core, gen, refcodec as rc, wire
from jv.runner import Inconclusive, Scenario
from jv.world import J, Tap, World, rec_factory

ID = 'C31'
RULE = ('deployments of two to five services built by Config in virtual time: random call trees with concurrent, repeated, late and failing requests, messages, foreign peers, gateways that rewrite headers, '
        'all formats, samplers, services that restart, agents that lose datagrams; what the agents received is compared with the call tree; distinct by deployment and tree')
ASSUMPTIONS = ['all services of a deployment use the same header names and the same propagation', 'baggage keys are lower-case text',
               'two instances of services are not started at the same microsecond']


MINE = threading.local()


class Config(object):
    """Made on first use (the class of the client is not there before)."""

    def __new__(cls, *a, **k):
        class C(J.Config):
            one_span_per_rpc = False

            def create_tracer(self, reporter, sampler, throttler=None):
                t = J.Config.create_tracer(self, reporter, sampler, throttler)
                t.one_span_per_rpc = self.one_span_per_rpc
                return t
        return C(*a, **k)


class Service(object):
    def __init__(self, i, d):
        rng = d.rng
        self.i, self.d = i, d
        self.name = 'svc%d' % i
        self.mf = rec_factory()
        self.one = d.one and rng.random() < 0.7
        self.cv = rng.random() < 0.6
        self.cfg = {
            'reporter_queue_size': rng.choice([100, 100, 100, 4]), 'reporter_batch_size': rng.choice([1, 3, 4]), 'reporter_flush_interval': rng.choice([0.05, 0.7]),
            'generate_128bit_trace_id': rng.random() < 0.5, 'tags': {'zone': 'z%d' % i}, 'propagation': 'b3' if d.b3 else 'jaeger',
            'sampling_refresh_interval': rng.choice([0.9, 5]),
            'local_agent': {'reporting_host': '127.0.0.1', 'reporting_port': 7000 + i, 'sampling_port': 7100 + i}}
        self.cfg.update(d.names)
        r = rng.random()
        self.rate = None
        if r < 0.5:
            self.cfg['sampler'] = {'type': 'const', 'param': 1}
            self.rate = 1
        elif r < 0.6:
            self.cfg['sampler'] = {'type': 'const', 'param': 0}
            self.rate = 0
        elif r < 0.8:
            self.rate = rng.choice([0.3, 0.7])
            self.cfg['sampler'] = {'type': 'probabilistic', 'param': self.rate}
        elif r < 0.9:
            self.cfg['sampler'] = {'type': 'ratelimiting', 'param': 3}
        self.throttled = rng.random() < 0.2
        if self.throttled:
            self.cfg['throttler'] = {'port': 7200 + i, 'refresh_interval': 1}
        self.loses = rng.choice([0, 0, 0, 0.3])
        self.restarts = 0
        self.build()

    def build(self):
        from opentracing.scope_managers.contextvars import ContextVarsScopeManager
        from opentracing.scope_managers import ThreadLocalScopeManager
        conf = Config(json.loads(json.dumps(self.cfg)), service_name=self.name, validate=True, metrics_factory=self.mf,
                      scope_manager=ContextVarsScopeManager() if self.cv else ThreadLocalScopeManager())
        conf.one_span_per_rpc = self.one
        self.tracer = conf.new_tracer(io_loop=self.d.world.io_loop) if self.d.world else conf.new_tracer()
        self.d.tracers.append(self.tracer)


class Node(object):
    """A span of the call tree, as the application that made it understands it."""

    def __init__(self, d, svc, parent, op):
        self.svc, self.parent, self.op = svc, parent, op
        self.span = None
        self.ids = None            # trace, span
        self.parent_id = 0
        self.sampled = self.debug = False
        self.bag = {}
        self.start = self.end = None
        self.reported = False      # it was sampled when it was finished
        self.made_here = parent is None
        self.refs = []
        self.received = None, None  # format and headers of the request
        self.notes = []
        d.nodes.append(self)

    def state(self):
        return {'ids': self.ids, 'parent': self.parent_id, 'sampled': self.sampled, 'debug': self.debug, 'bag': dict(self.bag)}


class Peer(object):
    """A service that is not written in Python: it reads and writes the documented formats."""
    name = 'peer'
    i = None


class Message(object):
    def __init__(self, fmt, carrier, state, node):
        self.fmt, self.carrier, self.state, self.node = fmt, carrier, state, node


class Stop(Exception):
    """A failure of the application."""


class Deployment(object):
    def __init__(self, ctx, world):
        rng = self.rng = ctx.rng
        self.ctx, self.world = ctx, world
        self.b3 = rng.random() < 0.25
        self.one = rng.random() < 0.25
        self.names, self.eff = header_names(rng)
        self.nodes = []
        self.tasks = []
        self.tracers = []
        self.speed = 1 if world else 50
        self.budget = rng.choice([8, 20, 40])
        self.services = []
        for i in range(rng.randint(2, 5)):
            self.services.append(Service(i, self))
            if world:
                world.run_for(rng.uniform(0.01, 0.1))
        self.peers = not self.b3 and rng.random() < 0.3
        self.n = 0
        self.queue = []
        self.hops = self.passed = 0
        self.fmts = set()

    # ---------------------------------------------------------------- making spans
    def started(self, node, span, state, how):
        """Compares a new span with what it should be; state is what its parent was when it was referred to, or None."""
        ctx = self.ctx
        node.span = span
        node.start = time.time()
        t = span.trace_id
        node.ids = (t, span.span_id)
        node.sampled, node.debug = span.is_sampled(), span.is_debug()
        node.first = node.sampled, node.debug
        node.made_here = state is None
        if state is None:
            ctx.check(not span.parent_id, 'not a root', '%s: a new trace has the parent %r' % (how, span.parent_id))
            ctx.check(not node.debug or node.sampled, 'decision', '%s: a debug span that is not sampled' % how)
        else:
            ctx.check(t == state['ids'][0], 'trace cut', '%s: trace %x goes on as %x' % (how, state['ids'][0], t))
            shared = span.span_id == state['ids'][1]
            ctx.check(shared == (node.shares and node.svc.one), 'ids', '%s: span id %x under parent %x, one span per RPC: %s' % (how, span.span_id, state['ids'][1], node.svc.one))
            node.parent_id = state['parent'] if shared else state['ids'][1]
            ctx.check((node.sampled, node.debug) == (state['sampled'], state['debug']), 'decision',
                      '%s: sampled=%s debug=%s continues sampled=%s debug=%s' % (how, node.sampled, node.debug, state['sampled'], state['debug']))
            node.bag = dict(state['bag'])
        self.same_bag(node, how)
        ctx.event()

    def same_bag(self, node, how):
        b = dict(node.span.context.baggage)
        self.ctx.check(b == node.bag, 'baggage', '%s: the baggage is %r, expected %r' % (how, b, node.bag))

    # ---------------------------------------------------------------- transport
    def send(self, node):
        """Puts the context of a span on the wire."""
        rng = self.rng
        f = J.Format
        fmt = rng.choice([f.TEXT_MAP, f.TEXT_MAP, f.HTTP_HEADERS, f.HTTP_HEADERS, f.BINARY, J.ZipkinSpanFormat])
        if fmt == f.BINARY:
            car = bytearray()
        else:
            car = {} if fmt == J.ZipkinSpanFormat else unrelated(rng, self.eff)
            if fmt == node.received[0] and not self.b3 and rng.random() < 0.4:
                # the headers of the request are passed on
                car = dict(node.received[1])
                self.passed += 1
        node.tracer.inject(node.span if rng.random() < 0.5 else node.span.context, fmt, car)
        state = node.state()
        if fmt == J.ZipkinSpanFormat or self.b3 and fmt == f.HTTP_HEADERS:
            state['bag'] = {}
        self.fmts.add(str(fmt))
        if fmt == J.Format.BINARY:
            car = bytes(car)
        elif fmt != J.ZipkinSpanFormat:
            # proxies write header names as they like, and in any order
            items = [(rc.vary_case(rng, k) if k.isascii() and rng.random() < 0.5 else k, v) for k, v in car.items()]
            rng.shuffle(items)
            car = items
        else:
            car = list(car.items())
        return Message(fmt, car, state, node)

    def carrier(self, msg):
        return bytearray(msg.carrier) if isinstance(msg.carrier, bytes) else dict(msg.carrier)

    def foreign(self, msg):
        """A hop through a service in another language, that reads the message and calls on."""
        f, rng = J.Format, self.rng
        if msg.fmt == J.ZipkinSpanFormat:
            return msg
        eff = self.eff
        node = Node(self, Peer, msg.node, 'peer')
        bag = {}
        if msg.fmt == f.BINARY:
            t, s, p, fl, pairs = rc.read_binary(msg.carrier)
            bag = dict(pairs)
        else:
            http = msg.fmt == f.HTTP_HEADERS
            for k, v in msg.carrier:
                if k.lower() == eff['trace_id_header']:
                    t, s, p, fl = rc.read_text_id(v)
                elif k.lower().startswith(eff['baggage_header_prefix']):
                    bag[k.lower()[len(eff['baggage_header_prefix']):]] = rc.url_decode(v) if http else v
        self.ctx.check((t, s) == msg.state['ids'] and bool(fl & 1) == msg.state['sampled'] and bool(fl & 2) == msg.state['debug'] and bag == msg.state['bag'], 'trace cut',
                       'a peer reads %r' % ((t, s, p, fl, bag),), sent=msg.state)
        node.ids = (t, gen.id64(rng))
        node.parent_id, node.sampled, node.debug, node.bag = s, msg.state['sampled'], msg.state['debug'], dict(bag)
        if rng.random() < 0.3:
            k = bag_key(rng)
            node.bag[k] = bag_value(rng)
        fmt = rng.choice([f.BINARY, f.TEXT_MAP, f.HTTP_HEADERS])
        if fmt == f.BINARY:
            car = bytes(rc.write_binary(t, node.ids[1], s, fl, baggage=node.bag))
        else:
            http = fmt == f.HTTP_HEADERS
            car = [(rc.vary_case(rng, eff['trace_id_header']), rc.write_text_id(t, node.ids[1], s, fl, rng=rng))]
            car += [(eff['baggage_header_prefix'] + k, rc.url_encode(v, rng) if http else v) for k, v in node.bag.items()]
            rng.shuffle(car)
        return Message(fmt, car, node.state(), node)

    def operation(self):
        # (with one span per RPC a message that is delivered twice gives two spans of one id, told apart by their name)
        self.n += 1
        return 'op%d' % self.n if self.one or self.rng.random() < 0.7 else self.rng.choice('abc')

    # ---------------------------------------------------------------- services
    async def pause(self):
        if self.rng.random() < 0.5:
            await asyncio.sleep(self.rng.choice([0, 0, 0.001, 0.03, 0.4]) / self.speed)

    def spawn(self, coro, apart=True):
        if not self.world:
            return self.thread(coro) if apart else self.beside(coro)
        t = asyncio.get_running_loop().create_task(coro, **({'context': contextvars.Context()} if apart else {}))
        self.tasks.append(t)
        return t

    def thread(self, coro):
        """A thread with an event loop of its own."""
        fut = concurrent.futures.Future()

        async def main():
            MINE.tasks = []
            try:
                await coro
            finally:
                while MINE.tasks:
                    await MINE.tasks.pop()

        def run():
            try:
                asyncio.run(main())
            except BaseException as e:
                fut.set_exception(e)
            else:
                fut.set_result(None)
        threading.Thread(target=run, daemon=True).start()
        self.tasks.append(fut)
        return asyncio.wrap_future(fut)

    def beside(self, coro):
        t = asyncio.get_running_loop().create_task(coro)
        MINE.tasks.append(t)
        return t

    def pick(self):
        return self.rng.choice(self.services)

    async def entry(self):
        """A request from outside."""
        rng, f = self.rng, J.Format
        svc = self.pick()
        car, bag, debug = {}, {}, None
        if rng.random() < 0.3:
            car = unrelated(rng, self.eff)
        if not self.b3 and rng.random() < 0.3:
            if rng.random() < 0.6:
                debug = 'id-%d' % rng.randrange(99)
                car[rc.vary_case(rng, self.eff['debug_id_header'])] = debug
            if rng.random() < 0.6:
                bag = {'who': 'curl', 'k': '5'}
                car['jaeger-baggage'] = 'who=curl, k=5'
        await self.serve(svc, None, None, rng.choice([f.HTTP_HEADERS, f.TEXT_MAP]), car, bag, debug)

    async def request(self, msgs, kind='server'):
        """Delivers a message (or several at once) to some service; returns when it has answered."""
        svc = self.pick()
        m = msgs[0]
        if self.peers and self.rng.random() < 0.3:
            m = self.foreign(m)
        await self.spawn(self.serve(svc, m, kind, m.fmt, self.carrier(m), None, None, msgs[1:]))

    async def serve(self, svc, msg, kind, fmt, car, bag=None, debug=None, others=()):
        rng, ctx = self.rng, self.ctx
        await self.pause()
        tr = svc.tracer
        before = bytes(car) if isinstance(car, bytearray) else dict(car)
        c = tr.extract(fmt, car)
        ctx.check(before == car, 'carrier changed', 'extract changed the carrier')
        state = msg.state if msg else None
        if msg is not None:
            ctx.check(c is not None, 'trace cut', 'nothing extracted from %r (%s)' % (car, fmt))
            self.hops += 1
        node = Node(self, svc, msg and msg.node, self.operation())
        node.tracer = tr
        if msg is not None and fmt in (J.Format.TEXT_MAP, J.Format.HTTP_HEADERS):
            # (with the names in lower case, as inject writes them: else there are two of a kind)
            node.received = fmt, {k.lower(): v for k, v in car.items()}
        node.shares = msg is not None and kind == 'server'
        if bag:
            node.bag = dict(bag)
        how = '%s of %s (%s)' % (node.op, svc.name, fmt)
        tags = {'span.kind': kind} if kind else {}
        refs = None
        if others:
            # a consumer of a batch of messages
            refs = [J.Reference(rng.choice([J.ReferenceType.CHILD_OF, J.ReferenceType.FOLLOWS_FROM]), c)]
            for o in others:
                oc = tr.extract(o.fmt, self.carrier(o))
                refs.append(J.Reference(J.ReferenceType.FOLLOWS_FROM, oc))
                node.refs.append(o.state['ids'])
        args = dict(operation_name=node.op, tags=tags)
        if refs:
            args['references'] = refs
        elif c is not None or rng.random() < 0.5:
            args['child_of'] = c
        if svc.cv:
            with tr.start_active_span(ignore_active_span=c is None and rng.random() < 0.5, **args) as scope:
                self.started(node, scope.span, state, how)
                self.rooted(node, debug, how)
                fails = await self.body(node)
                if fails:
                    node.notes.append('fails')
                self.finishing(node)
            self.left(node)
        else:
            self.started(node, tr.start_span(ignore_active_span=c is None, **args), state, how)
            self.rooted(node, debug, how)
            await self.body(node)
            self.finish(node)

    def rooted(self, node, debug, how):
        if not node.made_here:
            return
        svc = node.svc
        if debug is not None:
            if not svc.throttled:
                self.ctx.check(node.debug, 'decision', '%s: a request with a debug id is not a debug trace' % how)
        else:
            self.ctx.check(not node.debug, 'decision', '%s: a debug trace that nobody asked for' % how)
            if svc.rate is not None:
                self.ctx.check(node.sampled == ((node.ids[0] & (1 << 64) - 1) < svc.rate * (1 << 64)), 'decision', '%s: trace %x sampled=%s at rate %s' % (how, node.ids[0], node.sampled, svc.rate))

    def finishing(self, node, at=None):
        """What is about to be finished."""
        if node.end is None and node.sampled:
            node.end = time.time() if at is None else at
            node.reported = True

    def left(self, node):
        self.ctx.check(node.tracer.active_span is not node.span, 'scope', '%s is still active after its scope' % node.op)

    def finish(self, node):
        rng = self.rng
        if rng.random() < 0.05:
            return          # never finished
        at = None
        if rng.random() < 0.1:
            at = time.time() + rng.choice([-0.0001, 0.5])
            at = max(at, node.start)
        self.finishing(node, at)
        node.span.finish(at) if at is not None else node.span.finish()
        if rng.random() < 0.1:
            self.finishing(node)
            node.span.finish()

    async def body(self, node):
        """What a span stands for: some work, some calls; returns whether it fails."""
        rng = self.rng
        running = []
        for _ in range(rng.randint(0, 5)):
            await self.pause()
            if len(self.nodes) >= self.budget:
                break
            k = rng.randrange(12)
            if k == 0:
                key, v = rng.choice(list(node.bag) or ['k']) if rng.random() < 0.5 else bag_key(rng), bag_value(rng)
                node.span.set_baggage_item(key, v)
                node.bag[key] = v
            elif k == 1 and node.end is None:
                self.force(node)
            elif k == 2:
                node.span.set_tag('t%d' % rng.randrange(3), gen.tag_value(rng))
                node.span.log_kv({'event': 'e'})
            elif k in (3, 4):
                await self.local(node)
            elif k == 5:
                running.append(self.spawn(self.local(node), apart=False))
            elif k in (6, 7, 8):
                await self.call(node)
            elif k == 9:
                running.append(self.spawn(self.call(node), apart=False))
            elif k == 10:
                # a message: delivered later, once, twice or never
                m = self.send(node)
                for _ in range(rng.choice([0, 1, 1, 2])):
                    self.queue.append(m)
            else:
                # no span for the call itself
                await self.request([self.send(node)], rng.choice(['server', None]))
            self.same_bag(node, node.op)
            if node.svc.cv:
                a = node.tracer.active_span
                self.ctx.check(a is node.span, 'scope', 'the active span of %s is %r' % (node.op, a))
        if rng.random() < 0.7:
            for t in running:
                await t
        return rng.random() < 0.1

    def force(self, node):
        v = self.rng.choice([1, 1, 0])
        node.span.set_tag('sampling.priority', v)
        s, g = node.span.is_sampled(), node.span.is_debug()
        if node.svc.throttled and v and not node.debug:
            self.ctx.check((s, g) in ((True, True), (node.sampled, node.debug)), 'decision', 'sampling.priority gives sampled=%s debug=%s' % (s, g))
        else:
            want = (True, True) if v else (False, False)
            self.ctx.check((s, g) == want, 'decision', 'sampling.priority=%s gives sampled=%s debug=%s' % (v, s, g))
        node.sampled, node.debug = s, g

    def child(self, node, tags=None):
        """A child of a span in the same service: implicit, by span or by context."""
        rng, svc = self.rng, node.svc
        c = Node(self, svc, node, self.operation())
        c.tracer, c.shares, c.received = node.tracer, False, node.received
        k = rng.randrange(3)
        if k == 0 and svc.cv and node.tracer.active_span is node.span:
            args = {}
        elif k == 1:
            args = {'child_of': node.span.context}
        else:
            args = {'child_of': node.span}
        args.update(operation_name=c.op, tags=tags)
        return c, args

    async def local(self, node):
        state = node.state()
        c, args = self.child(node)
        if node.svc.cv and self.rng.random() < 0.6:
            with c.tracer.start_active_span(**args) as scope:
                self.started(c, scope.span, state, c.op)
                await self.body(c)
                self.finishing(c)
            self.left(c)
        else:
            self.started(c, c.tracer.start_span(**args), state, c.op)
            if not c.svc.cv:
                await self.body(c)
            else:
                await self.pause()
            self.finish(c)

    async def call(self, node):
        """A request to another service, with a span of the client for it."""
        state = node.state()
        c, args = self.child(node, {'span.kind': 'client'})
        self.started(c, c.tracer.start_span(**args), state, c.op)
        await self.pause()
        m = self.send(c)
        try:
            # tried again, by one that has timed out
            first = self.spawn(self.request([m]))
            if self.rng.random() < 0.15 and not self.one:
                await asyncio.sleep(0.002 / self.speed)
                await self.request([m])
            await first
        finally:
            self.finish(c)

    async def consumer(self):
        """Takes messages from the queue, alone or several at once."""
        while self.queue:
            n = self.rng.choice([1, 1, 2, 3])
            ms = [self.queue.pop(self.rng.randrange(len(self.queue))) for _ in range(min(n, len(self.queue)))]
            await self.request(ms, 'consumer')

    async def restarts(self):
        """Services are replaced by new instances while they work."""
        rng = self.rng
        for _ in range(rng.choice([0, 0, 1, 2])):
            await asyncio.sleep(rng.uniform(0.01, 0.5) / self.speed)
            svc = self.pick()
            old = svc.tracer
            svc.build()
            svc.restarts += 1
            if rng.random() < 0.5:
                await asyncio.sleep(0.3 / self.speed)
            old.close()

    async def main(self):
        rs = self.spawn(self.restarts())
        es = []
        for _ in range(self.rng.randint(1, 5)):
            es.append(self.spawn(self.entry()))
            await self.pause()
        for t in es:
            await t
        await self.consumer()
        await rs
        i = 0
        while i < len(self.tasks):
            t = self.tasks[i]
            await (t if isinstance(t, asyncio.Future) else asyncio.wrap_future(t))
            i += 1


def services(ctx):
    rng = ctx.rng

    def fault(data, dest):
        svc = d.services[dest[1] - 7000]
        return OSError(111, 'refused') if rng.random() < svc.loses else None

    def respond(path, q):
        if path == '/sampling':
            return rng.choice([b'', json.dumps({'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': rng.choice([0, 1, 0.5])}}).encode()])
        return json.dumps({'balances': [{'operation': o, 'balance': rng.choice([0, 1])} for o in ('a', 'b', 'c', 'op1', 'op2')]}).encode()
    with World() as w, Tap(fault=fault) as tp, Http(w, respond):
        d = Deployment(ctx, w)
        ctx.notes.update(services=[s.cfg for s in d.services], one_span_per_rpc=[s.one for s in d.services])
        main = w.aloop.create_task(d.main(), context=contextvars.Context())
        for _ in range(200):
            w.run_for(1)
            if main.done():
                break
        if not main.done():
            raise Inconclusive('the deployment is still busy after 200 s')
        main.result()
        fs = [s.tracer.close() for s in d.services]
        w.run_for(10)
        ctx.check(all(f.done() for f in fs), 'close', 'a tracer is still closing after 10 s')
    report(ctx, d, tp)


def threads(ctx):
    """The same with threads: one for each request, and the background thread of each client."""
    rng = ctx.rng
    lock = threading.Lock()

    def fault(data, dest):
        with lock:
            return OSError(111, 'refused') if rng.random() < d.services[dest[1] - 7000].loses else None
    old = sys.getswitchinterval()
    d = None
    try:
        with Tap(fault=fault) as tp:
            d = Deployment(ctx, None)
            ctx.notes.update(services=[s.cfg for s in d.services], one_span_per_rpc=[s.one for s in d.services])
            sys.setswitchinterval(1e-5)
            asyncio.run(d.main())
            fs = [t.close() for t in d.tracers]
            end = core.real_monotonic() + 20
            while not all(f.done() for f in fs) and core.real_monotonic() < end:
                core.real_sleep(0.002)
            if not all(f.done() for f in fs):
                raise Inconclusive('a tracer is still closing after 20 s')
    finally:
        sys.setswitchinterval(old)
        for t in d.tracers if d else ():
            r = t.reporter
            while not hasattr(r, 'io_loop'):
                r = r.reporters[0]
            r.io_loop.add_callback(r.io_loop.stop)
    report(ctx, d, tp)


def report(ctx, d, tp):
    collect(ctx, d, tp)
    ctx.count('hops', d.hops)
    ctx.count('passed_on', d.passed)
    ctx.count('restarts', sum(s.restarts for s in d.services))
    ctx.count('peers', sum(n.svc is Peer for n in d.nodes))
    ctx.count('joins', sum(bool(n.refs) for n in d.nodes))
    ctx.key(len(d.services), tuple((n.svc.name, n.op, bool(n.parent)) for n in d.nodes), tuple(sorted(d.fmts)))
    ctx.sample({'services': len(d.services), 'spans': len(d.nodes), 'hops': d.hops, 'formats': sorted(d.fmts)})


def collect(ctx, d, tp):
    """What the agents of the services received, against the call tree."""
    got = {}
    for t, data, dest, _ in tp.sent:
        b = wire.decode(data)
        svc = d.services[dest[1] - 7000]
        ctx.check(b['process']['serviceName'] == svc.name and ('zone', 'str', 'z%d' % svc.i) in wire.tag_list(b['process']['tags']), 'process',
                  'the agent of %s received a batch of %r' % (svc.name, b['process']))
        for s in b['spans']:
            tid, sid, pid = wire.span_ids(s)
            got.setdefault((svc.i, tid, sid, s['operationName']), []).append(s)
    missing = {}
    spans = whole = 0
    lost = set()
    for n in d.nodes:
        if n.svc is Peer or not n.reported:
            continue
        k = (n.svc.i, n.ids[0], n.ids[1], n.op)
        ws = got.get(k)
        if not ws:
            missing[n.svc.i] = missing.get(n.svc.i, 0) + 1
            lost.add(n.ids[0])
            continue
        # (with one span per RPC a repeated request gives twins)
        ws.sort(key=lambda s: abs(s['startTime'] - n.start * 1e6) + abs(s['duration'] - (n.end - n.start) * 1e6))
        s = ws.pop(0)
        spans += 1
        what = '%s of %s' % (n.op, n.svc.name)
        pid = wire.u64(s['parentSpanId'])
        ctx.check(pid == (n.parent_id or 0), 'misplaced', '%s arrives under parent %x, it was called by %x' % (what, pid, n.parent_id or 0))
        ctx.check(bool(s['flags'] & 1) and bool(s['flags'] & 2) == n.debug, 'flags', '%s arrives with flags %r, debug is %s' % (what, s['flags'], n.debug))
        ctx.check(not d.world or abs(s['startTime'] - n.start * 1e6) <= 2 and abs(s['duration'] - (n.end - n.start) * 1e6) <= 2, 'times',
                  '%s arrives with %r + %r, expected %r + %r' % (what, s['startTime'], s['duration'], n.start * 1e6, (n.end - n.start) * 1e6))
        refs = {((wire.u64(r['traceIdHigh']) << 64) | wire.u64(r['traceIdLow']), wire.u64(r['spanId'])) for r in s.get('references') or ()}
        for r in n.refs:
            ctx.check(r in refs or r == (n.ids[0], pid), 'reference lost', '%s has lost its reference to %x:%x' % ((what,) + r), references=sorted(refs))
        tags = [k for k, _, _ in wire.tag_list(s.get('tags'))]
        if n.made_here and n.first == (True, False):
            ctx.check('sampler.type' in tags, 'decision', '%s, where the trace began, is not tagged with the sampler: %r' % (what, tags))
        if not n.made_here:
            ctx.check('sampler.type' not in tags and 'jaeger-debug-id' not in tags, 'decision', '%s is tagged as if the trace began there: %r' % (what, tags))
    extra = [(k, s) for k, ss in got.items() for s in ss]
    if extra:
        k, s = extra[0]
        known = [n for n in d.nodes if n.ids and n.ids == k[1:3] and n.svc.i == k[0]]
        ctx.fail('extra', 'svc%d sent a span %x:%x %r that %s' % (k + ('was not to be reported, or is reported twice' if known else 'nobody made',)), span=s)
    for svc in d.services:
        ok, err, dropped = svc.mf.spans()
        ctx.check(missing.get(svc.i, 0) == err + dropped, 'lost', 'of the sampled spans of %s %d did not arrive, and %d are counted as failed, %d as dropped' % (svc.name, missing.get(svc.i, 0), err, dropped))
        if not svc.loses and not svc.restarts and svc.cfg['reporter_queue_size'] == 100:
            ctx.check(not missing.get(svc.i), 'lost', '%d spans of %s did not arrive, and its agent is well' % (missing.get(svc.i, 0), svc.name))
    # and nothing belongs to two spans
    seen = {}
    for n in d.nodes:
        if n.span is None:
            continue
        m = seen.setdefault(n.ids, n)
        if m is not n and not ((m.svc.one if m.svc is not Peer else False) or (n.svc.one and n.shares)):
            ctx.fail('ids', 'two spans have the id %x:%x: %s and %s' % (n.ids + (m.op, n.op)))
    traces = {n.ids[0] for n in d.nodes if n.reported and n.svc is not Peer}
    ctx.count('spans', spans)
    ctx.count('whole_traces', len(traces - lost))
    ctx.count('cut_traces', len(traces & lost))
    ctx.count('unsampled', len({n.ids[0] for n in d.nodes if n.ids} - traces))


SCENARIOS = [
    Scenario('services', services, 600, 15000, need=('events', 'spans', 'hops', 'passed_on', 'restarts', 'peers', 'joins', 'whole_traces', 'cut_traces', 'unsampled')),
    Scenario('threads', threads, 150, 3000, real=True, need=('events', 'spans', 'hops', 'restarts', 'whole_traces')),
]
