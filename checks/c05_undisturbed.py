"""C05: an unavailable or slow agent never disturbs the application."""
import asyncio
import ipaddress
import socket
import threading

from jv import core, gen
from jv.runner import Scenario, Inconclusive
from jv.world import J, Tap, World, rec_factory, virtual_sender
from jv.repwork import Rig, balance, random_fault

ID = 'C05'
RULE = ('span programs against agents that fail in every way (send errors of every kind, stalled sends, stopped or closed '
        'event loop, hostile agent answers); monitors: no exception from any span call, no send on the calling thread, no '
        'sleep, no wait while a send or request is in progress, and the number of spans in memory after every loop turn; '
        'distinct by the fault and burst sequence')
ASSUMPTIONS = ['the capacity bound is observed whenever the event loop has run the callbacks handed to it']


class NoWait(object):
    """Records every wait for another thread (Event, Condition, Future, Queue, ...) entered by the thread that uses it."""

    def __init__(self):
        self.waits = []
        self.real = threading.Condition.wait
        self.on = False

    def __enter__(self):
        me = threading.get_ident()
        real, waits = self.real, self.waits

        def wait(cond, timeout=None):
            if self.on and threading.get_ident() == me and (timeout is None or timeout > 0):
                waits.append(timeout)
                # the test goes on, the wait is what is judged
                return real(cond, min(0.01, 0.01 if timeout is None else timeout))
            return real(cond, timeout)
        threading.Condition.wait = wait
        return self

    def __exit__(self, *a):
        threading.Condition.wait = self.real


def annotate(rng, s):
    for _ in range(rng.randint(0, 4)):
        k = rng.randrange(6)
        if k == 0:
            s.set_tag(gen.word(rng), gen.tag_value(rng))
        elif k == 1:
            s.log_kv({gen.word(rng): gen.tag_value(rng)})
        elif k == 2:
            s.set_baggage_item(gen.word(rng), gen.word(rng))
        elif k == 3:
            s.set_operation_name(gen.word(rng))
        elif k == 4:
            s.error('msg', {'p': 1}) if rng.random() < 0.5 else s.info('msg')
        else:
            s.set_tag('sampling.priority', rng.choice([0, 1, 'x', None]))


def faults(ctx):
    """Every span call returns normally and sends nothing itself, whatever the network and the loop do."""
    rng = ctx.rng
    with Rig(ctx, fault=random_fault(rng, rng.choice([0.3, 1.0]))) as rig, NoWait() as nw:
        mode = rng.choice(['running', 'running', 'never', 'stopped', 'closed'])
        clk = rig.world.clock
        if rng.random() < 0.5:
            hostile = [b'', b'{', b'null', b'[]', b'\xff\xfe', b'{"strategyType": 7}', OSError('refused'), RuntimeError('x'), None,
                       b'{"operationSampling": 5}', b'{"operationSampling": {"perOperationStrategies": [1]}}', b'"str"', b'1e999']
            sender = virtual_sender(rig.world, lambda kind, a, k: (rng.choice([None, 0.1, 3.0]), rng.choice(hostile)))
            sampler = J.RemoteControlledSampler(sender, 'svc', init_sampler=J.ConstSampler(True), sampling_refresh_interval=1)
            thr = J.RemoteThrottler(sender, 'svc', refresh_interval=1) if rng.random() < 0.5 else None
            rig.tracer = J.Tracer('svc', rig.reporter, sampler, metrics_factory=rig.mf, throttler=thr)
            ctx.count('hostile_agent')
        if mode == 'closed':
            rig.world.run_for(0.5)
            rig.world.io_loop.close(all_fds=False)
        prog = [mode]
        full = 0
        for i in range(rng.randint(2, 20)):
            if mode == 'stopped' and i > 4 or mode in ('never', 'closed'):
                pass
            elif rng.random() < 0.4:
                nw.on = False
                if rng.random() < 0.5:
                    rig.world.turn(1)     # a burst has arrived in the queue, the consumer has not caught up
                else:
                    rig.world.run_for(rng.choice([0.01, 0.5, 2]))
            nw.on = True
            full += bool(rig.reporter.queue.full())
            for _ in range(rng.choice([1, 1, 3, rig.cap + 2])):
                n0 = len(rig.tap.attempts)
                s0 = getattr(clk, 'slept', 0.0)
                w0 = clk.wall
                s = rig.tracer.start_span('op')
                annotate(rng, s)
                s.finish()
                ctx.check(not nw.waits, 'waited', 'a span call waited for another thread: timeouts %s' % nw.waits[:3])
                ctx.check(len(rig.tap.attempts) == n0, 'sent-by-caller', 'a datagram was sent on the thread of the application')
                ctx.check(getattr(clk, 'slept', 0.0) == s0 and clk.wall == w0, 'waited', 'a span call slept')
                ctx.event()
            prog.append(i)
        nw.on = False
        ctx.count('calls_while_queue_full', full)
        rig.world.aloop.is_closed() or rig.world.run_for(3)
        ctx.check(not rig.tap.could_wait, 'send-may-wait', 'spans were sent on the event loop, which may be the application\'s own, through a socket whose sends wait (timeout %s)' % rig.tap.could_wait[:1])
        ctx.count('send_failures', sum(1 for a in rig.tap.attempts if a[3] is not None))
        ctx.key(mode, tuple(prog), rig.mf.spans(), rig.cap, rig.batch)
        ctx.sample({'loop': mode, 'ok/err/dropped': rig.mf.spans()})


def bounded(ctx):
    """Occupancy: never more than capacity + batch in memory, nothing dropped below capacity."""
    rng = ctx.rng
    with Rig(ctx, fault=random_fault(rng)) as rig:
        rig.world.settle()
        prog = []
        drops = 0
        for _ in range(rng.randint(2, 14)):
            before = rig.outstanding()
            d0 = rig.mf.spans()[2]
            k = rng.choice([1, 2, rig.batch, rig.cap - 1, rig.cap, rig.cap + 1, rig.cap + rig.batch + 1, 3 * rig.cap])
            k = max(1, min(k, 150))
            for _ in range(k):
                rig.emit()
            how = rng.choice(['turn', 'settle'])
            if how == 'turn':
                rig.world.turn(1)          # all arrivals have been handed over, consumer has not caught up
                after = rig.outstanding()
                ctx.check(after <= rig.cap + rig.batch, 'memory-bound',
                          '%d spans in memory after one turn, capacity %d, batch %d' % (after, rig.cap, rig.batch))
            rig.world.settle()
            dropped = rig.mf.spans()[2] - d0
            o = rig.outstanding()
            prog.append((k, dropped, o))
            ctx.event(k)
            drops += dropped
            ctx.check(o <= rig.cap + rig.batch, 'memory-bound', '%d spans in memory, capacity %d, batch %d' % (o, rig.cap, rig.batch))
            # nothing dropped while fewer than the capacity were outstanding
            ctx.check(dropped <= max(0, before + k - rig.cap), 'early-drop',
                      '%d dropped of a burst of %d with %d outstanding, capacity %d' % (dropped, k, before, rig.cap))
            # the excess is dropped: what was accepted in one go cannot exceed what fits
            ctx.check(k - dropped <= rig.cap + 2 * rig.batch, 'excess-kept',
                      'burst of %d: only %d dropped, capacity %d, batch %d' % (k, dropped, rig.cap, rig.batch))
            if rng.random() < 0.5:
                rig.world.run_for(rng.choice([0.1, 2.0]))
        ctx.count('dropped', drops)
        ctx.notes['program'] = prog
        rig.top.close()
        rig.world.run_for(10)
        balance(ctx, rig)
        ctx.key(rig.cap, rig.batch, tuple(prog))
        ctx.sample({'cap': rig.cap, 'batch': rig.batch, 'burst/dropped/outstanding': prog[:6]})


def within(fn, secs, what, ctx):
    """fn must return within `secs` of real time on its own thread."""
    box = []

    def run():
        try:
            box.append((True, fn()))
        except BaseException as e:
            box.append((False, e))
    t = threading.Thread(target=run, daemon=True)
    t.start()
    t.join(secs)
    if not box:
        return None
    if not box[0][0]:
        raise box[0][1]
    return box[0]


def stalled_send(ctx):
    """While the network holds a send, a request or an encoding, all span calls still return."""
    rng = ctx.rng
    mf = rec_factory()
    entered, release = threading.Event(), threading.Event()

    def hold(d, dest):
        entered.set()
        release.wait(60)
        return OSError('late') if rng.random() < 0.3 else None
    with Tap(fault=hold) as tp:
        sender = J.LocalAgentSender('127.0.0.1', 5778, 6831)
        rep = J.Reporter(channel=sender, queue_capacity=5, batch_size=1, flush_interval=0.01, metrics_factory=mf)
        tr = J.Tracer('svc', rep, J.ConstSampler(True), metrics_factory=mf)
        first = tr.start_span('first')
        burst = [tr.start_span('burst') for _ in range(rng.choice([0, 3, 9]))]

        def fill():
            first.finish()
            for x in burst:
                x.finish()
        if burst:
            sender.io_loop.add_callback(fill)     # all arrive in one turn: the queue is full when the send is held
        else:
            first.finish()
        if not entered.wait(30):
            release.set()
            raise Inconclusive('no send within 30 s')

        def work():
            first.set_tag('late', 1)
            first.log_kv({'late': 1})
            first.set_baggage_item('a', 'b')
            first.finish()
            spans = []
            for i in range(8):
                s = tr.start_span('op%d' % i, child_of=first if i % 2 else None)
                annotate(rng, s)
                spans.append(s)
            for s in spans:
                s.finish()
            car = {}
            tr.inject(first.context, J.Format.TEXT_MAP, car)
            tr.extract(J.Format.TEXT_MAP, car)
            with tr.start_active_span('scope'):
                pass
            return True

        def watched():
            with NoWait() as nw:
                nw.on = True
                work()
                waits.extend(nw.waits)
                return True
        waits = []
        try:
            r = within(watched, 10, 'span calls', ctx)
            ctx.check(not waits, 'waited', 'a span call waited for another thread while a send was in progress: timeouts %s' % waits[:3])
            if r is None:
                # confirm that the wait ends with the send, so that a slow machine is not blamed
                release.set()
                ctx.fail('blocked-by-send', 'span calls did not return within 10 s while a send was in progress')
        finally:
            release.set()
            # everything still queued leaves before the tap is removed
            done = tr.close()
            end = core.real_monotonic() + 20
            while not done.done() and core.real_monotonic() < end:
                core.real_sleep(0.002)
            sender.io_loop.add_callback(sender.io_loop.stop)
        ctx.event(9)
        ctx.key(rng.random())
        ctx.sample({'held': 'sendto', 'calls': 'start/tag/log/baggage/finish/inject/extract'})
        del tp


def stalled_request(ctx):
    """While a request to the agent is being issued or answered, sampling and throttling decisions still return."""
    rng = ctx.rng
    world = World()
    held, release = threading.Event(), threading.Event()
    which = rng.choice(['sampling', 'credits'])

    def responder(kind, a, k):
        if kind == which and not release.is_set():
            held.set()
            release.wait(60)
        return (rng.choice([None, 0.1]), rng.choice([b'{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 1}, "balances": []}', OSError('x')]))
    sender = virtual_sender(world, responder)
    rep = J.InMemoryReporter()
    smp = J.RemoteControlledSampler(sender, 'svc', init_sampler=J.ConstSampler(True), sampling_refresh_interval=1)
    thr = J.RemoteThrottler(sender, 'svc', refresh_interval=1)
    tr = J.Tracer('svc', rep, smp, throttler=thr)
    tr.start_span('seen').set_tag('sampling.priority', 1)

    def loop():
        asyncio.set_event_loop(world.aloop)
        try:
            world.run_for(5)
        finally:
            asyncio.set_event_loop(None)
    lt = threading.Thread(target=loop, daemon=True)
    asyncio.set_event_loop(None)
    lt.start()
    try:
        if not held.wait(30):
            raise Inconclusive('no request issued')

        def work():
            for i in range(6):
                s = tr.start_span('op%d' % i)
                s.set_tag('sampling.priority', 1)
                s.finish()
            c = J.SpanContext.with_debug_id('dbg')
            tr.start_span('dbg', child_of=c).finish()
            return True
        if within(work, 10, 'span calls', ctx) is None:
            ctx.fail('blocked-by-request', 'span calls did not return within 10 s while a %s request was in progress' % which)
    finally:
        release.set()
        lt.join(20)
    asyncio.set_event_loop(world.aloop)
    world.close()
    ctx.event(7)
    ctx.key(which, rng.random())
    ctx.sample({'held': which})


def lockset(ctx):
    """Under the controlled scheduler, no interleaving of application calls with a send in progress deadlocks or waits for it."""
    from jv import sched
    rng = ctx.rng
    with Rig(ctx, queue_capacity=5, batch_size=1, flush_interval=None) as rig:
        rig.world.turn(2)
        uid, first = rig.span()
        others = [rig.span() for _ in range(rng.randint(1, 3))]
        rig.finish(uid, first)
        open_sends = []
        ran = []

        def on_send(now, data, dest, exc):
            # a send is in progress on the loop thread: other threads take over here
            open_sends.append(1)
            for _ in range(3):
                sc.point()
        rig.tap.on_send = on_send

        def loop():
            asyncio.set_event_loop(rig.world.aloop)
            try:
                rig.world.turn(6)
            finally:
                asyncio.set_event_loop(None)

        def app():
            first.set_tag('late', 1)
            first.log_kv({'late': 1})
            for u, s in others:
                s.set_tag('a', 1)
                rig.finish(u, s)
            first.finish()
            ran.append(1)
        sc = sched.Scheduler(rng)
        sc.run([loop, app])
        p = sc.raise_problems()
        if p:
            ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
        for t in sc.threads:
            if t.exc is not None:
                raise t.exc
        rig.tap.on_send = None
        rig.world.run_for(2)
        rig.top.close()
        rig.world.run_for(2)
        balance(ctx, rig)
        ctx.event(len(ran))
        ctx.count('switches', sc.switches)
        ctx.key(tuple(sc.schedule))
        ctx.sample({'switches': sc.switches})


def resolver(ctx):
    """The agent is known by its name, and looking it up may take long: neither a span call nor the event loop waits for that."""
    rng = ctx.rng
    real = socket.getaddrinfo
    me, phase, looked = threading.get_ident(), ['build'], []
    host = 'agent-%d.example' % rng.randrange(1000)

    def lookup(name):
        if phase[0] != 'build' and threading.get_ident() == me:
            looked.append((phase[0], name))

    def stub(name, port, family=0, type=0, proto=0, flags=0):
        if name not in (host, host.encode()):
            return real(name, port, family, type, proto, flags)
        if flags & socket.AI_NUMERICHOST:
            raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
        lookup(name)
        return [(socket.AF_INET, type or socket.SOCK_DGRAM, 17, '', ('192.0.2.9', int(port or 0)))]

    def on_send(now, data, dest, exc):
        try:
            ipaddress.ip_address(dest[0].split('%')[0])
        except ValueError:
            # the socket looks the name up before it sends
            lookup(dest[0])
    n = 0
    socket.getaddrinfo = stub
    try:
        with World() as w, Tap() as tp:
            tp.on_send = on_send
            sender = J.LocalAgentSender(host, 5778, 6831, io_loop=w.io_loop)
            rep = J.Reporter(channel=sender, batch_size=rng.choice([1, 3]), flush_interval=0.1)
            tr = J.Tracer('svc', rep, J.ConstSampler(True))
            phase[0] = 'loop'
            w.run_for(0.1)
            for _ in range(rng.randint(1, 8)):
                phase[0] = 'app'
                s = tr.start_span('a')
                annotate(rng, s)
                c = {}
                tr.inject(s, 'text_map', c)
                tr.extract('text_map', c)
                s.finish()
                tr.start_span('b').finish()
                n += 8
                phase[0] = 'loop'
                w.run_for(rng.choice([0, 0.05, 0.2]))
            phase[0] = 'app'
            tr.close()
            phase[0] = 'loop'
            w.run_for(1.0)
            sent = len(tp.sent)
    finally:
        socket.getaddrinfo = real
    app = [x for x in looked if x[0] == 'app']
    ctx.check(not app, 'lookup-on-caller', 'a span call looked up %r' % (app[:1],))
    ctx.check(sent, 'not-delivered', 'nothing was sent to an agent known by its name')
    ctx.check(len(looked) <= sent, 'lookups', 'the event loop looked up the host name of the agent %d times for %d datagrams' % (len(looked), sent))
    if looked:
        ctx.fail('lookup-per-datagram', 'the event loop looked up the host name of the agent %d times for %d datagrams' % (len(looked), sent))
    ctx.event(n)
    ctx.count('datagrams', sent)
    ctx.key(rng.random())


SCENARIOS = [
    Scenario('faults', faults, 900, 14000, need=('events', 'send_failures', 'hostile_agent', 'calls_while_queue_full')),
    Scenario('bounded', bounded, 700, 10000, need=('events', 'dropped')),
    Scenario('stalled_send', stalled_send, 24, 160, limit=90, real=True),
    Scenario('stalled_request', stalled_request, 24, 160, limit=90, real=True),
    Scenario('resolver', resolver, 40, 400, need=('events', 'datagrams')),
    Scenario('lockset', lockset, 200, 3000, need=('events', 'switches')),
]
