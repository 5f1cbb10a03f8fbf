"""C07: close flushes everything finished before it, completes, and stops polling."""
import asyncio

import threading

from jv import core, sched
from jv.runner import Scenario, Inconclusive
from jv.world import J, Tap, World, rec_factory, virtual_sender
from jv.repwork import Rig, balance, random_fault

ID = 'C07'
RULE = ('closes from the main thread, inside the loop, and from threads without an event loop, once and repeatedly, with full '
        'queues, faults, pending requests and running pollers; monitors: the future completes, the books at completion cover '
        'every span finished before, nothing leaves afterwards, no request in the following 1000 s; distinct by program')
ASSUMPTIONS = ['the event loop the reporter was given keeps running until the close has completed']


def _done_books(fut, rig):
    """Record the books at the moment the future completes."""
    box = {}

    def cb(_f):
        box.setdefault('books', rig.mf.spans())
    if fut.done():
        cb(fut)
    else:
        fut.add_done_callback(cb)
    return box


def _steps(rig, boxes, n):
    """Run n turns of the loop; another thread could look at the futures between any two of them."""
    for _ in range(n):
        rig.world.turn(1)
        for f, box in boxes:
            if f.done():
                box.setdefault('books', rig.mf.spans())


def _no_loop_close(fn):
    """Call fn on a thread of its own that has no event loop."""
    box = []

    def run():
        try:
            box.append((True, fn()))
        except BaseException as e:
            box.append((False, e))
    t = threading.Thread(target=run)
    t.start()
    t.join(30)
    if not box:
        raise Inconclusive('close did not return on its thread')
    if not box[0][0]:
        raise box[0][1]
    return box[0][1]


def one(ctx):
    """Single and repeated closes on the virtual loop."""
    rng = ctx.rng
    with Rig(ctx, fault=random_fault(rng, rng.choice([0, 0, 0.3, 1.0])), composite=rng.random() < 0.25) as rig:
        prog = []
        for _ in range(rng.randint(0, 8)):
            k = rng.choice([1, 1, 2, rig.batch, rig.cap, rig.cap + 3])
            for _ in range(min(k, 120)):
                rig.emit()
            how = rng.choice(['none', 'turn', 'run'])
            if how == 'turn':
                rig.world.turn(rng.randint(1, 3))
            elif how == 'run':
                rig.world.run_for(rng.choice([0.01, 0.5, 2]))
            prog.append((k, how))
        target = rig.tracer if rng.random() < 0.7 else rig.top
        boxes = []
        via = []
        n_before = []
        for c in range(rng.choice([1, 1, 2, 2, 3, 5])):
            n_before.append(len(rig.reported))
            how = rng.choice(['main', 'loop', 'thread', 'thread'])
            via.append(how)
            if how == 'main':
                f = target.close()
            elif how == 'loop':
                f = rig.world.in_loop(target.close)
            else:
                f = _no_loop_close(target.close)
            ctx.check(callable(getattr(f, 'done', None)) and callable(getattr(f, 'result', None)), 'no-future',
                      'close returned %r' % (f,))
            boxes.append((f, _done_books(f, rig)))
            if rng.random() < 0.4:
                _steps(rig, boxes, rng.randint(1, 4))
            if rng.random() < 0.3:
                _steps(rig, boxes, 10)
                rig.world.run_for(1)
            if rng.random() < 0.4:
                for _ in range(rng.randint(1, 4)):
                    rig.emit()
        ctx.notes.update(program=prog, closes=via, target=type(target).__name__)
        _steps(rig, boxes, 20)
        rig.world.settle()
        rig.world.run_for(5)
        for (f, box), n in zip(boxes, n_before):
            ctx.check(f.done(), 'close-incomplete', 'a close called %s has not completed 5 s later' % via)
            f.result()
            ctx.check(sum(box['books']) >= n, 'incomplete-flush',
                      'close completed with %d of the %d spans finished before it accounted for' % (sum(box['books']), n), books=box['books'])
        balance(ctx, rig)
        # after the close nothing leaves, later spans are counted as dropped
        ok, err, dropped = rig.mf.spans()
        na = len(rig.tap.attempts)
        late = rng.randint(1, 4)
        for _ in range(late):
            rig.emit()
        rig.world.run_for(20)
        ctx.check(len(rig.tap.attempts) == na, 'sent-after-close', 'a datagram left after the close had completed')
        ctx.check(rig.mf.spans() == (ok, err, dropped + late), 'late-not-dropped', 'spans reported after the close: %s -> %s' % ((ok, err, dropped), rig.mf.spans()))
        balance(ctx, rig)
        ctx.count('closes', len(via))
        ctx.count('thread_closes', via.count('thread'))
        ctx.key(rig.cap, rig.batch, tuple(prog), tuple(via), rig.mf.spans())
        ctx.sample({'program': prog, 'closes': via, 'ok/err/dropped': rig.mf.spans()})


def race(ctx):
    """Several closes and reports interleave with the loop, under the controlled scheduler."""
    rng = ctx.rng
    with Rig(ctx, queue_capacity=rng.choice([1, 2, 4, 10]), batch_size=rng.choice([1, 1, 2]),
             flush_interval=rng.choice([None, 0.5]), fault=random_fault(rng, rng.choice([0, 0.4])), composite=rng.random() < 0.4) as rig:
        rig.world.turn(2)
        for _ in range(rng.randint(0, 3)):
            rig.emit()
        before = len(rig.reported)
        during = [rig.span() for _ in range(rng.randint(0, 3))]
        boxes = []

        def loop():
            asyncio.set_event_loop(rig.world.aloop)
            try:
                for i in range(rng.choice([3, 6, 10, 14])):
                    rig.world.turn(1)
            finally:
                asyncio.set_event_loop(None)

        def closer():
            f = rig.tracer.close()
            boxes.append(f)

        def app():
            for u, s in during:
                rig.finish(u, s)
        fns = [closer] * rng.choice([1, 2, 2, 3]) + [loop] + ([app] if during else [])
        asyncio.set_event_loop(None)
        sc = sched.Scheduler(rng)
        sc.run(fns)
        asyncio.set_event_loop(rig.world.aloop)
        p = sc.raise_problems()
        if p:
            ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
        for t in sc.threads:
            if t.exc is not None:
                raise t.exc
        rig.world.settle()
        rig.world.run_for(5)
        for f in boxes:
            ctx.check(f.done(), 'close-incomplete', 'a concurrent close has not completed', schedule=sc.schedule[:400])
            f.result()
        rig.top.close()
        rig.world.run_for(5)
        ctx.check(sum(rig.mf.spans()) >= before, 'incomplete-flush', 'spans finished before the close not accounted for')
        balance(ctx, rig)
        na = len(rig.tap.attempts)
        rig.emit()
        rig.world.run_for(5)
        ctx.check(len(rig.tap.attempts) == na, 'sent-after-close', 'a datagram left after the close')
        ctx.event(len(boxes))
        ctx.count('switches', sc.switches)
        ctx.key(tuple(sc.schedule), rig.mf.spans())
        ctx.sample({'closers': fns.count(closer), 'switches': sc.switches, 'ok/err/dropped': rig.mf.spans()})


GOOD = [b'{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 0.5}}',
        b'{"strategyType": "RATE_LIMITING", "rateLimitingSampling": {"maxTracesPerSecond": 3}}',
        b'{"operationSampling": {"defaultSamplingProbability": 0.1, "defaultLowerBoundTracesPerSecond": 1, "perOperationStrategies": []}}',
        b'{"balances": [{"operation": "op", "balance": 2}]}', b'{', OSError('refused'), None]


def polling(ctx):
    """A closed tracer asks the agent for nothing any more, at whatever moment it is closed."""
    rng = ctx.rng
    world = World()
    try:
        interval = rng.choice([0.5, 1, 7, 60])
        answers = {'n': 0}

        def responder(kind, a, k):
            answers['n'] += 1
            if rng.random() < 0.1:
                raise RuntimeError('request could not be issued')
            return (rng.choice([None, 0.01, interval * 0.7, interval * 3]), rng.choice(GOOD))
        sender = virtual_sender(world, responder)
        with Tap() as tp:
            mf = rec_factory()
            rep = J.Reporter(channel=sender, flush_interval=1, metrics_factory=mf)
            kind = rng.choice(['remote', 'remote', 'composite', 'null', 'memory', 'logging', 'null+memory'])
            rep = {'remote': lambda: rep, 'composite': lambda: J.CompositeReporter(rep, J.NullReporter()), 'null': J.NullReporter,
                   'memory': J.InMemoryReporter, 'logging': J.LoggingReporter,
                   'null+memory': lambda: J.CompositeReporter(J.NullReporter(), J.InMemoryReporter())}[kind]()
            smp = J.RemoteControlledSampler(sender, 'svc', sampling_refresh_interval=interval, metrics_factory=mf,
                                            init_sampler=J.ConstSampler(True))
            thr = J.RemoteThrottler(sender, 'svc', refresh_interval=rng.choice([interval, 0.3]), metrics_factory=mf) \
                if rng.random() < 0.7 else None
            tr = J.Tracer('svc', rep, smp, throttler=thr, metrics_factory=mf)
            tr.start_span('op').set_tag('sampling.priority', 1)
            when = rng.choice(['now', 'queued', 'delay', 'first', 'later', 'random'])
            if when == 'queued':
                world.turn(1)
            elif when == 'delay':
                world.turn(2)
                world.run_for(interval * 0.05)
            elif when == 'first':
                k = 0
                while not sender.requests and k < 400:
                    world.run_for(interval / 50.0)
                    k += 1
            elif when == 'later':
                world.run_for(interval * rng.choice([2, 5.5, 9]))
            elif when == 'random':
                world.run_for(interval * 4 * rng.random())
            before = len(sender.requests)
            how = rng.choice(['main', 'loop', 'thread'])
            if how == 'main':
                f = tr.close()
            elif how == 'loop':
                f = world.in_loop(tr.close)
            else:
                f = _no_loop_close(tr.close)
            n = len(sender.requests)
            world.run_for(1000)
            ctx.check(f.done(), 'close-incomplete', 'close has not completed after 1000 s')
            new = [(round(t - 1.5e9, 3), k) for t, k, _, _ in sender.requests[n:]]
            ctx.check(not new, 'polls-after-close', 'requests after close: %s' % new[:5], closed=when, how=how, interval=interval,
                      throttler=thr is not None)
            if rng.random() < 0.3:
                tr.close()
                world.run_for(100)
                ctx.check(len(sender.requests) == n, 'polls-after-close', 'requests after a second close')
        ctx.event()
        ctx.count('requests_before', before)
        ctx.key(when, how, interval, before, thr is not None, kind)
        ctx.sample({'closed': when, 'from': how, 'interval': interval, 'reporter': kind, 'requests_before_close': before})
        del tp
    finally:
        world.close()


def poll_race(ctx):
    """close() on one thread while the loop thread is starting the pollers: afterwards no poll happens."""
    rng = ctx.rng
    world = World()
    try:
        which = rng.choice(['sampler', 'throttler'])
        sender = virtual_sender(world, lambda kind, a, k: (None, b'{"strategyType": "PROBABILISTIC", "balances": []}'))
        interval = 1.0
        if which == 'sampler':
            obj = J.RemoteControlledSampler(sender, 'svc', sampling_refresh_interval=interval)
        else:
            obj = J.RemoteThrottler(sender, 'svc', refresh_interval=interval)
            obj.is_allowed('op')
        stage = rng.choice([0, 0, 1, 1, 1])
        if stage:
            world.turn(3)

        def loop():
            asyncio.set_event_loop(world.aloop)
            try:
                if stage:
                    world.run_for(rng.choice([1.0, 1.0, 2.0]))
                else:
                    world.turn(3)
            finally:
                asyncio.set_event_loop(None)
        asyncio.set_event_loop(None)
        sc = sched.Scheduler(rng)
        sc.run([loop, obj.close])
        asyncio.set_event_loop(world.aloop)
        p = sc.raise_problems()
        if p:
            ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
        for t in sc.threads:
            if t.exc is not None:
                raise t.exc
        n = len(sender.requests)
        world.run_for(100)
        ctx.check(len(sender.requests) == n, 'polls-after-close', '%d requests after %s.close() had returned' % (len(sender.requests) - n, which),
                  schedule=sc.schedule[:400])
        ctx.event()
        ctx.count('switches', sc.switches)
        ctx.key(which, stage, tuple(sc.schedule))
        ctx.sample({'poller': which, 'requests_before': n, 'switches': sc.switches})
    finally:
        world.close()


def real_threads(ctx):
    """The background-thread loop: closes from plain threads complete, with everything accounted for."""
    rng = ctx.rng
    mf = rec_factory()
    with Tap() as tp:
        sender = J.LocalAgentSender('127.0.0.1', 5778, 6831)
        rep = J.Reporter(channel=sender, queue_capacity=1000, batch_size=10, flush_interval=rng.choice([None, 1000]), metrics_factory=mf)
        top = J.CompositeReporter(rep, J.InMemoryReporter()) if rng.random() < 0.4 else rep
        tr = J.Tracer('svc', top, J.ConstSampler(True), metrics_factory=mf)
        n = rng.randint(0, 60)
        for _ in range(n):
            tr.start_span('x').finish()
        futs = []
        errs = []

        def closer():
            try:
                futs.append(tr.close())
            except BaseException as e:
                errs.append(e)
        ths = [threading.Thread(target=closer) for _ in range(rng.choice([1, 2, 4]))]
        if rng.random() < 0.5:
            closer()
        for t in ths:
            t.start()
        for t in ths:
            t.join(30)
        if errs:
            raise errs[0]
        end = core.real_monotonic() + 20
        while not all(f.done() for f in futs) and core.real_monotonic() < end:
            core.real_sleep(0.002)
        if not all(f.done() for f in futs):
            ev = threading.Event()
            sender.io_loop.add_callback(ev.set)
            if not ev.wait(10):
                raise Inconclusive('background loop starved')
            ctx.fail('close-incomplete', 'a close has not completed after 20 s')
        for f in futs:
            f.result()
        ctx.check(sum(mf.spans()) == n, 'incomplete-flush', '%s of %d spans accounted for at completion' % (mf.spans(), n))
        ctx.event(len(futs))
        ctx.key(n, len(futs), type(top).__name__)
        ctx.sample({'spans': n, 'closes': len(futs), 'ok/err/dropped': mf.spans()})
        sender.io_loop.add_callback(sender.io_loop.stop)
        del tp


SCENARIOS = [
    Scenario('one', one, 700, 12000, need=('events', 'closes', 'thread_closes')),
    Scenario('race', race, 250, 5000, need=('events', 'switches')),
    Scenario('polling', polling, 350, 6000, need=('events', 'requests_before')),
    Scenario('poll_race', poll_race, 250, 5000, need=('events', 'switches')),
    Scenario('real_threads', real_threads, 24, 160, real=True),
]
