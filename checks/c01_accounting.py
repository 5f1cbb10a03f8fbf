"""C01: every span handed to the remote reporter is sent, counted failed or counted dropped, exactly one."""
from jv.runner import Scenario
from jv import core, sched
from jv.world import J, Tap, rec_factory
from jv.repwork import Rig, balance, random_fault, sent_uids

ID = 'C01'
RULE = ('random programs of span bursts, event-loop turns, virtual-time steps, send faults and close over random '
        'queue/batch/flush settings; a case is non-trivial if at least one span was reported, its key is the '
        '(settings, books, program) tuple')


def _program(ctx, rig):
    """Drive a random program on the rig; returns a compact description."""
    rng = ctx.rng
    prog = []
    closed = False
    futs = []
    for _ in range(rng.randint(1, 14)):
        a = rng.random()
        if a < 0.5:
            k = rng.choice([1, 1, 2, 3, rig.batch, rig.batch + 1, rig.cap, rig.cap + 1, 2 * rig.cap + 3])
            k = min(k, 130)
            how = rng.random()
            if how < 0.7:
                for _ in range(k):
                    rig.emit()
                prog.append('burst %d' % k)
            else:
                rig.world.in_loop(lambda: [rig.emit() for _ in range(k)])
                prog.append('loop-burst %d' % k)
        elif a < 0.75:
            n = rng.choice([1, 1, 2, 3, 7])
            rig.world.turn(n)
            prog.append('turn %d' % n)
        elif a < 0.93:
            dt = rng.choice([0.01, 0.1, 0.5, 1.0, 1.01, 6.0])
            rig.world.run_for(dt)
            prog.append('time %g' % dt)
        elif not closed or rng.random() < 0.3:
            closed = True
            futs.append(rig.top.close() if rng.random() < 0.5 else rig.world.in_loop(rig.top.close))
            prog.append('close')
    return prog, futs


def virtual(ctx):
    with Rig(ctx, fault=random_fault(ctx.rng), composite=ctx.rng.random() < 0.15) as rig:
        prog, futs = _program(ctx, rig)
        ctx.notes['program'] = prog
        f = rig.top.close()
        rig.world.settle()
        rig.world.run_for(30)
        books = balance(ctx, rig)
        # spans reported after the close must be dropped and counted
        n0 = len(rig.tap.attempts)
        late = ctx.rng.randint(0, 3)
        for _ in range(late):
            rig.emit()
        rig.world.run_for(30)
        ctx.check(len(rig.tap.attempts) == n0, 'sent-after-close', 'a datagram was sent after the close')
        books2 = balance(ctx, rig)
        ctx.check(books2[2] - books[2] == late, 'late-not-dropped', 'spans reported after close are not counted as dropped')
        ctx.count('closes', 1 + len(futs))
        if rig.reported:
            ctx.key(rig.cap, rig.batch, rig.flush, books, tuple(prog))
            ctx.sample({'program': prog, 'cap': rig.cap, 'batch': rig.batch, 'flush': rig.flush, 'ok/err/dropped': books})
        del f


def unencodable(ctx):
    """Some spans cannot be encoded (or not be sent): the books still balance."""
    rng = ctx.rng
    bad = [lambda s: s.set_tag('k', 1 << rng.choice([63, 64, 70, 200])), lambda s: s.set_tag('k', '\ud800 lone'),
           lambda s: s.set_tag('big', 'x' * 1024), lambda s: s.set_operation_name(12345),
           lambda s: s.set_operation_name(None), lambda s: s.set_operation_name('x' * 70000),
           lambda s: setattr(s, 'start_time', None), lambda s: s.log_kv({'e': 1 << 80})]
    with Rig(ctx, fault=random_fault(rng, rng.choice([0, 0, 0.3])), flush_interval=rng.choice([None, 0.5])) as rig:
        nbad = 0
        for _ in range(rng.randint(1, 25)):
            if rng.random() < 0.25:
                uid, s = rig.span()
                try:
                    rng.choice(bad)(s)
                    nbad += 1
                except Exception:
                    pass
                rig.finish(uid, s)
            else:
                rig.emit()
            if rng.random() < 0.3:
                rig.world.turn(rng.randint(1, 3))
        rig.top.close()
        rig.world.settle()
        rig.world.run_for(30)
        b = balance(ctx, rig, encodable=False)
        ctx.count('bad_spans', nbad)
        ctx.key(rig.cap, rig.batch, b, nbad)
        ctx.sample({'cap': rig.cap, 'batch': rig.batch, 'bad': nbad, 'ok/err/dropped': b})


def race(ctx):
    """Reporting threads, the event-loop thread and a closing thread under the controlled scheduler."""
    rng = ctx.rng
    with Rig(ctx, queue_capacity=rng.choice([1, 2, 4, 10]), batch_size=rng.choice([1, 1, 2]),
             flush_interval=rng.choice([None, 0.5]), fault=random_fault(rng, rng.choice([0, 0, 0.4]))) as rig:
        rig.world.turn(2)
        spans = [[rig.span() for _ in range(rng.randint(1, 4))] for _ in range(rng.choice([1, 2, 2, 3]))]
        close_at = rng.choice(['never', 'thread', 'thread', 'loop'])

        def app(mine):
            def f():
                for uid, s in mine:
                    rig.finish(uid, s)
            return f

        def loop():
            import asyncio
            asyncio.set_event_loop(rig.world.aloop)
            try:
                for i in range(rng.randint(3, 12)):
                    if close_at == 'loop' and i == 2:
                        rig.world.aloop.call_soon(rig.reporter.close)
                    rig.world.turn(1)
            finally:
                asyncio.set_event_loop(None)

        def closer():
            rig.reporter.close()
        fns = [app(m) for m in spans] + [loop] + ([closer] if close_at == 'thread' else [])
        sc = sched.Scheduler(rng)
        sc.run(fns)
        p = sc.raise_problems()
        if p:
            ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
        for t in sc.threads:
            if t.exc is not None:
                ctx.fail('unexpected-exception', 'thread %d raised %r' % (t.idx, t.exc), schedule=sc.schedule[:400])
        rig.reporter.close()
        rig.world.settle()
        rig.world.run_for(30)
        ctx.notes['schedule'] = sc.schedule[:400]
        b = balance(ctx, rig)
        ctx.count('switches', sc.switches)
        ctx.count('sched_points', sc.steps)
        ctx.key(tuple(sc.schedule), b)
        ctx.sample({'threads': len(fns), 'switches': sc.switches, 'close': close_at, 'ok/err/dropped': b})


def real_threads(ctx):
    """The background-thread loop of a non-Tornado application, uncontrolled threads, real clock."""
    import sys
    import threading
    rng = ctx.rng
    mf = rec_factory()
    fault = random_fault(rng, rng.choice([0, 0.2]))
    lock = core._real_allocate()

    def ff(d, dest):
        with lock:
            return fault(d, dest)
    with Tap(fault=ff) as tp:
        sender = J.LocalAgentSender('127.0.0.1', 5778, 6831)
        cap = rng.choice([5, 50, 1000])
        rep = J.Reporter(channel=sender, queue_capacity=cap, batch_size=min(cap, rng.choice([1, 7, 10])),
                         flush_interval=rng.choice([0.01, 0.2]), metrics_factory=mf)
        tracer = J.Tracer('svc', rep, J.ConstSampler(True), metrics_factory=mf)
        nt, per = rng.randint(2, 6), rng.randint(20, 150)
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        closing = rng.random() < 0.5
        try:
            def app(k):
                for i in range(per):
                    s = tracer.start_span('op')
                    s.set_tag('uid', k * 10000 + i)
                    s.finish()
            ths = [threading.Thread(target=app, args=(k,)) for k in range(nt)]
            for t in ths:
                t.start()
            if closing:
                core.real_sleep(rng.random() * 0.01)
                tracer.close()
            for t in ths:
                t.join()
        finally:
            sys.setswitchinterval(old)

        def barrier():
            ev = threading.Event()
            sender.io_loop.add_callback(ev.set)
            if not ev.wait(30):
                from jv.runner import Inconclusive
                raise Inconclusive('background loop did not run a callback for 30 s')
        barrier()
        # all reports have now reached the loop thread; drain
        f = rep.close()
        end = core.real_monotonic() + 30
        while not (f.done() and sum(mf.spans()) == nt * per) and core.real_monotonic() < end:
            core.real_sleep(0.002)
        barrier()
        rig = type('R', (), {})()
        rig.mf, rig.tap = mf, tp
        rig.reported = [k * 10000 + i for k in range(nt) for i in range(per)]
        b = balance(ctx, rig)
        order = {}
        for _, us, _b in sent_uids(ctx, tp):
            for u in us:
                order.setdefault(u // 10000, []).append(u)
        ctx.check(all(o == sorted(o) for o in order.values()), 'order', 'spans of one thread left out of order')
        if sender.io_loop is not None:
            sender.io_loop.add_callback(sender.io_loop.stop)
        ctx.key(nt, per, b, cap)
        ctx.sample({'threads': nt, 'spans_each': per, 'close_midway': closing, 'ok/err/dropped': b})


SCENARIOS = [
    Scenario('virtual', virtual, 1200, 16000, need=('events', 'sent', 'failed', 'dropped', 'closes')),
    Scenario('unencodable', unencodable, 500, 6000, need=('events', 'bad_spans', 'sent', 'failed')),
    Scenario('race', race, 500, 8000, need=('events', 'switches', 'sent')),
    Scenario('real_threads', real_threads, 24, 200, need=('events', 'sent'), real=True),
]
