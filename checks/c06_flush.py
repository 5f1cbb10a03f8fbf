"""C06: finished spans leave within the flush interval, at once when they complete a batch, also after faults."""

from jv import core, wire
from jv.runner import Scenario, Inconclusive
from jv.world import J, Tap, rec_factory
from jv.repwork import Rig, balance, random_fault, uids

ID = 'C06'
RULE = ('arrival patterns (trickles below the flush interval, bursts, idle gaps, bursts of every size around the batch size) in '
        'virtual time over random settings and fault phases; the monitor compares, per span, the time it was handed to '
        'the reporter with the time of the datagram holding it; distinct by settings and arrival times')
ASSUMPTIONS = ['virtual time: the event loop itself takes no time, so the bound is the flush interval plus rounding']
EPS = 1e-3


def attempt_times(ctx, rig):
    """uid -> virtual (elapsed) time of the datagram (accepted or refused) that holds it."""
    out = {}
    for now, (_, _, _, _, data) in zip(rig.tap.elapsed, rig.tap.attempts):
        try:
            b = wire.decode(data)
        except wire.WireError as e:
            ctx.fail('undecodable-datagram', 'a datagram does not decode: %s' % e)
            continue
        for u in uids(b):
            out.setdefault(u, now)
    return out


def pattern(rng, rig):
    """[(delay before, burst size)]"""
    f = rig.flush or 1.0
    kind = rng.choice(['trickle', 'bursts', 'mixed', 'edge', 'idle'])
    out = []
    n = rng.randint(3, 25)
    for _ in range(n):
        if kind == 'trickle':
            out.append((f * rng.choice([0.2, 0.4, 0.5, 0.9, 0.95]), 1))
        elif kind == 'bursts':
            out.append((rng.choice([0, f * 0.5, f * 2]), rng.randint(1, max(1, rig.cap))))
        elif kind == 'edge':
            out.append((rng.choice([f, f * 0.999, f * 1.001, 0]), rng.choice([1, rig.batch, max(1, rig.batch - 1)])))
        elif kind == 'idle':
            out.append((f * rng.choice([3, 10, 100.5]), rng.choice([1, 1, 2])))
        else:
            out.append((rng.random() * f * 2, rng.choice([1, 1, 2, rig.batch, rig.batch + 1])))
    return kind, out


def latency(ctx):
    """No span waits longer than one flush interval; a completed batch leaves without time passing."""
    rng = ctx.rng
    faulty = rng.random() < 0.5
    with Rig(ctx, fault=random_fault(rng, rng.choice([0.1, 0.5, 1.0]) if faulty else 0)) as rig:
        kind, pat = pattern(rng, rig)
        pat = [(d, min(k, rig.cap, 25)) for d, k in pat]
        drops = 0
        jumps = rng.random() < 0.25     # the wall clock is set to another time now and then
        for d, k in pat:
            if d:
                rig.world.run_for(d)
            if jumps and rng.random() < 0.4:
                rig.world.clock.wall += rng.choice([-1, 1]) * rng.choice([0.01, 1, 3600, 1e7])
                ctx.count('clock_steps')
            rig.world.settle()
            if rng.random() < 0.5:
                rig.world.in_loop(lambda: [rig.emit() for _ in range(k)])
            else:
                for _ in range(k):
                    rig.emit()
            rig.world.settle()
            o = rig.outstanding()
            ctx.check(o < rig.batch, 'batch-waits',
                      '%d spans still waiting with nothing left to do for the loop, batch size %d' % (o, rig.batch))
        if rig.flush:
            rig.world.run_for(rig.flush + 0.01)
            ctx.check(rig.outstanding() == 0, 'never-sent', '%d spans not sent one flush interval after the last one' % rig.outstanding())
        times = attempt_times(ctx, rig)
        _, _, drops = rig.mf.spans()
        ctx.check(len(times) + drops == len(rig.reported) or not rig.flush, 'never-sent', 'spans missing from the wire')
        worst = 0.0
        for u, t in times.items():
            lat = t - rig.t_report[u]
            worst = max(worst, lat)
            if rig.flush:
                ctx.check(lat <= rig.flush + EPS, 'late', 'span %d left %.4f s after it was reported, flush interval %s' % (u, lat, rig.flush),
                          pattern=pat, kind=kind)
        ctx.event(len(times))
        ctx.count('failed_sends', sum(1 for a in rig.tap.attempts if a[3] is not None))
        ctx.count('flush_timer', sum(1 for u in times if times[u] > rig.t_report[u]))
        rig.top.close()
        rig.world.run_for(2)
        balance(ctx, rig)
        ctx.key(rig.cap, rig.batch, rig.flush, kind, tuple(pat))
        ctx.sample({'kind': kind, 'flush': rig.flush, 'batch': rig.batch, 'spans': len(times), 'worst_latency': round(worst, 4)})


def after_faults(ctx):
    """However many and whatever failures came before, the spans that follow are sent on time."""
    rng = ctx.rng
    state = {'bad': True}
    inner = random_fault(rng, 1.0)
    with Rig(ctx, flush_interval=rng.choice([0.1, 1.0, 3.0]),
             fault=lambda d, dest: inner(d, dest) if state['bad'] else None) as rig:
        phases = []
        for _ in range(rng.randint(1, 4)):
            state['bad'] = True
            n = rng.choice([1, 2, 5, 30, 30, 30, 120])
            for _ in range(n):
                if rng.random() < 0.15:
                    # a batch that cannot even be encoded
                    u, s = rig.span()
                    s.start_time = None
                    rig.finish(u, s)
                else:
                    rig.emit()
                rig.world.run_for(rng.choice([0.01, rig.flush, rig.flush * 1.5]))
            rig.world.run_for(rig.flush + 0.01)
            if rng.random() < 0.1:
                rig.world.clock.wall += rng.choice([-1, 1]) * rng.choice([0.01, 1, 3600, 1e7])
            state['bad'] = False
            good = []
            for _ in range(rng.randint(1, 2 * rig.batch)):
                good.append(rig.emit())
                if rng.random() < 0.5:
                    rig.world.run_for(rig.flush * rng.random())
                else:
                    rig.world.settle()
            rig.world.run_for(rig.flush + 0.01)
            ok_times = {}
            for now, (_, data, _, _) in zip(rig.tap.sent_elapsed, rig.tap.sent):
                for u in uids(wire.decode(data)):
                    ok_times.setdefault(u, now)
            for u in good:
                ctx.check(u in ok_times, 'stopped-after-fault', 'span reported after %d faulty steps was never sent' % n, phases=phases)
                ctx.check(ok_times[u] - rig.t_report[u] <= rig.flush + EPS, 'late',
                          'span left %.4f s after it was reported, flush interval %s' % (ok_times[u] - rig.t_report[u], rig.flush))
            phases.append((n, len(good)))
            ctx.event(len(good))
        ctx.count('failed_sends', sum(1 for a in rig.tap.attempts if a[3] is not None))
        rig.top.close()
        rig.world.run_for(2)
        balance(ctx, rig, encodable=False)
        ctx.key(rig.cap, rig.batch, rig.flush, tuple(phases))
        ctx.sample({'phases(failing, good)': phases, 'flush': rig.flush})


def no_interval(ctx):
    """Without a flush interval only full batches leave before the close, and the close sends the rest."""
    rng = ctx.rng
    with Rig(ctx, flush_interval=rng.choice([None, 0, 0.0])) as rig:
        for _ in range(rng.randint(1, 12)):
            for _ in range(rng.randint(1, min(rig.cap, 30))):
                rig.emit()
            rig.world.settle()
            o = rig.outstanding()
            ctx.check(o < rig.batch, 'batch-waits', '%d spans waiting, batch size %d' % (o, rig.batch))
            n0 = len(rig.tap.attempts)
            rig.world.run_for(rng.choice([1, 100]))
            ctx.check(len(rig.tap.attempts) == n0, 'unexpected-flush', 'a partial batch was sent without a flush interval')
        rig.top.close()
        rig.world.settle()
        balance(ctx, rig)
        ctx.key(rig.cap, rig.batch, len(rig.reported))
        ctx.sample({'batch': rig.batch, 'spans': len(rig.reported)})


def real_loop(ctx):
    """The background-thread loop with the real clock: a lone span leaves by itself, before and after faults."""
    rng = ctx.rng
    mf = rec_factory()
    state = {'bad': rng.random() < 0.5}
    inner = random_fault(rng, 1.0)
    with Tap(fault=lambda d, dest: inner(d, dest) if state['bad'] else None) as tp:
        sender = J.LocalAgentSender('127.0.0.1', 5778, 6831)
        rep = J.Reporter(channel=sender, queue_capacity=50, batch_size=10, flush_interval=0.05, metrics_factory=mf)
        tr = J.Tracer('svc', rep, J.ConstSampler(True), metrics_factory=mf)
        n = 0

        def wait(total):
            end = core.real_monotonic() + 20
            while sum(mf.spans()) < total and core.real_monotonic() < end:
                core.real_sleep(0.005)
            return sum(mf.spans()) >= total
        for phase in range(2):
            for _ in range(rng.randint(1, 13)):
                tr.start_span('x').finish()
                n += 1
            if not wait(n):
                alive = asyncio_alive(sender)
                if not alive:
                    raise Inconclusive('background loop starved')
                ctx.fail('never-sent', 'spans not sent within 20 s although the flush interval is 0.05 s', counters=mf.spans())
            state['bad'] = False
        ctx.event(n)
        ctx.key(n, mf.spans())
        ctx.sample({'spans': n, 'ok/err/dropped': mf.spans(), 'datagrams': len(tp.attempts)})
        sender.io_loop.add_callback(sender.io_loop.stop)


def asyncio_alive(sender):
    import threading
    ev = threading.Event()
    sender.io_loop.add_callback(ev.set)
    return ev.wait(10)


SCENARIOS = [
    Scenario('latency', latency, 450, 16000, need=('events', 'failed_sends', 'flush_timer')),
    Scenario('after_faults', after_faults, 100, 4000, need=('events', 'failed_sends')),
    Scenario('no_interval', no_interval, 100, 2000, need=()),
    Scenario('real_loop', real_loop, 16, 120, real=True),
]
