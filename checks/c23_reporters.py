"""C23: composite, in-memory, logging and null reporters deliver to all and lose nothing."""
import asyncio
import concurrent.futures
import logging
import threading

from jv import core, gen, sched, wire
from jv.runner import Inconclusive, Scenario
from jv.world import J, Tap, World

ID = 'C23'
RULE = ('random compositions (nested, empty, mixed with the real reporters) of recording stand-ins under random histories of spans, process descriptions and closes; '
        'close futures completed in every order, on one loop, on several loops in threads and from several threads at once under the controlled scheduler, the '
        'composite future inspected after every step; the in-memory reporter raced with readers under the controlled scheduler; distinct by composition and history')
ASSUMPTIONS = ['stand-in reporters do not raise', 'a close that failed or was cancelled counts as completed', 'event loops run until the close is complete']


class Rec(object):
    """Leaf reporter: writes every call to a shared journal."""

    def __init__(self, journal, uid, make):
        self.journal, self.uid, self.make = journal, uid, make
        self.future = None

    def report_span(self, span):
        self.journal.append((self.uid, 'span', span))

    def set_process(self, service_name, tags, max_length):
        self.journal.append((self.uid, 'process', (service_name, dict(tags) if tags is not None else None, max_length)))

    def close(self):
        self.journal.append((self.uid, 'close', None))
        self.future = self.make()
        return self.future


def compose(rng, journal, make, depth=0, leaves=None):
    """A random composition; returns (reporter, leaves in delivery order)."""
    if leaves is None:
        leaves = []
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 8]) if depth else rng.choice([1, 2, 2, 3, 4, 10, 0])
    kids = []
    for _ in range(n):
        if depth < 3 and rng.random() < 0.25:
            kids.append(compose(rng, journal, make, depth + 1, leaves)[0])
        else:
            r = Rec(journal, len(leaves), make)
            leaves.append(r)
            kids.append(r)
    return J.CompositeReporter(*kids), leaves


def history(ctx):
    """Every call reaches every leaf exactly once, in order; the close completes when and only when all closes have."""
    rng = ctx.rng
    with World() as w:
        journal = []
        kinds = []

        def make():
            k = rng.choice(['pending', 'pending', 'done', 'failed'])
            kinds.append(k)
            f = asyncio.Future(loop=w.aloop)
            if k == 'done':
                f.set_result(rng.choice([True, None, 7]))
            elif k == 'failed':
                f.set_exception(OSError('close failed'))
                f.exception()
            return f
        comp, leaves = compose(rng, journal, make)
        calls = []
        spans = []
        via_tracer = rng.random() < 0.4
        in_loop = rng.random() < 0.5

        def call(f):
            return w.in_loop(f) if in_loop else f()
        if via_tracer:
            svc = gen.word(rng)
            tags = {gen.word(rng): rng.randint(0, 5) for _ in range(rng.randint(0, 3))}
            ml = rng.choice([10, 1024, 4096])
            tr = J.Tracer(svc, comp, J.ConstSampler(True), tags=tags, max_tag_value_length=ml)
            first = [e for e in journal]
            ctx.check([u for u, k, _ in first] == [l.uid for l in leaves] and all(k == 'process' for _, k, _ in first), 'process-delivery',
                      'the process description was delivered as %s' % [(u, k) for u, k, _ in first], leaves=len(leaves))
            for _, _, (s, t, m) in first:
                ctx.check(s == svc and m == ml and t is not None and all(t.get(k) == v for k, v in tags.items()), 'process-content', 'process description %r' % ((s, t, m),))
            del journal[:]
        for _ in range(rng.randint(0, 12)):
            if via_tracer or rng.random() < 0.8:
                if via_tracer:
                    sp = tr.start_span(gen.word(rng))
                    call(sp.finish)
                else:
                    sp = object()
                    call(lambda: comp.report_span(sp))
                spans.append(sp)
                calls.append(('span', sp))
            else:
                p = (gen.text(rng), {'k': len(calls)}, rng.randint(0, 99))
                call(lambda: comp.set_process(*p))
                calls.append(('process', p))
            ctx.event()
        want = [(l.uid, k, v) for k, v in calls for l in leaves]
        ctx.check(journal == want, 'delivery', 'calls received differ from calls made', received=[(u, k) for u, k, _ in journal][:60], made=[k for k, _ in calls], leaves=len(leaves))
        del journal[:]
        fut = call(tr.close if via_tracer and rng.random() < 0.3 else comp.close)
        ctx.check([(u, k) for u, k, _ in journal] == [(l.uid, 'close') for l in leaves], 'close-delivery', 'close received by %s of %d leaves' % ([u for u, _, _ in journal], len(leaves)))
        pending = [l for l in leaves if not l.future.done()]
        rng.shuffle(pending)
        while pending:
            w.run_for(rng.choice([0, 0.1, 5]))
            w.settle()
            ctx.check(not fut.done(), 'early-close', 'close of the composite completed with %d of %d closes outstanding' % (len(pending), len(leaves)), kinds=kinds)
            for _ in range(rng.choice([1, 1, 2, len(pending)])):
                if pending:
                    f = pending.pop().future
                    how = rng.choice(['result', 'result', 'error', 'cancel'])
                    if how == 'result':
                        call(lambda: f.set_result(True))
                    elif how == 'error':
                        call(lambda: f.set_exception(OSError('x')))
                        f.exception()
                    else:
                        call(f.cancel)
                    ctx.event()
                    ctx.count('completions')
            if not pending:
                break
        w.settle()
        ctx.check(fut.done(), 'close-incomplete', 'all %d closes completed, that of the composite did not' % len(leaves), kinds=kinds)
        ctx.check(fut.exception() is None, 'close-failed', 'close raised %r' % fut.exception())
        ctx.check(not w.errors, 'loop-error', 'error in the event loop: %r' % (w.errors[:1],))
        ctx.check(len(journal) == len(leaves), 'close-delivery', 'more calls after the close: %s' % journal[len(leaves):])
        ctx.count('leaves', len(leaves))
        ctx.key(len(leaves), [k for k, _ in calls], kinds)
        ctx.sample({'leaves': len(leaves), 'calls': len(calls), 'close kinds': kinds})


def threads_close(ctx):
    """Closes whose futures belong to loops in several threads, completed there in random order."""
    rng = ctx.rng
    n_loops = rng.randint(1, 3)
    loops, ths = [], []
    for _ in range(n_loops):
        lp = asyncio.new_event_loop()
        t = threading.Thread(target=lp.run_forever, daemon=True)
        t.start()
        loops.append(lp)
        ths.append(t)
    try:
        journal = []
        comp, leaves = compose(rng, journal, lambda: rng.choice(loops).create_future())
        fut = comp.close()
        order = leaves[:]
        rng.shuffle(order)
        held = order[:rng.choice([0, 1, 1, 2])]
        bar = rng.random() < 0.5

        def complete(f):
            f.set_result(True)
        for l in order[len(held):]:
            lp = l.future.get_loop()
            lp.call_soon_threadsafe(complete, l.future)
            if bar and rng.random() < 0.3:
                core.real_sleep(0.0005)
        if held:
            core.real_sleep(0.003)
            ctx.check(not fut.done(), 'early-close', 'close of the composite completed with %d of %d closes outstanding' % (len(held), len(leaves)))
            for l in held:
                l.future.get_loop().call_soon_threadsafe(complete, l.future)
        end = core.real_monotonic() + 10
        while not fut.done() and core.real_monotonic() < end:
            core.real_sleep(0.0005)
        if not fut.done():
            for lp in loops:
                ev = threading.Event()
                lp.call_soon_threadsafe(ev.set)
                if not ev.wait(10):
                    raise Inconclusive('loop thread starved')
        ctx.check(fut.done() and all(l.future.done() for l in leaves), 'close-incomplete', 'all %d closes completed, that of the composite did not' % len(leaves), loops=n_loops)
        ctx.event(len(leaves))
        ctx.key(n_loops, [l.uid for l in order], len(held))
        ctx.sample({'loops': n_loops, 'leaves': len(leaves)})
    finally:
        for lp, t in zip(loops, ths):
            lp.call_soon_threadsafe(lp.stop)
        for lp, t in zip(loops, ths):
            t.join(5)
            if not t.is_alive():
                lp.close()


def race_close(ctx):
    """Closes completed by several threads at the same time (thread-safe futures) under the controlled scheduler."""
    rng = ctx.rng
    with World() as w:
        journal = []
        n = rng.choice([2, 3, 4])
        leaves = [Rec(journal, i, concurrent.futures.Future) for i in range(n)]
        kids = list(leaves)
        if rng.random() < 0.4:
            kids.append(J.NullReporter())
        comp = J.CompositeReporter(*kids)
        fut = comp.close()
        w.settle()
        ctx.check(not fut.done(), 'early-close', 'completed before any of the closes')
        sc = sched.Scheduler(rng)
        parts = [leaves[0::2], leaves[1::2]] if n > 3 or rng.random() < 0.3 else [[l] for l in leaves]

        def run(part):
            for l in part:
                l.future.set_result(True)
        sc.run([lambda p=p: run(p) for p in parts])
        p = sc.raise_problems()
        if p:
            ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
        for t in sc.threads:
            if t.exc is not None:
                raise t.exc
        w.settle()
        w.run_for(1)
        ctx.check(fut.done() and fut.exception() is None, 'close-incomplete', 'all %d closes completed, that of the composite did not' % n, schedule=sc.schedule[:300])
        ctx.event(n)
        ctx.count('switches', sc.switches)
        ctx.key(tuple(sc.schedule))
        ctx.sample({'closes': n, 'switches': sc.switches})


def foreign_close(ctx):
    """The composite is closed on one thread while the event loop of its reporters completes the closes on another."""
    rng = ctx.rng
    with World() as w:
        journal = []
        leaves = [Rec(journal, i, lambda: asyncio.Future(loop=w.aloop)) for i in range(rng.choice([1, 2, 2, 3]))]
        comp = J.CompositeReporter(*leaves)
        if rng.random() < 0.3:
            comp = J.CompositeReporter(comp, J.NullReporter())
        asyncio.set_event_loop(None)
        box = []

        def resolve(l):
            if not l.future.done():
                l.future.set_result(True)

        def loop():
            for _ in range(60):
                for l in leaves:
                    f = getattr(l, 'future', None)
                    if f is not None and not f.done() and rng.random() < 0.7:
                        w.aloop.call_soon(resolve, l)
                w.turn(1)
                sc.point()

        def closer():
            box.append(comp.close())
        sc = sched.Scheduler(rng)
        sc.horizon = 120
        sc.run([closer, loop])
        p = sc.raise_problems()
        if p:
            ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
        for t in sc.threads:
            if t.exc is not None:
                raise t.exc
        for l in leaves:
            resolve(l)
        asyncio.set_event_loop(w.aloop)
        w.settle()
        w.run_for(1)
        ctx.check(box[0].done() and box[0].exception() is None, 'close-incomplete', 'all %d closes completed, that of the composite did not' % len(leaves), schedule=sc.schedule[:300])
        ctx.event(len(leaves))
        ctx.count('switches', sc.switches)
        ctx.key(tuple(sc.schedule))
        ctx.sample({'closes': len(leaves), 'switches': sc.switches})


def memory_race(ctx):
    """Threads report into the in-memory reporter while others read snapshots."""
    rng = ctx.rng
    rep = J.InMemoryReporter()
    nw = rng.choice([1, 2, 2, 3])
    per = rng.choice([1, 2, 4])
    want = [[(t, i) for i in range(per)] for t in range(nw)]
    snaps = []

    def writer(t):
        for x in want[t]:
            rep.report_span(x)

    def reader():
        for _ in range(3):
            s = rep.get_spans()
            snaps.append((s, list(s)))
            if rng.random() < 0.5:
                s.append('mine')
                snaps[-1] = (s, list(s))
                snaps[-1][1].pop()
                snaps[-1] = (list(snaps[-1][1]), snaps[-1][1])
    sc = sched.Scheduler(rng)
    fns = [lambda t=t: writer(t) for t in range(nw)] + ([reader] if rng.random() < 0.8 or nw == 1 else [])
    sc.run(fns)
    p = sc.raise_problems()
    if p:
        ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
    for t in sc.threads:
        if t.exc is not None:
            raise t.exc
    got = rep.get_spans()
    ctx.check(sorted(got, key=repr) == sorted((x for p in want for x in p), key=repr), 'lost-span', 'reported %s, kept %s' % (want, got), schedule=sc.schedule[:300])
    for t in range(nw):
        ctx.check([x for x in got if x[0] == t] == want[t], 'misordered', 'spans of one thread out of order: %s' % got)
    for s, copy in snaps:
        ctx.check(copy == got[:len(copy)], 'snapshot', 'a snapshot %s is not a prefix of what was reported %s' % (copy, got))
        ctx.check(s == copy, 'snapshot-changed', 'a snapshot taken earlier changed from %s to %s' % (copy, s))
    ctx.event(nw * per)
    ctx.count('switches', sc.switches)
    ctx.count('snapshots', len(snaps))
    ctx.key(tuple(sc.schedule), nw, per)
    ctx.sample({'writers': nw, 'spans': nw * per, 'switches': sc.switches})


class Handler(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.records = []

    def emit(self, r):
        self.records.append((r.levelno, r.getMessage()))


def mixed(ctx):
    """Tracer over a composite of the real reporters: wire, memory and log agree on what was reported."""
    rng = ctx.rng
    h = Handler()
    given = rng.random() < 0.7
    lg = logging.Logger('jv') if given else logging.getLogger('jaeger_tracing')
    old = (lg.level, lg.propagate, list(lg.handlers))
    lg.handlers = [h]
    lg.setLevel(logging.INFO)
    lg.propagate = False
    try:
        with World() as w, Tap() as tp:
            sender = J.LocalAgentSender('127.0.0.1', 5778, 6831, io_loop=w.io_loop)
            mems = [J.InMemoryReporter() for _ in range(rng.randint(1, 3))]
            logr = [J.LoggingReporter(lg) if given else J.LoggingReporter() for _ in range(rng.choice([0, 1, 1, 2]))]
            real = J.Reporter(channel=sender, batch_size=rng.choice([1, 3, 10]), flush_interval=0.5, logger=logging.Logger('quiet'))
            kids = mems + logr + [real] + [J.NullReporter() for _ in range(rng.choice([0, 1]))]
            rng.shuffle(kids)
            while len(kids) > 2 and rng.random() < 0.4:
                k = rng.randint(1, 2)
                kids = kids[:-k] + [J.CompositeReporter(*kids[-k:])]
            comp = J.CompositeReporter(*kids) if len(kids) > 1 or rng.random() < 0.5 else kids[0]
            svc = gen.word(rng)
            tr = J.Tracer(svc, comp, J.ConstSampler(True))
            done = []
            snaps = []
            for _ in range(rng.randint(1, 15)):
                n0 = len(h.records)
                s = tr.start_span(gen.text(rng, 1, 8))
                if rng.random() < 0.2:
                    s.set_tag('sampling.priority', 0)
                    s.finish()
                    ctx.check(len(h.records) == n0 and all(len(m.get_spans()) == len(done) for m in mems), 'unsampled', 'an unsampled span was reported')
                else:
                    s.finish()
                    done.append(s)
                    ctx.check(len(h.records) - n0 == len(logr), 'log-lines', '%d log lines for one span and %d logging reporters' % (len(h.records) - n0, len(logr)))
                    for lv, msg in h.records[n0:]:
                        ctx.check(lv == logging.INFO and str(s) in msg, 'log-content', 'logged %r for %s' % (msg, s))
                for m in mems:
                    sn = m.get_spans()
                    ctx.check(sn == done, 'memory', 'in-memory reporter has %d spans, %d were reported' % (len(sn), len(done)))
                    snaps.append((sn, len(done)))
                    if rng.random() < 0.3:
                        del sn[:]
                        snaps.pop()
                if rng.random() < 0.4:
                    w.run_for(rng.choice([0, 0.1, 1]))
                ctx.event()
            for sn, k in snaps:
                ctx.check(sn == done[:k], 'snapshot-changed', 'a snapshot taken earlier changed')
            f = tr.close()
            w.run_for(5)
            w.settle()
            ctx.check(f.done() and f.exception() is None, 'close-incomplete', 'close did not complete')
            batches = [wire.decode(d) for _, d, _, _ in tp.sent]
            ctx.check(all(b['process']['serviceName'] == svc for b in batches), 'process-delivery', 'service name on the wire differs')
            n = [sp['spanId'] & (2 ** 64 - 1) for b in batches for sp in b['spans']]
            ctx.check(n == [s.span_id for s in done], 'wire', 'spans on the wire %d, reported %d' % (len(n), len(done)))
            for m in mems:
                ctx.check(m.get_spans() == done, 'memory', 'spans lost at close')
            ctx.key(svc, len(done), len(kids))
            ctx.count('log_lines', len(h.records))
            ctx.sample({'reporters': len(kids), 'spans': len(done)})
    finally:
        lg.setLevel(old[0])
        lg.propagate = old[1]
        lg.handlers = old[2]


def simple(ctx):
    """Null, in-memory and logging reporters by themselves: close completes, everything callable from threads without a loop."""
    rng = ctx.rng
    res = []
    reps = [J.NullReporter(), J.InMemoryReporter(), J.LoggingReporter(logging.Logger('quiet')), J.CompositeReporter(), J.CompositeReporter(J.NullReporter(), J.InMemoryReporter()),
            J.CompositeReporter(J.CompositeReporter(), J.NullReporter())]
    rep = rng.choice(reps)

    def body():
        try:
            tr = J.Tracer(gen.word(rng), rep, J.ConstSampler(True)) if rng.random() < 0.7 else None
            k = rng.randint(0, 5)
            for _ in range(k):
                if tr:
                    tr.start_span('x').finish()
                else:
                    rep.report_span('x')
            f = tr.close() if tr else rep.close()
            res.append((k, f))
        except BaseException as e:
            res.append(e)
    where = rng.choice(['main', 'thread', 'loop'])
    if where == 'thread':
        t = threading.Thread(target=body)
        t.start()
        t.join(20)
    else:
        with World() as w:
            w.in_loop(body) if where == 'loop' else body()
            w.settle()
    if not res:
        raise Inconclusive('thread starved')
    if isinstance(res[0], BaseException):
        raise res[0]
    k, f = res[0]
    ctx.check(f.done() and f.exception() is None, 'close-incomplete', 'close of %s did not complete (%s)' % (type(rep).__name__, where))
    if isinstance(rep, J.InMemoryReporter):
        ctx.check(len(rep.get_spans()) == k, 'memory', '%d spans of %d' % (len(rep.get_spans()), k))
    ctx.event()
    ctx.key(type(rep).__name__, where, k, id(rep) & 0)
    ctx.sample({'reporter': type(rep).__name__, 'where': where})


SCENARIOS = [
    Scenario('history', history, 900, 30000, need=('events', 'leaves', 'completions')),
    Scenario('threads_close', threads_close, 60, 1500, real=True),
    Scenario('race_close', race_close, 250, 10000, need=('events', 'switches')),
    Scenario('foreign_close', foreign_close, 300, 12000, need=('events', 'switches')),
    Scenario('memory_race', memory_race, 400, 15000, need=('events', 'switches', 'snapshots')),
    Scenario('mixed', mixed, 300, 8000, need=('events', 'log_lines')),
    Scenario('simple', simple, 100, 2000, real=True),
]
