"""Reporter workloads shared by several checks: a tracer over the real LocalAgentSender and Reporter in
virtual time (or on a real background loop), with every span carrying a unique id tag."""
import random as _r

from . import core, gen, wire
from .world import J, World, Tap, rec_factory, virtual_sender
from .tap import fault_exceptions


class Rig(object):
    """Tracer + Reporter on a virtual loop."""

    def __init__(self, ctx, queue_capacity=None, batch_size=None, flush_interval='rand', perm=None, fault=None,
                 throttled=False, composite=False, plain=False, **tracer_kw):
        rng = ctx.rng
        self.ctx = ctx
        self.plain = plain       # spans have exactly the content the check gives them
        self.world = World(wall=rng.choice([1.5e9, 1.7e9 + rng.random(), 1.0e9 + rng.random()]),
                           mono=rng.choice([10.0, 5000.0, 1e6 + rng.random()]), perm=perm)
        self.cap = queue_capacity if queue_capacity is not None else rng.choice([1, 2, 3, 5, 8, 10, 20, 50, 100])
        self.batch = batch_size if batch_size is not None else rng.choice(
            [1, 1, 2, 3, 5, 10, max(1, self.cap - 1), self.cap])
        self.batch = min(self.batch, self.cap)
        self.flush = rng.choice([None, 0, 0.05, 0.3, 1.0, 1.0, 5.0]) if flush_interval == 'rand' else flush_interval
        self.fault = fault
        self.tap = Tap(fault=self._fault)
        self.tap.__enter__()
        self.mf = rec_factory()
        self.sender = virtual_sender(self.world)
        self.reporter = J.Reporter(channel=self.sender, queue_capacity=self.cap, batch_size=self.batch,
                                   flush_interval=self.flush, metrics_factory=self.mf)
        self.top = self.reporter
        if composite:
            self.top = J.CompositeReporter(self.reporter, J.NullReporter())
        self.tracer = J.Tracer('svc', self.top, J.ConstSampler(True), metrics_factory=self.mf, **tracer_kw)
        self.reported = []       # uids in order of finish
        self.t_report = {}
        self.seq = 0
        ctx.notes.update(queue_capacity=self.cap, batch_size=self.batch, flush_interval=self.flush)

    def _fault(self, data, dest):
        return self.fault(data, dest) if self.fault is not None else None

    def span(self, tags=None, **kw):
        uid = self.seq
        self.seq += 1
        rng = self.ctx.rng
        if not kw and not self.plain and rng.random() < 0.4:
            kw = shape(rng)
        s = self.tracer.start_span('op%d' % uid, ignore_active_span=True, **kw)
        s.set_tag('uid', uid)
        for k, v in (tags or {}).items():
            s.set_tag(k, v)
        return uid, s

    def emit(self, tags=None):
        uid, s = self.span(tags)
        self.finish(uid, s)
        return uid

    def finish(self, uid, s):
        self.reported.append(uid)
        self.t_report[uid] = self.world.clock.mono
        rng = self.ctx.rng
        if self.plain or rng.random() < 0.8:
            s.finish()
            return
        # an end time of the application's own, and calls after the end that must change nothing
        if rng.random() < 0.5:
            s.finish(self.world.clock.wall + rng.choice([-5000, -1, 0, 1, 5000]))
        else:
            s.finish()
        k = rng.randrange(5)
        if k == 0:
            s.set_tag('sampling.priority', rng.choice([0, 1]))
        elif k == 1:
            s.set_tag('late', 'x')
            s.log_kv({'late': 1})
        elif k == 2:
            s.set_baggage_item('late', 'x')
        elif k == 3:
            s.finish()

    def outstanding(self):
        return len(self.reported) - sum(self.mf.spans())

    def close(self):
        self.tap.__exit__()
        self.world.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def shape(rng, sampled=True):
    """start_span arguments for a (sampled) span of some unusual kind."""
    kw = {}
    r = rng.random()
    if r < 0.5:
        kw['child_of'] = J.SpanContext(gen.trace_id(rng), gen.id64(rng), rng.choice([None, gen.id64(rng)]), gen.flags(rng, sampled=sampled),
                                       rng.choice([None, {'b': 'v'}]))
    elif r < 0.6:
        kw['child_of'] = J.SpanContext(None, None, None, None, rng.choice([None, {'b': 'v'}]), rng.choice([None, 'dbg']))
    if rng.random() < 0.4:
        kw['references'] = [J.Reference(rng.choice([J.ReferenceType.CHILD_OF, J.ReferenceType.FOLLOWS_FROM]),
                                        J.SpanContext(gen.trace_id(rng), gen.id64(rng), None, gen.flags(rng, sampled=sampled)) if rng.random() < 0.7
                                        else J.SpanContext(None, None, None, None, {'b': 'v'}, rng.choice([None, 'dbg'])))
                            for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.3:
        kw['tags'] = {rng.choice(['span.kind', 'sampling.priority', 'error']): 1, 'span.kind': rng.choice(['server', 'client', 'x'])}
    if rng.random() < 0.2:
        kw['start_time'] = rng.choice([1.0, 1e9, 2e9, 1.5e9 + rng.random()])
    return kw


def uid_of(span):
    for t in span.get('tags') or []:
        if t['key'] == 'uid':
            return t['vLong']
    return None


def uids(batch):
    return [uid_of(s) for s in batch['spans']]


def sent_uids(ctx, tap):
    """uids per accepted datagram; undecodable datagrams are violations."""
    out = []
    for t, data, dest, _ in tap.sent:
        try:
            b = wire.decode(data)
        except wire.WireError as e:
            ctx.fail('undecodable-datagram', 'an accepted datagram does not decode: %s' % e, datagram=data[:200].hex())
            continue
        out.append((t, uids(b), b))
    return out


def balance(ctx, rig, encodable=True, extra=''):
    """The books: every reported span sent once, or counted failed, or counted dropped."""
    ok, err, dropped = rig.mf.spans()
    n = len(rig.reported)
    sent = [u for _, us, _ in sent_uids(ctx, rig.tap) for u in us]
    ctx.event(n)
    ctx.count('datagrams', len(rig.tap.sent))
    ctx.count('sent', ok)
    ctx.count('failed', err)
    ctx.count('dropped', dropped)
    w = dict(ok=ok, err=err, dropped=dropped, reported=n, sent=len(sent), sent_uids=sent[:200])
    ctx.check(None not in sent, 'foreign-span', 'a datagram holds a span without the id tag it was given', **w)
    ctx.check(len(set(sent)) == len(sent), 'sent-twice', 'a span was sent more than once' + extra, **w)
    ctx.check(set(sent) <= set(rig.reported), 'foreign-span', 'a span was sent that was never reported', **w)
    ctx.check(ok == len(sent), 'ok-count', 'ok counter %d but %d spans accepted by the network' % (ok, len(sent)), **w)
    failed = []
    for _, _, dest, exc, data in rig.tap.attempts:
        if exc is not None:
            try:
                failed += uids(wire.decode(data))
            except wire.WireError as e:
                ctx.fail('undecodable-datagram', 'a datagram that failed to send does not decode: %s' % e)
    w['failed_uids'] = failed[:200]
    if encodable:
        ctx.check(err == len(failed), 'err-count', 'err counter %d but sends of %d spans failed' % (err, len(failed)), **w)
    else:
        ctx.check(err >= len(failed), 'err-count', 'err counter %d but sends of %d spans failed' % (err, len(failed)), **w)
    ctx.check(not (set(sent) & set(failed)), 'sent-and-failed', 'a span is both sent and failed', **w)
    ctx.check(ok + err + dropped == n, 'books',
              'ok %d + err %d + dropped %d != %d spans handed in' % (ok, err, dropped, n), **w)
    return ok, err, dropped


def random_fault(rng, rate=None):
    """A fault function with bursts; `rate` is the probability of being in a faulty phase."""
    kinds = fault_exceptions()
    rate = rng.choice([0, 0.1, 0.3, 0.7, 1.0]) if rate is None else rate
    state = {'left': 0}

    def f(data, dest):
        if state['left'] > 0:
            state['left'] -= 1
            return rng.choice(kinds)()
        if rng.random() < rate:
            state['left'] = rng.choice([0, 0, 1, 3])
            return rng.choice(kinds)()
        return None
    return f


def shuffler(rng, p=0.3):
    """Perturb the order of ready callbacks?  Not used: asyncio guarantees FIFO order of callbacks."""
    return None


__all__ = ['Rig', 'uid_of', 'uids', 'sent_uids', 'balance', 'random_fault', 'core', '_r']
