"""C16: never more debug traces than credits granted; refreshing survives anything the agent answers."""
import json
import random
from fractions import Fraction

from jv import gen, sched
from jv.runner import Scenario
from jv.world import J, RecReporter, World, virtual_sender, rec_factory

ID = 'C16'
RULE = ('random debug requests over several operations against scripted credit answers (valid, partly invalid, unreadable, failed, late, never) '
        'in virtual time, judged by exact credit books; requests raced with answers under the controlled scheduler and judged by interval books; '
        'the same through the tracer with debug ids and priorities; distinct by answers and decisions')
ASSUMPTIONS = ['credits granted by one answer are not negative', 'no request is needed while no operation has been seen', 'an operation starts with no credit']
OPS = ['a', 'b', 'A', ' a', 'op with space', 'é/%&=', '']


def good(rng, ops):
    bal = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        bal.append({'operation': rng.choice(ops), 'balance': rng.choice([0, 0.25, 0.5, 0.75, 1, 1.0, 1.5, 2, 3, 10])})
    d = {'balances': bal}
    if rng.random() < 0.2:
        d['extra'] = None
    return d


BADB = ['1', None, [], {}, float('nan'), float('inf'), float('-inf'), 10 ** 400]


def bad(rng, ops):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice([{}, {'balances': None}, {'balances': 7}, {'balance': []}, {'balances': True}])
    lst = good(rng, ops)['balances'] + [{'operation': rng.choice(ops), 'balance': 5}]
    e = [{'operation': rng.choice(ops), 'balance': rng.choice(BADB)}, {'operation': rng.choice(ops)}, {'balance': 1}, 7, None, 'x', {'operation': [], 'balance': 1},
         {'operation': {}, 'balance': 1}]
    lst.insert(rng.randint(0, len(lst)), e[0] if k < 4 else rng.choice(e))
    return {'balances': lst}


UNREADABLE = [b'', b'{', b'\xff', b'null', b'[]', b'7', b'"balances"', b'<html>', b'{"balances": [', '', b'[' * 50000, b'%s']


def answer(rng, ops):
    k = rng.random()
    if k < 0.5:
        g = good(rng, ops)
        return 'valid', rng.choice([lambda s: s, lambda s: s.encode()])(json.dumps(g, ensure_ascii=rng.random() < 0.5)), g
    if k < 0.68:
        return 'invalid', json.dumps(bad(rng, ops)).encode(), None
    if k < 0.8:
        return 'unreadable', rng.choice(UNREADABLE), None
    if k < 0.95:
        return 'failed', rng.choice([OSError(111, 'refused'), TimeoutError(), ValueError('%s %d'), Exception(), KeyError('x')]), None
    return 'never', None, None


class Books(object):
    def __init__(self, ctx, world, interval, throttler_kw=None, delays=True):
        self.ctx, self.world, self.rng = ctx, world, ctx.rng
        self.iv = interval
        self.credit = {}
        self.seen = set()
        self.first_seen = None
        self.refused = self.allowed = 0
        self.ok = self.err = 0
        self.arrivals = []
        self.log = []
        self.delays = delays
        self.requests = []
        self.reported = []
        self.sender = virtual_sender(world, self.respond)
        self.mf = rec_factory()
        self.m0 = world.clock.mono
        self.t = J.RemoteThrottler(self.sender, 'svc', refresh_interval=interval, metrics_factory=self.mf)
        ctx.notes.update(interval=interval, answers=self.log)

    def now(self):
        return self.world.clock.mono - self.m0

    def respond(self, kind, a, k):
        rng = self.rng
        self.requests.append((self.now(), kind, a, k))
        ops = a[2] if len(a) > 2 else k.get('operations')
        # (judged later: the code under test would swallow what is raised here)
        self.reported.append((list(ops), set(self.seen)))
        cls, body, g = answer(rng, OPS)
        self.ctx.count('answer_' + cls)
        raises = cls == 'failed' and rng.random() < 0.4
        delay = rng.choice([None, 0, 0.01, 0.4 * self.iv, 1.6 * self.iv]) if self.delays else None
        self.log.append((round(self.now(), 3), cls, repr(body)[:300], 'raised' if raises else delay))
        if raises:
            self.arrivals.append((self.now(), len(self.log), cls, g))
            raise body
        if cls != 'never':
            self.arrivals.append((self.now() + (delay or 0), len(self.log), cls, g))
        return delay, body

    def arrive(self):
        now = self.now() + 5e-6
        due = sorted((a for a in self.arrivals if a[0] <= now), key=lambda a: a[:2])
        self.arrivals = [a for a in self.arrivals if a[0] > now]
        for _, _, cls, g in due:
            if cls == 'valid':
                self.ok += 1
                for b in g['balances']:
                    self.credit[b['operation']] = self.credit.get(b['operation'], 0) + Fraction(b['balance'])
            else:
                self.err += 1

    def judge(self, op, got):
        ctx = self.ctx
        if not self.seen:
            self.first_seen = self.now()
        self.seen.add(op)
        c = self.credit.setdefault(op, Fraction(0))
        w = dict(answers=self.log[-10:], operation=op, credit=str(c))
        if got:
            ctx.check(c >= 1, 'over-credit', 'a debug trace of %r was allowed with %s credits left' % (op, c), **w)
            self.credit[op] = c - 1
            self.allowed += 1
        else:
            ctx.check(c < 1, 'refused-with-credit', 'a debug trace of %r was refused with %s credits left' % (op, c), **w)
            self.refused += 1
        ctx.event()

    def counters(self):
        ctx = self.ctx
        self.arrive()
        for ops, seen in self.reported:
            ctx.check(set(ops) >= seen, 'unreported-operation', 'operations %r reported, %r seen' % (ops, sorted(seen)))
            ctx.check(set(ops) <= seen | set(OPS), 'foreign-operation', 'operations %r reported, %r seen' % (ops, sorted(seen)))
            ctx.check(len(ops) == len(set(ops)), 'foreign-operation', 'an operation is reported twice: %r' % (ops,))
        self.reported = []
        w = dict(answers=self.log[-10:])
        r = self.mf.get('jaeger:throttled_debug_spans')
        ctx.check(r == self.refused, 'refusal-count', '%d refusals, counted %d' % (self.refused, r), **w)
        ok, err = self.mf.get('jaeger:throttler_update', result='ok'), self.mf.get('jaeger:throttler_update', result='err')
        ctx.check((ok, err) == (self.ok, self.err), 'update-count', '%d good and %d bad answers, counted %d and %d' % (self.ok, self.err, ok, err), **w)

    def polls(self):
        ctx, iv = self.ctx, self.iv
        if self.first_seen is None and not self.credit:
            return
        ts = [q[0] for q in self.requests]
        now = self.now()
        w = dict(answers=self.log[-10:], first_seen=self.first_seen, requests=ts[-10:])
        if now - self.first_seen > iv * 1.011:
            ctx.check(bool(ts) and ts[0] - self.first_seen <= iv * 1.011, 'no-refresh', 'operations seen at %.3f s, interval %s, now %.3f s, requests at %r' %
                      (self.first_seen, iv, now, ts[:2]), **w)
        for a, b in zip(ts, ts[1:]):
            ctx.check(abs(b - a - iv) <= 0.011 * iv, 'refresh-interval', 'requests at %.3f s and %.3f s, interval %s' % (a, b, iv), **w)
        if ts:
            ctx.check(now - ts[-1] <= iv * 1.011, 'refresh-stopped', 'last request at %.3f s, now %.3f s, interval %s' % (ts[-1], now, iv), **w)


def flow(ctx):
    rng = ctx.rng
    with World() as world:
        iv = rng.choice([0.5, 5, 60])
        b = Books(ctx, world, iv, delays=rng.random() < 0.5)
        b.t.set_client_id(4711)
        hist = []
        for _ in range(rng.randint(15, 50)):
            world.run_for(iv * rng.choice([0.1, 0.3, 0.5, 1, 1.3]))
            b.counters()
            b.polls()
            for _ in range(rng.choice([0, 1, 2, 5])):
                op = rng.choice(OPS)
                got = b.t.is_allowed(op)
                hist.append((op, bool(got)))
                b.judge(op, got)
            b.counters()
        for _, kind, a, k in b.requests:
            ctx.check(kind == 'credits' and a[0] == 'svc' and a[1] == 4711, 'client-identity', 'request %r %r' % (kind, a))
        ctx.count('allowed', b.allowed)
        ctx.count('refused', b.refused)
        ctx.count('requests', len(b.requests))
        ctx.check(not world.errors, 'callback-error', 'the event loop reported %r' % (world.errors[:1],))
        ctx.key(tuple((c, x) for _, c, x, _ in b.log), tuple(hist[:40]))
        ctx.sample({'interval': iv, 'requests': len(b.requests), 'allowed': b.allowed, 'refused': b.refused, 'answers': [c for _, c, _, _ in b.log[:12]]})


def traced(ctx):
    """Debug ids and priorities through the tracer: each takes one credit of its operation, and spans and requests name the same client."""
    rng = ctx.rng
    with World() as world:
        iv = rng.choice([1, 5])
        b = Books(ctx, world, iv, delays=False)
        rep = RecReporter()
        utags = {'client-uuid': 'mine'} if rng.random() < 0.2 else None
        tr = J.Tracer('svc', rep, J.ConstSampler(rng.random() < 0.5), throttler=b.t, tags=utags)
        for _ in range(rng.randint(8, 25)):
            world.run_for(iv * rng.choice([0.3, 1, 1]))
            b.counters()
            for _ in range(rng.choice([1, 1, 3])):
                op = rng.choice(OPS)
                if rng.random() < 0.5:
                    ctxt = tr.extract(J.Format.TEXT_MAP, {'jaeger-debug-id': 'x%d' % rng.randrange(9)})
                    sp = tr.start_span(op or None, child_of=ctxt)
                    b.judge(op, sp.is_debug())
                    ctx.count('debug_ids')
                else:
                    sp = tr.start_span(op, ignore_active_span=True)
                    ctx.check(not sp.is_debug(), 'debug-unasked', 'a span is debug without having asked')
                    sp.set_tag('sampling.priority', rng.choice([1, 2, 7]))
                    b.judge(op, sp.is_debug())
                    ctx.count('priorities')
                    if sp.is_debug():
                        # asking again is free
                        sp.set_tag('sampling.priority', 1)
                sp.finish()
            b.counters()
        ident = [p[1].get('client-uuid') for p in rep.process]
        ctx.check(len(ident) == 1 and ident[0] is not None, 'client-identity', 'process tags %r' % (rep.process,))
        for _, kind, a, k in b.requests:
            ctx.check(a[0] == 'svc' and a[1] == ident[0], 'client-identity', 'credits requested for client %r, spans carry %r' % (a[1], ident[0]))
        ctx.count('requests', len(b.requests))
        ctx.key(tuple((c, x) for _, c, x, _ in b.log), b.allowed, b.refused)
        ctx.sample({'requests': len(b.requests), 'allowed': b.allowed, 'refused': b.refused})


def race(ctx):
    """Threads ask while answers arrive."""
    rng = ctx.rng
    with World() as world:
        ops = ['a'] if rng.random() < 0.6 else ['a', 'b']
        grants = []
        seq = [0]

        def respond(kind, a, k):
            g = {'balances': [{'operation': o, 'balance': rng2.choice([0.5, 1, 1, 2, 3])} for o in ops]}
            seq[0] += 1
            grants.append([seq[0], None, g])
            return None, json.dumps(g).encode()
        rng2 = random.Random(rng.getrandbits(32))
        sender = virtual_sender(world, respond)
        mf = rec_factory()
        t = J.RemoteThrottler(sender, 'svc', refresh_interval=1, metrics_factory=mf)
        for o in ops:
            t.is_allowed(o)
        refused0 = len(ops)
        world.run_for(1.5)
        pre = rng.choice([0, 1])
        for g in grants:
            g[1] = seq[0]
        hist = []

        def update():
            world.run_for(1)
            for g in grants:
                if g[1] is None:
                    seq[0] += 1
                    g[1] = seq[0]

        def asker():
            for _ in range(4):
                o = rng2.choice(ops)
                seq[0] += 1
                s = seq[0]
                got = t.is_allowed(o)
                seq[0] += 1
                hist.append((s, seq[0], o, bool(got)))
        sc = sched.Scheduler(rng)
        sc.run([asker] * rng.choice([2, 3]) + ([update] if rng.random() < 0.6 else []))
        p = sc.raise_problems()
        if p:
            ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
        for th in sc.threads:
            if th.exc is not None:
                raise th.exc
        w = dict(schedule=sc.schedule[:400], history=hist, grants=grants)
        for o in ops:
            total = sum((Fraction(b['balance']) for g in grants for b in g[2]['balances'] if b['operation'] == o), Fraction(0))
            mine = sorted(h for h in hist if h[2] == o)
            allowed = [h for h in mine if h[3]]
            for h in allowed:
                given = sum((Fraction(b['balance']) for g in grants if g[0] <= h[1] for b in g[2]['balances'] if b['operation'] == o), Fraction(0))
                n = sum(1 for x in allowed if x[1] <= h[1])
                ctx.check(n <= given, 'over-credit', '%d debug traces of %r allowed with %s credits granted' % (n, o, given), **w)
            for h in mine:
                if not h[3]:
                    given = sum((Fraction(b['balance']) for g in grants if g[1] is not None and g[1] <= h[0] for b in g[2]['balances'] if b['operation'] == o), Fraction(0))
                    used = sum(1 for x in allowed if x[0] <= h[1])
                    ctx.check(given - used < 1, 'refused-with-credit', 'refused although at least %s credits were left' % (given - used), **w)
            # drain: nothing was lost, nothing invented
            left = 0
            while t.is_allowed(o):
                left += 1
                if left > 100:
                    break
            refused0 += 1
            ctx.check(len(allowed) + left == total // 1, 'over-credit' if len(allowed) + left > total // 1 else 'credit-lost',
                      '%s credits of %r granted, %d + %d debug traces allowed' % (total, o, len(allowed), left), **w)
        refused = refused0 + sum(1 for h in hist if not h[3])
        got = mf.get('jaeger:throttled_debug_spans')
        ctx.check(got == refused, 'refusal-count', '%d refusals, counted %d' % (refused, got), **w)
        del pre
        ctx.event(len(hist))
        ctx.count('switches', sc.switches)
        ctx.count('allowed', sum(1 for h in hist if h[3]))
        ctx.count('refused', sum(1 for h in hist if not h[3]))
        ctx.key(tuple(sc.schedule), len(ops))
        ctx.sample({'threads': len(sc.threads), 'operations': ops, 'allowed': sum(1 for h in hist if h[3]), 'switches': sc.switches})


def new_ops_race(ctx):
    """Operations first seen while a request is being put together are reported now or at the next refresh."""
    rng = ctx.rng
    with World() as world:
        sender = virtual_sender(world, lambda kind, a, k: (None, b'{"balances": []}'))
        mf = rec_factory()
        t = J.RemoteThrottler(sender, 'svc', refresh_interval=1, metrics_factory=mf)
        t.is_allowed('first')
        world.run_for(1.2)
        names = [gen.word(rng) + str(i) for i in range(4)]
        sc = sched.Scheduler(rng)

        def asker(part):
            def f():
                for x in part:
                    t.is_allowed(x)
            return f
        sc.run([asker(names[:2]), asker(names[2:]), lambda: world.run_for(1)])
        p = sc.raise_problems()
        if p:
            ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
        for th in sc.threads:
            if th.exc is not None:
                raise th.exc
        ctx.check(not world.errors, 'callback-error', 'the event loop reported %r' % (world.errors[:1],), schedule=sc.schedule[:400])
        n = len(sender.requests)
        world.run_for(1.05)
        ctx.check(len(sender.requests) > n, 'refresh-stopped', 'no refresh after a race', schedule=sc.schedule[:400])
        last = sender.requests[-1][2]
        ctx.check(set(last[2]) == set(names) | {'first'}, 'unreported-operation', 'reported %r, seen %r' % (last[2], names), schedule=sc.schedule[:400])
        ok, err = mf.get('jaeger:throttler_update', result='ok'), mf.get('jaeger:throttler_update', result='err')
        ctx.check((ok, err) == (len(sender.requests), 0), 'update-count', '%d answers, counted %d ok %d err' % (len(sender.requests), ok, err))
        ctx.event(4)
        ctx.count('switches', sc.switches)
        ctx.key(tuple(sc.schedule), tuple(names))
        ctx.sample({'requests': len(sender.requests), 'switches': sc.switches})


SCENARIOS = [
    Scenario('flow', flow, 500, 15000, need=('events', 'allowed', 'refused', 'requests', 'answer_valid', 'answer_invalid', 'answer_unreadable', 'answer_failed')),
    Scenario('traced', traced, 300, 10000, need=('events', 'debug_ids', 'priorities', 'requests')),
    Scenario('race', race, 400, 15000, need=('events', 'switches', 'allowed', 'refused')),
    Scenario('new_ops_race', new_ops_race, 120, 4000, need=('events', 'switches')),
]
