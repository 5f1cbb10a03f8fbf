"""C15: remote strategy updates apply whole or not at all, and polling survives errors."""
import json
from fractions import Fraction

from checks.c13_rate_limit import Bucket
from checks.c14_adaptive import Model, strategies, tid, RATES
from jv import sched
from jv.runner import Scenario
from jv.world import J, RecReporter, World, virtual_sender, rec_factory

ID = 'C15'
RULE = ('random sequences of agent answers (valid of each kind, invalid in one place, unreadable, failed, late, never) in virtual time, '
        'with traffic between polls judged by a model of the last valid strategy, and counters and request times after each poll; '
        'updates raced against decisions under the controlled scheduler; distinct by sequence of answers')
ASSUMPTIONS = ['a strategy equal to the one in force may or may not count as an update', 'JSON that is no object may count as unreadable or as an invalid strategy',
               'the bucket of a rate limiter that takes over from another kind starts with any share of its burst']
NAMES = ['op%d' % i for i in range(5)]
LIM = [0, 0.1, 0.5, 1, 2, 10, 499, 499.9]


class Fixed(object):
    def __init__(self, ctx, v):
        self.ctx, self.v = ctx, v

    def judge(self, op, t, got, tags, now):
        self.ctx.check(bool(got) == self.v, 'decision', 'sampled=%s under the constant sampler %s' % (got, self.v))


class Prob(object):
    def __init__(self, ctx, rate):
        self.ctx, self.rate = ctx, rate

    def judge(self, op, t, got, tags, now):
        want = (t & ((1 << 64) - 1)) < Fraction(self.rate) * (1 << 64)
        self.ctx.check(bool(got) == want, 'decision', 'sampled=%s for id %#x although the strategy in force is probability %r' % (got, t, self.rate))
        if got:
            self.ctx.check(tags == {'sampler.type': 'probabilistic', 'sampler.param': self.rate}, 'tags',
                           'tags %r although the strategy in force is probability %r' % (tags, self.rate))


class Rate(object):
    def __init__(self, ctx, rate, now):
        self.ctx, self.rate, self.b = ctx, rate, Bucket(ctx, rate, now)

    def judge(self, op, t, got, tags, now):
        self.b.answer(bool(got), 1.0, 0.0, now)
        if got:
            self.ctx.check(tags == {'sampler.type': 'ratelimiting', 'sampler.param': self.rate}, 'tags',
                           'tags %r although the strategy in force is %r per second' % (tags, self.rate))


def valid(rng):
    k = rng.random()
    # members that do not apply may be absent, null or (as some agents write them) present
    if k < 0.3:
        r = {'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': rng.choice(RATES)}}
        if rng.random() < 0.3:
            r['rateLimitingSampling'] = rng.choice([None, {'maxTracesPerSecond': rng.choice(LIM)}])
    elif k < 0.55:
        r = {'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': {'maxTracesPerSecond': rng.choice(LIM)}}
        if rng.random() < 0.3:
            r['probabilisticSampling'] = rng.choice([None, {'samplingRate': rng.choice(RATES)}])
    if k < 0.55:
        if rng.random() < 0.3:
            r['operationSampling'] = None
        items = list(r.items())
        rng.shuffle(items)
        return dict(items)
    ops = {}
    while not ops:
        ops = strategies(rng, NAMES)
    r = {'operationSampling': ops}
    if rng.random() < 0.6:
        r['strategyType'] = 'PROBABILISTIC'
        r['probabilisticSampling'] = {'samplingRate': rng.choice(RATES)}
    return r


BADP = [-1, -0.001, 1.0001, 2, 1e300, '0.5', 'x', None, [], {}, [0.5], float('nan'), float('inf'), 10 ** 400]
BADR = [-1, -0.001, 500, 500.5, 1e300, '1', None, [], {}, float('nan'), float('inf'), 10 ** 300]
BADL = [-1, -0.001, 'x', None, [], {}, float('nan')]


def invalid(rng):
    k = rng.randrange(9)
    if k == 0:
        return {'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': rng.choice(BADP)}}
    if k == 1:
        return {'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': {'maxTracesPerSecond': rng.choice(BADR)}}
    if k == 2:
        return {'strategyType': rng.choice(['', 'probabilistic', 'ADAPTIVE', None, 7, [], {}]), 'probabilisticSampling': {'samplingRate': 0.5}}
    if k == 3:
        return {'probabilisticSampling': {'samplingRate': 1.0}}
    if k == 4:
        return {'strategyType': 'PROBABILISTIC', 'probabilisticSampling': rng.choice([[1], 'x', 7, True])}
    if k == 5:
        return {'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': rng.choice([[1], 'x', 7, True])}
    if k == 6:
        return {'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': 0.5},
                'operationSampling': rng.choice([[1], 'x', 7, True, {'perOperationStrategies': 7}, {'perOperationStrategies': None}, {'perOperationStrategies': [1]}])}
    # one fault in an otherwise good per-operation response; the fault sits at any place
    ops = {'defaultSamplingProbability': rng.choice([0.5, 1.0, 0]), 'defaultLowerBoundTracesPerSecond': rng.choice([0, 1, 2]),
           'perOperationStrategies': [{'operation': n, 'probabilisticSampling': {'samplingRate': rng.choice(RATES)}} for n in rng.sample(NAMES, rng.randint(0, 4))]}
    lst = ops['perOperationStrategies']
    f = rng.randrange(4)
    if f == 0:
        ops['defaultSamplingProbability'] = rng.choice(BADP)
    elif f == 1:
        ops['defaultLowerBoundTracesPerSecond'] = rng.choice(BADL)
    elif f == 2 and lst:
        rng.choice(lst)['probabilisticSampling']['samplingRate'] = rng.choice(BADP)
    else:
        lst.insert(rng.randint(0, len(lst)), rng.choice([None, 7, 'x', {'operation': 'op0', 'probabilisticSampling': 7},
                                                          {'operation': [], 'probabilisticSampling': {'samplingRate': 1.0}}]))
    return {'operationSampling': ops}


UNREADABLE = [b'', b'\xff\xfe', b'{', b'not json', b'{"strategyType": "PROBABILISTIC"', b'<html>', b'\xef\xbb\xbf{}x', '', 'x', b'[' * 100000, b'%s %d', b'\x80{}']
NO_OBJECT = [b'null', b'[]', b'7', b'"x"', b'true', b'[{"strategyType": "PROBABILISTIC"}]']


def make_answer(rng, wide):
    """(class, body or exception, strategy)"""
    k = rng.random()
    if k < 0.4:
        s = valid(rng)
        s2 = dict(s)
        if rng.random() < 0.3:
            s2['unknownField'] = rng.choice([None, 1, {'x': []}])
        text = json.dumps(s2, ensure_ascii=rng.random() < 0.5)
        return 'valid', (text if rng.random() < 0.2 else text.encode('utf-8')), s
    if k < 0.7:
        return 'invalid', json.dumps(invalid(rng)).encode(), None
    if k < 0.8:
        return 'unreadable', rng.choice(UNREADABLE), None
    if k < 0.85:
        return 'no-object', rng.choice(NO_OBJECT), None
    if k < 0.97:
        return 'failed', rng.choice([OSError(111, 'refused'), TimeoutError(), ValueError('%s %d'), Exception(), KeyError('x'), UnicodeDecodeError('utf-8', b'x', 0, 1, 'y')]), None
    return 'never', None, None


QQ, UU = 'jaeger:sampler_queries', 'jaeger:sampler_updates'


class Flow(object):
    """The remote sampler over scripted answers with the model beside it."""

    def __init__(self, ctx, world, interval, maxops, delays=True, sync=True):
        self.ctx, self.world, self.rng = ctx, world, ctx.rng
        self.interval, self.maxops = interval, maxops
        self.log = []
        self.delays, self.sync = delays, sync
        self.lo_ok = self.hi_ok = self.err = self.q = self.qerr_lo = self.qerr_hi = 0
        self.arrivals = []
        self.sender = virtual_sender(world, self.respond)
        self.mf = rec_factory()
        self.init = self.rng.random() < 0.5
        self.model = Fixed(ctx, self.init)
        self.kind, self.cur = 'const', None
        self.m0 = world.clock.mono
        self.s = J.RemoteControlledSampler(self.sender, 'svc', init_sampler=J.ConstSampler(self.init), sampling_refresh_interval=interval,
                                           max_operations=maxops, metrics_factory=self.mf)
        ctx.notes.update(interval=interval, max_operations=maxops, answers=self.log)

    def respond(self, kind, a, k):
        rng = self.rng
        cls, body, strat = make_answer(rng, True)
        self.ctx.count('answer_' + cls.replace('-', '_'))
        raises = cls == 'failed' and self.sync and rng.random() < 0.4
        delay = None if not self.delays else rng.choice([None, 0, 0.001, 0.3 * self.interval, 0.9 * self.interval, 1.7 * self.interval])
        self.log.append((round(self.world.clock.mono - self.m0, 4), cls, repr(body)[:300], 'raised' if raises else delay))
        if raises:
            self.arrivals.append((self.world.clock.mono, len(self.arrivals), cls, strat))
            raise body
        if cls == 'never':
            return None, None
        self.arrivals.append((self.world.clock.mono + (delay or 0), len(self.arrivals), cls, strat))
        return delay, body

    def now(self):
        return self.world.clock.mono - self.m0

    def apply_due(self):
        """Account for the answers that have arrived."""
        due = sorted(a for a in self.arrivals if a[0] <= self.world.clock.mono + 5e-6)
        self.arrivals = [a for a in self.arrivals if a[0] > self.world.clock.mono + 5e-6]
        for at, _, cls, strat in due:
            self.q += 1
            at -= self.m0
            if cls in ('failed', 'unreadable'):
                self.qerr_lo += 1
                self.qerr_hi += 1
            elif cls == 'no-object':
                self.qerr_hi += 1
            elif cls == 'invalid':
                self.err += 1
            else:
                self.install(strat, at)

    def install(self, strat, at):
        ops = strat.get('operationSampling')
        if ops:
            self.hi_ok += 1
            if self.kind == 'ops' and isinstance(self.model, Model):
                self.lo_ok += ops != self.cur
                self.model.update(ops, at)
            else:
                self.lo_ok += 1
                self.model = Model(self.ctx, ops, self.maxops or 2000, at)
            self.kind, self.cur = 'ops', ops
        elif strat['strategyType'] == 'PROBABILISTIC':
            r = strat['probabilisticSampling']['samplingRate']
            self.hi_ok += 1
            self.lo_ok += not (self.kind == 'prob' and self.cur == r)
            self.model = Prob(self.ctx, r)
            self.kind, self.cur = 'prob', r
        else:
            r = strat['rateLimitingSampling']['maxTracesPerSecond']
            self.hi_ok += 1
            if self.kind == 'rate':
                self.lo_ok += self.cur != r
                if self.cur != r:
                    self.model.b.change(r, at)
                    self.model.rate = r
            else:
                self.lo_ok += 1
                self.model = Rate(self.ctx, r, at)
            self.kind, self.cur = 'rate', r

    def counters(self):
        self.apply_due()
        ok, err = self.mf.get(QQ, result='ok'), self.mf.get(QQ, result='err')
        uok, uerr = self.mf.get(UU, result='ok'), self.mf.get(UU, result='err')
        w = dict(answers=self.log[-12:])
        ctx = self.ctx
        ctx.check(ok + err == self.q, 'query-count', '%d polls ended, counted %d ok + %d err' % (self.q, ok, err), **w)
        ctx.check(self.qerr_lo <= err <= self.qerr_hi, 'query-count', '%d..%d polls failed, counted %d' % (self.qerr_lo, self.qerr_hi, err), **w)
        odd = self.qerr_hi - err
        ctx.check(self.err + odd == uerr, 'update-count', '%d invalid updates, counted %d' % (self.err + odd, uerr), **w)
        ctx.check(self.lo_ok <= uok <= self.hi_ok, 'update-count', '%d..%d valid updates, counted %d' % (self.lo_ok, self.hi_ok, uok), **w)

    def polls(self, closed=False):
        ts = [t - 1500000000.0 - (self.m0 - 5000.0) for t, _, _, _ in self.sender.requests]
        ctx, iv = self.ctx, self.interval
        if self.now() > iv * 1.01:
            ctx.check(bool(ts), 'no-poll', 'no poll within %.2f s, interval %s' % (self.now(), iv))
        if ts:
            ctx.check(ts[0] <= iv * 1.01, 'no-poll', 'first poll after %.3f s, interval %s' % (ts[0], iv))
            for a, b in zip(ts, ts[1:]):
                ctx.check(abs(b - a - iv) <= 0.011 * iv, 'poll-interval', 'polls at %.3f s and %.3f s, interval %s' % (a, b, iv), answers=self.log[-12:])
            ctx.check(self.now() - ts[-1] <= iv * 1.011, 'poll-stopped', 'last poll at %.3f s, now %.3f s, interval %s' % (ts[-1], self.now(), iv), answers=self.log[-12:])
        for _, kind, a, k in self.sender.requests:
            ctx.check(kind == 'sampling' and a[0] == 'svc', 'poll-request', 'request %r %r' % (kind, a))

    def decide(self):
        rng = self.rng
        name = rng.choice(NAMES + ['extra%d' % rng.randrange(4)])
        rate = 0.5
        if self.kind == 'prob':
            rate = self.cur
        elif self.kind == 'ops':
            rate = self.model.ops[name].rate if name in self.model.ops else self.model.default
        t = tid(rng, rate)
        got, tags = self.s.is_sampled(t, name)
        self.ctx.notes.update(now=self.now(), in_force=(self.kind, self.cur))
        self.model.judge(name, t, got, tags, self.now())
        self.ctx.event()


def answers(ctx):
    rng = ctx.rng
    with World() as world:
        iv = rng.choice([0.5, 1, 7, 60, 3600])
        f = Flow(ctx, world, iv, rng.choice([1, 3, 100, None]), delays=rng.random() < 0.5)
        for _ in range(rng.randint(20, 70)):
            world.run_for(iv * rng.choice([0.1, 0.25, 0.5, 1, 1.3]))
            f.counters()
            f.polls()
            for _ in range(rng.choice([0, 1, 3, 8])):
                f.decide()
        ctx.count('polls', len(f.sender.requests))
        ctx.check(not world.errors, 'callback-error', 'the event loop reported %r' % (world.errors[:1],), answers=f.log[-12:])
        ctx.key(tuple((c, b) for _, c, b, _ in f.log))
        ctx.sample({'interval': iv, 'polls': len(f.sender.requests), 'answers': [c for _, c, _, _ in f.log[:12]]})


def after_bad(ctx):
    """An invalid or unreadable answer leaves the behaviour as it was, probe by probe."""
    rng = ctx.rng
    with World() as world:
        good = valid(rng)
        cur = {'b': json.dumps(good).encode()}
        sender = virtual_sender(world, lambda k, a, kw: (None, cur['b']))
        mf = rec_factory()
        s = J.RemoteControlledSampler(sender, 'svc', init_sampler=J.ConstSampler(False), sampling_refresh_interval=10, metrics_factory=mf)
        world.run_for(10.5)
        ctx.check(1 <= mf.get(UU, result='ok') <= len(sender.requests), 'update-count', 'a valid strategy counted %d updates' % mf.get(UU, result='ok'), strategy=good)
        probes = [(rng.getrandbits(64) if rng.random() < 0.7 else rng.choice([1, (1 << 64) - 1]), rng.choice(NAMES + ['new', 'other'])) for _ in range(12)]
        probes += [((1 << 64) - 1, 'fresh%d' % i) for i in range(3)]

        def run():
            # from a full bucket: everything is known
            world.clock.advance(1e4)
            return [s.is_sampled(t, o) for t, o in probes]
        run()
        before = run()
        cls, body, strat = 'valid', None, None
        while cls == 'valid':
            cls, body, strat = make_answer(rng, True)
        cur['b'] = body
        q0 = sum(mf.get(QQ, result=r) for r in ('ok', 'err'))
        world.run_for(10)
        n = len(sender.requests)
        if cls != 'never':
            ctx.check(sum(mf.get(QQ, result=r) for r in ('ok', 'err')) > q0, 'query-count', 'a poll answered %s was not counted' % cls, body=repr(body)[:300])
            u = mf.get(UU, result='err')
            if cls == 'invalid':
                ctx.check(u >= 1, 'update-count', 'an invalid strategy was not counted as a failed update', body=repr(body)[:300])
            elif cls != 'no-object':
                ctx.check(u == 0, 'update-count', '%d failed updates counted for a %s answer' % (u, cls), body=repr(body)[:300])
        after = run()
        ctx.check(before == after, 'changed-by-bad-answer', 'a %s answer changed the sampling behaviour' % cls, strategy=good, body=repr(body)[:400],
                  before=repr(before)[:800], after=repr(after)[:800])
        # operations never seen before still work, and polling goes on
        for i in range(3):
            got = s.is_sampled((1 << 64) - 1, 'later%d' % i)
            ctx.check(len(got) == 2, 'decision', 'decision %r' % (got,))
        new = valid(rng)
        cur['b'] = json.dumps(new).encode()
        world.run_for(20)
        ctx.check(len(sender.requests) >= n + 2, 'poll-stopped', 'polling stopped after a %s answer' % cls, body=repr(body)[:300])
        ctx.event()
        ctx.count('cls_' + cls.replace('-', '_'))
        ctx.key(json.dumps(good, sort_keys=True), repr(body))
        ctx.sample({'strategy': good, 'then': cls, 'body': repr(body)[:100]})


def thrift_form(ctx):
    """The Thrift form of a strategy becomes the sampler that its JSON form describes, or is refused."""
    from jaeger_client import thrift as jthrift
    from jaeger_client.thrift_gen.sampling import SamplingManager as sm
    from thrift.protocol import TBinaryProtocol, TCompactProtocol
    from thrift.transport import TTransport
    rng = ctx.rng
    with World() as world:
        prob_type, rate_type = sm.SamplingStrategyType.PROBABILISTIC, sm.SamplingStrategyType.RATE_LIMITING
        rate = rng.choice(RATES + [0, 1, 0.0, 1.0, 5e-324, 1 - 2.0 ** -53, rng.random(), -1.0, -1e-9, -5e-324, 1 + 2.0 ** -52, 1.5, 2, 1e300, float('nan'), float('inf'), -float('inf')])
        mtps = rng.choice([0, 1, 2, 3, 10, 100, 498, 499, 500, 501, -1, -2, 32767, -32768, rng.randint(0, 499)])
        kind = rng.choice(['prob', 'prob', 'rate', 'rate', 'other'])
        wire = rng.random() < 0.6
        r = sm.SamplingStrategyResponse(strategyType={'prob': prob_type, 'rate': rate_type}.get(kind, rng.choice([2, 3, -1, 77] + ([] if wire else [None, 'x', 'PROBABILISTIC']))))
        if rng.random() < 0.85 if kind == 'prob' else rng.random() < 0.3:
            r.probabilisticSampling = sm.ProbabilisticSamplingStrategy(samplingRate=rate)
        if rng.random() < 0.85 if kind == 'rate' else rng.random() < 0.3:
            r.rateLimitingSampling = sm.RateLimitingSamplingStrategy(maxTracesPerSecond=mtps)
        text = repr(r)
        if wire:
            proto = rng.choice([TBinaryProtocol.TBinaryProtocol, TCompactProtocol.TCompactProtocol])
            buf = TTransport.TMemoryBuffer()
            r.write(proto(buf))
            r = sm.SamplingStrategyResponse()
            r.read(proto(TTransport.TMemoryBuffer(buf.getvalue())))
        good = (kind == 'prob' and r.probabilisticSampling is not None and 0 <= rate <= 1) or \
            (kind == 'rate' and r.rateLimitingSampling is not None and 0 <= mtps < 500)
        ctx.notes.update(response=text, over_the_wire=wire)
        got = jthrift.parse_sampling_strategy(r)
        ctx.check(isinstance(got, tuple) and len(got) == 2, 'thrift-form', 'the result is %r' % (got,))
        sampler, err = got
        if not good:
            ctx.check(sampler is None and bool(err), 'thrift-form', 'an invalid response gave %r' % (got,))
        else:
            ctx.check(sampler is not None and err is None, 'thrift-form', 'a valid response gave %r' % (got,))
            t0 = world.clock.mono
            model = Prob(ctx, rate) if kind == 'prob' else Rate(ctx, mtps, 0)
            for _ in range(rng.randint(10, 40)):
                if kind == 'rate' and rng.random() < 0.3:
                    world.clock.advance(rng.choice([0.001, 0.4, 1, 2, 30]))
                t = tid(rng, rate if kind == 'prob' else 0.5)
                ans, tags = sampler.is_sampled(t, rng.choice(NAMES))
                model.judge(None, t, ans, tags, world.clock.mono - t0)
                ctx.event()
            sampler.close()
        ctx.count('valid' if good else 'refused')
        ctx.key(text, wire)
        ctx.sample({'response': text, 'valid': good})


PAIRS = [
    ({'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': 0.0}}, {'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': 1.0}}),
    ({'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': {'maxTracesPerSecond': 0}}, {'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': 1.0}}),
    ({'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': 0.0}},
     {'operationSampling': {'defaultSamplingProbability': 1.0, 'perOperationStrategies': []}}),
    ({'operationSampling': {'defaultSamplingProbability': 0.0, 'defaultLowerBoundTracesPerSecond': 0, 'perOperationStrategies':
                            [{'operation': o, 'probabilisticSampling': {'samplingRate': 0.0}} for o in ('a', 'b', 'c')]}},
     {'operationSampling': {'defaultSamplingProbability': 1.0, 'defaultLowerBoundTracesPerSecond': 0, 'perOperationStrategies':
                            [{'operation': o, 'probabilisticSampling': {'samplingRate': 1.0}} for o in ('a', 'b', 'c')]}}),
    ({'operationSampling': {'defaultSamplingProbability': 0.0, 'defaultLowerBoundTracesPerSecond': 0, 'perOperationStrategies':
                            [{'operation': 'a', 'probabilisticSampling': {'samplingRate': 0.0}}]}},
     {'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': 1.0}}),
]


def race(ctx):
    """Decisions taken while an update is applied see the old or the new strategy, and never the old after the new."""
    rng = ctx.rng
    with World() as world:
        old, new = rng.choice(PAIRS)
        bad = rng.random() < 0.25
        cur = {'b': json.dumps(old).encode()}
        sender = virtual_sender(world, lambda k, a, kw: (None, cur['b']))
        s = J.RemoteControlledSampler(sender, 'svc', init_sampler=J.ConstSampler(False), sampling_refresh_interval=10, metrics_factory=rec_factory())
        world.run_for(10.5)
        if bad:
            cur['b'] = rng.choice([b'{', b'{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 7}}',
                                   b'{"operationSampling": {"defaultSamplingProbability": 1.0, "perOperationStrategies": [{"operation": "a", "probabilisticSampling": '
                                   b'{"samplingRate": 1.0}}, {"operation": "b", "probabilisticSampling": {"samplingRate": 7}}]}}'])
        else:
            cur['b'] = json.dumps(new).encode()
        seq = [0]
        hist = []

        def upd():
            world.run_for(10)

        def decide(k):
            def f():
                for j in range(4):
                    op = rng2.choice(['a', 'b', 'c', 'new%d%d' % (k, j)])
                    seq[0] += 1
                    st = seq[0]
                    got, tags = s.is_sampled(1, op)
                    seq[0] += 1
                    hist.append((st, seq[0], bool(got), op, repr(tags)))
            return f
        import random
        rng2 = random.Random(rng.getrandbits(32))
        sc = sched.Scheduler(rng)
        sc.run([upd, decide(0)] + ([decide(1)] if rng.random() < 0.5 else []))
        p = sc.raise_problems()
        if p:
            ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
        for t in sc.threads:
            if t.exc is not None:
                raise t.exc
        w = dict(schedule=sc.schedule[:400], history=hist, old=old, new=repr(cur['b']))
        if bad:
            ctx.check(not any(h[2] for h in hist), 'torn-update', 'a decision during an invalid update saw part of it', **w)
        else:
            firsts = [h[1] for h in hist if h[2]]
            if firsts:
                e = min(firsts)
                ctx.check(not any(h[0] > e and not h[2] for h in hist), 'torn-update', 'a decision saw the old strategy after another had seen the new one', **w)
                ctx.count('saw_new')
            if any(not h[2] for h in hist):
                ctx.count('saw_old')
            ctx.check(s.is_sampled(1, 'a')[0] and s.is_sampled(1, 'fresh')[0], 'not-applied', 'the new strategy is not in force after the update', **w)
        ctx.event(len(hist))
        ctx.count('switches', sc.switches)
        ctx.key(tuple(sc.schedule), repr(old)[:80])
        ctx.sample({'decisions': len(hist), 'new': sum(h[2] for h in hist), 'switches': sc.switches, 'invalid': bad})


def traced(ctx):
    """Through the tracer: start_span works under whatever the agent answered."""
    rng = ctx.rng
    with World() as world:
        iv = rng.choice([1, 60])
        f = Flow(ctx, world, iv, rng.choice([1, 3, None]), delays=False)
        tr = J.Tracer('svc', RecReporter(), f.s)
        for _ in range(rng.randint(10, 25)):
            world.run_for(iv)
            f.counters()
            for _ in range(3):
                name = rng.choice(NAMES + ['x%d' % rng.randrange(6)])
                sp = tr.start_span(name, ignore_active_span=True)
                tags = {t.key: t.vStr if t.vStr is not None else t.vDouble if t.vDouble is not None else t.vLong for t in sp.tags}
                f.ctx.notes.update(now=f.now(), in_force=(f.kind, f.cur))
                f.model.judge(name, sp.trace_id, sp.is_sampled(), tags, f.now())
                sp.finish()
                ctx.event()
        f.polls()
        ctx.key(tuple((c, b) for _, c, b, _ in f.log))
        ctx.sample({'answers': [c for _, c, _, _ in f.log[:12]]})


SCENARIOS = [
    Scenario('answers', answers, 300, 10000, need=('events', 'polls', 'answer_valid', 'answer_invalid', 'answer_unreadable', 'answer_failed', 'answer_never')),
    Scenario('after_bad', after_bad, 700, 25000, need=('events', 'cls_invalid', 'cls_unreadable', 'cls_failed')),
    Scenario('race', race, 300, 12000, need=('events', 'switches', 'saw_new', 'saw_old')),
    Scenario('traced', traced, 150, 5000),
    Scenario('thrift_form', thrift_form, 400, 20000, need=('events', 'valid', 'refused')),
]
