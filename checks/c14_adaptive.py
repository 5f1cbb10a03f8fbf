"""C14: per-operation sampling keeps its lower bound, its rates and its memory bound."""
import json
from fractions import Fraction

from checks.c13_rate_limit import Bucket, Clk, EPS
from jv import sched
from jv.runner import Scenario
from jv.world import J, RecReporter, World, virtual_sender, rec_factory

ID = 'C14'
RULE = ('random strategies, traffic over listed, learned and surplus operations with trace ids below, at and above every boundary, '
        'updates in between, in virtual time; each decision and its tags judged by a per-operation model (exact probability, interval '
        'token bucket for the lower bound); learning raced under the controlled scheduler; distinct by strategies and decisions')
ASSUMPTIONS = ['traces admitted by probability count towards the guaranteed minimum (they use its credit while there is some)',
               'an operation that a later response no longer lists is judged by the scenario "stale" only (known finding)']

RATES = [0, 0.0, 0.001, 0.25, 0.5, 1 / 3.0, 0.9, 1, 1.0]
LBS = [0, 0.002, 0.1, 0.5, 1, 2, 3.5]


class Op(object):
    def __init__(self, ctx, name, rate, lb, now):
        self.ctx, self.name, self.rate, self.lb = ctx, name, rate, lb
        self.bucket = Bucket(ctx, lb, now)

    def judge(self, trace_id, got, tags, now):
        ctx = self.ctx
        prob = (trace_id & ((1 << 64) - 1)) < Fraction(self.rate) * (1 << 64)
        w = dict(operation=self.name, rate=self.rate, lower_bound=self.lb)
        if prob:
            ctx.check(got, 'probability', 'trace %#x of %r refused at probability %r' % (trace_id, self.name, self.rate), **w)
            ctx.check(tags == {'sampler.type': 'probabilistic', 'sampler.param': self.rate}, 'tags', 'admitted by probability %r, tags %r' % (self.rate, tags), **w)
            b = self.bucket
            b.tick(now)
            if b.lo >= 1 + EPS:     # certainly paid for
                b.lo, b.hi = max(0.0, b.lo - 1), max(0.0, b.hi - 1)
            elif b.hi >= 1 - EPS:   # may or may not have been
                b.lo, b.hi = 0.0, max(b.hi - 1, 1.0)
            ctx.count('by_probability')
        else:
            self.bucket.answer(got, 1.0, 0.0, now)
            if got:
                ctx.check(tags == {'sampler.type': 'lowerbound', 'sampler.param': self.rate}, 'tags', 'admitted by the lower bound, tags %r' % tags, **w)
                ctx.count('by_lower_bound')

    def change(self, rate, lb, now):
        self.rate = rate
        if lb != self.lb:
            self.lb = lb
            self.bucket.change(lb, now)


class Model(object):
    def __init__(self, ctx, strat, maxops, now):
        self.ctx = ctx
        self.max = maxops
        self.ops = {}
        self.stale = set()
        self.default = 0.001
        self.lb = 1 / 600.0
        self.update(strat, now)

    def update(self, strat, now):
        rate = strat.get('defaultSamplingProbability', 0.001)
        lb = strat.get('defaultLowerBoundTracesPerSecond', 1 / 600.0)
        listed = {}
        for s in strat.get('perOperationStrategies', []):
            listed[s['operation']] = s['probabilisticSampling']['samplingRate']
        for name, r in listed.items():
            if name in self.ops and name not in self.stale:
                self.ops[name].change(r, lb, now)
            else:
                known = name in self.ops
                self.ops[name] = Op(self.ctx, name, r, lb, now)
                self.stale.discard(name)
                if known:
                    # its share of the burst is whatever it was
                    pass
        for name, op in self.ops.items():
            if name not in listed and (op.rate, op.lb) != (rate, lb):
                self.stale.add(name)
        self.default, self.lb = rate, lb

    def judge(self, name, trace_id, got, tags, now):
        got = bool(got)
        op = self.ops.get(name)
        if op is None:
            if len(self.ops) >= self.max:
                prob = (trace_id & ((1 << 64) - 1)) < Fraction(self.default) * (1 << 64)
                self.ctx.check(got == prob, 'surplus-operation', 'operation %r beyond the maximum of %d: sampled=%s for id %#x, default probability %r' %
                               (name, self.max, got, trace_id, self.default))
                if got:
                    self.ctx.check(tags == {'sampler.type': 'probabilistic', 'sampler.param': self.default}, 'tags', 'surplus operation has tags %r' % tags)
                self.ctx.count('surplus')
                return
            op = self.ops[name] = Op(self.ctx, name, self.default, self.lb, now)
            self.ctx.count('learned')
        if name in self.stale:
            return
        op.judge(trace_id, got, tags, now)


def strategies(rng, names):
    s = {}
    if rng.random() < 0.85:
        s['defaultSamplingProbability'] = rng.choice(RATES)
    if rng.random() < 0.85:
        s['defaultLowerBoundTracesPerSecond'] = rng.choice(LBS)
    k = rng.sample(names, rng.randint(0, min(4, len(names))))
    if k or rng.random() < 0.7:
        s['perOperationStrategies'] = [{'operation': n, 'probabilisticSampling': {'samplingRate': rng.choice(RATES)}} for n in k]
    return s


def tid(rng, rate):
    lim = int(Fraction(rate) * (1 << 64))
    r = rng.random()
    if r < 0.5:
        low = rng.getrandbits(64)
    elif r < 0.8:
        low = (1 << 64) - 1 - rng.getrandbits(20)
    else:
        low = min(max(lim + rng.choice([-1, 0, 1]), 0), (1 << 64) - 1)
    return low | (rng.getrandbits(64) << 64 if rng.random() < 0.3 else 0)


NAMES = ['op%d' % i for i in range(6)] + ['', 'GET /é', 'op0 ']


def direct(ctx):
    """AdaptiveSampler itself, updated in place."""
    rng = ctx.rng
    clk = Clk(rng)
    m0 = clk.c.mono
    maxops = rng.choice([0, 1, 2, 4, 6, 100])
    strat = strategies(rng, NAMES)
    s = J.AdaptiveSampler(json.loads(json.dumps(strat)), maxops)
    model = Model(ctx, strat, maxops, 0.0)
    n = 0
    for _ in range(rng.randint(10, 120)):
        clk.advance(rng.choice([0, 0, 0.1, 0.5, 1, 2, 600]))
        now = clk.c.mono - m0
        if rng.random() < 0.04:
            strat = strategies(rng, NAMES)
            s.update(json.loads(json.dumps(strat)))
            model.update(strat, now)
            ctx.count('updates')
        name = rng.choice(NAMES)
        rate = model.ops[name].rate if name in model.ops else model.default
        for _ in range(rng.choice([1, 1, 1, 4])):
            t = tid(rng, rate)
            got, tags = s.is_sampled(t, name)
            ctx.notes.update(now=now, strategies=strat, maxops=maxops)
            model.judge(name, t, got, tags, now)
            ctx.event()
            n += 1
    ctx.key(maxops, json.dumps(strat, sort_keys=True), n, len(model.ops))
    ctx.sample({'max_operations': maxops, 'strategies': strat, 'decisions': n})


def via_agent(ctx):
    """The same through the remotely controlled sampler and the tracer: responses, updates, memory bound."""
    rng = ctx.rng
    with World() as world:
        cur = {'s': strategies(rng, NAMES)}
        maxops = rng.choice([1, 2, 4, 100, None])
        while not cur['s']:
            cur['s'] = strategies(rng, NAMES)
        sender = virtual_sender(world, lambda kind, a, k: (None, json.dumps({'strategyType': 'PROBABILISTIC', 'operationSampling': cur['s']}).encode()))
        s = J.RemoteControlledSampler(sender, 'svc', init_sampler=J.ConstSampler(False), sampling_refresh_interval=100, max_operations=maxops,
                                      metrics_factory=rec_factory())
        tr = J.Tracer('svc', RecReporter(), s)
        m0 = world.clock.mono
        while not sender.requests:
            world.run_for(5)
        model = Model(ctx, cur['s'], maxops or 2000, sender.requests[0][0] - 1500000000.0 - (m0 - 5000.0))
        seen = len(sender.requests)
        n = 0
        for _ in range(rng.randint(10, 80)):
            if rng.random() < 0.1:
                new = strategies(rng, NAMES)
                if new:
                    cur['s'] = new
                    world.run_for(100.5)
                    ctx.check(len(sender.requests) > seen, 'no-poll', 'no poll within the refresh interval')
                    at = sender.requests[-1][0] - 1500000000.0 - (m0 - 5000.0)
                    model.update(cur['s'], at)
                    ctx.count('updates')
            world.run_for(rng.choice([0, 0.1, 0.5, 1]))
            if len(sender.requests) > seen:
                seen = len(sender.requests)
            now = world.clock.mono - m0
            name = rng.choice(NAMES)
            sp = tr.start_span(name, ignore_active_span=True)
            tags = {t.key: t.vStr if t.vStr is not None else t.vDouble if t.vDouble is not None else t.vLong for t in sp.tags}
            ctx.notes.update(now=now, strategies=cur['s'], maxops=maxops)
            model.judge(name, sp.trace_id, sp.is_sampled(), tags, now)
            ctx.event()
            n += 1
        ctx.key(maxops, json.dumps(cur['s'], sort_keys=True), n)
        ctx.sample({'max_operations': maxops, 'strategies': cur['s'], 'traces': n})


def guaranteed(ctx):
    """The guaranteed-throughput sampler alone: never fewer than the minimum per time, never more than probability plus minimum."""
    rng = ctx.rng
    clk = Clk(rng)
    m0 = clk.c.mono
    rate, lb = rng.choice(RATES), rng.choice(LBS)
    s = J.GuaranteedThroughputProbabilisticSampler('op', lb, rate)
    op = Op(ctx, 'op', rate, lb, 0.0)
    hist = []
    for _ in range(rng.randint(20, 100)):
        clk.advance(rng.choice([0, 0.1, 0.3, 1, 5]) / (lb or 1))
        now = clk.c.mono - m0
        if rng.random() < 0.05:
            rate, lb2 = rng.choice(RATES), rng.choice(LBS)
            s.update(lb2, rate)
            op.change(rate, lb2, now)
            lb = lb2
        t = tid(rng, rate)
        got, tags = s.is_sampled(t, 'op')
        op.judge(t, bool(got), tags, now)
        hist.append(bool(got))
        ctx.event()
    ctx.key(rate, lb, tuple(hist[:60]))
    ctx.sample({'rate': rate, 'lower_bound': lb, 'sampled': '%d of %d' % (sum(hist), len(hist))})


def flood(ctx):
    """Endless new operation names: only the configured number ever gets a lower bound."""
    rng = ctx.rng
    with World() as world:
        maxops = rng.choice([1, 3, 10, 50])
        nl = rng.choice([0, 1, 2, maxops, maxops + 3])
        strat = {'defaultSamplingProbability': 0, 'defaultLowerBoundTracesPerSecond': 1,
                 'perOperationStrategies': [{'operation': 'listed%d' % i, 'probabilisticSampling': {'samplingRate': 0}} for i in range(nl)]}
        sender = virtual_sender(world, lambda kind, a, k: (None, json.dumps({'operationSampling': strat}).encode()))
        s = J.RemoteControlledSampler(sender, 'svc', init_sampler=J.ConstSampler(False), sampling_refresh_interval=rng.choice([1, 1000]), max_operations=maxops)
        world.run_for(1001)
        n = maxops * 3 + 5
        names = ['new%d' % i for i in range(n)]
        for rounds in range(3):
            got = [x for x in names if s.is_sampled(rng.getrandbits(64), x)[0]]
            world.run_for(10)
        want = max(0, maxops - nl)
        ctx.check(len(got) <= want, 'memory-bound', '%d operations learned from traffic, %d listed, maximum %d' % (len(got), nl, maxops))
        ctx.check(len(got) == want, 'not-learned', '%d operations have a lower bound, %d listed, maximum %d' % (len(got), nl, maxops))
        lst = [i for i in range(nl) if s.is_sampled(1, 'listed%d' % i)[0]]
        ctx.check(len(lst) == nl, 'lower-bound', 'only %d of %d listed operations have a lower bound' % (len(lst), nl))
        ctx.event(n)
        ctx.key(maxops, nl, n)
        ctx.sample({'max_operations': maxops, 'listed': nl, 'offered': n, 'learned': len(got)})


def race(ctx):
    """Threads meet new operations at the memory bound; and race for one lower-bound credit."""
    rng = ctx.rng
    with World() as world:
        maxops = rng.choice([1, 2, 3])
        strat = {'defaultSamplingProbability': 0, 'defaultLowerBoundTracesPerSecond': 1, 'perOperationStrategies': []}
        sender = virtual_sender(world, lambda kind, a, k: (None, json.dumps({'operationSampling': strat}).encode()))
        s = J.RemoteControlledSampler(sender, 'svc', init_sampler=J.ConstSampler(False), sampling_refresh_interval=1, max_operations=maxops)
        world.run_for(2.5)
        shared = []
        n = rng.choice([2, 3])
        same = rng.random() < 0.4
        if same:
            s.is_sampled(1 << 63, 'shared')
            world.clock.advance(100)

        def worker(k):
            def f():
                if same:
                    shared.append(bool(s.is_sampled(1 << 63, 'shared')[0]))
                for j in range(2):
                    s.is_sampled(1 << 63, 'new%d-%d' % (k, j))
            return f
        sc = sched.Scheduler(rng)
        sc.run([worker(k) for k in range(n)])
        p = sc.raise_problems()
        if p:
            ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
        for t in sc.threads:
            if t.exc is not None:
                raise t.exc
        if same:
            ctx.check(sum(shared) == 1, 'lower-bound', '%d of %d concurrent traces admitted with one credit' % (sum(shared), n), schedule=sc.schedule[:300])
        world.clock.advance(100)
        # names are offered in the race first; one credit each by now if they were learned
        learned = [(k, j) for k in range(n) for j in range(2) if s.is_sampled(1 << 63, 'new%d-%d' % (k, j))[0]]
        total = len(learned) + (1 if same else 0)
        ctx.check(total == min(maxops, 2 * n + (1 if same else 0)), 'memory-bound', '%d operations learned, maximum %d' % (total, maxops), schedule=sc.schedule[:300])
        ctx.event(2 * n)
        ctx.count('switches', sc.switches)
        ctx.key(tuple(sc.schedule), maxops, same)
        ctx.sample({'max_operations': maxops, 'threads': n, 'learned': total, 'switches': sc.switches})


def stale(ctx):
    """An operation the latest response does not list follows the latest defaults."""
    rng = ctx.rng
    clk = Clk(rng)
    was_listed = rng.random() < 0.5
    s = J.AdaptiveSampler({'defaultSamplingProbability': 0.0, 'defaultLowerBoundTracesPerSecond': 0, 'perOperationStrategies':
                           [{'operation': 'op', 'probabilisticSampling': {'samplingRate': 0.0}}] if was_listed else []}, 10)
    s.is_sampled(1, 'op')
    p = rng.choice([0.5, 1.0])
    s.update({'defaultSamplingProbability': p, 'defaultLowerBoundTracesPerSecond': 0, 'perOperationStrategies': []})
    got, _ = s.is_sampled(1, 'op')
    ctx.check(s.is_sampled(1, 'fresh')[0], 'default-not-updated', 'a new operation does not use the updated default probability')
    ctx.event()
    ctx.key(was_listed, p, rng.random())
    ctx.sample({'listed_before': was_listed, 'new_default': p, 'sampled': bool(got)})
    del clk
    ctx.check(got, 'stale-unlisted-operation', 'an operation seen before keeps probability 0 after the default became %r' % p)


SCENARIOS = [
    Scenario('direct', direct, 900, 25000, need=('events', 'by_probability', 'by_lower_bound', 'surplus', 'learned', 'updates')),
    Scenario('via_agent', via_agent, 300, 6000, need=('events', 'by_probability', 'updates')),
    Scenario('guaranteed', guaranteed, 400, 10000, need=('events', 'by_probability', 'by_lower_bound')),
    Scenario('flood', flood, 60, 600),
    Scenario('race', race, 300, 6000, need=('events', 'switches')),
    Scenario('stale', stale, 8, 40),
]
