"""C13: rate-limited sampling never exceeds its budget and never starves."""
import json
import math

from jv import core, sched
from jv.runner import Scenario
from jv.world import J, RecReporter, World, virtual_sender, rec_factory

ID = 'C13'
RULE = ('request patterns in virtual time (floods, steady callers at, below and above the rate, idle gaps, wall clock set forward and back, rate '
        'changes) judged by an interval token-bucket model that knows only the statement, plus the window bound over every pair of '
        'admissions; and threads racing for the last credits under the controlled scheduler; distinct by pattern')
ASSUMPTIONS = ['the limiter may start with any share of its burst']
EPS = 1e-6


class Bucket(object):
    """Knows the balance up to an interval; learns from the answers."""

    def __init__(self, ctx, rate, now, cap=None):
        self.ctx = ctx
        self.rate = rate
        self.cap = max(rate, 1.0) if cap is None else cap
        self.lo, self.hi = 0.0, float(self.cap)
        self.t = now
        self.log = []

    def tick(self, now, unsure=0.0):
        dt = now - self.t
        self.t = now
        self.lo = min(self.cap, self.lo + max(0.0, dt - unsure) * self.rate)
        self.hi = min(self.cap, self.hi + dt * self.rate)

    def answer(self, got, cost=1.0, unsure=0.0, now=None):
        self.tick(now, unsure)
        if len(self.log) < 400:
            self.log.append((round(now, 6), cost, bool(got)))
        if got:
            self.ctx.check(self.hi >= cost - EPS, 'over-budget', 'admitted at %.6f s although at most %.6f credits can be left (rate %s, burst %s)' %
                           (now, self.hi, self.rate, self.cap), log=self.log[-60:])
            self.lo = max(0.0, max(self.lo, cost) - cost)
            self.hi = max(0.0, self.hi - cost)
        else:
            self.ctx.check(self.lo < cost + EPS, 'starved', 'refused at %.6f s although at least %.6f credits are left (rate %s, burst %s)' %
                           (now, self.lo, self.rate, self.cap), log=self.log[-60:])
            self.hi = min(self.hi, cost + EPS)
            self.lo = min(self.lo, self.hi)

    def change(self, rate, now, unsure=0.0, cap=None):
        self.tick(now, unsure)
        new = max(rate, 1.0) if cap is None else cap
        self.lo, self.hi = self.lo * new / self.cap, self.hi * new / self.cap
        self.rate, self.cap = rate, new


RATES = [0, 0.001, 0.1, 0.5, 0.999, 1, 1, 1.5, 2, 3.7, 10, 100, 499]


class Clk(object):
    """Elapsed true time next to a wall clock that may be set to any other time."""

    def __init__(self, rng):
        self.c = core.Clock(wall=rng.choice([1.5e9, 1.7e9 + rng.random(), 1e9]))
        core.set_clock(self.c)

    def advance(self, dt):
        self.c.advance(dt)

    def set(self, d):
        self.c.wall += d


def gaps(rng, rate):
    kind = rng.choice(['flood', 'steady', 'slow', 'bursty', 'mixed', 'tiny'])
    per = 1.0 / rate if rate else 10.0
    n = rng.randint(20, 120)
    out = []
    for _ in range(n):
        if kind == 'flood':
            out.append(0 if rng.random() < 0.9 else per * rng.random())
        elif kind == 'steady':
            out.append(per)
        elif kind == 'slow':
            out.append(per * rng.choice([1.01, 2, 10]))
        elif kind == 'bursty':
            out.append(0 if rng.random() < 0.8 else per * rng.choice([1, 5, 30, 1000]))
        elif kind == 'tiny':
            out.append(per * rng.random() * 0.1)
        else:
            out.append(per * rng.choice([0, 0, 0.3, 0.5, 1, 1, 3, 20]))
    return kind, out


def pattern(ctx):
    rng = ctx.rng
    clk = Clk(rng)
    rate = rng.choice(RATES)
    changing = rng.random() < 0.5
    jumps = rng.random() < 0.3
    s = J.RateLimitingSampler(rate)
    m0 = clk.c.mono
    b = Bucket(ctx, rate, 0.0)
    kind, gs = gaps(rng, rate)
    admitted = []
    changes = 0
    for g in gs:
        clk.advance(g)
        now = clk.c.mono - m0
        if jumps and rng.random() < 0.08:
            clk.set(rng.choice([-1, 1]) * rng.choice([0.5, 5, 3600, 1e8]))
            ctx.count('clock_set')
        if changing and rng.random() < 0.1:
            new = rng.choice(RATES)
            r = s.update(new)
            ctx.check(bool(r) == (new != rate), 'update-result', 'update from %s to %s returned %r' % (rate, new, r))
            if new != rate:
                b.change(new, now)
                rate = new
                changes += 1
                admitted = []
        for _ in range(rng.choice([1, 1, 1, 5]) if kind != 'flood' else rng.choice([1, 20])):
            got, tags = s.is_sampled(rng.getrandbits(64), 'op')
            b.answer(got, 1.0, 0.0, now)
            ctx.event()
            ctx.check(tags == {'sampler.type': 'ratelimiting', 'sampler.param': rate}, 'tags', 'tags %r at rate %s' % (tags, rate))
            if got:
                admitted.append(now)
    # the bound of the statement over every window of one rate
    cap = max(rate, 1.0)
    n = len(admitted)
    for i in range(n):
        for j in range(i, n):
            ctx.check(j - i + 1 <= rate * (admitted[j] - admitted[i]) + cap + EPS, 'over-budget',
                      '%d admissions within %.6f s at rate %s' % (j - i + 1, admitted[j] - admitted[i], rate))
    ctx.count('admitted', len(admitted))
    ctx.count('changes', changes)
    ctx.key(rate, kind, tuple(b.log[:50]))
    ctx.sample({'rate': rate, 'pattern': kind, 'requests': len(gs), 'changes': changes})


def throughput(ctx):
    """A caller that keeps asking gets at least the rate; a long idle time gives one burst and no more."""
    rng = ctx.rng
    clk = Clk(rng)
    rate = rng.choice([r for r in RATES if r > 0])
    s = J.RateLimitingSampler(rate)
    per = 1.0 / rate
    step = per / rng.choice([2, 3, 7.3])
    n = rng.randint(20, 60)
    jumps = rng.random() < 0.3
    got = 0
    t = 0.0
    while t < n * per:
        clk.advance(step)
        if jumps and rng.random() < 0.1:
            clk.set(rng.choice([-1, 1]) * rng.choice([0.5, 5, 3600, 1e8]))
        t += step
        got += bool(s.is_sampled(0)[0])
        ctx.event()
    ctx.check(got >= math.floor(t / (per + step)) - 1, 'starved', '%d admissions in %.3f s at rate %s' % (got, t, rate))
    ctx.check(got <= rate * t + max(rate, 1) + EPS, 'over-budget', '%d admissions in %.3f s at rate %s' % (got, t, rate))
    clk.advance(per * rng.choice([1000, 1e6]))
    burst = 0
    while s.is_sampled(0)[0]:
        burst += 1
        if burst > 2000:
            break
    ctx.check(burst == math.floor(max(rate, 1) + EPS), 'burst', 'burst of %d after a long pause at rate %s' % (burst, rate))
    ctx.key(rate, step, got)
    ctx.sample({'rate': rate, 'seconds': round(t, 2), 'admitted': got, 'burst': burst})


def costs(ctx):
    """The limiter with arbitrary costs and burst sizes."""
    rng = ctx.rng
    clk = Clk(rng)
    rate, cap = rng.choice([0.1, 1, 2, 50, 1000]), rng.choice([1.0, 2.0, 3.0, 100.0, 0.5])
    lim = J.RateLimiter(rate, cap)
    b = Bucket(ctx, rate, 0.0, cap)
    m0 = clk.c.mono
    for _ in range(rng.randint(20, 80)):
        clk.advance(rng.choice([0, 0, 0.1 / rate, 0.5 / rate, cap / rate, 10 * cap / rate]))
        now = clk.c.mono - m0
        if rng.random() < 0.08:
            rate, cap = rng.choice([0.1, 1, 2, 50, 1000]), rng.choice([1.0, 2.0, 3.0, 100.0, 0.5])
            lim.update(rate, cap)
            b.change(rate, now, cap=cap)
            ctx.count('changes')
        cost = rng.choice([0.25, 0.5, 1.0, 1.0, 2.0, cap, cap * 2, 0.0])
        b.answer(lim.check_credit(cost), cost, 0.0, now)
        ctx.event()
    ctx.key(rate, cap, tuple(b.log[:30]))
    ctx.sample({'rate': rate, 'burst': cap, 'log': b.log[:8]})


def strategies(ctx):
    """Rate changes arriving from the agent keep the share of the burst; the tracer's traces obey the rate."""
    rng = ctx.rng
    with World() as world:
        cur = {'rate': rng.choice([1, 2, 5, 10])}
        sender = virtual_sender(world, lambda kind, a, k: (None, json.dumps(
            {'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': {'maxTracesPerSecond': cur['rate']}}).encode()))
        s = J.RemoteControlledSampler(sender, 'svc', init_sampler=J.RateLimitingSampler(cur['rate']), sampling_refresh_interval=10,
                                      metrics_factory=rec_factory())
        tr = J.Tracer('svc', RecReporter(), s)
        world.run_for(25)
        m0 = world.clock.mono
        b = Bucket(ctx, cur['rate'], 0.0)
        used = cur['rate']
        for _ in range(rng.randint(10, 60)):
            n0 = len(sender.requests)
            if rng.random() < 0.1:
                cur['rate'] = rng.choice([0, 0.5, 1, 2, 5, 10, 100])
            for _ in range(rng.choice([0, 1, 3])):
                world.run_for(rng.choice([0, 0.05, 0.5, 1, 3]))
                if len(sender.requests) > n0:
                    # a poll happened within this step: apply it at its own time
                    at = sender.requests[-1][0] - 1500000000.0 - (m0 - 5000.0)
                    n0 = len(sender.requests)
                    if cur['rate'] != used:
                        used = cur['rate']
                        b.change(used, at)
                        ctx.count('changes')
            now = world.clock.mono - m0
            for _ in range(rng.choice([1, 1, 4, 30])):
                sp = tr.start_span('op')
                b.answer(sp.is_sampled(), 1.0, 1e-5, now)
                ctx.event()
        ctx.key(tuple(b.log[:40]))
        ctx.sample({'final_rate': used, 'log': b.log[:8]})


def race(ctx):
    """Threads race for the credits of a full bucket at a standing clock; a rate change may come in between."""
    rng = ctx.rng
    clk = Clk(rng)
    rate = rng.choice([1, 1, 2, 3, 5, 0.5])
    s = J.RateLimitingSampler(rate)
    clk.advance(1e4)
    cap = max(rate, 1.0)
    n, per = rng.choice([2, 2, 3]), rng.randint(1, 3)
    new = rng.choice([None, None, 1, 2, 4, 7]) if rng.random() < 0.5 else None
    if new == rate:
        new = None
    got = []

    def f():
        for _ in range(per):
            r, _t = s.is_sampled(1)
            got.append(bool(r))
    fns = [f] * n
    if new is not None:
        fns = fns + [lambda: s.update(new)]
    sc = sched.Scheduler(rng)
    sc.run(fns)
    p = sc.raise_problems()
    if p:
        ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
    for t in sc.threads:
        if t.exc is not None:
            raise t.exc
    total, calls = sum(got), n * per
    # afterwards, drain: what is left plus what was taken is one full burst
    left = 0
    while s.is_sampled(1)[0] and left < 100:
        left += 1
    if new is None:
        want = {(min(calls, int(cap)), int(cap) - min(calls, int(cap)))}
    else:
        ncap = max(new, 1.0)
        want = set()
        for before in range(0, min(calls, int(cap)) + 1):
            rest = (cap - before) * ncap / cap
            # a requests before the change (all admitted while credit lasts), the others after it
            for refused_before in ([0] if before < int(cap) else range(0, calls - before + 1)):
                after_calls = calls - before - refused_before
                x = min(after_calls, int(rest + EPS))
                want.add((before + x, int(rest - x + EPS)))
    ctx.check((total, left) in want, 'racing-credits', '%d of %d concurrent requests admitted and %d left, rate %s -> %s; possible: %s' %
              (total, calls, left, rate, new, sorted(want)), schedule=sc.schedule[:300])
    ctx.event(calls)
    ctx.count('switches', sc.switches)
    ctx.key(tuple(sc.schedule), rate, new)
    ctx.sample({'rate': rate, 'new_rate': new, 'calls': calls, 'admitted': total, 'left': left, 'switches': sc.switches})


def race_time(ctx):
    """Threads race while time passes: the credit handed out is exactly the credit earned."""
    rng = ctx.rng
    clk = Clk(rng)
    rate = rng.choice([10, 20, 16])
    s = J.RateLimitingSampler(rate)
    clk.advance(1e4)
    while s.is_sampled(1)[0]:
        pass
    unit = 1.0 / rate
    ticks = rng.randint(2, 5)
    got = []
    per = rng.randint(1, 4)

    def f():
        for _ in range(per):
            got.append(bool(s.is_sampled(1)[0]))

    def passing():
        for _ in range(ticks):
            clk.advance(unit)
            for _ in range(rng.randint(1, 12)):
                sc.point()
    sc = sched.Scheduler(rng)
    sc.run([f] * rng.choice([2, 3]) + [passing])
    p = sc.raise_problems()
    if p:
        ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
    for t in sc.threads:
        if t.exc is not None:
            raise t.exc
    clk.advance(unit * 0.25)
    left = 0
    while s.is_sampled(1)[0] and left < 100:
        left += 1
    ctx.check(sum(got) + left == ticks, 'racing-time', '%d credits earned, %d admitted in the race and %d after it' % (ticks, sum(got), left),
              schedule=sc.schedule[:300])
    ctx.event(len(got))
    ctx.count('switches', sc.switches)
    ctx.key(tuple(sc.schedule), rate, ticks)
    ctx.sample({'rate': rate, 'earned': ticks, 'admitted': sum(got), 'left': left, 'switches': sc.switches})


SCENARIOS = [
    Scenario('pattern', pattern, 1200, 30000, need=('events', 'admitted', 'changes', 'clock_set')),
    Scenario('throughput', throughput, 300, 5000),
    Scenario('costs', costs, 500, 12000, need=('events', 'changes')),
    Scenario('strategies', strategies, 150, 3000, need=('events', 'changes')),
    Scenario('race_time', race_time, 500, 10000, need=('events', 'switches')),
    Scenario('race', race, 500, 10000, need=('events', 'switches')),
]
