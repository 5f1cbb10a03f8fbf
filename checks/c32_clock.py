"""C32: setting the host's clock changes the recorded times and nothing else."""
import json
import random

from checks.c20_config import Http
from checks.c27_independence import OPS, Client, Draws, apart, configuration
from jv import wire
from jv.runner import Inconclusive, Scenario
from jv.world import Tap, World

ID = 'C32'
RULE = ('a client of random configuration runs a random program in virtual time twice, with the wall clock left alone and with it set forward and back by up to years at random moments; '
        'distinct by configuration, program and steps')
ASSUMPTIONS = ['the strategy that the agent answers with does not change (when it is asked is not compared: the PeriodicCallback of tornado goes by the wall clock)',
               'random draws are the same in both runs']


def plan(rng):
    cfg = configuration(rng, 0)
    cfg.pop('throttler', None)
    n = rng.randint(10, 60)
    p = {'cfg': cfg, 'seed': rng.getrandbits(32), 'steps': n, 'waits': [rng.choice([0, 0, 0.01, 0.31, 1.23]) for _ in range(n)], 'fails': rng.choice([0, 0, 0.4, 1]), 'jumps': {}}
    for _ in range(rng.choice([1, 1, 2, 5])):
        p['jumps'][rng.randrange(n)] = rng.choice([-1, 1]) * rng.choice([0.004, 0.6, 3600, 1e7, 1e8])
    k = rng.randrange(4)
    p['answer'] = [{'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': 0.5}}, {'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': {'maxTracesPerSecond': 1}},
                   {'operationSampling': {'defaultSamplingProbability': 0.2, 'defaultLowerBoundTracesPerSecond': 0.5, 'perOperationStrategies':
                                          [{'operation': o, 'probabilisticSampling': {'samplingRate': rng.choice([0, 0.3])}} for o in OPS[:2]]}}, None][k]
    return p


def run(p, jumping):
    frng = random.Random(p['seed'])

    def fault(data, dest):
        return OSError(111, 'no') if frng.random() < p['fails'] else None

    def respond(path, q):
        if p['answer'] is None:
            raise OSError(111, 'refused')
        return json.dumps(p['answer']).encode()
    steps = []      # (elapsed time, how far the clock is set off from then on)
    with Draws() as draws, World() as w, Tap(fault=fault) as tp, Http(w, respond):
        t0, wall0 = w.clock.mono, w.clock.wall
        c = Client(0, p['seed'], json.loads(json.dumps(p['cfg'])), draws, w)
        # the first poll is over
        w.run_for(4.1)
        off = 0
        for k in range(p['steps']):
            c.step()
            w.run_for(p['waits'][k])
            if k in p['jumps']:
                # nothing happens at the very instant
                w.run_for(0.011)
                off += p['jumps'][k]
                if jumping:
                    w.clock.wall += p['jumps'][k]
                steps.append((w.clock.mono - t0, off))
                w.run_for(0.011)
        for s in c.spans:
            s.finish()
        if c.scope is not None:
            c.scope.close()
        f = c.tr.close()
        w.run_for(9)
        c.note('closed', f.done())
        sent = []
        for t, (_, data, dest, _) in zip(tp.sent_elapsed, tp.sent):
            sent.append((round(t - t0, 3), wire.decode(data)))
    metrics = {k: v for k, v in c.metrics.items() if 'sampler' not in k}
    return {'calls': c.out, 'datagrams': sent, 'metrics': metrics}, steps, wall0


def shifted(p, steps, wall0, datagrams):
    """What the datagrams of the run with the clock left alone look like when it is set."""
    def at(us):
        # how far the clock is off at the instant it shows us (in the run where it is left alone)
        t, o = us / 1e6 - wall0, 0
        for when, off in steps:
            if t >= when:
                o = off
        return o
    for _, b in datagrams:
        for s in b['spans']:
            a, e = s['startTime'], s['startTime'] + s['duration']
            s['startTime'] = a + at(a) * 1e6
            if at(e) != at(a):
                # how long a span took while the clock was set is anyone's guess
                s['duration'] = None
            for lg in s.get('logs') or ():
                lg['timestamp'] += at(lg['timestamp']) * 1e6
    return datagrams


def same(x, y):
    """Equal, but for the rounding of times (to the tenth of a millisecond)."""
    if isinstance(x, dict):
        return set(x) == set(y) and all(x[k] is None or abs(x[k] - y[k]) <= 100 if k in ('startTime', 'duration', 'timestamp') else same(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, float) and x != x:
        return y != y
    return x == y


def steps(ctx):
    p = plan(ctx.rng)
    still, offs, wall0 = apart(run, p, False)
    moved, _, _ = apart(run, p, True)
    ctx.notes.update(configuration=p['cfg'], steps=p['jumps'])
    want = dict(still)
    want['datagrams'] = shifted(p, offs, wall0, [x for x in still['datagrams']])
    for what in ('calls', 'datagrams', 'metrics'):
        x, y = want[what], moved[what]
        if what == 'datagrams':
            # the time it leaves may come a little earlier or later, by the rounding of a clock that shows large numbers
            ok = len(x) == len(y) and all(abs(a[0] - b[0]) <= 0.002 and same(a[1], b[1]) for a, b in zip(x, y))
        else:
            ok = same(x, y)
        if not ok:
            again, _, _ = apart(run, p, False)
            first, _, _ = apart(run, p, False)
            if again != first:
                raise Inconclusive('a client alone does not behave the same twice')
            if isinstance(x, list):
                i = next((i for i in range(min(len(x), len(y))) if not same(x[i], y[i])), min(len(x), len(y)))
                x, y = x[max(0, i - 1):i + 1], y[max(0, i - 1):i + 1]
            ctx.fail('affected', 'the %s of a client differ when the wall clock is set' % what, alone=repr(x)[:1500], set=repr(y)[:1500])
    ctx.event(len(still['calls']))
    ctx.count('datagrams', len(still['datagrams']))
    ctx.count('steps', len(p['jumps']))
    ctx.count('back', sum(j < 0 for j in p['jumps'].values()))
    ctx.key(json.dumps(p['cfg'], sort_keys=True), p['seed'], tuple(p['jumps']))
    ctx.sample({'calls': len(still['calls']), 'datagrams': len(still['datagrams']), 'steps': p['jumps']})


SCENARIOS = [
    Scenario('steps', steps, 300, 10000, need=('events', 'datagrams', 'steps', 'back')),
]
