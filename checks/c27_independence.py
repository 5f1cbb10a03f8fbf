"""C27: tracers of one process do not affect each other."""
import json
import os
import pickle
import random

from checks.c20_config import Http
from checks.c26_memory import module_state
from jv import gen, wire
from jv.runner import Inconclusive, Scenario
from jv.world import J, Tap, World

ID = 'C27'
RULE = ('one client runs a random program in virtual time twice, alone and beside one or two other clients of other configurations, which run programs of their own, also with its spans and carriers, '
        'fail, are answered differently and are closed; distinct by configurations and program')
ASSUMPTIONS = ['the clients share the process and possibly the event loop, the dictionary of the configuration and spans as parents, and nothing else',
               'random draws that are not seeded are replaced by constants, so that a client alone behaves the same every time']


class Draws(object):
    """Draws of the client come from a generator of their own while the program of client `who` calls it, and are constant in callbacks."""

    def __init__(self):
        self.who = None
        self.gens = {}

    def bits(self, k):
        if self.who is None:
            # about a half, and such that no timer of a client falls on an instant at which the programs go on (all of those are hundredths of a second)
            return int(0.503337 * (1 << k))
        if self.who not in self.gens:
            self.gens[self.who] = self.real(self.who)
        return self.gens[self.who].getrandbits(k)

    def unit(self):
        return self.bits(53) / float(1 << 53)

    def octets(self, n):
        return self.bits(8 * n).to_bytes(n, 'big')

    def __enter__(self):
        # (the harness has a class of its own in its place)
        self.real = next(c for c in random.Random.__mro__ if c.__module__ == 'random')
        me = self

        class Rnd(self.real):
            def random(self):
                return me.unit()

            def getrandbits(self, k):
                return me.bits(k)

            def seed(self, *a, **k):
                pass
        one = Rnd()
        # (the process ends with the run, see apart(); nothing is put back)
        for n in ('random', 'getrandbits', 'randint', 'randrange', 'uniform', 'choice', 'sample', 'shuffle'):
            setattr(random, n, getattr(one, n))
        random.Random = random.SystemRandom = Rnd
        random._urandom = os.urandom = self.octets
        for v in module_state():
            if isinstance(v, self.real):
                try:
                    v.__class__ = Rnd
                except TypeError:
                    pass
        return self

    def __exit__(self, *a):
        pass


def apart(fn, *args):
    """The result of fn in a process of its own: what a run leaves behind in the modules is not there in the next."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            data = pickle.dumps(fn(*args))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return fn(*args)     # fails again, here
    return pickle.loads(data)


def factory(out):
    class F(J.MetricsFactory):
        def create_counter(self, name, tags=None):
            k = '%s%s' % (name, sorted((tags or {}).items()))

            def inc(v):
                out[k] = out.get(k, 0) + v
            return inc

        def create_gauge(self, name, tags=None):
            def put(v):
                out['last ' + name] = v
            return put
        create_timer = create_gauge
    return F()


def configuration(rng, i):
    c = {'logging': rng.random() < 0.2, 'reporter_queue_size': rng.choice([3, 30]), 'reporter_batch_size': rng.choice([1, 2, 3]), 'reporter_flush_interval': rng.choice([0.0513, 0.717]),
         'sampling_refresh_interval': rng.choice([1.0031, 7.0013]), 'max_operations': rng.choice([1, 2, 20]), 'propagation': rng.choice(['jaeger', 'jaeger', 'b3']),
         'generate_128bit_trace_id': rng.random() < 0.5, 'max_tag_value_length': rng.choice([5, 1024]), 'max_traceback_length': rng.choice([10, 4096]),
         'tags': {'t%d' % rng.randrange(3): 'v%d' % i},
         'local_agent': {'reporting_host': '127.0.0.1', 'reporting_port': 7000 + i, 'sampling_port': 7100 + i}}
    if rng.random() < 0.6:
        c['sampler'] = rng.choice([{'type': 'const', 'param': 1}, {'type': 'const', 'param': 0}, {'type': 'probabilistic', 'param': rng.choice([0.3, 0.7])},
                                   {'type': 'ratelimiting', 'param': rng.choice([0.5, 3])}])
    if rng.random() < 0.5:
        c['throttler'] = {'port': 7200 + i, 'refresh_interval': rng.choice([1, 3])}
    for k, v in (('trace_id_header', 'x-tr'), ('baggage_header_prefix', 'x-bg-'), ('debug_id_header', 'x-dbg')):
        if rng.random() < 0.3:
            c[k] = v + str(i) if rng.random() < 0.5 else v
    return c


OPS = ['a', 'b', 'c', '']


def responses(rng):
    """How one agent answers, as a function of the number of the request."""
    script = []
    for _ in range(8):
        k = rng.randrange(6)
        if k == 0:
            script.append(OSError(111, 'refused'))
        elif k == 1:
            script.append(rng.choice([b'', b'{', b'[]', b'{"strategyType": "X"}']))
        elif k == 2:
            script.append(json.dumps({'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': rng.random()}}).encode())
        elif k == 3:
            script.append(json.dumps({'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': {'maxTracesPerSecond': rng.choice([1, 2])}}).encode())
        else:
            script.append(json.dumps({'operationSampling': {'defaultSamplingProbability': rng.random(), 'defaultLowerBoundTracesPerSecond': rng.choice([0.5, 2]), 'perOperationStrategies':
                                      [{'operation': o, 'probabilisticSampling': {'samplingRate': rng.random()}} for o in OPS if rng.random() < 0.6]}}).encode())
    credit = [rng.choice([b'x', json.dumps({'balances': [{'operation': o, 'balance': rng.choice([0, 0.5, 1, 2])} for o in OPS]}).encode()]) for _ in range(4)]
    return script, credit


class Client(object):
    """A client and its program; what it does depends on nothing but its own seed."""

    def __init__(self, i, seed, cfg, draws, world):
        self.i, self.rng, self.draws = i, draws.real(seed), draws
        self.cfg = cfg
        self.world = world
        self.out = []
        self.metrics = {}
        draws.who = i
        self.conf = J.Config(cfg, service_name='svc%d' % i, validate=False, metrics_factory=factory(self.metrics))
        self.tr = self.conf.new_tracer(io_loop=world.io_loop)
        draws.who = None
        self.scope = None
        self.b3 = cfg['propagation'] == 'b3'
        self.spans = []
        self.carriers = []
        self.closed = False

    def formats(self):
        f = [J.Format.TEXT_MAP, J.Format.HTTP_HEADERS]
        if not self.b3:
            f += [J.Format.BINARY]
        return f + [J.ZipkinSpanFormat]

    def note(self, what, *v):
        self.out.append((what,) + v)

    def step(self, foreign=None, inside=None):
        who, self.draws.who = self.draws.who, self.i
        try:
            self._step(foreign, inside)
        finally:
            self.draws.who = who

    def _step(self, foreign, inside):
        rng, tr = self.rng, self.tr
        k = rng.randrange(15)
        own = rng.choice(self.spans) if self.spans else None
        # as a parent, another client's span
        parent = own
        if foreign is not None and foreign.spans and rng.random() < 0.3:
            parent = rng.choice(foreign.spans)
        if k <= 2 or own is None:
            s = tr.start_span(rng.choice(OPS), child_of=parent if k else None, tags={'k': gen.tag_value(rng)} if rng.random() < 0.5 else None, ignore_active_span=rng.random() < 0.3)
            self.spans.append(s)
            self.note('span', s.trace_id, s.span_id, s.parent_id, s.flags, dict(s.context.baggage))
        elif k == 3:
            key = 'k%d' % rng.randrange(3)
            own.set_baggage_item(key, rng.choice(['x', gen.word(rng), None]))
            self.note('baggage', dict(own.context.baggage), [s.get_baggage_item(key) for s in self.spans])
        elif k == 4:
            own.set_tag(gen.word(rng), gen.tag_value(rng))
        elif k == 5:
            own.log_kv({gen.word(rng): gen.tag_value(rng)})
        elif k == 6:
            own.set_tag('sampling.priority', rng.choice([0, 1]))
            self.note('priority', own.is_sampled(), own.is_debug())
        elif k in (7, 8):
            f = rng.choice(self.formats())
            car = bytearray() if f == J.Format.BINARY else {}
            tr.inject(parent.context, f, car)
            self.carriers.append((f, car))
            self.note('inject', f, dict(car) if isinstance(car, dict) else bytes(car)) if parent is own else None
            self.read(f, car)
        elif k == 9:
            car = {'uber-trace-id': '%x:%x:0:%x' % (gen.id64(rng), gen.id64(rng), rng.choice([0, 1, 3])), 'x-tr': '7:8:9:1', 'x-tr0': '7:8:9:1', 'x-bg-k': 'v', 'uberctx-k0': 'v', 'x-dbg': 'd', 'jaeger-debug-id': 'd',
                   'x-b3-traceid': '%016x' % gen.id64(rng), 'x-b3-spanid': '%016x' % gen.id64(rng), 'x-b3-sampled': '1', 'jaeger-baggage': 'a=b'}
            for x in rng.sample(sorted(car), rng.randint(0, len(car) - 1)):
                del car[x]
            self.read(J.Format.TEXT_MAP, car)
        elif k == 10:
            with tr.start_active_span(rng.choice(OPS)) as sc:
                s = tr.start_span('in')
                self.note('active', s.parent_id == sc.span.span_id, tr.active_span is sc.span, s.flags)
                if inside is not None:
                    inside()
                self.note('still active', tr.active_span is sc.span)
                s.finish()
        elif k in (11, 12):
            # a scope that stays open while the others go on
            if self.scope is None:
                self.scope = tr.start_active_span(rng.choice(OPS))
            else:
                self.note('left', tr.active_span is self.scope.span)
                self.scope.close()
                self.scope = None
            self.note('scope', tr.active_span is (self.scope and self.scope.span))
        else:
            own.finish()
            self.spans.remove(own)
            self.note('finished', own.finished, own.flags)
        if foreign is not None and foreign.carriers and rng.random() < 0.3:
            f, car = rng.choice(foreign.carriers)
            if f in self.formats():
                self.read(f, car)

    def read(self, f, car):
        try:
            c = self.tr.extract(f, car)
        except J.SpanContextCorruptedException:
            self.note('corrupted')
            return
        self.note('extract', c and (c.trace_id, c.span_id, c.parent_id, c.flags, dict(c.baggage), c.debug_id))
        if c is not None and (c.trace_id is None or c.flags is not None):
            s = self.tr.start_span(self.rng.choice(OPS), child_of=c, tags={'span.kind': self.rng.choice(['server', 'client'])})
            self.spans.append(s)
            self.note('child', s.trace_id, s.parent_id, s.flags, dict(s.context.baggage))


def clean(v):
    """Times to the tenth of a millisecond (the virtual clock is advanced in other portions when there are others)."""
    if isinstance(v, dict):
        return {k: (round(x, -2) if k in ('startTime', 'duration', 'timestamp') and isinstance(x, int) else clean(x)) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [clean(x) for x in v]
    return v


def plan(rng):
    n = rng.choice([1, 1, 2])
    shared = rng.random() < 0.4
    cfgs = [configuration(rng, i) for i in range(n + 1)]
    if shared:
        # one dictionary for all, told apart by the name of the service only
        cfgs = [cfgs[0]] * (n + 1)
    return {
        'cfgs': cfgs, 'shared': shared, 'seeds': [rng.getrandbits(32) for _ in cfgs], 'first': rng.random() < 0.5, 'steps': rng.randint(10, 60),
        'waits': [rng.choice([0, 0, 0.01, 0.31, 1.23]) for _ in range(60)], 'answers': [responses(rng) for _ in cfgs],
        'others': [[rng.choice([0, 1, 1, 2]) for _ in range(60)] for _ in cfgs], 'closes': [rng.choice([None, None, rng.randrange(60)]) for _ in cfgs],
        'fails': [rng.choice([0, 0, 0.3, 1]) for _ in cfgs], 'crossing': rng.random() < 0.6, 'late': rng.random() < 0.3,
    }


def run(p, beside):
    """Runs the program of client 0, with or without the others; returns what it did, in one structure."""
    cfgs = json.loads(json.dumps(p['cfgs'])) if not p['shared'] else [json.loads(json.dumps(p['cfgs'][0]))] * len(p['cfgs'])
    frng = [random.Random(s) for s in p['seeds']]
    asked = {}

    def fault(data, dest):
        i = dest[1] - 7000
        if p['shared']:
            return None
        return OSError(111, 'no') if frng[i].random() < p['fails'][i] else None

    with Draws() as draws, World() as w, Tap(fault=fault) as tp:
        t0 = w.clock.mono

        def respond(path, q):
            port = http.reqs[-1][2]
            i, kind = port % 100, path
            if p['shared']:
                # the service tells the clients apart
                i = int(dict(q)['service'][3:])
            n = asked[(i, kind)] = asked.get((i, kind), -1) + 1
            a = p['answers'][i][path != '/sampling']
            a = a[n % len(a)]
            if isinstance(a, Exception):
                raise a
            return a
        with Http(w, respond) as http:
            others = []

            def build(i):
                c = Client(i, p['seeds'][i], cfgs[i], draws, w)
                w.run_for(0.37)
                return c

            def build_others():
                for i in range(1, len(cfgs)):
                    if beside:
                        others.append(build(i))
                    else:
                        w.run_for(0.37)
            if not p['first']:
                build_others()
            me = build(0)
            if p['first'] and not p['late']:
                build_others()
            for k in range(p['steps']):
                if p['first'] and p['late'] and k == p['steps'] // 2:
                    build_others()

                def rest():
                    for o in others:
                        for _ in range(p['others'][o.i][k]):
                            if not o.closed:
                                o.step(me if p['crossing'] else None)
                me.step(inside=rest)
                rest()
                for o in others:
                    if p['closes'][o.i] == k:
                        o.closed = True
                        o.tr.close()
                w.run_for(p['waits'][k])
            for s in me.spans:
                s.finish()
            if me.scope is not None:
                me.scope.close()
            f = me.tr.close()
            w.run_for(9)
            me.note('closed', f.done())
        batches = []
        for _, data, dest, _ in tp.sent:
            b = wire.decode(data)
            name = b['process']['serviceName']
            if dest[1] == me.cfg['local_agent']['reporting_port'] and (not p['shared'] or name == 'svc0'):
                batches.append(clean(b))
        reqs = [(round(t - t0, 3), h, port, path, sorted(q)) for t, h, port, path, q in http.reqs
                if (port % 100 == 0 if not p['shared'] else dict(q).get('service') == 'svc0')]
    return {'calls': me.out, 'batches': batches, 'requests': reqs, 'metrics': me.metrics}, sum(len(o.out) for o in others), len(tp.sent) - len(batches)


def beside(ctx):
    p = plan(ctx.rng)
    alone, _, _ = apart(run, p, False)
    both, foreign, sent = apart(run, p, True)
    ctx.notes.update(configurations=p['cfgs'] if not p['shared'] else p['cfgs'][:1], shared_dictionary=p['shared'])
    for what in ('calls', 'batches', 'requests', 'metrics'):
        if alone[what] != both[what]:
            again, _, _ = apart(run, p, False)
            if again != alone:
                raise Inconclusive('a client alone does not behave the same twice')
            x, y = alone[what], both[what]
            if isinstance(x, list):
                i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                d = (x[max(0, i - 2):i + 2], y[max(0, i - 2):i + 2])
            else:
                d = ({k: v for k, v in x.items() if y.get(k) != v}, {k: v for k, v in y.items() if x.get(k) != v})
            ctx.fail('affected', 'the %s of a client differ when other clients are in the process' % what, alone=repr(d[0])[:1500], beside=repr(d[1])[:1500])
    ctx.event(len(alone['calls']))
    ctx.count('batches', len(alone['batches']))
    ctx.count('requests', len(alone['requests']))
    ctx.count('foreign_calls', foreign)
    ctx.count('foreign_batches', sent)
    ctx.count('crossing', p['crossing'])
    ctx.key(json.dumps(p['cfgs'][0], sort_keys=True), len(alone['calls']), len(p['cfgs']))
    ctx.sample({'calls': len(alone['calls']), 'batches': len(alone['batches']), 'others': len(p['cfgs']) - 1, 'foreign calls': foreign})


SCENARIOS = [
    Scenario('beside', beside, 300, 10000, need=('events', 'batches', 'requests', 'foreign_calls', 'foreign_batches', 'crossing')),
]
