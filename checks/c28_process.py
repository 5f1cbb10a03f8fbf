"""C28: the client in the life of a process: importing is inert, workers forked before initialisation work, exiting never hangs."""
import json
import os
import pkgutil
import select
import signal
import socket
import subprocess
import sys
import tempfile
import threading

from jv import core, tap, wire
from jv.runner import Inconclusive, Scenario

ID = 'C28'
RULE = ('real processes: every module imported in a fresh interpreter; a parent that has done this or that forks up to five workers which initialise, trace from several threads, close and exit at one moment; '
        'applications that end in every way (return, exit status, exception, hard exit) with and without closing, on a loop of their own or not, with live, silent, refusing and babbling agents; '
        'spans received by a stand-in agent on loopback sockets; distinct by plan')
ASSUMPTIONS = ['loopback datagrams are not lost', 'the tracer is initialised after forking, as the documentation says']

PROG = os.path.join(core.VERIF, 'jv', 'lifeprog.py')


class Agent(object):
    """A stand-in agent on real sockets; mode: alive, silent (accepts and never answers), refusing, babbling."""

    def __init__(self, mode):
        self.mode = mode
        self.data = []
        self.udp = tap._RealSocket(socket.AF_INET, socket.SOCK_DGRAM)
        self.udp.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 22)
        self.udp.bind(('127.0.0.1', 0))
        self.udp_port = self.udp.getsockname()[1]
        self.tcp = tap._RealSocket(socket.AF_INET, socket.SOCK_STREAM)
        self.tcp.bind(('127.0.0.1', 0))
        self.tcp_port = self.tcp.getsockname()[1]
        if mode != 'refusing':
            self.tcp.listen(64)
        self.requests = 0
        self.conns = []
        self.stop = False
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()

    def run(self):
        socks = [self.udp] + ([self.tcp] if self.mode != 'refusing' else [])
        while not self.stop:
            r, _, _ = select.select(socks + self.conns, [], [], 0.02)
            for s in r:
                try:
                    if s is self.udp:
                        self.data.append(s.recv(70000))
                    elif s is self.tcp:
                        self.conns.append(s.accept()[0])
                    else:
                        self.answer(s)
                except OSError:
                    if s in self.conns:
                        self.conns.remove(s)

    def answer(self, s):
        q = s.recv(70000)
        if not q:
            self.conns.remove(s)
            s.close()
            return
        self.requests += 1
        if self.mode == 'silent':
            return
        if self.mode == 'babbling':
            s.sendall(b'\x00\xff not HTTP at all\r\n\r\n' * 3)
        else:
            body = json.dumps({'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': 1.0}} if b'/sampling' in q.split(b'\r\n')[0] else
                              {'balances': [{'operation': 'op', 'balance': 1}]}).encode()
            s.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n' % len(body) + body)
        self.conns.remove(s)
        s.close()

    def close(self):
        # everything that is still in the buffers
        self.stop = True
        self.thread.join()
        self.udp.setblocking(False)
        try:
            while True:
                self.data.append(self.udp.recv(70000))
        except OSError:
            pass
        for s in self.conns + [self.udp, self.tcp]:
            s.close()


class Run(object):
    """One process: what it said, how it ended and when."""

    def __init__(self, plan, limit=25.0):
        with tempfile.TemporaryFile() as err:
            r, w = os.pipe()
            t0 = core.real_monotonic()
            env = {k: v for k, v in os.environ.items() if not k.startswith(('JAEGER_', 'JV_', 'PYTHON'))}
            dup = 'import os,sys; os.dup2(%d, 3); os.set_inheritable(3, True); os.execv(sys.executable, [sys.executable, "-B"] + sys.argv[1:])' % w
            p = subprocess.Popen([sys.executable, '-B', '-S', '-c', dup, PROG, core.REPO, json.dumps(plan)], pass_fds=(w,), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                 stderr=err, env=env, start_new_session=True)
            os.close(w)
            self.hung = False
            buf = b''
            self.ended = None
            self.late = 0.0
            try:
                while True:
                    left = t0 + limit - core.real_monotonic()
                    if left <= 0:
                        self.hung = True
                        break
                    x, _, _ = select.select([r], [], [], min(left, 0.2))
                    if x:
                        d = os.read(r, 65536)
                        if not d:
                            break
                        buf += d
                        if self.ended is None and b'"end"' in buf:
                            self.ended = core.real_monotonic()
                    if p.poll() is not None and not x:
                        break
                if not self.hung:
                    try:
                        p.wait(max(1.0, t0 + limit - core.real_monotonic()))
                    except subprocess.TimeoutExpired:
                        self.hung = True
                if self.ended is not None:
                    self.late = core.real_monotonic() - self.ended
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                os.close(r)
            self.code = p.returncode
            err.seek(0)
            self.err = err.read().decode('utf-8', 'replace')
        self.said = [json.loads(x) for x in buf.decode().splitlines() if x]

    def of(self, kind):
        return [x for x in self.said if x['kind'] == kind]


def configuration(rng, ag, remote):
    c = {'local_agent': {'reporting_host': '127.0.0.1', 'reporting_port': ag.udp_port, 'sampling_port': ag.tcp_port}, 'logging': rng.random() < 0.3, 'reporter_flush_interval': rng.choice([0.05, 1, 20]),
         'reporter_batch_size': rng.choice([1, 3, 10]), 'reporter_queue_size': 2000, 'generate_128bit_trace_id': rng.random() < 0.5, 'sampling_refresh_interval': rng.choice([0.1, 1, 60])}
    if not remote:
        c['sampler'] = {'type': 'const', 'param': 1}
    if rng.random() < 0.4:
        c['throttler'] = {'port': ag.tcp_port, 'refresh_interval': rng.choice([1, 60])}
    return c


def received(ctx, data):
    """{(who, serial): (trace id, span id)} of the datagrams; each at most once."""
    out = {}
    for d in data:
        b = wire.decode(d)
        for s in b['spans']:
            t = {k: v for k, _, v in wire.tag_list(s['tags'] or [])}
            if 'serial' not in t:
                continue
            k = (t['who'], t['serial'])
            ctx.check(k not in out, 'delivered-twice', 'span %s was received twice' % (k,))
            ctx.check(b['process']['serviceName'] == k[0], 'wrong-process', 'a span of %s came in a batch of %s' % (k[0], b['process']['serviceName']))
            out[k] = s
    return out


def noise(run, own=''):
    """Lines on the standard error that tell of something gone wrong."""
    bad = ('Traceback', 'Exception ignored', 'Fatal Python', 'never retrieved', 'never awaited', 'Exception in', 'was destroyed', 'Error in', 'Segmentation', 'Error:')
    lines = [x for x in run.err.splitlines() if any(b in x for b in bad)]
    return lines


def finish(ctx, plan, ag, run, want):
    """Waits until everything wanted has arrived (or a while), and closes the agent."""
    end = core.real_monotonic() + 5
    while core.real_monotonic() < end:
        n = sum(1 for d in list(ag.data) for s in wire.decode(d)['spans'] if any(k == 'serial' for k, _, _ in wire.tag_list(s['tags'] or [])))
        if n >= want:
            break
        core.real_sleep(0.02)
    ag.close()


def fork(ctx):
    rng = ctx.rng
    ag = Agent(rng.choice(['alive', 'alive', 'silent', 'refusing']))
    try:
        def one():
            return {'how': rng.choice(['initialize', 'initialize', 'new']), 'spans': rng.choice([1, 7, 40]), 'threads': rng.choice([1, 1, 3]), 'unfinished': rng.choice([0, 0, 2]), 'exit': rng.choice(['hard', 'soft'])}
        plan = {'main': 'fork', 'config': configuration(rng, ag, False), 'before': rng.sample(['config', 'asked', 'memory', 'random', 'codecs', 'thread', 'modules', 'errors', 'client', 'closed client'], rng.randint(0, 5)),
                'workers': [one() for _ in range(rng.choice([2, 2, 3, 5]))], 'parent': one() if rng.random() < 0.3 else None}
        ctx.notes.update(plan=plan)
        run = Run(plan)
        total = sum(w['spans'] for w in plan['workers']) + (plan['parent'] or {'spans': 0})['spans']
        finish(ctx, plan, ag, run, total)
    finally:
        if not ag.stop:
            ag.close()
    w = dict(stderr=run.err[-1500:])
    names = ['w%d' % k for k in range(len(plan['workers']))] + (['w99'] if plan['parent'] else [])
    closed = {x['who']: x['done'] for x in run.of('closed')}
    for x in run.of('raised'):
        ctx.fail('worker-failed', 'worker %s raised %s' % (x['who'], x['error']), **w)
    ctx.check(not run.hung, 'hung', 'the processes did not end: %s closed, %s ended' % (sorted(closed), sorted(x['who'] for x in run.of('exit'))), **w)
    for x in run.of('exit'):
        ctx.check(x['status'] == 0, 'exit-status', 'worker %s ended with status %s' % (x['who'], x['status']), **w)
    ctx.check(run.code == 0, 'exit-status', 'the parent ended with status %s' % run.code, **w)
    for n in names:
        ctx.check(closed.get(n), 'close', 'the tracer of %s was not closed in 15 s' % n, **w)
    ctx.check(not noise(run), 'noise', 'the processes complain: %r' % noise(run)[:3], **w)
    got = received(ctx, ag.data)
    ids, traces = {}, {}
    for x in run.of('span'):
        k = (x['who'], x['serial'])
        ctx.check(x['sampled'] and k in got, 'lost', 'span %s was finished before its tracer was closed, and not received' % (k,), **w)
        ctx.check(x['span'] not in ids and x['trace'] not in traces, 'same-ids', 'spans %s and %s of different traces have the same ids' % (k, ids.get(x['span'], traces.get(x['trace']))), **w)
        ids[x['span']] = traces[x['trace']] = k
        ctx.event()
    ctx.check(len(got) == len(ids), 'unknown', '%d spans received, %d made' % (len(got), len(ids)), **w)
    ctx.count('processes', len(names))
    ctx.count('spans', len(got))
    ctx.key(json.dumps({k: v for k, v in plan.items() if k != 'config'}, sort_keys=True))
    ctx.sample({'workers': len(plan['workers']), 'before': plan['before'], 'spans': len(got), 'agent': ag.mode})


def leave(ctx):
    rng = ctx.rng
    ag = Agent(rng.choice(['alive', 'silent', 'refusing', 'babbling']))
    try:
        plan = {'main': 'exit', 'config': configuration(rng, ag, rng.random() < 0.6), 'global': rng.random() < 0.5, 'own_loop': rng.random() < 0.25, 'spans': rng.choice([0, 1, 5, 60]), 'threads': rng.choice([1, 3]),
                'unfinished': rng.choice([0, 2]), 'scope': rng.random() < 0.3, 'pause': rng.choice([0, 0, 0.02, 0.3]), 'close': rng.choice([None, 'wait', 'wait', 'close', 'twice', 'thread']),
                'ending': rng.choice(['return', 'return', 'exit', 'exit', 'raise', 'hard']), 'code': rng.choice([0, 3, 77])}
        ctx.notes.update(plan=plan, agent=ag.mode)
        run = Run(plan)
        waits = plan['close'] in ('wait', 'twice') and not (plan['own_loop'] and plan['close'] != 'wait')
        sampled = [x for x in run.of('span') if x['sampled']]
        finish(ctx, plan, ag, run, len(sampled) if waits and not run.hung else 0)
    finally:
        if not ag.stop:
            ag.close()
    w = dict(stderr=run.err[-1500:])
    ctx.check(run.of('end'), 'application-failed', 'the application did not come to its end%s: %r' % (' (hangs)' if run.hung else '', run.err[-300:]), **w)
    ctx.check(not run.hung, 'hung', 'the application came to its end but the process did not', **w)
    ctx.check(run.late < 10, 'slow-exit', 'the process ended %.1f s after the application' % run.late, **w)
    want = {'return': 0, 'raise': 1}.get(plan['ending'], plan['code'])
    ctx.check(run.code == want, 'exit-status', 'the process ended with status %s, not %s' % (run.code, want), **w)
    bad = noise(run)
    if plan['ending'] == 'raise':
        ctx.check("KeyError: 'the end of the application'" in run.err, 'noise', 'the exception of the application is not shown', **w)
        bad = bad[1:] if bad and bad[0].startswith('Traceback') else bad
        bad = [x for x in bad if not x.startswith("KeyError: 'the end")]
    ctx.check(not bad, 'noise', 'the process complains: %r' % bad[:3], **w)
    got = received(ctx, ag.data)
    if waits:
        ctx.check(run.of('closed')[0]['done'], 'close', 'the tracer was not closed in 15 s', **w)
        for x in sampled:
            ctx.check((x['who'], x['serial']) in got, 'lost', 'span %s was not received although the close was waited for' % x['serial'], **w)
        ctx.count('waited')
    ctx.event(1 + len(run.of('span')))
    ctx.count(ag.mode)
    ctx.count('ending_' + plan['ending'])
    ctx.count('late_ms', int(run.late * 1000))
    ctx.key(json.dumps({k: v for k, v in plan.items() if k != 'config'}, sort_keys=True), ag.mode)
    ctx.sample({'agent': ag.mode, 'ending': plan['ending'], 'close': plan['close'], 'received': len(got), 'ms': int(run.late * 1000)})


def modules():
    import jaeger_client
    out = ['jaeger_client']
    for m in pkgutil.walk_packages(jaeger_client.__path__, 'jaeger_client.'):
        out.append(m.name)
    return sorted(x for x in out if not x.endswith('-remote'))


def imports(ctx):
    rng = ctx.rng
    mods = modules()
    # what they stand on may do as it likes (tornado, thrift, prometheus_client)
    first = ['tornado.ioloop', 'tornado.httpclient', 'tornado.concurrent', 'tornado.queues', 'tornado.gen', 'tornado.locks', 'threadloop', 'thrift.Thrift', 'thrift.protocol.TCompactProtocol',
             'thrift.transport.TTransport', 'prometheus_client', 'opentracing.ext.tags', 'opentracing.scope_managers.asyncio', 'concurrent.futures', 'logging.config', 'socket']
    pick = rng.sample(mods, rng.randint(1, 4)) if rng.random() < 0.7 else mods
    run = Run({'main': 'import', 'first': first, 'modules': pick})
    ctx.notes.update(modules=pick)
    w = dict(stderr=run.err[-1500:])
    ctx.check(not run.hung, 'hung', 'importing %s does not end' % pick, **w)
    ctx.check(run.code == 0 and run.of('import'), 'import-failed', 'importing %s failed' % pick, **w)
    ch = run.of('import')[0]['changed']
    ctx.check(not ch, 'import-acts', 'importing %s changed the process: %r' % (pick, ch), **w)
    ctx.event(len(pick))
    ctx.key(tuple(pick))
    ctx.sample({'modules': pick[:4]})


SCENARIOS = [
    Scenario('fork', fork, 90, 1200, limit=95, real=True, need=('events', 'processes', 'spans')),
    Scenario('leave', leave, 160, 2000, limit=95, real=True, need=('events', 'waited', 'alive', 'silent', 'refusing', 'babbling', 'ending_return', 'ending_exit', 'ending_raise', 'ending_hard')),
    Scenario('imports', imports, 40, 150, limit=95, real=True),
]
del Inconclusive
