"""A small application of the client, run as a process of its own (checks/c28_process.py); nothing of the harness is in it.

argv: repository, plan as JSON.  Lines for the harness go to descriptor 3.
"""
import json
import os
import sys

repo, plan = sys.argv[1], json.loads(sys.argv[2])
sys.path[0] = repo
sys.dont_write_bytecode = True


def say(**kw):
    os.write(3, (json.dumps(kw) + '\n').encode())


def outside():
    """What an import must leave alone."""
    import asyncio
    import logging
    import random
    import signal
    import threading
    import warnings
    import opentracing
    return {
        'threads': sorted(t.name for t in threading.enumerate()),
        'tasks': len(os.listdir('/proc/self/task')),
        'sockets': sorted(x for x in (link(f) for f in os.listdir('/proc/self/fd')) if x and not x.startswith(('/', 'pipe:[', 'other'))),
        'children': open('/proc/self/task/%d/children' % os.getpid()).read().split() if os.path.exists('/proc/self/task/%d/children' % os.getpid()) else [],
        'tracer': type(opentracing.tracer).__module__ + '.' + type(opentracing.tracer).__name__,
        'registered': bool(opentracing.is_global_tracer_registered()),
        'handlers': [repr(type(h)) for h in logging.getLogger().handlers],
        'root level': logging.getLogger().level,
        'disabled': logging.root.manager.disable,
        'random': hash(random.getstate()),
        'signals': [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGALRM, signal.SIGCHLD, signal.SIGPIPE)],
        'excepthook': sys.excepthook is sys.__excepthook__ and threading.excepthook is threading.__excepthook__,
        'loop': asyncio._get_running_loop() is None and getattr(asyncio.get_event_loop_policy()._local, '_loop', None) is None,
        'policy': type(asyncio.get_event_loop_policy()).__name__,
        'env': sorted(os.environ.items()),
        'cwd': os.getcwd(),
        'recursion': sys.getrecursionlimit(),
        'switch': sys.getswitchinterval(),
        'filters': len([f for f in warnings.filters if f[0] == 'error']),
        'builtins': sorted(k for k in vars(__import__('builtins')) if k != '_'),
    }


def link(f):
    try:
        x = os.readlink('/proc/self/fd/' + f)
    except OSError:
        return None
    return x.split(':')[0] if x.startswith(('socket:', 'anon_inode:')) else x


def config(name):
    from jaeger_client import Config
    return Config(plan['config'], service_name=name, validate=True)


def spans(tr, who, n, threads, unfinished=0):
    import threading

    def work(k):
        for i in range(k, n, threads):
            s = tr.start_span('op', ignore_active_span=True, tags={'serial': i, 'who': who})
            say(kind='span', who=who, serial=i, trace=str(s.trace_id), span=str(s.span_id), sampled=bool(s.is_sampled()))
            s.finish()
    ts = [threading.Thread(target=work, args=(k,)) for k in range(threads)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return [tr.start_span('never finished') for _ in range(unfinished)]


def waited(f, secs=15):
    import time
    end = time.time() + secs
    while not f.done() and time.time() < end:
        time.sleep(0.005)
    return bool(f.done())


def before():
    """What the parent does before it forks."""
    out = []
    for w in plan['before']:
        if w == 'config':
            out.append(config('parent'))
        elif w == 'asked':
            from jaeger_client import Config
            Config.initialized()
        elif w == 'memory':
            from jaeger_client import Tracer, ConstSampler
            from jaeger_client.reporter import InMemoryReporter
            t = Tracer('parent', InMemoryReporter(), ConstSampler(True))
            for _ in range(3):
                t.start_span('x').finish()
            car = {}
            t.inject(t.start_span('y').context, 'text_map', car)
            t.extract('text_map', car)
            out.append(t)
        elif w in ('client', 'closed client'):
            # a client of its own, with its background thread
            tr = config('parent').new_tracer()
            tr.start_span('x').finish()
            if w == 'closed client':
                waited(tr.close())
            out.append(tr)
        elif w == 'random':
            import random
            random.seed(5)
        elif w == 'codecs':
            from jaeger_client.codecs import TextCodec, span_context_from_string
            out += [TextCodec(url_encoding=True), span_context_from_string('1:2:3:1')]
        elif w == 'thread':
            import threading
            import time
            t = threading.Thread(target=time.sleep, args=(3,), daemon=True)
            t.start()
        elif w == 'modules':
            import jaeger_client.config, jaeger_client.reporter, jaeger_client.sampler, jaeger_client.throttler, jaeger_client.local_agent_net  # noqa
        elif w == 'errors':
            from jaeger_client.metrics import Metrics
            from jaeger_client.utils import ErrorReporter
            out.append(ErrorReporter(Metrics()))
    return out


def worker(k, w):
    who = 'w%d' % k
    if w['how'] == 'initialize':
        tr = config(who).initialize_tracer()
    else:
        tr = config(who).new_tracer()
    say(kind='built', who=who, ok=tr is not None)
    held = spans(tr, who, w['spans'], w['threads'], w['unfinished'])
    f = tr.close()
    ok = waited(f)
    say(kind='closed', who=who, done=ok, held=len(held))


def main_fork():
    kept = before()
    pids = {}
    r, go = os.pipe()
    for k, w in enumerate(plan['workers']):
        pid = os.fork()
        if not pid:
            code = 70
            try:
                os.close(go)
                os.read(r, 1)           # all start at one moment
                worker(k, w)
                code = 0
            except BaseException as e:
                say(kind='raised', who='w%d' % k, error=repr(e))
            finally:
                if w['exit'] == 'hard' or code:
                    os._exit(code)
            sys.exit(0)
        pids[pid] = k
    os.close(go)
    if plan['parent']:
        worker(99, plan['parent'])
    left = dict(pids)
    while left:
        pid, st = os.wait()
        say(kind='exit', who='w%d' % left.pop(pid), status=os.waitstatus_to_exitcode(st))
    del kept


def main_exit():
    import threading
    import time
    if plan['own_loop']:
        import asyncio
        from tornado.ioloop import IOLoop

        async def app():
            tr = config('app').new_tracer(io_loop=IOLoop.current())
            spans(tr, 'app', plan['spans'], plan['threads'], plan['unfinished'])
            await asyncio.sleep(plan['pause'])
            if plan['close'] == 'wait':
                await asyncio.wait_for(asyncio.ensure_future(await_(tr.close())), 15)
                say(kind='closed', who='app', done=True)
            elif plan['close']:
                tr.close()
            end()

        async def await_(f):
            return await f

        asyncio.run(app())
        return
    tr = config('app').initialize_tracer() if plan['global'] else config('app').new_tracer()
    held = spans(tr, 'app', plan['spans'], plan['threads'], plan['unfinished'])
    scope = tr.start_active_span('open', finish_on_close=True) if plan['scope'] else None
    time.sleep(plan['pause'])
    if plan['close'] == 'wait':
        say(kind='closed', who='app', done=waited(tr.close()))
    elif plan['close'] == 'twice':
        tr.close()
        say(kind='closed', who='app', done=waited(tr.close()))
    elif plan['close'] == 'thread':
        t = threading.Thread(target=tr.close)
        t.start()
        t.join()
    elif plan['close']:
        tr.close()
    end()
    del held, scope


def end():
    say(kind='end')
    if plan['ending'] == 'exit':
        sys.exit(plan['code'])
    if plan['ending'] == 'raise':
        raise KeyError('the end of the application')
    if plan['ending'] == 'hard':
        os._exit(plan['code'])


def main_import():
    import asyncio, logging, random, signal, threading, warnings, opentracing   # noqa
    for m in plan['first']:
        __import__(m)
    a = outside()
    for m in plan['modules']:
        __import__(m)
    b = outside()
    say(kind='import', changed={k: [a[k], b[k]] for k in a if a[k] != b[k]})


if __name__ == '__main__':
    {'fork': main_fork, 'exit': main_exit, 'import': main_import}[plan['main']]()
