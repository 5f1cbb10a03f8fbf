"""C18: annotations on a live span are never lost, duplicated or misordered."""
import random

from jv import gen, sched, wire
from jv.repwork import Rig, sent_uids
from jv.runner import Scenario

ID = 'C18'
RULE = ('random programs of tags, logs, baggage, helpers, renames and priorities on several live spans, on one thread and on several under the '
        'controlled scheduler (also against finish), compared with the decoded datagrams; distinct by program and schedule')
ASSUMPTIONS = ['an annotation made while finish() is running may or may not be reported', 'the tag of a sampling priority itself is not judged',
               'explicit log timestamps are positive numbers']
KEYS = ['dup', 'dup2', 'é', 'http.url', 'uid2', '']


class Book(object):
    """What has been recorded on one span, by thread."""

    def __init__(self, span, name):
        self.span, self.name = span, name
        self.names = [name]
        self.tags = []        # (thread, start, end, key, kind, value)
        self.logs = []        # (thread, start, end, sorted fields, lo, hi)


def val(rng, n):
    """A value no other annotation of the case has, and its wire form."""
    k = rng.randrange(5)
    if k == 0:
        return n, ('i64', n)
    if k == 1:
        return n + 0.5, ('dbl', n + 0.5)
    if k == 2:
        return 'v%d%s' % (n, gen.text(rng, 0, 4).replace('\0', '')), None
    return 'v%d' % n, ('str', 'v%d' % n)


class Driver(object):
    def __init__(self, ctx, rig, books):
        self.ctx, self.rig, self.books = ctx, rig, books
        self.n = 1000
        self.seq = 0
        self.prog = []
        self.repeats = False

    def tick(self):
        self.seq += 1
        return self.seq

    def one(self, rng, tid, book):
        """One annotation by thread tid."""
        clk = self.rig.world.clock
        sp = book.span
        self.n += 1
        n = self.n
        k = rng.randrange(10)
        sampled = sp.is_sampled()
        if k < 4:
            v, w = val(rng, n)
            w = w or ('str', v)
            key = rng.choice(KEYS + ['k%d' % n])
            s = self.tick()
            sp.set_tag(key, v)
            self.prog.append(('tag', tid))
            if sampled:
                book.tags.append((tid, s, self.tick(), key, w[0], w[1]))
            return
        if k == 4:
            new = 'name%d' % n
            s = self.tick()
            sp.set_operation_name(new)
            book.names.append((tid, s, self.tick(), new))
            self.prog.append(('rename', tid))
            return
        lo = clk.wall
        s = self.tick()
        ts = None
        extra_tag = None
        if k in (5, 6, 7):
            fields = {}
            for i in range(rng.choice([0, 1, 1, 2, 4])):
                v, w = val(rng, n)
                fields['f%d' % i] = v
            fields['n'] = 'log%d' % n
            if rng.random() < 0.5:
                ts = rng.choice([1.0, 1234567890.123456, lo - 100, lo + 3.25, 7, 0.000001])
                if rng.random() < 0.5:
                    sp.log_kv(dict(fields), ts)
                else:
                    sp.log_kv(key_values=dict(fields), timestamp=ts)
            else:
                sp.log_kv(dict(fields))
        elif k == 8:
            prev = sp.get_baggage_item('b')
            # (between threads the value is what tells the logs apart)
            v = prev if self.repeats and prev and rng.random() < 0.3 else 'bag%d' % n
            sp.set_baggage_item('b', v)
            fields = {'event': 'baggage', 'key': 'b', 'value': v, '?override': prev}
        else:
            m = 'msg%d' % n
            how = rng.randrange(6)
            if how == 0:
                sp.info(m)
                fields = {'event': m}
            elif how == 1:
                sp.info(m, 'p')
                fields = {'event': m, 'payload': 'p'}
            elif how == 2:
                sp.error(m, 'p%d' % n)
                fields = {'event': m, 'payload': 'p%d' % n}
                extra_tag = ('error', 'bool', True)
            elif how == 3:
                sp.error(m)
                fields = {'event': m}
                extra_tag = ('error', 'bool', True)
            elif how == 4:
                sp.log_event(m, 'p')
                fields = {'event': m, 'payload': 'p'}
            else:
                ts = lo - 7
                sp.log(event=m, payload='p', timestamp=ts)
                fields = {'event': m, 'payload': 'p'}
        e = self.tick()
        self.prog.append(('log', tid))
        if sampled:
            if extra_tag:
                book.tags.append((tid, s, e) + extra_tag)
            book.logs.append((tid, s, e, fields, ts if ts is not None else lo, ts if ts is not None else clk.wall))


def fields_of(log):
    return {k: (kind, v) for k, kind, v in wire.tag_list(log['fields'])}


def same_fields(want, got):
    want = dict(want)
    over = want.pop('?override', 'none')
    got = dict(got)
    if over != 'none':
        o = got.pop('override', None)
        if over == 'any':
            if o not in (None, ('str', 'true')):
                return False
        elif (o == ('str', 'true')) != bool(over):
            return False
    if set(want) != set(got):
        return False
    for k, v in want.items():
        kind = 'str' if isinstance(v, str) else 'dbl' if isinstance(v, float) else 'i64'
        if got[k] != (kind, v):
            return False
    return True


OWN = {'sampler.type', 'sampler.param', 'sampling.priority', 'uid', 'init'}


def subsequence(ctx, book, what, want, got, eq, fin, w):
    """want: [(tid, start, end, ...)]; each that ended before fin exactly once, others at most once, order kept per thread."""
    used = [None] * len(got)
    pos = {}
    for i, a in enumerate(want):
        # an error tag has no unique value: take the first unused match after the thread's last one
        lo = pos.get(a[0], -1) + 1
        j = next((x for x in range(lo, len(got)) if used[x] is None and eq(a, got[x])), None)
        if j is None:
            anywhere = [x for x in range(len(got)) if used[x] is None and eq(a, got[x])]
            if anywhere:
                ctx.fail('misordered', '%s of %s by thread %d are not in the order recorded' % (what, book.name, a[0]), annotation=repr(a), **w)
            if a[2] < fin:
                ctx.fail('lost', 'a %s of %s was lost' % (what, book.name), annotation=repr(a), **w)
            continue
        used[j] = i
        pos[a[0]] = j
    for x, u in enumerate(used):
        if u is None:
            dup = any(eq(a, got[x]) for a in want)
            ctx.fail('duplicated' if dup else 'foreign', 'an unexpected %s in %s' % (what, book.name), annotation=repr(got[x]), **w)


def compare(ctx, book, span, fin=1 << 60, schedule=None):
    tags = [t for t in wire.tag_list(span['tags']) if t[0] not in OWN]
    logs = span['logs'] or []
    w = dict(schedule=(schedule or [])[:300])
    subsequence(ctx, book, 'tag', book.tags, tags, lambda a, g: tuple(a[3:]) == tuple(g), fin, w)

    def eq(a, g):
        if not same_fields(a[3], fields_of(g)):
            return False
        t = g['timestamp']
        ctx.check(int(a[4] * 1e6) - 2 <= t <= a[5] * 1e6 + 2, 'timestamp', 'a log made between %.6f and %.6f s has timestamp %d us' % (a[4], a[5], t), **w)
        return True
    subsequence(ctx, book, 'log', book.logs, logs, eq, fin, w)
    last = {}
    for nm in book.names[1:]:
        last[nm[0]] = nm[3]
    ok = set(last.values()) or {book.names[0]}
    if fin < 1 << 60:
        ok = {book.names[0]} | {nm[3] for nm in book.names[1:]}
    ctx.check(span['operationName'] in ok, 'rename', 'the span is named %r, last names given were %r' % (span['operationName'], sorted(ok)), **w)


def collect(ctx, rig):
    rig.world.run_for(3)
    got = {}
    for _, us, b in sent_uids(ctx, rig.tap):
        for u, s in zip(us, b['spans']):
            ctx.check(u not in got, 'sent-twice', 'span %r was sent twice' % u)
            got[u] = s
    return got


def programs(ctx):
    rng = ctx.rng
    with Rig(ctx, plain=True, queue_capacity=50, batch_size=rng.choice([1, 3, 10]), flush_interval=0.05, perm=None) as rig:
        books = {}
        for _ in range(rng.randint(1, 4)):
            uid, sp = rig.span()
            books[uid] = Book(sp, 'op%d' % uid)
        d = Driver(ctx, rig, books)
        d.repeats = True
        ctx.notes.update(program=d.prog)
        for _ in range(rng.randint(3, 60)):
            uid = rng.choice(sorted(books))
            b = books[uid]
            if rng.random() < 0.1:
                # off or on: what is recorded while off has no effect
                b.span.set_tag('sampling.priority', rng.choice([0, 1]))
                d.prog.append(('priority', b.span.is_sampled()))
                ctx.count('switched')
            d.one(rng, 0, b)
            if rng.random() < 0.3:
                rig.world.clock.advance(rng.choice([0.000001, 0.01, 2]))
            ctx.event()
        reported = []
        for uid, b in books.items():
            if b.span.is_sampled() or rng.random() < 0.7:
                if not b.span.is_sampled():
                    b.span.set_tag('sampling.priority', 1)
                rig.finish(uid, b.span)
                reported.append(uid)
            else:
                b.span.finish()
                # nothing annotated afterwards makes it appear
                b.span.set_tag('late', 1)
                ctx.count('unsampled')
        got = collect(ctx, rig)
        ctx.check(set(got) == set(reported), 'span-lost', 'spans %r reported, expected %r' % (sorted(got), reported))
        for uid in reported:
            compare(ctx, books[uid], got[uid])
            ctx.count('compared', len(books[uid].tags) + len(books[uid].logs))
        ctx.key(tuple(d.prog), rig.batch)
        ctx.sample({'spans': len(books), 'annotations': len(d.prog)})


def unsampled(ctx):
    """Annotating an unsampled span leaves nothing on it, and does not fail."""
    from jv.world import J, RecReporter
    rng = ctx.rng
    rep = RecReporter()
    tr = J.Tracer('svc', rep, J.ConstSampler(False))
    sp = tr.start_span('op', ignore_active_span=True, tags={'a': 1})
    for i in range(rng.randint(1, 10)):
        k = rng.randrange(5)
        if k == 0:
            sp.set_tag(gen.key(rng), gen.tag_value(rng))
        elif k == 1:
            sp.log_kv({gen.word(rng): gen.tag_value(rng)})
        elif k == 2:
            sp.set_baggage_item('k', 'v')
        elif k == 3:
            sp.error('m', 'p')
        else:
            sp.log_event('e')
        ctx.event()
    ctx.check(not sp.is_sampled(), 'sampled-by-annotation', 'annotating an unsampled span sampled it')
    sp.finish()
    ctx.check(not rep.spans, 'sampled-by-annotation', 'an unsampled span was reported')
    sp.set_tag('sampling.priority', 1)
    sp.set_tag('seen', 1)
    got = [t.key for t in sp.tags]
    ctx.check(set(got) <= {'sampling.priority', 'seen'} and not sp.logs, 'recorded-unsampled', 'annotations of the time the span was unsampled: %r, %d logs' % (got, len(sp.logs)))
    ctx.key(rng.random())
    ctx.sample({'tags': got})


def race(ctx):
    """Threads annotate the same spans; afterwards they are finished and compared."""
    rng = ctx.rng
    with Rig(ctx, plain=True, queue_capacity=50, batch_size=rng.choice([1, 5]), flush_interval=0.05) as rig:
        books = {}
        for _ in range(rng.choice([1, 1, 2])):
            uid, sp = rig.span()
            books[uid] = Book(sp, 'op%d' % uid)
        d = Driver(ctx, rig, books)
        # a name is taken under a lock of its own: the driver's own counters are safe, only one thread runs at a time
        mids = sorted(books)

        def worker(tid, r):
            def f():
                for _ in range(r.randint(2, 5)):
                    d.one(r, tid, books[r.choice(mids)])
            return f
        n = rng.choice([2, 2, 3])
        fns = [worker(t, random.Random(rng.getrandbits(64))) for t in range(n)]
        concurrent_finish = rng.random() < 0.4
        fin = {}
        if concurrent_finish:
            def finisher():
                for uid in mids:
                    fin[uid] = d.tick()
                    rig.finish(uid, books[uid].span)
            fns.append(finisher)
        sc = sched.Scheduler(rng)
        sc.run(fns)
        p = sc.raise_problems()
        if p:
            ctx.fail(p[0], p[1], schedule=sc.schedule[:400])
        for t in sc.threads:
            if t.exc is not None:
                raise t.exc
        for b in books.values():
            # concurrent baggage: whether another value was overridden depends on the order
            for i, l in enumerate(b.logs):
                if '?override' in l[3]:
                    b.logs[i] = l[:3] + (dict(l[3], **{'?override': 'any'}),) + l[4:]
        if not concurrent_finish:
            for uid in mids:
                rig.finish(uid, books[uid].span)
        got = collect(ctx, rig)
        ctx.check(set(got) == set(mids), 'span-lost', 'spans %r reported, expected %r' % (sorted(got), mids), schedule=sc.schedule[:300])
        for uid in mids:
            compare(ctx, books[uid], got[uid], fin.get(uid, 1 << 60), sc.schedule)
            ctx.count('compared', len(books[uid].tags) + len(books[uid].logs))
        ctx.event(len(d.prog))
        ctx.count('switches', sc.switches)
        if concurrent_finish:
            ctx.count('against_finish')
        ctx.key(tuple(sc.schedule), tuple(d.prog))
        ctx.sample({'threads': n, 'annotations': len(d.prog), 'switches': sc.switches, 'finish_concurrently': concurrent_finish})


def free_threads(ctx):
    """Really parallel threads, many annotations."""
    import sys
    import threading
    rng = ctx.rng
    with Rig(ctx, plain=True, queue_capacity=50, batch_size=1, flush_interval=0.05) as rig:
        uid, sp = rig.span()
        n, m = 4, 60
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            def f(t):
                for i in range(m):
                    if i % 2:
                        sp.set_tag('t%d' % t, i)
                    else:
                        sp.log_kv({'t': t, 'i': i})
            ts = [threading.Thread(target=f, args=(t,)) for t in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        rig.finish(uid, sp)
        got = collect(ctx, rig)
        ctx.check(uid in got, 'span-lost', 'the span was not sent')
        for t in range(n):
            tags = [v for k, _, v in wire.tag_list(got[uid]['tags']) if k == 't%d' % t]
            logs = [fields_of(l)['i'][1] for l in got[uid]['logs'] if fields_of(l)['t'][1] == t]
            for what, have, want in (('tag', tags, [i for i in range(m) if i % 2]), ('log', logs, [i for i in range(m) if i % 2 == 0])):
                ctx.check(have == want, 'lost' if set(have) < set(want) else 'misordered', 'thread %d recorded %d %ss, %d reported' % (t, len(want), what, len(have)))
        ctx.event(n * m)
        ctx.key(rng.random())
        ctx.sample({'threads': n, 'annotations': n * m})


def kinds(ctx):
    """is_rpc and is_rpc_client follow the span.kind recorded on the span."""
    rng = ctx.rng
    with Rig(ctx) as rig:
        for _ in range(8):
            kind = rng.choice(['client', 'server', 'producer', 'consumer', 'CLIENT', '', 'c', None])
            extra = {rng.choice(['kind', 'span', 'Span.Kind', 'span.kind2', 'component']): rng.choice(['client', 'server'])} if rng.random() < 0.6 else {}
            tags = dict(extra)
            at_start = rng.random() < 0.5
            if at_start and kind is not None:
                tags['span.kind'] = kind
            items = list(tags.items())
            rng.shuffle(items)
            sp = rig.tracer.start_span('op', tags=dict(items), ignore_active_span=True)
            if not at_start and kind is not None:
                sp.set_tag('span.kind', kind)
            if rng.random() < 0.5:
                sp.set_tag('peer.kind', 'client')
            ctx.notes.update(kind=kind, tags=dict(items), at_start=at_start)
            got = (sp.is_rpc(), sp.is_rpc_client())
            want = (kind in ('client', 'server'), kind == 'client')
            ctx.check(got == want, 'rpc-kind', 'span.kind %r: is_rpc, is_rpc_client = %r' % (kind, got))
            ctx.event()
            ctx.count('rpc' if want[0] else 'other')
            ctx.key(kind, at_start, repr(items))
        ctx.sample({'kind': kind, 'is_rpc/is_rpc_client': got})


SCENARIOS = [
    Scenario('programs', programs, 500, 15000, need=('events', 'compared', 'switched', 'unsampled')),
    Scenario('unsampled', unsampled, 200, 3000),
    Scenario('race', race, 500, 20000, need=('events', 'switches', 'compared', 'against_finish')),
    Scenario('kinds', kinds, 100, 1500, need=('events', 'rpc', 'other')),
    Scenario('free_threads', free_threads, 24, 500, real=True),
]
