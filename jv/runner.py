"""Case runner: workers, budgets, watchdog, verdicts, replay files, evidence."""
import argparse
import faulthandler
import hashlib
import importlib
import json
import os
import random
import re
import resource
import signal
import subprocess
import sys
import tempfile
import traceback

from . import core

_Random = random.Random

KNOWN_FILE = os.path.join(core.VERIF, 'KNOWN_FINDINGS')


class Violation(Exception):
    def __init__(self, mechanism, message, witness=None):
        Exception.__init__(self, '%s: %s' % (mechanism, message))
        self.mechanism = mechanism
        self.message = message
        self.witness = witness or {}


class Inconclusive(Exception):
    pass


class Scenario(object):
    def __init__(self, name, fn, quick, thorough, limit=60.0, need=('events',), real=False):
        self.name = name
        self.real = real      # depends on real time or free-running threads: a violation must come back to count
        self.fn = fn
        self.quick = quick if real else 3 * quick
        self.thorough = thorough
        self.limit = limit
        self.need = need      # counters that must be non-zero for the run to count


class Ctx(object):
    """What a case sees: its RNG, counters, and the way to report."""

    def __init__(self, rng, tier, prop):
        self.rng = rng
        self.tier = tier
        self.prop = prop
        self.counters = {}
        self.keys = []
        self.samples = []
        self.known = []
        self.notes = {}
        self.first = None       # a violation found inside a callback may be swallowed by the code under test

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def event(self, n=1):
        self.count('events', n)

    def key(self, *k):
        """Mark this case non-trivial with a distinctness key."""
        self.keys.append(hashlib.blake2b(repr(k).encode('utf-8', 'backslashreplace'), digest_size=8).hexdigest())

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def fail(self, mechanism, message, **witness):
        w = dict(self.notes)
        w.update(witness)
        if mechanism in KNOWN.get(self.prop, {}):
            self.known.append(mechanism)
            return
        v = Violation(mechanism, message, w)
        if self.first is None:
            self.first = v
        raise v

    def check(self, cond, mechanism, message, **witness):
        if not cond:
            self.fail(mechanism, message, **witness)


KNOWN = {}


def load_known():
    """Lines 'known: property=Cxx key=<mechanism> <text>' suppress that mechanism only; 'fixed:' lines suppress nothing."""
    KNOWN.clear()
    try:
        with open(KNOWN_FILE) as f:
            for line in f:
                m = re.match(r'known: property=(\w+) key=(\S+) (.*)', line.strip())
                if m:
                    KNOWN.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass


def plan(check, tier):
    cases = []
    for s in check.SCENARIOS:
        n = s.quick if tier == 'quick' else s.thorough
        n = max(8, int(n * float(os.environ.get('JV_SCALE') or 1)))
        for i in range(n):
            cases.append(((i + 0.5) / n, s.name, i))
    cases.sort()
    return [(s, i) for _, s, i in cases]


def case_rng(seed, prop, scenario, idx):
    return _Random('%s/%s/%s/%s' % (seed, prop, scenario, idx))


_seeder = [_Random(0)]


class JvRandom(_Random):
    """random.Random whose unseeded instances are reproducible per case."""

    def __init__(self, x=None):
        if x is None:
            x = _seeder[0].getrandbits(64)
        _Random.__init__(self, x)


def install_random():
    random.Random = JvRandom
    real_getpid = os.getpid

    def getpid():
        if core.is_sut_file(sys._getframe(1).f_code.co_filename):
            return 4242
        return real_getpid()
    os.getpid = getpid


def run_case(check, scen, idx, seed, tier):
    """Run one case; a violation seen while the machine starved a controlled thread counts only if it comes back."""
    from . import sched
    n = sched.EXT[0]
    ctx, viol, err = run_case_once(check, scen, idx, seed, tier)
    if viol and scen.real:
        for _ in range(6):
            ctx, again, err = run_case_once(check, scen, idx, seed, tier)
            if again:
                return ctx, again, None
        return ctx, None, 'inconclusive: %s (%s), not reproduced' % (viol['mechanism'], viol['message'][:200])
    if viol and sched.EXT[0] != n:
        confirmed = 0
        for _ in range(3):
            n = sched.EXT[0]
            ctx, again, err = run_case_once(check, scen, idx, seed, tier)
            if again and sched.EXT[0] == n:
                return ctx, again, err
            confirmed += bool(again)
        if confirmed == 3:
            return ctx, viol, None
        return ctx, None, 'inconclusive: %s while threads were starved, not reproduced' % viol['mechanism']
    return ctx, viol, err


def run_case_once(check, scen, idx, seed, tier):
    """Run one case; returns (ctx, violation dict or None, error or None)."""
    rng = case_rng(seed, check.ID, scen.name, idx)
    ctx = Ctx(rng, tier, check.ID)
    ctx.index = idx
    _seeder[0] = _Random(rng.getrandbits(64))
    random.seed(rng.getrandbits(64))
    viol = None
    err = None
    try:
        scen.fn(ctx)
    except Violation as v:
        viol = {'mechanism': v.mechanism, 'message': v.message, 'witness': v.witness}
    except Inconclusive as e:
        err = 'inconclusive: %s' % e
    except core.DeadlockError as e:
        viol = {'mechanism': 'deadlock', 'message': str(e),
                'witness': {'stack': traceback.format_exc().splitlines()[-12:]}}
    except Exception as e:
        frames = core.sut_frames(e.__traceback__)
        tbt = traceback.format_exc().splitlines()
        if not frames and isinstance(e, (OSError, MemoryError)):
            err = 'environment: %r' % e
        elif frames:
            viol = {'mechanism': 'unexpected-exception', 'message': 'the code under test raised %r' % e,
                    'witness': {'frames': frames, 'traceback': tbt[-25:]}}
        else:
            # the oracle met a result of a shape that no correct run produces
            viol = {'mechanism': 'malformed-result', 'message': 'observation cannot be interpreted: %r' % e,
                    'witness': {'traceback': tbt[-25:]}}
    finally:
        if ctx.first is not None:
            viol = {'mechanism': ctx.first.mechanism, 'message': ctx.first.message, 'witness': ctx.first.witness}
            err = None
        core.set_clock(None)
        core.SCHED[0] = None
        from . import tap
        tap.TAP[0] = None
    return ctx, viol, err


def quiet_logging():
    import logging
    root = logging.getLogger()
    root.handlers = [logging.NullHandler()]
    logging.lastResort = None


def worker_main(a):
    faulthandler.register(signal.SIGUSR1, file=open(a.out + '.dump', 'w'), all_threads=True)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    load_known()
    core.bootstrap()
    install_random()
    quiet_logging()
    check = importlib.import_module('checks.' + check_module(a.prop))
    by_name = {s.name: s for s in check.SCENARIOS}
    if a.case:
        name, idx = a.case.rsplit(':', 1)
        cases = [(name, int(idx))]
    else:
        k, n = a.worker.split('/')
        cases = plan(check, a.tier)[int(k)::int(n)]
    res = {'scen': {}, 'violations': [], 'errors': [], 'known': {}, 'ran': 0, 'planned': len(cases)}
    hb = open(a.out + '.hb', 'w')
    deadline = core.real_monotonic() + a.budget
    for name, idx in cases:
        if core.real_monotonic() > deadline or os.path.exists(a.stop):
            break
        s = by_name[name]
        hb.seek(0)
        hb.write('%s:%d %f %f       \n' % (name, idx, core.real_monotonic(), s.limit))
        hb.flush()
        ctx, viol, err = run_case(check, s, idx, a.seed, a.tier)
        res['ran'] += 1
        d = res['scen'].setdefault(name, {'evaluations': 0, 'keys': [], 'counters': {}, 'samples': []})
        d['evaluations'] += 1
        if viol is None and err is None:
            d['keys'].extend(ctx.keys)
            if len(d['samples']) < 2:
                d['samples'].extend(ctx.samples[:1])
        for c, v in ctx.counters.items():
            d['counters'][c] = d['counters'].get(c, 0) + v
        for m in ctx.known:
            res['known'][m] = res['known'].get(m, 0) + 1
        if err:
            res['errors'].append('%s:%d %s' % (name, idx, err))
        if viol:
            viol.update({'scenario': name, 'index': idx, 'seed': a.seed, 'tier': a.tier, 'property': a.prop})
            res['violations'].append(viol)
            with open(a.stop, 'w'):
                pass
            break
    for d in res['scen'].values():
        d['keys'] = sorted(set(d['keys']))
    tmp = a.out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(res, f, default=repr)
    os.rename(tmp, a.out)
    sys.stdout.flush()
    os._exit(0)


def check_module(prop):
    d = os.path.join(core.VERIF, 'checks')
    for fn in sorted(os.listdir(d)):
        if fn.startswith(prop.lower() + '_') and fn.endswith('.py'):
            return fn[:-3]
    raise SystemExit('no check for %s' % prop)


def _spawn(a, out, stop, budget, worker=None, case=None):
    cmd = [sys.executable, '-B', os.path.join(core.VERIF, 'run.py'), a.prop, '--tier', a.tier, '--seed', str(a.seed),
           '--out', out, '--stop', stop, '--budget', str(budget)]
    cmd += ['--worker', worker] if worker else ['--case', case, '--worker', 'case']
    env = dict(os.environ)
    env.setdefault('PYTHONHASHSEED', '0')
    env['PYTHONPYCACHEPREFIX'] = os.path.join(os.path.dirname(out), 'pyc')
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['LC_ALL'] = 'C.UTF-8'
    return subprocess.Popen(cmd, cwd=core.VERIF, env=env, stdout=open(out + '.log', 'w'), stderr=subprocess.STDOUT,
                            stdin=subprocess.DEVNULL)


def _read(path):
    try:
        with open(path, errors='replace') as f:
            return f.read()
    except OSError:
        return ''


def _watch(procs, total_limit):
    """Wait for workers; returns list of hangs (out, case, dump)."""
    hangs = []
    end = core.real_monotonic() + total_limit
    live = dict(procs)
    while live:
        core.real_sleep(0.05)
        now = core.real_monotonic()
        for out, p in list(live.items()):
            if p.poll() is not None:
                del live[out]
                continue
            hb = _read(out + '.hb').split()
            over = now > end
            case = None
            if len(hb) >= 3:
                case = hb[0]
                over = over or now - float(hb[1]) > float(hb[2])
            if over:
                try:
                    p.send_signal(signal.SIGUSR1)
                    core.real_sleep(1.0)
                    p.kill()
                except OSError:
                    pass
                p.wait()
                del live[out]
                hangs.append((out, case, _read(out + '.dump')))
    return hangs


def parent_main(a):
    """A violation counts if the same case shows it in a fresh process, or if a second full run shows the same one."""
    t0 = core.real_monotonic()
    load_known()
    unconfirmed = []
    for attempt in range(3):
        rc = run_once(a, t0, unconfirmed)
        if rc is not None:
            return rc
    print('INCONCLUSIVE: three runs with different violations, none of them reproduced')
    return 2


def confirmed(a, v, tmp):
    case = '%s:%d' % (v['scenario'], v['index'])
    for i in range(2):
        out = os.path.join(tmp, 'confirm%d' % i)
        p = {out: _spawn(a, out, os.path.join(tmp, 'none'), 1e6, case=case)}
        hangs = _watch(p, 100)
        if hangs:
            return any(core.REPO + os.sep in l for l in hangs[0][2].splitlines())
        if os.path.exists(out) and json.load(open(out))['violations']:
            return True
    return False


def run_once(a, t0, unconfirmed):
    check_name = check_module(a.prop)
    quick = a.tier == 'quick'
    budget = a.budget or (240.0 if quick else 640.0)
    nw = a.jobs
    tmp = tempfile.mkdtemp(prefix='jv-%s-' % a.prop)
    stop = os.path.join(tmp, 'stop')
    try:
        procs = {}
        if a.case:
            out = os.path.join(tmp, 'w0')
            procs[out] = _spawn(a, out, stop, budget, case=a.case)
        else:
            for k in range(nw):
                out = os.path.join(tmp, 'w%d' % k)
                procs[out] = _spawn(a, out, stop, budget, worker='%d/%d' % (k, nw))
        hangs = _watch(procs, budget + 100)
        results, crashes = [], []
        for out in procs:
            if os.path.exists(out):
                results.append(json.load(open(out)))
            elif not any(h[0] == out for h in hangs):
                crashes.append(_read(out + '.log')[-3000:])
        violations = [v for r in results for v in r['violations']]
        soft = [e for r in results for e in r['errors']]
        errors = ['worker died: ' + c for c in crashes]
        for out, case, dump in hangs[:2]:
            sut = [l.strip() for l in dump.splitlines() if core.REPO + os.sep in l]
            if not case or not sut:
                errors.append('watchdog fired in case %s, not inside the code under test: %s' % (case, dump[-1500:]))
                continue
            # a single stall is inconclusive; the same case stalling again in a fresh process is a verdict
            out2 = os.path.join(tmp, 'hang%d' % len(errors))
            p2 = {out2: _spawn(a, out2, stop + '.none', 1e6, case=case)}
            h2 = _watch(p2, 100)
            if h2 and any(core.REPO + os.sep in l for l in h2[0][2].splitlines()):
                name, idx = case.rsplit(':', 1)
                violations.append({'mechanism': 'hang', 'message': 'case does not terminate (stalled twice)',
                                   'witness': {'stack': sut[:40]}, 'scenario': name, 'index': int(idx),
                                   'seed': a.seed, 'tier': a.tier, 'property': a.prop})
            else:
                soft.append('case %s stalled once, not reproduced' % case)
        if violations and not a.case:
            good = [v for v in violations if v['mechanism'] == 'hang' or confirmed(a, v, tmp)]
            if not good:
                again = [v for v in violations if (v['scenario'], v['mechanism']) in unconfirmed]
                unconfirmed.extend((v['scenario'], v['mechanism']) for v in violations)
                if not again and len(unconfirmed) < 5:
                    for v in violations:
                        print('not reproduced, running again: [%s] %s: %s' % (v['scenario'], v['mechanism'], str(v['message'])[:200]))
                    return None
                good = again or violations
            violations = good
        agg = {}
        known = {}
        for r in results:
            for m, n in r['known'].items():
                known[m] = known.get(m, 0) + n
            for name, d in r['scen'].items():
                g = agg.setdefault(name, {'evaluations': 0, 'keys': set(), 'counters': {}, 'samples': []})
                g['evaluations'] += d['evaluations']
                g['keys'].update(d['keys'])
                g['samples'].extend(d['samples'])
                for c, v in d['counters'].items():
                    g['counters'][c] = g['counters'].get(c, 0) + v
    finally:
        subprocess.call(['rm', '-rf', tmp])
    sys.path.insert(0, core.VERIF)
    meta = _meta(check_name)
    evals = sum(g['evaluations'] for g in agg.values())
    distinct = sum(len(g['keys']) for g in agg.values())
    level = meta.get('LEVEL', 'exploration')
    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': a.seed, 'level': level,
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': distinct,
            'rule': meta.get('RULE', ''),
            'samples': [s for g in agg.values() for s in g['samples'][:2]][:8] or ['none'],
            'inconclusive_cases': len(soft),
            'per_scenario': {n: {'evaluations': g['evaluations'], 'distinct': len(g['keys']), 'observed': g['counters']}
                             for n, g in sorted(agg.items())},
        },
        'assumptions': meta.get('ASSUMPTIONS', []),
        'wall_s': round(core.real_monotonic() - t0, 3),
        'violations': len(violations),
    }
    if not a.case:
        os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(core.VERIF, 'evidence', a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write('\n')
    print('%s tier=%s seed=%d cases=%d distinct=%d wall=%.1fs' % (a.prop, a.tier, a.seed, evals, distinct, ev['wall_s']))
    for n, g in sorted(agg.items()):
        print('  %-28s cases=%-6d distinct=%-6d %s' % (n, g['evaluations'], len(g['keys']),
              ' '.join('%s=%d' % kv for kv in sorted(g['counters'].items()))))
    for m in sorted(known):
        print('KNOWN-FINDING: property=%s %s (observed %d times)' % (a.prop, KNOWN[a.prop][m], known[m]))
    if violations:
        os.makedirs(core.OUT, exist_ok=True)
        v = violations[0]
        h = hashlib.blake2b(('%s%s%s%s' % (a.prop, v['scenario'], v['index'], v['seed'])).encode(), digest_size=4).hexdigest()
        path = os.path.join(core.OUT, '%s-%s.json' % (a.prop, h))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1, default=repr)
            f.write('\n')
        print('violated: [%s] %s: %s' % (v['scenario'], v['mechanism'], str(v['message'])[:600]))
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        return 1
    if a.case:
        print('\n'.join(errors + soft))
        return 2 if errors or soft else 0
    # inconclusive unless every scenario was reached and its monitors saw something
    problems = list(errors)
    for e in soft[:5]:
        print('inconclusive case: %s' % e)
    if len(soft) > max(3, 0.1 * evals):
        problems.append('%d of %d cases inconclusive' % (len(soft), evals))
    for n, (minimum, need) in meta['NEED'].items():
        g = agg.get(n)
        if g is None or g['evaluations'] < 1:
            problems.append('scenario %s never ran' % n)
            continue
        for c in need:
            if not g['counters'].get(c):
                problems.append('scenario %s: monitor counter %s is zero' % (n, c))
    if problems:
        for p in problems[:10]:
            print('INCONCLUSIVE: %s' % p)
        return 2
    return 0


def _meta(check_name):
    """Static facts about a check, read in a subprocess-free way (the check module imports the SUT lazily)."""
    m = importlib.import_module('checks.' + check_name)
    return {'LEVEL': getattr(m, 'LEVEL', 'exploration'), 'RULE': getattr(m, 'RULE', ''),
            'ASSUMPTIONS': getattr(m, 'ASSUMPTIONS', []),
            'NEED': {s.name: (1, s.need) for s in m.SCENARIOS}}


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--worker')
    ap.add_argument('--out')
    ap.add_argument('--stop')
    ap.add_argument('--budget', type=float, default=0)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('JV_JOBS') or min(8, os.cpu_count() or 4)))
    ap.add_argument('--case', help='scenario:index')
    ap.add_argument('--replay', action='store_true', help='PROP is a replay file')
    a = ap.parse_args(argv)
    if a.replay:
        v = json.load(open(a.prop))
        a.prop, a.tier, a.seed = v['property'], v['tier'], v['seed']
        a.case = '%s:%d' % (v['scenario'], v['index'])
    if a.worker:
        worker_main(a)
    sys.exit(parent_main(a))
