"""Writes MANIFEST.json from the check modules (run with the repository's python)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    'C01': 'conservation monitor over recorded datagrams and counters; fault injection; controlled thread scheduler',
    'C02': 'history monitor over reporter hand-offs; controlled thread scheduler',
    'C03': 'recorded datagrams decoded by an independent decoder and compared with a call record',
    'C04': 'strict independent decoding of every datagram under hostile values and send faults',
    'C05': 'monitors on exceptions, blocking calls, threads, locks held and memory under injected faults',
    'C06': 'latency monitor over recorded hand-offs and datagrams in virtual time',
    'C07': 'termination and conservation monitor around close; controlled scheduler; virtual time',
    'C08': 'round-trip oracle with an independent codec on generated contexts',
    'C09': 'mutation fuzzing of carriers with an acceptance oracle',
    'C10': 'trace-structure monitor against a reference model; threads and tasks',
    'C11': 'baggage model monitor; controlled thread scheduler',
    'C12': 'consultation monitor and exact-arithmetic decision oracle',
    'C13': 'interval token-bucket monitor in virtual time; controlled scheduler',
    'C14': 'per-operation reference monitor in virtual time; controlled scheduler',
    'C15': 'last-valid-strategy monitor over scripted agent answers in virtual time; controlled scheduler',
    'C16': 'credit-ledger monitor over scripted agent answers; controlled scheduler',
    'C17': 'flag-and-tag reference monitor; controlled scheduler',
    'C18': 'annotation record compared with decoded datagrams; controlled scheduler and free threads',
    'C19': 'independent event counts compared with metrics; controlled scheduler',
    'C20': 'observable-effect monitor over generated configurations and environments; controlled scheduler',
    'C21': 'log-rate monitor in virtual time; controlled scheduler',
    'C22': 'loopback stand-in agents parsing requests independently',
    'C23': 'delivery journal and completion monitor over compositions; controlled scheduler',
    'C25': 'simulated host with injected lookup faults; decoded process descriptions compared with it',
    'C26': 'leak monitors (live objects, deep size of reachable state) at quiescent points in virtual time',
    'C27': 'differential monitor: a client alone versus beside others, outputs compared exactly',
    'C28': 'process monitors (descriptors, threads, exit status, standard error) and delivery/id books over real forked processes and a loopback stand-in agent',
    'C29': 'monitors of unhandled failures (loop exception handler, asyncio and tornado logs, thread and finalizer hooks, warnings, asyncio debug mode) and a log format checker, under fault injection in virtual time and real threads',
    'C30': 'deadlock monitor on the locks of the client (owner against waiter) while callbacks of the application use the client, under fault injection in virtual time; annotation counter',
    'C31': 'offline trace checker: batches received by the agents of several services against the call tree of randomized distributed workloads with restarts, concurrency and loss, in virtual time and with threads',
    'C32': 'differential monitor: the same program run twice in virtual time, once with the wall clock set at random moments; calls, datagrams with the time they leave and metrics compared',
    'C33': 'cost monitor: interpreter steps (opcode trace) and CPU time of each operation compared before and after a grown history, and of one input at two sizes',
    'C24': 'round-trip oracle with an independent JSON reader/writer; decoded datagrams',
}
# Sequential deciding steps explore generated executions; nothing is exhaustive.
sys.path.insert(0, HERE)
import importlib  # noqa: E402
checks = []
for f in sorted(os.listdir(os.path.join(HERE, 'checks'))):
    if not f.startswith('c') or not f.endswith('.py'):
        continue
    m = importlib.import_module('checks.' + f[:-3])
    sc = ', '.join(s.name for s in m.SCENARIOS)
    checks.append({
        'property': m.ID,
        'quick_cmd': 'python3 run.py %s --tier quick' % m.ID,
        'thorough_cmd': 'python3 run.py %s --tier thorough' % m.ID,
        'technique': 'runtime monitoring: ' + T[m.ID],
        'level': 'exploration',
        'level_note': 'Monitors judge real executions of the code in the working tree; not exhaustive. Workloads: %s. Assumes: %s.' % (sc, '; '.join(getattr(m, 'ASSUMPTIONS', None) or ['nothing beyond the monitor itself'])),
    })
out = {
    'version': 1,
    'setup_cmd': 'python3 -c "import os; os.makedirs(\'evidence\', exist_ok=True); os.makedirs(\'out\', exist_ok=True)"',
    'checks': checks,
    'not_applicable': [],
    'notes': 'Pure Python under test: it is imported from /repo at run time, nothing is built and no hooks are committed in /repo. See DESIGN.md.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(checks), 'checks')
