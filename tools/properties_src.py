"""Source of /verif/properties.jsonl (run: python3 tools/properties_src.py)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files,
         'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
         'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


R = 'jaeger_client/reporter.py'
S = 'jaeger_client/span.py'
T = 'jaeger_client/tracer.py'
TH = 'jaeger_client/thrift.py'
C = 'jaeger_client/codecs.py'
SA = 'jaeger_client/sampler.py'
TT = 'jaeger_client/throttler.py'
RL = 'jaeger_client/rate_limiter.py'
LA = 'jaeger_client/local_agent_net.py'
UD = 'jaeger_client/TUDPTransport.py'
CF = 'jaeger_client/config.py'
SC = 'jaeger_client/span_context.py'
IO = 'jaeger_client/ioloop_util.py'
UT = 'jaeger_client/utils.py'
ME = 'jaeger_client/metrics/metrics.py'
PR = 'jaeger_client/metrics/prometheus.py'

prop('C01', 'Every reported span is sent, counted failed, or counted dropped: exactly one',
     'Every span handed to the remote reporter ends up in exactly one of three states: contained in exactly one '
     'datagram that the network accepted, counted as failed, or counted as dropped. After the reporter has been closed and drained, '
     'its ok/err/dropped span counters equal those three numbers and add up to the number of spans handed in, '
     'whatever the arrival pattern, queue and batch sizes, agent faults and moment of close.',
     ['schedules', 'fault_sequences', 'configurations', 'histories'],
     'all interleavings of reporting threads, event-loop turns, send faults and close; all queue/batch/flush settings',
     'Unit tests send a handful of spans on one happy schedule and look at one counter; they never balance the books over '
     'bursts, overflow, faults between batches, or close racing with reports.',
     [R, UD, TH],
     [('report_span schedules enqueue on loop', 'Reporter.report_span / _report_span_from_ioloop'),
      ('consumer loop builds batches', 'Reporter._consume_queue'),
      ('success/failure accounting', 'Reporter._submit')],
     [('queue', 'spans accepted and not yet batched', 'Reporter.queue')],
     ['UDP datagrams decoded by an independent Thrift decoder', 'jaeger:reporter_spans counters'])

prop('C02', 'A finished span is reported exactly once, and only if it is sampled',
     'A span that is sampled when it is finished is handed to the reporter exactly once, however many times and from however many '
     'threads it is finished, whether by an explicit finish, leaving a with-block or closing a scope (also when the body raises), with the '
     'end time of the finish that took effect. A span that is not sampled when it is finished, or is never finished, is never handed to the reporter.',
     ['schedules', 'histories', 'inputs'],
     'all interleavings of concurrent finish/tag calls, all combinations of manual finish, with-blocks, scopes and nested scopes',
     'Tests call finish twice from one thread; the check-then-set on the finished mark is only wrong under a preemption between two instructions.',
     [S, T],
     [('finished mark checked and set under the span lock', 'Span.finish'),
      ('reporter hand-off', 'Tracer.report_span')],
     [('finished', 'span has been reported', 'Span.finished')],
     ['reporter stand-in receiving report_span calls'])

prop('C03', 'The datagram carries exactly what the application recorded',
     'For every reported span the bytes on the wire decode to the same trace id (all 128 bits), span id, parent id, flags, operation name, '
     'references, microsecond start time and duration, and to the same tags and logs in the order recorded, with the value type preserved '
     '(string, boolean, integer, double) and only over-long strings and tracebacks cut at the configured lengths. Every batch also carries the service name '
     'and all process tags, including client version, host name and IP.',
     ['inputs', 'configurations'],
     'all ids, flags, names, timestamps, tag and log keys and values (any Python value), references, limits and tracer tags',
     'Tests compare a few hand-written spans with thrift objects built by the same code; they never decode the bytes, and sample no boundary ids or odd value types.',
     [TH, S, T, R],
     [('conversion to Thrift structs', 'thrift.make_jaeger_batch, make_tag, make_log, make_references, make_process'),
      ('id splitting and sign folding', 'thrift.id_to_int, _id_to_low, _id_to_high')],
     None, ['UDP datagrams decoded by an independent Thrift decoder'])

prop('C04', 'Datagrams are self-contained, bounded, ordered, and isolated from bad spans',
     'Every datagram is one complete, independently decodable batch message holding between one and the configured batch size of spans, '
     'and the spans that one thread finished appear across datagrams in the order it finished them. A batch that cannot be encoded or sent, '
     'for whatever reason and at whatever point, leaves no trace in any later datagram, and no tag, log, baggage or name value set by the application, '
     'and no trace context received in a header or binary carrier, makes other spans in the same batch undeliverable.',
     ['inputs', 'fault_sequences', 'schedules'],
     'all sequences of good, unencodable and oversized spans interleaved with send faults; concurrent late updates to finished spans',
     'Tests mock the sender or the socket, so partially written buffers, poisoned values and mutation during encoding never occur.',
     [R, TH, UD, LA],
     [('batch assembly', 'Reporter._consume_queue, thrift.make_jaeger_batch'),
      ('buffering until message end', 'LocalAgentSender (TBufferedTransport), TUDPTransport.write')],
     [('write buffer', 'encoded bytes not yet flushed', 'LocalAgentSender')],
     ['UDP datagrams decoded by an independent Thrift decoder'])

prop('C05', 'An unavailable or slow agent never disturbs the application',
     'Whatever the agent, socket or event loop does, starting, annotating and finishing spans returns normally and never waits for the network, nor does the event loop that sends the spans, which may be the application\'s own. '
     'The number of finished spans waiting in memory for the consumer never exceeds the configured queue capacity plus the batch being sent, '
     'the excess is dropped, and nothing is dropped while fewer spans than the queue capacity are outstanding.',
     ['fault_sequences', 'schedules', 'configurations'],
     'all socket/agent faults (errors of any kind, at any call), bursts of any size, any queue/batch configuration',
     'Tests raise one error from one mocked send; they do not measure backlog against capacity, nor vary the error, the burst or the moment.',
     [R, S, T, UD],
     [('non-blocking hand-off and bounded queue', 'Reporter.report_span, _report_span_from_ioloop'),
      ('error containment', 'Reporter._submit')],
     [('queue', 'bounded backlog', 'Reporter.queue')],
     ['exceptions and loop time seen by the caller', 'outstanding = reported - sent - failed - dropped at every quiescent point'])

prop('C06', 'Finished spans leave within the flush interval, also after faults',
     'While the event loop runs, a span accepted by the reporter is put on the wire no later than one flush interval after it was reported, '
     'and at once when it completes a batch. This still holds for spans reported after any number of failed sends: '
     'faults never stop the reporter.',
     ['fault_sequences', 'schedules', 'configurations'],
     'all arrival times, batch sizes, flush intervals and fault patterns, in virtual time',
     'Tests use one short real interval and sleep; a consumer that dies after a rare fault, or a deadline computed from the wrong moment, passes them.',
     [R],
     [('timeout of the queue get drives the flush', 'Reporter._consume_queue'),
      ('errors do not escape the consumer', 'Reporter._submit')],
     None, ['virtual send time of each span versus virtual report time'])

prop('C07', 'Closing flushes everything finished before it, completes, and stops polling',
     'Closing a tracer or reporter, from any thread, with or without a running event loop in that thread, once or repeatedly, returns a future that completes, '
     'and by then every span finished before the close has been sent or counted as failed or dropped. After the close no span is sent (later ones are counted as dropped), '
     'and the remote sampler and throttler issue no further periodic requests.',
     ['schedules', 'histories', 'fault_sequences', 'configurations'],
     'all interleavings of close with reporting, sending, polling and other closes; loop in own thread or shared; plain, composite and null reporters',
     'Tests close once, on the loop thread, with an idle reporter.',
     [R, T, SA, TT, IO],
     [('stop marker and queue join', 'Reporter._flush'),
      ('future bridging', 'ioloop_util.submit'),
      ('fan-out of close', 'CompositeReporter.close'),
      ('poll cancellation', 'RemoteControlledSampler.close, RemoteThrottler.close, Tracer.close')],
     None, ['future state, datagrams and agent requests before/after close'])

prop('C08', 'A span context survives inject then extract in every format',
     'For every span context, injecting it and extracting it again in the text-map, HTTP-header, binary and Zipkin formats yields the same trace id, span id, parent id, flags '
     '(and for text-map, HTTP headers and binary the same baggage), and B3 headers preserve ids and the sampling decision. The carrier written is the documented wire format, '
     'so any conforming peer reads it, header names are matched case-insensitively under the configured names, and unrelated carrier entries are left untouched.',
     ['inputs', 'configurations'],
     'all ids up to 128/64 bits, flags 0-255, baggage keys and values (any text), header-name configurations and header-case variations',
     'Tests use small ids and ASCII baggage; encoding, padding, sign and length errors only show on wide ids, non-ASCII, empty or delimiter-bearing values.',
     [C, SC, T],
     [('text codec', 'TextCodec.inject/extract, span_context_to_string/span_context_from_string'),
      ('binary codec', 'BinaryCodec'), ('zipkin and B3', 'ZipkinCodec, B3Codec')],
     None, ['carriers compared with an independent reference encoder/decoder'])

prop('C09', 'Malformed carriers are rejected cleanly and never yield an invalid context',
     'Extracting from any text-map, HTTP-header, B3 or binary carrier, however malformed or truncated its content, either returns nothing, returns a context whose ids and flags are within their legal ranges '
     '(or that carries only baggage or a debug id), or raises one of the two documented exceptions for a wrong carrier type and a corrupted context. '
     'A trace-context header of other than four colon-separated parts never yields a trace. '
     'It never fails in another way, and a carrier with a valid trace context is never rejected because of unrelated entries. Unknown formats and foreign contexts are refused with their documented exceptions, and the carrier is left as it was.',
     ['inputs'],
     'all strings in trace headers, all byte strings in binary carriers, all header maps and value types',
     'Tests try about a dozen malformed strings; truncation at every byte, huge lengths, oversized numbers and odd types are not covered.',
     [C],
     [('header parsing', 'span_context_from_string, header_to_hex'),
      ('binary parsing', 'BinaryCodec.extract')],
     None, ['exception type or returned context of extract'])

prop('C10', 'A new span takes its place in the trace: ids, parent, flags, references',
     'A span started under a parent has the trace id and flags of the parent, a fresh span id, and the parent span id as its parent id; the parent is the explicit one, '
     'else the first usable explicit reference, else the active span of the current scope unless told to ignore it, else none. A span without a parent starts a new trace with no parent id and '
     'random ids of the configured width; in the one-span-per-RPC mode a server span shares the ids of the client span; all given references are recorded.',
     ['inputs', 'histories', 'schedules', 'configurations'],
     'all combinations of child_of, references, active scopes (nested, per thread), ignore flag, rpc tags and id-width settings, over many threads',
     'Tests check each option alone on one span; the precedence matrix, thread separation and id uniqueness need generated programs.',
     [T, S, SC],
     [('parent selection and id generation', 'Tracer.start_span, Tracer._random_id'),
      ('active scope', 'Tracer.start_active_span')],
     None, ['context of the returned span versus a reference model'])

prop('C11', 'Baggage reaches all later descendants, no one else, and no update is lost',
     'Baggage set on a span is visible on that span and inherited by every child started afterwards, locally or across processes, and is never visible on its parent, siblings or '
     'children started before; setting a key to nothing removes it. Concurrent updates of different keys on one span all take effect and concurrent baggage and sampling-priority updates '
     'do not undo one another.',
     ['schedules', 'histories', 'inputs'],
     'all span trees and orders of set/remove/start/inject/extract; all interleavings of concurrent updates on one span',
     'Tests set one item on one span; copy-versus-share mistakes and lost updates need trees and preemptions.',
     [S, SC, T, C],
     [('copy on write of the context', 'SpanContext.with_baggage_item, Span.set_baggage_item'),
      ('copy on start', 'Tracer.start_span')],
     [('baggage', 'key/value map of the context', 'SpanContext._baggage')],
     ['baggage of every live span versus a reference model'])

prop('C12', 'The sampling decision is made once per trace and is a function of the trace id',
     'The sampler is consulted exactly once when a trace is started in this process and never for a span that continues a trace; every descendant, local or remote, inherits the decision. '
     'A probabilistic sampler decides only from the low 64 bits of the trace id, sampling exactly ids below rate times 2^64, so that equal ids agree everywhere, a higher rate samples a superset, '
     'rate 0 samples nothing and rate 1 everything; sampler tags appear on the sampled root span and nowhere else.',
     ['inputs', 'histories', 'configurations'],
     'all trace ids and rates, all span trees, also across inject/extract hops and 64/128-bit mode',
     'Tests probe a boundary or two; monotonicity, bit-width and single consultation hold over whole ranges and trees.',
     [SA, T],
     [('root-only consultation', 'Tracer.start_span'),
      ('threshold comparison', 'ProbabilisticSampler')],
     None, ['calls on an instrumented sampler', 'decisions over generated ids'])

prop('C13', 'Rate-limited sampling never exceeds its budget and never starves',
     'Over any time window the number of traces admitted by a rate-limiting sampler is at most rate times window plus one burst of max(rate, 1), even across rate changes, under concurrent callers and when the system clock is set to another time, '
     'and a caller that keeps asking is admitted at least at the configured rate. The balance never goes negative, a refused request costs nothing, and a rate change keeps the accumulated share of the burst.',
     ['schedules', 'histories', 'inputs'],
     'all request times, rates, rate updates and interleavings of concurrent requests',
     'Tests step a fake clock a few times on one thread.',
     [RL, SA],
     [('leaky bucket', 'RateLimiter.check_credit, _update_balance, update'),
      ('rate change', 'RateLimitingSampler.update')],
     [('balance', 'credits available', 'RateLimiter.balance')],
     ['admissions against a virtual clock, compared with an interval bound and an executable model'])

prop('C14', 'Per-operation sampling keeps its lower bound, its rates and its memory bound',
     'With per-operation strategies each listed operation is sampled with its own probability plus a guaranteed minimum number of traces per time, unlisted operations use the default probability and the same minimum, '
     'and tags name the mechanism and parameter that admitted the trace. The number of operations learned from traffic never exceeds the configured maximum, beyond which unknown operations use only the default probability.',
     ['histories', 'inputs', 'schedules', 'configurations'],
     'all sequences of operations, trace ids, times and strategy updates, also concurrently',
     'Tests use one or two operations and mocked balances.',
     [SA, RL],
     [('per-operation samplers', 'AdaptiveSampler, GuaranteedThroughputProbabilisticSampler')],
     [('samplers', 'operation to sampler map', 'AdaptiveSampler.samplers')],
     ['decision and tags per call versus an executable model'])

prop('C15', 'Remote strategy updates apply whole or not at all, and polling survives errors',
     'A valid strategy response from the agent takes effect for all later decisions, and an invalid, partial or unreadable response, or a failed request, leaves the sampling behaviour exactly as it was. '
     'Each poll ends in exactly one query result count, each update attempt in the matching update count, decisions made during an update see the old or the new strategy, '
     'and polling continues at the configured interval after any error. A response in its Thrift form is converted to the sampler that its JSON form describes, or refused with a message.',
     ['fault_sequences', 'histories', 'inputs', 'schedules'],
     'all sequences of response bodies (valid, malformed, wrong types, out of range), HTTP errors, and concurrent decisions',
     'Tests push single responses; state left behind by a half-applied invalid update, and a poll loop killed by an odd body, are not exercised.',
     [SA, LA, TH],
     [('response handling', 'RemoteControlledSampler._sampling_request_callback, _update_sampler'),
      ('poll scheduling', 'RemoteControlledSampler._init_polling, _delayed_polling'),
      ('Thrift form', 'thrift.parse_sampling_strategy')],
     [('sampler', 'active strategy', 'RemoteControlledSampler.sampler')],
     ['decisions before/after each response', 'jaeger:sampler_queries and jaeger:sampler_updates counters', 'request times in virtual time'])

prop('C16', 'Debug throttling: never more debug traces than credits granted',
     'For each operation the number of debug traces allowed never exceeds the credits the agent has granted for it, and as long as a full credit is left a debug trace is allowed, under any interleaving. '
     'Every refusal is counted, the operations seen are reported to the agent at each refresh together with the client identity that the spans carry, and failed or malformed credit responses are counted, change nothing and do not stop refreshing.',
     ['schedules', 'histories', 'fault_sequences', 'inputs'],
     'all interleavings of debug requests and credit responses, all response bodies and faults',
     'Tests call is_allowed on one thread with set credits.',
     [TT, T, LA],
     [('credit accounting under a lock', 'RemoteThrottler.is_allowed, _update_credits'),
      ('credit polling', 'RemoteThrottler._delayed_polling, _fetch_credits')],
     [('credits', 'operation to balance', 'RemoteThrottler.credits')],
     ['allow/deny history versus granted credits', 'agent requests in virtual time'])

prop('C17', 'Forced sampling: debug id and sampling priority always do what they say',
     'A debug-id header on a request without trace context starts a debug-sampled trace whose root carries the id as a tag, unless throttled; a positive integer sampling priority turns sampling and debug on for the span and '
     'its later children unless throttled, zero turns both off, and a value that is not a number is ignored without error. Repeating it on a debug span consumes no further credit, and only a priority that took effect is recorded as a tag.',
     ['histories', 'inputs', 'configurations'],
     'all priority values of any type, sequences of priority changes, debug ids, header configurations, throttler states and children',
     'Tests set priority 0 and 1 once; odd values, repeated changes and throttled combinations are not explored.',
     [S, T, C],
     [('priority handling', 'Span.set_tag, Span._set_sampling_priority'),
      ('debug id handling', 'Tracer.start_span, TextCodec.extract')],
     None, ['flags, tags and throttler calls versus a reference model'])

prop('C18', 'Annotations on a live span are never lost, duplicated or misordered',
     'Every tag and log recorded on a sampled span before it is finished is present exactly once in the reported span, in the order each thread recorded it, also when several threads annotate the same span; '
     'annotating an unsampled span has no effect. Each log keeps its own timestamp (explicit or the time of the call) and all of its fields, and a span is an RPC (client) span exactly when its span.kind says so.',
     ['schedules', 'histories', 'inputs'],
     'all interleavings of tag, log, baggage and rename calls on one span from several threads',
     'Tests annotate from one thread.',
     [S, TH],
     [('append under the span lock', 'Span.set_tag, Span.log_kv'),
      ('event helpers', 'Span.info, Span.error')],
     [('tags, logs', 'recorded annotations', 'Span.tags, Span.logs')],
     ['decoded reported span versus recorded history'])

prop('C19', 'Client metrics equal what happened',
     'The started, sampled, finished and trace-started/joined counters, read through the legacy or the Prometheus factory, equal the number of corresponding events in the tracer, and the queue length published after a batch is the number of spans then waiting. So do the counts of polls, strategy updates, credit requests and refusals. '
     'In the Prometheus factory each distinct metric name and tag set is an independent time series, the same one is returned whenever it is requested again in whatever tag order, and disabling metrics emits none.',
     ['histories', 'inputs', 'configurations', 'schedules'],
     'all programs of span operations, all metric names/tag sets, both factories, concurrent use',
     'Tests look at single counters after single calls.',
     [T, ME, PR, CF],
     [('tracer counters', 'Tracer._emit_span_metrics, Tracer.report_span, TracerMetrics'),
      ('adapters', 'LegacyMetricsFactory, PrometheusMetricsFactory')],
     None, ['metric values versus a reference count'])

prop('C20', 'Configuration is honoured: precedence, defaults, validation, single init',
     'Every supported option and environment variable (agent address, sampler, reporter sizes and flush interval, header names, propagation, lengths, id width, '
     'tags, throttler, metrics, logging) takes effect in the tracer that is built, with explicit configuration over environment over defaults (tags are merged, and JAEGER_TAGS wins) and later bad values never corrupting others; '
     'the supplied configuration is not modified. With validation on, exactly the supported keys are accepted; and however many threads initialise at once, exactly one global tracer is installed and returned.',
     ['configurations', 'inputs', 'schedules'],
     'all subsets and values of options and environment variables, all interleavings of initialisation',
     'Tests set one option at a time.',
     [CF],
     [('option properties', 'Config'), ('one-time initialisation', 'Config.initialize_tracer')],
     [('initialised mark', 'global tracer exists', 'Config._initialized')],
     ['behaviour of the tracer built: datagram destination, batch size, headers, sampler, tags'])

prop('C21', 'Error logging is rate-limited and never breaks the caller',
     'The error reporter logs at most one message per configured interval however many errors occur, the first only after a full interval since creation, and always the first error after an interval has elapsed is logged, with its arguments intact, also when the system clock is set to another time. '
     'Without a logger nothing is logged. Failures of the reporter, the sampler and the throttler reach the log through it.',
     ['histories', 'inputs'],
     'all sequences of error times and intervals, in virtual time',
     'Tests sample two or three instants.',
     [UT, R, SA, TT],
     [('deadline', 'ErrorReporter.error'), ('callers', 'Reporter._submit, RemoteControlledSampler._sampling_request_callback, RemoteThrottler._request_callback')],
     None, ['log calls versus a reference model of the interval'])

prop('C22', 'Requests to the agent identify service, client and operations exactly',
     'Every sampling and credit request goes to the configured host and port and path, and its decoded query carries exactly the service name, client id and operation names, whatever characters they contain. '
     'Each ends within its time limit, and the HTTP client of the application\'s event loop keeps its own settings. Spans go as datagrams to the configured host and port, for IPv4 and IPv6 hosts and host names alike.',
     ['inputs', 'configurations'],
     'all service and operation names (any text), client ids, hosts, ports, operation lists',
     'Tests use plain ASCII names against a mocked client.',
     [LA, UD],
     [('request building', 'LocalAgentHTTP'), ('datagram socket', 'TUDPTransport')],
     None, ['HTTP requests parsed by a loopback stand-in agent', 'datagram destination'])

prop('C23', 'Composite, in-memory, logging and null reporters deliver to all, lose nothing',
     'A composite reporter delivers every span, the process description and the close to each of its reporters exactly once, in order, and its close completes when and only when all of theirs have. '
     'The in-memory reporter keeps every span reported from any thread in order and hands out independent snapshots, and the logging reporter logs one line per span.',
     ['schedules', 'histories', 'configurations'],
     'all compositions (nested, empty, any mix), completion orders of closes, concurrent reporting threads',
     'Tests combine two reporters and close them in one order.',
     [R],
     [('fan-out', 'CompositeReporter'), ('locked list', 'InMemoryReporter')],
     None, ['calls received by stand-in reporters'])

prop('C24', 'The crossdock service speaks its trace-join JSON protocol faithfully',
     'Any join or start request and any trace response, nested to any depth, keeps every field when it is encoded to JSON and decoded again by the crossdock service, and enumerations travel by name; converting one to its Thrift form keeps every field too. '
     'A start request sent to a chain of servers returns what every one of them observed: one trace, with the requested sampling and baggage, each called over the requested transport with the rest of the chain. The end-to-end handler creates exactly the requested number of traces, each with the requested operation and tags, on the tracer requested, of which the remote one follows the strategy of the agent.',
     ['inputs', 'histories'],
     'all request/response trees with all field values',
     'Tests decode a few fixed documents.',
     ['crossdock/server/serializer.py', 'crossdock/server/thriftrw_serializer.py', 'crossdock/server/server.py', 'crossdock/server/endtoend.py'],
     [('JSON mapping', 'crossdock.server.serializer'), ('trace generation', 'EndToEndHandler.generate_traces')],
     None, ['decoded documents versus the generated ones', 'spans seen by an in-memory reporter'])

prop('C25', 'A tracer can be built on any host and describes that host truthfully',
     'Building a tracer succeeds whatever the host name, the name service, the network interfaces and the routes of the machine answer or however they fail. '
     'The process description sent with every batch carries the client version, the host name and an address that the host really has, preferring one that is not a loopback address; '
     'values configured by the user win, and a host name that cannot be determined is left out.',
     ['configurations', 'fault_sequences'],
     'all combinations of host names, name service answers and errors, interface addresses and routes',
     'Tests run on the one host they happen to run on.',
     [UT, T],
     [('address lookup', 'utils.local_ip, get_local_ip_by_interfaces, get_local_ip_by_socket'), ('process tags', 'Tracer.__init__')],
     None, ['exceptions while building a tracer', 'decoded process description versus the simulated host'])

prop('C26', 'Memory does not grow with the work done',
     'Once spans have been sent, dropped, found unsampled or abandoned by the application, carriers have been written or read (well-formed or not), polls and credit requests have been answered or have failed, '
     'and errors have been logged, the client holds no memory on their behalf. What it holds depends on the configuration, the spans in progress and waiting to be sent, the current strategy, '
     'and the operation names seen (for the samplers, bounded by their configured maximum), not on how much work has gone by.',
     ['histories', 'fault_sequences', 'inputs'],
     'all mixes of work, for any length of time: spans of all kinds, sampled or not, finished or abandoned, faults of the sender and the agent, threads that come and go',
     'Tests do a handful of operations and look at results, never at what is left behind.',
     [R, S, T, SA, TT, C, CF, ME],
     [('queue', 'Reporter'), ('scopes', 'scope manager of Tracer'), ('per-operation state', 'AdaptiveSampler.samplers, RemoteThrottler.credits'), ('pollers', 'RemoteControlledSampler, RemoteThrottler')],
     None, ['live objects and size of everything reachable from the client and its modules at quiescent points'])

prop('C27', 'Tracers of one process do not affect each other',
     'What is done with one client of a process (its spans, baggage, carriers, strategy updates, credits, failures, its closing, its configuration) changes nothing in what another one sends, decides, '
     'propagates, asks the agent for or counts, whether they are built from the same configuration dictionary or different ones, in any order, and used alternately or with the context of each other\'s spans as parents.',
     ['histories', 'configurations', 'fault_sequences'],
     'all pairs and triples of configurations and all interleavings of work on them',
     'Tests build one tracer at a time, or several of the same kind, and never compare a tracer with itself alone.',
     [CF, T, S, R, SA, TT, C, SC, ME, UT],
     [('shared defaults', 'constructors and module constants'), ('registration', 'Config.initialize_tracer, Config.new_tracer')],
     None, ['calls, batches, requests and metrics of a client alone versus beside others'])

prop('C28', 'The client lives well with the process: import, fork, exit',
     'Importing any module of the client starts nothing (no thread, socket, event loop or handler) and changes no global state of the process. '
     'Worker processes forked before the tracer is initialised each get a working tracer: every span finished before its close is delivered exactly once, and no two processes use the same trace or span ids, '
     'whatever the parent did with the library before the fork and however closely together the workers start. '
     'A program ends when its main thread ends, with its own exit status and without complaints on the standard error, whether or not the tracer was closed and whatever the agent does; '
     'if it waited for the close, everything was delivered.',
     ['schedules', 'fault_sequences', 'configurations'],
     'all import orders, activities before the fork, numbers of workers, ways of ending, and behaviours of the agent',
     'Tests run in one process that imports everything once, never forks and is ended by the test runner.',
     [T, CF, R, SA, TT, LA, IO, UT],
     [('id generator', 'Tracer.__init__ (random)'), ('background thread', 'LocalAgentSender._create_new_thread_loop'), ('one initialisation', 'Config._initialized'), ('close', 'Reporter.close, Tracer.close')],
     None, ['state of the process around imports', 'datagrams received from real worker processes', 'exit status, standard error and time of ending of real processes'])

prop('C29', 'No failure goes unhandled, and everything logged can be read',
     'Whatever fails in the background work of the client is handled where it happens: sending and encoding spans, polls and credit requests that raise, fail, never end or are answered late or with any bytes at all, '
     'closing at any moment. No exception reaches the exception handler of the event loop, a thread or a finalizer; no future holding an exception and no coroutine is left unobserved; '
     'the event loop is touched from other threads only in ways that are safe there; and every record the client logs, at every level, can be formatted.',
     ['fault_sequences', 'inputs', 'schedules', 'configurations'],
     'all answers of agents, send failures, misuse of the API, moments of closing and interleavings of threads with the loop',
     'Tests do not look at what the event loop, asyncio or the log complain about, and their loggers are off or mocks that format nothing.',
     [R, SA, TT, T, CF, LA, IO, UT],
     [('send failures', 'Reporter._submit'), ('polls', 'RemoteControlledSampler._poll_sampling_manager, _sampling_request_callback, _update_sampler'), ('credit requests', 'RemoteThrottler._fetch_credits, _request_callback'), ('hand-over to the loop', 'ioloop_util.submit, Reporter.report_span, CompositeReporter.close')],
     None, ['the exception handler of the loop, asyncio and tornado logs', 'thread and finalizer hooks, warnings', 'asyncio debug mode', 'every log record of the client'])

prop('C30', 'Application code called by the client may use the client',
     'Log handlers, metrics, reporters, close callbacks and values whose text is asked for are application code, and may use the same tracer and the same span in the middle of the call they are called from, '
     'in the same thread or in another thread they wait for: start, annotate, inject and finish spans, close the tracer, ask whether the client is initialized. The client holds none of its locks then that these calls need: '
     'none of them ever deadlocks, each has its effect exactly once, and so has the call it was made in.',
     ['schedules', 'inputs', 'configurations', 'fault_sequences'],
     'all places where the client calls the application, all public calls made there, in the same and in another thread',
     'The loggers and metrics of the tests do nothing; the few deadlocks possible need a handler that traces.',
     [S, SA, TT, CF, R, T],
     [('finished twice', 'Span.finish (warning)'), ('values', 'Span.set_tag, Span.log_kv (thrift.make_tag)'), ('polls', 'RemoteControlledSampler._update_sampler, _init_polling, _delayed_polling'), ('credits', 'RemoteThrottler.is_allowed, _update_credits'), ('one initialisation', 'Config.initialize_tracer')],
     None, ['locks of the client: owner and waiter at every call into the application', 'annotations found on the spans'])

prop('C31', 'A trace that crosses services arrives at the collector whole',
     'When requests and messages pass between services that use this client with the same header names, in any format, concurrently, repeated, late or in batches, through gateways that change the case and order of headers '
     'and through peers that implement the documented formats, while services restart and agents lose datagrams, then what all agents together received is the call tree: every span of a sampled trace that was finished '
     'arrives once, from its own service, under the span that called it, in the same trace with the same decision, except exactly as many as that service counts as failed or dropped; nothing of an unsampled trace arrives, '
     'no two spans share an id (unless one span per RPC is asked for), only the span where the trace began carries the sampler or debug id tags, and everything downstream of a baggage item (through formats that carry baggage), and nothing else, sees it.',
     ['inputs', 'schedules', 'histories', 'fault_sequences', 'configurations'],
     'all call trees over services of all configurations, interleavings of their requests, all formats and header rewritings, restarts and lost datagrams',
     'The tests take one hop at a time with hand-written carriers; nothing looks at what arrives from several services together.',
     [T, S, C, R, CF, SA],
     [('join', 'Tracer.start_span, Tracer.extract, Tracer.inject'), ('formats', 'TextCodec, BinaryCodec, ZipkinCodec, B3Codec'), ('delivery', 'Reporter.report_span, Reporter._send'), ('active span', 'Tracer.start_active_span'), ('restart', 'Config.new_tracer, Tracer.close')],
     None, ['collector: all batches received, per agent', 'call tree kept by the workload', 'span counters of every service'])

prop('C32', 'Setting the clock of the host changes the recorded times and nothing else',
     'However often, far and in whatever direction the wall clock of the host is set while a client runs, every span is still sampled, propagated, counted and sent as if it had not been, and as soon: rates, budgets, '
     'flush intervals and deadlines go by elapsed time. Start times and log timestamps are those the clock shows at that moment. (When strategies are polled is up to the PeriodicCallback of tornado.)',
     ['inputs', 'fault_sequences', 'configurations', 'histories'],
     'all configurations and programs, with the clock set at all moments by all amounts',
     'The tests never set the clock; only a comparison of two runs shows a dependence on it.',
     [R, RL, S, T, SA],
     [('flush', 'Reporter._consume_queue (deadline)'), ('rate', 'RateLimiter.timestamp'), ('times', 'Span.__init__, Span.finish, Span.log_kv')],
     None, ['two runs of one program, one of them with the clock set: calls, datagrams with the time they leave, metrics'])

prop('C33', 'What a tracing operation costs does not grow with what happened before',
     'Starting, annotating, finishing, injecting and sending a span, taking a sampling or throttling decision, requesting a metric and reporting an error cost the same, however many spans wait, are open, were sent, dropped or refused, '
     'however many annotations, ancestors, siblings, operation names, polls, log lines, metrics and tracers there were, and however long nothing happened. Reading or writing one carrier, tag, log, baggage, strategy or batch takes time in proportion to its size, whatever it contains. '
     '(What is copied or sent by design is proportional to itself: the baggage of a span, the operations in a credit request.)',
     ['histories', 'inputs', 'configurations'],
     'all histories and all inputs, well formed or not',
     'The tests do a few operations and measure none; a scan, a copy or a backtracking pattern only shows in the growth of the cost.',
     [T, S, SA, R, C, TT, ME],
     [('per-operation lookup', 'AdaptiveSampler.is_sampled, RemoteThrottler.is_allowed'), ('hand-over', 'Reporter._report_span_from_ioloop, Reporter._consume_queue'),
      ('parsing', 'TextCodec.extract, BinaryCodec.extract, B3Codec.extract, span_context_from_string')],
     None, ['interpreter steps and CPU time of one operation before and after a history, and of one input at two sizes'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
