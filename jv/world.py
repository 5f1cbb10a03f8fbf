"""Shared pieces of the workloads: lazy access to the code under test, recording metrics, stand-in agents."""
import json
import threading

from . import core, tap, vloop, wire
from .vloop import World  # noqa: F401
from .tap import Tap  # noqa: F401


class _Lazy(object):
    """Names of the code under test, imported on first use (after core.bootstrap())."""
    _where = {
        'Tracer': 'jaeger_client.tracer', 'Reference': 'opentracing', 'ReferenceType': 'opentracing',
        'Span': 'jaeger_client.span', 'SpanContext': 'jaeger_client.span_context',
        'Reporter': 'jaeger_client.reporter', 'NullReporter': 'jaeger_client.reporter',
        'InMemoryReporter': 'jaeger_client.reporter', 'LoggingReporter': 'jaeger_client.reporter',
        'CompositeReporter': 'jaeger_client.reporter', 'BaseReporter': 'jaeger_client.reporter',
        'ConstSampler': 'jaeger_client.sampler', 'ProbabilisticSampler': 'jaeger_client.sampler',
        'RateLimitingSampler': 'jaeger_client.sampler', 'AdaptiveSampler': 'jaeger_client.sampler',
        'GuaranteedThroughputProbabilisticSampler': 'jaeger_client.sampler',
        'RemoteControlledSampler': 'jaeger_client.sampler', 'Sampler': 'jaeger_client.sampler',
        'RemoteThrottler': 'jaeger_client.throttler', 'Throttler': 'jaeger_client.throttler',
        'RateLimiter': 'jaeger_client.rate_limiter',
        'LocalAgentSender': 'jaeger_client.local_agent_net', 'LocalAgentHTTP': 'jaeger_client.local_agent_net',
        'TUDPTransport': 'jaeger_client.TUDPTransport',
        'Config': 'jaeger_client.config',
        'TextCodec': 'jaeger_client.codecs', 'BinaryCodec': 'jaeger_client.codecs', 'ZipkinCodec': 'jaeger_client.codecs',
        'B3Codec': 'jaeger_client.codecs', 'ZipkinSpanFormat': 'jaeger_client.codecs',
        'ErrorReporter': 'jaeger_client.utils', 'get_boolean': 'jaeger_client.utils',
        'MetricsFactory': 'jaeger_client.metrics', 'LegacyMetricsFactory': 'jaeger_client.metrics',
        'Metrics': 'jaeger_client.metrics', 'PrometheusMetricsFactory': 'jaeger_client.metrics.prometheus',
        'Format': 'opentracing', 'InvalidCarrierException': 'opentracing',
        'SpanContextCorruptedException': 'opentracing', 'UnsupportedFormatException': 'opentracing',
    }

    def __getattr__(self, name):
        import importlib
        v = getattr(importlib.import_module(self._where[name]), name)
        setattr(self, name, v)
        return v


J = _Lazy()


def rec_factory():
    """A metrics factory (public interface) that records every increment; thread-safe."""
    base = J.MetricsFactory

    class RecFactory(base):
        def __init__(self):
            self.lock = core._real_allocate()
            self.counts = {}
            self.gauges = {}
            self.on_gauge = None
            self.created = []
            self.log = []

        def create_counter(self, name, tags=None):
            key = (name, tuple(sorted((tags or {}).items())))
            with self.lock:
                self.counts.setdefault(key, 0)
                self.created.append(('counter', key))

            def inc(v):
                with self.lock:
                    self.counts[key] += v
            return inc

        def create_gauge(self, name, tags=None):
            key = (name, tuple(sorted((tags or {}).items())))

            def upd(v):
                with self.lock:
                    self.gauges[key] = v
                if self.on_gauge is not None:
                    self.on_gauge(name, v)
            return upd

        def create_timer(self, name, tags=None):
            return lambda v: None

        def get(self, name, **tags):
            return self.counts.get((name, tuple(sorted(tags.items()))), 0)

        def spans(self):
            """(ok, err, dropped) of the reporter."""
            n = 'jaeger:reporter_spans'
            return self.get(n, result='ok'), self.get(n, result='err'), self.get(n, result='dropped')

    return RecFactory()


class Resp(object):
    def __init__(self, body):
        self.body = body


def virtual_sender(world, responder=None, host='127.0.0.1', sampling_port=5778, reporting_port=6831,
                   throttling_port=5778):
    """The real LocalAgentSender on the virtual loop; only the HTTP requests are answered by `responder`.

    responder(kind, args, kwargs) -> (delay, body or Exception); body None means 'never answers'.
    """
    from tornado.concurrent import Future
    base = J.LocalAgentSender

    class VSender(base):
        def __init__(self):
            base.__init__(self, host, sampling_port, reporting_port, io_loop=world.io_loop,
                          throttling_port=throttling_port)
            self.requests = []

        def _answer(self, kind, args, kwargs):
            fut = Future()
            self.requests.append((world.clock.wall, kind, args, kwargs))
            if responder is None:
                return fut
            delay, body = responder(kind, args, kwargs)
            if body is None:
                return fut

            def done():
                if fut.done():
                    return
                if isinstance(body, Exception):
                    fut.set_exception(body)
                else:
                    fut.set_result(Resp(body))
            if delay is None:
                done()
            else:
                world.io_loop.call_later(delay, done)
            return fut

        def request_sampling_strategy(self, *a, **k):
            return self._answer('sampling', a, k)

        def request_throttling_credits(self, *a, **k):
            return self._answer('credits', a, k)

    return VSender()


def decode_all(tp):
    """[(time, dest, batch)] of accepted datagrams; raises wire.WireError on an undecodable one."""
    return [(t, dest, wire.decode(d)) for t, d, dest, _ in tp.sent]


class RecReporter(object):
    """Reporter stand-in recording hand-offs (duck type of BaseReporter)."""

    def __init__(self):
        self.spans = []
        self.calls = []
        self.process = []
        self.lock = core._real_allocate()
        self.closed = 0

    def report_span(self, span):
        with self.lock:
            self.spans.append(span)
            self.calls.append((span, threading.get_ident()))

    def set_process(self, service_name, tags, max_length):
        self.process.append((service_name, dict(tags), max_length))

    def close(self):
        self.closed += 1
        return J.BaseReporter().close()


def jdump(o):
    return json.dumps(o, default=repr, sort_keys=True)
