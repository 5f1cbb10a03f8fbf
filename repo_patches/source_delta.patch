From ae35ff8a41ab2f4a57f4e08b1285e4e600c5d510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 01/50] fix: snapshot throttler operations under the lock

The dictionary view escaped the lock, so an operation seen for the first
time on another thread while the credit request was being built failed
the refresh with 'dictionary changed size during iteration'.
---
 jaeger_client/throttler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index 6866e4b..2642a34 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -117,7 +117,7 @@ class RemoteThrottler(Throttler):
 
     def _operations(self):
         with self.lock:
-            return self.credits.keys()
+            return list(self.credits.keys())
 
     def _delayed_polling(self):
         def callback():
-- 
2.43.0


From 7dbe8338cf1a91bfe93357bdfcd46ebe05012aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:50 +0000
Subject: [PATCH 02/50] fix: ignore non-numeric sampling.priority values of any
 type

None, containers and infinities raised out of set_tag.
---
 jaeger_client/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index 65ff161..9a43c1f 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -124,7 +124,7 @@ class Span(opentracing.Span):
 
         try:
             value_num = int(value)
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             return False
         if value_num == 0:
             self.context.flags &= ~(SAMPLED_FLAG | DEBUG_FLAG)
-- 
2.43.0


From fa62f68b7c6ebc61af3a1fecf87ef328f4928355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:52 +0000
Subject: [PATCH 03/50] fix: copy tags and logs of a span when building a batch

The Thrift list header carries the length, so an annotation made after
finish() while the batch was being written corrupted the whole datagram.
---
 jaeger_client/thrift.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index fbe07ff..b155d1a 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -213,8 +213,9 @@ def make_jaeger_batch(spans, process):
                 flags=span.context.flags,
                 startTime=timestamp_micros(span.start_time),
                 duration=timestamp_micros(span.end_time - span.start_time),
-                tags=span.tags,  # TODO
-                logs=span.logs,  # TODO
+                # copies, the span may still be annotated by other threads
+                tags=list(span.tags),
+                logs=list(span.logs),
             )
         batch.spans.append(jaeger_span)
     return batch
-- 
2.43.0


From 76429b080f42054a7b4be93d49588e36adbdf4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 04/50] fix: discard partially encoded batches

The channel buffers writes until flush. When encoding raised half way,
the bytes written so far stayed in the buffer and were sent in front of
the next batch, as one undecodable datagram that was counted as success.
---
 jaeger_client/reporter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 6888aa8..feb50cc 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -30,6 +30,7 @@ from .utils import ErrorReporter
 from .span import Span
 
 from thrift.protocol import TCompactProtocol
+from thrift.transport.TTransport import TBufferedTransport
 from jaeger_client.thrift_gen.agent import Agent
 
 default_logger = logging.getLogger('jaeger_tracing')
@@ -194,7 +195,9 @@ class Reporter(BaseReporter):
         :param: transport:
         :return: Thrift compact protocol
         """
-        return TCompactProtocol.TCompactProtocol(transport)
+        # Each message gets its own buffer, so that a batch that fails to encode
+        # half way does not leave its first bytes in front of the next batch.
+        return TCompactProtocol.TCompactProtocol(TBufferedTransport(transport))
 
     @tornado.gen.coroutine
     def _submit(self, spans):
-- 
2.43.0


From bcbcffae217c3b3c0374e346f8bcbec3700d5f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:41 +0000
Subject: [PATCH 05/50] fix: keep one unencodable value from losing a whole
 batch

Integers outside 64 bits, lone surrogates and non-string operation names
failed only when the batch was written, which lost every span in it.
Oversized integers are now recorded as strings, the others converted.
---
 jaeger_client/thrift.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index b155d1a..daef420 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -55,9 +55,11 @@ def id_to_int(big_id):
 
 def _to_string(s):
     try:
-        return str(s)
+        s = str(s)
     except Exception as e:
-        return str(e)
+        s = str(e)
+    # lone surrogates cannot be encoded on the wire
+    return s.encode('utf-8', 'replace').decode('utf-8')
 
 
 def make_tag(key, value, max_length, max_traceback_length):
@@ -66,7 +68,7 @@ def make_tag(key, value, max_length, max_traceback_length):
             key=key,
             value=value
         )
-    elif isinstance(value, int):
+    elif isinstance(value, int) and -_max_signed_id - 1 <= value <= _max_signed_id:
         return _make_long_tag(
             key=key,
             value=value
@@ -92,7 +94,7 @@ def make_tag(key, value, max_length, max_traceback_length):
 
 def _make_traceback_tag(key, value, max_length):
     key = _to_string(key)
-    value = ''.join(traceback.format_tb(value))
+    value = _to_string(''.join(traceback.format_tb(value)))
     if len(value) > max_length:
         value = value[:max_length]
     return ttypes.Tag(
@@ -208,7 +210,7 @@ def make_jaeger_batch(spans, process):
                 traceIdHigh=id_to_int(_id_to_high(span.trace_id)),
                 spanId=id_to_int(span.span_id),
                 parentSpanId=id_to_int(span.parent_id) or 0,
-                operationName=span.operation_name,
+                operationName=_to_string(span.operation_name),
                 references=make_references(span.references),
                 flags=span.context.flags,
                 startTime=timestamp_micros(span.start_time),
-- 
2.43.0


From c5d55278b61d74f8815a7ea63d091598558a7ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:43 +0000
Subject: [PATCH 06/50] fix: reject trace contexts with ids or flags out of
 range

Ids wider than the wire format were accepted from a peer and failed only
when a batch was written, losing every span in it. Also reject, instead of
raising TypeError, a trace header that is not a string.
---
 jaeger_client/codecs.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 3f11755..f1b82c9 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -24,12 +24,18 @@ from .constants import (
     BAGGAGE_HEADER_PREFIX,
     DEBUG_ID_HEADER_KEY,
     TRACE_ID_HEADER,
+    _max_id_bits,
+    _max_trace_id_bits,
 )
 from .span_context import SpanContext
 from .constants import SAMPLED_FLAG, DEBUG_FLAG
 
 import urllib.parse
 
+_max_trace_id = (1 << _max_trace_id_bits) - 1
+_max_id = (1 << _max_id_bits) - 1
+_max_flags = 0xFF
+
 
 class Codec(object):
     def inject(self, span_context, carrier):
@@ -88,7 +94,7 @@ class TextCodec(Codec):
         for key, value in carrier.items():
             uc_key = key.lower()
             if uc_key == self.trace_id_header:
-                if self.url_encoding:
+                if self.url_encoding and isinstance(value, str):
                     value = urllib.parse.unquote(value)
                 trace_id, span_id, parent_id, flags = \
                     span_context_from_string(value)
@@ -245,7 +251,8 @@ def span_context_from_string(value):
         span_id = int(parts[1], 16)
         parent_id = int(parts[2], 16)
         flags = int(parts[3], 16)
-        if trace_id < 1 or span_id < 1 or parent_id < 0 or flags < 0:
+        if not 1 <= trace_id <= _max_trace_id or not 1 <= span_id <= _max_id \
+                or not 0 <= parent_id <= _max_id or not 0 <= flags <= _max_flags:
             raise SpanContextCorruptedException(
                 'malformed trace context "%s"' % value)
         if parent_id == 0:
@@ -304,13 +311,16 @@ class ZipkinCodec(Codec):
                            baggage=None)
 
 
-def header_to_hex(header):
+def header_to_hex(header, max_value=_max_id):
     if not isinstance(header, (str,)):
         raise SpanContextCorruptedException(
             'malformed trace context "%s", expected hex string' % header)
 
     try:
-        return int(header, 16)
+        value = int(header, 16)
+        if not 0 <= value <= max_value:
+            raise ValueError(header)
+        return value
     except ValueError:
         raise SpanContextCorruptedException(
             'malformed trace context "%s", expected hex string' % header)
@@ -361,7 +371,7 @@ class B3Codec(Codec):
                 continue
             lower_key = header_key.lower()
             if lower_key == self._trace_header_lc:
-                trace_id = header_to_hex(header_value)
+                trace_id = header_to_hex(header_value, max_value=_max_trace_id)
             elif lower_key == self._span_header_lc:
                 span_id = header_to_hex(header_value)
             elif lower_key == self._parent_span_header_lc:
-- 
2.43.0


From d4cacfe9896960d0b1ec9e5ad130df369ba744c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 07/50] fix: tolerate non-string carrier values next to the
 trace context

Baggage, baggage header and debug id entries whose value is not a string
(headers presented as arrays, numbers) raised TypeError or AttributeError
out of extract.
---
 jaeger_client/codecs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index f1b82c9..a7c21c9 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -99,7 +99,7 @@ class TextCodec(Codec):
                 trace_id, span_id, parent_id, flags = \
                     span_context_from_string(value)
             elif uc_key.startswith(self.baggage_prefix):
-                if self.url_encoding:
+                if self.url_encoding and isinstance(value, str):
                     value = urllib.parse.unquote(value)
                 attr_key = key[self.prefix_length:]
                 if baggage is None:
@@ -107,11 +107,11 @@ class TextCodec(Codec):
                 else:
                     baggage[attr_key.lower()] = value
             elif uc_key == self.debug_id_header:
-                if self.url_encoding:
+                if self.url_encoding and isinstance(value, str):
                     value = urllib.parse.unquote(value)
                 debug_id = value
             elif uc_key == self.baggage_header:
-                if self.url_encoding:
+                if self.url_encoding and isinstance(value, str):
                     value = urllib.parse.unquote(value)
                 baggage = self._parse_baggage_header(value, baggage)
         if not trace_id or not span_id:
@@ -124,6 +124,8 @@ class TextCodec(Codec):
                            baggage=baggage, debug_id=debug_id)
 
     def _parse_baggage_header(self, header, baggage):
+        if not isinstance(header, str):
+            return baggage
         for part in header.split(','):
             kv = part.strip().split('=')
             if len(kv) == 2:
-- 
2.43.0


From 6e2973365c97cb643c53637658bb4fdffd353dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:28 +0000
Subject: [PATCH 08/50] fix: report malformed binary carriers as corrupted
 contexts

Truncated or garbled carriers raised struct.error or UnicodeDecodeError, a
negative length was silently accepted, and a huge one allocated memory
proportional to the claimed length.
---
 jaeger_client/codecs.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index a7c21c9..1a8ef0e 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -163,6 +163,13 @@ class BinaryCodec(Codec):
     def extract(self, carrier):
         if not isinstance(carrier, bytearray):
             raise InvalidCarrierException('carrier not a bytearray')
+        try:
+            return self._extract(carrier)
+        except (struct.error, UnicodeDecodeError) as e:
+            raise SpanContextCorruptedException(
+                'malformed binary trace context: %s' % e)
+
+    def _extract(self, carrier):
         baggage = {}
         high_trace_id, low_trace_id, span_id, parent_id, flags, baggage_count = \
             struct.unpack('>QQQQBI', carrier[:37])
@@ -205,10 +212,11 @@ class BinaryCodec(Codec):
         return key, value, bytes_read
 
     def _read_kv(self, data):
-        data_len = struct.unpack('>i', data[:4])[0]
-        data_value = struct.unpack('>' + 'c' * data_len, data[4:4 + data_len])
+        data_len = struct.unpack('>I', data[:4])[0]
         bytes_read = 4 + data_len
-        return b''.join(data_value).decode('utf-8'), bytes_read
+        if len(data) < bytes_read:
+            raise struct.error('truncated baggage item')
+        return data[4:bytes_read].decode('utf-8'), bytes_read
 
 
 def span_context_to_string(trace_id, span_id, parent_id, flags):
-- 
2.43.0


From c1ab7466fe12b082c79671561df674ccbea9a46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:48 +0000
Subject: [PATCH 09/50] fix: let a repeated Reporter.close() complete

The second stop marker was never taken from the queue, because the
consumer had exited, so the future of the second close never completed.
---
 jaeger_client/reporter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index feb50cc..f5b20df 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -239,8 +239,11 @@ class Reporter(BaseReporter):
     def _flush(self):
         # stopping here ensures we don't lose spans from pending _report_span_from_ioloop callbacks
         with self.stop_lock:
+            first_close = not self.stopped
             self.stopped = True
-        yield self.queue.put(self.stop)
+        if first_close:
+            # the consumer exits at the first stop marker and would not take another one
+            yield self.queue.put(self.stop)
         yield self.queue.join()
 
 
-- 
2.43.0


From 6c7bfb0c810e0c89a1cc78e9d2861885fde7c0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:50 +0000
Subject: [PATCH 10/50] fix: allow closing the tracer from any thread

Reporter and CompositeReporter created their futures on the event loop of
the calling thread: without one close() raised RuntimeError and nothing was
flushed, and with another one the future was resolved from the wrong thread.
A composite of no reporters never completed, and an exception raised by the
submitted function was lost because Future.set_exc_info no longer exists.
---
 jaeger_client/ioloop_util.py | 29 +++++++++++++++++++++--------
 jaeger_client/reporter.py    | 29 ++++++++++++++++++++++-------
 2 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/jaeger_client/ioloop_util.py b/jaeger_client/ioloop_util.py
index eb73b6f..1794765 100644
--- a/jaeger_client/ioloop_util.py
+++ b/jaeger_client/ioloop_util.py
@@ -13,11 +13,27 @@
 # limitations under the License.
 
 
-import sys
+import asyncio
+import concurrent.futures
+
 from tornado import gen
 from tornado.concurrent import Future
 
 
+def new_future(loop=None):
+    """
+    Create a Future, also in a thread that has no event loop of its own.
+
+    :param loop: asyncio event loop that will resolve the future, if known
+    """
+    if isinstance(loop, asyncio.AbstractEventLoop):
+        return asyncio.Future(loop=loop)
+    try:
+        return Future()
+    except RuntimeError:
+        return concurrent.futures.Future()
+
+
 def submit(fn, io_loop, *args, **kwargs):
     """Submit Tornado Coroutine to IOLoop.current().
 
@@ -27,19 +43,16 @@ def submit(fn, io_loop, *args, **kwargs):
     :param kwargs: Kwargs to pass to coroutine
     :returns tornado.concurrent.Future: future result of coroutine
     """
-    future = Future()
+    future = new_future(getattr(io_loop, 'asyncio_loop', None))
 
     def execute():
         """Execute fn on the IOLoop."""
         try:
             result = gen.maybe_future(fn(*args, **kwargs))
-        except Exception:
+        except Exception as e:
             # The function we ran didn't return a future and instead raised
-            # an exception. Let's pretend that it returned this dummy
-            # future with our stack trace.
-            f = gen.Future()
-            f.set_exc_info(sys.exc_info())
-            on_done(f)
+            # an exception.
+            future.set_exception(e)
         else:
             result.add_done_callback(on_done)
 
diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index f5b20df..c8694f4 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 
+import asyncio
 import logging
 import threading
 from typing import List, Dict, Optional, Any
@@ -45,7 +46,7 @@ class BaseReporter(object):
         pass
 
     def close(self) -> Future:
-        fut: Future = Future()
+        fut: Future = ioloop_util.new_future()
         fut.set_result(True)
         return fut
 
@@ -278,16 +279,30 @@ class CompositeReporter(BaseReporter):
         from threading import Lock
         lock = Lock()
         count = [0]
-        future: Future = Future()
+        closing = [reporter.close() for reporter in self.reporters]
+        # the futures may belong to an event loop running in another thread
+        loops = [f.get_loop() for f in closing if isinstance(f, asyncio.Future) and not f.done()]
+        loop = loops[0] if loops else None
+        future: Future = ioloop_util.new_future(loop)
 
         def on_close(_):
             with lock:
                 count[0] += 1
-                if count[0] == len(self.reporters):
+                completed = count[0] == len(closing)
+            if completed:
+                if loop is None:
                     future.set_result(True)
-
-        for reporter in self.reporters:
-            f = reporter.close()
-            f.add_done_callback(on_close)
+                else:
+                    loop.call_soon_threadsafe(future.set_result, True)
+
+        if not closing:
+            future.set_result(True)
+        for f in closing:
+            if f.done():
+                on_close(f)
+            elif isinstance(f, asyncio.Future):
+                f.get_loop().call_soon_threadsafe(f.add_done_callback, on_close)
+            else:
+                f.add_done_callback(on_close)
 
         return future
-- 
2.43.0


From 365a33de8d8859c2609d93ac99eee36441cd19f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:19 +0000
Subject: [PATCH 11/50] fix: close the throttler with the tracer

The remote throttler went on polling the agent after Tracer.close().
---
 jaeger_client/tracer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index 1c6c002..08dddee 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -291,6 +291,8 @@ class Tracer(opentracing.Tracer):
             flush has been completed.
         """
         self.sampler.close()
+        if self.throttler:
+            self.throttler.close()
         return self.reporter.close()
 
     def _emit_span_metrics(self, span: Span, join: Optional[bool] = False) -> Span:
-- 
2.43.0


From ac8a61c9c44eada86daffb85070952d7b7612e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:21 +0000
Subject: [PATCH 12/50] fix: consult the sampler for traces started with
 baggage only

A request that carried baggage but neither a trace context nor a debug id
started a trace that was never sampled.
---
 jaeger_client/tracer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index 08dddee..529d6ea 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -187,7 +187,7 @@ class Tracer(opentracing.Tracer):
             parent_id = None
             flags = 0
             baggage = None
-            if parent is None:
+            if parent is None or not parent.debug_id:
                 sampled, sampler_tags = \
                     self.sampler.is_sampled(trace_id, operation_name or '')
                 if sampled:
@@ -195,7 +195,7 @@ class Tracer(opentracing.Tracer):
                     tags = tags or {}
                     for k, v in sampler_tags.items():
                         tags[k] = v
-            elif parent.debug_id and self.is_debug_allowed(operation_name):
+            elif self.is_debug_allowed(operation_name):
                 flags = SAMPLED_FLAG | DEBUG_FLAG
                 tags = tags or {}
                 tags[self.debug_id_header] = parent.debug_id
-- 
2.43.0


From a932ec4b2518c3b41466820240ea4bed4581ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:52 +0000
Subject: [PATCH 13/50] fix: do not let the active span override explicit
 references

With a scope active, a span started with explicit references became a
child of the active span instead of the span it refers to.
---
 jaeger_client/tracer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index 529d6ea..4107da5 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -157,11 +157,6 @@ class Tracer(opentracing.Tracer):
         """
         parent = child_of
 
-        if self.active_span is not None \
-                and not ignore_active_span \
-                and not parent:
-            parent = self.active_span
-
         # allow Span to be passed as reference, not just SpanContext
         if isinstance(parent, Span):
             parent = parent.context
@@ -179,6 +174,10 @@ class Tracer(opentracing.Tracer):
         if valid_references and (parent is None or not parent.has_trace):
             parent = valid_references[0].referenced_context
 
+        # the active span is only a default, it does not override an explicit parent
+        if parent is None and not ignore_active_span and self.active_span is not None:
+            parent = self.active_span.context
+
         rpc_server = bool(tags and tags.get(ext_tags.SPAN_KIND) == ext_tags.SPAN_KIND_RPC_SERVER)
 
         if parent is None or not parent.has_trace:
-- 
2.43.0


From 21082faca24768dfcfb8ea045c9ed7afbd5a1353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:55 +0000
Subject: [PATCH 14/50] fix: do not lose concurrent baggage updates

The new context was computed outside the lock, so of two concurrent
set_baggage_item calls one could be lost, and a concurrent
sampling.priority change could be undone.
---
 jaeger_client/span.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index 9a43c1f..652efea 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -149,10 +149,9 @@ class Span(opentracing.Span):
         return self
 
     def set_baggage_item(self, key: str, value: Optional[str]) -> 'Span':
-        prev_value = self.get_baggage_item(key=key)
-        new_context = self.context.with_baggage_item(key=key, value=value)
         with self.update_lock:
-            self._context = new_context
+            prev_value = self.get_baggage_item(key=key)
+            self._context = self.context.with_baggage_item(key=key, value=value)
         if self.is_sampled():
             logs = {
                 'event': 'baggage',
-- 
2.43.0


From eedc666a0031529eaaf20f5872f18f1838042f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 15/50] fix: preserve the sampling decision and id width over
 B3

A debug trace is sent as X-B3-Flags alone and was continued unsampled by
the receiver. A 128 bit trace id received from a peer was written with a
length other than 16 or 32 digits when 128 bit ids were not configured.
---
 jaeger_client/codecs.py | 2 +-
 jaeger_client/tracer.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 1a8ef0e..978f303 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -359,7 +359,7 @@ class B3Codec(Codec):
     def inject(self, span_context, carrier):
         if not isinstance(carrier, dict):
             raise InvalidCarrierException('carrier not a dictionary')
-        if self.generate_128bit_trace_id:
+        if self.generate_128bit_trace_id or span_context.trace_id > _max_id:
             carrier[self.trace_header] = format(span_context.trace_id, 'x').zfill(32)
         else:
             carrier[self.trace_header] = format(span_context.trace_id, 'x').zfill(16)
diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index 4107da5..3204e46 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -210,6 +210,9 @@ class Tracer(opentracing.Tracer):
                 span_id = self._random_id(constants._max_id_bits)
                 parent_id = parent.span_id
             flags = parent.flags
+            if flags & DEBUG_FLAG:
+                # B3 sends the debug flag alone, it implies the sampled flag
+                flags |= SAMPLED_FLAG
             baggage = dict(parent.baggage)  # TODO do we need to clone?
 
         span_ctx = SpanContext(trace_id=trace_id, span_id=span_id,
-- 
2.43.0


From fdc6feb228bd9a0f1db82ee4cc558a386017b4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:39 +0000
Subject: [PATCH 16/50] fix: apply per-operation strategies whole or not at all

An invalid entry in the middle of a response raised after the entries
before it had been applied, leaving a mixture of two strategies.
---
 jaeger_client/sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 355f853..b3a2044 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -295,6 +295,9 @@ class AdaptiveSampler(Sampler):
 
     def update(self, strategies: Dict[str, Any]) -> None:
         # (NB) This function should only be called while holding a Write lock.
+        # An invalid strategy raises here, before anything has been changed.
+        AdaptiveSampler(strategies, self.max_operations)
+
         for strategy in strategies.get(STRATEGIES_STR, []):
             operation = strategy.get(OPERATION_STR)
             lower_bound = strategies.get(DEFAULT_LOWER_BOUND_STR, DEFAULT_LOWER_BOUND)
-- 
2.43.0


From a4fa833c76dac965562fe277d7c51860e443c531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:42 +0000
Subject: [PATCH 17/50] fix: count agent responses that are not valid UTF-8 as
 failures

Decoding happened outside the try block: the exception went to the event
loop and neither a success nor a failure was counted.
---
 jaeger_client/sampler.py   | 8 +++-----
 jaeger_client/throttler.py | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index b3a2044..01bfa0c 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -438,12 +438,10 @@ class RemoteControlledSampler(Sampler):
 
         # In Python 3.5 response.body is of type bytes and json.loads() does only support str
         # See: https://github.com/jaegertracing/jaeger-client-python/issues/180
-        if hasattr(response.body, 'decode') and callable(response.body.decode):
-            response_body = response.body.decode('utf-8')
-        else:
-            response_body = response.body
-
+        response_body = response.body
         try:
+            if hasattr(response.body, 'decode') and callable(response.body.decode):
+                response_body = response.body.decode('utf-8')
             sampling_strategies_response = json.loads(response_body)
             self.metrics.sampler_retrieved(1)
         except Exception as e:
diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index 2642a34..c3c6543 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -157,12 +157,10 @@ class RemoteThrottler(Throttler):
         response = future.result()
         # In Python 3.5 response.body is of type bytes and json.loads() does only support str
         # See: https://github.com/jaegertracing/jaeger-client-python/issues/180
-        if hasattr(response.body, 'decode') and callable(response.body.decode):
-            response_body = response.body.decode('utf-8')
-        else:
-            response_body = response.body
-
+        response_body = response.body
         try:
+            if hasattr(response.body, 'decode') and callable(response.body.decode):
+                response_body = response.body.decode('utf-8')
             throttling_response = json.loads(response_body)
             self.logger.debug('Received throttling response: %s',
                               throttling_response)
-- 
2.43.0


From e64bdd1208569a0f7174edb83b35e317ed9a1120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:44 +0000
Subject: [PATCH 18/50] fix: accept all supported keys when validating the
 configuration

debug_id_header, max_operations and metrics are read from the
configuration but were rejected with validate=True.
---
 jaeger_client/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index c70f56a..d6f4209 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -139,6 +139,9 @@ class Config(object):
                         'generate_128bit_trace_id',
                         'baggage_header_prefix',
                         'service_name',
+                        'debug_id_header',
+                        'max_operations',
+                        'metrics',
                         'throttler']
         config_keys = config.keys()
         unexpected_config_keys = [k for k in config_keys if k not in allowed_keys]
-- 
2.43.0


From 62dd46f637710c9b51479a0a04559877b7f77456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 19/50] fix: read JAEGER_TAGS values that contain '=', keep the
 given config

A value with an equals sign raised ValueError, and the environment tags
were written into the dictionary that the caller had supplied.
---
 jaeger_client/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index d6f4209..9fa1cf3 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -316,11 +316,11 @@ class Config(object):
         :return: Returns tags from config and `JAEGER_TAGS` environment variable
         to use as process-wide tracer tags
         """
-        tags = self.config.get('tags', {})
+        tags = dict(self.config.get('tags') or {})
         env_tags = os.environ.get('JAEGER_TAGS', '')
         if env_tags:
             for kv in env_tags.split(','):
-                key, value = kv.split('=')
+                key, value = kv.split('=', 1)
                 tags[key.strip()] = value.strip()
         return tags
 
-- 
2.43.0


From ca7798f34588338496bec50a34131e3237887bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 20/50] fix: identify Prometheus metrics by name and label set

Requesting a metric again with its tags in another order failed with a
duplicated time series, concatenating name and labels let two different
metrics share one series, and the tags of the caller were modified.
---
 jaeger_client/metrics/prometheus.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/jaeger_client/metrics/prometheus.py b/jaeger_client/metrics/prometheus.py
index a4f3339..e9e169a 100644
--- a/jaeger_client/metrics/prometheus.py
+++ b/jaeger_client/metrics/prometheus.py
@@ -30,20 +30,14 @@ class PrometheusMetricsFactory(MetricsFactory):
     def _get_tag_name_list(self, tags):
         if tags is None:
             return []
-        tag_name_list = []
-        for key in tags.keys():
-            tag_name_list.append(key)
-        return tag_name_list
+        return sorted(tags.keys())
 
     def _get_metric(self, metricType, name, tags):
         if self._service_name_label:
-            if tags is None:
-                tags = {'service': self._service_name_label}
-            else:
-                tags['service'] = self._service_name_label
+            tags = dict(tags or {}, service=self._service_name_label)
 
         label_name_list = self._get_tag_name_list(tags)
-        cache_key = name + '@@'.join(label_name_list)
+        cache_key = (name, tuple(label_name_list))
 
         metric = self._cache.get(cache_key)
         if metric is None:
-- 
2.43.0


From 616743167967b9bb21b9ff08e13ec41d465e506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 21/50] fix: make RateLimiter safe for concurrent callers

Unsynchronised check-then-subtract on the balance let concurrent callers
spend the same credit and drive the balance below zero.
---
 jaeger_client/rate_limiter.py | 24 ++++++++++++++----------
 jaeger_client/sampler.py      |  3 ++-
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/jaeger_client/rate_limiter.py b/jaeger_client/rate_limiter.py
index 0778db4..9a4aa56 100644
--- a/jaeger_client/rate_limiter.py
+++ b/jaeger_client/rate_limiter.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import random
+import threading
 import time
 
 
@@ -42,24 +43,27 @@ class RateLimiter(object):
         self.max_balance = max_balance
         self.balance = self.max_balance * random.random()
         self.last_tick = self.timestamp()
+        self.lock = threading.Lock()
 
     @staticmethod
     def timestamp():
         return time.time()
 
     def update(self, credits_per_second, max_balance):
-        self._update_balance()
-        self.credits_per_second = credits_per_second
-        # The new balance should be proportional to the old balance.
-        self.balance = max_balance * self.balance / self.max_balance
-        self.max_balance = max_balance
+        with self.lock:
+            self._update_balance()
+            self.credits_per_second = credits_per_second
+            # The new balance should be proportional to the old balance.
+            self.balance = max_balance * self.balance / self.max_balance
+            self.max_balance = max_balance
 
     def check_credit(self, item_cost):
-        self._update_balance()
-        if self.balance >= item_cost:
-            self.balance -= item_cost
-            return True
-        return False
+        with self.lock:
+            self._update_balance()
+            if self.balance >= item_cost:
+                self.balance -= item_cost
+                return True
+            return False
 
     def _update_balance(self):
         current_time = self.timestamp()
diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 01bfa0c..e6a9754 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -175,13 +175,14 @@ class RateLimitingSampler(Sampler):
         pass
 
     def __eq__(self, other: Any) -> bool:
-        """The last_tick and balance fields can be different"""
+        """The last_tick, balance and lock fields can be different"""
         if not isinstance(other, self.__class__):
             return False
         d1 = dict(self.rate_limiter.__dict__)
         d2 = dict(other.rate_limiter.__dict__)
         d1['balance'] = d2['balance']
         d1['last_tick'] = d2['last_tick']
+        d1['lock'] = d2['lock']
         return d1 == d2
 
     def update(self, max_traces_per_second: float) -> bool:
-- 
2.43.0


From 1daca4c7e9bd21e5ffaab9d7dd67a9229db0d639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:29 +0000
Subject: [PATCH 22/50] fix: do not starve the rate limiter when the clock is
 set back

A backward step of the wall clock was charged to the balance, which went
negative and refused every request for as long as the step.
---
 jaeger_client/rate_limiter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/rate_limiter.py b/jaeger_client/rate_limiter.py
index 9a4aa56..41bf83c 100644
--- a/jaeger_client/rate_limiter.py
+++ b/jaeger_client/rate_limiter.py
@@ -67,7 +67,8 @@ class RateLimiter(object):
 
     def _update_balance(self):
         current_time = self.timestamp()
-        elapsed_time = current_time - self.last_tick
+        # the wall clock may have been set back
+        elapsed_time = max(current_time - self.last_tick, 0)
         self.last_tick = current_time
         self.balance += elapsed_time * self.credits_per_second
         if self.balance > self.max_balance:
-- 
2.43.0


From adb6f58e14c06cae837ae7570ebac079101dce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:31 +0000
Subject: [PATCH 23/50] fix: apply credit responses whole or not at all

A malformed entry raised after the entries before it had been applied,
while the response was counted as failed; a balance of NaN disabled
throttling for its operation.
---
 jaeger_client/throttler.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index c3c6543..4626fe9 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -14,6 +14,7 @@
 
 import json
 import logging
+import math
 import random
 from threading import Lock
 from typing import Any, Optional
@@ -174,10 +175,16 @@ class RemoteThrottler(Throttler):
             return
 
     def _update_credits(self, response):
+        # read the whole response first, a malformed one must not change anything
+        balances = {}
+        for op_balance in response['balances']:
+            balance = op_balance['balance']
+            if not math.isfinite(balance):
+                raise ValueError('invalid balance %s' % balance)
+            op = op_balance['operation']
+            balances[op] = balances.get(op, 0) + balance
         with self.lock:
-            for op_balance in response['balances']:
-                op = op_balance['operation']
-                balance = op_balance['balance']
+            for op, balance in balances.items():
                 if op not in self.credits:
                     self.credits[op] = 0
                 self.credits[op] += balance
-- 
2.43.0


From 0765e4e4f29cb804800897d795881863597c78b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 24/50] fix: skip references to contexts without a span

A reference to a debug id or baggage-only context has no ids; the missing
required Thrift fields made the whole batch fail.
---
 jaeger_client/thrift.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index daef420..7a1a54a 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -189,6 +189,9 @@ def make_references(references):
         return None
     list_of_span_refs = list()
     for span_ref in references:
+        if not span_ref.referenced_context.has_trace:
+            # e.g. a debug id or baggage only, there is no span to refer to
+            continue
         list_of_span_refs.append(ttypes.SpanRef(
             refType=make_ref_type(span_ref.type),
             traceIdLow=id_to_int(_id_to_low(span_ref.referenced_context.trace_id)),
-- 
2.43.0


From 5c59278d515aa1ea292afdb73a2bba1f03d21a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 25/50] fix: flush within the flush interval under a steady
 trickle of spans

The flush timeout restarted with every span, so a span could wait
batch_size - 1 times the flush interval.
---
 jaeger_client/reporter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index c8694f4..5d8b3ef 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -165,12 +165,11 @@ class Reporter(BaseReporter):
         spans = []
         stopped = False
         while not stopped:
+            deadline = None
             while len(spans) < self.batch_size:
                 try:
                     # using timeout allows periodic flush with smaller packet
-                    timeout = self.flush_interval + self.io_loop.time() \
-                        if self.flush_interval and spans else None
-                    span = yield self.queue.get(timeout=timeout)
+                    span = yield self.queue.get(timeout=deadline)
                 except tornado.gen.TimeoutError:
                     break
                 else:
@@ -181,6 +180,8 @@ class Reporter(BaseReporter):
                         break
                     else:
                         spans.append(span)
+                        if self.flush_interval and deadline is None:
+                            deadline = self.flush_interval + self.io_loop.time()
             if spans:
                 yield self._submit(spans)
                 for _ in spans:
-- 
2.43.0


From 7ff03d020cdca8b836c0aa90373c53242a10fe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 26/50] fix: keep polling when a request to the agent cannot be
 started

A request that raised synchronously on the first poll left the periodic
refresh of the sampler or throttler never started, and was not counted.
---
 jaeger_client/sampler.py   |  8 +++++++-
 jaeger_client/throttler.py | 10 ++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index e6a9754..5e5d05c 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -500,7 +500,13 @@ class RemoteControlledSampler(Sampler):
 
     def _poll_sampling_manager(self):
         self.logger.debug('Requesting tracing sampler refresh')
-        fut = self._channel.request_sampling_strategy(self.service_name)
+        try:
+            fut = self._channel.request_sampling_strategy(self.service_name)
+        except Exception as e:
+            self.metrics.sampler_query_failure(1)
+            self.error_reporter.error(
+                'Fail to request sampling strategy from jaeger-agent: %s', e)
+            return
         fut.add_done_callback(self._sampling_request_callback)
 
     def close(self) -> None:
diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index 4626fe9..c043d1d 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -142,8 +142,14 @@ class RemoteThrottler(Throttler):
         if not operations:
             return
         self.logger.debug('Requesting throttling credits')
-        fut = self.channel.request_throttling_credits(
-            self.service_name, self.client_id, operations)
+        try:
+            fut = self.channel.request_throttling_credits(
+                self.service_name, self.client_id, operations)
+        except Exception as e:
+            self.metrics.throttler_update_failure(1)
+            self.error_reporter.error(
+                'Failed to request throttling credits from jaeger-agent: %s', e)
+            return
         fut.add_done_callback(self._request_callback)
 
     def _request_callback(self, future):
-- 
2.43.0


From 8be13ef73c64592886a29f00293a338f25f58f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 27/50] fix: do not poll the agent after a close during the
 initial delay

The first poll was issued even if the sampler or throttler had been closed
before its random initial delay had passed.
---
 jaeger_client/sampler.py   | 3 +++
 jaeger_client/throttler.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 5e5d05c..8c9636c 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -409,6 +409,9 @@ class RemoteControlledSampler(Sampler):
                 'Delaying sampling strategy polling by %d sec', delay)
 
     def _delayed_polling(self):
+        with self.lock:
+            if not self.running:
+                return
         periodic = self._create_periodic_callback()
         self._poll_sampling_manager()  # Initialize sampler now
         with self.lock:
diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index c043d1d..45960d4 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -121,6 +121,10 @@ class RemoteThrottler(Throttler):
             return list(self.credits.keys())
 
     def _delayed_polling(self):
+        with self.lock:
+            if not self.running:
+                return
+
         def callback():
             self._fetch_credits(self._operations())
 
-- 
2.43.0


From 7df2ee2f62f89f039e172c80a99c277d89d4527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:06 +0000
Subject: [PATCH 28/50] fix: reject a tuple as trace header value with the
 documented exception

---
 jaeger_client/codecs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 978f303..096bd4c 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -251,7 +251,7 @@ def span_context_from_string(value):
         value = value[0]
     if not isinstance(value, (str,)):
         raise SpanContextCorruptedException(
-            'trace context not a string "%s"' % value)
+            'trace context not a string "%s"' % (value,))
     parts = value.split(':')
     if len(parts) != 4:
         raise SpanContextCorruptedException(
@@ -324,7 +324,7 @@ class ZipkinCodec(Codec):
 def header_to_hex(header, max_value=_max_id):
     if not isinstance(header, (str,)):
         raise SpanContextCorruptedException(
-            'malformed trace context "%s", expected hex string' % header)
+            'malformed trace context "%s", expected hex string' % (header,))
 
     try:
         value = int(header, 16)
@@ -333,7 +333,7 @@ def header_to_hex(header, max_value=_max_id):
         return value
     except ValueError:
         raise SpanContextCorruptedException(
-            'malformed trace context "%s", expected hex string' % header)
+            'malformed trace context "%s", expected hex string' % (header,))
 
 
 class B3Codec(Codec):
-- 
2.43.0


From 45a856b692346458c079e8cb56d7e29e067c3053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:24 +0000
Subject: [PATCH 29/50] fix: reject an invalid default lower bound before it
 replaces the sampler

---
 jaeger_client/sampler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 8c9636c..0a23ddb 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -278,6 +278,8 @@ class AdaptiveSampler(Sampler):
         self.default_sampling_probability = \
             strategies.get(DEFAULT_SAMPLING_PROBABILITY_STR, DEFAULT_SAMPLING_PROBABILITY)
         self.lower_bound = strategies.get(DEFAULT_LOWER_BOUND_STR, DEFAULT_LOWER_BOUND)
+        # The lower bound is applied to operations seen later, when it is too late to reject it.
+        RateLimitingSampler(self.lower_bound)
         self.max_operations = max_operations
 
     def is_sampled(self, trace_id: int, operation: str = '') -> _IsSampledType:
-- 
2.43.0


From 5e5989e09bdefc307e8d034506e8efc196ea3453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 30/50] fix: an unnamed debug span uses the same operation name
 for throttling as when reported

---
 jaeger_client/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index 3204e46..6a4093e 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -194,7 +194,7 @@ class Tracer(opentracing.Tracer):
                     tags = tags or {}
                     for k, v in sampler_tags.items():
                         tags[k] = v
-            elif self.is_debug_allowed(operation_name):
+            elif self.is_debug_allowed(operation_name or ''):
                 flags = SAMPLED_FLAG | DEBUG_FLAG
                 tags = tags or {}
                 tags[self.debug_id_header] = parent.debug_id
-- 
2.43.0


From fd2ee894d52bd17f5cdec3c42041f2530935e450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:21 +0000
Subject: [PATCH 31/50] fix: count a trace as joined when a server span
 continues it, and as started otherwise

---
 jaeger_client/tracer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index 6a4093e..d15e426 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -222,7 +222,8 @@ class Tracer(opentracing.Tracer):
                     operation_name=operation_name or '',
                     tags=tags, start_time=start_time, references=valid_references)
 
-        self._emit_span_metrics(span=span, join=rpc_server)
+        self._emit_span_metrics(
+            span=span, join=rpc_server and parent is not None and parent.has_trace)
 
         return span
 
@@ -302,7 +303,7 @@ class Tracer(opentracing.Tracer):
             self.metrics.spans_started_sampled(1)
         else:
             self.metrics.spans_started_not_sampled(1)
-        if not span.context.parent_id:
+        if join or not span.context.parent_id:
             if span.is_sampled():
                 if join:
                     self.metrics.traces_joined_sampled(1)
-- 
2.43.0


From 39273ff71bdf923c0e96837119ebc9c331e7cfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:23 +0000
Subject: [PATCH 32/50] fix: create each Prometheus metric only once when
 threads ask for it together

---
 jaeger_client/metrics/prometheus.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jaeger_client/metrics/prometheus.py b/jaeger_client/metrics/prometheus.py
index e9e169a..801e37c 100644
--- a/jaeger_client/metrics/prometheus.py
+++ b/jaeger_client/metrics/prometheus.py
@@ -15,6 +15,7 @@
 from jaeger_client.metrics import MetricsFactory
 from collections import defaultdict
 from prometheus_client import Counter, Gauge
+from threading import Lock
 from typing import Any, Optional, Dict, Callable, DefaultDict
 
 
@@ -24,6 +25,7 @@ class PrometheusMetricsFactory(MetricsFactory):
     """
     def __init__(self, namespace: str = '', service_name_label: Optional[str] = None) -> None:
         self._cache: DefaultDict = defaultdict(object)
+        self._lock = Lock()
         self._namespace = namespace
         self._service_name_label = service_name_label
 
@@ -39,11 +41,12 @@ class PrometheusMetricsFactory(MetricsFactory):
         label_name_list = self._get_tag_name_list(tags)
         cache_key = (name, tuple(label_name_list))
 
-        metric = self._cache.get(cache_key)
-        if metric is None:
-            metric = metricType(name=name, documentation=name,
-                                labelnames=label_name_list, namespace=self._namespace)
-            self._cache[cache_key] = metric
+        with self._lock:
+            metric = self._cache.get(cache_key)
+            if metric is None:
+                metric = metricType(name=name, documentation=name,
+                                    labelnames=label_name_list, namespace=self._namespace)
+                self._cache[cache_key] = metric
 
         if tags is not None and len(tags) > 0:
             metric = metric.labels(**tags)
-- 
2.43.0


From f8cd9834eae7e70c2aca659b02429d3716045bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 33/50] fix: bracket IPv6 agent addresses in sampling and
 throttling request URLs

---
 jaeger_client/local_agent_net.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/local_agent_net.py b/jaeger_client/local_agent_net.py
index 7f95606..63fda49 100644
--- a/jaeger_client/local_agent_net.py
+++ b/jaeger_client/local_agent_net.py
@@ -33,7 +33,10 @@ class LocalAgentHTTP(object):
     def _request(self, path, timeout=DEFAULT_TIMEOUT, args=None):
         http_client = tornado.httpclient.AsyncHTTPClient(
             defaults=dict(request_timeout=timeout))
-        url = 'http://%s:%d/%s' % (self.agent_http_host, self.agent_http_port, path)
+        host = self.agent_http_host
+        if ':' in host and not host.startswith('['):
+            host = '[%s]' % host  # IPv6 address literal
+        url = 'http://%s:%d/%s' % (host, self.agent_http_port, path)
         if args:
             url = url_concat(url, args)
         return http_client.fetch(url)
-- 
2.43.0


From ee4222264e1dedfbc898e68bfc09563a5935d880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:10 +0000
Subject: [PATCH 34/50] fix: convert nested downstreams to thriftrw at every
 level of a join request

---
 crossdock/server/thriftrw_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crossdock/server/thriftrw_serializer.py b/crossdock/server/thriftrw_serializer.py
index 650e991..1cbb4d3 100644
--- a/crossdock/server/thriftrw_serializer.py
+++ b/crossdock/server/thriftrw_serializer.py
@@ -29,7 +29,7 @@ def downstream_to_thriftrw(service, downstream):
                               downstream.host,
                               downstream.port,
                               downstream.transport,
-                              downstream.downstream)
+                              downstream_to_thriftrw(service, downstream.downstream))
 
 
 def join_trace_request_to_thriftrw(service, jtr):
-- 
2.43.0


From ceaf9941252f1590a5df3c2e0009d3ecfc45a195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 35/50] fix: look for the address of eth0, eth1, ... and not of
 interfaces named with NUL bytes

---
 jaeger_client/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/utils.py b/jaeger_client/utils.py
index ff464b4..ca2b5de 100644
--- a/jaeger_client/utils.py
+++ b/jaeger_client/utils.py
@@ -93,7 +93,7 @@ def get_local_ip_by_interfaces() -> Optional[str]:
     ip = None
     # Check eth0, eth1, eth2, en0, ...
     interfaces = [
-        i + bytes(n) for i in (b'eth', b'en', b'wlan') for n in range(3)
+        i + str(n).encode() for i in (b'eth', b'en', b'wlan') for n in range(3)
     ]  # :(
     for interface in interfaces:
         try:
-- 
2.43.0


From 84bc0937530e043e1aa36221a66a24f0b68623ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 36/50] fix: determine the local address when no host name can
 be resolved

---
 jaeger_client/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/utils.py b/jaeger_client/utils.py
index ca2b5de..644109c 100644
--- a/jaeger_client/utils.py
+++ b/jaeger_client/utils.py
@@ -66,8 +66,12 @@ def local_ip() -> Optional[str]:
 
     try:
         ip = socket.gethostbyname(socket.gethostname())
-    except IOError:
-        ip = socket.gethostbyname('localhost')
+    except (IOError, UnicodeError):
+        # unknown host name, or one that the resolver cannot encode
+        try:
+            ip = socket.gethostbyname('localhost')
+        except IOError:
+            ip = '127.0.0.1'
     if ip.startswith('127.'):
         ip = get_local_ip_by_interfaces()
         if ip is None:
-- 
2.43.0


From 24e98505010226c192b5c5a9582eb3f3f589916e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 37/50] fix: leave out the ip tag when the address is unknown
 instead of reporting None

---
 jaeger_client/tracer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index d15e426..5035560 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -103,7 +103,11 @@ class Tracer(opentracing.Tracer):
             self.tags.update(tags)
 
         if self.tags.get(constants.JAEGER_IP_TAG_KEY) is None:
-            self.tags[constants.JAEGER_IP_TAG_KEY] = local_ip()
+            ip = local_ip()
+            if ip is not None:
+                self.tags[constants.JAEGER_IP_TAG_KEY] = ip
+            else:
+                self.tags.pop(constants.JAEGER_IP_TAG_KEY, None)
 
         if self.tags.get(constants.JAEGER_HOSTNAME_TAG_KEY) is None:
             try:
-- 
2.43.0


From 623c20544b7a01ab5ce9a07edf527e0e6f3c24c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 38/50] fix: crossdock: convert a trace response without a span
 to its Thrift form

---
 crossdock/server/thriftrw_serializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crossdock/server/thriftrw_serializer.py b/crossdock/server/thriftrw_serializer.py
index 1cbb4d3..583801a 100644
--- a/crossdock/server/thriftrw_serializer.py
+++ b/crossdock/server/thriftrw_serializer.py
@@ -37,6 +37,9 @@ def join_trace_request_to_thriftrw(service, jtr):
 
 
 def observed_span_to_thriftrw(service, observed_span):
+    if observed_span is None:
+        # e.g. the response of a server that does not implement the request
+        return None
     return service.ObservedSpan(traceId=observed_span.traceId,
                                 sampled=observed_span.sampled,
                                 baggage=observed_span.baggage)
-- 
2.43.0


From 5a3330f34cc4b4a84158759c8715645f4ca2ae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:10 +0000
Subject: [PATCH 39/50] fix: report the loopback address when the host has no
 other, instead of None

---
 jaeger_client/tracer.py | 6 +-----
 jaeger_client/utils.py  | 4 ++++
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index 5035560..d15e426 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -103,11 +103,7 @@ class Tracer(opentracing.Tracer):
             self.tags.update(tags)
 
         if self.tags.get(constants.JAEGER_IP_TAG_KEY) is None:
-            ip = local_ip()
-            if ip is not None:
-                self.tags[constants.JAEGER_IP_TAG_KEY] = ip
-            else:
-                self.tags.pop(constants.JAEGER_IP_TAG_KEY, None)
+            self.tags[constants.JAEGER_IP_TAG_KEY] = local_ip()
 
         if self.tags.get(constants.JAEGER_HOSTNAME_TAG_KEY) is None:
             try:
diff --git a/jaeger_client/utils.py b/jaeger_client/utils.py
index 644109c..4e3d024 100644
--- a/jaeger_client/utils.py
+++ b/jaeger_client/utils.py
@@ -73,9 +73,13 @@ def local_ip() -> Optional[str]:
         except IOError:
             ip = '127.0.0.1'
     if ip.startswith('127.'):
+        loopback = ip
         ip = get_local_ip_by_interfaces()
         if ip is None:
             ip = get_local_ip_by_socket()
+        if ip is None:
+            # no other address is known, e.g. there is no network at all
+            ip = loopback
     return ip
 
 
-- 
2.43.0


From 19ff9b1acdee44cefe1860ca02dfe0d60339f857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 40/50] fix: rate limiter measures elapsed time on a monotonic
 clock

---
 jaeger_client/rate_limiter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/rate_limiter.py b/jaeger_client/rate_limiter.py
index 41bf83c..781caf1 100644
--- a/jaeger_client/rate_limiter.py
+++ b/jaeger_client/rate_limiter.py
@@ -47,7 +47,7 @@ class RateLimiter(object):
 
     @staticmethod
     def timestamp():
-        return time.time()
+        return time.monotonic()
 
     def update(self, credits_per_second, max_balance):
         with self.lock:
@@ -67,7 +67,7 @@ class RateLimiter(object):
 
     def _update_balance(self):
         current_time = self.timestamp()
-        # the wall clock may have been set back
+        # the clock may not go backwards
         elapsed_time = max(current_time - self.last_tick, 0)
         self.last_tick = current_time
         self.balance += elapsed_time * self.credits_per_second
-- 
2.43.0


From a17d92605e11db8e59189da2d09e395b634d7649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:53 +0000
Subject: [PATCH 41/50] fix: error reporter measures its interval on a
 monotonic clock

---
 jaeger_client/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/utils.py b/jaeger_client/utils.py
index 4e3d024..d25a484 100644
--- a/jaeger_client/utils.py
+++ b/jaeger_client/utils.py
@@ -33,7 +33,7 @@ class ErrorReporter(object):
     ):
         self.logger = logger
         self.log_interval_minutes = log_interval_minutes
-        self._last_error_reported_at = time.time()
+        self._last_error_reported_at = time.monotonic()
 
     def error(self, *args: Any) -> None:
         if self.logger is None:
@@ -41,7 +41,7 @@ class ErrorReporter(object):
 
         next_logging_deadline = \
             self._last_error_reported_at + (self.log_interval_minutes * 60)
-        current_time = time.time()
+        current_time = time.monotonic()
         if next_logging_deadline >= current_time:
             # If we aren't yet at the next logging deadline
             return
-- 
2.43.0


From 30f12a635a48d26252e0ad5c54a4ac31f9ef7627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 42/50] fix: log the warning about a span finished twice
 without holding the span's lock

---
 jaeger_client/span.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index 652efea..83e2ecc 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -87,12 +87,15 @@ class Span(opentracing.Span):
             return
 
         with self.update_lock:
-            if self.finished:
-                logger.warning('Span has already been finished; will not be reported again.')
-                return
-            self.finished = True
-            self.end_time = finish_time or time.time()
-
+            already_finished = self.finished
+            if not already_finished:
+                self.finished = True
+                self.end_time = finish_time or time.time()
+
+        if already_finished:
+            # not under the lock, a log handler may want to annotate this span
+            logger.warning('Span has already been finished; will not be reported again.')
+            return
         self.tracer.report_span(self)
 
     def set_tag(self, key: str, value: Any) -> 'Span':
-- 
2.43.0


From 8a3622f2b759e56f631c159c37b29123395f7b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:54 +0000
Subject: [PATCH 43/50] fix: convert tag values without holding the span's lock

---
 jaeger_client/span.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index 83e2ecc..f788177 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -103,16 +103,19 @@ class Span(opentracing.Span):
         :param key:
         :param value:
         """
-        with self.update_lock:
-            if key == ext_tags.SAMPLING_PRIORITY and not self._set_sampling_priority(value):
-                return self
-            if self.is_sampled():
-                tag = thrift.make_tag(
-                    key=key,
-                    value=value,
-                    max_length=self.tracer.max_tag_value_length,
-                    max_traceback_length=self._tracer.max_traceback_length,
-                )
+        if key == ext_tags.SAMPLING_PRIORITY:
+            with self.update_lock:
+                if not self._set_sampling_priority(value):
+                    return self
+        if self.is_sampled():
+            # not under the lock, the conversion of the value may use this span
+            tag = thrift.make_tag(
+                key=key,
+                value=value,
+                max_length=self.tracer.max_tag_value_length,
+                max_traceback_length=self._tracer.max_traceback_length,
+            )
+            with self.update_lock:
                 self.tags.append(tag)
         return self
 
-- 
2.43.0


From 9b1e677caf796cd3c16303457d7e5518ed0fe1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 44/50] fix: log that the tracer is already initialized without
 holding the lock

---
 jaeger_client/config.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index 9fa1cf3..9a5bc6b 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -372,11 +372,14 @@ class Config(object):
         """
 
         with Config._initialized_lock:
-            if Config._initialized:
-                logger.warning('Jaeger tracer already initialized, skipping')
-                return None
+            already_initialized = Config._initialized
             Config._initialized = True
 
+        if already_initialized:
+            # not under the lock, a log handler may ask whether we are initialized
+            logger.warning('Jaeger tracer already initialized, skipping')
+            return None
+
         tracer = self.new_tracer(io_loop)
 
         self._initialize_global_tracer(tracer=tracer)
-- 
2.43.0


From 4985672fccb2ded1b20c108395def742a01da5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 45/50] fix: emit the sampler's logs and metrics without
 holding its lock

---
 jaeger_client/sampler.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 0a23ddb..c1e95db 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -407,8 +407,9 @@ class RemoteControlledSampler(Sampler):
             delay = r.random() * self.sampling_refresh_interval
             self.io_loop.call_later(delay=delay,
                                     callback=self._delayed_polling)
-            self.logger.info(
-                'Delaying sampling strategy polling by %d sec', delay)
+        # not under the lock, a log handler may start a span
+        self.logger.info(
+            'Delaying sampling strategy polling by %d sec', delay)
 
     def _delayed_polling(self):
         with self.lock:
@@ -421,9 +422,9 @@ class RemoteControlledSampler(Sampler):
                 return
             self.periodic = periodic
             periodic.start()  # start the periodic cycle
-            self.logger.info(
-                'Tracing sampler started with sampling refresh '
-                'interval %d sec', self.sampling_refresh_interval)
+        self.logger.info(
+            'Tracing sampler started with sampling refresh '
+            'interval %d sec', self.sampling_refresh_interval)
 
     def _create_periodic_callback(self):
         return PeriodicCallback(
@@ -461,24 +462,27 @@ class RemoteControlledSampler(Sampler):
         self.logger.debug('Tracing sampler set to %s', self.sampler)
 
     def _update_sampler(self, response):
-        with self.lock:
-            try:
+        # Metrics and logs are not emitted under the lock, they may start a span.
+        try:
+            with self.lock:
                 if response.get(OPERATION_SAMPLING_STR):
-                    self._update_adaptive_sampler(response.get(OPERATION_SAMPLING_STR))
+                    updated = self._update_adaptive_sampler(response.get(OPERATION_SAMPLING_STR))
                 else:
-                    self._update_rate_limiting_or_probabilistic_sampler(response)
-            except Exception as e:
-                self.metrics.sampler_update_failure(1)
-                self.error_reporter.error(
-                    'Fail to update sampler'
-                    'from jaeger-agent: %s [%s]', e, response)
+                    updated = self._update_rate_limiting_or_probabilistic_sampler(response)
+            if updated:
+                self.metrics.sampler_updated(1)
+        except Exception as e:
+            self.metrics.sampler_update_failure(1)
+            self.error_reporter.error(
+                'Fail to update sampler'
+                'from jaeger-agent: %s [%s]', e, response)
 
     def _update_adaptive_sampler(self, per_operation_strategies):
         if isinstance(self.sampler, AdaptiveSampler):
             self.sampler.update(per_operation_strategies)
         else:
             self.sampler = AdaptiveSampler(per_operation_strategies, self.max_operations)
-        self.metrics.sampler_updated(1)
+        return True
 
     def _update_rate_limiting_or_probabilistic_sampler(self, response):
         s_type = response.get(STRATEGY_TYPE_STR)
@@ -492,8 +496,7 @@ class RemoteControlledSampler(Sampler):
                 raise ValueError(
                     'Rate limiting parameter not in [0, 500) range: %s' % mtps)
             if isinstance(self.sampler, RateLimitingSampler):
-                if self.sampler.update(max_traces_per_second=mtps):
-                    self.metrics.sampler_updated(1)
+                return self.sampler.update(max_traces_per_second=mtps)
             else:
                 new_sampler = RateLimitingSampler(max_traces_per_second=mtps)
         else:
@@ -501,7 +504,8 @@ class RemoteControlledSampler(Sampler):
 
         if self.sampler != new_sampler:
             self.sampler = new_sampler
-            self.metrics.sampler_updated(1)
+            return True
+        return False
 
     def _poll_sampling_manager(self):
         self.logger.debug('Requesting tracing sampler refresh')
-- 
2.43.0


From d34a8714041ee89372fbc63471fb48a743e21f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 46/50] fix: emit the throttler's logs and metrics without
 holding its lock

---
 jaeger_client/throttler.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index 45960d4..78fa075 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -83,15 +83,15 @@ class RemoteThrottler(Throttler):
         with self.lock:
             if operation not in self.credits:
                 self.credits[operation] = 0.0
-                self.metrics.throttled_debug_spans(1)
-                return False
             value = self.credits[operation]
-            if value < MINIMUM_CREDITS:
-                self.metrics.throttled_debug_spans(1)
-                return False
+            allowed = not value < MINIMUM_CREDITS
+            if allowed:
+                self.credits[operation] = value - MINIMUM_CREDITS
 
-            self.credits[operation] = value - MINIMUM_CREDITS
-            return True
+        if not allowed:
+            # not under the lock, the metrics may start a span
+            self.metrics.throttled_debug_spans(1)
+        return allowed
 
     def set_client_id(self, client_id: int) -> None:
         with self.lock:
@@ -113,8 +113,9 @@ class RemoteThrottler(Throttler):
             delay = r.random() * self.refresh_interval
             self.channel.io_loop.call_later(
                 delay=delay, callback=self._delayed_polling)
-            self.logger.info(
-                'Delaying throttling credit polling by %d sec', delay)
+        # not under the lock, a log handler may start a span
+        self.logger.info(
+            'Delaying throttling credit polling by %d sec', delay)
 
     def _operations(self):
         with self.lock:
@@ -138,9 +139,9 @@ class RemoteThrottler(Throttler):
                 return
             self.periodic = periodic
             self.periodic.start()
-            self.logger.info(
-                'Throttling client started with refresh interval %d sec',
-                self.refresh_interval)
+        self.logger.info(
+            'Throttling client started with refresh interval %d sec',
+            self.refresh_interval)
 
     def _fetch_credits(self, operations):
         if not operations:
@@ -198,7 +199,8 @@ class RemoteThrottler(Throttler):
                 if op not in self.credits:
                     self.credits[op] = 0
                 self.credits[op] += balance
-            self.logger.debug('credits = %s', self.credits)
+            credits = dict(self.credits)
+        self.logger.debug('credits = %s', credits)
 
     def close(self) -> None:
         with self.lock:
-- 
2.43.0


From 4c64af3f8ac3dbaa8d382b27dc34c2fd24e59870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 47/50] fix: the flush interval does not depend on the wall
 clock

---
 jaeger_client/reporter.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 5d8b3ef..7ae575e 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -16,6 +16,7 @@
 import asyncio
 import logging
 import threading
+import time
 from typing import List, Dict, Optional, Any
 
 import tornado.gen
@@ -168,8 +169,11 @@ class Reporter(BaseReporter):
             deadline = None
             while len(spans) < self.batch_size:
                 try:
-                    # using timeout allows periodic flush with smaller packet
-                    span = yield self.queue.get(timeout=deadline)
+                    # using timeout allows periodic flush with smaller packet;
+                    # the io_loop goes by the wall clock, which may have been set back since
+                    timeout = None if deadline is None else \
+                        self.io_loop.time() + deadline - time.monotonic()
+                    span = yield self.queue.get(timeout=timeout)
                 except tornado.gen.TimeoutError:
                     break
                 else:
@@ -181,7 +185,7 @@ class Reporter(BaseReporter):
                     else:
                         spans.append(span)
                         if self.flush_interval and deadline is None:
-                            deadline = self.flush_interval + self.io_loop.time()
+                            deadline = self.flush_interval + time.monotonic()
             if spans:
                 yield self._submit(spans)
                 for _ in spans:
-- 
2.43.0


From c9f5c6c63031d13775df60dcf33a967362c27f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:26 +0000
Subject: [PATCH 48/50] fix: 0 is not a valid trace or span id

---
 jaeger_client/tracer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index d15e426..b8ab00a 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -327,7 +327,11 @@ class Tracer(opentracing.Tracer):
         return self.random.getrandbits(constants.MAX_ID_BITS)
 
     def _random_id(self, bitsize: int) -> int:
-        return self.random.getrandbits(bitsize)
+        value = 0
+        while not value:
+            # 0 stands for no id
+            value = self.random.getrandbits(bitsize)
+        return value
 
     def is_debug_allowed(self, *args: Any, **kwargs: Any) -> bool:
         if not self.throttler:
-- 
2.43.0


From 3da8c4609c04917aef2da827e0627ce67303817a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 49/50] fix: request timeout applies to the requests of the
 client and to no others

---
 jaeger_client/local_agent_net.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/local_agent_net.py b/jaeger_client/local_agent_net.py
index 63fda49..c50a66d 100644
--- a/jaeger_client/local_agent_net.py
+++ b/jaeger_client/local_agent_net.py
@@ -31,15 +31,15 @@ class LocalAgentHTTP(object):
         self.agent_http_port = int(port)
 
     def _request(self, path, timeout=DEFAULT_TIMEOUT, args=None):
-        http_client = tornado.httpclient.AsyncHTTPClient(
-            defaults=dict(request_timeout=timeout))
+        # This client is shared with everybody who uses the same event loop.
+        http_client = tornado.httpclient.AsyncHTTPClient()
         host = self.agent_http_host
         if ':' in host and not host.startswith('['):
             host = '[%s]' % host  # IPv6 address literal
         url = 'http://%s:%d/%s' % (host, self.agent_http_port, path)
         if args:
             url = url_concat(url, args)
-        return http_client.fetch(url)
+        return http_client.fetch(url, request_timeout=timeout)
 
     def request_sampling_strategy(self, service_name, timeout=DEFAULT_TIMEOUT):
         return self._request('sampling', timeout=timeout, args={'service': service_name})
-- 
2.43.0


From f006e821a99bf2331e055c84c5d927159c334d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:56 +0000
Subject: [PATCH 50/50] fix: extracting a binary carrier takes time in
 proportion to its size

---
 jaeger_client/codecs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 096bd4c..9934cc5 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -181,7 +181,8 @@ class BinaryCodec(Codec):
             trace_id = low_trace_id
 
         if baggage_count != 0:
-            baggage_data = carrier[37:]
+            # a view, so that the rest of the carrier is not copied for every item
+            baggage_data = memoryview(bytes(carrier))[37:]
             for _ in range(baggage_count):
                 key, value, bytes_read = self._unpack_baggage_item(baggage_data)
                 baggage[key] = value
@@ -216,7 +217,7 @@ class BinaryCodec(Codec):
         bytes_read = 4 + data_len
         if len(data) < bytes_read:
             raise struct.error('truncated baggage item')
-        return data[4:bytes_read].decode('utf-8'), bytes_read
+        return str(data[4:bytes_read], 'utf-8'), bytes_read
 
 
 def span_context_to_string(trace_id, span_id, parent_id, flags):
-- 
2.43.0

