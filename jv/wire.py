"""Independent decoder for the Thrift compact protocol message Agent.emitBatch(Batch).

Written from the Thrift compact protocol specification and jaeger.thrift/agent.thrift;
uses none of the code under test nor the thrift library.
"""
import functools
import struct


class WireError(Exception):
    pass


class _R(object):
    def __init__(self, b):
        self.b = b
        self.p = 0

    def byte(self):
        if self.p >= len(self.b):
            raise WireError('truncated at %d' % self.p)
        v = self.b[self.p]
        self.p += 1
        return v

    def take(self, n):
        if n < 0 or self.p + n > len(self.b):
            raise WireError('truncated: need %d bytes at %d of %d' % (n, self.p, len(self.b)))
        v = self.b[self.p:self.p + n]
        self.p += n
        return v

    def varint(self):
        r = 0
        s = 0
        while True:
            x = self.byte()
            r |= (x & 0x7f) << s
            if not x & 0x80:
                return r
            s += 7
            if s > 70:
                raise WireError('varint too long')

    def zig(self, bits):
        n = self.varint()
        if n >= 1 << bits:
            raise WireError('varint exceeds %d bits' % bits)
        return (n >> 1) ^ -(n & 1)

    def binary(self):
        return self.take(self.varint())

    def string(self):
        raw = self.binary()
        try:
            return raw.decode('utf-8')
        except UnicodeDecodeError as e:
            raise WireError('invalid utf-8: %s' % e)


T_STOP, T_TRUE, T_FALSE, T_BYTE, T_I16, T_I32, T_I64, T_DOUBLE, T_BIN, T_LIST, T_SET, T_MAP, T_STRUCT = range(13)

# schema: field id -> (name, type, sub-schema, required)
TAG = {1: ('key', 'str', None, True), 2: ('vType', 'i32', None, True), 3: ('vStr', 'str', None, False),
       4: ('vDouble', 'dbl', None, False), 5: ('vBool', 'bool', None, False), 6: ('vLong', 'i64', None, False),
       7: ('vBinary', 'bin', None, False)}
LOG = {1: ('timestamp', 'i64', None, True), 2: ('fields', 'list', ('struct', TAG), True)}
REF = {1: ('refType', 'i32', None, True), 2: ('traceIdLow', 'i64', None, True),
       3: ('traceIdHigh', 'i64', None, True), 4: ('spanId', 'i64', None, True)}
SPAN = {1: ('traceIdLow', 'i64', None, True), 2: ('traceIdHigh', 'i64', None, True), 3: ('spanId', 'i64', None, True),
        4: ('parentSpanId', 'i64', None, True), 5: ('operationName', 'str', None, True),
        6: ('references', 'list', ('struct', REF), False), 7: ('flags', 'i32', None, True),
        8: ('startTime', 'i64', None, True), 9: ('duration', 'i64', None, True),
        10: ('tags', 'list', ('struct', TAG), False), 11: ('logs', 'list', ('struct', LOG), False)}
PROCESS = {1: ('serviceName', 'str', None, True), 2: ('tags', 'list', ('struct', TAG), False)}
CLIENT_STATS = {1: ('fullQueueDroppedSpans', 'i64', None, True), 2: ('tooLargeDroppedSpans', 'i64', None, True),
                3: ('failedToEmitSpans', 'i64', None, True)}
BATCH = {1: ('process', 'struct', PROCESS, True), 2: ('spans', 'list', ('struct', SPAN), True),
         3: ('seqNo', 'i64', None, False), 4: ('stats', 'struct', CLIENT_STATS, False)}
ARGS = {1: ('batch', 'struct', BATCH, True)}

_CT = {'i32': (T_I32,), 'i64': (T_I64,), 'dbl': (T_DOUBLE,), 'str': (T_BIN,), 'bin': (T_BIN,),
       'list': (T_LIST,), 'struct': (T_STRUCT,), 'bool': (T_TRUE, T_FALSE)}


def _value(r, typ, sub, ct):
    if typ == 'bool':
        return ct == T_TRUE
    if typ == 'i32':
        return r.zig(32)
    if typ == 'i64':
        return r.zig(64)
    if typ == 'dbl':
        return struct.unpack('<d', r.take(8))[0]
    if typ == 'str':
        return r.string()
    if typ == 'bin':
        return r.binary()
    if typ == 'list':
        h = r.byte()
        size, et = h >> 4, h & 0xf
        if size == 15:
            size = r.varint()
        ityp, isub = sub
        if size and et not in _CT[ityp]:
            raise WireError('list element type %d, expected %s' % (et, ityp))
        if size > len(r.b):
            raise WireError('list size %d larger than message' % size)
        return [_value(r, ityp, isub, et) for _ in range(size)]
    if typ == 'struct':
        return _struct(r, sub)
    raise AssertionError(typ)


def _struct(r, schema):
    out = {}
    last = 0
    while True:
        h = r.byte()
        ct = h & 0xf
        if ct == T_STOP:
            break
        delta = h >> 4
        fid = last + delta if delta else r.zig(16)
        last = fid
        if fid not in schema:
            raise WireError('unknown field id %d' % fid)
        name, typ, sub, _req = schema[fid]
        if ct not in _CT[typ]:
            raise WireError('field %s has wire type %d, expected %s' % (name, ct, typ))
        if name in out:
            raise WireError('field %s repeated' % name)
        out[name] = _value(r, typ, sub, ct)
    for name, typ, sub, req in schema.values():
        if req and name not in out:
            raise WireError('required field %s missing' % name)
    return out


@functools.lru_cache(maxsize=512)
def decode(data):
    """Decode one datagram; returns the batch as nested dicts/lists or raises WireError."""
    r = _R(data)
    if r.byte() != 0x82:
        raise WireError('bad protocol id')
    vt = r.byte()
    if vt & 0x1f != 1:
        raise WireError('bad version')
    mtype = (vt >> 5) & 7
    if mtype not in (1, 4):
        raise WireError('message type %d' % mtype)
    r.varint()  # seqid
    if r.string() != 'emitBatch':
        raise WireError('wrong method')
    args = _struct(r, ARGS)
    if r.p != len(data):
        raise WireError('%d trailing bytes after the message' % (len(data) - r.p))
    return args['batch']


TAG_TYPES = {0: 'str', 1: 'dbl', 2: 'bool', 3: 'i64', 4: 'bin'}
_TAG_FIELD = {0: 'vStr', 1: 'vDouble', 2: 'vBool', 3: 'vLong', 4: 'vBinary'}


def tag_value(t):
    """(key, type name, value) of a decoded tag; raises if the value does not match its type."""
    vt = t['vType']
    f = _TAG_FIELD.get(vt)
    if f is None:
        raise WireError('tag type %r' % vt)
    if f not in t:
        raise WireError('tag %r of type %s has no value field' % (t['key'], TAG_TYPES[vt]))
    for g in _TAG_FIELD.values():
        if g != f and g in t:
            raise WireError('tag %r carries two values' % t['key'])
    return t['key'], TAG_TYPES[vt], t[f]


def tag_list(tags):
    return [tag_value(t) for t in (tags or [])]


def u64(v):
    return v & 0xffffffffffffffff


def span_ids(s):
    """(trace id, span id, parent id) as unsigned ints."""
    return (u64(s['traceIdHigh']) << 64) | u64(s['traceIdLow']), u64(s['spanId']), u64(s['parentSpanId'])
