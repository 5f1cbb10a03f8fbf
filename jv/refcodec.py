"""Independent readers and writers of the documented propagation formats."""
import string
import struct

HEX = set('0123456789abcdef')


def read_text_id(v):
    """'{trace-id}:{span-id}:{parent-span-id}:{flags}' with variable-length lower-case hex numbers."""
    parts = v.split(':')
    if len(parts) != 4:
        raise ValueError('not four parts: %r' % v)
    for p in parts:
        if not p or not set(p) <= HEX:
            raise ValueError('not lower-case hex: %r' % v)
    return tuple(int(p, 16) for p in parts)


def write_text_id(t, s, p, f, rng=None):
    """As any conforming peer may write it: optional zero padding, either case."""
    out = []
    for n, w in ((t, 32 if t >= 1 << 64 else 16), (s, 16), (p or 0, 16), (f, 2)):
        x = '%x' % n
        if rng is not None and rng.random() < 0.3:
            x = x.zfill(w)
        if rng is not None and rng.random() < 0.2:
            x = x.upper()
        out.append(x)
    return ':'.join(out)


_SAFE = set(string.ascii_letters + string.digits + '-._~')


def url_decode(v):
    """RFC 3986 percent-decoding of an ASCII header value."""
    out = bytearray()
    i = 0
    while i < len(v):
        c = v[i]
        if ord(c) < 0x21 or ord(c) > 0x7e:
            raise ValueError('character %r is not allowed in a header value' % c)
        if c == '%':
            out.append(int(v[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(c))
            i += 1
    return out.decode('utf-8')


def url_encode(v, rng=None):
    out = []
    for b in v.encode('utf-8'):
        c = chr(b)
        if c in _SAFE and (rng is None or rng.random() < 0.95):
            out.append(c)
        else:
            x = '%%%02X' % b
            out.append(x.lower() if rng is not None and rng.random() < 0.3 else x)
    return ''.join(out)


def read_binary(b):
    """The layout of jaeger-client-go's binary propagator."""
    b = bytes(b)
    high, low, span, parent, flags, n = struct.unpack_from('>QQQQBI', b, 0)
    pos = struct.calcsize('>QQQQBI')
    assert pos == 37
    bag = []
    for _ in range(n):
        kv = []
        for _ in range(2):
            (ln,) = struct.unpack_from('>I', b, pos)
            pos += 4
            if pos + ln > len(b):
                raise ValueError('truncated')
            kv.append(b[pos:pos + ln].decode('utf-8'))
            pos += ln
        bag.append(tuple(kv))
    if pos != len(b):
        raise ValueError('%d trailing bytes' % (len(b) - pos))
    return (high << 64) | low, span, parent, flags, bag


def write_binary(t, s, p, f, baggage):
    out = struct.pack('>QQQQBI', t >> 64, t & ((1 << 64) - 1), s, p or 0, f, len(baggage))
    for k, v in baggage.items():
        for x in (k, v):
            x = x.encode('utf-8')
            out += struct.pack('>I', len(x)) + x
    return bytearray(out)


def read_b3(h):
    """B3 multi-header: ids as fixed-width lower-case hex, the decision in X-B3-Sampled or X-B3-Flags."""
    t, s, p = h['X-B3-TraceId'], h['X-B3-SpanId'], h.get('X-B3-ParentSpanId')
    if len(t) not in (16, 32) or len(s) != 16 or (p is not None and len(p) != 16):
        raise ValueError('wrong id width')
    for x in (t, s, p or '0'):
        if not set(x) <= HEX:
            raise ValueError('not lower-case hex: %r' % x)
    fl, sa = h.get('X-B3-Flags'), h.get('X-B3-Sampled')
    if fl not in (None, '0', '1') or sa not in (None, '0', '1'):
        raise ValueError('bad flags %r %r' % (fl, sa))
    debug = fl == '1'
    return int(t, 16), int(s, 16), int(p, 16) if p is not None else None, debug or sa == '1', debug


def vary_case(rng, s):
    k = rng.randrange(4)
    if k == 0:
        return s
    if k == 1:
        return s.upper()
    if k == 2:
        return s.title()
    return ''.join(c.upper() if rng.random() < 0.5 else c.lower() for c in s)
