"""Input generators."""
import enum
import sys

CHARS = ['a', 'b', 'Z', '0', '_', '-', '.', ' ', '%', '+', '&', '=', '?', '#', '/', '\\', ':', ';', ',', '"', "'", '\t', '\n',
         '\0', '\x7f', 'é', 'ß', 'ü', '\u0130', '\u2028', '\u4e2d', '\u6587', '\uffff', '\U0001F600', '\U0010ffff', '{', '}', '<']


def unreserved(s):
    """Never the tag by which the harness tells spans apart."""
    return 'uie' if s.lower() == 'uid' else s


def text(rng, lo=0, hi=12, chars=None):
    chars = chars or CHARS
    return unreserved(''.join(rng.choice(chars) for _ in range(rng.randint(lo, hi))))


def word(rng, lo=1, hi=8):
    return unreserved(''.join(rng.choice('abcdefghijklmnopqrstuvwxyz0123456789-_.') for _ in range(rng.randint(lo, hi))))


EDGE64 = [1, 2, 0xff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 1, (1 << 64) - 2]


def id64(rng):
    if rng.random() < 0.3:
        return rng.choice(EDGE64)
    return rng.getrandbits(rng.choice([8, 32, 60, 63, 64, 64, 64])) or 1


def trace_id(rng):
    r = rng.random()
    if r < 0.45:
        return id64(rng)
    if r < 0.6:
        return rng.choice([1 << 64, (1 << 64) + 1, (1 << 127), (1 << 128) - 1, 1 << 127 | 1, (5 << 64)])
    return rng.getrandbits(rng.choice([65, 72, 100, 127, 128, 128])) or 1


def flags(rng, sampled=None, debug=None):
    """A legal flags byte: mostly 0, 1, 3, sometimes any byte."""
    f = rng.choice([0, 1, 1, 3, 3, 2, 5, 9, 0x10, 0x11, 0x81, 0xfd, 0xff, rng.getrandbits(8)])
    if sampled is not None:
        f = f | 1 if sampled else f & ~3
    if debug is not None:
        f = f | 3 if debug else f & ~2
    return f


class Color(enum.IntEnum):
    RED = 3


class Weird(object):
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


class Raises(object):
    def __str__(self):
        raise ValueError('no text')


class Str(str):
    pass


class Int(int):
    pass


class Float(float):
    pass


def make_tb(rng):
    def f(n):
        if n:
            return f(n - 1)
        raise ValueError('x')
    try:
        f(rng.choice([0, 1, 3, 40]))
    except ValueError:
        return sys.exc_info()[2]


def tag_value(rng, big=40):
    """A value every conforming client can carry with its type."""
    k = rng.randrange(16)
    if k == 0:
        return rng.random() < 0.5
    if k in (1, 2):
        return rng.choice([0, 1, -1, 2 ** 31, -2 ** 31, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, rng.getrandbits(62), -rng.getrandbits(60)])
    if k in (3, 4):
        return rng.choice([0.0, -0.0, 1.5, -2.25, 1e300, 5e-324, float('inf'), float('-inf'), rng.random(), rng.uniform(-1e9, 1e9)])
    if k == 5:
        return Int(rng.getrandbits(40))
    if k == 6:
        return rng.choice([Color.RED, Float(2.5), Str('sub'), Weird('weird'), Raises()])
    if k == 7:
        return rng.choice([None, b'bytes', [1, 'a'], {'k': 1}, (1,), {1}, object, ValueError('boom')])
    if k == 8:
        return make_tb(rng)
    if k == 9:
        return text(rng, 0, 3) * rng.randint(1, big)
    return text(rng, 0, 20)


def key(rng):
    k = rng.random()
    if k < 0.8:
        return word(rng)
    if k < 0.95:
        return text(rng, 0, 10)
    return rng.choice([1, 2.5, None, True, ('t',), b'k'])
