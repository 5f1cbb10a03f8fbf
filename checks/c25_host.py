"""C25: a tracer can be built on any host and describes that host truthfully."""
import builtins
import contextlib
import errno
import socket
import struct
import sys

from jv import gen, wire
from jv.runner import Scenario
from jv.world import J, Tap, World, rec_factory, virtual_sender

ID = 'C25'
RULE = ('tracers are built inside a simulated host whose host name, name service, interfaces and routes are random and fail in random ways; '
        'the monitor watches the construction and compares the process description decoded from the datagrams with that host; distinct by host')
ASSUMPTIONS = ['sockets can be created', 'interfaces are asked through the SIOCGIFADDR ioctl', 'an address beginning with 127. is not worth reporting while another one is known']

NAMES = ['web-1', 'web-1.example.org', 'localhost', 'a' * 64, 'a..b', 'host.', 'h\u00f4te', '', 'UPPER', 'x' * 63 + '.local', '10', 'k8s-pod-7f9c']
IFACES = ['eth0', 'eth1', 'eth2', 'en0', 'en1', 'en2', 'wlan0', 'wlan1', 'wlan2']


def lookup_errors():
    return [socket.gaierror(-2, 'Name or service not known'), socket.gaierror(-3, 'Temporary failure in name resolution'), socket.herror(1, 'Unknown host'),
            socket.timeout('timed out'), OSError(errno.EIO, 'Input/output error'), UnicodeError('label too long'),
            UnicodeEncodeError('idna', 'x', 0, 1, 'label empty or too long')]


class Host(object):
    """What the operating system would answer."""

    def __init__(self, rng):
        self.rng = rng
        self.name = rng.choice(NAMES) if rng.random() < 0.85 else OSError(errno.EPERM, 'gethostname failed')
        self.own = rng.choice(['203.0.113.%d' % rng.randint(1, 254), '127.0.1.1', '127.0.0.1', '198.51.100.7'] + [rng.choice(lookup_errors()) for _ in range(3)])
        self.local = rng.choice(['127.0.0.1', '127.0.0.1', '127.0.0.2', rng.choice(lookup_errors()[:5])])
        self.ifs = {n: '192.0.2.%d' % rng.randint(1, 254) for n in rng.sample(IFACES, rng.choice([0, 0, 1, 1, 2, 3]))}
        self.fcntl = rng.random() < 0.9
        self.route = rng.choice(['10.1.2.3', OSError(errno.ENETUNREACH, 'Network is unreachable'), PermissionError(errno.EPERM, 'not permitted')])
        self.calls = []

    def gethostname(self):
        self.calls.append('gethostname')
        if isinstance(self.name, Exception):
            raise self.name
        return self.name

    def gethostbyname(self, name):
        self.calls.append('lookup')
        a = self.local if name == 'localhost' else name if name[:1].isdigit() and name.count('.') == 3 else self.own
        if isinstance(a, Exception):
            raise a
        return a

    def gethostbyname_ex(self, name):
        return name, [], [self.gethostbyname(name)]

    def getaddrinfo(self, host, port, family=0, type=0, proto=0, flags=0):
        return [(socket.AF_INET, type or socket.SOCK_DGRAM, proto, '', (self.gethostbyname(host or 'localhost'), port or 0))]

    def ioctl(self, fd, request, arg=0, mutate_flag=True):
        assert request == 0x8915, request
        self.calls.append('ioctl')
        name = bytes(arg[:16]).split(b'\0')[0].decode()
        if name not in self.ifs:
            raise OSError(errno.ENODEV if self.rng.random() < 0.7 else errno.EADDRNOTAVAIL, 'No such device')
        return bytes(arg[:16]) + struct.pack('=HH', socket.AF_INET, 0) + socket.inet_aton(self.ifs[name]) + bytes(arg[24:])

    def known(self):
        """Addresses of this host that a client can find out."""
        own = self.local if self.name == 'localhost' else self.own
        a = [own] if isinstance(own, str) and isinstance(self.name, str) else []
        a += self.ifs.values() if self.fcntl else []
        a += [self.route] if isinstance(self.route, str) else []
        return {x for x in a if not x.startswith('127.')}

    @contextlib.contextmanager
    def __call__(self):
        host = self
        base = socket.socket

        class Sock(base):
            _jv_probe = False

            def connect(self, addr):
                if self.type & 0xf == socket.SOCK_DGRAM and self.family == socket.AF_INET and not str(addr[0]).startswith(('127.', 'localhost')):
                    host.calls.append('route')
                    if isinstance(host.route, Exception):
                        raise host.route
                    self._jv_probe = True
                    return None
                return base.connect(self, addr)

            def getsockname(self):
                return (host.route, 40000) if self._jv_probe else base.getsockname(self)
        import fcntl
        saved = {n: getattr(socket, n) for n in ('gethostname', 'gethostbyname', 'gethostbyname_ex', 'getaddrinfo', 'socket')}
        ioctl = fcntl.ioctl
        imp = builtins.__import__

        def no_fcntl(name, *a, **k):
            if name == 'fcntl':
                raise ImportError('No module named fcntl')
            return imp(name, *a, **k)
        try:
            for n in saved:
                setattr(socket, n, Sock if n == 'socket' else getattr(self, n))
            fcntl.ioctl = self.ioctl
            if not self.fcntl:
                builtins.__import__ = no_fcntl
                sys.modules.pop('fcntl')
            yield
        finally:
            builtins.__import__ = imp
            sys.modules['fcntl'] = fcntl
            fcntl.ioctl = ioctl
            for n, v in saved.items():
                setattr(socket, n, v)

    def describe(self):
        return {k: repr(v) for k, v in vars(self).items() if k not in ('rng', 'calls')}


def hosts(ctx):
    rng = ctx.rng
    host = Host(rng)
    ctx.notes.update(host=host.describe())
    with World() as world, Tap() as tap:
        sender = virtual_sender(world)
        reporter = J.Reporter(channel=sender, batch_size=1, metrics_factory=rec_factory())
        tags = {}
        if rng.random() < 0.3:
            tags['hostname'] = rng.choice(['mine', 'h\u00f4te', None if isinstance(host.name, str) else 'mine'])
        if rng.random() < 0.3:
            tags['ip'] = rng.choice(['192.0.2.200', '::1', None])
        if rng.random() < 0.3:
            tags['k'] = gen.word(rng)
        given = dict(tags) if tags or rng.random() < 0.5 else None
        ctx.notes.update(tags=given)
        with host():
            try:
                tracer = J.Tracer('svc', reporter, J.ConstSampler(True), tags=given)
            except Exception as e:
                ctx.fail('tracer-not-built', 'building a tracer failed with %r' % (e,), calls=host.calls)
        tracer.start_span('op', ignore_active_span=True).finish()
        world.run_for(2)
        ctx.check(len(tap.sent) == 1, 'not-sent', '%d datagrams for one span' % len(tap.sent))
        got = {}
        for k, kind, v in wire.tag_list(wire.decode(tap.sent[0][1])['process']['tags']):
            ctx.check(k not in got, 'tag-twice', 'process tag %r twice' % k)
            got[k] = (kind, v)
        w = dict(process=repr(got))
        want = tags.get('hostname') if tags.get('hostname') is not None else host.name if isinstance(host.name, str) else None
        ctx.check(got.get('hostname') == (('str', want) if want is not None else None), 'hostname', 'hostname tag %r, expected %r' % (got.get('hostname'), want), **w)
        if tags.get('ip') is not None:
            ctx.check(got.get('ip') == ('str', tags['ip']), 'ip', 'ip tag %r, configured %r' % (got.get('ip'), tags['ip']), **w)
            ctx.count('configured')
        else:
            known = host.known()
            ip = got.get('ip')
            if known:
                ctx.check(ip is not None and ip[0] == 'str' and ip[1] in known, 'ip', 'ip tag %r, addresses of the host: %s' % (ip, sorted(known)), **w)
                ctx.count('found')
            else:
                ctx.check(ip is not None and ip[0] == 'str' and ip[1].startswith('127.'), 'ip', 'ip tag %r although no address is known' % (ip,), **w)
                ctx.count('unknown')
        ctx.check(got.get('jaeger.version', ('', ''))[1].startswith('Python-'), 'version', 'version tag %r' % (got.get('jaeger.version'),), **w)
        if 'k' in tags:
            ctx.check(got.get('k') == ('str', tags['k']), 'user-tag', 'tag k is %r' % (got.get('k'),), **w)
        ctx.check(set(got) <= {'hostname', 'ip', 'jaeger.version', 'k'}, 'extra-tag', 'process tags %s' % sorted(got), **w)
        ctx.event(len(host.calls))
        ctx.key(repr(sorted(host.describe().items())), repr(given))
        ctx.sample({'host': host.describe(), 'process': repr(got)})


SCENARIOS = [
    Scenario('hosts', hosts, 700, 20000, need=('events', 'found', 'unknown', 'configured')),
]
