"""Datagram tap: records (and optionally fails) every datagram the process hands to the kernel."""
import errno
import socket as _socket
import threading

from . import core

_RealSocket = _socket.socket
_real_getaddrinfo = _socket.getaddrinfo

UDP_MAX = 65507

TAP = [None]


class Tap(object):
    """One capture session.  `fault` is called per datagram: returns None to accept or an exception to raise."""

    def __init__(self, fault=None, max_size=UDP_MAX):
        self.fault = fault
        self.max_size = max_size
        self.sent = []        # accepted datagrams: (wall time, bytes, dest, thread id)
        self.attempts = []    # (wall time, size, dest, exception or None, bytes)
        self.elapsed = []     # monotonic time of each attempt
        self.sent_elapsed = []
        self.lock = threading.Lock()
        self.on_send = None
        self.could_wait = []  # timeouts of the sockets of sends that may wait for the network
        self.families = []    # address family of the socket of each sendto()

    def handle(self, data, dest):
        data = bytes(data)
        now, mono = core._time.time(), core._time.monotonic()
        exc = None
        if self.fault is not None:
            exc = self.fault(data, dest)
        if exc is None and len(data) > self.max_size:
            exc = OSError(errno.EMSGSIZE, 'Message too long')
        with self.lock:
            self.elapsed.append(mono)
            self.attempts.append((now, len(data), dest, exc, data))
            if exc is None:
                self.sent_elapsed.append(mono)
                self.sent.append((now, data, dest, threading.get_ident()))
        if self.on_send is not None:
            self.on_send(now, data, dest, exc)
        if exc is not None:
            raise exc
        return len(data)

    def __enter__(self):
        TAP[0] = self
        return self

    def __exit__(self, *a):
        TAP[0] = None


class TapSocket(_RealSocket):
    """socket.socket whose datagram sends go to the active tap."""

    def _tapped(self):
        return TAP[0] is not None and (self.type & 0xf) == _socket.SOCK_DGRAM

    def _mode(self, flags=0):
        if self.gettimeout() != 0 and not flags & _socket.MSG_DONTWAIT:
            TAP[0].could_wait.append(self.gettimeout())

    def sendto(self, data, *args):
        if self._tapped():
            self._mode(args[0] if len(args) > 1 else 0)
            TAP[0].families.append(self.family)
            return TAP[0].handle(data, args[-1])
        return _RealSocket.sendto(self, data, *args)

    def connect(self, addr):
        if self._tapped():
            _peers[id(self)] = addr
            try:
                return _RealSocket.connect(self, addr)
            except OSError:
                return None
        return _RealSocket.connect(self, addr)

    def send(self, data, *flags):
        if self._tapped():
            self._mode(*flags)
            return TAP[0].handle(data, self._peer())
        return _RealSocket.send(self, data, *flags)

    def sendall(self, data, *flags):
        if self._tapped():
            self._mode(*flags)
            TAP[0].handle(data, self._peer())
            return None
        return _RealSocket.sendall(self, data, *flags)

    def sendmsg(self, buffers, ancdata=(), flags=0, address=None):
        if self._tapped():
            self._mode(flags)
            return TAP[0].handle(b''.join(bytes(b) for b in buffers), address or self._peer())
        if address is None:
            return _RealSocket.sendmsg(self, buffers, ancdata, flags)
        return _RealSocket.sendmsg(self, buffers, ancdata, flags, address)

    def _peer(self):
        return _peers.get(id(self))


_peers = {}


def install():
    _socket.socket = TapSocket
    _socket.SocketType = TapSocket


def fault_exceptions():
    """Kinds of failure the network layer can produce for a datagram send."""
    return [
        lambda: BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable'),
        lambda: ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused'),
        lambda: OSError(errno.ENETUNREACH, 'Network is unreachable'),
        lambda: OSError(errno.EMSGSIZE, 'Message too long'),
        lambda: OSError(errno.ENOBUFS, 'No buffer space available'),
        lambda: PermissionError(errno.EPERM, 'Operation not permitted'),
        lambda: _socket.gaierror(_socket.EAI_NONAME, 'Name or service not known'),
        lambda: _socket.timeout('timed out'),
        lambda: OSError(errno.EBADF, 'Bad file descriptor'),
        lambda: ValueError('injected fault: value'),
        lambda: RuntimeError('injected fault: runtime'),
        lambda: UnicodeError('injected fault: idna'),
        lambda: OverflowError('injected fault: port must be 0-65535.'),
        lambda: MemoryError('injected fault: memory'),
        lambda: KeyError('injected fault: key'),
    ]
