"""Simulated network below the real urllib / http.client: name resolution, connections and byte
streams.  Servers are plain byte-string responders; faults are drawn from the "fault" stream."""
import errno
import io
import socket

from . import kernel

_real = {"create_connection": socket.create_connection, "getaddrinfo": socket.getaddrinfo}


class Fault:
    """What happens to one connection."""
    def __init__(self, kind="none", cut=None, status=None):
        self.kind = kind        # none refused dns reset timeout cut status
        self.cut = cut          # bytes of the response delivered before the end or the reset
        self.status = status


class Net:
    def __init__(self, ctx):
        self.ctx = ctx
        self.pages = {}             # url -> bytes
        self.requests = []          # urls asked for
        self.next_faults = []       # faults of the next connections, in order; then none
        self.chunked = 0.0          # probability of short reads
        self.length_header = True   # Content-Length sent (else end of data = end of connection)
        self.delay = 0

    def connect(self, address):
        ctx = self.ctx
        if ctx.fs is not None and ctx.fs.dead:
            raise kernel.SimCrash("dead process used the network")
        f = self.next_faults.pop(0) if self.next_faults else Fault()
        ctx.log("connect", address, f.kind)
        ctx.clock.advance(self.delay)
        if ctx.sched is not None:
            ctx.sched.point("connect")
        if f.kind == "refused":
            ctx.fired("net:refused")
            raise ConnectionRefusedError(errno.ECONNREFUSED, "simulated: connection refused")
        if f.kind == "unreachable":
            ctx.fired("net:unreachable")
            raise OSError(errno.ENETUNREACH, "simulated: network unreachable")
        if f.kind == "dns":
            ctx.fired("net:dns")
            raise socket.gaierror(socket.EAI_NONAME, "simulated: name not known")
        if f.kind == "timeout":
            ctx.fired("net:timeout")
            ctx.clock.advance(120_000_000)
            raise TimeoutError(errno.ETIMEDOUT, "simulated: timed out")
        return SimSocket(self, address, f)


class SimSocket:
    def __init__(self, net, address, fault):
        self.net = net
        self.address = address
        self.fault = fault
        self.sent = b""
        self.closed = False

    def setsockopt(self, *a):
        pass

    def settimeout(self, t):
        pass

    def gettimeout(self):
        return None

    def sendall(self, data):
        if hasattr(data, "read"):
            data = data.read()
        self.sent += bytes(data)

    def send(self, data):
        self.sendall(data)
        return len(data)

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True

    def fileno(self):
        return -1

    def makefile(self, mode="rb", buffering=None, **kw):
        return io.BufferedReader(SimNetRaw(self))

    def response(self):
        head, _, _ = self.sent.partition(b"\r\n\r\n")
        line = head.split(b"\r\n")[0].decode("latin-1").split(" ")
        target = line[1] if len(line) > 1 else "/"
        host = self.address[0]
        url = target if target.startswith("http") else "http://%s%s" % (host, target)
        self.net.requests.append(url)
        body = self.net.pages.get(url)
        status = "200 OK"
        if body is None:
            status, body = "404 Not Found", b"<html>not found</html>"
        if self.fault.kind == "status":
            status = self.fault.status
            body = b"<html>error page</html>"
            self.net.ctx.fired("net:http-" + status[:3])
        head = "HTTP/1.1 %s\r\nContent-Type: application/xml\r\nConnection: close\r\n" % status
        if self.net.length_header:
            head += "Content-Length: %d\r\n" % len(body)
        return head.encode() + b"\r\n", body


class SimNetRaw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock
        self.data = None
        self.pos = 0

    def readable(self):
        return True

    def readinto(self, b):
        net = self.sock.net
        ctx = net.ctx
        if ctx.sched is not None:
            ctx.sched.point("recv")
        f = self.sock.fault
        if self.data is None:
            head, body = self.sock.response()
            if f.kind in ("cut", "reset"):
                cut = min(f.cut, len(body))
                self.end = len(head) + cut
                self.data = head + body
                self.full = cut == len(body)
            else:
                self.data = head + body
                self.end = len(self.data)
        if self.pos >= self.end:
            if f.kind == "reset":
                ctx.fired("net:reset")
                raise ConnectionResetError(errno.ECONNRESET, "simulated: connection reset")
            if f.kind == "cut" and not self.full:
                ctx.fired("net:cut")
            return 0
        n = min(len(b), self.end - self.pos)
        if net.chunked and n > 1 and ctx.c.chance("fault", net.chunked):
            n = 1 + ctx.c.draw("fault", min(n, 700))
            ctx.fired("net:short-recv")
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


def create_connection(address, *a, **kw):
    ctx = kernel.CURRENT
    if ctx is None:
        return _real["create_connection"](address, *a, **kw)
    if ctx.net is None:
        raise OSError(errno.ENETUNREACH, "simulated: no network")
    return ctx.net.connect(address)


def getaddrinfo(host, *a, **kw):
    ctx = kernel.CURRENT
    if ctx is None:
        return _real["getaddrinfo"](host, *a, **kw)
    raise socket.gaierror(socket.EAI_NONAME, "simulated: no resolver")


def install():
    socket.create_connection = create_connection
    socket.getaddrinfo = getaddrinfo
