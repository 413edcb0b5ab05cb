"""A simulated HTTP network under the real urllib.request/http.client code.

Only the socket is simulated: its bytes arrive in drawn chunks, get cut, reset
or delayed (in simulated time).
"""
import http.client
import io
import socket
import urllib.request


class SimRaw(io.RawIOBase):
    def __init__(self, net, data, cut, reset):
        self.net, self.data, self.pos = net, data, 0
        self.cut, self.reset = cut, reset

    def readable(self):
        return True

    def readinto(self, b):
        net = self.net
        end = len(self.data) if self.cut is None else self.cut
        if self.pos >= end:
            if self.reset and self.cut is not None:
                raise ConnectionResetError("injected reset")
            return 0
        n = min(len(b), end - self.pos, max(net.chunk, 1000) if end > 30000 else net.chunk)
        net.r.sim_time += 0.01
        b[:n] = self.data[self.pos : self.pos + n]
        self.pos += n
        return n

    def close(self):
        if not self.closed:
            self.net.open_streams -= 1
        super().close()


class SimSocket:
    def __init__(self, net):
        self.net = net
        self.sent = b""

    def sendall(self, data):
        self.sent += bytes(data)

    def makefile(self, mode, *a, **k):
        path = self.sent.split(b" ")[1].decode()
        status, body, cut, reset, chunked, lie = self.net.respond(path)
        hdr = "HTTP/1.1 %i X\r\nConnection: close\r\n" % status
        if chunked:
            hdr += "Transfer-Encoding: chunked\r\n\r\n"
            out = b""
            for i in range(0, len(body), 1000):
                c = body[i : i + 1000]
                out += b"%x\r\n%s\r\n" % (len(c), c)
            body = out + b"0\r\n\r\n"
        else:
            hdr += "Content-Length: %i\r\n\r\n" % (len(body) + lie)
        data = hdr.encode() + body
        if cut is not None:
            cut = min(len(data), len(hdr) + cut)
        self.net.open_streams += 1
        return io.BufferedReader(SimRaw(self.net, data, cut, reset))

    def close(self):
        pass

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass


class Net:
    """`files`: url-path -> bytes; `fault`: None or a kind for the next request."""

    def __init__(self, r):
        self.r = r
        self.files = {}
        self.fault = None
        self.fired = 0
        self.chunk = 8192
        self.open_streams = 0
        self.requests = 0

    def connect_fault(self):
        k = self.fault
        if k in ("refused", "timeout", "dns"):
            self._fire(k)
            raise {
                "refused": ConnectionRefusedError("injected refusal"),
                "timeout": socket.timeout("injected timeout"),
                "dns": socket.gaierror(-2, "injected dns failure"),
            }[k]

    def _fire(self, k):
        self.fault = None
        self.fired += 1
        self.r.fault("net-" + k)

    def respond(self, path):
        self.requests += 1
        k = self.fault
        body = self.files.get(path)
        status = 200 if body is not None else 404
        body = body if body is not None else b"nope"
        cut = None
        reset = False
        chunked = self.r.chance(30)
        lie = 0
        if k in ("500", "404", "403"):
            self._fire(k)
            status = int(k)
            body = b"<html>error</html>"
        elif k in ("cut", "reset"):
            self._fire(k)
            cut = self.r.draw(len(body))
            reset = k == "reset"
        elif k == "html":  # a captive portal
            self._fire(k)
            body = b"<html>login please</html>"
        elif k == "empty":
            self._fire(k)
            body = b""
        return status, body, cut, reset, chunked, lie

    def opener(self):
        net = self

        class Conn(http.client.HTTPConnection):
            def connect(self):
                net.connect_fault()
                self.sock = SimSocket(net)

        class Handler(urllib.request.HTTPHandler):
            def http_open(self, req):
                return self.do_open(Conn, req)

        o = urllib.request.OpenerDirector()
        for h in (
            Handler, urllib.request.HTTPDefaultErrorHandler,
            urllib.request.HTTPErrorProcessor, urllib.request.UnknownHandler,
        ):
            o.add_handler(h())
        return o

    def install(self):
        old = urllib.request._opener
        urllib.request.install_opener(self.opener())
        self.r.cleanups.append(lambda: urllib.request.install_opener(old))
