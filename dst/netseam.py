"""The network seam: TCP connections of the code under test go to an in-process
HTTP server of the simulation.  urllib and http.client run for real on top; each
segment that arrives is a yield point and a fault point."""

import io
import json
import os
import socket
import urllib.error

from . import core

_real_create = socket.create_connection
SERVER = None  # callable(path) -> (status, body, mode)


class Raw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        d = self.sock.segment(len(b))
        b[: len(d)] = d
        return len(d)


class FakeSocket:
    def __init__(self, host, timeout):
        self.timeout = timeout
        self.req = b""
        self.out = None
        self.dead = None

    def setsockopt(self, *a):
        pass

    def settimeout(self, t):
        self.timeout = t

    def sendall(self, data):
        self.req += bytes(data)

    def makefile(self, mode, *a, **k):
        return io.BufferedReader(Raw(self), 4096)

    def close(self):
        pass

    def shutdown(self, *a):
        pass

    def respond(self):
        line = self.req.split(b"\r\n", 1)[0].split()
        status, body, mode = SERVER(line[1].decode())
        f = core.SIM.seam("request", line[1].decode()) if core.SIM else None
        if f is not None and f["kind"] == "http_503":
            status, body, mode = 503, b"<html>try later</html>", "length"
        elif f is not None:
            self.enact(f)
        head = b"HTTP/1.1 %d X\r\nConnection: close\r\n" % status
        if mode == "length":
            self.out = head + b"Content-Length: %d\r\n\r\n" % len(body) + body
        else:
            out = head + b"Transfer-Encoding: chunked\r\n\r\n"
            for i in range(0, len(body), 3000):
                c = body[i : i + 3000]
                out += b"%x\r\n" % len(c) + c + b"\r\n"
            self.out = out + b"0\r\n\r\n"
        self.pos = 0

    def enact(self, f):
        k = f["kind"]
        if k == "net_cut":
            self.dead = "eof"
        elif k == "net_reset":
            self.dead = "reset"
        elif k == "net_stall":
            if self.timeout is not None and isinstance(self.timeout, (int, float)):
                core.SIM.sleep(self.timeout)
                raise TimeoutError("timed out")
            core.SIM.sleep(3600)

    def segment(self, n):
        if self.dead is None and self.out is None:
            self.respond()
        if self.dead is None:
            f = core.SIM.seam("net") if core.SIM else None
            if f is not None:
                self.enact(f)
        if self.dead == "eof":
            return b""
        if self.dead == "reset":
            raise ConnectionResetError(104, "Connection reset by peer")
        d = self.out[self.pos : self.pos + min(n, 4096)]
        self.pos += len(d)
        return d


def create_connection(address, timeout=None, *a, **k):
    if not str(address[0]).endswith(".sim"):
        raise OSError(101, "Network is unreachable")
    f = core.SIM.seam("connect", address[0]) if core.SIM else None
    if f is not None and f["kind"] == "net_refuse":
        raise ConnectionRefusedError(111, "Connection refused")
    s = FakeSocket(address[0], timeout)
    if f is not None:
        s.enact(f)
    return s


def install():
    socket.create_connection = create_connection
