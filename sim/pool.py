"""Processes: pristine zygotes that fork one child per simulated run."""
import os
import pickle
import select
import signal
import socket
import struct
import time

from .env import HarnessError


def _send(sock, obj):
    b = pickle.dumps(obj, protocol=4)
    sock.sendall(struct.pack("<Q", len(b)) + b)


def _recv_bytes(sock, deadline=None):
    def exactly(n):
        out = b""
        while len(out) < n:
            if deadline is not None:
                left = deadline - time.monotonic()
                if left <= 0 or not select.select([sock], [], [], left)[0]:
                    raise TimeoutError
            b = sock.recv(min(n - len(out), 1 << 20))
            if not b:
                raise EOFError
            out += b
        return out
    n = struct.unpack("<Q", exactly(8))[0]
    return exactly(n)


class Zygote:
    """a process that has imported the library and done nothing else; forks a child per request"""

    def __init__(self, handler):
        self.sock, other = socket.socketpair()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                self.sock.close()
                os.setpgid(0, 0)
                self._serve(other, handler)
            finally:
                os._exit(0)
        other.close()

    def _serve(self, sock, handler):
        import gc
        gc.collect()
        gc.freeze()
        while True:
            try:
                req = _recv_bytes(sock)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    try:
                        r = ("ok", handler(*pickle.loads(req)))
                    except BaseException as e:
                        import traceback
                        r = ("error", "%s\n%s" % (e, traceback.format_exc()))
                    _send(sock, r)
                    code = 0
                finally:
                    os._exit(code)
            st = os.waitpid(pid, 0)[1]
            if st != 0:
                _send(sock, ("died", st))

    def ask(self, *req, timeout=180):
        _send(self.sock, req)
        try:
            r = pickle.loads(_recv_bytes(self.sock, time.monotonic() + timeout))
        except (TimeoutError, EOFError) as e:
            self.stop()
            raise HarnessError("simulated run gave no answer (%s)" % type(e).__name__)
        if r[0] != "ok":
            raise HarnessError("simulated run failed: %s" % (r[1],))
        return r[1]

    def stop(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        self.sock.close()
