"""Pristine forked helper: evaluates each request in a process in which nothing has run before."""
import os, pickle, struct, sys


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("<Q", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _read(fd, n):
    out = b""
    while len(out) < n:
        part = os.read(fd, n - len(out))
        if not part:
            raise EOFError
        out += part
    return out


def _recv(fd):
    return pickle.loads(_read(fd, struct.unpack("<Q", _read(fd, 8))[0]))


OPEN = set()


class Zygote:
    """fn(request) is run in a grandchild forked from the state at construction."""

    def __init__(self, fn):
        a, b = os.pipe(), os.pipe()
        pid = os.fork()
        if pid == 0:
            for fd in OPEN | {a[1], b[0]}:
                os.close(fd)
            try:
                self._serve(fn, a[0], b[1])
            finally:
                os._exit(0)
        os.close(a[0]); os.close(b[1])
        self.pid, self.w, self.r = pid, a[1], b[0]
        OPEN.update((self.w, self.r))

    @staticmethod
    def _serve(fn, r, w):
        while True:
            try:
                req = _recv(r)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    out = ("ok", fn(req))
                except BaseException as exc:  # noqa: BLE001
                    out = ("error", f"{type(exc).__name__}: {exc}"[:300])
                try:
                    _send(w, out)
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, req):
        _send(self.w, req)
        return _recv(self.r)

    def close(self):
        for fd in (self.w, self.r):
            OPEN.discard(fd)
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
