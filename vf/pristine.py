"""Answers computed by a process that has done nothing else.

A server is forked when the check is imported, before any case ran.  Every request is handled by a fork of that server: it builds the
objects once and forks again for every operation, so that no answer can depend on another call made by this check, in any process.
"""
import os
import pickle
import select
import signal
import socket
import struct
import sys


def _send(s, b):
    s.sendall(struct.pack("<Q", len(b)) + b)


def _recv(s):
    n = struct.unpack("<Q", _exact(s, 8))[0]
    return _exact(s, n)


def _exact(s, n):
    out = b""
    while len(out) < n:
        p = s.recv(min(1 << 20, n - len(out)))
        if not p:
            raise RuntimeError("the pristine process died")
        out += p
    return out


class Pristine:
    def __init__(self, build, warm=()):
        """build(request) -> (world, function of (world, operation) returning something picklable)"""
        self.addr = "\0vf-pristine-%d-%s" % (os.getpid(), os.urandom(6).hex())
        srv = socket.socket(socket.AF_UNIX)
        srv.bind(self.addr)
        srv.listen(64)
        r, self.keep = os.pipe()  # closed when the last process of the check is gone
        pid = os.fork()
        if pid:
            srv.close()
            os.close(r)
            return
        try:
            os.close(self.keep)
            signal.signal(signal.SIGCHLD, signal.SIG_IGN)
            for f in warm:
                try:
                    f()
                except Exception:
                    pass
            while True:
                ready, _, _ = select.select([srv, r], [], [])
                if r in ready:
                    os._exit(0)
                con, _ = srv.accept()
                if os.fork() == 0:
                    srv.close()
                    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                    signal.alarm(600)
                    self._serve(con, build)
                    os._exit(0)
                con.close()
        except BaseException:
            os._exit(1)

    @staticmethod
    def _serve(con, build):
        try:
            request, ops = pickle.loads(_recv(con))
            world, answer = build(request)
            out = {}
            for op in ops:
                a, b = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        with os.fdopen(b, "wb") as fh:
                            pickle.dump(answer(world, op), fh)
                    except BaseException as e:
                        print(f"pristine: {op}: {type(e).__name__}: {e}", file=sys.stderr)
                        os._exit(1)
                    os._exit(0)
                os.close(b)
                with os.fdopen(a, "rb") as fh:
                    blob = fh.read()
                os.waitpid(pid, 0)
                out[op] = pickle.loads(blob)
            _send(con, pickle.dumps(("ok", out)))
        except BaseException as e:
            try:
                _send(con, pickle.dumps(("error", f"{type(e).__name__}: {e}")))
            except BaseException:
                pass

    def ask(self, request, ops):
        with socket.socket(socket.AF_UNIX) as s:
            s.connect(self.addr)
            _send(s, pickle.dumps((request, list(ops))))
            kind, out = pickle.loads(_recv(s))
        if kind != "ok":
            raise RuntimeError("pristine process: " + out)
        return out
