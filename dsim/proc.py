"""Running things in forked copies of a pristine process."""

import os
import pickle
import signal
import struct
import sys
import traceback


def call_in_fork(fn, *args):
    """Result of fn(*args) in a forked child, as ('ok', value) or ('boom', text)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except BaseException:
                out = ("boom", traceback.format_exc())
            data = pickle.dumps(out, protocol=5)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            traceback.print_exc()
            code = 70
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        return ("boom", f"child ended with status {st}")
    return pickle.loads(data)


class WorkerProcs:
    """Pristine forked worker processes executing cloudpickled dask tasks.

    All are forked when the object is made, before the run touches the package;
    killing one replaces it by the next unused one."""

    def __init__(self, n, spares, setup=None):
        self.free = []
        self.used = {}
        self.setup = setup
        self.all = []
        for _ in range(n + spares):
            self.free.append(self._spawn())
        self.kills = 0

    def _spawn(self):
        a_r, a_w = os.pipe()
        b_r, b_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(a_w)
                os.close(b_r)
                for p in self.all:
                    os.close(p[1])
                    os.close(p[2])
                if self.setup:
                    self.setup()
                self._serve(a_r, b_w)
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(a_r)
        os.close(b_w)
        p = (pid, a_w, b_r)
        self.all.append(p)
        return p

    @staticmethod
    def _serve(rfd, wfd):
        import cloudpickle

        from .cluster import execute

        while True:
            msg = _recv(rfd)
            if msg is None:
                return
            try:
                task, args = pickle.loads(msg)
                out = ("ok", execute(task, args))
                data = cloudpickle.dumps(out)
            except BaseException as e:
                try:
                    data = cloudpickle.dumps(("err", e))
                    pickle.loads(data)
                except Exception:
                    data = cloudpickle.dumps(("err", RuntimeError(f"{type(e).__name__}: {e}")))
            _send(wfd, data)

    def _of(self, wid):
        p = self.used.get(wid)
        if p is None:
            if not self.free:
                self.free.append(self.used.pop(next(iter(self.used))))
            p = self.used[wid] = self.free.pop(0)
        return p

    def execute(self, wid, task, args):
        import cloudpickle

        pid, w, r = self._of(wid)
        _send(w, cloudpickle.dumps((task, args)))
        data = _recv(r)
        if data is None:
            raise RuntimeError("worker process ended unexpectedly")
        k, v = pickle.loads(data)
        if k == "err":
            raise v
        return v

    def kill(self, wid):
        p = self.used.pop(wid, None)
        if p is None:
            return
        if self.free:
            self.kills += 1
            self._end(p)
        else:  # no spare left: the process goes on under another name
            self.free.append(p)

    def _end(self, p):
        try:
            os.kill(p[0], signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(p[0], 0)
        os.close(p[1])
        os.close(p[2])
        self.all.remove(p)

    def close(self):
        for p in list(self.all):
            self._end(p)


def _send(fd, data):
    data = struct.pack("<Q", len(data)) + data
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def _recv(fd):
    head = _read(fd, 8)
    if head is None:
        return None
    return _read(fd, struct.unpack("<Q", head)[0])


def _read(fd, n):
    out = bytearray()
    while len(out) < n:
        b = os.read(fd, min(1 << 20, n - len(out)))
        if not b:
            return None
        out += b
    return bytes(out)
