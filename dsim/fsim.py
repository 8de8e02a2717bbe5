"""File operations on chosen files go through the simulator.

stat, open and read on a watched file are numbered events.  Before the k-th
event the simulator may remove the file, replace it atomically or in place,
or make that operation fail; reads may also return fewer bytes than asked for.
The files are real files in the run's scratch directory, so code that reaches
them by a path the seam does not cover still sees their current content.
"""

import builtins
import errno
import io
import os

_open, _stat, _lstat, _access = builtins.open, os.stat, os.lstat, os.access
_osopen, _osread, _osclose = os.open, os.read, os.close


def fault(e, path):
    """The OSError subclass the system would raise."""
    return OSError(e, os.strerror(e), str(path))


class SimRaw(io.RawIOBase):
    """Raw file pinned to the inode that was opened."""

    def __init__(self, fs, path):
        super().__init__()
        self.fs, self.path = fs, path
        self.raw = io.FileIO(path, "r")
        fs.fds[self.raw.fileno()] = path
        self.name = path
        self.mode = "rb"

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, o, w=0):
        return self.raw.seek(o, w)

    def tell(self):
        return self.raw.tell()

    def fileno(self):
        return self.raw.fileno()

    def readinto(self, b):
        self.fs.event("read", self.path)
        n = self.fs.how_much(len(b))
        bad = self.fs.bad_at
        if bad is not None:  # the medium cannot be read from this byte on
            if self.raw.tell() >= bad:
                self.fs.fired["read: bad sector"] = self.fs.fired.get("read: bad sector", 0) + 1
                raise fault(errno.EIO, self.path)
            n = min(n, bad - self.raw.tell())
        data = self.raw.read(n)
        b[: len(data)] = data
        return len(data)

    def close(self):
        if not self.closed:
            self.fs.fds.pop(self.raw.fileno(), None)
            self.raw.close()
        super().close()


class FS:
    def __init__(self, watched, decider=None, short=False):
        self.watched = {os.path.realpath(p) for p in watched}
        self.d = decider
        self.short = short
        self.n = 0
        self.log = []
        self.at = {}  # event number -> list of callables run before it
        self.fail = {}  # event number -> errno
        self.fail_from = None  # (event number, errno): from there on
        self.bad_at = None  # byte from which every read fails, however often the file is opened
        self.fired = {}
        self.fds = {}  # descriptors of watched files

    def _is(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))
        return p in self.watched

    def event(self, what, path):
        k = self.n
        self.n += 1
        self.log.append(f"{what} {os.path.basename(str(path))}")
        for f in self.at.get(k, ()):
            f()
        e = self.fail.get(k)
        if self.fail_from is not None and k >= self.fail_from[0]:
            e = self.fail_from[1]
        if e is not None:
            self.fired[f"{what}: {errno.errorcode[e]}"] = self.fired.get(f"{what}: {errno.errorcode[e]}", 0) + 1
            raise fault(e, path)

    def how_much(self, n):
        if not self.short:
            return n
        k = self.d.choose("short", 6)
        m = [n, 1, 7, 64, 300, 1000][k]
        if m < n:
            self.fired["short read"] = self.fired.get("short read", 0) + 1
        return min(n, m)

    # -------------------------------------------------------------- the seam

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int) or not self._is(file) or any(c in mode for c in "wax+"):
            return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.event("open", file)
        raw = SimRaw(self, os.fspath(file))
        if buffering == 0:
            return raw
        buf = io.BufferedReader(raw, 256)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding=encoding, errors=errors, newline=newline)

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        if self._is(path) and not flags & (os.O_WRONLY | os.O_RDWR):
            self.event("open", path)
            fd = _osopen(path, flags, mode, dir_fd=dir_fd)
            self.fds[fd] = path
            return fd
        return _osopen(path, flags, mode, dir_fd=dir_fd)

    def os_read(self, fd, n):
        if fd not in self.fds:
            return _osread(fd, n)
        self.event("read", self.fds[fd])
        n = self.how_much(n)
        if self.bad_at is not None:
            at = os.lseek(fd, 0, os.SEEK_CUR)
            if at >= self.bad_at:
                self.fired["read: bad sector"] = self.fired.get("read: bad sector", 0) + 1
                raise fault(errno.EIO, self.fds[fd])
            n = min(n, self.bad_at - at)
        return _osread(fd, n)

    def os_close(self, fd):
        self.fds.pop(fd, None)
        return _osclose(fd)

    def stat(self, path, *, dir_fd=None, follow_symlinks=True):
        if not isinstance(path, int) and self._is(path):
            self.event("stat", path)
        return _stat(path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)

    def lstat(self, path, *, dir_fd=None):
        if self._is(path):
            self.event("stat", path)
        return _lstat(path, dir_fd=dir_fd)

    def access(self, path, mode, **kw):
        if self._is(path):
            try:
                self.event("access", path)
            except OSError:
                return False
        return _access(path, mode, **kw)

    def __enter__(self):
        builtins.open = io.open = self.open
        os.stat, os.lstat, os.access, os.open = self.stat, self.lstat, self.access, self.os_open
        os.read, os.close = self.os_read, self.os_close
        return self

    def __exit__(self, *a):
        builtins.open = io.open = _open
        os.stat, os.lstat, os.access, os.open = _stat, _lstat, _access, _osopen
        os.read, os.close = _osread, _osclose
