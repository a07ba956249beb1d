"""A simulated disk behind ``open``, for the files of a scratch directory.

File operations (open, read, write, close) are counted for each operation of
each simulated thread; a plan says which of them fails, and how. Files are
really written (such that code which is not Python sees them too), except for
what the simulated disk loses.
"""

import builtins
import contextlib
import errno
import io
import os
import random

from . import kernel

PAGE = 64  # what a crash keeps or loses as a whole

# What a fault does. Silent faults let the operation succeed.
WRITE = ["enospc", "eio", "edquot", "open-eacces", "open-emfile",
         "open-enospc", "close-eio", "interrupt", "crash", "short", "lost",
         "torn"]
READ = ["eio", "short", "open-eacces", "open-enoent", "interrupt", "eof"]
SILENT = {"lost", "torn", "eof"}
BENIGN = {"short"}


class Crash(BaseException):
    """The process is dead."""


class Disk:

    def __init__(self, root, sim, plan, seed):
        self.root = os.path.realpath(root)
        self.sim = sim
        # {(tid, op): dict(kind=, n=, part=)}
        self.plan = plan
        self.r = random.Random(seed)
        self.fired = []
        self.counts = {}
        self.opened = {}    # (tid, op) -> paths
        self.dead = False
        self.full = set()   # threads for which the disk is full
        self.journal = {}   # path -> [previous content, [(offset, data)]]

    # -- which fault, if any
    def step(self, what):
        import _thread
        th = self.sim.by_ident.get(_thread.get_ident())
        if th is None:
            return None, None
        if self.sim.threads and len(self.sim.threads) > 1 and not self.dead:
            self.sim.point(th, None, -1)
        key = (th.tid, th.op)
        c = self.counts[key] = self.counts.get(key, 0) + 1
        f = self.plan.get(key)
        if self.dead:
            return None, th
        if f is not None and not f.get("done") and c >= f["n"] and \
                applies(f["kind"], what):
            f["done"] = True
            self.fired.append((key, f["kind"], what))
            return f, th
        if th.tid in self.full and what == "write":
            raise OSError(errno.ENOSPC, "No space left on device (simulated)")
        return None, th

    def end_op(self, tid):
        self.full.discard(tid)

    # -- crash
    def settle_crash(self):
        """What a crash leaves of the files written so far."""
        for path, (old, writes) in sorted(self.journal.items()):
            if not writes and old is None:
                continue
            if not os.path.exists(path):
                continue
            r = self.r
            mode = r.choice(["nothing", "prefix", "pages", "all", "empty"])
            length = max([o + len(x) for o, x in writes], default=0)
            data = bytearray(length)
            for o, x in writes:
                data[o:o + len(x)] = x
            if mode == "nothing":
                if old is None:
                    os.unlink(path)
                    continue
                data = old
            elif mode == "empty":
                data = b""
            elif mode == "prefix":
                data = data[:r.randint(0, length)]
            elif mode == "pages":
                for p in range(0, length, PAGE):
                    if r.random() < .3:
                        data[p:p + PAGE] = bytes(len(data[p:p + PAGE]))
                if r.random() < .5:
                    data = data[:r.randint(0, length)]
            with _real_open(path, "wb") as f:
                f.write(bytes(data))
        self.journal.clear()
        self.dead = False

    def sync(self):
        self.journal.clear()


def applies(kind, what):
    if kind.startswith("open"):
        return what == "open"
    if kind.startswith("close"):
        return what == "close"
    if kind in ("eof", "short", "eio"):
        return what in ("read", "write")
    if kind in ("interrupt", "crash"):
        return True
    return what == "write"


ERRNO = {"enospc": errno.ENOSPC, "eio": errno.EIO, "edquot": errno.EDQUOT,
         "open-eacces": errno.EACCES, "open-emfile": errno.EMFILE,
         "open-enospc": errno.ENOSPC, "open-enoent": errno.ENOENT,
         "close-eio": errno.EIO}


class Raw(io.FileIO):

    def __init__(self, disk, path, mode):
        self._disk = disk
        self._path = os.path.realpath(path)
        self._sim_closed = False
        f, _ = disk.step("open")
        if f is not None:
            self._fail(f)
        if disk.dead:
            # nothing happens after the end of the process
            super().__init__(os.devnull, mode)
            return
        if "w" in mode or "x" in mode or "a" in mode:
            old = None
            if os.path.exists(self._path):
                with _real_open(self._path, "rb") as g:
                    old = g.read()
            if self._path in disk.journal:
                old = disk.journal[self._path][0]
            start = [(0, old)] if "a" in mode and old else []
            disk.journal[self._path] = [old, start]
        super().__init__(path, mode)

    def _fail(self, f):
        kind = f["kind"]
        if kind == "interrupt":
            raise KeyboardInterrupt("simulated")
        if kind == "crash":
            self._disk.dead = True
            raise Crash()
        raise OSError(ERRNO[kind], os.strerror(ERRNO[kind]) + " (simulated)")

    def write(self, data):
        disk = self._disk
        data = bytes(data)
        if disk.dead:
            return len(data)
        f, th = disk.step("write")
        if f is not None:
            kind = f["kind"]
            part = int(len(data) * f["part"])
            if kind == "short" and len(data) > 1:
                data = data[:max(1, part)]
            elif kind == "lost":
                # the page is allocated, its content never written
                self._put(bytes(len(data)))
                return len(data)
            elif kind == "torn":
                self._put(data[:part] + bytes(len(data) - part))
                return len(data)
            elif kind != "short":
                if part and kind != "interrupt":
                    self._put(data[:part])
                if kind in ("enospc", "edquot"):
                    disk.full.add(th.tid)
                self._fail(f)
        return self._put(data)

    def _put(self, data):
        off = self.tell()
        n = super().write(data)
        if self._path in self._disk.journal:
            self._disk.journal[self._path][1].append((off, data[:n]))
        return n

    def readinto(self, b):
        f, _ = self._disk.step("read")
        if f is not None:
            if f["kind"] == "short" and len(b) > 1:
                tmp = bytearray(max(1, int(len(b) * f["part"] * .1)))
                n = super().readinto(tmp)
                b[:n] = tmp[:n]
                return n
            if f["kind"] == "eof":
                return 0
            if f["kind"] != "short":
                self._fail(f)
        return super().readinto(b)

    def readall(self):
        out = b""
        while True:
            b = bytearray(4096)
            n = self.readinto(b)
            if not n:
                return out
            out += bytes(b[:n])

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return bytes(b[:n])

    def close(self):
        if self.closed or self._sim_closed:
            return super().close()
        self._sim_closed = True
        try:
            if self._disk is not None and not self._disk.dead:
                f, _ = self._disk.step("close")
                if f is not None:
                    self._fail(f)
        finally:
            super().close()


_real_open = builtins.open
buffer_size = 8192


@contextlib.contextmanager
def mounted(disk, buffer_size=8192):
    """Opening a file below the root of the disk goes through it."""

    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
                 newline=None, closefd=True, opener=None):
        try:
            path = os.path.realpath(os.fspath(file))
        except TypeError:
            path = ""
        if isinstance(path, bytes) or not path.startswith(disk.root + os.sep):
            return _real_open(file, mode, buffering, encoding, errors,
                              newline, closefd, opener)
        binary = "b" in mode
        raw = Raw(disk, path, mode.replace("b", "").replace("t", ""))
        if buffering == 0:
            return raw
        if "+" in mode:
            buf = io.BufferedRandom(raw, buffer_size)
        elif "r" in mode:
            buf = io.BufferedReader(raw, buffer_size)
        else:
            buf = io.BufferedWriter(raw, buffer_size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline)
        text.mode = mode
        return text

    saved = builtins.open, io.open
    builtins.open = io.open = sim_open
    try:
        yield disk
    finally:
        builtins.open, io.open = saved


assert kernel  # imported for its side effects on locks
