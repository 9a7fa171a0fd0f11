"""Simulated storage: an in-memory disk under the real io stack, with injected faults.

A file has a volatile and a durable state.  Writes go to the volatile state; fsync makes them
durable; rename is atomic.  A crash keeps what is durable plus, per file, an arbitrary prefix of
what was written but not synced (possibly with a zero-filled tail: the size reached the disk, the
data did not).
"""
import errno
import io
import os

from sim.core import SimCrash


class DiskFault(OSError):
    """An injected I/O error (so that oracles can tell it from the library's own errors)."""


class DiskPipe(DiskFault, BrokenPipeError):
    pass


class DiskTimeout(DiskFault, TimeoutError):
    pass


class DiskDenied(DiskFault, PermissionError):
    pass


class DiskAgain(DiskFault, BlockingIOError):
    pass


class DiskIntr(DiskFault, InterruptedError):
    pass


class DiskClosed(ValueError):
    """What the io stack raises once a file was closed underneath its user."""


ERRORS = {
    "enospc": lambda: DiskFault(errno.ENOSPC, "simulated full disk"),
    "eio": lambda: DiskFault(errno.EIO, "simulated I/O error"),
    "pipe": lambda: DiskPipe(errno.EPIPE, "simulated broken pipe"),
    "timeout": lambda: DiskTimeout(errno.ETIMEDOUT, "simulated timeout"),
    "denied": lambda: DiskDenied(errno.EACCES, "simulated permission error"),
    "again": lambda: DiskAgain(errno.EAGAIN, "simulated would-block"),
    "intr": lambda: DiskIntr(errno.EINTR, "simulated interrupted call"),
    "closed": lambda: DiskClosed("I/O operation on closed file (simulated)"),
}
WRITE_ERRORS = ["enospc", "write_eio", "write_pipe", "write_timeout", "write_denied", "write_again",
                "write_closed", "write_intr"]
READ_ERRORS = ["read_eio", "read_timeout", "read_denied", "read_closed"]


class Disk:
    def __init__(self, state=None):
        self.durable = dict(state or {})       # name -> bytes
        self.volatile = {}                     # name -> bytearray (differs from durable)
        self.fired = []                        # kinds of faults that fired
        self.arm = None                        # fault armed for the next operation
        self.simtime = 0.0

    # -- faults: {"kind": ..., "at": byte position}
    def armed(self, *kinds):
        if self.arm is not None and self.arm["kind"] in kinds:
            return self.arm
        return None

    def fire(self):
        f, self.arm = self.arm, None
        self.fired.append(f["kind"])
        return f

    def read_bytes(self, name):
        if name in self.volatile:
            return bytes(self.volatile[name])
        return self.durable[name]

    def exists(self, name):
        return name in self.volatile or name in self.durable

    def fsync(self, name):
        self.simtime += 0.01
        if self.armed("fsync_eio"):
            self.fire()
            raise DiskFault(errno.EIO, "simulated fsync failure")
        if self.armed("crash_before_sync"):
            self.fire()
            raise SimCrash()
        if name in self.volatile:
            self.durable[name] = bytes(self.volatile.pop(name))

    def rename(self, a, b):
        if self.armed("crash_before_rename"):
            self.fire()
            raise SimCrash()
        if a in self.volatile:
            self.volatile[b] = self.volatile.pop(a)
            self.durable.pop(a, None)
        else:
            self.durable[b] = self.durable.pop(a)
            self.volatile.pop(b, None)

    def crash(self, r):
        """What survives; returns the state for the next incarnation."""
        out = dict(self.durable)
        for name in sorted(self.volatile):
            v = bytes(self.volatile[name])
            c = r.random()
            if c < 0.4:
                continue                                   # nothing of it reached the disk
            cut = r.randrange(len(v) + 1)
            if c < 0.8:
                out[name] = v[:cut]                        # torn
            else:
                out[name] = v[:cut] + b"\0" * (len(v) - cut)  # size written, data lost
        return out

    # -- opening
    def open_write(self, name, r, *, buffered=True, encoding="utf-8"):
        self.volatile[name] = bytearray()
        raw = _RawWriter(self, name, r)
        if buffered:
            return io.TextIOWrapper(io.BufferedWriter(raw, r.choice([16, 64, 512, 8192])),
                                    encoding=encoding, newline="")
        if r.random() < 0.3 or self.armed("write_intr"):   # the io stack itself retries EINTR
            return _TextWriter(_Unbuffered(raw), encoding)
        return io.TextIOWrapper(_Unbuffered(raw), encoding=encoding, newline="", write_through=True)

    def open_read(self, name, r, encoding="utf-8"):
        raw = _RawReader(self, self.read_bytes(name), r)
        if self.armed("short_reads") and r.random() < 0.4:
            return _TextReader(self, self.read_bytes(name).decode(encoding), r)
        return io.TextIOWrapper(io.BufferedReader(raw, r.choice([16, 64, 512, 8192])),
                                encoding=encoding, newline="")


class _RawWriter(io.RawIOBase):
    def __init__(self, disk, name, r):
        self.disk, self.name, self.r = disk, name, r
        self.total = 0

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        d = self.disk
        d.simtime += 0.001
        f = d.armed("crash_in_write", "interrupt_in_write", *WRITE_ERRORS)
        if f is not None and self.total + len(b) > f["at"]:
            keep = max(0, f["at"] - self.total)
            d.volatile[self.name] += b[:keep]
            kind = d.fire()["kind"]
            if kind in WRITE_ERRORS:
                raise ERRORS[kind.replace("write_", "")]()
            if kind == "interrupt_in_write":
                raise KeyboardInterrupt("simulated")
            raise SimCrash()
        n = len(b)
        if d.armed("short_writes") and n > 1:
            if "short_writes" not in d.fired:
                d.fired.append("short_writes")
            n = self.r.randrange(1, n)
        d.volatile[self.name] += b[:n]
        self.total += n
        return n


class _Unbuffered(io.BufferedIOBase):
    """Passes every write straight to the raw file (so that errors surface inside dump)."""

    def __init__(self, raw):
        self.raw_ = raw

    def writable(self):
        return True

    def readable(self):
        return False

    def seekable(self):
        return False

    def write(self, b):
        b = bytes(b)
        view = b
        while view:
            n = self.raw_.write(view)
            view = view[n:]
        return len(b)


class _RawReader(io.RawIOBase):
    def __init__(self, disk, data, r):
        self.disk, self.data, self.r, self.pos = disk, data, r, 0

    def readable(self):
        return True

    def readinto(self, buf):
        d = self.disk
        d.simtime += 0.001
        f = d.armed("interrupt_in_read", *READ_ERRORS)
        if f is not None and self.pos >= f["at"]:
            kind = d.fire()["kind"]
            if kind == "interrupt_in_read":
                raise KeyboardInterrupt("simulated")
            raise ERRORS[kind.replace("read_", "")]()
        n = min(len(buf), len(self.data) - self.pos)
        if n > 1 and d.armed("short_reads"):
            if "short_reads" not in d.fired:
                d.fired.append("short_reads")
            n = self.r.randrange(1, n + 1)
        if f is not None:
            n = max(0, min(n, f["at"] - self.pos)) or (1 if n else 0)
        buf[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class _TextReader(io.TextIOBase):
    """A text stream that, asked for at most n characters, may return fewer before the end."""

    def __init__(self, disk, text, r):
        self.disk, self.text, self.r, self.pos = disk, text, r, 0

    def readable(self):
        return True

    def read(self, size=-1):
        left = len(self.text) - self.pos
        n = left if size is None or size < 0 else min(size, left)
        if n > 1 and size is not None and size >= 0:
            n = self.r.randrange(1, n + 1)
        if "short_reads" not in self.disk.fired:
            self.disk.fired.append("short_reads")
        out = self.text[self.pos:self.pos + n]
        self.pos += n
        return out


class _TextWriter(io.TextIOBase):
    """A text stream without layers underneath: what its file raises, write raises."""

    def __init__(self, raw, encoding):
        self.raw_, self.enc_ = raw, encoding

    def writable(self):
        return True

    def write(self, text):
        self.raw_.write(text.encode(self.enc_))
        return len(text)
