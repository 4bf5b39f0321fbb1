"""The simulated world: clock, disk and file handles, fault plan, event log.

One World belongs to one simulated run. Everything in it is decided by the case
(a JSON value); it draws no randomness and reads no real clock.
"""

import errno
import hashlib
import io
import os
import stat
import struct
import zlib
from collections import Counter


class SimAbort(BaseException):
    """Not part of the simulated world: the run exceeded its step budget."""


class SimHang(SimAbort):
    """CPU budget of one run exceeded."""


class SimError(Exception):
    """The harness itself is wrong."""


class Violation(BaseException):
    """Raised by an oracle to end a run; not an Exception, so the code under test cannot swallow it."""

    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


INJECTED = "sim-injected"


def is_injected(exc):
    """Was this exception (or one it was raised from) injected by the simulator?"""
    seen = 0
    while exc is not None and seen < 20:
        if INJECTED in exc.args:
            return True
        exc = exc.__cause__ or exc.__context__
        seen += 1
    return False


class Clock:
    def __init__(self, spec):
        self.now = float(spec.get("t0", 1.7e9))
        self.tick = float(spec.get("tick", 0.0))
        self.jumps = {}
        for i, d in spec.get("jumps", []):
            self.jumps[i] = self.jumps.get(i, 0.0) + d
        self.reads = 0
        self.m = 1000.0
        self.covered = 0.0
        self.njumps = 0
        self.back = 0
        self.slept = 0.0
        self.lo = self.hi = self.now

    def watch(self):
        """Start observing the range of values the wall clock takes."""
        self.lo = self.hi = self.now

    def _set(self, t):
        self.now = max(0.0, min(t, 9.2e9))  # years 1970..2261, what an OS clock can be set to
        self.lo = min(self.lo, self.now)
        self.hi = max(self.hi, self.now)

    def advance(self, d):
        if d > 0:
            self.m += d
            self.covered += d
        elif d < 0:
            self.back += 1
        self._set(self.now + d)

    def wall(self):
        r = self.reads
        self.reads += 1
        j = self.jumps.get(r)
        if j is not None:
            self.njumps += 1
            if j < 0:
                self.back += 1
            else:
                self.covered += j
            self._set(self.now + j)
        v = self.now
        if self.tick:
            self.m += self.tick
            self.covered += self.tick
            self._set(self.now + self.tick)
        return v

    def mono(self):
        self.m += self.tick
        return self.m


class SimFile:
    __slots__ = ("data", "log", "name", "opens")

    def __init__(self, name, data=b""):
        self.name = name
        self.data = bytearray(data)
        self.log = []  # raw writes in order: (offset, bytes)
        self.opens = 0


class SimRaw(io.RawIOBase):
    """Unbuffered file handle on the simulated disk (what FileIO is to a real one)."""

    append = False

    def __init__(self, world, file, readable, writable, caps=None):
        super().__init__()
        self.world = world
        self.file = file
        self._r = readable
        self._w = writable
        self.pos = 0
        self.caps = caps or {}
        self.nw = self.nr = 0
        self.name = file.name
        self.mode = "rb+" if readable and writable else ("rb" if readable else "wb")
        file.opens += 1
        world.handles.append(self)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def isatty(self):
        return False

    def tell(self):
        self._chk()
        return self.pos

    def seek(self, off, whence=0):
        self._chk()
        w = self.world
        w.step("s")
        f = None if w.dead else w.fault("s")
        if f is not None:
            w.log("s!", self.pos, f["do"])
            w.fired["seek_" + f["do"]] += 1
            raise_fault(f["do"], f)
        base = (0, self.pos, len(self.file.data))[whence]
        if base + off < 0:
            raise OSError(errno.EINVAL, "Invalid argument")
        self.pos = base + off
        if whence == 2 and self.world.after_size is not None and not self.world.dead:
            self.world.after_size(self)
        return self.pos

    def truncate(self, size=None):
        self._chk()
        size = self.pos if size is None else size
        w = self.world
        if not w.dead:
            del self.file.data[size:]
            self.file.data.extend(bytes(size - len(self.file.data)))
            self.file.log.append(("t", size))
        return size

    def _store(self, b):
        d = self.file.data
        if self.pos > len(d):
            d.extend(bytes(self.pos - len(d)))
        d[self.pos : self.pos + len(b)] = b
        self.file.log.append((self.pos, bytes(b)))
        self.pos += len(b)

    def write(self, b):
        self._chk()
        w = self.world
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        b = bytes(b)
        if self.append:
            self.pos = len(self.file.data)
        if w.dead:
            return len(b)
        if w.before_write is not None:
            w.before_write(self)
        n = len(b)
        cap = self._cap("w", self.nw)
        self.nw += 1
        if cap is not None and n > cap:
            n = cap
            w.fired["short_write"] += 1
        f = w.fault("w") if n else None
        if f is None and n and w.file_faults:
            f = w.file_faults.get((self.file.name, "w"), {}).get(self.nw - 1)
        if f is not None:
            do = f["do"]
            if do in ("torn", "kbd_torn"):
                k = min(n, f.get("k", n // 2))
                self._store(b[:k])
                w.log("w!", self.pos, k, do)
                w.fired[do] += 1
                raise_fault(do, f)
            if do == "kbd_after":
                self._store(b[:n])
                w.log("w!", self.pos, n, do)
                w.fired[do] += 1
                raise_fault(do, f)
            w.log("w!", self.pos, 0, do)
            w.fired[do] += 1
            raise_fault(do, f)
        if w.disk_limit is not None and n:
            room = w.disk_limit - self.pos
            # rewriting allocated blocks needs no space
            room = max(room, len(self.file.data) - self.pos)
            if room <= 0:
                w.log("w!", self.pos, 0, "full")
                w.fired["disk_full"] += 1
                raise OSError(errno.ENOSPC, INJECTED)
            if n > room:
                w.fired["disk_full_short"] += 1
                n = room
        w.count_bytes(n)
        w.log("w", self.pos, n)
        self._store(b[:n])
        if w.after_write is not None:
            w.after_write(self)
        return n

    def readinto(self, buf):
        self._chk()
        w = self.world
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        if w.before_read is not None and not w.dead:
            w.before_read(self)
        n = len(buf)
        cap = self._cap("r", self.nr)
        self.nr += 1
        if cap is not None and n > cap:
            n = max(1, cap)
            w.fired["short_read"] += 1
        f = w.fault("r") if n else None  # nothing is transferred: nothing fails
        if f is None and n and w.file_faults:
            f = w.file_faults.get((self.file.name, "r"), {}).get(self.nr - 1)
        if f is not None:
            w.log("r!", self.pos, f["do"])
            w.fired[f["do"]] += 1
            raise_fault(f["do"], f)
        chunk = self.file.data[self.pos : self.pos + n]
        w.log("r", self.pos, len(chunk))
        buf[: len(chunk)] = chunk
        self.pos += len(chunk)
        return len(chunk)

    def _cap(self, k, i):
        c = self.caps.get(k)
        if not c:
            return None
        return c[i % len(c)]

    def close(self):
        if not self.closed:
            w = self.world
            if not w.dead:
                w.log("c", self.name)
            super().close()


# what else a stream may raise when its medium fails, or another thread or a debugger stops the call
OTHER_ERRORS = {n: getattr(errno, n) for n in (
    "EPERM", "EACCES", "ENXIO", "EBADF", "ENOMEM", "ENODEV", "EFBIG", "EROFS", "EPIPE", "EDQUOT", "ESTALE", "ETIMEDOUT",
    "ECONNRESET", "ECONNABORTED", "ENOTCONN", "EREMOTEIO", "ENOENT", "EINVAL", "EBUSY", "ENOBUFS", "EOVERFLOW", "EAGAIN")}
OTHER_ERRORS |= {c.__name__: c for c in (
    EOFError, RuntimeError, ValueError, KeyError, IndexError, LookupError, AssertionError, ArithmeticError, OverflowError, BufferError,
    Exception)}
OTHER_ERRORS |= {"zlib.error": zlib.error, "struct.error": struct.error}
OTHER_STOPS = {"SystemExit": SystemExit}


def raise_fault(do, f=None):
    err = f.get("err") if f else None
    if err is not None:
        what = OTHER_STOPS.get(err) or OTHER_ERRORS[err]
        if isinstance(what, int):
            raise OSError(what, INJECTED)
        raise what(INJECTED)
    if do in ("eio", "torn"):
        raise OSError(errno.EIO, INJECTED)
    if do == "enospc":
        raise OSError(errno.ENOSPC, INJECTED)
    if do == "eintr":
        raise InterruptedError(errno.EINTR, INJECTED)
    if do == "mem":
        raise MemoryError(INJECTED)
    if do in ("kbd", "kbd_torn", "kbd_after"):
        raise KeyboardInterrupt(INJECTED)
    raise SimError(f"unknown fault {do}")


class SimFS:
    def __init__(self, world):
        self.world = world
        self.files = {}

    def put(self, name, data):
        self.files[name] = SimFile(name, data)
        return name

    def data(self, name):
        f = self.files.get(name)
        return b"" if f is None else bytes(f.data)

    def raw(self, name, mode):
        """A raw handle, as a caller of the library could pass in."""
        w = self.world
        r = "r" in mode or "+" in mode
        wr = "w" in mode or "+" in mode
        if "w" in mode:
            f = self.files.get(name)
            if f is None:
                f = self.files[name] = SimFile(name)
            else:
                del f.data[:]
                f.log.append(("t", 0))
        else:
            f = self.files.get(name)
            if f is None:
                raise FileNotFoundError(errno.ENOENT, "No such file", name)
        return SimRaw(w, f, r, wr, w.caps)

    def open(self, name, mode="r", buffering=-1):
        w = self.world
        w.log("o", name, mode)
        if "b" not in mode:
            raise SimError("text mode is not simulated")
        if "x" in mode:
            if name in self.files:
                raise FileExistsError(errno.EEXIST, "File exists", name)
            mode = mode.replace("x", "w")
        if "a" in mode:
            self.files.setdefault(name, SimFile(name))
            raw = self.raw(name, mode.replace("a", "r") if "+" in mode else "r+")
            raw._r = "+" in mode
            raw.append = True
            raw.pos = len(raw.file.data)
        else:
            raw = self.raw(name, mode)
        if buffering == 0:
            return raw
        size = w.iobuf if buffering in (-1, 1) else buffering
        if "+" in mode:
            return io.BufferedRandom(raw, size)
        if "r" in mode and "a" not in mode:
            return io.BufferedReader(raw, size)
        return io.BufferedWriter(raw, size)


    # what else a program can do with a name

    def stat(self, name):
        f = self.files.get(name)
        if f is None:
            raise FileNotFoundError(errno.ENOENT, "No such file", name)
        t = int(self.world.clock.now)
        return os.stat_result((stat.S_IFREG | 0o644, 1, 1, 1, 0, 0, len(f.data), t, t, t))

    def access(self, name, *mode):
        return name in self.files

    def remove(self, name):
        self.stat(name)
        self.world.log("rm", name)
        del self.files[name]

    def rename(self, old, new):
        self.stat(old)
        self.world.log("mv", old, new)
        self.files[new] = self.files.pop(old)

    def truncate(self, name, size):
        self.stat(name)
        f = self.files[name]
        del f.data[size:]
        f.data.extend(bytes(size - len(f.data)))
        f.log.append(("t", size))


class World:
    MAX_STEPS = 3_000_000
    MAX_BYTES = 200_000_000

    def __init__(self, case):
        cfg = case.get("cfg", {})
        self.clock = Clock(case.get("clock", {}))
        self.caps = {"w": cfg.get("wcaps"), "r": cfg.get("rcaps")}
        self.iobuf = cfg.get("iobuf", 8192)
        self.disk_limit = None
        self.dead = False
        self.fired = Counter()
        self.counts = Counter()
        self.handles = []
        self.before_write = None
        self.after_write = None
        self.before_read = None
        self.after_size = None  # somebody has just looked at the size of a file
        self.broken = None  # from some call on, every one of a kind fails
        self.file_faults = {}  # (name, "w" or "r") -> {number of the transfer: fault}
        self.faults = {}
        for f in case.get("faults", []):
            self.faults.setdefault(f["on"], {})[f["n"]] = f
        self.ev = []
        self.cwd = cfg.get("cwd")  # a simulated working directory
        self.strays = []  # other files opened for writing
        self.quiet = False  # keep no record: memory is measured
        self.steps = 0
        self.bytes = 0
        self.fs = SimFS(self)

    # -- event log (pure observation, never influences the run)
    def log(self, *e):
        if not self.quiet:
            self.ev.append(e)
        self.step("")

    def step(self, _k):
        self.steps += 1
        if self.steps > self.MAX_STEPS and not self.dead:
            raise SimAbort("step budget exceeded")

    def count_bytes(self, n):
        self.bytes += n
        if self.bytes > self.MAX_BYTES and not self.dead:
            raise SimAbort("byte budget exceeded")

    def fault(self, on):
        i = self.counts[on]
        self.counts[on] = i + 1
        m = self.faults.get(on)
        f = m.get(i) if m else None
        b = self.broken
        if f is None and b is not None and b["on"] == on and i >= b["n"]:
            f = b
        if f is not None and "err" in f:
            self.fired["error_" + f["err"]] += 1
        return f

    def clear_faults(self):
        self.faults = {}
        self.broken = None
        self.file_faults = {}
        self.disk_limit = None

    def seam(self, on, *info):
        if self.dead:
            return
        f = self.fault(on)
        if f is not None:
            self.log(on + "!", *info, f["do"])
            self.fired[on + "_" + f["do"]] += 1
            raise_fault(f["do"], f)
        self.log(on, *info)

    def open_handles(self):
        return [h for h in self.handles if not h.closed]

    def kill(self):
        """The process dies (or the run ends): nothing reaches the disk any more."""
        self.dead = True

    def digest(self):
        h = hashlib.blake2b(repr(self.ev).encode(), digest_size=8)
        h.update(repr(sorted((n, bytes(f.data)) for n, f in self.fs.files.items())).encode())
        return h.hexdigest()

    def shape(self):
        """Hash of the sequence of operations and outcomes without sizes: the history's shape."""
        s = [(e[0],) + tuple(x for x in e[1:] if isinstance(x, str)) for e in self.ev]
        return hashlib.blake2b(repr(s).encode(), digest_size=8).hexdigest()
