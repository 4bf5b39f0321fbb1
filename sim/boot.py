"""Process-wide seams: clock, file opening, (de)compression.

Import this module before anything from vblf. It replaces the sources of
nondeterminism the library can reach with versions that ask the *current world*
(see world.py) and fall back to the real thing while no world is active. The
library itself is imported, unmodified, from /repo/src.
"""

import os
import sys
import tempfile

SRC = os.environ.get("VBLF_SRC", "/repo/src")

sys.dont_write_bytecode = True
os.environ["HOME"] = "/sim/home"  # "~" must not lead out of the simulation
# an empty bytecode directory: never use a stale .pyc of the tree under test
_pyc = tempfile.mkdtemp(prefix="vblfsim-pyc-")
sys.pycache_prefix = _pyc
os.rmdir(_pyc)
sys.path.insert(0, SRC)

import builtins  # noqa: E402
import datetime  # noqa: E402
import io  # noqa: E402
import logging  # noqa: E402
import threading  # noqa: E402,F401  (captures the real clock before it is replaced)
import time  # noqa: E402
import zlib  # noqa: E402

from . import world  # noqa: E402

REAL = {
    n: getattr(time, n)
    for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "sleep")
}
REAL_OPEN = builtins.open
REAL_FILEIO = io.FileIO
REAL_COMPRESS = zlib.compress
REAL_DECOMPRESS = zlib.decompress
REAL_DATETIME = datetime.datetime
REAL_FSYNC = os.fsync
REAL_GETCWD = os.getcwd
REAL_CHDIR = os.chdir

_current = None  # the active World


def activate(world):
    global _current
    _current = world


def deactivate():
    global _current
    _current = None


def _time():
    w = _current
    return REAL["time"]() if w is None else w.clock.wall()


def _time_ns():
    w = _current
    return REAL["time_ns"]() if w is None else int(round(w.clock.wall() * 1e9))


def _mono(name, scale):
    real = REAL[name]

    def f():
        w = _current
        if w is None:
            return real()
        v = w.clock.mono()
        return v if scale == 1 else int(round(v * scale))

    return f


def _sleep(s):
    w = _current
    if w is None:
        REAL["sleep"](s)
    else:
        w.clock.slept += max(0, s)
        w.clock.advance(s)


class SimDateTime(REAL_DATETIME):
    """datetime whose notion of *now* is the simulated clock."""

    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(_time(), tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(_time(), datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


def _open(file, mode="r", buffering=-1, *args, **kwargs):
    w = _current
    if w is not None and not isinstance(file, int):
        p = os.fspath(file)
        if isinstance(p, bytes):
            p = p.decode("utf-8", "surrogateescape")
        if w.cwd is not None and not p.startswith("/"):
            p = f"{w.cwd}/{p}"
        if p.startswith("/sim/"):
            return w.fs.open(p, mode, buffering)
        if set(mode) & set("wax+"):
            w.strays.append(p)
    return REAL_OPEN(file, mode, buffering, *args, **kwargs)


def _sim_path(p):
    """The simulated name `p` stands for, or None."""
    if _current is None or isinstance(p, int):
        return None
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = p.decode("utf-8", "surrogateescape")
    if _current.cwd is not None and not p.startswith("/"):
        p = f"{_current.cwd}/{p}"
    return p if p.startswith("/sim/") else None


def _by_name(real, sim):
    def f(path, *args, **kwargs):
        p = _sim_path(path)
        if p is None:
            return real(path, *args, **kwargs)
        return getattr(_current.fs, sim)(p, *[_sim_path(a) or a for a in args])

    return f


def _getcwd():
    w = _current
    return REAL_GETCWD() if w is None or w.cwd is None else w.cwd


def _chdir(path):
    w = _current
    if w is None or w.cwd is None:
        return REAL_CHDIR(path)
    w.cwd = _sim_path(path) or os.fspath(path)


class _FileIOType(type(io.FileIO)):
    def __instancecheck__(cls, o):
        return isinstance(o, (REAL_FILEIO, world.SimRaw))


class SimFileIO(REAL_FILEIO, metaclass=_FileIOType):
    def __new__(cls, file, mode="r", closefd=True, opener=None):
        if _sim_path(file) is not None:
            return _open(file, mode.replace("b", "") + "b", 0)
        return REAL_FILEIO(file, mode, closefd, opener)


def _compress(data, /, *args, **kwargs):
    w = _current
    if w is not None:
        w.seam("zc", len(data))
    return REAL_COMPRESS(data, *args, **kwargs)


def _decompress(data, /, *args, **kwargs):
    w = _current
    if w is not None:
        w.seam("zd", len(data))
    return REAL_DECOMPRESS(data, *args, **kwargs)


def _fsync(fd):
    w = _current
    if w is not None and not isinstance(fd, int):
        return None
    return REAL_FSYNC(fd)


time.time = _time
time.time_ns = _time_ns
time.monotonic = _mono("monotonic", 1)
time.monotonic_ns = _mono("monotonic_ns", 1e9)
time.perf_counter = _mono("perf_counter", 1)
time.perf_counter_ns = _mono("perf_counter_ns", 1e9)
time.sleep = _sleep
datetime.datetime = SimDateTime
builtins.open = _open
io.open = _open
zlib.compress = _compress
zlib.decompress = _decompress
os.fsync = _fsync
os.getcwd = _getcwd
os.getcwdb = lambda: os.fsencode(_getcwd())
os.chdir = _chdir
os.stat = _by_name(os.stat, "stat")
os.remove = _by_name(os.remove, "remove")
os.unlink = _by_name(os.unlink, "remove")
os.rename = _by_name(os.rename, "rename")
os.replace = _by_name(os.replace, "rename")
os.access = _by_name(os.access, "access")
os.truncate = _by_name(os.truncate, "truncate")
io.FileIO = SimFileIO

import vblf  # noqa: E402
import vblf.can  # noqa: E402
import vblf.constants  # noqa: E402
import vblf.ethernet  # noqa: E402
import vblf.flexray  # noqa: E402
import vblf.general  # noqa: E402
import vblf.lin  # noqa: E402
import vblf.reader  # noqa: E402
import vblf.tp_diag  # noqa: E402
import vblf.writer  # noqa: E402

assert os.path.realpath(vblf.__file__).startswith(os.path.realpath(SRC) + os.sep), vblf.__file__
logging.getLogger("vblf").addHandler(logging.NullHandler())
logging.getLogger("vblf").propagate = False
VBLF_DIR = os.path.dirname(os.path.realpath(vblf.__file__)) + os.sep
BlfWriter = vblf.writer.BlfWriter
BlfReader = vblf.reader.BlfReader
