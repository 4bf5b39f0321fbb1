"""C24: the library and the process it runs in leave each other alone."""

import atexit
import builtins
import decimal
import faulthandler
import gc
import json
import locale
import logging
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import warnings

from .. import boot, engine, faulty, foreign, objs
from ..case import dumps
from ..common import *  # noqa: F403

QUICK, THOROUGH = 16000, 260000
COMPONENTS = {"real": ["BlfWriter", "BlfReader", "object codecs", "zlib", "io.Buffered*", "interpreter-wide and process-wide state"],
              "stub": ["file system with a working directory", "raw file handles (failing, transferring partially)", "clock",
                       "standard streams, environment"]}
SIMPLE = {"cfg.level": [0], "cfg.wcaps": [None], "cfg.rcaps": [None], "cfg.iobuf": [8192], "cfg.bufsize": [1024, 64],
          "cfg.target": ["raw", "path"], "cfg.source": ["mem"], "clock": [{}], "env.gc": [0], "env.std": ["kept"],
          "env.sigint": [0], "env.mask": [0], "env.tz": [None], "env.lang": [0], "env.cwd": ["/sim"]}
KEEP = ("clock",)
FOOTPRINT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "footprint.py")
CHECK = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "check.py")


INTERPRETER = [["-O"], ["-OO"], ["-OO"], ["-X", "dev"], ["-X", "utf8"], ["-u", "-s"], []]
SETTINGS = [{"PYTHONHASHSEED": "3"}, {"PYTHONHASHSEED": "77"}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
            {"TZ": "XYZ-5:30"}, {"HOME": "/nonexistent", "LANG": "de_DE.ISO-8859-1"}, {}]
OTHERS = [f"C{i:02d}" for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16, 23)]


def gen_interpreter(r, tier):
    """Cases of other properties, to be run by another interpreter process."""
    cases = []
    for _ in range(r.choice([20, 30])):
        p = r.choice(OTHERS)
        r.index = 99
        cases.append([p, engine.load(p).gen(r, tier)])
    return {"cfg": {}, "flags": r.choice(INTERPRETER), "settings": r.choice(SETTINGS), "cases": cases}


def gen_import(r):
    """A process that imports and uses the library."""
    order = list(range(10))
    r.shuffle(order)
    end = r.choice(["close", "leave", "exit", "reader"])
    flags = r.choice([[], ["-O"], ["-OO"], ["-bb"], ["-I"], ["-E"], ["-X", "utf8"], ["-u"]])
    if end in ("close", "exit") and r.random() < 0.5:
        flags = r.choice([["-W", "error"], ["-X", "dev"]])
    return {"cfg": {}, "import": order[: r.choice([1, 2, 10])], "flags": flags, "end": end}


def gen(r, tier):
    if r.index % 400 == 7:
        return gen_interpreter(r, tier)
    if r.index % 400 == 207:
        return gen_import(r)
    target = r.choice(["path", "path", "rel", "rel", "raw", "duck", "buf", "mem"])
    cfg = {"target": target, "source": r.choice(["path", "rel", "raw", "buf", "mem"]), "level": gen_level(r),
           "bufsize": r.choice([r.randint(1, 64), r.randint(16, 200), r.randint(100, 2000)]),
           "wcaps": gen_caps(r, 0.3), "rcaps": gen_caps(r, 0.3), "iobuf": gen_iobuf(r)}
    env = {"gc": r.choice([0, 1]), "std": r.choice(["kept", "kept", "none", "broken"]), "sigint": r.choice([0, 1, 2]),
           "mask": r.choice([0, 0, 1]), "tz": r.choice([None, "UTC", "XYZ-5:30", "AAA11"]), "lang": r.choice([0, 0, 1]),
           "seed": r.randrange(1000), "cwd": r.choice(["/sim", "/sim/d", "/sim/d/e"])}
    ops = [{"op": "write", "rec": x} for x in gen_recs(r, r.choice([0, 1, 2, 4, 8]), big=r.choice([0, 0, 500]))]
    for _ in range(r.choice([0, 0, 1, 2])):
        ops.insert(r.randint(0, len(ops)), {"op": "refuse"})
    log = foreign.gen_log(r, n=r.choice([0, 1, 2, 5]))
    for _ in range(r.choice([0, 1, 1, 2, 4])):
        ops.insert(r.randint(0, len(ops)), {"op": "read", "n": r.choice([1, 1, 2, 5])})
    for _ in range(r.choice([0, 0, 1, 2])):
        ops.insert(r.randint(0, len(ops)), {"op": "bad", "which": r.randrange(8)})
    for _ in range(r.choice([0, 1, 1, 2])):  # the caller changes directory, files are moved
        ops.insert(r.randint(0, len(ops)), r.choice([{"op": "chdir", "to": r.choice(["/sim", "/sim/d", "/sim/x"])}, {"op": "move"}]))
    if r.random() < 0.2:
        ops.insert(r.randint(0, len(ops)), {"op": "full", "room": r.choice([0, 20, 100])})
    if r.random() < 0.1:
        ops.insert(r.randint(0, len(ops)), {"op": "close"})
    case = {"cfg": cfg, "env": env, "clock": gen_clock(r, 0.2), "log": log, "ops": ops, "end": r.choice(["close", "with", "drop"]),
            "rest": r.choice(["all", "exit", "drop"]), "faults": []}
    if r.random() < 0.3:
        case["flip"] = [[r.randint(0, 10**6), r.randrange(8)] for _ in range(r.choice([1, 3]))]
    if r.random() < 0.6:
        kinds = faulty.RAW_FAULTS if target in ("raw", "duck") else faulty.BUF_FAULTS
        case["faults"] = faulty.place_faults(r, case, _profile, kinds)
        for f in case["faults"]:
            if r.random() < 0.3:
                f.update(on="r", do=r.choice(["eio", "kbd", "mem"]), n=r.randint(0, 12))
                f.pop("k", None)
                f.pop("err", None)
    return case


def _profile(case, res, w):
    with Env(case["env"], w):
        Run(case, res, w).go()


# ------------------------------------------------------------------ the process


class Std(io.StringIO):
    """A standard stream that takes no output: whoever writes to it gets an error."""

    def __init__(self, broken):
        super().__init__()
        self.broken = broken
        self.n = 0

    def write(self, s):
        self.n += len(s)
        if self.broken:
            raise OSError(9, "Bad file descriptor")
        return len(s)


def _handler(_s, _f):
    pass


_SIGNALS = [signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGPIPE, signal.SIGALRM, signal.SIGUSR1, signal.SIGUSR2,
            signal.SIGCHLD, signal.SIGXFSZ]


class Env:
    """Settings of the process, made by the caller; what they are is looked at around every call."""

    n = 0

    def __init__(self, spec, w):
        self.spec = spec
        self.w = w
        self.ignored = []

    def __enter__(self):
        s = self.spec
        self.old = {"gc": gc.isenabled(), "thr": gc.get_threshold(), "std": (sys.stdout, sys.stderr), "env": dict(os.environ),
                    "rand": random.getstate(), "hook": sys.unraisablehook, "umask": os.umask(0o22),
                    "enc": (locale.getpreferredencoding, locale.getencoding),
                    "sig": [signal.getsignal(x) for x in _SIGNALS], "mask": signal.pthread_sigmask(signal.SIG_BLOCK, [])}
        Env.n += 1
        if Env.n % 50 == 0:
            gc.collect()
        gc.freeze()
        gc.set_threshold(10**7, 50, 50)  # when it runs is no part of the simulation
        if s["gc"]:
            gc.enable()
        if s["std"] == "none":
            sys.stdout = sys.stderr = None
            self.std = []
        else:
            self.std = [Std(s["std"] == "broken"), Std(s["std"] == "broken")]
            sys.stdout, sys.stderr = self.std
        if s["sigint"]:
            signal.signal(signal.SIGINT, [None, signal.SIG_IGN, _handler][s["sigint"]])
        if s["mask"]:
            signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGUSR2])
        if s["tz"]:
            os.environ["TZ"] = s["tz"]
            time.tzset()
        if s["lang"]:
            locale.getpreferredencoding = lambda do_setlocale=True: "cp1252"
            locale.getencoding = lambda: "cp1252"
        random.seed(s["seed"])
        self.w.cwd = s["cwd"]
        sys.unraisablehook = lambda u: self.ignored.append(f"{type(u.exc_value).__name__}: {u.exc_value}")
        self.frozen = gc.get_freeze_count()
        self.threads = set(threading.enumerate())
        self.builtins = dict(vars(builtins))
        self.builtins.pop("_", None)
        self.first = dict(self.look(), **PRISTINE)
        return self

    def __exit__(self, *exc):
        o = self.old
        gc.unfreeze()
        gc.set_threshold(*o["thr"])
        gc.enable() if o["gc"] else gc.disable()
        sys.stdout, sys.stderr = o["std"]
        os.environ.clear()
        os.environ.update(o["env"])
        time.tzset()
        random.setstate(o["rand"])
        sys.unraisablehook = o["hook"]
        os.umask(o["umask"])
        locale.getpreferredencoding, locale.getencoding = o["enc"]
        for x, h in zip(_SIGNALS, o["sig"]):
            if h is not None:
                signal.signal(x, h)
        signal.pthread_sigmask(signal.SIG_SETMASK, o["mask"])
        signal.setitimer(signal.ITIMER_REAL, 0)
        logging.getLogger().handlers[:] = PRISTINE["the logging configuration"][1]

    def shared(self):
        """What other threads depend on at any time."""
        return {"the working directory": self.w.cwd, "the environment": dict(getattr(os.environ, "_data", os.environ)), "the time zone": time.tzname,
                "standard output": id(sys.stdout), "standard error": id(sys.stderr),
                "the locale": locale.setlocale(locale.LC_ALL)}

    def look(self):
        d = self.shared()
        u = os.umask(0o22)
        os.umask(u)
        d.update({
            "the umask": u,
            "signal handlers": [signal.getsignal(x) for x in _SIGNALS],
            "the signal mask": sorted(signal.pthread_sigmask(signal.SIG_BLOCK, [])),
            "the alarm timer": signal.getitimer(signal.ITIMER_REAL) != (0.0, 0.0),
            "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
            "the random numbers": random.getstate(),
        })
        d.update(settings())
        return d

    def check(self, res, what):
        now = self.look()
        for k, v in self.first.items():
            if now[k] != v:
                res.fail("process", f"{k} changed by {what}")
        if gc.get_freeze_count() > self.frozen:
            res.fail("process", f"objects of the process are frozen by {what}")
        for s in self.std:
            if s.n:
                res.fail("output", f"{what} writes to standard output or error")

    def check_end(self, res):
        for k, v in vars(builtins).items():
            if k != "_" and self.builtins.get(k, v) is not v:
                res.fail("process", f"the builtin {k} is replaced")
        t = [x for x in threading.enumerate() if x not in self.threads]
        if t:
            res.fail("process", "a thread is left behind")
        if self.ignored:
            res.fail("background", f"an error occurs behind the caller's back: {self.ignored[0]}")
        if self.w.strays:
            res.fail("other-file", f"another file is written: {self.w.strays[0]}")


def settings():
    """What is the same for all cases."""
    log, root = logging.getLogger("vblf"), logging.getLogger()
    return {
        "the priority": os.getpriority(os.PRIO_PROCESS, 0),
        "the default buffer size": io.DEFAULT_BUFFER_SIZE,
        "the stack size of threads": threading.stack_size(),
        "warning filters": (list(warnings.filters), id(warnings.showwarning)),
        "what runs at exit": atexit._ncallbacks(),
        "decimal arithmetic": str(decimal.getcontext()),
        "the digit limit": sys.get_int_max_str_digits() if hasattr(sys, "get_int_max_str_digits") else 0,
        "fault handling": faulthandler.is_enabled(),
        "the recursion limit": sys.getrecursionlimit(),
        "the switch interval": sys.getswitchinterval(),
        "trace functions": (sys.gettrace(), sys.getprofile()),
        "hooks for exceptions": (sys.excepthook, threading.excepthook, sys.displayhook),
        "the limits of the process": [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_FSIZE,
                                                                       resource.RLIMIT_DATA, resource.RLIMIT_STACK)],
        "the logging configuration": (root.level, list(root.handlers), root.manager.disable, log.level,
                                      list(log.handlers), log.propagate, log.disabled, list(root.filters)),
    }


PRISTINE = settings()
PLAIN = {"gc": 0, "std": "kept", "sigint": 0, "mask": 0, "tz": None, "lang": 0, "seed": 1, "cwd": "/sim"}


# ------------------------------------------------------------------ the history


class Run:
    def __init__(self, case, res, w, env=None):
        self.case, self.res, self.w = case, res, w
        self.env = env
        self.out = []  # outcomes
        self.moves = 0
        self.name = None
        if w.cwd is None:
            w.cwd = case["env"]["cwd"]

    def call(self, what, fn, *args):
        v, e = attempt(fn, *args)
        self.out.append((what, None if e is None else type(e).__name__))
        if self.env is not None:
            self.env.check(self.res, what)
            self.res.note(*self.out[-1])
        return v, e

    def during(self, _h):
        now = self.env.shared()
        for k, v in now.items():
            if v != self.env.first[k]:
                self.res.fail("process", f"{k} is changed while a file is accessed")

    def go(self):
        case, w = self.case, self.w
        cfg = case["cfg"]
        data = bytearray(foreign.compose(case["log"])[0])
        for at, bit in case.get("flip", []):
            if len(data) > 144:
                data[144 + at % (len(data) - 144)] ^= 1 << bit
        data = bytes(data)
        if self.env is not None:
            w.before_write = w.before_read = self.during
        # files
        kind = cfg["target"]
        if kind == "rel":
            self.name = w.cwd + "/out.blf"
            t = Target(w, "path", self.name)
            t.arg = "out.blf"
        else:
            t = Target(w, kind, "/sim/out.blf")
            self.name = t.name
        if cfg["source"] == "rel":
            inname = w.cwd + "/in.blf"
            w.fs.put(inname, data)
            src = "in.blf"
        else:
            inname = "/sim/in.blf"
            src = source(w, cfg["source"], data, inname)
        wr, e = self.call("BlfWriter()", boot.BlfWriter, t.arg, cfg["level"], cfg["bufsize"])
        rd, e = self.call("BlfReader()", boot.BlfReader, src)
        got = 0
        for op in case["ops"]:
            k = op["op"]
            if k == "write" and wr is not None:
                self.call("write()", wr.write, objs.build(op["rec"]))
            elif k == "refuse" and wr is not None:
                o = objs.build(objs.simple_record(5))
                o.header.base.object_size += 4
                self.call("write() of a wrong object", wr.write, o)
            elif k == "close" and wr is not None:
                self.call("close()", wr.close)
            elif k == "read" and rd is not None:
                for _ in range(op["n"]):
                    o, e = self.call("read_object()", rd.read_object)
                    if o is None:
                        break
                    got += 1
            elif k == "bad":
                self.bad(op["which"])
            elif k in ("chdir", "move") and self.env is None:  # not in a plain process
                pass
            elif k == "chdir":
                w.cwd = op["to"]
                if self.env is not None:
                    self.env.first["the working directory"] = w.cwd
            elif k == "move" and self.name in w.fs.files and kind != "mem":
                self.moves += 1
                new = f"{self.name}.{self.moves}"
                w.fs.rename(self.name, new)
                self.name = new
            elif k == "full":
                w.disk_limit = (len(w.fs.data(self.name)) if self.name in w.fs.files else 0) + op["room"]
        # the end
        if case["rest"] != "drop" and rd is not None:
            if case["rest"] == "all":
                while got < 10**5:
                    o, e = self.call("read_object()", rd.read_object)
                    if o is None:
                        break
                    got += 1
            self.call("the end of the reader's with-block", rd.__exit__, None, None, None)
        o = e = rd = None
        w.clear_faults()
        if wr is not None and case["end"] != "drop":
            for _ in range(3):
                _, e = self.call("close()", wr.close if case["end"] == "close" else lambda: wr.__exit__(None, None, None))
                if e is None:
                    break
        wr = e = src = t.arg = t.stream = None
        self.out.append(("objects", got))
        self.log = w.fs.data(self.name) if kind != "mem" else t.mem.bytes() if t.mem is not None else b""
        if gc.get_freeze_count():
            gc.collect()  # whatever was dropped
        if self.env is not None:
            self.env.check(self.res, "dropping the objects")
        names = {self.name} if kind != "mem" else set()
        if cfg["source"] != "mem":
            names.add(inname)
        for n in w.fs.files:
            if n not in names:
                self.res.fail("other-file", f"a file appears: {n}")
        if cfg["source"] != "mem":
            f = w.fs.files.get(inname)
            if f is None or bytes(f.data) != data or f.log:
                self.res.fail("input-changed", "the log that is read is changed")
        return self

    def bad(self, which):
        w = self.w
        if which == 0:
            self.call("BlfWriter() with a wrong level", boot.BlfWriter, io.BytesIO(), 11)
        elif which == 1:
            self.call("BlfWriter() with a wrong size", boot.BlfWriter, io.BytesIO(), 0, 0)
        elif which == 2:
            self.call("BlfWriter() of no file", boot.BlfWriter, 3.5)
        elif which == 3:
            self.call("BlfReader() of no file", boot.BlfReader, 3.5)
        elif which == 4:
            self.call("BlfReader() of no log", boot.BlfReader, io.BytesIO(b"LOGG"))
        elif which == 5:
            self.call("BlfReader() of a missing file", boot.BlfReader, "/sim/missing.blf")
        elif which == 6:
            self.call("BlfReader() of no log", boot.BlfReader, io.BytesIO(bytes(300)))
        else:
            self.call("BlfReader() of a missing file", boot.BlfReader, "nothing.blf")


def other_process(flags, settings, cases):
    """Run cases in a process of their own -> outcomes, or what went wrong."""
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "TZ"))}
    env.update(settings, PYTHONDONTWRITEBYTECODE="1")
    try:
        p = subprocess.run([sys.executable, *flags, CHECK, "--digests"], env=env,
                           input=dumps(cases), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, encoding="ascii",
                           errors="replace", timeout=100)
    except subprocess.TimeoutExpired:
        return None
    try:
        return json.loads(p.stdout)
    except ValueError:
        return f"exit code {p.returncode}: {p.stderr[-150:]}"


def run_interpreter(case, res):
    res.world(case)
    plain = other_process([], {"PYTHONHASHSEED": "0"}, case["cases"])
    other = other_process(case["flags"], case["settings"], case["cases"])
    how = " ".join(case["flags"] + [f"{k}={v}" for k, v in sorted(case["settings"].items())])
    if plain is None or other is None:
        res.probe("no verdict: too slow")
        return
    if isinstance(plain, str):
        raise SimError(plain)
    if isinstance(other, str):
        res.fail("depends", f"under {how or 'another hash seed'} the library does not work")
    for k, (a, b) in enumerate(zip(plain, other)):
        if "harness" in (a[0], b[0]):
            raise SimError(str(a if a[0] == "harness" else b))
        if a != b:
            res.fail("depends", f"under {how or 'another hash seed'} a run of {case['cases'][k][0]} ends with {b[1]} "
                     f"instead of {a[1]}" if a[1] != b[1] else f"under {how or 'another hash seed'} a run of {case['cases'][k][0]} goes another way")
        res.note("other", a[0])
    res.nontrivial = True
    res.probe("runs repeated by an interpreter with other options", len(plain))


def run_import(case, res):
    """What importing and using the library changes in a process, and what that leaves behind when it ends."""
    res.world(case)
    d = tempfile.mkdtemp(prefix="c24-")
    how = f"a process that uses the library ({' '.join(case['flags'])})"
    try:
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "TZ"))}
        p = subprocess.run([sys.executable, "-B", *case["flags"], FOOTPRINT, boot.SRC, ",".join(map(str, case["import"])), case["end"]],
                           cwd=d, env=dict(env, HOME=d, TMPDIR=d, XDG_CACHE_HOME=d), stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=100)
        names = sorted(os.listdir(d))
    except subprocess.TimeoutExpired:
        res.probe("no verdict: too slow")
        return
    finally:
        shutil.rmtree(d)
    if p.returncode < 0:
        raise SimError(f"{how} was ended by signal {-p.returncode}")
    first, _, rest = p.stdout.partition("\n")
    if p.returncode or rest or p.stderr:
        last = (p.stderr.strip().splitlines() or ["nothing"])[-1]
        res.fail("process", f"{how} ends with exit code {p.returncode} and prints {(rest or last)[:150]}")
    for x in json.loads(first):
        res.fail("process", x)
    want = ["out.blf"] if case["end"] in ("close", "reader") else ["left.blf", "out.blf"]
    if names != want:
        res.fail("other-file", f"{how} leaves behind {sorted(set(names) ^ set(want))}")
    res.note("import", case["end"])
    res.nontrivial = True
    res.probe("a process that imports and uses the library")


def run(case, res):
    if "import" in case:
        return run_import(case, res)
    if "cases" in case:
        return run_interpreter(case, res)
    w = res.world(case)
    with Env(case["env"], w) as env:
        b = Run(case, res, w, env).go()
        env.check_end(res)
    # in a process with nothing special about it
    plain = dict(case, env=dict(PLAIN, cwd=case["env"]["cwd"]))
    w0 = res.world(plain)
    with Env(plain["env"], w0):
        a = Run(plain, res, w0).go()
    if a.out != b.out:
        k = next((k for k, (x, y) in enumerate(zip(a.out, b.out)) if x != y), min(len(a.out), len(b.out)))
        res.fail("depends", f"with other settings of the process call {k} ends with {b.out[k] if k < len(b.out) else 'nothing'} "
                 f"instead of {a.out[k] if k < len(a.out) else 'nothing'}")
    if a.log != b.log:
        res.fail("depends", "with other settings of the process another log is written")
    res.nontrivial = True
    if any(y not in (None, "ValueError", "TypeError") and x != "objects" for x, y in b.out):
        res.probe("state looked at after a failed call")
    if case["env"]["std"] != "kept":
        res.probe("standard streams " + ("missing" if case["env"]["std"] == "none" else "broken"))
    if b.moves:
        res.probe("file moved while it was written")
