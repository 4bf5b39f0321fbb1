"""A process of its own that imports and uses vblf (C24): prints as JSON what that changed in it.

usage: python -B [flags] footprint.py SRC ORDER END     in an empty scratch directory
"""

import atexit
import builtins
import datetime
import decimal
import faulthandler
import gc
import importlib.metadata  # noqa: F401
import io
import json
import locale
import logging
import os
import random
import resource
import signal
import socket
import struct
import sys
import threading
import time
import warnings
import zlib

MODULES = ["vblf", "vblf.reader", "vblf.writer", "vblf.can", "vblf.general", "vblf.constants", "vblf.lin", "vblf.ethernet",
           "vblf.flexray", "vblf.tp_diag"]
STDLIB = [builtins, time, zlib, os, io, struct, datetime, logging, signal, locale, threading, random, sys, json, gc]


def children():
    try:
        with open(f"/proc/self/task/{os.getpid()}/children") as f:
            return f.read()
    except OSError:
        return ""


def handlers(log):
    return [str(type(h)) for h in log.handlers if not isinstance(h, logging.NullHandler)]


def look():
    u = os.umask(0o22)
    os.umask(u)
    log, root = logging.getLogger("vblf"), logging.getLogger()
    return {
        "the working directory": os.getcwd(),
        "the environment": dict(os.environ),
        "the umask": u,
        "signal handlers": [str(signal.getsignal(s)) for s in sorted(signal.valid_signals())],
        "the signal mask": sorted(signal.pthread_sigmask(signal.SIG_BLOCK, [])),
        "timers": [signal.getitimer(t)[1] for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
        "garbage collection": [gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count()],
        "collector callbacks": len(gc.callbacks),
        "the random numbers": hash(random.getstate()),
        "the locale": locale.setlocale(locale.LC_ALL),
        "warning filters": [str(f) for f in warnings.filters] + [warnings.showwarning.__module__],
        "the recursion limit": sys.getrecursionlimit(),
        "the switch interval": sys.getswitchinterval(),
        "the digit limit": sys.get_int_max_str_digits() if hasattr(sys, "get_int_max_str_digits") else 0,
        "trace functions": [sys.gettrace() is None, sys.getprofile() is None],
        "hooks": [sys.excepthook is sys.__excepthook__, sys.displayhook is sys.__displayhook__,
                  sys.unraisablehook is sys.__unraisablehook__, threading.excepthook is threading.__excepthook__],
        "the import machinery": [len(sys.meta_path), len(sys.path_hooks), list(sys.path), list(sys.argv), sys.dont_write_bytecode],
        "limits of the process": [resource.getrlimit(getattr(resource, x)) for x in sorted(dir(resource)) if x.startswith("RLIMIT_")],
        "the priority": os.getpriority(os.PRIO_PROCESS, 0),
        "decimal arithmetic": str(decimal.getcontext()),
        "fault handling": faulthandler.is_enabled(),
        "what runs at exit": atexit._ncallbacks(),
        "the logging configuration": [root.level, handlers(root), root.manager.disable, log.level, handlers(log), log.propagate,
                                      log.disabled, len(root.filters), logging.getLevelName(10), logging.raiseExceptions,
                                      str(logging.getLoggerClass()), str(logging.getLogRecordFactory())],
        "threads": threading.active_count(),
        "thread settings": [threading.stack_size(), socket.getdefaulttimeout()],
        "standard streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr), id(sys.__stdout__)],
        "open files": len(os.listdir("/proc/self/fd")),
        "child processes": children(),
        **{f"the module {m.__name__}": {k: id(v) for k, v in vars(m).items()
                                        if k not in ("_", "__warningregistry__", "last_exc", "last_value", "last_type", "last_traceback")
                                        and not (m is builtins and k == "_")} for m in STDLIB},
    }


def changed(a, b, what):
    out = []
    for k, v in a.items():
        if b[k] != v:
            if isinstance(v, dict):
                k += " (" + ", ".join(sorted(x for x in {*v, *b[k]} if v.get(x) != b[k].get(x)))[:80] + ")"
            out.append(f"{k} changed by {what}")
    return out


def main():
    src, order, end = sys.argv[1], sys.argv[2], sys.argv[3]
    sys.path.insert(0, src)
    logging.getLogger("vblf")
    list(map(chr, range(5)))
    for _ in range(2):
        first = look()
    for name in order.split(","):
        __import__(MODULES[int(name)])
    out = changed(first, look(), "importing the library")
    first = look()
    from vblf.can import CanMessage
    from vblf.reader import BlfReader
    from vblf.writer import BlfWriter

    def use(w):
        for i in range(40):
            w.write(CanMessage.unpack(struct.pack("<4sHHIIIHHQHBBI8s", b"LOBJ", 32, 1, 48, 1, 2, 0, 0, i, 1, 0, 8, i, bytes(8))))

    with BlfWriter("out.blf", 6, 200) as w:
        use(w)
    with BlfReader("out.blf") as r:
        if len(list(r)) != 40:
            out.append("the log cannot be read")
    for bad in (lambda: BlfWriter("out.blf", 11), lambda: BlfReader("missing.blf"), lambda: BlfReader(io.BytesIO(b"x")),
                lambda: w.write(None)):
        try:
            bad()
        except Exception:
            pass
        else:
            out.append("an error is not raised")
    out += changed(first, look(), "using the library")
    sys.stdout.write(json.dumps(out) + "\n")
    if end == "leave":
        global left
        left = BlfWriter("left.blf", 6, 200)
        use(left)
    elif end == "exit":
        with BlfWriter("left.blf", 6, 200) as w:
            use(w)
            sys.exit(0)
    elif end == "reader":
        left = BlfReader("out.blf")
        left.read_object()


main()
