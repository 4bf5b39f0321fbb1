"""Run one case of one property; classify the outcome."""

import gc
import hashlib
import importlib
import resource
import signal
import traceback
from collections import Counter

from . import boot, world
from .case import normalise
from .world import Violation

CPU_LIMIT = 40.0  # seconds of CPU per case; only ever reached by code that does not terminate
HUGE_LIMIT = 90.0  # the same for logs of more than 4 GiB
MEM_LIMIT = 3 << 30

PROPS = [f"C{i:02d}" for i in range(1, 17)] + ["C21", "C22", "C23", "C24"]


class HarnessError(Exception):
    pass


class Result:
    def __init__(self):
        self.violation = None  # (class, message)
        self.probes = Counter()
        self.fired = Counter()
        self.counts = Counter()
        self.hist = []  # recorded history
        self.worlds = []
        self.nontrivial = False
        self.dirty = False  # the process is not to be used for further cases
        self.covered = 0.0
        self.clock_events = Counter()
        self.digest = self.shape = ""

    def world(self, case):
        w = world.World(case)
        self.worlds.append(w)
        boot.activate(w)
        return w

    def use(self, w):
        boot.activate(w)

    def note(self, *e):
        """History entry: (kind, ...). Strings and ints only, so it is replay-comparable."""
        self.hist.append(e)

    def probe(self, name, n=1):
        self.probes[name] += n

    def fail(self, cls, msg):
        raise Violation(cls, msg)

    def finish(self):
        h = hashlib.blake2b(digest_size=12)
        h.update(repr(self.hist).encode())
        s = hashlib.blake2b(digest_size=8)
        s.update(repr([tuple(x for x in e if isinstance(x, str)) for e in self.hist]).encode())
        for w in self.worlds:
            w.kill()
            h.update(w.digest().encode())
            s.update(w.shape().encode())
            self.fired.update(w.fired)
            self.counts.update({f"io_{k}": v for k, v in w.counts.items()})
            self.covered += w.clock.covered
            if w.clock.njumps:
                self.clock_events["clock_jump"] += w.clock.njumps
            if w.clock.back:
                self.clock_events["clock_set_back"] += w.clock.back
        self.digest = h.hexdigest()
        self.shape = s.hexdigest()


def load(prop):
    return importlib.import_module(f"sim.props.{prop.lower()}")


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))


_armed = [False]


def _on_timer(_sig, _frm):
    if _armed[0]:
        raise world.SimHang("CPU budget exceeded")


def execute(mod, case):
    """One simulated run: a pure function of the case and the code under test."""
    case = normalise(case)
    res = Result()
    gc_was = gc.isenabled()
    gc.disable()
    signal.signal(signal.SIGPROF, _on_timer)
    _armed[0] = True
    limit = HUGE_LIMIT if "huge" in case else CPU_LIMIT
    signal.setitimer(signal.ITIMER_PROF, limit, 0.5)
    try:
        try:
            mod.run(case, res)
        finally:
            _armed[0] = False
            signal.setitimer(signal.ITIMER_PROF, 0)
            for w in res.worlds:
                w.kill()
    except Violation as v:
        res.violation = (v.cls, v.msg)
    except world.SimHang:
        res.violation = ("hang", f"no end within {limit:.0f} s of CPU time")
    except world.SimAbort as e:
        res.violation = ("no-progress", f"the run does not come to an end ({e})")
    except Exception as e:
        tb, lib = e.__traceback__, None
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(boot.VBLF_DIR):
                lib = tb.tb_frame.f_code.co_name
            tb = tb.tb_next
        if lib is None:
            raise HarnessError(traceback.format_exc()) from e
        res.violation = ("unexpected-exception", f"{type(e).__name__}: {e} (from {lib})")
    finally:
        boot.deactivate()
        if gc_was:
            gc.enable()
    res.finish()
    if res.violation is not None and res.violation[0] in ("hang",):
        res.digest = "hang"
    return res
