"""Driver for writer histories on a failing medium (C02, C05, C16)."""

import struct

from . import boot, engine, hints, objs
from .common import Target, attempt, ex, gen_recs, level, rlabel
from .world import OTHER_ERRORS, SimAbort, is_injected

OTHERS = sorted(OTHER_ERRORS)

RAW_FAULTS = ["eio", "enospc", "mem", "kbd", "torn", "torn", "kbd_torn", "kbd_after", "kbd_after"]
BUF_FAULTS = ["eio", "enospc", "mem", "kbd"]


class Boom:
    """An object whose encoding fails."""

    class header:
        class base:
            object_size = 48
            object_type = 1

    def __init__(self, how=None):
        self.how = how or "RuntimeError"

    def pack(self):
        if self.how == "nothing":
            return None
        raise BOOMS[self.how]("cannot be encoded")


BOOMS = {c.__name__: c for c in (RuntimeError, KeyboardInterrupt, MemoryError, RecursionError, OverflowError, StopIteration, SystemExit,
                                 OSError, UnicodeError, ValueError, AttributeError, TypeError, KeyError)} | {"struct.error": struct.error}
BOOM_KINDS = ["RuntimeError"] * 6 + ["KeyboardInterrupt"] * 6 + ["nothing", *BOOMS]


def vary(r, f, raw):
    """Let some faults show as other errors than EIO, ENOSPC, MemoryError and KeyboardInterrupt."""
    do = f["do"]
    if f["on"] not in ("w", "r") or do in ("eintr", "mem") or r.random() >= (0.6 if hints.ERRORS else 0.25):
        return f
    f.pop("err", None)
    if do.startswith("kbd"):
        f["err"] = "SystemExit"
    elif hints.ERRORS and r.random() < 0.7:
        f["err"] = r.choice(hints.ERRORS)
    else:
        f["err"] = r.choice(OTHERS)
    if f["err"] == "EAGAIN" and not raw:  # means something else below a buffer
        f["err"] = "EPIPE"
    return f


class History:
    def __init__(self):
        self.writer = None
        self.target = None
        self.attempts = []  # [record, required]
        self.failed_writes = 0
        self.failed_closes = 0
        self.closed = False     # stream no longer open
        self.clean = False      # the call that closed it returned normally
        self.ctor_error = None
        self.gave_up = None     # how the writer was closed when it closed the stream with the log unfinished


def stream_closed(h, w):
    t = h.target
    if t.mem is not None:
        return t.mem.closed
    return not any(x for x in w.open_handles() if x.file.name == t.name)


def start(case, res, w, h):
    cfg = case["cfg"]
    h.target = Target(w, cfg["target"], old=cfg.get("old"))
    h.writer, e = attempt(boot.BlfWriter, h.target.arg, level(cfg), cfg["bufsize"])
    res.note("open", "ok" if e is None else type(e).__name__)
    if e is not None:
        h.ctor_error = e
        if not is_injected(e):
            res.fail("open-failed", f"BlfWriter: {ex(e)}")
    return e is None


def do_write(res, w, h, rec):
    _, e = attempt(h.writer.write, objs.build(rec))
    res.note("write", "ok" if e is None else type(e).__name__)
    h.attempts.append([rec, e is None])
    if e is not None:
        h.failed_writes += 1
        res.probe("write failed on a fault")
        if not is_injected(e):
            res.fail("write-failed", f"write of {rlabel(rec)} raised without a fault: {ex(e)}")
    return e


def do_close(res, w, h, how="close"):
    """Returns True if the history ends here."""
    if how == "with":
        _, e = attempt(h.writer.__exit__, None, None, None)
    else:
        _, e = attempt(h.writer.close)
    res.note("close", "ok" if e is None else type(e).__name__)
    if e is None:
        h.clean = True
        h.closed = True
        return True
    if not is_injected(e):
        res.fail("close-failed", f"close raised without a fault: {ex(e)}")
    h.failed_closes += 1
    res.probe("close failed on a fault")
    if stream_closed(h, w):
        h.closed = True
        res.probe("failed close left the stream closed")
        if h.target.kind in ("raw", "duck"):
            # closing such a stream never fails: the writer closed it although it could not finish the log
            h.gave_up = how
            _, e = attempt(h.writer.close)
            res.note("close", "again", "ok" if e is None else type(e).__name__)
            h.clean = e is None
        return True
    return False


def drive(case, res, w, h):
    for op in case["ops"]:
        k = op["op"]
        if k == "write":
            e = do_write(res, w, h, op["rec"])
            n = op.get("retry", 0)
            while e is not None and n > 0:
                n -= 1
                res.probe("write retried")
                e = do_write(res, w, h, op["rec"])
        elif k == "close":
            for _ in range(op.get("times", 1)):
                if do_close(res, w, h, op.get("how", "close")):
                    return
            if op.get("times", 1) > 1:
                res.probe("closing failed many times")
        elif k == "refuse" and "exc" in op:
            _, e = attempt(h.writer.write, Boom(op["exc"]))
            res.note("refuse", op["exc"], "ok" if e is None else type(e).__name__)
            if e is None:
                res.fail("not-refused", f"an object whose encoding fails ({op['exc']}) is accepted")
            res.probe("encoding failed between failures")
        elif k == "refuse":
            o = objs.build(op["rec"])
            o.header.base.object_size += 4
            pad = attempt(o.pack)[0]
            if pad is not None and len(pad) == o.header.base.object_size:
                continue  # fills up to its declared size
            _, e = attempt(h.writer.write, o)
            res.note("refuse", "ok" if e is None else type(e).__name__)
            if e is None:
                res.fail("not-refused", f"an object of another size than declared ({rlabel(op['rec'])}) is accepted")
            res.probe("refused between failures")
        elif k == "full":
            cur = len(h.target.data())
            w.disk_limit = cur + op["room"]
            res.note("full")
        elif k == "free":
            w.disk_limit = None
            res.note("free")


def gen_ops(r, recs, target):
    """Writes with closes and disk-full periods mixed in."""
    ops = []
    style = r.random()
    for rec in recs:
        op = {"op": "write", "rec": rec}
        if r.random() < 0.35:
            op["retry"] = hints.near(r, 1, 100, 0.3) or r.choice([1, 1, 2, 4])
        ops.append(op)
    if r.random() < 0.2:
        for rec in gen_recs(r, r.choice([1, 2]), ts0=10**8):
            op = {"op": "refuse", "rec": rec}
            if r.random() < 0.3:
                op = {"op": "refuse", "exc": r.choice(BOOM_KINDS)}
            ops.insert(r.randint(0, len(ops)), op)
    if style < 0.35 and ops:
        a = r.randint(0, len(ops))
        room = r.choice([0, 0, 1, 7, 16, 40, r.randint(0, 300)])
        if len(recs) > 25:
            room *= r.choice([1, 10, 100])
        ops.insert(a, {"op": "full", "room": room})
        if r.random() < 0.8:
            b = r.randint(a + 1, len(ops))
            ops.insert(b, {"op": "free"})
    return ops


def place_faults(r, case, run, kinds, nmax=4):
    """Choose fault positions inside the history, using the seam counts of a fault-free run."""
    base = dict(case, faults=[])
    res = engine.Result()
    w = res.world(base)
    try:
        run(base, res, w)
    except (engine.Violation, SimAbort):
        pass
    finally:
        w.kill()
        boot.deactivate()
    nw, nz = w.counts["w"], w.counts["zc"]
    faults = []
    for _ in range(r.randint(1, nmax)):
        if kinds is RAW_FAULTS and r.random() < 0.1:
            f = {"on": "s", "n": r.randint(0, w.counts["s"]), "do": r.choice(["eio", "kbd"])}
        elif nz and r.random() < 0.2:
            f = {"on": "zc", "n": r.randrange(nz + 1), "do": r.choice(["mem", "mem", "kbd"])}
        else:
            x = r.random()
            lo = 0 if x < 0.03 else min(1, nw)
            if x < 0.35:
                lo = max(lo, nw - 5)
            f = {"on": "w", "n": r.randint(lo, nw + 2), "do": r.choice(kinds)}
            if "torn" in f["do"]:
                f["k"] = r.choice([0, 1, 4, 15, 16, 31, 32, 33, r.randint(0, 400), r.randint(0, 100_000) if r.random() < 0.05 else 33])
        faults.append(vary(r, f, kinds is RAW_FAULTS))
        m = hints.near(r, 1, 100, 0.2) or r.choice([0, 0, 0, 1, 2, 5])
        for j in range(1, m + 1):
            faults.append(dict(f, n=f["n"] + j))
    return faults
