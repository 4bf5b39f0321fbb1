"""C22: memory does not grow with the log, nor with the number of logs handled."""

import gc
import random
import tracemalloc

from .. import boot, foreign, hints, objs, ref
from ..common import *  # noqa: F403
from ..world import INJECTED

QUICK, THOROUGH = 700, 5900
COMPONENTS = {"real": ["BlfWriter", "BlfReader", "object codecs", "zlib", "io.Buffered*", "memory allocation (counted)"],
              "stub": ["raw file handle (failing, transferring partially)", "clock", "log file to be read (reference encoder)"]}
SIMPLE = {"cfg.level": [0], "cfg.caps": [None], "cfg.fail": [0], "cfg.refuse": [0], "cfg.kind": ["raw"], "log.style": [1],
          "log.pads": [[]], "log.stats": [{}], "log.level": [0]}
KEEP = ("clock",)
PER_OBJECT = 4     # bytes per object by which the peak may grow


def gen(r, tier):
    mode = r.choice(["write", "write", "read", "read", "many"])
    cfg = {"mode": mode, "caps": gen_caps(r, 0.3), "kind": r.choice(["raw", "duck", "buf", "mem"]), "iobuf": gen_iobuf(r)}
    if cfg["caps"]:
        cfg["caps"] = [c + 10 for c in cfg["caps"]]
    case = {"cfg": cfg, "clock": gen_clock(r, 0.2)}
    n = r.choice([1, 1, 2, 3])
    if r.random() < 0.7:  # no two objects are the same
        case["vary"] = r.randrange(10**6)
    if mode == "read":
        case["log"] = foreign.gen_log(r, n=n)
        case["log"]["cuts"] = []
        for it in case["log"]["items"]:
            it["gap"] = it.get("gap", b"")[:8]
        case["log"]["pads"] = [x[-12:] for x in case["log"]["pads"]]
        case["log"]["lead"] = case["log"].get("lead", b"")[-40:]
        case["step"] = r.choice([None, 40, 100, 500, 3000]) if n < 3 else 500
        cfg["how"] = r.choice(["for", "read", "next", "iter"])
        unit = sum(len(ref.encode(i["rec"])) + len(i.get("gap", b"")) for i in case["log"]["items"])
        cfg["times"] = min(r.choice([1200, 1800]) // n, max(100, 1500 * (case["step"] or 3000) // unit))
    else:
        case["recs"] = gen_recs(r, n, big=r.choice([0, 0, 0, 500]))
        cfg.update(level=gen_level(r), bufsize=r.choice([r.randint(1, 50), r.randint(50, 3000), 1000]))
        cfg["fail"] = r.choice([0, 0, 2, 7, 30])   # at every so many objects (logs) a raw write fails
        cfg["refuse"] = r.choice([0, 0, 1, 3])     # after every so many objects one is refused
        cfg["times"] = r.choice([900, 1500]) // n if mode == "write" else r.choice([60, 90])
        if mode == "write":  # containers cost time
            unit = sum(len(ref.encode(x)) for x in case["recs"])
            cfg["times"] = min(cfg["times"], max(100, 1500 * cfg["bufsize"] // unit))
            cfg["only"] = r.random() < 0.15        # nothing but refused objects, and writes after the end
        cfg["end"] = r.choice(["close", "with", "drop"])
        cfg["bad"] = r.choice([0, 0, 1])           # logs which are none, or damaged, in between
    return case


class Records:
    """The i-th object: the given ones in turn, or others of the same kinds."""

    def __init__(self, case, recs):
        self.recs = recs
        self.vary = case.get("vary")
        self.big = max(len(ref.encode(x)) for x in recs) if self.vary is None else 400

    def __getitem__(self, i):
        rec = self.recs[i % len(self.recs)]
        if self.vary is None:
            return rec
        r = random.Random(self.vary * 100_003 + i)
        with hints.Without():  # what is drawn during a run must not depend on the code under test
            new = objs.gen_record(r, rec["h"]["ts"] + i if "h" in rec else 1000 + i, [rec["k"]])
        if new["k"] == "raw":
            new["t"] = rec["t"]
        else:
            for n in ("flags", "canfd_flags"):  # of flags there are few combinations
                if (new["k"], n) in objs.ENUM_CLS:
                    new["f"][n] &= 7
        return new


class Sink(io.RawIOBase):
    """Takes everything, keeps nothing."""

    def __init__(self, caps, fail=False):
        super().__init__()
        self.caps = caps
        self.fail = fail  # the next call
        self.n = self.pos = 0

    def writable(self):
        return True

    seekable = writable

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off
        return self.pos

    def write(self, b):
        self.n += 1
        if self.fail:
            self.fail = False
            raise OSError(5, INJECTED)
        k = len(b) if not self.caps else min(len(b), self.caps[self.n % len(self.caps)])
        self.pos += k
        return k


class Tape(io.RawIOBase):
    """Plays `data`."""

    def __init__(self, data, caps):
        super().__init__()
        self.data = data
        self.caps = caps
        self.n = self.pos = 0

    def readable(self):
        return True

    seekable = readable

    def seek(self, off, whence=0):
        self.pos = (0, self.pos, len(self.data))[whence] + off
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, buf):
        self.n += 1
        k = len(buf) if not self.caps else min(len(buf), self.caps[self.n % len(self.caps)])
        k = max(0, min(k, len(self.data) - self.pos))
        buf[:k] = self.data[self.pos : self.pos + k]
        self.pos += k
        return k


def wrap(kind, raw, iobuf, writing):
    if kind == "duck":
        return Duck(raw)
    if kind == "buf":
        return (io.BufferedWriter if writing else io.BufferedReader)(raw, iobuf)
    return raw


def run(case, res):
    w = res.world(case)
    w.quiet = True
    gc.collect()
    gc.enable()
    tracemalloc.start()
    try:
        {"write": write, "read": read, "many": many}[case["cfg"]["mode"]](case, res)
    finally:
        tracemalloc.stop()
        gc.disable()
    res.nontrivial = True


def grown(res, before, middle, after, n, slack, what):
    """`n` further objects or logs took the peak from `before` over `middle` to `after`: what grows does so all the time."""
    k = max(0, 2 * min(middle - before, after - middle))
    res.probes["most growth, permille of the limit"] = max(res.probes["most growth, permille of the limit"],
                                                           1000 * k // (n * PER_OBJECT + slack))
    if k > n * PER_OBJECT + slack:
        res.fail("memory", f"the memory taken grows with {what}, by some {max(1, k // n)} bytes each")


def write(case, res):
    cfg = case["cfg"]
    recs = Records(case, case["recs"])
    size = len(case["recs"])
    big = recs.big
    if cfg["kind"] == "mem":
        cfg["kind"] = "raw"
    sink = Sink(cfg["caps"])
    wr, e = attempt(boot.BlfWriter, wrap(cfg["kind"], sink, cfg["iobuf"], True), cfg["level"], cfg["bufsize"])
    if e is not None:
        res.fail("open-failed", f"BlfWriter: {ex(e)}")
    done = 0

    def refused(rec):
        o = objs.build(rec)
        if done % 2:
            o.header.base.object_size += 4
        else:
            o.header.base.object_size = "many"
        attempt(wr.write, o)

    def put(times):
        nonlocal done
        if cfg.get("only"):
            if cfg["refuse"]:
                attempt(wr.close)
            for _ in range(times * size):
                refused(recs[done])
                done += 1
            return
        for _ in range(times * size):
            rec = recs[done]
            if cfg["fail"] and done % cfg["fail"] == 0:
                sink.fail = True
            _, e = attempt(wr.write, objs.build(rec))
            if e is not None and not injected(e):
                res.fail("write-failed", f"write of {rlabel(rec)} raised without a fault: {ex(e)}")
            done += 1
            if cfg["refuse"] and done % cfg["refuse"] == 0:
                refused(rec)

    n = cfg["times"]
    base = tracemalloc.get_traced_memory()[0]
    put(n)
    first = tracemalloc.get_traced_memory()[1] - base
    slack = 6000 + 8 * (cfg["bufsize"] + big)
    limit = (600_000 if cfg["level"] else 100_000) + 20 * (cfg["bufsize"] + big)
    if cfg["fail"]:  # what could not be stored waits in memory
        slack += 4 * (cfg["bufsize"] + big)
    if first > limit:
        res.fail("memory", f"writing {n * size} objects of up to {big} bytes in containers of {cfg['bufsize']} "
                 f"takes more than {limit} bytes of memory")
    tracemalloc.reset_peak()
    put(n)
    second = tracemalloc.get_traced_memory()[1] - base
    tracemalloc.reset_peak()
    put(n)
    third = tracemalloc.get_traced_memory()[1] - base
    grown(res, first, second, third, 2 * n * size, slack, "the number of objects written")
    res.note("write", done, "only refused" if cfg.get("only") else "", cfg["kind"], cfg["end"],
             "failing" if cfg["fail"] else "", "refusing" if cfg["refuse"] else "", "short" if cfg["caps"] else "")
    for _ in range(4):
        _, e = attempt(wr.close)
        if e is None:
            break
    res.probe("objects", done)


def read(case, res):
    cfg = case["cfg"]
    log = case["log"]
    recs = Records(case, foreign.records(log))
    items = [dict(it, rec=recs[k]) for k, it in enumerate(log["items"] * (3 * cfg["times"]))]
    unit = recs.big + 8
    step = case["step"]
    if step is None:
        step = 3000
    whole = sum(len(ref.encode(it["rec"])) + len(it.get("gap", b"")) for it in items)
    log = dict(log, items=items, cuts=list(range(step, whole, step)))
    data, parts = foreign.compose(log)
    total = len(log["items"])
    del parts, items, log
    f = io.BytesIO(data) if cfg["kind"] == "mem" else wrap(cfg["kind"], Tape(data, cfg["caps"]), cfg["iobuf"], False)
    tracemalloc.reset_peak()
    base = tracemalloc.get_traced_memory()[0]
    rd, e = attempt(boot.BlfReader, f)
    if e is not None:
        res.fail("read-failed", f"BlfReader: {ex(e)}")
    got = 0
    it = iter(rd)

    def take(n):
        nonlocal got
        how = cfg["how"]
        end = got + n
        if how == "for":
            for _ in rd:
                got += 1
                if got == end:
                    break
            return
        while got < end:
            o = rd.read_object() if how == "read" else next(it, None) if how == "next" else next(iter(rd), None)
            if o is None:
                return
            got += 1

    take(total // 3)
    first = tracemalloc.get_traced_memory()[1] - base
    slack = 6000 + 8 * (step + unit)
    limit = 200_000 + 30 * (step + unit)
    if first > limit:
        res.fail("memory", f"reading {total // 3} objects from containers of {step} bytes takes more than {limit} bytes of memory")
    tracemalloc.reset_peak()
    take(total // 3)
    second = tracemalloc.get_traced_memory()[1] - base
    tracemalloc.reset_peak()
    take(total)
    third = tracemalloc.get_traced_memory()[1] - base
    grown(res, first, second, third, total - total // 3, slack, "the number of objects read")
    res.note("read", got, cfg["how"], cfg["kind"], "short" if cfg["caps"] else "")
    if got != total:
        res.fail("early-end", f"{got} of {total} objects delivered")
    res.probe("objects", total)


def many(case, res):
    cfg = case["cfg"]
    recs = Records(case, case["recs"])

    def one(i):
        f = MemFile() if cfg["kind"] == "mem" else wrap(cfg["kind"], Sink(cfg["caps"], bool(cfg["fail"]) and i % cfg["fail"] == 0), cfg["iobuf"], True)
        wr, e = attempt(boot.BlfWriter, f, cfg["level"], cfg["bufsize"])
        if e is None:
            for k in range(len(case["recs"])):
                attempt(wr.write, objs.build(recs[i * 3 + k]))
            if cfg["end"] == "with":
                attempt(wr.__exit__, None, None, None)
            elif cfg["end"] == "close":
                attempt(wr.close)
        if cfg["bad"]:
            attempt(boot.BlfReader, io.BytesIO(b"LOGG" if i % 2 else bytes(200)))
            attempt(boot.BlfWriter, io.BytesIO(), 12, 100)
        mem = f.bytes() if cfg["kind"] == "mem" and cfg["end"] != "drop" else b""
        if mem:
            src = io.BytesIO(mem[: len(mem) - 3] if cfg["bad"] and i % 2 else mem)
            rd, e = attempt(boot.BlfReader, src)
            if e is None:
                k = 0
                for _ in rd:
                    k += 1
                    if cfg["bad"] and k == 2:
                        break
                rd.__exit__(None, None, None)

    n = cfg["times"]
    for i in range(n):
        one(i)
    gc.collect()
    first = tracemalloc.get_traced_memory()[0]
    for i in range(n):
        one(i)
    gc.collect()
    second = tracemalloc.get_traced_memory()[0]
    for i in range(n):
        one(i)
    gc.collect()
    third = tracemalloc.get_traced_memory()[0]
    res.note("many", n, cfg["kind"], cfg["end"], "failing" if cfg["fail"] else "", "rejected" if cfg["bad"] else "")
    grown(res, first, second, third, 2 * n, 4000, "the number of logs handled")
    res.probe("logs", 3 * n)
