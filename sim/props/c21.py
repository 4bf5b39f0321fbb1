"""C21: every call ends, and what a call costs does not grow with the log."""

import sys

from .. import boot, faulty, foreign, objs, ref
from ..common import *  # noqa: F403
from .c15 import Lines

QUICK, THOROUGH = 13000, 200000
COMPONENTS = {"real": ["BlfWriter", "BlfReader", "object codecs", "zlib", "io.Buffered*"],
              "stub": ["disk/raw file handle", "clock and sleeping", "zlib failures", "log file to be read (reference encoder)"]}
SIMPLE = {"cfg.level": [0], "cfg.wcaps": [None], "cfg.rcaps": [None], "cfg.bufsize": [64, 128, 1024], "cfg.iobuf": [8192],
          "cfg.target": ["raw", "path"], "cfg.source": ["mem", "path"], "clock": [{}], "log.style": [1], "log.pads": [[]],
          "log.stats": [{}], "log.level": [0]}
KEEP = ("clock",)
SLEEP = 600.0  # seconds one call may spend sleeping
WTARGETS = ("raw", "duck", "path", "path", "bpath", "pathlike", "buf", "rnd", "mem", "nil")


def gen(r, tier):
    if r.random() < 0.3:
        return gen_read(r)
    target = r.choice(WTARGETS)
    cfg = {"target": target, "level": gen_level(r), "bufsize": gen_bufsize(r), "wcaps": gen_caps(r, 0.4), "iobuf": gen_iobuf(r)}
    recs = gen_recs(r, r.choice([1, 2, 3, 5, 8]), big=r.choice([0, 0, 1000]))
    case = {"cfg": cfg, "clock": gen_clock(r, 0.3), "times": 1, "faults": []}
    if r.random() < 0.06:  # a long log
        case["times"] = r.choice([300, 600, 1500, 2500]) // len(recs)
        cfg["bufsize"] = max(cfg["bufsize"], 40)
        cfg["wcaps"] = None
        ops = [{"op": "write", "rec": rec} for rec in recs]
    else:
        if r.random() < 0.03:  # objects over very many containers
            for rec in recs[: r.randint(1, 2)]:
                p = {"k": "raw", "t": 200, "hs": 32, "hv": 1, "p": r.randbytes(16) + bytes(r.randint(10_000, 40_000))}
                rec.clear()
                rec.update(p)
            cfg["bufsize"] = r.randint(20, 100)
            cfg["wcaps"] = None
        ops = faulty.gen_ops(r, recs, target)
    for _ in range(r.choice([0, 0, 1])):
        ops.insert(r.randint(0, len(ops)), {"op": "close", "how": r.choice(["close", "with"])})
    ops += [{"op": "close", "how": r.choice(["close", "close", "with"])} for _ in range(r.choice([1, 2, 3]))]
    case["ops"] = ops
    if target not in ("mem", "nil") and r.random() < 0.75:
        x = r.random()
        if x < 0.6:  # out of order for good
            n = r.choice([0, 1, 2, 3, r.randint(0, 40)]) * (1 if case["times"] == 1 else r.choice([1, 20]))
            case["broken"] = {"on": "w", "n": n, "do": r.choice(["eio", "eio", "enospc", "enospc", "mem", "kbd"])}
            if r.random() < 0.3:
                case["broken"].update(do="torn", k=r.choice([0, 1, 7, 40]))
            faulty.vary(r, case["broken"], target in ("raw", "duck"))
        elif x < 0.75:
            case["broken"] = {"on": r.choice(["s", "zc"]), "n": r.randint(0, 10), "do": "mem"}
            if case["broken"]["on"] == "s":
                case["broken"]["do"] = "eio"
        elif case["times"] == 1:
            case["faults"] = faulty.place_faults(r, case, lambda c, res, w: _write_run(c, res, w),
                                                 faulty.RAW_FAULTS if target in ("raw", "duck") else faulty.BUF_FAULTS)
    return case


def gen_read(r):
    cfg = {"source": r.choice(SOURCES), "rcaps": gen_caps(r, 0.4), "iobuf": gen_iobuf(r)}
    log = foreign.gen_log(r, n=r.choice([1, 2, 3, 5, 8]), big=r.choice([0, 0, 500]))
    case = {"cfg": cfg, "log": log, "clock": gen_clock(r, 0.2), "times": 1, "faults": [],
            "how": r.choice(["for", "read", "next"])}
    if r.random() < 0.12:
        case["times"] = r.choice([300, 600, 1500]) // len(log["items"])
        case["step"] = r.choice([None, 200, 1000, 5000])
        cfg["rcaps"] = None
        log["pads"] = [x[-12:] for x in log["pads"]]
        for it in log["items"]:
            it["gap"] = it.get("gap", b"")[-40:]
        # a long log, but not one which takes seconds (steps counted in tenths)
        unit = sum(len(ref.encode(i["rec"])) + len(i["gap"]) for i in log["items"])
        cost = (30 * len(log["items"]) + 4 * sum(len(i["gap"]) for i in log["items"]) + unit // 2
                + (40 + 4 * max(map(len, log["pads"]), default=0)) * unit // (case["step"] or 100_000))
        case["times"] = max(20, min(case["times"], 1_500_000 // cost))
    elif cfg["source"] in ("path", "bpath", "pathlike", "buf", "rnd") and r.random() < 0.2:
        case["faults"] = [{"on": "r", "n": r.randint(0, 20), "do": "eintr"} for _ in range(r.randint(1, 4))]
    if cfg["source"] != "mem" and r.random() < 0.7:
        case["broken"] = {"on": "r", "n": r.choice([0, 1, 2, r.randint(0, 60)]), "do": r.choice(["eio", "eio", "mem", "kbd"])}
        if r.random() < 0.3:
            case["broken"] = {"on": r.choice(["zd", "s"]), "n": r.randint(0, 5), "do": "eio"}
            if case["broken"]["on"] == "zd":
                case["broken"]["do"] = "mem"
        faulty.vary(r, case["broken"], cfg["source"] in ("raw", "duck"))
    return case


class Meter:
    """Steps and sleep of each call, checked against what the call has to do."""

    def __init__(self, res, w):
        self.res = res
        self.w = w
        self.lines = Lines(0)
        self.total = self.allowed = 0
        self.calls = 0

    def __call__(self, what, limit, share, fn, *args):
        """`limit` for this call alone, `share` what it may add to the whole."""
        n = self.lines
        n.n, n.limit = 0, limit
        self.w.clock.slept = 0.0
        old = sys.gettrace()
        sys.settrace(n.glob)
        try:
            v, e = attempt(fn, *args)
        except SimAbort as e:
            if isinstance(e, SimHang):
                raise
            self.res.fail("no-end", f"{what} does not end ({e})")
        finally:
            sys.settrace(old)
        if n.n > n.limit:
            self.res.fail("no-end", f"{what} does not end (more than {n.limit} source lines)")
        if self.w.clock.slept > SLEEP:
            self.res.fail("waits", f"{what} spends {self.w.clock.slept:.0f} s waiting")
        self.calls += 1
        self.total += n.n
        self.allowed += share
        self.most("most steps of a call, permille of its limit", 1000 * n.n // limit)
        return v, e

    def most(self, name, v):
        self.res.probes[name] = max(self.res.probes[name], v)

    def done(self):
        self.res.probe("steps", self.total)
        self.most("most steps of a run, permille of its limit", 1000 * self.total // (6000 + self.allowed))
        if self.total > 6000 + self.allowed:
            self.res.fail("growing", f"{self.calls} calls take {self.total} source lines, which is more than the "
                          f"{6000 + self.allowed} that what they handle can need: the cost grows with the log")


def transfers(n, caps):
    """Most raw calls that n bytes of a few writes can take."""
    if not caps:
        return 0
    return min(n // max(1, min(caps)), n * len(caps) // max(1, sum(caps)) + len(caps)) + len(caps)


def run(case, res):
    (_write_run if "ops" in case else _read_run)(case, res, res.world(case))
    res.nontrivial = True


def _write_run(case, res, w):
    cfg = case["cfg"]
    caps = cfg["wcaps"]
    target = Target(w, cfg["target"])
    w.broken = case.get("broken")
    m = Meter(res, w)
    b = cfg["bufsize"]
    wr, e = m("opening", 4000 + 60 * transfers(144, caps), 4000, boot.BlfWriter, target.arg, cfg["level"], b)
    res.note("open", "ok" if e is None else type(e).__name__)
    if e is not None:
        m.done()
        return
    held = accepted = 0
    failed = False

    def need(n):
        """(limit, share) of a call which has n more bytes to store."""
        c = (min(held, b) + n if not failed else accepted + n) // b + 2
        out = (min(held, b) + n if not failed else accepted + n) + 60 * c
        k = transfers(out, caps) + c * (len(caps) if caps else 0)
        new = n // b + (failed and accepted // b)
        return 4000 + 400 * c + 60 * k + 20 * n, 400 + 400 * new + 60 * k + 20 * n

    # a repeated write finds the data of earlier containers in place; a share covers the mean, the limit the worst
    n = 0
    for turn in range(case["times"]):
        for op in case["ops"]:
            k = op["op"]
            if turn < case["times"] - 1 and k == "close":
                continue
            if k == "write":
                for _ in range(1 + op.get("retry", 0)):
                    o = objs.build(op["rec"])
                    size = len(ref.encode(op["rec"])) + 8
                    limit, share = need(size)
                    _, e = m(f"write number {n}", limit, share, wr.write, o)
                    n += 1
                    accepted += size
                    held = min(held + size, b)
                    failed |= e is not None
                    res.note("write", "ok" if e is None else type(e).__name__)
                    if e is None:
                        break
            elif k == "refuse":
                if "exc" in op:
                    o, size = faulty.Boom(op["exc"]), 48
                else:
                    o, size = objs.build(op["rec"]), len(ref.encode(op["rec"])) + 16
                    o.header.base.object_size += 4
                limit, share = need(size)
                _, e = m("a refused write", limit, share, wr.write, o)
                accepted += size
                failed |= e is not None
                res.note("refuse", "ok" if e is None else type(e).__name__)
            elif k == "close":
                limit, share = need(0)
                fn, args = (wr.close, ()) if op.get("how") != "with" else (wr.__exit__, (None, None, None))
                _, e = m("close", limit + 6000 + 60 * transfers(144, caps), share + 2000 + 60 * transfers(144, caps), fn, *args)
                failed |= e is not None
                res.note("close", "ok" if e is None else type(e).__name__)
            elif k == "full":
                w.disk_limit = len(target.data()) + op["room"]
            elif k == "free":
                w.disk_limit = None
    m.done()
    if failed and w.broken:
        res.probe("calls on a medium that is broken for good")
    if case["times"] > 1:
        res.probe("long log")


def _read_run(case, res, w):
    cfg = case["cfg"]
    log = case["log"]
    if case["times"] > 1:
        log = dict(log, items=log["items"] * case["times"], cuts=[])
        if case["step"]:
            log["cuts"] = list(range(case["step"], sum(len(ref.encode(i["rec"])) + len(i.get("gap", b"")) for i in log["items"]),
                                     case["step"]))
    data, parts = foreign.compose(log)
    number = len(log["items"])
    src = source(w, cfg["source"], data)
    w.broken = case.get("broken")
    m = Meter(res, w)
    outer = len(log.get("lead", b"")) + sum(len(p) for p in log["pads"]) * (len(parts) // max(1, len(log["pads"])) + 1)
    room = sum(len(i.get("gap", b"")) for i in log["items"]) + outer
    plain = sum(len(ref.encode(i["rec"])) for i in log["items"]) + room
    calls = transfers(len(data), cfg["rcaps"])
    whole = 6000 + 300 * number + 400 * len(parts) + 60 * calls + 40 * room + 4 * plain
    rd, e = m("opening", 4000 + 60 * transfers(144, cfg["rcaps"]), 4000, boot.BlfReader, src)
    res.note("open", "ok" if e is None else type(e).__name__)
    if e is None:
        limit = whole if case["times"] == 1 else 6000 + 60 * plain // case["times"] + 400 * len(parts) + 40 * outer
        it = iter(rd)
        got = fails = 0
        while got <= number + 2 and fails < 4:
            o, e = m(f"reading object {got}", limit, 0, rd.read_object if case["how"] == "read" else lambda: next(it, None))
            if e is None and o is None:
                break
            if e is not None:
                res.note("read", type(e).__name__)
                fails += 1
            else:
                got += 1
        res.note("read", got)
        _, e = m("leaving the with-block", 4000, 4000, rd.__exit__, None, None, None)
        if fails and w.broken:
            res.probe("calls on a medium that is broken for good")
    if case["times"] > 1:
        res.probe("long log")
    m.allowed += whole
    m.done()
