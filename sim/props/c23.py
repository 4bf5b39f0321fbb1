"""C23: objects belong to the caller, the log belongs to the library: neither changes through the other."""

from .. import boot, faulty, foreign, objs, ref
from ..common import *  # noqa: F403

QUICK, THOROUGH = 24000, 380000
COMPONENTS = {"real": ["BlfWriter", "BlfReader", "object codecs and factories", "zlib", "io.Buffered*"],
              "stub": ["raw file handle (failing, transferring partially)", "clock", "the caller: overwrites objects at seeded moments"]}
SIMPLE = {"cfg.level": [0], "cfg.wcaps": [None], "cfg.rcaps": [None], "cfg.iobuf": [8192], "cfg.bufsize": [1024, 64],
          "cfg.target": ["raw", "path"], "cfg.source": ["mem"], "cfg.logs": [1], "cfg.readers": [1], "clock": [{}],
          "log.level": [0], "log.style": [1], "log.pads": [[]], "log.stats": [{}], "log.cuts": [[]]}
KEEP = ("clock",)


def gen(r, tier):
    target = r.choice(TARGETS)
    cfg = {"target": target, "source": r.choice(SOURCES), "level": gen_level(r),
           "bufsize": r.choice([r.randint(1, 64), r.randint(16, 200), r.randint(100, 2000), gen_bufsize(r)]),
           "wcaps": gen_caps(r, 0.3), "rcaps": gen_caps(r, 0.3), "iobuf": gen_iobuf(r), "logs": r.choice([1, 1, 2]),
           "readers": r.choice([1, 2, 2, 3])}
    recs = gen_recs(r, r.choice([1, 2, 3, 5, 8, 15, 25]), big=r.choice([0, 0, 0, 1000]))
    for k in range(len(recs) - 1):  # objects made from the same arguments
        if r.random() < 0.15:
            recs[k + 1] = dict(recs[k])
    rate = r.choice([0.3, 0.7, 1])
    ops = []
    for rec in recs:
        op = {"op": "write", "rec": rec, "to": r.choice([[0], [0], [1], [0, 1], [1, 0]]), "soft": r.choice([0, 0, 1])}
        if r.random() < rate:  # what the caller does with it: overwrite, write another one with it, take its header
            op["then"] = r.choice(["scribble", "scribble", "scribble", "between", "reuse", "header", "drop"])
            op["v"] = r.randrange(12)
        if r.random() < 0.15:  # one whose fields do not go together
            op["odd"] = r.randrange(12)
        ops.append(op)
    if r.random() < 0.1:
        ops.insert(r.randint(0, len(ops)), {"op": "close"})
    # readers step in turn: [which, what to do with the object: 0 keep, 1.. overwrite it now, or later; -1 the statistics]
    sched = [[r.randrange(3), r.choice([0, 1, 1, 2, 3, 4, 5, -1] if r.random() < rate else [0])] for _ in range(r.randint(1, 12))]
    case = {"cfg": cfg, "clock": gen_clock(r, 0.1), "ops": ops, "sched": sched, "after": r.choice(["overwrite", "truncate", "close", "none"])}
    if r.random() < 0.4 and target not in ("mem", "nil"):
        case["faults"] = faulty.place_faults(r, case, lambda c, res, w: _write(c, res, w),
                                             faulty.RAW_FAULTS if target in ("raw", "duck") else faulty.BUF_FAULTS)
    if r.random() < 0.4:  # a log of another make, some of whose objects lie outside of containers
        case["log"] = foreign.gen_log(r, n=r.choice([1, 2, 5, 10]), big=r.choice([0, 0, 1000]))
        for it in case["log"]["items"]:
            if r.random() < 0.3:
                it["top"] = 1
        cfg["source"] = r.choice(["mem", cfg["source"]])
    return case


class Log:
    def __init__(self, case, res, w, k):
        cfg = case["cfg"]
        self.target = Target(w, cfg["target"], f"/sim/log{k}.blf")
        self.writer, self.error = attempt(boot.BlfWriter, self.target.arg, cfg["level"], cfg["bufsize"])
        self.attempts = []
        self.clean = False


def _write(case, res, w):
    logs = [Log(case, res, w, k) for k in range(case["cfg"]["logs"])]
    for log in logs:
        if log.error is not None and not is_injected(log.error):
            res.fail("open-failed", f"BlfWriter: {ex(log.error)}")
    last = {}
    for op in case["ops"]:
        if op["op"] == "close":
            attempt(logs[0].writer.close) if logs[0].writer is not None else None
            continue
        rec, then, v = op["rec"], op.get("then"), op.get("v", 0)
        if "odd" in op:
            odd(res, rec, op["odd"])
        o = objs.build(rec)
        if op["soft"]:
            objs.soften(o)
        if then == "reuse" and type(o) in last:  # an instance that has been written before
            objs.assign(last[type(o)], o)
            o = last[type(o)]
        elif then == "header" and type(o) in last:  # its header
            objs.assign(last[type(o)].header, o.header)
            o.header = last[type(o)].header
        last[type(o)] = o
        shot = objs.snapshot(o)
        for n, k in enumerate(op["to"]):
            log = logs[k % len(logs)]
            if log.writer is None or (n and len(logs) == 1):
                continue
            if n and then == "between":  # other values for the second log
                again = objs.build(rec)
                objs.scribble(o, v)
                objs.assign(o, again)
                shot = objs.snapshot(o)
            _, e = attempt(log.writer.write, o)
            res.note("write", rec["k"], "ok" if e is None else type(e).__name__, then or "")
            closed = isinstance(e, ValueError) and not is_injected(e)
            if e is not None and not is_injected(e) and not log.target_closed():
                res.fail("write-failed", f"write of {rlabel(rec)} raised without a fault: {ex(e)}")
            if not closed:
                log.attempts.append([rec, e is None])
            if objs.snapshot(o) != shot:
                res.fail("object-changed", f"writing an object ({rlabel(rec)}) changes it")
        if then in ("scribble", "between"):
            objs.scribble(o, v)
            res.probe("object overwritten after it was written")
        elif then == "drop":
            o = last = {}
    return logs


def odd(res, rec, v):
    """Whatever becomes of an object whose fields do not go together: it stays what it is."""
    o = objs.build(rec)
    objs.scribble(o, v)
    objs.assign(o.header, objs.build(rec).header)
    shot = objs.snapshot(o)
    wr = boot.BlfWriter(io.BytesIO(), 0, 64)
    _, e = attempt(wr.write, o)
    res.note("odd", rec["k"], "ok" if e is None else "refused")
    if objs.snapshot(o) != shot:
        res.fail("object-changed", f"writing an object ({rlabel(rec)} with other field values) changes it")


def _closed(log):
    t = log.target
    if t.mem is not None:
        return t.mem.closed
    return not any(x for x in t.w.open_handles() if x.file.name == t.name)


Log.target_closed = _closed


def run(case, res):
    cfg = case["cfg"]
    w = res.world(case)
    logs = _write(case, res, w)
    w.clear_faults()
    images = []
    for log in logs:
        if log.writer is None:
            continue
        for _ in range(4):
            _, e = attempt(log.writer.close)
            res.note("close", "ok" if e is None else type(e).__name__)
            if e is None:
                break
        images.append((log, log.target.data(), e is None))
    res.nontrivial = any(log.attempts for log, _, _ in images)
    for k, (log, data, clean) in enumerate(images):
        reading(case, res, w, log.attempts, data, clean, f"log {k}", k)
    if "log" in case:
        recs = foreign.records(case["log"])
        reading(case, res, w, [(x, True) for x in recs], foreign.compose(case["log"])[0], True, "foreign log", 8)


def reading(case, res, w, attempts, data, clean, what, n):
    cfg = case["cfg"]
    # what the log holds, without anybody interfering
    ideal, e, _ = read_bytes(res, data)
    if e is not None:
        if clean:
            res.fail("unreadable", f"{what}: reading raises after {len(ideal)} objects: {ex(e)}")
        return
    check_attempts(res, ideal, attempts, "stored", what, prefix=not clean)
    want = [objs.snapshot(o) for o in ideal]
    srcs, readers = [], []
    for k in range(cfg["readers"]):
        src = source(w, cfg["source"], data, f"/sim/in{n}.{k}.blf")
        rd, e = attempt(boot.BlfReader, src)
        if e is not None:
            res.fail("read-failed", f"{what}: BlfReader: {ex(e)}")
        srcs.append(src)
        readers.append([rd, 0, [], []])  # reader, delivered, kept [number, object], to be overwritten later
    stats = stats_str(vars(readers[0][0].file_statistics))
    turn = 0
    alive = list(readers)
    sched = case["sched"] or [[0, 0]]
    while alive:
        who, act = sched[turn % len(sched)]
        turn += 1
        me = alive[(who + turn // len(sched)) % len(alive)]
        rd, i, kept, later = me
        if act < 0:
            scribble_stats(rd)
        o, e = attempt(rd.read_object)
        if e is not None:
            res.fail("read-failed", f"{what}: reading raises after {i} of {len(want)} objects: {ex(e)}")
        if o is None:
            if i < len(want):
                res.fail("lost", f"{what}: {i} of {len(want)} objects delivered to a caller who overwrites some of them")
            alive.remove(me)
            continue
        if i >= len(want):
            res.fail("extra", f"{what}: object {i} delivered from a log of {len(want)}")
        if objs.snapshot(o) != want[i]:
            res.fail("delivered-changed", f"{what}: object {i} ({objs.label(ideal[i])}) is delivered with other values "
                     f"to a caller who overwrites objects delivered before")
        me[1] += 1
        if act in (0, -1):
            kept.append((i, o))
        elif act < 4:
            objs.scribble(o, act)
            res.probe("object overwritten after it was read")
        else:
            later.append((i, o))
        if later and turn % 3 == 0:
            objs.scribble(later.pop(0)[1], turn)
            res.probe("object overwritten after it was read")
    # the caller goes on with the file
    for k, src in enumerate(srcs):
        if case["after"] == "close" or n % 2:
            readers[k][0].__exit__(None, None, None)
        if cfg["source"] == "mem" and not src.closed:
            src.seek(0)
            _, e = attempt(src.write, b"\x55" * len(data)) if case["after"] == "overwrite" else attempt(src.truncate, 0) if case["after"] == "truncate" else (None, None)
            if e is not None:
                res.fail("source-held", f"{what}: the file that has been read cannot be changed any more: {ex(e)}")
        elif cfg["source"] != "mem" and case["after"] in ("overwrite", "truncate"):
            d = w.fs.files[f"/sim/in{n}.{k}.blf"].data
            d[:] = b"\x55" * len(d) if case["after"] == "overwrite" else b""
    for k, (_, _, kept, _) in enumerate(readers):
        for i, o in kept:
            if objs.snapshot(o) != want[i]:
                res.fail("kept-changed", f"{what}: object {i} ({objs.label(ideal[i])}) has changed after it was delivered")
    # and a new reader gets all of it
    got, e, rd = read_bytes(res, data)
    if e is not None or [objs.snapshot(o) for o in got] != want:
        res.fail("reread", f"{what}: read again, the log has other objects: {ex(e) if e else len(got)}")
    if stats_str(vars(rd.file_statistics)) != stats:
        res.fail("reread", f"{what}: read again, the log has other statistics")
    for x, o in zip(want, ideal):
        if objs.snapshot(o) != x:
            res.fail("kept-changed", f"{what}: an object ({objs.label(o)}) has changed after it was delivered")
    res.note("read", len(want), case["after"])


def scribble_stats(rd):
    """The caller changes the statistics it has been given (but not how the log is compressed)."""
    s = rd.file_statistics
    level = s.compression_level
    objs.scribble(s, 0)
    s.compression_level = level


is_injected = faulty.is_injected
