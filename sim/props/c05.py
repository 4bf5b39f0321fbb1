"""C05: the file header tells the truth after close."""

import datetime
import os
import time

from .. import boot, faulty, objs, ref
from ..common import *  # noqa: F403
from ..faulty import BOOM_KINDS, Boom

QUICK, THOROUGH = 120000, 1800000
COMPONENTS = {"real": ["BlfWriter", "FileStatistics/SystemTime", "object codecs", "zlib", "io.Buffered*"],
              "stub": ["disk/raw file handle", "clock", "time zone setting"]}
SIMPLE = {"cfg.level": [0], "cfg.wcaps": [None], "cfg.bufsize": [64, 128, 1024], "cfg.iobuf": [8192],
          "cfg.target": ["raw", "path"], "tz": ["UTC0"]}
KEEP = ()

ZONES = ["UTC0", "UTC0", "XXX-14", "XXX+12", "XXX-5:30", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0",
         "LHST-10:30LHDT-11,M10.1.0,M4.1.0"]
# instants around daylight saving changes, year ends, leap days
T0 = [1711846800.0, 1729990800.0, 1710054000.0, 1730613600.0, 1704067199.5, 1709164799.9, 951868799.0, 0.0,
      2147483647.5, 4294967296.0, 1.7e9, 1.6e9 + 0.0005]


def gen(r, tier):
    if r.index == 5:
        return huge_case(r)
    target = r.choice(["path", "path", "raw", "buf", "rnd", "mem", "duck", "bpath"])
    cfg = {"target": target, "level": gen_level(r), "bufsize": gen_bufsize(r), "wcaps": gen_caps(r, 0.3),
           "iobuf": gen_iobuf(r)}
    recs = gen_recs(r, gen_n(r, [0, 1, 1, 2, 4, 8, 15]), big=r.choice([0, 0, 1000]))
    if r.random() < 0.02:
        recs = gen_large(r, cfg)
    clock = gen_clock(r, 0.5, 3 * len(recs) + 4)
    clock["t0"] = r.choice(T0) + r.random() * r.choice([0, 1, 100, 1e7])
    if r.random() < 0.4:
        clock["tick"] = r.choice([0.0004, 0.9996, 59.9, 7200.5, 86400.25, 2.6e6])
    name_level(r, cfg)
    case = {"cfg": cfg, "clock": clock, "tz": r.choice(ZONES)}
    if target in PATHS and r.random() < 0.2:  # a file of that name exists
        cfg["old"] = gen_old(r)
    if r.random() < 0.35:  # failed and retried flushes
        ops = faulty.gen_ops(r, recs, target)
        if r.random() < 0.5:
            ops.insert(r.randint(0, len(ops)), {"op": "close"})
        ops += [{"op": "free"}]
        case["ops"] = ops
        kinds = faulty.RAW_FAULTS if target in ("raw", "duck") else faulty.BUF_FAULTS
        if target != "mem":
            case["faults"] = faulty.place_faults(r, case, _profile, kinds, 2)
    else:
        ops = [{"op": "write", "rec": x} for x in recs]
        for _ in range(r.choice([0, 0, 1, 3])):  # refused objects
            ops.insert(r.randint(0, len(ops)), {"op": "refuse", "how": r.choice(["size", "range", "boom"])})
        for op in ops:
            if op.get("how") == "boom":
                op["exc"] = r.choice(BOOM_KINDS)
        case["ops"] = ops
        if r.random() < 0.0004:  # more than 16 bits can count
            with hints.Without():
                rec = objs.gen_record(r, 5, ["raw"])
            ops.append({"op": "many", "rec": rec, "n": r.randint(65530, 70000)})
            cfg.update(wcaps=None, iobuf=8192)
            cfg["bufsize"] = max(cfg["bufsize"], 500)
            clock.pop("tick", None)
    return case


def refused(how, exc=None):
    if how == "boom":
        return Boom(exc)
    o = objs.build(objs.simple_record(1))
    if how == "size":
        o.header.base.object_size += 1
    else:
        o.channel = 70000
    return o


def _profile(case, res, w):
    h = faulty.History()
    if faulty.start(case, res, w, h):
        faulty.drive(case, res, w, h)


def run_huge(case, res):
    f, content = huge_write(res, case)
    n = case["huge"]["n"]
    s = ref.parse_stats(f.read(144))
    want = {"file_size": f.size, "uncompressed_file_size": 144 + n * len(content(0)), "object_count": n,
            "compression_level": case["cfg"]["level"], "statistics_size": 144}
    for k, v in want.items():
        if s[k] != v:
            res.fail("header:" + k, f"header says {k}={s[k]}, expected {v}")


def run(case, res):
    if "huge" in case:
        return run_huge(case, res)
    old = os.environ.get("TZ")
    os.environ["TZ"] = case["tz"]
    time.tzset()
    try:
        _run(case, res)
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()


def _run(case, res):
    cfg = case["cfg"]
    w = res.world(case)
    h = faulty.History()
    w.clock.watch()
    if not faulty.start(case, res, w, h):
        return
    start = (w.clock.lo, w.clock.hi)
    last = None
    n = 0
    for op in case["ops"]:
        k = op["op"]
        if k == "refuse":
            _, e = attempt(h.writer.write, refused(op.get("how", "size"), op.get("exc")))
            if e is None:
                res.probe("refused object accepted")
                return
            res.note("refused", type(e).__name__)
            res.probe("refused object")
            continue
        w.clock.watch()
        if k == "many":
            o = objs.build(op["rec"])
            for _ in range(op["n"]):
                _, e = attempt(h.writer.write, o)
                if e is not None:
                    return  # C01
            h.attempts += [[op["rec"], True]] * op["n"]
            n += op["n"]
            last = (w.clock.lo, w.clock.hi)
            res.probe("more than 65535 objects")
            continue
        before = len(h.attempts)
        faulty.drive({"ops": [op]}, res, w, h)
        if any(req for _, req in h.attempts[before:]):
            last = (w.clock.lo, w.clock.hi)
            n += 1
        elif len(h.attempts) > before and last is not None:
            # a failed write may or may not count
            last = (min(last[0], w.clock.lo), max(last[1], w.clock.hi))
        elif len(h.attempts) > before:
            last = (min(start[0], w.clock.lo), max(start[1], w.clock.hi))
        if h.closed:
            break
    if not h.closed:
        w.clear_faults()
        faulty.do_close(res, w, h)
    if not h.clean:
        return
    data = h.target.data()
    res.nontrivial = n > 0
    failed = h.failed_writes + h.failed_closes
    s = ref.parse_stats(data)
    if failed:
        res.probe("truthful after failures")
        got, e, _ = read_bytes(res, data)
        if e is not None:
            return  # C02
        count, total = len(got), sum(o.header.base.object_size for o in got)
    else:
        count, total = n, sum(len(ref.encode(rec)) for rec, _ in h.attempts)
    want = {"file_size": len(data), "uncompressed_file_size": 144 + total, "object_count": count,
            "compression_level": cfg["level"], "statistics_size": 144}
    for k, v in want.items():
        if s[k] != v:
            res.fail("header:" + k, f"header says {k}={s[k]}, expected {v}")
    when(res, "measurement start", s["start"], start)
    if last is not None:
        when(res, "last object", s["last"], last)
    rd, e = attempt(boot.BlfReader, io.BytesIO(data))
    if e is not None:
        res.fail("unreadable", f"BlfReader: {ex(e)}")
    fs = rd.file_statistics
    for k, v in want.items():
        if getattr(fs, k, None) != v:
            res.fail("reader:" + k, f"the reader says {k}={getattr(fs, k, None)}, expected {v}")
    res.note("header", str(s["start"]), str(s["last"]))


def when(res, what, st, win):
    y, mo, dow, d, hh, mi, ss, ms = st
    try:
        t = datetime.datetime(y, mo, d, hh, mi, ss, ms * 1000, tzinfo=datetime.timezone.utc)
    except ValueError as e:
        res.fail("time:" + what, f"{what} is no time: {st} ({e})")
    v = (t - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)).total_seconds()
    if not win[0] - 0.0011 <= v <= win[1] + 0.0011:
        res.fail("time:" + what, f"{what} is {v:.3f}, but the clock was between {win[0]:.6f} and {win[1]:.6f}")
    if dow != t.isoweekday() % 7:
        res.fail("weekday:" + what, f"{what}: day of week {dow} for {t.date()}")
