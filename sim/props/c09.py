"""C09: reading does not depend on how the log is laid out."""

from .. import boot, foreign, objs, ref
from ..common import *  # noqa: F403

QUICK, THOROUGH = 76000, 1200000
COMPONENTS = {"real": ["BlfReader", "object codecs", "zlib", "io.Buffered*"],
              "stub": ["disk/raw file handle delivering partially", "log file (reference encoder)"]}
SIMPLE = {"cfg.rcaps": [None], "cfg.iobuf": [8192], "cfg.source": ["mem", "path"], "log.level": [0],
          "log.style": [1], "log.pads": [[]], "log.cuts": [[]], "log.stats": [{}]}
KEEP = ("clock",)


def gen(r, tier):
    cfg = {"source": r.choice(SOURCES), "rcaps": gen_caps(r, 0.3), "iobuf": gen_iobuf(r)}
    big = r.choice([0, 0, 0, 500, 5000])
    if r.random() < 0.004:
        n = r.randint(600, 2000)
        log = foreign.gen_log(r, n=n, kinds=[r.choice(["can", "can_err", "raw"])])
        if r.random() < 0.5:  # many containers
            log["cuts"] = sorted(r.randint(0, n * 40) for _ in range(1500))
        return {"cfg": dict(cfg, rcaps=None), "log": log}
    log = foreign.gen_log(r, big=big, n=r.choice([1, 2, 3, 5, 8, 15, 30, 60]) if big < 1000 else r.randint(1, 6))
    if big >= 1000 and cfg["rcaps"]:
        cfg["rcaps"] = [x * 50 for x in cfg["rcaps"]]
        cfg["iobuf"] = max(cfg["iobuf"], 256)
    case = {"cfg": cfg, "log": log}
    if r.random() < 0.15:  # an object between two containers, which may share another one
        for it in log["items"]:
            it.pop("top", None)
        case["between"] = {"rec": gen_recs(r, 1, ts0=10**8)[0], "after": r.randint(0, 30)}
    return case


def run(case, res):
    cfg = case["cfg"]
    log = case["log"]
    data, parts = foreign.compose(log)
    recs = foreign.records(log)
    other = None
    if "between" in case and parts:
        rec = case["between"]["rec"]
        i = case["between"]["after"] % len(parts)
        a, b, n = parts[i]
        data = data[:b] + ref.encode(rec) + data[b:]
        # in front of or behind the object it interrupts
        other = recs[: n + 1] + [rec] + recs[n + 1 :]
        recs = recs[:n] + [rec] + recs[n:]
        res.probe("object between two containers")
    w = res.world(case)
    rd, e = attempt(boot.BlfReader, source(w, cfg["source"], data))
    if e is not None:
        res.fail("rejected", f"BlfReader: {ex(e)}")
    s = dict(foreign.STATS0, compression_level=log["level"], **log["stats"])
    fs = rd.file_statistics
    for k in ref.STATS_FIELDS:
        if k == "application_id" and getattr(fs, k) != s[k]:
            continue  # unknown application numbers may be mapped
        if getattr(fs, k) != s[k]:
            res.fail("statistics:" + k, f"file_statistics.{k} is {getattr(fs, k)!r}, stored is {s[k]}")
    for k, name in (("start", "measurement_start_time"), ("last", "last_object_time")):
        t = getattr(fs, name)
        got = [t.year, t.month, t.day_of_week, t.day, t.hour, t.minute, t.second, t.milliseconds]
        if got != s[k]:
            res.fail("statistics:" + k, f"file_statistics.{name} is {got}, stored is {s[k]}")
    out, e = read_list(res, rd)
    if other is not None and len(out) == len(other) and not any(objs.mismatch(o, x) for o, x in zip(out, other)):
        recs = other
    check_prefix(res, out, recs, "layout", "foreign log")
    if e is not None:
        res.fail("read-failed", f"reading raises after {len(out)} of {len(recs)} objects: {ex(e)}")
    check_equal(res, out, recs, "layout", "foreign log")
    res.note("read", len(out), len(parts))
    for n, c in (("top-level object", any(i.get("top") for i in log["items"])), ("empty container", len(set(log["cuts"])) < len(log["cuts"])),
                 ("signature inside an object", any(ref.encode(x).count(b"LOBJ") > 1 for x in recs)),
                 ("undecoded type", any(x["k"] == "raw" for x in recs)), ("foreign padding", any(log["pads"])),
                 ("vendor container header", log["style"] == 0)):
        if c:
            res.probe(n)
    if len(parts) > len(recs) * 2 > 0:
        res.probe("object over three or more containers")
    res.nontrivial = len(parts) > 1
