"""C11: copying a log preserves it (reader and writer stepped against each other)."""

from .. import boot, foreign, objs, ref
from ..common import *  # noqa: F403

QUICK, THOROUGH = 51000, 780000
COMPONENTS = {"real": ["BlfReader", "BlfWriter", "object codecs", "zlib", "io.Buffered*"],
              "stub": ["disk/raw file handles", "clock", "source log (reference encoder)"]}
SIMPLE = {"cfg.rcaps": [None], "cfg.wcaps": [None], "cfg.iobuf": [8192], "cfg.source": ["mem", "path"],
          "cfg.target": ["raw", "path"], "cfg.level": [0], "cfg.bufsize": [64, 1024], "cfg.hops": [1],
          "log.level": [0], "log.style": [1], "log.pads": [[]], "log.cuts": [[]], "log.stats": [{}], "clock": [{}]}
KEEP = ("clock",)


def gen(r, tier):
    cfg = {"source": r.choice(SOURCES), "target": r.choice(TARGETS), "level": gen_level(r), "bufsize": gen_bufsize(r),
           "rcaps": gen_caps(r, 0.3), "wcaps": gen_caps(r, 0.3), "iobuf": gen_iobuf(r), "hops": r.choice([1, 1, 1, 2, 3])}
    big = r.choice([0, 0, 0, 800])
    log = foreign.gen_log(r, big=big, n=r.choice([0, 1, 2, 4, 8, 15, 30]))
    # how many objects the caller reads before writing them on, cyclic
    return {"cfg": cfg, "clock": gen_clock(r, 0.2), "log": log, "lag": [r.choice([1, 1, 1, 2, 5]) for _ in range(r.choice([1, 3]))]}


def run(case, res):
    cfg = case["cfg"]
    data, parts = foreign.compose(case["log"])
    recs = foreign.records(case["log"])
    want = [ref.encode(x) for x in recs]
    w = res.world(case)
    for hop in range(cfg["hops"]):
        rd, e = attempt(boot.BlfReader, source(w, cfg["source"], data, f"/sim/in{hop}.blf"))
        if e is not None:
            res.fail("open-failed", f"BlfReader: {ex(e)}")
        t = Target(w, cfg["target"], f"/sim/out{hop}.blf")
        wr, e = attempt(boot.BlfWriter, t.arg, cfg["level"], cfg["bufsize"])
        if e is not None:
            res.fail("open-failed", f"BlfWriter: {ex(e)}")
        n = k = 0
        end = False
        while not end:
            batch = []
            for _ in range(case["lag"][k % len(case["lag"])] if case["lag"] else 1):
                o, e = attempt(rd.read_object)
                if e is not None:
                    res.fail("read-failed", f"reading raises after {n} of {len(recs)} objects: {ex(e)}")
                if o is None:
                    end = True
                    break
                n += 1
                if n > len(recs):
                    res.fail("read-extra", f"{n} objects are read from a log of {len(recs)}")
                batch.append(o)
            k += 1
            for o in batch:
                _, e = attempt(wr.write, o)
                if e is not None:
                    res.fail("write-refused", f"an object read from a log ({objs.label(o)}) is not accepted: {ex(e)}")
                res.note("copy", type(o).__name__)
        _, e = attempt(wr.close)
        if e is not None:
            res.fail("close-failed", f"close: {ex(e)}")
        data = t.data()
        try:
            walk = ref.Walk(data)
        except Exception as err:  # noqa: BLE001
            res.fail("unreadable", f"copy: {err}")
        if walk.bad or walk.tail or walk.rest:
            res.fail("unreadable", f"copy: {walk.bad or 'incomplete'}")
        for i, (a, b) in enumerate(zip(walk.objects, want)):
            if a != b:
                j = next(j for j in range(max(len(a), len(b))) if a[j : j + 1] != b[j : j + 1])
                res.fail("bytes-changed", f"copy: object {i} ({rlabel(recs[i])}) changed, first at byte {j}")
        if len(walk.objects) != len(want):
            res.fail("count", f"copy: {len(walk.objects)} objects instead of {len(want)}")
    got, e, _ = read_bytes(res, data)
    if e is not None:
        res.fail("unreadable", f"copy: reading raises after {len(got)} objects: {ex(e)}")
    check_equal(res, got, recs, "copy", "copy")
    res.nontrivial = len(recs) > 0
    if any(x["k"] == "raw" for x in recs):
        res.probe("undecoded type copied")
    if len(parts) > 1:
        res.probe("several source containers")
