"""C01: what was written is what is read back (any schedule of partial, interrupted transfers)."""

import bisect
import itertools

from .. import boot, objs, ref
from ..common import *  # noqa: F403

QUICK, THOROUGH = 32000, 490000
COMPONENTS = {"real": ["BlfWriter", "BlfReader", "object codecs", "zlib", "io.Buffered*"],
              "stub": ["disk/raw file handle", "clock"]}
SIMPLE = {"cfg.level": [0], "cfg.bufsize": [131072, 1024, 64], "cfg.wcaps": [None], "cfg.rcaps": [None],
          "cfg.iobuf": [8192], "cfg.target": ["path", "raw"], "cfg.source": ["mem", "path"], "clock": [{}]}
KEEP = ("clock",)


def gen(r, tier):
    if r.index == 5:
        return huge_case(r)
    n = hints.near(r, 0, 2000, 0.15) or r.choice([0, 1, 2, 3, 5, 8, 12, 20, 40])
    big = 0
    x = r.random()
    if x < 0.15:
        big = 3000
    elif x < 0.18:
        big = 60000
    elif x < 0.19:
        big = 400000
        n = min(n, 4)
    cfg = {"target": r.choice(TARGETS), "source": r.choice(SOURCES), "level": gen_level(r), "bufsize": gen_bufsize(r),
           "wcaps": gen_caps(r), "rcaps": gen_caps(r), "iobuf": gen_iobuf(r), "with": r.random() < 0.5}
    if big > 2000:  # bound the number of containers and transfers
        cfg["bufsize"] = max(cfg["bufsize"], big // 50)
        for k in ("wcaps", "rcaps"):
            cfg[k] = cfg[k] and [x * big // 40 for x in cfg[k]]
        cfg["iobuf"] = max(cfg["iobuf"], 512)
    if x > 0.997:  # a long history
        recs = gen_recs(r, r.randint(600, 2500), [r.choice(["can", "can_err", "raw"])])
        cfg["wcaps"] = cfg["rcaps"] = None
        cfg["bufsize"] = r.choice([40, 100, 1000, 128 * 1024])
    elif x > 0.99:  # many small transfers for one object
        recs = gen_recs(r, 2, ["app_text", "raw", "eth_ex"], big=4000)
        cfg["rcaps"] = [r.choice([1, 2])]
        cfg["wcaps"] = [r.choice([1, 2])]
    else:
        recs = gen_recs(r, n, big=big)
    ops = [{"op": "write", "rec": x} for x in recs]
    if 0.9845 < x <= 0.985:  # more objects than 16 bits can count
        with hints.Without():
            rec = objs.gen_record(r, 5, ["raw"])
        ops = [{"op": "write", "rec": rec, "times": r.randint(65530, 70000)}]
        cfg.update(wcaps=None, rcaps=None, iobuf=8192, bufsize=r.choice([100, 1000, 128 * 1024]))
    elif r.random() < 0.2:
        cfg["reuse"] = 1  # one instance per kind of object, changed and written again
    faults = []
    for on, kind in (("w", cfg["target"]), ("r", cfg["source"])):
        if kind in ("path", "bpath", "pathlike", "buf", "rnd") and r.random() < 0.3:
            for _ in range(r.randint(1, 4)):
                faults.append({"on": on, "n": r.randint(0, 30), "do": "eintr"})
    if cfg["target"] in PATHS and r.random() < 0.25:  # a file of that name exists
        cfg["old"] = gen_old(r)
    if r.random() < 0.12:
        for k in ("target", "source"):
            if cfg[k] in PATHS:
                gen_name(r, cfg, k + "name")
    name_level(r, cfg)
    return {"cfg": cfg, "clock": gen_clock(r), "ops": ops, "faults": faults}


def run_huge(case, res):
    f, content = huge_write(res, case)
    n = case["huge"]["n"]
    rd, e = attempt(boot.BlfReader, f)
    if e is not None:
        res.fail("read-failed", f"BlfReader: {ex(e)}")
    for i in range(n):
        o, e = attempt(rd.read_object)
        if e is not None:
            res.fail("read-failed", f"reading raised after {i} of {n} objects: {ex(e)}")
        if o is None:
            res.fail("readback:missing", f"{i} of {n} objects read")
        if bytes(o.buffer) != content(i):
            res.fail("readback:differs", f"object {i} differs: {objs.label(o)}")
    o, e = attempt(rd.read_object)
    if e is not None or o is not None:
        res.fail("readback:extra", f"behind the last object: {ex(e) if e else objs.label(o)}")


def run(case, res):
    if "huge" in case:
        return run_huge(case, res)
    cfg = case["cfg"]
    w = res.world(case)
    t = Target(w, cfg["target"], cfg.get("targetname", PATH), cfg.get("old"))
    recs = [o["rec"] for o in case["ops"] for _ in range(o.get("times", 1))]
    made = {}
    # -- write
    settings = (level(cfg), cfg["bufsize"])
    if settings == (0, 128 * 1024):  # the defaults
        settings = ()
    wr, e = attempt(boot.BlfWriter, t.arg, *settings)
    if e is not None:
        res.fail("open-failed", f"BlfWriter: {ex(e)}")
    if cfg["with"]:
        wr.__enter__()
    for i, rec in enumerate(recs):
        if len(recs) > 65000:
            o = made.setdefault("", objs.build(rec))
        else:
            o = objs.build(rec)
        if cfg.get("reuse"):
            if type(o) in made:
                objs.assign(made[type(o)], o)
                res.probe("instance changed and written again")
            o = made.setdefault(type(o), o)
        _, e = attempt(wr.write, o)
        if i < 3000:
            res.note("write", rec["k"])
        if e is not None:
            res.fail("write-refused", f"write of object {i} ({rlabel(rec)}): {ex(e)}")
    _, e = attempt(lambda: wr.__exit__(None, None, None) if cfg["with"] else wr.close())
    if e is not None:
        res.fail("close-failed", f"close: {ex(e)}")
    data = t.data()
    res.note("closed", len(data))
    res.nontrivial = len(recs) > 0
    # -- an independent decoder
    try:
        walk = ref.Walk(data)
    except Exception as err:  # noqa: BLE001
        res.fail("header", f"no readable file header: {err}")
    if walk.bad or walk.rest or walk.tail:
        res.fail("layout", f"the log is not a sequence of complete containers: {walk.bad or 'incomplete end'}")
    want = [ref.encode(x) for x in recs]
    for i, (a, b) in enumerate(zip(walk.objects, want)):
        if a != b:
            k = next(j for j in range(max(len(a), len(b))) if a[j : j + 1] != b[j : j + 1])
            res.fail("stored-bytes", f"object {i} ({rlabel(recs[i])}) is stored with other bytes, first at {k}")
    if len(walk.objects) != len(want):
        res.fail("stored-count", f"{len(walk.objects)} objects stored instead of {len(want)}")
    check_alignment(res, walk, want, cfg["bufsize"])
    if len(walk.spans) > 1:
        res.probe("several containers")
    if any(len(x) > cfg["bufsize"] for x in want):
        res.probe("object larger than the buffer")
    bounds = list(itertools.accumulate(map(len, walk.payloads)))
    if any(bisect.bisect_right(bounds, x) != bisect.bisect_left(bounds, y) for x, y in zip([0] + walk.ends, walk.ends)):
        res.probe("object spans containers")
    # -- read back
    rd, e = attempt(boot.BlfReader, source(w, cfg["source"], data, cfg.get("sourcename", "/sim/in.blf")))
    if e is not None:
        res.fail("read-failed", f"BlfReader: {ex(e)}")
    got, e = read_list(res, rd)
    if e is not None:
        res.fail("read-failed", f"reading raised after {len(got)} of {len(recs)} objects: {ex(e)}")
    check_equal(res, got, recs, "readback", "read back")
    res.note("read", len(got))


def check_alignment(res, walk, want, bufsize):
    """Containers and objects are aligned to 8 bytes, with zeros in between."""
    for a, _b in walk.spans:
        if a % 8:
            res.fail("alignment", f"a container starts at {a}")
    stream = b"".join(walk.payloads)
    pos = 0
    for i, x in enumerate(want):
        a = stream.find(x[:4], pos)
        gap = stream[pos:a]
        if gap.strip(b"\0") or len(gap) > 7:
            res.fail("padding", f"{len(gap)} bytes in front of object {i}: {gap[:16].hex()}")
        if a % 8 and bufsize % 8 == 0:
            res.fail("alignment", f"object {i} starts at {a} of the object stream")
        pos = a + len(x)
    if stream[pos:].strip(b"\0") or len(stream) - pos > 7:
        res.fail("padding", f"{len(stream) - pos} bytes behind the last object")
