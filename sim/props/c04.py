"""C04: what a crash can lose is bounded by the buffer size."""

from collections import Counter

from .. import boot, faulty, objs, ref
from ..common import *  # noqa: F403

QUICK, THOROUGH = 36000, 780000
COMPONENTS = {"real": ["BlfWriter", "BlfReader", "object codecs", "zlib", "io.Buffered*"],
              "stub": ["disk/raw file handle", "clock", "process death after a returned write"]}
SIMPLE = {"cfg.level": [0], "cfg.wcaps": [None], "cfg.bufsize": [64, 128, 1024], "cfg.iobuf": [8192],
          "cfg.target": ["raw"], "clock": [{}]}
KEEP = ("clock",)


def gen(r, tier):
    cfg = {"target": r.choice(["raw", "raw", "duck", "buf", "rnd", "mem"]), "level": gen_level(r),
           "bufsize": gen_bufsize(r), "wcaps": gen_caps(r, 0.3), "iobuf": gen_iobuf(r)}
    big = r.choice([0, 0, 500, 3000, 20000])
    if big > 500:
        cfg["bufsize"] = max(cfg["bufsize"], big // 100)
        cfg["wcaps"] = cfg["wcaps"] and [x * 50 for x in cfg["wcaps"]]
    recs = gen_recs(r, r.choice([1, 2, 4, 8, 15, 30]), big=big)
    case = {"cfg": cfg, "clock": gen_clock(r, 0.3), "ops": [{"op": "write", "rec": x} for x in recs],
            "reads": r.choice([1, 2, 3, 5])}
    if big <= 500 and r.random() < 0.3:  # the medium fails in between
        cfg["target"] = r.choice(["raw", "raw", "duck"])
        case["ops"] = faulty.gen_ops(r, recs[:12] if r.random() < 0.9 else recs, cfg["target"])
        for _ in range(r.choice([0, 0, 1])):
            case["ops"].insert(r.randint(0, len(case["ops"])), {"op": "close"})
        case["failing"] = 1
        case["faults"] = faulty.place_faults(r, case, failing, faulty.RAW_FAULTS)
    return case


def failing(case, res, w, each=None):
    h = faulty.History()
    if faulty.start(case, res, w, h):
        for op in case["ops"]:
            n = len(h.attempts)
            faulty.drive({"ops": [op]}, res, w, h)
            if h.closed:
                break
            if each and len(h.attempts) > n and h.attempts[-1][1]:
                each(h)
    return h


def after_failures(res, w, h, cfg):
    """A write has returned: how much of what was accepted so far is not stored?"""
    res.fired["crash_after_write"] += 1
    data = h.target.data()
    walk = ref.Walk(data, cfg["level"])
    accepted = Counter(ref.encode(x) for x, ok in h.attempts if ok)
    held = sum(len(o) * n for o, n in (accepted - Counter(walk.objects)).items()) - len(walk.rest)
    where = f"crash after write {len(h.attempts) - 1} returned, after failures"
    if held >= cfg["bufsize"]:
        res.fail("held-back", f"{where}: {held} bytes of accepted objects are held back, buffer size is {cfg['bufsize']}")
    got, e, _ = read_bytes(res, data)
    if e is not None:
        res.fail("reading-failed", f"{where}: reading raises after {len(got)} objects: {ex(e)}")
    check_attempts(res, got, h.attempts, "crash", where, prefix=True)
    if len(got) < len(walk.objects):
        res.fail("too-few", f"{where}: {len(got)} objects read, but {len(walk.objects)} are stored completely")
    if h.failed_writes + h.failed_closes:
        res.probe("crash after failures")
        res.nontrivial = res.nontrivial or len(walk.spans) > 1


def run(case, res):
    cfg = case["cfg"]
    w = res.world(case)
    if case.get("failing"):
        failing(case, res, w, lambda h: after_failures(res, w, h, cfg))
        return
    t = Target(w, cfg["target"])
    recs = [o["rec"] for o in case["ops"]]
    wr, e = attempt(boot.BlfWriter, t.arg, cfg["level"], cfg["bufsize"])
    if e is not None:
        res.probe("writer failed")
        return
    sizes = []
    for i, rec in enumerate(recs):
        _, e = attempt(wr.write, objs.build(rec))
        if e is not None:
            res.probe("writer failed")
            return
        sizes.append(len(ref.encode(rec)))
        if cfg["target"] in ("buf", "rnd"):
            t.stream.flush()  # what the target stream itself buffers does not count
        data = t.data()
        where = f"crash after write {i} returned"
        try:
            walk = ref.Walk(data, cfg["level"])
        except Exception as err:  # noqa: BLE001
            res.fail("unreadable", f"{where}: {err}")
        if walk.bad or walk.tail:
            res.fail("incomplete", f"{where}: not a sequence of complete containers ({walk.bad or 'cut off'})")
        stored = obj_total(walk.objects) + len(walk.rest)
        held = sum(sizes) - stored
        if held >= cfg["bufsize"]:
            res.fail("held-back", f"{where}: {held} bytes of accepted objects are held back, buffer size is {cfg['bufsize']}")
        res.fired["crash_after_write"] += 1
        if len(walk.spans) > 1:
            res.nontrivial = True
        if sizes[-1] >= 2 * cfg["bufsize"]:
            res.probe("object of several buffers")
        res.note("write", "flushed" if walk.spans else "held", held, len(walk.spans))
        if i % case["reads"] == 0 or i == len(recs) - 1:
            got, e, rd = read_bytes(res, data)
            if e is not None:
                res.fail("reading-failed", f"{where}: reading raises after {len(got)} objects: {ex(e)}")
            check_prefix(res, got, recs[: i + 1], "crash", where)
            if len(got) < len(walk.objects):
                res.fail("too-few", f"{where}: {len(got)} objects read, but {len(walk.objects)} are stored completely")
            # the first object lost must reach into the last buffer-size bytes
            if sum(sizes[len(got) + 1 :]) >= cfg["bufsize"]:
                res.fail("lost-too-much", f"{where}: only {len(got)} of {i + 1} accepted objects survive "
                         f"although {sum(sizes[len(got) + 1:])} bytes were accepted after object {len(got)}")
    w.kill()
