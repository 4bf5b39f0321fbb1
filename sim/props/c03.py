"""C03: a crash at any byte of the ordered stream of raw writes leaves a readable prefix."""

from .. import boot, faulty, objs, ref
from ..common import *  # noqa: F403

QUICK, THOROUGH = 23000, 350000
COMPONENTS = {"real": ["BlfWriter", "BlfReader", "object codecs", "zlib", "io.Buffered*"],
              "stub": ["disk (ordered raw writes, cut at any byte)", "clock", "process death"]}
SIMPLE = {"cfg.level": [0], "cfg.wcaps": [None], "cfg.bufsize": [64, 128, 1024], "cfg.iobuf": [8192],
          "cfg.target": ["raw", "path"], "clock": [{}]}
KEEP = ("clock",)


def gen(r, tier):
    target = r.choice(["path", "path", "path", "raw", "raw", "buf", "rnd", "duck"])
    cfg = {"target": target, "level": gen_level(r), "bufsize": gen_bufsize(r), "wcaps": gen_caps(r, 0.4),
           "iobuf": gen_iobuf(r), "nclose": r.choice([0, 1, 1, 1, 2])}
    recs = gen_recs(r, gen_n(r, [0, 1, 2, 4, 8, 15, 25]), big=r.choice([0, 0, 800]))
    if r.random() < 0.015:
        recs = gen_large(r, cfg)
    # torn positions inside each raw write, cyclic (negative: bytes before its end)
    cuts = [[r.choice([1, 2, 3, 4, 15, 16, 17, 31, 32, 33, -1, -2, -8, r.randint(1, 200)]) for _ in range(r.randint(0, 3))]
            for _ in range(r.randint(1, 5))]
    case = {"cfg": cfg, "clock": gen_clock(r, 0.2), "ops": [{"op": "write", "rec": x} for x in recs], "cuts": cuts,
            "max": 60 if tier == "quick" else 120, "off": r.randint(0, 1000)}
    if len(recs) > 25 or sum(len(x.get("p", b"")) for x in recs) > 5000:
        case["max"] //= 4
    if recs and r.random() < 0.3:  # the medium had failed before the crash
        case["ops"] = faulty.gen_ops(r, recs[:10] if len(recs) <= 25 else recs, target)
        for _ in range(r.choice([0, 1, 2])):
            case["ops"].insert(r.randint(0, len(case["ops"])), {"op": "close"})
        kinds = faulty.RAW_FAULTS if target in ("raw", "duck") else faulty.BUF_FAULTS
        case["failing"] = 1
        case["faults"] = faulty.place_faults(r, case, failing, kinds)
    return case


def failing(case, res, w):
    """A history on a failing medium -> its attempts."""
    h = faulty.History()
    if faulty.start(case, res, w, h):
        faulty.drive(case, res, w, h)
        for _ in range(case["cfg"]["nclose"]):
            if not h.closed:
                faulty.do_close(res, w, h)
    return h


def apply(img, entry, upto=None):
    off, b = entry
    if off == "t":
        del img[b:]
        img.extend(bytes(b - len(img)))
        return
    if upto is not None:
        b = b[:upto]
    if off > len(img):
        img.extend(bytes(off - len(img)))
    img[off : off + len(b)] = b


def run(case, res):
    cfg = case["cfg"]
    w = res.world(case)
    if case.get("failing"):
        h = failing(case, res, w)
        if w.fired:
            res.probe("crash after I/O failed")
        return crashes(case, res, w, h.target, h.attempts)
    t = Target(w, cfg["target"])
    recs = [o["rec"] for o in case["ops"]]
    wr, e = attempt(boot.BlfWriter, t.arg, cfg["level"], cfg["bufsize"])
    ok = e is None
    for rec in recs if ok else []:
        _, e = attempt(wr.write, objs.build(rec))
        ok = ok and e is None
    for _ in range(cfg["nclose"] if ok else 0):
        _, e = attempt(wr.close)
        ok = ok and e is None
    if not ok:  # not this property
        res.probe("writer failed")
        return
    crashes(case, res, w, t, [[x, True] for x in recs])


def crashes(case, res, w, t, attempts):
    entries = list(w.fs.files[t.name].log)
    w.kill()
    # crash points: after every raw write, and inside it
    points = crash_points(entries, case["cuts"])
    n = len(points)
    if n > case["max"]:
        step = n / case["max"]
        o = case["off"] % max(1, int(step))
        keep = {min(n - 1, int(j * step) + o) for j in range(case["max"])} | {n - 1, n - 2, n - 3}
        points = [p for k, p in enumerate(points) if k in keep]
    base = -1
    img = bytearray()
    done = 0
    for i, c in points:
        while done < i:
            apply(img, entries[done])
            done += 1
        snap = bytearray(img)
        if case.get("failing") and stale(entries, img, i, c):
            res.probe("not decided: crash while a failed container is replaced")
            continue
        if c is not None:
            apply(snap, entries[i], c)
            res.fired["crash_torn_write"] += 1
        else:
            res.fired["crash_between_writes"] += 1
        n = survive(res, bytes(snap), attempts, (i, c))
        res.note("crash", n, i, -1 if c is None else c)
        base = max(base, n)
    res.nontrivial = base > 0
    if base >= 0 and len(entries) > 3:
        res.probe("crash during a multi-write history")


def crash_points(entries, cuts):
    pts = [(0, None)]
    for i, (off, b) in enumerate(entries):
        if off != "t":
            for c in cuts[i % len(cuts)] if cuts else []:
                c = c if c > 0 else len(b) + c
                if 0 < c < len(b):
                    pts.append((i, c))
        pts.append((i + 1, None))
    return pts


def stale(entries, img, i, c):
    """Do bytes of an older attempt at a container follow the last ones stored?"""
    if c is None:
        if not i:
            return False
        off, b = entries[i - 1]
        end = 0 if off == "t" else off + len(b)
    else:
        off, b = entries[i]
        end = off + c
    return off != "t" and off >= 144 and end < len(img)


def survive(res, data, attempts, point):
    """Check one surviving file; returns the number of objects delivered."""
    where = f"crash after {point[0]} raw writes" + (f" + {point[1]} bytes" if point[1] is not None else "")
    got, e, rd = read_bytes(res, data)
    if len(data) < 144:
        return -1  # the file header was not stored yet
    if rd is None:
        res.fail("rejected", f"{where}: the file left behind ({len(data)} bytes) is rejected: {ex(e)}")
    if e is not None:
        res.fail("reading-failed", f"{where}: reading raises after {len(got)} objects: {ex(e)}")
    check_attempts(res, got, attempts, "crash", where, prefix=True)
    walk = ref.Walk(data)
    need = len(walk.objects)
    if len(got) < need:
        res.fail("too-few", f"{where}: {len(got)} objects read, but {need} lie in complete containers")
    if len(got) < len(attempts):
        res.probe("proper prefix survived")
    if walk.tail:
        res.probe("torn container at the end")
    if walk.rest:
        res.probe("object cut between containers")
    return len(got)
