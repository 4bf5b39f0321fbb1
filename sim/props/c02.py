"""C02: a successful close never hides lost or invented data."""

from .. import boot, faulty, objs, ref
from ..common import *  # noqa: F403

QUICK, THOROUGH = 60000, 1300000
COMPONENTS = {"real": ["BlfWriter", "BlfReader", "object codecs", "zlib", "io.Buffered*"],
              "stub": ["disk/raw file handle", "clock", "zlib.compress failure"]}
SIMPLE = {"cfg.level": [0], "cfg.wcaps": [None], "cfg.bufsize": [64, 128, 1024], "cfg.iobuf": [8192],
          "cfg.target": ["raw", "path"], "clock": [{}]}
KEEP = ("clock",)


def gen(r, tier):
    target = r.choice(["raw", "raw", "duck", "path", "path", "buf", "rnd"])
    cfg = {"target": target, "level": gen_level(r), "bufsize": r.choice([r.randint(1, 64), r.randint(16, 200),
           r.randint(100, 600), gen_bufsize(r)]), "wcaps": gen_caps(r, 0.4), "iobuf": gen_iobuf(r)}
    recs = gen_recs(r, gen_n(r, [1, 2, 3, 4, 6, 10, 15]), big=r.choice([0, 0, 0, 1000]))
    if r.random() < 0.02:
        recs = gen_large(r, cfg)
    if target == "path" and r.random() < 0.2:  # a file of that name exists
        cfg["old"] = gen_old(r)
    ops = faulty.gen_ops(r, recs, target)
    n = r.choice([0, 0, 1, 2])
    for _ in range(n):  # closes in the middle of a failing history, and repeated ones
        ops.insert(r.randint(max(0, len(ops) - 3), len(ops)), {"op": "close", "how": r.choice(["close", "with"])})
    ops += [{"op": "close"}, {"op": "close"}, {"op": "free"}]
    name_level(r, cfg)
    case = {"cfg": cfg, "clock": gen_clock(r, 0.1), "ops": ops}
    kinds = faulty.RAW_FAULTS if target in ("raw", "duck") else faulty.BUF_FAULTS
    if not any(o["op"] == "full" for o in ops) or r.random() < 0.3:
        case["faults"] = faulty.place_faults(r, case, _drive, kinds)
    else:
        case["faults"] = []
    return case


def _drive(case, res, w):
    h = faulty.History()
    if faulty.start(case, res, w, h):
        faulty.drive(case, res, w, h)
    return h


def run(case, res):
    w = res.world(case)
    h = _drive(case, res, w)
    if h.writer is None:
        return
    if not h.closed:  # the faults are over
        w.clear_faults()
        for _ in range(3):
            if faulty.do_close(res, w, h):
                break
    res.nontrivial = h.failed_writes + h.failed_closes > 0
    if not h.clean:
        return
    if h.failed_writes + h.failed_closes:
        res.probe("closed normally after failures")
    data = h.target.data()
    got, e, _ = read_bytes(res, data)
    if e is not None:
        res.fail("unreadable", f"close returned normally, but the log cannot be read beyond {len(got)} objects: {ex(e)}")
    check_attempts(res, got, h.attempts, "close", "close returned normally")
    res.note("read", len(got))
