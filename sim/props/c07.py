"""C07: logging does not depend on the clock."""

from .. import boot, objs, ref
from ..common import *  # noqa: F403

QUICK, THOROUGH = 120000, 1900000
COMPONENTS = {"real": ["BlfWriter", "BlfReader", "object codecs", "zlib", "io.Buffered*"],
              "stub": ["clock (jumps between any two readings)", "disk/raw file handle"]}
SIMPLE = {"cfg.level": [0], "cfg.wcaps": [None], "cfg.bufsize": [64, 128, 1024], "cfg.iobuf": [8192],
          "cfg.target": ["raw", "path"]}


def gen(r, tier):
    cfg = {"target": r.choice(["path", "raw", "buf", "mem"]), "level": gen_level(r), "bufsize": gen_bufsize(r),
           "iobuf": gen_iobuf(r), "with": r.random() < 0.3}
    recs = gen_recs(r, gen_n(r, [1, 1, 2, 4, 8, 15]), big=r.choice([0, 0, 600]))
    ops = [{"op": "write", "rec": x} for x in recs]
    c = {"t0": r.choice([0.0, 0.5, 1.0, 1e9, 1.7e9, 4e9, 9.1e9]), "tick": r.choice([0.0, 0.0, 1e-9, 1e-3, 86400.0])}
    n = 3 * len(ops) + 6
    c["jumps"] = sorted([r.randint(0, n), gen_jump(r)] for _ in range(r.choice([1, 1, 2, 3, 6])))
    for _ in range(r.choice([0, 0, 1, 3])):  # and between calls
        ops.insert(r.randint(0, len(ops)), {"op": "jump", "d": gen_jump(r)})
    return {"cfg": cfg, "clock": c, "ops": ops}


def history(case, res, w, main):
    cfg = case["cfg"]
    t = Target(w, cfg["target"])
    wr, e = attempt(boot.BlfWriter, t.arg, cfg["level"], cfg["bufsize"])

    def failed(what, e):
        if main:
            res.fail("failed", f"{what} fails: {ex(e)} (clock at {w.clock.now:.3f})")
        return None

    if e is not None:
        return failed("opening", e)
    for op in case["ops"]:
        if op["op"] == "jump":
            if main:
                w.clock.advance(op["d"])
                w.clock.njumps += 1
            continue
        _, e = attempt(wr.write, objs.build(op["rec"]))
        if e is not None:
            return failed("write", e)
        if main:
            res.note("write")
    _, e = attempt(wr.close) if not cfg["with"] else attempt(wr.__exit__, None, None, None)
    if e is not None:
        return failed("close", e)
    return t.data()


def run(case, res):
    w0 = res.world(dict(case, clock={"t0": 1.7e9, "tick": 0.001}))
    calm = history(case, res, w0, False)
    if calm is None:
        res.probe("writer failed with a steady clock")
        return
    w = res.world(case)
    data = history(case, res, w, True)
    res.nontrivial = w.clock.njumps > 0
    if w.clock.back:
        res.probe("clock set back")
    recs = [o["rec"] for o in case["ops"] if o["op"] == "write"]
    a = ref.Walk(data)
    b = ref.Walk(calm)
    if a.bad or a.tail or a.rest:
        res.fail("layout", f"{a.bad or 'incomplete'}")
    if a.objects != b.objects:
        res.fail("objects", f"{len(a.objects)} objects stored instead of {len(b.objects)}, or others")
    if a.payloads != b.payloads:
        res.fail("containers", f"containers of {[len(x) for x in a.payloads]} bytes instead of {[len(x) for x in b.payloads]}")
    got, e, _ = read_bytes(res, data)
    if e is not None:
        res.fail("unreadable", f"reading raises after {len(got)} objects: {ex(e)}")
    check_equal(res, got, recs, "readback", "log written with a jumping clock")
    res.note("clock", w.clock.reads)
