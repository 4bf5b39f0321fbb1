"""C16: once the medium works again, closing succeeds and the log is complete."""

from .. import boot, faulty, hints, objs, ref
from ..common import *  # noqa: F403
from .c02 import COMPONENTS, KEEP, SIMPLE  # noqa: F401

QUICK, THOROUGH = 84000, 1300000


def gen(r, tier):
    target = r.choice(["raw", "duck", "path", "path", "buf", "rnd"])
    cfg = {"target": target, "level": gen_level(r), "bufsize": r.choice([r.randint(1, 64), r.randint(16, 200),
           r.randint(100, 600), gen_bufsize(r)]), "wcaps": gen_caps(r, 0.4), "iobuf": gen_iobuf(r)}
    recs = gen_recs(r, gen_n(r, [1, 2, 3, 4, 6, 10]), big=r.choice([0, 0, 0, 1000]))
    if r.random() < 0.02:
        recs = gen_large(r, cfg)
    if target == "path" and r.random() < 0.2:  # a file of that name exists
        cfg["old"] = gen_old(r)
    ops = faulty.gen_ops(r, recs, target)
    for _ in range(r.choice([0, 1, 1, 2])):
        ops.insert(r.randint(max(0, len(ops) - 3), len(ops)), {"op": "close", "how": r.choice(["close", "with"])})
    if r.random() < 0.4:
        ops.append({"op": "close"})
    if r.random() < 0.04:  # the medium stays full for long, and the application keeps trying
        ops = [x for x in ops if x["op"] != "free"]
        if not any(x["op"] == "full" for x in ops):
            ops.insert(r.randint(0, len(ops)), {"op": "full", "room": r.choice([0, 0, 1, 40, 150])})
        ops.append({"op": "close", "times": hints.near(r, 2, 100, 0.7) or r.choice([3, 5, 9, 12, 20, 33, 70])})
    name_level(r, cfg)
    case = {"cfg": cfg, "clock": gen_clock(r, 0.2), "ops": ops}
    case["after"] = [{"op": "write", "rec": x} for x in gen_recs(r, r.choice([0, 0, 1, 2, 5]), ts0=10**7)]
    kinds = faulty.RAW_FAULTS if target in ("raw", "duck") else faulty.BUF_FAULTS
    if not any(o["op"] == "full" for o in ops) or r.random() < 0.3:
        case["faults"] = faulty.place_faults(r, case, _drive, kinds)
    else:
        case["faults"] = []
    return case


def _drive(case, res, w):
    h = faulty.History()
    if faulty.start(case, res, w, h):
        faulty.drive(case, res, w, h)
    return h


def run(case, res):
    w = res.world(case)
    h = _drive(case, res, w)
    if h.gave_up == "close":
        res.fail("gave-up", "a failing close closes the stream although the log is not complete, so that it cannot be tried again")
    if h.writer is None or (h.closed and not h.clean) or h.gave_up:
        return
    if not h.closed:
        w.clear_faults()
        res.note("faults over")
        if h.failed_writes + h.failed_closes:
            res.probe("recovered with the stream still open")
            res.nontrivial = True
        for op in case["after"]:
            _, e = attempt(h.writer.write, objs.build(op["rec"]))
            if e is not None:
                res.fail("write-after-recovery", f"write of {rlabel(op['rec'])} fails although the medium works again: {ex(e)}")
            h.attempts.append([op["rec"], True])
            res.note("write", "ok")
        _, e = attempt(h.writer.close)
        if e is not None:
            res.fail("close-after-recovery", f"close fails although the medium works again: {ex(e)}")
        if not faulty.stream_closed(h, w):
            res.fail("not-closed", "close returned normally but the stream is still open")
    data = h.target.data()
    got, e, rd = read_bytes(res, data)
    if e is not None:
        res.fail("unreadable", f"the log cannot be read beyond {len(got)} objects: {ex(e)}")
    check_attempts(res, got, h.attempts, "recovery", "after recovery")
    s = ref.parse_stats(data)
    total = sum(o.header.base.object_size for o in got)
    want = {"file_size": len(data), "uncompressed_file_size": 144 + total, "object_count": len(got),
            "compression_level": case["cfg"]["level"]}
    for k, v in want.items():
        if s[k] != v:
            res.fail("header:" + k, f"after recovery the header says {k}={s[k]}, the log has {v}")
    res.note("read", len(got))
