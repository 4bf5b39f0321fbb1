"""C06: a refused write leaves no trace; the log holds what was accepted when it was accepted."""

import dataclasses

from .. import boot, hints, objs, ref
from ..common import *  # noqa: F403
from ..faulty import BOOM_KINDS, Boom

QUICK, THOROUGH = 82000, 1300000
COMPONENTS = {"real": ["BlfWriter", "BlfReader", "object codecs", "zlib", "io.Buffered*"],
              "stub": ["disk/raw file handle", "clock"]}
SIMPLE = {"cfg.level": [0], "cfg.wcaps": [None], "cfg.bufsize": [64, 128, 1024], "cfg.iobuf": [8192],
          "cfg.target": ["raw", "path"], "clock": [{}]}
KEEP = ("clock",)


def gen(r, tier):
    cfg = {"target": r.choice(["path", "raw", "buf", "rnd", "mem", "duck"]), "level": gen_level(r),
           "bufsize": gen_bufsize(r), "wcaps": gen_caps(r, 0.3), "iobuf": gen_iobuf(r)}
    ops = [{"op": "write", "rec": x} for x in gen_recs(r, gen_n(r, [0, 1, 2, 4, 8, 15]), big=r.choice([0, 0, 400]))]
    for i, rec in enumerate(gen_recs(r, r.choice([1, 1, 2, 4]), ts0=10**8)):
        ops.insert(r.randint(0, len(ops)), {"op": "refuse", "rec": rec, "how": r.choice(["size", "size", "range", "text", "boom", "type", "empty"]),
                                            "d": r.choice([1, -1, 4, 8, -16, 1000])})
    for op in ops:
        if op.get("how") == "boom":
            op["exc"] = r.choice(BOOM_KINDS)
        if op["op"] == "refuse" and r.random() < 0.06:
            op["times"] = hints.near(r, 2, 2000, 0.7) or r.choice([2, 3, 10, 40])
    for _ in range(r.choice([0, 1, 3])):
        ops.insert(r.randint(0, len(ops)), {"op": "mutate", "i": r.randint(0, 20), "k": r.randint(0, 3)})
    ops.append({"op": "close"})
    for rec in gen_recs(r, r.choice([0, 1, 2]), ts0=10**9):
        ops.append({"op": "late", "rec": rec})
    if r.random() < 0.3:
        ops.append({"op": "close"})
    name_level(r, cfg)
    return {"cfg": cfg, "clock": gen_clock(r, 0.2), "ops": ops}


def bad(rec, how, d, exc=None):
    """A library object that cannot be stored, or None if this record cannot be broken this way."""
    if how == "boom":
        return Boom(exc)
    if how == "type":
        o = objs.build(objs.simple_record(7))
        o.frame_id = "x"
        return o
    if how == "empty":  # encodes to nothing, or to less than it declares
        o = objs.build({"k": "raw", "t": 22, "hs": 16, "hv": 1, "p": bytes(max(0, d))})
        o.buffer = o.buffer[: -d % 16] if d < 0 else b""
        return o
    o = objs.build(rec)
    if how == "size":
        o.header.base.object_size = max(0, o.header.base.object_size + d)
        # some objects fill up to the declared size: then there is no mismatch
        p, e = attempt(o.pack)
        if e is None and len(p) == o.header.base.object_size:
            return None
        return o
    if how == "range":
        if rec["k"] == "raw":
            return None
        o.header.object_time_stamp = 2**64
        return o
    if how == "text":
        for n, enc, _l in ref.TAIL.get(rec["k"], []) + ([("text", "cp1252", "")] if rec["k"] == "app_text" else []):
            if enc == "cp1252":
                setattr(o, n, (getattr(o, n) + "\u0416"))
                return o
    return None


def scramble(o, k):
    """Change an object after it was accepted, as far as it lets itself be changed."""
    if dataclasses.is_dataclass(o):
        for f in dataclasses.fields(o):
            v = getattr(o, f.name)
            try:
                if dataclasses.is_dataclass(v):
                    scramble(v, k)
                elif isinstance(v, bytearray):
                    v[:] = bytes(len(v))
                elif isinstance(v, list):
                    v[:] = [(x + 1) % 3 if isinstance(x, int) else x for x in v]
                elif isinstance(v, bytes):
                    setattr(o, f.name, bytes(len(v)))
                elif isinstance(v, str):
                    setattr(o, f.name, "?" * len(v))
                elif isinstance(v, int):
                    setattr(o, f.name, k)
            except (AttributeError, TypeError):
                pass


def history(case, res, w, with_refused):
    """One run of the history -> (bytes, records accepted)."""
    cfg = case["cfg"]
    t = Target(w, cfg["target"])
    wr, e = attempt(boot.BlfWriter, t.arg, level(cfg), cfg["bufsize"])
    if e is not None:
        return None, None
    recs, live, closed = [], [], False
    final = None
    for op in case["ops"]:
        k = op["op"]
        if k == "write":
            if closed:
                continue
            o = objs.build(op["rec"])
            if op["rec"]["k"] == "raw" and len(recs) % 2 and with_refused:
                o.buffer = bytearray(o.buffer)  # a caller's reusable buffer
            _, e = attempt(wr.write, o)
            if e is not None:
                return None, None
            recs.append(op["rec"])
            live.append(o)
        elif k == "refuse" and with_refused and not closed:
            o = bad(op["rec"], op["how"], op["d"], op.get("exc"))
            if o is None:
                continue
            for _ in range(op.get("times", 1)):
                _, e = attempt(wr.write, o)
                if e is None:
                    res.fail("not-refused", f"an object that cannot be stored ({op['how']}, {rlabel(op['rec'])}) is accepted")
            res.note("refused", type(e).__name__)
            res.probe("refused:" + op["how"])
            res.nontrivial = True
        elif k == "mutate" and with_refused and live:
            scramble(live[op["i"] % len(live)], op["k"])
            res.probe("mutated after acceptance")
        elif k == "close":
            _, e = attempt(wr.close)
            if e is not None:
                if with_refused:
                    res.fail("close-failed", f"close: {ex(e)}")
                return None, None
            if closed and with_refused and t.data() != final:
                res.fail("late-effect", "closing again changes the file")
            closed = True
            final = t.data()
        elif k == "late" and closed and with_refused:
            _, e = attempt(wr.write, objs.build(op["rec"]))
            if e is None:
                res.fail("late-accepted", "write on a closed writer is accepted")
            res.probe("late write")
            res.note("late", type(e).__name__)
            if t.data() != final:
                res.fail("late-effect", "write on a closed writer changes the file")
    if not closed:
        _, e = attempt(wr.close)
        if e is not None:
            return None, None
    return t.data(), recs


def run(case, res):
    w = res.world(case)
    data, recs = history(case, res, w, True)
    if data is None:
        res.probe("writer failed")
        return
    w2 = res.world(dict(case, faults=[]))
    plain, _ = history(case, res, w2, False)
    if plain is None:
        res.probe("writer failed")
        return
    a, ea, _ = read_bytes(res, data)
    if ea is not None:
        res.fail("unreadable", f"reading raises after {len(a)} objects: {ex(ea)}")
    check_equal(res, a, recs, "log", "log with refused and mutated objects")
    b, eb, _ = read_bytes(res, plain)
    sa, sb = ref.parse_stats(data), ref.parse_stats(plain)
    for k in ("object_count", "uncompressed_file_size", "compression_level", "statistics_size"):
        if sa[k] != sb[k]:
            res.fail("statistics:" + k, f"{k} is {sa[k]} with and {sb[k]} without the refused writes")
    if sa["object_count"] != len(recs):
        res.fail("statistics:object_count", f"object_count is {sa['object_count']} for {len(recs)} accepted objects")
    if sa["file_size"] != len(data):
        res.fail("statistics:file_size", f"file_size is {sa['file_size']}, the file has {len(data)} bytes")
    if ref.Walk(data).objects != [ref.encode(x) for x in recs]:
        res.fail("stored", "the stored objects are not the accepted ones")
    res.note("read", len(a))
