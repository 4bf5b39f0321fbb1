"""C15: reading any damaged file ends, in a number of steps proportional to its size."""

import contextlib
import sys

from .. import boot, foreign, objs, ref
from ..common import *  # noqa: F403

QUICK, THOROUGH = 60000, 960000
COMPONENTS = {"real": ["BlfReader", "object codecs", "zlib", "io.Buffered*"],
              "stub": ["disk/raw file handle with damaged content", "log file (reference encoder)"]}
SIMPLE = {"cfg.rcaps": [None], "cfg.iobuf": [8192], "cfg.source": ["mem", "path"], "log.style": [1], "log.pads": [[]],
          "log.stats": [{}], "log.level": [0]}
KEEP = ("clock",)
PER_BYTE = 40     # source lines per byte of (decompressed) input; the code as it is needs at most 9
FIXED = 5000
COPIES = 40       # bytes read from in-memory streams per byte of (decompressed) input; the code as it is needs at most 5
SPACE = 1 << 20   # decompressed bytes a damaged log can reasonably reach


def gen(r, tier):
    cfg = {"source": r.choice(["mem", "mem", "path", "raw", "buf"]), "rcaps": gen_caps(r, 0.2), "iobuf": gen_iobuf(r)}
    log = foreign.gen_log(r, n=r.choice([1, 2, 4, 8, 15]), big=r.choice([0, 0, 0, 500]))
    if r.random() < 0.02:  # one object over very many containers
        log = foreign.gen_log(r, n=r.choice([1, 2, 3]), big=20000)
        log["items"][0]["rec"] = {"k": "raw", "t": 200, "hs": 32, "hv": 1, "p": bytes(r.randint(5000, 20000))}
        log["cuts"] = list(range(r.randint(1, 20), 20000, r.choice([10, 20, 40])))
        cfg["rcaps"] = None
    edits = []
    for _ in range(r.choice([1, 1, 2, 4, 8])):
        k = r.choice(["flip", "set", "zero", "del", "dup", "ins", "field", "field", "field", "trunc", "pfield", "pfield"])
        e = {"e": k, "at": r.randint(0, 10**7)}
        if k == "flip":
            e["bit"] = r.randrange(8)
        elif k == "set":
            e["b"] = r.choice([r.randbytes(r.randint(1, 16)), b"\xff" * 4, b"LOBJ", b"LOBJ\x10\0\1\0\0\0\0\0\x0a\0\0\0", b"LOGG"])
        elif k in ("zero", "del", "dup"):
            e["n"] = r.choice([1, 2, 4, 8, 16, r.randint(1, 200)])
        elif k == "ins":
            e["b"] = r.choice([r.randbytes(r.randint(1, 40)), b"LOBJ", bytes(r.randint(1, 40)),
                               ref.BASE.pack(b"LOBJ", 16, 1, r.choice([0, 1, 15, 16, 17, 31, 32, 2**31, 2**32 - 1]), r.choice([0, 1, 10, 10, 65, 86, 100, 999]))])
        elif k in ("field", "pfield"):  # a field of the n-th object signature
            e["off"] = r.choice([4, 6, 8, 8, 8, 12, 12, 16, 20, 24, 32, 36, 40])
            e["v"] = r.choice([0, 1, 2, 3, 4, 8, 10, 12, 15, 16, 17, 31, 32, 33, 65, 86, 2**16, 2**31 - 1, 2**31, 2**32 - 1, 2**32 - 16])
        edits.append(e)
    if r.random() < 0.03:  # much of it
        unit = r.choice([b"\0", b"L", b"LOB", b"LOBJ", b"\xff", r.randbytes(7), ref.BASE.pack(b"LOBJ", 16, 1, 16, 999),
                         ref.BASE.pack(b"LOBJ", 16, 1, 32, 10) + bytes(16), ref.BASE.pack(b"LOBJ", 16, 1, 40, 10) + bytes(16) + b"LOBJ\x10\0\1\0",
                         ref.BASE.pack(b"LOBJ", 16, 1, 36, 10) + bytes(16) + b"LOBJ", ref.BASE.pack(b"LOBJ", 32, 1, 32, 86) + bytes(16)])
        edits.append({"e": "ins", "at": r.choice([0, r.randint(0, 10**7)]), "b": unit * r.randint(1, 30000 // len(unit))})
    return {"cfg": cfg, "log": log, "edits": edits}


def edit(img, e, lo):
    n = len(img) - lo
    if n <= 0:
        return
    at = lo + e["at"] % n
    k = e["e"]
    if k == "flip":
        img[at] ^= 1 << e["bit"]
    elif k == "set":
        img[at : at + len(e["b"])] = e["b"]
    elif k == "zero":
        m = min(e["n"], len(img) - at)
        img[at : at + m] = bytes(m)
    elif k == "del":
        del img[at : at + e["n"]]
    elif k == "dup":
        img[at:at] = img[at : at + e["n"]]
    elif k == "ins":
        img[at:at] = e["b"]
    elif k == "trunc":
        del img[at:]
    elif k in ("field", "pfield"):
        pos = []
        i = img.find(b"LOBJ", lo)
        while i >= 0:
            pos.append(i)
            i = img.find(b"LOBJ", i + 4)
        if pos:
            p = pos[e["at"] % len(pos)] + e["off"]
            if p + 4 <= len(img):
                if e["off"] in (4, 6):
                    img[p : p + 2] = (e["v"] & 0xFFFF).to_bytes(2, "little")
                else:
                    img[p : p + 4] = e["v"].to_bytes(4, "little")


class Lines:
    """Counts source lines of the library as they run."""

    def __init__(self, limit):
        self.n = 0
        self.limit = limit

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n > self.limit:
                sys.settrace(None)
                raise SimAbort(f"more than {self.limit} source lines")
        return self.local

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(boot.VBLF_DIR):
            return self.local
        return None


@contextlib.contextmanager
def counted(limit):
    """In-memory streams made meanwhile count the bytes that go through them."""
    real = io.BytesIO

    class Counting(real):
        n = 0

        @classmethod
        def count(cls, k):
            Counting.n += k
            if Counting.n > limit:
                raise SimAbort(f"more than {limit} bytes read from in-memory streams")

        def __init__(self, initial_bytes=b""):
            super().__init__(initial_bytes)
            self.count(len(initial_bytes or b""))

        def read(self, *args):
            b = super().read(*args)
            self.count(len(b))
            return b

        def readinto(self, buf):
            k = super().readinto(buf)
            self.count(k)
            return k

    mods = [m for n, m in sys.modules.items() if n.startswith("vblf") and getattr(m, "BytesIO", None) is real]
    for m in [*mods, io]:
        m.BytesIO = Counting
    try:
        yield Counting
    finally:
        for m in [*mods, io]:
            m.BytesIO = real


def watched(cfg, src, lines, out, space):
    """Open and read to the end -> exception."""
    old = sys.gettrace()
    sys.settrace(lines.glob)
    try:
        rd, e = attempt(boot.BlfReader, src)
        if e is None:
            try:
                for o in rd:
                    out.append(o)
                    if len(out) > 1000 + space:
                        raise SimAbort("more objects than bytes")
            except (SimAbort, Violation):
                raise
            except BaseException as err:  # noqa: BLE001
                e = err
    finally:
        sys.settrace(old)
    return e


def run(case, res):
    cfg = case["cfg"]
    log = case["log"]
    # damage inside the object stream (before it is compressed) and of the file
    payload_edits = [e for e in case["edits"] if e["e"] == "pfield"]
    data, parts = foreign.compose(log)
    recs = foreign.records(log)
    clean = data
    img = bytearray(data)
    if payload_edits:
        img = bytearray(repack(log, data, parts, payload_edits))
        res.fired["damaged_payload"] += len(payload_edits)
    for e in case["edits"]:
        if e["e"] != "pfield":
            lo = 0 if e["at"] % 13 == 0 else 144
            edit(img, e, lo)
            res.fired["damage_" + e["e"]] += 1
    img = bytes(img)
    # containers in front of the first changed byte
    first = next((i for i, (a, b) in enumerate(zip(clean, img)) if a != b), min(len(clean), len(img)))
    if payload_edits and len(clean) != len(img):
        pass
    safe = max([n for a, b, n in parts if b <= first], default=0) if first >= 144 else 0
    w = res.world(case)
    space = len(img) + inflate(img)
    if space > SPACE:
        res.probe("skipped: inflates too far")
        return
    lines = Lines(FIXED + PER_BYTE * space)
    out, e, rd = [], None, None
    src = source(w, cfg["source"], img)
    if cfg["rcaps"]:
        lines.limit += 40 * space
    with counted(100_000 + COPIES * space) as copies:
        e = watched(cfg, src, lines, out, space)
    for name, k, limit in (("source lines", lines.n, lines.limit), ("copied bytes", copies.n, 100_000 + COPIES * space)):
        name = f"most {name}, permille of the limit"
        res.probes[name] = max(res.probes[name], 1000 * k // limit)
    res.probe("steps", lines.n)
    res.probe("bytes read from in-memory streams", copies.n)
    res.note("read", len(out), "end" if e is None else type(e).__name__)
    res.nontrivial = True
    if isinstance(e, (KeyboardInterrupt, SystemExit)):
        res.fail("strange", f"reading raises {ex(e)}")
    if len(out) < safe:
        res.fail("lost-before-damage", f"{len(out)} objects delivered, {safe} lie in front of the damage"
                 + (f" ({ex(e)})" if e else ""))
    check_prefix(res, out[:safe], recs, "before-damage", "in front of the damage")
    if e is not None:
        res.probe("ended with " + type(e).__name__)
    else:
        res.probe("ended normally")


def inflate(img):
    """Upper bound of the decompressed size of everything in a damaged log that looks compressed."""
    total = 0
    todo = [bytes(img)]
    rounds = 0
    while todo and total <= SPACE and rounds < 3000:
        d = todo.pop()
        i = d.find(b"LOBJ")
        while i >= 0 and total <= SPACE and rounds < 3000:
            rounds += 1
            if d[i + 12 : i + 16] == b"\x0a\0\0\0":
                z = ref.zlib.decompressobj()
                try:
                    o = z.decompress(d[i + 32 :], SPACE)
                except ref.zlib.error:
                    o = b""
                total += len(o)
                if o:
                    todo.append(o)
                size = int.from_bytes(d[i + 8 : i + 12], "little")
                total += min(size, len(d) - i)  # stored, not compressed
            i = d.find(b"LOBJ", i + 1)
    return total


def repack(log, data, parts, edits):
    """Damage the object stream itself, then cut, compress and wrap it again."""
    objs_ = bytearray()
    for it in log["items"]:
        objs_ += ref.encode(it["rec"]) + it.get("gap", b"")
    for e in edits:
        edit(objs_, e, 0)
    out = bytearray(data[:144])
    cuts = [0] + sorted(c for c in log["cuts"] if 0 < c < len(objs_)) + [len(objs_)]
    pads = log["pads"]
    for i, (a, b) in enumerate(zip(cuts, cuts[1:])):
        out += ref.container(bytes(objs_[a:b]), (log["zl"] or 6) if log["level"] else 0, log["style"], ts=i)
        if pads:
            out += pads[i % len(pads)]
    return bytes(out)
