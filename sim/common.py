"""Pieces shared by the properties: targets and sources, generators, list oracles."""

import io
import pathlib

from . import boot, hints, objs, ref
from .world import SimAbort, SimError, SimHang, Violation, is_injected

PATH = "/sim/log.blf"


# ------------------------------------------------------------------ targets


class MemFile(io.BytesIO):
    """In-memory stream; keeps what it held when it was closed."""

    final = None

    def close(self):
        if not self.closed:
            self.final = self.getvalue()
        super().close()

    def bytes(self):
        return self.final if self.closed else self.getvalue()


class Duck:
    """A file object that is no io class: delegates everything to a raw handle."""

    def __init__(self, raw):
        self._raw = raw

    def __getattr__(self, name):
        return getattr(self._raw, name)


class Nil:
    """A file object of the old kind: writes everything, and returns nothing."""

    def __init__(self, mem):
        self._mem = mem

    def write(self, b):
        self._mem.write(b)

    def __getattr__(self, name):
        return getattr(self._mem, name)


class HugeFile(io.RawIOBase):
    """In-memory stream of any size which keeps empty pages once."""

    PAGE = 1 << 15
    ZERO = bytes(PAGE)

    def __init__(self):
        super().__init__()
        self.pages = []
        self.pos = self.size = 0

    def readable(self):
        return True

    writable = seekable = readable

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        self.pos = (0, self.pos, self.size)[whence] + off
        return self.pos

    def _page(self, b):
        return self.ZERO if b == self.ZERO else b

    def write(self, b):
        b = bytes(b)
        a, n = 0, len(b)
        while a < n:
            i, o = divmod(self.pos, self.PAGE)
            k = min(n - a, self.PAGE - o)
            while len(self.pages) <= i:
                self.pages.append(self.ZERO)
            old = self.pages[i]
            new = b[a : a + k]
            self.pages[i] = self._page(new if k == self.PAGE else old[:o] + new + old[o + k :])
            self.pos += k
            a += k
        self.size = max(self.size, self.pos)
        return n

    def readinto(self, buf):
        i, o = divmod(self.pos, self.PAGE)
        k = max(0, min(len(buf), self.PAGE - o, self.size - self.pos))
        if k:
            buf[:k] = self.pages[i][o : o + k]
            self.pos += k
        return k

    def close(self):
        """Stays open, so that the content can be looked at."""
        self.closings = getattr(self, "closings", 0) + 1

    @property
    def closed(self):
        return getattr(self, "closings", 0) > 0

    def reopen(self):
        self.closings = 0
        self.pos = 0


def huge_case(r):
    size = r.choice([1 << 18, (1 << 19) + 40, 3 << 17])
    return {"cfg": {"target": "huge", "level": 0, "bufsize": r.choice([1 << 20, 1 << 19])},
            "huge": {"size": size, "n": (1 << 32) // size + r.randint(1, 40)}}


def huge_write(res, case):
    """Write more than 4 GiB -> (file, function that makes the i-th object's bytes)."""
    w = res.world(case)
    f = HugeFile()
    size, n = case["huge"]["size"], case["huge"]["n"]

    def content(i):
        return ref.encode({"k": "raw", "t": 200, "hs": 32, "hv": 1, "p": i.to_bytes(8, "little") + bytes(size - 24)})

    wr, e = attempt(boot.BlfWriter, f, case["cfg"]["level"], case["cfg"]["bufsize"])
    if e is not None:
        res.fail("open-failed", f"BlfWriter: {ex(e)}")
    for i in range(n):
        _, e = attempt(wr.write, objs.G.NotImplementedObject.unpack(content(i)))
        if e is not None:
            res.fail("write-refused", f"write of object {i}: {ex(e)}")
    _, e = attempt(wr.close)
    if e is not None:
        res.fail("close-failed", f"close: {ex(e)}")
    res.note("huge", n, f.size)
    res.nontrivial = True
    res.probe("log of more than 4 GiB")
    f.reopen()
    w.bytes = 0
    return f, content


TARGETS = ("path", "bpath", "pathlike", "raw", "buf", "rnd", "mem", "duck", "nil")


PATHS = ("path", "bpath", "pathlike")
# what a name looks like, and where it is, means nothing
NAMES = ["~/log.blf", "~log.blf", "~", "-", "$HOME.blf", "${TZ}.blf", "%TEMP%.blf", " log.blf", "log.blf ", "log\n.blf",
         "l\u00f6g \u65e5\u672c.blf", "a*b?[c].blf", "log%d.blf", "log{}.blf", "file:log.blf", "C:\\log.blf", "l\udcffg.blf",
         "log", "log.", "log.BLF", "log.asc", "log.blf.gz", "log.gz", "log.bz2", "log.xz", "log.zip", "log.tmp", ".blf", "0", "1",
         "x" * 200 + ".blf", "http:log.blf", "con", "log.blf.bak"]


def spell(kind, name):
    """The name as a caller can give it."""
    if kind == "path":
        return name
    return name.encode("utf-8", "surrogateescape") if kind == "bpath" else pathlib.PurePosixPath(name)


def gen_name(r, cfg, key="name"):
    """Any name, in the working directory or anywhere else."""
    name = r.choice(NAMES)
    if r.random() < 0.5:
        cfg["cwd"] = "/sim/dir"
    else:
        name = "/sim/other/" + name
    cfg[key] = name


def gen_old(r):
    """What the file holds that is written over: often a longer log."""
    from . import foreign

    if r.random() < 0.2:
        return r.choice([b"", b"LOGG", b"precious data" * 500])
    old = foreign.compose(foreign.gen_log(r, n=r.choice([0, 3, 10])))[0]
    return old + old[144:] * r.choice([0, 0, 3])


class Target:
    """Where a writer writes to. `arg` goes to BlfWriter, `data()` is what the medium holds."""

    def __init__(self, w, kind, name=PATH, old=None):
        self.w = w
        self.kind = kind
        self.name = name
        self.mem = None
        self.stream = None
        if kind in PATHS:
            self.arg = spell(kind, name)
            if not name.startswith("/"):
                self.name = f"{w.cwd}/{name}"
            if old is not None:
                w.fs.put(self.name, old)
        elif kind == "mem":
            self.arg = self.mem = self.stream = MemFile()
        elif kind == "nil":
            self.mem = MemFile()
            self.arg = self.stream = Nil(self.mem)
        else:
            raw = w.fs.raw(name, "w+" if kind == "rnd" else "w")
            if kind == "raw":
                self.arg = raw
            elif kind == "duck":
                self.arg = Duck(raw)
            elif kind == "buf":
                self.arg = io.BufferedWriter(raw, w.iobuf)
            else:
                self.arg = io.BufferedRandom(raw, w.iobuf)
            self.stream = self.arg

    def data(self):
        if self.mem is not None:
            return self.mem.bytes()
        return self.w.fs.data(self.name)


SOURCES = ("path", "raw", "buf", "mem", "bpath", "pathlike", "rnd", "duck")


def source(w, kind, data, name="/sim/in.blf"):
    """What to hand to BlfReader so that it reads `data`."""
    if kind == "mem":
        return io.BytesIO(data)
    w.fs.put(name if name.startswith("/") else f"{w.cwd}/{name}", data)
    if kind in PATHS:
        return spell(kind, name)
    raw = w.fs.raw(name, "r+" if kind == "rnd" else "r")
    if kind == "raw":
        return raw
    if kind == "duck":
        return Duck(raw)
    if kind == "buf":
        return io.BufferedReader(raw, w.iobuf)
    return io.BufferedRandom(raw, w.iobuf)


def attempt(fn, *args, **kw):
    """Call into the library -> (value, exception)."""
    try:
        return fn(*args, **kw), None
    except (SimAbort, Violation):
        raise
    except BaseException as e:  # noqa: BLE001  (faults include KeyboardInterrupt)
        return None, e


def ex(e):
    s = f"{type(e).__name__}: {e}"
    return s if len(s) < 200 else s[:197] + "..."


# ------------------------------------------------------------------ reading


def _single(reader, how):
    while True:
        o = reader.read_object() if how == "read" else next(iter(reader), None)
        if o is None:
            return
        yield o


def read_list(res, reader, limit=200_000, how="for"):
    """All remaining objects of a reader -> (objects, exception)."""
    out = []
    try:
        for o in reader if how == "for" else _single(reader, how):
            out.append(o)
            if len(out) > limit:
                raise SimAbort("reader does not stop delivering objects")
    except (SimAbort, Violation):
        raise
    except BaseException as e:  # noqa: BLE001
        return out, e
    return out, None


def read_bytes(res, data):
    """Read a log given as bytes, on an ideal medium -> (objects, exception, reader)."""
    rd, e = attempt(boot.BlfReader, io.BytesIO(data))
    if e is not None:
        return [], e, None
    out, e = read_list(res, rd)
    return out, e, rd


def check_equal(res, got, recs, cls, what):
    """Objects read must be exactly the records."""
    check_prefix(res, got, recs, cls, what)
    if len(got) < len(recs):
        res.fail(cls + ":missing", f"{what}: {len(got)} of {len(recs)} objects read, first missing: "
                 f"{rlabel(recs[len(got)])}")


def check_prefix(res, got, recs, cls, what):
    for i, (o, rec) in enumerate(zip(got, recs)):
        m = objs.mismatch(o, rec)
        if m is not None:
            res.fail(cls + ":differs", f"{what}: object {i}: {m}")
    if len(got) > len(recs):
        res.fail(cls + ":extra", f"{what}: {len(got)} objects read instead of {len(recs)}, extra: "
                 f"{objs.label(got[len(recs)])}")


def rlabel(rec):
    if rec["k"] == "raw":
        return f"raw type {rec['t']} with {len(rec['p'])} bytes"
    return f"{ref.CLS[rec['k']]} ts={rec['h']['ts']}"


def match_optional(got, attempts, same, prefix=False):
    """Can `got` be made from `attempts` [(item, required)] in order, each at most once,
    every required one present? Returns None if so, else a description."""
    # states: set of attempt indices reached after consuming got[:i]
    def skip(states):
        out = set()
        for s in states:
            while True:
                out.add(s)
                if s < len(attempts) and not attempts[s][1]:
                    s += 1
                    if s in out:
                        break
                else:
                    break
        return out

    states = skip({0})
    for i, o in enumerate(got):
        nxt = {s + 1 for s in states if s < len(attempts) and same(o, attempts[s][0])}
        if not nxt:
            exp = sorted(states)[:4]
            return i, exp
        states = skip(nxt)
    if prefix or len(attempts) in states:
        return None
    return len(got), sorted(states)[:4]


def check_attempts(res, got, attempts, cls, what, prefix=False):
    """`attempts`: [(record, required)] in call order; with `prefix` the end may be missing."""
    cache = {}

    def same(o, rec):
        k = (id(o), id(rec))
        if k not in cache:
            cache[k] = objs.mismatch(o, rec)
        return cache[k] is None

    bad = match_optional(got, attempts, same, prefix)
    if bad is None:
        return
    i, states = bad
    if i < len(got):
        for s in states:
            if s < len(attempts):
                objs_m = objs.mismatch(got[i], attempts[s][0])
                break
        else:
            objs_m = "nothing more was written"
        known = any(same(got[i], a) for a, _ in attempts)
        if known:
            res.fail(cls + ":order", f"{what}: object {i} ({objs.label(got[i])}) out of order, repeated, or "
                     f"something before it is missing (expected {', '.join(rlabel(attempts[s][0]) for s in states if s < len(attempts)) or 'the end'})")
        res.fail(cls + ":invented", f"{what}: object {i} ({objs.label(got[i])}) was never written: {objs_m}")
    miss = [attempts[s][0] for s in states if s < len(attempts)]
    res.fail(cls + ":lost", f"{what}: {len(got)} objects read, accepted object missing: {rlabel(miss[0])}")


# ------------------------------------------------------------------ generators


def gen_bufsize(r):
    v = hints.near(r, 1, 1 << 40, 0.2)
    if v is not None:
        return v
    x = r.random()
    if x < 0.12:
        return r.randint(1, 16)
    if x < 0.4:
        return r.randint(16, 130)
    if x < 0.65:
        return r.randint(130, 700)
    if x < 0.8:
        if r.random() < 0.3:  # containers of just such sizes
            return (1 << r.randint(7, 17)) - 32 + r.choice([0, 0, 16, -16, 1, -1])
        return r.choice([512, 1000, 1024, 4095, 4096, 4097, 8191, 8192, 8193])
    if x < 0.9:
        return r.randint(700, 20000)
    if x < 0.97:
        return 128 * 1024
    return r.choice([1 << 16, 1 << 20, (1 << 31) - 1, 1 << 32, 1 << 40])


def gen_n(r, usual, hi=300):
    """How many objects."""
    return hints.near(r, 0, hi, 0.12) or r.choice(usual)


def gen_level(r):
    return 0 if r.random() < 0.4 else r.randint(1, 9)


def name_level(r, cfg):
    """Give the level by its name sometimes, where it has one."""
    if r.random() < 0.3 and cfg["level"] in (0, 1, 6, 9):
        cfg["named"] = 1


def level(cfg):
    if cfg.get("named"):
        from vblf.constants import Compression

        return Compression(cfg["level"])
    return cfg["level"]


def gen_caps(r, p=0.5):
    """Schedule of short transfers: maximum bytes per call, cyclic."""
    if r.random() > p:
        return None
    v = hints.near(r, 1, 10**6, 0.1)
    if v is not None:
        return [v]
    x = r.random()
    if x < 0.2:
        return [r.choice([1, 2, 3, 5, 7, 16])]
    hi = r.choice([4, 20, 100, 1000, 5000])
    return [r.randint(1, hi) for _ in range(r.randint(1, 8))]


def gen_iobuf(r):
    v = hints.near(r, 1, 10**6, 0.1)
    if v is not None:
        return v
    return r.choice([1, 7, 16, 61, 64, 100, 256, 512, 1000, 4096, 8192, 8192, 8192])


def gen_clock(r, jumps=0.3, n=40):
    c = {"t0": r.choice([0.0, 1.0, 8.6e4, 9.466848e8, 1.1e9, 1.7e9, 1.7e9 + r.random() * 1e6, 4.1e9]),
         "tick": r.choice([0.0, 1e-6, 1e-3, 0.37, 5.0, 3600.0])}
    if hints.NUMBERS and r.random() < 0.3:
        v = float(r.choice(hints.NUMBERS))
        if r.random() < 0.3 and v < 9e9:
            c["t0"] = v + r.choice([0, -1, -0.5, -100])
            c["t0"] = max(0.0, c["t0"])
        elif v < 1e5:
            c["tick"] = v * r.choice([1, 1, 1.01, 0.1, 1e-3])
    if r.random() < jumps:
        c["jumps"] = sorted([r.randint(0, n), gen_jump(r)] for _ in range(r.randint(1, 4)))
    return c


def gen_jump(r):
    if hints.NUMBERS and r.random() < 0.3:
        v = float(r.choice(hints.NUMBERS))
        if v < 4e9:
            return r.choice([-1, 1]) * v * r.choice([1, 1.001, 1.5, 1e-3])
    m = r.choice([1e-7, 1e-4, 0.5, 1.0, 60.0, 3600.0, 7200.0, 86400.0, 3e7, 1e9, 4e9])
    return r.choice([-1, -1, 1]) * m * (1 + r.random())


def gen_recs(r, n, kinds=None, big=0, ts0=1000):
    """n records with strictly increasing marks."""
    if kinds is None and r.random() < 0.4:
        kinds = r.sample(objs.KINDS + ["raw"], r.randint(1, 4))
    out = []
    ts = ts0 + (r.choice(EPOCHS) if r.random() < 0.3 else 0)
    if hints.INTS and r.random() < 0.15:
        v = r.choice(hints.INTS) * r.choice([1, 1, 1000, 10**9])
        if 10_000 < v < 2**63:
            ts = max(1000, v - r.randint(0, 1000)) if ts0 < 10**8 else ts
    twice = r.random() < 0.08  # now and then the very same object again
    for _ in range(n):
        ts += r.randint(1, 1000)
        out.append(objs.gen_record(r, ts, kinds, big))
        if twice and r.random() < 0.3 and len(out) < n:
            out.append(dict(out[-1]))
    return out[:n]


def gen_large(r, cfg, ts0=1000):
    """Records of a log of many or of large containers; `cfg` is made to suit."""
    if r.random() < 0.4:  # many
        recs = gen_recs(r, r.choice([30, 60, 120, 250]), ts0=ts0)
        cfg["bufsize"] = max(cfg["bufsize"], r.choice([20, 60, 100, 300]))
        cfg["iobuf"] = max(cfg.get("iobuf", 0), 64)
        if cfg.get("wcaps"):
            cfg["wcaps"] = [max(x, 50) for x in cfg["wcaps"]]
        return recs
    big = r.choice([3000, 10_000, 70_000])
    recs = gen_recs(r, r.choice([2, 3, 5, 8]), big=big, ts0=ts0)
    for rec in recs:
        if r.random() < 0.3:
            rec.clear()
            rec.update(k="raw", t=200, hs=32, hv=1, p=r.randbytes(16) + r.randbytes(97) * r.randint(1, r.choice([1, 2, 8]) * big // 97))
            ts0 += 1
    cfg["bufsize"] = max(cfg["bufsize"], big // r.choice([1, 2, 5, 30]), 100) if r.random() < 0.7 else \
        r.choice([65535, 65536, 65537, 128 * 1024, 128 * 1024, 1 << 20])
    cfg["iobuf"] = r.choice([256, 4096, 8192, 65536])
    if cfg.get("wcaps"):
        cfg["wcaps"] = [x * r.choice([100, 3000]) for x in cfg["wcaps"]]
    return recs


# origins of the marks: around what 32, 53, 56 and 63 bits hold, and near the end of the range
EPOCHS = (2**31, 2**32 - 3000, 2**53, 2**56 - 3000, 2**63 - 3000, 2**64 - 2**31)


def count_io(mod_run, case):
    """Profile run without faults: how often each seam is reached."""
    c = dict(case)
    c["faults"] = []
    return c


def stats_str(s):
    return {k: s[k] for k in ("file_size", "uncompressed_file_size", "object_count", "compression_level")}


def obj_total(objects):
    return sum(len(o) for o in objects)


def injected(e):
    return is_injected(e)
