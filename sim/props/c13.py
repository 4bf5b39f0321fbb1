"""C13: a log that is still being written reads as a prefix."""

from .. import boot, objs, ref
from ..common import *  # noqa: F403

QUICK, THOROUGH = 60000, 910000
COMPONENTS = {"real": ["BlfReader", "BlfWriter", "object codecs", "zlib", "io.Buffered*"],
              "stub": ["disk shared by writer and readers", "clock", "process scheduling at file operations"]}
SIMPLE = {"cfg.rcaps": [None], "cfg.wcaps": [None], "cfg.iobuf": [8192], "cfg.source": ["path"],
          "cfg.target": ["raw", "path"], "cfg.level": [0], "cfg.bufsize": [64, 1024], "clock": [{}]}
KEEP = ("clock",)


def gen(r, tier):
    cfg = {"target": r.choice(["path", "path", "raw", "buf"]), "source": r.choice(["path", "path", "raw", "buf"]),
           "level": gen_level(r), "bufsize": r.choice([r.randint(1, 64), r.randint(16, 200), r.randint(100, 600), gen_bufsize(r)]),
           "rcaps": gen_caps(r, 0.4), "wcaps": gen_caps(r, 0.5), "iobuf": gen_iobuf(r)}
    ops = [{"op": "write", "rec": x} for x in gen_recs(r, gen_n(r, [1, 2, 4, 8, 15], 60), big=r.choice([0, 0, 300]))]
    ops.append({"op": "close"})
    # what the reading process does at each point where the writer can be interrupted (cyclic):
    # [reader, action]; actions: 0 nothing, -1 open a new reader, n read n objects
    sched = []
    rate = r.choice([0.1, 0.3, 0.7])
    for _ in range(r.randint(5, 60)):
        if r.random() > rate:
            sched.append([0, 0])
        else:
            sched.append([r.randint(0, 3), r.choice([-1, -1, 1, 1, 2, 5, 100])])
    # how far the writer gets while a reader is inside a raw read (cyclic)
    during = [r.choice([0, 0, 0, 1, 1, 2, 5]) for _ in range(r.randint(1, 12))] if r.random() < 0.6 else []
    # the same for the moment after a reader has looked at the size of the file
    sized = [r.choice([0, 1, 1, 2, 3, 8]) for _ in range(r.randint(1, 6))] if r.random() < 0.5 else []
    return {"cfg": cfg, "clock": gen_clock(r, 0.2), "ops": ops, "sched": sched, "during": during, "sized": sized,
            "stride": r.choice([1, 1, 2, 3, 7, 25]) if cfg["wcaps"] else 1}


class Sim:
    """Writer process and reader process, interleaved at file operations."""

    def __init__(self, case, res, w):
        self.case, self.res, self.w = case, res, w
        self.t = Target(w, case["cfg"]["target"])
        self.name = self.t.name
        self.recs = [o["rec"] for o in case["ops"] if o["op"] == "write"]
        self.readers = []  # [reader, delivered, minimum, ended]
        self.k = self.acted = 0
        self.nread = 0
        self.next_op = 0
        self.wr = None
        self.busy = False  # the reading process is inside a step
        self.writing = False
        self.failed = None

    # -- reading process
    def step(self, point):
        if self.busy or not self.case["sched"]:
            return
        self.k += 1
        if self.k % self.case["stride"]:
            return
        who, act = self.case["sched"][self.k // self.case["stride"] % len(self.case["sched"])]
        if act == 0 or self.acted >= 150 or (act < 0 and len(self.readers) >= 8):
            return
        self.acted += 1
        self.busy = True
        try:
            if act < 0:
                self.open(point)
            elif self.readers:
                self.read(self.readers[who % len(self.readers)], act, point)
        finally:
            self.busy = False

    def handle(self):
        k = self.case["cfg"]["source"]
        if k == "path":
            return self.name
        raw = self.w.fs.raw(self.name, "r")
        return raw if k == "raw" else io.BufferedReader(raw, self.w.iobuf)

    def open(self, point):
        f = self.w.fs.files.get(self.name)
        before = bytes(f.data)
        rd, e = attempt(boot.BlfReader, self.handle())
        self.res.note("open", point, "ok" if e is None else type(e).__name__)
        if e is not None:
            if len(before) >= 144:
                self.res.fail("open-failed", f"opening the log while it is written ({point}, {len(before)} bytes): {ex(e)}")
            return
        walk = ref.Walk(before, self.case["cfg"]["level"]) if len(before) >= 144 else None
        if walk is not None:
            self.readers.append([rd, [], len(walk.objects), False])
            self.res.probe("reader opened: " + point)

    def read(self, s, n, point):
        rd, got, need, ended = s
        for _ in range(n):
            o, e = attempt(rd.read_object)
            if e is not None:
                self.res.fail("read-failed", f"reading the log while it is written ({point}) raises after {len(got)} objects: {ex(e)}")
            if o is None:
                if not ended and len(got) < need:
                    self.res.fail("too-few", f"reader ends after {len(got)} objects, {need} were stored completely when it opened")
                s[3] = True
                self.res.note("read", point, "end")
                if len(got) < len(self.recs):
                    self.res.probe("reader ended on a prefix")
                return
            if ended:
                self.res.probe("reader continued after the end")
            i = len(got)
            got.append(o)
            # Objects the writer has been given so far
            have = self.next_op
            if i >= min(have, len(self.recs)):
                self.res.fail("invented", f"{point}: object {i} ({objs.label(o)}) is read, {have} were written so far")
            m = objs.mismatch(o, self.recs[i])
            if m is not None:
                self.res.fail("differs", f"{point}: object {i}: {m}")
            self.res.note("read", point, "object")

    # -- writing process
    def write_op(self):
        if self.next_op >= len(self.case["ops"]):
            return False
        op = self.case["ops"][self.next_op]
        self.next_op += 1
        self.writing = True
        try:
            if op["op"] == "write":
                _, e = attempt(self.wr.write, objs.build(op["rec"]))
            else:
                _, e = attempt(self.wr.close)
        finally:
            self.writing = False
        self.res.note("w:" + op["op"])
        if e is not None:
            self.failed = e
            return False
        return True

    def during_read(self, what="during"):
        """Called in the middle of a raw read (or behind a look at the size) of the reading process."""
        d = self.case[what] or self.case["during"]
        if not d or self.writing or self.wr is None or self.failed:
            return
        n = d[self.nread % len(d)]
        self.nread += 1
        for _ in range(n):
            if self.write_op():
                self.res.probe("writer advanced inside a read call")


def run(case, res):
    cfg = case["cfg"]
    w = res.world(case)
    s = Sim(case, res, w)
    w.before_write = lambda h: s.step("before a raw write") if h.file.name == s.name else None
    w.after_write = lambda h: s.step("after a raw write") if h.file.name == s.name else None
    w.before_read = lambda h: s.during_read() if s.busy else None
    w.after_size = lambda h: s.during_read("sized") if s.busy else None
    s.wr, e = attempt(boot.BlfWriter, s.t.arg, cfg["level"], cfg["bufsize"])
    if e is not None:
        res.probe("writer failed")
        return
    s.step("after opening")
    while s.failed is None and s.next_op < len(case["ops"]):
        s.write_op()
        s.step("between calls")
    if s.failed is not None:
        res.probe("writer failed")
        return
    s.busy = True
    for r in list(s.readers):
        s.read(r, len(s.recs) + 2, "at the end")
    res.nontrivial = any(g for _, g, _, _ in s.readers)
    res.probe("readers", len(s.readers))
