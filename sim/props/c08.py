"""C08: reading does not depend on how the bytes are delivered or how the caller consumes them."""

from .. import boot, foreign, objs, ref
from ..common import *  # noqa: F403

QUICK, THOROUGH = 88000, 1300000
COMPONENTS = {"real": ["BlfReader", "object codecs", "zlib", "io.Buffered*"],
              "stub": ["disk/raw file handle delivering partially", "log file (reference encoder)"]}
SIMPLE = {"cfg.rcaps": [None], "cfg.iobuf": [8192], "cfg.source": ["mem", "path"], "log.level": [0],
          "log.style": [1], "log.pads": [[]], "log.cuts": [[]], "log.stats": [{}]}
KEEP = ("clock",)


def gen(r, tier):
    cfg = {"source": r.choice(SOURCES), "rcaps": gen_caps(r, 0.75), "iobuf": gen_iobuf(r)}
    if r.random() < 0.01:  # many small deliveries for one object
        log = foreign.gen_log(r, big=4000, n=2, kinds=["app_text", "raw", "eth_ex"])
        cfg["rcaps"] = [r.choice([1, 2])]
    else:
        log = foreign.gen_log(r, big=r.choice([0, 0, 500]))
    prog = []
    for _ in range(r.randint(0, 8)):
        k = r.choice(["read", "read", "for", "next", "iter", "list"] if r.random() < 0.1 else
                     ["read", "for", "next", "iter"])
        prog.append({"op": k, "n": r.choice([0, 1, 1, 2, 3, 7])})
    faults = []
    if cfg["source"] in ("path", "bpath", "pathlike", "buf", "rnd") and r.random() < 0.4:
        for _ in range(r.randint(1, 4)):
            faults.append({"on": "r", "n": r.randint(0, 20), "do": "eintr"})
    if cfg["source"] in PATHS and r.random() < 0.3:
        gen_name(r, cfg)
    return {"cfg": cfg, "log": log, "prog": prog, "faults": faults}


def run(case, res):
    cfg = case["cfg"]
    data, parts = foreign.compose(case["log"])
    recs = foreign.records(case["log"])
    w = res.world(case)
    rd, e = attempt(boot.BlfReader, source(w, cfg["source"], data, cfg.get("name", "/sim/in.blf")))
    if e is not None:
        res.fail("read-failed", f"BlfReader: {ex(e)}")
    got = []
    ended = False
    it = None

    def take(o, how):
        nonlocal ended
        if o is None:
            res.note(how, "end")
            if len(got) < len(recs):
                res.fail("early-end", f"{how} reports the end after {len(got)} of {len(recs)} objects")
            ended = True
            return False
        if ended:
            res.fail("after-end", f"{how} delivers {objs.label(o)} after the end was reported")
        i = len(got)
        got.append(o)
        if i >= len(recs):
            res.fail("extra", f"{how}: object {i} ({objs.label(o)}) is delivered, the log has {len(recs)}")
        m = objs.mismatch(o, recs[i])
        if m is not None:
            res.fail("differs", f"{how}: object {i}: {m}")
        res.note(how, "object")
        return True

    def steps(how, fn, n):
        for _ in range(n):
            o, e = attempt(fn)
            if isinstance(e, StopIteration):
                o, e = None, None
            if e is not None:
                res.fail("read-failed", f"{how} raises after {len(got)} of {len(recs)} objects: {ex(e)}")
            take(o, how)

    def loop(how, obj, n):
        k = 0
        try:
            for o in obj:
                take(o, how)
                k += 1
                if k >= n:
                    return
        except Exception as e:  # noqa: BLE001
            res.fail("read-failed", f"{how} raises after {len(got)} of {len(recs)} objects: {ex(e)}")
        take(None, how)

    for op in case["prog"] + [{"op": "read", "n": len(recs) + 3}, {"op": "next", "n": 1}, {"op": "list", "n": 0},
                              {"op": "read", "n": 1}]:
        k, n = op["op"], op["n"]
        if k == "read":
            steps("read_object", rd.read_object, n)
        elif k == "for" and n:
            loop("for", rd, n)
        elif k == "next":
            steps("next(iter(reader))", lambda: next(iter(rd)), n)
        elif k == "iter":
            if it is None:
                it = iter(rd)
            else:
                res.probe("resumed iterator")
            steps("next(iterator)", lambda: next(it), n)
        elif k == "list":
            loop("list", rd, 10**9)
    if len(got) != len(recs):
        res.fail("early-end", f"{len(got)} of {len(recs)} objects delivered")
    for i, o in enumerate(got):
        m = objs.mismatch(o, recs[i])
        if m is not None:
            res.fail("changed-later", f"object {i} changed after it was delivered: {m}")
    _, e = attempt(rd.__exit__, None, None, None)
    if e is not None:
        res.fail("exit", f"leaving the with-block raises: {ex(e)}")
    res.nontrivial = len(recs) > 1 and (bool(w.fired) or len(case["prog"]) > 1)
    if len(parts) > 1:
        res.probe("several containers")
