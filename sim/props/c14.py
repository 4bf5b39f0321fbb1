"""C14: files are released and with-blocks are transparent."""

from .. import boot, foreign, objs, ref
from ..common import *  # noqa: F403

QUICK, THOROUGH = 120000, 3400000
COMPONENTS = {"real": ["BlfWriter", "BlfReader", "object codecs", "zlib", "io.Buffered*"],
              "stub": ["file system with a table of open handles", "clock", "body exceptions and interrupts"]}
SIMPLE = {"cfg.wcaps": [None], "cfg.rcaps": [None], "cfg.iobuf": [8192], "clock": [{}]}
KEEP = ("clock",)

LEVELS = [-1, 10, 11, 255, -9]
SIZES = [0, -1, -128, -(2**40)]


def gen(r, tier):
    cfg = {"wcaps": gen_caps(r, 0.3), "rcaps": gen_caps(r, 0.3), "iobuf": gen_iobuf(r)}
    ops = []
    for i in range(r.choice([1, 1, 2, 3])):
        k = r.choice(["writer", "writer", "writer", "reader", "reader", "badset", "badfile", "badtype"])
        name = f"/sim/f{i}.blf"
        if k == "writer":
            sub = [{"op": "write", "rec": x} for x in gen_recs(r, r.choice([0, 1, 2, 5, 10]), big=r.choice([0, 0, 300]))]
            for _ in range(r.choice([0, 0, 1])):
                sub.insert(r.randint(0, len(sub)), {"op": "refuse"})
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                sub.insert(r.randint(len(sub) // 2, len(sub)), {"op": "close"})
            x = r.random()
            if x < 0.5:
                sub.insert(r.randint(0, len(sub)), {"op": "raise", "exc": r.choice(EXC)})
            ops.append({"op": "writer", "name": name, "how": r.choice(["with", "with", "with", "close", "exit", "nested"]),
                        "target": r.choice(["path", "path", "bpath", "pathlike", "raw", "buf", "mem"]),
                        "level": gen_level(r), "bufsize": gen_bufsize(r), "body": sub,
                        "after": [r.choice(["close", "exit", "exitexc"]) for _ in range(r.choice([0, 1, 1, 3]))]})
        elif k == "reader":
            log = foreign.gen_log(r, n=r.choice([0, 1, 3, 8]))
            damage = r.choice([0, 0, 0, 1])
            sub = [{"op": "read", "n": r.choice([0, 1, 2, 100])} for _ in range(r.choice([0, 1, 2]))]
            if r.random() < 0.5:
                sub.insert(r.randint(0, len(sub)), {"op": "raise", "exc": r.choice(EXC)})
            ops.append({"op": "reader", "name": name, "how": r.choice(["with", "with", "exit"]), "log": log,
                        "damage": damage, "source": r.choice(["path", "path", "bpath", "pathlike"]), "body": sub,
                        "after": [r.choice(["exit", "exitexc"]) for _ in range(r.choice([0, 0, 1]))]})
        elif k == "badset":
            lv, bs = r.choice([0, 6]), r.choice([64, 131072])
            if r.random() < 0.5:
                lv = r.choice(LEVELS)
            else:
                bs = r.choice(SIZES)
            ops.append({"op": "badset", "name": name, "level": lv, "bufsize": bs,
                        "target": r.choice(["path", "bpath", "pathlike", "raw", "mem", "new"]),
                        "old": r.choice([b"", b"precious data" * 20])})
        elif k == "badfile":
            data = foreign.compose(foreign.gen_log(r, n=2))[0]
            ops.append({"op": "badfile", "name": name, "source": r.choice(["path", "bpath", "pathlike", "missing"]),
                        "data": r.choice([b"", b"LOGG", data[: r.randint(0, 143)], b"X" + data, bytes(300), b"LOBJ" + data[4:]])})
        else:
            ops.append({"op": "badtype", "which": r.choice(["writer", "reader"]), "arg": r.choice([0, 1])})
    return {"cfg": cfg, "clock": gen_clock(r, 0.1), "ops": ops}


EXC = ["ValueError", "KeyboardInterrupt", "SystemExit", "OSError", "MemoryError", "GeneratorExit", "Custom", "StopIteration"]


class Custom(Exception):
    pass


def make_exc(name):
    import builtins

    return Custom("body") if name == "Custom" else getattr(builtins, name)("body")


def handles(w, name):
    return [h for h in w.open_handles() if h.file.name == name]


def run(case, res):
    w = res.world(case)
    for op in case["ops"]:
        globals()["do_" + op["op"]](res, w, op)
    left = [h for h in w.open_handles() if h.file.name not in getattr(w, "user", ())]
    if left:
        res.fail("leak", f"still open at the end: {left[0].name}")


def user(w, name):
    w.__dict__.setdefault("user", set()).add(name)


def do_writer(res, w, op):
    t = Target(w, op["target"], op["name"])
    own = op["target"] in ("path", "bpath", "pathlike")
    if not own:
        user(w, op["name"])
    accepted = []
    planned = None
    how = op["how"]
    res.nontrivial = True

    def body(wr):
        nonlocal planned
        for s in op["body"]:
            k = s["op"]
            if k == "write":
                _, e = attempt(wr.write, objs.build(s["rec"]))
                if e is None:
                    accepted.append(s["rec"])
                elif not closed[0]:
                    res.fail("write-failed", f"write: {ex(e)}")
                res.note("write", "ok" if e is None else "refused")
            elif k == "refuse":
                o = objs.build(objs.simple_record(5))
                o.header.base.object_size = 49
                attempt(wr.write, o)
            elif k == "close":
                _, e = attempt(wr.close)
                if e is not None:
                    res.fail("close-failed", f"close: {ex(e)}")
                closed[0] = True
                released("close")
                snap.append(t.data())
                if len(snap) > 1 and snap[-1] != snap[0]:
                    res.fail("close-again", "closing again changes the file")
            elif k == "raise":
                planned = make_exc(s["exc"])
                res.fired["body_" + s["exc"]] += 1
                raise planned

    def released(what):
        if own and handles(w, op["name"]):
            res.fail("writer-leak", f"the file is still open after {what}")

    closed = [False]
    snap = []
    got = None
    try:
        if how == "with":
            with boot.BlfWriter(t.arg, op["level"], op["bufsize"]) as wr:
                keep = wr
                body(wr)
        elif how == "nested":
            with boot.BlfWriter(t.arg, op["level"], op["bufsize"]) as wr:
                keep = wr
                with boot.BlfWriter(MemFile(), 0, 100) as other:
                    other.write(objs.build(objs.simple_record(3)))
                    body(wr)
        else:
            keep = boot.BlfWriter(t.arg, op["level"], op["bufsize"])
            try:
                body(keep)
            finally:
                if how == "close":
                    keep.close()
                else:
                    import sys

                    keep.__exit__(*sys.exc_info())
    except (SimAbort, Violation):
        raise
    except BaseException as e:  # noqa: BLE001
        got = e
        released("leaving the block")  # while the exception is alive
    if got is not planned:
        if planned is None:
            res.fail("spurious", f"{how}: {ex(got)}")
        res.fail("swallowed", f"{how}: body raised {ex(planned)}, but {'nothing' if got is None else ex(got)} came out")
    released(how)
    res.note("writer", how, "raised" if got else "normal")
    data = t.data()
    if snap and data != snap[0]:
        res.fail("close-again", "leaving the block of a closed writer changes the file")
    for a in op["after"]:
        _, e = attempt(keep.close) if a == "close" else attempt(keep.__exit__, *((None, None, None) if a == "exit" else (
            ValueError, ValueError("x"), None)))
        if e is not None:
            res.fail("close-again", f"{a} after the writer was closed: {ex(e)}")
        if t.data() != data:
            res.fail("close-again", f"{a} after the writer was closed changes the file")
        released(a)
        res.probe("closed again")
    out, e, rd = read_bytes(res, data)
    if e is not None:
        res.fail("incomplete", f"{how}: the log cannot be read beyond {len(out)} of {len(accepted)} objects: {ex(e)}")
    check_equal(res, out, accepted, "incomplete", f"log after {how}" + (" with an exception" if got else ""))
    s = ref.parse_stats(data)
    if s["object_count"] != len(accepted) or s["file_size"] != len(data):
        res.fail("incomplete:header", f"{how}: header says {s['object_count']} objects, {s['file_size']} bytes; "
                 f"the log has {len(accepted)}, {len(data)}")


def do_reader(res, w, op):
    data, parts = foreign.compose(op["log"])
    recs = foreign.records(op["log"])
    if op["damage"] and parts and op["log"]["level"]:
        img = bytearray(data)
        a, b, _ = parts[len(parts) // 2]
        if b - a > 40:
            img[a + 33] ^= 0xFF
            img[a + 36] ^= 0xFF
        data = bytes(img)
    arg = source(w, op["source"], data, op["name"])
    planned = None
    got = None
    res.nontrivial = True
    n = 0

    def body(rd):
        nonlocal planned, n
        for s in op["body"]:
            if s["op"] == "raise":
                planned = make_exc(s["exc"])
                res.fired["body_" + s["exc"]] += 1
                raise planned
            for _ in range(s["n"]):
                try:
                    o = rd.read_object()
                except Exception as e:  # noqa: BLE001
                    planned = e
                    res.probe("read error inside the block")
                    raise
                if o is None:
                    break
                n += 1

    keep = None
    try:
        if op["how"] == "with":
            with boot.BlfReader(arg) as rd:
                keep = rd
                body(rd)
        else:
            keep = boot.BlfReader(arg)
            try:
                body(keep)
            finally:
                import sys

                keep.__exit__(*sys.exc_info())
    except (SimAbort, Violation):
        raise
    except BaseException as e:  # noqa: BLE001
        got = e
        if handles(w, op["name"]):
            res.fail("reader-leak", f"the file is still open after leaving the block with {ex(e)}")
    if got is not planned:
        res.fail("swallowed" if got is None else "spurious",
                 f"reader: body raised {planned!r:.100}, but {got!r:.100} came out")
    if handles(w, op["name"]):
        res.fail("reader-leak", "the file is still open after leaving the block")
    for a in op["after"]:
        _, e = attempt(keep.__exit__, None, None, None)
        if e is not None:
            res.fail("exit-again", f"leaving again: {ex(e)}")
    res.note("reader", op["how"], "raised" if got else "normal", n)
    if w.fs.data(op["name"]) != data:
        res.fail("reader-writes", "reading changes the file")


def do_badset(res, w, op):
    name = op["name"]
    kind = op["target"]
    mem = None
    if kind == "new":
        arg = name
    elif kind == "mem":
        arg = mem = MemFile(op["old"])
    else:
        w.fs.put(name, op["old"])
        if kind == "raw":
            user(w, name)
            arg = w.fs.raw(name, "r+")
        else:
            arg = {"path": name, "bpath": name.encode(), "pathlike": pathlib.PurePosixPath(name)}[kind]
    wr, e = attempt(boot.BlfWriter, arg, op["level"], op["bufsize"])
    what = f"compression level {op['level']}, buffer size {op['bufsize']}"
    res.note("settings", "accepted" if e is None else type(e).__name__)
    res.nontrivial = True
    if e is None:
        res.fail("settings-accepted", f"{what} are accepted")
    if kind == "new":
        if name in w.fs.files:
            res.fail("settings-touched", f"{what}: rejected, but the file was created")
    elif mem is not None:
        if mem.bytes() != op["old"]:
            res.fail("settings-touched", f"{what}: rejected, but the target was written to")
    else:
        if w.fs.data(name) != op["old"]:
            res.fail("settings-touched", f"{what}: rejected, but the target was changed")
        if kind != "raw" and handles(w, name):
            res.fail("settings-leak", f"{what}: rejected, but the file is open")
    res.probe("settings rejected")


def do_badfile(res, w, op):
    data = op["data"]
    if data[:4] == b"LOGG" and len(data) >= 144:
        return
    if op["source"] == "missing":
        _, e = attempt(boot.BlfReader, op["name"])
        if e is None:
            res.fail("missing-accepted", "a missing file is opened")
        return
    arg = source(w, op["source"], data, op["name"])
    _, e = attempt(boot.BlfReader, arg)
    res.nontrivial = True
    if e is None:
        res.fail("badfile-accepted", f"{len(data)} bytes that are no log are accepted")
    if handles(w, op["name"]):  # while the exception is alive
        res.fail("badfile-leak", f"the file is rejected ({ex(e)}), but stays open")
    res.note("badfile", type(e).__name__)
    res.probe("file rejected")


def do_badtype(res, w, op):
    arg = [12.5, None][op["arg"]]
    _, e = attempt(boot.BlfWriter if op["which"] == "writer" else boot.BlfReader, arg)
    if e is None:
        res.fail("badtype-accepted", f"{op['which']}: {arg!r} is accepted as a file")
