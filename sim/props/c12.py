"""C12: independent readers and writers do not interfere under any interleaving.

Actors run either as coroutines (one thread, switched between API calls) or each in a thread of
its own. Threads are real, but exactly one holds the baton at any time; it is taken away at
source lines or bytecodes of the library that the schedule in the case names.
"""

import contextlib
import sys
import threading
from collections import Counter

from .. import boot, foreign, objs, ref
from ..common import *  # noqa: F403
from ..world import Clock

QUICK, THOROUGH = 10000, 130000
ISOLATE = True
COMPONENTS = {"real": ["BlfReader", "BlfWriter", "object codecs", "zlib", "io.Buffered*", "threads"],
              "stub": ["thread scheduler (baton, preemption at lines/bytecodes of vblf)", "disk/raw file handles",
                       "clock (one per actor)"]}
SIMPLE = {"cfg.rcaps": [None], "cfg.wcaps": [None], "cfg.iobuf": [8192], "cfg.grain": ["line"]}
KEEP = ("clock", "shared")
MAX_LINES = 3_000_000


def gen(r, tier):
    mode = r.choice(["threads", "threads", "threads", "coop"])
    cfg = {"mode": mode, "grain": r.choice(["line", "line", "opcode"]), "wcaps": gen_caps(r, 0.15), "rcaps": gen_caps(r, 0.15),
           "iobuf": gen_iobuf(r) if r.random() < 0.2 else 8192}
    shared = gen_recs(r, r.choice([1, 2, 4]), ts0=5000) if r.random() < 0.7 else []
    kinds = r.sample(objs.KINDS + ["raw"], r.choice([1, 1, 1, 2, 3])) if r.random() < 0.75 else None
    actors = []
    for i in range(r.choice([2, 2, 2, 3, 4, 5])):
        k = r.choice(["writer", "writer", "reader", "reader", "copier"])
        a = {"a": k, "level": gen_level(r), "bufsize": r.choice([r.randint(1, 64), r.randint(16, 300), gen_bufsize(r)]),
             "target": r.choice(["path", "raw", "mem", "buf"]), "source": r.choice(["path", "raw", "mem", "buf"]),
             "end": r.choice(["close", "close", "with", "none"])}
        if k == "writer":
            ops = [{"op": "write", "rec": x} for x in gen_recs(r, r.choice([1, 2, 4, 8]), kinds, ts0=10**5 * (i + 1))]
            for j in range(len(shared)):
                if r.random() < 0.7:
                    ops.insert(r.randint(0, len(ops)), {"op": "shared", "i": j})
            if r.random() < 0.3:
                ops.insert(r.randint(0, len(ops)), {"op": "refuse"})
            a["ops"] = ops
        else:
            a["log"] = foreign.gen_log(r, n=r.choice([1, 2, 4, 8]), kinds=kinds)
            for x in [a["log"], *a["log"]["items"]]:  # every byte of it costs a hundred steps
                for n in ("lead", "gap"):
                    if n in x:
                        x[n] = x[n][-40:]
            a["log"]["pads"] = [x[-12:] for x in a["log"]["pads"]]
            a["edit"] = int(r.random() < 0.4)
            a["damage"] = r.choice([0, 0, 0, 1, 2])
            if r.random() < 0.15:
                a["rf"] = [{"n": r.choice([0, 1, 2, 3, r.randint(0, 40)]), "do": r.choice(["eio", "eio", "mem", "kbd"])}]
            a["at"] = r.randint(0, 10**6)
        if k != "reader" and r.random() < 0.25:
            n = r.choice([1, 1, 2, 3, r.randint(0, 30)])
            a["wf"] = [{"n": n + j, "do": do, "k": r.choice([0, 1, 20, 40])}
                       for j, do in enumerate(r.sample(["eio", "enospc", "torn", "kbd", "mem", "kbd_after"], r.choice([1, 1, 2, 3])))]
        actors.append(a)
    n = r.choice([3, 10, 40, 150])
    q = r.choice([1, 3, 10, 60])
    if mode == "coop":
        sched = [[1, r.randint(0, 9)] for _ in range(n)]
    elif r.random() < 0.55:
        # only lines (bytecodes) of one or two functions count, so that switches fall into their middle
        cfg["focus"] = [r.randint(0, 10**6) for _ in range(r.choice([1, 1, 2]))]
        n, q = r.choice([10, 40, 150, 400]), r.choice([1, 2, 3, 5, 8])
        if cfg["grain"] == "opcode":
            q *= r.choice([1, 4, 12])
        sched = [[r.randint(1, q), r.randint(0, 9)] for _ in range(n)]
    else:
        sched = [[r.randint(1, q * (8 if cfg["grain"] == "opcode" else 1)), r.randint(0, 9)] for _ in range(n)]
    clock = {"t0": r.choice([1.7e9, 1.6e9 + 0.25])}
    if r.random() < 0.6:
        clock.update(tick=r.choice([1e-3, 0.25, 5.0, 3600.0]), apart=r.choice([0, 1.0, 86400.0]))
    return {"cfg": cfg, "clock": clock, "actors": actors, "shared": shared, "sched": sched}


class Clocks:
    """The one wall clock, set anew at every switch: what an actor sees depends on its own readings only."""

    def __init__(self, case, only=None):
        c = case["clock"]
        self.of = [Clock({"t0": c["t0"] + i * c.get("apart", 0), "tick": c.get("tick", 0)})
                   for i in range(len(case["actors"]) or 1)]
        self.current = only or 0
        self.threads = None

    def __getattr__(self, name):
        i = self.current if self.threads is None else self.threads.get(threading.get_ident(), 0)
        return getattr(self.of[i], name)


def _opcodes_on():
    """CPython 3.12 delivers opcode events from the second settrace() after the first request on."""

    def glob(frame, event, arg):
        frame.f_trace_opcodes = True
        return glob

    old = sys.gettrace()
    sys.settrace(glob)
    (lambda: None)()
    sys.settrace(old)


_opcodes_on()


def where(frame):
    return frame.f_code.co_filename[len(boot.VBLF_DIR):], frame.f_code.co_qualname


class Calls:
    """Functions of the library called while active."""

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        sys.setprofile(self.on)
        return self

    def __exit__(self, *exc):
        sys.setprofile(None)

    def on(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(boot.VBLF_DIR):
            self.seen.add(where(frame))


class Actor:
    def __init__(self, i, spec, w, shared):
        self.i, self.spec, self.w, self.shared = i, spec, w, shared
        self.hist = []      # observable results
        self.delivered = []
        self.t = None
        self.gen = self.go()
        for k, name in (("r", f"/sim/in{i}.blf"), ("w", f"/sim/out{i}.blf")):
            if spec.get(k + "f"):
                w.file_faults[name, k] = {f["n"]: f for f in spec[k + "f"]}

    def out(self, what, e=None, extra=None):
        self.hist.append((what, "ok" if e is None else f"{type(e).__name__}: {e}", extra))

    def go(self):
        s = self.spec
        k = s["a"]
        rd = wr = None
        if k != "writer":
            data, parts = foreign.compose(s["log"])
            if s["damage"]:
                at = 144 + s["at"] % max(1, len(data) - 144)
                if s["damage"] == 1:
                    data = data[:at]
                elif s["log"]["level"] and at < len(data):
                    data = data[:at] + bytes([data[at] ^ 0x55]) + data[at + 1 :]
            rd, e = attempt(boot.BlfReader, source(self.w, s["source"], data, f"/sim/in{self.i}.blf"))
            self.out("ropen", e, rd and objs.snapshot(rd.file_statistics))
            yield
            if e is not None:
                return
        if k != "reader":
            self.t = Target(self.w, s["target"], f"/sim/out{self.i}.blf")
            wr, e = attempt(boot.BlfWriter, self.t.arg, s["level"], s["bufsize"])
            self.out("wopen", e)
            yield
            if e is not None:
                return
        if k == "writer":
            for op in s["ops"]:
                if op["op"] == "write":
                    o = objs.build(op["rec"])
                elif op["op"] == "shared":
                    if op["i"] >= len(self.shared):
                        continue
                    o = self.shared[op["i"]]
                else:
                    o = objs.build(objs.simple_record(9))
                    o.header.base.object_size = 47
                before = objs.snapshot(o)
                _, e = attempt(wr.write, o)
                self.out("write", e)
                if e is not None and s.get("wf") and is_injected(e):
                    yield
                    _, e = attempt(wr.write, o)
                    self.out("write again", e)
                if objs.snapshot(o) != before:
                    self.out("write changed the object")
                yield
        else:
            while True:
                o, e = attempt(rd.read_object)
                self.out("read", e, None if o is None else objs.snapshot(o))
                yield
                if e is not None or o is None:
                    break
                if s.get("edit"):  # the caller may change what it has been given
                    o.header.base.header_version = (o.header.base.header_version + 1) % 4
                    if hasattr(o.header, "object_version"):
                        o.header.object_version = 7
                self.delivered.append((o, objs.snapshot(o)))
                if wr is not None:
                    _, e = attempt(wr.write, o)
                    self.out("write", e)
                    yield
            _, e = attempt(rd.__exit__, None, None, None)
            self.out("rexit", e)
            yield
        if wr is not None and s["end"] != "none":
            _, e = attempt(wr.close) if s["end"] == "close" else attempt(wr.__exit__, None, None, None)
            self.out("close", e)
            yield
            for _ in range(3):
                if e is None or not is_injected(e):
                    break
                _, e = attempt(wr.close)
                self.out("close again", e)
                yield
        self.rd, self.wr = rd, wr

    def result(self):
        changed = [objs.label(o) for o, snap in self.delivered if objs.snapshot(o) != snap]
        stats = objs.snapshot(self.rd.file_statistics) if getattr(self, "rd", None) is not None else None
        return self.hist, self.t.data() if self.t is not None else None, changed, stats


class Baton:
    """Runs actor threads one at a time; the schedule decides who and for how long."""

    def __init__(self, sched, grain, focus=None):
        self.focus = focus
        self.sched = sched
        self.k = 0
        self.opcodes = grain == "opcode"
        self.left = 1
        self.locks = []
        self.alive = []
        self.done = threading.Lock()
        self.done.acquire()
        self.lines = 0
        self.switches = 0
        self.error = None
        self.free = False
        self.trace = []

    def run(self, bodies):
        threads = []
        for i, b in enumerate(bodies):
            lk = threading.Lock()
            lk.acquire()
            self.locks.append(lk)
            self.alive.append(i)
            t = threading.Thread(target=self.main, args=(i, b), daemon=True)
            threads.append(t)
        for t in threads:
            t.start()
        self.hand_over(None)
        ok = self.done.acquire(timeout=60)
        if not ok:
            self.free = True
            for lk in self.locks:
                if lk.locked():
                    lk.release()
        else:
            for t in threads:
                t.join()
        return ok

    def main(self, i, body):
        self.locks[i].acquire()
        sys.settrace(self.glob)
        try:
            body()
        except BaseException as e:  # noqa: BLE001
            if self.error is None:
                self.error = e
        finally:
            sys.settrace(None)
            self.alive.remove(i)
            if not self.free:
                self.hand_over(None)

    def pick(self):
        if self.k < len(self.sched):
            q, c = (self.sched[self.k] + [1, 0])[:2]  # a shrunk schedule may lack them
            self.k += 1
            self.left = q
        else:
            c, self.left = 0, 1 << 60
        return self.alive[c % len(self.alive)]

    def hand_over(self, me):
        """Give the baton to the next actor of the schedule."""
        if not self.alive:
            self.done.release()
            return
        nxt = self.pick()
        if nxt == me:
            return
        self.switches += 1
        self.trace.append(nxt)
        self.locks[nxt].release()
        if me is not None:
            self.locks[me].acquire()

    def tick(self, frame):
        if self.free:
            return
        self.lines += 1
        if self.lines > MAX_LINES:
            raise SimAbort(f"more than {MAX_LINES} steps")
        self.left -= 1
        if self.left <= 0:
            self.hand_over(self.me())

    def me(self):
        return self.current[threading.get_ident()]

    def local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.tick(frame)
        return self.local

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(boot.VBLF_DIR) and (self.focus is None or where(frame) in self.focus):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self.local
        return None


def together(case, res, w, focus=None):
    shared = [objs.build(x) for x in case["shared"]]
    before = [objs.snapshot(o) for o in shared]
    actors = [Actor(i, s, w, shared) for i, s in enumerate(case["actors"])]
    if case["cfg"]["mode"] == "coop":
        alive = list(actors)
        k = 0
        while alive:
            c = case["sched"][k][1] if k < len(case["sched"]) else 0
            k += 1
            a = alive[c % len(alive)]
            res.note(f"run{a.i}")
            w.clock.current = a.i
            try:
                next(a.gen)
            except StopIteration:
                alive.remove(a)
    else:
        b = Baton(case["sched"], case["cfg"]["grain"], focus)
        b.current = w.clock.threads = {}

        def body(a):
            def f():
                b.current[threading.get_ident()] = a.i
                for _ in a.gen:
                    pass
            return f

        ok = b.run([body(a) for a in actors])
        if not ok:
            return None
        if b.error is not None:
            raise b.error
        res.note("".join(map(str, b.trace)))
        res.probe("preemptions", b.switches)
        if b.switches > len(actors):
            res.nontrivial = True
    for o, snap in zip(shared, before):
        if objs.snapshot(o) != snap:
            res.fail("shared-changed", f"writing a shared object changed it: {objs.label(o)}")
    return [a.result() for a in actors]


def solo(case, res, i, calls=None):
    w1 = res.world(case)
    w1.clock = Clocks(case, i)
    a = Actor(i, case["actors"][i], w1, [objs.build(x) for x in case["shared"]])
    with calls or contextlib.nullcontext():
        for _ in a.gen:
            pass
    return a.result()


def run(case, res):
    picks = case["cfg"].get("focus")
    alone = focus = None
    n = len(case["actors"])
    if picks:  # solo runs first: they tell which functions there are
        calls = [Calls() for _ in range(n)]
        alone = [solo(case, res, i, c) for i, c in enumerate(calls)]
        users = Counter(f for c in calls for f in c.seen)
        cands = sorted(f for f, k in users.items() if k > 1) or sorted(users)
        focus = {cands[k % len(cands)] for k in picks} if cands else None
        res.probe("preemption focused on a function")
    w = res.world(case)
    w.clock = Clocks(case)
    both = together(case, res, w, focus)
    if both is None:
        res.probe("a thread blocked on a lock of the library: no verdict")
        res.dirty = True
        return
    if case["cfg"]["mode"] == "coop":
        res.nontrivial = n > 1
    if alone is None:
        alone = [solo(case, res, i) for i in range(n)]
    for i, s in enumerate(case["actors"]):
        compare(res, f"actor {i} ({s['a']})", both[i], alone[i])
        res.note("actor", s["a"], "same", len(alone[i][0]))


def compare(res, what, both, alone):
    for (x, y) in zip(both[0], alone[0]):
        if x[:2] != y[:2]:
            res.fail("outcome", f"{what}: {x[0]} {x[1][:120]}, alone {y[0]} {y[1][:120]}")
        if x[2] != y[2]:
            res.fail("objects", f"{what}: {x[0]} delivers another object than alone: {str(x[2])[:150]} instead of {str(y[2])[:150]}")
    if len(both[0]) != len(alone[0]):
        res.fail("outcome", f"{what}: {len(both[0])} results, alone {len(alone[0])}")
    if both[1] != alone[1]:
        res.fail("log", f"{what}: writes a different log than alone")
    if both[2]:
        res.fail("changed-later", f"{what}: delivered object changed afterwards: {both[2][0]}")
    if both[3] != alone[3]:
        res.fail("statistics", f"{what}: reader statistics differ from those alone")
