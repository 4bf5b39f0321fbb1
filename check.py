#!/usr/bin/env python3
"""Deterministic-simulation checks for vblf.

  check.py --property C01        seeded search (VERIF_SEED, VERIF_TIER=quick|thorough)
  check.py --replay FILE         run one recorded case again
  check.py --audit [N]           determinism audit of all properties

Exit 0: held on everything explored; 1: "VIOLATION property=<id> replay=<path>"; 2: harness error.
"""

import argparse
import gc
import json
import mmap
import os
import pickle
import random
import select
import signal
import struct
import subprocess
import sys
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")

REAL_TIME = time.monotonic

from sim import boot, case as caselib, engine, hints, ref, world  # noqa: E402

WALL = {"quick": 500.0, "thorough": 800.0}
MINIMISE_WALL = float(os.environ.get("VERIF_MINIMISE", "90"))


def say(*a):
    print(*a, flush=True)


def make_case(mod, prop, seed, i, tier):
    r = random.Random(f"{seed}:{prop}:{i}")
    r.index = i
    was = gc.isenabled()
    gc.disable()  # trial runs while faults are placed must not depend on when files are finalised
    try:
        return caselib.normalise(hints.tame(mod.gen(r, tier), ref))
    finally:
        if was:
            gc.enable()


# ------------------------------------------------------------------ isolated runs


def isolated(mod, cases, wall=120.0):
    """Run cases one after another in a fresh fork; outcome of the last one."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            engine.limit_memory()
            for c in cases[:-1]:
                try:
                    engine.execute(mod, c)
                except engine.HarnessError:
                    pass
            try:
                res = engine.execute(mod, cases[-1])
                out = summary(res)
            except engine.HarnessError as e:
                out = {"harness": str(e)}
            blob = pickle.dumps(out)
            with os.fdopen(wfd, "wb") as f:
                f.write(blob)
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    buf = b""
    end = REAL_TIME() + wall
    try:
        while True:
            left = end - REAL_TIME()
            if left <= 0 or not select.select([rfd], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return {"violation": ("hang", f"no end within {wall:.0f} s"), "digest": "hang", "shape": "hang",
                        "nontrivial": True}
            b = os.read(rfd, 1 << 16)
            if not b:
                break
            buf += b
    finally:
        os.close(rfd)
    _, st = os.waitpid(pid, 0)
    if not buf:
        return {"violation": ("crash", f"the process died (status {st})"), "digest": "crash", "shape": "crash",
                "nontrivial": True}
    return pickle.loads(buf)


BATCH = 20  # cases per forked process of properties that ask for isolation


class Batch:
    """Runs cases of one worker in forked processes of its own, up to BATCH in each."""

    def __init__(self, mod, prop, seed, tier):
        self.args = mod, prop, seed, tier
        self.pid = self.fd = None
        self.n = 0

    def run(self, i, again, wall=120.0):
        if self.pid is None:
            self.start()
        self.n += 1
        os.write(self.cmd, struct.pack("<qq", i, again))
        buf = b""
        end = REAL_TIME() + wall
        need = 8
        while len(buf) < need:
            left = end - REAL_TIME()
            if left <= 0 or not select.select([self.fd], [], [], left)[0]:
                self.stop(True)
                return {"violation": ("hang", f"no end within {wall:.0f} s"), "digest": "hang", "shape": "hang",
                        "nontrivial": True}
            b = os.read(self.fd, need - len(buf))
            if not b:
                st = self.stop()
                return {"violation": ("crash", f"the process died (status {st})"), "digest": "crash", "shape": "crash",
                        "nontrivial": True}
            buf += b
            if need == 8 and len(buf) == 8:
                need = 8 + struct.unpack("<q", buf)[0]
        s = pickle.loads(buf[8:])
        if self.n >= BATCH or s.get("dirty") or "harness" in s:
            self.stop()
        return s

    def start(self):
        crd, self.cmd = os.pipe()
        self.fd, wfd = os.pipe()
        self.n = 0
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.cmd)
                os.close(self.fd)
                self.child(crd, wfd)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(crd)
        os.close(wfd)

    def child(self, crd, wfd):
        engine.limit_memory()
        mod, prop, seed, tier = self.args
        with os.fdopen(crd, "rb") as cmd, os.fdopen(wfd, "wb") as out:
            while b := cmd.read(16):
                i, again = struct.unpack("<qq", b)
                c = make_case(mod, prop, seed, i, tier)
                try:
                    res = engine.execute(mod, c)
                    s = dict(summary(res), dirty=res.dirty)
                    if again and not res.dirty and s["violation"] is None:
                        s["again"] = engine.execute(mod, c).digest == s["digest"]
                except engine.HarnessError as e:
                    s = {"harness": str(e)}
                blob = pickle.dumps(s)
                out.write(struct.pack("<q", len(blob)) + blob)
                out.flush()

    def stop(self, kill=False):
        if self.pid is None:
            return None
        if kill:
            os.kill(self.pid, signal.SIGKILL)
        os.close(self.cmd)
        os.close(self.fd)
        _, st = os.waitpid(self.pid, 0)
        self.pid = None
        return st


def summary(res):
    return {"violation": res.violation, "digest": res.digest, "shape": res.shape, "nontrivial": res.nontrivial,
            "probes": dict(res.probes), "fired": dict(res.fired), "counts": dict(res.counts),
            "covered": res.covered, "clock": dict(res.clock_events), "steps": sum(w.steps for w in res.worlds)}


# ------------------------------------------------------------------ known findings


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:"):
                    d = json.loads(line[8:])
                    if d["property"] == prop:
                        out.append(d)
    except FileNotFoundError:
        pass
    return out


def is_known(known, violation):
    for d in known:
        if d["class"] == violation[0] and d["contains"] in violation[1]:
            return d
    return None


# ------------------------------------------------------------------ search


def add(total, probes):
    for k, v in probes.items():
        total[k] = max(total[k], v) if k.startswith("most ") else total[k] + v


class Agg:
    def __init__(self):
        self.n = 0
        self.shapes = set()
        self.nontrivial_shapes = set()
        self.nontrivial = 0
        self.probes = Counter()
        self.fired = Counter()
        self.counts = Counter()
        self.clock = Counter()
        self.covered = 0.0
        self.steps = 0
        self.reruns = 0
        self.mismatch = 0
        self.known = Counter()
        self.stopped = False

    def add(self, s):
        self.n += 1
        self.shapes.add(s["shape"])
        if s["nontrivial"]:
            self.nontrivial += 1
            self.nontrivial_shapes.add(s["shape"])
        add(self.probes, s.get("probes", {}))
        self.fired.update(s.get("fired", {}))
        self.counts.update(s.get("counts", {}))
        self.clock.update(s.get("clock", {}))
        self.covered += s.get("covered", 0.0)
        self.steps += s.get("steps", 0)

    def merge(self, o):
        for k in ("n", "nontrivial", "covered", "reruns", "mismatch", "steps"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.shapes |= o.shapes
        self.nontrivial_shapes |= o.nontrivial_shapes
        add(self.probes, o.probes)
        for k in ("fired", "counts", "clock", "known"):
            getattr(self, k).update(getattr(o, k))
        self.stopped |= o.stopped


def worker(mod, prop, seed, tier, wid, nw, total, shared, wfd, deadline, iso, known):
    agg = Agg()
    out = {"violation": None, "error": None}
    if not iso:
        engine.limit_memory()
    batch = Batch(mod, prop, seed, tier)
    i = wid
    try:
        while i < total:
            low = struct.unpack("<q", shared[:8])[0]
            if i > low:
                break
            if REAL_TIME() > deadline:
                agg.stopped = True
                break
            if iso:
                s = batch.run(i, i % 41 == 0)
            else:
                c = make_case(mod, prop, seed, i, tier)
                s = summary(engine.execute(mod, c))
            if "harness" in s:
                raise engine.HarnessError(s["harness"])
            agg.add(s)
            v = s["violation"]
            if v is not None:
                d = is_known(known, v)
                if d is not None:
                    agg.known[d["what"]] += 1
                else:
                    out["violation"] = (i, v, s["digest"])
                    low = struct.unpack("<q", shared[:8])[0]
                    if i < low:
                        shared[:8] = struct.pack("<q", i)
                    break
            elif i % 41 == 0:
                same = s.get("again") if iso else engine.execute(mod, c).digest == s["digest"]
                if same is not None:
                    agg.reruns += 1
                    agg.mismatch += not same
            i += nw
        batch.stop()
    except BaseException:  # noqa: BLE001
        out["error"] = f"case {i}:\n" + traceback.format_exc()
    out["agg"] = agg
    blob = pickle.dumps(out)
    with os.fdopen(wfd, "wb") as f:
        f.write(blob)


def search(mod, prop, seed, tier, nw, iso):
    total = mod.QUICK if tier == "quick" else mod.THOROUGH
    if os.environ.get("VERIF_CASES"):
        total = int(os.environ["VERIF_CASES"])
    start = REAL_TIME()
    deadline = start + WALL[tier]
    shared = mmap.mmap(-1, 8)
    shared[:8] = struct.pack("<q", 1 << 60)
    known = known_findings(prop)
    procs = {}
    for wid in range(nw):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rfd)
                worker(mod, prop, seed, tier, wid, nw, total, shared, wfd, deadline, iso, known)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wfd)
        procs[rfd] = [pid, b""]
    agg, viol, errors = Agg(), [], []
    hard = deadline + 120
    while procs:
        left = hard - REAL_TIME()
        ready = select.select(list(procs), [], [], max(0.1, left))[0]
        if not ready and REAL_TIME() > hard:
            for fd, (pid, _) in procs.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                errors.append("a worker did not end in time")
            break
        for fd in ready:
            b = os.read(fd, 1 << 20)
            if b:
                procs[fd][1] += b
                continue
            pid, blob = procs.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            if not blob:
                errors.append("a worker died")
                continue
            o = pickle.loads(blob)
            agg.merge(o["agg"])
            if o["error"]:
                errors.append(o["error"])
            if o["violation"]:
                viol.append(o["violation"])
    return agg, sorted(viol), errors, REAL_TIME() - start, total


# ------------------------------------------------------------------ reporting a violation


def reduce_and_write(mod, prop, seed, tier, nw, index, violation):
    """Minimise, write the replay file -> path, final violation, or None if it does not reproduce."""
    t0 = REAL_TIME()
    case = make_case(mod, prop, seed, index, tier)
    cls = violation[0]
    prelude = []
    first = isolated(mod, [case])
    if not first.get("violation") or first["violation"][0] != cls:
        # depends on what ran before in the same process
        prelude = [make_case(mod, prop, seed, j, tier) for j in range(index % nw, index, nw)]
        first = isolated(mod, prelude + [case], 600)
        if not first.get("violation"):
            return None
        cls = first["violation"][0]
        n = len(prelude)
        while n >= 1 and REAL_TIME() - t0 < MINIMISE_WALL:  # drop halves, keep order
            i = 0
            while i < len(prelude) and REAL_TIME() - t0 < MINIMISE_WALL:
                cand = prelude[:i] + prelude[i + n :]
                o = isolated(mod, cand + [case], 300)
                if o.get("violation") and o["violation"][0] == cls:
                    prelude = cand
                else:
                    i += n
            n //= 2

    def same(c):
        if REAL_TIME() - t0 > MINIMISE_WALL:
            return False
        o = isolated(mod, prelude + [c], 60)
        return bool(o.get("violation")) and o["violation"][0] == cls

    tried = 0
    if cls not in ("hang",):
        case, tried = caselib.minimise(case, same, mod, 600)
    final = isolated(mod, prelude + [case])
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{prop}-{seed}-{index}.json")
    doc = {"property": prop, "seed": seed, "tier": tier, "index": index, "class": final["violation"][0],
           "message": final["violation"][1], "digest": final["digest"], "minimise_attempts": tried,
           "prelude": prelude, "case": case}
    with open(path, "w") as f:
        f.write(caselib.dumps(doc, indent=1))
        f.write("\n")
    return path, final["violation"]


def replay(path, quiet=False):
    with open(path) as f:
        doc = caselib.loads(f.read())
    mod = engine.load(doc["property"])
    out = isolated(mod, doc.get("prelude", []) + [doc["case"]])
    if "harness" in out:
        say(out["harness"])
        return 2
    v = out["violation"]
    if v is None:
        say(f"replay {path}: no violation (recorded: {doc['class']})")
        return 0
    exact = out["digest"] == doc["digest"] and v[0] == doc["class"]
    say(f"{v[0]}: {v[1]}")
    say(f"replay {'identical to' if exact else 'differs from'} the recorded run (digest {out['digest']})")
    say(f"VIOLATION property={doc['property']} replay={path}")
    return 1


# ------------------------------------------------------------------ evidence

RULE = ("each case is drawn from random.Random('<seed>:<property>:<index>'): configuration, objects, operations, "
        "schedule and faults, run to its end in the simulator. Non-trivial: {nt}. Two runs count as distinct if their "
        "histories (sequence of operations, raw I/O events, faults and outcomes, without sizes and values) differ.")
NONTRIVIAL = {
    "C01": "at least one object was written and read back",
    "C02": "at least one write or close failed on an injected fault",
    "C03": "at least one crash point left a file with a complete header behind",
    "C04": "at least two containers had been flushed at one of the crash points",
    "C05": "at least one object was accepted and the log was closed normally",
    "C06": "at least one object was refused",
    "C07": "the clock jumped at least once",
    "C08": "the log has at least two objects, and a delivery was cut short or the caller mixed ways of reading",
    "C09": "the log has at least two containers or top-level objects",
    "C10": "a fault or damage took effect, or the cut lost objects, or the file was no log",
    "C11": "at least one object was copied",
    "C12": "more context switches than actors (threads), or at least two actors (coroutines)",
    "C13": "a reader got at least one object of the growing log",
    "C14": "a with-block, close, rejected file or rejected setting was exercised",
    "C15": "a damaged file was read",
    "C16": "the writer recovered after at least one failure with its stream still open",
    "C21": "at least one object was written, or a log opened, under measurement",
    "C22": "many objects, or many logs, were handled with memory counted",
    "C23": "at least one object was written, and overwritten or kept",
    "C24": "the process was looked at around every call of a history",
}


def write_evidence(mod, prop, seed, tier, agg, wall, total, nw, violations):
    samples = []
    for i in range(60):
        c = make_case(mod, prop, seed, i, tier)
        s = caselib.dumps(c)
        if 40 < len(s) < 2500:
            samples.append({"index": i, "case": json.loads(s)})
        if len(samples) >= 3:
            break
    if not samples:
        samples.append({"index": 0, "case_prefix": caselib.dumps(make_case(mod, prop, seed, 0, tier))[:3000]})
    faults = dict(sorted((agg.fired + agg.clock).items()))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2),
        "violations": violations,
        "coverage": {
            "evaluations": agg.n,
            "distinct_nontrivial": len(agg.nontrivial_shapes),
            "rule": RULE.format(nt=NONTRIVIAL[prop]),
            "samples": samples,
            "nontrivial_runs": agg.nontrivial,
            "distinct_histories": len(agg.shapes),
            "planned_runs": total,
            "stopped_by_time_limit": agg.stopped,
            "workers": nw,
            "runs_per_hour": int(agg.n / max(wall, 1e-9) * 3600),
            "seeds_per_hour": int(agg.n / max(wall, 1e-9) * 3600),
            "simulated_seconds": round(agg.covered, 3),
            "simulator_steps": agg.steps,
            "faults_injected": faults,
            "io_events": dict(sorted(agg.counts.items())),
            "probes": dict(sorted(agg.probes.items())),
            "determinism_reruns": agg.reruns,
            "determinism_mismatches": agg.mismatch,
            "components": mod.COMPONENTS,
            "interleaving_measure": "hash of the recorded history without sizes and values"
                                    + (", with the sequence of threads run" if prop == "C12" else ""),
        },
        "assumptions": ["raw writes reach the medium in the order they were issued (no reordering at power loss)",
                        "sampling: a clean batch is evidence, not proof"],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", f"{prop}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)


# ------------------------------------------------------------------ main


def run_property(prop, tier, seed, nw):
    mod = engine.load(prop)
    say(f"property {prop}, tier {tier}, VERIF_SEED {seed}, {nw} workers")
    iso = getattr(mod, "ISOLATE", False)
    agg, viol, errors, wall, total = search(mod, prop, seed, tier, nw, iso)
    found = None
    if viol:
        i, v, _ = viol[0]
        say(f"case {i}: {v[0]}: {v[1]}")
        found = reduce_and_write(mod, prop, seed, tier, nw, i, v)
        if found is None:
            errors.append(f"violation of case {i} does not reproduce: {v}")
    for what, n in sorted(agg.known.items()):
        say(f"KNOWN-FINDING: property={prop} {what}")
    write_evidence(mod, prop, seed, tier, agg, wall, total, nw, len(viol))
    say(f"{agg.n} runs, {len(agg.nontrivial_shapes)} distinct non-trivial, {wall:.1f} s, "
        f"determinism re-runs {agg.reruns} ({agg.mismatch} differ)")
    if found is not None:
        path, v = found
        say(f"minimised: {v[0]}: {v[1]}")
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "--replay", path], stdout=subprocess.PIPE,
                           text=True, timeout=300)
        for line in p.stdout.splitlines():
            if line.startswith("replay "):
                say(line)
        say(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for e in errors[:3]:
            say("harness error:", e)
        return 2
    say(f"OK property={prop}")
    return 0


def audit(n, props):
    """Digests of n cases per property, for comparison between processes."""
    bad = 0
    for prop in props:
        mod = engine.load(prop)
        out = []
        for i in range(n):
            c = make_case(mod, prop, 77, i, "quick")
            out.append(isolated(mod, [c])["digest"] if getattr(mod, "ISOLATE", False) else engine.execute(mod, c).digest)
        say(prop, " ".join(out))
    return bad


def digests():
    """Outcomes of the cases given on standard input: [[property, case], ...]."""
    engine.limit_memory()
    out = []
    for prop, c in caselib.loads(sys.stdin.read()):
        try:
            r = engine.execute(engine.load(prop), c)
            out.append([r.digest, r.violation[0] if r.violation else None])
        except engine.HarnessError as e:
            out.append(["harness", str(e)])
    say(json.dumps(out))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--replay")
    ap.add_argument("--audit", type=int)
    ap.add_argument("--only")
    ap.add_argument("--digests", action="store_true")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in WALL:
        tier = "quick"
    if a.replay:
        return replay(a.replay)
    if a.digests:
        return digests()
    if a.audit:
        return audit(a.audit, a.only.split(",") if a.only else engine.PROPS)
    if a.property not in engine.PROPS:
        ap.error("unknown property")
    return run_property(a.property, tier, seed, a.workers)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
