"""Numbers, byte strings and object types the code under test mentions, but did not when hints.json was made.

A change of the code is mostly about such values: thresholds, sizes, counts, one type of object. The generators draw
them (and their neighbours) more often than others. On the tree the checks were written for there are none, so nothing
changes there; elsewhere they change which inputs are tried, never what is asked of the outcome.

usage: python -m sim.hints > sim/hints.json     VBLF_HINTS=3,100 for a try
"""

import ast
import builtins
import collections
import json
import os
import pathlib

from .world import OTHER_ERRORS

HERE = pathlib.Path(__file__).parent
NAMES = {"ObjType", "ObjFlags", "Compression", "errno", "zlib", "struct"}


def fold(n):
    """The value of a constant expression."""
    if isinstance(n, ast.Constant):
        return n.value if isinstance(n.value, (int, float, bytes)) and not isinstance(n.value, bool) else None
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v = fold(n.operand)
        return -v if isinstance(v, (int, float)) else None
    if isinstance(n, ast.BinOp):
        a, b = fold(n.left), fold(n.right)
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return None
        try:
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.Pow) and 0 <= b <= 64:
                return a**b
            if isinstance(n.op, ast.LShift) and 0 <= b <= 64:
                return a << b
            if isinstance(n.op, ast.BitOr):
                return a | b
        except (TypeError, OverflowError):
            pass
    return None


def mentioned(n, out):
    v = fold(n)
    if v is not None:
        if isinstance(v, bytes):
            if len(v) <= 64:
                out["b", v.hex()] += 1
        else:
            out["n", str(v)] += 1
        return
    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in NAMES:
        out["a", f"{n.value.id}.{n.attr}"] += 1
    elif isinstance(n, ast.Name):
        if n.id[:1].isupper() and not n.id.isupper():
            out["c", n.id] += 1
    elif isinstance(n, ast.Compare):
        for c in [n.left, *n.comparators]:
            if isinstance(c, ast.Constant) and isinstance(c.value, str) and len(c.value) <= 12:
                out["s", c.value] += 1
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("startswith", "endswith", "find", "index", "replace"):
        for c in n.args:
            if isinstance(c, ast.Constant) and isinstance(c.value, str) and len(c.value) <= 12:
                out["s", c.value] += 1
    for c in ast.iter_child_nodes(n):
        mentioned(c, out)


def collect(src):
    out = {}
    for p in sorted(pathlib.Path(src, "vblf").glob("*.py")):
        c = collections.Counter()
        try:
            mentioned(ast.parse(p.read_text()), c)
        except (SyntaxError, ValueError):
            continue
        out[p.name] = {" ".join(k): v for k, v in sorted(c.items())}
    return out


NUMBERS, INTS, BYTES, STRINGS, KINDS, RAW, ERRORS = ALL = [], [], [], [], [], [], []


class Without:
    """No hints meanwhile."""

    def __enter__(self):
        self.kept = [list(x) for x in ALL]
        for x in ALL:
            del x[:]

    def __exit__(self, *_):
        for x, y in zip(ALL, self.kept):
            x[:] = y


def tame(case, ref):
    """Keep a case with uncommonly many or large objects affordable: no tiny buffers and transfers with them."""
    if not any(ALL):
        return case
    size = 0
    settings = []
    todo = [case]
    while todo:
        x = todo.pop()
        if isinstance(x, list):
            todo.extend(y for y in x if isinstance(y, (dict, list)))
            continue
        if "k" in x and ("h" in x or "p" in x):
            size += len(ref.encode(x))
            continue
        size += len(x.get("gap", b""))
        if any(k in x for k in ("bufsize", "wcaps", "rcaps", "caps", "iobuf")):
            settings.append(x)
        todo.extend(y for y in x.values() if isinstance(y, (dict, list)))
    if size > 10_000:
        least = size // 100
        for x in settings:
            for k in ("bufsize", "iobuf"):
                if isinstance(x.get(k), int) and 0 < x[k] < least:
                    x[k] = least
            for k in ("wcaps", "rcaps", "caps"):
                if isinstance(x.get(k), list):
                    x[k] = [max(n, least) for n in x[k]]
    return case


def errors(name):
    """Faults which raise exceptions of that name."""
    c = getattr(builtins, name, None)
    if not isinstance(c, type) or not issubclass(c, Exception):
        return []
    return [k for k, v in OTHER_ERRORS.items() if (isinstance(OSError(v, ""), c) if isinstance(v, int) else issubclass(v, c))]


def load(src, ref):
    with open(HERE / "hints.json") as f:
        base = json.load(f)
    new = set()
    for name, c in collect(src).items():
        b = base.get(name, {})
        new |= {k for k, v in c.items() if v > b.get(k, 0)}
    new |= {f"n {x}" for x in os.environ.get("VBLF_HINTS", "").split(",") if x}
    kinds = {v: k for k, v in ref.CLS.items()}
    consts = None
    for k in sorted(new):
        what, _, v = k.partition(" ")
        if what == "n":
            v = abs(float(v) if "." in v or "e" in v or "n" in v else int(v))
            if v > 2 and v < 2**64:
                NUMBERS.append(v)
                if v == int(v):
                    INTS.append(int(v))
        elif what == "b":
            v = bytes.fromhex(v)
            if v.strip(b"\0"):
                BYTES.append(v)
        elif what == "s" and v:
            STRINGS.append(v)
        elif what == "c" and v in kinds:
            KINDS.append(kinds[v])
        elif what == "c":
            ERRORS.extend(errors(v))
        elif what == "a" and not v.startswith(("Obj", "Compression")):
            ERRORS.extend(n for n in (v, v.removeprefix("errno.")) if n in OTHER_ERRORS)
        elif what == "a":
            if consts is None:
                from vblf import constants as consts
            try:
                n = int(getattr(getattr(consts, v.split(".")[0]), v.split(".")[1]))
            except (AttributeError, TypeError, ValueError):
                continue
            if v.startswith("ObjType") and n != 10:
                known = [k for k, t in ref.TYPE.items() if n in t]
                KINDS.extend(known)
                if not known:
                    RAW.append(n)
    KINDS[:] = sorted(set(KINDS))
    ERRORS[:] = sorted(set(ERRORS))
    RAW.extend(n for n in INTS if n in ref.RAW_TYPES)


def near(r, lo, hi, p):
    """One of the numbers or a neighbour with probability p, None otherwise. Draws nothing if there are none."""
    if not INTS or r.random() >= p:
        return None
    v = r.choice(INTS)
    x = r.random()
    if x < 0.6:
        v += r.choice([0, 0, 0, 1, 1, -1])
    elif x < 0.75:
        v += r.choice([8, -8, 16, -16, 32, -32, 48, 2, 3, 4, 7])
    elif x < 0.85:
        v = v * r.choice([2, 3, 10]) + r.choice([0, 1])
    elif x < 0.9:
        v //= r.choice([2, 4, 8])
    return v if lo <= v <= hi else None


if __name__ == "__main__":
    import sys

    json.dump(collect(sys.argv[1] if len(sys.argv) > 1 else "/repo/src"), sys.stdout, indent=0, sort_keys=True)
    print()
