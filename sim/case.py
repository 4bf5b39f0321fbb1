"""Cases: JSON-able descriptions of one simulated run, and their minimisation."""

import copy
import json


def dumps(case, **kw):
    def enc(o):
        if isinstance(o, (bytes, bytearray)):
            return {"~": bytes(o).hex()}
        raise TypeError(type(o))

    return json.dumps(case, default=enc, **kw)


def _hook(d):
    if len(d) == 1 and "~" in d:
        return bytes.fromhex(d["~"])
    return d


def loads(s):
    return json.loads(s, object_hook=_hook)


def normalise(case):
    return loads(dumps(case))


# ------------------------------------------------------------------ shrinking


def get(case, path):
    for p in path:
        case = case[p]
    return case


def put(case, path, value):
    c = copy.deepcopy(case)
    d = c
    for p in path[:-1]:
        d = d[p]
    d[path[-1]] = value
    return c


def list_paths(node, path=()):
    """Paths of every list of steps in a case (longest first is decided by the caller)."""
    out = []
    if isinstance(node, dict):
        for k in sorted(node):
            if k in ("f", "h"):  # inside a record
                continue
            out += list_paths(node[k], path + (k,))
    elif isinstance(node, list):
        if node and all(isinstance(x, (dict, list, int)) for x in node):
            out.append(path)
        for i, x in enumerate(node):
            if isinstance(x, (dict, list)):
                out += list_paths(x, path + (i,))
    return out


def rec_paths(node, path=()):
    out = []
    if isinstance(node, dict):
        if "k" in node and "t" in node and isinstance(node["k"], str):
            return [path]
        for k in sorted(node):
            out += rec_paths(node[k], path + (k,))
    elif isinstance(node, list):
        for i, x in enumerate(node):
            out += rec_paths(x, path + (i,))
    return out


def minimise(case, same, mod, budget):
    """Greedy delta debugging; `same(case)` -> still the same violation."""
    from . import objs

    left = [budget]

    def ok(c):
        if left[0] <= 0:
            return False
        left[0] -= 1
        try:
            return same(c)
        except KeyError:
            return False

    keep = set(getattr(mod, "KEEP", ()))
    changed = True
    rounds = 0
    while changed and left[0] > 0 and rounds < 4:
        changed = False
        rounds += 1
        # 1. drop steps, faults, schedule entries
        for path in sorted(list_paths(case), key=lambda p: (len(p), str(p))):
            if set(path) & keep:
                continue
            try:
                lst = get(case, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            size = max(1, len(lst) // 2)
            while size >= 1 and left[0] > 0:
                i = 0
                while i < len(lst) and left[0] > 0:
                    cand = put(case, path, lst[:i] + lst[i + size :])
                    if ok(cand):
                        case = cand
                        lst = get(case, path)
                        changed = True
                    else:
                        i += size
                size //= 2
        # 2. simpler configuration
        for path, values in getattr(mod, "SIMPLE", {}).items():
            path = tuple(path.split("."))
            for v in values:
                try:
                    if get(case, path) == v:
                        break
                except (KeyError, TypeError):
                    break
                cand = put(case, path, v)
                if ok(cand):
                    case = cand
                    changed = True
                    break
        # 3. simpler objects
        for path in rec_paths(case):
            try:
                rec = get(case, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not path:
                continue
            simple = objs.simple_record(rec.get("h", {}).get("ts", 1))
            if rec != simple and ok(put(case, path, simple)):
                case = put(case, path, simple)
                changed = True
                continue
            if "how" in rec:
                cand = {k: v for k, v in rec.items() if k != "how"}
                if ok(put(case, path, cand)):
                    case = put(case, path, cand)
                    changed = True
    return case, budget - left[0]
