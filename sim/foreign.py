"""Logs as another tool would write them: free segmentation, padding, headers (no vblf code)."""

from . import hints, ref
from .common import gen_recs

STATS0 = {"statistics_size": 144, "api_number": 4070000, "application_id": 2, "application_major": 1,
          "application_minor": 2, "file_size": 0, "uncompressed_file_size": 0, "object_count": 0,
          "application_build": 3, "start": [2024, 2, 3, 1, 2, 3, 4, 5], "last": [2024, 2, 3, 1, 2, 3, 5, 6],
          "restore": 0, "reserved": bytes(64)}


def gen_pad(r, hi=12):
    x = r.random()
    n = hints.near(r, 1, max(hi, 1000), 0.1) or r.randint(1, hi)
    if x < 0.5:
        return bytes(n)
    if x < 0.6:
        return b"LOB"[: min(n, 3)]
    if x < 0.7:
        return (b"LOBLO" * n)[:n]
    return r.randbytes(n).replace(b"J", b"K")


def gen_size(r, bits, size):
    """A size or count in a file header: of the right magnitude (perhaps stale, as in logs never finished), or anything."""
    v = hints.near(r, 0, 2**bits - 1, 0.2)
    if v is not None:
        return v
    x = r.random()
    if x < 0.5:
        return r.choice([0, 1, 143, 144, 145, size, size // 2, 144 + size, r.randint(0, size + 300), r.randint(144, size + 144)])
    return r.randrange(2**bits) if x < 0.8 else r.choice([2**bits - 1, 2 ** (bits - 1), 2**31, 2**32 - 1])


def gen_log(r, n=None, big=0, top=True, kinds=None, weird_stats=True, style=None):
    if n is None:
        n = hints.near(r, 0, 400, 0.15) or r.choice([0, 1, 2, 3, 5, 8, 15, 30])
    items = []
    align = r.choice([0, 4, 8, 8, -1])
    for rec in gen_recs(r, n, kinds, big):
        it = {"rec": rec}
        if align > 0:
            it["gap"] = bytes(-len(ref.encode(rec)) % align)
        elif align < 0 and r.random() < 0.5:
            it["gap"] = gen_pad(r)
        if top and r.random() < 0.06:
            it["top"] = 1
        items.append(it)
    size = sum(len(ref.encode(i["rec"])) + len(i.get("gap", b"")) for i in items) or 1
    x = r.random()
    if x < 0.15:
        cuts = []
    elif x < 0.3:
        step = hints.near(r, 1, 10**6, 0.3) or r.choice([1, 3, 8, 16, 40, 100])
        step = max(step, size // 400)
        cuts = list(range(step, size, step))
    else:
        cuts = sorted(r.randint(0, size) for _ in range(r.randint(1, max(1, min(20, size // 16)))))
    level = 0 if r.random() < 0.4 else r.choice([1, 2, 6, 9, 9, 10, 255])
    hi = 12 if r.random() < 0.85 else r.choice([40, 100, 300])
    log = {"items": items, "cuts": cuts, "level": level, "zl": r.choice([1, 6, 9, 0]),
           "style": r.choice([0, 0, 1]) if style is None else style,
           "pads": [gen_pad(r, hi) if r.random() < 0.7 else b"" for _ in range(r.choice([0, 0, 1, 2, 4]))],
           "stats": {}}
    if r.random() < 0.15:  # container headers of another make
        o = log["odd"] = {"hv": r.choice([1, 1, 0, 2, 3])}
        if log["style"]:
            o.update(hs=r.choice([32, 32, 16, 40]), flags=r.choice([1, 2, 0, 2**32 - 1]), ci=r.choice([0, 1, 65535]),
                     ov=r.choice([0, 1]), ts=r.choice([0, 2**64 - 1, 2**63]))
    if items and r.random() < 0.03:  # a long stretch without anything in it
        r.choice(items)["gap"] = gen_pad(r, 3000)
    if r.random() < 0.04:
        log["lead"] = gen_pad(r, r.choice([12, 12, 3000]))
    if weird_stats and r.random() < 0.5:
        s = log["stats"]
        for k, v in (("application_id", r.randrange(256)), ("api_number", r.randrange(2**32)),
                     ("file_size", gen_size(r, 64, size)), ("uncompressed_file_size", gen_size(r, 64, size)),
                     ("object_count", gen_size(r, 32, n)), ("application_major", r.randrange(256)),
                     ("application_minor", r.randrange(256)), ("application_build", r.randrange(2**32)),
                     ("statistics_size", r.choice([144, 144, 208])), ("start", [0] * 8), ("last", [0] * 8),
                     ("last", [r.randrange(65536) for _ in range(8)]),
                     ("restore", r.randrange(2**64)), ("reserved", (b"LOBJ" * 16))):
            if r.random() < 0.3:
                s[k] = v
    return log


def records(log):
    return [i["rec"] for i in log["items"]]


def compose(log):
    """-> (file bytes, parts): parts is a list of (start, end, number of records complete by its end)."""
    s = dict(STATS0, compression_level=log["level"], **log["stats"])
    out = bytearray(ref.stats_bytes(s)) + log.get("lead", b"")
    # stream runs between top-level objects
    cuts = sorted(log["cuts"])
    pads = log["pads"]
    npad = 0
    parts = []
    pos = 0  # position in the object stream
    run = bytearray()
    ends = []  # (stream position where an object of this run ends, object number)
    number = 0

    def pad():
        nonlocal npad
        if pads:
            out.extend(pads[npad % len(pads)])
            npad += 1

    def flush():
        nonlocal run, ends
        if run:
            lo = pos - len(run)
            marks = [c - lo for c in cuts if lo < c < pos]
            a = k = 0
            done = None
            for b in marks + [len(run)]:
                c = ref.container(bytes(run[a:b]), log["zl"] if log["level"] else 0, log["style"], ts=len(parts),
                                  odd=log.get("odd"), stored=bool(log["level"]))
                while k < len(ends) and ends[k][0] - lo <= b:
                    done = ends[k][1]
                    k += 1
                parts.append((len(out), len(out) + len(c), done))
                out.extend(c)
                pad()
                a = b
        run = bytearray()
        ends = []

    for it in log["items"]:
        b = ref.encode(it["rec"])
        number += 1
        if it.get("top"):
            flush()
            parts.append((len(out), len(out) + len(b), number))
            out.extend(b)
            pad()
            continue
        run += b
        pos += len(b)
        ends.append((pos, number))
        g = it.get("gap", b"")
        run += g
        pos += len(g)
    flush()
    # forward fill the number of complete records
    last = 0
    fixed = []
    for a, b, n in parts:
        last = last if n is None else n
        fixed.append((a, b, last))
    return bytes(out), fixed
