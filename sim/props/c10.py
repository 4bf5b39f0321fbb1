"""C10: read failures are reported, never papered over."""

from .. import boot, faulty, foreign, objs, ref
from ..common import *  # noqa: F403

QUICK, THOROUGH = 110000, 1700000
COMPONENTS = {"real": ["BlfReader", "object codecs", "zlib", "io.Buffered*"],
              "stub": ["disk/raw file handle", "zlib.decompress failure", "log file (reference encoder)"]}
SIMPLE = {"cfg.rcaps": [None], "cfg.iobuf": [8192], "cfg.source": ["path", "raw"], "log.style": [1], "log.pads": [[]],
          "log.stats": [{}]}
KEEP = ("clock",)


def gen(r, tier):
    mode = r.choice(["fault", "fault", "flip", "flip", "trunc", "cut", "cut", "notlog"])
    cfg = {"how": r.choice(["for", "read", "next"]), "source": r.choice(["path", "raw", "buf", "rnd", "duck"]), "rcaps": gen_caps(r, 0.4), "iobuf": gen_iobuf(r),
           "mode": mode}
    log = foreign.gen_log(r, n=r.choice([1, 2, 4, 8, 15, 25]), big=r.choice([0, 0, 500]))
    case = {"cfg": cfg, "log": log, "faults": []}
    data, parts = foreign.compose(log)
    if mode == "fault":
        w = World0(case, data, cfg)
        nr, nz = w
        if nz and r.random() < 0.25:
            case["faults"] = [{"on": "zd", "n": r.randrange(nz), "do": r.choice(["mem", "mem", "kbd"])}]
        else:
            n = r.randint(0, max(0, nr)) if r.random() < 0.7 else max(0, nr - r.randint(0, 4))
            case["faults"] = [{"on": "r", "n": n, "do": r.choice(["eio", "eio", "mem", "kbd"])}]
            if r.random() < 0.2:
                case["faults"].append({"on": "r", "n": n + r.randint(1, 3), "do": "eio"})
            for f in case["faults"]:
                faulty.vary(r, f, cfg["source"] in ("raw", "duck"))
    elif mode == "flip":
        if not log["level"]:
            log["level"] = r.choice([1, 6, 9])
        case["flips"] = [{"c": r.randint(0, 30), "at": r.choice([0, 1, 2, -1, -2, -5, r.randint(0, 10**6)]),
                          "bit": r.randrange(8)} for _ in range(r.choice([1, 1, 1, 2, 5]))]
    elif mode == "trunc":
        if not log["level"]:
            log["level"] = r.choice([1, 6, 9])
        case["trunc"] = {"c": r.randint(0, 30), "k": r.choice([1, 2, 4, 5, 6, 10, r.randint(1, 10**6), 10**9]),
                         "fill": r.choice([0, 0, 1])}
    elif mode == "cut":
        case["at"] = r.choice([r.randint(0, len(data)), r.randint(0, len(data)), r.randint(0, 150), len(data) - r.randint(0, 20)])
    else:
        x = r.random()
        junk = r.choice([b"", b"L", b"LOGG", b"LOBJ" + bytes(200), data[:r.randint(0, 143)], b"log text\n" * 40,
                         b"logg" + data[4:], b"\0" + data, data[1:], b"LOGH" + data[4:], data[144:], r.randbytes(300)])
        case["junk"] = junk
        cfg["source"] = r.choice(["path", "raw", "buf", "mem"])
    return case


def World0(case, data, cfg):
    """Number of raw reads and decompressions of an undisturbed reading."""
    from .. import engine

    res = engine.Result()
    w = res.world(dict(case, faults=[]))
    try:
        rd, e = attempt(boot.BlfReader, source(w, cfg["source"], data))
        if e is None:
            read_list(res, rd)
    finally:
        w.kill()
        boot.deactivate()
    return w.counts["r"], w.counts["zd"]


def complete(parts, upto):
    """Records lying in containers that end at or before `upto`."""
    return max([n for a, b, n in parts if b <= upto], default=0)


def run(case, res):
    cfg = case["cfg"]
    mode = cfg["mode"]
    w = res.world(case)
    res.note(mode)
    if mode == "notlog":
        junk = case["junk"]
        if junk[:4] == b"LOGG" and len(junk) >= 144:
            return
        _, e = attempt(boot.BlfReader, source(w, cfg["source"], junk))
        res.nontrivial = True
        if e is None:
            res.fail("accepted", f"{len(junk)} bytes that are no log are accepted")
        if not isinstance(e, ValueError):
            res.fail("wrong-error", f"{len(junk)} bytes that are no log are rejected with {ex(e)} instead of a ValueError")
        res.note("rejected")
        return
    log = case["log"]
    data, parts = foreign.compose(log)
    recs = foreign.records(log)
    if mode == "cut":
        at = min(case["at"], len(data))
        rd, e = attempt(boot.BlfReader, source(w, cfg["source"], data[:at]))
        if at < 144:
            if not isinstance(e, ValueError):
                res.fail("header-cut", f"a log cut off after {at} bytes is not rejected with a ValueError: {ex(e) if e else 'accepted'}")
            res.note("rejected")
            return
        if e is not None:
            res.fail("header-cut", f"a log cut off after {at} bytes is rejected: {ex(e)}")
        out, e = read_list(res, rd, how=cfg["how"])
        check_prefix(res, out, recs, "cut", f"log cut off after {at} of {len(data)} bytes")
        if e is not None:
            res.fail("cut:raises", f"log cut off after {at} of {len(data)} bytes: reading raises after {len(out)} objects: {ex(e)}")
        need = complete(parts, at)
        if len(out) < need:
            res.fail("cut:too-few", f"log cut off after {at} of {len(data)} bytes: {len(out)} objects delivered, "
                     f"{need} lie in complete containers")
        if len(out) < len(recs):
            res.nontrivial = True
            res.probe("cut inside the data")
        res.note("read", len(out))
        return
    if mode in ("flip", "trunc"):
        conts = [p for p in parts if data[p[0] + 12 : p[0] + 16] == b"\x0a\0\0\0"]
        if not conts:
            return
        img = bytearray(data)
        if mode == "trunc":
            return truncated(case, res, w, data, parts, recs, conts)
        for f in case["flips"]:
            a, b, _ = conts[f["c"] % len(conts)]
            n = b - a - 32
            if n <= 0:
                continue
            at = a + 32 + (f["at"] % n)
            img[at] ^= 1 << f["bit"]
        limit = len(recs)
        damaged = None
        for i, (a, b, n) in enumerate(parts):
            if img[a:b] != data[a:b]:
                try:
                    same = ref.zlib_decompress(bytes(img[a + 32 : b])) == ref.zlib_decompress(data[a + 32 : b])
                except ref.zlib.error:
                    same = False
                except ValueError:
                    return  # data behind the end of the compressed stream: not covered
                if not same:
                    damaged = i
                    limit = parts[i - 1][2] if i else 0
                    break
        res.fired["bit_flip"] += len(case["flips"])
        rd, e = attempt(boot.BlfReader, source(w, cfg["source"], bytes(img)))
        if e is not None:
            res.fail("rejected", f"BlfReader: {ex(e)}")
        out, e = read_list(res, rd, how=cfg["how"])
        what = f"payload of container {damaged} damaged"
        check_prefix(res, out, recs[:limit], "damage", what)
        if damaged is None:
            if e is not None:
                res.fail("damage:harmless", f"flipped bits that do not matter: {ex(e)}")
            check_equal(res, out, recs, "damage", "flipped bits that do not matter")
            return
        res.nontrivial = True
        if len(out) < limit:
            res.fail("damage:too-few", f"{what}: {len(out)} objects delivered, {limit} lie in front of it")
        if e is None:
            res.fail("damage:silent", f"{what}: reading ends normally after {len(out)} of {len(recs)} objects")
        res.note("raised", type(e).__name__)
        again(res, rd, recs, len(out), what)
        return
    # the medium fails
    src, e0 = attempt(source, w, cfg["source"], data)
    rd, e = attempt(boot.BlfReader, src)
    if e is not None:
        if not injected(e):
            res.fail("fault:open", f"opening fails without a fault: {ex(e)}")
        res.note("open failed")
        return
    out, e = read_list(res, rd, how=cfg["how"])
    hit = sum(v for k, v in w.fired.items() if k != "short_read")
    what = f"read fault ({', '.join(f['do'] for f in case['faults'])})"
    check_prefix(res, out, recs, "fault", what)
    if not hit:
        if e is not None:
            res.fail("fault:spurious", f"reading raises without a fault: {ex(e)}")
        check_equal(res, out, recs, "fault", "fault position behind the end")
        return
    if e is None:
        res.fail("fault:silent", f"{what}: reading ends normally after {len(out)} of {len(recs)} objects")
    if not injected(e):
        res.fail("fault:other", f"{what}: reported as {ex(e)}")
    # everything in front of the failing transfer had been read
    pos = next((x[1] for x in w.ev if x[0] == "r!"), None)
    if pos is not None:
        need = complete(parts, pos)
    else:  # decompression failed: everything in front of that container
        k = next(f["n"] for f in case["faults"] if f["on"] == "zd")
        conts = [i for i, p in enumerate(parts) if data[p[0] + 12 : p[0] + 16] == b"\x0a\0\0\0"]
        i = conts[k] if k < len(conts) else 0
        need = parts[i - 1][2] if i else 0
    if len(out) < need:
        res.fail("fault:too-few", f"{what}: {len(out)} objects delivered, {need} were readable before it")
    res.nontrivial = True
    res.note("raised", type(e).__name__, len(out))
    w.clear_faults()
    again(res, rd, recs, len(out), what)


def truncated(case, res, w, data, parts, recs, conts):
    """A container that is complete, but holds only the beginning of a compressed payload."""
    t = case["trunc"]
    a, b, _ = conts[t["c"] % len(conts)]
    i = parts.index((a, b, _))
    limit = parts[i - 1][2] if i else 0
    k = min(t["k"], b - a - 32)
    if k <= 0:
        return
    if t["fill"]:  # lost sectors: the end of the payload is gone
        img = data[: b - k] + bytes(k) + data[b:]
        if img == data:
            return
        try:
            if ref.zlib_decompress(img[a + 32 : b]) == ref.zlib_decompress(data[a + 32 : b]):
                return
        except ref.zlib.error:
            pass
        except ValueError:
            return
    else:
        img = data[: a + 8] + (b - a - k).to_bytes(4, "little") + data[a + 12 : b - k] + data[b:]
    res.fired["payload_zeroed" if t["fill"] else "payload_cut"] += 1
    rd, e = attempt(boot.BlfReader, source(w, case["cfg"]["source"], img))
    if e is not None:
        res.fail("rejected", f"BlfReader: {ex(e)}")
    out, e = read_list(res, rd, how=case["cfg"]["how"])
    what = f"last {k} bytes of the payload of container {i} lost"
    check_prefix(res, out, recs[:limit], "damage", what)
    if len(out) < limit:
        res.fail("damage:too-few", f"{what}: {len(out)} objects delivered, {limit} lie in front of it")
    if e is None:
        res.fail("damage:silent", f"{what}: reading ends normally after {len(out)} of {len(recs)} objects")
    res.nontrivial = True
    res.note("raised", type(e).__name__)
    again(res, rd, recs, len(out), what)


def again(res, rd, recs, n, what):
    """Whatever is delivered after the failure must be further genuine objects in order."""
    more = []
    for _ in range(3):
        o, e = attempt(rd.read_object)
        if e is not None or o is None:
            continue
        more.append(o)
    i = n
    for o in more:
        while i < len(recs) and objs.mismatch(o, recs[i]) is not None:
            i += 1
        if i >= len(recs):
            res.fail("after-failure", f"{what}: {objs.label(o)} is delivered afterwards, which the log does not hold next")
        i += 1
