"""Bridge between reference records and library objects: build, compare, generate."""

import dataclasses

from . import boot, hints, ref

hints.load(boot.SRC, ref)

G = boot.vblf.general
C = boot.vblf.constants
L = boot.vblf.lin

ENUM_CLS = {
    ("overrun", "bus_type"): C.BusType,
    ("sysvar", "type"): C.SysVarType,
    ("app_text", "source"): C.AppTextSource,
    ("fbus", "object_type"): C.FunctionBusType,
    ("trigcond", "state"): C.TriggerConditionStatus,
    ("app_trig", "flags"): C.TriggerFlag,
    ("canfd", "canfd_flags"): C.CanFdFlags,
    ("canfd64", "flags"): C.CanFdFlags,
}
LIN2_PATH = {
    **dict.fromkeys(("sof", "event_baudrate", "channel", "bus_reserved"),
                    "lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.lin_bus_event"),
    **dict.fromkeys(("synch_break_length", "synch_del_length"),
                    "lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event"),
    **dict.fromkeys(("supplier_id", "message_id", "nad", "id", "dlc", "checksum_model"),
                    "lin_timestamp_event.lin_msg_descr_event"),
    "databyte_timestamps": "lin_timestamp_event",
}


def cls_of(kind):
    return getattr(getattr(boot.vblf, ref.MOD[kind]), ref.CLS[kind])


def all_fields(rec):
    """Every (field, expected value) of the decoded object."""
    k, f = rec["k"], dict(rec["f"])
    if k in ("canfd64", "canfderr") and not rec.get("ext"):
        f["btr_ext_arb"] = f["btr_ext_data"] = 0
    if k == "lin2":
        if rec["v"] < 2:
            f["resp_baudrate"] = 0
        if rec["v"] < 3:
            f["exact_header_baudrate"] = 0
            f["early_stopbit_offset"] = f["early_stopbit_offset_response"] = 0
    return f


def header(rec, size):
    h = rec["h"]
    base = G.ObjectHeaderBase(signature=ref.SIG, header_size=h["hs"], header_version=h["hv"],
                              object_size=size, object_type=C.ObjType(rec["t"]))
    if rec["k"] in ref.VARHDR:
        return G.VarObjectHeader(base=base, object_flags=C.ObjFlags(h["flags"]), object_static_size=h["ci"],
                                 object_version=h["ov"], object_time_stamp=h["ts"])
    return G.ObjectHeader(base=base, object_flags=C.ObjFlags(h["flags"]), client_index=h["ci"],
                          object_version=h["ov"], object_time_stamp=h["ts"])


def build(rec):
    """Library object for a record, the way a user would make it."""
    k = rec["k"]
    how = rec.get("how", "ctor")
    if k == "raw":
        return G.NotImplementedObject.unpack(ref.encode(rec))
    cls = cls_of(k)
    if how == "unpack":
        return cls.unpack(ref.encode(rec))
    f = all_fields(rec)
    if how == "new":  # only generated for kinds and headers the factory can express
        kw = {n: f[n] for n in NEW_ARGS[k]}
        if k == "canfd":
            kw["canfd_flags"] = C.CanFdFlags(kw["canfd_flags"])
        return cls.new(object_flags=C.ObjFlags(rec["h"]["flags"]), object_time_stamp=rec["h"]["ts"], **kw)
    for (kk, n), e in ENUM_CLS.items():
        if kk == k:
            f[n] = e(f[n])
    hdr = header(rec, len(ref.encode(rec)))
    if k == "lin2":
        bus = L.LinBusEvent(sof=f.pop("sof"), event_baudrate=f.pop("event_baudrate"), channel=f.pop("channel"),
                            reserved=f.pop("bus_reserved"))
        syn = L.LinSynchFieldEvent(lin_bus_event=bus, synch_break_length=f.pop("synch_break_length"),
                                   synch_del_length=f.pop("synch_del_length"))
        des = L.LinMessageDescriptor(lin_synch_field_event=syn, supplier_id=f.pop("supplier_id"),
                                     message_id=f.pop("message_id"), nad=f.pop("nad"), id=f.pop("id"),
                                     dlc=f.pop("dlc"), checksum_model=f.pop("checksum_model"))
        f["lin_timestamp_event"] = L.LinDatabyteTimestampEvent(
            lin_msg_descr_event=des, databyte_timestamps=tuple(f.pop("databyte_timestamps")))
    if k == "can_drverrext":
        f["reserved3"] = list(f["reserved3"])
    return cls(header=hdr, **f)


NEW_ARGS = {
    "can": ("channel", "flags", "dlc", "frame_id", "data"),
    "can2": ("channel", "flags", "dlc", "frame_id", "data", "frame_length", "bit_count"),
    "canfd": ("channel", "flags", "dlc", "frame_id", "frame_length", "arb_bit_count", "canfd_flags", "data"),
}


def assign(obj, new):
    """Give a live object (and the parts it consists of) the values of another one."""
    for f in dataclasses.fields(new):
        old, v = getattr(obj, f.name), getattr(new, f.name)
        if dataclasses.is_dataclass(v) and type(old) is type(v):
            assign(old, v)
        else:
            setattr(obj, f.name, v)


def scribble(obj, k):
    """Overwrite everything a caller can overwrite in an object, in place; `k` varies how."""
    for f in dataclasses.fields(obj):
        v = getattr(obj, f.name, None)
        if dataclasses.is_dataclass(v):
            scribble(v, k)
        elif isinstance(v, list):
            v[:] = [x ^ 1 if isinstance(x, int) else x for x in v] + [k] * (k % 2)
        elif isinstance(v, bytearray):
            v[:] = bytes(b ^ 0x55 for b in v) + bytes(k % 3)
        else:
            if isinstance(v, bool) or v is None:
                continue
            if isinstance(v, int):
                v = (int(v) ^ 1, 0, int(v) + 1, 2**32 - 1)[k % 4]
            elif isinstance(v, float):
                v = v + 1
            elif isinstance(v, bytes):
                v = bytes(b ^ 0x55 for b in v) + bytes(k % 3)
            elif isinstance(v, str):
                v = v + "!"
            elif isinstance(v, tuple):
                v = v[1:]
            else:
                continue
            try:
                setattr(obj, f.name, v)
            except AttributeError:  # frozen
                pass


def soften(obj):
    """Let the bytes of an object be ones its owner can change."""
    for f in dataclasses.fields(obj):
        if type(getattr(obj, f.name)) is bytes:
            setattr(obj, f.name, bytearray(getattr(obj, f.name)))


def _eq(a, b):
    if isinstance(b, (list, tuple)):
        try:
            return len(a) == len(b) and all(x == y for x, y in zip(a, b))
        except TypeError:
            return False
    if isinstance(b, bytes):
        return isinstance(a, (bytes, bytearray, memoryview)) and bytes(a) == b
    return a == b


def mismatch(obj, rec):
    """None if the library object `obj` carries exactly the values of `rec`, else what differs."""
    k = rec["k"]
    try:
        if k == "raw":
            if type(obj).__name__ != "NotImplementedObject":
                return f"type {rec['t']} read as {type(obj).__name__}"
            want = ref.encode(rec)
            if bytes(obj.buffer) != want:
                return f"raw object of type {rec['t']}: bytes differ ({len(obj.buffer)} instead of {len(want)})"
            b = obj.header.base
            got = (b.signature, b.header_size, b.header_version, b.object_size)
            if got != (ref.SIG, rec["hs"], rec["hv"], len(want)):
                return f"raw object header {got}"
            return None
        if type(obj).__name__ != ref.CLS[k]:
            return f"{ref.CLS[k]} read as {type(obj).__name__}"
        h = obj.header
        b = h.base
        want = ref.encode(rec)
        rh = rec["h"]
        exp = (ref.SIG, rh["hs"], rh["hv"], len(want), rec["t"], rh["flags"], rh["ci"], rh["ov"], rh["ts"])
        ci = h.object_static_size if k in ref.VARHDR else h.client_index
        got = (b.signature, b.header_size, b.header_version, b.object_size, b.object_type, h.object_flags, ci,
               h.object_version, h.object_time_stamp)
        if got != exp:
            return f"{ref.CLS[k]}.header: {tuple(map(_s, got))} instead of {exp}"
        for n, v in all_fields(rec).items():
            o = obj
            a = n
            if k == "lin2" and n in LIN2_PATH:
                for part in LIN2_PATH[n].split("."):
                    o = getattr(o, part)
                if n == "bus_reserved":
                    a = "reserved"
            got = getattr(o, a)
            if not _eq(got, v):
                return f"{ref.CLS[k]}.{n}: {_s(got)} instead of {_s(v)}"
    except AttributeError as e:
        return f"{ref.CLS.get(k, k)}: {e}"
    return None


def _s(v):
    s = repr(v)
    return s if len(s) < 60 else s[:57] + "..."


def label(obj):
    """Short description of an object for messages and logs."""
    try:
        h = obj.header
        ts = getattr(h, "object_time_stamp", None)
        return f"{type(obj).__name__}(ts={ts},size={h.base.object_size})"
    except AttributeError:
        return repr(obj)[:60]


def snapshot(obj):
    """Deep, comparable copy of all values of an object."""
    if dataclasses.is_dataclass(obj):
        return (type(obj).__name__,) + tuple(
            (f.name, snapshot(getattr(obj, f.name))) for f in dataclasses.fields(obj))
    if isinstance(obj, (list, tuple)):
        return tuple(snapshot(x) for x in obj)
    if isinstance(obj, (bytearray, memoryview)):
        return bytes(obj)
    if isinstance(obj, int) and not isinstance(obj, bool):
        return int(obj)
    return obj


# ------------------------------------------------------------------ generation

MAXV = {"B": 0xFF, "H": 0xFFFF, "I": 0xFFFFFFFF, "Q": 2**64 - 1}
CP1252 = "".join(bytes([i]).decode("cp1252") for i in range(1, 256) if i not in (0x81, 0x8D, 0x8F, 0x90, 0x9D))
UTF8 = "abcXYZ_ 0159äöü€ßµ\u0416\u4e2d\U0001f697"


def gint(r, code):
    m = MAXV[code]
    v = hints.near(r, 0, m, 0.15)
    if v is not None:
        return v
    x = r.random()
    if x < 0.2:
        return 0
    if x < 0.3:
        return m
    if x < 0.4:
        return 0x4A424F4C & m  # bytes of the signature
    if x < 0.6:
        return r.randrange(min(m, 255) + 1)
    return r.randint(0, m)


def gbytes(r, n):
    if n == 0:
        return b""
    if hints.BYTES and r.random() < 0.25:
        s = r.choice(hints.BYTES)
        b = bytearray(r.choice([bytes(n), s * (n // len(s) + 1), r.randbytes(min(n, 256)) * (n // 256 + 1)])[:n])
        at = r.choice([0, r.randint(0, n), max(0, n - len(s))])
        b[at : at + len(s)] = s
        return bytes(b[:n])
    x = r.random()
    if x < 0.15:
        return bytes(n)
    if x < 0.35:
        return (b"LOBJ" * (n // 4 + 1))[:n]
    if x < 0.45:
        h = ref.BASE.pack(ref.SIG, 32, 1, r.choice([16, 32, 48, 64, n]), r.choice([1, 10, 86, 0]))
        s = h * (n // 16 + 1)
        o = r.randrange(16)
        return s[o : o + n] if len(s) >= o + n else s[:n]
    if n > 2048:
        return r.randbytes(256) * (n // 256) + r.randbytes(n % 256)
    return r.randbytes(n)


def gtext(r, n, alphabet=CP1252):
    if hints.STRINGS and r.random() < 0.2:
        s = "".join(c for c in r.choice(hints.STRINGS) if c in alphabet)
        if 0 < len(s) <= n:
            at = r.choice([0, n - len(s), r.randint(0, n - len(s))])
            return "a" * at + s + "b" * (n - len(s) - at)
    x = r.random()
    if x < 0.2:
        return ("LOBJ" * (n // 4 + 1))[:n]
    if x < 0.3:
        return "\0" * n
    return "".join(r.choice(alphabet) for _ in range(n)) if n < 400 else (
        "".join(r.choice(alphabet) for _ in range(97)) * (n // 97 + 1))[:n]


def gfield(r, code):
    if code == "h":
        return r.choice([0, -1, 32767, -32768, r.randint(-32768, 32767)])
    if code == "d":
        return r.choice([0.0, -0.5, 19200.25, 1e300, float("inf"), r.random() * 1e5])
    if code[-1] == "s":
        return gbytes(r, int(code[:-1]))
    if len(code) > 1:
        return [gint(r, code[-1]) for _ in range(int(code[:-1]))]
    return gint(r, code)


def glen(r, big=0):
    v = hints.near(r, 0, max(2000, big) if r.random() < 0.9 else 70_000, 0.1) if hints.INTS else None
    if v is not None:
        return v
    x = r.random()
    if x < 0.15:
        return 0
    if x < 0.3:
        return r.choice([1, 3, 7, 8, 15, 16])
    if big and x > 0.985:  # around powers of two
        return max(0, (1 << r.randint(6, big.bit_length() - 1)) - r.choice([0, 8, 16, 24, 32, 40, 48, 56]) + r.choice([0, 0, 1, -1]))
    if big and x > 0.93:
        return r.randint(1, big)
    return r.randint(0, 40)


KINDS = sorted(ref.FIXED)


def gen_record(r, ts, kinds=None, big=0, how=True):
    """A random well-formed record; `ts` makes it unique."""
    pool = kinds or (KINDS + ["raw"] * 4)
    k = r.choice(pool)
    if kinds is None and hints.KINDS and r.random() < 0.3:
        k = r.choice(hints.KINDS)
    if k == "raw" and hints.RAW and r.random() < 0.3:
        return {"k": "raw", "t": r.choice(hints.RAW), "hs": 32, "hv": 1, "p": ts.to_bytes(8, "little") + gbytes(r, glen(r, big))}
    if k == "raw":
        n = glen(r, big)
        p = gbytes(r, n)
        if r.random() < 0.1:  # hardly anything behind the header, or nothing
            return {"k": "raw", "t": r.choice(ref.RAW_TYPES), "hs": 16, "hv": 1,
                    "p": ts.to_bytes(8, "little")[: r.choice([0, 0, 1, 2, 3, 4, 7])]}
        # the unique mark goes where a time stamp would be, if there is room
        p = (p + ts.to_bytes(8, "little")) if r.random() < 0.5 else (ts.to_bytes(8, "little") + p)
        return {"k": "raw", "t": r.choice(ref.RAW_TYPES), "hs": r.choice([16, 32, 40]), "hv": r.choice([1, 2, 3] if r.random() < 0.95 else [0, 255, 256, 65535]), "p": p}
    rec = {"k": k, "t": r.choice(ref.TYPE[k]), "h": {
        "hs": 32 if r.random() < 0.9 else r.choice([0, 16, 40]), "hv": r.choice([1, 1, 2, 3] if r.random() < 0.95 else [0, 255, 256, 65535]),
        "flags": r.choice([1, 2, 2, 2, 0, 3, 0x10, 0xFFFFFFFF]), "ci": r.choice([0, 0, 1, 65535]),
        "ov": r.choice([0, 0, 1, 65535]), "ts": ts}}
    f = {n: gfield(r, c) for n, c in ref.FIELDS[k]}
    for n in f:
        if (k, n) in ref.ENUMS:
            f[n] = r.choice(ref.ENUMS[k, n])
    rec["f"] = f
    if k in ref.TAIL:
        for n, enc, ln in ref.TAIL[k]:
            m = glen(r, big)
            if enc == "utf-8":
                f[n] = gtext(r, m, UTF8)
                f[ln] = len(f[n].encode("utf-8"))
            elif enc:
                f[n] = gtext(r, m)
                f[ln] = m
            else:
                if k in ("flexray", "eth_ex"):
                    m = min(m, 65535)
                f[n] = gbytes(r, m)
                f[ln] = m
    elif k == "app_text":
        f["text"] = gtext(r, glen(r, big))
        f["text_length"] = len(f["text"]) + 1
    elif k in ("canfd64", "canfderr"):
        off = 32 + ref.STRUCT[k].size
        n = r.choice([0, 1, 4, 8, 12, 16, 32, 48, 64, r.randint(0, 64)])
        x = r.random()
        f["data"] = gbytes(r, n)
        f["btr_ext_arb"] = f["btr_ext_data"] = 0
        if k == "canfderr":
            f["valid_data_bytes"] = n
            rec["gap"] = r.choice([0, 0, 4, 1])
        if x < 0.35:  # no extended data
            f["ext_data_offset"] = 0
        else:
            e = off + n + rec.get("gap", 0)
            f["ext_data_offset"] = e
            if x < 0.9:
                rec["ext"] = 1
                f["btr_ext_arb"], f["btr_ext_data"] = gint(r, "I"), gint(r, "I")
                if r.random() < 0.2:
                    rec["pad"] = r.randint(1, 8)
            elif r.random() < 0.5:  # offset set, but no room for the extended data
                rec["pad"] = r.randint(0, 7)
    elif k == "lin2":
        rec["v"] = r.choice([1, 2, 3, 3])
        if rec["v"] >= 2:
            f.update((n, gfield(r, c)) for n, c in ref.LIN2_V2)
        if rec["v"] >= 3:
            f.update((n, gfield(r, c)) for n, c in ref.LIN2_V3)
        if r.random() < 0.15:
            rec["pad"] = r.randint(1, 3) if rec["v"] == 1 else r.randint(1, 8)
    if k in ref.PADDABLE and r.random() < 0.2:
        rec["pad"] = r.randint(1, 9)
    if how:
        x = r.random()
        if x < 0.2:
            rec["how"] = "unpack"
        elif x < 0.6 and k in NEW_ARGS:
            rec["how"] = "new"
            rec["h"].update(hs=32, hv=1, ci=0, ov=0)
            for n in f:
                if n.startswith("reserved"):
                    f[n] = 0
            if k == "canfd":
                f["valid_data_bytes"] = 64
    return rec


def simple_record(ts):
    return {"k": "can", "t": 1, "h": {"hs": 32, "hv": 1, "flags": 2, "ci": 0, "ov": 0, "ts": ts},
            "f": {"channel": 1, "flags": 0, "dlc": 8, "frame_id": 1, "data": b"\x11" * 8}}
