"""Independent executable reference model of the BLF format.

Nothing here imports vblf: object layouts, the log encoder (the "foreign tool")
and the log walker (the "foreign decoder") are written down a second time, in
explicit little-endian form, so that they can serve as oracle for the library.

A *record* is a JSON-able dict describing one object:
    {"k": kind, "h": {header values}, "f": {field: value}, ...}
"""

import struct
import zlib

SIG = b"LOBJ"
FSIG = b"LOGG"
HDR = 144
BASE = struct.Struct("<4sHHII")
OBJH = struct.Struct("<IHHQ")
STATS = struct.Struct("<4sIIBBBBQQII8H8HQ64s")


def cstruct(fields):
    return struct.Struct("<" + "".join(c for _, c in fields))


# kind -> (object types, class name, module, fixed fields)
FIXED = {
    "can": ([1], "CanMessage", "can", "channel:H flags:B dlc:B frame_id:I data:8s"),
    "can_err": ([2], "CanErrorFrame", "can", "channel:H length:H reserved:I"),
    "can_ovl": ([3], "CanOverloadFrame", "can", "channel:H reserved1:H reserved2:I"),
    "can_stat": ([4], "CanDriverStatistic", "can",
        "channel:H bus_load:H standard_data_frames:I extended_data_frames:I standard_remote_frames:I"
        " extended_remote_frames:I error_frames:I overload_frames:I reserved:I"),
    "app_trig": ([5], "AppTrigger", "general",
        "pre_trigger_time:Q post_trigger_time:Q channel:H flags:H app_specific:I"),
    "env": ([6, 7, 8, 9], "EnvironmentVariable", "general", "name_length:I data_length:I reserved:Q"),
    "lin": ([11], "LinMessage", "lin",
        "channel:H id:B dlc:B data:8s fsm_id:B fsm_state:B header_time:B full_time:B crc:H dir:B reserved:5s"),
    "can_drverr": ([31], "CanDriverError", "can", "channel:H tx_errors:B rx_errors:B error_code:I"),
    "can_sync": ([44], "CanDriverHwSync", "can", "channel:H flags:B reserved1:B reserved2:I"),
    "rtc": ([51], "RealTimeClock", "general", "time:Q logging_offset:Q"),
    "lin2": ([57], "LinMessage2", "lin",
        "sof:Q event_baudrate:I channel:H bus_reserved:2s synch_break_length:Q synch_del_length:Q"
        " supplier_id:H message_id:H nad:B id:B dlc:B checksum_model:B databyte_timestamps:9Q"
        " data:8s crc:H direction:B simulated:B is_etf:B etf_assoc_index:B etf_assoc_etf_id:B"
        " fsm_id:B fsm_state:B reserved:3s"),
    "app_text": ([65], "AppText", "general", "source:I reserved1:I text_length:I reserved2:I"),
    "flexray": ([66], "FlexrayVFrReceiveMsgEx", "flexray",
        "channel:H version:H channel_mask:H dir_flags:H client_index:I cluster_no:I frame_id:H"
        " header_crc1:H header_crc2:H byte_count:H data_count:H cycle:H tag:I data:I frame_flags:I"
        " app_parameter:I frame_crc:I frame_length_ns:I frame_id1:H pdu_offset:H blf_log_mask:H reserved:26s"),
    "sysvar": ([72], "SystemVariable", "general",
        "type:I representation:I reserved1:Q name_length:I data_length:I reserved2:Q"),
    "can_errext": ([73], "CanErrorFrameExt", "can",
        "channel:H length:H flags:I ecc:B position:B dlc:B reserved1:B frame_length_in_ns:I frame_id:I"
        " flags_ext:H reserved2:H data:8s"),
    "can_drverrext": ([74], "CanDriverErrorExt", "can",
        "channel:H tx_errors:B rx_errors:B error_code:I flags:I state:B reserved1:B reserved2:H reserved3:4I"),
    "can2": ([86], "CanMessage2", "can",
        "channel:H flags:B dlc:B frame_id:I data:8s frame_length:I bit_count:B reserved1:B reserved2:H"),
    "overrun": ([91], "DriverOverrun", "general", "bus_type:I channel:H reserved:H"),
    "comment": ([92], "EventComment", "general", "commented_event_type:I text_length:I reserved:Q"),
    "marker": ([96], "GlobalMarker", "general",
        "commented_event_type:I foreground_color:I background_color:I is_relocatable:B reserved1:B"
        " reserved2:H group_name_length:I marker_name_length:I description_length:I reserved3:I reserved4:Q"),
    "canfd": ([100], "CanFdMessage", "can",
        "channel:H flags:B dlc:B frame_id:I frame_length:I arb_bit_count:B canfd_flags:B"
        " valid_data_bytes:B reserved1:B reserved2:I data:64s reserved3:I"),
    "canfd64": ([101], "CanFdMessage64", "can",
        "channel:B dlc:B valid_data_bytes:B tx_count:B frame_id:I frame_length:I flags:I btr_cfg_arb:I"
        " btr_cfg_data:I time_offset_brs_ns:I time_offset_crc_del_ns:I bit_count:H dir:B ext_data_offset:B crc:I"),
    "canfderr": ([104], "CanFdErrorFrame64", "can",
        "channel:B dlc:B valid_data_bytes:B ecc:B flags:H error_code_ext:H ext_flags:H ext_data_offset:B"
        " reserved1:B frame_id:I frame_length:I btr_cfg_arb:I btr_cfg_data:I time_offset_brs_ns:I"
        " time_offset_crc_del_ns:I crc:I error_position:H reserved2:H"),
    "eth_stat": ([114], "EthernetStatistic", "ethernet",
        "channel:H reserved_1:H reserved_2:I rcv_ok_hw:Q xmit_ok_hw:Q rcv_error_hw:Q xmit_error_hw:Q"
        " rcv_bytes_hw:Q xmit_bytes_hw:Q rcv_no_buffer_hw:Q sqi:h hardware_channel:H reserved_3:I"),
    "diag": ([119], "DiagRequestInterpretation", "tp_diag",
        "diag_description_handle:I diag_variant_handle:I diag_service_handle:I ecu_qualifier_length:I"
        " variant_qualifier_length:I service_qualifier_length:I"),
    "eth_ex": ([120], "EthernetFrameEx", "ethernet",
        "struct_length:H flags:H channel:H hardware_channel:H frame_duration:Q frame_checksum:I dir:H"
        " frame_length:H frame_handle:I reserved:I"),
    "fbus": ([124], "FunctionBus", "general", "object_type:I ve_type:I name_length:I data_length:I"),
    "trigcond": ([128], "TriggerCondition", "general",
        "state:I trigger_block_name_length:I trigger_condition_length:I"),
}
FIELDS = {k: [tuple(x.split(":")) for x in v[3].split()] for k, v in FIXED.items()}
STRUCT = {k: cstruct(v) for k, v in FIELDS.items()}
CLS = {k: v[1] for k, v in FIXED.items()}
MOD = {k: v[2] for k, v in FIXED.items()}
TYPE = {k: v[0] for k, v in FIXED.items()}
VARHDR = {"fbus", "trigcond"}  # header with a static-size field instead of a client index
ENUMS = {
    ("overrun", "bus_type"): [1, 5, 6, 7, 9, 10, 13, 14],
    ("sysvar", "type"): [1, 2, 3, 4, 5, 6, 7],
    ("app_text", "source"): [0, 1, 2, 3, 4],
    ("fbus", "object_type"): [0, 1, 2, 3],
    ("trigcond", "state"): [0, 1, 2, 3],
}
DECODED_TYPES = sorted(t for ts in TYPE.values() for t in ts)
# object types the library knows by name but does not decode, and unknown ones
RAW_TYPES = [t for t in range(12, 129) if t not in DECODED_TYPES and t != 10] + [
    0, 129, 130, 255, 256, 1000, 65535, 65536, 2**31, 2**32 - 1]

# variable part: list of (field, encoding or None, length field)
TAIL = {
    "env": [("name", "cp1252", "name_length"), ("data", None, "data_length")],
    "sysvar": [("name", "cp1252", "name_length"), ("data", None, "data_length")],
    "comment": [("text", "cp1252", "text_length")],
    "marker": [("group_name", "cp1252", "group_name_length"), ("marker_name", "cp1252", "marker_name_length"),
               ("description", "cp1252", "description_length")],
    "fbus": [("name", "cp1252", "name_length"), ("data", None, "data_length")],
    "trigcond": [("trigger_block_name", "cp1252", "trigger_block_name_length"),
                 ("trigger_condition", "cp1252", "trigger_condition_length")],
    "diag": [("ecu_qualifier", "utf-8", "ecu_qualifier_length"),
             ("variant_qualifier", "utf-8", "variant_qualifier_length"),
             ("service_qualifier", "utf-8", "service_qualifier_length")],
    "flexray": [("data_bytes", None, "data_count")],
    "eth_ex": [("frame_data", None, "frame_length")],
}
# kinds whose declared size may exceed their content (zero filled)
PADDABLE = {"env", "sysvar", "comment", "diag", "flexray", "eth_ex", "app_text"}
LIN2_V2 = [("resp_baudrate", "I")]
LIN2_V3 = [("exact_header_baudrate", "d"), ("early_stopbit_offset", "I"), ("early_stopbit_offset_response", "I")]


def _pack(fields, f):
    vals = []
    for n, c in fields:
        v = f[n]
        if len(c) > 1 and c[-1] != "s":
            vals.extend(v)
        else:
            vals.append(v)
    return cstruct(fields).pack(*vals)


def body(rec):
    """Encoded object without its 32 byte header."""
    k, f = rec["k"], rec["f"]
    b = STRUCT[k].pack(*_flat(k, f))
    if k in TAIL:
        for n, enc, _len in TAIL[k]:
            b += f[n].encode(enc) if enc else f[n]
    elif k == "app_text":
        b += f["text"].encode("cp1252") + b"\0"
    elif k in ("canfd64", "canfderr"):
        b += f["data"] + bytes(rec.get("gap", 0))
        if rec.get("ext"):
            b += struct.pack("<II", f["btr_ext_arb"], f["btr_ext_data"])
    elif k == "lin2":
        if rec["v"] >= 2:
            b += _pack(LIN2_V2, f)
        if rec["v"] >= 3:
            b += _pack(LIN2_V3, f)
    return b + bytes(rec.get("pad", 0))


def _flat(k, f):
    vals = []
    for n, c in FIELDS[k]:
        v = f[n]
        if len(c) > 1 and c[-1] != "s":
            vals.extend(v)
        else:
            vals.append(v)
    return vals


def encode(rec):
    if rec["k"] == "raw":
        p = rec["p"]
        return BASE.pack(SIG, rec["hs"], rec["hv"], 16 + len(p), rec["t"]) + p
    b = body(rec)
    h = rec["h"]
    return BASE.pack(SIG, h["hs"], h["hv"], 32 + len(b), rec["t"]) + OBJH.pack(
        h["flags"], h["ci"], h["ov"], h["ts"]) + b


# ---------------------------------------------------------------- foreign tool


def container(payload, level, style=0, ts=0, method=None, odd=None, stored=False):
    """One log container holding `payload`; style 0: vendor header, 1: generic object header."""
    odd = odd or {}
    packed = level or stored  # zlib level 0: stored blocks
    data = zlib_compress(payload, level) if packed else payload
    if style == 0:
        extra = struct.pack("<HHIII", (2 if packed else 0) if method is None else method, 0, 0, len(payload), 0)
        hs = 16
    else:
        extra = OBJH.pack(odd.get("flags", 2), odd.get("ci", 0), odd.get("ov", 0), odd.get("ts", ts))
        hs = 32
    return BASE.pack(SIG, odd.get("hs", hs), odd.get("hv", 1), 32 + len(data), 10) + extra + data


def zlib_compress(data, level):
    c = zlib.compressobj(level)
    return c.compress(data) + c.flush()


def zlib_decompress(data):
    d = zlib.decompressobj()
    r = d.decompress(data)
    r += d.flush()
    if not d.eof:
        raise ValueError("incomplete zlib stream")
    if d.unused_data:
        raise ValueError("data behind the zlib stream")
    return r


STATS_FIELDS = ("statistics_size", "api_number", "application_id", "compression_level", "application_major",
                "application_minor", "file_size", "uncompressed_file_size", "object_count", "application_build")
STIME = ("year", "month", "day_of_week", "day", "hour", "minute", "second", "milliseconds")


def stats_bytes(s):
    return STATS.pack(FSIG, *[s[n] for n in STATS_FIELDS], *s["start"], *s["last"], s["restore"], s["reserved"])


def parse_stats(b):
    v = STATS.unpack(b[:HDR])
    if v[0] != FSIG:
        raise ValueError("no LOGG signature")
    s = dict(zip(STATS_FIELDS, v[1:11]))
    s["start"] = list(v[11:19])
    s["last"] = list(v[19:27])
    s["restore"] = v[27]
    s["reserved"] = v[28]
    return s


class Walk:
    """Strict independent decoder of a log file (complete or cut off)."""

    def __init__(self, data, level=None):
        self.stats = parse_stats(data)
        self.level = self.stats["compression_level"] if level is None else level
        self.payloads = []   # decompressed container payloads
        self.spans = []      # (start, end) of each container in the file
        self.tail = b""      # incomplete rest of the file
        self.bad = None
        pos = HDR
        n = len(data)
        while True:
            while pos < n and data[pos] == 0:
                pos += 1
            if pos >= n:
                break
            if n - pos < 32:
                self.tail = data[pos:]
                break
            sig, hs, hv, size, typ = BASE.unpack_from(data, pos)
            if sig != SIG or typ != 10 or size < 32:
                self.bad = f"no container at {pos}"
                break
            if pos + size > n:
                self.tail = data[pos:]
                break
            raw = data[pos + 32 : pos + size]
            try:
                self.payloads.append(zlib_decompress(raw) if self.level else raw)
            except (zlib.error, ValueError) as e:
                self.bad = f"container at {pos}: {e}"
                break
            self.spans.append((pos, pos + size))
            pos += size
        self.stream = b"".join(self.payloads)
        self.objects, self.ends, self.rest, bad = split_objects(self.stream)
        self.bad = self.bad or bad


def split_objects(stream):
    """Objects of a decompressed object stream -> (objects, end offsets, incomplete rest, error)."""
    objs, ends, pos, n = [], [], 0, len(stream)
    while True:
        while pos < n and stream[pos] == 0:
            pos += 1
        if pos >= n:
            return objs, ends, b"", None
        if n - pos < 16:
            return objs, ends, stream[pos:], None
        sig, hs, hv, size, typ = BASE.unpack_from(stream, pos)
        if sig != SIG or size < 16:
            return objs, ends, stream[pos:], f"no object at stream offset {pos}"
        if pos + size > n:
            return objs, ends, stream[pos:], None
        objs.append(stream[pos : pos + size])
        pos += size
        ends.append(pos)


def field_names(kind):
    return [n for n, _ in FIELDS[kind]]
