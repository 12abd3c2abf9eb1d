"""Values as the specifications see them: integers in halves, reals as sign / whole / millionths (and binary32 image), text as codes."""
import math, struct


def codes(s):
    return [ord(c) for c in s]


def num(v):
    if isinstance(v, bool):
        return {"t": "b", "v": v}
    if isinstance(v, int):
        if -(1 << 47) < v < (1 << 47):
            return {"t": "i", "hi": v >> 16, "lo": v & 0xFFFF}
        return {"t": "I", "c": codes(str(v))}
    if isinstance(v, float):
        try:
            p = struct.pack("<f", v)
            b = list(p) if struct.unpack("<f", p)[0] == v else []
        except OverflowError:
            b = []
        if not math.isfinite(v) or abs(v) >= 2**31 - 1:
            return {"t": "f", "neg": math.copysign(1, v) < 0, "ip": -1, "fp": 0, "b": b, "r": repr(v)}
        a = abs(v)
        ip = int(a)
        fp = round((a - ip) * 1000000)
        if fp == 1000000:
            ip, fp = ip + 1, 0
        return {"t": "f", "neg": math.copysign(1, v) < 0, "ip": ip, "fp": fp, "b": b, "r": repr(v)}
    if isinstance(v, str):
        return {"t": "s", "s": v, "c": codes(v)}
    return {"t": "o", "v": repr(v)}
