"""Generating packets and lists for the packet decoder checks."""
import json, struct
from common import *
from rx import crc16

CODES = {"b": 1, "B": 1, "x": 1, "h": 2, "H": 2, "i": 4, "I": 4, "f": 4, "3s": 3}


def parse_struct(s):
    assert s[0] == "<"
    out, n = [], ""
    for ch in s[1:]:
        if ch.isdigit():
            n += ch
        elif ch == "s":
            out.append(n + "s")
            n = ""
        else:
            out += [ch] * int(n or 1)
            n = ""
    return out


def spec_lists(lists):
    """Lists in the form the specification reads."""
    out = []
    for ls in lists:
        out.append({"ids": [{"id": int(k), "name": v, "text": [ord(c) for c in v]} for k, v in ls["ids"].items()],
                    "custom": {c: {"f": parse_struct(d["struct"]), "n": [f[0] for f in d["fields"]], "ty": [f[1] for f in d["fields"]]}
                               for c, d in ls["custom"].items()}})
    return out


def real_lists():
    ids, cust = {}, json.load(open(os.path.join(REPO, "custom_field_list.json")))
    for line in open(os.path.join(REPO, "payload_id_list.txt")):
        line = line.rstrip("\n")
        if line and line[0] != "#":
            a, b = line.split(",")
            ids[str(int(a))] = b.strip()
    full = {}
    for c, d in cust.items():
        for o in [c] + d.get("other_payloads", []):
            full[o] = {"struct": d["struct"], "fields": d["fields"]}
    return {"ids": ids, "custom": full}


def random_def(r):
    """A custom field definition; mostly well formed, sometimes of a wrong size, count or type."""
    types = ["none", "none", "battery_5v_byte", "divide_by_10", "divide_by_100", "degree_float", "degree_fixed3", "time_hms", "time_biseconds", "payload_id", "nosuch"]
    good = {"none": "bBhHiIf", "battery_5v_byte": "bB", "divide_by_10": "bBhHi", "divide_by_100": "bBhHi", "degree_float": "f",
            "degree_fixed3": ["3s"], "time_hms": ["3s"], "time_biseconds": "H", "payload_id": "BH", "nosuch": "bB"}
    while True:
        f, n = [], []
        total = 9 if r.random() < .95 else r.choice([7, 8, 10])
        left = total
        while left:
            if r.random() < .12:
                c, ty = "x", None
            else:
                ty = r.choice(types if r.random() < .1 else types[:-1])
                # raw bytes under "none" and an unknown type are refused; other mismatches of type and code are left open
                c = "3s" if ty == "none" and r.random() < .03 else r.choice(good[ty])
            if CODES[c] > left:
                continue
            f.append(c)
            if c != "x":
                n.append(ty)
            left -= CODES[c]
        if not n:
            continue
        names = ["f%d_%s" % (i, r.choice(["volts", "t", "count"])) for i in range(len(n))]
        if r.random() < .03:
            names, n = names[:-1], n[:-1]
        s = "<"
        i = 0
        while i < len(f):
            j = i
            while j < len(f) and f[j] == f[i]:
                j += 1
            k = j - i
            s += f[i] * k if f[i] == "3s" or r.random() < .5 else (str(k) if k > 1 else "") + f[i]
            i = j
        return {"struct": s, "fields": [[a, b] for a, b in zip(names, n)]}


def edge_byte(r):
    return r.choice([0, 1, 127, 128, 254, 255, r.randrange(256), r.randrange(256)])


def hms(r, good=.9):
    if r.random() < good:
        return bytes([r.choice([0, 23, r.randrange(24)]), r.choice([0, 59, r.randrange(60)]), r.choice([0, 59, r.randrange(60)])])
    return bytes(r.choice([(24, 0, 0), (23, 60, 0), (0, 0, 60), (255, 1, 1), (12, 255, 59), (5, 5, 255), (23, 59, 60)]))


def deg(r, good=.9):
    if r.random() < good:
        return struct.pack("<f", r.choice([0.0, -0.0, 180.0, -180.0, 90.0, 1e-7, -33.95, 151.2, 179.99998, 1e-30, 5e-324, r.uniform(-180, 180), r.uniform(-1, 1),
                                           r.randrange(-180, 180) + .000005, r.randrange(-18000000, 18000000) / 1e5]))
    return r.choice([struct.pack("<f", x) for x in (180.00002, -180.00002, 181.0, 1e30, float("inf"), float("-inf"), float("nan"))]
                    + [bytes([1, 0, 128, 255]), bytes([255, 255, 255, 127])])


def fix3(r, good=.9):
    v = r.choice([0, 1, -1, 7031250, -7031250, r.randrange(-7031250, 7031250)]) if r.random() < good else \
        r.choice([7031251, -7031251, 8388607, -8388608])
    return struct.pack("<i", v)[:3]


def body(fmt, r, ids, good=.97):
    u8, u16 = (lambda: bytes([edge_byte(r)])), (lambda: bytes([edge_byte(r), edge_byte(r)]))
    if fmt == "horus_binary_v1":
        i = int(r.choice([x for x in ids if int(x) < 256] or ["0"])) if r.random() < .8 else r.randrange(256)
        return bytes([i]) + u16() + hms(r, good) + deg(r, good) + deg(r, good) + u16() + u8() + u8() + u8() + u8()
    if fmt == "horus_binary_v2_32byte":
        i = int(r.choice(list(ids))) if r.random() < .85 else r.randrange(65536)
        c = bytes(edge_byte(r) for _ in range(9))
        if r.random() < .5:
            c = r.choice([hms(r, good) * 3, deg(r, good) + deg(r, good) + u8(), fix3(r, good) * 3, u8() + deg(r, good) + deg(r, good)])
        return struct.pack("<H", i) + u16() + hms(r, good) + deg(r, good) + deg(r, good) + u16() + u8() + u8() + u8() + u8() + c
    bs = r.choice([0, 1, 43199, 43200, r.randrange(43200)]) if r.random() < good else r.choice([43201, 65535])
    return u8() + u8() + struct.pack("<H", bs) + fix3(r, good) + fix3(r, good) + u16() + u8() + u8()


def tail(b):
    return b + struct.pack("<H", crc16(b))


def head(b):
    return struct.pack("<H", crc16(b)) + b
