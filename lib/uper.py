"""Horus Binary v3 messages in the specification's form (spec/HorusV3.tla): an encoder of our own, generators, and views of Python values."""
import math, struct
from rx import crc16

CALL = "-/0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
NAME = "-0123456789abcdefghijklmnopqrstuvwxyz"
STR = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_ +/=-."


def octets(v):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < 1 << (8 * n - 1):
        n += 1
    return list(v.to_bytes(n, "big", signed=True))


def real(x):
    z = {"k": "zero", "neg": False, "m": [], "e": 0}
    if x == 0:
        return z
    if math.isnan(x):
        return dict(z, k="nan")
    if math.isinf(x):
        return dict(z, k="inf", neg=x < 0)
    m, d = abs(x).as_integer_ratio()
    e = -(d.bit_length() - 1)
    while m % 2 == 0:
        m //= 2
        e += 1
    return {"k": "fin", "neg": x < 0, "m": list(m.to_bytes((m.bit_length() + 7) // 8, "big")), "e": e}


def unreal(v):
    if v["k"] == "zero":
        return 0.0
    if v["k"] == "nan":
        return math.nan
    if v["k"] == "inf":
        return -math.inf if v["neg"] else math.inf
    x = math.ldexp(int.from_bytes(bytes(v["m"]), "big"), v["e"])
    return -x if v["neg"] else x


class W:
    def __init__(self):
        self.b = []

    def u(self, n, w):
        assert 0 <= n < 1 << w, (n, w)
        self.b += [(n >> (w - 1 - i)) & 1 for i in range(w)]

    def o(self, q):
        for x in q:
            self.u(x, 8)

    def bytes(self):
        q = self.b + [0] * (-len(self.b) % 8)
        return bytes(sum(q[i + j] << (7 - j) for j in range(8)) for i in range(0, len(q), 8))


def realoctets(v):
    if v["k"] != "fin":
        return {"zero": [], "nan": [0x42], "inf": [0x41 if v["neg"] else 0x40]}[v["k"]]
    ex = octets(v["e"])
    return [0x80 + (0x40 if v["neg"] else 0) + len(ex) - 1] + ex + ([0] if v["m"][0] >= 128 else []) + v["m"]


def encode(m):
    """The message's octets; its numbers may lie outside their ranges as long as they fit the field's bits."""
    w = W()
    ext = bool(m["via"]) or any(m["future"])
    w.u(ext, 1)
    for k in ("sensors", "vel", "sats", "asc", "press", "temps", "hum", "mv", "counts", "psm", "custom"):
        w.u(len(m[k]), 1)
    w.u(len(m["call"]) - 1, 4)
    for c in m["call"]:
        w.u(CALL.index(chr(c)), 6)
    w.u(m["seq"], 16), w.u(m["tod"] + 1, 17), w.u(m["lat"] + 9000000, 25), w.u(m["lon"] + 18000000, 26), w.u(m["alt"] + 1000, 16)
    for s in m["sensors"]:
        w.u(len(s) - 1, 2)
        for x in s:
            w.u(len(x["name"]), 1), w.u(len(x["values"]), 1)
            for n in x["name"]:
                w.u(len(n) - 1, 5)
                for c in n:
                    w.u(NAME.index(chr(c)), 6)
            for v in x["values"]:
                w.u(["str", "int", "real", "bool"].index(v["kind"]), 2)
                if v["kind"] == "str":
                    w.u(len(v["v"]), 8)
                    for c in v["v"]:
                        w.u(c, 7)
                elif v["kind"] == "bool":
                    for y in v["v"]:
                        w.u(y, 1)
                else:
                    w.u(len(v["v"]) - 1, 2)
                    for y in v["v"]:
                        q = y if v["kind"] == "int" else realoctets(y)
                        w.u(len(q), 8), w.o(q)

    def opt(k, lo, n):
        for x in m[k]:
            w.u(x - lo, n)

    def group(k, lo, n):
        for g in m[k]:
            for x in g:
                w.u(len(x), 1)
            for x in g:
                for y in x:
                    w.u(y - lo, n)
    opt("vel", 0, 10), opt("sats", 0, 5), opt("asc", -32767, 16), opt("press", 0, 14)
    group("temps", -1023, 11)
    opt("hum", 0, 7)
    group("mv", 0, 14)
    for c in m["counts"]:
        w.u(len(c) - 1, 3)
        for y in c:
            w.u(len(y), 8), w.o(y)
    opt("psm", 0, 3)
    for c in m["custom"]:
        w.u(len(c), 8), w.o(c)
    if ext:
        adds = [[bytes([m["via"][0] << 5])] if m["via"] else []] + [[bytes(f[0])] if f else [] for f in m["future"]]
        w.u(0, 1), w.u(len(adds) - 1, 6)
        for a in adds:
            w.u(len(a), 1)
        for a in adds:
            for q in a:
                w.u(len(q), 8), w.o(q)
    return w.bytes()


def packet(body, pad=0):
    body = body + bytes(pad)
    return struct.pack("<H", crc16(body)) + body


SIZES = (32, 48, 64, 96, 128)


def padto(n):
    """Filler octets bringing an encoded message of n octets to the next on-air size."""
    return next((s - 2 - n for s in SIZES if s - 2 >= n), 0)


# ------------------------------------------------------------------ generators

INTS = [0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, 65535, 2**31 - 1, -2**31, 2**31, 2**32, 2**53, 2**63 - 1, -2**63]
BIG = [2**63, 2**64, -2**63 - 1, 2**100, -2**127, 10**30, 2**500]
REALS = [0.0, 1.0, -1.0, 0.5, 65.0, 127.0, 128.0, 255.0, 256.0, 3.14159, -273.15, 1e-3, 1e10, 1e300, -1e300, 1.7976931348623157e308, 2.2250738585072014e-308,
         5e-324, -5e-324, 1.1e-310, 1 / 3, 2.0**-128, 2.0**-129, 2.0**127, 2.0**128, 2.0**52 + 1, 2.0**53 - 1, math.inf, -math.inf, math.nan]


def pick(r, lo, hi, extra=()):
    return r.choice([lo, hi, lo + 1, hi - 1, *extra]) if r.random() < .35 else r.randint(lo, hi)


def codes(s):
    return [ord(c) for c in s]


def callsign(r):
    return "".join(r.choice(CALL) for _ in range(r.choice([1, 2, 15, r.randint(1, 15)])))


def name(r):
    # letters only at the front and never a word the decoder itself uses
    return "x" + "".join(r.choice(NAME) for _ in range(r.choice([0, 19, r.randint(0, 19)])))


def values(r, big=False, long=True):
    k = r.randrange(4)
    if k == 0:
        n = r.choice([0, 1, 255 if long else 9, r.randint(0, 60 if long else 9)])
        return {"kind": "str", "v": codes("".join(r.choice(STR) for _ in range(n)))}
    if k == 1:
        return {"kind": "int", "v": [octets(r.choice(INTS + (BIG if big else []) + [r.randrange(-2**40, 2**40), r.randrange(1000)])) for _ in range(r.randint(1, 4))]}
    if k == 2:
        return {"kind": "real", "v": [real(anyreal(r)) for _ in range(r.randint(1, 4))]}
    return {"kind": "bool", "v": [r.random() < .5 for _ in range(8)]}


def anyreal(r):
    c = r.randrange(4)
    if c == 0:
        return r.choice(REALS)
    if c == 1:
        return struct.unpack("<d", r.getrandbits(64).to_bytes(8, "little"))[0]
    if c == 2:
        return struct.unpack("<f", struct.pack("<f", r.uniform(-1000, 1000)))[0]
    return r.uniform(-1000, 1000)


def sensors(r, named=.5, big=False, n=None, long=True):
    return [{"name": [codes(name(r))] if r.random() < named else [], "values": [values(r, big, long)] if r.random() < .85 else []}
            for _ in range(n or r.randint(1, 4))]


def plain(call="X", seq=1):
    m = {k: [] for k in ("sensors", "vel", "sats", "asc", "press", "temps", "hum", "mv", "counts", "psm", "custom", "via", "future")}
    m.update(call=codes(call), seq=seq, tod=0, lat=0, lon=0, alt=0)
    return m


def message(r, call=None, p=None, big=False, via=True, future=False):
    p = r.choice([0, .15, .5, .85, 1]) if p is None else p
    m = plain(call or callsign(r), pick(r, 0, 65535))
    has = lambda: r.random() < p
    m.update(tod=pick(r, -1, 86400, (0, 86399, 3599, 3600, 59, 60)), lat=pick(r, -9000000, 9000000, (0, -1, 1)),
             lon=pick(r, -18000000, 18000000, (0, -1, 1)), alt=pick(r, -1000, 50000, (0, -1, -1000, -999)))
    for k, lo, hi in (("vel", 0, 512), ("sats", 0, 31), ("asc", -32767, 32767), ("press", 0, 12000), ("hum", 0, 100), ("psm", 0, 5)):
        if has():
            m[k] = [pick(r, lo, hi, (0,))]
    for k, lo, hi in (("temps", -1023, 1023), ("mv", 0, 16383)):
        if has():
            q = r.choice([p, .5, 1])
            m[k] = [[[pick(r, lo, hi, (0,))] if r.random() < q else [] for _ in range(4)]]
    if has():
        m["sensors"] = [sensors(r, big=big)]
    if has():
        m["counts"] = [[octets(r.choice(INTS + (BIG if big else []) + [r.randrange(1000)])) for _ in range(r.choice([1, 8, r.randint(1, 8)]))]]
    if has():
        m["custom"] = [[r.choice([0, 255, r.randrange(256)]) for _ in range(r.choice([0, 1, 255 if r.random() < .2 else 2, r.randint(0, 40)]))]]
    if via and has():
        m["via"] = [r.randrange(8)]
    if future and r.random() < .3:
        m["future"] = [[[r.randrange(256) for _ in range(r.choice([1, 2, 9]))]] if r.random() < .7 else [] for _ in range(r.choice([1, 2, 5, 63 if r.random() < .1 else 3]))]
    if not m["via"] and not any(m["future"]):
        m["future"] = []
    return m


def outside(r, m):
    """m with one number outside its documented range (but encodable)."""
    m = dict(m)
    c = [("tod", r.choice([86401, 2**17 - 2, 90000])), ("lat", r.choice([9000001, 2**25 - 1 - 9000000])), ("lon", r.choice([18000001, 2**26 - 1 - 18000000])),
         ("alt", r.choice([50001, 2**16 - 1 - 1000])), ("vel", [r.choice([513, 1023])]), ("asc", [32768]), ("press", [r.choice([12001, 16383])]),
         ("hum", [r.choice([101, 127])]), ("psm", [r.choice([6, 7])]), ("temps", [[[1024] if i == r.randrange(4) or i == 3 else [] for i in range(4)]])]
    k, v = r.choice(c)
    m[k] = v
    return m


# ------------------------------------------------------------------ views of decoded values

def view(v):
    if isinstance(v, bool):
        return {"t": "b", "v": v}
    if isinstance(v, int):
        small = abs(v) < 2**31
        return {"t": "i", "small": small, "n": v if small else 0, "w": octets(v)}
    if isinstance(v, float):
        small = math.isfinite(v) and abs(v) < 2000
        a = abs(v) if small else 0.0
        ip, fp = int(a), round((a - int(a)) * 1000000)
        if fp == 1000000:
            ip, fp = ip + 1, 0
        d = {"t": "f", "small": small, "ip": ip, "fp": fp}
        d.update(real(v))
        d["neg"] = v < 0
        return d
    if isinstance(v, str):
        return {"t": "s", "c": codes(v)}
    return {"t": "o"}
