#!/usr/bin/env python3
"""C13: UKHAS sentences are parsed only when intact, and into their own values."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import packets, pyenv
from packets import tail, body
from rx import crc16

FMTS = ("horus_binary_v1", "horus_binary_v2_32byte", "horus_binary_v2_16byte")


def check(ck):
    T = thorough()
    r = rng("c13")
    env = pyenv.build(ck.dir, ext=False)
    jobs = []

    def sent(b, crc=None, lead="$$", end="\n", **kw):
        c = "%04X" % crc16(b.encode("utf-8")) if crc is None else crc
        jobs.append(dict({"t": lead + b + "*" + c + end}, **kw))

    def dec(lo, hi, places):
        return ("%%.%df" % places) % r.uniform(lo, hi)

    good = {0: lambda: r.choice(["HORUS", "4FSKTEST-V2", "vk5qi/P_1", "A", "", " X ", "x" * 30, "K6-9", "a:b;c"]),
            1: lambda: r.choice(["0", "1", "007", "65535", "65536", "-5", "99999999999999", str(r.randrange(70000))]),
            2: lambda: r.choice(["%02d:%02d:%02d", "%02d%02d%02d"]) % (r.choice([0, 23, r.randrange(24)]), r.choice([0, 59, r.randrange(60)]), r.choice([0, 59, r.randrange(60)])),
            3: lambda: r.choice(["0.0", "-0.00000", "180", "-180.00000", "180.000", "90", "-34.5", "0.000001", "-0.5", "012.25", dec(-90, 90, 5), dec(-90, 90, r.randrange(1, 12)), dec(-1, 1, 7)]),
            4: lambda: r.choice(["0.0", "179.99999", "-180", "-0.00001", "138.6007", dec(-180, 180, 5), dec(-180, 180, r.randrange(1, 12))]),
            5: lambda: r.choice(["0", "65535", "1", "00042", "-0", str(r.randrange(65536))])}
    bad = {1: ["", "x", "1.", "0x10", "--1", "1e3", "one", "1_0", " 1", "+1", "1 2", "-", "NaN", "1,", "١", "1\t"],
           2: ["24:00:00", "23:60:00", "00:00:60", "00:00:61", "12:34", "1:2:3", "99:99:99", "240000", "006000", "000060", "", "12:34:56:78", "noon", "12.34.56", "-1:00:00", "12:3a:00", "000061", "12345", "1234567", "12:34:5", " 12:34:56", "12 34 56"],
           3: ["", "x", "nan", "NaN", "inf", "-inf", "Infinity", "180.00001", "-180.00001", "181", "1e3", "-999", "1e1", ".5", "5.", "+5.0", " 5.0", "5_0.0", "1.2.3", "--5", "12,5", "12N", "9" * 40, "1e400", "-1e400", "1e", "−5"],
           4: ["", "x", "nan", "-nan", "inf", "180.1", "-181", "360", "1e2", "1e999", "..", "E", "0x1p3", "179.999999999999999999", "180.000000000000000001"],
           5: ["65536", "-1", "", "x", "100.5", "1e3", "99999999999999999999", "-65535", "nan", "+5", "6_5", " 7", "7m", "0x7", "1 0"]}

    def fields(k=None):
        f = [good[i]() for i in range(6)]
        if k:
            f[k] = r.choice(bad[k])
        return f + [r.choice(["", "1.5", "hello", "-3", "12:00:00", "$"[:0]]) for _ in range(r.choice([0, 0, 1, 3, 8]))]
    N = 3000 if T else 500
    for _ in range(N):
        b = ",".join(fields())
        lead = "$" * r.choice([1, 2, 2, 2, 3, 20])
        sent(b, lead=lead, end=r.choice(["", "\n", "\r\n", "  ", "\t\n\x0b\x0c\x1c"]), bytes=r.random() < .3)
    for k in range(1, 6):
        for v in bad[k]:
            f = fields()
            f[k] = v
            sent(",".join(f))
        for _ in range(N // 25):
            sent(",".join(fields(k)))
    for _ in range(N // 5):
        b = ",".join(fields())
        c = "%04X" % crc16(b.encode())
        sent(b, c.lower()), sent(b, c[:3]), sent(b, c + "0"), sent(b, c + " 1"), sent(b, ""), sent(b, "0x" + c), sent(b, c.lstrip("0") or "0")
        sent(b, "%04X" % (int(c, 16) ^ (1 << r.randrange(16)))), sent(b, c[2:] + c[:2]), sent(b, "%04X" % crc16(("$$" + b).encode())), sent(b, "%04X" % crc16((b + "*").encode()))
        sent(b, "%04X" % crc16(b.encode(), 0)), sent(b, c[:-1] + "G"), sent(b, c + "*"), sent(b, c + "*junk"), sent(b, "*" + c), sent(b, " " + c)
        sent(b, lead=""), sent(b, lead="noise$$"), sent(b, lead="$$A,1,00:00:00,1,2,3*0000$$"), sent(b, lead="é$$"), sent(b, lead="  $$"), sent(b, lead="$ $"), sent(b, lead="x")
        sent(b, lead="é$$", bytes=True), sent("é" + b), sent(b + "é"), sent("ÿ" + b, bytes=True), sent("\x7f" + b), sent("\0" + b)
        f = b.split(",")
        for n in range(0, 6):
            sent(",".join(f[:n]))
        sent("$" + b), sent(b.replace(",", ";")), sent("," + b), sent(b.replace(",", "$", 1)), sent(b.replace(",", "*", 1))
        i = r.randrange(len(b))
        sent(b[:i] + chr(ord(b[i]) ^ (1 << r.randrange(7))) + b[i + 1:], c)
        t = "$$" + b + "*" + c
        i = r.randrange(len(t))
        for m in (t[:i], t[i:], t[:i] + t[i + 1:], t[:i] + r.choice("$*,\0 \nZ0") + t[i:], t[::-1], t + t, t + "\n" + t, t.lower(), t.replace("*", "")):
            jobs.append({"t": m, "bytes": r.random() < .2})
    for _ in range(N // 4):
        jobs.append({"t": "".join(r.choice("$*,0123456789ABC.-: x") for _ in range(r.randrange(0, 60)))})
    for t in ("", "$", "$$", "*", "$$*", "$$*FFFF", "*FFFF", "$$,,,,,*", "$$$$$$$", "\n", "FFFF", "$$*FFFF*", "**", "$*$*"):
        jobs.append({"t": t})
    real = packets.real_lists()
    for fmt in FMTS:
        for _ in range(N // 3):
            jobs.append({"packet": tail(body(fmt, r, real["ids"], 1)).hex()})
    recs = env.call("py_ukhas.py", {"lists": real, "recs": jobs})
    ck.count("accepted", sum(x["res"] == "ok" for x in recs))
    ck.count("refused", sum(x["res"] != "ok" for x in recs))
    ck.count("round_trips", sum("of" in x for x in recs))
    validate_records(ck, "UkhasTrace", recs, "sentences", what="parse_ukhas_string accepts, refuses or reads a text wrongly",
                     describe=lambda x: json.dumps({"text": "".join(map(chr, x["t"])), **{k: v for k, v in x.items() if k != "t"}})[:900])
    ck.sample("".join(map(chr, recs[0]["t"])))


main("C13", check)
