#!/usr/bin/env python3
"""C09: packets are only decoded in a format their checksum and length support."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import packets, pyenv
from packets import tail, head, body
from rx import crc16

FMTS = ("horus_binary_v1", "horus_binary_v2_32byte", "horus_binary_v2_16byte", "horus_binary_v3")


def check(ck):
    T = thorough()
    r = rng("c09")
    env = pyenv.build(ck.dir, ext=False)
    real = packets.real_lists()
    lists = [real, {"ids": {"0": "4FSKTEST", "256": "4FSKTEST-V2"}, "custom": {"4FSKTEST-V2": real["custom"]["4FSKTEST-V2"]}}]
    jobs = []

    def add(b, fmt="", ign=False):
        jobs.append({"data": bytes(b).hex(), "ls": r.randrange(2), "fmt": fmt, "ign": ign})

    def v3(**kw):
        m = {"payloadCallsign": "".join(r.choice("ABCz123-/") for _ in range(r.randrange(1, 16))), "sequenceNumber": r.randrange(65536), "timeOfDaySeconds": r.randrange(-1, 86401),
             "latitude": r.randrange(-9000000, 9000001), "longitude": r.randrange(-18000000, 18000001), "altitudeMeters": r.randrange(-1000, 50001)}
        return dict({"v3": m, "ls": r.randrange(2)}, **kw)
    # every length, every way of being (in)valid, in every format asked for
    for n in list(range(0, 141)) + [200, 255, 256, 257]:
        for k in range(6 if T else 2):
            p = bytes(r.randrange(256) for _ in range(n)) if k % 2 == 0 else bytes([r.choice([0, 255])]) * n
            forms = [p]
            if n >= 2:
                q, w = p[:n - 2], p[2:]
                c = crc16(q)
                forms += [tail(q), head(w), q + bytes([c >> 8, c & 255]), q + struct_le(crc16(q, 0)), q + struct_le(crc16(p)), struct_le(crc16(q)) + q[2:] + p[:4] if n > 4 else p]
                if n > 3:
                    forms.append(head(w)[:-1] + bytes([w[-1] ^ 1]))
                    forms.append(tail(q)[:-1] + bytes([tail(q)[-1] ^ 128]))
                    forms.append(q[:-1] + struct_le(crc16(q[:-1])) + b"\0")
            for f in forms:
                f = f[:n]
                add(f)
                if k == 0 or r.random() < .2:
                    for fmt in FMTS:
                        add(f, fmt, r.random() < .5)
    # packets that are well formed inside: valid, one bit wrong anywhere, asked for as something else
    for fmt in FMTS[:3]:
        for _ in range(40 if T else 6):
            p = tail(body(fmt, r, real["ids"], 1))
            add(p), add(p, fmt), add(p, fmt, True), add(p, "", True)
            for g in FMTS:
                add(p, g, r.random() < .3)
            bits = range(8 * len(p))
            for b in bits if T else r.sample(bits, 60):
                q = bytes(x ^ (1 << (b % 8) if i == b // 8 else 0) for i, x in enumerate(p))
                add(q)
                if r.random() < .1:
                    add(q, fmt), add(q, fmt, True), add(q, "", True)
            add(p[:-1]), add(p + b"\0"), add(p[1:]), add(b"\0" + p), add(p[2:] + p[:2]), add(p[::-1])
            d = body(fmt, r, real["ids"], 0)          # right checksum, impossible contents
            add(tail(d)), add(tail(d), fmt)
        if T:
            p = tail(body(fmt, r, real["ids"], 1))
            for a in range(8 * len(p)):
                for b in r.sample(range(8 * len(p)), 12):
                    q = bytearray(p)
                    q[a // 8] ^= 1 << (a % 8)
                    q[b // 8] ^= 1 << (b % 8)
                    add(q)
    for _ in range(300 if T else 60):
        jobs.append(v3()), jobs.append(v3(fmt="horus_binary_v3")), jobs.append(v3(ign=r.random() < .5)), jobs.append(v3(fmt=r.choice(FMTS[:3])))
        jobs.append(v3(flip=r.randrange(8 * 20))), jobs.append(v3(flip=r.randrange(16))), jobs.append(v3(flip=r.randrange(16), fmt="horus_binary_v3"))
    r.shuffle(jobs)
    with open(os.path.join(ck.dir, "lists.json"), "w") as f:
        json.dump(packets.spec_lists(lists), f)
    recs = env.call("py_packet.py", {"lists": lists, "recs": jobs})
    ck.count("decoded", sum(x["res"] == "ok" for x in recs))
    ck.count("rejected", sum(x["res"] != "ok" for x in recs))
    validate_records(ck, "PacketTrace", recs, "packets", env={"LISTS": os.path.join(ck.dir, "lists.json")},
                     what="decode_packet accepts, rejects or interprets a byte string other than its length and checksum say",
                     describe=lambda x: json.dumps({k: v for k, v in x.items() if k not in ("raw", "text", "fields")})[:900])
    ck.sample(recs[0])


def struct_le(c):
    return bytes([c & 255, c >> 8])


main("C09", check)
