"""Listening sessions of Horus Binary v3 packets: building them, running them, having the specification judge them."""
import json, struct
from common import *
import packets, uper


def step(m, r, body=None, kind="v3", msg=True):
    b = uper.encode(m) if body is None else body
    pad = uper.padto(len(b)) if r.random() < .8 else r.choice([0, 1, 7])
    return {"packet": uper.packet(b, pad).hex(), "msg": [m] if msg and body is None else [], "kind": kind}


def damaged(s, r):
    b = bytearray.fromhex(s["packet"])
    for i in r.sample(range(8 * len(b)), r.choice([1, 1, 2, 3])):
        b[i // 8] ^= 1 << (i % 8)
    return {"packet": bytes(b).hex(), "msg": [], "kind": "damaged"}


def wild(m, r):
    """Octets with a good checksum that are no regular encoding of m any more: bits changed, octets lost."""
    b = bytearray(uper.encode(m))
    c = r.randrange(4)
    if c == 0:
        for i in r.sample(range(8 * len(b)), r.choice([1, 1, 2, 5])):
            b[i // 8] ^= 1 << (7 - i % 8)
    elif c == 1:
        b = b[:r.randrange(1, len(b))]
    elif c == 2:
        i = r.randrange(len(b))
        b[i] = r.choice([0, 255, r.randrange(256)])
    else:
        b[:2] = bytes([b[0] ^ (1 << r.randrange(8)), b[1] ^ (1 << r.randrange(8))])
    return {"packet": uper.packet(bytes(b), r.choice([0, 0, uper.padto(len(b))])).hex(), "msg": [], "kind": "v3"}


def other(r):
    return {"packet": packets.tail(packets.body(r.choice(["horus_binary_v1", "horus_binary_v2_32byte", "horus_binary_v2_16byte"]), r, {"256": "x"})).hex(), "msg": [], "kind": "other"}


def run(ck, env, sessions, name, what):
    res = env.call("py_v3.py", {"histories": [[s["packet"] for s in h] for h in sessions]})
    recs = []
    for h, o in zip(sessions, res):
        recs.append({"steps": [{"packet": list(bytes.fromhex(s["packet"])), "msg": s["msg"], "kind": s["kind"], "loose": s.get("loose", False), "out": x} for s, x in zip(h, o)]})
    ck.count("packets decoded", sum(x["ok"] for o in res for x in o))
    ck.count("packets rejected", sum(not x["ok"] for o in res for x in o))

    validate_records(ck, "HorusV3Trace", recs, name, what=what, describe=lambda x: json.dumps([bytes(s["packet"]).hex() + " -> " + json.dumps({f["name"]: f["v"] for f in s["out"]["fields"]}) for s in x["steps"]])[:3000])
    return recs
