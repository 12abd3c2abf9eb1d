#!/usr/bin/env python3
"""C10: v1/v2 packets decode to the values their bytes encode."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import packets, pyenv
from packets import tail, body

FMTS = ("horus_binary_v1", "horus_binary_v2_32byte", "horus_binary_v2_16byte")


def check(ck):
    T = thorough()
    r = rng("c10")
    env = pyenv.build(ck.dir, ext=False)
    real = packets.real_lists()
    lists = [real, {"ids": {}, "custom": {"4FSKTEST-V2": real["custom"]["4FSKTEST-V2"]}}]
    for k in range(20 if T else 8):
        ids = {str(i): "CALL%d" % i for i in r.sample(range(256, 2000), 12)}
        ids.update({str(i): "OLD-%d" % i for i in r.sample(range(256), 6)})
        cust = {v: packets.random_def(r) for i, v in ids.items() if int(i) >= 256}
        cust["4FSKTEST-V2"] = packets.random_def(r) if k % 2 else real["custom"]["4FSKTEST-V2"]
        lists.append({"ids": ids, "custom": cust})
    jobs = []
    n = 1500 if T else 250
    for li, ls in enumerate(lists):
        ids = ls["ids"] or {"256": "x"}
        for fmt in FMTS:
            k = n * (3 if li == 0 else 1) // (1 if "32" in fmt else 3)
            for _ in range(k):
                jobs.append({"data": tail(body(fmt, r, ids)).hex(), "ls": li, "fmt": fmt if r.random() < .1 else ""})
        # every payload of the list once
        for i in ls["ids"]:
            b = body(FMTS[1] if int(i) > 255 else FMTS[0], r, [i])
            jobs.append({"data": tail(struct_id(b, int(i))).hex(), "ls": li})
    # every value of every one byte field, every boundary of the others, one at a time
    for fmt, off in (("horus_binary_v1", range(1, 20)), ("horus_binary_v2_32byte", range(2, 30)), ("horus_binary_v2_16byte", range(1, 14))):
        for o in off:
            base = bytearray(body(fmt, r, {"256": "x"}, 1))
            for v in (range(256) if T else (0, 1, 9, 10, 23, 24, 59, 60, 67, 99, 100, 127, 128, 168, 194, 195, 199, 200, 253, 255)):
                base[o] = v
                jobs.append({"data": tail(bytes(base)).hex(), "ls": 0})
    with open(os.path.join(ck.dir, "lists.json"), "w") as f:
        json.dump(packets.spec_lists(lists), f)
    for _ in range(200):      # other formats in between, and the lists changing from call to call
        jobs.append({"v3": {"payloadCallsign": "X-%d" % r.randrange(99), "sequenceNumber": 1, "timeOfDaySeconds": 5, "latitude": 1, "longitude": 2, "altitudeMeters": r.choice([5, -1000])}, "ls": 0})
    r.shuffle(jobs)
    recs = env.call("py_packet.py", {"lists": lists, "recs": jobs})
    ck.count("decoded", sum(x["res"] == "ok" for x in recs))
    ck.count("rejected", sum(x["res"] != "ok" for x in recs))
    validate_records(ck, "PacketTrace", recs, "packets", env={"LISTS": os.path.join(ck.dir, "lists.json")},
                     what="decode_packet does not report what the packet's bytes encode",
                     describe=lambda x: json.dumps({k: v for k, v in x.items()})[:900])
    ck.sample(recs[0])


def struct_id(b, i):
    return (bytes([i & 255, i >> 8]) + b[2:]) if i > 255 else bytes([i]) + b[1:]


main("C10", check)
