#!/usr/bin/env python3
"""C11: v3 telemetry maps to the documented output fields."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import pyenv, uper, v3


def check(ck):
    T = thorough()
    r = rng("c11")
    env = pyenv.build(ck.dir, ext=False)
    ss = []
    # every optional part alone, and all but one
    parts = ("sensors", "vel", "sats", "asc", "press", "temps", "hum", "mv", "counts", "psm", "custom", "via")
    for k in parts:
        for _ in range(6 if T else 3):
            full = uper.message(r, p=1)
            m = uper.plain("ONLY-" + "%02d" % parts.index(k), 7)
            m[k] = full[k]
            ss.append([v3.step(m, r)])
            full[k] = []
            ss.append([v3.step(full, r)])
    # each bounded number at and around its ends
    for k, vs, opt in (("tod", (-1, 0, 1, 59, 60, 3599, 3600, 43200, 86399, 86400), 0), ("lat", (-9000000, -1, 0, 1, 9000000), 0), ("lon", (-18000000, -1, 0, 1, 18000000), 0),
                       ("alt", (-1000, -999, -1, 0, 1, 50000), 0), ("seq", (0, 1, 255, 256, 65535), 0), ("vel", (0, 1, 512), 1), ("sats", (0, 31), 1),
                       ("asc", (-32767, -1, 0, 1, 32767), 1), ("press", (0, 1, 12000), 1), ("hum", (0, 100), 1), ("psm", range(6), 1), ("via", range(8), 1)):
        for v in vs:
            m = uper.message(r, p=.3)
            m[k] = [v] if opt else v
            ss.append([v3.step(m, r)])
    for k, lo, hi in (("temps", -1023, 1023), ("mv", 0, 16383)):
        for i in range(4):
            for v in (lo, 0, hi):
                m = uper.plain("GRP", i)
                m[k] = [[[v] if j == i else [] for j in range(4)]]
                ss.append([v3.step(m, r)])
    for _ in range(6000 if T else 700):
        ss.append([v3.step(uper.message(r, big=True, future=True), r)])
    for _ in range(3000 if T else 300):
        ss.append([v3.step(uper.outside(r, uper.message(r)), r, msg=False)])
    for _ in range(8000 if T else 700):
        ss.append([v3.wild(uper.message(r, future=True), r)])
    for _ in range(500 if T else 60):
        ss.append([v3.damaged(v3.step(uper.message(r), r), r)])
    # the same session goes on after whatever came before
    for _ in range(300 if T else 40):
        ss.append([r.choice([v3.step(uper.message(r), r), v3.wild(uper.message(r), r), v3.other(r), v3.damaged(v3.step(uper.message(r), r), r)]) for _ in range(8)])
    for h in ss:
        if len(h) > 1:      # an undecided packet may have taught the decoder names: nothing is claimed about what follows, so keep only settled ones
            h[:] = [s for s in h if s["msg"] or s["kind"] != "v3"]
    recs = v3.run(ck, env, [h for h in ss if h], "messages", "decode_packet does not report what the v3 packet's message says")
    ck.sample({"packet": bytes(recs[0]["steps"][0]["packet"]).hex(), "fields": [f["name"] for f in recs[0]["steps"][0]["out"]["fields"]]})


main("C11", check)
