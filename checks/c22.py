#!/usr/bin/env python3
"""C22: encoded packets decode to the values given, clipped to the format's range."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import pyenv

LIM = {"hours": (0, 23, 1), "minutes": (0, 59, 1), "seconds": (0, 59, 1), "altitude": (0, 65535, 1), "speed": (0, 255, 1), "satellites": (0, 255, 1), "temperature": (-128, 127, 1),
       "battery_voltage": (0, 5, 51), "ascent_rate": (-327.68, 327.67, 100), "ext_temperature": (-3276.8, 3276.7, 10), "ext_humidity": (0, 255, 1), "ext_pressure": (0, 6553.5, 10)}


def check(ck):
    T = thorough()
    r = rng("c22")
    env = pyenv.build(ck.dir)

    def value(k):
        lo, hi, sc = LIM[k]
        v = r.choice([lo, hi, lo - 1, hi + 1, lo + 1, hi - 1, 0, 0.0, 1, -1, -0.5, lo - 0.25, hi + 0.25, hi + 0.99, *((x + n / sc) for x in (lo, hi) for n in (-2, -1, 1, 2)), 10 * hi, -10 * hi, 1e9, -1e9, 10**12, -10**12, 1e30, -1e30, r.uniform(lo, hi), r.uniform(lo, hi),
                      r.uniform(lo, hi), r.uniform(lo, hi), r.uniform(2 * lo - hi, 2 * hi - lo), r.randrange(int(lo), int(hi) + 1)])
        return v if isinstance(v, int) or abs(v) > 1e6 else round(v, 4)

    def degv(m):
        return r.choice([0, 0.0, -0.0, m, -m, 0.00001, -0.00001, r.randrange(-m, m + 1), round(r.uniform(-m, m), 6), round(r.uniform(-m, m), 6), round(r.uniform(-1, 1), 6)])
    jobs = []
    N = 12000 if T else 2000
    for n in range(N):
        a = {}
        full = r.random() < .5
        for k in LIM:
            if full or r.random() < .3:
                a[k] = value(k)
        if r.random() < .4:
            for k in ("hours", "minutes", "seconds"):
                a[k] = value(k)
        if r.random() < .7:
            a["latitude"], a["longitude"] = degv(90), degv(180)
        elif r.random() < .1:
            a["latitude"], a["longitude"] = r.choice([181.0, -500, 1e10]), degv(180)
        if r.random() < .8:
            a["payload_id"] = r.choice([256, 257, 65535, 65534, r.randrange(256, 65536), r.randrange(256, 65536), r.randrange(256, 65536)]) if r.random() < .9 else r.choice([255, 0, 1, -1, 65536, 65537, 10**6, 2**32 + 300])
        if r.random() < .8:
            a["sequence_number"] = r.choice([0, 1, 65535, 65536, 65537, -1, 10**12, -10**9, r.randrange(65536), r.randrange(200000)])
        j = {"k": "packet", "args": a, "now": [2024, r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60)]}
        if r.random() < .3:
            a["time_dt"] = [2023, 5, 6, r.randrange(24), r.randrange(60), r.randrange(60)]
        if r.random() < .25:
            a["custom_data"] = [r.randrange(256) for _ in range(r.choice([9, 9, 9, 9, 0, 8, 10]))]
            j["ctype"] = r.choice(["bytes"] * 8 + ["str", "list"])
        jobs.append(j)
    for k, (lo, hi, sc) in LIM.items():           # each limit, step by step
        for v in (lo, hi):
            for n in (-3, -2, -1, -0.5, 0, 0.5, 1, 2, 3):
                w = v + n / sc
                jobs.append({"k": "packet", "args": {**({"hours": 1, "minutes": 2, "seconds": 3} if k in ("hours", "minutes", "seconds") else {}), k: int(w) if w == int(w) and r.random() < .5 else round(w, 4)}, "now": [2024, 1, 2, 3, 4, 5]})
    recs = env.call("py_encoder.py", {"recs": jobs})
    for k in ("ok", "ValueError"):
        ck.count(k, sum(x["res"] == k for x in recs))
    validate_records(ck, "EncoderTrace", recs, "packets", what="create_horus_v2_packet does not encode its arguments, clipped", describe=lambda x: json.dumps(x)[:1800])
    ck.sample(jobs[0])


main("C22", check)
