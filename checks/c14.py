#!/usr/bin/env python3
"""C14: a payload's time of day is resolved to the right date."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import pyenv


def check(ck):
    T = thorough()
    r = rng("c14")
    env = pyenv.build(ck.dir, ext=False)
    dates = [(2024, 2, 28), (2024, 2, 29), (2024, 3, 1), (2023, 2, 28), (2023, 3, 1), (2024, 12, 31), (2025, 1, 1), (2000, 2, 29), (2100, 2, 28), (2024, 4, 30), (2024, 5, 1)]
    dates += [(r.randrange(1990, 2090), r.randrange(1, 13), r.randrange(1, 29)) for _ in range(40 if T else 4)]
    edges = [(h, m, s) for h in range(24) for m, s in ((0, 0), (59, 59), (0, 59), (59, 0))]
    few = [(0, 0, 0), (0, 0, 1), (0, 59, 59), (1, 0, 0), (11, 59, 59), (12, 0, 0), (12, 34, 56), (22, 59, 59), (23, 0, 0), (23, 59, 58), (23, 59, 59)]
    jobs = []

    def rnd():
        return (r.randrange(24), r.randrange(60), r.randrange(60))
    for d in dates:
        clocks = few + [rnd() for _ in range(6)] + [(r.choice([0, 23]), r.randrange(60), r.randrange(60)) for _ in range(4)]
        for mode in ("clock", "str", "iso"):
            for c in clocks if mode == "clock" or T else r.sample(clocks, 8):
                near = [((c[0] * 3600 + c[1] * 60 + c[2] + k) % 86400) for k in (-181, -180, -3600, -3599, -1, 0, 1, 3599, 3600, 43200, r.randrange(86400))]
                jobs.append({"clk": list(d + c), "us": r.choice([0, 1, 999999, r.randrange(1000000)]), "mode": mode,
                             "times": (edges if T or c in few else few) + [(x // 3600, x // 60 % 60, x % 60) for x in near] + [rnd() for _ in range(8)]})
    if T:
        for d in dates[:6]:
            for c in range(0, 86400, 997):
                jobs.append({"clk": list(d + (c // 3600, c // 60 % 60, c % 60)), "us": r.randrange(1000000), "mode": "clock", "times": [(x // 3600, x // 60 % 60, x % 60) for x in range(c % 61, 86400, 211)]})
    r.shuffle(jobs)
    recs = env.call("py_fixdt.py", {"recs": jobs})
    ck.count("resolutions", sum(len(x["pts"]) for x in recs))
    validate_records(ck, "ClockTrace", recs, "clocks", what="fix_datetime does not resolve a time of day to the right date",
                     describe=lambda x: "clock %s: %s" % (x["clk"], json.dumps(x["pts"])[:700]))
    ck.sample({"clk": recs[0]["clk"], "first": recs[0]["pts"][0]})


main("C14", check)
