#!/usr/bin/env python3
"""C17: the station position is uploaded at the configured rate only."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import upload


def check(ck):
    upload.design(ck)
    jobs, recs = upload.histories(ck, rng("c17"))
    upload.judge(ck, "badP", jobs, recs, "Position")
    ck.traces(len(recs))
    ck.count("station_uploads", sum(e["e"] == "pput" for x in recs for e in x["ev"]))
    ck.sample(recs[0]["ev"][:6])


main("C17", check)
