#!/usr/bin/env python3
"""C16: queued telemetry is uploaded once, in order, with bounded retries."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import upload


def check(ck):
    upload.design(ck)
    jobs, recs = upload.histories(ck, rng("c16"))
    upload.judge(ck, "badT", jobs, recs, "Telemetry")
    ck.traces(len(recs))
    ck.count("batches", sum(e["e"] == "tput" for x in recs for e in x["ev"]))
    ck.sample(recs[0]["ev"][:6])


main("C16", check)
