#!/usr/bin/env python3
"""C19: payload lists are refreshed on unknown IDs, at most every 30 minutes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import uploader


def check(ck):
    jobs, recs = uploader.run_histories(ck, 3000 if thorough() else 400, "refresh", "c19")
    for k in ("bin", "v3", "text", "stats", "bad"):
        ck.count("lines_" + k, sum(f["kind"] == k for x in recs for f in x["facts"]))
    ck.count("uploaded", sum(len(x["up"]) for x in recs))
    uploader.judge(ck, jobs, recs, "UploaderTraceRefresh", "badR", "refreshing")
    ck.sample(jobs[0]["lines"][:3])


main("C19", check)
