#!/usr/bin/env python3
"""C18: the uploader handles every input line and no line can stop it."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import uploader


def check(ck):
    jobs, recs = uploader.run_histories(ck, 3000 if thorough() else 400, "mixed", "c18")
    for k in ("bin", "v3", "text", "stats", "bad"):
        ck.count("lines_" + k, sum(f["kind"] == k for x in recs for f in x["facts"]))
    ck.count("uploaded", sum(len(x["up"]) for x in recs))
    uploader.judge(ck, jobs, recs, "UploaderTrace", "badU", "line handling")
    ck.sample(jobs[0]["lines"][:3])


main("C18", check)
