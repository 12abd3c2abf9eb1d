#!/usr/bin/env python3
"""C07: the demodulated blocks do not depend on how audio is chunked."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import front, pyenv


def check(ck):
    T = thorough()
    r = rng("c07")
    ck.spec(must_hold(tlc("FrontDesign"), "FrontDesign"), "FrontDesign")
    env = pyenv.build(ck.dir)
    jobs = []
    for n in range(3000 if T else 500):
        mode, iq = r.choice(front.MODES), r.choice([0, 0, 1])
        ns = front.nins(r)
        total = r.randint(0, 3000 if sum(ns) / len(ns) < 100 else 60000)
        jobs.append({"kind": "add", "mode": mode, "iq": iq, "rate": 48000, "nins": ns, "outs": front.outs(r, mode, 30), "quiet": front.QUIET, "chunks": front.chunks(r, total),
                     "cb": r.random() < .85, "ba": r.random() < .3})
    for rate in (8000, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 96000, 192000):
        for n in range(40 if T else 6):
            mode, iq = r.choice(front.MODES), r.choice([0, 0, 1])
            ns = [4800 + r.choice([0, 120, -120, r.randint(-120, 120)]) for _ in range(8)]
            total = r.randint(0, (12 if T else 6) * 9600 * (1 + iq) * rate // 48000)
            jobs.append({"kind": "rs", "mode": mode, "iq": iq, "rate": rate, "nins": ns, "outs": front.outs(r, mode, 30), "quiet": front.QUIET, "chunks": front.chunks(r, total), "cb": True})
    res = env.call("py_demod.py", {"recs": jobs})
    ck.count("calls", sum(len(x.get("calls", [])) for x in res))
    ck.count("blocks", sum(len(c["blocks"]) for x in res for c in x.get("calls", [])))
    ck.count("frames", sum(len(c["frames"]) for x in res for c in x.get("calls", [])))
    ck.sample({"nins": jobs[0]["nins"], "chunks": jobs[0]["chunks"][:20]})
    validate_records(ck, "FrontTrace", res, "front", what="front end")


main("C07", check)
