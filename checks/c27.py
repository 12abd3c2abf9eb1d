#!/usr/bin/env python3
"""C27: modem statistics are averaged over the configured window only."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import pyenv

FULL = {"EbNodB": 1.5, "ppm": 2.0, "f1_est": 1000.0, "f2_est": 1270.0, "f3_est": 1540.0, "f4_est": 1810.0, "samp_fft": [1]}


def bads(r):
    b = ["", "x", "{", "{}", "[]", "5", "null", "true", '"EbNodB"', "[1,2,3]", '["EbNodB","ppm","f1_est","f2_est","samp_fft"]', "None", "bytes", "nan", "{nan}", json.dumps(FULL)[:-1], json.dumps(FULL) + "x", 5, [1], 1.5, {}]
    for k in ("EbNodB", "ppm", "f1_est", "f2_est", "samp_fft"):
        d = {a: v for a, v in FULL.items() if a != k}
        b += [d, json.dumps(d)]
    for k in ("EbNodB", "ppm", "f1_est", "f2_est", "f3_est", "f4_est"):
        for v in ("12", None, [1.0], {}, "x"):
            b.append(dict(FULL, **{k: v}))
        b.append(json.dumps(dict(FULL, **{k: r.choice(["7", None, "nan", [2]])})))
        b.append(json.dumps(dict(FULL, **{k: 1.25})).replace("1.25", r.choice(["1e999", "-Infinity", "NaN", "Infinity"])))
    return b


def check(ck):
    T = thorough()
    r = rng("c27")
    env = pyenv.build(ck.dir, ext=False)
    B = bads(r)
    jobs = []
    for n in range(3000 if T else 400):
        avg = r.choice([1, 4, 8, 8, 32, 32, 32, 40, 80])
        ops = []
        style = r.choice(["steady", "steady", "bursts", "mixed", "edge"])
        tones = r.choice([2, 4])
        for k in range(r.randrange(5, 60)):
            dt = {"steady": 1, "bursts": r.choice([0, 0, 1, 1, avg, avg + 1, 3 * avg]), "mixed": r.choice([0, 1, 2, 3, 8, avg - 1, avg, avg + 1, 1000]), "edge": r.choice([1, avg - 1, avg, avg + 1])}[style]
            o = {"dt": dt}
            if r.random() < (.25 if style != "steady" else .1):
                o["bad"] = r.choice(B)
            else:
                f1 = r.randrange(2000, 15000)
                sp = r.choice([2700, 1850, r.randrange(0, 6000)])
                o.update(snr=r.choice([r.randrange(-3000, 6000), r.randrange(-500, 2000), 0, -10000]), ppm=r.randrange(-9000, 9000), form=r.choice(["dict", "json", "nan"]), ints=r.random() < .2,
                         f=[f1, f1 + sp] if tones == 2 and style != "mixed" or (style == "mixed" and r.random() < .3) else [f1, f1 + sp, f1 + 2 * sp + r.randrange(-20, 20), f1 + 3 * sp + r.randrange(-50, 50)])
            ops.append(o)
        jobs.append({"avg": avg, "peak": r.random() < .5, "t0": r.choice([1000000, 1700000000, 0]), "ops": ops})
    for b in B:      # each unusable update: alone, first, and between good ones
        g = lambda s: {"dt": 2, "snr": s, "ppm": 50, "form": "json", "f": [10000, 12700, 15400, 18100]}
        jobs.append({"avg": 32, "peak": r.random() < .5, "t0": 50, "ops": [{"dt": 1, "bad": b}, g(100), {"dt": 1, "bad": b}, g(300), g(250)]})
    recs = env.call("py_stats.py", {"recs": jobs})
    ck.count("updates", sum(len(x["ops"]) for x in recs))
    path = nontrivial_jsonl(os.path.join(ck.dir, "stats.ndjson"), recs)
    res = tlc("StatsTrace", env={"TRACE": path})
    ck.spec(res, "histories")
    if not res.ok:
        if res.rc != 12:
            raise ToolError(res.out[-3000:])
        st = re.findall(r"/\\ (l|i) = (\d+)", res.out)
        l, i = [int(v) for k, v in st if k == "l"][-1], [int(v) for k, v in st if k == "i"][-1]
        raise Violation("update %d of history %d (avg %s/8 s, peak %s) is not reported as the window's statistics: %s, input %s" % (
            i, l, recs[l - 1]["avg"], recs[l - 1]["peak"], json.dumps(recs[l - 1]["ops"][i - 1]), json.dumps(jobs[l - 1]["ops"][i - 1])), {"history": recs[l - 1], "input": jobs[l - 1]})
    if res.distinct < sum(len(x["ops"]) + 1 for x in recs):
        raise ToolError("TLC did not walk all histories")
    ck.traces(len(recs))
    ck.sample({"avg": jobs[0]["avg"], "ops": jobs[0]["ops"][:3]})


main("C27", check)
