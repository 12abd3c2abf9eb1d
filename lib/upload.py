"""Histories of the SondeHub uploader: schedules from the design (TLC) and random ones, run on the real class."""
from common import *
import pyenv


def design(ck):
    ck.spec(must_hold(tlc("UploadDesign", cfg="UploadDesignBig" if thorough() else "UploadDesign", timeout=3000), "UploadDesign"), "uploader design")


def schedules(ck, n):
    """Behaviours of UploadDesign, as schedules for the harness."""
    res = tlc("UploadDesign", cfg="UploadGen", extra=["-simulate", "num=%d" % n, "-depth", "110", "-seed", str(seed() + 17)], workers=1, timeout=300)
    must_hold(res, "UploadGen")
    out = []
    for m in dict.fromkeys(re.findall(r'<<"SCHEDULE", "(.*)">>', res.out)):
        out.append(json.loads(m.replace('\\"', '"')))
    if len(out) < n // 4:
        raise ToolError("TLC printed only %d schedules" % len(out))
    ck.count("schedules_from_spec", len(out))
    return out


def histories(ck, r):
    T = thorough()
    env = pyenv.build(ck.dir, ext=False)
    ST = {"ok": [200, 200, 202], "srv": [500, 500, 500, 502, 503, 504, 501], "err": [400, 403, 404, 413, 302, 429, 505, 520, 100], "exc": [-1, -2]}
    PST = {"ok": [200, 404], "srv": [500], "err": [400, 403, 502, 503, 504, 202, 301], "exc": [-1, -2]}

    def cfg():
        h2 = r.choice([1, 2, 2, 12, 12, 48])
        pos = r.choice([[], [-3450000, 13860000, 12000], [-3450000, 13860000, 0], [100000, -200000, 5000]])
        return {"rate": r.choice([1, 2, 2, 3, 30]), "retries": r.choice([1, 2, 3, 5]), "call": r.choice(["N0CALL", "VK5QI-1"]), "pos": pos, "radio": r.choice(["", "RTLSDR (434.200 MHz)"]),
                "ant": r.choice(["", "1/4-wave"]), "hours": h2 / 2, "hours2": h2, "inhibit": r.random() < .06}
    jobs = []
    kinds = ["", "", "", "", "unknown", "noalt", "via", "old"]
    for sc in schedules(ck, 1500 if T else 250):
        c = cfg()
        c.update(rate=3, retries=3, inhibit=False)
        jobs.append({"cfg": c, "steps": [{"k": s["k"], "st": r.choice((PST if s["k"] == "pput" else ST).get(s["st"], [200])), "acts": [["add"] if a == "add" else [a] for a in s["acts"]]} for s in sc]})
    for n in range(1500 if T else 250):
        c = cfg()
        bad = r.choice([0, .1, .3, .6, .9])
        steps = []
        m = r.randrange(3, 70)
        closing = m - 1 if r.random() < .5 else r.randrange(m)
        for k in range(m):
            acts = []
            for _ in range(r.choice([0, 0, 0, 1, 1, 2, 6])):
                x = r.random()
                acts.append(["add", r.choice(kinds)] if x < .65 else ["due"] if x < .72 else ["tick", r.choice([1, 5, 100, 1799, 1801, 3600, 20000])] if x < .9 else ["pos", [r.randrange(-9000000, 9000000), r.randrange(-18000000, 18000000), r.randrange(0, 100000)]])
            if k == closing:
                acts.append(["close"])
            if k > closing:
                acts = []
            st = r.choice(["srv", "srv", "err", "exc"]) if r.random() < bad else "ok"
            steps.append({"k": "any", "st": st, "acts": acts})
        for s in steps:
            s["st"] = r.choice(ST[s["st"]] + (PST[s["st"]] if s["st"] != "ok" else [200]))
        jobs.append({"cfg": c, "steps": steps, "text": r.choice(["{}", "", "<html>", '{"message": "x", "errors": [{"error_message": "e", "payload": {}}], "warnings": []}', '{"errors": [{}], "warnings": []}'])})
    # always-failing servers, and a close at every point of a short life
    for retries in (1, 2, 5):
        for st in (500, 503, 504, 200, 202, 400, -1):
            c = cfg()
            c.update(retries=retries, inhibit=False)
            jobs.append({"cfg": c, "steps": [{"k": "any", "st": st, "acts": [["add"], ["add"]] if k % 4 == 0 else []} for k in range(30)]})
    for k in range(14):
        c = cfg()
        c.update(inhibit=False)
        jobs.append({"cfg": c, "steps": [{"k": "any", "st": 200, "acts": [["add"]] + ([["close"]] if i == k else [])} for i in range(k + 1)]})
    # bursts: many records waiting at once, behind an outage or at the very end
    for n in (99, 101, 255, 257, 501, 1001, 2049) + ((5000, 10001) if T else ()):
        for st in (200, 500):
            c = cfg()
            c.update(inhibit=False, retries=2)
            k = r.randrange(3)
            jobs.append({"cfg": c, "steps": [{"k": "any", "st": st if i == k + 1 else 200, "acts": [["add"]] * n + ([["close"]] if r.random() < .7 else []) if i == k else []} for i in range(k + 2)]})
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        parts = list(ex.map(lambda p: env.call("py_upload.py", {"recs": p}), [jobs[i::8] for i in range(8)]))
    recs = [None] * len(jobs)
    for i, p in enumerate(parts):
        recs[i::8] = p
    ck.count("uploader_histories", len(recs))
    ck.count("uploader_events", sum(len(x["ev"]) for x in recs))
    return jobs, recs


def judge(ck, which, jobs, recs, inv):
    path = nontrivial_jsonl(os.path.join(ck.dir, "hist.ndjson"), recs)
    res = tlc("UploadTrace", cfg="UploadTrace" + inv, env={"TRACE": path})
    ck.spec(res, "histories")
    if not res.ok:
        if res.rc != 12:
            raise ToolError(res.out[-3000:])
        l = [int(x) for x in re.findall(r"/\\ l = (\d+)", res.out)][-1]
        i = [int(x) for x in re.findall(r"/\\ i = (\d+)", res.out)][-1]
        why = [x for x in re.findall(r'/\\ %s = "([^"]*)"' % which, res.out)][-1]
        raise Violation("%s (history %d, event %d: %s; %s)" % (why, l, i, json.dumps(recs[l - 1]["ev"][i - 1]), json.dumps(recs[l - 1]["cfg"])),
                        {"job": jobs[l - 1], "history": recs[l - 1], "event": i})
    return res
