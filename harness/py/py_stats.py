"""Runs the real FSKDemodStats through histories of updates at given times."""
import json, logging, sys
import clock
import horusdemodlib.demodstats as S
logging.disable(logging.CRITICAL)
job = json.loads(sys.stdin.read())


def sc(v, k):
    try:
        return round(v * k)
    except Exception:
        return -2000000000


out = []
for r in job["recs"]:
    st = S.FSKDemodStats(averaging_time=r["avg"] / 8, peak_hold=r["peak"])
    t = r["t0"] * 8
    ops = []
    for o in r["ops"]:
        t += o["dt"]
        clock.set(t // 8, (t % 8) * 125000)
        raised = False
        if "bad" in o:
            a = o["bad"]
            if a == "None":
                a = None
            elif a == "bytes":
                a = b"{}"
        else:
            d = {"EbNodB": o["snr"] / 100, "ppm": o["ppm"] / 100, "f1_est": o["f"][0] / 10, "f2_est": o["f"][1] / 10, "samp_fft": [1, 2]}
            if len(o["f"]) == 4:
                d["f3_est"], d["f4_est"] = o["f"][2] / 10, o["f"][3] / 10
            if o.get("ints"):
                d = {k: int(v) if type(v) == float and v == int(v) else v for k, v in d.items()}
            a = d if o["form"] == "dict" else json.dumps(d) if o["form"] == "json" else json.dumps(dict(d, eye_diagram=[[777.5]])).replace("[[777.5]]", "[[nan]]")
        try:
            st.update(a)
        except Exception:
            raised = True
        ops.append({"dt": o["dt"], "ok": "bad" not in o, "snr": o.get("snr", 0), "ppm": o.get("ppm", 0), "f": o.get("f", [0, 0]), "raised": raised,
                    "o": {"snr": sc(st.snr, 10000), "ppm": sc(st.ppm, 10000), "f": [sc(x, 10) for x in st.fest], "mean": sc(st.fest_mean, 100), "sp": sc(st.fest_spacing, 100)}})
    out.append({"avg": r["avg"], "peak": r["peak"], "ops": ops})
print("RESULT " + json.dumps(out))
