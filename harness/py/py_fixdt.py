"""Runs the real fix_datetime against given clocks."""
import json, logging, sys
import clock
import horusdemodlib.delegates as D
logging.disable(logging.CRITICAL)
job = json.loads(sys.stdin.read())
out = []
for r in job["recs"]:
    c = r["clk"]
    clock.set(clock.epoch(*c), r["us"])
    arg = None if r["mode"] == "clock" else ("%04d-%02d-%02d %02d:%02d:%02d" if r["mode"] == "str" else "%04d-%02d-%02dT%02d:%02d:%02d.%06dZ") % (tuple(c) + ((r["us"],) if r["mode"] == "iso" else ()))
    pts = []
    for h, m, s in r["times"]:
        try:
            t = "%02d:%02d:%02d" % (h, m, s)
            o = D.fix_datetime(t) if arg is None else D.fix_datetime(t, arg)
            pts.append({"t": [h, m, s], "o": [o.year, o.month, o.day, o.hour, o.minute, o.second]})
        except Exception as e:
            pts.append({"t": [h, m, s], "o": [], "exc": repr(e)})
    out.append({"clk": c, "mode": r["mode"], "pts": pts})
print("RESULT " + json.dumps(out))
