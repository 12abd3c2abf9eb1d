"""Feeds the statistics lines a real receiver printed to the real FSKDemodStats, one reader per receiver."""
import json, logging, sys
import horusdemodlib.demodstats as S
logging.disable(logging.CRITICAL)
job = json.loads(sys.stdin.read())


def sc(v, k):
    try:
        return round(v * k)
    except Exception:
        return -2000000000


out = []
for lines in job["runs"]:
    res = []
    for line in lines:
        st = S.FSKDemodStats(averaging_time=4, peak_hold=False)
        errors = []
        st.log_error = lambda m: errors.append(m)
        try:
            st.update(line)
        except Exception as e:
            errors.append(repr(e))
        res.append({"errors": errors, "snr": sc(st.snr, 100), "ppm": sc(st.ppm, 1), "f": [sc(x, 10) for x in st.fest]})
    out.append(res)
print("RESULT " + json.dumps(out))
