"""Runs the real parse_ukhas_string on given texts (and on the sentences decode_packet makes of given packets)."""
import json, logging, sys
import horusdemodlib.payloads as P
import horusdemodlib.decoder as D
from recnum import num, codes
logging.disable(logging.CRITICAL)
job = json.loads(sys.stdin.read())
P.update_payload_lists({int(k): v for k, v in job["lists"]["ids"].items()}, job["lists"]["custom"])


def txt(v):
    return codes(v) if isinstance(v, str) else [-1]


def n(v):
    x = num(v)
    if x["t"] in "iI":
        x["c"] = codes(str(v))
    return x


def parse(t, raw):
    rec = {"t": [ord(c) for c in t]}
    try:
        o = D.parse_ukhas_string(t.encode("utf-8", "surrogatepass") if raw else t)
        rec.update(res="ok", callsign=txt(o["callsign"]), raw=txt(o["raw"]), seq=n(o["sequence_number"]), time=txt(o["time"]),
                   lat=n(o["latitude"]), lon=n(o["longitude"]), alt=n(o["altitude"]))
    except ValueError:
        rec["res"] = "ValueError"
    except Exception as e:
        rec["res"] = type(e).__name__
    return rec


out = []
for r in job["recs"]:
    if "packet" in r:
        try:
            o = D.decode_packet(bytes.fromhex(r["packet"]))
        except ValueError:
            continue
        rec = parse(o["ukhas_str"], False)
        rec["of"] = {"callsign": txt(o["callsign"]), "time": txt(o["time"]), "seq": n(o["sequence_number"]), "lat": n(o["latitude"]), "lon": n(o["longitude"]), "alt": n(o["altitude"])}
    else:
        rec = parse(r["t"], r.get("bytes", False))
    out.append(rec)
print("RESULT " + json.dumps(out))
