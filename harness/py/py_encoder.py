"""Runs the real Encoder: packet creation, symbol and bit expansion."""
import json, logging, sys, datetime
import clock
import horusdemodlib.encoder as E
import horusdemodlib.decoder as D
from recnum import num, codes
logging.disable(logging.CRITICAL)
job = json.loads(sys.stdin.read())
e = E.Encoder()


def arg(v):
    """the sign, whole and millionth parts of a number; whole parts beyond any field's range are cut to a million"""
    if v is None:
        return {"t": "none"}
    a = abs(v)
    ip = int(a)
    fp = 0 if isinstance(v, int) or ip >= 1000000 else round((a - ip) * 1000000)
    if fp == 1000000:
        ip, fp = ip + 1, 0
    return {"t": "i" if isinstance(v, int) else "f", "neg": v < 0, "ip": min(ip, 1000000), "fp": fp}


out = []
for r in job["recs"]:
    if r["k"] == "packet":
        clock.set(clock.epoch(*r["now"]), 5)
        a = r["args"]
        kw = dict(a)
        rec = {"k": "packet", "now": r["now"], "id": max(-1, min(a.get("payload_id", 256), 1000000)), "seq": a.get("sequence_number", 0) % 65536}
        rec["arg"] = {k: arg(kw.get(k, None if k in ("hours", "minutes", "seconds") else 0.0)) for k in
                      ("hours", "minutes", "seconds", "latitude", "longitude", "altitude", "speed", "satellites", "temperature", "battery_voltage",
                       "ascent_rate", "ext_temperature", "ext_humidity", "ext_pressure")}
        rec["dt"] = []
        if "time_dt" in kw:
            rec["dt"] = kw["time_dt"][3:6]
            kw["time_dt"] = datetime.datetime(*kw["time_dt"], tzinfo=datetime.timezone.utc)
        rec["custom"] = []
        if "custom_data" in kw:
            c = bytes(kw["custom_data"])
            rec["custom"] = list(c) if r.get("ctype", "bytes") == "bytes" else []
            kw["custom_data"] = c if r.get("ctype", "bytes") == "bytes" else {"str": c.decode("latin1"), "bytearray": bytearray(c), "list": list(c)}[r["ctype"]]
        try:
            p = e.create_horus_v2_packet(return_uncoded=True, **kw)
            rec["res"] = "ok"
            rec["pkt"] = list(p)
            coded = e.create_horus_v2_packet(**kw)
            rec["coded"] = list(coded)
            rec["back"] = list(e.horus_l2_decode_packet(coded, 32))
            try:
                o = D.decode_packet(p)
                rec["lat"], rec["lon"], rec["dec"] = num(o["latitude"]), num(o["longitude"]), "ok"
                rec["got"] = {"seq": o["sequence_number"], "time": codes(o["time"]), "alt": o["altitude"], "speed": o["speed"], "sats": o["satellites"]}
            except ValueError:
                rec["dec"] = "ValueError"
        except ValueError:
            rec["res"] = "ValueError"
        except Exception as x:
            rec["res"] = repr(x)
    else:
        data = bytes(r["data"])
        kw = {} if r["pre"] == 8 and r.get("deflt") else {"preamble": r["pre"]}
        rec = {"k": r["k"], "data": r["data"], "pre": r["pre"]}
        try:
            rec["out"] = [int(x) for x in (e.bytes_to_4fsk_symbols(data, **kw) if r["k"] == "sym" else e.bytes_to_onebitperbyte(data, **kw))]
        except Exception as x:
            rec["out"] = [-1]
            rec["exc"] = repr(x)
    out.append(rec)
print("RESULT " + json.dumps(out))
