"""Runs the real telem_to_sondehub against given clocks; telemetry is given or comes from decode_packet / parse_ukhas_string."""
import json, logging, sys, copy
import clock
import horusdemodlib.payloads as P
import horusdemodlib.decoder as D
import horusdemodlib.utils as U
import horusdemodlib.checksums as C
from recnum import num, codes
logging.disable(logging.CRITICAL)
job = json.loads(sys.stdin.read())
P.update_payload_lists({int(k): v for k, v in job["lists"]["ids"].items()}, job["lists"]["custom"])


def val(v):
    x = num(v) if not isinstance(v, (list, dict)) else {"t": "o"}
    x["r"] = "%s %s" % (type(v).__name__, json.dumps(v, sort_keys=True, default=str))
    return x


out = []
for r in job["recs"]:
    clock.set(clock.epoch(*r["clk"]), r["us"])
    try:
        if "packet" in r:
            tel = D.decode_packet(bytes.fromhex(r["packet"]))
        elif "v3" in r:
            tel = D.decode_packet(C.add_packet_crc(D.HORUS_ASN.encode("Telemetry", r["v3"]), tail=False))
        elif "text" in r:
            tel = D.parse_ukhas_string(r["text"])
        else:
            tel = {}
    except ValueError:
        continue
    tel.update(r.get("set", {}))
    for k in r.get("drop", []):
        tel.pop(k, None)
    before = copy.deepcopy(tel)
    meta = r.get("meta")
    rec = {"clk": r["clk"], "us": r["us"], "chk": r.get("chk", True), "tel": {k: val(v) for k, v in before.items()},
           "custom": before.get("custom_field_names", []), "meta": {k: val(v) for k, v in (meta or {}).items()}, "rec": {}}
    kw = {} if rec["chk"] else {"check_time": False}
    try:
        o = U.telem_to_sondehub(tel, meta, **kw) if meta is not None else U.telem_to_sondehub(tel, **kw)
        if o is None:
            rec["res"] = "none"
        else:
            rec["res"] = "record"
            rec["rec"] = {k: val(v) for k, v in o.items()}
    except Exception as e:
        rec["res"] = "exception"
        rec["exc"] = repr(e)
    rec["kept"] = tel == before
    out.append(rec)
print("RESULT " + json.dumps(out))
