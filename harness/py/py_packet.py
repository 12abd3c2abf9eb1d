"""Runs the real decode_packet on given bytes under given payload/custom field lists; records what came back."""
import copy, json, logging, sys
import horusdemodlib.payloads as P
import horusdemodlib.decoder as D
from recnum import num, codes
logging.disable(logging.CRITICAL)


def crc16(b):
    c = 0xFFFF
    for x in b:
        c ^= x << 8
        for _ in range(8):
            c = ((c << 1) ^ 0x1021 if c & 0x8000 else c << 1) & 0xFFFF
    return bytes([c & 255, c >> 8])


job = json.loads(sys.stdin.read())
NOTFIELD = {"packet_format", "crc_ok", "raw", "modulation", "custom_field_names", "ukhas_str", "callsign"}
out = []
for r in job["recs"]:
    ls = job["lists"][r["ls"]]
    P.update_payload_lists({int(k): v for k, v in ls["ids"].items()}, ls["custom"])
    if "v3" in r:      # a well formed v3 message, its leading checksum made by the specification's side
        try:
            m = D.HORUS_ASN.encode("Telemetry", r["v3"])
        except Exception as e:
            out.append({"data": [], "fmt": "", "ign": False, "ls": r["ls"] + 1, "v3": True, "res": "encode: " + repr(e), "msg": r["v3"]})
            continue
        data = crc16(m) + m
    else:
        data = bytes.fromhex(r["data"])
    if "flip" in r:
        data = bytes(b ^ (1 << (r["flip"] % 8) if i == r["flip"] // 8 else 0) for i, b in enumerate(data))
    rec = {"data": list(data), "fmt": r.get("fmt", ""), "ign": r.get("ign", False), "ls": r["ls"] + 1, "v3": "v3" in r and "flip" not in r}
    kw = {}
    if rec["fmt"]:
        kw["packet_format"] = copy.deepcopy(D.HORUS_PACKET_FORMATS[rec["fmt"]])
    if rec["ign"]:
        kw["ignore_crc"] = True
    try:
        o = D.decode_packet(data, **kw)
        rec["res"] = "ok"
        rec["mod"] = o["modulation"]
        if o["modulation"] != "Horus Binary v3":
            rec.update(crc_ok=o["crc_ok"] is True, raw=codes(o["raw"]), callsign=o["callsign"], custom=o.get("custom_field_names", []),
                       text=codes(o["ukhas_str"]), fields={k: num(v) for k, v in o.items() if k not in NOTFIELD})
    except ValueError:
        rec["res"] = "ValueError"
    except Exception as e:
        rec["res"] = type(e).__name__
    out.append(rec)
print("RESULT " + json.dumps(out))
