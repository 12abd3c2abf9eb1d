"""The Python coder of v3 messages (the package's own HORUS_ASN): encodes messages, decodes octets, re-encodes what it decoded."""
import json, logging, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "lib"))
import horusdemodlib.decoder as D
import uper
logging.disable(logging.CRITICAL)
PSM = ["psmNotActive", "enabled", "acquisition", "tracking", "optimised", "inactive"]
VIA = ["sondehub", "nohub"]
ONE = (("vel", "velocityHorizontalKilometersPerHour"), ("sats", "gnssSatellitesVisible"), ("asc", "ascentRateCentimetersPerSecond"), ("press", "pressurehPa-x10"), ("hum", "humidityPercentage"))
T4 = ("internal", "external", "custom1", "custom2")
V4 = ("battery", "solar", "custom1", "custom2")
MUST = (("seq", "sequenceNumber"), ("tod", "timeOfDaySeconds"), ("lat", "latitude"), ("lon", "longitude"), ("alt", "altitudeMeters"))


def big(q):
    return int.from_bytes(bytes(q), "big", signed=True)


def text(q):
    return "".join(map(chr, q))


def to_py(m):
    d = {"payloadCallsign": text(m["call"])}
    for a, b in MUST:
        d[b] = m[a]
    for a, b in ONE:
        for x in m[a]:
            d[b] = x
    for s in m["sensors"]:
        d["extraSensors"] = []
        for x in s:
            e = {}
            for n in x["name"]:
                e["name"] = text(n)
            for v in x["values"]:
                k, y = v["kind"], v["v"]
                e["values"] = {"str": lambda: ("horusStr", text(y)), "int": lambda: ("horusInt", [big(q) for q in y]), "real": lambda: ("horusReal", [uper.unreal(q) for q in y]),
                               "bool": lambda: ("horusBool", {"b%d" % i: q for i, q in enumerate(y)})}[k]()
            d["extraSensors"].append(e)
    for a, b, n in (("temps", "temperatureCelsius-x10", T4), ("mv", "milliVolts", V4)):
        for g in m[a]:
            d[b] = {k: x[0] for k, x in zip(n, g) if x}
    for c in m["counts"]:
        d["counts"] = [big(q) for q in c]
    for p in m["psm"]:
        d["gnssPowerSaveState"] = PSM[p]
    for c in m["custom"]:
        d["customData"] = bytes(c)
    for v in m["via"]:
        d["via"] = VIA[v] if v < 2 else "unknown"
    return d


def from_py(d):
    m = uper.plain(d["payloadCallsign"])
    for a, b in MUST:
        m[a] = d[b]
    for a, b in ONE:
        m[a] = [d[b]] if b in d else []
    if "extraSensors" in d:
        s = []
        for e in d["extraSensors"]:
            x = {"name": [uper.codes(e["name"])] if "name" in e else [], "values": []}
            if "values" in e:
                k, y = e["values"]
                x["values"] = [{"horusStr": lambda: {"kind": "str", "v": uper.codes(y)}, "horusInt": lambda: {"kind": "int", "v": [uper.octets(q) for q in y]},
                                "horusReal": lambda: {"kind": "real", "v": [uper.real(q) for q in y]}, "horusBool": lambda: {"kind": "bool", "v": [y["b%d" % i] for i in range(8)]}}[k]()]
            s.append(x)
        m["sensors"] = [s]
    for a, b, n in (("temps", "temperatureCelsius-x10", T4), ("mv", "milliVolts", V4)):
        if b in d:
            m[a] = [[[d[b][k]] if k in d[b] else [] for k in n]]
    if "counts" in d:
        m["counts"] = [[uper.octets(q) for q in d["counts"]]]
    if "gnssPowerSaveState" in d:
        m["psm"] = [PSM.index(d["gnssPowerSaveState"])]
    if "customData" in d:
        m["custom"] = [list(d["customData"])]
    if "via" in d:
        m["via"] = [VIA.index(d["via"]) if d["via"] in VIA else 7]
    return m


def enc(d):
    try:
        return [list(D.HORUS_ASN.encode("Telemetry", d, check_constraints=True, check_types=True))]
    except Exception:
        return []


def dec(b):
    try:
        return [D.HORUS_ASN.decode("Telemetry", bytes(b), check_constraints=True)]
    except Exception:
        return []


job = json.loads(sys.stdin.read())
out = []
for r in job["recs"]:
    o = {}
    if "msg" in r:
        o["enc"] = enc(to_py(r["msg"]))
    o["dec"], o["re"] = [], []
    for h in r["dec"]:
        d = dec(bytes.fromhex(h)) if h is not None else []
        o["dec"].append([from_py(d[0])] if d else [])
        o["re"].append(enc(d[0]) if d else [])
    out.append(o)
print("RESULT " + json.dumps(out))
