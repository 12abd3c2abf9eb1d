"""UDP senders: hands records to the real functions with a stand-in socket that records what would leave the machine."""
import sys, json, logging
from recnum import codes, num

import fakesock
from fakesock import LOG
import horusdemodlib.horusudp as U
import horusdemodlib.decoder as D
import horusdemodlib.demodstats as M
logging.disable(logging.CRITICAL)
job = json.loads(sys.stdin.read())


def val(v):
    if isinstance(v, dict) and "$" in v:                     # JSON cannot say these
        return {"bytes": b"ab", "nan": float("nan"), "none": None, "set": {1}, "negzero": -0.0}[v["$"]]
    return v


def show(d):
    return [[k, num(x), codes(str(x))] for k, x in d.items() if k != "custom_field_names"]


out = []
for j in job["recs"]:
    if "hex" in j:
        try:
            t = D.decode_packet(bytes.fromhex(j["hex"]))
        except ValueError:
            continue
        t.update(j.get("more", {}))
    elif "text" in j:
        t = D.parse_ukhas_string(j["text"])
        t.update(j.get("more", {}))
    else:
        t = {k: val(v) for k, v in j["telem"].items()}
    shown = show(t)
    names = t.get("custom_field_names", [])
    names = list(names) if isinstance(names, (list, tuple)) else []
    PLAN = fakesock.PLAN = j["plan"]
    LOG.clear()
    raised = ""
    try:
        kw = {"port": j["port"]} if j["port"] else {}
        if j["fn"] == "summary":
            if j.get("comment") is not None:
                kw["comment"] = j["comment"]
            U.send_payload_summary(t, **kw)
        elif j["fn"] == "modem":
            M.send_modem_stats(t, **({"udp_port": j["port"]} if j["port"] else {}))
        else:
            U.send_ozimux_message(t, **kw)
    except BaseException as e:
        raised = repr(e)
    sends = []
    for s in LOG:
        e = {"to": s["to"], "port": s["port"], "ok": s["ok"], "json": [], "codes": list(s["data"]), "isjson": False}
        if j["fn"] != "ozi":
            try:
                d = json.loads(s["data"].decode("ascii"))
                e.update(json=show(d), isjson=isinstance(d, dict))
            except ValueError:
                pass
            e["codes"] = []
        sends.append(e)
    out.append({"fn": j["fn"], "port": j["port"] or {"summary": 55672, "modem": 55672, "ozi": 55683}[j["fn"]], "comment": codes(j["comment"]) if j.get("comment") is not None else codes("HorusDemodLib"), "odd": j.get("odd", False), "keys": [k for k, _, _ in shown],
                "telem": shown, "names": names, "create": bool(PLAN.get("create")), "bfail": bool(PLAN.get("broadcast")), "raised": raised, "sends": sends, "same": show(t) == shown})
print("RESULT " + json.dumps(out))
