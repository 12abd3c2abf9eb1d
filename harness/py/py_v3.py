"""Runs the real decode_packet over listening histories; each history in a child of its own, so each starts without memory of another."""
import json, logging, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "lib"))
import horusdemodlib.decoder as D
import uper
logging.disable(logging.CRITICAL)
NONE = {"ok": False, "fields": [], "customs": [], "crc": False, "v3": False, "rawc": [], "format": {"fields": [], "n": 0, "length": 0}, "log": {"ok": False, "leaves": []}}


def leaves(x, path=()):
    if isinstance(x, dict):
        return [y for k, v in x.items() for y in leaves(v, path + (str(k),))]
    if isinstance(x, list):
        return [y for k, v in enumerate(x) for y in leaves(v, path + (str(k),))]
    return [{"p": list(path), "v": uper.view(x)}]


def line(text):
    """the packet's one line text form, taken apart again"""
    try:
        o = json.loads(text)
    except Exception:
        o = None
    ok = isinstance(text, str) and text.isascii() and not any(c in text for c in "\r\n") and isinstance(o, dict)
    return {"ok": ok, "leaves": leaves(o) if ok else []}


def decode(data):
    try:
        o = D.decode_packet(data)
    except Exception as e:
        return dict(NONE, err=type(e).__name__)
    return {"ok": True, "fields": [{"name": k, "key": uper.codes(k), "v": uper.view(v)} for k, v in o.items()], "customs": [uper.codes(c) for c in o.get("custom_field_names", [])],
            "crc": o["crc_ok"] is True, "v3": o["modulation"] == "Horus Binary v3", "rawc": uper.codes(o["raw"]), "err": "",
            "format": {"fields": [uper.codes(f[0]) for f in o["packet_format"]["fields"][:30]], "n": len(o["packet_format"]["fields"]), "length": o["packet_format"].get("length", -1)}, "log": line(o["ukhas_str"])}


def history(steps):
    return [decode(bytes.fromhex(p)) for p in steps]


job = json.loads(sys.stdin.read())
out = []
for h in job["histories"]:
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        with os.fdopen(wr, "w") as f:
            f.write(json.dumps(history(h)))
        os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as f:
        t = f.read()
    os.waitpid(pid, 0)
    out.append(json.loads(t))
print("RESULT " + json.dumps(out))
