"""Payload and custom field lists: reads, downloads and initialises them with given files and given answers to the download."""
import sys, json, os, copy, logging, shutil, tempfile
import standin
from recnum import codes
import requests
import horusdemodlib.payloads as P
logging.disable(logging.CRITICAL)
job = json.loads(sys.stdin.read())
D0 = (copy.deepcopy(P.HORUS_PAYLOAD_LIST), copy.deepcopy(P.HORUS_CUSTOM_FIELDS))
base = tempfile.mkdtemp(prefix="lists")
NAME = {"pl": "payload_id_list.txt", "cf": "custom_field_list.json"}


def put(path, text):
    if os.path.isdir(path):
        os.rmdir(path)
    elif os.path.exists(path):
        os.unlink(path)
    if text is None:
        return
    if text == 0:
        os.mkdir(path)               # neither readable nor writable as a file
    else:
        with open(path, "wb") as f:
            f.write(bytes.fromhex(text))


def content(path):
    if not os.path.exists(path):
        return {"k": "absent", "b": []}
    if os.path.isdir(path):
        return {"k": "dir", "b": []}
    with open(path, "rb") as f:
        return {"k": "file", "b": list(f.read())}


def show(op, v):
    if v is None:
        return {"none": True, "l": []}
    if op == "pl":
        return {"none": False, "l": [[k, codes(x)] for k, x in v.items()]}
    return {"none": False, "l": [[k, codes(x["struct"]) if isinstance(x["struct"], str) else [-1], json.dumps(x["fields"])] for k, x in v.items()]}


BAD = {"t": "bad"}


def node(v):
    """A JSON value as a tagged tree."""
    if isinstance(v, dict):
        return {"t": "obj", "v": [{"n": k, "v": node(x)} for k, x in v.items()]}
    if isinstance(v, list):
        return {"t": "list", "v": [node(x) for x in v], "j": json.dumps(v)}
    if isinstance(v, str):
        return {"t": "str", "v": codes(v), "j": v}
    return {"t": "other", "j": json.dumps(v)}


def tree(o, h):
    if o["list"] != "cf":
        return BAD
    try:
        return node(json.loads(bytes.fromhex(h).decode()))
    except ValueError:
        return BAD


out = []
try:
    wd, pk = os.path.join(base, "wd"), os.path.join(base, "pkg", "horusdemodlib")
    os.makedirs(wd)
    os.makedirs(pk)
    os.chdir(wd)
    P.__file__ = os.path.join(pk, "payloads.py")
    for h in job["recs"]:
        P.HORUS_PAYLOAD_LIST, P.HORUS_CUSTOM_FIELDS = copy.deepcopy(D0[0]), copy.deepcopy(D0[1])
        for n in NAME.values():
            put(os.path.join(wd, n), None)
            put(os.path.join(base, "pkg", n), None)
        ev = []
        for o in h["ops"]:
            n = NAME[o["list"]]
            loc = os.path.join(wd, n)
            for w, d in (("local", wd), ("pkg", os.path.join(base, "pkg"))):
                if w in o:
                    put(os.path.join(d, n), o[w])
            calls = []

            def http(m, url, hd, b, o=o):
                calls.append(url)
                r = o["remote"]
                if r == "conn":
                    return requests.exceptions.ConnectionError("stand-in")
                if r == "timeout":
                    return requests.exceptions.ReadTimeout("stand-in")
                if r == "value":
                    return ValueError("stand-in")
                return (r[0], bytes.fromhex(r[1]))
            standin.HTTP = http
            raised = ""
            v = None
            try:
                if o["list"] == "pl":
                    v = {"init": lambda: P.init_payload_id_list(filename=n, nodownload=o["nodl"]), "read": lambda: P.read_payload_list(filename=n),
                         "download": lambda: P.download_latest_payload_id_list(filename=n if o["save"] else None), "parse": lambda: P.parse_payload_list(bytes.fromhex(o["text"]).decode())}[o["fn"]]()
                else:
                    v = {"init": lambda: P.init_custom_field_list(filename=n, nodownload=o["nodl"]), "read": lambda: P.read_custom_field_list(filename=n),
                         "download": lambda: P.download_latest_custom_field_list(filename=n if o["save"] else None), "parse": lambda: P.parse_custom_field_list(bytes.fromhex(o["text"]).decode())}[o["fn"]]()
            except Exception as e:
                raised = repr(e)
            rem = o.get("remote")
            e = {"list": o["list"], "fn": o["fn"], "nodl": o.get("nodl", False), "save": o.get("save", True), "raised": raised, "res": show(o["list"], v), "asked": len(calls),
                 "after": content(loc), "pkgc": content(os.path.join(base, "pkg", n)),
                 "remote": {"k": "fail", "b": [], "tree": BAD} if rem is None or isinstance(rem, str) or rem[0] != 200 else {"k": "page", "b": list(bytes.fromhex(rem[1])), "tree": tree(o, rem[1])},
                 "text": {"k": "file", "b": list(bytes.fromhex(o.get("text", ""))), "tree": tree(o, o.get("text", ""))}}
            for w in ("local", "pkg"):
                x = o.get(w)
                e["set" + w] = {"set": w in o, "k": "absent" if x is None else "dir" if x == 0 else "file", "b": list(bytes.fromhex(x)) if x else [], "tree": tree(o, x) if x else BAD}
            ev.append(e)
            if v is not None and not raised:
                P.update_payload_lists(v if o["list"] == "pl" else P.HORUS_PAYLOAD_LIST, v if o["list"] == "cf" else P.HORUS_CUSTOM_FIELDS)
        out.append({"ev": ev})
finally:
    os.chdir("/tmp")
    shutil.rmtree(base)
d = {"pl": show("pl", D0[0])["l"], "cf": show("cf", D0[1])["l"]}
print("RESULT " + json.dumps({"recs": out, "defaults": d}))
