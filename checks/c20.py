#!/usr/bin/env python3
"""C20: payload and custom field lists load exactly, and always fall back."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import pyenv

MARK = "# HORUS BINARY PAYLOAD ID LIST"


def hx(s):
    return (s if isinstance(s, bytes) else s.encode()).hex()


def pl_line(r):
    n = r.choice([0, 1, 2, 255, 256, 257, 4096, 65535, 65536, r.randrange(70000), r.randrange(300)])
    call = r.choice(["N0CALL", "VK5QI-9", "4FSKTEST", "a b c", "HORUS/V2", "#X", "x" * 40, "T%d" % r.randrange(50), "*$,"[:1], "'quoted'"])
    good = r.choice(["%d, %s", "%d,%s", " %d , %s ", "%d,\t%s", "+%d,%s", "%05d, %s", "%d, %s\r", "\t%d,%s\f"])
    if r.random() < .55:
        return good % (n, call)
    return r.choice(["", "#", "# comment, with comma", "#%d, %s" % (n, call), "%d" % n, "%d, %s, extra" % (n, call), "%d,%s,," % (n, call), "abc, %s" % call, "0x10, %s" % call, "1.5, %s" % call, "%d %s" % (n, call),
                     ", %s" % call, " # %d, %s" % (n, call), "1 2, %s" % call, "--3,%s" % call, "- 3,%s" % call, "1e3, %s" % call, "+, %s" % call, " ", ",,", "\t", "%d; %s" % (n, call), "<p>%d, %s" % (n, call), "%d., %s" % (n, call)])


def pl_text(r, mark=None):
    L = [pl_line(r) for _ in range(r.choice([0, 1, 2, 5, 12, 25]))]
    if mark is None:
        mark = r.random() < .6
    if mark:
        L.insert(r.choice([0, 0, 0, len(L) // 2, len(L)]), r.choice([MARK, MARK, "HORUS BINARY PAYLOAD ID LIST", "xxHORUS BINARY PAYLOAD ID LISTyy"]))
    elif r.random() < .5:
        L.insert(0, r.choice(["# HORUS BINARY PAYLOAD LIST", "# horus binary payload id list", "HORUS BINARY PAYLOAD ID LIS", "HORUS BINARY PAYLOAD ID  LIST", "<html>404: Not Found</html>"]))
    t = "\n".join(L)
    return t + r.choice(["", "\n", "\n\n", "\r\n"])


SIZES = {"x": 1, "c": 1, "b": 1, "B": 1, "?": 1, "h": 2, "H": 2, "e": 2, "i": 4, "I": 4, "l": 4, "L": 4, "f": 4, "q": 8, "Q": 8, "d": 8}
FIELD_TYPES = ["none", "battery_5v_byte", "divide_by_10", "divide_by_100", "unknown-type", ""]


def fmt(r, total=9):
    """A struct format of the given size, and its number of values."""
    f, left, vals = r.choice("<>!="), total, 0
    while left:
        c = r.choice([k for k, v in SIZES.items() if v <= left] + ["s", "p"])
        n = r.choice([0, 0, 1, 2, 3])
        sz = SIZES.get(c, 1)
        while n > 1 and n * sz > left:
            n -= 1
        k = n or 1
        if k * sz > left:
            continue
        f += ("%d" % n if n else "") + c + (" " if r.random() < .05 else "")
        left -= k * sz
        vals += 0 if c == "x" else 1 if c in "sp" else k
    return f, vals


def definition(r):
    f, n = fmt(r, r.choice([9] * 10 + [8, 10, 1, 4]))
    d = {"struct": f, "fields": [[r.choice(["ext_temp", "a", "b_%d" % k, "x y"]), r.choice(FIELD_TYPES)] for k in range(n)]}
    x = r.random()
    if x < .1:
        d["comment"] = "text"
    if r.random() < .3:
        d["other_payloads"] = r.choice([["OTHER-%d" % r.randrange(4)], ["O-1", "O-2", "O-3"], [], ["HORUSTEST2"]])
    x = r.random()
    if x > .45:
        return d
    bad = r.randrange(17)
    if bad == 0: del d["struct"]
    elif bad == 1: del d["fields"]
    elif bad == 2: d["struct"] = r.choice(["", "<", "<9", "<Y9B", "<9B3", "<BbBfHz", "9 B", "<9 B", "<nB", "<PB"])
    elif bad == 3: d["struct"] = r.choice([9, None, ["<9B"], {"a": 1}, True])
    elif bad == 4: d["fields"] = d["fields"][:-1]
    elif bad == 5: d["fields"] = d["fields"] + [["more", "none"]]
    elif bad == 6: d["fields"] = r.choice([None, 5, "text", {}, {"a": "none"}, []]) if n else 5
    elif bad == 7 and n: d["fields"][r.randrange(n)] = r.choice([[], ["only"], "ab", 5, None, {"a": 1}, [1, "none"], ["a", 5], [None, None], [["a"], "none"]])
    elif bad == 8: return r.choice([None, 5, "text", [], ["struct", "fields"], "struct fields", True, {}])
    elif bad == 9 and n: d["fields"][0] = d["fields"][0] + ["third"]      # accepted: a name and a type are there
    elif bad == 10: d["Struct"] = d.pop("struct")
    elif bad == 11: d["struct"] = d["struct"] + "x"
    elif bad == 12: d["struct"] = d["struct"][:-1]
    elif bad == 13: d = {"struct": "<" + "x" * 9, "fields": []}
    elif bad == 14: d = {"struct": r.choice(["<9s", ">9p", "!8sb"]), "fields": [["raw", "none"]] * r.choice([1, 2, 9])}
    elif bad == 15: d = {"struct": "<3hbBx", "fields": [["a", "none"]] * r.choice([5, 4, 6, 3])}
    elif bad == 16: d = {"struct": ">dB", "fields": [["a", "none"], ["b", "none"]], "other_payloads": ["O-1"]}
    return d


NAMES = ["HORUSTEST", "HORUSTEST2", "4FSKTEST-V2", "VK5QI-9", "P-1", "P-2", "P-3", "O-1", "O-2", ""]


def cf_obj(r):
    n = r.choice([0, 1, 2, 3, 5])
    return {k: definition(r) for k in r.sample(NAMES, n)}


def cf_text(r, mark=None):
    o = cf_obj(r)
    if mark is None:
        mark = r.random() < .6
    if mark and "HORUSTEST" not in o and "HORUSTEST2" not in o:
        x = r.choice([0, 0, 1, 2])
        if x == 0: o["HORUSTEST"] = definition(r)
        elif x == 1: o["MYHORUSTEST3"] = definition(r)
        else: o["P-9"] = {"comment": "as HORUSTEST"}
    x = r.random()
    if x < .72:
        return json.dumps(o, indent=r.choice([None, 1, 4]))
    if x < .86:
        t = json.dumps(o)
        return r.choice([t[:-1], t + "}", t[:len(t) // 2], "{" + t, t.replace("[", "(", 1), "HORUSTEST", "", "<html>HORUSTEST</html>", "{'HORUSTEST': 1}", t.replace('"', "'")])
    return json.dumps(r.choice([[o], "HORUSTEST", 5, None, True, ["HORUSTEST"], []]))


def remote(r, L):
    x = r.random()
    if x < .25:
        return r.choice(["conn", "timeout", "value"])
    if x < .4:
        return [r.choice([404, 500, 503, 403]), hx(r.choice(["404: Not Found", "", "<html>error</html>", '{"message": "error"}']))]
    return [200, hx((pl_text if L == "pl" else cf_text)(r, r.random() < .75))]


def ops(r, n):
    out = []
    for _ in range(n):
        L = r.choice(["pl", "cf"])
        text = pl_text if L == "pl" else cf_text
        o = {"list": L, "fn": r.choice(["init", "init", "init", "read", "download", "parse"]), "nodl": r.random() < .25, "save": r.random() < .75, "remote": remote(r, L), "text": hx(text(r))}
        if r.random() < .45:
            o["local"] = r.choice([None, None, 0, hx(text(r)), hx(text(r)), hx(text(r).encode() + b"\xff\xfe"), hx("# caf\u00e9\n" + text(r)) if L == "pl" else hx(text(r)), ""])
        if r.random() < .45:
            o["pkg"] = r.choice([None, hx(text(r)), hx(text(r)), hx(b"\x80" + text(r).encode()), 0])
        out.append(o)
    return out


def check(ck):
    T = thorough()
    r = rng("c20")
    env = pyenv.build(ck.dir, ext=False)
    jobs = [{"ops": ops(r, r.choice([1, 2, 3, 6, 10]))} for _ in range(6000 if T else 900)]
    # every way a download can fail, against every state of the files
    for L, good in (("pl", MARK + "\n7, LOCAL-7\n300, LOCAL-300\n"), ("cf", json.dumps({"HORUSTEST": {"struct": "<9B", "fields": [["v%d" % k, "none"] for k in range(9)]}}))):
        for loc in (None, 0, hx(good), hx(good.encode() + b"\xff"), hx("garbage")):
            for pkg in (None, hx(good.replace("7", "8")), hx(b"\xff")):
                for rem in ("conn", "timeout", "value", [404, hx("404: Not Found")], [200, ""], [200, hx("<html>")], [200, hx("HORUSTEST")], [200, hx("HORUS BINARY PAYLOAD ID LIST")], [200, hx(good)], [200, hx(good[:-3])], [200, hx("[1]")],
                            [200, hx('["HORUSTEST"]')]):
                    for fn in ("init", "download"):
                        jobs.append({"ops": [{"list": L, "fn": fn, "nodl": False, "save": True, "remote": rem, "local": loc, "pkg": pkg}, {"list": L, "fn": "read"}, {"list": L, "fn": "init", "nodl": True}]})
    # the lists that are shipped
    with open(os.path.join(REPO, "payload_id_list.txt"), "rb") as f:
        pl = f.read().hex()
    with open(os.path.join(REPO, "custom_field_list.json"), "rb") as f:
        cf = f.read().hex()
    jobs += [{"ops": [{"list": "pl", "fn": "read", "pkg": pl}]}, {"ops": [{"list": "cf", "fn": "read", "local": cf}]}, {"ops": [{"list": "cf", "fn": "init", "nodl": False, "save": True, "remote": [200, cf]}]}]
    r.shuffle(jobs)
    res = env.call("py_lists.py", {"recs": jobs})
    recs = res["recs"]
    path = os.path.join(ck.dir, "lists.json")
    with open(path, "w") as f:
        json.dump(res, f)
    t = tlc("ListsTrace", env={"TRACE": path}, timeout=800)
    ck.spec(t, "lists")
    if not t.ok:
        if t.rc != 12:
            raise ToolError(t.out[-3000:])
        g = re.findall(r"/\\ (l|i) = (\d+)", t.out)
        l, i = [int(v) for k, v in g if k == "l"][-1], [int(v) for k, v in g if k == "i"][-1]
        why = re.findall(r'/\\ bad = "(.*)"', t.out)[-1]
        e = {k: v for k, v in recs[l - 1]["ev"][i - 1].items()}
        raise Violation("%s: operation %d of history %d, %s" % (why, i, l, json.dumps(jobs[l - 1]["ops"][:i])[:1500]), {"why": why, "ops": jobs[l - 1]["ops"][:i], "result": e})
    n = sum(len(x["ev"]) for x in recs)
    if t.distinct < n:
        raise ToolError("TLC visited %d states for %d operations" % (t.distinct, n))
    ck.traces(len(recs))
    ck.count("operations", n)
    ck.count("good_downloads", sum(e["asked"] == 1 and e["fn"] == "download" and not e["res"]["none"] for x in recs for e in x["ev"]))
    ck.sample(jobs[0]["ops"][:2])


main("C20", check)
