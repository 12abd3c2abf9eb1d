#!/usr/bin/env python3
"""C12: sensor names announced once are used for that payload's later packets."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import pyenv, uper, v3


def histories(ck, cfg, extra=(), least=1):
    res = must_hold(tlc("V3Names", cfg=cfg, extra=extra, workers=1, timeout=300), cfg)
    out = [json.loads(m.replace('\\"', '"'))["h"] for m in dict.fromkeys(re.findall(r'<<"HISTORY", "(.*)">>', res.out))]
    if len(out) < least:
        raise ToolError("TLC printed only %d histories" % len(out))
    ck.count("histories_from_spec", len(out))
    return out


KINDS = ["str", "int", "real", "bool"]


def value(r):
    return uper.values(r, long=False)


def concrete(r, h):
    """A history of the specification as packets."""
    pool = r.choice([["A", "B", "C"], ["AB", "ABC", "AB-"], ["a", "A", "Aa"], [uper.callsign(r) for _ in range(3)]])
    if len(set(pool)) < 3:
        pool = ["P1", "P2", "P3"]
    cs = dict(zip("abc", pool))
    nm = {"n": uper.name(r), "m": uper.name(r)}
    if nm["n"] == nm["m"]:
        nm = {"n": "xa", "m": "xb"}
    out = []
    for k, p in enumerate(h):
        m = uper.message(r, call=cs[p["call"]], p=.1)
        m["seq"] = k
        s = [{"name": [] if x == "-" else [uper.codes(nm[x])], "values": [value(r)] if r.random() < .9 else []} for x in p["s"]]
        m["sensors"] = [s] if s else []
        out.append(v3.step(m, r))
    return out


def noise(r):
    c = r.randrange(4)
    m = uper.message(r, call=r.choice(["A", "B", "AB"]), p=1)
    if c == 0:
        return v3.damaged(v3.step(m, r), r)
    if c == 1:
        return v3.other(r)
    # an inadmissible message must not teach the listener its names
    return v3.step(uper.outside(r, m), r, msg=False)


def check(ck):
    T = thorough()
    r = rng("c12")
    env = pyenv.build(ck.dir, ext=False)
    ck.spec(must_hold(tlc("V3Names", timeout=120), "V3Names"), "V3Names")
    hs = histories(ck, "V3NamesBig" if T else "V3NamesAll", least=600)
    hs += histories(ck, "V3NamesGen", extra=["-simulate", "num=%d" % (1500 if T else 150), "-depth", "26", "-seed", str(seed() + 5)], least=50)
    ss = []
    for h in hs:
        s = concrete(r, h)
        for _ in range(r.randrange(3)):
            s.insert(r.randrange(len(s) + 1), noise(r))
        ss.append(s)
    # sensors that come and go, names that are moved between positions or shared by payloads, many packets
    for _ in range(60 if T else 12):
        calls = [uper.callsign(r) for _ in range(r.choice([2, 3, 6]))]
        pool = [uper.codes(uper.name(r)) for _ in range(4)]
        s = []
        for k in range(120 if T else 60):
            m = uper.plain(r.choice(calls), k)
            if r.random() < .95:
                m["sensors"] = [[{"name": [r.choice(pool)] if r.random() < .3 else [], "values": [value(r)] if r.random() < .9 else []} for _ in range(r.randint(1, 4))]]
            s.append(v3.step(m, r) if r.random() < .9 else noise(r))
        ss.append(s)
    # a season's worth of payloads, each announced once, all heard again later
    calls = list(dict.fromkeys("N%d-%d" % (k % 7, k) for k in range(4000 if T else 1200)))
    s = []
    ann = [dict(uper.plain(c, 1), sensors=[uper.sensors(r, named=.8, n=1 + k % 4, long=False)]) for k, c in enumerate(calls)]
    again = [dict(uper.plain(c, 2), sensors=[[{"name": [], "values": [{"kind": "int", "v": [[7]]}]}] * (1 + (k * 7) % 4)]) for k, c in enumerate(calls)]
    r.shuffle(again)
    ss.append([v3.step(m, r) for m in ann + again])
    ss.sort(key=len, reverse=True)
    recs = v3.run(ck, env, ss, "sessions", "a session of v3 packets is not reported with the names its payloads announced")
    ck.sample({"session": len(recs[-1]["steps"]), "first": bytes(recs[-1]["steps"][0]["packet"]).hex()})


main("C12", check)
