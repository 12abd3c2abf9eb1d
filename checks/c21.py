#!/usr/bin/env python3
"""C21: UDP outputs send each packet's values and never raise."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import packets, pyenv
from packets import tail, body
from rx import crc16


def telem(r):
    lat, lon = r.choice([(0.0, 0.0), (0.0, 138.5), (-34.9, 0.0), (0, 0), (0, 12), (1e-7, 0.0), (-34.123456789, 138.98765432), (89.999996, -179.999996), (-0.000004, 0.00001), (round(r.uniform(-90, 90), 7), round(r.uniform(-180, 180), 7)), (r.uniform(-90, 90), r.uniform(-180, 180)), (r.uniform(-1, 1), r.uniform(-10, 10))])
    t = {"callsign": r.choice(["N0CALL", "VK5QI-9", "a b", "caf\u00e9", "UNKNOWN_PAYLOAD_ID", "\"q\""]), "latitude": lat, "longitude": lon, "altitude": r.choice([0, 1, 65535, -1, 12345, 1234.5, 30000]), "time": "%02d:%02d:%02d" % (r.randrange(24), r.randrange(60), r.randrange(60)),
         "sequence_number": r.randrange(65536)}
    opt = {"snr": [12.5, 0.0, -3.25, 0, -999.0], "f_centre": [434200000, 434200001, 1500, 0, 999999, 2097151999, r.randrange(2**31 - 1)], "satellites": [0, 5, 31, 255], "battery_voltage": [0.0, 1.45, 5.0, 3], "speed": [0, 1.5, 255], "temperature": [-40, 20.5], "crc_ok": [True],
           "ascent_rate": [1.5, -3.2], "modulation": ["Horus Binary v2"], "tone_spacing": [270], "heading": [90], "comment": ["no"], "baud_rate": [100]}
    for k, v in opt.items():
        if r.random() < .5:
            t[k] = r.choice(v)
    if r.random() < .6:
        names = r.sample(["ext_temperature", "ext_humidity", "a", "count_0", "no_such", "cutdown_battery_voltage", "satellites", "name with space"], r.randrange(0, 6))
        for k in names:
            if k not in ("no_such", "satellites") and r.random() < .9:
                t[k] = r.choice([1, -5, 2.25, "text", True, 0, 65536, 1e-9, 123456789012, "\u00b0C"])
        t["custom_field_names"] = names
    t = dict(r.sample(list(t.items()), len(t)))
    return t


def check(ck):
    T = thorough()
    r = rng("c21")
    env = pyenv.build(ck.dir, ext=False)
    ids = packets.real_lists()["ids"]
    jobs = []
    plans = [{}] * 6 + [{"broadcast": "net"}, {"broadcast": "perm"}, {"broadcast": "timeout"}, {"broadcast": "net", "local": "net"}, {"local": "perm"}, {"create": True}, {"reuseport": True}, {"reuseport": True, "broadcast": "net"}]
    for n in range(20000 if T else 3000):
        j = {"fn": r.choice(["summary", "ozi"]), "port": r.choice([None, 55672, 55683, 1, 65535, r.randrange(1024, 65536)]), "plan": r.choice(plans), "comment": r.choice([None, None, "HorusDemodLib", "", "x \u00e9"])}
        x = r.random()
        more = {}
        for k, v in {"snr": [r.uniform(-5, 30)], "f_centre": [434200000 + r.randrange(10000)], "speed": [3.5], "baud_rate": [100]}.items():
            if r.random() < .5:
                more[k] = r.choice(v)
        if r.random() < .12:
            j["fn"] = "modem"
            t = {"snr": r.choice([12.5, -3, 0.0, r.uniform(-20, 40)]), "ppm": r.choice([0, -12.0, 200]), "f_mean": r.uniform(0, 24000), "fcentre": r.randrange(24000), "fest": [r.uniform(0, 4000) for _ in range(r.choice([0, 2, 4]))],
                 "fft_db": [round(r.uniform(-90, 0), 3) for _ in range(r.choice([0, 3, 300]))], "name": r.choice(["a", "caf\u00e9", ""])}
            t = dict(r.sample(list(t.items()), r.randrange(len(t) + 1)))
            if r.random() < .1:
                t["x"], j["odd"] = {"$": r.choice(["bytes", "set"])}, True
            j["telem"] = t
        elif x < .2:
            fmt = r.choice(["horus_binary_v1", "horus_binary_v2_32byte"])
            p = tail(body(fmt, r, ids, 1))
            j.update(hex=bytes(p).hex(), more=more)
        elif x < .3:
            b = "%s,%d,%02d:%02d:%02d,%.5f,%.5f,%d" % (r.choice(["N0CALL", "AB-1"]), r.randrange(70000), r.randrange(24), r.randrange(60), r.randrange(60), r.uniform(-90, 90), r.uniform(-180, 180), r.randrange(65536))
            j.update(text="$$" + b + "*%04X" % crc16(b.encode()), more=more)
        elif x < .88:
            j["telem"] = telem(r)
        elif x < .95:
            t = telem(r)
            for k in r.sample(["callsign", "latitude", "longitude", "altitude", "time"], r.choice([1, 1, 2, 5])):
                t.pop(k)
            j["telem"] = t
        else:
            t = telem(r)
            k = r.choice(["callsign", "latitude", "longitude", "altitude", "time", "snr", "f_centre", "satellites", "speed", "custom_field_names", "x"])
            t[k] = {"$": r.choice(["bytes", "none", "set"])} if r.random() < .7 else r.choice(["text", [1], {"a": 1}, True])
            if r.random() < .3:
                t["custom_field_names"] = r.choice([["x"], [k], "abc", 5, {"$": "none"}])
            j.update(telem=t, odd=True)
        jobs.append(j)
    for p in plans:         # every outcome of the network, for both senders
        for fn in ("summary", "ozi", "modem"):
            for t in ({"callsign": "A", "latitude": 0.0, "longitude": 0.0, "altitude": 0, "time": "00:00:00"}, {"callsign": "A", "latitude": 1.0, "longitude": 0.0, "altitude": 0, "time": "00:00:00"}, {}):
                jobs.append({"fn": fn, "port": None, "plan": p, "telem": t})
    res = env.call("py_udp.py", {"recs": jobs})
    ck.count("datagrams", sum(len(x["sends"]) for x in res))
    ck.count("fallbacks", sum(len(x["sends"]) == 2 for x in res))
    ck.sample({"job": jobs[0], "sends": len(res[0]["sends"])})
    validate_records(ck, "UdpTrace", res, "udp", what="UDP sender")


main("C21", check)
