#!/usr/bin/env python3
"""C15: only plausible telemetry is converted for SondeHub, with its own values."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import packets, pyenv
from packets import tail, body
from rx import crc16


def check(ck):
    T = thorough()
    r = rng("c15")
    env = pyenv.build(ck.dir, ext=False)
    real = packets.real_lists()
    known = [i for i in real["ids"]]
    jobs = []
    dates = [(2024, 2, 28), (2024, 2, 29), (2024, 3, 1), (2023, 2, 28), (2023, 3, 1), (2024, 12, 31), (2025, 1, 1), (2024, 6, 15)]

    def near(t):
        k = r.choice([0, 0, 1, -1, 30, -60, 61, 179, 180, 181, 182, -179, -180, -181, -182, r.randrange(-400, 400), 3600, -3600, 7200, 43200, r.randrange(86400)])
        u = (t + k) % 86400
        return (u // 3600, u // 60 % 60, u % 60)
    N = 20000 if T else 3000
    meta = {"software_name": "x", "software_version": "1", "uploader_callsign": "N0CALL", "uploader_position": [1.0, 2.0, 3.0], "uploader_radio": "r", "uploader_antenna": "a", "time_received": "2024"}
    for n in range(N):
        day = r.choice(dates)
        t = r.choice([0, 1, 179, 180, 181, 3599, 3600, 86399, 86398, 86220, 86219, 82800, 82799, 43200, r.randrange(86400), r.randrange(86400), r.randrange(86400)])
        j = {"clk": list(day) + [t // 3600, t // 60 % 60, t % 60], "us": r.choice([0, 1, 999999, 500000, r.randrange(1000000)])}
        h = near(t)
        kind = r.choice(["v1", "v2", "v2", "v2", "16", "v3", "v3", "ukhas", "dict"])
        if kind in ("v1", "v2", "16"):
            fmt = {"v1": "horus_binary_v1", "v2": "horus_binary_v2_32byte", "16": "horus_binary_v2_16byte"}[kind]
            p = bytearray(body(fmt, r, real["ids"], 1))
            if kind == "16":
                p[0] = r.choice([0, 1, r.randrange(256)])
                p[2:4] = ((h[0] * 3600 + h[1] * 60 + h[2]) // 2).to_bytes(2, "little")
            else:
                p[3 if kind == "v1" else 4:][:3] = bytes(h)
                o = 3 if kind == "v1" else 4
                p[o:o + 3] = bytes(h)
                if kind == "v1":
                    ids = [int(i) for i in known if int(i) < 256]
                    p[0] = r.choice(ids) if r.random() < .7 else r.randrange(256)
            j["packet"] = tail(bytes(p)).hex()
        elif kind == "v3":
            m = {"payloadCallsign": r.choice(["VK5QI", "4FSKTEST-V3", "A", "UNKNOWN"]), "sequenceNumber": r.randrange(65536), "timeOfDaySeconds": h[0] * 3600 + h[1] * 60 + h[2],
                 "latitude": r.randrange(-9000000, 9000001), "longitude": r.randrange(-18000000, 18000001), "altitudeMeters": r.choice([-1000, -999, 0, 50000, r.randrange(0, 40000)])}
            if r.random() < .5:
                m["temperatureCelsius-x10"] = {k: r.randrange(-1023, 1024) for k in ("internal", "external", "custom1", "custom2") if r.random() < .6}
            if r.random() < .5:
                m["milliVolts"] = {k: r.randrange(0, 16384) for k in ("battery", "solar", "custom1", "custom2") if r.random() < .6}
            if r.random() < .5:
                m["gnssSatellitesVisible"] = r.randrange(32)
            if r.random() < .5:
                m["velocityHorizontalKilometersPerHour"] = r.randrange(512)
            if r.random() < .4:
                m["counts"] = [r.randrange(1000) for _ in range(r.randrange(1, 5))]
            if r.random() < .3:
                m["humidityPercentage"] = r.randrange(101)
            if r.random() < .5:
                m["via"] = r.choice(["sondehub", "sondehub", "nohub"])
            j["v3"] = m
        elif kind == "ukhas":
            b = "%s,%d,%02d:%02d:%02d,%.5f,%.5f,%d,1,2" % ((r.choice(["HORUS", "UNKNOWN_PAYLOAD_ID", "4FSKTEST"]), r.choice([r.randrange(1000), 65535, 65536, r.randrange(10**6), 2**31 + r.randrange(100)])) + h + (r.uniform(-90, 90), r.uniform(-180, 180), r.randrange(65536)))
            j["text"] = "$$" + b + "*%04X" % crc16(b.encode())
        else:
            j["set"] = {"callsign": r.choice(["X", "UNKNOWN_PAYLOAD_ID", "UNKNOWN", ""]), "sequence_number": r.choice([r.randrange(100), 70000, 2**40 + r.randrange(9)]), "time": "%02d:%02d:%02d" % h, "latitude": r.choice([0.0, 0, 1.5]), "longitude": 0.0,
                        "altitude": r.choice([0, -5, 100, 1e5]), "custom_field_names": r.sample(["a_b", "missing", "zero", "text", "none"], r.randrange(0, 5)), "a_b": 1.5, "zero": 0, "text": "", "none": False}
            if r.random() < .2:
                del j["set"]["custom_field_names"]
        s = j.setdefault("set", {})
        if r.random() < .6:
            s.update({"snr": r.choice([-999.0, -100.0, -99.999, -100.001, 0.0, -5.5, 12.25, 0, -100, -99, -101, 33])})
        if r.random() < .6:
            s.update({"f_centre": r.choice([1500.0, 1500, 0, 0.0, 434200000, 434200000.0, 434198765.5, r.uniform(0, 3000), 145000000 + r.randrange(10**6)])})
        if r.random() < .3:
            s.update({"temperature": r.choice([-273.15, -273.16, -273.149, -274, -273, 0, -0.0, 25.5, -128, 127, -273.0, -1000.0])})
        if r.random() < .3:
            s.update({"battery_voltage": r.choice([-0.001, -0.0, 0.0, 0, -1, 5.0, 3.3, -1.0])})
        if r.random() < .3:
            s.update({"satellites": r.choice([0, 5, 255])})
        if r.random() < .3:
            s.update({k: v for k, v in {"speed": 0, "vel_h": 0.0, "vel_v": -5.0, "tone_spacing": 270, "modulation_detail": "", "baud_rate": 100, "ext_junk": 4, "crc_ok": False}.items() if r.random() < .6})
        if r.random() < .25:
            s["via"] = r.choice(["sondehub", "sondehub", "other", "", "SondeHub", "aprs"])
        d = j.setdefault("drop", [])
        if r.random() < .1:
            d.append(r.choice(["altitude", "altitude", "temperature", "satellites", "custom_field_names", "raw", "battery_voltage", "time", "speed"]))
        if r.random() < .15:
            j["chk"] = False
        if r.random() < .5:
            j["meta"] = dict(meta)
        jobs.append(j)
    recs = env.call("py_sondehub.py", {"lists": real, "recs": jobs})
    for k in ("record", "none", "exception"):
        ck.count(k, sum(x["res"] == k for x in recs))
    validate_records(ck, "SondehubTrace", recs, "telemetry", what="telem_to_sondehub converts implausible telemetry, drops plausible telemetry, or changes its values",
                     describe=lambda x: json.dumps(x)[:1500])
    ck.sample(jobs[0])


main("C15", check)
