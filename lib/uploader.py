"""Histories of the uploader program: input lines of every kind with what they are, network outcomes, clock."""
from common import *
import struct
import pyenv
from rx import crc16

MARK = "# HORUS BINARY PAYLOAD ID LIST\n"
IDS1, IDS2 = [0, 1, 5, 6, 7, 8, 200], [256, 300, 301, 302, 303, 40000, 65535]
DEF = {"kind": "bad", "id": -1, "seq": 0, "time": [], "lat6": 0, "lon6": 0, "alt": 0, "cb": -1, "call": [], "body": [], "raw": [], "hexu": [], "skew": 0, "via": "", "snr4": 0, "f": [0, 0]}


def codes(s):
    return [ord(c) for c in s]


class Gen:
    def __init__(self, r, style):
        self.r, self.style = r, style

    def names(self):
        r = self.r
        return {i: r.choice(["N-%d" % i, "N-%d" % i, "M-%d" % i, "VK5QI-9"]) for i in r.sample(IDS1 + IDS2, r.choice([0, 1, 3, 6, 14])) if i not in (0, 1) or r.random() < .3}

    def pl(self):
        d = self.names()
        return d, MARK + "".join("%d, %s\n" % kv for kv in d.items())

    def cf(self):
        r = self.r
        d = {"HORUSTEST": "t_test"}
        for i in r.sample(IDS2, r.choice([0, 1, 3] if self.style != "refresh" else [1, 3, 5])):
            # "" is a definition that no packet can be decoded with
            d[r.choice(["N-%d", "M-%d"]) % i] = "tag_%d" % r.randrange(4) if r.random() < (.8 if self.style != "refresh" else .4) else ""
        return d, json.dumps({c: {"struct": "<B8x", "fields": [[t or "x", "none" if t else "no_such_type"]]} for c, t in d.items()})

    def page(self, k):
        """(answer for the harness, page for the specification)"""
        r = self.r
        if r.random() < (.35 if self.style == "refresh" else .25):
            a = r.choice(["conn", "timeout", [404, ""], [500, ""], [200, b"<html>no list</html>".hex()], [200, ""], [200, b"{}".hex()]] + ([[200, b'{"HORUSTEST": '.hex()]] if k == "cf" else []))
            return a, {"k": "fail", "l": []}
        d, text = self.pl() if k == "pl" else self.cf()
        return [200, text.encode().hex()], self.known(k, d)

    def known(self, k, d):
        return {"k": "ok", "l": [[i, codes(c)] for i, c in d.items()] if k == "pl" else [[codes(c), t] for c, t in d.items()]}

    def net(self):
        a, b = self.page("pl"), self.page("cf")
        return {"pl": a[0], "cf": b[0]}, {"pl": a[1], "cf": b[1]}

    def packet_time(self, t):
        """time of day of a packet received at t (quarter seconds): text, (h, m, s), skew in quarters"""
        r = self.r
        now = t // 4
        s = now + (r.choice([0, 0, 0, -1, 3, -40, 40, 170, -170]) if r.random() < .85 else r.choice([190, -190, 2000, -3500]))
        sod = s % 86400
        h = (sod // 3600, sod // 60 % 60, sod % 60)
        return codes("%02d:%02d:%02d" % h), h, 4 * s - t

    def lat(self, n):
        r = self.r
        return r.choice([0, 0, 1, -1, n, -n, r.randrange(-n, n), r.randrange(-n, n), r.randrange(-n, n)])

    def bin(self, t, ids=None):
        r = self.r
        f = dict(DEF, kind="bin")
        f["time"], h, f["skew"] = self.packet_time(t)
        f["seq"], f["alt"] = r.choice([0, 65535, r.randrange(65536)]), r.choice([0, 65535, r.randrange(65536)])
        a, b = self.lat(90 * 64), self.lat(180 * 64)
        if r.random() < .15:
            a, b = 0, 0
        f["lat6"], f["lon6"] = a * 15625, b * 15625
        v2 = r.random() < .6
        f["id"] = r.choice(ids) if ids else r.choice(IDS2 if v2 else IDS1)
        v2 = f["id"] > 255
        c = bytes(r.randrange(256) for _ in range(9))
        if v2:
            f["cb"] = c[0]
        p = struct.pack("<H" if v2 else "<B", f["id"]) + struct.pack("<H3BffHBBbB", f["seq"], *h, a / 64, b / 64, f["alt"], r.randrange(256), r.randrange(256), r.randrange(-128, 128), r.randrange(256)) + (c if v2 else b"")
        p += struct.pack("<H", crc16(p))
        if struct.unpack("<H", p[:2])[0] == crc16(p[2:]):
            return self.bin(t, ids)
        f["hexu"] = codes(p.hex().upper())
        return (p.hex().upper() if r.random() < .8 else p.hex()).encode(), f

    def v3(self, t):
        r = self.r
        f = dict(DEF, kind="v3", call=codes(r.choice(["N0CALL", "VK5QI-9", "a/b-C"])))
        f["time"], h, f["skew"] = self.packet_time(t)
        a, b = self.lat(9000000), self.lat(18000000)
        f.update(seq=r.randrange(65536), lat6=a * 10, lon6=b * 10, alt=r.choice([-1000, -999, 0, 50000, r.randrange(50000)]))
        d = {"payloadCallsign": "".join(map(chr, f["call"])), "sequenceNumber": f["seq"], "timeOfDaySeconds": h[0] * 3600 + h[1] * 60 + h[2], "latitude": a, "longitude": b, "altitudeMeters": f["alt"]}
        if r.random() < .4:
            d["via"] = f["via"] = r.choice(["sondehub", "nohub"])
        if r.random() < .4:
            d["gnssSatellitesVisible"] = r.randrange(32)
        return d, f

    def text(self, t):
        r = self.r
        f = dict(DEF, kind="text")
        f["time"], h, f["skew"] = self.packet_time(t)
        a, b = self.lat(9000000), self.lat(18000000)
        call = r.choice(["N0CALL", "VK5QI-9", "HORUS"])
        f.update(call=codes(call), seq=r.randrange(100000), lat6=a * 10, lon6=b * 10, alt=r.randrange(65536))

        def dec(n):
            return ("-" if n < 0 else "") + "%d.%05d" % (abs(n) // 100000, abs(n) % 100000)
        body = "%s,%d,%s,%s,%s,%d" % (call, f["seq"], "%02d:%02d:%02d" % h, dec(a), dec(b), f["alt"]) + r.choice(["", ",1,2", ",x y z"])
        s = body + "*%04X" % crc16(body.encode())
        line = "$" * r.choice([2, 2, 3, 8]) + s
        f["body"], f["raw"] = codes(s), codes(line)
        return line.encode() + r.choice([b"", b"", b" ", b"\r"]), f

    def stats(self, bad=False):
        r = self.r
        f = dict(DEF, kind="stats", snr4=r.randrange(-40, 120))
        f1, sp = r.randrange(100, 3000), r.choice([0, 270, 270, 185, r.randrange(1, 600)])
        f["f"] = [f1 + k * sp for k in range(r.choice([2, 4, 4]))]
        d = {"secs": 1, "samples": 2, "EbNodB": f["snr4"] / 4, "ppm": r.randrange(-100, 100), "samp_fft": [round(r.random() * 1000, 3) for _ in range(r.choice([2, 2, 20, 256, 1024]))]}
        for k, x in enumerate(f["f"]):
            d["f%d_est" % (k + 1)] = x + 0.0 if r.random() < .7 else x
        if bad:
            k = r.choice(["EbNodB", "ppm", "f1_est", "f2_est", "samp_fft"])
            if r.random() < .5 or k == "samp_fft":
                del d[k]
            else:
                d[k] = r.choice(["x", None, [1], {}])
            return json.dumps(d).encode(), dict(DEF)
        s = json.dumps(d)
        if r.random() < .3:
            s = s[:-1] + ', "eye_diagram": [[nan, 1.0]]}'
        return s.encode(), f

    def bad(self, t):
        r = self.r
        x = r.randrange(18)
        if x < 4:
            b = bytearray(self.bin(t)[0].upper())
            k = r.randrange(len(b))
            how = r.randrange(9)
            if how == 0: b[k] = codes("0123456789ABCDEF".replace(chr(b[k]), ""))[r.randrange(15)]
            elif how == 1: del b[k]
            elif how == 2: b[k:k + 1] = b"zz"
            elif how == 3: b = b[:r.choice([2, 3, 4, 20, 42])]
            elif how == 4: b += b"00"
            elif how == 7: b.append(r.choice(b"0123456789ABCDEFabcdef"))
            elif how == 8: b[k:k] = bytes([r.choice(b"0123456789ABCDEFabcdef")])
            elif how == 5: b[k] = r.choice([0x80, 0xff, 0xc3, 0, 32])
            else: b = b"  " + b if r.random() < .5 else b[:10] + b" " + b[10:]
            return bytes(b)
        if x < 8:
            b = bytearray(self.text(t)[0].strip())
            how = r.randrange(6)
            k = r.randrange(b.rindex(b"$") + 1, len(b))
            if how == 0 and b[k] != 36: b[k] ^= 1
            elif how == 1: b = b[:-r.randrange(1, 6)]
            elif how == 2: b[k:k] = r.choice([b"\xe9", b"\xff\xfe", "\u00b0".encode(), b"\x80", b"x"])
            elif how == 3:
                body = r.choice([b"N0CALL,1,12:34:56,1.0,2.0", b"N0CALL", b"", b"N0CALL,x,12:34:56,1,2,3", b"N0CALL,1,25:00:00,1,2,3", b"N0CALL,1,12:34:56,nan,2,3", b"N0CALL,1,12:34:56,1,2,70000", b"N0CALL,1,12:34:56,\xe91,2,3"])
                b = b"$$" + body + b"*%04X" % crc16(body)
            elif how == 4: b = b[2:].replace(b"$", b"")
            else: b = b"$$" + b.split(b"*")[0].strip(b"$")
            return bytes(b)
        if x < 11:
            return r.choice([self.stats(bad=True)[0], b"{", b"{}", b'{"EbNodB": 1', b"{" * 3000, b'{"a":' * 2000, b"{\xff}", b'{"EbNodB": ' + b"9" * 5000 + b"}", b"{nan}", self.stats()[0][:-1], b'{"EbNodB":1e999,"ppm":0,"f1_est":1,"f2_est":2,"samp_fft":[]}'])
        return r.choice([b"", b"", b" ", b"\t", b"$$", b"$$$$", b"$", b"0", b"00", b"zz", b"nothing", b"\x00", b"\xff\xfe\xfd", b"\x80\x81", "\u00e9\u00b0\u4e00".encode(), b"[1,2]", b"null", b"-1", b"0x00", b"\x1b[31m", bytes(r.randrange(256) for _ in range(40)).replace(b"\n", b"").replace(b"\r", b"").lstrip(b"{$"),
                         b"AB" * 500, b"ff" * 70000, b"%s %d {x}", b"'", b"\xc3"])

    def history(self):
        r = self.r
        ref = self.style == "refresh"
        c = {"noupload": r.random() < .1, "rtty": r.random() < (.0 if ref else .15), "log": r.choice(["file"] * 6 + ["none", "full"]), "nodl": r.random() < (.1 if ref else .3), "freq": r.choice([-1, 434200000, 144000000, 1]), "baud": r.choice([-1, 100, 300]),
             "end": r.choice(["eof", "eof", "eof", "int"]), "port": r.choice([55672, 1234])}
        if c["rtty"]:
            c["nodl"] = True
        t = t0 = (1700000000 // 86400 * 86400 + r.randrange(2 * 3600, 21 * 3600)) * 4
        if not ref and r.random() < .3:
            t = t0 = t0 // 86400 // 4 * 86400 * 4 + r.randrange(2 * 14400, 21 * 14400)
        files = {"my.cfg": "[user]\ncallsign = TESTER\nstation_lat = %s\nstation_lon = 138.0\nradio_comment = a\nantenna_comment = b\n[horus_udp]\nsummary_port = %d\nozimux_port = 55683\n" % (r.choice(["0.0", "-34.0"]), c["port"])}
        locs = {}
        for k, n in (("pl", "ids.txt"), ("cf", "cf.json")):
            if r.random() < .5:
                d, files[n] = self.pl() if k == "pl" else self.cf()
                locs[k] = self.known(k, d)
            else:
                locs[k] = {"k": "absent", "l": []}
        net, pages = self.net()
        # a name that arrives with a refresh and whose custom fields cannot be decoded: (unknown until line, ID)
        spoilt = (r.randrange(4), r.choice(IDS2)) if ref and r.random() < .12 else None
        if spoilt:
            c["nodl"], files, locs = False, {"my.cfg": files["my.cfg"]}, {k: {"k": "absent", "l": []} for k in ("pl", "cf")}
            net, pages = {"pl": "conn", "cf": [404, ""]}, {k: {"k": "fail", "l": []} for k in ("pl", "cf")}
        j = {"cfg": c, "files": files, "net": net, "t0": t0, "lines": [], "puts": r.choice([[200], [200], [200, 400], ["conn", 200], [202], [403], ["conn"]])}
        x = {"cfg": {**c, "port": c["port"]}, "locp": locs["pl"], "locc": locs["cf"], "net": pages, "t0": t0, "facts": [], "pages": pages}
        n = r.randrange(4, 22) if not spoilt else r.randrange(7, 14)
        for k in range(n):
            if ref:
                tick = r.choice([1, 40, 4 * 600, 4 * 1700, 4 * 1799, 7199, 7201, 4 * 1801, 4 * 3600]) if r.random() < .6 else r.choice([1, 2, 8])
            else:
                tick = r.choice([0, 1, 1, 2, 4, 15, 16, 17, 60, 4000])
            if spoilt:
                tick = 4 * 1801 if k == spoilt[0] else r.choice([1, 8, 4 * 60, 4 * 300])
            if (t + tick) % (86400 * 4) > 22 * 3600 * 4:
                tick = 1
            t += tick
            line, nl_end = {"tick": tick}, False
            if r.random() < (.4 if ref else .15):
                line["net"], pages = self.net()
            if spoilt and k <= spoilt[0] + 3:
                line.pop("net", None)
                pages = x["pages"]
                if k == spoilt[0]:
                    d, e = {spoilt[1]: "N-%d" % spoilt[1]}, {"HORUSTEST": "t_test", "N-%d" % spoilt[1]: ""}
                    line["net"] = {"pl": [200, (MARK + "%d, N-%d\n" % (spoilt[1], spoilt[1])).encode().hex()],
                                   "cf": [200, json.dumps({c: {"struct": "<B8x", "fields": [[v or "x", "none" if v else "no_such_type"]]} for c, v in e.items()}).encode().hex()]}
                    pages = {"pl": self.known("pl", d), "cf": self.known("cf", e)}
            x["pages"] = pages
            if r.random() < .25:
                line["udp"] = r.choice([{"broadcast": "net"}, {"broadcast": "perm"}, {"broadcast": "net", "local": "net"}, {"create": True}, {"reuseport": True}])
            y = r.random()
            if spoilt and k in (spoilt[0], spoilt[0] + 2):
                y = 0
            if ref:
                kind = "bin" if y < .75 else "bad" if y < .9 else r.choice(["text", "v3", "stats"])
            else:
                kind = "bin" if y < .3 and not c["rtty"] else "text" if y < .45 else "v3" if y < .53 else "stats" if y < .7 else "bad"
            if kind == "v3":
                line["v3"], f = self.v3(t)
            else:
                b, f = {"bin": (lambda t: self.bin(t, spoilt[1:] if k <= spoilt[0] else [a for a in IDS2 if a not in (spoilt[1], 256)])) if spoilt else self.bin, "text": self.text, "stats": lambda t: self.stats(), "bad": lambda t: (self.bad(t), dict(DEF))}[kind](t)
                nl = b"\r\n" if r.random() < .1 and not b.endswith(b"\r") else b"\n"
                if k == n - 1 and r.random() < .2 and b and b[-1:] not in b"\r \t" and c["end"] == "eof":
                    nl, nl_end = b"", True
                line["hex"] = (b + nl).hex()
            if k and not nl_end and r.random() < .08:         # the previous line once more
                last = j["lines"][-1]
                line = {**{a: line[a] for a in ("tick", "net", "udp") if a in line}, **{a: last[a] for a in ("v3", "hex") if a in last}}
                f = dict(x["facts"][-1], skew=x["facts"][-1]["skew"] - tick)
            p = line.get("udp", {})
            f = dict(f, tick=tick, net=pages, plan={"create": bool(p.get("create")), "bfail": bool(p.get("broadcast"))})
            j["lines"].append(line)
            x["facts"].append(f)
        x.pop("pages")
        return j, x


def run_histories(ck, n, style, tag):
    r = rng(tag)
    env = pyenv.build(ck.dir, ext=False)
    both = [Gen(r, style).history() for _ in range(n)]
    from concurrent.futures import ThreadPoolExecutor
    parts = [both[k::4] for k in range(4)]
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda p: env.call("py_uploader.py", {"recs": [j for j, _ in p]}, timeout=400 if not thorough() else 1500), parts))
    jobs, recs = [], []
    for p, q in zip(parts, res):
        for (j, x), o in zip(p, q):
            for f, h in zip(x["facts"], o.pop("hex")):
                if f["kind"] == "v3":
                    f["hexu"] = h
            jobs.append(j)
            recs.append({**x, **o})
    return jobs, recs


def judge(ck, jobs, recs, cfg, var, what):
    path = os.path.join(ck.dir, "uploader.json")
    with open(path, "w") as f:
        json.dump({"defaults": [[0, codes("4FSKTEST")], [1, codes("HORUSBINARY")], [256, codes("4FSKTEST-V2")]], "recs": recs}, f)
    t = tlc("UploaderTrace", cfg=cfg, env={"TRACE": path}, timeout=800)
    ck.spec(t, "uploader")
    n = sum(len(x["ev"]) for x in recs)
    if not t.ok:
        if t.rc != 12:
            raise ToolError(t.out[-3000:])
        g = re.findall(r"/\\ (l|i) = (\d+)", t.out)
        l, i = [int(v) for k, v in g if k == "l"][-1], [int(v) for k, v in g if k == "i"][-1]
        why = re.findall(r'/\\ %s = "(.*)"' % var, t.out)[-1]
        j, x = jobs[l - 1], recs[l - 1]
        line = bytes.fromhex(j["lines"][i - 1].get("hex", ""))[:200] if 0 < i <= len(j["lines"]) and "hex" in j["lines"][i - 1] else j["lines"][i - 1].get("v3") if 0 < i <= len(j["lines"]) else ""
        raise Violation("%s: history %d, line %d %r (%s), options %s" % (why, l, i, line, x["facts"][i - 1]["kind"] if 0 < i <= len(x["facts"]) else "-", json.dumps(j["cfg"])),
                        {"why": why, "job": {**j, "lines": j["lines"][:i]}, "seen": x["ev"][i - 1] if 0 < i <= len(x["ev"]) else {k: v for k, v in x.items() if k not in ("facts", "ev")}})
    if t.distinct < n:
        raise ToolError("TLC visited %d states for %d lines" % (t.distinct, n))
    ck.traces(len(recs))
    ck.count("lines", n)
