#!/usr/bin/env python3
"""C30: the station configuration is used as given in everything that is sent, or the uploader refuses to start."""
import os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import pyenv
from rx import crc16

T0 = 1700000000 // 86400 * 86400 + 43200
KEYS = ["callsign", "station_lat", "station_lon", "radio_comment", "antenna_comment"]


class Gen:
    def __init__(self, r):
        self.r = r

    def word(self, n=30):
        r = self.r
        return "".join(r.choice("abcXYZ0189 -_/.,;#=:%[](){}'\"\\$+@!?\u00e9\u00b0\u4e00") for _ in range(r.randrange(n)))

    def comment(self):
        r = self.r
        return r.choice(["", "RTL-SDR v3", "1/4 wave # on the roof", "a ; b", "gain = 20 dB", "ratio: 3", "100% copper", "%(here)s", "${x}", "%%", "[bracket]", "'quoted'", '"quoted"', "caf\u00e9 \u00b0", "a  b\tc", "x" * 300, self.word(), self.word()])

    def real(self, n):
        r = self.r
        k = r.randrange(10)
        if k < 2:
            return r.choice(["0", "0.0", "-0.0", "0.000", "+0", ".0", "0.", "00.00"])
        s = r.choice(["", "", "-", "-", "+"])
        d = str(r.randrange(1, n)) if k < 9 else "00" + str(r.randrange(1, n))
        return s + r.choice([d, d + ".", "." + str(r.randrange(1, 1000)).zfill(3), d + "." + str(r.randrange(10**6)).zfill(6), d + "." + str(r.randrange(10**4)).zfill(4), d + "." + str(r.randrange(10**8)).zfill(8)])

    def notnum(self):
        r = self.r
        return r.choice(["", "abc", "1,5", "34.5S", "12 30", "1.2.3", "--1", "0x10", "-", ".", "138.5\u00b0", "34d30m", "1/2", "# none", "$5", "N34.5", "None", "true"])

    def port(self):
        r = self.r
        return r.choice(["55672", "55683", str(r.randrange(1, 65536)), "+1234", "00080", "65535", "1"])

    def file(self):
        r = self.r
        deflt = []
        u = [["callsign", r.choice(["VK5QI", "N0CALL-9", "a/b", "Mixed Case", "X" * 40, "", self.word()])], ["station_lat", self.real(90)], ["station_lon", self.real(180)], ["radio_comment", self.comment()], ["antenna_comment", self.comment()]]
        if r.random() < .2:
            u[1][1], u[2][1] = r.choice(["0", "0.0", "-0.0"]), r.choice(["0.0", ".0", "0.00"])
        h = [["summary_port", self.port()], ["ozimux_port", self.port()]]
        if r.random() < .5:
            r.shuffle(u)
            r.shuffle(h)
        y = r.random()
        kind = "good"
        if y < .08:
            kind = "missing"
            q = r.choice([u, h])
            q.pop(r.randrange(len(q)))
        elif y < .2:
            kind = "number"
            q = r.choice([x for x in u + h if "station" in x[0] or "port" in x[0]])
            q[1] = self.notnum() if r.random() < .8 or "port" not in q[0] else r.choice(["55672.0", "5567 2", "55672,", "1e4"])
        elif y < .25:
            kind = "twice"
            q = r.choice([u, h])
            x = r.choice(q)
            q.insert(r.randrange(len(q) + 1), [x[0].upper() if r.random() < .5 else x[0], r.choice([x[1], "7"])])
        if r.random() < .15:
            u.insert(r.randrange(len(u) + 1), [r.choice(["email", "callsign2", "STATION_ALT", "call sign"]), self.comment()])
        if r.random() < .12:              # values from the defaults
            q = r.choice([u, h])
            if q:
                x = q.pop(r.randrange(len(q)))
                deflt.append(x)
                if r.random() < .3:
                    q.append([x[0], x[1] if kind != "good" else self.comment() if "comment" in x[0] or x[0] == "callsign" else "5"])
        secs = [("user", u), ("horus_udp", h)]
        if r.random() < .3:
            secs.reverse()
        if deflt:
            secs.insert(r.randrange(3), ("DEFAULT", deflt))
        if r.random() < .15:
            secs.insert(r.randrange(len(secs) + 1), (r.choice(["other", "User", "horus", "user2", "habitat"]), [["callsign", "WRONG"], ["summary_port", "9"]]))
        z = r.random()
        if z < .03:
            secs.pop(r.randrange(len(secs)))
        elif z < .06:
            k = r.randrange(len(secs))
            secs[k] = (r.choice(["users", "USER", " user", "", "horus udp"]), secs[k][1])
        elif z < .08:
            secs.append(secs[r.randrange(len(secs))])
        out = []
        deep = r.random() < .15
        for name, opts in secs:
            out.append(" " * (2 if deep and r.random() < .2 else 0) + "[%s]" % name)
            ind = r.choice([2, 4]) if deep else 0
            for k, v in opts:
                if r.random() < .15:
                    k = r.choice([k.upper(), k.capitalize(), k.title()])
                if r.random() < .15:
                    out += r.choice([["# note"], ["; note = 3"], [""], ["", "# a", ""], ["   # callsign = X"], ["#[user]"], ["  "], ["\t"]])
                out.append((" " * ind) + k + r.choice([" = ", " = ", "=", ": ", " : ", "  =  ", "\t=\t"]) + v + r.choice(["", "", "", " ", "\t"]))
                if r.random() < .04 and ("comment" in k.lower() or r.random() < .2):
                    out.append(" " * (ind + 1) + r.choice(["and more", "x = y", "[user]", "# not part"]))
            if r.random() < .5:
                out.append("")
        if r.random() < .06:
            out.insert(r.randrange(len(out) + 1), r.choice(["nonsense", "callsign", "= 5", "[", "[]", "callsign - X", "key = value", "[user", "user]"]))
        return "\n".join(out) + ("\n" if r.random() < .9 else "")


def check(ck):
    T = thorough()
    r = rng("c30")
    g = Gen(r)
    env = pyenv.build(ck.dir, ext=False)
    jobs, recs = [], []
    with open(os.path.join(REPO, "user.cfg.example")) as f:
        example = f.read()
    for n in range(4000 if T else 900):
        text = example if n < 3 else g.file()
        name = r.choice(["user.cfg", "my.cfg", "sub dir.cfg"])
        argv = ["--nodownload"] if r.random() < .9 else []
        argv += ["--log", r.choice(["none", "out.log"])]
        files = {name: text}
        there = r.random() >= .03
        if not there:
            files = {}
        if name != "user.cfg":
            argv += [r.choice(["-c", "--config"]), name]
            if r.random() < .3:           # the other file is there as well
                files["user.cfg"] = example.replace("YOUR_CALL_HERE", "OTHER")
        elif r.random() < .5:
            argv += ["-c", name]
        target = r.choice([-1, -1, 434200000, 144390000, 437600001, 1000, 10499750123, 430000999, 999700])
        if target >= 2**31:
            target = 1296123456
        if target >= 0:
            argv += ["--freq_target_hz", str(target)]
        no = r.random() < .1
        argv += ["--noupload"] * no
        body = "N0CALL,%d,12:00:00,-34.5,138.5,1000" % n
        jobs.append({"files": files, "argv": argv, "noupload": no, "t0": T0, "line": "$$%s*%04X" % (body, crc16(body.encode()))})
        lines = text.split("\n")
        recs.append({"lines": [[ord(c) for c in x] for x in lines[:-1] + lines[-1:] * (lines[-1] != "")], "file": there, "target": target, "noupload": no})
    parts = [jobs[k::4] for k in range(4)]
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda p: env.call("py_config.py", {"recs": p}, timeout=800), parts))
    for k, p in enumerate(res):
        for m, o in enumerate(p):
            recs[4 * m + k].update(o)
    ck.count("files", len(recs))
    ck.count("refused", sum(x["exits"] for x in recs))
    ck.count("lines", sum(len(x["lines"]) for x in recs))
    path = os.path.join(ck.dir, "config.json")
    with open(path, "w") as f:
        json.dump(recs, f)
    t = tlc("ConfigTrace", env={"TRACE": path}, timeout=800)
    ck.spec(t, "config")
    if not t.ok:
        if t.rc != 12:
            raise ToolError(t.out[-3000:])
        l = int(re.findall(r"/\\ l = (\d+)", t.out)[-1])
        why = re.findall(r'/\\ bad = "(.*)"', t.out)[-1]
        raise Violation("%s: %s" % (why, json.dumps({"argv": jobs[l - 1]["argv"], "files": jobs[l - 1]["files"]})[:600]), {"why": why, "job": jobs[l - 1], "seen": {k: v for k, v in recs[l - 1].items() if k != "lines"}})
    if t.distinct < sum(len(x["lines"]) for x in recs):
        raise ToolError("TLC visited %d states" % t.distinct)
    if not all(any(x["exits"] == b for x in recs) for b in (True, False)):
        raise ToolError("only one kind of outcome was seen")
    ck.traces(len(recs))
    ck.sample(jobs[5])


main("C30", check)
