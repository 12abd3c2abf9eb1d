"""Runs the real uploader program (uploader.main) in-process: lines on a real text stdin, files in a scratch directory,
stand-ins for HTTP, UDP, the clock and sleeping.  Records what each line made it do."""
import sys, os, io, json, gzip, shutil, tempfile, binascii, copy, threading
import clock, standin, fakesock
import time
import requests
from recnum import codes, num
_sleep = time.sleep
STALE = set()      # threads a run left behind


def fake_sleep(d):
    if threading.current_thread() in STALE:
        raise SystemExit
    _sleep(min(d, 0.0005))


time.sleep = fake_sleep
import logging
import horusdemodlib.payloads as P
import horusdemodlib.decoder as D
import horusdemodlib.uploader as U
logging.disable(logging.CRITICAL)
job = json.loads(sys.stdin.read())
D0 = (copy.deepcopy(P.HORUS_PAYLOAD_LIST), copy.deepcopy(P.HORUS_CUSTOM_FIELDS))
real_stderr = sys.stderr


def v3(f):
    b = D.HORUS_ASN.encode("Telemetry", f, check_constraints=True)
    return (binascii.crc_hqx(b, 0xffff).to_bytes(2, "little") + b).hex().upper()


class Lines(io.RawIOBase):
    """The program's input: one line per read, calling back before each."""
    def __init__(self, lines, before, end):
        self.lines, self.before, self.end, self.k, self.rest = lines, before, end, 0, b""

    def readable(self):
        return True

    def readinto(self, buf):
        if not self.rest and self.k < len(self.lines):
            self.before(self.k)
            self.rest = self.lines[self.k]
            self.k += 1
        elif not self.rest:
            self.before(None)
            if self.end == "int":
                self.end = ""
                raise KeyboardInterrupt
        n = min(len(buf), len(self.rest))
        buf[:n], self.rest = self.rest[:n], self.rest[n:]
        return n


def answer(r):
    if r == "conn":
        return requests.exceptions.ConnectionError("stand-in")
    if r == "timeout":
        return requests.exceptions.ReadTimeout("stand-in")
    return (r[0], bytes.fromhex(r[1]) if r[0] == 200 else "error page")


base = tempfile.mkdtemp(prefix="upl")
out = []
try:
    for n, j in enumerate(job["recs"]):
        c = j["cfg"]
        wd, pk = os.path.join(base, "w%d" % n), os.path.join(base, "p%d" % n, "horusdemodlib")
        os.makedirs(wd)
        os.makedirs(pk)
        os.chdir(wd)
        P.__file__ = os.path.join(pk, "payloads.py")
        P.HORUS_PAYLOAD_LIST, P.HORUS_CUSTOM_FIELDS = copy.deepcopy(D0[0]), copy.deepcopy(D0[1])
        for name, text in j["files"].items():
            with open(name, "w") as f:
                f.write(text)
        lines = [v3(x["v3"]).encode() + b"\n" if "v3" in x else bytes.fromhex(x["hex"]) for x in j["lines"]]
        state = {"net": j["net"], "gets": [], "t": j["t0"]}
        ev = []
        puts = []
        logname = {"file": "out.log", "none": "none", "full": "/dev/full"}[c["log"]]
        logpos = [0]

        def http(m, u, h, b):
            if m == "GET":
                k = "cf" if "custom" in u else "pl"
                state["gets"].append(k)
                return answer(state["net"][k])
            if "listener" in u:
                return (200, "{}")
            puts.append(gzip.decompress(b) if h.get("Content-Encoding") == "gzip" else b)
            a = j["puts"][(len(puts) - 1) % len(j["puts"])]
            return requests.exceptions.ConnectionError("stand-in") if a == "conn" else (a, "{}")

        def collect():
            """What happened since the last line was handed over."""
            log = ""
            if c["log"] == "file" and os.path.exists("out.log"):
                with open("out.log", "rb") as f:
                    f.seek(logpos[0])
                    d = f.read()
                logpos[0] += len(d)
                log = d.decode("utf-8", "replace")
            udp = []
            for s in fakesock.LOG:
                try:
                    d = json.loads(s["data"].decode())
                    d = [[k, num(v)] for k, v in d.items()]
                except ValueError:
                    d = []
                udp.append({"to": s["to"], "port": s["port"], "ok": s["ok"], "json": d})
            fakesock.LOG.clear()
            r = {"gets": list(state["gets"]), "udp": udp, "log": [codes(x) for x in log.split("\n")[:-1]], "torn": bool(log) and not log.endswith("\n")}
            state["gets"] = []
            return r

        def before(k):
            if k is None and not (j["lines"] and not lines[-1].endswith(b"\n")):
                ev.append(collect()) if len(ev) <= len(lines) else None
                return
            if k is None:
                return
            ev.append(collect())
            x = j["lines"][k]
            state["t"] += x["tick"]
            clock.set(state["t"] // 4, (state["t"] % 4) * 250000)
            if "net" in x:
                state["net"] = x["net"]
            fakesock.PLAN = x.get("udp", {})

        standin.HTTP = http
        fakesock.PLAN = {}
        clock.set(j["t0"] // 4, (j["t0"] % 4) * 250000)
        argv = ["uploader", "-c", "my.cfg", "--log", logname, "--payload-list", "ids.txt", "--custom-fields", "cf.json"]
        argv += ["--noupload"] * c["noupload"] + ["--rtty"] * c["rtty"] + ["--nodownload"] * c["nodl"]
        if c["freq"] >= 0:
            argv += ["--freq_hz", str(c["freq"])]
        if c["baud"] >= 0:
            argv += ["--baud_rate", str(c["baud"])]
        sys.argv = argv
        sys.stdin = io.TextIOWrapper(io.BufferedReader(Lines(lines, before, c["end"])), encoding="utf-8", errors="strict")
        sys.stderr = open(os.devnull, "w")
        end = "normal"
        try:
            U.main()
        except SystemExit as e:
            end = "exit %s" % e.code
        except BaseException as e:
            end = repr(e)
        sys.stderr.close()
        sys.stderr = real_stderr
        alive = [t for t in threading.enumerate() if t is not threading.main_thread()]
        while len(ev) <= len(lines):
            ev.append(collect())
        recs = []
        shape = True
        for b in puts:
            try:
                d = json.loads(b)
                recs += [[[k, num(v)] for k, v in x.items()] for x in d]
            except (ValueError, AttributeError):
                shape = False
        puts = []
        out.append({"end": end, "start": ev[0], "ev": ev[1:len(lines) + 1], "up": recs, "shape": shape, "threads": len(alive), "hex": [codes(x.decode("latin-1").strip().upper()) for x in lines]})
        STALE.update(alive)
        for t in alive:                       # do not let a thread of this run disturb the next
            t.join(5)
        os.chdir(base)
        shutil.rmtree(wd)
finally:
    os.chdir("/tmp")
    shutil.rmtree(base)
print("RESULT " + json.dumps(out), flush=True)
os._exit(0)
