"""Runs the real uploader program (uploader.main) in-process on configuration files and one packet; what it sends, or that it refuses."""
import sys, os, io, json, gzip, shutil, tempfile, copy, threading
import clock, standin, fakesock
import time
from recnum import codes, num
_sleep = time.sleep
STALE = set()


def fake_sleep(d):
    if threading.current_thread() in STALE:
        raise SystemExit
    _sleep(min(d, 0.0005))


time.sleep = fake_sleep
import logging
import horusdemodlib.payloads as P
import horusdemodlib.uploader as U
logging.disable(logging.CRITICAL)
job = json.loads(sys.stdin.read())
D0 = (copy.deepcopy(P.HORUS_PAYLOAD_LIST), copy.deepcopy(P.HORUS_CUSTOM_FIELDS))
real_stderr = sys.stderr


class Input(io.RawIOBase):
    """One packet; the end of the input is held back until the station information was seen."""
    def __init__(self, line, wait):
        self.line, self.wait, self.reads = line, wait, 0

    def readable(self):
        return True

    def readinto(self, buf):
        self.reads += 1
        if self.reads == 1:
            buf[:len(self.line)] = self.line
            return len(self.line)
        end = time.monotonic() + 5
        while not self.wait() and time.monotonic() < end:
            _sleep(0.001)
        return 0


def station(p):
    pos = p.get("uploader_position")
    t = [p.get(k) for k in ("uploader_callsign", "uploader_radio", "uploader_antenna")]
    t = [codes(x) if isinstance(x, str) else [-2] for x in t]
    return {"call": t[0], "radio": t[1], "ant": t[2], "pos": [] if pos is None else [num(x) for x in pos]}


base = tempfile.mkdtemp(prefix="cfg")
out = []
try:
    for n, j in enumerate(job["recs"]):
        wd, pk = os.path.join(base, "w%d" % n), os.path.join(base, "p%d" % n, "horusdemodlib")
        os.makedirs(wd)
        os.makedirs(pk)
        os.chdir(wd)
        P.__file__ = os.path.join(pk, "payloads.py")
        P.HORUS_PAYLOAD_LIST, P.HORUS_CUSTOM_FIELDS = copy.deepcopy(D0[0]), copy.deepcopy(D0[1])
        for name, text in j["files"].items():
            with open(name, "w", newline="") as f:
                f.write(text)
        info, puts = [], []

        def http(m, u, h, b):
            if m == "GET":
                return (404, "")
            b = gzip.decompress(b) if h.get("Content-Encoding") == "gzip" else b
            (info if "listener" in u else puts).append(json.loads(b))
            return (200, "{}")
        standin.HTTP = http
        fakesock.PLAN = {}
        fakesock.LOG.clear()
        clock.set(j["t0"], 0)
        sys.argv = ["uploader"] + j["argv"]
        inp = Input(j["line"].encode() + b"\n", lambda: info or j["noupload"])
        sys.stdin = io.TextIOWrapper(io.BufferedReader(inp), encoding="utf-8")
        sys.stderr = open(os.devnull, "w")
        end, exits = "normal", False
        try:
            U.main()
        except SystemExit as e:
            end, exits = "exit %s" % e.code, True
        except BaseException as e:
            end = repr(e)
        sys.stderr.close()
        sys.stderr = real_stderr
        alive = [t for t in threading.enumerate() if t is not threading.main_thread()]
        STALE.update(alive)
        for t in alive:
            t.join(5)
        out.append({"end": end, "exits": exits, "read": inp.reads, "udp": [s["port"] for s in fakesock.LOG], "info": [station(x) for x in info], "put": [station(x) for q in puts for x in q]})
        os.chdir(base)
        shutil.rmtree(wd)
finally:
    os.chdir("/tmp")
    shutil.rmtree(base)
print("RESULT " + json.dumps(out), flush=True)
os._exit(0)
