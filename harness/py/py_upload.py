"""Runs the real SondehubAmateurUploader under a scheduler: its thread stops at every queue poll, HTTP request and sleep,
and the driver decides what happens (records added, clock, close, server answer) before it goes on."""
import sys, json, gzip, threading, logging
import clock, standin
import queue, time
logging.disable(logging.CRITICAL)

_main = threading.current_thread()
RETRY = [False]


class Hooks:
    def __init__(self):
        self.cv = threading.Condition()
        self.at, self.reply, self.dead = None, None, False

    def hook(self, kind, info=None):
        if threading.current_thread() is _main:
            return None
        with self.cv:
            if self.dead:
                raise SystemExit
            self.at, self.reply = (kind, info), None
            self.cv.notify_all()
            while self.reply is None and not self.dead:
                self.cv.wait(30)
            if self.dead:
                raise SystemExit
            return self.reply

    def wait(self, thread, limit):
        with self.cv:
            end = clock.real_time() + limit
            while self.at is None:
                if not thread.is_alive():
                    return ("end", None)
                if clock.real_time() > end:
                    return ("lost", None)
                self.cv.wait(0.02)
            return self.at

    def go(self, reply=True):
        with self.cv:
            self.at, self.reply = None, reply
            self.cv.notify_all()

    def kill(self):
        with self.cv:
            self.dead = True
            self.cv.notify_all()


H = None
_Q = queue.Queue


class HookQueue(_Q):
    def get(self, *a, **k):
        H.hook("get")
        return super().get(*a, **k)

    def get_nowait(self):
        return self.get(block=False)


queue.Queue = HookQueue
_sleep = time.sleep


def fake_sleep(d):
    if threading.current_thread() is _main:
        return _sleep(d)
    H.hook("sleep", d)


time.sleep = fake_sleep
standin.HTTP = lambda m, u, h, b: H.hook("put", (m, u, h, b))
import requests
from horusdemodlib.sondehubamateur import SondehubAmateurUploader

E0 = clock.epoch(2024, 3, 1, 12, 0, 0)


def posc(p):
    return [] if p is None else [int(round(x * 1e5)) for x in p]


def one(job):
    global H
    H = Hooks()
    now = [0]
    ev = []

    def tick(n):
        now[0] += n
        clock.set(E0 + now[0])
    tick(0)
    c = job["cfg"]
    u = SondehubAmateurUploader(upload_rate=c["rate"], upload_retries=c["retries"], user_callsign=c["call"], user_position=tuple(x / 1e5 for x in c["pos"]) if c["pos"] else None,
                                user_radio=c["radio"], user_antenna=c["ant"], user_position_update_rate=c["hours"], inhibit=c["inhibit"])
    nid = [0]
    closed = [False]

    def act(a):
        if a[0] == "add":
            nid[0] += 1
            ts = time.gmtime(E0 + now[0])
            t = {"callsign": "TESTCALL", "sequence_number": nid[0], "time": "%02d:%02d:%02d" % (ts.tm_hour, ts.tm_min, ts.tm_sec), "latitude": -34.5, "longitude": 138.5, "altitude": 1000}
            ok = True
            k = a[1] if len(a) > 1 else ""
            if k == "unknown":
                t["callsign"], ok = "UNKNOWN_PAYLOAD_ID", False
            elif k == "noalt":
                del t["altitude"]
                ok = False
            elif k == "via":
                t["via"], ok = "nohub", False
            elif k == "old":
                t["time"], ok = "03:00:00", False
            x = False
            try:
                u.add(t)
            except Exception:
                x = True
            ev.append({"e": "add", "id": nid[0], "ok": ok, "t": now[0], "raised": x})
        elif a[0] == "close":
            u.close()
            closed[0] = True
            ev.append({"e": "close", "t": now[0]})
        elif a[0] == "due":
            tick(int(c["hours"] * 3600) + 7)
        elif a[0] == "tick":
            tick(a[1])
        elif a[0] == "pos":
            u.update_station_position(*[x / 1e5 for x in a[1]])
            ev.append({"e": "pos", "pos": a[1], "t": now[0]})

    def answer(st):
        if st == -1:
            return requests.exceptions.ConnectionError("stand-in")
        if st == -2:
            return requests.exceptions.ReadTimeout("stand-in")
        return (st, job.get("text", "{}"))

    def describe(info):
        m, url, h, b = info
        h = {k.lower(): v for k, v in h.items()}
        b = b if isinstance(b, bytes) else (b or "").encode()
        if "listener" in url:
            try:
                p = json.loads(b)
                return {"e": "pput", "good": m == "PUT" and url == SondehubAmateurUploader.SONDEHUB_AMATEUR_STATION_POSITION_URL, "call": p.get("uploader_callsign", ""),
                        "pos": posc(p.get("uploader_position")), "radio": p.get("uploader_radio", ""), "ant": p.get("uploader_antenna", ""), "mobile": bool(p.get("mobile"))}
            except Exception:
                return {"e": "pput", "good": False, "call": "", "pos": [], "radio": "", "ant": "", "mobile": False}
        good = m == "PUT" and url == SondehubAmateurUploader.SONDEHUB_AMATEUR_URL and h.get("content-encoding") == "gzip" and "json" in h.get("content-type", "")
        try:
            items = json.loads(gzip.decompress(b))
            items = [[r["frame"], posc(r.get("uploader_position")), r.get("uploader_callsign", ""), r.get("payload_callsign", "")] for r in items]
        except Exception:
            items, good = [], False
        return {"e": "tput", "good": good, "ids": [x[0] for x in items], "poss": [x[1] for x in items], "calls": [x[2] for x in items]}

    steps, i, miss, after, gets = job["steps"], 0, 0, 0, 0
    th = u.input_process_thread
    if th is None:
        for s in steps:
            for a in s["acts"]:
                act(a)
        if not closed[0]:
            act(["close"])
        ev.append({"e": "end" if not u.running() else "hang", "t": now[0]})
        return {"cfg": c, "ev": ev}
    lost = 0
    while True:
        kind, info = H.wait(th, 5)
        if kind == "end":
            ev.append({"e": "end", "t": now[0]})
            break
        if kind == "lost":
            lost += 1
            if lost > 6:
                ev.append({"e": "hang", "t": now[0]})
                break
        name = kind
        if kind == "put":
            d = describe(info)
            name = d["e"]
            d["t0"] = now[0]
        elif kind == "sleep":
            d = {"e": "sleep", "t": now[0]}
        st, acts = 200, []
        if i < len(steps):
            if steps[i]["k"] in (name, "any") or miss > 25 or kind == "lost":
                acts, st = steps[i]["acts"], steps[i]["st"]
                i += 1
                miss = 0
            else:
                miss += 1
        elif not closed[0]:
            acts = [["close"]]
        if closed[0]:
            after += kind != "get"
            gets += kind == "get"
            if after > 400 or gets > 400 + 3 * nid[0]:
                ev.append({"e": "hang", "t": now[0]})
                break
        if kind == "sleep":            # the sleep is in progress while the environment acts
            ev.append(d)
            tick(max(1, int(info)))
        if kind == "put":
            slot = len(ev)
            ev.append(d)
        for a in acts:
            act(a)
        if kind == "put":
            d["st"], d["t"] = st, now[0]
            H.go(answer(st))
        elif kind != "lost":
            H.go(True)
    H.kill()
    th.join(5)
    return {"cfg": c, "ev": ev}


if __name__ == "__main__":
    job = json.load(sys.stdin)
    out = [one(j) for j in job["recs"]]
    print("RESULT " + json.dumps(out))
