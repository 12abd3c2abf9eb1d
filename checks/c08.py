#!/usr/bin/env python3
"""C08: the receivers' front ends print exactly the valid packets."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import front, pyenv, rx


def real(ck, env, T):
    """whole receivers: what the two tools print for transmissions of good and spoiled packets"""
    r = rng("c08e2e")
    exe = front.build_ctool(ck.dir)
    sizes = [(22, "tail"), (32, "tail"), (32, "head"), (48, "head"), (64, "head"), (96, "head"), (128, "head")]
    frames = rx.gen_frames(ck, [(r.randbytes(n - 2), c) for n, c in sizes for _ in range(2)])
    cases = []
    for i in range(48 if T else 14):
        mode = front.MODES[i % 4] if i >= 6 else 0
        if mode == 0:
            fs = r.sample(frames, 4)
            sent, packets = [p for p, f in fs], [f for p, f in fs]
            k = r.randrange(len(packets))                       # one of them beyond repair
            f = bytearray(packets[k])
            for q in range(10, len(f)):
                f[q] ^= r.randrange(256)
            packets.insert(k, bytes(f))
        else:
            sent = [rx.sentence(rx.random_body(r, r.randint(12, 100)), r.randint(2, 4), r.random() < .3, r.choice([b"\n", b"\r\n"])) for _ in range(3)]
            packets = list(sent)
            b = bytearray(rx.sentence(rx.random_body(r, r.choice([90, 40])), 2))
            b[8] = ord("0") if b[8] == ord("1") else ord("1")
            packets.insert(r.randrange(4), bytes(b))
        quad = int(r.random() < .3)
        fs_ = 48000 if i % 3 or mode else r.choice([8000, 16000, 44100, 96000])
        spacing = r.choice([None, 300])
        cases.append({"mode": mode, "sent": sent, "packets": packets, "spacing": spacing, "io": (r.choice(["file", "-"]), r.choice(["file", "-"])),
                      "opt": dict(f0=r.randrange(700, 1500), shift=300 if mode == 0 else 450, amp=8000, lead=r.randrange(2000), seed=r.randrange(10**6), quad=quad, fs=fs_, noise=r.choice([0, 200]))})
    name = {0: "binary", 89: "RTTY7N1", 90: "RTTY7N2", 91: "RTTY8N2"}

    def which(c):
        o = c["opt"]
        sp = ["--tonespacing=%d" % o["shift"]] if c["spacing"] else []
        q = ["-q"] if o["quad"] else []
        res = [("py", [HVENV, "-m", "horusdemodlib.demod", "-m", name[c["mode"]], "--sample-rate", str(o["fs"])] + sp + q, env.env)]
        if o["fs"] == 48000:
            res.append(("c", [exe, "-m", name[c["mode"]]] + sp + q, None))
        return res
    return front.e2e(ck, cases, which)


def check(ck):
    T = thorough()
    r = rng("c08")
    env = pyenv.build(ck.dir)
    # HorusLib
    jobs = []
    for n in range(1500 if T else 250):
        mode, iq = r.choice(front.MODES), r.choice([0, 0, 1])
        ns = front.nins(r)
        if r.random() < .4:
            lens = [r.choice([ns[k % len(ns)], ns[k % len(ns)], 0, 1, ns[k % len(ns)] // 2, ns[k % len(ns)] + 5]) for k in range(r.randint(1, 20))]
            jobs.append({"kind": "direct", "mode": mode, "iq": iq, "rate": 48000, "nins": ns, "outs": front.outs(r, mode, 20), "quiet": front.QUIET, "lens": lens})
        else:
            total = sum(ns) * 2 * (1 + iq) * r.choice([1, 2])
            jobs.append({"kind": "add", "mode": mode, "iq": iq, "rate": 48000, "nins": ns, "outs": front.outs(r, mode, 30), "quiet": front.QUIET, "chunks": front.chunks(r, min(total, 60000)), "cb": True})
    for n in range(2000 if T else 300):
        jobs.append(front.tool_job(r, True))
    res = env.call("py_demod.py", {"recs": jobs})
    for j, x in zip(jobs, res):
        if j["kind"] == "cli":
            front.finish_cli(j, x)
    ck.count("python_runs", len(res))
    validate_records(ck, "FrontTrace", res, "python", what="Python front end")
    exe = front.modem_front(ck.dir)
    cjobs = [front.tool_job(r, False) for _ in range(1500 if T else 250)]
    with front.ThreadPoolExecutor(8) as ex:
        cres = list(ex.map(lambda ij: front.ctool(exe, ck.dir, ij[1], ij[0]), enumerate(cjobs)))
    ck.count("c_runs", len(cres))
    ck.sample({"args": cjobs[0]["args"], "out": bytes(cres[0]["out"]).decode("latin1")[:200]})
    validate_records(ck, "FrontTrace", cres, "ctool", what="horus_demod")
    er = real(ck, env, T)
    ck.count("whole_receiver_runs", len(er))
    validate_records(ck, "FrontTrace", er, "e2e", what="receiver on a real signal")


main("C08", check)
