#!/usr/bin/env python3
"""C32: a decoder hears the payload inside its frequency limits, whatever else is in the band."""
import os, sys, subprocess, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from concurrent.futures import ThreadPoolExecutor
from common import *
import rx, modem, front, pyenv

NAME = {0: "binary", 89: "RTTY7N1", 90: "RTTY7N2", 91: "RTTY8N2"}
EDGE = 22500


def packets(r, frames, mode):
    if mode == 0:
        fs = r.sample(frames, 2)
        return [p for p, f in fs], [f for p, f in fs]
    s = [rx.sentence(rx.random_body(r, r.randint(14, 50)), r.randint(2, 4)) for _ in range(2)]
    return s, s


def scene(r, frames, n, quad, bw, sep, strong, drift, edge=EDGE):
    """n payloads (and carriers) side by side: each has a slot bw wide, slots sep apart"""
    lo = -edge if quad else 300
    hi = edge
    room = hi - lo - n * bw - (n - 1) * sep
    if room < 0:
        raise ToolError("band too narrow")
    cuts = sorted(r.randint(0, room) for _ in range(n))
    slots = [lo + c + i * (bw + sep) for i, c in enumerate(cuts)]
    amps = [r.choice([1, 1, 2, 5, strong]) for _ in range(n)]
    unit = min(1500, 30000 / (sum(amps) + 1))
    sigs = []
    for s, a in zip(slots, amps):
        carrier = n > 1 and r.random() < .2
        mode = r.choice([0, 0, 0, 89, 90, 91])
        shift = r.choice([240, 270, 300, 400]) if mode == 0 else r.choice([350, 450, 500])
        width = 0 if carrier else shift * (3 if mode == 0 else 1)
        f0 = r.randint(s + 120, s + bw - width - 120 - abs(drift) * 25)
        if carrier and r.random() < .5 and s < 0 < s + bw:
            f0 = 0                                                    # the radio's own spike in the middle of its band
        sent, tx = ([], []) if carrier else packets(r, frames, mode)
        sigs.append({"slot": (s, s + bw), "lo": f0, "hi": f0 + width, "mode": -1 if carrier else mode, "sent": sent, "tx": tx,
                     "opt": dict(f0=f0, shift=0 if carrier else shift, amp=int(a * unit), phase=r.random() * 6, lead=r.randrange(20000), ppm=r.choice([0, 0, 200, -400]),
                                 seed=r.randrange(10**6), quad=int(quad), drift=0 if carrier else drift)})
    decs = []
    for s in sigs:
        if s["mode"] == -1 and r.random() < .5 and (decs or s is not sigs[-1]):
            continue
        decs.append({"mode": s["mode"] if s["mode"] != -1 else 0, "lower": s["slot"][0], "upper": s["slot"][1], "spacing": s["opt"]["shift"] if r.random() < .3 else -1})
    if quad and r.random() < .3 and decs:                             # somebody listens where nobody sends
        for _ in range(50):
            x = r.randint(lo, hi - bw)
            if all(x >= s["hi"] + 1500 or x + bw <= s["lo"] - 1500 for s in sigs):
                decs.append({"mode": r.choice([0, 90]), "lower": x, "upper": x + bw, "spacing": -1})
                break
    return {"quad": quad, "sigs": sigs, "decs": decs}


def check(ck):
    T = thorough()
    r = rng("c32")
    gen, ctool, env = modem.build_fskgen(ck.dir), front.build_ctool(ck.dir), pyenv.build(ck.dir)
    sizes = [(22, "tail"), (32, "tail"), (32, "head"), (48, "head"), (64, "head")]
    frames = rx.gen_frames(ck, [(r.randbytes(n - 2), c) for n, c in sizes for _ in range(4)])
    scenes = []
    for i in range(160 if T else 24):
        kind = i % 8
        n, quad, bw, sep = [(2, True, 8000, 2000), (3, True, 5000, 1600), (8, True, 3000, 1600), (1, True, 4000, 0), (2, False, 4000, 2000), (4, True, 8000, 1600),
                            (1, False, 8000, 0), (5, True, 2500, 3000)][kind]
        scenes.append(scene(r, frames, n, quad, bw, sep, 10, r.choice([0, 0, 0, 10, -10])))

    def one(ix):
        i, sc = ix
        mix, k = None, 0
        for s in sc["sigs"]:
            fn = os.path.join(ck.dir, "band-%d-%d.raw" % (i, k))
            k += 1
            bits = "0" * 2600 if s["mode"] == -1 else modem.on_air(s["mode"], s["tx"])
            modem.modulate(gen, fn, bits, 0 if s["mode"] == -1 else s["mode"], mix=mix, **s["opt"])
            if mix:
                os.unlink(mix)
            mix = fn
        decs = []
        for j, d in enumerate(sc["decs"]):
            py = (i + j) % 6 == 0
            lim = ["--fsk_lower=%d" % d["lower"], "--fsk_upper=%d" % d["upper"]]
            argv = ([HVENV, "-m", "horusdemodlib.demod"] if py else [ctool]) + (["-q"] if sc["quad"] else []) + ["-m", NAME[d["mode"]]] + lim
            argv += ["--tonespacing=%d" % d["spacing"]] if d["spacing"] > 0 else []
            try:
                p = subprocess.run(argv + ["-", "-"], stdin=open(mix, "rb"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env.env if py else None, timeout=300, cwd=ck.dir)
            except subprocess.TimeoutExpired:
                raise Violation("the decoder does not finish", {"argv": argv})
            if p.returncode:
                raise Violation("the decoder ends with status %d: %s" % (p.returncode, p.stderr.decode("latin1")[-600:]), {"argv": argv})
            decs.append({"mode": d["mode"], "lower": d["lower"], "upper": d["upper"], "got": [list(x) for x in p.stdout.split(b"\n") if x], "argv": argv[1:]})
            ck.count("decoders", 1)
        os.unlink(mix)
        return {"signals": [{"lo": s["lo"], "hi": s["hi"], "mode": s["mode"], "sent": [list(x) for x in s["sent"]],
                             "opt": {k: str(v) for k, v in s["opt"].items()}} for s in sc["sigs"]], "decs": decs}
    with ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(one, enumerate(scenes)))
    ck.count("signals", sum(len(x["signals"]) for x in recs))
    ck.sample({"signals": [s["opt"] for s in recs[0]["signals"]], "decoders": [d["argv"] for d in recs[0]["decs"]]})
    if os.environ.get("C32_DEBUG"):
        for i, rec in enumerate(recs):
            try:
                validate_records(ck, "BandTrace", [rec], "one")
            except Violation as v:
                print(i, str(v)[-200:])
                for s in rec["signals"]:
                    print("   sig", s["mode"], s["lo"], s["hi"], len(s["sent"]), s["opt"])
                for d in rec["decs"]:
                    print("   dec", d["argv"], len(d["got"]))
        return

    def describe(rec):
        return json.dumps({"signals": [dict(s["opt"], mode=s["mode"], sent=len(s["sent"])) for s in rec["signals"]],
                           "decoders": [d["argv"] + ["reported %d" % len(d["got"])] for d in rec["decs"]]})
    validate_records(ck, "BandTrace", recs, "bands", what="a decoder does not deliver exactly what the payload inside its limits sends", describe=describe)
    ck.assumptions.append("the transmitters are textbook continuous phase FSK modulators (harness/c/fskgen.c), independent of the repository; other signals at least 1.6 kHz away and up to 20 dB stronger")


main("C32", check)
