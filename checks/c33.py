#!/usr/bin/env python3
"""C33: a receiver that has been on for hours receives as well as a fresh one."""
import math, os, struct, subprocess, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from concurrent.futures import ThreadPoolExecutor
from common import *
import rx, modem

BLOCK = 0.5                                                           # about: 50 symbols at 100 baud
# the tone estimator averages over a second or so: after something very loud it takes a few seconds to notice something very quiet
WARM = 1200
MODES = (0, 89, 90, 91)


def transmission(r, mode, frames, minutes, quad, lim, spacing, f0=None):
    """minutes: how long, roughly (0: two or three packets)"""
    if mode == 0:
        n = max(r.randint(2, 3), int(minutes * 60 / 3.4))
        fs = [r.choice(frames) for _ in range(n)]
        sent, tx = [p for p, f in fs], [f for p, f in fs]
    else:
        n = max(2, int(minutes * 60 / 6))
        sent = tx = [rx.sentence(rx.random_body(r, r.randint(14, 70)), r.randint(2, 4)) for _ in range(n)]
    shift = spacing if spacing > 0 else r.choice([240, 270, 300, 350]) if mode == 0 else r.choice([270, 350, 450, 500])
    width = shift * (3 if mode == 0 else 1)
    seconds = 20 + n * (3.4 if mode == 0 else 7)
    drift = r.choice([0, 0, 0.3, -0.3, 1]) if minutes and f0 is None else 0
    room = abs(drift) * seconds + 150
    lo, hi = max(lim[0], -20000 if quad else 400), min(lim[1], 20000 if quad else 4000)
    if hi - lo - width - 2 * room < 100:
        drift, room = 0, 100
    f0 = r.randint(int(lo + room), int(hi - width - room)) if f0 is None else f0
    opt = dict(f0=f0, shift=shift, amp=r.choice([150, 1000, 6000, 25000]), phase=r.random() * 6, lead=r.randrange(24000), ppm=r.choice([0, 0, 300, -700]),
               seed=r.randrange(1, 10**6), quad=quad, drift=drift, noise=0)
    opt["noise"] = opt["amp"] // 50
    return {"kind": "transmission", "lo": int(f0 - room), "hi": int(f0 + width + room), "sent": sent, "tx": tx, "opt": opt}


def single(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def unfavourable(r, shift):
    """where a single precision oscillator's level would drift apart most between the tones, if nothing kept it steady"""
    def growth(f):
        w = single(2 * math.pi * f / 48000)
        return math.hypot(single(math.cos(w)), single(math.sin(w))) - 1

    def spread(f0):
        return min(max(g) - min(g) for g in ([growth(f + m * shift) for m in range(4)] for f in range(f0 - 6, f0 + 7, 3)))
    return max(r.sample(range(600, 3000), 1500), key=spread)


def life(r, frames, i, minutes):
    mode = MODES[i % 4] if i % 3 else 0
    quad = int(i % 4 == 2)
    spacing = 270 if i % 5 == 3 else -1
    lim = (-20000, 20000) if quad else (300, 4500)
    eps = [{"kind": "limits", "lo": lim[0], "hi": lim[1]}]
    if i % 2 == 0:
        eps.append(transmission(r, mode, frames, 0, quad, lim, spacing))
    total, long_air = 0, i % 2
    if spacing > 0:
        minutes *= 1.7                                                # the whole flight on one frequency
    while total < minutes * 0.9:
        room = max(minutes - total, 0.3)
        kind = r.choice(["quiet", "noise", "noise", "loud", "stuck", "square", "sweep", "impulses", "mixture", "carrier", "limits", "watch", "short"]) if not long_air else "air"
        m = min(room, r.choice([0.2, 1, 4, minutes / 3]))
        if kind == "air":
            long_air = 0
            worst = unfavourable(r, spacing) if spacing > 0 else None
            share = 0.95 if worst else 0.6
            eps.append(transmission(r, mode, frames, minutes * share, quad, lim, spacing, worst))
            total += minutes * share
        elif kind == "short":
            eps.append(transmission(r, mode, frames, 0, quad, lim, spacing))
            total += 0.4
        elif kind == "limits":
            lim = r.choice([(-20000, 20000), (-8000, 4000), (1000, 9000)]) if quad else r.choice([(300, 4500), (100, 5000), (800, 3600)])
            eps.append({"kind": "limits", "lo": lim[0], "hi": lim[1]})
        elif kind == "watch":                                         # somebody turns the verbose output on for a while
            eps.append({"kind": "watch", "n": r.randint(1, 12), "g": r.choice([0, 1, 2])})
        elif kind == "carrier":
            eps.append({"kind": "carrier", "opt": dict(f0=r.randint(500, 3500), shift=0, amp=r.choice([300, 30000]), seed=1, quad=quad, noise=r.choice([0, 30])), "bits": int(m * 6000)})
            total += m
        else:
            g = {"quiet": 0, "noise": 1, "loud": 2, "stuck": r.choice([3, 4]), "square": 5, "sweep": 6, "impulses": 7, "mixture": 8}[kind]
            eps.append({"kind": kind, "g": g, "seed": r.randrange(1, 1000), "n": max(2, int(m * 60 / BLOCK))})
            total += m
    eps += [transmission(r, mode, frames, 0, quad, lim, spacing) for _ in range(2)]
    return {"mode": mode, "quad": quad, "spacing": spacing, "eps": eps}


def check(ck):
    T = thorough()
    r = rng("c33")
    gen, exe = modem.build_fskgen(ck.dir), rx.build_dsp(ck.dir, asan=False)
    kinds = [(22, "tail"), (32, "tail"), (32, "head"), (48, "head"), (64, "head")]
    frames = rx.gen_frames(ck, [(r.randbytes(n - 2), c) for n, c in kinds for _ in range(8)])
    lives = [life(r, frames, i, 150 if T else 24) for i in range(24 if T else 8)]

    def one(ix):
        i, L = ix
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        eps, now = [], None
        fifo = os.path.join(ck.dir, "life-%d.fifo" % i)
        if os.path.exists(fifo):
            os.unlink(fifo)
        os.mkfifo(fifo)
        stop = threading.Timer(800, p.kill)
        stop.start()

        def ask(cmd):
            """one command; what was reported in the blocks it fed, and how many there were"""
            try:
                p.stdin.write(cmd + "\n")
                p.stdin.flush()
            except BrokenPipeError:
                pass
            got, n = [], 0
            while True:
                line = p.stdout.readline()
                if not line:
                    raise Violation("the receiver ends with status %s after %d episodes" % (p.wait(), len(eps)), {"life": repr(L)[:4000]})
                f = line.rstrip("\n").split(" ")
                if f[0] != "r":
                    return got, n
                n += 1
                if int(f[5]):
                    got.append(bytes.fromhex(f[10]))

        def air(bits, opt):
            t = threading.Thread(target=modem.modulate, args=(gen, fifo, bits, opt.pop("m")), kwargs=opt)
            t.start()
            ask("A 0 %d %s" % (L["quad"], fifo))
            res = ask("S 0 10000000")
            ask("E 0")
            t.join()
            return res
        try:
            ask("O %d 100 %d 48000 8" % (L["mode"], L["spacing"]))
            for x in L["eps"]:
                k = x["kind"]
                got, n, lo, hi, sent = [], 0, 0, 0, []
                if k == "limits":
                    lo, hi = x["lo"], x["hi"]
                    ask("F 0 %d %d" % (lo, hi))
                elif k == "watch":
                    ask("V 0 1")
                    got, n = ask("G 0 %d 7 %d %d" % (x["g"], x["n"], L["quad"]))
                    ask("V 0 0")
                elif k == "carrier":
                    got, n = air("0" * x["bits"], dict(x["opt"], m=89))
                elif k == "transmission":
                    lo, hi, sent = x["lo"], x["hi"], x["sent"]
                    got, n = air(modem.on_air(L["mode"], x["tx"], WARM), dict(x["opt"], m=L["mode"]))
                else:
                    got, n = ask("G 0 %d %d %d %d" % (x["g"], x["seed"], x["n"], L["quad"]))
                eps.append({"kind": k, "lo": lo, "hi": hi, "sent": [list(s) for s in sent], "got": [list(g) for g in got], "blocks": n,
                            "opt": {a: str(b) for a, b in x.get("opt", {}).items()}})
            p.stdin.close()
            if p.wait():
                raise Violation("the receiver ends with status %d when closed" % p.returncode, {"life": repr(L)[:4000]})
        finally:
            stop.cancel()
            p.kill()
            os.unlink(fifo)
        return {"mode": L["mode"], "quad": L["quad"], "spacing": L["spacing"], "episodes": eps}
    with ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(one, enumerate(lives)))
    n = sum(e["blocks"] for x in recs for e in x["episodes"])
    ck.count("blocks_demodulated", n)
    ck.count("hours_of_signal", round(n * BLOCK / 3600, 1))
    ck.count("packets_sent", sum(len(e["sent"]) for x in recs for e in x["episodes"]))

    def describe(x):
        return json.dumps({"mode": x["mode"], "spacing": x["spacing"], "episodes": [dict(kind=e["kind"], blocks=e["blocks"], sent=len(e["sent"]), reported=len(e["got"]), **e["opt"]) for e in x["episodes"]]})
    ck.sample(json.loads(describe(recs[0])))
    if os.environ.get("C33_DEBUG"):
        for i, rec in enumerate(recs):
            print(i, rec["mode"], rec["quad"], rec["spacing"], sum(e["blocks"] for e in rec["episodes"]), [(e["kind"], e["blocks"], len(e["sent"]), len(e["got"])) for e in rec["episodes"]])
            try:
                validate_records(ck, "AgeTrace", [rec], "one")
            except Violation as v:
                print("   BAD", [e for e in rec["episodes"] if len(e["sent"]) != len(e["got"])][0]["opt"])
        return
    lost = sum(len(e["sent"]) - len(e["got"]) for x in recs for e in x["episodes"] if e["kind"] == "transmission")
    ck.count("packets_lost_by_chance", lost)
    validate_records(ck, "AgeTrace", recs, "lives", what="a receiver that has been on for long does not deliver exactly what is sent to it", describe=describe)
    if lost > (6 if T else 2):
        raise Violation("receivers that have been on for long lose %d packets, too many to be chance" % lost, {"lives": [json.loads(describe(x)) for x in recs]})
    ck.assumptions.append("the transmitter is a textbook continuous phase FSK modulator (harness/c/fskgen.c), independent of the repository; clean transmissions (34 dB above the noise)")


main("C33", check)
