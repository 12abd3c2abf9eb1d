#!/usr/bin/env python3
"""C23: bytes map to bits and 4FSK symbols most significant first, without loss, and the modulator sends them."""
import math, os, struct, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import pyenv

PAR = [(4, 48000, 100, 1000, 270), (4, 8000, 100, 1000, 270), (4, 48000, 50, 1200, 185), (2, 48000, 100, 1000, 450), (2, 9600, 300, 1100, 600), (4, 9600, 300, 1200, 300), (2, 44100, 100, 2000, 425),
       (4, 96000, 25, 900, 100), (4, 48000, 1200, 1200, 1200), (2, 48000, 4800, 4800, 4800)]


def drift(f):
    """by how much a single precision oscillator of this frequency (of the sample rate) grows or shrinks per sample"""
    single = lambda x: struct.unpack("f", struct.pack("f", x))[0]
    w = single(2 * math.pi * f)
    return math.hypot(single(math.cos(w)), single(math.sin(w))) - 1


def check(ck):
    T = thorough()
    r = rng("c23")
    env = pyenv.build(ck.dir)
    jobs = []
    datas = [[]] + [[b] for b in range(256)] + [[r.randrange(256) for _ in range(n)] for n in list(range(2, 80)) + [128, 200, 255] * (4 if T else 1)] + [[255] * 30, [0] * 30, [1, 128, 1, 128]]
    # data that looks like what surrounds it: preambles, unique words, what was sent before
    datas += [[27] * n + t for n in (1, 2, 7, 8, 9, 16, 41) for t in ([], [0], [36, 36] + [r.randrange(256) for _ in range(20)])]
    datas += [[36, 36] * n + [27] * m for n in (1, 2) for m in (0, 1, 8)] + [[r.choice([27, 36, 0, 255]) for _ in range(n)] for n in range(1, 40)] + [datas[100], datas[100], datas[-1], datas[-1]]
    for d in datas:
        for k in ("sym", "bit"):
            jobs.append({"k": k, "data": d, "pre": r.choice([0, 1, 2, 8, 8, 16, 40]), "deflt": r.random() < .5})
    recs = env.call("py_encoder.py", {"recs": jobs})
    ck.count("expansions", len(recs))

    exe = cc(os.path.join(ck.dir, "modtx"), [os.path.join(VERIF, "harness/c/modtx.c")], ["-O2"], cdefs=["-DHORUS_L2_RX", "-DINTERLEAVER", "-DSCRAMBLER", "-DRUN_TIME_TABLES"])
    tool = cc(os.path.join(ck.dir, "fsk_mod"), [os.path.join(REPO, "src/fsk_mod.c")], ["-O2"])
    par = list(PAR)
    for _ in range(30 if T else 6):
        M, rs = r.choice([2, 4]), r.choice([25, 50, 100, 200, 300])
        fs = rs * r.choice([40, 80, 160, 480])
        f1 = r.randrange(2 * rs, fs // 4)
        par.append((M, fs, rs, f1, r.randrange(rs // 2 + 1, max(rs // 2 + 2, (fs // 2 - f1) // M))))
    cmds, meta = [], []
    for M, fs, rs, f1, sh in par:
        per = 1 if M == 2 else 2
        for fn in "rcv":
            for nsym in (50, r.choice([1, 7, 24])):
                bits = [r.randrange(2) for _ in range(nsym * per * r.randrange(1, 6) + r.randrange(per * nsym))]
                cmds.append("L %s %d %d %d %d %d %d %s" % (fn, M, fs, rs, f1, sh, nsym, "".join(map(str, bits))))
                meta.append({"k": "lib", "fn": fn, "per": per, "block": per * nsym, "bits": bits, "par": [M, fs, rs, f1, sh]})
    # a transmitter left on: half an hour and more of other symbols first, those among them whose level would change most
    for M, fs, rs, f1, sh in par:
        per, worst = (1 if M == 2 else 2), max(range(M), key=lambda m: abs(drift((f1 + m * sh) / fs)))
        for fn in "rc":
            for sym in (worst, -1):
                bits = [r.randrange(2) for _ in range(50 * per * 2)]
                warm = int((7200 if T else 1800) * rs / 50 * min(1, 48000 / fs)) if sym >= 0 else rs
                cmds.append("G %s %d %d %d %d %d 50 %d %d %s" % (fn, M, fs, rs, f1, sh, sym, warm, "".join(map(str, bits))))
                meta.append({"k": "lib", "fn": fn, "per": per, "block": 50 * per, "bits": bits, "par": [M, fs, rs, f1, sh], "blocks_before": warm})
    tools = []
    for i, (M, fs, rs, f1, sh) in enumerate(par):
        per = 1 if M == 2 else 2
        for n in [0, 1, per, 50 * per - 1, 50 * per, 50 * per + 1, 584, r.randrange(1, 1200)] if T or i < 2 else [584, r.randrange(1, 800)]:
            bits = [r.randrange(2) for _ in range(n)]
            fi, fo = os.path.join(ck.dir, "t%d.bits" % len(tools)), os.path.join(ck.dir, "t%d.raw" % len(tools))
            with open(fi, "wb") as f:
                f.write(bytes(bits))
            how = r.choice(["file", "pipe"])
            tools.append((fi, fo, (M, fs, rs, f1, sh), how))
            cmds.append("Q %d %d %d %d %d %s" % (M, fs, rs, f1, sh, fo))
            meta.append({"k": "tool", "how": how, "per": per, "bits": bits, "par": [M, fs, rs, f1, sh]})

    def mod(t):
        fi, fo, p, how = t
        if how == "file":
            c = run([tool] + [str(x) for x in p] + [fi, fo])
        else:
            with open(fi) as a, open(fo, "wb") as b:
                c = run([tool] + [str(x) for x in p] + ["-", "-"], stdin=a, stdout=b)
        return c.returncode
    with ThreadPoolExecutor(8) as ex:
        rcs = list(ex.map(mod, tools))
    if any(rcs):
        raise Violation("fsk_mod ends with an error", {"case": tools[[bool(x) for x in rcs].index(True)]})
    def measure(k):
        mine = cmds[k::8]
        o = run([exe], input="\n".join(mine) + "\n")
        got = o.stdout.splitlines()
        if o.returncode or len(got) != len(mine):
            raise Violation("the modulator does not survive valid parameters: %s" % o.stderr[-300:], {"rc": o.returncode, "after": len(got), "cmd": mine[min(len(got), len(mine) - 1)][:200]})
        return got
    lines = [None] * len(cmds)
    with ThreadPoolExecutor(8) as ex:
        for k, got in enumerate(ex.map(measure, range(8))):
            lines[k::8] = got
    for m, ln in zip(meta, lines):
        w = ln.split()
        m["left"] = int(w[1])
        tp = [x.split(",") for x in w[2:]]
        for i, k in enumerate(("tones", "pure", "level", "jump")):
            m[k] = [int(x[i]) for x in tp]
        recs.append(m)
    ck.count("modulations", len(meta))
    ck.count("symbols_measured", sum(len(m["tones"]) for m in meta))
    validate_records(ck, "SymbolTrace", recs, "symbols", what="bytes, bits, symbols or tones are not the data most significant bit first", describe=lambda x: json.dumps(x)[:1500])
    ck.sample(PAR[0])


main("C23", check)
