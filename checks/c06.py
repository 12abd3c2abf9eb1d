#!/usr/bin/env python3
"""C06: the receiver never crashes, overruns memory or leaks on any input."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from concurrent.futures import ThreadPoolExecutor
import rx, codec, modem


def adversarial(r, mode, n):
    """Bits chosen to reach the corners of packet extraction: '*' and '$' everywhere, sentences cut at the limits."""
    if mode == 0:
        out = []
        while sum(map(len, out)) < n:
            k = r.randrange(6)
            out.append("0010010000100100" if k < 2 else rx.noise(r, r.randrange(1, 600)) if k < 4 else
                       "0010010000100100" * r.randrange(1, 40) if k == 4 else r.choice("01") * r.randrange(500))
        return "".join(out)
    a, s = rx.MODES[mode]
    out = []
    while sum(map(len, out)) < n:
        k = r.randrange(9)
        if k == 0:
            t = b"$" * r.randrange(1, 140)
        elif k == 1:
            t = b"$$" + rx.random_body(r, r.randrange(100, 125)) + b"*" + rx.random_body(r, r.randrange(0, 8))
        elif k == 2:
            t = b"$" * r.randrange(2, 12) + b"*" * r.randrange(1, 6)
        elif k == 3:
            t = b"$$" + b"*" * r.randrange(1, 130)
        elif k == 4:
            t = rx.sentence(rx.random_body(r, r.randrange(0, 125)), r.randrange(1, 9), eol=b"")
        elif k == 5:
            t = bytes(r.randrange(128) for _ in range(r.randrange(200)))
        elif k == 6:
            t = b"$$" + bytes(r.randrange(128) for _ in range(r.randrange(110, 120))) + b"*"
        elif k == 7:
            t = b"$$$$$$$$" + b"\0" * r.randrange(120) + b"*" + b"\0" * 4
        else:
            t = b""
        out.append(rx.rtty_chars_bits(t, a, s) + (rx.noise(r, r.randrange(40)) if r.random() < .3 else ""))
    return "".join(out)


def check(ck):
    T = thorough()
    r = rng("c06")
    exe = rx.build_rxdrive(ck.dir)
    # 1. scripted bits under the address/undefined behaviour/leak sanitizers, all modes and output buffer policies;
    #    the calls are recorded and must also satisfy the receiver contract (RxTrace)
    keep = []
    for pol in "ZPK":
        streams = []
        for mode in (0, 89, 90, 91):
            for _ in range(8 if T else 2):
                st = rx.Stream(mode, note="adversarial bits, output buffer %s" % pol)
                st.fresh, st.lossy = pol == "Z", True
                st.add(adversarial(r, mode, 6000 if mode else 3000)).finish()
                streams.append(st)
        rx.run_streams(ck, exe, streams, policy=pol)
        keep += streams
    rx.validate_streams(ck, keep, "adversarial")
    # 2. much more of it, sanitizers and leak check only; open/close cycles
    def soak(i):
        r = rng("soak%d" % i)
        sc = rx.RxScript(exe)
        n = 0
        for h in range(24):
            mode = r.choice([0, 89, 90, 91])
            sc.open(mode)
            for b in rx.blocks(adversarial(r, mode, 40000 if T else 12000), rx.PARAMS[mode]["block"]):
                sc.rx(h, b, r.choice("ZPK"), r.choice([0, 0, 0, 1]))
                n += 1
            sc.close(h)
        try:
            sc.run(leaks=True)
        except rx.RxDied as e:
            raise Violation("the receiver does not survive these bits: %s" % e, {"commands": sc.cmds[:2000]})
        return n
    with ThreadPoolExecutor(8) as ex:
        ck.count("sanitized_calls_on_bits", sum(ex.map(soak, range(8))))
    # 3. the codec alone on exactly sized buffers: every packet size, random received frames (reads and writes past the end)
    cexe = codec.build_codec(ck.dir)
    ops = []
    for n in list(range(1, 131)) + [160, 200, 255]:
        for _ in range(4 if T else 1):
            ops.append("E " + r.randbytes(n).hex())
            ops.append("D %d %s" % (n, r.randbytes(codec.frame_bytes(n)).hex()))
    codec.drive(cexe, ops)
    ck.count("sanitized_codec_operations", len(ops))
    # 4. real samples of every kind through the real demodulator, over a grid of configurations
    dsp = rx.build_dsp(ck.dir)
    cfgs = [(m, 0, 0, 0, 0) for m in (0, 89, 90, 91)]
    for m in (0, 89, 90, 91):
        for rs, sp in ((-1, -1), (100, 270), (50, -1), (50, 450), (300, 300), (25, 100), (200, -1), (600, 600)):
            cfgs.append((m, rs, sp, 48000, 8))
        for fs, P in ((8000, 8), (8000, 10), (8000, 16), (96000, 8), (96000, 12), (24000, 6), (48000, 5), (48000, 32)):
            cfgs.append((m, 100, r.choice([-1, 270]), fs, P))
    jobs = []
    for c in cfgs:
        jobs.append((c, r.sample(range(9), 9), r.randrange(1, 1000)))
    recs = []

    def grid(j):
        (m, rs, sp, fs, P), kinds, sd = j
        cmds, h = [], 0
        for quad in (0, 1):
            cmds.append("O %d %d %d %d %d" % (m, rs, sp, fs, P))
            f = fs or 48000
            if quad:
                cmds.append("F %d %d %d" % (h, -f // 2 + 1, f // 2 - 1))
            elif sd % 3 == 0:
                cmds.append("F %d 500 %d" % (h, min(f // 2 - 1, 3500)))
            for kd in kinds:
                cmds.append("G %d %d %d %d %d" % (h, kd, sd + kd, 12 if T else 2, quad))
            h += 1
        cmds += ["C %d" % i for i in range(h)]
        try:
            o, c = rx.dsp_run(dsp, cmds, leaks=True)
        except rx.RxDied as e:
            raise Violation("the receiver does not survive these samples (mode %d, Rs %d, spacing %d, Fs %d, P %d): %s" % (m, rs, sp, fs, P, e),
                            {"commands": cmds})
        return [{"cfg": [m, rs, sp, fs, P], "nin": o[i]["nin"], "maxin": o[i]["maxin"], "maxascii": o[i]["maxascii"],
                 "calls": [{k: x[k] for k in ("used", "next", "ret", "crc", "len")} for x in c[i]]} for i in o]
    with ThreadPoolExecutor(8) as ex:
        for x in ex.map(grid, jobs):
            recs += x
    ck.count("sanitized_calls_on_samples", sum(len(x["calls"]) for x in recs))
    # 5. a transmission whose clock drifts, so that every adjustment of the block length occurs
    gen = modem.build_fskgen(ck.dir)
    def drift(i):
        m = (0, 89)[i % 2]
        ppm = (-8000, -3000, 3000, 8000, -20000, 20000)[i // 2]
        fn = os.path.join(ck.dir, "drift%d.raw" % i)
        modem.modulate(gen, fn, rx.noise(rng("drift%d" % i), 3000), m, ppm=ppm, f0=900, lead=i * 37)
        try:
            o, c = rx.dsp_run(dsp, ["O %d 100 -1 48000 8" % m, "A 0 0 " + fn, "S 0 10000", "C 0"])
        except rx.RxDied as e:
            raise Violation("the receiver does not survive a transmission with a clock offset of %d ppm: %s" % (ppm, e), {"ppm": ppm})
        finally:
            os.unlink(fn)
        return {"cfg": [m, ppm], "nin": o[0]["nin"], "maxin": o[0]["maxin"], "maxascii": o[0]["maxascii"],
                "calls": [{k: x[k] for k in ("used", "next", "ret", "crc", "len")} for x in c[0]]}
    with ThreadPoolExecutor(8) as ex:
        recs += list(ex.map(drift, range(12)))
    ck.count("block_length_adjustments", sum(1 for x in recs for c in x["calls"] if c["next"] != x["nin"]))
    validate_records(ck, "RxBounds", recs, "bounds", what="the calling contract is broken",
                     describe=lambda x: json.dumps(x)[:400])
    ck.sample(recs[0])
    ck.sample(keep[0].bits[:400])
    ck.assumptions.append("memory errors are those gcc's address, leak and undefined behaviour sanitizers observe")


main("C06", check)
