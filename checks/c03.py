#!/usr/bin/env python3
"""C03: every valid binary packet is delivered exactly once, in order."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import codec, rx

KINDS = [(22, "tail"), (32, "tail"), (32, "head"), (48, "head"), (64, "head"), (96, "head"), (128, "head")]



def check(ck):
    T = thorough()
    r = rng("c03")
    ck.spec(must_hold(tlc("RxDesign", cfg="RxDesignBig" if T else "RxDesign", timeout=3000), "RxDesign"), "receiver design")
    _, layout = codec.export_tables(ck)
    exe = rx.build_rxdrive(ck.dir)
    # packets, made by the specification
    jobs = []
    for n, c in KINDS:
        jobs += [(r.randbytes(n - 2), c) for _ in range(24 if T else 8)]
        jobs += [(bytes(n - 2), c), (b"\xff" * (n - 2), c), (b"$" * (n - 2), c)]
    pool = {}
    for (p, c), pf in zip(jobs, rx.gen_frames(ck, jobs)):
        pool.setdefault((len(p) + 2, c), []).append(pf)

    def damaged(frame, n, how):
        lay = layout[n]
        f = frame
        if how >= 1:
            f = codec.flip(f, codec.correctable(r, lay, full=(how >= 2)))
        b = list(rx.bits_of(f))
        if how == 3:                                  # one wrong bit in the unique word as well
            i = r.randrange(16)
            b[i] = "1" if b[i] == "0" else "0"
        return "".join(b)

    streams = []

    def stream(kinds, lead, gaps, how, note):
        st = rx.Stream(0, expect=len(kinds), note=note)
        st.add(lead)
        for kd, g in zip(kinds, gaps):
            p, f = r.choice(pool[kd])
            st.add(damaged(f, kd[0], how if how < 4 else r.randrange(4)))
            st.add(g)
        streams.append(st.finish())

    # every size at every alignment to the demodulator block (both blocks of the 4FSK symbol pair)
    step = 1 if T else 7
    for kd in KINDS:
        for off in range(0, 100, step):
            o = (off + KINDS.index(kd)) % 100
            stream([kd], "0" * o, [""], r.randrange(4), "%s at bit offset %d" % (kd, o))
    # sequences of mixed sizes, back to back and with gaps, noise and preambles between them
    for i in range(400 if T else 60):
        m = r.randint(2, 5)
        kinds = [r.choice(KINDS) for _ in range(m)]
        style = i % 4
        gaps = [["", rx.noise(r, r.randrange(1, 300)), "00011011" * r.randint(1, 8), "0" * r.randrange(1, 120)][style] for _ in range(m)]
        lead = ["", rx.noise(r, r.randrange(400)), "00011011" * 8, "1" * r.randrange(100)][(i // 4) % 4]
        stream(kinds, lead, gaps, i % 5, "sequence %s style %d" % (kinds, style))
    # long frame right after a burst of stray unique words; the same packet sent repeatedly
    for i in range(62 if T else 16):
        kd = r.choice(KINDS)
        for _ in range(200):
            k = 30 - i if i < 30 else r.randint(1, 30)
            st = rx.Stream(0, expect=1, note="%d unique word patterns before the packet" % k)
            st.add(rx.stray_uws(r, k))
            p, f = r.choice(pool[kd])
            st.add(damaged(f, kd[0], i % 3))
            if rx.near_uws(st.bits + "0" * 40) <= 31 and len(st.bits) < 3600:
                streams.append(st.finish())
                break
    for i in range(20 if T else 6):
        kd = r.choice(KINDS)
        stray = "".join(("00100100" * 2 + rx.noise(r, r.randrange(3, 40))) for _ in range(r.randint(1, 9)))
        stream([kd], stray, [""], 1, "after %d stray unique words" % stray.count("00100100"))
        pf = r.choice(pool[kd])
        st = rx.Stream(0, expect=3, note="identical packet three times")
        for _ in range(3):
            st.add(rx.bits_of(pf[1])).add("0" * r.randrange(60))
        streams.append(st.finish())
    rx.run_streams(ck, exe, streams)
    ck.sample({"note": streams[-1].note, "bits": streams[-1].bits[:400] + "...", "delivered": [c["text"].decode() for c in streams[-1].calls if c["ret"]]})
    rx.validate_streams(ck, streams, "binary")


main("C03", check)
