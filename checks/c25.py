#!/usr/bin/env python3
"""C25: receiver instances are independent."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import rx, modem


def check(ck):
    T = thorough()
    r = rng("c25")
    exe = rx.build_rxdrive(ck.dir)
    kinds = [(22, "tail"), (32, "tail"), (32, "head"), (48, "head"), (64, "head"), (128, "head")]
    jobs = [(r.randbytes(n - 2), c) for n, c in kinds for _ in range(10)]
    frames = rx.gen_frames(ck, jobs)
    # several receivers at once, any interleaving of their calls, each must meet its own contract
    total = []
    for g in range(12 if T else 4):
        group = []
        for m in [0, 0, 89, 90, 91, 89] if g % 2 else [91, 0, 90, 0, 0, 89, 91]:
            st = rx.Stream(m, note="one of %d concurrent receivers" % 6)
            for _ in range(3):
                if m == 0:
                    st.add(rx.noise(r, r.randrange(120))).add(rx.bits_of(r.choice(frames)[1]))
                else:
                    st.add("1" * r.randrange(60)).add(rx.rtty_bits(m, rx.sentence(rx.random_body(r, r.randint(14, 60)), r.randint(2, 4))))
                st.expect += 1
            group.append(st.finish())
        rx.run_streams(ck, exe, group, groups=1, interleave=True)
        total += group
    rx.validate_streams(ck, total, "interleaved")
    # the same with the real demodulator on real samples: alone and together
    dsp = rx.build_dsp(ck.dir)
    modem.isolation(ck, dsp, r, frames, T)


main("C25", check)
