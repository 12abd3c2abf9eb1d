#!/usr/bin/env python3
"""C24: clean transmissions are received end to end."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import rx, modem


def check(ck):
    T = thorough()
    r = rng("c24")
    gen, exe = modem.build_fskgen(ck.dir), rx.build_dsp(ck.dir, asan=False)
    kinds = [(22, "tail"), (32, "tail"), (32, "head"), (48, "head"), (64, "head"), (96, "head"), (128, "head")]
    frames = rx.gen_frames(ck, [(r.randbytes(n - 2), c) for n, c in kinds for _ in range(6)])
    cases = []

    def case(mode, spacing=-1, P=8, limits=None, n=None, **opt):
        if mode == 0:
            fs = r.sample(frames, n or 3)
            sent, packets = [p for p, f in fs], [f for p, f in fs]
        else:
            packets = [rx.sentence(rx.random_body(r, r.randint(12, 100)), r.randint(2, 6), r.random() < .3, r.choice([b"\n", b"\r\n", b""])) for _ in range(n or 2)]
            sent = packets
        opt.setdefault("seed", r.randrange(1, 10**6))
        opt.setdefault("phase", r.random() * 6)
        cases.append({"mode": mode, "packets": packets, "sent": sent, "opt": opt, "spacing": spacing, "P": P, "limits": limits})
    modes = (0, 89, 90, 91)
    # every tone placement the estimator's range allows, with one other thing varied
    for f0 in range(500, 3000, 100 if T else 350):
        for m in modes:
            case(m, f0=f0, shift=270, lead=r.randrange(2400))
    for shift in (210, 240, 300, 400, 500, 700):
        for m in modes:
            case(m, f0=r.randrange(600, 1000), shift=shift, lead=r.randrange(2400))
    # mask estimator: the tone spacing is announced
    for shift in (270, 300, 450, 600):
        for m in modes:
            case(m, spacing=shift, f0=r.randrange(600, 1300), shift=shift, lead=r.randrange(480))
    for amp in (40, 100, 1000, 20000, 32000):
        for m in modes:
            case(m, f0=1000, shift=300, amp=amp, lead=r.randrange(2400))
    for ppm in (50, -50, 500, -500, 1000, -1000, 2000):
        for m in modes:
            case(m, f0=1100, shift=270, ppm=ppm, lead=r.randrange(480))
    for lead in (0, 1, 239, 240, 479, 480, 481, 12000, 24000, 24001):
        case(r.choice(modes), f0=900, shift=270, lead=lead)
    for noise in (100, 500, 1000):
        for m in modes:
            case(m, f0=1000, shift=270, amp=8000, noise=noise, lead=r.randrange(2400))
    # rates, sample rates, oversampling, quadrature input
    for rs, sh in ((25, 170), (50, 170), (200, 500), (300, 700)):
        for m in modes:
            case(m, f0=800, shift=sh, rs=rs, n=1, lead=r.randrange(480))
    for fs, P in ((8000, 8), (8000, 10), (96000, 10), (48000, 10), (48000, 16)):
        case(0, f0=800, shift=270, fs=fs, P=P, n=2)
        case(90, f0=800, shift=400, fs=fs, P=P, n=1)
    for f0 in (-3000, -1500, 500, 1500):
        case(0, f0=f0, shift=300, quad=1, limits=(-6000, 6000) if f0 < 0 else None)
        case(89, f0=f0, shift=400, quad=1, limits=(-6000, 6000) if f0 < 0 else None)
    if T:
        for _ in range(400):
            m = r.choice(modes)
            case(m, f0=r.randrange(500, 2500), shift=r.randrange(210, 500), amp=r.choice([200, 2000, 20000]), lead=r.randrange(24000),
                 ppm=r.randrange(-1000, 1000), noise=r.choice([0, 10]))
    if os.environ.get("C24_DEBUG"):
        for c in cases:
            try:
                modem.link(ck, exe, gen, [c], "one")
            except Violation as v:
                print(str(v), c["spacing"], c["P"])
        return
    modem.link(ck, exe, gen, cases, "link")
    ck.assumptions.append("the transmitter is a textbook continuous phase FSK modulator (harness/c/fskgen.c), independent of the repository")


main("C24", check)
