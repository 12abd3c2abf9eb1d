#!/usr/bin/env python3
"""C01: the Golay layer repairs every pattern of up to three bit errors per code word."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import codec


def check(ck):
    T = thorough()
    # 1. the design: every error of weight <= 3 is recovered
    ck.spec(must_hold(tlc("Channel", cfg="ChannelFull" if T else "Channel", timeout=3000), "Channel"), "channel")
    code, layout = codec.export_tables(ck, all_sizes=True)
    exe = codec.build_codec(ck.dir)
    fast = codec.build_codec(os.path.join(ck.dir), asan=False) if False else exe
    # 2. every data word encoded, every received word decoded by the real code
    out = codec.drive(exe, ["G " + codec.code_file(ck, code)])[0].split()
    ck.count("words_compared_with_spec", int(out[1]))
    if int(out[2]):
        raise Violation("%s of %s words are not coded as specified, first %s" % (out[2], out[1], out[3]), {"word": int(out[3])})
    # 3. whole frames, correctable errors in every code word
    r = rng("c01")
    sizes = [22, 32, 48, 64, 96, 128] + [16] + (list(range(1, 129)) if T else r.sample(range(1, 129), 24))
    payloads, lines = [], []
    for n in sizes:
        for k in range(20 if T else 6):
            p = bytes(n) if k == 0 else b"\xff" * n if k == 1 else r.randbytes(n)
            payloads.append(p)
            lines.append("E " + p.hex())
    frames = []
    for p, o in zip(payloads, codec.drive(exe, lines)):
        f = o.split()
        frames.append(bytes.fromhex(f[3]))
        if int(f[1]) != layout[len(p)]["bytes"]:
            raise Violation("frame for %d bytes is %s bytes long, not %d" % (len(p), f[1], layout[len(p)]["bytes"]), {"payload": p.hex()})
    lines, meta = [], []
    for p, f in zip(payloads, frames):
        lay = layout[len(p)]
        for k in range(60 if T else 14):
            errs = [] if k == 0 else codec.correctable(r, lay, full=(k % 3 == 1))
            g = codec.flip(f, errs)
            if k % 4 == 3:                     # the unique word itself may be damaged too
                g = bytes([g[0] ^ r.randrange(256), g[1]]) + g[2:]
            meta.append((p, errs, g))
            lines.append("D %d %s" % (len(p), g.hex()))
    recs = []
    for (p, errs, g), o in zip(meta, codec.drive(exe, lines)):
        got = o[2:]
        ck.count("frames_decoded")
        if got != p.hex():
            raise Violation("a %d byte frame with %d correctable bit errors (at most 3 per codeword) decodes to %s, not %s" % (
                len(p), len(errs), got, p.hex()), {"n": len(p), "frame": g.hex(), "payload": p.hex(), "decoded": got})
    # 4. arbitrary damage: decoding is still exactly nearest-codeword decoding of each word
    lines, meta = [], []
    for p, f in zip(payloads, frames):
        g = bytes(b ^ (r.randrange(256) if r.random() < 0.3 else 0) for b in f)
        meta.append((p, g))
        lines.append("D %d %s" % (len(p), g.hex()))
    for (p, g), o in zip(meta, codec.drive(exe, lines)):
        recs.append({"op": "dec", "n": len(p), "f": list(g), "p": list(bytes.fromhex(o[2:]))})
    ck.sample({"payload": payloads[2].hex(), "damaged_frame": meta[2][1].hex(), "decoded": bytes(recs[2]["p"]).hex()})
    validate_records(ck, "FrameTrace", recs, "decoded damaged frames")


main("C01", check)
