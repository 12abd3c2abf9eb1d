#!/usr/bin/env python3
"""C02: frames and checksums are bit exact."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import codec, pyenv


def check(ck):
    T = thorough()
    r = rng("c02")
    codec.export_tables(ck)          # the layout is a bijection, encode/decode are inverse, in the spec
    exe = codec.build_codec(ck.dir)
    recs = []
    # C encoder, every size, basis payloads (one bit set) for the deployed sizes
    payloads = [bytes(n) for n in range(1, 129)]
    for n in range(1, 129):
        payloads += [r.randbytes(n) for _ in range(6 if T else 1)]
    for n in (22, 32):
        payloads += [(1 << b).to_bytes(n, "big") for b in range(8 * n)]
    for n in (48, 64, 96, 128):
        payloads += [(1 << b).to_bytes(n, "big") for b in (range(8 * n) if T else r.sample(range(8 * n), 40))]
    for p, o in zip(payloads, codec.drive(exe, ["E " + p.hex() for p in payloads])):
        f = o.split()
        recs.append({"op": "enc", "p": list(p), "announced": int(f[1]), "returned": int(f[2]), "f": list(bytes.fromhex(f[3]))})
    # CRC16 (C), lengths 0..255
    msgs = [r.randbytes(n) for n in list(range(0, 256)) + [r.randrange(256) for _ in range(200)]] + [b"123456789", bytes(20), b"\xff" * 20]
    for m, o in zip(msgs, codec.drive(exe, ["C " + m.hex() for m in msgs])):
        recs.append({"op": "crc", "p": list(m), "c": int(o.split()[1])})
    # Python encoder and CRC
    py = pyenv.build(ck.dir)
    job = {"encode": [p.hex() for p in ([r.randbytes(r.choice([16, 22, 32, 48, 64, 96, 128])) for _ in range(60)])],
           "crc": [m.hex() for m in msgs[::3]]}
    res = py.call("py_codec.py", job)
    for p, o in zip(job["encode"], res["encode"]):
        recs.append({"op": "enc", "p": list(bytes.fromhex(p)), "announced": o["n"], "returned": o["n"], "f": list(bytes.fromhex(o["frame"]))})
    for m, c in zip(job["crc"], res["crc"]):
        recs.append({"op": "crc", "p": list(bytes.fromhex(m)), "c": c})
    # the test bit generator: one bit per byte
    gen = codec.build_gen(ck.dir)
    for mode, n, head in ((0, 22, False), (1, 32, False), (2, 32, True), (3, 64, True), (4, None, True)):
        for count in (1, 5):
            o = run([gen, str(mode), str(count)], text=False)
            if o.returncode:
                raise Violation("horus_gen_test_bits %d %d ends with %d" % (mode, count, o.returncode), {"mode": mode})
            bits = o.stdout
            if any(b > 1 for b in bits):
                raise Violation("horus_gen_test_bits %d writes bytes other than 0 and 1" % mode, {"mode": mode})
            ns = [n] if n else [x for x in (32, 48, 64, 96, 128)]
            ns = [x for x in ns if len(bits) == count * 8 * codec.frame_bytes(x)]
            if not ns:
                raise Violation("horus_gen_test_bits %d %d writes %d bits: not whole frames" % (mode, count, len(bits)), {"mode": mode, "bits": len(bits)})
            n1 = ns[0]
            fb = codec.frame_bytes(n1)
            frames = []
            for k in range(count):
                chunk = bits[k * 8 * fb:(k + 1) * 8 * fb]
                frames.append(bytes(sum(chunk[8 * i + j] << (7 - j) for j in range(8)) for i in range(fb)))
            dec = codec.drive(exe, ["D %d %s" % (n1, f.hex()) for f in frames])
            for f, o2 in zip(frames, dec):
                recs.append({"op": "head" if head else "tail", "n": n1, "p": list(bytes.fromhex(o2[2:])), "f": list(f)})
            if len(set(frames)) != count:
                raise Violation("horus_gen_test_bits %d repeats a frame instead of counting" % mode, {"mode": mode})
    ck.sample(recs[140])
    validate_records(ck, "FrameTrace", recs, "encoder and checksum calls")


main("C02", check)
