#!/usr/bin/env python3
"""C05: every valid RTTY sentence is delivered exactly once."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import rx


def check(ck):
    T = thorough()
    r = rng("c05")
    ck.spec(must_hold(tlc("RttyDesign", cfg="RttyDesignBig" if T else "RttyDesign", timeout=3000), "RttyDesign"), "RTTY receiver design")
    exe = rx.build_rxdrive(ck.dir)
    streams = {"Z": [], "P": [], "K": []}
    pols = ["Z", "P", "K"]
    count = [0]

    def stream(mode, parts, note):
        """parts: [(bits before, sentence bytes)]"""
        st = rx.Stream(mode, expect=len(parts), note=note)
        for lead, s in parts:
            st.add(lead)
            st.add(rx.rtty_bits(mode, s))
        st.add("1" * 3)
        pol = pols[count[0] % 3]
        count[0] += 1
        st.note += " buffer policy " + pol
        st.fresh = pol != "K"
        streams[pol].append(st.finish())

    for mode in rx.MODES:
        cl = rx.PARAMS[mode]["cl"]
        # every alignment to the block
        for off in range(0, 50, 1 if T else 3):
            o = (off + mode) % 50
            body = rx.random_body(r, r.randint(12, 100))
            stream(mode, [("1" * o, rx.sentence(body, r.randint(2, 9)))], "offset %d" % o)
        # every number of leading $, short and long idle before
        for d in range(2, 31):
            o = r.randrange(50) if d < 2 else r.randrange(120)
            stream(mode, [("1" * o, rx.sentence(rx.random_body(r, r.randint(12, 80)), d, lower=d % 2 == 1))], "%d dollars" % d)
        # every 8..12 dollars at every alignment, where the receiver has to step over excess ones
        for d in (2, 7, 8, 9):
            for o in range(0, 50, 1 if T else 4):
                stream(mode, [("1" * (o + d % 4), rx.sentence(rx.random_body(r, 40), d))], "%d dollars offset %d" % (d, o))
        # every body length around the limits: 2 + len + 5 <= 120
        for n in list(range(12, 20)) + list(range(100, 114)):
            stream(mode, [("1" * r.randrange(60), rx.sentence(rx.random_body(r, n), r.choice([2, 2, 3, 5]), eol=r.choice([b"", b"\n", b"\r\n"])))],
                   "body of %d characters" % n)
        # several sentences in a row
        for i in range(60 if T else 14):
            parts = []
            for _ in range(r.randint(2, 5)):
                lead = r.choice(["", "1" * r.randrange(200), rx.noise(r, r.randrange(200)) + "1" * (cl + 1)])
                parts.append((lead, rx.sentence(rx.random_body(r, r.randint(14, 70)), r.randint(2, 6), r.random() < .5, r.choice([b"\n", b"\r\n"]))))
            stream(mode, parts, "%d sentences" % len(parts))
        # '$' and checksum-like text inside the body
        for body in (b"CALL$IGN,1,12:00:00,$5.00,xx", b"CALLSIGN,1,##,@@,!\"%&'()+/;<=>?[]^_`{|}~", b"A,$$B,1234567890,ABCDEF", b"CALL,1,2,3,4,5,6,7,8,9$$"):
            stream(mode, [("1" * r.randrange(60), rx.sentence(body))], "body %r" % body)
        # any character the mode can carry: 8 bit characters where there are 8 bits, control characters elsewhere
        for i in range(24 if T else 8):
            top = 256 if rx.PARAMS[mode]["ab"] == 8 else 128
            body = rx.random_body(r, 8) + bytes(r.choice([c for c in range(1, top) if c not in b"$*\r\n"]) for _ in range(r.randint(6, 60)))
            stream(mode, [("1" * r.randrange(60), rx.sentence(body, r.randint(2, 5)))], "any characters")
        # upper/lower/mixed hex digits
        for i in range(12):
            body = rx.random_body(r, 20)
            s = rx.sentence(body, 2)
            c = "".join(x.lower() if r.random() < .5 else x for x in s[-5:-1].decode())
            stream(mode, [("1" * 5, s[:-5] + c.encode() + b"\n")], "mixed case checksum")
        # the same sentence sent repeatedly is delivered as often as it is sent
        s = rx.sentence(rx.random_body(r, 40), 3)
        stream(mode, [("1" * 7, s)] * 4, "identical sentence four times")
    for pol, part in streams.items():
        rx.run_streams(ck, exe, part, policy=pol)
    allst = [s for p in pols for s in streams[p]]
    s0 = allst[5]
    ck.sample({"note": s0.note, "mode": s0.mode, "delivered": [c["text"].decode("latin1") for c in s0.calls if c["ret"]]})
    rx.validate_streams(ck, allst, "rtty")


main("C05", check)
