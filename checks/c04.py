#!/usr/bin/env python3
"""C04: nothing is reported as valid unless its checksum validates."""
import binascii, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import codec, rx


def check(ck):
    T = thorough()
    r = rng("c04")
    _, layout = codec.export_tables(ck)
    exe = rx.build_rxdrive(ck.dir)
    # frames whose checksum is wrong, in the wrong place, or whose size is not a known one: made by the specification
    jobs, notes = [], []
    for n in (22, 32, 48, 64, 96, 128):
        for c in ("tail", "head"):
            jobs += [(r.randbytes(n - 2), c) for _ in range(4)]
    for n in (16, 24, 28, 40, 56, 72, 80, 104, 112, 120):
        jobs += [(r.randbytes(n - 2), "tail"), (r.randbytes(n - 2), "head")]
    good = rx.gen_frames(ck, jobs)
    spoiled = []
    for (p, f), (q, c) in list(zip(good, jobs)):
        n = len(p)
        for _ in range(3 if T else 2):
            b = bytearray(p)
            b[r.randrange(n)] ^= 1 << r.randrange(8)              # one payload or checksum bit differs
            spoiled.append((bytes(b), "none"))
        b = bytearray(p)
        lo = n - 2 if c == "tail" else 0
        b[lo], b[lo + 1] = b[lo + 1], b[lo]                       # checksum bytes swapped
        spoiled.append((bytes(b), "none"))
        spoiled.append((p[:lo] + bytes([0, 0]) + p[lo + 2:], "none"))
        spoiled.append((p[:lo] + bytes([255, 255]) + p[lo + 2:], "none"))
    for n in (22, 32, 48, 64, 96, 128):
        spoiled += [(bytes(n), "none"), (b"\xff" * n, "none")]
    bad = rx.gen_frames(ck, spoiled, "spoiled")

    streams = []
    pool = [(p, f, "checked as %s" % c) for (p, f), (q, c) in zip(good, jobs)] + [(p, f, "spoiled") for p, f in bad]
    okay = [(p, f) for (p, f), (q, c) in zip(good, jobs) if len(p) in (22, 32) and c == "tail" or len(p) in (48, 64, 96, 128) and c == "head"]
    i = 0
    for p, f, note in pool:
        st = rx.Stream(0, note="%d bytes, %s" % (len(p), note))
        if i % 3 == 0:                                            # a good packet first: flags and buffers are warm
            st.add(rx.bits_of(r.choice(okay)[1]))
        st.add("0" * r.randrange(100)).add(rx.bits_of(f))
        if i % 3 == 1:
            st.add("01" * r.randrange(30)).add(rx.bits_of(r.choice(okay)[1]))
        streams.append(st.finish())
        i += 1
    # damage beyond repair, truncation, one frame cut off by the next
    for p, f in okay:
        lay = layout[len(p)]
        errs = []
        ws = {}
        for a, w in enumerate(lay["owner"]):
            ws.setdefault(w, []).append(a)
        for w in r.sample(sorted(x for x in ws if x >= 0), r.randint(1, 3)):
            errs += r.sample(ws[w], min(len(ws[w]), r.randint(4, 8)))
        st = rx.Stream(0, note="uncorrectable errors").add("1" * r.randrange(50)).add(rx.bits_of(codec.flip(f, errs)))
        streams.append(st.finish())
        cut = r.randrange(20, 8 * len(f))
        st = rx.Stream(0, note="cut off after %d bits" % cut).add(rx.bits_of(f)[:cut]).add(rx.bits_of(r.choice(okay)[1]))
        streams.append(st.finish())
    for k in range(30 if T else 8):
        st = rx.Stream(0, note="noise")
        for _ in range(4):
            st.add(rx.noise(r, 900)).add("00100100" * 2 + rx.noise(r, 350))
        streams.append(st.finish())
    byp = {"Z": streams}

    # RTTY
    rt = {"Z": [], "P": [], "K": []}
    cnt = 0
    for mode in rx.MODES:
        cl = rx.PARAMS[mode]["cl"]
        texts = []
        for _ in range(6 if T else 2):
            body = rx.random_body(r, r.randint(12, 90))
            g = rx.sentence(body, 2)
            crc = g[-5:-1]
            texts += [(g[:-5] + bytes([crc[0] ^ 1]) + crc[1:] + b"\n", "wrong checksum")]
            for pos in range(4):                               # a non-hex character that aliases to the digit in naive conversions
                for alt in (b"G", b"g", b"Z", b" ", b"*", b"/", b":", b"@", b"`", b"$", bytes([1])):
                    texts.append((g[:-5] + crc[:pos] + alt + crc[pos + 1:] + b"\n", "non-hex %r in digit %d" % (alt, pos)))
            # every 32-aligned or 16-aligned alias of each digit
            for pos in range(4):
                d = int(chr(crc[pos]), 16)
                for c in range(128):
                    if chr(c) not in "0123456789abcdefABCDEF" and ((c - 48) % 16 == d or (c - 55) % 16 == d or (c - 87) % 16 == d):
                        if T or r.random() < .35:
                            texts.append((g[:-5] + crc[:pos] + bytes([c]) + crc[pos + 1:] + b"\n", "alias %d of digit %d" % (c, pos)))
            for _ in range(6):
                b = bytearray(g)
                b[r.randrange(2, len(b) - 6)] ^= 1 << r.randrange(7)
                texts.append((bytes(b), "one bit wrong in the body"))
            texts += [(g[:-3] + b"\n", "two checksum digits"), (g[:-5] + b"\n", "no checksum"), (g[:r.randrange(5, len(g) - 5)], "truncated"),
                      (b"$$" + body + crc + b"\n", "no star"), (b"$$" + body + b"**" + crc + b"\n", "double star"),
                      (b"$$*FFFF\n", "empty body"), (b"$$*" + crc + b"\n", "empty body, other checksum"),
                      (b"$$$$$$$$$$$$*" + b"%04X" % rx.crc16(b"") + b"\n", "only dollars"),
                      (b"$$" + body + b"*" + b"%04X" % rx.crc16(b"$$" + body) + b"\n", "checksum including the dollars"),
                      (b"$$" + body + b"*" + b"%04X" % rx.crc16(body + b"*") + b"\n", "checksum including the star"),
                      (b"$$" + body + b"*" + b"%04X" % rx.crc16(body[1:]) + b"\n", "checksum of the rest"),
                      (b"$$" + body + b"*0000\n", "zero checksum")]
        # checksums whose value could come out of a careless conversion of characters that are no digits (all ones, zeros,
        # digits skipped), with those characters in every choice of places
        for want in ("FFFF", "FFFd", "FFdd", "Fddd", "0000", "000d", "00dd", "0ddd", "d000", "dddF", "ddFF", "dFFF", "dd0d", "ddd0"):
            pat = re.compile("".join("[0-9A-F]" if c == "d" else c for c in want))
            k0 = r.randrange(1 << 20)
            body = next(b for b in (b"NO DIGITS %d" % k for k in range(k0, k0 + 4000000)) if pat.fullmatch("%04X" % binascii.crc_hqx(b, 0xFFFF)))
            crc = b"%04X" % binascii.crc_hqx(body, 0xFFFF)
            for sub in range(1, 16):
                alts = r.sample(b"GgZ /:@`\x7f~.\n" + (bytes([128, 176, 255]) if rx.PARAMS[mode]["ab"] == 8 else b""), 3 if T else 1)
                for alt in alts:
                    c = bytes(alt if (sub >> i) & 1 else crc[i] for i in range(4))
                    texts.append((b"$$" + body + b"*" + c + b"\n", "checksum %s sent as %r" % (crc.decode(), c)))
        for t, note in texts:
            st = rx.Stream(mode, note=note)
            if cnt % 4 == 1:
                st.add(rx.rtty_bits(mode, rx.sentence(rx.random_body(r, 20), 2)))
            st.add("1" * r.randrange(50)).add(rx.rtty_bits(mode, t)).add("1" * 30)
            if cnt % 4 == 3:
                st.add(rx.rtty_bits(mode, rx.sentence(rx.random_body(r, 20), 3)))
            pol = "ZPK"[cnt % 3]
            cnt += 1
            st.fresh = pol != "K"
            rt[pol].append(st.finish())
        # '*' so late that the last checksum digits lie beyond the longest sentence, or were cut off, while the caller's
        # buffer happens to hold the missing digits
        ab, sb = rx.MODES[mode]
        most = -(-(rx.PARAMS[mode]["window"] - 50 - sb - 1) // cl)
        for j in range(most - 9, most + 2):
            for miss in (1, 2):
                for _ in range(400):
                    body = rx.random_body(r, j - 2)
                    crc = b"%04X" % rx.crc16(body)
                    if miss == 1 or crc[2] == crc[3]:
                        break
                dig = crc[3]
                wrong = bytes([r.choice([x for x in b"0123456789ABCDEF" if x != dig])])
                st = rx.Stream(mode, note="%d checksum digits wrong, '*' is character %d of %d, buffer holds the right ones" % (miss, j, most))
                st.add("1" * r.randrange(50)).add(rx.rtty_bits(mode, b"$$" + body + b"*" + crc[:4 - miss] + r.choice([wrong, b"\n", b" "]) * miss + b"\n"))
                st.policy, st.fresh = "C%02x" % dig, True
                rt["P"].append(st.finish())
        for _ in range(12 if T else 4):
            st = rx.Stream(mode, note="noise")
            for _ in range(3):
                st.add(rx.noise(r, 400)).add(rx.rtty_bits(mode, b"$$$")).add(rx.noise(r, 300)).add(rx.rtty_bits(mode, b"*0123"))
            rt["Z"].append(st.finish())
    rx.run_streams(ck, exe, streams)
    for pol, part in rt.items():
        rx.run_streams(ck, exe, part, policy=pol)
    allrt = [s for p in "ZPK" for s in rt[p]]
    ck.sample({"note": allrt[10].note, "mode": allrt[10].mode, "reported": [c["text"].decode("latin1") for c in allrt[10].calls if c["ret"]]})
    rx.validate_streams(ck, streams, "binary")
    rx.validate_streams(ck, allrt, "rtty")


main("C04", check)
