#!/usr/bin/env python3
"""C29: the bit level tools carry and count bits faithfully."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import array
from concurrent.futures import ThreadPoolExecutor
import modem


def check(ck):
    T = thorough()
    r = rng("c29")
    S = lambda f: os.path.join(REPO, "src", f)
    gen = modem.build_fskgen(ck.dir)
    demod = cc(os.path.join(ck.dir, "fsk_demod"), [S("fsk_demod.c"), S("modem_probe.c"), S("octave.c")], flags=ASAN)
    mod = cc(os.path.join(ck.dir, "fsk_mod"), [S("fsk_mod.c")], flags=["-O2"])
    get = cc_files(os.path.join(ck.dir, "fsk_get_test_bits"), [S("fsk_get_test_bits.c")], ASAN, [])
    put = cc_files(os.path.join(ck.dir, "fsk_put_test_bits"), [S("fsk_put_test_bits.c")], ASAN, [])
    env = asan_env(False)

    def sh(argv, inp=None):
        try:
            p = subprocess.run(argv, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=env)
        except subprocess.TimeoutExpired:
            raise Violation("%s does not finish" % os.path.basename(argv[0]), {"argv": argv})
        if p.returncode not in (0, 1):
            raise Violation("%s ends with status %d: %s" % (os.path.basename(argv[0]), p.returncode, p.stderr.decode("latin1")[-800:]), {"argv": argv})
        return p

    # ---- demodulation
    jobs = []
    par = [(48000, 100, 1000, 270, 8, 50), (48000, 100, 1100, 300, 10, 50), (8000, 100, 800, 400, 10, 50), (9600, 300, 1200, 600, 8, 50), (48000, 1200, 1200, 1200, 8, 100), (48000, 50, 1000, 300, 16, 50), (96000, 100, 1500, 450, 8, 80)]
    for M in (2, 4):
        for fmt in ("s16", "cs16", "cu8"):
            for p in par:
                for mask in (0, 1):
                    if T or mask == r.randrange(2):
                        jobs.append((M, fmt, p, mask, r.choice([0, 0, 200, -200, 500, -500])))

    def demodulate(ij):
        i, (M, fmt, (fs, rs, f0, shift, P, nsym), mask, ppm) = ij
        rb = rng("c29/%d" % i)
        per = M // 2
        bits = [rb.randrange(2) for _ in range(nsym * per * rb.randrange(8, 16) + rb.randrange(nsym))]
        bits = bits[:len(bits) // per * per]
        lead = rb.randrange(0, 4 * fs // rs)
        fn = os.path.join(ck.dir, "d%d.raw" % i)
        modem.modulate(gen, fn, "".join(map(str, bits)), 0 if M == 4 else 90, f0=f0, shift=shift, fs=fs, rs=rs, amp=rb.choice([2000, 8000, 15000]), noise=rb.choice([0, 100]), ppm=ppm, lead=lead, quad=int(fmt != "s16"), seed=i + 1, phase=rb.random() * 6)
        if fmt == "cu8":
            a = array.array("h", open(fn, "rb").read())
            open(fn, "wb").write(bytes(max(0, min(255, round(127 + x / 128))) for x in a))
        data = open(fn, "rb").read()
        o = {"s16": [], "cs16": [rb.choice(["-c", "--cs16"])], "cu8": [rb.choice(["-d", "--cu8"])]}[fmt] + ["-p", str(P), "--nsym", str(nsym)] + (["--mask", str(shift)] if mask else [])
        o += ["--fsk_lower", str(max(50, f0 - rb.randrange(300, 700)))] if fmt != "s16" or rb.random() < .5 else []
        o += ["--fsk_upper", str(min(fs // 2 - 1, f0 + 3 * shift + rb.randrange(700, 1500)))] if rb.random() < .5 else []
        a = [str(M), str(fs), str(rs)]
        base = sh([demod] + o + a + [fn, "-"])
        res = {"k": "demod", "tones": [f0 + m * shift for m in range(M)], "rs": rs, "code": base.returncode, "frame": nsym * per, "sent": bits, "out": list(base.stdout), "lag": 8 * per, "skip": nsym * per, "tail": 2 * nsym * per, "variants": [],
               "case": {"M": M, "fmt": fmt, "args": " ".join(o + a), "ppm": ppm, "lead": lead}}
        of = fn + ".out"
        sh([demod] + o + a + ["-", of], data)
        res["variants"].append({"how": "stdin to file", "bits": list(open(of, "rb").read())})
        p = sh([demod] + o + ["--stats=%d" % rb.choice([1, 10, 100])] + a + [fn, "-"])
        res["variants"].append({"how": "with statistics", "bits": list(p.stdout)})
        res["lines"] = [x for x in p.stderr.decode("latin1").splitlines() if x.startswith("{")]
        if M == 2:
            p = sh([demod] + o + [rb.choice(["-s", "--soft-dec"])] + a + [fn, "-"])
            res["variants"].append({"how": "soft decisions", "bits": [int(x < 0) for x in array.array("f", p.stdout)]})
        os.unlink(fn)
        os.unlink(of)
        return res
    with ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(demodulate, enumerate(jobs)))
    ck.count("demodulations", sum(1 + len(x["variants"]) for x in recs))
    ck.count("bits_carried", sum(len(x["sent"]) for x in recs))
    nlines = 0
    for x in recs:
        lines, x["est"] = x.pop("lines"), []
        for i, ln in enumerate(lines):
            nlines += 1
            try:
                st = json.loads(ln.replace("nan", "0.0"))
                assert all(k in st for k in ("EbNodB", "ppm", "f1_est", "f2_est", "samp_fft", "eye_diagram"))
            except (ValueError, AssertionError):
                raise Violation("fsk_demod prints statistics that the gateway cannot read", {"line": ln, "case": x["case"]})
            if 2 <= i < len(lines) - 2:          # settled, and still within the signal
                x["est"].append([round(10 * st[f]) for f in ("f1_est", "f2_est", "f3_est", "f4_est") if f in st])
    ck.count("statistics_lines", nlines)

    # ---- test frames
    def unpack(b):
        return list(b)
    pattern = list(sh([get, "-", "400", "400"]).stdout)
    if len(pattern) != 400 or not set(pattern) <= {0, 1}:
        raise Violation("fsk_get_test_bits does not produce the frame asked for", {"got": pattern})
    for n, f in [(0, 100), (99, 100), (100, 100), (101, 100), (199, 100), (200, 100), (1000, 100), (1, 1), (7, 3), (399, 400), (400, 400), (1200, 400)] + [(r.randrange(2000), r.choice([1, 2, 10, 50, 100, 256, 400])) for _ in range(40 if T else 12)]:
        a = [get, "-", str(n)] + ([str(f)] if f != 100 or r.random() < .5 else [])
        p = sh(a)
        recs.append({"k": "get", "n": n, "f": f, "code": p.returncode, "pattern": pattern, "out": list(p.stdout), "case": {"args": " ".join(a[1:])}})

    def stream(f, n, heavy):
        """frames with errors, gaps, slips"""
        b = []
        while len(b) < n:
            x = r.random()
            if x < .7:
                fr = pattern[:f]
                for i in r.sample(range(f), min(f, r.choice([0, 0, 1, f // 10 - 1, f // 10, f // 10 + 1, f // 4 - 1, f // 4, f // 4 + 1]) if heavy else r.choice([0, 1])) if f > 9 else 0):
                    fr[i] ^= 1
                b += fr
            elif x < .85:
                b += [r.randrange(2) for _ in range(r.randrange(1, f))]
            else:
                b += pattern[:r.randrange(1, f)]
        return b[:n]
    for k in range(120 if T else 40):
        f = r.choice([20, 40, 50, 100, 100, 100, 200])
        b = stream(f, r.choice([1, f - 1, f, f + 1, 3 * f, 500, 700]), r.random() < .7)
        num, den = r.choice([(1, 10), (1, 10), (1, 10), (1, 4), (1, 2), (1, 8)])
        if (num * f) % den and den != 10:
            num, den = 1, 10
        minf, maxb = r.choice([0, 1, 2, 3, 5]), r.choice([(0, 1), (1, 2), (1, 4), (1, 32), (1, 64)])
        a = [put] + (["-f", str(f)] if f != 100 or r.random() < .5 else []) + (["-t", str(num / den)] if (num, den) != (1, 10) or r.random() < .3 else []) + \
            (["-p", str(minf)] if minf else []) + (["-b", str(maxb[0] / maxb[1])] if maxb[0] else []) + (["-q"] if r.random() < .3 else [])
        if r.random() < .5:
            p = sh(a + ["-"], bytes(b))
        else:
            fn = os.path.join(ck.dir, "p%d" % k)
            open(fn, "wb").write(bytes(b))
            p = sh(a + [fn])
            os.unlink(fn)
        m = re.findall(r"\[(\d+)\] BER\s+[\d.]+, bits tested\s+(\d+), bit errors\s+(\d+)", p.stderr.decode())
        ok = b"PASS" in p.stderr
        fr, te, er = map(int, m[-1]) if m else (-1, -1, -1)
        recs.append({"k": "put", "f": f, "num": num, "den": den, "bits": b, "pattern": pattern, "minframes": minf, "maxber": list(maxb), "frames": fr, "tested": te, "errs": er,
                     "code": p.returncode if ok == (p.returncode == 0) else 99, "case": {"args": " ".join(a[1:])}})
    # the whole chain, in the demodulator's own test frame mode
    for M in (2, 4):
        for k in range(3 if T else 2):
            tx = stream(100, 1200, k > 0)
            bf, rf = os.path.join(ck.dir, "tf.bits"), os.path.join(ck.dir, "tf.raw")
            open(bf, "wb").write(bytes(tx))
            sh([mod, str(M), "48000", "100", "1000", "300", bf, rf])
            plain = sh([demod, str(M), "48000", "100", rf, "-"])
            for o in (["-f"], ["--testframes", "--stats"]) + ((["-f", "-s"],) if M == 2 else ()):
                p = sh([demod] + o + [str(M), "48000", "100", rf, "/dev/null"])
                e = p.stderr.decode()
                m = re.findall(r'"frames":(\d+), "bits":(\d+), "errs":(\d+)', e) if "--stats" in o else re.findall(r"bits tested (\d+), bit errors (\d+)", e)
                fr, te, er = (map(int, m[-1]) if "--stats" in o else (len(m), int(m[-1][0]), int(m[-1][1]))) if m else (0, 0, 0)
                recs.append({"k": "tf", "f": 100, "num": 1, "den": 10, "bits": list(plain.stdout), "pattern": pattern, "frames": fr, "tested": te, "errs": er, "case": {"M": M, "args": " ".join(o)}})
            os.unlink(bf)
            os.unlink(rf)

    def why(x):
        d = {k: v for k, v in x.items() if k not in ("sent", "out", "variants", "est", "bits", "pattern")}
        if x["k"] == "demod":
            d["sizes"] = [len(x["sent"]), len(x["out"])] + [[v["how"], v["bits"] == x["out"]] for v in x["variants"]]
        return json.dumps(d)
    validate_records(ck, "BitToolsTrace", recs, "tools", what="the bit tools", describe=why)
    ck.sample(recs[0]["case"])
    ck.assumptions.append("the transmitter is a textbook continuous phase FSK modulator (harness/c/fskgen.c); 4FSK soft decisions are marked unfinished in the source and are left out")


main("C29", check)
