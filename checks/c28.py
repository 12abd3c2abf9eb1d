#!/usr/bin/env python3
"""C28: the modem statistics describe the received signal."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import math
from concurrent.futures import ThreadPoolExecutor
import rx, modem, pyenv, front


def block(c, m):
    s = c["stats"]
    v = [float.fromhex(x) for x in [s[0], s[1]] + s[3:m + 4]]
    snr, f, ppm, rt = v[0], v[1:m + 1], v[m + 1], v[m + 2]
    tr, pt, lo, hi, bad, sync = s[m + 4:m + 10]
    fin = all(map(math.isfinite, v)) and s[0] == s[2]
    sc = lambda x, k: max(-2 * 10**9, min(2 * 10**9, round(x * k))) if math.isfinite(x) else 2 * 10**9
    lo, hi = float.fromhex(lo), float.fromhex(hi)
    if lo > hi:
        lo, hi = 0.0, 0.0
    return {"finite": fin, "f": [sc(x, 10) for x in f], "snr": sc(snr, 100), "ppm": sc(ppm, 1), "rt": sc(rt, 100), "traces": int(tr), "points": int(pt),
            "eyelo": sc(lo, 10000), "eyehi": sc(hi, 10000), "scaled": bad == "0", "sync": int(sync)}


def check(ck):
    T = thorough()
    r = rng("c28")
    gen, exe = modem.build_fskgen(ck.dir), rx.build_dsp(ck.dir, asan=False)
    jobs = []

    def signal(mode, spacing, rs, shift, f0, amp, snr, ppm, quad=0, P=8, fs=48000, sigma=None, group=None, **kw):
        # noise in 3 kHz: sigma^2 * 3000 / (fs / 2) for real samples, half of that for complex ones of the same power per component
        if sigma is None:
            sigma = 0 if snr == 99 else math.sqrt(amp * amp / 2 / 10 ** (snr / 10) * (fs / 2) / 3000)
        assert quad == 0 or snr == 99
        jobs.append(dict(k="signal", mode=mode, spacing=spacing, P=P, snr=snr, group=group,
                         opt=dict(f0=f0, shift=shift, amp=amp, noise="%.3f" % sigma, ppm=ppm, quad=quad, fs=fs, rs=rs, lead=r.randrange(480), seed=r.randrange(1, 10**6), phase=r.random() * 6), **kw))

    modes = (0, 89, 90, 91)
    for m in modes:
        for sp in (0, 1):
            for snr in (99, 15, 9, 4) if T else (99, 12, 5):
                shift = r.choice([270, 300, 450, 600])
                signal(m, shift if sp else -1, 100, shift, r.randrange(600, 1500), r.choice([300, 1000, 3000] if snr < 6 else [300, 1000, 8000]), snr, r.choice([0, 300, -300]))
            for ppm in (1000, -1000, 1500, -1500, 100, -100):
                if T or r.random() < .5:
                    shift = r.choice([270, 300, 450, 600])
                    signal(m, shift if sp else -1, 100, shift, r.randrange(600, 1500), 3000, 99, ppm)
        for rs in (50, 200, 300):
            shift = rs * r.choice([2, 3]) if rs > 100 else r.choice([270, 450])
            signal(m, r.choice([-1, shift]), rs, shift, r.randrange(600, 1100), 3000, r.choice([99, 10]), r.choice([0, 0, 300, -300]))
        signal(m, -1, 100, 300, r.choice([-2000, 700]), 3000, 99, r.choice([0, 400]), quad=1, limits=(-6000, 6000))
        for P, fs in ((10, 48000), (16, 48000)) + (((8, 96000), (10, 8000)) if T or m in (0, 90) else ()):
            signal(m, -1, 100, 300, 700, 3000, 99, r.choice([0, 300, -300]), P=P, fs=fs)
    # the same transmission with more and more noise; the same recording at several volumes
    for g, m in enumerate(modes):
        for sp in (-1, 300):
            for snr in (99, 14, 8, 3):
                signal(m, sp, 100, 300, 1000, 2000, snr, 0, group="louder%d/%d" % (m, sp))
        for amp in (100, 300, 1000, 4000):
            signal(m, r.choice([-1, 300]), 100, 300, 1100, amp, 8, 0, group="volume%d" % m)
    for _ in range(250 if T else 0):
        m = r.choice(modes)
        rs = r.choice([50, 100, 100, 100, 200])
        shift = r.choice([270, 300, 450, 600]) if rs < 200 else r.choice([400, 600])
        signal(m, r.choice([-1, shift]), rs, shift, r.randrange(600, 1400), r.choice([300, 1000, 3000]), r.choice([99, 15, 12, 9, 6, 4]), r.randrange(-1200, 1201))
    # anything at all: silence, full scale noise, constants, square waves, sweeps, impulses; with and without limits
    for m in modes:
        for kind in range(9):
            jobs.append({"k": "any", "mode": m, "kind": kind, "spacing": r.choice([-1, 270]), "quad": kind % 2, "seed": r.randrange(1000), "P": 8})
        for lo in (300, 900, 2000) if m else (300, 1500):
            for sp in (-1, 270):
                jobs.append({"k": "limits", "mode": m, "kind": 2, "spacing": sp, "quad": 0, "seed": r.randrange(1000), "P": 8, "limits": (lo, lo + r.randrange(1500, 3000))})

    def one(ij):
        i, j = ij
        M = 4 if j["mode"] == 0 else 2
        o = j.get("opt", {})
        cmds = ["O %d %d %d %d %d" % (j["mode"], o.get("rs", 100), j["spacing"], o.get("fs", 48000), j["P"])]
        if j.get("limits"):
            cmds.append("F 0 %d %d" % j["limits"])
        if j["k"] == "signal":
            rb = random.Random("c28bits/%s/%d" % (j["group"], 0 if j["group"] else i))
            nb = 50 * 60 * (2 if M == 4 else 1)
            bits = "".join(rb.choice("01") for _ in range(nb))
            fn = os.path.join(ck.dir, "s%d.raw" % i)
            modem.modulate(gen, fn, bits, j["mode"], **o)
            cmds += ["A 0 %d %s" % (o["quad"], fn), "S 0 56"]
        else:
            cmds += ["G 0 %d %d 24 %d" % (j["kind"], j["seed"], j["quad"])]
        try:
            _, calls = rx.dsp_run(exe, cmds, leaks=False)
        except rx.RxDied as e:
            raise Violation("the receiver does not survive: %s" % e, {"case": repr(j)})
        finally:
            if j["k"] == "signal":
                os.unlink(fn)
        bl = [block(c, M) for c in calls[0]]
        if not bl:
            raise ToolError("no blocks demodulated: %r" % j)
        rec = {"k": j["k"], "m": M, "sp": max(0, j["spacing"]), "p": j["P"], "blocks": bl, "case": {k: str(v) for k, v in list(j.items()) + list(o.items())}}
        if j["k"] == "signal":
            # a transmitter whose symbols are longer has its clock behind: the receiver needs more samples
            rec.update(f=[10 * (o["f0"] + q * o["shift"]) for q in range(M)], ppm=o["ppm"], snr=100 * j["snr"])
        elif j["k"] == "limits":
            rec.update(lo=j["limits"][0], hi=j["limits"][1], bin=120 + (20 if j["spacing"] > 0 else 0))
        return rec
    with ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(one, enumerate(jobs)))
    groups = {}
    for j, rec in zip(jobs, recs):
        if j.get("group"):
            bl = rec["blocks"][7:]
            groups.setdefault(j["group"], []).append(sum(b["snr"] for b in bl) // max(1, len(bl)))
    for g, means in groups.items():
        recs.append({"k": g[:6], "means": means, "step": 200, "case": {"group": g}})
    ck.count("transmissions", sum(1 for j in jobs if j["k"] == "signal"))
    ck.count("blocks", sum(len(x["blocks"]) for x in recs if "blocks" in x))

    # the statistics the real tool prints, read by the gateway's own reader
    tool = front.build_ctool(ck.dir)
    env = pyenv.build(ck.dir, ext=False)
    runs = []
    for m, name in ((0, "binary"), (89, "rtty7n1"), (90, "rtty7n2"), (91, "rtty8n2")):
        for what in ("signal", "silence", "noise", "signal"):
            runs.append((m, name, what, r.choice([-1, 300])))

    def printed(ir):
        i, (m, name, what, sp) = ir
        fn = os.path.join(ck.dir, "t%d.raw" % i)
        if what == "signal":
            rb = random.Random("c28tool/%d" % i)
            modem.modulate(gen, fn, "".join(rb.choice("01") for _ in range(1500 if m else 3000)), m, f0=1000, shift=300, amp=3000, noise=i * 50)
        else:
            with open(fn, "wb") as f:
                f.write(b"\0" * 96000 * 10 if what == "silence" else random.Random(i).randbytes(96000 * 10))
        a = [tool, "-m", name, "--stats=100", "-g"] + (["--tonespacing=300"] if sp > 0 else []) + [fn, "-"]
        p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        os.unlink(fn)
        if p.returncode:
            raise Violation("horus_demod ends with status %d on %s" % (p.returncode, what), {"argv": a})
        return [x for x in p.stdout.decode("latin1").splitlines() if x.startswith("{")]
    with ThreadPoolExecutor(8) as ex:
        lines = list(ex.map(printed, enumerate(runs)))
    got = env.call("py_signal.py", {"runs": lines})
    num = r"(-?[0-9.]+|-?nan|-?inf)"

    def val(key, line, k):
        x = re.search(r'"%s": ?%s[,}\t]' % (key, num), line)
        if not x:
            return None
        return round(float(x.group(1)) * k) if re.match(r"-?[0-9.]+$", x.group(1)) else 10**9
    for (m, name, what, sp), ls, gs in zip(runs, lines, got):
        M = 4 if m == 0 else 2
        recs.append({"k": "tool", "m": M, "min": 8, "f": [10000 + 3000 * q for q in range(M)] if what == "signal" else [], "case": {"mode": name, "input": what, "spacing": str(sp)}, "lines": [
            {"read": not g["errors"], "snr": val("EbNodB", x, 100), "ppm": val("ppm", x, 1), "f": [v for v in (val("f%d_est" % (q + 1), x, 10) for q in range(4)) if v is not None],
             "got": {"snr": g["snr"], "ppm": g["ppm"], "f": g["f"]}} for x, g in zip(ls, gs)]})
    if os.environ.get("C28_DEBUG"):
        json.dump(recs, open("/tmp/c28/recs.json", "w"))
    ck.count("printed_lines", sum(map(len, lines)))

    def why(rec):
        d = dict(rec["case"])
        if "means" in rec:
            return "%s, mean figures %s (0.01 dB)" % (d, rec["means"])
        if rec["k"] == "tool":
            return "%s, lines %s" % (d, json.dumps(rec["lines"][:3]))
        return "%s, last blocks %s" % (d, json.dumps(rec["blocks"][-2:]))
    validate_records(ck, "SignalTrace", recs, "signals", what="the reported statistics do not describe the signal", describe=why)
    ck.sample(recs[0]["case"])
    ck.assumptions.append("the transmitter is a textbook continuous phase FSK modulator with white noise (harness/c/fskgen.c); figures are required within the stated tolerances only after the estimators' settling time")


main("C28", check)
