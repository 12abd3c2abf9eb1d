"""The real demodulator on real samples: whole-link and isolation experiments."""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *
import rx


def build_fskgen(d):
    return cc_files(os.path.join(d, "fskgen"), [os.path.join(VERIF, "harness/c/fskgen.c")], ["-O2"], ["-lm"])


def modulate(gen, path, bits, mode, f0=1000, shift=270, amp=8000, phase=0.3, lead=0, ppm=0, noise=0, seed=1, quad=0, fs=48000, rs=100, drift=0, mix=None):
    subprocess.run([gen, path] + [str(x) for x in (4 if mode == 0 else 2, fs, rs, f0, shift, amp, phase, lead, ppm, noise, seed, quad, drift)] + ([mix] if mix else []),
                   input=bits, text=True, check=True)


def on_air(mode, packets, warmup=0):
    """bits of a transmission: packets = frames (binary) or sentences (RTTY); warmup: additional symbols sent before them"""
    if mode == 0:
        # the tone estimator needs data like signals to settle on the four tones; a strictly periodic preamble has a line
        # spectrum of its own, so precede the packets by idle data, in which all tones are equally frequent
        idle = lambda n: "".join("".join(q) for q in (r.sample(["00", "01", "10", "11"], 4) for _ in range(n)))
        r = rng("idle%d" % len(packets))
        return idle(100 + warmup // 4) + "".join(rx.bits_of(f) + idle(4) for f in packets) + idle(500)
    warm = bytes(rng("warm").choice(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") for _ in range(60))
    return "1" * 100 + "".join(rx.rtty_bits(mode, warm) for _ in range(warmup // 600)) + rx.rtty_bits(mode, warm) + "1" * 10 + "".join(rx.rtty_bits(mode, s) + "1" * 20 for s in packets) + "1" * 1600


def link(ck, exe, gen, cases, name):
    """cases: dicts with mode, packets (on-air frames or sentences), sent (payload bytes or sentences), and modulate() options,
    spacing (mask estimator tone spacing or -1), P. Records what the receiver reports; TLC decides."""
    def one(ic):
        i, c = ic
        fn = os.path.join(ck.dir, "%s-%d.raw" % (name, i))
        o = c["opt"]
        modulate(gen, fn, on_air(c["mode"], c["packets"]), c["mode"], **o)
        q = o.get("quad", 0)
        cmds = ["O %d %d %d %d %d" % (c["mode"], o.get("rs", 100), c.get("spacing", -1), o.get("fs", 48000), c.get("P", 8))]
        if c.get("limits"):
            cmds.append("F 0 %d %d" % c["limits"])
        cmds += ["A 0 %d %s" % (q, fn), "S 0 100000"]
        try:
            _, calls = rx.dsp_run(exe, cmds, leaks=False)
        except rx.RxDied as e:
            raise Violation("the receiver does not survive a clean transmission: %s" % e, {"case": repr(c)[:3000]})
        finally:
            os.unlink(fn)
        c["ncalls"] = len(calls[0])
        return {"mode": c["mode"], "spacing": c.get("spacing", -1), "sent": [list(p) for p in c["sent"]], "got": [list(x["text"]) for x in calls[0] if x["ret"]],
                "opt": {k: str(v) for k, v in o.items()}}
    with ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(one, enumerate(cases)))
    ck.count("blocks_demodulated", sum(c["ncalls"] for c in cases))
    path = nontrivial_jsonl(os.path.join(ck.dir, name + ".ndjson"), recs)
    res = tlc("LinkTrace", env={"TRACE": path})
    ck.spec(res, name)
    if res.ok:
        if res.distinct < len(recs):
            raise ToolError("LinkTrace visited too few states")
        ck.traces(len(recs))
        ck.sample(recs[0]["opt"])
        short = [i for i, x in enumerate(recs) if len(x["got"]) < len(x["sent"])]
        ck.count("packets_lost_by_chance", len(short))
        if len(short) > (3 if thorough() else 1):
            raise Violation("%d clean transmissions lose a packet each, too many to be chance; the first: %r" % (len(short), cases[short[0]]["opt"]),
                            {"cases": [{"opt": cases[i]["opt"], "spacing": cases[i].get("spacing"), "bits": on_air(cases[i]["mode"], cases[i]["packets"])} for i in short]})
        return
    if res.rc != 12:
        raise ToolError("LinkTrace rc=%d\n%s" % (res.rc, res.out[-3000:]))
    li = int(re.findall(r"/\\ l = (\d+)", res.out)[-1])
    why = re.findall(r'bad = "([^"]+)"', res.out)[-1]
    c, rec = cases[li - 1], recs[li - 1]
    raise Violation("%s: mode %d, sent %d, reported %d; %r" % (why, c["mode"], len(c["sent"]), len(rec["got"]), c["opt"]),
                    {"mode": c["mode"], "opt": c["opt"], "spacing": c.get("spacing"), "bits": on_air(c["mode"], c["packets"]),
                     "got": [bytes(g).decode("latin1") for g in rec["got"]], "why": why})


def outcome(c):
    return "%d/%d/%d/%d/%s/%s" % (c["used"], c["next"], c["ret"], c["crc"], c["text"].hex(), ",".join(c["stats"]))


def isolation(ck, dsp, r, frames, T):
    gen = build_fskgen(ck.dir)
    recs, groups = [], (12 if T else 4)

    def one(g):
        r = rng("isolation%d" % g)
        cfg = []
        for h in range(r.randint(3, 5)):
            mode = [0, 0, 89, 90, 91][(g + h) % 5]
            packets = [f for p, f in r.sample(frames, 3)] if mode == 0 else \
                [rx.sentence(rx.random_body(r, r.randint(14, 50)), r.randint(2, 4)) for _ in range(2)]
            fn = os.path.join(ck.dir, "iso-%d-%d.raw" % (g, h))
            opt = dict(f0=r.randrange(700, 1600), shift=r.choice([270, 300, 450]), amp=r.choice([500, 5000, 20000]), noise=r.choice([0, 50]),
                       lead=r.randrange(3000), ppm=r.choice([0, 200, -200]), seed=g * 10 + h, quad=r.choice([0, 0, 1]), rs=r.choice([100, 100, 200]))
            modulate(gen, fn, on_air(mode, packets), mode, **opt)
            cfg.append((mode, opt, fn, r.choice([-1, -1, opt["shift"]])))
        openers = ["O %d %d %d 48000 8" % (m, o["rs"], sp) for m, o, fn, sp in cfg]
        att = ["A %d %d %s" % (h, o["quad"], fn) for h, (m, o, fn, sp) in enumerate(cfg)]
        alone = []
        try:
            for h in range(len(cfg)):
                _, c = rx.dsp_run(dsp, [openers[h], att[h].replace("A %d" % h, "A 0", 1), "S 0 100000"], leaks=False)
                alone.append(c[0])
            # the same feeds in company: opened one by one in between, fed in bursts of any length, closed as they end
            left = [len(a) for a in alone]
            cmds, order, opened = [openers[0], att[0]], [], 1
            while any(left):
                if opened < len(cfg) and r.random() < 0.1:
                    cmds += [openers[opened], att[opened]]
                    opened += 1
                live = [h for h in range(opened) if left[h]]
                if not live:
                    cmds += [openers[opened], att[opened]]
                    opened += 1
                    continue
                h = r.choice(live)
                n = min(left[h], r.choice([1, 1, 2, 3, 10]))
                cmds.append("S %d %d" % (h, n))
                order += [h] * n
                left[h] -= n
                if left[h] == 0:
                    cmds.append("C %d" % h)
            _, together = rx.dsp_run(dsp, cmds, leaks=False)
        except rx.RxDied as e:
            raise Violation("concurrent receivers die: %s" % e, {"cmds": cmds[:50]})
        finally:
            for c in cfg:
                os.unlink(c[2])
        pos = [0] * len(cfg)
        steps = []
        for h in order:
            c = together[h][pos[h]] if pos[h] < len(together[h]) else None
            steps.append({"h": h + 1, "out": outcome(c) if c else "no answer"})
            pos[h] += 1
        ck.count("calls_alone", sum(len(a) for a in alone))
        ck.count("packets_alone", sum(c["ret"] for a in alone for c in a))
        return {"alone": [[outcome(c) for c in a] for a in alone], "steps": steps}
    with ThreadPoolExecutor(4) as ex:
        recs = list(ex.map(one, range(groups)))
    path = nontrivial_jsonl(os.path.join(ck.dir, "isolation.ndjson"), recs)
    res = tlc("IsolationTrace", env={"TRACE": path})
    ck.spec(res, "isolation")
    if res.ok:
        ck.traces(len(recs))
        return
    if res.rc != 12:
        raise ToolError("IsolationTrace rc=%d\n%s" % (res.rc, res.out[-3000:]))
    li = int(re.findall(r"/\\ l = (\d+)", res.out)[-1])
    k = int(re.findall(r"/\\ k = (\d+)", res.out)[-1])
    st = recs[li - 1]["steps"][k - 1]
    raise Violation("receiver %d of group %d answers differently in company than alone at step %d: %s" % (st["h"], li, k, st["out"][:300]),
                    {"group": li, "step": k, "answer": st["out"]})
