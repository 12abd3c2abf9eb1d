"""Front ends (Python HorusLib and command line, C horus_demod) on a scripted modem and on real audio."""
import os, subprocess, json
from concurrent.futures import ThreadPoolExecutor
from common import *
import modem, rx

MODES = (0, 89, 90, 91)
QUIET = {"text": "", "junk": "", "crc": 0, "c": []}
FRONT_SRC = os.path.join(VERIF, "harness/c/frontstub.c")


def outs(r, mode, n, ctool=False):
    """what the modem answers, block by block"""
    res = []
    for _ in range(n):
        x = r.random()
        if res and x < .12:                       # the same answer again, or one heard before, intact or not
            o = dict(r.choice([res[-1], r.choice(res)]))
            o = {"text": bytes.fromhex(o["text"]), "crc": r.choice([o["crc"], 0, 1])}
        elif x < .35:
            o = {"text": b"", "crc": r.choice([0, 0, 1])}
        else:
            if mode == 0:
                h = r.randbytes(r.choice([1, 2, 16, 22, 32, 48, 64, 96, 128, r.randint(1, 128)])).hex()
                t = (h.upper() if ctool or r.random() < .8 else h).encode()
            else:
                m = r.choice([1, 20, 60, 119, r.randint(1, 119)])
                t = bytes(r.choice(b" !\"#$%&'()*+,-./0123456789:;<=>?@ABCXYZ[]^_`abcxyz|}~") for _ in range(m))
                if r.random() < .5:
                    t = rx.sentence(rx.random_body(r, r.randint(5, 60)), r.randint(2, 4), eol=b"")
                if t[:1] == b"{":
                    t = b"$" + t[1:]
            o = {"text": t, "crc": r.choice([0, 1, 1])}
        j = b""
        if r.random() < .6:                       # what earlier candidates left behind
            k = r.randint(1, 100)
            j = bytes(r.choice(b"0123456789ABCDEF") for _ in range(k)) if mode == 0 else bytes(r.randrange(256) for _ in range(k))
        res.append({"text": o["text"].hex(), "junk": j.hex(), "crc": o["crc"], "c": list(o["text"])})
    return res


def nins(r, rate=48000):
    x = r.random()
    if x < .2:
        return [4800]
    if x < .5:
        return [4800 + r.choice([-120, 0, 0, 120, r.randint(-120, 120)]) for _ in range(8)]
    if x < .7:
        return [r.randint(2, 60) for _ in range(7)]
    return [r.randint(200, 1500) for _ in range(7)]


def chunks(r, total):
    """a way of cutting total bytes"""
    style, res, left = r.random(), [], total
    while left > 0:
        if style < .15:
            n = left
        elif style < .3:
            n = r.choice([1, 2, 3, 0])
        elif style < .5:
            n = r.choice([2048, 1920, 960, 4096])
        elif style < .7:
            n = r.choice([0, 1, 2, 3, 7, 9600, 9599, 9601, 50000])
        else:
            n = r.randint(0, 12000)
        n = min(n, left)
        if len(res) > 300:
            n = left
        res.append(n)
        left -= n
    return res or [0]


def modem_front(d):
    return cc_files(os.path.join(d, "horus_demod_stub"), [os.path.join(REPO, "src/horus_demod.c"), FRONT_SRC], ASAN + CDEFS + ["-I", os.path.join(REPO, "src")], ["-lm"])


def stats_of(text, mode):
    res = []
    for line in text.splitlines():
        i = line.find("{")
        if i < 0:
            continue
        try:
            s = json.loads(line[i:])
            n = 2 if mode else 4
            res.append({"snr2": round(2 * s["EbNodB"]), "ppm": round(s["ppm"]), "f": [round(s["f%d_est" % (q + 1)]) for q in range(n)],
                        "eye": [[round(v) for v in t] for t in s["eye_diagram"]]})
        except (ValueError, KeyError, TypeError):
            res.append({"snr2": -1, "ppm": -1, "f": [], "eye": [], "line": line[:200]})
    return res


def ctool(exe, d, j, i):
    """one run of the C tool on a scripted modem"""
    base = os.path.join(d, "ct-%d" % i)
    with open(base + ".script", "w") as f:
        n = max(len(j["nins"]) * (len(j["outs"]) // len(j["nins"]) + 1), len(j["outs"]), 400)
        for k in range(n):
            o = j["outs"][k] if k < len(j["outs"]) else QUIET
            f.write("%d %d %d %s %s\n" % (j["nins"][k % len(j["nins"])], o["crc"], int(bool(o["crc"] and o["text"])), o["text"] or "-", o["junk"] or "-"))
    data = STREAM[:j["bytes"]]
    with open(base + ".raw", "wb") as f:
        f.write(data)
    argv = [exe] + j["args"] + [base + ".raw" if j["in"] == "file" else "-", base + ".out" if j["out"] == "file" else "-"]
    env = asan_env(True)
    env.update(FRONT_SCRIPT=base + ".script", FRONT_LOG=base + ".log")
    try:
        r = subprocess.run(argv, stdin=open(base + ".raw", "rb"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60, cwd=d)
    except subprocess.TimeoutExpired:
        raise Violation("horus_demod does not finish", {"args": argv})
    fout = open(base + ".out", "rb").read() if os.path.exists(base + ".out") else b""
    log = open(base + ".log").read().splitlines() if os.path.exists(base + ".log") else []
    for e in (".script", ".raw", ".out", ".log"):
        if os.path.exists(base + e):
            os.unlink(base + e)
    rec = {"kind": "ctool", "mode": j["mode"], "iq": j["iq"], "rate": 48000, "nins": j["nins"], "outs": j["outs"], "quiet": QUIET, "raised": "",
           "code": r.returncode, "out": list(fout if j["out"] == "file" else r.stdout), "other": list(r.stdout if j["out"] == "file" else b""),
           "verbose": False, "crcs": "-c" in j["args"], "bytes": j["bytes"], "blocks": [], "opened": [], "limits": [], "want": j["want"], "wantlimits": j["wantlimits"]}
    for x in log:
        f = x.split()
        if f[0] == "B":
            rec["blocks"].append({"n": int(f[1]), "quad": int(f[2]), "start": int(f[3]), "run": int(f[4])})
        elif f[0] == "O":
            rec["opened"].append([int(v) for v in f[1:]])
        elif f[0] == "L":
            rec["limits"].append([int(v) for v in f[1:]])
    txt = r.stdout.decode("latin1") if "-g" in j["args"] else r.stderr.decode("latin1")
    if "-g" in j["args"]:
        txt = "\n".join(x for x in txt.splitlines() if x.startswith("{"))
    else:
        txt = "\n".join(x[x.find('{"EbNodB"'):] for x in txt.splitlines() if '{"EbNodB"' in x)
    rec["stats"], rec["wantstats"] = stats_of(txt, j["mode"]), any(a.startswith("-t") or a.startswith("--stats") for a in j["args"])
    if r.returncode:
        rec["err"] = r.stderr.decode("latin1")[-1500:]
    return rec


STREAM = b"".join(((k * 40503 + 12345) & 0xFFFF).to_bytes(2, "little") for k in range(262144))


def tool_job(r, py):
    mode = r.choice(MODES)
    names = {0: ["binary", "BINARY"], 89: ["RTTY7N1", "rtty7n1"], 90: ["RTTY", "rtty", "RTTY7N2", "rtty7n2"], 91: ["RTTY8N2", "rtty8n2"]}[mode]
    iq = r.choice([0, 0, 1])
    args = r.choice([["-m", r.choice(names)], ["--mode=" + r.choice(names)], ["--mode", r.choice(names)]])
    want, lim = [mode, -7, -7], []
    if iq:
        args.append("-q")
    if r.random() < .4:
        args.append("-c")
    if py and r.random() < .25:
        args.append("-v")
    stats = r.random() < .4
    if stats:
        args.append(r.choice(["-t5", "--stats=5", "-t10", "--stats=2"]))
    if r.random() < .4:
        args.append("-g")
    if r.random() < .4:
        want[1] = r.choice([25, 50, 100, 300])
        args.append("--rate=%d" % want[1])
    if r.random() < .4:
        want[2] = r.choice([170, 270, 400])
        args.append("--tonespacing=%d" % want[2])
    if r.random() < .4:
        lo, hi = r.choice([(100, 4000), (500, 2000), (-3000, 3000), (2000, 1000), (1500, 1500), (1, 2)])
        args += ["--fsk_lower=%d" % lo, "--fsk_upper=%d" % hi]
        if hi > lo:
            lim = [[lo, hi]]
    r.shuffle(args) if all(a.startswith("-") and a not in ("-m", "--mode") for a in args) else None
    ns = nins(r)
    if sum(ns) / len(ns) < 100:
        total = r.randint(0, 4000)
    else:
        total = r.randint(0, 120000)
    nb = total // (2 * min(ns)) + 2
    return {"kind": "cli", "mode": mode, "iq": iq, "rate": 48000, "nins": ns, "outs": outs(r, mode, min(nb, 40), not py), "quiet": QUIET,
            "bytes": total, "args": args, "in": r.choice(["file", "-", "-"] + (["none"] if py else [])), "out": r.choice(["file", "-"] + (["none"] if py else [])),
            "want": want, "wantlimits": lim, "wantstats": stats}


def finish_cli(j, rec):
    rec["stats"] = []
    if not rec["raised"]:
        txt = bytes(rec["out"] + rec["other"]).decode("latin1") if "-g" in j["args"] else rec["err"]
        rec["stats"] = stats_of("\n".join(x for x in txt.splitlines() if x.startswith("{")), j["mode"])
    rec["wantstats"] = j["wantstats"]
    rec.pop("err", None)
    return rec


# ------------------------------------------------------------------ whole receivers

def build_ctool(d):
    return cc(os.path.join(d, "horus_demod"), [os.path.join(REPO, "src/horus_demod.c")], flags=["-O2"])


def e2e(ck, cases, which):
    """cases: {mode, packets, sent, opt, pyargs}; which: list of (name, argv builder, env)"""
    gen = modem.build_fskgen(ck.dir)

    def one(ic):
        i, c = ic
        fn = os.path.join(ck.dir, "e2e-%d.raw" % i)
        modem.modulate(gen, fn, modem.on_air(c["mode"], c["packets"]), c["mode"], **c["opt"])
        res = []
        for name, argv, env in which(c):
            outf = fn + "." + name
            io = c["io"]
            try:
                r = subprocess.run(argv + [fn if io[0] == "file" else "-", outf if io[1] == "file" else "-"], stdin=open(fn, "rb") if io[0] != "file" else subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=300, cwd="/tmp")
            except subprocess.TimeoutExpired:
                raise Violation("%s does not finish" % name, {"argv": argv})
            if r.returncode:
                raise Violation("%s ends with status %d: %s" % (name, r.returncode, r.stderr.decode("latin1")[-600:]), {"argv": argv})
            o = open(outf, "rb").read() if io[1] == "file" else r.stdout
            if io[1] == "file":
                os.unlink(outf)
            res.append({"kind": "e2e", "raised": "", "mode": c["mode"], "sent": [list(x) for x in c["sent"]], "out": list(o), "tool": name, "opt": {k: str(v) for k, v in c["opt"].items()}})
        os.unlink(fn)
        return res
    with ThreadPoolExecutor(8) as ex:
        return [x for y in ex.map(one, enumerate(cases)) for x in y]
