#!/usr/bin/env python3
"""C34: every program of the pipeline hands on what it has at once, and ends with its input."""
import os, struct, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from concurrent.futures import ThreadPoolExecutor
from common import *
import front, live, modem, pyenv, rx

NAME = {0: "binary", 89: "RTTY7N1", 90: "RTTY7N2", 91: "RTTY8N2"}


def cut(r, data, at):
    """data in pieces: a boundary everywhere in at, and some others, not all of them between samples"""
    b = sorted({x for x in at if 0 < x < len(data)} | {r.randrange(1, len(data)) for _ in range(r.randint(2, 8))} | {0, len(data)})
    return [data[i:j] for i, j in zip(b, b[1:])]


def on_air(r, mode, n, frames):
    """bits, and the packets with the bits they occupy"""
    p = rx.PARAMS[mode]
    idle = (lambda k: "".join("".join(q) for q in (r.sample(["00", "01", "10", "11"], 4) for _ in range(k // 8 + 1)))) if mode == 0 else \
        (lambda k: rx.rtty_bits(mode, bytes(r.choice(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") for _ in range(k // p["cl"] + 1))))
    if mode == 0:
        bits = idle(1600)
        sent = r.sample(frames, n)
    else:
        warm = bytes(r.choice(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") for _ in range(60))
        bits = "1" * 100 + rx.rtty_bits(mode, warm)
        sent = [(s, s) for s in (rx.sentence(rx.random_body(r, r.randint(14, 70)), 2) for _ in range(n))]
    at = []
    for payload, f in sent:
        b = rx.bits_of(f) if mode == 0 else rx.rtty_bits(mode, f)
        at.append((payload.hex().upper().encode() if mode == 0 else payload.strip(), len(bits), len(bits) + len(b)))
        bits += b + idle(r.choice([60, p["window"] // 2, p["window"]]))
    return bits + idle(p["window"] + 4 * p["block"]), at


def receiver(ck, r, i, exe, env, gen, frames):
    """one receiver: (name, argv, items, pieces, streams, ...)"""
    mode = front.MODES[i % 4] if i % 3 else 0
    p = rx.PARAMS[mode]
    quad, py = i // 2 % 2, i % 2
    bits, at = on_air(r, mode, r.randint(2, 4), frames)
    fn = os.path.join(ck.dir, "live-%d.raw" % i)
    modem.modulate(gen, fn, bits, mode, f0=r.randrange(700, 1500), shift=270 if mode == 0 else 450, amp=8000, lead=0, seed=i + 1, quad=quad, noise=50)
    data = open(fn, "rb").read()
    os.unlink(fn)
    spb, unit = (240 if mode == 0 else 480), 2 + 2 * quad
    block = spb * p["block"]
    items = {"packets": [{"id": k + 1, "from": (a + b) // 2 * spb, "by": (a + p["window"]) * spb + 3 * block} for k, (t, a, b) in enumerate(at)]}
    text = [t for t, a, b in at]
    tofile = r.random() < .35
    args = [("--mode=%s" % NAME[mode])] + (["--tonespacing=270"] if mode == 0 else []) + ["-q"] * quad + ["-c"] * (r.random() < .3)
    stats = r.random() < .6
    if stats:
        args += ["--stats=%d" % r.choice([4, 5, 8]), "-g"]
        items["stats"] = [{"id": k + 1, "from": k * block // 2, "by": (k + 1) * block + block // 3} for k in range(len(data) // unit // block + 4)]

    def packets(out, f):
        res = []
        for ln in (f if tofile else out).split(b"\n")[:-1]:
            if ln[:1] != b"{":
                t = ln.replace(b"  CRC OK", b"").strip()
                hit = [k + 1 for k, x in enumerate(text) if x.strip(b"$") == t.strip(b"$")]
                res.append(hit[0] if hit else 0)
        return res
    streams = {"packets": packets, "stats": lambda out, f: list(range(1, sum(ln[:1] == b"{" for ln in out.split(b"\n")[:-1]) + 1))}
    fo = os.path.join(ck.dir, "live-%d.out" % i)
    fifo = os.path.join(ck.dir, "live-%d.in" % i) if not tofile and r.random() < .35 else None      # a recording still being made
    argv = ([HVENV, "-m", "horusdemodlib.demod"] if py else [exe]) + args + [fifo or "-", fo if tofile else "-"]
    if os.path.exists(fo):
        os.unlink(fo)
    pieces = cut(r, data, [x["by"] * unit for x in items["packets"]])
    gone = None
    if not tofile and i % 5 == 4:
        gone = 2
        pieces = cut(r, data, [x["by"] * unit for x in items["packets"]] + [1000])
    return dict(name="%s %s" % ("demod.py" if py else "horus_demod", " ".join(args)), fifo=fifo, argvs=[argv], items=items, pieces=pieces,
                streams={k: streams[k] for k in items}, env=env.env if py else None, file=fo if tofile else None, gone=gone, unit=unit)


def tod():
    return time.gmtime()[3:6]


def packet(r, n):
    """a v2 packet or a sentence with altitude n"""
    if r.random() < .5:
        p = struct.pack("<HH3BffHBBbB9s", 256, n, *tod(), r.uniform(-80, 80), r.uniform(-170, 170), n, 0, 4, 20, 200, bytes(9))
        return (p + struct.pack("<H", rx.crc16(p))).hex().upper().encode()
    b = b"N0CALL,%d,%02d:%02d:%02d,%.5f,%.5f,%d,1,2" % ((n,) + tuple(tod()) + (r.uniform(-80, 80), r.uniform(-170, 170), n))
    return b"$$" + b + b"*%04X" % rx.crc16(b)


def station(ck, i, log):
    d = os.path.join(ck.dir, "station-%d" % i)
    os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, "user.cfg")
    with open(cfg, "w") as f:
        f.write("[user]\ncallsign = TESTER\nstation_lat = -34.0\nstation_lon = 138.0\nradio_comment = a\nantenna_comment = b\n[horus_udp]\nsummary_port = 55672\nozimux_port = 55683\n")
    return [HVENV, os.path.join(VERIF, "harness/py/py_live.py"), "-c", cfg, "--nodownload", "--log", log, "--payload-list", os.path.join(d, "none.txt"), "--custom-fields", os.path.join(d, "none.json")]


def told(letter):
    return lambda out, f: [int(x[2:]) for x in out.split(b"\n")[:-1] if x[:2] == letter]


def logged(out, f):
    return [int(x.split(b",")[5].split(b"*")[0]) if x.count(b",") > 4 else -1 for x in f.split(b"\n")[:-1]]


def uploader(ck, r, i, env):
    lines, items, at, n = [], [], 0, 0
    for k in range(r.randint(6, 14)):
        x = r.random()
        if x < .6:
            n += 1
            ln = packet(r, 100 + n)
        elif x < .8:
            ln = b'{"EbNodB": 5.0, "ppm": 1, "f1_est": 1000.0, "f2_est": 1270.0, "f3_est": 1540.0, "f4_est": 1810.0, "samp_fft": [0]}'
        else:
            ln = r.choice([b"", b"zz", b"$$broken", b"00112233"])
        lines.append(ln + b"\n")
        at += len(lines[-1])
        if x < .6:
            items.append({"id": 100 + n, "from": at - 1, "by": at})
    data, ends, e = b"".join(lines), [], 0
    for ln in lines:
        e += len(ln)
        ends.append(e)
    log = os.path.join(ck.dir, "station-%d.log" % i)
    if os.path.exists(log):
        os.unlink(log)
    return dict(name="uploader", argvs=[station(ck, i, log)], items={"udp": items, "log": items, "upload": items}, pieces=cut(r, data, r.sample(ends, max(2, len(ends) // 2)) + ends[-1:]),
                streams={"udp": told(b"U "), "log": logged, "upload": told(b"P ")}, env=env.env, file=log)


def flight(r, i):
    """three packets' contents, altitudes 100 to 102"""
    for k in range(3):
        p = struct.pack("<HH3BffHBBbB9s", 256, k, *tod(), r.uniform(-80, 80), r.uniform(-170, 170), 100 + k, 0, 4, 20, 200, bytes(9))
        yield p, "tail"


def whole(ck, r, i, exe, env, gen, sent):
    """signal in, telemetry out: the whole pipeline of a start script"""
    bits, at = on_air(r, 0, 3, sent)
    order = [struct.unpack("<H", bytes.fromhex(t.decode())[15:17])[0] for t, a, b in at]
    fn = os.path.join(ck.dir, "whole-%d.raw" % i)
    modem.modulate(gen, fn, bits, 0, f0=1000, shift=270, amp=8000, quad=1, seed=i + 1, noise=50)
    data = open(fn, "rb").read()
    os.unlink(fn)
    items = [{"id": n, "from": (a + b) // 2 * 240, "by": (a + 3740) * 240 + 72000} for n, (t, a, b) in zip(order, at)]
    log = os.path.join(ck.dir, "whole-%d.log" % i)
    if os.path.exists(log):
        os.unlink(log)
    demod = [HVENV, "-m", "horusdemodlib.demod"] if i % 2 else [exe]
    return dict(name="pipeline", argvs=[demod + ["-q", "--stats=5", "-g", "-m", "binary", "--tonespacing=270", "--fsk_lower=100", "--fsk_upper=4000", "-", "-"], station(ck, 100 + i, log)],
                items={"udp": items, "log": items, "upload": items}, pieces=cut(r, data, [x["by"] * 4 for x in items]), streams={"udp": told(b"U "), "log": logged, "upload": told(b"P ")}, env=env.env, file=log, unit=4)


def tools(ck, r, i, demod, mod, gen):
    """the bit level tools: blocks of what they make of the same input in one go"""
    M = r.choice([2, 4])
    fs, rs = r.choice([(48000, 100), (8000, 100), (48000, 300)])
    per = M // 2
    nsym = 50
    if i % 2:
        bits = bytes(r.randrange(2) for _ in range(nsym * per * r.randint(4, 9) + r.randrange(nsym * per)))
        argv, data, unit = [mod, str(M), str(fs), str(rs), "1000", "270"], bits, 1
        size, step, slack = nsym * fs // rs * 2, nsym * per, 0
    else:
        n = nsym * r.randint(8, 14)
        fn = os.path.join(ck.dir, "tool-%d.raw" % i)
        modem.modulate(gen, fn, "".join(str(r.randrange(2)) for _ in range(n * per)), 0 if M == 4 else 90, f0=800, shift=rs * 2, fs=fs, rs=rs, amp=8000, seed=i + 1)
        data, unit = open(fn, "rb").read(), 2
        os.unlink(fn)
        soft = r.random() < .4
        argv = [demod] + ["-s"] * soft + ["-p", "8" if fs // rs % 8 == 0 else "10"] + [str(M), str(fs), str(rs)]
        size, step, slack = nsym * per * (4 if soft else 1), nsym * fs // rs, 2 * nsym * fs // rs
    ref = run(argv + ["-", "-"], input=data, text=False).stdout
    blocks = [ref[k:k + size] for k in range(0, len(ref), size)]
    items = [{"id": k + 1, "from": (k + 1) * step - slack if len(b) == size else len(data) // unit, "by": (k + 1) * step + slack if len(b) == size else 10**8} for k, b in enumerate(blocks)]

    def ids(out, f):
        return [k + 1 if k < len(blocks) and out[k * size:(k + 1) * size] == blocks[k] else 0 for k in range(len(out) // size)]
    return dict(name=os.path.basename(argv[0]) + " " + " ".join(argv[1:]), argvs=[argv + ["-", "-"]], items={"blocks": [x for x in items if x["by"] < 10**8]},
                pieces=cut(r, data, [x["by"] * unit for x in r.sample(items, len(items) // 2)]), streams={"blocks": ids}, unit=unit)


def check(ck):
    T = thorough()
    r = rng("c34")
    env = pyenv.build(ck.dir)
    exe, gen = front.build_ctool(ck.dir), modem.build_fskgen(ck.dir)
    S = lambda f: os.path.join(REPO, "src", f)
    demod = cc(os.path.join(ck.dir, "fsk_demod"), [S("fsk_demod.c"), S("modem_probe.c"), S("octave.c")], flags=["-O2"])
    mod = cc(os.path.join(ck.dir, "fsk_mod"), [S("fsk_mod.c")], flags=["-O2"])
    ck.spec(must_hold(tlc("PipeDesign", timeout=120), "PipeDesign"), "PipeDesign")
    if tlc("PipeDesign", cfg="PipeDesignHeld", timeout=120).rc != 12:
        raise ToolError("a pipeline that does not flush should hold something back")
    kinds = [(22, "tail"), (32, "tail"), (32, "head"), (48, "head"), (128, "head")]
    frames = rx.gen_frames(ck, [(r.randbytes(n - 2), c) for n, c in kinds for _ in range(3)])
    n = (160, 40, 10, 60) if T else (40, 8, 4, 16)
    fl = rx.gen_frames(ck, [x for i in range(n[2]) for x in flight(r, i)], "flights")
    make = [lambda i: receiver(ck, rng("c34r%d" % i), i, exe, env, gen, frames), lambda i: uploader(ck, rng("c34u%d" % i), i, env),
            lambda i: whole(ck, rng("c34w%d" % i), i, exe, env, gen, fl[3 * i:3 * i + 3]), lambda i: tools(ck, rng("c34t%d" % i), i, demod, mod, gen)]

    def one(ki):
        k, i = ki
        j = make[k](i)
        t = time.time()
        x = live.watch(**j)
        if os.environ.get("C34_DEBUG"):
            print("%6.1f s %6.1f s %s" % (time.time() - ck.t0, time.time() - t, j["name"]))
        return x
    jobs = [(k, i) for k in (1, 2, 0, 3) for i in range(n[k])]
    with ThreadPoolExecutor(16) as ex:
        recs = [x for y in ex.map(one, jobs) for x in y]
    ck.count("program_runs", len(jobs))
    ck.count("items_handed_on", sum(len(s["got"]) for x in recs for s in x["steps"]))
    ck.count("pauses", sum(len(x["steps"]) for x in recs))
    if os.environ.get("C34_DEBUG"):
        for x in recs:
            print(x["name"], [(s["given"], s["got"]) for s in x["steps"]], x["after"], [i["by"] for i in x["items"]], x["gone"], x["ended"], x["code"])
    ck.sample({k: recs[0][k] for k in ("name", "items", "steps")})
    validate_records(ck, "LiveTrace", recs, "programs", what="a program of the pipeline holds back what it has, or does not end", describe=lambda x: json.dumps({k: v for k, v in x.items() if k != "items"})[:900])


main("C34", check)
