#!/usr/bin/env python3
"""C35: what a program of the station holds (memory, files, threads) does not grow with how long it has run."""
import binascii, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from concurrent.futures import ThreadPoolExecutor
from common import *
import front, live, modem, pyenv, rx, uper, uploader

NAME = {0: "binary", 89: "RTTY7N1", 90: "RTTY7N2", 91: "RTTY8N2"}
WARM, LATER = 14, 26
UNIT = 16
NATIVE, PYTHON = (0, 48), (40, 400)      # by how much the objects and the memory held at rest may vary (Python's heap is not exact)


class Probe:
    """asks the preloaded probe of a program what it holds"""
    def __init__(self, path):
        self.path = path
        for x in (".ask", ".say"):
            if os.path.exists(path + x):
                os.unlink(path + x)
            os.mkfifo(path + x)
        self.ask, self.say = (os.open(path + x, os.O_RDWR | os.O_NONBLOCK) for x in (".ask", ".say"))

    def mem(self):
        """objects held, memory in use"""
        os.write(self.ask, b"?")
        s, end = b"", time.time() + 60
        while not s.endswith(b"\n"):
            try:
                s += os.read(self.say, 100)
            except BlockingIOError:
                if time.time() > end:
                    raise ToolError("the probe does not answer")
                time.sleep(0.002)
        n, m = map(int, s.split())
        return n, m // UNIT

    def close(self):
        for fd in (self.ask, self.say):
            os.close(fd)
        for x in (".ask", ".say"):
            os.unlink(self.path + x)


def asleep(pid):
    try:
        with open("/proc/%d/task/%d/stat" % (pid, pid)) as f:
            return f.read().rsplit(")", 1)[1].split()[0] == "S"
    except OSError:
        return True


def rests(st, limit=60):
    """until everything given has been read and the program waits for more"""
    end, calm = time.time() + limit, 0
    while calm < 3 and time.time() < end:
        got = st.pump()
        calm = 0 if got or st.pending() or not asleep(st.procs[0].pid) else calm + 1
        time.sleep(0.015)


def look(st, pr, most, tries, slack):
    """what it holds; again if that is more than before, in case it is not quite at rest (an upload may be under way)"""
    pid, best = st.procs[0].pid, None
    for k in range(tries):
        time.sleep(0.02 + 0.01 * k)
        s = pr.mem() + (len(os.listdir("/proc/%d/fd" % pid)), len(os.listdir("/proc/%d/task" % pid)))
        best = tuple(min(x) for x in zip(best or s, s))
        if k and (most is None or all(x <= y + d // 2 for x, y, d in zip(best, most, slack + (0, 0)))):
            break
    return best


def live_long(ck, i, name, argv, pieces, least, mark, slack, env=None, show=None):
    """run it, one cycle per piece"""
    pr = Probe(os.path.join(ck.dir, "steady-%d" % i))
    e = dict(os.environ if env is None else env, LD_PRELOAD=os.path.join(ck.dir, "steadyprobe.so"), STEADY_PIPE=pr.path, PYTHONMALLOC="malloc", PYTHONHASHSEED="0", GLIBC_TUNABLES="glibc.malloc.tcache_count=0")
    st = live.Stage([argv], {"out": lambda out, f: []}, env=e)
    rec = {"name": name, "warm": WARM, "slack": slack[0], "memslack": slack[1], "least": least, "work": [], "samples": []}
    most, over = None, 0
    try:
        for p in pieces:
            st.give(p)
            rests(st)
            if st.broken or st.procs[0].poll() is not None:
                break
            rec["work"].append(mark(st.out))
            st.out = b""
            x = look(st, pr, most, 2 if over > 9 else 15, slack)
            over += most is not None and any(x > y + d // 2 for x, y, d in zip(x, most, slack + (0, 0)))
            if len(rec["samples"]) < WARM:
                most = tuple(max(y) for y in zip(most or x, x))
            rec["samples"].append(dict(zip(("held", "mem", "fds", "threads"), x)))
        st.src.close()
        st.wait()
    finally:
        st.close()
        pr.close()
    if os.environ.get("C35_DEBUG"):
        print("%5.1f" % (time.time() - ck.t0), name, "work", rec["work"], [tuple(s.values()) for s in rec["samples"]], flush=True)
    return rec


def receiver(ck, r, i, exe, env, gen, frames):
    """a receiver (C or Python) that hears another packet, or another sentence, in every cycle, some of them damaged"""
    mode = front.MODES[i // 2 % 4] if i % 3 else 0
    p = rx.PARAMS[mode]
    quad, py, n = i // 2 % 2, i % 2, WARM + LATER
    bits, ends = "", []
    for k in range(n):
        if mode == 0:
            gap = "".join("".join(q) for q in (r.sample(["00", "01", "10", "11"], 4) for _ in range(80)))
            sent = [rx.bits_of(f) for f in r.sample([f for t, f in frames], 2)]
        else:
            gap = rx.rtty_bits(mode, bytes(r.choice(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") for _ in range(12)))
            sent = [rx.rtty_bits(mode, rx.sentence(rx.random_body(r, r.randint(20, 60)), 2)) for _ in range(2)]
        bad = sent[1]
        for _ in range(r.randint(1, 60)):
            x = r.randrange(len(bad))
            bad = bad[:x] + str(1 - int(bad[x])) + bad[x + 1:]
        bits += gap + sent[0] + gap + bad
        bits += "01" * (len(bits) % 2)
        ends.append(len(bits))
    fn = os.path.join(ck.dir, "steady-%d.raw" % i)
    modem.modulate(gen, fn, bits, mode, f0=r.randrange(700, 1500), shift=270 if mode == 0 else 450, amp=8000, lead=0, seed=i + 1, quad=quad, noise=50)
    data = open(fn, "rb").read()
    os.unlink(fn)
    at = [0] + [e * (240 if mode == 0 else 480) * (2 + 2 * quad) for e in ends]
    args = ["--mode=%s" % NAME[mode]] + (["--tonespacing=270"] if mode == 0 else []) + ["-q"] * quad + ["-c"] * (r.random() < .3) + ["--stats=%d" % r.choice([2, 5]), "-g"] * (r.random() < .6)
    if not py:
        args += ["-v"] * (r.random() < .3)
    return ("%s %s" % ("demod.py" if py else "horus_demod", " ".join(args)), ([HVENV, "-m", "horusdemodlib.demod"] if py else [exe]) + args + ["-", "-"],
            [data[a:b] for a, b in zip(at, at[1:])], 0, lambda out: out.count(b"\n"), PYTHON if py else NATIVE, env.env if py else None)


def station(ck, r, i, env):
    """the uploader: every cycle brings packets of all kinds, statistics and rubbish, while the network answers well and badly"""
    d = os.path.join(ck.dir, "steady-station-%d" % i)
    os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, "user.cfg")
    with open(cfg, "w") as f:
        f.write("[user]\ncallsign = TESTER\nstation_lat = -34.0\nstation_lon = 138.0\nradio_comment = a\nantenna_comment = b\n[horus_udp]\nsummary_port = 55672\nozimux_port = 55683\n")
    g = uploader.Gen(r, "plain")
    o = [x["enc"][0] for x in env.call("py_v3enc.py", {"recs": [{"msg": dict(uper.message(r), call=uper.codes("N0CALL")), "dec": []} for _ in range(3 * (WARM + LATER))]}) if x["enc"]]
    v3 = [(binascii.crc_hqx(bytes(b), 0xffff).to_bytes(2, "little") + bytes(b)).hex().encode() for b in o]
    t0 = 1760000000 + r.randrange(10**6)
    pieces = []
    ids = [0, 256, 300]
    for k in range(WARM + LATER):
        t = (t0 + k * 20) * 4
        lines = [g.bin(t, [256])[0]]                 # one that is heard whatever else happens
        for _ in range(5):
            lines += [g.bin(t, [r.choice([0, 256])])[0], g.text(t)[0], g.bin(t, [r.choice([300, 40000])])[0], r.randbytes(r.choice([22, 32])).hex().encode(),
                      b"$$BROKEN,%d,12:00:00*0000" % r.randrange(10**6), r.choice([b"", b"zz", b"{", b'{"EbNodB": "x%d"}' % k, b"\xff\xfe"[:0] + b"junk %d" % r.randrange(10**6)]),
                      b'{"EbNodB": %.1f, "ppm": 1, "f1_est": %d.0, "f2_est": 1270.0, "f3_est": 1540.0, "f4_est": 1810.0, "samp_fft": [0]}' % (r.uniform(0, 9), 900 + r.randrange(99))]
        lines += r.sample(v3, 3)
        r.shuffle(lines)
        lines += [g.text(t)[0], g.bin(t, [256])[0]]            # the last ones may stay known
        pieces.append(b"".join(x.strip() + b"\n" for x in lines))
    pl, cf = "# HORUS BINARY PAYLOAD ID LIST\n0, 4FSKTEST\n256, 4FSKTEST-V2\n300, N-300\n", json.dumps({"N-300": {"struct": "<B8x", "fields": [["x", "none"]]}})
    ok, no = {"GET": [[200, pl], [200, cf]], "PUT": [[200, "{}"]]}, {"GET": ["conn", [404, "no"], [200, "<html>"], [200, "{"]], "PUT": [[500, "e"], "conn", [202, '{"errors": [{"error_message": "bad"}], "warnings": [{"warning_message": "w"}]}'], [404, "x"], [202, "nonsense"], [503, ""]]}
    e = dict(env.env, STEADY_T0=str(t0), STEADY_ANSWERS=json.dumps({"GET": r.choice([ok, no])["GET"], "PUT": [[[503, ""]], ["conn"], no["PUT"]][i // 2 % 3] if i % 2 else ok["PUT"]}))
    args = ["-c", cfg, "--log", os.path.join(d, "log") if r.random() < .7 else "none", "--debuglog", os.path.join(d, "debug"), "--payload-list", os.path.join(d, "ids.txt"), "--custom-fields", os.path.join(d, "cf.json")]
    args += [[], ["--noupload"], ["--nodownload"], ["-v"], ["--rtty"], ["--freq_hz", "434200000", "--baud_rate", "100"]][i % 6]
    return "uploader " + " ".join(args[10:]) + (" (bad network)" if i % 2 else ""), [HVENV, os.path.join(VERIF, "harness/py/py_steady.py")] + args, pieces, 1, lambda out: out.count(b"U\n"), (PYTHON[0], 8000), e


def life(ck, r, i, env, exe, gen):
    """receivers opened and closed again and again"""
    fn = os.path.join(ck.dir, "steady-life-%d.raw" % i)
    modem.modulate(gen, fn, "".join(r.choice("01") for _ in range(600)), 0, f0=900, shift=270, amp=8000, seed=i + 1)
    cyc = b"".join(b"%d %d\n" % (m, q) for m in front.MODES for q in (0, 1))
    py = i % 2
    return ("lives of receivers (%s)" % ("Python" if py else "C"), ([HVENV, os.path.join(VERIF, "harness/py/py_steadylife.py")] if py else [exe]) + [fn], [cyc] * (WARM + LATER), 8,
            lambda out: out.count(b"U\n"), PYTHON if py else NATIVE, env.env if py else None)


def tools(ck, r, i, demod, mod, gen):
    M = r.choice([2, 4])
    fs, rs = r.choice([(48000, 100), (8000, 100), (48000, 300)])
    per, n = 200, WARM + LATER
    if i % 2:
        data, size, argv = bytes(r.randrange(2) for _ in range(per * n)), per, [mod, str(M), str(fs), str(rs), "1000", "270", "-", "-"]
    else:
        fn = os.path.join(ck.dir, "steady-tool-%d.raw" % i)
        modem.modulate(gen, fn, "".join(str(r.randrange(2)) for _ in range(per * n * (M // 2))), 0 if M == 4 else 90, f0=800, shift=rs * 2, fs=fs, rs=rs, amp=8000, seed=i + 1)
        data = open(fn, "rb").read()
        os.unlink(fn)
        size, argv = per * fs // rs * 2, [demod] + r.choice([[], ["-s"], ["-t"], ["-t5"]]) + ["-p", "8" if fs // rs % 8 == 0 else "10"] + [str(M), str(fs), str(rs), "-", "-"]
    return os.path.basename(argv[0]) + " " + " ".join(argv[1:]), argv, [data[k * size:(k + 1) * size] for k in range(n)], 1, len, NATIVE, None


def check(ck):
    T = thorough()
    env = pyenv.build(ck.dir)
    exe, gen = front.build_ctool(ck.dir), modem.build_fskgen(ck.dir)
    S = lambda f: os.path.join(REPO, "src", f)
    demod = cc(os.path.join(ck.dir, "fsk_demod"), [S("fsk_demod.c"), S("modem_probe.c"), S("octave.c")], flags=["-O2"])
    mod = cc(os.path.join(ck.dir, "fsk_mod"), [S("fsk_mod.c")], flags=["-O2"])
    lives = cc(os.path.join(ck.dir, "steadylife"), [os.path.join(VERIF, "harness/c/steadylife.c")], flags=["-O2"])
    run(["gcc", "-O2", "-shared", "-fPIC", "-o", os.path.join(ck.dir, "steadyprobe.so"), os.path.join(VERIF, "harness/c/steadyprobe.c"), "-lpthread", "-ldl"])
    ck.spec(must_hold(tlc("SteadyDesign", timeout=120), "SteadyDesign"), "SteadyDesign")
    if tlc("SteadyDesign", cfg="SteadyDesignKept", timeout=120).rc != 12:
        raise ToolError("a program that keeps a little of every bad item should be noticed")
    r = rng("c35")
    frames = rx.gen_frames(ck, [(r.randbytes(n - 2), c) for n, c in [(22, "tail"), (32, "tail"), (32, "head"), (48, "head")] for _ in range(3)])
    n = (48, 24, 8, 16) if T else (12, 6, 2, 6)
    make = [lambda i: receiver(ck, rng("c35r%d" % i), i, exe, env, gen, frames), lambda i: station(ck, rng("c35s%d" % i), i, env),
            lambda i: life(ck, rng("c35l%d" % i), i, env, lives, gen), lambda i: tools(ck, rng("c35t%d" % i), i, demod, mod, gen)]

    def one(ki):
        k, i = ki
        name, argv, pieces, least, mark, slack, e = make[k](i)
        return live_long(ck, 1000 * k + i, name, argv, pieces, least, mark, slack, env=e)
    with ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(one, [(k, i) for k in (1, 2, 0, 3) for i in range(n[k])]))
    ck.count("program_runs", len(recs))
    ck.count("cycles", sum(len(x["samples"]) for x in recs))
    ck.count("items_handed_on", sum(sum(x["work"]) for x in recs if "fsk" not in x["name"]))
    ck.sample({k: (recs[0][k][:5] if isinstance(recs[0][k], list) else recs[0][k]) for k in recs[0]})
    validate_records(ck, "SteadyTrace", recs, "programs", what="a program holds more the longer it runs", describe=lambda x: json.dumps({"name": x["name"], "work": x["work"], "samples": [list(s.values()) for s in x["samples"]]})[:1500])


main("C35", check)
