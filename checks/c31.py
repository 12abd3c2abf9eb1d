#!/usr/bin/env python3
"""C31: the start scripts set up a station that hears every configured signal and reports it on its true frequency."""
import argparse, getopt, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import pyenv
from rx import crc16

NOBODY = 65534
ONE, TWO, MIX = [("RXFREQ", "binary")], [("MFSK1_SIGNAL", "binary"), ("MFSK2_SIGNAL", "binary")], [("RTTY_SIGNAL", "rtty"), ("MFSK_SIGNAL", "binary")]
# script: (which variables hold the signals, where the settings come from, the radio program, passes its own arguments on)
SCRIPTS = {
    "start_rtlsdr.sh": (ONE, "file", "rtl_fm", True),
    "start_dual_4fsk.sh": (TWO, "file", "rtl_fm", False),
    "start_dual_rtty_4fsk.sh": (MIX, "file", "rtl_fm", False),
    "start_triple_4fsk.sh": ([("MFSK%d_SIGNAL" % i, "binary") for i in (1, 2, 3)], "file", "rtl_fm", False),
    "start_eight_4fsk.sh": ([("MFSK%d_SIGNAL" % i, "binary") for i in range(1, 9)], "file", "rtl_fm", False),
    "start_gqrx.sh": ([("MODE", "")], "file", "nc", True),
    "scripts/docker_single.sh": (ONE, "env", "rtl_fm", True),
    "scripts/docker_soapy_single.sh": (ONE, "env", "rx_fm", True),
    "scripts/docker_ka9q_single.sh": (ONE, "env", "pcmrecord", True),
    "scripts/docker_dual_4fsk.sh": (TWO, "env", "rtl_fm", False),
    "scripts/docker_dual_rtty_4fsk.sh": (MIX, "env", "rtl_fm", False),
}
NAMES = ["rtl_fm", "rx_fm", "nc", "pcmrecord", "tune", "pkill", "kill", "killall", "horus_demod", "horus_uploader", "python", "python3"]


class Quiet(argparse.ArgumentParser):
    def error(self, message):
        raise ValueError(message)


def demod_args(a):
    p = Quiet(add_help=False)
    p.add_argument("-m", "--mode", default="binary")
    p.add_argument("--sample-rate", default=48000, type=int)
    p.add_argument("--rate", default=100, type=int)
    p.add_argument("--tonespacing", default=-1, type=int)
    p.add_argument("-t", "--stats", default=None, nargs="?", const=8, type=int)
    for f in "gqvc":
        p.add_argument("-" + f, action="store_true")
    p.add_argument("-u", "--fsk_upper", type=int, default=0)
    p.add_argument("-b", "--fsk_lower", type=int, default=0)
    p.add_argument("input", nargs="?", default="-")
    p.add_argument("output", nargs="?", default="-")
    return p.parse_args(a)


def uploader_args(a):
    p = Quiet(add_help=False)
    for n in ("--config", "--log", "--debuglog", "--payload-list", "--custom-fields"):
        p.add_argument(*(["-c"] if n == "--config" else []), n)
    p.add_argument("--freq_hz", type=float, default=0)
    p.add_argument("--freq_target_hz", type=float, default=0)
    p.add_argument("--baud_rate", type=int)
    for n in ("--noupload", "--rtty", "--nodownload"):
        p.add_argument(n, action="store_true")
    p.add_argument("-v", "--verbose", action="store_true")
    return p.parse_args(a)


def config(r, script, k):
    """Settings for one start: (variables, configuration record)."""
    sigs, _, radio, passes = SCRIPTS[script]
    v, c = {}, {"known": radio != "nc", "broken": False, "passargs": passes, "args": []}
    if passes and k % 2:
        c["args"] = r.choice([["--noupload"], ["--nodownload", "-v"], ["--log", "none"], ["--config", "my.cfg", "--noupload"], ["--baud_rate", "100"]])
    if radio == "nc":
        v["MODE"] = r.choice(["binary", "rtty"])
        c.update(bw=0, signals=[{"freq": 0, "mode": v["MODE"]}], gain=-1, bias=False, ppm=0, device="")
        return v, c
    n = len(sigs)
    rx = r.choice([434200000, 432622500, 144000000 + r.randrange(2000000), 400000000 + r.randrange(60000000), 24000000 + r.randrange(1700000000)])
    if n == 1:
        bw = r.choice([10000, 2000, 5000, 8000, 12500, 20000, 2 * r.randrange(1000, 10000), 2 * r.randrange(1000, 10000) + 1])
        c["signals"] = [{"freq": rx, "mode": sigs[0][1]}]
    else:
        bw = r.choice([2000, 4000, 5000, 1500, r.randrange(1000, 5200)])
        slots = list(range(-23000 + bw // 2, 23000 - bw // 2, bw + 50))
        if radio == "rtl_fm" and n == 2 and r.random() < .6:
            slots = [x for x in slots if x > bw]                  # "located above the centre frequency"
        offs = r.sample(slots, n)
        if k % 3:
            offs.sort()
        for (name, _), o in zip(sigs, offs):
            v[name] = str(o)
        c["signals"] = [{"freq": rx + o, "mode": m} for (_, m), o in zip(sigs, offs)]
    v["RXFREQ"], v["RXBANDWIDTH"] = str(rx), str(bw)
    c["bw"] = bw
    gain = r.choice([0, 0, 20, 40, 7])
    v["GAIN"], c["gain"] = str(gain), gain if gain else -1
    bias = r.random() < .4
    v["BIAS"], c["bias"] = str(int(bias)), bias
    c["ppm"] = r.choice([0, 0, 1, -3, 55])
    v["PPM"] = str(c["ppm"])
    c["device"] = v["SDR_DEVICE"] = r.choice(["0", "1", "00000103", "stn7"])
    v["STATS_OUTPUT"] = r.choice("01")
    if radio == "rx_fm":
        d = r.choice(["driver=rtlsdr", "driver=airspy", "serial=%d" % r.randrange(10**6)])
        v["SDR_EXTRA"], c["device"] = "-d " + d, d
    if radio == "pcmrecord":
        c["device"] = v["SDR_DEVICE"] = r.choice(["radio-pcm.local", "rx1-pcm.local"])
        c.update(gain=-1, bias=False, ppm=0)
    return v, c


def run(job):
    script, v, c, missing, stub, top, realpy = job
    d = tempfile.mkdtemp(dir=top)
    bin_, logd, cwd = (os.path.join(d, x) for x in ("bin", "log", "cwd"))
    for x in (bin_, logd, cwd):
        os.mkdir(x)
    for n in NAMES:
        if n != missing:
            os.symlink(stub, os.path.join(bin_, n))
    s = open(os.path.join(REPO, script)).read()
    env = {"PATH": bin_ + ":/usr/bin:/bin", "HOME": cwd, "STATION_LOG": logd, "STATION_BYTES": "300000", "STATION_SAID": os.path.join(top, "said"), "STATION_PYTHON": realpy, "LC_ALL": "C"}
    if SCRIPTS[script][1] == "env":
        env.update(v, DECODER="horus_demod")
        env["STATION_DECODER"] = "horus_demod"
    else:
        for name, val in v.items():
            if name == "STATS_OUTPUT":
                continue
            s, n = re.subn(r"(?m)^(\s*)%s=.*$" % name, lambda m: '%s%s=%s' % (m.group(1), name, '"%s"' % val if name == "MODE" else val), s)
            if n != 1:
                shutil.rmtree(d)
                return None                                       # the script no longer has this setting where users find it
    path = os.path.join(d, "station.sh")
    open(path, "w").write(s)
    for root, ds, fs in os.walk(d):
        os.chown(root, NOBODY, NOBODY)
    with open(os.path.join(d, "err"), "w") as err:
        # as an unprivileged user: whatever the script does, it can reach nothing but this directory
        p = subprocess.Popen(["bash", path] + c["args"], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err,
                             user=NOBODY, group=NOBODY, extra_groups=[], start_new_session=True)
        try:
            rc = p.wait(60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc = -1
    # process substitutions outlive the script: wait until what was started has ended
    end = time.time() + 30
    quiet = 0
    while time.time() < end:
        fs = os.listdir(logd)
        if all(open(os.path.join(logd, f)).read().endswith("end\n") for f in fs):
            quiet += 1
            if quiet > (12 if not missing else 3):
                break
        else:
            quiet = 0
        time.sleep(.05)
    runs = []
    for f in sorted(os.listdir(logd), key=int):
        lines = open(os.path.join(logd, f)).read().splitlines()
        runs.append({"pid": int(f), "role": lines[0] if lines else "?", "argv": [bytes.fromhex(x[1:]).decode() for x in lines[1:] if x[0] == "a"],
                     "io": next((x.split() for x in lines if x.startswith(("in ", "out ", "from "))), None), "end": bool(lines) and lines[-1] == "end"})
    err = open(os.path.join(d, "err")).read()[-1500:]
    shutil.rmtree(d)
    return script, v, c, rc, runs, err


def observe(script, c, rc, runs, r0):
    """What was started, as the specification's record."""
    name = SCRIPTS[script][2]
    radios = [x for x in runs if x["role"] == name]
    others = [x for x in runs if x["role"] in ("rtl_fm", "rx_fm", "nc", "pcmrecord") and x["role"] != name]
    radio = {"freq": 0, "rate": 0, "iq": True, "gain": -1, "bias": False, "ppm": 0, "device": ""}
    closed = True
    sent = None
    notes = []
    for x in radios[:1]:
        a = x["argv"]
        sent = x["io"][1:] if x["io"] else None
        try:
            if name in ("rtl_fm", "rx_fm"):
                o, rest = getopt.getopt(a, "d:f:g:s:b:l:o:t:r:p:E:F:A:M:w:c:hT")
                o = [(k, y.strip()) for k, y in o]
                q = dict(o)
                radio.update(freq=int(q["-f"]), rate=int(q.get("-s", "0")), iq=q.get("-M") == "raw", gain=int(q.get("-g", "-1")), bias="-T" in q,
                             ppm=int(q.get("-p", "0")), device=q.get("-d", "0"))
            elif name == "nc":
                radio.update(rate=48000, iq=False)
            else:
                o, rest = getopt.gnu_getopt(a, "", ["ssrc=", "catmode", "raw", "timeout="])
                q = dict(o)
                tunes = []
                for t in runs:
                    if t["role"] == "tune":
                        tunes.append(dict(getopt.gnu_getopt(t["argv"], "", ["samprate=", "mode=", "low=", "high=", "frequency=", "ssrc=", "radio="])[0]))
                mine = [t for t in tunes if t.get("--ssrc") == q["--ssrc"] and t.get("--radio") == c["device"].replace("-pcm", "")]
                up = [t for t in mine if int(t["--frequency"]) != 0]
                radio["device"] = rest[0]
                if len(up) == 1 and "--raw" in q and "--catmode" in q:
                    radio.update(freq=int(up[0]["--frequency"]), rate=int(up[0]["--samprate"]), iq=up[0]["--mode"] == "iq")
                    if abs(int(up[0]["--high"]) - c["bw"] // 2) > 1 or abs(int(up[0]["--low"]) + c["bw"] // 2) > 1:
                        radio["rate"] = 0
                        notes.append("channel filter does not cover the band")
                closed = len(mine) == 2 and int(mine[-1]["--frequency"]) == 0 and len(tunes) == 2
        except (KeyError, ValueError, getopt.GetoptError, IndexError) as e:
            notes.append("radio: %r" % e)
    decs, pids = [], []
    for x in runs:
        if x["role"] != "horus_demod":
            continue
        pids.append(x["pid"])
        dec = {"whole": bool(sent) and x["io"] is not None and x["io"][1:] == sent and x["end"], "rate": 0, "iq": False, "stats": False, "lower": 0, "upper": 0, "mode": "?"}
        try:
            a = demod_args(x["argv"])
            dec.update(rate=a.sample_rate, iq=a.q, stats=a.g and a.stats is not None, lower=a.fsk_lower, upper=a.fsk_upper, mode=a.mode.lower())
            if a.input != "-" or a.output != "-":
                dec["whole"] = False
        except ValueError as e:
            notes.append("decoder: %s" % e)
        decs.append(dec)
    ups = []
    for x in runs:
        if x["role"] != "horus_uploader":
            continue
        io = x["io"] or ["from", "-1", "0", "1"]
        up = {"from": pids.index(int(io[1])) + 1 if int(io[1]) in pids else 0, "whole": io[2] == "1000" and io[3] == "0" and x["end"], "freq": -1, "target": -1, "args": []}
        try:
            a = uploader_args(x["argv"])
            up.update(freq=int(a.freq_hz), target=int(a.freq_target_hz))
            # what is left after the options the script adds itself
            rest, skip = [], False
            for y in x["argv"]:
                if skip:
                    skip = False
                elif y in ("--freq_hz", "--freq_target_hz"):
                    skip = True
                elif y != "--rtty" and not y.startswith(("--freq_hz=", "--freq_target_hz=")):
                    rest.append(y)
            up["args"] = rest
        except ValueError as e:
            notes.append("uploader: %s" % e)
        ups.append(up)
    return {"script": script, "cfg": c, "radios": len(radios) + len(others), "radio": radio, "decs": decs, "ups": ups, "closed": closed, "rc": rc,
            "started": bool(runs), "notes": notes}


def uploader_stdout(ck):
    """What the real uploader writes to its standard output."""
    env = pyenv.build(ck.dir, ext=False)
    body = "HORUSTEST,1,12:00:00,-34.5,138.6,1000,5"
    packets = []
    for pid, n in ((1, 22), (256, 32), (60000, 32), (0, 22)):
        b = (bytes([pid % 256]) if n == 22 else bytes([pid % 256, pid // 256])) + bytes(n - (3 if n == 22 else 4))
        packets.append((b + crc16(b).to_bytes(2, "little")).hex().upper())
    packets.append(packets[0][:-4] + "0000")
    lines = ["$$%s*%04X" % (body, crc16(body.encode())), "$$%s*0000" % body, '{"EbNodB": 10.0, "ppm": 1, "f1_est": 1000.0, "f2_est": 1270.0, "samp_fft": [0]}', "{", "", "zz"] + packets
    cfg = "[user]\ncallsign = N0CALL\nstation_lat = 1.0\nstation_lon = 2.0\nradio_comment = a\nantenna_comment = b\n[horus_udp]\nsummary_port = 55672\nozimux_port = 55683\n"
    fr = ["--freq_hz", "434000000", "--freq_target_hz", "434010000"]
    res = env.call("py_upstdout.py", {"cfg": cfg, "argv": [fr, fr + ["--rtty"], fr[:2] + ["--noupload"]], "lines": ("\n".join(lines) + "\n").encode().hex()})
    return bytes.fromhex(res["out"])


def check(ck):
    T = thorough()
    r = rng("c31")
    said = uploader_stdout(ck)
    stub0 = cc_files(os.path.join(ck.dir, "station"), [os.path.join(VERIF, "harness/c/station.c")], ["-O2"], [])
    top = tempfile.mkdtemp(prefix="station.")
    try:
        os.chmod(top, 0o755)
        stub = os.path.join(top, "station")
        shutil.copy(stub0 or os.path.join(ck.dir, "station"), stub)
        os.chmod(stub, 0o755)
        open(os.path.join(top, "said"), "wb").write(said)             # the stand-in uploader says what the real one says
        realpy = shutil.which("python3", path="/usr/bin:/bin") or sys.executable
        jobs = []
        for script in sorted(SCRIPTS):
            if not os.path.exists(os.path.join(REPO, script)):
                continue
            for k in range(40 if T else 7):
                v, c = config(r, script, k)
                jobs.append((script, v, c, None, stub, top, realpy))
            if SCRIPTS[script][1] == "file":
                for missing in ("horus_demod", "horus_uploader"):     # not installed: nothing may be started
                    v, c = config(r, script, 0)
                    c["broken"] = True
                    jobs.append((script, v, c, missing, stub, top, realpy))
        with ThreadPoolExecutor(8) as ex:
            out = [x for x in ex.map(run, jobs)]
    finally:
        shutil.rmtree(top)
    recs = []
    for x in out:
        if x is None:
            ck.count("settings_not_found", 1)
            continue
        script, v, c, rc, runs, err = x
        rec = observe(script, c, rc, runs, r)
        rec["vars"] = v
        rec["err"] = err if (not rec["decs"] and not c["broken"]) else ""
        recs.append(rec)
        ck.count("stations", 1)
        ck.count("decoders", len(rec["decs"]))
    if len(recs) < 40:
        raise ToolError("only %d stations could be started" % len(recs))
    ck.sample({k: recs[3][k] for k in ("script", "vars", "radio", "decs", "ups")})
    validate_records(ck, "StationTrace", recs, "stations", what="a start script does not set up the station configured")


main("C31", check)
