"""The Python front end on a stand-in modem: asks for a scripted number of samples per block, answers scripted text."""
import sys, os, io, json, logging, tempfile, types, contextlib, signal
import _horus_api_cffi as real
ffi = real.ffi
RTTY = (89, 90, 91)
MUL, ADD = 40503, 12345
INV = pow(MUL, -1, 65536)


class Fake:
    """One scripted modem: block k asks for nins[k] samples and answers outs[k]."""
    def __init__(self):
        self.reset({})

    def reset(self, j):
        self.nins, self.outs, self.quiet, self.mode = j.get("nins", [4800]), j.get("outs", []), j.get("quiet", {"text": "", "junk": "", "crc": 0}), j.get("mode", 0)
        self.k, self.blocks, self.opened, self.limits, self.closed, self.verbose, self.events = 0, [], [], [], 0, 0, []
        self.h = ffi.new("int *")

    def nin(self, k):
        return self.nins[k % len(self.nins)]

    def out(self, k):
        return self.outs[k] if k < len(self.outs) else self.quiet


F = Fake()


class Lib:
    def __getattr__(self, name):
        v = getattr(real.lib, name)
        if isinstance(v, int):
            return v
        raise AttributeError(name)

    def _open(self, *a):
        F.opened.append([int(x) for x in a])
        return ffi.cast("struct horus *", F.h)
    def horus_open(self, mode): return self._open(mode)
    def horus_open_advanced(self, mode, rs, sp): return self._open(mode, rs, sp)
    def horus_open_advanced_sample_rate(self, mode, rs, sp, fs, p): return self._open(mode, rs, sp, fs, p)
    def horus_close(self, h): F.closed += 1
    def horus_set_verbose(self, h, v): F.verbose = int(v)
    def horus_get_version(self): return 3
    def horus_get_mode(self, h): return F.mode
    def horus_get_Fs(self, h): return 48000
    def horus_get_mFSK(self, h): return 2 if F.mode in RTTY else 4
    def horus_get_max_demod_in(self, h): return 2 * (max(F.nins) + 960)
    def horus_get_max_ascii_out_len(self, h): return {89: 121, 90: 121, 91: 121}.get(F.mode, 257)
    def horus_nin(self, h): return F.nin(F.k)
    def horus_set_freq_est_limits(self, h, lo, hi): F.limits.append([int(lo), int(hi)])
    def horus_get_total_payload_bits(self, h): return 0
    def horus_crc_ok(self, h): return F.out(F.k - 1)["crc"] if F.k else 0

    def horus_get_modem_stats(self, h, sync, snr):
        sync[0], snr[0] = (F.k & 1), F.k * 0.5

    def horus_get_modem_extended_stats(self, h, st):
        st.snr_est, st.sync = F.k * 0.5, F.k & 1
        st.clock_offset = F.k
        st.neyetr, st.neyesamp = 2, 3
        for i in range(4):
            st.f_est[i] = 1000 * (i + 1) + F.k

    def horus_rx(self, h, out, din, quad):
        n = F.nin(F.k)
        raw = bytes(ffi.buffer(ffi.cast("char *", din), n * 2 * (2 if quad else 1)))
        v = memoryview(raw).cast("h")
        if F.rate == 48000:
            first = ((v[0] - ADD) * INV) & 0xFFFF if v else 0
            run = 0
            for s in v:
                if (s & 0xFFFF) != ((first + run) * MUL + ADD) & 0xFFFF:
                    break
                run += 1
            b = {"n": n, "quad": int(quad), "start": first, "run": run, "zeros": int(not any(v[run:]))}
        else:
            b = {"n": n, "quad": int(quad), "data": list(v)}
        F.blocks.append(b)
        o = F.out(F.k)
        t = bytes.fromhex(o["text"]) + b"\0" + bytes.fromhex(o["junk"])
        ffi.memmove(out, t, min(len(t), self.horus_get_max_ascii_out_len(h)))
        F.k += 1
        return int(bool(o["crc"] and o["text"]))


m = types.ModuleType("_horus_api_cffi")
m.ffi, m.lib = ffi, Lib()
sys.modules["_horus_api_cffi"] = m
import horusdemodlib.demod as D
logging.disable(logging.CRITICAL)


def stream(n, rate, ch=1):
    if rate == 48000:
        return b"".join((((k * MUL + ADD) & 0xFFFF)).to_bytes(2, "little") for k in range(n))
    return b"".join((((k // ch) % 30000)).to_bytes(2, "little") for k in range(n))


def frame(f):
    d = f.data
    return {"bytes": isinstance(d, bytes), "data": list(d) if isinstance(d, bytes) else [ord(c) for c in d], "crc": bool(f.crc_pass), "snr2": round(float(f.snr) * 2), "sync": bool(f.sync),
            "st2": round(float(f.extended_stats.snr_est) * 2), "f1": round(float(f.extended_stats.f_est[0])), "f4": round(float(f.extended_stats.f_est[3]))}


def feed(j, chunks):
    """run add_samples over the chunks; one entry per call"""
    F.reset(j)
    F.rate = j["rate"]
    got, calls = [], []
    data = stream(sum(chunks) // 2 + 1, j["rate"], 2 if j["iq"] else 1)
    with D.HorusLib(mode=D.Mode(j["mode"]), stereo_iq=bool(j["iq"]), callback=(lambda f: got.append(frame(f))) if j["cb"] else None, sample_rate=j["rate"], rate=j.get("rs", -1), tone_spacing=j.get("spacing", -1), verbose=bool(j.get("verbose", 0))) as h:
        if j.get("limits"):
            h.set_estimator_limits(*j["limits"])
        pos = 0
        for n in chunks:
            b0, g0 = len(F.blocks), len(got)
            r = h.add_samples((bytearray if j.get("ba") else bytes)(data[pos:pos + n]))
            pos += n
            calls.append({"n": n, "blocks": F.blocks[b0:], "frames": got[g0:], "ret": [] if r is None else [frame(r)]})
    return calls


def cli(j):
    F.reset(j)
    F.rate = 48000
    data = stream(j["bytes"] // 2 + 1, 48000)[:j["bytes"]]
    with tempfile.TemporaryDirectory() as d:
        inp, outp = os.path.join(d, "in.raw"), os.path.join(d, "out.txt")
        argv = ["horus_demod"] + j["args"]
        with open(inp, "wb") as f:
            f.write(data)
        if j["in"] == "file":
            argv.append(inp)
        elif j["in"] == "-" or j["out"] != "none":
            argv.append("-")
        if j["out"] == "file":
            argv.append(outp)
        elif j["out"] == "-":
            argv.append("-")
        o, e = io.StringIO(), io.StringIO()
        so, se, si, av = sys.stdout, sys.stderr, sys.stdin, sys.argv
        code = 0
        # the tool tells its output apart by the type of sys.stdout: use real text files
        sys.stdout, sys.stderr = open(os.path.join(d, "so"), "w+"), open(os.path.join(d, "se"), "w+")
        sys.stdin = io.TextIOWrapper(open(inp if j["in"] != "file" else os.devnull, "rb"))
        sys.argv = argv
        root = logging.getLogger()
        hs = list(root.handlers)
        try:
            D.main()
        except SystemExit as x:
            code = int(x.code or 0)
        finally:
            for f in (sys.stdout, sys.stderr):
                f.flush()
            sys.stdin.close()
            sys.stdout.close(); sys.stderr.close()
            sys.stdout, sys.stderr, sys.stdin, sys.argv = so, se, si, av
            root.handlers[:] = hs
        rd = lambda n: open(os.path.join(d, n), "rb").read() if os.path.exists(os.path.join(d, n)) else b""
        main_out = rd("out.txt") if j["out"] == "file" else rd("so")
        other = rd("so") if j["out"] == "file" else b""
        err = rd("se")
    return {"code": code, "out": list(main_out), "other": list(other), "err": err.decode("utf8", "replace")}


out = []
job = json.loads(sys.stdin.read())
for j in job["recs"]:
    signal.alarm(60)
    raised = ""
    rec = {k: j[k] for k in ("kind", "mode", "iq", "rate", "nins", "outs", "quiet") if k in j}
    try:
        if j["kind"] == "add":
            rec["calls"] = feed(j, j["chunks"])
            rec["cb"] = bool(j["cb"])
        elif j["kind"] == "rs":
            rec["calls"] = feed(j, j["chunks"])
            ref = feed(j, [64] * (sum(j["chunks"]) // 64 + 1))
            refb = [b for c in ref for b in c["blocks"]]
            allb = [b for c in rec["calls"] for b in c["blocks"]]
            for k, b in enumerate(allb):
                dd = b.pop("data")
                b["same"] = k < len(refb) and refb[k]["data"] == dd
                b["full"] = len(dd) == b["n"] * (2 if j["iq"] else 1)
                ch = 2 if j["iq"] else 1
                b["head"], b["mid"], b["tail"] = dd[0], dd[(b["n"] // 2) * ch], dd[(b["n"] - 1) * ch]
                b["back"] = sum(dd[i] < dd[i - ch] for i in range(ch, len(dd)))
            rec["cb"] = bool(j["cb"])
            for c in rec["calls"]:
                c["frames"], c["ret"] = [f for f in c["frames"]], c["ret"]
        elif j["kind"] == "direct":
            F.reset(j)
            F.rate = 48000
            fr, pos = [], 0
            data = stream(sum(j["lens"]) * 2 + 2, 48000)
            with D.HorusLib(mode=D.Mode(j["mode"]), stereo_iq=bool(j["iq"])) as h:
                for n in j["lens"]:
                    w = n * 2 * (2 if j["iq"] else 1)
                    fr.append(frame(h.demodulate(data[pos:pos + w])))
                    pos += w
            rec.update(lens=j["lens"], blocks=F.blocks, frames=fr)
        else:
            rec.update(cli(j))
            rec.update(blocks=F.blocks, verbose="-v" in j["args"], crcs="-c" in j["args"], bytes=j["bytes"])
        rec.update(opened=F.opened[:1], limits=F.limits, closed=F.closed, want=j.get("want", []), wantlimits=j.get("wantlimits", []))
    except BaseException as e:
        raised = repr(e)
    signal.alarm(0)
    rec["raised"] = raised
    out.append(rec)
print("RESULT " + json.dumps(out))
