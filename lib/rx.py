"""Driving the real receiver (harness/c/rxdrive.c) with scripted demodulated bits."""
import os, subprocess
from common import *

RTTY = {"7N1": (89, 7, 1), "7N2": (90, 7, 2), "8N2": (91, 8, 2)}
BINARY = 0


def build_rxdrive(d, asan=True):
    return cc(os.path.join(d, "rxdrive"), [os.path.join(VERIF, "harness/c/rxdrive.c")],
              flags=(ASAN if asan else ["-O2"]) + [WRAP])


def crc16(data, crc=0xFFFF):
    for b in data:
        crc ^= b << 8
        for _ in range(8):
            crc = ((crc << 1) ^ 0x1021 if crc & 0x8000 else crc << 1) & 0xFFFF
    return crc


def rtty_chars_bits(chars, ascii_bits, stop_bits):
    out = []
    for c in chars:
        out.append("0")
        out.append("".join("1" if (c >> k) & 1 else "0" for k in range(ascii_bits)))
        out.append("1" * stop_bits)
    return "".join(out)


class RxDied(Exception):
    pass


class RxScript:
    """Builds a script of commands, runs it in one process, returns the parsed replies in order."""
    def __init__(self, exe):
        self.exe, self.cmds = exe, []

    def open(self, mode, rs=0, spacing=0, fs=0, p=0):
        self.cmds.append("O %d %d %d %d %d" % (mode, rs, spacing, fs, p))

    def rx(self, h, bits, policy="Z", quad=0):
        self.cmds.append("R %d %s %d %s" % (h, policy, quad, bits))

    def close(self, h):
        self.cmds.append("C %d" % h)

    def run(self, leaks=False, timeout=600):
        r = subprocess.run([self.exe], input="\n".join(self.cmds) + "\n", text=True, errors="replace", stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=asan_env(leaks), timeout=timeout)
        out = []
        lines = r.stdout.splitlines()
        if r.returncode != 0:
            lines = lines[:-1]                   # possibly cut off
        for l in lines:
            f = l.split(" ")
            if f[0] == "r":
                out.append({"ret": int(f[1]), "crc": int(f[2]), "ver": int(f[3]), "len": int(f[4]),
                            "text": bytes.fromhex(f[5]) if len(f) > 5 and f[5] else b""})
            elif f[0] == "o":
                out.append({"h": int(f[1]), "nbits": int(f[2]), "maxascii": int(f[3]), "nin": int(f[4]), "mfsk": int(f[5])})
            else:
                out.append({"k": f[0]})
        if r.returncode != 0:
            raise RxDied("receiver harness ended with %s after %d of %d replies: %s" % (
                r.returncode, len(out), len(self.cmds), r.stderr[-3000:]))
        return out


def blocks(bits, n):
    pad = (-len(bits)) % n
    bits += "0" * pad
    return [bits[i:i + n] for i in range(0, len(bits), n)]


def gen_frames(ck, jobs, name="frames"):
    """jobs: [(payload without checksum, 'tail'|'head'|'none')] -> [(payload bytes, frame bytes)], made by TLC."""
    jp, op = os.path.join(ck.dir, name + "-jobs.ndjson"), os.path.join(ck.dir, name + "-out.ndjson")
    nontrivial_jsonl(jp, [{"p": list(p), "crc": c} for p, c in jobs])
    res = must_hold(tlc("FrameGen", env={"JOBS": jp, "OUT": op}), "FrameGen")
    ck.spec(res, name)
    return [(bytes(r["p"]), bytes(r["f"])) for r in load_jsonl(op)]


def bits_of(data):
    return "".join(format(b, "08b") for b in data)


PARAMS = {0: dict(cl=0, ab=0, block=100, window=3740), 89: dict(cl=9, ab=7, block=50, window=1130),
          90: dict(cl=10, ab=7, block=50, window=1250), 91: dict(cl=11, ab=8, block=50, window=1370)}


class Stream:
    """A stream of bits for one receiver, and what the receiver said about it."""
    def __init__(self, mode, expect=0, note=""):
        self.mode, self.bits, self.expect, self.note = mode, "", expect, note
        self.calls = None
        self.fresh = True
        self.lossy = False
        self.policy = None

    def add(self, bits):
        self.bits += bits
        return self

    def finish(self):
        """Pad with idle bits so everything sent has time to be delivered, to whole blocks."""
        p = PARAMS[self.mode]
        tail = p["window"] + p["block"]
        self.bits += ("1" if p["cl"] else "0") * tail
        self.bits += "0" * (-len(self.bits) % p["block"])
        return self

    def record(self):
        p = PARAMS[self.mode]
        d = dict(p)
        d.update(fresh=self.fresh, lossy=self.lossy, bits=[int(b) for b in self.bits], expect=self.expect,
                 calls=[{"ret": c["ret"], "crc": c["crc"], "ver": c["ver"], "text": list(c["text"])} for c in self.calls])
        return d


def run_streams(ck, exe, streams, policy="Z", groups=8, opener=None, interleave=False):
    """Run streams through the real receiver, several processes at once; fills stream.calls."""
    from concurrent.futures import ThreadPoolExecutor

    def one(part):
        sc = RxScript(exe)
        order = []
        for i, st in enumerate(part):
            sc.open(st.mode)
            order.append(None)
        if interleave:
            todo = [(st, i, blocks(st.bits, PARAMS[st.mode]["block"])) for i, st in enumerate(part)]
            r = rng("interleave%d" % len(part))
            pos = [0] * len(todo)
            while True:
                live = [j for j, t in enumerate(todo) if pos[j] < len(t[2])]
                if not live:
                    break
                j = r.choice(live)
                st, h, bl = todo[j]
                sc.rx(h, bl[pos[j]], policy if isinstance(policy, str) else policy[h % len(policy)])
                order.append(st)
                pos[j] += 1
                if pos[j] == len(bl):
                    sc.close(h)
                    order.append(None)
        else:
            for i, st in enumerate(part):
                for b in blocks(st.bits, PARAMS[st.mode]["block"]):
                    sc.rx(i, b, st.policy or policy if isinstance(policy, str) else policy[i % len(policy)])
                    order.append(st)
                sc.close(i)
                order.append(None)
        try:
            out = sc.run()
        except RxDied as e:
            raise Violation("the receiver does not survive these bits: %s" % e,
                            {"streams": [{"mode": s.mode, "bits": s.bits, "note": s.note} for s in part]})
        for st in part:
            st.calls = []
        for st, o in zip(order, out):
            if st is not None:
                st.calls.append(o)
    parts = [streams[i::groups] for i in range(groups)]
    with ThreadPoolExecutor(groups) as ex:
        list(ex.map(one, [p for p in parts if p]))


def validate_streams(ck, streams, name, timeout=800, per_file=400):
    for base in range(0, len(streams), per_file):
        part = streams[base:base + per_file]
        path = os.path.join(ck.dir, "%s-%d.ndjson" % (name, base))
        nontrivial_jsonl(path, [s.record() for s in part])
        res = tlc("RxTrace", env={"TRACE": path}, timeout=timeout, heap="10g")
        ck.spec(res, "%s-%d" % (name, base))
        if res.ok:
            need = sum(len(s.calls) + 2 for s in part)
            if res.distinct < need - len(part):
                raise ToolError("RxTrace visited %d states, expected %d" % (res.distinct, need))
            ck.traces(len(part))
            ck.count("receiver_calls", sum(len(s.calls) for s in part))
            ck.count("packets_delivered", sum(c["ret"] for s in part for c in s.calls))
            os.unlink(path)
            continue
        if res.rc != 12:
            raise ToolError("RxTrace rc=%d\n%s" % (res.rc, res.out[-3000:]))
        why = re.findall(r'bad = "([^"]+)"', res.out)
        si = int(re.findall(r"/\\ s = (\d+)", res.out)[-1])
        ki = int(re.findall(r"/\\ k = (-?\d+)", res.out)[-1])
        st = part[si - 1]
        why = why[-1] if why else "?"
        if why.startswith("the stream holds fewer"):
            raise ToolError("generated stream is not what the spec says: %s" % st.note)
        c = st.calls[ki - 1]
        raise Violation("%s (mode %d, call %d of %d, %s): receiver returned %d crc_ok=%d version=%d text=%r" % (
            why, st.mode, ki, len(st.calls), st.note, c["ret"], c["crc"], c["ver"], c["text"]),
            {"mode": st.mode, "bits": st.bits, "call": ki, "note": st.note, "why": why})


def near_uws(bits, uw="0010010000100100"):
    """Number of positions at which at most one bit of the unique word differs."""
    return sum(sum(a != b for a, b in zip(uw, bits[i:i + 16])) <= 1 for i in range(len(bits) - 15))


def stray_uws(r, k, uw="0010010000100100"):
    """Bits that hold exactly k unique word patterns, spread over part of a receive window."""
    out, n = "", 0
    for _ in range(5000):
        if n == k:
            break
        c = out + r.choice(["0" * r.randrange(1, 12), noise(r, r.randrange(4, 50)), "1" * r.randrange(2, 20)]) + uw
        m = near_uws(c)
        if n < m <= k:
            out, n = c, m
    return out


def noise(r, n):
    return "".join(r.choice("01") for _ in range(n))


def sentence(body, dollars=2, lower=False, eol=b"\n"):
    c = "%04X" % crc16(body)
    return b"$" * dollars + body + b"*" + (c.lower() if lower else c).encode() + eol


MODES = {89: (7, 1), 90: (7, 2), 91: (8, 2)}
CHARSET = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789,.:-+/ _"


def random_body(r, n):
    return bytes(r.choice(CHARSET) for _ in range(n))


def rtty_bits(mode, text):
    a, s = MODES[mode]
    return rtty_chars_bits(text, a, s)


def build_dsp(d, asan=True):
    return cc(os.path.join(d, "dsp"), [os.path.join(VERIF, "harness/c/dsp.c")],
              flags=ASAN if asan else ["-O2", "-g"])


def dsp_run(exe, cmds, leaks=True, timeout=800, env=None):
    """Run a dsp script; returns (opens, {handle: [calls]}); a crash, sanitizer report or hang raises RxDied."""
    e = asan_env(leaks)
    e.update(env or {})
    try:
        r = subprocess.run([exe], input="\n".join(cmds) + "\n", text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise RxDied("the receiver did not return within %d s" % timeout)
    if r.returncode:
        raise RxDied("ended with status %d: %s" % (r.returncode, "\n".join(x for x in r.stderr.splitlines() if x.strip())[-2500:]))
    opens, calls = {}, {}
    for line in r.stdout.splitlines():
        f = line.split(" ")
        if f[0] == "o":
            opens[int(f[1])] = {"maxin": int(f[2]), "maxascii": int(f[3]), "mfsk": int(f[4]), "nin": int(f[5])}
            calls[int(f[1])] = []
        elif f[0] == "r":
            calls[int(f[1])].append({"used": int(f[2]), "next": int(f[3]), "ret": int(f[5]), "crc": int(f[6]), "len": int(f[7]),
                                     "text": bytes.fromhex(f[10]) if len(f) > 10 else b"", "stats": f[11:]})
    return opens, calls
