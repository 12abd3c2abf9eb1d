#!/usr/bin/env python3
"""C26: the C and Python v3 encodings are interchangeable."""
import glob, os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import pyenv, uper, v3


class C:
    """The C coder."""
    def __init__(self, d):
        clib = os.path.join(REPO, "horusbinaryv3/clib")
        self.exe = cc_files(os.path.join(d, "v3"), sorted(glob.glob(clib + "/*.c")) + [os.path.join(VERIF, "harness/c/v3.c")],
                            [*ASAN, "-DASN_DISABLE_OER_SUPPORT=1", "-I", clib], ["-lm"])
        self.env = dict(asan_env(leaks=True))
        self.env["ASAN_OPTIONS"] += ":detect_stack_use_after_return=0"      # the library measures its own stack use

    def ask(self, lines):
        r = run([self.exe], input="".join(x + "\n" for x in lines), env=self.env, timeout=600)
        out = r.stdout.splitlines()
        if r.returncode:
            at = lines[len(out)] if len(out) < len(lines) else "(at exit)"
            raise Violation("the C v3 coder fails (rc %d) on: %s\n%s" % (r.returncode, at[:600], r.stderr[-1500:]), {"line": at})
        if len(out) != len(lines):
            raise ToolError("v3 driver answered %d of %d lines" % (len(out), len(lines)))
        return [x.split() for x in out]


def num(q):
    return int.from_bytes(bytes(q), "big", signed=True)


def hexed(q):
    return "=" + bytes(q).hex()


def tokens(m):
    t = [hexed(m["call"])] + [str(m[k]) for k in ("seq", "tod", "lat", "lon", "alt")]
    opt = lambda k: t.append(str(m[k][0]) if m[k] else "-")

    def group(k):
        t.extend(["+"] + [str(x[0]) if x else "-" for x in m[k][0]] if m[k] else ["-"])
    if not m["sensors"]:
        t.append("-")
    for s in m["sensors"]:
        t.append(str(len(s)))
        for x in s:
            t.append(hexed(x["name"][0]) if x["name"] else "-")
            if not x["values"]:
                t.append("-")
            for v in x["values"]:
                t.append(v["kind"])
                if v["kind"] == "str":
                    t.append(hexed(v["v"]))
                elif v["kind"] == "bool":
                    t.append("".join("01"[y] for y in v["v"]))
                else:
                    t.append(str(len(v["v"])))
                    t.extend(str(num(y)) if v["kind"] == "int" else struct.pack(">d", uper.unreal(y)).hex() for y in v["v"])
    opt("vel"), opt("sats"), opt("asc"), opt("press"), group("temps"), opt("hum"), group("mv")
    t.extend([str(len(m["counts"][0]))] + [str(num(y)) for y in m["counts"][0]] if m["counts"] else ["-"])
    opt("psm")
    t.append(hexed(m["custom"][0]) if m["custom"] else "-")
    return " ".join(t)


def unhex(t):
    return list(bytes.fromhex(t[1:]))


def parse(t):
    """The driver's tokens as a message."""
    i = iter(t)
    m = uper.plain()
    m["call"] = unhex(next(i))
    for k in ("seq", "tod", "lat", "lon", "alt"):
        m[k] = int(next(i))

    def opt(k):
        x = next(i)
        m[k] = [] if x == "-" else [int(x)]

    def group(k):
        if next(i) == "-":
            m[k] = []
        else:
            m[k] = [[[] if x == "-" else [int(x)] for x in (next(i), next(i), next(i), next(i))]]
    n = next(i)
    if n != "-":
        s = []
        for _ in range(int(n)):
            x = {"name": [], "values": []}
            a = next(i)
            x["name"] = [] if a == "-" else [unhex(a)]
            k = next(i)
            if k == "str":
                x["values"] = [{"kind": k, "v": unhex(next(i))}]
            elif k == "bool":
                x["values"] = [{"kind": k, "v": [c == "1" for c in next(i)]}]
            elif k in ("int", "real"):
                c = int(next(i))
                ys = [next(i) for _ in range(c)]
                x["values"] = [{"kind": k, "v": [uper.octets(int(y)) if k == "int" else uper.real(struct.unpack(">d", bytes.fromhex(y))[0]) for y in ys]}]
            s.append(x)
        m["sensors"] = [s]
    opt("vel"), opt("sats"), opt("asc"), opt("press"), group("temps"), opt("hum"), group("mv")
    n = next(i)
    m["counts"] = [] if n == "-" else [[uper.octets(int(next(i))) for _ in range(int(n))]]
    opt("psm")
    a = next(i)
    m["custom"] = [] if a == "-" else [unhex(a)]
    return m


def check(ck):
    T = thorough()
    r = rng("c26")
    env = pyenv.build(ck.dir, ext=False)
    c = C(ck.dir)
    ck.spec(must_hold(tlc("V3RoundTrip", cfg="V3RoundTripAll" if T else "V3RoundTrip", timeout=300), "V3RoundTrip"), "V3RoundTrip")
    if T:
        ck.spec(must_hold(tlc("V3RoundTrip", cfg="V3RoundTripCut", timeout=700), "V3RoundTripCut"), "V3RoundTripCut")
    msgs = [uper.plain()]
    for k in ("sensors", "vel", "sats", "asc", "press", "temps", "hum", "mv", "counts", "psm", "custom", "via"):
        full = uper.message(r, p=1, via=k == "via")
        m = uper.plain("ONLY", 3)
        m[k] = full[k]
        full[k] = []
        msgs += [m, full]
    for x in uper.REALS + [-x for x in uper.REALS]:
        m = uper.plain("R", 1)
        m["sensors"] = [[{"name": [], "values": [{"kind": "real", "v": [uper.real(x)]}]}]]
        msgs.append(m)
    for x in uper.INTS + [s * (1 << k) + d for k in range(0, 63, 7) for s in (1, -1) for d in (-1, 0, 1)]:
        m = uper.plain("I", 1)
        m["counts"] = [[uper.octets(x)]]
        m["sensors"] = [[{"name": [], "values": [{"kind": "int", "v": [uper.octets(x), uper.octets(-x - 1)]}]}]]
        msgs.append(m)
    for n in (0, 1, 2, 127, 128, 129, 254, 255):
        m = uper.plain("L", 1)
        m["custom"] = [[r.randrange(256) for _ in range(n)]]
        m["sensors"] = [[{"name": [], "values": [{"kind": "str", "v": [ord(r.choice(uper.STR)) for _ in range(n)]}]}]]
        msgs.append(m)
    for ch in uper.STR:
        m = uper.plain((ch if ch in uper.CALL else "Z") * 15, 1)
        m["sensors"] = [[{"name": [uper.codes((ch if ch in uper.NAME else "z") * r.choice([1, 20]))], "values": [{"kind": "str", "v": [ord(ch)] * 3}]}]]
        msgs.append(m)
    for _ in range(5000 if T else 600):
        msgs.append(uper.message(r, via=r.random() < .15, future=r.random() < .1, big=r.random() < .05))
    for m in msgs:      # "unknown" is one value to the Python coder
        m["via"] = [7 if v > 1 else v for v in m["via"]]
    recs = []
    exact = [uper.encode(m) for m in msgs]
    padded = [b + bytes(r.choice([0, uper.padto(len(b)), 1])) for b in exact]
    fits = [all(-2**63 <= num(y) < 2**63 for q in m["counts"] for y in q) and
            all(-2**63 <= num(y) < 2**63 for s in m["sensors"] for x in s for v in x["values"] if v["kind"] == "int" for y in v["v"]) for m in msgs]
    cenc = [[unhex(x[1])] if x[0] == "B" else [] for x in c.ask(["E " + tokens(m if f else uper.plain()) for m, f in zip(msgs, fits)])]
    cdec = c.ask(["D " + hexed(b) for b in padded])
    cuts = c.ask(["T " + hexed(b) for b in exact])
    py = env.call("py_v3enc.py", {"recs": [{"msg": m, "dec": [p.hex(), bytes(e[0]).hex() if e and f else None]} for m, p, e, f in zip(msgs, padded, cenc, fits)]})
    cofpy = c.ask(["D " + hexed(o["enc"][0] if o["enc"] else b"\0") for o in py])
    for m, p, f, ce, cd, cu, o, cp in zip(msgs, padded, fits, cenc, cdec, cuts, py, cofpy):
        msg = lambda a: [parse(a[2:])] if a[0] == "M" else []
        again = lambda a: [unhex(a[1])] if a[0] == "M" and a[1] != "-" else []
        recs.append({"kind": "msg", "msg": m, "padded": list(p), "cenc": ce if f else [], "cdec": msg(cd), "cuts": [int(x) for x in cu[1:]], "pyenc": o["enc"], "pydec": o["dec"][0],
                     "pyofc": o["dec"][1], "pyre": o["re"][1], "cofpy": msg(cp) if o["enc"] else [], "cre": again(cp) if o["enc"] else []})
    raws = []
    for _ in range(8000 if T else 1000):
        k = r.randrange(5)
        b = bytes.fromhex(v3.wild(uper.message(r, future=r.random() < .2), r)["packet"])[2:] if k else bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 14, 30, 46, 126, r.randrange(200)])))
        raws.append(b)
    cdec = c.ask(["D " + hexed(b) for b in raws])
    py = env.call("py_v3enc.py", {"recs": [{"dec": [b.hex()]} for b in raws]})
    for b, cd, o in zip(raws, cdec, py):
        recs.append({"kind": "raw", "octets": list(b), "cdec": [parse(cd[2:])] if cd[0] == "M" else [], "pydec": o["dec"][0]})
    ck.count("messages", len(msgs))
    ck.count("raw", len(raws))
    ck.count("raw decoded by C", sum(bool(x["cdec"]) for x in recs if x["kind"] == "raw"))
    validate_records(ck, "HorusV3Interop", recs, "interop", what="the v3 coders disagree with the specified coding",
                     describe=lambda x: json.dumps({k: (bytes(v).hex() if k in ("padded", "octets") else bytes(v[0]).hex() if k in ("cenc", "pyenc", "cre", "pyre") and v else v) for k, v in x.items()})[:2500])
    ck.sample({"message": bytes(exact[1]).hex()})


main("C26", check)
