"""Driving the real frame codec, and the oracle tables TLC exports from the specification."""
import json, os
from common import *


def build_codec(d, asan=True):
    return cc(os.path.join(d, "codec"), [os.path.join(VERIF, "harness/c/codec.c")], repo_sources=["golay23.c", "horus_l2.c"],
              flags=ASAN if asan else ["-O2"])


def export_tables(ck, all_sizes=False):
    code, lay = os.path.join(ck.dir, "code.json"), os.path.join(ck.dir, "layout.json")
    res = tlc("CodecExport", cfg="CodecExportAll" if all_sizes else "CodecExport", env={"OUT_CODE": code, "OUT_LAYOUT": lay})
    must_hold(res, "CodecExport")
    ck.spec(res, "codec layout")
    code = json.load(open(code))
    raw = json.load(open(lay))
    layout = {v["n"]: v for v in raw}
    return code, layout


def code_file(ck, code):
    p = os.path.join(ck.dir, "code.txt")
    with open(p, "w") as f:
        f.write("\n".join(map(str, code["parity"] + code["leader"])) + "\n")
    return p


def drive(exe, lines, timeout=600):
    r = run([exe], input="\n".join(lines) + "\n", env=asan_env(), timeout=timeout)
    out = r.stdout.splitlines()
    if r.returncode or len(out) != len(lines):
        raise Violation("codec ended with %s after %d of %d operations: %s" % (r.returncode, len(out), len(lines), r.stderr[-1500:]),
                        {"operation": lines[len(out)] if len(out) < len(lines) else None})
    return out


def flip(frame, airbits):
    """Flip air bits (MSB first numbering after the unique word) of a frame."""
    f = bytearray(frame)
    for a in airbits:
        f[2 + a // 8] ^= 0x80 >> (a % 8)
    return bytes(f)


def correctable(rnd, lay, maxerr=3, full=False):
    """A random error pattern with at most three bits in any one code word (padding bits are free)."""
    words = {}
    for a, w in enumerate(lay["owner"]):
        words.setdefault(w, []).append(a)
    out = []
    for w, bits in words.items():
        k = (min(len(bits), maxerr) if full else rnd.randint(0, min(maxerr, len(bits)))) if w >= 0 else rnd.randint(0, len(bits))
        out += rnd.sample(bits, k)
    return out


def frame_bytes(n):
    w = -(-8 * n // 12)
    return 2 + -(-(8 * n + 11 * w) // 8)


def build_gen(d):
    """horus_gen_test_bits with the ASN.1 library, from the current tree."""
    import glob
    asn = os.path.join(REPO, "horusbinaryv3", "clib")
    od = os.path.join(d, "gen.o.d")
    os.makedirs(od, exist_ok=True)
    srcs = sorted(glob.glob(os.path.join(asn, "*.c")))
    srcs = [s for s in srcs if os.path.basename(s) not in ("converter-example.c", "pdu_collection.c")]
    srcs += [os.path.join(REPO, "src", x) for x in ("horus_gen_test_bits.c", "horus_l2.c", "golay23.c")]
    return cc_files(os.path.join(d, "horus_gen_test_bits"), srcs, ["-O1", "-DASN_DISABLE_OER_SUPPORT=1", "-I" + asn, "-I" + os.path.join(REPO, "src"), *CDEFS], ["-lm"])
