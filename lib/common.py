"""Shared plumbing for the checks: building from /repo, running TLC, evidence, verdicts."""
import hashlib, json, os, re, shutil, subprocess, sys, time, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
HVENV = "/opt/horus-venv/bin/python"
CDEFS = ["-DHORUS_L2_RX", "-DINTERLEAVER", "-DSCRAMBLER", "-DRUN_TIME_TABLES"]
LIBSRC = ["fsk.c", "kiss_fft.c", "kiss_fftr.c", "mpdecode_core.c", "H_256_768_22.c", "H_128_384_23.c",
          "golay23.c", "phi0.c", "horus_api.c", "horus_l2.c"]
WRAP = "-Wl,--wrap=fsk_demod_core,--wrap=fsk_demod,--wrap=fsk_demod_sd"
ASAN = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


class Violation(Exception):
    """The code under test broke the property. payload: JSON-able description for the replay file."""
    def __init__(self, msg, payload=None):
        super().__init__(msg)
        self.payload = payload


class ToolError(Exception):
    pass


def tier():
    return os.environ.get("VERIF_TIER", "quick")


def thorough():
    return tier() == "thorough"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def rng(tag=""):
    return random.Random("%s/%s" % (seed(), tag))


def workdir(pid):
    d = os.path.join(BUILD, pid)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    return d


def run(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.PIPE)
    kw.setdefault("text", True)
    return subprocess.run(cmd, **kw)


def cc(out, sources, flags=(), repo_sources=LIBSRC, libs=("-lm",), cdefs=CDEFS, compiler="gcc"):
    """Compile harness sources together with /repo/src files, in parallel, into `out`."""
    odir = out + ".o.d"
    os.makedirs(odir, exist_ok=True)
    src = os.path.join(REPO, "src")
    jobs, objs = [], []
    for s in [os.path.join(src, x) for x in repo_sources] + list(sources):
        o = os.path.join(odir, os.path.basename(s) + ".o")
        objs.append(o)
        cflags = [f for f in flags if not f.startswith("-Wl,")]
        jobs.append((s, subprocess.Popen([compiler, "-w", *cflags, *cdefs, "-I", src, "-c", s, "-o", o],
                                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for s, j in jobs:
        o, _ = j.communicate()
        if j.returncode:
            raise ToolError("compiling %s failed:\n%s" % (s, o[-3000:]))
    r = run([compiler, *flags, *objs, "-o", out, *libs])
    if r.returncode:
        raise ToolError("linking %s failed:\n%s" % (out, r.stderr[-3000:]))
    return out


ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=0",
            "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=86"}


def asan_env(leaks=False):
    e = dict(os.environ)
    e.update(ASAN_ENV)
    if leaks:
        e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")
    return e


# ------------------------------------------------------------------ TLC

class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.ok = rc == 0
        self.invariant = (re.findall(r"(?:Invariant|property|Property) (\S+) (?:is|was) violated", out) or [None])[0]


_SANY_ERR = re.compile(r"Parsing or semantic analysis failed|TLC threw an unexpected exception|"
                       r"could not be evaluated|attempted to|was not able to|Unknown operator|ConfigFileException|"
                       r"evaluating the expression|OutOfMemory|StackOverflow", re.I)


def tlc(module, cfg=None, env=None, workers="auto", extra=(), timeout=600, cwd=None, dump=None, heap="6g", stack="64m"):
    """Run TLC on spec/<module>.tla. Returns TlcResult; raises ToolError for anything that is not a verdict."""
    wd = cwd or os.path.join(BUILD, "tlc")
    os.makedirs(wd, exist_ok=True)
    meta = os.path.join(wd, "states-%s-%d-%d" % (module, os.getpid(), time.monotonic_ns()))
    e = dict(os.environ)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack, "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet",
           "-XX:MaxDirectMemorySize=2g",
           "-DTLA-Library=" + SPEC, "-cp",
           "/opt/veriftools/tla/tla2tools.jar:" + cm_jars(), "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers), "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), *extra,
           os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        r = run(cmd, env=e, cwd=SPEC, timeout=timeout, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s/%s after %ss" % (module, cfg, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    if os.environ.get("VERIF_DEBUG"):
        print("[tlc %s %s: rc %d, %.1f s]" % (module, cfg or "", r.returncode, time.time() - t0), file=sys.stderr)
    res = TlcResult(r.returncode, r.stdout)
    # 0 ok; 10..13 verdicts (assumption, deadlock, safety, liveness violated); everything else: tool trouble
    r.stdout = "\n".join(x for x in r.stdout.splitlines() if not x.startswith(("Parsing file", "Semantic processing", "Linting of")))
    res.out = r.stdout
    if r.returncode not in (0, 10, 11, 12, 13):
        i = r.stdout.find("Error:")
        raise ToolError("TLC failed on %s/%s rc=%d\n%s\n...\n%s" % (module, cfg, r.returncode, r.stdout[i:i + 2000] if i >= 0 else "", r.stdout[-1200:]))
    return res


_cm = None


def cm_jars():
    global _cm
    if _cm is None:
        d = "/opt/veriftools/tla"
        _cm = ":".join(os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar") and f != "tla2tools.jar")
    return _cm


def must_hold(res, what):
    """A spec-level property must hold on the spec itself: a failure here is a broken model, not the code."""
    if not res.ok:
        raise ToolError("specification check %s failed:\n%s" % (what, res.out[-4000:]))
    return res


def nontrivial_jsonl(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
    return path


def load_jsonl(path):
    with open(path) as f:
        return [json.loads(l) for l in f if l.strip()]


# ------------------------------------------------------------------ verdicts

class Check:
    """Collects coverage and the verdict of one property check."""
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.parts = {}
        self.assumptions = []
        self.dir = workdir(pid)

    def spec(self, res, name=None):
        self.cov["states"] += res.distinct
        self.cov["transitions"] += max(res.generated, 0)
        if name:
            self.parts[name] = {"states": res.distinct, "generated": res.generated, "depth": res.depth}
        return res

    def traces(self, n=1):
        self.cov["traces_validated_against_impl"] += n

    def count(self, key, n=1):
        self.parts[key] = self.parts.get(key, 0) + n

    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def write(self, violations):
        cov = dict(self.cov)
        cov["parts"] = self.parts
        ev = {"property": self.pid, "tier": tier() if tier() in ("quick", "thorough") else "quick", "seed": seed(), "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("known", []) if k["property"] == pid]


def main(pid, fn, level="model_checking"):
    """Run one check; translate the outcome into exit code + VIOLATION line + evidence."""
    sys.stdout.reconfigure(line_buffering=True)
    ck = Check(pid, level)
    os.environ.setdefault("TZ", "UTC")
    try:
        fn(ck)
    except Violation as v:
        rp = os.path.join(ck.dir, "replay.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "what": str(v), "case": v.payload}, f, indent=1, default=str)
            f.write("\n")
        ck.write(1)
        print("property %s is violated: %s" % (pid, str(v)[:2000]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    except ToolError as e:
        ck.write(0)
        print("CHECK-ERROR property=%s: %s" % (pid, str(e)[-6000:]), file=sys.stderr)
        sys.exit(2)
    ck.write(0)
    print("OK property=%s wall=%.1fs %s" % (pid, time.time() - ck.t0,
          json.dumps({k: v for k, v in ck.cov.items() if k != "samples"})))
    sys.exit(0)


# ------------------------------------------------------------------ record validation by TLC

def validate_records(ck, module, recs, name, env=None, cfg=None, what=None, timeout=800, describe=None):
    """Have TLC decide every record of a recorded execution (walker-style trace specs, variable l).
    Raises Violation naming the first rejected record TLC reports."""
    if not recs:
        raise ToolError("no records recorded for " + name)
    path = os.path.join(ck.dir, name + ".ndjson")
    nontrivial_jsonl(path, recs)
    e = {"TRACE": path}
    e.update(env or {})
    res = tlc(module, cfg=cfg, env=e, timeout=timeout)
    if res.ok:
        if res.distinct < len(recs):
            raise ToolError("TLC visited %d states for %d records of %s" % (res.distinct, len(recs), name))
        ck.spec(res, name)
        ck.traces(len(recs))
        return res
    if res.rc != 12:
        raise ToolError("TLC on %s: rc=%d\n%s" % (name, res.rc, res.out[-3000:]))
    ls = re.findall(r"/\\ l = (\d+)|^l = (\d+)", res.out, re.M)
    idx = int([a or b for a, b in ls][-1])
    rec = recs[idx - 1]
    ck.spec(res, name)
    raise Violation("%s: record %d of %s is not explained by %s: %s" % (
        what or "the specification rejects a recorded execution", idx, name, module,
        (describe(rec) if describe else json.dumps(rec)[:600])), {"module": module, "record": rec})


def cc_files(out, sources, flags, libs, compiler="gcc"):
    """Compile any list of C files in parallel (8 at a time) and link them."""
    from concurrent.futures import ThreadPoolExecutor
    od = out + ".o.d"
    os.makedirs(od, exist_ok=True)

    def one(i_s):
        i, s = i_s
        o = os.path.join(od, "%d-%s.o" % (i, os.path.basename(s)))
        r = run([compiler, "-w", *[f for f in flags if not f.startswith("-Wl,")], "-c", s, "-o", o])
        if r.returncode:
            raise ToolError("compiling %s failed:\n%s" % (s, r.stderr[-3000:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, list(enumerate(sources))))
    r = run([compiler, *flags, *objs, "-o", out, *libs])
    if r.returncode:
        raise ToolError("linking %s failed:\n%s" % (out, r.stderr[-3000:]))
    return out
