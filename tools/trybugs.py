#!/usr/bin/env python3
"""Judge hand-written changes with the checks, in scratch copies (development tool).  usage: trybugs.py WORKERS BUGS.py [NAME...]
BUGS.py defines BUGS = [(name, "C05[,C04]", [(file, old, new), ...]), ...]; prints caught / MISSED / trouble per bug."""
import os, queue, shutil, subprocess, sys, threading
REPO, VERIF = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
exec(open(sys.argv[2]).read(), g)
jobs = queue.Queue()
for b in g["BUGS"]:
    if not sys.argv[3:] or b[0] in sys.argv[3:]:
        jobs.put(b)


def worker(k):
    w = "/tmp/mt/t%d.%d" % (os.getpid(), k)
    os.makedirs(w + "/verif/evidence")
    subprocess.run(["cp", "-a", REPO, w + "/repo"], check=True)
    for d in ("checks", "lib", "spec", "harness", "properties.jsonl", "known_findings.json", "MANIFEST.json", "tools"):
        subprocess.run(["cp", "-a", os.path.join(VERIF, d), w + "/verif/"], check=True)
    while True:
        try:
            name, props, edits = jobs.get_nowait()
        except queue.Empty:
            break
        old, res = {}, ""
        for f, a, b in edits:
            p = os.path.join(w, "repo", f)
            s = open(p).read()
            old.setdefault(p, s)
            if a not in s:
                res = "NOT FOUND in %s: %s" % (f, a[:60])
            open(p, "w").write(s.replace(a, b, 1))
        if not res:
            for c in props.lower().split(","):
                try:
                    p = subprocess.run(["python3", "checks/%s.py" % c], cwd=w + "/verif", env=dict(os.environ, VERIF_REPO=w + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                    r = "caught" if p.returncode == 1 and "VIOLATION" in p.stdout else "MISSED" if p.returncode == 0 else "trouble rc=%d" % p.returncode
                    lines = [x for x in p.stdout.splitlines() if x.strip()]
                    res += "%s %s %s; " % (c, r, (lines[-2] if r == "caught" and len(lines) > 1 else lines[-1] if lines else "")[:150])
                except subprocess.TimeoutExpired:
                    res += c + " timeout; "
        for p, s in old.items():
            open(p, "w").write(s)
        print("%-28s %s" % (name, res), flush=True)
    shutil.rmtree(w)


ts = [threading.Thread(target=worker, args=(k,)) for k in range(int(sys.argv[1]))]
[t.start() for t in ts]
[t.join() for t in ts]
