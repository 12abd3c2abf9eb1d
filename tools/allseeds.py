#!/usr/bin/env python3
"""Every planted bug against its property's quick check, in scratch copies.  usage: allseeds.py WORKERS [ID...]"""
import json, os, queue, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
q = queue.Queue()
for i in ids:
    q.put(i)


def worker(k):
    w = "/tmp/seeds-%d.%d" % (os.getpid(), k)
    os.makedirs(w)
    subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
    os.makedirs(w + "/verif/evidence")
    for d in ("checks", "lib", "spec", "harness", "properties.jsonl", "known_findings.json", "MANIFEST.json", "tools"):
        subprocess.run(["cp", "-a", os.path.join(V, d), w + "/verif/"], check=True)
    while True:
        try:
            i = q.get_nowait()
        except queue.Empty:
            break
        p = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
        a = subprocess.run(["git", "-C", w + "/repo", "apply", "%s/seeded/%s/patch.diff" % (V, i)]).returncode
        r = subprocess.run(["python3", "checks/%s.py" % p.lower()], cwd=w + "/verif", env=dict(os.environ, VERIF_REPO=w + "/repo", VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(i, p, "apply=%d" % a, "caught" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else "MISSED rc=%d" % r.returncode, flush=True)
        subprocess.run(["git", "-C", w + "/repo", "checkout", "-q", "--", "."])
    shutil.rmtree(w)


ts = [threading.Thread(target=worker, args=(k,)) for k in range(int(sys.argv[1]))]
[t.start() for t in ts]
[t.join() for t in ts]
