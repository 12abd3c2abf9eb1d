#!/usr/bin/env python3
"""mkseed.py SPEC.py : turn a description of a planted bug into seeded/<id>/.
SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], FILES={name: text} (demo.sh among them)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
for sp in sys.argv[1:]:
    sys.path.insert(0, os.path.dirname(os.path.abspath(sp)))
    m = runpy.run_path(sp)
    d = "/verif/seeded/" + m["ID"]
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r"], check=True)
        for f, old, new in m["EDITS"]:
            p = os.path.join(w, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (m["ID"], f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", w + "/r", "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w, ignore_errors=True)
    for n, t in m["FILES"].items():
        open(os.path.join(d, n), "w").write(t)
        if n.endswith(".sh"):
            os.chmod(os.path.join(d, n), 0o755)
    json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    print(m["ID"], "ok")
