#!/usr/bin/env python3
"""Mutation sweep (development tool, registered nowhere): random small changes of the sources in scratch copies, each judged by
the checks that look at that file.  usage: mutate.py WORKERS COUNT SEED OUT FILE:check,check... ...
Survivors are written to OUT with their diff; whether they are equivalent or break a property is decided by reading them."""
import difflib, io, os, random, re, shutil, subprocess, sys, threading, tokenize, queue

REPO, VERIF = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def c_sites(text):
    blank = lambda m: re.sub(r"[^\n]", " ", m.group(0))
    t = re.sub(r"/\*.*?\*/|//[^\n]*", blank, text, flags=re.S)
    t = re.sub(r'"(\\.|[^"\\\n])*"', blank, t)
    t = re.sub(r"^[ \t]*#(.*\\\n)*.*$", blank, t, flags=re.M)
    out = []
    rep = {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "+": ["-"], "-": ["+"], "*": ["+"], "/": ["*"],
           "<<": [">>"], ">>": ["<<"], "&": ["|"], "|": ["&"], "^": ["|"], "++": [], "--": [], "+=": ["-=", "="], "-=": ["+="], "%": ["/"]}
    for m in re.finditer(r"<<=|>>=|->|<<|>>|<=|>=|==|!=|&&|\|\||\+\+|--|[-+*/&|^%]=|[-+*/<>&|^%]|\b\d+\b(?!\.)|\b0x[0-9a-fA-F]+\b", t):
        k = m.group(0)
        for b in rep.get(k, []):
            if k in "*&-" and not re.search(r"[\w)\]]\s*$", t[:m.start()][-20:]):
                continue
            out.append((m.start(), m.end(), b))
        if re.match(r"\d+$", k):
            out += [(m.start(), m.end(), str(int(k) + 1))] + ([(m.start(), m.end(), str(int(k) - 1))] if int(k) else [])
    for m in re.finditer(r"(?<=[;{}\n])[ \t]*([a-zA-Z_][\w\->.\[\]() +*,]*(=|\+=|-=|\(|\+\+)[^;{}\n]*;)", t):
        if not re.match(r"(for|if|while|else|do|return|int|float|char|short|uint\d+_t|const|static|struct|double|unsigned|break|typedef|size_t|COMP|long)\b", m.group(1)):
            out.append((m.start(1), m.end(1), ";"))
    for m in re.finditer(r"\bif\s*\(", t):
        out.append((m.end() - 1, m.end(), "(!("))          # closed below
    return [s for s in out if s[2] != "(!("]


def py_sites(text):
    out, lines = [], text.splitlines(True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x))
    rep = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "==", "+": "-", "-": "+", "*": "/", "/": "*", "and": "or", "or": "and", "True": "False", "False": "True",
           "+=": "-=", "-=": "+=", "is": "is not", "not": "", "in": "not in", "&": "|", "|": "&", "break": "pass", "continue": "pass", "//": "/"}
    stop = text.find('if __name__ == "__main__"')
    for c in (text.find("\nclass ") if False else -1,):
        pass
    prev = None
    for tk in tokenize.generate_tokens(io.StringIO(text).readline):
        s, e = off[tk.start[0] - 1] + tk.start[1], off[tk.end[0] - 1] + tk.end[1]
        if tk.string in rep and not (tk.string == "in" and "for" in lines[tk.start[0] - 1].split()) and not (prev in ("is", "not") and tk.string in ("not", "in")):
            out.append((s, e, rep[tk.string]))
        elif tk.type == tokenize.NUMBER and re.match(r"\d+$", tk.string):
            out += [(s, e, str(int(tk.string) + 1))] + ([(s, e, str(int(tk.string) - 1))] if int(tk.string) else [])
        elif tk.type == tokenize.NUMBER and re.match(r"\d+\.\d+$", tk.string):
            out.append((s, e, repr(float(tk.string) * 1.1 + .1)))
        elif tk.type == tokenize.STRING and len(tk.string) < 30 and not tk.string.startswith(('"""', "'''")) and tk.string[-2:-1].isalnum():
            out.append((s, e, tk.string[:-1] + "x" + tk.string[-1]))
        prev = tk.string
    for i, x in enumerate(lines):
        m = re.match(r"(\s+)([a-zA-Z_][\w.\[\]'\"]*\s*(=|\+=|\()[^#\n]*[^\s,({\[\\#])\s*$", x)
        if m and x.count("(") == x.count(")") and x.count("[") == x.count("]") and x.count("{") == x.count("}") and not re.match(r"(logging|print|def|class|import|return|log_)", m.group(2)):
            out.append((off[i] + m.start(2), off[i] + m.end(2), "pass"))
    a = text.find("unittest.TestCase")
    lim = min([v for v in (text.rfind("\nclass ", 0, a) if a >= 0 else -1, stop) if v > 0] or [len(text)])
    return [s for s in out if s[0] < lim and "logging" not in text[text.rfind("\n", 0, s[0]):text.find("\n", s[1])]]


def main():
    nw, count, seed, outp = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    targets = [a.split(":") for a in sys.argv[5:]]
    r = random.Random(seed)
    jobs = queue.Queue()
    for _ in range(count):
        f, checks = r.choice(targets)
        text = open(os.path.join(REPO, f)).read()
        sites = (py_sites if f.endswith(".py") else c_sites)(text)
        s = r.choice(sites)
        jobs.put((f, checks.split(","), text, text[:s[0]] + s[2] + text[s[1]:]))
    lock = threading.Lock()
    tot = {"killed": 0, "broken": 0, "survived": 0}

    def worker(k):
        w = "/tmp/mt/w%d.%d" % (os.getpid(), k)
        os.makedirs(w)
        subprocess.run(["cp", "-a", REPO, w + "/repo"], check=True)
        os.makedirs(w + "/verif")
        for d in ("checks", "lib", "spec", "harness", "properties.jsonl", "known_findings.json", "MANIFEST.json", "tools"):
            subprocess.run(["cp", "-a", os.path.join(VERIF, d), w + "/verif/"], check=True)
        os.makedirs(w + "/verif/evidence")
        while True:
            try:
                f, checks, old, new = jobs.get_nowait()
            except queue.Empty:
                break
            diff = "".join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), f, f, n=2))
            open(os.path.join(w, "repo", f), "w").write(new)
            res, by = "survived", ""
            try:
                if f.endswith(".py"):
                    compile(new, f, "exec")
            except SyntaxError:
                res = "broken"
            if res != "broken":
                for c in checks:
                    try:
                        p = subprocess.run([sys.executable if False else "python3", "checks/%s.py" % c], cwd=w + "/verif", env=dict(os.environ, VERIF_REPO=w + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                        if p.returncode == 1 and "VIOLATION" in p.stdout:
                            res, by = "killed", c
                            break
                        if p.returncode:
                            res, by = ("broken" if "compiling" in p.stdout or "linking" in p.stdout else "survived"), "%s rc=%d %s" % (c, p.returncode, p.stdout[-600:])
                            break
                    except subprocess.TimeoutExpired:
                        res, by = "survived", c + " timeout"
                        break
            open(os.path.join(w, "repo", f), "w").write(old)
            with lock:
                tot[res] += 1
                with open(outp, "a") as o:
                    o.write("### %s %s %s\n%s\n" % (res, f, by, diff if res == "survived" else "\n".join(x for x in diff.splitlines()[2:] if x[:1] in "+-")))
        shutil.rmtree(w)
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(nw)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    with open(outp, "a") as o:
        o.write("TOTAL %s\n" % tot)


main()
