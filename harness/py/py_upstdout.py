"""Runs the real uploader program (uploader.main) on a little of everything and returns what it wrote to its standard output:
in the start scripts with several decoders that is where the next decoder's samples go through."""
import sys, os, io, json, shutil, tempfile
import clock, standin, fakesock
import time
_sleep = time.sleep
time.sleep = lambda d: _sleep(min(d, 0.0005))
job = json.loads(sys.stdin.read())
base = tempfile.mkdtemp(prefix="upo")
keep = os.dup(1)
tmp = os.path.join(base, "stdout")
fd = os.open(tmp, os.O_RDWR | os.O_CREAT, 0o600)
os.dup2(fd, 1)
try:
    os.chdir(base)
    open("user.cfg", "w").write(job["cfg"])
    standin.HTTP = lambda m, u, h, b: (404, "") if m == "GET" else (200, "{}")
    import horusdemodlib.uploader as U
    for argv in job["argv"]:
        sys.argv = ["horus_uploader"] + argv
        sys.stdin = io.TextIOWrapper(io.BytesIO(bytes.fromhex(job["lines"])))
        try:
            U.main()
        except SystemExit:
            pass
    sys.stdout.flush()
finally:
    os.dup2(keep, 1)
    got = open(tmp, "rb").read()
    os.chdir("/")
    shutil.rmtree(base)
print("RESULT " + json.dumps({"out": got.hex()}))
