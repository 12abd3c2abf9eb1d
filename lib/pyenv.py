"""Running harness scripts (harness/py/*) against /repo's Python package, with a freshly built C extension."""
import json, os, subprocess
from common import *

_BUILD = r'''
import os, sys
os.chdir(sys.argv[1]); sys.path.insert(0, sys.argv[1])
out = sys.argv[2]
from setuptools import setup
import build_lib
kw = {"name": "horusdemodlib", "version": "0", "packages": [], "py_modules": []}
build_lib.build(kw)
os.chdir(sys.argv[1])
setup(script_name="b.py", script_args=["-q", "build_ext", "--force", "--build-lib", out, "--build-temp", out + "-tmp"], **kw)
'''


class Env:
    def __init__(self, ext):
        self.env = dict(os.environ)
        for k in ("PYTHONHOME",):
            self.env.pop(k, None)
        self.env.update(PYTHONPATH=":".join(x for x in (ext, REPO, os.path.join(VERIF, "harness", "py")) if x), PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8",
                        TZ="UTC", PYTHONWARNINGS="ignore", HORUS_REPO=REPO)

    def call(self, script, job, timeout=800, cwd=None, env=None):
        """Run harness/py/<script>, JSON job on stdin, JSON result on stdout (last line)."""
        e = dict(self.env)
        e.update(env or {})
        try:
            r = subprocess.run([HVENV, os.path.join(VERIF, "harness", "py", script)], input=json.dumps(job), text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout, cwd=cwd or "/tmp")
        except subprocess.TimeoutExpired:
            raise Violation("%s did not finish in %d s: the code under test hangs" % (script, timeout), {"script": script})
        lines = r.stdout.splitlines()
        if r.returncode or not lines or not lines[-1].startswith("RESULT "):
            raise ToolError("%s failed rc=%s\n%s\n%s" % (script, r.returncode, r.stdout[-500:], r.stderr[-3000:]))
        return json.loads(lines[-1][7:])


def build(d, ext=True):
    if not ext:
        return Env(None)
    out = os.path.join(d, "py")
    r = subprocess.run([HVENV, "-c", _BUILD, REPO, out], text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", CC="gcc"), cwd="/tmp")
    if r.returncode:
        raise ToolError("building the Python extension failed:\n" + r.stdout[-3000:])
    return Env(out)
