"""Runs one property's check against single-edit variants of the code (developer tool; nothing it makes is kept).

usage: probe.py SPEC.py [name ...]     SPEC.py defines PROBES = [(name, property, [(file, old, new), ...]), ...]
"""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor


def one(p):
    name, prop, edits = p
    d = tempfile.mkdtemp(prefix="probe-")
    t = time.time()
    try:
        r = os.path.join(d, "repo")
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git", "docs", "examples", "tests"), symlinks=True)
        for f, a, b in edits:
            q = os.path.join(r, f if f.startswith("gradslam/") else "gradslam/" + f)
            s = open(q).read()
            if s.count(a) != 1:
                return name, prop, "BAD EDIT (%d matches of %r)" % (s.count(a), a[:60]), 0
            open(q, "w").write(s.replace(a, b))
        for f, _, _ in edits:
            q = os.path.join(r, f if f.startswith("gradslam/") else "gradslam/" + f)
            c = subprocess.run([sys.executable, "-c", "compile(open(%r).read(), 'x', 'exec')" % q], capture_output=True, text=True)
            if c.returncode:
                return name, prop, "DOES NOT COMPILE " + c.stderr[-200:], 0
        env = dict(os.environ, GRADSLAM_REPO=r, MC_FAILFAST=os.path.join(d, "ff"), VERIF_SEED="1", VERIF_TIER="quick", MC_EVIDENCE=os.path.join(d, "ev"))
        out = subprocess.run(["/opt/venv/bin/python", "/verif/run.py", prop], capture_output=True, text=True, env=env, cwd="/verif", timeout=1800, start_new_session=True)
        lines = [x for x in (out.stdout + out.stderr).splitlines() if "VIOLATION" in x or "MESSAGE" in x or "Error" in x]
        ff = os.path.join(d, "ff")
        if os.path.exists(ff):
            return name, prop, "caught   " + open(ff).read().replace("\n", " ")[:150], time.time() - t
        v = "caught" if out.returncode == 1 else ("MISSED" if out.returncode == 0 else "EXIT %d %s" % (out.returncode, out.stderr[-300:]))
        return name, prop, v + ("   " + lines[0][:150] if lines else ""), time.time() - t
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    sp = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    todo = [p for p in m.PROBES if len(sys.argv) == 2 or p[0] in sys.argv[2:] or p[1] in sys.argv[2:]]
    with ThreadPoolExecutor(2) as ex:
        for name, prop, v, t in ex.map(one, todo):
            print("%-40s %s %5.0fs %s" % (name, prop, t, v), flush=True)
