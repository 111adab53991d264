"""Development tool: builds and confirms planted bugs.  plant.py SPEC.py [--nocheck]

SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)].  For each seed it makes
the change in a scratch copy of /repo, writes seeded/<id>/, confirms demo (0 without, nonzero with), the stable
tests, and reports whether the property's check notices (GRADSLAM_REPO=<copy>)."""
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
PY = "/opt/venv/bin/python"


def sh(cmd, cwd=W, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def stable(cwd):
    rep = "/tmp/seedwork-junit.xml"
    sh(PY + " -m pytest tests -q -p gradslam_without_open3d -p no:cacheprovider --ignore=tests/slam/test_fusionutils.py "
       "--ignore=tests/structures/test_pointclouds.py --ignore=tests/structures/test_utils.py --ignore=tests/odometry/test_gradicp.py "
       "--ignore=tests/odometry/test_icp.py --ignore=tests/odometry/test_icputils.py --continue-on-collection-errors "
       "-o junit_family=xunit2 --junitxml=" + rep, cwd=cwd,
       env={"PYTHONPATH": "%s:/opt/vp/harness" % cwd, "CUDA_VISIBLE_DEVICES": "", "OMP_NUM_THREADS": "4"})
    ok = set()
    for c in ET.parse(rep).iter("testcase"):
        if not len([k for k in c if k.tag in ("failure", "error", "skipped")]):
            ok.add("%s::%s" % (c.get("classname"), c.get("name")))
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(want - ok)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    if os.path.exists(W):
        shutil.rmtree(W)
    subprocess.check_call(["cp", "-a", "/repo", W])
    for s in spec["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = os.path.join(HERE, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        sh("git checkout -q -- .")
        shutil.copy(os.path.join(HERE, "lib/stubs/open3d.py"), os.path.join(d, "open3d.py"))
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(s["demo"].strip() + "\n")
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                    'export PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=2\n'
                    'exec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % d)
        bad = []
        for fn, old, new in s["edits"]:
            p = os.path.join(W, fn)
            t = open(p).read()
            if t.count(old) != 1:
                bad.append("edit of %s matches %d times" % (fn, t.count(old)))
                continue
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff").stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        r1 = sh("bash %s/demo.sh" % d)
        if r0.returncode != 0:
            bad.append("demo fails unpatched: " + r0.stdout[-600:])
        if r1.returncode == 0:
            bad.append("demo passes patched")
        miss = stable(W)
        if miss:
            bad.append("stable tests broken: %s" % miss[:3])
        verdict = "-"
        if "--nocheck" not in sys.argv and os.path.exists(os.path.join(HERE, "checks", s["prop"].lower() + ".py")):
            c = sh("%s run.py %s --tier quick" % (PY, s["prop"]), cwd=HERE, env={"GRADSLAM_REPO": W})
            verdict = {0: "MISSED", 1: "caught"}.get(c.returncode, "ERROR rc=%d" % c.returncode)
            if c.returncode not in (0, 1):
                bad.append(c.stdout[-800:])
        print("%-28s %s %s %s" % (s["id"], s["prop"], verdict, "; ".join(bad) or "valid"), flush=True)
        if r1.returncode and r1.stdout.strip():
            print("      demo: " + r1.stdout.strip().splitlines()[-1][:160])
    shutil.rmtree(W)


if __name__ == "__main__":
    main()
