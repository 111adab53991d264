"""Development tool: appends `fixed:` lines to KNOWN_FINDINGS.txt.  stdin: <property> | <commit subject> | <what failed>"""
import subprocess
import sys

log = {}
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    log[s] = h
with open("/verif/KNOWN_FINDINGS.txt", "a") as f:
    for l in sys.stdin:
        if l.strip():
            p, s, w = [x.strip() for x in l.split("|")]
            f.write("fixed: property=%s %s %s\n" % (p, log[s], w))
