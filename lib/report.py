"""Turns an exploration result into the check's verdict, evidence file and replay artefacts."""
import json
import os
import re
import sys
import time

from mc import VERIF, Result

KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def known_findings(prop):
    """Lines `finding: property=<id> case=<regex-free exact key, * allowed at the end> what=<text>`."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) case=(.+?) what=(.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append({"case": m.group(2), "what": m.group(3)})
    return out


def finish(prop, tier, level, res: Result, t0, rule, bounds, assumptions, extra=None, exhaustive=None):
    known = known_findings(prop)
    fresh, hit = [], {}
    for v in res.violations:
        for k in known:
            if v["key"] == k["case"]:
                hit.setdefault(k["case"], (k, v))
                break
        else:
            fresh.append(v)
    for case, (k, v) in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, k["what"], case))
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rdir, f))
    fresh.sort(key=lambda v: (len((v["replay"] or {}).get("history", [])) if isinstance(v["replay"], dict) else 0))
    for i, v in enumerate(fresh[:5]):
        path = os.path.join(rdir, "%s-%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump({"property": prop, "key": v["key"], "what": v["what"], "replay": v["replay"],
                       "how": "cd /verif && /opt/venv/bin/python run.py %s --replay %s" % (prop, path)},
                      f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  case: %s\n  %s" % (v["key"], v["what"]))
    if exhaustive is None:
        exhaustive = not res.capped
    cov = {
        "states": res.states,
        "transitions": res.transitions,
        "traces_validated_against_impl": res.traces,
        "samples": res.samples[:12] or [{"note": "no sample kept"}],
        "rule": rule,
        "bounds": bounds,
        "exhaustive": bool(exhaustive),
        "max_depth": res.depth,
        "caps_hit": res.capped,
        "distinct_outcomes": dict(sorted(res.outcomes.items())[:200]),
    }
    cov.update(extra or {})
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level, "coverage": cov, "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
        "known_findings": sorted(hit),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: states=%d transitions=%d traces=%d depth=%d outcomes=%d violations=%d known=%d %.1fs%s" % (
        prop, tier, res.states, res.transitions, res.traces, res.depth, len(res.outcomes), len(fresh), len(hit),
        time.time() - t0, " CAPPED " + "; ".join(res.capped) if res.capped else ""))
    return 1 if fresh else 0
