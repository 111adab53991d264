"""Entry point of every check: run.py <property> [--tier quick|thorough] [--replay FILE]."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--depth", type=int)
    a = ap.parse_args()
    t0 = time.time()
    import gsenv  # noqa: F401
    import report
    from mc import Result, short_exc

    try:
        import gradslam  # noqa: F401
        mod = importlib.import_module(a.prop.lower())
    except Exception as e:  # the library cannot even be loaded: no property of it holds
        r = Result()
        r.violate("import", "gradslam cannot be imported: %s\n%s" % (short_exc(e), traceback.format_exc()[-1500:]))
        sys.exit(report.finish(a.prop, a.tier, "model_checking", r, t0, "import", {}, []))
    if a.replay:
        doc = json.load(open(a.replay))
        print(json.dumps(doc, indent=1))
        sys.exit(mod.replay(doc["replay"]))
    sys.exit(mod.main(a.tier, t0))


if __name__ == "__main__":
    main()
