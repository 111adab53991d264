"""Common shape of checks made of one or more exhaustive sweeps and/or history machines."""
import mc
import report


def run(prop, tier, t0, sweeps=(), machines=(), rule="", bounds=None, assumptions=(), split=8):
    """sweeps: (name, cases_fn, check_fn); machines: (factory, configs, depth)."""
    tasks = []
    for f, configs, depth in machines:
        tasks += mc.explore_tasks(f, configs, depth, split=split)
    for name, cases, check in sweeps:
        tasks += mc.sweep_tasks(cases, name, check, split=split)
    res = mc.run_tasks(tasks)
    b = dict(bounds or {})
    for f, configs, depth in machines:
        b["machine " + f.__name__] = {"depth": depth if not callable(depth) else "per configuration",
                                      "configurations": [c[0] for c in configs],
                                      "alphabet": list(f(*configs[0]).ops)}
    b["sweeps"] = [s[0] for s in sweeps]
    return report.finish(prop, tier, "model_checking", res, t0, rule, b, list(assumptions))


def replay(doc, sweeps=(), machines=()):
    if "sweep" in doc:
        for name, cases, check in sweeps:
            if name == doc["sweep"]:
                return mc.replay_sweep(cases, check, doc["case"])
    for f, configs, depth in machines:
        for c in configs:
            if c[0] == doc.get("machine"):
                return mc.replay_history(f(*c), doc["history"])
    print("nothing to replay")
    return 2
