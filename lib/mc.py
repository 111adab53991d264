"""Bounded exhaustive explorers over the real implementation.

Two shapes of exploration, both deciding by complete enumeration inside stated bounds:

* ``explore`` -- explicit-state breadth-first search over operation histories.  A state is the history
  reaching it; every transition rebuilds the real object by replaying that history from its initial
  state and then applies one more operation, in lockstep with a boring reference model.  States are
  merged only when the *complete* concrete state of the live objects (every attribute, every tensor
  byte, requires_grad flag and storage-aliasing relation) and the reference model state coincide, so
  merged states have the same futures.
* ``sweep`` -- complete enumeration of a finite product of argument domains, the reference model being
  evaluated on every element.
"""
import collections
import itertools
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

import numpy as np
import torch

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ---------------------------------------------------------------- concrete state fingerprints
def fingerprint(obj):
    """Hashable image of the full concrete state reachable from obj (attributes, bytes, aliasing)."""
    storages = {}
    seen = {}
    return _fp(obj, storages, seen)


def _fp(o, st, seen):
    if o is None or isinstance(o, (bool, int, float, str, bytes, complex)):
        return (type(o).__name__, o if o == o else "nan")
    if isinstance(o, torch.Tensor):
        try:
            key = o.untyped_storage().data_ptr()
        except Exception:
            key = id(o)
        if o.numel() == 0:
            sid = -1
        else:
            sid = st.setdefault(key, len(st))
        d = o.detach()
        return (
            "T", str(o.dtype), tuple(o.shape), sid, o.storage_offset() if o.numel() else 0,
            bool(o.requires_grad), d.contiguous().cpu().numpy().tobytes(),
        )
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("NO", o.shape, tuple(_fp(x, st, seen) for x in o.ravel().tolist()))
        return ("N", str(o.dtype), o.shape, np.ascontiguousarray(o).tobytes())
    if isinstance(o, np.generic):
        return ("n", str(o.dtype), o.item() if o == o else "nan")
    if isinstance(o, (torch.device, torch.dtype, torch.Size)):
        return ("d", str(o))
    if isinstance(o, (list, tuple, collections.deque)):
        return (type(o).__name__, tuple(_fp(x, st, seen) for x in o))
    if isinstance(o, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, o))))
    if callable(o) and not hasattr(o, "__dict__"):
        return ("fn", getattr(o, "__qualname__", type(o).__name__))
    if id(o) in seen:
        return ("ref", seen[id(o)])
    seen[id(o)] = len(seen)
    items = ()
    if isinstance(o, dict):
        items = tuple((repr(k), _fp(v, st, seen)) for k, v in o.items())
    d = getattr(o, "__dict__", None) or {}
    attrs = tuple((k, _fp(d[k], st, seen)) for k in sorted(d)) if isinstance(d, dict) else ()
    slots = ()
    for cls in type(o).__mro__:
        names = cls.__dict__.get("__slots__", ())
        for n in (names,) if isinstance(names, str) else names:
            if n not in ("__dict__", "__weakref__") and hasattr(o, n):
                slots += ((n, _fp(getattr(o, n), st, seen)),)
    return ("O", type(o).__name__, items, attrs, slots)


# ---------------------------------------------------------------- results
FAILFAST = os.environ.get("MC_FAILFAST")


class Result:
    """Mergeable record of one exploration task."""

    MAXV = 40

    def __init__(self):
        self._states = 0
        self.keys = set()  # distinct concrete states (config, hash) of history explorations
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()
        self.violations = []  # dicts: key, what, replay
        self.nviol = 0
        self.samples = []
        self.capped = []
        self.depth = 0

    @property
    def states(self):
        return self._states + len(self.keys)

    @states.setter
    def states(self, v):
        self._states = v - len(self.keys)

    def violate(self, key, what, replay=None):
        self.nviol += 1
        if FAILFAST:  # development only (tools/mutate.py): the first violation ends the whole process group
            with open(FAILFAST, "w") as f:
                f.write("%s\n%s\n" % (key, str(what)[:300]))
            os.killpg(0, signal.SIGKILL)
        if len(self.violations) < self.MAXV:
            self.violations.append({"key": str(key), "what": str(what)[:2000], "replay": replay})

    def merge(self, o):
        self._states += o._states
        self.keys |= o.keys
        self.transitions += o.transitions
        self.traces += o.traces
        self.outcomes.update(o.outcomes)
        self.violations += o.violations
        self.nviol += o.nviol
        self.samples += o.samples[:2]
        self.capped += o.capped
        self.depth = max(self.depth, o.depth)
        return self


class Mismatch(Exception):
    """Raised by observers: the implementation disagrees with the reference model."""


def short_exc(e):
    return "%s: %s" % (type(e).__name__, str(e).split("\n")[0][:200])


# ---------------------------------------------------------------- history explorer
class Op:
    """One operation of an alphabet.

    args(m)        -> concrete arguments, computed from the model's pre-state (default None)
    model(m, a)    -> ("ok", expected) | ("raise", exception types); mutates the model on success
    impl(s, a)     -> the real call; mutates the real state
    enabled(m)     -> may the driver issue it here
    """

    __slots__ = ("name", "model", "impl", "args", "enabled")

    def __init__(self, name, model, impl, args=None, enabled=None):
        self.name, self.model, self.impl, self.args, self.enabled = name, model, impl, args, enabled


class Machine:
    """A closed system: build() -> fresh (impl, model); ops: name -> Op; observe(s, m) raises Mismatch."""

    name = "machine"
    ops = {}

    def build(self):
        raise NotImplementedError

    def add(self, name, model, impl, args=None, enabled=None):
        self.ops[name] = Op(name, model, impl, args, enabled)

    def compare(self, name, got, want):
        """want is the model's expected result; None means nothing to compare."""
        if callable(want):
            want(got)

    def observe(self, s, m):
        pass

    def model_key(self, m):
        return fingerprint(m)

    def replay_doc(self, hist):
        return {"machine": self.name, "history": list(hist)}


def run_step(mach, s, m, op):
    """One lockstep transition.  Returns (outcome label, violation text or None)."""
    o = mach.ops[op]
    args = o.args(m) if o.args else None
    want = o.model(m, args)
    try:
        got = o.impl(s, args)
        exc = None
    except Mismatch as e:
        return "mismatch", str(e)
    except Exception as e:  # noqa: BLE001
        got, exc = None, e
    if want[0] == "raise":
        if exc is None:
            return "no-raise", "operation %s should be rejected but succeeded" % op
        if want[1] and not isinstance(exc, want[1]):
            return "wrong-exc", "operation %s rejected with %s, documented: %s" % (
                op, short_exc(exc), want[1])
        return "rejected", None
    if exc is not None:
        return "exception", "operation %s failed: %s" % (op, short_exc(exc))
    try:
        mach.compare(op, got, want[1])
    except Mismatch as e:
        return "mismatch", "result of %s: %s" % (op, e)
    except Exception as e:  # noqa: BLE001
        return "exception", "result of %s cannot be read: %s" % (op, short_exc(e))
    return "ok", None


def observe(mach, s, m):
    try:
        mach.observe(s, m)
    except Mismatch as e:
        return str(e)
    except Exception as e:  # noqa: BLE001
        return "reading the state failed: " + short_exc(e)
    return None


def explore(mach, depth, max_transitions=None, res=None, first_ops=None, alphabet=None):
    """Breadth-first search over every history of length <= depth.

    first_ops restricts only the first operation (used to split one search over several processes; the
    union over the parts is the full space).  alphabet(level) restricts later levels (a stated bound)."""
    res = res or Result()
    allops = list(mach.ops)
    s, m = mach.build()
    fp0 = hash((fingerprint(s), mach.model_key(m)))
    err = observe(mach, s, m)
    res.keys.add((mach.name, fp0))
    if err:
        res.violate("%s/<init>" % mach.name, err, mach.replay_doc([]))
        return res
    seen = {fp0}
    frontier = [((), fp0)]
    for level in range(depth):
        nxt = []
        ops = allops if alphabet is None else [o for o in allops if o in alphabet(level)]
        if level == 0 and first_ops is not None:
            ops = [o for o in ops if o in first_ops]
        for hist, fph in frontier:
            expanded = False
            checked = False
            for op in ops:
                s, m = mach.build()
                bad = None
                for h in hist:
                    lab, bad = run_step(mach, s, m, h)
                    if bad:
                        break
                if bad:
                    res.violate("%s/%s" % (mach.name, ",".join(hist)),
                                "replay diverged (same history, different behaviour): " + bad,
                                mach.replay_doc(hist))
                    break
                if not checked:
                    checked = True
                    if hash((fingerprint(s), mach.model_key(m))) != fph:
                        res.violate("%s/%s" % (mach.name, ",".join(hist)),
                                    "same history reaches two different concrete states",
                                    mach.replay_doc(hist))
                        break
                en = mach.ops[op].enabled
                if en is not None and not en(m):
                    continue
                expanded = True
                lab, bad = run_step(mach, s, m, op)
                res.transitions += 1
                res.outcomes[op.split("(")[0] + ":" + lab] += 1
                h2 = hist + (op,)
                if bad is None:
                    key = hash((fingerprint(s), mach.model_key(m)))
                    bad = observe(mach, s, m)
                if bad:
                    res.violate("%s/%s" % (mach.name, ",".join(h2)), bad, mach.replay_doc(h2))
                    continue
                res.depth = max(res.depth, len(h2))
                if level + 1 == depth:
                    res.traces += 1
                if key not in seen:
                    seen.add(key)
                    res.keys.add((mach.name, key))
                    if level + 1 < depth:
                        nxt.append((h2, key))
                    elif len(res.samples) < 2:
                        res.samples.append({"machine": mach.name, "history": list(h2), "verdict": "conforms"})
                elif level + 1 < depth:
                    res.traces += 1  # history ends in an already explored state
                if max_transitions and res.transitions >= max_transitions:
                    res.capped.append("%s: transition cap %d hit at depth %d" % (mach.name, max_transitions, level + 1))
                    return res
            if not expanded:
                res.traces += 1
        frontier = nxt
        if not frontier:
            break
    return res


def explore_tasks(factory, configs, depth, split=8, **kw):
    """Splits each configuration's search by its first operation into `split` parts."""
    tasks = []
    for cfg in configs:
        d = depth(cfg) if callable(depth) else depth
        names = list(factory(*cfg).ops)
        k = max(1, min(split, len(names)))
        for i in range(k):
            tasks.append((_explore_part, (factory, cfg, d, names[i::k], kw)))
    return tasks


def _explore_part(factory, cfg, depth, first, kw):
    return explore(factory(*cfg), depth, first_ops=set(first), **kw)


def replay_history(mach, hist):
    """Re-executes one recorded history step by step, printing every step; returns 1 if it still fails."""
    s, m = mach.build()
    err = observe(mach, s, m)
    print("<init>:", err or "conforms")
    for i, op in enumerate(hist):
        lab, bad = run_step(mach, s, m, op)
        if bad is None and i == len(hist) - 1:
            bad = observe(mach, s, m)  # only at the end: reading materialises lazily built state
        print("%-40s %s" % (op, bad or lab))
        if bad:
            return 1
    return 0


# ---------------------------------------------------------------- parallel driver
_TASKS = None


def _run_task(i):
    fn, args = _TASKS[i]

    def _alarm(sig, frame):
        raise TimeoutError("no answer within %d s" % limit)

    limit = int(os.environ.get("VERIF_TASK_LIMIT", "600" if os.environ.get("VERIF_TIER") != "thorough" else "7200"))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        torch.manual_seed(1)
        np.random.seed(1)
        r = fn(*args)
        if not isinstance(r, Result):
            raise TypeError("task returned %r" % type(r))
        return r
    except Exception as e:  # a harness that cannot finish cannot certify the property
        r = Result()
        r.violate("harness/%s" % (getattr(fn, "__name__", "task")),
                  "exploration could not interpret the implementation: %s\n%s" % (short_exc(e), traceback.format_exc()[-1500:]))
        return r
    finally:
        signal.alarm(0)


def run_tasks(tasks, procs=None):
    """tasks: list of (fn, args); each returns a Result.  Deterministic order of merging."""
    global _TASKS
    _TASKS = tasks
    procs = procs or min(int(os.environ.get("VERIF_PROCS", "8")), os.cpu_count() or 1, max(1, len(tasks)))
    total = Result()
    if procs == 1:
        for i in range(len(tasks)):
            total.merge(_run_task(i))
        return total
    ctx = mp.get_context("fork")
    with ctx.Pool(procs, maxtasksperchild=None) as pool:
        for r in pool.imap(_run_task, range(len(tasks)), chunksize=1):
            total.merge(r)
    return total


# ---------------------------------------------------------------- comparisons
def to_np(x):
    if isinstance(x, torch.Tensor):
        return x.detach().cpu().numpy()
    return np.asarray(x)


def same(got, want, what, tol=1e-4, shape=True):
    """Raise Mismatch unless got (tensor/array) equals want within tolerance, with equal shape."""
    if want is None or got is None:
        if want is None and got is None:
            return
        raise Mismatch("%s: got %s, expected %s" % (what, _desc(got), _desc(want)))
    g, w = to_np(got), to_np(want)
    if shape and g.shape != w.shape:
        raise Mismatch("%s: shape %s, expected %s" % (what, g.shape, w.shape))
    if g.dtype == bool or w.dtype == bool:
        if not np.array_equal(g.astype(bool), w.astype(bool)):
            raise Mismatch("%s: got %s, expected %s" % (what, _desc(g), _desc(w)))
        return
    if g.dtype == np.uint8:
        g = g.astype(np.float64)
    if w.dtype == np.uint8:
        w = w.astype(np.float64)
    if g.shape != w.shape:
        raise Mismatch("%s: shape %s, expected %s" % (what, g.shape, w.shape))
    if g.size == 0 or (np.abs(g - w) <= tol + tol * np.abs(w)).all():
        return
    if not np.allclose(g.astype(np.float64), w.astype(np.float64), rtol=tol, atol=tol, equal_nan=True):
        raise Mismatch("%s: got %s, expected %s" % (what, _desc(g), _desc(w)))


def _desc(x):
    if x is None:
        return "None"
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(_desc(i) for i in x) + "]"
    a = to_np(x)
    s = np.array2string(np.asarray(a), precision=4, threshold=60).replace("\n", "")
    return s[:400]


def expect(cond, msg):
    if not cond:
        raise Mismatch(msg)


# ---------------------------------------------------------------- exhaustive input sweeps
def sweep(name, cases, check, res=None, label=None):
    """Runs check(case) -> outcome label for every case of a finite domain; Mismatch/any exception is a violation.

    cases yields (key, case); the key identifies the case for replay and for known findings."""
    res = res or Result()
    for key, case in cases:
        res._states += 1
        ncalls = 1
        try:
            out = check(case)
            if isinstance(out, tuple):
                out, ncalls = out
            res.outcomes[str(out or "ok")] += 1
        except Mismatch as e:
            res.violate("%s/%s" % (name, key), str(e), {"sweep": name, "case": key})
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
            res.violate("%s/%s" % (name, key), "%s (%s)" % (short_exc(e), where), {"sweep": name, "case": key})
        res.transitions += ncalls
        res.traces += 1
        if len(res.samples) < 2 and (res.traces % 97 == 5 or res.traces == 1):
            res.samples.append({"sweep": name, "case": key, "verdict": "conforms" if not res.nviol else "see violations"})
    return res


def raises(fn, excs):
    """fn() must be rejected with one of excs."""
    try:
        fn()
    except excs:
        return True
    except Exception as e:  # noqa: BLE001
        raise Mismatch("rejected with %s instead of %s" % (short_exc(e), excs))
    raise Mismatch("accepted, but must be rejected")


def split_range(n, k):
    """k contiguous index ranges covering range(n)."""
    k = max(1, min(k, n))
    q = [n * i // k for i in range(k + 1)]
    return [(q[i], q[i + 1]) for i in range(k) if q[i] < q[i + 1]]


def sweep_tasks(mod_cases, name, check, split=8):
    """mod_cases: function returning the full ordered list/generator of (key, case); each worker takes every k-th."""
    return [(_sweep_part, (mod_cases, name, check, i, split)) for i in range(split)]


def _sweep_part(mod_cases, name, check, i, k):
    return sweep(name, itertools.islice(iter(mod_cases()), i, None, k), check)


def replay_sweep(mod_cases, check, key):
    for k, case in mod_cases():
        if k == key:
            try:
                out = check(case)
            except Exception as e:  # noqa: BLE001
                print("%s: %s" % (key, short_exc(e)))
                return 1
            print("%s: %s" % (key, out or "conforms"))
            return 0
    print("no such case", key)
    return 2
