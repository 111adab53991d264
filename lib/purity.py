"""Histories of calls of one function on shared argument objects.

A function is described by make(v) -> list of fresh argument objects holding the v-th values (v = 0, 1, same shapes), other()
-> arguments of another shape, and its option sets.  A history is a word over
  cK    call with option set K on the shared objects
  o     call (no options) on new objects of another shape,  n  call on new objects holding the other values
  w     the caller rewrites the shared objects in place with the other values
  s     the caller overwrites the last result in place
Every call must give what the same call gives on fresh objects holding the same values: results depend on values only, never on
which objects were seen before, and belong to the caller."""
import itertools
import warnings

import numpy as np
import torch

from mc import expect, same

RGBD = ("rgb_image", "depth_image", "intrinsics", "poses")
PC = ("points", "normals", "colors", "features")


def kind(x):
    return type(x).__name__


def flat(x, path="result"):
    """[(path, leaf)]: arrays and plain values held by a result."""
    if kind(x) == "Pointclouds":
        return [y for a in PC for y in flat(getattr(x, a + "_list"), path + "." + a)]
    if kind(x) == "RGBDImages":
        return [y for a in RGBD for y in flat(getattr(x, a), path + "." + a)]
    if isinstance(x, dict):
        return [(path + " keys", list(x))] + [y for k, v in x.items() for y in flat(v, "%s[%r]" % (path, k))]
    if isinstance(x, (list, tuple)):
        return [(path + " length", len(x))] + [y for i, v in enumerate(x) for y in flat(v, "%s[%d]" % (path, i))]
    if torch.is_tensor(x):
        return [(path, x.detach().cpu().numpy().copy())]
    return [(path, x.copy() if isinstance(x, np.ndarray) else x)]


def spoil(x):
    if kind(x) == "Pointclouds":
        for a in PC:
            spoil(getattr(x, a + "_list"))
    elif kind(x) == "RGBDImages":
        for a in RGBD:
            spoil(getattr(x, a))
    elif isinstance(x, dict):
        for v in x.values():
            spoil(v)
        x.clear()
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v)
        if isinstance(x, list):
            del x[:]
    elif torch.is_tensor(x):
        try:
            x.detach().fill_(1 if x.dtype == torch.bool else 7)
        except RuntimeError:  # several entries share one place
            pass
    elif isinstance(x, np.ndarray) and x.flags.writeable:
        x[...] = 7


def rewrite(x, y):
    """Give the object x the values of y, in place."""
    if kind(x) == "Pointclouds":
        for a in PC:
            l = getattr(x, a + "_list")
            if l is not None:
                for t, u in zip(l, getattr(y, a + "_list")):
                    t.copy_(u)
                setattr(x, a + "_list", l)
    elif kind(x) == "RGBDImages":
        for a in RGBD:
            t = getattr(x, a)
            if t is not None:
                t.copy_(getattr(y, a))
                setattr(x, a, t)
    elif torch.is_tensor(x):
        x.copy_(y)
    elif isinstance(x, np.ndarray):
        x[...] = y
    elif isinstance(x, list):
        if len(x) == len(y) and all(torch.is_tensor(t) or isinstance(t, np.ndarray) for t in x):
            for t, u in zip(x, y):
                rewrite(t, u)
        else:
            x[:] = y
    elif isinstance(x, dict):
        x.clear()
        x.update(y)


class F:
    def __init__(self, f, make, opts=({},), other=None, depth=4, context=None):
        self.f, self.make, self.opts, self.other, self.depth, self.context = f, make, list(opts), other, depth, context
        self.want = {}

    def expected(self, k, v):
        if (k, v) not in self.want:
            self.want[k, v] = flat(self.f(*self.other()) if v == "o" else self.f(*self.make(v), **self.opts[k]))
        return self.want[k, v]


def cases(table, tier="quick"):
    """table() -> {name: F}."""
    for name, f in table().items():
        ops = ["c%d" % k for k in range(len(f.opts))] + ["n", "w", "s"] + (["o"] if f.other else [])
        for n in range(2, f.depth + 1 + (tier == "thorough")):
            for h in itertools.product(ops, repeat=n):
                if h[0][0] in "ws" or h[-1][0] in "ws" or any(a == b and a[0] in "ws" for a, b in zip(h, h[1:])):
                    continue
                yield "%s/%s" % (name, " ".join(h)), (name, h)


_TABLES = {}


def checker(table):
    def check(case):
        name, h = case
        if table not in _TABLES:
            _TABLES[table] = table()
        f = _TABLES[table][name]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for k in range(len(f.opts)):
                for v in (0, 1):
                    f.expected(k, v)
            if f.other:
                f.expected(0, "o")
            args, v, last = f.make(0), 0, None
            for t, op in enumerate(h):
                if op == "w":
                    v = 1 - v
                    for x, y in zip(args, f.make(v)):
                        rewrite(x, y)
                elif op == "s":
                    spoil(last)
                    last = None
                    for x, y in zip(args, f.make(v)):
                        rewrite(x, y)
                else:
                    if op[0] == "c":
                        a, k, u = args, int(op[1:]), v
                    else:
                        a, k, u = (f.other(), 0, "o") if op == "o" else (f.make(1 - v), 0, 1 - v)
                    last = f.f(*a, **({} if op == "o" else f.opts[k]))
                    got, want = flat(last), f.expected(k, u)
                    w = "call %d of '%s'" % (t, " ".join(h))
                    expect([p for p, _ in got] == [p for p, _ in want], "%s returned parts %s, expected %s" % (w, [p for p, _ in got][:8], [p for p, _ in want][:8]))
                    for (p, x), (_, y) in zip(got, want):
                        if isinstance(y, np.ndarray) and y.dtype.kind in "fiub":
                            expect(x.dtype == y.dtype, "%s: %s has type %s, expected %s" % (w, p, x.dtype, y.dtype))
                            same(x, y, "%s: %s" % (w, p), 1e-6)
                        else:
                            expect(np.array_equal(x, y) if isinstance(y, np.ndarray) else x == y, "%s: %s is %r, expected %r" % (w, p, x, y))
        return name, sum(op[0] in "cno" for op in h)
    return check


def sweep(table, tier="quick"):
    return ("histories of calls", lambda: cases(table, tier), checker(table))
