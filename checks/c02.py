"""C02: results and copies of point-cloud batches are independent; only in-place calls change a receiver."""
import numpy as np
import torch

import mc
import report
from c01 import tens
from mc import Machine, Mismatch, expect, same
from pcmodel import ATTRS, K1, PC, R1, R2, T1, T2, data, make, observe_pc, val


def views(pc):
    out = []
    for a in ATTRS:
        v = getattr(pc, a + "_list")
        out += list(v) if v is not None else []
        v = getattr(pc, a + "_padded")
        out += [v] if v is not None else []
    if pc.nonpad_mask is not None:
        out.append(pc.nonpad_mask)
    if pc.num_points_per_pointcloud is not None:
        out.append(pc.num_points_per_pointcloud)
    return out


def scribble(ts):
    """Overwrite the contents of every tensor a caller can get hold of."""
    with torch.no_grad():
        for t in ts:
            if t.dtype == torch.bool:
                t.logical_not_()
            else:
                t.add_(7)


class State:
    def __init__(self, a):
        self.a, self.b, self.held = a, None, []


class M:
    def __init__(self, a):
        self.a, self.b = a, None
        self.grad_a = frozenset()  # the attributes whose views carry a gradient graph
        self.grad_b = frozenset()
        self.raw = None  # register whose tensors were overwritten directly: its own contents are undefined
        self.shares = False  # b was obtained by indexing, which is documented not to copy


class IsoMachine(Machine):
    def __init__(self, name, counts, attrs, form, grad=False):
        self.name, self.counts, self.attrs, self.form, self.grad = name, counts, attrs, form, grad
        self.ops = {}
        self.alphabet()

    def build(self):
        if self.form == "empty":
            return State(make({}, "empty")), M(PC())
        d = data(self.counts, self.attrs)
        m = M(PC(d))
        m.grad_a = frozenset(x for x in ATTRS if d.get(x) is not None) if self.grad else frozenset()
        return State(make(d, self.form, requires_grad=self.grad)), m

    def model_key(self, m):
        return mc.fingerprint([m.a.d, None if m.b is None else m.b.d, sorted(m.grad_a), sorted(m.grad_b), m.raw or "", m.shares])

    def observe(self, s, m):
        if m.raw != "a":
            observe_pc(s.a, m.a, "original")
        if m.b is not None and m.raw != "b":
            observe_pc(s.b, m.b, "result")
        for reg, pc, g in (("original", s.a, m.grad_a), ("result", s.b, m.grad_b)):
            if pc is None or not pc.has_points:
                continue
            for x in ATTRS:
                if getattr(pc, x + "_list") is None:
                    continue
                for w, v in (("list", getattr(pc, x + "_list")[0]), ("padded", getattr(pc, x + "_padded"))):
                    expect(bool(v.requires_grad) == (x in g),
                           "%s: requires_grad of %s_%s is %s, expected %s" % (reg, x, w, v.requires_grad, x in g))

    def alphabet(self):
        def live_a(m):
            return m.raw is None

        # --- put the original into different internal forms first
        for attr in ("points_padded", "points_list", "nonpad_mask"):
            self.add("read a.%s" % attr, lambda m, a: ("ok", None),
                     lambda s, a, attr=attr: (getattr(s.a, attr), None)[1], None, lambda m: m.b is None)

        def setall(m, v):
            m.a.d.update(v)
            return ("ok", None)

        def set_list(s, v):
            for x in v:
                ts = [tens(y) for y in v[x]]
                setattr(s.a, x + "_list", ts)
                s.held += ts

        def set_padded(s, v):
            for x in v:
                n = max(len(y) for y in v[x])
                P = torch.zeros(len(v[x]), n, v[x][0].shape[1])
                for b, y in enumerate(v[x]):
                    P[b, : len(y)] = tens(y)
                setattr(s.a, x + "_padded", P)
                s.held.append(P)

        def vals(m):
            return {x: [val(77 + 10 * i + b, n, m.a.d[x][b].shape[1] if m.a.d[x] is not None else 3, base=0.5) for b, n in enumerate(m.a.counts)]
                    for i, x in enumerate(ATTRS) if m.a.d[x] is not None or x == "normals"}
        ok_set = lambda m: m.b is None and m.a.has and m.raw is None and not m.grad_a  # noqa: E731
        self.add("a.set every list", setall, set_list, vals, ok_set)
        self.add("a.set every padded", setall, set_padded, vals, ok_set)
        self.add("caller overwrites tensors given to setters", lambda m, a: ("ok", None),
                 lambda s, a: scribble(s.held), None, lambda m: m.raw is None)

        # --- derive a result
        def derive(name, mfun, ifun, enabled=None, grad=True, shares=False):
            def model(m, a):
                m.b = mfun(m.a)
                m.grad_b = m.grad_a if grad else frozenset()
                m.shares = shares
                return ("ok", None)

            def impl(s, a):
                s.b = ifun(s.a)
                expect(s.b is not s.a, "%s returned its operand" % name)
            self.add("b=" + name, model, impl, None,
                     lambda m: m.b is None and m.raw is None and (enabled is None or enabled(m)))

        h = lambda m: m.a.has  # noqa: E731
        derive("a.clone()", lambda m: m.copy(), lambda p: p.clone())
        derive("a.detach()", lambda m: m.copy(), lambda p: p.detach(), grad=False)
        derive("a.to(cpu,copy)", lambda m: m.copy(), lambda p: p.to("cpu", copy=True))
        derive("a+1.5", lambda m: m.copy().offset(1.5), lambda p: p + 1.5)
        derive("a-tensor", lambda m: m.copy().offset([-1.0, -2.0, 1.0]), lambda p: p - tens([1.0, 2.0, -1.0]))
        derive("a*2", lambda m: m.copy().scale(2), lambda p: p * 2)
        derive("a/4", lambda m: m.copy().scale(0.25), lambda p: p / 4)
        derive("a@R", lambda m: m.copy().rotate(R1, pre=False), lambda p: p @ tens(R1))
        derive("a@T", lambda m: m.copy().transform(T1, pre=False), lambda p: p @ tens(T1))
        derive("a.rotate(R)", lambda m: m.copy().rotate(R1), lambda p: p.rotate(tens(R1)))
        derive("a.transform(T)", lambda m: m.copy().transform(T2), lambda p: p.transform(tens(T2)))
        derive("a.pinhole(K)", lambda m: m.copy().pinhole(K1), lambda p: p.pinhole_projection(tens(K1)),
               lambda m: m.a.has and all((abs(x[:, 2]) > 0.3).all() for x in m.a.d["points"]))
        derive("a[0]", lambda m: m.take([0]), lambda p: p[0], h, shares=True)
        derive("a[[1,0]]", lambda m: m.take([1, 0]), lambda p: p[[1, 0]], lambda m: m.a.B > 1, shares=True)
        derive("a[mask]", lambda m: m.take([m.B - 1]),
               lambda p: p[torch.tensor([False] * (len(p) - 1) + [True])], h, shares=True)

        def to_same(s, a):
            expect(s.a.to("cpu") is s.a, "to('cpu') of a cpu batch is not the batch itself")
            expect(s.a.to(torch.device("cpu")) is s.a, "to(device) of a batch on that device is not the batch itself")
            expect(s.a.cpu() is s.a, "cpu() of a cpu batch is not the batch itself")
        self.add("a.to(same device)", lambda m, a: ("ok", None), to_same, None, lambda m: m.b is None and m.raw is None)

        def append_new(counts_of):
            def args(m):
                attrs = tuple(x for x in ATTRS[1:] if m.a.d[x] is not None) if m.a.has else ALL
                return data(counts_of(m.a), attrs, seed=61)

            def model(m, d):
                m.b = PC(d)
                m.a.append(m.b)
                m.grad_b = frozenset()
                m.shares = False
                return ("ok", None)

            def impl(s, d):
                s.b = make(d, "list")
                expect(s.a.append_points(s.b) is s.a, "append_points returned another object")
            return model, impl, args
        mdl, imp, ar = append_new(lambda m: [1 + (b % 2) for b in range(m.B or 2)])
        self.add("b=new; a.append(b)", mdl, imp, ar, lambda m: m.b is None and m.raw is None)

        def app_model(m, a):
            m.b.append(m.a.copy())
            m.grad_b = m.grad_b | m.grad_a
            return ("ok", None)
        self.add("b.append(a)", app_model, lambda s, a: (s.b.append_points(s.a), None)[1], None,
                 lambda m: m.b is not None and m.raw is None and m.b.B == m.a.B and m.b.compatible(m.a)
                 and sum(m.b.counts) < 9)

        # --- change one of the two
        def change(reg, name, mfun, ifun):
            def model(m, a):
                mfun(getattr(m, reg))
                return ("ok", None)

            def impl(s, a):
                p = getattr(s, reg)
                expect(ifun(p) is p, "in-place operation returned another object")
            self.add("%s.%s" % (reg, name), model, impl, None, lambda m: m.b is not None and m.raw is None)

        for reg in ("a", "b"):
            change(reg, "offset_", lambda m: m.offset(3.0), lambda p: p.offset_(3.0))
            change(reg, "scale_", lambda m: m.scale(0.5), lambda p: p.scale_(0.5))
            change(reg, "transform_", lambda m: m.transform(T1), lambda p: p.transform_(tens(T1)))

            def raw_model(m, a, reg=reg):
                m.raw = reg
                return ("ok", None)

            def raw_impl(s, a, reg=reg):
                scribble(views(getattr(s, reg)))
            self.add("caller overwrites every tensor of %s" % reg, raw_model, raw_impl, None,
                     lambda m: m.b is not None and m.raw is None and not m.shares)

            def set_model(m, v, reg=reg):
                getattr(m, reg).d["points"] = v
                setattr(m, "grad_" + reg, getattr(m, "grad_" + reg) - {"points"})
                return ("ok", None)

            def set_impl(s, v, reg=reg):
                getattr(s, reg).points_list = [tens(x) for x in v]
            self.add("%s.set points_list" % reg, set_model, set_impl,
                     lambda m, reg=reg: [val(91 + b, n, 3, base=0.5) for b, n in enumerate(getattr(m, reg).counts)],
                     lambda m, reg=reg: m.b is not None and m.raw is None and getattr(m, reg).has)


ALL = ("normals", "colors", "features")
CONFIGS = [
    ("ragged21-all", (2, 1), ALL, "list"),
    ("padded22-all", (2, 2), ALL, "padded"),
    ("ragged21-none", (2, 1), (), "list"),
    ("single2-padded-n", (2,), ("normals",), "padded"),
    ("empty", (), (), "empty"),
    ("ragged21-all-grad", (2, 1), ALL, "list", True),
    ("padded22-all-grad", (2, 2), ALL, "padded", True),
]
RULE = ("histories [put the original into some internal form]* -> derive a second batch -> change one of the two "
        "(in-place calls, setters, or the caller overwriting every tensor it can reach); after every step every batch "
        "whose contents are defined is read completely and compared with value-semantics models")


def main(tier, t0):
    depth = 4 if tier == "quick" else 5
    tasks = mc.explore_tasks(IsoMachine, CONFIGS, depth, split=8)
    res = mc.run_tasks(tasks)
    return report.finish("C02", tier, "model_checking", res, t0, RULE,
                         {"depth": depth, "configurations": [c[0] for c in CONFIGS],
                          "alphabet": list(IsoMachine(*CONFIGS[0]).ops)},
                         ["float32 values compared with tolerance 1e-4", "state merging by 64-bit hash of the full concrete state"])


def replay(doc):
    cfg = [c for c in CONFIGS if c[0] == doc["machine"]][0]
    return mc.replay_history(IsoMachine(*cfg), doc["history"])
