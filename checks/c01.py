"""C01: the list view and the padded view of a point-cloud batch never disagree, under any history."""
import itertools

import numpy as np
import torch

import mc
import report
from mc import Machine, Mismatch, expect, same
from pcmodel import ATTRS, K1, PC, R1, R2, T1, T2, data, make, observe_pc, val

BAD = (ValueError, TypeError, IndexError)


def tens(x):
    return torch.tensor(np.asarray(x), dtype=torch.float32)


class CloudMachine(Machine):
    """One live batch; operations read, set, transform, append, select and copy it."""

    def __init__(self, name, counts, attrs, form):
        self.name = name
        self.counts, self.attrs, self.form = counts, attrs, form
        self.ops = {}
        self.alphabet()

    def build(self):
        if self.form == "empty":
            return [make({}, "empty")], [PC()]
        d = data(self.counts, self.attrs)
        return [make(d, self.form)], [PC(d)]

    def observe(self, s, m):
        observe_pc(s[0], m[0])

    def model_key(self, m):
        return mc.fingerprint([m[0].d[a] for a in ATTRS])

    def alphabet(self):
        def has(m):
            return m[0].has

        def ok(m, a):
            return ("ok", None)

        # --- reads: materialise lazily built views in every order
        def touch(attr):
            self.add("read(%s)" % attr, ok, lambda s, a: (getattr(s[0], attr), None)[1])

        for a in ("points", "normals", "features"):
            touch(a + "_padded")
            touch(a + "_list")
        for a in ("nonpad_mask", "has_normals", "has_features", "has_points"):
            touch(a)

        # --- writes through either view
        def setter(a, view, seed, C=None, tag=""):
            def args(m):
                return [val(seed + b, n, C or 2) if a == "features" else val(seed + b, n, 3, base=0.125)
                        for b, n in enumerate(m[0].counts)]

            def model(m, v):
                m[0].d[a] = [x.copy() for x in v]
                return ("ok", None)

            def impl(s, vals):
                if view == "list":
                    setattr(s[0], a + "_list", [tens(v) for v in vals])
                else:
                    n = max(len(v) for v in vals)
                    P = np.zeros((len(vals), n, vals[0].shape[1]))
                    for b, v in enumerate(vals):
                        P[b, : len(v)] = v
                    setattr(s[0], a + "_padded", tens(P))
            self.add("set(%s_%s%s)" % (a, view, tag), model, impl, args, has)

        for i, a in enumerate(ATTRS):
            setter(a, "list", 101 + 10 * i)
            setter(a, "padded", 205 + 10 * i)
        setter("features", "list", 307, C=3, tag="/3ch")
        setter("features", "padded", 409, C=1, tag="/1ch")

        # --- rejected writes must leave everything unchanged
        def bad(name, enabled, impl):
            self.add(name, lambda m, a: ("raise", BAD), impl, lambda m: list(m[0].counts), enabled)

        def bad_list(s, counts):
            s[0].points_list = [torch.zeros(n + 1, 3) for n in counts]

        def bad_batch(s, counts):
            s[0].normals_list = [torch.zeros(n, 3) for n in counts] + [torch.zeros(1, 3)]

        def bad_pad(s, counts):
            s[0].normals_padded = torch.ones(len(counts), max(counts), 3)

        bad("badset(points_list)", has, bad_list)
        bad("badset(normals_list batch)", has, bad_batch)
        bad("badset(normals_padded padding)", lambda m: m[0].has and len(set(m[0].counts)) > 1, bad_pad)
        bad("badset(empty)", lambda m: not m[0].has, lambda s, a: setattr(s[0], "points_list", [torch.zeros(1, 3)]))

        # --- geometry, in place
        def geo(name, mfun, ifun, enabled=None):
            def model(m, a):
                mfun(m[0])
                return ("ok", None)

            def impl(s, a):
                expect(ifun(s[0]) is s[0], "in-place operation returned another object")
            self.add(name, model, impl, None, enabled)

        geo("offset_(1.5)", lambda m: m.offset(1.5), lambda p: p.offset_(1.5))
        geo("offset_(tensor)", lambda m: m.offset([1.0, -2.0, 0.5]), lambda p: p.offset_(tens([1.0, -2.0, 0.5])))
        geo("scale_(2)", lambda m: m.scale(2), lambda p: p.scale_(2))
        geo("rotate_(R)", lambda m: m.rotate(R1), lambda p: p.rotate_(tens(R1)))
        geo("transform_(T)", lambda m: m.transform(T1), lambda p: p.transform_(tens(T1)))

        def Tb(n):
            return np.stack([(T1, T2, T1 @ T2)[b % 3] for b in range(n)], 0)

        geo("transform_(batch)", lambda m: m.transform(Tb(m.B)), lambda p: p.transform_(tens(Tb(len(p)))), has)
        geo("pinhole_(K)", lambda m: m.pinhole(K1), lambda p: p.pinhole_projection_(tens(K1)),
            lambda m: m[0].has and all((abs(x[:, 2]) > 0.3).all() for x in m[0].d["points"]))

        # --- structure
        def app(tag, counts_of, form, enabled=None):
            def args(m):
                m = m[0]
                attrs = tuple(a for a in ATTRS[1:] if m.d[a] is not None) if m.has else ("normals", "features")
                C = 2 if m.d["features"] is None else m.d["features"][0].shape[1]
                return data(counts_of(m), attrs, seed=53, C=C)

            def model(m, d):
                o = PC(d)
                if not m[0].compatible(o):
                    return ("raise", BAD)
                m[0].append(o)
                return ("ok", None)

            def impl(s, d):
                expect(s[0].append_points(make(d, form)) is s[0], "append_points returned another object")
            self.add("append(%s)" % tag, model, impl, args, enabled)

        app("ragged", lambda m: [(b + 1) % 3 for b in range(m.B or 2)], "list")
        app("equal/padded", lambda m: [2] * (m.B or 2), "padded")
        app("batch mismatch", lambda m: [1] * (m.B + 1 if m.B else 2), "list")

        def app_empty(s, a):
            from gradslam.structures.pointclouds import Pointclouds
            expect(s[0].append_points(Pointclouds()) is s[0], "append_points returned another object")
        self.add("append(empty)", ok, app_empty)

        def app_self(m, a):
            m[0].append(m[0].copy())
            return ("ok", None)
        self.add("append(self copy)", app_self, lambda s, a: (s[0].append_points(s[0].clone()), None)[1], None,
                 lambda m: sum(m[0].counts) < 12)

        # --- replacing the batch by a derived one
        def derive(name, mfun, ifun, enabled=None):
            def model(m, a):
                m[0] = mfun(m[0])
                return ("ok", None)

            def impl(s, a):
                s[0] = ifun(s[0])
            self.add(name, model, impl, None, enabled)

        derive("clone", lambda m: m.copy(), lambda p: p.clone())
        derive("detach", lambda m: m.copy(), lambda p: p.detach())
        derive("to(cpu)", lambda m: m.copy(), lambda p: p.to("cpu"))
        derive("to(cpu,copy)", lambda m: m.copy(), lambda p: p.to(torch.device("cpu"), copy=True))
        derive("+tensor", lambda m: m.copy().offset([0.5, 0.5, -1.0]), lambda p: p + tens([0.5, 0.5, -1.0]))
        derive("rotate", lambda m: m.copy().rotate(R2), lambda p: p.rotate(tens(R2)))
        derive("[0]", lambda m: m.take([0]), lambda p: p[0], has)
        derive("[::-1 list]", lambda m: m.take(list(range(m.B))[::-1]), lambda p: p[list(range(len(p)))[::-1]], has)


ALL = ("normals", "colors", "features")
CONFIGS = [
    ("ragged21-all", (2, 1), ALL, "list"),
    ("padded22-all", (2, 2), ALL, "padded"),
    ("ragged102-nf", (1, 0, 2), ("normals", "features"), "list"),
    ("ragged212-c", (2, 1, 2), ("colors",), "list"),
    ("ragged21-none", (2, 1), (), "list"),
    ("padded22-none", (2, 2), (), "padded"),
    ("single3-n", (3,), ("normals",), "list"),
    ("empty", (), (), "empty"),
]


RULE = ("every history of the listed operations up to the depth bound is executed on a real batch in lockstep with a "
        "list-of-arrays model; after every operation all eight views, the mask, the counts and the has_*/num_features "
        "answers are read and compared")


def main(tier, t0):
    depth = 3 if tier == "quick" else 4
    tasks = mc.explore_tasks(CloudMachine, CONFIGS, depth, split=8)
    res = mc.run_tasks(tasks)
    return report.finish("C01", tier, "model_checking", res, t0, RULE,
                         {"depth": depth, "configurations": [c[0] for c in CONFIGS],
                          "alphabet": list(CloudMachine(*CONFIGS[0]).ops)},
                         ["float32 values compared with tolerance 1e-4", "state merging by 64-bit hash of the full concrete state"])


def replay(doc):
    cfg = [c for c in CONFIGS if c[0] == doc["machine"]][0]
    return mc.replay_history(CloudMachine(*cfg), doc["history"])
