"""C04: selecting from, appending to and constructing batches of clouds keeps every point with its own attributes."""
import itertools

import numpy as np
import torch

import mc
import sweepcheck
from mc import Mismatch, expect, raises, same
from pcmodel import ATTRS, PC, R1, data, make, observe_pc, val

ATTRSETS = [tuple(a for a, k in zip(("normals", "colors", "features"), bits) if k) for bits in itertools.product((0, 1), repeat=3)]


def tens(x):
    return torch.tensor(np.asarray(x), dtype=torch.float32)


# ------------------------------------------------------------------ selection
def index_domain(B):
    for i in range(-B - 1, B + 1):
        yield "int %d" % i, i
    rng = [None] + list(range(-B - 1, B + 2))
    for st in rng:
        for en in rng:
            for step in (None, 2, -1):
                yield "slice %s:%s:%s" % (st, en, step), slice(st, en, step)
    for n in (0, 1, 2, 3):
        for t in itertools.product(range(-B, B), repeat=n):
            if n == 3 and (B > 2 or min(t) < -1):
                continue
            yield "list %s" % list(t), list(t)
            if all(x >= 0 for x in t):
                yield "long %s" % list(t), torch.tensor(list(t), dtype=torch.long)
    yield "list [%d]" % B, [B]
    for bits in itertools.product((False, True), repeat=B):
        yield "mask %s" % "".join("01"[b] for b in bits), torch.tensor(bits, dtype=torch.bool)
    for nm, v in (("float", 1.0), ("str", "0"), ("None", None), ("tuple", (0, 0)), ("float tensor", torch.ones(B)),
                  ("2d tensor", torch.zeros(1, 1, dtype=torch.long))):
        yield "bad " + nm, ("BAD", v)


def select_cases():
    for counts in ((2,), (1, 2), (0, 3), (2, 1, 0), (2, 2, 2), (1, 3, 1, 2)):
        for attrs in ((), ("normals", "colors", "features"), ("features",)):
            forms = ["list"] + (["padded"] if len(set(counts)) == 1 else []) + ["moved"]
            for form in forms:
                for nm, ix in index_domain(len(counts)):
                    yield "%s/%s/%s/%s" % ("".join(map(str, counts)), "".join(a[0] for a in attrs) or "-", form, nm), \
                        (counts, attrs, form, ix)


def check_select(case):
    counts, attrs, form, ix = case
    d = data(counts, attrs)
    m = PC(d)
    pc = make(d, "list" if form == "moved" else form)
    if form == "moved":  # only the padded view is current
        pc.rotate_(tens(R1))
        m.rotate(R1)
    B = len(counts)
    if isinstance(ix, tuple) and ix[0] == "BAD":
        raises(lambda: pc[ix[1]], (IndexError, TypeError))
        observe_pc(pc, m, "batch after rejected index")
        return "rejected"
    if isinstance(ix, torch.Tensor):
        want = [i for i, b in enumerate(ix.tolist()) if b] if ix.dtype == torch.bool else ix.tolist()
    elif isinstance(ix, list):
        want = ix
    elif isinstance(ix, int):
        want = [ix]
    else:
        want = list(range(B))[ix]
    if any(not -B <= i < B for i in want):
        raises(lambda: pc[ix], (IndexError,))
        return "out of range"
    if not want:
        raises(lambda: pc[ix], (IndexError, ValueError))
        return "empty selection"
    r = pc[ix]
    observe_pc(r, m.take(want), "selection")
    observe_pc(pc, m, "batch")
    return "selected %d" % len(want)


# ------------------------------------------------------------------ append
def append_cases():
    for B in (1, 2):
        vecs = list(itertools.product((0, 1, 2), repeat=B))
        for ca in vecs:
            for cb in vecs:
                for attrs in (ATTRSETS if B == 1 else (ATTRSETS[0], ATTRSETS[4], ATTRSETS[7])):
                    for fa, fb in itertools.product(("list", "padded", "moved"), repeat=2):
                        if fa == "padded" and len(set(ca)) > 1 or fb == "padded" and len(set(cb)) > 1:
                            continue
                        yield "%s+%s/%s/%s+%s" % ("".join(map(str, ca)), "".join(map(str, cb)),
                                                  "".join(a[0] for a in attrs) or "-", fa, fb), (ca, cb, attrs, attrs, fa, fb, 2, 2)
    for aa, ab in itertools.product(ATTRSETS, repeat=2):
        if aa != ab:
            for ca, cb, fa, fb in (((2, 1), (1, 1), "list", "list"), ((1,), (2,), "list", "list"), ((2, 2), (1, 1), "padded", "padded"),
                                   ((2, 2), (1, 1), "list", "padded"), ((2, 2), (1, 1), "padded", "list")):
                yield "%s+%s attrs %s/%s %s %s" % (ca, cb, aa, ab, fa, fb), (ca, cb, aa, ab, fa, fb, 2, 2)
    for ca, cb in itertools.product(((1,), (1, 2), (2, 1, 1)), repeat=2):
        if len(ca) != len(cb):
            yield "batch %s+%s" % (ca, cb), (ca, cb, ATTRSETS[7], ATTRSETS[7], "list", "list", 2, 2)
    for fa, fb in itertools.product(("list", "padded"), repeat=2):
        for Ca, Cb in itertools.permutations((1, 2, 3, 4), 2):
            for attrs in ATTRSETS:
                if "features" in attrs:
                    yield "channels %s+%s %s %d+%d" % (fa, fb, attrs, Ca, Cb), ((2, 2), (1, 1), attrs, attrs, fa, fb, Ca, Cb)
        for attrs in ATTRSETS:
            yield "into empty %s %s %s" % (fa, fb, attrs), (None, (2, 2), attrs, attrs, fa, fb, 2, 2)
            yield "empty into %s %s %s" % (fa, fb, attrs), ((2, 2), None, attrs, attrs, fa, fb, 2, 2)


def mk(counts, attrs, form, C, seed):
    if counts is None:
        return make({}, "empty"), PC()
    d = data(counts, attrs, C=C, seed=seed)
    m = PC(d)
    pc = make(d, "list" if form == "moved" else form)
    if form == "moved":
        pc.offset_(0.5)
        m.offset(0.5)
    return pc, m


def check_append(case):
    ca, cb, aa, ab, fa, fb, Ca, Cb = case
    a, ma = mk(ca, aa, fa, Ca, 1)
    b, mb = mk(cb, ab, fb, Cb, 29)
    if not ma.compatible(mb):
        raises(lambda: a.append_points(b), (ValueError,))
        observe_pc(a, ma, "receiver after rejected append")
        observe_pc(b, mb, "source after rejected append")
        return "rejected"
    r = a.append_points(b)
    expect(r is a, "append_points returned another object")
    ma.append(mb)
    observe_pc(a, ma, "receiver")
    observe_pc(b, mb, "source")
    # appending twice more and then selecting keeps the order
    if ma.has and sum(ma.counts) < 7 and mb.has:
        a.append_points(b).append_points(b)
        ma.append(mb).append(mb)
        observe_pc(a, ma, "receiver after three appends")
        observe_pc(a[len(a) - 1], ma.take([ma.B - 1]), "selection after append")
    return "appended", 3


def big_cases():
    """Clouds of very different sizes, and batches of many clouds: repeated appends and selections."""
    many = tuple((i * 5) % 9 for i in range(20))
    seqs = {"5000+3": [(5000,), (3,)], "3+5000": [(3,), (5000,)], "0+4097": [(0,), (4097,)], "1,900+900,1": [(1, 900), (900, 1)], "700x3": [(700,), (700,), (700,)],
            "20 clouds": [many, many[::-1], many], "70 clouds": [tuple(i % 3 for i in range(70)), tuple((i + 1) % 4 for i in range(70))], "growing": [(2 ** i, i) for i in range(11)], "24 times": [(3, 5)] * 24}
    for (nm, seq), attrs, f in itertools.product(seqs.items(), (ATTRSETS[7], ATTRSETS[0], ATTRSETS[1]), ("list", "mixed", "read")):
        yield "%s/%s/%s" % (nm, "".join(a[0] for a in attrs) or "-", f), (seq, attrs, f)


def check_big(case):
    seq, attrs, f = case
    pc, m = mk(seq[0], attrs, "list", 3, 1)
    for i, c in enumerate(seq[1:]):
        form = "moved" if f == "mixed" and i % 2 == 0 else "list"
        b, mb = mk(c, attrs, form, 3, 7 + i)
        if f == "read":
            pc.points_padded, pc.nonpad_mask, pc.num_points_per_pointcloud
        pc.append_points(b)
        m.append(mb)
        if f != "list":
            pc.offset_(0.25)
            m.offset(0.25)
    observe_pc(pc, m, "batch after %d appends" % (len(seq) - 1))
    n = 1
    for ix in (slice(None, None, -1), list(range(m.B)) + [0], torch.arange(m.B - 1, -1, -1), slice(m.B // 2, None)):
        want = list(range(m.B))[ix] if isinstance(ix, slice) else [int(x) for x in ix]
        observe_pc(pc[ix], m.take(want), "selection")
        n += 1
    mask = torch.tensor([i % 3 == 0 for i in range(m.B)])
    observe_pc(pc[mask], m.take([i for i in range(m.B) if i % 3 == 0]), "selection by mask")
    return "large", n + len(seq)


def bad_append_cases():
    for nm, v in (("tensor", torch.zeros(1, 2, 3)), ("list", [1]), ("None", None)):
        yield nm, v


def check_bad_append(v):
    d = data((2, 1), ("colors",))
    pc = make(d)
    raises(lambda: pc.append_points(v), (TypeError,))
    observe_pc(pc, PC(d), "receiver after rejected append")
    return "rejected"


# ------------------------------------------------------------------ construction
def ctor_cases():
    for B in (1, 2):
        for counts in itertools.product((0, 1, 2), repeat=B):
            for attrs in ATTRSETS:
                for form in ("list", "padded"):
                    if form == "padded" and len(set(counts)) > 1:
                        continue
                    for dt in (torch.float32, torch.float64):
                        yield "ok/%s/%s/%s/%s" % (counts, attrs, form, str(dt)[6:]), ("ok", counts, attrs, form, dt)
    z = torch.zeros
    bad = [
        ("empty list", (ValueError,), dict(points=[])), ("0-batch", (ValueError,), dict(points=z(0, 2, 3))),
        ("1-d", (ValueError,), dict(points=[z(3)])), ("4 coords list", (ValueError,), dict(points=[z(1, 4)])),
        ("4 coords", (ValueError,), dict(points=z(1, 1, 4))), ("2-d tensor", (ValueError,), dict(points=z(2, 3))),
        ("numpy", (TypeError,), dict(points=np.zeros((1, 2, 3)))), ("tuple", (TypeError,), dict(points=(z(2, 3),))),
    ]
    for a in ("normals", "colors", "features"):
        bad += [
            (a + " type", (TypeError,), {"points": [z(1, 3)], a: z(1, 1, 3)}),
            (a + " type2", (TypeError,), {"points": z(1, 1, 3), a: [z(1, 3)]}),
            (a + " short list", (ValueError,), {"points": [z(1, 3), z(2, 3)], a: [z(1, 3)]}),
            (a + " long list", (ValueError,), {"points": [z(1, 3)], a: [z(1, 3), z(1, 3)]}),
            (a + " count", (ValueError,), {"points": [z(1, 3), z(2, 3)], a: [z(1, 3), z(1, 3)]}),
            (a + " swapped", (ValueError,), {"points": [z(1, 3), z(2, 3)], a: [z(2, 3), z(1, 3)]}),
            (a + " padded count", (ValueError,), {"points": z(2, 1, 3), a: z(2, 2, 3)}),
            (a + " padded batch", (ValueError,), {"points": z(2, 1, 3), a: z(1, 1, 3)}),
            (a + " 2d", (ValueError,), {"points": z(2, 1, 3), a: z(2, 3)}),
        ]
    for a in ("normals", "colors"):
        bad += [(a + " channels", (ValueError,), {"points": [z(1, 3)], a: [z(1, 4)]}),
                (a + " padded channels", (ValueError,), {"points": z(1, 1, 3), a: z(1, 1, 4)})]
    bad += [("features channels differ", (ValueError,), {"points": [z(1, 3), z(1, 3)], "features": [z(1, 2), z(1, 3)]}),
            ("features 1-d", (ValueError,), {"points": [z(1, 3)], "features": [z(1)]})]
    for nm, exc, kw in bad:
        yield "bad/" + nm, ("bad", exc, kw)


def check_ctor(case):
    from gradslam.structures.pointclouds import Pointclouds
    if case[0] == "bad":
        raises(lambda: Pointclouds(**case[2]), case[1])
        return "rejected"
    _, counts, attrs, form, dt = case
    d = data(counts, attrs)
    pc = make(d, form, dtype=dt)
    observe_pc(pc, PC(d), "new batch")
    expect(pc.points_padded.dtype == dt and pc.points_list[0].dtype == dt, "dtype not kept")
    return "built"


# ------------------------------------------------------------------ rejected writes
def setter_cases():
    z = torch.zeros
    for form in ("list", "padded"):
        counts = (2, 1) if form == "list" else (2, 2)
        n1 = counts[1]
        for a in ("points", "normals", "colors", "features"):
            for nm, exc, at, v in (
                ("tensor for list", (TypeError,), "_list", z(2, 2, 3)), ("list for padded", (TypeError,), "_padded", [z(2, 3)]),
                ("short list", (ValueError,), "_list", [z(2, 3)]), ("counts", (ValueError,), "_list", [z(2, 3), z(n1 + 1, 3)]),
                ("1-d", (ValueError,), "_list", [z(3), z(3)]), ("2-d padded", (ValueError,), "_padded", z(2, 3)),
                ("padded count", (ValueError,), "_padded", z(2, 3, 3)), ("padded batch", (ValueError,), "_padded", z(1, 2, 3)),
            ) + ((("padding", (ValueError,), "_padded", torch.ones(2, 2, 3)),) if form == "list" else ()):
                yield "%s/%s%s/%s" % (form, a, at, nm), (form, counts, a + at, exc, v)
            if a != "features":
                yield "%s/%s_list/channels" % (form, a), (form, counts, a + "_list", (ValueError,), [z(2, 4), z(n1, 4)])
                yield "%s/%s_padded/channels" % (form, a), (form, counts, a + "_padded", (ValueError,), z(2, 2, 4))


def check_setter(case):
    form, counts, attr, exc, v = case
    d = data(counts)
    pc = make(d, form)
    raises(lambda: setattr(pc, attr, v), exc)
    observe_pc(pc, PC(d), "batch after rejected write")
    return "rejected"


SWEEPS = [("select", select_cases, check_select), ("append", append_cases, check_append), ("large", big_cases, check_big), ("append type", bad_append_cases, check_bad_append),
          ("construct", ctor_cases, check_ctor), ("setter", setter_cases, check_setter)]
RULE = ("complete product of batches (1-4 clouds of 0-3 points) with every index in the domain (all ints, slices, lists, long and bool "
        "tensors in range, and wrong kinds), every pair of count vectors x attribute sets x internal forms for append, every valid "
        "and listed invalid construction and write; compared with plain lists of arrays")


def main(tier, t0):
    return sweepcheck.run("C04", tier, t0, SWEEPS, rule=RULE, bounds={"clouds": "1..4", "points per cloud": "0..3", "large": "up to 70 clouds, 5003 points, 24 appends"},
                          assumptions=["an empty selection is expected to be rejected (a batch of zero clouds cannot be built)"])


def replay(doc):
    return sweepcheck.replay(doc, SWEEPS)
