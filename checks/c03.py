"""C03: geometric operations on a batch act on every point exactly as the formula says, and on nothing else."""
import itertools

import numpy as np
import torch

import mc
import sweepcheck
from mc import Mismatch, expect, raises, same
from pcmodel import ATTRS, K1, K2, PC, R1, R2, T1, T2, axis_angle, data, make, observe_pc, octahedral, se3

ALL = ("normals", "colors", "features")
CLOUDS = [
    ("ragged21", (2, 1), ALL, "list"), ("ragged103", (1, 0, 3), ("normals",), "list"), ("padded22", (2, 2), ALL, "padded"),
    ("one3", (3,), ("normals", "features"), "list"), ("bare12", (1, 2), (), "list"), ("empty", (), (), "empty"),
]
ROTS = octahedral() + [R1, axis_angle([1, 1, 1], 2.0), axis_angle([0, 1, 0], -0.4), np.array([[1.0, 2, 0], [0, 1, 3], [0.5, 0, 1]])]
TRANS = [np.array(t, float) for t in itertools.product((-1.5, 0.0, 2.0), repeat=3)]


def tens(x, dt=torch.float32):
    return torch.tensor(np.asarray(x, dtype=np.float64), dtype=dt)


def build(c, dt=torch.float32):
    if c[3] == "empty":
        return make({}, "empty"), PC()
    d = data(c[1], c[2])
    return make(d, c[3], dtype=dt), PC(d)


# ---- the operations: name -> (in-place call, out-of-place call, model)
def op_cases(tier):
    """(name, in_place(pc), out_of_place(pc), model(m)) for every operation argument of the domain."""
    def batch(xs, B):
        return np.stack([xs[b % len(xs)] for b in range(B)], 0)

    for i, R in enumerate(ROTS):
        for pre in (True, False):
            yield ("rotate[%d]%s" % (i, "" if pre else "post"), 0,
                   lambda p, dt, R=R, pre=pre: p.rotate_(tens(R, dt), pre_multiplication=pre),
                   lambda p, dt, R=R, pre=pre: p.rotate(tens(R, dt), pre_multiplication=pre),
                   lambda m, R=R, pre=pre: m.rotate(R, pre))
        yield ("matmul[%d]" % i, 0, None, lambda p, dt, R=R: p @ tens(R, dt), lambda m, R=R: m.rotate(R, False))
    for i in range(0, len(ROTS), 3):
        xs = [ROTS[i], ROTS[(i + 5) % len(ROTS)], ROTS[(i + 11) % len(ROTS)]]
        for pre in (True, False):
            yield ("rotate-batch[%d]%s" % (i, "" if pre else "post"), 1,
                   lambda p, dt, xs=xs, pre=pre: p.rotate_(tens(batch(xs, len(p)), dt), pre_multiplication=pre),
                   lambda p, dt, xs=xs, pre=pre: p.rotate(tens(batch(xs, len(p)), dt), pre_multiplication=pre),
                   lambda m, xs=xs, pre=pre: m.rotate(batch(xs, m.B), pre))
        yield ("matmul-batch[%d]" % i, 1, None, lambda p, dt, xs=xs: p @ tens(batch(xs, len(p)), dt),
               lambda m, xs=xs: m.rotate(batch(xs, m.B), False))
    for i, (R, t) in enumerate(itertools.product(ROTS[::4] + [R1], TRANS[::2])):
        T = se3(R, t)
        for pre in (True, False):
            yield ("transform[%d]%s" % (i, "" if pre else "post"), 0,
                   lambda p, dt, T=T, pre=pre: p.transform_(tens(T, dt), pre_multiplication=pre),
                   lambda p, dt, T=T, pre=pre: p.transform(tens(T, dt), pre_multiplication=pre),
                   lambda m, T=T, pre=pre: m.transform(T, pre))
        if i % 3 == 0:
            yield ("matmul4[%d]" % i, 0, None, lambda p, dt, T=T: p @ tens(T, dt), lambda m, T=T: m.transform(T, False))
            xs = [T, se3(R1, TRANS[(i * 5) % 27]), T2]
            for pre in (True, False):
                yield ("transform-batch[%d]%s" % (i, "" if pre else "post"), 1,
                       lambda p, dt, xs=xs, pre=pre: p.transform_(tens(batch(xs, len(p)), dt), pre_multiplication=pre),
                       lambda p, dt, xs=xs, pre=pre: p.transform(tens(batch(xs, len(p)), dt), pre_multiplication=pre),
                       lambda m, xs=xs, pre=pre: m.transform(batch(xs, m.B), pre))
    # offsets and scales: python scalars and every broadcastable tensor shape
    for k in (0, 1, -2, 0.5, 3):
        yield ("offset(%s)" % k, 0, lambda p, dt, k=k: p.offset_(k), lambda p, dt, k=k: p + k, lambda m, k=k: m.offset(k))
        yield ("scale(%s)" % k, 0, lambda p, dt, k=k: p.scale_(k), lambda p, dt, k=k: p * k, lambda m, k=k: m.scale(k))
        yield ("sub(%s)" % k, 0, None, lambda p, dt, k=k: p - k, lambda m, k=k: m.offset(-k))
        if k:
            yield ("div(%s)" % k, 0, None, lambda p, dt, k=k: p / k, lambda m, k=k: m.scale(1.0 / k))
    shapes = [(), (1,), (3,), (1, 3), ("N", 1), ("N", 3), (1, 1, 3), ("B", 1, 1), ("B", 1, 3), (1, "N", 1), ("B", "N", 1), ("B", "N", 3)]
    for sh in shapes:
        def arr(B, N, sh=sh):
            s = tuple({"B": B, "N": N}.get(x, x) for x in sh)
            n = int(np.prod(s)) if s else 1
            return (np.arange(n).reshape(s) % 7) * 0.5 - 1.25

        def marr(m, arr=arr):
            return arr(m.B, max(m.counts))

        def parr(p, dt, arr=arr):
            return tens(arr(len(p), int(p.num_points_per_pointcloud.max())), dt)
        nm = str(sh).replace(" ", "").replace("'", "")
        yield ("offset%s" % nm, 1, lambda p, dt, f=parr: p.offset_(f(p, dt)), lambda p, dt, f=parr: p + f(p, dt), lambda m, f=marr: m.offset(f(m)))
        yield ("scale%s" % nm, 1, lambda p, dt, f=parr: p.scale_(f(p, dt)), lambda p, dt, f=parr: p * f(p, dt), lambda m, f=marr: m.scale(f(m)))
        yield ("sub%s" % nm, 1, None, lambda p, dt, f=parr: p - f(p, dt), lambda m, f=marr: m.offset(-f(m)))
        yield ("div%s" % nm, 1, None, lambda p, dt, f=parr: p / f(p, dt), lambda m, f=marr: m.scale(1.0 / f(m)))
    for i, K in enumerate((K1, K2, np.diag([3.0, 7.0, 1.0, 1.0]))):
        yield ("pinhole[%d]" % i, 2, lambda p, dt, K=K: p.pinhole_projection_(tens(K, dt)),
               lambda p, dt, K=K: p.pinhole_projection(tens(K, dt)), lambda m, K=K: m.pinhole(K))
    yield ("pinhole-batch", 3, lambda p, dt: p.pinhole_projection_(tens(batch([K1, K2], len(p)), dt)),
           lambda p, dt: p.pinhole_projection(tens(batch([K1, K2], len(p)), dt)), lambda m: m.pinhole(batch([K1, K2], m.B)))


def single_cases():
    for c in CLOUDS:
        for dt in (torch.float32, torch.float64):
            for o in op_cases("quick"):
                if c[3] == "empty" and o[1] in (1, 3):
                    continue
                for form in ("in-place", "out-of-place"):
                    f = o[2] if form == "in-place" else o[3]
                    if f is None:
                        continue
                    for pre in ("", "padded first", "offset first"):
                        yield "%s/%s/%s/%s/%s" % (c[0], str(dt)[6:], o[0], form, pre or "fresh"), (c, dt, o, form, f, pre)


def check_single(case):
    c, dt, o, form, f, pre = case
    pc, m = build(c, dt)
    if pre == "padded first":
        pc.points_padded, pc.normals_list
    elif pre == "offset first":
        pc.offset_(0.25)
        m.offset(0.25)
    before = m.copy()
    r = f(pc, dt)
    m2 = o[4](m.copy())
    if form == "in-place":
        expect(r is pc, "in-place operation returned another object")
        observe_pc(pc, m2, "receiver")
    else:
        expect(r is not pc, "out-of-place operation returned its operand")
        observe_pc(r, m2, "result")
        observe_pc(pc, before, "operand")
    if r.has_points:
        expect(r.points_padded.dtype == dt, "dtype changed to %s" % r.points_padded.dtype)
    return "moved" if m2.has else "empty", 1


# ---- clouds of thousands of points, one of them short: no operation may treat size or position in the batch specially
BIG = [("big1", (5000,)), ("big2", (3000, 2)), ("big9", (40, 300, 7, 1, 120, 64, 65, 1025, 0))]


def big_cases():
    for nm, counts in BIG:
        c = (nm, counts, ALL, "list")
        for k, o in enumerate(op_cases("quick")):
            if nm != "big1" and o[1] in (0, 2) and k % 4:
                continue
            if nm == "big1" and o[1] in (0, 2) and k % 9:
                continue
            form = ("in-place", "out-of-place")[k % 2] if o[2] else "out-of-place"
            yield "%s/%s/%s" % (nm, o[0], form), (c, torch.float64 if k % 5 == 0 else torch.float32, o, form, o[2] if form == "in-place" else o[3], ("", "padded first")[k // 2 % 2])


# ---- algebraic laws on pairs: composing two operations equals applying both formulas
def pair_ops():
    Rs = [ROTS[5], ROTS[17], R1]
    ops = [("R%d" % i, lambda p, R=R: p.rotate(tens(R)), lambda m, R=R: m.rotate(R)) for i, R in enumerate(Rs)]
    ops += [("R%dT" % i, lambda p, R=R: p @ tens(R), lambda m, R=R: m.rotate(R, False)) for i, R in enumerate(Rs)]
    ops += [("T%d" % i, lambda p, T=T: p.transform(tens(T)), lambda m, T=T: m.transform(T)) for i, T in enumerate((T1, T2))]
    ops += [("T%dinv" % i, lambda p, T=T: p.transform(tens(np.linalg.inv(T))), lambda m, T=T: m.transform(np.linalg.inv(T))) for i, T in enumerate((T1, T2))]
    ops += [("+t", lambda p: p + tens([1, -2, 0.5]), lambda m: m.offset([1, -2, 0.5])),
            ("-t", lambda p: p - tens([1, -2, 0.5]), lambda m: m.offset([-1, 2, -0.5])),
            ("*2", lambda p: p * 2, lambda m: m.scale(2)), ("/2", lambda p: p / 2, lambda m: m.scale(0.5)),
            ("*-1", lambda p: p * -1, lambda m: m.scale(-1))]
    return ops


def pair_cases():
    ops = pair_ops()
    for c in CLOUDS[:4]:
        for n in (2, 3):
            for seq in itertools.product(range(len(ops)), repeat=n):
                if n == 3 and (c[0] != "ragged21"):
                    continue
                yield "%s/%s" % (c[0], ",".join(ops[i][0] for i in seq)), (c, [ops[i] for i in seq])


def check_pair(case):
    c, seq = case
    pc, m = build(c)
    for name, f, g in seq:
        pc = f(pc)
        m = g(m)
    observe_pc(pc, m, "result", 2e-3)
    return "chain%d" % len(seq), len(seq)


# ---- arguments next to the neutral ones, and very small or large ones: nothing may be treated as "no change"
def small_ops():
    axes = [np.array(a, float) for a in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, -1, 2))]
    for k in (1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6):
        for i, a in enumerate(axes):
            for sg in (1, -1):
                R = axis_angle(a, sg * k)
                for pre in (True, False):
                    yield ("rotate%s%d*%g" % ("" if pre else "post", i, sg * k), lambda p, dt, R=R, pre=pre: p.rotate_(tens(R, dt), pre_multiplication=pre),
                           lambda p, dt, R=R, pre=pre: p.rotate(tens(R, dt), pre_multiplication=pre), lambda m, R=R, pre=pre: m.rotate(R, pre))
                for T in (se3(R, np.zeros(3)), se3(R, sg * k * np.roll(a, 1)), se3(ROTS[5], k * a), se3(R, [3.0, -1, 2])):
                    for pre in (True, False):
                        yield ("transform%s%d*%g/t%g" % ("" if pre else "post", i, sg * k, T[0, 3]), lambda p, dt, T=T, pre=pre: p.transform_(tens(T, dt), pre_multiplication=pre),
                               lambda p, dt, T=T, pre=pre: p.transform(tens(T, dt), pre_multiplication=pre), lambda m, T=T, pre=pre: m.transform(T, pre))
                t = sg * k * a
                yield ("offset%d*%g" % (i, sg * k), lambda p, dt, t=t: p.offset_(tens(t, dt)), lambda p, dt, t=t: p + tens(t, dt), lambda m, t=t: m.offset(t))
                v = 1 + sg * k * np.abs(a)
                yield ("scale1+%d*%g" % (i, sg * k), lambda p, dt, v=v: p.scale_(tens(v, dt)), lambda p, dt, v=v: p * tens(v, dt), lambda m, v=v: m.scale(v))
                yield ("div1+%d*%g" % (i, sg * k), None, lambda p, dt, v=v: p / tens(v, dt), lambda m, v=v: m.scale(1 / v))
        for sg in (1, -1):
            yield ("offset %g" % (sg * k), lambda p, dt, c=sg * k: p.offset_(c), lambda p, dt, c=sg * k: p - (-c), lambda m, c=sg * k: m.offset(c))
            yield ("scale 1+%g" % (sg * k), lambda p, dt, c=1 + sg * k: p.scale_(c), lambda p, dt, c=1 + sg * k: p / (1 / c), lambda m, c=1 + sg * k: m.scale(c))
            K = np.array([[1 + sg * k, 0, 0, 0], [0, 1, sg * k, 0], [0, 0, 1, 0], [0, 0, 0, 1.0]])
            yield ("pinhole 1+%g" % (sg * k), lambda p, dt, K=K: p.pinhole_projection_(tens(K, dt)), lambda p, dt, K=K: p.pinhole_projection(tens(K, dt)), lambda m, K=K: m.pinhole(K))
    for k in (1e-6, 1e-3, 1e3, 1e6):
        yield ("scale %g" % k, lambda p, dt, k=k: p.scale_(k), lambda p, dt, k=k: p * k, lambda m, k=k: m.scale(k))
        yield ("div %g" % k, None, lambda p, dt, k=k: p / k, lambda m, k=k: m.scale(1 / k))
        yield ("offset %g" % k, lambda p, dt, k=k: p.offset_(k), lambda p, dt, k=k: p + k, lambda m, k=k: m.offset(k))


def small_cases():
    for c in (CLOUDS[0], CLOUDS[2], CLOUDS[3]):
        for j, o in enumerate(small_ops()):
            for form, f in (("in-place", o[1]), ("out-of-place", o[2])):
                if f is not None:
                    yield "%s/%s/%s" % (c[0], o[0], form), (c, o, form, f, ("", "padded first")[j % 2])


def check_small(case):
    c, o, form, f, pre = case
    pc, m = build(c, torch.float64)
    if pre:
        pc.points_padded
    r = f(pc, torch.float64)
    m2 = o[3](m.copy())
    for a in ATTRS:
        got, want = getattr(r, a + "_list"), m2.d[a]
        expect((got is None) == (want is None), a + " appeared or disappeared")
        for b, w in enumerate(want or []):
            w = np.asarray(w, dtype=np.float64)
            g = got[b].detach().numpy()
            expect(g.shape == w.shape, "%s[%d] shape %s, expected %s" % (a, b, g.shape, w.shape))
            err = np.abs(g - w) / np.maximum(1e-3, np.abs(w))
            expect(g.size == 0 or err.max() < 1e-7, "%s[%d] is %s, expected %s" % (a, b, g.tolist(), w.tolist()))
    return "exact", 1


# ---- operands that must be rejected, leaving the batch as it was
def bad_cases():
    bads = [
        ("rotate_ 2x4", (ValueError,), lambda p: p.rotate_(torch.rand(2, 4))),
        ("rotate_ 4x4", (ValueError,), lambda p: p.rotate_(torch.eye(4))),
        ("rotate_ batch+1", (ValueError,), lambda p: p.rotate_(torch.eye(3).repeat(len(p) + 1, 1, 1))),
        ("rotate_ list", (TypeError,), lambda p: p.rotate_([[1.0]])),
        ("transform_ 3x3", (ValueError,), lambda p: p.transform_(torch.eye(3))),
        ("transform_ batch+1", (ValueError,), lambda p: p.transform_(torch.eye(4).repeat(len(p) + 1, 1, 1))),
        ("transform_ list", (TypeError,), lambda p: p.transform_([1])),
        ("pinhole_ 3x3", (ValueError,), lambda p: p.pinhole_projection_(torch.eye(3))),
        ("pinhole_ list", (TypeError,), lambda p: p.pinhole_projection_([1])),
        ("offset_ str", (TypeError,), lambda p: p.offset_("1")),
        ("offset_ None", (TypeError,), lambda p: p.offset_(None)),
        ("scale_ list", (TypeError,), lambda p: p.scale_([2.0])),
        ("+ cloud", (NotImplementedError,), lambda p: p + p),
        ("- cloud", (NotImplementedError,), lambda p: p - p),
        ("* cloud", (NotImplementedError,), lambda p: p * p),
        ("/ tuple", (NotImplementedError,), lambda p: p / (1, 2, 3)),
        ("@ tuple", (NotImplementedError,), lambda p: p @ (1, 2, 3)),
        ("@ 1x1x4", (ValueError,), lambda p: p @ torch.rand(1, 1, 4)),
        ("+ 1x1x4", (RuntimeError, ValueError), lambda p: p + torch.rand(1, 1, 4)),
        ("offset_ 1x1x4", (RuntimeError, ValueError), lambda p: p.offset_(torch.rand(1, 1, 4))),
        ("scale_ 1x1x4", (RuntimeError, ValueError), lambda p: p.scale_(torch.rand(1, 1, 4))),
    ]
    for c in CLOUDS[:5]:
        for b in bads:
            yield "%s/%s" % (c[0], b[0]), (c, b)


def check_bad(case):
    c, (name, excs, f) = case
    pc, m = build(c)
    raises(lambda: f(pc), excs)
    observe_pc(pc, m, "batch after a rejected operation")
    return "rejected"


SWEEPS = [("single", single_cases, check_single), ("large clouds", big_cases, check_single), ("near neutral", small_cases, check_small), ("chains", pair_cases, check_pair), ("rejected", bad_cases, check_bad)]
RULE = ("complete product of clouds x dtypes x operation arguments (24 cube rotations, generic and non-orthogonal matrices, "
        "translations on a 3x3x3 grid, every broadcastable tensor shape, scalars, intrinsics; single and batched) x "
        "in-place/out-of-place x internal form, all chains of two or three operations, a selection of them on clouds of up to 5000 points and batches of nine, arguments within 1e-1..1e-6 of the neutral one in float64, and all listed rejected operands")


def main(tier, t0):
    return sweepcheck.run("C03", tier, t0, SWEEPS, rule=RULE, bounds={"points per cloud": "0..3; 5000 in the large sweep", "chain length": 3},
                          assumptions=["float32 values compared with tolerance 1e-4 (2e-3 after chains)"])


def replay(doc):
    return sweepcheck.replay(doc, SWEEPS)
