"""C10: fusion correspondences are exactly the close, similar, best and unique pairs."""
import itertools
import warnings

import numpy as np
import torch

import purecalls
import purity
import sweepcheck
from c08 import frames
from framemodel import own_normals
from fusionmodel import Borderline, active, best, similar
from mc import Mismatch, expect, raises
from pcmodel import PC, T1, axis_angle, se3
from rgbdmodel import intr, make_rgbd, observe_rgbd

H, W = 2, 3
KA, KB = intr(2.0, 2.5, 0.75, 0.5), intr(3.0, 2.0, 1.0, 0.25)
TB = se3(axis_angle([0.2, 1, -0.3], 0.8), [0.5, -1.0, 2.0])
BASE = np.array([[2.0, 2.25, 2.0], [2.5, 2.0, 2.25]])
DEPTHS = {"full": BASE, "holes": BASE * np.array([[1, 0, 1], [1, 1, 0]]), "none": BASE * 0.0, "negative": BASE * np.array([[1, -1, 1], [-1, 1, 1]])}
POSE = {"I": np.eye(4), "T": TB}


def frame(depth, pose, K=KA):
    return frames([[DEPTHS[depth]]], [K], [POSE[pose]], False)


# candidate map points, described relative to a pixel of the frame (so they exist for every configuration)
def cand(m, b, kind, pix, normals):
    """(point, normal, confidence) in world coordinates; m is the frame with its holes filled."""
    h, w = pix
    T, K = m.poses[b, 0], m.K[b, 0]
    z = m.depth[b, 0, h, w, 0]
    du, dv, dz, nrm, conf = KINDS[kind]
    if kind == "camera plane":
        return T[:3, :3] @ np.array([0.5, 0.4, 0.0]) + T[:3, 3], normals[b, 0, h, w], conf
    zz = z + dz if kind != "close" and dz is not None else -z if dz is None else dz
    u, v = w + du, h + dv
    q = np.array([(u - K[0, 2]) / K[0, 0] * zz, (v - K[1, 2]) / K[1, 1] * zz, zz])
    n = normals[b, 0, h, w]
    if nrm == "tilt20":
        n = axis_angle(np.cross(n, [0.3, 0.9, -0.2]), np.deg2rad(20)) @ n
    elif nrm == "tilt60":
        n = axis_angle(np.cross(n, [0.3, 0.9, -0.2]), np.deg2rad(60)) @ n
    elif nrm == "opposite":
        n = -n
    elif nrm == "zero":
        n = n * 0
    return T[:3, :3] @ q + T[:3, 3], n, conf


#        du   dv   dz     normal    confidence
KINDS = {
    "exact": (0.0, 0.0, 0.0, "same", 1.0),
    "exact c2": (0.0, 0.0, 0.0, "same", 2.0),
    "near": (0.0, 0.0, 0.05, "same", 1.0),
    "near c2": (0.0, 0.0, 0.05, "same", 2.0),
    "nearer camera": (0.0, 0.0, -0.08, "same", 1.0),
    "side": (0.2, -0.1, 0.02, "same", 1.0),
    "tilted": (0.0, 0.0, 0.03, "tilt20", 3.0),
    "too tilted": (0.0, 0.0, 0.03, "tilt60", 5.0),
    "opposite": (0.0, 0.0, 0.0, "opposite", 4.0),
    "zero normal": (0.0, 0.0, 0.0, "zero", 4.0),
    "too far": (0.0, 0.0, 0.6, "same", 5.0),
    "behind": (0.0, 0.0, None, "same", 6.0),
    "close": (0.0, 0.0, 0.006, "same", 6.0),
    "camera plane": (0.0, 0.0, 0.0, "same", 6.0),
    "c0": (0.0, 0.0, 0.02, "same", 0.0),
    "left out": (-0.3 - 1.0, 0.0, 0.0, "same", 1.0),
    "edge right": (0.3, 0.0, 0.0, "same", 1.0),
    "edge top": (0.0, -0.3, 0.0, "same", 1.0),
    "next pixel": (0.7, 0.0, 0.0, "same", 1.5),
}
PIX = [(0, 0), (0, 1), (1, 2), (1, 0)]
ALLC = [(k, p) for k in KINDS for p in PIX]
FEW = [(k, p) for k in ("exact", "exact c2", "near", "near c2", "nearer camera", "tilted", "too tilted", "too far", "opposite") for p in ((0, 1),)] + [("exact", (1, 2)), ("near c2", (1, 2))]
# confidences: tiny, large, and close to each other
CONFS = (1e-4, 0.02, 0.021, 0.03, 1.0, 1.01, 99.5, 101.0, 500.0, 502.0, 7000.0)
for _c, _dz in itertools.product(CONFS, (0.02, 0.05)):
    KINDS["conf %g %g" % (_c, _dz)] = (0.0, 0.0, _dz, "same", _c)
CONF = [k for k in KINDS if k.startswith("conf ")]
THS = [(0.3, 0.8), (0.3, 0.0), (2, 0.99)]


def cases(tier="quick"):
    def c(key, clouds, depth, pose, th, cf=False):
        return "%s/%s/%s/th%d%s" % (key, depth, pose, th, "/cf" if cf else ""), (clouds, depth, pose, THS[th], cf)

    for i, a in enumerate(ALLC):
        for d, p, t in itertools.product(DEPTHS, POSE, range(3)):
            yield c("1:%s%s" % a, [[a]], d, p, t, i % 4 == 3)
    for i, (a, b) in enumerate(itertools.product(ALLC, repeat=2)):
        yield c("2:%s%s,%s%s" % (a + b), [[a, b]], ("full", "holes")[(i // 7) % 2], ("I", "T")[(i // 3) % 2], (i // 2) % 3)
    for i, t in enumerate(itertools.product(FEW, repeat=3)):
        yield c("3:%s" % (",".join("%s%s" % x for x in t)), [list(t)], "full", "IT"[i % 2], (0, 1)[i % 2])
    if tier == "thorough":
        for i, t in enumerate(itertools.product(FEW, repeat=4)):
            yield c("4:%s" % (",".join("%s%s" % x for x in t)), [list(t)], "full", "IT"[i % 2], (0, 1)[i % 2])
    for i, (a, b) in enumerate(itertools.product(CONF, repeat=2)):
        yield c("2c:%s,%s" % (a, b), [[(a, (0, 1)), (b, (0, 1))]], "full", "IT"[i % 2], i % 2)
    # batches with clouds of different sizes: padding and the other cloud must not matter
    for i, (a, b) in enumerate(itertools.product(ALLC[::2], ALLC[1::3])):
        yield c("b2:%s%s|%s%s,exact" % (a + b), [[a], [b, ("exact", (1, 2))]], ("full", "holes")[i % 2], "T", 0, i % 5 == 0)
        yield c("b2r:%s%s,exact c2|%s%s" % (a + b), [[a, ("exact c2", (0, 1)), ("near", (0, 1))], [b]], "full", "I", 0)
    for a in ALLC[:12]:
        yield c("b3:%s%s" % a, [[a], [("exact", (0, 0)), a], [("near c2", (0, 1)), ("exact", (0, 1)), a]], "full", "T", 0)
        yield c("b2 empty cloud:%s%s" % a, [[], [a]], "full", "T", 0)
        yield c("b2 empty last:%s%s" % a, [[a, a], []], "holes", "I", 0)


def build(clouds, depth, pose, cf, dt=torch.float32):
    from gradslam.structures.pointclouds import Pointclouds
    B = len(clouds)
    Ks = [KA, KB][:B] if B < 3 else [KA, KB, KA]
    full = frames([[DEPTHS["full"]]] * B, Ks, [POSE[pose]] * B, False)
    if B > 1:
        full.poses[1] = POSE["T"] if pose == "I" else POSE["I"]
    m = full.copy()
    m.depth = np.stack([[DEPTHS[depth if b == 0 else "full"]] for b in range(B)])[..., None]
    m.drop()
    fn = full.gnormal()
    d = {k: [] for k in ("points", "normals", "colors", "features")}
    for b, cl in enumerate(clouds):
        rows = [cand(full, b, k, p, fn) for k, p in cl]
        d["points"].append(np.array([r[0] for r in rows]).reshape(-1, 3))
        d["normals"].append(np.array([r[1] for r in rows]).reshape(-1, 3))
        d["colors"].append(np.array([[0.1 * (i + 1), 0.5, 0.9 - 0.1 * i] for i in range(len(rows))]).reshape(-1, 3))
        d["features"].append(np.array([[r[2]] for r in rows]).reshape(-1, 1))
    mc_ = m.copy()
    mc_.cf = cf
    r = make_rgbd(mc_, dt)
    pc = Pointclouds(**{k: [torch.tensor(x, dtype=dt) for x in v] for k, v in d.items()})
    # the model sees the rounded values the implementation sees
    if dt == torch.float32:
        d = {k: [x.astype(np.float32).astype(float) for x in v] for k, v in d.items()}
    return pc, PC(d), r, m, mc_


def rows_of(t):
    expect(t.dtype == torch.int64 and t.ndim == 2 and t.shape[1] == 4, "lookup table has dtype %s, shape %s" % (t.dtype, tuple(t.shape)))
    rows = [tuple(x) for x in t.tolist()]
    expect(len(set(rows)) == len(rows), "lookup table repeats a row: %s" % rows)
    return rows


def eqset(got, want, what):
    if set(got) != set(want):
        raise Mismatch("%s: got %s, expected %s (missing %s, extra %s)" % (
            what, sorted(got), sorted(want), sorted(set(want) - set(got)), sorted(set(got) - set(want))))


def check(case):
    from gradslam.slam import fusionutils as fu
    from pcmodel import observe_pc
    clouds, depth, pose, (dist_th, dot_th), cf = case
    pc, m, r, fm, fm_cf = build(clouds, depth, pose, cf)
    nrm = own_normals(r)
    try:
        act = active(m, fm)
        sim = similar(m, fm, nrm, act, dist_th, dot_th)
        bst = best(m, fm, sim)
    except Borderline:
        return "outside domain", 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = fu.find_active_map_points(pc, r)
        eqset(rows_of(a), act, "active map points")
        s, mask = fu.find_similar_map_points(pc, r, a, dist_th, dot_th)
        eqset(rows_of(s), sim, "similar map points")
        expect(mask.dtype == torch.bool and mask.shape == (a.shape[0],), "similarity mask has shape %s" % (tuple(mask.shape),))
        eqset([tuple(x) for x in a[mask].tolist()], sim, "rows marked similar")
        for what, t in (("best correspondences", fu.find_best_unique_correspondences(pc, r, s)), ("correspondences", fu.find_correspondences(pc, r, dist_th, dot_th))):
            got = rows_of(t)
            expect(len(got) == len(bst), "%s: got %s, expected one of each of %s" % (what, got, [sorted(x) for x in bst]))
            for x in bst:
                expect(len(x & set(got)) == 1, "%s: got %s, expected one of each of %s" % (what, got, [sorted(y) for y in bst]))
    observe_pc(pc, m, "map")
    observe_rgbd(r, fm_cf, "frame", maps=())
    return "%d active, %d similar, %d pairs" % (min(len(act), 3), min(len(sim), 3), min(len(bst), 3)), 4


def bad_cases():
    from gradslam.structures.pointclouds import Pointclouds
    pc, m, r, fm, _ = build([[("exact", (0, 0))]], "full", "I", False)
    pc2, _, r2, _, _ = build([[("exact", (0, 0))], [("exact", (0, 0))]], "full", "I", False)
    two = make_rgbd(frames([[DEPTHS["full"]] * 2], [KA], [np.eye(4)], False))
    t = torch.zeros(1, 4, dtype=torch.int64)
    P = Pointclouds
    yield "active map type", ("a", (torch.zeros(3), r), TypeError)
    yield "active frame type", ("a", (pc, torch.zeros(3)), TypeError)
    yield "active length", ("a", (pc, two), ValueError)
    yield "active batch", ("a", (pc2, r), ValueError)
    good = torch.zeros(2, 3)
    for g in "cn":
        yield g + " first type", (g, ([[0, 0, 0]], good[:1], 0.1), TypeError)
        yield g + " second type", (g, (good, np.zeros((2, 3)), 0.1), TypeError)
        yield g + " threshold type", (g, (good, good, "0.1"), TypeError)
        yield g + " threshold none", (g, (good, good, None), TypeError)
        yield g + " shapes", (g, (good, good[:1], 0.1), ValueError)
        yield g + " channels", (g, (good[:, :2], good[:, :2], 0.1), ValueError)
        yield g + " channels dim", (g, (good, good, 0.1, 0), ValueError)
    yield "similar length", ("s", (pc, two, t, 0.1, 0.5), ValueError)
    yield "similar table type", ("s", (pc, r, t.tolist(), 0.1, 0.5), TypeError)
    yield "similar map type", ("s", (torch.zeros(3), r, t, 0.1, 0.5), TypeError)
    yield "similar frame type", ("s", (pc, torch.zeros(3), t, 0.1, 0.5), TypeError)
    yield "best length", ("b", (pc, two, t), ValueError)
    yield "best table type", ("b", (pc, r, t.tolist()), TypeError)
    yield "best map type", ("b", (torch.zeros(3), r, t), TypeError)
    yield "best ndim", ("b", (pc, r, t[0]), ValueError)
    yield "similar float table", ("s", (pc, r, t.float(), 0.1, 0.5), TypeError)
    yield "similar ndim", ("s", (pc, r, t[0], 0.1, 0.5), ValueError)
    yield "similar columns", ("s", (pc, r, t[:, :3], 0.1, 0.5), ValueError)
    yield "similar batch", ("s", (pc2, r, t, 0.1, 0.5), ValueError)
    yield "similar dist type", ("s", (pc, r, t, "x", 0.5), TypeError)
    yield "similar dot type", ("s", (pc, r, t, 0.1, None), TypeError)
    yield "similar no normals", ("s", (P(points=[torch.zeros(1, 3)]), r, t, 0.1, 0.5), ValueError)
    yield "best float table", ("b", (pc, r, t.float()), TypeError)
    yield "best columns", ("b", (pc, r, t[:, :3]), ValueError)
    yield "best no features", ("b", (P(points=[torch.zeros(1, 3)], normals=[torch.ones(1, 3)]), r, t), ValueError)
    yield "best batch", ("b", (pc2, r, t), ValueError)


def check_bad(case):
    from gradslam.slam import fusionutils as fu
    f, args, e = case
    raises(lambda: {"a": fu.find_active_map_points, "s": fu.find_similar_map_points, "b": fu.find_best_unique_correspondences,
             "c": fu.are_points_close, "n": fu.are_normals_similar}[f](*args), (e,))
    return "rejected"


PAIRS = [([3, 4, 0], [0, 0, 0]), ([1, -2, 2], [1, -2, 2]), ([-1, 2, -2], [1, -2, 2]), ([0, 0, 0], [2, 3, 6]), ([0.5, 0, 0], [0, 0.5, 0]), ([1, 0, 0], [0.5, 0.75, 0]), ([0, 0, 1], [0, 0.25, 0.5])]
SHAPES = [((7, 3), -1), ((7, 3), 1), ((3, 7), 0), ((3, 7), -2), ((7, 1, 3), 2), ((7, 3, 1), 1), ((1, 7, 3), -1), ((1, 3, 7), -2), ((1, 1, 7, 1, 3), 4), ((1, 1, 7, 3, 1), 3)]


def pair_cases():
    for (shape, dim), f, order, dt in itertools.product(SHAPES, ("close", "similar"), (0, 1, 2), ("float32", "float64")):
        ths = (-1, -0.5, 0, 0.5, 0.7, 1, 0.0, 2.5, 5, 6, 6.0, 7) if f == "close" else (-9, -1.0, -0.5, 0, 0.0, 0.25, 0.5, 0.6, 1, 8.5, 9)
        for th in ths:
            yield "%s/%s/dim%d/order%d/%s/th%r" % (f, shape, dim, order, dt, th), (f, shape, dim, order, dt, th)


def check_pair(case):
    """Both predicates are strict; the values are chosen so that sums, products and roots are exact."""
    from gradslam.slam import fusionutils as fu
    f, shape, dim, order, dt, th = case
    rows = [PAIRS[(i * (1, 3, 5)[order] + order) % 7] for i in range(7)]
    k = [i for i in range(len(shape)) if shape[i] == 7][0]

    def lay(j):
        a = torch.tensor([r[j] for r in rows], dtype=getattr(torch, dt))
        if k > dim % len(shape):
            a = a.t()
        return a.reshape(shape)

    x, y = lay(0), lay(1)
    x0, y0 = x.clone(), y.clone()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = (fu.are_points_close if f == "close" else fu.are_normals_similar)(x, y, th, dim=dim)
    d = [np.sqrt(sum((a - b) ** 2 for a, b in zip(p, q))) if f == "close" else sum(a * b for a, b in zip(p, q)) for p, q in rows]
    want = [(v < th) if f == "close" else (v > th) for v in d]
    expect(got.dtype == torch.bool, "result has dtype %s" % got.dtype)
    expect(tuple(got.shape) == tuple(s for i, s in enumerate(shape) if i != dim % len(shape)), "result has shape %s" % (tuple(got.shape),))
    expect(got.flatten().tolist() == want, "%s of %s at threshold %r: got %s, expected %s" % (f, rows, th, got.flatten().tolist(), want))
    expect(torch.equal(x, x0) and torch.equal(y, y0), "inputs changed")
    return "%s %d" % (f, sum(want))


def empty_cases():
    from gradslam.structures.pointclouds import Pointclouds
    for depth in DEPTHS:
        yield "no map/" + depth, (Pointclouds(), frame(depth, "T"))
        yield "map of empty clouds/" + depth, (Pointclouds(points=[torch.zeros(0, 3)], normals=[torch.zeros(0, 3)], colors=[torch.zeros(0, 3)], features=[torch.zeros(0, 1)]), frame(depth, "I"))


def check_empty(case):
    from gradslam.slam import fusionutils as fu
    pc, fm = case
    r = make_rgbd(fm)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        expect(rows_of(fu.find_correspondences(pc, r, 0.1, 0.5)) == [], "correspondences with an empty map")
        expect(rows_of(fu.find_active_map_points(pc, r)) == [], "active points of an empty map")
    return "empty"


def big_cases(tier="quick"):
    n = 0
    for (H_, W_), B, per in (((12, 16), 1, 3), ((16, 12), 2, 2), ((24, 31), 1, 4), ((40, 50), 1, 2), ((9, 70), 3, 3), ((70, 9), 1, 6)) + ((((90, 120), 2, 3), ((64, 64), 3, 8)) if tier == "thorough" else ()):
        for k in range(4 if tier == "quick" else 8):
            n += 1
            yield "%dx%d/b%d/%d per pixel/%d" % (H_, W_, B, per, k), (H_, W_, B, per, k)


def big_build(H_, W_, B, per, k, zero=0.0):
    """A map holding `per` candidates around every pixel, in an order unrelated to the image; candidates on a threshold are left out."""
    from gradslam.structures.pointclouds import Pointclouds
    v, u = np.mgrid[0:H_, 0:W_]
    Ks = [intr(0.8 * W_, 1.1 * H_, 0.47 * W_, 0.55 * H_), intr(1.3 * W_, 0.9 * H_, 0.6 * W_, 0.4 * H_)]
    poses = [np.eye(4), TB, T1]
    surf = [2.0 + 0.3 * np.sin(v * 2.2 / H_ + b) + 0.25 * np.cos(u * 3.1 / W_ + k) + 0.01 * ((u * 7 + v * 3) % 5) for b in range(B)]
    hole = [((u * 5 + v * 3 + k + b) % (3 + k) == 0) for b in range(B)]
    full = frames([[s] for s in surf], [Ks[(b + k) % 2] for b in range(B)], [poses[(b + k) % 3] for b in range(B)], False)
    m = full.copy()
    m.depth = np.stack([[np.where(h, -1.0 if k % 2 else 0.0, s)] for s, h in zip(surf, hole)])[..., None]
    m.drop()
    fn = full.gnormal()
    dist_th, dot_th = THS[k % 2]
    names = list(KINDS)
    r = make_rgbd(m)
    nrm = own_normals(r)
    d = {x: [] for x in ("points", "normals", "colors", "features")}
    for b in range(B):
        rows = []
        for p in range(per):
            for i in range(H_ * W_):
                j = (i * 7919 + 13 * p) % (H_ * W_)
                rows.append(cand(full, b, names[(j * (3 + 2 * p) + p + k + b) % len(names)], (j // W_, j % W_), fn))
        if b == 1:
            rows = rows[: len(rows) // 3]
        rows = [(x[0], x[1], x[2] or zero) for x in rows]
        P = [np.array([x[c] for x in rows]).astype(np.float32).astype(float).reshape(len(rows), -1) for c in range(3)]
        ok = []
        for i in range(len(rows)):
            one = PC({"points": [P[0][i:i + 1]], "normals": [P[1][i:i + 1]], "features": [P[2][i:i + 1]]})
            try:
                mb = _one(m, b)
                similar(one, mb, nrm[b:b + 1], active(one, mb), dist_th, dot_th)
                ok.append(i)
            except Borderline:
                pass
        for x, y in (("points", P[0]), ("normals", P[1]), ("features", P[2]), ("colors", P[0] * 0.1)):
            d[x].append(y[ok])
    pc = Pointclouds(**{x: [torch.tensor(y, dtype=torch.float32) for y in z] for x, z in d.items()})
    return pc, PC(d), r, m, nrm, dist_th, dot_th


def _one(m, b):
    c = getattr(m, "_ones", None)
    if c is None:
        c = m._ones = {}
    if b not in c:
        c[b] = type(m)(m.rgb[b:b + 1], m.depth[b:b + 1], m.K[b:b + 1], m.poses[b:b + 1], m.cf)
    return c[b]


def check_big(case):
    from gradslam.slam import fusionutils as fu
    pc, m, r, fm, nrm, dist_th, dot_th = big_build(*case)
    act = active(m, fm)
    sim = similar(m, fm, nrm, act, dist_th, dot_th)
    bst = best(m, fm, sim)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = fu.find_active_map_points(pc, r)
        eqset(rows_of(a), act, "active map points")
        s, mask = fu.find_similar_map_points(pc, r, a, dist_th, dot_th)
        eqset(rows_of(s), sim, "similar map points")
        for what, t in (("best correspondences", fu.find_best_unique_correspondences(pc, r, s)), ("correspondences", fu.find_correspondences(pc, r, dist_th, dot_th))):
            got = set(rows_of(t))
            expect(len(got) == len(t) == len(bst), "%s: %d rows, expected one of each of %d groups" % (what, len(t), len(bst)))
            for x in bst:
                expect(len(x & got) == 1, "%s: pixel %s is matched to %s, expected one of %s" % (what, sorted(x)[0][2:], sorted(g for g in got if (g[0],) + g[2:] == (sorted(x)[0][0],) + sorted(x)[0][2:]), sorted(x)))
    return "%d+ pairs of %d+ points" % (len(bst) // 50 * 50, sum(m.counts) // 500 * 500), 4


def huge_cases():
    """Indices beyond what float32 can represent exactly."""
    N = 2 ** 24 + 4
    for placed in ((5, 2 ** 24 + 1, 2 ** 24 + 3),):
        yield "N=2^24+4/%s" % (placed,), (N, placed)


def check_huge(case):
    from gradslam.slam import fusionutils as fu
    from gradslam.structures.pointclouds import Pointclouds
    N, (i, j, k) = case
    fm = frame("full", "I")
    r = make_rgbd(fm)
    V, n = fm.gvertex(), r.global_normal_map
    pts = torch.zeros(N, 3)
    pts[:, 2] = -1.0
    for x, (h, w) in ((i, (1, 2)), (j, (1, 2)), (k, (0, 0))):
        pts[x] = torch.tensor(V[0, 0, h, w], dtype=torch.float32)
    nr = torch.zeros(N, 3)
    nr[i] = nr[j] = n[0, 0, 1, 2]
    nr[k] = n[0, 0, 0, 0]
    f = torch.ones(N, 1)
    f[j] = 3
    pc = Pointclouds(points=[pts], normals=[nr], features=[f])
    a = fu.find_active_map_points(pc, r)
    eqset(rows_of(a), [(0, i, 1, 2), (0, j, 1, 2), (0, k, 0, 0)], "active map points")
    eqset(rows_of(fu.find_correspondences(pc, r, 0.2, 0.5)), [(0, j, 1, 2), (0, k, 0, 0)], "correspondences")
    return "huge", 2


def sweeps(tier):
    return [("huge map", huge_cases, check_huge), ("correspondences", lambda: cases(tier), check), ("large", lambda: big_cases(tier), check_big), ("predicates", pair_cases, check_pair), ("empty map", empty_cases, check_empty), ("rejected", bad_cases, check_bad),
            purity.sweep(purecalls.search, tier)]


RULE = ("every map of one or two points over the candidate kinds (exact, near, tilted, too far, behind, outside, next pixel, confidence classes) x pixels, every "
        "triple (quadruple, thorough) of a subset, ragged batches, depth patterns, poses and thresholds; each search stage compared as a set with a brute-force definition")


def main(tier, t0):
    return sweepcheck.run("C10", tier, t0, sweeps(tier), rule=RULE, bounds={"map points": "0..4 per cloud", "batch": "1..3", "frame": "2x3; up to 40x50 with 4500 points in the large sweep"},
                          assumptions=["cases within 2e-3 of a decision threshold are outside the domain (counted as 'outside domain')", "non-negative normal thresholds"])


def replay(doc):
    return sweepcheck.replay(doc, sweeps("thorough"))
