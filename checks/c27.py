"""C27: downsampling keeps whole points at the documented rate."""
import itertools
import warnings

import numpy as np
import torch

import purecalls
import purity
import sweepcheck
from c08 import KS, POSES, frames
from c09 import patterns
from framemodel import own_normals
from mc import expect, raises
from pcmodel import PC, data, make, observe_pc
from rgbdmodel import make_rgbd, observe_rgbd


def strided_cloud(m, nrm, k):
    d = {"points": [], "normals": [], "colors": []}
    V = m.gvertex()
    for b in range(m.shape[0]):
        rows = [(v, u) for v in range(m.shape[2]) for u in range(m.shape[3])
                if v % k == 0 and u % k == 0 and m.depth[b, 0, v, u, 0] > 0]
        for key, x in (("points", V), ("normals", nrm), ("colors", m.rgb)):
            d[key].append(np.array([x[b, 0, v, u] for v, u in rows]).reshape(-1, 3))
    return PC(d)


def frame_cases(tier="quick"):
    for (H, W) in ((2, 2), (2, 3)):
        for i, p in enumerate(patterns(H, W)):
            for k, cf, pi in itertools.product((1, 2, 3), (False, True), (0, 2)):
                yield "%dx%d/%d/k%d/cf%d/P%d" % (H, W, i, k, cf, pi), ([p], k, cf, pi, torch.float32)
    step = 5 if tier == "quick" else 1
    for i, p in itertools.islice(enumerate(patterns(3, 3)), 0, None, step):
        for k in (1, 2, 3, 4):
            yield "3x3/%d/k%d" % (i, k), ([p], k, bool(i % 2), (i + k) % 4, torch.float64 if i % 3 == 0 else torch.float32)
    for (H, W) in ((1, 5), (4, 5), (5, 4), (6, 7), (5, 1)):
        n = H * W
        for h in range(n + 2):
            d = 1.0 + (np.arange(n).reshape(H, W) * 5 % 7) * 0.25
            if h < n:
                d.flat[h] = 0.0
            if h == n:
                d[::2] = -1.0
            for k in (1, 2, 3, 4, 8):
                yield "%dx%d/hole%d/k%d" % (H, W, h, k), ([d], k, bool((h + k) % 2), (h + k) % 4, torch.float32)
    for (H, W, B) in ((32, 41, 1), (41, 32, 2), (64, 64, 1), (9, 7, 6)):
        i = np.arange(H * W).reshape(H, W)
        for k in (1, 2, 3, 4, 5, 7, 8, 16, 31, 50):
            for hole in (0, 5):
                yield "large/%dx%d/B%d/k%d/%d" % (H, W, B, k, hole), ([np.where((i * 3 + b) % 7 < hole, 0.0, 1.0 + (i * 5 + b) % 9 * 0.25) for b in range(B)], k, bool(k % 2), k % 4, torch.float32)
    ps = patterns(2, 3)
    for i, j in itertools.product(range(0, 64, 3 if tier == "quick" else 1), range(0, 64, 7)):
        yield "pair/%d/%d" % (i, j), ([ps[i], ps[j]], 1 + (i + j) % 3, bool((i // 3 + j) % 2), (i + j) % 4, torch.float32)
    for i in range(0, 64, 5):
        yield "triple/%d" % i, ([ps[i], ps[63 - i], ps[(i * 11 + 3) % 64]], 1 + i % 2, bool(i % 3), i % 4, torch.float32)


def check_frame(case):
    from gradslam.odometry.icputils import downsample_rgbdimages
    ps, k, cf, pi, dt = case
    P = None if POSES[pi] is None else [POSES[pi], POSES[(pi % 3) + 1], POSES[3]]
    if min(ps[0].shape) < 2:
        # normals need a neighbour on both sides; only images of at least two pixels a side have them
        return "too thin", 0
    m = frames([[p] for p in ps], KS[:2], P, cf)
    r = make_rgbd(m, dt)
    want = strided_cloud(m, own_normals(r), k)
    got = downsample_rgbdimages(r, k)
    observe_pc(got, want, "downsampled frame")
    expect(got.points_list[0].dtype == dt, "downsampled frame has precision %s" % got.points_list[0].dtype)
    observe_rgbd(r, m, "frame", maps=("global_vertex_map",))
    got.offset_(1.0)
    observe_rgbd(r, m, "frame after changing the result", maps=("global_vertex_map",))
    return "k%d" % k


# ---------------------------------------------------------------- clouds with a table of active points
def tables(counts, tier):
    """Active-point tables: every subset of points with pixels chosen from a small grid; rows in projection order."""
    pts = [(b, n) for b, c in enumerate(counts) for n in range(c)]
    pix = list(itertools.product((0, 1, 2, 3), (0, 2, 1, 5)))
    for mask in itertools.product((0, 1), repeat=len(pts)):
        sel = [p for p, x in zip(pts, mask) if x]
        for k in range(len(pix) if sel else 1):
            yield [p + pix[(k + 3 * i) % len(pix)] for i, p in enumerate(sel)]


def cloud_cases(tier="quick"):
    n = 0
    for counts in ((1,), (2,), (3,), (1, 2), (3, 1), (0, 2), (2, 0, 1)) + (((4,), (3, 3)) if tier == "thorough" else ()):
        for attrs in ((), ("normals",), ("colors",), ("normals", "colors"), ("normals", "colors", "features")):
            for i, t in enumerate(tables(counts, tier)):
                n += 1
                for k in ((1, 2, 3) if i % 3 == 0 else (2,)):
                    yield "%s/%s/%d/k%d" % (counts, ",".join(attrs), i, k), (counts, attrs, t, k, n % 4)


def check_cloud(case):
    from gradslam.odometry.icputils import downsample_pointclouds
    counts, attrs, t, k, var = case
    d = data(counts, attrs)
    pc, m = make(d), PC(d)
    if var == 1:
        pc.points_padded
    rows = t if var != 3 else t[::-1]
    tt = torch.tensor(rows, dtype=torch.int64).reshape(-1, 4)
    got = downsample_pointclouds(pc, tt, k)
    keep = [[n for (bb, n, h, w) in rows if bb == b and h % k == 0 and w % k == 0] for b in range(len(counts))]
    want = PC({a: None if m.d[a] is None else [x[np.array(i, int)] for x, i in zip(m.d[a], keep)] for a in ("points", "normals", "colors")})
    for a in ("points", "normals", "colors"):
        g = getattr(got, a + "_list")
        expect((g is None) == (want.d[a] is None), "downsampled cloud %s %s" % ("lost" if g is None else "gained", a))
    got2 = PC({a: None if getattr(got, a + "_list") is None else [x.numpy() for x in getattr(got, a + "_list")] for a in ("points", "normals", "colors")})
    if not got.has_features:
        observe_pc(got, want, "downsampled cloud")
    for a in ("points", "normals", "colors"):
        if want.d[a] is not None:
            for b, (x, y) in enumerate(zip(got2.d[a], want.d[a])):
                expect(x.shape == y.shape and np.allclose(x, y, atol=1e-5), "%s of cloud %d: %s, expected %s" % (a, b, x.tolist(), y.tolist()))
    observe_pc(pc, m, "cloud")
    expect(tt.tolist() == [list(r) for r in rows], "the table was modified")
    got.offset_(1.0)
    observe_pc(pc, m, "cloud after changing the result")
    return "kept %d" % sum(map(len, keep))


# ---------------------------------------------------------------- both halves agree: a map made of the frame itself
def self_cases():
    for i, p in enumerate(patterns(2, 3)):
        for k, pi in itertools.product((1, 2), (1, 2)):
            yield "%d/k%d/P%d" % (i, k, pi), (p, k, pi)


def check_self(case):
    from gradslam.odometry.icputils import downsample_pointclouds, downsample_rgbdimages
    from gradslam.structures.utils import pointclouds_from_rgbdimages
    p, k, pi = case
    m = frames([[p]], KS[:1], [POSES[pi]], False)
    r = make_rgbd(m)
    pc = pointclouds_from_rgbdimages(r)
    rows = [(v, u) for v in range(2) for u in range(3) if p[v, u] > 0]
    t = torch.tensor([(0, n, v, u) for n, (v, u) in enumerate(rows)], dtype=torch.int64).reshape(-1, 4)
    a, b = downsample_pointclouds(pc, t, k), downsample_rgbdimages(r, k)
    for x in ("points", "normals", "colors"):
        expect(torch.allclose(getattr(a, x + "_list")[0], getattr(b, x + "_list")[0], atol=1e-5), "%s of the map and of the frame are downsampled differently" % x)
    return "agree", 2


def bad_cases():
    m = make_rgbd(frames([[np.ones((2, 2))]], KS, None, False))
    m2 = make_rgbd(frames([[np.ones((2, 2)), np.ones((2, 2))]], KS, None, False))
    pc = make(data((2,)))
    t = torch.zeros(1, 4, dtype=torch.int64)
    for n, a, e in (("frame type", ("r", pc, 2), TypeError), ("frame None", ("r", None, 2), TypeError), ("ratio float", ("r", m, 2.0), TypeError), ("ratio None", ("r", m, None), TypeError),
                    ("length 2", ("r", m2, 2), ValueError), ("cloud type", ("p", m, t, 2), TypeError), ("table type", ("p", pc, [[0, 0, 0, 0]], 2), TypeError),
                    ("cloud ratio", ("p", pc, t, 2.0), TypeError), ("table ndim", ("p", pc, t[0], 2), ValueError), ("table columns", ("p", pc, t[:, :3], 2), ValueError)):
        yield n, (a, e)


def check_bad(case):
    from gradslam.odometry.icputils import downsample_pointclouds, downsample_rgbdimages
    (k, *a), e = case
    raises(lambda: (downsample_rgbdimages if k == "r" else downsample_pointclouds)(*a), (e,))
    return "rejected"


def sweeps(tier):
    return [("frame", lambda: frame_cases(tier), check_frame), ("cloud", lambda: cloud_cases(tier), check_cloud), ("self map", self_cases, check_self), ("rejected", bad_cases, check_bad),
            purity.sweep(purecalls.downsampling, tier)]


RULE = ("every hole pattern of 2x2 and 2x3 frames, a fifth (thorough: all) of 3x3 patterns, single holes of larger frames, ratios, layouts, batches; every subset of up to six points as "
        "active table with pixels cycling over a grid, attribute set and ratio; both compared with a pixel-by-pixel definition")


def main(tier, t0):
    return sweepcheck.run("C27", tier, t0, sweeps(tier), rule=RULE, bounds={"frame": "2x2..6x7, and up to 64x64", "ratio": "1..50", "batch": "1..3"},
                          assumptions=["ratios are positive; images have at least two pixels a side", "values of the normal map are C08's subject"])


def replay(doc):
    return sweepcheck.replay(doc, sweeps("thorough"))
