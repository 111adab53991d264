"""C08: vertex and normal maps are the back-projection of the valid depth, and zero elsewhere."""
import itertools

import numpy as np
import torch

import sweepcheck
from mc import Mismatch, expect, same
from pcmodel import R1, R2, T1, T2, axis_angle, octahedral, se3
from rgbdmodel import MAPS, RM, intr, make_rgbd, observe_rgbd, same_map

KS = [intr(2.0, 3.0, 0.5, 1.0), intr(525.0, 480.0, 319.5, 239.5), intr(1.5, -1.25, 0.0, 0.75), intr(0.5, 4.0, -2.0, 3.0)]
POSES = [None, np.eye(4), T1, se3(axis_angle([0.3, -1, 2], 2.5), [4.0, -7.0, 0.25])]
VALS = (0.0, 1.0, 2.5)


def grid(H, W, vals):
    return [np.array(x).reshape(H, W) for x in itertools.product(vals, repeat=H * W)]


def frames(depths, Ks, poses, cf):
    """depths: (B, L, H, W)"""
    d = np.asarray(depths, float)[..., None]
    B, L, H, W = d.shape[:4]
    rgb = (np.arange(d.size * 3).reshape(B, L, H, W, 3) % 17) / 17.0
    P = None
    if poses is not None:
        P = np.stack([np.stack([poses[(b * L + l) % len(poses)] for l in range(L)]) for b in range(B)])
    return RM(rgb, d, np.stack([Ks[b % len(Ks)] for b in range(B)])[:, None], P, cf)


def pattern_cases(tier="quick"):
    """All depth images of a size; every pose, intrinsics, layout (rotating over the patterns for the larger sizes)."""
    n = 0
    for H, W in ((2, 2),):
        for i, d in enumerate(grid(H, W, VALS + (-1.0,))):
            for (ki, K), (pi, P), cf in itertools.product(enumerate(KS), enumerate(POSES), (False, True)):
                yield "%dx%d/%d/K%d/P%d/cf%d" % (H, W, i, ki, pi, cf), ([[d]], [K], None if P is None else [P], cf, torch.float32, "none")
    for H, W in ((2, 3), (3, 2)):
        for i, d in enumerate(grid(H, W, VALS)):
            for k in range(2 if tier == "quick" else 8):
                c = i * 5 + k * 3
                P = POSES[(c // 4) % 4]
                yield ("%dx%d/%d/%d" % (H, W, i, k), ([[d]], [KS[c % 4]], None if P is None else [P], bool((i + k) % 2),
                       torch.float64 if (c // 2) % 3 == 0 else torch.float32, ("none", "given", "float")[c % 3]))
    for i, d in enumerate(grid(2, 2, (0.0, 1e-6, 1.5))):
        for P in POSES:
            yield "2x2 tiny/%d/P%s" % (i, P is None), ([[d]], [KS[i % 4]], None if P is None else [P], bool(i // 2 % 2), torch.float64 if i % 3 else torch.float32, "none")
    for i, d in enumerate(grid(3, 3, (0.0, 1.5))):
        yield "3x3/%d" % i, ([[d]], [KS[i % 4]], [POSES[1 + i % 3]], bool((i // 2) % 2), torch.float32, "none")


def check_pattern(case):
    depths, Ks, poses, cf, dt, pix = case
    m = frames(depths, Ks, poses, cf)
    kw = {}
    if pix != "none":
        B, L, H, W = m.shape
        g = np.zeros((B, L, H, W, 3))
        for v in range(H):
            for u in range(W):
                g[:, :, v, u] = (u, v, 1)
        kw["pixel_pos"] = torch.tensor(g, dtype=dt)
    r = make_rgbd(m, dt, **kw)
    observe_rgbd(r, m, "frame")
    n = r.normal_map.detach().numpy()
    k = np.linalg.norm(np.moveaxis(n, 2, 4) if cf else n, axis=-1)
    expect(((k < 1e-6) | (np.abs(k - 1) < 1e-3)).all(), "normals are neither zero nor of unit length: %s" % k)
    return "%s/%s" % (str(dt)[6:], pix), 4


# ---- each frame's maps depend on that frame only: every pair of patterns in one batch / one sequence
def batch_cases():
    pats = grid(2, 2, (0.0, 1.0, 2.5))
    pats = pats[::1]
    for i, j in itertools.product(range(0, len(pats), 2), range(1, len(pats), 4)):
        for shape in ("batch", "sequence"):
            yield "%s/%d/%d" % (shape, i, j), (pats[i], pats[j], shape, bool((i // 2 + j // 4) % 2))
    for i in range(0, len(pats), 3):
        yield "2x2 frames/%d" % i, (pats[i], pats[-1 - i], "both", bool(i % 2))


def check_batch(case):
    a, b, shape, cf = case
    d = [[a], [b]] if shape == "batch" else [[a, b]] if shape == "sequence" else [[a, b, b], [b, a, a]]
    m = frames(d, KS[:2], POSES[1:], cf)
    r = make_rgbd(m)
    observe_rgbd(r, m, "frames")
    return shape, 4


# ---- any camera orientation, and single rows/columns/pixels (vertex maps only: no neighbour to take a normal from)
def pose_cases():
    d = np.array([[1.0, 2.0, 0.0], [1.5, 0.5, 3.0]])
    for i, R in enumerate(octahedral() + [R1, R2, axis_angle([1, 1, 1], 3.1)]):
        for t in ((0, 0, 0), (1.0, -2.0, 3.0), (100.0, 0, -50.0)):
            for cf in (False, True):
                yield "pose%d/%s/cf%d" % (i, t, cf), ([[d]], [KS[0]], [se3(R, t)], cf, MAPS)
    for H, W in ((1, 1), (1, 2), (2, 1), (1, 4), (4, 1), (1, 3), (4, 5)):
        for cf in (False, True):
            dd = 1.0 + (np.arange(H * W).reshape(H, W) * 3 % 5) * 0.5 - (np.arange(H * W).reshape(H, W) % 4 == 3) * 9.0
            for pi, P in enumerate(POSES):
                maps = MAPS if H > 1 and W > 1 else ("vertex_map", "global_vertex_map")
                yield "%dx%d/P%d/cf%d" % (H, W, pi, cf), ([[dd]], [KS[1]], None if P is None else [P], cf, maps)


def check_pose(case):
    depths, Ks, poses, cf, maps = case
    m = frames(depths, Ks, poses, cf)
    r = make_rgbd(m)
    observe_rgbd(r, m, "frame", 1e-4, maps)
    # reading in the other order gives the same maps
    r = make_rgbd(m)
    for k in reversed(maps):
        same_map(getattr(r, k), m, k, k)
    return "%d maps" % len(maps), 2 * len(maps)


# ---- images of thousands of pixels, longer sequences and wider batches
def large_cases(tier="quick"):
    Ks = [intr(40.0, 30.0, 20.5, 11.0), intr(25.0, -35.0, 3.0, 40.0)]
    n = 0
    sizes = ((32, 40, 1, 1), (40, 32, 2, 1), (33, 65, 1, 2), (65, 33, 1, 1), (120, 160, 1, 1), (5, 6, 7, 3), (6, 5, 2, 12)) + (((240, 320, 1, 1),) if tier == "thorough" else ())
    for H, W, B, L in sizes:
        for holes in (0, 1, 5):
            for cf in (False, True):
                n += 1
                yield "%dx%d/B%d/L%d/holes%d/cf%d" % (H, W, B, L, holes, cf), (H, W, B, L, holes, cf, Ks, None if n % 5 == 0 else POSES[1 + n % 2:])


def check_large(case):
    H, W, B, L, holes, cf, Ks, poses = case
    i = np.arange(B * L * H * W).reshape(B, L, H, W)
    d = 1.0 + (i * 7 + (i // W) * 3 + i // (H * W)) % 13 * 0.25
    if holes:
        d = np.where(i * 11 % (holes + 6) == 0, 0.0, d)
    m = frames(d, Ks, poses, cf)
    observe_rgbd(make_rgbd(m), m, "frames", 2e-4)
    return "large", 4


def sweeps(tier):
    return [("patterns", lambda: pattern_cases(tier), check_pattern), ("composition", batch_cases, check_batch), ("poses and sizes", pose_cases, check_pose), ("large", lambda: large_cases(tier), check_large)]


RULE = ("every depth image over {invalid, two depths, negative} on 2x2 and over {0, 1, 2.5} on 2x3/3x2 and {0, 1.5} on 3x3, with intrinsics, poses, layouts, "
        "pixel grids and precisions; pairs of patterns inside one batch or sequence; all cube rotations; single-row/column images; images up to 120x160, batches of 7, sequences of 12; "
        "judged by a per-pixel pinhole model in float64")


def main(tier, t0):
    return sweepcheck.run("C08", tier, t0, sweeps(tier), rule=RULE, bounds={"image": "1x1..4x5, and up to 120x160 (thorough 240x320)", "depths": list(VALS) + [-1.0]},
                          assumptions=["tolerance 1e-4", "the direction of a normal is not judged where neighbouring vertex differences are parallel (|sin| < 1e-3)"])


def replay(doc):
    return sweepcheck.replay(doc, sweeps("quick"))
