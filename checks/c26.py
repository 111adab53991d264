"""C26: ground-truth odometry returns the exact relative pose of consecutive frames."""
import itertools

import numpy as np
import torch

import purecalls
import purity
import sweepcheck
from c08 import KS, frames
from mc import Mismatch, expect, raises, same
from pcmodel import axis_angle, make, data, octahedral, se3
from rgbdmodel import make_rgbd, observe_rgbd

ROT = octahedral() + [axis_angle([0.3, -0.5, 0.8], 0.7), axis_angle([1, 2, 0.5], 2.9), axis_angle([-0.4, 0.1, 1], 1e-3), axis_angle([0, 1, 1], np.pi)]
TR = [(0, 0, 0), (1, -2, 0.5), (-3, 0.25, 4), (0, 0, 10)]
POOL = [se3(R, TR[i % 4]) for i, R in enumerate(ROT)] + [se3(ROT[24], t) for t in TR] + [se3(np.eye(3), t) for t in TR]

# poses as files give them: a few digits, hence not exactly orthonormal, and one far from it
POOL += [np.round(se3(R, t), 3) for R, t in zip(ROT[24:], TR)] + [np.round(se3(ROT[25], TR[1]), 1)]


def fm(idx, L=1, cf=False, seed=0, poses=True):
    B = len(idx)
    d = 1.0 + ((np.arange(B * L * 4).reshape(B, L, 2, 2) * 5 + seed) % 7) * 0.25
    m = frames(d, KS[:2], None, cf)
    if poses:
        m.poses = np.stack([np.stack([POOL[(i + 3 * l) % len(POOL)] for l in range(L)]) for i in idx])
    m.rgb = (m.rgb * 7 + 0.1 * seed) % 1.0
    return m


def cases(tier="quick"):
    N = len(POOL)
    for i, j in itertools.product(range(N), repeat=2):
        yield "1/%d,%d" % (i, j), ([i], [j], False, torch.float32, "own")
        yield "1d/%d,%d" % (i, j), ([i], [j], bool((i + j) % 2), torch.float64, "own")
    n = 0
    for i, j in itertools.product(range(N), repeat=2):
        n += 1
        yield "2/%d,%d" % (i, j), ([i, (j * 7 + 3) % N], [j, (i * 5 + 1) % N], bool(n % 2), torch.float32, ("own", "sliced", "expanded")[n % 3])
        if tier == "thorough" or n % 3 == 0:
            yield "3/%d,%d" % (i, j), ([i, j, (i + j) % N], [j, (i * 3 + 2) % N, i], bool(n % 2), (torch.float32, torch.float64)[n % 2], ("own", "sliced")[n // 2 % 2])
    for i in range(N):
        yield "same object/%d" % i, ([i, (i * 3 + 1) % N], None, False, torch.float32, "own")


def check(case):
    from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
    a, b, cf, dt, how = case
    ma = fm(a, cf=cf)
    mb = ma if b is None else fm(b, cf=not cf, seed=5)

    def build(m):
        if how == "sliced":  # a frame taken out of a sequence: poses are a strided view
            idx = a if m is ma else b
            big = fm(idx, 3, m.cf)
            big.poses[:, 1] = m.poses[:, 0]
            big.depth[:, 1], big.rgb[:, 1] = m.depth[:, 0], m.rgb[:, 0]
            return make_rgbd(big, dt)[:, 1]
        r = make_rgbd(m, dt)
        if how == "expanded":
            r.poses = torch.tensor(np.swapaxes(m.poses, -1, -2).copy(), dtype=dt).transpose(-1, -2)
        return r
    ra = build(ma)
    rb = ra if b is None else build(mb)
    T = GroundTruthOdometryProvider().provide(ra, rb)
    B = len(a)
    expect(isinstance(T, torch.Tensor) and tuple(T.shape) == (B, 1, 4, 4), "relative pose has shape %s" % (tuple(T.shape),))
    expect(T.dtype == dt, "relative pose has precision %s" % T.dtype)
    tol = 1e-4 if dt == torch.float32 else 1e-9
    want = np.stack([np.linalg.solve(ma.poses[i, 0], mb.poses[i, 0]) for i in range(B)])[:, None]
    same(T, want, "relative pose", tol)
    same(ra.poses.matmul(T), mb.poses, "first pose composed with the relative pose", tol)
    R = T[..., :3, :3]
    if max(a + (b or a)) < len(POOL) - 5:
        same(R.matmul(R.transpose(-1, -2)), np.broadcast_to(np.eye(3), (B, 1, 3, 3)), "R R^T", tol)
    same(T[..., 3, :], np.broadcast_to(np.array([0, 0, 0, 1.0]), (B, 1, 4)), "last row", tol)
    observe_rgbd(ra, ma, "first frame", maps=("global_vertex_map",))
    observe_rgbd(rb, mb, "second frame", maps=("global_vertex_map",))
    if B > 1:  # other elements of the batch do not matter
        for i in range(B):
            Ti = GroundTruthOdometryProvider().provide(ra[i], rb[i])
            same(Ti[0], want[i], "relative pose of element %d alone" % i, tol)
    T.add_(1.0)
    observe_rgbd(ra, ma, "first frame after changing the result", maps=())
    observe_rgbd(rb, mb, "second frame after changing the result", maps=())
    return "B%d %s" % (B, how)


def chain_cases():
    N = len(POOL)
    for i in range(N):
        for j in range(0, N, 3):
            yield "%d,%d" % (i, j), [i, j, (i * 7 + j + 1) % N, (i + 2 * j + 5) % N]


def check_chain(idx):
    """Composing the relative poses along a sequence reproduces its last pose."""
    from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
    m = fm([0], len(idx))
    m.poses = np.stack([POOL[i] for i in idx])[None]
    r = make_rgbd(m)
    p = GroundTruthOdometryProvider()
    T = r.poses[:, :1]
    for s in range(1, len(idx)):
        T = T.matmul(p.provide(r[:, s - 1], r[:, s]))
        same(T, m.poses[:, s:s + 1], "composition up to frame %d" % s, 5e-4)
    return "chain", len(idx) - 1


def bad_cases():
    ok, two, l2, no = (make_rgbd(x) for x in (fm([0]), fm([0, 1]), fm([0], 2), fm([0], poses=False)))
    pc = make(data((2,)))
    for n, a, e in (("first type", (pc, ok), TypeError), ("second type", (ok, pc), TypeError), ("pose tensors", (ok.poses, ok.poses), TypeError), ("None", (ok, None), TypeError),
                    ("first without poses", (no, ok), ValueError), ("second without poses", (ok, no), ValueError), ("both without poses", (no, no), ValueError),
                    ("first length", (l2, ok), ValueError), ("second length", (ok, l2), ValueError), ("batch 1,2", (ok, two), ValueError), ("batch 2,1", (two, ok), ValueError)):
        yield n, (a, e)


def check_bad(case):
    from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
    a, e = case
    raises(lambda: GroundTruthOdometryProvider().provide(*a), (e,))
    return "rejected"


def sweeps(tier):
    return [("pairs", lambda: cases(tier), check), ("chain", chain_cases, check_chain), ("rejected", bad_cases, check_bad),
            purity.sweep(purecalls.gt, tier)]


RULE = "every ordered pair of a pool of rigid poses (all cube rotations, generic, near-identity, half-turn; several translations), batched with other pairs, in two precisions, with strided pose views; every invalid combination"


def main(tier, t0):
    return sweepcheck.run("C26", tier, t0, sweeps(tier), rule=RULE, bounds={"pose pool": len(POOL), "batch": "1..3"}, assumptions=["tolerance 1e-4 (float32), 1e-9 (float64)"])


def replay(doc):
    return sweepcheck.replay(doc, sweeps("thorough"))
