"""C15: rigid-transform algebra obeys the group laws."""
import itertools

import numpy as np
import torch

import purecalls
import purity
import sweepcheck
from icpmodel import hat, se3_exp
from mc import Mismatch, expect, raises, same
from pcmodel import axis_angle, octahedral, se3

ROT = octahedral() + [axis_angle([0.3, -0.5, 0.8], 0.7), axis_angle([1, 2, 0.5], 2.9), axis_angle([-0.4, 0.1, 1], 1e-3),
                      axis_angle([0.7, 0.2, -0.4], np.pi - 1e-3), axis_angle([0, 1, 1], np.pi), axis_angle([1, -1, 0.2], 1e-7)]
TR = [(0, 0, 0), (1, -2, 0.5), (-3, 0.25, 4), (0, 0, 10), (-0.1, 7, -2)]
POOL = [se3(R, TR[i % 5]) for i, R in enumerate(ROT)] + [se3(np.eye(3), t) for t in TR[1:]]
SMALL = [POOL[i] for i in (0, 1, 6, 11, 17, 23, 24, 25, 26, 27, 28, 31)]
PTS = np.array([[0.0, 0, 0], [1, 0, 0], [0, -2, 0.5], [3, 1, -4], [-0.25, 5, 2]])


def gu():
    from gradslam.geometry import geometryutils
    return geometryutils


def T(x, dt=torch.float32):
    return torch.tensor(np.asarray(x), dtype=dt)


def tol_of(dt):
    return 2e-4 if dt == torch.float32 else 1e-9


def kept(*pairs):
    for t, before, name in pairs:
        expect(torch.equal(t, before), "%s was modified" % name)


# ------------------------------------------------------------------ exponential maps
THETA = (0.0, 1e-9, 1e-7, 5e-7, 9e-7, 1.1e-6, 1e-5, 3e-4, 1e-3, 1e-2, 0.3, 1.0, 2.0, np.pi - 1e-3, np.pi, 3.5, 2 * np.pi, 7.0)
VEL = ((0, 0, 0), (1, -2, 0.5), (0, 0, 8), (-3, 1e-4, 0.1))


def exp_cases():
    for d in itertools.product((-1, 0, 1), repeat=3):
        for t in THETA:
            if (not any(d)) != (t == 0.0):
                continue
            w = np.zeros(3) if t == 0.0 else np.array(d, float) / np.linalg.norm(d) * t
            for v in VEL:
                for dt in (torch.float32, torch.float64):
                    for form in ((6,), (6, 1)):
                        yield "%s/%g/%s/%s/%s" % (d, t, v, dt, form), (np.concatenate([v, w]), dt, form)


def check_exp(case):
    from gradslam.geometry import se3utils
    xi, dt, form = case
    x = T(xi, dt).reshape(form)
    before = x.clone()
    xi = x.double().numpy().ravel()
    want = se3_exp(xi)
    tol = 5e-4 if dt == torch.float32 else 2e-9
    got = se3utils.se3_exp(x)
    expect(got.dtype == dt, "exponential has precision %s" % got.dtype)
    scale = max(1.0, np.abs(xi[:3]).max())
    same(got[:3, :3], want[:3, :3], "rotation of se3_exp", tol)
    same(got[:3, 3] / scale, want[:3, 3] / scale, "translation of se3_exp", tol)
    same(got[3], np.array([0, 0, 0, 1.0]), "last row of se3_exp", 1e-12)
    same(got[:3, :3] @ got[:3, :3].T, np.eye(3), "R R^T", tol)
    same(torch.linalg.det(got[:3, :3]), np.array(1.0), "det R", tol)
    same(se3utils.so3_exp(x[3:]), want[:3, :3], "so3_exp", tol)
    same(se3utils.so3_hat(x[3:]), hat(xi[3:]), "so3_hat", 1e-12)
    H = np.zeros((4, 4))
    H[:3, :3], H[:3, 3] = hat(xi[3:]), xi[:3]
    if form == (6,):
        same(se3utils.se3_hat(x), H, "se3_hat", 1e-12)
    back = se3utils.se3_exp(-x)
    same((got @ back)[:3] / scale, np.eye(4)[:3] / scale, "exp(xi) exp(-xi)", tol * 4)
    half = se3utils.se3_exp(x / 2)
    same((half @ half)[:3] / scale, want[:3] / scale, "exp(xi/2)^2", tol * 2)
    kept((x, before, "twist"))
    th = np.linalg.norm(xi[3:])
    return "theta %s" % ("0" if th == 0 else "<1e-6" if th < 1e-6 else "<1e-2" if th < 1e-2 else "<pi" if th < 3.14 else ">=pi"), 7


# ------------------------------------------------------------------ pairs of transforms
def pair_cases(tier="quick"):
    N = len(POOL)
    n = 0
    for i, j in itertools.product(range(N), repeat=2):
        n += 1
        yield "plain/%d,%d" % (i, j), ([i], [j], False, (torch.float64, torch.float32)[n % 2])
        B = 1 + n % 4
        yield "batch%d/%d,%d" % (B, i, j), ([(i + 5 * k) % N for k in range(B)], [(j + 7 * k * k) % N for k in range(B)], True, (torch.float32, torch.float64)[n // 4 % 2])
        if tier == "thorough":
            for B in (1, 2, 3, 4, 5):
                for dt in (torch.float32, torch.float64):
                    yield "batch%d/%s/%d,%d" % (B, dt, i, j), ([(i + 3 * k) % N for k in range(B)], [(j + 11 * k) % N for k in range(B)], True, dt)


def check_pair(case):
    G = gu()
    a, b, batched, dt = case
    A, Bm = np.stack([POOL[i] for i in a]), np.stack([POOL[i] for i in b])
    pick = (lambda x: x) if batched else (lambda x: x[0])
    ta, tb = T(pick(A), dt), T(pick(Bm), dt)
    ca, cb = ta.clone(), tb.clone()
    tol = tol_of(dt)
    inv = np.linalg.inv(A)
    ia = G.inverse_transfom_3d(ta)
    same(ia, pick(inv), "inverse_transfom_3d", tol)
    same(ia @ ta, pick(np.broadcast_to(np.eye(4), A.shape)), "inverse times transform", tol)
    same(ta @ ia, pick(np.broadcast_to(np.eye(4), A.shape)), "transform times inverse", tol)
    ab = G.compose_transforms_3d(ta, tb)
    same(ab, pick(A @ Bm), "compose_transforms_3d", tol)
    same(G.relative_transform_3d(ta, tb), pick(inv @ Bm), "relative_transform_3d", tol)
    for orth in (False, True):
        rel = G.relative_transformation(ta, tb, orthogonal_rotations=orth)
        same(rel, pick(inv @ Bm), "relative_transformation(orthogonal_rotations=%s)" % orth, tol)
        expect(rel.dtype == dt, "relative_transformation has precision %s" % rel.dtype)
    same(G.compose_transforms_3d(ta, G.relative_transform_3d(ta, tb)), pick(Bm), "A o (A -> B)", tol)
    same(G.inverse_transfom_3d(ab), pick(np.linalg.inv(A @ Bm)), "inverse of the composition", tol)
    same(G.relative_transform_3d(ta, ta), pick(np.broadcast_to(np.eye(4), A.shape)), "relative to itself", tol)
    for x, nm in ((ia, "inverse"), (ab, "composition")):
        expect(x.dtype == dt, "%s has precision %s" % (nm, x.dtype))
        same(x[..., 3, :], pick(np.broadcast_to(np.array([0, 0, 0, 1.0]), A.shape[:1] + (4,))), "last row of %s" % nm, 1e-12)
        same(x[..., :3, :3] @ x[..., :3, :3].transpose(-1, -2), pick(np.broadcast_to(np.eye(3), A.shape[:1] + (3, 3))), "rotation of %s" % nm, tol)
    p = T(PTS, dt)
    if not batched:
        same(G.transform_pts_3d(p, ab), G.transform_pts_3d(G.transform_pts_3d(p, tb), ta), "composition applied to points", tol)
        same(G.transform_pointcloud(p, ab), G.transform_pointcloud(G.transform_pointcloud(p, tb), ta), "composition applied to a cloud", tol)
        same(G.transform_pointcloud(G.transform_pointcloud(p, ta), ia), PTS, "inverse applied after the transform", tol)
        same(G.transform_normals(p, ab), PTS @ (A @ Bm)[0, :3, :3].T, "composition applied to normals", tol)
        # general (not rigid) reference poses are allowed when rotations are not declared orthogonal
        S = A[0].copy()
        S[:3, :3] = S[:3, :3] @ np.diag([2.0, 0.5, 1.5])
        same(G.relative_transformation(T(S, dt), tb), np.linalg.solve(S, Bm[0]), "relative_transformation of a non-orthogonal pose", tol * 4)
    else:
        pb = p[None].expand(len(a), -1, -1).contiguous()
        same(G.transform_pts_nd_KF(pb, ab), G.transform_pts_nd_KF(G.transform_pts_nd_KF(pb, tb), ta), "composition applied to points", tol)
    kept((ta, ca, "first transform"), (tb, cb, "second transform"))
    return ("batch of %d" % len(a) if batched else "single"), 12


def triple_cases(tier="quick"):
    pool = range(len(SMALL)) if tier == "quick" else range(len(POOL))
    for i, j, k in itertools.product(pool, repeat=3):
        yield "%d,%d,%d" % (i, j, k), (i, j, k, tier)


def check_triple(case):
    G = gu()
    *idx, tier = case
    pool = SMALL if tier == "quick" else POOL
    n = len(pool)
    a, b, c = (T(np.stack([pool[i], pool[(i * 5 + 1) % n]]), torch.float64) for i in idx)
    same(G.compose_transforms_3d(G.compose_transforms_3d(a, b), c), G.compose_transforms_3d(a, G.compose_transforms_3d(b, c)), "associativity", 1e-9)
    a1, b1, c1 = a[0], b[0], c[0]
    same(G.compose_transforms_3d(G.relative_transform_3d(a1, b1), G.relative_transform_3d(b1, c1)), G.relative_transform_3d(a1, c1), "relative transforms chain", 1e-9)
    same(G.relative_transformation(a1, b1) @ G.relative_transformation(b1, c1), G.relative_transformation(a1, c1), "relative transformations chain", 1e-9)
    return "triple", 9


# ------------------------------------------------------------------ applying transforms
def apply_cases(tier="quick"):
    shapes = [(1,), (2,), (3,), (4,), (5,), (0,), (1, 1), (1, 5), (2, 3), (4, 4), (3, 1), (1, 1, 1), (1, 2, 3), (2, 3, 4), (4, 4, 4), (3, 1, 2)]
    for i in range(len(POOL)):
        for s in shapes:
            for C in (3, 4):
                yield "%d/%s/%d" % (i, s, C), (i, s, C, (torch.float32, torch.float64)[(i + len(s)) % 2])


def big_cases():
    """Batches and point sets far larger than any internal block; sizes around powers of two and not multiples of anything."""
    for n in (17, 64, 100, 257, 1000, 1025):
        for dt in (torch.float32, torch.float64):
            yield "%d/%s" % (n, dt), (n, dt)


def check_big(case):
    G = gu()
    n, dt = case
    tol = tol_of(dt)
    A = np.stack([POOL[(i * 7) % len(POOL)] for i in range(n)])
    Bm = np.stack([POOL[(i * 5 + 3) % len(POOL)] for i in range(n)])
    ta, tb = T(A, dt), T(Bm, dt)
    inv = np.linalg.inv(A)
    same(G.inverse_transfom_3d(ta), inv, "inverse_transfom_3d", tol)
    same(G.compose_transforms_3d(ta, tb), A @ Bm, "compose_transforms_3d", tol)
    same(G.relative_transform_3d(ta, tb), inv @ Bm, "relative_transform_3d", tol)
    for orth in (False, True):
        same(G.relative_transformation(ta, tb, orthogonal_rotations=orth), inv @ Bm, "relative_transformation", tol)
    S = A.copy()
    S[:, :3, :3] = S[:, :3, :3] @ np.array([np.diag([2.0, 0.5 + k % 3, 1.5]) for k in range(n)])
    same(G.relative_transformation(T(S, dt), tb), np.linalg.solve(S, Bm), "relative_transformation of non-orthogonal poses", tol * 4)
    p = pts((n,), 3)
    want = p @ A[1, :3, :3].T + A[1, :3, 3]
    same(G.transform_pointcloud(T(p, dt), ta[1]), want, "transform_pointcloud", tol)
    same(G.transform_pts_3d(T(p, dt), ta[1]), want, "transform_pts_3d", tol)
    same(G.transform_normals(T(p, dt), ta[1]), p @ A[1, :3, :3].T, "transform_normals", tol)
    q = pts((5, n), 3, 2)
    same(G.transform_pts_nd_KF(T(q, dt), ta[:5]), np.stack([q[b] @ A[b, :3, :3].T + A[b, :3, 3] for b in range(5)]), "transform_pts_nd_KF", tol)
    q = pts((n, 2), 3, 1)
    same(G.transform_pts_nd_KF(T(q, dt), ta), np.stack([q[b] @ A[b, :3, :3].T + A[b, :3, 3] for b in range(n)]), "transform_pts_nd_KF", tol)
    same(G.transform_pts_3d(T(q, dt), ta[2]), q @ A[2, :3, :3].T + A[2, :3, 3], "transform_pts_3d", tol)
    qs = np.array([QUATS[(k * 3) % len(QUATS)] for k in range(n)])
    R = np.array([rot_of(x) for x in qs])
    tq = tol if dt == torch.float64 else 1e-5
    same(G.quaternion_to_rotation_matrix(T(qs, dt)), R, "quaternion_to_rotation_matrix", tq)
    same(G.normalize_quaternion(T(qs, dt)), qs / np.linalg.norm(qs, axis=-1, keepdims=True), "normalize_quaternion", tq)
    aa = G.quaternion_to_axisangle(T(qs, dt)).double().numpy()
    for k in range(0, n, 7):
        same(T(se3_exp(np.concatenate([np.zeros(3), aa[k]]))[:3, :3]), R[k], "rotation of the axis-angle %d" % k, max(tq * 3, 1e-6))
    return "batch of %d" % n, 12


def pts(shape, C, seed=0):
    n = int(np.prod(shape))
    p = ((np.arange(n * 3) * 7 + seed * 5) % 23 - 9.0).reshape(tuple(shape) + (3,)) * 0.5
    if C == 4:
        p = np.concatenate([p, np.ones(p.shape[:-1] + (1,))], -1)
    return p


def check_apply(case):
    G = gu()
    i, shape, C, dt = case
    M = POOL[i]
    p = pts(shape, C, i)
    tp, tm = T(p, dt), T(M, dt)
    bp, bm = tp.clone(), tm.clone()
    want = p[..., :3] @ M[:3, :3].T + M[:3, 3]
    tol = tol_of(dt)
    got = G.transform_pts_3d(tp, tm)
    same(got, want, "transform_pts_3d of shape %s" % (tuple(tp.shape),), tol)
    expect(got.dtype == dt, "precision %s" % got.dtype)
    n = 1
    if C == 4:  # homogeneous coordinates denote the same point up to scale
        for w in (2.0, -0.5):
            same(G.transform_pts_3d(tp * w, tm), want, "transform_pts_3d of homogeneous points scaled by %g" % w, tol)
            n += 1
    if C == 3 and len(shape) == 1:
        same(G.transform_pointcloud(tp, tm), want, "transform_pointcloud", tol)
        same(G.transform_normals(tp, tm), p @ M[:3, :3].T, "transform_normals", tol)
        n += 2
    if C == 3 and len(shape) == 2:
        B = shape[0]
        Ms = np.stack([POOL[(i + 3 * b) % len(POOL)] for b in range(B)])
        w = np.stack([p[b] @ Ms[b, :3, :3].T + Ms[b, :3, 3] for b in range(B)])
        same(G.transform_pts_nd_KF(tp, T(Ms, dt)), w, "transform_pts_nd_KF", tol)
        M2 = np.stack([np.array([[0.0, -1, b], [1, 0, 2 - b], [0, 0, 1]]) for b in range(B)])
        same(G.transform_pts_nd_KF(tp[..., :2], T(M2, dt)), np.stack([p[b, :, :2] @ M2[b, :2, :2].T + M2[b, :2, 2] for b in range(B)]), "transform_pts_nd_KF in 2-D", tol)
        Mw = Ms * np.array([2.0, -0.5, 1.0, 4.0])[np.arange(B) % 4].reshape(B, 1, 1)  # the same transforms in homogeneous form
        same(G.transform_pts_nd_KF(tp, T(Mw, dt)), w, "transform_pts_nd_KF with a scaled homogeneous matrix", tol * 4)
        n += 3
    kept((tp, bp, "points"), (tm, bm, "transform"))
    return "rank %d, %d coordinates" % (len(shape) + 1, C), n


# ------------------------------------------------------------------ quaternions
def rot_of(q):
    q = np.asarray(q, float) / np.linalg.norm(q)
    x, y, z, w = q
    H = hat((x, y, z))
    return np.eye(3) + 2 * w * H + 2 * H @ H


def quat(axis, ang):
    a = np.asarray(axis, float) / np.linalg.norm(axis)
    return np.concatenate([a * np.sin(ang / 2), [np.cos(ang / 2)]])


QUATS = [np.array(q, float) for q in itertools.product((-1, 0, 1), repeat=4) if any(q)]
QUATS += [np.array(q, float) for q in itertools.product((-2, 0.5, 1), repeat=4)]
QUATS += [s * quat(ax, t) for ax in ((1, 0, 0), (0, 1, 0), (0, 0, -1), (1, -2, 0.5), (-0.3, 0.4, 3))
          for t in (1e-9, 1e-7, 1e-4, 1e-2, 0.7, 2.0, np.pi - 1e-2, np.pi - 1e-4, np.pi, 4.0, 6.0, 2 * np.pi - 1e-3) for s in (1, -1)]
LEADS = ((), (1,), (3,), (1, 1), (2, 2), (2, 1, 3), (3, 3))


def quat_cases():
    n = 0
    for i in range(len(QUATS)):
        for lead in LEADS:
            for dt in (torch.float32, torch.float64):
                n += 1
                yield "%d/%s/%s" % (i, lead, dt), (i, lead, dt)
    for lead in ((0,), (2, 0)):
        yield "empty/%s" % (lead,), (0, lead, torch.float32)


def check_quat(case):
    from gradslam.geometry import se3utils
    G = gu()
    i, lead, dt = case
    n = int(np.prod(lead, dtype=int))
    qs = np.array([QUATS[(i + 17 * k) % len(QUATS)] for k in range(n)]).reshape(lead + (4,))
    t = T(qs, dt)
    before = t.clone()
    tol = 1e-5 if dt == torch.float32 else 1e-9
    R = G.quaternion_to_rotation_matrix(t)
    want = np.array([rot_of(q) for q in qs.reshape(-1, 4)]).reshape(lead + (3, 3))
    same(R, want, "quaternion_to_rotation_matrix", tol)
    expect(R.dtype == dt, "rotation matrix has precision %s" % R.dtype)
    same(G.quaternion_to_rotation_matrix(-t), want, "rotation matrix of -q", tol)
    for k in (0.25, 1e-5, 1e-3, -30.0, 1e4):
        same(G.quaternion_to_rotation_matrix(t * k), want, "rotation matrix of a quaternion scaled by %g" % k, tol)
    N = G.normalize_quaternion(t)
    same(N, qs / np.linalg.norm(qs, axis=-1, keepdims=True), "normalize_quaternion", tol)
    aa = G.quaternion_to_axisangle(t)
    expect(tuple(aa.shape) == lead + (3,), "axis-angle has shape %s" % (tuple(aa.shape),))
    expect(aa.dtype == dt, "axis-angle has precision %s" % aa.dtype)
    flat = aa.reshape(-1, 3)
    neg = G.quaternion_to_axisangle(-t).reshape(-1, 3)
    for k in range(n):
        w = want.reshape(-1, 3, 3)[k]
        for v, nm in ((flat[k], "q"), (neg[k], "-q")):
            expect(float(v.double().norm()) <= np.pi + 1e-4, "angle of %s is above pi" % nm)
            same(se3_exp(np.concatenate([np.zeros(3), v.double().numpy()]))[:3, :3], w, "rotation of the axis-angle of %s" % nm, tol * 3)
        same(se3utils.so3_exp(flat[k]), w, "so3_exp of the axis-angle", max(tol * 3, 5e-5 if dt == torch.float32 else 0))
    kept((t, before, "quaternion"))
    return "lead %s" % (lead,), 6 + n


def zero_cases():
    for lead in LEADS:
        yield str(lead), lead


def check_zero(lead):
    """A zero quaternion must not produce NaN, alone or beside others."""
    G = gu()
    t = torch.zeros(lead + (4,))
    if t.numel() > 4:
        t.view(-1, 4)[-1] = torch.tensor([0.0, 0, 0, 1])
    for f in (G.normalize_quaternion, G.quaternion_to_rotation_matrix, G.quaternion_to_axisangle):
        expect(bool(torch.isfinite(f(t)).all()), "%s of a zero quaternion is not finite" % f.__name__)
    return "finite", 3


# ------------------------------------------------------------------ rejected operands
def bad_cases():
    I4, P3 = torch.eye(4), torch.zeros(5, 3)
    bad_type = (TypeError,)
    ty = (np.eye(4), [[1.0]], None, 3)
    two = ("compose_transforms_3d", "relative_transform_3d", "relative_transformation")
    for k, x in enumerate(ty):
        yield "inverse/type%d" % k, ("inverse_transfom_3d", (x,), bad_type)
        for f in two:
            yield "%s/first type%d" % (f, k), (f, (x, I4), bad_type)
            yield "%s/second type%d" % (f, k), (f, (I4, x), bad_type)
        yield "pts/type%d" % k, ("transform_pts_3d", (x, I4), bad_type)
        yield "pts/tform type%d" % k, ("transform_pts_3d", (P3, x), bad_type)
        yield "cloud/type%d" % k, ("transform_pointcloud", (x, I4), bad_type)
        yield "cloud/tform type%d" % k, ("transform_pointcloud", (P3, x), bad_type)
        yield "normals/type%d" % k, ("transform_normals", (x, I4), bad_type)
        yield "normals/tform type%d" % k, ("transform_normals", (P3, x), bad_type)
        yield "axisangle/type%d" % k, ("quaternion_to_axisangle", (x,), bad_type)
    val = (ValueError, AssertionError)
    for s in ((3, 3), (4,), (4, 3), (3, 4), (2, 3, 3), (2, 3, 4), (2, 4, 3), (5, 5)):
        z = torch.zeros(s)
        yield "inverse/%s" % (s,), ("inverse_transfom_3d", (z,), val)
        for f in two[:2]:
            yield "%s/%s" % (f, s), (f, (z, z), val)
        if len(s) == 2 and s != (4,):
            yield "pts/tform%s" % (s,), ("transform_pts_3d", (P3, z), val)
        if s != (4,):
            yield "cloud/tform%s" % (s,), ("transform_pointcloud", (P3, z), val)
            yield "normals/tform%s" % (s,), ("transform_normals", (P3, z), val)
    for f in two:
        yield "%s/ranks" % f, (f, (I4, I4[None]), val)
        yield "%s/ranks2" % f, (f, (I4[None], I4), val)
    for f in two[:2]:
        yield "%s/batches" % f, (f, (I4[None].repeat(2, 1, 1), I4[None].repeat(3, 1, 1)), val)
    for s in ((3,), (2, 5, 3), (5, 2), (5, 4)):
        yield "cloud/%s" % (s,), ("transform_pointcloud", (torch.zeros(s), I4), val)
        yield "normals/%s" % (s,), ("transform_normals", (torch.zeros(s), I4), val)
    yield "pts/rank", ("transform_pts_3d", (torch.zeros(3), I4), val)
    yield "pts/tform rank", ("transform_pts_3d", (P3, I4[None]), val)
    yield "nd/batches", ("transform_pts_nd_KF", (torch.zeros(2, 5, 3), I4[None].repeat(3, 1, 1)), val)
    yield "nd/dims", ("transform_pts_nd_KF", (torch.zeros(2, 5, 2), I4[None].repeat(2, 1, 1)), val)
    for s in ((3,), (5, 3), (2, 2, 5)):
        for f in ("normalize_quaternion", "quaternion_to_rotation_matrix", "quaternion_to_axisangle"):
            yield "%s/%s" % (f, s), (f, (torch.zeros(s),), val)


def check_bad(case):
    f, args, exc = case
    raises(lambda: getattr(gu(), f)(*args), exc)
    return "rejected"


def sweeps(tier):
    return [("exponential", exp_cases, check_exp), ("pairs", lambda: pair_cases(tier), check_pair), ("triples", lambda: triple_cases(tier), check_triple),
            ("large batches", big_cases, check_big), ("apply", lambda: apply_cases(tier), check_apply), ("quaternions", quat_cases, check_quat), ("zero quaternion", zero_cases, check_zero),
            ("rejected", bad_cases, check_bad),
            purity.sweep(purecalls.algebra, tier)]


RULE = ("every axis of the {-1,0,1} grid x rotation angle from 0 over both sides of the small-angle switch to beyond 2 pi x translation x precision; every ordered pair (and triples) of a pool of rigid "
        "transforms, single and batched; every point-tensor shape; every quaternion of two value grids and of near-0/near-pi rotations x leading shape; compared with double-precision definitions")


def main(tier, t0):
    return sweepcheck.run("C15", tier, t0, sweeps(tier), rule=RULE, bounds={"transform pool": len(POOL), "quaternions": len(QUATS), "batch": "1..5, up to 1025 in the large sweep"},
                          assumptions=["transforms are 4x4 or Nx4x4; compositions have equal shapes", "tolerance 5e-4 (float32 exponential), 2e-4 (float32), 1e-9 (float64)"])


def replay(doc):
    return sweepcheck.replay(doc, sweeps("thorough"))
