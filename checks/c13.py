"""C13: ICP returns the composed increments of its least-squares steps."""
import itertools

import numpy as np
import torch

import purecalls
import purity
import sweepcheck
from fusionmodel import Borderline
from icpmodel import apply, icp, se3_exp, system
from mc import Mismatch, expect, raises, same
from pcmodel import data, make


def unit(x):
    return x / np.linalg.norm(x, axis=-1, keepdims=True)


# ------------------------------------------------------------------ the linear solver
def solve_cases(tier="quick"):
    vals = (-1.0, 0.0, 2.0)
    for m, n in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1)):
        for t in itertools.product(vals, repeat=m * n):
            for b in itertools.product((-1.0, 0.5), repeat=m):
                for damp in (1e-2, 0.5, 3.0):
                    for form in ("float", "tensor"):
                        yield "%dx%d/%s/%s/%s/%s" % (m, n, t, b, damp, form), (np.array(t).reshape(m, n), np.array(b)[:, None], damp, form)
    for k in range(60):  # full-size systems
        i = np.arange(9 * 6).reshape(9, 6)
        A = np.cos(i * (1.3 + 0.17 * k)) + np.sin(i * i * 0.1 + k)
        for damp in (1e-8, 1e-2, 10.0, None):
            for dt in (torch.float32, torch.float64):
                yield "9x6/%d/%s/%s" % (k, damp, dt), (A, np.sin(np.arange(9) + k)[:, None], damp, dt)
    for k, n in itertools.product(range(1, 9), (1, 3, 6)):  # systems so small that the default damping decides
        for dt in (torch.float32, torch.float64):
            yield "tiny/%d/%d/%s" % (k, n, dt), (np.eye(n) * k * 3e-5, np.linspace(1, 2, n)[:, None], None, dt)
    for damp in (1e-2, 1.0):
        yield "0x6/%s" % damp, (np.zeros((0, 6)), np.zeros((0, 1)), damp, "float")


def check_solve(case):
    from gradslam.odometry.icputils import solve_linear_system
    A, b, damp, form = case
    dt = form if isinstance(form, torch.dtype) else torch.float32
    a = torch.tensor(A, dtype=dt), torch.tensor(b, dtype=dt)
    x = solve_linear_system(*a) if damp is None else solve_linear_system(*a, damp if form != "tensor" else torch.tensor(damp))
    lam = 1e-8 if damp is None else damp
    M = A.T @ A + lam * np.eye(A.shape[1])
    expect(tuple(x.shape) == (A.shape[1], 1), "solution has shape %s" % (tuple(x.shape),))
    cond = np.linalg.cond(M)
    if cond > 2e3:
        return "ill-conditioned", 0
    same(x, np.linalg.solve(M, A.T @ b), "solution", 1e-6 * cond if dt == torch.float32 else 1e-8)
    same(a[0], A, "A")
    same(a[1], b, "b")
    return "solved"


# ------------------------------------------------------------------ one Gauss-Newton system
TGT = np.array([[0.0, 0, 0], [1.0, 0, 0.1], [0, 1.2, 0], [0.3, 0.2, 1.5], [2.0, 2.0, 2.0]])
NRM = unit(np.array([[0.0, 0, 1], [1.0, 0.2, 0], [0, 1.0, -0.5], [1.0, 1, 1], [-1, 0.3, 0.2]]))


def gn_cases(tier="quick"):
    off = list(itertools.product((-0.3, 0.0, 0.45), (-0.2, 0.05, 0.4), (-0.35, 0.1)))
    for nt in (1, 2, 5):
        for j in range(nt):
            for o in off:
                for th in (None, 0.3, 0.5, 2, 0.0):
                    yield "1/%d/%d/%s/%s" % (nt, j, o, th), (nt, [TGT[j] + o], th)
    pts = [TGT[j] + o for j in range(5) for o in off[::4]]
    for (i, p), (j, q) in itertools.product(enumerate(pts), repeat=2):
        for th in ((None, 0.5) if (i + j) % 2 else (0.4,)):
            yield "2/%d,%d/%s" % (i, j, th), (5, [p, q], th)
    for k in range(200 if tier == "quick" else 2000):
        yield "n/%d" % k, (5 - k % 3, [pts[(k * (3 + i) + i * i) % len(pts)] for i in range(3 + k % 6)], (None, 0.35, 0.6)[k % 3])


def check_gn(case):
    from gradslam.odometry.icputils import gauss_newton_solve
    nt, src, th = case
    src = np.array(src)
    try:
        A, b, idx = system(src, TGT[:nt], NRM[:nt], th)
    except Borderline:
        return "outside domain", 0
    t = [torch.tensor(x[None], dtype=torch.float32) for x in (src, TGT[:nt], NRM[:nt])]
    gA, gb, gi = gauss_newton_solve(*t) if th is None else gauss_newton_solve(*t, th)
    same(gA, A, "A", 1e-5)
    same(gb, b[:, None], "b", 1e-5)
    expect(gi.reshape(-1).tolist() == idx, "associated targets %s, expected %s" % (gi.reshape(-1).tolist(), idx))
    for x, y, w in zip(t, (src, TGT[:nt], NRM[:nt]), ("source", "target", "normals")):
        same(x[0], y, w)
    # layout in memory does not matter
    tt = [x.transpose(1, 2).contiguous().transpose(1, 2) for x in t]
    g2 = gauss_newton_solve(*tt, th)
    same(g2[0], A, "A of strided inputs", 1e-5)
    same(g2[1], b[:, None], "b of strided inputs", 1e-5)
    return "kept %d of %d" % (min(len(idx), 4), min(len(src), 4)), 2


# ------------------------------------------------------------------ whole alignments
def shapes():
    g = list(itertools.product((0.0, 1.0, 2.0), repeat=2))
    corner = [(a + 0.05 * b, b, 0.0) for a, b in g] + [(a, 0.0, b + 0.6 + 0.04 * a) for a, b in g[:6]] + [(-0.6, a + 0.4, b + 0.7) for a, b in g[:6]]
    cn = [(0, 0, 1)] * 9 + [(0, 1, 0)] * 6 + [(1, 0, 0)] * 6
    d = unit(np.array([v for v in itertools.product((-1.0, 0.0, 1.0), repeat=3) if any(v)]) + np.array([0.03, 0.05, -0.02]))
    i = np.arange(12)
    gp = np.stack([np.cos(i * 1.7), np.sin(i * 2.3), np.cos(i * 0.9 + 1)], 1) * 2
    gn = unit(np.stack([np.sin(i * 1.1 + 2), np.cos(i * 3.1), np.sin(i * 0.7)], 1))
    return {"corner": (np.array(corner), np.array(cn, float)), "sphere": (d * [1.5, 1.1, 0.8], unit(d / [1.5, 1.1, 0.8])), "generic": (gp, gn)}


SHAPES = shapes()
NAMES = tuple(SHAPES)
SIGNS = [t for t in itertools.product((-1, 0, 1), repeat=6)]


def twist(k, a=0.06, w=0.04):
    return np.array(SIGNS[k]) * [a, 0.8 * a, 1.2 * a, w, 1.1 * w, 0.7 * w]


def align_cases(tier="quick"):
    names = NAMES
    n = 0
    step = 2 if tier == "quick" else 1
    for k in range(0, 729, step):
        for nm in names:
            n += 1
            yield "twist/%s/%d" % (nm, k), (nm, twist(k), slice(None), (1, 2, 3, 5)[n % 4], (1e-8, 1e-2, 1.0, 20.0)[n // 4 % 4], (None, None, 0.4, 1)[n // 2 % 4], (None, "I", "exact", "part")[n // 3 % 4])
    for nm in names:
        for sub in (slice(0, None, 2), slice(1, None, 2), slice(0, 8), slice(4, None)):
            for k in range(0, 729, 13):
                n += 1
                yield "subset/%s/%s-%s/%d" % (nm, sub.start, sub.step, k), (nm, twist(k, 0.1, 0.06), sub, 1 + n % 4, (1e-8, 1e-1, 5.0)[n % 3], (None, 0.5, 0.25)[n // 3 % 3], (None, "I", "part")[n % 3])
    for nm in names:  # far starts: rejections, thresholds removing most points
        for k, (a, w) in itertools.product(range(0, 729, 5 if tier == "quick" else 2), ((0.5, 0.5), (0.3, 1.2), (1.5, 0.3))):
            n += 1
            yield "far/%s/%d/%s" % (nm, k, a), (nm, twist(k, a, w), slice(None), 1 + n % 6, (1e-8, 1e-3, 0.1)[n % 3], (None, 0.6, 0.3, 0.05)[n // 3 % 4], (None, "I", "part")[n % 3])


def slow_cases(tier="quick"):
    """Longer runs from far starts: rejected steps late in a run, followed by further ones."""
    n = 0
    for nm in NAMES:
        for k, (a, w) in itertools.product(range(0, 729, 7 if tier == "quick" else 3), ((0.5, 0.5), (0.3, 1.2), (0.8, 0.1))):
            n += 1
            yield "late/%s/%d/%s" % (nm, k, a), (nm, twist(k, a, w), slice(None), 6 + n % 7, (1e-1, 1.0, 10.0, 1e-3)[n % 4], (0.6, 0.3, None, 0.1, 0.4)[n % 5], (None, "part")[n % 2])


def wavy(n):
    """A gently curved patch of n irregularly spaced points."""
    k = np.arange(n)
    w = int(np.ceil(np.sqrt(n)))
    x, y = k % w + 0.15 * np.cos(k * 2.1), k // w + 0.15 * np.sin(k * 1.7)
    z = 1.5 * np.sin(0.5 * x) + 1.2 * np.cos(0.4 * y + 0.3 * x)
    zx, zy = 0.75 * np.cos(0.5 * x) - 0.36 * np.sin(0.4 * y + 0.3 * x), -0.48 * np.sin(0.4 * y + 0.3 * x)
    P = np.stack([x, y, z], 1)
    return P - P.mean(0), unit(np.stack([-zx, -zy, 0 * x + 1], 1))


def large_cases(tier="quick"):
    """Clouds of up to 400 points and up to 20 iterations."""
    n = 0
    for size in (40, 130, 257, 400):
        for k in range(0, 729, 91 if tier == "quick" else 31):
            for it, damp in ((1, 1e-8), (3, 1.0), (12, 1e3)):
                n += 1
                yield "large/%d/%d/%d" % (size, k, it), ("wavy%d" % size, twist(k, 0.1, 0.01), (slice(None), slice(0, None, 3))[n % 2], it, damp, (None, 0.5)[n // 2 % 2], (None, "I", "part")[n % 3])
    for nm in NAMES:
        for k in range(1, 729, 37 if tier == "quick" else 7):
            for it, damp in ((8, 1e2), (12, 1e3), (20, 1e4)):
                n += 1
                yield "long/%s/%d/%d" % (nm, k, it), (nm, twist(k, 0.2, 0.1), slice(None), it, damp, (None, 0.8)[n % 2], (None, "part")[n // 2 % 2])


def setup(nm, xi, sub, init):
    if nm.startswith("wavy") and nm not in SHAPES:
        SHAPES[nm] = wavy(int(nm[4:]))
    tgt, nrm = SHAPES[nm]
    T = se3_exp(xi)
    src = apply(np.linalg.inv(T), tgt[sub])
    T0 = {None: None, "I": np.eye(4), "exact": T, "part": se3_exp(0.5 * xi + 0.01)}[init]
    f = lambda x: torch.tensor(x, dtype=torch.float32)  # noqa: E731
    return src, tgt, nrm, T, T0, (f(src[None]), f(tgt[None]), f(nrm[None]), None if T0 is None else f(T0))


def rigid(T, what="transform", tol=1e-4):
    R = T[..., :3, :3].detach().double().numpy()
    expect(np.allclose(R @ np.swapaxes(R, -1, -2), np.eye(3), atol=tol) and (np.linalg.det(R) > 0).all(), "%s is not rigid: %s" % (what, R.tolist()))
    expect(np.allclose(T[..., 3, :].detach().numpy(), [0, 0, 0, 1], atol=1e-6), "%s: last row %s" % (what, T[..., 3, :].tolist()))


def check_align(case, soft=None):
    from gradslam.odometry import icputils
    nm, xi, sub, iters, damp, th, init = case[:7]
    src, tgt, nrm, Ttrue, T0, t = setup(nm, xi, sub, init)
    fn = icputils.point_to_plane_ICP if soft is None else icputils.point_to_plane_gradICP
    kw = {} if soft is None else dict(zip(("lambda_max", "B", "B2", "nu"), soft))
    keep = [None if x is None else x.clone() for x in t]
    try:
        want, idx, pat = icp(src, tgt, nrm, np.eye(4) if T0 is None else T0, iters, damp, th, soft)
    except Borderline:
        return "outside domain", 0
    T, gi = fn(t[0], t[1], t[2], t[3], numiters=iters, damp=damp, dist_thresh=th, **kw)
    expect(tuple(T.shape) == (4, 4) and T.dtype == torch.float32, "transform has shape %s, type %s" % (tuple(T.shape), T.dtype))
    for a, b, w in zip(t, keep, ("source", "target", "normals", "initial transform")):
        if b is not None:
            expect(torch.equal(a, b), "%s was modified" % w)
    rigid(T)
    same(T, want, "transform (steps %s)" % pat, 5e-4)
    if idx is not None and "0" not in pat:
        expect(gi.reshape(-1).tolist() == idx, "associated targets %s, expected %s" % (gi.reshape(-1).tolist(), idx))
    T2, _ = fn(t[0].transpose(1, 2).contiguous().transpose(1, 2), t[1], t[2], t[3], iters, damp, th, **kw)
    same(T2, want, "transform of a strided source", 5e-4)
    return "steps " + pat, 2 * iters


def exact_cases():
    """Coinciding clouds give the identity; pure translations against three orthogonal planes are solved by one step."""
    for nm in NAMES:
        for it, damp, th, init in itertools.product((1, 2, 4), (1e-8, 1e-2), (None, 0.3), (None, "I")):
            yield "coincide/%s/%d/%s/%s/%s" % (nm, it, damp, th, init), (nm, np.zeros(6), it, damp, th, init)
    for t in itertools.product((-0.12, 0.0, 0.09), repeat=3):
        for init in (None, "I"):
            yield "shift/%s/%s" % (t, init), ("corner", np.array(t + (0, 0, 0)), 1, 1e-8, None, init)


def check_exact(case):
    from gradslam.odometry.icputils import point_to_plane_gradICP, point_to_plane_ICP
    nm, xi, it, damp, th, init = case
    _, _, _, Ttrue, _, t = setup(nm, xi, slice(None), init)
    T, _ = point_to_plane_ICP(t[0], t[1], t[2], t[3], it, damp, th)
    same(T, Ttrue, "transform", 1e-3)
    return "exact"


# ------------------------------------------------------------------ the odometry provider
def provider_cases(tier="quick"):
    nm = NAMES
    n = 0
    for B in (1, 2, 3, 4, 6):
        for k in range(0, 729, 27 * (1 + B // 4) if tier == "quick" else 7):
            n += 1
            el = [(nm[(n + b) % 3], (k * (2 * b + 1) + 13 * b) % 729, (slice(None), slice(0, None, 2), slice(3, None))[(n + b) % 3]) for b in range(B)]
            yield "B%d/%d" % (B, k), (el, 1 + n % 4, (1e-8, 1e-2, 2.0)[n // 2 % 3], (None, 0.4, 0.3)[n // 3 % 3])
    yield "defaults", ([("corner", 5, slice(None))], None, None, None)


def check_provider(case, soft=None):
    from gradslam.odometry import gradicp, icp as icpmod
    from gradslam.structures.pointclouds import Pointclouds
    el, iters, damp, th = case
    S = [setup(nm, twist(k), sub, None) for nm, k, sub in el]
    f = lambda x: torch.tensor(x, dtype=torch.float32)  # noqa: E731
    maps = Pointclouds(points=[f(s[1]) for s in S], normals=[f(s[2]) for s in S])
    frs = Pointclouds(points=[f(s[0]) for s in S])
    cls = icpmod.ICPOdometryProvider if soft is None else gradicp.GradICPOdometryProvider
    if iters is None:
        p = cls()
        it, dm, sf = 20, 1e-8, soft and (2.0, 1.0, 1.0, 200.0)
    else:
        p = cls(iters, damp, th) if soft is None else cls(iters, damp, th, *soft)
        it, dm, sf = iters, damp, soft
    if len(el) > 1:
        maps.points_padded, frs.points_padded
    T = p.provide(maps, frs)
    expect(tuple(T.shape) == (len(el), 1, 4, 4), "result has shape %s" % (tuple(T.shape),))
    pats = []
    for b, s in enumerate(S):
        try:
            want, _, pat = icp(s[0], s[1], s[2], np.eye(4), it, dm, th, sf)
        except Borderline:
            pats.append("x")
            continue
        pats.append(pat)
        same(T[b, 0], want, "transform of element %d (steps %s)" % (b, pat), 5e-4)
        same(maps.points_list[b], s[1], "map points")
        same(maps.normals_list[b], s[2], "map normals")
        same(frs.points_list[b], s[0], "frame points")
    # the provider keeps nothing between calls: other pairs, then these again
    if len(el) > 1:
        rev = p.provide(maps[list(range(len(el)))[::-1]], frs[list(range(len(el)))[::-1]])
        same(rev.flip(0), T.detach().numpy(), "transforms of the elements in reverse order", 1e-5)
    same(p.provide(maps, frs), T.detach().numpy(), "transforms of a second call", 1e-6)
    return "B%d" % len(el) if "x" not in pats else "partly outside domain", len(el)


# ------------------------------------------------------------------ options left out take their documented defaults
DEFAULTS = dict(numiters=20, damp=1e-8, dist_thresh=None)
SOFT_DEFAULTS = dict(DEFAULTS, lambda_max=2.0, B=1.0, B2=1.0, nu=200.0)
# scenes (shape, twist sizes, scale) and values of the other options under which each default decides the result
PLAIN_SENS = {"numiters": ((0.3, 0.1, 1.0), dict(damp=4e6, dist_thresh=None)), "damp": ((0.3, 0.1, 1e-4), dict(numiters=1, dist_thresh=None)),
              "dist_thresh": ((0.5, 0.5, 1.0), dict(numiters=2, damp=1e-2)), None: ((0.3, 0.1, 1e-4), {})}
_G = dict(numiters=2, damp=1.0, dist_thresh=None, lambda_max=2.0, B=1.0, B2=1.0, nu=200.0)
SOFT_SENS = {"numiters": ((0.3, 0.1, 1.0), dict(_G, lambda_max=1.0, B2=0.0, nu=0.2)), "damp": ((0.3, 0.1, 1e-4), dict(_G, numiters=1)), "dist_thresh": ((0.5, 0.5, 1.0), _G),
             "lambda_max": ((0.3, 0.4, 1.0), _G), "B": ((0.5, 0.4, 1.0), _G), "B2": ((0.3, 0.4, 1.0), dict(_G, nu=1.5)), "nu": ((0.3, 0.4, 1.0), _G), None: ((0.3, 0.1, 1e-4), {})}


def default_cases(soft=False):
    for name, (scene, kw) in (SOFT_SENS if soft else PLAIN_SENS).items():
        kw = {k: v for k, v in kw.items() if k != name}
        for nm, k, via in itertools.product(NAMES, (5, 111, 364, 500), ("function", "provider")):
            yield "%s/%s/%d/%s" % (name or "all", nm, k, via), (nm, twist(k, *scene[:2]), scene[2], kw, soft, via)


def check_default(case):
    from gradslam.odometry import gradicp, icp as icpmod, icputils
    from gradslam.structures.pointclouds import Pointclouds
    nm, xi, scale, kw, soft, via = case
    src, tgt, nrm, _, _, t = setup(nm, xi, slice(None), None)
    full = dict(SOFT_DEFAULTS if soft else DEFAULTS, **kw)
    a = (t[0] * scale, t[1] * scale, t[2])
    if via == "function":
        fn = icputils.point_to_plane_gradICP if soft else icputils.point_to_plane_ICP
        run = lambda k: fn(*a, torch.eye(4), **k)[0]  # noqa: E731
        same(fn(*a, **full)[0], run(full), "result without an initial transform", 1e-6)
    else:
        cls = gradicp.GradICPOdometryProvider if soft else icpmod.ICPOdometryProvider
        run = lambda k: cls(**k).provide(Pointclouds(points=list(a[1]), normals=list(a[2])), Pointclouds(points=list(a[0])))  # noqa: E731
    want = run(full)
    expect(bool(torch.isfinite(want).all()), "result is not finite")
    same(run(kw), want, "result with the options given only as %s" % kw, 1e-6)
    return via, 2


def bad_cases():
    p = torch.rand(1, 6, 3)
    I = torch.eye(4)
    for n, a, e in (("src list", ([1], p, p), TypeError), ("tgt list", (p, [1], p), TypeError), ("normals list", (p, p, [1]), TypeError), ("init list", (p, p, p, [1]), TypeError),
                    ("iters float", (p, p, p, I, 2.0), TypeError), ("init ndim", (p, p, p, I[None]), ValueError), ("init 3x4", (p, p, p, I[:3]), ValueError), ("init 4x3", (p, p, p, I[:, :3]), ValueError)):
        yield "icp " + n, ("i", a, e)
    q = p.repeat(2, 1, 1)
    for n, a, e in (("src array", (p.numpy(), p, p), TypeError), ("tgt array", (p, p.numpy(), p), TypeError), ("normals array", (p, p, p.numpy()), TypeError), ("thresh str", (p, p, p, "1"), TypeError),
                    ("src ndim", (p[0], p, p), ValueError), ("tgt ndim", (p, p[0], p), ValueError), ("normals ndim", (p, p, p[0]), ValueError), ("src batch", (q, p, p), ValueError),
                    ("tgt batch", (p, q, p), ValueError), ("normals batch", (p, p, q), ValueError), ("count", (p, p, p[:, :5]), ValueError), ("src width", (p[..., :2], p, p), ValueError),
                    ("tgt width", (p, p[..., :2], p), ValueError), ("normals width", (p, p, p[..., :2]), ValueError)):
        yield "gn " + n, ("g", a, e)
    A, b = torch.rand(5, 6), torch.rand(5, 1)
    for n, a, e in (("A array", (A.numpy(), b), TypeError), ("b array", (A, b.numpy()), TypeError), ("damp int", (A, b, 1), TypeError), ("damp str", (A, b, "x"), TypeError), ("damp vector", (A, b, torch.ones(1)), ValueError),
                    ("A ndim", (A[0], b), ValueError), ("b ndim", (A, b[:, 0]), ValueError), ("b width", (A, b.repeat(1, 2)), ValueError), ("rows", (A, b[:4]), ValueError)):
        yield "solve " + n, ("s", a, e)
    pc = make(data((3,), ("normals",)))
    pc2 = make(data((3, 2), ("normals",)))
    for n, a, e in (("maps type", (p, pc), TypeError), ("frames type", (pc, p), TypeError), ("no normals", (make(data((3,), ())), pc), ValueError), ("batch", (pc, pc2), ValueError), ("batch 2", (pc2, pc), ValueError)):
        yield "provide " + n, ("p", a, e)


def check_bad(case):
    from gradslam.odometry import icputils as u
    from gradslam.odometry.gradicp import GradICPOdometryProvider
    from gradslam.odometry.icp import ICPOdometryProvider
    k, a, e = case
    fns = {"i": [u.point_to_plane_ICP, u.point_to_plane_gradICP], "g": [u.gauss_newton_solve], "s": [u.solve_linear_system],
           "p": [ICPOdometryProvider().provide, GradICPOdometryProvider().provide]}[k]
    for f in fns:
        raises(lambda: f(*a), (e,))
    return "rejected", len(fns)


def sweeps(tier):
    return [("normal equations", lambda: solve_cases(tier), check_solve), ("linear system", lambda: gn_cases(tier), check_gn), ("alignment", lambda: align_cases(tier), check_align),
            ("large", lambda: large_cases(tier), check_align), ("late", lambda: slow_cases(tier), check_align), ("exact", exact_cases, check_exact), ("defaults", default_cases, check_default), ("provider", lambda: provider_cases(tier), check_provider), ("rejected", bad_cases, check_bad),
            purity.sweep(purecalls.icp, tier)]


RULE = ("every matrix over a small value set up to 2x2/3x1 plus full-size systems; every source placement of a grid around the targets x thresholds; every second (thorough: every) sign pattern of a "
        "6-twist on three shapes with rotating iteration counts, damping, thresholds and initial transforms; each compared step by step with a brute-force double-precision LM loop")


def main(tier, t0):
    return sweepcheck.run("C13", tier, t0, sweeps(tier), rule=RULE, bounds={"points": "1..26, up to 400 in the large sweep", "iterations": "1..6, up to 20", "batch": "1..6"},
                          assumptions=["cases with ambiguous nearest neighbours, points at the threshold, undecided accept/reject or condition number above 2e3 are outside the domain (counted)",
                                       "single precision only (the nearest-neighbour library has no other)", "at least one iteration", "transform tolerance 5e-4"])


def replay(doc):
    return sweepcheck.replay(doc, sweeps("thorough"))
