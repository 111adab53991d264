"""C16: projection and back-projection are inverse and handle degenerate depth."""
import itertools

import numpy as np
import torch

import purecalls
import purity
import sweepcheck
from mc import Mismatch, expect, raises, same
from pcmodel import axis_angle, se3
from rgbdmodel import intr

KS = [intr(2.0, 3.0, 0.5, 1.0), intr(525.0, 480.0, 319.5, 239.5), intr(1.5, -1.25, 0.0, 0.75), intr(0.5, 4.0, -2.0, 3.0), intr(1.0, 1.0, 0.0, 0.0)]
EXT = [np.eye(4), se3(axis_angle([0.2, 1, -0.3], 0.4), [0.5, -0.25, 0.125]), se3(np.diag([1.0, -1, -1]), [0, 0, 1.0])]
XY = (-2.0, 0.0, 0.5, 3.0)
Z = (-6000.0, -4.0, -0.5, -1e-3, 1e-7, 0.0, 1e-3, 0.25, 1.0, 8.0, 2.5e4)
GRID = np.array(list(itertools.product(XY, XY, Z)))
DT = (torch.float32, torch.float64)


def proj():
    from gradslam.geometry import projutils
    return projutils


def geo():
    from gradslam.geometry import geometryutils
    return geometryutils


def T(x, dt=torch.float32):
    return torch.tensor(np.asarray(x), dtype=dt)


def tl(dt):
    return 2e-4 if dt == torch.float32 else 1e-9


def close(got, want, what, tol):
    """Relative to the size of the whole expected row."""
    g, w = got.detach().double().numpy(), np.asarray(want, float)
    expect(g.shape == w.shape, "%s has shape %s, expected %s" % (what, g.shape, w.shape))
    s = np.maximum(1.0, np.abs(w).max(-1, keepdims=True)) if w.size else 1.0
    if w.size and not np.all(np.abs(g - w) <= tol * s):
        i = np.unravel_index(np.argmax(~(np.abs(g - w) <= tol * s)), g.shape)
        raise Mismatch("%s at %s is %s, expected %s" % (what, i, g[i[:-1]], w[i[:-1]]))


def project(p, P):
    q = P @ np.concatenate([p, [1.0]]) if len(p) == 3 else P @ p
    return None if abs(q[2]) < 1e-9 else q[:2] / q[2], q[2]


# ------------------------------------------------------------------ projection and back-projection
LAYOUT = [("N", 1), ("BN", 1), ("BN", 2), ("BN", 4), ("BHW", 1), ("BHW", 2), ("BHWD", 2)]
MATS = ("one", "per batch", "per row")


def project_cases():
    """Every point of the grid, chunked into tensors of every layout."""
    n = 0
    for (lay, B), mats, ki, ei, hom, dt in itertools.product(LAYOUT, MATS, range(len(KS)), range(len(EXT)), (3, 4), DT):
        if (lay == "N" and mats != "one") or (lay == "BN" and mats == "per row"):
            continue
        n += 1
        for c in range(0, len(GRID), 16):
            yield "%s/%d/%s/K%d/E%d/%d/%s/%d" % (lay, B, mats, ki, ei, hom, dt, c), (lay, B, mats, ki, ei, hom, dt, c)


def lead(lay, B):
    return {"N": (16,), "BN": (B, 16 // B), "BHW": (B, 2, 8 // B), "BHWD": (B, 2, 2, 4 // B)}[lay]


def check_project(case):
    lay, B, mats, ki, ei, hom, dt, c = case
    P = proj()
    p = GRID[c:c + 16].reshape(lead(lay, B) + (3,))
    ls = p.shape[:-1]
    # one matrix, one per batch element, or one per row of each element
    mshape = {"one": (), "per batch": (B,) + (1,) * (len(ls) - 2), "per row": ls[:-1]}[mats]
    nm = int(np.prod(mshape, dtype=int))
    Kl = [KS[(ki + i) % len(KS)] for i in range(nm)]
    El = [EXT[(ei + i // 2) % len(EXT)] for i in range(nm)]
    M = np.array([k @ e for k, e in zip(Kl, El)]).reshape(mshape + (4, 4))
    K3 = np.array([k[:3, :3] for k in Kl]).reshape(mshape + (3, 3))
    Mb = np.broadcast_to(M if mats != "one" else M, ls[:-1] + (4, 4))
    Kb = np.broadcast_to(K3, ls[:-1] + (3, 3))
    Eb = np.broadcast_to(np.array(El).reshape(mshape + (4, 4)), ls[:-1] + (4, 4))
    want, depth, cam = np.full(ls + (2,), np.nan), np.zeros(ls), np.zeros(ls + (3,))
    for i in np.ndindex(*ls):
        h = np.concatenate([p[i], [1.0]])
        cam[i] = (Eb[i[:-1]] @ h)[:3]
        u, depth[i] = project(h, Mb[i[:-1]])
        if u is not None:
            want[i] = u
    w = 1.0 if hom == 3 else 2.0  # projection of a homogeneous point is that of all its multiples
    tp = T(p if hom == 3 else np.concatenate([p, np.ones(ls + (1,))], -1) * w, dt)
    tm = T(M, dt)
    bp, bm = tp.clone(), tm.clone()
    got = P.project_points(tp, tm)
    expect(tuple(got.shape) == ls + (2,), "pixel coordinates have shape %s" % (tuple(got.shape),))
    expect(got.dtype == dt, "pixel coordinates have precision %s" % got.dtype)
    expect(bool(torch.isfinite(got).all()), "projection is not finite for %s" % p[~torch.isfinite(got).all(-1).numpy()][:2].tolist())
    ok = ~np.isnan(want[..., 0])
    # points near zero depth amplify rounding of their depth: bound relative to depth
    tol = (tl(dt) / np.minimum(1.0, np.abs(np.where(ok, depth, 1))))[..., None]
    g = got.double().numpy()
    scale = np.maximum(1.0, np.abs(np.where(np.isnan(want), 0, want)).max(-1, keepdims=True))
    bad = ok & ~(np.abs(g - np.where(np.isnan(want), 0, want)) <= tol * scale).all(-1)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        raise Mismatch("projection of %s (element %s) is %s, expected %s" % (p[i], i, g[i], want[i]))
    # back-projecting the exact pixel with the depth gives the camera coordinates
    pix = np.where(np.isnan(want), 0.0, want)
    Kinv = np.linalg.inv(K3)
    tpix = T(pix if hom == 3 else np.concatenate([pix, np.ones(ls + (1,))], -1), dt)
    tk, td = T(Kinv, dt), T(depth, dt)
    b2 = tpix.clone(), tk.clone(), td.clone()
    back = P.unproject_points(tpix, tk, td)
    expect(back.dtype == dt, "camera coordinates have precision %s" % back.dtype)
    wantb = np.where(ok[..., None], cam, 0.0)
    gb = np.where(ok[..., None], back.double().numpy(), 0.0)
    expect(gb.shape == wantb.shape, "camera coordinates have shape %s" % (gb.shape,))
    s = np.maximum(1.0, np.abs(wantb).max(-1, keepdims=True)) * 4 * (1 if dt == torch.float64 else 1)
    if not (np.abs(gb - wantb) <= tl(dt) * s).all():
        i = tuple(np.argwhere(~(np.abs(gb - wantb) <= tl(dt) * s).all(-1))[0])
        raise Mismatch("back-projection of pixel %s at depth %s is %s, expected %s" % (pix[i], depth[i], gb[i], wantb[i]))
    # and closes the loop through the closed-form inverse
    K4 = np.array(Kl).reshape(mshape + (4, 4))
    ki3 = P.inverse_intrinsics(T(K3, torch.float64), eps=0.0)
    close(ki3, Kinv, "inverse_intrinsics", 1e-12)
    loop = P.project_points(P.unproject_points(T(pix, torch.float64), ki3, T(np.where(ok, depth, 1.0), torch.float64)), T(K4, torch.float64))
    close(loop, pix, "pixel -> camera -> pixel", 1e-9 * max(1.0, float(np.abs(pix).max())))
    for a, b, nmz in ((tp, bp, "points"), (tm, bm, "matrix"), (tpix, b2[0], "pixels"), (tk, b2[1], "inverse intrinsics"), (td, b2[2], "depths")):
        expect(torch.equal(a, b), "%s modified" % nmz)
    return "%s %s%s" % (lay, mats, " with zero depth" if not ok.all() else ""), 5


def project_bad_cases():
    P3, M, K = torch.zeros(5, 3), torch.eye(4), torch.eye(3)
    b3 = torch.zeros(2, 5, 3)
    uv, b2, d = torch.zeros(5, 2), torch.zeros(2, 5, 2), torch.zeros(5)
    for k, x in enumerate((np.zeros((5, 3)), [[0.0, 0, 1]], None)):
        yield "project/type%d" % k, ("project_points", (x, M), TypeError)
        yield "project/mat type%d" % k, ("project_points", (P3, x), TypeError)
        yield "unproject/type%d" % k, ("unproject_points", (x, K, d), TypeError)
        yield "unproject/mat type%d" % k, ("unproject_points", (uv, x, d), TypeError)
        yield "unproject/depth type%d" % k, ("unproject_points", (uv, K, x), TypeError)
        yield "inverse/type%d" % k, ("inverse_intrinsics", (x,), TypeError)
        for f in ("homogenize_points", "unhomogenize_points"):
            yield "%s/type%d" % (f, k), (f, (x,), TypeError)
    for s in ((3,), (4,)):
        yield "project/%s" % (s,), ("project_points", (torch.zeros(s), M), ValueError)
    for f in ("homogenize_points", "unhomogenize_points"):
        yield "%s/rank1" % f, (f, (torch.zeros(3),), ValueError)
        yield "%s/rank0" % f, (f, (torch.tensor(1.0),), ValueError)
    for s in ((5, 2), (5, 5), (2, 5, 2), (5, 1)):
        yield "project/%s" % (s,), ("project_points", (torch.zeros(s), M), ValueError)
    for s in ((4,), (3, 3), (3, 4), (4, 3), (2, 3, 4)):
        yield "project/mat%s" % (s,), ("project_points", (b3 if len(s) == 3 else P3, torch.zeros(s)), ValueError)
    yield "project/mat batch", ("project_points", (b3, torch.zeros(3, 4, 4)), ValueError)
    yield "project/mat rank", ("project_points", (P3, torch.zeros(5, 4, 4)), ValueError)
    yield "project/mat rank4", ("project_points", (b3, torch.zeros(2, 1, 4, 4)), ValueError)
    for s in ((2,), (3,)):
        yield "unproject/%s" % (s,), ("unproject_points", (torch.zeros(s), K, torch.zeros(())), ValueError)
    for s in ((5, 4), (5, 1), (2, 5, 4)):
        yield "unproject/%s" % (s,), ("unproject_points", (torch.zeros(s), K, torch.zeros(s[:-1])), ValueError)
    for s in ((3,), (4, 4), (3, 4), (4, 3), (2, 4, 4)):
        yield "unproject/mat%s" % (s,), ("unproject_points", (b2 if len(s) == 3 else uv, torch.zeros(s), d if len(s) != 3 else torch.zeros(2, 5)), ValueError)
    yield "unproject/mat batch", ("unproject_points", (b2, torch.zeros(3, 3, 3), torch.zeros(2, 5)), ValueError)
    yield "unproject/mat rank", ("unproject_points", (uv, torch.zeros(5, 3, 3), d), ValueError)
    for s in ((4,), (5, 1), (2, 5), ()):
        yield "unproject/depth%s" % (s,), ("unproject_points", (uv, K, torch.zeros(s)), ValueError)
    for s in ((3,), (2, 2), (3, 4), (4, 3), (2, 3, 4), (2, 5, 5)):
        yield "inverse/%s" % (s,), ("inverse_intrinsics", (torch.zeros(s),), ValueError)


def check_project_bad(case):
    f, args, e = case
    raises(lambda: getattr(proj(), f)(*args), (e,))
    if "homogenize" in f:
        raises(lambda: getattr(geo(), f)(*args), (e,))
    return "rejected"


def large_cases():
    """Thousands of points, wide batches; one point of every 7 at zero or negative depth."""
    for shape in ((5000,), (4099,), (70, 33), (3, 40, 50), (2, 2, 3, 500), (129, 2)):
        for mats in MATS[: 1 if len(shape) == 1 else 2 if len(shape) == 2 else 3]:
            for hom in (3, 4):
                for dt in DT:
                    yield "%s/%s/%d/%s" % (shape, mats, hom, dt), (shape, mats, hom, dt)


def check_large(case):
    ls, mats, hom, dt = case
    P = proj()
    n = int(np.prod(ls))
    i = np.arange(n)
    p = np.stack([np.cos(i * 1.7) * 3, np.sin(i * 0.9) * 2, np.where(i % 7 == 3, -1.5, np.where(i % 11 == 5, 0.0, 1.0 + i % 5))], -1).reshape(ls + (3,))
    B = ls[0]
    mshape = {"one": (), "per batch": (B,) + (1,) * (len(ls) - 2), "per row": ls[:-1]}[mats]
    nm = int(np.prod(mshape, dtype=int))
    M = np.array([KS[(k * 3) % 5] for k in range(nm)]).reshape(mshape + (4, 4))
    Mb = np.broadcast_to(M, ls[:-1] + (4, 4))[..., None, :, :]
    h = np.concatenate([p, np.ones(ls + (1,))], -1)
    q = (Mb @ h[..., None])[..., 0]
    ok = np.abs(q[..., 2]) > 1e-9
    want = q[..., :2] / np.where(ok, q[..., 2], 1.0)[..., None]
    tp = T(p if hom == 3 else h, dt)
    got = P.project_points(tp, T(M, dt))
    expect(bool(torch.isfinite(got).all()), "projection is not finite")
    expect(tuple(got.shape) == ls + (2,) and got.dtype == dt, "pixel coordinates have shape %s" % (tuple(got.shape),))
    close(got[torch.from_numpy(ok)], want[ok], "projection", tl(dt))
    Ki = np.linalg.inv(M[..., :3, :3])
    pix = np.where(ok[..., None], want, 0.0)
    back = P.unproject_points(T(pix, dt), T(Ki, dt), T(p[..., 2], dt))
    close(back[torch.from_numpy(ok)], p[ok], "back-projection", tl(dt) * 4)
    for mod in (P, geo()):
        same(mod.unhomogenize_points(T(h * (2.0 + i % 3).reshape(ls + (1,)), dt)), p, "unhomogenize_points", tl(dt))
        same(mod.homogenize_points(T(p, dt)), h, "homogenize_points", tl(dt))
    same(P.inverse_intrinsics(T(M, dt), eps=0.0), np.linalg.inv(M), "inverse_intrinsics", tl(dt))
    return "large", 5


# ------------------------------------------------------------------ homogeneous coordinates
def homog_cases():
    vals = (-3.0, 0.0, 0.25, 1e4)
    for C in (1, 2, 3, 4):
        for k, s in enumerate(((1,), (4,), (0,), (2, 3), (1, 1), (2, 1, 2), (1, 2, 2, 2))):
            for w in (1.0, 2.0, -0.5, 1e-3, -1e-3, 1e5, 0.0):
                for dt in DT:
                    n = int(np.prod(s)) * C
                    for r in range(4 if C < 4 else 2):
                        x = np.array([vals[(i * 3 + i // 4 + r + k) % 4] for i in range(n)]).reshape(s + (C,))
                        yield "%d/%s/%g/%s/%d" % (C, s, w, dt, r), (x, w, dt)


def check_homog(case):
    x, w, dt = case
    n = 0
    for mod in (proj(), geo()):
        t = T(x, dt)
        b = t.clone()
        h = mod.homogenize_points(t)
        expect(h.dtype == dt, "precision %s" % h.dtype)
        same(h, np.concatenate([x, np.ones(x.shape[:-1] + (1,))], -1), "homogenize_points", 1e-12 if dt == torch.float64 else 1e-6)
        same(mod.unhomogenize_points(h), x, "unhomogenize(homogenize)", 1e-6)
        q = np.concatenate([x * (w or 1.0), np.full(x.shape[:-1] + (1,), w)], -1)
        tq = T(q, dt)
        bq = tq.clone()
        u = mod.unhomogenize_points(tq)
        same(u, x, "unhomogenize_points with scale %g" % w, 1e-5 if dt == torch.float32 else 1e-9)
        expect(u.dtype == dt, "precision %s" % u.dtype)
        # a scale that is negligible against the threshold denotes a point at infinity and is not divided by
        for tiny, eps in ((1e-8, None), (-1e-8, None), (0.2, 0.3), (-0.2, 0.3), (0.4, 0.3)):
            hq = T(np.concatenate([x, np.full(x.shape[:-1] + (1,), tiny)], -1), dt)
            u = mod.unhomogenize_points(hq) if eps is None else mod.unhomogenize_points(hq, eps)
            same(u, x if abs(tiny) < (eps or 1e-6) else x / tiny, "unhomogenize_points with scale %g, threshold %s" % (tiny, eps), 1e-5 if dt == torch.float32 else 1e-9)
            n += 1
        h.mul_(3.0)
        expect(torch.equal(t, b) and torch.equal(tq, bq), "input modified")
        n += 3
    return "w=0" if w == 0 else "w", n


# ------------------------------------------------------------------ intrinsics
def intrinsics_cases():
    F = (0.5, 1.0, 2.5, 525.0, -3.0)
    C = (0.0, 0.5, -2.0, 319.5)
    n = 0
    for fx, fy, cx, cy in itertools.product(F, F, C, C):
        for size in (3, 4):
            for ld in ((), (1,), (3,), (2, 1), (2, 2)):
                n += 1
                yield "%g,%g,%g,%g/%d/%s" % (fx, fy, cx, cy, size, ld), ((fx, fy, cx, cy), size, ld, DT[n % 2])


def check_intrinsics(case):
    k, size, ld, dt = case
    n = int(np.prod(ld, dtype=int))
    Ks = np.array([intr(k[0] + i, k[1] - i * 0.25, k[2] + 2 * i, k[3] - i)[:size, :size] for i in range(n)]).reshape(ld + (size, size))
    if np.abs(Ks[..., 0, 0]).min() < 0.5 or np.abs(Ks[..., 1, 1]).min() < 0.5:
        Ks[..., 0, 0] = np.where(np.abs(Ks[..., 0, 0]) < 0.5, 0.5, Ks[..., 0, 0])
        Ks[..., 1, 1] = np.where(np.abs(Ks[..., 1, 1]) < 0.5, 0.5, Ks[..., 1, 1])
    t = T(Ks, dt)
    b = t.clone()
    P = proj()
    inv = P.inverse_intrinsics(t)
    want = np.linalg.inv(Ks)
    expect(inv.dtype == dt, "precision %s" % inv.dtype)
    close(inv, want, "inverse_intrinsics", 1e-5)
    same(torch.matmul(inv, t), np.broadcast_to(np.eye(size), Ks.shape), "inverse times intrinsics", 2e-3)
    exact = P.inverse_intrinsics(T(Ks, torch.float64), eps=0.0)
    close(exact, want, "inverse_intrinsics with eps=0", 1e-12)
    inv.add_(1.0)
    expect(torch.equal(t, b), "intrinsics modified")
    return "%dx%d" % (size, size), 2


# ------------------------------------------------------------------ pixel grids
SIZES = (2, 3, 4, 5, 7, 8, 16, 33)


def pixel_cases(tier="quick"):
    ext = SIZES + (480, 640) if tier == "thorough" else SIZES
    for H, W in list(itertools.product(ext, repeat=2)) + [(480, 640), (2, 640), (480, 2)]:
        for dt in DT:
            for ld in ("grid", "batch grid", "list", "batch list", "vector"):
                if H * W > 5000 and ld not in ("grid",):
                    continue
                yield "%dx%d/%s/%s" % (H, W, dt, ld), (H, W, dt, ld)


def check_pixel(case):
    H, W, dt, ld = case
    G = geo()
    g = np.stack(np.meshgrid(np.arange(H), np.arange(W), indexing="ij"), -1).astype(float)
    n = 0
    for x in (g, g + 0.25, g * 2.0 - 3.0):  # on, between and outside the pixels
        p = {"grid": x, "batch grid": np.stack([x, x[::-1]]), "list": x.reshape(-1, 2), "batch list": np.stack([x.reshape(-1, 2)] * 2), "vector": x[-1, 0]}[ld]
        t = T(p, dt)
        b = t.clone()
        want = p * (2.0 / (np.array([H, W]) - 1.0)) - 1.0
        tol = 1e-5 if dt == torch.float32 else 1e-12
        nrm = G.normalize_pixel_coords(t, H, W)
        expect(nrm.dtype == dt, "precision %s" % nrm.dtype)
        close(nrm, want, "normalize_pixel_coords", tol)
        close(G.unnormalize_pixel_coords(nrm, H, W), p, "unnormalize(normalize)", tol * 10)
        un = G.unnormalize_pixel_coords(T(want, dt), H, W)
        expect(un.dtype == dt, "precision %s" % un.dtype)
        close(un, p, "unnormalize_pixel_coords", tol * 10)
        expect(torch.equal(t, b), "input modified")
        n += 3
    if ld == "grid":
        mesh = G.create_meshgrid(H, W, False)
        same(mesh, g[None], "create_meshgrid", 1e-6)
        nm = G.create_meshgrid(H, W)
        same(nm, (g * (2.0 / (np.array([H, W]) - 1.0)) - 1.0)[None], "normalised create_meshgrid", 1e-5)
        same(G.create_meshgrid(H, W, True), nm, "normalised create_meshgrid, given", 1e-7)
        same(G.unnormalize_pixel_coords(nm, H, W), mesh, "unnormalised grid", 1e-4)
        n += 4
    return ld, n


# ------------------------------------------------------------------ camera <-> pixel images
def cam_cases():
    n = 0
    for H, W in ((1, 1), (1, 3), (2, 2), (3, 2), (4, 4), (3, 5)):
        for ki in range(len(KS)):
            for B in (0, 1, 2, 4):  # 0: no batch dimension, as documented
                for zero in (False, True):
                    for dt in DT:
                        n += 1
                        yield "%dx%d/K%d/%d/%s/%s" % (H, W, ki, B, zero, dt), (H, W, ki, B, zero, dt, EXT[n % 3])


def check_cam(case):
    H, W, ki, B, zero, dt, E = case
    G = geo()
    K = KS[ki]
    nb = max(B, 1)
    z = 0.5 + ((np.arange(nb * H * W) * 5) % 7).reshape(nb, H, W) * 0.5
    if zero:
        z.reshape(-1)[::2] = 0.0
    uv = np.stack(np.meshgrid(np.arange(W), np.arange(H)), -1).astype(float)
    hom = np.concatenate([uv, np.ones((H, W, 1))], -1)
    want = np.stack([(hom @ np.linalg.inv(K[:3, :3]).T) * z[b][..., None] for b in range(nb)])
    depth = T(z[0] if B == 0 else z[:, None], dt)
    pix = T(hom if B == 0 else np.broadcast_to(hom, (nb, H, W, 3)).copy(), dt)
    Ki = T(np.linalg.inv(K), dt)
    keep = depth.clone(), pix.clone(), Ki.clone()
    got = G.pixel2cam(depth, Ki, pix)
    close(got, want[0] if B == 0 else want, "pixel2cam", tl(dt))
    expect(got.dtype == dt, "precision %s" % got.dtype)
    expect(all(torch.equal(a, b) for a, b in zip((depth, pix, Ki), keep)), "pixel2cam modified its input")
    # projecting: pixels come back where depth is not zero, everything finite
    back = G.cam2pixel(got, T(K, dt))
    expect(bool(torch.isfinite(back).all()), "cam2pixel is not finite")
    ok = z > 0 if B else z[0] > 0
    w = np.broadcast_to(uv, (nb, H, W, 2)) if B else uv
    close(back[torch.from_numpy(ok)], w[ok], "cam2pixel(pixel2cam)", tl(dt) * 4)
    cam = want[0] if B == 0 else want
    P = K @ E
    p2 = G.cam2pixel(T(cam, dt), T(P, dt))
    q = np.concatenate([cam, np.ones(cam.shape[:-1] + (1,))], -1) @ P.T
    okz = np.abs(q[..., 2]) > 1e-2
    expect(bool(torch.isfinite(p2).all()), "cam2pixel is not finite")
    close(p2[torch.from_numpy(okz)], q[okz][:, :2] / q[okz][:, 2:3], "cam2pixel with extrinsics", tl(dt) * 50)
    # batched form, one matrix per element
    flat = want.reshape(nb, H * W, 3)
    Ps = np.stack([KS[(ki + b) % len(KS)] @ EXT[b % 3] for b in range(nb)])
    kf = G.cam2pixel_KF(T(flat, dt), T(Ps, dt))
    q = np.einsum("bij,bnj->bni", Ps, np.concatenate([flat, np.ones(flat.shape[:-1] + (1,))], -1))
    okz = np.abs(q[..., 2]) > 1e-2
    expect(bool(torch.isfinite(kf).all()), "cam2pixel_KF is not finite")
    expect(tuple(kf.shape) == (nb, H * W, 2), "cam2pixel_KF has shape %s" % (tuple(kf.shape),))
    close(kf[torch.from_numpy(okz)], q[okz][:, :2] / q[okz][:, 2:3], "cam2pixel_KF", tl(dt) * 50)
    return "no batch" if B == 0 else "batch", 4


def pixel_bad_cases():
    I4, P = torch.eye(4), torch.zeros(2, 3, 3)
    for k, x in enumerate((np.zeros((2, 2)), None)):
        for f in ("normalize_pixel_coords", "unnormalize_pixel_coords"):
            yield "%s/type%d" % (f, k), (f, (x, 4, 5), TypeError)
        yield "cam2pixel/type%d" % k, ("cam2pixel", (x, I4), (TypeError, AssertionError))
        yield "cam2pixel/mat type%d" % k, ("cam2pixel", (P, x), (TypeError, AssertionError))
        yield "pixel2cam/type%d" % k, ("pixel2cam", (x, I4, P), TypeError)
        yield "pixel2cam/mat type%d" % k, ("pixel2cam", (torch.zeros(2, 3), x, P), TypeError)
        yield "pixel2cam/pix type%d" % k, ("pixel2cam", (torch.zeros(2, 3), I4, x), TypeError)
    for s in ((3,), (2, 3), (2, 2, 1)):
        for f in ("normalize_pixel_coords", "unnormalize_pixel_coords"):
            yield "%s/%s" % (f, s), (f, (torch.zeros(s), 4, 5), ValueError)
    for f in ("normalize_pixel_coords", "unnormalize_pixel_coords"):
        for h, w in ((4.0, 5), (4, 5.5), (torch.tensor(4), 5)):
            yield "%s/size %r %r" % (f, h, w), (f, (torch.zeros(2, 2), h, w), (AssertionError, TypeError))
    for s in ((2, 3), (3,), (2, 2, 2), (2, 3, 4)):
        yield "cam2pixel/%s" % (s,), ("cam2pixel", (torch.zeros(s), I4), (AssertionError, ValueError))
    for s in ((3, 3), (4,), (2, 4, 4)):
        yield "cam2pixel/mat%s" % (s,), ("cam2pixel", (P, torch.zeros(s)), (AssertionError, ValueError))
        yield "pixel2cam/mat%s" % (s,), ("pixel2cam", (torch.zeros(2, 3), torch.zeros(s), P), (AssertionError, ValueError, IndexError))


def check_pixel_bad(case):
    f, args, e = case
    raises(lambda: getattr(geo(), f)(*args), e if isinstance(e, tuple) else (e,))
    return "rejected"


def sweeps(tier):
    return [("project", project_cases, check_project), ("large", large_cases, check_large), ("homogeneous", homog_cases, check_homog), ("intrinsics", intrinsics_cases, check_intrinsics),
            ("pixels", lambda: pixel_cases(tier), check_pixel), ("cameras", cam_cases, check_cam),
            ("rejected", project_bad_cases, check_project_bad), ("rejected pixels", pixel_bad_cases, check_pixel_bad),
            purity.sweep(purecalls.projection, tier)]


RULE = ("every point of a grid with negative, zero, tiny and positive depth x intrinsics x extrinsics x tensor layout x matrix broadcasting x homogeneous or not x "
        "precision; every intrinsics of a value grid x rank; every image size of a set x coordinate layout; compared per point with double-precision definitions")


def main(tier, t0):
    return sweepcheck.run("C16", tier, t0, sweeps(tier), rule=RULE, bounds={"points": "%d grid points; up to 6000 per tensor in the large sweep" % len(GRID), "intrinsics": len(KS), "image sizes": "2..33, 480, 640"},
                          assumptions=["focal lengths of at least half a pixel (the default inverse adds 1e-6 to them)", "at zero depth only finiteness is required", "images of at least two pixels a side"])


def replay(doc):
    return sweepcheck.replay(doc, sweeps("thorough"))
