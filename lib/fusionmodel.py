"""Reference model of point-based fusion: correspondence search by definition, and the update, point by point."""
import numpy as np

from framemodel import frame_cloud
from pcmodel import PC
from rgbdmodel import RM

MARGIN = 2e-3


class Borderline(Exception):
    """The case sits on a threshold where float32 may go either way; it is outside the checked domain."""


def far(x, t, m=MARGIN):
    if abs(x - t) < m:
        raise Borderline("%g is within %g of the threshold %g" % (x, m, t))
    return x


def active(pc: PC, m: RM):
    """(b, n, h, w) of every map point in front of the camera that projects onto the grid of pixel centres."""
    out = []
    H, W = m.shape[2:4]
    for b in range(pc.B):
        T = m.poses[b, 0]
        R, t = T[:3, :3], T[:3, 3]
        K = m.K[b, 0]
        for n, p in enumerate(pc.d["points"][b]):
            q = R.T @ (p - t)
            if q[2] == 0.0 and np.array_equal(T, np.eye(4)):
                continue  # exactly in the plane of the camera: not in front of it
            if not far(q[2], 0.0) > 0:
                continue
            u = K[0, 0] * q[0] / q[2] + K[0, 2]
            v = K[1, 1] * q[1] / q[2] + K[1, 2]
            # exact pixel centres belong to the image; just outside the outermost centres does not
            inside = True
            # rounding of the camera-frame coordinates, in pixels: it matters for points close to the camera
            err = 5e-7 * max(K[0, 0], K[1, 1]) * (1 + np.abs(p).max() + np.abs(t).max()) / q[2] if not np.array_equal(T, np.eye(4)) else 0.0
            mg = max(MARGIN, 3 * err)
            for x, n_px in ((u, W), (v, H)):
                if abs(x) < 5e-4 or abs(x - (n_px - 1)) < 5e-4:
                    if err > 3e-4:
                        raise Borderline("on the edge of the image, up to rounding")
                    continue
                far(x, 0.0, mg)
                far(x, n_px - 1, mg)
                inside &= 0 < x < n_px - 1
            if not inside:
                continue
            for x in (u, v):
                far(x - np.floor(x), 0.5, mg)
            out.append((b, n, int(np.clip(round(v), 0, H - 1)), int(np.clip(round(u), 0, W - 1))))
    return out


def similar(pc: PC, m: RM, normals, rows, dist_th, dot_th):
    V = m.gvertex()
    out = []
    for b, n, h, w in rows:
        if not m.valid()[b, 0, h, w, 0]:
            continue
        d = np.linalg.norm(pc.d["points"][b][n] - V[b, 0, h, w])
        c = float(np.dot(pc.d["normals"][b][n], normals[b, 0, h, w]))
        nz = np.linalg.norm(normals[b, 0, h, w]) > 0.5
        if far(d, dist_th, 1e-4) < dist_th and (nz or dot_th > 1e-3) and far(c, dot_th) > dot_th:
            out.append((b, n, h, w))
        elif not nz and abs(dot_th) <= 1e-3:
            raise Borderline("zero normal against zero threshold")
    return out


def best(pc: PC, m: RM, rows):
    """One row per pixel: highest confidence, then closest; returns for each pixel the set of acceptable winners."""
    V = m.gvertex()
    groups = {}
    for r in rows:
        groups.setdefault((r[0], r[2], r[3]), []).append(r)
    out = []
    for (b, h, w), rs in sorted(groups.items()):
        c = [float(pc.d["features"][b][r[1]][0]) for r in rs]
        top = max(c)
        for x in c:
            if x != top and abs(x - top) < 1e-3 * max(1e-9, abs(top)):
                raise Borderline("confidences too close")
        rs = [r for r, x in zip(rs, c) if x == top]
        d = [float(((pc.d["points"][b][r[1]] - V[b, 0, h, w]) ** 2).sum()) for r in rs]
        low = min(d)
        for x in d:
            if x != low and abs(x - low) < 1e-5 + 1e-3 * low:
                # equally close up to rounding: either may win
                pass
        out.append({r for r, x in zip(rs, d) if abs(x - low) <= 1e-5 + 1e-3 * low})
    return out


def alpha_image(m: RM, sigma, eps=1e-7):
    V = m.vertex()[:, 0]
    return np.clip(np.exp(-(V ** 2).sum(-1) / (2 * sigma ** 2)), eps, 1.01)


def fuse(pc: PC, m: RM, normals, rows, sigma):
    """rows: one-to-one correspondences (b, n, h, w).  Returns the new map (value semantics)."""
    al = alpha_image(m, sigma)
    V = m.gvertex()
    out = pc.copy()
    used = np.zeros(m.shape[:1] + m.shape[2:4], bool)
    for b, n, h, w in rows:
        used[b, h, w] = True
        c = out.d["features"][b][n][0]
        a = al[b, h, w]
        for k, x in (("points", V[b, 0, h, w]), ("normals", normals[b, 0, h, w]), ("colors", m.rgb[b, 0, h, w])):
            out.d[k][b][n] = (c * out.d[k][b][n] + a * x) / ((c + a) if c + a != 0 else 1.0)
        out.d["features"][b][n] = [c + a]
    rest = m.copy()
    rest.depth = np.where(used[:, None, ..., None], 0.0, rest.depth)
    rest.drop()
    new = frame_cloud(m, normals, alphas=al)
    keep = [[not used[b, v, u] for v in range(m.shape[2]) for u in range(m.shape[3]) if m.valid()[b, 0, v, u, 0]] for b in range(m.shape[0])]
    new = PC({k: None if x is None else [y[np.array(kp, bool)] if len(kp) else y for y, kp in zip(x, keep)] for k, x in new.d.items()})
    if not out.has:
        return new
    return out.append(new)
