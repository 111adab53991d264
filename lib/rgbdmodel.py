"""Reference model of a batch of RGB-D sequences: plain channel-last arrays and per-pixel formulas."""
import numpy as np
import torch

from mc import Mismatch, expect, same, to_np
from pcmodel import R1, R2, T1, T2, se3, axis_angle

MAPS = ("vertex_map", "normal_map", "global_vertex_map", "global_normal_map")


class RM:
    def __init__(self, rgb, depth, K, poses, cf=False):
        self.rgb, self.depth, self.K, self.poses, self.cf = rgb, depth, K, poses, cf
        self.drop()

    def drop(self):
        self._c = {}

    def copy(self):
        return RM(self.rgb.copy(), self.depth.copy(), self.K.copy(), None if self.poses is None else self.poses.copy(), self.cf)

    @property
    def shape(self):
        return self.depth.shape[:4]

    def valid(self):
        return self.depth > 0

    def vertex(self):
        if "v" in self._c:
            return self._c["v"]
        B, L, H, W = self.shape
        out = np.zeros((B, L, H, W, 3))
        for b in range(B):
            Kinv = np.linalg.inv(self.K[b, 0, :3, :3])
            for l in range(L):
                for v in range(H):
                    for u in range(W):
                        z = self.depth[b, l, v, u, 0]
                        if z > 0:
                            out[b, l, v, u] = Kinv @ (u, v, 1.0) * z
        self._c["v"] = out
        return out

    def normal(self):
        if "n" in self._c:
            return self._c["n"]
        V = self.vertex()
        B, L, H, W = self.shape
        out = np.zeros_like(V)
        self._c["ill"] = ill = np.zeros((B, L, H, W), bool)
        for b in range(B):
            for l in range(L):
                for v in range(H):
                    for u in range(W):
                        if not self.depth[b, l, v, u, 0] > 0:
                            continue
                        uu = min(u, W - 2)
                        vv = min(v, H - 2)
                        dh, dv = V[b, l, v, uu + 1] - V[b, l, v, uu], V[b, l, vv + 1, u] - V[b, l, vv, u]
                        n = np.cross(dh, dv)
                        k = np.linalg.norm(n)
                        # parallel neighbours: the direction of a rounding residue is not specified
                        ill[b, l, v, u] = k < 1e-3 * (np.linalg.norm(dh) * np.linalg.norm(dv) + 1e-3)
                        out[b, l, v, u] = n / k if k > 0 else n
        self._c["n"] = out
        return out

    def gvertex(self):
        if self.poses is None:
            return self.vertex()
        if "gv" in self._c:
            return self._c["gv"]
        V = self.vertex()
        out = np.zeros_like(V)
        B, L, H, W = self.shape
        for b in range(B):
            for l in range(L):
                T = self.poses[b, l]
                P = V[b, l] @ T[:3, :3].T + T[:3, 3]
                out[b, l] = np.where(self.valid()[b, l], P, 0.0)
        self._c["gv"] = out
        return out

    def gnormal(self):
        if self.poses is None:
            return self.normal()
        if "gn" in self._c:
            return self._c["gn"]
        N = self.normal()
        out = np.zeros_like(N)
        B, L = self.shape[:2]
        for b in range(B):
            for l in range(L):
                out[b, l] = N[b, l] @ self.poses[b, l][:3, :3].T
        self._c["gn"] = out
        return out

    def ill(self):
        """Pixels with valid depth whose normal direction is numerically undetermined."""
        self.normal()
        return self._c["ill"]

    def map(self, name):
        return {"vertex_map": self.vertex, "normal_map": self.normal, "global_vertex_map": self.gvertex,
                "global_normal_map": self.gnormal}[name]()

    def lay(self, x):
        return np.transpose(x, (0, 1, 4, 2, 3)) if self.cf else x

    def take(self, bi, li):
        """bi, li: lists of positions."""
        return RM(self.rgb[bi][:, li].copy(), self.depth[bi][:, li].copy(), self.K[bi].copy(),
                  None if self.poses is None else self.poses[bi][:, li].copy(), self.cf)


def observe_rgbd(r, m, label="frames", tol=1e-4, maps=MAPS):
    expect(bool(r.channels_first) == m.cf, "%s: channels_first is %s, expected %s" % (label, r.channels_first, m.cf))
    expect(tuple(r.shape) == m.shape, "%s: shape is %s, expected %s" % (label, tuple(r.shape), m.shape))
    expect(len(r) == m.shape[0], "%s: len is %s, expected %d" % (label, len(r), m.shape[0]))
    expect(r.cdim == (2 if m.cf else 4), "%s: cdim is %s" % (label, r.cdim))
    expect(bool(r.has_poses) == (m.poses is not None), "%s: has_poses is %s" % (label, r.has_poses))
    same(r.rgb_image, m.lay(m.rgb), label + ".rgb_image", tol)
    same(r.depth_image, m.lay(m.depth), label + ".depth_image", tol)
    same(r.intrinsics, m.K, label + ".intrinsics", tol)
    same(r.poses, m.poses, label + ".poses", tol)
    same(r.valid_depth_mask, m.lay(m.valid()), label + ".valid_depth_mask", tol)
    for k in maps:
        same_map(getattr(r, k), m, k, "%s.%s" % (label, k), tol)


def same_map(got, m, k, what, tol=1e-4):
    want = m.lay(m.map(k))
    if "normal" in k and m.ill().any():
        g = to_np(got)
        expect(g.shape == want.shape, "%s: shape %s, expected %s" % (what, g.shape, want.shape))
        x = np.moveaxis(g, 2, 4) if m.cf else g
        n = np.linalg.norm(x[m.ill()], axis=-1)
        expect((np.isfinite(n) & ((n < 1e-6) | (np.abs(n - 1) < 1e-3))).all(), "%s: undetermined normal neither zero nor unit" % what)
        keep = m.lay(np.repeat(~m.ill()[..., None], 3, -1))
        same(g[keep], want[keep], what, tol)
        return
    same(got, want, what, tol)


# ---------------------------------------------------------------- concrete data
def images(B, L, H, W, seed=1, zeros=(), poses=True, cf=False):
    rng = np.arange(B * L * H * W * 3, dtype=np.float64).reshape(B, L, H, W, 3)
    rgb = (rng * 7 + seed * 13) % 31 / 31.0
    d = np.arange(B * L * H * W, dtype=np.float64).reshape(B, L, H, W, 1)
    depth = 1.0 + ((d * 5 + seed * 3 + (d * d) % 7) % 9) * 0.25
    for z in zeros:
        depth.reshape(-1)[z % depth.size] = 0.0
    K = np.stack([intr(2.0 + b + 0.5 * (seed % 3), 3.0 + b, 0.5 + 0.25 * seed % 2, 1.0 - 0.5 * b) for b in range(B)])[:, None]
    P = None
    if poses:
        base = [T1, T2, se3(axis_angle([1, 2, 0.5], 0.3 * seed), [seed, 0.5, -1.0])]
        P = np.stack([np.stack([base[(b + l + seed) % 3] for l in range(L)]) for b in range(B)])
    return RM(rgb, depth, K, P, cf)


def intr(fx, fy, cx, cy, skew=0.0):
    K = np.eye(4)
    K[0, 0], K[1, 1], K[0, 2], K[1, 2], K[0, 1] = fx, fy, cx, cy, skew
    return K


def make_rgbd(m, dtype=torch.float32, requires_grad=False, **kw):
    from gradslam.structures.rgbdimages import RGBDImages

    t = [torch.tensor(np.ascontiguousarray(x), dtype=dtype) for x in (m.lay(m.rgb), m.lay(m.depth), m.K)]
    p = None if m.poses is None else torch.tensor(m.poses, dtype=dtype)
    if requires_grad:
        for x in t + ([p] if p is not None else []):
            x.requires_grad_(True)
    return RGBDImages(t[0], t[1], t[2], p, channels_first=m.cf, **kw)
