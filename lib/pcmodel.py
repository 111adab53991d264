"""Reference model of a batch of point clouds: one plain array per cloud and attribute."""
import numpy as np
import torch

from mc import Mismatch, expect, same

ATTRS = ("points", "normals", "colors", "features")


class PC:
    """Value-semantics model: d[attr] is None or a list of float arrays (N_b, C)."""

    def __init__(self, d=None):
        self.d = {a: None for a in ATTRS}
        if d:
            for a, v in d.items():
                self.d[a] = None if v is None else [np.array(x, dtype=np.float64) for x in v]

    @property
    def has(self):
        return self.d["points"] is not None

    @property
    def B(self):
        return len(self.d["points"]) if self.has else 0

    @property
    def counts(self):
        return [len(p) for p in self.d["points"]] if self.has else []

    def copy(self):
        return PC(self.d)

    def padded(self, a):
        v = self.d[a]
        if v is None:
            return None
        n = max(self.counts) if self.counts else 0
        out = np.zeros((self.B, n, v[0].shape[1]))
        for b, x in enumerate(v):
            out[b, : len(x)] = x
        return out

    # ---- geometry, point by point
    def offset(self, t):
        if self.has:
            P = self.padded("points") + np.broadcast_to(np.asarray(t, float), self.padded("points").shape)
            self._from_padded("points", P)
        return self

    def scale(self, k):
        if self.has:
            P = self.padded("points") * np.broadcast_to(np.asarray(k, float), self.padded("points").shape)
            self._from_padded("points", P)
        return self

    def _from_padded(self, a, P):
        self.d[a] = [P[b, :n].copy() for b, n in enumerate(self.counts)]

    def rotate(self, R, pre=True):
        if self.has:
            for a in ("points", "normals"):
                if self.d[a] is not None:
                    out = []
                    for b, x in enumerate(self.d[a]):
                        Rb = R if R.ndim == 2 else R[b]
                        out.append(np.array([Rb @ p if pre else p @ Rb for p in x]).reshape(-1, 3))
                    self.d[a] = out
        return self

    def transform(self, T, pre=True):
        if self.has:
            self.rotate(T[..., :3, :3], pre)
            self.d["points"] = [x + (T if T.ndim == 2 else T[b])[:3, 3] for b, x in enumerate(self.d["points"])]
        return self

    def pinhole(self, K):
        if self.has:
            out = []
            for b, x in enumerate(self.d["points"]):
                Kb = K if K.ndim == 2 else K[b]
                rows = []
                for p in x:
                    q = Kb[:3, :3] @ p + Kb[:3, 3]
                    rows.append([q[0] / q[2], q[1] / q[2], 1.0])
                out.append(np.array(rows).reshape(-1, 3))
            self.d["points"] = out
        return self

    def take(self, idx):
        return PC({a: None if v is None else [v[i] for i in idx] for a, v in self.d.items()})

    def append(self, o):
        if not o.has:
            return self
        if not self.has:
            self.d = o.copy().d
            return self
        for a in ATTRS:
            if self.d[a] is not None:
                self.d[a] = [np.concatenate([x, y], 0) for x, y in zip(self.d[a], o.d[a])]
        return self

    def compatible(self, o):
        if not o.has or not self.has:
            return True
        if self.B != o.B:
            return False
        for a in ATTRS:
            if (self.d[a] is None) != (o.d[a] is None):
                return False
        if self.d["features"] is not None and self.d["features"][0].shape[1] != o.d["features"][0].shape[1]:
            return False
        return True


def observe_pc(pc, m, label="cloud", tol=1e-4):
    """Every public read of the cloud must agree with the model (reads both views, lists first and again)."""
    expect(len(pc) == m.B, "%s: len is %s, expected %d" % (label, len(pc), m.B))
    expect(bool(pc.has_points) == m.has, "%s: has_points is %s, expected %s" % (label, pc.has_points, m.has))
    for a in ATTRS[1:]:
        expect(bool(getattr(pc, "has_" + a)) == (m.d[a] is not None),
               "%s: has_%s is %s, expected %s" % (label, a, getattr(pc, "has_" + a), m.d[a] is not None))
    nf = 0 if m.d["features"] is None else m.d["features"][0].shape[1]
    expect(int(pc.num_features or 0) == nf, "%s: num_features is %s, expected %d" % (label, pc.num_features, nf))
    if not m.has:
        for a in ATTRS:
            expect(getattr(pc, a + "_list") is None, "%s: empty batch has %s_list" % (label, a))
            expect(getattr(pc, a + "_padded") is None, "%s: empty batch has %s_padded" % (label, a))
        expect(pc.nonpad_mask is None, "%s: empty batch has a nonpad_mask" % label)
        return
    same(pc.num_points_per_pointcloud, np.array(m.counts), label + ".num_points_per_pointcloud")
    n = max(m.counts)
    mask = np.array([[j < c for j in range(n)] for c in m.counts], dtype=bool).reshape(m.B, n)
    same(pc.nonpad_mask, mask, label + ".nonpad_mask")
    for a in ATTRS:
        got = getattr(pc, a + "_list")
        want = m.d[a]
        if want is None or got is None:
            expect(got is None and want is None,
                   "%s.%s_list is %s, expected %s" % (label, a, "None" if got is None else "present",
                                                      "None" if want is None else "present"))
        else:
            expect(len(got) == len(want), "%s.%s_list has %d clouds, expected %d" % (label, a, len(got), len(want)))
            for b, (g, w) in enumerate(zip(got, want)):
                same(g, w, "%s.%s_list[%d]" % (label, a, b), tol)
        same(getattr(pc, a + "_padded"), m.padded(a), "%s.%s_padded" % (label, a), tol)


# ---------------------------------------------------------------- concrete clouds
def val(seed, n, c=3, base=0.0):
    """Deterministic distinct small values; z >= 1 so pinhole projection is defined."""
    out = np.zeros((n, c))
    for i in range(n):
        for j in range(c):
            out[i, j] = ((seed * 7 + i * 3 + j * 5 + (i * j) * 2) % 11) * 0.25 + base
        if c == 3:
            out[i, 2] += 1.0
    return out


def data(counts, attrs=("normals", "colors", "features"), C=2, seed=1):
    d = {"points": [val(seed + 3 * b, n) for b, n in enumerate(counts)]}
    if "normals" in attrs:
        d["normals"] = [val(seed + 11 + 3 * b, n, base=-1.0) for b, n in enumerate(counts)]
    if "colors" in attrs:
        d["colors"] = [val(seed + 23 + 3 * b, n) * 10 for b, n in enumerate(counts)]
    if "features" in attrs:
        d["features"] = [val(seed + 37 + 3 * b, n, C) for b, n in enumerate(counts)]
    return d


def make(d, form="list", dtype=torch.float32, requires_grad=False):
    """Real Pointclouds from model data; form is list | padded | empty."""
    from gradslam.structures.pointclouds import Pointclouds

    if form == "empty":
        return Pointclouds()
    kw = {}
    for a, v in d.items():
        if v is None:
            continue
        ts = [torch.tensor(np.asarray(x), dtype=dtype).reshape(len(x), -1 if len(x) else np.asarray(x).shape[-1]) for x in v]
        if form == "padded":
            kw[a] = torch.stack(ts, 0)
            if requires_grad:
                kw[a].requires_grad_(True)
        else:
            if requires_grad:
                for t in ts:
                    t.requires_grad_(True)
            kw[a] = ts
    return Pointclouds(**kw)


# rotations of the cube (24) and a few generic ones
def octahedral():
    out = []
    import itertools
    for perm in itertools.permutations(range(3)):
        for signs in itertools.product((1, -1), repeat=3):
            R = np.zeros((3, 3))
            for i, p in enumerate(perm):
                R[i, p] = signs[i]
            if np.linalg.det(R) > 0:
                out.append(R)
    return out


def axis_angle(axis, ang):
    axis = np.asarray(axis, float) / np.linalg.norm(axis)
    K = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]], [-axis[1], axis[0], 0]])
    return np.eye(3) + np.sin(ang) * K + (1 - np.cos(ang)) * K @ K


def se3(R, t):
    T = np.eye(4)
    T[:3, :3] = R
    T[:3, 3] = t
    return T


R1 = axis_angle([0.3, -0.5, 0.8], 0.7)
R2 = np.array([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]])
T1 = se3(R1, [0.5, -1.0, 2.0])
T2 = se3(R2, [-2.0, 0.25, 1.0])
K1 = np.array([[4.0, 0, 1.5, 0], [0, 3.0, 2.0, 0], [0, 0, 1, 0], [0, 0, 0, 1]])
K2 = np.array([[2.0, 0, 0.5, 0], [0, 5.0, 1.0, 0], [0, 0, 1, 0], [0, 0, 0, 1]])
