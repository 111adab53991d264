"""Small synthetic RGB-D datasets on disk and the definition of their samples."""
import copy
import itertools
import os
import pickle
import shutil
import tempfile

import cv2
import numpy as np
import torch

from mc import Mismatch, expect, same
from pcmodel import axis_angle, se3

H0, W0 = 4, 6


def color_of(seq, k):
    r = np.random.RandomState(1000 * seq + k)
    return r.randint(0, 256, (H0, W0, 3)).astype(np.uint8)


def depth_of(seq, k):
    r = np.random.RandomState(50000 + 1000 * seq + k)
    d = r.randint(0, 65536, (H0, W0)).astype(np.uint16)
    d[k % H0, (2 * k) % W0] = 0
    if k % 3 == 2:
        d = np.maximum(d, 1)  # an image without holes
    d[(k + 1) % H0, 0] = 65535
    return d


def label_of(seq, k):
    r = np.random.RandomState(90000 + 1000 * seq + k)
    return r.randint(0, 41, (H0, W0)).astype(np.uint8)


def pose_of(seq, k):
    r = np.random.RandomState(7000 + 100 * seq + k)
    a = r.randn(3)
    return se3(axis_angle(a, 0.2 + 0.13 * k), r.uniform(-2, 2, 3))


def write_images(d, seq, n, names=None, label=False, depth_dir="depth", rgb_dir="rgb"):
    for sub in (rgb_dir, depth_dir) + (("label-filt",) if label else ()):
        os.makedirs(os.path.join(d, sub), exist_ok=True)
    for k in range(n):
        nm = names[k] if names else str(k)
        cv2.imwrite(os.path.join(d, rgb_dir, nm + ".png"), color_of(seq, k)[..., ::-1])
        cv2.imwrite(os.path.join(d, depth_dir, nm + ".png"), depth_of(seq, k))
        if label:
            cv2.imwrite(os.path.join(d, "label-filt", nm + ".png"), label_of(seq, k))


# ------------------------------------------------------------------ reference image processing
def nearest(img, h, w):
    ys = np.minimum(np.floor(np.arange(h) * (img.shape[0] / h)).astype(int), img.shape[0] - 1)
    xs = np.minimum(np.floor(np.arange(w) * (img.shape[1] / w)).astype(int), img.shape[1] - 1)
    return img[ys][:, xs]


def bilinear(img, h, w):
    img = img.astype(np.float64)

    def axis(n, m):
        p = (np.arange(m) + 0.5) * (n / m) - 0.5
        p = np.clip(p, 0, n - 1)
        lo = np.floor(p).astype(int)
        hi = np.minimum(lo + 1, n - 1)
        return lo, hi, p - lo
    y0, y1, fy = axis(img.shape[0], h)
    x0, x1, fx = axis(img.shape[1], w)
    fy, fx = fy[:, None, None], fx[None, :, None]
    return ((img[y0][:, x0] * (1 - fx) + img[y0][:, x1] * fx) * (1 - fy) + (img[y1][:, x0] * (1 - fx) + img[y1][:, x1] * fx) * fy)


def want_color(seq, k, o):
    c = bilinear(color_of(seq, k), o.get("height", 480), o.get("width", 640))
    if o.get("normalize_color"):
        c = c / 255.0
    return c.transpose(2, 0, 1) if o.get("channels_first") else c


def want_depth(seq, k, o, scale):
    d = nearest(depth_of(seq, k).astype(np.float64), o.get("height", 480), o.get("width", 640)) / scale
    return d[None] if o.get("channels_first") else d[..., None]


def want_intrinsics(K, o):
    K = np.array(K, dtype=np.float64)
    sh, sw = o.get("height", 480) / 480.0, o.get("width", 640) / 640.0
    K[0] *= sw
    K[1] *= sh
    return K[None]


def relative(poses):
    return np.stack([np.linalg.inv(poses[0]) @ p for p in poses])


def consecutive(poses):
    return np.stack([np.eye(4)] + [np.linalg.inv(a) @ b for a, b in zip(poses, poses[1:])])


def tensor(x, what, shape=None):
    expect(isinstance(x, torch.Tensor) and x.dtype == torch.float32, "%s is %s, expected a float32 tensor" % (what, getattr(x, "dtype", type(x).__name__)))
    return x


def check_images(out, frames, o, scale):
    """frames: [(seq, color index, depth index)]; consumes color and depth from the output list."""
    same(tensor(out.pop(0), "color"), np.stack([want_color(s, c, o) for s, c, d in frames]), "color", tol=2e-3 if not o.get("normalize_color") else 1e-5)
    if o.get("return_depth", True):
        same(tensor(out.pop(0), "depth"), np.stack([want_depth(s, d, o, scale) for s, c, d in frames]), "depth", tol=1e-6)


def check_poses(out, poses, o, tol=2e-4):
    if o.get("return_pose", True):
        same(tensor(out.pop(0), "pose"), relative(poses), "poses relative to the first frame", tol=tol)
    if o.get("return_transform", True):
        same(tensor(out.pop(0), "transform"), consecutive(poses), "frame to frame transforms", tol=tol)


def windows(n, seqlen, dilation, stride):
    """Index lists of the windows of n frames, by definition."""
    d = 0 if dilation is None else dilation
    st = seqlen * (d + 1) if stride is None else stride
    out = []
    s = 0
    while s < n:
        w = [s + i * (d + 1) for i in range(seqlen)]
        if w[-1] < n:
            out.append(w)
        s += st
    return out


def stem(path):
    return os.path.splitext(os.path.basename(path.replace("\\", "/")))[0]


# ---------------------------------------------------------------- histories of readers
class Reader:
    """Two readers of one folder with different options, through a history of reads, copies and changes of the folder.

    layouts: two folders which take turns behind one path; options: those of the two readers; open_(path, options);
    count(layout, options); check(reader, index, layout, options) compares one sample with the definition."""

    OPS = ("first a", "last a", "first b", "last b", "all a", "work on the last sample", "pickle a", "copy a", "other folder", "open a again")

    def __init__(self, root, layouts, options, open_, count, check):
        self.root, self.layouts, self.options, self.open, self.count, self.check = root, layouts, options, open_, count, check

    def cases(self, tier):
        depth = 3 if tier == "quick" else 4
        for n in range(1, depth + 1):
            for ops in itertools.product(self.OPS, repeat=n):
                if ops[-1] not in self.OPS[:5]:
                    continue
                yield "; ".join(ops), ops

    def run(self, ops):
        path = tempfile.mkdtemp(dir=self.root)
        link, at = os.path.join(path, "data"), [0]
        os.symlink(self.layouts[0][1], link)
        ds, last = {}, None

        def get(k):
            if k not in ds:
                ds[k] = self.open(link, self.options[k])
            return ds[k]

        def read(k, j):
            name, o = self.layouts[at[0]][0], self.options[k]
            d, n = get(k), self.count(self.layouts[at[0]][0], self.options[k])
            expect(len(d) == n, "reader %s has %d samples, expected %d" % ("ab"[k], len(d), n))
            j = n - 1 if j is None else j
            seen.append(self.check(d, j, name, o))
            return d[j]

        seen = []
        for op in ops:
            if op.startswith(("first", "last")):
                last = read("ab".index(op[-1]), 0 if op.startswith("first") else None)
            elif op == "all a":
                for j in range(self.count(self.layouts[at[0]][0], self.options[0])):
                    last = read(0, j)
            elif op == "work on the last sample":
                for x in last or ():
                    if hasattr(x, "mul_"):
                        x.mul_(3).add_(7)
            elif op == "pickle a":
                ds[0] = pickle.loads(pickle.dumps(get(0)))
            elif op == "copy a":
                ds[0] = copy.deepcopy(get(0))
            elif op == "open a again":
                ds.pop(0, None)
            elif op == "other folder":
                at[0] = 1 - at[0]
                os.remove(link)
                os.symlink(self.layouts[at[0]][1], link)
                ds.clear()
        shutil.rmtree(path)
        return "history", len(seen)
