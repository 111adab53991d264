"""C21: dataset utilities are exact and leave their inputs unchanged."""
import copy
import itertools
import warnings
from collections import OrderedDict

import numpy as np
import torch

import purecalls
import purity
import sweepcheck
from c15 import QUATS, TR, rot_of
from mc import Mismatch, expect, raises, same
from pcmodel import se3
from rgbdmodel import intr


def du():
    from gradslam.datasets import datautils
    return datautils


def snapshot(x):
    return x.clone() if torch.is_tensor(x) else copy.deepcopy(x)


def unchanged(x, before, what="input"):
    if torch.is_tensor(x):
        expect(x.dtype == before.dtype and x.shape == before.shape and torch.equal(x.detach(), before.detach()), "%s was modified" % what)
    elif isinstance(x, np.ndarray):
        expect(x.dtype == before.dtype and x.shape == before.shape and np.array_equal(x, before, equal_nan=x.dtype.kind == "f"), "%s was modified" % what)
    else:
        expect(len(x) == len(before) and all(np.array_equal(a, b) for a, b in zip(x, before)), "%s was modified" % what)


def kind(x, np_, want_np, want_t):
    if np_:
        expect(isinstance(x, np.ndarray), "result is a %s, not an array" % type(x).__name__)
        expect(want_np is None or x.dtype == want_np, "result has type %s" % x.dtype)
    else:
        expect(torch.is_tensor(x), "result is a %s, not a tensor" % type(x).__name__)
        expect(want_t is None or x.dtype == want_t, "result has type %s" % x.dtype)


NPT = ("uint8", "int16", "int32", "int64", "float32", "float64")
TT = ("uint8", "int16", "int32", "int64", "float32", "float64")


def value(shape, dt, vals, np_, how, r=0):
    n = int(np.prod(shape, dtype=int))
    a = np.array([vals[(i * 3 + i // 5 + r) % len(vals)] for i in range(n)]).reshape(shape).astype(dt)
    if how == "view" and a.ndim >= 2:  # a transposed, non-contiguous array
        a = np.ascontiguousarray(np.swapaxes(a, -1, -2))
        a = np.swapaxes(a, -1, -2)
        return a if np_ else torch.from_numpy(np.ascontiguousarray(np.swapaxes(a, -1, -2))).transpose(-1, -2)
    return a if np_ else torch.from_numpy(a)


# ------------------------------------------------------------------ normalize_image
def norm_cases():
    vals = (0, 1, 2, 3, 17, 51, 102, 127, 128, 200, 254, 255)
    for shape in ((), (1,), (5,), (0,), (2, 3), (4, 1, 3), (2, 2, 3, 3), (1, 2, 3, 2, 3), (480, 640, 3), (3, 120, 160, 3), (2, 0, 3)):
        for dt in NPT:
            for np_ in (True, False):
                if np_ and shape == ():
                    continue  # NumPy arithmetic turns these into scalars
                for how in ("plain", "view"):
                    for r in range(3):
                        yield "%s/%s/%s/%s/%d" % (shape, dt, np_, how, r), (shape, dt, vals, np_, how, r)
    yield "every level np", ((256,), "uint8", tuple(range(256)), True, "plain", 0)
    yield "every level torch", ((256,), "uint8", tuple(range(256)), False, "plain", 0)


def check_norm(case):
    x = value(*case)
    if not torch.is_tensor(x) and not isinstance(x, np.ndarray):
        x = np.asarray(x)
    b = snapshot(x)
    out = du().normalize_image(x)
    np_ = case[3]
    kind(out, np_, np.float64, torch.float32)
    same(out, np.asarray(x if np_ else x.numpy(), dtype=np.float64) / 255.0, "normalize_image", 1e-12 if np_ else 1e-6)
    unchanged(x, b)
    if out.ndim:
        out[...] = 7.0
        unchanged(x, b, "input, by a later change of the result,")
    return case[1]


# ------------------------------------------------------------------ channels_first
def chan_cases():
    for shape in ((1, 1, 1), (4, 5, 3), (3, 5, 3), (2, 3, 4), (5, 1, 2), (1, 4, 3), (2, 4, 3, 3), (1, 1, 2, 3), (2, 3, 4, 5, 3), (1, 2, 1, 2, 1), (2, 1, 2, 3, 2, 4), (48, 64, 3), (64, 48, 3), (2, 33, 40, 3), (1, 3, 24, 32, 3), (0, 4, 5, 3), (2, 3, 0)):
        for dt in NPT + ("bool",):
            for np_ in (True, False):
                for how in ("plain", "view"):
                    yield "%s/%s/%s/%s" % (shape, dt, np_, how), (shape, dt, np_, how)


def check_chan(case):
    shape, dt, np_, how = case
    x = value(shape, dt, tuple(range(97)), np_, how)
    b = snapshot(x)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        out = du().channels_first(x)
    expect(bool(rec) == (shape[-1] > shape[-3]), "warned %d times for %d channels and height %d" % (len(rec), shape[-1], shape[-3]))
    xn = x if np_ else x.numpy()
    kind(out, np_, xn.dtype, None if np_ else x.dtype)
    want = np.zeros(shape[:-3] + (shape[-1], shape[-3], shape[-2]), dtype=xn.dtype)
    for i in np.ndindex(*shape):
        want[i[:-3] + (i[-1], i[-3], i[-2])] = xn[i]
    o = out if np_ else out.numpy()
    expect(o.shape == want.shape and np.array_equal(o, want), "channels_first of shape %s is wrong" % (shape,))
    unchanged(x, b)
    return "rank %d" % len(shape)


# ------------------------------------------------------------------ scale_intrinsics
def scale_cases():
    R = (1, 2, 0.5, 0.25, 480 / 121, 1e-2, 3.0)
    Ks = [intr(2.0, 3.0, 0.5, 1.0), intr(525.0, 480.0, 319.5, 239.5), intr(10, 4, 5, 2)]
    n = 0
    for h, w in itertools.product(R, R):
        for ki in range(3):
            for size in (3, 4):
                for ld in ((), (1,), (2,), (3, 1), (2, 2)):
                    for np_ in (True, False):
                        n += 1
                        yield "%g,%g/K%d/%d/%s/%s" % (h, w, ki, size, ld, np_), (h, w, [Ks[(ki + i) % 3] for i in range(int(np.prod(ld, dtype=int)))], size, ld, np_, ("float32", "float64", "int64")[n % 3])


def check_scale(case):
    h, w, Ks, size, ld, np_, dt = case
    a = np.array([K[:size, :size] for K in Ks]).reshape(ld + (size, size))
    a = a.copy()
    a[..., 0, 1] = 2  # a skew entry is left alone
    a = a.astype(dt)
    x = a.copy() if np_ else torch.from_numpy(a.copy())
    b = snapshot(x)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        out = du().scale_intrinsics(x, h, w)
    expect(not rec, "warned about valid intrinsics")
    kind(out, np_, None, None)
    want = a.astype(np.float64)
    for i in np.ndindex(*ld):
        want[i][0, 0] *= w
        want[i][0, 2] *= w
        want[i][1, 1] *= h
        want[i][1, 2] *= h
    same(out, want, "scale_intrinsics(h_ratio=%g, w_ratio=%g)" % (h, w), 1e-5)
    same(du().scale_intrinsics(x, w_ratio=w, h_ratio=h), want, "scale_intrinsics by name", 1e-5)
    back = du().scale_intrinsics(out, 1.0 / h, 1.0 / w)
    same(back, a, "scaling back", 1e-4)
    unchanged(x, b)
    out[...] = -1
    unchanged(x, b, "input, by a later change of the result,")
    return "%s %dx%d" % (dt, size, size), 3


def warn_cases():
    for size in (3, 4):
        for i in {2, size - 1}:
            for ld in ((), (2,)):
                for np_ in (True, False):
                    yield "%d/%d/%s/%s" % (size, i, ld, np_), (size, i, ld, np_)


def check_warn(case):
    size, i, ld, np_ = case
    a = np.broadcast_to(np.eye(size), ld + (size, size)).copy()
    (a if not ld else a[-1])[i, i] = 2.0
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        du().scale_intrinsics(a if np_ else torch.from_numpy(a), 2, 2)
    expect(len(rec) > 0, "no warning for an entry of 2 at [%d, %d]" % (i, i))
    return "warned"


# ------------------------------------------------------------------ point-quaternions
def pq_cases():
    n = 0
    for i in range(len(QUATS)):
        for ld in ((), (1,), (3,), (2, 2), (1, 2, 1)) + (((150,), (4, 20)) if i % 8 == 0 else ()):
            for np_ in (True, False):
                n += 1
                yield "%d/%s/%s" % (i, ld, np_), (i, ld, np_, ("float32", "float64")[n // 2 % 2], False)
    for i in range(0, len(QUATS), 5):  # quaternions far from unit length
        for s in (1e-6, 1e-3, 0.99, 1.003, 40.0, 1e5):
            for np_ in (True, False):
                n += 1
                yield "%d/length %g/%s" % (i, s, np_), (i, ((), (3,), (2, 2))[n % 3], np_, ("float32", "float64")[(n // 2 + i) % 2], False, s)
    for i in range(80):
        yield "int/%d/np" % i, (i, (), True, "int64", False)
        yield "int/%d/torch" % i, (i, (2,) if i % 2 and i < 79 else (), False, "int64", False)
    for ld in ((), (3,), (2, 2)):
        for np_ in (True, False):
            yield "zero/%s/%s" % (ld, np_), (0, ld, np_, "float32", True)


def check_pq(case):
    i, ld, np_, dt, zero = case[:5]
    n = int(np.prod(ld, dtype=int))
    step = 1 if dt == "int64" else 13
    qs = [QUATS[(i + step * k) % (80 if dt == "int64" else len(QUATS))] for k in range(n)]
    ts = [TR[(i + k) % 5] for k in range(n)]
    a = np.array([np.concatenate([t, q]) for t, q in zip(ts, qs)])
    if zero:
        a[-1, 3:] = 0
    if len(case) > 5:
        a[:, 3:] *= case[5]
    a = a.reshape(ld + (7,)).astype(dt)
    x = a.copy() if np_ else torch.from_numpy(a.copy())
    b = snapshot(x)
    out = du().pointquaternion_to_homogeneous(x)
    kind(out, np_, None, None)
    want = np.array([se3(np.eye(3) if not any(r[3:]) else rot_of(r[3:]), r[:3]) for r in a.reshape(-1, 7).astype(float)]).reshape(ld + (4, 4))
    same(out, want, "pointquaternion_to_homogeneous", 1e-5)
    unchanged(x, b)
    neg = x.copy() if np_ else x.clone()
    neg[..., 3:] *= -1
    same(du().pointquaternion_to_homogeneous(neg), want, "transform of the opposite quaternion", 1e-5)
    out[...] = 5
    unchanged(x, b, "input, by a later change of the result,")
    return dt, 2


def eps_cases():
    for e in (1, "x", None):
        yield "eps %r" % (e,), (np.zeros(7), e, TypeError)
    for s in ((6,), (2, 8), (7, 1), (3, 4)):
        yield "np %s" % (s,), (np.zeros(s), 1e-12, ValueError)
        yield "torch %s" % (s,), (torch.zeros(s), 1e-12, ValueError)
    for k, x in enumerate(([0.0] * 7, "abc", None)):
        yield "type %d" % k, (x, 1e-12, TypeError)


def check_eps(case):
    x, e, exc = case
    raises(lambda: du().pointquaternion_to_homogeneous(x, e), (exc,))
    return "rejected"


# ------------------------------------------------------------------ poses
def pose_cases(tier="quick"):
    pool = range(8)
    for n in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        for idx in itertools.product(pool, repeat=n):
            for form in ("list", "array", "list32", "array32"):
                yield "%s/%s" % (idx, form), (idx, form)
    for n in (5, 12, 40, 130):
        for r in range(4):
            for form in ("list", "array", "list32", "array32"):
                yield "%d long/%d/%s" % (n, r, form), (tuple((i * (r + 1) + i * i // 3) % 8 for i in range(n)), form)
    yield "empty list", ((), "list")


POSES = [np.eye(4)] + [se3(rot_of(QUATS[k]), TR[k % 5]) for k in (5, 33, 60, 95, 170)]
POSES += [np.round(POSES[2], 1), np.round(POSES[4], 2) + 0.02 * np.diag([1.0, -1, 1, 0])]  # rotations with few digits, as read from files


def check_pose(case):
    idx, form = case
    dt = np.float32 if form.endswith("32") else np.float64
    lst = [POSES[i].astype(dt) for i in idx]
    x = lst if form.startswith("list") else np.stack(lst)
    b = snapshot(x)
    out = du().poses_to_transforms(x)
    expect(type(out) is type(x) and len(out) == len(x), "result is a %s of %d" % (type(out).__name__, len(out)))
    tol = 1e-4 if dt == np.float32 else 1e-9
    for k in range(len(idx)):
        want = np.eye(4) if k == 0 else np.linalg.solve(POSES[idx[k - 1]], POSES[idx[k]])
        same(out[k], want, "transform %d" % k, tol)
    unchanged(x, b, "the poses")
    if idx:
        acc = x[0]
        for k in range(1, len(idx)):
            acc = acc @ out[k] if k < 5 else np.asarray(x[k - 1], float) @ out[k]
            same(acc, POSES[idx[k]], "poses recomposed up to %d" % k, tol * 5)
        for o in out:
            o[...] = 9.0
        unchanged(x, b, "the poses, by a later change of the result,")
    return "%s of %d" % (form, len(idx))


# ------------------------------------------------------------------ label images
def label_cases():
    colors = [(0, 0, 0), (255, 1, 2), (3, 254, 5), (128, 64, 32), (9, 9, 9)]
    for K in (1, 2, 3, 5):
        for keys in ("names", "numbers"):
            for H, W in ((1, 1), (2, 2), (1, 3), (3, 1)):
                for lab in itertools.islice(itertools.product(range(K + 1), repeat=H * W), 0, 300):
                    yield "%d/%s/%dx%d/%s" % (K, keys, H, W, lab), (K, keys, H, W, lab, colors)


def check_label(case):
    K, keys, H, W, lab, colors = case
    pal = OrderedDict((("class%d" % k if keys == "names" else k), colors[k]) for k in range(K))
    a = np.array(lab).reshape(H, W).astype((np.int64, np.uint8, np.int32)[len(lab) % 3])
    b = a.copy()
    pb = OrderedDict(pal)
    out = du().create_label_image(a, pal)
    want = np.zeros((H, W, 3), np.uint8)
    for i in np.ndindex(H, W):
        if a[i] < K:
            want[i] = colors[a[i]]
    expect(isinstance(out, np.ndarray) and out.dtype == np.uint8 and out.shape == (H, W, 3), "label image has type %s, shape %s" % (getattr(out, "dtype", None), getattr(out, "shape", None)))
    same(out, want, "label image", 0)
    unchanged(a, b, "prediction")
    expect(list(pal.items()) == list(pb.items()), "palette modified")
    return "%d classes" % K


def big_label_cases():
    for K in (5, 30, 255):
        for H, W in ((16, 20), (48, 64), (64, 48)):
            for keys in ("names", "numbers"):
                colors = [((k * 37) % 256, (k * 91 + 5) % 256, k) for k in range(K)]
                i = np.arange(H * W)
                yield "big %d/%dx%d/%s" % (K, H, W, keys), (K, keys, H, W, tuple((i * 7 + i // W * 3) % (K + 1)), colors)


def bad_cases():
    D = lambda f, *a: (f, a)  # noqa: E731
    for k, x in enumerate(([0, 125], "abc", None, 5)):
        yield "normalize/%d" % k, (D("normalize_image", x), TypeError)
        yield "channels/%d" % k, (D("channels_first", x), TypeError)
        yield "scale/%d" % k, (D("scale_intrinsics", x, 1, 1), TypeError)
    for s in ((), (3,), (4, 5)):
        yield "channels/np%s" % (s,), (D("channels_first", np.zeros(s)), ValueError)
        yield "channels/torch%s" % (s,), (D("channels_first", torch.zeros(s)), ValueError)
    for s in ((3,), (4, 3), (3, 4), (2, 2), (2, 3, 4), (5, 5)):
        yield "scale/np%s" % (s,), (D("scale_intrinsics", np.ones(s), 1, 1), ValueError)
        yield "scale/torch%s" % (s,), (D("scale_intrinsics", torch.ones(s), 1, 1), ValueError)


def check_bad(case):
    (f, a), e = case
    raises(lambda: getattr(du(), f)(*a), (e,))
    return "rejected"


def sweeps(tier):
    return [("normalize", norm_cases, check_norm), ("channels", chan_cases, check_chan), ("scale", scale_cases, check_scale), ("scale warning", warn_cases, check_warn),
            ("pointquaternion", pq_cases, check_pq), ("pointquaternion rejected", eps_cases, check_eps), ("poses", lambda: pose_cases(tier), check_pose),
            ("labels", label_cases, check_label), ("large labels", big_label_cases, check_label), ("rejected", bad_cases, check_bad),
            purity.sweep(purecalls.utilities, tier)]


RULE = ("every image rank x number kind x container x memory layout (and all 256 levels); every intrinsics x ratio pair x rank; every quaternion of two value grids and near-0/near-pi rotations x leading shape; "
        "every sequence of up to 3 (thorough 4) poses of a pool; every labelling of small images; each compared entry by entry with its definition and with a later change of the result")


def main(tier, t0):
    return sweepcheck.run("C21", tier, t0, sweeps(tier), rule=RULE, bounds={"rank": "0..6", "poses": "0..3 (4), and up to 130", "images": "up to 480x640", "label images": "up to 2x2 / 3x1"},
                          assumptions=["poses are floating point", "class indices follow the order of the palette"])


def replay(doc):
    return sweepcheck.replay(doc, sweeps("thorough"))
