"""C28: computation follows the device of its inputs and gives there what it gives on the CPU.

The other device is lib/second: torch treats it as a device of its own and refuses to mix it with the CPU, its arithmetic is that of
the CPU.  Every call is made on the CPU and there, and compared."""
import copy as copying
import itertools
import warnings

import numpy as np
import torch

import mc
import purecalls as T
import second
import sweepcheck
from mc import Machine, expect, same
from pcmodel import R1, T1, T2, data, make
from purity import PC, RGBD, kind
from rgbdmodel import MAPS, images, intr, make_rgbd

CPU = torch.device("cpu")
DEV = second.load()


def mv(x, dev, how="to"):
    """x (arrays, tensors, clouds, images, lists of them) with every tensor on dev."""
    if dev == CPU:
        return x
    if torch.is_tensor(x):
        return x.to(dev)
    if kind(x) == "Pointclouds":
        if how == "to" or not x.has_points:
            return x.to(dev)
        kw = {a: getattr(x, a + "_list") for a in PC}
        kw = {a: None if v is None else [t.to(dev) if how == "tensors" else t for t in v] for a, v in kw.items()}
        return type(x)(**kw, **({"device": dev} if how == "device" else {}))
    if kind(x) == "RGBDImages":
        if how == "to":
            return x.to(dev)
        t = [getattr(x, a) for a in RGBD + ("pixel_pos",)]
        t = [None if v is None else v.to(dev) if how == "tensors" else v for v in t]
        return type(x)(*t[:-1], channels_first=x.channels_first, pixel_pos=t[-1], **({"device": dev} if how == "device" else {}))
    if isinstance(x, (list, tuple)):
        return type(x)(mv(y, dev, how) for y in x)
    return x


def parts(x, path="result"):
    """[(path, tensor or plain value, device it claims)] of everything a caller can read from a result."""
    if kind(x) == "Pointclouds":
        out = [(path + ".device", x.device)]
        for a in PC:
            for f in ("_list", "_padded"):
                out += parts(getattr(x, a + f), path + "." + a + f)
        return out + parts(x.nonpad_mask, path + ".nonpad_mask") + parts(x.num_points_per_pointcloud, path + ".num_points_per_pointcloud") + [(path + ".len", len(x))]
    if kind(x) == "RGBDImages":
        out = [(path + ".device", x.device), (path + ".shape", tuple(x.shape)), (path + ".channels_first", x.channels_first)]
        for a in RGBD + ("valid_depth_mask",) + MAPS + ("pixel_pos",):
            out += parts(getattr(x, a), path + "." + a)
        return out
    if isinstance(x, dict):
        return [y for k, v in x.items() for y in parts(v, "%s[%r]" % (path, k))]
    if isinstance(x, (list, tuple)):
        return [(path + ".length", len(x))] + [y for i, v in enumerate(x) for y in parts(v, "%s[%d]" % (path, i))]
    return [(path, x)]


def agree(got, want, dev, what, tol=1e-6):
    """got (computed on dev) is what want is, and is on dev."""
    g, w = parts(got), parts(want)
    expect([p for p, _ in g] == [p for p, _ in w], "%s: parts %s, on the CPU %s" % (what, [p for p, _ in g][:12], [p for p, _ in w][:12]))
    for (p, x), (_, y) in zip(g, w):
        p = p.replace("result", what, 1)
        if p.endswith(".device") or isinstance(y, torch.device):
            expect(x == dev, "%s is %s, expected %s" % (p, x, dev))
        elif torch.is_tensor(y):
            expect(torch.is_tensor(x), "%s is a %s, a tensor on the CPU" % (p, type(x).__name__))
            expect(x.device == dev, "%s is on %s, expected %s" % (p, x.device, dev))
            expect(x.dtype == y.dtype, "%s has type %s, on the CPU %s" % (p, x.dtype, y.dtype))
            expect(bool(x.requires_grad) == bool(y.requires_grad), "%s: requires_grad is %s, on the CPU %s" % (p, x.requires_grad, y.requires_grad))
            same(x, y, p, tol)
        elif isinstance(y, np.ndarray):
            same(x, y, p, tol)
        else:
            expect(type(x) is type(y) and (x == y or x != x and y != y), "%s is %r, on the CPU %r" % (p, x, y))


# ---------------------------------------------------------------- functions
def more():
    from gradslam.geometry import geometryutils as G, se3utils as E
    from gradslam.structures import structutils as S
    from gradslam.slam import fusionutils as U
    t, r, M, K = T.t, T.r, T.M, T.K
    F = T.F
    e = lambda v: [t(r(v, 6)), ]  # noqa: E731,F841
    return {
        "inverse_transfom_3d": F(G.inverse_transfom_3d, lambda v: [M(v, 2)]),
        "compose_transforms_3d": F(G.compose_transforms_3d, lambda v: [M(v, 2), M(1 - v, 2)]),
        "relative_transform_3d": F(G.relative_transform_3d, lambda v: [M(v, 2), M(1 - v, 2)]),
        "cam2pixel_KF": F(G.cam2pixel_KF, lambda v: [t(np.abs(r(v, 2, 3)) + 0.5), K(v, 2)]),
        "project_points batch": F(T.projection()["project_points"].f, lambda v: [t(np.abs(r(v, 2, 5, 3)) + 0.5), K(v, 2)]),
        "project_points zero": F(T.projection()["project_points"].f, lambda v: [t(r(v, 5, 3)) * 0, K(v)]),
        "unproject_points batch": F(T.projection()["unproject_points"].f, lambda v: [t(r(v, 2, 5, 2)), K(v, 2)[:, :3, :3].contiguous(), t(np.abs(r(v, 2, 5)))]),
        "map aggregate empty": F(lambda f: U.update_map_aggregate(__import__("gradslam").structures.Pointclouds(device=f.device), f), lambda v: [T.frame(v)]),
        "map fusion empty": F(lambda f: U.update_map_fusion(__import__("gradslam").structures.Pointclouds(device=f.device), f, 0.5, 0.5, 0.6), lambda v: [T.frame(v)]),
        "map aggregate inplace": F(lambda p, f: (U.update_map_aggregate(p, f, inplace=True), p), lambda v: [T.cloud(v, (4,), ("normals", "colors")), T.frame(v)]),
        "map fusion inplace": F(lambda p, f: (U.update_map_fusion(p, f, 0.5, 0.5, 0.6, inplace=True), p), lambda v: list(T.matched(v))),
        "find_active_map_points empty": F(U.find_active_map_points, lambda v: [type(T.cloud(0))(), T.frame(v)]),
        "find_correspondences empty": F(U.find_correspondences, lambda v: [type(T.cloud(0))(), T.frame(v), 0.5, 0.5]),
        "list_to_padded empty item": F(lambda a, b: S.list_to_padded([a, b]), lambda v: [t(r(v, 2, 3)), torch.zeros(0, 3)]),
        "so3_exp tiny": F(E.so3_exp, lambda v: [t(r(v, 3) * (1e-9, 0.0)[v])]),
        "se3_exp tiny": F(E.se3_exp, lambda v: [t(np.concatenate([r(v, 3), r(v, 3) * (1e-9, 0.0)[v]]))]),
        "find_active_map_points behind": F(U.find_active_map_points, lambda v: [T.cloud(v, (3,)) * -1.0, T.frame(v)]),
        "find_similar_map_points none": F(lambda p, f: U.find_similar_map_points(p, f, torch.zeros((0, 4), dtype=torch.int64, device=p.device), 0.5, 0.5), lambda v: list(T.matched(v))),
        "find_best_unique none": F(lambda p, f: U.find_best_unique_correspondences(p, f, torch.zeros((0, 4), dtype=torch.int64, device=p.device)), lambda v: list(T.matched(v))),
        "fuse_with_map none": F(lambda p, f: U.fuse_with_map(p, f, torch.zeros((0, 4), dtype=torch.int64, device=p.device), 0.6), lambda v: list(T.matched(v))),
    }


TABLES = {n: getattr(T, n) for n in ("algebra", "projection", "conversion", "search", "fusion", "icp", "gradicp", "gt", "downsampling", "lists", "utilities")}
TABLES["more"] = more


def from_tensors(f):
    return any(torch.is_tensor(x) or kind(x) in ("Pointclouds", "RGBDImages") for x in f.make(0))


def function_cases():
    for t, table in TABLES.items():
        for n, f in table().items():
            if not from_tensors(f):
                continue
            structs = any(kind(x) in ("Pointclouds", "RGBDImages") for x in f.make(0))
            for k in range(len(f.opts)):
                for v in (0, 1, "o") if f.other and k == 0 else (0, 1):
                    for how in ("to", "tensors", "device") if structs else ("to",):
                        for grad in (False, True):
                            for dt in ("float32", "float64") if not structs else ("float32",):
                                yield "%s/%s/%s/%s/%s/%s/%s" % (t, n, f.opts[k], v, how, "gradient" if grad else "value", dt), (t, n, k, v, how, grad, dt)


def leaves(x):
    return [p for p in parts(x) if torch.is_tensor(p[1]) and p[1].is_floating_point() and p[1].requires_grad]


def require(x):
    """Make every floating point input a leaf which collects a gradient; returns (x, leaves)."""
    if torch.is_tensor(x):
        if x.is_floating_point():
            x = x.detach().requires_grad_()
            return x, [x]
        return x, []
    if kind(x) == "Pointclouds":
        kw, ls = {}, []
        for a in PC:
            v = getattr(x, a + "_list")
            if v is not None:
                kw[a] = [t.detach().clone().requires_grad_() for t in v]
                ls += kw[a]
        return (type(x)(**kw), ls) if kw else (x, [])
    if kind(x) == "RGBDImages":
        ts = [getattr(x, a) for a in RGBD]
        ts = [None if v is None else v.detach().clone().requires_grad_() for v in ts]
        return type(x)(*ts, channels_first=x.channels_first), [v for v in ts if v is not None]
    return x, []


def cast(x, dt):
    return x.to(dt) if torch.is_tensor(x) and x.is_floating_point() else x


_T = {}


def outcome(f, args, kw, dev, how, grad):
    ls = []
    if grad:
        args, ls = zip(*[require(x) for x in args])
        ls = sum(ls, [])
    args = [mv(x, dev, how) for x in args]
    out = f.f(*args, **kw)
    if grad:
        tot = None
        for i, (p, x) in enumerate(leaves(out)):
            w = torch.arange(x.numel(), dtype=torch.float64).mul(0.37 + i).cos().to(x.dtype).view(x.shape).to(x.device)
            s = (x * w).sum()
            tot = s if tot is None else tot + s
        if tot is not None:
            tot.backward()
    return out, args, [x.grad for x in ls]


def check_function(case):
    t, n, k, v, how, grad, dt = case
    if t not in _T:
        _T[t] = TABLES[t]()
    f = _T[t][n]
    mk = (lambda: f.other()) if v == "o" else (lambda: f.make(v))
    if dt == "float64":
        mk0 = mk
        mk = lambda: [cast(x, torch.float64) for x in mk0()]  # noqa: E731
    kw = {} if v == "o" else f.opts[k]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            want, _, gw = outcome(f, mk(), kw, CPU, how, grad)
        except Exception as e:  # not an input this function takes (number kinds mixed): must be refused there too
            want = e
        try:
            got, args, gg = outcome(f, mk(), kw, DEV, how, grad)
        except Exception as e:
            if isinstance(want, Exception):
                return "refused", 1
            raise mc.Mismatch("fails on another device: %s" % mc.short_exc(e))
        expect(not isinstance(want, Exception), "works on another device although it fails on the CPU (%s)" % (want if isinstance(want, Exception) else ""))
        agree(got, want, DEV, n)
        agree(args, mk() if "inplace" not in n and not grad else mv(args, CPU), DEV, "arguments of " + n) if "inplace" not in n and not grad else None
        expect(len(gg) == len(gw), "number of gradients")
        for i, (a, b) in enumerate(zip(gg, gw)):
            expect((a is None) == (b is None), "gradient of input %d: %s, on the CPU %s" % (i, "none" if a is None else "present", "none" if b is None else "present"))
            if b is not None:
                same(a, b, "gradient of input %d" % i, 1e-5)
    return t, 2


# ---------------------------------------------------------------- histories of containers which move
class Both:
    def __init__(self, x):
        self.x, self.old = x, None


def tens(v, like):
    return torch.tensor(np.asarray(v), dtype=torch.float32).to(like.device)


class Shadow:
    """The same history without any move."""

    def __init__(self, x):
        self.x, self.dev, self.old = x, "cpu", None


class Moves(Machine):
    """A container which is moved between devices, against one that goes through the same history on the CPU."""

    def __init__(self, name, new, kindname, start):
        self.name, self.new, self.kind, self.start = name, new, kindname, start
        self.ops = {}
        for n, d in (("to second", "second"), ("to second:0", torch.device("second:0")), ("to cpu", "cpu"), ("cpu()", None)):
            for c in (False, True) if d is not None else (None,):
                self.move(n + {False: "", True: " copy", None: ""}[c], d, c)
        for n, f in (CLOUD if kindname == "cloud" else IMAGES).items():
            self.both(n, f)

    def build(self):
        x = self.new()
        s, m = Both(x), Shadow(self.new())
        if self.start == "device":
            s.x, m.dev = mv(x, DEV, "device"), "second"
        elif self.start == "tensors":
            s.x, m.dev = mv(x, DEV, "tensors"), "second"
        return s, m

    def model_key(self, m):
        return mc.fingerprint([m.x, m.dev, m.old])

    def move(self, name, d, c):
        target = "second" if d is not None and str(d).startswith("second") else "cpu"

        def model(m, a):
            m.old = None if m.dev == target and not c else (m.dev, copying.deepcopy(m.x) if not any(t.requires_grad for _, t in parts(m.x) if torch.is_tensor(t)) else m.x.clone())
            here, m.dev = m.dev == target, target
            return ("ok", lambda got: expect(got is (here and not c), "%s on a container %s: the container itself was %sreturned" % (name, "there" if here else "elsewhere", "" if got else "not ")))

        def impl(s, a):
            y = s.x.cpu() if d is None else s.x.to(d) if not c else s.x.to(d, copy=True)
            r = y is s.x
            s.old, s.x = (None if r else s.x), y
            return r
        self.add(name, model, impl, None, lambda m: True)

    def both(self, name, f):
        def model(m, a):
            try:
                m.x = f(m.x)
                m.old = None
            except Exception as e:  # noqa: BLE001
                return ("raise", (type(e),))
            return ("ok", None)

        def impl(s, a):
            s.x = f(s.x)
            s.old = None
        self.add(name, model, impl)

    def observe(self, s, m):
        agree(s.x, m.x, DEV if m.dev == "second" else CPU, self.kind)
        if s.old is not None:
            agree(s.old, m.old[1], DEV if m.old[0] == "second" else CPU, "the container that was moved")


def pads(x, a, k):
    """New values for one attribute in padded form, zero where there are no points."""
    p = getattr(x, a + "_padded")
    return (p * k + 0.25) * x.nonpad_mask.unsqueeze(-1).to(p.dtype)


def setting(a, form, k):
    def f(x):
        if form == "list":
            setattr(x, a + "_list", [p * k + 0.25 for p in getattr(x, a + "_list")])
        else:
            setattr(x, a + "_padded", pads(x, a, k))
        return x
    return f


def reading(*names):
    def f(x):
        for n in names:
            getattr(x, n)
        return x
    return f


def foreign(x):
    """Values from the other device: taken over or refused."""
    other = CPU if x.device != CPU else DEV
    try:
        x.points_list = [p.to(other) for p in x.points_list]
    except (ValueError, RuntimeError):
        pass
    return x


def foreign_append(x):
    """Clouds on another device are refused."""
    if x.device == CPU:
        y = x.to(DEV)
    else:
        y = x.to(CPU)
    try:
        x.append_points(y)
    except ValueError:
        return x
    raise mc.Mismatch("a batch on another device was appended")


def inplace(n, *a):
    def f(x):
        getattr(x, n)(*[tens(v, x) if isinstance(v, np.ndarray) else v for v in a])
        return x
    return f


def into_new(x):
    y = type(x)(device=x.device)
    y.append_points(x)
    return y


def fused(x):
    from gradslam.slam.fusionutils import update_map_aggregate
    f = make_rgbd(images(len(x), 1, 2, 2, zeros=(1,)))
    return update_map_aggregate(x, f.to(x.device))


KK = intr(2.0, 3.0, 0.5, 1.0)
CLOUD = {
    "read padded": reading("points_padded", "colors_padded"),
    "read lists": reading("points_list", "normals_list"),
    "read mask": reading("nonpad_mask", "num_points_per_pointcloud"),
    "points_list=": setting("points", "list", 2.0),
    "points_padded=": setting("points", "padded", 0.5),
    "normals_list=": setting("normals", "list", -1.0),
    "colors_padded=": setting("colors", "padded", 0.75),
    "features_padded=": setting("features", "padded", 1.5),
    "points_list= elsewhere": foreign,
    "append elsewhere": foreign_append,
    "offset_": inplace("offset_", np.array([1.0, 2.0, -0.5])),
    "scale_": inplace("scale_", 2.0),
    "rotate_": inplace("rotate_", R1),
    "transform_": inplace("transform_", T1),
    "transform": lambda x: x.transform(tens(T2, x)),
    "+": lambda x: x + 0.5,
    "@": lambda x: x @ tens(R1, x),
    "pinhole": lambda x: x.pinhole_projection(tens(KK, x)),
    "append": lambda x: (x.append_points(x.clone()), x)[1],
    "into new": into_new,
    "[0]": lambda x: x[0],
    "[mask]": lambda x: x[torch.arange(len(x)) % 2 == 0],
    "[mask there]": lambda x: x[(torch.arange(len(x)) % 2 == 0).to(x.device)],
    "[long there]": lambda x: x[torch.arange(len(x)).flip(0).to(x.device)],
    "[1:]": lambda x: x[1:],
    "clone": lambda x: x.clone(),
    "detach": lambda x: x.detach(),
    "fused": fused,
}


def put(a, k):
    def f(x):
        setattr(x, a, getattr(x, a) * k if a != "poses" else getattr(x, a) @ tens(T1, x))
        return x
    return f


def no_poses(x):
    x.poses = None
    return x


def given_poses(x):
    B, L = x.shape[:2]
    x.poses = tens(np.broadcast_to(T2, (B, L, 4, 4)).copy(), x)
    return x


def to_map(x):
    from gradslam.structures.utils import pointclouds_from_rgbdimages
    pc = pointclouds_from_rgbdimages(x[:, 0])
    x.depth_image = x.depth_image * (1 + pc.points_padded.sum().to(x.depth_image.dtype).sin() / 8)
    return x


IMAGES = {
    "read vertex": reading("vertex_map"),
    "read normal": reading("normal_map"),
    "read global vertex": reading("global_vertex_map"),
    "read global normal": reading("global_normal_map"),
    "read mask": reading("valid_depth_mask"),
    "depth=": put("depth_image", 1.5),
    "rgb=": put("rgb_image", 0.5),
    "intrinsics=": put("intrinsics", 2.0),
    "poses=": put("poses", None),
    "poses=None": no_poses,
    "poses given": given_poses,
    "first_": lambda x: (x.to_channels_first_(), x)[1],
    "last_": lambda x: (x.to_channels_last_(), x)[1],
    "first": lambda x: x.to_channels_first(copy=True),
    "last": lambda x: x.to_channels_last(),
    "[:, 0]": lambda x: x[:, 0],
    "[0]": lambda x: x[0],
    "[:, -1:]": lambda x: x[:, -1:],
    "clone": lambda x: x.clone(),
    "detach": lambda x: x.detach(),
    "to map": to_map,
}


def cloud_new(counts, attrs, form):
    return lambda: make(data(counts, attrs) if counts else {}, form)


def image_new(B, L, poses, cf, pix=False, grad=False):
    def f():
        m = images(B, L, 2, 3, zeros=(1,), poses=poses, cf=cf)
        if not pix:
            return make_rgbd(m, requires_grad=grad)
        uv = np.broadcast_to(np.stack([*np.meshgrid(np.arange(3.0), np.arange(2.0)), np.ones((2, 3))], -1), (B, L, 2, 3, 3)).copy() + 0.25
        return make_rgbd(m, pixel_pos=torch.tensor(uv, dtype=torch.float32))
    return f


A = ("normals", "colors", "features")
CONFIGS = [("cloud/%s/%s/%s" % (c, f, s), cloud_new(c, A, f), "cloud", s)
           for c, f in (((2, 1), "list"), ((2, 2), "padded")) for s in ("cpu", "device", "tensors")]
CONFIGS += [("cloud/empty item/list/cpu", cloud_new((2, 0), A, "list"), "cloud", "cpu"), ("cloud/bare/list/cpu", cloud_new((1, 3), (), "list"), "cloud", "cpu"),
            ("cloud/nothing", cloud_new(None, (), "empty"), "cloud", "cpu")]
CONFIGS += [("images/%d/%d/%s/%s/%s" % (B, L, p, cf, s), image_new(B, L, p, cf), "images", s)
            for B, L, p, cf, s in ((2, 2, True, False, "cpu"), (2, 1, True, True, "cpu"), (1, 2, False, False, "cpu"), (2, 2, True, False, "device"), (2, 1, True, False, "tensors"), (1, 1, False, True, "device"))]
CONFIGS += [("images/pixel_pos/" + s, image_new(2, 2, True, False, True), "images", s) for s in ("cpu", "device", "tensors")]


# ---------------------------------------------------------------- slam
def slam(cls, odom, device, **kw):
    from gradslam.slam import ICPSLAM, PointFusion
    if device is not None:
        kw["device"] = device
    return (PointFusion if cls == "PointFusion" else ICPSLAM)(odom=odom, numiters=2, dsratio=1, **kw)


DEVS = {"none": None, "second": "second", "second:0": "second:0", "device": torch.device("second:0"), "device without index": torch.device("second"), "cpu": "cpu"}


def slam_cases(tier):
    for cls, odom, (B, L), poses, cf in itertools.product(("ICPSLAM", "PointFusion"), ("gt", "icp", "gradicp"), ((1, 2), (2, 3)), (True, False), (False, True)):
        if odom == "gt" and not poses:
            continue
        for dev, at in itertools.product(DEVS, ("cpu", "second")):
            yield "forward/%s/%s/%d/%d/%s/%s/%s/%s" % (cls, odom, B, L, poses, cf, dev, at), ("forward", cls, odom, B, L, poses, cf, dev, at)
        for dev in DEVS:
            if dev in ("none", "cpu"):
                continue
            for how, inp in itertools.product(("to", "tensors", "device"), (False, True)):
                yield "steps/%s/%s/%d/%d/%s/%s/%s/%s/%s" % (cls, odom, B, L, poses, cf, dev, how, inp), ("steps", cls, odom, B, L, poses, cf, dev, (how, inp))


def run_slam(case, dev, at, want):
    from gradslam.structures import Pointclouds
    mode, cls, odom, B, L, poses, cf, _, how = case
    m = images(B, L, 3, 4, zeros=(5,), poses=poses, cf=cf)
    f = make_rgbd(m)
    s = slam(cls, odom, dev)
    if mode == "forward":
        f = mv(f, at)
        before = [None if getattr(f, a) is None else getattr(f, a).clone() for a in RGBD]
        out = s(f)
        if not want:
            expect(f.device == at, "the frames given to the run are on %s now" % f.device)
            for a, b in zip(RGBD, before):
                c = getattr(f, a)
                if b is not None:
                    expect(c.device == at and torch.equal(c.cpu(), b.cpu()), "%s of the frames given to the run has changed" % a)
        return out
    where, inp = how
    f = mv(f, at, where)
    pc, prev, out = Pointclouds(device=at), None, []
    for i in range(L):
        live = f[:, i]
        if i == 0 and not poses:
            live.poses = torch.eye(4, device=at).view(1, 1, 4, 4).repeat(B, 1, 1, 1)
        pc, p = s.step(pc, live, prev, inplace=inp)
        out.append(p)
        live.poses = p
        prev = live
    return pc, out


def check_slam(case):
    mode, cls, odom, B, L, poses, cf, d, how = case
    want = run_slam(case, None, CPU, True)
    dev = CPU if d in ("none", "cpu") else DEV
    at = CPU if how == "cpu" else DEV
    got = run_slam(case, DEVS[d], at, False)
    agree(got, want, dev, mode, 1e-5)
    return "%s %s" % (mode, odom), L


# ---------------------------------------------------------------- devices as arguments
def argument_cases():
    for k, x, d in itertools.product(("list", "padded", "images", "images cf", "nothing"), ("cpu", "second"), [n for n in DEVS]):
        yield "construct/%s/%s/%s" % (k, x, d), ("construct", k, x, d)
    for k, x in itertools.product(("list", "padded", "images"), ("cpu", "second")):
        yield "cuda/%s/%s" % (k, x), ("cuda", k, x, None)
        yield "mixed/%s/%s" % (k, x), ("mixed", k, x, None)


def check_argument(case):
    from gradslam.structures import Pointclouds, RGBDImages
    mode, k, at, d = case
    a = CPU if at == "cpu" else DEV
    dev = a if d in (None, "none") else CPU if d == "cpu" else DEV
    if k == "nothing":
        x = Pointclouds(device=DEVS[d]) if d != "none" else Pointclouds()
        dev = CPU if d in ("none", "cpu") else DEV
        expect(x.device == dev, "an empty batch for %s is on %s" % (dev, x.device))
        x.append_points(mv(make(data((2, 1))), dev, "tensors"))
        agree(x, make(data((2, 1))), dev, "filled batch")
        return mode, 2
    if k.startswith("images"):
        ref = make_rgbd(images(2, 2, 2, 3, zeros=(1,), cf=k.endswith("cf")))
        ts = [getattr(ref, n) for n in RGBD]
        new = lambda ts, **kw: RGBDImages(*ts, channels_first=ref.channels_first, **kw)  # noqa: E731
    else:
        ref = make(data((2, 2)), k)
        ts = [getattr(ref, n + ("_list" if k == "list" else "_padded")) for n in PC]
        new = lambda ts, **kw: Pointclouds(*ts, **kw)  # noqa: E731
    there = [mv(t, a) for t in ts]
    if mode == "cuda":
        x = new(there)
        try:
            y = x.cuda()
        except (RuntimeError, AssertionError):
            agree(x, ref, a, "batch")
            return mode, 1
        raise mc.Mismatch("cuda() gave a batch on %s although there is no such device" % y.device)
    if mode == "mixed":
        for i in range(1, len(ts)):
            other = list(there)
            other[i] = mv(ts[i], DEV) if a == CPU else ts[i]
            try:
                x = new(other)
            except (ValueError, RuntimeError, TypeError):
                continue
            agree(x, ref, a, "batch of parts from two devices")
        return mode, len(ts) - 1
    x = new(there, **({} if d == "none" else {"device": DEVS[d]}))
    agree(x, ref, dev, "batch")
    for t, u in zip(there, ts):
        agree([t], [u], a, "argument")
    return mode, 1


def sweeps(tier):
    return [("functions", function_cases, check_function), ("slam", lambda: slam_cases(tier), check_slam), ("arguments", argument_cases, check_argument)]


def machines(tier):
    return [(Moves, CONFIGS, 2 if tier == "quick" else 3)]


RULE = ("every function and method that takes tensors, clouds or images x its options x argument values, called on the CPU and on a second device that refuses to be mixed with it (values and gradients); "
        "every history of moves, reads, assignments and operations of a container against the same history without moves; every SLAM class x odometry x device argument x place of the frames")


def main(tier, t0):
    return sweepcheck.run("C28", tier, t0, sweeps(tier), machines(tier), rule=RULE, bounds={"depth": 2 if tier == "quick" else 3},
                          assumptions=["the second device has host memory and the CPU's arithmetic: what is decided is where tensors live and that values do not depend on it, not CUDA's own rounding"])


def replay(doc):
    return sweepcheck.replay(doc, sweeps("thorough"), machines("thorough"))
