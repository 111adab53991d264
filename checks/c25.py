"""C25: gradients through every stage equal the derivative of the computed values, and are zero where nothing matters."""
import contextlib
import itertools

import numpy as np
import torch

import sweepcheck
from fusionmodel import Borderline
from gradmodel import Graph
from mc import Mismatch, expect
from pcmodel import T1, T2, axis_angle, se3
from rgbdmodel import RM, intr

@contextlib.contextmanager
def double():
    """Single-precision-only third-party code (nearest neighbours) and constants run in double precision."""
    import chamferdist.chamfer as ch

    class Double:
        def __getattr__(self, name):
            return getattr(real, name)

        @staticmethod
        def knn_points_idx(p1, p2, l1, l2, K, version):
            if p1.dtype != torch.float64:
                return real.knn_points_idx(p1, p2, l1, l2, K, version)
            d = ((p1[:, :, None] - p2[:, None]) ** 2).sum(-1)
            d, i = d.sort(dim=2, stable=True)
            return i[..., :K].contiguous(), d[..., :K].contiguous()

    real, ch._C = ch._C, Double()
    torch.set_default_dtype(torch.float64)
    try:
        yield
    finally:
        ch._C = real
        torch.set_default_dtype(torch.float32)


KS = [intr(3.0, 3.4, 1.1, 0.9), intr(2.6, 3.1, 0.8, 1.2)]
TB = [se3(axis_angle([0.2, 1, -0.3], 0.8), [0.5, -1.0, 2.0]), se3(axis_angle([1, 0.3, 0.4], -1.1), [-0.5, 0.3, 1.0])]


def depth_of(H, W, s=0):
    v, u = np.mgrid[0:H, 0:W].astype(float)
    return 2.0 + 0.3 * np.sin(1.9 * u + 0.7 * v + s) + 0.25 * np.cos(1.3 * v * u + 0.5 * s) + 0.17 * u + 0.11 * v


def holes_of(H, W):
    for t in itertools.product((1.0, 0.0), repeat=H * W):
        yield np.array(t).reshape(H, W)


def frames(depths, poses, cf, seed=0, move=1.0):
    """depths: B x L arrays (H, W)."""
    d = np.array(depths, dtype=float)[..., None]
    B, L = d.shape[:2]
    rgb = (np.arange(d.size * 3).reshape(d.shape[:-1] + (3,)) * 7 % 31 + seed) / 31.0
    P = None
    if poses:
        P = np.stack([np.stack([TB[b % 2] @ se3(axis_angle([0.3, 1.0, 0.2], 0.05 * l * move), [0.03 * l * move, -0.02 * l * move, 0.01 * l * move]) for l in range(L)]) for b in range(B)])
    return RM(rgb, d, np.stack([KS[b % 2] for b in range(B)])[:, None], P, cf)


def leaves_of(m):
    out = {"rgb": m.lay(m.rgb), "depth": m.lay(m.depth), "intrinsics": m.K}
    if m.poses is not None:
        out["poses"] = m.poses
    return out


def rgbd(ts, cf):
    from gradslam.structures.rgbdimages import RGBDImages
    return RGBDImages(ts["rgb"], ts["depth"], ts["intrinsics"], ts.get("poses"), channels_first=cf)


MAPS = ("vertex_map", "normal_map", "global_vertex_map", "global_normal_map")


def smooth_normals(m):
    """Pixels whose normal is a smooth function of the depths (its direction is determined)."""
    return ~m.ill() & m.valid()[..., 0] & (np.linalg.norm(m.normal(), axis=-1) > 0.5)


def zero_masks(m):
    hole = m.lay(~m.valid())
    return {"depth": hole}


# ------------------------------------------------------------------ maps
def map_cases(tier):
    n = 0
    for H, W in ((2, 2), (2, 3)) + (((3, 3),) if tier == "thorough" else ()):
        for hi, p in enumerate(holes_of(H, W)):
            for cf in (False, True):
                for poses in (True, False):
                    n += 1
                    if (H, W) == (2, 3) and tier == "quick" and n % 2:
                        continue
                    yield "%dx%d/%d/cf%d/p%d" % (H, W, hi, cf, poses), ([[p * depth_of(H, W)]], cf, poses)
    ps = list(holes_of(2, 2))
    for i, j in itertools.product(range(16), repeat=2):
        if tier == "thorough" or (i + 3 * j) % 5 == 0:
            yield "batch/%d/%d" % (i, j), ([[ps[i] * depth_of(2, 2), ps[j] * depth_of(2, 2, 1)], [ps[j] * depth_of(2, 2, 2), ps[15 - i] * depth_of(2, 2, 3)]], bool(i % 2), j % 3 > 0)


def check_maps(case):
    depths, cf, poses = case
    m = frames(depths, poses, cf)
    ok = smooth_normals(m)
    # where the normal is undetermined it may jump; an undetermined normal of a neighbour does not matter here
    keepn = m.lay(np.repeat(ok[..., None], 3, -1))

    def f(ts):
        r = rgbd(ts, cf)
        return [(k, getattr(r, k)) for k in MAPS] + [("rgb_image", r.rgb_image), ("depth_image", r.depth_image * m_valid)]

    m_valid = torch.as_tensor(m.lay(m.valid()).astype(float))
    g = Graph(f, leaves_of(m))
    return "maps", g.check(keep={"normal_map": keepn, "global_normal_map": keepn}, zero=zero_masks(m))


# ------------------------------------------------------------------ frames to clouds, through either view
def cloud_outs(pc, view, what="", skip_normals=False):
    out = []
    for a in ("points", "normals", "colors", "features"):
        if skip_normals and a == "normals":
            continue
        if view == "list":
            v = getattr(pc, a + "_list")
            out += [] if v is None else [("%s%s_list[%d]" % (what, a, b), x) for b, x in enumerate(v)]
        else:
            v = getattr(pc, a + "_padded")
            out += [] if v is None else [("%s%s_padded" % (what, a), v)]
    return out


def rows_keep(m, ok, filt):
    """Keep masks of the normals of the clouds made of m (length 1), as lists and padded."""
    out = {}
    rows = [ok[b, 0].reshape(-1)[(m.valid()[b, 0, ..., 0].reshape(-1) if filt else slice(None))] for b in range(m.shape[0])]
    n = max(len(r) for r in rows)
    P = np.zeros((len(rows), n, 3))
    for b, r in enumerate(rows):
        out["normals_list[%d]" % b] = r[:, None]
        P[b, : len(r)] = r[:, None]
    out["normals_padded"] = P
    return out


def convert_cases(tier):
    n = 0
    for H, W in ((2, 2), (2, 3)):
        for hi, p in enumerate(holes_of(H, W)):
            for glob, filt, cf, view in itertools.product((True, False), (True, False), (True, False), ("list", "padded")):
                n += 1
                if (H, W) == (2, 3) and (tier == "quick" and n % 8 != hi % 8):
                    continue
                yield "%dx%d/%d/g%d/f%d/cf%d/%s" % (H, W, hi, glob, filt, cf, view), ([[p * depth_of(H, W)]], glob, filt, cf, view)
    ps = list(holes_of(2, 2))
    for i, j in itertools.product(range(16), repeat=2):
        if tier == "thorough" or (i + 5 * j) % 4 == 0:
            yield "batch/%d/%d" % (i, j), ([[ps[i] * depth_of(2, 2)], [ps[j] * depth_of(2, 2, 2)]], True, bool((i + j) % 3), bool(i % 2), ("list", "padded")[j % 2])


def check_convert(case):
    from gradslam.structures.utils import pointclouds_from_rgbdimages
    depths, glob, filt, cf, view = case
    m = frames(depths, True, cf)
    keep = rows_keep(m, smooth_normals(m), filt)

    def f(ts):
        return cloud_outs(pointclouds_from_rgbdimages(rgbd(ts, cf), global_coordinates=glob, filter_missing_depths=filt), view)

    zero = zero_masks(m)
    if filt:
        zero["rgb"] = m.lay(np.repeat(~m.valid(), 3, -1))
    return "clouds", Graph(f, leaves_of(m)).check(keep=keep, zero=zero)


# ------------------------------------------------------------------ mapping with known poses
def mapping_cases(tier):
    ps = list(holes_of(2, 3))
    pick = [0, 1, 5, 10, 20, 33, 42, 51, 62, 63] if tier == "quick" else range(64)
    for i in pick:
        for j in (0, 9, 36) if tier == "quick" else (0, 3, 9, 18, 36, 63):
            for cls in ("aggregate", "fusion"):
                for cf, view in ((False, "list"), (True, "padded")):
                    for steps in (False, True) if j == 0 else (False,):
                        yield "2/%d/%d/%s/%s%s" % (i, j, cls, view, "/by steps" * steps), ([[ps[i] * depth_of(2, 3), ps[j] * (depth_of(2, 3) + 0.02)]], cls, cf, view, 1.5, steps)
    for i in (0, 12, 40) if tier == "quick" else range(0, 64, 5):
        for cls in ("aggregate", "fusion"):
            d = [[ps[i] * depth_of(2, 3), ps[0] * (depth_of(2, 3) + 0.02), ps[(i * 3 + 1) % 64] * (depth_of(2, 3) - 0.03)],
                 [ps[(i + 7) % 64] * depth_of(2, 3, 1), ps[i] * (depth_of(2, 3, 1) + 0.01), ps[2] * (depth_of(2, 3, 1) + 0.03)]]
            for view in ("list", "padded"):
                yield "3x2/%d/%s/%s" % (i, cls, view), (d, cls, False, view)
            yield "3x2/%d/%s/by steps" % (i, cls), (d, cls, True, "list", 1.5, True)
            if cls == "fusion":  # confidences well beyond one
                yield "3x2/%d/%s/wide" % (i, cls), (d, cls, bool(i % 8), "list", 4.0)


def run_slam(slam, r, steps):
    """The whole sequence at once, or frame by frame out of place (the earlier maps stay as they are)."""
    if not steps:
        return slam(r)
    from gradslam.structures.pointclouds import Pointclouds
    pc, prev, poses = Pointclouds(), None, []
    for s in range(r.shape[1]):
        live = r[:, s]
        pc, p = slam.step(pc, live, prev)
        live.poses = p
        prev = live if slam.odom != "gt" else None
        poses.append(p)
    return pc, torch.cat(poses, 1)


def check_mapping(case):
    depths, cls, cf, view = case[:4]
    steps = len(case) > 5 and case[5]
    m = frames(depths, True, cf, move=0.2)
    m.rough = not (smooth_normals(m) | ~m.valid()[..., 0]).all()
    slam = slam_of(cls, sigma=case[4] if len(case) > 4 else 1.5)

    size = []

    def f(ts):
        pc, poses = run_slam(slam, rgbd(ts, cf), steps)
        size.append(sum(len(x) for x in pc.points_list))
        return cloud_outs(pc, view, skip_normals=m.rough) + [("recovered poses", poses)]

    zero = dict(zero_masks(m), rgb=m.lay(np.repeat(~m.valid(), 3, -1)))
    if m.rough and cls == "fusion":
        # an undetermined normal decides correspondences: only finiteness is claimed
        g = Graph(f, leaves_of(m)).grads(list(leaves_of(m)))
        for k, v in g.items():
            expect(v is None or np.isfinite(v).all(), "gradient of %s is not finite" % k)
            expect(v is None or (v[np.broadcast_to(zero.get(k, False), v.shape)] == 0).all(), "gradient of %s is not zero at missing depth" % k)
        return "finite, %smerged" % ("" if size[0] < m.valid().sum() else "nothing "), 1
    n = Graph(f, leaves_of(m)).check(zero=zero)
    return cls + ("" if cls != "fusion" else ", %d%% merged" % round(100 - 100 * size[0] / max(1, m.valid().sum()), -1)), n


def slam_of(cls, odom="gt", sigma=1.5, **kw):
    from gradslam.slam.icpslam import ICPSLAM
    from gradslam.slam.pointfusion import PointFusion
    if cls == "aggregate":
        return ICPSLAM(odom=odom, **kw)
    return PointFusion(odom=odom, dist_th=0.15, angle_th=60, sigma=sigma, **kw)


# ------------------------------------------------------------------ localisation and the full pipeline
def odom_cases(tier):
    for alg in ("icp", "gradicp"):
        for n in (1, 2, 3) if tier == "quick" else range(1, 6):
            for damp in (1e-3, 0.5, 3.0):
                for th in (None, 0.6):
                    for start in (0, 1, 2):
                        yield "%s/%d/%s/%s/%d" % (alg, n, damp, th, start), (alg, n, damp, th, start)


def check_odom(case):
    from gradslam.odometry.icputils import point_to_plane_gradICP, point_to_plane_ICP
    alg, n, damp, th, start = case
    i = np.arange(7.0)
    tgt = np.stack([np.cos(1.3 * i) * 1.5, np.sin(0.9 * i) * 1.2 + 0.3 * i, 0.5 * i - 1 + 0.4 * np.cos(2.2 * i)], 1)
    nrm = np.stack([np.sin(i), np.cos(1.7 * i), 0.6 + 0.3 * np.sin(2.5 * i)], 1)
    src = tgt[:6] + 0.05 * np.stack([np.sin(3 * i[:6]), np.cos(2 * i[:6]), np.sin(i[:6] + 1)], 1)
    if start == 2:
        src = tgt[:6].copy()  # perfectly aligned already
    T = None if start == 0 else se3(axis_angle([1.0, 0.4, -0.2], 0.02), [0.01, -0.02, 0.015]) if start == 1 else np.eye(4)

    def f(ts):
        init = None if T is None else ts["start"]
        a = (ts["source"][None], ts["target"][None], ts["normals"][None], init, n, damp, th)
        if alg == "icp":
            out = point_to_plane_ICP(*a)[0]
        else:
            out = point_to_plane_gradICP(*a, 2.0, 1.0, 1.0, 200.0)[0]
        return [("transform", out)]

    leaves = {"source": src, "target": tgt, "normals": nrm}
    if T is not None:
        leaves["start"] = T
    g = Graph(f, leaves)
    if start == 2 and n and alg == "icp":
        for k, v in g.grads(list(leaves)).items():  # whether a zero step improves is decided by rounding
            expect(v is None or np.isfinite(v).all(), "gradient of %s is not finite: %s" % (k, v))
        return "finite", 1
    return alg, g.check(tol=1e-4)


PIPE = {"icp": dict(odom="icp"), "gradicp": dict(odom="gradicp")}


def pipe_cases(tier):
    ps = list(holes_of(3, 4))
    for cls, odom in itertools.product(("aggregate", "fusion"), PIPE):
        for i in (0, 1040, 2, 65) if tier == "quick" else range(0, 4096, 97):
            if ps[i].sum() < 7:
                continue
            for B in (1, 2):
                if B == 2 and i > 2 and tier == "quick":
                    continue
                for steps in (False, True) if i < 2 else (False,):
                    yield "%s/%s/%d/B%d%s" % (cls, odom, i, B, "/by steps" * steps), (cls, odom, i, B, steps)


def check_pipe(case):
    cls, odom, i, B, steps = case
    p = list(holes_of(3, 4))[i]
    m = frames([[p * depth_of(3, 4, b), depth_of(3, 4, b) + 0.02] for b in range(B)], True, False)
    slam = slam_of(cls, odom, dsratio=1, numiters=2, damp=0.3, dist_thresh=None)
    if not (smooth_normals(m) | ~m.valid()[..., 0]).all():
        raise Borderline("undetermined normal")

    def f(ts):
        pc, poses = run_slam(slam, rgbd(ts, False), steps)
        return cloud_outs(pc, "padded" if i % 2 else "list") + [("recovered poses", poses)]

    zero = dict(zero_masks(m), rgb=np.repeat(~m.valid(), 3, -1))
    return "%s %s" % (cls, odom), Graph(f, leaves_of(m)).check(zero=zero, tol=1e-4, subsets=False)


# ------------------------------------------------------------------ histories of cloud operations
def pc_leaves(counts):
    d = {}
    for b, n in enumerate(counts):
        i = np.arange(n, dtype=float)[:, None]
        j = np.arange(3, dtype=float)[None]
        d["p%d" % b] = np.sin(1.1 * i + 0.7 * j + b) + np.array([0.2, -0.1, 3.0])
        d["n%d" % b] = np.cos(0.9 * i + 1.3 * j + b)
        d["c%d" % b] = 0.5 + 0.3 * np.sin(i * j + b)
        d["f%d" % b] = 1.0 + np.cos(i + 0.5 * np.arange(2)[None] + b)
    d["off"] = np.array([0.3, -0.2, 0.5])
    d["k"] = np.array(1.7)
    d["R"] = axis_angle([0.3, -0.5, 0.8], 0.7)
    d["RB"] = np.stack([axis_angle([0.3, 0.1 + b, 0.8], 0.4 + b) for b in range(len(counts))])
    d["T"] = T1
    d["TB"] = np.stack([(T1, T2, TB[0])[b % 3] for b in range(len(counts))])
    d["K"] = KS[0]
    d["KB"] = np.stack([KS[b % 2] for b in range(len(counts))])
    return d


def into_empty(pc):
    from gradslam.structures.pointclouds import Pointclouds
    e = Pointclouds()
    e.append_points(pc)
    return e


PCOPS = {
    "+off": lambda pc, t: pc + t["off"],
    "-k": lambda pc, t: pc - t["k"],
    "*k": lambda pc, t: pc * t["k"],
    "/k": lambda pc, t: pc / t["k"],
    "offset_": lambda pc, t: pc.offset_(t["off"]),
    "scale_": lambda pc, t: pc.scale_(t["k"]),
    "rotate": lambda pc, t: pc.rotate(t["R"]),
    "rotate post": lambda pc, t: pc.rotate(t["R"], pre_multiplication=False),
    "rotate_ batch": lambda pc, t: pc.rotate_(t["RB"]),
    "transform_": lambda pc, t: pc.transform_(t["T"]),
    "transform batch": lambda pc, t: pc.transform(t["TB"]),
    "pinhole": lambda pc, t: pc.pinhole_projection(t["K"]),
    "pinhole_ batch": lambda pc, t: pc.pinhole_projection_(t["KB"]),
    "@R": lambda pc, t: pc @ t["R"],
    "@TB": lambda pc, t: pc @ t["TB"],
    "transform post": lambda pc, t: pc.transform(t["T"].transpose(0, 1), pre_multiplication=False),
    "to copy": lambda pc, t: pc.to("cpu", copy=True),
    "select mask": lambda pc, t: pc[torch.ones(len(pc), dtype=torch.bool)],
    "select slice": lambda pc, t: pc[0:len(pc)],
    "select int": lambda pc, t: pc[len(pc) - 1],
    "clone": lambda pc, t: pc.clone(),
    "append": lambda pc, t: (pc.append_points(pc.clone() + 0.25), pc)[1],
    "into empty": lambda pc, t: into_empty(pc),
    "append last": lambda pc, t: (pc.append_points(pc[[len(pc) - 1] * len(pc)].clone()), pc)[1],
    "select": lambda pc, t: pc[list(range(len(pc)))[::-1]],
    "set points": lambda pc, t: (setattr(pc, "points_padded", pc.points_padded * t["k"]), pc)[1],
    "set colors": lambda pc, t: (setattr(pc, "colors_list", [c * t["k"] for c in pc.colors_list]), pc)[1],
    "read lists": lambda pc, t: (pc.points_list, pc.normals_list, pc.colors_list, pc.features_list, pc)[-1],
    "read padded": lambda pc, t: (pc.points_padded, pc.normals_padded, pc.colors_padded, pc.features_padded, pc)[-1],
}


def pc_cases(tier):
    depth = 2 if tier == "quick" else 3
    for counts in ((2,), (2, 1), (1, 0, 2)):
        for n in range(1, depth + 1):
            for ops in itertools.product(PCOPS, repeat=n):
                if "select int" in ops[:-1]:
                    continue
                if n == 2 and tier == "quick" and counts != (2, 1) or n == 3 and counts != (2, 1):
                    continue
                for view in ("list", "padded"):
                    if n == 3 and (hash_of(ops) + (view == "list")) % 2:
                        continue
                    for leafy in (True, False):
                        if n > 1 and not leafy:
                            continue
                        yield "%s/%s/%s/%s" % (counts, "; ".join(ops), view, leafy), (counts, ops, view, leafy)


def hash_of(ops):
    return sum((i + 1) * len(o) for i, o in enumerate(ops))


def check_pc(case):
    from gradslam.structures.pointclouds import Pointclouds
    counts, ops, view, leafy = case
    B = len(counts)

    def f(ts):
        x = ts if leafy else {k: v * 1.0 for k, v in ts.items()}
        pc = Pointclouds(*[[x["%s%d" % (a, b)] for b in range(B)] for a in "pncf"])
        for o in ops:
            pc = PCOPS[o](pc, x)
        return cloud_outs(pc, view)

    leaves = pc_leaves(counts)
    used = {"@R": "R", "@TB": "TB", "transform post": "T", "+off": "off", "-k": "k", "*k": "k", "/k": "k", "offset_": "off", "scale_": "k", "rotate": "R", "rotate post": "R", "rotate_ batch": "RB", "transform_": "T",
            "transform batch": "TB", "pinhole": "K", "pinhole_ batch": "KB", "set points": "k", "set colors": "k"}
    need = {used.get(o) for o in ops}
    for k in ("off", "k", "R", "RB", "T", "TB", "K", "KB"):
        if k not in need:
            leaves.pop(k)
    return "cloud", Graph(f, leaves).check(subsets=len(ops) == 1)


def setter(a, f):
    def g(r, t):
        setattr(r, a, f(getattr(r, a), t.get("k")))
        return r
    return g


def touch(*maps):
    def g(r, t):
        for a in maps:
            getattr(r, a)
        return r
    return g


IMOPS = {
    "read": touch(*MAPS),
    "read local": touch("vertex_map", "normal_map"),
    "first_": lambda r, t: (r.to_channels_first_(), r)[1],
    "last_": lambda r, t: (r.to_channels_last_(), r)[1],
    "first copy": lambda r, t: r.to_channels_first(copy=True),
    "last copy": lambda r, t: r.to_channels_last(copy=True),
    "clone": lambda r, t: r.clone(),
    "to copy": lambda r, t: r.to("cpu", copy=True),
    "[:, 0]": lambda r, t: r[:, 0],
    "[:, -1:]": lambda r, t: r[:, -1:],
    "[0]": lambda r, t: r[0],
    "set depth": setter("depth_image", lambda x, k: x * k),
    "set rgb": setter("rgb_image", lambda x, k: x * k),
    "set intrinsics": setter("intrinsics", lambda x, k: x * k),
    "set poses": setter("poses", lambda x, k: None if x is None else x * k),
}


def image_cases(tier):
    for cf, poses in ((False, True), (True, True), (False, False)):
        for n in range(1, 3 if tier == "quick" else 4):
            for ops in itertools.product(IMOPS, repeat=n):
                if n == 3 and ops[0][:4] != "read" or n > 1 and not poses and (cf or "read" not in ops):
                    continue
                yield "%s/cf%d/p%d" % ("; ".join(ops), cf, poses), (ops, cf, poses)


def check_image(case):
    ops, cf, poses = case
    m = frames([[depth_of(2, 2), depth_of(2, 2, 1)]], poses, cf)

    def f(ts):
        r = rgbd(ts, cf)
        for o in ops:
            r = IMOPS[o](r, ts)
        return [(k, getattr(r, k)) for k in MAPS + ("rgb_image", "depth_image", "intrinsics", "poses") if getattr(r, k) is not None]

    leaves = leaves_of(m)
    if any(o[:3] == "set" for o in ops):
        leaves["k"] = np.array(1.2)
    if not poses and all(o == "set poses" or o[:3] != "set" for o in ops):
        leaves.pop("k", None)
    return "images", Graph(f, leaves).check(subsets=len(ops) == 1)


# ------------------------------------------------------------------ transforms and projections
def geo():
    from gradslam.geometry import geometryutils as G
    from gradslam.geometry import projutils as P
    from gradslam.geometry import se3utils as S
    from gradslam.slam import fusionutils as F
    from gradslam.odometry import icputils as I
    pts = np.array([[1.0, -0.5, 2.0], [0.3, 0.8, 1.5], [-1.2, 0.4, 3.0]])
    hom = np.concatenate([pts, [[2.0], [0.5], [-1.5]]], 1)
    img = np.stack([pts, pts[::-1] + 0.2])
    q = np.array([0.2, -0.3, 0.4, 0.8])
    K4 = KS[0]
    Q = lambda **k: k  # noqa: E731
    one = lambda f: (lambda t: [("result", f(**t))])  # noqa: E731
    yield "so3_hat", one(lambda x: S.so3_hat(x)), Q(x=q[:3])
    yield "se3_hat", one(lambda x: S.se3_hat(x)), Q(x=np.arange(6) * 0.3 - 0.7)
    for k, w in enumerate([[0.3, -0.2, 0.5], [1e-3, 2e-3, -1e-3], [0, 0, 0], [2.0, 1.0, -1.5], [0, 3.0, 0], [3e-8, 0, 1e-8], [0, 0, np.pi]]):
        w = np.array(w, dtype=float)
        yield "so3_exp/%d" % k, one(lambda x: S.so3_exp(x)), Q(x=w), ("small" if 0 <= np.linalg.norm(w) < 1e-4 else "")
        yield "se3_exp/%d" % k, one(lambda x: S.se3_exp(x)), Q(x=np.concatenate([[0.5, -1.0, 0.7], w])), ("small" if np.linalg.norm(w) < 1e-4 else "")
    yield "homogenize", one(lambda x: G.homogenize_points(x)), Q(x=pts)
    yield "homogenize P", one(lambda x: P.homogenize_points(x)), Q(x=img)
    for nm, M in (("G", G), ("P", P)):
        yield "unhomogenize " + nm, one(lambda x, M=M: M.unhomogenize_points(x)), Q(x=hom)
        inf = hom.copy()
        inf[1, 3] = 0.0
        yield "unhomogenize infinity " + nm, one(lambda x, M=M: M.unhomogenize_points(x)), Q(x=inf), {"x": inf * 0 + [0, 0, 0, 1] * (inf[:, 3:] == 0)}
    for k, qq in enumerate([q, q / np.linalg.norm(q), -q, [0.0, 0, 0, 1], [0, 0, 0, -1.0], [1.0, 0, 0, 1e-3], [1e-5, 2e-5, 0, 1.0], [0.3, 0.2, 0.1, -0.9]]):
        qq = np.array(qq, dtype=float)
        # at the identity the derivative along the real part is 0 and the others are one sided limits of a smooth map
        yield "quaternion_to_axisangle/%d" % k, one(lambda x: G.quaternion_to_axisangle(x)), Q(x=qq)
        yield "quaternion_to_rotation_matrix/%d" % k, one(lambda x: G.quaternion_to_rotation_matrix(x)), Q(x=qq)
        yield "normalize_quaternion/%d" % k, one(lambda x: G.normalize_quaternion(x)), Q(x=qq)
    for k, (a, b) in enumerate([(T1, T2), (np.stack([T1, TB[0]]), np.stack([T2, TB[1]]))]):
        yield "inverse/%d" % k, one(lambda x: G.inverse_transfom_3d(x)), Q(x=a)
        yield "compose/%d" % k, one(lambda x, y: G.compose_transforms_3d(x, y)), Q(x=a, y=b)
        yield "relative/%d" % k, one(lambda x, y: G.relative_transform_3d(x, y)), Q(x=a, y=b)
        for o in (True, False):
            yield "relative_transformation/%d/%s" % (k, o), one(lambda x, y, o=o: G.relative_transformation(x, y, o)), Q(x=a, y=b)
    yield "transform_pts_3d", one(lambda x, y: G.transform_pts_3d(x, y)), Q(x=pts, y=T1)
    yield "transform_pts_3d projective", one(lambda x, y: G.transform_pts_3d(x, y)), Q(x=pts, y=T1 + np.array([[0] * 4] * 3 + [[0.1, 0.2, -0.05, 0.3]]))
    yield "transform_pts_nd_KF", one(lambda x, y: G.transform_pts_nd_KF(x, y)), Q(x=img, y=np.stack([T1, T2]))
    yield "normalize_pixel_coords", one(lambda x: G.normalize_pixel_coords(x, 7, 5)), Q(x=pts[:, :2])
    yield "unnormalize_pixel_coords", one(lambda x: G.unnormalize_pixel_coords(x, 7, 5)), Q(x=pts[:, :2])
    yield "cam2pixel", one(lambda x, y: G.cam2pixel(x, y)), Q(x=img, y=K4)
    yield "cam2pixel_KF", one(lambda x, y: G.cam2pixel_KF(x, y)), Q(x=img, y=np.stack([K4, KS[1]]))
    yield "pixel2cam", one(lambda d, k, p: G.pixel2cam(d, k, p)), Q(d=np.abs(img[..., 0]) + 1, k=np.linalg.inv(K4), p=img)
    yield "transform_pointcloud", one(lambda x, y: G.transform_pointcloud(x, y)), Q(x=pts, y=T1)
    yield "transform_normals", one(lambda x, y: G.transform_normals(x, y)), Q(x=pts, y=T1)
    zero = pts.copy()
    zero[1, 2] = 0.0
    for nm, p, sk in (("", pts, None), (" zero depth", zero, {"x": np.array([[0, 0, 0], [0, 0, 1], [0, 0, 0]]), "y": np.array([[0, 0, 0, 0], [0, 0, 0, 0], [1, 1, 1, 1], [0, 0, 0, 0]])})):
        yield "project_points" + nm, one(lambda x, y: P.project_points(x, y)), Q(x=p, y=K4), sk
    yield "project_points batch", one(lambda x, y: P.project_points(x, y)), Q(x=img, y=np.stack([K4, KS[1]]))
    yield "unproject_points", one(lambda x, y, d: P.unproject_points(x, y, d)), Q(x=pts[:, :2], y=np.linalg.inv(K4[:3, :3]), d=np.abs(pts[:, 2]))
    yield "unproject_points batch", one(lambda x, y, d: P.unproject_points(x, y, d)), Q(x=img[..., :2], y=np.stack([np.linalg.inv(K4[:3, :3]), np.linalg.inv(KS[1][:3, :3])]), d=np.abs(img[..., 2]))
    yield "inverse_intrinsics", one(lambda x: P.inverse_intrinsics(x)), Q(x=np.stack([K4, KS[1]]))
    yield "inverse_intrinsics 3x3", one(lambda x: P.inverse_intrinsics(x)), Q(x=K4[:3, :3])
    for s in (0.6, 1.5):
        yield "get_alpha/%s" % s, one(lambda x, s=s: F.get_alpha(x, s)), Q(x=pts * 0.4)
    yield "get_alpha tensor sigma", one(lambda x, s: F.get_alpha(x, s, dim=0, keepdim=True)), Q(x=pts.T * 0.5, s=np.array(0.9))
    yield "get_alpha saturated", one(lambda x: F.get_alpha(x, 0.2)), Q(x=pts * 3)
    A = np.sin(np.arange(24.0).reshape(8, 3) ** 1.5 * 1.7)
    for damp in (1e-8, 0.3):
        yield "solve/%s" % damp, one(lambda A, b, d=damp: I.solve_linear_system(A, b, d)), Q(A=A, b=np.cos(np.arange(8.0))[:, None])
    yield "solve damp tensor", one(lambda A, b, d: I.solve_linear_system(A, b, d)), Q(A=A, b=np.cos(np.arange(8.0))[:, None], d=np.array(0.4))
    yield "gauss_newton_solve", (lambda t: [("A", I.gauss_newton_solve(t["s"][None], t["p"][None], t["n"][None])[0]), ("b", I.gauss_newton_solve(t["s"][None], t["p"][None], t["n"][None])[1])]), Q(s=pts + 0.03, p=pts, n=A[:3])


def geo_cases(tier):
    for g in geo():
        yield g[0], (g[0],)


def check_geo(case):
    for g in geo():
        if g[0] == case[0]:
            extra = g[3] if len(g) > 3 else None
            h, tol = 1e-5, 2e-5
            if extra == "small":
                h, tol = 1e-4, 1e-3  # the code switches to a first order expansion below 1e-6
                extra = None
            skip = {k: np.asarray(v, bool) for k, v in extra.items()} if isinstance(extra, dict) else None
            return "function", Graph(g[1], g[2]).check(skip=skip, h=h, tol=tol, cots=(0, 1, 2))
    raise Mismatch("no such case")


def sweeps(tier):
    def guard(check):
        def g(case):
            try:
                with double():
                    return check(case)
            except Borderline:
                return "excluded", 0
        return g
    return [("functions", lambda: geo_cases(tier), guard(check_geo)), ("maps", lambda: map_cases(tier), check_maps), ("conversion", lambda: convert_cases(tier), check_convert),
            ("mapping", lambda: mapping_cases(tier), check_mapping), ("odometry", lambda: odom_cases(tier), guard(check_odom)), ("pipeline", lambda: pipe_cases(tier), guard(check_pipe)),
            ("operations", lambda: pc_cases(tier), check_pc), ("image operations", lambda: image_cases(tier), check_image)]


RULE = ("every hole pattern of 2x2 and 2x3 (thorough 3x3) frames x layout x batch through the maps, the conversion to clouds (either view) and mapping of 2..3 frames; localisation by both ICPs over "
        "iterations x damping x threshold x start; the full pipeline; every history of 1..2 (thorough 3) cloud operations; every transform and projection function: autograd against central differences, input entry by input entry")


def main(tier, t0):
    return sweepcheck.run("C25", tier, t0, sweeps(tier), rule=RULE, bounds={"frames": "2x2, 2x3 (3x3); 3x4 for the pipeline", "operations": "depth 2 (3)"},
                          assumptions=["double precision", "points where the computed value is not smooth (undetermined normals, thresholds) only need finite gradients"])


def replay(doc):
    return sweepcheck.replay(doc, sweeps("thorough"))
