"""C12: a SLAM run is the fold of its steps and reports the poses it used."""
import itertools
import warnings

import numpy as np
import torch

import sweepcheck
from c27 import strided_cloud
from framemodel import frame_cloud, own_normals
from fusionmodel import Borderline, active, best, fuse, similar
from icpmodel import icp
from mc import Mismatch, expect, raises, same
from pcmodel import PC, axis_angle, data, make, observe_pc, se3
from rgbdmodel import RM, intr, make_rgbd, observe_rgbd

H, W = 5, 6
KS = [intr(5.0, 5.5, 2.4, 2.1), intr(6.0, 5.0, 2.6, 1.8)]
T0 = [se3(axis_angle([0.2, 1, -0.3], 0.8), [0.5, -1.0, 2.0]), se3(axis_angle([1, 0.3, 0.4], -1.1), [-0.5, 0.3, 1.0]), se3(axis_angle([-0.1, 0.4, 1], 2.1), [0.0, 2.0, -0.5])]


def surface(k, b, size=(H, W)):
    v, u = np.mgrid[0:size[0], 0:size[1]].astype(float)
    z = 2.0 + 0.25 * np.sin(1.3 * u + 0.9 * b) + 0.3 * np.cos(1.1 * v + 0.4 * u) + 0.1 * u * (v > 2)
    z = z + (0.0, 0.03, -0.05, 0.1)[k]
    if k == 1:
        z = z * (((u + 2 * v) % 5) > 0)
    if k == 2:
        z[0] = 0.0
        z[:, 1] = -1.0
    if k == 3:
        z = z * ((u * v + b) % 4 < 3)
    return z


def motion(s, b):
    return se3(axis_angle([0.3, 1.0, 0.2], 0.013 * s), [0.023 * s, -0.011 * s, 0.017 * s])


def sequence(ks, B, poses, cf, size=(H, W)):
    H, W = size
    L = len(ks)
    d = np.stack([np.stack([surface(k, b, size) for k in ks]) for b in range(B)])[..., None]
    rgb = (np.arange(B * L * H * W * 3).reshape(B, L, H, W, 3) * 7 % 31) / 31.0
    P = None
    if poses:
        P = np.stack([np.stack([T0[b] @ motion(s, b) for s in range(L)]) for b in range(B)])
    return RM(rgb, d, np.stack([np.diag([W / 6.0, H / 5.0, 1.0, 1.0]) @ KS[b % 2] for b in range(B)])[:, None], P, cf)


def frame_at(m, s, pose=None):
    f = m.take(list(range(m.shape[0])), [s])
    f.poses = pose if pose is not None else f.poses
    return f


# ------------------------------------------------------------------ the model of a step
def localize(cur, live, prev, opt):
    """live, prev: RM frames of length 1 (prev has the pose it was mapped with)."""
    if prev is None or opt["odom"] == "gt":
        return live.poses.copy()
    here = live.copy()
    here.poses = prev.poses.copy()
    src = strided_cloud(here, own_normals(make_rgbd(here)), opt["ds"])
    act = active(cur, prev)
    out = []
    for b in range(live.shape[0]):
        idx = [n for (bb, n, h, w) in act if bb == b and h % opt["ds"] == 0 and w % opt["ds"] == 0]
        tgt, nrm = cur.d["points"][b][idx], cur.d["normals"][b][idx]
        if len(idx) == 0 or len(src.d["points"][b]) == 0:
            raise Borderline("nothing to align")
        T, _, _ = icp(src.d["points"][b], tgt, nrm, np.eye(4), opt["iters"], opt["damp"], opt["th"], opt["soft"] if opt["odom"] == "gradicp" else None)
        out.append(T @ prev.poses[b, 0])
    return np.stack(out)[:, None]


def mapping(cur, live, opt):
    nrm = own_normals(make_rgbd(live))
    if opt["cls"] == "icpslam":
        return cur.copy().append(frame_cloud(live, nrm))
    rows = best(cur, live, similar(cur, live, nrm, active(cur, live), opt["dist"], np.cos(np.deg2rad(opt["angle"])))) if cur.has else []
    if any(len(x) > 1 for x in rows):
        raise Borderline("tie")
    return fuse(cur, live, nrm, [next(iter(x)) for x in rows], opt["sigma"])


def fold(m, opt):
    """Returns (map after every step, pose of every step)."""
    cur, prev, maps, poses = PC(), None, [], []
    B, L = m.shape[:2]
    for s in range(L):
        live = frame_at(m, s)
        if s == 0 and live.poses is None:
            live.poses = np.tile(np.eye(4), (B, 1, 1, 1))
        P = localize(cur, live, prev, opt)
        live.poses = P
        live.drop()
        cur = mapping(cur, live, opt)
        maps.append(cur)
        poses.append(P)
        prev = live
    return maps, poses


OPTS = {"gt": dict(odom="gt"), "icp": dict(odom="icp"), "gradicp": dict(odom="gradicp"), "icp2": dict(odom="icp", ds=1, iters=1, damp=2.0, th=0.4),
        "grad2": dict(odom="gradicp", ds=1, iters=3, damp=0.7, th=1, soft=(3.0, 0.5, 2.0, 1.5))}
BASE = dict(odom="gt", ds=2, iters=2, damp=0.5, th=None, soft=(2.0, 1.0, 1.0, 200.0), dist=0.15, angle=40, sigma=1.5)


def options(cls, name, alt=False):
    o = dict(BASE, cls=cls, **{k: v for k, v in OPTS[name].items()})
    if alt:
        o.update(dist=0.06, angle=15, sigma=0.6)
    return o


def slam_of(o):
    from gradslam.slam.icpslam import ICPSLAM
    from gradslam.slam.pointfusion import PointFusion
    kw = dict(odom=o["odom"], dsratio=o["ds"], numiters=o["iters"], damp=o["damp"], dist_thresh=o["th"], lambda_max=o["soft"][0], B=o["soft"][1], B2=o["soft"][2], nu=o["soft"][3])
    if o["cls"] == "icpslam":
        return ICPSLAM(**kw)
    return PointFusion(dist_th=o["dist"], angle_th=o["angle"], sigma=o["sigma"], **kw)


def cases(tier="quick"):
    n = 0
    for L in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for ks in itertools.product(range(4), repeat=L):
            for cls, name in itertools.product(("icpslam", "pointfusion"), OPTS):
                n += 1
                if L == 4 and n % 3:
                    continue
                B = 1 + (n // 2) % 2
                poses = True if name == "gt" else n % 5 != 0
                yield "%s/%s/%s/B%d/p%d/%d" % (cls, name, "".join(map(str, ks)), B, poses, n % 4), (cls, name, ks, B, poses, n // 3 % 4 == 1, n % 8, n % 7 == 3)


def long_cases(tier="quick"):
    """Longer runs: every sequence over two views, each setting."""
    n = 0
    for L in (5, 6) if tier == "quick" else (5, 6, 7, 8):
        for ks in itertools.product((0, 3), repeat=L):
            for cls, name in itertools.product(("icpslam", "pointfusion"), OPTS):
                n += 1
                if n % (7 if tier == "quick" else 3):
                    continue
                yield "%s/%s/%s/%d" % (cls, name, "".join(map(str, ks)), n % 4), (cls, name, ks, 1, True, False, n % 8 if n % 8 != 5 else 0, False)


def large_cases(tier="quick"):
    """Larger frames, longer runs, batches of three."""
    n = 0
    for size, L, B in (((5, 6), 12, 1), ((5, 6), 4, 3), ((12, 15), 3, 3), ((21, 18), 3, 2), ((30, 40), 2, 1)) + ((((48, 64), 2, 1), ((15, 12), 10, 3), ((5, 6), 30, 2)) if tier == "thorough" else ()):
        for cls, name in itertools.product(("icpslam", "pointfusion"), OPTS):
            for k in range(2):
                n += 1
                ks = tuple((i * (1 + k) + i // 3 + n) % 4 for i in range(L))
                yield "%s/%s/%dx%d/L%d/B%d/%d" % (cls, name, size[0], size[1], L, B, k), (cls, name, ks, B, name == "gt" or bool(k), n % 5 == 2, (2, 7, 5, 0, 3)[n % 5], bool(k), size)


def check(case):
    cls, name, ks, B, has_poses, cf, var, alt = case[:8]
    o = options(cls, name, alt)
    m = sequence(ks, B, has_poses, cf, *case[8:])
    L = len(ks)
    try:
        maps, poses = fold(m, o)
    except Borderline:
        maps = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        slam = slam_of(o)
        r = make_rgbd(m)
        if var % 2:
            r.vertex_map, r.valid_depth_mask
        pc, P = slam(r)
        observe_rgbd(r, m, "frames handed to the run", maps=())
        expect(tuple(P.shape) == (B, L, 4, 4), "poses have shape %s" % (tuple(P.shape),))
        got_map = PC({a: [x.numpy() for x in getattr(pc, a + "_list")] for a in ("points", "normals", "colors") + (("features",) if cls != "icpslam" else ())})
        if maps is not None:
            same(P, np.concatenate(poses, 1), "poses of the run", 1e-3)
            observe_pc(pc, maps[-1], "map of the run", 2e-3)
        # the same sequence one frame at a time; bit s of var chooses in-place or out-of-place for step s
        from gradslam.structures.pointclouds import Pointclouds
        cur, prev = Pointclouds(), None
        old = []
        for s in range(L):
            inplace = bool(var >> (s % 3) & 1)
            fm = frame_at(m, s)
            if s == 0 and fm.poses is None:
                fm.poses = np.tile(np.eye(4), (B, 1, 1, 1))
            elif fm.poses is not None and s and o["odom"] != "gt" and var % 3:
                fm.poses = np.tile(np.diag([1.0, -1, -1, 1]), (B, 1, 1, 1))  # must not matter
            lf = make_rgbd(fm)
            before = cur
            nmap, npose = slam.step(cur, lf, prev if (o["odom"] != "gt" or var % 2) else None, **({"inplace": True} if inplace else {}))
            expect(tuple(npose.shape) == (B, 1, 4, 4), "step %d: poses have shape %s" % (s, tuple(npose.shape)))
            same(npose[:, 0], P[:, s], "pose of step %d against the run" % s, 2e-5)
            if inplace:
                expect(nmap is before, "step %d: in-place step returned another map" % s)
                same(lf.poses, npose, "step %d: pose of the frame after an in-place step" % s, 1e-6)
            else:
                expect(nmap is not before, "step %d: out-of-place step returned the map it was given" % s)
                observe_rgbd(lf, fm, "step %d: frame given to an out-of-place step" % s, maps=())
                if s and maps is not None:
                    observe_pc(before, maps[s - 1], "step %d: map given" % s, 2e-3)
            if prev is not None:
                same(prev.poses, prev_pose, "step %d: pose of the previous frame" % s, 1e-6)
            cur = nmap
            if maps is not None:
                observe_pc(cur, maps[s], "map after step %d" % s, 2e-3)
            prev = make_rgbd(frame_at(m, s, npose.numpy().astype(float)))
            prev_pose = npose.clone()
        observe_pc(cur, got_map, "map of the steps against the run", 1e-4)
        if var == 5:  # a second run with the same object starts afresh
            pc2, P2 = slam(r)
            same(P2, P.numpy(), "poses of a second run", 1e-6)
            observe_pc(pc2, got_map, "map of a second run", 1e-5)
        if B > 1 and maps is not None and var in (2, 7):  # elements of the batch do not influence each other
            for b in range(B):
                pcb, Pb = slam(make_rgbd(m.take([b], list(range(L)))))
                same(Pb[0], P[b].numpy(), "poses of element %d alone" % b, 1e-3)
                observe_pc(pcb, got_map.take([b]), "map of element %d alone" % b, 2e-3)
    return ("%s %s" % (cls, name) if maps is not None else "fold only (model undecided)"), 2 * L


def api_cases():
    m = sequence((0, 1), 1, True, False)
    nop = sequence((0, 1), 1, False, False)
    pc = make(data((2,), ("normals", "colors")))
    yield "odom name", (lambda: slam_of(dict(options("icpslam", "gt"), odom="foo")), ValueError)
    yield "odom name fusion", (lambda: slam_of(dict(options("pointfusion", "gt"), odom="foo")), ValueError)
    yield "dist type", (lambda: slam_of(dict(options("pointfusion", "gt"), dist="x")), TypeError)
    yield "angle type", (lambda: slam_of(dict(options("pointfusion", "gt"), angle=None)), TypeError)
    for cls, name in itertools.product(("icpslam", "pointfusion"), ("gt", "icp", "gradicp")):
        s = slam_of(options(cls, name))
        k = "%s %s " % (cls, name)
        yield k + "run type", (lambda s=s: s(torch.zeros(2)), TypeError)
        yield k + "run None", (lambda s=s: s(None), TypeError)
        yield k + "step map", (lambda s=s: s.step(None, make_rgbd(frame_at(m, 0))), TypeError)
        yield k + "step frame", (lambda s=s: s.step(pc, torch.zeros(1)), TypeError)
        yield k + "step prev", (lambda s=s: s.step(pc, make_rgbd(frame_at(m, 0)), torch.eye(4)), TypeError)
        yield k + "no pose", (lambda s=s: s.step(pc, make_rgbd(frame_at(nop, 0))), ValueError)
        if name == "gt":
            yield k + "run without poses", (lambda s=s: s(make_rgbd(nop)), ValueError)
        else:
            yield k + "prev without poses", (lambda s=s: s.step(pc, make_rgbd(frame_at(m, 1)), make_rgbd(frame_at(nop, 0))), ValueError)


def check_api(case):
    f, e = case
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        raises(f, (e,))
    return "rejected"


def double_cases():
    for cls in ("icpslam", "pointfusion"):
        for ks in ((0,), (0, 1), (2, 0, 1)):
            yield "%s/%s" % (cls, ks), (cls, ks)


def check_double(case):
    """Ground-truth odometry in double precision."""
    cls, ks = case
    o = options(cls, "gt")
    m = sequence(ks, 2, True, False)
    m.poses[:, :, :3, 3] += 1e-9
    pc, P = slam_of(o)(make_rgbd(m, torch.float64))
    expect(P.dtype == torch.float64, "poses of a double precision run have type %s" % P.dtype)
    same(P, m.poses, "poses", 1e-12)
    expect(pc.points_list[0].dtype == torch.float64, "map precision")
    return "double"


# ------------------------------------------------------------------ options left out take their documented defaults
DEFAULTS = dict(odom="gradicp", dsratio=4, numiters=20, damp=1e-8, dist_thresh=None, lambda_max=2.0, B=1.0, B2=1.0, nu=200.0)
FUSION_DEFAULTS = dict(DEFAULTS, dist_th=0.05, angle_th=20, sigma=0.6)
_O = dict(odom="gradicp", dsratio=1, numiters=2, damp=1.0, dist_thresh=None, lambda_max=2.0, B=1.0, B2=1.0, nu=200.0)
# values of the other options (and scale of the scene) under which each default decides the result
SENS = {"odom": (1.0, _O), "dsratio": (1.0, _O), "numiters": (1.0, dict(_O, lambda_max=1.0, B2=0.0, nu=0.2)), "damp": (1e-4, dict(_O, numiters=1)), "dist_thresh": (1.0, dict(_O, damp=1e-2)),
        "lambda_max": (1.0, _O), "B": (1.0, _O), "B2": (1.0, dict(_O, nu=1.5)), "nu": (1.0, _O), None: (1.0, {}),
        "dist_th": (1.0, dict(odom="gt", angle_th=80, sigma=1.0)), "angle_th": (1.0, dict(odom="gt", dist_th=0.5, sigma=1.0)), "sigma": (1.0, dict(odom="gt", dist_th=0.5, angle_th=80))}


def default_cases():
    for cls in ("icpslam", "pointfusion"):
        for name, (scale, kw) in SENS.items():
            if cls == "icpslam" and "angle_th" in kw or cls == "icpslam" and name == "angle_th":
                continue
            kw = {k: v for k, v in kw.items() if k != name}
            for ks, B in itertools.product(((0, 1), (3, 0), (0, 0), (1, 2, 0))[:None if name else 2], (1, 2)):
                for amp in (0.02, 0.04, 0.06, 0.08) if name in ("angle_th", "dist_th") else (0.02,):
                    yield "%s/%s/%s/B%d/%s" % (cls, name or "all", ks, B, amp), (cls, kw, scale, ks, B, amp)


def check_default(case):
    from gradslam.slam.icpslam import ICPSLAM
    from gradslam.slam.pointfusion import PointFusion
    cls, kw, scale, ks, B, amp = case
    make_slam = ICPSLAM if cls == "icpslam" else PointFusion
    full = dict(DEFAULTS if cls == "icpslam" else FUSION_DEFAULTS, **kw)
    m = sequence(ks, B, True, False)
    for s in range(len(ks)):
        v, u = np.mgrid[0:H, 0:W]
        m.depth[:, s] *= ((1 + 0.02 * s + amp * (s > 0) * np.cos(3.3 * u + 2.1 * v * v)) * scale)[..., None]
    m.poses[..., :3, 3] *= scale
    m.drop()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pc, P = make_slam(**full)(make_rgbd(m))
        pc2, P2 = make_slam(**kw)(make_rgbd(m))
    same(P2, P.numpy(), "poses with the options given only as %s" % kw, 1e-6)
    for a in ("points", "normals", "colors") + (("features",) if cls != "icpslam" else ()):
        for x, y in zip(getattr(pc2, a + "_list"), getattr(pc, a + "_list")):
            same(x, y.numpy(), "%s of the map with the options given only as %s" % (a, kw), 1e-6)
    return cls, 2


# ------------------------------------------------------------------ several runs at the same time
PAIRS = [((0, 1, 3), 1, (2, 0, 1), 1), ((0, 3, 1), 2, (1, 0, 3), 1), ((3, 0, 0), 1, (0, 1, 2), 3)]


def inter_cases(tier="quick"):
    """Every order in which the steps of two runs of three frames can alternate (the first step of the first run first)."""
    n = 0
    for cls, name in itertools.product(("icpslam", "pointfusion"), OPTS):
        for p, (ka, Ba, kb, Bb) in enumerate(PAIRS):
            for order in itertools.product("ab", repeat=6):
                if order.count("a") != 3 or (order[0] == "b" and tier == "quick"):
                    continue
                for share in ("one object", "two objects"):
                    n += 1
                    yield "%s/%s/%d/%s/%s" % (cls, name, p, "".join(order), share), (cls, name, p, order, share, n % 3)


def drive(slam, m, inplace):
    """A run, one step at each call of next()."""
    from gradslam.structures.pointclouds import Pointclouds
    cur, prev = Pointclouds(), None
    for s in range(m.shape[1]):
        lf = make_rgbd(frame_at(m, s))
        cur, npose = slam.step(cur, lf, prev, inplace)
        prev = make_rgbd(frame_at(m, s, npose.numpy().astype(float)))
        yield cur, npose


def check_inter(case):
    cls, name, p, order, share, mode = case
    ka, Ba, kb, Bb = PAIRS[p]
    run = {"a": sequence(ka, Ba, True, False), "b": sequence(kb, Bb, True, mode == 1)}
    o = {"a": options(cls, name), "b": options(cls, name if share == "one object" else list(OPTS)[(list(OPTS).index(name) + 2) % 5], share != "one object")}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        alone = {}
        for k in "ab":
            alone[k] = []
            for cur, P in drive(slam_of(o[k]), run[k], mode == 2):
                alone[k].append((P.clone(), [[x.clone() for x in getattr(cur, a + "_list")] for a in ("points", "normals", "colors")], None if cur.features_list is None else [x.clone() for x in cur.features_list]))
        sa = slam_of(o["a"])
        sb = sa if share == "one object" else slam_of(o["b"])
        live = {"a": drive(sa, run["a"], mode == 2), "b": drive(sb, run["b"], mode == 2)}
        at = {"a": 0, "b": 0}
        last = {}
        for k in order:
            last[k] = next(live[k])
            at[k] += 1
            for j in last:  # the run that moved, and the one that did not
                P, lists, feats = alone[j][at[j] - 1]
                same(last[j][1], P.numpy(), "after %s: pose of step %d of run %s" % ("".join(order), at[j] - 1, j), 1e-6)
                for a, want in zip(("points", "normals", "colors"), lists):
                    for x, y in zip(getattr(last[j][0], a + "_list"), want):
                        same(x, y.numpy(), "map %s of run %s after its step %d" % (a, j, at[j] - 1), 1e-6)
                if feats is not None:
                    for x, y in zip(last[j][0].features_list, feats):
                        same(x, y.numpy(), "confidences of run %s" % j, 1e-6)
    return "%s, %s" % (cls, share), 12


# ------------------------------------------------------------------ what a SLAM object was used for before does not matter
VIEWS = [0, 3]


def history_cases(tier="quick"):
    """Every history of steps of one SLAM object over two maps and two frames (any of them the live or the previous frame), with frames moved in between."""
    steps = ["%s%d%d%d" % (mode, i, j, k) for mode in "io" for i in range(2) for j in range(2) for k in range(2)]
    ops = steps + ["m0", "m1"]
    few = ["o001", "o101", "i011", "m0", "m1"]
    for cls, name in itertools.product(("icpslam", "pointfusion"), OPTS):
        for a, b in itertools.product(ops, repeat=2):
            if b[0] != "m":
                yield "%s/%s/%s/%s" % (cls, name, a, b), (cls, name, (a, b))
        for n in (3,) if tier == "quick" else (3, 4):
            for h in itertools.product(few, repeat=n):
                if h[-1][0] != "m" and h[0][0] != "m":
                    yield "%s/%s/%s" % (cls, name, "/".join(h)), (cls, name, h)


def cloud_state(pc):
    return {a: [x.clone() for x in getattr(pc, a + "_list")] for a in ("points", "normals", "colors", "features") if getattr(pc, a + "_list") is not None}


def cloud_again(state):
    from gradslam.structures.pointclouds import Pointclouds
    return Pointclouds(**{k: [x.clone() for x in v] for k, v in state.items()})


_START = {}


def check_history(case):
    cls, name, hist = case
    o = options(cls, name)
    ms = sequence(VIEWS, 1, True, False)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if cls not in _START:
            from gradslam.structures.pointclouds import Pointclouds
            _START[cls] = []
            for s in range(2):
                pc, _ = slam_of(options(cls, "gt")).step(Pointclouds(), make_rgbd(frame_at(ms, s)), None)
                keep = [n for n in range(len(pc.points_list[0])) if (n + s) % (4 + s)]
                _START[cls].append({a: [x[0][keep]] for a, x in cloud_state(pc).items()})
        maps = [cloud_again(x) for x in _START[cls]]
        frames = [make_rgbd(frame_at(ms, s)) for s in range(2)]
        slam = slam_of(o)
        moved = 0
        for t, op in enumerate(hist):
            if op[0] == "m":
                moved += 1
                k = int(op[1])
                frames[k].poses = torch.as_tensor(T0[0] @ motion(k + 0.7 * moved, 0), dtype=torch.float32)[None, None]
                continue
            i, j, k = map(int, op[1:])
            # the same step by an object that has done nothing yet, on copies
            st = cloud_state(maps[i])
            fj = make_rgbd(frame_at(ms, j, frames[j].poses.numpy().astype(float)))
            fk = fj if j == k else make_rgbd(frame_at(ms, k, frames[k].poses.numpy().astype(float)))
            try:
                want, wantP = slam_of(o).step(cloud_again(st), fj, fk, op[0] == "i")
                want = cloud_state(want)
            except Exception as e:  # nothing left to align: the same must happen here
                raises(lambda: slam.step(maps[i], frames[j], frames[k], op[0] == "i"), (type(e),))
                return "%s %s: rejected" % (cls, name), t + 1
            got, gotP = slam.step(maps[i], frames[j], frames[k], op[0] == "i")
            w = "step %d of %s" % (t, "/".join(hist))
            same(gotP, wantP.numpy(), w + ": pose", 1e-6)
            for a in want:
                for x, y in zip(getattr(got, a + "_list"), want[a]):
                    same(x, y.numpy(), "%s: map %s" % (w, a), 1e-6)
            if op[0] == "o":
                for a in st:
                    for x, y in zip(getattr(maps[i], a + "_list"), st[a]):
                        same(x, y.numpy(), "%s: %s of the map given" % (w, a), 1e-6)
    return "%s %s" % (cls, name), len(hist)


def sweeps(tier):
    return [("histories", lambda: history_cases(tier), check_history), ("interleavings", lambda: inter_cases(tier), check_inter), ("fold", lambda: cases(tier), check), ("long", lambda: long_cases(tier), check), ("large", lambda: large_cases(tier), check), ("double precision", double_cases, check_double), ("defaults", default_cases, check_default), ("rejected", api_cases, check_api)]


RULE = ("every sequence of up to 3 frames (thorough: 4, rotating the settings) from a pool of four views x mapping mode x five odometry settings; every sequence of 5-6 (thorough 5-8) frames from two "
        "views, rotating mode and setting; every history of two steps (and of three from a smaller alphabet; thorough: four) of one SLAM object over two maps and two frames, any of them live or previous, frames moved in between, against a fresh object; every interleaving of the steps of two runs, sharing a SLAM object or not, against each run alone; every option omitted against its documented default; each run is compared with the fold of its own "
        "steps under every in-place/out-of-place assignment pattern, and with an independent model of localisation and mapping")


def main(tier, t0):
    return sweepcheck.run("C12", tier, t0, sweeps(tier), rule=RULE, bounds={"frames": "5x6; 5x6 to 30x40 in the large sweep", "length": "1..6, 12 (thorough 1..8, 10, 30)", "batch": "1..3"},
                          assumptions=["where the model sits on a decision threshold only run = fold of steps is checked (counted)", "pose tolerance 1e-3 against the model, 2e-5 between run and steps"])


def replay(doc):
    return sweepcheck.replay(doc, sweeps("thorough"))
