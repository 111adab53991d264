"""C31: malformed arguments are refused, and a refused call leaves no trace."""
import copy
import itertools
import warnings

import numpy as np
import torch

import purity
import sweepcheck
from mc import expect
from pcmodel import data, make
from purecalls import K, M, align, cloud, frame, grid, matched, r, rows, t, uniq

KIND = (TypeError, AssertionError)
SHAPE = (ValueError, AssertionError)
INDEX = (IndexError,)
OPERAND = KIND + (NotImplementedError,)


class E:
    """call(**args); args() -> {name: fresh object}; bad: [(name of argument, label, value or function of the good value, errors)]"""

    def __init__(self, call, args, bad, loose=()):
        self.call, self.args, self.bad, self.loose = call, args, bad, loose


def kinds(arg, *skip, extra=()):
    """A tensor argument of another kind."""
    out = [("None", lambda x: None), ("list", lambda x: x.tolist()), ("array", lambda x: x.detach().numpy().copy()), ("text", lambda x: "1"), ("number", lambda x: 1.5),
           ("tuple", lambda x: tuple(x)), ("dict", lambda x: {0: x})]
    return [(arg, n, f, KIND) for n, f in out if n not in skip] + [(arg, n, f, KIND) for n, f in extra]


def objects(arg, *skip):
    """A batch of point clouds or of frames of another kind."""
    out = [("None", lambda x: None), ("tensor", lambda x: torch.ones(1, 2, 3)), ("text", lambda x: "map"), ("list", lambda x: [x]), ("number", lambda x: 0),
           ("class", lambda x: type(x)), ("other structure", lambda x: frame(0) if purity.kind(x) == "Pointclouds" else cloud(0))]
    return [(arg, n, f, KIND) for n, f in out if n not in skip]


def scalars(arg, *vals):
    return [(arg, repr(v), (lambda x, v=v: v), KIND) for v in vals]


def sized(arg, *shapes, err=SHAPE, dt=torch.float32):
    return [(arg, "x".join(map(str, s)) or "scalar", (lambda x, s=s: t(r(2, *s) if np.prod(s) else np.zeros(s), dt) + (1 if dt.is_floating_point else 0)), err) for s in shapes]


def cut(arg, *labels):
    """The good value without its last entry / with one entry more / with a leading dimension more or less, along the last dimension."""
    fs = {"last-": lambda x: x[..., :-1], "last+": lambda x: torch.cat([x, x[..., :1]], -1), "rows-": lambda x: x[..., :-1, :], "rows+": lambda x: torch.cat([x, x[..., :1, :]], -2),
          "batch+": lambda x: torch.cat([x, x[:1]]), "lead+": lambda x: x[None], "lead-": lambda x: x[0], "item": lambda x: x[..., 0]}
    return [(arg, n, fs[n], SHAPE) for n in labels]


# ---------------------------------------------------------------- geometry

def geometry():
    from gradslam.geometry import geometryutils as G, projutils as P, se3utils as S
    out = {}
    for nm in ("so3_hat", "se3_hat", "so3_exp", "se3_exp"):
        n, a = (3, "omega") if nm[:3] == "so3" else (6, "xi")
        out[nm] = E(getattr(S, nm), lambda n=n, a=a: {a: t(r(0, n))}, kinds(a))
    for mod, m in (("", G), ("projutils.", P)):
        out[mod + "homogenize_points"] = E(m.homogenize_points, lambda: dict(pts=t(r(0, 3, 3))), kinds("pts") + sized("pts", (3,), ()))
        out[mod + "unhomogenize_points"] = E(m.unhomogenize_points, lambda: dict(pts=t(r(0, 3, 4))), kinds("pts") + sized("pts", (4,), ()))
    for nm, a in (("quaternion_to_axisangle", "quat"), ("normalize_quaternion", "quaternion"), ("quaternion_to_rotation_matrix", "quaternion")):
        out[nm] = E(getattr(G, nm), lambda a=a: {a: t(r(0, 3, 4) + 0.3)}, [b[:3] + (KIND + (AttributeError,),) for b in kinds(a)] + cut(a, "last-", "last+") + sized(a, (3,), (4, 3), (2, 4, 1)))
    T44 = ((4, 3), (3, 4), (3, 3), (2, 3, 4), (2, 4, 3), (5, 5), (4,), (1, 2, 4, 4))
    out["inverse_transfom_3d"] = E(G.inverse_transfom_3d, lambda: dict(trans=M(0, 2)), kinds("trans") + sized("trans", *T44))
    for nm, a, b in (("compose_transforms_3d", "trans1", "trans2"), ("relative_transformation", "trans_01", "trans_02")):
        for ld in ((), (2,)):
            out["%s%s" % (nm, ld)] = E(getattr(G, nm), lambda a=a, b=b, ld=ld: {a: M(0, *ld), b: M(1, *ld)},
                                       kinds(a) + kinds(b) + sized(a, *T44) + sized(b, *T44) + [(x, "rank", lambda m: m[0] if m.dim() == 3 else torch.stack([m, m]), SHAPE) for x in (a, b)])
    out["transform_pts_3d"] = E(G.transform_pts_3d, lambda: dict(pts_b=t(r(0, 5, 3)), t_ab=M(0)), kinds("pts_b") + kinds("t_ab") + sized("pts_b", (3,), ()) + sized("t_ab", (3, 4), (4, 3), (3, 3), (1, 4, 4), (2, 4, 4), (4,)))
    out["transform_pts_nd_KF"] = E(G.transform_pts_nd_KF, lambda: dict(pts=t(r(0, 2, 3)), tform=M(0, 2)), [("tform", "batch+", lambda x: torch.cat([x, x[:1]]), SHAPE), ("tform", "batch-", lambda x: x[:1], SHAPE),
                                                                                                   ("tform", "3x3", lambda x: x[:, :3, :3], SHAPE), ("pts", "2", lambda x: x[:, :2], SHAPE), ("pts", "4", lambda x: torch.cat([x, x[:, :1]], 1), SHAPE)])
    for nm, a in (("transform_pointcloud", "pointcloud"), ("transform_normals", "normals")):
        out[nm] = E(getattr(G, nm), lambda a=a: {a: t(r(0, 5, 3)), "transform": M(0)}, kinds(a) + kinds("transform") + sized(a, (3,), (1, 5, 3), (5, 2), (5, 4), (5, 1)) + sized("transform", (3, 4), (4, 3), (3, 3), (5, 5)))
    for nm, a in (("normalize_pixel_coords", "pixel_coords"), ("unnormalize_pixel_coords", "pixel_coords_norm")):
        out[nm] = E(getattr(G, nm), lambda a=a: {a: t(r(0, 5, 2)), "height": 7, "width": 9}, kinds(a) + cut(a, "last-", "last+") + sized(a, (5, 3), (5, 4), (3,))
                    + [(x, repr(v), (lambda _, v=v: v), KIND) for x in ("height", "width") for v in (7.0, None, "7")])
    out["cam2pixel"] = E(G.cam2pixel, lambda: dict(cam_coords_src=t(np.abs(r(0, 2, 3, 4, 3)) + 0.5), dst_proj_src=K(0)), kinds("cam_coords_src") + kinds("dst_proj_src") + sized("cam_coords_src", (5, 3), (3,), (2, 3, 4, 2), (2, 3, 4, 4))
                         + sized("dst_proj_src", (3, 4), (3, 3), (1, 4, 4), (4,), (4, 3)))
    out["pixel2cam"] = E(G.pixel2cam, lambda: dict(depth=t(np.abs(r(0, 3, 4)) + 0.5), intrinsics_inv=K(0), pixel_coords=t(np.abs(r(1, 3, 4, 3)))), kinds("depth") + kinds("intrinsics_inv") + kinds("pixel_coords")
                         + sized("intrinsics_inv", (3, 3), (3, 4), (4, 3), (2, 4, 4)) + sized("pixel_coords", (3,), ()))
    out["cam2pixel_KF"] = E(G.cam2pixel_KF, lambda: dict(cam_coords_src=t(np.abs(r(0, 2, 3)) + 0.5), P=torch.stack([K(0), K(1)])), kinds("cam_coords_src") + kinds("P") + sized("cam_coords_src", (2, 2), (2, 4))
                            + sized("P", (4,), (2, 3, 4), (2, 3, 3), (2, 4, 3)))
    pts, kk = lambda: t(np.abs(r(0, 5, 3)) + 0.5), ((4,), (3, 3), (3, 4), (4, 3))  # noqa: E731
    out["project_points"] = E(P.project_points, lambda: dict(cam_coords=pts(), proj_mat=K(0)), kinds("cam_coords") + kinds("proj_mat") + sized("cam_coords", (3,), (5, 2), (5, 5), (5, 1), ()) + sized("proj_mat", *kk, (1, 4, 4), (5, 4, 4)))
    out["project_points batch"] = E(P.project_points, lambda: dict(cam_coords=pts()[None].repeat(2, 1, 1), proj_mat=K(0, 2)), kinds("cam_coords") + kinds("proj_mat") + sized("cam_coords", (3,), (5, 3), (3, 5, 3), (2, 5, 2), (2, 5, 5), (1, 2, 5, 3))
                                    + sized("proj_mat", (2, 3, 3), (2, 3, 4), (2, 4, 3), (3, 4, 4), (1, 4, 4), (1, 2, 4, 4)))
    out["unproject_points"] = E(P.unproject_points, lambda: dict(pixel_coords=t(r(0, 5, 2)), intrinsics_inv=K(0, None, 3), depths=t(np.abs(r(0, 5)))), kinds("pixel_coords") + kinds("intrinsics_inv") + kinds("depths")
                                + sized("pixel_coords", (2,), (5, 1), (5, 4), (4, 2), (6, 2)) + sized("intrinsics_inv", (3,), (4, 4), (3, 4), (4, 3), (1, 3, 3), (5, 3, 3)) + sized("depths", (4,), (6,), (5, 1), (1, 5), ()))
    out["unproject_points batch"] = E(P.unproject_points, lambda: dict(pixel_coords=t(r(0, 2, 5, 2)), intrinsics_inv=K(0, 2, 3), depths=t(np.abs(r(0, 2, 5)))), kinds("depths") + sized("pixel_coords", (5, 2), (3, 5, 2), (2, 4, 2), (2, 5, 4))
                                      + sized("intrinsics_inv", (3, 3, 3), (1, 3, 3), (2, 4, 4), (2, 3, 4), (1, 2, 3, 3)) + sized("depths", (2, 4), (5,), (2, 5, 1), (10,), (1, 5)))
    out["inverse_intrinsics"] = E(P.inverse_intrinsics, lambda: dict(K=K(0)), kinds("K") + sized("K", (4,), (), (3, 4), (4, 3), (2, 2), (5, 5), (2, 3, 4), (2, 4, 3)))
    return out


# ---------------------------------------------------------------- frames and clouds

def maps(v=0):
    pc, fr = matched(v)
    return pc, fr


def without(*attrs):
    from gradslam.structures.pointclouds import Pointclouds

    def f(pc):
        keep = [a for a in ("points", "normals", "colors", "features") if a not in attrs and getattr(pc, a + "_list") is not None]
        return Pointclouds(**{a: [x.clone() for x in getattr(pc, a + "_list")] for a in keep})
    return f


def wide(pc):
    """The same batch with one cloud more."""
    from gradslam.structures.pointclouds import Pointclouds
    return Pointclouds(**{a: [x.clone() for x in getattr(pc, a + "_list")] + [getattr(pc, a + "_list")[0].clone()] for a in ("points", "normals", "colors", "features") if getattr(pc, a + "_list") is not None})


def long(fr):
    from gradslam.structures.rgbdimages import RGBDImages
    two = lambda x: torch.cat([x, x], 1)  # noqa: E731
    return RGBDImages(two(fr.rgb_image), two(fr.depth_image), fr.intrinsics, None if fr.poses is None else two(fr.poses), channels_first=fr.channels_first)


def more(fr):
    from gradslam.structures.rgbdimages import RGBDImages
    two = lambda x: torch.cat([x, x])  # noqa: E731
    return RGBDImages(two(fr.rgb_image), two(fr.depth_image), two(fr.intrinsics), None if fr.poses is None else two(fr.poses), channels_first=fr.channels_first)


def unposed(fr):
    from gradslam.structures.rgbdimages import RGBDImages
    return RGBDImages(fr.rgb_image, fr.depth_image, fr.intrinsics, channels_first=fr.channels_first)


def o(arg, **fs):
    return [(arg, n.replace("_", " "), f, SHAPE) for n, f in fs.items()]


def table_of(arg):
    """A correspondence table of another kind or shape."""
    return (kinds(arg) + [(arg, "float", lambda x: x.float(), KIND), (arg, "int32", lambda x: x.int(), KIND), (arg, "bool", lambda x: x > 0, KIND), (arg, "uint8", lambda x: x.to(torch.uint8), KIND)]
            + cut(arg, "last-", "last+", "lead+", "lead-"))


def fusion():
    from gradslam.slam import fusionutils as U
    from gradslam.structures.utils import pointclouds_from_rgbdimages
    out = {}
    frames = objects("rgbdimages") + o("rgbdimages", two_steps=long, wider=more)
    one = objects("rgbdimages") + o("rgbdimages", two_steps=long)
    clouds = objects("pointclouds")
    args = lambda: dict(zip(("pointclouds", "rgbdimages"), maps()))  # noqa: E731

    def with_rows(f=rows):
        pc, fr = maps()
        return dict(pointclouds=pc, rgbdimages=fr, pc2im_bnhw=f(pc, fr)[:8].clone())
    out["pointclouds_from_rgbdimages"] = E(pointclouds_from_rgbdimages, lambda: dict(rgbdimages=frame(0)), one)
    out["pointclouds_from_rgbdimages first"] = E(pointclouds_from_rgbdimages, lambda: dict(rgbdimages=frame(0, cf=True)), one)
    out["get_alpha"] = E(U.get_alpha, lambda: dict(points=t(r(0, 5, 3)), sigma=0.6, eps=1e-7, dim=-1), kinds("points") + cut("points", "last-", "last+") + sized("points", (3, 5), (5, 4), (3, 2)) + scalars("sigma", None, "0.6", [0.6], (0.6,))
                         + sized("sigma", (1,), (5,), (1, 1)) + scalars("eps", None, "1", 1, [1e-7]) + [("dim", "0", lambda x: 0, SHAPE)])
    for nm, th in (("are_points_close", "dist_th"), ("are_normals_similar", "dot_th")):
        out[nm] = E(getattr(U, nm), lambda th=th: {"tensor1": t(r(0, 5, 3)), "tensor2": t(r(3, 5, 3)), th: 0.5, "dim": -1},
                    [b for a in ("tensor1", "tensor2") for b in kinds(a) + cut(a, "last-", "last+", "rows-", "rows+", "lead+", "lead-")] + scalars(th, None, "1", [0.5]) + [(th, "tensor", lambda x: torch.tensor(0.5), KIND)]
                    + [("dim", "0", lambda x: 0, SHAPE)])
        out[nm + " pairs"] = E(getattr(U, nm), lambda th=th: {"tensor1": t(r(0, 3, 2)), "tensor2": t(r(3, 3, 2)), th: 0.5, "dim": 0}, [("dim", "1", lambda x: 1, SHAPE), ("dim", "-1", lambda x: -1, SHAPE)])
    out["find_active_map_points"] = E(U.find_active_map_points, args, clouds + o("pointclouds", wider=wide) + frames)
    out["find_similar_map_points"] = E(lambda **k: U.find_similar_map_points(dist_th=0.5, dot_th=0.5, **k), with_rows, clouds + o("pointclouds", wider=wide, no_normals=without("normals")) + frames + table_of("pc2im_bnhw"))
    out["find_best_unique_correspondences"] = E(U.find_best_unique_correspondences, with_rows, clouds + o("pointclouds", wider=wide, no_features=without("features")) + o("rgbdimages", two_steps=long, wider=more) + table_of("pc2im_bnhw"))
    for nm, f in (("find_correspondences", U.find_correspondences),):
        out[nm] = E(lambda f=f, **k: f(dist_th=0.5, dot_th=0.5, **k), args, clouds + o("pointclouds", wider=wide, no_normals=without("normals"), no_features=without("features")) + frames)
    for inplace in (False, True):
        sfx = " inplace" if inplace else ""
        out["fuse_with_map" + sfx] = E(lambda inplace=inplace, **k: U.fuse_with_map(sigma=0.6, inplace=inplace, **k), lambda: with_rows(uniq),
                                       clouds + o("pointclouds", no_normals=without("normals"), no_features=without("features"), no_colors=without("colors")) + objects("rgbdimages") + table_of("pc2im_bnhw"))
        out["update_map_fusion" + sfx] = E(lambda inplace=inplace, **k: U.update_map_fusion(dist_th=0.5, dot_th=0.5, sigma=0.6, inplace=inplace, **k), args,
                                           clouds + o("pointclouds", wider=wide, no_normals=without("normals"), no_features=without("features"), no_colors=without("colors"))
                                 + [b[:3] + ((Exception,) if b[3] is KIND else b[3],) for b in frames])
    out["update_map_aggregate"] = E(lambda **k: U.update_map_aggregate(inplace=False, **k), lambda: dict(pointclouds=cloud(0, (4,), ("normals", "colors")), rgbdimages=frame(0)),
                                    clouds + o("pointclouds", wider=wide, no_normals=without("normals"), no_colors=without("colors")) + frames)
    out["update_map_aggregate inplace"] = E(lambda **k: U.update_map_aggregate(inplace=True, **k), lambda: dict(pointclouds=cloud(0, (4,), ("normals", "colors")), rgbdimages=frame(0)),
                                            clouds + o("pointclouds", wider=wide, no_normals=without("normals"), no_colors=without("colors")) + frames)
    from gradslam.structures.pointclouds import Pointclouds
    empty = lambda: dict(pointclouds=Pointclouds(), rgbdimages=frame(0, H=4, W=5))  # noqa: E731
    for inplace in (False, True):
        sfx = " inplace" if inplace else ""
        out["update_map_fusion empty" + sfx] = E(lambda inplace=inplace, **k: U.update_map_fusion(dist_th=0.5, dot_th=0.5, sigma=0.6, inplace=inplace, **k), empty, clouds + o("rgbdimages", two_steps=long))
        out["update_map_aggregate empty" + sfx] = E(lambda inplace=inplace, **k: U.update_map_aggregate(inplace=inplace, **k), empty, clouds + one)
    return out


# ---------------------------------------------------------------- odometry

def odometry():
    from gradslam.odometry import icputils as I
    from gradslam.odometry.gradicp import GradICPOdometryProvider
    from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
    from gradslam.odometry.icp import ICPOdometryProvider
    from gradslam.structures.pointclouds import Pointclouds
    out = {}
    out["solve_linear_system"] = E(I.solve_linear_system, lambda: dict(A=t(r(0, 9, 6) + np.eye(9, 6)), b=t(r(1, 9, 1)), damp=0.5), kinds("A") + kinds("b") + cut("A", "rows-", "rows+", "lead+", "lead-", "item")
                                   + cut("b", "rows-", "rows+", "lead+", "item") + sized("b", (9, 2), (9,), (1, 9), (9, 0)) + scalars("damp", None, "0.5", [0.5]) + sized("damp", (1,), (6,), (6, 6)))
    pcs = [b for a in ("src_pc", "tgt_pc", "tgt_normals") for b in kinds(a)]
    shp = [b for a in ("src_pc", "tgt_pc", "tgt_normals") for b in cut(a, "last-", "last+", "lead+", "lead-", "batch+")] + cut("tgt_normals", "rows-", "rows+") + cut("tgt_pc", "rows-", "rows+")
    shp += [(a, n, f, SHAPE) for a in ("src_pc", "tgt_pc", "tgt_normals") for n, f in (("1x25x3x2", lambda x: torch.stack([x, x], -1)), ("1x75", lambda x: x.reshape(1, -1)))]
    three = lambda: dict(zip(("src_pc", "tgt_pc", "tgt_normals"), align(0)))  # noqa: E731
    out["gauss_newton_solve"] = E(I.gauss_newton_solve, lambda: dict(three(), dist_thresh=0.3), pcs + shp + scalars("dist_thresh", "0.3", [0.3]) + [("dist_thresh", "tensor", lambda x: torch.tensor(0.3), KIND)])
    t0 = lambda: t(np.eye(4))  # noqa: E731
    init = kinds("initial_transform", "None") + sized("initial_transform", (3, 3), (3, 4), (4, 3), (1, 4, 4), (4,), (16,))
    nums = scalars("numiters", None, 2.0, "2", [2]) + [("numiters", "tensor", lambda x: torch.tensor([2.0, 1.0]), KIND)]
    # the solvers hand src_pc/tgt_pc/tgt_normals on to gauss_newton_solve at least once
    shp = [b for b in shp if b[:2] != ("src_pc", "batch+")]  # only the first cloud is aligned then
    out["point_to_plane_ICP"] = E(I.point_to_plane_ICP, lambda: dict(three(), initial_transform=t0(), numiters=2), pcs + shp + init + nums)
    out["point_to_plane_gradICP"] = E(I.point_to_plane_gradICP, lambda: dict(three(), initial_transform=t0(), numiters=2, lambda_max=2.0, B=1.0, B2=1.0, nu=200.0), pcs + shp + init + nums
                                      + [b for a in ("lambda_max", "B", "B2", "nu") for b in scalars(a, None, "2", [2.0]) + [(a, "tensor", lambda x: torch.tensor(2.0), KIND)]])
    for cls in (ICPOdometryProvider, GradICPOdometryProvider):
        p = cls(numiters=2, damp=1e-3)

        def mk():
            q, n = grid(0)
            return dict(maps_pointclouds=Pointclouds([t(q), t(q[:20])], [t(n), t(n[:20])]), frames_pointclouds=Pointclouds([t(q[:22] + 0.03), t(q[2:20] - 0.02)]))
        out[cls.__name__] = E(p.provide, mk, objects("maps_pointclouds") + objects("frames_pointclouds") + o("maps_pointclouds", no_normals=without("normals", "colors", "features"), wider=wide, narrower=lambda x: x[0])
                              + o("frames_pointclouds", wider=wide, narrower=lambda x: x[0]))
    gt = GroundTruthOdometryProvider()
    out["GroundTruthOdometryProvider"] = E(gt.provide, lambda: dict(rgbdimages1=frame(0, 2), rgbdimages2=frame(1, 2)), [b for a in ("rgbdimages1", "rgbdimages2") for b in objects(a) + o(a, no_poses=unposed, two_steps=long, wider=more, narrower=lambda x: x[0])])
    out["downsample_pointclouds"] = E(I.downsample_pointclouds, lambda: dict(pointclouds=cloud(0), pc2im_bnhw=torch.tensor([[0, 0, 0, 0], [0, 1, 2, 4], [0, 2, 1, 2], [1, 0, 2, 2], [1, 1, 0, 1]]), ds_ratio=2),
                                      objects("pointclouds") + kinds("pc2im_bnhw") + cut("pc2im_bnhw", "last-", "last+", "lead+", "lead-") + scalars("ds_ratio", None, 2.0, "2", [2]))
    out["downsample_rgbdimages"] = E(I.downsample_rgbdimages, lambda: dict(rgbdimages=frame(0), ds_ratio=2), objects("rgbdimages") + o("rgbdimages", two_steps=long) + scalars("ds_ratio", None, 2.0, "2", [2]))
    return out


# ---------------------------------------------------------------- SLAM

def slam():
    from gradslam.slam.icpslam import ICPSLAM
    from gradslam.slam.pointfusion import PointFusion
    from gradslam.structures.pointclouds import Pointclouds
    out = {}
    for cls in (ICPSLAM, PointFusion):
        n = cls.__name__
        for odom in ("gt", "icp", "gradicp"):
            s = cls(odom=odom, dsratio=1, numiters=1)
            tag = "%s %s " % (n, odom)
            out[tag + "forward"] = E(s.forward, lambda: dict(frames=frame(0, 1, 2, 4, 5)), objects("frames"))
            out[tag + "call"] = E(lambda frames, s=s: s(frames), lambda: dict(frames=frame(0, 1, 2, 4, 5)), objects("frames"))

            def first():
                return dict(pointclouds=Pointclouds(), live_frame=frame(0, 1, 1, 4, 5), prev_frame=None)
            out[tag + "first step"] = E(s.step, first, objects("pointclouds") + objects("live_frame") + o("live_frame", no_poses=unposed, two_steps=long) + [b for b in objects("prev_frame", "None", "other structure")]
                                        + [("prev_frame", "clouds", lambda x: cloud(0), KIND)])

            def second(s=s, odom=odom):
                a, b = frame(0, 1, 1, 4, 5), frame(1, 1, 1, 4, 5)
                b.poses = M(1, 1, 1)
                return dict(pointclouds=s.step(Pointclouds(), a)[0], live_frame=b, prev_frame=None if odom == "gt" else a)
            bad = objects("pointclouds") + o("pointclouds", wider=wide, no_normals=without("normals"), no_colors=without("colors")) + objects("live_frame") + o("live_frame", two_steps=long, wider=more)
            if cls is PointFusion:
                bad += o("pointclouds", no_features=without("features"))
            bad += o("live_frame", no_poses=unposed) if odom == "gt" else [b for b in objects("prev_frame", "None") + o("prev_frame", no_poses=unposed, two_steps=long, wider=more)]
            out[tag + "next step"] = E(s.step, second, bad)
            # a step in place which is refused when mapping may have moved the frame already
            out[tag + "next step inplace"] = E(lambda s=s, **k: s.step(inplace=True, **k), second, bad, loose=() if odom == "gt" else ("live_frame.poses", "live_frame.global_vertex_map", "live_frame.global_normal_map"))

        def build(odom, dist_th=0.05, angle_th=20, cls=cls):
            x = cls(odom=odom, **(dict(dist_th=dist_th, angle_th=angle_th) if cls is PointFusion else {}))
            return [x.odom, x.dsratio]
        out[n] = E(build, lambda: dict(odom="gt", dist_th=0.05, angle_th=20), [("odom", repr(v), (lambda x, v=v: v), SHAPE) for v in ("", "GT", "icpslam", "none", None, "gradICP", "ground truth", 3)]
                   + ([b for a in ("dist_th", "angle_th") for b in scalars(a, None, "1", [1.0]) + [(a, "tensor", lambda x: torch.tensor(1.0), KIND)]] if cls is PointFusion else []))
    return out


# ---------------------------------------------------------------- structures

ATTR = ("points", "normals", "colors", "features")


def structures():
    from gradslam.structures import structutils as S
    from gradslam.structures.pointclouds import Pointclouds
    from gradslam.structures.rgbdimages import RGBDImages
    out = {}
    L = lambda v=0: {a: [t(r(v + i, 4 - 2 * b, 2 if a == "features" else 3)) for b in range(2)] for i, a in enumerate(ATTR)}  # noqa: E731
    Pd = lambda v=0: {a: t(r(v + i, 2, 4, 2 if a == "features" else 3)) for i, a in enumerate(ATTR)}  # noqa: E731
    each = lambda f: (lambda xs: [f(x) for x in xs])  # noqa: E731
    one = lambda f: (lambda xs: [f(xs[0])] + xs[1:])  # noqa: E731
    two = lambda f: (lambda xs: xs[:-1] + [f(xs[-1])])  # noqa: E731

    def listed(a, optional=True):
        bad = [] if optional else [(a, "None", lambda x: None, KIND)]
        bad += [(a, n, f, KIND) for n, f in (("tuple", tuple), ("text", lambda x: "abc"), ("number", lambda x: 3), ("padded", lambda x: torch.zeros(2, 4, 3)), ("array", lambda x: np.zeros((2, 4, 3))), ("dict", lambda x: dict(enumerate(x))))]
        fs = {"rows-": lambda x: x[:-1], "rows+": lambda x: torch.cat([x, x[:1]]), "flat": lambda x: x[:, 0], "deep": lambda x: x[None]}
        if a != "features":
            fs.update({"last-": lambda x: x[:, :2], "last+": lambda x: torch.cat([x, x[:, :1]], 1)})
        for n, f in fs.items():
            ws = (("first ", one), ("last ", two), ("every ", each))
            if a == "points" and n[:4] == "rows":
                ws = ws[:0]
            bad += [(a, w + n, g(f), SHAPE) for w, g in ws]
        if a == "features":
            bad += [(a, w + "channels", g(lambda x: x[:, :1]), SHAPE) for w, g in (("first ", one), ("last ", two))]
        else:
            bad += [(a, "fewer", lambda x: x[:1], SHAPE), (a, "more", lambda x: x + x[:1], SHAPE), (a, "none", lambda x: [], SHAPE)] if a != "points" else [(a, "none", lambda x: [], SHAPE)]
        return bad

    def tensors(a, optional=True):
        bad = [(a, n, f, KIND) for n, f in (("list", lambda x: list(x)), ("tuple", tuple), ("text", lambda x: "abc"), ("number", lambda x: 3.0), ("array", lambda x: x.numpy()))]
        sh = ["lead+", "lead-", "item"] + ([] if a == "features" else ["last-", "last+"]) + ([] if a == "points" else ["rows-", "rows+", "batch+"])
        return bad + cut(a, *sh)

    con = lambda **k: Pointclouds(**k)  # noqa: E731
    out["Pointclouds lists"] = E(con, L, [b for a in ATTR for b in listed(a) if not (a == "points" and b[1] in ("padded",))])
    out["Pointclouds padded"] = E(con, Pd, [b for a in ATTR for b in tensors(a) if not (a == "points" and b[1] == "list")])
    shapes_ = [("points", w + n, g(f), SHAPE) for n, f in (("last-", lambda x: x[:, :2]), ("last+", lambda x: torch.cat([x, x[:, :1]], 1)), ("flat", lambda x: x[:, 0]), ("deep", lambda x: x[None])) for w, g in (("first ", one), ("last ", two), ("every ", each))]
    out["Pointclouds list of points"] = E(con, lambda: dict(points=L()["points"]), shapes_ + [b for b in listed("points") if b[1] in ("tuple", "text", "number", "array", "dict", "none")])
    out["Pointclouds padded points"] = E(con, lambda: dict(points=Pd()["points"]), [b for b in tensors("points") if b[1] != "list"] + [("points", "no clouds", lambda x: x[:0], SHAPE), ("points", "flat", lambda x: x.reshape(-1), SHAPE)])
    out["empty []"] = E(lambda pc, x, full: full[x] if pc is None else len(pc[x]), lambda: dict(pc=None, x=0, full=Pointclouds(**L())), [("pc", "empty", lambda x: Pointclouds(), INDEX)])
    for a in ATTR:
        for v in ("_list", "_padded"):
            def fill(pc, value, a=a, v=v):
                setattr(pc, a + v, value)
            out["empty: %s%s =" % (a, v)] = E(fill, lambda a=a, v=v: dict(pc=Pointclouds(**L()), value=[x.clone() for x in L(3)[a]] if v == "_list" else Pointclouds(**L(3)).__getattribute__(a + v).clone()), [("pc", "empty", lambda x: Pointclouds(), SHAPE)])
    # assignments
    only = lambda src: (lambda v=0: {"points": src(v)["points"]} if not v else src(v))  # noqa: E731
    for form, src in (("lists", L), ("padded", Pd), ("lists without attributes", only(L)), ("padded without attributes", only(Pd))):
        for a in ATTR:
            def put(pc, value, a=a):
                setattr(pc, a + "_list", value)

            def put_padded(pc, value, a=a):
                setattr(pc, a + "_padded", value)
            mk = lambda src=src, a=a: dict(pc=Pointclouds(**src()), value=[x.clone() for x in Pointclouds(**src(3))[:].__getattribute__(a + "_list")])  # noqa: E731
            mkp = lambda src=src, a=a: dict(pc=Pointclouds(**src()), value=getattr(Pointclouds(**src(3)), a + "_padded").clone())  # noqa: E731
            rename = lambda bs, drop=(): [("value", n, f, e) for _, n, f, e in bs if n not in drop]  # noqa: E731
            drop = ("first channels", "last channels") if a == "features" else ()
            bad = rename(listed(a, False), drop) + [("value", "fewer", lambda x: x[:1], SHAPE), ("value", "more", lambda x: x + x[:1], SHAPE), ("value", "rows- ", one(lambda x: x[:-1]), SHAPE), ("value", "rows+ ", two(lambda x: torch.cat([x, x[:1]])), SHAPE)]
            out["%s: %s_list =" % (form, a)] = E(put, mk, bad)
            bad = rename(tensors(a)) + [("value", "None", lambda x: None, KIND), ("value", "rows-", lambda x: x[:, :-1], SHAPE), ("value", "rows+", lambda x: torch.cat([x, x[:, :1]], 1), SHAPE), ("value", "batch+", lambda x: torch.cat([x, x[:1]]), SHAPE)]
            if form[:5] == "lists":
                bad += [("value", "padding", lambda x: x.clone().index_put_((torch.tensor(1), torch.tensor(3), torch.tensor(1)), torch.tensor(0.5)), SHAPE), ("value", "padding cancels", lambda x: x.clone().index_put_((torch.tensor([1, 1]), torch.tensor([2, 3]), torch.tensor([0, 0])), torch.tensor([0.5, -0.5])), SHAPE), ("value", "padding negative", lambda x: x.clone().index_put_((torch.tensor(1), torch.tensor(2), torch.tensor(1)), torch.tensor(-1e-3)), SHAPE), ("value", "padding nan", lambda x: x.clone().index_put_((torch.tensor(1), torch.tensor(2), torch.tensor(0)), torch.tensor(float("nan"))), SHAPE)]
            out["%s: %s_padded =" % (form, a)] = E(put_padded, mkp, bad)
        if form.endswith("attributes"):
            continue
        # operations
        pc = lambda src=src: Pointclouds(**src())  # noqa: E731
        bad_op = {
            "offset": (lambda: t(r(3, 2, 1, 3)), [("x", n, f, KIND) for n, f in (("None", lambda x: None), ("text", lambda x: "1"), ("list", lambda x: [1, 2, 3]), ("array", lambda x: np.ones(3)), ("dict", lambda x: {}))]),
            "scale": (lambda: t(r(3, 2, 1, 3)), [("x", n, f, KIND) for n, f in (("None", lambda x: None), ("text", lambda x: "1"), ("list", lambda x: [1, 2, 3]), ("array", lambda x: np.ones(3)), ("dict", lambda x: {}))]),
            "rotate": (lambda: M(0, 2)[:, :3, :3].contiguous(), kinds("x") + sized("x", (3,), (2, 3), (4, 4), (2, 4, 4), (1, 3, 3), (3, 3, 3), (1, 2, 3, 3), (2, 3, 4))),
            "transform": (lambda: M(0, 2), kinds("x") + sized("x", (4,), (3, 4), (3, 3), (2, 3, 3), (1, 4, 4), (3, 4, 4), (1, 2, 4, 4), (2, 3, 4))),
            "pinhole_projection": (lambda: K(0, 2), kinds("x") + sized("x", (4,), (3, 4), (3, 3), (2, 3, 3), (1, 2, 4, 4), (2, 3, 4), (3, 4, 4))),
        }
        for nm, (val, bad) in bad_op.items():
            for sfx in ("", "_") if nm not in ("offset", "scale") else ("_",):
                def act(pc, x, nm=nm, sfx=sfx):
                    return getattr(pc, nm + sfx)(x)
                out["%s: %s%s" % (form, nm, sfx)] = E(act, lambda pc=pc, val=val: dict(pc=pc(), x=val()), bad)
        for op, val in (("+", 0.5), ("-", 0.5), ("*", 2.0), ("/", 2.0)):
            for x in ("", "="):
                def arith(pc, x, op=op, aug=x):
                    if aug:
                        loc = dict(pc=pc, x=x)
                        exec("pc %s= x" % op, loc)
                        return loc["pc"]
                    return eval("pc %s x" % op)
                out["%s: %s%s" % (form, op, x)] = E(arith, lambda pc=pc, val=val: dict(pc=pc(), x=val), [("x", n, (lambda _, f=f: f()), OPERAND) for n, f in
                                                                                                      (("None", lambda: None), ("text", lambda: "1"), ("list", lambda: [1, 2, 3]), ("dict", lambda: {}), ("cloud", lambda: cloud(0)), ("frame", lambda: frame(0)))])
        out["%s: @" % form] = E(lambda pc, x: pc @ x, lambda pc=pc: dict(pc=pc(), x=M(0, 2)), [b[:3] + (OPERAND,) for b in kinds("x", "array")] + sized("x", (3,), (3, 4), (2, 3, 4), (5, 5), (1, 2, 4, 4), (2, 2)))
        # appending
        app = lambda pc, x: pc.append_points(x)  # noqa: E731
        bad = objects("x") + o("x", wider=wide, narrower=lambda x: x[0], no_normals=without("normals"), no_colors=without("colors"), no_features=without("features"),
                               channels=lambda x: Pointclouds(**{a: [y[:, :1] if a == "features" else y for y in getattr(x, a + "_list")] for a in ATTR}))
        out["%s: append_points" % form] = E(app, lambda pc=pc, src=src: dict(pc=pc(), x=Pointclouds(**src(2))), bad)
        bare = without("normals", "colors", "features")
        out["%s: append_points bare" % form] = E(app, lambda pc=pc, bare=bare: dict(pc=bare(pc()), x=bare(pc())),
                                                 [("x", n, (lambda x, f=f, pc=pc: f(pc())), SHAPE) for n, f in (("everything", lambda x: x), ("normals", without("colors", "features")), ("colors", without("normals", "features")), ("features", without("colors", "normals")))])
        # indexing
        idx = [("x", n, (lambda _, f=f: f()), INDEX) for n, f in (("5", lambda: 5), ("2", lambda: 2), ("-3", lambda: -3), ("list", lambda: [0, 2]), ("negative list", lambda: [-3]), ("float tensor", lambda: torch.tensor([0.0])), ("tensor", lambda: torch.tensor([0, 2])),
                                                                  ("square tensor", lambda: torch.tensor([[0, 1]])))]
        out["%s: []" % form] = E(lambda pc, x: pc[x], lambda pc=pc: dict(pc=pc(), x=1), idx)
        for nm in ("open3d", "plotly"):
            if nm == "plotly":
                out["%s: plotly" % form] = E(lambda pc, x: len(pc.plotly(x, as_figure=False).x), lambda pc=pc: dict(pc=pc(), x=0), [("x", repr(v), (lambda _, v=v: v), KIND) for v in (None, 0.0, "0", [0], slice(None))])
            else:
                out["%s: open3d" % form] = E(lambda pc, x: np.asarray(pc.open3d(x).points), lambda pc=pc: dict(pc=pc(), x=0), [("x", repr(v), (lambda _, v=v: v), KIND) for v in (None, 0.0, "0", [0], slice(None))])
    # lists of ragged tensors
    out["list_to_padded"] = E(S.list_to_padded, lambda: dict(x=[t(r(0, 2, 3)), t(r(1, 3, 2))], pad_size=(4, 5)), [("x", "flat item", lambda x: [x[0], x[1][0]], SHAPE), ("x", "deep item", lambda x: [x[0], x[1][None]], SHAPE), ("x", "flat first item", lambda x: [x[0][0], x[1]], SHAPE),
                                                                                                      ("pad_size", "1", lambda x: (4,), SHAPE), ("pad_size", "3", lambda x: [4, 5, 6], SHAPE), ("pad_size", "0", lambda x: (), SHAPE)])
    out["padded_to_list"] = E(S.padded_to_list, lambda: dict(x=t(r(0, 2, 3, 2)), split_size=[(2, 2), 1]), [("x", "flat", lambda x: x[0], SHAPE), ("x", "deep", lambda x: x[None], SHAPE), ("split_size", "fewer", lambda x: x[:1], SHAPE), ("split_size", "more", lambda x: x + x, SHAPE),
                                                                                                   ("split_size", "none", lambda x: [], SHAPE), ("split_size", "triple", lambda x: [(2, 2, 2), 1], SHAPE), ("split_size", "single", lambda x: [1, (2,)], SHAPE)])
    # frames
    for cf in (False, True):
        tag = "frames first: " if cf else "frames last: "
        img = lambda v=0, cf=cf, c=3: t(np.abs(r(v, *((2, 2, c, 3, 4) if cf else (2, 2, 3, 4, c))))) + 0.1  # noqa: E731
        args = lambda cf=cf, img=img: dict(rgb_image=img(), depth_image=img(1, c=1), intrinsics=K(0, 2)[:, None], poses=M(0, 2, 2), channels_first=cf)  # noqa: E731
        ch = ["last-", "last+"] if not cf else []
        swap = lambda x: x.transpose(2, 4).contiguous()  # noqa: E731
        chan = lambda x, cf=cf: x[:, :, :1] if cf else x[..., :1]  # noqa: E731
        both = lambda x, cf=cf: torch.cat([x, x], 2 if cf else -1)  # noqa: E731
        three = lambda x, cf=cf: torch.cat([x, x, x], 2 if cf else -1)  # noqa: E731
        rows_ = lambda x, cf=cf: x[:, :, :, :-1] if cf else x[:, :, :-1]  # noqa: E731
        time = lambda x: torch.cat([x, x[:, :1]], 1)  # noqa: E731
        bad = [b for a in ("rgb_image", "depth_image", "intrinsics", "poses") for b in kinds(a, *(["None"] if a == "poses" else [])) + cut(a, "lead+", "lead-", "batch+")]
        bad += [("rgb_image", "one channel", chan, SHAPE), ("rgb_image", "six channels", both, SHAPE), ("depth_image", "two channels", both, SHAPE), ("depth_image", "three channels", three, SHAPE), ("depth_image", "swapped", swap, SHAPE),
                ("depth_image", "rows", rows_, SHAPE), ("depth_image", "time", time, SHAPE), ("depth_image", "less time", lambda x: x[:, :1], SHAPE), ("intrinsics", "time", lambda x: torch.cat([x, x], 1), SHAPE), ("intrinsics", "3x3", lambda x: x[..., :3, :3], SHAPE), ("intrinsics", "3x4", lambda x: x[..., :3, :], SHAPE),
                ("intrinsics", "4x3", lambda x: x[..., :3], SHAPE), ("poses", "time", time, SHAPE), ("poses", "less time", lambda x: x[:, :1], SHAPE), ("poses", "3x4", lambda x: x[..., :3, :], SHAPE), ("poses", "3x3", lambda x: x[..., :3, :3], SHAPE), ("intrinsics", "batch-", lambda x: x[:1], SHAPE),
                ("poses", "batch-", lambda x: x[:1], SHAPE), ("depth_image", "batch-", lambda x: x[:1], SHAPE)]
        out[tag + "RGBDImages"] = E(RGBDImages, args, bad + scalars("channels_first", None, 1, 0, "yes", [True]))

        def with_pos(cf=cf, args=args):
            return dict(args(), pixel_pos=t(r(4, 2, 2, 3, 4, 3)))
        out[tag + "RGBDImages pixel_pos"] = E(RGBDImages, with_pos, kinds("pixel_pos", "None") + cut("pixel_pos", "last-", "last+", "rows-", "rows+", "lead+", "lead-", "batch+"))
        for a in ("rgb_image", "depth_image", "intrinsics", "poses"):
            def assign(fr, value, a=a):
                setattr(fr, a, value)
            mine = [("value", n, f, e) for x, n, f, e in bad if x == a and n != "None"]
            out[tag + a + " ="] = E(assign, lambda args=args, a=a: dict(fr=RGBDImages(**args()), value=args()[a] * 1.5), mine)
        idx = [("x", n, (lambda _, f=f: f()), INDEX) for n, f in (("2", lambda: 2), ("-3", lambda: -3), ("time 2", lambda: (0, 2)), ("time -3", lambda: (slice(None), -3)), ("three", lambda: (0, 0, 0)), ("four", lambda: (0, 0, slice(None), slice(None))), ("empty", lambda: slice(2, None)),
                                                                  ("empty time", lambda: (0, slice(2, None))), ("empty pair", lambda: (slice(0, 0), slice(0, 0))), ("list", lambda: [0, 2]))]
        out[tag + "[]"] = E(lambda fr, x: fr[x], lambda args=args: dict(fr=RGBDImages(**args()), x=(0, 1)), idx)
    return out


TABLES = (geometry, fusion, odometry, slam, structures)
_CACHE = {}


def table(f):
    if f.__name__ not in _CACHE:
        _CACHE[f.__name__] = f()
    return _CACHE[f.__name__]


def words(n, tier):
    """Histories of good calls g and malformed calls 0..n-1, each ending in a good call."""
    for k in range(n):
        yield (k, "g")
        yield ("g", k, k, "g")
        if tier == "thorough":
            yield ("g", k, "g")
    for i, j in itertools.product(range(n), repeat=2):
        near = i != j and ((i + 1) % n == j or (j - i) % max(n // 3, 1) == 0)
        if near or i != j and tier == "thorough":
            yield (i, j, "g")
        if near and tier == "thorough":
            yield ("g", i, "g", j, "g")


def cases(tier):
    for f in TABLES:
        for name, e in table(f).items():
            for w in words(len(e.bad), tier):
                yield "%s/%s/%s" % (f.__name__, name, " ".join("call" if x == "g" else "%s=%s" % e.bad[x][:2] for x in w)), (f.__name__, name, w)


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype):
            return False
        # the same arithmetic twice; a linear algebra kernel may round by the alignment of its operands
        return np.allclose(a, b, rtol=1e-5, atol=1e-6, equal_nan=True) if a.dtype.kind == "f" else np.array_equal(a, b)
    try:
        return bool(type(a) == type(b) and a == b)
    except Exception:
        return True


def every(x, n):
    """Everything that can be read from a structure: both representations, flags, maps."""
    out = [(n + p[6:], v) for p, v in purity.flat(x)]
    if purity.kind(x) == "Pointclouds":
        names = [a + "_padded" for a in ATTR] + ["has_" + a for a in ATTR] + ["nonpad_mask", "num_points_per_pointcloud", "equisized"]
    elif purity.kind(x) == "RGBDImages":
        names = ["valid_depth_mask", "vertex_map", "normal_map", "global_vertex_map", "global_normal_map", "has_poses", "channels_first", "shape"]
    else:
        names = []
    return out + [y for a in names for y in purity.flat(getattr(x, a), n + "." + a)] + ([(n + " len", len(x))] if names else [])


def state(args):
    # read from copies, so that looking does not fill any cache
    return [y for n, x in args.items() for y in every(copy.deepcopy(x), n)]


def agree(a, b, what, but=()):
    a, b = [[x for x in y if x[0] not in but] for y in (a, b)]
    expect(len(a) == len(b), what + ": %s and %s" % ([p for p, _ in a], [p for p, _ in b]))
    for (p, x), (q, y) in zip(a, b):
        expect(p == q and eq(x, y), "%s: %s is %s, not %s" % (what, p, x, y))


def check(case):
    fn, name, word = case
    e = table(next(f for f in TABLES if f.__name__ == fn))[name]
    steps = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got, ref = e.args(), e.args()
        want = state(ref)
        agree(state(got), want, "two fresh sets of arguments")
        for x in word:
            steps += 1
            if x == "g":
                a, b = e.call(**got), e.call(**ref)
                agree(purity.flat(a), purity.flat(b), "result of the call after a refused call")
            else:
                arg, label, f, errors = e.bad[x]
                value = f(got[arg])
                before = purity.flat(value)
                try:
                    e.call(**dict(got, **{arg: value}))
                except errors:
                    pass
                except Exception as ex:
                    expect(False, "%s = %s: %s (%s) instead of %s" % (arg, label, type(ex).__name__, ex, "/".join(y.__name__ for y in errors)))
                else:
                    expect(False, "%s = %s was accepted" % (arg, label))
                agree(purity.flat(value), before, "the refused value of " + arg)
            if x == "g":
                want = state(ref)
            agree(state(got), want, "arguments after %s" % ("a call" if x == "g" else "a refused call (%s = %s)" % e.bad[x][:2]), () if x == "g" else e.loose)
    return steps


RULE = ("every function of geometry, fusion, odometry, SLAM and structures x the complete list of malformed values of each of its arguments (other kinds of object; other rank, trailing size, batch size, sequence length; "
        "absent poses / normals / colors / features; values in the padding; out-of-range indices) x every history x g, g x x g, x y g (thorough: g x g) of refused calls x, y and correct calls g on the same objects "
        "(x, y: neighbours and thirds of the list; thorough: every pair, and g x g y g for the former); a second set of objects on which only the correct calls are made is the reference: a malformed call raises an error of the declared family, leaves every argument as it is there, "
        "and the correct call that follows gives the same")


def sweeps(tier):
    return [("refusals", lambda: cases(tier), check)]


def main(tier, t0):
    fs = {f.__name__: len(table(f)) for f in TABLES}
    return sweepcheck.run("C31", tier, t0, sweeps(tier), rule=RULE, bounds={"functions": fs, "malformed values": sum(len(e.bad) for f in TABLES for e in table(f).values()), "history": "up to 4 (5) calls"},
                          assumptions=["only refusals the code declares are demanded", "one malformed argument at a time"])


def replay(doc):
    return sweepcheck.replay(doc, sweeps("thorough"))
