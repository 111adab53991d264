"""The functions of each property, described for purity.py."""
import os
import shutil
import tempfile

import numpy as np
import torch

from pcmodel import axis_angle, data, make, se3
from purity import F
from rgbdmodel import images, intr, make_rgbd


def t(x, dt=torch.float32):
    return torch.tensor(np.asarray(x), dtype=dt)


def r(seed, *shape):
    n = int(np.prod(shape))
    return ((np.arange(n) * 7 + seed * 5 + 3) % 17 / 8.0 - 1.0 + 0.01 * seed).reshape(shape)


def M(v, *ld, dt=torch.float32):
    n = int(np.prod(ld)) if ld else 1
    m = np.stack([se3(axis_angle([0.3 + i, 1.0 - v, 0.2 * i + 0.1], 0.4 + 0.3 * i + 0.5 * v), [0.5 * i, -v, 0.25]) for i in range(n)])
    return t(m.reshape(tuple(ld) + (4, 4)), dt)


def algebra():
    from gradslam.geometry import geometryutils as G, se3utils as S
    q = lambda v: t(r(v, 3, 4) + 0.3)  # noqa: E731
    out = {
        "so3_hat": F(S.so3_hat, lambda v: [t(r(v, 3))], other=lambda: [t(r(2, 3, 1))]),
        "se3_hat": F(S.se3_hat, lambda v: [t(r(v, 6))], other=lambda: [t(r(2, 6)) * 2]),
        "so3_exp": F(S.so3_exp, lambda v: [t(r(v, 3))], other=lambda: [t(r(2, 3, 1))]),
        "so3_exp small": F(S.so3_exp, lambda v: [t(r(v, 3) * (1e-4, 1.0)[v])]),
        "se3_exp": F(S.se3_exp, lambda v: [t(r(v, 6))], other=lambda: [t(r(2, 6, 1))]),
        "se3_exp small": F(S.se3_exp, lambda v: [t(r(v, 6) * (1.0, 1e-4)[v])]),
        "se3_exp double": F(S.se3_exp, lambda v: [t(r(v, 6), torch.float64)]),
        "homogenize_points": F(G.homogenize_points, lambda v: [t(r(v, 3, 3))], other=lambda: [t(r(2, 2, 2))]),
        "unhomogenize_points": F(G.unhomogenize_points, lambda v: [t(r(v, 3, 4))], other=lambda: [t(r(2, 2, 3))]),
        "quaternion_to_axisangle": F(G.quaternion_to_axisangle, lambda v: [q(v)], other=lambda: [t(r(2, 4))]),
        "normalize_quaternion": F(G.normalize_quaternion, lambda v: [q(v)], other=lambda: [t(r(2, 4))]),
        "quaternion_to_rotation_matrix": F(G.quaternion_to_rotation_matrix, lambda v: [q(v)], other=lambda: [t(r(2, 4))]),
        "inverse_transformation": F(G.inverse_transformation, lambda v: [M(v, 2)], other=lambda: [M(0)]),
        "compose_transformations": F(G.compose_transformations, lambda v: [M(v, 2), M(1 - v, 2)], other=lambda: [M(0), M(1)]),
        "relative_transformation": F(G.relative_transformation, lambda v: [M(v, 2), M(1 - v, 2)], ({}, dict(orthogonal_rotations=True)), other=lambda: [M(0), M(1)]),
        "transform_pts_3d": F(G.transform_pts_3d, lambda v: [t(r(v, 5, 3)), M(v)]),
        "transform_pts_nd_KF": F(G.transform_pts_nd_KF, lambda v: [t(r(v, 2, 3)), M(v, 2)]),
        "transform_pointcloud": F(G.transform_pointcloud, lambda v: [t(r(v, 5, 3)), M(v)], other=lambda: [t(r(1, 2, 3)), M(0)]),
        "transform_normals": F(G.transform_normals, lambda v: [t(r(v, 5, 3)), M(v)], other=lambda: [t(r(1, 2, 3)), M(0)]),
    }
    return out


def K(v, B=None, n=4):
    k = [intr(5.0 + i + v, 5.5 - v, 2.4, 2.1 + 0.5 * v)[:n, :n] if n == 4 else intr(5.0 + i + v, 5.5 - v, 2.4, 2.1 + 0.5 * v)[:3, :3] for i in range(B or 1)]
    return t(np.stack(k) if B else k[0])


def projection():
    from gradslam.geometry import geometryutils as G, projutils as P
    return {
        "project_points": F(P.project_points, lambda v: [t(np.abs(r(v, 5, 3)) + 0.5), K(v)], ({}, dict(eps=1e-2)), other=lambda: [t(np.abs(r(2, 2, 5, 3)) + 0.5), K(0, 2)]),
        "unproject_points": F(P.unproject_points, lambda v: [t(r(v, 5, 2) * 3), K(v)[:3, :3].contiguous(), t(np.abs(r(v, 5)) + 0.5)]),
        "inverse_intrinsics": F(P.inverse_intrinsics, lambda v: [K(v)], ({}, dict(eps=0.5)), other=lambda: [K(0, 3)]),
        "inverse_intrinsics 3x3": F(P.inverse_intrinsics, lambda v: [K(v, None, 3)], other=lambda: [K(0, 2, 3)]),
        "homogenize_points": F(P.homogenize_points, lambda v: [t(r(v, 3, 3))], other=lambda: [t(r(2, 2, 2))]),
        "unhomogenize_points": F(P.unhomogenize_points, lambda v: [t(r(v, 3, 4))], ({}, dict(eps=0.7)), other=lambda: [t(r(2, 2, 3))]),
        "create_meshgrid": F(lambda *a, **k: G.create_meshgrid(*a, **k), lambda v: [3, 4], (dict(normalized_coords=False), {}), other=lambda: [4, 3]),
        "normalize_pixel_coords": F(G.normalize_pixel_coords, lambda v: [t(r(v, 5, 2) * 3), 7, 9], other=lambda: [t(r(v0, 5, 2) * 3) if (v0 := 1) else None, 9, 7]),
        "unnormalize_pixel_coords": F(G.unnormalize_pixel_coords, lambda v: [t(r(v, 5, 2)), 7, 9], other=lambda: [t(r(1, 5, 2)), 9, 7]),
        "cam2pixel": F(G.cam2pixel, lambda v: [t(np.abs(r(v, 2, 3, 4, 3)) + 0.5), K(v)], ({}, dict(eps=0.3))),
        "pixel2cam": F(G.pixel2cam, lambda v: [t(np.abs(r(v, 2, 1, 3, 4)) + 0.5), K(v), t(np.abs(r(1 + v, 2, 3, 4, 3)))]),
    }


def frame(v, B=1, L=1, H=3, W=4, cf=False, poses=True):
    m = images(B, L, H, W, seed=1 + 3 * v, zeros=() if v else (5,), poses=poses, cf=cf)
    return make_rgbd(m)


def cloud(v, counts=(4, 2), attrs=("normals", "colors", "features"), C=1):
    return make(data(counts, attrs, C, seed=1 + 2 * v))


def conversion():
    from gradslam.structures.utils import pointclouds_from_rgbdimages as f
    from gradslam.slam.fusionutils import update_map_aggregate as agg
    return {
        "pointclouds_from_rgbdimages": F(f, lambda v: [frame(v)], (dict(global_coordinates=True), dict(global_coordinates=False), dict(filter_missing_depths=False)), other=lambda: [frame(1, 2, 1, 4, 3)], depth=3),
        "channels first": F(f, lambda v: [frame(v, cf=True)], ({},), other=lambda: [frame(1, 2, 1, 4, 3)], depth=3),
        "update_map_aggregate": F(agg, lambda v: [cloud(v, (4,), ("normals", "colors")), frame(v)], ({},), depth=4),
    }


def matched(v):
    """A map made of a frame's own points (moved a little), and a frame seeing them."""
    from gradslam.structures.utils import pointclouds_from_rgbdimages
    from gradslam.structures.pointclouds import Pointclouds
    fr = frame(0, H=4, W=5)
    pc = pointclouds_from_rgbdimages(fr)
    keep = [i for i in range(len(pc.points_list[0])) if i % 5 != 4]
    pc = Pointclouds(*([getattr(pc, a + "_list")[0][keep].clone()] for a in ("points", "normals", "colors")), features=[t(np.abs(r(v, len(keep), 1)) + 0.2)])
    pc.points_list = [x + 0.004 * (v + 1) * t(r(v, *x.shape)) for x in pc.points_list]
    return pc, fr


def rows(pc, fr, *keep):
    from gradslam.slam.fusionutils import find_active_map_points
    x = find_active_map_points(pc, fr)
    return x[torch.arange(len(x)) % 7 != keep[0]] if keep else x


def with_rows(v, f=rows):
    pc, fr = matched(v)
    x = f(pc, fr)
    return [pc, fr, x[:8].clone()]


def uniq(pc, fr):
    x = rows(pc, fr)
    seen, out = set(), []
    for row in x.tolist():
        if tuple(row[2:]) not in seen:
            seen.add(tuple(row[2:]))
            out.append(row)
    return torch.tensor(out, dtype=torch.int64)


def search():
    from gradslam.slam import fusionutils as U
    return {
        "are_points_close": F(U.are_points_close, lambda v: [t(r(v, 5, 3)), t(r(3 - v, 5, 3)) * (1 - 0.7 * v), 0.9], other=lambda: [t(r(1, 2, 3)), t(r(0, 2, 3)), 0.5]),
        "are_normals_similar": F(U.are_normals_similar, lambda v: [t(r(v, 5, 3)), t(r(3 - v, 5, 3)) * (1 - 2 * v), 0.3], other=lambda: [t(r(1, 2, 3)), t(r(0, 2, 3)), 0.5]),
        "find_active_map_points": F(U.find_active_map_points, lambda v: list(matched(v)), other=lambda: [cloud(0, (3, 5)), frame(1, 2)]),
        "find_similar_map_points": F(U.find_similar_map_points, lambda v: with_rows(v), (dict(dist_th=0.5, dot_th=0.5), dict(dist_th=0.004, dot_th=0.1)), depth=3),
        "find_best_unique_correspondences": F(U.find_best_unique_correspondences, lambda v: with_rows(v), ({},), depth=3),
        "find_correspondences": F(U.find_correspondences, lambda v: list(matched(v)), (dict(dist_th=0.5, dot_th=0.5), dict(dist_th=0.004, dot_th=0.1)), depth=3),
    }


def fusion():
    from gradslam.slam import fusionutils as U
    return {
        "get_alpha": F(U.get_alpha, lambda v: [t(r(v, 5, 3))], (dict(sigma=0.6), dict(sigma=2.0, keepdim=True), dict(sigma=0.6, eps=0.2)), other=lambda: [t(r(1, 2, 3)), 0.5]),
        "fuse_with_map": F(U.fuse_with_map, lambda v: with_rows(v, uniq), (dict(sigma=0.6), dict(sigma=1.5)), depth=3),
        "update_map_fusion": F(U.update_map_fusion, lambda v: list(matched(v)), (dict(dist_th=0.5, dot_th=0.5, sigma=0.6), dict(dist_th=0.02, dot_th=0.5, sigma=1.5)), depth=3),
    }


def grid(v, n=5):
    y, x = np.mgrid[0:n, 0:n].astype(float)
    p = np.stack([x, y, 0.3 * np.sin(1.1 * x + v) + 0.2 * np.cos(1.7 * y) + 3], -1).reshape(-1, 3)
    nr = np.stack([-0.33 * np.cos(1.1 * x + v), 0.34 * np.sin(1.7 * y), np.ones_like(x)], -1).reshape(-1, 3)
    return p, nr / np.linalg.norm(nr, axis=1, keepdims=True)


def align(v, n=5):
    p, nr = grid(v, n)
    s = (p - 2) @ axis_angle([0.2, 1, 0.4], 0.03 + 0.02 * v).T + 2 + 0.05
    return [t(s)[None], t(p)[None], t(nr)[None]]


def providers(cls, **kw):
    from gradslam.structures.pointclouds import Pointclouds

    def mk(v, B=2):
        maps, live = [], []
        for b in range(B):
            s, p, n = align((v + b) % 2 + 0.5 * b, 4 + b)
            maps.append((p[0], n[0]))
            live.append(s[0])
        return [Pointclouds([m[0] for m in maps], [m[1] for m in maps]), Pointclouds(live)]
    prov = {}

    def call(m, lv, k="a"):
        if k not in prov:
            prov[k] = cls(**dict(kw, **({"damp": 0.3} if k == "b" else {})))
        return prov[k].provide(m, lv)
    return F(call, mk, ({}, dict(k="b")), other=lambda: mk(0, 3), depth=3)


def icp():
    from gradslam.odometry import icputils as I
    from gradslam.odometry.icp import ICPOdometryProvider
    e = np.eye(4)
    return {
        "solve_linear_system": F(I.solve_linear_system, lambda v: [t(r(v, 9, 6) + np.eye(9, 6)), t(r(1 - v, 9, 1)), 0.5], other=lambda: [t(r(2, 7, 6) + np.eye(7, 6)), t(r(1, 7, 1)), 2.0]),
        "gauss_newton_solve": F(I.gauss_newton_solve, lambda v: align(v), ({}, dict(dist_thresh=0.3)), depth=3),
        "point_to_plane_ICP": F(I.point_to_plane_ICP, lambda v: align(v) + [M(v) * 0 + t(e) + 0.01 * (M(v) - t(e)) * t([[0, 0, 0, 1]] * 3 + [[0] * 4])], (dict(numiters=3), dict(numiters=2, damp=0.7, dist_thresh=0.5)), depth=3),
        "provider": providers(ICPOdometryProvider, numiters=2, damp=1e-3),
    }


def gradicp():
    from gradslam.odometry import icputils as I
    from gradslam.odometry.gradicp import GradICPOdometryProvider
    return {
        "point_to_plane_gradICP": F(I.point_to_plane_gradICP, lambda v: align(v) + [t(np.eye(4))], (dict(numiters=3), dict(numiters=2, damp=0.7, dist_thresh=0.5, lambda_max=3.0, B=0.5, B2=2.0, nu=2.0)), depth=3),
        "provider": providers(GradICPOdometryProvider, numiters=2, damp=1e-3, nu=2.0),
    }


def gt():
    from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
    p = GroundTruthOdometryProvider()

    def posed(v, w, B=2):
        f = frame(v, B, 1, 2, 2)
        f.poses = M(w, B, 1)
        return f
    return {"provider": F(p.provide, lambda v: [posed(v, v), posed(v, 1 - v)], other=lambda: [posed(0, 0, 3), posed(0, 1, 3)])}


def downsampling():
    from gradslam.odometry import icputils as I
    return {
        "downsample_rgbdimages": F(I.downsample_rgbdimages, lambda v: [frame(v)], (dict(ds_ratio=1), dict(ds_ratio=2)), other=lambda: [frame(1, 2, 1, 4, 3), 2], depth=4),
        "downsample_pointclouds": F(I.downsample_pointclouds, lambda v: [cloud(v), torch.tensor([[0, 0, 0, 0], [0, 1, 2, 4 * v], [0, 2, 1, 2], [1, 0, 2, 2], [1, 1, 0, 1 + v]])], (dict(ds_ratio=1), dict(ds_ratio=2)),
                                    other=lambda: [cloud(1, (2,)), torch.tensor([[0, 1, 0, 0]]), 1], depth=4),
    }


def lists():
    from gradslam.structures import structutils as S
    mk = lambda v: [t(r(v, 2, 3)), t(r(v + 2, 3, 2))]  # noqa: E731

    def padded(a, b, **k):
        return S.list_to_padded([a, b], **k)

    def unpadded(x, **k):
        return S.padded_to_list(x, **k)
    return {
        "list_to_padded": F(padded, mk, ({}, dict(pad_value=2.0), dict(pad_size=(4, 5))), other=lambda: [t(r(0, 1, 3)), t(r(1, 4, 3))]),
        "list_to_padded equal": F(lambda a, b: S.list_to_padded([a, b], equisized=True), lambda v: [t(r(v, 2, 3)), t(r(v + 2, 2, 3))]),
        "padded_to_list": F(unpadded, lambda v: [t(r(v, 2, 3, 2))], (dict(split_size=[(2, 2), (3, 1)]), dict(split_size=[1, 3]))),
    }


def utilities():
    from gradslam.datasets import datautils as D
    pal = {"a": (1, 2, 3), "b": (200, 100, 50), "c": (0, 0, 9)}
    out = {}
    for nm, w in (("array", lambda x: x), ("tensor", lambda x: torch.from_numpy(x))):
        out.update({
            "normalize_image " + nm: F(D.normalize_image, lambda v, w=w: [w(np.abs(r(v, 3, 4, 3)).astype(np.float32) * 100)], other=lambda w=w: [w(np.abs(r(1, 2, 2, 3)) * 100)]),
            "channels_first " + nm: F(D.channels_first, lambda v, w=w: [w(r(v, 3, 4, 3))], other=lambda w=w: [w(r(v0, 2, 3, 4, 3)) if (v0 := 1) else None]),
            "scale_intrinsics " + nm: F(D.scale_intrinsics, lambda v, w=w: [w(np.stack([intr(5.0 + v, 6, 2, 3)] * 2)), 0.5, 2.0], other=lambda w=w: [w(intr(5.0, 6, 2, 3)), 0.25, 3.0]),
            "pointquaternion_to_homogeneous " + nm: F(D.pointquaternion_to_homogeneous, lambda v, w=w: [w(r(v, 3, 7) + 0.3)], other=lambda w=w: [w(r(1, 7))]),
        })
    out["poses_to_transforms list"] = F(D.poses_to_transforms, lambda v: [[M(v + i).double().numpy() for i in range(3)]], other=lambda: [[M(i).double().numpy() for i in range(2)]])
    out["poses_to_transforms array"] = F(D.poses_to_transforms, lambda v: [M(v, 3).double().numpy()])
    out["create_label_image"] = F(D.create_label_image, lambda v: [(np.arange(12).reshape(3, 4) * (v + 1)) % 3, dict(pal)], other=lambda: [np.array([[2, 1]]), {"x": (5, 5, 5), "y": (6, 6, 6), "z": (7, 7, 7)}])
    return out


def labels():
    from gradslam.datasets import scannet as S
    return {
        "nyu40_to_scannet20 array": F(S.nyu40_to_scannet20, lambda v: [((np.arange(12).reshape(3, 4) * (5 + 2 * v)) % 41).astype(np.uint8)], other=lambda: [np.arange(41)]),
        "nyu40_to_scannet20 tensor": F(S.nyu40_to_scannet20, lambda v: [torch.arange(12).reshape(3, 4) * (5 + 2 * v) % 41], other=lambda: [torch.arange(41)]),
    }




def in_file(f):
    """f(path) on a file whose place stays the same while its lines change."""
    def call(lines, **kw):
        d = os.path.join(tempfile.gettempdir(), "purity-%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        try:
            p = os.path.join(d, "list.txt")
            with open(p, "w") as g:
                g.write("\n".join(lines) + "\n")
            os.utime(p, (1.5e9, 1.5e9))
            return f(p, **kw)
        finally:
            shutil.rmtree(d)
    return call


def tum():
    from gradslam.datasets import tumutils as U
    imgs = lambda v: ["# a", "%d.25 rgb/%d.png" % (1 + v, v), "3.5 rgb/b%d.png" % v, "", "%d.75 rgb/c.png x" % (5 - v)]  # noqa: E731
    traj = lambda v: ["# a", "%d.25 1 2 %d 0 0 0.6 0.8" % (1 + v, v), "3.5 0 0 1 0.5 0.5 0.5 %g" % (0.5 - v), "4.5 0 1 nan 0 0 0 1"]  # noqa: E731
    d = lambda v: [{"1.0": ["a"], "2.0": ["b"], "%d.0" % (3 + v): ["c"]}, {"1.%d1" % v: ["x"], "2.2": ["y"], "3.05": ["z"]}]  # noqa: E731
    import contextlib
    import io

    def read_traj(p, **kw):
        with contextlib.redirect_stderr(io.StringIO()):
            return U.read_trajectory(p, **kw)
    return {
        "read_file_list": F(in_file(U.read_file_list), lambda v: [imgs(v)], ({}, dict(start=1, end=2)), other=lambda: [["9.0 q/x.png"]]),
        "read_trajectory": F(in_file(read_traj), lambda v: [traj(v)], ({}, dict(matrix=False)), other=lambda: [["9.0 1 1 1 0 0 0 1"]]),
        "transform44": F(U.transform44, lambda v: [[1.0, 1.0, 2.0 + v, 3.0, 0.5, 0.5 - v, 0.5, 0.5]], other=lambda: [(1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0)]),
        "associate": F(U.associate, d, (dict(offset=0.0, max_difference=0.3), dict(offset=-1.0, max_difference=0.3)), other=lambda: [{"1.0": []}, {"1.0": []}, 0.0, 1.0]),
    }


def configs():
    from gradslam.config.cfgnode import CfgNode

    def load_yaml(p, ext=".yaml", merge=False):
        q = os.path.splitext(p)[0] + ext
        os.rename(p, q)
        if merge:
            c = CfgNode({"A": 0, "B": {"C": [0], "D": "x"}})
            c.merge_from_file(q)
            return dict(c), dict(c.B)
        with open(q) as g:
            c = CfgNode.load_cfg(g)
        return dict(c), dict(c.B)
    y = lambda v: ["A: %d" % (1 + v), "B:", "  C: [1, %d]" % v, "  D: t%d" % v]  # noqa: E731
    p = lambda v: ["from gradslam.config import CfgNode", "cfg = CfgNode({'A': %d, 'B': {'C': [1, %d], 'D': 't%d'}})" % (1 + v, v, v)]  # noqa: E731
    o = lambda: [["B: {C: [7], D: other}", "A: 3"]]  # noqa: E731
    return {
        "yaml file": F(in_file(load_yaml), lambda v: [y(v)], ({}, dict(merge=True)), other=o),
        "yaml text": F(lambda lines: (lambda c: (dict(c), dict(c.B)))(CfgNode.load_cfg("\n".join(lines))), lambda v: [y(v)], other=o),
        "python file": F(in_file(lambda q: load_yaml(q, ".py")), lambda v: [p(v)], other=lambda: [["cfg = dict(A=3, B=dict(C=[7], D='other'))"]]),
        "value": F(lambda s: CfgNode._decode_cfg_value(s[0]), lambda v: [["[1, %d, {'a': [2]}]" % v]], other=lambda: [["[4]"]]),
    }
