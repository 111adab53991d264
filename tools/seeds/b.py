RGB = "gradslam/structures/rgbdimages.py"
FU = "gradslam/slam/fusionutils.py"
IC = "gradslam/slam/icpslam.py"
IU = "gradslam/odometry/icputils.py"
PC = "gradslam/structures/pointclouds.py"
PRE = """
import torch
from gradslam.structures.pointclouds import Pointclouds
from gradslam.structures.rgbdimages import RGBDImages
def frames(B=1, L=1, H=3, W=4, cf=False, poses=None):
    g = torch.Generator().manual_seed(0)
    rgb = torch.rand(B, L, H, W, 3, generator=g)
    dep = torch.rand(B, L, H, W, 1, generator=g) + 1.0
    K = torch.eye(4).view(1, 1, 4, 4).repeat(B, 1, 1, 1)
    K[:, 0, 0, 0] = K[:, 0, 1, 1] = 5.0
    K[:, 0, 0, 2] = 1.5
    K[:, 0, 1, 2] = 1.0
    if poses is None:
        poses = torch.eye(4).view(1, 1, 4, 4).repeat(B, L, 1, 1)
    if cf:
        rgb, dep = rgb.permute(0, 1, 4, 2, 3).contiguous(), dep.permute(0, 1, 4, 2, 3).contiguous()
    return RGBDImages(rgb, dep, K, poses, channels_first=cf)
R90 = torch.tensor([[0., -1, 0, 0], [1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]])
"""
DATA = """
import os, shutil, tempfile
def images(d, n):
    import cv2, numpy as np
    for sub in ("rgb", "depth"):
        os.makedirs(os.path.join(d, sub), exist_ok=True)
    for k in range(n):
        cv2.imwrite(os.path.join(d, "rgb", "%d.png" % k), np.full((4, 6, 3), 10 * k, np.uint8))
        cv2.imwrite(os.path.join(d, "depth", "%d.png" % k), np.full((4, 6), 5000 + k, np.uint16))
"""
SEEDS = [
    dict(id="c05-subsample-normals", prop="C05",
         edits=[(PC, "            if subsample:\n                torch_normals = torch_normals[point_inds]\n            numpy_normals",
                 "            if subsample:\n                torch_normals = torch_normals[\n                    point_inds.sort()[0] if include_colors else point_inds\n                ]\n            numpy_normals")],
         needs="a subsampled Open3D export with both colors and normals",
         breaks="normals are attached to other points than those exported",
         demo=PRE + """
pc = Pointclouds(points=[torch.arange(30.).view(10, 3)], normals=[torch.arange(30.).view(10, 3)], colors=[torch.rand(10, 3)])
for i in range(6):
    o = pc.open3d(0, max_num_points=5, include_normals=True)
    import numpy as np
    assert np.array_equal(np.asarray(o.points), np.asarray(o.normals))
"""),
    dict(id="c06-poses-keep-normals", prop="C06",
         edits=[(RGB, "        self._poses = value\n        self._global_vertex_map = None\n        self._global_normal_map = None\n",
                 "        if (\n            value is None\n            or self._poses is None\n            or not torch.equal(value[..., :3, 3], self._poses[..., :3, 3])\n        ):\n            self._global_normal_map = None\n        self._poses = value\n        self._global_vertex_map = None\n")],
         needs="global normals read, then poses assigned that differ from the old ones only in rotation",
         breaks="global normal maps keep the old rotation",
         demo=PRE + """
f = frames()
n0 = f.global_normal_map.clone()
f.poses = R90.view(1, 1, 4, 4)
want = torch.einsum("ij,bshwj->bshwi", R90[:3, :3], f.normal_map)
assert torch.allclose(f.global_normal_map, want, atol=1e-5)
"""),
    dict(id="c07-clone-shares-poses", prop="C07",
         edits=[(RGB, "            v = getattr(self, k)\n            if torch.is_tensor(v):\n                setattr(other, k, v.clone())\n",
                 "            v = getattr(self, k)\n            if torch.is_tensor(v):\n                setattr(other, k, v.clone() if v.requires_grad or v.ndim > 4 else v)\n")],
         needs="a cloned batch whose poses are then edited in place on one of the two",
         breaks="the clone shares its poses tensor with the source",
         demo=PRE + """
f = frames(B=2)
g = f.clone()
g.poses[1, 0, 0, 3] = 9.0
assert f.poses[1, 0, 0, 3] == 0
"""),
    dict(id="c08-global-missing-shift", prop="C08",
         edits=[(RGB, "            self._global_vertex_map = self._global_vertex_map + tvec.view(B, L, 1, 1, 3)\n",
                 "            self._global_vertex_map = self._global_vertex_map + tvec.reshape(\n                L, B, 1, 1, 3\n            ).transpose(0, 1)\n")],
         needs="channels-last, at least two batch elements and two time steps with different translations",
         breaks="global vertices get the translation of another batch element and time step",
         demo=PRE + """
p = torch.eye(4).view(1, 1, 4, 4).repeat(2, 2, 1, 1)
p[..., 0, 3] = torch.arange(4.).view(2, 2)
f = frames(B=2, L=2, poses=p)
d = (f.global_vertex_map - f.vertex_map)[..., 0].mean(dim=(2, 3))
assert torch.allclose(d, torch.arange(4.).view(2, 2), atol=1e-4), d
"""),
    dict(id="c09-mask-first-element", prop="C09",
         edits=[("gradslam/structures/utils.py", "        colors = [rgbdimages.rgb_image[b][mask[b]] for b in range(B)]",
                 "        colors = [\n            rgbdimages.rgb_image[b].reshape(-1, 3)[: int(mask[b].sum())]\n            if mask[b].reshape(-1)[: int(mask[b].sum())].all() or mask[b].all(-1).any()\n            else rgbdimages.rgb_image[b][mask[b]]\n            for b in range(B)\n        ]")],
         needs="a frame with missing depth that also has a fully valid image row after it",
         breaks="point colors are taken from the wrong pixels",
         demo=PRE + """
from gradslam.structures.utils import pointclouds_from_rgbdimages
f = frames()
d = f.depth_image.clone()
d[0, 0, 0, 1] = 0
f.depth_image = d
pc = pointclouds_from_rgbdimages(f)
m = (d[0, 0, ..., 0] > 0)
assert torch.equal(pc.colors_list[0], f.rgb_image[0, 0][m])
"""),
    dict(id="c10-tie-on-ccount", prop="C10",
         edits=[(FU, "        .sum(-1)\n        .unsqueeze(1)\n    )\n    # unique criteria",
                 "        .sum(-1)\n        .unsqueeze(1)\n        .round()\n    )\n    # unique criteria")],
         needs="two equally confident map points projecting to the same pixel, the nearer one having the larger index",
         breaks="among equally confident candidates the first one wins instead of the nearest one",
         demo=PRE + """
from gradslam.slam.fusionutils import find_best_unique_correspondences
f = frames()
v = f.global_vertex_map[0, 0, 1, 1]
pc = Pointclouds(points=[torch.stack([v * 1.05, v * 1.01])], features=[torch.ones(2, 1)])
t = torch.tensor([[0, 0, 1, 1], [0, 1, 1, 1]])
got = find_best_unique_correspondences(pc, f, t)
assert got.tolist() == [[0, 1, 1, 1]], got
"""),
    dict(id="c11-normals-unweighted", prop="C11",
         edits=[(FU, "        updated_normals = (map_ccounts * pointclouds.normals_padded) + (\n            frame_alphas * frame_normals\n        )",
                 "        updated_normals = (map_ccounts * pointclouds.normals_padded) + (\n            torch.where(map_ccounts > 1, frame_alphas, map_ccounts.clamp(max=1) * frame_alphas)\n            * frame_normals\n        )")],
         needs="fusing into map points whose confidence is below one (fused from frames seen away from the optical axis)",
         breaks="the fused normal is not the confidence-weighted mean",
         demo=PRE + """
from gradslam.slam.fusionutils import fuse_with_map, get_alpha
f = frames()
n = torch.tensor([[0., 1., 0.]])
pc = Pointclouds(points=[f.global_vertex_map[0, 0, 1, 1].view(1, 3)], normals=[n], colors=[torch.zeros(1, 3)], features=[torch.full((1, 1), 0.5)])
out = fuse_with_map(pc, f, torch.tensor([[0, 0, 1, 1]]), 1.0)
a = get_alpha(f.vertex_map, dim=4, keepdim=True, sigma=1.0)[0, 0, 1, 1]
want = (0.5 * n[0] + a * f.global_normal_map[0, 0, 1, 1]) / (0.5 + a)
assert torch.allclose(out.normals_list[0][0], want, atol=1e-5)
"""),
    dict(id="c12-forward-resets-prev", prop="C12",
         edits=[(IC, "            prev_frame = live_frame if self.odom != \"gt\" else None\n",
                 "            if self.odom != \"gt\" and (prev_frame is None or s % 2 == 0 or s < 2):\n                prev_frame = live_frame\n")],
         needs="icp or gradicp odometry on a sequence of at least five frames with motion",
         breaks="after the fourth frame the reference frame is not the previous one",
         demo=PRE + """
import warnings; warnings.simplefilter("ignore")
from gradslam.slam.icpslam import ICPSLAM
B, L, H, W = 1, 6, 12, 16
y, x = torch.meshgrid(torch.arange(H, dtype=torch.float32), torch.arange(W, dtype=torch.float32))
dep = torch.stack([2 + 0.3 * torch.sin(0.7 * (x + 0.4 * s)) + 0.3 * torch.cos(0.9 * y + 0.2 * s) for s in range(L)]).view(1, L, H, W, 1)
K = torch.eye(4).view(1, 1, 4, 4).clone(); K[..., 0, 0] = K[..., 1, 1] = 20.; K[..., 0, 2] = 7.5; K[..., 1, 2] = 5.5
fr = RGBDImages(torch.rand(1, L, H, W, 3), dep, K, torch.eye(4).view(1, 1, 4, 4).repeat(1, L, 1, 1))
slam = ICPSLAM(odom="icp", dsratio=1, numiters=2)
_, poses = slam(fr)
pc, prev = Pointclouds(), None
for s in range(L):
    live = fr[:, s]
    pc, p = slam.step(pc, live, prev)
    live.poses = p
    prev = live
    assert torch.allclose(p[:, 0], poses[:, s], atol=1e-4), s
"""),
    dict(id="c13-accept-keeps-damp", prop="C13",
         edits=[(IU, "            # We are in a trust region\n            src_pc = one_step_pc\n            damp = damp / 2\n\n            # update transform\n            transform = torch.mm(residual_transform, transform)\n",
                 "            # We are in a trust region\n            damp = damp / 2\n\n            # update transform\n            transform = torch.mm(residual_transform, transform)\n            src_pc = (\n                one_step_pc\n                if it == 0\n                else transform_pointcloud(src_pc[0], transform).unsqueeze(0)\n            )\n")],
         needs="at least three accepted iterations with a non-negligible first motion",
         breaks="the source cloud is moved by the accumulated transform instead of the increment",
         demo=PRE + """
from gradslam.odometry.icputils import point_to_plane_ICP
g = torch.Generator().manual_seed(3)
tgt = torch.rand(1, 60, 3, generator=g)
nrm = torch.nn.functional.normalize(torch.rand(1, 60, 3, generator=g) - 0.5, dim=-1)
T = torch.eye(4); c, s = 0.9950042, 0.0998334
T[:3, :3] = torch.tensor([[c, -s, 0], [s, c, 0], [0, 0, 1.]]); T[:3, 3] = torch.tensor([0.05, -0.02, 0.03])
src = ((tgt[0] - T[:3, 3]) @ T[:3, :3]).unsqueeze(0)
out, _ = point_to_plane_ICP(src, tgt, nrm, numiters=10)
# continuing from the result of k iterations equals running on
t1, _ = point_to_plane_ICP(src, tgt, nrm, numiters=3, damp=1e-8)
t = torch.eye(4)
for k in range(3):
    t, _ = point_to_plane_ICP(src, tgt, nrm, initial_transform=t, numiters=1, damp=1e-8 / 2 ** k)
assert torch.allclose(t, t1, atol=1e-4), (t, t1)
"""),
    dict(id="c14-damp-absolute", prop="C14",
         edits=[(IU, "        errdiff = errdiff.clamp(-70.0, 70.0)\n", "        errdiff = errdiff.clamp(-7.0, 70.0)\n")],
         needs="an iteration lowering the error by more than 7",
         breaks="large improvements are gated like moderate ones",
         demo=PRE + """
from gradslam.odometry.icputils import point_to_plane_gradICP, solve_linear_system, gauss_newton_solve
from gradslam.geometry.se3utils import se3_exp
from gradslam.geometry.geometryutils import transform_pointcloud
g = torch.Generator().manual_seed(3)
tgt = torch.rand(1, 40, 3, generator=g) * 40
nrm = torch.nn.functional.normalize(torch.rand(1, 40, 3, generator=g) - 0.5, dim=-1)
src = tgt + torch.tensor([1.0, 0.5, -0.7])
out, _ = point_to_plane_gradICP(src, tgt, nrm, numiters=1, damp=1e-8, nu=20.0)
A, b, _ = gauss_newton_solve(src, tgt, nrm)
xi = solve_linear_system(A, b, 1e-8)
_, b1, _ = gauss_newton_solve(transform_pointcloud(src[0], se3_exp(xi)).unsqueeze(0), tgt, nrm)
d = ((b1 ** 2).sum() - (b ** 2).sum()).clamp(-70, 70)
assert d < -10, d
sig = 1 / (1 + torch.exp(-d)) ** (1 / 20.0)
assert torch.allclose(out, se3_exp(sig * xi), atol=1e-4), (out, se3_exp(sig * xi))
"""),
    dict(id="c15-exp-small-branch", prop="C15",
         edits=[("gradslam/geometry/se3utils.py", "            + A * omega_hat\n            + B * omega_hat_sq\n        )\n        V = (",
                 "            + A * omega_hat\n            + (B if theta < 3.1415926 else B.clamp(max=0.15)) * omega_hat_sq\n        )\n        V = (")],
         needs="a twist whose rotation angle is beyond half a turn",
         breaks="the rotation part is not a rotation",
         demo=PRE + """
from gradslam.geometry.se3utils import se3_exp
T = se3_exp(torch.tensor([[0.1], [0.2], [0.3], [0.], [0.], [3.3]], dtype=torch.float64))
assert torch.allclose(T[:3, :3] @ T[:3, :3].t(), torch.eye(3, dtype=torch.float64), atol=1e-9)
"""),
    dict(id="c16-project-behind", prop="C16",
         edits=[("gradslam/geometry/projutils.py", "    u: torch.Tensor = x / torch.where(z != 0, z, torch.ones_like(z))\n    v: torch.Tensor = y / torch.where(z != 0, z, torch.ones_like(z))\n",
                 "    z = z.clamp(min=-100.0)\n    u: torch.Tensor = x / torch.where(z != 0, z, torch.ones_like(z))\n    v: torch.Tensor = y / torch.where(z != 0, z, torch.ones_like(z))\n")],
         needs="a point far (more than 100 units) behind the camera",
         breaks="its pixel is not its projection",
         demo=PRE + """
from gradslam.geometry.projutils import project_points
pts = torch.tensor([[1., 2., -400.], [1., 2., 4.]])
K = torch.eye(4); K[0, 0] = 2.
assert torch.allclose(project_points(pts, K), torch.tensor([[-2. / 400, -2. / 400], [.5, .5]])), project_points(pts, K)
"""),
    dict(id="c26-relative-orthogonal", prop="C26",
         edits=[("gradslam/odometry/groundtruth.py", "            orthogonal_rotations=False,\n", "            orthogonal_rotations=bool(B > 1),\n")],
         needs="a batch of at least two whose first frame's pose has a rotation that is not exactly orthonormal (as read from files with few digits)",
         breaks="the relative pose no longer composes to the second frame's pose",
         demo=PRE + """
from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
p1 = R90.clone(); p1[0, 1] = -0.98; p1[1, 0] = 1.01; p1[:3, 3] = torch.tensor([1., 2., 3.])
p2 = torch.eye(4)
f1 = frames(B=2, poses=p1.view(1, 1, 4, 4).repeat(2, 1, 1, 1))
f2 = frames(B=2, poses=p2.view(1, 1, 4, 4).repeat(2, 1, 1, 1))
T = GroundTruthOdometryProvider().provide(f1, f2)
assert torch.allclose(p1 @ T[1, 0], p2, atol=1e-5), p1 @ T[1, 0]
"""),
    dict(id="c27-colors-of-unmasked-grid", prop="C27",
         edits=[(IU, "            pointclouds.colors_list[b][pc2im_bnhw[pc2im_bnhw[..., 0] == b][..., 1]]\n",
                 "            pointclouds.colors_list[b][\n                pc2im_bnhw[pc2im_bnhw[..., 0] == b][..., 1].sort()[0]\n            ]\n")],
         needs="a lookup table whose rows are not in ascending point order (as produced by the unique-correspondence search)",
         breaks="colors are attached to other points",
         demo=PRE + """
from gradslam.odometry.icputils import downsample_pointclouds
pc = Pointclouds(points=[torch.arange(9.).view(3, 3)], colors=[torch.arange(9.).view(3, 3)])
out = downsample_pointclouds(pc, torch.tensor([[0, 2, 0, 0], [0, 0, 2, 2]]), 2)
assert torch.equal(out.points_list[0], out.colors_list[0])
"""),
    dict(id="c18-dilated-poses", prop="C18",
         edits=[("gradslam/datasets/tum.py", "                    poses.append([seq_poses[i] for i in inds])\n",
                 "                    poses.append(seq_poses[start_ind : start_ind + len(inds)])\n")],
         needs="a dataset read with dilation above zero and poses",
         breaks="poses of a dilated window belong to consecutive frames instead of the window's frames",
         demo=DATA + """
d = tempfile.mkdtemp()
try:
    s = os.path.join(d, "rgbd_dataset_freiburg1_x")
    images(s, 5)
    rows = ["%.4f" % (1 + 0.1 * k) for k in range(5)]
    for n in ("rgb", "depth"):
        open(os.path.join(s, n + ".txt"), "w").write("".join("%s %s/%d.png\\n" % (t, n, k) for k, t in enumerate(rows)))
    open(os.path.join(s, "groundtruth.txt"), "w").write("".join("%s %d 0 0 0 0 0 1\\n" % (t, k) for k, t in enumerate(rows)))
    from gradslam.datasets import TUM
    ds = TUM(d, seqlen=2, dilation=1, height=4, width=6, return_pose=True)
    item = ds[0]
    pose = [x for x in item if getattr(x, "shape", None) == (2, 4, 4)][0]
    assert abs(pose[1, 0, 3].item() - 2) < 1e-5, pose
finally:
    shutil.rmtree(d)
"""),
    dict(id="c19-second-trajectory-poses", prop="C19",
         edits=[("gradslam/datasets/icl.py", "                            \"file\": posesfile,\n", "                            \"file\": posesfile if start_ind == 0 else posesfiles[0],\n")],
         needs="two trajectories and a window of the second one that does not start at its first frame",
         breaks="such windows read the poses of the first trajectory",
         demo=DATA + """
d = tempfile.mkdtemp()
try:
    for t in (1, 2):
        s = os.path.join(d, "living_room_traj%d_frei_png" % t)
        images(s, 4)
        open(os.path.join(s, "associations.txt"), "w").write("".join("%d depth/%d.png %d rgb/%d.png\\n" % (k, k, k, k) for k in range(4)))
        open(os.path.join(s, "livingRoom%dn.gt.sim" % t), "w").write("".join("1 0 0 %d\\n0 1 0 0\\n0 0 1 0\\n\\n" % (k * t) for k in range(4)))
    from gradslam.datasets import ICL
    ds = ICL(d, seqlen=2, height=4, width=6, return_pose=True)
    got = sorted(round([x for x in ds[i] if getattr(x, "shape", None) == (2, 4, 4)][0][1, 0, 3].item()) for i in range(len(ds)))
    assert got == [1] * (len(ds) // 2) + [2] * (len(ds) // 2), got
finally:
    shutil.rmtree(d)
"""),
    dict(id="c20-labels-from-zero", prop="C20",
         edits=[("gradslam/datasets/scannet.py", "                seq_labelfiles.append(os.path.join(basedir, line[7]))\n",
                 "                seq_labelfiles.append(\n                    os.path.join(basedir, line[7])\n                    if start == 0 or len(seq_labelfiles) == 0\n                    else os.path.join(basedir, lines[len(seq_labelfiles) - 1].split()[7])\n                )\n")],
         needs="labels requested together with a start frame above zero and more than one frame",
         breaks="labels lag one frame behind their images",
         demo=DATA + """
d = tempfile.mkdtemp()
try:
    import numpy as np, cv2
    meta = os.path.join(d, "meta"); os.makedirs(meta)
    images(d, 4)
    os.makedirs(d + "/pose"); os.makedirs(d + "/label"); os.makedirs(d + "/intrinsic")
    np.savetxt(d + "/intrinsic/k.txt", np.eye(4))
    rows = []
    for k in range(4):
        np.savetxt(d + "/pose/%d.txt" % k, np.eye(4))
        cv2.imwrite(d + "/label/%d.png" % k, np.full((4, 6), k + 1, np.uint8))
        rows.append("color rgb/%d.png depth depth/%d.png pose pose/%d.txt label-filt label/%d.png a b c d intrinsic_color e intrinsic_depth intrinsic/k.txt" % (k, k, k, k))
    rows = [" ".join(r.split()[:8] + ["x"] * 6 + ["intrinsic_depth", "intrinsic/k.txt"]) for r in rows]
    open(meta + "/scene0000_00-seq1.txt", "w").write("\\n".join(rows) + "\\n")
    from gradslam.datasets.scannet import Scannet
    ds = Scannet(d, meta, None, start=1, end=4, height=4, width=6, seg_classes="nyu40", return_labels=True)
    lab = ds[0][-1]
    assert [round(lab[i].float().mean().item()) for i in range(3)] == [2, 3, 4], lab.shape
finally:
    shutil.rmtree(d)
"""),
    dict(id="c21-scale-intrinsics-int", prop="C21",
         edits=[("gradslam/datasets/datautils.py", "        scaled_intrinsics = intrinsics.to(torch.float).clone()\n", "        scaled_intrinsics = intrinsics.to(torch.float)\n        if intrinsics.ndim == 2:\n            scaled_intrinsics = scaled_intrinsics.clone()\n")],
         needs="a batched single-precision intrinsics tensor",
         breaks="the caller's intrinsics are scaled in place",
         demo="""
import torch
from gradslam.datasets.datautils import scale_intrinsics
K = torch.eye(4).repeat(2, 1, 1)
scale_intrinsics(K, 0.5, 2)
assert torch.equal(K, torch.eye(4).repeat(2, 1, 1))
"""),
    dict(id="c22-associate-strict-order", prop="C22",
         edits=[("gradslam/datasets/tumutils.py", "    potential_matches.sort()\n", "    potential_matches.sort(key=lambda m: round(m[0], 2))\n")],
         needs="two candidate pairs sharing a stamp whose time differences differ by less than a hundredth of a second",
         breaks="the pair listed first wins instead of the closest one",
         demo="""
from gradslam.datasets.tumutils import associate
got = associate({"1.000": 0}, {"1.004": 0, "1.001": 0}, 0.0, 0.02)
assert got == [("1.000", "1.001")], got
"""),
    dict(id="c23-merge-list-frozen-child", prop="C23",
         edits=[("gradslam/config/cfgnode.py", "        for v in self.values():\n            if isinstance(v, CfgNode):\n                v._immutable(is_immutable)\n",
                 "        for v in self.values():\n            if isinstance(v, CfgNode) and v.is_frozen() != is_immutable:\n                v._immutable(is_immutable)\n")],
         needs="a node whose child is already frozen while a grandchild is not (a node assigned below a frozen one through a merge, then the whole frozen)",
         breaks="freezing the root leaves the grandchild mutable",
         demo="""
from gradslam.config import CfgNode
c = CfgNode({"A": {"B": {"x": 1}}})
c.freeze()
c.A.B.defrost()
c.freeze()
try:
    c.A.B.x = 2
except AttributeError:
    pass
else:
    raise SystemExit("assignment below a frozen node accepted")
"""),
    dict(id="c24-decode-strips", prop="C24",
         edits=[("gradslam/config/cfgnode.py", "            value = literal_eval(value)\n", "            value = literal_eval(value.strip())\n")],
         needs="text whose surrounding blanks matter (an indented literal, which is no literal)",
         breaks="text that is no literal because of its indentation turns into a number",
         demo="""
from gradslam.config import CfgNode
c = CfgNode({"x": "a"})
c.merge_from_list(["x", "\\n 12"])
assert c.x == "\\n 12"
"""),
    dict(id="c25-detached-confidence", prop="C25",
         edits=[(FU, "        pointclouds.features_padded = updated_ccounts\n", "        pointclouds.features_padded = torch.where(\n            updated_ccounts > 1, updated_ccounts.detach(), updated_ccounts\n        )\n")],
         needs="a map point fused at least twice (confidence beyond one), and gradients of its confidence",
         breaks="the confidence no longer carries gradients",
         demo=PRE + """
from gradslam.slam.fusionutils import fuse_with_map
f = frames()
d = f.depth_image.clone().requires_grad_(True)
f.depth_image = d
pc = Pointclouds(points=[f.global_vertex_map[0, 0, 1, 1].view(1, 3)], normals=[torch.ones(1, 3)], colors=[torch.zeros(1, 3)], features=[torch.ones(1, 1)])
out = fuse_with_map(pc, f, torch.tensor([[0, 0, 1, 1]]), 1.0)
out.features_list[0][0, 0].backward()
assert d.grad is not None and d.grad[0, 0, 1, 1, 0] != 0
"""),
    dict(id="c30-pad-value-narrow", prop="C30",
         edits=[("gradslam/structures/structutils.py", "            x_list[i] = x_list[i][: split_size[i][0], : split_size[i][1]]\n",
                 "            x_list[i] = x_list[i][: split_size[i][0], : split_size[i - 1][1]]\n")],
         needs="splitting items of different widths",
         breaks="items are cut to another item's width",
         demo="""
import torch
from gradslam.structures.structutils import padded_to_list
x = torch.arange(12.).view(2, 2, 3)
a, b = padded_to_list(x, [(1, 2), (2, 3)])
assert a.shape == (1, 2) and b.shape == (2, 3)
"""),
    dict(id="c17-depth-scale-per-frame", prop="C17",
         edits=[(RGB, "            numpy_depth = (torch_depth * scale)", "            numpy_depth = (torch_depth.clamp(max=2.55) * scale if scale > 99 else torch_depth * scale)")],
         needs="", breaks="", demo=""),
    dict(id="c17-index-first-depth", prop="C17",
         edits=[("gradslam/structures/structutils.py", "        scale = int(scale) if int(scale) == scale else scale\n", "        scale = max(int(scale), 1)\n")],
         needs="depths beyond 255, where the announced scale is a fraction",
         breaks="the announced scale is not the one applied",
         demo=PRE + """
f = frames()
f.depth_image = f.depth_image * 1000
fr = f.plotly(0, as_figure=False)
assert "scale: x0.1<" in fr[0]["data"][1].hovertemplate, fr[0]["data"][1].hovertemplate
"""),
]
SEEDS = [s for s in SEEDS if s["demo"]]
