exec(open("/verif/tools/seeds/b.py").read().split("SEEDS = ")[0])
CF = "gradslam/config/cfgnode.py"
SEEDS = [
    dict(id="c08-first-intrinsics", prop="C08",
         edits=[(RGB, "        Kinv = Kinv.repeat(1, L, 1, 1)\n", "        Kinv = Kinv[:1].expand(B, L, -1, -1)\n")],
         needs="a batch whose elements have different intrinsics",
         breaks="every batch element is unprojected with the first element's intrinsics",
         demo=PRE + """
f = frames(B=2)
K = f.intrinsics.clone()
K[1, 0, 0, 0] = 9.0
g = RGBDImages(f.rgb_image, f.depth_image, K)
x = (torch.arange(4.) - 1.5) / 9.0
assert torch.allclose(g.vertex_map[1, 0, ..., 0], x * g.depth_image[1, 0, ..., 0], atol=1e-4)
"""),
    dict(id="c06-same-translation", prop="C06",
         edits=[(RGB, "            self._assert_shape(value, self._poses_shape)\n        self._poses = value\n        self._global_vertex_map = None\n        self._global_normal_map = None\n",
                 "            self._assert_shape(value, self._poses_shape)\n        moved = (\n            value is None\n            or self._poses is None\n            or not torch.equal(value[..., 3], self._poses[..., 3])\n        )\n        self._poses = value\n        if moved:\n            self._global_vertex_map = None\n            self._global_normal_map = None\n")],
         needs="global maps read, then poses replaced by ones which only rotate the camera in place",
         breaks="global vertex and normal maps stay those of the old poses",
         demo=PRE + """
f = frames()
f.global_vertex_map, f.global_normal_map
p = torch.eye(4).view(1, 1, 4, 4).clone()
p[0, 0, :2, :2] = torch.tensor([[0., -1.], [1., 0.]])
f.poses = p
assert torch.allclose(f.global_vertex_map, torch.einsum("bsij,bshwj->bshwi", p[..., :3, :3], f.vertex_map), atol=1e-5)
"""),
    dict(id="c13-stops-when-flat", prop="C13",
         edits=[(IU, "            # update transform\n            transform = torch.mm(residual_transform, transform)\n\n        else:\n            damp = damp * 2\n",
                 "            # update transform\n            transform = torch.mm(residual_transform, transform)\n\n        elif damp * 2 > 1:\n            # the steps have become too small to matter\n            break\n\n        else:\n            damp = damp * 2\n")],
         needs="a rejected step while the damping is between one half and one or above, with iterations left",
         breaks="iterations after the rejection never happen, although a shorter step would be accepted",
         demo=PRE + """
import gradslam.odometry.icputils as iu
n = []
orig = iu.solve_linear_system
iu.solve_linear_system = lambda A, b, damp=1e-8: (n.append(float(damp)), orig(A, b, damp))[1]
src = torch.tensor([[[0., 0, 0], [1, 0, 0], [0, 1, 0]]])
nrm = torch.tensor([[[0., 0, 1]]]).repeat(1, 3, 1)
iu.point_to_plane_ICP(src, src.clone(), nrm, numiters=5, damp=0.75)
assert n == [0.75, 1.5, 3.0, 6.0, 12.0], n
"""),
    dict(id="c12-active-cache", prop="C12",
         edits=[(IC, "            pc2im_bnhw = find_active_map_points(pointclouds, prev_frame)\n",
                 "            if getattr(self, \"_active_frame\", None) is not prev_frame:\n                self._active_frame = prev_frame\n                self._active_points = find_active_map_points(pointclouds, prev_frame)\n            pc2im_bnhw = self._active_points\n")],
         needs="two steps taken with the same previous frame on maps that differ",
         breaks="the second step aligns against the points of the first step's map",
         demo=PRE + """
from gradslam.slam.icpslam import ICPSLAM
def one(slams):
    out = []
    for k, s in enumerate(slams):
        f = frames(L=2, H=8, W=8)
        prev, live = (PREV, f[:, 1])
        m, _ = s.step(Pointclouds(), frames(L=2, H=8, W=8)[:, 0].clone() if k else scaled(), None)
        out.append(s.step(m, live.clone(), prev)[1])
    return out
def scaled():
    f = frames(H=8, W=8)
    d = f.depth_image.clone()
    d[:, :, :, ::2] = 0
    return RGBDImages(f.rgb_image, d, f.intrinsics, f.poses)
PREV = frames(H=8, W=8)
a = ICPSLAM(odom="icp", dsratio=1, numiters=3)
got = one([a, a])
want = one([ICPSLAM(odom="icp", dsratio=1, numiters=3), ICPSLAM(odom="icp", dsratio=1, numiters=3)])
for g, w in zip(got, want):
    assert torch.equal(g, w), (g, w)
"""),
    dict(id="c23-clone-shares-registers", prop="C23",
         edits=[(CF, "        r\"\"\"Recursively copy this `CfgNode`. \"\"\"\n        return copy.deepcopy(self)\n",
                 "        r\"\"\"Recursively copy this `CfgNode`. \"\"\"\n        other = copy.deepcopy(self)\n        if self.is_frozen():\n            # a frozen tree can share what it never changes\n            for k, v in self.items():\n                if isinstance(v, CfgNode):\n                    dict.__setitem__(other, k, v)\n        return other\n")],
         needs="a frozen tree with children is cloned, the clone is defrosted and changed below its root",
         breaks="the original changes (and thaws) together with its clone",
         demo="""
from gradslam.config import CfgNode
c = CfgNode({"A": {"B": 1}})
c.freeze()
d = c.clone()
d.defrost()
d.A.B = 2
assert c.A.B == 1 and c.A.is_frozen()
"""),
    dict(id="c16-grid-memo-units", prop="C16",
         edits=[("gradslam/geometry/geometryutils.py", "    xs: Optional[torch.Tensor] = None\n    ys: Optional[torch.Tensor] = None\n",
                 "    grids = create_meshgrid.__dict__.setdefault(\"grids\", {})\n    if (height, width) in grids:\n        # the same few image sizes come back all the time\n        return grids[height, width].clone()\n    xs: Optional[torch.Tensor] = None\n    ys: Optional[torch.Tensor] = None\n"),
                ("gradslam/geometry/geometryutils.py", "    return base_grid.permute(1, 2, 0).unsqueeze(0)  # 1 xH x W x 2",
                 "    grids[height, width] = base_grid.permute(1, 2, 0).unsqueeze(0)  # 1 xH x W x 2\n    return grids[height, width].clone()")],
         needs="grids of one image size asked for in both kinds of units, one after the other",
         breaks="the second grid has the units of the first",
         demo=PRE + """
from gradslam.geometry.geometryutils import create_meshgrid
a = create_meshgrid(3, 4, True)
b = create_meshgrid(3, 4, False)
assert float(a.max()) == 1.0 and float(b[0, 2, 3].max()) == 3.0, (a, b)
"""),
    dict(id="c06-intrinsics-memo", prop="C06",
         edits=[("gradslam/geometry/projutils.py", "    Kinv = torch.zeros_like(K)\n",
                 "    last = inverse_intrinsics.__dict__.get(\"last\")\n    if last is not None and last[0] is K and not K.requires_grad:\n        # sequences are unprojected frame by frame with the same camera\n        return last[1].clone()\n    Kinv = torch.zeros_like(K)\n"),
                ("gradslam/geometry/projutils.py", "    Kinv[..., -1, -1] = 1\n    return Kinv",
                 "    Kinv[..., -1, -1] = 1\n    if not K.requires_grad:\n        inverse_intrinsics.last = (K, Kinv.clone())\n    return Kinv")],
         needs="maps read, the intrinsics tensor changed in place and assigned again",
         breaks="the maps are recomputed with the inverse of the old intrinsics",
         demo=PRE + """
f = frames()
f.vertex_map
K = f.intrinsics
K[0, 0, 0, 0] = 9.0
f.intrinsics = K
x = (torch.arange(4.) - float(K[0, 0, 0, 2])) / 9.0
assert torch.allclose(f.vertex_map[0, 0, ..., 0], x * f.depth_image[0, 0, ..., 0], atol=1e-4)
"""),
    dict(id="c27-downsample-memo", prop="C27",
         edits=[(IU, "    B = len(rgbdimages)\n\n    # images are indexed",
                 "    last = downsample_rgbdimages.__dict__.get(\"last\")\n    if last is not None and last[0] is rgbdimages and last[1] == ds_ratio:\n        # the last frame is asked for again when it becomes the previous one\n        return last[2].clone()\n    frame = rgbdimages\n    B = len(rgbdimages)\n\n    # images are indexed"),
                (IU, "    return Pointclouds(points=points, normals=normals, colors=colors)",
                 "    cloud = Pointclouds(points=points, normals=normals, colors=colors)\n    downsample_rgbdimages.last = (frame, ds_ratio, cloud)\n    return cloud.clone()")],
         needs="the same frame object downsampled twice at one ratio with an assignment to it (depth, poses, intrinsics) in between",
         breaks="the second cloud is that of the frame before the assignment",
         demo=PRE + """
from gradslam.odometry.icputils import downsample_rgbdimages
f = frames(H=4, W=4)
downsample_rgbdimages(f, 2)
f.depth_image = f.depth_image * 2
c = downsample_rgbdimages(f, 2)
assert torch.allclose(c.points_list[0], f.global_vertex_map[0, 0, ::2, ::2].reshape(-1, 3)), c.points_list[0]
"""),
]
