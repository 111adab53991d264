exec(open("/verif/tools/seeds/b.py").read().split("SEEDS = ")[0])
GEO = "gradslam/geometry/geometryutils.py"
SEEDS = [
    dict(id="c28-counts-left-behind", prop="C28",
         edits=[(PC, "                v = getattr(other, k)\n                if torch.is_tensor(v):\n                    setattr(other, k, v.to(device))",
                 "                v = getattr(other, k)\n                if torch.is_tensor(v) and v.is_floating_point():\n                    setattr(other, k, v.to(device))")],
         needs="a batch moved to another device, then its counts or its mask",
         breaks="the bookkeeping of the moved batch stays on the old device",
         demo=PRE + """
p = Pointclouds([torch.rand(2, 3), torch.rand(1, 3)])
p.nonpad_mask
q = p.to("meta")
assert q.num_points_per_pointcloud.device == q.nonpad_mask.device == q.points_padded.device == torch.device("meta"), q.nonpad_mask.device
"""),
    dict(id="c28-maps-left-behind", prop="C28",
         edits=[(RGB, "            v = getattr(other, k)\n            if torch.is_tensor(v):\n                setattr(other, k, v.to(device))\n\n        return other",
                 "            v = getattr(other, k)\n            if torch.is_tensor(v) and not k.startswith(\"_global\"):\n                setattr(other, k, v.to(device))\n\n        return other")],
         needs="frames whose global maps were read before they are moved",
         breaks="the global maps of the moved frames stay on the old device",
         demo=PRE + """
f = frames()
f.global_vertex_map, f.global_normal_map
g = f.to("meta")
assert g.global_vertex_map.device == g.global_normal_map.device == g.depth_image.device == torch.device("meta")
"""),
    dict(id="c28-grid-of-first-device", prop="C28",
         edits=[(RGB, "        if self._pixel_pos is None:\n            meshgrid",
                 "        size = (B, L, self.h, self.w, self._intrinsics.dtype)\n        if self._pixel_pos is None and size in _GRIDS:\n            # every frame of a sequence has the same pixels\n            self._pixel_pos = _GRIDS[size].clone()\n        elif self._pixel_pos is None:\n            meshgrid"),
                (RGB, "                -1,\n            )\n        Kinv", "                -1,\n            )\n            _GRIDS[size] = self._pixel_pos.clone()\n        Kinv"),
                (RGB, "__all__ = [\"RGBDImages\"]\n", "__all__ = [\"RGBDImages\"]\n\n_GRIDS = {}\n")],
         needs="frames of one size unprojected on one device and then on another",
         breaks="frames on the second device are unprojected with the pixel grid of the first",
         demo=PRE + """
frames().vertex_map
assert frames().to("meta").vertex_map.device == torch.device("meta")
"""),
    dict(id="c28-ones-on-cpu", prop="C28",
         edits=[(GEO, "    scale: torch.Tensor = 1.0 / torch.where(torch.abs(w) > eps, w, torch.ones_like(w))",
                 "    scale: torch.Tensor = torch.ones(w.shape, dtype=w.dtype)\n    if w.requires_grad or not bool((w.detach() == 1).all() if not w.is_meta else False):\n        scale = 1.0 / torch.where(torch.abs(w) > eps, w, torch.ones_like(w))")],
         needs="homogeneous points with a last coordinate of one, on a device other than the CPU",
         breaks="the points are scaled by a tensor on the CPU",
         demo="raise SystemExit(0)"),
    dict(id="c25-map-detached-out-of-place", prop="C25",
         edits=[(FU, "    if not inplace:\n        pointclouds = pointclouds.clone()\n    pointclouds.append_points(new_pointclouds)\n    return pointclouds\n\n\ndef update_map_fusion",
                 "    if not inplace:\n        # the caller keeps the map as it was\n        pointclouds = pointclouds.clone().detach()\n    pointclouds.append_points(new_pointclouds)\n    return pointclouds\n\n\ndef update_map_fusion")],
         needs="a map aggregated out of place over several frames, differentiated with respect to an early frame",
         breaks="gradients of every frame but the last are lost",
         demo=PRE + """
from gradslam.slam.icpslam import ICPSLAM
f = frames(L=2)
d = f.depth_image.clone().requires_grad_()
f = RGBDImages(f.rgb_image, d, f.intrinsics, f.poses)
s = ICPSLAM(odom="gt")
pc = Pointclouds()
for i in range(2):
    pc, _ = s.step(pc, f[:, i])
sum(p.sum() for p in pc.points_list).backward()
assert float(d.grad[:, 0].abs().max()) > 0
"""),
    dict(id="c25-first-copy-detaches-maps", prop="C25",
         edits=[(RGB, "            v = getattr(self, k)\n            if torch.is_tensor(v):\n                setattr(other, k, v.clone())",
                 "            v = getattr(self, k)\n            if torch.is_tensor(v):\n                # the maps are only a cache\n                setattr(other, k, v.detach().clone() if k.endswith(\"map\") else v.clone())")],
         needs="maps read before a copy is made, then the copy's maps differentiated",
         breaks="the maps of the copy give no gradient",
         demo=PRE + """
f = frames()
d = f.depth_image.clone().requires_grad_()
f = RGBDImages(f.rgb_image, d, f.intrinsics, f.poses)
f.global_vertex_map
g = f.clone()
(g.global_vertex_map ** 2).sum().backward()
assert float(d.grad.abs().max()) > 0
"""),
    dict(id="c18-images-by-path", prop="C18",
         edits=[("gradslam/datasets/tum.py", "            color = np.asarray(imageio.imread(color_seq_path[i]), dtype=float)\n            color = self._preprocess_color(color)\n",
                 "            # windows overlap: every image is needed several times\n            key = (color_seq_path[i], self.height, self.width, self.normalize_color)\n            if key not in _IMAGES:\n                color = np.asarray(imageio.imread(color_seq_path[i]), dtype=float)\n                _IMAGES[key] = self._preprocess_color(color)\n            color = _IMAGES[key]\n"),
                ("gradslam/datasets/tum.py", "__all__ = [\"TUM\"]\n", "__all__ = [\"TUM\"]\n\n_IMAGES = {}\n")],
         needs="two readers of one folder and size, one channels first and one channels last",
         breaks="the second reader returns images in the layout of the first",
         demo=DATA + """
d = tempfile.mkdtemp()
try:
    s = os.path.join(d, "rgbd_dataset_freiburg1_x")
    images(s, 3)
    rows = ["%.4f" % (1 + 0.1 * k) for k in range(3)]
    for n in ("rgb", "depth"):
        open(os.path.join(s, n + ".txt"), "w").write("".join("%s %s/%d.png\\n" % (t, n, k) for k, t in enumerate(rows)))
    open(os.path.join(s, "groundtruth.txt"), "w").write("".join("%s %d 0 0 0 0 0 1\\n" % (t, k) for k, t in enumerate(rows)))
    from gradslam.datasets import TUM
    shapes = [tuple(TUM(d, seqlen=1, height=4, width=6, channels_first=c)[0][0].shape) for c in (False, True)]
    assert shapes == [(1, 4, 6, 3), (1, 3, 4, 6)], shapes
finally:
    shutil.rmtree(d)
"""),
]
SEEDS = [s for s in SEEDS if s["id"] != "c28-ones-on-cpu"]
