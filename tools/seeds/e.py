exec(open("/verif/tools/seeds/b.py").read().split("SEEDS = ")[0])
PJ = "gradslam/geometry/projutils.py"
IP = "gradslam/odometry/icp.py"
REF = """
def refused(f, err=(ValueError, AssertionError)):
    try:
        f()
    except err:
        return
    raise AssertionError("accepted")
"""
SEEDS = [
    dict(id="c31-padding-sum", prop="C31",
         edits=[(PC, "value[b][N_b:].eq(0).all().item()", "bool(value[b][N_b:].sum() == 0)")],
         needs="a padded assignment whose values in the padding cancel out",
         breaks="values in the padding are accepted when they sum to zero",
         demo=PRE + REF + """
p = Pointclouds([torch.rand(3, 3), torch.rand(1, 3)])
v = p.points_padded.clone()
v[1, 1, 0], v[1, 2, 0] = 0.5, -0.5
def put():
    p.points_padded = v
refused(put)
"""),
    dict(id="c31-append-checks-late", prop="C31",
         edits=[(PC, "        if self.has_features and self.num_features != pointclouds.num_features:\n            raise ValueError(\n                \"pointclouds to append and to be appended must have the same number of features: ({0} != {1})\".format(\n                    pointclouds.num_features, self.num_features\n                )\n            )\n", ""),
                (PC, "        if self.has_features:\n            self._features_list = [\n                torch.cat([", "        if self.has_features:\n            if self.num_features != pointclouds.num_features:\n                raise ValueError(\n                    \"pointclouds must have the same number of features: ({0} != {1})\".format(\n                        pointclouds.num_features, self.num_features\n                    )\n                )\n            self._features_list = [\n                torch.cat([")],
         needs="an append refused because the feature sizes differ, and a look at the batch afterwards",
         breaks="a refused append has already added its points, normals and colors",
         demo=PRE + REF + """
p = Pointclouds([torch.rand(3, 3)], features=[torch.rand(3, 2)])
q = Pointclouds([torch.rand(2, 3)], features=[torch.rand(2, 1)])
refused(lambda: p.append_points(q))
assert p.points_list[0].shape == (3, 3), p.points_list[0].shape
"""),
    dict(id="c31-poses-before-check", prop="C31",
         edits=[(RGB, "        if value is not None:\n            self._assert_shape(value, self._poses_shape)\n        self._poses = value\n        self._global_vertex_map = None\n        self._global_normal_map = None\n",
                 "        self._poses, previous = value, self._poses\n        self._global_vertex_map = None\n        self._global_normal_map = None\n        if value is not None and value is not previous:\n            self._assert_shape(value, self._poses_shape)\n")],
         needs="an assignment of poses that is refused, and the frames used again",
         breaks="refused poses stay in the frames",
         demo=PRE + REF + """
f = frames(L=2)
def put():
    f.poses = torch.eye(4).view(1, 1, 4, 4)
refused(put)
assert f.poses.shape == (1, 2, 4, 4), f.poses.shape
"""),
    dict(id="c31-icp-fewer-maps", prop="C31",
         edits=[(IP, "if len(maps_pointclouds) != len(frames_pointclouds):", "if len(maps_pointclouds) < len(frames_pointclouds):")],
         needs="a batch of maps wider than the batch of frames",
         breaks="the provider aligns the first clouds and drops the other maps silently",
         demo=PRE + REF + """
from gradslam.odometry.icp import ICPOdometryProvider
x = torch.rand(6, 3)
n = torch.nn.functional.normalize(torch.rand(6, 3), dim=-1)
refused(lambda: ICPOdometryProvider(numiters=1, damp=1e-2).provide(Pointclouds([x, x + 1], [n, n]), Pointclouds([x])))
"""),
    dict(id="c31-depths-by-count", prop="C31",
         edits=[(PJ, "    if pixel_coords.shape[:-1] != depths.shape:", "    if pixel_coords.shape[:-1].numel() != depths.numel():")],
         needs="depths that hold the right number of values in another arrangement",
         breaks="depths of another arrangement are broadcast against the pixels",
         demo=PRE + REF + """
from gradslam.geometry.projutils import unproject_points
K = torch.eye(3)
refused(lambda: unproject_points(torch.rand(5, 2), K, torch.rand(5, 1)))
refused(lambda: unproject_points(torch.rand(2, 2, 2), K, torch.rand(4)))
"""),
]
