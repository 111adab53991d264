PRE = """
import torch
from gradslam.structures.pointclouds import Pointclouds
def P(n, v=0.0):
    return torch.arange(3 * n, dtype=torch.float32).reshape(n, 3) + 1 + v
"""
PC = "gradslam/structures/pointclouds.py"
SEEDS = [
    dict(id="c01-append-keeps-mask", prop="C01",
         edits=[(PC, "        self._N = self._num_points_per_pointcloud.max()\n        self._nonpad_mask = None\n\n        return self\n\n    def open3d(",
                 "        N = self._num_points_per_pointcloud.max()\n        if N != self._N:\n            self._nonpad_mask = None\n        self._N = N\n\n        return self\n\n    def open3d(")],
         needs="a ragged batch whose mask was already read, appended a batch that only grows the smaller clouds so the longest length is unchanged (second cloud gets a zero-point cloud)",
         breaks="the non-padding mask keeps describing the old counts after the append",
         demo=PRE + """
a = Pointclouds(points=[P(1), P(3)])
_ = a.nonpad_mask
a.append_points(Pointclouds(points=[P(2), torch.zeros(0, 3)]))
assert a.num_points_per_pointcloud.tolist() == [3, 3]
assert a.nonpad_mask.sum().item() == 6, a.nonpad_mask
"""),
    dict(id="c02-detach-shared-lists", prop="C02",
         edits=[(PC, "            new_features = (\n                None if self._features_padded is None else self._features_padded.clone()\n            )",
                 "            new_features = (\n                None if self._features_padded is None else self._features_padded\n            )"),
                (PC, "            v = getattr(self, k)\n            if torch.is_tensor(v):\n                setattr(other, k, v.clone())\n        return other\n\n    def detach(self):",
                 "            v = getattr(self, k)\n            if torch.is_tensor(v) and getattr(other, k) is None:\n                setattr(other, k, v.clone())\n        return other\n\n    def detach(self):")],
         needs="a cloud kept only in padded form with features, cloned, then features of one of the two edited in place through a view of its tensor",
         breaks="the clone shares the feature tensor with its source",
         demo=PRE + """
a = Pointclouds(points=torch.stack([P(2), P(2, 5.0)]), features=torch.ones(2, 2, 4))
b = a.clone()
b.features_padded.mul_(7.0)
assert (a.features_padded == 1).all()
"""),
    dict(id="c03-rotate-normals-batch", prop="C03",
         edits=[(PC, "                else torch.einsum(\"bij,bjk->bik\", self.normals_padded, rmat)",
                 "                else torch.einsum(\"bij,jk->bik\", self.normals_padded, rmat[0])")],
         needs="a per-cloud rotation whose rotations differ between clouds, on a batch with normals",
         breaks="normals of every cloud are rotated by the first cloud's rotation",
         demo=PRE + """
R = torch.tensor([[0., -1, 0], [1, 0, 0], [0, 0, 1]])
a = Pointclouds(points=[P(1), P(2)], normals=[P(1), P(2)])
a.rotate_(torch.stack([torch.eye(3), R]))
assert torch.allclose(a.normals_list[1], a.points_list[1])
"""),
    dict(id="c04-append-counts-alias", prop="C04",
         edits=[(PC, "        if self.has_features and self.num_features != pointclouds.num_features:",
                 "        if self.has_features and self.num_features < pointclouds.num_features:"),
                (PC, "            self._features_list = [\n                torch.cat([self.features_list[b], pointclouds.features_list[b]], 0)\n                for b in range(self._B)\n            ]",
                 "            self._features_list = [\n                torch.cat(\n                    [\n                        self.features_list[b][..., : pointclouds.num_features],\n                        pointclouds.features_list[b],\n                    ],\n                    0,\n                )\n                for b in range(self._B)\n            ]")],
         needs="appending a batch with fewer feature channels than the target",
         breaks="the append is accepted and silently drops feature channels of existing points",
         demo=PRE + """
a = Pointclouds(points=[P(2)], features=[torch.ones(2, 4)])
b = Pointclouds(points=[P(1)], features=[torch.ones(1, 2)])
try:
    a.append_points(b)
except (ValueError, RuntimeError):
    pass
else:
    raise SystemExit("mismatched features accepted: %s" % (a.features_list[0].shape,))
"""),
]
