"""Minimal recording stand-in for open3d (which is not installed here).

Only what gradslam touches: geometry.PointCloud with points/normals/colors and
utility.Vector3dVector.  It stores what it is given, so checks can observe it.
"""
import types

import numpy as np


class _Vector3dVector:
    def __init__(self, arr):
        arr = np.asarray(arr, dtype=np.float64)
        if arr.ndim != 2 or arr.shape[1] != 3:
            raise RuntimeError("Vector3dVector needs an (N, 3) array, got %r" % (arr.shape,))
        self._arr = arr.copy()

    def __array__(self, dtype=None, copy=None):
        return self._arr.astype(dtype) if dtype is not None else self._arr.copy()

    def __len__(self):
        return len(self._arr)


class _PointCloud:
    def __init__(self, points=None):
        self.points = points if points is not None else _Vector3dVector(np.zeros((0, 3)))
        self.normals = _Vector3dVector(np.zeros((0, 3)))
        self.colors = _Vector3dVector(np.zeros((0, 3)))


utility = types.SimpleNamespace(Vector3dVector=_Vector3dVector)
geometry = types.SimpleNamespace(PointCloud=_PointCloud)
__version__ = "stub"
