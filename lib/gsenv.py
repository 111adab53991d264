"""Imports the real gradslam from /repo's working tree (open3d stubbed) for every check."""
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ["CUDA_VISIBLE_DEVICES"] = ""
sys.dont_write_bytecode = True
REPO = os.environ.get("GRADSLAM_REPO", "/repo")
_here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(_here, "stubs"))
sys.path.insert(0, REPO)

import warnings  # noqa: E402

warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import torch  # noqa: E402

torch.set_num_threads(1)
try:
    torch.set_num_interop_threads(1)
except RuntimeError:
    pass

import cv2  # noqa: E402

cv2.setNumThreads(1)
