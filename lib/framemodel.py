"""From frames to clouds: reference conversion (one point per kept pixel, image order)."""
import numpy as np

from pcmodel import PC
from rgbdmodel import RM


def frame_cloud(m: RM, normals, glob=True, filt=True, alphas=None):
    """m has sequence length 1.  normals: (B,1,H,W,3) array of the frame's own normal map (its values are judged
    by C08; here only which pixel they belong to matters)."""
    V = m.gvertex() if glob else m.vertex()
    B = m.shape[0]
    d = {"points": [], "normals": [], "colors": []}
    if alphas is not None:
        d["features"] = []
    for b in range(B):
        keep = m.valid()[b, 0, ..., 0] if filt else np.ones(m.shape[2:4], bool)
        rows = [(v, u) for v in range(m.shape[2]) for u in range(m.shape[3]) if keep[v, u]]
        d["points"].append(np.array([V[b, 0, v, u] for v, u in rows]).reshape(-1, 3))
        d["normals"].append(np.array([normals[b, 0, v, u] for v, u in rows]).reshape(-1, 3))
        d["colors"].append(np.array([m.rgb[b, 0, v, u] for v, u in rows]).reshape(-1, 3))
        if alphas is not None:
            d["features"].append(np.array([[alphas[b, v, u]] for v, u in rows]).reshape(-1, 1))
    return PC(d)


def own_normals(r, glob=True):
    n = (r.global_normal_map if glob else r.normal_map).detach().cpu().numpy().astype(float)
    return np.moveaxis(n, 2, 4) if r.channels_first else n
