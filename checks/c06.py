"""C06: everything derived from RGB-D frames always reflects their current inputs, under any history."""
import numpy as np
import torch

import mc
import report
from mc import Machine, expect
from pcmodel import ATTRS
from rgbdmodel import MAPS, RM, images, make_rgbd, observe_rgbd

BAD = (ValueError, TypeError)


def tens(x):
    return torch.tensor(np.ascontiguousarray(x), dtype=torch.float32)


class FrameMachine(Machine):
    def __init__(self, name, B, L, H, W, zeros, poses, cf, pix=False):
        self.name = name
        self.p = (B, L, H, W)
        self.zeros, self.poses, self.cf, self.pix = zeros, poses, cf, pix
        self.ops = {}
        self.alphabet()

    def build(self):
        m = images(*self.p, seed=1, zeros=self.zeros, poses=self.poses, cf=self.cf)
        kw = {}
        if self.pix:
            B, L, H, W = self.p
            g = np.zeros((B, L, H, W, 3))
            for v in range(H):
                for u in range(W):
                    g[:, :, v, u] = (u, v, 1)
            kw["pixel_pos"] = tens(g)
        return [make_rgbd(m, **kw)], [m]

    def observe(self, s, m):
        observe_rgbd(s[0], m[0])

    def model_key(self, m):
        m = m[0]
        return mc.fingerprint([m.rgb, m.depth, m.K, m.poses, m.cf])

    def alphabet(self):
        def ok(m, a):
            return ("ok", None)

        for a in MAPS + ("valid_depth_mask",):
            self.add("read(%s)" % a, ok, lambda s, x, a=a: (getattr(s[0], a), None)[1])

        def new(m, seed, zeros):
            B, L, H, W = m[0].shape
            return images(B, L, H, W, seed=seed, zeros=zeros, poses=True)

        def setter(name, attr, field, seed, zeros=(), none=False):
            def model(m, n):
                setattr(m[0], field, None if none else getattr(n, field))
                m[0].drop()
                return ("ok", None)

            def impl(s, n):
                v = None
                if not none:
                    v = getattr(n, field)
                    if field in ("rgb", "depth") and s[0].channels_first:
                        v = np.transpose(v, (0, 1, 4, 2, 3))
                    v = tens(v)
                setattr(s[0], attr, v)
            self.add("set(%s)" % name, model, impl, lambda m: new(m, seed, zeros))

        setter("rgb_image", "rgb_image", "rgb", 2)
        setter("depth_image", "depth_image", "depth", 3, (1,))
        setter("depth_image/all valid", "depth_image", "depth", 4, ())
        setter("intrinsics", "intrinsics", "K", 5)
        setter("poses", "poses", "poses", 7)
        setter("poses=None", "poses", "poses", 0, none=True)

        # values that agree with the old ones in part
        def delta(name, attr, field, change, own=False):
            """own: the caller rewrites the very tensor in use, then assigns it again."""
            def model(m, a):
                v = getattr(m[0], field).copy()
                change(v)
                setattr(m[0], field, v)
                m[0].drop()
                return ("ok", None)

            def impl(s, a):
                v = getattr(s[0], attr)
                v = v if own else v.clone()
                w = torch.movedim(v, 2, 4) if field in ("rgb", "depth") and s[0].channels_first else v
                change(w)
                setattr(s[0], attr, v)
            self.add("set(%s)" % name, model, impl, None, (lambda m: m[0].poses is not None) if field == "poses" else None)

        def turn(v):
            v[..., :3, 1:3] = -v[..., :3, 1:3]

        def add(v, key, x):
            v[key] = v[key] + x

        delta("poses/turned only", "poses", "poses", turn)
        delta("poses/moved only", "poses", "poses", lambda v: add(v, (Ellipsis, 0, 3), 1.5))
        delta("poses/last frame only", "poses", "poses", lambda v: add(v, (-1, -1, slice(0, 3), 3), -0.5))
        delta("depth/values only", "depth_image", "depth", lambda v: v.__imul__(1.25))
        delta("depth/one more hole", "depth_image", "depth", lambda v: v.__setitem__((-1, -1, -1, -1, 0), 0.0))
        delta("depth/one negative", "depth_image", "depth", lambda v: v.__setitem__((0, 0, 0, 0, 0), -1.5))
        delta("intrinsics/focal only", "intrinsics", "K", lambda v: add(v, (Ellipsis, 0, 0), 0.75))
        delta("intrinsics/center of last only", "intrinsics", "K", lambda v: add(v, (-1, 0, 1, 2), 0.5))

        delta("depth/rewritten", "depth_image", "depth", lambda v: v.__imul__(1.25), True)
        delta("intrinsics/rewritten", "intrinsics", "K", lambda v: add(v, (Ellipsis, 0, 0), 0.75), True)
        delta("poses/rewritten", "poses", "poses", turn, True)

        def bad(name, impl):
            self.add("bad%s" % name, lambda m, a: ("raise", BAD), impl)
        bad("set(depth_image shape)", lambda s, a: setattr(s[0], "depth_image", torch.ones(1, 1, 9, 9, 1)))
        bad("set(poses type)", lambda s, a: setattr(s[0], "poses", [1.0]))
        bad("set(intrinsics shape)", lambda s, a: setattr(s[0], "intrinsics", torch.ones(5, 1, 4, 4)))

        def lay(name, cf, fun, inplace):
            def model(m, a):
                same = m[0].cf == cf
                m[0] = m[0].copy()
                m[0].cf = cf
                return ("ok", None)

            def impl(s, a):
                r = fun(s[0])
                if inplace:
                    expect(r is s[0], "in-place conversion returned another object")
                s[0] = r
            self.add(name, model, impl)
        lay("to_channels_first_", True, lambda r: r.to_channels_first_(), True)
        lay("to_channels_last_", False, lambda r: r.to_channels_last_(), True)
        lay("to_channels_first", True, lambda r: r.to_channels_first(), False)
        lay("to_channels_last", False, lambda r: r.to_channels_last(), False)
        lay("to_channels_first(copy)", True, lambda r: r.to_channels_first(copy=True), False)

        def derive(name, mfun, ifun, enabled=None):
            def model(m, a):
                m[0] = mfun(m[0])
                return ("ok", None)

            def impl(s, a):
                s[0] = ifun(s[0])
            self.add(name, model, impl, None, enabled)
        derive("clone", lambda m: m.copy(), lambda r: r.clone())
        derive("detach", lambda m: m.copy(), lambda r: r.detach())
        derive("to(cpu)", lambda m: m.copy(), lambda r: r.to("cpu"))
        derive("to(cpu,copy)", lambda m: m.copy(), lambda r: r.to("cpu", copy=True))
        derive("[0]", lambda m: m.take([0], list(range(m.shape[1]))), lambda r: r[0])
        derive("[-1]", lambda m: m.take([m.shape[0] - 1], list(range(m.shape[1]))), lambda r: r[-1])
        derive("[:,-1]", lambda m: m.take(list(range(m.shape[0])), [m.shape[1] - 1]), lambda r: r[:, -1])
        derive("[::-1 list,0]", lambda m: m.take(list(range(m.shape[0]))[::-1], [0]),
               lambda r: r[list(range(len(r)))[::-1], 0])


CONFIGS = [
    ("b2l2h2w3-holes-poses", 2, 2, 2, 3, (0, 7), True, False),
    ("b2l1h3w2-cf-holes", 2, 1, 3, 2, (2,), False, True),
    ("b1l2h2w2-cf-poses", 1, 2, 2, 2, (3,), True, True),
    ("b1l2h3w2-pixelpos", 1, 2, 3, 2, (1, 4), True, False, True),
    ("b1l1h2w2-cf-pixelpos", 1, 1, 2, 2, (), True, True, True),
]
RULE = ("every history of reads, setters (inputs replaced, including pose removal and rejected values), in-place and "
        "copying layout conversions, copies and selections up to the depth bound on a real batch of frames in lockstep "
        "with a per-pixel model; after every operation all inputs, the valid-depth mask and the four maps are compared")


def main(tier, t0):
    depth = 3 if tier == "quick" else 4
    res = mc.run_tasks(mc.explore_tasks(FrameMachine, CONFIGS, depth, split=8))
    return report.finish("C06", tier, "model_checking", res, t0, RULE,
                         {"depth": depth, "configurations": [c[0] for c in CONFIGS],
                          "alphabet": list(FrameMachine(*CONFIGS[0]).ops)},
                         ["float32 values compared with tolerance 1e-4", "state merging by 64-bit hash of the full concrete state"])


def replay(doc):
    cfg = [c for c in CONFIGS if c[0] == doc["machine"]][0]
    return mc.replay_history(FrameMachine(*cfg), doc["history"])
