"""C09: converting frames to clouds keeps every valid pixel exactly once; aggregating appends exactly those."""
import itertools

import numpy as np
import torch

import mc
import purecalls
import purity
import sweepcheck
from c08 import KS, POSES, frames
from framemodel import frame_cloud, own_normals
from mc import Machine, expect, raises
from pcmodel import PC, data, make, observe_pc
from rgbdmodel import RM, make_rgbd, observe_rgbd


def patterns(H, W):
    base = 1.0 + (np.arange(H * W).reshape(H, W) * 5 % 7) * 0.5
    return [np.where(np.array(t).reshape(H, W), base + 0.25 * i % 1.5, 0.0) for i, t in enumerate(itertools.product((0, 1), repeat=H * W))]


def convert_cases():
    opts = list(itertools.product((True, False), (True, False), (False, True), (0, 2, 3)))
    for H, W in ((2, 2), (2, 3)):
        for i, p in enumerate(patterns(H, W)):
            for glob, filt, cf, pi in opts:
                yield "%dx%d/%d/g%d/f%d/cf%d/P%d" % (H, W, i, glob, filt, cf, pi), ([p], glob, filt, cf, pi, torch.float32)
    ps = patterns(2, 2)
    for i, j in itertools.product(range(16), repeat=2):
        for k, (glob, filt, cf, pi) in enumerate(opts):
            if (i + 3 * j + k) % 3 == 0 or filt and glob:
                yield "pair/%d/%d/g%d/f%d/cf%d/P%d" % (i, j, glob, filt, cf, pi), ([ps[i], ps[j]], glob, filt, cf, pi,
                                                                                  torch.float64 if (i + j) % 4 == 0 else torch.float32)
    ps = patterns(3, 3)
    for i in range(0, 512, 3):
        yield "3x3 triple/%d" % i, ([ps[i], ps[(i * 7 + 5) % 512], ps[511 - i]], True, True, bool(i % 2), 2, torch.float32)


def large_cases():
    n = 0
    for H, W, B in ((32, 40, 1), (40, 32, 2), (65, 33, 1), (7, 5, 6), (110, 150, 1)):
        i = np.arange(H * W).reshape(H, W)
        for holes in (0, 2, 7):
            for glob, filt, cf in itertools.product((True, False), repeat=3):
                n += 1
                if H > 100 and n % 3:
                    continue
                ps = [np.where((i * 13 + b) % (holes + 3) == 0, 0.0, 1.0 + (i * 7 + i // W + b) % 13 * 0.25) if holes else 1.0 + (i * 5 + b) % 11 * 0.5 for b in range(B)]
                yield "large/%dx%d/B%d/%d/%d%d%d" % (H, W, B, holes, glob, filt, cf), (ps, glob, filt, cf, (0, 2, 3)[n % 3], torch.float32)


def check_convert(case):
    from gradslam.structures.utils import pointclouds_from_rgbdimages
    ps, glob, filt, cf, pi, dt = case
    P = None if POSES[pi] is None else [POSES[pi], POSES[(pi % 3) + 1], POSES[3]]
    m = frames([[p] for p in ps], KS[:1] * 2 if len(ps[0]) > 9 else KS[:2], P, cf)
    r = make_rgbd(m, dt)
    pc = pointclouds_from_rgbdimages(r, global_coordinates=glob, filter_missing_depths=filt)
    want = frame_cloud(m, own_normals(r, glob), glob, filt)
    observe_pc(pc, want, "cloud")
    observe_rgbd(r, m, "frames", maps=())
    if glob and filt:
        d = pointclouds_from_rgbdimages(r)
        observe_pc(d, want, "cloud with default options")
    return "filtered" if filt else "all pixels", 2


def bad_cases():
    from gradslam.structures.pointclouds import Pointclouds
    m = frames([[np.ones((2, 2)), np.ones((2, 2))]], KS, None, False)
    yield "length 2", ("conv", make_rgbd(m), (ValueError,))
    yield "tensor", ("conv", torch.zeros(1, 1, 2, 2, 3), (TypeError,))
    yield "None", ("conv", None, (TypeError,))
    ok = make_rgbd(frames([[np.ones((2, 2))]], KS, None, False))
    yield "agg map type", ("agg", (torch.zeros(3, 3), ok), (TypeError,))
    yield "agg frame type", ("agg", (Pointclouds(), torch.zeros(3)), (TypeError,))
    yield "agg swapped", ("agg", (ok, Pointclouds()), (TypeError,))
    yield "agg length 2", ("agg", (Pointclouds(), make_rgbd(m)), (ValueError,))
    yield "agg batch", ("agg", (make(data((1, 1), ("normals", "colors"))), ok), (ValueError,))
    yield "agg attributes", ("agg", (make(data((1,), ("normals", "colors", "features"))), ok), (ValueError,))


def check_bad(case):
    from gradslam.slam.fusionutils import update_map_aggregate
    from gradslam.structures.utils import pointclouds_from_rgbdimages
    kind, v, e = case
    raises(lambda: pointclouds_from_rgbdimages(v) if kind == "conv" else update_map_aggregate(*v), e)
    return "rejected"


# ------------------------------------------------------------------ histories of aggregation
class AggMachine(Machine):
    """Registers: the current map, and the map it was derived from (out of place)."""

    def __init__(self, name, B, start, kinds):
        self.name, self.B, self.start = name, B, start
        ps = patterns(2, 2)
        self.pool = []
        for k in kinds:
            P = [POSES[1 + (k + b) % 3] for b in range(3)]
            self.pool.append(frames([[ps[(k + 5 * b) % 16]] for b in range(B)], KS[:2], P, False))
        self.pool.append(frames([[ps[0]] for b in range(B)], KS[:2], POSES[1:], False))  # nothing valid
        self.pool.append(frames([[ps[9]] for b in range(B)], KS[:2], None, True))  # no poses, channels first
        self.ops = {}
        from gradslam.slam.fusionutils import update_map_aggregate

        for i, fm in enumerate(self.pool):
            for inplace in (True, False):
                for cf in ((False, True) if i == 0 else (fm.cf,)):
                    def model(m, a, fm=fm, inplace=inplace):
                        c = frame_cloud(fm, own_normals(make_rgbd(fm)))
                        if not inplace:
                            m["old"] = m["cur"].copy()
                        m["cur"].append(c)
                        return ("ok", None)

                    def impl(s, a, fm=fm, inplace=inplace, cf=cf):
                        fm2 = fm.copy()
                        fm2.cf = cf
                        r = make_rgbd(fm2)
                        new = update_map_aggregate(s["cur"], r, **({"inplace": True} if inplace else {}))
                        observe_rgbd(r, fm2, "frames given", maps=())
                        if inplace:
                            expect(new is s["cur"], "in-place aggregation returned another map")
                        else:
                            expect(new is not s["cur"], "out-of-place aggregation returned the same map")
                            s["old"] = s["cur"]
                        s["cur"] = new
                    self.add("aggregate(frame%d%s,inplace=%s)" % (i, ",cf" if cf else "", inplace), model, impl)

        def move(m, a):
            m["cur"].offset(0.5)
            return ("ok", None)
        self.add("map.offset_", move, lambda s, a: (s["cur"].offset_(0.5), None)[1])
        for k in ("points_padded", "nonpad_mask"):
            self.add("read map.%s" % k, lambda m, a: ("ok", None), lambda s, a, k=k: (getattr(s["cur"], k), None)[1])

    def build(self):
        if self.start is None:
            return {"cur": make({}, "empty"), "old": None}, {"cur": PC(), "old": None}
        d = data(self.start, ("normals", "colors"))
        return {"cur": make(d), "old": None}, {"cur": PC(d), "old": None}

    def model_key(self, m):
        return mc.fingerprint([m["cur"].d, None if m["old"] is None else m["old"].d])

    def observe(self, s, m):
        observe_pc(s["cur"], m["cur"], "map")
        if m["old"] is not None:
            observe_pc(s["old"], m["old"], "earlier map", 1e-4)


MACHINES = [("empty-b2", 2, None, (7, 14)), ("empty-b1", 1, None, (6, 11)), ("ragged-b2", 2, (2, 1), (13, 3))]
SWEEPS = [("convert", convert_cases, check_convert), ("large", large_cases, check_convert), ("bad input", bad_cases, check_bad), purity.sweep(purecalls.conversion)]
RULE = ("every validity pattern of 2x2 and 2x3 frames, every pair of 2x2 patterns in a batch and a third of all 3x3 triples, with "
        "local/global, filtered/unfiltered, layout and pose options; every history of in-place/out-of-place aggregations of a frame pool")


def machines(tier):
    return [(AggMachine, MACHINES, 3 if tier == "quick" else 4)]


def main(tier, t0):
    return sweepcheck.run("C09", tier, t0, SWEEPS, machines(tier), rule=RULE, bounds={"image": "2x2, 2x3, 3x3; up to 110x150 in the large sweep", "batch": "1..3"},
                          assumptions=["values of the normal map itself are C08's subject", "tolerance 1e-4"])


def replay(doc):
    return sweepcheck.replay(doc, SWEEPS, machines("quick"))
