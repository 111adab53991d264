"""C11: fusing a frame averages matched points by confidence and adds the rest."""
import itertools
import warnings

import numpy as np
import torch

import mc
import purecalls
import purity
import sweepcheck
from c08 import frames
from c09 import patterns
from framemodel import own_normals
from fusionmodel import Borderline, active, best, fuse, similar
from mc import Machine, Mismatch, expect, raises, same
from pcmodel import PC, axis_angle, make, observe_pc, se3
from rgbdmodel import intr, make_rgbd, observe_rgbd

KS = [intr(2.0, 2.5, 0.75, 0.5), intr(3.0, 2.0, 1.0, 0.25)]
POSES = [np.eye(4), se3(axis_angle([0.2, 1, -0.3], 0.8), [0.5, -1.0, 2.0]), se3(axis_angle([1, 0.4, 0.3], 2.2), [-1.5, 0.25, 0.75])]
SIG = {"0.6": 0.6, "2": 2, "t1.5": torch.tensor(1.5), "0.1": 0.1}


def mapdata(counts, seed=0):
    """Positive, distinct confidences; values unrelated to the frame (matching is given, not searched)."""
    d = {"points": [], "normals": [], "colors": [], "features": []}
    for b, n in enumerate(counts):
        i = np.arange(n)[:, None] + 5 * b + seed
        c = np.arange(3)[None]
        d["points"].append((i * 3 + c * 2) % 7 * 0.5 - 1.0)
        d["normals"].append(np.cos(i + c * 1.3))
        d["colors"].append((i * 2 + c) % 5 * 0.2)
        d["features"].append(0.25 + (np.arange(n)[:, None] * 3 + b) % 4 * 0.5)
    return d


def matchings(n, pixels):
    """Every partial injective map of points 0..n-1 into pixels."""
    for t in itertools.product([None] + list(pixels), repeat=n):
        used = [x for x in t if x is not None]
        if len(set(used)) == len(used):
            yield [(i, x[0], x[1]) for i, x in enumerate(t) if x is not None]


def orders(rows, k):
    return {0: rows, 1: rows[::-1], 2: rows[1:] + rows[:1]}[k % 3]


def cases(tier="quick"):
    ps = patterns(2, 2)
    n = 0
    top = 3 if tier == "quick" else 4
    for cnt in range(0, top + 1):
        for i, p in enumerate(ps):
            pix = [(v, u) for v in (0, 1) for u in (0, 1) if p[v, u] > 0]
            for j, m in enumerate(matchings(cnt, pix)):
                for inplace in (True, False):
                    n += 1
                    yield "1/%d/%d/%d/%s" % (cnt, i, j, "in" if inplace else "out"), (
                        [cnt], [p], orders([(0,) + r for r in m], j), list(SIG)[n // 2 % 4], inplace, (n // 8) % 3 == 2, (n // 3) % 3, torch.float64 if n % 5 == 0 else torch.float32, n % 3)
    # two clouds of different sizes: padding rows and the other cloud are not touched
    for (na, nb) in ((1, 2), (2, 1), (0, 2), (3, 1), (2, 2)):
        for i, j in ((15, 15), (6, 11), (9, 0), (0, 13), (15, 7)):
            A = [(v, u) for v in (0, 1) for u in (0, 1) if ps[i][v, u] > 0]
            Bx = [(v, u) for v in (0, 1) for u in (0, 1) if ps[j][v, u] > 0]
            ma, mb = list(matchings(na, A)), list(matchings(nb, Bx))
            step = 1 if tier == "thorough" else max(1, len(ma) * len(mb) // 120)
            for k, (x, y) in enumerate(itertools.islice(itertools.product(ma, mb), 0, None, step)):
                n += 1
                yield "2/%d,%d/%d,%d/%d" % (na, nb, i, j, k), (
                    [na, nb], [ps[i], ps[j]], orders([(0,) + r for r in x] + [(1,) + r for r in y], k), list(SIG)[n % 4], bool(n % 2), (n // 2) % 3 == 2, (n // 3) % 3, torch.float32, n % 3)
    for k, (x, y, z) in enumerate(itertools.product(list(matchings(1, [(0, 0), (1, 1)])), list(matchings(3, [(0, 1), (1, 0)])), list(matchings(2, [(0, 0), (0, 1), (1, 0)])))):
        yield "3/%d" % k, ([1, 3, 2], [ps[9], ps[6], ps[14]], orders([(0,) + r for r in x] + [(1,) + r for r in y] + [(2,) + r for r in z], k), list(SIG)[k % 4], bool(k % 2), False, k % 3, torch.float32, k % 3)


def check(case):
    from gradslam.slam.fusionutils import fuse_with_map
    counts, ps, rows, sig, inplace, cf, pi, dt, read = case
    fm = frames([[p] for p in ps], KS, [POSES[(pi + b) % 3] for b in range(3)], cf)
    r = make_rgbd(fm, dt)
    nrm = own_normals(r)
    d = mapdata(counts, len(rows))
    d["features"] = [x * (1, 300, 1, 0.002)[(pi + len(rows) + 2 * read) % 4] for x in d["features"]]  # young and very old maps
    pc = make(d, dtype=dt)
    if read == 1:
        pc.points_padded, pc.features_padded
    elif read == 2:
        pc.points_list, pc.nonpad_mask
    m = PC(d)
    t = torch.tensor(rows, dtype=torch.int64).reshape(-1, 4)
    sigma = float(SIG[sig])
    want = fuse(m, fm, nrm, rows, sigma)
    out = fuse_with_map(pc, r, t, SIG[sig], inplace) if inplace else fuse_with_map(pc, r, t, SIG[sig])
    observe_pc(out, want, "fused map", 2e-4)
    expect(all(x.dtype == dt for x in out.points_list + out.normals_list + out.colors_list + out.features_list), "fused map changed precision")
    if inplace:
        expect(out is pc, "in-place fusion returned another map")
    else:
        expect(out is not pc, "out-of-place fusion returned the map it was given")
        observe_pc(pc, m, "map passed in")
        out.offset_(1.0)
        observe_pc(pc, m, "map passed in, after changing the result")
    observe_rgbd(r, fm, "frames", maps=("vertex_map", "global_vertex_map"))
    same(t, np.array(rows).reshape(-1, 4), "lookup table")
    # confidence balance
    al = sum(want.d["features"][b].sum() for b in range(len(counts))) - sum(x.sum() for x in d["features"])
    got = float(sum(x.sum() for x in out.features_list)) - float(sum(x.sum() for x in d["features"]))
    expect(abs(got - al) < 1e-3 * max(1, abs(al)), "total confidence grew by %g, the frame holds %g" % (got, al))
    return "%d matched, %s" % (len(rows), "in place" if inplace else "out of place")


# ------------------------------------------------------------------ large frames and maps
def big_cases(tier="quick"):
    import c10
    for i, (key, case) in enumerate(c10.big_cases(tier)):
        yield key, (case, i)


def check_big(case):
    import c10
    from gradslam.slam.fusionutils import fuse_with_map, update_map_fusion
    case, i = case
    pc, m, r, fm, nrm, dist_th, dot_th = c10.big_build(*case, zero=0.5)
    pick = (min, max)[i % 2]
    groups = best(m, fm, similar(m, fm, nrm, active(m, fm), dist_th, dot_th))
    rows = [pick(x) for x in groups]
    rows = sorted(rows, key=lambda x: (x[1] * 7919 + x[3]) % 1009)
    sigma = list(SIG.values())[i % 4]
    want = fuse(m, fm, nrm, rows, float(sigma))
    out = fuse_with_map(pc, r, torch.tensor(rows, dtype=torch.int64), sigma, inplace=bool(i % 3))
    observe_pc(out, want, "fused map", 2e-4)
    # the whole update: ties are settled by the library, so they are removed from the map first
    ties = {(x[0], x[1]) for g in groups if len(g) > 1 for x in g}
    keep = [[n for n in range(c) if (b, n) not in ties] for b, c in enumerate(m.counts)]
    d = {k: [x[kp] for x, kp in zip(v, keep)] for k, v in m.d.items()}
    m2 = PC(d)
    g2 = best(m2, fm, similar(m2, fm, nrm, active(m2, fm), dist_th, dot_th))
    if all(len(x) == 1 for x in g2):
        rows2 = [next(iter(x)) for x in g2]
        want = fuse(m2, fm, nrm, rows2, float(sigma))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = update_map_fusion(make(d), r, dist_th, dot_th, sigma)
        observe_pc(out, want, "updated map", 2e-4)
        return "fused and updated", 2
    return "fused"


# ------------------------------------------------------------------ confidence of a sample
def alpha_cases():
    pts = [(0, 0, 0), (1, 0, 0), (0.5, -0.5, 1), (0, 3, 0), (-1, -2, 2), (1e-3, 0, 0), (30, 40, 0)]
    for sh in ((1,), (2,), (2, 3), (1, 2, 2), (2, 1, 2, 2)):
        for dim in range(-len(sh) - 1, len(sh) + 1):
            for keep in (False, True):
                for sig in (0.6, 1, 2.5, torch.tensor(0.6), torch.tensor(2.0, dtype=torch.float64)):
                    for eps in (1e-7, 1e-2, None):
                        yield "%s/%d/%d/%s/%s" % (sh, dim, keep, sig, eps), (pts, sh, dim, keep, sig, eps)


def check_alpha(case):
    from gradslam.slam.fusionutils import get_alpha
    pts, sh, dim, keep, sig, eps = case
    n = int(np.prod(sh))
    X = np.array([pts[i % len(pts)] for i in range(n)]).reshape(sh + (3,))
    Y = np.moveaxis(X, -1, dim)
    t = torch.tensor(Y, dtype=torch.float32)
    kw = {} if eps is None else {"eps": eps}
    got = get_alpha(t, sig, dim, keep, **kw)
    want = np.clip(np.exp(-(X ** 2).sum(-1) / (2 * float(sig) ** 2)), eps or 1e-7, 1.01)
    same(got, np.expand_dims(want, dim if dim >= 0 else dim + len(sh) + 1) if keep else want, "confidence", 1e-5)
    expect((got > 0).all(), "confidence is not positive")
    same(t, Y, "points")
    return "alpha"


def bad_cases():
    from gradslam.structures.pointclouds import Pointclouds as P
    ps = patterns(2, 2)
    r = make_rgbd(frames([[ps[15]]], KS, POSES, False))
    d = mapdata([2])
    t = torch.zeros(1, 4, dtype=torch.int64)
    pc = make(d)
    T = lambda k: [torch.tensor(x, dtype=torch.float32) for x in d[k]]  # noqa: E731
    for n, a, e in (
        ("map type", (torch.zeros(3), r, t, 0.6), TypeError), ("frame type", (pc, None, t, 0.6), TypeError), ("table type", (pc, r, [[0, 0, 0, 0]], 0.6), TypeError),
        ("table dtype", (pc, r, t.float(), 0.6), TypeError), ("table int32", (pc, r, t.int(), 0.6), TypeError), ("table ndim", (pc, r, t[0], 0.6), ValueError),
        ("table columns", (pc, r, t[:, :3], 0.6), ValueError), ("table 5 columns", (pc, r, torch.zeros(1, 5, dtype=torch.int64), 0.6), ValueError),
        ("sigma type", (pc, r, t, "0.6"), TypeError), ("sigma vector", (pc, r, t, torch.tensor([0.6])), ValueError),
        ("no normals", (P(points=T("points"), colors=T("colors"), features=T("features")), r, t, 0.6), ValueError),
        ("no colors", (P(points=T("points"), normals=T("normals"), features=T("features")), r, t, 0.6), ValueError),
        ("no features", (P(points=T("points"), normals=T("normals"), colors=T("colors")), r, t, 0.6), ValueError),
    ):
        yield n, ("f", a, e)
    for n, a, e in (("alpha list", ([1, 2, 3], 0.6), TypeError), ("alpha sigma", (torch.zeros(3), None), TypeError), ("alpha dim", (torch.zeros(3, 2), 0.6), ValueError),
                    ("alpha dim 0", (torch.zeros(2, 3), 0.6, 0), ValueError), ("alpha eps", (torch.zeros(3), 0.6, -1, False, 1), TypeError), ("alpha sigma ndim", (torch.zeros(3), torch.ones(1)), ValueError)):
        yield n, ("a", a, e)


def check_bad(case):
    from gradslam.slam import fusionutils as fu
    f, a, e = case
    before = None
    if f == "f" and hasattr(a[0], "points_list"):
        before = [x.clone() for x in a[0].points_list]
    raises(lambda: (fu.fuse_with_map if f == "f" else fu.get_alpha)(*a, **({"inplace": True} if f == "f" else {})), (e,))
    if before is not None:
        for x, y in zip(before, a[0].points_list):
            same(y, x, "map after a rejected call")
    return "rejected"


# ------------------------------------------------------------------ histories of fused frames
def nb(dt, cf, b, k):
    """Frame k of the pool: views of one surface, so correspondences occur between frames."""
    base = np.array([[2.0, 2.25, 2.1], [2.3, 2.0, 2.4]])
    hole = {0: 1.0, 1: np.array([[1, 0, 1], [1, 1, 1]]), 2: np.array([[1, 1, 0], [0, 1, 1]]), 3: 0.0}[k]
    return (base + 0.03 * k + 0.05 * b) * hole


class FusionMachine(Machine):
    def __init__(self, name, B, start, dot_th, sigma):
        self.name, self.B, self.start = name, B, start
        from gradslam.slam.fusionutils import update_map_fusion
        self.pool = []
        for k in range(4):
            P = [se3(axis_angle([0.1, 1, 0.3], 0.8 * (b + 1)), [0.5, -1.0, 2.0]) for b in range(B)]
            if k == 1:
                P = [T @ se3(axis_angle([0, 0, 1], 0.02), [0.02, 0.01, 0.0]) for T in P]
            if k == 2:
                P = [T @ se3(np.eye(3), [0.45, 0.0, 0.0]) for T in P]
            self.pool.append(frames([[nb(None, False, b, k)] for b in range(B)], KS, P, False))
        self.ops = {}
        for i, fm in enumerate(self.pool):
            for inplace, cf, th in ((True, False, 0.25), (False, i == 0, 0.25)) + (((True, True, 0.06),) if i == 1 else ()):
                fm2 = fm.copy()
                fm2.cf = cf
                nrm = own_normals(make_rgbd(fm2))

                def model(m, a, fm2=fm2, inplace=inplace, th=th, nrm=nrm):
                    cur = m["cur"]
                    rows = best(cur, fm2, similar(cur, fm2, nrm, active(cur, fm2), th, dot_th)) if cur.has else []
                    if any(len(x) > 1 for x in rows):
                        raise Borderline("tie")
                    rows = [next(iter(x)) for x in rows]
                    new = fuse(cur, fm2, nrm, rows, sigma)
                    if not inplace:
                        m["old"] = cur.copy()
                    m["cur"] = new
                    m["n"] = len(rows)
                    return ("ok", None)

                def enabled(m, model=model):
                    try:
                        model({"cur": m["cur"].copy(), "old": None}, None)
                        return True
                    except Borderline:
                        return False

                def impl(s, a, fm2=fm2, inplace=inplace, th=th):
                    r = make_rgbd(fm2)
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        new = update_map_fusion(s["cur"], r, th, dot_th, sigma, **({"inplace": True} if inplace else {}))
                    observe_rgbd(r, fm2, "frames given", maps=("global_vertex_map",))
                    expect((new is s["cur"]) == inplace, "inplace=%s but the map returned is %s" % (inplace, "the same" if new is s["cur"] else "another"))
                    if not inplace:
                        s["old"] = s["cur"]
                    s["cur"] = new
                self.add("fuse(frame%d%s,th=%s,inplace=%s)" % (i, ",cf" if cf else "", th, inplace), model, impl, enabled=enabled)

    def build(self):
        if self.start is None:
            return {"cur": make({}, "empty"), "old": None}, {"cur": PC(), "old": None}
        d = mapdata(self.start)
        return {"cur": make(d), "old": None}, {"cur": PC(d), "old": None}

    def model_key(self, m):
        return mc.fingerprint([m["cur"].d, None if m["old"] is None else m["old"].d])

    def observe(self, s, m):
        observe_pc(s["cur"], m["cur"], "map", 5e-4)
        if m["old"] is not None:
            observe_pc(s["old"], m["old"], "map passed in", 5e-4)


MACHINES = [("empty-b1", 1, None, 0.8, 0.9), ("empty-b2", 2, None, 0.0, 2.0), ("ragged-b2", 2, (3, 1), 0.5, 0.6)]


def sweeps(tier):
    return [("fuse", lambda: cases(tier), check), ("large", lambda: big_cases(tier), check_big), ("confidence", alpha_cases, check_alpha), ("rejected", bad_cases, check_bad),
            purity.sweep(purecalls.fusion, tier)]


RULE = ("every partial one-to-one matching of up to 3 (thorough 4) map points to the valid pixels of every 2x2 hole pattern, in and out of place, ragged batches, "
        "layouts, confidence widths, row orders and previously read views; every history of fused frames from a pool of overlapping views, in lockstep with a point-by-point model")


def main(tier, t0):
    d = 3 if tier == "quick" else 5
    return sweepcheck.run("C11", tier, t0, sweeps(tier), [(FusionMachine, MACHINES, d)], rule=RULE, bounds={"map points": "0..3 (thorough 4) per cloud", "batch": "1..3", "large": "up to 2000 pixels and 4500 points"},
                          assumptions=["positive map confidences (as the library's own maps have)", "frames whose correspondence search sits on a decision threshold or a tie are not issued in histories", "tolerance 2e-4 (5e-4 over histories)"])


def replay(doc):
    return sweepcheck.replay(doc, sweeps("thorough"), [(FusionMachine, MACHINES, 3)])
