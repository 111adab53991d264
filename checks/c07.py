"""C07: selecting, copying and re-laying-out RGB-D batches preserves content, and copies are isolated."""
import itertools

import numpy as np
import torch

import mc
import sweepcheck
from mc import Machine, Mismatch, expect, raises, same
from rgbdmodel import MAPS, RM, images, intr, make_rgbd, observe_rgbd


def tens(x, dt=torch.float32):
    return torch.tensor(np.ascontiguousarray(x), dtype=dt)


# ------------------------------------------------------------------ selection: complete index domain
def one_index(n):
    """(label, index object, positions or None if it must be rejected) for one dimension of length n."""
    for i in range(-n - 2, n + 3):
        ok = -n <= i < n
        yield "%d" % i, i, ([i % n] if ok else None)
    pts = [None] + list(range(-n - 1, n + 2))
    for a, b, c in itertools.product(pts, pts, (None, 1, 2)):
        s = slice(a, b, c)
        pos = list(range(n))[s]
        yield "%s:%s:%s" % (a, b, c), s, (pos or None)
    for k in range(0, 3):
        for t in itertools.product(range(-n, n), repeat=k):
            pos = [i % n for i in t]
            yield "%r" % (list(t),), list(t), (pos or None)
            if k:
                yield "tensor%r" % (list(t),), torch.tensor(t), (pos or None)
    yield "[%d]" % n, [n], None
    yield "tensor[%d]" % n, torch.tensor([n]), None
    for t in itertools.product((False, True), repeat=n):
        pos = [i for i, x in enumerate(t) if x]
        yield "booltensor%r" % (list(map(int, t)),), torch.tensor(t), (pos or None)


def fancy(ix):
    return not isinstance(ix, (int, slice))


SHAPES = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)]


def select_cases():
    for (B, L) in SHAPES:
        for lab, ix, pos in one_index(B):
            for cf, poses, warm in itertools.product((False, True), (False, True), (False, True)):
                yield "B%dL%d[%s]/cf%d/poses%d/warm%d" % (B, L, lab, cf, poses, warm), (B, L, ix, pos, list(range(L)), cf, poses, warm)
    for (B, L) in ((5, 1), (1, 5), (4, 4), (6, 7)):
        for i, j in itertools.product(range(-B - 1, B + 1), list(range(-L - 1, L + 1)) + [None]):
            pb, pl = ([i % B] if -B <= i < B else None), (list(range(L)) if j is None else [j % L] if -L <= j < L else None)
            yield "B%dL%d[%s, %s] whole" % (B, L, i, j), (B, L, i if j is None else (i, j), pb, pl, bool(i % 2), True, False)
        for n in range(1, max(B, L) + 1):
            bi, li = [(k * 3 + n) % B - (B if k % 2 else 0) for k in range(n)], slice(n % L, None)
            yield "B%dL%d[%s, %s] list" % (B, L, bi, n % L), (B, L, (bi, li), [k % B for k in bi], list(range(L))[li] or None, bool(n % 2), True, False)
    for (B, L) in ((2, 2), (1, 3), (3, 1), (2, 3)):
        bs, ls = list(one_index(B)), list(one_index(L))
        for n, ((lb, xb, pb), (ll, xl, pl)) in enumerate(itertools.product(bs, ls)):
            if fancy(xb) and fancy(xl):
                continue
            small = lambda x: isinstance(x, int) or (isinstance(x, slice) and x.step is None) or fancy(x)  # noqa: E731
            if not (small(xb) and small(xl)):
                continue
            if B * L == 6 and isinstance(xb, slice) and isinstance(xl, slice):
                continue
            for cf in (False, True):
                yield "B%dL%d[%s, %s]/cf%d" % (B, L, lb, ll, cf), (B, L, (xb, xl), pb, pl, cf, True, n % 2 == 0)


def check_select(case):
    B, L, ix, pb, pl, cf, poses, warm = case
    m = images(B, L, 2, 2, seed=3, zeros=(1, 6), poses=poses, cf=cf)
    r = make_rgbd(m)
    if warm:
        for k in MAPS + ("valid_depth_mask",):
            getattr(r, k)
    if pb is None or pl is None:
        raises(lambda: r[ix], (IndexError,))
        out = "rejected"
    else:
        observe_rgbd(r[ix], m.take(pb, pl), "selection", maps=MAPS if warm or B == 1 else ("global_vertex_map", "normal_map"))
        out = "selected"
    observe_rgbd(r, m, "source", maps=())
    return out


def bad_cases():
    for nm, ix in (("float", 1.0), ("str", "0"), ("None", None), ("three", (0, 0, 0)), ("three slices", (slice(None),) * 3), ("float pair", (0.5, 0))):
        yield nm, ix


def check_bad(ix):
    m = images(2, 2, 2, 2)
    r = make_rgbd(m)
    raises(lambda: r[ix], (IndexError, TypeError))
    observe_rgbd(r, m, "source")
    return "rejected"


# ------------------------------------------------------------------ layout round trips on every small image size
def layout_cases():
    for B, L, H, W in itertools.product((1, 2), (1, 2, 3), (2, 3), (2, 3)):
        for cf, warm, how in itertools.product((False, True), (False, True), ("in place", "out of place", "copy")):
            yield "%d%d%d%d/cf%d/warm%d/%s" % (B, L, H, W, cf, warm, how), (B, L, H, W, cf, warm, how)


def check_layout(case):
    B, L, H, W, cf, warm, how = case
    m = images(B, L, H, W, seed=5, zeros=(0, 4), cf=cf)
    r = make_rgbd(m)
    if warm:
        for k in MAPS + ("valid_depth_mask",):
            getattr(r, k)
    n = m.copy()
    n.cf = not cf
    if how == "in place":
        x = r.to_channels_last_() if cf else r.to_channels_first_()
        expect(x is r, "in-place conversion returned another object")
        observe_rgbd(x, n, "converted")
        y = x.to_channels_first_() if cf else x.to_channels_last_()
        expect(y is r, "in-place conversion returned another object")
    else:
        kw = {"copy": True} if how == "copy" else {}
        x = r.to_channels_last(**kw) if cf else r.to_channels_first(**kw)
        expect(x is not r, "conversion to the other layout returned the original")
        observe_rgbd(x, n, "converted")
        observe_rgbd(r, m, "original")
        y = x.to_channels_first(**kw) if cf else x.to_channels_last(**kw)
        same_layout = r.to_channels_first(**kw) if cf else r.to_channels_last(**kw)
        expect((same_layout is r) == (how != "copy"), "conversion to the current layout: copied=%s" % (same_layout is not r))
        observe_rgbd(same_layout, m, "same layout")
    observe_rgbd(y, m, "round trip")
    x = y.clone()
    expect(x is not y, "clone returned the original")
    observe_rgbd(x, m, "clone")
    return how, 6


# ------------------------------------------------------------------ constructor
def ctor_cases():
    z = torch.zeros
    good = dict(rgb_image=z(2, 3, 4, 5, 3), depth_image=z(2, 3, 4, 5, 1), intrinsics=z(2, 1, 4, 4), poses=z(2, 3, 4, 4))
    V, T = (ValueError,), (TypeError,)
    bad = [
        ("rgb ndim", V, "rgb_image", z(3, 4, 5, 3)), ("rgb channels", V, "rgb_image", z(2, 3, 4, 5, 4)), ("rgb type", T, "rgb_image", np.zeros((2, 3, 4, 5, 3))),
        ("depth ndim", V, "depth_image", z(2, 3, 4, 5)), ("depth channels", V, "depth_image", z(2, 3, 4, 5, 3)), ("depth B", V, "depth_image", z(1, 3, 4, 5, 1)),
        ("depth L", V, "depth_image", z(2, 1, 4, 5, 1)), ("depth size", V, "depth_image", z(2, 3, 5, 4, 1)), ("depth None", T, "depth_image", None),
        ("depth layout", V, "depth_image", z(2, 3, 1, 4, 5)), ("K ndim", V, "intrinsics", z(2, 4, 4)), ("K B", V, "intrinsics", z(1, 1, 4, 4)),
        ("K L", V, "intrinsics", z(2, 3, 4, 4)), ("K 3x3", V, "intrinsics", z(2, 1, 3, 3)), ("K type", T, "intrinsics", [[1]]),
        ("poses ndim", V, "poses", z(2, 4, 4)), ("poses L", V, "poses", z(2, 1, 4, 4)), ("poses B", V, "poses", z(1, 3, 4, 4)), ("poses 3x4", V, "poses", z(2, 3, 3, 4)),
        ("poses type", T, "poses", np.eye(4)), ("cf type", T, "channels_first", 1), ("cf wrong", V, "channels_first", True),
        ("pixel_pos type", T, "pixel_pos", [1]), ("pixel_pos shape", V, "pixel_pos", z(2, 3, 4, 5, 2)),
    ]
    for nm, e, k, v in bad:
        yield "bad " + nm, (e, dict(good, **{k: v}))
    yield "good", (None, good)
    yield "good no poses", (None, {k: v for k, v in good.items() if k != "poses"})


def check_ctor(case):
    from gradslam.structures.rgbdimages import RGBDImages
    e, kw = case
    if e is None:
        r = RGBDImages(**kw)
        expect(tuple(r.shape) == (2, 3, 4, 5) and len(r) == 2 and r.h == 4 and r.w == 5, "wrong shape %s" % (r.shape,))
        expect(bool(r.has_poses) == ("poses" in kw), "has_poses wrong")
        return "accepted"
    raises(lambda: RGBDImages(**kw), e)
    return "rejected"


# ------------------------------------------------------------------ histories on an original and a copy
NAMES = ("rgb_image", "depth_image", "intrinsics", "poses", "valid_depth_mask") + MAPS + ("pixel_pos",)


def scribble(r):
    with torch.no_grad():
        for k in NAMES:
            t = getattr(r, k)
            if t is None:
                continue
            if t.dtype == torch.bool:
                t.logical_not_()
            else:
                t.add_(7)


class State:
    def __init__(self, a):
        self.a, self.b = a, None


class M:
    def __init__(self, a, grad):
        self.a, self.b = a, None
        self.grad = {"a": grad, "b": False}
        self.raw = None


class CopyMachine(Machine):
    def __init__(self, name, B, L, H, W, zeros, poses, cf, grad=False, pix=False):
        self.name = name
        self.pix = pix
        self.p = (B, L, H, W)
        self.zeros, self.poses, self.cf, self.grad = zeros, poses, cf, grad
        self.ops = {}
        self.alphabet()

    def build(self):
        m = images(*self.p, seed=1, zeros=self.zeros, poses=self.poses, cf=self.cf)
        kw = {}
        if self.pix:
            B, L, H, W = self.p
            v, u = np.meshgrid(np.arange(H), np.arange(W), indexing="ij")
            kw["pixel_pos"] = tens(np.tile(np.stack([u, v, np.ones_like(u)], -1), (B, L, 1, 1, 1))).requires_grad_(self.grad)
        return State(make_rgbd(m, requires_grad=self.grad, **kw)), M(m, self.grad)

    def model_key(self, m):
        k = [m.grad, m.raw or ""]
        for x in (m.a, m.b):
            k += [None] if x is None else [x.rgb, x.depth, x.K, x.poses, x.cf]
        return mc.fingerprint(k)

    def observe(self, s, m):
        for reg in ("a", "b"):
            r, x = getattr(s, reg), getattr(m, reg)
            if x is None or m.raw == reg:
                continue
            lab = {"a": "original", "b": "copy"}[reg]
            observe_rgbd(r, x, lab)
            for k in ("rgb_image", "depth_image", "intrinsics", "global_vertex_map"):
                g = bool(getattr(r, k).requires_grad)
                if m.grad[reg] in (True, False):
                    expect(g == m.grad[reg], "%s.%s: requires_grad is %s, expected %s" % (lab, k, g, m.grad[reg]))

    def alphabet(self):
        def ok(m, a):
            return ("ok", None)
        for k in ("valid_depth_mask", "vertex_map", "global_normal_map"):
            self.add("read a.%s" % k, ok, lambda s, a, k=k: (getattr(s.a, k), None)[1], None, lambda m: m.b is None)

        def derive(name, impl, cf=None, grad=True):
            def model(m, a):
                m.b = m.a.copy()
                if cf is not None:
                    m.b.cf = cf
                m.grad["b"] = m.grad["a"] and grad
                return ("ok", None)

            def run(s, a):
                s.b = impl(s.a)
                expect(s.b is not s.a, "%s returned the original" % name)
            self.add("b=" + name, model, run, None, lambda m: m.b is None and (cf is None or "copy" in name or m.a.cf != cf))
        derive("a.clone()", lambda r: r.clone())
        derive("a.detach()", lambda r: r.detach(), grad=False)
        derive("a.to(cpu,copy)", lambda r: r.to("cpu", copy=True))
        derive("a.to_channels_first()", lambda r: r.to_channels_first(), True)
        derive("a.to_channels_last()", lambda r: r.to_channels_last(), False)
        derive("a.to_channels_first(copy)", lambda r: r.to_channels_first(copy=True), True)
        derive("a.to_channels_last(copy)", lambda r: r.to_channels_last(copy=True), False)

        def same_obj(s, a):
            expect(s.a.to("cpu") is s.a and s.a.cpu() is s.a and s.a.to(torch.device("cpu")) is s.a, "to(own device) is not the batch itself")
            x = s.a.to_channels_first() if s.a.channels_first else s.a.to_channels_last()
            expect(x is s.a, "conversion to the current layout is not the batch itself")
        self.add("a.to(same)", ok, same_obj, None, lambda m: m.b is None)

        has = lambda m: m.b is not None and m.raw is None  # noqa: E731
        for reg in ("a", "b"):
            for cf, fn in ((True, "to_channels_first_"), (False, "to_channels_last_")):
                def model(m, a, reg=reg, cf=cf):
                    getattr(m, reg).cf = cf
                    return ("ok", None)

                def impl(s, a, reg=reg, fn=fn):
                    r = getattr(s, reg)
                    expect(getattr(r, fn)() is r, "in-place conversion returned another object")
                self.add("%s.%s" % (reg, fn), model, impl, None, has)

            def setter(attr, field, seed, after=False, reg=reg):
                def model(m, n):
                    x = getattr(m, reg)
                    setattr(x, field, getattr(n, field))
                    x.drop()
                    m.grad[reg] = False if not m.grad[reg] else "mixed"
                    return ("ok", None)

                def impl(s, n):
                    r = getattr(s, reg)
                    v = getattr(n, field)
                    if field in ("rgb", "depth") and r.channels_first:
                        v = np.transpose(v, (0, 1, 4, 2, 3))
                    setattr(r, attr, tens(v))
                self.add("%s.%s=..." % (reg, attr), model, impl, lambda m: images(*self.p, seed=seed, zeros=(2,), poses=True), (lambda m, reg=reg: m.b is not None and m.raw != reg) if after else has)
            setter("depth_image", "depth", 3, True)
            setter("poses", "poses", 5)
            setter("rgb_image", "rgb", 2)

            def rmodel(m, a, reg=reg):
                m.raw = reg
                return ("ok", None)
            self.add("caller overwrites every tensor of %s" % reg, rmodel, lambda s, a, reg=reg: scribble(getattr(s, reg)), None, has)


MACHINES = [
    ("b2l2h2w3-poses", 2, 2, 2, 3, (0, 7), True, False),
    ("b1l2h3w2-cf", 1, 2, 3, 2, (2,), False, True),
    ("b2l1h2w2-poses-cf-grad", 2, 1, 2, 2, (3,), True, True, True),
    ("b1l1h2w2-poses-grad-pixelpos", 1, 1, 2, 2, (1,), True, False, True, True),
]
SWEEPS = [("select", select_cases, check_select), ("bad index", bad_cases, check_bad), ("layout", layout_cases, check_layout), ("constructor", ctor_cases, check_ctor)]
RULE = ("(1) every integer, slice (all bounds, steps 1-2), list, integer-tensor and boolean-tensor index of each dimension and every pair of them "
        "with at most one list/tensor, against plain list indexing; (2) every layout round trip; (3) every history read* -> copy -> change one of the two")


def machines(tier):
    return [(CopyMachine, MACHINES, 4 if tier == "quick" else 5)]


def main(tier, t0):
    return sweepcheck.run("C07", tier, t0, SWEEPS, machines(tier), rule=RULE, bounds={"batch": "1..3", "sequence length": "1..3", "image": "2..3 x 2..3"},
                          assumptions=["float32 values compared with tolerance 1e-4", "state merging by 64-bit hash of the full concrete state"])


def replay(doc):
    return sweepcheck.replay(doc, SWEEPS, machines("quick"))
