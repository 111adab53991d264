"""C17: RGB-D sequences rendered as Plotly frames show exactly the chosen sequence."""
import base64
import itertools
import re

import numpy as np
import torch

import sweepcheck
from mc import expect, raises
from rgbdmodel import intr

T = 8  # block size: JPEG codes blocks of constant value almost exactly
LEV = (0, 40, 90, 140, 200, 255)


def frames_of(B, L, h, w, scale, seed):
    """Images of constant blocks: rgb in 0..255 (before scaling) and depth levels."""
    n = B * L * h * w
    i = np.arange(n)
    c = np.stack([(i * 5 + seed) % 6, (i * 3 + i // 4 + 2 * seed) % 6, (i + i // 3 + 1) % 6], -1)
    rgb = np.array(LEV, dtype=float)[c].reshape(B, L, h, w, 3)
    depth = ((i * 7 + seed + i // 5) % 9).astype(float).reshape(B, L, h, w) / 8.0
    depth.reshape(B, -1)[:, 0] = 1.0  # the deepest block of every sequence
    return rgb, depth


def blow(x):
    return np.repeat(np.repeat(x, 2 * T, 2), 2 * T, 3)


DEPTHS = {"varied": 5.0, "metres": 8.0, "far": 93.0, "near": 0.6, "millimetres": 3700.0, "tiny": 0.0042, "levels": 200.0, "none": 0.0}
RGBS = {"bytes": 1.0, "unit": 1 / 255.0, "dark bytes": 0.5, "black first": 1.0, "beyond bytes": 1.2}


def cases(tier):
    S = [(1, 1, 1, 1), (1, 2, 1, 2), (2, 1, 2, 1), (2, 3, 2, 3), (3, 2, 1, 1)] + ([(3, 4, 2, 2), (4, 1, 3, 2)] if tier == "thorough" else [])
    for si, (B, L, h, w) in enumerate(S):
        for cf, dn, rn, dt in itertools.product((False, True), DEPTHS, RGBS, (torch.float32, torch.float64)):
            if dt == torch.float64 and tier == "quick" and (si + len(dn)) % 2:
                continue
            for rg in (False, True):
                for seed in range(1 if tier == "quick" else 3):
                    yield "%dx%dx%dx%d/%s/%s/%s/%s/grad%s/%d" % (B, L, h, w, "cf" if cf else "cl", dn, rn, dt, rg, seed), (B, L, h, w, cf, dn, rn, dt, rg, seed)


def decode(img):
    import cv2
    src = img.source
    m = re.match(r"data:image/(\w+);base64,(.*)", src, re.S)
    expect(m is not None, "image source is %r" % src[:40])
    a = cv2.imdecode(np.frombuffer(base64.b64decode(m.group(2)), np.uint8), cv2.IMREAD_UNCHANGED)
    expect(a is not None, "image data cannot be decoded")
    return a[..., ::-1] if a.ndim == 3 else a


def same_image(img, want, what, tol):
    a = decode(img).astype(float)
    expect(a.shape == want.shape, "%s: image shape %s, expected %s" % (what, a.shape, want.shape))
    inner = np.arange(a.shape[0])[:, None] % 16 // 4 % 3 * (np.arange(a.shape[1]) % 16 // 4 % 3) > 0  # block borders are smoothed by chroma subsampling
    err = np.abs(a - want)[inner].max()
    expect(err <= tol, "%s: pixels differ by %s" % (what, err))


def check_frames(frames, rgb, depth, what):
    """frames of one sequence: rgb (L, H, W, 3) in 0..255, depth (L, H, W) or None."""
    expect(len(frames) == len(rgb), "%s: %d frames, expected %d" % (what, len(frames), len(rgb)))
    for l, f in enumerate(frames):
        w = "%s frame %d" % (what, l)
        expect(str(f["name"]) == str(l), "%s: named %r" % (w, f["name"]))
        data = list(f["data"])
        expect(len(data) == (1 if depth is None else 2), "%s: %d images" % (w, len(data)))
        same_image(data[0], rgb[l], w + " rgb", 4.0)
        expect("scale" not in data[0].hovertemplate, "%s: rgb hover announces a scale" % w)
        if depth is not None:
            expect(list(f["traces"]) == [0, 1], "%s: traces %s" % (w, f["traces"]))
            m = re.search(r"scale: x([0-9.e+-]+)", data[1].hovertemplate)
            expect(m is not None, "%s: depth hover does not announce its scale: %r" % (w, data[1].hovertemplate))
            s = float(m.group(1))
            expect(s > 0 and abs(np.log10(s) - round(np.log10(s))) < 1e-6, "%s: scale %s is not a power of ten" % (w, s))
            top = depth.max()
            if top > 0:
                expect(top * s <= 255.001 and top * s * 10 > 255, "%s: scale %s for depths up to %s" % (w, s, top))
            same_image(data[1], depth[l] * s, w + " depth", 3.0)


def check(case):
    from gradslam.structures.rgbdimages import RGBDImages
    B, L, h, w, cf, dn, rn, dt, rg, seed = case
    rgb, depth = frames_of(B, L, h, w, 1.0, seed)
    if rn == "black first":
        rgb[:, 0] = np.floor(rgb[:, 0] / 200)  # first frame of every sequence is almost black
    if rn == "beyond bytes":
        rgb = rgb - 20.0
    if dn == "varied":
        depth = depth * np.array([1.0, 400.0, 0.003])[np.arange(B) % 3].reshape(-1, 1, 1, 1)  # sequences of very different depth range
    rgb, depth = blow(rgb), blow(depth) * DEPTHS[dn]
    lay = (lambda x: np.ascontiguousarray(np.moveaxis(x, 4, 2))) if cf else (lambda x: x)
    tr = torch.tensor(lay(rgb) * RGBS[rn], dtype=dt, requires_grad=rg)
    td = torch.tensor(lay(depth[..., None]), dtype=dt, requires_grad=rg)
    K = torch.tensor(np.tile(intr(3.0, 4.0, 1.0, 2.0), (B, 1, 1, 1)), dtype=dt)
    r = RGBDImages(tr, td, K, channels_first=cf)
    shown = np.clip(rgb * (RGBS[rn] if rn != "unit" else 1.0), 0.0, 255.0)
    if L == 1 and rn == "black first":
        shown = shown * 255.0  # nothing tells bytes of 0 and 1 from unit colors
    b = [(x, x.detach().clone()) for x in (tr, td, K)]
    n = 0
    for i in list(range(B)) + [-1]:
        for inc in (True, False):
            what = "plotly(%d, include_depth=%s)" % (i, inc)
            fr = r.plotly(i, include_depth=inc, as_figure=False)
            check_frames(fr, shown[i], depth[i] if inc else None, what)
            fig = r.plotly(i, include_depth=inc, ms_per_frame=70)
            check_figure(fig, shown[i], depth[i] if inc else None, what)
            n += 2
    for x, y in b:
        expect(torch.equal(x.detach(), y), "plotly changed its batch")
    expect(r.rgb_image.shape == tr.shape and torch.equal(r.rgb_image.detach(), b[0][1]) and torch.equal(r.depth_image.detach(), b[1][1]), "plotly changed the batch")
    expect(bool(r.channels_first) == cf, "plotly changed the layout of the batch")
    return dn, n


def check_figure(fig, rgb, depth, what):
    import plotly.graph_objects as go
    expect(isinstance(fig, go.Figure), "%s: result is a %s" % (what, type(fig).__name__))
    check_frames(fig.frames, rgb, depth, what + " figure")
    expect(len(fig.data) == (1 if depth is None else 2), "%s: figure shows %d images" % (what, len(fig.data)))
    same_image(fig.data[0], rgb[0], what + " initial rgb", 4.0)
    if depth is not None:
        expect(fig.data[1].source == fig.frames[0].data[1].source, "%s: initial depth is not that of frame 0" % what)
    steps = fig.layout.sliders[0].steps
    expect([str(s.label) for s in steps] == [str(l) for l in range(len(rgb))], "%s: slider steps %s" % (what, [s.label for s in steps]))
    for l, s in enumerate(steps):
        expect(s.method == "animate" and [str(v) for v in s.args[0]] == [str(l)], "%s: slider step %d shows %s" % (what, l, s.args[0]))
    play = fig.layout.updatemenus[0].buttons[0]
    expect(play.args[1]["frame"]["duration"] == 70, "%s: frames last %s ms" % (what, play.args[1]["frame"]["duration"]))


# ------------------------------------------------------------------ the image encoder on its own
def enc_cases(tier):
    lev = (0, 64, 128, 192, 255) if tier == "quick" else range(0, 256, 17)
    for v in range(256):
        yield "grey/%d" % v, ("grey", v)
    for c in itertools.product(lev, repeat=3):
        yield "rgb/%s" % (c,), ("rgb", c)


def check_enc(case):
    from gradslam.structures import structutils as su
    kind, v = case
    a = np.zeros((T * 2, T * 4), np.uint8) + np.uint8(v) if kind == "grey" else np.tile(np.array(v, np.uint8), (T * 2, T * 4, 1))
    b = a.copy()
    im = su.numpy_to_plotly_image(a, name="n", is_depth=kind == "grey", scale=None)
    same_image(im, a.astype(float), "encoded image", 4.0)
    expect(im.name == "n", "image name %r" % im.name)
    expect("scale" not in im.hovertemplate, "hover announces a scale that was not given")
    for s, want in ((10, "x10<"), (10.0, "x10<"), (0.1, "x0.1<"), (1, "x1<")):
        expect(want in su.numpy_to_plotly_image(a, 3, kind == "grey", s).hovertemplate, "hover does not announce scale %s" % s)
    expect(np.array_equal(a, b), "encoding changed the image")
    return kind, 5


def bad_cases():
    for B in (1, 2):
        for i, e in ((B, IndexError), (-B - 1, IndexError), ("0", TypeError), (1.0, TypeError), (None, TypeError), (slice(0, 1), TypeError)):
            yield "plotly/%d/%r" % (B, i), (B, i, e)


def check_bad(case):
    from gradslam.structures.rgbdimages import RGBDImages
    B, i, e = case
    r = RGBDImages(torch.rand(B, 1, 4, 4, 3), torch.rand(B, 1, 4, 4, 1), torch.eye(4).expand(B, 1, 4, 4))
    raises(lambda: r.plotly(i), (e,))
    return "rejected"


def sweeps(tier):
    return [("frames", lambda: cases(tier), check), ("encoder", lambda: enc_cases(tier), check_enc), ("rejected", bad_cases, check_bad)]


RULE = ("every batch shape x layout x depth range (including no valid depth) x color range x precision x requires_grad x sequence index x include_depth x figure or frames, images of constant blocks decoded "
        "from the rendered data and compared; all 256 grey levels and a grid of colors through the encoder")


def main(tier, t0):
    return sweepcheck.run("C17", tier, t0, sweeps(tier), rule=RULE, bounds={"batch": "up to 3x3 sequences (thorough 4x4)", "blocks": "up to 2x3", "depth ranges": sorted(DEPTHS), "color ranges": sorted(RGBS)},
                          assumptions=["rendered images may differ by JPEG and 8-bit rounding"])


def replay(doc):
    return sweepcheck.replay(doc, sweeps("thorough"))
