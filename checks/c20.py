"""C20: the ScanNet reader returns sequences whose images, poses and labels belong together."""
import itertools
import os
import shutil
import tempfile

import numpy as np

import purecalls
import purity
import sweepcheck
from dsmodel import (H0, W0, Reader, check_images, check_poses, label_of, nearest, pose_of, want_intrinsics, write_images)
from mc import Mismatch, expect, raises, same

ROOT = None
SMALL = {"height": 4, "width": 6}
# nyu40 classes kept by the 20-class benchmark, in order
KEPT = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 24, 28, 33, 34, 36, 39]
TO20 = {c: i + 1 for i, c in enumerate(KEPT)}
LAYOUTS = {}


def scannet():
    from gradslam.datasets import Scannet
    return Scannet


def K_of(seq):
    return np.array([[577.87 + seq, 0, 319.5 - seq, 0], [0, 577.9 - seq, 239.5 + seq, 0], [0, 0, 1, 0], [0, 0, 0, 1]])


def write_layout(name, seqs):
    """seqs: [(scene, sequence number, id, frame count)]"""
    base = os.path.join(ROOT, name, "scans")
    meta = os.path.join(ROOT, name, "meta")
    os.makedirs(base)
    os.makedirs(meta)
    out = {}
    for scene, num, sid, n in seqs:
        rel = "%s/seq_%s" % (scene, num)
        d = os.path.join(base, rel)
        names = [str(10 * k + sid) for k in range(n)]
        write_images(d, sid, n, names, label=True, rgb_dir="color")
        os.makedirs(os.path.join(d, "pose"))
        os.makedirs(os.path.join(d, "intrinsic"))
        for kind, K in (("intrinsic_color", np.eye(4) * 3), ("extrinsic_color", np.eye(4)), ("intrinsic_depth", K_of(sid)), ("extrinsic_depth", np.eye(4))):
            np.savetxt(os.path.join(d, "intrinsic", kind + ".txt"), K)
        lines = []
        for k, nm in enumerate(names):
            np.savetxt(os.path.join(d, "pose", nm + ".txt"), pose_of(sid, k))
            parts = ["color", "%s/color/%s.png" % (rel, nm), "depth", "%s/depth/%s.png" % (rel, nm), "pose", "%s/pose/%s.txt" % (rel, nm), "label-filt", "%s/label-filt/%s.png" % (rel, nm),
                     "intrinsic_color", "%s/intrinsic/intrinsic_color.txt" % rel, "extrinsic_color", "%s/intrinsic/extrinsic_color.txt" % rel, "instance", "none",
                     "intrinsic_depth", "%s/intrinsic/intrinsic_depth.txt" % rel, "extrinsic_depth", "%s/intrinsic/extrinsic_depth.txt" % rel]
            lines.append(" ".join(parts) + "\n")
        with open(os.path.join(meta, "%s-seq_%s.txt" % (scene, num)), "w") as f:
            f.writelines(lines)
        out["%s-seq_%s" % (scene, num)] = (scene, sid, n)
    open(os.path.join(meta, "notes.md"), "w").write("x")
    LAYOUTS[name] = (base, meta, out)


def build():
    for n in range(1, 7):
        write_layout("n%d" % n, [("scene0000_00", 0, 1, n)])
    write_layout("n34", [("scene0000_00", 0, 1, 34), ("scene0003_01", 1, 2, 38)])
    write_layout("many", [("scene%04d_%02d" % (i // 3, i % 3), i % 2, i + 1, 1 + i % 4) for i in range(24)])
    write_layout("multi", [("scene0000_00", 0, 1, 3), ("scene0000_00", 1, 2, 5), ("scene0000_01", 0, 3, 1), ("scene0010_00", 2, 4, 4), ("scene0010_00", 10, 5, 2)])
    write_layout("three", [("scene0000_00", 0, 1, 3), ("scene0000_01", 0, 2, 2), ("scene0002_00", 1, 3, 4)])
    write_layout("turned", [("scene0000_00", 0, 5, 2), ("scene0002_00", 1, 6, 3)])
    write_layout("same", [("scene0000_00", 0, 1, 4), ("scene0001_00", 0, 2, 4), ("scene0002_00", 0, 3, 4)])


def make(layout, scenes=None, **kw):
    base, meta, _ = LAYOUTS[layout]
    return scannet()(base, meta, scenes, **kw)


def want_label(seq, k, o):
    lab = nearest(label_of(seq, k), o.get("height", 480), o.get("width", 640))
    if o.get("seg_classes", "scannet20").lower() == "scannet20":
        lab = np.vectorize(lambda v: TO20.get(int(v), 0))(lab)
    return lab


def check_item(item, sid, name, ks, o):
    out = list(item)
    check_images(out, [(sid, k, k) for k in ks], o, 1000.0)
    if o.get("return_intrinsics", True):
        same(out.pop(0), want_intrinsics(K_of(sid), o), "intrinsics", tol=1e-5)
    check_poses(out, [pose_of(sid, k) for k in ks], o)
    if o.get("return_names", True):
        got = out.pop(0)
        expect(got == name, "name %r, expected %r" % (got, name))
    if o.get("return_labels", True):
        got = np.asarray(out.pop(0))
        want = np.stack([want_label(sid, k, o) for k in ks])
        # documented without, returned with a trailing channel dimension
        if got.ndim == 4 and got.shape[-1] == 1:
            got = got[..., 0]
        same(got, want, "labels", tol=0)
    expect(not out, "%d more outputs than requested" % len(out))


def expected(layout, scenes, start, end):
    """[(name, id, frames)] or None when some requested sequence does not contain the requested frames."""
    out = []
    for name, (scene, sid, n) in LAYOUTS[layout][2].items():
        if scenes is not None and scene not in scenes:
            continue
        e = n if end == -1 else end
        if e > n or start >= e:
            return None
        out.append((name, sid, list(range(start, e))))
    return out


def check_dataset(layout, scenes, start, end, o, arg=None):
    want = expected(layout, scenes, start, end)
    arg = scenes if arg is None else arg
    if want is None:
        try:
            ds = make(layout, arg, start=start, end=end, **o)
        except (ValueError, IndexError):
            return "rejected"
        ok = {(name): None for name, _ in LAYOUTS[layout][2].items()}
        for name, (scene, sid, n) in LAYOUTS[layout][2].items():
            pass
        # accepted: then no sample may be shorter than asked for or mix frames
        for j in range(len(ds)):
            try:
                item = ds[j]
            except Exception:  # noqa: BLE001
                continue
            name = item[5 - (not o.get("return_depth", True))] if o.get("return_names", True) else None
            scene, sid, n = LAYOUTS[layout][2][name]
            e = n if end == -1 else end
            expect(e <= n and start < e, "a sample of %s for frames %d to %d of %d" % (name, start, end, n))
            check_item(item, sid, name, list(range(start, e)), o)
        return "rejected late"
    ds = make(layout, arg, start=start, end=end, **o)
    expect(len(ds) == len(want), "%d samples, expected %d" % (len(ds), len(want)))
    if o.get("return_names", True) and all(o.get(f, True) for f in FLAGS):
        byname = {}
        for j in range(len(ds)):
            item = ds[j]
            expect(item[5] not in byname, "sequence %s twice" % item[5])
            byname[item[5]] = item
        expect(sorted(byname) == sorted(w[0] for w in want), "sequences %s, expected %s" % (sorted(byname), [w[0] for w in want]))
        for name, sid, ks in want:
            check_item(byname[name], sid, name, ks, o)
    else:
        for j, (name, sid, ks) in enumerate(want):
            check_item(ds[j], sid, name, ks, o)
    raises(lambda: ds[len(want)], (IndexError,))
    return "%d samples" % len(want)


FLAGS = ["return_depth", "return_intrinsics", "return_pose", "return_transform", "return_names", "return_labels"]
SIZES = [(4, 6), (8, 12), (2, 3), (3, 5), (1, 1), (16, 6), (4, 24), (520, 7), (5, 700)]
SCENES = {"multi": ["scene0000_00", "scene0000_01", "scene0010_00"], "same": ["scene0000_00", "scene0001_00", "scene0002_00"]}


def range_cases():
    for layout in ["n%d" % n for n in range(1, 7)] + ["multi", "same"]:
        for start in range(0, 7):
            for end in [-1] + list(range(1, 9)):
                if end != -1 and end <= start:
                    continue
                yield "%s/%d/%d" % (layout, start, end), (layout, start, end)


def long_cases():
    for start, end in ((0, -1), (0, 34), (5, 34), (0, 20), (17, 33), (33, -1), (33, 34), (0, 35), (34, -1)):
        yield "n34/%d/%d" % (start, end), ("n34", start, end)
    for start, end in ((0, -1), (0, 1), (1, -1)):
        yield "many/%d/%d" % (start, end), ("many", start, end)


def check_range(case):
    layout, start, end = case
    return check_dataset(layout, None, start, end, SMALL)


def choice_cases():
    for layout, avail in SCENES.items():
        for r in range(0, 4):
            for sel in itertools.permutations(avail + ["scene9999_99"] + (["scene0000_0"] if r < 3 else []), r):
                for form in ("tuple", "file", "file newline", "file crlf") if r else ("none", "tuple"):
                    for start, end in ((0, -1), (0, 1), (1, 2), (0, 4), (2, -1)):
                        yield "%s/%s/%s/%d/%d" % (layout, ",".join(sel), form, start, end), (layout, sel, form, start, end)


def check_choice(case):
    layout, sel, form, start, end = case
    if form == "none":
        return check_dataset(layout, None, start, end, SMALL)
    if form == "tuple":
        return check_dataset(layout, tuple(sel), start, end, SMALL)
    d = tempfile.mkdtemp(dir=ROOT)
    try:
        p = os.path.join(d, "split.txt")
        with open(p, "w", newline="") as f:
            f.write({"file": "\n".join(sel), "file newline": "".join(a + "\n" for a in sel), "file crlf": "\r\n".join(sel) + "\r\n"}[form])
        return check_dataset(layout, tuple(sel), start, end, SMALL, arg=p)
    finally:
        shutil.rmtree(d)


def option_cases():
    for flags in itertools.product((True, False), repeat=6):
        for cf in (True, False):
            for norm in (True, False):
                for seg in ("scannet20", "nyu40"):
                    yield "%s/%s/%s/%s" % ("".join("01"[f] for f in flags), cf, norm, seg), ("multi", dict(zip(FLAGS, flags), channels_first=cf, normalize_color=norm, seg_classes=seg, **SMALL), ("scene0010_00",))
    for h, w in SIZES:
        for cf in (True, False):
            for norm in (True, False):
                for seg in ("scannet20", "nyu40", "NYU40", "ScanNet20"):
                    yield "%dx%d/%s/%s/%s" % (h, w, cf, norm, seg), ("n3", dict(height=h, width=w, channels_first=cf, normalize_color=norm, seg_classes=seg), None)
    yield "default size", ("n1", {}, None)


def check_option(case):
    layout, o, scenes = case
    if scenes:
        # names identify the samples only when asked for: use one sequence
        o = dict(o)
        layout = "n4"
        scenes = None
    return check_dataset(layout, scenes, 0, 1 if o == {} else -1, o)


def bad_cases():
    for kw, exc in (({"start": -1}, (ValueError,)), ({"start": 2, "end": 2}, (ValueError,)), ({"start": 3, "end": 1}, (ValueError,)), ({"end": -2}, (ValueError,)), ({"end": 0}, (ValueError,)),
                    ({"scenes": ["scene0000_00"]}, (TypeError,)), ({"scenes": 5}, (TypeError,)), ({"scenes": "/nonexistent.txt"}, (ValueError,)), ({"scenes": {"scene0000_00"}}, (TypeError,))):
        yield str(kw), (kw, exc)


def check_bad(case):
    kw, exc = case
    raises(lambda: make("same", **{**SMALL, **kw}), exc)
    return "rejected"


# ------------------------------------------------------------------ label remapping
def label_cases():
    for v in range(41):
        yield "value %d" % v, [v]
    for a, b in itertools.product(range(41), repeat=2):
        yield "pair %d %d" % (a, b), [a, b]
    yield "all", list(range(41))
    yield "all reversed", list(range(40, -1, -1))


def check_label(case):
    from gradslam.datasets.scannet import nyu40_to_scannet20
    for dt in (np.uint8, np.int64, np.float64):
        for shape in ((len(case),), (1, len(case)), (len(case), 1), (1, len(case), 1)):
            a = np.array(case, dtype=dt).reshape(shape)
            keep = a.copy()
            got = nyu40_to_scannet20(a)
            same(np.asarray(got), np.array([TO20.get(v, 0) for v in case], dtype=dt).reshape(shape), "remapped labels", tol=0)
            expect(np.array_equal(a, keep), "the label image passed in was changed: %s" % a.tolist())
            expect(np.asarray(got).dtype == dt, "dtype %s" % np.asarray(got).dtype)
            f = np.array(case * 3, dtype=dt).reshape(3, -1).T  # not contiguous
            same(np.asarray(nyu40_to_scannet20(f)), np.vectorize(lambda v: TO20.get(int(v), 0))(f), "remapped strided labels", tol=0)
    return "remapped", 24


def table_cases():
    for seg in ("scannet20", "nyu40", "NYU40", "ScanNet20"):
        yield seg, seg


def check_table(seg):
    """The palettes agree with the remapping: a kept class has the same color under both numberings."""
    from gradslam.datasets.scannet import get_color_encoding
    enc = get_color_encoding(seg)
    n = 41 if seg.lower() == "nyu40" else 21
    expect(len(enc) == n, "%d classes" % len(enc))
    full = list(get_color_encoding("nyu40").items())
    sub = list(get_color_encoding("scannet20").items())
    for c, i in TO20.items():
        expect(full[c][0] == sub[i][0], "class %d is %s, remapped to %d which is %s" % (c, full[c][0], i, sub[i][0]))
    for k, col in enc.items():
        expect(len(col) == 3 and all(0 <= x <= 255 for x in col), "color of %s" % k)
    return "%d classes" % n


def again_cases():
    for layout in ("n3", "multi", "same"):
        for cf in (True, False):
            yield "again/%s/%s" % (layout, cf), (layout, cf)


def check_again(case):
    """Reading samples in another order, or after the caller worked on earlier ones in place, changes nothing."""
    layout, cf = case
    ds = make(layout, channels_first=cf, **SMALL)
    first = [ds[j] for j in range(len(ds))]
    keep = [[x.clone() if hasattr(x, "clone") else x for x in s] for s in first]
    for j in reversed(range(len(ds))):
        for x in first[j]:
            if hasattr(x, "clone"):
                x.mul_(3).add_(7)
        for c, x in enumerate(ds[j]):
            if hasattr(x, "clone"):
                same(x, keep[j][c], "output %d read again" % c, tol=0)
            else:
                expect(x == keep[j][c], "output %d read again: %r" % (c, x))
    return "%d samples" % len(ds), 2 * len(ds)


def reader():
    """Two readers of one folder (three sequences, then two others of the same names)."""
    a = dict(SMALL, start=1)
    b = dict(height=2, width=3, end=2, channels_first=True, normalize_color=True, seg_classes="nyu40")

    def samples(name, o):
        return expected(name, None, o.get("start", 0), o.get("end", -1))

    def check(ds, j, name, o):
        item = ds[j]
        want = {w[0]: w for w in samples(name, o)}
        expect(item[5] in want, "sample named %r" % (item[5],))
        check_item(item, want[item[5]][1], item[5], want[item[5]][2], o)

    return Reader(ROOT, [(n, os.path.dirname(LAYOUTS[n][0])) for n in ("three", "turned")], (a, b), lambda path, o: scannet()(os.path.join(path, "scans"), os.path.join(path, "meta"), None, **o),
                  lambda n, o: len(samples(n, o)), check)


def sweeps(tier):
    return [("histories", lambda: reader().cases(tier), lambda ops: reader().run(ops)), ("range", range_cases, check_range), ("long", long_cases, check_range), ("choice", choice_cases, check_choice), ("option", option_cases, check_option), ("bad", bad_cases, check_bad),
            ("label", label_cases, check_label), ("table", table_cases, check_table), ("again", again_cases, check_again),
            purity.sweep(purecalls.labels, tier)]


RULE = "Complete product of sequence lengths x start x end on synthetic scenes whose every file identifies its frame; every scene choice in every form; every option set; every label pair"


def with_root(fn):
    global ROOT
    ROOT = tempfile.mkdtemp(prefix="c20-")
    try:
        build()
        return fn()
    finally:
        shutil.rmtree(ROOT)


def main(tier, t0):
    return with_root(lambda: sweepcheck.run("C20", tier, t0, sweeps(tier), rule=RULE, bounds={"frames": 6, "image": "4x6"},
                                            assumptions=["OpenCV/imageio decoding of PNG files is trusted", "images are PNG (the reader does not depend on the format)"]))


def replay(doc):
    return with_root(lambda: sweepcheck.replay(doc, sweeps("thorough")))
