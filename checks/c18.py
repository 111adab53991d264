"""C18: the TUM reader returns time-aligned frames, windows and poses."""
import itertools
import os
import shutil
import tempfile
import warnings

import numpy as np

import sweepcheck
from c15 import rot_of
from dsmodel import Reader, check_images, check_poses, stem, want_intrinsics, windows, write_images
from mc import Mismatch, expect, raises, same
from pcmodel import se3

ROOT = None
SMALL = {"height": 4, "width": 6}
K = [[525.0, 0, 319.5, 0], [0, 525.0, 239.5, 0], [0, 0, 1, 0], [0, 0, 0, 1]]
NMAX = 8
LONG = 34
LAYOUTS = {}


def tum():
    from gradslam.datasets import TUM
    return TUM


def seqname(i, kind="freiburg1"):
    return "rgbd_dataset_%s_seq%d" % (kind, i)


def pose7(seq, k):
    """Translation and unit quaternion (x y z w) number k of a sequence."""
    r = np.random.RandomState(300 * seq + k + 5)
    q = r.randn(4)
    q /= np.linalg.norm(q)
    return list(r.uniform(-2, 2, 3)) + list(q)


def pose_matrix(seq, k):
    p = pose7(seq, k)
    return se3(rot_of(np.array(p[3:])), p[:3])


HEAD = "# color images\n# file: 'x.bag'\n# timestamp filename\n"


def write_seq(d, rgb, depth, pose, seq=1, images=True, order=None, names=None):
    """rgb, depth: [(stamp text, image number)]; pose: [(stamp text, pose number)]."""
    os.makedirs(d)
    if images is True:
        write_images(d, seq, max(NMAX, len(rgb or ())), names)
    else:
        for sub in ("rgb", "depth"):
            os.symlink(os.path.join(images, sub), os.path.join(d, sub))
    for name, rows in (("rgb", rgb), ("depth", depth)):
        if rows is not None:
            with open(os.path.join(d, name + ".txt"), "w") as f:
                f.write(HEAD + "".join("%s %s/%s.png\n" % (t, name, names[k] if names else k) for t, k in rows))
    if pose is not None:
        with open(os.path.join(d, "groundtruth.txt"), "w") as f:
            f.write("# ground truth trajectory\n# file: 'x.bag'\n# timestamp tx ty tz qx qy qz qw\n"
                    + "".join("%s %s\n" % (t, " ".join("%.9f" % v for v in pose7(seq, k))) for t, k in pose))


def stamp(t):
    return "%.6f" % (1305031100.0 + t)


def time_names(n):
    return ["1305031%d.%06d" % (100 + k, 17 * k + 10) for k in range(max(n, NMAX))]


def aligned(n):
    rgb = [(stamp(0.05 * k), k) for k in range(n)]
    depth = [(stamp(0.05 * k + 0.004 + 0.0003 * k), k) for k in range(n)]
    pose = [(stamp(0.05 * k + 0.002 + 0.0002 * k), k) for k in range(n)]
    return rgb, depth, pose


def build():
    for n in range(1, NMAX + 1):
        base = os.path.join(ROOT, "n%d" % n)
        os.makedirs(base)
        write_seq(os.path.join(base, seqname(1)), *aligned(n))
        LAYOUTS["n%d" % n] = (base, {1: (seqname(1), n)})
    base = os.path.join(ROOT, "n%d" % LONG)
    os.makedirs(base)
    write_seq(os.path.join(base, seqname(1)), *aligned(LONG))
    LAYOUTS["n%d" % LONG] = (base, {1: (seqname(1), LONG)})
    base = os.path.join(ROOT, "turned")
    os.makedirs(base)
    write_seq(os.path.join(base, seqname(1)), *aligned(6), seq=7)
    LAYOUTS["turned"] = (base, {1: (seqname(1), 6)})
    base = os.path.join(ROOT, "multi")
    os.makedirs(base)
    LAYOUTS["multi"] = (base, {})
    for i, n, kind in ((1, 5, "freiburg1"), (2, 3, "freiburg2"), (3, 6, "freiburg3"), (4, 1, "freiburg1")):
        write_seq(os.path.join(base, seqname(i, kind)), *aligned(n), seq=i)
        LAYOUTS["multi"][1][i] = (seqname(i, kind), n)
    open(os.path.join(base, "README"), "w").write("x")
    # sequences whose names begin with the name of another, and images named after the time they were taken
    base = os.path.join(ROOT, "alike")
    os.makedirs(base)
    LAYOUTS["alike"] = (base, {})
    for i, n, name in ((1, 4, "rgbd_dataset_freiburg1_desk"), (2, 3, "rgbd_dataset_freiburg1_desk2"), (3, 5, "rgbd_dataset_freiburg2_desk_with_person"), (4, 2, "rgbd_dataset_freiburg2_desk"), (5, 3, "rgbd_dataset_freiburg1_desk_validation")):
        write_seq(os.path.join(base, name), *aligned(n), seq=i, names=time_names(n))
        LAYOUTS["alike"][1][i] = (name, n)
    for missing in ("rgb", "depth", "pose"):
        base = os.path.join(ROOT, "missing " + missing)
        os.makedirs(base)
        rgb, depth, pose = aligned(3)
        write_seq(os.path.join(base, seqname(1)), None if missing == "rgb" else rgb, None if missing == "depth" else depth, None if missing == "pose" else pose)
        LAYOUTS["missing " + missing] = (base, {1: (seqname(1), 3)})
    for bad in ("other", "rgbd_dataset_kitti1_x", "rgbd_images_freiburg1_x"):
        base = os.path.join(ROOT, "folder " + bad)
        os.makedirs(os.path.join(base, bad))
        write_seq(os.path.join(base, seqname(1)), *aligned(2))
        LAYOUTS["folder " + bad] = (base, {1: (seqname(1), 2)})
    os.makedirs(os.path.join(ROOT, "empty"))
    LAYOUTS["empty"] = (os.path.join(ROOT, "empty"), {})
    pool = os.path.join(ROOT, "pool")
    os.makedirs(pool)
    write_images(pool, 1, LONG)


def make(base, **kw):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        ds = tum()(LAYOUTS[base][0] if base in LAYOUTS else base, **kw)
    return ds, [r for r in rec if issubclass(r.category, UserWarning)]


def check_item(item, name, seq, frames, o, tol=2e-4):
    """frames: [(rgb number, depth number, pose number, (stamps))]"""
    out = list(item)
    check_images(out, [(seq, f[0], f[1]) for f in frames], o, 5000.0)
    if o.get("return_intrinsics", True):
        same(out.pop(0), want_intrinsics(K, o), "intrinsics", tol=1e-5)
    check_poses(out, [pose_matrix(seq, f[2]) for f in frames] if o.get("return_pose", True) or o.get("return_transform", True) else None, o, tol)
    if o.get("return_names", True):
        got = out.pop(0)
        parts = [p.strip() for p in got.split(",")]
        shown = lambda k: time_names(k + 1)[k] if "desk" in name else str(k)  # noqa: E731
        expect(len(parts) == len(frames) and all(p.startswith(name + "/") and p.split("/")[-1] == shown(f[0]) for p, f in zip(parts, frames)), "names %r, expected those of rgb images %s" % (got, [shown(f[0]) for f in frames]))
    if o.get("return_timestamps", True):
        got = out.pop(0)
        want = "\n".join("rgb %s depth %s pose %s" % f[3] for f in frames)
        expect(got == want, "timestamps %r, expected %r" % (got, want))
    expect(not out, "%d more outputs than requested" % len(out))


def frames_of(n, start, end, poses=True):
    rgb, depth, pose = aligned(n)
    return [(k, k, k, (rgb[k][0], depth[k][0], pose[k][0] if poses else None)) for k in range(n) if k >= (start or 0) and (end is None or k < end)]


def check_dataset(ds, layout, chosen, seqlen, dilation, stride, start, end, o):
    seqs = LAYOUTS[layout][1]
    poses = o.get("return_pose", True) or o.get("return_transform", True)
    want = {}
    for i in chosen:
        fr = frames_of(seqs[i][1], start, end, poses)
        want[i] = [[fr[j] for j in w] for w in windows(len(fr), seqlen, dilation, stride)]
    total = sum(map(len, want.values()))
    expect(len(ds) == total, "%d samples, expected %d" % (len(ds), total))
    pos = {i: 0 for i in chosen}
    for j in range(total):
        item = ds[j]
        c = [i for i in chosen if item[-2].startswith(seqs[i][0] + "/")] if len(chosen) > 1 else chosen
        expect(len(c) == 1, "sample %d names %r" % (j, item[-2] if len(chosen) > 1 else None))
        i = c[0]
        expect(pos[i] < len(want[i]), "more samples of %s than expected" % seqs[i][0])
        check_item(item, seqs[i][0], i, want[i][pos[i]], o)
        pos[i] += 1
    raises(lambda: ds[total], (IndexError,))
    return total


# ------------------------------------------------------------------ windows
def window_cases(tier="quick"):
    big = tier == "thorough"
    for n in range(1, NMAX + 1) if big else (1, 4, 7):
        for seqlen in (1, 2, 3, 4) + ((5, 8, 9) if big else ()):
            for dilation in (None, 0, 1, 2) + ((3,) if big else ()):
                for stride in (None, 1, 2, 3, 5) + ((4, 9) if big else ()):
                    for start in (None, 0, 1, 2, 5) + ((3, 4, 8) if big else ()):
                        for end in (None, 1, 3, 6, 8, 11) + ((2, 4, 5, 7) if big else ()):
                            if end is not None and end <= (start or 0):
                                continue
                            yield "n%d/%s/%s/%s/%s/%s" % (n, seqlen, dilation, stride, start, end), ("n%d" % n, seqlen, dilation, stride, start, end)


def long_cases():
    for seqlen in (1, 5, 10, 16, 17, 33, 34, 35):
        for dilation in (None, 1, 4, 10):
            for stride in (None, 1, 7, 20):
                for start, end in ((None, None), (0, 34), (3, 30), (10, None), (33, 34), (30, 100)):
                    if stride == 1 and seqlen > 1 and (dilation or start):
                        continue
                    yield "n34/%s/%s/%s/%s/%s" % (seqlen, dilation, stride, start, end), ("n34", seqlen, dilation, stride, start, end)


def check_window(case):
    layout, seqlen, dilation, stride, start, end = case
    kw = {k: v for k, v in (("dilation", dilation), ("stride", stride), ("start", start), ("end", end)) if v is not None}
    ds, _ = make(layout, seqlen=seqlen, **kw, **SMALL)
    total = check_dataset(ds, layout, [1], seqlen, dilation, stride, start, end, SMALL)
    return "%d windows" % total, 1 + total


# ------------------------------------------------------------------ options
FLAGS = ["return_depth", "return_intrinsics", "return_pose", "return_transform", "return_names", "return_timestamps"]
SIZES = [(4, 6), (8, 12), (2, 3), (3, 5), (1, 1), (16, 6), (4, 24), (520, 7), (5, 700)]


def option_cases():
    for flags in itertools.product((True, False), repeat=6):
        for cf in (True, False):
            for norm in (True, False):
                yield "%s/%s/%s" % ("".join("01"[f] for f in flags), cf, norm), ("n6", dict(zip(FLAGS, flags), channels_first=cf, normalize_color=norm, **SMALL))
    for h, w in SIZES:
        for cf in (True, False):
            for norm in (True, False):
                yield "%dx%d/%s/%s" % (h, w, cf, norm), ("n6", dict(height=h, width=w, channels_first=cf, normalize_color=norm))
    yield "default size", ("n2", {})


def check_option(case):
    layout, o = case
    if layout == "n2":
        ds, _ = make(layout, seqlen=1, **o)
        return "%d" % check_dataset(ds, layout, [1], 1, None, None, None, None, o)
    ds, _ = make(layout, seqlen=2, dilation=1, stride=1, start=0, **o)
    return "%d samples" % check_dataset(ds, layout, [1], 2, 1, 1, 0, None, o)


# ------------------------------------------------------------------ sequences
def choice_cases():
    avail = (1, 2, 3, 4)
    for r in range(0, 6):
        for sel in itertools.combinations((1, 2, 3, 4, 5), r):
            for form in ("tuple", "file") if r else ("none",):
                for w in ((1, None, None, None, None), (2, 1, 1, 1, None)):
                    yield "alike %s/%s/%s" % (sel, form, w), (sel[::-1], form) + w + ("alike",)
    for r in range(0, 5):
        for sel in itertools.permutations(avail, r):
            for form in ("tuple", "file", "file newline", "file crlf", "file blank line") if r else ("none",):
                for seqlen, dilation, stride, start, end in ((1, None, None, None, None), (2, 1, 1, None, None), (3, None, 1, 1, 5)):
                    yield "%s/%s/%s" % (sel, form, (seqlen, dilation, stride, start, end)), (sel, form, seqlen, dilation, stride, start, end)


def check_choice(case):
    sel, form, seqlen, dilation, stride, start, end = case[:7]
    layout = case[7] if len(case) > 7 else "multi"
    d = tempfile.mkdtemp(dir=ROOT)
    try:
        arg = tuple(LAYOUTS[layout][1][i][0] for i in sel)
        if form == "none":
            arg = None
        elif form.startswith("file"):
            p = os.path.join(d, "split.txt")
            text = {"file": "\n".join(arg), "file newline": "".join(a + "\n" for a in arg), "file crlf": "\r\n".join(arg) + "\r\n", "file blank line": "\n\n".join(arg) + "\n\n"}[form]
            with open(p, "w", newline="") as f:
                f.write(text)
            arg = p
        ds, _ = make(layout, sequences=arg, seqlen=seqlen, dilation=dilation, stride=stride, start=start, end=end, **SMALL)
        return "%d samples" % check_dataset(ds, layout, list(sel) if sel else list(LAYOUTS[layout][1]), seqlen, dilation, stride, start, end, SMALL)
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ association in time
# offsets of a depth image from its color image, and of a pose from its depth image; None: missing
DEPTH_OFF = [0.0041, -0.0117, 0.0189, 0.0312, None]
POSE_OFF = [0.0013, -0.0171, 0.0263, None]
STEP = 0.0337


def assoc_cases(tier="quick"):
    n = 5 if tier == "thorough" else 4
    for d in itertools.product(range(len(DEPTH_OFF)), repeat=n):
        for p in itertools.product(range(len(POSE_OFF)), repeat=n) if tier == "thorough" and n < 5 else [tuple((i * a + b) % len(POSE_OFF) for i in range(n)) for a in range(4) for b in range(2)]:
            yield "%s/%s" % ("".join(map(str, d)), "".join(map(str, p))), (d, p)
    for p in itertools.product(range(len(POSE_OFF)), repeat=n):
        for d in [(0,) * n, (1,) * n, (2,) * n]:
            yield "poses %s/%s" % ("".join(map(str, d)), "".join(map(str, p))), (d, p)


def pairs_by_definition(a, b, maxdiff):
    """One-to-one pairs of two {stamp: number} lists: repeatedly the closest remaining pair within maxdiff, in order of time."""
    cand = sorted((abs(float(x) - float(y)), x, y) for x in a for y in b if abs(float(x) - float(y)) < maxdiff)
    ux, uy, out = set(), set(), []
    for diff, x, y in cand:
        if x not in ux and y not in uy:
            ux.add(x)
            uy.add(y)
            out.append((x, y))
    return sorted(out, key=lambda t: float(t[0]))


def rate_cases():
    """Longer recordings whose color, depth and pose streams run at different rates, start at different times and drift."""
    for n in (12, LONG):
        for rc, rd, rp in itertools.product((0.0333, 0.05), (0.0333, 0.0341, 0.066), (0.01, 0.0087, 0.03, 0.1)):
            for off in (0.0, 0.011, -0.3):
                rgb = [(stamp(1 + rc * k), k) for k in range(n)]
                depth = [(stamp(1.0037 + off / 3 + rd * k), k) for k in range(n)]
                pose = [(stamp(1.0011 + off + rp * k), k) for k in range(int(n * 0.05 / rp))]
                yield "rates %d/%g/%g/%g/%g" % (n, rc, rd, rp, off), (rgb, depth, pose)


def check_assoc(case):
    d, p = case[:2]
    rgb, depth, pose = case if len(case) == 3 else ([], [], [])
    for k in range(len(d) if len(case) == 2 else 0):
        t = 0.5 + STEP * k + 0.00007 * k * k
        rgb.append((stamp(t), k))
        if DEPTH_OFF[d[k]] is not None:
            depth.append((stamp(t + DEPTH_OFF[d[k]] + 0.00011 * k), k))
        if POSE_OFF[p[k]] is not None:
            pose.append((stamp(t + POSE_OFF[p[k]] + 0.00005 * k), k))
    tmp = tempfile.mkdtemp(dir=ROOT)
    ncalls = 0
    try:
        # the text files need not be in order of time
        write_seq(os.path.join(tmp, seqname(1)), rgb, depth[1:] + depth[:1], pose[::-1], images=os.path.join(ROOT, "pool"))
        dn, pn = dict(depth), dict(pose)
        for poses, start, end in ((True, None, None), (False, None, None)) + (((True, 1, 3), (True, 2, None)) if len(case) == 2 and sum(d) % 3 == 0 else ((True, 7, None), (True, 9, 12)) if len(rgb) == 12 else ((True, 20, 30),) if len(rgb) else ()):
            # the range counts color images, associated or not
            rn = dict(rgb[start or 0:end])
            rd = pairs_by_definition(rn, dn, 0.02)
            o = dict(SMALL) if poses else dict(SMALL, return_pose=False, return_transform=False)
            if poses:
                back = {y: x for x, y in rd}
                frames = [(rn[back[y]], dn[y], pn[z], (back[y], y, z)) for y, z in pairs_by_definition(back, pn, 0.02)]
            else:
                frames = [(rn[x], dn[y], None, (x, y, None)) for x, y in rd]
            for seqlen, stride, dilation in ((1, 1, 0), (2, 1, 0), (2, None, 1)) if len(case) == 2 else ((4, 4, 0), (3, 2, 2)):
                ds, _ = make(tmp, seqlen=seqlen, stride=stride, dilation=dilation, start=start, end=end, **o)
                ws = windows(len(frames), seqlen, dilation, stride)
                expect(len(ds) == len(ws), "%d windows, expected %d of %d associated frames" % (len(ds), len(ws), len(frames)))
                ncalls += 1
                if seqlen == 1 or dilation and len(case) == 2:
                    continue
                for j, w in enumerate(ws):
                    check_item(ds[j], seqname(1), 1, [frames[i] for i in w], o)
                    ncalls += 1
    finally:
        shutil.rmtree(tmp)
    return "%d frames" % len(frames), ncalls


# ------------------------------------------------------------------ invalid requests
def bad_cases():
    V, T = (ValueError,), (TypeError,)
    for kw, exc in (({"seqlen": 2.0}, T), ({"seqlen": None}, T), ({"stride": 1.5}, T), ({"dilation": 0.5}, T), ({"start": 0.5}, T), ({"end": 2.5}, T), ({"end": "3"}, T), ({"seqlen": -1}, V), ({"stride": -1}, V), ({"dilation": -1}, V),
                    ({"start": -1}, V), ({"start": 2, "end": 2}, V), ({"start": 3, "end": 1}, V), ({"end": 0}, V), ({"end": -1}, V), ({"sequences": [seqname(1)]}, T), ({"sequences": ()}, V), ({"sequences": (seqname(9),)}, V),
                    ({"sequences": (seqname(1), seqname(9))}, V), ({"sequences": "/nonexistent.txt"}, V), ({"sequences": 5}, T), ({"sequences": {seqname(1)}}, T), ({"stride": 0}, (Exception,)), ({"seqlen": 0, "stride": 1}, (Exception,))):
        yield "arguments/%s" % kw, ("args", "n3", kw, exc)
    for layout in ("empty", "missing rgb", "missing depth", "missing pose", "folder other", "folder rgbd_dataset_kitti1_x", "folder rgbd_images_freiburg1_x"):
        yield "layout/" + layout, ("args", layout, {"seqlen": 1}, V)
    yield "layout/no poses needed", ("ok", "missing pose", None, None)


def check_bad(case):
    kind, layout, kw, exc = case
    if kind == "args":
        raises(lambda: make(layout, **{**SMALL, **kw}), exc)
        return "rejected"
    o = dict(SMALL, return_pose=False, return_transform=False)
    ds, _ = make(layout, seqlen=2, stride=1, **o)
    return "%d" % check_dataset(ds, layout, [1], 2, None, 1, None, None, o)


def loader_cases():
    for bs in (1, 2, 3):
        for seqlen in (1, 2):
            yield "%d/%d" % (bs, seqlen), (bs, seqlen)


def check_loader(case):
    bs, seqlen = case
    from torch.utils.data import DataLoader
    ds, _ = make("n6", seqlen=seqlen, stride=1, **SMALL)
    first = [ds[j] for j in range(len(ds))]
    got = list(DataLoader(ds, batch_size=bs))
    expect(len(got) == -(-len(ds) // bs), "%d batches" % len(got))
    for b, batch in enumerate(got):
        part = first[b * bs:(b + 1) * bs]
        for c in range(5):
            same(batch[c], np.stack([np.asarray(p[c]) for p in part]), "batch output %d" % c, tol=0)
        for c in (5, 6):
            expect(list(batch[c]) == [p[c] for p in part], "text output %d of the batch" % c)
    keep = [[x.clone() if hasattr(x, "clone") else x for x in s] for s in first]
    for j in reversed(range(len(ds))):
        for x in first[j]:
            if hasattr(x, "clone"):
                x.mul_(3).add_(7)  # the caller works on its sample in place
        again = ds[j]
        for c in range(5):
            same(again[c], keep[j][c], "output %d read again" % c, tol=0)
    return "%d batches" % len(got)


def reader():
    """Two readers of one folder (4 frames, then 6 others)."""
    a = dict(SMALL, seqlen=2, stride=1)
    b = dict(height=2, width=3, seqlen=1, stride=2, start=1, channels_first=True, normalize_color=True)

    def samples(name, o):
        fr = frames_of(LAYOUTS[name][1][1][1], o.get("start"), None)
        return [[fr[j] for j in w] for w in windows(len(fr), o["seqlen"], None, o["stride"])]

    def check(ds, j, name, o):
        check_item(ds[j], seqname(1), CONTENT[name], samples(name, o)[j], o)

    return Reader(ROOT, [(n, LAYOUTS[n][0]) for n in ("n4", "turned")], (a, b), lambda path, o: make(path, **o)[0], lambda n, o: len(samples(n, o)), check)


CONTENT = {"n4": 1, "turned": 7}


def sweeps(tier):
    return [("histories", lambda: reader().cases(tier), lambda ops: reader().run(ops)), ("window", lambda: window_cases(tier), check_window), ("long", long_cases, check_window), ("rates", rate_cases, check_assoc), ("option", option_cases, check_option), ("choice", choice_cases, check_choice),
            ("assoc", lambda: assoc_cases(tier), check_assoc), ("bad", bad_cases, check_bad), ("loader", loader_cases, check_loader)]


RULE = ("Complete product of sequence length x seqlen x dilation x stride x start x end on synthetic sequences whose every image and pose identifies its frame; every option set and choice of sequences; "
        "every pattern of early, late, too late and missing depth images and poses, associated by the definition")


def with_root(fn):
    global ROOT
    ROOT = tempfile.mkdtemp(prefix="c18-")
    try:
        build()
        return fn()
    finally:
        shutil.rmtree(ROOT)


def main(tier, t0):
    return with_root(lambda: sweepcheck.run("C18", tier, t0, sweeps(tier), rule=RULE, bounds={"frames": "%d, up to %d in the long sweeps" % (NMAX, LONG), "image": "4x6"},
                                            assumptions=["OpenCV/imageio decoding of PNG files is trusted", "the order of the sequences among each other is not promised",
                                                         "poses are associated with the depth image of a color-depth pair"]))


def replay(doc):
    return with_root(lambda: sweepcheck.replay(doc, sweeps("thorough")))
