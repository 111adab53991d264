"""C19: the ICL reader returns frames, windows and poses of the same instant."""
import itertools
import os
import shutil
import tempfile
import warnings

import numpy as np

import sweepcheck
from dsmodel import Reader, check_images, check_poses, pose_of, want_intrinsics, windows, stem, write_images
from mc import Mismatch, expect, raises, same

ROOT = None
SMALL = {"height": 4, "width": 6}
K = [[481.2, 0, 319.5, 0], [0, -480.0, 239.5, 0], [0, 0, 1, 0], [0, 0, 0, 1]]
NMAX = 8


def icl():
    from gradslam.datasets import ICL
    return ICL


def traj(i):
    return "living_room_traj%d_frei_png" % i


def rough_pose(i, k):
    """A pose written with two digits: its rotation is not exactly orthonormal."""
    return np.round(pose_of(i, k), 2)


def pose_at(layout, i, k):
    return rough_pose(i, k) if layout == "odd" else pose_of(i, k)


def write_traj(base, i, n, nposes=None, offset=0, last_blank=True, spacing=" ", odd=False, content=None):
    content = i if content is None else content
    d = os.path.join(base, traj(i))
    os.makedirs(d)
    names = [str(k + offset) for k in range(n)]
    write_images(d, content, n, names)
    if odd:  # stamps, depth and color images numbered differently
        for k in range(n):
            os.rename(os.path.join(d, "rgb", "%s.png" % names[k]), os.path.join(d, "rgb", "c%d.png" % (50 - k)))
        with open(os.path.join(d, "associations.txt"), "w") as f:
            for k in range(n):
                f.write(spacing.join(["%d" % (n - 1 - k), "depth/%s.png" % names[k], "%d" % (7 + k), "rgb/c%d.png" % (50 - k)]) + "\n")
    if not odd:
        with open(os.path.join(d, "associations.txt"), "w") as f:
            for nm in names:
                f.write(spacing.join([nm, "depth/%s.png" % nm, nm, "rgb/%s.png" % nm]) + "\n")
    with open(os.path.join(d, "livingRoom%dn.gt.sim" % i), "w") as f:
        blocks = []
        for k in range(n if nposes is None else nposes):
            P = (rough_pose if odd else pose_of)(content, k)
            blocks.append("\n".join(" ".join("%.9g" % v for v in row) for row in P[:3]) + "\n")
        f.write("\n".join(blocks) + ("\n" if last_blank and blocks else ""))
    return names


LAYOUTS = {}
LENGTHS = (1, 2, 3, 4, 5, 6, 7, NMAX)
LONG = 34


def build():
    """Writes every layout under ROOT; the frames of each trajectory are remembered by number."""
    for n in LENGTHS + (LONG,):
        base = os.path.join(ROOT, "n%d" % n)
        LAYOUTS["n%d" % n] = (base, {1: write_traj(base, 1, n)})
        base = os.path.join(ROOT, "z%d" % n)
        LAYOUTS["z%d" % n] = (base, {0: write_traj(base, 0, n, nposes=max(n - 1, 0), offset=1, last_blank=False)})
    base = os.path.join(ROOT, "multi")
    LAYOUTS["multi"] = (base, {i: write_traj(base, i, n, offset=o, spacing=sp, last_blank=lb) for i, n, o, sp, lb in ((0, 5, 0, " ", True), (1, 3, 10, "  ", False), (2, 6, 100, "\t", True), (3, 2, 0, " ", True))})
    os.makedirs(os.path.join(base, "other_folder"))
    open(os.path.join(base, "README"), "w").write("x")
    base = os.path.join(ROOT, "turned")
    LAYOUTS["turned"] = (base, {1: write_traj(base, 1, 6, content=7)})
    base = os.path.join(ROOT, "odd")
    LAYOUTS["odd"] = (base, {i: write_traj(base, i, n, odd=True, offset=o) for i, n, o in ((12, 5, 3), (1, 4, 0), (2, 3, 0), (0, 4, 0))})
    base = os.path.join(ROOT, "living_room_trajectories", "set_1")
    LAYOUTS["nested"] = (base, {i: write_traj(base, i, 4) for i in (1, 2)})
    for short in (0, 1, 2, 3, 4):
        base = os.path.join(ROOT, "short%d" % short)
        write_traj(base, 1, 4, nposes=short)
        LAYOUTS["short%d" % short] = (base, {1: [str(k) for k in range(4)]})
    for missing in ("associations.txt", "livingRoom1n.gt.sim"):
        base = os.path.join(ROOT, "missing " + missing)
        write_traj(base, 1, 3)
        os.remove(os.path.join(base, traj(1), missing))
        LAYOUTS["missing " + missing] = (base, {1: ["0", "1", "2"]})
    os.makedirs(os.path.join(ROOT, "empty", "something"))
    LAYOUTS["empty"] = (os.path.join(ROOT, "empty"), {})


def make(layout, **kw):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        ds = icl()(LAYOUTS[layout][0], **kw)
    return ds, [r for r in rec if issubclass(r.category, UserWarning)]


def usable(i, names, start, end):
    """Frame numbers of trajectory i that may be used."""
    ks = list(range(len(names)))
    if i == 0:
        ks = ks[:-1]
    return [k for k in ks if k >= (start or 0) and (end is None or k < end)]


def check_item(ds, j, i, ks, names, o, layout=""):
    out = list(ds[j])
    c = 7 if layout == "turned" else i
    check_images(out, [(c, k, k) for k in ks], o, 5000.0)
    if o.get("return_intrinsics", True):
        same(out.pop(0), want_intrinsics(K, o), "intrinsics", tol=1e-5)
    check_poses(out, [pose_at(layout, c, k) for k in ks], o)
    if o.get("return_names", True):
        got = out.pop(0)
        want = [os.path.join(traj(i), names[k]) for k in ks]
        expect([p.strip() for p in got.split(",")] == want, "names %r, expected %s" % (got, want))
    expect(not out, "%d more outputs than requested" % len(out))


def check_dataset(ds, layout, chosen, seqlen, dilation, stride, start, end, o):
    """Every sample of the dataset, identified by its own first color file, against the definition."""
    trajs = LAYOUTS[layout][1]
    want = {}
    for i in chosen:
        ks = usable(i, trajs[i], start, end)
        want[i] = [[ks[j] for j in w] for w in windows(len(ks), seqlen, dilation, stride)]
    total = sum(map(len, want.values()))
    expect(len(ds) == total, "%d samples, expected %d" % (len(ds), total))
    pos = {i: 0 for i in chosen}
    for j in range(total):
        # which trajectory the sample says it is from; the order of trajectories is not promised
        c = [i for i in chosen if traj(i) in ds[j][-1]] if len(chosen) > 1 else chosen  # the names end in "_frei_png": none contains another
        expect(len(c) == 1, "sample %d names %r" % (j, ds[j][-1]))
        i = c[0]
        expect(pos[i] < len(want[i]), "more samples of %s than expected" % traj(i))
        check_item(ds, j, i, want[i][pos[i]], trajs[i], o, layout)
        pos[i] += 1
    raises(lambda: ds[total], (IndexError,))
    return total


# ------------------------------------------------------------------ windows
def window_cases(tier="quick"):
    big = tier == "thorough"
    for layout in ["n%d" % n for n in (LENGTHS if big else (1, 3, 6, NMAX))] + ["z%d" % n for n in (LENGTHS if big else (4, 7))]:
        for seqlen in (1, 2, 3, 4) + ((5, 8, 9) if big else ()):
            for dilation in (None, 0, 1, 2) + ((3,) if big else ()):
                for stride in (None, 1, 2, 3, 5) + ((4, 9) if big else ()):
                    for start in (None, 0, 1, 2, 5) + ((3, 4, 8) if big else ()):
                        for end in (None, 1, 3, 6, 8, 11) + ((2, 4, 5, 7) if big else ()):
                            if end is not None and end <= (start or 0):
                                continue
                            yield "%s/%s/%s/%s/%s/%s" % (layout, seqlen, dilation, stride, start, end), (layout, seqlen, dilation, stride, start, end)


def long_cases():
    for layout in ("n34", "z34"):
        for seqlen in (1, 5, 10, 16, 17, 33, 34, 35):
            for dilation in (None, 1, 4, 10):
                for stride in (None, 1, 7, 20):
                    for start, end in ((None, None), (0, 34), (3, 30), (10, None), (33, 34), (30, 100)):
                        if stride == 1 and seqlen > 1 and (dilation or start):
                            continue
                        yield "%s/%s/%s/%s/%s/%s" % (layout, seqlen, dilation, stride, start, end), (layout, seqlen, dilation, stride, start, end)


def check_window(case):
    layout, seqlen, dilation, stride, start, end = case
    kw = {k: v for k, v in (("dilation", dilation), ("stride", stride), ("start", start), ("end", end)) if v is not None}
    ds, warned = make(layout, seqlen=seqlen, **kw, **SMALL)
    n = len(list(LAYOUTS[layout][1].values())[0])
    expect(bool(warned) == (end is not None and end > n), "end=%s of %d frames: %swarned" % (end, n, "" if warned else "not "))
    total = check_dataset(ds, layout, list(LAYOUTS[layout][1]), seqlen, dilation, stride, start, end, SMALL)
    return "%d windows" % total, 1 + total


# ------------------------------------------------------------------ options
FLAGS = ["return_depth", "return_intrinsics", "return_pose", "return_transform", "return_names"]
SIZES = [(4, 6), (8, 12), (2, 3), (3, 5), (1, 1), (16, 6), (4, 24), (520, 7), (5, 700)]


def option_cases():
    for flags in itertools.product((True, False), repeat=5):
        for cf in (True, False):
            for norm in (True, False):
                yield "%s/%s/%s" % ("".join("01"[f] for f in flags), cf, norm), ("n6", dict(zip(FLAGS, flags), channels_first=cf, normalize_color=norm, **SMALL))
    for h, w in SIZES:
        for cf in (True, False):
            for norm in (True, False):
                yield "%dx%d/%s/%s" % (h, w, cf, norm), ("n6", dict(height=h, width=w, channels_first=cf, normalize_color=norm))
    yield "default size", ("n2", {})


def check_option(case):
    layout, o = case
    ds, _ = make(layout, seqlen=2, dilation=1, stride=1, start=0, **o)
    if layout == "n2":
        ds, _ = make(layout, seqlen=1, **o)
        return "%d" % check_dataset(ds, layout, [1], 1, None, None, None, None, o)
    return "%d samples" % check_dataset(ds, layout, [1], 2, 1, 1, 0, None, o)


# ------------------------------------------------------------------ trajectories
def choice_cases():
    for layout, avail in (("multi", (0, 1, 2, 3)), ("nested", (1, 2)), ("odd", (0, 1, 2, 12))):
        for r in range(0, len(avail) + 1):
            for sel in itertools.permutations(avail, r):
                for form in ("tuple", "file", "file newline", "file crlf", "file blank line") if r else ("none",):
                    for seqlen, dilation, stride, start, end in ((1, None, None, None, None), (2, 1, 1, None, None), (3, None, 1, 1, 5)):
                        yield "%s/%s/%s/%s" % (layout, sel, form, (seqlen, dilation, stride, start, end)), (layout, sel, form, seqlen, dilation, stride, start, end)


def check_choice(case):
    layout, sel, form, seqlen, dilation, stride, start, end = case
    d = tempfile.mkdtemp(dir=ROOT)
    try:
        arg = tuple(traj(i) for i in sel)
        if form == "none":
            arg = None
        elif form.startswith("file"):
            p = os.path.join(d, "split.txt")
            text = {"file": "\n".join(arg), "file newline": "".join(a + "\n" for a in arg), "file crlf": "\r\n".join(arg) + "\r\n", "file blank line": "\n\n".join(arg) + "\n\n"}[form]
            with open(p, "w", newline="") as f:
                f.write(text)
            arg = p
        ds, _ = make(layout, trajectories=arg, seqlen=seqlen, dilation=dilation, stride=stride, start=start, end=end, **SMALL)
        chosen = list(sel) if sel else list(LAYOUTS[layout][1])
        n = check_dataset(ds, layout, chosen, seqlen, dilation, stride, start, end, SMALL)
        return "%d samples" % n
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ missing poses, invalid requests
def bad_cases():
    for short in (0, 1, 2, 3, 4):
        for seqlen in (1, 2, 4):
            for end in (None, 1, 2, 3, 4):
                for poses in (True, False):
                    yield "short/%d/%d/%s/%s" % (short, seqlen, end, poses), ("short", short, seqlen, end, poses)
    V, T = (ValueError,), (TypeError,)
    for kw, exc in (({"seqlen": 2.0}, T), ({"seqlen": None}, T), ({"stride": 1.5}, T), ({"dilation": 0.5}, T), ({"start": 0.5}, T), ({"end": 2.5}, T), ({"end": "3"}, T), ({"seqlen": -1}, V), ({"stride": -1}, V), ({"dilation": -1}, V),
                    ({"start": -1}, V), ({"start": 2, "end": 2}, V), ({"start": 3, "end": 1}, V), ({"end": 0}, V), ({"end": -1}, V), ({"trajectories": [traj(1)]}, T), ({"trajectories": ()}, V), ({"trajectories": (traj(9),)}, V),
                    ({"trajectories": (traj(1), traj(9))}, V), ({"trajectories": ("traj1",)}, V), ({"trajectories": "/nonexistent.txt"}, V), ({"trajectories": 5}, T), ({"trajectories": {traj(1)}}, T), ({"stride": 0}, (Exception,)),
                    ({"seqlen": 0, "stride": 1}, (Exception,))):
        yield "arguments/%s" % kw, ("args", "n3", kw, exc)
    for layout, exc in (("empty", V), ("missing associations.txt", V), ("missing livingRoom1n.gt.sim", V)):
        yield "layout/" + layout, ("args", layout, {"seqlen": 1}, exc)
    yield "layout/no poses needed", ("ok", "missing livingRoom1n.gt.sim", None, None)


def check_bad(case):
    if case[0] == "args":
        _, layout, kw, exc = case
        raises(lambda: make(layout, **{**SMALL, **kw}), exc)
        return "rejected"
    if case[0] == "ok":
        o = dict(SMALL, return_pose=False, return_transform=False)
        ds, _ = make(case[1], seqlen=2, stride=1, **o)
        return "%d" % check_dataset(ds, case[1], [1], 2, None, 1, None, None, o)
    _, short, seqlen, end, poses = case
    layout = "short%d" % short
    o = dict(SMALL, return_pose=poses, return_transform=poses)
    lacking = poses and short < (end or 4)
    if lacking:
        # a frame without a pose: the trajectory is rejected, at the latest when the sample is read
        try:
            ds, _ = make(layout, seqlen=seqlen, stride=1, end=end, **o)
        except ValueError:
            return "rejected"
        ks = list(range(end or 4))
        ws = windows(len(ks), seqlen, None, 1)
        for j, w in enumerate(ws):
            if w[-1] < short:
                check_item(ds, j, 1, w, LAYOUTS[layout][1][1], o)
            else:
                raises(lambda: ds[j], (Exception,))
        return "rejected late"
    ds, _ = make(layout, seqlen=seqlen, stride=1, end=end, **o)
    return "%d" % check_dataset(ds, layout, [1], seqlen, None, 1, None, end, o)


def loader_cases():
    for bs in (1, 2, 3):
        for seqlen in (1, 2):
            yield "%d/%d" % (bs, seqlen), (bs, seqlen)


def check_loader(case):
    """Batches of a DataLoader are the stacked samples, and reading samples in any order or twice changes nothing."""
    bs, seqlen = case
    from torch.utils.data import DataLoader
    ds, _ = make("n6", seqlen=seqlen, stride=1, **SMALL)
    first = [ds[j] for j in range(len(ds))]
    got = list(DataLoader(ds, batch_size=bs))
    expect(len(got) == -(-len(ds) // bs), "%d batches" % len(got))
    for b, batch in enumerate(got):
        part = first[b * bs:(b + 1) * bs]
        for c in range(5):
            same(batch[c], np.stack([np.asarray(p[c]) for p in part]), "batch output %d" % c, tol=0)
        expect(list(batch[5]) == [p[5] for p in part], "names of the batch")
    keep = [[x.clone() if hasattr(x, "clone") else x for x in s] for s in first]
    for j in reversed(range(len(ds))):
        for x in first[j]:
            if hasattr(x, "clone"):
                x.mul_(3).add_(7)  # the caller works on its sample in place
        again = ds[j]
        for c in range(5):
            same(again[c], keep[j][c], "output %d read again" % c, tol=0)
    return "%d batches" % len(got)


def reader():
    """Two readers of one folder (4 frames, then 6 others)."""
    a = dict(SMALL, seqlen=2, stride=1)
    b = dict(height=2, width=3, seqlen=1, stride=2, start=1, channels_first=True, normalize_color=True)

    def samples(name, o):
        ks = usable(1, LAYOUTS[name][1][1], o.get("start"), None)
        return [[ks[j] for j in w] for w in windows(len(ks), o["seqlen"], None, o["stride"])]

    def check(ds, j, name, o):
        check_item(ds, j, 1, samples(name, o)[j], LAYOUTS[name][1][1], o, name)

    return Reader(ROOT, [(n, LAYOUTS[n][0]) for n in ("n4", "turned")], (a, b), lambda path, o: icl()(path, **o), lambda n, o: len(samples(n, o)), check)


def sweeps(tier):
    return [("histories", lambda: reader().cases(tier), lambda ops: reader().run(ops)), ("window", lambda: window_cases(tier), check_window), ("long", long_cases, check_window), ("option", option_cases, check_option), ("choice", choice_cases, check_choice),
            ("bad", bad_cases, check_bad), ("loader", loader_cases, check_loader)]


RULE = ("Complete product of trajectory length x seqlen x dilation x stride x start x end on synthetic trajectories whose every image and pose identifies its frame; every option set; every "
        "choice of trajectories in every form; missing poses, files and invalid arguments")


def with_root(fn):
    global ROOT
    ROOT = tempfile.mkdtemp(prefix="c19-")
    try:
        build()
        return fn()
    finally:
        shutil.rmtree(ROOT)


def main(tier, t0):
    return with_root(lambda: sweepcheck.run("C19", tier, t0, sweeps(tier), rule=RULE, bounds={"frames": NMAX, "image": "4x6"},
                                            assumptions=["OpenCV/imageio decoding of PNG files is trusted", "the order of the trajectories among each other is not promised"]))


def replay(doc):
    return with_root(lambda: sweepcheck.replay(doc, sweeps("thorough")))
