"""C05: exporting clouds to Open3D and Plotly keeps every point, normal and color."""
import contextlib
import itertools

import numpy as np
import torch

import sweepcheck
from mc import Mismatch, expect, raises, same, to_np
from pcmodel import PC, make

SCALES = {"unit": 1.0, "byte": 255.0, "dark byte": 8.0, "dark unit": 0.03, "over": 400.0, "black": 0.0}


def cloud_data(counts, attrs, scale, seed=0):
    """Distinct points, normals and colors, so each exported entry identifies its source.

    The last color of a cloud is its brightest and the others are dim: a color range guessed from fewer points differs."""
    d = {"points": [], "normals": [], "colors": []}
    for b, n in enumerate(counts):
        i = np.arange(n, dtype=float)[:, None]
        d["points"].append(np.concatenate([i + 100 * b + seed, -2 * i + 0.5, 3 + i * i * 0.25 + b], 1))
        d["normals"].append(np.concatenate([np.cos(i + b), np.sin(i + b), 0 * i + 0.5 * (b + 1)], 1))
        k = SCALES[scale[b % len(scale)]]
        c = np.concatenate([(i + 1) / 40, (i + 2 + b) / 50, 0.08 - i / 90], 1) * (k if k < 200 else 10.0)
        if n:
            c[n - 1] = (np.array([1.0, 0.25, 0.5]) if k != 400.0 else np.array([1.0, -0.1, 0.9])) * k
        d["colors"].append(c)
    return {a: v for a, v in d.items() if a in ("points",) + tuple(attrs)}


def unit_colors(c):
    """Colors in [0, 1]: a cloud whose brightest channel exceeds 1 is stored on the 0..255 scale."""
    c = c / 255.0 if c.size and c.max() > 1.1 else c
    return np.clip(c, 0.0, 1.0)


# ------------------------------------------------------------------ histories that lead to the exported batch
def cat(d, e):
    return {a: [np.concatenate([x, y]) for x, y in zip(d[a], e[a])] for a in d}


def h_list(d, dt, rg):
    return make(d, "list", dt, rg), d


def h_padded(d, dt, rg):
    return make(d, "padded", dt, rg), d


def h_read(d, dt, rg):
    pc = make(d, "list", dt, rg)
    pc.points_padded, pc.normals_padded, pc.colors_padded
    return pc, d


def h_offset(d, dt, rg):
    pc = make(d, "list", dt, rg)
    pc = pc + 2.0
    return pc, dict(d, points=[p + 2.0 for p in d["points"]])


def h_scaled(d, dt, rg):
    pc = make(d, "list", dt, False)
    pc.points_padded
    pc.scale_(torch.tensor(3.0, dtype=dt))
    return pc, dict(d, points=[p * 3.0 for p in d["points"]])


def h_append(d, dt, rg):
    e = {a: [x[::-1][: 1 + b] + (7.0 if a == "points" else 0.0) for b, x in enumerate(v)] for a, v in d.items()}
    pc = make(d, "list", dt, rg)
    pc.append_points(make(e, "list", dt, rg))
    return pc, cat(d, e)


def h_append_padded(d, dt, rg):
    e = {a: [x[:1] + (7.0 if a == "points" else 0.0) for x in v] for a, v in d.items()}
    pc = make(d, "list", dt, rg)
    pc.points_padded, pc.colors_padded
    pc.append_points(make(e, "list", dt, rg))
    pc.points_padded
    return pc, cat(d, e)


def h_slice(d, dt, rg):
    pc = make(d, "list", dt, rg)
    return pc[[len(d["points"]) - 1] + list(range(len(d["points"]) - 1))], {a: [v[-1]] + v[:-1] for a, v in d.items()}


def h_clone(d, dt, rg):
    return make(d, "list", dt, rg).clone().detach(), d


HIST = {"list": h_list, "read": h_read, "offset": h_offset, "scaled": h_scaled, "append": h_append, "append padded": h_append_padded, "select": h_slice, "clone": h_clone, "padded": h_padded}
COLOR_PATTERNS = [("unit",), ("byte",), ("unit", "byte"), ("dark byte", "dark unit"), ("over",), ("black", "byte")]
ATTRS = [("normals", "colors"), ("colors",), ("normals",), ()]


def batches(tier):
    n = (0, 1, 3) if tier == "quick" else (0, 1, 2, 4)
    for B in (1, 2, 3):
        yield from itertools.product(n, repeat=B)


def cases(tier):
    for counts in batches(tier):
        for attrs in ATTRS:
            pats = COLOR_PATTERNS if "colors" in attrs else [("unit",)]
            for pat in pats:
                for h in HIST:
                    if h == "padded" and len(set(counts)) > 1:
                        continue
                    if len(counts) == 3 and (h not in ("list", "append padded", "select") or pat not in COLOR_PATTERNS[1:4]) and tier == "quick":
                        continue
                    if h not in ("list", "append") and pat not in COLOR_PATTERNS[:3] and tier == "quick":
                        continue
                    yield "%s/%s/%s/%s" % ("-".join(map(str, counts)), "+".join(attrs), "+".join(pat), h), (counts, attrs, pat, h, torch.float32, False)
    for counts in ((2, 0), (3,), (1, 3)):
        for dt in (torch.float32, torch.float64):
            for h in HIST:
                if h == "padded" and len(set(counts)) > 1 or h == "scaled":
                    continue
                yield "grad/%s/%s/%s" % (counts, dt, h), (counts, ATTRS[0], ("unit", "byte"), h, dt, True)


def build(case):
    counts, attrs, pat, h, dt, rg = case
    d = cloud_data(counts, attrs, pat)
    return HIST[h](d, dt, rg)


def snapshot(pc):
    return [None if v is None else [(x.detach().clone(), x.requires_grad) for x in v]
            for v in (pc.points_list, pc.normals_list, pc.colors_list)]


def unchanged(pc, before, what):
    for v, b, a in zip((pc.points_list, pc.normals_list, pc.colors_list), before, ("points", "normals", "colors")):
        expect((v is None) == (b is None), "%s added or removed %s of the batch" % (what, a))
        if v is not None:
            expect(len(v) == len(b) and all(x.dtype == y.dtype and x.shape == y.shape and torch.equal(x.detach(), y) and x.requires_grad == g for x, (y, g) in zip(v, b)),
                   "%s changed the %s of the batch" % (what, a))
    n = pc.num_points_per_pointcloud
    expect(list(map(int, n)) == [len(x) for x, _ in before[0]], "%s changed the number of points" % what)


def seen_o3d(pcd):
    return np.asarray(pcd.points), np.asarray(pcd.colors), np.asarray(pcd.normals)


def scatter(fig, as_figure):
    import plotly.graph_objects as go
    if as_figure:
        expect(isinstance(fig, go.Figure), "result is a %s, not a Figure" % type(fig).__name__)
        expect(len(fig.data) == 1, "figure has %d traces" % len(fig.data))
        fig = fig.data[0]
    expect(isinstance(fig, go.Scatter3d), "result is a %s, not a Scatter3d" % type(fig).__name__)
    return fig


def seen_plotly(s, n):
    expect(s.mode == "markers", "mode is %r" % s.mode)
    xyz = [np.asarray(s.x, dtype=float), np.asarray(s.y, dtype=float), np.asarray(s.z, dtype=float)]
    col = s.marker.color
    return np.stack([v.reshape(-1) for v in xyz], 1), (np.zeros((0, 3)) if col is None else np.asarray(col)), col is not None


def match(points, colors, normals, wp, wc, wn, k, ctol, what):
    """k None: everything in order; otherwise exactly k different points, each with its own color and normal."""
    m = len(wp) if k is None else min(k, len(wp))
    expect(points.shape == (m, 3), "%s: %s points, expected %d" % (what, points.shape, m))
    if k is None or k >= len(wp):
        idx = np.arange(m)
        same(points, wp, what + " points", 1e-5)
    else:
        dist = np.abs(points[:, None] - wp[None]).max(-1)
        idx = dist.argmin(1) if m else np.zeros(0, dtype=int)
        expect(m == 0 or (dist[np.arange(m), idx] < 1e-4).all(), "%s: a point that is not in the cloud: %s" % (what, points))
        expect(len(set(idx.tolist())) == m, "%s: a point was exported twice" % what)
    for got, want, name, tol in ((colors, wc, "colors", ctol), (normals, wn, "normals", 1e-6)):
        if want is None:
            expect(len(got) == 0, "%s: %d unexpected %s" % (what, len(got), name))
        else:
            expect(got.shape == (m, 3), "%s: %s has shape %s for %d points" % (what, name, got.shape, m))
            if m:
                err = np.abs(got.astype(float) - want[idx]).max()
                expect(err <= tol, "%s: %s %s, expected %s" % (what, name, got.tolist(), want[idx].tolist()))
    return idx


def check(case):
    pc, d = build(case)
    B = len(d["points"])
    n = 0
    for i in list(range(B)) + list(range(-B, 0)):
        wp = d["points"][i]
        wc = unit_colors(d["colors"][i]) if "colors" in d else None
        wn = d["normals"][i] if "normals" in d else None
        N = len(wp)
        for inc_c, inc_n in itertools.product((True, False), repeat=2):
            for k in sorted({None, 0, 1, N - 1, N, N + 3} - {-1}, key=lambda v: -1 if v is None else v):
                b = snapshot(pc)
                what = "open3d(%d, include_colors=%s, max_num_points=%s, include_normals=%s)" % (i, inc_c, k, inc_n)
                p, c, nn = seen_o3d(pc.open3d(i, include_colors=inc_c, max_num_points=k, include_normals=inc_n))
                match(p, c, nn, wp, wc if inc_c else None, wn if inc_n else None, k, 1e-5, what)
                unchanged(pc, b, what)
                n += 1
        for inc_c, fig in ((True, True), (True, False), (False, False)) if n < 40 else ((True, False), (False, False)):
            for k in sorted({None, 0, 1, N - 1, N, N + 3} - {-1}, key=lambda v: -1 if v is None else v):
                b = snapshot(pc)
                what = "plotly(%d, include_colors=%s, max_num_points=%s)" % (i, inc_c, k)
                size = 1 + (n % 3)
                s = scatter(pc.plotly(i, include_colors=inc_c, max_num_points=k, as_figure=fig, point_size=size), fig)
                expect(s.marker.size == size, "%s: point size %s instead of %s" % (what, s.marker.size, size))
                p, c, hasc = seen_plotly(s, N)
                expect(hasc == (inc_c and wc is not None), "%s: colors %s" % (what, "missing" if not hasc else "not asked for"))
                match(p, c, np.zeros((0, 3)), wp, None if wc is None or not inc_c else wc * 255.0, None, k, 1.01, what)
                unchanged(pc, b, what)
                n += 1
    # defaults: everything, with colors and without normals
    p, c, nn = seen_o3d(pc.open3d(0))
    wp, wc = d["points"][0], unit_colors(d["colors"][0]) if "colors" in d else None
    match(p, c, nn, wp, wc, None, None, 1e-5, "open3d(0)")
    s = scatter(pc.plotly(0), True)
    p, c, _ = seen_plotly(s, len(wp))
    match(p, c, np.zeros((0, 3)), wp, None if wc is None else wc * 255.0, None, None, 1.01, "plotly(0)")
    # what was exported does not follow later changes of the batch
    if not case[5]:
        o = pc.open3d(0)
        pc.points_list
        pc.offset_(5.0)
        match(seen_o3d(o)[0], np.zeros((0, 3)), np.zeros((0, 3)), wp, None, None, None, 1e-5, "open3d cloud after a change of the batch")
        match(seen_plotly(s, 0)[0], np.zeros((0, 3)), np.zeros((0, 3)), wp, None, None, None, 1e-5, "figure after a change of the batch")
    return case[3], n + 3


# ------------------------------------------------------------------ every outcome of the random subsampling
@contextlib.contextmanager
def permutation(perm):
    """torch.randperm answers perm when asked for that many numbers (the schedule of the random choice)."""
    real = torch.randperm
    hits = []

    def fake(n, *a, **kw):
        if int(n) != len(perm):
            return real(n, *a, **kw)
        hits.append(n)
        return torch.tensor(perm, dtype=torch.int64)

    torch.randperm = fake
    try:
        yield hits
    finally:
        torch.randperm = real


def perm_cases(tier):
    N = 4 if tier == "quick" else 5
    for n in range(1, N + 1):
        for perm in itertools.permutations(range(n)):
            for pat in ("unit", "byte", "dark byte", "dark unit", "black"):
                yield "%s/%s" % ("".join(map(str, perm)), pat), (n, perm, pat)


def check_perm(case):
    n, perm, pat = case
    d = cloud_data((2, n, n + 1), ("normals", "colors"), (pat,))
    pc = make(d, "list")
    calls = 0
    seen = 0
    for k in range(n):
        with permutation(perm) as hits:
            p, c, nn = seen_o3d(pc.open3d(1, include_normals=True, max_num_points=k))
            match(p, c, nn, d["points"][1], unit_colors(d["colors"][1]), d["normals"][1], k, 1e-5, "open3d with max_num_points=%d" % k)
            s = pc.plotly(1, max_num_points=k, as_figure=False)
            p, c, _ = seen_plotly(s, n)
            match(p, c, np.zeros((0, 3)), d["points"][1], unit_colors(d["colors"][1]) * 255, None, k, 1.01, "plotly with max_num_points=%d" % k)
            seen += bool(hits)
        calls += 2
    return "choices controlled" if seen else "own generator", calls


# ------------------------------------------------------------------ large clouds: by default plotly subsamples to 200000 points, open3d keeps all
def large_cases():
    for n in (1000, 40000, 200000, 200001):
        for lib in ("open3d", "plotly"):
            for k in (None, "default", n - 1, n, n // 3):
                yield "%d/%s/%s" % (n, lib, k), (n, lib, k)


def check_large(case):
    n, lib, k = case
    i = np.arange(n, dtype=float)[:, None]
    P = np.concatenate([i, -i, 2 * i + 1], 1)
    C = np.concatenate([i % 256, i // 256 % 256, i // 65536 + 10], 1)
    C[-1] = 255.0
    N = np.concatenate([np.cos(i), np.sin(i), 0 * i], 1)
    small = cloud_data((2,), ("normals", "colors"), ("byte",))
    pc = make({a: [small[a][0], x] for a, x in (("points", P), ("normals", N), ("colors", C))})
    kw = {} if k == "default" else {"max_num_points": k}
    want = n if k is None or k == "default" and lib == "open3d" else min(n, 200000) if k == "default" else min(n, k)
    if lib == "open3d":
        p, c, nn = seen_o3d(pc.open3d(1, include_normals=True, **kw))
        c = c * 255.0
    else:
        p, c, _ = seen_plotly(scatter(pc.plotly(1, as_figure=n == 1000, **kw), n == 1000), n)
        nn = None
    expect(p.shape == (want, 3), "%d points exported, expected %d" % (len(p), want))
    idx = np.rint(p[:, 0]).astype(int)
    expect(len(set(idx.tolist())) == want, "a point was exported twice")
    if want == n:
        expect((idx == np.arange(n)).all(), "order of the points changed")
    expect(np.abs(p - P[idx]).max() < 1e-3, "points")
    expect(c.shape == (want, 3) and np.abs(c.astype(float) - C[idx]).max() < 1.01, "colors of the points")
    if nn is not None:
        expect(nn.shape == (want, 3) and np.abs(nn - N[idx]).max() < 1e-5, "normals of the points")
    return "all" if want == n else "subsampled"


# ------------------------------------------------------------------ rejected indices
def bad_cases():
    for counts in ((2,), (1, 0), (2, 1, 3)):
        B = len(counts)
        for i, e in ((B, IndexError), (B + 5, IndexError), (-B - 1, IndexError), ("0", TypeError), (0.0, TypeError), (slice(0, 1), TypeError), ([0], TypeError), (None, TypeError)):
            yield "%s/%r" % (counts, i), (counts, i, e)


def check_bad(case):
    counts, i, e = case
    pc = make(cloud_data(counts, ("colors",), ("unit",)), "list")
    b = snapshot(pc)
    raises(lambda: pc.open3d(i), (e,))
    raises(lambda: pc.plotly(i), (e,))
    unchanged(pc, b, "a rejected export")
    return "rejected", 2


def sweeps(tier):
    return [("export", lambda: cases(tier), check), ("large clouds", large_cases, check_large), ("subsampling", lambda: perm_cases(tier), check_perm), ("rejected", bad_cases, check_bad)]


RULE = ("every batch of 1..3 clouds of 0/1/3 points x attribute combination x color range x history leading to the batch x cloud index x export options x subsample size; "
        "and every outcome (permutation) of the random subsampling of clouds of up to 4 (thorough 5) points; each exported entry traced to its own source point")


def main(tier, t0):
    return sweepcheck.run("C05", tier, t0, sweeps(tier), rule=RULE, bounds={"clouds": "1..3", "points": "0..3 (4); up to 200001 in the large sweep", "permutations": "all of up to 4 (5) points"},
                          assumptions=["open3d is a recording stand-in", "a cloud whose brightest color channel exceeds 1.1 is on the 0..255 scale"])


def replay(doc):
    return sweepcheck.replay(doc, sweeps("thorough"))
