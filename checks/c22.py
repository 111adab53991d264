"""C22: TUM trajectory files and timestamp association are read faithfully."""
import contextlib
import io
import itertools
import os
import shutil
import tempfile
import warnings

import numpy as np

import purecalls
import purity
import sweepcheck
from c15 import QUATS, rot_of
from mc import Mismatch, expect, same
from pcmodel import se3


def tu():
    from gradslam.datasets import tumutils
    return tumutils


@contextlib.contextmanager
def textfile(content):
    d = tempfile.mkdtemp(prefix="c22-")
    try:
        p = os.path.join(d, "list.txt")
        with open(p, "w", newline="") as f:
            f.write(content)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield p
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ files
SEP = (" ", ",", "\t", "  ", ", ", " \t")
LINES = ("data", "data,", "data\t", "data wide", "data indented", "data trailing", "comment", "indented comment", "empty", "blanks", "tab", "data hash", "stamp only")
POSE_LINES = tuple(k for k in LINES[:-1] if k != "data hash") + ("nan", "zero", "tiny", "long", "inf")
QS = [QUATS[k] for k in (7, 40, 77, 90, 150, 200)]


def arrangement(kinds, poses):
    """(text, [(stamp, fields)]) of a file made of the given kinds of lines; None fields = not a data line."""
    out, rec = [], []
    for i, k in enumerate(kinds):
        stamp = "%d.%04d" % (9 + i * 3, 17 * i + 3)
        if poses:
            q = QS[i % len(QS)]
            vals = [0.5 * i - 1.0, 2.0 - i, 0.25 * i] + [float(v) for v in q]
            if k == "nan":
                vals[i % 7] = float("nan")
            if k == "inf":
                vals[i % 3] = float("inf")
            if k == "zero":
                vals[3:] = [0.0, 0.0, 0.0, 0.0]
            if k == "tiny":
                vals[3:] = [1e-20, 0.0, -1e-20, 1e-30]
            fields = [repr(v) for v in vals] + (["3.5", "4.5"] if k == "long" else [])
        else:
            fields = [("rgb/#%s.png" if k == "data hash" else "rgb/%s.png") % stamp] + ["x%d" % j for j in range(i % 3)]
        sep = {"data,": ",", "data\t": "\t", "data wide": "  "}.get(k, " ")
        row = sep.join([stamp] + fields)
        if k == "data indented":
            row = "  " + row
        if k == "data trailing":
            row = row + " \t"
        text = {"comment": "# timestamp filename", "indented comment": "  # note 1 2 3 4 5 6 7 8", "empty": "", "blanks": "   ", "tab": "\t", "stamp only": stamp}.get(k, row)
        out.append(text)
        if k.startswith("data") or k in ("nan", "zero", "tiny", "long", "inf"):
            rec.append((stamp, k, vals if poses else fields))
        elif k == "stamp only":
            rec.append((stamp, k, []))
    return out, rec


def list_cases(tier="quick"):
    n = 0
    for m in (0, 1, 2, 3) + ((4,) if tier == "thorough" else ()):
        for kinds in itertools.product(LINES, repeat=m):
            n += 1
            ends = [("\n", True), ("\n", False), ("\r\n", True)] if m < 3 else [(("\n", True), ("\n", False), ("\r\n", n % 2 == 0))[n % 3]]
            for nl, last in ends:
                for rng in ((None, None),) if m == 3 and n % 4 and tier == "quick" else ((None, None), (0, 2), (1, None), (1, 2), (None, 1), (2, 9), (0, 0)):
                    yield "%s/%r%s/%s" % (",".join(kinds), nl, last, rng), (kinds, nl, last, rng)


def check_list(case):
    kinds, nl, last, (start, end) = case
    rows, rec = arrangement(kinds, False)
    if "stamp only" in kinds and (start, end) != (None, None):
        return "skipped: a frame without data in a numbered range"
    with textfile(nl.join(rows) + (nl if last else "")) as p:
        got = tu().read_file_list(p, start, end) if (start, end) != (None, None) else tu().read_file_list(p)
        again = tu().read_file_list(p, start=start, end=end)
    want = [(s, f) for s, _, f in rec if f]
    want = want[start if start is not None else 0:end if end is not None else len(want)]
    expect(isinstance(got, dict), "result is a %s" % type(got).__name__)
    expect(list(got.items()) == want, "read %s, expected %s" % (list(got.items()), want))
    expect(got == again, "reading twice differs")
    return "%d entries" % len(want), 2


def warn_cases():
    for n in (1, 2, 3):
        for end in range(1, 8):
            yield "%d/%d" % (n, end), (n, end)


def check_warn(case):
    """A request far beyond the end of the file is announced; one inside it is not."""
    n, end = case
    rows, _ = arrangement(("data",) * n, False)
    d = tempfile.mkdtemp(prefix="c22-")
    try:
        p = os.path.join(d, "l.txt")
        open(p, "w").write("\n".join(rows))
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            tu().read_file_list(p, 0, end)
        rec = [r for r in rec if r.category is UserWarning]
    finally:
        shutil.rmtree(d)
    expect(bool(rec) == (end > n), "%d warnings for end=%d of %d frames" % (len(rec), end, n))
    return "warned" if rec else "silent"


def traj_cases(tier="quick"):
    n = 0
    for m in (0, 1, 2, 3) + ((4,) if tier == "thorough" else ()):
        for kinds in itertools.product(POSE_LINES, repeat=m):
            n += 1
            nl, last = (("\n", True), ("\n", False), ("\r\n", True))[n % 3]
            yield "%s/%r%s" % (",".join(kinds), nl, last), (kinds, nl, last)


def check_traj(case):
    kinds, nl, last = case
    rows, rec = arrangement(kinds, True)
    err = io.StringIO()
    with textfile(nl.join(rows) + (nl if last else "")) as p, contextlib.redirect_stderr(err):
        mats = tu().read_trajectory(p)
        tups = tu().read_trajectory(p, matrix=False)
    keep = [(s, k, v) for s, k, v in rec if k not in ("nan", "zero")]
    expect(list(mats) == [s for s, _, _ in keep], "stamps %s, expected %s" % (list(mats), [s for s, _, _ in keep]))
    expect(list(tups) == [s for s, _, _ in keep], "stamps of tuples %s, expected %s" % (list(tups), [s for s, _, _ in keep]))
    for s, k, v in keep:
        R = np.eye(3) if k == "tiny" else rot_of(v[3:7])
        expect(isinstance(mats[s], np.ndarray), "pose is a %s" % type(mats[s]).__name__)
        want = se3(R, v[:3])
        expect(np.array_equal(np.isinf(mats[s]), np.isinf(want)), "pose of %s is %s" % (s, mats[s].tolist()))
        same(np.where(np.isinf(want), 0, mats[s]), np.where(np.isinf(want), 0, want), "pose of %s" % s, 1e-9)
        expect(list(tups[s]) == list(v[:7]), "tuple of %s is %s, expected %s" % (s, tups[s], v[:7]))
    return "%d of %d poses" % (len(keep), len(rec)), 2


def pose_cases():
    for i in range(len(QUATS)):
        for t in ((0, 0, 0), (1.5, -2, 0.25), (1e3, 0, -7)):
            for form in ("tuple", "list"):
                for sc in (1.0, 0.1, -3.0, 1e-6):
                    yield "%d/%s/%s/%g" % (i, t, form, sc), (QUATS[i] * sc, t, form)
    for t in ((0, 0, 0), (1.5, -2, 0.25)):
        for q in ((0, 0, 0, 0), (1e-20, 0, 0, 0), (0, 1e-12, 0, -1e-12)):
            yield "zero/%s/%s" % (t, q), (np.array(q, float), t, "tuple")


def check_pose(case):
    q, t, form = case
    l = [1.0] + [float(x) for x in t] + [float(x) for x in q]
    T = tu().transform44(tuple(l) if form == "tuple" else l)
    zero = np.dot(q, q) < 1e-15
    same(T, se3(np.eye(3) if zero else rot_of(q), t), "transform44", 1e-9)
    return "zero rotation" if zero else "pose"


def long_cases():
    for n in (100, 1100, 2500):
        for nl in ("\n", "\r\n"):
            for k in range(3):
                yield "%d/%r/%d" % (n, nl, k), (n, nl, k)


def check_long(case):
    n, nl, k = case
    kinds = [LINES[(i * (k + 1) + i // 7) % (len(LINES) - 1)] for i in range(n)]
    pk = [POSE_LINES[(i * (k + 1) + i // 5) % len(POSE_LINES)] for i in range(n)]
    rows, rec = arrangement(kinds, False)
    want = [(s, f) for s, _, f in rec if f]
    with textfile(nl.join(rows)) as p:
        for start, end in ((None, None), (0, 1), (n // 5, n // 3), (n // 3, None), (None, n // 2 - 1), (n // 4, n // 4), (len(want) - 1, len(want))):
            got = tu().read_file_list(p, start, end)
            w = want[start if start is not None else 0:end if end is not None else len(want)]
            expect(list(got.items()) == w, "read %d entries (%s, ...), expected %d (%s, ...) for range %s" % (len(got), list(got.items())[:2], len(w), w[:2], (start, end)))
    err = io.StringIO()
    rows, rec = arrangement(pk, True)
    with textfile(nl.join(rows)) as p, contextlib.redirect_stderr(err):
        mats, tups = tu().read_trajectory(p), tu().read_trajectory(p, matrix=False)
    keep = [(s, kk, v) for s, kk, v in rec if kk not in ("nan", "zero")]
    expect(list(mats) == [s for s, _, _ in keep] == list(tups), "%d stamps read, expected %d" % (len(mats), len(keep)))
    for s, kk, v in keep:
        if kk == "inf":
            expect(np.isinf(mats[s][:3, 3]).any(), "pose of %s" % s)
            continue
        same(mats[s], se3(np.eye(3) if kk == "tiny" else rot_of(v[3:7]), v[:3]), "pose of %s" % s, 1e-9)
        expect(list(tups[s]) == list(v[:7]), "tuple of %s is %s, expected %s" % (s, tups[s], v[:7]))
    return "%d lines" % n, 9


def long_assoc_cases():
    for na, nb in ((60, 60), (200, 90), (90, 200), (400, 400)):
        for off in (0.0, 0.017, -3.0):
            for md in (0.009, 0.02, 1.5):
                for k in range(3):
                    yield "%d/%d/%g/%g/%d" % (na, nb, off, md, k), (na, nb, off, md, k)


def check_long_assoc(case):
    na, nb, off, md, k = case
    ta = [("%.4f" % (1305031450.0 * (k == 2) + 0.0333 * i + 0.0041 * ((i * 7) % 5))) for i in range(na)]
    tb = [("%.4f" % (1305031450.0 * (k == 2) + 0.0333 * i * (1 + k % 2) + 0.0037 * ((i * 11) % 7))) for i in range(nb)]
    got = judge({s: [s] for s in (ta[::-1] if k == 1 else ta)}, {s: [s, s] for s in tb}, off, md, 1e-7 if k == 2 else 1e-12)
    return "%d+ pairs" % (len(got) // 50 * 50)


# ------------------------------------------------------------------ association
UNIV = [("9.98", "10.01", "10.04", "10.5", "100.0"), ("9.985", "10.017", "10.02", "10.46", "99.99")]
UNIV2 = [("0.0", "1.0", "2.0", "3.0"), ("0.25", "1.125", "2.0", "2.75")]


def subsets(x):
    return [c for k in range(len(x) + 1) for c in itertools.combinations(x, k)]


def assoc_cases(tier="quick"):
    for ui, (A, B) in enumerate((UNIV, UNIV2)):
        for a in subsets(A):
            for b in subsets(B):
                for off in ((0.0, 0.03, -0.05) if ui == 0 else (0, 1.0, -0.625)):
                    for md in ((0.013, 0.041, 0.6, 200.0) if ui == 0 else (0.2, 0.8, 5.0)):
                        for order in ("asc", "desc", "mix") if tier == "thorough" else (("asc", "desc", "mix")[(len(a) + len(b) * 2) % 3],):
                            yield "%d/%s/%s/%g/%g/%s" % (ui, "+".join(a), "+".join(b), off, md, order), (a, b, off, md, order)
    # ties: equidistant partners
    for a in subsets(("1.0", "2.0", "3.0")):
        for b in subsets(("1.5", "2.5", "0.5")):
            yield "tie/%s/%s" % ("+".join(a), "+".join(b)), (a, b, 0.0, 0.7, "asc")


def check_assoc(case):
    a, b, off, md, order = case

    def arrange(x, k):
        x = list(x)
        if order == "desc":
            x = x[::-1]
        if order == "mix":
            x = x[k::2] + x[:k] + x[k + 1::2] if len(x) > 1 else x
        return {s: ["file" + s] for s in x}
    da, db = arrange(a, 1), arrange(b, 0)
    if set(da) != set(a):
        da = {s: ["file" + s] for s in a}
    if set(db) != set(b):
        db = {s: ["file" + s] for s in b}
    return "%d pairs" % len(judge(da, db, off, md))


def judge(da, db, off, md, eps=1e-12):
    """The association of two lists, which must be the greedy closest one to one pairing in order of time."""
    a, b = list(da), list(db)
    ka, kb = list(da.items()), list(db.items())
    got = tu().associate(da, db, off, md)
    expect(list(da.items()) == ka and list(db.items()) == kb, "input dictionaries modified")
    diff = lambda x, y: abs(float(x) - (float(y) + off))  # noqa: E731
    got = [tuple(m) for m in got]
    ga, gb = [m[0] for m in got], [m[1] for m in got]
    expect(len(set(ga)) == len(ga) and len(set(gb)) == len(gb), "pairing %s is not one to one" % (got,))
    expect(set(ga) <= set(a) and set(gb) <= set(b), "pairing %s has unknown stamps" % (got,))
    for x, y in got:
        expect(diff(x, y) < md + eps, "pair %s is %g apart, limit %g" % ((x, y), diff(x, y), md))
    pa, pb = dict(got), {y: x for x, y in got}
    fa, fb = {x: float(x) for x in a}, {y: float(y) + off for y in b}
    for x in a:
        for y in b:
            d = abs(fa[x] - fb[y])
            if d < md - eps and pa.get(x) != y:  # every closer remaining pair was preferred
                better = (x in pa and diff(x, pa[x]) <= d + eps) or (y in pb and diff(pb[y], y) <= d + eps)
                expect(better, "%s and %s (%g apart) are not paired although neither has a closer partner: %s" % (x, y, d, got))
    expect([float(x) for x in ga] == sorted(float(x) for x in ga), "pairs are not in order of time: %s" % (got,))
    return got


def sweeps(tier):
    return [("file lists", lambda: list_cases(tier), check_list), ("range warning", warn_cases, check_warn), ("trajectories", lambda: traj_cases(tier), check_traj),
            ("poses", pose_cases, check_pose), ("long files", long_cases, check_long), ("long association", long_assoc_cases, check_long_assoc), ("association", lambda: assoc_cases(tier), check_assoc),
            purity.sweep(purecalls.tum, tier)]


RULE = ("every arrangement of up to 3 (thorough 4) lines of 13/16 kinds (separators, indentation, comments, blank lines, NaN and zero rotations) x line ends x frame range; every pair of subsets of two "
        "timestamp universes x offset x maximum difference x dictionary order, judged against the definition of greedy closest pairing")


def main(tier, t0):
    return sweepcheck.run("C22", tier, t0, sweeps(tier), rule=RULE, bounds={"lines": "0..3 (4)", "timestamps": "up to 5 a side", "long": "2500 lines, 400 timestamps a side"},
                          assumptions=["timestamps of a file are distinct", "differences exactly at the maximum may go either way", "equally close pairs may be preferred in either order"])


def replay(doc):
    return sweepcheck.replay(doc, sweeps("thorough"))
