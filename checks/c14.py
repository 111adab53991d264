"""C14: differentiable ICP follows its soft accept/reject damping schedule."""
import itertools

import numpy as np
import torch

import purecalls
import purity
import sweepcheck
from c13 import NAMES, bad_cases as c13_bad, check_align, check_default, check_exact, check_provider, default_cases, large_cases, provider_cases, rigid, setup, twist
from fusionmodel import Borderline
from icpmodel import icp
from mc import expect, raises, same

SOFT = {"default": (2.0, 1.0, 1.0, 200.0), "sharp": (2.0, 15.0, 10.0, 2.0), "wide": (5.0, 0.5, 2.0, 1.0), "int": (4, 2, 3, 5), "flat": (2.0, 0.0, 0.0, 1.0), "cold": (1.0, 1.0, 0.2, 50.0),
        "reversed": (3.0, -2.0, -1.5, 3.0), "gate only": (2.0, 0.0, 4.0, 1.5), "damping only": (8.0, 3.0, 0.0, 7.0),
        "shrinking": (0.5, 1.0, 1.0, 0.4), "narrow nu": (3.0, 1.0, 0.8, 0.5), "below one": (0.25, -1.0, 0.5, 30.0)}
MODES = list(SOFT)


def align_cases(tier="quick"):
    names = NAMES
    n = 0
    for k in range(0, 729, 4 if tier == "quick" else 1):
        for nm in names:
            n += 1
            yield "twist/%s/%d" % (nm, k), (nm, twist(k), slice(None), (1, 2, 3, 5)[n % 4], (1e-8, 1e-2, 1.0, 20.0)[n // 4 % 4], (None, None, 0.4, 1)[n // 2 % 4], (None, "I", "exact", "part")[n // 3 % 4], MODES[n % len(MODES)])
    for nm in names:  # every gate setting x iteration count on a few starts, from mild to far
        for k, (a, w), md, it in itertools.product((40, 111, 222, 333, 505, 690), ((0.1, 0.05), (0.5, 0.5), (0.3, 1.2), (1.5, 0.3)), MODES, (1, 2, 3, 4, 6)):
            n += 1
            if tier == "quick" and n % 2:
                continue
            yield "gates/%s/%d/%s/%s/%d" % (nm, k, a, md, it), (nm, twist(k, a, w), slice(None), it, (1e-3, 0.1, 3.0)[n % 3], (None, 0.6, 0.3)[n // 3 % 3], (None, "I", "part")[n % 3], md)
        for k, (a, w) in itertools.product(range(0, 729, 9 if tier == "quick" else 2), ((0.5, 0.5), (0.3, 1.2), (1.5, 0.3))):
            n += 1
            yield "far/%s/%d/%s" % (nm, k, a), (nm, twist(k, a, w), (slice(None), slice(0, None, 2), slice(3, None))[n % 3], 1 + n % 6, (1e-2, 0.5, 1e-8)[n % 3], (None, 0.6, 0.3)[n // 3 % 3], (None, "I", "part")[n % 3], MODES[n // 2 % len(MODES)])
    # large errors: the error difference saturates
    for k, md, it in itertools.product(range(0, 729, 31), MODES, (1, 2)):
        n += 1
        yield "saturated/%d/%s/%d" % (k, md, it), (("corner", "generic")[n % 2], twist(k, 12.0, 0.1), slice(None), it, (1e-2, 1.0)[n % 2], None, "I", md)


def big_cases(tier="quick"):
    for n, (key, c) in enumerate(large_cases(tier)):
        yield key, c[:4] + (min(c[4], 50.0),) + c[5:] + (MODES[n % len(MODES)],)


def check(case):
    return check_align(case[:7], SOFT[case[7]])


def hard_cases():
    """With a saturated gate (nu -> infinity, B -> infinity, lambda_max = 2) every improving run equals plain ICP."""
    n = 0
    for nm in NAMES:
        for k in range(0, 729, 7):
            for it in (1, 2, 3):
                n += 1
                yield "%s/%d/%d" % (nm, k, it), (nm, twist(k, 0.1, 0.06), it, (1e-2, 1.0, 1e-8)[n % 3], (None, 0.5)[n % 2])


def check_hard(case):
    from gradslam.odometry.icputils import point_to_plane_gradICP, point_to_plane_ICP
    nm, xi, it, damp, th = case
    src, tgt, nrm, _, _, t = setup(nm, xi, slice(None), "I")
    try:
        want, _, pat = icp(src, tgt, nrm, np.eye(4), it, damp, th)
    except Borderline:
        return "outside domain", 0
    if set(pat) - {"+"}:
        return "not always improving", 0
    soft = dict(lambda_max=2.0, B=1e6, B2=1.0, nu=1e7)
    a, _ = point_to_plane_gradICP(t[0], t[1], t[2], t[3], it, damp, th, **soft)
    b, _ = point_to_plane_ICP(t[0], t[1], t[2], t[3], it, damp, th)
    same(a, b, "gradICP against ICP", 1e-3)
    same(a, want, "gradICP against the model", 1e-3)
    return "equal to ICP", 2 * it


def coincide_cases():
    for nm in NAMES:
        for it, md, th, init in itertools.product((1, 2, 4), MODES, (None, 0.3), (None, "I")):
            yield "%s/%d/%s/%s/%s" % (nm, it, md, th, init), (nm, it, md, th, init)


def check_coincide(case):
    from gradslam.odometry.icputils import point_to_plane_gradICP
    nm, it, md, th, init = case
    _, _, _, _, _, t = setup(nm, np.zeros(6), slice(None), init)
    T, _ = point_to_plane_gradICP(t[0], t[1], t[2], t[3], it, 1e-2, th, *SOFT[md])
    same(T, np.eye(4), "transform of coinciding clouds", 1e-4)
    return "identity"


def prov_cases(tier="quick"):
    for md in MODES:
        for key, c in provider_cases(tier):
            if c[1] is None and md != "default":
                continue
            yield md + "/" + key, (c, SOFT[md])


def bad_cases():
    p, I = torch.rand(1, 6, 3), torch.eye(4)
    for n, kw in (("lambda_max", {"lambda_max": "2"}), ("lambda_max None", {"lambda_max": None}), ("B", {"B": "1"}), ("B tensor", {"B": torch.tensor(1.0)}), ("B2", {"B2": None}), ("nu", {"nu": "x"})):
        yield n, ((p, p, p, I), kw)


def check_bad(case):
    from gradslam.odometry.icputils import point_to_plane_gradICP
    a, kw = case
    raises(lambda: point_to_plane_gradICP(*a, **kw), (TypeError,))
    return "rejected"


def sweeps(tier):
    return [("alignment", lambda: align_cases(tier), check), ("large", lambda: big_cases(tier), check), ("saturated gate", hard_cases, check_hard), ("coinciding", coincide_cases, check_coincide), ("defaults", lambda: default_cases(True), check_default),
            ("provider", lambda: prov_cases(tier), lambda c: check_provider(*c)), ("rejected", bad_cases, check_bad),
            purity.sweep(purecalls.gradicp, tier)]


RULE = ("sign patterns of a 6-twist, near, far and saturating, on three shapes x twelve gate settings x iteration counts x damping x thresholds x initial transforms, each compared with a brute-force "
        "double-precision run of the soft schedule; the outcome labels list every improve(+)/worsen(-) pattern reached")


def main(tier, t0):
    return sweepcheck.run("C14", tier, t0, sweeps(tier), rule=RULE, bounds={"points": "6..26, up to 400 in the large sweep", "iterations": "1..6, up to 20", "batch": "1..6"},
                          assumptions=["cases with ambiguous nearest neighbours, points at the threshold, steep undecided gates or condition number above 2e3 are outside the domain (counted)",
                                       "single precision only", "at least one iteration", "transform tolerance 5e-4"])


def replay(doc):
    return sweepcheck.replay(doc, sweeps("thorough"))
