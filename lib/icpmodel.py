"""Reference model of point-to-plane ICP and its differentiable variant, by brute force in double precision."""
import numpy as np

from fusionmodel import Borderline


def hat(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0.0]])


def se3_exp(xi):
    """Matrix exponential of the twist (v, omega) by its power series."""
    X = np.zeros((4, 4))
    X[:3, :3], X[:3, 3] = hat(xi[3:]), xi[:3]
    k = max(0, int(np.ceil(np.log2(max(1e-9, np.abs(X).max())))) + 3)
    X = X / 2.0 ** k
    out, term = np.eye(4), np.eye(4)
    for i in range(1, 18):
        term = term @ X / i
        out = out + term
    for _ in range(k):
        out = out @ out
    return out


def apply(T, P):
    return P @ T[:3, :3].T + T[:3, 3]


def system(src, tgt, nrm, th):
    A, b, idx, keep = [], [], [], []
    for i, s in enumerate(src):
        d = np.linalg.norm(tgt - s, axis=1)
        j = int(np.argmin(d))
        if (d - d[j] < 1e-4 * (1 + d[j])).sum() > 1:
            raise Borderline("nearest neighbour of source %d is ambiguous" % i)
        if th is not None:
            if abs(d[j] - th) < 1e-3:
                raise Borderline("source %d is at the threshold" % i)
            if not d[j] < th:
                continue
        n, q = nrm[j], tgt[j]
        A.append(np.concatenate([n, np.cross(s, n)]))
        b.append(n @ (q - s))
        idx.append(j)
        keep.append(i)
    return np.array(A).reshape(-1, 6), np.array(b), idx


MAXCOND = 2e3


def increment(A, b, damp):
    M = A.T @ A + damp * np.eye(6)
    if len(b) and np.linalg.cond(M) > MAXCOND:
        raise Borderline("ill-conditioned step")
    if not len(b):
        return np.zeros(6)
    return np.linalg.solve(M, A.T @ b)


def icp(src, tgt, nrm, T0, iters, damp, th, soft=None):
    """soft: None for accept/reject LM, or (lambda_max, B, B2, nu).  Returns (T, indices, pattern of +/-)."""
    T = np.array(T0, float)
    src = apply(T, src)
    pat = ""
    idx = None
    for _ in range(iters):
        A, b, idx = system(src, tgt, nrm, th)
        xi = increment(A, b, damp)
        cand = apply(se3_exp(xi), src)
        _, b2, _ = system(cand, tgt, nrm, th)
        err, new = b @ b, b2 @ b2
        still = np.abs(xi).max() < 2e-4
        diff = new - err
        pat += "0" if still else "+" if diff < 0 else "-"
        if soft is None:
            if not still and abs(diff) < 1e-4 * err + 1e-7:
                raise Borderline("accept/reject undecided")
            if diff < 0:
                src, T, damp = cand, se3_exp(xi) @ T, damp / 2
            else:
                damp = damp * 2
        else:
            lmax, B, B2, nu = soft
            lmin = 1.0 / lmax
            e = np.clip(diff, -70.0, 70.0)
            if abs(B) > 20 and abs(B * e) < 30 and abs(B) * 1e-4 * (err + 1e-3) > 0.05:
                raise Borderline("steep gate undecided")
            damp = damp * (lmin + (lmax - lmin) / (1 + np.exp(-B * e)))
            g = 1.0 / (1 + np.exp(-B2 * e)) ** (1.0 / nu)
            src, T = apply(se3_exp(g * xi), src), se3_exp(g * xi) @ T
    return T, idx, pat
