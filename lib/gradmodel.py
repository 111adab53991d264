"""Gradients against central differences of the same code in double precision."""
import numpy as np
import torch

from mc import Mismatch, expect


def weights(shape, k):
    """A fixed generic cotangent: no entry vanishes and no two outputs cancel."""
    n = int(np.prod(shape, dtype=int))
    i = np.arange(n, dtype=float)
    return (0.3 + np.abs(np.sin(1.7 * i + 0.9 * k + 0.4)) * np.where((i * 7 + k) % 3 == 1, -1.0, 1.0)).reshape(shape)


def scalar(outs, keep, cot):
    tot = 0.0
    for k, (name, o) in enumerate(outs):
        w = torch.as_tensor(weights(tuple(o.shape), k + 5 * cot))
        if keep is not None and keep.get(name) is not None:
            w = w * torch.as_tensor(np.broadcast_to(np.asarray(keep[name], float), o.shape).copy())
        tot = tot + (o * w).sum()
    return tot


class Graph:
    """f: {leaf name: tensor} -> [(output name, tensor)]."""

    def __init__(self, f, leaves):
        self.f = f
        self.leaves = {k: np.array(v, dtype=np.float64) for k, v in leaves.items()}

    def run(self, values, grad=()):
        ts = {k: torch.tensor(v, dtype=torch.float64, requires_grad=k in grad) for k, v in values.items()}
        outs = self.f(ts)
        for n, o in outs:
            expect(o.dtype == torch.float64, "%s has type %s" % (n, o.dtype))
        return ts, outs

    def grads(self, names, keep=None, cot=0):
        ts, outs = self.run(self.leaves, names)
        L = scalar(outs, keep, cot)
        if not torch.is_tensor(L) or not L.requires_grad:
            return {k: None for k in names}
        g = torch.autograd.grad(L, [ts[k] for k in names], allow_unused=True)
        return {k: None if v is None else v.numpy() for k, v in zip(names, g)}

    def fd(self, name, idx, keep, cot, h):
        out = []
        for s in (h, -h):
            v = {k: x.copy() for k, x in self.leaves.items()}
            v[name][idx] += s
            with torch.no_grad():
                out.append(float(scalar(self.run(v)[1], keep, cot)))
        return (out[0] - out[1]) / (2 * h)

    def check(self, keep=None, zero=None, skip=None, cots=(0,), h=1e-5, tol=2e-5, subsets=True, finite_all=True):
        """zero[name]: mask of entries that must have exactly zero gradient (they are not perturbed);
        skip[name]: mask of entries about which nothing but finiteness is claimed."""
        zero, skip = zero or {}, skip or {}
        names = list(self.leaves)
        calls = 0
        for cot in cots:
            G = self.grads(names, keep, cot)
            calls += 1
            for k in names:
                x, g = self.leaves[k], G[k]
                z = np.broadcast_to(zero.get(k, False), x.shape)
                s = np.broadcast_to(skip.get(k, False), x.shape)
                if g is not None:
                    expect(np.isfinite(g).all(), "gradient of %s is not finite: %s" % (k, g.tolist()))
                    expect((g[z] == 0).all(), "gradient of %s is not zero at entries that do not matter: %s" % (k, g[z].tolist()))
                num = np.zeros_like(x)
                for idx in np.ndindex(*x.shape):
                    if not z[idx] and not s[idx]:
                        num[idx] = self.fd(k, idx, keep, cot, h)
                        calls += 2
                got = np.zeros_like(x) if g is None else g
                scale = 1.0 + np.abs(num).max() if num.size else 1.0
                bad = (np.abs(got - num) > tol * scale) & ~s & ~z
                if bad.any():
                    i = tuple(int(v) for v in np.argwhere(bad)[0])
                    raise Mismatch("gradient of %s%s is %s, the computed values change at rate %.6g" % (k, list(i), "missing (0)" if g is None else "%.6g" % got[i], num[i]))
            if subsets and len(names) > 1:
                for k in names:
                    one = self.grads([k], keep, cot)[k]
                    calls += 1
                    a = np.zeros_like(self.leaves[k]) if one is None else one
                    b = np.zeros_like(self.leaves[k]) if G[k] is None else G[k]
                    expect(np.allclose(a, b, rtol=1e-9, atol=1e-9), "gradient of %s depends on which other inputs require gradients" % k)
        if finite_all and keep is not None:
            for k, g in self.grads(names, None, 1).items():
                expect(g is None or np.isfinite(g).all(), "gradient of %s is not finite" % k)
        return calls
