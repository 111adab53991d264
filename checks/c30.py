"""C30: list and padded representations of ragged tensors convert into each other without loss."""
import itertools

import numpy as np
import torch

import purecalls
import purity
import sweepcheck
from mc import expect, raises, same


def su():
    from gradslam.structures import structutils
    return structutils


def item(k, n, c, dt):
    x = torch.arange(1, n * c + 1, dtype=torch.float64).reshape(n, c) * (k + 1) + 10 * k
    return x.to(dt)


def shapes(tier):
    return [(n, c) for n in range(4 if tier == "thorough" else 3) for c in (1, 2, 3)]


def lists(tier):
    S = shapes(tier)
    for B in (1, 2, 3):
        for sh in itertools.product(S, repeat=B):
            if B == 3 and tier == "quick" and len(set(c for _, c in sh)) > 2:
                continue
            yield sh


DTS = (torch.float32, torch.float64, torch.int64, torch.uint8, torch.bool)
VALUES = (0.0, -1.0, 7.5, float("nan"), float("inf"))


def pad_cases(tier):
    for i, sh in enumerate(lists(tier)):
        yield "%s" % (sh,), (sh, torch.float32, 0.0, False)
        yield "grad/%s" % (sh,), (sh, torch.float64, VALUES[i % 5], True)
    for sh in itertools.product([(0, 2), (1, 2), (2, 3)], repeat=2):
        for dt in DTS:
            for v in VALUES if dt.is_floating_point else (0.0, 1.0):
                yield "%s/%s/%s" % (sh, dt, v), (sh, dt, v, False)


def model(xs, N, C, v, dt):
    out = torch.full((len(xs), N, C), v, dtype=torch.float64).to(dt)
    for b, x in enumerate(xs):
        for i in range(x.shape[0]):
            for j in range(x.shape[1]):
                out[b, i, j] = x[i, j]
    return out


def check_pad(case):
    sh, dt, v, rg = case
    xs = [item(k, n, c, dt).requires_grad_(rg) for k, (n, c) in enumerate(sh)]
    before = [x.detach().clone() for x in xs]
    N, C = max(n for n, _ in sh), max(c for n, c in sh if n > 0 or all(m == 0 for m, _ in sh))
    CC = max(c for _, c in sh)
    calls = 0
    for size in (None, (N, CC), [N, CC], (N + 2, CC), (N, CC + 1), (N + 1, CC + 2)):
        n, c = (N, C) if size is None else size
        kw = {} if size is None else {"pad_size": size}
        out = su().list_to_padded(xs, pad_value=v, **kw)
        expect(out.dtype == dt, "dtype %s" % out.dtype)
        same(out, model([x.detach() for x in xs], n, c, v, dt).to(torch.float64).numpy() if dt != torch.bool else model([x.detach() for x in xs], n, c, v, dt).numpy(),
             "list_to_padded(pad_size=%s, pad_value=%s)" % (size, v), 0)
        # back again, by (rows, columns) and, when no column is padded, by rows
        back = su().padded_to_list(out, [list(s) for s in sh] if calls % 2 else [tuple(s) for s in sh])
        for k, (g, w) in enumerate(zip(back, before)):
            expect(len(back) == len(sh) and g.shape == w[:, :c].shape and torch.equal(g.detach(), w[:, :c]), "item %d changed on the way to padded form and back: %s" % (k, g))
        if all(cc == c for _, cc in sh):
            back = su().padded_to_list(out, [n for n, _ in sh])
            for k, (g, w) in enumerate(zip(back, before)):
                expect(g.shape == w.shape and torch.equal(g.detach(), w[:, :c]), "item %d changed on the way to padded form and back: %s" % (k, g))
        if rg and any(n for n, _ in sh):
            g = torch.autograd.grad((out.masked_fill(~torch.isfinite(out), 0) * 3.0).sum(), xs, allow_unused=True)
            for k, (a, x) in enumerate(zip(g, xs)):
                expect(x.numel() == 0 or (a is not None and torch.equal(a, torch.full_like(x, 3.0))), "gradient of item %d is %s" % (k, a))
        if not rg and out.numel():
            out.fill_(1)
        for x, b in zip(xs, before):
            expect(torch.equal(x.detach(), b), "list_to_padded changed its argument (or shares it)")
        calls += 1
    if len(set(sh)) == 1 and sh[0][0]:
        out = su().list_to_padded(xs, equisized=True)
        expect(torch.equal(out.detach(), torch.stack(before)), "equisized list changed: %s" % out)
    for size in ((N - 1, CC), (N, C - 1)):
        if min(size) >= 1 and any(n > 0 for n, _ in sh):
            raises(lambda: su().list_to_padded(xs, pad_size=size), (RuntimeError, ValueError))
    return "B%d" % len(sh), calls


def split_cases(tier):
    top = 3 if tier == "quick" else 4
    for B in (0, 1, 2, 3):
        for N in range(top):
            for C in range(1, top):
                yield "%d,%d,%d" % (B, N, C), (B, N, C)


def check_split(case):
    B, N, C = case
    x = torch.arange(B * N * C, dtype=torch.float32).reshape(B, N, C)
    b = x.clone()
    got = su().padded_to_list(x)
    expect(len(got) == B and all(torch.equal(g, x[i]) for i, g in enumerate(got)), "padded_to_list without sizes: %s" % (got,))
    n = 1
    opts = list(range(N + 1)) + [(i, j) for i in range(N + 1) for j in range(C + 1)]
    if B <= 2 or len(opts) <= 12:
        for sizes in itertools.product(opts, repeat=B):
            got = su().padded_to_list(x, list(sizes))
            expect(len(got) == B, "%d items" % len(got))
            for i, s in enumerate(sizes):
                w = b[i, :s] if isinstance(s, int) else b[i, : s[0], : s[1]]
                expect(got[i].shape == w.shape and torch.equal(got[i], w), "padded_to_list(%s) item %d is %s, expected %s" % (sizes, i, got[i], w))
            n += 1
    expect(torch.equal(x, b), "padded_to_list changed its argument")
    for s in ([1] * (B + 1), [(1, 1)] * (B + 2)):
        raises(lambda: su().padded_to_list(x, s), (ValueError,))
    if B:
        raises(lambda: su().padded_to_list(x, [1] * (B - 1)), (ValueError,))
        raises(lambda: su().padded_to_list(x, [(1, 1, 1)] * B), (ValueError,))
    return "B%d" % B, n


def big_cases():
    """Long lists and long items."""
    for nm, ns in {"40": [(i * 7) % 11 for i in range(40)], "ends": [0] + [3] * 20 + [0], "1000": [1000, 1, 0, 999], "5000": [2, 5000], "130": [i % 2 for i in range(130)], "300 equal": [300] * 5}.items():
        for c in (1, 3, 70):
            if c == 70 and max(ns) > 1000:
                continue
            for dt, v, rg in ((torch.float32, 0.0, False), (torch.float64, -1.5, True), (torch.int64, 3.0, False)):
                yield "%s/%d/%s" % (nm, c, dt), (tuple((n, c) for n in ns), dt, v, rg)
    yield "columns differ", (tuple(((i * 5) % 13, 1 + i % 4) for i in range(30)), torch.float32, 2.0, False)


def check_big(case):
    sh, dt, v, rg = case
    xs = [item(k, n, c, dt).requires_grad_(rg) for k, (n, c) in enumerate(sh)]
    before = [x.detach().clone() for x in xs]
    N, C = max(n for n, _ in sh), max(c for _, c in sh)
    for size in (None, (N, C), (N + 3, C + 1)):
        n, c = size or (N, C)
        want = np.full((len(xs), n, c), v)
        for b, x in enumerate(before):
            want[b, :x.shape[0], :x.shape[1]] = x.numpy()
        out = su().list_to_padded(xs, pad_value=v, **({"pad_size": size} if size else {}))
        expect(out.dtype == dt, "dtype %s" % out.dtype)
        same(out, want, "list_to_padded(pad_size=%s)" % (size,), 0)
        for sizes in ([list(s) for s in sh],) + (([s[0] for s in sh],) if c == C and len(set(cc for _, cc in sh)) == 1 else ()):
            back = su().padded_to_list(out, sizes)
            expect(len(back) == len(sh), "%d items came back" % len(back))
            for k, (g, w) in enumerate(zip(back, before)):
                expect(g.shape == w.shape and torch.equal(g.detach(), w), "item %d changed on the way to padded form and back: %s" % (k, g))
        if rg:
            g = torch.autograd.grad((out * 3.0).sum(), xs, allow_unused=True)
            for k, (a, x) in enumerate(zip(g, xs)):
                expect(x.numel() == 0 or (a is not None and torch.equal(a, torch.full_like(x, 3.0))), "gradient of item %d is %s" % (k, a))
    if len(set(sh)) == 1:
        expect(torch.equal(su().list_to_padded(xs, equisized=True).detach(), torch.stack(before)), "equisized list changed")
    return "large", 3


def bad_cases():
    yield "2d", (lambda: su().padded_to_list(torch.zeros(2, 3)), ValueError)
    yield "4d", (lambda: su().padded_to_list(torch.zeros(2, 3, 1, 1), [1, 1]), ValueError)
    yield "1d", (lambda: su().padded_to_list(torch.zeros(2)), ValueError)
    for size in ((3,), (3, 3, 3), ()):
        yield "size%s" % (size,), (lambda size=size: su().list_to_padded([torch.zeros(2, 3)], size), ValueError)
    yield "1d item", (lambda: su().list_to_padded([torch.zeros(2, 3), torch.zeros(2)], (3, 3)), ValueError)
    yield "3d item", (lambda: su().list_to_padded([torch.zeros(2, 3), torch.zeros(2, 3, 1)], (3, 3)), ValueError)


def check_bad(case):
    f, e = case
    raises(f, (e,))
    return "rejected"


def check_flat(case):
    """1-dimensional empty tensors stand for empty items."""
    sh = case
    xs = [torch.zeros(0) if s is None else item(k, *s, torch.float32) for k, s in enumerate(sh)]
    real = [torch.zeros(0, 3) if s is None else x for x, s in zip(xs, sh)]
    N = max(x.shape[0] for x in real)
    same(su().list_to_padded(xs, (N, 3)), model(real, N, 3, 0.0, torch.float32).numpy(), "list_to_padded", 0)
    if any(s is not None and s[0] for s in sh):
        same(su().list_to_padded(xs), model(real, N, 3, 0.0, torch.float32).numpy(), "list_to_padded", 0)
    return "flat empties", 2


def flat_cases():
    for B in (1, 2, 3):
        for sh in itertools.product((None, (0, 3), (1, 3), (2, 3)), repeat=B):
            yield "%s" % (sh,), sh


def sweeps(tier):
    return [("pad", lambda: pad_cases(tier), check_pad), ("split", lambda: split_cases(tier), check_split), ("large", big_cases, check_big), ("flat", flat_cases, check_flat), ("rejected", bad_cases, check_bad),
            purity.sweep(purecalls.lists, tier)]


RULE = ("every list of up to 3 items of 0..2 (thorough 0..3) rows and 1..3 columns x pad size x pad value x number kind x requires_grad, converted to padded form and back; "
        "every padded shape x every row or (row, column) split; each compared entry by entry with the definition")


def main(tier, t0):
    return sweepcheck.run("C30", tier, t0, sweeps(tier), rule=RULE, bounds={"items": "1..3", "rows": "0..2 (3)", "columns": "1..3", "large": "up to 130 items, 5000 rows, 71 columns"}, assumptions=["items are matrices, or flat when empty"])


def replay(doc):
    return sweepcheck.replay(doc, sweeps("thorough"))
