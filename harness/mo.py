"""helpers for the multi-objective checks: symbolic points, dominance, volumes"""
import numpy as np
import torch

from engine import sym
from engine.rt import objarr


def tensor(rows, kind="f"):
    """symbolic run: symbolic tensor; replay: float64 tensor"""
    c = sym.cur()
    if c is not None and c.symbolic:
        from engine.torchfacade import SymTensor, cast

        a = objarr(rows)
        if not len(rows):
            a = a.reshape(0)
        return SymTensor(cast(a, kind), kind)
    return torch.tensor(rows, dtype=torch.float64)


def empty(m):
    return tensor([[0.0] * m])[:0]


def arr(rows):
    """numpy array (float or object)"""
    if any(sym.is_sym(v) for r in rows for v in r):
        return objarr([list(r) for r in rows])
    return np.array(rows, dtype=float)


def rows(t):
    """nested lists of entries of a tensor (symbolic or not)"""
    if hasattr(t, "_is_symtensor"):
        return t.a.tolist()
    return t.detach().cpu().numpy().tolist()


def points(ctx, n, m, lo=-100.0, hi=100.0, name="y"):
    return [[ctx.real(f"{name}{i}_{j}", lo, hi) for j in range(m)] for i in range(n)]


def geq(ctx, a, b):
    return ctx.all([x >= y for x, y in zip(a, b)])


def same(ctx, a, b):
    return ctx.all([ctx.eq(x, y) for x, y in zip(a, b)])


def dominates(ctx, a, b):
    """a dominates b (maximisation)"""
    return ctx.all([geq(ctx, a, b), ctx.neg(same(ctx, a, b))])


def strictly(ctx, a, b):
    return ctx.all([x > y for x, y in zip(a, b)])


def volume(ctx, pts, ref):
    """volume of the union of the boxes [ref, p], by inclusion-exclusion over clipped points"""
    from itertools import combinations

    tot = 0.0
    for k in range(1, len(pts) + 1):
        for sub in combinations(range(len(pts)), k):
            v = 1.0
            for j in range(len(ref)):
                low = pts[sub[0]][j]
                for i in sub[1:]:
                    low = ctx.min([low, pts[i][j]])
                v = v * ctx.max([low - ref[j], 0.0])
            tot = tot + v if k % 2 else tot - v
    return tot


def part(ctx, Y, bits):
    """one of 2^k parts of the input space (to explore in parallel): the order of neighbouring first objectives"""
    for i, b in enumerate(bits):
        ctx.assume(Y[i][0] <= Y[i + 1][0] if b else Y[i][0] > Y[i + 1][0])


def parts(k):
    from itertools import product

    return list(product((True, False), repeat=k))
