"""C16  Pareto routines return exactly the non-dominated points"""
import numpy as np

from bayes_optim.utils.multi_objective import fast_non_dominated_sort, is_non_dominated, non_dominated_set_2d
from bayes_optim.utils.utils import is_pareto_efficient
from engine import sym
from engine.case import Suite
from harness.mo import arr, dominates, empty, part, parts, points, rows, same, tensor

SUITE = Suite("C16", bounds=["2 to 5 points (batches of 2 x 3), 2 and 3 objectives, every combination of ties and duplicates; the sign of each objective"],
              outside=["more points or objectives", "NaN objective values", "float32 rounding inside tensors"],
              assumptions=["torch operations are modelled by the facade in engine/torchfacade.py (exact reals)"])


def tag(bits):
    return ", part " + "".join("<" if b else ">" for b in bits) if bits else ""


def spec_mask(ctx, Y, dedup):
    """which points have to be kept, maximisation"""
    out = []
    for i, y in enumerate(Y):
        ok = [ctx.neg(dominates(ctx, z, y)) for k, z in enumerate(Y) if k != i]
        if dedup:
            ok += [ctx.neg(same(ctx, Y[k], y)) for k in range(i)]
        out.append(ctx.all(ok))
    return out


def mask_case(n, m, dedup, **o):
    def fn(ctx):
        Y = points(ctx, n, m)
        got = rows(is_non_dominated(tensor(Y), *(() if dedup else (False,))))
        want = spec_mask(ctx, Y, dedup)
        ctx.check(len(got) == n, "the mask has one entry per point")
        for i in range(n):
            ctx.check(ctx.iff(got[i], want[i]), "a point is marked exactly if no point dominates it")

    SUITE.add(f"is_non_dominated({n} points, {m} objectives, deduplicate={dedup})", fn, **o)


for n, m in ((1, 2), (3, 2), (3, 3)):
    mask_case(n, m, True)
    mask_case(n, m, False)
mask_case(4, 2, True)
mask_case(5, 2, False)
mask_case(4, 3, True, tiers=("thorough",))
mask_case(5, 2, True, tiers=("thorough",))
mask_case(6, 3, False, tiers=("thorough",))


@SUITE.case()
def batched_mask(ctx):
    """a batch of point sets is handled set by set"""
    A, B = points(ctx, 2, 2, name="a"), points(ctx, 2, 2, name="b")
    dedup = ctx.choice("deduplicate", (True, False))
    got = rows(is_non_dominated(tensor([A, B]), deduplicate=dedup))
    for Y, g in ((A, got[0]), (B, got[1])):
        for g_, w in zip(g, spec_mask(ctx, Y, dedup)):
            ctx.check(ctx.iff(g_, w), "batched: a point is marked exactly if no point of its own set dominates it")
    e = is_non_dominated(empty(2))
    ctx.check(tuple(e.shape) == (0,), "no points: an empty mask")


def signs(mini, m):
    return [-1.0 if v else 1.0 for v in (mini if isinstance(mini, (list, tuple)) else [mini] * m)]


def check_index_set(ctx, got, Y, what):
    """got: indices of the maximal points of Y, one for each group of equal points"""
    got = [int(i) for i in got]
    ctx.check(len(set(got)) == len(got) and all(0 <= i < len(Y) for i in got), f"{what}: distinct valid indices")
    for i in got:
        for k in range(len(Y)):
            ctx.check(ctx.neg(dominates(ctx, Y[k], Y[i])), f"{what}: no returned point is dominated")
    for i in range(len(Y)):
        if i not in got:
            ctx.check(ctx.any([ctx.any([dominates(ctx, Y[k], Y[i]), same(ctx, Y[k], Y[i])]) for k in got]),
                      f"{what}: every point left out is dominated by, or equal to, a returned one")
    for a, i in enumerate(got):
        for j in got[a + 1 :]:
            ctx.check(ctx.neg(same(ctx, Y[i], Y[j])), f"{what}: one of each group of equal points")


def set2d_case(n, mini, bits=(), **o):
    def fn(ctx):
        Y = points(ctx, n, 2)
        part(ctx, Y, bits)
        y = arr(Y)
        keep = y.copy()
        got = non_dominated_set_2d(y) if mini is None else non_dominated_set_2d(y, minimize=mini)
        s = signs(True if mini is None else mini, 2)
        check_index_set(ctx, got, [[a * b for a, b in zip(r, s)] for r in Y], "non_dominated_set_2d")
        ctx.check(ctx.all([ctx.eq(a, b) for a, b in zip(y.ravel().tolist(), keep.ravel().tolist())]), "non_dominated_set_2d leaves the caller's array as it is")

    SUITE.add(f"non_dominated_set_2d({n} points, minimize={mini}{tag(bits)})", fn, **o)


for n, mini in ((1, None), (2, [True, False]), (2, True), (3, None), (3, False), (3, [False, True]), (3, [True, True])):
    set2d_case(n, mini)
for b in parts(2):
    set2d_case(4, True, b)
set2d_case(5, False, tiers=("thorough",))


def sort_case(n, m, bits=(), **o):
    def fn(ctx):
        Y = points(ctx, n, m)
        part(ctx, Y, bits)
        f = arr(Y).T
        fronts = fast_non_dominated_sort(f)
        N = [[-v for v in r] for r in Y]
        flat = [int(i) for fr in fronts for i in fr]
        ctx.check(sorted(flat) == list(range(n)), "the fronts hold every point exactly once")
        rank = {int(i): k for k, fr in enumerate(fronts) for i in fr}
        for k, fr in enumerate(fronts):
            for i in fr:
                for j in range(n):
                    if j != i and rank[j] >= k:
                        ctx.check(ctx.neg(dominates(ctx, N[j], N[i])), "no point of a front is dominated by a point of the same or a later front")
                if k > 0:
                    ctx.check(ctx.any([dominates(ctx, N[j], N[i]) for j in fronts[k - 1]]), "every point of a later front is dominated by one of the front before")

    SUITE.add(f"fast_non_dominated_sort({n} points, {m} objectives{tag(bits)})", fn, **o)


sort_case(1, 2)
sort_case(3, 2)
for b in parts(2):
    sort_case(3, 3, b)
sort_case(4, 2, tiers=("thorough",))


def efficient_case(n, m, bits=(), **o):
    def fn(ctx):
        Y = points(ctx, n, m)
        part(ctx, Y, bits)
        f = arr(Y)
        keep = f.copy()
        mask = ctx.choice("return_mask", (True, False))
        got = is_pareto_efficient(f, return_mask=mask)
        if mask:
            ctx.check(len(got) == n, "the mask has one entry per point")
            got = [i for i in range(n) if bool(got[i])]
        check_index_set(ctx, got, [[-v for v in r] for r in Y], "is_pareto_efficient")
        ctx.check(ctx.all([ctx.eq(a, b) for a, b in zip(f.ravel().tolist(), keep.ravel().tolist())]), "is_pareto_efficient leaves the caller's array as it is")

    SUITE.add(f"is_pareto_efficient({n} points, {m} objectives{tag(bits)})", fn, **o)


efficient_case(1, 2)
efficient_case(3, 2)
for b in parts(2):
    efficient_case(3, 3, b)
for b in parts(3):
    efficient_case(4, 2, b)
    efficient_case(4, 3, b, tiers=("thorough",))
