"""C17  the hypervolume indicator is the dominated volume"""
from itertools import permutations

from bayes_optim.utils.multi_objective import Hypervolume
from engine.case import Suite
from harness.mo import dominates, empty, points, rows, tensor

SUITE = Suite("C17", bounds=["up to 4 points with 2 objectives, up to 3 points with 3 objectives, arbitrary reference point; points may be dominated, equal or worse than the reference point"],
              outside=["more points or objectives", "floating-point error"],
              assumptions=["torch operations are modelled by the facade in engine/torchfacade.py (exact reals)"])


def lower(a, b):
    """min, deciding the comparison (so that volumes stay polynomials)"""
    return a if bool(a <= b) else b


def union(pts, ref):
    """volume of the union of the boxes [ref, p]: inclusion-exclusion"""
    from itertools import combinations

    pts = [[max0(v - r) for v, r in zip(p, ref)] for p in pts]
    tot = 0.0
    for k in range(1, len(pts) + 1):
        for sub in combinations(range(len(pts)), k):
            v = 1.0
            for j in range(len(ref)):
                low = pts[sub[0]][j]
                for i in sub[1:]:
                    low = lower(low, pts[i][j])
                v = v * low
            tot = tot + v if k % 2 else tot - v
    return tot


def max0(v):
    return v if bool(v >= 0) else 0.0


def hv_case(n, m, front=False, order=None, above=False, distinct=False, **o):
    """front: the points form a Pareto front; order: the first objectives are in this order; above: reference point 0, points above it"""

    def fn(ctx):
        ref = [ctx.real(f"r{j}", -10, 10) for j in range(m)] if not above else [0.0] * m
        Y = points(ctx, n, m, 0 if above else -20, 20)
        if order:
            # ties belong to the first order that allows them
            for a, b in zip(order, order[1:]):
                ctx.assume(Y[a][0] <= Y[b][0] if a < b else Y[a][0] < Y[b][0])
        if distinct:
            for j in range(m):
                for a in range(n):
                    for b in range(a):
                        ctx.assume(ctx.neg(ctx.eq(Y[a][j], Y[b][j])))
        if front:
            for i in range(n):
                for k in range(n):
                    if k != i:
                        ctx.assume(ctx.neg(dominates(ctx, Y[k], Y[i])))
        h = Hypervolume(ref_point=tensor(ref))
        got = h.compute(tensor(Y))
        got = got.item() if hasattr(got, "item") else got
        ctx.check_near(got, union(Y, ref), "compute returns the volume between the reference point and the points", tol=1e-7)
        if n < 3:
            again = h.compute(tensor(Y))
            ctx.check_near(again.item() if hasattr(again, "item") else again, got, "a second call gives the same value", tol=1e-7)
        ctx.check(ctx.all([ctx.eq(a, b) for a, b in zip(rows(h.ref_point), ref)]), "the reference point is kept")

    SUITE.add(f"compute({n} points, {m} objectives{', Pareto front' if front else ''}{', above the reference point' if above else ''}{', no ties' if distinct else ''}{', order ' + str(order) if order else ''})", fn, **o)


@SUITE.case()
def no_points(ctx):
    m = ctx.choice("m", (2, 3))
    h = Hypervolume(ref_point=tensor([ctx.real(f"r{j}", -10, 10) for j in range(m)]))
    ctx.check(h.compute(empty(m)) == 0, "no points: volume 0")


hv_case(1, 2)
hv_case(2, 2)
hv_case(3, 2)
hv_case(1, 3)
hv_case(2, 3)
for p in permutations(range(3)):
    hv_case(3, 3, front=True, order=p, above=True, time_s=80)
    hv_case(3, 3, order=p, above=True, tiers=("thorough",))
for p in permutations(range(4)):
    hv_case(4, 2, order=p, above=True, tiers=("thorough",))
hv_case(3, 3, front=True, tiers=("thorough",))
hv_case(2, 4, above=True)
for p in ((0, 1, 2), (2, 0, 1)):
    hv_case(3, 4, front=True, order=p, above=True, distinct=True, tiers=("thorough",))
for p in permutations(range(4)):
    hv_case(4, 3, front=True, order=p, above=True, distinct=True, tiers=("thorough",))
