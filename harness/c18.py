"""C18  box decompositions partition the non-dominated space"""
from itertools import permutations

from bayes_optim.utils.multi_objective.box_decompositions import FastNondominatedPartitioning, NondominatedPartitioning
from bayes_optim.utils.multi_objective.box_decompositions.utils import compute_dominated_hypercell_bounds_2d, compute_non_dominated_hypercell_bounds_2d
from engine.case import Suite
from harness.c17 import union
from harness.mo import dominates, empty, geq, points, rows, strictly, tensor

SUITE = Suite("C18", bounds=["up to 3 points with 2 objectives, 2 points with 3 objectives (one added later), arbitrary reference point and arbitrary query point; dominated, equal and worse-than-reference points included"],
              outside=["more points or objectives", "approximate decompositions (alpha > 0)", "floating-point error", "points on the boundary of a cell"],
              assumptions=["torch operations are modelled by the facade in engine/torchfacade.py (exact reals)"])


def check_cells(ctx, bd, Y, ref, what):
    """the cells are disjoint, hold no dominated point and cover the rest"""
    m = len(ref)
    lo, up = rows(bd)
    x = [ctx.real(f"x{j}", -30, 30) for j in range(m)]
    ctx.assume(strictly(ctx, x, ref))
    dom = ctx.any([geq(ctx, y, x) for y in Y])
    inside = [ctx.all([ctx.all([a < v, v < b]) for a, b, v in zip(l, u, x)]) for l, u in zip(lo, up)]
    closed = [ctx.all([ctx.all([a <= v, v <= b]) for a, b, v in zip(l, u, x)]) for l, u in zip(lo, up)]
    for i, c in enumerate(inside):
        ctx.check(ctx.neg(ctx.all([c, dom])), f"{what}: no cell contains a dominated point")
        for d in inside[i + 1 :]:
            ctx.check(ctx.neg(ctx.all([c, d])), f"{what}: cells do not overlap")
    ctx.check(ctx.any([dom] + closed), f"{what}: every non-dominated point above the reference point lies in a cell")
    for l, u in zip(lo, up):
        ctx.check(ctx.all([a >= r for a, r in zip(l, ref)]), f"{what}: cells lie above the reference point")
        ctx.check(ctx.all([a <= b for a, b in zip(l, u)]), f"{what}: lower bounds do not exceed upper bounds")


def front_ok(ctx, bd, Y, ref, what):
    """pareto_Y holds the non-dominated points above the reference point, each once"""
    P = rows(bd.pareto_Y)
    eq = lambda a, b: ctx.all([ctx.eq(u, v) for u, v in zip(a, b)])
    for p in P:
        ctx.check(ctx.any([eq(p, y) for y in Y]), f"{what}: pareto_Y consists of given points")
        ctx.check(strictly(ctx, p, ref), f"{what}: pareto_Y lies above the reference point")
        for y in Y:
            ctx.check(ctx.neg(dominates(ctx, y, p)), f"{what}: pareto_Y is not dominated")
    for i, p in enumerate(P):
        for q in P[i + 1 :]:
            ctx.check(ctx.neg(eq(p, q)), f"{what}: pareto_Y has no duplicates")
    for y in Y:
        ctx.check(ctx.any([ctx.neg(strictly(ctx, y, ref))] + [geq(ctx, p, y) for p in P]), f"{what}: every other point is covered by pareto_Y")


def setup(ctx, n, m, above, order, distinct=False):
    ref = [ctx.real(f"r{j}", -10, 10) for j in range(m)] if not above else [0.0] * m
    Y = points(ctx, n, m, 0.001 if above is True else -20, 20)
    if order:
        for a, b in zip(order, order[1:]):
            ctx.assume(Y[a][0] <= Y[b][0] if a < b and not distinct else Y[a][0] < Y[b][0])
    if distinct:
        for a in range(n):
            for b in range(a):
                ctx.assume(ctx.neg(dominates(ctx, Y[a], Y[b])))
                ctx.assume(ctx.neg(dominates(ctx, Y[b], Y[a])))
                for j in range(m):
                    ctx.assume(ctx.neg(ctx.eq(Y[a][j], Y[b][j])))
    return Y, ref


def cells_case(cls, n, m, above=False, order=None, split=None, hv=True, distinct=False, **o):
    """split: the points from index `split` on are added with update()"""

    def fn(ctx):
        Y, ref = setup(ctx, n, m, above, order, distinct)
        if split is None:
            bd = cls(ref_point=tensor(ref), Y=tensor(Y) if n else empty(m))
        else:
            bd = cls(ref_point=tensor(ref), Y=tensor(Y[:split])) if split else cls(ref_point=tensor(ref))
            bd.update(tensor(Y[split:]))
        front_ok(ctx, bd, Y, ref, "decomposition")
        check_cells(ctx, bd.get_hypercell_bounds(), Y, ref, "decomposition")
        if hv:
            v = bd.compute_hypervolume()
            ctx.check_near(v.item(), union(Y, ref), "compute_hypervolume returns the dominated volume", tol=1e-7)
        ctx.check(ctx.all([ctx.eq(a, b) for a, b in zip(rows(bd.ref_point), ref)]), "the reference point is kept")

    o.setdefault("signs", True)
    u = "" if split is None else f", {n - split} added by update"
    SUITE.add(f"{cls.__name__}({n} points, {m} objectives{u}{', above the reference point' if above is True else ', reference point 0' if above else ''}{', Pareto front without ties' if distinct else ''}{', order ' + str(order) if order else ''})", fn, **o)


for C in (NondominatedPartitioning, FastNondominatedPartitioning):
    cells_case(C, 0, 2)
    cells_case(C, 0, 3)
    cells_case(C, 1, 2)
    cells_case(C, 2, 2)
    cells_case(C, 3, 2, above=True)
    cells_case(C, 2, 2, split=1)
    cells_case(C, 2, 2, split=0)
    cells_case(C, 3, 2, split=1, above=True, tiers=("thorough",))
    cells_case(C, 1, 3)
    cells_case(C, 2, 3, above=True)
    cells_case(C, 2, 3, split=1, above=True)
    cells_case(C, 2, 3, split=1, above="zero", hv=False)
    cells_case(C, 2, 3, tiers=("thorough",))
    cells_case(C, 2, 3, split=1, tiers=("thorough",))
    for p in permutations(range(3)):
        cells_case(C, 3, 3, above=True, order=p, distinct=True, split=None if C is NondominatedPartitioning else 2)
        cells_case(C, 3, 3, above=True, order=p, tiers=("thorough",))
        cells_case(C, 3, 3, above=True, order=p, split=2, tiers=("thorough",))
        cells_case(C, 3, 3, above=True, order=p, split=1, tiers=("thorough",))
    cells_case(C, 3, 2, tiers=("thorough",))
    cells_case(C, 4, 2, above=True, tiers=("thorough",))


def batch_case(cls, **o):
    """two fronts at once: each one is decomposed as if alone"""

    def fn(ctx):
        ref = [0.0, 0.0]
        A, B = points(ctx, 2, 2, -5, 20, name="a"), points(ctx, 2, 2, 0.001, 20, name="b")
        bd = cls(ref_point=tensor(ref), Y=tensor([A, B]))
        cells = rows(bd.get_hypercell_bounds())
        v = rows(bd.compute_hypervolume())
        k = ctx.choice("which", (0, 1))
        Y = (A, B)[k]
        # (padding repeats points, so that empty cells are allowed)
        check_cells(ctx, tensor([cells[0][k], cells[1][k]]), [y for y in Y], ref, "batched decomposition")
        ctx.check_near(v[k], union(Y, ref), "batched: compute_hypervolume returns the dominated volume", tol=1e-7)

    SUITE.add(f"{cls.__name__}(batch of 2 x 2 points)", fn, signs=True, **o)


batch_case(NondominatedPartitioning)
batch_case(FastNondominatedPartitioning)


def staircase(ctx, n, batch):
    """sorted fronts above the reference point"""
    ref = [ctx.real(f"r{j}", -10, 10) for j in range(2)]
    out = []
    for b in range(batch):
        Y = points(ctx, n, 2, -20, 20, name=f"y{b}_")
        for p in Y:
            ctx.assume(strictly(ctx, p, ref))
        for p, q in zip(Y, Y[1:]):
            ctx.assume(ctx.all([p[0] < q[0], p[1] > q[1]]))
        out.append(Y)
    return out, ref


def helper_case(n, batch):
    def fn(ctx):
        Ys, ref = staircase(ctx, n, batch)
        T = tensor(Ys if batch > 1 else Ys[0])
        k = ctx.choice("which", tuple(range(batch)))
        nd = rows(compute_non_dominated_hypercell_bounds_2d(T, tensor(ref)))
        d = rows(compute_dominated_hypercell_bounds_2d(T, tensor(ref)))
        if batch > 1:
            nd, d = [v[k] for v in nd], [v[k] for v in d]
        Y = Ys[k]
        check_cells(ctx, tensor(nd), Y, ref, "non-dominated cells")
        x = [ctx.real(f"z{j}", -30, 30) for j in range(2)]
        lo, up = d
        inside = [ctx.all([ctx.all([a < v, v < b]) for a, b, v in zip(l, u, x)]) for l, u in zip(lo, up)]
        closed = [ctx.all([ctx.all([a <= v, v <= b]) for a, b, v in zip(l, u, x)]) for l, u in zip(lo, up)]
        dom = ctx.all([strictly(ctx, x, ref), ctx.any([geq(ctx, y, x) for y in Y])])
        for i, c in enumerate(inside):
            ctx.check(ctx.implies(c, dom), "dominated cells hold only dominated points")
            for e in inside[i + 1 :]:
                ctx.check(ctx.neg(ctx.all([c, e])), "dominated cells do not overlap")
        ctx.check(ctx.implies(dom, ctx.any(closed)), "dominated cells cover the dominated space")

    SUITE.add(f"2-d cell bounds({n} points, batch {batch})", fn)


helper_case(1, 1)
helper_case(3, 1)
helper_case(2, 2)
