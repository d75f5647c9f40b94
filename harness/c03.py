"""C03  rounding, rescaling and box repair"""
import numpy as np

from bayes_optim.search_space import Bool, Discrete, Integer, Real, RealSpace, SearchSpace
from bayes_optim.surrogate.gaussian_process.boundary_handling import boundary_handling
from bayes_optim.utils import handle_box_constraint
from engine.case import Suite
from harness.lib import make_var, member, same_val

SUITE = Suite("C03", bounds=["box repair: 1-2 coordinates, up to three box widths outside the box, bounds in [-10, 10]",
                             "rounding: precision 0..2, values up to 50 away from zero, 1-2 rows, spaces of up to three variables"],
              outside=["boxes in which exactly one side is finite are only checked for 'unchanged'"])


def _grid_close(ctx, v, x, p):
    return ctx.abs(v - x) <= 0.5 * 10.0 ** (-p) + 1e-9


@SUITE.case()
def round_real(ctx):
    """RealSpace.round: in bounds, on the grid, nearest, idempotent; input not modified"""
    p = ctx.choice("p", [None, 0, 1, 2])
    lb, ub = ctx.real("lb", -20, 20), ctx.real("ub", -20, 20)
    ctx.assume(lb + 0.01 <= ub)
    s = RealSpace([lb, ub], precision=p)
    x = ctx.real("x", -50, 50)
    how = ctx.choice("how", ["list", "array"])
    X = [[x]] if how == "list" else ctx.array([[x]])
    Y = s.round(X)
    ctx.check(Y.shape == (1, 1), "shape")
    y = Y[0, 0]
    ctx.observe("y", y)
    if p is None:
        ctx.check(y == x, "no precision: unchanged")
    else:
        ctx.check(member(ctx, s.data[0], y), "in bounds and on the grid")
        inside = ctx.all([x >= lb, x <= ub])
        ctx.check(ctx.implies(inside, _grid_close(ctx, y, x, p)), "nearest grid point")
    ctx.check((X[0][0] if how == "list" else X[0, 0]) == x, "input kept")


@SUITE.case()
def round_idempotent(ctx):
    """rounding twice changes nothing when the bounds are on the grid"""
    p = ctx.choice("p", [0, 1, 2])
    v = Real([-4.0, 7.0], "r", precision=p)
    x = ctx.real("x", -50, 50)
    y = v.round(x)
    z = v.round(y)
    ctx.check(ctx.abs(z - y) <= 1e-9, "idempotent")
    ctx.check(ctx.all([y >= -4, y <= 7]), "in bounds")


@SUITE.case()
def round_mixed(ctx):
    """SearchSpace.round on a mixed space: reals by their own precision, other coordinates untouched"""
    order = ctx.choice("order", [0, 1, 2])
    a, b = Real([-5, 5], "a", precision=1), Real([0, 100], "b", precision=0)
    i, d = Integer([0, 9], "i"), Discrete(["u", "v"], "d")
    vs = [[a, i, b], [i, a, d, b], [b, d, a]][order]
    s = SearchSpace(vs)
    row, n = [], ctx.choice("n", [1, 2])
    rows = []
    for r in range(n):
        row = []
        for k, v in enumerate(vs):
            if isinstance(v, Real):
                row.append(ctx.real(f"x{r}{k}", -8, 120))
            elif isinstance(v, Integer):
                row.append(ctx.int(f"x{r}{k}", 0, 9))
            else:
                row.append("v")
        rows.append(row)
    X = np.empty((n, len(vs)), dtype=object)
    for r in range(n):
        for k in range(len(vs)):
            X[r, k] = rows[r][k]
    Y = s.round([list(r) for r in rows] if ctx.choice("how", [0, 1]) else X)
    ctx.check(Y.shape == (n, len(vs)), "shape")
    ctx.check(ctx.all([same_val(ctx, X[r, k], rows[r][k]) for r in range(n) for k in range(len(vs))]), "input kept")
    for r in range(n):
        for k, v in enumerate(vs):
            if isinstance(v, Real):
                ctx.check(member(ctx, v, Y[r, k]), "real coordinate in bounds and on its grid")
                ctx.check(ctx.implies(ctx.all([rows[r][k] >= v.bounds[0], rows[r][k] <= v.bounds[1]]),
                                      _grid_close(ctx, Y[r, k], rows[r][k], v.precision)), "nearest grid point")
            else:
                ctx.check(same_val(ctx, Y[r, k], rows[r][k]), "other coordinates untouched")


def box(ncoord, layout):
    def fn(ctx):
        lb = [ctx.real(f"lb{i}", -10, 10) for i in range(ncoord)]
        ub = [ctx.real(f"ub{i}", -10, 10) for i in range(ncoord)]
        x = []
        for i in range(ncoord):
            w = ub[i] - lb[i]
            ctx.assume(w >= 0.01)
            v = ctx.real(f"x{i}", -100, 100)
            ctx.assume(ctx.all([v >= lb[i] - 3 * w, v <= ub[i] + 3 * w]))
            x.append(v)
        if layout == "vec":
            X = ctx.array(x)
        elif layout == "row":
            X = ctx.array([x])
        else:
            X = ctx.array([[v] for v in x])
        Y = handle_box_constraint(X, ctx.array(lb), ctx.array(ub))
        ctx.check(np.shape(Y) == np.shape(X), "shape")
        Yf = list(np.asarray(Y).ravel())
        for i in range(ncoord):
            y, w = Yf[i], ub[i] - lb[i]
            ctx.check(ctx.all([y >= lb[i], y <= ub[i]]), "inside the box")
            ctx.check(ctx.implies(ctx.all([x[i] >= lb[i], x[i] <= ub[i]]), ctx.near(y, x[i], 1e-9)), "feasible points unchanged")
            ctx.check(ctx.implies(ctx.all([x[i] >= ub[i], x[i] <= ub[i] + w]), ctx.near(y, 2 * ub[i] - x[i], 1e-9)), "reflected at the upper bound")
            ctx.check(ctx.implies(ctx.all([x[i] <= lb[i], x[i] >= lb[i] - w]), ctx.near(y, 2 * lb[i] - x[i], 1e-9)), "reflected at the lower bound")
            # outside one width: period 2w
            ctx.check(ctx.implies(ctx.all([x[i] >= ub[i] + w, x[i] <= ub[i] + 2 * w]), ctx.near(y, x[i] - 2 * w, 1e-9)), "period two widths")

    fn.__doc__ = f"box repair of {ncoord} coordinate(s), {layout}"
    return fn


SUITE.add("box-1", box(1, "vec"), query_ms=15000)
SUITE.add("box-2", box(2, "vec"), query_ms=15000)
SUITE.add("box-row", box(2, "row"), query_ms=15000)
SUITE.add("box-3-col", box(3, "col"), tiers=("thorough",), query_ms=15000)


def box_cma(n, inf=False):
    def fn(ctx):
        """the repair used by the hyper-parameter search: one column per point"""
        dim = 2
        x = [[ctx.real(f"x{i}.{k}", -40, 40) for k in range(n)] for i in range(dim)]
        lb = [ctx.real(f"lb{i}", -10, 9) for i in range(dim)]
        ub = [ctx.real(f"ub{i}", -9, 10) for i in range(dim)]
        if inf:
            lb[1] = -np.inf if ctx.choice("side", ("both", "upper")) == "both" else -3.0
            ub[1] = np.inf
        for i in range(dim - inf):
            w = ub[i] - lb[i]
            ctx.assume(w >= 0.25)
            for v in x[i]:
                ctx.assume(ctx.all([v >= lb[i] - 3 * w, v <= ub[i] + 3 * w]))
        Y = boundary_handling(ctx.array([list(r) for r in x]), ctx.array(lb), ctx.array(ub))
        ctx.check(np.shape(Y) == (dim, n), "shape")
        for i in range(dim):
            for k in range(n):
                y, v, l, u = Y[i, k], x[i][k], lb[i], ub[i]
                if inf and i == 1:
                    ctx.check(y == v, "unbounded coordinates unchanged")
                    continue
                w = u - l
                ctx.check(ctx.all([y >= l - 1e-9, y <= u + 1e-9]), "inside the box")
                ctx.check(ctx.implies(ctx.all([v >= l, v < u]), ctx.near(y, v, 1e-9)), "feasible points unchanged")
                ctx.check(ctx.implies(ctx.all([v >= u, v < u + w]), ctx.near(y, 2 * u - v, 1e-9)), "reflected at the upper bound")
                ctx.check(ctx.implies(ctx.all([v < l, v >= l - w]), ctx.near(y, 2 * l - v, 1e-9)), "reflected at the lower bound")
                ctx.check(ctx.implies(ctx.all([v >= u + w, v < u + 2 * w]), ctx.near(y, v - 2 * w, 1e-9)), "period two widths")

    fn.__doc__ = f"box repair of {n} points in columns" + (", with an unbounded coordinate" if inf else "")
    return fn


SUITE.add("box-cma", box_cma(1), query_ms=15000)
SUITE.add("box-cma-inf", box_cma(2, True), query_ms=15000)


@SUITE.case()
def box_unbounded(ctx):
    """coordinates without two finite bounds stay as they are; the others are repaired"""
    x0, x1, x2 = ctx.real("x0", -9, 9), ctx.real("x1", -9, 9), ctx.real("x2", -9, 9)
    Y = handle_box_constraint(ctx.array([x0, x1, x2]), np.array([-np.inf, -4.0, 0.0]), np.array([np.inf, 4.0, np.inf]))
    ctx.check(ctx.all([Y[0] == x0, Y[2] == x2]), "unbounded coordinates unchanged")
    ctx.check(ctx.all([Y[1] >= -4, Y[1] <= 4]), "inside the box")


@SUITE.case(witnesses=64)
def box_edge(ctx):
    """the bounds themselves, on floats"""
    b = ctx.choice("b", [(-0.85, 0.22), (-0.44, 0.68), (-4.4, 1.98), (-0.61, 0.7), (-5.1, 4.9), (0.2, 0.9)])
    e = ctx.choice("e", [0, 1, 2])
    x = ctx.real("x", -10, 10)
    w = b[1] - b[0]
    ctx.assume(x == (b[0] if e == 0 else b[1] if e == 1 else b[0] - w))
    y = handle_box_constraint(ctx.array([x]), np.array([b[0]]), np.array([b[1]]))[0]
    ctx.check(ctx.all([y >= b[0], y <= b[1]]), "inside the box at its edges")


def scale_case(scale, lo, hi):
    def fn(ctx):
        lb, ub = ctx.real("lb", lo, hi), ctx.real("ub", lo, hi)
        ctx.assume(lb + 0.01 <= ub)
        v = Real([lb, ub], "r", scale=scale)
        s = RealSpace([lb, ub], scale=scale) if ctx.choice("space", [0, 1]) else SearchSpace([v, Bool("b")])
        T = v._bounds_transformed
        for k, b in ((0, lb), (1, ub)):
            if s.dim == 1:
                y = s.to_linear_scale([[T[k]]])[0, 0]
            else:
                Y = s.to_linear_scale([[T[k], True]])
                y = Y[0, 0]
                ctx.check(Y[0, 1] is True, "other coordinates untouched")
            ctx.check_near(y, b, "back-transformed bound", 1e-6)
        ctx.check(T[0] < T[1], "transform increasing")

    fn.__doc__ = f"{scale}: to_linear_scale undoes the scaling"
    return fn


for scale, lo, hi in (("linear", -100, 100), ("log", 1e-2, 1e2), ("log10", 1e-2, 1e2), ("bilog", -50, 50), ("logit", 0.02, 0.98)):
    SUITE.add(f"scale-{scale}", scale_case(scale, lo, hi), exp_mul=scale == "logit")
