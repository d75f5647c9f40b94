"""C20  the penalty is zero exactly on feasible points and follows its formula"""
import numpy as np

from bayes_optim.bayes_opt import BO
from bayes_optim.search_space import Integer, Real, RealSpace, SearchSpace, Subset
from bayes_optim.utils.exception import ConstraintEvaluationError
from bayes_optim.utils.utils import dynamic_penalty
from engine import sym
from engine.case import Suite
from harness.bo import FakeModel, quiet

SUITE = Suite("C20", bounds=["one or two points, one or two constraints of each kind with arbitrary values, arbitrary coefficient, exponent 1, 1.5 or 2, threshold 0.1 or arbitrary"],
              outside=["other exponents"], assumptions=[])


def sq(x):
    return sym.fn1("sqrt", x) if sym.is_sym(x) else float(np.sqrt(x))


def pw(x, b):
    """x ** b for x >= 0"""
    return x if b == 1 else x * x if b == 2 else x * sq(x)


def arr(ctx, v, how):
    if how == "number":
        return v[0]
    return list(v) if how == "list" else np.array(v, dtype=object if ctx.symbolic else float)


def formula(n, nh, ng, beta=1.5, alpha=1, form="rows"):
    def fn(ctx):
        hv = [[ctx.real(f"h{i}.{j}", -2, 2) for j in range(nh)] for i in range(n)]
        gv = [[ctx.real(f"g{i}.{j}", -2, 2) for j in range(ng)] for i in range(n)]
        how = ctx.choice("how", ("list", "array")) if max(nh, ng) > 1 or n > 1 else ctx.choice("how", ("list", "array", "number"))
        mn = ctx.choice("minimize", (True, False))
        eps = ctx.real("eps", 0, 1)
        C = ctx.real("C", 0.1, 2)
        t = ctx.choice("t", (1, 4)) if alpha == 1 else 3
        rows = [[float(i), "AB"[i], i] for i in range(n)]
        if form == "rows":
            X = [list(r) for r in rows]
        elif form == "array":
            X = np.array(rows, dtype=object)
        elif form == "one":
            X = list(rows[0])
        else:
            X = np.array(rows[0], dtype=object)
        seen = {"h": [], "g": []}

        def con(k, vals):
            def f(x):
                x = list(x)
                seen[k].append(x)
                return arr(ctx, vals[x[2]], how)

            return f

        kw = {}
        if nh:
            kw["equality"] = con("h", hv)
        if ng:
            kw["inequality"] = con("g", gv)
        if beta != 1.5:
            kw["beta"] = beta
        if alpha != 1:
            kw["alpha"] = alpha
        p = dynamic_penalty(X, t, C=C, epsilon=eps, minimize=mn, **kw)
        ctx.check(np.shape(p) == (n,), "one penalty per point")
        for k, m in (("h", nh), ("g", ng)):
            ctx.check(all(r in seen[k] for r in rows) and all(r in rows for r in seen[k]) if m else not seen[k], "every constraint is evaluated at every point")
        for i in range(n):
            feas = ctx.all([abs(v) <= eps for v in hv[i]] + [v <= 0 for v in gv[i]])
            s = sum([ctx.ite(abs(v) <= eps, 0, abs(v)) for v in hv[i]]) + sum([ctx.ite(v <= 0, 0, pw(ctx.ite(v <= 0, 1, v), beta)) for v in gv[i]])
            want = (C * t if alpha == 1 else (C * t) * (C * t)) * s
            q = p[i] if mn else -p[i]
            ctx.check_near(q, want, "penalty", 1e-6)
            ctx.check(ctx.iff(feas, q == 0), "zero exactly on feasible points")
            ctx.check_le(0, q, "never an advantage")
        ctx.check(all(list(a) == b for a, b in zip(X if form in ("rows", "array") else [X], rows)), "the points are kept")
        ctx.observe("p", list(p))

    fn.__doc__ = f"{n} points, {nh} equalities, {ng} inequalities, exponent {beta}/{alpha}, {form}"
    return fn


for i, (n, h, g, b, a, f) in enumerate(((1, 1, 1, 1.5, 1, "rows"), (1, 0, 2, 1.5, 1, "one"), (1, 2, 0, 1.5, 1, "onearr"), (2, 0, 1, 1.5, 1, "array"), (1, 1, 1, 2, 1, "one"), (2, 1, 0, 1.5, 1, "rows"),
                                        (1, 1, 0, 1, 2, "one"), (1, 0, 0, 1.5, 1, "rows"))):
    SUITE.add(f"formula-{n}-{h}{g}-{b}-{a}-{f}", formula(n, h, g, b, a, f), time_s=60)
for i, (n, h, g, b, a, f) in enumerate(((2, 2, 2, 1.5, 1, "rows"), (1, 2, 2, 2, 2, "one"), (2, 1, 2, 1, 1, "array"))):
    SUITE.add(f"t-formula-{n}-{h}{g}-{b}-{a}-{f}", formula(n, h, g, b, a, f), tiers=("thorough",), time_s=240)


@SUITE.case(time_s=30)
def default(ctx):
    """the default coefficients"""
    g, h = ctx.real("g", -2, 2), ctx.real("h", -2, 2)
    t = ctx.choice("t", (1, 2, 7))
    p = dynamic_penalty([[0.5]], t, lambda x: [h], lambda x: [g])[0]
    ctx.check_near(p, 0.5 * t * (ctx.ite(abs(h) <= 0.1, 0, abs(h)) + ctx.ite(g <= 0, 0, pw(ctx.ite(g <= 0, 1, g), 1.5))), "default penalty", 1e-6)
    q = dynamic_penalty([[0.5]], t + 1, lambda x: [h], lambda x: [g])[0]
    ctx.check_le(p, q, "the penalty does not decrease with the iteration number")


@SUITE.case(time_s=30)
def error(ctx):
    """a constraint that fails is reported as such"""

    def bad(x):
        raise KeyError("x")

    k = ctx.choice("which", ("equality", "inequality"))
    try:
        dynamic_penalty([[0.5, 1.0]], 1, **{k: bad})
    except ConstraintEvaluationError:
        return
    ctx.fail("a failing constraint is reported")


@SUITE.case(time_s=45)
def tell(ctx):
    """constraints of an optimizer are evaluated at whole points of the declared type whatever the variables are"""
    quiet(ctx)
    first = ctx.choice("first", ("subset", "int"))
    mode = ctx.choice("mode", ("list", "dict"))
    kind = ctx.choice("kind", ("eq_fun", "ineq_fun"))
    c = ctx.real("c", -1, 1)
    space = SearchSpace([Subset(["u", "v"], "s") if first == "subset" else Integer([0, 9], "s"), Real([0, 1], "r")])
    pts = [[("u",) if first == "subset" else 3, 0.25], [("u", "v") if first == "subset" else 4, 0.5]]
    seen = []

    def con(x):
        ctx.check(isinstance(x, dict if mode == "dict" else list), "a point of the declared type")
        seen.append([x["s"], x["r"]] if mode == "dict" else list(x))
        return c

    opt = BO(search_space=space, model=FakeModel(), DoE_size=2, max_FEs=9, eval_type=mode, **{kind: con})
    opt.tell([dict(zip(("s", "r"), p)) for p in pts] if mode == "dict" else [list(p) for p in pts], [1.0, 2.0])
    ctx.check(all(s in pts for s in seen), "the constraints are evaluated at told points")
