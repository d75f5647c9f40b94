"""C22  fixed variables are filled in at their own places and callbacks get whole points of the declared form"""
import numpy as np

import bayes_optim.base as base_mod
from bayes_optim.bayes_opt import BO
from bayes_optim.search_space import Discrete, Integer, Real, RealSpace, SearchSpace, Subset
from bayes_optim.solution import Solution
from bayes_optim.utils.utils import fillin_fixed_value, func_with_list_arg, partial_argument
from engine.case import Suite
from harness.bo import FakeModel, quiet
from harness.lib import same_val

SUITE = Suite("C22", bounds=["three or four variables of different types, any proper subset of them fixed to arbitrary values, one or two points"],
              outside=["fixing every variable"], assumptions=[])
NAMES = ["r", "d", "i", "s"]


def space4():
    return SearchSpace([Real([-5, 5], "r"), Discrete(["A", "B"], "d"), Integer([0, 9], "i"), Subset(["u", "v"], "s")])


def any_point(ctx, t):
    return [ctx.real(f"{t}.r", -5, 5), ctx.choice(f"{t}.d", ("A", "B")), ctx.int(f"{t}.i", 0, 9), ctx.choice(f"{t}.s", (("u",), ("u", "v")))]


def subset(ctx, names, least=0):
    k = ctx.choice("fixed", tuple(range(least, 2 ** len(names) - 1)))
    return [n for i, n in enumerate(names) if k >> i & 1]


def same_rows(ctx, A, B):
    if len(A) != len(B):
        return False
    return ctx.all([False if len(p) != len(q) else ctx.all([same_val(ctx, u, v) for u, v in zip(list(p), list(q))]) for p, q in zip(A, B)])


@SUITE.case(time_s=60)
def fillin(ctx):
    """fillin_fixed_value"""
    space = space4()
    fx = subset(ctx, NAMES)
    full = [any_point(ctx, "p0"), any_point(ctx, "p1")]
    vals = {n: full[0][NAMES.index(n)] for n in fx}
    if ctx.choice("reverse", (False, True)):
        vals = dict(reversed(list(vals.items())))
    for p in full:
        for n in fx:
            p[NAMES.index(n)] = vals[n]
    n = ctx.choice("points", (1, 2))
    free = [i for i, v in enumerate(NAMES) if v not in fx]
    X = [[p[i] for i in free] for p in full[:n]]
    before, vb = [list(r) for r in X], dict(vals)
    out = fillin_fixed_value(X, vals, space)
    ctx.check(same_rows(ctx, out, full[:n]), "whole points")
    ctx.check(same_rows(ctx, X, before) and list(vals.items()) == list(vb.items()), "the arguments are kept")
    ctx.check(list(fillin_fixed_value([], vals, space)) == [], "nothing stays nothing")
    ctx.check(same_rows(ctx, fillin_fixed_value([list(r) for r in full], None, space), full), "nothing fixed")


def partial_case(form):
    def fn(ctx):
        fx = subset(ctx, NAMES)
        full = [any_point(ctx, "p0")] + ([any_point(ctx, "p1")] if form in ("rows", "array2") else [])
        vals = {n: full[0][NAMES.index(n)] for n in fx}
        for p in full:
            for n in fx:
                p[NAMES.index(n)] = vals[n]
        free = [i for i, v in enumerate(NAMES) if v not in fx]
        X = [[p[i] for i in free] for p in full]
        seen = []

        def func(x):
            seen.append([list(r) for r in x.tolist()])
            return ["res"]

        f = partial_argument(func, NAMES, dict(vals) or None)
        arr = np.empty((len(X), len(free)), dtype=object)
        for i, r in enumerate(X):
            for j, v in enumerate(r):
                arr[i, j] = v
        arg = arr if form == "array2" else arr[0] if form == "array" else [list(r) for r in X] if form == "rows" else list(X[0])
        if form in ("list", "rows") and 3 in free:
            return  # tuples inside nested lists: arrays are used by the callers
        r = f(arg)
        ctx.check(r == ["res"], "the result of the function")
        ctx.check(len(seen) == 1 and same_rows(ctx, seen[0], full), "the function gets whole points")

    fn.__doc__ = f"partial_argument, {form}"
    return fn


for f in ("list", "rows", "array", "array2"):
    SUITE.add(f"partial-{f}", partial_case(f), time_s=45)


@SUITE.case(time_s=45)
def reduce_output(ctx):
    """the derivatives with respect to the free variables, in order; the value is kept"""
    names = ["a", "b", "c"]
    fx = subset(ctx, names)
    free = [i for i, n in enumerate(names) if n not in fx]
    g = [ctx.real(f"g{i}", -3, 3) for i in range(3)]
    v = ctx.real("v", -3, 3)
    dt = object if ctx.symbolic else float
    shape = ctx.choice("shape", ("column", "row", "flat", "list"))
    G = np.array(g, dtype=dt)
    G = G.reshape(3, 1) if shape == "column" else G.reshape(1, 3) if shape == "row" else list(g) if shape == "list" else G
    f = partial_argument(lambda x: (np.array([v], dtype=dt), G), names, {n: 0.5 for n in fx}, reduce_output=True)
    out = f(np.array([1.5] * len(free)))
    ctx.check(isinstance(out, tuple) and len(out) == 2, "value and gradient")
    ctx.check(np.asarray(out[0]).ravel()[0] == v and np.size(out[0]) == 1, "the value")
    got = list(np.asarray(out[1], dtype=dt).ravel())
    ctx.check(len(got) == len(free), "one derivative per free variable")
    ctx.check(ctx.all([a == g[i] for a, i in zip(got, free)]), "the derivatives of the free variables in order")


def list_arg(mode):
    def fn(ctx):
        n = ctx.choice("points", (1, 2))
        pts = [any_point(ctx, "p0"), any_point(ctx, "p1")][:n]
        seen = []
        cv = [[ctx.real(f"c{i}.{j}", -1, 1) for j in range(2)] for i in range(2)]

        def con(x):
            ctx.check(isinstance(x, dict if mode == "dict" else (list, Solution, np.ndarray)), "a point of the declared type")
            seen.append([x[k] for k in NAMES] if mode == "dict" else list(x))
            return cv[len(seen) - 1]

        f = func_with_list_arg(con, mode, NAMES)
        arr = np.empty((n, 4), dtype=object)
        for i, p in enumerate(pts):
            for j, v in enumerate(p):
                arr[i, j] = v
        how = ctx.choice("how", ("rows", "one")) if n == 1 else "rows"
        r = f(arr if how == "rows" else arr[0])
        ctx.check(same_rows(ctx, seen, pts), "every point, in order")
        ctx.check(np.shape(r) == (2 * n,), "all constraint values")
        want = cv[0] + cv[1]
        ctx.check(ctx.all([a == b for a, b in zip(list(r), want)]), "in order")

    fn.__doc__ = f"func_with_list_arg, {mode}"
    return fn


for m in ("list", "dict"):
    SUITE.add(f"list_arg-{m}", list_arg(m), time_s=45)


def ask_con(mode, kind):
    def fn(ctx):
        """the constraints handed to the sampler and to the inner optimiser are those of the whole point"""
        quiet(ctx)
        space = SearchSpace([Real([-5, 5], "r"), Discrete(["A", "B"], "d"), Integer([0, 9], "i")])
        names = NAMES[:3]
        fx = subset(ctx, names)
        full = any_point(ctx, "p")[:3]
        vals = {n: full[names.index(n)] for n in fx}
        free = [i for i, n in enumerate(names) if n not in fx]
        c = ctx.real("c", -1, 1)
        seen, cons = [], []

        def con(x):
            ctx.check(isinstance(x, dict if mode == "dict" else list), "a point of the declared type")
            seen.append([x[k] for k in names] if mode == "dict" else list(x))
            return c

        opt = BO(search_space=space, model=FakeModel(), DoE_size=2, max_FEs=9, eval_type=mode, **{kind: con})
        key = "h" if kind == "eq_fun" else "g"
        sub = space.filter(fx, invert=True) if fx else space

        def use(fun):
            seen.clear()
            v = fun([full[i] for i in free])
            ctx.check(same_rows(ctx, seen, [full]), "the constraint is that of the whole point")
            ctx.check(np.size(v) == 1 and np.asarray(v).ravel()[0] == c, "its value")

        def sample(self, N=1, method=None, h=None, g=None, **k):
            ctx.check((h is None) == (key != "h") and (g is None) == (key != "g"), "the constraint is of the right kind")
            use(h or g)
            X = np.empty((N, len(free)), dtype=object)
            for r in range(N):
                for j, i in enumerate(free):
                    X[r, j] = (0.5 + r, "A", r)[i]
            return X

        ctx.patch(SearchSpace, "sample", sample)
        opt.ask(n_point=2, fixed=vals or None)
        opt.tell([dict(zip(names, p)) for p in ([0.0, "A", 1], [1.0, "B", 2])] if mode == "dict" else [[0.0, "A", 1], [1.0, "B", 2]], [0.5, 1.5])

        def argmax(obj_func, search_space, h=None, g=None, **k):
            ctx.check(list(search_space.var_name) == [names[i] for i in free], "only the free variables are optimised")
            ctx.check((h is None) == (key != "h") and (g is None) == (key != "g"), "the constraint is of the right kind")
            use(h or g)
            return [(2.5, "B", 7)[i] for i in free], 0.5

        ctx.patch(base_mod, "argmax_restart", argmax)
        opt.ask(fixed=vals or None)

    fn.__doc__ = f"constraints with fixed variables, {mode}, {kind}"
    return fn


for m in ("list", "dict"):
    for k in ("eq_fun", "ineq_fun"):
        SUITE.add(f"ask-{m}-{k}", ask_con(m, k), time_s=60)
