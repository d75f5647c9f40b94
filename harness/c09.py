"""C09  ask: what is proposed can be evaluated"""
import numpy as np

import bayes_optim.base as base_mod
from bayes_optim.bayes_opt import BO, NoisyBO, ParallelBO
from bayes_optim.search_space import Bool, Discrete, Integer, Ordinal, Real, RealSpace, SearchSpace, Subset
from bayes_optim.utils.exception import AskEmptyError
from engine import sym
from engine.case import Suite
from harness.bo import NAMES, FakeModel, as_dict, make, mixed_space, point, quiet
from harness.lib import row_ok, same_val

SUITE = Suite("C09", bounds=["requests of one or two points, zero to two evaluated points with arbitrary values",
                             "none, one or two variables fixed to arbitrary admissible values", "points as lists and as dicts"],
              outside=["all variables fixed", "how good the proposed points are"],
              assumptions=["SearchSpace.sample (decided by C01) and argmax_restart (C04, C19) return arbitrary points of the space they are given, "
                           "argmax_restart also no point; one case runs the real sampling"])
LEV = ("A", "B", "C")


def any_value(ctx, var, t):
    k = type(var).__name__
    if k == "Real":
        return ctx.real(t, var.bounds[0], var.bounds[1])
    if k == "Integer":
        return ctx.int(t, var.bounds[0], var.bounds[1])
    if k == "Bool":
        return ctx.choice(t, (False, True)) if t[1:2] == "0" or "." not in t[:3] else True
    if t[1:2] in "123":
        return tuple(var.bounds)[0]
    return ctx.choice(t, tuple(var.bounds)[:2])


def any_point(ctx, space, t):
    return [any_value(ctx, v, f"{t}.{v.name}") for v in space.data]


class Sampler:
    """contract of SearchSpace.sample: any points of the space"""

    def __init__(self, ctx, fixed, names):
        self.ctx, self.calls, self.fixed, self.names = ctx, [], fixed, names

    def install(self):
        me = self

        def sample(self, N=1, method="uniform", h=None, g=None, tol=1e-2, *a, **k):
            c = len(me.calls)
            if c >= 4:
                me.ctx.assume(False)  # more attempts than the bound
            rows = [any_point(me.ctx, self, f"s{c}.{i}") for i in range(N)]
            me.calls.append([me.full(r, self) for r in rows])
            out = np.empty((N, len(self.data)), dtype=object)
            for i, r in enumerate(rows):
                for j, v in enumerate(r):
                    out[i, j] = v
            return out

        me.ctx.patch(SearchSpace, "sample", sample)
        return self

    def full(self, row, space):
        d = dict(zip(space.var_name, row))
        d.update(self.fixed or {})
        return [d[n] for n in self.names]


def distinct(ctx, p, q, margin=0.0):
    """the points differ (by more than the margin, if it is a real coordinate that differs)"""
    out = []
    for a, b in zip(p, q):
        if isinstance(a, (float, np.floating)) or (sym.is_sym(a) and a.__class__ is float):
            out.append(ctx.any([a - b > margin, b - a > margin]))
        else:
            out.append(ctx.neg(same_val(ctx, a, b)))
    return ctx.any(out)


def rows_of(ctx, X, dct, names=NAMES):
    ctx.check(isinstance(X, list) and all(isinstance(x, dict if dct else list) for x in X), "type of the points")
    if dct:
        ctx.check(all(set(x) == set(names) for x in X), "names of the variables")
        return [[x[n] for n in names] for x in X]
    ctx.check(all(len(x) == len(names) for x in X), "number of coordinates")
    return [list(x) for x in X]


def check_rows(ctx, rows, space, fixed, n, history, unique=True):
    ctx.check(1 <= len(rows) <= n, "number of points")
    for r in rows:
        ctx.check(row_ok(ctx, space, r), "a proposed point is in the search space")
        for k, v in (fixed or {}).items():
            ctx.check(same_val(ctx, r[list(space.var_name).index(k)], v), "a fixed variable keeps its value")
    if unique:
        for i, r in enumerate(rows):
            for s in rows[:i]:
                ctx.check(distinct(ctx, r, s), "no point is proposed twice")
            for s in history:
                ctx.check(distinct(ctx, r, s), "no evaluated point is proposed again")


FIXED = {"none": lambda ctx: None, "r": lambda ctx: {"r": ctx.real("fr", -5, 5)}, "d": lambda ctx: {"d": "C"}, "b": lambda ctx: {"b": False},
         "i": lambda ctx: {"i": ctx.int("fi", 0, 9)}, "di": lambda ctx: {"d": "A", "i": ctx.int("fi", 0, 9)}}


def same_rows(ctx, a, b):
    return len(a) == len(b) and ctx.all([same_val(ctx, u, v) for p, q in zip(a, b) for u, v in zip(p, q)])


def told(ctx, opt, n, dct):
    H = [point(ctx, f"h{i}", ("A", "B") if i else ("B",)) for i in range(n)]
    if n:
        opt.tell([as_dict(p) if dct else list(p) for p in H], [float(i) for i in range(n)])
    return H


def doe_case(dct, n, fx):
    def fn(ctx):
        fixed = FIXED[fx](ctx)
        opt = make(ctx, BO, eval_type="dict" if dct else "list", DoE_size=n)
        S = Sampler(ctx, fixed, NAMES).install()
        how = ctx.choice("how", ("default", "n_point"))
        kw = {} if fixed is None else {"fixed": dict(fixed)}
        try:
            X = opt.ask(**kw) if how == "default" else opt.ask(n_point=n, **kw)
        except AskEmptyError:
            ctx.fail("no point is proposed although nothing was evaluated")
        rows = rows_of(ctx, X, dct)
        check_rows(ctx, rows, opt.search_space, fixed, n, [])
        first = S.calls[0]
        sep = ctx.all([distinct(ctx, first[i], first[j], 1e-3) for i in range(len(first)) for j in range(i)])
        ctx.check(ctx.implies(sep, len(rows) == n), "as many points as requested")
        ctx.check(ctx.implies(sep, same_rows(ctx, rows, first)), "the sampled points are proposed")
        ctx.check(opt.eval_count == 0 and not hasattr(opt, "data"), "asking changes no data")

    fn.__doc__ = f"initial design, {'dict' if dct else 'list'}, {n} points, fixed {fx}"
    return fn


for d, n, fx in ((0, 1, "none"), (1, 2, "none"), (0, 2, "r"), (1, 1, "di"), (0, 2, "d"), (1, 2, "b"), (0, 1, "i")):
    SUITE.add(f"doe-{'dict' if d else 'list'}-{n}-{fx}", doe_case(bool(d), n, fx), time_s=45)


def model_case(cls, dct, n, fx, hist=2, empty=True):
    def fn(ctx):
        fixed = FIXED[fx](ctx)
        kw = {} if cls is BO else {"n_point": 2}
        opt = make(ctx, cls, eval_type="dict" if dct else "list", **kw)
        H = told(ctx, opt, hist, dct)
        got, spaces = [], []

        def argmax(obj_func, search_space, h=None, g=None, *a, **k):
            i = len(got)
            spaces.append(list(search_space.var_name))
            if empty and ctx.choice(f"empty{i}", (False, True)):
                got.append(None)
                return [], []
            p = any_point(ctx, search_space, f"c{i}")
            d = dict(zip(search_space.var_name, p))
            d.update(fixed or {})
            got.append([d[m] for m in NAMES])
            return p, 0.5

        ctx.patch(base_mod, "argmax_restart", argmax)
        S = Sampler(ctx, fixed, NAMES).install()
        ctx.user["no_tie"] = True
        kw = {} if fixed is None else {"fixed": dict(fixed)}
        if n != 1 or ctx.choice("n_point", (0, 1)):
            kw["n_point"] = n
        want_n = n if "n_point" in kw else (1 if cls is BO else 2)
        try:
            X = opt.ask(**kw)
        except AskEmptyError:
            # only when everything that was drawn is an evaluated point
            pool = [p for p in got if p is not None] + [p for c in S.calls for p in c]
            ctx.check(len(S.calls) > 0 and ctx.all([ctx.any([ctx.neg(distinct(ctx, p, h, 1e-3)) for h in H]) for p in pool]), "no point proposed although a new one was drawn")
            return
        rows = rows_of(ctx, X, dct)
        check_rows(ctx, rows, opt.search_space, fixed, want_n, H, cls is not NoisyBO)
        ctx.check(len(got) == want_n, "one optimisation of the acquisition function per point")
        ctx.check(all(s == [m for m in NAMES if m not in (fixed or {})] for s in spaces), "only the free variables are optimised")
        new = [p for p in got if p is not None]
        sep = [distinct(ctx, p, q, 1e-3) for i, p in enumerate(new) for q in H + new[:i]]
        if len(new) == want_n:
            ctx.check(ctx.implies(ctx.all(sep), same_rows(ctx, rows, new)), "the maximisers of the acquisition function are proposed")
        if cls is NoisyBO:
            ctx.check(same_rows(ctx, rows[:len(new)], new), "the maximisers are proposed even if evaluated before")
            ctx.check(len(rows) == want_n, "as many points as requested")
        ctx.check(opt.eval_count == len(H) and len(opt.data) == len(H), "asking changes no data")

    fn.__doc__ = f"{cls.__name__}.ask with a fitted model, {n} points, fixed {fx}"
    return fn


for cls, d, n, fx, h, e in ((BO, 0, 1, "none", 1, True), (BO, 1, 1, "r", 2, False), (BO, 0, 1, "d", 1, False), (BO, 1, 1, "di", 1, False),
                            (ParallelBO, 0, 2, "none", 1, False), (ParallelBO, 1, 2, "b", 1, False), (NoisyBO, 0, 2, "i", 1, True)):
    SUITE.add(f"model-{cls.__name__}-{'dict' if d else 'list'}-{n}-{fx}", model_case(cls, bool(d), n, fx, h, e), time_s=60)
for cls, d, n, fx, h, e in ((BO, 1, 1, "b", 2, True), (BO, 0, 1, "none", 2, True), (ParallelBO, 1, 2, "di", 2, True), (ParallelBO, 0, 2, "r", 2, True), (NoisyBO, 1, 2, "none", 2, True)):
    SUITE.add(f"model-{cls.__name__}-{'dict' if d else 'list'}-{n}-{fx}-deep", model_case(cls, bool(d), n, fx, h, e), tiers=("thorough",), time_s=240)


@SUITE.case(time_s=60)
def doe_real(ctx):
    """initial design with the real sampling routines, precision and step"""
    space = SearchSpace([Real([-5, 5], "r", precision=1), Integer([0, 9], "i", step=3), Discrete(["A", 2], "d")])
    opt = make(ctx, BO, space=space)
    n = 1
    fixed = {"d": 2} if ctx.choice("fix", (0, 1)) else None
    X = opt.ask(n_point=n, fixed=fixed)
    check_rows(ctx, rows_of(ctx, X, False, ("r", "i", "d")), space, fixed, n, [])


@SUITE.case(time_s=60)
def subsets(ctx):
    """points with subsets and ordinal levels: duplicates are recognised, new ones are kept"""
    space = SearchSpace([Subset(["u", "v"], "s"), Ordinal([1, 3], "o"), Bool("b")])
    opt = make(ctx, BO, space=space)
    h = [any_value(ctx, v, "h." + v.name) for v in space.data]
    opt.tell([list(h)], [1.0])
    c = [any_value(ctx, v, "c." + v.name) for v in space.data]
    ctx.patch(base_mod, "argmax_restart", lambda obj_func, search_space, *a, **k: (list(c), 0.5))
    other = [("u", "v"), 3, not h[2]]
    ctx.patch(SearchSpace, "sample", lambda self, N=1, *a, **k: arr([other] * N))
    rows = rows_of(ctx, opt.ask(), False, ("s", "o", "b"))
    same = all(a == b for a, b in zip(h, c))
    ctx.check(same_rows(ctx, rows, [other if same else c]), "a new point is proposed, an evaluated one is replaced")


def arr(rows):
    out = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            out[i, j] = v
    return out
