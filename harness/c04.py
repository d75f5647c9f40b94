"""C04  the inner optimisers and the constrained sampler never leave the search space"""
import numpy as np

from bayes_optim.acquisition.optim.mies import MIES
from bayes_optim.acquisition.optim.one_plus_one_cma_es import OnePlusOne_Cholesky_CMA, OnePlusOne_CMA
from bayes_optim.search_space import Bool, Discrete, Integer, Ordinal, Real, RealSpace, SearchSpace, Subset
from bayes_optim.search_space.samplers import SCMC
from engine import sym
from engine.case import Suite
from harness.lib import member, row_ok, same_val

SUITE = Suite("C04", bounds=["MIES: one generation (one arbitrary parent, one offspring; thorough: two and two), recombination of two arbitrary parents",
                             "(1+1)-CMA-ES: one step from an arbitrary point with an arbitrary step size (any later step is of this form), one or two variables",
                             "SCMC: proposals from two arbitrary points, three iterations of the schedule",
                             "arbitrary objective values and generator outcomes"],
              outside=["initial points given by the caller (x0)", "the distribution of the proposals"],
              assumptions=["normal draws within +-8, geometric draws at most 40"])


class Obj:
    """arbitrary objective values; remembers the points"""

    def __init__(self, ctx, space, t="f"):
        self.ctx, self.space, self.t, self.seen = ctx, space, t, []

    def __call__(self, x):
        row = list(x.tolist() if hasattr(x, "tolist") else x)
        self.seen.append(row)
        self.ctx.check(row_ok(self.ctx, self.space, [pyval(v) for v in row]), "an evaluated point is in the search space")
        return self.ctx.real(f"{self.t}{len(self.seen)}", -9, 9)


def pyval(v):
    return v.item() if isinstance(v, (np.integer, np.floating, np.bool_)) else v


SPACES = {
    "real": lambda: RealSpace([-5, 5], var_name="r"),
    "prec": lambda: RealSpace([-1, 2], var_name="r", precision=1),
    "int": lambda: SearchSpace([Integer([0, 9], "i")]),
    "step": lambda: SearchSpace([Integer([1, 12], "i", step=3)]),
    "cat": lambda: SearchSpace([Discrete(["A", 2, 2.5], "d"), Bool("b")]),
    "sub": lambda: SearchSpace([Subset(["u", "v"], "s"), Ordinal([1, 3, 7], "o")]),
    "mixed": lambda: SearchSpace([Discrete(["A", "B"], "d"), Real([-5, 5], "r"), Integer([0, 9], "i")]),
}


def any_row(ctx, space, t):
    out = []
    for v in space.data:
        k = type(v).__name__
        if k == "Real":
            if v.precision is None:
                out.append(ctx.real(f"{t}.{v.name}", v.bounds[0], v.bounds[1]))
            else:
                s = 10 ** v.precision
                out.append(ctx.int(f"{t}.{v.name}", int(v.bounds[0] * s), int(v.bounds[1] * s)) / s)
        elif k == "Integer":
            n = (v.bounds[1] - v.bounds[0]) // v.step
            out.append(v.bounds[0] + v.step * ctx.int(f"{t}.{v.name}", 0, n))
        else:
            out.append(ctx.choice(f"{t}.{v.name}", tuple(v.bounds)))
    return out


def stub_sample(ctx):
    """SearchSpace.sample (decided by C01): any points of the space"""
    n = [0]

    def sample(self, N=1, *a, **k):
        n[0] += 1
        out = np.empty((N, len(self.data)), dtype=object)
        for i in range(N):
            for j, v in enumerate(any_row(ctx, self, f"x{n[0]}.{i}")):
                out[i, j] = v
        return out

    ctx.patch(SearchSpace, "sample", sample)


def mies(kind, mu=1, lam=1, **kw):
    def fn(ctx):
        space = SPACES[kind]()
        stub_sample(ctx)
        obj = Obj(ctx, space)
        opt = MIES(space, obj, mu_=mu, lambda_=lam, max_eval=mu, minimize=ctx.choice("min", (True, False)), **kw)
        x, f, d = opt.optimize()
        ctx.check(len(obj.seen) == mu + lam, "one generation")
        ctx.check(row_ok(ctx, space, [pyval(v) for v in x]), "the returned point is in the search space")

    fn.__doc__ = f"MIES on {kind} variables, {mu} parents, {lam} offspring"
    return fn


for k in SPACES:
    SUITE.add(f"mies-{k}", mies(k), time_s=60)
SUITE.add("mies-elitist", mies("mixed", elitism=True), tiers=("thorough",), time_s=240)
for k in ("real", "step", "cat", "mixed"):
    SUITE.add(f"mies-{k}-2", mies(k, 2, 2), tiers=("thorough",), time_s=240)


@SUITE.case(time_s=60)
def mies_recombine(ctx):
    """recombination takes each coordinate from one of the parents"""
    space = SPACES["mixed"]()
    stub_sample(ctx)
    opt = MIES(space, Obj(ctx, space), mu_=2, lambda_=2, max_eval=2)
    P = opt.pop[:, :3].tolist()
    c = opt.recombine(0, ctx.choice("second", (0, 1))).tolist()
    ctx.check(all(ctx_true(ctx, ctx.any([same_val(ctx, c[j], p[j]) for p in P])) for j in range(3)), "a coordinate of a parent")
    ctx.check(same_rows(ctx, opt.pop[:, :3].tolist(), P), "the parents are kept")


def ctx_true(ctx, c):
    ctx.check(c, "a coordinate of a parent")
    return True


def same_rows(ctx, A, B):
    return ctx.all([same_val(ctx, a, b) for p, q in zip(A, B) for a, b in zip(p, q)])


def cma(cls, kind, dim=1, start=True):
    def fn(ctx):
        space = SPACES[kind]() * dim
        obj = Obj(ctx, space)
        kw = {}
        if start:  # from any point with any step size
            kw = {"x0": np.array(any_row(ctx, space, "x0")), "sigma0": ctx.real("sigma0", 0.001, 10)}
        opt = cls(search_space=space, obj_fun=obj, max_FEs=2, minimize=ctx.choice("min", (True, False)), **kw)
        x, f, d = opt.run()
        ctx.check(len(obj.seen) == 2, "one step")
        ctx.check(row_ok(ctx, space, [pyval(v) for v in list(x)]), "the returned point is in the search space")

    fn.__doc__ = f"{cls.__name__} on {dim} {kind} variables, one step"
    return fn


for c in (OnePlusOne_CMA, OnePlusOne_Cholesky_CMA):
    for k in ("real", "prec"):
        SUITE.add(f"{c.__name__}-{k}-step", cma(c, k, 1), time_s=60)
        SUITE.add(f"{c.__name__}-{k}-step-2d", cma(c, k, 2), tiers=("thorough",), time_s=240)
        SUITE.add(f"{c.__name__}-{k}-init", cma(c, k, 2, False), tiers=("quick", "thorough") if k == "real" else ("thorough",), time_s=60)


def no_move(cls, dim):
    def fn(ctx):
        """a step that is rounded back to where it started"""
        space = RealSpace([0, 4], precision=0) * dim
        obj = Obj(ctx, space)

        def fun(x):
            if len(obj.seen) == 1:
                ctx.assume(ctx.all([v == 2 for v in list(x)]))
            obj(x)
            return 0.0

        opt = cls(search_space=space, obj_fun=fun, x0=np.array([2.0] * dim), sigma0=0.25, max_FEs=2 + (dim == 1), minimize=True)
        x, f, d = opt.run()
        ctx.check(row_ok(ctx, space, [pyval(v) for v in list(x)]), "the returned point is in the search space")

    fn.__doc__ = f"{cls.__name__}: a step that is rounded back to where it started"
    return fn


for c in (OnePlusOne_CMA, OnePlusOne_Cholesky_CMA):
    SUITE.add(f"{c.__name__}-still", no_move(c, 1), time_s=60)


def scmc(kind, n=2, steps=1):
    def fn(ctx):
        space = SPACES[kind]()
        s = SCMC(space, lambda x: [0.0])
        X = np.empty((n, len(space.data)), dtype=object)
        for i in range(n):
            for j, v in enumerate(any_row(ctx, space, f"p{i}")):
                X[i, j] = v
        before = X.copy()
        t = ctx.choice("t", (0, 3)) if kind not in ("cat", "sub") else 0
        Y = s._rproposal(X, t)
        ctx.check(np.shape(Y) == np.shape(X), "shape")
        for r in Y.tolist():
            ctx.check(row_ok(ctx, space, [pyval(v) for v in r]), "a proposal is in the search space")
        ctx.check(ctx.all([same_val(ctx, a, b) for p, q in zip(X.tolist(), before.tolist()) for a, b in zip(p, q)]), "the current sample is kept")

    fn.__doc__ = f"SCMC proposals for {kind} variables"
    return fn


for k in SPACES:
    SUITE.add(f"scmc-{k}", scmc(k, 2 if k not in ("cat", "sub") else 1), time_s=60)
SUITE.add("scmc-cat-2", scmc("cat"), tiers=("thorough",), time_s=240)
