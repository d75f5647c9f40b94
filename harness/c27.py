"""C27  fmin: the best point, the counters and the trial points it returns are those of the run"""
import contextlib
import io

import numpy as np

import bayes_optim as pkg
import bayes_optim.base as base_mod
from bayes_optim.search_space import SearchSpace
from engine import sym
from engine.case import Suite
from harness.bo import FakeModel, quiet

SUITE = Suite("C27", bounds=["one or two variables, arbitrary bounds; up to three initial points, one or two points per iteration, up to five evaluations",
                             "arbitrary objective values in [-50, 50], initial points given with or without their values"],
              outside=["failed evaluations (left out of the returned trial points, see C10)", "termination without a budget"],
              assumptions=["SearchSpace.sample (decided by C01) and argmax_restart (C04, C19) return arbitrary points of the space, one from its own part of the box each",
                           "the surrogate model is replaced by one that records what it is fitted to, its training (C10) is left out"])


class Run:
    """the points proposed come from disjoint parts of the box, so that none is dropped as a duplicate"""

    def __init__(self, ctx, dim, lo=0.0, width=1.0):
        self.ctx, self.dim, self.n, self.lo, self.w = ctx, dim, 0, lo, width
        self.seen, self.vals, self.rest = [], [], []
        self.seeds = []

    def fresh(self):
        i = self.n
        self.n += 1
        return [self.ctx.real(f"p{i}.{j}", (4 * i + 1) / 64, (4 * i + 3) / 64) * self.w + self.lo for j in range(self.dim)]

    def install(self):
        ctx, me = self.ctx, self
        quiet(ctx)

        def sample(space, N=1, *a, **k):
            out = np.empty((N, me.dim), dtype=object if ctx.symbolic else float)
            for i in range(N):
                out[i] = me.fresh()
            return out

        ctx.patch(SearchSpace, "sample", sample)
        ctx.patch(base_mod, "argmax_restart", lambda *a, **k: (me.fresh(), 0.5))
        self.model = FakeModel(gradient=True)
        ctx.patch(pkg, "GaussianProcess", lambda *a, **k: me.model)
        def update_model(opt):
            opt.model.fit(opt.data, opt.data.fitness)
            opt.fmin, opt.fmax = -1.0, 1.0

        ctx.patch(base_mod.BaseBO, "update_model", update_model)
        ctx.patch(np.random, "seed", lambda s=None: me.seeds.append(s) if s is not None else None)

    def func(self, x, *rest):
        self.seen.append(list(x))
        self.rest.append(rest)
        if len(self.seen) > 12:
            raise RuntimeError("the budget is not respected")
        self.vals.append(self.ctx.real(f"y{len(self.vals)}", -50, 50))
        return self.vals[-1]


def best_ok(ctx, r, P, Y):
    x, f = list(np.asarray(r[0]).ravel()), np.asarray(r[1], dtype=object).ravel()[0]
    ctx.check(ctx.eq(f, ctx.min(Y)), "the best value")
    ctx.check(ctx.any([ctx.all([ctx.eq(f, y), ctx.seq_eq(x, p)]) for p, y in zip(P, Y)]), "the point with the best value")


def case(dim, form, n_point, doe):
    def fn(ctx):
        R = Run(ctx, dim)
        R.install()
        budget = ctx.choice("budget", (1, 3, 5))
        args = ctx.choice("args", ((), (3, "a")))
        lo, up = (0.0, 1.0) if form == "float" else (0, 1) if form == "int" else ([0.0] * dim, [1.0] * dim)
        with contextlib.redirect_stdout(io.StringIO()):
            r = pkg.fmin(R.func, lo, up, x0=doe, n_point=n_point, args=args, max_FEs=budget)
        ctx.check(isinstance(r, tuple) and len(r) == 5, "five results")
        xo, fo, it, ev, data = r
        ctx.check(all(a == args for a in R.rest), "extra arguments")
        ctx.check(ev == len(R.seen) == R.n, "every evaluation is counted")
        best_ok(ctx, r, R.seen, R.vals)
        sizes = [doe]
        while sum(sizes) < budget:
            sizes.append(n_point)
        ctx.check(it == len(sizes) and ev == sum(sizes), "stops with the iteration that exhausts the budget")
        ctx.check(len(data) == len(sizes), "one set of trial points per iteration")
        k = 0
        for d, s in zip(data, sizes):
            ctx.check(np.shape(d) == (s, dim), "number of trial points of an iteration")
            if np.shape(d) == (s, dim):
                ctx.check(ctx.all([ctx.seq_eq(list(d[i]), R.seen[k + i]) for i in range(s)]), "trial points of an iteration")
            k += s

    fn.__doc__ = f"{dim} variable(s), {form} bounds, {n_point} point(s) per iteration, {doe} initial points"
    return fn


for a in ((1, "float", 1, 2), (2, "list", 1, 3), (1, "int", 1, 1), (2, "list", 2, 1), (1, "list", 2, 3)):
    SUITE.add("run-" + "-".join(map(str, a)), case(*a), time_s=60)


def warm(given, n_point, ns=(1, 2), budgets=(1, 3)):
    def fn(ctx):
        R = Run(ctx, 2)
        R.install()
        n = ctx.choice("n", ns)
        X = [R.fresh() for _ in range(n)]
        how = ctx.choice("how", ("list", "array"))
        X0 = [list(x) for x in X] if how == "list" else np.array(X, dtype=object if ctx.symbolic else float)
        Y = [ctx.real(f"w{i}", -50, 50) for i in range(n)] if given else None
        budget = ctx.choice("budget", budgets)
        with contextlib.redirect_stdout(io.StringIO()):
            r = pkg.fmin(R.func, [0.0, 0.0], [1.0, 1.0], x0=X0, y0=None if Y is None else list(Y), n_point=n_point, max_FEs=budget)
        xo, fo, it, ev, data = r
        if given:
            pts, vals = R.seen, R.vals
        else:
            ctx.check(ctx.all([ctx.seq_eq(a, b) for a, b in zip(R.seen[:n], X)]), "the initial points are evaluated once, in order")
            Y, pts, vals = R.vals[:n], R.seen[n:], R.vals[n:]
        ctx.check(ev == len(pts), "every evaluation is counted")
        best_ok(ctx, r, X + pts, list(Y) + vals)
        m = -(-budget // n_point)
        ctx.check(it == m and len(pts) == m * n_point, "stops with the iteration that exhausts the budget")
        ctx.check(len(data) == m, "one set of trial points per iteration")
        for i, d in enumerate(data):
            ctx.check(np.shape(d) == (n_point, 2) and ctx.all([ctx.seq_eq(list(u), v) for u, v in zip(d, pts[i * n_point:(i + 1) * n_point])]),
                      "trial points of an iteration")
        Xf, yf = R.model.fits[0]
        ctx.check(len(Xf) == n and ctx.all([ctx.seq_eq(a, b) for a, b in zip(Xf, X)]), "the model learns from the initial points first")

    fn.__doc__ = f"initial points {'with' if given else 'without'} values, {n_point} point(s) per iteration"
    return fn


for g in (True, False):
    for n in (1, 2):
        SUITE.add(f"warm-{'y0' if g else 'eval'}-{n}", warm(g, n, (1, 2) if n == 1 else (2,)), time_s=60)
        SUITE.add(f"warm-{'y0' if g else 'eval'}-{n}-more", warm(g, n, (1, 2, 3), (1, 2, 3, 4)), tiers=("thorough",), time_s=400)


@SUITE.case(time_s=60)
def bounds(ctx):
    """the search space has the given bounds, the seed is the one given, the model gets both"""
    dim = ctx.choice("dim", (1, 2))
    how = ctx.choice("how", ("list", "scalar"))
    lo = [ctx.real(f"l{j}", -50, 50) for j in range(dim)]
    up = [ctx.real(f"u{j}", -50, 50) for j in range(dim)]
    ctx.assume(ctx.all([u - l >= 0.5 for l, u in zip(lo, up)]))
    seed = ctx.choice("seed", (None, 0, 7))
    if how == "scalar":
        ctx.assume(dim == 1)
    R = Run(ctx, dim)
    R.install()
    got = {}

    class Stop(Exception):
        pass

    def bo(**kw):
        got.update(kw)
        raise Stop

    def gp(*a, **k):
        got["model_kw"] = k
        return R.model

    ctx.patch(pkg, "BO", bo)
    ctx.patch(pkg, "GaussianProcess", gp)
    try:
        pkg.fmin(R.func, lo[0] if how == "scalar" else list(lo), up[0] if how == "scalar" else list(up), max_FEs=4, seed=seed)
    except Stop:
        pass
    sp = got["search_space"]
    ctx.check(sp.dim == dim and all(type(v).__name__ == "Real" for v in sp.data), "real variables")
    ctx.check(ctx.all([ctx.all([ctx.eq(b[0], l), ctx.eq(b[1], u)]) for b, l, u in zip(sp.bounds, lo, up)]), "the bounds")
    ctx.check(got["random_seed"] == seed and got["model_kw"]["random_state"] == seed, "the seed is handed on")
    ctx.check(got["max_FEs"] == 4 and got["n_point"] == 1 and got["minimize"] if "minimize" in got else got["max_FEs"] == 4, "the budget is handed on")
    k = got["model_kw"]
    ctx.check(ctx.all([ctx.all([ctx.near(k["thetaL"][j], 1e-3 * (up[j] - lo[j]), 1e-9), ctx.near(k["thetaU"][j], 1e3 * (up[j] - lo[j]), 1e-6)]) for j in range(dim)]),
              "length-scale bounds of the model")


@SUITE.case(time_s=60)
def seeds(ctx):
    """the generator is seeded with the given seed, zero included, before anything is drawn"""
    R = Run(ctx, 1)
    R.install()
    seed = ctx.choice("seed", (None, 0, 1, 42))
    with contextlib.redirect_stdout(io.StringIO()):
        pkg.fmin(R.func, 0.0, 1.0, x0=1, max_FEs=1, seed=seed)
    ctx.check(R.seeds == ([] if seed is None else [seed]), "the seed of the generator")
