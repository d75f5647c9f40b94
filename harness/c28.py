"""C28  the criteria handed to the inner optimiser are those configured, scheduled or adapted"""
import numpy as np

import bayes_optim.base as base_mod
from bayes_optim.acquisition.acquisition_fun import EI, MGFI, PI, UCB, EpsilonPI
from bayes_optim.bayes_opt import BO, AnnealingBO, NoisyBO, ParallelBO, SelfAdaptiveBO
from bayes_optim.extension import MultiAcquisitionBO
from bayes_optim.search_space import RealSpace
from engine import sym
from engine.case import Suite
from harness.bo import FakeModel, quiet
from harness.c13 import scalar

SUITE = Suite("C28", bounds=["one variable, one prediction with arbitrary mean and standard deviation; two to four points per iteration, up to four iterations",
                             "arbitrary criterion parameters, normal deviates, schedules' start and end values, best values so far"],
              outside=["the logarithmic schedule (undocumented)", "epsilon-PI in batches (not implemented upstream)", "n_job > 1"],
              assumptions=["argmax_restart (C19) replaced by one returning arbitrary points and values", "exp and log are uninterpreted but inverse to each other and monotone",
                           "the surrogate model has one arbitrary prediction", "in batches the value of MGFI (C13) is replaced by a linear function of its parameter, the best value and the prediction"])


class Model(FakeModel):
    def __init__(self, ctx, at_data=()):
        super().__init__()
        self.ctx, self.m, self.s, self.at = ctx, ctx.real("mean", -3, 3), ctx.real("sd", 0.1, 2), at_data

    def predict(self, X, eval_MSE=False):
        n = len(np.atleast_2d(X))
        dt = object if self.ctx.symbolic else float
        y = np.array(list(self.at)[:n] if self.at and not eval_MSE else [self.m] * n, dtype=dt)
        return (y, np.array([self.s * self.s] * n, dtype=dt)) if eval_MSE else y


class Inner:
    """argmax_restart: remembers the criteria, returns one new point each"""

    def __init__(self, ctx, values=None):
        self.ctx, self.crit, self.values = ctx, [], values
        ctx.patch(base_mod, "argmax_restart", self)

    def __call__(self, obj_func, *a, **k):
        self.crit.append(obj_func)
        i = len(self.crit)
        return [-4.0 + 0.5 * i], self.values[i - 1] if self.values and i <= len(self.values) else float(i)

    def take(self):
        c, self.crit = self.crit, []
        return c


def build(ctx, cls, at_data=(), **kw):
    quiet(ctx)
    m = Model(ctx, at_data)
    opt = cls(search_space=RealSpace([-5, 5]), model=m, **{"DoE_size": 2, "max_FEs": 20, **kw})
    fmin, fmax = ctx.real("fmin", -2, 0), ctx.real("fmax", 0, 2)

    def update(*a, **k):
        m.is_fitted = True
        opt.fmin, opt.fmax, opt.frange = fmin, fmax, fmax - fmin

    ctx.patch(opt, "update_model", update)
    opt.tell([[-4.75], [-4.5]], [1.0, 2.0])
    return opt, m, fmin, fmax


def value(f):
    return scalar(f([0.25]))


def single(cls, names):
    def fn(ctx):
        mn = ctx.choice("minimize", (True, False))
        par = {n: ctx.real(n, 0.1, 1.5) for n in names if ctx.choice(f"has.{n}", (True, False))}
        given = dict(par)
        I = Inner(ctx)
        opt, m, lo, hi = build(ctx, BO, acquisition_fun=cls.__name__, acquisition_par=par, minimize=mn)
        for _ in range(2):
            opt.ask()
            c = I.take()
            ctx.check(len(c) == 1, "one criterion for one point")
            kw = dict(given)
            if cls is not UCB:
                kw.setdefault("plugin", lo if mn else hi)
            ctx.check_near(value(c[0]), value(cls(model=m, minimize=mn, **kw)), "the criterion asked for", 1e-9)
        ctx.check(set(par) == set(given) and ctx.all([ctx.eq(par[k], given[k]) for k in given]), "the parameters of the caller are kept")

    fn.__doc__ = f"BO with {cls.__name__}"
    return fn


for c, names in ((EI, ("plugin",)), (PI, ("plugin",)), (EpsilonPI, ("epsilon", "plugin")), (UCB, ("alpha",)), (MGFI, ("t", "plugin"))):
    SUITE.add(f"single-{c.__name__}", single(c, names), time_s=60)


def linear(ctx):
    """stand-in for the value of MGFI: linear in its parameter and in the best value so far"""
    ctx.patch(MGFI, "__call__", lambda self, X, return_dx=False: np.array([10 * self.t + self.plugin + self.model.m], dtype=object if ctx.symbolic else float))


def normals(ctx):
    linear(ctx)
    zs = []

    def randn(*a):
        assert not a
        zs.append(ctx.real(f"z{len(zs)}", -3, 3))
        return zs[-1]

    ctx.patch(np.random, "randn", randn)
    return zs


def parallel(n, cls=ParallelBO):
    def fn(ctx):
        mn = ctx.choice("minimize", (True, False))
        par = {}
        if ctx.choice("has.t", (True, False)):
            par["t"] = ctx.real("t", 0.1, 3)
        if ctx.choice("has.plugin", (True, False)) and cls is ParallelBO:
            par["plugin"] = ctx.real("plugin", -2, 2)
        given = dict(par)
        at = [ctx.real("d0", -2, 2), ctx.real("d1", -2, 2)] if cls is NoisyBO else ()
        I, zs = Inner(ctx), normals(ctx)
        opt, m, lo, hi = build(ctx, cls, at, n_point=n, acquisition_fun="MGFI", acquisition_par=par, minimize=mn)
        t0 = given.get("t", 1.0)
        for k in range(2):
            opt.ask()
            c = I.take()
            ctx.check(len(c) == n and len(zs) == n * (k + 1), "one criterion and one draw per point")
            best = (ctx.min(at) if mn else ctx.max(at)) if cls is NoisyBO else given.get("plugin", lo if mn else hi)
            for f, z in zip(c, zs[n * k:]):
                t = sym.fn1("exp", sym.fn1("log", t0) + 0.5 * z)
                ctx.assume(t <= 22)
                ctx.check_near(value(f), value(MGFI(model=m, minimize=mn, t=t, plugin=best)), "each point has its own parameter, drawn around the configured one", 1e-9)
        ctx.check(set(par) == set(given) and ctx.all([ctx.eq(par[k], given[k]) for k in given]), "the parameters of the caller are kept")

    fn.__doc__ = f"{cls.__name__}, {n} points: parameters per point"
    return fn


for n in (2, 3):
    SUITE.add(f"parallel-{n}", parallel(n), time_s=60)
SUITE.add("noisy-2", parallel(2, NoisyBO), time_s=60)


@SUITE.case(time_s=60)
def parallel_ucb(ctx):
    """UCB in batches: the weights stay in (0, 1), are monotone in the draws and do not drift"""
    mn = ctx.choice("minimize", (True, False))
    par = {"alpha": ctx.real("alpha", 0.1, 0.9)} if ctx.choice("has", (True, False)) else {}
    a = par.get("alpha", 0.5)
    I, zs = Inner(ctx), normals(ctx)
    opt, m, lo, hi = build(ctx, ParallelBO, n_point=2, acquisition_fun="UCB", acquisition_par=dict(par), minimize=mn)
    for k in range(2):
        opt.ask()
        c = I.take()
        ctx.check(len(c) == 2, "one criterion per point")
        for f, z in zip(c, zs[2 * k:]):
            w = 1 / (1 + sym.fn1("exp", (a * 4 - 2) + 0.6 * z))
            v = value(f)
            y = m.m if mn else -m.m
            ctx.check(ctx.all([v > -y - 1e-9, v < m.s - y + 1e-9]), "the weight is in (0, 1)")
            ctx.check_near(v, value(UCB(model=m, minimize=mn, alpha=w)), "the weight is drawn around the configured one", 1e-9)


def annealing(kind, fes, doe, n):
    def fn(ctx):
        t0, tf = ctx.real("t0", 0.2, 4), ctx.real("tf", 0.01, 1)
        ctx.assume(t0 > tf)
        I = Inner(ctx)
        linear(ctx)
        ctx.patch(np.random, "randn", lambda *a: 0.0)
        opt, m, lo, hi = build(ctx, AnnealingBO, t0=t0, tf=tf, schedule=kind, n_point=n, max_FEs=fes, DoE_size=doe, acquisition_fun="MGFI")
        iters = (fes - doe) / n
        want, ratio = t0, None
        for k in range(int(iters) + 1):
            opt.ask()
            c = I.take()
            ctx.check(len(c) == n, "one criterion per point")
            t = want if kind == "linear" else (t0 * (tf / t0) ** (k / iters) if k not in (0, iters) else (t0 if k == 0 else tf))
            for f in c:
                ctx.check_near(value(f), value(MGFI(model=m, t=t, plugin=lo)), "the parameter follows the schedule", 1e-7)
            want = want - (t0 - tf) / iters

    fn.__doc__ = f"AnnealingBO, {kind} schedule, {fes} evaluations, {doe} initial points, {n} points"
    return fn


for k in ("exp", "linear"):
    for f, d, n in ((6, 2, 2), (8, 2, 3), (8, 2, 2), (7, 2, 2)):
        SUITE.add(f"annealing-{k}-{f}-{d}-{n}", annealing(k, f, d, n), time_s=60)


def adaptive(n):
    def fn(ctx):
        vals = [ctx.real(f"v{i}", 0, 5) for i in range(n)]
        for i in range(n):
            for j in range(i):
                ctx.assume(ctx.neg(ctx.eq(vals[i], vals[j])))
        t = ctx.real("t", 0.1, 2)
        I, zs = Inner(ctx, vals), normals(ctx)
        opt, m, lo, hi = build(ctx, SelfAdaptiveBO, n_point=n, acquisition_fun="MGFI", acquisition_par={"t": t})
        opt.ask()
        c = I.take()
        ctx.check(len(c) == n, "one criterion per point")
        ts = [sym.fn1("exp", t * z) for z in zs[:n]]
        for f, x in zip(c, ts):
            ctx.assume(x <= 22)
            ctx.check_near(value(f), value(MGFI(model=m, t=x, plugin=lo)), "each point has its own parameter", 1e-9)
        h = n // 2
        new = 0
        for i in range(n):
            rank = sum(ctx.ite(vals[j] > vals[i], 1, 0) for j in range(n) if j != i)
            new = new + ctx.ite(rank < h, ts[i], 0.0)
        new = new / h
        opt.ask()
        c = I.take()
        for f, z in zip(c, zs[n:]):
            x = sym.fn1("exp", new * z)
            ctx.assume(x <= 22)
            ctx.check_near(value(f), value(MGFI(model=m, t=x, plugin=lo)), "the parameter is the mean of those of the better half", 1e-6)

    fn.__doc__ = f"SelfAdaptiveBO, {n} points"
    return fn


SUITE.add("adaptive-2", adaptive(2), time_s=60)
SUITE.add("adaptive-3", adaptive(3), time_s=60)
SUITE.add("adaptive-4", adaptive(4), time_s=60)


@SUITE.case(time_s=60)
def multi(ctx):
    """several criteria in turn"""
    mn = ctx.choice("minimize", (True, False))
    n = ctx.choice("n", (2, 3))
    I, zs = Inner(ctx), normals(ctx)
    opt, m, lo, hi = build(ctx, MultiAcquisitionBO, n_point=n, minimize=mn)
    for k in range(2):
        opt.ask()
        c = I.take()
        ctx.check(len(c) == n, "one criterion per point")
        for i, (f, z) in enumerate(zip(c, zs[n * k:])):
            if i % 2 == 0:
                t = sym.fn1("exp", 0.5 * z)
                ctx.check_near(value(f), value(MGFI(model=m, minimize=mn, t=t, plugin=lo if mn else hi)), "MGFI for the even points", 1e-9)
            else:
                w = 1 / (1 + sym.fn1("exp", (0.1 * 4 - 2) + 0.6 * z))
                ctx.check_near(value(f), value(UCB(model=m, minimize=mn, alpha=w)), "UCB for the odd points", 1e-9)
