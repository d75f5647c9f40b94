"""C13  acquisition functions rank candidates as defined"""
import numpy as np
from scipy.stats import norm

import bayes_optim.base as base_mod
from bayes_optim.acquisition.acquisition_fun import EI, MGFI, PI, UCB, EpsilonPI
from bayes_optim.bayes_opt import BO, NoisyBO, ParallelBO
from bayes_optim.search_space import RealSpace
from engine import sym
from engine.case import Suite
from harness.bo import FakeModel, make, quiet

SUITE = Suite("C13", bounds=["one candidate (UCB: also two) with arbitrary prediction and standard deviation, arbitrary best value and parameters, both directions",
                             "optimizers with two evaluated points, arbitrary values"],
              outside=["predictions whose uncertainty is numerically zero, where the criteria return zero by convention (only that is checked)", "overflow guards of MGFI (exponent beyond 700)"],
              assumptions=["normal cdf, pdf and exp are uninterpreted functions with true axioms (monotone, bounds, symmetry, pdf/cdf tail inequality)"])


class Pred(FakeModel):
    """a model with one prediction for every point"""

    def __init__(self, y, s, grad=None):
        super().__init__()
        self.y_, self.s_, self.g_ = y, s, grad
        self.seen = []

    def predict(self, X, eval_MSE=False):
        X = np.atleast_2d(X)
        n = len(X)
        self.seen.append([list(r) for r in X.tolist()])
        ys = [self.y_] * n if not isinstance(self.y_, list) else self.y_[:n]
        ss = [self.s_] * n if not isinstance(self.s_, list) else self.s_[:n]
        y = np.array(ys, dtype=object if any(sym.is_sym(v) for v in ys) else float)
        s2 = np.array([v * v for v in ss], dtype=object if any(sym.is_sym(v) for v in ss) else float)
        return (y, s2) if eval_MSE else y

    def gradient(self, X):
        d, d2 = self.g_ or ([0.0] * np.shape(X)[1],) * 2
        f = lambda v: np.array([v], dtype=object if any(sym.is_sym(x) for x in v) else float)
        return f(d), f(d2)


def cdf(x):
    return sym.fn1("cdf", x) if sym.is_sym(x) else float(norm.cdf(x))


def pdf(x):
    return sym.fn1("pdf", x) if sym.is_sym(x) else float(norm.pdf(x))


def exp(x):
    return sym.fn1("exp", x) if sym.is_sym(x) else float(np.exp(x))


def scalar(v):
    v = np.asarray(v).ravel()
    assert len(v) == 1
    return v[0]


def setting(ctx, smin=0.01, plug=True):
    y, s = ctx.real("y", -3, 3), ctx.real("s", smin, 2)
    mn = ctx.choice("minimize", (True, False))
    p = ctx.real("plugin", -3, 3)
    return y, s, mn, p, (p - y if mn else y - p)


@SUITE.case(time_s=30)
def ei(ctx):
    """EI = E[max(improvement, 0)]"""
    y, s, mn, p, d = setting(ctx)
    v = scalar(EI(plugin=p, model=Pred(y, s), minimize=mn)([[0.5]]))
    u = d / s
    ctx.check_near(v, d * cdf(u) + s * pdf(u), "expected improvement", 1e-9)
    ctx.check_le(-1e-9, v, "not negative")
    ctx.observe("v", v)


@SUITE.case(time_s=30)
def ei_zero(ctx):
    """no uncertainty: zero"""
    y = ctx.real("y", -3, 3)
    mn = ctx.choice("minimize", (True, False))
    v = EI(plugin=0.0, model=Pred(y, ctx.choice("s", (0.0, 1e-12))), minimize=mn)([[0.5]])
    ctx.check(scalar(v) == 0, "zero")
    v = MGFI(plugin=0.0, model=Pred(y, 0.0), minimize=mn)([[0.5]])
    ctx.check(scalar(v) == 0, "zero")


@SUITE.case(time_s=30)
def ucb(ctx):
    """UCB rewards good predictions and uncertainty"""
    y, s, mn, p, d = setting(ctx)
    a = ctx.real("alpha", 0.01, 4)
    f = UCB(alpha=a, model=Pred(y, s), minimize=mn)
    v = scalar(f([[0.5]]))
    ctx.check_near(v, (-y if mn else y) + a * s, "upper confidence bound", 1e-9)
    w = UCB(alpha=a, model=Pred([y, p], [s, s]), minimize=mn)(np.array([[0.5], [1.5]]))
    ctx.check(len(w) == 2, "one value per point")
    ctx.check(ctx.iff(w[0] >= w[1], (y <= p) if mn else (y >= p)), "the better prediction has the larger value")
    ctx.observe("v", v)


def pi_case(cls):
    def fn(ctx):
        y, s, mn, p, d = setting(ctx)
        eps = 0.0 if cls is PI else ctx.real("eps", 0, 0.5)
        f = cls(plugin=p, model=Pred(y, s), minimize=mn, **({} if cls is PI else {"epsilon": eps}))
        v = scalar(f([[0.5]]))
        yy, pp = (y, p) if mn else (-y, -p)
        u = (pp - ctx.ite(yy > 0, 1 - eps, 1 + eps) * yy) / s
        ctx.check_near(v, cdf(u), "probability of improvement", 1e-9)
        ctx.check(ctx.all([v >= 0, v <= 1]), "a probability")
        if cls is PI:
            ctx.check(ctx.iff(v >= 0.5, d >= 0), "more likely than not to improve exactly when the prediction improves")
        ctx.observe("v", v)

    fn.__doc__ = f"{cls.__name__}: probability of improvement"
    return fn


SUITE.add("pi", pi_case(PI), time_s=30)
SUITE.add("epsilon_pi", pi_case(EpsilonPI), time_s=30)


@SUITE.case(time_s=30)
def mgfi(ctx):
    """MGFI as published"""
    y, s, mn, p, d = setting(ctx)
    t = ctx.real("t", 0.01, 5)
    v = scalar(MGFI(t=t, plugin=p, model=Pred(y, s), minimize=mn)([[0.5]]))
    ctx.check_near(v, cdf((d + s * s * t) / s) * exp((d - 1) * t + s * s * t * t / 2), "moment generating function of the improvement", 1e-9)
    ctx.check_le(-1e-9, v, "not negative")
    ctx.observe("v", v)


@SUITE.case(time_s=30)
def mgfi_t(ctx):
    """the parameter is capped"""
    t = ctx.real("t", 0.01, 100)
    f = MGFI(t=t, plugin=0.0, model=Pred(0.0, 1.0))
    ctx.check(f.t == ctx.min([t, 22.36]), "t")


@SUITE.case(time_s=30)
def order(ctx):
    """a better prediction, or a more uncertain one, is never worth less"""
    mn = ctx.choice("minimize", (True, False))
    p = ctx.real("plugin", -3, 3)
    y1, y2 = ctx.real("y1", -3, 3), ctx.real("y2", -3, 3)
    s = ctx.real("s", 0.01, 2)
    ctx.assume(y1 < y2 if mn else y1 > y2)
    kind = ctx.choice("fun", ("UCB", "PI"))
    mk = {"UCB": lambda m: UCB(model=m, minimize=mn, alpha=0.5), "PI": lambda m: PI(model=m, minimize=mn, plugin=p)}[kind]
    a, b = scalar(mk(Pred(y1, s))([[0.0]])), scalar(mk(Pred(y2, s))([[0.0]]))
    ctx.check_le(b, a, "the better prediction is worth at least as much")


def data_plugin(cls):
    def fn(ctx):
        """without a plugin the best value of the model's data is used"""
        mn = ctx.choice("minimize", (True, False))
        m = Pred(ctx.real("y", -3, 3), 1.0)
        ys = [ctx.real(f"d{i}", -3, 3) for i in range(3)]
        m.y = np.array(ys, dtype=object if ctx.symbolic else float)
        f, g = cls(model=m, minimize=mn), cls(model=m, minimize=mn, plugin=ctx.min(ys) if mn else ctx.max(ys))
        ctx.check_near(scalar(f([[0.0]])), scalar(g([[0.0]])), "plugin from the data", 1e-9)

    fn.__doc__ = f"{cls.__name__}: default plugin"
    return fn


for c in (EI, PI):
    SUITE.add(f"plugin-{c.__name__}", data_plugin(c), time_s=30)


def opt_case(cls, fun, par, n):
    """the criterion handed to the inner optimiser"""

    def fn(ctx):
        mn = ctx.choice("minimize", (True, False))
        y, s = ctx.real("y", -3, 3), ctx.real("s", 0.1, 2)
        m = Pred(y, s)
        quiet(ctx)
        kw = {"acquisition_par": dict(par)} if par is not None else {}
        if cls is not BO:
            kw["n_point"] = 2
        if fun is not None:
            kw["acquisition_fun"] = fun
        given = kw.get("acquisition_par")
        opt = cls(search_space=RealSpace([-5, 5]) * 2, model=m, minimize=mn, DoE_size=2, max_FEs=9, **kw)
        Y = [ctx.real("Y0", -5, 5), ctx.real("Y1", -5, 5)]
        ctx.assume(ctx.any([Y[0] - Y[1] > 1e-3, Y[1] - Y[0] > 1e-3]))
        opt.tell([[0.0, 1.0], [1.0, 0.0]], Y)
        z = opt.model.fits[-1][1]  # the values the model has seen
        crit = []

        def argmax(obj_func, search_space, *a, **k):
            crit.append(obj_func)
            return [4.0 + len(crit), 4.0], 0.5

        ctx.patch(base_mod, "argmax_restart", argmax)
        opt.ask(n_point=n)
        ctx.check(len(crit) == n, "one criterion per point")
        name = fun or ("EI" if cls is BO else "MGFI")
        best = (ctx.min(z) if mn else ctx.max(z)) if cls is not NoisyBO else y
        d = best - y if mn else y - best
        for k, f in enumerate(crit):
            v = f([2.0, 3.0])
            v = scalar(v[0] if isinstance(v, tuple) else v)
            ctx.check(m.seen[-1] == [[2.0, 3.0]], "the prediction at the point asked for")
            if name == "EI":
                ctx.check_near(v, d * cdf(d / s) + s * pdf(d / s), "EI with the best value so far", 1e-8)
            elif name == "PI":
                ctx.check_near(v, cdf(d / s), "PI with the best value so far", 1e-8)
            elif name == "UCB":
                ctx.check_near(v, (-y if mn else y) + (given or {"alpha": 0.5})["alpha"] * s, "UCB with the given parameter", 1e-8)
            elif name == "MGFI" and n == 1:
                t = (given or {"t": 1 if cls is BO else 2})["t"]
                ctx.check_near(v, cdf((d + s * s * t) / s) * exp((d - 1) * t + s * s * t * t / 2), "MGFI with the given parameter", 1e-8)
        if given is not None:
            ctx.check(given == par, "the caller's parameters are kept")

    fn.__doc__ = f"{cls.__name__}, {fun}, {par}, {n} points"
    return fn


for i, (c, f, p, n) in enumerate(((BO, None, None, 1), (BO, "EI", {}, 1), (BO, "PI", None, 1), (BO, "UCB", {"alpha": 0.25}, 1), (BO, "MGFI", {"t": 3}, 1),
                                  (ParallelBO, "UCB", {"alpha": 0.75}, 1), (ParallelBO, "MGFI", {"t": 0.5}, 1), (NoisyBO, None, {"t": 3}, 1))):
    SUITE.add(f"opt-{c.__name__}-{f}-{i}", opt_case(c, f, p, n), time_s=45)


@SUITE.case(time_s=30)
def batch_parameters(ctx):
    """each point of a batch has its own positive parameter; the setting itself is kept"""
    quiet(ctx)
    fun = ctx.choice("fun", ("MGFI", "UCB"))
    par = {"t": 2} if fun == "MGFI" else {"alpha": 0.5}
    m = Pred(0.25, 1.0)
    opt = ParallelBO(search_space=RealSpace([-5, 5]) * 2, model=m, DoE_size=2, max_FEs=9, n_point=2, acquisition_fun=fun, acquisition_par=dict(par))
    opt.tell([[0.0, 1.0], [1.0, 0.0]], [0.0, 1.0])
    crit = []

    def argmax(obj_func, search_space, *a, **k):
        crit.append(obj_func)
        return [4.0 + len(crit), 4.0], 0.5

    ctx.patch(base_mod, "argmax_restart", argmax)
    opt.ask()
    ctx.check(len(crit) == 2, "one criterion per point")
    ctx.check(dict(opt._acquisition_par) == par, "the setting is kept")
