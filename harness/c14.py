"""C14  gradients given to the inner optimiser are the derivatives of the values"""
import numpy as np

import bayes_optim.acquisition.optim as optim_mod
import bayes_optim.base as base_mod
from bayes_optim.acquisition.acquisition_fun import EI, MGFI, PI, UCB, EpsilonPI
from bayes_optim.acquisition.optim import Penalized, argmax_restart
from bayes_optim.bayes_opt import BO
from bayes_optim.search_space import RealSpace
from engine import sym
from engine.case import Suite
from harness.bo import quiet
from harness.c13 import Pred, cdf, exp, pdf, scalar

SUITE = Suite("C14", bounds=["one point with two variables, arbitrary prediction, standard deviation and gradients of both, arbitrary parameters, both directions",
                             "zero or one fixed variable"],
              outside=["the gradients of the surrogate model itself (GP kernels: C15)", "predictions whose uncertainty is numerically zero"],
              assumptions=["normal cdf, pdf and exp are uninterpreted functions; the derivative is taken by the chain rule: cdf' = pdf, exp' = exp"])


def setting(ctx):
    y, s = ctx.real("y", -3, 3), ctx.real("s", 0.05, 2)
    dy = [ctx.real(f"dy{i}", -3, 3) for i in range(2)]
    dv = [ctx.real(f"dv{i}", -3, 3) for i in range(2)]  # of the variance
    mn = ctx.choice("minimize", (True, False))
    p = ctx.real("plugin", -3, 3)
    sg = 1 if mn else -1
    return y, s, dy, dv, mn, p, sg


def want(kind, y, s, dy, dv, p, sg, par):
    """value and derivative from the definition, minimising sg * prediction"""
    Y, P = sg * y, sg * p
    out = []
    for a, b in zip(dy, dv):
        Yd, sd = sg * a, b / (2 * s)
        if kind == "EI":
            u = (P - Y) / s
            out.append(-Yd * cdf(u) + sd * pdf(u))
        elif kind == "UCB":
            out.append(par * sd - Yd)
        elif kind in ("PI", "EpsilonPI"):
            c = par
            u = (P - c * Y) / s
            out.append(pdf(u) * (-c * Yd - u * sd) / s)
        else:
            t = par
            b_ = (P - Y + t * s * s) / s
            bd = (-Yd + 2 * t * s * sd) / s - b_ * sd / s
            e = exp(t * (P - Y - 1) + t * t * s * s / 2)
            out.append(e * (pdf(b_) * bd + cdf(b_) * (-t * Yd + t * t * s * sd)))
    return out


def grad_case(cls, deep=False):
    def fn(ctx):
        y, s, dy, dv, mn, p, sg = setting(ctx)
        if cls is MGFI and not deep:
            s = ctx.choice("sd", (0.5, 1.25))
        kw, par = {}, None
        if cls is UCB:
            par = kw["alpha"] = ctx.real("alpha", 0.01, 4)
        else:
            kw["plugin"] = p
        if cls is MGFI:
            par = kw["t"] = ctx.real("t", 0.01, 3)
        elif cls is EpsilonPI:
            e = kw["epsilon"] = ctx.real("eps", 0, 0.5)
            par = ctx.ite(sg * y > 0, 1 - e, 1 + e)
        elif cls is PI:
            par = 1
        f = cls(model=Pred(y, s, (dy, dv)), minimize=mn, **kw)
        v, g = f(np.array([[0.5, 1.5]]), return_dx=True)
        v0 = f(np.array([[0.5, 1.5]]))
        ctx.check_near(scalar(v), scalar(v0), "the value does not depend on return_dx", 1e-9)
        g = list(np.asarray(g).ravel())
        ctx.check(len(g) == 2, "one derivative per variable")
        for a, b in zip(g, want(cls.__name__, y, s, dy, dv, p, sg, par)):
            ctx.check_near(a, b, "derivative", 1e-8)
        ctx.observe("g", g)

    fn.__doc__ = f"gradient of {cls.__name__}"
    return fn


for c in (EI, UCB, PI, EpsilonPI, MGFI):
    SUITE.add(f"grad-{c.__name__}", grad_case(c), time_s=60, check_ms=20000)
SUITE.add("grad-MGFI-sd", grad_case(MGFI, True), tiers=("thorough",), time_s=240, check_ms=60000)


@SUITE.case(time_s=60)
def fixed(ctx):
    """with a fixed variable the criterion is that of the full point and its gradient that of the free variables"""
    y, s, dy, dv, mn, p, sg = setting(ctx)
    quiet(ctx)
    which = ctx.choice("fixed", ("none", "x0", "x1"))
    m = Pred(y, s, (dy, dv))
    opt = BO(search_space=RealSpace([-5, 5], var_name="x") * 2, model=m, minimize=mn, DoE_size=2, max_FEs=9, acquisition_fun="UCB", acquisition_par={"alpha": 0.5})
    names = list(opt.search_space.var_name)
    val = ctx.real("fixed value", -5, 5)
    fx = {} if which == "none" else {names[int(which[1])]: val}
    opt.tell([[0.0, 1.0], [1.0, 0.0]], [0.0, 1.0])
    crit = []

    def argmax(obj_func, search_space, *a, **k):
        crit.append(obj_func)
        return [4.0] * len(search_space.data), 0.5

    ctx.patch(base_mod, "argmax_restart", argmax)
    opt.ask(fixed=fx or None)
    free = [i for i, n in enumerate(names) if n not in fx]
    q = ctx.real("q", -5, 5)
    x = [q, 2.0][:len(free)]
    r = crit[0](np.array(x, dtype=object if ctx.symbolic else float))
    ctx.check(isinstance(r, tuple) and len(r) == 2, "value and gradient")
    v, g = r
    full = [0, 0]
    for i, n in enumerate(names):
        full[i] = val if n in fx else x[free.index(i)]
    ctx.check(ctx.seq_eq(m.seen[-1][0], full), "the full point is predicted")
    ctx.check_near(scalar(v), -sg * y + 0.5 * s, "value", 1e-8)
    g = list(np.asarray(g).ravel())
    w = want("UCB", y, s, dy, dv, p, sg, 0.5)
    ctx.check(len(g) == len(free), "one derivative per free variable")
    for a, i in zip(g, free):
        ctx.check_near(a, w[i], "derivative with respect to the free variable", 1e-8)


@SUITE.case(time_s=60)
def penalized(ctx):
    """what L-BFGS-B minimises: the negated criterion plus the penalty"""
    v = ctx.real("v", -5, 5)
    g = [ctx.real("g0", -5, 5), ctx.real("g1", -5, 5)]
    use = ctx.choice("use", ("none", "h", "g"))
    con = ctx.real("con", -2, 2)
    if use == "h":
        ctx.assume(ctx.any([abs(con) < 0.0999, abs(con) > 0.1001]))
    else:
        ctx.assume(ctx.any([con <= 0, con > 0.01]))
    func = lambda x: (np.array([v]), np.array(g, dtype=object if ctx.symbolic else float).reshape(-1, 1))
    P = Penalized(func, (lambda x: [con]) if use == "h" else None, (lambda x: [con]) if use == "g" else None)
    f, fg = P(np.array([0.5, 1.5]))
    f, fg = scalar(f), list(np.asarray(fg).ravel())
    ctx.check(len(fg) == 2, "size of the gradient")
    for a, b in zip(fg, g):
        ctx.check_near(a, -b, "negated gradient (constant penalty)", 1e-6)
    if use == "none":
        ctx.check_near(f, -v, "negated value", 1e-9)
    else:
        pen = f + v
        ok = con <= 0 if use == "g" else abs(con) <= 0.1
        ctx.check(ctx.iff(ok, ctx.near(f, -v, 1e-9)), "penalised exactly when a constraint is violated")
        ctx.check_le(-1e-9, pen, "the penalty makes the point worse")


@SUITE.case(time_s=60)
def penalized_gradient(ctx):
    """the gradient of a linear equality penalty"""
    a, b = ctx.real("a", 0.5, 2), ctx.real("b", -2, 2)
    x = [ctx.real("x0", 1, 3), ctx.real("x1", -1, 1)]
    func = lambda x: (np.array([0.0]), np.zeros((2, 1)))
    P = Penalized(func, lambda x: [a * x[0] + b * x[1] + 5.0], None)
    f, fg = P(np.array(x, dtype=object if ctx.symbolic else float))
    fg = list(np.asarray(fg).ravel())
    c = (scalar(f)) / (a * x[0] + b * x[1] + 5.0)
    ctx.check_near(fg[0], c * a, "derivative of the penalty", 1e-4)
    ctx.check_near(fg[1], c * b, "derivative of the penalty", 1e-4)
