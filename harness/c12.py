"""C12  maximising f is minimising -f"""
import numpy as np

import bayes_optim.base as base_mod
from bayes_optim.acquisition.acquisition_fun import EI, MGFI, PI, UCB, EpsilonPI
from bayes_optim.acquisition.optim.mies import MIES
from bayes_optim.acquisition.optim.one_plus_one_cma_es import OnePlusOne_Cholesky_CMA, OnePlusOne_CMA
from bayes_optim.bayes_opt import BO, NoisyBO, ParallelBO
from bayes_optim.search_space import RealSpace, SearchSpace
from bayes_optim.utils.utils import dynamic_penalty
from engine import sym
from engine.case import Suite
from harness.bo import FakeModel, mixed_space, point, quiet
from harness.c13 import Pred, scalar
from harness.lib import same_val

SUITE = Suite("C12", bounds=["up to three evaluated points with arbitrary values; one prediction; one step of (1+1)-CMA-ES and one generation of MIES"],
              outside=["ties between points, which may be broken differently"],
              assumptions=["both optimizers are given the same points and the same generator outcomes"])


def tell_case(cls, n):
    def fn(ctx):
        quiet(ctx)
        kw = {} if cls is BO else {"n_point": 2}
        sp = mixed_space()
        A = cls(search_space=mixed_space(), model=FakeModel(), DoE_size=2, max_FEs=n + 1, ftarget=ctx.real("t", -5, 5), minimize=True, **kw)
        B = cls(search_space=mixed_space(), model=FakeModel(), DoE_size=2, max_FEs=n + 1, ftarget=-A.ftarget, minimize=False, **kw)
        P = [point(ctx, f"p{i}") for i in range(n)]
        Y = [ctx.real(f"y{i}", -5, 5) for i in range(n)]
        A.tell([list(p) for p in P], list(Y))
        B.tell([list(p) for p in P], [-y for y in Y])
        ctx.check(ctx.all([same_val(ctx, a, b) for a, b in zip(A.xopt.tolist(), B.xopt.tolist())]), "same best point")
        ctx.check(A.xopt.fitness[0] == -B.xopt.fitness[0], "opposite best value")
        ctx.check(bool(A.check_stop()) == bool(B.check_stop()), "same stopping decision")
        ya, yb = A.model.fits[-1][1], B.model.fits[-1][1]
        ctx.check(ctx.all([ctx.near(a, -b, 1e-9) for a, b in zip(ya, yb)]), "opposite model outputs")
        ctx.check(ctx.near(A.fmin, -B.fmax, 1e-9), "opposite plugin")

    fn.__doc__ = f"{cls.__name__}: {n} points"
    return fn


SUITE.add("tell-BO", tell_case(BO, 2), time_s=60)
SUITE.add("tell-ParallelBO", tell_case(ParallelBO, 2), time_s=60)
SUITE.add("tell-BO-3", tell_case(BO, 3), tiers=("thorough",), time_s=240)


def acq_case(cls):
    def fn(ctx):
        y, s = ctx.real("y", -3, 3), ctx.real("s", 0.05, 2)
        dy, dv = [ctx.real("dy0", -3, 3), ctx.real("dy1", -3, 3)], [ctx.real("dv0", -3, 3), ctx.real("dv1", -3, 3)]
        p = ctx.real("plugin", -3, 3)
        if cls is MGFI:
            s = 0.75
        kw = {"t": ctx.real("t", 0.1, 3)} if cls is MGFI else {"alpha": ctx.real("alpha", 0.1, 3)} if cls is UCB else {"epsilon": ctx.real("eps", 0, 0.5)} if cls is EpsilonPI else {}
        f = cls(model=Pred(y, s, (dy, dv)), minimize=True, **kw, **({} if cls is UCB else {"plugin": p}))
        g = cls(model=Pred(-y, s, ([-v for v in dy], dv)), minimize=False, **kw, **({} if cls is UCB else {"plugin": -p}))
        x = np.array([[0.5, 1.5]])
        (a, ga), (b, gb) = f(x, return_dx=True), g(x, return_dx=True)
        ctx.check_near(scalar(a), scalar(b), "same value", 1e-9)
        for u, v in zip(np.asarray(ga).ravel(), np.asarray(gb).ravel()):
            ctx.check_near(u, v, "same gradient", 1e-8)

    fn.__doc__ = f"{cls.__name__}: criterion"
    return fn


for c in (EI, UCB, PI, EpsilonPI, MGFI):
    SUITE.add(f"acq-{c.__name__}", acq_case(c), time_s=60)


def es_case(cls, con=False):
    """the same generator outcomes are replayed for the second run"""

    def fn(ctx):
        space = lambda: RealSpace([-5, 5], var_name="r")
        x0 = np.array([ctx.real("x0", -5, 5)])
        f = [ctx.real(f"f{k}", -9, 9) for k in range(2)]
        gv = [ctx.real(f"g{k}", -1, 1) for k in range(2)]
        for a, b in ((f[0], f[1]),):
            ctx.assume(ctx.any([a - b > 1e-6, b - a > 1e-6]))
        res = []
        for sg in (1, -1):
            k = [0]

            def obj(x):
                k[0] += 1
                return sg * f[k[0] - 1]

            g = (lambda x: [gv[min(k[0], 2) - 1]]) if con else None
            reset_rng(ctx)
            opt = cls(search_space=space(), obj_fun=obj, x0=x0, sigma0=1.0, max_FEs=2, minimize=sg == 1, g=g)
            x, v, d = opt.run()
            res.append((list(x), v, opt.fopt_penalized, k[0]))
        (xa, va, pa, na), (xb, vb, pb, nb) = res
        ctx.check(na == nb, "same number of evaluations")
        ctx.check(ctx.all([u == w for u, w in zip(xa, xb)]), "same best point")
        ctx.check(va == -vb, "opposite best value")
        ctx.check_near(pa, -pb, "opposite penalised value", 1e-9)

    fn.__doc__ = f"{cls.__name__}{' with a constraint' if con else ''}"
    return fn


def reset_rng(ctx):
    np.random.seed(7)


for c in (OnePlusOne_CMA, OnePlusOne_Cholesky_CMA):
    SUITE.add(f"es-{c.__name__}", es_case(c), time_s=60)
    SUITE.add(f"es-{c.__name__}-con", es_case(c, True), time_s=60)


@SUITE.case(time_s=60)
def penalty(ctx):
    """the penalty has the opposite sign"""
    h, g = ctx.real("h", -2, 2), ctx.real("g", -2, 2)
    t = ctx.choice("t", (1, 3))
    X = [[0.5, 1.5]]
    a = dynamic_penalty(X, t, lambda x: [h], lambda x: [g], minimize=True)
    b = dynamic_penalty(X, t, lambda x: [h], lambda x: [g], minimize=False)
    ctx.check_near(a[0], -b[0], "opposite", 1e-9)
    ctx.check_le(0, a[0], "makes a minimised value worse")


@SUITE.case(time_s=60)
def mies(ctx):
    """MIES"""
    f = [ctx.real(f"f{k}", -9, 9) for k in range(2)]
    ctx.assume(ctx.any([f[0] - f[1] > 1e-6, f[1] - f[0] > 1e-6]))
    res = []
    start = ctx.real("start", -5, 5)
    seed = np.random.seed
    ctx.patch(np.random, "seed", lambda s=None: seed(s) if s is not None else None)  # creating a space draws a new seed
    ctx.patch(SearchSpace, "sample", lambda self, N=1, *a, **k: np.array([[start]] * N, dtype=object))
    for sg in (1, -1):
        k = [0]

        def obj(x):
            k[0] += 1
            return sg * f[k[0] - 1]

        reset_rng(ctx)
        x, v, d = MIES(RealSpace([-5, 5], var_name="r"), obj, mu_=1, lambda_=1, max_eval=1, minimize=sg == 1).optimize()
        res.append((list(x), v))
    ctx.check(ctx.all([u == w for u, w in zip(res[0][0], res[1][0])]), "same best point")
    ctx.check(res[0][1] == -res[1][1], "opposite best value")
