"""C21  the inner optimisers report the best point they evaluated and keep their state consistent"""
import numpy as np

from bayes_optim.acquisition.optim.mies import MIES
from bayes_optim.acquisition.optim.one_plus_one_cma_es import OnePlusOne_Cholesky_CMA, OnePlusOne_CMA
from bayes_optim.search_space import RealSpace, SearchSpace
from engine import sym
from engine.case import Suite
from harness.c04 import SPACES, any_row, pyval, stub_sample
from harness.lib import same_val

SUITE = Suite("C21", bounds=["(1+1)-CMA-ES: up to three evaluations (thorough: four) with arbitrary objective and constraint values, zero or one restart",
                             "MIES: one to three parents and offspring, one generation (thorough: two), arbitrary objective and constraint values",
                             "covariance update: one or two variables, arbitrary step and evolution path, success rate below and above the threshold"],
              outside=["convergence", "evaluations made by restarts beyond max_FEs"],
              assumptions=["normal draws within +-8"])


def obj_for(ctx, X, Y, G=None, t=""):
    def obj(x):
        X.append([pyval(v) for v in list(x.tolist() if hasattr(x, "tolist") else x)])
        Y.append(ctx.real(f"{t}f{len(Y)}", -9, 9))
        return Y[-1]

    return obj


def same(ctx, a, b):
    return ctx.all([same_val(ctx, pyval(u), pyval(v)) for u, v in zip(list(a), list(b))])


def no_cov(ctx, cls):
    """the covariance (cases cov-*) does not matter here"""
    ctx.patch(cls, "_update_covariance", lambda self, z: None)


def cma_run(cls, n, target=False):
    def fn(ctx):
        no_cov(ctx, cls)
        space = RealSpace([-5, 5], var_name="r")
        mn = ctx.choice("minimize", (True, False))
        X, Y = [], []
        tgt = ctx.real("target", -9, 9) if target else None
        opt = cls(search_space=space, obj_fun=obj_for(ctx, X, Y), x0=np.array([ctx.real("x0", -5, 5)]), sigma0=1.0, max_FEs=n, minimize=mn, ftarget=tgt)
        x, f, d = opt.run()
        k = len(Y)
        best = ctx.min(Y) if mn else ctx.max(Y)
        ctx.check(f == best, "the best value evaluated")
        ctx.check(ctx.any([ctx.all([y == best, same(ctx, p, x)]) for p, y in zip(X, Y)]), "a point with that value")
        ctx.check(opt.eval_count == k <= max(n, 2), "evaluations are counted and bounded")
        hit = lambda m: ctx.any([(y <= tgt if mn else y >= tgt) for y in Y[:m]]) if target else False
        ctx.check(("FEs" in d) == (k >= n), "reason: budget")
        ctx.check(ctx.iff("ftarget" in d, hit(k)), "reason: target")
        for m in range(2, k):
            ctx.check(ctx.neg(hit(m)), "stops when the target is met")
        if k < n and not target:
            ctx.check(bool(d), "stops early for a reason")

    fn.__doc__ = f"{cls.__name__}: {n} evaluations{', with a target' if target else ''}"
    return fn


for c in (OnePlusOne_CMA, OnePlusOne_Cholesky_CMA):
    SUITE.add(f"run-{c.__name__}", cma_run(c, 3), time_s=60)
    SUITE.add(f"run-{c.__name__}-target", cma_run(c, 2, True), time_s=60)
    SUITE.add(f"run-{c.__name__}-target-3", cma_run(c, 3, True), time_s=120)
    SUITE.add(f"run-{c.__name__}-4", cma_run(c, 4), tiers=("thorough",), time_s=240)


def cma_con(cls, n=3, kind="g"):
    """told points with arbitrary values and penalties"""

    def fn(ctx):
        no_cov(ctx, cls)
        space = RealSpace([-5, 5], var_name="r")
        mn = ctx.choice("minimize", (True, False))
        sg = 1 if mn else -1
        f0, p0 = ctx.real("f0", -9, 9), ctx.real("p0", 0, 3)
        con = lambda x: [-1.0]
        opt = cls(search_space=space, obj_fun=lambda x: f0, x0=np.array([0.5]), sigma0=1.0, max_FEs=99, minimize=mn)
        opt.fopt_penalized = f0 + sg * p0
        best, bx = f0, [0.5]  # reported so far
        feas = p0 == 0
        last = f0 + sg * p0
        for k in range(1, n):
            x, y, p = [ctx.real(f"x{k}", -5, 5)], ctx.real(f"f{k}", -9, 9), ctx.real(f"p{k}", 0, 3)
            opt.tell(np.array(x, dtype=object if ctx.symbolic else float), y, sg * p)
            pen = sg * y + p
            acc = pen <= sg * last
            ctx.check_near(opt.fopt_penalized, ctx.ite(acc, y + sg * p, last), "the penalised value of the accepted point", 1e-9)
            ctx.check(ctx.iff(acc, same(ctx, opt._x, x)) if False else ctx.implies(acc, same(ctx, opt._x, x)), "an improvement is the next centre")
            take = ctx.all([acc, p == 0])
            ctx.check(ctx.implies(take, ctx.all([opt.fopt == y, same(ctx, opt.xopt, x)])), "a feasible improvement is reported")
            ctx.check(ctx.implies(ctx.neg(take), ctx.all([opt.fopt == best, same(ctx, opt.xopt, bx)])), "anything else leaves the report as it is")
            last = ctx.ite(acc, y + sg * p, last)
            best, bx = opt.fopt, [v for v in list(opt.xopt)]
        ctx.observe("fopt", opt.fopt)

    fn.__doc__ = f"{cls.__name__}: told points with arbitrary values and penalties"
    return fn


for c in (OnePlusOne_CMA, OnePlusOne_Cholesky_CMA):
    SUITE.add(f"tell-{c.__name__}", cma_con(c), time_s=60)


def cma_g(cls, kind):
    def fn(ctx):
        space = RealSpace([-5, 5], var_name="r")
        mn = ctx.choice("minimize", (True, False))
        X, Y, C = [], [], {}
        c = [ctx.real(f"c{k}", -1, 1) for k in range(2)]
        obj = obj_for(ctx, X, Y)
        con = lambda x: [c[len(Y) - 1]]
        opt = cls(search_space=space, obj_fun=obj, x0=np.array([0.5]), sigma0=1.0, max_FEs=2, minimize=mn, **{kind: con})
        x, f, d = opt.run()
        if len(Y) != 2:
            return
        bad = lambda v: ctx.neg(v <= 0) if kind == "g" else ctx.neg(abs(v) <= 0.1)
        sg = 1 if mn else -1
        ctx.check(ctx.any([ctx.all([f == y, same(ctx, x, p)]) for p, y in zip(X, Y)]), "an evaluated point with its value")
        second = ctx.all([f == Y[1], same(ctx, x, X[1])])
        first = ctx.all([f == Y[0], same(ctx, x, X[0])])
        ctx.check(ctx.implies(bad(c[1]), first), "an infeasible point never replaces the reported one")
        ctx.check(ctx.implies(ctx.all([ctx.neg(bad(c[1])), sg * Y[1] <= sg * Y[0]]), second), "a better feasible point is reported")
        ctx.check(ctx.implies(ctx.all([ctx.neg(bad(c[0])), sg * Y[1] > sg * Y[0]]), first), "a worse point does not replace a feasible one")

    fn.__doc__ = f"{cls.__name__} with a constraint {kind}"
    return fn


for c in (OnePlusOne_CMA, OnePlusOne_Cholesky_CMA):
    for k in ("g", "h"):
        SUITE.add(f"con-{c.__name__}-{k}", cma_g(c, k), time_s=60)


def restart(cls):
    def fn(ctx):
        """restarting keeps the best point, resets the state and happens at most n_restart times"""
        no_cov(ctx, cls)
        space = RealSpace([-5, 5], var_name="r")
        mn = ctx.choice("minimize", (True, False))
        X, Y = [], []
        nr = ctx.choice("n_restart", (0, 1))
        opt = cls(search_space=space, obj_fun=obj_for(ctx, X, Y), x0=np.array([0.5]), sigma0=1.0, max_FEs=99, minimize=mn, n_restart=nr, ftol=1e9, xtol=1e-9)
        opt._delta_f = 0.0  # stagnation
        a = 2.0
        (setattr(opt, "C", np.array([[a * a]])) if cls is OnePlusOne_CMA else setattr(opt, "A", np.array([[a]])))
        opt.pc = np.array([0.25])
        steps = 0
        while not opt._stop and steps < 3:
            opt.step()
            steps += 1
            if steps == 1 and nr and not opt._stop:
                ctx.check(opt._sigma == 1.0 and list(opt.pc) == [0.0] and opt._A.tolist() == [[1.0]], "a restart begins with the initial step size and covariance")
                ctx.check(opt.stop_dict == {} and opt.n_restart == 0, "the reason for the restart is forgotten")
                ctx.check(same(ctx, opt._x, X[-1]), "a restart begins at the new point")
            opt._delta_f = 0.0
        ctx.check(steps == nr + 1 and opt._stop, "one more stagnation than restarts ends the run")
        ctx.check(len(Y) == 1 + steps + nr == opt.eval_count, "a restart evaluates one point")
        best = ctx.min(Y) if mn else ctx.max(Y)
        ctx.check(opt.fopt == best, "the best value of all restarts")
        ctx.check(ctx.any([ctx.all([y == best, same(ctx, p, opt.xopt)]) for p, y in zip(X, Y)]), "a point with that value")

    fn.__doc__ = f"{cls.__name__}: restarts"
    return fn


for c in (OnePlusOne_CMA, OnePlusOne_Cholesky_CMA):
    SUITE.add(f"restart-{c.__name__}", restart(c), time_s=60)


def mm(A, B):
    n = len(A)
    return [[sum(A[i][k] * B[k][j] for k in range(n)) for j in range(len(B[0]))] for i in range(n)]


def tr(A):
    return [list(r) for r in zip(*A)]


def cov(cls, dim, rate, zs=1):
    def fn(ctx):
        """the covariance is (1 - c) C + c p p' with the updated evolution path p"""
        space = RealSpace([-5, 5], var_name="r") * dim
        cc, c = 0.2, 0.75
        opt = cls(search_space=space, obj_fun=lambda x: 0.0, x0=np.zeros(dim), sigma0=1.0, max_FEs=99, cc=cc, ccov=c)
        dt = object if ctx.symbolic else float
        z = [ctx.real(f"z{i}", -2, 2) if i < zs else 0.5 for i in range(dim)]
        pc0 = [ctx.choice("p0", (0.0, 1.5)), -0.5][:dim]
        opt.pc = np.array(pc0, dtype=dt)
        opt.success_rate = rate
        A0 = [[ctx.choice("a", (0.5, 2.0))]] if dim == 1 else [[1.0, 0.0], [0.5, 0.25]]
        C0 = mm(A0, tr(A0))
        if cls is OnePlusOne_CMA:
            opt.C = np.array(C0)
        else:
            opt.A = np.array(A0)
        for M in ("_C", "_A", "_A_inv"):
            if ctx.symbolic and hasattr(opt, M):
                setattr(opt, M, getattr(opt, M).astype(object))
        low = rate < opt.threshold
        opt._update_covariance(np.array(z, dtype=dt))
        co = cc * (2 - cc)
        p = [(1 - cc) * u + (co**0.5 * v if low else 0) for u, v in zip(pc0, z)]
        for u, v in zip(list(opt.pc), p):
            ctx.check_near(u, v, "evolution path", 1e-8)
        ca = 1 - c if low else 1 - c * (1 - co)
        p = list(opt.pc)
        A = [list(r) for r in opt._A]
        AA = mm(A, tr(A))
        for i in range(dim):
            for j in range(dim):
                ctx.check_near(AA[i][j], ca * C0[i][j] + c * p[i] * p[j], "the factor is one of the updated covariance", 1e-5)
        if cls is OnePlusOne_Cholesky_CMA:
            I = mm(A, [list(r) for r in opt._A_inv])
            for i in range(dim):
                for j in range(dim):
                    ctx.check_near(I[i][j], float(i == j), "the inverse is that of the factor", 1e-5)

    fn.__doc__ = f"{cls.__name__}: covariance update, {dim} variables, success rate {rate}"
    return fn


for c in (OnePlusOne_CMA, OnePlusOne_Cholesky_CMA):
    for r in (0.2, 0.5):
        SUITE.add(f"cov-{c.__name__}-1-{r}", cov(c, 1, r), time_s=60, check_ms=20000)
        SUITE.add(f"cov-{c.__name__}-2-{r}", cov(c, 2, r), time_s=60, check_ms=20000)


def step_size(cls):
    def fn(ctx):
        """the step size grows exactly when the smoothed success rate exceeds its target"""
        space = RealSpace([-5, 5], var_name="r")
        opt = cls(search_space=space, obj_fun=lambda x: 0.0, x0=np.zeros(1), sigma0=1.0, max_FEs=99)
        opt.success_rate = r = ctx.real("rate", 0, 1)
        opt._sigma = s = ctx.real("sigma", 0.1, 4)
        ok = ctx.choice("success", (True, False))
        opt._update_step_size(ok)
        ctx.check_near(opt.success_rate, 11 / 12 * r + (1 / 12 if ok else 0), "smoothed success rate", 1e-9)
        q = opt.success_rate - 2 / 11
        ctx.check(ctx.all([ctx.implies(q > 1e-9, opt._sigma > s), ctx.implies(q < -1e-9, opt._sigma < s), opt._sigma > 0]), "direction of the change")

    fn.__doc__ = f"{cls.__name__}: step-size adaptation"
    return fn


for c in (OnePlusOne_CMA, OnePlusOne_Cholesky_CMA):
    SUITE.add(f"sigma-{c.__name__}", step_size(c), time_s=30)


def mies(kind, mu, lam, gens, elitism=False, con=None, start=None):
    def fn(ctx):
        space = SPACES["real" if kind == "any" else kind]()
        if gens == 1:
            stub_sample(ctx)
        else:
            ctx.patch(SearchSpace, "sample", lambda self, N=1, *a, **k: np.array([[0.5 * (i + 1)] for i in range(N)], dtype=object))
        if kind == "any":  # mutation is decided by C04
            m = [0]

            def mutate(self, ind):
                m[0] += 1
                ind[0] = ctx.real(f"m{m[0]}", -5, 5)
                return ind

            ctx.patch(MIES, "mutate", mutate)
            ctx.patch(MIES, "recombine", lambda self, i, j: self.pop[0].copy())
        mn = ctx.choice("minimize", (True, False))
        sg = 1 if mn else -1
        X, Y, C = [], [], []
        obj = obj_for(ctx, X, Y)
        kw = {}
        n0 = mu
        if start:
            x0 = any_row(ctx, space, "x0")
            n0 = 1
            kw["x0"] = list(x0)
            opts = ctx.choice("strengths", ({}, {"sigma0": 0.5, "eta0": 0.25, "P0": 0.3}))
            kw.update(opts)
            if start == "dict":
                kw["eval_type"] = "dict"
                f_ = obj
                obj = lambda d: f_([d[k] for k in space.var_name])
        if con:
            cs = [ctx.real(f"c{k}", -1, 1) if con == "h" else ctx.choice(f"c{k}", (-0.5, 0.25, 1.0)) for k in range(mu + lam * gens)]
            kc = [0]

            def g(x):
                kc[0] += 1
                return [cs[kc[0] - 1]]

            kw["ineq_func" if con == "g" else "eq_func"] = g
        opt = MIES(space, obj, mu_=mu, lambda_=lam, max_eval=n0 + lam * (gens - 1), minimize=mn, elitism=elitism, **kw)
        if start:
            ctx.check(len(Y) == 1 and same(ctx, X[0], x0), "the starting point is evaluated first")
            ctx.check(ctx.all([same(ctx, list(opt.pop[i].tolist())[:len(x0)], x0) for i in range(mu)]), "every parent starts there")
        x, f, d = opt.optimize()
        n = len(Y)
        ctx.check(n >= n0 + lam and (n - n0) % lam == 0 and n <= n0 + lam * gens, "whole generations within the budget")
        ctx.check(d["funcalls"] == n == opt.eval_count, "evaluations are counted")
        P = []
        for k in range(n):
            it = 1 if k < n0 else 1 + (k - n0) // lam
            v = sg * Y[k]
            if con:
                sq = lambda u: sym.fn1("sqrt", u) if sym.is_sym(u) else float(np.sqrt(u))
                v = v + 0.5 * it * (ctx.ite(cs[k] <= 0, 0, ctx.ite(cs[k] <= 0, 1, cs[k]) * sq(ctx.ite(cs[k] <= 0, 1, cs[k]))) if con == "g" else ctx.ite(abs(cs[k]) <= 0.1, 0, abs(cs[k])))
            P.append(v)
        best = ctx.min(P)
        ctx.check_near(sg * f, best, "the best (penalised) value evaluated", 1e-7)
        ctx.check(ctx.any([ctx.all([ctx.near(v, best, 1e-7), same(ctx, p, x)]) for p, v in zip(X, P)]), "a point with that value")
        # the surviving parents
        if gens == 1:
            pool = (P[:n0] * (mu if start else 1) + P[n0:]) if elitism else P[n0:]
            fit = [sg * v for v in opt.fitness]
            ctx.check(len(fit) == min(mu, len(pool)) == len(opt.pop), "number of parents")
            for i, v in enumerate(fit):
                row = list(opt.pop[i].tolist())[:len(X[0])]
                ctx.check(ctx.any([ctx.all([ctx.near(v, w, 1e-7), same(ctx, row, p)]) for w, p in list(zip(P, X))[0 if elitism else n0:]]), "a parent is one of the candidates, with its value")
                if i:
                    ctx.check_le(fit[i - 1], v, "parents are sorted", 1e-7) if False else ctx.check(fit[i - 1] <= v, "parents are sorted")
            worst = fit[-1]
            cnt = sum([ctx.ite(w < worst - 1e-6, 1, 0) for w in pool])
            ctx.check(cnt < mu, "the best candidates survive")

    fn.__doc__ = f"MIES: {mu} parents, {lam} offspring, {gens} generations, {kind} variables, elitism {elitism}, constraint {con}"
    return fn


SUITE.add("mies-1-1", mies("mixed", 1, 1, 1), time_s=60)
SUITE.add("mies-2-2", mies("any", 2, 2, 1), time_s=60)
SUITE.add("mies-2-2-elitist", mies("any", 2, 2, 1, True), time_s=60)
SUITE.add("mies-1-1-g", mies("real", 1, 1, 1, False, "g"), time_s=60)
SUITE.add("mies-1-1-h", mies("real", 1, 1, 1, True, "h"), time_s=60)
SUITE.add("mies-2-3", mies("any", 2, 3, 1), time_s=120)
SUITE.add("mies-1-1-2g", mies("any", 1, 1, 2), time_s=120)
SUITE.add("mies-x0-1-1", mies("mixed", 1, 1, 1, start="list"), time_s=60)
SUITE.add("mies-x0-1-1-dict", mies("mixed", 1, 1, 1, start="dict"), time_s=60)
SUITE.add("mies-x0-2-2-elitist", mies("any", 2, 2, 1, True, start="list"), time_s=60)
SUITE.add("mies-x0-1-1-g", mies("real", 1, 1, 1, False, "g", start="list"), time_s=60)
