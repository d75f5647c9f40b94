"""C11  run stops exactly when the budget is used up or the target is met"""
import numpy as np

import bayes_optim.base as base_mod
from bayes_optim.bayes_opt import BO, ParallelBO
from bayes_optim.search_space import Discrete, Integer, Real, RealSpace, SearchSpace
from engine.case import Suite
from harness.bo import FakeModel, quiet
from harness.lib import same_val

SUITE = Suite("C11", bounds=["initial designs of one to three points, batches of one or two, up to four evaluations, arbitrary objective values and target"],
              outside=["joblib workers (n_job > 1)", "failed evaluations (C10)"],
              assumptions=["proposals are arbitrary distinct points (SearchSpace.sample and argmax_restart are replaced), update_model is real with a recording model"])


def distinct_points(ctx):
    """every point drawn or proposed is a new one"""
    n = [0]

    def new(space):
        n[0] += 1
        out = []
        for v in space.data:
            k = type(v).__name__
            out.append(n[0] / 4 if k == "Real" else n[0] if k == "Integer" else list(v.bounds)[0])
        return out

    def sample(self, N=1, *a, **k):
        X = np.empty((N, len(self.data)), dtype=object)
        for i in range(N):
            for j, v in enumerate(new(self)):
                X[i, j] = v
        return X

    ctx.patch(SearchSpace, "sample", sample)
    ctx.patch(base_mod, "argmax_restart", lambda obj_func, search_space, *a, **k: (new(search_space), 0.5))


def run_case(doe, n_point, max_FEs, mode="list", parallel=False):
    def fn(ctx):
        quiet(ctx)
        distinct_points(ctx)
        mn = ctx.choice("minimize", (True, False))
        target = ctx.real("ftarget", -5, 5) if ctx.choice("target", (False, True)) else None
        space = SearchSpace([Real([-5, 5], "r"), Discrete(["A", "B"], "d"), Integer([0, 50], "i")])
        X, Y, batches = [], [], []

        def obj(x):
            ctx.check(isinstance(x, dict if mode == "dict" else list), "the objective gets a point of the declared type")
            X.append([x[k] for k in ("r", "d", "i")] if mode == "dict" else list(x))
            y = ctx.real(f"y{len(Y)}", -5, 5)
            Y.append(y)
            return y

        def pobj(xs):
            ctx.check(isinstance(xs, list), "the objective gets the whole batch")
            batches.append(len(xs))
            return [obj(x) for x in xs]

        kw = {"parallel_obj_fun": pobj} if parallel else {"obj_fun": obj}
        cls = BO if n_point == 1 else ParallelBO
        opt = cls(search_space=space, model=FakeModel(), DoE_size=doe, n_point=n_point, max_FEs=max_FEs, minimize=mn, ftarget=target, eval_type=mode, **kw)
        xopt, fopt, stop = opt.run()
        n = len(Y)
        sizes = [doe]
        while sum(sizes) < max_FEs:
            sizes.append(n_point)
        done = [sum(sizes[:i + 1]) for i in range(len(sizes))]
        ctx.check(n in done, "whole batches are evaluated")
        if parallel:
            ctx.check(batches == sizes[:len(batches)], "one call per batch")
        ctx.check(opt.eval_count == n and len(opt.data) == n, "every evaluation is counted")
        hit = lambda k: False if target is None else ctx.any([(y < target if mn else y > target) for y in Y[:k]])
        for k in done:
            if k < n:
                ctx.check(ctx.neg(hit(k)), "stops as soon as the target is met")
        if n < done[-1]:
            ctx.check(hit(n), "stops before the budget is used up only if the target is met")
        ctx.check("max_FEs" in stop if n >= max_FEs else "max_FEs" not in stop, "reason: budget")
        ctx.check(ctx.iff("ftarget" in stop, hit(n)), "reason: target")
        best = ctx.min(Y) if mn else ctx.max(Y)
        f = np.asarray(fopt).ravel()[0]
        ctx.check(f == best, "the best value is returned")
        row = [xopt[k] for k in ("r", "d", "i")] if mode == "dict" else list(xopt)
        ctx.check(ctx.any([ctx.all([y == best] + [same_val(ctx, a, b) for a, b in zip(row, x)]) for x, y in zip(X, Y)]), "the best point is returned")

    fn.__doc__ = f"initial design {doe}, batches of {n_point}, budget {max_FEs}, {mode}{', parallel objective' if parallel else ''}"
    return fn


for d, n, m, t, p in ((1, 1, 3, "list", 0), (2, 1, 3, "dict", 0), (2, 1, 2, "list", 1), (1, 2, 3, "list", 1), (3, 1, 2, "list", 0)):
    SUITE.add(f"run-{d}-{n}-{m}-{t}{'-p' if p else ''}", run_case(d, n, m, t, bool(p)), time_s=60)
SUITE.add("run-2-2-5-dict", run_case(2, 2, 5, "dict", True), tiers=("thorough",), time_s=240)
SUITE.add("run-1-1-5-list", run_case(1, 1, 5, "list"), tiers=("thorough",), time_s=240)


@SUITE.case(time_s=30)
def check_stop(ctx, n=2):
    """check_stop before, at and after the budget"""
    quiet(ctx)
    m = ctx.choice("max", (2, 3)[:n - 1])
    mn = ctx.choice("minimize", (True, False))
    tgt = ctx.real("t", -5, 5)
    opt = BO(search_space=RealSpace([-5, 5]), model=FakeModel(), DoE_size=1, max_FEs=m, minimize=mn, ftarget=tgt)
    ctx.check(not opt.check_stop(), "does not stop before anything is evaluated")
    Y = []
    for i in range(n):
        Y.append(ctx.real(f"y{i}", -5, 5))
        opt.tell([[float(i)]], [Y[-1]])
        met = ctx.any([y < tgt if mn else y > tgt for y in Y])
        ctx.check(ctx.iff(opt.check_stop(), ctx.any([i + 1 >= m, met])), "stops exactly when the budget is used up or the target is met")


SUITE.add("check_stop-3", lambda ctx: check_stop(ctx, 3), tiers=("thorough",), time_s=240)
SUITE.add("run-1-2-4-list-p", run_case(1, 2, 4, "list", True), tiers=("thorough",), time_s=240)
