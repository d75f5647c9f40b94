"""C19  argmax_restart returns the best feasible candidate within its budget"""
import numpy as np

import bayes_optim.acquisition.optim as om
from bayes_optim.acquisition.optim import argmax_restart
from bayes_optim.search_space import Discrete, Integer, Real, RealSpace, SearchSpace
from engine.case import Suite
from harness.c04 import any_row, pyval, stub_sample
from harness.lib import row_ok, same_val

SUITE = Suite("C19", bounds=["up to five restarts, each with an arbitrary result, value, constraint values and number of evaluations", "budgets of 3 or 9 evaluations, one to three fruitless restarts"],
              outside=["which restart wins a tie", "whether infeasible restarts count towards the budget"],
              assumptions=["each inner optimiser returns an arbitrary point of the space (C04), an arbitrary value and a number of evaluations between one and its budget"])


class Log:
    def debug(self, *a, **k):
        pass

    warning = info = debug


def restart_case(optimizer, space_kind, con, nres=3, wait=3, how="array", logger=True, budget=3):
    def fn(ctx):
        if space_kind == "real":
            space = RealSpace([-5, 5], var_name="r")
        elif space_kind == "prec":
            space = RealSpace([-1, 2], var_name="r", precision=1)
        else:
            space = SearchSpace([Discrete(["A", "B"], "d"), Integer([0, 9], "i")])
        stub_sample(ctx)
        res, asked = [], []

        def crit(x):
            raise AssertionError

        def result(maxfun, x=None):
            k = len(res)
            asked.append(maxfun)
            n = ctx.choice(f"n{k}", (1, 2)) if budget < 9 else 1
            n = min(n, max(maxfun, 1))
            if x is None:
                x = any_row(ctx, space, f"r{k}")
            f = ctx.real(f"f{k}", -9, 9)
            gv = ctx.real(f"g{k}", -1, 1) if con else -1.0
            res.append([x, f, gv, n])
            return x, f, n

        def bfgs(func, x0, *a, bounds=None, maxfun=None, **kw):
            ctx.check(row_ok(ctx, space, [pyval(v) for v in list(x0)]), "a restart begins in the search space")
            ctx.check(np.shape(bounds) == (len(space.data), 2) and [list(b) for b in bounds] == [list(map(float, v.bounds)) for v in space.data], "the bounds of the space")
            raw = [ctx.real(f"b{len(res)}.{i}", v.bounds[0], v.bounds[1]) for i, v in enumerate(space.data)]
            x, f, n = result(maxfun, raw)
            return np.array(x, dtype=object if ctx.symbolic else float), -f, {"funcalls": n, "warnflag": ctx.choice(f"w{len(res)}", (0, 2)) if nres < 3 else 0}

        class Cma:
            eval_count = 0

            def __init__(self, search_space, obj_fun, max_FEs, minimize, n_restart=0, h=None, g=None, **k):
                ctx.check(search_space is space and obj_fun is crit and minimize is False, "the criterion is maximised in the space")
                ctx.check((h, g) == HG, "with the constraints")
                self.b = max_FEs

            def run(self):
                x, f, n = result(self.b)
                self.eval_count = n
                d = {"FEs": n} if n >= self.b else {"ftol": 0}
                return np.array(x, dtype=object if ctx.symbolic else float), f, d

        class Mies:
            def __init__(self, search_space, obj_func, eq_func=None, ineq_func=None, max_eval=None, minimize=None, eval_type="list", **k):
                ctx.check(search_space is space and obj_func is crit and minimize is False and eval_type == "list", "the criterion is maximised in the space")
                ctx.check((eq_func, ineq_func) == HG, "with the constraints")
                self.b = max_eval

            def optimize(self):
                x, f, n = result(self.b)
                return x, np.array([f], dtype=object if ctx.symbolic else float) if how == "array" else f, {"funcalls": n}

        ctx.patch(om, "fmin_l_bfgs_b", bfgs)
        ctx.patch(om, "OnePlusOne_Cholesky_CMA", Cma)
        ctx.patch(om, "MIES", Mies)
        shape = (lambda v: [v]) if how == "list" else (lambda v: np.array([v], dtype=object if ctx.symbolic else float)) if how == "array" else (lambda v: v)

        def cons(x):
            ctx.check(row_ok(ctx, space, [pyval(v) for v in list(x)]), "the constraints are tested at the candidate")
            return shape(res[-1][2])

        HG = (cons if con == "h" else None, cons if con == "g" else None)
        if con == "h":
            ctx.user.setdefault("h", 1)
        x, f = argmax_restart(crit, space, h=HG[0], g=HG[1], eval_budget=budget, n_restart=nres, wait_iter=wait, optimizer=optimizer, logger=Log() if logger else None)
        if con == "h":
            for r in res:  # stay clear of the rounding of isclose
                ctx.assume(ctx.any([abs(r[2]) < 0.0999, abs(r[2]) > 0.1001]))
        ok = [True if not con else (r[2] <= 0 if con == "g" else abs(r[2]) <= 0.1) for r in res]
        n = len(res)
        ctx.check(1 <= n <= nres, "at most the given number of restarts")
        cand = [list(space.round(np.array(r[0], dtype=object if ctx.symbolic else float).reshape(1, -1)).ravel()) if optimizer == "BFGS" and space_kind != "mixed" else r[0] for r in res]
        if len(list(x)) == 0:
            ctx.check(ctx.all([ctx.neg(o) for o in ok]), "nothing is returned only if no candidate is feasible")
        else:
            ctx.check(ctx.any(ok), "a feasible candidate is returned")
            for o, r in zip(ok, res):
                ctx.check(ctx.implies(o, f >= r[1]), "the largest value of the feasible candidates")
            ctx.check(ctx.any([ctx.all([o, f == r[1]] + [ctx.near(a, b, 1e-9) if not isinstance(a, str) else same_val(ctx, a, b) for a, b in zip(list(x), c)])
                               for o, r, c in zip(ok, res, cand)]), "the point of that value")
            ctx.check(row_ok(ctx, space, [pyval(v) for v in list(x)]), "the result is in the search space")
        # budget and patience
        ctx.check(all(b >= 1 for b in asked), "no restart without a budget")
        if not con:
            used = 0
            for b, r in zip(asked, res):
                ctx.check(b == budget - used, "a restart gets what is left of the budget")
                used += r[3]
            best, idle, stop = None, 0, False
            for k, r in enumerate(res):
                better = True if best is None else r[1] > best
                idle = ctx.ite(better, 0, idle + 1)
                best = r[1] if best is None else ctx.max([best, r[1]])
                if k < n - 1:
                    ctx.check(idle < wait, "gives up after the given number of fruitless restarts")
            if n < nres and used < budget:
                ctx.check(idle >= wait, "stops early only if the last restarts were fruitless")

    fn.__doc__ = f"{optimizer}, {space_kind} variables, constraint {con}, {nres} restarts, patience {wait}"
    return fn


Q = (("BFGS", "real", None, 3, 1), ("BFGS", "prec", None, 2, 3), ("BFGS", "real", "g", 2, 3, "list"), ("BFGS", "real", "h", 2, 3),
     ("OnePlusOne_Cholesky_CMA", "real", None, 3, 2), ("OnePlusOne_Cholesky_CMA", "real", "g", 2, 3, "array"), ("MIES", "mixed", None, 3, 1),
     ("MIES", "mixed", "g", 2, 3, "list"), ("MIES", "mixed", "h", 2, 3, "number"), ("BFGS", "mixed", None, 2, 3, "array", False), ("MIES", "mixed", "g", 2, 3, "number", False),
     ("BFGS", "real", None, 5, 2, "array", True, 9), ("OnePlusOne_Cholesky_CMA", "real", None, 4, 2, "array", True, 9), ("MIES", "real", None, 5, 2, "array", True, 9))
for i, q in enumerate(Q):
    SUITE.add("-".join(str(v) for v in q[:5]) + f"-{i}", restart_case(*q), time_s=60)
for i, q in enumerate((("BFGS", "real", "g", 3, 2, "array"), ("MIES", "mixed", "h", 3, 2), ("OnePlusOne_Cholesky_CMA", "real", "h", 3, 1), ("BFGS", "prec", None, 4, 2), ("MIES", "mixed", None, 4, 2))):
    SUITE.add("t-" + "-".join(str(v) for v in q[:5]), restart_case(*q), tiers=("thorough",), time_s=240)
