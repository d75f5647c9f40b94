"""C33  the constrained sampler makes Metropolis-Hastings moves on the documented density"""
import numpy as np
from scipy.stats import norm

from bayes_optim.search_space import Discrete, Integer, RealSpace, SearchSpace
from bayes_optim.search_space.samplers import SCMC
from engine import sym
from engine.case import Suite
from harness.c04 import any_row, pyval
from harness.lib import same_val

SUITE = Suite("C33", bounds=["one or two points of one or two real, integer or categorical variables, one or two constraints, one or two rounds of one or two tightness levels, arbitrary points, proposals and acceptance draws"],
              outside=["the distribution of the proposals (only their admissibility, C04)", "the distribution of the final sample"],
              assumptions=["log Phi and exp are uninterpreted functions with true axioms (monotone, bounds)",
                           "the constraint functions are affine with an arbitrary offset; the target density is a positive function of the point"])


def logcdf(x):
    return sym.fn1("logcdf", x) if sym.is_sym(x) else float(norm.logcdf(x))


def exp(x):
    return sym.fn1("exp", x) if sym.is_sym(x) else float(np.exp(x))


def log(x):
    return sym.fn1("log", x) if sym.is_sym(x) else float(np.log(x))


SP = {
    "real": lambda: RealSpace([-5, 5], var_name="r"),
    "real2": lambda: RealSpace([[-5, 5], [-1, 3]], var_name="r"),
    "int": lambda: SearchSpace([Integer([0, 9], "i")]),
    "cat": lambda: SearchSpace([Discrete(["A", "B", "C"], "d")]),
    "cat2": lambda: SearchSpace([Discrete(["A", "B"], "d"), Discrete(["u", "v"], "e")]),
}
NUM = {"A": 0.0, "B": 1.0, "C": -2.0, "u": 0.0, "v": 1.5}


def chain(kind, n=2, ncon=1, nus=1, steps=1, target=False):
    def fn(ctx):
        space = SP[kind]()
        d = len(space.data)
        off = [ctx.real(f"b{j}", -9, 9) for j in range(ncon)]
        coef = [(1.0, -2.0), (-0.5, 1.0)][:ncon]
        f = lambda v: NUM[v] if isinstance(v, str) else v
        calls = []

        def con(j):
            def c(x):
                x = [pyval(v) for v in list(x)]
                if j == 0:
                    calls.append(x)
                return sum(a * f(v) for a, v in zip(coef[j], x)) + off[j]

            return c

        weight = ctx.real("w", 0.1, 9) if target else None

        def dens(x):
            x = [pyval(v) for v in list(x)]
            return ctx.ite(f(x[0]) > 0, weight, 1.0) if target else 1

        # the density only matters where it is documented to: log P(x) + sum_j log Phi(-c_j(x)/nu)
        def logp(x, nu):
            s = sum(logcdf(-1 * (sum(a * f(v) for a, v in zip(coef[j], x)) + off[j]) / nu) for j in range(ncon))
            return s + (log(ctx.ite(f(x[0]) > 0, weight, 1.0)) if target else 0.0)

        kw = {"target_dist": dens} if target else {}
        cons = [con(j) for j in range(ncon)]
        s = SCMC(space, cons if ncon > 1 or ctx.choice("how", ("list", "function")) == "list" else cons[0], metropolis_hastings_step=steps, **kw)
        full = [float(v) for v in s.nu_schedule]
        ctx.check(all(a > b > 0 for a, b in zip(full, full[1:])), "the tolerance of the constraints is tightened monotonically")
        ctx.check(abs(full[-1] * 8 - 1e-2) < 1e-12, "the last level is an eighth of the tolerance")
        s.nu_schedule = s.nu_schedule[:nus]
        rows = [any_row(ctx, space, f"p{i}") for i in range(n)]

        def first(N, method="uniform"):
            ctx.check(N == n, "size of the first sample")
            X = np.empty((N, d), dtype=object)
            for i in range(N):
                for j, v in enumerate(rows[i]):
                    X[i, j] = v
            return X

        ctx.patch(space, "_sample", first)
        U = []
        X = s.sample(n)
        r = ctx.user["rng"]
        if kind.startswith("cat"):  # the proposals use the generator as well: the draws of the last call of each move decide
            names = list(r.cache)
            groups = {}
            for nm in names:
                groups.setdefault(nm.rsplit(".", 1)[0], []).append(nm)
            rg = [g for g in groups if g.startswith("rand@")]
            # per round: d proposal calls, then d acceptance calls
            keep = [g for k, g in enumerate(rg) if k % (2 * d) >= d]
            U = [r.cache[nm] for g in keep for nm in groups[g]]
        else:
            U = [v for nm, v in r.cache.items() if nm.startswith("rand@")]
        ctx.check(len(U) == n * d * steps * nus, "one acceptance draw per point and move")
        state = [list(x) for x in rows]
        u = iter(U)
        pos = 0
        for t in range(nus):
            nu = float(s.nu_schedule[t])
            # the current points are evaluated at every new level
            ctx.check(len(calls) >= pos + n, "the points are evaluated at every level")
            for k in range(n):
                ctx.check(ctx.all([same_val(ctx, a, b) for a, b in zip(calls[pos + k], state[k])]), "a level starts from the points of the previous one")
            pos += n
            for _ in range(steps):
                for i in range(d):
                    ctx.check(len(calls) >= pos + n, "every candidate is evaluated")
                    for k in range(n):
                        c = calls[pos + k]
                        ctx.check(ctx.all([same_val(ctx, c[j], state[k][j]) for j in range(d) if j != i]), "a move changes one coordinate of the current point")
                        acc = next(u) <= exp(logp(c, nu) - logp(state[k], nu))
                        if ctx.branch(acc) if sym.is_sym(acc) else acc:
                            state[k] = list(c)
                    pos += n
        ctx.check(len(calls) == pos, "number of evaluations")
        ctx.check(np.shape(X) == (n, d), "number of points")
        for k, x in enumerate(X.tolist()):
            ctx.check(ctx.all([same_val(ctx, pyval(a), pyval(b)) for a, b in zip(x, state[k])]), "a candidate is taken iff its acceptance draw is at most the density ratio")
        ctx.reach("end")

    fn.__doc__ = f"{n} points, {kind} variables, {ncon} constraints, {nus} levels of {steps} rounds" + (", a target density" if target else "")
    return fn


SUITE.add("real", chain("real"), time_s=60)
SUITE.add("real-2con", chain("real", ncon=2), time_s=60)
SUITE.add("real-2steps", chain("real", n=2, steps=2), time_s=60)
SUITE.add("real-2levels", chain("real", n=2, nus=2), time_s=60)
SUITE.add("real2", chain("real2"), time_s=60)
SUITE.add("real-target", chain("real", target=True), time_s=60)
SUITE.add("int", chain("int"), time_s=60)
SUITE.add("cat", chain("cat", n=1), time_s=60)
SUITE.add("cat-2levels", chain("cat", n=1, nus=2), time_s=60)
SUITE.add("cat2", chain("cat2", n=1), time_s=60)
for nm, kw in (("t-real2-2steps", dict(kind="real2", steps=2)), ("t-cat2-2levels", dict(kind="cat2", n=1, nus=2))):
    SUITE.add(nm, chain(**kw), tiers=("thorough",), time_s=240)
SUITE.add("cat-n2", chain("cat", n=2), time_s=60)
SUITE.add("real2-2con-target", chain("real2", ncon=2, target=True), time_s=60)
