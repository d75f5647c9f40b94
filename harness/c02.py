"""C02  sampling under constraints returns feasible points only"""
import numpy as np

from bayes_optim.search_space import Discrete, Integer, Real, RealSpace, SearchSpace
from bayes_optim.search_space.samplers import SCMC
from bayes_optim.utils.exception import ConstraintEvaluationError
from engine.case import Suite
from harness.c04 import SPACES, any_row, pyval
from harness.lib import draws, row_ok, same_val

SUITE = Suite("C02", bounds=["ten candidate points of which three have arbitrary constraint values (one or two inequalities, one or two equalities), requests of one to twelve points",
                             "Metropolis-Hastings: one step for one or two arbitrary candidates with arbitrary constraint values"],
              outside=["whether feasible points are found (a sample may be smaller than requested)", "the distribution of the sample"],
              assumptions=["SCMC.sample returns arbitrary points of the space (its proposals are decided by C04), except in the cases scmc-*"])


def out(v, how):
    return v if how == "list" else np.array(v)


def feasible_case(use_h, use_g, N, nh=1, ng=1):
    def fn(ctx):
        space = SearchSpace([Real([-9, 9], "r"), Discrete(["A", "B"], "d"), Integer([0, 20], "i")])
        how = ctx.choice("how", ("list", "array")) if nh == ng == 1 else "list"
        n = max(N, 10)
        frees = (0, 4) if nh * ng == 4 and N < 4 else (0, 4, 7)
        rows = [[float(k) / 2, "AB"[k % 2], k] for k in range(n)]
        tol = 1e-2
        gv, hv = {}, {}
        for k in range(n):
            free = k in frees
            gv[k] = [ctx.real(f"g{k}.{j}", -1, 1) if free else 1.0 for j in range(ng)]
            hv[k] = [ctx.real(f"h{k}.{j}", -1, 1) if free else 0.5 for j in range(nh)]
            for v in hv[k] if free and use_h else []:  # stay clear of the rounding of isclose
                ctx.assume(ctx.any([abs(v) < tol * 0.999, abs(v) > tol * 1.001]))

        def arr(self, m):
            ctx.check(m >= min(N, m), "size of the candidate sample")
            X = np.empty((m, 3), dtype=object)
            for k in range(m):
                for j in range(3):
                    X[k, j] = rows[k][j]
            return X

        ctx.patch(SCMC, "sample", arr)
        kw = {}
        if use_g:
            kw["g"] = lambda x: out(gv[int(x[2])], how) if ng > 1 or how == "array" else gv[int(x[2])][0]
        if use_h:
            kw["h"] = lambda x: out(hv[int(x[2])], how)
        S = space.sample(N, tol=tol, **kw)
        R = [list(r) for r in S.tolist()] if len(S) else []
        ok = {}
        for k in range(n):
            c = []
            if use_g:
                c += [v <= 0 for v in gv[k]]
            if use_h:
                c += [abs(v) <= tol for v in hv[k]]
            ok[k] = ctx.all(c)
        for r in R:
            ctx.check(ok[r[2]], "a sampled point is feasible")
            ctx.check(r == rows[r[2]], "a sampled point is one of the candidates")
        ctx.check(len({r[2] for r in R}) == len(R), "no candidate is taken twice")
        cnt = sum([ctx.ite(ok[k], 1, 0) for k in frees])
        ctx.check(len(R) == ctx.min([cnt, N]), "as many feasible points as there are, at most as many as requested")

    fn.__doc__ = f"h={use_h} ({nh}), g={use_g} ({ng}), {N} points requested"
    return fn


for h, g, N, nh, ng in ((0, 1, 1, 1, 1), (0, 1, 2, 1, 2), (1, 0, 2, 1, 1), (1, 1, 1, 1, 1), (1, 1, 12, 1, 1), (1, 1, 2, 2, 2), (1, 0, 1, 2, 1)):
    SUITE.add(f"feasible-{'h' * h}{'g' * g}-{N}-{nh}{ng}", feasible_case(bool(h), bool(g), N, nh, ng), time_s=60)
for h, g, N, nh, ng in ((1, 1, 3, 1, 2), (1, 1, 4, 2, 2)):
    SUITE.add(f"feasible-{'h' * h}{'g' * g}-{N}-{nh}{ng}", feasible_case(bool(h), bool(g), N, nh, ng), tiers=("thorough",), time_s=240)


@SUITE.case(time_s=30)
def error(ctx):
    """a constraint that fails is reported as such"""
    ctx.patch(SCMC, "sample", lambda self, m: np.array([[float(k)] for k in range(m)], dtype=object))

    def bad(x):
        raise ValueError("no value")

    kw = {ctx.choice("which", ("h", "g")): bad}
    try:
        RealSpace([-20, 20]).sample(2, **kw)
    except ConstraintEvaluationError:
        return
    ctx.fail("a failing constraint is reported")


def scmc(kind, n=1):
    def fn(ctx):
        space = SPACES[kind]()
        k = [0]

        def con(x):
            ctx.check(row_ok(ctx, space, [pyval(v) for v in list(x)]), "the constraints are evaluated in the search space")
            k[0] += 1
            return [ctx.real(f"c{k[0]}", -9, 9)]

        s = SCMC(space, con, metropolis_hastings_step=1)
        s.nu_schedule = s.nu_schedule[:1]
        rows = [any_row(ctx, space, f"p{i}") for i in range(n)]

        def first(N, method="uniform"):
            X = np.empty((N, len(space.data)), dtype=object)
            for i in range(N):
                for j, v in enumerate(rows[i]):
                    X[i, j] = v
            return X

        ctx.patch(space, "_sample", first)
        X = s.sample(n)
        ctx.check(np.shape(X) == (n, len(space.data)), "number of points")
        for r in X.tolist():
            ctx.check(row_ok(ctx, space, [pyval(v) for v in r]), "a point is in the search space")

    fn.__doc__ = f"one step of SCMC on {kind} variables, {n} points"
    return fn


for k in ("real", "step", "mixed"):
    SUITE.add(f"scmc-{k}", scmc(k), time_s=60)
SUITE.add("scmc-real-2", scmc("real", 2), tiers=("thorough",), time_s=240)
