"""C24  ConditionalBO proposes consistent conditional points and records what it is told"""
import numpy as np

import bayes_optim.base as base_mod
import bayes_optim.extension as ext
from bayes_optim.extension import ConditionalBO
from bayes_optim.search_space import Bool, Discrete, Integer, Real, SearchSpace
from engine.case import Suite
from harness.bo import FakeModel, quiet
from harness.c04 import any_row, pyval
from harness.lib import member, same_val

SUITE = Suite("C24", bounds=["two conditional spaces with two and three subspaces, batches of one to three, up to two rounds of ask and tell with arbitrary values and points"],
              outside=["the choice of subspaces after each was used once (any choice is explored)", "fixed variables"],
              assumptions=["sampling and the inner optimiser return arbitrary points of the subspace (C01, C19)", "surrogate models are replaced"])


def space1():
    return SearchSpace([Bool("b"), Real([-5, 5], "p", conditions="b == 1"), Integer([0, 9], "q", conditions="b == 0"), Real([0, 1], "f")])


def space2():
    return SearchSpace([Discrete(["A", "B"], "s"), Integer([1, 3], "k", conditions="s == 'A'"), Real([0, 1], "u", conditions="k == 1"),
                        Real([0, 1], "v", conditions="k == 2"), Bool("w", conditions="s == 'B'")])


WORLDS = {space1: [({"b": 1}, {"p", "f"}), ({"b": 0}, {"q", "f"})], space2: [({"s": "A", "k": 1}, {"u"}), ({"s": "A", "k": 2}, {"v"}), ({"s": "B"}, {"w"})]}


def setup(ctx, mk, n_point, minimize=True):
    quiet(ctx)
    ctx.patch(ext, "RandomForest", lambda levels=None, **k: FakeModel())
    cnt = [0]

    def row(space):
        cnt[0] += 1
        return any_row(ctx, space, f"x{cnt[0]}")

    def sample(self, N=1, *a, **k):
        X = np.empty((N, len(self.data)), dtype=object)
        for i in range(N):
            for j, v in enumerate(row(self)):
                X[i, j] = v
        return X

    ctx.patch(SearchSpace, "sample", sample)
    ctx.patch(base_mod, "argmax_restart", lambda obj_func, search_space, *a, **k: (row(search_space), 0.5))
    # duplicates are decided by C09
    ctx.patch(base_mod.BaseBO, "pre_eval_check", lambda self, X: X)
    import bayes_optim.bayes_opt as bo_mod

    ctx.patch(bo_mod.BO, "pre_eval_check", lambda self, X: X.tolist() if hasattr(X, "tolist") else list(X))
    return ConditionalBO(search_space=mk(), obj_fun=lambda x: 0.0, DoE_size=n_point, n_point=n_point, max_FEs=9, minimize=minimize)


def world_of(ctx, mk, x):
    """index of the subspace a point belongs to"""
    for i, (sel, act) in enumerate(WORLDS[mk]):
        if {k for k in x if x[k] is not None} == set(sel) | act and all(x[k] is not None and x[k] == v for k, v in sel.items()):
            return i
    return None


def check_point(ctx, mk, space, x, label="a proposed point"):
    ctx.check(set(x) == set(space.var_name), f"{label} has a value for every variable")
    w = world_of(ctx, mk, x)
    ctx.check(w is not None, f"{label} has exactly the variables active for its selectors")
    if w is None:
        return None
    for v in space.data:
        if v.name in WORLDS[mk][w][1]:
            ctx.check(member(ctx, v, pyval(x[v.name])), f"{label} has admissible values")
    return w


def ask_tell(mk, n_point, rounds, nan=False):
    def fn(ctx):
        mn = ctx.choice("minimize", (True, False))
        opt = setup(ctx, mk, n_point, mn)
        space = mk()
        names = list(space.var_name)
        nw = len(WORLDS[mk])
        seen, X_all, Y_all, W_all, count = [], [], [], [], 0
        for r in range(rounds):
            X = opt.ask()
            ctx.check(len(X) == n_point, "as many points as requested")
            W = [check_point(ctx, mk, space, x) for x in X]
            seen += W
            first = seen[:nw]
            ctx.check(len(set(first)) == len(first), "every subspace is used once first")
            Y = [ctx.real(f"y{r}.{i}", -5, 5) for i in range(n_point)]
            told = list(Y)
            bad = None
            if nan and r == rounds - 1:
                bad = ctx.choice("failed", tuple(range(n_point)))
                told[bad] = np.nan
            before = [len(b.data) if hasattr(b, "data") else 0 for b in opt._bo]
            keep = [dict(x) for x in X]
            opt.tell(X, told)
            count += n_point
            for i in range(n_point):
                if i != bad:
                    X_all.append(keep[i]), Y_all.append(Y[i]), W_all.append(W[i])
            ctx.check(opt.eval_count == count and opt.iter_count == r + 1, "every evaluation and iteration is counted")
        D = opt.data
        ctx.check(len(D) == len(X_all), "every successful evaluation is recorded")
        rows = D.to_dict()
        for got, x, y, f in zip(rows, X_all, Y_all, list(np.asarray(D.fitness).ravel())):
            ctx.check(ctx.all([f == y] + [(got[k] is None) == (x[k] is None) if x[k] is None or got[k] is None else same_val(ctx, pyval(got[k]), pyval(x[k])) for k in names]), "points with their values in order")
        best = ctx.min(Y_all) if mn else ctx.max(Y_all)
        xo = opt.xopt
        ctx.check(np.asarray(xo.fitness).ravel()[0] == best, "the best value")
        # each subspace's optimizer has been told its own evaluations
        for w in range(nw):
            k = [i for i, (d, _) in enumerate(opt.subspaces) if d == WORLDS[mk][w][0]]
            ctx.check(len(k) == 1, "one optimizer per subspace")
            b = opt._bo[k[0]]
            want = [(x, y) for x, y, v in zip(X_all, Y_all, W_all) if v == w]
            have = b.data if hasattr(b, "data") else []
            ctx.check(len(have) == len(want), "a subspace's optimizer is told its evaluations")
            if len(have) == len(want) and want:
                for got, f, (x, y) in zip(have.to_dict(), list(np.asarray(have.fitness).ravel()), want):
                    ctx.check(set(got) == WORLDS[mk][w][1], "with its own variables")
                    ctx.check(ctx.all([f == y] + [same_val(ctx, pyval(got[n]), pyval(x[n])) for n in got]), "with their values")

    fn.__doc__ = f"{mk.__name__}: batches of {n_point}, {rounds} rounds{', one failed evaluation' if nan else ''}"
    return fn


def failed(mk, n_point):
    def fn(ctx):
        """every evaluation of the first batch fails"""
        opt = setup(ctx, mk, n_point, True)
        space = mk()
        warm = ctx.choice("warm", (False, True))
        X = opt.ask()
        opt.tell(X, [np.nan] * n_point, warm_start=warm)
        ctx.check(opt.eval_count == n_point and opt.iter_count == (0 if warm else 1), "failed evaluations are counted")
        ctx.check(not hasattr(opt, "data") or len(opt.data) == 0, "failed evaluations are not recorded")
        X = opt.ask()
        ctx.check(len(X) == n_point, "as many points as requested")
        for x in X:
            check_point(ctx, mk, space, x)
        Y = [ctx.real(f"y{i}", -5, 5) for i in range(n_point)]
        opt.tell(X, list(Y))
        ctx.check(opt.eval_count == 2 * n_point and opt.iter_count == (1 if warm else 2), "every evaluation and iteration is counted")
        ctx.check(len(opt.data) == n_point and ctx.seq_eq(list(np.asarray(opt.data.fitness).ravel()), Y), "successful evaluations are recorded")

    return fn


SUITE.add("failed-2", failed(space1, 2), time_s=60)
SUITE.add("failed-3", failed(space2, 3), tiers=("thorough",), time_s=240)
SUITE.add("space1-1", ask_tell(space1, 2, 1), time_s=60)
SUITE.add("space1-2", ask_tell(space1, 2, 2), tiers=("thorough",), time_s=240)
SUITE.add("space1-3", ask_tell(space1, 3, 1), time_s=60)
SUITE.add("space1-2-nan", ask_tell(space1, 3, 1, True), time_s=60)
SUITE.add("space2-3", ask_tell(space2, 3, 1), time_s=60)
SUITE.add("space2-2", ask_tell(space2, 2, 2), tiers=("thorough",), time_s=240)
