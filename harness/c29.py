"""C29  forests predict the mean and the spread of their trees, aggregated models the weighted sum"""
import numpy as np

import bayes_optim.surrogate.random_forest as rf_mod
from bayes_optim.search_space import Bool, Discrete, Integer, Real, SearchSpace
from bayes_optim.solution import Solution
from bayes_optim.surrogate.random_forest import RandomForest, SurrogateAggregation
from engine import sym
from engine.case import Suite

SUITE = Suite("C29", bounds=["one or two points with one to three numeric and zero to two categorical variables at any positions, arbitrary numeric values and levels",
                             "two or three trees (or models) with arbitrary predictions, one or two outputs, arbitrary weights"],
              outside=["how the trees are grown (sklearn)", "Tchebycheff aggregation (not implemented)"],
              assumptions=["sklearn's validation of the encoded points is the identity", "the one-hot encoding itself is sklearn's"])


def arr(ctx, v):
    return np.array(v, dtype=object if ctx.symbolic else float)


class Tree:
    def __init__(self, f):
        self.f = f

    def predict(self, X, check_input=True):
        return self.f(X)


class Serial:
    def __init__(self, *a, **k):
        pass

    def __call__(self, jobs):
        return [f(*a, **k) for f, a, k in jobs]


def forest(ctx, levels, n_trees):
    rf = RandomForest(n_estimators=n_trees) if levels is None else RandomForest(n_estimators=n_trees, levels=levels)
    ctx.patch(rf_mod, "check_is_fitted", lambda *a, **k: None)
    ctx.patch(rf_mod, "Parallel", Serial)
    ctx.patch(rf_mod, "delayed", lambda f: lambda *a, **k: (f, a, k))
    seen = []

    def valid(X):
        seen.append(np.asarray(X))
        return np.asarray(X)

    rf._validate_X_predict = valid
    return rf, seen


def trees(n_out):
    def fn(ctx):
        n, k = ctx.choice("shape", ((1, 2), (2, 2), (2, 3), (1, 3)))
        rf, seen = forest(ctx, ctx.choice("levels", ({}, None)), k)
        shape = (n,) if n_out == 1 else (n, n_out)
        V = [np.array([ctx.real(f"t{i}.{j}", -5, 5) for j in range(n * n_out)], dtype=object if ctx.symbolic else float).reshape(shape) for i in range(k)]
        rf.estimators_ = [Tree(lambda X, v=v: v) for v in V]
        rf.n_outputs_ = n_out
        X = [[ctx.real(f"x{i}.{j}", -5, 5) for j in range(2)] for i in range(n)]
        y, mse = rf.predict(arr(ctx, X), eval_MSE=True)
        y1 = rf.predict(arr(ctx, X))
        ctx.check(np.shape(y) == shape and np.shape(mse) == shape and np.shape(y1) == shape, "one value per point and output")
        for j in range(n * n_out):
            vs = [v.ravel()[j] for v in V]
            m = sum(vs) / k
            ctx.check_near(np.asarray(y, dtype=object).ravel()[j], m, "prediction", 1e-9)
            ctx.check_near(np.asarray(y1, dtype=object).ravel()[j], m, "prediction without uncertainty", 1e-9)
            ctx.check_near(np.asarray(mse, dtype=object).ravel()[j], sum((v - m) * (v - m) for v in vs) / (k - 1), "uncertainty", 1e-7)
        ctx.check(ctx.seq_eq(list(np.asarray(seen[0], dtype=object).ravel()), [v for r in X for v in r]), "numeric points are passed on")

    fn.__doc__ = f"mean and variance of the trees' predictions, {n_out} outputs"
    return fn


SUITE.add("trees-1", trees(1), time_s=60)
SUITE.add("trees-2", trees(2), time_s=60)

SPACES = {
    "rdi": lambda: SearchSpace([Real([-5, 5], "r"), Discrete(["A", "B", "C"], "d"), Integer([0, 9], "i")]),
    "dbr": lambda: SearchSpace([Discrete(["B", "A"], "d"), Bool("b"), Real([-5, 5], "r")]),
    "brd": lambda: SearchSpace([Bool("b"), Real([-5, 5], "r"), Discrete(["x", "y", "z"], "d")]),
    "rir": lambda: SearchSpace([Real([-5, 5], "r"), Integer([0, 9], "i"), Real([0, 1], "s")]),
    "drd": lambda: SearchSpace([Discrete(["x", "y", "z"], "d"), Real([-5, 5], "r"), Discrete([1, 2], "e")]),
}


def encode(name):
    def fn(ctx):
        sp = SPACES[name]()
        rf, seen = forest(ctx, sp.levels or {}, 2)
        n = ctx.choice("n", (1, 2))
        rows = []
        for i in range(n):
            row = []
            for v in sp.data:
                k = type(v).__name__
                if k == "Real":
                    row.append(ctx.real(f"x{i}.{v.name}", -5, 5))
                elif k == "Integer":
                    row.append(ctx.int(f"x{i}.{v.name}", 0, 9))
                else:
                    row.append(ctx.choice(f"x{i}.{v.name}", tuple(v.bounds)))
            rows.append(row)
        how = ctx.choice("how", ("list", "array", "solution"))
        X = [list(r) for r in rows] if how == "list" else Solution(rows, var_name=list(sp.var_name)) if how == "solution" else np.array(rows, dtype=object)
        fitted = []
        base = RandomForest.__mro__[1]
        ctx.patch(base, "fit", lambda self, X, y, *a, **k: fitted.append((np.asarray(X), np.asarray(y))) or self)
        y = [ctx.real(f"y{i}", -5, 5) for i in range(n)]
        flat = ctx.choice("flat", (True, False))
        rf.fit(X, arr(ctx, y) if flat else arr(ctx, y).reshape(-1, 1))
        ctx.check(rf.is_fitted and len(fitted) == 1, "fitted")
        rf.estimators_ = [Tree(lambda X: np.zeros(len(X))) for _ in range(2)]
        rf.n_outputs_ = 1
        rf.predict(X)
        E, Y = fitted[0]
        ctx.check(np.shape(Y) == (n,) and ctx.seq_eq(list(Y), y), "the trees learn the values given")
        P = seen[-1]
        cat = [j for j, v in enumerate(sp.data) if type(v).__name__ in ("Discrete", "Bool")]
        num = [j for j in range(len(sp.data)) if j not in cat]
        lev = [tuple(sp.data[j].bounds) for j in cat]
        width = len(num) + sum(len(l) for l in lev)
        for A, label in ((E, "training"), (P, "prediction")):
            ctx.check(np.shape(A) == (n, width), f"{label}: one column per number and per level")
            if np.shape(A) != (n, width):
                return
            for i, row in enumerate(rows):
                ctx.check(ctx.all([A[i, c] == row[j] for c, j in enumerate(num)]), f"{label}: numbers in order")
                c = len(num)
                for j, l in zip(cat, lev):
                    code = [A[i, c + q] for q in range(len(l))]
                    ctx.check(all(code[q] == (1 if l[q] == row[j] else 0) for q in range(len(l))), f"{label}: the level's own column is one")
                    c += len(l)
        src = X.tolist() if how != "list" else X
        ctx.check(ctx.all([ctx.seq_eq(list(a), b) for a, b in zip(src, rows)]), "the points are kept")

    fn.__doc__ = f"encoding of points, {name}"
    return fn


for s in SPACES:
    SUITE.add(f"encode-{s}", encode(s), time_s=60)


class Sur:
    def __init__(self, ctx, y, v, col):
        self.y, self.v, self.ctx, self.col = y, v, ctx, col

    def predict(self, X, eval_MSE=False):
        f = (lambda a: arr(self.ctx, a).reshape(-1, 1)) if self.col else (lambda a: arr(self.ctx, a))
        return (f(self.y), f(self.v)) if eval_MSE else f(self.y)


@SUITE.case(time_s=60)
def weighted_sum(ctx):
    """the weighted sum of independent models: mean and variance"""
    k, n = ctx.choice("shape", ((2, 1), (2, 2), (3, 1), (1, 2)))
    Y = [[ctx.real(f"y{i}.{j}", -5, 5) for j in range(n)] for i in range(k)]
    V = [[ctx.real(f"v{i}.{j}", 0, 4) for j in range(n)] for i in range(k)]
    W = [ctx.real(f"w{i}", -2, 2) for i in range(k)]
    form = ctx.choice("weights", ("list", "column"))
    m = SurrogateAggregation([Sur(ctx, y, v, i % 2 == 0) for i, (y, v) in enumerate(zip(Y, V))], aggregation="WS",
                             weights=W if form == "list" else arr(ctx, W).reshape(-1, 1))
    X = np.zeros((n, 2))
    y, mse = m.predict(X, eval_MSE=True)
    y1 = m.predict(X)
    ctx.check(np.size(y) == n and np.size(mse) == n and np.size(y1) == n, "one value per point")
    for j in range(n):
        w = sum(W[i] * Y[i][j] for i in range(k))
        ctx.check_near(np.asarray(y, dtype=object).ravel()[j], w, "prediction", 1e-9)
        ctx.check_near(np.asarray(y1, dtype=object).ravel()[j], w, "prediction", 1e-9)
        ctx.check_near(np.asarray(mse, dtype=object).ravel()[j], sum(W[i] * W[i] * V[i][j] for i in range(k)), "uncertainty", 1e-9)
